"""The checks: one function per property."""
from . import gen, msio
from .gen import names

PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


def clean(gens, p):
    """terms with coefficients that are not zero in the field; no zero polynomial"""
    r = []
    for f in gens:
        d = {}
        for m, c in f:
            d[m] = d.get(m, 0) + c
        g = [(m, c) for m, c in d.items() if (c if not p else (c % p if not hasattr(c, "numerator") or c.denominator == 1 else c.numerator % p))]
        if g:
            r.append(g)
    return r


def case(cid, n, p, gens, want, runs, nm=None, **k):
    c = dict(id=cid, names=nm or names(n), p=p, gens=clean(gens, p), want=want, runs=runs)
    c.update(k)
    return c


def gb2(*a, **k):
    return dict(args=list(a) + ["-g", "2"], kind="gb2", **k)


def gb1(*a, **k):
    return dict(args=list(a) + ["-g", "1"], kind="gb1", **k)


def usable(cases):
    return [c for c in cases if c["gens"]]


# ---------------------------------------------------------------- families of ideals
def ideals(rnd, p, count, tag, light=False):
    """(id, n, gens) of many kinds"""
    out = []
    kinds = ["sparse"] * 4 + ["dense"] * 2 + ["mixed"] * 3 + ["unit", "curve", "curve", "monomial", "binomial", "separate",
                                                              "multiple", "linear", "twist", "twist"]
    if p == 2:
        kinds += ["boolean"] * 4
    for i in range(count):
        k = rnd.choice(kinds)
        n = rnd.choice([1, 2, 2, 3, 3, 3, 4])
        if k == "sparse":
            n = rnd.choice([2, 3, 3, 4, 5])
            g = gen.sparse(rnd, n, p, deg=rnd.choice([2, 2, 3]) if n < 5 else 2, terms=rnd.choice([3, 4, 5]),
                           m=rnd.choice([n, n, n + 1, max(1, n - 1)]))
        elif k == "dense":
            n = rnd.choice([2, 3, 3])
            g = gen.dense(rnd, n, p, deg=2 if n > 2 else rnd.choice([2, 3] if light else [2, 3, 4]), m=rnd.choice([n, n + 1]), size=9)
        elif k == "mixed":
            n = rnd.choice([2, 3, 3])
            g = gen.mixed(rnd, gen.sparse(rnd, n, p, deg=2, terms=4, m=n, size=5), p, n)
        elif k == "unit":
            g = gen.unit(rnd, n, p)
        elif k == "curve":
            n = max(n, 2)
            g = gen.curve(rnd, n, p)
        elif k == "monomial":
            g = gen.monomial(rnd, n, rnd.randint(1, 5))
        elif k == "binomial":
            g = gen.binomial(rnd, n, rnd.randint(1, n + 1), p)
        elif k == "separate":
            g = gen.separate(rnd, n, p)
        elif k == "multiple":
            g = gen.multiple(rnd, n, p)
        elif k == "twist":
            n = rnd.choice([2, 3, 4])
            g = gen.twist(rnd, n, p, rnd.choice([gen.separate, gen.multiple, gen.curve])(rnd, n, p))
        elif k == "linear":
            n = rnd.choice([2, 3, 5, 6])
            g = gen.sparse(rnd, n, p, deg=1, terms=3, m=rnd.randint(1, n + 1))
        else:
            n = rnd.choice([3, 4, 5, 6])
            g = gen.boolean(rnd, n, rnd.randint(1, n + 1), extra=rnd.random() < .7)
        out.append(("%s_%s%d_" % (tag, k, p) + str(i), n, g))
    return out


def classic(p, big=False):
    L = [("katsura3", 4, gen.katsura(3)), ("katsura4", 5, gen.katsura(4)), ("cyclic3", 3, gen.cyclic(3)),
         ("cyclic4", 4, gen.cyclic(4)), ("cyclic5", 5, gen.cyclic(5)), ("eco4", 4, gen.eco(4)), ("eco5", 5, gen.eco(5)),
         ("eco6", 6, gen.eco(6)), ("noon3", 3, gen.noon(3))]
    if big:
        L += [("katsura5", 6, gen.katsura(5)), ("katsura6", 7, gen.katsura(6)), ("eco7", 7, gen.eco(7)), ("noon4", 4, gen.noon(4))]
    return [("%s_p%d_" % (a, p), n, g) for a, n, g in L]


def jittered(ctx, rnd, run):
    """the run in the build that disturbs the schedule of the threads"""
    return dict(run, binary=ctx.binary("jitter", jitter=True),
                env={"VT_JITTER": str(rnd.randint(1, 10 ** 6)), "VT_JITTER_LOG": ctx.scratch + "/swaps"})


LA = [["-l", "2"], ["-l", "44"], ["-l", "1"], ["-l", "42"], []]
SZ = [[], [], [], ["-s", "1"], ["-s", "3"], ["-s", "2", "-m", "2"]]


def la(rnd):
    """linear algebra; often a hash table that has to grow"""
    return rnd.choice(LA) + rnd.choice(SZ)


@prop
def C01(ctx):
    """reduced Groebner bases over prime fields"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for cls in (gen.PRIMES8, gen.PRIMES16, gen.PRIMES17, gen.PRIMES24, gen.PRIMES31):
        for j in range(60 if q else 400):
            p = rnd.choice(cls)
            for cid, n, g in ideals(rnd, p, 1, "gb"):
                cs.append(case("%s%d" % (cid, j), n, p, g, "gb", [gb2(*la(rnd), seed=rnd.randrange(10 ** 6)), gb1()]))
        p = rnd.choice(cls)
        for cid, n, g in classic(p, big=not q):
            cs.append(case(cid, n, p, g, "gb", [gb2(*la(rnd))]))
        for j in range(2 if q else 10):
            n = rnd.choice([2, 3])
            cs.append(case("high_%d_%d" % (p, j), n, p, gen.high(rnd, n, p), "gb", [gb2()]))
        for j in range(1 if q else 6):
            n = rnd.choice([9, 17, 20, 33] if q else [9, 16, 17, 20, 31, 32, 33, 40, 64])
            cs.append(case("many_%d_%d" % (p, j), n, p, gen.many(rnd, n, p), "gb", [gb2()], nm=names(n, "x")))
        for j in range(8 if q else 60):
            p = rnd.choice(cls)
            n, g = gen.heavy(rnd, p)
            cs.append(case("heavy_%d_%d" % (p, j), n, p, g, "gb", [gb2(*la(rnd)), gb2(*la(rnd), seed=j)]))
    for j, k in enumerate(["even", "odd", "low", "high", "any"] * (2 if q else 12)):      # monomials with equal hash
        n = rnd.choice([44, 46, 48, 51, 56] if k != "any" else [24, 29, 32, 33, 40])
        p = rnd.choice(gen.PRIMES8 + gen.PRIMES31)
        cs.append(case("collide_%s_%d_%d" % (k, p, j), n, p, gen.collide(rnd, n, p, k), "gb", [gb2()], nm=names(n, "x")))
    ctx.conformance(usable(cs))


@prop
def C02(ctx):
    """elimination"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for cls in (gen.PRIMES8[2:], gen.PRIMES16, gen.PRIMES24, gen.PRIMES31, [0]):
        for j in range(50 if q else 300):
            p = rnd.choice(cls)
            for cid, n, g in ideals(rnd, p, 1, "el", light=True):
                if n < 2 or (p == 0 and n > 3):
                    continue
                e = rnd.randint(1, n - 1)
                cs.append(case("%s%d" % (cid, j), n, p, g, "gb", [gb2("-e", str(e), *la(rnd)), gb1("-e", str(e))], e=e))
        p = rnd.choice(cls)
        for cid, n, g in classic(p):
            if n < 5:
                cs.append(case(cid, n, p, g, "gb", [gb2("-e", "1")], e=1))
        for j in range(6 if q else 50):
            if p:
                p = rnd.choice(cls)
                n, g = gen.heavy(rnd, p)
                if len(g[0]) < 16 and n < 4:
                    e = rnd.randint(1, n - 1)
                    cs.append(case("heavy_%d_%d" % (p, j), n, p, g, "gb", [gb2("-e", str(e), *la(rnd))], e=e))
    ctx.conformance(usable(cs))


@prop
def C03(ctx):
    """Groebner bases over the rationals"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for cid, n, g in ideals(rnd, 0, 220 if q else 1500, "gb"):
        if rnd.random() < .25:
            g = gen.fractions(rnd, g, big=rnd.random() < .3)
        cs.append(case(cid, n, 0, g, "gb", [gb2(*la(rnd), seed=rnd.randrange(10 ** 6)), gb1(seed=rnd.randrange(10 ** 6))]))
    for cid, n, g in classic(0, big=not q):
        cs.append(case(cid, n, 0, g, "gb", [gb2()]))
    for j in range(10 if q else 80):
        n, d, m = rnd.choice([(2, 4, 2), (3, 2, 3), (3, 2, 4), (3, 3, 3), (4, 2, 4), (4, 2, 5), (3, 3, 2)])
        cs.append(case("heavy_%d" % j, n, 0, gen.dense(rnd, n, 0, deg=d, m=m, size=rnd.choice([3, 20, 10 ** 9])), "gb",
                       [gb2(*la(rnd), seed=j)]))
    for j in range(2 if q else 10):
        n = rnd.choice([2, 3])
        cs.append(case("high_%d" % j, n, 0, gen.high(rnd, n, 0), "gb", [gb2()]))
        n = rnd.choice([9, 17, 20])
        cs.append(case("many_%d" % j, n, 0, gen.many(rnd, n, 0), "gb", [gb2()], nm=names(n, "x")))
    ctx.conformance(usable(cs))


def solve_systems(rnd, p, count, tag):
    out = []
    for i in range(count):
        k = rnd.choice(["sparse", "sparse", "shape", "shape", "separate", "multiple", "unit", "curve", "dense", "linear", "wide"])
        n = rnd.choice([1, 2, 2, 3])
        if k == "sparse":
            n = rnd.choice([2, 2, 3])
            g = gen.sparse(rnd, n, p, deg=2 if n > 2 else 3, terms=4)
        elif k == "dense":
            n = rnd.choice([2, 2, 3])
            g = gen.dense(rnd, n, p, deg=2, size=9)
        elif k == "shape":
            g = gen.shape(rnd, n, rnd.randint(1, 6))
        elif k == "separate":
            g = gen.separate(rnd, n, p, deg=2 if n > 2 else 3)
        elif k == "multiple":
            n = min(n, 2)
            g = gen.multiple(rnd, n, p)
        elif k == "unit":
            g = gen.unit(rnd, n, p)
        elif k == "curve":
            n = max(n, 2)
            g = gen.curve(rnd, n, p)
        elif k == "wide":
            n = rnd.choice([4, 5, 6, 7, 9])
            g = gen.many(rnd, n, p) if rnd.random() < .6 else gen.shape(rnd, n, rnd.randint(1, 4))
        else:
            n = rnd.choice([2, 3, 5])
            g = gen.sparse(rnd, n, p, deg=1, terms=3, m=n)
        out.append(("%s_%s%d_" % (tag, k, p) + str(i), n, g))
    return out


def real(*a, **k):
    return dict(args=list(a), kind="real", **k)


def param(*a, **k):
    return dict(args=["-P", "2"] + list(a), kind="param", **k)


def both(*a, **k):
    return dict(args=["-P", "1"] + list(a), kind="both", **k)


def factored(rnd, tag, count, sizes, runs, multiple=True):
    """systems whose solutions are known by construction"""
    cs = []
    for j in range(count):
        n = rnd.choice([1, 1, 1, 2, 2, 3])
        d = rnd.randint(*rnd.choice(sizes))
        fs = gen.factors(rnd, d, multiple=multiple and d < 13 and rnd.random() < .3, run=rnd.random() < .35)
        cs.append(case("%s_%d" % (tag, j), n, 0, gen.factored(rnd, n, fs, d), "solve", runs(j), facs=fs))
    return cs


def grid(rnd, tag, count, deg):
    """many multiple roots on a grid: the parameter is a linear form, and the coordinates have to be bounded"""
    cs = []
    for j in range(count):
        h = gen.Q(1, rnd.choice([1, 2, 8]))
        a = rnd.randint(-20, -1)
        pts = [a + i * h for i in range(deg)]
        fs = [(gen.from_roots([x]), rnd.choice([1, 2, 3]) if i < deg // 3 else 1) for i, x in enumerate(pts) if rnd.random() < .8]
        cs.append(case("%s_%d" % (tag, j), 1, 0, gen.factored(rnd, 1, fs, 9), "solve", [real(seed=j)], facs=fs))
    return cs


@prop
def C05(ctx):
    """real solutions"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for cid, n, g in solve_systems(rnd, 0, 110 if q else 900, "re"):
        if rnd.random() < .2:
            g = gen.fractions(rnd, g)
        cs.append(case(cid, n, 0, g, "solve", [real(*rnd.choice(SZ), seed=rnd.randrange(10 ** 6))]))
    for j in range(25 if q else 200):       # demanding univariate parts
        n = rnd.choice([1, 1, 2])
        cs.append(case("roots_%d" % j, n, 0, gen.shape(rnd, n, rnd.randint(3, 9)), "solve", [real(seed=j)]))
    cs += factored(rnd, "factors", 260 if q else 3000, [(1, 6), (5, 12), (10, 30)],
                   lambda j: [rnd.choice([real, both])(*rnd.choice([[], [], ["-t", "4"], ["-v", "1"], ["-v", "2"]]), seed=j, ofile=1, chatter=1)])
    cs += factored(rnd, "large", 8 if q else 60, [(40, 90), (100, 160)], lambda j: [real("-t", rnd.choice(["1", "4"]), seed=j)])
    cs += factored(rnd, "huge", 1 if q else 16, [(270, 330)], lambda j: [real("-t", rnd.choice(["1", "4"]), seed=j)])
    cs += grid(rnd, "grid", 2 if q else 10, 60 if q else 90)
    for j in range(20 if q else 200):       # the variables change places
        n = rnd.choice([2, 2, 3])
        cs.append(case("swap_%d" % j, n, 0, gen.swapped(rnd, n), "solve", [both(seed=j), real(seed=j)]))
    cs.append(case("hidden", 2, 0, [[((3, 0), 32), ((2, 0), -42), ((1, 0), -89), ((0, 0), -15)],
                                    [((1, 1), 1), ((0, 1), 1), ((1, 0), -1), ((0, 0), -1)],
                                    [((0, 2), 1), ((0, 1), -2), ((0, 0), 1)]], "solve", [both()], nm=["x", "y"]))   # a known finding
    cs.append(case("unlucky", 3, 0, [[((0, 0, 0), 3), ((1, 0, 0), -1), ((2, 0, 0), 1)], [((0, 0, 0), -8), ((0, 1, 0), -5), ((0, 2, 0), 1)],
                                     [((0, 0, 0), 5), ((0, 0, 1), 3), ((0, 0, 2), 1)]], "solve", [real(seed=285216)],
                   nm=["x", "y", "z"], limit=4))    # another one
    for cid, n, g in classic(0)[:2] + classic(0)[5:7]:
        cs.append(case(cid, n, 0, g, "solve", [both(), real()], big=1))
    ctx.conformance(usable(cs))


@prop
def C06(ctx):
    """rational parametrizations"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for cid, n, g in solve_systems(rnd, 0, 180 if q else 1200, "pa"):
        cs.append(case(cid, n, 0, g, "solve", [param(*rnd.choice(SZ), seed=rnd.randrange(10 ** 6))]))
    for cls in ([65521, 65519, 32003], [65537, 131101], [1073741827, 1303905301]):
        for cid, n, g in solve_systems(rnd, rnd.choice(cls), 50 if q else 400, "pa"):
            p = int(cid.split("_")[1].lstrip("abcdefghijklmnopqrstuvwxyz"))
            cs.append(case(cid, n, p, g, "solve", [param(*rnd.choice(SZ), seed=rnd.randrange(10 ** 6))]))
    for p in (0, 65521, 1073741827):
        for cid, n, g in classic(p):
            if not cid.startswith("cyclic4") and not (p == 0 and cid.startswith("cyclic5")):
                cs.append(case(cid, n, p, g, "solve", [param()], big=int(p == 0 and n > 3)))
    ctx.conformance(usable(cs))


@prop
def C04(ctx):
    """options that only choose an algorithm do not change the answer"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    L = []
    for p in (0, 101, 32003, 65537, 2147483647):
        L += ideals(rnd, p, 9 if q else 80, "cf") + classic(p)[:5]
    for cid, n, g in L:
        p = int("".join(ch for ch in cid.split("_")[1] if ch.isdigit()))
        conf = []
        for _ in range(4):
            a = list(rnd.choice(LA))
            if rnd.random() < .5:
                a += ["-t", str(rnd.choice([2, 3, 4, 8]))]
            if rnd.random() < .5:
                a += ["-m", str(rnd.choice([1, 2, 5, 50]))]
            if rnd.random() < .5:
                a += ["-s", str(rnd.choice([1, 4, 8, 12, 20]))]
            if rnd.random() < .5:
                a += ["-u", str(rnd.choice([1, 2, 3]))]
            run = gb2(*a, seed=rnd.randrange(10 ** 6), ofile=int(rnd.random() < .3))
            conf.append(jittered(ctx, rnd, run) if "-t" in a else run)
        a = rnd.choice([["-v", "1"], ["-v", "2"]])
        conf.append(gb2(*a, ofile=1, chatter=1))
        cs.append(case(cid, n, p, g, "gb", conf, vary=1))
    for j in range(18 if q else 150):       # matrices with many rows, threads
        p = rnd.choice(rnd.choice([gen.PRIMES8, gen.PRIMES16, gen.PRIMES17, gen.PRIMES24, gen.PRIMES31]))
        n, d, m = rnd.choice([(2, 4, 3), (3, 2, 4), (3, 3, 3), (3, 3, 4), (4, 2, 4), (4, 2, 6)])
        cs.append(case("rows_%d_%d" % (p, j), n, p, gen.dense(rnd, n, p, deg=d, m=m, size=9), "gb", [
            jittered(ctx, rnd, gb2(*lo, "-t", str(rnd.choice([2, 3, 4, 8])), seed=rnd.randrange(10 ** 6))) for lo in LA], vary=1))
    for cid, n, g in solve_systems(rnd, 0, 25 if q else 150, "cs"):
        conf = [both()]
        for _ in range(4):
            a = list(rnd.choice(LA))
            for o, v in (("-t", [2, 4, 8]), ("-m", [1, 3, 20]), ("-s", [1, 8, 20]), ("-u", [1, 2]), ("-d", [0, 1, 2, 3, 4]), ("-L", [1]),
                         ("-p", [16, 64, 200])):
                if rnd.random() < .4:
                    a += [o, str(rnd.choice(v))]
            run = rnd.choice([param, real, both])(*a, seed=rnd.randrange(10 ** 6), ofile=int(rnd.random() < .3))
            conf.append(jittered(ctx, rnd, run) if "-t" in a else run)
        conf.append(param("-v", "2", ofile=1, chatter=1))
        conf.append(param("-c", str(rnd.choice([0, 1])), mayfail=1))
        cs.append(case(cid, n, 0, g, "solve", conf, vary=1))
    for cid, n, g in solve_systems(rnd, 65521, 14 if q else 100, "cs"):
        conf = [param("-d", str(d), *la(rnd), seed=rnd.randrange(10 ** 6)) for d in range(5)]
        cs.append(case(cid, n, 65521, g, "solve", conf, vary=1))
    ctx.conformance(usable(cs))


@prop
def C09(ctx):
    """schedules of the threads"""
    q = ctx.quick
    rnd = ctx.rnd()
    ctx.model("PivotRace")
    ctx.model("PivotRace", cfg="PivotRace3")
    for wrong in ("Drop", "Torn", "Late"):
        ctx.model("PivotRace", cfg="PivotRace" + wrong, expect=12)
    cs = []

    def runs(k):
        return [jittered(ctx, rnd, gb2(*rnd.choice(LA), "-t", str(rnd.choice([2, 3, 4, 8])), seed=rnd.randrange(10 ** 6))) for _ in range(k)]
    for cls in (gen.PRIMES8, gen.PRIMES16, [p for p in gen.PRIMES16 if p > 2 ** 15], gen.PRIMES17, gen.PRIMES24, gen.PRIMES31, [0]):
        p = rnd.choice(cls)
        for cid, n, g in classic(p):
            if p or n < 5:
                cs.append(case(cid, n, p, g, "gb", runs(4), vary=1))
        for j in range(8 if q else 80):
            p = rnd.choice(cls)
            n, d, m = rnd.choice([(2, 4, 3), (3, 2, 4), (3, 3, 3), (3, 3, 4), (4, 2, 4), (4, 2, 6)] if p else [(2, 3, 3), (3, 2, 3), (3, 2, 4)])
            cs.append(case("dense_%d_%d" % (p, j), n, p, gen.dense(rnd, n, p, deg=d, m=m, size=9), "gb", runs(4), vary=1))
        for j in range(8 if q else 80):
            p = rnd.choice(cls)
            for cid, n, g in ideals(rnd, p, 1, "th", light=not p):
                cs.append(case("%s%d" % (cid, j), n, p, g, "gb", runs(3), vary=1))
        for j in range(4 if q else 40):         # normal forms
            p = rnd.choice(cls)
            if p:
                n, d, m = rnd.choice([(2, 4, 3), (3, 2, 4), (3, 3, 3)])
                g = clean(gen.dense(rnd, n, p, deg=d, m=m, size=9), p)
                fs = tails(rnd, n, p, g, 6)
                cs.append(case("nf_%d_%d" % (p, j), n, p, g + fs, "nf", [jittered(ctx, rnd, dict(
                    args=["-n", "6", "-t", "4"] + rnd.choice(LA), kind="nf", seed=j)) for _ in range(3)], k=6, vary=1))
    for j in range(25 if q else 300):
        cs += factored(rnd, "roots%d" % j, 1, [(5, 12), (10, 30), (30, 60), (100, 160)], lambda _: [
            jittered(ctx, rnd, rnd.choice([real, both])("-t", str(rnd.choice([2, 4, 8])), seed=j)) for _ in range(2)])
    for cid, n, g in solve_systems(rnd, 0, 25 if q else 200, "th"):
        cs.append(case(cid, n, 0, g, "solve", [jittered(ctx, rnd, rnd.choice([real, both, param])(
            "-t", str(rnd.choice([2, 4, 8])), seed=rnd.randrange(10 ** 6))) for _ in range(2)]))
    ctx.conformance(usable(cs))
    try:
        t = [tuple(map(int, x.split())) for x in open(ctx.scratch + "/swaps")]
    except OSError:
        t = []
    ctx.cov["compare_and_swaps"] = sum(a for a, _ in t)
    ctx.cov["compare_and_swaps_lost"] = sum(b for _, b in t)


@prop
def C07(ctx):
    """none, finitely many or infinitely many solutions"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for p in (0, 251, 65521, 1073741827):
        for j in range(70 if q else 250):
            n = rnd.choice([1, 2, 3, 3, 4])
            k = rnd.choice(["unit", "curve", "sparse", "over", "monomial", "binomial", "near", "wide", "wide"])
            if k == "unit":
                g = gen.unit(rnd, n, p)
            elif k == "curve":
                n = max(2, n)
                g = gen.curve(rnd, n, p)
            elif k == "sparse":
                g = gen.sparse(rnd, n, p, deg=2, terms=3, m=rnd.randint(1, n + 1))
            elif k == "over":
                g = gen.sparse(rnd, n, p, deg=1, terms=2, m=n + 1)
            elif k == "monomial":
                g = gen.monomial(rnd, n, rnd.randint(1, 4), deg=2)
            elif k == "binomial":
                g = gen.binomial(rnd, n, rnd.randint(1, n + 1), p, deg=2)
            elif k == "wide":   # many variables, and perhaps one of them free
                n = rnd.choice([5, 6, 7, 8, 9, 12])
                if rnd.random() < .5:
                    g = gen.many(rnd, n, p)
                else:
                    g = gen.separate(rnd, n, p, deg=1)
                    for i in rnd.sample(range(n), 2):
                        g[i] = gen.padd(g[i], gen.pmul(gen.var(n, i), gen.var(n, i)), 7)
                if rnd.random() < .6:
                    del g[rnd.randrange(len(g))]
                if rnd.random() < .3:
                    g.append(gen.sparse_poly(rnd, n, 2, 2, p, 5))
                g = [f for f in g if f]
            else:           # zero-dimensional but for one variable
                n = max(2, n)
                g = gen.separate(rnd, n, p, deg=2)
                del g[rnd.randrange(len(g))]
                if rnd.random() < .5:
                    g.append(gen.sparse_poly(rnd, n, 2, 2, p, 5))
            run = rnd.choice([param, real] if p == 0 else [param])
            small = p == 251
            cs.append(case("dim_%s%d_%d" % (k, p, j), n, p, g, "solve", [run(mayfail=int(small))]))
    ctx.conformance(usable(cs))


@prop
def C08(ctx):
    """the precision asked for"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for j in range(120 if q else 600):
        n = rnd.choice([1, 2, 2, 3])
        g = gen.shape(rnd, n, rnd.randint(1, 7)) if rnd.random() < .6 else gen.sparse(rnd, n, 0, deg=2, terms=4)
        k = rnd.choice([1, 2, 8, 31, 32, 33, 64, 100, 127, 128, 129, 200, 256, 300, 500, 1000])
        cs.append(case("prec_%d" % j, n, 0, g, "solve", [both("-p", str(k)), real("-p", str(k))],
                       width=[[1, 1], msio.big(2 ** k)]))
    for j in range(100 if q else 600):
        k = rnd.choice([1, 2, 8, 31, 32, 33, 64, 100, 127, 128, 129, 200, 256, 300, 500, 1000, 2000])
        cs += [dict(c, id="pfac_%d" % j, width=[[1, 1], msio.big(2 ** k)]) for c in
               factored(rnd, "pfac", 1, [(1, 6), (5, 12), (10, 30)], lambda _: [both("-p", str(k)), real("-p", str(k))], multiple=False)]
    ctx.conformance(usable(cs))


def tails(rnd, n, p, g, k):
    """polynomials to be reduced"""
    fs = []
    for _ in range(k):
        f = gen.sparse_poly(rnd, n, rnd.choice([1, 2, 3, 5]), rnd.choice([1, 3, 8]), p)
        if rnd.random() < .3:       # a member of the ideal, or nearly
            f = gen.norm(dict(gen.pmul(rnd.choice(g), f)), p)
            if rnd.random() < .5:
                f = gen.norm(dict(gen.padd(f, gen.var(n, 0))), p)
        fs.append(f or gen.const(n, 1))
    return fs


@prop
def C11(ctx):
    """normal forms"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for cls in (gen.PRIMES8, gen.PRIMES16, gen.PRIMES17, gen.PRIMES24, gen.PRIMES31):
        for j in range(50 if q else 250):
            p = rnd.choice(cls)
            for cid, n, g in ideals(rnd, p, 1, "nf"):
                g = clean(g, p)
                if not g:
                    continue
                k = rnd.choice([1, 1, 2, 3, 5, 8])
                fs = tails(rnd, n, p, g, k)
                cs.append(case("%s%d" % (cid, j), n, p, g + fs, "nf",
                               [dict(args=["-n", str(k)] + la(rnd) + rnd.choice([[], ["-t", "4"]]), kind="nf", seed=j)], k=k))
        for j in range(10 if q else 60):        # for a block order
            p = rnd.choice(cls)
            for cid, n, g in ideals(rnd, p, 1, "block", light=True):
                g = clean(g, p)
                if not g or n < 2:
                    continue
                k, e = rnd.choice([1, 2, 3]), rnd.randint(1, n - 1)
                cs.append(case("%s%d" % (cid, j), n, p, g + tails(rnd, n, p, g, k), "nf",
                               [dict(args=["-n", str(k), "-e", str(e)] + la(rnd), kind="nf", seed=j)], k=k, e=e))
        for j in range(12 if q else 60):        # the generators are a basis
            p = rnd.choice(cls)
            n = rnd.choice([1, 2, 3, 4])
            g = gen.triangular(rnd, n, p)
            for i in range(n):
                if rnd.random() < .4:
                    c = rnd.randrange(1, p)
                    g[i] = [(m, a * c % p) for m, a in g[i]]
            if rnd.random() < .3:
                h = dict(gen.pmul(rnd.choice(g), gen.var(n, rnd.randrange(n))))
                g.append(gen.norm(dict(gen.padd(gen.norm(h, p), rnd.choice(g))), p))
            if rnd.random() < .5:
                rnd.shuffle(g)
            k = rnd.choice([1, 2, 3, 5])
            fs = tails(rnd, n, p, g, k)
            cs.append(case("basis_%d_%d" % (p, j), n, p, g + fs, "nf", [dict(args=["-i", "-n", str(k)] + la(rnd) + rnd.choice([[], ["-t", "4"]]),
                                                                          kind="nf", seed=j)], k=k))
    ctx.conformance(usable(cs))


@prop
def C12(ctx):
    """the text of input files"""
    q = ctx.quick
    rnd = ctx.rnd()
    cs = []
    for cls in ([0], [0], gen.PRIMES8, gen.PRIMES16, gen.PRIMES17, gen.PRIMES24, gen.PRIMES31):
        for j in range(60 if q else 250):
            p = rnd.choice(cls)
            n = rnd.choice([1, 2, 2, 3, 3, 5])
            k = rnd.choice(["sparse", "sparse", "binomial", "shape", "linear", "high"])
            if k == "sparse":
                n = min(n, 3)
                g = gen.sparse(rnd, n, p, deg=2, terms=4, m=rnd.randint(1, n))
            elif k == "binomial":
                n = min(n, 3)
                g = gen.binomial(rnd, n, rnd.randint(1, n), p, deg=3)
            elif k == "shape":
                n = min(n, 3)
                g = gen.shape(rnd, n, rnd.randint(1, 4 if n < 3 else 3))
            elif k == "linear":
                g = gen.sparse(rnd, n, p, deg=1, terms=3, m=n)
            else:
                n = 1
                g = [[((rnd.choice([9, 99, 130, 260, 1000]),), 1), ((rnd.randint(0, 8),), rnd.choice([1, 2, 3]))]]
            g = clean(g, p)
            if p == 0 and rnd.random() < .3:
                g = gen.fractions(rnd, g, big=rnd.random() < .5 and n < 3)
            if not g:
                continue
            text, nm = gen.text_file(rnd, n, p, g)
            run = gb2() if rnd.random() < .7 else gb1()
            c = case("text_%s%d_%d" % (k, p, len(cs)), n, p, g, "gb", [run, gb2(ofile=1)], nm=nm, text=text)
            cs.append(c)
    cs.append(case("zero", 2, 65537, [[((1, 0), 1)], [((0, 2), 1), ((0, 0), 1)]], "gb", [gb2()],
                   text="x,y\n65537\nx,\n0,\ny^2+1\n"))      # a known finding
    ctx.conformance(cs)


def bad_prime_systems(rnd, D, F):
    """systems degenerate modulo the primes dividing D, and like a simpler one modulo those dividing F"""
    Q = gen.Q
    a = [rnd.choice([1, 2, 3, -1, -2, 5]) for _ in range(6)]
    v = lambda *m: tuple(m)
    f = rnd.choice([3, -5, 7]) + F
    return {
        "lead": (2, [[(v(2, 0), 1), (v(1, 1), a[0]), (v(0, 1), f)], [(v(2, 0), 1), (v(1, 1), a[0] + D), (v(0, 2), 1), (v(0, 0), a[1])]]),
        "lc": (2, [[(v(2, 0), D), (v(0, 1), a[0]), (v(0, 0), f)], [(v(0, 2), 1), (v(1, 0), 2), (v(0, 0), a[1])]]),
        "collapse": (2, [[(v(2, 0), 1), (v(1, 0), -D)], [(v(0, 1), 1), (v(1, 0), a[0]), (v(0, 0), f)]]),
        "sep": (2, [[(v(2, 0), 1), (v(1, 0), a[0])], [(v(0, 1), f), (v(1, 0), -D)]]),
        "coll2": (2, [[(v(2, 0), 1), (v(1, 0), -D)], [(v(0, 2), 1), (v(0, 1), f), (v(1, 0), -2)]]),
        "den": (2, [[(v(2, 0), Q(1, D)), (v(0, 1), f), (v(0, 0), 1)], [(v(0, 2), 1), (v(1, 0), 2), (v(0, 0), a[0])]]),
        "curve": (2, [[(v(1, 1), 1), (v(0, 0), a[0])], [(v(1, 0), D - 1), (v(2, 1), 1), (v(0, 1), f), (v(0, 0), 1)]]),
        "mult": (3, [[(v(2, 0, 0), 1), (v(0, 1, 0), -D)], [(v(0, 2, 0), 1), (v(0, 0, 1), f)], [(v(0, 0, 2), 1), (v(1, 0, 0), -1), (v(0, 0, 0), a[0])]]),
        "third": (2, [[(v(2, 0), 1), (v(0, 1), a[0]), (v(0, 0), f)], [(v(1, 1), 1), (v(0, 1), a[1])],
                      [(v(2, 0), 1), (v(0, 1), a[0]), (v(0, 0), f), (v(0, 2), D)]]),
    }


@prop
def C13(ctx):
    """bad primes"""
    import re
    from . import primes
    q = ctx.quick
    rnd = ctx.rnd()
    out = ctx.model("MultiMod")["out"]
    pats = sorted({tuple(re.findall(r'"(\w+)"', x)) for x in re.findall(r'<<"PATTERN", (<<[^>]*>>)>>', out)})
    assert len(pats) > 40
    ctx.cov["patterns"] = len(pats)
    cs = []
    per = 3 if q else 40
    for k, pat in enumerate(pats):
        for j in range(per):
            seed = rnd.randrange(10 ** 6)
            ps = primes.sequence(seed, len(pat))
            D, F = rnd.choice([1, 2, 3]), 0
            for p, kind in zip(ps, pat):
                if kind == "degenerate":
                    D *= p
                elif kind == "fake":
                    F = (F or rnd.choice([1, 2])) * p
            S = bad_prime_systems(rnd, D, F)
            name = rnd.choice([x for x in S if not (pat[0] == "degenerate" and x == "third")])
            n, g = S[name]
            tag = "%s_%d_%d" % (name, k, j)
            th = rnd.choice([[], [], ["-t", "2"], ["-t", "4"]])
            w = rnd.choice(["gb", "gb", "elim", "solve", "solve"])
            if w == "solve":
                cs.append(case("bad_solve_" + tag, n, 0, g, "solve", [rnd.choice([both, param])(*th, seed=seed)]))
            elif w == "gb":
                cs.append(case("bad_gb_" + tag, n, 0, g, "gb", [gb2(*rnd.choice([[], ["-l", "1"], ["-l", "42"], ["-l", "44"]]), *th, seed=seed)]))
            else:
                cs.append(case("bad_elim_" + tag, n, 0, g, "gb", [gb2("-e", "1", *th, seed=seed)], e=1))
    ctx.conformance(cs)
    ctx.assumptions.append("the primes drawn for a seed are predicted from srand/rand; the learning prime keeps all rows of the trace")


@prop
def C14(ctx):
    """the library functions"""
    q = ctx.quick
    rnd = ctx.rnd()
    exe = ctx.binary("vt_lib", lib=True)

    def call(fn, kind, **a):
        return dict(api=dict(fn=fn, **a), binary=exe, kind=kind, args=[], seed=rnd.randrange(10 ** 6))

    def conf(p=0):
        a = dict(la=rnd.choice([1, 2] if 0 < p < 2 ** 20 else [1, 2, 42, 44]))     # nothing forbids the probabilistic ones here
        for o, v in (("hts", [2, 8, 20]), ("threads", [2, 4]), ("pairs", [1, 3, 50]), ("reset", [1, 2])):
            if rnd.random() < .3:
                a[o] = rnd.choice(v)
        return a
    cs = []
    for cls in (gen.PRIMES8, gen.PRIMES16, gen.PRIMES17, gen.PRIMES24, gen.PRIMES31):
        for j in range(30 if q else 250):
            p = rnd.choice(cls)
            for cid, n, g in ideals(rnd, p, 1, "lib"):
                e = rnd.randint(1, n - 1) if n > 1 and "dense" not in cid and "twist" not in cid and rnd.random() < .3 else 0
                cs.append(case("%s%d" % (cid, j), n, p, g, "gb", [call("f4", "gb2", elim=e, **conf(p)) for _ in range(2)], e=e))
        for j in range(12 if q else 100):      # the lexicographical order
            p = rnd.choice(cls)
            n = rnd.choice([1, 2, 2, 3])
            k = rnd.choice(["sparse", "separate", "binomial", "curve", "linear", "shape"])
            if k == "sparse":
                g = gen.sparse(rnd, n, p, deg=2, terms=3, m=n)
            elif k == "separate":
                g = gen.separate(rnd, n, p, deg=2)
            elif k == "binomial":
                g = gen.binomial(rnd, n, n, p, deg=2)
            elif k == "curve":
                n = max(n, 2)
                g = gen.curve(rnd, n, p)
            elif k == "shape":
                g = gen.shape(rnd, n, rnd.randint(1, 4))
            else:
                n = rnd.choice([2, 3, 5, 6])
                g = gen.sparse(rnd, n, p, deg=1, terms=3, m=rnd.randint(1, n + 1))
            cs.append(case("lex_%s%d_%d" % (k, p, j), n, p, g, "gb", [call("f4", "gb2", mon_order=1, **conf(p))], e=-1))
        for j in range(20 if q else 150):      # export_nf is probabilistic from 2^15 on
            p = rnd.choice([x for x in cls if x < 2 ** 15 or x > 2 ** 20] or [32003])
            for cid, n, g in ideals(rnd, p, 1, "libnf"):
                isgb = int(rnd.random() < .3)
                if isgb:        # a basis by the product criterion, not a reduced one
                    g = gen.triangular(rnd, n, p)
                g = clean(g, p)
                if not g:
                    continue
                fs = tails(rnd, n, p, g, rnd.choice([1, 1, 2, 3, 5]))
                a = dict(threads=rnd.choice([1, 4]), isgb=isgb)
                e = 0
                if isgb and rnd.random() < .5:
                    rnd.shuffle(g)
                elif not isgb and rnd.random() < .4:        # other orders
                    e = rnd.choice([-1] + ([rnd.randint(1, n - 1)] if n > 1 else [])) if "dense" not in cid and "twist" not in cid else 0
                    a.update(mon_order=1 if e < 0 else 0, elim=max(e, 0))
                cs.append(case("%s%d" % (cid, j), n, p, g + fs, "nf", [call("nf", "nf", **a)], k=len(fs), e=e))
    for cid, n, g in ideals(rnd, 0, 60 if q else 600, "libq"):
        if rnd.random() < .25:
            g = gen.fractions(rnd, g)
        e = rnd.randint(1, n - 1) if 1 < n < 4 and "dense" not in cid and rnd.random() < .3 else 0
        cs.append(case(cid, n, 0, g, "gb", [call("qq", "gb2", elim=e, **conf()) for _ in range(2)], e=e))
    for cid, n, g in solve_systems(rnd, 0, 90 if q else 800, "libs"):
        nm = names(n, rnd.choice([None, "x", "variable_with_a_rather_long_name_"]))
        cs.append(case(cid, n, 0, g, "solve", [call("julia", "real", param=0, **conf()), call("julia", "both", param=1, **conf()),
                                               call("julia", "param", param=2, **conf())], nm=nm))
    ctx.conformance(usable(cs))
