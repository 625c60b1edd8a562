"""Compares the Java overrides with the TLA+ definitions they stand for: python3 -m vt.accel"""
import json, os, random, re, shutil, sys, tempfile
from fractions import Fraction as Q
from . import msio, tlc

PRIMES = [2, 3, 5, 251, 32003, 65537, 1073741827, 2147483629]


def data(rnd, count):
    def big():
        return rnd.choice([0, 1, -1, 9999, 10000, -10000, 99999999, 10 ** 8]) if rnd.random() < .3 else rnd.randint(-10 ** rnd.choice([1, 4, 9, 17, 40]), 10 ** rnd.choice([1, 4, 9, 17, 40]))

    def rat():
        return Q(big(), rnd.choice([1, 1, 2, 3, 10 ** 4, 10 ** 9 + 7]))

    def coef(p):
        return msio.rat(rat() if rnd.random() < .2 else Q(rnd.randint(-5, 5), rnd.choice([1, 1, 2]))) if p == 0 else rnd.choice([0, 1, p - 1, rnd.randrange(p)])

    def mono(n):
        return [rnd.choice([0, 0, 1, 1, 2, 3]) for _ in range(n)]

    def terms(p, n, k):
        return [[coef(p), mono(n)] for _ in range(rnd.randint(0, k))]

    def uni(p, k):
        return [coef(p) for _ in range(rnd.randint(0, k))]
    out = []
    for i in range(count):
        q = rnd.choice(PRIMES)
        out.append(dict(what="ints", x=msio.big(big()), y=msio.big(big()), z=msio.big(rnd.choice([1, 7, 10 ** 4, 10 ** 9 + 7, 3 ** 50])),
                        r=msio.rat(rat()), s=msio.rat(rat()), q=q, k=rnd.choice([0, 1, 2, 5]), i=rnd.randrange(q), j=rnd.randrange(q)))
        p = rnd.choice([0, 0] + PRIMES)
        n = rnd.choice([1, 2, 3, 4])
        out.append(dict(what="polys", p=p, e=rnd.choice([0, 0, -1] + ([1, n - 1] if n > 1 else [])), f=terms(p, n, 5), g=terms(p, n, 3),
                        h=terms(p, n, 3), c=coef(p) if p else msio.rat(Q(3, 7)), m=mono(n)))
        if p and out[-1]["c"] == 0:
            out[-1]["c"] = 1
        out.append(dict(what="unis", p=p, u=uni(p, 5), v=uni(p, 4), w=uni(p, 3), c=coef(p)))
        roots = sorted(rnd.sample([Q(k, d) for k in range(-6, 7) for d in (1, 2, 3, 5)], 1))
        roots = sorted(set(roots + [rnd.choice([Q(10), Q(-9), Q(17, 2)])]))
        f = [Q(1)]
        for g in [[-r, Q(1)] for r in roots] + rnd.choice([[], [[Q(1), Q(0), Q(1)]], [[Q(-200), Q(0), Q(1)]]]):
            h = [Q(0)] * (len(f) + len(g) - 1)
            for a, x in enumerate(f):
                for b, y in enumerate(g):
                    h[a + b] += x * y * (rnd.choice([1]))
            f = h
        t = roots[0]
        k = rnd.choice([Q(2), Q(-3, 5), Q(1)])
        w = [Q(rnd.randint(-4, 4)) for _ in range(rnd.randint(1, 3))] + [Q(rnd.choice([1, -2]))]
        out.append(dict(what="reals", u=[msio.rat(k * x) for x in f], sq=[msio.rat(k * x) for x in f], w=[msio.rat(x) for x in w],
                        a=msio.rat(t - Q(1, 16)), b=msio.rat(t + Q(1, 17)), t=msio.rat(t), k=rnd.choice([0, 1, 3, 9])))
        p = rnd.choice([0, 251, 65537, 2147483629])
        n = rnd.choice([1, 2])
        G = []
        for v in range(n):
            d = rnd.choice([1, 2] if n > 1 else [1, 2, 3])
            G.append([[msio.coef(p, 1), [d if x == v else 0 for x in range(n)]]] + [[msio.coef(p, rnd.randint(-3, 3)), [rnd.randint(0, 1) if d > 1 and x <= v else 0 for x in range(n)]] for _ in range(2)])
        out.append(dict(what="rows", p=p, n=n, G=G, lin=[[msio.coef(p, 1 + v), [int(x == v) for x in range(n)]] for v in range(n)]))
    return out


def values(out):
    r = {}
    for m in re.finditer(r'<<\s*"VALUE",\s*"(\d+)",\s*"(\w+)",\s*"([^"]*)"\s*>>', out):
        r[int(m.group(1))] = (m.group(2), re.sub(r"\s+", " ", m.group(3)))
    return r


def compare(scratch, seed=1, count=40):
    """-> number of compared records; raises on a difference"""
    D = data(random.Random(seed), count)
    path = os.path.join(scratch, "accel.json")
    with open(path, "w") as f:
        json.dump(D, f)
    fast, slow = (values(tlc.tlc(scratch, "AccelTest", env={"VT_CASES": path}, accel=a, workers=1, tag=str(a))["out"]) for a in (True, False))
    if len(fast) != len(D) or len(slow) != len(D):
        raise tlc.TLCError("AccelTest: %d and %d values of %d" % (len(fast), len(slow), len(D)))
    for i in fast:
        if fast[i] != slow[i]:
            raise tlc.TLCError("override differs: %s\n%s\n%s\n%s" % (json.dumps(D[i - 1]), fast[i][0], fast[i][1], slow[i][1]))
    return len(fast)


if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="vt_accel_")
    try:
        print("%d values agree" % compare(d, int(sys.argv[1]) if len(sys.argv) > 1 else 1, int(sys.argv[2]) if len(sys.argv) > 2 else 40))
    finally:
        shutil.rmtree(d, ignore_errors=True)
