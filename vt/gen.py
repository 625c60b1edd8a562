"""Polynomial systems for the runs.  A polynomial is a list of (exponents, coefficient)."""
import itertools, random
from fractions import Fraction as Q


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def below(n):
    while not is_prime(n):
        n -= 1
    return n


def above(n):
    while not is_prime(n):
        n += 1
    return n


def primes_in(lo, hi, k):
    """the primes next to powers of two and k others of all sizes between lo and hi"""
    r = random.Random("primes%d" % lo)
    s = {below(hi), above(lo)}
    for b in range(lo.bit_length() - 1, hi.bit_length() + 1):
        s |= {q for q in (below(max(2 ** b, 2)), above(2 ** b), above(2 ** b + 2 ** (b - 1))) if lo <= q <= hi}
    while len(s) < k:
        b = r.randint(lo.bit_length(), hi.bit_length())
        q = above(r.randrange(2 ** (b - 1), 2 ** b))
        if lo <= q <= hi:
            s.add(q)
    return sorted(s)


PRIMES8 = [q for q in range(2, 256) if is_prime(q)] + [2, 2, 2, 3, 3, 5, 7, 127, 131, 251, 251]
PRIMES16 = primes_in(257, 2 ** 16, 60)
PRIMES17 = primes_in(2 ** 16 + 1, 2 ** 18, 40)
PRIMES24 = primes_in(2 ** 18 + 1, 2 ** 28, 60)
PRIMES31 = primes_in(2 ** 28 + 1, 2 ** 31 - 1, 80)


def names(n, prefix=None):
    return ["xyzwuv"[i] for i in range(n)] if n <= 6 and not prefix else ["%s%d" % (prefix or "x", i + 1) for i in range(n)]


# ---- arithmetic on dictionaries
def norm(d, p=0):
    return [(m, c % p if p else c) for m, c in d.items() if (c % p if p else c)]


def padd(f, g, k=1):
    d = dict(f)
    for m, c in g:
        d[m] = d.get(m, 0) + k * c
    return [(m, c) for m, c in d.items() if c]


def pmul(f, g):
    d = {}
    for a, x in f:
        for b, y in g:
            m = tuple(i + j for i, j in zip(a, b))
            d[m] = d.get(m, 0) + x * y
    return [(m, c) for m, c in d.items() if c]


def const(n, c):
    return [((0,) * n, c)] if c else []


def var(n, i, k=1):
    return [(tuple(k if j == i else 0 for j in range(n)), 1)]


def ppow(f, k, n):
    r = const(n, 1)
    for _ in range(k):
        r = pmul(r, f)
    return r


def coefficient(rnd, p, size):
    if p:
        c = rnd.choice([rnd.randrange(1, p), rnd.randrange(1, p), 1, p - 1, rnd.randrange(1, min(p, 50))])
        return c
    return rnd.choice([-1, 1]) * rnd.randint(1, size)


def sparse_poly(rnd, n, deg, terms, p, size=20):
    d = {}
    for _ in range(terms):
        e = [0] * n
        for _ in range(rnd.randint(0, deg)):
            e[rnd.randrange(n)] += 1
        d[tuple(e)] = coefficient(rnd, p, size)
    e = [0] * n
    for _ in range(deg):
        e[rnd.randrange(n)] += 1
    d[tuple(e)] = coefficient(rnd, p, size)
    return list(d.items())


def dense_poly(rnd, n, deg, p, size=20):
    return [(e, coefficient(rnd, p, size)) for e in itertools.product(range(deg + 1), repeat=n) if sum(e) <= deg]


def sparse(rnd, n, p, deg=2, terms=4, m=None, size=20):
    return [sparse_poly(rnd, n, rnd.randint(1, deg), rnd.randint(2, terms), p, size) for _ in range(m or n)]


def dense(rnd, n, p, deg=2, m=None, size=20):
    return [dense_poly(rnd, n, deg, p, size) for _ in range(m or n)]


def katsura(k):
    n = k + 1
    gs = []
    for m in range(k):
        d = {}
        for i in range(-k, k + 1):
            j = m - i
            if abs(j) <= k:
                e = [0] * n
                e[abs(i)] += 1
                e[abs(j)] += 1
                d[tuple(e)] = d.get(tuple(e), 0) + 1
        e = [0] * n
        e[m] = 1
        d[tuple(e)] = d.get(tuple(e), 0) - 1
        gs.append([(a, c) for a, c in d.items() if c])
    f = [(tuple(1 if j == i else 0 for j in range(n)), 1 if i == 0 else 2) for i in range(n)]
    gs.append(f + [((0,) * n, -1)])
    return gs


def cyclic(n):
    gs = []
    for d in range(1, n):
        f = {}
        for i in range(n):
            e = [0] * n
            for j in range(d):
                e[(i + j) % n] = 1
            f[tuple(e)] = f.get(tuple(e), 0) + 1
        gs.append(list(f.items()))
    return gs + [[((1,) * n, 1), ((0,) * n, -1)]]


def eco(n):
    """economics problem, n variables"""
    gs = []
    for k in range(1, n):
        d = {}
        e = [0] * n
        e[k - 1] += 1
        e[n - 1] += 1
        d[tuple(e)] = 1
        for i in range(1, n - k):
            e = [0] * n
            e[i - 1] += 1
            e[i + k - 1] += 1
            e[n - 1] += 1
            d[tuple(e)] = d.get(tuple(e), 0) + 1
        d[(0,) * n] = -k
        gs.append(list(d.items()))
    f = [(tuple(1 if j == i else 0 for j in range(n)), 1) for i in range(n - 1)]
    return gs + [f + [((0,) * n, 1)]]


def noon(n):
    gs = []
    for i in range(n):
        d = {}
        for j in range(n):
            if j != i:
                e = [0] * n
                e[i] += 1
                e[j] += 2
                d[tuple(e)] = 10
        d[tuple(1 if j == i else 0 for j in range(n))] = -11
        d[(0,) * n] = 10
        gs.append(list(d.items()))
    return gs


def boolean(rnd, n, m, extra=True):
    """quadrics over GF(2), with the field equations"""
    gs = []
    for _ in range(m):
        d = {}
        for i in range(n):
            for j in range(i + 1, n):
                if rnd.random() < .5:
                    d[tuple(1 if k in (i, j) else 0 for k in range(n))] = 1
            if rnd.random() < .5:
                d[tuple(1 if k == i else 0 for k in range(n))] = 1
        if rnd.random() < .5:
            d[(0,) * n] = 1
        if d:
            gs.append(list(d.items()))
    if extra:
        gs += [[(tuple(2 if k == i else 0 for k in range(n)), 1), (tuple(1 if k == i else 0 for k in range(n)), 1)] for i in range(n)]
    return gs


def monomial(rnd, n, m, deg=4):
    return [[(tuple(rnd.randint(0, deg) for _ in range(n)), 1)] for _ in range(m)]


def binomial(rnd, n, m, p, deg=3):
    r = []
    for _ in range(m):
        a, b = (tuple(rnd.randint(0, deg) for _ in range(n)) for _ in range(2))
        if a != b:
            r.append([(a, 1), (b, coefficient(rnd, p, 5))])
    return r or [[((1,) * n, 1)]]


def high(rnd, n, p):
    """monomials with exponents near the largest ones a monomial can hold"""
    k = rnd.choice([127, 128, 200, 255, 256, 300, 1000, 5000, 16000, 32000] if p else [127, 128, 200, 255, 256, 300])
    e = [0] * n
    e[0] = k
    gs = [[(tuple(e), 1), (tuple(1 if i == n - 1 else 0 for i in range(n)), coefficient(rnd, p, 9))]]
    for i in range(1, n):
        a = [0] * n
        a[i] = rnd.choice([1, 2, k // 2 if p or k <= 300 else 2])
        b = [0] * n
        b[i - 1] = 1
        if a[i] < 3:
            gs.append([(tuple(a), 1), ((0,) * n, coefficient(rnd, p, 9))])
        elif rnd.random() < .5:     # of positive dimension
            gs.append([(tuple(a), 1), (tuple(min(x, 1) for x in map(sum, zip(a, b))), coefficient(rnd, p, 9))])
    return gs if len(gs) < n or k < 2000 else gs[:n - 1] if n > 1 else gs


def many(rnd, n, p):
    """many variables: a chain of linear and quadratic equations"""
    gs = []
    for i in range(n - 1):
        f = [(tuple(1 if j == i else 0 for j in range(n)), 1),
             (tuple(1 if j == i + 1 else 0 for j in range(n)), coefficient(rnd, p, 9))]
        if rnd.random() < .3:
            f[0] = (tuple(2 if j == i else 0 for j in range(n)), 1)
        if rnd.random() < .5:
            f.append(((0,) * n, coefficient(rnd, p, 9)))
        gs.append(f)
    if rnd.random() < .7:
        gs.append([(tuple(2 if j == n - 1 else 0 for j in range(n)), 1), ((0,) * n, coefficient(rnd, p, 9))])
    rnd.shuffle(gs)
    k = 0
    for f in gs:       # few quadratic equations, so that the degree stays small
        for i, (m, c) in enumerate(f):
            if max(m) == 2:
                k += 1
                if k > 3:
                    f[i] = (tuple(min(x, 1) for x in m), c)
    return gs


def hash_numbers(evl):
    """the numbers the hash of an exponent vector of this length is made of (src/neogb/hash.c)"""
    s, r = 2463534242, [0] * evl
    for i in range(evl, 0, -1):
        s ^= (s << 13) & 0xffffffff
        s ^= s >> 17
        s ^= (s << 5) & 0xffffffff
        r[i - 1] = s | 1
    return r


def collide(rnd, n, p, kind=None):
    """polynomials with two monomials of equal degree and hash; they differ in even, odd or any places only"""
    rn = hash_numbers(n + 1)[1:]
    kind = kind or rnd.choice(["even", "odd", "any", "low", "high"])
    pos = [i for i in range(n) if kind == "any" or kind == "even" and i % 2 or kind == "odd" and i % 2 == 0
           or kind == "low" and i < n // 2 or kind == "high" and i >= n // 2]
    k = len(pos) // 2
    for _ in range(40):
        seen = {}
        for _ in range(1 << 17):
            m = tuple(sorted(rnd.sample(pos, k)))
            h = sum(rn[i] for i in m) & 0xffffffff
            if seen.setdefault(h, m) != m:
                a, b = [tuple(int(i in t) for i in range(n)) for t in (seen[h], m)]
                f = [(a, rnd.randint(1, 3)), (b, rnd.randint(1, 3))]
                if rnd.random() < .5:
                    f.append((tuple(int(i == 0) for i in range(n)), 1))
                g = [f]
                if rnd.random() < .5:       # and another polynomial that begins with one of them
                    g.append([(tuple(x + (i == n - 1) for i, x in enumerate(a)), 1), ((0,) * n, rnd.randint(1, 3))])
                return g
    return [var(n, 0)]


def mixed(rnd, gens, p, n):
    """other generators of the same ideal (or close to it): sums, multiples, repetitions"""
    gs = [list(f) for f in gens]
    k = rnd.randrange(4)
    if k == 0 and len(gs) > 1:
        i, j = rnd.sample(range(len(gs)), 2)
        gs[i] = padd(gs[i], gs[j], coefficient(rnd, p, 5)) or gs[i]
    elif k == 1:
        gs.append(list(rnd.choice(gs)))
    elif k == 2:
        gs.append(pmul(rnd.choice(gs), sparse_poly(rnd, n, 1, 2, p, 5)))
    else:
        i = rnd.randrange(len(gs))
        c = coefficient(rnd, p, 30)
        gs.append([(m, a * c) for m, a in gs[i]])
    out = []
    for f in gs:
        f = norm(dict(f), p)
        if f:
            out.append(f)
    rnd.shuffle(out)
    return out


def univariate(n, i, coeffs):
    return [(tuple(k if j == i else 0 for j in range(n)), c) for k, c in enumerate(coeffs) if c]


def from_roots(roots):
    """integer coefficients of a polynomial with the given rational roots"""
    f = [1]
    for r in roots:
        r = Q(r)
        g = [0] * (len(f) + 1)
        for i, c in enumerate(f):
            g[i + 1] += c * r.denominator
            g[i] -= c * r.numerator
        f = g
    return f


def umul(f, g):
    r = [0] * (len(f) + len(g) - 1)
    for i, a in enumerate(f):
        for j, b in enumerate(g):
            r[i + j] += a * b
    return r


def roots_poly(rnd, deg):
    """a univariate polynomial with chosen real roots (near ones, dyadic ones, zero, multiple ones)"""
    f = [1]
    while len(f) - 1 < deg:
        k = rnd.randrange(9)
        if k == 0:
            f = umul(f, [0, 1])
        elif k == 1:
            f = umul(f, from_roots([Q(rnd.randint(-30, 30), 2 ** rnd.randint(0, 8))]))
        elif k == 2:
            f = umul(f, from_roots([Q(rnd.randint(-30, 30), rnd.randint(1, 30))]))
        elif k == 3:        # two near roots
            a = Q(rnd.randint(-9, 9), rnd.randint(1, 9))
            f = umul(f, from_roots([a, a + Q(1, 10 ** rnd.randint(1, 12))]))
        elif k == 4:        # irrational
            f = umul(f, [-rnd.randint(1, 50), 0, rnd.randint(1, 4)])
        elif k == 5:        # complex
            f = umul(f, [rnd.randint(1, 9), rnd.randint(-2, 2), rnd.randint(2, 5)])
        elif k == 6:        # multiple
            a = Q(rnd.randint(-9, 9), rnd.randint(1, 4))
            f = umul(f, from_roots([a] * rnd.randint(2, 3)))
        elif k == 7:        # nearly a double root
            f = umul(f, umul([-1, 10 ** rnd.randint(1, 6)], [-1, 10 ** rnd.randint(1, 6)]))
            b = rnd.randint(0, len(f) - 1)
            f[b] += rnd.choice([-1, 1])
        else:
            f = umul(f, [rnd.randint(-9, 9) or 1 for _ in range(3)])
    return f


def shape(rnd, n, deg, mix=True):
    """zero-dimensional over the rationals: the last variable has chosen roots, the others are polynomials in it"""
    f = roots_poly(rnd, deg)
    gs = [univariate(n, n - 1, f)]
    for i in range(n - 1):
        g = [(tuple(1 if j == i else 0 for j in range(n)), rnd.choice([1, 1, 1, 2, 3]))]
        for k in range(0, min(3, deg)):
            if rnd.random() < .7:
                g.append((tuple(k if j == n - 1 else 0 for j in range(n)), rnd.choice([-1, 1]) * rnd.randint(1, 5)))
        gs.append(norm(dict(g)))
    if mix and n > 1 and rnd.random() < .5:     # x_i -> x_i + c x_j
        i, j = rnd.sample(range(n), 2)
        c = rnd.choice([-2, -1, 1, 2])
        gs = [substitute(g, n, i, padd(var(n, i), var(n, j), c)) for g in gs]
    rnd.shuffle(gs)
    return gs


def substitute(f, n, i, g):
    pw = [const(n, 1)]
    top = max(m[i] for m, _ in f)
    for _ in range(top):
        pw.append(pmul(pw[-1], g))
    r = []
    for m, c in f:
        t = [(tuple(0 if j == i else x for j, x in enumerate(m)), c)]
        r = padd(r, pmul(t, pw[m[i]]))
    return r


def separate(rnd, n, p, deg=3):
    """every variable has its own equation: the last variable separates nothing"""
    gs = []
    for i in range(n):
        d = rnd.randint(1, deg)
        c = [coefficient(rnd, p, 9) if rnd.random() < .7 else 0 for _ in range(d)] + [1]
        gs.append(univariate(n, i, c))
    if rnd.random() < .5:
        i, j = rnd.sample(range(n), 2) if n > 1 else (0, 0)
        gs[i] = padd(gs[i], var(n, j))
    return [g for g in gs if g]


def swapped(rnd, n):
    """the last variable does not tell the solutions apart, another one does"""
    k = rnd.randrange(n - 1)
    f = roots_poly(rnd, rnd.randint(2, 4))
    gs = [univariate(n, k, f)]
    f1 = gs[0]
    for i in range(n):
        if i == k:
            continue
        g = [(tuple(1 if j == i else 0 for j in range(n)), 1), (tuple([0] * n), rnd.choice([0, -1, 2]))]
        if i < n - 1 and rnd.random() < .6:
            g.append((tuple(1 if j == k else 0 for j in range(n)), rnd.choice([-2, -1, 1, 3])))
        g = norm(dict(g))
        if i == n - 1 and rnd.random() < .7:       # not linear: the radical is
            # all solutions are double ones; were one of them alone, the finding of known_findings.txt would show
            if rnd.random() < .5:
                c = rnd.choice([c for c in (1, -1, 7, 11) if sum(a * (-c) ** m[k] for m, a in f1)])
                gs.append(pmul(g, padd(var(n, k), const(n, c))))
            gs.append(ppow(g, 2, n))
        else:
            gs.append(g)
    return gs


def multiple(rnd, n, p):
    """solutions with multiplicities"""
    gs = sparse(rnd, n, p, deg=1, terms=3, size=5)
    r = []
    for g in gs:
        g = ppow(g, rnd.choice([1, 2, 2]), n)
        r.append(norm(dict(g), p) or var(n, 0))
    return r


def fractions(rnd, gens, big=False):
    r = []
    for f in gens:
        r.append([(m, Q(c) * Q(rnd.randint(1, 10 ** (30 if big else 2)), rnd.randint(1, 10 ** (25 if big else 2)))) for m, c in f])
    return r


def curve(rnd, n, p):
    """positive dimension"""
    k = rnd.randrange(3)
    if k == 0:
        return sparse(rnd, n, p, deg=2, terms=4, m=rnd.randint(1, max(1, n - 1)))
    if k == 1:      # a common factor
        f = sparse_poly(rnd, n, 1, 2, p, 5)
        return [g for g in (norm(dict(pmul(f, h)), p) for h in sparse(rnd, n, p, deg=1, terms=3)) if g] or [f]
    return [f for f in binomial(rnd, n, rnd.randint(1, n), p)]


def unit(rnd, n, p):
    """no solution"""
    gs = sparse(rnd, n, p, deg=2, terms=3, m=rnd.randint(1, n))
    k = rnd.randrange(4)
    if k == 0:
        return gs + [const(n, coefficient(rnd, p, 9))]
    if k == 1:
        f = rnd.choice(gs)
        g = norm(dict(padd(f, const(n, 1))), p)
        return gs + ([g] if g else [const(n, 1)])
    if k == 2:
        f = norm(dict(padd(pmul(rnd.choice(gs), sparse_poly(rnd, n, 1, 2, p, 3)), const(n, coefficient(rnd, p, 7)))), p)
        return gs + [f or const(n, 1)]
    return sparse(rnd, n, p, deg=2, terms=4, m=n + 2)


def ugcd_is_one(f, g, q=2147483629):
    """of the images modulo q"""
    f, g = [c % q for c in f], [c % q for c in g]

    def trim(a):
        while a and a[-1] == 0:
            a.pop()
        return a
    f, g = trim(f), trim(g)
    while g:
        inv = pow(g[-1], -1, q)
        while len(f) >= len(g):
            c, k = f[-1] * inv % q, len(f) - len(g)
            for i, x in enumerate(g):
                f[i + k] = (f[i + k] - c * x) % q
            trim(f)
        f, g = g, f
    return len(f) == 1


def chebyshev(k):
    a, b = [1], [0, 1]
    for _ in range(k - 1):
        a, b = b, [x - y for x, y in itertools.zip_longest([0] + [2 * c for c in b], a, fillvalue=0)]
    return b


def factor(rnd, big):
    k = rnd.randrange(14)
    if k <= 1:
        return from_roots([rnd.randint(-12, 12)])
    if k == 2:
        return from_roots([rnd.randint(-1, 1) * 2 ** rnd.randint(0, 70) + rnd.randint(-1, 1)])
    if k <= 4:
        return from_roots([Q(rnd.randint(-40, 40), 2 ** rnd.randint(0, 7))])
    if k == 5:
        return from_roots([Q(rnd.randint(-40, 40), 2 ** rnd.randint(0, 70))])
    if k == 6:
        return from_roots([Q(rnd.randint(-99, 99), rnd.randint(1, 99))])
    if k == 7:
        return [-rnd.randint(1, 99), rnd.choice([0, 0, 1, -5]), rnd.randint(1, 9)]
    if k == 8:
        return [rnd.randint(1, 50), rnd.choice([0, 1, -3]), rnd.randint(1, 50)]
    if k == 9:      # complex roots next to a real point
        a, b = rnd.randint(-9, 9), rnd.choice([1, 2, 4, 8])
        return [a * a * 10 ** 6 + 1, -2 * a * b * 10 ** 6, b * b * 10 ** 6]
    if k == 10:
        return [rnd.choice([-1, 1]) * rnd.randint(1, 30)] + [0] * rnd.randint(1, 30 if big else 8) + [rnd.randint(1, 3)]
    if k == 11:
        return chebyshev(rnd.randint(2, 40 if big else 9))
    if k == 12:     # Mignotte
        d, a = rnd.randint(3, 25 if big else 7), rnd.choice([2, 4, 10, 1000])
        f = [0] * (d + 1)
        f[d] += 1
        for i, c in enumerate([-2, 4 * a, -2 * a * a]):
            f[i] += c
        return f
    return [rnd.randint(-9, 9) or 1 for _ in range(rnd.randint(4, 20 if big else 7))]


def factors(rnd, deg, multiple=False, run=False):
    """[(polynomial, multiplicity)] of total degree about deg; the polynomials have no common and no multiple roots"""
    fs, prod, tot = [], [1], 0
    if run:         # neighbouring points of a grid
        a, h = rnd.randint(-6, 3), Q(1, 2 ** rnd.choice([0, 0, 0, 1, 3, 20]))
        L = [from_roots([(a + i) * h]) for i in range(max(2, deg - rnd.randint(0, 3)))]
        L = [f for f in L if rnd.random() < .9]
    else:
        L = []
    tries = 0
    while tot < deg and tries < 500:
        tries += 1
        f = L.pop() if L else factor(rnd, deg > 40)
        if len(f) - 1 > deg + 2 - tot and tot or f[-1] == 0:
            continue
        g = umul(prod, f)
        if not ugcd_is_one(g, [i * c for i, c in enumerate(g)][1:]):
            continue
        k = rnd.choice([2, 3]) if multiple and rnd.random() < .15 and len(f) < 4 else 1
        fs.append((f, k))
        prod = g
        tot += (len(f) - 1) * k
    return fs


def factored(rnd, n, fs, deg):
    """a system in shape position with these factors"""
    f = [1]
    for g, k in fs:
        for _ in range(k):
            f = umul(f, g)
    gs = [univariate(n, n - 1, f)]
    for i in range(n - 1):
        g = [(tuple(1 if j == i else 0 for j in range(n)), rnd.choice([1, 1, 1, 2, -3]))]
        for k in range(0, min(rnd.choice([2, 3, 4]), deg)):
            if rnd.random() < .7:
                g.append((tuple(k if j == n - 1 else 0 for j in range(n)), rnd.choice([-1, 1]) * rnd.choice([1, 2, 5, 1000003])))
        gs.append(norm(dict(g)))
    rnd.shuffle(gs)
    return gs


def heavy(rnd, p):
    """large and dense: long rows, many critical pairs"""
    k = rnd.randrange(8)
    n, d, m = [(4, 2, 4), (5, 2, 5), (5, 2, 7), (6, 2, 8), (3, 3, 3), (4, 3, 5), (3, 4, 4), (4, 2, 3)][k]
    gs = [dense_poly(rnd, n, d, p, 9) for _ in range(m)]
    for f in gs:                # coefficients of full size, or a few missing terms
        for i in range(len(f)):
            if p:
                f[i] = (f[i][0], rnd.randrange(p) if rnd.random() < .9 else p - 1)
        f[:] = norm(dict(f), p)
    return n, [f for f in gs if f]


def twist(rnd, n, p, gens, steps=None):
    """an automorphism of the polynomial ring applied to the generators: x_i -> x_i + c m"""
    for _ in range(steps or rnd.randint(1, 2)):
        i = rnd.randrange(n)
        e = [0] * n
        for _ in range(rnd.choice([0, 1, 1, 2])):
            j = rnd.randrange(n)
            if j != i:
                e[j] += 1
        g = padd(var(n, i), [(tuple(e), coefficient(rnd, p, 3))])
        gens = [norm(dict(substitute(f, n, i, g)), p) for f in gens]
        gens = [f for f in gens if f]
    return gens


# ---- texts of input files
NAMESETS = [["x", "y", "z", "w", "t"], ["x1", "x10", "x100", "x11", "x2"], ["X", "x", "xx", "xX", "Xx"], ["a_1", "a_", "a", "_a", "a1"],
            ["alpha", "alph", "alphabet_soup_0123456789", "beta", "b"], ["t0", "t", "T0", "t00", "t0_"]]


def triangular(rnd, n, p):
    """a Groebner basis for the order DRL: the leading monomials are pure powers; sorted by them"""
    r = []
    for i in range(n):
        d = rnd.randint(1, 4)
        f = {}
        for _ in range(rnd.randint(0, 4)):
            m = [0] * n
            for _ in range(rnd.randint(0, d - 1)):
                m[rnd.randrange(n)] += 1
            f[tuple(m)] = coefficient(rnd, p, 20)
        m = [0] * n
        m[i] = d
        f[tuple(m)] = 1
        r.append((d, -i, norm(f, p)))
    return [f for _, _, f in sorted(r, key=lambda t: t[:2])]


def text_file(rnd, n, p, gens):
    """a text that means the system -> (text, names)"""
    nl = rnd.choice(["\n"] * 4 + ["\r\n"])
    wild = rnd.random() < .6
    nm = rnd.sample(rnd.choice(NAMESETS), n) if n <= 5 else names(n, "x")
    if rnd.random() < .25:      # names that differ somewhere
        a, k = "".join(rnd.choice("abcxyzXYZ_0123456789") for _ in range(rnd.choice([1, 3, 7, 8, 15, 16, 31, 32, 47, 63, 200]))), rnd.choice([0, 3, 6, 12, 999, 999])
        nm = rnd.sample(["v" + a[:k] + b + a[k:] for b in ("", "_", "0", "00", "q", "Q", "qq")], n) if n <= 5 else nm

    def sp(newline=True):
        if not wild or rnd.random() < .6:
            return ""
        return rnd.choice([" ", "  ", "\t"] + ([nl, nl + " ", " " + nl] if newline else []))

    def number(c):
        a, d = abs(Q(c)).numerator, abs(Q(c)).denominator
        if p and rnd.random() < .3:
            a += p * rnd.choice([1, 2, rnd.randrange(10 ** 6), rnd.randrange(10 ** 40)])
        if rnd.random() < .2:
            k = rnd.choice([2, 3, 10, 12345678901234567890])
            if not p or k % p:
                a, d = a * k, d * k
        s = ("0" * rnd.choice([1, 3]) if rnd.random() < .05 else "") + str(a)
        if d != 1 or rnd.random() < .05:
            s += sp() + "/" + sp() + str(d)
        return s

    def term(m, c):
        fs = []
        for i, k in enumerate(m):
            while k > 0:
                j = k if rnd.random() < .85 else rnd.randint(1, k)
                fs.append(nm[i] + (sp() + "^" + sp() + "0" * (rnd.random() < .03) + str(j) if j > 1 or rnd.random() < .05 else ""))
                k -= j
            if rnd.random() < .03:
                fs.append(nm[i] + "^0")
        rnd.shuffle(fs)
        if not fs or abs(c) != 1 or rnd.random() < .15:
            fs.insert(0, number(c))
        return ("-" if c < 0 else "+"), (sp() + "*" + sp()).join(fs)

    def poly(f):
        ts = []
        for m, c in f:
            c = Q(c)
            if p and rnd.random() < .3:
                c -= p
            if rnd.random() < .15:
                b = rnd.choice([1, 2, 5, 7])
                ts += [(m, c - b), (m, Q(b))]
            else:
                ts.append((m, c))
        if rnd.random() < .1:
            ts.append((tuple(rnd.randint(0, 3) for _ in range(n)), Q(0)))
        if rnd.random() < .1:
            m, c = tuple(rnd.randint(0, 3) for _ in range(n)), Q(rnd.randint(1, 9))
            ts += [(m, c), (m, -c)]
        if rnd.random() < .8:
            rnd.shuffle(ts)
        s = ""
        for k, (m, c) in enumerate(ts):
            sg, t = term(m, c)
            if k == 0 and sg == "+" and rnd.random() < .85:
                sg = ""
            s += sp() + sg + sp() + t
        return s + sp()
    t = ",".join(sp(False) + v + sp(False) for v in nm) + nl + sp(False) + str(p) + sp(False) + nl
    t += (",").join(rnd.choice(["", nl]) + poly(f) for f in gens)
    t += rnd.choice(["", nl, nl, "," + nl, nl + nl, " ," + nl + " " + nl])
    return t, nm
