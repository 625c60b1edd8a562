"""msolve's input files and a strict reading of what it writes."""
import re, sys
from fractions import Fraction


sys.set_int_max_str_digits(0)


class Bad(Exception):
    pass


# ---- systems: n variables, characteristic p, gens = list of dict{exps: Fraction|int}
def term_text(c, m, names):
    mono = "*".join(names[i] + ("^%d" % k if k > 1 else "") for i, k in enumerate(m) if k)
    if not mono:
        return str(c)
    if c == 1:
        return mono
    if c == -1:
        return "-" + mono
    return "%s*%s" % (c, mono)


def poly_text(f, names):
    if not f:
        return "0"
    s = ""
    for m, c in f:
        t = term_text(c, m, names)
        s += t if (not s or t.startswith("-")) else "+" + t
    return s


def file_text(names, p, gens):
    return ",".join(names) + "\n%d\n" % p + ",\n".join(poly_text(f, names) for f in gens) + "\n"


# ---- JSON values for TLC
def big(z):
    z = int(z)
    if z == 0:
        return [0]
    s, a = (1, z) if z > 0 else (-1, -z)
    d = []
    while a:
        a, r = divmod(a, 10000)
        d.append(r)
    return [s] + d


def rat(q):
    q = Fraction(q)
    return [big(q.numerator), big(q.denominator)]


def coef(p, c):
    if p == 0:
        return rat(c)
    c = Fraction(c)
    return int(c.numerator * pow(c.denominator, -1, p) % p) if c.denominator != 1 else int(c.numerator % p)


def poly(p, f):
    """list of (exps, coef) -> TLA terms <<coef, exps>>"""
    return [[coef(p, c), list(m)] for m, c in f]


# ---- reading
NUM = re.compile(r"[0-9]+")


def strip_header(text):
    """-> (header dict, rest)"""
    hdr, rest = {}, []
    lines = text.split("\n")
    i = 0
    while i < len(lines) and lines[i].startswith("#"):
        m = re.match(r"#([a-z ]+):\s+(.*)$", lines[i])
        if m:
            hdr[m.group(1).strip()] = m.group(2).strip()
        elif lines[i] != "#---":
            hdr["title"] = lines[i][1:].strip()
        i += 1
    return hdr, "\n".join(lines[i:])


def parse_poly(s, names):
    """sum of terms: [+-]? coef? ('*'? var ('^' exp)?)*  -> list of (exps, Fraction)"""
    s = s.replace(" ", "").replace("\n", "")
    if not s:
        raise Bad("empty polynomial")
    pos, out = 0, []
    idx = {v: i for i, v in enumerate(names)}
    toks = re.findall(r"[+-]?[^+-]+", s)
    if "".join(toks) != s:
        raise Bad("cannot split %r" % s[:80])
    for t in toks:
        sg = -1 if t[0] == "-" else 1
        t = t.lstrip("+-")
        c, exps, first = Fraction(sg), [0] * len(names), True
        for fct in t.split("*"):
            m = re.fullmatch(r"(\d+)(?:/(\d+))?", fct)
            if m and first:
                c *= Fraction(int(m.group(1)), int(m.group(2) or 1))
            else:
                m = re.fullmatch(r"([A-Za-z_][A-Za-z0-9_]*)(?:\^(\d+))?", fct)
                if not m or m.group(1) not in idx:
                    raise Bad("bad factor %r" % fct[:60])
                exps[idx[m.group(1)]] += int(m.group(2) or 1)
            first = False
        out.append((tuple(exps), c))
    return out


def parse_list(body, names):
    """'[p1, p2, ...]:' -> list of polynomials"""
    b = body.strip()
    if not (b.startswith("[") and b.endswith("]:")):
        raise Bad("not a list: %r" % body[:80])
    inner = b[1:-2].strip()
    if inner == "":
        return []
    return [parse_poly(x, names) for x in inner.split(",")]


class Toks:
    def __init__(self, s):
        self.t = re.findall(r"\[|\]|,|:|\^|/|'[^']*'|-?\d+|\*|\S", s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self, want=None):
        x = self.peek()
        if x is None or (want is not None and x != want):
            raise Bad("expected %r, found %r at %d" % (want, x, self.i))
        self.i += 1
        return x


def parse_value(tk):
    """nested lists of integers, strings and fractions a/b or a / 2^k"""
    x = tk.peek()
    if x == "[":
        tk.next()
        r = []
        if tk.peek() == "]":
            tk.next()
            return r
        while True:
            r.append(parse_value(tk))
            if tk.peek() == ",":
                tk.next()
                continue
            tk.next("]")
            return r
    if x is None:
        raise Bad("truncated")
    if x.startswith("'"):
        tk.next()
        return x[1:-1]
    if re.fullmatch(r"-?\d+", x):
        tk.next()
        v = int(x)
        if tk.peek() == "/":
            tk.next()
            d = int(tk.next())
            if tk.peek() == "^":
                tk.next()
                d = d ** int(tk.next())
            if d == 0:
                raise Bad("zero denominator")
            return Fraction(v, d)
        return v
    raise Bad("unexpected %r" % x)


def parse_nested(text):
    """the value of '<nested list>:' and what follows"""
    tk = Toks(text)
    v = parse_value(tk)
    tk.next(":")
    if tk.peek() is not None:
        raise Bad("trailing %r" % tk.peek())
    return v
