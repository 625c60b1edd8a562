"""Runs the binary under test on cases and records what it does as events."""
import os, subprocess, resource, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import msio
from .msio import Bad

MEM = 6 << 30


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(argv, env=None, timeout=60, cwd=None, stdin=None):
    """-> (exit code, stdout, stderr); code -1000 on timeout"""
    e = dict(os.environ)
    e.setdefault("OMP_WAIT_POLICY", "passive")
    e.update(env or {})
    try:
        r = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                           timeout=timeout, preexec_fn=_limits, input=stdin)
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -1000, (x.stdout or b"").decode("utf-8", "replace"), ""


# ---- reading answers -------------------------------------------------------
def fld(p, q):
    return msio.coef(p, q)


def header_event(h, names):
    vs = [v.strip() for v in h["variable order"].split(",")]
    order = h["monomial order"]
    if order.startswith("graded reverse"):
        e = 0
    elif order.startswith("eliminating first variable,"):
        e = 1
    else:
        e = int(order.split()[2])
    if vs != names:
        raise Bad("variables %r" % vs)
    return {"t": "Header", "names": [codes(v) for v in vs], "char": int(h["field characteristic"]), "n": len(vs), "elim": e,
            "len": int(h["length of basis"].split()[0])}


def codes(s):
    return [ord(ch) for ch in s]


def answer_gb(case, text, lead):
    names = case["names"]
    p = case["p"]
    if p == 0 and case.get("e"):
        names = names[case["e"]:]
    if case.get("noheader"):
        names = case["names"]       # the library keeps all the variables
    h, rest = msio.strip_header(text)
    ev = []
    if h or not case.get("noheader"):
        ev.append(header_event(h, names))
    if case.get("text") and not lead:
        return ev + [{"t": "BasisText", "text": codes(rest)}]
    polys = msio.parse_list(rest, names)
    if case.get("noheader") and p == 0 and case.get("e"):
        k = case["e"]
        if any(any(m[:k]) for f in polys for m, _ in f):
            raise Bad("an eliminated variable occurs")
        polys = [[(m[k:], c) for m, c in f] for f in polys]
    if lead:
        ms = []
        for f in polys:
            if len(f) != 1:
                raise Bad("not a monomial")
            if f[0][1] == 0 and len(polys) == 1:
                ms = []
                break
            if f[0][1] != 1:
                raise Bad("coefficient in leading ideal")
            ms.append(list(f[0][0]))
        ev.append({"t": "Lead", "m": ms})
    else:
        ev.append({"t": "Basis", "b": [msio.poly(p, canon(p, f)) for f in polys]})
    return ev


def canon(p, f):
    for m, c in f:
        if p and not (c.denominator == 1 and 0 <= c < p):
            raise Bad("coefficient %s not in 0..%d" % (c, p - 1))
    return f


def answer_nf(case, text):
    p = case["p"]
    polys = msio.parse_list(text, case["names"])
    return [{"t": "NF", "b": [msio.poly(p, canon(p, f)) for f in polys]}]


def boxes_event(v):
    # [1, [[ [lo,hi], ... ], ...]]
    if not (isinstance(v, list) and len(v) == 2 and v[0] == 1 and isinstance(v[1], list)):
        raise Bad("boxes %r" % (str(v)[:60]))
    b = []
    for pt in v[1]:
        row = []
        for iv in pt:
            if not (isinstance(iv, list) and len(iv) == 2):
                raise Bad("interval")
            row.append([msio.rat(iv[0]), msio.rat(iv[1])])
        b.append(row)
    return {"t": "Boxes", "b": b}


def param_event(case, v):
    p, names = case["p"], case["names"]
    ch, nvars, deg, vs, lf, body = v
    idx = []
    for k, s in enumerate(vs):
        if s in names:
            idx.append(names.index(s) + 1)
        elif k == len(vs) - 1:
            idx.append(len(names) + 1)
        else:
            raise Bad("variable %r" % s)
    if body[0] != 1:
        raise Bad("param body")
    (el, den, co) = body[1]

    def up(x):
        d, cs = x
        if len(cs) != d + 1 and not (d == -1 and cs in ([], [0])):     # the zero polynomial
            raise Bad("degree %r of %r coefficients" % (d, len(cs)))
        return [fld(p, c) for c in cs]
    vv, cc = [], []
    for x in co:
        if p == 0:
            vv.append(up(x[0]))
            cc.append(fld(p, x[1]))
        else:
            vv.append(up(x[0]))
            cc.append(1)
    return {"t": "Param", "r": {"char": ch, "nvars": nvars, "deg": deg, "names": idx,
                                "lf": [fld(p, x) for x in lf], "elim": up(el), "den": up(den),
                                "v": vv, "c": cc}}


def answer_solve(case, text, kind):
    v = msio.parse_nested(text)
    if v == [-1]:
        return [{"t": "NoSolution"}]
    if isinstance(v, list) and len(v) == 4 and v[0] == 1 and v[2] == -1 and v[3] == []:
        return [{"t": "Infinite", "n": v[1]}]
    if not (isinstance(v, list) and v and v[0] == 0):
        raise Bad("answer %r" % text[:80])
    if kind == "param":
        if len(v) != 2:
            raise Bad("answer length")
        return [param_event(case, v[1])]
    if kind == "both":
        if len(v) != 3:
            raise Bad("answer length")
        return [param_event(case, v[1]), boxes_event(v[2])]
    if len(v) != 2:
        raise Bad("answer length")
    return [boxes_event(v[1])]


def answer(case, run, text):
    k = run["kind"]
    try:
        if k == "gb2":
            return answer_gb(case, text, False)
        if k == "gb1":
            return answer_gb(case, text, True)
        if k == "nf":
            return answer_nf(case, text)
        if k in ("real", "param", "both"):
            return answer_solve(case, text, k)
    except Bad as x:
        return [{"t": "Garbage", "why": str(x)[:200]}]
    except Exception as x:      # an answer of an unknown shape
        return [{"t": "Garbage", "why": "%s: %s" % (type(x).__name__, str(x)[:200])}]
    raise ValueError(k)


ASK = {"gb2": "basis", "gb1": "lead", "nf": "nf", "real": "boxes", "param": "param", "both": "both"}


# ---- cases -----------------------------------------------------------------
def sys_json(case):
    p = case["p"]
    return {"n": len(case["names"]), "p": p, "e": case.get("e", 0), "k": case.get("k", 0),
            "want": case["want"], "big": bool(case.get("big")), "width": case.get("width", []),
            "facs": [[[msio.rat(x) for x in f], k] for f, k in case.get("facs", [])],
            "gens": [msio.poly(p, f) for f in case["gens"]]}


def environment(run):
    """the clock, and for a quarter of the runs what malloc fills memory with"""
    seed = int(run.get("seed", 1))
    env = {"VT_TIME": str(seed)}
    if seed % 4 == 3:
        env["MALLOC_PERTURB_"] = str(1 + seed // 4 % 255)
    return env


def run_once(binary, case, run, d, timeout):
    """one run -> (events, stdout, stderr, code)"""
    os.makedirs(d, exist_ok=True)
    if run.get("api"):
        return call_once(case, run, d, timeout)
    src = os.path.join(d, "in.ms")
    with open(src, "w", newline="") as f:
        f.write(case.get("text") or msio.file_text(case["names"], p=case["p"], gens=case["gens"]))
    argv = [run.get("binary") or binary, "-f", src]
    out = None
    if run.get("ofile"):
        out = os.path.join(d, "out.ms")
        argv += ["-o", out]
    argv += run["args"]
    env = environment(run)
    env.update(run.get("env", {}))
    code, so, se = execute(argv, env, timeout)
    text = so
    ev = [{"t": "Run", "ask": ASK[run["kind"]], "cfg": " ".join(run["args"])}]
    if out:
        text = open(out).read() if os.path.exists(out) else ""
        if so.strip() and not run.get("chatter"):
            ev.append({"t": "Garbage", "why": "stdout: " + so[:100]})
    if code == 0:
        if run.get("mayfail") and "Computation failed" in se:
            ev.append({"t": "GaveUp", "may": True})
        else:
            ev += answer(case, run, text)
    elif run.get("mayfail") and code == 1 and "Computation failed" in se:
        ev.append({"t": "GaveUp", "may": True})
        code = 0
    ev.append({"t": "Exit", "code": code})
    return ev, text, se, code


API = ["mon_order", "elim", "hts", "threads", "pairs", "reset", "la", "reduce", "param", "gen", "prec", "isgb"]
API_DEFAULT = dict(mon_order=0, elim=0, hts=17, threads=1, pairs=0, reset=0, la=2, reduce=1, param=0, gen=2, prec=128, isgb=0)


def call_once(case, run, d, timeout):
    """one call of a library function, the same way"""
    a = dict(API_DEFAULT, **run["api"])
    src = os.path.join(d, "in.txt")
    p = case["p"]
    with open(src, "w") as f:
        f.write("%s %d %d %d %d " % (a["fn"], p, len(case["names"]), len(case["gens"]), case.get("k", 0)))
        f.write(" ".join(str(a[x]) for x in API) + "\n" + " ".join(case["names"]) + "\n")
        for g in case["gens"]:
            f.write("%d\n" % len(g))
            for m, c in g:
                c = Fraction(fld_int(p, c)) if p else Fraction(c)
                f.write("%d %d %s\n" % (c.numerator, c.denominator, " ".join(map(str, m))))
    env = environment(run)
    env.update(run.get("env", {}))
    code, so, se = execute([run["binary"], src], env, timeout)
    ev = [{"t": "Run", "ask": ASK[run["kind"]], "cfg": str(sorted(run["api"].items()))}]
    if code == 0:
        ev += answer(dict(case, noheader=1), run, so)
    ev.append({"t": "Exit", "code": code})
    return ev, so, se, code


def fld_int(p, c):
    v = msio.coef(p, c)
    return v if isinstance(v, int) else v[0]


def run_case(binary, case, scratch, timeout=60):
    d = os.path.join(scratch, "c_%s" % case["id"])
    if case.get("text"):
        load = {"t": "LoadText", "sys": {"text": codes(case["text"]), "e": case.get("e", 0), "k": case.get("k", 0), "want": case["want"],
                                         "big": bool(case.get("big")), "width": case.get("width", []), "facs": []}}
    else:
        load = {"t": "Load", "sys": sys_json(case)}
    events = [load]
    for k, run in enumerate(case["runs"]):
        ev, _, _, _ = run_once(binary, case, run, d, min(timeout, case.get("limit", timeout)))
        events += ev
    shutil.rmtree(d, ignore_errors=True)
    return {"id": case["id"], "events": events}


def run_all(binary, cases, scratch, jobs=8, timeout=60, deadline=None, stop_after=6, one=run_case):
    """the traces; cases are skipped (None) after some time-outs and after the deadline"""
    late = []

    def go(c):
        if len(late) >= stop_after or (deadline and time.time() > deadline):
            return None
        t = one(binary, c, scratch, timeout)
        if any(e["t"] == "Exit" and e["code"] == -1000 for e in t["events"]):
            late.append(c["id"])
        return t
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(go, cases))
