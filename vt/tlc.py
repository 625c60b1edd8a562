"""Runs TLC on a module of /verif/spec."""
import os, re, subprocess, json, glob, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class TLCTimeout(TLCError):
    out = ""


def classes(scratch):
    d = os.path.join(scratch, "cls")
    if not os.path.isdir(d):
        os.makedirs(d)
        r = subprocess.run(["javac", "-cp", JAR, "-d", d] + sorted(glob.glob(os.path.join(VERIF, "java", "*.java"))),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise TLCError("javac: " + r.stdout[-2000:])
    return d


def tlc(scratch, module, cfg=None, env=None, workers=8, timeout=800, extra=(), accel=True, heap="6g", spec_dir=None,
        jopts=(), tag=""):
    """-> dict(code, out, states, distinct, violated, prints)"""
    spec = spec_dir or os.path.join(VERIF, "spec")
    meta = os.path.join(scratch, "meta_%s_%s_%d" % (module, tag, os.getpid()))
    cp = (classes(scratch) + ":" if accel else "") + JAR + ":" + DEPS
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-DTLA-Library=" + spec] + list(jopts) + \
          ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(spec, (cfg or module) + ".cfg")] + list(extra) + [os.path.join(spec, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=scratch, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        e = TLCTimeout("TLC timeout on %s" % module)
        e.out = (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, (bytes, type(None))) else x.stdout
        raise e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    res = {"code": r.returncode, "out": out, "states": int(m.group(1)) if m else 0,
           "distinct": int(m.group(2)) if m else 0,
           "violated": re.findall(r"Invariant (\S+) is violated|Temporal properties were violated|property (\S+) is violated", out)}
    if r.returncode not in (0, 10, 11, 12, 13):
        lines = [x for x in out.split("\n") if not x.startswith("Loading ")]
        raise TLCError("TLC exit %d on %s:\n%s" % (r.returncode, module, "\n".join(lines)[-3000:]))
    return res


def progress(out):
    at = {}
    for m in re.finditer(r'<<"AT", "([^"]+)", (\d+)>>', out):
        at[m.group(1)] = max(at.get(m.group(1), 0), int(m.group(2)))
    return set(m.group(1) for m in re.finditer(r'<<"ACCEPTED", "([^"]+)", (\d+)>>', out)), at


def check_traces(scratch, cases, module="CheckCases", timeout=800, workers=8, env=None, heap="6g"):
    """cases: [{id, events}] -> (accepted ids, {id: events consumed}, stats)"""
    path = os.path.join(scratch, "cases_%d_%s_%s.json" % (os.getpid(), module, cases[0]["id"]))
    with open(path, "w") as f:
        json.dump(cases, f)
    e = {"VT_CASES": path}
    e.update(env or {})
    try:
        r = tlc(scratch, module, env=e, timeout=timeout, workers=workers, heap=heap, tag=cases[0]["id"])
    finally:
        os.remove(path)
    if r["code"] != 0:
        raise TLCError("TLC exit %d:\n%s" % (r["code"], r["out"][-3000:]))
    acc, at = progress(r["out"])
    return acc, at, r
