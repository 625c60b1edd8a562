"""python3 -m vt.check <property> [quick|thorough]

Builds /repo's working tree, runs it on the property's cases, has TLC decide whether the recorded runs
are behaviours of the specification, and has TLC check the property's design models.
exit 0: held; 1: VIOLATION line(s); 2: no answer."""
import json, os, random, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build, runner, tlc, known
from .tlc import TLCError

VERIF = build.VERIF


class Ctx:
    """one run of one check"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vt_%s_" % pid)
        self.binaries = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases": 0, "runs": 0,
                    "undecided": 0, "models": {}, "families": {}, "samples": []}
        self.violations = []
        self.more = 0           # rejected cases that were not looked at closely
        self.once = []          # rejected cases that were accepted when run again
        self.budget = 800 if self.quick else 6 * 3600
        self.known = []
        self.notes = []
        self.assumptions = []

    def rnd(self, tag=""):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, tag))

    def binary(self, name="msolve", **k):
        if name not in self.binaries:
            self.binaries[name] = build.build(self.scratch, name=name, **k)
        return self.binaries[name]

    # -- design models
    def model(self, module, cfg=None, expect=0, **k):
        r = tlc.tlc(self.scratch, module, cfg=cfg, **k)
        if r["code"] != expect:
            raise TLCError("model %s/%s: TLC exit %d, expected %d\n%s" % (module, cfg, r["code"], expect, r["out"][-2500:]))
        self.cov["models"][cfg or module] = {"states": r["distinct"], "transitions": r["states"]}
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        return r

    # -- recorded runs
    def conformance(self, cases, module="CheckCases", batch=220, timeout=None, tlc_timeout=150, reruns=30, one=runner.run_case,
                    jobs=8, env=None, binary=None):
        """run the cases, decide them with TLC, rerun the rejected ones"""
        ids = [c["id"] for c in cases]
        assert len(set(ids)) == len(ids), "case ids not unique"
        timeout = timeout or (25 if self.quick else 120)
        exe = binary or self.binary()

        def rec(cs, j, to, share=.5):
            return runner.run_all(exe, cs, self.scratch, jobs=j, timeout=to, deadline=self.t0 + self.budget * share, one=one)
        traces = {t["id"]: t for t in rec(cases, jobs, timeout) if t}
        if len(traces) < len(cases):
            self.notes.append("%d of %d cases not run (time-outs or time is up)" % (len(cases) - len(traces), len(cases)))
            cases = [c for c in cases if c["id"] in traces]
        acc, at, und = set(), {}, set()
        order = list(cases)
        self.rnd("order").shuffle(order)       # spread the expensive cases over the batches
        for i in range(0, len(order), batch):
            part = [traces[c["id"]] for c in order[i:i + batch]]
            if self.late(.8):
                und |= {t["id"] for t in part}
                continue
            a, w, u = self.decide(part, module, tlc_timeout, env)
            acc |= a
            at.update(w)
            und |= u
        self.cov["cases"] += len(cases)
        self.cov["runs"] += sum(1 for t in traces.values() for e in t["events"] if e["t"] in ("Run", "Call"))
        self.cov["traces_validated_against_impl"] += len(acc)
        self.cov["undecided"] += len(und)
        for c in cases:
            f = c["id"].rstrip("0123456789")
            self.cov["families"][f] = self.cov["families"].get(f, 0) + 1
        for c in cases[:3]:
            if len(self.cov["samples"]) < 4:
                self.cov["samples"].append({"id": c["id"], "events": short(traces[c["id"]]["events"])})
        for u in und:
            self.notes.append("undecided within the time limit: " + u)
        for c in cases:
            if c["id"] in acc or c["id"] in und:
                continue
            if len(self.violations) >= 4 or (self.violations and self.late(.7)):
                self.more += 1
                continue
            self.rejected(c, traces[c["id"]], at.get(c["id"], 0), rec, module, reruns, env)
        if len(und) > max(2, len(cases) // 8) and not self.violations:
            raise TLCError("%d of %d cases undecided" % (len(und), len(cases)))
        return traces

    def late(self, share):
        return time.time() > self.t0 + self.budget * share

    def decide(self, part, module, timeout, env=None):
        """-> accepted, events consumed, undecided"""
        try:
            acc, at, r = tlc.check_traces(self.scratch, part, module=module, timeout=timeout, env=env)
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["states"]
            return acc, at, set()
        except tlc.TLCTimeout as x:
            acc, at = tlc.progress(x.out)
        left = [t for t in part if t["id"] not in acc]
        if len(part) == 1:
            return acc, at, {t["id"] for t in left}
        self.notes.append("%d of %d cases alone after the time limit" % (len(left), len(part)))
        und = set()

        def one(t):
            try:
                return tlc.check_traces(self.scratch, [t], module=module, timeout=60, env=env, workers=1, heap="3g")
            except tlc.TLCTimeout:
                return None
        with ThreadPoolExecutor(8) as ex:
            for t, r in zip(left, ex.map(one, left)):
                if r is None:
                    und.add(t["id"])
                else:
                    acc |= r[0]
                    at.update(r[1])
                    self.cov["states"] += r[2]["distinct"]
                    self.cov["transitions"] += r[2]["states"]
        return acc, at, und

    def rejected(self, case, trace, at, rec, module, reruns, env):
        ev = trace["events"]
        bad = ev[at] if at < len(ev) else {"t": "end"}
        k = known.match(self.pid, case)
        if k:
            self.known.append("%s: %s" % (k, json.dumps(bad)[:120]))
            return
        # Run it again: a time-out or a lack of memory may be the machine's, and probabilistic linear algebra over a
        # field of 2^15 .. 2^20 elements errs now and then, so there other seeds have to fail, too.
        prob = 2 ** 15 < case.get("p", 0) < 2 ** 20 and any(r.get("args") and {"42", "44"} & set(r["args"]) for r in case["runs"])
        external = bad.get("t") == "Exit" and bad.get("code") in (-1000, -9)
        need, again, tries = (2 if prob else 1), 0, (reruns if case.get("vary") else 5 if prob else 3)
        for n in range(tries):
            c2 = dict(case)
            if (case.get("vary") and n) or prob:
                c2["runs"] = [dict(r, seed=r.get("seed", 1) + 1000 * n) for r in case["runs"]]
            t2 = None if self.late(.9) else rec([c2], 1, 60 if self.quick else 300, .9)[0]
            if t2 is None:
                break
            a, w, u = self.decide([t2], module, 60 if self.quick else 300, env)
            if t2["id"] not in a and not u:
                again += 1
                ev, at = t2["events"], w.get(t2["id"], 0)
                bad = ev[at] if at < len(ev) else {"t": "end"}
                if again >= need:
                    break
        if again < need and (external or prob or t2 is not None):
            self.notes.append("rejected, but not when run again: %s at %s" % (case["id"], json.dumps(bad)[:200]))
            if not external and not prob:       # a wrong answer that depends on the schedule; one alone is not held against the code
                self.once.append((case, trace, at, json.dumps(bad)[:300]))
                if len(self.once) == 2:
                    for c, t, n, why in self.once:
                        self.violation(c["id"], {"case": c, "events": t["events"], "rejected_at": n, "module": module}, why)
            return
        self.violation(case["id"], {"case": case, "events": ev, "rejected_at": at, "module": module}, json.dumps(bad)[:300])

    def violation(self, name, replay, why):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s.json" % (self.pid, "".join(ch if ch.isalnum() or ch in "._-" else "_" for ch in name)))
        with open(path, "w") as f:
            json.dump(replay, f, default=str)
        self.violations.append((name, path, why))

    # -- the end
    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for n in self.notes:
            print("note:", n)
        for name, path, why in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  case %s, first step that is not one of the specification: %s" % (name, why))
        if self.more:
            print("  and %d more rejected cases" % self.more)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations), "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d cases, %d runs, %d traces accepted, %d undecided, %d states, %d violations, %.0f s" % (
            self.pid, self.tier, self.cov["cases"], self.cov["runs"], self.cov["traces_validated_against_impl"],
            self.cov["undecided"], self.cov["states"], len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def short(ev):
    s = json.dumps(ev)
    return json.loads(s) if len(s) < 1500 else s[:1500]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import props
    ctx = Ctx(pid, tier, seed)
    try:
        props.PROPS[pid](ctx)
        code = ctx.finish()
    except build.BuildError as x:
        print("build failed:", str(x)[-3000:])
        code = 2
    except TLCError as x:
        print("TLC:", str(x)[-3000:])
        code = 2
        if ctx.violations:
            code = ctx.finish()
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
