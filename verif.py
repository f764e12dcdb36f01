#!/usr/bin/env python3
"""verif.py check Pxx [--tier quick|thorough]     decide one property on /repo's working tree
   verif.py replay FILE                            run a replay file again and show the rejected event
   verif.py list                                   the properties with a check
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the machinery itself failed."""
import argparse, json, os, random, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lib import build, run, tlc
import checks

KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def level_of(pid):
    for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
        if c["property"] == pid:
            return c["level"]
    return checks.CHECKS[pid].level


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.thorough = tier == "thorough"
        os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, "work"))
        self.t0 = time.time()
        self.models, self.results, self.cov, self.notes = [], [], {}, []
        self.violation = None
        self.known = []
        self.pool = ThreadPoolExecutor(4)
        self.exes = {}
        self.exe_lock = threading.Lock()
        self.build_future = self.pool.submit(build.driver, self.work)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- the abstract models
    def model(self, name, cfg=None, consts=None, workers=2, args=()):
        """start checking a model; .result() gives its dict"""
        f = self.pool.submit(tlc.model_check, name, self.work, cfg, workers, 3000 if self.thorough else 600, args, consts)
        self.models.append((name, cfg, f))
        return f

    def histories(self, f):
        r = f.result()
        if r["violated"]:
            raise tlc.TlcError("model %s violated:\n%s" % (r["model"], r["out"][-2000:]))
        if not r["histories"]:
            raise tlc.TlcError("model %s produced no histories" % r["model"])
        h = r["histories"]
        h.sort(key=lambda x: json.dumps(x))
        return h

    def simulate(self, name, cfg, num, depth, consts=None):
        r = tlc.model_check(name, self.work, cfg, 1, 600, ("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)), consts)
        return self.histories(_Done(r))

    # ---- the library
    def exe(self, variant="plain"):
        if variant == "plain":
            return self.build_future.result()
        with self.exe_lock:
            if variant not in self.exes:
                if variant.startswith("udf"):
                    self.build_future.result()
                    v = variant.split("-")
                    self.exes[variant] = build.udf_driver(self.work, int(v[0][3:]), v[1] if len(v) > 1 else "plain")
                else:
                    self.exes[variant] = build.driver(self.work, variant)
        return self.exes[variant]

    def run(self, cases, variant="plain", timeout=None, env=None, label=None):
        if self.violation:
            return None
        ids = set()
        for c in cases:
            if c.id in ids:
                raise run.HarnessError("duplicate case " + c.id)
            ids.add(c.id)
        label = label or "r%d" % len(self.results)
        r = run.conform(self.exe(variant), cases, self.work, timeout or self.q(60, 240), env, label=label)
        self.results.append(r)
        if r.rejected:
            self.violation = (r.rejected, variant, env)
        return r

    def finish(self):
        states = trans = 0
        mods = []
        for name, cfg, f in self.models:
            r = f.result()
            if r["violated"]:
                raise tlc.TlcError("model %s violated:\n%s" % (name, r["out"][-2000:]))
            states += r["states"]; trans += r["transitions"]
            mods.append(dict(model=cfg or name, states=r["states"], transitions=r["transitions"]))
        ops = {}
        for r in self.results:
            states += r.states; trans += r.events
            for k, v in r.ops.items():
                ops[k] = ops.get(k, 0) + v
        cases = sum(r.cases for r in self.results)
        samples = [json.loads(s) for r in self.results for s in r.samples][:5]
        cov = dict(states=states, transitions=trans, traces_validated_against_impl=cases, samples=samples or ["none"],
                   models=mods, events_validated=sum(ops.values()), events_by_call=ops)
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level_of(self.pid), coverage=cov,
                  wall_s=round(time.time() - self.t0, 1))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return ev


class _Done:
    def __init__(self, r):
        self.r = r

    def result(self):
        return self.r


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: property=%s " % pid):
                out.append(l[len("known: property=%s " % pid):].strip())
    return out


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Ctx(pid, tier, seed)
    c.known_list = known_findings(pid)
    try:
        checks.CHECKS[pid](c)
        ev = c.finish()
        for k in c.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        if c.violation:
            rej, variant, env = c.violation
            d = os.path.join(HERE, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s.json" % (pid, rej["case"].id))
            json.dump(dict(property=pid, variant=variant, env=env, script=rej["case"].script(), rejected_event=rej["event"],
                           event_number=rej["index"], trace=open(rej["trace"]).read().splitlines()), open(p, "w"), indent=1)
            e = json.dumps(rej["event"])
            print("case %s, event %s is no behaviour of the specification:\n  %s" % (rej["case"].id, rej["index"], e if len(e) < 1500 else e[:1500] + "..."))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        print("%s: held (%s tier): %d executions, %d events, %d states, %.1f s" %
              (pid, tier, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["events_validated"], ev["coverage"]["states"], ev["wall_s"]))
        return 0
    finally:
        c.pool.shutdown(wait=True, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
        else:
            print("kept", c.work)


def replay(path):
    r = json.load(open(path))
    c = Ctx(r["property"], "quick", 1)
    try:
        lines = r["script"].splitlines()
        case = run.Case(lines[0].split("id=")[1], lines[1:])
        res = run.conform(c.exe(r["variant"]), [case], c.work, 120, r["env"])
        if res.rejected:
            print("rejected: event %s: %s" % (res.rejected["index"], json.dumps(res.rejected["event"])))
            return 1
        print("accepted")
        return 0
    finally:
        c.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(c.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "list"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    if a.cmd == "list":
        print(" ".join(sorted(checks.CHECKS)))
        return 0
    try:
        return check(a.arg, a.tier) if a.cmd == "check" else replay(a.arg)
    except build.BuildError as e:
        print("cannot build the driver:\n%s" % e)
        return 2
    except (tlc.TlcError, run.HarnessError) as e:
        print("machinery failure: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
