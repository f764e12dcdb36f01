"""Runs cases through the driver and validates what it records with TLC."""
import json, os, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import tlc

JOBS = 8


class HarnessError(Exception):
    pass


class Case:
    def __init__(self, cid, lines, cost=None, sched=False):
        self.id, self.lines, self.sched = cid, list(lines), sched
        # validation cost is roughly the number of data bytes in the script
        self.cost = cost if cost is not None else 200 + sum(len(l) for l in self.lines)

    def script(self):
        return "case id=%s\n" % self.id + "".join(l + "\n" for l in self.lines)


def run_driver(exe, cases, work, tag, timeout=60, env=None):
    script = os.path.join(work, tag + ".script")
    trace = os.path.join(work, tag + ".trace")
    scratch = tempfile.mkdtemp(prefix="s", dir=work)
    with open(script, "w") as f:
        for c in cases:
            f.write(c.script())
    e = dict(os.environ, DRV_TIMEOUT=str(timeout), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=0",
             OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "4"))
    e.pop("VERIF_REPO", None)
    if env:
        e.update(env)
    p = subprocess.run([exe, script, trace, scratch], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode != 0:
        raise HarnessError("driver exit %d: %s" % (p.returncode, p.stderr[-800:]))
    return trace


def split(cases, n):
    bins = [[0, i, []] for i in range(n)]
    for c in sorted(cases, key=lambda c: -c.cost):
        b = min(bins)
        b[0] += c.cost
        b[2].append(c)
    order = {id(c): i for i, c in enumerate(cases)}
    out = [sorted(b[2], key=lambda c: order[id(c)]) for b in bins if b[2]]
    return out


def case_of(trace, line):
    """(case id, index of the event in its case, the event) for a line of a trace"""
    cid, k, ev = None, 0, None
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            e = json.loads(l)
            if e["op"] == "case":
                cid, k = e["id"], 0
            else:
                k += 1
            if i == line:
                ev = e
                break
    return cid, k, ev


class Result:
    def __init__(self):
        self.states = 0
        self.events = 0
        self.cases = 0
        self.ops = {}
        self.rejected = None      # dict(case, event index, event)
        self.samples = []


def _shard(exe, cases, work, tag, timeout, env, stop):
    trace = run_driver(exe, cases, work, tag, timeout, env)
    ok, line, states, out = tlc.validate(trace, work)
    return trace, ok, line, states


def conform(exe, cases, work, timeout=60, env=None, jobs=JOBS, label="t"):
    """Runs every case; returns a Result.  What is rejected is validated on its own before it is reported."""
    r = Result()
    r.cases = len(cases)
    shards = split(cases, min(jobs, len(cases)))
    with ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(_shard, exe, s, work, "%s%d" % (label, i), timeout, env, None) for i, s in enumerate(shards)]
        done = [f.result() for f in fs]
    byid = {c.id: c for c in cases}
    for trace, ok, line, states in done:
        r.states += states
        with open(trace) as f:
            for i, l in enumerate(f):
                op = l[7:l.index('"', 7)]
                r.ops[op] = r.ops.get(op, 0) + 1
                r.events += 1
                if op not in ("case", "fs") and len(r.samples) < 4 and len(l) < 400 and i % 7 == 3:
                    r.samples.append(l.strip())
    for trace, ok, line, states in done:
        if ok or r.rejected:
            continue
        cid, k, ev = case_of(trace, line)
        c = byid[cid]
        rej = dict(case=c, index=k, event=ev)
        if ev["op"] != "hang":
            # the recorded execution itself is the witness; validate that recording once more on its own
            one = os.path.join(work, label + "again.trace")
            keep, on = [], False
            with open(trace) as f:
                for l in f:
                    e = json.loads(l)
                    if e["op"] == "case":
                        on = e["id"] == cid
                    if on:
                        keep.append(l)
            open(one, "w").writelines(keep)
        else:
            # it may just have been slow: once more, with more time
            one = run_driver(exe, [c], work, label + "again", 2 * timeout, env)
        ok2, line2, _, _ = tlc.validate(one, work)
        rej["trace"] = one
        if not ok2:
            _, rej["index"], rej["event"] = case_of(one, line2)
            r.rejected = rej
        else:
            print("note: case %s took long and was accepted when repeated" % cid)
    return r
