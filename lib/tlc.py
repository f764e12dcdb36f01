"""Runs TLC."""
import json, os, re, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
MODELS = os.path.join(HERE, "models")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=1, args=(), timeout=800, heap="3g", jvm=()):
    """module and cfg are paths.  Returns (exit status, output)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    tmp = tempfile.mkdtemp(prefix="jtmp", dir=work)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + tmp, "-DTLA-Library=" + SPEC + os.pathsep + MODELS] + list(jvm) + \
          ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=e, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    drop = ("Parsing file", "Semantic processing", "Linting of")
    return p.returncode, "\n".join(l for l in p.stdout.splitlines() if not l.startswith(drop))


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r"(\d+) states checked", out)
    return (int(m.group(1)), int(m.group(1))) if m else (0, 0)


def model_check(name, work, cfg=None, workers=4, timeout=800, args=(), consts=None, heap="6g"):
    """Exhaustive check of models/<name>.tla.  Returns dict(states, transitions, histories, violated)."""
    mod = os.path.join(MODELS, name + ".tla")
    cfgp = os.path.join(MODELS, (cfg or name) + ".cfg")
    if consts:
        text = open(cfgp).read()
        for k, v in consts.items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), r"\g<1> %s" % v, text)
            if n != 1:
                raise TlcError("no constant %s in %s" % (k, cfgp))
        cfgp = os.path.join(work, "%s-%s.cfg" % (name, abs(hash(text)) % 10 ** 8))
        open(cfgp, "w").write(text)
    rc, out = tlc(mod, cfgp, work, workers=workers, timeout=timeout, args=args, heap=heap)
    hist = []
    for line in out.splitlines():
        if line.startswith('"HIST'):
            hist.append(json.loads(json.loads(line)[4:]))
    gen, dist = stats(out)
    if rc not in (0, 12, 13):
        raise TlcError("TLC failed on %s (exit %d)\n%s" % (name, rc, "\n".join(l for l in out.splitlines() if not l.startswith('"HIST'))[-3000:]))
    text = "\n".join(l for l in out.splitlines() if not l.startswith('"HIST'))
    return dict(model=name, states=dist, transitions=gen, histories=hist, violated=rc != 0, out=text)


def validate(trace, work, timeout=800, heap="3g"):
    """Is the recorded trace a behaviour of System?  Returns (accepted, line of the first rejected event, states, text)."""
    rc, out = tlc(os.path.join(SPEC, "Trace.tla"), os.path.join(SPEC, "Trace.cfg"), work,
                  env={"TRACE": trace}, timeout=timeout, heap=heap)
    gen, dist = stats(out)
    m = re.search(r'<<"REJECTED", (\d+)>>', out)
    if m:
        return False, int(m.group(1)), dist, out
    # an event so odd that the specification cannot even be evaluated on it is rejected as well
    at = re.findall(r"(?m)^/\\ l = (\d+)", out)
    if rc != 0 and at and "Error:" in out and not re.search("OutOfMemory|StackOverflow|heap space|OffHeap", out):
        return False, int(at[-1]), dist, out
    if rc != 0 or "No error has been found" not in out:
        raise TlcError("TLC failed on a trace (exit %d)\n%s" % (rc, out[-3000:]))
    return True, 0, dist, out
