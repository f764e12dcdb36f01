"""Builds the driver from /repo's current working tree."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRV = os.path.join(HERE, "driver")
INC = ["-I" + REPO + "/include", "-I" + REPO + "/WBMatrix/include"]
BASE = ["-g", "-w", "-fcommon", "-fopenmp"] + INC


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def sources():
    s = glob.glob(REPO + "/WBMatrix/src/*.c")
    for root, _, files in os.walk(REPO + "/src"):
        s += [os.path.join(root, f) for f in files if f.endswith(".c")]
    return sorted(s)


def library(out, flags=(), opt="-O3"):
    """object files of the library, with the flags it is shipped with; se_wbsm4's generated code is compiled unoptimised (it is huge)"""
    os.makedirs(out, exist_ok=True)
    jobs = []
    for s in sources():
        o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        lvl = "-O0" if os.path.getsize(s) > 400000 or s.endswith("se_wbsm4_local.c") else opt
        jobs.append((["gcc", "-std=c99", lvl] + BASE + list(flags) + ["-c", s, "-o", o], o))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run(j[0]), jobs))
    return [j[1] for j in jobs]


def driver(work, variant="plain"):
    """returns the path of the driver program"""
    flags = []
    if variant == "asan":
        flags = ["-fsanitize=address", "-fno-omit-frame-pointer"]
    out = os.path.join(work, "obj-" + variant)
    exe = os.path.join(work, "driver-" + variant)
    objs = library(out, flags, "-O1" if flags else "-O3")
    more = ["-DDRV_TAB"] if variant == "tab" else []
    _run(["gcc", "-std=gnu99", "-O1"] + BASE + flags + more + ["-I" + DRV, DRV + "/driver.c"] + objs +
         ["-o", exe, "-lcrypto", "-lm", "-lpthread"])
    return exe


def udf_driver(work, version, variant="plain"):
    flags = ["-fsanitize=address", "-fno-omit-frame-pointer"] if variant == "asan" else []
    out = os.path.join(work, "obj-" + variant)
    exe = os.path.join(work, "udf%d-%s" % (version, variant))
    objs = library(out, flags, "-O1" if flags else "-O3") if not os.path.isdir(out) else sorted(glob.glob(out + "/*.o"))
    extra = ["-Dmy_bool=bool"] if version == 5 else []
    _run(["g++", "-O1"] + BASE + flags + extra + ["-I/usr/include/mysql", "-I" + DRV, "-DUDF_VERSION=%d" % version,
         "-include", "mysql.h", REPO + "/udf/mysql%d.cpp" % version, DRV + "/udf.cpp"] + objs +
         ["-o", exe, "-lcrypto", "-lm", "-lpthread"])
    return exe


if __name__ == "__main__":
    print(driver(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "plain"))
