"""Shared machinery: building the harness from /repo, running cases through
it, running TLC, reporting."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
NPROC = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1"))
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"

_tmp = None


def tmpdir():
    """Scratch directory of this run, removed at exit."""
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="nkv-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def log(*a):
    print(*a, file=sys.stderr, flush=True)


CF = ["-g", "-O1", "-w", "-fsanitize=address,undefined",
      "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def _sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:])


def build(interp=False):
    """Compile /repo/src/*.c and the harness; returns dict of executables."""
    d = os.path.join(tmpdir(), "build")
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    inc = ["-I" + os.path.join(REPO, "src")]
    objs = []
    jobs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        objs.append(o)
        jobs.append(["gcc"] + CF + inc + ["-c", s, "-o", o])
    h = os.path.join(d, "nkh_main.o")
    jobs.append(["gcc"] + CF + inc + ["-c", os.path.join(VERIF, "harness", "nkh.c"), "-o", h])
    if interp:
        im = os.path.join(d, "interp_main.o")
        jobs.append(["gcc"] + CF + inc + ["-c", os.path.join(REPO, "src", "interp", "main.c"), "-o", im])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(_sh, jobs))
    out = {"nkh": os.path.join(d, "nkh")}
    if interp:
        out["ninkasi"] = os.path.join(d, "ninkasi")
        _sh(["gcc"] + CF + [im] + objs + ["-o", out["ninkasi"], "-lm"])
    # memory the library gets behind the host's back becomes visible (see nkh.c)
    re = sum([["--redefine-sym", "%s=nkh_%s" % (f, f)] for f in ("malloc", "calloc", "realloc", "strdup", "free")], [])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(_sh, [["objcopy"] + re + [o] for o in objs]))
    _sh(["gcc"] + CF + [h] + objs + ["-o", out["nkh"], "-lm"])
    return out


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:max_malloc_fill_size=0:detect_stack_use_after_return=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"


def hx(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return s.hex() if s else "-"


class Case:
    __slots__ = ("id", "lines")

    def __init__(self, id, lines):
        self.id = id
        self.lines = lines

    def text(self):
        return "CASE %s\n%s\nEND\n" % (self.id, "\n".join(self.lines))


def _run_chunk(exe, cases, timeout):
    path = tempfile.mktemp(dir=tmpdir(), suffix=".cases")
    with open(path, "w") as f:
        for c in cases:
            f.write(c.text())
    errp = path + ".err"
    with open(errp, "wb") as ef:
        p = subprocess.run([exe, path, str(timeout)], stdout=subprocess.PIPE, stderr=ef, env=ENV)
    res = {}
    cur = None
    for line in p.stdout.split(b"\n"):
        if not line:
            continue
        try:
            e = json.loads(line.decode("latin-1"))
        except ValueError:
            e = {"ev": "garbled", "line": line.decode("latin-1")[:200]}
        if e["ev"] == "case":
            cur = res.setdefault(e["id"], [])
        elif cur is not None:
            cur.append(e)
    err = open(errp, "rb").read().decode("latin-1")
    os.unlink(path)
    os.unlink(errp)
    return res, err


def run_cases(exe, cases, timeout=20, nproc=None):
    """Runs cases in parallel; dict id -> list of events (the last is 'exit')."""
    nproc = nproc or NPROC
    cases = list(cases)
    if not cases:
        return {}
    n = max(1, min(nproc * 4, len(cases)))
    chunks = [cases[i::n] for i in range(n)]
    out = {}
    with ThreadPoolExecutor(nproc) as ex:
        for r, err in ex.map(lambda c: _run_chunk(exe, c, timeout), chunks):
            out.update(r)
    return out


def run_one(exe, case, timeout=20):
    r, err = _run_chunk(exe, [case], timeout)
    return r.get(case.id, []), err


def exit_ok(evs):
    return bool(evs) and evs[-1].get("ev") == "exit" and evs[-1]["code"] == 0 and evs[-1]["sig"] == 0
