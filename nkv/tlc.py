"""Running TLC and collecting what the specification prints."""
import json, os, re, shutil, subprocess, tempfile, time
from . import core


class TlcError(Exception):
    pass


class Result:
    def __init__(self):
        self.records = []      # values printed with PrintT(ToJson(..))
        self.states = 0        # distinct
        self.generated = 0
        self.violation = None  # text of a violated invariant / property
        self.text = ""
        self.wall = 0.0


def _num(s):
    return int(s.replace(",", ""))


def run(module, cfg, workers=None, files=None, simulate=None, depth=None, seed=None,
        timeout=600, heap="4g", deadlock=False, spec_dir=None, nprint=None, stop_after=None,
        env=None, keep_text=False):
    """Runs TLC on spec/<module>.tla with the text cfg in a scratch copy.
    files: name -> text placed beside the module.  simulate: "num=N"."""
    d = tempfile.mkdtemp(dir=core.tmpdir(), prefix="tlc-")
    for n in os.listdir(core.SPEC):
        if n.endswith(".tla"):
            shutil.copy(os.path.join(core.SPEC, n), d)
    for n, t in (files or {}).items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    with open(os.path.join(d, "M.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", core.TLA_JAR + ":" + _community(), "tlc2.TLC", "-config", "M.cfg",
           "-workers", str(workers or core.NPROC), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-nowarning"]
    if not deadlock:
        cmd.append("-deadlock")
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
        cmd += ["-fp", str(seed % 100)]
    cmd.append(module + ".tla")
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    res = Result()
    text = []
    try:
        for raw in p.stdout:
            line = raw.decode("utf-8", "replace").rstrip("\n")
            if line.startswith('"{') or line.startswith('"['):
                try:
                    res.records.append(json.loads(json.loads(line)))
                    if nprint and len(res.records) >= nprint:
                        p.kill()
                        break
                    continue
                except ValueError:
                    pass
            text.append(line)
            if len(text) > 20000:
                del text[:10000]
        p.wait(timeout=timeout + 60)
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    res.wall = time.time() - t0
    res.text = "\n".join(text)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", res.text)
    if m:
        res.generated, res.states = _num(m[-1][0]), _num(m[-1][1])
    m = re.findall(r"The number of states generated: ([\d,]+)", res.text)
    if m:
        res.generated = _num(m[-1])
        res.states = res.states or res.generated
    if re.search(r"Error: (Invariant|Action property|Temporal)|is violated", res.text):
        res.violation = res.text[-6000:]
    elif "Error:" in res.text or (p.returncode not in (0, None, -9) and not nprint and not simulate):
        raise TlcError("TLC on %s failed (rc=%s)\n%s" % (module, p.returncode, res.text[-5000:]))
    shutil.rmtree(d, ignore_errors=True)
    return res


def _community():
    import glob
    c = [x for x in glob.glob("/opt/veriftools/tla/*.jar") if "tla2tools" not in x]
    return ":".join(c)


def tla(v):
    """A Python value as TLA+ text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v > -2147483648 else "(-2147483647 - 1)"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)
