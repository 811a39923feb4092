"Running TLC on the specifications in /verif/spec."
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


PROP = ""  # the property being checked


class TlcError(Exception):
    "The model checker itself failed: no verdict."


class Outside(TlcError):
    "An event for which the specification has no meaning."

    def __init__(self, msg, trace, event):
        super().__init__(msg)
        self.trace, self.event = trace, event


def run(module, cfg=None, *, env=None, args=(), timeout=800, workers=8, heap="6g", defines=None, small=False):
    """Run TLC, return its stdout. Works in a scratch copy of the spec directory."""
    tmp = tempfile.mkdtemp(prefix="vftlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), tmp)
        cfgf = cfg or module + ".cfg"
        if defines:
            cfgf = "gen_" + module + ".cfg"
            with open(os.path.join(tmp, cfgf), "w") as f:
                f.write(defines)
        gc = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"] if small else ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]
        cmd = ["java", *gc, "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "m"), "-noGenerateSpecTE",
               "-config", cfgf, *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def counts(out):
    m = _STATES.findall(out)
    if not m:
        raise TlcError("no state count\n" + out[-3000:])
    return int(m[-1][0]), int(m[-1][1])


_BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)


def validate(module, traces, timeout=800, heap="2g", procs=8):
    """Run recorded traces through trace specification `module`.

    Returns (list of (trace index, event index, [clauses]), generated, distinct).
    """
    if not traces:
        raise TlcError("no traces to validate")
    total = sum(len(t["ev"]) + 1 for t in traces)
    n = max(1, min(procs, total // 4000, len(traces)))
    n = max(n, total // 60000)
    # longest first, dealt out in turns
    order = sorted(range(len(traces)), key=lambda k: -len(traces[k]["ev"]))
    parts = [order[k::n] for k in range(n)]
    with ThreadPoolExecutor(min(n, procs)) as ex:
        outs = list(ex.map(lambda ix: _part(module, traces, ix, timeout, heap), parts))
    bad, gen, distinct = [], 0, 0
    for b, g, d in outs:
        bad += b
        gen += g
        distinct += d
    bad.sort()
    return bad, gen, distinct


def _part(module, traces, ix, timeout, heap):
    """Validate the traces numbered `ix`.

    A trace whose events the specification cannot even interpret is no
    behaviour of it; it is set aside and reported.
    """
    ix, bad = list(ix), []
    while ix:
        try:
            b, g, d = _validate1(module, [traces[k] for k in ix], timeout, heap)
            return bad + [(ix[t], i, cl) for t, i, cl in b], g, d
        except Outside as ex:
            if not PROP:
                raise
            bad.append((ix.pop(ex.trace), ex.event, [PROP + ".outside_the_specification"]))
            if len(bad) >= 3:
                break
    return bad, 0, 0


_AT = re.compile(r"^/\\ (tr|i) = (\d+)", re.M)


def _validate1(module, traces, timeout, heap):
    fd, path = tempfile.mkstemp(prefix="vftr", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f)
        rc, out = run(module, env={"VF_TRACES": path}, timeout=timeout, heap=heap, workers=1, small=True)
    finally:
        os.unlink(path)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        at = max(out.find("Error:"), 0)
        msg = f"TLC rc={rc}\n" + out[at : at + 1500] + "\n...\n" + out[-2500:]
        where = dict(_AT.findall(out))  # of the last state
        if "The behavior up to this point is" in out and {"tr", "i"} <= set(where):
            t = int(where["tr"]) - 1
            raise Outside(msg, t, min(int(where["i"]), len(traces[t]["ev"]) - 1))
        raise TlcError(msg)
    gen, distinct = counts(out)
    want = sum(len(t["ev"]) + 1 for t in traces)
    if distinct != want:
        raise TlcError(f"{distinct} states for traces that have {want}\n" + out[-3000:])
    bad = []
    for m in _BAD.finditer(out):
        bad.append((int(m[1]) - 1, int(m[2]) - 1, re.findall(r'"([^"]+)"', m[3])))
    if out.count('"BAD"') != len(bad):
        raise TlcError("unparsed BAD lines\n" + out[-3000:])
    return bad, gen, distinct


def check_model(module, cfg=None, timeout=800, workers=8, args=(), defines=None, heap="8g"):
    "Exhaustively check a design model. Returns (ok, generated, distinct, out)."
    rc, out = run(module, cfg, timeout=timeout, workers=workers, args=args, defines=defines, heap=heap)
    if rc not in (0, 10, 11, 12, 13):
        at = max(out.find("Error:"), 0)
        raise TlcError(f"TLC rc={rc}\n" + out[at : at + 1500] + "\n...\n" + out[-2500:])
    gen, distinct = counts(out)
    return rc == 0, gen, distinct, out
