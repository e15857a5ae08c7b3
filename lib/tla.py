"""Thin runner around TLC: model checking, behaviour generation, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")


class TlcError(Exception):
    def __init__(self, msg, out=""):
        super().__init__(msg)
        self.out = out


def run_tlc(module, cfg, env=None, workers=4, timeout=600, extra=(), heap="3g", deadlock=False):
    """Run TLC; returns (returncode, stdout)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
        "-Djava.io.tmpdir=" + meta,
        "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
        "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
        "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla"),
    ]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as ex:
        raise TlcError("TLC timeout on %s" % module, (ex.stdout or b"").decode("utf-8", "replace"))
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        g = int(m[-1].replace(",", ""))
        return g, g
    return 0, 0


def printed(out, prefix):
    """Lines printed by PrintT("<prefix>" \\o ...), unescaped."""
    res = []
    pre = '"' + prefix
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            res.append(s[len(prefix):])
    return res


def model_check(module, cfg, timeout=600, workers=4, heap="3g"):
    """Exhaustive check of the design.  Returns dict(states, transitions, out). Raises on error."""
    rc, out = run_tlc(module, cfg, timeout=timeout, workers=workers, heap=heap)
    if rc != 0 or "No error has been found" not in out:
        raise TlcError("design model check of %s/%s failed" % (module, cfg), out)
    g, d = stats(out)
    return {"module": module, "cfg": cfg, "transitions": g, "states": d}


def generate(module, cfg, timeout=600, workers=4, simulate=None, depth=None, seed=1, env=None):
    """Enumerate (or simulate) behaviours; each is printed as GEN <json>."""
    extra = []
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
        workers = 1
    rc, out = run_tlc(module, cfg, timeout=timeout, workers=workers, extra=extra, env=env)
    if rc != 0:
        raise TlcError("generation with %s/%s failed" % (module, cfg), out)
    res = [json.loads(s) for s in printed(out, "GEN ")]
    g, d = stats(out)
    seen, uniq = set(), []
    for r in res:
        k = json.dumps(r, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(r)
    uniq.sort(key=lambda r: json.dumps(r, sort_keys=True))
    return uniq, {"module": module, "cfg": cfg, "transitions": g, "states": d, "behaviours": len(uniq)}


SPEC_EVAL_MARKERS = (
    "Attempted to", "evaluat", "The first argument", "The second argument", "Overflow",
    "out of domain", "overflow", "TLC encountered", "was not in the domain", "encountered the",
)


def validate(module, traces, timeout=800, workers=6, _depth=0, cfg="Trace.cfg"):
    """Check recorded traces against the specification.

    Returns (bads, states, transitions): bads is a list of dict(t, l, c) (t is a 0-based index).
    A trace on which the specification cannot even be evaluated (wrong shape, wrong domain) is
    reported as the clause "unexplainable".
    """
    if not traces:
        return [], 0, 0
    fd, path = tempfile.mkstemp(prefix="traces", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f)
        rc, out = run_tlc(module, cfg, env={"TRACE_FILE": path}, workers=workers, timeout=timeout, heap="6g")
    finally:
        os.unlink(path)
    if rc == 0 and "No error has been found" in out:
        ok = {int(s) - 1 for s in printed(out, "OK ")}
        bads = []
        for s in printed(out, "BAD "):
            b = json.loads(s)
            b["t"] -= 1
            bads.append(b)
        seen = ok | {b["t"] for b in bads}
        missing = [i for i in range(len(traces)) if i not in seen and traces[i]["ev"]]
        empty = [i for i in range(len(traces)) if not traces[i]["ev"]]
        if missing or empty:
            raise TlcError("traces neither accepted nor rejected: %s empty: %s" % (missing[:5], empty[:5]), out[-3000:])
        g, d = stats(out)
        return bads, d, g
    if not any(m in out for m in SPEC_EVAL_MARKERS) or "java.lang.OutOfMemory" in out or "Parsing or semantic" in out or "*** Errors" in out:
        raise TlcError("trace validation machinery failed for %s" % module, out[-6000:])
    if len(traces) == 1:
        msg = [x for x in out.splitlines() if x.strip()]
        keep = [x for x in msg if any(m in x for m in SPEC_EVAL_MARKERS)][:3]
        return [{"t": 0, "l": len(traces[0]["ev"]), "c": "unexplainable: " + " | ".join(keep)[:400]}], 1, 1
    if _depth > 14:
        raise TlcError("too deep", out[-3000:])
    mid = len(traces) // 2
    b1, d1, g1 = validate(module, traces[:mid], timeout, workers, _depth + 1, cfg)
    if len(b1) >= 3 and _depth > 0:
        return b1, d1, g1
    b2, d2, g2 = validate(module, traces[mid:], timeout, workers, _depth + 1, cfg)
    for b in b2:
        b["t"] += mid
    return b1 + b2, d1 + d2, g1 + g2
