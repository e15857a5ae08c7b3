"""check.py PID [quick|thorough] [--replay FILE]

For one property: (1) model-check the design specification, (2) let TLC enumerate/simulate
behaviours of it, (3) run them (plus seeded larger ones) on the real code, recording what it
did, (4) let TLC validate the recorded traces against the specification.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "harness"))

import tla  # noqa
import vf  # noqa

HARNESS = None
HANGS = mp.get_context("fork").Value("i", 0)


def _seed_all(seed):
    random.seed(seed)
    try:
        import numpy as np
        np.random.seed(seed % (2 ** 31))
        import torch
        torch.manual_seed(seed)
    except ImportError:
        pass


def _run_one(arg):
    i, scn, seed, lim = arg
    if HANGS.value >= 3:
        return i, {"cfg": {"x": 0}, "ev": [], "skipped": True}
    _seed_all((seed * 1000003 + i) % (2 ** 31))
    try:
        with vf.limit(lim):
            tr = HARNESS.run(scn)
        if not tr["ev"]:
            tr["ev"] = [{"ev": "crash", "exc": "no event recorded", "msg": ""}]
        return i, tr
    except BaseException as ex:  # noqa
        if isinstance(ex, (KeyboardInterrupt, SystemExit)):
            raise
        if isinstance(ex, vf.Timeout):
            with HANGS.get_lock():
                HANGS.value += 1
        tb = traceback.format_exc().splitlines()[-6:]
        return i, {"cfg": {"x": 0}, "ev": [{"ev": "crash", "exc": type(ex).__name__, "msg": "\n".join(tb)}], "crashed": True}


def crash_start_cfg(h, scn):
    f = getattr(h, "cfg_of", None)
    if f is None:
        return None
    try:
        return f(scn)
    except Exception:
        return None


class quiet:
    """What the code under test prints is dropped (VERIF_LOUD=1 keeps it)."""

    def __enter__(self):
        self.loud = os.environ.get("VERIF_LOUD")
        if self.loud:
            return
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)

    def __exit__(self, *a):
        if self.loud:
            return
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        os.close(self.saved[0])
        os.close(self.saved[1])


def run_scenarios(h, scns, seed, procs):
    with quiet():
        return _run_scenarios(h, scns, seed, procs)


def _run_scenarios(h, scns, seed, procs):
    global HARNESS
    HARNESS = h
    lim = getattr(h, "LIMIT", 30)
    args = [(i, s, seed, lim) for i, s in enumerate(scns)]
    out = [None] * len(scns)
    if procs <= 1 or len(scns) < 4 or getattr(h, "SERIAL", False):
        for a in args:
            i, tr = _run_one(a)
            out[i] = tr
        return out
    ctx = mp.get_context("fork")
    chunk = max(1, min(50, len(args) // (procs * 4)))
    with ctx.Pool(procs) as pool:
        for i, tr in pool.imap_unordered(_run_one, args, chunksize=chunk):
            out[i] = tr
    return out


def load_known(pid):
    res = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status", "known") == "known":
                res.append(d)
    return res


def matches(k, clause, scn):
    if not clause.startswith(k["clause"]):
        return False
    for key, val in k.get("scenario", {}).items():
        if scn.get(key) != val:
            return False
    return True


def dirty_memory():
    """Fresh arrays hold anything; make that anything the same in every run and as harmful as it can be."""
    import numpy as np
    real = np.empty

    def empty(*args, **kwargs):
        x = real(*args, **kwargs)
        if x.dtype.kind == "f":
            x.fill(np.nan)
        elif x.dtype.kind in "iu":
            x.fill(np.iinfo(x.dtype).max // 3)
        elif x.dtype.kind == "b":
            x.fill(True)
        return x
    np.empty = empty


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--dump")
    ap.add_argument("--no-mc", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    try:
        import reagent_compat  # noqa
    except ImportError:
        pass
    dirty_memory()
    try:
        h = importlib.import_module(a.pid.lower())
    except Exception as ex:
        tb = ex.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        repo = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "reagent") + os.sep
        if a.replay or not os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(repo):
            raise
        # the code under test refuses to be loaded at all
        os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
        path = os.path.join(ROOT, "out", a.pid + "-load.json")
        with open(path, "w") as f:
            json.dump({"property": a.pid, "clause": "crash: the code cannot be imported", "trace": traceback.format_exc().splitlines()}, f, indent=1)
        print("  " + traceback.format_exc().splitlines()[-1])
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    thorough = tier == "thorough"
    states = trans = 0
    mc_info = []
    gens = {}
    if a.replay:
        scns = [json.load(open(a.replay))["scenario"]]
    else:
        if not a.no_mc:
            for m in (h.MC_THOROUGH if thorough and hasattr(h, "MC_THOROUGH") else getattr(h, "MC", [])):
                r = tla.model_check(m[0], m[1], timeout=m[2] if len(m) > 2 else 600)
                mc_info.append(r)
                states += r["states"]
                trans += r["transitions"]
        genlist = h.GEN_THOROUGH if thorough and hasattr(h, "GEN_THOROUGH") else getattr(h, "GEN", [])
        for g in genlist:
            beh, r = tla.generate(g["module"], g["cfg"], simulate=g.get("simulate"), depth=g.get("depth"), seed=seed, env=g.get("env"))
            if not beh:
                raise tla.TlcError("no behaviours generated by %s" % g)
            gens[g.get("name", g["cfg"])] = beh
            mc_info.append(r)
            states += r["states"]
            trans += r["transitions"]
        scns = list(h.scenarios(tier, random.Random(seed), gens))
    if a.list:
        for s in scns:
            print(json.dumps(s)[:300])
        return 0
    tmc = time.time()
    traces = run_scenarios(h, scns, seed, int(os.environ.get("VERIF_PROCS", "6")))
    trun = time.time()
    if a.dump:
        json.dump(traces, open(a.dump, "w"))
    # traces of scenarios that crashed before a trace existed are rejected by the specification's
    # "crash" clause; they need no configuration to be judged
    crashed = [(i, tr) for i, tr in enumerate(traces) if tr.get("crashed")]
    live = [(i, tr) for i, tr in enumerate(traces) if not tr.get("crashed") and not tr.get("skipped")]
    bads = []
    for i, tr in crashed:
        bads.append((i, 1, "crash: %s %s" % (tr["ev"][0]["exc"], tr["ev"][0]["msg"][-300:])))
    by_mod = {}
    modof = getattr(h, "module_of", lambda s: h.TRACE)
    for i, tr in live:
        by_mod.setdefault(modof(scns[i]), []).append((i, tr))
    nval = 0
    for mod, lst in by_mod.items():
        # split by volume so one JSON file stays manageable
        batch, size = [], 0
        batches = []
        for i, tr in lst:
            n = len(json.dumps(tr))
            if batch and size + n > 12_000_000:
                batches.append(batch)
                batch, size = [], 0
            batch.append((i, tr))
            size += n
        if batch:
            batches.append(batch)
        for b in batches:
            bb, d, g = tla.validate(mod, [{"cfg": tr["cfg"], "ev": tr["ev"]} for _, tr in b])
            states += d
            trans += g
            nval += len(b)
            for x in bb:
                bads.append((b[x["t"]][0], x["l"], x["c"] if isinstance(x["c"], str) else json.dumps(x["c"])))
    tval = time.time()
    known = load_known(a.pid)
    hit, viol = {}, []
    for i, l, c in sorted(bads):
        k = next((k for k in known if matches(k, c, scns[i])), None)
        if k:
            hit.setdefault(k["what"], []).append((i, l, c))
        else:
            viol.append((i, l, c))
    evkinds = {}
    for tr in traces:
        for e in tr["ev"]:
            evkinds[e["ev"]] = evkinds.get(e["ev"], 0) + 1
    need = getattr(h, "NEED", [])
    if not a.replay and not viol:
        miss = [k for k in need if not evkinds.get(k)]
        if miss:
            print("machinery error: event kinds never exercised: %s" % miss, file=sys.stderr)
            return 2
    for what, lst in hit.items():
        print("KNOWN-FINDING: property=%s %s (%d traces)" % (a.pid, what, len(lst)))
    if not a.replay and not a.no_mc:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        samples = []
        for j in ([0, len(traces) // 2, len(traces) - 1] if traces else []):
            s = json.dumps({"scenario": scns[j], "events": traces[j]["ev"][:4]})
            samples.append(s[:1500])
        ev = {
            "property": a.pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans, "traces_validated_against_impl": nval,
                "samples": samples, "specification_runs": mc_info,
                "trace_modules": sorted(by_mod), "events_by_kind": evkinds,
                "scenarios": len(scns), "generated_by_tlc": {k: len(v) for k, v in gens.items()},
                "known_findings_hit": {k: len(v) for k, v in hit.items()},
            },
            "assumptions": getattr(h, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        with open(os.path.join(ROOT, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d traces validated, %d spec states; gen %.1fs run %.1fs validate %.1fs; events %s" % (
        a.pid, tier, len(scns), nval, states, tmc - t0, trun - tmc, tval - trun, evkinds))
    if viol:
        outd = os.path.join(ROOT, "out")
        os.makedirs(outd, exist_ok=True)
        seen = {}
        for i, l, c in viol:
            cl = c.split(":")[0]
            seen.setdefault(cl, []).append((i, l, c))
        for cl, lst in list(seen.items())[:8]:
            i, l, c = lst[0]
            name = "%s-%s.json" % (a.pid, "".join(ch if ch.isalnum() else "_" for ch in cl)[:60])
            path = os.path.join(outd, name)
            evs = traces[i]["ev"]
            with open(path, "w") as f:
                json.dump({"property": a.pid, "clause": c, "event_index": l, "rejected_event": evs[l - 1] if l <= len(evs) else None,
                           "scenario": scns[i], "trace": traces[i],
                           "rerun": "./check %s --replay %s" % (a.pid, path)}, f, indent=1)
            print("  clause %r: %d trace(s); first at event %d of scenario %d" % (c[:300], len(lst), l, i))
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except tla.TlcError as ex:
        print("machinery error: %s\n%s" % (ex, ex.out[-4000:]), file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
