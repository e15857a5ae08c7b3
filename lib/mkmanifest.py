"""Regenerate MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "P32": "the subject is Scala code that builds Spark SQL; no scalac, Spark or JVM dependency jars are installed, so no trace of the real code can be recorded or replayed and a specification would be bound to nothing",
 "P33": "the serving C++ needs folly, fbthrift, boost coroutines-era dependencies and libtorch headers that are not installed; it cannot be built here, so a specification would be bound to nothing",
}
TECH = "TLA+ specification model-checked with TLC; traces of the real code validated against it by TLC"
NOTES = json.load(open(os.path.join(ROOT, "lib", "notes.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "harness", pid.lower() + ".py")) and pid in NOTES:
        checks.append({"property": pid, "quick_cmd": "./check %s quick" % pid, "thorough_cmd": "./check %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECH, "level": "model_checking",
                       "level_note": NOTES[pid]})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash lib/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC; no hooks in /repo are needed: every observation is made through the public API."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
