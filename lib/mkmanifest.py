"""Regenerates MANIFEST.json from properties.jsonl and checks/*.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
DEF_TECH = "runtime monitoring: reference-model oracle over recorded executions"
DEF_NOTE = ("Random but seeded workloads; holds on everything observed. Trusts the reference model in lib/, the Python runtime, "
            "the kernel and the file system of the sandbox.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        m = importlib.import_module(i)
        checks.append({"property": i, "quick_cmd": "python3 lib/run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 lib/run.py %s --tier thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", DEF_TECH), "level": m.LEVEL,
                       "level_note": getattr(m, "NOTE", DEF_NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks were needed in /repo: observation is by sanitizer builds, LD_PRELOAD interposition and recorder programs."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
