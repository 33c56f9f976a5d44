#!/usr/bin/env python3
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
 "hooks": {"guard": "none", "enable": "Nothing in /repo is instrumented: the checks compile its headers and src/*.cpp to assembly, insert a scheduling hook before every memory access and rename the external symbols (see DESIGN.md).", "source_commits": []},
 "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 ./check %s --tier quick" % i, "thorough_cmd": "python3 ./check %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over instruction-level schedules and faults of the compiled code in one OS thread, minimised replayable traces",
            "level": "exploration", "level_note": PROPS[i].note})
    else: m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "Planned for the same simulator; its scenario is not built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
