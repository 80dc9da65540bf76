#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the notes below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
done = re.findall(r"^def (C\d\d)\(w\)", open(V + "/bin/check.py").read(), re.M)
notes = json.load(open(V + "/bin/levels.json"))
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: the drivers are built from /verif through a Go build overlay."}
for p in props:
    i = p["id"]
    if i in done:
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                            "technique": notes.get(i, {}).get("technique", "TLA+ specification model-checked with TLC; behaviours generated from it replayed on the real code; recorded executions validated against it"),
                            "level": "model_checking",
                            "level_note": notes.get(i, {}).get("note", "Exhaustive within the bounds of the small model; the real code is bound by trace validation on generated behaviours. Trusts TLC and the Java number and curve overrides.")})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "check under construction")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
