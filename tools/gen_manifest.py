#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that the harness knows."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
have = {l.split()[0] for l in subprocess.run([os.path.join(here, "harness/target/release/ariadne-check"), "list"],
        capture_output=True, text=True).stdout.splitlines()}
notes = json.load(open(os.path.join(here, "tools/levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": notes[i][0], "level": "exploration", "level_note": notes[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness uses the public API and interposes libc symbols inside its own executable. "
                    "Replay a failure with: python3 check.py <ID> --replay <file>."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
