#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import P, ROOT
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None}}) + "\n")
reg, checks, na = {}, [], []
for p in P:
    if not p["build"]:
        na.append({"property": p["id"], "reason": "check not built yet (work in progress)"})
        continue
    reg[p["id"]] = {"crate": p["build"][0], "bin": p["build"][1], **p["extra"]}
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": "property-based testing: " + p["technique"], "level": "exploration",
        "level_note": (p["note"] + " " if p["note"] else "") +
        "Generated-input search: shows no violation on the cases explored; trusts the harness's reference model and the compiler."})
json.dump(reg, open(os.path.join(ROOT, "harness", "registry.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "binius_cheating_prover (rustc --cfg)",
               "enable": "check.py builds with RUSTFLAGS including --cfg binius_cheating_prover",
               "source_commits": ["251219563d8979d93bcb0b43d80aa3731cc17c23"]},
     "notes": "Replay a failure with `python3 check.py <id> --replay <file>`. VERIF_SEED selects the generated cases."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
