#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below (run by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = json.load(open(ROOT + "/tools/claims.json"))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "technique": CLAIMS[i]["technique"], "level": "model_checking", "level_note": CLAIMS[i]["note"]})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hooks are needed: checks observe the tools' files, messages and the parsers they generate", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specifications in spec/, checked with TLC; lib/ drives the real tools built from /repo and hands what they did to TLC. See DESIGN.md."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
