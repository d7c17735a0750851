#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered in check.py and the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="ecd_hooks", enable="RUSTFLAGS='--cfg ecd_hooks' (only for replaying design transitions that depend on the library's random choices; everything else builds /repo's crate as it is)", source_commits=["a87eac4be09098294f9075018d6a277c8a28fd4c"]),
    checks=[dict(property=p, quick_cmd="python3 tools/check.py %s" % p, thorough_cmd="python3 tools/check.py %s thorough" % p,
                 technique=NOTES[p]["technique"], level=check.CHECKS[p][1], level_note=NOTES[p]["note"]) for p in ids if p in check.CHECKS],
    not_applicable=[dict(property=p, reason=NOTES.get(p, {}).get("na", "check under construction")) for p in ids if p not in check.CHECKS],
    notes="TLA+ specifications in spec/, recorder in harness/, runner in tools/. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
