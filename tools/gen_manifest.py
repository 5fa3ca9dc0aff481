#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has a check in bin/check.py is claimed, the others are listed with a reason."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
sys.path.insert(0, os.path.join(HERE, "lib"))
import check

claimed = sorted(p for ps in check.TABLE.values() for p in ps)
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]

TECH = {
    "checks_dist": "TLA+ specification of distributed arrays (DistArray, ChunkStore) model-checked with TLC; TLC-enumerated and random histories replayed into the real code and the recorded traces checked against the specification",
}
DEFAULT_TECH = "TLA+ specification checked with TLC; histories replayed into the real code and the recorded traces validated against the specification by TLC"
NOTE = {
    "checks_dist": "The specification is explored exhaustively for small constants only; the binding to the code is by trace validation of enumerated and seeded random histories, so the guarantee for the code is per executed history. Trusted: TLC, the driver that records the traces, g++.",
}
DEFAULT_NOTE = NOTE["checks_dist"]
NA = {}
try:
    import manifest_text
    TECH.update(manifest_text.TECH)
    NOTE.update(manifest_text.NOTE)
    NA.update(manifest_text.NA)
except ImportError:
    pass

mod = {p: m for m, ps in check.TABLE.items() for p in ps}
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 bin/check.py %s quick" % p,
        "thorough_cmd": "python3 bin/check.py %s thorough" % p,
        "technique": TECH.get(p, TECH.get(mod[p], DEFAULT_TECH)),
        "level": "model_checking",
        "level_note": NOTE.get(p, NOTE.get(mod[p], DEFAULT_NOTE)),
    } for p in claimed],
    "not_applicable": [{"property": p, "reason": NA.get(p, "the check for this property is not built yet")} for p in props if p not in claimed],
    "notes": "No hooks: the drivers include the library's headers. Every check builds its drivers from /repo's working tree.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed;", len(m["not_applicable"]), "not")
