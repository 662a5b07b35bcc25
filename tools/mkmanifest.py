#!/usr/bin/env python3
import json, sys
sys.path.insert(0, "/verif/vf")
from registry import SPECS, NOTES
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="true",
  checks=[dict(property=p, quick_cmd="./check %s" % p, thorough_cmd="VERIF_TIER=thorough ./check %s" % p, technique=NOTES.get(p, {}).get("technique", "contract-based deductive verification: symbolic execution of the real C functions against separation-logic contracts and loop invariants, obligations discharged by z3"),
     level=NOTES.get(p, {}).get("level", "proof"), level_note=NOTES[p]["note"]) for p in props if p in SPECS],
  not_applicable=[dict(property=p, reason=NOTES.get(p, {}).get("na", "contracts under construction; not claimed yet")) for p in props if p not in SPECS],
  notes="no hooks in /repo; three fix commits, see known-findings.txt")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
