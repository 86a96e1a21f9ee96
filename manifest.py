#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run after changing either)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
main = open(f"{here}/harness/src/main.rs").read()
have = set(re.findall(r'^ *"([A-Z]\d\d)" =>', main, re.M))
# oracle (for "technique"), trust (for "level_note")
T = {
 "S01": ("generated grids and limits; reference backtracking solver", ""),
 "S02": ("generated grids and limits; reference backtracking solver", ""),
 "S03": ("generated grids, limits and buffers; reference backtracking solver", ""),
 "S04": ("generated near-solved grids; direct definition", ""),
 "S05": ("generated grids on the bounds-check-free build; reference backtracking solver", ""),
 "G01": ("generated random number generators; validity, determinism and variety of the grids", ""),
 "G02": ("generated sources x symmetries x random streams; reference solver", ""),
 "G03": ("generated sources x symmetries x random streams; geometric orbits and reference solver", ""),
 "G04": ("generated ambiguous, unsolvable and contradictory sources; identity", ""),
 "T01": ("generated grids and random streams; search for the transformation", ""),
 "T02": ("many draws from asymmetric grids; the drawn transformation is decoded and its choices covered", ""),
 "T03": ("generated grids, images and puzzles; brute-force least form, metamorphic invariance", ""),
 "T04": ("generated grids with and without automorphisms; brute-force count", ""),
 "F01": ("grammar-made and mutated texts; reference parser", ""),
 "F02": ("grammar-made and mutated texts; reference parser", ""),
 "F03": ("grammar-made and mutated texts; reference parser", ""),
 "F04": ("generated byte strings and single-byte edits; direct definition", ""),
 "F05": ("generated grids; round trips and reference rendering", ""),
 "F06": ("generated grids and malformed payloads; round trips in several formats", ""),
 "R01": ("generated puzzles x strategy lists x eliminations; completions from the reference solver", ""),
 "R02": ("generated puzzles x strategy lists; replay of the deductions on a candidate model", ""),
 "R03": ("generated puzzles x strategy lists; reference pattern detectors on the final position", ""),
 "R04": ("generated operation histories; model of placed digits and candidates", ""),
 "R05": ("metamorphic: pairs of runs on transformed or shuffled starts and reordered lists", "lists closed under shrinking patterns"),
 "C01": ("generated call sequences, repeated in other orders and in concurrent threads; equal answers", ""),
 "B01": ("enumerated and generated sets; reference sets", ""),
 "B02": ("enumerated values; arithmetic definition of the geometry", ""),
}
checks, na = [], []
for i in ids:
    if i in have:
        o, note = T[i]
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + o,
            "level": "exploration",
            "level_note": "No counterexample among the generated cases (number, rule and samples in the evidence file); trusts the reference model in harness/src/refm." + (" " + note if note else ""),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "check.sh rebuilds the harness from /repo's working tree; no hooks in /repo."}
open(f"{here}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
