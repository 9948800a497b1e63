"""Development: write MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(ROOT, "vk", "not_applicable.json")))
NOTES = json.load(open(os.path.join(ROOT, "vk", "level_notes.json")))
GEN = ("Every obligation of the contracts tagged with this property is discharged by Verus/Z3 on functions extracted mechanically from /repo/src on this run, for all inputs. "
       "Assumed: the contracts of std and of the dependency crates (prelude/), memory below 2^56 bytes, 64-bit usize, the extraction's desugarings. ")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "technique": "contract-based deductive verification (Verus) of functions extracted from the source; witness replay on the real crate",
                   "level": "proof", "level_note": GEN + NOTES.get(p["id"], "")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
