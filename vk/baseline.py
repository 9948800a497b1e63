"""Development: record the literals and the functions without a contract of the source the contracts were written for."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, extract
i, s = check.literals(check.REPO)
json.dump({"ints": sorted(i), "strs": sorted(s)}, open(os.path.join(check.ROOT, "harness", "baseline_literals.json"), "w"), indent=0)
import align
ex = extract.Extractor(check.REPO, check.CONTRACTS)
its = ex.load(os.path.join(check.REPO, "src", "lib.rs"), [])
ex.scan(its)
json.dump(align.describe(ex, its), open(os.path.join(check.CONTRACTS, "baseline.json"), "w"), indent=0, sort_keys=True)
ex = extract.Extractor(check.REPO, check.CONTRACTS)
ex.run(check.PRELUDE)
json.dump(sorted(k for k, v in ex.found.items() if not v["contract"]), open(os.path.join(check.CONTRACTS, "uncontracted.json"), "w"), indent=0)
