"""Development driver: extract, verify, print failures by function."""
import sys, os, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, verus
repo = os.environ.get("REPO", "/repo")
out = sys.argv[1] if len(sys.argv) > 1 else "/tmp/v/out.rs"
here = os.path.dirname(os.path.abspath(__file__))
ex = extract.Extractor(repo, os.path.join(here, "..", "contracts"))
pre = sorted(os.path.join(here, "..", "prelude", f) for f in os.listdir(os.path.join(here, "..", "prelude")) if f.endswith(".rs"))
open(out, "w").write(ex.run(pre))
r = verus.run_verus(out, extra=sys.argv[2:])
lines = open(out).read().split("\n")
for k, v in ex.found.items():
    if v and v["notes"]:
        print("NOTE", k, v["notes"])
for k, c in ex.fns.items():
    if not c.used:
        print("UNUSED", k)
by = collections.OrderedDict()
for d in r["diags"]:
    if d["level"] != "error":
        continue
    fn = None
    for s, m in verus.span_metas(d, ex.meta):
        if m and m.get("fn") and m["kind"] in ("body", "proof", "ens", "thm") and (fn is None):
            fn = m["fn"]
    by.setdefault(fn, []).append(d)
for fn, ds in by.items():
    print("==", fn)
    for d in ds:
        print("   *", d["message"][:300])
        for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
            print("       ", s["line_start"], ("P " if s["is_primary"] else "  ") + (s["label"] or ""), "|", lines[s["line_start"] - 1].strip()[:230])
        if not d["spans"]: print(d["rendered"][:600])
for o in r["other"][:20]:
    print("?", o[:400])
s = r["summary"] or {}
print(s.get("verification-results"), "wall %.1f" % r["wall"])
