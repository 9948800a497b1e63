"""check.py PROP quick|thorough: decide one property of /repo's current source.

The contracts of /verif/contracts are attached to the functions extracted from /repo/src on this run and Verus
discharges every obligation.  A failing obligation of the property is the violation; a witness for it is searched for,
and replayed, on the real crate (/verif/harness).  Where a changed function is outside the reach of the extraction or
of the verifier, its obligations are undecided on this run and the bounded search on the real crate stands in.
"""
import collections, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract, rs, verus

REPO = os.environ.get("KMS_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CONTRACTS = os.path.join(ROOT, "contracts")
PRELUDE = sorted(os.path.join(ROOT, "prelude", f) for f in os.listdir(os.path.join(ROOT, "prelude")) if f.endswith(".rs"))
CANARIES = ("vx_canary_base", "vx_canary_spec")

def say(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- the verifier

class Verified:
    def __init__(self):
        self.ex = None
        self.whole = None          # reason why nothing could be verified
        self.failed = []           # failing obligations
        self.undecided = {}        # fn key -> reason
        self.units = []            # verification units with solver time
        self.wall = 0.0
        self.rounds = 0
        self.canary = []
        self.cmd = ""
        self.scan = {}

def diag_key(f):
    return (f["fn"], f["kind"], f["clause"], f["where"])

def failures(r, ex, lines):
    """(verification failures, other errors) of one Verus run."""
    bad, other, canaries = [], [], set()
    for d in r["diags"]:
        if d["level"] != "error" or d["message"].startswith("aborting due to"):
            continue
        metas = verus.span_metas(d, ex.meta)
        fn = kind = clause = where = csrc = None
        tags = set()
        for s, m in metas:
            if not m:
                continue
            k = m["kind"]
            if k in ("body", "proof", "thm") and fn is None:
                fn = m["fn"]
                if k == "thm":
                    tags |= set(m.get("tags") or [])
            if k in ("body", "proof") and where is None and m.get("src"):
                where = "%s:%d" % (os.path.relpath(m["src"][0], REPO), m["src"][1])
            if k in ("ens", "req") and clause is None and s["is_primary"]:
                clause, csrc = m, m.get("csrc")
        can = [(s, m) for s, m in metas if m and m["kind"] == "canary"]
        if can:
            for s, m in can:
                for c in CANARIES:
                    if any("fn " + c in lines[j] for j in range(max(0, s["line_start"] - 4), min(len(lines), s["line_start"] + 1))):
                        canaries.add(c)
            if verus.is_verif_failure(d["message"]):
                continue
        msg = d["message"]
        rlimit = "rlimit" in msg or "resource limit" in msg.lower()
        ent = {"fn": fn, "message": msg, "rendered": d.get("rendered", ""), "where": where, "rlimit": rlimit}
        if fn is None and clause is not None:
            ent["fn"] = clause["fn"]
        if verus.is_verif_failure(msg) or rlimit:
            c = ex.fns.get(ent["fn"])
            if tags:
                ent["kind"] = "theorem"
            elif clause is not None and clause["kind"] == "ens" and clause["fn"] == ent["fn"]:
                ent["kind"] = "ensures"
                tags |= set(clause.get("tags") or [])
            elif "postcondition" in msg:
                ent["kind"] = "ensures"      # a trait's contract
                if c is not None:
                    tags |= c.props or c.tags()
            elif "invariant" in msg or "decreases" in msg or "assertion failed" in msg and not where:
                ent["kind"] = "invariant"
                if c is not None:
                    tags |= c.tags()
            else:
                ent["kind"] = "internal"
                tags |= {"C14"} | (c.tags() if c is not None else set())
            ent["clause"] = ("%s:%d" % csrc) if csrc else None
            ps = [s for s, m in metas if s["is_primary"]]
            ent["text"] = lines[ps[0]["line_start"] - 1].strip() if ps else ""
            ent["tags"] = sorted(tags)
            bad.append(ent)
        else:
            ent["metas"] = [m for s, m in metas if m]
            other.append(ent)
    return bad, other, canaries

def run_once(work, degrade, hollow, extra=()):
    ex = extract.Extractor(REPO, CONTRACTS, degrade, hollow)
    text = ex.run(PRELUDE)
    path = os.path.join(work, "out.rs")
    open(path, "w").write(text)
    r = verus.run_verus(path, timeout=300, extra=extra)
    return ex, text.split("\n"), r

def verify(work, res):
    t0 = time.time()
    try:
        verify_(work, res)
    except Exception as e:      # a source the extraction cannot take at all
        res.whole = "extraction: %s" % (traceback.format_exc()[-1500:])
    res.wall = time.time() - t0

def verify_(work, res):
    degrade, hollow = {}, {}
    for rnd in range(10):
        res.rounds = rnd + 1
        ex, lines, r = run_once(work, degrade, hollow)
        res.ex = ex
        if r["rc"] == "timeout":
            res.whole = "verifier timed out"
            return
        bad, other, canaries = failures(r, ex, lines)
        panicked = any("panicked" in o for o in r["other"]) or any("internal error" in o["message"] for o in other)
        if not other and not panicked and r["summary"] is not None:
            break
        new = 0
        for o in other:
            for m in o["metas"]:
                k = m.get("fn")
                if k is None or k not in ex.found and k not in ex.thms:
                    continue
                if m["kind"] == "thm" and k not in hollow:
                    hollow[k] = "the theorem no longer fits the source: " + o["message"][:200]
                    new += 1
                    break
                if m["kind"] in ("body", "proof") and k not in degrade:
                    degrade[k] = "outside the verifier's subset: " + o["message"][:200]
                    new += 1
                    break
                if m["kind"] in ("ens", "req") and k not in hollow:
                    hollow[k] = "contract no longer fits the function: " + o["message"][:200]
                    new += 1
                    break
                if m["kind"] in ("body", "proof") and k not in hollow:
                    hollow[k] = "contract no longer fits the function: " + o["message"][:200]
                    new += 1
                    break
        if not new:
            # an error nobody can be named for: set aside the functions whose text changed
            for k, d in ex.current["fns"].items():
                if k in ex.found and k not in degrade and ex.base["fns"].get(k, {}).get("hash") != d["hash"]:
                    degrade[k] = "the verifier fails on the changed source: " + "; ".join([o["message"][:120] for o in other[:1]] + r["other"][:1])[:300]
                    new += 1
        if not new:
            res.whole = "verifier rejects the extraction: " + "; ".join(o["message"][:300] for o in other[:3]) + " ".join(r["other"][:5])[:600]
            res.cmd = ""
            return
    else:
        res.whole = "no stable extraction after %d rounds" % res.rounds
        return
    # a proof that fails under one solver seed and passes under another is accepted
    if bad:
        for seed in (11, 23):
            ex2, lines2, r2 = run_once(work, degrade, hollow, ["--rlimit", "40", "--smt-option", "smt.random_seed=%d" % seed])
            if r2["rc"] == "timeout" or r2["summary"] is None:
                continue
            b2, o2, c2 = failures(r2, ex2, lines2)
            fns2 = {b["fn"] for b in b2}
            keep = [b for b in bad if b["fn"] in fns2]
            if len(keep) < len(bad) and not o2:
                bad = keep
            if not bad:
                break
    res.failed = bad
    for k, v in list(degrade.items()) + list(hollow.items()):
        res.undecided[k] = v
    known = set(json.load(open(os.path.join(CONTRACTS, "uncontracted.json")))) if os.path.exists(os.path.join(CONTRACTS, "uncontracted.json")) else set()
    newfns = {k for k, v in ex.found.items() if not v["contract"] and k not in known}
    for k, v in ex.found.items():
        if v["notes"]:
            res.undecided.setdefault(k, "; ".join(v["notes"])[:400])
    for b in res.failed:
        k = b["fn"]
        if k in newfns:
            res.undecided.setdefault(k, "a function without a contract")
        elif ex.found.get(k, {}).get("soft"):
            res.undecided.setdefault(k, "; ".join(ex.found[k]["soft"])[:400])
    for k, c in ex.fns.items():
        if not c.used and k not in hollow:
            res.undecided.setdefault(k, "the function is not in the source (renamed, moved or removed)")
    gone = {k for k in res.undecided if k not in ex.found and k not in ex.thms}
    unfit = gone | set(hollow)
    for k, th in ex.thms.items():
        words = set(re.findall(r"\w+", th["text"]))
        for j in unfit:
            last = j.split("::")[-1].split(" ")[-1]
            if j != k and (last in words or "vx_" + last in words):
                res.undecided.setdefault(k, "uses %s, whose contract no longer fits" % j)
    # a failing function that calls functions without a contract (new helpers), or whose callee's contract was lost
    for b in res.failed:
        calls = ex.calls.get(b["fn"], set())
        new = sorted(k for k in newfns if re.split(r"::", k)[-1] in calls)
        lost = sorted(k for k in hollow if re.split(r"::", k)[-1] in calls)
        if b["rlimit"]:
            res.undecided.setdefault(b["fn"], "solver resource limit")
        elif new:
            res.undecided.setdefault(b["fn"], "calls functions without a contract: " + ", ".join(new))
        elif lost:
            res.undecided.setdefault(b["fn"], "calls functions whose contract no longer fits: " + ", ".join(lost))
    res.canary = sorted(canaries)
    for m in (r["summary"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times") or []):
        for f in m.get("function-breakdown", []):
            res.units.append((f["function"], f["time-micros"], f["success"]))
    res.cmd = "verus out.rs --crate-type=lib (extracted from %s/src by vk/extract.py on this run)" % REPO
    txt = "\n".join(lines)
    res.scan = {w: len(re.findall(p, txt)) for w, p in (("assume", r"\bassume\s*\("), ("admit", r"\badmit\s*\("), ("external_body", r"verifier::external_body"), ("axioms", r"\baxiom fn\b|broadcast axiom"), ("external_type", r"external_type_specification"))}

# ---------------------------------------------------------------- the real crate

def unescape(t):
    def one(m):
        x = m.group(1)
        if x[0] == "u":
            try:
                c = chr(int(x[2:-1].replace("_", ""), 16))
                return c if not 0xd800 <= ord(c) <= 0xdfff else ""
            except (ValueError, OverflowError):
                return ""
        if x[0] == "x":
            return chr(int(x[1:], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x[0], x[0] if x[0] in "\\'\"" else "")
    return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)", one, t, flags=re.S)

def literals(repo):
    ints, strs = set(), set()
    for dp, dn, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            try:
                toks, _ = rs.lex(open(os.path.join(dp, f), errors="replace").read(), f)
            except Exception:
                continue
            for t in toks:
                s = t.s
                if t.k == "num":
                    m = re.match(r"^(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)", s)
                    if m:
                        try:
                            v = int(m.group(1).replace("_", ""), 0) if m.group(1)[:2] in ("0x", "0b", "0o") else int(m.group(1).replace("_", ""))
                            if v < 2 ** 64:
                                ints.add(v)
                        except ValueError:
                            pass
                elif t.k in ("str", "char"):
                    m = re.match(r"^b?r?#*\"(.*)\"#*$", s, re.S) or re.match(r"^b?'(.*)'$", s, re.S)
                    if m and len(m.group(1)) <= 200:
                        strs.add(unescape(m.group(1)) if not s.startswith(("r", "br")) else m.group(1))
    return ints, strs

def write_dict(path):
    ints, strs = literals(REPO)
    base = {"ints": [], "strs": []}
    bp = os.path.join(ROOT, "harness", "baseline_literals.json")
    if os.path.exists(bp):
        base = json.load(open(bp))
    ni, ns = ints - set(base["ints"]), strs - set(base["strs"])
    line = lambda v: v.replace("\n", "\\n").replace("\r", "\\r")
    with open(path, "w", encoding="utf-8") as f:
        for v in sorted(ints):
            f.write("i %d\n" % v)
        for v in sorted(ni):       # numbers and texts that are new in the source are tried more often
            f.write(("i %d\n" % v) * 12)
        for v in sorted(strs):
            f.write("s %s\n" % line(v))
        for v in sorted(ns):
            f.write(("s %s\n" % line(v)) * 6)
            if v:
                f.write("S %s\n" % line(v))

def harness_build(work, res):
    t0 = time.time()
    try:
        src = os.path.join(ROOT, "harness")
        if REPO != "/repo":
            dst = os.path.join(work, "harness")
            shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
            p = os.path.join(dst, "Cargo.toml")
            t = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(p, "w").write(t)
            src = dst
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "ht"), CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=src, env=env, capture_output=True, text=True, timeout=500)
        if p.returncode == 0:
            b = os.path.join(work, "kms-harness")
            shutil.copy(os.path.join(BUILD, "ht", "debug", "kms-harness"), b)
            res["bin"] = b
            f = subprocess.run([b, "facts"], capture_output=True, text=True, timeout=120, cwd=work, env=dict(os.environ, KMS_VERIF=ROOT))
            res["facts"] = [l[5:] for l in f.stdout.split("\n") if l.startswith("FACT ")]
            if f.returncode != 0 or len(res["facts"]) != 9:
                res["facts_error"] = (f.stdout + f.stderr)[-500:]
        else:
            res["error"] = p.stderr[-1500:]
    except Exception as e:
        res["error"] = repr(e)
    res["wall"] = time.time() - t0

THREADED = 900_000      # seeds from here on run the checks from several threads at once

STATEFUL = 500_000      # seeds from here on spend most of their time repeating the same case

def threads_env(s):
    return dict(os.environ, KMS_THREADS="4") if s >= THREADED else dict(os.environ, KMS_STATE="1") if s >= STATEFUL else None

def keeps_state():
    """Does the code name something that can keep state between calls?  (The pinned code has only lazily built constants.)"""
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                try:
                    toks, _ = rs.lex(open(os.path.join(d, f), errors="replace").read(), f)
                except Exception:
                    continue
                for a, b in zip(toks, toks[1:] + toks[-1:]):
                    if a.k == "id" and (a.s in ("thread_local", "Cell", "RefCell", "UnsafeCell", "Mutex", "RwLock", "OnceCell", "OnceLock", "LazyLock", "LazyCell")
                                        or a.s.startswith("Atomic") or a.s == "static" and b.s == "mut"):
                        return True
    return False

def run_search(binp, work, prop, seeds, secs, dic):
    ps = []
    for s in seeds:
        out = os.path.join(work, "w%d" % s)
        ps.append((s, out, subprocess.Popen([binp, "search", prop, str(s), str(secs), dic, out], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=work, env=threads_env(s))))
    wit, counts, samples, distinct, quiet, died = None, collections.Counter(), [], 0, 0, []
    deadline = time.time() + secs + 90
    for s, out, p in ps:
        try:
            o, _ = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        for l in (o or "").split("\n"):
            if l.startswith("QUIET "):
                quiet += 1
                for kv in l[6:].split():
                    k, v = kv.split("=")
                    counts[k] += int(v)
            elif l.startswith("SAMPLE ") and len(samples) < 12:
                samples.append(l[7:])
            elif l.startswith("DISTINCT "):
                distinct += int(l[9:])
        if p.returncode == 1 and os.path.exists(out) and wit is None:
            wit = (s, out, next((l for l in (o or "").split("\n") if l.startswith("WITNESS ")), "WITNESS ?"))
        elif p.returncode not in (0, 1) and wit is None:
            # the process died: an abort of the real code (stack overflow, double panic, out of memory) or a time-out
            died.append((s, p.returncode))
    if wit is None and died:
        # run it again, writing each case down before it runs
        s, code = died[0]
        tr = os.path.join(work, "trace")
        out = os.path.join(work, "wd")
        env = dict(threads_env(s) or os.environ, KMS_TRACE=tr)
        try:
            p = subprocess.run([binp, "search", prop, str(s), str(secs), dic, out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=work, env=env, timeout=secs + 90)
            code, err = p.returncode, p.stderr[-400:]
        except subprocess.TimeoutExpired:
            code, err = "time-out", ""
        if code not in (0, 1) and os.path.exists(tr):
            open(tr, "a").write("failure the process ended with %s (it was aborted, or the operation does not end) %s\n" % (code, err.replace("\n", " ")))
            wit = (s, tr, "WITNESS the process ended with %s in %s" % (code, open(tr).readline().strip()))
    return wit, counts, samples, distinct, quiet

def confirm(binp, work, prop, wit, dic, secs):
    """Replay the witness; a failure that needs earlier calls is reproduced by repeating its run."""
    s, out, line = wit
    if "the process ended with" in line:
        return "the same case ended the process on both runs"
    for _ in range(2 if s < THREADED else 0):
        p = subprocess.run([binp, "replay", out, dic], capture_output=True, text=True, cwd=work, timeout=300)
        if p.returncode == 1:
            return "replayed on its own: " + p.stdout.strip()
    out2 = out + ".again"
    for _ in range(1 if s < THREADED else 3):
        try:
            p = subprocess.run([binp, "search", prop, str(s), str(secs + 30), dic, out2], capture_output=True, text=True, cwd=work, timeout=secs + 300, env=threads_env(s))
        except subprocess.TimeoutExpired:
            return None
        if p.returncode == 1:
            break
    if p.returncode == 1:
        return "needs the calls before it; reproduced by repeating the run with seed %d: %s" % (s, p.stdout.strip()[-800:])
    return None

# ---------------------------------------------------------------- obligations of a property

def obligations(prop, v):
    """[(name, status)] for the property's own obligations; status is discharged, failed or undecided."""
    ex, out = v.ex, []
    bad = collections.defaultdict(list)
    for b in v.failed:
        bad[b["fn"]].append(b)
    def status(fn, pred):
        if fn in v.undecided:
            return "undecided"
        return "failed" if any(pred(b) for b in bad.get(fn, [])) else "discharged"
    for k, c in sorted(ex.fns.items()):
        mine = prop in c.tags()
        if c.trusted:
            continue
        for cl in c.clauses:
            if cl.kind == "ensures" and prop in cl.tags:
                n = "%s:%d" % cl.src
                out.append(("%s ensures %s" % (k, n), status(k, lambda b: b["kind"] == "ensures" and b["clause"] in (None, n))))
        if prop in c.props:
            out.append(("%s meets the contract of its trait or type" % k, status(k, lambda b: b["kind"] == "ensures" and b["clause"] is None)))
        if mine:
            for n in sorted(c.loops):
                out.append(("%s loop %d invariants" % (k, n), status(k, lambda b: b["kind"] == "invariant")))
        if mine or prop == "C14":
            out.append(("%s body: callee preconditions, arithmetic, indexing, termination" % k, status(k, lambda b: b["kind"] == "internal")))
    if prop == "C14":
        for k, f in sorted(ex.found.items()):
            if not f["contract"]:
                out.append(("%s body: callee preconditions, arithmetic, indexing, termination" % k, status(k, lambda b: True)))
    for k, th in ex.thms.items():
        if prop in th["tags"] and th["obligation"]:
            out.append((k, status(k, lambda b: True)))
    return out

def closure(prop, ex):
    names = collections.defaultdict(list)
    for k in ex.found:
        names[k.split("::")[-1]].append(k)
    todo = [k for k, c in ex.fns.items() if c.used and prop in c.tags()]
    if prop == "C14":
        return sorted(ex.found)
    seen = set(todo)
    while todo:
        k = todo.pop()
        for n in ex.calls.get(k, ()):
            for j in names.get(n, []):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
    return sorted(seen)

def trusted_list(ex):
    p = os.path.join(ROOT, "trusted.json")
    t = json.load(open(p)) if os.path.exists(p) else []
    for k, c in sorted(ex.fns.items()) if ex else []:
        if c.used and c.trusted:
            t.append("assumed contract of %s: %s" % (k, c.trusted))
    return t

# ---------------------------------------------------------------- main

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    for d in (BUILD, os.path.join(ROOT, "evidence"), os.path.join(BUILD, "replay")):
        os.makedirs(d, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    rc = 0
    try:
        rc = decide(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, seed, work, t0):
    v, h = Verified(), {}
    th = threading.Thread(target=verify, args=(work, v))
    tb = threading.Thread(target=harness_build, args=(work, h))
    th.start(); tb.start(); th.join(); tb.join()
    obs = obligations(prop, v) if v.ex is not None and v.whole is None else []
    if v.whole is not None and v.ex is not None and v.ex.fns:
        try:
            obs = [(n, "undecided") for n, s in obligations(prop, v)]
        except Exception:
            obs = []
    failed = [b for b in v.failed if prop in b["tags"]] if v.whole is None else []
    alarms = [b for b in failed if b["fn"] not in v.undecided]
    open_obs = [n for n, s in obs if s == "undecided"]
    # bounded search on the real crate: witnesses for failing obligations, stand-in for undecided ones, and a
    # cross-check of what the proof trusts
    dic = os.path.join(work, "dict")
    write_dict(dic)
    quick = tier != "thorough"
    secs = (90 if open_obs else 45 if alarms else 22) if quick else 420
    nproc = 6 if quick else 8
    seeds = [seed * 1000 + i for i in range(nproc)]
    if open_obs or v.whole is not None:
        if keeps_state():
            seeds = seeds[:4] + [STATEFUL + seed * 1000 + i for i in range(3)]
        seeds += [THREADED + seed * 1000 + i for i in range(2)]     # code outside the subset may share state between threads
    wit, counts, samples, distinct, quiet, how = None, collections.Counter(), [], 0, 0, None
    dropped = None
    if "bin" in h:
        wit, counts, samples, distinct, quiet = run_search(h["bin"], work, prop, seeds, secs, dic)
        if wit is not None:
            how = confirm(h["bin"], work, prop, wit, dic, secs)
            if how is None:
                dropped = "not reproducible, dropped: " + wit[2]
                wit = None
    nd = sum(1 for n, s in obs if s == "discharged")
    nf = sum(1 for n, s in obs if s == "failed")
    lines = []
    violations = 0
    rp = os.path.join(BUILD, "replay", prop + ".txt")
    if os.path.exists(rp):
        os.remove(rp)
    def obligation_text():
        o = []
        for b in alarms:
            o.append("failed obligation: %s of %s%s%s" % (b["kind"], b["fn"], " (contract %s)" % b["clause"] if b["clause"] else "", " at " + b["where"] if b["where"] else ""))
            o.append("  clause: " + (b.get("text") or ""))
            o.append(b["rendered"])
        return "\n".join(o)
    if wit is not None:
        violations = 1
        shutil.copy(dic, rp + ".dict")
        with open(rp, "w") as f:
            f.write(open(wit[1]).read())
            f.write("reproduced %s\n" % how.replace("\n", "\n  "))
            f.write("replay with: kms-harness replay %s %s.dict (harness built from /verif/harness)\n" % (rp, rp))
            f.write("\n" + obligation_text())
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    elif alarms:
        violations = 1
        with open(rp, "w") as f:
            f.write("property %s\nno failing input was found within %d cases on the real crate\n\n%s" % (prop, sum(counts.values()), obligation_text()))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    mine = closure(prop, v.ex) if v.ex is not None else []
    contracted = [k for k in mine if v.ex.found.get(k, {}).get("contract")] if v.ex is not None else []
    und = {k: r for k, r in v.undecided.items() if k in mine or prop == "C14" or (v.ex and k in v.ex.fns and prop in v.ex.fns[k].tags())}
    vac = [c for c in CANARIES if c not in v.canary] if v.whole is None else []
    dirty = sorted({b["fn"] or "?" for b in v.failed if b["fn"] in mine or b["fn"] is None or prop in b["tags"]})
    proved = bool(obs) and nd == len(obs) and v.whole is None and not und and not vac and not dirty and bool(h.get("facts")) and not h.get("facts_error")
    level = "proof" if proved else ("exploration" if not violations or wit else "proof")
    own = [u for u in v.units if not u[0].startswith(("vstd::", "out::vx::", "out::ext::"))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": len(obs), "discharged": nd, "failed": nf, "undecided": open_obs[:60],
            "obligation_names": [n for n, s in obs][:200],
            "back_end": "Verus 0.2026.09.13 (Z3 as shipped with it)",
            "checker_cmd": v.cmd or "verus (not reached)",
            "verifier_units_whole_extraction": len(own), "verifier_units_accepted": sum(1 for u in own if u[2]),
            "solver_ms_whole_extraction": round(sum(u[1] for u in v.units) / 1000.0, 1),
            "verifier_wall_s": round(v.wall, 1), "verifier_rounds": v.rounds,
            "functions_under_contract": contracted, "functions_in_call_closure_without_contract": [k for k in mine if k not in contracted],
            "undecided_functions": und, "verifier_unusable": v.whole,
            "trusted_base": trusted_list(v.ex), "ground_facts_evaluated": h.get("facts"), "failing_obligations_in_call_closure": dirty,
            "scan_of_extraction": v.scan, "vacuity_canaries_refused_as_they_must_be": v.canary,
            "bounded_cross_check": {"label": "bounded, never counted as proved", "cases_per_check": dict(counts), "seconds": secs, "processes": nproc, "build_s": round(h.get("wall", 0), 1), "error": h.get("error"), "dropped": dropped},
            "evaluations": sum(counts.values()), "distinct_nontrivial": distinct,
            "rule": "each case draws its inputs from a recorded choice source (boundaries, literals of the current source, random) and compares the real crate with an independent oracle; non-trivial: drew at least one choice; distinct: by check and choice list",
            "samples": samples or ["none"],
        },
        "assumptions": trusted_list(v.ex),
        "wall_s": round(time.time() - t0, 1), "violations": violations,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    say("%s: %d obligations, %d discharged, %d failed, %d undecided; Verus accepted %d/%d units in %.1fs; bounded cross-check %d cases%s" % (
        prop, len(obs), nd, nf, len(open_obs), sum(1 for u in own if u[2]), len(own), v.wall, sum(counts.values()), "" if "bin" in h else " (harness did not build)"))
    if v.whole:
        say("NOTICE verifier not usable on this source, bounded check stands in: " + v.whole[:500].replace("\n", " "))
    for k, r in sorted(und.items())[:20]:
        say("NOTICE undecided %s: %s" % (k, r[:200].replace("\n", " ")))
    if h.get("facts_error"):
        say("NOTICE a ground fact does not evaluate: " + h["facts_error"])
    if vac:
        say("NOTICE vacuity guard: %s not refuted" % vac)
    if dropped:
        say("NOTICE " + dropped[:400])
    rest = sorted({b["fn"] or "?" for b in v.failed if b not in alarms})
    if rest:
        say("NOTICE failing obligations not counted for %s (other properties' or undecided): %s" % (prop, ", ".join(rest)[:600]))
    if wit is not None:
        say(wit[2][:600])
    for b in alarms[:6]:
        say("FAILED obligation: %s of %s: %s | %s" % (b["kind"], b["fn"], b["message"], (b.get("text") or "")[:160]))
    for l in lines:
        say(l)
    return 1 if lines else 0

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        # nothing was decided: not an alarm
        sys.exit(0)
