"""Run Verus on an extraction and attribute its diagnostics to functions, clauses and properties."""
import json, os, re, subprocess, time

VERUS = "verus"

def run_verus(path, timeout=600, extra=()):
    t0 = time.time()
    cmd = [VERUS, os.path.basename(path), "--crate-type=lib", "--triggers-mode", "silent", "--multiple-errors", "6",
           "--error-format=json", "--output-json", "--time-expanded", *extra]
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path) or ".", capture_output=True, text=True, timeout=timeout)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        err = (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")
        rc = "timeout"
    diags, other = [], []
    for line in err.split("\n"):
        if line.startswith("{"):
            try:
                d = json.loads(line)
                if d.get("$message_type") == "diagnostic":
                    diags.append(d)
                    continue
            except ValueError:
                pass
        if line.strip():
            other.append(line)
    summary = None
    i = out.find("{")
    if i >= 0:
        try:
            summary = json.loads(out[i:])
        except ValueError:
            summary = None
    return {"rc": rc, "diags": diags, "other": other, "summary": summary, "wall": time.time() - t0}

def span_metas(d, meta):
    """Metas of a diagnostic's spans, primary first."""
    out = []
    for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
        m = None
        for l in range(s["line_start"], s["line_end"] + 1):
            if l in meta:
                m = meta[l]
                break
        out.append((s, m))
    return out

VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
              "possible arithmetic", "possible bit shift", "precondition not met", "possible division", "loop invariant",
              "assertion not", "decreases not satisfied", "unreachable", "recommendation", "constructed value may fail",
              "may fail to meet its declared type invariant", "could not prove termination", "index in bounds")

def is_verif_failure(msg):
    m = msg.lower()
    return any(k in m for k in VERIF_MSGS)
