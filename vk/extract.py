"""Mechanical extraction of /repo's crate into one Verus file with contracts spliced in.

Reads the sources from src/lib.rs along `mod` declarations, keeps every non-test item that the
default features compile, and rewrites only what the verifier's dialect needs (see RULES below and
DESIGN.md, "What the extraction changes").  Contracts come from /verif/contracts/*.vc and are
attached by function key (`Type::fn`, `<Type as Trait<Args>>::fn`, `fn`), never by line.
"""
import align, lists
import json, os, re, hashlib
import rs
from rs import Tok, Grp, Item, is_t, is_g, is_id, ctext, text, Unsupported, split_plain, split_commas

FEATURES = {"default", "std", "alloc"}
EXTERN = {"libsecp256k1", "bs58", "hmac", "sha2", "ripemd", "hex", "pbkdf2", "rand", "unicode_normalization",
          "zeroize", "once_cell", "subtle", "encoding", "rustc_hash", "anyhow", "std", "core", "alloc"}
# identifiers that name std methods modelled by the vx shim traits
RENAME = {"iter", "map", "chain", "cloned", "copied", "fold", "collect", "enumerate", "take_while", "position",
          "count", "starts_with", "split", "split_whitespace", "strip_suffix", "strip_prefix", "into_iter", "parse",
          "to_string", "as_ref", "as_mut", "into", "from", "try_into", "try_from", "from_str", "and_then",
          "split_at", "contains", "to_be_bytes", "from_be_bytes",
          "nfkd", "extend", "size_hint", "to_ascii_lowercase", "to_vec", "get", "take",
          "skip", "zip", "for_each", "try_fold", "last", "nth", "rev", "all", "any", "filter", "filter_map",
          "to_le_bytes", "from_le_bytes", "as_slice", "ends_with", "trim", "lines", "chars",
          "bytes", "is_char_boundary", "split_at_mut", "first", "join", "as_bytes", "is_ok_and", "is_some_and",
          "binary_search", "to_ascii_uppercase", "eq_ignore_ascii_case", "map_or", "map_or_else", "ok_or_else",
          "unwrap_or_else", "unwrap_or_default", "or_else", "truncate", "extend_from_slice", "to_owned",
          "fill", "swap", "windows", "chunks", "sum", "concat", "default", "eq", "ne", "cmp", "partial_cmp",
          "drop", "from_utf8", "expect_err", "is_ascii_alphabetic", "is_ascii_digit", "is_ascii_alphanumeric", "is_ascii_lowercase", "is_ascii_uppercase",
          "checked_sub", "checked_add", "checked_mul", "abs_diff", "overflowing_add", "overflowing_sub", "max", "min", "clamp",
          "find", "rfind", "split_once", "rsplit_once", "trim_end", "trim_start", "trim_end_matches", "trim_start_matches",
          "trim_matches", "char_indices", "split_ascii_whitespace", "to_lowercase", "to_digit", "is_digit", "or", "step_by",
          "skip_while", "next_back", "rposition", "chunks_exact", "reverse", "split_first", "split_last", "ct_eq", "get_mut", "len", "is_empty"}
ITERM = {"map", "any", "all", "rev", "filter", "fold", "position", "take", "skip", "zip", "enumerate", "step_by", "find", "try_fold",
         "for_each", "take_while", "skip_while", "sum", "count", "chain", "collect", "last", "nth", "filter_map", "flat_map", "min", "max",
         "rposition", "next_back", "product"}
# std traits replaced by shim traits of the same name (imported from crate::vx::pre)
KW = {"as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
      "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super",
      "trait", "true", "type", "unsafe", "use", "where", "while", "dyn", "crate"}

# ------------------------------------------------------------------ contracts

class Clause:
    def __init__(self, kind, tags, text, src):
        self.kind, self.tags, self.text, self.src = kind, tags, text, src

class Contract:
    def __init__(self, key, src):
        self.key, self.src = key, src
        self.ret = "vx_r"
        self.params = None
        self.clauses = []
        self.pre = self.post = ""
        self.loops, self.closures, self.attrs = {}, {}, []
        self.props = set()
        self.used = False
        self.trusted = None
        self.lsec = {}

    def tags(self):
        t = set(self.props)
        for c in self.clauses:
            t |= set(c.tags)
        return t

def load_contracts(d):
    """Parse *.vc: see contracts/README for the format."""
    fns, mods, timpls, inherent = {}, [], {}, []
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".vc"):
            continue
        cur = sec = None
        buf, bufsrc = [], 0
        def flush():
            nonlocal buf
            t = "\n".join(buf)
            buf = []
            if sec is None:
                return
            k = sec[0]
            if k in ("requires", "ensures"):
                cur.clauses.append(Clause(k, sec[1], t, (fn, bufsrc)))
            elif k == "pre":
                cur.pre += t
            elif k == "post":
                cur.post += t
            elif k == "loop":
                cur.loops[int(sec[1])] = (t, (fn, bufsrc))
            elif k in ("entry", "body", "tail", "exit"):
                cur.lsec[(int(sec[1]), k)] = t
            elif k == "closure":
                cur.closures[int(sec[1])] = (sec[2], t, (fn, bufsrc))
            elif k == "raw":
                cur.append(((fn, bufsrc), t))
        for ln, line in enumerate(open(os.path.join(d, fn)).read().split("\n"), 1):
            if line.startswith("#"):
                flush()
                sec = None
                w = line[1:].strip()
                if not w:
                    continue
                head, _, rest = w.partition(" ")
                rest = rest.strip()
                bufsrc = ln + 1
                if head == "fn":
                    cur = Contract(rest, (fn, ln))
                    if rest in fns:
                        raise Unsupported(f"duplicate contract {rest}")
                    fns[rest] = cur
                elif head == "mod":
                    cur = []
                    mods.append((rest, cur))
                    sec = ("raw",)
                elif head in ("impl", "trait"):
                    cur = timpls.setdefault(rest, [])
                    sec = ("raw",)
                elif head == "ret":
                    cur.ret = rest
                elif head == "params":
                    cur.params = [p.strip() for p in rest.split(",") if p.strip()]
                elif head == "prop":
                    cur.props |= set(rest.split())
                elif head == "attr":
                    cur.attrs.append(rest)
                elif head == "trusted":
                    cur.trusted = rest
                elif head in ("requires", "ensures"):
                    sec = (head, rest.split())
                elif head in ("pre", "post"):
                    sec = (head,)
                elif head in ("loop", "entry", "body", "tail", "exit"):
                    sec = (head, rest)
                elif head == "closure":
                    n, _, hdr = rest.partition(" ")
                    sec = ("closure", n, hdr)
                elif head == "end" or head.startswith("-"):
                    pass
                else:
                    raise Unsupported(f"{fn}:{ln}: directive {head}")
            else:
                buf.append(line)
        flush()
    return fns, mods, timpls

# ------------------------------------------------------------------ helpers on trees

def T(s, like=None, k=None, pre=" "):
    if k is None:
        k = "id" if re.match(r"[A-Za-z_]", s) else "p"
    return Tok(k, s, pre, like.line if like is not None else 0, like.file if like is not None else None)

def P(src, like):
    """Parse generated text into nodes located at `like`."""
    ns = rs.parse(src)
    def loc(xs):
        for x in xs:
            if isinstance(x, Grp):
                x.op.line = x.cl.line = like.line
                x.op.file = x.cl.file = like.file
                loc(x.ch)
            else:
                x.line, x.file = like.line, like.file
    loc(ns)
    if ns and isinstance(ns[0], Tok) and not ns[0].pre:
        ns[0].pre = " "
    return ns

def first_tok(ns):
    for x in ns:
        return x.op if isinstance(x, Grp) else x
    return Tok("p", "", "", 0, None)

def recv_start(ns, i):
    """ns[:i] ends with a postfix expression: index where it starts."""
    j = i - 1
    while j >= 0:
        x = ns[j]
        if isinstance(x, Grp):
            if x.d == "{":
                # block-like receiver: match/if/unsafe/loop block
                k = j - 1
                while k >= 0 and not (is_id(ns[k]) and ns[k].s in ("match", "if", "unsafe", "loop")) and not is_t(ns[k], ";"):
                    k -= 1
                if k >= 0 and is_id(ns[k]):
                    return k
                return j
            p = ns[j - 1] if j > 0 else None
            if p is not None and is_id(p) and (p.s not in KW or p.s in ("self", "Self", "super", "crate")):
                j -= 1
                continue
            if p is not None and is_t(p, "!") and j > 1 and is_id(ns[j - 2]) and x.d in "([":
                j -= 2
                continue
            if p is not None and (isinstance(p, Grp) and p.d in "([" and not p is None) and x.d in "([" :
                j -= 1
                continue
            if p is not None and is_t(p, ">"):
                k, depth = j - 1, 0
                while k >= 0:
                    if is_t(ns[k], ">"):
                        depth += 1
                    elif is_t(ns[k], "<"):
                        depth -= 1
                        if depth == 0:
                            break
                    k -= 1
                if k > 0 and is_t(ns[k - 1], "::"):
                    j = k - 2
                    if j >= 0 and is_id(ns[j]):
                        continue
                return k
            if p is not None and is_t(p, "?"):
                j -= 1
                continue
            return j
        if x.k in ("id", "num", "str", "char"):
            p = ns[j - 1] if j > 0 else None
            if p is not None and is_t(p, "."):
                j -= 2
                if j >= 0 and is_t(ns[j], "?"):
                    pass
                continue
            if p is not None and is_t(p, "::"):
                j -= 2
                if j < 0:
                    return j + 1
                if is_t(ns[j], ">"):
                    depth = 0
                    while j >= 0:
                        if is_t(ns[j], ">"):
                            depth += 1
                        elif is_t(ns[j], "<"):
                            depth -= 1
                            if depth == 0:
                                break
                        j -= 1
                    if j > 0 and is_id(ns[j - 1]):
                        j -= 1
                        continue
                    return j
                if not is_id(ns[j]):
                    return j + 1
                continue
            return j
        if is_t(x, "?"):
            j -= 1
            continue
        return j + 1
    return 0

def has(ns, pred):
    for x in ns:
        if pred(x):
            return True
        if isinstance(x, Grp) and has(x.ch, pred):
            return True
    return False

def closure_at(ns, i):
    """If a closure starts at ns[i] (possibly `move`), return (params, ret, body, end, move?)."""
    j, mv = i, False
    if is_t(ns[j], "move"):
        mv = True
        j += 1
        if j >= len(ns):
            return None
    if is_t(ns[j], "||"):
        params, j = [], j + 1
    elif is_t(ns[j], "|"):
        k = j + 1
        while k < len(ns) and not is_t(ns[k], "|"):
            k += 1
        if k >= len(ns):
            return None
        params, j = ns[j + 1:k], k + 1
    else:
        return None
    prev = ns[i - 1] if i > 0 else None
    if prev is not None and not (isinstance(prev, Tok) and (prev.s in (",", "=", "=>", ";", "return", "(", "&", "+=", "==") )):
        return None
    ret = []
    if j < len(ns) and is_t(ns[j], "->"):
        k = j + 1
        while not is_g(ns[k], "{"):
            k += 1
        ret = ns[j + 1:k]
        return params, ret, [ns[k]], k + 1, mv
    if j < len(ns) and is_g(ns[j], "{") and (j + 1 == len(ns) or is_t(ns[j + 1], ",") or is_t(ns[j + 1], ";")):
        return params, ret, [ns[j]], j + 1, mv
    k = j
    while k < len(ns) and not is_t(ns[k], ",") and not is_t(ns[k], ";"):
        k += 1
    return params, ret, ns[j:k], k, mv

FMT = re.compile(r"\{\{|\}\}|\{([^{}:]*)(?::([^{}]*))?\}")

def str_val(tok):
    s = tok.s
    if s.startswith("r"):
        h = len(s) - len(s.lstrip("r")) and s[1:].index('"')
        return s[2 + h:len(s) - 1 - h]
    return s[1:-1]

class FnCtx:
    def __init__(self, key, contract, is_option):
        self.key, self.c = key, contract
        self.kind = ["option" if is_option else "result"]
        self.nclosure = self.nloop = 0
        self.notes = []        # what makes the function's proof impossible to trust or complete
        self.soft = []         # what the contract has no words for: harmless if the proof goes through
        self.mutself = False
        self.subst = {}

    def sub(self, t):
        """The contract's parameter names replaced by the code's."""
        for a, b in self.subst.items():
            t = re.sub(rf"(?<![\w.]){re.escape(a)}\b", b, t)
        return t

def split_thms(t):
    """Cut a theorem section into its items: (name, line offset, text)."""
    lines = t.split("\n")
    starts = [i for i, l in enumerate(lines) if re.match(r"pub (proof |open spec |closed spec |uninterp spec )?fn \w+", l) or re.match(r"(pub )?(impl|struct|type|use)\b", l)]
    cuts = []
    for i in starts:
        while i > 0 and (lines[i - 1].startswith("//") or lines[i - 1].startswith("#[")):
            i -= 1
        cuts.append(i)
    out = []
    for a, b, i in zip(cuts, cuts[1:] + [len(lines)], starts):
        m = re.match(r"pub (?:proof |open spec |closed spec |uninterp spec )?fn (\w+)", lines[i])
        out.append((m.group(1) if m else "item at line %d" % i, a, "\n".join(lines[a:b])))
    return out

class Extractor:
    def __init__(self, repo, contracts_dir, degrade=(), hollow=()):
        self.repo, self.contracts_dir = repo, contracts_dir
        self.aligned = []
        self.fns, self.mods, self.timpls = load_contracts(contracts_dir)
        self.impl_deps, self.spec_text = [], ""
        self.degrade, self.hollow = set(degrade), set(hollow)
        self.thms = {}             # theorems and clients: key -> tags, text, source
        self.lines = []        # output text chunks
        self.meta = {}         # output line -> meta
        self.lno = 1
        self.files = {}
        self.undecided = {}    # fn key -> reason
        self.found = {}        # fn key -> info
        self.constfn, self.staticfn = set(), {}
        self.include = {}
        self.structs = {}
        self.ret_kinds = {}
        self.inlined = {}
        self.array_consts = {}
        self.nhoist = 0
        self.has_loops = False
        self.str_params = set()
        self.counter = 0
        self.calls = {}        # fn key -> identifiers its body mentions

    # -------------------------------------------------------------- output
    def w(self, s, meta=None):
        if meta is not None:
            for k in range(s.count("\n") + 1):
                self.meta.setdefault(self.lno + k, meta)
        self.lines.append(s)
        self.lno += s.count("\n")

    def wl(self, s, meta=None):
        if self.lines and not self.lines[-1].endswith("\n"):
            self.w("\n")
        self.w(s, meta)
        self.w("\n")

    def wn(self, nodes, meta):
        """Write nodes, recording source lines."""
        def go(ns):
            for x in ns:
                if isinstance(x, Grp):
                    self.tok(x.op, meta)
                    go(x.ch)
                    self.tok(x.cl, meta)
                else:
                    self.tok(x, meta)
        go(nodes)

    def tok(self, t, meta):
        self.lines.append(t.pre)
        self.lno += t.pre.count("\n")
        if t.file:
            m = dict(meta)
            m["src"] = (t.file, t.line)
            if self.lno not in self.meta or "src" not in self.meta[self.lno]:
                self.meta[self.lno] = m
        self.lines.append(t.s)
        for k in range(1, t.s.count("\n") + 1):
            self.meta.setdefault(self.lno + k, dict(meta))   # contract text inside a body
        self.lno += t.s.count("\n")

    # -------------------------------------------------------------- loading
    def load(self, path, modpath):
        rel = os.path.relpath(path, self.repo)
        src = open(path, encoding="utf-8").read()
        self.files[rel] = hashlib.sha256(src.encode()).hexdigest()
        items = rs.parse_items(rs.parse(src, rel), FEATURES)
        for it in list(items):
            if it.kind == "fn" and it.body is not None:
                items += self.hoist(it.body)
            elif it.kind in ("impl", "trait") and isinstance(it.body, Grp):
                for x in it.body.ch:
                    if is_g(x, "{"):
                        items += self.hoist(x)
        return self.resolve_mods(items, path, modpath)

    def hoist(self, body):
        """Functions written inside a function's body, as functions of the module."""
        found = []
        def go(ns):
            i = 0
            while i < len(ns):
                x = ns[i]
                if isinstance(x, Grp):
                    go(x.ch)
                elif is_t(x, "fn") and x.k == "id" and i + 1 < len(ns) and is_id(ns[i + 1]):
                    b = next((q for q in range(i, len(ns)) if is_g(ns[q], "{")), None)
                    if b is None:
                        return
                    s = i
                    while s > 0 and isinstance(ns[s - 1], Tok) and ns[s - 1].s in ("const", "unsafe"):
                        s -= 1
                    a = s
                    while a >= 2 and is_g(ns[a - 1], "[") and is_t(ns[a - 2], "#"):
                        a -= 2
                    found.append(ns[s:b + 1])
                    del ns[a:b + 1]
                    i = a
                    continue
                i += 1
        go(body.ch)
        out = []
        for f in found:
            k = next(q for q, t in enumerate(f) if is_t(t, "fn"))
            old = f[k + 1].s
            self.nhoist += 1
            new = "vx_nested%d_%s" % (self.nhoist, old)
            f[k + 1].s = new
            def ren(ns):
                for i, x in enumerate(ns):
                    if isinstance(x, Grp):
                        ren(x.ch)
                    elif is_t(x, old) and x.k == "id" and not (i > 0 and isinstance(ns[i - 1], Tok) and ns[i - 1].s in (".", "::", "let", "mut", "|")) and not (i + 1 < len(ns) and is_t(ns[i + 1], ":")):
                        x.s = new
            ren(body.ch)
            for g in found:
                ren(g)
            out += rs.parse_items(f, FEATURES)
        return out

    def resolve_mods(self, items, path, modpath, inline=None):
        base = os.path.dirname(path)
        stem = os.path.splitext(os.path.basename(path))[0]
        d = base if stem in ("lib", "mod", "main") else os.path.join(base, stem)
        for x in (inline or []):
            d = os.path.join(d, x)
        for it in items:
            it.modpath, it.srcpath = modpath, path
            if it.kind == "mod":
                if it.body is None:
                    pattr = [a for a in it.attrs if a.ch and is_t(a.ch[0], "path")]
                    if pattr:
                        cand = [os.path.join(d, str_val(pattr[0].ch[2]))]
                    else:
                        cand = [os.path.join(d, it.name + ".rs"), os.path.join(d, it.name, "mod.rs")]
                    cand = [c for c in cand if os.path.exists(c)]
                    if not cand:
                        raise Unsupported(f"module file for {it.name}")
                    it.items = self.load(cand[0], modpath + [it.name])
                else:
                    sub = rs.parse_items(it.body.ch, FEATURES)
                    it.items = self.resolve_mods(sub, path, modpath + [it.name], (inline or []) + [it.name])
        return items

    def scan(self, items):
        for it in items:
            if it.kind == "mod":
                self.scan(it.items)
            elif it.kind == "const" and it.expr is not None and self.has_call(it.expr):
                self.constfn.add(it.name)
            elif it.kind == "static":
                self.staticfn[it.name] = it
            elif it.kind in ("struct", "enum"):
                self.structs[it.name] = it
            elif it.kind in ("impl", "trait"):
                it.items = rs.parse_items(it.body.ch, FEATURES)
                for s in it.items:
                    s.modpath, s.srcpath = it.modpath, it.srcpath
                    if s.kind == "const" and s.expr is not None and self.has_call(s.expr):
                        self.constfn.add(s.name)
                    self.array_const(s)
            self.array_const(it)
            if it.kind == "fn":
                self.found.setdefault(it.name, None)

    def array_const(self, it):
        if it.kind == "const" and it.expr is not None and len(it.expr) == 1 and is_g(it.expr[0], "["):
            old = self.array_consts.get(it.name)
            self.array_consts[it.name] = None if old is not None and ctext([old]) != ctext(it.expr) else it.expr[0]

    def has_call(self, ns):
        for i, x in enumerate(ns):
            if is_g(x, "(") and i > 0 and (is_id(ns[i - 1])):
                return True
            if isinstance(x, Grp) and self.has_call(x.ch):
                return True
        return False

    # -------------------------------------------------------------- token-level renames
    def rename(self, ns):
        """In-place: std method names, extern crate path heads, const-fn uses, elided bits."""
        i = 0
        out = []
        while i < len(ns):
            x = ns[i]
            if isinstance(x, Grp):
                x.ch = self.rename(x.ch)
                out.append(x)
                i += 1
                continue
            prev = out[-1] if out else None
            nxt = ns[i + 1] if i + 1 < len(ns) else None
            if x.k == "str" and x.s.startswith(("b\"", "br")):
                # a byte string as the array it denotes
                import ast
                bs = ast.literal_eval(x.s)
                ch = []
                for q, v in enumerate(bs):
                    if q:
                        ch.append(T(",", x, pre=""))
                    ch.append(Tok("num", f"{v}u8", " ", x.line, x.file))
                out += [T("&", x, pre=x.pre), Grp("[", T("[", x, pre=""), ch, T("]", x, pre=""))]
                i += 1
                continue
            if x.k == "id":
                pdot = prev is not None and is_t(prev, ".")
                pcol = prev is not None and is_t(prev, "::")
                if x.s in EXTERN and nxt is not None and is_t(nxt, "::") and not pdot and \
                        (not pcol or len(out) < 2 or not (is_id(out[-2]) or is_t(out[-2], ">"))):
                    if pcol:
                        x.pre = out[-1].pre
                        out.pop()
                    out += [Tok("id", "crate", x.pre, x.line, x.file), T("::", x, pre=""), T("ext", x, pre=""),
                            T("::", x, pre="")]
                    x.pre = ""
                    out.append(x)
                    i += 1
                    continue
                if (x.s in self.constfn or x.s in self.staticfn) and not pdot and not (nxt is not None and is_g(nxt, "(")) \
                        and not (prev is not None and is_id(prev) and prev.s in ("fn", "const", "static", "use", "let")):
                    # drop a borrow in front of a static's path
                    if x.s in self.staticfn:
                        k = len(out)
                        while k >= 2 and is_t(out[k - 1], "::") and is_id(out[k - 2]):
                            k -= 2
                        if k >= 1 and is_t(out[k - 1], "&"):
                            pre = out[k - 1].pre
                            del out[k - 1]
                            if k - 1 < len(out):
                                out[k - 1].pre = pre or " "
                            else:
                                x.pre = pre or " "
                    out.append(x)
                    out.append(Grp("(", T("(", x, pre=""), [], T(")", x, pre="")))
                    i += 1
                    continue
                nn = ns[i + 2] if i + 2 < len(ns) else None
                modseg = not pdot and nxt is not None and is_t(nxt, "::") and nn is not None and is_id(nn)  # `core::iter::once`
                if x.s in RENAME and not modseg and (pcol or (nxt is not None and (is_g(nxt, "(") or is_t(nxt, "::")))):
                    x.s = "vx_" + x.s
            out.append(x)
            i += 1
        return out

    # -------------------------------------------------------------- expression rewrites
    def rw(self, ns, cx):
        """Rewrite one expression/statement sequence (recursively, outermost loops/closures first)."""
        out, i = [], 0
        while i < len(ns):
            x = ns[i]
            # statement attributes
            if is_t(x, "#") and i + 1 < len(ns) and is_g(ns[i + 1], "["):
                a = ns[i + 1]
                if a.ch and is_t(a.ch[0], "cfg") and not rs.cfg_true(a.ch[1].ch, FEATURES):
                    # drop the following arm / statement
                    i += 2
                    while i < len(ns) and not (is_t(ns[i], ",") or is_t(ns[i], ";")):
                        i += 1
                    i += 1
                    continue
                i += 2
                continue
            # macros
            if is_id(x) and i + 2 < len(ns) and is_t(ns[i + 1], "!") and isinstance(ns[i + 2], Grp) and x.s not in KW:
                r = self.macro(x, ns[i + 2], cx, ns, i)
                if r is not None:
                    out += r
                    i += 3
                    continue
            # for loops
            if is_t(x, "for") and not (i + 1 < len(ns) and is_t(ns[i + 1], "<")):
                j = i + 1
                while not is_t(ns[j], "in"):
                    j += 1
                k = j + 1
                while not is_g(ns[k], "{"):
                    k += 1
                out += self.for_loop(x, ns[i + 1:j], ns[j + 1:k], ns[k], cx)
                i = k + 1
                continue
            if is_t(x, "while"):
                k = i + 1
                while not is_g(ns[k], "{"):
                    k += 1
                out += self.while_loop(x, ns[i + 1:k], ns[k], cx)
                i = k + 1
                continue
            if is_t(x, "loop") and i + 1 < len(ns) and is_g(ns[i + 1], "{"):
                n = cx.nloop
                cx.nloop += 1
                out.append(x)
                out += self.inv(n, x, cx, None)
                out.append(self.rwg(ns[i + 1], cx))
                i += 2
                continue
            # closures
            if (is_t(x, "|") or is_t(x, "||") or is_t(x, "move")):
                c = closure_at(ns, i)
                if c is not None:
                    params, ret, body, end, mv = c
                    out += self.closure(x, params, ret, body, mv, cx)
                    i = end
                    continue
            # `place == [numbers]`
            if isinstance(x, Tok) and x.s in ("==", "!=") and i + 1 < len(ns) and is_g(ns[i + 1], "[") and ns[i + 1].ch and isinstance(ns[i + 1].ch[0], Tok) and ns[i + 1].ch[0].k == "num" \
                    and (i + 2 == len(ns) or isinstance(ns[i + 2], Tok) and ns[i + 2].s in ("&&", "||", ",", ";", "?") or is_g(ns[i + 2], "{")) and out:
                s = recv_start(out, len(out))
                if s < len(out) and (s == 0 or isinstance(out[s - 1], Tok) and out[s - 1].s in ("&&", "||", "(", "if", "=", "{", ";", "return", "=>", ",", "let") and out[s - 1].s != "&"):
                    recv = out[s:]
                    del out[s:]
                    like = first_tok(recv)
                    pre = like.pre
                    like.pre = " "
                    g = P("(%s(vx_HOLE).vx_same(&vx_ARR))" % ("" if x.s == "==" else "!"), x)
                    self.fill(g, {"vx_HOLE": recv, "vx_ARR": [self.rwg(ns[i + 1], cx)]})
                    g[0].op.pre = pre
                    out += g
                    i += 2
                    continue
            # `a &= e` of a variable: the assignment it stands for
            if isinstance(x, Tok) and x.s in ("&=", "|=") and out and is_id(out[-1]) and (len(out) == 1 or isinstance(out[-2], Grp) or out[-2].s in (";", "{", "}")) and x.k != "id":
                e = next((q for q in range(i, len(ns)) if is_t(ns[q], ";")), len(ns))
                rhs = self.rw(ns[i + 1:e], cx)
                v = out[-1].copy()
                v.pre = " "
                out += [T("=", x), v, T(x.s[0], x), Grp("(", T("(", x), rhs, T(")", x, pre=""))]
                i = e
                continue
            # nested fn items are not supported
            if is_t(x, "fn") and i + 1 < len(ns) and is_id(ns[i + 1]):
                cx.notes.append("nested fn")
            # path passed as a function: eta-expand
            if is_t(x, ".") and i + 2 < len(ns) and is_id(ns[i + 1]) and ns[i + 1].s in ("map", "filter", "fold", "position", "any", "all", "take_while") \
                    and is_g(ns[i + 2], "(") and len(ns[i + 2].ch) >= 1 and all(is_id(t) or is_t(t, "::") for t in ns[i + 2].ch) and is_id(ns[i + 2].ch[-1]) and any(is_t(t, "::") for t in ns[i + 2].ch):
                g = ns[i + 2]
                b0 = g.ch[0]
                v = Tok("id", "vx_a", "", b0.line, b0.file)
                g.ch = [T("|", b0), v, T("|", b0, pre="")] + g.ch + [Grp("(", T("(", b0, pre=""), [v.copy()], T(")", b0, pre=""))]
            # fold with a plain closure: the loop it stands for
            if is_t(x, ".") and i + 2 < len(ns) and is_id(ns[i + 1]) and ns[i + 1].s in ("fold", "try_fold", "try_for_each", "for_each") and is_g(ns[i + 2], "("):
                r = self.fold(x, ns[i + 2], out, cx, ns[i + 1].s)
                if r:
                    i += 3
                    continue
            # map_err and friends with a simple closure or path argument
            if is_t(x, ".") and i + 2 < len(ns) and is_id(ns[i + 1]) and ns[i + 1].s in ("map_err", "ok_or_else", "unwrap_or_else", "map_or", "map_or_else", "unwrap_or", "is_some_and", "is_ok_and", "and_then", "map") and is_g(ns[i + 2], "("):
                r = self.combinator(ns, i, out, cx)
                if r:
                    i += 3
                    continue
            if is_t(x, "?"):
                s = recv_start(out, len(out))
                recv = out[s:]
                del out[s:]
                like = first_tok(recv)
                pre = like.pre
                like.pre = " "
                self.counter += 1
                if cx.kind[-1] == "option":
                    g = P("(match vx_HOLE { Some(vx_v) => vx_v, None => return None })", x)
                else:
                    g = P("(match vx_HOLE { Ok(vx_v) => vx_v, Err(vx_e) => return Err(crate::vx::VFrom::vx_from(vx_e)) })", x)
                self.fill(g, {"vx_HOLE": recv})
                g[0].op.pre = pre
                out += g
                i += 1
                continue
            if is_g(x, "[") and len(x.ch) == 1 and is_t(x.ch[0], "..") and out and (isinstance(out[-1], Grp) or (is_id(out[-1]) and (out[-1].s not in KW or out[-1].s == "self"))):
                s = recv_start(out, len(out))
                recv = out[s:]
                del out[s:]
                like = first_tok(recv)
                pre = like.pre
                like.pre = " "
                if len(out) >= 2 and is_t(out[-1], "mut") and is_t(out[-2], "&"):
                    # all of it, lent for writing: the place itself, which the use coerces
                    like.pre = pre
                    out += recv
                    i += 1
                    continue
                g = P("(*(vx_HOLE).vx_full())", x.op)
                self.fill(g, {"vx_HOLE": recv})
                g[0].op.pre = pre
                out += g
                i += 1
                continue
            if is_g(x, "[") and any(isinstance(q, Tok) and q.s in ("..", "..=") for q in x.ch) and (len(out) >= 3 and is_g(out[-1], "(") and not out[-1].ch \
                    and is_id(out[-2]) and out[-2].s in ("as_str", "vx_trim", "vx_to_string") and is_t(out[-3], ".")
                    or out and is_id(out[-1]) and out[-1].s in self.str_params and not (len(out) >= 2 and (is_t(out[-2], ".") or is_t(out[-2], "::")))):
                # a range of a text
                s = recv_start(out, len(out))
                recv = out[s:]
                del out[s:]
                like = first_tok(recv)
                pre = like.pre
                like.pre = " "
                g = P("(*crate::vx::vx_str_index(vx_HOLE, vx_RANGE))", x.op)
                self.fill(g, {"vx_HOLE": recv, "vx_RANGE": self.rw(x.ch, cx)})
                g[0].op.pre = pre
                out += g
                i += 1
                continue
            if isinstance(x, Grp):
                out.append(self.rwg(x, cx))
                i += 1
                continue
            out.append(x)
            i += 1
        return out

    def rwg(self, g, cx):
        g.ch = self.rw(g.ch, cx)
        return g

    def fill(self, ns, m):
        k = 0
        while k < len(ns):
            x = ns[k]
            if isinstance(x, Grp):
                self.fill(x.ch, m)
            elif x.k == "id" and x.s in m:
                ns[k:k + 1] = m[x.s]
                k += len(m[x.s])
                continue
            k += 1

    def combinator(self, ns, i, out, cx):
        name, args = ns[i + 1].s, ns[i + 2]
        a = split_plain(args.ch)
        if not a:
            return False
        def cl(arg):
            if is_t(arg[0], "|") or is_t(arg[0], "||"):
                c = closure_at(arg, 0)
                if c is None:
                    return None
                params, ret, body, end, mv = c
                if has(body, lambda t: is_t(t, "?") or is_t(t, "return")):
                    return None
                if len(params) > 1 and is_t(params[1], ":"):
                    params = params[:1]
                if len(params) > 1:
                    return None
                return (params, body)
            if all(is_id(t) or is_t(t, "::") for t in arg):
                v = Tok("id", "vx_a", " ", arg[0].line, arg[0].file)
                return ([v], arg + [Grp("(", T("(", arg[0], pre=""), [v.copy()], T(")", arg[0], pre=""))])
            return None
        # arguments containing commas inside closures are re-split: only accept clean cases
        if name == "map_err" and len(a) == 1:
            c = cl(a[0])
            tmpl = "(match vx_HOLE { Ok(vx_v) => Ok(vx_v), Err(vx_P) => Err(vx_B) })"
        elif name == "ok_or_else" and len(a) == 1:
            c = cl(a[0])
            tmpl = "(match vx_HOLE { Some(vx_v) => Ok(vx_v), None => Err(vx_B) })"
        elif name == "unwrap_or_else" and len(a) == 1 and is_t(a[0][0], "||"):
            c = cl(a[0])
            tmpl = "(match vx_HOLE { Some(vx_v) => vx_v, None => vx_B })"
        elif name == "unwrap_or_else" and len(a) == 1 and is_t(a[0][0], "|"):
            c = cl(a[0])
            tmpl = "(match vx_HOLE { Ok(vx_v) => vx_v, Err(vx_P) => vx_B })"
        elif name == "is_some_and" and len(a) == 1:
            c = cl(a[0])
            tmpl = "(match vx_HOLE { Some(vx_P) => vx_B, None => false })"
        elif name == "is_ok_and" and len(a) == 1:
            c = cl(a[0])
            tmpl = "(match vx_HOLE { Ok(vx_P) => vx_B, Err(_) => false })"
        elif name == "and_then" and len(a) == 1:
            c = cl(a[0])
            tmpl = "(match (vx_HOLE).vx_flow() { Ok(vx_P) => vx_B, Err(vx_s) => vx_s.vx_back() })"
        elif name == "map" and len(a) == 1:
            k = self.recv_kind(out)
            if k is None:
                return False
            c = cl(a[0])
            if k == "option":
                tmpl = "(match vx_HOLE { Some(vx_P) => Some(vx_B), None => None })"
            else:
                tmpl = "(match vx_HOLE { Ok(vx_P) => Ok(vx_B), Err(vx_e) => Err(vx_e) })"
        else:
            return False
        if c is None:
            return False
        params, body = c
        s = recv_start(out, len(out))
        recv = out[s:]
        del out[s:]
        like = first_tok(recv)
        pre = like.pre
        like.pre = " "
        body = self.rw(body, cx)
        if len(body) > 1 or not is_g(body[0], "{"):
            b0 = first_tok(body)
            body = [Grp("{", T("{", b0), body, T("}", b0))]
        pp = [p for p in params] or P("_", ns[i])
        if len(pp) == 1 and isinstance(pp[0], Tok):
            pp[0].pre = ""
        g = P(tmpl, ns[i])
        self.fill(g, {"vx_HOLE": recv, "vx_B": body, "vx_P": pp})
        g[0].op.pre = pre
        out += g
        return True

    def recv_kind(self, out):
        """option / result when the receiver is the result of a method that settles it."""
        if len(out) >= 3 and is_g(out[-1], "(") and is_id(out[-2]) and is_t(out[-3], "."):
            n = out[-2].s
            if n.startswith("checked_") or n in ("ok", "err", "strip_suffix", "strip_prefix", "first", "last", "position", "find", "next", "nth", "pop", "split_once", "downcast_ref", "get", "get_mut", "split_first", "split_last", "rfind", "rsplit_once", "to_digit", "max", "min"):
                return "option"
            if n in ("ok_or", "try_into", "parse", "tweak_add_assign"):
                return "result"
        if len(out) >= 6 and is_g(out[-1], "(") and not out[-1].ch and is_t(out[-2], ">"):
            # collect::<Result<..>>() and the like
            d, k = 0, len(out) - 2
            while k > 0:
                d += is_t(out[k], ">") - is_t(out[k], "<")
                if d == 0:
                    break
                k -= 1
            if k >= 2 and is_t(out[k - 1], "::") and is_id(out[k - 2]) and out[k - 2].s in ("collect", "vx_collect", "sum", "parse"):
                if out[k - 2].s == "parse":
                    return "result"
                h = ctext(out[k + 1:k + 2])
                return {"Result": "result", "Option": "option"}.get(h)
        if len(out) >= 2 and is_g(out[-1], "(") and is_id(out[-2]):
            # a function of the crate, all of whose namesakes agree
            n = out[-2].s
            pth = len(out) >= 4 and is_t(out[-3], "::") and is_id(out[-4])
            k = self.ret_kinds.get((out[-4].s, n)) if pth else None
            if k is None and (n not in RENAME and n not in align.STD_METHODS and not n.startswith("vx_")):
                k = self.ret_kinds.get(n)
            if k and len(k) == 1 and next(iter(k)):
                return next(iter(k))
        if out and is_g(out[-1], "(") and len(out[-1].ch) > 2 and is_t(out[-1].ch[0], "match"):
            t = ctext(out[-1].ch)
            if "Ok(vx_v)=>Ok(vx_v)" in t or "=>Ok(vx_v),None=>Err" in t:
                return "result"
        return None

    @staticmethod
    def loop_acc(body, n):
        """The one variable of the function that the loop's body assigns: what a fold would carry."""
        names, inner, early = [], set(), False
        def go(ns):
            nonlocal early
            for i, x in enumerate(ns):
                if isinstance(x, Grp):
                    go(x.ch)
                    continue
                if is_t(x, "let"):
                    for y in ns[i + 1:]:
                        if is_t(y, "="):
                            break
                        if is_id(y):
                            inner.add(y.s)
                if is_t(x, "return"):
                    early = True
                if isinstance(x, Tok) and x.s in ("=", "+=", "-=", "|=", "&=", "^=", "<<=", ">>=", "*=", "/=", "%=") and i > 0 and is_id(ns[i - 1]) and (i == 1 or isinstance(ns[i - 2], Grp) or ns[i - 2].s in (";", "{", "}")):
                    names.append(ns[i - 1].s)
        go(body.ch)
        names = [x for x in dict.fromkeys(names) if x not in inner and not x.startswith("vx_")]
        if len(names) != 1:
            return ""
        return f"vx_okerr({names[0]})" if early else names[0]

    @staticmethod
    def acc0(acc, n, cx):
        c = cx.c
        if not acc or c is None or not any("$I0" in x for x in [v[0] for v in c.loops.values()] + list(c.lsec.values())):
            return ""
        v = acc[9:-1] if acc.startswith("vx_okerr(") else acc
        return f" let ghost vx_a{n} = {v};" if v == acc else f" let ghost vx_a{n} = Ok({v});"

    def inv(self, n, like, cx, itname, brk=False, acc=""):
        """Invariant tokens for loop n (a raw token written verbatim)."""
        c = cx.c
        txt = ""
        if c is not None and n in c.loops:
            txt = cx.sub(c.loops[n][0])
        else:
            (cx.soft if itname else cx.notes).append(f"loop {n} has no invariant")
        if itname:
            # what every loop over an iterator keeps: the elements left are a suffix of the elements there were
            s = f"vx_s{n}"
            auto = (f"invariant {itname}.wf(), {itname}.seq().len() <= {s}.len(), "
                    f"{itname}.seq() =~= {s}.subrange({s}.len() - {itname}.seq().len(), {s}.len() as int),")
            txt = re.sub(r"\binvariant\b", lambda m: auto, txt, count=1) if re.search(r"\binvariant\b", txt) else f"{auto} {txt}"
            txt = txt.replace("$K", f"({s}.len() - {itname}.seq().len())").replace("$S", s).replace("$IT", itname)
            if acc:
                txt = txt.replace("$ACC", acc.replace("vx_okerr(", "Ok(")).replace("$I0", f"vx_a{n}")
            if "ensures" not in txt and not brk:
                m = re.search(r"\bdecreases\b", txt)
                at = m.start() if m else len(txt)
                txt = txt[:at].rstrip().rstrip(",") + f",\n ensures {itname}.seq().len() == 0,\n " + txt[at:]
            if "decreases" not in txt:
                txt = txt.rstrip().rstrip(",") + f",\n decreases {itname}.seq().len(),"
        return [Tok("id", "\n" + txt.strip("\n") + "\n", " ", like.line, like.file)] if txt.strip() else []

    def lsec(self, n, kind, like, cx, itname="", acc=""):
        """Ghost code of the contract at a loop: just before it, or first / last in its body."""
        t = cx.c.lsec.get((n, kind)) if cx.c is not None else None
        if not t:
            return []
        s = f"vx_s{n}"
        t = cx.sub(t).replace("$K", f"({s}.len() - {itname}.seq().len())").replace("$S", s).replace("$IT", itname).replace("$ACC", acc.replace("vx_okerr(", "Ok(") or "$ACC").replace("$I0", f"vx_a{n}")
        return [Tok("id", ("; " if kind == "tail" else " ") + t.strip("\n") + "\n", " ", like.line, like.file)]

    def for_loop(self, kw, pat, expr, body, cx):
        n = cx.nloop
        cx.nloop += 1
        it = f"vx_it{n}"
        expr = self.rw(expr, cx)
        body = self.rwg(body, cx)
        acc = self.loop_acc(body, n)
        brk = has(body.ch, lambda t: is_t(t, "break"))
        if ctext(expr) == "self" and cx.mutself:
            # the iterator is the receiver itself (`impl Iterator for &mut I` forwards next)
            head = P("{ vx_GHOST loop vx_INV vx_BODY vx_EXIT }", kw)
            b = P("let vx_PAT = match self.next() { Some(vx_x) => vx_x, None => break, };", kw)
            self.fill(b, {"vx_PAT": pat})
            blk = Grp("{", body.op, self.lsec(n, "body", kw, cx, "self", acc) + b + body.ch + self.lsec(n, "tail", kw, cx, "self", acc), body.cl)
            ghost = [Tok("id", f"let ghost vx_s{n} = self.seq();" + self.acc0(acc, n, cx), " ", kw.line, kw.file)] + self.lsec(n, "entry", kw, cx, "self", acc)
            self.fill(head, {"vx_GHOST": ghost, "vx_INV": self.inv(n, kw, cx, "self", brk, acc), "vx_BODY": [blk], "vx_EXIT": self.lsec(n, "exit", kw, cx, "self", acc)})
            return head
        head = P(f"{{ let mut {it} = (vx_HOLE).vx_into_iter(); vx_GHOST loop vx_INV vx_BODY vx_EXIT }}", kw)
        b = P(f"let vx_PAT = match {it}.next() {{ Some(vx_x) => vx_x, None => break, }};", kw)
        self.fill(b, {"vx_PAT": pat})
        blk = Grp("{", body.op, self.lsec(n, "body", kw, cx, it, acc) + b + body.ch + self.lsec(n, "tail", kw, cx, it, acc), body.cl)
        ghost = [Tok("id", f"let ghost vx_s{n} = {it}.seq();" + self.acc0(acc, n, cx), " ", kw.line, kw.file)] + self.lsec(n, "entry", kw, cx, it, acc)
        self.fill(head, {"vx_HOLE": expr, "vx_GHOST": ghost, "vx_INV": self.inv(n, kw, cx, it, brk, acc), "vx_BODY": [blk], "vx_EXIT": self.lsec(n, "exit", kw, cx, it, acc)})
        return head

    def fold(self, kw, args, out, cx, name="fold"):
        each = name.endswith("for_each")
        k = -1 if each else next((q for q, t in enumerate(args.ch) if is_t(t, ",")), None)
        if k is None:
            return False
        cs = args.ch[k + 1:]
        mv0 = 1 if cs and is_t(cs[0], "move") else 0
        c = closure_at(cs, 0) if cs and (is_t(cs[0], "|") or mv0) else None
        if c is None:
            return False
        params, ret, body, end, mv = c
        if has(body, lambda t: is_t(t, "?") or is_t(t, "return")):
            return False
        ps = split_plain(params)
        if len(ps) != (1 if each else 2):
            return False
        if each:
            ps = [P("_", kw) if name == "for_each" else P("_", kw), ps[0]]
        if name == "try_fold" and has(body, lambda t: is_t(t, "Some") or is_t(t, "None") or isinstance(t, Tok) and t.s.startswith("checked_")):
            return False
        s0 = recv_start(out, len(out))
        recv = out[s0:]
        del out[s0:]
        like = first_tok(recv)
        pre = like.pre
        like.pre = " "
        if name == "for_each":
            b0 = first_tok(body)
            g = self.for_loop(kw, ps[1], recv, Grp("{", T("{", b0), body + [T(";", b0)], T("}", b0)), cx)
            g[0].op.pre = pre
            out += g
            return True
        n = cx.nloop
        cx.nloop += 1
        it, acc = f"vx_it{n}", f"vx_acc{n}"
        init = self.rw(args.ch[:k], cx) if not each else [Grp("(", T("(", kw), [], T(")", kw))]
        body = self.rw(body, cx)
        if name != "fold":
            # once an element gives an error the rest is passed over
            init = [T("Ok", kw), Grp("(", T("(", kw, pre=""), init, T(")", kw, pre=""))]
            b = P("match vx_t { Ok(vx_P0) => vx_B, Err(vx_e) => Err(vx_e) }", kw)
            self.fill(b, {"vx_P0": ps[0], "vx_B": [Grp("(", T("(", kw), body, T(")", kw))]})
            ps, body = [P("vx_t", kw), ps[1]], b
        g = P(f"{{ let mut {it} = (vx_HOLE).vx_into_iter(); let mut {acc} = vx_INIT; vx_GHOST loop vx_INV {{ let vx_P1 = match {it}.next() {{ Some(vx_x) => vx_x, None => break, }}; let vx_P0 = {acc}; {acc} = vx_B; }} {acc} }}", kw)
        ghost = [Tok("id", f"let ghost vx_s{n} = {it}.seq(); let ghost vx_a{n} = {acc};", " ", kw.line, kw.file)]
        iv = self.inv(n, kw, cx, it)
        for t in iv:
            t.s = t.s.replace("$ACC", acc).replace("$I0", f"vx_a{n}")
        for p in ps:
            first_tok(p).pre = " "
        self.fill(g, {"vx_HOLE": recv, "vx_INIT": init, "vx_GHOST": ghost, "vx_INV": iv, "vx_P1": ps[1], "vx_P0": ps[0], "vx_B": body})
        g[0].op.pre = pre
        out += g
        return True

    def unref(self, pat):
        """`&x` inside a pattern: a fresh name there and `let x = *name;` after it."""
        lets = []
        def go(ns):
            i = 0
            while i < len(ns):
                x = ns[i]
                if isinstance(x, Grp):
                    go(x.ch)
                elif x.s in ("&", "&&") and x.k != "id":
                    k = i + 1
                    if k < len(ns) and is_t(ns[k], "mut") and k + 1 < len(ns):
                        k += 1
                    y = ns[k] if k < len(ns) else None
                    if (is_id(y) and y.s[0].islower() and not (k + 1 < len(ns) and (is_t(ns[k + 1], "::") or is_g(ns[k + 1], "(")))) or is_g(y, "("):
                        self.counter += 1
                        v = Tok("id", "vx_rp%d" % self.counter, x.pre, x.line, x.file)
                        inner = [n.copy() for n in ns[i + 1:k + 1]]
                        lets.extend([T("let", x)] + inner + [T("=", x)] + [T("*", x) for _ in x.s] + [v.copy(), T(";", x)])
                        (inner[0].op if isinstance(inner[0], Grp) else inner[0]).pre = " "
                        ns[i:k + 1] = [v]
                i += 1
        go(pat)
        return lets

    def local_arrays(self, ns):
        for i, x in enumerate(ns):
            if isinstance(x, Grp):
                self.local_arrays(x.ch)
            elif is_t(x, "const") and i + 2 < len(ns) and is_id(ns[i + 1]) and is_t(ns[i + 2], ":"):
                k = next((q for q in range(i, len(ns)) if is_t(ns[q], "=") or is_t(ns[q], ";")), None)
                if k is not None and is_t(ns[k], "=") and k + 2 < len(ns) and is_g(ns[k + 1], "[") and is_t(ns[k + 2], ";"):
                    self.array_consts[ns[i + 1].s] = ns[k + 1]

    def unroll(self, ns, i, k, b):
        """`for x in [a, b, c] { .. }` over few values written out, without break or continue: the body once for each."""
        e = ns[k + 1:b]
        ref = False
        if e and is_t(e[0], "&"):
            ref, e = True, e[1:]
        if len(e) >= 3 and is_g(e[-1], "(") and not e[-1].ch and is_id(e[-2]) and is_t(e[-3], "."):
            if e[-2].s == "iter":
                ref = True
            elif e[-2].s != "into_iter":
                return None
            e = e[:-3]
        if e and all(is_id(t) or is_t(t, "::") for t in e) and is_id(e[-1]) and e[-1].s.isupper():
            a = self.array_consts.get(e[-1].s)
            if a is None:
                return None
            e = [a.copy()]
        if len(e) != 1 or not is_g(e[0], "[") or any(is_t(t, ";") for t in e[0].ch):
            return None
        vals = split_commas(e[0].ch)
        if not 1 <= len(vals) <= 10 or any(any(not (isinstance(t, Tok) and (t.k in ("id", "num", "str", "char") or t.s == "::")) for t in v) for v in vals):
            return None
        if any(isinstance(t, Tok) and t.s in ("break", "continue") for t in self.flat(ns[b].ch)):
            return None
        pat, out, kw = ns[i + 1:k], [], ns[i]
        for v in vals:
            v = [n.copy() for n in v]
            v[0].pre = " "
            out.append(Grp("{", T("{", kw), [T("let", kw)] + [n.copy() for n in pat] + [T("=", kw)] + ([T("&", kw)] if ref else []) + v + [T(";", kw)] + [n.copy() for n in ns[b].ch], T("}", kw)))
        return [Grp("{", T("{", kw), out, T("}", kw))]

    def plain(self, ns):
        """Before anything else: reference patterns as names dereferenced, `write_fmt(format_args!(..))` as `write!`, texts in constants static."""
        i = 0
        while i < len(ns):
            x = ns[i]
            if isinstance(x, Grp):
                self.plain(x.ch)
                i += 1
                continue
            if is_t(x, ".") and i >= 1 and is_g(ns[i - 1], "(") and not (i >= 2 and (is_id(ns[i - 2]) and ns[i - 2].s not in KW or isinstance(ns[i - 2], Grp) or is_t(ns[i - 2], ">") or is_t(ns[i - 2], "!"))) \
                    and i + 1 < len(ns) and isinstance(ns[i + 1], Tok) and ns[i + 1].s in ITERM and any(isinstance(t, Tok) and t.s in ("..", "..=") for t in ns[i - 1].ch[1:-1] + ns[i - 1].ch[:1]):
                # an adapter on a range: a range is an iterator in std, a collection in the model
                ns[i:i] = [T(".", x, pre=""), T("into_iter", x, pre=""), Grp("(", T("(", x, pre=""), [], T(")", x, pre=""))]
                i += 4
                continue
            if is_t(x, "const") and i + 3 < len(ns) and is_id(ns[i + 1]) and is_t(ns[i + 2], ":") and is_t(ns[i + 3], "&") and not (isinstance(ns[i + 4], Tok) and ns[i + 4].k == "life"):
                ns.insert(i + 4, Tok("life", "'static", "", x.line, x.file))
                y = ns[i + 5]
                (y.op if isinstance(y, Grp) else y).pre = " "
            if is_t(x, "write_fmt") and i >= 2 and is_t(ns[i - 1], ".") and i + 1 < len(ns) and is_g(ns[i + 1], "(") and len(ns[i + 1].ch) == 3 and is_t(ns[i + 1].ch[0], "format_args"):
                s = recv_start(ns, i - 1)
                recv = ns[s:i - 1]
                g = ns[i + 1].ch[2]
                g.ch = recv + [T(",", x, pre="")] + g.ch
                w = T("write", x)
                w.pre = (recv[0].op if isinstance(recv[0], Grp) else recv[0]).pre
                ns[s:i + 2] = [w, T("!", x, pre=""), g]
                i = s + 3
                self.plain(g.ch)
                continue
            if is_t(x, "for") and i + 1 < len(ns) and not is_t(ns[i + 1], "<"):
                k = next((q for q in range(i, len(ns)) if is_t(ns[q], "in")), None)
                b = next((q for q in range(k, len(ns)) if is_g(ns[q], "{")), None) if k else None
                u = self.unroll(ns, i, k, b) if b and not self.has_loops else None
                if u is not None:
                    ns[i:b + 1] = u
                    continue
                if b:
                    pat = ns[i + 1:k]
                    lets = self.unref(pat)
                    ns[i + 1:k] = pat
                    b += len(pat) - (k - i - 1)
                    ns[b].ch = lets + ns[b].ch
            elif is_t(x, "let"):
                k = next((q for q in range(i, len(ns)) if is_t(ns[q], "=") or is_t(ns[q], ";")), None)
                cond = i > 0 and isinstance(ns[i - 1], Tok) and ns[i - 1].s in ("if", "while")
                if k is not None and is_t(ns[k], "=") and not any(is_t(q, ":") for q in ns[i + 1:k]):
                    e = next((q for q in range(k, len(ns)) if (is_g(ns[q], "{") and cond) or (is_t(ns[q], ";") and not cond)), None)
                    arr = self.unarray(ns[i + 1:k]) if e is not None and not cond and not any(is_t(q, "else") for q in ns[k:e]) else None
                    if arr is not None:
                        # an irrefutable array pattern: its elements by index
                        nm, lets = arr
                        ns[e + 1:e + 1] = lets
                        ns[i + 1:k] = [nm]
                    elif e is not None:
                        pat = ns[i + 1:k]
                        lets = self.unref(pat)
                        if lets:
                            d = len(pat) - (k - i - 1)
                            ns[i + 1:k] = pat
                            e += d
                            if cond:
                                ns[e].ch = lets + ns[e].ch
                            else:
                                ns[e + 1:e + 1] = lets
            elif is_t(x, "match"):
                b = next((q for q in range(i, len(ns)) if is_g(ns[q], "{")), None)
                if b is not None:
                    self.plain_arms(ns[b].ch)
            elif x.s == "|" or is_t(x, "move"):
                c = closure_at(ns, i)
                if c is not None and any(isinstance(t, Tok) and t.s in ("&", "&&") for t in self.flat(c[0])):
                    params, ret, body, end, mv = c
                    ps = split_commas(params)
                    lets = []
                    for n_, p_ in enumerate(ps):
                        q = next((q for q, t in enumerate(p_) if is_t(t, ":")), len(p_))
                        pt = p_[:q]
                        lets += self.unref(pt)
                        ps[n_] = pt + p_[q:]
                    if lets:
                        params = []
                        for n_, p_ in enumerate(ps):
                            params += ([T(",", x, pre="")] if n_ else []) + p_
                        if len(body) == 1 and is_g(body[0], "{"):
                            nb = body[0]
                            nb.ch = lets + nb.ch
                        else:
                            b0 = first_tok(body)
                            b0.pre = b0.pre or " "
                            nb = Grp("{", T("{", b0), lets + body, T("}", b0))
                        j = i + (1 if mv else 0)
                        ns[i:end] = ns[i:j + 1] + params + [T("|", x, pre="")] + ([T("->", x)] + ret if ret else []) + [nb]
            i += 1

    @staticmethod
    def flat(ns):
        for x in ns:
            if isinstance(x, Grp):
                yield from Extractor.flat(x.ch)
            else:
                yield x

    def unarray(self, pat):
        if len(pat) != 1 or not is_g(pat[0], "["):
            return None
        parts = split_commas(pat[0].ch)
        if not parts or not all(is_id(p[-1]) and p[-1].s not in KW and (len(p) == 1 or len(p) == 2 and is_t(p[0], "mut")) for p in parts):
            return None
        self.narray = getattr(self, "narray", 0) + 1
        x = pat[0].op
        nm = Tok("id", f"vx_arr{self.narray}", " ", x.line, x.file)
        lets = []
        for k, p in enumerate(parts):
            if p[-1].s == "_":
                continue
            lets += [T("let", x, pre=" ")] + [Tok("id", q.s, " ", x.line, x.file) for q in p] + [T("=", x, pre=" "), Tok("id", nm.s, " ", x.line, x.file),
                     Grp("[", T("[", x, pre=""), [Tok("num", str(k), "", x.line, x.file)], T("]", x, pre="")), T(";", x, pre="")]
        return nm, lets

    def plain_arms(self, ns):
        i = 0
        while i < len(ns):
            k = next((q for q in range(i, len(ns)) if is_t(ns[q], "=>")), None)
            if k is None or k + 1 >= len(ns):
                return
            if is_g(ns[k + 1], "{"):
                e = k + 2
            else:
                e = next((q for q in range(k, len(ns)) if is_t(ns[q], ",")), len(ns))
            pat = ns[i:k]
            nx = e + 1 if e < len(ns) and is_t(ns[e], ",") else e
            if not any(isinstance(t, Tok) and t.s in ("|", "if") for t in pat):
                lets = self.unref(pat)
                if lets:
                    body = ns[k + 1:e]
                    if len(body) == 1 and is_g(body[0], "{"):
                        nb = body[0]
                        nb.ch = lets + nb.ch
                    else:
                        b0 = first_tok(body)
                        b0.pre = b0.pre or " "
                        nb = Grp("{", T("{", b0), lets + body, T("}", b0))
                    new = pat + [ns[k], nb]
                    nx = i + len(new) + (nx - e)
                    ns[i:e] = new
            i = nx

    def untry(self, ns, tail=False):
        """`it.try_for_each(|x| e)` / `it.try_fold(v, |a, x| e)` followed by `?` or last in the function: the loop it is."""
        i = 0
        while i < len(ns):
            x = ns[i]
            if isinstance(x, Grp):
                self.untry(x.ch)
                i += 1
                continue
            i += 1
            if not is_t(x, ".") or i + 1 >= len(ns) or not (is_t(ns[i], "try_for_each") or is_t(ns[i], "try_fold")) or not is_g(ns[i + 1], "("):
                continue
            q = i + 2 < len(ns) and is_t(ns[i + 2], "?")
            if not q and not (tail and i + 2 == len(ns)):
                continue
            each, args = is_t(ns[i], "try_for_each"), ns[i + 1].ch
            k = -1 if each else next((w for w, t in enumerate(args) if is_t(t, ",")), None)
            if k is None or k + 1 >= len(args):
                continue
            c = closure_at(args[k + 1:], 0)
            if c is None:
                continue
            params, ret, body, end, mv = c
            ps = split_plain(params)
            if len(ps) != (1 if each else 2) or has(body, lambda t: isinstance(t, Tok) and t.s in ("return", "Some", "None") or isinstance(t, Tok) and t.s.startswith("checked_")):
                continue
            if not each and not (len(ps[0]) == 1 and is_id(ps[0][0]) or len(ps[0]) == 2 and is_t(ps[0][0], "mut")):
                continue
            s0 = recv_start(ns, i - 1)
            recv, kw = ns[s0:i - 1], ns[i]
            pre = first_tok(recv).pre
            if each:
                b = P("{ for vx_P in vx_R { (vx_B)?; } vx_E }", kw)
            else:
                a = ps[0][-1].s
                b = P(f"{{ let mut {a} = vx_I; for vx_P in vx_R {{ {a} = (vx_B)?; }} vx_E }}", kw)
            e = P("()" if each else a, kw)
            if not q:
                e = [T("Ok", kw), Grp("(", T("(", kw, pre=""), e, T(")", kw, pre=""))]
            if each and q:
                e = []
            for p in (ps[-1], recv, body):
                (p[0].op if isinstance(p[0], Grp) else p[0]).pre = " "
            self.fill(b, {"vx_P": ps[-1], "vx_R": recv, "vx_B": body, "vx_E": e, "vx_I": args[:k] if k > 0 else []})
            b[0].op.pre = pre
            ns[s0:i + (3 if q else 2)] = b
            i = s0 + len(b)

    def while_loop(self, kw, cond, body, cx):
        n = cx.nloop
        cx.nloop += 1
        if cond and is_t(cond[0], "let"):
            k = next(k for k, t in enumerate(cond) if is_t(t, "="))
            rx = cond[k + 1:]
            if len(rx) == 4 and is_id(rx[0]) and is_t(rx[1], ".") and is_t(rx[2], "next") and is_g(rx[3], "(") and not rx[3].ch \
                    and is_t(cond[1], "Some") and is_g(cond[2], "(") and k == 3:
                # the elements of an iterator the function holds, one by one
                it = rx[0].s
                body = self.rwg(body, cx)
                brk = has(body.ch, lambda t: is_t(t, "break"))
                r = P("{ vx_GHOST loop vx_INV vx_BODY vx_EXIT }", kw)
                b = P(f"let vx_PAT = match {it}.next() {{ Some(vx_x) => vx_x, None => break, }};", kw)
                if cond[2].ch:
                    (cond[2].ch[0].op if isinstance(cond[2].ch[0], Grp) else cond[2].ch[0]).pre = " "
                self.fill(b, {"vx_PAT": cond[2].ch})
                acc = self.loop_acc(body, n)
                blk = Grp("{", body.op, self.lsec(n, "body", kw, cx, it, acc) + b + body.ch + self.lsec(n, "tail", kw, cx, it, acc), body.cl)
                ghost = [Tok("id", f"let ghost vx_s{n} = {it}.seq();" + self.acc0(acc, n, cx), " ", kw.line, kw.file)] + self.lsec(n, "entry", kw, cx, it, acc)
                self.fill(r, {"vx_GHOST": ghost, "vx_INV": self.inv(n, kw, cx, it, brk, acc), "vx_BODY": [blk], "vx_EXIT": self.lsec(n, "exit", kw, cx, it, acc)})
                return r
            pat, ex = cond[1:k], self.rw(cond[k + 1:], cx)
            body = self.rwg(body, cx)
            r = P("loop vx_INV { match vx_EX { vx_PAT => vx_BODY, _ => break } }", kw)
            self.fill(r, {"vx_EX": ex, "vx_PAT": pat, "vx_BODY": [body], "vx_INV": self.inv(n, kw, cx, None)})
            return r
        cond = self.rw(cond, cx)
        body = self.rwg(body, cx)
        body.ch = self.lsec(n, "body", kw, cx) + body.ch + self.lsec(n, "tail", kw, cx)
        return self.lsec(n, "entry", kw, cx) + [kw] + cond + self.inv(n, kw, cx, None) + [body] + self.lsec(n, "exit", kw, cx)

    def closure(self, x, params, ret, body, mv, cx):
        n = cx.nclosure
        cx.nclosure += 1
        spec = cx.c.closures.get(n) if cx.c is not None else None
        ps = [p for p in split_commas(params)]
        names, lets, res = [], [], []
        for k, p in enumerate(ps):
            ci = next((q for q, t in enumerate(p) if is_t(t, ":")), None)
            pat, ty = (p, None) if ci is None else (p[:ci], p[ci + 1:])
            if len(pat) == 1 and is_id(pat[0]) and pat[0].s != "_":
                nm = pat[0].s
            elif len(pat) == 2 and is_t(pat[0], "mut") and is_id(pat[1]):
                nm = f"vx_c{n}_{k}"
                lets += P("let mut " + pat[1].s + " = " + nm + ";", x)
            else:
                nm = f"vx_c{n}_{k}"
                if ctext(pat) != "_":
                    lets += P("let " + text(pat) + " = " + nm + ";", x)
            names.append(nm)
            res.append((nm, ty))
        rettxt = ctext(ret) if ret else ""
        kind = "result"
        header = None
        if spec is not None:
            header, ens, _src = spec
            ens = cx.sub(ens)
            m = re.match(r"\|(.*)\|\s*->\s*\((\w+)\s*:\s*(.*)\)\s*$", header)
            if not m:
                raise Unsupported("closure header " + header)
            cps = [q.strip() for q in self.split_top(m.group(1))] if m.group(1).strip() else []
            if len(cps) != len(res):
                cx.soft.append(f"closure {n} arity")
                spec = None
            else:
                cnames = [q.split(":", 1)[0].strip() for q in cps]
                ctys = [q.split(":", 1)[1].strip() for q in cps]
                for a, b in zip(cnames, names):
                    if a != b:
                        ens = re.sub(rf"\b{re.escape(a)}\b", b, ens)
                if m.group(3).strip().startswith("Option"):
                    kind = "option"
        if spec is None:
            cx.soft.append(f"closure {n} has no contract")
        cx.kind.append(kind)
        body = self.rw(body, cx)
        cx.kind.pop()
        if not (len(body) == 1 and is_g(body[0], "{")):
            b0 = first_tok(body)
            body = [Grp("{", T("{", b0), body, T("}", b0))]
        if lets:
            body[0].ch = lets + body[0].ch
        if spec is not None:
            hdr = ("move " if mv else "") + "|" + ", ".join(f"{a}: {t}" for a, t in zip(names, ctys)) + f"| -> ({m.group(2)}: {m.group(3)})\n" + ens.strip("\n") + "\n"
        else:
            hdr = ("move " if mv else "") + "|" + ", ".join(a + (": " + text(t) if t else "") for a, t in res) + "| " + ("-> " + rettxt if rettxt else "")
        return [Tok("id", hdr, " ", x.line, x.file)] + body

    @staticmethod
    def split_top(s):
        out, d, cur = [], 0, ""
        for c in s:
            if c in "(<[":
                d += 1
            elif c in ")>]":
                d -= 1
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += c
        out.append(cur)
        return out

    # -------------------------------------------------------------- macros
    def macro(self, x, g, cx, ns, i):
        n = x.s
        if n in ("write", "writeln"):
            args = split_plain(g.ch)
            dest = self.rw(args[0], cx)
            return self.fmt_chain(x, args[1:], dest, cx, n == "writeln")
        if n == "format":
            args = split_plain(g.ch)
            d = P("&mut vx_fs", x)
            chain = self.fmt_chain(x, args, d, cx, False)
            r = P("{ let mut vx_fs = crate::vx::fmt_new(); let vx_q = vx_HOLE; crate::vx::fmt_done(vx_fs, vx_q) }", x)
            self.fill(r, {"vx_HOLE": chain})
            return r
        if n in ("debug_assert", "assert", "const_assert"):
            args = split_plain(g.ch)
            r = P("crate::vx::vx_assert(vx_HOLE)", x)
            self.fill(r, {"vx_HOLE": self.rw(args[0], cx)})
            r[0].pre = x.pre
            return r
        if n in ("debug_assert_eq", "assert_eq", "debug_assert_ne", "assert_ne"):
            args = split_plain(g.ch)
            op = "==" if n.endswith("eq") else "!="
            r = P(f"crate::vx::vx_assert((vx_HA) {op} (vx_HB))", x)
            self.fill(r, {"vx_HA": self.rw(args[0], cx), "vx_HB": self.rw(args[1], cx)})
            r[0].pre = x.pre
            return r
        if n in ("panic", "unreachable", "todo", "unimplemented"):
            r = P("crate::vx::vx_panic()", x)
            r[0].pre = x.pre
            return r
        if n == "include_str":
            p = os.path.normpath(os.path.join(os.path.dirname(self.cur_src), str_val(g.ch[0])))
            rel = os.path.relpath(p, self.repo)
            self.include[rel] = p
            ident = "file_" + re.sub(r"[^A-Za-z0-9]", "_", os.path.basename(rel))
            self.files[rel] = hashlib.sha256(open(p, "rb").read()).hexdigest() if os.path.exists(p) else None
            return P(f"crate::files::{ident}()", x)
        if n in ("vec", "matches"):
            g.ch = self.rw(g.ch, cx)
            return [x, ns[i + 1], g]
        if n in ("println", "eprintln", "print", "eprint", "dbg"):
            return P("()", x)
        raise Unsupported(f"macro {n}! at {x.file}:{x.line}")

    def fmt_chain(self, x, args, dest, cx, nl):
        fs = args[0]
        if len(fs) != 1 or fs[0].k != "str":
            raise Unsupported(f"format string at {x.file}:{x.line}")
        s = str_val(fs[0])
        rest = args[1:]
        named = {}
        pos = []
        for a in rest:
            if len(a) > 2 and is_id(a[0]) and is_t(a[1], "="):
                named[a[0].s] = a[2:]
            else:
                pos.append(a)
        pieces, last, nxt = [], 0, 0
        lit = ""
        for m in FMT.finditer(s):
            lit += s[last:m.start()]
            last = m.end()
            if m.group(0) in ("{{", "}}"):
                lit += m.group(0)[0]
                continue
            if lit:
                pieces.append(("lit", lit))
                lit = ""
            nm, sp = m.group(1) or "", m.group(2) or ""
            if nm == "":
                arg = pos[nxt]
                nxt += 1
            elif nm.isdigit():
                arg = pos[int(nm)]
            elif nm in named:
                arg = named[nm]
            else:
                arg = P(nm, x)
            pieces.append(("arg", sp, arg))
        lit += s[last:]
        if nl:
            lit += "\\n"
        if lit:
            pieces.append(("lit", lit))
        SP = {"": "disp", "?": "dbg", "x": "lhex", "X": "uhex", "#x": "alhex", "#X": "auhex", "02x": "lhex2",
              "02X": "uhex2", "#?": "adbg", "#010x": "vhex10"}
        if not pieces:
            pieces = [("lit", "")]
        def build(k):
            d = [t.copy() for t in dest]
            p = pieces[k]
            if p[0] == "lit":
                call = P("crate::vx::fmt_str(vx_D, vx_L)", x)
                self.fill(call, {"vx_D": d, "vx_L": [Tok("str", '"' + p[1] + '"', " ", x.line, x.file)]})
            else:
                if p[1] not in SP:
                    raise Unsupported(f"format spec {{:{p[1]}}} at {x.file}:{x.line}")
                call = P(f"crate::vx::fmt_{SP[p[1]]}(vx_D, &(vx_A))", x)
                self.fill(call, {"vx_D": d, "vx_A": self.rw([t.copy() for t in p[2]], cx)})
            if k == len(pieces) - 1:
                return call
            m = P("match vx_C { Ok(vx_u) => vx_N, Err(vx_e) => Err(vx_e) }", x)
            nx = build(k + 1)
            if len(nx) > 1 and is_t(nx[0], "match"):
                nx = [Grp("(", T("(", x), nx, T(")", x, pre=""))]
            self.fill(m, {"vx_C": call, "vx_N": nx})
            return m
        r = build(0)
        r = [Grp("(", T("(", x), r, T(")", x, pre=""))]
        r[0].op.pre = x.pre
        return r

    # -------------------------------------------------------------- items
    def key_of(self, it, impl):
        if impl is None:
            return it.name
        if impl.kind == "trait":
            return f"{impl.name}::{it.name}"
        st = self.short_ty(impl.self_ty)
        if impl.trait is None:
            return f"{st}::{it.name}"
        return f"<{st} as {self.short_trait(impl.trait)}>::{it.name}"

    def impl_key(self, impl):
        st = self.short_ty(impl.self_ty)
        if impl.trait is None:
            return st
        return f"{st} as {self.short_trait(impl.trait)}"

    @staticmethod
    def strip_paths(ns):
        """Drop path prefixes and lifetimes."""
        out = []
        i = 0
        while i < len(ns):
            x = ns[i]
            if is_id(x) and i + 1 < len(ns) and is_t(ns[i + 1], "::"):
                i += 2
                continue
            if isinstance(x, Tok) and x.k == "life":
                i += 1
                continue
            if is_t(x, "::"):
                i += 1
                continue
            out.append(x)
            i += 1
        return out

    def short_ty(self, ns):
        ns = self.strip_paths(ns)
        s = ctext(ns)
        return re.sub(r"<.*>$", "", s)

    def short_trait(self, ns):
        return ctext(self.strip_paths(ns)).replace("< ", "<")

    def emit_use(self, it):
        out = []
        def go(ns, prefix):
            # ns: tokens of one tree
            if not ns:
                return
            if len(ns) == 1 and is_g(ns[0], "{"):
                for p in split_plain(ns[0].ch):
                    go(p, prefix)
                return
            seg = ns[0]
            if is_t(seg, "::"):
                go(ns[1:], prefix)
                return
            if len(ns) >= 2 and is_t(ns[1], "::"):
                go(ns[2:], prefix + [seg.s])
                return
            alias = None
            if len(ns) == 3 and is_t(ns[1], "as"):
                alias = ns[2].s
            out.append((prefix, seg.s, alias))
        go(it.toks, [])
        for prefix, last, alias in out:
            if prefix and prefix[0] == "self" and len(prefix) > 1 and prefix[1] in EXTERN:
                prefix = prefix[1:]
            head = prefix[0] if prefix else last
            if head == "thiserror":
                continue
            if last == "self":
                path = prefix
                nm = prefix[-1]
            else:
                path = prefix + [last]
                nm = last
            if len(path) == 1 and path[0] in EXTERN:
                # `use hex;` imports the crate name: paths are rewritten at their head already
                continue
            if path[0] in EXTERN:
                path = ["crate", "ext"] + path
            path = [("vx_" + p if p in RENAME else p) for p in path]
            vis = "pub " if it.vis else ""
            s = f"{vis}use {'::'.join(path)}" + (f" as {alias}" if alias else "") + ";"
            # imports of shim-replaced std traits resolve to the shim of the same name
            self.wl("#[allow(unused_imports)] " + s, {"src": (it.file, it.line), "kind": "use"})

    def vis(self):
        return "pub "

    def fix_types(self, ns):
        """Elided lifetime in const &str, etc.: handled by callers; here only renames."""
        return self.rename([n.copy() for n in ns])

    def emit_items(self, items, modpath):
        for it in items:
            self.cur_src = it.srcpath
            if it.kind == "use":
                self.emit_use(it)
            elif it.kind in ("extern_crate", "macro_rules"):
                continue
            elif it.kind == "mod":
                self.emit_mod(it.name, it.items, modpath + [it.name])
            elif it.kind == "fn":
                self.emit_fn(it, None)
            elif it.kind in ("struct", "enum"):
                self.emit_type(it)
            elif it.kind == "trait":
                self.emit_trait(it)
            elif it.kind == "impl":
                self.emit_impl(it)
            elif it.kind == "const":
                self.emit_const(it, None)
            elif it.kind == "static":
                self.emit_static(it)
            elif it.kind == "type":
                self.wl("pub type " + text(self.fix_types(it.toks)) + ";", {"src": (it.file, it.line), "kind": "item"})
            else:
                raise Unsupported(it.kind)

    def emit_mod(self, name, items, modpath):
        self.wl(f"pub mod {name} {{")
        self.mod_prelude()
        self.emit_items(items, modpath)
        for mp, raws in self.mods:
            if mp == "::".join(modpath):
                for src, t in raws:
                    self.wl(t, {"kind": "contract", "csrc": src})
        self.wl("}")

    def mod_prelude(self):
        self.wl("#[allow(unused_imports)] use vstd::prelude::*;")
        self.wl("#[allow(unused_imports)] use crate::vx::pre::*;")
        self.wl("#[allow(unused_imports)] use crate::spec::*;")
        self.wl("broadcast use crate::vx::group_vx;")

    def emit_const(self, it, impl):
        meta = {"src": (it.file, it.line), "kind": "item", "fn": it.name}
        owner = None if impl is None else (impl.name if impl.kind == "trait" else self.short_ty(impl.self_ty))
        key = it.name if owner is None else f"{owner}::{it.name}"
        if it.name in self.constfn:
            f = Item(kind="fn", name=it.name, generics=[], params=Grp("(", T("(", pre=""), [], T(")", pre="")),
                     ret=it.ty, where=[], body=Grp("{", T("{"), it.expr, T("}")), vis=it.vis, quals=[], attrs=[],
                     line=it.line, file=it.file, modpath=it.modpath, srcpath=it.srcpath)
            self.emit_fn(f, impl)
            return
        ty = self.fix_types(it.ty)
        # const X: &str  ->  &'static str
        if is_t(ty[0], "&") and not (isinstance(ty[1], Tok) and ty[1].k == "life"):
            ty.insert(1, Tok("life", "'static", "", it.line, it.file))
            ty[2].pre = ty[2].pre or " "
        c = self.fns.get(key)
        if it.expr is None:
            self.wl(f"const {it.name}:" + text(ty) + ";", meta)
            return
        cx = FnCtx(key, None, False)
        ex = self.rename(self.rw([n.copy() for n in it.expr], cx))
        vis = "pub " if impl is None or impl.trait is None else ""
        is_arr = ex and is_g(ex[0], "[") and len(ex) == 1
        if is_arr:
            # array consts are given their value as a postcondition so that callers see it
            self.wl(f"{vis}exec const {it.name}:" + text(ty) + f" ensures {it.name}@ =~= seq!{text(ex).strip()},", meta)
            self.wl("{" + f" let vx_c:" + text(ty) + " =" + text(ex) + f"; assert(vx_c@ =~= seq!{text(ex).strip()}); vx_c }}", meta)
            return
        self.wl(f"{vis}const {it.name}:" + text(ty) + " =" + text(ex) + ";", meta)

    def emit_static(self, it):
        # static X: Lazy<T> = Lazy::new(|| EXPR);  ->  fn X() -> &'static T
        ty = it.ty
        ok = len(ty) >= 4 and ty[0].s == "Lazy" and is_t(ty[1], "<")
        call = it.expr
        if not ok or not (len(call) == 4 and ctext(call[:3]) == "Lazy::new" and is_g(call[3], "(")):
            raise Unsupported(f"static {it.name}")
        c = closure_at(call[3].ch, 0)
        if c is None:
            raise Unsupported(f"static {it.name}")
        inner = ty[2:-1]
        body = P("{ crate::vx::vx_leak(vx_HOLE) }", ty[0])
        ex = c[2]
        self.fill(body, {"vx_HOLE": ex})
        f = Item(kind="fn", name=it.name, generics=[], params=Grp("(", T("(", pre=""), [], T(")", pre="")),
                 ret=P("&'static ", ty[0]) + [T("", ty[0])] + inner, where=[], body=body[0], vis=it.vis, quals=[], attrs=[],
                 line=it.line, file=it.file, modpath=it.modpath, srcpath=it.srcpath)
        self.emit_fn(f, None)

    # ---- types and derives
    def derives(self, it):
        d = []
        for a in it.attrs:
            if a.ch and is_t(a.ch[0], "derive"):
                for p in split_plain(a.ch[1].ch):
                    d.append(p[-1].s)
        return d

    def fields(self, it):
        """[(name, type nodes)] of a struct."""
        out = []
        if it.body is None:
            return out
        for k, p in enumerate(split_commas(it.body.ch)):
            _, j = rs.take_attrs(p, 0)
            at, j = rs.take_attrs(p, 0)
            if not rs.attrs_enabled(at, FEATURES):
                continue
            p = p[j:]
            if not p:
                continue
            if is_t(p[0], "pub"):
                p = p[1:]
                if p and is_g(p[0], "(") and it.body.d == "{":
                    p = p[1:]
                elif p and is_g(p[0], "(") and p[0].ch and p[0].ch[0].s in ("crate", "super"):
                    p = p[1:]
            if it.body.d == "(":
                out.append((str(k), p))
            else:
                out.append((p[0].s, p[2:]))
        return out

    def emit_type(self, it):
        meta = {"src": (it.file, it.line), "kind": "item", "fn": it.name}
        d = self.derives(it)
        gen = text(self.fix_types(it.generics)).strip()
        where = text(self.fix_types(it.where))
        name = it.name
        for t in self.timpls.get(f"attrs {name}", []):
            self.wl(t[1], meta)
        if it.kind == "enum":
            variants = []
            plain = True
            disc = False
            froms = []
            for v in split_plain(it.body.ch):
                at, j = rs.take_attrs(v, 0)
                if not rs.attrs_enabled(at, FEATURES):
                    continue
                v = v[j:]
                if not v:
                    continue
                if len(v) > 1 and isinstance(v[1], Grp):
                    plain = False
                    g = v[1]
                    parts = []
                    for q in split_commas(g.ch):
                        at2, j2 = rs.take_attrs(q, 0)
                        q = q[j2:]
                        if any(a.ch and is_t(a.ch[0], "from") for a in at2):
                            froms.append((v[0].s, q))
                        parts.append(q)
                    variants.append(f"{v[0].s}{g.d}" + ",".join(text(self.fix_types(q)) for q in parts) + g.cl.s)
                else:
                    if len(v) > 1:
                        disc = True
                    variants.append(text(self.rename([n.copy() for n in v])))
            ds = [x for x in ("Clone", "Copy") if x in d]
            eq = "PartialEq" in d and plain
            if eq:
                ds += ["PartialEq"]
            if ds:
                self.wl(f"#[derive({', '.join(ds)})]", meta)
            self.wl(f"pub enum {name}{gen} {{ " + ", ".join(variants) + " }", meta)
            if eq:
                self.wl(f"impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}", meta)
            for vn, q in froms:
                ty = text(self.fix_types(q)).strip()
                self.wl(f"impl crate::vx::VFrom<{ty}> for {name} {{ open spec fn from_post(x: {ty}, r: Self) -> bool {{ r is {vn} }} fn vx_from(x: {ty}) -> (r: Self) {{ {name}::{vn}(x) }} }}", meta)
            if "Debug" in d:
                self.emit_debug(it, gen, where)
            return
        fs = self.fields(it)
        for q in self.gen_params(it.generics).strip("<>").split(", "):
            if q and not q.startswith("'"):
                self.wl(f"#[verifier::reject_recursive_types({q})]", meta)
        if it.body is None:
            self.wl(f"pub struct {name}{gen}{where};", meta)
        elif it.body.d == "(":
            if "Copy" in d:
                self.wl("#[derive(Clone, Copy)]", meta)
            self.wl(f"pub struct {name}{gen}(" + ", ".join("pub " + text(self.fix_types(t)).strip() for _, t in fs) + f"){where};", meta)
        else:
            if "Copy" in d:
                self.wl("#[derive(Clone, Copy)]", meta)
            self.wl(f"pub struct {name}{gen}{where} {{", meta)
            priv = f"private {name}" in self.timpls
            for n, t in fs:
                self.wl(f"    {'' if priv else 'pub '}{n}: " + text(self.fix_types(t)).strip() + ",", {**meta, "src": (first_tok(t).file, first_tok(t).line)})
            self.wl("}", meta)
        params = self.gen_params(it.generics)
        ty = name + params
        fn_ = lambda n: n
        def impl_hdr(tr, bound=None):
            return f"impl{self.with_bound(gen, params, bound)} {tr} for {ty}{where}"
        if "Clone" in d and "Copy" not in d:
            # the compiler-generated clone: field-wise clone
            self.wl(impl_hdr("Clone", "Clone") + " {", meta)
            lit = ", ".join(f"{fn_(n)}: self.{fn_(n)}.clone()" for n, _ in fs)
            self.wl(f"  #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ {name} {{ {lit} }} }}", meta)
            self.wl("}", meta)
        if "Default" in d:
            self.wl(impl_hdr("crate::vx::VDefault", "crate::vx::VDefault") + " {", meta)
            post = " && ".join(f"crate::vx::VDefault::default_post(r.{fn_(n)})" for n, _ in fs) or "true"
            self.wl(f"  open spec fn default_post(r: Self) -> bool {{ {post} }}", meta)
            if it.body.d == "(":
                lit = name + "(" + ", ".join("crate::vx::VDefault::vx_default()" for _ in fs) + ")"
            else:
                lit = name + " { " + ", ".join(f"{fn_(n)}: crate::vx::VDefault::vx_default()" for n, _ in fs) + " }"
            self.wl(f"  fn vx_default() -> (r: Self) {{ let r = {lit}; proof {{ crate::vx::vx_dep(<Self as crate::vx::VDefault>::default_post(r)); }} r }}", meta)
            self.wl("}", meta)
        if "PartialEq" in d:
            self.emit_eq(it, fs, gen, params, ty, where)
        if "Debug" in d:
            self.emit_debug(it, gen, where)

    def emit_eq(self, it, fs, gen, params, ty, where):
        """Expansion of #[derive(PartialEq)]: field-wise comparison, as rustc expands it."""
        key = f"<{it.name} as PartialEq>::eq"
        meta = {"src": (it.file, it.line), "kind": "body", "fn": key}
        c = self.fns.get(key)
        g = self.with_bound(gen, params, "crate::vx::VEq")
        conj = " && ".join(f"crate::vx::VEq::veq(&self.{n}, &o.{n})" for n, _ in fs) or "true"
        self.wl(f"impl{g} crate::vx::VEq for {ty}{where} {{", meta)
        self.wl(f"  {'closed' if 'private ' + it.name in self.timpls else 'open'} spec fn veq_spec(&self, o: &Self) -> bool {{ " + (" && ".join(f"crate::vx::VEq::veq_spec(&self.{n}, &o.{n})" for n, _ in fs) or "true") + " }", meta)
        self.wl(f"  fn veq(&self, o: &Self) -> (r: bool)", meta)
        if c is not None:
            c.used = True
            self.found[key] = {"file": it.file, "line": it.line, "contract": True, "notes": []}
            self.clauses(c, {})
        deps = "".join(f" crate::vx::vx_dep(crate::vx::VEq::veq_spec(&self.{n}, &o.{n}));" for n, _ in fs)
        self.wl(f"  {{ proof {{{deps} }} {conj} }}", meta)
        self.wl("}", meta)
        if not gen and not where.strip():
            # the operator is that comparison
            self.wl(f"impl core::cmp::PartialEq for {ty} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ crate::vx::VEq::veq(self, o) }} }}", meta)
            self.wl(f"impl vstd::std_specs::cmp::PartialEqSpecImpl for {ty} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{ty}) -> bool {{ crate::vx::VEq::veq_spec(self, o) }} }}", meta)

    def emit_debug(self, it, gen, where):
        params = self.gen_params(it.generics)
        meta = {"src": (it.file, it.line), "kind": "item"}
        self.wl(f"impl{self.with_bound(gen, params, None)} crate::vx::Debug for {it.name}{params}{where} {{", meta)
        self.wl("  uninterp spec fn dbg(&self) -> Seq<char>;", meta)
        self.wl("  #[verifier::external_body] fn fmt(&self, f: &mut crate::vx::Formatter) -> (r: crate::vx::FResult) { unimplemented!() }", meta)
        self.wl("}", meta)

    @staticmethod
    def gen_params(g):
        if not g:
            return ""
        ps = []
        for p in split_commas(g[1:-1]):
            ps.append(p[0].s)
        return "<" + ", ".join(ps) + ">"

    @staticmethod
    def with_bound(gen, params, bound):
        if not gen:
            return ""
        if not bound:
            return gen
        inner = gen.strip()[1:-1]
        ps = []
        for p in Extractor.split_top(inner):
            p = p.strip()
            if p.startswith("'"):
                ps.append(p)
            else:
                ps.append(p + (" + " if ":" in p else ": ") + bound)
        return "<" + ", ".join(ps) + ">"

    # ---- traits and impls
    def emit_trait(self, it):
        meta = {"src": (it.file, it.line), "kind": "item", "fn": it.name}
        self.w("\npub trait " + it.name, meta)
        self.wn(self.rename([n.copy() for n in it.header]), meta)
        self.wl(" {", meta)
        for src, t in self.timpls.get(it.name, []):
            self.wl(t, {"kind": "contract", "csrc": src})
        for s in it.items:
            self.cur_src = s.srcpath
            if s.kind == "fn":
                self.emit_fn(s, it)
            elif s.kind == "const":
                self.emit_const(s, it)
            elif s.kind == "type":
                self.wl("type " + text(self.fix_types(s.toks)) + ";", meta)
            else:
                raise Unsupported(s.kind)
        self.wl("}", meta)

    def emit_impl(self, it):
        key = self.impl_key(it)
        meta = {"src": (it.file, it.line), "kind": "item", "fn": key}
        tr = ctext(self.strip_paths(it.trait)) if it.trait is not None else None
        base = re.sub(r"<.*", "", tr) if tr else None
        if base in ("Eq", "Error", "Copy"):
            return                       # marker impls
        gen = text(self.fix_types(it.generics)).strip()
        where = text(self.fix_types(it.where))
        st = text(self.fix_types(it.self_ty)).strip()
        veq = base == "PartialEq"
        trt = None
        if it.trait is not None:
            trn = self.rename([n.copy() for n in it.trait])
            trt = text(trn).strip()
            shim = {"PartialEq": "crate::vx::VEq", "Drop": "crate::vx::VDrop", "Default": "crate::vx::VDefault"}
            if base in shim:
                trt = shim[base]
            if base == "Clone":
                pass
        self.w("\nimpl" + gen + " " + (trt + " for " if trt else "") + st + where + " {\n", meta)
        # impls that differ only in the path of their argument are named with the path
        fullkey = f"{self.short_ty(it.self_ty)} as {ctext(it.trait)}".replace("< ", "<") if it.trait is not None else key
        spliced = self.timpls.get(fullkey, self.timpls.get(key, []))
        self.spec_text = ""
        for src, t in spliced:
            self.wl(t, {"kind": "contract", "csrc": src})
            self.spec_text += t + "\n"
        if it.trait is not None and not spliced:
            self.auto_trait_spec(base, it, trt)
        # mention the impl's spec functions in its bodies: the verifier orders proofs by such mentions
        self.impl_deps = []
        if trt:
            for m in re.finditer(r"spec fn (\w+)\(([^)]*)\)", self.spec_text):
                n = len([x for x in self.split_top(m.group(2)) if x.strip()])
                self.impl_deps.append(f"<Self as {trt}>::{m.group(1)}({', '.join(['arbitrary()'] * n)})")
        for s in it.items:
            self.cur_src = s.srcpath
            if s.kind == "fn":
                self.emit_fn(s, it)
            elif s.kind == "const":
                self.emit_const(s, it)
            elif s.kind == "type":
                self.wl("type " + text(self.fix_types(s.toks)) + ";", meta)
            else:
                raise Unsupported(s.kind)
        self.impl_deps = []
        self.wl("}", meta)

    def sl(self, t):
        self.spec_text += t + "\n"
        self.wl(t)

    def auto_trait_spec(self, base, it, trt):
        """Trait impls with no contract text still need the shim traits' spec items."""
        m = re.search(r"<(.*)>$", trt or "")
        arg = m.group(1) if m else None
        if base == "From":
            self.sl(f"  open spec fn from_post(x: {arg}, r: Self) -> bool {{ true }}")
        elif base == "TryFrom":
            self.sl(f"  open spec fn try_from_post(x: {arg}, r: core::result::Result<Self, Self::Error>) -> bool {{ true }}")
        elif base == "FromStr":
            self.sl("  open spec fn parse_post(s: Seq<char>, r: core::result::Result<Self, Self::Err>) -> bool { true }")
        elif base == "AsRef":
            self.sl(f"  uninterp spec fn as_ref_spec(&self) -> &{arg};")
        elif base in ("Display",):
            self.sl("  uninterp spec fn disp(&self) -> Seq<char>;")
        elif base == "Debug":
            self.sl("  uninterp spec fn dbg(&self) -> Seq<char>;")
        elif base in ("LowerHex", "UpperHex"):
            self.sl("  uninterp spec fn hexs(&self, alt: bool) -> Seq<char>;")
        elif base == "Default":
            self.sl("  open spec fn default_post(r: Self) -> bool { true }")
        elif base == "PartialEq":
            self.sl("  uninterp spec fn veq_spec(&self, o: &Self) -> bool;")
        elif base == "Drop":
            self.sl("  open spec fn wiped(&self) -> bool { true }")
        elif base == "IntoIterator":
            self.sl("  uninterp spec fn into_seq(self) -> Seq<Self::Item>;\n  uninterp spec fn into_hi(self) -> nat;\n  open spec fn into_wf(self) -> bool { true }")
        elif base == "Iterator":
            self.sl("  uninterp spec fn seq(&self) -> Seq<Self::Item>;\n  uninterp spec fn wf(&self) -> bool;\n  uninterp spec fn hi(&self) -> nat;")
        elif base == "Extend":
            self.sl(f"  uninterp spec fn ext_post(a: &Self, s: Seq<{arg}>, b: &Self) -> bool;")
        elif base == "ConstantTimeEq":
            self.sl("  uninterp spec fn ct_spec(&self, o: &Self) -> bool;")

    # ---- functions
    def clauses(self, c, subst):
        def sub(t):
            for a, b in subst.items():
                t = re.sub(rf"(?<![\w.]){re.escape(a)}\b", b, t)
            return t
        for kind in ("requires", "ensures"):
            cs = [x for x in c.clauses if x.kind == kind]
            if not cs:
                continue
            self.wl(f"    {kind}")
            for x in cs:
                self.wl(sub(x.text).rstrip(), {"kind": "ens" if kind == "ensures" else "req", "fn": c.key, "tags": x.tags, "csrc": x.src})

    def emit_fn(self, it, impl):
        key = self.key_of(it, impl)
        if key in self.inlined:
            self.found.pop(key, None)
            return
        c = self.fns.get(key)
        if key in self.hollow:
            c = None
        if c is not None:
            c.used = True
        info = {"file": it.file, "line": it.line, "contract": c is not None, "notes": []}
        self.found[key] = info
        meta = {"kind": "body", "fn": key, "src": (it.file, it.line)}
        ret = self.rename([n.copy() for n in it.ret])
        rett = text(ret).strip()
        is_opt = rett.startswith("Option")
        cx = FnCtx(key, c, is_opt)
        fp = split_commas(it.params.ch)
        cx.mutself = bool(fp) and ctext(fp[0]).endswith('mut self') and ctext(fp[0]).startswith('&')
        # parameters
        params, subst, lets, pn = [], {}, [], []
        for k, p in enumerate(split_commas(it.params.ch)):
            at, j = rs.take_attrs(p, 0)
            p = self.rename([n.copy() for n in p[j:]])
            if any(is_t(t, "self") for t in p) and k == 0 and not any(is_t(t, ":") for t in p):
                if is_t(p[0], "mut"):
                    # `mut self` -> rebinding inside the body
                    lets.append("let mut vx_self = self;")
                    p = p[1:]
                params.append(text(p).strip())
                continue
            ci = next(q for q, t in enumerate(p) if is_t(t, ":"))
            pat, ty = p[:ci], p[ci + 1:]
            if len(pat) == 1 and is_id(pat[0]) and pat[0].s != "_":
                nm = pat[0].s
            elif len(pat) == 2 and is_t(pat[0], "mut"):
                nm = pat[1].s
                lets.append(f"let mut {nm} = {nm};")
            else:
                nm = f"vx_p{k}"
                if ctext(pat) != "_":
                    lets.append(f"let {text(pat)} = {nm};")
            pn.append(nm)
            params.append(f"{nm}: {text(ty).strip()}")
        if c is not None and c.params is not None:
            if len(c.params) == len(pn):
                subst = cx.subst = {a: b for a, b in zip(c.params, pn) if a != b}
            else:
                info["notes"].append("parameter count differs from the contract")
                c = cx.c = None
        # the verifier matches method generics of trait impls by name
        if impl is not None and impl.kind == "impl" and impl.trait is not None and it.name == "extend" and it.generics:
            g0 = next((t.s for t in it.generics if is_id(t)), None)
            if g0:
                it.generics, it.where = [n.copy() for n in it.generics], [n.copy() for n in it.where]
                for ns in (it.generics, it.where):
                    self.fill(ns, {g0: [Tok("id", "VxI", " ", it.line, it.file)]})
                params = [re.sub(rf"\b{g0}\b", "VxI", p) for p in params]
        degraded = key in self.degrade
        attrs = list(c.attrs) if c is not None else []
        body = None
        if it.body is not None:
            ids = set()
            def go(ns):
                for x in ns:
                    if isinstance(x, Grp):
                        go(x.ch)
                    elif x.k == "id":
                        ids.add(x.s)
            go(it.body.ch)
            self.calls[key] = ids
            try:
                b = it.body.copy()
                if lets and lets[0].startswith("let mut vx_self"):
                    self.replace_self(b.ch)
                self.has_loops = c is not None and bool(c.loops)
                self.str_params = set()
                for q in split_commas(it.params.ch):
                    if len(q) >= 4 and is_id(q[0]) and is_t(q[1], ":") and is_t(q[2], "&") and is_id(q[-1]) and q[-1].s == "str" \
                            and sum(1 for t in q if is_t(t, "&")) == 1 and len(q) <= 5:
                        self.str_params.add(q[0].s)
                self.local_arrays(b.ch)
                self.plain(b.ch)
                self.untry(b.ch, True)
                b.ch = self.rw(b.ch, cx)
                b.ch = self.rename(b.ch)
                body = b
            except (Unsupported, StopIteration, IndexError, KeyError) as e:
                degraded = True
                info["notes"].append(f"extraction: {e!r}")
        if c is not None:
            for n in c.loops:
                if n >= cx.nloop:
                    cx.soft.append(f"contract names loop {n}, not in the code")
            for n in c.closures:
                if n >= cx.nclosure:
                    cx.soft.append(f"contract names closure {n}, not in the code")
        info["notes"] += cx.notes
        info["soft"] = cx.soft
        b = self.base["fns"].get(key)
        if b is not None and key in self.current["fns"] and self.current["fns"][key]["shape"] != b["shape"]:
            cx.soft.append("its loops or closures are not those the contract was written for")
        if b is not None and key in self.current["fns"]:
            new = sorted(set(self.current["fns"][key]["ops"]) - set(b["ops"]))
            if new:
                cx.soft.append("it uses operations its contract was not written for: " + ", ".join(new))
        if body is not None:
            left = []
            def res(ns):
                for x in ns:
                    if isinstance(x, Grp):
                        res(x.ch)
                    elif x.k == "id" and re.search(r"\$[A-Z]", x.s):
                        left.append(x)
            res(body.ch)
            if left:
                degraded = True
                info["notes"].append("the contract of a loop does not fit its form")
        info["nloop"], info["nclosure"] = cx.nloop, cx.nclosure
        if degraded:
            info["degraded"] = True
            attrs.append("#[verifier::external_body]")
        elif any("loop" in n and "no invariant" in n for n in cx.notes):
            attrs.append("#[verifier::exec_allows_no_decreases_clause]")
        if c is not None and c.trusted and body is not None:
            attrs.append("#[verifier::external_body]")
            info["trusted"] = c.trusted
        for a in attrs:
            self.wl(a, meta)
        vis = "pub " if (impl is None or (impl.kind == "impl" and impl.trait is None)) else ""
        gen = text(self.rename([n.copy() for n in it.generics])).strip()
        where = text(self.rename([n.copy() for n in it.where]))
        # bounds of std closures traits etc. stay; shim traits shadow the std names
        name = "vx_" + it.name if it.name in RENAME else it.name
        if it.name == "eq" and impl is not None and impl.kind == "impl" and impl.trait is not None and ctext(self.strip_paths(impl.trait)) == "PartialEq":
            name = "veq"
        if it.name == "drop" and impl is not None and impl.kind == "impl" and impl.trait is not None:
            name = "vdrop"
        rname = c.ret if c is not None else "vx_r"
        rs_ = f" -> ({rname}: {rett})" if rett else ""
        self.wl(f"{vis}fn {name}{gen}({', '.join(params)}){rs_}{where}", meta)
        if c is not None:
            self.clauses(c, subst)
        if it.body is None:
            self.wl(";")
            return
        if degraded or (c is not None and c.trusted):
            self.wl("{ unimplemented!() }", meta)
            return
        self.wl("{", meta)
        if True:
            self.wl(" proof { crate::vx::vx_base(); " + " ".join(f"crate::vx::vx_dep({d});" for d in self.impl_deps) + " }", {"kind": "proof", "fn": key})
        facts = self.bit_facts(it.body.ch) + self.text_facts(it.body.ch, c.pre + c.post if c is not None else "")
        if facts:
            self.wl(" proof { " + " ".join(facts) + " }", {"kind": "proof", "fn": key})
        sub = cx.sub
        for l in lets:
            if "vx_self" not in l:
                self.w(" " + l, meta)
        if c is not None and c.pre.strip():
            self.wl(sub(c.pre), {"kind": "proof", "fn": key, "csrc": c.src})
        for l in lets:
            if "vx_self" in l:
                self.w(" " + l, meta)
        if c is not None and c.post.strip():
            t = f": {rett}" if rett and "impl" not in rett else ""
            self.w(f"let vx_ret{t} = {{", meta)
            self.wn(body.ch, meta)
            self.wl("};")
            self.wl(sub(c.post), {"kind": "proof", "fn": key, "csrc": c.src})
            self.wl("vx_ret }", meta)
        else:
            self.wn(body.ch, meta)
            self.wl("}", meta)

    @staticmethod
    def bit_facts(ns):
        """What masks and shifts by a literal mean in arithmetic, for the literals of this function."""
        masks, shifts, lefts, bytes_ = set(), set(), set(), False
        def go(ns):
            nonlocal bytes_
            for i, x in enumerate(ns):
                if isinstance(x, Grp):
                    go(x.ch)
                elif is_t(x, "as") and i + 1 < len(ns) and is_t(ns[i + 1], "u8"):
                    bytes_ = True
                elif isinstance(x, Tok) and x.k == "num" and i > 1 and isinstance(ns[i - 1], Tok) and isinstance(ns[i - 2], Tok) and ns[i - 2].s in ("<", ">") \
                        and ns[i - 1].s in (ns[i - 2].s, ns[i - 2].s + "=") and re.fullmatch(r"[0-9]+", x.s) and 0 < int(x.s) < 32:
                    (shifts if ns[i - 2].s == ">" else lefts).add(int(x.s))
                elif isinstance(x, Tok) and x.k == "num" and i > 0 and isinstance(ns[i - 1], Tok) and ns[i - 1].s in ("&", ">>", "&=", ">>="):
                    m = re.match(r"(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)", x.s)
                    v = int(m.group(1).replace("_", ""), 0)
                    if ns[i - 1].s.startswith("&") and i > 1 and v > 0 and v & (v + 1) == 0 and v < 2 ** 32:
                        masks.add(v)
                    elif ns[i - 1].s.startswith(">>") and 0 < v < 32:
                        shifts.add(v)
        go(ns)
        out = []
        for v in sorted(masks):
            for ty, n in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64)):
                if v < 2 ** n - 1:
                    out.append(f"assert(forall|x: {ty}| #[trigger] (x & {v}{ty}) == x % {v + 1}{ty}) by (bit_vector);")
        for v in sorted(shifts):
            for ty, n in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64)):
                if v < n:
                    out.append(f"assert(forall|x: {ty}| #[trigger] (x >> {v}{ty}) == x / {1 << v}{ty}) by (bit_vector);")
                    if v in lefts:
                        out.append(f"assert(forall|x: {ty}| #[trigger] ((x << {v}{ty}) >> {v}{ty}) == x & {(1 << (n - v)) - 1}{ty}) by (bit_vector);")
            if bytes_ and v % 8 == 0:
                out.append(f"assert(forall|x: u32| #[trigger] ((x >> {v}u32) as u8) == ((x >> {v}u32) & 0xff) as u8) by (bit_vector);")
        if bytes_ and any(v % 8 == 0 for v in shifts):
            out.append("assert(forall|x: u32| #[trigger] (x as u8) == (x & 0xff) as u8) by (bit_vector);")
        return out

    @staticmethod
    def text_facts(ns, known):
        """The characters of the short string literals of a function, where its contract does not spell them out."""
        out = {}
        def go(ns):
            for x in ns:
                if isinstance(x, Grp):
                    go(x.ch)
                elif x.k == "str" and re.fullmatch(r'"([^"\\{}]|\\.){0,8}"', x.s) and x.s not in known:
                    cs = re.findall(r"\\.|.", x.s[1:-1])
                    if all(len(q) == 1 or q[1] in "'\"\\ntr0" for q in cs):
                        out[x.s] = ["'" + {"'": "\\'", '\\"': '"'}.get(q, q) + "'" for q in cs]
        go(ns)
        return [f"reveal_strlit({s}); assert({s}@ =~= " + (f"seq![{', '.join(cs)}]" if cs else "Seq::<char>::empty()") + ");" for s, cs in sorted(out.items())]

    def replace_self(self, ns):
        for x in ns:
            if isinstance(x, Grp):
                self.replace_self(x.ch)
            elif x.k == "id" and x.s == "self":
                x.s = "vx_self"

    # -------------------------------------------------------------- whole crate
    def run(self, prelude_files):
        root = os.path.join(self.repo, "src", "lib.rs")
        items = self.load(root, [])
        self.scan(items)
        bp = os.path.join(self.contracts_dir, "baseline.json")
        self.base = json.load(open(bp)) if os.path.exists(bp) else {"structs": {}, "fns": {}}
        self.current = align.describe(self, items)
        self.ret_kinds = {}
        for it, impl in align.fns_of(items):
            r = ctext(it.ret)
            r = r[2:] if r.startswith("->") else r
            k = "option" if re.match(r"(\w+::)*Option<", r) else "result" if re.match(r"(\w+::)*Result<", r) else None
            self.ret_kinds.setdefault(it.name, set()).add(k)
            own = self.short_ty(impl.self_ty) if impl is not None and impl.kind == "impl" else None
            if own:
                self.ret_kinds.setdefault((own, it.name), set()).add(k)
        if self.base["fns"] and self.current != self.base:
            align.align(self, items, self.base, self.aligned)
        self.items = items
        self.wl("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unreachable_code, non_camel_case_types)]")
        self.wl("#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]")
        self.wl("use vstd::prelude::*;\nverus! {\n")
        for p in prelude_files:
            self.wl(open(p).read(), {"kind": "prelude", "file": os.path.basename(p)})
        self.wl("pub use crate::vx::pre::*;" if False else "")
        self.wl("#[allow(unused_imports)] use crate::vx::pre::*;")
        self.wl("#[allow(unused_imports)] use crate::spec::*;")
        self.wl("broadcast use crate::vx::group_vx;")
        self.emit_items(items, [])
        for mp, raws in self.mods:
            if mp in ("", "thms", "spec"):
                if mp == "":
                    for src, t in raws:
                        self.wl(t, {"kind": "contract", "csrc": src})
        for name in ("spec", "thms", "vec_hash", "vec_curve", "vec_bip32", "canary"):
            self.wl(f"pub mod {name} {{")
            self.wl("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::pre::*;")
            if name != "spec":
                self.wl("#[allow(unused_imports)] use crate::spec::*;")
                self.wl("broadcast use crate::vx::group_vx;")
            for mp, raws in self.mods:
                if mp == name or mp.startswith(name + " "):
                    tags = mp.split()[1:]
                    for src, t in raws:
                        if name != "thms":
                            self.wl(t, {"kind": {"canary": "canary"}.get(name, "contract"), "csrc": src, "tags": tags})
                            continue
                        for nm, off, chunk in split_thms(t):
                            key = "theorem " + nm
                            self.thms[key] = {"tags": tags, "text": chunk, "src": (src[0], src[1] + off), "obligation": bool(re.search(r"^pub (proof )?fn ", chunk, re.M))}
                            if key not in self.hollow:
                                self.wl(chunk, {"kind": "thm", "csrc": (src[0], src[1] + off), "tags": tags, "fn": key})
            self.wl("}")
        self.wl("pub mod files {\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;")
        for rel in sorted(self.include):
            ident = "file_" + re.sub(r"[^A-Za-z0-9]", "_", os.path.basename(rel))
            self.wl(f"pub uninterp spec fn txt_{ident}() -> Seq<char>;")
            self.wl(f"#[verifier::external_body] pub fn {ident}() -> (r: &'static str) ensures r@ == txt_{ident}(){lists.file_fact(ident, self.include[rel])} {{ unimplemented!() }}")
        for ident in ("file_english_txt", "file_chinese_simplified_txt"):
            if not any("file_" + re.sub(r"[^A-Za-z0-9]", "_", os.path.basename(r)) == ident for r in self.include):
                self.wl(f"pub uninterp spec fn txt_{ident}() -> Seq<char>;")
        self.wl("}")
        self.wl("fn main() {}")
        self.wl("} // verus!")
        return "".join(self.lines)

if __name__ == "__main__":
    import sys
    here = os.path.dirname(os.path.abspath(__file__))
    ex = Extractor(sys.argv[1], os.path.join(here, "..", "contracts"))
    pre = sorted(os.path.join(here, "..", "prelude", f) for f in os.listdir(os.path.join(here, "..", "prelude")) if f.endswith(".rs"))
    out = ex.run(pre)
    open(sys.argv[2], "w").write(out)
    for k, v in ex.found.items():
        if v and v["notes"]:
            print(k, v["notes"])
    for k, c in ex.fns.items():
        if not c.used:
            print("UNUSED", k)
