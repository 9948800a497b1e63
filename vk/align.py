"""Alignment of a changed source with the contracts, before extraction.

Everything here rewrites the source into an equivalent one: private names are changed back to the names the contracts
use (consistently, and only when the old name is not in use), and a call of a new function that has no contract is
replaced by the function's body (so that the caller is verified against what the helper does).  Nothing here touches a
source whose names are those of contracts/baseline.json and which has no new function.
"""
import hashlib, re
from rs import Tok, Grp, is_t, is_g, is_id, ctext, split_commas

def walk(ns):
    for x in ns:
        yield x
        if isinstance(x, Grp):
            yield from walk(x.ch)

def idents(ns):
    return {x.s for x in walk(ns) if isinstance(x, Tok) and x.k == "id"}

def fns_of(items, impl=None):
    for it in items:
        if it.kind == "mod":
            yield from fns_of(it.items)
        elif it.kind in ("impl", "trait"):
            yield from fns_of(it.items, it)
        elif it.kind == "fn":
            yield it, impl

def item_nodes(items):
    """Every token list of the items (functions' parts, fields, constants)."""
    for it in items:
        if it.kind == "mod":
            yield from item_nodes(it.items)
        elif it.kind in ("impl", "trait"):
            yield it.body.ch
        else:
            for a in ("body", "params"):
                g = getattr(it, a, None)
                if g is not None:
                    yield [g]
            for a in ("ret", "expr", "ty", "toks"):
                g = getattr(it, a, None)
                if g:
                    yield g

def fields(it):
    if it.kind != "struct" or it.body is None or it.body.d != "{":
        return None
    out = []
    for p in split_commas(it.body.ch):
        k = next((q for q, t in enumerate(p) if is_t(t, ":")), None)
        if k is None:
            return None
        out.append([p[k - 1].s, ctext(p[k + 1:])])
    return out

def locals_of(it):
    """Names bound by `let` and `for`, in order."""
    out = []
    def go(ns):
        for i, x in enumerate(ns):
            if isinstance(x, Grp):
                go(x.ch)
            elif is_t(x, "let") or is_t(x, "for"):
                j = i + 1
                if j < len(ns) and is_t(ns[j], "mut"):
                    j += 1
                if j + 1 < len(ns) and is_id(ns[j]) and not isinstance(ns[j + 1], Grp):
                    out.append(ns[j].s)
    if it.body is not None:
        go(it.body.ch)
    return out

ASSIGN = ("=", "+=", "-=", "|=", "&=", "^=", "<<=", ">>=", "*=", "/=", "%=")

def writes(ns, i):
    """What the loop at ns[i] assigns: fields of self by name, other variables of the function by number."""
    b = next((x for x in ns[i:] if is_g(x, "{")), None)
    inner, places = set(), set()
    def go(ns):
        for i, x in enumerate(ns):
            if isinstance(x, Grp):
                go(x.ch)
                continue
            if is_t(x, "let") or is_t(x, "for"):
                for y in ns[i + 1:]:
                    if is_t(y, "=") or is_t(y, "in"):
                        break
                    inner.update(t.s for t in walk([y]) if is_id(t))
            wide = x.s in ("<=", ">=") and i > 0 and is_t(ns[i - 1], x.s[0]) and x.pre == ""
            if x.k != "id" and (x.s in ASSIGN or wide):
                j = i - 1 if wide else i
                end = j
                while j > 0 and (is_id(ns[j - 1]) or is_t(ns[j - 1], ".") or is_g(ns[j - 1], "[") or ns[j - 1].k == "num" if isinstance(ns[j - 1], Tok) else is_g(ns[j - 1], "[")):
                    j -= 1
                p = ns[j:end]
                if p and not is_t(p[0], "let") and is_id(p[0]) and (j == 0 or not is_t(ns[j - 1], ":")):
                    places.add((p[0].s, ctext([t for t in p if isinstance(t, Tok)])))
    if b is not None:
        go(b.ch)
    loc = {r for r, _ in places if r != "self" and r not in inner}
    return "{" + ",".join(sorted(q for r, q in places if r == "self") + ["_"] * len(loc)) + "}"

def shape(it):
    """The loops (with what they assign), folds and closures of a function, in order, without names."""
    out = []
    def go(ns):
        for i, x in enumerate(ns):
            if isinstance(x, Grp):
                go(x.ch)
                continue
            if x.k != "id" and x.s not in ("|", "||"):
                continue
            if x.s == "for" and not (i + 1 < len(ns) and is_t(ns[i + 1], "<")):
                k = next((q for q in range(i, len(ns)) if is_t(ns[q], "in")), i)
                e = []
                while k < len(ns) and not is_g(ns[k], "{"):
                    e.append(ns[k])
                    k += 1
                out.append("for " + ".".join(sorted(t.s for t in walk(e) if is_id(t) and t.s not in ("in", "self"))) + writes(ns, k))
            elif x.s in ("while", "loop"):
                out.append(x.s + writes(ns, i))
            elif x.s in ("|", "||") and (i == 0 or isinstance(ns[i - 1], Tok) and ns[i - 1].s in (",", "=", "=>", ";", "return", "(", "&", "move")):
                out.append("closure")
            elif i > 0 and is_t(ns[i - 1], ".") and i + 1 < len(ns) and is_g(ns[i + 1], "(") and x.s in ("fold", "map", "filter", "filter_map", "try_fold", "for_each", "all", "any", "position", "take_while", "find", "sum"):
                out.append("." + x.s)
    if it.body is not None:
        go(it.body.ch)
    return out

# operations on texts and iterators whose contracts say what they do, but for which few lemmas are at hand
FEW_LEMMAS = {"strip_prefix", "strip_suffix", "split", "split_whitespace", "trim", "find", "rfind", "split_once", "rsplit_once", "trim_end", "trim_start",
              "trim_end_matches", "trim_start_matches", "trim_matches", "char_indices", "is_char_boundary", "split_ascii_whitespace", "to_lowercase",
              "to_ascii_lowercase", "to_ascii_uppercase", "chars", "bytes", "filter", "step_by", "skip_while", "take_while", "chunks", "chunks_exact", "windows",
              "rposition", "position", "rev", "rotate_left", "rotate_right", "swap_bytes", "to_le_bytes", "from_le_bytes", "reverse", "join", "concat", "repeat"}

KEYWORDS = {"return", "in", "match", "if", "else", "let", "mut", "ref", "as", "while", "move", "break", "dyn", "impl", "for", "where"}

def bit_op(ns, i):
    """The operator on the bits of a number that stands at i: linear arithmetic says little about those."""
    x, p, n = ns[i], ns[i - 1] if i > 0 else None, ns[i + 1] if i + 1 < len(ns) else None
    if x.s in ("^", "^="):
        return "^"
    if x.s in ("<", ">") and isinstance(n, Tok) and not n.pre:
        q = ns[i + 2] if i + 2 < len(ns) else None
        if n.s == x.s + "=" or n.s == x.s and isinstance(q, Tok) and q.k in ("num", "id"):
            return x.s * 2
    if x.s in ("&", "&=") and (isinstance(p, Grp) and p.d != "{" or isinstance(p, Tok) and (p.k == "num" or p.k == "id" and p.s not in KEYWORDS)):
        return "&"
    if x.s == "as" and isinstance(n, Tok) and n.s in ("i8", "i16", "i32", "i64", "i128", "isize"):
        return "as " + n.s
    return None

def ops(it):
    """The operations of that kind a function uses."""
    out = set()
    text = "str" in typesig(it) or "String" in typesig(it)
    def go(ns):
        for i, x in enumerate(ns):
            if isinstance(x, Grp):
                if text and x.d == "[" and i > 0 and any(isinstance(t, Tok) and t.s in ("..", "..=") for t in x.ch):
                    out.add("[..]")
                go(x.ch)
            elif x.s in FEW_LEMMAS and i > 0 and isinstance(ns[i - 1], Tok) and ns[i - 1].s in (".", "::"):
                out.add(x.s)
            else:
                b = bit_op(ns, i)
                if b:
                    out.add(b)
    if it.body is not None:
        go(it.body.ch)
    return sorted(out)

def sig(it):
    return ctext(it.params.ch) + "->" + ctext(it.ret)

def typesig(it):
    """Parameter types and result, without the parameter names."""
    out = []
    for p in split_commas(it.params.ch):
        k = next((q for q, t in enumerate(p) if is_t(t, ":")), None)
        out.append(ctext(p if k is None else p[k + 1:]))
    return ",".join(out) + "->" + ctext(it.ret)

def describe(ex, items):
    d = {"structs": {}, "fns": {}}
    for n, it in ex.structs.items():
        f = fields(it)
        if f:
            d["structs"][n] = f
    for it, impl in fns_of(items):
        k = ex.key_of(it, impl)
        d["fns"][k] = {"sig": typesig(it), "locals": locals_of(it), "shape": shape(it), "ops": ops(it),
                       "hash": hashlib.sha256((sig(it) + ctext([it.body] if it.body is not None else [])).encode()).hexdigest()[:16]}
    return d

def rename_in(ns, old, new):
    """Rename the identifier `old` to `new` where it stands for a variable."""
    i = 0
    while i < len(ns):
        x = ns[i]
        if isinstance(x, Grp):
            rename_in(x.ch, old, new)
        elif is_t(x, old) and x.k == "id":
            p = ns[i - 1] if i > 0 else None
            n = ns[i + 1] if i + 1 < len(ns) else None
            if not (p is not None and is_t(p, ".")) and not (n is not None and (is_t(n, "::") or is_t(n, "!") or is_t(n, ":") and p is not None and is_t(p, ","))):
                x.s = new
        i += 1

def rename_field(struct, allns, sname, new, old):
    """Rename a struct's field where it stands for a field."""
    def lit(g):
        k = 0
        while k < len(g):
            x = g[k]
            first = k == 0 or is_t(g[k - 1], ",")
            if first and isinstance(x, Tok) and x.k == "id" and x.s in ("ref", "mut"):
                k += 1
                g_first = True
                x = g[k] if k < len(g) else None
                first = False
            if first and isinstance(x, Tok) and x.k == "id" and x.s == new:
                nx = g[k + 1] if k + 1 < len(g) else None
                if nx is not None and is_t(nx, ":"):
                    x.s = old
                elif nx is None or is_t(nx, ","):
                    g[k:k + 1] = [Tok("id", old, x.pre, x.line, x.file), Tok("p", ":", "", x.line, x.file), Tok("id", new, " ", x.line, x.file)]
                    k += 2
            k += 1
    def go(ns):
        for i, x in enumerate(ns):
            if isinstance(x, Grp):
                p = ns[i - 1] if i > 0 else None
                if x.d == "{" and p is not None and isinstance(p, Tok) and p.k == "id" and p.s in (sname, "Self"):
                    lit(x.ch)
                go(x.ch)
            elif x.k == "id" and x.s == new and i > 0 and is_t(ns[i - 1], ".") and not (i + 1 < len(ns) and (is_g(ns[i + 1], "(") or is_t(ns[i + 1], "::"))):
                x.s = old
    for ns in allns:
        go(ns)
    if struct.body is not None:
        for i, x in enumerate(struct.body.ch):
            if isinstance(x, Tok) and x.k == "id" and x.s == new and i + 1 < len(struct.body.ch) and is_t(struct.body.ch[i + 1], ":"):
                x.s = old

# ------------------------------------------------------------------ forms of the same loop or pattern

def canon(ns):
    """Rewrite `loop { if c { break; } .. }` and `for i in 0..v.len() { .. v[i] .. }` to the forms contracts are written for,
    `Some(&x)` patterns to a plain binding and a copy (the verifier has no reference patterns)."""
    i = 0
    while i < len(ns):
        x = ns[i]
        if isinstance(x, Grp):
            canon(x.ch)
            i += 1
            continue
        def T(s_, k=None, L=x):
            return Tok(k or ("id" if re.match(r"[A-Za-z_]", s_) else "p"), s_, " ", L.line, L.file)
        if is_t(x, "loop") and i + 1 < len(ns) and is_g(ns[i + 1], "{"):
            b = ns[i + 1].ch
            if len(b) > 3 and is_t(b[0], "if") and not is_t(b[1], "let"):
                k = next((q for q in range(1, len(b)) if is_g(b[q], "{")), None)
                if k is not None and [t.s for t in b[k].ch if isinstance(t, Tok)] in (["break"], ["break", ";"]) and len(b[k].ch) <= 2 and not (k + 1 < len(b) and is_t(b[k + 1], "else")):
                    rest = b[k + 1:]
                    if not any(isinstance(t, Tok) and t.s == "break" and t.k == "id" for t in walk(rest)):
                        cond = b[1:k]
                        x.s = "while"
                        ns[i + 1].ch = rest
                        ns[i + 1:i + 1] = [T("!"), Grp("(", T("("), cond, T(")"))]
        elif is_t(x, "for") and i + 4 < len(ns) and is_id(ns[i + 1]) and is_t(ns[i + 2], "in"):
            k = next((q for q in range(i, len(ns)) if is_g(ns[q], "{")), None)
            e = ns[i + 3:k] if k is not None else []
            # 0 .. place . len ()
            if len(e) >= 5 and e[0].k == "num" and e[0].s in ("0", "0usize") if e and isinstance(e[0], Tok) else False:
                if is_t(e[1], "..") and is_g(e[-1], "(") and not e[-1].ch and is_t(e[-2], "len") and is_t(e[-3], "."):
                    pl = e[2:-3]
                    if pl and all(isinstance(t, Tok) and (t.k == "id" or t.s == ".") for t in pl):
                        v, body, ok = ns[i + 1].s, ns[k], True
                        want = ctext(pl)
                        hits = []
                        def scan(g):
                            nonlocal ok
                            q = 0
                            while q < len(g):
                                y = g[q]
                                if isinstance(y, Grp):
                                    if y.d == "[" and len(y.ch) == 1 and is_t(y.ch[0], v) and q >= len(pl) and ctext(g[q - len(pl):q]) == want \
                                            and not (q > len(pl) and is_t(g[q - len(pl) - 1], ".")):
                                        nx = g[q + 1] if q + 1 < len(g) else None
                                        pv = g[q - len(pl) - 1] if q > len(pl) else None
                                        if nx is not None and isinstance(nx, Tok) and nx.s in ("=", "+=", "|=", "&=", "^=", "-=", "<<=", ">>=") or is_t(pv, "mut") if pv is not None else False:
                                            ok = False
                                        hits.append((g, q))
                                    else:
                                        scan(y.ch)
                                q += 1
                        scan(body.ch)
                        uses = sum(1 for t in walk(body.ch) if isinstance(t, Tok) and t.k == "id" and t.s == v)
                        roots = sum(1 for t in walk(body.ch) if isinstance(t, Tok) and t.k == "id" and t.s == pl[-1].s)
                        if ok and hits and uses == len(hits) and roots == len(hits):
                            for g, q in reversed(hits):
                                g[q - len(pl):q + 1] = [Grp("(", T("("), [T("*"), T(v)], T(")"))]
                            ns[i + 3:k] = pl + [T("."), T("iter"), Grp("(", T("("), [], T(")"))]
        elif is_t(x, "=>") and i > 1:
            # an arm whose pattern binds through a reference
            g = ns[i - 1]
            if is_g(g, "(") and is_id(ns[i - 2]) and len(g.ch) == 2 and is_t(g.ch[0], "&") and is_id(g.ch[1]):
                v = g.ch[1].s
                k = i + 1
                if k < len(ns) and is_g(ns[k], "{"):
                    body, e = ns[k].ch, k + 1
                else:
                    e = next((q for q in range(k, len(ns)) if is_t(ns[q], ",")), len(ns))
                    body = ns[k:e]
                g.ch = [T("vx_r_" + v)]
                ns[k:e] = [Grp("{", T("{"), [T("let"), T(v), T("="), T("*"), T("vx_r_" + v), T(";")] + body, T("}"))]
        elif is_t(x, "let") and i > 0 and (is_t(ns[i - 1], "if") or is_t(ns[i - 1], "while")) and i + 3 < len(ns) and is_id(ns[i + 1]) and is_g(ns[i + 2], "(") and is_t(ns[i + 3], "="):
            g = ns[i + 2]
            k = next((q for q in range(i, len(ns)) if is_g(ns[q], "{")), None)
            if k is not None and len(g.ch) == 2 and is_t(g.ch[0], "&") and is_id(g.ch[1]):
                v = g.ch[1].s
                g.ch = [T("vx_r_" + v)]
                ns[k].ch = [T("let"), T(v), T("="), T("*"), T("vx_r_" + v), T(";")] + ns[k].ch
        i += 1

def align(ex, items, base, notes):
    contracts = ex.fns
    # struct fields
    allns = list(item_nodes(items))
    for n, it in ex.structs.items():
        f, b = fields(it), base["structs"].get(n)
        if not f or not b or f == b or [t for _, t in f] != [t for _, t in b]:
            continue
        for (new, _), (old, _) in zip(f, b):
            if new == old or old in [a for a, _ in f]:
                continue
            others = [fields(o) for m, o in ex.structs.items() if m != n]
            if any(o and new in [a for a, _ in o] for o in others):
                continue
            rename_field(ex.structs[n], allns, n, new, old)
            notes.append("field %s.%s aligned to %s" % (n, new, old))
    # private functions
    have = {}
    for it, impl in fns_of(items):
        have[ex.key_of(it, impl)] = (it, impl)
    gone = [k for k in contracts if k not in have and k in base["fns"] and not k.startswith("<")]
    new = [k for k in have if k not in contracts and k not in base["fns"] and not k.startswith("<")]
    for k in gone:
        own = k.rpartition("::")[0]
        cand = [j for j in new if j.rpartition("::")[0] == own and typesig(have[j][0]) == base["fns"][k]["sig"]]
        if len(cand) != 1 or have[cand[0]][0].vis and len(have[cand[0]][0].vis) == 1 and False:
            continue
        o, m = k.split("::")[-1], cand[0].split("::")[-1]
        if any(o in idents(ns) for ns in allns):
            continue
        have[cand[0]][0].name = o
        for ns in allns:
            for x in walk(ns):
                if isinstance(x, Tok) and x.k == "id" and x.s == m:
                    x.s = o
        notes.append("function %s aligned to %s" % (cand[0], k))
        new.remove(cand[0])
    inline(ex, items, base, notes)
    for it, impl in fns_of(items):
        k = ex.key_of(it, impl)
        b = base["fns"].get(k)
        if it.body is not None and (b is None or ex.current["fns"].get(k, {}).get("hash") != b["hash"]):
            canon(it.body.ch)
    # locals the contracts speak about
    for it, impl in fns_of(items):
        k = ex.key_of(it, impl)
        c, b = contracts.get(k), base["fns"].get(k)
        if c is None or b is None or it.body is None:
            continue
        l = locals_of(it)
        if len(l) != len(b["locals"]) or l == b["locals"]:
            continue
        words = set(re.findall(r"\w+", c.pre + c.post + " ".join(t for t, _ in c.loops.values()) + " ".join(c.lsec.values()) + " ".join(t for _, t, _ in c.closures.values())))
        m = {}
        ok = True
        for a, o in zip(l, b["locals"]):
            ok = ok and m.setdefault(a, o) == o
        ids = idents([it.body, it.params])
        for a, o in m.items():
            if ok and a != o and o in words and o not in ids:
                rename_in(it.body.ch, a, o)
                notes.append("local %s of %s aligned to %s" % (a, k, o))
    for it, impl in fns_of(items):
        k = ex.key_of(it, impl)
        if k in ex.current["fns"]:
            ex.current["fns"][k]["shape"] = shape(it)
            ex.current["fns"][k]["ops"] = ops(it)

# ------------------------------------------------------------------ new helpers

STD_METHODS = {"contains", "len", "is_empty", "iter", "get", "push", "pop", "insert", "clone", "as_ref", "as_str", "to_string", "to_vec", "into", "from", "next", "first", "last", "find",
               "split", "join", "concat", "fill", "update", "finalize", "write", "read", "encode", "decode", "index", "take", "replace", "extend", "truncate", "parse", "count", "min", "max",
               "as_bytes", "as_slice", "starts_with", "ends_with", "position", "any", "all", "map", "filter", "collect", "fold", "sum", "rev", "zip", "chain", "skip", "eq", "cmp", "fmt"}

class Helper:
    pass

def tail_only(body):
    return not any(isinstance(x, Tok) and (x.s == "return" and x.k == "id" or x.s == "?") for x in walk(body.ch))

def inline(ex, items, base, notes):
    hs = {}
    for it, impl in fns_of(items):
        k = ex.key_of(it, impl)
        if k in ex.fns or k in base["fns"] or k.startswith("<") or it.body is None or impl is not None and impl.kind == "trait":
            continue
        h = Helper()
        h.key, h.it, h.impl, h.self = k, it, impl, None
        h.ps = []
        ok = True
        for q, p in enumerate(split_commas(it.params.ch)):
            if q == 0 and any(is_t(t, "self") for t in p) and not any(is_t(t, ":") for t in p):
                h.self = ctext(p)
                continue
            c = next((z for z, t in enumerate(p) if is_t(t, ":")), None)
            if c is None:
                ok = False
                break
            h.ps.append((p[:c], p[c + 1:]))
        h.plain = tail_only(it.body)
        h.gen = {t.s for t in it.generics if isinstance(t, Tok) and t.k in ("id", "life")}
        if ok and it.name not in idents([it.body]):
            # unique by name
            hs[it.name] = None if it.name in hs else h
    hs = {n: h for n, h in hs.items() if h is not None}
    if not hs:
        return
    for rnd in range(4):
        done = 0
        for it, impl in list(fns_of(items)):
            if it.body is not None and (it.name not in hs or rnd < 3):
                own = ex.short_ty(impl.self_ty) if impl is not None and impl.kind == "impl" else None
                done += put(it.body.ch, hs, it, own, ex, True)
        if not done:
            break
        notes.append("%d calls of new functions without a contract replaced by their bodies" % done)
    # a private helper that nothing names any more is not emitted
    for n, h in hs.items():
        if h.it.vis is None or len(h.it.vis) > 1:
            if not any(n in idents(ns) for ns in ([it.body] for it, impl in fns_of(items) if it.body is not None)):
                ex.inlined[h.key] = True

def retty(it):
    return ctext(it.ret)

def put(ns, hs, caller, own, ex, tailpos):
    n, i = 0, 0
    while i < len(ns):
        x = ns[i]
        if isinstance(x, Grp):
            nt = tailpos and i == len(ns) - 1 and x.d == "{"
            n += put(x.ch, hs, caller, own, ex, nt)
            i += 1
            continue
        if not (x.k == "id" and x.s in hs and i + 1 < len(ns) and is_g(ns[i + 1], "(")) or (i > 0 and is_t(ns[i - 1], "fn")):
            i += 1
            continue
        h, args = hs[x.s], ns[i + 1]
        if h.it is caller:
            i += 1
            continue
        n += put(args.ch, hs, caller, own, ex, False)
        s, recv = i, None
        if i > 0 and is_t(ns[i - 1], "."):
            import extract
            if h.self is None or (x.s in extract.RENAME or x.s in STD_METHODS) and not (i == 2 and is_t(ns[0], "self") or i > 2 and is_t(ns[i - 2], "self") and not is_t(ns[i - 3], ".")):
                i += 1
                continue
            s = extract.recv_start(ns, i - 1)
            recv = ns[s:i - 1]
        else:
            while s >= 2 and is_t(ns[s - 1], "::") and is_id(ns[s - 2]):
                s -= 2
            if s > 0 and is_t(ns[s - 1], "::") or h.self is not None:
                i += 1
                continue
        q = i + 2 < len(ns) and is_t(ns[i + 2], "?")
        tail = tailpos and i + 2 == len(ns) and (s == 0 or is_t(ns[s - 1], ";") or isinstance(ns[s - 1], Grp))
        if not h.plain:
            rets = [1 for t in walk(h.it.body.ch) if isinstance(t, Tok) and t.k == "id" and t.s == "return"]
            same = retty(h.it) == retty(caller)
            errs = err_type(retty(h.it)) == err_type(retty(caller)) and err_type(retty(h.it)) is not None and \
                (h.it.file == caller.file or err_type(retty(h.it)) not in ("", "Self"))
            if not (tail and same or q and errs and (not rets or only_err_returns(h.it.body.ch))):
                i += 1
                continue
        # a closure around the call would catch the early exits
        body = h.it.body.copy()
        L = x
        def T(s_, k=None):
            return Tok(k or ("id" if re.match(r"[A-Za-z_]", s_) else "p"), s_, " ", L.line, L.file)
        out = []
        av = split_plain_args(args.ch)
        if len(av) != len(h.ps):
            i += 1
            continue
        ex.counter += 1
        u = ex.counter
        for a, arg in enumerate(av):
            ty = h.ps[a][1]
            if len(arg) == 1 and is_id(arg[0]) and len(ty) > 1 and is_t(ty[0], "&") and any(is_t(t, "mut") for t in ty[1:3]) and arg[0].s != "self":
                # the call would borrow again, not move
                arg = [T("&"), T("mut"), T("*")] + arg
            out += [T("let"), T("vx_h%d_%d" % (u, a)), T("=")] + arg + [T(";")]
        if recv is not None:
            if ctext(recv) != "self":
                pre = {"&self": [T("&")], "&mutself": [T("&"), T("mut")], "self": [], "mutself": []}.get(h.self)
                if pre is None:
                    i += 1
                    continue
                v = "vx_h%d_self" % u
                out = [T("let"), T(v), T("=")] + pre + recv + [T(";")] + out
                for t in walk(body.ch):
                    if isinstance(t, Tok) and t.k == "id" and t.s == "self":
                        t.s = v
        unself = None
        if h.impl is not None and h.impl.kind == "impl":
            o2 = ex.short_ty(h.impl.self_ty)
            if o2 != own and "Self" in idents(body.ch):
                # in another type's function `Self` is spelt out, where it is a plain name
                if h.impl.generics or len(h.impl.self_ty) != 1 or not is_id(h.impl.self_ty[0]):
                    i += 1
                    continue
                unself = h.impl.self_ty[0].s
                for t in walk(body.ch):
                    if isinstance(t, Tok) and t.k == "id" and t.s == "Self":
                        t.s = unself
        ps = [([t.copy() for t in pat], [t.copy() for t in ty]) for pat, ty in h.ps]
        if unself:
            for pat, ty in ps:
                for t in walk(pat + ty):
                    if isinstance(t, Tok) and t.k == "id" and t.s == "Self":
                        t.s = unself
        for a, (pat, ty) in enumerate(ps):
            out += [T("let")] + [t.copy() for t in pat]
            lif = any(isinstance(t, Tok) and (t.k == "life" or t.s in h.gen or t.s == "impl") for t in walk(ty))
            # a plain path from another file may not be in scope here, and asks for no coercion
            far = h.it.file != caller.file and not any(is_t(t, "&") or is_g(t, "[") for t in walk(ty))
            if not lif and not far:
                out += [T(":")] + [t.copy() for t in ty]
            out += [T("="), T("vx_h%d_%d" % (u, a)), T(";")]
        for t in out:
            (t.op if isinstance(t, Grp) else t).pre = " "
        ret = [z.copy() for z in h.it.ret]
        if ret and isinstance(ret[0], Tok) and ret[0].s == "->":
            ret = ret[1:]
        if unself:
            for z in walk(ret):
                if isinstance(z, Tok) and z.k == "id" and z.s == "Self":
                    z.s = unself
        bad = any(isinstance(z, Tok) and (z.k == "life" or z.s in h.gen or z.s in ("impl", "dyn", "Self")) for z in walk(ret))
        if ret and not bad and h.it.file == caller.file and not tail:
            # the type the call had
            (ret[0].op if isinstance(ret[0], Grp) else ret[0]).pre = " "
            inner = Grp("{", T("{"), body.ch, T("}"))
            blk = Grp("{", T("{"), out + [T("let"), T("vx_h%d" % u), T(":")] + ret + [T("="), inner, T(";"), T("vx_h%d" % u)], T("}"))
        else:
            blk = Grp("{", T("{"), out + body.ch, T("}"))
        new = Grp("(", T("("), [blk], T(")"))
        ns[s:i + 2] = [new]
        n += 1
        i = s + 1
    return n

def err_type(t):
    """What leaves through `?`: the error type of a Result ("" for an alias' own), None's for an Option."""
    if t.startswith("Option<"):
        return "None"
    m = re.match(r"[\w:]*Result<(.*)>$", t)
    if not m:
        return None
    d, last = 0, -1
    for i, c in enumerate(m.group(1)):
        d += c in "<([" 
        d -= c in ">)]" and not (c == ">" and m.group(1)[i - 1:i] == "-")
        if c == "," and d == 0:
            last = i
    return m.group(1)[last + 1:] if last >= 0 else ""

def only_err_returns(ns):
    for i, x in enumerate(ns):
        if isinstance(x, Grp):
            if not only_err_returns(x.ch):
                return False
        elif x.k == "id" and x.s == "return" and not (i + 1 < len(ns) and (is_t(ns[i + 1], "Err") or is_t(ns[i + 1], "None"))):
            return False
    return True

def split_plain_args(ch):
    out, cur, i = [], [], 0
    bars = 0
    for x in ch:
        if is_t(x, "|"):
            bars ^= 1
        if is_t(x, ",") and not bars:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out
