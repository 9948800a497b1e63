"""Lexer, token tree and item parser for the subset of Rust the extractor needs.

Nothing here knows about uduncloud/kms or Verus; it turns source text into token
trees and items and back into text, keeping the source file and line of every token.
"""
import re

class Unsupported(Exception):
    pass

class Tok:
    __slots__ = ("k", "s", "pre", "line", "file")
    def __init__(self, k, s, pre="", line=0, file=None):
        self.k, self.s, self.pre, self.line, self.file = k, s, pre, line, file
    def __repr__(self):
        return f"<{self.s}>"
    def copy(self):
        return Tok(self.k, self.s, self.pre, self.line, self.file)

class Grp:
    __slots__ = ("d", "op", "ch", "cl")
    def __init__(self, d, op, ch, cl):
        self.d, self.op, self.ch, self.cl = d, op, ch, cl
    def __repr__(self):
        return self.d + repr(self.ch)
    @property
    def line(self):
        return self.op.line
    @property
    def file(self):
        return self.op.file
    @property
    def pre(self):
        return self.op.pre
    def copy(self):
        return Grp(self.d, self.op.copy(), [c.copy() for c in self.ch], self.cl.copy())

PUNCT = ["..=", "...", "->", "=>", "::", "..", "==", "!=", "<=", ">=", "&&", "||",
         "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|="]
ID = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+(?:[iu](?:8|16|32|64|128|size))?"
                 r"|0o[0-7_]+(?:[iu](?:8|16|32|64|128|size))?"
                 r"|[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?")
LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*(?!')")
CHAR = re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", re.S)
STR = re.compile(r'b?c?"(?:\\.|[^"\\])*"', re.S)
RAW = re.compile(r'b?r(#*)"')

def lex(src, file):
    i, n, line = 0, len(src), 1
    out, pre = [], ""
    while i < n:
        c = src[i]
        if c.isspace():
            pre += c
            if c == "\n":
                line += 1
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth += 1; j += 2
                elif src.startswith("*/", j):
                    depth -= 1; j += 2
                else:
                    j += 1
            nl = src.count("\n", i, j)
            pre += "\n" * nl or " "
            line += nl
            i = j
            continue
        m = RAW.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.index(end, m.end()) + len(end)
            k = "str"
        else:
            m = STR.match(src, i)
            if m:
                j, k = m.end(), "str"
            else:
                m = CHAR.match(src, i)
                if m:
                    j, k = m.end(), "char"
                else:
                    m = LIFE.match(src, i)
                    if m:
                        j, k = m.end(), "life"
                    else:
                        m = ID.match(src, i)
                        if m:
                            j, k = m.end(), "id"
                        else:
                            m = NUM.match(src, i)
                            if m:
                                j, k = m.end(), "num"
                            else:
                                for p in PUNCT:
                                    if src.startswith(p, i):
                                        j, k = i + len(p), "p"
                                        break
                                else:
                                    j, k = i + 1, "p"
        s = src[i:j]
        # tuple field access `.0.1` is lexed as a float: split it
        if k == "num" and out and out[-1].s == "." and "." in s:
            s = s.split(".")[0]
            j = i + len(s)
        out.append(Tok(k, s, pre, line, file))
        pre = ""
        line += s.count("\n")
        i = j
    return out, pre

def tree(toks):
    stack, cur = [], []
    close = {"(": ")", "[": "]", "{": "}"}
    for t in toks:
        if t.k == "p" and t.s in close:
            stack.append((t, cur))
            cur = []
        elif t.k == "p" and t.s in ")]}":
            if not stack:
                raise Unsupported(f"unbalanced {t.s} at {t.file}:{t.line}")
            op, prev = stack.pop()
            if close[op.s] != t.s:
                raise Unsupported(f"unbalanced {t.s} at {t.file}:{t.line}")
            prev.append(Grp(op.s, op, cur, t))
            cur = prev
        else:
            cur.append(t)
    if stack:
        raise Unsupported("unbalanced delimiters")
    return cur

def parse(src, file="<text>"):
    toks, _ = lex(src, file)
    return tree(toks)

def text(nodes):
    out = []
    def go(ns):
        for x in ns:
            if isinstance(x, Grp):
                out.append(x.op.pre + x.op.s)
                go(x.ch)
                out.append(x.cl.pre + x.cl.s)
            else:
                out.append(x.pre + x.s)
    go(nodes)
    return "".join(out)

def ctext(nodes):
    """Canonical compact text: tokens joined, space only between word-like tokens."""
    out = ""
    def go(ns):
        nonlocal out
        for x in ns:
            if isinstance(x, Grp):
                out += x.d
                go(x.ch)
                out += x.cl.s
            else:
                if out and (out[-1].isalnum() or out[-1] == "_") and (x.s[0].isalnum() or x.s[0] in "_'"):
                    out += " "
                out += x.s
    go(nodes)
    return out

def is_t(x, s):
    return isinstance(x, Tok) and x.s == s and x.k != "str"

def is_g(x, d):
    return isinstance(x, Grp) and x.d == d

def is_id(x):
    return isinstance(x, Tok) and x.k == "id"

class Item:
    def __init__(self, **kw):
        self.attrs, self.vis, self.kind, self.name = [], None, None, None
        self.__dict__.update(kw)

def cfg_true(nodes, features):
    """Evaluate the predicate inside cfg(...)."""
    parts = split_commas(nodes)
    vals = [cfg_one(p, features) for p in parts if p]
    return all(vals)

def cfg_one(p, features):
    if is_id(p[0]) and len(p) == 1:
        n = p[0].s
        return {"test": False, "debug_assertions": True, "unix": True}.get(n, False)
    if is_id(p[0]) and len(p) == 2 and is_g(p[1], "("):
        subs = [cfg_one(q, features) for q in split_commas(p[1].ch) if q]
        return {"all": all(subs), "any": any(subs), "not": not (subs and subs[0])}[p[0].s]
    if len(p) == 3 and is_t(p[1], "="):
        v = p[2].s.strip('"')
        if p[0].s == "feature":
            return v in features
        return {"target_arch": "x86_64", "target_os": "linux"}.get(p[0].s) == v
    raise Unsupported("cfg " + ctext(p))

def split_commas(nodes, sep=","):
    out, cur, ang = [], [], 0
    for i, x in enumerate(nodes):
        if is_t(x, "<"):
            ang += 1
        elif is_t(x, ">") and ang > 0:
            ang -= 1
        if is_t(x, sep) and ang == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out

def split_plain(nodes, sep=","):
    out, cur = [], []
    for x in nodes:
        if is_t(x, sep):
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append(cur)
    return out

def take_attrs(ns, i):
    attrs = []
    while i < len(ns) and is_t(ns[i], "#"):
        if i + 1 < len(ns) and is_g(ns[i + 1], "["):
            attrs.append(ns[i + 1]); i += 2
        elif i + 2 < len(ns) and is_t(ns[i + 1], "!") and is_g(ns[i + 2], "["):
            i += 3
        else:
            break
    return attrs, i

def attrs_enabled(attrs, features):
    for a in attrs:
        if a.ch and is_t(a.ch[0], "cfg"):
            if not cfg_true(a.ch[1].ch, features):
                return False
    return True

def take_generics(ns, i):
    """ns[i] is `<`: return (tokens including brackets, next index)."""
    depth, j = 0, i
    while j < len(ns):
        if is_t(ns[j], "<"):
            depth += 1
        elif is_t(ns[j], ">"):
            depth -= 1
            if depth == 0:
                return ns[i:j + 1], j + 1
        j += 1
    raise Unsupported("generics")

def until(ns, i, pred):
    j = i
    while j < len(ns) and not pred(ns[j]):
        j += 1
    return ns[i:j], j

def parse_fn(ns, i, it):
    it.kind = "fn"
    it.name = ns[i].s
    it.line = ns[i].line
    it.file = ns[i].file
    i += 1
    it.generics = []
    if is_t(ns[i], "<"):
        it.generics, i = take_generics(ns, i)
    it.params = ns[i]
    i += 1
    it.ret = []
    if i < len(ns) and is_t(ns[i], "->"):
        it.ret, i = until(ns, i + 1, lambda x: is_t(x, "where") or is_t(x, ";") or is_g(x, "{"))
    it.where = []
    if i < len(ns) and is_t(ns[i], "where"):
        it.where, i = until(ns, i, lambda x: is_t(x, ";") or is_g(x, "{"))
    if i < len(ns) and is_g(ns[i], "{"):
        it.body = ns[i]
    else:
        it.body = None
    return it, i + 1

def parse_items(ns, features):
    items, i = [], 0
    while i < len(ns):
        attrs, i = take_attrs(ns, i)
        if i >= len(ns):
            break
        start = i
        it = Item(attrs=attrs)
        if is_t(ns[i], "pub"):
            it.vis = [ns[i]]
            i += 1
            if is_g(ns[i], "(") and ns[i].ch and is_t(ns[i].ch[0], "crate") or is_g(ns[i], "(") and ns[i].ch and ns[i].ch[0].s in ("super", "self", "in"):
                it.vis.append(ns[i])
                i += 1
        quals = []
        while is_id(ns[i]) and ns[i].s in ("unsafe", "async", "extern", "const", "default"):
            if ns[i].s == "const" and not (is_id(ns[i + 1]) and ns[i + 1].s in ("fn", "unsafe", "extern", "async")):
                break
            if ns[i].s == "extern" and is_t(ns[i + 1], "crate"):
                break
            quals.append(ns[i].s)
            i += 1
            if quals[-1] == "extern" and isinstance(ns[i], Tok) and ns[i].k == "str":
                i += 1
        it.quals = quals
        kw = ns[i].s if isinstance(ns[i], Tok) else None
        it.line = ns[i].line
        it.file = ns[i].file
        if kw == "use":
            it.kind = "use"
            it.toks, i = until(ns, i + 1, lambda x: is_t(x, ";"))
            i += 1
        elif kw == "extern":
            it.kind = "extern_crate"
            _, i = until(ns, i, lambda x: is_t(x, ";"))
            i += 1
        elif kw == "mod":
            it.kind = "mod"
            it.name = ns[i + 1].s
            if is_g(ns[i + 2], "{"):
                it.body = ns[i + 2]
            else:
                it.body = None
            i += 3
        elif kw == "fn":
            it, i = parse_fn(ns, i + 1, it)
        elif kw in ("struct", "enum", "union"):
            it.kind = kw
            it.name = ns[i + 1].s
            i += 2
            it.generics = []
            if is_t(ns[i], "<"):
                it.generics, i = take_generics(ns, i)
            it.where = []
            it.body = None
            if is_g(ns[i], "("):
                it.body = ns[i]
                i += 1
                it.where, i = until(ns, i, lambda x: is_t(x, ";"))
                i += 1
            else:
                it.where, i = until(ns, i, lambda x: is_t(x, ";") or is_g(x, "{"))
                if is_g(ns[i], "{"):
                    it.body = ns[i]
                i += 1
        elif kw == "trait":
            it.kind = "trait"
            it.name = ns[i + 1].s
            it.header, i = until(ns, i + 2, lambda x: is_g(x, "{"))
            it.body = ns[i]
            i += 1
        elif kw == "impl":
            it.kind = "impl"
            i += 1
            it.generics = []
            if is_t(ns[i], "<"):
                it.generics, i = take_generics(ns, i)
            hdr, i = until(ns, i, lambda x: is_g(x, "{"))
            it.body = ns[i]
            i += 1
            it.where = []
            for k, x in enumerate(hdr):
                if is_t(x, "where"):
                    it.where = hdr[k:]
                    hdr = hdr[:k]
                    break
            it.trait = None
            ang = 0
            for k, x in enumerate(hdr):
                if is_t(x, "<"):
                    ang += 1
                elif is_t(x, ">"):
                    ang -= 1
                elif is_t(x, "for") and ang == 0:
                    it.trait = hdr[:k]
                    hdr = hdr[k + 1:]
                    break
            it.self_ty = hdr
        elif kw in ("const", "static"):
            it.kind = kw
            i += 1
            if is_t(ns[i], "mut"):
                raise Unsupported("static mut")
            it.name = ns[i].s
            rest, i = until(ns, i + 1, lambda x: is_t(x, ";"))
            i += 1
            k = next((k for k, x in enumerate(rest) if is_t(x, "=")), None)
            it.ty = rest[1:k]
            it.expr = rest[k + 1:] if k is not None else None
        elif kw == "type":
            it.kind = "type"
            it.name = ns[i + 1].s
            it.toks, i = until(ns, i + 1, lambda x: is_t(x, ";"))
            i += 1
        elif kw == "macro_rules":
            it.kind = "macro_rules"
            it.name = ns[i + 2].s
            i += 4
            if i < len(ns) and is_t(ns[i], ";"):
                i += 1
        else:
            raise Unsupported(f"item at {ns[start].file}:{ns[start].line}: {ctext(ns[start:start+6])}")
        if attrs_enabled(attrs, features):
            items.append(it)
    return items
