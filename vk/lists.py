"""The official BIP39 lists (spec fn `official`); the ground facts assumed about them are evaluated by `kms-harness facts`."""
import hashlib, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(HERE, "..", "harness", "lists")
# SHA-256 of english.txt and chinese_simplified.txt as published in the BIP39 repository
NAMES = [("english", "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"),
         ("chinese_simplified", "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726")]


# the characters with the Unicode property White_Space, which char::is_whitespace tests
WS = "".join(map(chr, [9, 10, 11, 12, 13, 0x20, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]))


def split_ws(t):
    return [w for w in re.split("[" + WS + "]", t) if w]


def official():
    out = []
    for n, h in NAMES:
        b = open(os.path.join(DIR, n + ".txt"), "rb").read()
        if hashlib.sha256(b).hexdigest() != h:
            raise RuntimeError("reference list %s is not the published one" % n)
        out.append(split_ws(b.decode("utf-8")))
    return out


def words_of(path):
    return split_ws(open(path, "rb").read().decode("utf-8"))


def file_fact(ident, path):
    """The proposition about this file that evaluation establishes on this run ('' if none)."""
    try:
        ws = words_of(path)
    except Exception:
        return ""
    for k, l in enumerate(official()):
        if ws == l:
            return f", split_ws(txt_{ident}()) == official({k})"
    return f", split_ws(txt_{ident}()).len() == {len(ws)}"
