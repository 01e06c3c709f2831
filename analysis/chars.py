"""Tests of single characters, evaluated on sample characters."""
import unicodedata

from facts import ToolError
from interp import Interp, mk

STD = {
    "is_whitespace": lambda c: c in "\t\n\x0b\x0c\r \x85\xa0     　" or " " <= c <= " ",
    "is_ascii_whitespace": lambda c: c in "\t\n\x0c\r ",
    "is_ascii_digit": lambda c: c in "0123456789",
    "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
    "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(),
    "is_ascii_lowercase": lambda c: c.isascii() and c.islower(),
    "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
    "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
    "is_ascii": lambda c: c.isascii(),
    "is_numeric": lambda c: unicodedata.category(c)[0] == "N",
    "is_alphabetic": lambda c: c.isalpha(),
    "is_alphanumeric": lambda c: c.isalpha() or unicodedata.category(c)[0] == "N",
    "is_uppercase": lambda c: c.isupper(),
    "is_lowercase": lambda c: c.islower(),
    "is_control": lambda c: unicodedata.category(c) == "Cc",
    "is_ascii_control": lambda c: c.isascii() and unicodedata.category(c) == "Cc",
}
_CACHE = {}


def char_value(v):
    if v.k == "k":
        x = v.t[1]
        if isinstance(x, tuple) and x[0] == "char":
            return x[1]
        if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 0x80:
            return chr(x)
    return None


def std(base, args):
    """The result of a standard test on a constant character or byte, or None."""
    m = base.rsplit("::", 1)[-1]
    if m in STD and (base.startswith("<char>") or base.startswith("<u8>") or "char::methods" in base):
        v = args[0]
        while v.k in ("refv", "deref"):
            v = v.t[1]
        c = char_value(v)
        if c is not None:
            return mk("k", bool(STD[m](c)))
    return None


def table(prog, pred, chars, env=None):
    """{character: bool or None} for a function, closure, set of characters or single character used as a pattern."""
    v = pred
    while v.k in ("refv", "deref"):
        v = v.t[1]
    if v.k == "tup" and v.t[1] and all(char_value(x) is not None for x in v.t[1]):
        have = {char_value(x) for x in v.t[1]}
        return {c: c in have for c in chars}
    if char_value(v) is not None:
        return {c: c == char_value(v) for c in chars}
    target = None
    if v.k == "fn":
        name = v.t[1].c.get("res") or v.t[1].c["fn"]
        m = name.rsplit("::", 1)[-1]
        if m in STD and not prog.get(name):
            return {c: bool(STD[m](c)) for c in chars}
        target = prog.get(name)
    elif v.k == "clos":
        target = prog.fns.get(v.t[1])
    if target is None or prog.local_ty(target, target.argc)["s"] not in ("char", "&char"):
        return None
    key = (id(prog), v, tuple(chars))
    if key in _CACHE:
        return _CACHE[key]
    out = {}

    def hook(it, st, t, name, c, args):
        r = std(c["fn"], [it.strip(st, a) for a in args]) if args else None
        return it.finish(st, t, r) if r is not None else None

    byref = prog.local_ty(target, target.argc)["s"] == "&char"
    for ch in chars:
        it = Interp(prog, hook=hook, opaque=lambda f: False, max_states=3000, explore_closures=False)
        it.pure = lambda n: True
        arg = mk("k", ("char", ch))
        args = [mk("refv", v)] * (target.argc - 1) + [mk("refv", arg) if byref else arg]
        try:
            vals = {it.strip(e.state, e.value) for e in it.run(target, args=args) if e.kind == "ret"}
        except ToolError:
            vals = set()
        out[ch] = next(iter(vals)).t[1] if len(vals) == 1 and next(iter(vals)).k == "k" else None
    _CACHE[key] = out
    return out
