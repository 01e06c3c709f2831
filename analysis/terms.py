"""Questions about terms shared by the checks."""
from interp import Term, mk

OPTION = "core::option::Option"
RESULT = "core::result::Result"


def walk(v, d=0, limit=14):
    """Every term inside v."""
    yield v
    if d > limit:
        return
    for x in v.t[1:]:
        if isinstance(x, Term):
            yield from walk(x, d + 1, limit)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    yield from walk(y, d + 1, limit)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            yield from walk(z, d + 1, limit)


def has(v, sub):
    return any(x is sub for x in walk(v))


def callees(v):
    """Names of the calls a value comes from."""
    return {x.t[2] for x in walk(v) if x.k == "res"}


def strings(v):
    return {x.t[1] for x in walk(v) if x.k == "k" and isinstance(x.t[1], str)}


def is_some(v):
    return v.k == "adt" and v.t[1] == OPTION and v.t[2] == 1


def is_none(v):
    return v.k == "adt" and v.t[1] == OPTION and v.t[2] == 0


def payload(v, variant=1, i=0):
    if v.k == "adt":
        return v.t[3][i]
    return mk("fld", mk("fld", v, ("v", variant)), ("f", i, str(i)))


def some(v):
    return mk("adt", OPTION, 1, (v,))


NONE = mk("adt", OPTION, 0, ())


def same_option(v, src, facts=None):
    """Whether v equals the option src (given what is known of src)."""
    v = peel(v)
    if v is src:
        return True
    f = (facts or {}).get(mk("discr", src))
    if is_some(v):
        p = peel(v.t[3][0])
        return p is payload(src) and (f is None or f == ("=", 1))
    if is_none(v):
        return f == ("=", 0) or (f is not None and f[0] == "!" and 1 in f[1])
    return False


CLONES = ("core::clone::Clone::clone", "as core::clone::Clone>::clone", "as alloc::borrow::ToOwned>::to_owned", "Option::cloned", "Option::copied")


def peel(v):
    """v without clones and references to values."""
    while True:
        if v.k == "refv":
            v = v.t[1]
        elif v.k == "res" and v.t[2].endswith(CLONES) and len(v.t[3]) == 1:
            v = v.t[3][0]
        elif v.k == "deref" and v.t[1].k == "refv":
            v = v.t[1].t[1]
        else:
            return v


def ok_value(v):
    """(kind, payload) of a Result or Option value: ('ok', x), ('err', x) or (None, v)."""
    if v.k == "adt" and v.t[1] == RESULT:
        return ("ok" if v.t[2] == 0 else "err"), v.t[3][0] if v.t[3] else None
    return None, v


def known(facts, v):
    """The value a term is known to have, or None."""
    if v.k == "k":
        return v.t[1]
    f = facts.get(v)
    if f is None:
        return None
    if f[0] == "=":
        return f[1]
    return None


def option_known(facts, v):
    """Whether an option is Some: True, False or None."""
    v = peel(v)
    if is_some(v):
        return True
    if is_none(v):
        return False
    f = facts.get(mk("discr", v))
    if f is None:
        return None
    if f[0] == "=":
        return f[1] == 1
    if 1 in f[1]:
        return False
    if 0 in f[1]:
        return True
    return None


def str_facts(facts):
    """[(term compared, constant, outcome)] of the string comparisons a path went through."""
    out = []
    for v, f in facts.items():
        if v.k == "res" and "PartialEq" in v.t[2] and f[0] == "=" and len(v.t[3]) == 2:
            a, b = (strip_ref(x) for x in v.t[3])
            if b.k == "k" and isinstance(b.t[1], str):
                out.append((a, b.t[1], f[1]))
            elif a.k == "k" and isinstance(a.t[1], str):
                out.append((b, a.t[1], f[1]))
    return out


def strip_ref(v):
    while v.k == "refv":
        v = v.t[1]
    return v
