"""A02: the history kept in a document is the list of actions that were run."""
import re

from facts import ToolError
from interp import Interp, mk
from terms import walk, some as option_some, NONE, OPTION, RESULT
from J05 import short

TECHNIQUE = "abstract interpretation over MIR: recording an action is followed for every kind of action, and reading back is followed on exactly what recording writes"
EXPLANATION = (
    "For every kind of action, with optional arguments given and left out, writing it into the history is followed on all paths and the name and arguments it writes are collected. "
    "Reading an action is then followed on exactly those: it must give the same kind of action with the same arguments, and must not fail. "
    "Running an action is followed for every kind: on each path on which it succeeds it must be recorded once, as it was given. "
    "The conversions for the JavaScript binding must keep kind and arguments both ways."
)
LEVEL_NOTE = "All kinds of actions and all paths; arguments are symbols. That the text of a number reads back as the number is taken from the standard library."

A = "oxvg_actions::"
UNIT = mk("tup", ())
WRAP = {"to_string", "clone", "into", "from", "to_owned", "as_str", "deref", "as_ref", "borrow", "cloned", "into_owned", "alloc_str", "as_deref", "copied", "to_atom", "into_string"}


def ok(v):
    return mk("adt", RESULT, 0, (v,))


def err(v):
    return mk("adt", RESULT, 1, (v,))


def check(ctx):
    prog = ctx.program("native", ["oxvg_actions.lib", "oxvg_ast.lib", "oxvg_collections.lib", "oxvg_parse.lib", "oxvg_serialize.lib"])
    action = the_action(prog)
    ctx.count("kinds of actions", len(prog.adts[action].variants))
    ctx.floor("kinds of actions", 17)
    for g in (history, recorded):
        guarded(ctx, g.__name__, lambda: g(ctx, prog, action))
    napi = ctx.program("napi", ["oxvg_actions.lib", "oxvg_collections.lib"])
    guarded(ctx, "binding", lambda: binding(ctx, napi, the_action(napi)))


def guarded(ctx, what, f):
    try:
        f()
    except ToolError as e:
        ctx.undecide(what, e)


def the_action(prog):
    c = [a for a in prog.adts if a.startswith(A) and short(a) == "Action"]
    if not c:
        raise ToolError("the kinds of actions are gone")
    return c[0]


def samples(prog, action):
    """Every kind of action, optional arguments given and left out: (what, value, arguments)."""
    for i, v in enumerate(prog.adts[action].variants):
        shapes = [()]
        for j, f in enumerate(v.fields):
            ty = f[1] if isinstance(f[1], str) else prog.ty(prog.adts[action].crate, f[1])["s"]
            new = []
            for s in shapes:
                for x in field(ty, f"{v.name}.{j}"):
                    new.append(s + (x,))
            shapes = new
        for s in shapes:
            left = sum(x == NONE for x in s)
            yield v.name + (" without its optional argument" if left else ""), mk("adt", action, i, s)


def field(ty, n):
    m = re.match(r"^core::option::Option<(.*)>$", ty)
    if m:
        return [NONE] + [option_some(x) for x in field(m.group(1), n)]
    if ty.startswith("("):
        parts = [p.strip() for p in ty.strip("()").split(",") if p.strip()]
        return [mk("tup", tuple(mk("sym", f"{n}.{k}") for k in range(len(parts))))]
    return [mk("sym", n)]


def base(it, st, v, n=0):
    """The value a text, a copy or a view of it stands for."""
    v = it.strip(st, v)
    while n < 12:
        n += 1
        if v.k == "refv":
            v = it.strip(st, v.t[1])
        elif v.k == "res" and short(v.t[2]) in WRAP and v.t[3]:
            v = it.strip(st, v.t[3][-1] if short(v.t[2]) == "alloc_str" else v.t[3][0])
        elif v.k == "cast":
            v = it.strip(st, next(x for x in v.t[1:] if hasattr(x, "k")))
        elif v.k == "deref":
            v = it.strip(st, v.t[1])
        elif v.k == "adt" and short(v.t[1]) in ("Atom", "Cow", "Box") and len(v.t[3]) == 1:
            v = it.strip(st, v.t[3][0])
        else:
            break
    return v


def same(it, st, got, want):
    """Whether a value is the wanted one, down to copies and texts of its parts; None when it is not known."""
    got = base(it, st, got)
    if want.k == "sym":
        if got == want:
            return True
        if got.k in ("sym", "k", "adt", "tup"):
            return False
        return False if not any(x == want for x in walk(got, limit=60)) and any(x.k == "sym" and "." in str(x.t[1]) for x in walk(got, limit=60)) else None
    if want.k in ("adt", "tup"):
        if got.k != want.k:
            return None if got.k in ("res", "sym", "fld", "op") else False
        if want.k == "adt" and (got.t[2] != want.t[2] or short(got.t[1]) not in (short(want.t[1]), short(want.t[1]) + "Napi", short(want.t[1]).replace("Napi", ""))):
            return False
        a, b = (got.t[3], want.t[3]) if want.k == "adt" else (got.t[1], want.t[1])
        if len(a) != len(b):
            return False
        r = [same(it, st, x, y) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True
    return got == want


def told(prog, it, st, v, depth=0):
    v = base(it, st, v)
    if v.k == "adt" and depth < 3:
        ad = prog.adts.get(v.t[1])
        n = ad.variants[v.t[2]].name if ad else short(v.t[1])
        return n + (f"({', '.join(told(prog, it, st, x, depth + 1) for x in v.t[3])})" if v.t[3] else "")
    if v.k == "sym":
        return str(v.t[1]).split(".", 1)[-1].join(["#", ""]) if "." in str(v.t[1]) else str(v.t[1])
    if v.k == "tup" and depth < 3:
        return f"({', '.join(told(prog, it, st, x, depth + 1) for x in v.t[1])})"
    return repr(v)[:60]


def strings(v):
    return {x.t[1] for x in walk(v, limit=200) if x.k == "k" and isinstance(x.t[1], str)}


def mine(prog, c):
    f = prog.get(c.get("res") or c["fn"]) or prog.get(c["fn"])
    return f if f is not None and f.id.startswith((A, "<" + A)) else None


def written(ctx, prog, f, value, what):
    """What recording an action writes: the names given to it and its arguments, on each path."""
    def hook(it, st, t, name, c, args):
        s, b = short(c["fn"]), c["fn"]
        g = mine(prog, c)
        if b.startswith("oxvg_ast::") or "oxvg_ast::" in b:
            if s == "create_element":
                n = sum(x[0] == "new" for x in st.q)
                e = mk("sym", f"element{n}")
                st.q = st.q + (("new", e, frozenset(strings(it.strip(st, args[1])))),)
                return it.finish(st, t, e)
            if s in ("append", "append_child", "prepend", "insert_before", "insert_after", "append_all") and len(args) >= 2:
                p, ch = base(it, st, args[0]), base(it, st, args[1])
                st.q = st.q + ((s, p, ch),)
                return it.finish(st, t, UNIT)
            if s == "set_attribute":
                v = it.strip(st, args[1])
                st.q = st.q + (("attr", base(it, st, args[0]), frozenset(strings(v)), v),)
                return it.finish(st, t, UNIT)
            if s in ("set_text_content", "set_text"):
                st.q = st.q + (("text", base(it, st, args[0]), it.strip(st, args[1])),)
                return it.finish(st, t, UNIT)
            return it.finish(st, t, mk("res", None, b, tuple(it.strip(st, a) for a in args)))
        if s in ("deref", "clone") and args and base(it, st, args[0]).k == "sym":
            return it.finish(st, t, mk("refv", base(it, st, args[0])) if s == "deref" else base(it, st, args[0]))
        return None

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((A, "<" + A)), track=lambda v: True, max_states=3000, explore_closures=False)
    it.pure = lambda n: True
    args = [mk("refv", value), mk("sym", "parent"), mk("sym", "allocator")][:f.argc]
    ends = it.run(f, args=args, q=())
    ctx.analysed(*it.visited_fns)
    out = []
    for e in ends:
        if e.kind != "ret":
            ctx.obligation(False, f"{what}: panic", f.where(), f"recording {what} can panic")
            continue
        q = e.state.q
        news = {x[1]: x[2] for x in q if x[0] == "new"}
        tops = [x[2] for x in q if x[0] in ("append", "append_child") and base(it, e.state, x[1]) == mk("sym", "parent")]
        odd = [x for x in q if x[0] in ("prepend", "insert_before", "insert_after", "append_all")]
        if odd:
            raise ToolError("elements are put in another way")
        if not tops:
            ctx.obligation(False, f"{what}: written", f.where(), f"{what} is not put into the history")
            continue
        ctx.obligation(len(tops) == 1, f"{what}: written", f.where(), f"{what} is put into the history {len(tops)} times")
        top = base(it, e.state, tops[0])
        attrs = [x for x in q if x[0] == "attr" and base(it, e.state, x[1]) == top]
        kids = [base(it, e.state, x[2]) for x in q if x[0] in ("append", "append_child") and base(it, e.state, x[1]) == top]
        texts = {}
        for x in q:
            if x[0] == "text":
                texts.setdefault(base(it, e.state, x[1]), []).append(x[2])
        out.append((it, e.state, news.get(top, frozenset()), attrs, [(news.get(k, frozenset()), texts.get(k, [])) for k in kids]))
    if not out:
        raise ToolError(f"what {what} writes is not followed")
    return out


def history(ctx, prog, action):
    """What is written for an action is read as that action."""
    w = [f for f in prog.fns.values() if f.id.startswith(action) and f.kind in ("fn", "method") and short(f.id) == "embed"]
    r = [f for f in prog.fns.values() if f.id.startswith((action, A)) and f.kind in ("fn", "method") and f.argc == 1 and
         re.match(r"^core::result::Result<" + re.escape(action), prog.tys(f, f.locals[0])) and "Element" in prog.tys(f, f.locals[1])]
    if not w or not r:
        raise ToolError("the history is written or read in another way")
    w, r = w[0], r[0]
    for what, value in samples(prog, action):
        ctx.count("shapes of actions")
        for it, st, names, attrs, kids in written(ctx, prog, w, value, what):
            back(ctx, prog, r, what, value, it, st, names, attrs, kids)
    ctx.floor("shapes of actions", 20)


def back(ctx, prog, f, what, value, wit, wst, names, attrs, kids):
    for i, (_, texts) in enumerate(kids):
        ctx.obligation(len(texts) == 1, f"{what}: argument {i + 1}", f.where(), f"argument {i + 1} of {what} is written {len(texts)} times")

    def text(i):
        return base(wit, wst, kids[i][1][0]) if kids[i][1] else mk("k", "")

    def hook(it, st, t, name, c, args):
        s, b = short(c["fn"]), c["fn"]
        g = mine(prog, c)
        if g is not None and g.kind in ("fn", "method") and g.id != f.id:
            ret = prog.tys(g, g.locals[0])
            strs = [base(it, st, a) for a in args]
            key = [x.t[1] for x in strs if x.k == "k" and isinstance(x.t[1], str)]
            if key and re.match(r"^core::result::Result<\(\),", ret):
                # the name of an element is looked at
                el = strs[0]
                have = names if el == mk("sym", "element") else next((kids[i][0] for i in range(len(kids)) if el == mk("sym", f"child{i}")), None)
                if have is None:
                    raise ToolError("a name is looked at that is not followed")
                return it.finish(st, t, ok(UNIT) if key[0] in have else err(mk("sym", "another element")))
            if key and "Option<" in ret:
                hits = [a for a in attrs if key[0] in a[2]]
                if not hits:
                    return it.finish(st, t, ok(NONE) if ret.startswith("core::result") else NONE)
                vals = [x for x in hits[-1][2] if x != key[0]]
                tab = [x for x in vals if any(x == v for v in vals)]
                v = value_of(wit, wst, hits[-1][3], key[0])
                if v is None:
                    raise ToolError("the name of an action is not followed")
                o = option_some(mk("refv", v))
                return it.finish(st, t, ok(o) if ret.startswith("core::result") else o)
        if s in ("children_iter", "children", "child_elements") and "oxvg_ast" in b:
            return it.finish(st, t, mk("sym", "children"))
        if s in ("text_content", "text") and "oxvg_ast" in b:
            v = base(it, st, args[0])
            m = re.match(r"child(\d+)$", str(v.t[1])) if v.k == "sym" else None
            if not m:
                raise ToolError("a text is read that is not followed")
            return it.finish(st, t, option_some(text(int(m.group(1)))))
        v0 = base(it, st, args[0]) if args else None
        if s in ("into_iter", "iter", "by_ref", "fuse", "peekable") and v0 is not None and is_args(v0):
            return it.finish(st, t, args[0])
        if s == "map" and len(args) == 2 and is_args(v0):
            return it.finish(st, t, mk("res", None, "each", (v0, it.strip(st, args[1]))))
        if s == "next" and "Iterator" in b and is_args(v0):
            i = sum(x == "next" for x in st.q)
            st.q = st.q + ("next",)
            if i >= len(kids):
                return it.finish(st, t, NONE)
            fs, x = [], v0
            while x.k == "res":
                fs.append(x.t[3][1])
                x = x.t[3][0]
            return chain(it, st, t, mk("sym", f"child{i}"), tuple(reversed(fs)))
        if s in ("collect", "nth", "last", "skip", "count", "size_hint", "try_fold", "fold", "next_chunk", "rev", "len") and v0 is not None and is_args(v0):
            raise ToolError(f"the arguments are taken by {s}")
        if s == "transpose" and args:
            v = it.strip(st, args[0])
            if v.k == "adt" and v.t[1] == OPTION:
                if v == NONE:
                    return it.finish(st, t, ok(NONE))
                w = it.strip(st, v.t[3][0])
                if w.k == "adt" and w.t[1] == RESULT:
                    return it.finish(st, t, ok(option_some(w.t[3][0])) if w.t[2] == 0 else w)
        if s == "parse" and "str" in b and args and v0.k == "sym":
            return it.finish(st, t, ok(v0))
        if s in ("parse_string", "from_str") and args and v0.k == "sym":
            return it.finish(st, t, ok(v0))
        if s == "zip" and "Option" in b and len(args) == 2:
            a, z = it.strip(st, args[0]), it.strip(st, args[1])
            if a.k == z.k == "adt":
                return it.finish(st, t, NONE if NONE in (a, z) else option_some(mk("tup", (a.t[3][0], z.t[3][0]))))
        if s in WRAP | {"unwrap_or_default"} and args and v0 is not None and v0.k in ("sym", "k") and len(args) == 1 and s not in ("into", "from"):
            return it.finish(st, t, mk("refv", v0) if s in ("deref", "as_str", "as_ref") else v0)
        return None

    def chain(it, st, t, v, fs):
        if not fs:
            return it.finish(st, t, option_some(v))
        st.q = st.q + (("rest", fs[1:]),)
        r = it.call_closure(st, t, fs[0], [v], "closure", discard=("chain", 0))
        if not r:
            raise ToolError("what is done with an argument is not followed")
        return r

    def after(st, fr, v):
        i = max(k for k, x in enumerate(st.q) if isinstance(x, tuple) and x[0] == "rest")
        fs = st.q[i][1]
        st.q = st.q[:i] + st.q[i + 1:]
        return chain(it, st, st.top.fn.blocks[st.top.block]["t"], it.strip(st, v), fs)

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((A, "<" + A)), track=lambda v: True, max_states=3000, explore_closures=False)
    it.pure = lambda n: True
    it.after_discard = after
    ends = it.run(f, args=[mk("sym", "element")], q=())
    ctx.analysed(*it.visited_fns)
    for e in ends:
        if e.kind != "ret":
            ctx.obligation(False, f"{what}: read", f.where(), f"reading {what} can panic")
            continue
        v = it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != RESULT:
            ctx.undecide(what, "what is read is not followed")
            continue
        if v.t[2] == 1:
            ctx.obligation(False, f"{what}: read", f.where(), f"{what} is refused when the history is read")
            continue
        r = same(it, e.state, v.t[3][0], value)
        ctx.count("actions read back")
        if r is None:
            ctx.undecide(what, f"read as {told(prog, it, e.state, v.t[3][0])}")
        else:
            ctx.obligation(r, f"{what}: read", f.where(), f"{what} is read from the history as {told(prog, it, e.state, v.t[3][0])} instead of {told(prog, it, e.state, value)}")


def is_args(v):
    n = 0
    while v.k == "res" and v.t[2] == "each" and n < 6:
        v = v.t[3][0]
        n += 1
    return v == mk("sym", "children")


def value_of(it, st, attr, key):
    """The value of a made attribute: the part that is a text other than the attribute's name."""
    c = []
    for x in walk(attr, limit=200):
        if x.k == "adt" and short(x.t[1]) == "Attr" or x.k == "res" and x.t[3] and "attr" in short(x.t[2]):
            parts = x.t[3]
            c.append(base(it, st, parts[-1]))
            break
    return c[0] if c and c[0].k in ("k", "sym") else None


def recorded(ctx, prog, action):
    """Running an action records it as given."""
    fs = [f for f in prog.fns.values() if f.id.startswith(A) and short(f.id) == "dispatch"]
    if not fs:
        raise ToolError("actions are run in another way")
    f = fs[0]
    for what, value in samples(prog, action):
        def hook(it, st, t, name, c, args):
            g = mine(prog, c)
            if g is not None and short(g.id) == "record":
                st.q = st.q + ((it.strip(st, args[1]),),)
                return it.finish(st, t, UNIT)
            if g is not None and g.kind in ("fn", "method") and re.match(r"^core::result::Result<", prog.tys(g, g.locals[0])) and not any(
                    base(it, st, a).k in ("sym", "adt") and any(y.k == "sym" and "." in str(y.t[1]) for y in walk(it.strip(st, a), limit=40)) for a in args[1:]) and not reaches_record(prog, g):
                bad = st.copy()
                return it.finish(st, t, ok(mk("sym", f"result of {short(g.id)}"))) + it.finish(bad, t, err(mk("sym", "failure")))
            s = short(c["fn"])
            if s in WRAP and len(args) == 1 and base(it, st, args[0]).k in ("sym", "adt"):
                v = base(it, st, args[0])
                return it.finish(st, t, mk("refv", v) if s in ("deref", "as_str", "as_ref") else v)
            return None

        it = Interp(prog, hook=hook, opaque=lambda g: not reaches_record(prog, g), track=lambda v: True, max_states=3000, explore_closures=False)
        it.pure = lambda n: True
        ends = it.run(f, args=[mk("sym", "actor"), value], q=())
        ctx.analysed(*it.visited_fns)
        for e in ends:
            if e.kind != "ret":
                continue
            ctx.count("paths through actions")
            q = [x[0] for x in e.state.q]
            v = it.strip(e.state, e.value)
            failed = v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1
            ctx.obligation(len(q) == 1 or failed and not q, f"{what}: recorded", f.where(), f"{what} is recorded {len(q)} times on a path")
            for x in q[:1]:
                r = same(it, e.state, x, value)
                if r is None:
                    ctx.undecide(what, f"recorded as {told(prog, it, e.state, x)}")
                else:
                    ctx.obligation(r, f"{what}: recorded", f.where(), f"{what} is recorded as {told(prog, it, e.state, x)} instead of {told(prog, it, e.state, value)}")
    ctx.floor("paths through actions", 20)


def reaches_record(prog, g, depth=0, seen=None):
    memo = prog.__dict__.setdefault("_reach", {})
    if g.id in memo:
        return memo[g.id]
    if not g.id.startswith((A, "<" + A)) or depth > 5:
        return False
    r = short(g.id) == "record"
    memo[g.id] = False
    for b in g.blocks:
        t = b["t"]
        if t[0] != "call" or r:
            continue
        c = t[1].get("c") if isinstance(t[1], dict) else None
        for x in _fns(t[1]):
            h = prog.get(x)
            if h is not None and h.id != g.id and reaches_record(prog, h, depth + 1):
                r = True
    memo[g.id] = r
    return r


def _fns(x):
    if isinstance(x, dict):
        if "fn" in x:
            yield x.get("res") or x["fn"]
        for v in x.values():
            yield from _fns(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from _fns(v)


def binding(ctx, prog, action):
    """The conversions for the binding keep kind and arguments."""
    js = [a for a in prog.adts if a.startswith(A) and short(a) == "ActionNapi"]
    if not js:
        raise ToolError("the binding has no actions")
    js = js[0]
    fs = []
    for f in prog.fns.values():
        if not f.id.startswith((A, "<" + A)) or f.kind not in ("fn", "method") or f.argc != 1:
            continue
        a, r = prog.tys(f, f.locals[1]).replace("&", "").strip(), prog.tys(f, f.locals[0])
        a, r = re.sub(r"<.*", "", a.split(" ")[-1]), re.sub(r"<.*", "", r)
        if (a, r) in ((action, js), (js, action)):
            fs.append((f, a, r))
    ctx.count("conversions for the binding", len(fs))
    ctx.floor("conversions for the binding", 2)
    for f, a, r in fs:
        ref = prog.tys(f, f.locals[1]).startswith("&")
        for what, value in samples(prog, a):
            n = prog.adts[a].variants[value.t[2]].name
            want = next((i for i, v in enumerate(prog.adts[r].variants) if v.name == n), None)
            if not ctx.obligation(want is not None, f"{short(f.id)}: {what}", f.where(), f"{n} is not known to the binding"):
                continue
            it = Interp(prog, opaque=lambda g: False, track=lambda v: True, max_states=2000)
            it.pure = lambda n: True
            ends = it.run(f, args=[mk("refv", value) if ref else value])
            ctx.analysed(*it.visited_fns)
            for e in ends:
                if e.kind != "ret":
                    continue
                ctx.count("conversions followed")
                x = same(it, e.state, e.value, mk("adt", r, want, value.t[3]))
                if x is None:
                    ctx.undecide(f"{short(f.id)} of {what}", told(prog, it, e.state, e.value))
                else:
                    ctx.obligation(x, f"{short(f.id)}: {what}", f.where(), f"{what} becomes {told(prog, it, e.state, e.value)}")
