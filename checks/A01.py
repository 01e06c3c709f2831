"""A01: an action given on the command line does what its name says, with its arguments, to every selected element."""
import re

from facts import ToolError
from interp import Interp, mk
from terms import walk, some as option_some, NONE, OPTION, RESULT
from J05 import short
from A02 import A, UNIT, WRAP, ok, err, guarded, samples, the_action, base, same, strings, mine, told

TECHNIQUE = "abstract interpretation over MIR: the command line is read for every kind of action with all, too few and further words, and running an action is followed on all paths over two selected elements"
EXPLANATION = (
    "Reading the list of actions is followed for every documented name with its arguments, with an argument missing, with optional arguments left out at the end and before a further action, and with a word that is no action: "
    "it must give the action of that name with the arguments in order, keep all actions in order, and fail when an argument is missing or the name is not known. "
    "Running an action is then followed for every kind over two selected nodes that may be missing, no element, or not accept the change: exactly the elements that accept it must be changed, each once, "
    "with the arguments in order and the documented value for one left out; the attribute asked about must be the one that is changed."
)
LEVEL_NOTE = "All kinds of actions and all paths; two selected nodes. The geometry of the path actions and the matching of selectors are not followed."

SPEC = {
    # name: kind, required words, optional words
    "-attr": ("Attr", "tt", ""), "-class": ("Class", "t", ""), "-style": ("Style", "tt", ""),
    "-path-intersect": ("PathIntersect", "", ""), "-path-union": ("PathUnion", "", ""), "-path-subtract": ("PathSubtract", "", ""), "-path-xor": ("PathXor", "", ""),
    "-matrix": ("Matrix", "nnnnnn", ""), "-translate": ("Translate", "n", "n"), "-scale": ("Scale", "n", "n"), "-rotate": ("Rotate", "n", "nn"),
    "-skewX": ("SkewX", "n", ""), "-skewY": ("SkewY", "n", ""), "-insert": ("Insert", "t", ""), "-create-element": ("Insert", "t", ""),
    "-forget": ("Forget", "", ""), "-select": ("Select", "t", ""), "-select-more": ("SelectMore", "t", ""), "-deselect": ("Deselect", "", ""),
}


def check(ctx):
    prog = ctx.program("native", ["oxvg_actions.lib", "oxvg_ast.lib", "oxvg_collections.lib", "oxvg_parse.lib", "oxvg.lib"])
    action = the_action(prog)
    guarded(ctx, "command line", lambda: command_line(ctx, prog, action))
    guarded(ctx, "run", lambda: run(ctx, prog, action))
    guarded(ctx, "path actions", lambda: rules(ctx, prog, action))


def reader(prog, action):
    fs = [f for f in prog.fns.values() if f.id.startswith("oxvg::") and f.kind in ("fn", "method") and f.argc == 1 and
          "Vec<" + action in prog.tys(f, f.locals[0]) and "Vec<alloc::string::String" in prog.tys(f, f.locals[1])]
    if not fs:
        raise ToolError("the list of actions is read in another way")
    return fs[0]


def word(w):
    return mk("k", w) if w.startswith("-") else mk("sym", w)


def command_line(ctx, prog, action):
    f = reader(prog, action)
    cases = []
    for name, (kind, req, opt) in SPEC.items():
        full = [f"{x}{i}" for i, x in enumerate(req + opt)]
        need = full[:len(req)]
        cases.append((name, [name] + full, [(kind, full, len(req))]))
        if opt:
            cases.append((name + " alone", [name] + need, [(kind, need, len(req))]))
            cases.append((name + " before another", [name] + need + ["-deselect"], [(kind, need, len(req)), ("Deselect", [], 0)]))
        else:
            cases.append((name + " before another", [name] + need + ["-deselect"], [(kind, need, len(req)), ("Deselect", [], 0)]))
        cases.append((name + " after another", ["-forget", name] + need, [("Forget", [], 0), (kind, need, len(req))]))
        if req:
            cases.append((name + " with too few words", [name] + need[:-1], None))
        if len(opt) > 1:
            cases.append((name + " with too few words", [name] + full[:-1], None))
        cases.append((name + " with a word too many", [name] + full + ["t9"], None))
    cases.append(("nothing", [], []))
    cases.append(("an unknown action", ["-unknown"], None))
    cases.append(("a word", ["t0"], None))
    ctx.parallel([(f.id, c) for c in cases], lambda ctx, x: command(ctx, prog, action, prog.fns[x[0]], *x[1]))
    ctx.floor("command lines", 50)


def command(ctx, prog, action, f, what, words, want):
    n = len(words)

    def pos(st):
        return sum(x == "next" for x in st.q)

    def hook(it, st, t, name, c, args):
        s, b = short(c["fn"]), c["fn"]
        full = (c.get("res") or "") + " " + b
        v0 = base(it, st, args[0]) if args else None
        if s in ("iter", "filter", "count", "with_capacity", "len") and "Option" not in full:
            if s == "with_capacity":
                return it.finish(st, t, mk("sym", "made"))
            return it.finish(st, t, mk("sym", "words") if s in ("iter", "filter") else mk("sym", "number"))
        if s == "new" and "Vec" in full:
            return it.finish(st, t, mk("sym", "made"))
        if s in ("into_iter", "peekable", "by_ref", "fuse") and v0 == mk("sym", "words"):
            return it.finish(st, t, v0)
        if s in ("next", "peek", "next_if", "next_if_eq") and v0 == mk("sym", "words"):
            i = pos(st)
            if s == "next_if":
                if i >= n:
                    return it.finish(st, t, NONE)
                st.q = st.q + (("if", i),)
                r = it.call_closure(st, t, args[1], [mk("refv", word(words[i]))], "closure", discard=("if", 0))
                if not r:
                    raise ToolError("a word is tested in a way that is not followed")
                return r
            v = option_some(word(words[i]) if s == "next" else mk("refv", word(words[i]))) if i < n else NONE
            if s == "next":
                st.q = st.q + ("next",)
            return it.finish(st, t, v)
        if s in ("starts_with", "strip_prefix") and v0 is not None and v0.k in ("k", "sym"):
            p = base(it, st, args[1])
            if p.k == "k" and p.t[1] in (("char", "-"), "-"):
                w = v0.t[1]
                if s == "starts_with":
                    return it.finish(st, t, mk("k", w.startswith("-")))
                return it.finish(st, t, option_some(mk("refv", mk("k", w[1:]))) if w.startswith("-") else NONE)
        if s in ("parse_string", "parse", "from_str") and v0 is not None and v0.k in ("k", "sym") and "oxvg::" not in (c.get("res") or b):
            return it.finish(st, t, ok(v0) if v0.k == "sym" and str(v0.t[1]).startswith("n") else err(mk("sym", "no number")))
        if s == "push" and len(args) == 2 and v0 == mk("sym", "made"):
            st.q = st.q + (("push", it.strip(st, args[1])),)
            return it.finish(st, t, UNIT)
        if s in WRAP and len(args) == 1 and v0 is not None and v0.k in ("k", "sym") and v0 not in (mk("sym", "words"), mk("sym", "made")):
            return it.finish(st, t, mk("refv", v0) if s in ("deref", "as_str", "as_ref") else v0)
        if s in ("eq", "ne") and len(args) == 2:
            a, z = (base(it, st, x) for x in args)
            if a.k in ("k", "sym") and z.k in ("k", "sym"):
                return it.finish(st, t, mk("k", (a == z) == (s == "eq")))
        return None

    def after(st, fr, v):
        v = it.strip(st, v)
        t = st.top.fn.blocks[st.top.block]["t"]
        i = pos(st)
        if v.k != "k":
            raise ToolError("a word is tested in a way that is not followed")
        if v.t[1]:
            st.q = st.q + ("next",)
            return it.finish(st, t, option_some(word(words[i])))
        return it.finish(st, t, NONE)

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith("oxvg::"), track=lambda v: True, max_states=4000, explore_closures=False)
    it.pure = lambda n: True
    it.after_discard = after
    ends = [e for e in it.run(f, args=[mk("sym", "words")], q=())]
    ctx.analysed(*it.visited_fns)
    for e in ends:
        if e.kind != "ret":
            ctx.obligation(False, f"{what}: panic", f.where(), f"reading {what} can panic")
            continue
        v = it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != RESULT:
            raise ToolError(f"the outcome of reading {what} is not followed")
        ctx.count("command lines")
        if v.t[2] == 1:
            ctx.obligation(want is None, f"{what}: refused", f.where(), f"{what} is refused")
            continue
        got = [x[1] for x in e.state.q if isinstance(x, tuple) and x[0] == "push"]
        if want is None:
            ctx.obligation(False, f"{what}: accepted", f.where(), f"{what} is accepted as {', '.join(told(prog, it, e.state, x) for x in got) or 'nothing'}")
            continue
        if not ctx.obligation(len(got) == len(want), f"{what}: number", f.where(), f"{what} gives {len(got)} actions instead of {len(want)}"):
            continue
        for x, (kind, args, req) in zip(got, want):
            y = expected(prog, action, kind, args, req)
            r = same(it, e.state, x, y)
            if r is None:
                ctx.undecide(what, told(prog, it, e.state, x))
            else:
                ctx.obligation(r, f"{what}: action", f.where(), f"{' '.join(words)} is read as {told(prog, it, e.state, x)}")


def expected(prog, action, kind, args, req):
    i = next((i for i, v in enumerate(prog.adts[action].variants) if v.name == kind), None)
    if i is None:
        raise ToolError(f"there is no action {kind}")
    v = prog.adts[action].variants[i]
    syms = [mk("sym", a) for a in args]
    out = syms[:req]
    if len(v.fields) > req:
        rest = syms[req:]
        out.append(NONE if not rest else option_some(rest[0]) if len(rest) == 1 else option_some(mk("tup", tuple(rest))))
    return mk("adt", action, i, tuple(out))


DOES = {"Attr", "Class", "Style", "Matrix", "Translate", "Scale", "Rotate", "SkewX", "SkewY"}
ASKS = {"Style": "Style", "Matrix": "Transform", "Translate": "Transform", "Scale": "Transform", "Rotate": "Transform", "SkewX": "Transform", "SkewY": "Transform"}
NOUGHT = mk("k", ("f", "0.0"))


def transform(kind, fields):
    """The transformation an action stands for: its name and numbers."""
    if kind == "Matrix":
        return "Matrix", list(fields)
    x = fields[0]
    if kind in ("SkewX", "SkewY"):
        return kind, [x]
    o = fields[1]
    if kind == "Translate":
        return kind, [x, o.t[3][0] if o != NONE else NOUGHT]
    if kind == "Scale":
        return kind, [x, o.t[3][0] if o != NONE else x]
    p = o.t[3][0].t[1] if o != NONE else (NOUGHT, NOUGHT)
    return kind, [x, *p]


def run(ctx, prog, action):
    fs = [f for f in prog.fns.values() if f.id.startswith(A) and short(f.id) == "dispatch"]
    if not fs:
        raise ToolError("actions are run in another way")
    todo = [(w, v) for w, v in samples(prog, action) if prog.adts[action].variants[v.t[2]].name in DOES]
    ctx.parallel(todo, lambda ctx, x: one(ctx, prog, action, fs[0], *x))
    ctx.floor("paths through actions", 50)


ATTR_ID = "oxvg_collections::attribute::AttrId"


def attr_name(prog, v):
    n = 0
    while v.k == "refv" and n < 4:
        v = v.t[1]
        n += 1
    if v.k == "adt" and short(v.t[1]) in ("AttrId", "Attr") and v.t[1] in prog.adts:
        return prog.adts[v.t[1]].variants[v.t[2]].name
    return None


def el(it, st, v):
    v = base(it, st, v)
    n = 0
    while v.k == "res" and v.t[3] and n < 6 and short(v.t[2]) in ("deref", "clone", "qual_name", "class_list", "attributes"):
        v = base(it, st, v.t[3][0])
        n += 1
    m = re.match(r"element(\d)$", str(v.t[1])) if v.k == "sym" else None
    return int(m.group(1)) if m else None


def one(ctx, prog, action, f, what, value):
    kind = prog.adts[action].variants[value.t[2]].name
    unknown = next((i for i, v in enumerate(prog.adts[ATTR_ID].variants) if v.name == "Unknown"), None)
    other = next((i for i, v in enumerate(prog.adts[ATTR_ID].variants) if not v.fields), None)

    def fork(it, st, t, *cases):
        out = []
        for ev, v in cases:
            s2 = st.copy()
            if ev is not None:
                s2.q = s2.q + (ev,)
            out += it.finish(s2, t, v)
        return out

    def hook(it, st, t, name, c, args):
        s, b = short(c["fn"]), c["fn"]
        full = (c.get("res") or "") + " " + b
        g = mine(prog, c)
        v0 = base(it, st, args[0]) if args else None
        if g is not None and g.kind in ("fn", "method"):
            n = short(g.id)
            if n in ("effect_history", "record"):
                return it.finish(st, t, UNIT)
            if n in ("effect_document", "effect_state", "effect_selection", "effect_tree"):
                return it.finish(st, t, ok(UNIT))
            if n in ("get_selections", "get_selections_list"):
                return fork(it, st, t, (("selected",), ok(option_some(mk("sym", "selections")))), (None, ok(NONE)))
        if s in ("into_iter", "iter", "iter_mut", "list", "deref", "by_ref", "copied", "cloned") and args and is_sel(it, st, v0):
            return it.finish(st, t, mk("sym", "selections"))
        if s == "next" and "Iterator" in b and is_sel(it, st, v0):
            i = sum(x == "next" for x in st.q)
            if i >= 2:
                st.q = st.q + ("all",)
                return it.finish(st, t, NONE)
            st.q = st.q + ("next",)
            return it.finish(st, t, option_some(mk("sym", f"id{i}")))
        if s in ("filter_map", "for_each", "try_for_each", "filter", "map", "flat_map", "fold", "rev", "skip", "take", "enumerate") and args and is_sel(it, st, v0):
            raise ToolError(f"the selection is gone through by {s}")
        if s == "get" and "arena" in full and len(args) == 2:
            m = re.match(r"id(\d)$", str(base(it, st, args[1]).t[1])) if base(it, st, args[1]).k == "sym" else None
            if not m:
                raise ToolError("a node is looked up in a way that is not followed")
            i = int(m.group(1))
            return fork(it, st, t, (("no", i), NONE), (None, option_some(mk("sym", f"node{i}"))))
        if s == "element" and args and v0.k == "sym" and str(v0.t[1]).startswith("node"):
            i = int(v0.t[1][4:])
            return fork(it, st, t, (("no", i), NONE), (("is", i), option_some(mk("sym", f"element{i}"))))
        i = el(it, st, args[0]) if args else None
        if s == "is_permitted_attribute" and i is not None:
            n = attr_name(prog, it.strip(st, args[1]))
            return fork(it, st, t, (("asks", i, n), mk("k", True)), (("refuses", i, n), mk("k", False)))
        if s == "parse_attr_id" and i is not None:
            nm = base(it, st, args[1])
            return fork(it, st, t, (("refuses", i, "name"), mk("adt", ATTR_ID, unknown, (nm,))), (("name", i, nm), mk("adt", ATTR_ID, other, ())))
        if s == "new" and "attribute::Attr" in full and len(args) == 2:
            return it.finish(st, t, mk("res", None, "attribute", (it.strip(st, args[0]), it.strip(st, args[1]))))
        if s == "set_attribute" and i is not None:
            st.q = st.q + (("set", i, it.strip(st, args[1])),)
            return it.finish(st, t, UNIT)
        if s in ("toggle", "add", "remove") and i is not None:
            st.q = st.q + ((s, i, it.strip(st, args[1])),)
            return it.finish(st, t, UNIT)
        if s in ("get_attribute_node_mut", "get_attribute_mut", "get_attribute_node", "get_attribute") and i is not None:
            n = attr_name(prog, it.strip(st, args[1]))
            return fork(it, st, t, (None, NONE), (("has", i, n), option_some(mk("sym", f"attribute{i}"))))
        if s in ("filter_map", "map") and "cell::Ref" in full and args and v0.k == "sym" and str(v0.t[1]).startswith("attribute"):
            return fork(it, st, t, (None, ok(v0)), (None, err(v0))) if s == "filter_map" else it.finish(st, t, v0)
        if s in ("option_mut", "option_ref", "option") and args and v0.k == "sym" and str(v0.t[1]).startswith("attribute"):
            return fork(it, st, t, (None, option_some(v0)), (None, NONE))
        if s in ("as_deref_mut", "as_mut", "as_deref", "as_ref") and args:
            v = it.strip(st, args[0])
            while v.k == "refv":
                v = it.strip(st, v.t[1])
            if v.k == "adt" and v.t[1] == OPTION:
                return it.finish(st, t, v)
        if s in ("deref_mut", "deref") and args and v0.k == "sym" and str(v0.t[1]).startswith("attribute"):
            return it.finish(st, t, mk("refv", v0))
        if s in ("push", "insert", "extend", "push_back", "append") and len(args) >= 2:
            v = it.strip(st, args[0])
            a = [x for x in walk(v, limit=40) if x.k == "sym" and str(x.t[1]).startswith("attribute")]
            if a:
                if s == "insert" and base(it, st, args[1]) != mk("k", 0):
                    raise ToolError("something is put into a list at a place that is not followed")
                st.q = st.q + ((s, int(a[0].t[1][9:]), it.strip(st, args[-1]), repr(v)),)
                return it.finish(st, t, UNIT)
            if args[0].k == "ref":
                it.write(st, args[0].t[2], args[0].t[3], mk("res", None, "with", (v, it.strip(st, args[-1]))))
                return it.finish(st, t, UNIT)
        if s == "new_uninit" and "Box" in full:
            r = ("D", mk("sym", "list made"))
            st.mem[r] = mk("sym", "room")
            return it.finish(st, t, mk("adt", "alloc::boxed::Box", 0, (mk("ref", True, r, ()),)))
        if s == "box_assume_init_into_vec_unsafe" or s == "into_vec":
            return it.finish(st, t, mk("res", None, "list", tuple(it.strip(st, a) for a in args)))
        if s == "clone" and len(args) == 1:
            v = it.strip(st, args[0])
            while v.k == "refv":
                v = it.strip(st, v.t[1])
            if v.k in ("adt", "sym"):
                return it.finish(st, t, v)
        if s == "parse_string" and "lightningcss" in full:
            return fork(it, st, t, (("bad",), err(mk("sym", "no style"))), (None, ok(mk("res", None, "style", tuple(base(it, st, a) for a in args[:-1] or args)) if len(args) > 1 else v0)))
        if s in ("trim_end", "trim", "trim_start") and args and v0.k in ("sym", "res"):
            return it.finish(st, t, mk("refv", v0))
        if s in ("split_once", "strip_suffix", "rsplit_once") and args:
            if s == "strip_suffix":
                return fork(it, st, t, (None, NONE), (("important",), option_some(mk("refv", v0))))
            return fork(it, st, t, (None, NONE), (None, option_some(mk("tup", (mk("refv", v0), mk("refv", mk("k", "more")))))),
                        (("important",), option_some(mk("tup", (mk("refv", v0), mk("refv", mk("k", "")))))))
        if s == "ends_with" and args:
            return fork(it, st, t, (None, mk("k", False)), (("important",), mk("k", True)))
        if s == "alloc_str" and len(args) == 2:
            return it.finish(st, t, mk("refv", base(it, st, args[1])))
        if s in WRAP and len(args) == 1 and v0 is not None and v0.k in ("sym", "adt"):
            return it.finish(st, t, mk("refv", v0) if s in ("deref", "as_str", "as_ref") else v0)
        return None

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((A, "<" + A)), track=lambda v: True, max_states=60000, explore_closures=False)
    it.pure = lambda n: True
    ends = it.run(f, args=[mk("sym", "actor"), value], q=())
    ctx.analysed(*it.visited_fns)
    where = f.where()
    full = 0
    for e in ends:
        if e.kind != "ret":
            continue
        q = e.state.q
        v = it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != RESULT:
            raise ToolError(f"the outcome of {what} is not followed")
        ctx.count("paths through actions")
        changes = [x for x in q if isinstance(x, tuple) and x[0] in ("set", "push", "insert", "extend", "push_back", "append", "toggle", "add", "remove")]
        if v.t[2] == 1:
            ctx.obligation(("bad",) in q, f"{what}: fails", where, f"{what} fails although its arguments are fine")
            continue
        if ("selected",) not in q:
            ctx.obligation(not changes, f"{what}: unselected", where, f"{what} changes an element that is not selected")
            continue
        ctx.obligation("all" in q, f"{what}: all", where, f"{what} stops before the last selected element")
        for i in (0, 1):
            mine_ = [x for x in changes if x[1] == i]
            accepts = ("is", i) in q and not any(isinstance(x, tuple) and x[0] == "refuses" and x[1] == i for x in q)
            if not accepts:
                ctx.obligation(not mine_, f"{what}: refused", where, f"{what} changes an element that does not accept it")
                continue
            if not ctx.obligation(len(mine_) == 1, f"{what}: changes", where, f"{what} changes a selected element {len(mine_)} times"):
                continue
            asked = [x[2] for x in q if isinstance(x, tuple) and x[0] in ("asks", "has") and x[1] == i]
            if kind in ASKS:
                ctx.obligation(any(isinstance(x, tuple) and x[0] == "asks" and x[1] == i for x in q), f"{what}: asks", where, f"{what} changes elements without looking whether they accept it")
                for n in asked:
                    ctx.obligation(n in (ASKS[kind], None), f"{what}: asks", where, f"{what} looks at the attribute {n} instead of {ASKS[kind]}")
            full += 1
            judge(ctx, prog, it, e.state, what, kind, value, mine_[0], q, where)
    ctx.obligation(full > 0, f"{what}: effect", where, f"{what} never changes anything")


def is_sel(it, st, v):
    n = 0
    while v is not None and n < 5:
        n += 1
        if v == mk("sym", "selections"):
            return True
        if v.k == "fld":
            v = next((x for x in v.t[1:] if hasattr(x, "k")), None)
        elif v.k == "res" and len(v.t[3]) == 1:
            v = v.t[3][0]
        else:
            return False
    return False


def judge(ctx, prog, it, st, what, kind, value, change, q, where):
    """Whether the change is the one the action stands for."""
    how, i, new = change[:3]
    if how == "insert":
        ctx.obligation(False, f"{what}: order", where, f"{what} is not put after what is there")
        return
    if kind == "Class":
        ctx.obligation(how == "toggle" and base(it, st, new) == value.t[3][0], f"{what}: change", where, f"{what} does {how} of {told(prog, it, st, new)}")
        return
    if kind == "Attr":
        names = [x[2] for x in q if isinstance(x, tuple) and x[0] == "name" and x[1] == i]
        ctx.obligation(bool(names) and names[-1] == value.t[3][0], f"{what}: name", where, f"{what} sets the attribute called {names}")
        if new.k == "res" and new.t[2] == "attribute":
            ctx.obligation(base(it, st, new.t[3][1]) == value.t[3][1], f"{what}: value", where, f"{what} sets the value {told(prog, it, st, new.t[3][1])}")
        else:
            ctx.undecide(what, "the attribute is made in another way")
        return
    if kind == "Style":
        want = mk("res", None, "style", (value.t[3][0], value.t[3][1]))
        found = [x for x in walk(new, limit=400) if x.k == "res" and x.t[2] == "style"]
        if not found:
            ctx.undecide(what, "the style is made in another way")
            return
        ctx.obligation(set(found) == {want}, f"{what}: change", where, f"{what} adds another style")
        at = q.index(change)
        since = max([k for k, x in enumerate(q[:at]) if isinstance(x, tuple) and x[0] == "is" and x[1] == i], default=0)
        important = ("important",) in q[since:at]
        place = None
        if how != "set":
            place = "important" in change[3]
        else:
            blocks = [x for x in walk(new, limit=400) if x.k == "adt" and short(x.t[1]) == "DeclarationBlock"]
            if len(blocks) == 1 and len(blocks[0].t[3]) == 2:
                place = any(x == want for x in walk(blocks[0].t[3][0], limit=100))
        if place is not None:
            ctx.obligation(place == important, f"{what}: importance", where, f"{what} adds a style that is{'' if important else ' not'} important as one that is{'' if place else ' not'}")
        return
    name, nums = transform(kind, value.t[3])
    found = [x for x in walk(new, limit=400) if x.k == "adt" and short(x.t[1]) == "SVGTransform"]
    if how == "set":
        n = attr_name(prog, new)
        ctx.obligation(n in ("Transform", None), f"{what}: attribute", where, f"{what} sets the attribute {n}")
    if len(found) != 1:
        ctx.undecide(what, f"the transformation is made in another way ({how})")
        return
    x = found[0]
    got = prog.adts[x.t[1]].variants[x.t[2]].name
    fields = [base(it, st, y) for y in x.t[3]]
    if len(fields) == 1 and fields[0].k == "adt":
        fields = [base(it, st, y) for y in fields[0].t[3]]
    fields = [NOUGHT if y.k == "res" and short(y.t[2]) == "default" else y for y in fields]
    ctx.count("transformations")
    ctx.obligation(got == name, f"{what}: transformation", where, f"{what} adds the transformation {got}")
    ctx.obligation(fields == nums, f"{what}: numbers", where, f"{what} adds the transformation with the numbers {[told(prog, it, st, y) for y in fields]}")


def rules(ctx, prog, action):
    """Each path action combines paths by its own rule."""
    want = {"PathIntersect": "Intersect", "PathUnion": "Union", "PathSubtract": "Difference", "PathXor": "Xor"}
    f = next((f for f in prog.fns.values() if f.id.startswith(A) and short(f.id) == "dispatch"), None)
    for what, value in samples(prog, action):
        kind = prog.adts[action].variants[value.t[2]].name
        if kind not in want:
            continue

        def hook(it, st, t, name, c, args):
            g = mine(prog, c)
            if g is not None and g.kind in ("fn", "method"):
                for a in args:
                    v = it.strip(st, a)
                    if v.k == "adt" and short(v.t[1]) == "OverlayRule":
                        st.q = st.q + (v,)
                        return it.finish(st, t, ok(NONE))
                if short(g.id) in ("effect_history", "record"):
                    return it.finish(st, t, UNIT)
                if short(g.id).startswith("effect_"):
                    return it.finish(st, t, ok(UNIT))
            return None

        it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((A, "<" + A)), track=lambda v: True, max_states=3000, explore_closures=False)
        it.pure = lambda n: True
        for e in it.run(f, args=[mk("sym", "actor"), value], q=()):
            if e.kind != "ret" or len(e.state.q) != 1:
                continue
            v = e.state.q[0]
            ad = prog.adts.get(v.t[1])
            ctx.count("path actions")
            if ad is None:
                ctx.undecide(kind, "the rule is not known")
                continue
            n = ad.variants[v.t[2]].name
            ctx.obligation(n == want[kind], f"{kind}: rule", f.where(), f"{kind} combines paths by {n}")
    ctx.floor("path actions", 4)
