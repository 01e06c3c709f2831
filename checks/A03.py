"""A03: the document holds the history and the current selection after every action, until forgotten."""
import re

from facts import ToolError
from interp import Interp, mk
from terms import walk, some as option_some, NONE, OPTION, RESULT
from J05 import short
from A02 import A, UNIT, WRAP, ok, err, guarded, samples, the_action, base, strings, mine

TECHNIQUE = "typestate analysis over MIR: where the elements holding the state hang is followed through every kind of action, up to a fixed point over all sequences of actions"
EXPLANATION = (
    "An abstract document is kept: which of the elements that hold the state (state, history, selection) hangs where, whether the state comes last, what is selected and whether the prefix is declared. "
    "Starting from a document without and with a state, every kind of action is followed on all paths from every situation reached, until no new situation is found. After every action that succeeds, except forgetting, the state must be the last "
    "element of the document with its prefix declared, with the history and the selection in it, and the selection must be the one the action made; after forgetting nothing of it may be left. "
    "Taking the state out of a document must pick up both parts, and both readers of the selection must read the attribute that is written."
)
LEVEL_NOTE = "All sequences of actions over an abstract document; what an action does to the selected elements is followed only as far as it may append to the root. Blanks added by indented output are not part of it."

ROOT, RNODE, OTHER, ACTOR = mk("sym", "root"), mk("sym", "document"), mk("sym", "other element"), mk("sym", "actor")


def check(ctx):
    prog = ctx.program("native", ["oxvg_actions.lib", "oxvg_ast.lib", "oxvg_collections.lib", "oxvg_parse.lib", "oxvg_serialize.lib"])
    action = the_action(prog)
    guarded(ctx, "sequences", lambda: sequences(ctx, prog, action))
    guarded(ctx, "taken out", lambda: taken_out(ctx, prog))
    guarded(ctx, "readers", lambda: readers(ctx, prog))


def adt(prog, n):
    c = [a for a in prog.adts if a.startswith(A) and short(a) == n]
    if not c:
        raise ToolError(f"{n} is gone")
    return c[0]


def actor(prog, state, history, selection):
    ad, sd = adt(prog, "Actor"), adt(prog, "State")
    fs = {"state": state, "history": history, "selection": selection}
    names = [f[0] for f in prog.adts[sd].variants[0].fields]
    if set(names) != set(fs):
        raise ToolError("the state has other parts")
    st = mk("adt", sd, 0, tuple(fs[n] for n in names))
    parts = {"root": RNODE, "state": st}
    return mk("adt", ad, 0, tuple(parts.get(f[0], mk("sym", f[0])) for f in prog.adts[ad].variants[0].fields))


def part(prog, it, st, v, *path):
    for n in path:
        v = it.strip(st, v)
        if v.k != "adt" or v.t[1] not in prog.adts:
            return None
        names = [f[0] for f in prog.adts[v.t[1]].variants[0].fields]
        if n not in names:
            return None
        v = v.t[3][names.index(n)]
    return it.strip(st, v)


class Doc:
    """Facts about the document, kept in the analysis state as a frozenset of tuples."""
    @staticmethod
    def parent(q, e):
        return next((x[2] for x in q if x[0] == "in" and x[1] == e), None)

    @staticmethod
    def detach(q, e):
        return frozenset(x for x in q if not (x[0] == "in" and x[1] == e) and not (x == ("last", e)))

    @staticmethod
    def attach(q, e, p):
        q = Doc.detach(q, e)
        q = q | {("in", e, p)}
        if p == ROOT:
            q = frozenset(x for x in q if x[0] != "last") | {("last", e)}
        return q

    @staticmethod
    def set(q, e, names, v):
        return frozenset(x for x in q if not (x[0] == "attr" and x[1] == e and x[2] == names)) | {("attr", e, names, v)}

    @staticmethod
    def unset(q, e, names):
        return frozenset(x for x in q if not (x[0] == "attr" and x[1] == e and x[2] == names))


IGNORED = ("oxvg",)


def key(prog, v, memo={}):
    """The attribute's or element's name among the strings of its term."""
    s = sorted(x for x in strings(v) if x not in IGNORED and "://" not in x)
    return tuple(s)


def element(it, st, v):
    v = base(it, st, v)
    n = 0
    while v.k == "res" and v.t[3] and n < 6 and short(v.t[2]) in ("deref", "as_document", "clone"):
        v = base(it, st, v.t[3][0])
        n += 1
    if v.k == "adt" and short(v.t[1]) in ("Document", "Element") and v.t[3]:
        return element(it, st, v.t[3][0])
    return v


def interp(ctx, prog, children):
    def hook(it, st, t, name, c, args):
        s, b = short(c["fn"]), c["fn"]
        g = mine(prog, c)
        full = (c.get("res") or "") + " " + b
        v0 = element(it, st, args[0]) if args else None
        if g is not None and g.kind in ("fn", "method"):
            ret = prog.tys(g, g.locals[0])
            ks = [base(it, st, a) for a in args]
            ks = [x.t[1] for x in ks if x.k == "k" and isinstance(x.t[1], str)]
            if short(g.id) == "embed" and the_action(prog) in g.id:
                st.q = st.q | {("recorded",)}
                return it.finish(st, t, UNIT)
            if ks and "Option<" in ret and ret.startswith("core::result::Result<"):
                hit = [x for x in st.q if x[0] == "attr" and x[1] == v0 and ks[0] in x[2]]
                return it.finish(st, t, ok(option_some(mk("refv", hit[0][3])) if hit else NONE))
            if ks and re.match(r"^core::result::Result<\(\),", ret):
                # the name of an element is looked at
                return it.finish(st, t, ok(UNIT) if v0.k == "sym" and str(v0.t[1]).startswith(ks[0]) else err(mk("sym", "another element")))
            if short(g.id) == "try_from":
                return None
            if short(g.id) in ("boolean_op", "append_transform", "select_internal") or "Info" in g.id:
                bad = st.copy()
                bad.q = bad.q | {("failed",)}
                if "Option<" in ret:
                    some, none = st.copy(), st
                    return it.finish(some, t, ok(option_some(mk("sym", "made")))) + it.finish(none, t, ok(NONE)) + it.finish(bad, t, err(mk("sym", "failure")))
                v = UNIT if re.match(r"^core::result::Result<\(\),", ret) else mk("sym", "made")
                return it.finish(st, t, ok(v)) + it.finish(bad, t, err(mk("sym", "failure")))
        if s == "find_element":
            return it.finish(st, t, option_some(ROOT))
        if s == "from_parent":
            return it.finish(st, t, option_some(ROOT))
        if s == "element" and "oxvg_ast" in full and args and v0 == RNODE:
            return it.finish(st, t, option_some(ROOT))
        if s == "create_element":
            n = key(prog, it.strip(st, args[1]))
            nm = n[-1] if n else "new element"
            if not n:
                return it.finish(st, t, mk("sym", "inserted"))
            have = {str(x[1].t[1]) for x in st.q if x[0] == "in"} | {str(y.t[1]) for r in st.mem.values() for y in walk(r, limit=300) if y.k == "sym"}
            e = mk("sym", nm if nm not in have else nm + "'")
            st.q = frozenset(x for x in st.q if not (len(x) > 1 and x[1] == e))
            return it.finish(st, t, e)
        if s in ("append_child", "append") and "oxvg_ast" in full and len(args) == 2:
            ch = element(it, st, args[1])
            if v0.k == "sym" and (v0 == ROOT or str(v0.t[1]).rstrip("'") in ("state", "history", "selection")):
                st.q = Doc.attach(st.q, ch, v0)
                return it.finish(st, t, UNIT)
            # may be the root
            st2 = st.copy()
            st2.q = frozenset(x for x in st2.q if x[0] != "last") | {("children",)}
            return it.finish(st, t, UNIT) + it.finish(st2, t, UNIT)
        if s in ("prepend", "insert_before", "insert_after", "replace_children", "insert") and "oxvg_ast" in full and v0 is not None and (v0 == ROOT or v0.k == "sym" and str(v0.t[1]).rstrip("'") in ("state", "history", "selection")):
            raise ToolError(f"elements are put by {s}")
        if s == "remove" and "oxvg_ast" in full:
            st.q = Doc.detach(st.q, v0)
            return it.finish(st, t, UNIT)
        if s in ("last_element_child", "last_child") and v0 == ROOT:
            last = [x[1] for x in st.q if x[0] == "last"]
            if last:
                return it.finish(st, t, option_some(last[0]))
            if ("children",) in st.q:
                return it.finish(st, t, option_some(OTHER))
            return it.finish(st, t, NONE)
        if s in ("parent_node", "parent_element", "parent") and args and known(it, st, args[0]) not in (None, "nothing"):
            if v0 in (ROOT, OTHER):
                raise ToolError(f"the document is looked at by {s}")
            p = Doc.parent(st.q, v0)
            return it.finish(st, t, NONE if p is None else option_some(p))
        if s in ("eq", "ne", "id_eq") and len(args) == 2:
            x, y = (known(it, st, v) for v in args)
            if x is not None and y is not None:
                return it.finish(st, t, mk("k", (x == y) == (s != "ne")))
            if x is not None and x != "nothing" or y is not None and y != "nothing":
                raise ToolError("an element is compared with something that is not followed")
        if s == "set_attribute" and len(args) == 2:
            a = it.strip(st, args[1])
            st.q = Doc.set(st.q, v0, names_of(it, st, a), attr_value(it, st, a))
            return it.finish(st, t, UNIT)
        if s == "remove_attribute" and len(args) == 2:
            st.q = Doc.unset(st.q, v0, names_of(it, st, it.strip(st, args[1]), whole=True))
            return it.finish(st, t, NONE)
        if s in ("to_value_string",) and args:
            return it.finish(st, t, ok(mk("res", None, "text", (base(it, st, args[0]),))))
        if s in ("parse_string",) and args:
            v = base(it, st, args[0])
            if v.k == "res" and v.t[2] == "text":
                return it.finish(st, t, ok(v.t[3][0]))
            return it.finish(st, t, ok(mk("sym", "read")))
        if s == "is_empty" and args:
            v = it.strip(st, args[0])
            w = list(walk(v, limit=40))
            if any(x == EMPTY for x in w):
                return it.finish(st, t, mk("k", True))
            no = st.copy()
            no.q = no.q | {("nothing",)}
            st.q = st.q | {("something",)}
            return it.finish(st, t, mk("k", False)) + it.finish(no, t, mk("k", True))
        if s in ("next",) and "Iterator" in b:
            if "Children" in full or any(x == mk("sym", "children") for x in walk(it.strip(st, args[0]), limit=30)):
                lim = [x.t[3][1].t[1] for x in walk(it.strip(st, args[0]), limit=30) if x.k == "res" and x.t[2] == "at most"]
                if lim and sum(1 for x in st.q if x[0] == "child") >= min(lim):
                    return it.finish(st, t, NONE)
                return children(it, st, t)
            if ("turn",) in st.q:
                return it.finish(st, t, NONE)
            none = st.copy()
            st.q = st.q | {("turn",)}
            return it.finish(st, t, option_some(mk("sym", "selected"))) + it.finish(none, t, NONE)
        if s in ("extend", "append", "extend_from_slice") and len(args) == 2 and args[0].k == "ref" and "oxvg_ast" not in full:
            old, new = it.strip(st, args[0]), it.strip(st, args[1])
            it.write(st, args[0].t[2], args[0].t[3], mk("res", None, "joined", (old, new)))
            return it.finish(st, t, UNIT)
        if s in ("take", "skip", "step_by", "filter", "take_while", "skip_while", "map_while", "nth", "rev", "last") and args and mk("sym", "children") in set(walk(it.strip(st, args[0]), limit=30)):
            n = it.strip(st, args[1]) if len(args) > 1 else None
            if s == "take" and n is not None and n.k == "k":
                return it.finish(st, t, mk("res", None, "at most", (it.strip(st, args[0]), n)))
            raise ToolError(f"the parts of the state are gone through by {s}")
        if s == "children_iter":
            return it.finish(st, t, mk("sym", "children"))
        if s in ("from", "into") and args:
            v = it.strip(st, args[0])
            if v.k == "res" and short(v.t[2]) in ("new", "from_elem") and not v.t[3] or v == mk("k", ("bytes", b"")) or empty_vec(v):
                return it.finish(st, t, EMPTY)
        if s in ("deref", "as_ref", "clone", "as_str", "as_deref", "local_name", "prefix") and len(args) == 1 and v0 is not None and v0.k in ("sym", "k") :
            return it.finish(st, t, mk("refv", v0) if s not in ("clone", "as_document") else v0)
        if s == "as_document" and args:
            return it.finish(st, t, v0)
        if "oxvg_ast::" in full and args and known(it, st, args[0]) not in (None, "nothing") and re.search("child|sibling|parent|contains|ancestor|replace|clone_node", s):
            raise ToolError(f"the document is looked at by {s}")
        return None

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((A, "<" + A)), track=lambda v: True, max_states=6000, explore_closures=False)
    it.pure = lambda n: True
    return it


EMPTY = mk("sym", "empty list")


def known(it, st, v):
    """An element that is followed, also when it is optional."""
    v = element(it, st, v)
    if v.k == "adt" and v.t[1] == OPTION:
        return "nothing" if v == NONE else known(it, st, v.t[3][0])
    return v if v in (ROOT, OTHER) or v.k == "sym" and str(v.t[1]).rstrip("'") in ("state", "history", "selection") else None


def empty_vec(v):
    return v.k == "adt" and short(v.t[1]) == "Vec" and not any(x.k == "sym" for x in walk(v, limit=20)) or v.k == "tup" and not v.t[1]


def names_of(it, st, a, whole=False):
    """The name of an attribute, told from its value."""
    if not whole:
        v = raw_value(a)
        if v is not None:
            rest = [x for x in a.t[3] if x is not v]
            out = set()
            for r in rest:
                out |= strings(r)
            return tuple(sorted(out))
    return tuple(sorted(strings(a)))


def raw_value(a):
    if a.k == "adt" and short(a.t[1]) == "Attr" and len(a.t[3]) == 2:
        return a.t[3][1]
    return None


def attr_value(it, st, a):
    v = raw_value(a)
    return base(it, st, v) if v is not None else mk("sym", "value")


S, H, L = mk("sym", "state"), mk("sym", "history"), mk("sym", "selection")


def sequences(ctx, prog, action):
    fs = [f for f in prog.fns.values() if f.id.startswith(A) and short(f.id) == "dispatch"]
    if not fs:
        raise ToolError("actions are run in another way")
    f = fs[0]
    start, ids = [], written_name(ctx, prog)
    for kids in (frozenset(), frozenset({("children",)})):
        start.append((actor(prog, S, NONE, NONE), kids))
        held = kids | {("in", H, S), ("in", L, S), ("attr", L, ids, mk("sym", "before"))}
        start.append((actor(prog, S, option_some(H), option_some(L)), held | {("declared before",)}))
        start.append((actor(prog, S, option_some(H), NONE), kids | {("in", H, S)}))
    kinds = [(w, v) for w, v in samples(prog, action) if "without" not in w]
    seen, todo, n = set(start), list(start), 0
    while todo:
        a, q = todo.pop()
        n += 1
        if n > 400:
            raise ToolError("too many situations")
        for what, value in kinds:
            for a2, q2 in step(ctx, prog, f, what, value, a, q):
                if (a2, q2) not in seen:
                    seen.add((a2, q2))
                    todo.append((a2, q2))
    ctx.count("situations", len(seen))
    ctx.floor("situations", 6)


def written_name(ctx, prog):
    """The name of the attribute the selection is written to."""
    fs = [f for f in prog.fns.values() if f.id.startswith(A) and short(f.id) == "effect_selection"]
    if not fs:
        raise ToolError("the selection is written in another way")
    it = interp(ctx, prog, lambda it, st, t: it.finish(st, t, NONE))
    a = actor(prog, S, option_some(H), option_some(L))
    names = set()
    for e in it.run(fs[0], args=[mk("ref", True, ("D", ACTOR), ()), mk("refv", mk("sym", "list"))], q=frozenset(), mem={("D", ACTOR): a}):
        if e.kind == "ret":
            names |= {x[2] for x in e.state.q if x[0] == "attr" and x[1] == L}
    if len(names) != 1:
        raise ToolError("where the selection is written is not followed")
    return names.pop()


def step(ctx, prog, f, what, value, a, q):
    it = interp(ctx, prog, lambda it, st, t: it.finish(st, t, NONE))
    mem = {("D", ACTOR): a}
    ends = it.run(f, args=[mk("ref", True, ("D", ACTOR), ()), value], q=q, mem=mem)
    ctx.analysed(*it.visited_fns)
    out = []
    kind = what
    for e in ends:
        if e.kind != "ret":
            continue
        v = it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != RESULT:
            raise ToolError(f"the outcome of {what} is not followed")
        if v.t[2] == 1:
            continue
        ctx.count("outcomes")
        q2 = e.state.q
        a2 = it.strip(e.state, e.state.mem[("D", ACTOR)])
        state, hist, sel = (part(prog, it, e.state, a2, "state", n) for n in ("state", "history", "selection"))
        if state is None or state.k != "sym" or hist is None or sel is None:
            raise ToolError(f"the state after {what} is not followed")
        h = hist.t[3][0] if hist != NONE else None
        l = sel.t[3][0] if sel != NONE else None
        declared = [x for x in q2 if x[0] == "attr" and x[1] == ROOT]
        where = f.where()
        if kind == "Forget":
            ctx.obligation(Doc.parent(q2, state) is None, "forget: state", where, "the state is still in the document after forgetting")
            ctx.obligation(not declared, "forget: prefix", where, "the prefix of the state is still declared after forgetting")
        else:
            ctx.obligation(Doc.parent(q2, state) == ROOT, f"{kind}: state", where, f"the state is not in the document after {kind}")
            ctx.obligation(("last", state) in q2, f"{kind}: last", where, f"the state is not the last element of the document after {kind}, where it is looked for")
            ctx.obligation(bool(declared) or ("declared before",) in q2, f"{kind}: prefix", where, f"the prefix of the state is not declared after {kind}")
            ctx.obligation(h is not None and Doc.parent(q2, h) == state, f"{kind}: history", where, f"the history is not in the state after {kind}")
        ctx.obligation(("recorded",) in q2, f"{kind}: recorded", where, f"{kind} is not recorded")
        if l is not None:
            ctx.obligation(Doc.parent(q2, l) == state, f"{kind}: selection", where, f"after {kind} the selection is kept in an element outside the document")
        ids = [x[3] for x in q2 if x[0] == "attr" and l is not None and x[1] == l]
        stray = [x for x in q2 if x[0] == "in" and x[2] == state and x[1] not in (h, l)]
        ctx.obligation(not stray, f"{kind}: parts", where, f"after {kind} the state holds an element that is no longer used")
        if kind in ("Deselect", "Forget") or ("nothing",) in q2 and kind == "Select":
            ctx.obligation(not ids, f"{kind}: deselected", where, f"something is still selected after {kind}")
        if kind in ("Select", "SelectMore", "Insert") and ("something",) in q2 and ("nothing",) not in q2:
            ctx.obligation(bool(ids), f"{kind}: selected", where, f"nothing is selected after {kind}")
            if kind == "SelectMore":
                had = any(x[0] == "attr" and x[1] == L for x in q)
                for x in ids:
                    w = set(walk(x, limit=60))
                    ctx.obligation(mk("sym", "made") in w, "SelectMore: new", where, "what is to be selected as well is not selected")
                    ctx.obligation(not had or mk("sym", "read") in w, "SelectMore: before", where, "what was selected before is no longer selected after selecting more")
            if kind == "Select":
                ctx.obligation(all(mk("sym", "made") in set(walk(x, limit=40)) for x in ids), f"{kind}: what", where, f"something else is selected after {kind}")
        q3 = frozenset(x for x in q2 if x[0] in ("in", "last", "children", "attr", "declared before"))
        if kind == "Forget":
            q3 = q3 - {("declared before",)}
        # names of new elements and values are forgotten
        live = {state} | ({h} if h is not None else set()) | ({l} if l is not None else set()) | {ROOT}
        q3 = frozenset(x for x in q3 if len(x) == 1 or x[1] in live)
        ren = {l: L} if l is not None else {}
        if h is not None:
            ren[h] = H
        q3 = frozenset(tuple(ren.get(y, y) for y in (x[:3] + (mk("sym", "before"),) if x[0] == "attr" else x)) for x in q3)
        out.append((actor(prog, state, option_some(H) if h is not None else NONE, option_some(L) if l is not None else NONE), q3))
    return set(out)


def taken_out(ctx, prog):
    """Taking the state out of a document picks up its parts."""
    fs = [f for f in prog.fns.values() if f.id.startswith(A) and short(f.id) == "debed" and f.kind in ("fn", "method")]
    if not fs:
        raise ToolError("the state is taken out in another way")
    f = fs[0]
    for there in (True, False):
        for order in ((H, L), (L, H), (H,), ()) if there else ((),):
            def children(it, st, t):
                i = sum(1 for x in st.q if x[0] == "child")
                if i >= len(order):
                    return it.finish(st, t, NONE)
                st.q = st.q | {("child", i)}
                return it.finish(st, t, option_some(order[i]))

            it = interp(ctx, prog, children)
            q = frozenset({("in", S, ROOT), ("last", S)} | {("in", x, S) for x in order}) if there else frozenset()
            hook = it.hook

            def hook2(it, st, t, name, c, args):
                s = short(c["fn"])
                if s == "qual_name" and args:
                    return it.finish(st, t, mk("refv", element(it, st, args[0])))
                if s in ("local_name", "prefix") and args and element(it, st, args[0]).k == "sym":
                    return it.finish(st, t, mk("refv", mk("k", str(element(it, st, args[0]).t[1]))))
                g = mine(prog, c)
                if g is not None and g.argc == 1 and g.kind in ("fn", "method") and re.match(r"^core::result::Result<\(\),", prog.tys(g, g.locals[0])):
                    return it.finish(st, t, ok(UNIT))
                return hook(it, st, t, name, c, args)

            it.hook = hook2
            ends = it.run(f, args=[RNODE, mk("sym", "allocator")][:f.argc], q=q)
            ctx.analysed(*it.visited_fns)
            for e in ends:
                if e.kind != "ret":
                    continue
                v = it.strip(e.state, e.value)
                if v.k != "adt" or v.t[1] != RESULT:
                    raise ToolError("what is taken out is not followed")
                what = " and ".join(str(x.t[1]) for x in order) or "nothing"
                if v.t[2] == 1:
                    ctx.obligation(False, f"taken out: {what}", f.where(), f"a state with {what} is refused")
                    continue
                ctx.count("states taken out")
                state, hist, sel = (part(prog, it, e.state, v.t[3][0], n) for n in ("state", "history", "selection"))
                if there:
                    ctx.obligation(state == S, f"taken out: state of {what}", f.where(), "a state in the document is not found")
                    ctx.obligation(Doc.parent(e.state.q, S) is None, f"taken out: removed with {what}", f.where(), "the state stays in the document while it is being worked on")
                for n, x, y in (("history", H, hist), ("selection", L, sel)):
                    ctx.obligation(y == (option_some(x) if x in order else NONE), f"taken out: {n} of {what}", f.where(), f"the {n} of a state with {what} is {'lost' if x in order else 'made up'}")
    ctx.floor("states taken out", 5)


def readers(ctx, prog):
    """What is written as the selection is what the readers of it look at."""
    name = written_name(ctx, prog)
    a = actor(prog, S, option_some(H), option_some(L))
    n = 0
    for f in prog.fns.values():
        if f.id.startswith(A) and short(f.id) in ("get_selections_list", "from_state") and f.kind in ("fn", "method") and "Action" not in f.id:
            it = interp(ctx, prog, lambda it, st, t: it.finish(st, t, NONE))
            q = frozenset({("attr", L, name, mk("res", None, "text", (mk("sym", "list"),)))})
            args = [mk("ref", True, ("D", ACTOR), ())] if short(f.id) != "from_state" else [mk("refv", part(prog, it, None, a, "state")), mk("sym", "allocator")]
            for e in it.run(f, args=args[:f.argc], q=q, mem={("D", ACTOR): a}):
                if e.kind != "ret":
                    continue
                v = it.strip(e.state, e.value)
                if v.k == "adt" and v.t[1] == RESULT and v.t[2] == 0:
                    n += 1
                    x = list(walk(v, limit=200))
                    ctx.obligation(mk("sym", "list") in x, f"{short(f.id)}: reads", f.where(), f"{short(f.id)} does not give the selection that was written")
    ctx.count("readers of the selection", n)
    ctx.floor("readers of the selection", 2)
