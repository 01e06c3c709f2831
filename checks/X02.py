"""X02: the computed style of an element is the one the cascade gives."""
import itertools

from facts import ToolError
from interp import Interp, mk, UNIT
from terms import some as option_some, NONE, OPTION, RESULT, walk, peel
from A02 import guarded, ok
from J05 import short

TECHNIQUE = "abstract interpretation over MIR with provenance of the style that wins, and a typestate check of the selectors in force"
EXPLANATION = (
    "Looking up a style is followed for every set of sources that have one (important and plain style attribute, important and plain stylesheet rules, presentation attribute, parent): the result must come from the one that takes precedence, say whether it is conditional, and among several declarations in a style attribute be the last. "
    "Taking over the parent's styles is followed: they must be taken over in the order of precedence, so that a later one replaces an earlier one. "
    "Recording a rule is followed with a less, equally and more specific one recorded before: the more specific one stays and an equal one is replaced; important and plain declarations go to their own records. "
    "Matching the selectors of a rule is followed: no selector may be left in force when the next is tried, a rule that applies under a condition is recorded as conditional, and its specificity is that of the selector that matched."
)
LEVEL_NOTE = "All paths of the functions that build and read computed styles. Whether a single selector matches an element is decided by a library and not followed; loops are followed for one turn and the next."

S = "oxvg_ast::style::"
CS = S + "ComputedStyles"
DB = "lightningcss::declaration::DeclarationBlock"
# from what wins to what loses
ORDER = ["inline important", "important rule", "inline", "rule", "attr", "parent"]
PASS = {"deref", "as_ref", "as_slice", "borrow", "as_deref", "into_iter", "iter", "cloned", "copied", "clone", "by_ref", "deref_mut", "borrow_mut", "flatten", "as_mut", "iter_mut", "unwrap_or_default"}


def check(ctx):
    prog = ctx.program("native", ["oxvg_ast.lib", "oxvg_collections.lib"])
    for a in (CS, S + "Style", S + "Static", S + "Mode", DB):
        if a not in prog.adts:
            raise ToolError(f"{short(a)} is gone")
    for g in (lookup, parents, recorded, routed, selectors, every):
        guarded(ctx, g.__name__, lambda: g(ctx, prog))


def fields(prog, a, i=0):
    return [f[0] for f in prog.adts[a].variants[i].fields]


def variant(prog, a, name):
    for i, v in enumerate(prog.adts[a].variants):
        if v.name == name:
            return i
    raise ToolError(f"{short(a)}::{name} is gone")


def style(prog, what, conditional):
    if conditional:
        return mk("adt", S + "Style", variant(prog, S + "Style", "Dynamic"), (mk("sym", what),))
    css = mk("adt", S + "Static", variant(prog, S + "Static", "Css"), (mk("sym", what),))
    return mk("adt", S + "Style", variant(prog, S + "Style", "Static"), (css,))


def sources(prog, have=frozenset()):
    """A computed style whose parts are the sources, and inline styles when there are some."""
    block = mk("adt", DB, 0, tuple(mk("sym", "inline important" if f == "important_declarations" else "inline") for f in fields(prog, DB)))
    part = {"inherited": mk("sym", "parent"), "declarations": mk("sym", "rule"), "attr": mk("sym", "attr"), "important_declarations": mk("sym", "important rule"),
            "inline": option_some(block) if have is None or {"inline", "inline important"} & have else NONE}
    fs = fields(prog, CS)
    if set(fs) != set(part):
        raise ToolError("the sources of styles are not the known ones")
    return mk("adt", CS, 0, tuple(part[f] for f in fs))


def source(it, st, v, d=0):
    """(source, reversed) a collection or iterator stands for."""
    v = it.strip(st, v)
    while v.k in ("refv",):
        v = v.t[1]
    if v.k == "sym" and v.t[1] in ORDER:
        return v.t[1], False
    if v.k == "res" and v.t[2] in ("through", "backwards", "mapped") and d < 8:
        s = source(it, st, v.t[3][0], d + 1)
        return s and (s[0], s[1] != (v.t[2] == "backwards"))
    return None


# -- looking up -----------------------------------------------------------------

def lookup(ctx, prog):
    fns = [f for f in prog.fns.values() if f.id.startswith(CS + "::") and f.kind == "method" and f.pub and f.argc == 2
           and prog.tys(f, f.locals[0]).startswith(OPTION + "<(") and prog.tys(f, f.locals[1]) == "&" + CS and "str" not in prog.tys(f, f.locals[2])]
    ctx.count("ways of looking up", len(fns))
    ctx.floor("ways of looking up", 2)
    for f in fns:
        attr = "AttrId" in prog.tys(f, f.locals[2])
        names = ORDER if attr else [x for x in ORDER if x != "attr"]
        for n in range(len(names) + 1):
            for have in itertools.combinations(names, n):
                for conditional in (False, True):
                    one(ctx, prog, f, frozenset(have), conditional)


def one(ctx, prog, f, have, conditional):
    def entry(name, last):
        return mk("sym", f"{name}: {'last' if last else 'first'}")

    def hook(it, st, t, nm, c, args):
        s = short(c["fn"])
        src = source(it, st, args[0]) if args else None
        if src is not None:
            if s in ("get", "get_mut", "remove") and len(args) == 2:
                if src[0] not in have:
                    return it.finish(st, t, NONE)
                v = style(prog, src[0] + ": last", conditional)
                return it.finish(st, t, option_some(mk("refv", v if src[0] == "parent" else mk("tup", (mk("sym", "specificity"), v)))))
            if s in ("find", "rfind"):
                return it.finish(st, t, option_some(mk("refv", entry(src[0], src[1] != (s == "rfind") or src[0] == "attr"))) if src[0] in have else NONE)
            if s == "rev":
                return it.finish(st, t, mk("res", None, "backwards", (args[0],)))
            if s in PASS:
                return it.finish(st, t, mk("res", None, "through", (args[0],)))
            if not ("Option" in c["fn"] or s in ("drop", "fmt")):
                raise ToolError(f"{s} on a source of styles is not followed")
        if s in ("try_into", "try_from") and len(args) == 1:
            v = it.strip(st, args[0])
            got = mk("adt", RESULT, 0, (mk("res", None, "converted", (args[0],)),))
            if any(x.k == "sym" and ": " in str(x.t[1]) for x in walk(v)):
                return it.finish(st, t, got)
            no = st.copy()
            return it.finish(st, t, got) + it.finish(no, t, mk("adt", RESULT, 1, (mk("sym", "no such id"),)))
        if s in ("contains", "is_static") and "oxvg_collections" in (c.get("res") or "") + c["fn"]:
            return None
        if s in ("into", "from") and len(args) == 1 and not any(x.k == "sym" and ": " in str(x.t[1]) for x in walk(it.strip(st, args[0]))):
            return it.finish(st, t, mk("sym", "id of the property"))
        if nm.startswith("oxvg_collections::") or nm.startswith("<oxvg_collections::") or "oxvg_collections::" in nm and s in ("into", "from"):
            return it.opaque_call(st, t, nm, args, c)
        return None

    it = Interp(prog, hook=hook, max_states=6000)
    ends = it.run(f, args=[mk("refv", sources(prog, have)), mk("sym", "id")], q=frozenset())
    ctx.analysed(*it.visited_fns)
    ctx.count("sets of sources")
    top = next((x for x in ORDER if x in have), None)
    what = f"{short(f.id)}: {', '.join(x for x in ORDER if x in have) or 'nothing'}{' (conditional)' if conditional else ''}"
    seen = False
    for e in ends:
        if e.kind != "ret":
            continue
        v = it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != OPTION:
            raise ToolError("what is looked up is not followed")
        if v.t[2] == 0:
            ctx.obligation(top in (None, "parent"), what, f.where(), f"the style given by the {top} is not found")
            continue
        got = {str(x.t[1]) for x in walk(v) if x.k == "sym" and ": " in str(x.t[1])}
        if len(got) != 1:
            raise ToolError("where a style comes from is not followed")
        name, place = got.pop().split(": ")
        seen = True
        ctx.obligation(name == top, what, f.where(), f"the style given by the {name} is taken although there is one given by the {top}")
        if name == top:
            ctx.obligation(place == "last", what + ": last", f.where(), f"the first of several declarations of the {name} is taken instead of the last")
            p = it.strip(e.state, v.t[3][0])
            m = it.strip(e.state, p.t[1][1]) if p.k == "tup" else p
            want = conditional and name in ("rule", "important rule", "parent")
            if m.k != "adt":
                raise ToolError("whether a style is conditional is not followed")
            ctx.obligation((m.t[2] == variant(prog, S + "Mode", "Dynamic")) == want, what + ": conditional", f.where(),
                           f"a style given by the {name} is said to apply {'always' if want else 'under a condition'}")
    if top is not None and not seen:
        ctx.obligation(False, what, f.where(), f"the style given by the {top} is never found")


# -- the parent's styles ----------------------------------------------------------

def parents(ctx, prog):
    f = prog.fns.get(CS + "::with_inherited")
    if f is None:
        raise ToolError("where the parent's styles are taken over is not found")
    theirs = sources(prog, None)

    def hook(it, st, t, nm, c, args):
        s = short(c["fn"])
        if s == "with_all":
            return it.finish(st, t, ok(theirs))
        if s == "parent_element":
            return it.finish(st, t, option_some(mk("sym", "parent element")))
        if s in ("eq", "ne") and not any(source(it, st, a) for a in args):
            return it.finish(st, t, mk("k", s == "ne"))
        if s in ("extend", "extend_one", "insert") and args and args[0].k == "ref":
            src = source(it, st, args[-1])
            if src is None:
                names = {x.t[1] for a in args[1:] for x in walk(it.strip(st, a)) if x.k == "sym" and x.t[1] in ORDER}
                if len(names) != 1:
                    raise ToolError("what is taken over from the parent is not followed")
                src = (names.pop(), False)
            st.q = st.q + (src[0],)
            return it.finish(st, t, UNIT)
        src = source(it, st, args[0]) if args else None
        if src is not None:
            if s == "next":
                # one style, then no more
                if ("turn", src[0]) in st.q:
                    return it.finish(st, t, NONE)
                st.q = st.q + (("turn", src[0]),)
                return it.finish(st, t, option_some(mk("res", None, "item", (mk("sym", src[0]),))))
            if s in ("for_each", "try_for_each"):
                return it.call_closure(st, t, args[1], [mk("res", None, "item", (mk("sym", src[0]),))], "closure")
            if s == "rev":
                return it.finish(st, t, mk("res", None, "backwards", (args[0],)))
            if s == "filter" or s == "filter_map" or s in ("skip", "take"):
                raise ToolError("styles are left out on the way from the parent")
            if s in PASS or s in ("map", "chain"):
                if s == "chain":
                    raise ToolError("styles chained on the way from the parent are not followed")
                return it.finish(st, t, mk("res", None, "through", (args[0],)))
        if s in ("into_iter", "flatten") and args:
            v = it.strip(st, args[0])
            if v.k == "adt" and v.t[1] == OPTION and v.t[2] == 1 and source(it, st, v.t[3][0]):
                return it.finish(st, t, mk("res", None, "through", (v.t[3][0],)))
        return None

    it = Interp(prog, hook=hook, max_states=6000)
    own = sources(prog)
    ends = it.run(f, args=[own] + [mk("sym", f"arg{i}") for i in range(2, f.argc + 1)], q=())
    ctx.analysed(*it.visited_fns)
    n = 0
    for e in ends:
        if e.kind != "ret":
            continue
        v = it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != RESULT or v.t[2] == 1:
            continue
        got = [x for x in e.state.q if isinstance(x, str)]
        if not got:
            continue
        n += 1
        want = list(reversed(ORDER))
        for x in ORDER:
            ctx.obligation(x in got, f"parent: {x}", f.where(), f"a parent's style given by the {x} is not taken over")
        last = [x for i, x in enumerate(got) if x not in got[i + 1:]]
        for a, b in itertools.combinations([x for x in want if x in last], 2):
            ctx.obligation(last.index(a) < last.index(b), f"parent: {b} over {a}", f.where(), f"a parent's style given by the {a} is inherited over the one given by the {b}")
    ctx.count("ways of taking over", n)
    ctx.floor("ways of taking over", 1)


# -- recording --------------------------------------------------------------------

def recorded(ctx, prog):
    f = prog.fns.get(CS + "::set_declarations")
    if f is None:
        raise ToolError("where rules are recorded is not found")
    arg = {}
    for i in range(1, f.argc + 1):
        t = prog.tys(f, f.locals[i])
        arg["record" if "HashMap" in t else "from" if "Property" in t else "specificity" if t == "u32" else "mode"] = i
    if set(arg) != {"record", "from", "specificity", "mode"}:
        raise ToolError("the function that records rules takes something else")
    for before in (None, 4, 5, 6):
        for mode in ("Static", "Dynamic"):
            def hook(it, st, t, nm, c, args):
                s = short(c["fn"])
                v0 = it.strip(st, args[0]) if args else None
                while v0 is not None and v0.k == "refv":
                    v0 = v0.t[1]
                rec = v0 is not None and v0.k == "sym" and v0.t[1] == "record"
                if rec and s in ("get", "get_mut"):
                    old = mk("tup", (mk("k", before), mk("sym", "style before"))) if before is not None else None
                    return it.finish(st, t, NONE if old is None else option_some(mk("refv", old)))
                if rec and s == "contains_key":
                    return it.finish(st, t, mk("k", before is not None))
                if rec and s == "insert":
                    st.q = st.q + (it.strip(st, args[2]),)
                    return it.finish(st, t, NONE)
                if rec and s not in ("deref", "deref_mut", "reserve", "len", "is_empty"):
                    raise ToolError(f"{s} on the record of rules is not followed")
                if s in ("for_each", "try_for_each") and len(args) == 2:
                    st.q = st.q + (("turn",),)
                    return it.call_closure(st, t, args[1], [mk("refv", mk("sym", "declaration"))], "closure")
                if s == "next" and len(args) == 1:
                    # one declaration, then no more
                    if ("turn",) in st.q:
                        return it.finish(st, t, NONE)
                    st.q = st.q + (("turn",),)
                    return it.finish(st, t, option_some(mk("refv", mk("sym", "declaration"))))
                return None
            it = Interp(prog, hook=hook, max_states=3000)
            args = [None] * f.argc
            args[arg["record"] - 1] = mk("ref", True, ("D", mk("sym", "the record")), ())
            args[arg["from"] - 1] = mk("sym", "declarations")
            args[arg["specificity"] - 1] = mk("k", 5)
            args[arg["mode"] - 1] = mk("adt", S + "Mode", variant(prog, S + "Mode", mode), ())
            ends = it.run(f, args=args, q=(), mem={("D", mk("sym", "the record")): mk("sym", "record")})
            ctx.analysed(*it.visited_fns)
            what = {None: "nothing", 4: "a less specific one", 5: "an equally specific one", 6: "a more specific one"}[before]
            for e in ends:
                if e.kind != "ret" or ("turn",) not in e.state.q:
                    continue
                ctx.count("recordings")
                put = [x for x in e.state.q if x != ("turn",)]
                ctx.obligation(bool(put) == (before != 6), f"recorded over {what}", f.where(),
                               f"a declaration {'replaces' if put else 'is not recorded over'} {what}")
                for v in put:
                    spec = it.strip(e.state, v.t[1][0]) if v.k == "tup" else None
                    stl = it.strip(e.state, v.t[1][1]) if v.k == "tup" else None
                    if spec is None or stl.k != "adt":
                        raise ToolError("what is recorded is not followed")
                    ctx.obligation(spec == mk("k", 5), f"recorded specificity over {what}", f.where(), "a declaration is recorded with another specificity")
                    ctx.obligation((stl.t[2] == variant(prog, S + "Style", "Dynamic")) == (mode == "Dynamic"), f"recorded as {mode.lower()}", f.where(),
                                   f"a declaration that applies {'under a condition' if mode == 'Dynamic' else 'always'} is recorded as one that does not")
    ctx.floor("recordings", 8)


def routed(ctx, prog):
    """Important and plain declarations of a rule go to their own records."""
    f = prog.fns.get(CS + "::add_declarations")
    g = prog.fns.get(CS + "::set_declarations")
    if f is None or g is None:
        raise ToolError("where rules are recorded is not found")
    block = mk("adt", DB, 0, tuple(mk("sym", "important" if x == "important_declarations" else "plain") for x in fields(prog, DB)))
    me = ("D", mk("sym", "styles"))

    def hook(it, st, t, nm, c, args):
        s = short(c["fn"])
        if nm == g.id:
            to = None
            for a in args:
                if a.k == "ref" and a.t[2] == me and a.t[3]:
                    p = a.t[3][-1]
                    to = fields(prog, CS)[p[1]] if p[0] == "f" else None
            what = {x.t[1] for a in args if not (a.k == "ref" and a.t[2] == me) for x in walk(it.strip(st, a)) if x.k == "sym" and x.t[1] in ("important", "plain")}
            if to is None or len(what) != 1:
                raise ToolError("what is recorded where is not followed")
            st.q = st.q | {(to, what.pop(), any(it.strip(st, a) == mk("sym", "specificity") for a in args), any(it.strip(st, a) == mk("sym", "mode") for a in args))}
            return it.finish(st, t, UNIT)
        if s in PASS and args and it.strip(st, args[0]).k == "sym":
            return it.finish(st, t, mk("res", None, "through", (args[0],)))
        return None
    it = Interp(prog, hook=hook, max_states=2000)
    tys = [prog.tys(f, f.locals[i]) for i in range(1, f.argc + 1)]
    args = [mk("ref", True, me, ()) if i == 0 else mk("refv", block) if "DeclarationBlock" in t else mk("sym", "specificity") if t == "u32" else mk("sym", "mode") for i, t in enumerate(tys)]
    for e in it.run(f, args=args, q=frozenset(), mem={me: sources(prog)}):
        if e.kind != "ret":
            continue
        ctx.count("routes")
        to = {(a, b) for a, b, _, _ in e.state.q}
        for a, b in (("important_declarations", "important"), ("declarations", "plain")):
            ctx.obligation((a, b) in to, f"{b} declarations: recorded", f.where(), f"{b} declarations of a rule are not recorded")
            ctx.obligation(not any(x == a and y != b for x, y in to), f"{b} declarations: kept apart", f.where(), f"other declarations are recorded with the {b} ones")
        ctx.obligation(all(x[2] for x in e.state.q), "rule: specificity", f.where(), "declarations are recorded with another specificity than the rule's")
        ctx.obligation(all(x[3] for x in e.state.q), "rule: condition", f.where(), "declarations lose whether the rule is conditional")
    ctx.analysed(*it.visited_fns)
    ctx.floor("routes", 1)


# -- selectors ----------------------------------------------------------------------

def selectors(ctx, prog):
    f = prog.fns.get(CS + "::with_nested_style")
    if f is None:
        raise ToolError("where rules are matched is not found")
    tys = [prog.tys(f, f.locals[i]) for i in range(1, f.argc + 1)]
    rule = "lightningcss::rules::CssRule"
    stack = ("D", mk("sym", "the selectors"))
    me = ("D", mk("sym", "styles"))
    for vi, v in enumerate(prog.adts[rule].variants):
        if v.name not in ("Style", "Media", "Container", "Supports"):
            continue
        nested = v.name != "Style"

        def hook(it, st, t, nm, c, args):
            s = short(c["fn"])
            on = bool(args) and args[0].k == "ref" and args[0].t[2] == stack
            if on and c["fn"].startswith("alloc::vec::Vec::") and s in ("push", "pop", "truncate", "clear", "remove", "insert", "swap_remove", "drain"):
                d = {"push": 1, "pop": -1}.get(s)
                if d is None:
                    raise ToolError(f"{s} on the selectors in force is not followed")
                q = dict(st.q)
                q["depth"] = q["depth"] + d
                if not -3 <= q["depth"] <= 3:
                    q["depth"] = max(-3, min(3, q["depth"]))
                st.q = tuple(sorted(q.items()))
                return it.finish(st, t, UNIT if d == 1 else option_some(mk("sym", "popped")))
            if s == "next" and len(args) == 1:
                q = dict(st.q)
                if q["depth"]:
                    q["left"] = True
                q["depth"] = 0
                st.q = tuple(sorted(q.items()))
                if q["turns"] >= 2:
                    return it.finish(st, t, NONE)
                q["turns"] += 1
                more = st.copy()
                more.q = tuple(sorted(q.items()))
                return it.finish(st, t, NONE) + it.finish(more, t, option_some(mk("refv", mk("sym", f"item {q['turns']}"))))
            if s in ("for_each", "try_for_each") and len(args) == 2:
                q = dict(st.q)
                q["turns"] += 1
                st.q = tuple(sorted(q.items()))
                return it.call_closure(st, t, args[1], [mk("refv", mk("sym", f"item {q['turns']}"))], "closure")
            if s in ("matches_naive", "matches", "matches_with_scope", "matches_with_scope_and_cache"):
                out = []
                for b in (True, False):
                    x = st.copy()
                    q = dict(x.q)
                    q["match"] = (q["turns"], b)
                    x.q = tuple(sorted(q.items()))
                    out += it.finish(x, t, mk("k", b))
                return out
            if s == "specificity":
                w = next((x.t[1] for x in walk(it.strip(st, args[0])) if x.k == "sym" and str(x.t[1]).startswith("item ")), None)
                if w is None:
                    raise ToolError("whose specificity is meant is not followed")
                return it.finish(st, t, mk("sym", f"specificity of {w}"))
            if s == "add_declarations" and nm.startswith(CS):
                q = dict(st.q)
                sp = {x.t[1] for a in args[1:] for x in walk(it.strip(st, a)) if x.k == "sym" and "specificity" in str(x.t[1])}
                m = {x.t[1] for a in args[1:] for x in [it.strip(st, a)] if x.k == "sym" and x.t[1] == "mode"}
                q["added"] = q["added"] + ((q["turns"], q["match"], tuple(sorted(sp)), bool(m)),)
                st.q = tuple(sorted(q.items()))
                return it.finish(st, t, UNIT)
            if nm == f.id:
                q = dict(st.q)
                ms = [it.strip(st, a) for a in args]
                ms = [x for x in ms if x.k == "adt" and x.t[1] == S + "Mode" or x.k == "sym" and x.t[1] == "mode"]
                q["inner"] = q["inner"] + (bool(ms) and ms[0].k == "adt" and ms[0].t[2] == variant(prog, S + "Mode", "Dynamic"),)
                st.q = tuple(sorted(q.items()))
                return it.finish(st, t, ok(UNIT))
            if s in ("to_css_string", "new", "map_err", "join", "to_string", "format") and "Result" not in c["fn"]:
                if s in ("to_css_string", "new") and c.get("trait") is not None or s == "new" and "elector" in c["fn"] and "SelectElement" not in c["fn"]:
                    bad = st.copy()
                    return it.finish(st, t, ok(mk("sym", "text"))) + it.finish(bad, t, mk("adt", RESULT, 1, (mk("sym", "failure"),)))
                return it.finish(st, t, mk("sym", "text"))
            return None

        it = Interp(prog, hook=hook, max_states=8000)
        args = []
        for i, t in enumerate(tys):
            if i == 0:
                args.append(mk("ref", True, me, ()))
            elif "CssRule" in t:
                args.append(mk("refv", mk("adt", rule, vi, tuple(mk("sym", f"rule {v.name}") for _ in v.fields))))
            elif "Vec<" in t:
                args.append(mk("ref", True, stack, ()))
            elif t == "u32":
                args.append(mk("sym", "outer specificity"))
            elif t == S + "Mode":
                args.append(mk("sym", "mode"))
            else:
                args.append(mk("sym", f"arg{i}"))
        q0 = tuple(sorted({"depth": 0, "left": False, "turns": 0, "match": None, "added": (), "inner": ()}.items(), key=lambda x: x[0]))
        ends = it.run(f, args=args, q=q0, mem={me: sources(prog), stack: mk("sym", "selectors in force")})
        ctx.analysed(*it.visited_fns)
        missed = False
        n = 0
        for e in ends:
            if e.kind != "ret":
                continue
            r = it.strip(e.state, e.value)
            if r.k == "adt" and r.t[1] == RESULT and r.t[2] == 1:
                continue
            q = dict(e.state.q)
            n += 1
            ctx.count("matchings")
            ctx.obligation(not q["left"] and q["depth"] == 0, f"{v.name}: selectors in force", f.where(), "a selector stays in force when the next one is tried")
            if nested:
                ctx.obligation(all(q["inner"]), f"{v.name}: conditional", f.where(), "a rule that applies under a condition is recorded as one that always applies")
                missed |= q["turns"] and len(q["inner"]) != q["turns"]
                continue
            for turn, m, sp, mode in q["added"]:
                ctx.obligation(m == (turn, True), "Style: matched", f.where(), "a rule is recorded for an element that its selector does not match")
                ctx.obligation(f"specificity of item {turn}" in sp and "outer specificity" in sp, "Style: specificity", f.where(), "a rule is recorded with another specificity than its selector's")
                ctx.obligation(mode, "Style: condition", f.where(), "whether a rule applies under a condition is lost")
            if q["match"] and q["match"][1] and not any(a[0] == q["match"][0] for a in q["added"]):
                missed = True
        ctx.obligation(not missed, f"{v.name}: applied", f.where(), "a rule that matches is not recorded" if not nested else "rules under a condition are not looked at")
        if not n:
            raise ToolError(f"{v.name} rules are not followed")
    ctx.floor("matchings", 4)


# -- all of them ----------------------------------------------------------------------

def every(ctx, prog):
    f = prog.fns.get(CS + "::with_all")
    if f is None:
        raise ToolError("where all sources are included is not found")
    parts = ("with_inline_style", "with_attribute", "with_style", "with_inherited")
    have = [p for p in parts if CS + "::" + p in prog.fns]
    if len(have) != len(parts):
        raise ToolError("a source of styles is included in another way")

    def hook(it, st, t, nm, c, args):
        s = short(c["fn"])
        if nm.startswith(CS) and s in parts:
            st.q = st.q | {s}
            bad = st.copy()
            if prog.tys(prog.fns[nm], prog.fns[nm].locals[0]).startswith(RESULT):
                return it.finish(st, t, ok(args[0])) + it.finish(bad, t, mk("adt", RESULT, 1, (mk("sym", "failure"),)))
            return it.finish(st, t, args[0])
        return None
    it = Interp(prog, hook=hook, max_states=2000)
    for e in it.run(f, args=[mk("sym", f"arg{i}") for i in range(f.argc)], q=frozenset()):
        if e.kind != "ret":
            continue
        r = it.strip(e.state, e.value)
        if r.k == "adt" and r.t[1] == RESULT and r.t[2] == 1:
            continue
        ctx.count("inclusions")
        for p in parts:
            ctx.obligation(p in e.state.q, f"all: {p}", f.where(), f"{p} is left out of the computed style")
    ctx.analysed(*it.visited_fns)
    ctx.floor("inclusions", 1)
