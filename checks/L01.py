"""L01: each rule of the linter reports exactly what it is for, with the severity it was given."""
import os
import re

from facts import ToolError
from interp import Interp, mk
from terms import walk, some as option_some, NONE, OPTION
from J05 import And, Or, Not, Path, always, call, fact, mentions, option_of, short, some, told, variant, known as vocabulary

TECHNIQUE = "abstract interpretation over MIR: all paths through the linter's callbacks with one rule switched on at a time, the facts known on each path compared with a condition for the report"
EXPLANATION = (
    "The linter's callbacks for an element, the end of an element and the end of the document are followed on all paths with one rule switched on and every other "
    "off. On each path the facts established about the element, the attribute, the identifier or the namespace must imply the rule's condition where a problem is "
    "reported and its opposite where none is; the problem must be of the rule's kind, name what it is about, carry the rule's severity and point at that attribute. "
    "With every rule off nothing may be reported. Identifiers and references must be recorded as such."
)
LEVEL_NOTE = "Eight rules, three callbacks, all paths; attributes, identifiers and namespaces are followed for one representative."

R = "oxvg_lint::rules::"
VISITOR = "oxvg_ast::visitor::Visitor"
ERROR = "oxvg_lint::error::Error"
ATTR = "oxvg_collections::attribute::Attr"
ATTRID = "oxvg_collections::attribute::AttrId"
ELEMENT = "oxvg_collections::element::ElementId"
PREFIX = "oxvg_collections::name::Prefix"


def of_attr(v):
    return any(x.k == "res" and x.t[2].endswith("#element") for x in walk(v, limit=40))


def is_attr(v):
    """The attribute itself, not something asked of it."""
    v = peeled(v)
    return v.k == "res" and v.t[2].endswith("#element")


def peeled(v):
    while v.k in ("refv", "deref") or v.k == "res" and short(v.t[2]) in ("unaliased", "deref", "clone", "as_ref") and v.t[3]:
        v = v.t[1] if v.k != "res" else v.t[3][0]
    return v


def prefix(of, name):
    """The prefix of the attribute or of the element is this one."""
    def f(p):
        d = p.discr(lambda v: any(x.k == "res" and short(x.t[2]) == "prefix" for x in walk(v, limit=40)) and of(v))
        if d is not None:
            n = p.variant(PREFIX, name)
            if d[0] is not None:
                return d[0] == n
            if n in d[1]:
                return False
        return fact(lambda t: t.k == "res" and short(t.t[2]) in ("eq",) and "prefix" in mentions(t) and of(t) and
                    any(x.k == "adt" and x.t[1] == PREFIX and x.t[2] == p.variant(PREFIX, name) for x in walk(t, limit=40)))(p)
    return f


def bits(p, *consts):
    n = 0
    for c in consts:
        n |= p.bits(c)
    return n


def flags(subject, *consts):
    def f(p):
        want = bits(p, *consts)
        def test(t):
            return t.k == "res" and short(t.t[2]) == "intersects" and subject(t) and asked(p, t) == want
        return fact(test)(p)
    return f


def asked(p, t):
    """The flags a test asks for."""
    n = 0
    for a in t.t[3][1:]:
        for x in walk(a, limit=40):
            if x.k == "k" and isinstance(x.t[1], int) and not isinstance(x.t[1], bool):
                n |= x.t[1]
    return n


def attr_is(*names, unaliased=False):
    """The attribute is one of these; where asked, also when it is written under another prefix."""
    def f(p):
        if unaliased:
            plain = p.discr(lambda v: is_attr(v) and "unaliased" not in mentions(v))
            n = p.variant(ATTR, "Aliased")
            if plain is None or plain[0] == n or n in plain[1]:
                return variant(is_attr, *names, of=ATTR)(p)
            return variant(lambda v: is_attr(v) and "unaliased" in mentions(v), *names, of=ATTR)(p)
        return variant(is_attr, *names, of=ATTR)(p)
    return f


def xlink(name):
    return attr_is(name, unaliased=True)


def leftover(p):
    """A path or a list of points with a rest that was not understood."""
    d = p.discr(lambda v: v.k == "fld" and of_attr(v) and not is_attr(v) and "Unparsed" not in repr(v))
    return option_of(d)


def known_id(p):
    d = p.discr(lambda v: of_attr(v) and not is_attr(v) and re.search(r"attr_id|@\d+\.0", repr(v)) is not None)
    if d is None:
        return None
    n = p.variant(ATTRID, "Unknown")
    return d[0] != n if d[0] is not None else (True if n in d[1] else None)


def show(*names):
    """The value of an xlink:show attribute."""
    def f(p):
        d = p.discr(lambda v: peeled(v).k == "fld" and of_attr(v) and "@" in repr(v))
        if d is None:
            return None
        want = {p.variant("oxvg_collections::attribute::xlink::XLinkShow", n) for n in names}
        if d[0] is not None:
            return d[0] in want
        return False if want <= d[1] else None
    return f


def element_known(p):
    d = p.discr(lambda v: "qual_name" in mentions(v) and "parent_element" not in mentions(v) and not of_attr(v))
    n = p.variant(ELEMENT, "Unknown")
    if d is None:
        return None
    return d[0] != n if d[0] is not None else (True if n in d[1] else None)


UNKNOWN_ATTRIBUTE = And(
    element_known,
    Not(fact(lambda t: t.k == "res" and short(t.t[2]) == "contains" and "expected_attributes" in mentions(t) and of_attr(t), absent=None)),
    Not(fact(lambda t: t.k == "res" and short(t.t[2]) == "intersects" and {"expected_attribute_groups", "attribute_group"} <= mentions(t))),
    Not(prefix(of_attr, "XMLNS")))

XLINK = And(Not(xlink("XLinkHref")), Not(xlink("XLinkTitle")), Not(And(xlink("XLinkShow"), show("New", "Replace"))), prefix(of_attr, "XLink"))


def is_default(p):
    if some(lambda v: "default" in mentions(v) and of_attr(v))(p) is False:
        return False
    def test(name):
        return fact(lambda t: t.k == "res" and short(t.t[2]) == name and of_attr(t) and "default" in mentions(t))
    eq = test("eq")(p)
    return eq if eq is not None else Not(test("ne"))(p)


def not_missing(*names):
    return lambda p: False if some(lambda v: v.k == "res" and short(v.t[2]) in names)(p) is False else True


def of_references(v):
    return any(x.k == "sym" and x.t[1] == "referenced_ids" for x in walk(v, limit=100))


def script(p):
    want = p.bits("ContextFlags::query_has_script_result")
    return fact(lambda t: t.k == "res" and short(t.t[2]) in ("intersects", "contains") and "flags" in repr(t) and asked(p, t) == want)(p)


def child_not_permitted(p):
    return fact(lambda t: t.k == "res" and short(t.t[2]) == "is_permitted_child" and "parent_element" in mentions(t.t[3][0]) and "parent_element" not in mentions(t.t[3][1]))(p)


# rule -> callback -> problem -> condition
SPEC = {
    "no_unknown_elements": {"element": {"UnknownElement": And(
        some(lambda v: "parent_element" in mentions(v) and v.k == "res"),
        prefix(lambda v: not of_attr(v), "SVG"), Not(child_not_permitted))}},
    "no_unknown_attributes": {"element": {"UnknownAttribute": UNKNOWN_ATTRIBUTE}},
    "no_deprecated": {"element": {
        "DeprecatedElement": flags(lambda t: not of_attr(t) and "info" in mentions(t), "ElementInfo::Legacy"),
        "DeprecatedAttribute": flags(of_attr, "AttributeInfo::DeprecatedSafe", "AttributeInfo::DeprecatedUnsafe")}},
    "no_default_attributes": {"element": {"DefaultAttribute": is_default}},
    "no_x_link": {"element": {
        "XLinkHref": xlink("XLinkHref"), "XLinkTitle": xlink("XLinkTitle"),
        "XLinkShowNew": And(xlink("XLinkShow"), show("New")), "XLinkShowReplace": And(xlink("XLinkShow"), show("Replace")),
        "XLinkUnsupported": XLINK}},
    "no_invalid_attributes": {"element": {"InvalidAttribute": Or(
        And(attr_is("Unparsed"), known_id), And(attr_is("Path", "D", "Points"), leftover))}},
    "no_unused_xmlns": {"exit_element": {"UnreferencedXMLNS": And(
        not_missing("pop_xmlns", "pop"), Not(fact(lambda t: t.k == "fld" and of_attr(t))))}},
    "no_unused_ids": {"exit_document": {"UnreferencedId": And(
        Not(script),
        Not(fact(lambda t: t.k == "res" and short(t.t[2]) in ("contains", "eq") and of_attr(t) and of_references(t))))}},
}
CALLBACKS = ("element", "exit_element", "exit_document")
ABOUT = {"UnknownAttribute", "DeprecatedAttribute", "DefaultAttribute", "InvalidAttribute", "XLinkUnsupported", "UnreferencedXMLNS", "UnreferencedId"}
PLACED = {"UnknownAttribute", "DeprecatedAttribute", "DefaultAttribute", "InvalidAttribute", "XLinkUnsupported", "XLinkHref", "XLinkTitle", "XLinkShowNew", "XLinkShowReplace"}


def check(ctx):
    prog = ctx.program("native", ["oxvg_lint.lib", "oxvg_ast.lib", "oxvg_collections.lib"])
    rules = prog.adts.get(R + "Rules")
    if rules is None or ERROR not in prog.adts:
        raise ToolError("the rules of the linter are gone")
    names = [f[0] for f in rules.variants[0].fields]
    for n in names:
        if n not in SPEC:
            ctx.undecide(n, "a rule without a condition")
    sev = [v.name for v in prog.adts[R + "Severity"].variants]
    items = [(cb, rule, s) for rule in SPEC for cb in CALLBACKS for s in ("Warn", "Error")] + [(cb, None, "Warn") for cb in CALLBACKS]
    for x in SPEC:
        if x not in names:
            ctx.undecide(x, "the rule is gone")
    items = [x for x in items if x[1] is None or x[1] in names]
    makers = reporting(prog)
    ctx.count("rules", len([n for n in names if n in SPEC]))
    ctx.floor("rules", 6)
    ctx.parallel(items, lambda c, x: one(c, prog, makers, names, sev, *x))
    ctx.floor("problems reported", 16)
    for g in (references, css_references, start):
        try:
            g(ctx, prog)
        except ToolError as e:
            ctx.undecide(g.__name__, e)


def reporting(prog):
    """Functions of the linter that report a problem, themselves or through another."""
    out, calls = set(), {}

    def scan(x, f):
        if isinstance(x, list):
            if len(x) > 3 and x[0] == "agg" and x[3] == ERROR:
                out.add(f.id)
            for y in x:
                scan(y, f)

    for f in prog.fns.values():
        if not f.crate.startswith("oxvg_lint"):
            continue
        scan([b["s"] for b in f.blocks], f)
        for _, t in f.calls():
            c = t[1][1] if t[1][0] == "k" else {}
            if isinstance(c, dict) and "fn" in c:
                calls.setdefault(f.id, set()).update((c["fn"], c.get("res")))
        if f.kind == "closure":
            calls.setdefault(f.id.rsplit("::{closure", 1)[0], set()).add(f.id)
    while True:
        more = {f for f, cs in calls.items() if cs & out} - out
        if not more:
            break
        out |= more
    return out


def one(ctx, prog, makers, names, sev, cb, rule, severity):
    f = prog.get(f"<{R}Reporter as {VISITOR}>::{cb}")
    if f is None:
        raise ToolError(f"the linter no longer looks at {cb}")
    label = rule or "every rule off"

    def level(n):
        return mk("adt", R + "Severity", sev.index(n), ())

    rules = mk("adt", R + "Rules", 0, tuple(level(severity if n == rule else "Off") for n in names))
    rep = prog.adts[R + "Reporter"]
    me = mk("adt", R + "Reporter", 0, tuple(mk("refv", rules) if x[0] == "rules" else mk("sym", x[0]) for x in rep.variants[0].fields))

    def element_of(it, st, src, s):
        return mk("res", None, s + "#element", (src,))

    def hook(it, st, t, name, c, args):
        base, s = c["fn"], short(c["fn"])
        v = it.strip(st, args[0]) if args else None
        if base.startswith("log::") or s == "max_level":
            return it.finish(st, t, mk("k", False))
        if s == "unaliased" and args and not short_circuit(v):
            return it.finish(st, t, mk("refv", mk("res", None, "unaliased", (v,))))
        if s in ("unaliased", "clone", "par_iter", "into_par_iter", "par_drain", "drain", "iter", "copied", "cloned", "into_iter", "rev", "unzip", "collect", "to_vec") and args and (
                s == "unaliased" or is_option(v) or "iter" in s or "drain" in s or of_attr(v) or s == "clone"):
            return it.finish(st, t, args[0])
        if s in ("filter_map", "map", "filter", "flat_map", "for_each", "inspect") and "iter" in base.lower() and len(args) == 2 and "option" not in base.lower():
            out, st2 = [], st
            if not is_option(v):
                none = st.copy()
                none.q = none.q | {("nothing to look through",)}
                out = it.finish(none, t, NONE)
                elem = element_of(it, st, v, s)
            elif v.t[2] == 0:
                return it.finish(st, t, NONE)
            else:
                elem = v.t[3][0]
            st2.q = st2.q | {("on", s, elem)}
            r = it.call_closure(st2, t, args[1], [mk("refv", elem) if s in ("filter", "inspect") else elem], "closure", discard=("rep:" + s, 0))
            if not r:
                raise ToolError("what is done with each attribute is not followed")
            return out + r
        if s.startswith("sort"):
            return it.finish(st, t, mk("tup", ()))
        if s == "any" and "iterator" in base and len(args) == 2 and of_references(v):
            return it.call_closure(st, t, args[1], [mk("refv", element_of(it, st, v, s))], "closure") or None
        if s == "next" and "Iterator" in base:
            if ("seen", v) in st.q:
                return it.finish(st, t, NONE)
            none = st.copy()
            none.q = none.q | {("nothing to look through",)}
            st.q = st.q | {("seen", v)}
            return it.finish(none, t, NONE) + it.finish(st, t, option_some(element_of(it, st, v, "next")))
        if s in ("extend", "par_extend") and len(args) == 2:
            x = it.strip(st, args[1])
            if is_option(x):
                if x.t[2] == 1:
                    st.q = st.q | {("report", it.strip(st, x.t[3][0]))}
                return it.finish(st, t, mk("tup", ()))
            if of_attr(x) or "Error" in repr(x):
                raise ToolError("the problems added are not followed")
        if s == "push" and len(args) == 2:
            x = it.strip(st, args[1])
            if x.k == "adt" and x.t[1] == ERROR:
                st.q = st.q | {("report", x)}
                return it.finish(st, t, mk("tup", ()))
        return None

    def after(st, fr, v):
        t = st.top.fn.blocks[st.top.block]["t"]
        what = fr.discard[0]
        v = it.strip(st, v)
        if what in ("rep:filter_map", "rep:flat_map"):
            if not is_option(v):
                raise ToolError("what becomes of each attribute is not followed")
            return it.finish(st, t, v)
        if what == "rep:map":
            return it.finish(st, t, option_some(v))
        if what == "rep:filter":
            elem = [x[2] for x in st.q if isinstance(x, tuple) and x[:2] == ("on", "filter")]
            out = []
            for keep in (True, False):
                s2 = st.copy()
                if v.k == "k":
                    if v.t[1] is not keep:
                        continue
                elif it.assume(s2, v, keep) is False:
                    continue
                out += it.finish(s2, t, option_some(elem[0]) if keep else NONE)
            return out
        return it.finish(st, t, mk("tup", ()))

    it = Interp(prog, hook=hook, opaque=lambda g: g.id not in makers and g.id.rsplit("::{closure", 1)[0] not in makers and not re.search(r"RuleData.*::new$", g.id), track=lambda v: True, max_states=20000)
    it.pure = lambda n: short(n) not in ("next", "push", "extend", "par_extend")
    it.after_discard = after
    ends = it.run(f, args=[mk("refv", me), mk("sym", "element"), mk("sym", "context")][:f.argc], q=frozenset())
    ctx.analysed(*it.visited_fns)
    spec = SPEC.get(rule, {}).get(cb, {})
    rets = [e for e in ends if e.kind == "ret"]
    ctx.count("paths", len(rets))
    for e in rets:
        p = Path(prog, it, e.state)
        reports = [x[1] for x in e.state.q if isinstance(x, tuple) and x[0] == "report"]
        if os.environ.get("L01_DEBUG") == label:
            print(cb, [repr(r)[:60] for r in reports], [(repr(a)[-150:], b) for a, b in e.state.facts.items()])
        got = set()
        for r in reports:
            kind = problem(prog, r)
            got.add(kind)
            ctx.count("problems reported")
            ctx.obligation(kind in spec, f"{label}: {kind}", f.where(), f"with {label} {'alone on' if rule else ''} a problem {kind} is reported at {cb}")
            if kind in spec:
                content(ctx, prog, it, e.state, f, label, kind, r, level(severity))
        for kind, cond in spec.items():
            want = cond(p)
            done = kind in got
            key = f"{label}: {kind}"
            if not done and ("nothing to look through",) in e.state.q and kind in PLACED | ABOUT:
                continue
            if want is None:
                odd = [t for t in p.facts if not vocabulary_here(t)]
                if odd:
                    ctx.undecide(key, "the condition is put in other terms: " + repr(odd[0])[:100])
                    continue
                if not done and decided_elsewhere(spec, got):
                    continue
                ctx.obligation(False, key, f.where(), f"{kind} is {'reported' if done else 'left out'} without asking for all that decides it; {told(p)}")
                continue
            ctx.obligation(want is done, key, f.where(), f"{kind} is {'reported where nothing is wrong' if done else 'not reported where it is due'}; {told(p)}")


def decided_elsewhere(spec, got):
    return len(spec) > 2 and bool(got)


WORDS = {"is_permitted_child", "info", "prefix", "default", "expected_attributes", "expected_attribute_groups", "name", "range", "attribute_ranges"}


def vocabulary_here(t):
    return vocabulary(t) or any(short(x.t[2]) in WORDS for x in [peeled(t.t[1] if t.k == "discr" else t)] if x.k == "res")


def short_circuit(v):
    return "unaliased" in mentions(v)


def is_option(v):
    return v is not None and v.k == "adt" and v.t[1] == OPTION


def problem(prog, r):
    """The innermost kind of the problem reported."""
    if r.k != "adt" or r.t[1] != ERROR:
        return "?"
    names = [f[0] for f in prog.adts[ERROR].variants[0].fields]
    v = r.t[3][names.index("problem")]
    kind = "?"
    while v.k == "adt" and v.t[1].startswith("oxvg_lint::"):
        kind = prog.adts[v.t[1]].variants[v.t[2]].name
        if len(v.t[3]) != 1 or v.t[3][0].k != "adt":
            break
        v = v.t[3][0]
    return kind


def content(ctx, prog, it, st, f, label, kind, r, want):
    names = [x[0] for x in prog.adts[ERROR].variants[0].fields]
    get = dict(zip(names, r.t[3]))
    sev = it.strip(st, get["severity"])
    ctx.obligation(sev == want, f"{label}: severity of {kind}", f.where(), f"{kind} is reported with severity {sev!r} where the rule was given {want!r}")
    if kind in ABOUT:
        ctx.obligation(of_attr(get["problem"]), f"{label}: subject of {kind}", f.where(), f"{kind} does not name what it is about")
    if kind in PLACED:
        g = it.strip(st, get["range"])
        if g == NONE:
            # only where the source has no place for it
            gone = [t for t, v in st.facts.items() if t.k == "discr" and v == ("=", 0) and any(x.k == "res" and short(x.t[2]) == "get" for x in walk(t, limit=40))]
            ctx.obligation(bool(gone), f"{label}: place of {kind}", f.where(), f"{kind} is reported without its place")
        else:
            ends = [x for x in walk(g, limit=60) if x.k == "adt" and short(x.t[1]) == "Range"]
            ok = all(any(x.k == "res" and short(x.t[2]) == "get" and of_attr(x.t[3][-1]) for x in walk(y, limit=60)) for y in (ends[0].t[3] if ends else (g,)))
            ctx.obligation(ok, f"{label}: place of {kind}", f.where(), f"{kind} is reported at another place than its attribute: {repr(g)[:120]}")


def simple_hook(prog, events):
    """One representative of what is gone through; what is put into the linter's own collections is noted."""
    def hook(it, st, t, name, c, args):
        base, s = c["fn"], short(c["fn"])
        v = it.strip(st, args[0]) if args else None
        if base.startswith("log::") or s == "max_level":
            return it.finish(st, t, mk("k", False))
        if s in ("unaliased", "into_iter", "into_iter_mut", "iter", "iter_mut", "rev", "by_ref"):
            return it.finish(st, t, args[0])
        if s == "next" and "Iterator" in base:
            if ("seen", v) in st.q:
                return it.finish(st, t, NONE)
            none = st.copy()
            none.q = none.q | {("none", v)}
            st.q = st.q | {("seen", v)}
            return it.finish(none, t, NONE) + it.finish(st, t, option_some(mk("res", None, "next#element", (v,))))
        if s in ("visit_id", "visit_url", "visit") and len(args) == 2:
            st.q = st.q | {("visit", s, v)}
            if s == "visit":
                return it.finish(st, t, mk("res", None, name, (v,)))
            r = it.call_closure(st, t, args[1], [mk("res", None, s + "#element", (v,))], "closure", discard=("visit", 0))
            if not r:
                raise ToolError("what is done with a reference is not followed")
            return r
        if s in ("insert", "push") and len(args) >= 2:
            st.q = st.q | {("put", repr(v), tuple(it.strip(st, a) for a in args[1:]), s)}
            return it.finish(st, t, mk("res", None, name, ()))
        if s == "pop":
            st.q = st.q | {("pop", repr(v))}
        return None
    return hook


def follow(ctx, prog, f, args):
    it = Interp(prog, hook=simple_hook(prog, None), opaque=lambda g: not g.crate.startswith("oxvg_lint") or "no_" in g.id, track=lambda v: True, max_states=20000)
    it.pure = lambda n: short(n) not in ("next", "push", "insert")
    it.after_discard = lambda st, fr, v: it.finish(st, st.top.fn.blocks[st.top.block]["t"], mk("tup", ()))
    ends = it.run(f, args=args[:f.argc], q=frozenset())
    ctx.analysed(*it.visited_fns)
    return it, [e for e in ends if e.kind == "ret"]


def reporter(prog):
    rules = prog.adts[R + "Rules"]
    off = mk("adt", R + "Severity", [v.name for v in prog.adts[R + "Severity"].variants].index("Off"), ())
    r = mk("adt", R + "Rules", 0, tuple(off for _ in rules.variants[0].fields))
    return mk("refv", mk("adt", R + "Reporter", 0, tuple(
        mk("refv", r) if x[0] == "rules" else mk("sym", x[0]) for x in prog.adts[R + "Reporter"].variants[0].fields)))


def references(ctx, prog):
    """Every element records its own identifier, what its other attributes refer to, and opens one level of namespaces."""
    f = prog.get(f"<{R}Reporter as {VISITOR}>::element")
    it, rets = follow(ctx, prog, f, [reporter(prog), mk("sym", "element"), mk("sym", "context")])
    n = 0
    for e in rets:
        p = Path(prog, it, e.state)
        puts = [x for x in e.state.q if x[0] == "put"]
        levels = [x for x in puts if "xmlns_stack" in x[1] and x[3] == "push"]
        ctx.obligation(len(levels) == 1, "references: level", f.where(), "an element does not open exactly one level of namespaces")
        own = [x for x in puts if re.search(r"(?<!_)\bids\b", x[1])]
        refs = [x for x in puts if "referenced_ids" in x[1]]
        visits = {x[1] for x in e.state.q if x[0] == "visit"}
        is_id = attr_is("Id")(p)
        looked = any(x[0] == "seen" for x in e.state.q)
        if not looked or not (own or visits):
            continue
        n += 1
        if own:
            ctx.obligation(is_id is True, "references: own", f.where(), "an attribute other than the identifier is recorded as an identifier")
            ctx.obligation(all(of_attr(x[2][0]) for x in own), "references: own value", f.where(), "something other than the identifier's value is recorded")
        else:
            ctx.obligation(is_id is False or is_id is None, "references: own", f.where(), "an identifier is not recorded")
            ctx.obligation(visits >= {"visit_id", "visit_url"}, "references: asked", f.where(),
                           "an attribute is not asked for both the identifiers and the links it holds")
            for x in refs:
                kind = [y for a in x[2] for y in walk(a, limit=40) if y.k == "res" and y.t[2] in ("visit_id#element", "visit_url#element")]
                ctx.obligation(bool(kind), "references: value", f.where(), "what is recorded as referred to is not what the attribute refers to")
                if kind and kind[0].t[2] == "visit_url#element":
                    ctx.obligation(any("strip_prefix" in mentions(a) for a in x[2]), "references: link", f.where(), "a link is recorded with its number sign")
            ids = [x for x in refs if any(y.k == "res" and y.t[2] == "visit_id#element" for a in x[2] for y in walk(a, limit=40))]
            ctx.obligation(bool(ids), "references: identifiers", f.where(), "an identifier an attribute refers to is not recorded")
            urls = [x for x in refs if any(y.k == "res" and y.t[2] == "visit_url#element" for a in x[2] for y in walk(a, limit=40))]
            cut = some(lambda v: v.k == "res" and short(v.t[2]) == "strip_prefix")(p)
            if cut is not None:
                ctx.obligation(bool(urls) is cut, "references: links", f.where(), "links into the document and only those count as references")
    ctx.count("ways an attribute is looked at for references", n)
    ctx.floor("ways an attribute is looked at for references", 2)
    g = prog.get(f"<{R}Reporter as {VISITOR}>::exit_element")
    it, rets = follow(ctx, prog, g, [reporter(prog), mk("sym", "element"), mk("sym", "context")])
    for e in rets:
        ctx.obligation(len([x for x in e.state.q if x[0] == "pop"]) == 1, "references: close", g.where(), "the end of an element does not close exactly one level of namespaces")


def css_references(ctx, prog):
    """A link in a stylesheet counts as a reference."""
    fs = [f for f in prog.fns.values() if f.id.startswith(f"<{R}Reporter as lightningcss") and f.id.endswith("::visit_url")]
    if not fs:
        raise ToolError("stylesheets are looked at in another way")
    f = fs[0]
    it, rets = follow(ctx, prog, f, [reporter(prog), mk("sym", "url")])
    for e in rets:
        p = Path(prog, it, e.state)
        cut = some(lambda v: v.k == "res" and short(v.t[2]) == "strip_prefix")(p)
        puts = [x for x in e.state.q if x[0] == "put" and "referenced_ids" in x[1]]
        if cut is not None:
            ctx.obligation(bool(puts) is cut, "stylesheets: links", f.where(), "links into the document and only those count as references")
        for x in puts:
            ctx.obligation(any("url" in repr(a) for a in x[2]), "stylesheets: value", f.where(), "what is recorded is not the link")


def start(ctx, prog):
    """Before the walk scripts and stylesheets are looked for; what was found is given back."""
    f = prog.get(f"<{R}Rules as {VISITOR}>::prepare")
    if f is None:
        raise ToolError("the linter starts in another way")
    it, rets = follow(ctx, prog, f, [mk("refv", mk("sym", "rules")), mk("sym", "document"), mk("sym", "context")])
    for want in ("query_has_script", "query_has_stylesheet"):
        ok = any(want in x.id or any(short(t[1][1].get("fn", "")) == want for _, t in x.calls() if t[1][0] == "k") for x in [f] + [prog.get(i) for i in it.visited_fns if prog.get(i)])
        ctx.obligation(ok, f"start: {want}", f.where(), f"the linter starts without {want}")
    for e in rets:
        p = Path(prog, it, e.state)
        v = it.strip(e.state, e.value)
        if v.k != "adt":
            continue
        clean = fact(lambda t: t.k == "res" and short(t.t[2]) == "is_empty")(p)
        if clean is not None:
            ctx.obligation((v.t[2] == 0) is clean, "start: result", f.where(), "problems found are not what decides whether linting fails")
