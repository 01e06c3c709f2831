"""The jobs that take things out take out exactly what they are for."""
import re

from facts import ToolError
from interp import Interp, mk
from terms import walk, callees, strings, some as option_some, NONE, RESULT

TECHNIQUE = "abstract interpretation over MIR: all paths through the callbacks of the removing jobs, the facts known on each path compared with a condition for the removal"
EXPLANATION = (
    "For each job a condition says when it takes an element, a node or an attribute out. All paths through the job's callbacks are followed; on each path "
    "the facts established about the element, its attributes and the options must imply the condition where the removal is made and its opposite where it is not. "
    "Any other change to the document made by such a job is reported."
)
LEVEL_NOTE = "Fifteen jobs, all paths; a search through children, classes or attributes is followed for one representative."

JOBS = "oxvg_optimiser::jobs::"
VISITOR = "oxvg_ast::visitor::Visitor"
CALLBACKS = ("document", "exit_document", "element", "exit_element", "doctype", "style", "text_or_cdata", "comment", "processing_instruction")
CHANGES = {"remove", "flatten", "retain", "retain_children", "remove_attribute", "set_attribute", "append_child", "append", "insert", "insert_before", "insert_after", "replace_child",
           "replace_with", "replace_children", "remove_child", "set_text_content", "empty", "sort_by", "clear", "set_attributes", "remove_named_item", "set_named_item",
           "set_local_name", "attributes_mut", "item_mut", "get_named_item_mut", "get_attribute_mut", "into_iter_mut"}
ELEMENT = "oxvg_collections::element::ElementId"
ATTR = "oxvg_collections::attribute::AttrId"
ATTRIBUTE = "oxvg_collections::attribute::Attr"


def short(n):
    return n.rsplit("::", 1)[-1]


# conditions: evaluated over the facts of a path to True, False or None (not determined)

def And(*xs):
    def f(p):
        vs = [x(p) for x in xs]
        return False if False in vs else None if None in vs else True
    return f


def Or(*xs):
    def f(p):
        vs = [x(p) for x in xs]
        return True if True in vs else None if None in vs else False
    return f


def Not(x):
    def f(p):
        v = x(p)
        return None if v is None else not v
    return f


def If(c, a):
    return Or(Not(c), a)


def always(p):
    return True


def kind(*names):
    """The element is one of these."""
    def f(p):
        want = {p.element(n) for n in names}
        vals = p.discr(lambda v: is_name(v, False))
        if vals is None:
            return None
        pos, neg = vals
        if pos is not None:
            return pos in want
        return False if want <= neg else None
    return f


def is_name(v, parent):
    cs = callees(v)
    return any(short(c) in ("qual_name",) for c in cs) and any(short(c) == "parent_element" for c in cs) == parent


def parent(name):
    def f(p):
        some = p.discr(lambda v: v.k == "res" and short(v.t[2]) == "parent_element")
        if some is not None and some[0] == 0:
            return False
        vals = p.discr(lambda v: is_name(v, True))
        if vals is None:
            return None
        pos, neg = vals
        return pos == p.element(name) if pos is not None else (False if p.element(name) in neg else None)
    return f


def fact(test, absent=None):
    """The truth of the first term that the test accepts."""
    def f(p):
        got = absent
        for t, v in p.truths():
            if test(t):
                if v is True or got is None:
                    got = v
        return got
    return f


def call(name, *words, absent=None):
    """A call of this name that mentions all the words: names of callees and fields, texts, identifiers of attributes."""
    def test(t):
        if t.k != "res" or short(t.t[2]) != name:
            return False
        m = mentions(t)
        return all(w in m for w in words)
    return fact(test, absent)


def mentions(t):
    out = set()
    for x in walk(t, limit=60):
        if x.k == "res":
            out.add(short(x.t[2]))
        if x.k == "fld":
            out.update(str(y) for y in x.t[1:] if isinstance(y, (str, int)))
        if x.k == "adt" and x.t[1] == ATTR:
            out.add(("attr", x.t[2]))
        if x.k == "k" and isinstance(x.t[1], str):
            out.add(x.t[1])
        if x.k == "const":
            out.update(str(y) for y in x.t[1:])
    return out | set(strings(t))


def flag(method, subject, const):
    """The set of flags asked for is this constant."""
    def f(p):
        want = p.bits(const)
        return fact(lambda t: t.k == "res" and short(t.t[2]) == method and subject in mentions(t) and any(x.k == "k" and x.t[1] == want for a in t.t[3][1:] for x in walk(a)))(p)
    return f


def empty(p):
    return fact(lambda t: t.k == "res" and t.t[2] == "oxvg_ast::node::Node::is_empty")(p)


def option(name, default=None):
    """The option of this name; one that may be left out counts as the default then."""
    def f(p):
        if default is not None:
            d = p.discr(lambda v: v.k == "fld" and p.field(v, name))
            if d is not None and d[0] == 0:
                return default
        return fact(lambda t: t.k == "fld" and p.field(t, name))(p)
    return f


def has(name):
    """The element has the attribute."""
    def f(p):
        n = p.attr(name)
        v = fact(lambda t: t.k == "res" and short(t.t[2]) == "has_attribute" and ("attr", n) in mentions(t))(p)
        if v is not None:
            return v
        d = p.discr(lambda t: t.k == "res" and short(t.t[2]).startswith("get_attribute") and ("attr", n) in mentions(t))
        return option_of(d)
    return f


def option_of(d):
    if d is None:
        return None
    if d[0] is not None:
        return d[0] == 1
    return False if 1 in d[1] else True if 0 in d[1] else None


def some(test):
    return lambda p: option_of(p.discr(test))


def variant(test, *names, of=None):
    def f(p):
        d = p.discr(test)
        if d is None:
            return None
        want = {p.variant(of, n) for n in names}
        if d[0] is not None:
            return d[0] in want
        return False if want <= d[1] else None
    return f


def style(name):
    """The element has the computed style."""
    return lambda p: some(lambda t: t.k == "res" and short(t.t[2]) == "get" and "ComputedStyles" in t.t[2] and ("attr", p.attr(name)) in mentions(t))(p)


def listed(name, attribute):
    """An entry of the option of this name is the identifier or a class of the element."""
    def f(p):
        if fact(lambda t: t.k == "res" and short(t.t[2]) == "is_empty" and any(x.k == "fld" and p.field(x, name) for x in walk(t)))(p):
            return False
        if attribute and has(attribute)(p) is False:
            return False
        if not attribute and ("nothing to look through",) in p.st.q:
            return False
        return fact(lambda t: is_entry(p, t, name))(p)
    return f


def is_entry(p, t, name):
    return t.k == "res" and short(t.t[2]) == "eq" and any(x.k == "fld" and p.field(x, name) for x in walk(t))


def pixels(name):
    """The attribute is there and its value a length that pixels can be told for."""
    def f(p):
        key = ("attr", p.attr(name)) if name[0].isupper() else name
        def about(t):
            return key in mentions(t)
        there = some(lambda t: t.k == "res" and short(t.t[2]) in ("get_attribute", "get_attribute_local") and about(t))(p)
        if there is not True:
            return there
        # the shapes of the value: each must be the one that leads to the length
        px = some(lambda t: t.k == "res" and short(t.t[2]) == "to_px" and about(t))(p)
        if px is None:
            other = p.discr(lambda t: about(t) and not (t.k == "res" and short(t.t[2]) in ("get_attribute", "get_attribute_local")))
            return None if other is None else False
        return px
    return f


def equal(field, size=None):
    """The field of the view box is nought, or the size."""
    def f(p):
        def test(t):
            if t.k != "op" or t.t[1] != "Eq":
                return False
            for a, b in ((t.t[2], t.t[3]), (t.t[3], t.t[2])):
                if repr(a).endswith("." + field) and (b.k == "k" and number(b) == 0.0 if size is None else b.k != "k" and size in mentions(b) and "to_px" in mentions(b)):
                    return True
            return False
        return fact(test)(p)
    return f


def number(v):
    x = v.t[1]
    while isinstance(x, tuple) and x:
        x = x[-1]
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def default_true(x):
    def f(p):
        v = x(p)
        return True if v is None else v
    return f


def node_type(v):
    return v.k == "res" and short(v.t[2]) == "node_type"


TEXT = variant(node_type, "Text", of="oxvg_ast::node::Type")
STANDARD = And(TEXT, default_true(some(lambda v: v.k == "res" and short(v.t[2]) == "text_content")),
               Or(call("starts_with", "Created with"), call("starts_with", "Created using")))
EVENT = call("intersects", "attribute_group", "event")
LINK = And(variant(lambda v: "attributes" in mentions(v), "Href", "XLinkHref", of="oxvg_collections::attribute::Attr"),
           call("starts_with", "javascript:", "trim_start"))
CONTAINER = flag("contains", "categories", "ElementCategory::Container")
SIZED = And(pixels("WidthSvg"), pixels("HeightSvg"))

# job -> callback -> (change, condition)
SPEC = {
    "remove_title::RemoveTitle": {"element": [("remove", kind("Title"))]},
    "remove_metadata::RemoveMetadata": {"element": [("remove", kind("Metadata"))]},
    "remove_style_element::RemoveStyleElement": {"element": [("remove", kind("Style"))]},
    "remove_doctype::RemoveDoctype": {"doctype": [("remove", always)]},
    "remove_x_m_l_proc_inst::RemoveXMLProcInst": {"processing_instruction": [("remove", call("eq", "node_name", "xml"))]},
    "remove_comments::RemoveComments": {"comment": [("remove", Not(call("is_match", "node_value", absent=False)))]},
    "remove_desc::RemoveDesc": {"element": [("remove", And(kind("Desc"), Or(option("remove_any"), empty, STANDARD)))]},
    "remove_empty_text::RemoveEmptyText": {"element": [("remove", Or(
        And(option("text", True), kind("Text"), empty),
        And(option("tspan", True), kind("TSpan"), empty),
        And(option("tref", True), kind("TRef"), Not(has("XLinkHref")))))]},
    "remove_scripts::RemoveScripts": {
        "element": [("remove", kind("Script")), ("drop attribute", EVENT)],
        "exit_element": [("flatten", And(kind("A"), LINK)), ("retain_children", And(kind("A"), LINK)), ("drop child", TEXT)]},
    "remove_empty_attrs::RemoveEmptyAttrs": {"element": [("drop attribute", And(
        Not(flag("contains", "attribute_group", "AttributeGroup::ConditionalProcessing")), call("is_empty", "value")))]},
    "remove_x_m_l_n_s::RemoveXMLNS": {"element": [("remove XMLNS", kind("Svg"))]},
    "remove_elements_by_attr::RemoveElementsByAttr": {"element": [("remove", Or(listed("id", "Id"), listed("class", None)))]},
    "remove_raster_images::RemoveRasterImages": {"element": [("remove", And(
        kind("Image"), has("XLinkHref"),
        Or(call("starts_with", "jpeg"), And(default_true(some(lambda t: t.k == "res" and short(t.t[2]) == "get")), Or(call("eq", "jpg"), call("eq", "png"), call("eq", "gif"))))))]},
    "remove_dimensions::RemoveDimensions": {"element": [
        ("remove WidthSvg", And(kind("Svg"), Or(has("ViewBox"), SIZED))), ("remove HeightSvg", And(kind("Svg"), Or(has("ViewBox"), SIZED))),
        ("set ViewBox", And(kind("Svg"), Not(has("ViewBox")), SIZED))]},
    "remove_view_box::RemoveViewBox": {"element": [("remove ViewBox", And(
        kind("Pattern", "Svg", "Symbol"), has("ViewBox"), pixels("width"), pixels("height"),
        Not(And(kind("Svg"), some(lambda t: t.k == "res" and short(t.t[2]) == "parent_node"), Not(variant(node_type, "Document", of="oxvg_ast::node::Type")))),
        equal("min_x"), equal("min_y"), equal("width", "width"), equal("height", "height")))]},
    "remove_empty_containers::RemoveEmptyContainers": {"exit_element": [("remove", And(
        CONTAINER, empty, Not(kind("Svg")),
        If(kind("Pattern"), fact(lambda t: t.k == "res" and short(t.t[2]) == "is_empty" and "attributes" in mentions(t))),
        If(kind("Mask"), Not(has("Id"))),
        If(Not(kind("Pattern", "Mask")), Not(parent("Switch"))),
        If(kind("G"), Not(style("Filter")))))]},
}


class Path:
    def __init__(self, prog, it, st, extra=()):
        self.prog, self.it, self.st = prog, it, st
        self.facts = st.facts

    def element(self, n):
        return self.variant(ELEMENT, n)

    def attr(self, n):
        return self.variant(ATTR, n)

    def variant(self, of, n):
        a = self.prog.adts.get(of)
        for i, v in enumerate(a.variants if a else ()):
            if v.name == n:
                return i
        raise ToolError(f"{short(of)} has no {n}")

    def bits(self, const):
        for i, c in self.prog.consts.items():
            if i.endswith("::" + const) and isinstance(c.get("v"), dict):
                v = c["v"]
                while isinstance(v, dict) and v.get("fields"):
                    v = v["fields"][0]
                if isinstance(v, int):
                    return v
        raise ToolError(f"no constant {const}")

    def field(self, t, name):
        return re.search(r"self\." + name + r"(@1\.0)?$", repr(t)) is not None

    def truths(self):
        for t, v in self.facts.items():
            if v[0] == "=" and isinstance(v[1], bool):
                n = v[1]
                while t.k == "un" and t.t[1] == "Not":
                    t, n = t.t[2], not n
                if t.k == "res" and short(t.t[2]) == "ne":
                    yield mk("res", None, "eq", t.t[3]), not n
                yield t, n

    def discr(self, test):
        """(value, excluded values) of the discriminant of a term the test accepts."""
        out = None
        for t, v in self.facts.items():
            if t.k == "discr" and test(t.t[1]):
                got = (v[1], frozenset()) if v[0] == "=" else (None, frozenset(v[1]))
                if out is None or got[0] is not None:
                    out = got
        return out


def check(ctx):
    prog = ctx.program("native", ["oxvg_optimiser.lib", "oxvg_ast.lib", "oxvg_collections.lib"])
    n = 0
    for job, spec in SPEC.items():
        if not any(f.id.startswith(f"<{JOBS}{job} as {VISITOR}>") for f in prog.fns.values()):
            ctx.undecide(job, "the job is gone")
            continue
        n += 1
        for cb in CALLBACKS:
            f = prog.get(f"<{JOBS}{job} as {VISITOR}>::{cb}")
            if f is None:
                ctx.obligation(cb not in spec, f"{short(job)}: {cb}", job, f"{short(job)} no longer looks at what it is to remove")
                continue
            try:
                callback(ctx, prog, short(job), f, spec.get(cb, []))
            except ToolError as e:
                ctx.undecide(f"{short(job)}: {cb}", e)
    default_patterns(ctx, prog)
    ctx.count("jobs", n)
    ctx.floor("jobs", 10)


def default_patterns(ctx, prog):
    """Without patterns of their own, comments that begin with an exclamation mark are kept."""
    mod = JOBS + "remove_comments::"
    found = set()
    for f in prog.fns.values():
        if f.id.startswith(mod) and f.kind == "closure" and f.id.count("::") == mod.count("::") + 1:
            for b in f.blocks:
                for v in constants(b):
                    found.add(v)
            ctx.analysed(f.id)
    if not found:
        ctx.undecide("RemoveComments: default patterns", "not found")
        return
    ctx.obligation(found == {"^!"}, "RemoveComments: default patterns", mod, f"by default the comments kept are those that match {sorted(found)} instead of those that begin with an exclamation mark")


def constants(x):
    if isinstance(x, dict):
        if isinstance(x.get("str"), str):
            yield x["str"]
        for y in x.values():
            yield from constants(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from constants(y)


def callback(ctx, prog, job, f, spec):
    import os
    conds = dict(spec)
    it = None

    def hook(it, st, t, name, c, args):
        base, s = c["fn"], short(c["fn"])
        if base.startswith("log::") or "<log::" in base or "<log::" in name or s in ("max_level",) or (s in ("le", "lt") and any("Level" in repr(a) for a in args)):
            return it.finish(st, t, mk("k", False))
        if s == "filter_map" and "cell::Ref" in base:
            return it.finish(st, t, mk("adt", RESULT, 0, (mk("res", None, "value", (it.strip(st, args[0]),)),)))
        if s in ("any", "all") and "iterator" in base and len(args) == 2:
            elem = mk("res", None, s + "#element", (it.strip(st, args[0]),))
            return it.call_closure(st, t, args[1], [elem], "closure", discard=(s, elem)) or None
        if s == "qual_name":
            return it.finish(st, t, mk("refv", mk("res", None, name, (it.strip(st, args[0]),))))
        if s == "unaliased":
            return it.finish(st, t, args[0])
        if s == "next" and "Iterator" in base:
            # one representative, then the end
            src = it.strip(st, args[0])
            if ("seen", src) in st.q:
                return it.finish(st, t, NONE)
            none = st.copy()
            none.q = none.q | {("nothing to look through",)}
            st.q = st.q | {("seen", src)}
            return it.finish(none, t, NONE) + it.finish(st, t, option_some(mk("res", None, "next#element", (src,))))
        if s == "with_iter" and len(args) == 2:
            r = it.call_closure(st, t, args[1], [mk("res", None, "with_iter#arg", (it.strip(st, args[0]),))], "closure")
            if r:
                return r
        if s in ("retain", "retain_children") and base.startswith("oxvg_ast::"):
            if s == "retain_children":
                st.q = st.q | {s}
            st.q = st.q | {"retain"}
            elem = mk("res", None, s + "#element", (it.strip(st, args[0]),))
            r = it.call_closure(st, t, args[1], [elem], "closure", discard=(name, 0))
            if r:
                return r
            raise ToolError("what is kept is not followed")
        if base.startswith("oxvg_ast::") and not base.startswith("oxvg_ast::visitor::") and s in CHANGES:
            what = s
            if s == "remove_attribute":
                ids = [x.t[2] for a in args for x in walk(it.strip(st, a)) if x.k == "adt" and x.t[1] == ATTR]
                what = "remove " + (prog.adts[ATTR].variants[ids[0]].name if len(ids) == 1 else "?")
            if s == "set_attribute":
                what = "set " + new_attribute(prog, it, st, args)
            st.q = st.q | {what}
            return it.finish(st, t, mk("res", None, name, tuple(it.strip(st, a) for a in args)))
        return None

    def closure_result(it, st, name, v):
        st.q = st.q | {("kept", short(name), it.strip(st, v))}

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((JOBS, "<" + JOBS)), track=lambda v: True, max_states=20000)
    it.pure = lambda n: short(n) not in ("next",)
    it.closure_result = closure_result
    # a closure deciding what to keep is followed once
    it.after_discard = lambda st, fr, v: after(it, st, fr, v)
    ends = it.run(f, args=[mk("sym", x) for x in ("self", "element", "context")[:f.argc]], q=frozenset())
    ctx.analysed(*it.visited_fns)
    rets = [e for e in ends if e.kind == "ret"]
    ctx.count("paths", len(rets))
    for e in rets:
        v = it.strip(e.state, e.value)
        if v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1:
            continue
        p = Path(prog, it, e.state)
        if os.environ.get("J05_DEBUG") == job:
            print(sorted(map(str, e.state.q)), [(repr(a)[-120:], b) for a, b in e.state.facts.items()])
        done = {x for x in e.state.q if isinstance(x, str)}
        kept = [x for x in e.state.q if isinstance(x, tuple) and x[0] == "kept"]
        for x in sorted(done - set(conds) - {"retain"}):
            ctx.obligation(False, f"{job}: {x}", f.where(), f"{job} changes the document in a way that is not its purpose ({x}); {told(p)}")
        for what, cond in conds.items():
            if what.startswith("drop "):
                drops(ctx, job, f, it, p, e, what, cond, kept, done)
                continue
            judge(ctx, job, f, p, what, cond(p) if quantified(job, p, cond) else None, what in done)


# whether the change is made because something looked through is so, or because nothing is
EXISTS = {"RemoveScripts": True, "RemoveElementsByAttr": True, "RemoveComments": False}


def quantified(job, p, cond):
    """What was found out about one of several tells about all of them: one that is so was found, or none is."""
    for x in p.st.q:
        if not (isinstance(x, tuple) and x[0] == "mode") or short(job) not in EXISTS:
            continue
        want = cond(p)
        less = Path(p.prog, p.it, p.st)
        less.facts = {t: v for t, v in p.facts.items() if not any(y == x[1] for y in walk(t, limit=200))}
        if want is None or cond(less) is want:
            continue
        if (want is EXISTS[short(job)]) is not x[2]:
            return False
    return True


def new_attribute(prog, it, st, args):
    for a in args[1:]:
        v = it.strip(st, a)
        if v.k == "adt" and v.t[1] == ATTRIBUTE:
            name = prog.adts[ATTRIBUTE].variants[v.t[2]].name
            if name == "ViewBox":
                boxes = [x for x in walk(v) if x.k == "adt" and short(x.t[1]) == "ViewBox"]
                if len(boxes) == 1 and not right_box(prog, boxes[0]):
                    return "a view box other than the size"
            return name
    return "?"


def right_box(prog, box):
    names = [f[0] for f in prog.adts[box.t[1]].variants[0].fields]
    got = dict(zip(names, box.t[3]))
    ids = {n: i for i, v in enumerate(prog.adts[ATTR].variants) for n in [v.name]}
    if any(got[n].k == "k" and number(got[n]) != 0.0 for n in ("min_x", "min_y")):
        return False
    for n, mine, other in (("width", "WidthSvg", "HeightSvg"), ("height", "HeightSvg", "WidthSvg")):
        m = mentions(got[n])
        if ("attr", ids[other]) in m and ("attr", ids[mine]) not in m:
            return False
    return True


def drops(ctx, job, f, it, p, e, what, cond, kept, done):
    mine = [v for _, n, v in kept if (n == "retain_children") == (what == "drop child")]
    if not mine:
        # nothing was asked about attributes on this path: right only if the element is gone
        if what == "drop attribute" and "remove" not in done:
            ctx.obligation(False, f"{job}: {what}", f.where(), f"{job} leaves the attributes of some element unlooked at; {told(p)}")
        return
    for v in mine:
        for keep in (True, False):
            s2 = e.state.copy()
            got = it.lookup(s2, v) if v.k != "k" else v
            if got is not None and got.k == "k":
                if got.t[1] is not keep:
                    continue
            elif it.assume(s2, v, keep) is False:
                continue
            q = Path(p.prog, it, s2)
            judge(ctx, job, f, q, what, cond(q), not keep)


def after(it, st, fr, v):
    t = st.top.fn.blocks[st.top.block]["t"]
    if fr.discard[0] in ("any", "all"):
        out = []
        for so in (True, False):
            s2, w = st.copy(), it.strip(st, v)
            got = it.lookup(s2, w) if w.k != "k" else w
            if got is not None and got.k == "k":
                if got.t[1] is not so:
                    continue
            elif it.assume(s2, w, so) is False:
                continue
            # one was found that is so (or not so), or all are alike
            s2.q = s2.q | {("mode", fr.discard[1], so is (fr.discard[0] == "any"))}
            out += it.finish(s2, t, mk("k", so))
        return out
    it.closure_result(it, st, fr.discard[0], v)
    return it.finish(st, t, mk("tup", ()))


def told(p):
    return "known there: " + ", ".join(f"{repr(t)[-70:]} {'is' if v[0] == '=' else 'is not'} {v[1] if v[0] == '=' else sorted(map(str, v[1]))[:3]}" for t, v in list(p.facts.items())[:6])


def judge(ctx, job, f, p, what, want, done):
    if want is None and not done and ("nothing to look through",) in p.st.q:
        return
    if want is None:
        odd = [t for t in p.facts if not known(t) or job.endswith("RemoveViewBox") and "is_root" in mentions(t)]
        if odd:
            ctx.undecide(f"{job}: {what}", "the condition is put in other terms: " + repr(odd[0])[:100])
            return
        ctx.obligation(False, f"{job}: {what}", f.where(), f"{job}: {what} is {'made' if done else 'left out'} without asking for all that decides it; {told(p)}")
        return
    ctx.obligation(want is done, f"{job}: {what}", f.where(), f"{job}: {what} is {'made where it should not be' if done else 'left out where it is due'}; {told(p)}")


VOCABULARY = {"is_empty", "has_attribute", "qual_name", "parent_element", "contains", "intersects", "attribute_group", "event", "starts_with", "eq", "ne", "is_match", "node_type", "text_content", "unaliased",
              "get_attribute", "value", "node_name", "node_value", "categories", "name", "attributes", "with_all", "get", "next", "to_px", "parent_node", "get_attribute_local", "remove_attribute", "set_attribute",
              "child_element_count", "ends_with", "previous_element_sibling", "next_element_sibling", "is_root"}


def known(t):
    """The fact is in the terms the conditions are written in."""
    if t.k == "discr":
        t = t.t[1]
    while True:
        if t.k == "refv":
            t = t.t[1]
        elif t.k in ("un", "deref"):
            t = t.t[-1]
        elif t.k == "res" and short(t.t[2]) in ("deref", "deref_mut", "as_ref", "borrow", "into_iter", "iter", "clone") and t.t[3]:
            t = t.t[3][0]
        else:
            break
    if t.k == "res":
        return short(t.t[2]) in VOCABULARY or t.t[2].endswith("#element")
    return t.k in ("fld", "sym", "k", "op")
