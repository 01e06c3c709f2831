"""Parsing keeps every node of the source, and namespaces in their scope."""
from collections import namedtuple

from facts import ToolError
from interp import Interp, mk
from terms import walk, RESULT, is_none, is_some, some, NONE

TECHNIQUE = "path-sensitive event analysis of the tree builder over MIR per kind of source node, with the namespace map as a scoped resource"
EXPLANATION = (
    "The function that turns a source node into a node of the tree is followed on all paths for each kind of source node. It must allocate the "
    "node that belongs to the kind with the content of the source node, take every child in order, build it by recursion one level deeper and attach "
    "the result to the new node, and pass failures on. The namespace map is followed as a resource: whatever declarations an element adds (any number of "
    "them), on every way out the map is the one that came in; the name and attributes of the element are looked up after its own declarations; a declaration is "
    "left out only when it is known to be in force already or to be empty."
)
LEVEL_NOTE = "All paths for all five kinds of source nodes; children and declarations in any number by induction over one step. The source tree given by the XML reader is trusted."

NODE = mk("sym", "source node")
OUTER = mk("sym", "outer map")
CHANGED = mk("sym", "changed map")
NS = mk("sym", "namespaces")
ALLOC = mk("sym", "allocator")
DEPTH = mk("sym", "depth")
KINDS = "roxmltree::NodeType"
DATA = "oxvg_ast::node::NodeData"
NODES = "oxvg_ast::node::Node"
TARGET = mk("sym", "target of the instruction")
VALUE = mk("sym", "value of the instruction")
BUILT = mk("sym", "built child")
STYLE = mk("sym", "new Style")
FIRST = mk("sym", "first child so far")
LAST = mk("sym", "last child so far")
# made: the kind of node made; child: what happened to the child at hand; adding: the node being attached; had: whether the
# parent had children before; links: the links set since; declared, inserted: whether declarations were read or put in force
Q = namedtuple("Q", "made child adding had links declared inserted")
WANT = {"Document": ("Document",), "Root": ("Root", "Document"), "Element": ("Element",), "PI": ("PI",), "Comment": ("Comment",), "Text": ("Text",)}
CONTENT = {"PI": (), "Comment": ("roxmltree::Node::text",), "Text": ("roxmltree::Node::text",)}
SAME = ("to_string", "to_owned", "into_string", "into_boxed_str", "as_str", "as_ref", "from", "clone", "into", "as_bytes", "len", "is_empty")
CUTS = ("skip", "take", "step_by", "skip_while", "take_while", "filter", "nth", "last", "rev", "map_while", "zip", "peekable")


def names(v):
    return [x.t[2] for x in walk(v) if x.k == "res"]


def of_children(v):
    return "children" in [short(n) for n in names(v)] and any(x is NODE for x in walk(v))


def short(n):
    return n.rsplit("::", 1)[-1]


def check(ctx):
    prog = ctx.program("native", ["oxvg_ast.lib"])
    kinds = prog.adts.get(KINDS)
    data = prog.adts.get(DATA)
    if kinds is None or data is None:
        raise ToolError("the kinds of source nodes or of nodes are gone")
    entry = [f for f in prog.fns.values() if f.kind != "closure" and any(t[1][0] == "k" and t[1][1]["fn"] == "roxmltree::Node::node_type" for _, t in f.calls())]
    if len(entry) != 1:
        raise ToolError("no single function tells the kinds of source nodes apart")
    b = Builder(ctx, prog, data, entry[0])
    for i, v in enumerate(kinds.variants):
        if v.name not in WANT or v.name == "Document":
            ctx.undecide(f"source nodes of kind {v.name}", "not specified")
            continue
        b.kind(i, v.name)
    tops = [f for f in prog.fns.values() if f.kind != "closure" and f.crate == entry[0].crate and f.id != entry[0].id
            and any(t[1][0] == "k" and t[1][1]["fn"] in ("roxmltree::Document::root", "roxmltree::Document::root_element") for _, t in f.calls())]
    if not tops:
        raise ToolError("nothing builds a tree from a source document")
    for f in tops:
        b.kind(None, "Document", f)
    if not ctx.undecided:
        ctx.floor("paths", 10)


class Builder:
    def __init__(self, ctx, prog, data, entry):
        self.ctx, self.prog, self.data, self.entry = ctx, prog, data, entry
        self.map_ty = None
        for i in range(1, entry.argc + 1):
            ty = prog.local_ty(entry, i)
            if ty["k"] == "ref":
                d = prog.types[entry.crate][ty["t"]].get("def")
                if d and not d.endswith("::Allocator") and d.startswith("oxvg_ast::") and not d.endswith("node::Node"):
                    self.map_ty = d

    def arg(self, fn, i):
        ty = self.prog.local_ty(fn, i)
        if ty["k"] == "ref":
            inner = self.prog.types[fn.crate][ty["t"]]
            d = inner.get("def") or ""
            if d == self.map_ty:
                return mk("ref", True, ("D", NS), ())
            if d.endswith("::Allocator"):
                return mk("ref", True, ("D", ALLOC), ())
            if d == "roxmltree::Node":
                return mk("refv", NODE)
        if ty.get("def") == "roxmltree::Node":
            return NODE
        if ty["k"] in ("int", "uint") or ty["s"] in ("u32", "usize", "u16", "u64", "i32"):
            return DEPTH
        return mk("sym", f"argument {i}")

    def kind(self, idx, kind, start=None):
        prog, ctx, entry = self.prog, self.ctx, self.entry
        start = start or entry
        problems = {}
        self.kind_now, self.manual, self.guards = kind, False, set()

        def bad(key, where, msg):
            problems.setdefault(key, (where, msg))

        def hook(it, st, t, name, c, args):
            base = c["fn"]
            m = short(base)
            q = st.q
            where = st.top.fn.where(t[5])

            def val(i):
                return peel(it.strip(st, args[i]))
            if base == "roxmltree::Document::root" and kind == "Document":
                return it.finish(st, t, NODE)
            if base == "roxmltree::Document::root_element" and kind == "Document":
                bad("outside the root element", where, "comments and processing instructions outside the root element are left out")
                return it.finish(st, t, NODE)
            if base == "core::ops::function::FnOnce::call_once" and kind == "Document" and len(args) == 2 and peel(it.strip(st, args[0])).k == "sym":
                v = it.strip(st, args[1])
                if not any(x.k == "sym" and x.t[1] == "new Document" for x in walk(v)):
                    bad("result", where, "the document handed on is not the one built from the source")
                return it.finish(st, t, mk("sym", "new Document"))
            if base == "roxmltree::Node::node_type" and val(0) is NODE:
                return it.finish(st, t, mk("adt", KINDS, idx, ()))
            if base in ("roxmltree::Node::is_text", "roxmltree::Node::is_element", "roxmltree::Node::is_comment") and val(0) is NODE:
                return it.finish(st, t, mk("k", base.endswith(kind.lower())))
            if base == "roxmltree::Node::pi" and val(0) is NODE and kind == "PI":
                return it.finish(st, t, some(mk("adt", "roxmltree::PI", 0, (TARGET, some(VALUE)))))
            if base.endswith("arena::Allocator::alloc"):
                d = val(1)
                if d.k != "adt" or d.t[1] != DATA:
                    ctx.undecide(kind, "the kind of the node made is not followed")
                    return it.finish(st, t, mk("sym", "new ?"))
                vn = self.data.variants[d.t[2]].name
                if vn != "Style":
                    if q.made is not None:
                        bad("made twice", where, f"two nodes are made for a source node of kind {kind}")
                    self.content(bad, where, kind, vn, d, q)
                    st.q = q._replace(made=vn)
                else:
                    st.q = q._replace(adding=STYLE, had=False, links=frozenset())
                return it.finish(st, t, mk("sym", f"new {vn}"))
            if base.startswith("core::cell::Cell::") and m in ("set", "replace", "get", "take"):
                return self.link(it, st, t, m, args)
            if base.startswith(NODES + "::") and m in ("append_child", "append"):
                who = [peel(it.strip(st, a)) for a in args]
                if q.adding is not None and who[0].k == "sym" and who[0].t[1] == f"new {q.made}" and any(x is q.adding for x in who):
                    st.q = q._replace(adding=None, links=frozenset(), had=None, child="attached" if q.adding is BUILT else q.child)
                return it.finish(st, t, mk("sym", "appended"))
            if base == "roxmltree::Node::text" and val(0) is NODE and kind in ("Comment", "Text"):
                return it.finish(st, t, some(mk("res", None, base, (NODE,))))
            if m in ("next", "next_back") and of_children(it.strip(st, args[0])):
                v = it.strip(st, args[0])
                if any(short(n) in ("filter_map", "filter") and "is_text" in repr(v) for n in names(v)):
                    return None
                if m == "next_back" or any(short(n) in CUTS for n in names(v)):
                    bad("children", where, "children of a source node are left out or out of order")
                self.settled(bad, where, q)
                st.q = q = q._replace(adding=None, had=None, links=frozenset(), child="attached" if q.child == "built" else q.child)
                s2 = st.copy()
                st.q = q._replace(child="pending")
                s2.q = q._replace(child="end")
                return it.finish(st, t, some(mk("sym", "source child"))) + it.finish(s2, t, NONE)
            if m in ("for_each", "try_for_each") and of_children(it.strip(st, args[0])):
                v = it.strip(st, args[0])
                if any(short(n) in CUTS for n in names(v)):
                    bad("children", where, "children of a source node are left out or out of order")
                st.q = q._replace(child="end")
                return None
            if base in ("roxmltree::Node::first_child", "roxmltree::Node::next_sibling"):
                self.manual = True
                s2 = st.copy()
                return it.finish(st, t, some(mk("sym", "source child"))) + it.finish(s2, t, NONE)
            tgt = prog.get(name)
            if tgt is not None and tgt.id == entry.id and len(st.frames) > 0:
                subject = [x for a in args for x in walk(it.strip(st, a)) if x.k == "sym" and x.t[1] == "source child" or x.k == "res" and "#arg" in x.t[2] and of_children(x)]
                if not subject:
                    ctx.undecide(kind, "recursion on something other than a child")
                if subject and subject[0].k == "res" and q.child == "end":
                    q = q._replace(child="pending")
                if q.child != "pending":
                    bad("child twice", where, "a child of a source node is built twice")
                self.deeper(it, st, tgt, args, bad, where)
                s2 = st.copy()
                st.q = q._replace(child="built", adding=BUILT, had=None, links=frozenset())
                return it.finish(st, t, mk("adt", RESULT, 0, (BUILT,))) + it.finish(s2, t, mk("adt", RESULT, 1, (mk("sym", "failure"),)))
            if m == "clone" and len(args) == 1:
                v = peel(it.strip(st, args[0]))
                if v in (OUTER, CHANGED):
                    return it.finish(st, t, v)
            hits = [a for a in args if a.k == "ref" and a.t[2] == ("D", NS)]
            if hits and not (tgt is not None and it.can_inline(st, tgt) and not self.opaque(tgt)):
                if any(a.t[1] for a in hits) and m not in ("get", "contains_key", "iter", "keys", "values"):
                    it.write(st, ("D", NS), (), CHANGED)
                    st.q = q._replace(inserted=True)
                    return it.finish(st, t, mk("sym", "inserted"))
                if m in ("get", "contains_key"):
                    key = it.strip(st, args[1])
                    if any(short(n) in ("tag_name",) for n in names(key)):
                        if not q.declared:
                            bad("name before declarations", where, "the name of an element is looked up before the namespaces the element declares")
                    elif "attributes" in [short(n) for n in names(key)] and not q.declared:
                        bad("attribute before declarations", where, "an attribute is looked up before the namespaces its element declares")
                    return it.finish(st, t, mk("res", None, base, tuple(it.strip(st, a) for a in args)))
            if base.startswith("core::iter") or "Iterator" in base or m == "extend":
                for a in args:
                    ns = [short(n) for n in names(it.strip(st, a))]
                    if "namespaces" in ns:
                        if m in CUTS or any(n in CUTS for n in ns):
                            bad("declarations left out", where, "namespace declarations of an element are left out")
                        if m not in ("len", "size_hint", "clone", "into_iter", "by_ref"):
                            st.q = st.q._replace(declared=True)
                    if "attributes" in ns and any(n in CUTS for n in ns + [m]):
                        bad("attributes left out", where, "attributes of an element are left out")
            return None

        def closure_result(it, st, name, v):
            v = it.strip(st, v)
            t = st.top.fn.blocks[st.top.block]["t"]
            if short(name) in ("for_each", "try_for_each") and of_children(it.strip(st, it.operand(st, t[2][0]))):
                if not (v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1):
                    if st.q.child == "end":
                        bad("child lost", st.top.fn.where(t[5]), "a child of a source node is not built")
                    self.settled(bad, st.top.fn.where(t[5]), st.q)
                st.q = st.q._replace(child="end", adding=None, had=None, links=frozenset())
            if short(name) in ("filter_map", "map", "for_each", "flat_map"):
                src = [short(n) for a in t[2] for n in names(it.strip(st, it.operand(st, a)))]
                if "namespaces" in src:
                    self.declaration(bad, st.top.fn.where(t[5]), v, st)
                    st.q = st.q._replace(inserted=False)
                    st.facts = {f: x for f, x in st.facts.items() if not track(f) or any(y is DEPTH for y in walk(f))}
                elif "attributes" in src and v.k != "k":
                    self.attribute(bad, st.top.fn.where(t[5]), v)

        def track(v):
            if any(x is DEPTH for x in walk(v)):
                return True
            return "namespaces" in [short(n) for n in names(v)] and "tag_name" not in [short(n) for n in names(v)]

        it = Interp(prog, hook=hook, opaque=self.opaque, track=track, max_states=60000)
        it.pure = lambda n: True
        it.closure_result = closure_result
        mem = {("D", NS): OUTER, ("D", ALLOC): mk("sym", "arena")}
        q0 = Q(None, "none", None, None, frozenset(), False, False)
        try:
            ends = it.run(start, args=[self.arg(start, i) for i in range(1, start.argc + 1)], q=q0, mem=mem)
        except ToolError as e:
            ctx.undecide(kind, e)
            return
        ctx.analysed(*it.visited_fns)
        where = start.where()
        for e in ends:
            if e.kind != "ret":
                continue
            if self.manual:
                ctx.undecide(kind, "children are walked by hand")
                break
            v = it.strip(e.state, e.value)
            q = e.state.q
            ctx.count("paths")
            if v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1:
                continue
            styled = q.adding is STYLE
            self.settled(bad, where, q)
            now = it.read(e.state, ("D", NS), ())
            if self.map_ty is not None and start is entry:
                ctx.obligation(now is OUTER, f"{kind}: scope", where, f"after a source node of kind {kind}, the namespace declarations made inside it stay in force for what follows")
            ctx.obligation(q.made in WANT[kind], f"{kind}: node", where, f"a source node of kind {kind} becomes {q.made or 'nothing'}")
            got = peel(v.t[3][0]) if v.k == "adt" and v.t[1] == RESULT else v
            ctx.obligation(got.k == "sym" and got.t[1] == f"new {q.made}" or got.k == "ref", f"{kind}: result", where, f"what is returned for a source node of kind {kind} is not the node made for it")
            if q.child == "none" and not styled:
                bad("children lost", where, f"the children of a source node of kind {kind} can be left out")
            elif q.child not in ("none", "end"):
                bad("children cut short", where, f"not all children of a source node of kind {kind} are taken")
            if kind == "Element":
                if not q.declared:
                    bad("declarations", where, "the namespace declarations of an element are not read")
        # failures of children
        for e in ends:
            if e.kind == "ret" and not self.manual:
                v = it.strip(e.state, e.value)
                if e.state.q.child == "pending" and v.k == "adt" and v.t[2] == 0:
                    bad("failure lost", where, "a child that could not be built is passed over")
        ctx.count("obligations")
        ctx.count("discharged", 0 if problems else 1)
        for key, (wh, msg) in problems.items():
            if self.manual and "child" in key:
                continue
            ctx.violation(f"{kind}: {key}", wh, msg)

    def opaque(self, f):
        return "parse::roxmltree" not in f.id

    def content(self, bad, where, kind, vn, d, q):
        v = d
        if kind in CONTENT and vn in WANT[kind]:
            got = names(v)
            seen = set(walk(v))
            for x in walk(v):
                if x.k == "res" and x.t[2] not in CONTENT[kind] and ("str>" in x.t[2] or "str::" in x.t[2] or "String::" in x.t[2]) and short(x.t[2]) not in SAME and any(y in (TARGET, VALUE) or y.k == "res" and y.t[2] in CONTENT[kind] for y in walk(x)):
                    bad("content changed", where, f"the content of a source node of kind {kind} is changed by {short(x.t[2])}")
            if kind == "PI":
                whole = not {TARGET, VALUE} <= seen
            else:
                whole = not any(n in CONTENT[kind] for n in got) or NODE not in seen
            if whole:
                bad("content", where, f"the content of a source node of kind {kind} does not reach its node")
        if kind == "Element" and vn == "Element":
            got = [short(n) for n in names(v)]
            if "tag_name" not in got:
                bad("name", where, "the name of an element is not taken from the source")

    def place(self, it, st, r):
        if r.k != "ref" or not isinstance(r.t[2], tuple) or r.t[2][0] != "D" or len(r.t[3]) != 1:
            return None, None
        fields = self.prog.adts[NODES].variants[0].fields
        i = r.t[3][0][1]
        return peel(r.t[2][1]), fields[i][0] if i < len(fields) else None

    def link(self, it, st, t, m, args):
        """Reading and setting the links between nodes, as far as they concern the node being attached."""
        obj, field = self.place(it, st, args[0])
        q = st.q
        if obj is None or q.adding is None:
            return None
        parent = mk("sym", f"new {q.made}")
        new = it.strip(st, args[1]) if len(args) > 1 else NONE
        new = peel(new.t[3][0]) if is_some(new) else None if is_none(new) else new

        def out(st, old):
            if m != "get":
                keep = frozenset(x for x in st.q.links if x[:2] != (obj, field))
                st.q = st.q._replace(links=keep | {(obj, field, new)})
            return it.finish(st, t, mk("tup", ()) if m == "set" else old)
        for o, f, v in q.links:
            if (o, f) == (obj, field):
                return out(st, NONE if v is None else some(v))
        if m == "set":
            return out(st, None)
        if obj is q.adding:
            return out(st, NONE)
        if obj is parent and field in ("first_child", "last_child"):
            res = []
            for had in ((True, False) if q.had is None else (q.had,)):
                s2 = st.copy()
                s2.q = q._replace(had=had)
                res += out(s2, some(FIRST if field == "first_child" else LAST) if had else NONE)
            return res
        if obj is LAST and field == "next_sibling":
            return out(st, NONE)
        return None

    def settled(self, bad, where, q):
        """Whatever was built for a child is linked into the tree, completely."""
        if q.child == "pending":
            bad("child lost", where, "a child of a source node is not built")
        if q.adding is None:
            return
        parent = mk("sym", f"new {q.made}")
        links = {(o, f): v for o, f, v in q.links}
        if not links:
            bad("child lost", where, "a child built from the source is not attached to its parent")
            return
        want = {(q.adding, "parent"): parent, (parent, "last_child"): q.adding}
        for had in ((True, False) if q.had is None else (q.had,)):
            w = dict(want)
            w[(q.adding, "previous_sibling")] = LAST if had else None
            if had:
                w[(LAST, "next_sibling")] = q.adding
            else:
                w[(parent, "first_child")] = q.adding
            for (o, f), v in w.items():
                if links.get((o, f)) is not v:
                    bad(f"link {f}", where, f"a child built from the source is attached without its link {f.replace('_', ' ')}")
            for (o, f), v in links.items():
                if (o, f) not in w and not (v is None and o is q.adding) and not (o is parent and f == "first_child" and v is FIRST):
                    bad(f"stray {f}", where, f"attaching a child sets the link {f.replace('_', ' ')} of another node")

    def deeper(self, it, st, tgt, args, bad, where):
        guards = {(f, v) for f, v in st.facts.items() if any(x is DEPTH for x in walk(f))}
        self.guards |= guards
        if self.kind_now != "Document" and (not guards or any((f, ("=", not v[1])) in self.guards for f, v in guards)):
            bad("depth guard", where, "nesting is not limited, so a deeply nested document is not refused")
        for i, a in enumerate(args):
            if self.kind_now != "Document" and self.prog.local_ty(tgt, i + 1)["s"] in ("u32", "usize", "u16", "u64"):
                v = it.strip(st, a)
                ok = v.k == "op" and v.t[1].startswith("Add") or v.k == "res" and short(v.t[2]) in ("saturating_add", "wrapping_add", "checked_add", "add") or v.k == "fld" or v.k == "sum"
                by = [x.t[1] for x in walk(v) if x.k == "k" and isinstance(x.t[1], int)]
                if ok and v.k != "sum" and (not any(x is DEPTH for x in walk(v)) or not any(n >= 1 for n in by)):
                    bad("depth", where, "nesting is not counted at every level, so a deeply nested document is not refused")
                if v is DEPTH or v.k == "k":
                    bad("depth", where, "nesting is not counted, so a deeply nested document is not refused")
                elif not ok:
                    self.ctx.undecide("depth", repr(v))

    def declaration(self, bad, where, v, st):
        facts = st.facts
        if v.k == "adt" and is_none(v):
            known = any(in_force(t, f == ("=", True)) for t, f in facts.items() if f[0] == "=")
            if not known:
                bad("declaration dropped", where, "a namespace declaration can be left out although it is not in force")
        elif v.k == "adt" and is_some(v):
            if not st.q.inserted:
                bad("declaration not in force", where, "a namespace declaration is kept as an attribute but not put in force")

    def attribute(self, bad, where, v):
        made = [x for x in walk(v) if x.k == "res" and x.t[2].endswith("Attr::new")]
        if not made:
            self.ctx.undecide("attributes", "how an attribute is made is not followed")
        for x in made:
            got = peel(x.t[3][-1])
            if not (got.k == "res" and got.t[2] == "roxmltree::Attribute::value"):
                bad("attribute value", where, "an attribute does not get the value it has in the source")
            if not any(y.k == "res" and y.t[2] == "roxmltree::Attribute::name" for y in walk(x.t[3][0])):
                bad("attribute name", where, "an attribute does not get the name it has in the source")


def in_force(t, yes):
    """Whether the fact tells that the prefix already stands for this namespace, or that the namespace is empty."""
    m = short(t.t[2]) if t.k == "res" else {"Eq": "eq", "Ne": "ne"}.get(t.t[1]) if t.k == "op" else None
    if m == "is_empty":
        return yes and "roxmltree::Namespace::uri" in names(t)
    if m not in ("eq", "ne") or yes != (m == "eq"):
        return False
    if not any(x.k in ("sym", "res") and x.k == "res" and x.t[2] == "roxmltree::Namespace::uri" for x in walk(t)):
        return False
    gets = [x for x in walk(t) if x.k == "res" and short(x.t[2]) == "get"]
    if not gets:
        return any(x.k == "k" and x.t[1] == "" for x in walk(t))
    return any("roxmltree::Namespace::name" in names(x.t[3][1]) and "roxmltree::Namespace::uri" not in names(x.t[3][1]) for x in gets)


def peel(v):
    while v.k in ("refv", "deref"):
        v = v.t[1]
    return v
