"""Walking a document shows a visitor every node once, in order, with the right context."""
from collections import namedtuple

from facts import ToolError
from interp import Interp, mk
from terms import walk, RESULT, is_some, some, NONE

TECHNIQUE = "path-sensitive event-sequence (typestate) analysis of the walk over MIR, per kind of node"
EXPLANATION = (
    "The walk's own functions are followed on all paths for every kind of node, with each callback of the visitor as an event that may fail and may "
    "ask to skip children. Required are: an element is entered, then its children are walked unless skipping was asked for, then it is left; each child is "
    "given to the callback of its kind exactly once; a failure stops the walk and is returned; the request to skip is used up by the element "
    "that made it; the mark for foreign content is set while inside the outermost foreignObject and taken back after it; a preparation that says skip "
    "prevents the walk. The queue behind the search through descendants must take up every child of what it gives out."
)
LEVEL_NOTE = "All paths per kind of node; any number of children by induction over one child."

V = "oxvg_ast::visitor::Visitor::"
TYPE = "oxvg_ast::node::Type"
FLAGS = "oxvg_ast::visitor::ContextFlags::"
OUTCOME = "oxvg_ast::visitor::PrepareOutcome::"
IDS = "oxvg_collections::element::ElementId"
NODE = mk("sym", "node")
CHILD = mk("sym", "child")
CTX = mk("sym", "context")
FAIL = mk("sym", "failure")
Q = namedtuple("Q", "events failed skip foreign child handled")
OF_KIND = {"Document": "visit", "Element": "visit", "Style": "style", "Text": "text_or_cdata", "CDataSection": "text_or_cdata",
           "Comment": "comment", "DocumentType": "doctype", "ProcessingInstruction": "processing_instruction"}
CALLBACKS = ("document", "exit_document", "element", "exit_element", "doctype", "style", "text_or_cdata", "comment", "processing_instruction")
CUTS = ("skip", "take", "step_by", "skip_while", "take_while", "filter", "nth", "last", "rev", "map_while", "zip", "peekable")


def short(n):
    return n.rsplit("::", 1)[-1]


def peel(v):
    while v.k in ("refv", "deref"):
        v = v.t[1]
    if v.k == "res" and short(v.t[2]) in ("deref", "clone", "as_ref", "borrow") and v.t[3]:
        return peel(v.t[3][0])
    if v.k == "adt" and v.t[1] == "oxvg_ast::element::Element" and len(v.t[3]) == 1:
        return peel(v.t[3][0])
    return v


def about(v, x):
    return any(y is x for y in walk(v))


def names(v):
    return [short(x.t[2]) for x in walk(v) if x.k == "res"]


def of_children(v):
    return about(v, NODE) and any(n in ("child_nodes_iter", "children_iter", "children") for n in names(v))


def check(ctx):
    prog = ctx.program("native", ["oxvg_ast.lib"])
    types = prog.adts.get(TYPE)
    visit = prog.get(V + "visit")
    start = prog.get(V + "start_with_context")
    if types is None or visit is None or start is None:
        raise ToolError("the walk of the document or the kinds of nodes are gone")
    w = Walk(ctx, prog, types, visit)
    w.bits()
    for i, v in enumerate(types.variants):
        if v.name == "Element":
            for foreign in (False, True):
                for inside in (False, True):
                    w.element(i, foreign, inside)
        elif v.name == "Document":
            w.document(i)
    w.children()
    w.starts()
    w.overrides()
    w.queue()
    w.siblings()
    ctx.floor("obligations", 15)


class Walk:
    def __init__(self, ctx, prog, types, visit):
        self.ctx, self.prog, self.types, self.visit = ctx, prog, types, visit
        self.ids = prog.adts.get(IDS)
        self.skip_bit = self.foreign_bit = None

    # -- flags -------------------------------------------------------------------------
    def bits(self):
        """The bit that stands for skipping children is the one set by the call visitors use for it."""
        f = self.prog.get(FLAGS + "visit_skip")
        if f is None:
            raise ToolError("the request to skip children is gone")
        found = set()

        def hook(it, st, t, name, c, args):
            if c["fn"].startswith(FLAGS) and short(c["fn"]) in ("set", "insert"):
                found.add(self.bit(it.strip(st, args[1])))
                return it.finish(st, t, mk("tup", ()))
            return None
        Interp(self.prog, hook=hook, opaque=lambda g: True, track=lambda v: False).run(f)
        if len(found) != 1:
            raise ToolError("which flag asks to skip children is unclear")
        self.skip_bit = found.pop()

    def bit(self, v):
        ks = [x.t[1] for x in walk(v) if x.k == "k" and isinstance(x.t[1], int) and not isinstance(x.t[1], bool)]
        return ks[0] if len(ks) == 1 else None

    def flags(self, it, st, t, base, args):
        m = short(base)
        b = self.bit(it.strip(st, args[1])) if len(args) > 1 else None
        if b is None:
            return None
        q = st.q
        which = "skip" if b == self.skip_bit else "foreign"
        if which == "foreign":
            if self.foreign_bit is None:
                self.foreign_bit = b
            elif self.foreign_bit != b:
                return None
        if m in ("contains", "intersects"):
            return it.finish(st, t, mk("k", getattr(q, which)))
        if m in ("set", "insert", "remove", "toggle"):
            v = it.strip(st, args[2]) if m == "set" else None
            new = v.t[1] if v is not None and v.k == "k" else True if m == "insert" else False if m == "remove" else (not getattr(q, which)) if m == "toggle" else None
            if new is None:
                self.ctx.undecide("flags", "a flag is set to a value that is not followed")
                return None
            st.q = q._replace(**{which: new})
            return it.finish(st, t, mk("tup", ()))
        return None

    def common(self, it, st, t, name, c, args):
        base = c["fn"]
        if base.startswith("log::") or "<log::" in base or "<log::" in name:
            return it.finish(st, t, mk("k", False))
        if base.startswith(FLAGS):
            return self.flags(it, st, t, base, args)
        if base.startswith(V) and short(base) not in CALLBACKS + ("visit", "visit_children", "prepare"):
            f = self.prog.get(base)
            if f is not None and it.can_inline(st, f):
                return it.enter(st, t, f, args, None)
        return None

    def outcomes(self, it, st, t, event, bad):
        """A callback that may fail."""
        q = st.q
        if q.failed:
            bad("goes on after a failure", f"{event} is called although an earlier callback failed")
        s2 = st.copy()
        st.q = st.q._replace(events=q.events + (event,))
        s2.q = st.q._replace(failed=True)
        return st, s2, [mk("adt", RESULT, 0, (mk("tup", ()),)), mk("adt", RESULT, 1, (FAIL,))]

    def judge(self, what, it, ends, want, bad, problems, where):
        ctx = self.ctx
        for e in ends:
            if e.kind != "ret":
                continue
            v = it.strip(e.state, e.value)
            q = e.state.q
            ctx.count("paths")
            failed = v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1
            if q.failed:
                if not failed:
                    bad("failure lost", "a callback fails but the walk goes on as if it had not")
                continue
            if failed:
                bad("fails by itself", "the walk fails although no callback did")
                continue
            want(e, q)
        for key in problems:
            ctx.violation(f"{what}: {key}", where, f"{what}: {problems[key]}")
        ctx.count("obligations")
        ctx.count("discharged", 0 if problems else 1)

    # -- one element -------------------------------------------------------------------
    def run(self, what, kind, fn, hook, q, want, problems, bad, args=None):
        it = Interp(self.prog, hook=hook, opaque=lambda f: "visitor::Visitor::" not in f.id or short(f.id) in CALLBACKS, track=lambda v: v.k == "discr" and about(v, CHILD), max_states=30000)
        it.pure = lambda n: True
        it.closure_result = getattr(self, "closure_result", None)
        args = args or [mk("sym", "visitor"), NODE, mk("ref", True, ("D", CTX), ())]
        try:
            ends = it.run(fn, args=args[:fn.argc], q=q)
        except ToolError as e:
            self.ctx.undecide(what, e)
            return
        self.ctx.analysed(*it.visited_fns)
        self.judge(what, it, ends, want, bad, problems, fn.where())

    def element(self, kind, foreign, inside):
        what = f"element{', foreignObject' if foreign else ''}{', inside foreign content' if inside else ''}"
        problems = {}
        bad = lambda k, m: problems.setdefault(k, m)
        fo = next((i for i, v in enumerate(self.ids.variants) if v.name == "ForeignObject"), None)
        other = next(i for i, v in enumerate(self.ids.variants) if v.name != "ForeignObject" and not v.fields)
        if fo is None:
            raise ToolError("there is no foreignObject element")
        ident = mk("adt", IDS, fo if foreign else other, ())
        mark = foreign or inside

        def hook(it, st, t, name, c, args):
            r = self.common(it, st, t, name, c, args)
            if r is not None:
                return r
            base = c["fn"]
            m = short(base)
            if m == "node_type" and peel(it.strip(st, args[0])) is NODE:
                return it.finish(st, t, mk("adt", TYPE, kind, ()))
            if m in ("qual_name", "name") and args and peel(it.strip(st, args[0])) is NODE:
                return it.finish(st, t, mk("refv", ident))
            if m in ("eq", "ne") and IDS in name:
                a, b = (peel(it.strip(st, x)) for x in args)
                if a.k == "adt" and b.k == "adt" and not a.t[3] and not b.t[3]:
                    return it.finish(st, t, mk("k", (a.t[2] == b.t[2]) == (m == "eq")))
            if base.startswith(V) and (m in CALLBACKS or m in ("visit_children", "visit")):
                if peel(it.strip(st, args[1])) is not NODE:
                    bad(f"{m} of another", f"{m} gets something other than the element walked")
                if st.q.foreign != mark:
                    bad(f"foreign mark at {m}", f"{m} is called with the mark for foreign content {'set' if st.q.foreign else 'not set'}")
                if m != "element" and st.q.skip and m != "exit_element":
                    bad("skip", f"{m} is called although skipping the children was asked for")
                st, s2, (ok, err) = self.outcomes(it, st, t, m, bad)
                out = it.finish(s2, t, err)
                if m == "element":
                    s3 = st.copy()
                    s3.q = s3.q._replace(skip=True, events=s3.q.events + ("asked to skip",))
                    out += it.finish(s3, t, ok)
                return out + it.finish(st, t, ok)
            return None

        def want(e, q):
            asked = "asked to skip" in q.events
            ev = tuple(x for x in q.events if x != "asked to skip")
            good = ("element", "exit_element") if asked else ("element", "visit_children", "exit_element")
            if ev != good:
                bad("order", f"with{'' if asked else 'out'} a request to skip, the steps are {', '.join(ev) or 'none'}; they should be {', '.join(good)}")
            if q.skip:
                bad("skip stays", "the request to skip children stays in force for the next element")
            if q.foreign != inside:
                bad("foreign mark stays", f"the mark for foreign content is {'set' if q.foreign else 'not set'} after the element")
        self.run(what, "Element", self.visit, hook, Q((), False, False, inside, None, False), want, problems, bad)

    def document(self, kind):
        problems = {}
        bad = lambda k, m: problems.setdefault(k, m)

        def hook(it, st, t, name, c, args):
            r = self.common(it, st, t, name, c, args)
            if r is not None:
                return r
            base, m = c["fn"], short(c["fn"])
            if m == "node_type" and peel(it.strip(st, args[0])) is NODE:
                return it.finish(st, t, mk("adt", TYPE, kind, ()))
            if base.startswith(V) and (m in CALLBACKS or m in ("visit_children", "visit")):
                if peel(it.strip(st, args[1])) is not NODE:
                    bad(f"{m} of another", f"{m} gets something other than the document walked")
                st, s2, (ok, err) = self.outcomes(it, st, t, m, bad)
                return it.finish(st, t, ok) + it.finish(s2, t, err)
            return None

        def want(e, q):
            if q.events != ("document", "visit_children", "exit_document"):
                bad("order", f"the steps are {', '.join(q.events) or 'none'}; they should be document, visit_children, exit_document")
        self.run("document", "Document", self.visit, hook, Q((), False, False, False, None, False), want, problems, bad)

    # -- children ----------------------------------------------------------------------
    def children(self):
        fn = self.prog.get(V + "visit_children")
        if fn is None:
            raise ToolError("the walk of children is gone")
        for i, v in enumerate(self.types.variants):
            self.child(fn, i, v.name)

    def child(self, fn, kind, kname):
        what = f"child of kind {kname}"
        problems = {}
        bad = lambda k, m: problems.setdefault(k, m)
        expect = OF_KIND.get(kname)
        seen = []

        def settle(q):
            if q.child and not q.handled and expect is not None:
                bad("left out", f"a child of kind {kname} is given to no callback")

        def ischild(v):
            p = peel(v)
            return about(p, CHILD) or any(x.k == "res" and "#arg" in x.t[2] and of_children(x) for x in walk(p))

        def hook(it, st, t, name, c, args):
            r = self.common(it, st, t, name, c, args)
            if r is not None:
                return r
            base, m = c["fn"], short(c["fn"])
            q = st.q
            if m == "node_type" and ischild(it.strip(st, args[0])):
                return it.finish(st, t, mk("adt", TYPE, kind, ()))
            if base == "oxvg_ast::element::Element::new" and ischild(it.strip(st, args[0])):
                yes = kname in ("Element", "Document")
                return it.finish(st, t, some(CHILD) if yes else NONE)
            if args and of_children(it.strip(st, args[0])) and m not in ("child_nodes_iter", "children_iter", "children"):
                v = it.strip(st, args[0])
                seen.append(m)
                if m in CUTS or any(n in CUTS for n in names(v)) or m == "next_back" or "children_iter" in names(v) or "children" in names(v):
                    bad("children", "children are left out or out of order")
                if m == "next":
                    settle(q)
                    s2 = st.copy()
                    st.q = q._replace(child=True, handled=False)
                    s2.q = q._replace(child=False, handled=False)
                    return it.finish(st, t, some(CHILD)) + it.finish(s2, t, NONE)
                if m in ("for_each", "try_for_each", "try_fold"):
                    return None
            if base.startswith(V) and (m in CALLBACKS or m in ("visit", "visit_children")):
                if not ischild(it.strip(st, args[1])):
                    bad(f"{m} of another", f"{m} gets something other than the child")
                if m != expect:
                    bad("wrong callback", f"a child of kind {kname} is given to {m}")
                if q.handled:
                    bad("twice", f"a child of kind {kname} is given to callbacks twice")
                st.q = q._replace(handled=True)
                st, s2, (ok, err) = self.outcomes(it, st, t, m, bad)
                st.q = st.q._replace(events=())
                s2.q = s2.q._replace(events=())
                return it.finish(st, t, ok) + it.finish(s2, t, err)
            return None

        def closure_result(it, st, name, v):
            if short(name) not in ("for_each", "try_for_each", "try_fold"):
                return
            v = it.strip(st, v)
            q = st.q
            err = v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1
            if q.failed and not err:
                bad("failure lost", f"the failure of a callback for a child of kind {kname} is lost")
            if not q.failed and not q.handled and expect is not None:
                bad("left out", f"a child of kind {kname} is given to no callback")
            if not q.failed and err:
                bad("fails by itself", "the walk fails although no callback did")
            # try_for_each stops at a failure and returns it
            st.q = q._replace(failed=False, handled=False)

        def want(e, q):
            settle(q)
        self.closure_result = closure_result
        self.run(what, kname, fn, hook, Q((), False, False, False, None, False), lambda e, q: settle(q), problems, bad)
        self.closure_result = None
        if not seen:
            self.ctx.violation(f"{what}: children", fn.where(), "the children of a node are not walked")

    # -- starting ----------------------------------------------------------------------
    def starts(self):
        for n in ("start_with_context", "start_with_info", "start", "start_with_path"):
            fn = self.prog.get(V + n)
            if fn is None:
                continue
            problems = {}
            bad = lambda k, m: problems.setdefault(k, m)

            def hook(it, st, t, name, c, args):
                r = self.common(it, st, t, name, c, args)
                if r is not None:
                    return r
                base, m = c["fn"], short(c["fn"])
                if base.startswith("oxvg_ast::element::Element::") and args and peel(it.strip(st, args[0])) is NODE and self.prog.get(base) is not None and "Option<" in self.prog.local_ty(self.prog.get(base), 0)["s"]:
                    s2 = st.copy()
                    s2.q = st.q._replace(events=("no element",))
                    return it.finish(st, t, some(NODE)) + it.finish(s2, t, NONE)
                if base.startswith(OUTCOME) and m in ("contains", "can_skip", "intersects"):
                    return it.finish(st, t, mk("k", st.q.skip))
                if base.startswith(V) and m in ("prepare", "visit"):
                    if peel(it.strip(st, args[1])) is not NODE:
                        bad(f"{m} of another", f"{m} gets something other than the root given")
                    if m == "visit" and st.q.skip:
                        bad("skip", "the document is walked although the preparation said to skip it")
                    st, s2, (ok, err) = self.outcomes(it, st, t, m, bad)
                    out = it.finish(s2, t, err)
                    if m == "prepare":
                        ok = mk("adt", RESULT, 0, (mk("sym", "outcome"),))
                        s3 = st.copy()
                        s3.q = s3.q._replace(skip=True)
                        out += it.finish(s3, t, ok)
                    return out + it.finish(st, t, ok)
                return None

            def want(e, q):
                good = ("prepare",) if q.skip else ("prepare", "visit")
                if q.events != good and q.events != ("no element",):
                    bad("order", f"when the preparation says {'skip' if q.skip else 'go'}, the steps are {', '.join(q.events) or 'none'}; they should be {', '.join(good)}")
            args = [mk("sym", "visitor")] + [NODE if self.prog.local_ty(fn, i).get("def") == "oxvg_ast::element::Element" or self.prog.local_ty(fn, i)["s"].endswith(("element::Element", "node::Node"))
                                              else mk("ref", True, ("D", CTX), ()) if self.prog.local_ty(fn, i)["s"].startswith("&mut") else mk("sym", f"argument {i}") for i in range(2, fn.argc + 1)]
            self.run(n, None, fn, hook, Q((), False, False, False, None, False), want, problems, bad, args=args)

    def overrides(self):
        """No visitor brings its own walk (it would not be covered by the above)."""
        own = [f.id for f in self.prog.fns.values() if f.itrait == "oxvg_ast::visitor::Visitor" and short(f.id) in ("visit", "visit_children", "start_with_context")]
        for f in own:
            self.ctx.undecide(f, "a visitor with its own walk")

    # -- the search through descendants -------------------------------------------------
    def queue(self):
        fns = [f for f in self.prog.fns.values() if f.itrait == "core::iter::traits::iterator::Iterator" and short(f.id) == "next"
               and "element::Iterator" in f.id]
        if len(fns) != 1:
            self.ctx.undecide("descendants", "the search through descendants is not found")
            return
        for fn, first in ((fns[0], False), (self.prog.get("oxvg_ast::element::Iterator::new"), True)):
            if fn is None:
                continue
            what = "descendants, start" if first else "descendants, next"
            problems = {}
            bad = lambda k, m: problems.setdefault(k, m)
            seen = []

            def of_kids(v):
                return any(n in ("children_iter", "child_nodes_iter", "children") for n in names(v)) and about(v, NODE)

            def push(it, st, t, m, args):
                v = it.strip(st, args[1])
                if not (about(v, CHILD) or any(x.k == "res" and "#arg" in x.t[2] and of_kids(x) for x in walk(v))):
                    bad("stray", "something other than a child is put into the queue")
                if st.q.handled:
                    bad("twice", "a child is put into the queue twice")
                if m == "push_front":
                    bad("order", "children are put before what is already waiting")
                st.q = st.q._replace(handled=True)
                return it.finish(st, t, mk("tup", ()))

            def hook(it, st, t, name, c, args):
                base, m = c["fn"], short(c["fn"])
                q = st.q
                if m in ("pop_front", "pop_back", "pop") and "VecDeque" in base:
                    if m != "pop_front":
                        bad("order", "the queue is emptied from its end")
                    s2 = st.copy()
                    st.q = q._replace(events=q.events + ("taken",))
                    return it.finish(st, t, some(NODE)) + it.finish(s2, t, NONE)
                if m in ("push_back", "push_front") and "VecDeque" in base:
                    return push(it, st, t, m, args)
                if m == "extend" and len(args) > 1 and of_kids(it.strip(st, args[1])):
                    v = it.strip(st, args[1])
                    seen.append(m)
                    if any(n in CUTS for n in names(v)):
                        bad("left out", "children are left out of the search")
                    st.q = q._replace(events=q.events + ("all",))
                    return it.finish(st, t, mk("tup", ()))
                if args and of_kids(it.strip(st, args[0])) and m not in ("children_iter", "child_nodes_iter", "children", "into_iter"):
                    v = it.strip(st, args[0])
                    seen.append(m)
                    if m in CUTS or any(n in CUTS for n in names(v)):
                        bad("left out", "children are left out of the search")
                    if m == "next":
                        if q.child and not q.handled:
                            bad("left out", "a child is left out of the search")
                        s2 = st.copy()
                        st.q = q._replace(child=True, handled=False)
                        s2.q = q._replace(child=False, handled=False, events=q.events + ("all",))
                        return it.finish(st, t, some(CHILD)) + it.finish(s2, t, NONE)
                    if m == "for_each":
                        st.q = q._replace(events=q.events + ("all",))
                    return None
                if base == "oxvg_ast::element::Element::new":
                    return it.finish(st, t, some(CHILD)) if about(it.strip(st, args[0]), CHILD) else None
                return None

            def closure_result(it, st, name, v):
                if short(name) == "for_each":
                    if not st.q.handled:
                        bad("left out", "a child is left out of the search")
                    st.q = st.q._replace(handled=False)
            self.closure_result = closure_result
            it = Interp(self.prog, hook=hook, opaque=lambda f: short(f.id) in ("children_iter", "child_nodes_iter", "children"), track=lambda v: False, max_states=20000)
            it.pure = lambda n: True
            it.closure_result = closure_result
            try:
                ends = it.run(fn, args=[mk("refv", NODE)] if first else None, q=Q((), False, False, False, None, False))
            except ToolError as e:
                self.ctx.undecide(what, e)
                continue
            self.ctx.analysed(*it.visited_fns)
            for e in ends:
                if e.kind != "ret":
                    continue
                self.ctx.count("paths")
                v = it.strip(e.state, e.value)
                ev = e.state.q.events
                if first or "taken" in ev:
                    if "all" not in ev:
                        bad("left out", "children are not taken into the search")
                    if not first and not (is_some(v) and peel(v.t[3][0]) is NODE):
                        bad("lost", "an element taken from the queue is not given out")
            for key in problems:
                self.ctx.violation(f"{what}: {key}", fn.where(), f"search through descendants: {problems[key]}")
            self.ctx.count("obligations")
            self.ctx.count("discharged", 0 if problems else 1)
        self.closure_result = None

    # -- the list of children ------------------------------------------------------------
    def siblings(self):
        """Lists of children of every length up to four, taken from both ends in every order, as shapes."""
        prog, ctx = self.prog, self.ctx
        make = prog.get("oxvg_ast::node::Node::child_nodes_iter")
        nexts = {short(f.id): f for f in prog.fns.values() if f.file and f.file.endswith("node.rs") and f.itrait in ("core::iter::traits::iterator::Iterator", "core::iter::traits::double_ended::DoubleEndedIterator") and short(f.id) in ("next", "next_back")}
        if make is None or "next" not in nexts:
            ctx.undecide("children", "the list of children is not found")
            return
        parent, me = mk("sym", "parent"), mk("sym", "iterator")

        class Lost(Exception):
            pass

        for n in range(5):
            kids = [mk("sym", f"child {i}") for i in range(n)]

            alive = [tuple(kids)]

            def link(v, m):
                here = alive[0]
                opt = lambda i: some(here[i]) if 0 <= i < len(here) else NONE
                if v is parent:
                    return {"first_child": opt(0), "last_child": opt(len(here) - 1)}.get(m)
                if v in here:
                    i = here.index(v)
                    return {"next_sibling": opt(i + 1), "previous_sibling": opt(i - 1)}.get(m)
                return NONE if v in kids and m in ("next_sibling", "previous_sibling", "parent") else None

            def hook(it, st, t, name, c, args):
                base, m = c["fn"], short(c["fn"])
                if m in ("eq", "ne", "ptr_eq", "id_eq") and len(args) == 2:
                    a, b = (peel(it.strip(st, x)) for x in args)
                    if a in kids and b in kids:
                        return it.finish(st, t, mk("k", (a is b) == (m != "ne")))
                if base.startswith("oxvg_ast::node::Node::") and args:
                    r = link(peel(it.strip(st, args[0])), m)
                    if r is not None:
                        return it.finish(st, t, r)
                if base.startswith("core::cell::Cell") and m == "get" and args[0].k == "ref" and args[0].t[2][0] == "D":
                    fields = prog.adts["oxvg_ast::node::Node"].variants[0].fields
                    i = args[0].t[3][0][1] if len(args[0].t[3]) == 1 else None
                    r = link(peel(args[0].t[2][1]), fields[i][0]) if i is not None else None
                    if r is not None:
                        return it.finish(st, t, r)
                return None

            def one(fn, args, mem):
                it = Interp(prog, hook=hook, opaque=lambda f: "::node::" not in f.id, track=lambda v: True, max_states=2000)
                it.pure = lambda x: True
                ends = [e for e in it.run(fn, args=args, mem=mem) if e.kind == "ret"]
                ctx.analysed(*it.visited_fns)
                if len(ends) != 1:
                    raise Lost(f"{short(fn.id)} of a list of {n} has {len(ends)} outcomes")
                e = ends[0]
                return it.strip(e.state, e.value), it.strip(e.state, it.read(e.state, ("D", me), ()))
            try:
                state0, _ = one(make, [mk("refv", parent)], {})
                steps = [k for k in ("next", "next_back") if k in nexts]
                work = [(state0, tuple(kids), (), tuple(kids))]
                while work:
                    state, left, done, present = work.pop()
                    for k in steps:
                        alive[0] = present
                        v, new = one(nexts[k], [mk("ref", True, ("D", me), ())], {("D", me): state})
                        want = NONE if not left else some(left[0] if k == "next" else left[-1])
                        got = NONE if not is_some(v) else some(peel(v.t[3][0]))
                        how = ", ".join(done + (k,))
                        if not ctx.obligation(got is want, f"children: {k}", nexts[k].where(), f"a list of {n} children, after {how}, gives {'nothing' if got is NONE else got.t[3][0].t[1]} where {'nothing is' if want is NONE else want.t[3][0].t[1] + ' is'} next"):
                            return
                        if left:
                            rest = left[1:] if k == "next" else left[:-1]
                            work.append((new, rest, done + (k,), present))
                            if n < 4:
                                gone = got.t[3][0]
                                work.append((new, rest, done + (k, "taking it out"), tuple(x for x in present if x is not gone)))
            except Lost as e:
                ctx.undecide("children", str(e))
                return
            except ToolError as e:
                ctx.undecide("children", e)
                return
