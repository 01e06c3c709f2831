"""What is written is a well-formed tree: every node once, in order, inside the tags of its element."""
import re

from facts import ToolError
from interp import Interp, mk
from terms import walk, is_none, is_some
import writer

TECHNIQUE = "typestate analysis of the XML writer over MIR (reachable abstract writers and what each operation emits), with an event analysis of the tree walk"
EXPLANATION = (
    "Starting from a new writer, every operation the serialiser uses is followed on all paths from every reachable abstract writer "
    "(its own fields and the entries of up to two open elements). The bytes each one sends to the output are matched with what XML "
    "requires at that point: an open start tag is closed exactly once before content, attributes only go into an open start tag with "
    "matching quotes, an end tag names the element it closes. The walk over the tree is then followed per kind of node: the operation "
    "that belongs to the kind is called once with the content of the node, every attribute and child is passed on exactly once in order, "
    "and the element is ended after its children."
)
LEVEL_NOTE = "All paths of each operation from each reachable abstract writer with up to two nested elements; output errors are left out. Blank space added for indentation is ignored here."

RAW = "\x01"
ESC = "\x02"


def text(toks):
    """Tokens as one string, values as placeholders, and the values in order."""
    out, vals = [], []
    for x in toks:
        if isinstance(x, str):
            out.append(x)
        else:
            out.append(RAW if x[0] == "raw" else ESC)
            vals.append(x)
    return "".join(out), vals


def mentions(v, name):
    return any(x.k == "sym" and x.t[1] == name for x in walk(v))


class Visit:
    def __init__(self, ctx, model):
        self.ctx = ctx
        self.model = model
        self.seen_err = set()

    def __call__(self, op, w, is_open, outs):
        res = []
        fn = self.model.method(op)
        where = fn.where()
        for kind, toks, after, end in outs:
            s, vals = text(toks)
            depth = len(w.stack)
            self.ctx.count("operation_outcomes")
            if kind == "panic":
                res.append(None)
                continue
            ok, nxt, why = getattr(self, op)(kind, s, vals, is_open, depth, end)
            key = f"{op} {'in an open start tag' if is_open else 'in content'}: {why}"
            self.ctx.obligation(ok, key, where, f"{op} {'while the start tag is open' if is_open else 'in content'} with {depth} open element(s): {why}; it emits {writer.show(toks)!r} and returns {kind}")
            res.append(nxt if ok else None)
        return res

    def closed(self, s, is_open):
        """The rest after the `>` that closes an open start tag."""
        if is_open:
            return (True, s[1:]) if s.startswith(">") else (False, s)
        return (not s.startswith(">"), s)

    def start_element(self, kind, s, vals, is_open, depth, end):
        if kind != "ok":
            return False, None, "an element cannot be started"
        ok, rest = self.closed(s, is_open)
        if not ok:
            return False, None, "the start tag before it is not closed exactly once"
        if not re.fullmatch(f" ?<{RAW}", rest) or not mentions(vals[0][1], f"name{depth}"):
            return False, None, "the start tag is not written as < and the name"
        if end.state.q.depth != depth + 1:
            return False, None, "the element is not recorded as open"
        return True, True, "start"

    def write_attribute(self, kind, s, vals, is_open, depth, end):
        if not is_open:
            return (kind == "err" and s == ""), None, "an attribute is written outside a start tag"
        if kind != "ok":
            return False, None, "an attribute of an open start tag is refused"
        m = re.fullmatch(f" {RAW}(:{RAW})?=(['\"]){ESC}\\2", s)
        if not m:
            return False, None, "an attribute is not written as name, = and a quoted value"
        if not mentions(vals[-1][2], "attribute") or not all(mentions(v[1], "attribute") for v in vals[:-1]):
            return False, None, "the name or value written is not the one of the attribute"
        return True, True, "attribute"

    def content(self, kind, s, vals, is_open, depth, end, body, what, need):
        if kind != "ok":
            return depth == 0 and s == "", None, f"{what} inside an element is refused"
        if s == "" and need is False:
            return True, is_open, "nothing to write"
        ok, rest = self.closed(s, is_open)
        if not ok:
            return False, None, f"the start tag is not closed exactly once before {what}"
        if not re.fullmatch(body, rest):
            return False, None, f"{what} is not written as it should"
        if not all(mentions(v[-1], "content") for v in vals):
            return False, None, f"something other than the content is written for {what}"
        if end.state.q.depth != depth:
            return False, None, f"{what} changes the number of open elements"
        return True, False, what

    def write_text(self, *a):
        return self.content(*a, f" ?{ESC}? ?", "text", False)

    def write_style(self, *a):
        return self.content(*a, f" ?{ESC} ?", "a stylesheet", False)

    def write_comment(self, kind, s, vals, is_open, depth, end):
        if kind != "ok":
            return False, None, "a comment is refused"
        return self.content(kind, s, vals, is_open, depth, end, f" ?<!--{ESC}--> ?", "a comment", True)

    def write_declaration(self, kind, s, vals, is_open, depth, end):
        if kind != "ok":
            # only the XML declaration may be refused
            named = any(v.k == "res" and f == ("=", True) and any(x.k == "k" and x.t[1] == "xml" for x in walk(v)) for v, f in end.state.facts.items())
            return named and s == "", None, "a processing instruction is refused"
        ok, rest = self.closed(s, is_open)
        if not ok:
            return False, None, "the start tag is not closed exactly once before a processing instruction"
        m = re.fullmatch(f" ?<\\?{RAW}( {RAW}| {ESC})?\\?> ?", rest)
        if not m or not mentions(vals[0][1], "target") or (len(vals) > 1 and not mentions(vals[1][-1], "value")):
            return False, None, "a processing instruction is not written as <? target and value ?>"
        if len(vals) == 1 and not any(v.k == "discr" and (f == ("=", 0) or f[0] == "!" and 1 in f[1]) and mentions(v, "value") for v, f in end.state.facts.items()):
            return False, None, "the value of a processing instruction is left out"
        return True, False, "processing instruction"

    def end_element(self, kind, s, vals, is_open, depth, end):
        if depth == 0:
            return s == "", None, "something is written for an element that was not started"
        if kind != "ok":
            return False, None, "an element cannot be ended"
        if end.state.q.depth != depth - 1:
            return False, None, "the element ended is not taken off the open elements"
        if is_open and re.fullmatch(" ?/>", s):
            return True, False, "end"
        ok, rest = self.closed(s, is_open)
        if not ok:
            return False, None, "the start tag of the element is not closed exactly once by its end"
        if not re.fullmatch(f" ?</{RAW}> ?", rest):
            return False, None, "the end tag is not written as </, the name and >"
        if not mentions(vals[0][1], f"name{depth - 1}"):
            return False, None, "the end tag does not name the element it ends"
        return True, False, "end"


def check(ctx):
    prog = ctx.program("native", [writer.CRATE])
    model = writer.Model(prog)
    states = writer.explore(model, Visit(ctx, model))
    ctx.count("abstract_writers", len(states))
    ctx.floor("abstract_writers", 6)
    ctx.floor("operation_outcomes", 60)
    finish_document(ctx, model, states)
    ctx.analysed(*model.visited)
    walk_tree(ctx, prog)


def finish_document(ctx, model, states):
    """Ending the document ends every open element."""
    fn = model.method("end_document")
    for value, stack, is_open in states:
        w = writer.Writer(value, stack, ())
        for kind, toks, after, end in model.finish(w):
            if kind == "panic":
                continue
            s, vals = text(toks)
            d = len(stack)
            pat = ""
            for i in range(d):
                one = f" ?</{RAW}>"
                if i == 0 and is_open:
                    pat += f"(?: ?/>|> ?</{RAW}>)"
                else:
                    pat += one
            ok = kind == "ok" and re.fullmatch(pat + " ?", s) is not None
            ctx.obligation(ok, "end_document: open elements", fn.where(), f"ending the document with {d} open element(s) emits {writer.show(toks)!r} and returns {kind}")


# -- the walk over the tree ----------------------------------------------------
ENTRY = "<oxvg_ast::node::Node as oxvg_ast::serialize::Node>::serialize_into"
TYPE = "oxvg_ast::node::Type"
NODE = "oxvg_ast::node::Node::"
WRITES = {"Element": "start_element", "Text": "write_text", "CDataSection": "write_text", "Style": "write_style", "Comment": "write_comment",
          "ProcessingInstruction": "write_declaration", "Document": None, "DocumentType": None, "DocumentFragment": None}
GETTERS = {"Element": ("::qual_name", "::element"), "Text": ("::text_content", "::node_value"), "CDataSection": ("::text_content", "::node_value"),
           "Style": ("::style",), "Comment": ("::text_content", "::node_value"), "ProcessingInstruction": ("::processing_instruction",)}


def walk_tree(ctx, prog):
    entry = prog.find("serialize::Node<'input, 'arena>>::serialize_into") or [f for f in prog.fns.values() if f.id.endswith("::serialize_into") and f.itrait]
    if not entry:
        raise ToolError("serialising a node into a writer is gone")
    entry = entry[0]
    types = prog.adts.get(TYPE)
    if types is None:
        raise ToolError("the kinds of nodes are gone")
    for v in types.variants:
        if v.name not in WRITES:
            ctx.undecide(f"nodes of kind {v.name}", "how this kind of node is to be written is not specified here")
            continue
        one_kind(ctx, prog, entry, v)


def one_kind(ctx, prog, entry, variant):
    kind = variant.name
    want = WRITES[kind]
    problems = {}
    recursive = set()
    root = mk("sym", "node")

    def bad(key, where, msg):
        problems.setdefault(key, (where, msg))

    # q: (phase, pending attribute, pending child, events)
    def hook(it, st, t, name, c, args):
        base = c["fn"]
        phase, attr, child, skipped = st.q
        where = st.top.fn.where(t[5])
        if base.endswith("node::Node::node_type"):
            v = it.strip(st, args[0])
            if v is root:
                return it.finish(st, t, mk("adt", TYPE, variant_index(prog, kind), ()))
            return it.finish(st, t, mk("res", None, base, (v,)))
        if base.endswith("node::Node::element") and it.strip(st, args[0]) is root:
            if kind == "Element":
                return it.finish(st, t, writer.some(mk("res", None, base, (root,))))
            if kind != "Document":
                return it.finish(st, t, writer.NONE)
        if base.startswith(writer.WRITER + "::"):
            m = base.rsplit("::", 1)[-1]
            given = [it.strip(st, a) for a in args[1:]]
            if m == "new":
                return it.finish(st, t, mk("sym", "xml"))
            if m == "end_document":
                if phase != "done":
                    return it.finish(st, t, mk("adt", writer.RESULT, 0, (mk("sym", "out"),)))
                return it.finish(st, t, mk("adt", writer.RESULT, 0, (mk("sym", "out"),)))
            if m == "write_attribute":
                if kind != "Element":
                    bad("attribute of something else", where, f"an attribute is written for a node of kind {kind}")
                elif phase != "open":
                    bad("attributes after content", where, "attributes of an element are written before its start or after its children")
                if attr == "pending":
                    if not any(x.k == "res" and x.t[2].endswith(("::next", "::next_back", "_each#arg0")) for g in given for x in walk(g)):
                        bad("other attribute", where, "something other than the attribute at hand is written")
                    attr = "done"
                elif attr == "done":
                    bad("attribute twice", where, "an attribute is written more than once")
                st.q = (phase, attr, child, skipped)
                return it.finish(st, t, writer.OK)
            if m == "end_element":
                if kind != "Element":
                    bad("end", where, f"an end tag is written for a node of kind {kind}")
                elif phase in ("none", "ended"):
                    bad("end order", where, "an element is ended before it is started or twice")
                elif child == "pending":
                    bad("child left out", where, "an element is ended while a child has not been written")
                st.q = ("ended", attr, child, skipped)
                return it.finish(st, t, writer.OK)
            if m in set(x for x in WRITES.values() if x) | {"write_cdata_text", "write_text_fmt", "write_comment_fmt"}:
                if m != want and not (m.replace("_fmt", "") == want) and not (want == "write_text" and m == "write_cdata_text"):
                    bad(f"wrong operation {m}", where, f"{m} is called for a node of kind {kind}")
                elif phase != "none":
                    bad("content order", where, f"the content of a node of kind {kind} is written twice or after its children")
                elif not any(x.k == "res" and x.t[2].endswith(GETTERS[kind]) and any(y is root for y in walk(x)) for g in given for x in walk(g)) \
                        and not excused(st.facts, kind):
                    bad("other content", where, f"what is written for a node of kind {kind} is not its own content")
                st.q = ("open" if kind == "Element" else "content", attr, child, skipped)
                return it.finish(st, t, writer.OK)
            bad(f"operation {m}", where, f"{m} is called while serialising a node of kind {kind}")
            return it.finish(st, t, writer.OK)
        if base.endswith(("Iterator::next", "DoubleEndedIterator::next_back")):
            v = it.strip(st, args[0])
            src = source(v, root)
            if src is None:
                return None
            back = base.endswith("next_back") or any(x.k == "res" and x.t[2].endswith("::rev") for x in walk(v))
            if back:
                bad(f"{src} reversed", where, f"{src} are not written in document order")
            if any(x.k == "res" and x.t[2].rsplit("::", 1)[-1] in ("skip", "take", "step_by", "filter", "skip_while", "take_while") for x in walk(v)):
                bad(f"{src} filtered", where, f"{src} are left out by the iteration")
            if src == "attributes":
                if attr == "pending":
                    bad("attribute left out", where, "the next attribute is taken while the one at hand has not been written")
                s1, s2 = st.copy(), st.copy()
                s1.q = (phase, "pending", child, skipped)
                s2.q = (phase, "end", child, skipped)
            else:
                if child == "pending":
                    bad("child left out", where, "the next child is taken while the one at hand has not been written")
                s1, s2 = st.copy(), st.copy()
                s1.q = (phase, attr, "pending", skipped)
                s2.q = (phase, attr, "end", skipped)
            item = mk("res", None, base, (v,))
            return it.finish(s1, t, writer.some(item)) + it.finish(s2, t, writer.NONE)
        if base.endswith(("Iterator::for_each", "Iterator::try_for_each")) and len(args) == 2:
            src = source(it.strip(st, args[0]), root)
            if src is not None:
                depth = len(st.frames)
                it.explore_closures = True
                outs = it.opaque_call(st, t, name, args, c)
                it.explore_closures = False
                for o in outs:
                    mark = "pending" if len(o.frames) > depth else "end"
                    o.q = (phase, mark, child, skipped) if src == "attributes" else (phase, attr, mark, skipped)
                return outs
        tgt = prog.get(name)
        if tgt is not None and any(f.fn.id == tgt.id for f in st.frames) and tgt.kind != "closure" and any(isinstance(a, type(root)) for a in args):
            given = it.strip(st, args[0])
            recursive.add(tgt.id)
            if source(given, root) == "children":
                if child != "pending":
                    bad("child twice", where, "a child is written more than once")
                if phase == "ended":
                    bad("child after end", where, "children are written after the end tag of their element")
                if kind == "Element" and phase == "none":
                    bad("child before start", where, "children are written before the start tag of their element")
                st.q = (phase, attr, "done", skipped)
                return it.finish(st, t, writer.OK)
        return None

    def track(v):
        return any(x is root for x in walk(v)) and v.k == "discr" and not any(x.k == "res" and x.t[2].endswith(("::next", "previous_sibling", "next_sibling", "first_child", "last_child")) for x in walk(v)) \
            or (v.k == "res" and v.t[2].endswith("::is_empty"))

    it = Interp(prog, hook=hook, opaque=lambda f: "oxvg_ast::serialize" not in f.id, track=track, max_states=20000, explore_closures=False)
    it.pure = lambda n: True
    start = ("none", "none", "none", ())
    ends = it.run(entry, args=[root], q=start)
    for f in sorted(recursive):
        # the same for a node inside the tree
        ends += it.run(prog.fn(f), args=[root], q=start)
    ctx.analysed(*it.visited_fns)
    for e in ends:
        if e.kind != "ret":
            continue
        phase, attr, child, _ = e.state.q
        ctx.count("walk_paths")
        v = it.strip(e.state, e.value)
        if v.k == "adt" and v.t[1] == writer.RESULT and v.t[2] == 1:
            continue
        if kind == "Element" and phase != "ended":
            bad("not ended", entry.where(), "an element is not ended")
        if attr == "pending":
            bad("attribute left out", entry.where(), "an attribute is not written")
        if child == "pending":
            bad("child left out", entry.where(), "a child is not written")
        if kind == "Element" and attr == "none":
            bad("attributes left out", entry.where(), "the attributes of an element are not written")
        if child == "none":
            if any(f.endswith(("child_nodes_iter", "first_child", "child_nodes")) for f in it.opaque_calls):
                ctx.undecide(f"children of {kind}", "the children are not taken from an iterator")
            else:
                bad("children left out", entry.where(), f"the children of a node of kind {kind} are not written")
        if want and kind != "Element" and phase == "none" and not excused(e.state.facts, kind):
            bad("content left out", entry.where(), f"a node of kind {kind} can be left out though it has content")
    for key in ("operation", "children"):
        ctx.count("obligations")
        ctx.count("discharged", 0 if problems else 1)
    for key, (where, msg) in problems.items():
        ctx.violation(f"{kind}: {key}", where, msg)


def excused(facts, kind):
    """Whether the path knows that there is nothing to write."""
    for v, f in facts.items():
        if v.k == "discr" and f == ("=", 0) and any(x.k == "res" and x.t[2].endswith(GETTERS[kind]) for x in walk(v)):
            return True
        if v.k == "discr" and f[0] == "!" and 1 in f[1] and any(x.k == "res" and x.t[2].endswith(GETTERS[kind]) for x in walk(v)):
            return True
        if v.k == "res" and v.t[2].endswith("::is_empty") and f == ("=", True):
            return True
    return False


def source(v, root):
    """Whether a value is taken from the attributes or the children of the node."""
    if not any(x is root for x in walk(v)):
        return None
    for x in walk(v):
        if x.k == "res":
            if x.t[2].endswith("::attributes"):
                return "attributes"
            if x.t[2].endswith(("::child_nodes_iter", "::child_nodes", "::children")):
                return "children"
    return None


def variant_index(prog, name):
    for i, v in enumerate(prog.adts[TYPE].variants):
        if v.name == name:
            return i
    raise ToolError(f"node kind {name} is gone")
