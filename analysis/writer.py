"""The XML writer as a typestate machine: what each of its operations emits from each reachable state.

An operation is followed on all its paths from an abstract writer (its own constant fields, and the
entries of its stack of open elements up to a bound); what it sends to the underlying writer is
collected as a sequence of tokens. Input and output are taken to succeed.
"""
from facts import ToolError
from interp import Interp, mk, UNIT
from terms import NONE, RESULT, some, walk

CRATE = "oxvg_ast.lib"
WRITER = "oxvg_ast::xmlwriter::XmlWriter"
SELF = mk("sym", "writer")
OPT = mk("sym", "options")
SINK = mk("sym", "sink")
IO = ("core::io::write::Write::", "std::io::Write::", "std::io::write::Write::")
FMT = "core::fmt::Write::"
DEPTH = 2
OK = mk("adt", RESULT, 0, (UNIT,))


def slot(i):
    return mk("sym", f"open element {i}")


class Model:
    def __init__(self, prog):
        self.prog = prog
        adt = prog.adts.get(WRITER)
        if adt is None:
            raise ToolError("the XML writer is gone")
        impls = [im for (tr, me), ims in prog.impl_index.items() if tr == "core::fmt::Write" for im in ims
                 if prog.types[im["crate"]][im["self"]].get("def", "").startswith("oxvg_ast::")]
        if not impls:
            raise ToolError("the XML writer has no escaping writer (no implementation of fmt::Write)")
        self.escaper = prog.types[impls[0]["crate"]][impls[0]["self"]]["def"]
        fw = prog.adts[self.escaper]
        self.kind_field = None
        for i, (name, ty) in enumerate((f[0], f[1]) for f in fw.variants[0].fields):
            t = prog.types[fw.crate][ty]
            if t.get("def") == "core::option::Option":
                inner = prog.types[fw.crate][t["args"][0]]
                if inner.get("def", "").startswith("oxvg_ast::"):
                    self.kind_field = ("f", i, name)
                    self.kinds = prog.adts[inner["def"]]
        if self.kind_field is None:
            raise ToolError("the escaping writer has no field holding the kind of content being escaped")
        self.fmt_fields = []
        for i, (name, ty) in enumerate((f[0], f[1]) for f in adt.variants[0].fields):
            if prog.types[adt.crate][ty].get("def") == self.escaper:
                self.fmt_fields.append(("f", i, name))
        if not self.fmt_fields:
            raise ToolError("the XML writer holds no escaping writer")
        self.visited = set()

    def method(self, name):
        return self.prog.fn(f"{WRITER}::{name}")

    # -- emission ----------------------------------------------------------
    def kind(self, it, st, root, path):
        v = it.read(st, root, path + (self.kind_field,))
        if v.k == "adt" and v.t[2] == 1:
            k = v.t[3][0]
            if k.k == "adt":
                return self.kinds.variants[k.t[2]].name
            return "?"
        if v.k == "adt":
            return "unset"
        return "?"

    def escaper_ref(self, it, st, v, d=0):
        """The place of the escaping writer a value gives access to, if any."""
        if d > 5:
            return None
        if v.k in ("ref", "guard"):
            if v.t[3] and v.t[3][-1] in self.fmt_fields:
                return v.t[2], v.t[3]
            if v.t[2][0] != "D":
                return self.escaper_ref(it, st, it.read(st, v.t[2], v.t[3]), d + 1)
            return None
        if v.k in ("adt",):
            subs = v.t[3]
        elif v.k == "tup":
            subs = v.t[1]
        elif v.k == "res":
            subs = v.t[3]
        elif v.k == "refv":
            subs = (v.t[1],)
        else:
            return None
        for x in subs:
            r = self.escaper_ref(it, st, x, d + 1)
            if r:
                return r
        return None

    def hook(self, it, st, t, name, c, args):
        base = c["fn"]
        q = st.q
        if any(base.startswith(p) for p in IO) and args:
            m = base.rsplit("::", 1)[-1]
            if m in ("write_all", "write", "write_fmt"):
                toks = fmt_tokens(it, st, args[1]) if m == "write_fmt" else byte_tokens(it, st, args[1])
                st.q = q.emit(toks)
            return it.finish(st, t, OK)
        if base.startswith(FMT) and args:
            loc = self.escaper_ref(it, st, args[0])
            if loc:
                m = base.rsplit("::", 1)[-1]
                k = self.kind(it, st, *loc)
                v = it.strip(st, args[1])
                if m == "write_fmt":
                    toks = [x if x == " " else ("esc", k, mk("k", x)) if isinstance(x, str) else ("esc", k, x[1]) for x in fmt_tokens(it, st, args[1])]
                else:
                    toks = [" "] if v.k == "k" and is_blank(v.t[1]) else [("esc", k, v)]
                st.q = q.emit(toks)
                return it.finish(st, t, OK)
        if base.endswith("Vec::push") and self.on_stack(it, st, args[0]):
            if q.depth >= DEPTH:
                return []
            it.write(st, ("D", slot(q.depth)), (), it.strip(st, args[1]))
            st.q = q.with_depth(q.depth + 1)
            return it.finish(st, t, UNIT)
        if base.endswith("Vec::pop") and self.on_stack(it, st, args[0]):
            if q.depth == 0:
                return it.finish(st, t, NONE)
            v = it.read(st, ("D", slot(q.depth - 1)), ())
            st.q = q.with_depth(q.depth - 1)
            return it.finish(st, t, some(v))
        if base.endswith(("<[T]>::last_mut", "<[T]>::last")):
            if q.depth == 0:
                return it.finish(st, t, NONE)
            return it.finish(st, t, some(mk("ref", base.endswith("_mut"), ("D", slot(q.depth - 1)), ())))
        if base.endswith(("Vec::is_empty", "<[T]>::is_empty")) and self.on_stack(it, st, args[0]):
            return it.finish(st, t, mk("k", q.depth == 0))
        if base.endswith(("FnOnce::call_once", "FnMut::call_mut", "Fn::call")) or self.inlined(it, st, name):
            f = args[0] if args else None
            if not (f is not None and f.k == "sym"):
                return None
        # anything else that is handed the escaping writer writes content through it
        if "Printer::new" in base:
            return it.finish(st, t, mk("res", None, base, tuple(args)))
        for a in args:
            loc = self.escaper_ref(it, st, a)
            if loc:
                k = self.kind(it, st, *loc)
                what = tuple(it.strip(st, x) for x in args if x is not a)
                st.q = q.emit([("esc", k, what[0] if len(what) == 1 else mk("tup", what))])
                ty = self.prog.local_ty(st.top.fn, t[3][0]) if not t[3][1] else {}
                return it.finish(st, t, OK if ty.get("def") == RESULT else mk("res", None, name, what))
        return None

    def inlined(self, it, st, name):
        f = self.prog.get(name)
        return f is not None and it.can_inline(st, f)

    def on_stack(self, it, st, a):
        if a.k == "ref" and (a.t[2] == ("D", SELF) or a.t[2] == (0, 1)):
            return True
        v = it.strip(st, a)
        return any(x is SELF for x in walk(v)) or any(x.k == "sym" and x.t[1] == "stack" for x in walk(v))

    def interp(self, track):
        it = Interp(self.prog, hook=self.hook, opaque=lambda f: f.crate != CRATE, track=track, max_states=40000, keep_dead=False,
                    explore_closures=False)
        it.pure = lambda n: not n.endswith(("::next", "::next_back"))
        return it

    # -- states ------------------------------------------------------------
    def initial(self):
        it = self.interp(lambda v: False)
        ends = [e for e in it.run(self.method("new"), args=[SINK, OPT], q=Q()) if e.kind == "ret"]
        self.visited |= it.visited_fns
        if len(ends) != 1:
            raise ToolError("the constructor of the XML writer is not straight-line")
        v = it.strip(ends[0].state, ends[0].value)
        return Writer(v, (), ())

    def apply(self, w, method, args, names=None, by_value=False, track=None):
        """[(result kind, tokens, writer after, state)] of one operation on the abstract writer w."""
        it = self.interp(track or (lambda v: matters(v)))
        mem = {("D", SELF): w.value}
        for i, s in enumerate(w.stack):
            mem[("D", slot(i))] = s
        a0 = w.value if by_value else mk("ref", True, ("D", SELF), ())
        out = []
        for e in it.run(self.method(method), args=[a0] + list(args), q=Q((), len(w.stack)), mem=mem):
            self.visited |= it.visited_fns
            if e.kind != "ret":
                out.append(("panic", e.state.q.toks, None, e))
                continue
            v = it.strip(e.state, e.value)
            kind = "?"
            if v.k == "adt" and v.t[1] == RESULT:
                kind = "ok" if v.t[2] == 0 else "err"
            st = e.state
            value = it.read(st, ("D", SELF), ()) if not by_value else w.value
            stack = tuple(it.read(st, ("D", slot(i)), ()) for i in range(st.q.depth))
            out.append((kind, st.q.toks, Writer(it.strip(st, value), stack, ()), e))
        return out

    def finish(self, w):
        """[(result kind, tokens, None, end)] of ending the document."""
        it = self.interp(matters)
        mem = {("D", slot(i)): s for i, s in enumerate(w.stack)}
        out = []
        for e in it.run(self.method("end_document"), args=[w.value], q=Q((), len(w.stack)), mem=mem):
            v = it.strip(e.state, e.value) if e.value is not None else None
            kind = "panic" if e.kind != "ret" else "ok" if v.k == "adt" and v.t[2] == 0 else "err"
            out.append((kind, e.state.q.toks, None, e))
        self.visited |= it.visited_fns
        return out


def matters(v):
    """Facts kept along a path: of the options, of the writer and of its stack."""
    return any(x is OPT or (x.k == "sym" and (x.t[1].startswith("open element") or x.t[1] in ("writer", "target", "value"))) for x in walk(v))


class Q:
    __slots__ = ("toks", "depth")

    def __init__(self, toks=(), depth=0):
        self.toks = toks
        self.depth = depth

    def __eq__(self, o):
        return isinstance(o, Q) and (self.toks, self.depth) == (o.toks, o.depth)

    def __hash__(self):
        return hash((self.toks, self.depth))

    def emit(self, toks):
        out = list(self.toks)
        for x in toks:
            if x == " " and out and out[-1] == " ":
                continue
            # text written piece by piece stands for all its pieces
            if isinstance(x, tuple) and x[0] == "esc":
                last = [y for y in out[-2:] if y != " "][-1:]
                if last and isinstance(last[0], tuple) and last[0][:2] == x[:2]:
                    if out[-1] == " ":
                        out.pop()
                    continue
            out.append(x)
        return Q(tuple(out), self.depth)

    def with_depth(self, d):
        return Q(self.toks, d)


class Writer:
    def __init__(self, value, stack, extra):
        self.value = value
        self.stack = stack

    def key(self):
        return (self.value, self.stack)


# -- tokens --------------------------------------------------------------------
def is_blank(c):
    if isinstance(c, tuple) and c[0] == "char":
        c = c[1]
    if isinstance(c, int):
        c = chr(c)
    return isinstance(c, str) and c != "" and all(x in " \t\r\n" for x in c)


def chars(s):
    out = []
    for ch in s:
        if is_blank(ch):
            if not out or out[-1] != " ":
                out.append(" ")
        else:
            out.append(ch)
    return out


def byte_tokens(it, st, v):
    v = it.strip(st, v)
    while True:
        if v.k == "refv":
            v = v.t[1]
        elif v.k == "res" and v.t[2].endswith(("as_bytes", "Deref>::deref", "as_slice", "AsRef>::as_ref", "as_ref")) and v.t[3]:
            v = v.t[3][0]
        elif v.k == "cast":
            v = v.t[-1]
        else:
            break
    if v.k == "k" and isinstance(v.t[1], str):
        return chars(v.t[1])
    if v.k == "k" and isinstance(v.t[1], bytes):
        return chars(v.t[1].decode("utf-8", "replace"))
    if v.k == "tup" and all(x.k == "k" and isinstance(x.t[1], int) for x in v.t[1]):
        return chars(bytes(x.t[1] for x in v.t[1]).decode("utf-8", "replace"))
    return [("raw", v)]


def fmt_tokens(it, st, v):
    """Pieces of a formatted message: literal characters and the values put between them."""
    v = it.strip(st, v)
    if v.k == "res" and v.t[2].endswith("Arguments::from_str") or v.k == "res" and v.t[2].endswith("from_str_nonconst"):
        return byte_tokens(it, st, v.t[3][0])
    if not (v.k == "res" and "fmt::Arguments" in v.t[2] and len(v.t[3]) == 2):
        return [("raw", v)]
    tpl, vals = (strip_refs(x) for x in v.t[3])
    if not (tpl.k == "tup" and all(x.k == "k" for x in tpl.t[1])):
        return [("raw", v)]
    data = bytes(x.t[1] for x in tpl.t[1])
    items = list(vals.t[1]) if vals.k == "tup" else None
    if items is None:
        return [("raw", v)]
    out, i, n = [], 0, 0
    while i < len(data):
        b = data[i]
        if b == 0:
            break
        if b < 0x80:
            out += chars(data[i + 1:i + 1 + b].decode("utf-8", "replace"))
            i += 1 + b
        elif b == 0xC0:
            a = strip_refs(items[n]) if n < len(items) else mk("undef")
            n += 1
            if a.k == "res" and "Argument" in a.t[2] and a.t[3]:
                a = strip_refs(a.t[3][0])
            if a.k == "res" and "fmt::Arguments" in a.t[2]:
                out += fmt_tokens(it, st, a)
            elif a.k == "k" and isinstance(a.t[1], str):
                out += chars(a.t[1])
            else:
                out.append(("raw", a))
            i += 1
        else:
            return [("raw", v)]
    return out


def strip_refs(v):
    while v.k == "refv":
        v = v.t[1]
    return v


def show(toks):
    out = []
    for x in toks:
        if isinstance(x, str):
            out.append(x)
        elif x[0] == "raw":
            out.append("{" + repr(x[1])[:60] + "}")
        else:
            out.append("{" + x[1] + ":" + repr(x[2])[:60] + "}")
    return "".join(out)


# -- the reachable writers -----------------------------------------------------
def simplify(v, proj):
    """v without updates that put back what was there."""
    if v.k == "upd":
        keep = tuple((e, simplify(x, proj)) for e, x in v.t[2])
        keep = tuple((e, x) for e, x in keep if x is not proj(v.t[1], e))
        return mk("upd", v.t[1], keep) if keep else v.t[1]
    if v.k == "adt" and v.t[3]:
        return mk("adt", v.t[1], v.t[2], tuple(simplify(x, proj) for x in v.t[3]))
    return v


def operations():
    """(operation, arguments) that serialising a document uses; %d stands for the depth."""
    s = lambda n: mk("sym", n)  # noqa: E731
    return [
        ("start_element", lambda d: [s(f"name{d}")]),
        ("write_attribute", lambda d: [s("attribute")]),
        ("write_text", lambda d: [s("content"), s("first"), s("last")]),
        ("write_style", lambda d: [s("content")]),
        ("write_comment", lambda d: [s("content")]),
        ("write_declaration", lambda d: [s("target"), s("value")]),
        ("end_element", lambda d: []),
    ]


def explore(model, visit, limit=400):
    """Every reachable abstract writer, with whether its last start tag is still open.

    visit(operation, writer, open, outcomes) is called once per writer and operation and returns, for each
    outcome, whether the tag is open afterwards (None to stop there).
    """
    work = [(model.initial(), False)]
    seen = set()
    it = model.interp(lambda v: False)
    while work:
        w, is_open = work.pop(0)
        w = Writer(simplify(w.value, it.proj), w.stack, ())
        key = (w.value, w.stack, is_open)
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > limit:
            raise ToolError("the XML writer has more abstract states than expected")
        for name, args in operations():
            if name == "start_element" and len(w.stack) >= DEPTH:
                continue
            outs = model.apply(w, name, args(len(w.stack)))
            for (kind, toks, after, end), nxt in zip(outs, visit(name, w, is_open, outs)):
                if nxt is not None and kind == "ok":
                    work.append((after, nxt))
    return seen
