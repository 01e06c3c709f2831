"""White space in text keeps the meaning xml:space gives it."""
from facts import ToolError
from interp import Interp, mk
from terms import walk, known
import chars
import writer

TECHNIQUE = "path-sensitive event analysis of the text writer over MIR, evaluated per kind of white space; typestate of the preserve flag across elements"
EXPLANATION = (
    "Writing text is followed on all paths for each setting of white space handling, with the text standing for its words and the blank "
    "space around and between them: unchanged text goes out in one piece; preserved text character by character, where only line breaks "
    "and tabs may become spaces; collapsed text word by word with one space between words and a space kept where the text touches its "
    "siblings. Every test for blank characters is evaluated on a sample of characters and must accept exactly space, tab, line feed and "
    "carriage return. The preserve flag is followed through starting an element, its xml:space attribute, children and its end."
)
LEVEL_NOTE = "All paths of the text writer; texts have at most two words. Character tests are evaluated on eleven characters."

CONTENT = mk("sym", "content")
FIRST = mk("sym", "first")
LAST = mk("sym", "last")
WORDS = [mk("sym", "word0"), mk("sym", "word1")]
BLANKS = " \t\n\r"
OTHERS = "a&\u00a0\u2003\u3000\u0085\u200b"
KEEP = ("never", "preserve", "collapse")


def check(ctx):
    prog = ctx.program("native", [writer.CRATE])
    model = writer.Model(prog)
    flag = flag_field(model)
    scope(ctx, model, flag)
    modes(ctx, model, flag)
    edges(ctx, prog)
    ctx.analysed(*model.visited)


# -- the preserve flag -----------------------------------------------------------
def flag_field(model):
    """Index of the field of the writer that an xml:space attribute sets."""
    w = model.initial()
    w = [o for o in model.apply(w, "start_element", [mk("sym", "name0")]) if o[0] == "ok"][0][2]
    found = set()
    for kind, toks, after, end in model.apply(w, "write_attribute", [mk("sym", "attribute")], track=all_attr):
        if kind != "ok":
            continue
        for i, (a, b) in enumerate(zip(w.value.t[3], after.value.t[3])):
            if a is not b and a.k == "k" and isinstance(a.t[1], bool):
                found.add(i)
    if len(found) != 1:
        raise ToolError("no single field of the writer remembers xml:space")
    return found.pop()


def all_attr(v):
    return writer.matters(v) or any(x.k == "sym" and x.t[1] == "attribute" for x in walk(v))


def with_flag(w, i, val):
    f = list(w.value.t[3])
    f[i] = mk("k", val)
    return writer.Writer(mk("adt", w.value.t[1], w.value.t[2], tuple(f)), w.stack, ())


def oks(model, w, op, args=(), track=None):
    seen = {}
    for o in model.apply(w, op, list(args), track=track):
        if o[0] == "ok":
            seen.setdefault(o[2].key(), o)
    return list(seen.values())


def scope(ctx, model, flag):
    fn = model.method("end_element")
    at = model.method("write_attribute")
    base = model.initial()
    outer = [w[2] for w in oks(model, base, "start_element", [mk("sym", "name0")])]
    for w in outer:
        for before in (False, True):
            w0 = with_flag(w, flag, before)
            for o1 in oks(model, w0, "start_element", [mk("sym", "name1")]):
                f1 = o1[2].value.t[3][flag]
                ctx.obligation(f1.k == "k" and f1.t[1] == before, "flag not inherited", model.method("start_element").where(),
                               "an element does not inherit the white space handling of its parent")
                values = set()
                for kind, toks, after, end in model.apply(o1[2], "write_attribute", [mk("sym", "attribute")], track=all_attr):
                    if kind != "ok":
                        continue
                    judge_attribute(ctx, model, before, after.value.t[3][flag], end, at)
                    values.add(after.value.t[3][flag])
                    for o3 in oks(model, after, "end_element"):
                        f3 = o3[2].value.t[3][flag]
                        ctx.obligation(f3.k == "k" and f3.t[1] == before, "flag not restored", fn.where(),
                                       f"after an element with its own xml:space ends, white space handling is {f3!r} instead of what it was before ({before})")
                for inner in (False, True):
                    # with content inside
                    w2 = with_flag(o1[2], flag, inner)
                    for o4 in oks(model, w2, "write_comment", [mk("sym", "content")])[:2]:
                        for o5 in oks(model, o4[2], "end_element"):
                            f5 = o5[2].value.t[3][flag]
                            ctx.obligation(f5.k == "k" and f5.t[1] == before, "flag not restored", fn.where(),
                                           f"after an element with its own xml:space and content ends, white space handling is {f5!r} instead of {before}")


def judge_attribute(ctx, model, before, got, end, fn):
    """The flag after writing an attribute, given what the path knows of the attribute."""
    attr = model.prog.adts.get("oxvg_collections::attribute::Attr")
    space = model.prog.adts.get("oxvg_collections::attribute::xml::XmlSpace")
    which = value = option = None
    for v, f in end.state.facts.items():
        if space is not None and f[0] == "!" and any(x.k == "fld" for x in walk(v)):
            left = set(range(len(space.variants))) - set(f[1])
            f = ("=", left.pop()) if len(left) == 1 else f
        if v.k == "discr" and f[0] == "=" and any(x.k == "sym" and x.t[1] == "attribute" for x in walk(v)):
            if any(x.k == "fld" for x in walk(v)) and any(x.k == "res" and x.t[2].endswith("::prefix") for x in walk(v)):
                continue
            if which is None and not any(x.k == "fld" for x in walk(v)):
                which = f[1]
            elif any(x.k == "fld" for x in walk(v)):
                value = f[1]
    ctx.count("attribute_paths")
    if got.k != "k":
        ctx.undecide("xml:space attribute", f"the flag becomes {got!r}")
        return
    if attr is None or space is None:
        return
    named = [v.name for v in attr.variants]
    if which is not None and named[which] == "XmlSpace" and value is not None:
        keep = space.variants[value].name == "Preserve"
        ctx.obligation(got.t[1] == keep, "xml:space misread", fn.where(),
                       f"after xml:space {space.variants[value].name}, white space is {'kept' if got.t[1] else 'collapsed'} (before: {'kept' if before else 'collapsed'})")
        return
    if got.t[1] == before:
        return
    if which is not None and named[which] != "XmlSpace":
        ctx.obligation(False, "flag changed by another attribute", fn.where(), f"the attribute {named[which]} changes the handling of white space")
    if value is not None:
        keep = space.variants[value].name == "Preserve"
        ctx.obligation(got.t[1] == keep, "xml:space misread", fn.where(), f"xml:space {space.variants[value].name} turns keeping white space {'on' if got.t[1] else 'off'}")


# -- the text --------------------------------------------------------------------
class T:
    """What a path has done with the text."""
    __slots__ = ("out", "n", "starts", "ends", "blank", "cn", "odd")

    def __init__(self, out=(), n=0, starts=None, ends=None, blank=None, cn=0, odd=None):
        self.out, self.n, self.starts, self.ends, self.blank, self.cn, self.odd = out, n, starts, ends, blank, cn, odd

    def key(self):
        return (self.out, self.n, self.starts, self.ends, self.blank, self.cn, self.odd)

    def __eq__(self, o):
        return isinstance(o, T) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def but(self, **kw):
        t = T(*self.key())
        for k, v in kw.items():
            setattr(t, k, v)
        return t


def modes(ctx, model, flag):
    prog = model.prog
    opts = prog.adts.get("oxvg_ast::xmlwriter::Options")
    space = prog.adts.get("oxvg_ast::xmlwriter::Space")
    if opts is None or space is None:
        raise ToolError("the white space option is gone")
    names = [f[0] for f in opts.variants[0].fields]
    if "trim_whitespace" not in names:
        raise ToolError("the white space option is gone")
    w = [o[2] for o in oks(model, model.initial(), "start_element", [mk("sym", "name0")])][0]
    w = [o[2] for o in oks(model, w, "write_comment", [mk("sym", "content")])][0]
    expect = {"Never": ("never", "never"), "Preserve": ("preserve", "preserve"), "Default": ("collapse", "collapse"), "Auto": ("collapse", "preserve")}
    for i, v in enumerate(space.variants):
        if v.name not in expect:
            ctx.undecide(f"white space option {v.name}", "not specified")
            continue
        for on in (False, True):
            mode = expect[v.name][on]
            ww = with_flag(w, flag, on)
            opt = mk("upd", writer.OPT, ((("f", names.index("trim_whitespace"), "trim_whitespace"), mk("adt", space.id, i, ())),))
            f = list(ww.value.t[3])
            oi = [j for j, x in enumerate(f) if x is writer.OPT or (x.k == "upd" and x.t[1] is writer.OPT)]
            f[oi[0]] = opt
            ww = writer.Writer(mk("adt", ww.value.t[1], ww.value.t[2], tuple(f)), ww.stack, ())
            run_mode(ctx, model, ww, v.name, on, mode)
    ctx.floor("text_paths", 20)


def run_mode(ctx, model, w, option, on, mode):
    fn = model.method("write_text")
    if mode != "collapse":
        for a in BLANKS + OTHERS:
            text(ctx, model, fn, w, option, on, mode, (a,))
        text(ctx, model, fn, w, option, on, mode, ("a", " ", " "))
    else:
        for n in (0, 1, 2):
            text(ctx, model, fn, w, option, on, mode, n)


LOSSY = ("skip", "take", "step_by", "skip_while", "take_while", "rev", "map_while")
WIDE = ("split_whitespace", "trim", "trim_start", "trim_end", "trim_left", "trim_right")


def text(ctx, model, fn, w, option, on, mode, given):
    prog = model.prog
    problems = {}

    def bad(key, where, msg):
        problems.setdefault(key, (where, msg))

    def about(it, st, v):
        return any(x is CONTENT for x in walk(it.strip(st, v)))

    def hook(it, st, t, name, c, args):
        base = c["fn"]
        q = st.q
        m = base.rsplit("::", 1)[-1]
        where = st.top.fn.where(t[5])
        if any(base.startswith(p) for p in writer.IO) and args:
            if m in ("write_all", "write", "write_fmt"):
                toks = writer.fmt_tokens(it, st, args[1]) if m == "write_fmt" else writer.byte_tokens(it, st, args[1])
                st.q = q.but(out=put(q.out, ["indent" if x == " " else x for x in toks]))
            return it.finish(st, t, writer.OK)
        if base.startswith(writer.FMT) and args:
            if m == "write_fmt":
                toks = ["blank" if x == " " else x if isinstance(x, str) else x[1] for x in writer.fmt_tokens(it, st, args[1])]
            else:
                v = it.strip(st, args[1])
                while v.k == "refv":
                    v = v.t[1]
                if v.k == "k":
                    ch = v.t[1][1] if isinstance(v.t[1], tuple) else v.t[1]
                    toks = ["blank" if ch == " " else ch]
                else:
                    toks = [v]
            st.q = q.but(out=put(q.out, toks))
            return it.finish(st, t, writer.OK)
        if base.endswith("::last_mut") or base.endswith("<[T]>::last"):
            return it.finish(st, t, writer.some(mk("ref", True, ("D", writer.slot(0)), ())))
        if base.endswith(("Vec::is_empty",)) and model.on_stack(it, st, args[0]):
            return it.finish(st, t, mk("k", False))
        if not args or not about(it, st, args[0]):
            return None
        v = it.strip(st, args[0])
        calls = [x.t[2].rsplit("::", 1)[-1] for x in walk(v) if x.k == "res"]
        # predicates about characters
        for a in args[1:]:
            pred = predicate(ctx, prog, it, st, a)
            if pred == "wide":
                bad("other characters count as blank", where, "characters other than space, tab, line feed and carriage return are treated as blank space")
            elif pred == "narrow":
                bad("blank characters missed", where, "a test for blank space misses one of space, tab, line feed and carriage return")
        if m in WIDE and v is CONTENT:
            bad("other characters count as blank", where, f"{m} treats every Unicode space as blank space; XML has only space, tab, line feed and carriage return")
        if m in LOSSY and base.startswith("core::iter"):
            bad("text left out", where, f"{m} leaves out part of the text")
        if m in ("is_empty",) or (m == "all" and "chars" in calls):
            if any(x in calls for x in ("trim_start_matches", "trim_end_matches", "trim_matches", "trim", "trim_start", "trim_end", "trim_ascii", "trim_ascii_start")) or m == "all":
                return it.finish(st, t, mk("k", given == 0))
            if v is CONTENT:
                return it.finish(st, t, mk("k", False))
            return None
        if m in ("next", "next_back", "last") and "Iterator" in base or m in ("next_back",):
            if "split" in calls or "split_ascii_whitespace" in calls or "split_whitespace" in calls:
                if m != "next":
                    bad("words out of order", where, "the words of a text are not taken in order")
                if not isinstance(given, int):
                    return it.finish(st, t, writer.NONE)
                if "split" in calls and "filter" not in calls:
                    st.q = q.but(odd="empty words between blanks are not filtered in a way this check follows")
                if q.n < given:
                    st.q = st.q.but(n=q.n + 1)
                    return it.finish(st, t, writer.some(WORDS[q.n]))
                return it.finish(st, t, writer.NONE)
            if "chars" in calls or "char_indices" in calls:
                if mode != "collapse":
                    if q.cn < len(given):
                        item = mk("k", ("char", given[q.cn]))
                        st.q = q.but(cn=q.cn + 1)
                        return it.finish(st, t, writer.some(item))
                    return it.finish(st, t, writer.NONE)
                if q.cn > 1:
                    st.q = q.but(odd="the text is collapsed character by character")
                    return it.finish(st, t, writer.NONE)
                q = st.q = q.but(cn=q.cn + (m == "next"))
                if given == 0:
                    return it.finish(st, t, writer.some(mk("k", ("char", " "))))
                s1, s2 = st, st.copy()
                side = "starts" if m == "next" else "ends"
                s1.q = q.but(**{side: True})
                s2.q = q.but(**{side: False})
                return it.finish(s1, t, writer.some(mk("k", ("char", " ")))) + it.finish(s2, t, writer.some(mk("k", ("char", "a"))))
        if m in ("starts_with", "ends_with") and v is CONTENT and isinstance(given, int) and given:
            side = "starts" if m == "starts_with" else "ends"
            s1, s2 = st, st.copy()
            s1.q = q.but(**{side: True})
            s2.q = q.but(**{side: False})
            return it.finish(s1, t, mk("k", True)) + it.finish(s2, t, mk("k", False))
        return None

    def track(v):
        return any(x is writer.OPT or x is FIRST or x is LAST for x in walk(v)) or (v.k == "res" and "any" in v.t[2]) or about_text(v)

    it = Interp(prog, hook=hook, opaque=lambda f: f.crate != writer.CRATE, track=track, max_states=30000, explore_closures=False)
    it.pure = lambda n: not n.endswith(("::next", "::next_back"))
    mem = {("D", writer.SELF): w.value}
    for i, s in enumerate(w.stack):
        mem[("D", writer.slot(i))] = s
    ends = it.run(fn, args=[mk("ref", True, ("D", writer.SELF), ()), CONTENT, FIRST, LAST], q=T(), mem=mem)
    model.visited |= it.visited_fns
    label = f"{option}{' with xml:space=preserve' if on else ''}"
    for e in ends:
        if e.kind != "ret":
            continue
        v = it.strip(e.state, e.value)
        if v.k == "adt" and v.t[2] == 1:
            bad("text refused", fn.where(), "text inside an element is refused")
            continue
        q = e.state.q
        ctx.count("text_paths")
        if q.odd:
            ctx.undecide(f"{label}: {given!r}", q.odd)
            continue
        why = verdict(q, e.state.facts, mode, given)
        ctx.obligation(why is None, f"{mode}: {why}", fn.where(), f"white space {label}: {why} (text of {describe(given)}; written: {list(map(str, q.out))})")
    for key, (where, msg) in problems.items():
        if mode == "collapse":
            ctx.violation(key, where, msg)


def describe(given):
    return f"{given} word(s)" if isinstance(given, int) else "characters " + " ".join(repr(c) for c in given)


def about_text(v):
    return any(x is CONTENT for x in walk(v))


def put(out, toks):
    out = list(out)
    for x in toks:
        if x == "indent" and out and out[-1] == "indent":
            continue
        out.append(x)
    return tuple(out)


def verdict(q, facts, mode, given):
    out = [x for x in q.out if x != ">"]
    unknown = [v for v in facts if about_text(v)]
    if mode == "never":
        body = [x for x in out if x != "indent"]
        if len(body) == 1 and is_content(body[0]) or body == ["blank" if c == " " else c for c in given] or unknown:
            return None
        return "text is not written as it is"
    if mode == "preserve":
        body = [x for x in out if x != "indent"]
        if len(body) == 1 and is_content(body[0]):
            return None
        if unknown:
            return None
        want = []
        for ch in given:
            want.append({" ": "blank", "\t": "blank", "\n": "blank", "\r": "blank"}.get(ch, ch))
        got = ["blank" if x in ("\t", "\n", "\r", " ") else x for x in body]
        if got != want:
            return "a character of preserved text is lost or changed"
        if "indent" in out:
            return "indentation is added to preserved text"
        return None
    # collapse
    words = [x for x in out if x in WORDS]
    first, last = known(facts, FIRST), known(facts, LAST)
    indent = indent_of(facts)
    in_text = in_text_content(facts)
    if given == 0:
        body = [x for x in out if x not in ("indent", "blank")]
        if body:
            return "something is written for blank text"
        blank = "blank" in out
        if first is False and last is False and indent is False and in_text is True and not blank:
            return "blank text between inline elements is dropped"
        if out.count("blank") > 1:
            return "blank text becomes more than one space"
        return None
    if not words and any(is_content(x) for x in out):
        return "text is not collapsed"
    if words != WORDS[:given]:
        return "a word is lost, repeated or out of order"
    if any(x not in WORDS and x not in ("blank", "indent") for x in out):
        return "something other than the words of the text is written"
    i0, i1 = out.index(WORDS[0]), out.index(WORDS[given - 1])
    if given == 2:
        between = out[i0 + 1:i1]
        if not between:
            return "the words of a text are joined"
        if len(between) > 1:
            return "more than one space is written between words"
    lead, trail = out[:i0], out[i1 + 1:]
    if q.starts is False and "blank" in lead:
        return "a space is added before a text that does not start with one"
    if q.ends is False and "blank" in trail:
        return "a space is added after a text that does not end with one"
    if first is False and q.starts is not False and not lead:
        if indent is True:
            return "the space before an indented text is dropped" if in_text is not False else None
        return "the space at the start of a text is dropped"
    if last is False and q.ends is not False and not trail:
        if indent is True:
            return "the space after an indented text is dropped" if in_text is not False else None
        return "the space at the end of a text is dropped"
    return None


def is_content(x):
    if isinstance(x, str):
        return False
    while x.k in ("refv", "deref"):
        x = x.t[1]
    return x is CONTENT


def indent_of(facts):
    """Whether indentation is on, as far as the path knows."""
    for v, f in facts.items():
        if v.k == "discr" and "indent" in repr(v) and "attributes" not in repr(v):
            if f == ("=", 0):
                return False
            if f[0] == "!" and 0 in f[1] or f[0] == "=":
                return True
        if v.k == "op" and v.t[1] == "Eq" and "indent" in repr(v) and f[0] == "=":
            return not f[1]
    return None


def in_text_content(facts):
    for v, f in facts.items():
        if v.k == "res" and v.t[2].endswith("::any") and f[0] == "=":
            return f[1]
    return None


def predicate(ctx, prog, it, st, a):
    """'exact', 'wide', 'narrow' or None for an argument that tests characters."""
    v = it.strip(st, a)
    tab = chars.table(prog, v, BLANKS + OTHERS)
    if tab is None:
        return None
    if None in tab.values():
        ctx.undecide("test for blanks", "the character test could not be evaluated")
        return None
    ctx.count("predicates")
    return grade(lambda ch: tab[ch])


def grade(f):
    if any(f(ch) for ch in OTHERS):
        return "wide"
    if not all(f(ch) for ch in BLANKS):
        return "narrow"
    return "exact"


# -- which texts are at the edge of their parent ----------------------------------
CHILD = mk("sym", "child")
NODE = mk("sym", "node")
ENDS = {"first_child": mk("sym", "first child"), "last_child": mk("sym", "last child")}


def edges(ctx, prog):
    """The tree walk may only say that a text is the first or last of its parent when it is."""
    entry = [f for f in prog.fns.values() if f.id.endswith("::serialize_into") and f.itrait]
    if not entry:
        raise ToolError("serialising a node into a writer is gone")
    entry = entry[0]
    calls, uses = [], []

    # q: what the path knows about the child: (is first, is last, children taken so far)
    def hook(it, st, t, name, c, args):
        base = c["fn"]
        m = base.rsplit("::", 1)[-1]
        vals = [it.strip(st, a) for a in args]
        if base.startswith(writer.WRITER + "::"):
            if m == "write_text":
                uses.append((st.frames[:], vals, dict(st.facts), st.top.fn.where(t[5])))
            if m == "new":
                return it.finish(st, t, mk("sym", "xml"))
            return it.finish(st, t, writer.OK)
        if m in ("next", "next_back") and "child_nodes_iter" in repr(vals[0]) and not any(x.k == "res" and x.t[2].rsplit("::", 1)[-1] in ("enumerate", "zip", "peekable", "map", "chain", "scan") for x in walk(vals[0])):
            s2 = st.copy()
            n = st.q[2]
            st.q = ((n == 0) if m == "next" else None, None if m == "next" else n == 0, min(n + 1, 2))
            return it.finish(st, t, writer.some(CHILD)) + it.finish(s2, t, writer.NONE)
        if m in ENDS and vals and strip(vals[0]) is NODE:
            return it.finish(st, t, writer.some(ENDS[m]))
        if m in ("previous_sibling", "next_sibling") and vals and strip(vals[0]) is CHILD:
            i = m == "next_sibling"
            outs = []
            for known_ in (True, False):
                if st.q[i] in (None, known_):
                    s = st.copy()
                    s.q = (s.q[0], known_, s.q[2]) if i else (known_, s.q[1], s.q[2])
                    outs += it.finish(s, t, writer.NONE if known_ else writer.some(mk("sym", "sibling")))
            return outs
        if m in ("eq", "ne", "id_eq", "ptr_eq") and len(vals) == 2:
            pair = {strip(v) for v in vals}
            pair = {strip(writer_payload(v)) for v in pair}
            for i, k in enumerate(("first_child", "last_child")):
                if pair == {CHILD, ENDS[k]}:
                    outs = []
                    for known_ in (True, False):
                        if st.q[i] in (None, known_):
                            s = st.copy()
                            s.q = (s.q[0], known_, s.q[2]) if i else (known_, s.q[1], s.q[2])
                            outs += it.finish(s, t, mk("k", known_ == (m != "ne")))
                    return outs
        tgt = prog.get(name)
        if tgt is not None and tgt.kind != "closure" and any(f.fn.id == tgt.id for f in st.frames):
            calls.append((tgt.id, vals, dict(st.facts), st.q, st.top.fn.where(t[5])))
            return it.finish(st, t, writer.OK)
        return None

    def track(v):
        return any(x is CHILD or x.k == "res" and x.t[2].endswith(("::next", "::next_back", "::peek")) for x in walk(v))

    it = Interp(prog, hook=hook, opaque=lambda f: "oxvg_ast::serialize" not in f.id, track=track, max_states=20000, explore_closures=False)
    it.pure = lambda n: True
    it.run(entry, args=[NODE], q=(None, None, 0))
    todo = {c[0] for c in calls}
    if len(todo) != 1:
        ctx.undecide("texts at the edge of their parent", "the walk over the tree is not one recursive function")
        return
    fn = prog.fn(todo.pop())
    calls.clear()
    uses.clear()
    params = [NODE] + [mk("sym", f"argument {i}") for i in range(1, fn.argc)]
    it.run(fn, args=params, q=(None, None, 0))
    place = {}
    for frames, vals, facts, where in uses:
        for i, what in ((2, "first"), (3, "last")):
            v = vals[i]
            if v in params:
                place.setdefault(what, set()).add(params.index(v))
            elif v.k == "k" and v.t[1] is True:
                ctx.obligation(False, f"always the {what} child", where, f"every text is written as the {what} child of its parent")
            elif v.k != "k":
                ctx.undecide(f"texts at the edge of their parent ({what})", "the flag is not a parameter of the walk")
    ctx.count("recursive_calls", len(calls))
    for _, vals, facts, q, where in calls:
        for what, i in (("first", 0), ("last", 1)):
            for p in place.get(what, ()):
                v = vals[p]
                if v.k != "k" and q[i] is False and any(x is CHILD for x in walk(v)):
                    ctx.obligation(False, f"not the {what} child", where, f"a node that is not the {what} child of its parent can be written as if it were")
                    continue
                if v.k != "k" or any(x.k == "res" and x.t[2].rsplit("::", 1)[-1] in ("next", "next_back", "peek", "position", "count", "len") and "child_nodes" in repr(x) for f in facts for x in walk(f)):
                    ctx.undecide(f"texts at the edge of their parent ({what})", "the flag depends on something this check does not follow")
                    continue
                ctx.obligation(v.t[1] is False or q[i] is True, f"not the {what} child", where,
                               f"a node that need not be the {what} child of its parent is written as if it were; the space it shares with its sibling is lost")


def strip(v):
    while v.k in ("refv", "deref") or v.k == "ref" and False:
        v = v.t[1]
    return v


def writer_payload(v):
    if v.k == "adt" and v.t[2] == 1 and len(v.t[3]) == 1:
        return v.t[3][0]
    return v
