"""Content is escaped for the place it is written to."""
from facts import ToolError
from interp import mk, Interp
from terms import walk
import writer

TECHNIQUE = "taint analysis of what reaches the output unescaped, with an abstract evaluation of the escaping routine per kind of content and special character"
EXPLANATION = (
    "Every operation of the writer is followed from every reachable abstract writer. Between the quotes of an attribute and in the text of an "
    "element only the escaping writer may be used, with a kind of escaping set. For every kind, the escaping routine is followed for strings "
    "made of one or two characters out of & < > and both quotes and an ordinary one, at unknown positions: what is written must be the string "
    "with the characters that are special in that place replaced by a reference to the same character, and nothing else lost or changed."
)
LEVEL_NOTE = "All paths; positions of the characters are symbolic, strings have at most two special characters. Comments and processing instructions have no escapes in XML and are left out."

CHARS = ["&", "<", ">", '"', "'", "a"]
ENTITIES = {"&": ("&amp;", "&#38;", "&#x26;"), "<": ("&lt;", "&#60;", "&#x3c;", "&#x3C;"), ">": ("&gt;", "&#62;", "&#x3e;", "&#x3E;"),
            '"': ("&quot;", "&#34;", "&#x22;"), "'": ("&apos;", "&#39;", "&#x27;")}
S = mk("sym", "string")
POS = [mk("sym", "p0"), mk("sym", "p1")]
LEN = mk("sym", "end")


def check(ctx):
    prog = ctx.program("native", [writer.CRATE])
    model = writer.Model(prog)
    uses = {}

    def visit(op, w, is_open, outs):
        res = []
        for kind, toks, after, end in outs:
            if kind == "panic":
                res.append(None)
                continue
            note(ctx, model, uses, op, toks, end)
            nxt = is_open
            if op == "start_element":
                nxt = True
            elif ">" in toks:
                nxt = False
            res.append(nxt)
        return res

    states = writer.explore(model, visit)
    ctx.count("abstract_writers", len(states))
    ctx.floor("abstract_writers", 6)
    if not any(u[0] == "attribute" for u in uses) or not any(u[0] == "text" for u in uses):
        raise ToolError("no attribute or text is written through the escaping writer")
    table = {}
    for place, kind, quote, cond in sorted(uses, key=repr):
        where, op = uses[(place, kind, quote, cond)]
        ctx.count("places")
        if kind in ("unset", "?"):
            ctx.obligation(kind == "?", f"{op}: {place} without escaping", where, f"{op} writes {place} content before a kind of escaping is set")
            if kind == "?":
                ctx.undecide(f"{op}: {place}", "the kind of escaping is not known here")
            continue
        if kind not in table:
            table[kind] = tabulate(ctx, model, kind)
        special = {"attribute": "&<" + (quote or ""), "text": "&<", "stylesheet": "&<"}[place]
        judge(ctx, model, op, place, kind, special, dict(cond), table[kind], where)
    ctx.analysed(*model.visited)


PLACES = {"write_attribute": "attribute", "write_text": "text", "write_style": "stylesheet"}


def note(ctx, model, uses, op, toks, end):
    """Records where content is written and how it is escaped; raw content is reported at once."""
    where = model.method(op).where()
    place = PLACES.get(op)
    if place is None:
        return
    quote = None
    for x in toks:
        if isinstance(x, str):
            if place == "attribute" and x in "'\"":
                quote = None if quote == x else x if quote is None else quote
            continue
        raw = x[0] == "raw"
        content = place != "attribute" or quote is not None
        if raw and content:
            ctx.obligation(False, f"{op}: unescaped {place}", where, f"{op} writes {x[1]!r} to the output without escaping it")
        elif raw:
            # the name of an attribute
            ctx.obligation(not any(c.k == "res" and c.t[2].endswith("::write_value") for c in walk(x[1])), f"{op}: unescaped name", where,
                           f"{op} writes {x[1]!r} unescaped")
        else:
            if place == "attribute" and quote is None:
                continue
            cond = tuple(sorted(((v, f) for v, f in end.state.facts.items() if any(y is writer.OPT for y in walk(v)) and f[0] == "=" and isinstance(f[1], bool)), key=repr))
            uses.setdefault((place, x[1], quote, cond), (where, op))


def tabulate(ctx, model, kind):
    """{(characters): [(facts about the options, output or None)]} of the escaping routine."""
    prog = model.prog
    fns = [f for f in prog.fns.values() if f.itrait == "core::fmt::Write" and f.self_ty and model.escaper in f.id]
    if not fns:
        fns = [f for f in prog.fns.values() if model.escaper in f.id and "core::fmt::Write>::" in f.id]
    names = {f.id.rsplit("::", 1)[-1] for f in fns}
    if "write_str" not in names:
        raise ToolError("the escaping writer does not implement write_str")
    for extra in names - {"write_str"}:
        ctx.undecide(f"escaping writer: {extra}", "only write_str is evaluated; the others are derived from it unless overridden")
    fn = [f for f in fns if f.id.endswith("::write_str")][0]
    init = model.initial().value
    fw = None
    for f in model.fmt_fields:
        fw = init.t[3][f[1]]
    ki = [i for i, v in enumerate(model.kinds.variants) if v.name == kind][0]
    fields = list(fw.t[3])
    fields[model.kind_field[1]] = writer.some(mk("adt", model.kinds.id, ki, ()))
    fw = mk("adt", fw.t[1], fw.t[2], tuple(fields))
    out = {}
    seqs = [(c,) for c in CHARS] + [(c, d) for c in CHARS for d in CHARS]
    for seq in seqs:
        out[seq] = evaluate(ctx, model, fn, fw, seq)
        ctx.count("strings_evaluated")
    return out


def evaluate(ctx, model, fn, fw, seq):
    prog = model.prog
    mode = set()

    def hook(it, st, t, name, c, args):
        base = c["fn"]
        n, pieces = st.q
        if base.endswith("Iterator::next") and args:
            v = it.strip(st, args[0])
            if any(x is S for x in walk(v)):
                if n >= len(seq):
                    return it.finish(st, t, writer.NONE)
                item = make(prog, st, t, seq[n], n, mode)
                if item is None:
                    mode.add("odd")
                    return it.finish(st, t, writer.NONE)
                st.q = (n + 1, pieces)
                return it.finish(st, t, writer.some(item))
        if any(base.startswith(p) for p in writer.IO) and args:
            m = base.rsplit("::", 1)[-1]
            if m in ("write_all", "write"):
                st.q = (n, pieces + (piece(it, st, args[1]),))
            elif m == "write_fmt":
                st.q = (n, pieces + (("?", it.strip(st, args[1])),))
            return it.finish(st, t, writer.OK)
        if base.endswith(("<str>::len", "<[T]>::len")) and args and any(x is S for x in walk(it.strip(st, args[0]))):
            return it.finish(st, t, LEN)
        return None

    def track(v):
        return True

    it = Interp(prog, hook=hook, opaque=lambda f: f.crate != writer.CRATE, track=track, max_states=8000, explore_closures=False)
    it.pure = lambda n: True
    ref = mk("sym", "escaper")
    res = []
    for e in it.run(fn, args=[mk("ref", True, ("D", ref), ()), S], q=(0, ()), mem={("D", ref): fw}):
        if e.kind != "ret":
            continue
        facts = e.state.facts
        if "odd" in mode or any(informs(v) for v in facts):
            res.append((conds(facts), None))
            continue
        n, pieces = e.state.q
        res.append((conds(facts), render(seq, n, pieces, mode)))
    model.visited |= it.visited_fns
    return res


def informs(v):
    """Whether a fact may say something about the characters at hand that this evaluation does not know."""
    if any(x is writer.OPT for x in walk(v)):
        return False
    names = [x.t[2].rsplit("::", 1)[-1] for x in walk(v) if x.k == "res" and any(y is S for y in walk(x))]
    # what comes after or before a character does not change whether it has to be escaped
    return not any(n in ("starts_with", "ends_with", "get", "is_char_boundary", "strip_prefix", "strip_suffix") for n in names)


def conds(facts):
    return {v: f[1] for v, f in facts.items() if f[0] == "=" and any(x is writer.OPT for x in walk(v))}


def make(prog, st, t, ch, n, mode):
    """The item an iterator over the string yields, by its type."""
    ty = prog.local_ty(st.top.fn, t[3][0]) if not t[3][1] else None
    if not ty or ty.get("def") != "core::option::Option":
        return None
    inner = prog.types[st.top.fn.crate][ty["args"][0]]
    return item_of(prog, st.top.fn.crate, inner, ch, n, mode)


def item_of(prog, crate, ty, ch, n, mode):
    if ty["s"] == "u8":
        return mk("k", ord(ch))
    if ty["s"] == "char":
        return mk("k", ("char", ch))
    if ty["k"] == "ref":
        x = item_of(prog, crate, prog.types[crate][ty["t"]], ch, n, mode)
        return mk("refv", x) if x is not None else None
    if ty["k"] == "tuple" and len(ty["args"]) == 2:
        a, b = (prog.types[crate][i] for i in ty["args"])
        if a["s"] == "usize":
            x = item_of(prog, crate, b, ch, n, mode)
            mode.add("pos")
            return mk("tup", (POS[n], x)) if x is not None else None
    return None


def piece(it, st, v):
    v = it.strip(st, v)
    toks = writer.byte_tokens(it, st, v)
    if toks and all(isinstance(x, str) for x in toks):
        return ("lit", "".join(toks))
    while v.k == "refv":
        v = v.t[1]
    if v.k == "res" and v.t[2].endswith(("as_bytes",)) and v.t[3]:
        v = v.t[3][0]
    if v is S:
        return ("slice", None, None)
    if v.k == "res" and ("Index" in v.t[2] and v.t[2].endswith("::index")) and len(v.t[3]) == 2:
        src, rng = v.t[3]
        while src.k == "refv":
            src = src.t[1]
        if src.k == "res" and src.t[2].endswith("as_bytes"):
            src = src.t[3][0]
        if src is S and rng.k == "adt":
            nm = rng.t[1].rsplit("::", 1)[-1]
            f = rng.t[3]
            if nm == "Range":
                return ("slice", f[0], f[1])
            if nm == "RangeFrom":
                return ("slice", f[0], None)
            if nm == "RangeTo":
                return ("slice", None, f[0])
            if nm == "RangeFull":
                return ("slice", None, None)
    return ("?", v)


def render(seq, n, pieces, mode):
    """The output as a list of segments of the string ('A', 0, 'M', 1, 'B') and literals; None if unclear."""
    if "pos" in mode or n == 0:
        if len(seq) == 1:
            bounds = {0: 0, POS[0]: 1, "n0": 2, LEN: 3}
            segs = ["A", 0, "B"]
        else:
            bounds = {0: 0, POS[0]: 1, "n0": 2, POS[1]: 3, "n1": 4, LEN: 5}
            segs = ["A", 0, "M", 1, "B"]
    else:
        bounds = {i: i for i in range(len(seq) + 1)}
        bounds[LEN] = len(seq)
        segs = list(range(len(seq)))

    def at(v, default):
        if v is None:
            return default
        if v.k == "k" and isinstance(v.t[1], int):
            return bounds.get(v.t[1])
        if v in bounds:
            return bounds[v]
        if v.k == "op" and v.t[1] in ("Add", "AddUnchecked", "AddWithOverflow"):
            a, b = v.t[2], v.t[3]
            for i, p in enumerate(POS):
                if a is p and b.k == "k" and b.t[1] == 1:
                    return bounds.get(f"n{i}")
        return None

    out = []
    for p in pieces:
        if p[0] == "lit":
            out.append(("lit", p[1]))
        elif p[0] == "slice":
            a, b = at(p[1], 0), at(p[2], len(segs))
            if a is None or b is None:
                return None
            out += segs[a:b]
        else:
            return None
    return out


def judge(ctx, model, op, place, kind, special, cond, table, where):
    fn = model.escaper.rsplit("::", 1)[-1]
    for seq, outs in table.items():
        want_segs = ["A", 0, "B"] if len(seq) == 1 else ["A", 0, "M", 1, "B"]
        for facts, got in outs:
            if any(facts.get(v) not in (None, f[1]) for v, f in cond.items()):
                continue
            if got is None:
                ctx.undecide(f"{kind}: {seq}", "the output for this string could not be followed")
                continue
            segs = want_segs if any(x in ("A", "B", "M") for x in got) or not got else [x for x in want_segs if isinstance(x, int)]
            ok, why = compare(seq, segs, got, special)
            ctx.obligation(ok, f"{place}: {why}", where,
                           f"{op} writes {place} content with the escaping {kind}: {why} (for a string with {' and '.join(map(repr, seq))})")


def compare(seq, segs, got, special):
    i = 0
    for s in segs:
        if i >= len(got):
            return False, "part of the string is lost"
        g = got[i]
        i += 1
        if not isinstance(s, int):
            if g != s:
                return False, "part of the string is lost, repeated or out of order"
            continue
        ch = seq[s]
        if g == s:
            if ch in special:
                return False, f"{ch} is not escaped"
            continue
        if isinstance(g, tuple) and g[0] == "lit":
            if g[1] == ch and ch not in special:
                continue
            if g[1] in ENTITIES.get(ch, ()):
                continue
            return False, f"{ch} is written as something else"
        return False, "part of the string is lost, repeated or out of order"
    if i != len(got):
        return False, "something is added to the string"
    return True, "escaped"
