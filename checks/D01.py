"""D01: path data is read and written without changing a command."""
import re
from fractions import Fraction

from facts import ToolError
from interp import Interp, mk
from terms import walk, some as option_some, NONE, OPTION, RESULT
from J05 import short

TECHNIQUE = "abstract interpretation over MIR: the tables of commands, the reader's loop and the writer are followed on all paths for every kind of command, numbers by the shape they are written in"
EXPLANATION = (
    "For every kind of command the tables that give its letter, its arguments, its kind and the kind that follows without a letter are evaluated and compared with each other and with the SVG grammar. "
    "Reading one command is followed on all paths: it must take as many numbers as the kind has, flags as flags, with blanks and a comma allowed after each, and keep them in order. The reader's loop is followed for every kind "
    "of command read or missing after every kind of command before, with the first command being a move or not: what is added must be of the kind read or repeated, and each pass adds a command or stops. "
    "Writing is followed for lists of up to three commands of all mixtures: letters and arguments of all of them in order, a letter left out only for a repetition, and numbers told apart for every pair of shapes "
    "(negative, nought, below one, whole, with an exponent)."
)
LEVEL_NOTE = "All kinds of commands, all paths; lists of up to three commands for writing, twelve shapes of numbers. How a single number is read is not part of it."

C = "oxvg_path::paths::svg::command::"
DATA, ID = C + "Data", C + "ID"
UNIT = mk("tup", ())
# SVG grammar of path data: command, letter, number of arguments
GRAMMAR = {"Move": ("M", 2), "Line": ("L", 2), "HorizontalLine": ("H", 1), "VerticalLine": ("V", 1), "CubicBezier": ("C", 6), "SmoothBezier": ("S", 4),
           "QuadraticBezier": ("Q", 4), "SmoothQuadraticBezier": ("T", 2), "Arc": ("A", 7)}
KINDS = {"ClosePath": ("Z", 0)}
for _n, (_l, _k) in GRAMMAR.items():
    KINDS[_n + "To"] = (_l, _k)
    KINDS[_n + "By"] = (_l.lower(), _k)


def ok(v):
    return mk("adt", RESULT, 0, (v,))


def err(v):
    return mk("adt", RESULT, 1, (v,))


def check(ctx):
    prog = ctx.program("native", ["oxvg_path.lib", "oxvg_parse.lib", "oxvg_collections.lib"])
    for a in (DATA, ID):
        if a not in prog.adts:
            raise ToolError(f"{a} is gone")
    ctx.count("kinds of commands", sum(v.name in KINDS for v in prog.adts[DATA].variants))
    ctx.floor("kinds of commands", 19)
    for g in (tables, from_letter, from_parts, arguments, loop, attributes, writer, numbers, digits):
        try:
            g(ctx, prog)
        except ToolError as e:
            ctx.undecide(g.__name__, e)


def index(prog, adt, name):
    for i, v in enumerate(prog.adts[adt].variants):
        if v.name == name:
            return i
    raise ToolError(f"{short(adt)} has no {name}")


def name_of(prog, v):
    """The name of a command's kind, whether as data or as an id, implicit ones in parentheses."""
    if v.k != "adt" or v.t[1] not in (DATA, ID):
        return None
    n = prog.adts[v.t[1]].variants[v.t[2]].name
    if n == "Implicit":
        inner = unbox(v.t[3][0])
        x = name_of(prog, inner) if inner is not None else None
        return f"({x})" if x else None
    return n


BOX = "alloc::boxed::Box"


def boxed(v):
    return mk("adt", BOX, 0, (mk("refv", v),))


def unbox(v):
    n = 0
    while v.k == "adt" and v.t[1] == BOX or v.k == "refv":
        v = v.t[3][0] if v.k == "adt" else v.t[1]
    while v.k in ("refv", "res", "box", "ref") and n < 8:
        n += 1
        if v.k == "refv":
            v = v.t[1]
        elif v.k == "res" and short(v.t[2]) in ("new", "clone", "deref", "as_ref", "deref_mut", "into") and len(v.t[3]) == 1:
            v = v.t[3][0]
        else:
            return None
    return v


def ident(prog, n):
    if n.startswith("("):
        return mk("adt", ID, index(prog, ID, "Implicit"), (boxed(ident(prog, n[1:-1])),))
    return mk("adt", ID, index(prog, ID, n), ())


def data(prog, n, arg):
    if n.startswith("("):
        return mk("adt", DATA, index(prog, DATA, "Implicit"), (boxed(data(prog, n[1:-1], arg)),))
    return mk("adt", DATA, index(prog, DATA, n), () if n == "ClosePath" else (arg,))


def peel(v):
    while v.k == "refv":
        v = v.t[1]
    return v


def boxes(it, st, t, name, c, args):
    s, base = short(c["fn"]), c["fn"]
    fn = it.prog.get(c.get("res") or base) or it.prog.get(base)
    if fn is not None and 0 < sum(fr.fn.id == fn.id for fr in st.frames) < 3:
        # an implicit command asks the command it stands for
        if any((v := peel(it.strip(st, a))).k == "adt" and v.t[1] in (DATA, ID) or v.k == "tup" and v.t[1] for a in args):
            return it.enter(st, t, fn, list(args), c)
    if s in ("new", "clone", "deref", "as_ref", "deref_mut", "as_mut", "from", "into") and len(args) == 1 and ("boxed::Box" in name or "boxed::Box" in base or s == "clone"):
        v = it.strip(st, args[0])
        if s != "new":
            v = peel(v)
        if s == "new":
            return it.finish(st, t, boxed(v))
        if s == "clone" and v.k == "adt":
            return it.finish(st, t, v)
        if s in ("deref", "as_ref", "deref_mut", "as_mut") and v.k == "adt" and v.t[1] == BOX:
            return it.finish(st, t, v.t[3][0])
    return None


def values(prog, f, args, hook=boxes, q=frozenset(), **kw):
    it = Interp(prog, hook=hook, opaque=kw.pop("opaque", lambda g: False), track=lambda v: True, max_states=4000, explore_closures=False, **kw)
    it.pure = lambda n: True
    return it, it.run(f, args=args, q=q)


def tables(ctx, prog):
    """What is known about each kind of command agrees."""
    def get(n):
        f = prog.get(n)
        if f is None:
            ctx.undecide(short(n), "gone")
        return f

    def outcomes(f, arg):
        it, ends = values(prog, f, [arg])
        ctx.analysed(*it.visited_fns)
        return it, [(e, it.strip(e.state, e.value)) for e in ends if e.kind == "ret"]

    letter = get(f"<char as core::convert::From<&{ID}>>::from")
    number = get(ID + "::args")
    kind = get(DATA + "::id")
    reads = [get(DATA + "::args"), get(DATA + "::args_mut")]
    to, by = get(DATA + "::is_to"), get(DATA + "::is_by")
    after = get(ID + "::next_implicit")
    for n, (l, k) in KINDS.items():
        i, d = mk("refv", ident(prog, n)), mk("refv", data(prog, n, mk("sym", "payload")))
        dd, ii = mk("refv", data(prog, f"({n})", mk("sym", "payload"))), mk("refv", ident(prog, f"({n})"))
        ctx.count("tables for kinds")
        ty = prog.tys(prog.adts[DATA].variants[index(prog, DATA, n)].fields[0][1]) if False else None
        if letter is not None:
            for _, v in outcomes(letter, i)[1]:
                ctx.obligation(v.k == "k" and v.t[1] == ("char", l), f"letter of {n}", letter.where(), f"{n} is written as {v!r} instead of {l}")
        if number is not None:
            for what, x in ((n, i), (f"repeated {n}", ii)):
                for _, v in outcomes(number, x)[1]:
                    ctx.obligation(v.k == "k" and v.t[1] == k, f"arguments of {what}", number.where(), f"{what} has {v!r} arguments instead of {k}")
        if kind is not None:
            for w, x in ((n, d), (f"({n})", dd)):
                for _, v in outcomes(kind, x)[1]:
                    ctx.obligation(name_of(prog, v) == w, f"kind of {n}", kind.where(), f"a command {w} says it is {name_of(prog, v)}")
        for f in reads:
            for x in (d, dd) if f is not None else ():
                for _, v in outcomes(f, x)[1]:
                    has = mk("sym", "payload") in set(walk(v, limit=30))
                    ctx.obligation(has == (k > 0), f"{short(f.id)} of {n}", f.where(), f"{short(f.id)} of {n} {'gives' if has else 'does not give'} its arguments")
        if to is not None:
            for x in (d, dd):
                for _, v in outcomes(to, x)[1]:
                    if n != "ClosePath" and v.k == "k":
                        ctx.obligation(v.t[1] is n.endswith("To"), f"absolute {n}", to.where(), f"{n} is taken for {'an absolute' if v.t[1] else 'a relative'} command")
        if by is not None:
            for x in (d, dd):
                for _, v in outcomes(by, x)[1]:
                    if n != "ClosePath" and v.k == "k":
                        ctx.obligation(v.t[1] is n.endswith("By"), f"relative {n}", by.where(), f"{n} is taken for {'a relative' if v.t[1] else 'an absolute'} command")
        if after is not None:
            want = {"MoveTo": "LineTo", "MoveBy": "LineBy"}.get(n, n)
            for x in (i, ii):
                for _, v in outcomes(after, x)[1]:
                    v = unbox(v)
                    got = name_of(prog, v) if v is not None else None
                    if got is None:
                        ctx.undecide("next_implicit", "not followed")
                    else:
                        ctx.obligation(got == want, f"after {n}", after.where(), f"arguments after those of {n} are taken for {got}")


ALPHABET = "MmLlHhVvCcSsQqTtAaZzBbEeXx0,."


def from_letter(ctx, prog):
    """Each letter is read as its command."""
    fs = [f for f in prog.fns.values() if f.id.startswith(("oxvg_path::", "<" + ID)) and f.kind in ("fn", "method") and f.argc == 1 and
          re.match(r"^core::result::Result<" + re.escape(ID), prog.tys(f, f.locals[0]))]
    if not fs:
        raise ToolError("letters are read in another way")
    for f in fs:
        for ch in ALPHABET:
            def hook(it, st, t, name, c, args):
                if short(c["fn"]) in ("read", "current", "peek", "next") and "Parser" in c["fn"]:
                    return it.finish(st, t, ok(mk("k", ("char", ch))))
                return boxes(it, st, t, name, c, args)

            arg = mk("k", ("char", ch)) if prog.tys(f, f.locals[1]) == "char" else mk("sym", "input")
            it, ends = values(prog, f, [arg], hook)
            ctx.analysed(*it.visited_fns)
            want = next((n for n, (l, _) in KINDS.items() if l == ch or n == "ClosePath" and ch == "z"), None)
            for e in ends:
                v = it.strip(e.state, e.value) if e.kind == "ret" else None
                if v is None or v.k != "adt" or v.t[1] != RESULT:
                    continue
                ctx.count("letters read")
                got = name_of(prog, it.strip(e.state, v.t[3][0])) if v.t[2] == 0 else None
                ctx.obligation(got == want, f"{short(f.id)}: {ch}", f.where(), f"the letter {ch} is read as {got} instead of {want}")
    ctx.floor("letters read", 19)


def elements(it, st, v, n):
    v = it.strip(st, v)
    if v.k != "tup":
        return None
    return [it.strip(st, x) for x in v.t[1]]


def from_parts(ctx, prog):
    """A command made from a kind and numbers takes the numbers in order."""
    f = prog.get(f"<{DATA} as core::convert::From<(&{ID}, [f64; 7])>>::from")
    if f is None:
        return
    nums = mk("tup", tuple(mk("sym", f"n{i}") for i in range(7)))
    for n, (_, k) in KINDS.items():
        it, ends = values(prog, f, [mk("tup", (mk("refv", ident(prog, n)), nums))])
        ctx.analysed(*it.visited_fns)
        for e in ends:
            if e.kind != "ret":
                continue
            v = it.strip(e.state, e.value)
            ctx.obligation(name_of(prog, v) == n, f"made: {n}", f.where(), f"asked for {n}, made {name_of(prog, v)}")
            if v.k == "adt" and k and name_of(prog, v) == n:
                got = elements(it, e.state, v.t[3][0], k)
                if got is not None and all(x.k == "sym" for x in got):
                    ctx.obligation([x.t[1] for x in got] == [f"n{i}" for i in range(k)], f"numbers of {n}", f.where(), f"{n} is made with the numbers {[x.t[1] for x in got]}")


def arguments(ctx, prog):
    """The arguments of a command are read in order, flags as flags."""
    fs = [f for f in prog.fns.values() if f.id.startswith("oxvg_path::") and f.kind in ("fn", "method") and f.argc == 2 and
          re.match(r"^core::result::Result<" + re.escape(DATA), prog.tys(f, f.locals[0])) and prog.tys(f, f.locals[2]).lstrip("&") == ID]
    if not fs:
        raise ToolError("commands are read in another way")
    f = fs[0]

    def hook(it, st, t, name, c, args):
        s, base = short(c["fn"]), c["fn"]
        res = c.get("res") or ""
        if s == "parse" and ("f64" in name or "f64" in res or any("f64" in str(x) for x in c.get("subs") or ())) and DATA not in name and DATA not in res:
            bad = st.copy()
            bad.q = bad.q + ("bad",)
            i = sum(x in "NF" for x in st.q)
            st.q = st.q + ("N",)
            return it.finish(st, t, ok(mk("sym", f"n{i}"))) + it.finish(bad, t, err(mk("sym", "no number")))
        if s == "read" and "Parser" in base:
            out = []
            for ch in "012":
                s2 = st.copy()
                s2.q = s2.q + ("F", "=" + ch)
                out += it.finish(s2, t, ok(mk("k", ("char", ch))))
            return out
        if s in ("skip_whitespace", "skip_char") and "Parser" in base:
            st.q = st.q + ("w" if s == "skip_whitespace" else ",",)
            return it.finish(st, t, UNIT)
        return boxes(it, st, t, name, c, args)

    for n, (_, k) in KINDS.items():
        for w in (n, f"({n})"):
            if w == "(ClosePath)":
                continue
            it, ends = values(prog, f, [mk("sym", "input"), ident(prog, w)], hook, q=())
            ctx.analysed(*it.visited_fns)
            good = 0
            for e in ends:
                if e.kind != "ret":
                    ctx.obligation(False, f"read {w}: panic", f.where(), f"reading {w} can panic")
                    continue
                q = e.state.q
                v = it.strip(e.state, e.value)
                if v.k != "adt" or v.t[1] != RESULT:
                    ctx.undecide(f"read {w}", "not followed")
                    continue
                wrong = "bad" in q or "=2" in q
                if v.t[2] == 1:
                    ctx.obligation(wrong, f"read {w}: refused", f.where(), f"{w} is refused although its arguments are fine")
                    continue
                ctx.obligation(not wrong, f"read {w}: accepted", f.where(), f"{w} is accepted with a wrong argument")
                if wrong:
                    continue
                good += 1
                got = it.strip(e.state, v.t[3][0])
                ctx.obligation(name_of(prog, got) == w, f"read {w}: kind", f.where(), f"{w} is read as {name_of(prog, got)}")
                kinds = "".join(x for x in q if x in ("N", "F"))
                want = ("NNNFFNN" if n.startswith("Arc") else "N" * k)
                ctx.obligation(kinds == want, f"read {w}: arguments", f.where(), f"{w} takes {kinds or 'nothing'} for arguments (N number, F flag)")
                text = "".join(x for x in q if not x.startswith("="))
                for sep in re.split("[NF]", text)[1:-1]:
                    ctx.obligation(re.search("w,w", sep) is not None, f"read {w}: separators", f.where(), f"between arguments of {w} not both blanks and a comma are passed over")
                inner = got
                while inner is not None and inner.k == "adt" and prog.adts[DATA].variants[inner.t[2]].name == "Implicit":
                    inner = unbox(inner.t[3][0])
                els = elements(it, e.state, inner.t[3][0], k) if k and inner is not None and inner.k == "adt" and inner.t[3] else None
                if els is not None and kinds == want:
                    flags = iter(x[1:] for x in q if x.startswith("="))
                    exp = [mk("sym", f"n{i}") if x == "N" else next(flags) for i, x in enumerate(want)]
                    for i, (a, b) in enumerate(zip(els, exp)):
                        same = a == b if not isinstance(b, str) else a.k == "k" and a.t[1] == ("f", b + ".0")
                        if isinstance(b, str) and a.k != "k":
                            continue
                        ctx.obligation(same, f"read {w}: argument {i}", f.where(), f"argument {i} of {w} is {a!r} instead of {b!r}")
            ctx.count("commands read", good)
            ctx.obligation(good > 0, f"read {w}", f.where(), f"{w} cannot be read")
    ctx.floor("commands read", 19)


def next_kind(n):
    n = n.strip("()")
    return {"MoveTo": "LineTo", "MoveBy": "LineBy"}.get(n, n)


def loop(ctx, prog):
    """Each pass of the reader adds the command read or repeated, or stops."""
    fs = [f for f in prog.fns.values() if f.id.startswith("oxvg_path::") and short(f.id) == "parse_extend"]
    if not fs:
        raise ToolError("the reader is gone")
    f = fs[0]
    lasts = [None, "MoveTo", "MoveBy", "LineTo", "(LineTo)", "(LineBy)", "ClosePath", "HorizontalLineBy", "ArcTo", "CubicBezierBy"]
    reads = [None, "MoveTo", "MoveBy", "LineTo", "LineBy", "ClosePath", "HorizontalLineTo", "HorizontalLineBy", "ArcTo", "CubicBezierBy"]
    for last in lasts:
        for read in reads:
            for allow in (True, False):
                one(ctx, prog, f, last, read, allow)


def one(ctx, prog, f, last, read, allow):
    what = f"{read or 'no letter'} after {last or 'nothing'}"

    def hook(it, st, t, name, c, args):
        s, base = short(c["fn"]), c["fn"]
        fn = prog.get(c.get("res") or base) or prog.get(base)
        if s == "is_empty":
            if "Parser" in base:
                if "turn" in st.q:
                    if "pushed" in st.q:
                        return it.finish(st, t, mk("k", True))
                    if "again" in st.q:
                        st.q = st.q | {"stuck"}
                        return it.finish(st, t, mk("k", True))
                    # the input may be at its end once blanks are passed over
                    end = st.copy()
                    st.q = st.q | {"again"}
                    end.q = end.q | {"ended"}
                    return it.finish(st, t, mk("k", False)) + it.finish(end, t, mk("k", True))
                st.q = st.q | {"turn"}
                return it.finish(st, t, mk("k", False))
            return it.finish(st, t, mk("k", last is None))
        if s == "last" and args:
            return it.finish(st, t, NONE if last is None else option_some(mk("refv", data(prog, last, mk("sym", "before")))))
        if s in ("index", "index_mut", "get", "last_mut", "first") and args and last is not None and "Parser" not in base:
            x = mk("refv", data(prog, last, mk("sym", "before")))
            return it.finish(st, t, x if s.startswith("index") else option_some(x))
        if s == "len" and "Parser" not in base:
            return it.finish(st, t, mk("k", 0 if last is None else 1))
        if s in ("skip_whitespace", "skip_char", "take_slice") and "Parser" in base:
            st.q = st.q | {s}
            return it.finish(st, t, UNIT if s != "take_slice" else mk("sym", "rest"))
        if fn is not None and fn.id.startswith("oxvg_path::") and fn.kind in ("fn", "method"):
            ret = prog.tys(fn, fn.locals[0])
            if re.match(r"^core::result::Result<" + re.escape(ID), ret):
                if "asked" in st.q:
                    st.q = st.q | {"asked twice"}
                st.q = st.q | {"asked"}
                return it.finish(st, t, err(mk("sym", "no letter")) if read is None else ok(ident(prog, read)))
            if re.match(r"^core::result::Result<" + re.escape(DATA), ret):
                bad = st.copy()
                bad.q = bad.q | {"bad"}
                n = name_of(prog, peel(it.strip(st, args[-1])))
                st.q = st.q | {("parsed", n)}
                bad.q = bad.q | {("parsed", n)}
                return it.finish(st, t, ok(mk("sym", "command"))) + it.finish(bad, t, err(mk("sym", "bad arguments")))
        if s == "push" and len(args) == 2:
            if "pushed" in st.q:
                st.q = st.q | {"twice"}
            st.q = st.q | {"pushed"}
            ctx.obligation(it.strip(st, args[1]) == mk("sym", "command"), "loop: added", f.where(), "something else than the command read is added to the path")
            return it.finish(st, t, UNIT)
        return boxes(it, st, t, name, c, args)

    it, ends = values(prog, f, [mk("sym", "self"), mk("sym", "input"), mk("k", allow)], hook)
    ctx.analysed(*it.visited_fns)
    if read is not None:
        want = read if last is not None or read in ("MoveTo", "MoveBy") else None
    elif last is None:
        want = "MoveTo" if allow else None
    else:
        want = None if last == "ClosePath" else next_kind(last)
    for e in ends:
        q = e.state.q
        if e.kind != "ret":
            continue
        v = it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != RESULT:
            ctx.undecide("loop", "result not followed")
            continue
        if "ended" in q and v.t[2] == 0:
            continue
        ctx.count("passes of the reader")
        ctx.obligation("stuck" not in q, f"loop: {what}: no progress", f.where(), f"reading does not go on after {what}")
        parsed = [x[1] for x in q if isinstance(x, tuple)]
        if v.t[2] == 0:
            ctx.obligation("pushed" in q, f"loop: {what}: lost", f.where(), f"nothing is added for {what}")
            ctx.obligation(want is not None, f"loop: {what}: accepted", f.where(), f"{what} is accepted as {parsed}")
        else:
            ctx.obligation("bad" in q or want is None, f"loop: {what}: refused", f.where(), f"{what} is refused")
        for p in parsed:
            if p is None:
                ctx.undecide("loop", "kind not followed")
            elif want is not None:
                ctx.obligation(p.strip("()") == want, f"loop: {what}: kind", f.where(), f"{what} is taken for {p} instead of {want}")
                ctx.obligation(not p.startswith("(") or last is not None and next_kind(last) == p.strip("()") and p != "(ClosePath)", f"loop: {what}: repetition", f.where(), f"{what} is taken for a repetition of {last}")


def attributes(ctx, prog):
    """Path data must start with a move; points do so without its letter."""
    for name, want in (("Path", False), ("Points", True)):
        f = prog.get(f"<oxvg_collections::attribute::path::{name} as oxvg_parse::Parse>::parse")
        if f is None:
            continue

        def hook(it, st, t, n, c, args):
            if short(c["fn"]) == "parse_extend":
                st.q = st.q | {("given", it.strip(st, args[2]))}
                good = st.copy()
                return it.finish(st, t, err(mk("sym", "error"))) + it.finish(good, t, ok(UNIT))
            return None

        it, ends = values(prog, f, [mk("sym", "input")], hook)
        for e in ends:
            for x in e.state.q:
                if x[1].k == "k":
                    ctx.obligation(x[1].t[1] is want, f"{name}: start", f.where(), f"{name} {'may' if x[1].t[1] else 'may not'} start without a letter")


# ---- writing

REPS = [-2.0, -1.5, -0.5, -1e-7, 0.0, 1e-7, 1.5e-9, 1e-6, 5e-6, 0.00001, 0.00005, 0.0001, 0.5, 1.0, 1.5, 30.0, 1e16, 1e17, 1.5e20]


def raw(x):
    """How a number is spelt before it is shortened."""
    if x == 0:
        return "0.0"
    m = abs(x)
    s = repr(m)
    if m >= 1e16 or m < 1e-5:
        mant, _, ex = ("%.17e" % m if "e" not in s else s).partition("e")
        if "e" not in s:
            mant, ex = s, "0"
        mant = mant.rstrip("0").rstrip(".") if "." in mant else mant
        s = mant + "e" + str(int(ex))
    elif "e" in s:
        s = ("%.20f" % m).rstrip("0")
    return ("-" if x < 0 else "") + s


def shortened(x):
    s = raw(x)
    if "e" not in s:
        s = s[:-2] if s.endswith(".0") else s
        s = re.sub(r"^(-?)0\.", r"\1.", s)
    return s


def apart(a, b, text):
    """Whether a reader gets both numbers back."""
    m = re.match(r"[+-]?(?:\d+\.\d+|\d+|\.\d+)(?:[eE][+-]?\d+)?", text)
    if not m or float(m.group()) != a:
        return False
    m2 = re.match(r"[ ,]*([+-]?(?:\d+\.\d+|\d+|\.\d+)(?:[eE][+-]?\d+)?)$", text[m.end():])
    return bool(m2) and float(m2.group(1)) == b


class Unknown(Exception):
    pass


def value(v, env):
    """Value of a term for particular numbers."""
    if v.k == "sym" and v.t[1] in env:
        return env[v.t[1]]
    if v.k == "k":
        x = v.t[1]
        if isinstance(x, tuple) and x[0] == "f":
            return float(x[1])
        return x
    if v.k in ("refv", "deref"):
        return value(v.t[1], env)
    if v.k == "cast":
        return value(v.t[1], env)
    if v.k == "un":
        x = value(v.t[2], env)
        return (not x) if v.t[1] == "Not" else -x
    if v.k == "op":
        a, b = value(v.t[2], env), value(v.t[3], env)
        o = v.t[1]
        if o == "Rem":
            import math
            return math.fmod(a, b)
        return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[o] if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else \
            {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitOr": lambda: a or b, "BitAnd": lambda: a and b}.get(o, lambda: (_ for _ in ()).throw(Unknown(o)))()
    if v.k == "res":
        s, a = short(v.t[2]), v.t[3]
        if s in ("first", "last") and len(a) == 1:
            for x in walk(a[0], limit=30):
                if x.k == "sym" and (x.t[1], s) in env:
                    return env[(x.t[1], s)]
        if s in ("format", "format_finite") and a:
            return raw(value(a[-1], env))
        if s == "starts_with" and len(a) == 2:
            p = value(a[1], env)
            return str(value(a[0], env)).startswith(p[1] if isinstance(p, tuple) else str(p))
        if s == "contains" and len(a) == 2:
            p = value(a[1], env)
            return (p[1] if isinstance(p, tuple) else str(p)) in str(value(a[0], env))
        if s in ("ge", "gt", "le", "lt", "eq", "ne") and len(a) == 2:
            x, y = value(a[0], env), value(a[1], env)
            return {"ge": x >= y, "gt": x > y, "le": x <= y, "lt": x < y, "eq": x == y, "ne": x != y}[s]
        if s == "rem" and len(a) == 2:
            import math
            return math.fmod(value(a[0], env), value(a[1], env))
        if s == "is_sign_negative":
            import math
            return math.copysign(1, value(a[0], env)) < 0
        if s in ("abs", "floor", "trunc", "fract", "round", "ceil") and len(a) == 1:
            import math
            x = value(a[0], env)
            return {"abs": abs, "floor": math.floor, "trunc": math.trunc, "ceil": math.ceil, "fract": lambda y: math.fmod(y, 1), "round": lambda y: math.floor(y + .5)}[s](x)
        if s in ("clone", "deref", "as_ref", "into", "from", "borrow") and len(a) == 1:
            return value(a[0], env)
        if s == "is_finite":
            return True
        if s in ("is_nan", "is_infinite"):
            return False
    raise Unknown(repr(v)[:80])


def fits(st, env):
    """Whether the facts of a path hold for these numbers."""
    for t, (how, x) in st.facts.items():
        if not any(y.k == "sym" and (y.t[1] in env or any(isinstance(k, tuple) and k[0] == y.t[1] for k in env)) for y in walk(t, limit=40)):
            continue
        try:
            v = value(t, env)
        except Unknown:
            raise ToolError(f"a test on numbers is not followed: {t!r}"[:160])
        if how == "=" and v != x or how == "!" and v in x:
            return False
    return True


def streams(items):
    """Model of an iterator over a known list, its place kept in the state."""
    def hook(it, st, t, name, c, args):
        s, base = short(c["fn"]), c["fn"]
        v = it.strip(st, args[0]) if args else None
        mark = next((x for x in walk(v, limit=12) if x.k == "res" and x.t[2] == "stream"), None) if v is not None and v.k in ("res", "refv", "ref", "deref", "sym") else None
        if mark is None:
            return None
        tags = [x.t[1] for x in mark.t[3]]
        if s in ("iter", "into_iter", "by_ref", "copied", "cloned", "deref", "as_ref", "as_slice", "iter_mut") or s == "clone":
            return it.finish(st, t, mark)
        if s in ("tuple_windows", "enumerate", "peekable", "array_windows"):
            if s == "peekable":
                raise ToolError("the list is looked at ahead")
            return it.finish(st, t, mk("res", None, "stream", tuple(mk("k", x) for x in tags + [s])))
        if s == "windows" and len(args) == 2:
            raise ToolError("the list is looked at in windows")
        if s == "len":
            return it.finish(st, t, mk("k", len(items)))
        if s == "is_empty":
            return it.finish(st, t, mk("k", not items))
        if s == "first" and not tags:
            return it.finish(st, t, option_some(items[0]) if items else NONE)
        if s in ("next", "try_for_each", "for_each"):
            pos, out = st.q
            got = item(items, tags, pos)
            if s == "next":
                st.q = (pos + 1, out) if got is not None else st.q
                return it.finish(st, t, option_some(got) if got is not None else NONE)
            if got is None:
                return it.finish(st, t, ok(UNIT) if s == "try_for_each" else UNIT)
            st.q = (pos + 1, out)
            r = it.call_closure(st, t, args[-1], [got], "closure", discard=("step", 0))
            if not r:
                raise ToolError("what is done with each command is not followed")
            return r
        return None
    return hook


def item(items, tags, pos):
    if "tuple_windows" in tags or "array_windows" in tags:
        if pos + 1 >= len(items):
            return None
        v = mk("tup", (items[pos], items[pos + 1]))
    elif pos < len(items):
        v = items[pos]
    else:
        return None
    return mk("tup", (mk("k", pos), v)) if "enumerate" in tags else v


def resume(it, items, stream_hook):
    """After one step of a closure: stop on failure, otherwise take the next."""
    def after(st, fr, v):
        t = st.top.fn.blocks[st.top.block]["t"]
        v = it.strip(st, v)
        if v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1:
            return it.finish(st, t, v)
        c = t[1][1]
        args = [it.operand(st, a) for a in t[2]]
        r = stream_hook(it, st, t, c["fn"], c, args)
        if r is None:
            raise ToolError("the list is not followed")
        return r
    return after


MIX = ["LineTo", "(LineTo)", "ClosePath", "HorizontalLineBy", "(HorizontalLineBy)", "MoveTo"]


def writer(ctx, prog):
    """Letters and arguments of all commands are written in order."""
    f = prog.get("<oxvg_path::paths::svg::path::Path as core::fmt::Display>::fmt")
    if f is None:
        raise ToolError("paths are written in another way")
    lists = [["MoveTo"], ["(LineTo)"]] + [["MoveTo", a] for a in MIX] + [["MoveTo", a, b] for a in MIX for b in MIX]
    for kinds in lists:
        if any(k.startswith("(") and (i == 0 or kinds[i - 1] == "ClosePath" or next_kind(kinds[i - 1]) != k.strip("()")) for i, k in enumerate(kinds)):
            continue
        items = [mk("refv", data(prog, k, mk("sym", f"p{i}"))) for i, k in enumerate(kinds)]
        sh = streams(items)

        def hook(it, st, t, name, c, args):
            s, base = short(c["fn"]), c["fn"]
            r = sh(it, st, t, name, c, args)
            if r is not None:
                return r
            full = (c.get("res") or "") + " " + name
            if s in ("iter", "as_slice", "deref", "into_iter", "as_ref") and args and it.strip(st, args[0]).k in ("fld", "sym", "deref", "refv", "ref") and mk("sym", "path") in set(walk(it.strip(st, args[0]), limit=12)) \
                    and not any(x.k == "res" for x in walk(it.strip(st, args[0]), limit=12)):
                return it.finish(st, t, mk("res", None, "stream", ()))
            if s == "write_char" and len(args) == 2:
                x = it.strip(st, args[1])
                if x.k != "k":
                    raise ToolError("a letter written is not followed")
                st.q = (st.q[0], st.q[1] + (x.t[1][1],))
                return it.finish(st, t, ok(UNIT))
            if s == "fmt" and f"{C}Args" in full:
                ps = [x.t[1] for x in walk(it.strip(st, args[0]), limit=40) if x.k == "sym" and x.t[1].startswith("p")]
                if len(set(ps)) != 1:
                    raise ToolError("arguments written are not followed")
                st.q = (st.q[0], st.q[1] + (("args", ps[0]),))
                return it.finish(st, t, ok(UNIT))
            if s == "write_str" and len(args) == 2:
                x = it.strip(st, args[1])
                y = x.t[1] if x.k == "k" and isinstance(x.t[1], str) else None
                if y is None:
                    raise ToolError("a text written is not followed")
                st.q = (st.q[0], st.q[1] + tuple(y))
                return it.finish(st, t, ok(UNIT))
            if s in ("unwrap", "expect") and args:
                x = it.strip(st, args[0])
                if x.k == "adt" and x.t[1] == OPTION and x.t[2] == 1:
                    return it.finish(st, t, x.t[3][0])
            return boxes(it, st, t, name, c, args)

        it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith(("oxvg_path::format", "oxvg_path::paths::svg", "<oxvg_path::paths::svg", "<char as")), track=lambda v: True, max_states=4000, explore_closures=False)
        it.pure = lambda n: True
        it.after_discard = resume(it, items, sh)
        ends = it.run(f, args=[mk("refv", mk("sym", "path")), mk("sym", "f")], q=(0, ()))
        ctx.analysed(*it.visited_fns)
        what = " ".join(kinds)
        for e in ends:
            if e.kind != "ret":
                continue
            v = it.strip(e.state, e.value)
            if v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1:
                continue
            out = e.state.q[1]
            ctx.count("lists written")
            want = []
            for i, k in enumerate(kinds):
                if not k.startswith("("):
                    want.append(KINDS[k][0])
                if k != "ClosePath":
                    want.append(("args", f"p{i}"))
            plain = [x for x in out if x != " "]
            ctx.obligation(plain == want or kinds == ["(LineTo)"] and plain in ([("args", "p0")], ["L", ("args", "p0")]), f"write: {what}", f.where(), f"the commands {what} are written as {show(plain)} instead of {show(want)}")
            if plain != want:
                continue
            # numbers of a repetition after those before it
            for i in range(1, len(kinds)):
                if not kinds[i].startswith("("):
                    continue
                a = out.index(("args", f"p{i}"))
                gap = "".join(x for x in out[out.index(("args", f"p{i-1}")) + 1:a] if isinstance(x, str))
                for x in REPS:
                    for y in REPS:
                        env = {(f"p{i-1}", "last"): x, (f"p{i}", "first"): y}
                        if not fits(restricted(e.state, i), env):
                            continue
                        ctx.count("pairs of numbers across commands")
                        text = shortened(x) + gap + shortened(y)
                        ctx.obligation(apart(x, y, text), f"repetition: {spell(x)} {spell(y)}", f.where(), f"{shortened(x)} and then {shortened(y)} of a repeated command are written as {text}")
    ctx.floor("lists written", 10)


def restricted(st, i):
    """The facts about the numbers on both sides of command i."""
    class S:
        pass
    s = S()
    s.facts = {t: v for t, v in st.facts.items() if {x.t[1] for x in walk(t, limit=40) if x.k == "sym"} & {f"p{i-1}", f"p{i}"} and covers(t, i)}
    return s


def covers(t, i):
    """Tests on the last number before and the first number of command i only."""
    for x in walk(t, limit=40):
        if x.k == "res" and short(x.t[2]) in ("first", "last"):
            p = [y.t[1] for y in walk(x, limit=30) if y.k == "sym" and y.t[1].startswith("p")]
            if p and (p[0], short(x.t[2])) not in ((f"p{i-1}", "last"), (f"p{i}", "first")):
                return False
    return True


def spell(x):
    return shortened(x)


def show(out):
    return "".join(x if isinstance(x, str) else "<" + x[1] + ">" for x in out)


def numbers(ctx, prog):
    """Numbers of one command are kept apart."""
    f = prog.get(f"<{C}Args as core::fmt::Display>::fmt")
    if f is None:
        raise ToolError("numbers are written in another way")
    items = [mk("refv", mk("sym", "a")), mk("refv", mk("sym", "b"))]
    sh = streams(items)

    def hook(it, st, t, name, c, args):
        s, base = short(c["fn"]), c["fn"]
        r = sh(it, st, t, name, c, args)
        if r is not None:
            return r
        if s in ("iter", "into_iter", "as_slice", "deref") and args and mk("sym", "args") in set(walk(it.strip(st, args[0]), limit=12)):
            return it.finish(st, t, mk("res", None, "stream", ()))
        if s == "write_char" and len(args) == 2:
            x = it.strip(st, args[1])
            if x.k != "k":
                raise ToolError("a letter written is not followed")
            st.q = (st.q[0], st.q[1] + (x.t[1][1],))
            return it.finish(st, t, ok(UNIT))
        if s in ("format", "format_finite") and len(args) == 2:
            return it.finish(st, t, mk("res", None, name, (it.strip(st, args[1]),)))
        fn = prog.get(c.get("res") or base) or prog.get(base)
        if fn is not None and fn.id.startswith("oxvg_path::") and "short_number" in fn.id or s == "write_str":
            ps = [x.t[1] for a in args for x in walk(it.strip(st, a), limit=20) if x.k == "sym" and x.t[1] in ("a", "b")]
            if len(set(ps)) != 1:
                raise ToolError("numbers written are not followed")
            st.q = (st.q[0], st.q[1] + (("n", ps[0]),))
            return it.finish(st, t, ok(UNIT))
        return None

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith(("oxvg_path::paths::svg", "<oxvg_path::paths::svg")), track=lambda v: True, max_states=4000, explore_closures=False)
    it.pure = lambda n: True
    it.after_discard = resume(it, items, sh)
    ends = it.run(f, args=[mk("refv", mk("sym", "args")), mk("sym", "f")], q=(0, ()))
    ctx.analysed(*it.visited_fns)
    for e in ends:
        if e.kind != "ret":
            continue
        v = it.strip(e.state, e.value)
        if v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1:
            continue
        out = e.state.q[1]
        order = [x[1] for x in out if isinstance(x, tuple)]
        ctx.obligation(order == ["a", "b"], "numbers: order", f.where(), f"the numbers of a command are written as {order}")
        if order != ["a", "b"]:
            continue
        for x in REPS:
            for y in REPS:
                if not fits(e.state, {"a": x, "b": y}):
                    continue
                ctx.count("pairs of numbers")
                text = "".join(z if isinstance(z, str) else shortened(x if z[1] == "a" else y) for z in out)
                ctx.obligation(apart(x, y, text), f"numbers: {spell(x)} {spell(y)}", f.where(), f"{shortened(x)} and then {shortened(y)} are written as {text}")
    ctx.floor("pairs of numbers", len(REPS) ** 2)


def digits(ctx, prog):
    """Shortening the spelling of a number keeps its value."""
    fs = [f for f in prog.fns.values() if f.id.startswith("oxvg_path::") and short(f.id) == "short_number_from_buffer"]
    if not fs:
        raise ToolError("numbers are shortened in another way")
    f = fs[0]
    for x in REPS + [10.0, 100.0, 0.05, 100.5, 1e20, 1.2e-10, 10.10]:
        text = raw(x)

        def hook(it, st, t, name, c, args):
            s = short(c["fn"])
            a = [it.strip(st, y) for y in args]
            w = [lit(y) for y in a]
            if s in ("write_str", "write_char") and len(a) == 2:
                if w[1] is None:
                    raise ToolError("a text written is not followed")
                st.q = st.q + w[1]
                return it.finish(st, t, ok(UNIT))
            if len(w) == 2 and w[0] is not None and w[1] is not None:
                if s in ("starts_with", "ends_with", "contains"):
                    return it.finish(st, t, mk("k", {"starts_with": w[0].startswith(w[1]), "ends_with": w[0].endswith(w[1]), "contains": w[1] in w[0]}[s]))
                if s in ("strip_suffix", "strip_prefix"):
                    hit = w[0].endswith(w[1]) if s == "strip_suffix" else w[0].startswith(w[1])
                    rest = (w[0][:-len(w[1])] if s == "strip_suffix" else w[0][len(w[1]):]) if hit else None
                    return it.finish(st, t, option_some(mk("k", rest)) if hit else NONE)
                if s in ("trim_end_matches", "trim_start_matches"):
                    y = w[0]
                    while w[1] and (y.endswith(w[1]) if "end" in s else y.startswith(w[1])):
                        y = y[:-len(w[1])] if "end" in s else y[len(w[1]):]
                    return it.finish(st, t, mk("k", y))
                if s in ("eq", "ne"):
                    return it.finish(st, t, mk("k", (w[0] == w[1]) == (s == "eq")))
            if s == "index" and len(a) == 2 and w[0] is not None and a[1].k == "adt" and "Range" in a[1].t[1]:
                n = short(a[1].t[1])
                r = [it.strip(st, y) for y in a[1].t[3]]
                if all(y.k == "k" and isinstance(y.t[1], int) for y in r):
                    i, j = (r[0].t[1], len(w[0])) if n == "RangeFrom" else (0, r[0].t[1]) if n == "RangeTo" else (r[0].t[1], r[-1].t[1])
                    return it.finish(st, t, mk("k", w[0][i:j]))
            if s in ("len", "is_empty") and w and w[0] is not None:
                return it.finish(st, t, mk("k", len(w[0]) if s == "len" else not w[0]))
            if s in ("find", "rfind") and len(w) == 2 and w[0] is not None and w[1] is not None:
                i = getattr(w[0], s)(w[1])
                return it.finish(st, t, option_some(mk("k", i)) if i >= 0 else NONE)
            if s in ("as_str", "deref", "as_ref", "borrow") and w and w[0] is not None:
                return it.finish(st, t, mk("k", w[0]))
            if s == "split_once" and len(w) == 2 and None not in w:
                h, m, r = w[0].partition(w[1])
                return it.finish(st, t, option_some(mk("tup", (mk("k", h), mk("k", r)))) if m else NONE)
            return None

        args = [mk("k", text) if "str" in prog.tys(f, f.locals[i]) else mk("sym", "w") for i in range(1, f.argc + 1)]
        it, ends = values(prog, f, args, hook, q="")
        ctx.analysed(*it.visited_fns)
        rets = [e for e in ends if e.kind == "ret" and not (it.strip(e.state, e.value).k == "adt" and it.strip(e.state, e.value).t[2] == 1)]
        if len(rets) != 1:
            raise ToolError(f"shortening {text} is not followed")
        got = rets[0].state.q
        ctx.count("spellings shortened")
        good = re.fullmatch(r"[+-]?(?:\d+\.\d+|\d+|\.\d+)(?:[eE][+-]?\d+)?", got) is not None and float(got) == x
        ctx.obligation(good, f"shortened: {text}", f.where(), f"{text} is shortened to {got}")
    ctx.floor("spellings shortened", 10)


def lit(v):
    n = 0
    while v.k in ("refv",) and n < 4:
        v, n = v.t[1], n + 1
    if v.k != "k":
        return None
    x = v.t[1]
    if isinstance(x, str):
        return x
    if isinstance(x, tuple) and x and x[0] in ("char", "str"):
        return x[1]
    return None
