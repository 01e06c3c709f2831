"""Reading a value only moves over what was read, and stays on characters of the value."""
from facts import ToolError
from interp import Interp, mk
from terms import walk, RESULT
import chars

TECHNIQUE = "abstract interpretation of the scanner over MIR with symbolic linear positions; call-site obligations for the operations that set the position"
EXPLANATION = (
    "Every operation of the value scanner is followed on all paths with a symbolic value and a symbolic position on a character boundary. "
    "The position it leaves, written as a sum, must be the start, the end, an earlier position, or an earlier position plus the length of "
    "what is known to follow it: the next character, the leading run removed by a trim, or a string the path has compared with what follows. "
    "What an operation returns as read must be the text between the old and the new position, and a failed attempt must put the position back. "
    "Every function anywhere that rewinds or sets the position is followed the same way with the scanner's operations inlined."
)
LEVEL_NOTE = "All paths of every operation and of every function that moves the position itself; parsers called in between are assumed to keep the invariant each of them is checked for."

PARSER = "oxvg_parse::Parser"
SELF = mk("sym", "parser")
INPUT = mk("sym", "INPUT")
START = mk("sym", "position 0")
POS = "position "


# -- linear forms ------------------------------------------------------------------
def linear(v, facts):
    """{atom: coefficient}, with None for the constant."""
    v = peel(v)
    if v.k == "k" and isinstance(v.t[1], int) and not isinstance(v.t[1], bool):
        return {None: v.t[1]} if v.t[1] else {}
    if v.k == "op" and v.t[1] in ("Add", "AddUnchecked", "AddWithOverflow", "Sub", "SubUnchecked", "SubWithOverflow"):
        a, b = linear(v.t[2], facts), linear(v.t[3], facts)
        return plus(a, b, -1 if v.t[1].startswith("Sub") else 1)
    if v.k == "res":
        m = v.t[2].rsplit("::", 1)[-1]
        if m == "len" and "str>" in v.t[2] or v.t[2].endswith("<[T]>::len"):
            s = peel(v.t[3][0])
            if s.k == "res" and s.t[2].endswith("as_bytes"):
                s = peel(s.t[3][0])
            r = span(s, facts)
            if r is not None:
                return plus(dict(r[1]), dict(r[0]), -1)
            if s.k == "k" and isinstance(s.t[1], str):
                n = len(s.t[1].encode())
                return {None: n} if n else {}
            return {mk("res", None, "len", (s,)): 1}
        if m == "len_utf8":
            ch = peel(v.t[3][0])
            c = char_of(ch, facts)
            if c is not None:
                return {None: len(c.encode())}
            return {mk("res", None, "len_utf8", (ch,)): 1}
        if m == "min" and len(v.t[3]) == 2:
            # a position is never beyond the end
            a, b = (linear(x, facts) for x in v.t[3])
            if b == END and valid(a, facts):
                return a
            if a == END and valid(b, facts):
                return b
    return {v: 1}


def char_of(v, facts):
    """The character a value is known to be."""
    val = v.t[1] if v.k == "k" else None
    f = facts.get(v)
    if f and f[0] == "=":
        val = f[1]
    if val is None:
        for t, f in facts.items():
            if f == ("=", True) and t.k == "op" and t.t[1] == "Eq" and v in (t.t[2], t.t[3]):
                o = t.t[3] if t.t[2] is v else t.t[2]
                val = o.t[1] if o.k == "k" else val
    if isinstance(val, tuple) and val[0] == "char":
        return val[1]
    if isinstance(val, int) and not isinstance(val, bool) and 0 <= val < 0x110000 and not 0xd800 <= val < 0xe000:
        return chr(val)
    return None


def plus(a, b, sign=1):
    out = dict(a)
    for k, n in b.items():
        out[k] = out.get(k, 0) + sign * n
        if not out[k]:
            del out[k]
    return out


NAMED = {}  # position symbol -> the linear form it stands for


def name_of(p):
    """A symbol for a position that was found valid."""
    for s, d in NAMED.items():
        if d == p:
            return s
    s = mk("sym", f"{POS}{len(NAMED) + 1}")
    NAMED[s] = dict(p)
    return s


def expand(p, facts, depth=0):
    """A linear form with the named positions written out."""
    out = {}
    for a, n in p.items():
        if a in NAMED and depth < 40:
            sub = expand(refold(NAMED[a], facts), facts, depth + 1)
            out = plus(out, {k: v * n for k, v in sub.items()})
        else:
            out = plus(out, {a: n})
    return out


def refold(p, facts):
    out = {}
    for a, n in p.items():
        l = {a: 1} if a is None or a.k != "res" or a.t[2] != "len_utf8" else linear(a, facts)
        out = plus(out, {k: v * n for k, v in l.items()})
    return out


def same(a, b, facts):
    return a == b or expand(refold(a, facts), facts) == expand(refold(b, facts), facts)


LENGTH = mk("res", None, "len", (INPUT,))
END = {LENGTH: 1}


def peel(v):
    while True:
        if v.k in ("refv", "deref"):
            v = v.t[1]
        elif v.k == "ref" and isinstance(v.t[2], tuple) and v.t[2] and v.t[2][0] == "D" and not v.t[3]:
            v = v.t[2][1]
        else:
            return v


def span(s, facts):
    """(start, end) of a text that is a part of the value, as linear forms."""
    s = peel(s)
    if s is INPUT:
        return {}, dict(END)
    if s.k == "res" and len(s.t[3]) >= 1:
        m = s.t[2].rsplit("::", 1)[-1]
        if m in ("index", "get_unchecked") and len(s.t[3]) == 2 and peel(s.t[3][1]).k == "adt":
            return cut(s.t[3][0], peel(s.t[3][1]), facts)
    x = inside(s)
    if x is not None and x.t[2].endswith("<str>::get") and len(x.t[3]) == 2:
        return cut(x.t[3][0], peel(x.t[3][1]), facts)
    return None


def cut(src, rng, facts):
    base = span(src, facts)
    if base is None or rng.k != "adt":
        return None
    nm, f = rng.t[1].rsplit("::", 1)[-1], rng.t[3]
    a, b = base
    if nm == "Range":
        return plus(a, linear(f[0], facts)), plus(a, linear(f[1], facts))
    if nm == "RangeFrom":
        return plus(a, linear(f[0], facts)), b
    if nm == "RangeTo":
        return a, plus(a, linear(f[0], facts))
    if nm == "RangeFull":
        return a, b
    return None


def is_pos(v):
    return v is not None and v.k == "sym" and isinstance(v.t[1], str) and v.t[1].startswith(POS)


def inside(v):
    """The call whose Some or Ok a value is the content of."""
    v = peel(v)
    if v.k == "fld" and v.t[1].k == "fld":
        v = v.t[1].t[1]
        return v if v.k == "res" and v.t[3] else None
    return None


def first_char_at(ch):
    """The text a character is the first of, if it is one."""
    x = inside(ch)
    if x is not None and x.t[2].endswith("::next"):
        c = peel(x.t[3][0])
        if c.k == "res" and c.t[2].endswith("<str>::chars"):
            return c.t[3][0]
    return None


BLANKS = " \t\n\r"
SOLID = "aZ0-+.,;:()#'\"/\u00e9"
SAMPLE = BLANKS + SOLID
TRIMS = ("trim_start_matches", "trim_start", "trim_ascii_start", "trim_left_matches", "trim_left")


def valid(p, facts):
    """True if a linear form is a character boundary of the value, False if not, None if not understood."""
    r = None
    for _ in range(12):
        r = valid_as(p, facts)
        if r:
            return True
        q = {}
        for a, n in p.items():
            q = plus(q, {k: v * n for k, v in refold(NAMED[a], facts).items()} if a in NAMED else {a: n})
        if q == p:
            break
        p = q
    return r


def valid_as(p, facts):
    if not p or p == END:
        return True
    if len(p) == 1:
        (a, n), = p.items()
        if n == 1 and is_pos(a):
            return True
    unclear = False
    for a, n in p.items():
        if a is None or n not in (1, -1):
            continue
        rest = {k: v for k, v in p.items() if k is not a}
        if a.k == "res" and a.t[2] == "len_utf8" and n == 1:
            src = first_char_at(a.t[3][0])
            if src is not None:
                r = span(src, facts)
                if r is not None and same(r[0], rest, facts):
                    return valid(rest, facts)
        if a.k == "res" and a.t[2] == "len":
            s = peel(a.t[3][0])
            if n == -1 and s.k == "res" and s.t[2].rsplit("::", 1)[-1] in TRIMS:
                # end of the trimmed text minus what is left of it
                r = span(s.t[3][0], facts)
                if r is not None and same(r[1], rest, facts):
                    return valid(r[0], facts)
            x = inside(s)
            if n == -1 and x is not None and x.t[2].endswith("strip_prefix"):
                r = span(x.t[3][0], facts)
                if r is not None and same(r[1], rest, facts):
                    return valid(r[0], facts)
            if n == 1 and follows(rest, s, facts):
                return valid(rest, facts)
        x = inside(a)
        if x is not None and x.t[2].rsplit("::", 1)[-1] in ("find", "rfind") and n == 1:
            r = span(x.t[3][0], facts)
            if r is not None and same(r[0], rest, facts):
                return valid(rest, facts)
        if known_kind(a) is None:
            unclear = True
    # a constant step is fine over a literal that was matched
    if p.get(None, 0) > 0:
        rest = {k: v for k, v in p.items() if k is not None}
        for v, f in facts.items():
            if f == ("=", True) and v.k == "res" and len(v.t[3]) == 2 and v.t[2].endswith(("starts_with",)):
                r = span(v.t[3][0], facts)
                lit = peel(v.t[3][1])
                size = len(lit.t[1].encode()) if lit.k == "k" and isinstance(lit.t[1], str) else \
                    len(lit.t[1][1].encode()) if lit.k == "k" and isinstance(lit.t[1], tuple) and lit.t[1][0] == "char" else None
                if r is not None and same(r[0], rest, facts) and size == p[None]:
                    return valid(rest, facts)
        # or over a character that is known
        for v, f in facts.items():
            src = first_char_at(v)
            if src is not None and char_of(v, facts) is not None:
                r = span(src, facts)
                if r is not None and same(r[0], rest, facts) and len(char_of(v, facts).encode()) == p[None]:
                    return valid(rest, facts)
    return None if unclear else False


def known_kind(a):
    if is_pos(a) or a is LENGTH:
        return True
    if a.k == "res" and (a.t[2] in ("len", "len_utf8") or a.t[2].endswith("::count")):
        return True
    x = inside(a)
    if x is not None and x.t[2].rsplit("::", 1)[-1] in ("find", "rfind"):
        return True
    return None


def follows(at, s, facts):
    """Whether the path knows that the text s stands at a position."""
    for v, f in facts.items():
        if f != ("=", True) or v.k != "res" or len(v.t[3]) != 2:
            continue
        m = v.t[2].rsplit("::", 1)[-1]
        a, b = peel(v.t[3][0]), peel(v.t[3][1])
        if m == "starts_with" and b is s or m == "eq" and s in (a, b):
            other = a if (m == "starts_with" or b is s) else b
            r = span(other, facts)
            if r is not None and same(r[0], at, facts):
                return True
    return False


# -- running -----------------------------------------------------------------------
class Run:
    """Follows one function with a symbolic scanner."""

    def __init__(self, prog, adt, fields):
        self.prog, self.adt, self.fi, self.fc = prog, adt, *fields
        self.used = []

    def parser(self, pos):
        f = [None, None]
        f[self.fi], f[self.fc] = INPUT, pos
        return mk("adt", self.adt.id, 0, tuple(f))

    def opaque(self, f):
        if not f.crate.startswith("oxvg_parse"):
            return True
        return f.argc == 1 and self.prog.local_ty(f, 1)["s"] == "char"

    def run(self, fn, max_states=6000):
        prog = self.prog
        outer = fn

        def mine(it, st, a):
            if a.k == "tup":
                return any(mine(it, st, x) for x in a.t[1])
            return a.k == "ref" and a.t[2] == ("D", SELF) and not a.t[3]

        def hook(it, st, t, name, c, args):
            base = c["fn"]
            if base.startswith(PARSER + "::"):
                m = base.rsplit("::", 1)[-1]
                tgt = prog.get(name)
                if tgt is not None and len(args) == 2 and prog.local_ty(tgt, 2)["s"] == "usize":
                    # an operation that takes a position or a distance
                    v = it.strip(st, args[1])
                    cur = it.read(st, ("D", SELF), ())
                    self.used.append((m, v, cur, dict(st.facts), st.top.fn, t[5], [f.fn.id for f in st.frames]))
                return None
            tgt = prog.get(name)
            if "::ops::function::Fn" in base and peel(it.strip(st, args[0])).k in ("clos", "fn"):
                return None
            inl = tgt is not None and it.can_inline(st, tgt) and not self.opaque(tgt)
            if any(mine(it, st, a) for a in args) and not inl:
                where = f"{st.top.fn.id}:{t[4]}"
                s2 = st
                val = mk("res", None, base, tuple(it.strip(st, x) for x in args if not mine(it, st, x)) + (mk("sym", f"call at {where}"),))
                it.write(s2, ("D", SELF), (), self.parser(mk("sym", POS + where)))
                return it.finish(s2, t, val)
            return None

        def rename(it, st, f, v):
            if f.id.startswith(PARSER + "::") and f.id != outer.id:
                p = self.position(it, st)
                if p is not None and p.k == "op":
                    l = linear(p, st.facts)
                    if valid(l, st.facts):
                        it.write(st, ("D", SELF), (), self.parser(name_of(l)))

        it = Interp(prog, hook=hook, opaque=lambda f: self.opaque(f) and f.kind != "closure" and f.id != outer.id,
                    track=lambda v: True, max_states=max_states, explore_closures=False,
                    on_return=rename)
        it.pure = lambda n: True
        args = []
        for i in range(1, fn.argc + 1):
            ty = prog.local_ty(fn, i)
            if is_parser_ref(prog, fn, ty):
                args.append(mk("ref", True, ("D", SELF), ()))
            else:
                args.append(mk("sym", f"argument {i}"))
        ends = it.run(fn, args=args, mem={("D", SELF): self.parser(START)})
        return it, ends

    def position(self, it, st):
        v = it.read(st, ("D", SELF), ())
        return v.t[3][self.fc] if v.k == "adt" else None


def is_parser_ref(prog, fn, ty):
    if ty["k"] != "ref":
        return False
    inner = prog.types[fn.crate][ty["t"]]
    return inner.get("def") == PARSER


def check(ctx):
    prog = ctx.program("native", ["oxvg_parse.lib", "oxvg_collections.lib", "oxvg_path.lib"])
    adt = prog.adts.get(PARSER)
    if adt is None:
        raise ToolError("the value scanner is gone")
    names = [f[0] for f in adt.variants[0].fields]
    tys = [prog.types[adt.crate][f[1]]["s"] for f in adt.variants[0].fields]
    if len(names) != 2 or "usize" not in tys:
        raise ToolError("the value scanner is not a value and a position")
    fc = tys.index("usize")
    r = Run(prog, adt, (1 - fc, fc))
    methods = [f for f in prog.fns.values() if f.id.startswith(PARSER + "::") and f.kind != "closure" and f.argc >= 1]
    movers = set()
    for f in methods:
        if f.id.endswith("::new"):
            new(ctx, prog, r, f)
            continue
        if not is_parser_ref(prog, f, prog.local_ty(f, 1)):
            continue
        if method(ctx, r, f):
            movers.add(f.id)
    ctx.count("operations", len(methods))
    ctx.floor("operations", 15)
    callers(ctx, r, movers)


def new(ctx, prog, r, f):
    it = Interp(prog, opaque=lambda g: True, track=lambda v: True, max_states=100)
    for e in it.run(f, args=[INPUT]):
        v = it.strip(e.state, e.value)
        ok = v.k == "adt" and v.t[3][r.fc].k == "k" and v.t[3][r.fc].t[1] == 0 and peel(v.t[3][r.fi]) is INPUT
        ctx.obligation(ok, "new", f.where(), "a new scanner does not start at the beginning of its value")


def text(p):
    if p is None:
        return "?"
    parts = []
    for a, n in p.items():
        s = str(n) if a is None else ("-" if n == -1 else "" if n == 1 else f"{n}*") + (repr(a) if len(repr(a)) < 80 else repr(a)[:77] + "...")
        parts.append(s)
    return " + ".join(parts) or "0"


def method(ctx, r, f):
    """Checks one operation; returns whether it takes a position or distance its callers are responsible for."""
    name = f.id.rsplit("::", 1)[-1]
    try:
        r.used = []
        it, ends = r.run(f)
    except ToolError as e:
        ctx.undecide(f.id, e)
        return False
    ctx.analysed(*it.visited_fns)
    takes = [i for i in range(2, f.argc + 1) if r.prog.local_ty(f, i)["s"] == "usize"]
    mover = bool(takes)
    for e in ends:
        if e.kind != "ret":
            continue
        facts = e.state.facts
        p = r.position(it, e.state)
        if p is None:
            ctx.undecide(f.id, "the position is not followed")
            continue
        p = linear(p, facts)
        if mover and any(a is not None and a.k == "sym" and str(a.t[1]).startswith("argument") for a in p):
            continue
        ok = valid(p, facts)
        ctx.count("paths")
        if ok is None:
            ctx.undecide(f"{name}: position", text(p))
        else:
            ctx.obligation(ok, f"{name}: position", f.where(), f"{name} can leave the position at {text(p)}, which need not be a character boundary of the value after what was read")
        returned(ctx, r, it, f, name, e, p)
        contract(ctx, r, it, f, name, e, p)
    return mover


def returned(ctx, r, it, f, name, e, p):
    if not p or same(p, {START: 1}, e.state.facts):
        return
    v = it.strip(e.state, e.value)
    if v.k == "adt" and v.t[1] == RESULT:
        if v.t[2] == 1:
            return
        v = v.t[3][0]
    s = span(v, e.state.facts)
    if s is None:
        return
    ctx.obligation(same(s[0], {START: 1}, e.state.facts) and same(s[1], p, e.state.facts), f"{name}: text", f.where(),
                   f"{name} returns the text from {text(s[0])} to {text(s[1])} but moves from {text({START: 1})} to {text(p)}")


def holds(facts, want):
    return any(want(v, f) for v, f in facts.items())


def contract(ctx, r, it, f, name, e, p):
    facts = e.state.facts
    v = it.strip(e.state, e.value)
    ok = v.k == "adt" and v.t[1] == RESULT and v.t[2] == 0
    err = v.k == "adt" and v.t[1] == RESULT and v.t[2] == 1
    say = lambda good, key, msg: ctx.obligation(good, f"{name}: {key}", f.where(), f"{name}: {msg}")
    start = {START: 1}
    p = expand(refold(p, facts), facts)
    if name == "try_parse":
        # the attempt's result decides
        out = None
        for t, fc in facts.items():
            if t.k == "discr" and peel(t.t[1]) is peel(v):
                out = 0 if fc == ("=", 0) or fc[0] == "!" and 1 in fc[1] else 1 if fc == ("=", 1) or fc[0] == "!" and 0 in fc[1] else None
        if ok or err:
            out = v.t[2]
        if out == 1:
            say(p == start, "restores", "a failed attempt does not put the position back")
        elif out == 0:
            say(p != start, "keeps", "a successful attempt is undone")
        else:
            say(p != start, "keeps", "the position is put back whatever the outcome of the attempt") if p == start else \
                say(False, "restores", "a failed attempt does not put the position back")
    elif name in ("read", "current") and ok:
        src = first_char_at(peel(v.t[3][0]))
        s = span(src, facts) if src is not None else None
        say(s is not None and same(s[0], start, facts), "character", "what is returned is not the character at the position")
        if name == "read":
            say(p != start, "moves", "the character read is not passed over")
    elif name == "advance":
        end = holds(facts, lambda t, fc: t.k == "discr" and (fc == ("=", 0) or fc[0] == "!" and 1 in fc[1]))
        say(p != start or end, "moves", "the position does not move over the character")
    elif name in ("done", "take_slice"):
        say(p == END, "end", "the position is not moved to the end")
    elif name == "len":
        say(linear(v, facts) == plus(END, start, -1), "length", f"the length of what is left is given as {text(linear(v, facts))}")
    elif name == "slice":
        say(span(v, facts) == (start, END), "rest", "what is left is not the text from the position to the end")
    elif name == "expect_done" and (ok or err):
        done = None
        for t, fc in facts.items():
            if t.k == "op" and fc[0] == "=":
                done = at_end(t, fc[1], facts, start)
        if done is None:
            ctx.undecide("expect_done", "the comparison with the end is not understood")
        else:
            say(done is ok, "end", f"{'accepts a value that is not read to its end' if ok else 'refuses a value that is read to its end'}")
    elif name == "expect_char" and (ok or err):
        eq = None
        for t, fc in facts.items():
            if t.k == "op" and t.t[1] in ("Eq", "Ne") and fc[0] == "=" and any(x.k == "sym" and x.t[1] == "argument 2" for x in (t.t[2], t.t[3])):
                eq = fc[1] == (t.t[1] == "Eq")
        if ok:
            say(eq is True, "compares", "accepts a character other than the one expected")
            say(p != start, "moves", "the expected character is not passed over")
        elif eq is True:
            say(False, "compares", "refuses the character expected")
    elif name in ("expect_str",) and (ok or err):
        arg = mk("sym", "argument 2")
        if ok:
            say(p == plus(start, {mk("res", None, "len", (arg,)): 1}), "moves", "the expected text is not what is passed over")
        else:
            say(p == start, "stays", "the position moves although the text was not found")
    elif name == "expect_ident_matching" and (ok or err):
        arg = mk("sym", "argument 2")
        eq = None
        for t, fc in facts.items():
            m = t.t[2].rsplit("::", 1)[-1] if t.k == "res" else None
            if m in ("eq", "ne") and fc[0] == "=" and arg in walk(t):
                other = [a for a in t.t[3] if peel(a) is not arg]
                eq = fc[1] == (m == "eq")
                s = span(peel(other[0]), facts) if len(other) == 1 else None
                if ok and s is not None:
                    say(same(s[0], start, facts), "compares", "compares something other than the word read")
        if ok:
            say(eq is True, "compares", "accepts a word other than the one expected")
        elif eq is True:
            say(False, "compares", "refuses the word expected")
    elif name in ("skip_matches", "take_matches", "skip_char", "skip_whitespace"):
        trims = [x for a in p if a is not None for x in walk(a) if x.k == "res" and x.t[2].rsplit("::", 1)[-1] in TRIMS]
        if len(trims) != 1:
            ctx.undecide(name, "the leading run is not found by one trim")
            return
        x = trims[0]
        m = x.t[2].rsplit("::", 1)[-1]
        if name == "skip_whitespace":
            pred = peel(x.t[3][1]) if len(x.t[3]) > 1 else None
            tab = chars.table(r.prog, pred, SAMPLE) if pred is not None else {c: True for c in BLANKS}
            if tab is None or None in tab.values():
                ctx.undecide(name, "the test for white space could not be evaluated")
            else:
                say(all(tab[c] for c in BLANKS) and not any(tab.get(c) for c in SOLID), "predicate", "something other than white space is skipped, or some white space is not")
        else:
            say(len(x.t[3]) > 1 and any(y.k == "sym" and y.t[1] == "argument 2" for y in walk(x.t[3][1])), "predicate", "what is skipped does not depend on the argument")


def at_end(t, val, facts, start):
    """Whether a comparison that came out as val says that the position is the end; None if it does not, 'wrong' if it says something else."""
    d = plus(linear(t.t[3], facts), linear(t.t[2], facts), -1)
    left = plus(END, start, -1)
    for sign in (1, -1):
        c = plus(d, {k: sign * n for k, n in left.items()}, -1)
        if set(c) <= {None}:
            c = c.get(None, 0)
            test = {"Lt": lambda x: x > 0, "Le": lambda x: x >= 0, "Gt": lambda x: x < 0, "Ge": lambda x: x <= 0, "Eq": lambda x: x == 0, "Ne": lambda x: x != 0}.get(t.t[1])
            if test is None:
                return None
            got = [test(sign * n + c) for n in range(5)]
            if got[0] in got[1:] or len(set(got[1:])) > 1:
                return "wrong"
            return val == got[0]
    return None


def callers(ctx, r, movers):
    """Functions outside of the scanner that set or rewind the position or name one."""
    prog = r.prog
    sites = set()
    for f in prog.fns.values():
        if f.id.startswith(PARSER + "::"):
            continue
        for _, t in f.calls():
            if t[1][0] == "k" and (t[1][1].get("res") or t[1][1]["fn"]) in movers:
                # closures are followed from the function they belong to
                sites.add(f.id.split("::{closure")[0])
    ctx.count("moving_functions", len(sites))
    for s in sorted(sites):
        f = prog.fns.get(s)
        if f is None:
            ctx.undecide(s, "not found")
            continue
        r.used = []
        try:
            it, ends = r.run(f, max_states=20000)
        except ToolError as e:
            ctx.undecide(f.id, e)
            continue
        ctx.analysed(f.id)
        if not r.used:
            ctx.undecide(f.id, "no use of the position was reached")
        for m, v, cur, facts, fn, line, frames in r.used:
            if fn.id.startswith(PARSER + "::") or cur.k != "adt":
                continue
            before = linear(cur.t[3][r.fc], facts)
            given = linear(v, facts)
            if m == "rewind":
                after = plus(before, given, -1)
            else:
                after = given
            ok = valid(after, facts)
            ctx.count("uses")
            if ok is None:
                ctx.undecide(f"{fn.id}: {m}", text(after))
                continue
            ctx.obligation(ok, f"{fn.id}: {m}", fn.where(line), f"{m} goes to {text(after)}, which need not be a character boundary already passed over")

