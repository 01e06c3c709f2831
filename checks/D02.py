"""D02: path data is only rewritten in ways that the style of the path and the options of the job allow."""
import itertools

from facts import ToolError
from interp import Interp, mk, UNIT
from terms import some as option_some, NONE, OPTION, RESULT
from A02 import guarded
from J05 import short

TECHNIQUE = "abstract interpretation over MIR: the rewritings a job asks for are followed for every class of computed style, and each rewriting's gate is followed for every set of rewritings"
EXPLANATION = (
    "Every job that rewrites path data is followed for each class of computed stroke, line cap, line join and markers: absent, unreadable, inherited, each defined value, applied always or under a condition. "
    "The rewritings it asks for must not contain one that is documented as visible under that style, and with no such style all of them must be asked for. "
    "The job is followed with each of its options off: the rewriting it names must then not be asked for. "
    "Carrying out is followed for each single rewriting and for all but one: a step must be carried out exactly when its rewriting was asked for."
)
LEVEL_NOTE = "All values of the style properties concerned, up to three of them changed together (all four markers together). That each rewriting itself keeps the shape is numeric and not decided."

OPT = "oxvg_path::optimize::Options"
ATTR = "oxvg_collections::attribute::Attr"
INH = "oxvg_collections::attribute::inheritable::Inheritable"
MODE = "oxvg_ast::style::Mode"
SVG = "lightningcss::properties::svg::"
VALUES = {"Stroke": SVG + "SVGPaint", "StrokeLinecap": SVG + "StrokeLinecap", "StrokeLinejoin": SVG + "StrokeLinejoin", "FillRule": "lightningcss::values::shape::FillRule",
          "Marker": SVG + "Marker", "MarkerStart": SVG + "Marker", "MarkerMid": SVG + "Marker", "MarkerEnd": SVG + "Marker"}
# rewriting -> option of the job; only what cannot be told from the names
STEPS = {"CloseSegments": ("close_segments",), "StraightCurves": ("straight_curves",), "ArcCurves": ("arc_curves",), "RemoveNoopCommands": ("remove_noop_commands",),
         "JoinNodes": ("join_nodes",), "RemoveCloseLine": ("remove_close_line",), "RemoveEmptySegments": ("remove_empty_segments",), "UniteSegments": ("union",)}
FIELDS = {"close_segments": "CloseSegments", "unite_segments": "UniteSegments", "join_nodes": "JoinNodes", "remove_empty_segments": "RemoveEmptySegments",
          "remove_zero_segments": "RemoveNoopCommands", "remove_close_line": "RemoveCloseLine", "straight_curves": "StraightCurves", "arc_curves": "ArcCurves",
          "smart_arc_rounding": "SmartArcRounding"}


class Bits(Interp):
    """Numbers made of known booleans are known."""

    def rvalue(self, st, r):
        v = super().rvalue(st, r)
        if r[0] == "cast" and v.k == "cast":
            x = v.t[1]
            if x.k != "k":
                y = self.lookup(st, x)
                x = mk("k", y) if isinstance(y, bool) else x
            if x.k == "k" and isinstance(x.t[1], bool):
                return mk("k", int(x.t[1]))
        if r[0] == "un" and r[1] == "Not" and v.k == "un" and v.t[2].k == "k" and isinstance(v.t[2].t[1], int):
            return mk("k", v.t[2].t[1] ^ 0xFFFF)
        return v


def check(ctx):
    prog = ctx.program("native", ["oxvg_optimiser.lib", "oxvg_path.lib", "oxvg_ast.lib", "oxvg_collections.lib"])
    if OPT not in prog.adts:
        raise ToolError("the set of rewritings is gone")
    flags = {}
    for k, r in prog.consts.items():
        if k.startswith(OPT + "::") and isinstance(r["v"], dict):
            flags[k[len(OPT) + 2:]] = number(r["v"])
    single = {n: b for n, b in flags.items() if b and b & (b - 1) == 0 and n in set(FIELDS.values())}
    ctx.count("rewritings", len(single))
    ctx.floor("rewritings", 9)
    ctx.obligation(len(set(single.values())) == len(single), "rewritings: told apart", "crates/oxvg_path/src/optimize.rs", "two rewritings are the same bit")
    missing = [x for x in list(VALUES.values()) + [ATTR, INH, MODE] if x not in prog.adts]
    if missing:
        raise ToolError(f"{short(missing[0])} is gone")
    jobs = [f for f in prog.fns.values() if f.itrait and f.itrait.endswith("::Visitor") and short(f.id) == "element" and f.crate.startswith("oxvg_optimiser") and asks(prog, f)]
    ctx.count("jobs", len(jobs))
    ctx.floor("jobs", 1)
    for f in jobs:
        guarded(ctx, f"job {name(f)}", lambda: job(ctx, prog, f, single))
    guarded(ctx, "carrying out", lambda: carried(ctx, prog, single))


def name(f):
    return f.id.split(" as ")[0].lstrip("<").rsplit("::", 1)[-1]


def number(v):
    while isinstance(v, dict) and v.get("fields"):
        v = v["fields"][0]
    return v if isinstance(v, int) else None


def optimizers(prog):
    return {f.id for f in prog.fns.values() if f.id.startswith("oxvg_path::") and f.kind in ("fn", "method") and f.pub and f.argc == 3
            and any(prog.tys(f, f.locals[i]) == OPT for i in range(1, 4)) and "segment" not in f.id and not f.id.startswith(OPT)}


def asks(prog, f, seen=None):
    seen = seen if seen is not None else set()
    if f.id in seen:
        return False
    seen.add(f.id)
    for _, t in f.calls():
        c = t[1][1] if t[1][0] == "k" else None
        for n in (c.get("res"), c.get("fn")) if isinstance(c, dict) else ():
            if n in optimizers(prog):
                return True
            g = prog.fns.get(n)
            if g is not None and g.crate.startswith("oxvg_optimiser") and asks(prog, g, seen):
                return True
    return False


def bits(it, st, v):
    v = it.strip(st, v)
    for _ in range(6):
        if v.k == "refv":
            v = v.t[1]
        elif v.k == "adt" and v.t[1].startswith("oxvg_path::optimize") and len(v.t[3]) == 1:
            v = v.t[3][0]
        else:
            break
    if v.k == "k" and isinstance(v.t[1], int) and not isinstance(v.t[1], bool):
        return v.t[1]
    return None


def flag_ops(prog, single):
    """Models of the operations on sets of rewritings (generated code)."""
    every = 0
    for b in single.values():
        every |= b
    internal = None
    for a in prog.adts:
        if a.startswith("oxvg_path::optimize") and a.endswith("InternalBitFlags"):
            internal = a

    def made(n):
        n = mk("k", n)
        return mk("adt", OPT, 0, (mk("adt", internal, 0, (n,)) if internal else n,))

    two = {"union": lambda a, b: a | b, "intersection": lambda a, b: a & b, "difference": lambda a, b: a & ~b & 0xFFFF, "symmetric_difference": lambda a, b: a ^ b,
           "bitor": lambda a, b: a | b, "bitand": lambda a, b: a & b, "bitxor": lambda a, b: a ^ b, "sub": lambda a, b: a & ~b & 0xFFFF}
    change = {"insert": two["union"], "remove": two["difference"], "toggle": two["bitxor"], "bitor_assign": two["union"], "bitand_assign": two["intersection"],
              "bitxor_assign": two["bitxor"], "sub_assign": two["difference"]}

    def hook(it, st, t, nm, c, args):
        full = (c.get("res") or "") + " " + c["fn"]
        if "oxvg_path::optimize::" not in full or not ("Options" in full):
            return None
        s = short(c["fn"])
        if s == "all":
            return it.finish(st, t, made(every))
        if s == "empty":
            return it.finish(st, t, made(0))
        n = [bits(it, st, a) for a in args]
        if s in ("bits", "from_bits_retain", "from_bits_truncate", "complement", "not", "clone", "contains", "intersects", "is_empty", "is_all", "set") or s in two or s in change:
            if n[0] is None or (s in two or s in change or s in ("contains", "intersects", "set")) and n[1] is None:
                raise ToolError("the set of rewritings is not followed")
        else:
            return None
        if s == "bits":
            return it.finish(st, t, mk("k", n[0]))
        if s in ("from_bits_retain", "clone"):
            return it.finish(st, t, made(n[0]))
        if s == "from_bits_truncate":
            return it.finish(st, t, made(n[0] & every))
        if s in ("complement", "not"):
            return it.finish(st, t, made(~n[0] & every))
        if s == "contains":
            return it.finish(st, t, mk("k", n[0] & n[1] == n[1]))
        if s == "intersects":
            return it.finish(st, t, mk("k", n[0] & n[1] != 0))
        if s == "is_empty":
            return it.finish(st, t, mk("k", n[0] == 0))
        if s == "is_all":
            return it.finish(st, t, mk("k", n[0] & every == every))
        if s in two:
            return it.finish(st, t, made(two[s](n[0], n[1])))
        ref = args[0]
        if ref.k != "ref":
            raise ToolError("the set of rewritings changed is not followed")
        if s == "set":
            v = it.strip(st, args[2])
            if v.k != "k" or not isinstance(v.t[1], bool):
                y = it.lookup(st, v)
                if not isinstance(y, bool):
                    on, off = st.copy(), st.copy()
                    out = []
                    for x, val in ((on, True), (off, False)):
                        if it.assume(x, v, val) is False:
                            continue
                        it.write(x, ref.t[2], ref.t[3], made(n[0] | n[1] if val else n[0] & ~n[1] & 0xFFFF))
                        out += it.finish(x, t, UNIT)
                    return out
                v = mk("k", y)
            new = n[0] | n[1] if v.t[1] else n[0] & ~n[1] & 0xFFFF
        else:
            new = change[s](n[0], n[1])
        it.write(st, ref.t[2], ref.t[3], made(new))
        return it.finish(st, t, UNIT)

    return hook, made


# -- styles ---------------------------------------------------------------------

def classes(prog, attr):
    """(description, value given by the computed style) for every class of the property."""
    ai = [i for i, v in enumerate(prog.adts[ATTR].variants) if v.name == attr]
    up = [i for i, v in enumerate(prog.adts[ATTR].variants) if v.name == "Unparsed"]
    if not ai or not up:
        raise ToolError(f"attribute {attr} is gone")
    out = [(("absent",), NONE)]
    modes = {v.name: i for i, v in enumerate(prog.adts[MODE].variants)}
    inh = {v.name: i for i, v in enumerate(prog.adts[INH].variants)}
    for m, mi in modes.items():
        mv = mk("adt", MODE, mi, ())
        n = len(prog.adts[ATTR].variants[up[0]].fields)
        out.append((("unreadable", m), option_some(mk("tup", (mk("adt", ATTR, up[0], tuple(mk("sym", f"unparsed.{j}") for j in range(n))), mv)))))
        vals = [("inherit", mk("adt", INH, inh["Inherited"], ()))]
        e = VALUES[attr]
        for i, v in enumerate(prog.adts[e].variants):
            vals.append((v.name, mk("adt", INH, inh["Defined"], (mk("adt", e, i, tuple(mk("sym", f"{attr}.{v.name}.{j}") for j in range(len(v.fields)))),))))
        for d, v in vals:
            out.append(((d, m), option_some(mk("tup", (mk("adt", ATTR, ai[0], (v,)), mv)))))
    return out


def shown(cl, none):
    """Whether a property of this class may take effect."""
    return cl[0] != "absent" and not (cl[0] == none and cl[1] == "Static")


def forbidden(cls):
    """Rewritings that are documented as visible under these classes: {rewriting: why}."""
    out = {}
    stroke = shown(cls["Stroke"], "None")
    cap, join = cls["StrokeLinecap"], cls["StrokeLinejoin"]
    if stroke:
        if not (cap in (("Round", "Static"), ("Square", "Static")) and join == ("Round", "Static")):
            out["CloseSegments"] = "a stroke"
        out["UniteSegments"] = "a stroke"
        out["RemoveCloseLine"] = "a stroke"
        if shown(cap, "Butt"):
            out["RemoveNoopCommands"] = "a stroke with a line cap"
    every = shown(cls["Marker"], "None")
    for m, more in (("MarkerStart", ()), ("MarkerMid", ("CloseSegments", "JoinNodes", "RemoveCloseLine")), ("MarkerEnd", ("CloseSegments", "RemoveCloseLine"))):
        if every or shown(cls[m], "None"):
            for x in ("UniteSegments", "RemoveEmptySegments") + more:
                out.setdefault(x, "a marker")
    return out


def plans(prog):
    table = {a: classes(prog, a) for a in VALUES}
    seen = set()

    def plan(**kw):
        return tuple((a, kw.get(a, table[a][0])) for a in VALUES)

    out = []

    def add(p):
        k = tuple(c[0] for _, c in p)
        if k not in seen:
            seen.add(k)
            out.append(p)
    for s, c, j in itertools.product(table["Stroke"], table["StrokeLinecap"], table["StrokeLinejoin"]):
        add(plan(Stroke=s, StrokeLinecap=c, StrokeLinejoin=j))
    few = (("absent",), ("None", "Static"), ("Url", "Static"), ("Url", "Dynamic"))
    for ms in itertools.product(table["Marker"], *([x for x in table[a] if x[0] in few] for a in ("MarkerStart", "MarkerMid", "MarkerEnd"))):
        add(plan(Marker=ms[0], MarkerStart=ms[1], MarkerMid=ms[2], MarkerEnd=ms[3]))
    strokes = [x for x in table["Stroke"] if x[0] in (("absent",), ("Color", "Static"), ("None", "Static"))]
    rounds = [x for x in table["StrokeLinecap"] if x[0] in (("absent",), ("Round", "Static"))]
    joins = [x for x in table["StrokeLinejoin"] if x[0] == ("Round", "Static")]
    for m in ("Marker", "MarkerStart", "MarkerMid", "MarkerEnd"):
        for x, s, c in itertools.product(table[m], strokes, rounds):
            add(plan(Stroke=s, StrokeLinecap=c, StrokeLinejoin=joins[0], **{m: x}))
    for x, s in itertools.product(table["FillRule"], strokes):
        add(plan(FillRule=x, Stroke=s))
    return out


# -- the job --------------------------------------------------------------------

def job(ctx, prog, f, single):
    own = prog.local_ty(f, 1)
    ty = own["s"].lstrip("&")
    adt = prog.adts.get(ty)
    if adt is None:
        raise ToolError("the options of the job are not followed")
    fields = adt.variants[0].fields
    opts = [(i, x[0]) for i, x in enumerate(fields) if prog.ty(adt.crate, x[1])["s"] == "bool"]
    who = name(f)

    def follow(styles, off):
        ops, made = flag_ops(prog, single)
        me = mk("adt", ty, 0, tuple(mk("k", n != off) if (i, n) in opts else mk("sym", f"option {n}") for i, (n, *_) in enumerate(fields)))
        asked = optimizers(prog)

        def hook(it, st, t, nm, c, args):
            full = (c.get("res") or ""), c["fn"]
            s = short(c["fn"])
            if any(x in asked for x in full):
                n = [bits(it, st, a) for a in args]
                n = [x for x in n if x is not None]
                if len(n) != 1:
                    raise ToolError("the rewritings asked for are not followed")
                st.q = st.q | {("asked", n[0])}
                return it.finish(st, t, mk("sym", "rewritten"))
            if "oxvg_ast::style::ComputedStyles" in " ".join(full):
                if s == "get" and len(args) == 2:
                    k = it.strip(st, args[1])
                    k = k.t[1] if k.k == "refv" else k
                    if k.k != "adt":
                        raise ToolError("the style property asked for is not followed")
                    a = prog.adts[k.t[1]].variants[k.t[2]].name
                    return it.finish(st, t, styles.get(a, NONE))
                if s in ("with_all", "default") or s.startswith("with_"):
                    v = mk("sym", "styles")
                    return it.finish(st, t, mk("adt", RESULT, 0, (v,)) if returns_result(prog, c) else v)
            if s in ("le", "lt", "ge", "gt") and "PartialOrd" in c["fn"]:
                # whether something is logged
                return it.finish(st, t, mk("k", False))
            if s in ("is_none_or", "is_some_and") and c["fn"].startswith("core::option::Option::"):
                v = it.strip(st, args[0])
                if v.k == "adt" and v.t[1] == OPTION:
                    if v.t[2] == 0:
                        return it.finish(st, t, mk("k", s == "is_none_or"))
                    return it.call_closure(st, t, args[1], [v.t[3][0]], "closure")
            if s == "has_attribute":
                return it.finish(st, t, mk("k", True))
            if s.startswith("get_attribute") and "oxvg_ast::element" in c["fn"]:
                return it.finish(st, t, option_some(mk("sym", "attribute")))
            return ops(it, st, t, nm, c, args)
        it = Bits(prog, hook=hook, max_states=3000)
        ends = it.run(f, args=[mk("refv", me)] + [mk("sym", f"arg{i}") for i in range(2, f.argc + 1)], q=frozenset())
        return it, [e for e in ends if e.kind == "ret"]

    table = plans(prog)

    def work(_, i):
        p = table[i]
        it, ends = follow({a: c[1] for a, c in p}, None)
        got = {x[1] for e in ends for x in e.state.q if x[0] == "asked"}
        return i, sorted(got), sorted(it.visited_fns)

    work(ctx, 0)
    res = list(ctx.parallel(list(range(len(table))), work))
    ctx.count("classes of styles", len(table))
    ctx.floor("classes of styles", 500)
    plain = None
    bad = {}
    some_asked = 0
    for i, got, fns in res:
        ctx.analysed(*fns)
        some_asked += bool(got)
        cls = {a: c[0] for a, c in table[i]}
        no = forbidden(cls)
        for n, why in no.items():
            b = single[n]
            bad.setdefault((n, why), [])
            if any(g & b for g in got):
                bad[(n, why)].append(", ".join(f"{a} {' '.join(c).lower()}" for a, c in cls.items() if c != ("absent",)))
        if all(c == ("absent",) for c in cls.values()):
            plain = got
    if some_asked != len(table):
        raise ToolError("the job is not seen to rewrite path data")
    for (n, why), l in sorted(bad.items()):
        ctx.obligation(not l, f"{who}: {n} with {why}", f.where(), f"asks for {n} on a path that may have {why}" + (f" (for example {min(l, key=len)})" if l else ""))
    want = 0
    for b in single.values():
        want |= b
    ctx.obligation(plain is not None and all(g == want for g in plain), f"{who}: nothing visible", f.where(),
                   "leaves out " + ", ".join(n for n, b in single.items() if any(not g & b for g in plain or ())) + " on a path without stroke and markers")
    off = 0
    for i, n in opts:
        if n not in FIELDS or FIELDS[n] not in single:
            continue
        it, ends = follow({}, n)
        got = {x[1] for e in ends for x in e.state.q if x[0] == "asked"}
        off += 1
        b = single[FIELDS[n]]
        ctx.obligation(bool(got) and not any(g & b for g in got), f"{who}: {n} off", f.where(), f"asks for {FIELDS[n]} although {n} is off")
        ctx.obligation(bool(got) and all(g | b == want for g in got), f"{who}: others with {n} off", f.where(), f"leaves out more than {FIELDS[n]} when {n} is off")
    ctx.count("options of the job", off)
    ctx.floor("options of the job", 9)


def returns_result(prog, c):
    g = prog.fns.get(c.get("res")) or prog.fns.get(c["fn"])
    return g is not None and prog.tys(g, g.locals[0]).startswith(RESULT)


# -- carrying out ---------------------------------------------------------------

def carried(ctx, prog, single):
    want = 0
    for b in single.values():
        want |= b
    step = {s: n for n, ss in STEPS.items() for s in ss if n in single}
    seen = set()
    for fid in sorted(optimizers(prog)):
        f = prog.fns[fid]
        at = [i for i in range(1, 4) if prog.tys(f, f.locals[i]) == OPT][0]
        sets = [0, want] + [b for b in single.values()] + [want & ~b for b in single.values()]
        mine = set()
        rows = []
        for s in sets:
            ops, made = flag_ops(prog, single)

            def hook(it, st, t, nm, c, args):
                g = prog.fns.get(c.get("res")) or prog.fns.get(c["fn"])
                if g is not None and g.id.startswith("oxvg_path::") and short(g.id) in step and g.id not in optimizers(prog):
                    st.q = st.q | {("step", short(g.id))}
                    return it.finish(st, t, mk("sym", "stepped"))
                r = ops(it, st, t, nm, c, args)
                if r is not None:
                    return r
                if g is not None and g.id.startswith("oxvg_path::") and not any(prog.tys(g, g.locals[i]) == OPT for i in range(1, g.argc + 1)):
                    return it.opaque_call(st, t, nm, args, c)
                return None
            it = Bits(prog, hook=hook, max_states=3000)
            args = [made(s) if i == at else mk("sym", f"arg{i}") for i in range(1, 4)]
            ends = [e for e in it.run(f, args=args, q=frozenset()) if e.kind == "ret"]
            ctx.analysed(*it.visited_fns)
            ctx.count("sets of rewritings carried out")
            for e in ends:
                done = {step[x[1]] for x in e.state.q if x[0] == "step"}
                mine |= done
                rows.append((s, done))
            if not ends:
                raise ToolError(f"{short(fid)} is not followed to its end")
        seen |= mine
        who = "::".join(fid.split("::")[-3:])
        for n in sorted(mine):
            b = single[n]
            ctx.obligation(all(n not in done for s, done in rows if not s & b), f"{who}: {n} when not asked for", f.where(), f"carries out {n} although it was not asked for")
            ctx.obligation(all(n in done for s, done in rows if s & b), f"{who}: {n} when asked for", f.where(), f"does not carry out {n} although it was asked for")
    lost = [n for n in STEPS if n in single and n not in seen]
    if lost:
        raise ToolError(f"no step is seen to carry out {', '.join(lost)}")
