"""A job that is switched off does nothing, and options left out mean the defaults."""
from facts import ToolError
from interp import Interp, mk
from terms import walk, RESULT, NONE

TECHNIQUE = "abstract interpretation over MIR: the preparation of every switchable job per value of its switch; the derived deserialiser of every job's options with no option given, compared with the default value"
EXPLANATION = (
    "For every job that is a plain switch, the preparation is followed on all paths with the switch off: it must say skip without having touched the document "
    "(or else no callback of the job may touch it). With the switch on some path must go on. For every job with options the deserialiser "
    "is followed for a mapping without entries: each field that may be left out must get the value it has in the default of the job."
)
LEVEL_NOTE = "All jobs found by their type; all paths. Mandatory options are left out of the comparison."

JOBS = "oxvg_optimiser::jobs::"
VISITOR = "oxvg_ast::visitor::Visitor"
OUTCOME = "oxvg_ast::visitor::PrepareOutcome"
ZERO = {"bool": mk("k", False), "f64": mk("k", 0.0), "f32": mk("k", 0.0), "usize": mk("k", 0), "u8": mk("k", 0), "i32": mk("k", 0), "u32": mk("k", 0)}
REQUIRED = mk("sym", "mandatory")
MUTATE = ("remove", "remove_attribute", "set_attribute", "set_local_name", "flatten", "retain", "retain_children", "append_child", "append", "insert", "insert_before", "insert_after",
          "replace_child", "replace_with", "replace_children", "remove_child", "set_text_content", "empty", "sort_by", "clear", "set_attributes", "remove_named_item", "set_named_item", "attributes_mut", "item_mut", "get_named_item_mut")


def short(n):
    return n.rsplit("::", 1)[-1]


def check(ctx):
    prog = ctx.program("native", ["oxvg_optimiser.lib", "oxvg_ast.lib"])
    jobs = sorted({f.id[1:].split(" as ")[0] for f in prog.fns.values() if f.itrait == VISITOR and f.id.startswith("<" + JOBS)})
    skip = skip_bit(prog)
    n = 0
    for j in jobs:
        a = prog.adts.get(j)
        if a is None or a.kind != "struct" or len(a.variants[0].fields) != 1:
            continue
        field, ty = a.variants[0].fields[0][:2]
        if not field.isdigit() or prog.types[a.crate][ty]["s"] != "bool":
            continue
        n += 1
        switch(ctx, prog, j, skip)
    ctx.count("switches", n)
    ctx.floor("switches", 10)
    m = 0
    for f in list(prog.fns.values()):
        if f.kind == "closure" or short(f.id) != "visit_map" or not f.id.startswith("<<" + JOBS):
            continue
        ty = f.id[2:].split(" as ")[0]
        if ty not in jobs:
            continue
        m += 1
        options(ctx, prog, ty, f)
    ctx.count("option sets", m)
    ctx.floor("option sets", 15)


def skip_bit(prog):
    f = prog.get(OUTCOME + "::can_skip")
    if f is None:
        raise ToolError("the outcome that skips a job is gone")
    found = set()

    def hook(it, st, t, name, c, args):
        if short(c["fn"]) in ("contains", "intersects"):
            found.add(bits(it.strip(st, args[1])))
            return it.finish(st, t, mk("k", True))
        return None
    Interp(prog, hook=hook, opaque=lambda g: True, track=lambda v: False).run(f)
    if len(found) != 1:
        raise ToolError("which outcome skips a job is unclear")
    return found.pop()


def bits(v):
    ks = [x.t[1] for x in walk(v) if x.k == "k" and isinstance(x.t[1], int) and not isinstance(x.t[1], bool)]
    return ks[0] if len(ks) == 1 else None


def switch(ctx, prog, job, skip):
    name = short(job)
    prep = prog.get(f"<{job} as {VISITOR}>::prepare")
    callbacks = [f for f in prog.fns.values() if f.itrait == VISITOR and f.id.startswith(f"<{job} as ") and f.kind != "closure" and short(f.id) != "prepare"]

    def run(f, on):
        touched = []

        def hook(it, st, t, n, c, args):
            base = c["fn"]
            if base.startswith("log::") or "<log::" in base or "<log::" in n:
                return it.finish(st, t, mk("k", False))
            if base.startswith("oxvg_ast::") and not base.startswith("oxvg_ast::visitor::") and short(base) in MUTATE:
                touched.append((st.top.fn.where(t[5]), short(base)))
            if base.startswith(VISITOR + "::") or f" as {VISITOR}>" in base:
                touched.append((st.top.fn.where(t[5]), short(base)))
                return it.opaque_call(st, t, n, args, c)
            return None
        it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((JOBS, "<" + JOBS)) and OUTCOME not in g.id and "_::InternalBitFlags" not in g.id, track=lambda v: True, max_states=20000)
        ends = it.run(f, args=[mk("refv", mk("adt", job, 0, (mk("k", on),)))] + [mk("sym", f"argument {i}") for i in range(2, f.argc + 1)])
        ctx.analysed(*it.visited_fns)
        outs = [it.strip(e.state, e.value) for e in ends if e.kind == "ret"]
        ctx.count("paths", len(outs))
        return outs, touched
    try:
        skips = []
        if prep is not None:
            outs, touched = run(prep, False)
            skips = [o.k == "adt" and o.t[1] == RESULT and (o.t[2] == 1 or says(o.t[3][0], skip)) for o in outs]
            for w, m in touched:
                ctx.obligation(False, f"{name}: off, {m}", w, f"{name} changes the document although it is switched off")
        if prep is None or not all(skips):
            acts = []
            for f in callbacks:
                acts += run(f, False)[1]
            if acts:
                ctx.obligation(False, f"{name}: off", acts[0][0] if prep is None else prep.where(), f"{name} switched off still changes the document ({acts[0][1]})")
            else:
                ctx.obligation(True, f"{name}: off", "", "")
        else:
            ctx.obligation(True, f"{name}: off", "", "")
        if prep is not None:
            outs, work = run(prep, True)
            go = [o for o in outs if not (o.k == "adt" and o.t[1] == RESULT and (o.t[2] == 1 or says(o.t[3][0], skip)))]
            ctx.obligation(bool(go or work), f"{name}: on", prep.where(), f"{name} is skipped although it is switched on")
    except ToolError as e:
        ctx.undecide(name, e)


def says(v, skip):
    b = bits(v)
    return b is not None and b & skip == skip and v.k == "adt"


def options(ctx, prog, ty, f):
    name = short(ty)
    default = prog.get(f"<{ty} as core::default::Default>::default")
    adt = prog.adts.get(ty)
    if default is None or adt is None:
        ctx.undecide(name, "no default")
        return

    def hook(it, st, t, n, c, args):
        m = short(c["fn"])
        if m in ("next_key", "next_key_seed"):
            return it.finish(st, t, mk("adt", RESULT, 0, (NONE,)))
        if m == "missing_field":
            s = c["subs"]
            opt = s and any("option::Option" in prog.tys(st.top.fn, x) for x in s if isinstance(x, int))
            return it.finish(st, t, mk("adt", RESULT, 0, (NONE if opt else REQUIRED,)))
        zero = [w for w, v in ZERO.items() if f"<{w} as core::default::Default>::default" in n]
        if zero:
            return it.finish(st, t, ZERO[zero[0]])
        return None

    def run(g):
        it = Interp(prog, hook=hook, opaque=lambda h: h.crate != "oxvg_optimiser.lib", track=lambda v: True, max_states=5000)
        it.pure = lambda x: True
        ends = it.run(g)
        ctx.analysed(*it.visited_fns)
        return {it.strip(e.state, e.value) for e in ends if e.kind == "ret"}
    try:
        given, std = run(f), run(default)
    except ToolError as e:
        ctx.undecide(name, e)
        return
    given = {v.t[3][0] for v in given if v.k == "adt" and v.t[1] == RESULT and v.t[2] == 0}
    if len(given) != 1 or len(std) != 1:
        ctx.undecide(name, "the value without options is not one value")
        return
    a, b = given.pop(), std.pop()
    if a.k != "adt" or b.k != "adt":
        ctx.undecide(name, "the value without options is not followed")
        return
    for (field, *_), x, y in zip(adt.variants[0].fields, a.t[3], b.t[3]):
        if x is REQUIRED:
            continue
        x, y = plain(x), plain(y)
        ctx.count("fields")
        if opaque(x) or opaque(y):
            if x is not y:
                ctx.undecide(f"{name}.{field}", "a default that is not followed")
            continue
        ctx.obligation(x is y, f"{name}: {field}", f.where(), f"{name} without the option {field} gets {show(x)}, where its default is {show(y)}")


def opaque(v):
    return any(x.k in ("sym", "hav", "static") for x in walk(v))


def show(v):
    s = repr(v)
    return s if len(s) < 60 else s[:57] + "..."


def plain(v):
    """Empty collections are the same however they are made."""
    if v.k == "res" and not v.t[3] and short(v.t[2]) in ("new", "default"):
        return mk("res", None, "empty", ())
    if v.k == "adt":
        return mk("adt", v.t[1], v.t[2], tuple(plain(x) for x in v.t[3]))
    if v.k == "res" and len(v.t[3]) == 1 and short(v.t[2]) in ("from", "to_string", "to_owned", "into") and v.t[3][0].k in ("k", "refv"):
        return mk("res", None, "text", (v.t[3][0],))
    return v
