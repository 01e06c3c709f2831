"""Presets, extending and omitting select exactly the configured jobs."""
from facts import ToolError
from interp import Interp, mk
from terms import (NONE, callees, has, is_none, is_some, known, ok_value, option_known, payload, peel, same_option, some, str_facts, walk)

TECHNIQUE = "per-field transfer analysis of the configuration functions over MIR"
EXPLANATION = (
    "The presets are evaluated to the set and values of the jobs they switch on and compared with each other; extending "
    "and omitting are followed on all paths once per job, comparing what the job's slot holds afterwards with what it "
    "should; resolving a configuration and choosing it on the command line are followed on all paths and the order and "
    "operands of preset, jobs and omission compared with the documented ones."
)
LEVEL_NOTE = "All paths and every job. The deserialiser generated by serde is trusted to fill the field of the same name."

JOBS = "oxvg_optimiser::jobs::Jobs"
EXT = "oxvg_optimiser::Extends"
LOSSY = ("::skip", "::take", "::filter", "::step_by", "::skip_while", "::take_while", "::filter_map", "::find", "::nth", "::last", "::first", "::min", "::max")
# the presets documented: nothing, the default, and the default after a check of the document
ONLY_SAFE = {"precheck"}


def value_of(ctx, prog, fid):
    fn = prog.fns.get(fid)
    if fn is None:
        raise ToolError(f"{fid} is gone")
    it = Interp(prog, pure=lambda n: True)
    ends = [e for e in it.run(fn) if e.kind == "ret"]
    ctx.analysed(*it.visited_fns)
    if len(ends) != 1:
        return None, fn
    return it.strip(ends[0].state, ends[0].value), fn


def check(ctx):
    prog = ctx.program("native", ["oxvg_optimiser.lib", "oxvg.lib", "oxvg_path.lib"])
    adt = prog.adts.get(JOBS)
    if adt is None:
        raise ToolError("the configuration of the optimiser is gone")
    fields = [f[0] for f in adt.variants[0].fields]
    ctx.count("jobs", len(fields))
    ctx.floor("jobs", 40)
    presets(ctx, prog, fields)
    ctx.parallel(fields, lambda c, f: (extend(c, prog, fields, f), omit(c, prog, fields, f)))
    mapping(ctx, prog, fields)
    resolve(ctx, prog)
    command(ctx, prog)
    ctx.floor("obligations", 4 * len(fields))


def slot(it, v, fields, f):
    return it.proj(v, ("f", fields.index(f), f))


def presets(ctx, prog, fields):
    it = Interp(prog)
    none, fn0 = value_of(ctx, prog, JOBS + "::none")
    dflt, fn1 = value_of(ctx, prog, f"<{JOBS} as core::default::Default>::default")
    safe, fn2 = value_of(ctx, prog, JOBS + "::safe")
    for name, v in (("none", none), ("default", dflt), ("safe", safe)):
        if v is None:
            ctx.undecide(f"preset {name}", "does not evaluate to one value")
    on = 0
    for f in fields:
        if none is not None:
            ctx.obligation(is_none(slot(it, none, fields, f)), f"none: {f}", fn0.where(), f"the preset without jobs switches on {f}")
        if dflt is None:
            continue
        d = slot(it, dflt, fields, f)
        if is_some(d):
            on += 1
            own = default_of(ctx, prog, f)
            if own is not None:
                ctx.obligation(d.t[3][0] is own, f"default: {f} value", fn1.where(), f"the default preset runs {f} with other options than its defaults")
        elif not is_none(d):
            ctx.undecide(f"default preset: {f}", "value not known")
            continue
        if safe is not None:
            s = slot(it, safe, fields, f)
            if f in ONLY_SAFE:
                ctx.obligation(is_some(s) and is_none(d), f"safe: {f}", fn2.where(), f"{f} belongs to the safe preset and not to the default one")
            else:
                ctx.obligation(s is d, f"safe: {f}", fn2.where(), f"the safe preset and the default preset differ in {f}")
    ctx.count("default_jobs", on)
    if dflt is not None:
        ctx.obligation(on >= 30, "default: size", fn1.where(), f"the default preset switches on only {on} jobs")
        for f in fields:
            if f.startswith(("remove_x_m_l_n_s", "remove_view_box", "remove_title", "remove_scripts", "remove_style_element", "remove_raster_images",
                             "remove_dimensions", "remove_attrs", "prefix_ids", "remove_xlink", "reuse_paths", "remove_off_canvas_paths")):
                # the jobs listed as opt-in because they change what is shown or how the document can be used
                ctx.obligation(is_none(slot(it, dflt, fields, f)), f"default: {f} opt-in", fn1.where(), f"{f} is opt-in but part of the default preset")


def default_of(ctx, prog, f):
    adt = prog.adts[JOBS]
    ty = prog.ty(adt.crate, adt.variants[0].fields[adt.field_index(f)][1])
    inner = prog.ty(adt.crate, ty["args"][0]) if ty.get("args") else None
    if inner is None:
        return None
    fid = f"<{inner.get('def')} as core::default::Default>::default"
    if fid not in prog.fns:
        return None
    v, _ = value_of(ctx, prog, fid)
    return v


def slot_filter(fields, f):
    names = set(fields)

    def filt(it, st, root, path, val):
        for e in path:
            if e[0] == "f" and e[2] in names and e[2] != f:
                return None
        return val
    return filt


def extend(ctx, prog, fields, f):
    fn = prog.fn(JOBS + "::extend")
    i = fields.index(f)
    other = mk("fld", mk("deref", mk("sym", "arg1")), ("f", i, f))
    mine = mk("fld", mk("deref", mk("sym", "arg0")), ("f", i, f))
    it = Interp(prog, track=lambda v: v.k == "discr" and v.t[1] is other, write_filter=slot_filter(fields, f), pure=lambda n: "::clone" in n or "is_some" in n)
    ends = it.run(fn)
    ctx.analysed(*it.visited_fns)
    ctx.count("states", it.states)
    seen = set()
    for e in ends:
        if e.kind != "ret":
            continue
        after = peel(it.read(e.state, ("D", mk("sym", "arg0")), (("f", i, f),)))
        given = option_known(e.state.facts, other)
        seen.add(given)
        if given is True:
            ctx.obligation(same_option(after, other, e.state.facts), f"extend: {f} given", fn.where(), f"extending does not take over {f} when the extension has it")
        elif given is False:
            ctx.obligation(after is mine, f"extend: {f} kept", fn.where(), f"extending loses or changes {f} when the extension does not have it")
        elif after is mine:
            ctx.obligation(False, f"extend: {f} ignored", fn.where(), f"extending can ignore {f} of the extension")
        elif same_option(after, other) or has(after, other):
            # e.g. other.or(self): decided only when it names both
            if has(after, mine):
                ctx.undecide(f"extend: {f}", "combined in an opaque call")
            else:
                ctx.obligation(False, f"extend: {f} lost", fn.where(), f"extending replaces {f} even when the extension does not have it")
        else:
            ctx.undecide(f"extend: {f}", "value not understood")


def omit(ctx, prog, fields, f):
    fn = prog.fn(JOBS + "::omit")
    i = fields.index(f)
    mine = mk("fld", mk("deref", mk("sym", "arg0")), ("f", i, f))
    it = Interp(prog, write_filter=slot_filter(fields, f), pure=lambda n: True)
    ends = it.run(fn)
    ctx.analysed(*it.visited_fns)
    ctx.count("states", it.states)
    hit = False
    for e in ends:
        if e.kind != "ret":
            continue
        after = it.read(e.state, ("D", mk("sym", "arg0")), (("f", i, f),))
        names = {s for a, s, r in str_facts(e.state.facts) if r is True}
        if names == {f}:
            hit = True
            ctx.obligation(is_none(after), f"omit: {f}", fn.where(), f"omitting {f} by its name leaves it on")
        elif len(names) <= 1:
            ctx.obligation(after is mine, f"omit: {f} by {''.join(names)}", fn.where(), f"{f} is changed when {''.join(names) or 'an unknown name'} is omitted")
    if not hit:
        if any(str_facts(e.state.facts) for e in ends):
            ctx.obligation(False, f"omit: {f} unknown", fn.where(), f"{f} cannot be omitted by its name")
        else:
            ctx.undecide(f"omit: {f}", "names are not compared with constants")


def mapping(ctx, prog, fields):
    """Which preset each way of naming one stands for."""
    fn = prog.fn(EXT + "::jobs")
    want = {"None": JOBS + "::none", "Default": f"<{JOBS} as core::default::Default>::default", "Safe": JOBS + "::safe"}
    targets = {v: k for k, v in want.items()}

    def hook(it, st, t, name, c, args):
        if name in targets:
            return it.finish(st, t, mk("sym", targets[name]))
        return None
    it = Interp(prog, hook=hook)
    adt = prog.adts[EXT]
    for e in it.run(fn):
        if e.kind != "ret":
            continue
        f = e.state.facts.get(mk("discr", mk("deref", mk("sym", "arg0"))))
        if f is None or f[0] != "=":
            ctx.undecide("preset by name", "variant not known")
            continue
        v = adt.by_discr[f[1]]
        if v.name in want:
            ctx.obligation(e.value is mk("sym", v.name), f"preset {v.name}", fn.where(), f"the preset {v.name} stands for {e.value!r}")
    ctx.analysed(*it.visited_fns)
    # its names in files and on the command line: the variant read for a name has that name
    dflt = prog.fns.get(f"<{EXT} as core::default::Default>::default")
    if dflt:
        ends = Interp(prog).run(dflt)
        vi = ends[0].value.t[2] if ends and ends[0].value.k == "adt" else None
        if vi is not None:
            ctx.obligation(adt.variants[vi].name == "Default", "preset default", dflt.where(), "the preset used when none is named is not the default one")


def config_hook(ctx, q_names=None):
    """Summaries of the operations on configurations."""
    def hook(it, st, t, name, c, args):
        if name == EXT + "::jobs":
            return it.finish(st, t, mk("res", None, "preset", (it.strip(st, peel_ref(it, st, args[0])),)))
        if name == JOBS + "::extend":
            root, path = it.deref_loc(args[0])
            a = it.read(st, root, path)
            b = it.pointee(st, args[1])
            it.write(st, root, path, mk("res", None, "extended", (peel(it.strip(st, a)), peel(it.strip(st, b)))))
            return it.finish(st, t, mk("k", "()"))
        if name == JOBS + "::omit":
            root, path = it.deref_loc(args[0])
            a = peel(it.strip(st, it.read(st, root, path)))
            src = it.strip(st, args[1])
            if a.k == "res" and a.t[2] == "omitted":
                new = a
            else:
                new = mk("res", None, "omitted", (a,))
            it.write(st, root, path, new)
            st.q = (st.q or ()) + ((src,) if src not in (st.q or ()) else ())
            return it.finish(st, t, mk("k", "()"))
        if name.endswith("Jobs as core::clone::Clone>::clone"):
            return it.finish(st, t, it.pointee(st, args[0]))
        if name == JOBS + "::none":
            return it.finish(st, t, mk("sym", "no jobs"))
        if name == f"<{JOBS} as core::default::Default>::default":
            return it.finish(st, t, mk("sym", "default jobs"))
        return None
    return hook


def peel_ref(it, st, v):
    n = 0
    while v.k == "ref" and n < 3:
        v = it.read(st, v.t[2], v.t[3])
        n += 1
    return v


def resolve(ctx, prog):
    fn = prog.fn("oxvg::config::Optimise::resolve_jobs")
    adt = prog.adts["oxvg::config::Optimise"]
    me = mk("deref", mk("sym", "arg0"))
    fld = {n: mk("fld", me, ("f", adt.field_index(n), n)) for n in ("extends", "jobs", "omit")}
    it = Interp(prog, hook=config_hook(ctx))
    ends = it.run(fn)
    ctx.analysed(*it.visited_fns)
    seen = {}
    for e in ends:
        if e.kind != "ret":
            continue
        ext = option_known(e.state.facts, fld["extends"])
        om = option_known(e.state.facts, fld["omit"])
        v = peel(it.strip(e.state, e.value))
        omitted = v.k == "res" and v.t[2] == "omitted"
        base = v.t[3][0] if omitted else v
        where = fn.where()
        if ext is None:
            ctx.undecide("resolve", "whether a preset is given is not known")
            continue
        if ext:
            ok = base.k == "res" and base.t[2] == "extended" and base.t[3][1] is fld["jobs"] and base.t[3][0].k == "res" and base.t[3][0].t[2] == "preset" and \
                has(base.t[3][0], payload(fld["extends"]))
            ctx.obligation(ok, "resolve: preset", where, "with a preset, the configuration does not resolve to the preset overridden by the configured jobs")
        else:
            ctx.obligation(base is fld["jobs"], "resolve: no preset", where, "without a preset, the configuration does not resolve to the configured jobs")
        if om is not True:
            ctx.obligation(not omitted, "resolve: nothing to omit", where, "jobs are omitted although none are listed")
        else:
            seen.setdefault(ext, False)
            seen[ext] = seen[ext] or omitted
        for src in e.state.q or ():
            lossy = sorted(c for c in callees(src) if c.endswith(LOSSY))
            ctx.obligation(has(src, payload(fld["omit"])) or has(src, fld["omit"]), "resolve: names", where, "the names omitted are not the ones listed")
            ctx.obligation(not lossy, "resolve: all names", where, f"not every listed name is omitted ({', '.join(lossy)})")
    for ext in (True, False):
        n = "with" if ext else "without"
        ctx.obligation(seen.get(ext, False), f"resolve: omission {n} preset", fn.where(), f"the listed jobs are not omitted {n} a preset")


def command(ctx, prog):
    """`oxvg optimise`: a given file wins, then a given preset, then the configuration found."""
    fn = prog.find(suffix="commands::optimise::Optimise::handle_config")
    run = [f for f in prog.fns.values() if f.id.startswith("<oxvg::commands::optimise::Optimise as ") and f.id.endswith("RunCommand>::run")]
    if not run:
        ctx.undecide("command", "the optimise command is not in the program")
        return
    run = run[0]
    adt = prog.adts["oxvg::commands::optimise::Optimise"]
    me = mk("sym", "arg0")
    ext = mk("fld", me, ("f", adt.field_index("extends"), "extends"))
    cfg = mk("fld", me, ("f", adt.field_index("config"), "config"))
    copt = prog.adts["oxvg::config::Config"].field_index("optimise")
    given = mk("fld", mk("sym", "arg1"), ("f", copt, "optimise"))
    resolve_id = "oxvg::config::Optimise::resolve_jobs"
    base_hook = config_hook(ctx)

    def hook(it, st, t, name, c, args):
        if name == "oxvg::commands::optimise::Optimise::walk":
            st.q = ("run", it.strip(st, args[1]))
            return it.finish(st, t, mk("sym", "walked"))
        if name == resolve_id:
            return it.finish(st, t, mk("res", None, "resolved", (it.strip(st, peel_ref(it, st, args[0])),)))
        if name.startswith("log::") or "as core::clone::Clone>::clone" in name and "Extends" in name:
            return it.finish(st, t, it.pointee(st, args[0]) if "Clone" in name else mk("sym", "log"))
        return base_hook(it, st, t, name, c, args)

    def track(v):
        return any(x is ext or x is cfg or x is given for x in walk(v)) or v.k == "discr"
    it = Interp(prog, hook=hook, track=track, max_depth=8)
    ends = it.run(run)
    ctx.analysed(*it.visited_fns)
    n = 0
    for e in ends:
        if e.kind != "ret" or not e.state.q:
            continue
        n += 1
        v = e.state.q[1]
        c = option_known(e.state.facts, cfg)
        x = option_known(e.state.facts, ext)
        names = callees(v)
        where = run.where()
        if c is True:
            ctx.obligation(not has(v, given) and not has(v, ext), "command: file", where, "the jobs run are not those of the file given on the command line")
        elif c is False and x is True:
            opt = prog.adts["oxvg::config::Optimise"]
            ok = False
            for y in walk(v):
                if y.k == "adt" and y.t[1] == "oxvg::config::Optimise":
                    p = y.t[3][opt.field_index("extends")]
                    ok = is_some(p) and peel(p.t[3][0]) is payload(ext) and is_none(y.t[3][opt.field_index("omit")]) and y.t[3][opt.field_index("jobs")] is mk("sym", "no jobs")
            ctx.obligation(ok and "resolved" in names, "command: preset", where, "the preset given on the command line is not what runs")
        elif c is False and x is False:
            g = option_known(e.state.facts, given)
            if g is False:
                ctx.obligation(v is mk("sym", "default jobs"), "command: nothing", where, "without any configuration something other than the default jobs runs")
            else:
                ctx.obligation(has(v, given) and "resolved" in names, "command: found", where, "the jobs run are not those of the configuration found")
        else:
            ctx.undecide("command", f"which options are given is not known ({c}, {x})")
    ctx.count("command_paths", n)
    if n < 3:
        ctx.undecide("command", "too few paths reach the walk")
