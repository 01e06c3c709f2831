"""SVGO plugin lists are converted to exactly the jobs they name."""
from facts import ToolError
from interp import Interp, mk
from terms import callees, has, is_none, is_some, peel, str_facts, strings, walk
import J02

TECHNIQUE = "per-job dataflow of the plugin list conversion over MIR"
EXPLANATION = (
    "Both conversions of SVGO plugin lists (JSON and Node) are followed on all paths, once per job: a write to the job's "
    "slot needs a plugin of that name (or the default preset for a default job, or convertPathData for applyTransforms), "
    "writes the job's defaults or what its parameters deserialise to, and every plugin of that name leads to such a "
    "write or to an error; names that match no job lead to an error. The parameters of convertPathData are traced "
    "to the options they set."
)
LEVEL_NOTE = "All paths of one list entry after any others, every job. How serde or napi read the parameters of one job is trusted."

JOBS = J02.JOBS
SNAKE = JOBS + "::from_svgo_plugin_to_snake_case"
CPD = "oxvg_optimiser::jobs::convert_path_data::ConvertPathData"
# options of convertPathData and the SVGO parameter each is set from
PARAMS = {
    ("tolerance", "precision"): {"floatPrecision"}, ("close_segments",): {"convertToZ"}, ("join_nodes",): {"collapseRepeated"},
    ("remove_empty_segments",): {"removeUseless"}, ("remove_zero_segments",): {"removeUseless"}, ("straight_curves",): {"straightCurves"},
    ("arc_curves",): {"makeArcs"}, ("smart_arc_rounding",): {"smartArcRounding"}, ("tolerance", "positional"): {"makeArcs", "threshold"},
}
APPLY = {"transform_precision": "transformPrecision", "apply_transforms_stroked": "applyTransformsStroked"}


def check(ctx):
    total = 0
    for profile, fid in (("native", JOBS + "::from_svgo_plugin_config"), ("napi", JOBS + "::napi_from_svgo_plugin_config")):
        prog = ctx.program(profile, ["oxvg_optimiser.lib", "oxvg_path.lib"])
        fn = prog.fns.get(fid)
        if fn is None:
            raise ToolError(f"{fid} is gone")
        adt = prog.adts[JOBS]
        fields = [f[0] for f in adt.variants[0].fields]
        dflt, _ = J02.value_of(ctx, prog, f"<{JOBS} as core::default::Default>::default")
        it = Interp(prog)
        defaults = {f for f in fields if dflt is not None and is_some(J02.slot(it, dflt, fields, f))}
        cpd = [f[0] for f in prog.adts[CPD].variants[0].fields]
        ctx.count("jobs", len(fields))
        ctx.parallel(fields, lambda c, f: one(c, prog, fn, fields, defaults, cpd, f, profile))
        ctx.parallel(sorted(PARAMS), lambda c, p: param(c, prog, fn, fields, cpd, p, profile))
        total += len(fields)
    ctx.floor("jobs", 80)
    if len(ctx.undecided) > total // 2:
        raise ToolError("most jobs could not be decided: " + ctx.undecided[0]["reason"])


def is_next(name, c):
    return name.endswith("::next") and "Iterator" in (c.get("trait") or name)


def summary(it, st, t, name, c, args):
    if name == SNAKE:
        return it.finish(st, t, mk("res", None, "snake", (it.strip(st, args[0]),)))
    if c["fn"] == "core::default::Default::default":
        return it.finish(st, t, mk("res", None, name, ()))
    return None


def one(ctx, prog, fn, fields, defaults, cpd, f, profile):
    own = J02.default_of(ctx, prog, f)
    names = set(fields) | set(cpd) | {"positional", "precision"}
    consts = {f, "convert_path_data", "preset-default"}
    problems = {}
    i = fields.index(f)

    def bad(kind, line, msg):
        problems.setdefault(kind, (fn.where(line), msg))

    def filt(it, st, root, path, val):
        for e in path:
            if e[0] == "f" and e[2] in names and e[2] != f:
                return None
        if path and path[-1][0] == "f" and path[-1][2] == f and root[0] != "D" or path and path[-1] == ("f", i, f):
            wrote(it, st, val)
            # which options are written does not matter any more
            return mk("sym", "set" if is_some(peel(val)) else "unset" if is_none(peel(val)) else "?")
        return val

    def current(st):
        """Names of this entry known to match or not to."""
        yes = {s for a, s, r in str_facts(st.facts) if r is True}
        no = {s for a, s, r in str_facts(st.facts) if r is False}
        return yes, no

    def wrote(it, st, val):
        ctx.count("writes")
        v = peel(it.strip(st, val))
        yes, no = current(st)
        st.q = "written"
        if is_none(v):
            return bad("unset", None, f"{f} is switched off again by another plugin")
        if f in yes:
            pass
        elif "preset-default" in yes:
            if f not in defaults:
                bad("preset", None, f"{f} is switched on by preset-default though it is no default job")
        elif f == "apply_transforms" and "convert_path_data" in yes:
            pass
        else:
            bad("stray", None, f"{f} is switched on by a plugin of another name ({', '.join(sorted(yes)) or 'any'})")
        p = v.t[3][0] if is_some(v) else v
        if own is not None and p.k == "adt" and p is not own and not strings(p) and f not in ("convert_path_data", "apply_transforms"):
            bad("value", None, f"{f} is switched on with options that are neither its defaults nor its parameters")

    def entry_done(st, line):
        yes, no = current(st)
        if f == fields[0] and not any(v.k == "strval" for v in st.facts):
            bad("unknown", line, "a plugin that names no job is accepted silently")
        if st.q != "written":
            if f in yes:
                bad("dropped", line, f"the plugin naming {f} can be accepted without switching it on")
            elif "preset-default" in yes and f in defaults:
                bad("preset missing", line, f"preset-default does not switch on {f}")

    def hook(it, st, t, name, c, args):
        if is_next(name, c) and len(st.frames) == 1:
            if st.q != "start":
                entry_done(st, t[5])
            st.q = "entry"
            return None
        return summary(it, st, t, name, c, args)

    def track(v):
        if v.k == "res" and "PartialEq" in v.t[2]:
            return bool(strings(v) & consts)
        return v.k == "strval"

    it = Interp(prog, hook=hook, track=track, write_filter=filt, max_states=80000,
                opaque=lambda g: "Deserialize" in g.id or "FromNapiValue" in g.id,
                pure=lambda n: "clone" in n or n.endswith(("::deref", "as_str", "::default")))
    try:
        ends = it.run(fn, q="start")
    except ToolError as e:
        ctx.undecide(f"{profile}: {f}", e)
        return
    ctx.analysed(*it.visited_fns)
    ctx.count("states", it.states)
    for kind, (where, msg) in sorted(problems.items()):
        ctx.obligation(False, f"{profile}: {f} {kind}", where, msg)
    if not problems:
        ctx.obligation(True, "", "", "")


def param(ctx, prog, fn, fields, cpd, path, profile):
    """The option at `path` is set from the parameter(s) it belongs to, and from nothing else."""
    names = (set(fields) - {"convert_path_data"}) | (set(cpd) - {path[0]}) | ({"positional", "precision"} - {path[-1]})
    got = []

    def filt(it, st, root, pth, val):
        fs = [e[2] for e in pth if e[0] == "f"]
        if any(n in names for n in fs):
            return None
        if fs and tuple(fs[-len(path):]) == path:
            v = it.strip(st, val)
            got.append(v)
            return mk("sym", "set")
        return val

    def track(v):
        return False

    def hook(it, st, t, name, c, args):
        return summary(it, st, t, name, c, args)
    it = Interp(prog, hook=hook, track=track, write_filter=filt, max_states=80000,
                opaque=lambda g: "Deserialize" in g.id or "FromNapiValue" in g.id,
                pure=lambda n: "clone" in n or n.endswith(("::deref", "as_str", "::default", "::remove", "::get")) or "serde_json::value::from_value" in n)
    try:
        it.run(fn)
    except ToolError as e:
        ctx.undecide(f"{profile}: {'.'.join(path)}", e)
        return
    ctx.analysed(*it.visited_fns)
    seen = set()
    for v in got:
        seen |= {s for s in strings(v) if s[:1].islower() and s.isalnum() and s not in ("name", "params")}
    want = PARAMS[path]
    label = ".".join(path)
    ctx.count("parameters")
    if not got:
        ctx.undecide(f"{profile}: {label}", "no write seen")
        return
    ctx.obligation(seen <= want, f"{profile}: option {label} source", fn.where(), f"the option {label} of convertPathData is set from {sorted(seen - want)}")
    if "arc_curves" not in label:
        # a presence test keeps no trace of its name
        ctx.obligation(bool(seen & want), f"{profile}: option {label} unset", fn.where(), f"the option {label} of convertPathData is not set from {sorted(want)}")
