"""Every configured job runs exactly once, in the documented order, and fatal errors stop the run."""
from facts import ToolError
from interp import Interp, mk, Term

TECHNIQUE = "typestate analysis of the job runner over MIR"
EXPLANATION = (
    "For every job of the configuration the runner is followed on all paths with the presence of that job and the outcome "
    "of its run tracked: it is started once when configured and never otherwise, on the document and information given; "
    "after an error other than a failed style computation no other job is started and that error is returned; after any "
    "other outcome the remaining jobs run. The order in which starts can follow each other is collected and compared "
    "with the documented order."
)
LEVEL_NOTE = "All paths of the runner, one job at a time (other jobs' outcomes unconstrained). What a job does inside is not part of this property."

RUNNER = "oxvg_optimiser::jobs::Jobs::run_jobs"
RUN = "oxvg_optimiser::jobs::Jobs::run"
JOBS = "oxvg_optimiser::jobs::Jobs"
ERROR = "oxvg_optimiser::error::JobsError"
START = "oxvg_ast::visitor::Visitor::start"
# documented next to the list of jobs
BEFORE = [("apply_transforms", "convert_path_data"), ("cleanup_ids", "prefix_ids")]
FIRST = "precheck"
LAST = "remove_xlink"


def roots(v, out=None, d=0):
    """Names of the fields of the configuration a value comes from."""
    if out is None:
        out = set()
    if d > 12 or not isinstance(v, Term):
        return out
    t = v.t
    if t[0] == "fld" and isinstance(t[2], tuple) and t[2][0] == "f" and is_self(t[1]):
        out.add(t[2][2])
        return out
    if t[0] == "ref" or t[0] == "guard":
        root, path = t[2], t[3]
        if root[0] == "D" and is_arg0(root[1]) and path and path[0][0] == "f":
            out.add(path[0][2])
        elif root[0] == "D":
            roots(root[1], out, d + 1)
        return out
    for x in t[1:]:
        if isinstance(x, Term):
            roots(x, out, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    roots(y, out, d + 1)
    return out


def is_self(v):
    return v.k == "deref" and is_arg0(v.t[1])


def is_arg0(v):
    return v.k == "sym" and v.t[1] == "arg0"


class Q:
    pass


def check(ctx):
    prog = ctx.program("native", ["oxvg_optimiser.lib", "oxvg_ast.lib"])
    adt = prog.adts.get(JOBS)
    err = prog.adts.get(ERROR)
    if adt is None or err is None:
        raise ToolError("the configuration or error type of the optimiser is gone")
    entry = prog.fn(RUN)
    fields = [f[0] for f in adt.variants[0].fields]
    soft = {v.discr for v in err.variants if v.name == "ComputedStylesError"}
    ctx.count("jobs", len(fields))
    ctx.floor("jobs", 30)
    order = {}
    for f, later in zip(fields, ctx.parallel(fields, lambda c, f: one(c, prog, entry, f, soft))):
        if later is not None:
            order[f] = later
    for f in fields:
        ctx.obligation(f in order, f"{f} never runs", entry.where(), f"the job {f} is never started by the runner")
    for a, b in BEFORE:
        if a in fields and b in fields:
            ctx.obligation(b not in order or a not in order[b], f"{a} before {b}", entry.where(), f"{a} can run after {b}; it is documented to run before it")
    for f in fields:
        if FIRST in fields and f != FIRST:
            ctx.obligation(f not in order or FIRST not in order[f], f"{FIRST} before {f}", entry.where(), f"{FIRST} can run after {f}, that is on a document already changed")
        if LAST in fields and f != LAST:
            ctx.obligation(f not in order.get(LAST, ()), f"{f} before {LAST}", entry.where(), f"{f} can run after {LAST}, which is to see what every other job adds")
    ctx.sample({f: sorted(order.get(f, ()))[:3] for f in fields[:3]})


def one(ctx, prog, entry, field, soft):
    later = set()

    def track(v):
        return "start:" + field in v.sites or field in roots(v) or (v.k == "discr" and has(v, mk("sym", "arg1")))

    problems = []

    def hook(it, st, t, name, c, args):
        base = c["fn"]
        if base.startswith(START) and args:
            ctx.count("start_sites_visited")
            fs = roots(args[0])
            if not fs:
                raise ToolError(f"{entry.id}: a job is started that does not come from the configuration ({args[0]!r})")
            n, result = st.q
            if field in fs and len(fs) == 1:
                if n:
                    problems.append(("twice", st.top.fn.where(t[5]), f"{field} can be started twice in one run"))
                ok = arg_ok(args)
                if not ok:
                    problems.append(("target", st.top.fn.where(t[5]), f"{field} is started on something other than the document and information given to the run"))
                res = mk("res", "start:" + field, field, ())
                st.q = (1, res)
                return it.finish(st, t, res)
            if n:
                kind = outcome(it, st, result, soft)
                if kind in ("fatal", "error"):
                    problems.append(("continues", st.top.fn.where(t[5]),
                                     f"after {field} fails ({'with a fatal error' if kind == 'fatal' else 'with any error'}) other jobs still run"))
                    return []
                later.update(fs)
            return it.finish(st, t, mk("res", "start:other", "other", ()))
        return None

    def arg_ok(args):
        # the element found in the document of the run, the information of the run
        return len(args) < 3 or (has(args[1], mk("sym", "arg1")) and has(args[2], mk("sym", "arg2")))

    def opaque(fn):
        return fn.crate == "oxvg_ast.lib" or "Visitor" in fn.id or fn.id.startswith("<")

    it = Interp(prog, hook=hook, opaque=opaque, track=track, max_states=60000, max_depth=10, fold_sums=False)
    ends = it.run(entry, q=(0, None))
    ctx.analysed(*it.visited_fns)
    ctx.count("states", it.states)
    present = mk("discr", mk("fld", mk("deref", mk("sym", "arg0")), ("f", fields_index(prog, field), field)))
    for e in ends:
        if e.kind != "ret":
            continue
        n, result = e.state.q
        f = e.state.facts.get(present)
        known = f[1] if f and f[0] == "=" else (0 if f and f[0] == "!" and 1 in f[1] else 1 if f and f[0] == "!" and 0 in f[1] else None)
        if n and known == 0:
            problems.append(("unconfigured", entry.where(), f"{field} runs although it is not configured"))
        empty = any(v.k == "discr" and has(v, mk("sym", "arg1")) and f != ("=", 1) for v, f in e.state.facts.items())
        if not n and known != 0 and ret_kind(e) != "err" and not empty:
            problems.append(("skipped", entry.where(), f"the run can end without error and without starting {field} although it is configured"))
        if n and ret_kind(e) == "err" and has(e.value, result) and outcome(it, e.state, result, soft) == "soft":
            problems.append(("aborts", entry.where(), f"a failed style computation in {field} ends the whole run"))
        if n and outcome(it, e.state, result, soft) in ("fatal", "error"):
            if not (ret_kind(e) == "err" and (has(e.value, result) or e.value.k != "adt")):
                problems.append(("swallowed", entry.where(), f"a fatal error of {field} is not returned by the run"))
        if n:
            ctx.count("paths_running_the_job")
    ctx.obligation(not problems, f"{field}: {problems[0][0] if problems else ''}", problems[0][1] if problems else "", problems[0][2] if problems else "")
    if any(e.kind == "ret" and e.state.q[0] for e in ends):
        return later
    return None


def fields_index(prog, field):
    return prog.adts[JOBS].field_index(field)


def has(v, sub, d=0):
    if v is sub:
        return True
    if d > 10 or not isinstance(v, Term):
        return False
    for x in v.t[1:]:
        if isinstance(x, Term) and has(x, sub, d + 1):
            return True
        if isinstance(x, tuple) and any(isinstance(y, Term) and has(y, sub, d + 1) for y in x):
            return True
    return False


def ret_kind(e):
    v = e.value
    if v.k == "adt" and v.t[1] == "core::result::Result":
        return "err" if v.t[2] == 1 else "ok"
    f = e.state.facts.get(mk("discr", v))
    if f and f[0] == "=":
        return "err" if f[1] == 1 else "ok"
    return "?"


def outcome(it, st, result, soft):
    """What is known of the outcome of the job: ok, soft, fatal, error (kind unknown) or unknown."""
    d = it.lookup(st, mk("discr", result))
    if d is None:
        f = st.facts.get(mk("discr", result))
        if f and f[0] == "!":
            d = 1 if 0 in f[1] else 0 if 1 in f[1] else None
    if d is None:
        return "unknown"
    if d == 0:
        return "ok"
    inner = mk("fld", mk("fld", result, ("v", 1)), ("f", 0, "0"))
    for e in st.facts:
        if e.k == "discr" and has(e, result) and e.t[1] is not result and e.t[1].k == "fld":
            f = st.facts[e]
            if f[0] == "=":
                return "soft" if f[1] in soft else "fatal"
            if soft <= f[1]:
                return "fatal"
    return "error"
