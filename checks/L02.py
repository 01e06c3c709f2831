"""L02: every problem found is reported and counted, and the counts decide whether linting fails."""
import os
import re

from facts import ToolError
from interp import Interp, mk
from terms import walk, some as option_some, NONE, RESULT
from J05 import Path, mentions, short, some, told, fact

TECHNIQUE = "abstract interpretation over MIR: all paths through the linter's entry points, its report, the lint command and the language server"
EXPLANATION = (
    "Each way of linting a text is followed on all paths, with a parse that fails or succeeds and a walk that finds problems or none: a failed parse must be given back as such, "
    "problems found must be written and counted by their severity, and the result must be a failure exactly when a count is above nought. The report must print every problem. "
    "The lint command is followed for each level and each kind of result: it must fail exactly when the level asks for it. The language server must publish what was found for "
    "every text that can be parsed, nothing included, with the matching severity and place."
)
LEVEL_NOTE = "All paths; problems are followed for one representative, results of linting for every kind of result and level."

L = "oxvg_lint::"
RULES = L + "rules::Rules"
SEV = L + "rules::Severity"
ERROR = L + "error::Error"
FAIL = L + "error::LintingError"


def ok(v):
    return mk("adt", RESULT, 0, (v,))


def err(v):
    return mk("adt", RESULT, 1, (v,))


UNIT = mk("tup", ())


def check(ctx):
    prog = ctx.program("native", ["oxvg_lint.lib", "oxvg_ast.lib", "oxvg_collections.lib", "oxvg.lib"])
    if FAIL not in prog.adts or SEV not in prog.adts:
        raise ToolError("the linter's results are gone")
    jobs = [("entry", f) for f in sorted(prog.fns) if re.match(re.escape(RULES) + r"::lint\w*$", f)]
    ctx.count("ways to lint a text", len(jobs))
    ctx.floor("ways to lint a text", 4)
    for what, f in jobs:
        guarded(ctx, f, lambda: entry(ctx, prog, prog.fns[f]))
    for g in (report, presets, command, diagnostic, analysis, server):
        guarded(ctx, g.__name__, lambda: g(ctx, prog))


def guarded(ctx, what, f):
    try:
        f()
    except ToolError as e:
        ctx.undecide(what, e)


def severities(prog):
    return [v.name for v in prog.adts[SEV].variants]


def variant(prog, adt, name):
    for i, v in enumerate(prog.adts[adt].variants):
        if v.name == name:
            return i
    raise ToolError(f"{short(adt)} has no {name}")


def sample(prog, sev):
    """A problem of this severity."""
    fs = prog.adts[ERROR].variants[0].fields
    return mk("adt", ERROR, 0, tuple(mk("adt", SEV, severities(prog).index(sev), ()) if x[0] == "severity" else mk("sym", "problem." + x[0]) for x in fs))


def accepted(prog, clos):
    """The severities a test lets through."""
    out = []
    if clos.k != "clos" or prog.get(clos.t[1]) is None:
        raise ToolError("what is counted is not followed")
    for s in severities(prog):
        it = Interp(prog, opaque=lambda g: False, track=lambda v: True, max_states=500)
        vals = {it.strip(e.state, e.value) for e in it.run(prog.get(clos.t[1]), args=[mk("refv", clos), mk("refv", mk("refv", sample(prog, s)))]) if e.kind == "ret"}
        if vals == {mk("k", True)}:
            out.append(s)
        elif len(vals) > 1 or all(any(y.k == "sym" for y in walk(v, limit=30)) for v in vals) and vals:
            out.append("some of " + s)
        elif vals != {mk("k", False)}:
            raise ToolError("what is counted is not decided by the severity")
    return out


def entry(ctx, prog, f):
    """One way to lint a text."""
    errors = mk("sym", "errors")

    def hook(it, st, t, name, c, args):
        base, s = c["fn"], short(c["fn"])
        v = it.strip(st, args[0]) if args else None
        if base.startswith("oxvg_ast::parse::") and s.startswith("parse") and it.strip(st, args[-1]).k == "clos":
            bad = st.copy()
            bad.q = bad.q | {"not parsed"}
            st.q = st.q | {"parsed"}
            r = it.call_closure(st, t, args[-1], [mk("sym", "dom"), mk("sym", "allocator")], "closure", discard=("parse", 0))
            if not r:
                raise ToolError("what is done with the document is not followed")
            return it.finish(bad, t, err(mk("sym", "parse error"))) + r
        if s.startswith("start") and "visitor::Visitor" in (c.get("trait") or base):
            none = st.copy()
            none.q = none.q | {"nothing found"}
            st.q = st.q | {"found"}
            return it.finish(none, t, ok(mk("sym", "outcome"))) + it.finish(st, t, err(errors))
        if s in ("iter", "into_iter", "deref", "as_slice", "as_ref", "by_ref", "par_iter", "into_par_iter") and args and errors in set(walk(v, limit=30)):
            return it.finish(st, t, args[0])
        if s == "filter" and len(args) == 2 and errors in set(walk(v, limit=30)):
            return it.finish(st, t, mk("res", None, "those " + "|".join(accepted(prog, it.strip(st, args[1]))), (v,)))
        if s in ("count", "len") and args and errors in set(walk(v, limit=30)):
            sel = [x.t[2][6:] for x in walk(v, limit=30) if x.k == "res" and x.t[2].startswith("those ")]
            return it.finish(st, t, mk("res", None, "number of " + (sel[0] if sel else "all"), ()))
        if s == "is_empty" and v == errors:
            return it.finish(st, t, mk("k", False))
        if s == "next" and "Iterator" in base and errors in set(walk(v, limit=30)):
            if "seen" in st.q:
                return it.finish(st, t, NONE)
            out = []
            for n in severities(prog):
                if n == "Off":
                    continue
                s2 = st.copy()
                s2.q = s2.q | {"seen", ("severity", n)}
                out += it.finish(s2, t, option_some(mk("refv", sample(prog, n))))
            return out
        if s in ("write_fmt", "write_str") and len(args) >= 2:
            what = it.strip(st, args[1])
            if errors in set(walk(what, limit=60)):
                st.q = st.q | {"written"}
            bad = st.copy()
            bad.q = bad.q | {"not written"}
            return it.finish(st, t, ok(UNIT)) + it.finish(bad, t, err(mk("sym", "write error")))
        return None

    def after(st, fr, v):
        return it.finish(st, st.top.fn.blocks[st.top.block]["t"], ok(it.strip(st, v)))

    it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith((RULES + "::", "<" + RULES)), track=lambda v: True, max_states=5000, explore_closures=False)
    it.pure = lambda n: True
    it.after_discard = after
    ends = it.run(f, args=[mk("refv", mk("sym", "rules"))] + [mk("sym", f"a{i}") for i in range(1, f.argc)], q=frozenset())
    ctx.analysed(*it.visited_fns)
    key = short(f.id)
    names = [x[0] for x in prog.adts[FAIL].variants[variant(prog, FAIL, "Reported")].fields]
    for e in ends:
        if e.kind != "ret":
            continue
        ctx.count("paths")
        q, v = e.state.q, it.strip(e.state, e.value)
        if v.k != "adt" or v.t[1] != RESULT:
            ctx.undecide(key, "the result is not followed")
            continue
        kind = None
        if v.t[2] == 1:
            w = plain(it, e.state, v.t[3][0])
            kind = prog.adts[FAIL].variants[w.t[2]].name if w.k == "adt" and w.t[1] == FAIL else "?"
        if "not parsed" in q:
            ctx.obligation(kind == "Parse", f"{key}: parse error", f.where(), f"{key} gives {kind or 'success'} for a text that cannot be parsed")
        elif "parsed" not in q:
            ctx.obligation(kind is not None, f"{key}: unread", f.where(), f"{key} succeeds without looking at the text")
        elif "nothing found" in q:
            ctx.obligation(kind is None, f"{key}: clean", f.where(), f"{key} fails for a document without problems")
        elif "not written" in q:
            ctx.obligation(kind == "Format", f"{key}: write error", f.where(), f"{key} gives {kind or 'success'} when the report cannot be written")
        else:
            ctx.obligation("written" in q, f"{key}: report", f.where(), f"{key} does not write the problems it found")
            if kind is None:
                zero = nought(e.state)
                for n in ("Error", "Warn"):
                    seen = [x[1] for x in q if isinstance(x, tuple) and x[0] == "severity"]
                    ctx.obligation(zero.get(n) is True or bool(seen) and n not in seen, f"{key}: failure", f.where(), f"{key} succeeds although there may be problems of severity {n}")
            elif kind == "Reported":
                w = plain(it, e.state, v.t[3][0])
                for n, want in (("errors", "Error"), ("warnings", "Warn")):
                    x = it.strip(e.state, w.t[3][names.index(n)])
                    ctx.obligation(counted(x, want, q), f"{key}: number of {n}", f.where(), f"{key} gives {x!r} as the number of {n}")
            else:
                ctx.obligation(False, f"{key}: failure", f.where(), f"{key} gives {kind} for a document with problems")


def plain(it, st, v):
    v = it.strip(st, v)
    while v.k == "res" and short(v.t[2]) in ("from", "into") and len(v.t[3]) == 1:
        v = it.strip(st, v.t[3][0])
    return v


def nought(st):
    out = {}
    for t, v in st.facts.items():
        sel = {x.t[2][10:] for x in walk(t, limit=30) if x.k == "res" and x.t[2].startswith("number of ")}
        if len(sel) == 1 and v[0] == "=" and v[1] == 0 and not isinstance(v[1], bool):
            for x in sel:
                out.update({y: True for y in (("Error", "Warn") if x == "all" else x.split("|"))})
        if t.k != "op" or v[0] != "=" or not isinstance(v[1], bool):
            continue
        sel = [x.t[2][10:] for x in walk(t, limit=30) if x.k == "res" and x.t[2].startswith("number of ")]
        if len(set(sel)) != 1:
            continue
        op, b = t.t[1], t.t[3]
        n = b.t[1] if b.k == "k" else None
        if (op, n, v[1]) in (("Gt", 0, False), ("Eq", 0, True), ("Ne", 0, False), ("Ge", 1, False), ("Lt", 1, True)):
            for x in ("Error", "Warn") if sel[0] == "all" else sel[0].split("|"):
                out[x] = True
    return out


def counted(x, want, q):
    if x.k == "k":
        seen = [y[1] for y in q if isinstance(y, tuple) and y[0] == "severity"]
        return bool(seen) and x.t[1] == (1 if want in seen else 0)
    sel = {y.t[2][10:] for y in walk(x, limit=30) if y.k == "res" and y.t[2].startswith("number of ")}
    return sel == {want}


def report(ctx, prog):
    """The report prints every problem."""
    f = prog.get(f"<{L}error::Report as core::fmt::Display>::fmt")
    if f is None:
        raise ToolError("the report is printed in another way")
    elem = mk("refv", mk("sym", "one"))

    def hook(it, st, t, name, c, args):
        s, base = short(c["fn"]), c["fn"]
        if s in ("into_iter", "iter"):
            return it.finish(st, t, args[0])
        if s in LEAVES_OUT and args and mk("sym", "report") in set(walk(it.strip(st, args[0]), limit=30)) and "::iter" in base:
            st.q = st.q | {"cut"}
        if s == "next" and "Iterator" in base:
            if "seen" in st.q:
                return it.finish(st, t, NONE)
            st.q = st.q | {"seen"}
            return it.finish(st, t, option_some(elem))
        if s == "fmt" and args and mk("sym", "one") in set(walk(it.strip(st, args[0]), limit=20)):
            st.q = st.q | {("printed", repr(it.strip(st, args[0])))}
        return None

    it = Interp(prog, hook=hook, opaque=lambda g: "display_context" in g.id, track=lambda v: True, max_states=5000, explore_closures=False)
    it.pure = lambda n: True
    ends = [e for e in it.run(f, args=[mk("refv", mk("sym", "report")), mk("sym", "f")], q=frozenset()) if e.kind == "ret"]
    ctx.analysed(*it.visited_fns)
    for e in ends:
        v = it.strip(e.state, e.value)
        if v.k == "adt" and v.t[2] == 1 or v.k != "adt":
            continue
        got = " ".join(x[1] for x in e.state.q if isinstance(x, tuple))
        ctx.obligation("cut" not in e.state.q and "seen" in e.state.q and ".problem" in got, "report: problem", f.where(), "the report leaves out a problem")
        ctx.obligation(".severity" in got, "report: severity", f.where(), "the report leaves out how severe a problem is")
    ctx.count("ways through the report", len(ends))


def presets(ctx, prog):
    """The rules when all are off."""
    f = prog.get(RULES + "::off")
    if f is None:
        raise ToolError("no set of rules with all off")
    it = Interp(prog, opaque=lambda g: False, track=lambda v: True)
    off = mk("adt", SEV, severities(prog).index("Off"), ())
    for e in it.run(f, args=[]):
        v = it.strip(e.state, e.value)
        if e.kind == "ret" and v.k == "adt":
            for n, x in zip(prog.adts[RULES].variants[0].fields, v.t[3]):
                ctx.obligation(it.strip(e.state, x) == off, f"off: {n[0]}", f.where(), f"rule {n[0]} is on in the set of rules that are all off")


LEAVES_OUT = {"take", "skip", "step_by", "filter", "take_while", "skip_while", "map_while", "nth", "find", "last", "max_by_key", "min_by_key"}
RESULTS = [("Ok", None), ("Reported", (1, 0)), ("Reported", (0, 1)), ("Reported", (2, 3)), ("IO", None), ("Parse", None), ("Format", None)]
FAILS = {"Off": lambda e, w: False, "Warn": lambda e, w: e + w > 0, "Error": lambda e, w: e > 0}


def command(ctx, prog):
    """The lint command fails as the level asks for."""
    check = "oxvg::commands::lint::Check"
    f = prog.get(f"<{check} as oxvg::args::RunCommand>::run")
    if f is None or check not in prog.adts:
        raise ToolError("the lint command is gone")
    fields = [x[0] for x in prog.adts[check].variants[0].fields]
    if "level" not in fields:
        raise ToolError("the lint command has no level")
    for level in severities(prog):
        if level not in FAILS:
            continue
        me = mk("adt", check, 0, tuple(mk("adt", SEV, severities(prog).index(level), ()) if n == "level" else mk("sym", n) for n in fields))

        def hook(it, st, t, name, c, args):
            base, s = c["fn"], short(c["fn"])
            if re.search(r"walk::Walk::\w+$", base) and it.strip(st, args[-1]).k in ("clos",):
                bad = st.copy()
                bad.q = bad.q | {"no walk"}
                late = st.copy()
                if any(isinstance(y, tuple) and y[0] == "flag" for y in late.q):
                    late.q = frozenset(y for y in late.q if not (isinstance(y, tuple) and y[0] == "flag")) | {("flag", True), "failed before"}
                r = it.call_closure(st, t, args[-1], [], "closure", discard=("factory", 0))
                if not r:
                    raise ToolError("what is done with each document is not followed")
                if "failed before" in late.q:
                    r = r + it.call_closure(late, t, args[-1], [], "closure", discard=("factory", 0))
                return r + it.finish(bad, t, err(mk("sym", "walk error")))
            if re.match(re.escape(RULES) + r"::lint\w*$", base):
                out = []
                for kind, n in RESULTS:
                    s2 = st.copy()
                    s2.q = s2.q | {("result", kind, n), ("rules", repr(it.strip(st, args[0])))}
                    out += it.finish(s2, t, result(prog, kind, n))
                return out
            if "Atomic" in base and s == "new":
                st.q = st.q | {("flag", it.strip(st, args[0]).t[1])}
                return it.finish(st, t, mk("sym", "flag"))
            if "Atomic" in base and s in ("store", "fetch_or", "swap"):
                x = it.strip(st, args[1])
                if x.k == "k" and (s != "fetch_or" or x.t[1]):
                    st.q = frozenset(y for y in st.q if not (isinstance(y, tuple) and y[0] == "flag")) | {("flag", x.t[1])}
                return it.finish(st, t, UNIT)
            if "Atomic" in base and s in ("load", "into_inner"):
                got = [y[1] for y in st.q if isinstance(y, tuple) and y[0] == "flag"]
                if len(got) != 1:
                    raise ToolError("the flag for failing is not followed")
                return it.finish(st, t, mk("k", got[0]))
            if base.startswith("std::io::stdio::"):
                return it.finish(st, t, UNIT)
            return None

        def after(st, fr, v):
            t = st.top.fn.blocks[st.top.block]["t"]
            if fr.discard[0] == "each":
                return it.finish(st, t, ok(UNIT))
            cl = [x for x in walk(it.strip(st, v), limit=30) if x.k == "clos"]
            if not cl:
                raise ToolError("what is done with each document is not followed")
            r = it.call_closure(st, t, cl[0], [mk("sym", "source"), mk("sym", "path"), mk("sym", "out")], "closure", discard=("each", 0))
            if not r:
                raise ToolError("what is done with each document is not followed")
            return r

        it = Interp(prog, hook=hook, opaque=lambda g: not g.id.startswith(("oxvg::commands::lint::Check", "<oxvg::commands::lint::Check")), track=lambda v: True, max_states=5000, explore_closures=False)
        it.pure = lambda n: True
        it.after_discard = after
        ends = it.run(f, args=[me, mk("sym", "config")], q=frozenset())
        ctx.analysed(*it.visited_fns)
        n = 0
        for e in ends:
            if e.kind != "ret":
                continue
            got = [x for x in e.state.q if isinstance(x, tuple) and x[0] == "result"]
            res = [x for x in walk(it.strip(e.state, e.value), limit=30) if x.k == "adt" and x.t[1] == RESULT]
            if not res:
                raise ToolError("the result of the command is not followed")
            failed = res[0].t[2] == 1
            if "no walk" in e.state.q:
                ctx.obligation(failed, "command: walk", f.where(), "the lint command succeeds although the documents could not be read")
                continue
            if not got:
                ctx.obligation(False, "command: skipped", f.where(), "a document is not linted")
                continue
            n += 1
            _, kind, nums = got[0]
            if "failed before" in e.state.q:
                ctx.obligation(failed, f"command: after a failure, {level} {kind}", f.where(), f"the lint command forgets an earlier document's failure when linting gives {kind} {nums or ''}")
                continue
            want = FAILS[level](*nums) if kind == "Reported" else kind != "Ok"
            ctx.obligation(failed is want, f"command: {level} {kind}", f.where(),
                           f"with level {level} the lint command {'fails' if failed else 'succeeds'} where linting gave {kind} {nums or ''}")
            p = Path(prog, it, e.state)
            given = some(lambda v: repr(v).endswith("config.lint"))(p)
            used = " ".join(x[1] for x in e.state.q if isinstance(x, tuple) and x[0] == "rules")
            if given is True:
                ctx.obligation("config.lint" in used, "command: rules", f.where(), "the rules of the configuration are not used")
            elif given is False:
                ctx.obligation("recommended" in used, "command: default rules", f.where(), "without rules in the configuration the recommended ones are not used")
        ctx.count("results and levels tried", n)
    ctx.floor("results and levels tried", 12)


def result(prog, kind, n):
    if kind == "Ok":
        return ok(UNIT)
    i = variant(prog, FAIL, kind)
    fs = prog.adts[FAIL].variants[i].fields
    if n is None:
        return err(mk("adt", FAIL, i, tuple(mk("sym", f"{kind}.{x[0]}") for x in fs)))
    return err(mk("adt", FAIL, i, tuple(mk("k", dict(errors=n[0], warnings=n[1])[x[0]]) for x in fs)))


def diagnostic(ctx, prog):
    """A problem is shown in the editor with its severity, its text and its place."""
    fs = [f for f in prog.fns.values() if f.id.startswith("oxvg::commands::lint::lsp::") and f.kind == "fn" and
          "Diagnostic" in prog.tys(f, f.locals[0]) and any(prog.tys(f, f.locals[i]).endswith("error::Error") for i in range(1, f.argc + 1))]
    if not fs:
        raise ToolError("problems are turned into diagnostics in another way")
    f = fs[0]
    names = [x[0] for x in prog.adts[ERROR].variants[0].fields]
    for s in severities(prog):
        for there in (True, False):
            r = list(sample(prog, s).t[3])
            rng = mk("adt", "core::ops::range::Range", 0, (mk("sym", "from"), mk("sym", "to")))
            r[names.index("range")] = option_some(rng) if there else NONE
            it = Interp(prog, opaque=lambda g: True, track=lambda v: True, max_states=2000)
            it.pure = lambda n: True
            args = [mk("adt", ERROR, 0, tuple(r)) if prog.tys(f, f.locals[i]).endswith("error::Error") else mk("sym", f"a{i}") for i in range(1, f.argc + 1)]
            for e in it.run(f, args=args, q=frozenset()):
                v = it.strip(e.state, e.value) if e.kind == "ret" else None
                if v is None or v.k not in ("adt", "upd"):
                    continue
                d = diagnostic_fields(prog, it, e.state, v)
                if "severity" not in d:
                    ctx.undecide("diagnostic", "built in another way")
                    continue
                ctx.count("diagnostics")
                sev = repr(it.strip(e.state, d["severity"]))
                want = {"Off": "None|Option#0", "Warn": "WARNING|DiagnosticSeverity#0\\(2\\)", "Error": "ERROR|DiagnosticSeverity#0\\(1\\)"}[s]
                ctx.obligation(re.search(want, sev) is not None, f"diagnostic: {s}", f.where(), f"a problem of severity {s} is shown as {sev}")
                ctx.obligation("problem.problem" in repr_deep(d.get("message")), "diagnostic: message", f.where(), "the text shown is not the problem's")
                pos = [x for x in walk(d["range"], limit=60) if x.k == "res" and short(x.t[2]) == "to_line_and_col"] if "range" in d else []
                if there:
                    ends = d["range"].t[3] if "range" in d and d["range"].k == "adt" else ()
                    for n, x in zip(("from", "to"), ends):
                        ctx.obligation({"from", "to"} & {y.t[1] for y in walk(x, limit=60) if y.k == "sym"} == {n}, f"diagnostic: {n}", f.where(), f"the place shown does not go {n} where the problem does")
                        ctx.obligation(straight(x), f"diagnostic: line and column {n}", f.where(), "line and column are mixed up")
                else:
                    ctx.obligation(not pos, "diagnostic: no place", f.where(), "a problem without a place is shown at one")
    ctx.floor("diagnostics", 3)


def straight(x):
    """Position built from (line, column) in this order."""
    x = [y for y in walk(x, limit=30) if y.k == "res" and short(y.t[2]) == "new" and "Position" in y.t[2] or y.k == "adt" and short(y.t[1]) == "Position"]
    if not x:
        return True
    a = x[0].t[3]
    got = [set(re.findall(r"\)\.(\d)\b", repr(y))) for y in a]
    return all(not g or g == {str(i)} for i, g in enumerate(got))


def repr_deep(v):
    if v is None:
        return ""
    return " ".join(str(x.t[1]) for x in walk(v, limit=40) if x.k == "sym")


def diagnostic_fields(prog, it, st, v):
    a = prog.adts.get("ls_types::Diagnostic") or next((x for i, x in prog.adts.items() if i.endswith("::Diagnostic")), None)
    if a is None or v.k != "adt":
        return {}
    return {x[0]: it.strip(st, y) for x, y in zip(a.variants[0].fields, v.t[3])}


def analysis(ctx, prog):
    """The server shows every problem."""
    fs = [f for f in prog.fns.values() if f.id.startswith("oxvg::commands::lint::lsp::") and any(
        t[1][0] == "k" and short(t[1][1].get("fn", "")).startswith("start") and "visitor::Visitor" in (t[1][1].get("trait") or t[1][1]["fn"]) for _, t in f.calls())]
    if not fs:
        raise ToolError("the server lints in another way")
    errors = mk("sym", "errors")

    def hook(it, st, t, name, c, args):
        s = short(c["fn"])
        if s.startswith("start") and "visitor::Visitor" in (c.get("trait") or c["fn"]):
            none = st.copy()
            none.q = none.q | {"nothing found"}
            st.q = st.q | {"found"}
            return it.finish(none, t, ok(mk("sym", "outcome"))) + it.finish(st, t, err(errors))
        if s in LEAVES_OUT and args and errors in set(walk(it.strip(st, args[0]), limit=30)):
            st.q = st.q | {"cut"}
        return None

    for f in fs:
        it = Interp(prog, hook=hook, opaque=lambda g: True, track=lambda v: True, max_states=2000, explore_closures=False)
        it.pure = lambda n: True
        for e in it.run(f, q=frozenset()):
            v = it.strip(e.state, e.value) if e.kind == "ret" else None
            if v is None or v.k != "adt" or v.t[1] != RESULT:
                continue
            ctx.count("analyses for the editor")
            if "found" in e.state.q:
                ctx.obligation(v.t[2] == 1 and "cut" not in e.state.q, "server: every problem", f.where(), "problems found in a text are left out for the editor")
            else:
                ctx.obligation(v.t[2] == 0, "server: no problem", f.where(), "a text without problems is shown with some")


def server(ctx, prog):
    """What is found in a text is published for every text that can be parsed."""
    fs = [f for f in prog.fns.values() if f.id.startswith("oxvg::commands::lint::lsp::Backend::") and "Pin<" in prog.tys(f, f.locals[1] if f.argc else 0) and
          any(short((t[1][1] or {}).get("fn", "")).startswith("send_notification") or short((t[1][1] or {}).get("fn", "")) == "publish_diagnostics" for _, t in f.calls() if t[1][0] == "k")]
    if not fs:
        raise ToolError("nothing is published")
    f = fs[0]

    def hook(it, st, t, name, c, args):
        base, s = c["fn"], short(c["fn"])
        if base.startswith("oxvg_ast::parse::") and s.startswith("parse"):
            out = []
            for kind, val in (("not parsed", err(mk("sym", "parse error"))), ("clean", ok(ok(UNIT))), ("found", ok(err(mk("sym", "diagnostics"))))):
                s2 = st.copy()
                s2.q = s2.q | {kind}
                out += it.finish(s2, t, val)
            return out
        if s in ("send_notification", "publish_diagnostics"):
            st.q = st.q | {("sent", tuple(it.strip(st, a) for a in args))}
            return it.finish(st, t, mk("sym", "sending"))
        return None

    it = Interp(prog, hook=hook, opaque=lambda g: True, track=lambda v: True, max_states=5000, explore_closures=False)
    it.pure = lambda n: True
    ends = it.run(f, q=frozenset())
    ctx.analysed(*it.visited_fns)
    n = 0
    for e in ends:
        q = e.state.q
        kind = [x for x in q if isinstance(x, str)]
        if not kind:
            continue
        sent = [x for x in q if isinstance(x, tuple) and x[0] == "sent"]
        n += 1
        if kind[0] == "clean":
            ctx.obligation(bool(sent), "server: cleared", f.where(), "a text without problems keeps the problems shown for it before")
            ctx.obligation(not sent or mk("sym", "diagnostics") not in set(y for a in sent[0][1] for y in walk(a, limit=60)), "server: cleared with none", f.where(), "problems are shown for a text without any")
        if kind[0] == "found":
            ctx.obligation(bool(sent) and any(mk("sym", "diagnostics") in set(walk(a, limit=60)) for a in sent[0][1]), "server: published", f.where(), "problems found in a text are not shown")
    ctx.count("outcomes for the editor", n)
    ctx.floor("outcomes for the editor", 2)
