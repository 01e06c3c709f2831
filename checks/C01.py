"""A command that fails on a document ends with failure."""
import cli
from cli import result, fallible, returns_result
from facts import ToolError
from interp import Interp, mk, UNIT
from terms import walk, RESULT, OPTION

TECHNIQUE = "failure-propagation analysis of the commands over MIR"
EXPLANATION = (
    "Every command that walks documents is followed from the command line to its result. Each operation on a document that "
    "can fail (reading, parsing, the jobs or actions, serialising, writing) is split into success and failure; on every path "
    "with a failure the command's failure flag is set, it is never cleared, and the walk goes on with the next document. After the walk the flag is read "
    "and decides the result of the command, which the program returns as its exit status."
)
LEVEL_NOTE = "All paths of every command, of the walker and of the program's entry. Trusts that the walker of the ignore crate calls the given closure for every entry."


def check(ctx):
    prog = ctx.program("native", cli.CRATES)
    walking = 0
    for fn in cli.commands(prog):
        if fn.id.endswith("}"):
            continue
        cmd = cli.survey(prog, fn)
        ctx.analysed(*cmd.interp.visited_fns)
        if not cmd.factories:
            continue
        walking += 1
        one(ctx, prog, fn, cmd)
    ctx.count("commands", walking)
    ctx.floor("commands", 4)
    walker(ctx, prog)
    delegates(ctx, prog)


def short(fn):
    return fn.id.split(" as ")[0].lstrip("<").rsplit("::", 1)[-1].lower()


def one(ctx, prog, fn, cmd):
    who = short(fn)
    flags = set()
    bad = []
    nfail = 0
    for clos in cli.visitors(prog, cmd):
        it, ends = follow_doc(ctx, prog, clos)
        ctx.analysed(*it.visited_fns)
        for e in ends:
            failed, sets, lint = e.state.q
            if failed and lint != "reported":
                nfail += 1
                good = {a for a, v in sets if v}
                flags |= good
                if not good:
                    bad.append((f"{who}: {failed[0]} unreported", failed[1], f"{who}: after {failed[0]} fails for a document the command does not remember that it failed"))
            if any(not v for a, v in sets):
                bad.append((f"{who}: flag cleared", fn.where(), f"{who}: handling a document can clear the failure of an earlier one"))
            if not failed and not lint and any(v for a, v in sets):
                bad.append((f"{who}: false failure", fn.where(), f"{who}: a document handled without failure is counted as failed"))
    ctx.count("failing_paths", nfail)
    if nfail == 0:
        raise ToolError(f"{fn.id}: no operation on a document that can fail was found")
    seen = set()
    for key, where, msg in bad:
        if key not in seen:
            seen.add(key)
            ctx.obligation(False, key, where, msg)
    if not bad:
        ctx.obligation(True, f"{who}: failures remembered", "", "")
    if not flags:
        return
    final = cli.survey(prog, fn, frozenset(flags))
    for e in final.ends:
        walked, reads = e.state.q
        if walked is None:
            continue
        if walked == "err":
            judge(ctx, e, "err", f"{who}: walk error", fn.where(), f"{who}: when the documents cannot be walked the command succeeds all the same")
            continue
        got = {v for a, v in reads}
        if not got:
            judge(ctx, e, "err", f"{who}: flag unread", fn.where(), f"{who}: the command can succeed without looking at whether a document failed")
        elif True in got:
            judge(ctx, e, "err", f"{who}: failure dropped", fn.where(), f"{who}: the command succeeds although a document failed")
        else:
            judge(ctx, e, "ok", f"{who}: failure made up", fn.where(), f"{who}: the command fails although no document did")


def judge(ctx, e, want, key, where, msg):
    """The end gives the wanted outcome; an outcome that is not known decides nothing."""
    kind = ret_kind(e)
    if kind == "?":
        ctx.undecide(key, "the result is not known")
    else:
        ctx.obligation(kind == want, key, where, msg)


def ret_kind(e):
    for x in walk(e.value):
        if x.k == "adt" and x.t[1] == RESULT:
            return "ok" if x.t[2] == 0 else "err"
    return "?"


def follow_doc(ctx, prog, clos, argnames=None):
    def events(it, st, t, name, c, args):
        base = c["fn"]
        failed, sets, lint = st.q
        if name.startswith("oxvg_lint::") and returns_result(prog, st, t):
            def mark(s2, what):
                s2.q = ((name.rsplit("::", 1)[-1], st.top.fn.where(t[5])), s2.q[1], what)
            return cli.lint_forks(prog, it, st, t, name, mark)
        if cli.is_set(base):
            a = cli.atom_any(it.strip(st, args[0]))
            v = args[1]
            on = not (v.k == "k" and not v.t[1])
            st.q = (failed, sets | {(a, on)}, lint)
            return it.finish(st, t, mk("res", None, base, ()))
        target = prog.get(name)
        inlined = target is not None and it.can_inline(st, target)
        if fallible(prog, st, t, name, base) and not inlined:
            out = []
            for ok in (True, False):
                s2 = st.copy()
                if not ok and not failed:
                    s2.q = ((name.rsplit("::", 1)[-1], st.top.fn.where(t[5])), sets, lint)
                out += it.finish(s2, t, result(ok, mk("res", None, name, tuple(it.strip(st, a) for a in args[:1])) if ok else mk("sym", "failure")))
            return out
        if not inlined and not lint and returns_result(prog, st, t):
            # an outcome that is not an operation on the document decides nothing
            st.q = (failed, sets, "other")
        return None
    return cli.follow(prog, clos, 3, events, q0=(None, frozenset(), None), args=argnames)


def walker(ctx, prog):
    """The walker: unreadable input is a failure of the walk, and no document ends the walk."""
    fn = prog.fn(cli.WALK_RUN)
    found = []

    def make(flags):
        def hook(it, st, t, name, c, args):
            base = c["fn"]
            failed, sets, walked, reads = st.q
            if base.endswith("WalkParallel::run"):
                w = it.strip(st, args[1])
                if w not in found:
                    found.append(w)
                st.q = (failed, sets, True, reads)
                return it.finish(st, t, UNIT)
            if base.startswith("core::ops::function::Fn"):
                return it.finish(st, t, mk("res", None, "visit", ()))
            if cli.is_load(base):
                a = cli.atom_any(it.strip(st, args[0]))
                if a in flags:
                    out = []
                    for val in (True, False):
                        s2 = st.copy()
                        if walked:
                            s2.q = (failed, sets, walked, reads | {val})
                        elif val:
                            continue
                        out += it.finish(s2, t, mk("k", val if "<bool>" in base else int(val)))
                    return out
            target = prog.get(name)
            inlined = target is not None and it.can_inline(st, target)
            if fallible(prog, st, t, name, base) and not inlined:
                out = []
                for ok in (True, False):
                    s2 = st.copy()
                    if not ok:
                        s2.q = ((name.rsplit("::", 1)[-1], st.top.fn.where(t[5])), sets, walked, reads)
                    out += it.finish(s2, t, result(ok, UNIT if ok else mk("sym", "failure")))
                return out
            return None

        it = Interp(prog, hook=hook, opaque=lambda f: f.crate != "oxvg.lib", track=lambda v: False, max_states=20000)
        it.pure = lambda n: "next" not in n
        ends = [e for e in it.run(fn, q=(None, frozenset(), False, frozenset())) if e.kind == "ret"]
        return it, ends

    it, ends = make(frozenset())
    ctx.analysed(*it.visited_fns)
    if not found:
        raise ToolError(f"{fn.id}: no directory walk found")
    flags = set()
    for f in found:
        if f.k == "refv":
            f = f.t[1]
        if f.k != "clos":
            raise ToolError(f"{fn.id}: the directory walk is not given a closure")
        for clos in cli.products(prog, prog.fns[f.t[1]], f):
            flags |= entry(ctx, prog, clos)
    if not flags:
        return
    it, ends = make(frozenset(flags))
    for e in ends:
        failed, sets, walked, reads = e.state.q
        if failed:
            judge(ctx, e, "err", f"walk: {failed[0]} dropped", failed[1], f"the walk succeeds although {failed[0]} failed")
        elif walked and not reads:
            judge(ctx, e, "err", "walk: flag unread", fn.where(), "the walk can succeed without looking at whether a path was read")
        elif True in reads:
            judge(ctx, e, "err", "walk: failure dropped", fn.where(), "the walk succeeds although a path could not be read")
        elif walked:
            judge(ctx, e, "ok", "walk: failure made up", fn.where(), "the walk fails although every path was read")


def entry(ctx, prog, clos):
    """One entry of a directory; its outcome is given as a Result."""
    flags = set()
    fn = prog.fns[clos.t[1]]

    def events(it, st, t, name, c, args):
        base = c["fn"]
        failed, sets, lint = st.q
        if base.startswith("core::ops::function::Fn") and args and not is_closure(it, st, args[0]):
            return it.finish(st, t, UNIT)
        if cli.is_set(base):
            a = cli.atom_any(it.strip(st, args[0]))
            v = args[1]
            st.q = (failed, sets | {(a, not (v.k == "k" and not v.t[1]))}, lint)
            return it.finish(st, t, UNIT)
        if fallible(prog, st, t, name, base):
            out = []
            for ok in (True, False):
                s2 = st.copy()
                if not ok:
                    s2.q = ((name.rsplit("::", 1)[-1], st.top.fn.where(t[5])), sets, lint)
                out += it.finish(s2, t, result(ok, mk("res", None, name, ()) if ok else mk("sym", "failure")))
            return out
        return None

    for ok in (True, False):
        def q0():
            return (None if ok else ("reading a directory entry", fn.where()), frozenset(), None)
        it = Interp(prog, hook=events, opaque=lambda f: f.crate != "oxvg.lib", track=lambda v: False, max_states=20000)
        it.pure = lambda n: True
        selfty = prog.local_ty(fn, 1)
        a0 = mk("refv", clos) if selfty["k"] == "ref" else clos
        ends = [e for e in it.run(fn, args=[a0, result(ok, mk("sym", "entry"))], q=q0()) if e.kind == "ret"]
        ctx.analysed(*it.visited_fns)
        for e in ends:
            failed, sets, _ = e.state.q
            good = {a for a, v in sets if v}
            flags |= good
            ctx.count("entry_paths")
            if failed:
                ctx.obligation(bool(good), f"walk: {failed[0]} unreported", failed[1], f"a path is passed over in silence after {failed[0]} fails")
            else:
                ctx.obligation(not good, "walk: false failure", fn.where(), "an entry read without failure is counted as failed")
            ctx.obligation(all(v for _, v in sets), "walk: flag cleared", fn.where(), "an entry can clear the failure of an earlier one")
            ctx.obligation(goes_on(prog, e.value), "walk: ends early", fn.where(), "the walk can end at a document instead of going on with the next")
    return flags


def is_closure(it, st, v):
    n = 0
    while v.k in ("ref", "refv") and n < 4:
        v = it.read(st, v.t[2], v.t[3]) if v.k == "ref" else v.t[1]
        n += 1
    return v.k in ("clos", "fn")


def goes_on(prog, v):
    if v.k == "adt" and v.t[1].endswith("WalkState"):
        adt = prog.adts.get(v.t[1])
        return v.t[2] == 0 if adt is None else adt.variants[v.t[2]].name == "Continue"
    return True


def delegates(ctx, prog):
    """Bodies that await other commands give their result on, up to the program's entry."""
    n = 0
    for fn in list(prog.fns.values()):
        if fn.kind != "closure" or not ("RunCommand>::run::{closure#0}" in fn.id and fn.id.endswith("run::{closure#0}") or fn.id == "oxvg::main::{closure#0}"):
            continue
        ret = prog.local_ty(fn, 0)["s"]
        if not ret.startswith("core::task::poll::Poll<core::result::Result<"):
            continue
        n += 1
        awaits(ctx, prog, fn)
    ctx.count("awaiting_bodies", n)
    main = prog.fns.get("oxvg::main")
    if main is None:
        raise ToolError("the program has no entry")
    ctx.floor("awaiting_bodies", 2)
    ctx.obligation(prog.local_ty(main, 0)["s"].startswith("core::result::Result<"), "main: result", main.where(), "the program does not return the result of the command")


def awaits(ctx, prog, fn):
    who = "main" if fn.id.startswith("oxvg::main") else short(fn)

    def hook(it, st, t, name, c, args):
        base = c["fn"]
        if base == "core::future::future::Future::poll" and not t[3][1]:
            ty = prog.local_ty(st.top.fn, t[3][0])["s"]
            if not ty.startswith("core::task::poll::Poll<core::result::Result<()"):
                return it.finish(st, t, mk("adt", "core::task::poll::Poll", 0, (mk("sym", "polled"),)))
            out = []
            for ok in (True, False):
                s2 = st.copy()
                s2.q = st.q | {ok}
                out += it.finish(s2, t, mk("adt", "core::task::poll::Poll", 0, (result(ok, UNIT if ok else mk("sym", "failure")),)))
            return out
        return None

    it = Interp(prog, hook=hook, opaque=lambda f: True, track=lambda v: v.k == "discr", max_states=20000)
    it.pure = lambda n: True
    start = mk("discr", mk("deref", mk("fld", mk("sym", "arg0"), ("f", 0, "pointer"))))
    ends = [e for e in it.run(fn, q=frozenset(), facts={start: ("=", 0)}) if e.kind == "ret"]
    ctx.analysed(*it.visited_fns)
    for e in ends:
        if False in e.state.q:
            judge(ctx, e, "err", f"{who}: awaited failure dropped", fn.where(), f"{who} succeeds although the command it awaits failed")
        elif True in e.state.q:
            judge(ctx, e, "ok", f"{who}: failure made up", fn.where(), f"{who} fails although the command it awaits succeeded")
    return
