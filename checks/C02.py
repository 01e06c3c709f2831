"""Commands write where they are asked to, and only once the document is done."""
import cli
from cli import fallible, is_fs, result
from facts import ToolError
from interp import mk, UNIT
from terms import NONE, is_none, is_some, option_known, peel, some, walk, callees

TECHNIQUE = "effect and ordering analysis of file writes over MIR, with provenance of the written path"
EXPLANATION = (
    "Every command that walks documents is followed per document for each combination of input (a file or standard input) and destination "
    "(none or a path). Each call that creates, truncates, renames or removes a file is an effect: its path must come from the destination, "
    "it must not happen on a path where an operation on the document failed, and no further processing may follow it. The walker is "
    "followed to show which destination it hands over for each form of the output option."
)
LEVEL_NOTE = "All paths of every command and of the walker. File-system calls are recognised by their std path; a write through another crate would not be seen."

DESTRUCTIVE = ("std::fs::write", "std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::rename",
               "std::fs::copy", "std::fs::remove_file", "std::fs::remove_dir", "std::fs::remove_dir_all", "std::fs::hard_link",
               "std::fs::File::set_len")


def destructive(name, base):
    return any(n == d for n in (name, base) for d in DESTRUCTIVE)


def short(fn):
    return fn.id.split(" as ")[0].lstrip("<").rsplit("::", 1)[-1].lower()


def check(ctx):
    prog = ctx.program("native", cli.CRATES)
    writers = 0
    for fn in cli.commands(prog):
        cmd = cli.survey(prog, fn)
        if not cmd.factories:
            continue
        for clos in cli.visitors(prog, cmd):
            writers += one(ctx, prog, fn, clos)
    ctx.count("writing_commands", writers)
    ctx.floor("writing_commands", 4)
    destinations(ctx, prog)


DEST = mk("sym", "destination")
INPUT = mk("sym", "input")


def one(ctx, prog, fn, clos):
    who = short(fn)
    wrote_any = False
    runs = []
    for has_in in (True, False):
        for has_out in (True, False):
            it, ends = follow(ctx, prog, who, clos, has_in, has_out)
            ctx.analysed(*it.visited_fns)
            runs.append((has_in, has_out, ends))
            if any(e.state.q[1] for e in ends):
                wrote_any = True
    if not wrote_any:
        ctx.obligation(True, f"{who}: writes nothing", "", "")
        return 0
    # commands that put the result next to the input when no destination is given
    beside = any(e.state.q[1] for has_in, has_out, ends in runs for e in ends if has_in and not has_out)
    renames = all(dst == "derived" for has_in, has_out, ends in runs for e in ends for dst, _ in e.state.q[1])
    for has_in, has_out, ends in runs:
        done = 0
        for e in ends:
            failed, wrote, printed, soft = e.state.q
            what = f"{'file' if has_in else 'stdin'} to {'destination' if has_out else 'none'}"
            if failed:
                continue
            done += 1
            if has_out:
                ctx.obligation(bool(wrote) or (not has_in and printed), f"{who}: {what} not written", fn.where(),
                               f"{who}: a document can be handled without failure and not be written to the destination")
                for d, where in wrote:
                    ctx.obligation(d in ("destination", "derived"), f"{who}: {what} elsewhere", where, f"{who}: a file other than the destination is written")
            elif beside and renames and has_in:
                ctx.obligation(all(d == "derived" for d, _ in wrote), f"{who}: {what} elsewhere", fn.where(), f"{who}: the input itself is overwritten")
            else:
                ctx.obligation(not wrote, f"{who}: {what} written", fn.where(), f"{who}: a file is written although no output was asked for")
                ctx.obligation(printed, f"{who}: {what} not printed", fn.where(), f"{who}: the result is not printed when no output is asked for")
        ctx.count("paths", done)
        if not done:
            raise ToolError(f"{fn.id}: no path on which a document is done")
    return 1


def kind_of(v):
    """What a written path comes from."""
    p = v
    while True:
        q = peel(p)
        if q.k == "res" and q.t[2].endswith(("::deref", "::as_ref", "::as_path", "::to_path_buf", "::to_owned", "::borrow")) and len(q.t[3]) == 1:
            q = q.t[3][0]
        if q is p:
            break
        p = q
    if p is DEST:
        return "destination"
    if p is INPUT:
        return "input"
    syms = {x for x in walk(v) if x in (DEST, INPUT)}
    return "derived" if syms else "other"


def follow(ctx, prog, who, clos, has_in, has_out):
    fn = prog.fns[clos.t[1]]

    def events(it, st, t, name, c, args):
        base = c["fn"]
        failed, wrote, printed, soft = st.q
        where = st.top.fn.where(t[5])
        target = prog.get(name)
        inlined = target is not None and it.can_inline(st, target)
        vals = None
        if "io::stdio::_print" in base or "std::io::_print" in base:
            st.q = (failed, wrote, True, soft)
            return None
        if inlined:
            return None
        if name.startswith("std::path::PathBuf::") and name.endswith(("::set_extension", "::set_file_name", "::push", "::pop")):
            root, path = it.deref_loc(args[0])
            old = it.strip(st, it.read(st, root, path))
            it.write(st, root, path, mk("res", None, name, (old,) + tuple(it.strip(st, a) for a in args[1:])))
            return it.finish(st, t, mk("sym", "changed"))
        if destructive(name, base):
            path = args[1] if base.endswith("OpenOptions::open") else args[1] if base.endswith(("rename", "copy", "hard_link")) else args[0]
            d = kind_of(it.strip(st, path))
            if failed:
                ctx.obligation(False, f"{who}: writes after {failed}", where, f"{who}: a file is written although {failed} failed")
            if d == "other":
                ctx.obligation(False, f"{who}: unrelated file", where, f"{who}: a file is written that is neither the destination nor next to it")
            if d == "input":
                ctx.obligation(False, f"{who}: input overwritten", where, f"{who}: the input is overwritten although it is not the destination")
            if not has_out and not has_in:
                ctx.obligation(False, f"{who}: written from stdin", where, f"{who}: a file is written although no output was asked for")
            st.q = (failed, wrote | {(d, where)}, printed, soft)
        if fallible(prog, st, t, name, base):
            fs = is_fs(base) or is_fs(name)
            vals = tuple(it.strip(st, a) for a in args)
            to_out = any("std::io::stdio::stdout" in n or n.endswith("io::stdout") for v in vals for n in callees(v))
            io = "io::" in base
            if not fs and not io and st.q[1]:
                ctx.obligation(False, f"{who}: {name.rsplit('::', 1)[-1]} after the write", where,
                               f"{who}: the file is replaced before {name.rsplit('::', 1)[-1]} is done, which can still fail")
            ctx.count("fallible_calls")
            out = []
            for ok in (True, False):
                s2 = st.copy()
                f2, w2, p2, s_ = s2.q
                s2.q = (f2 or (None if ok else name.rsplit("::", 1)[-1]), w2, p2 or to_out, s_)
                out += it.finish(s2, t, result(ok, mk("res", None, name, vals[:1]) if ok else mk("sym", "failure")))
            return out
        return None

    from interp import Interp
    it = Interp(prog, hook=events, opaque=lambda f: not (f.crate == "oxvg.lib" or f.id.startswith("oxvg_ast::parse::roxmltree::parse")),
                track=lambda v: False, max_states=40000, max_depth=12)
    it.pure = lambda n: "next" not in n
    a0 = mk("refv", clos) if prog.local_ty(fn, 1)["k"] == "ref" else clos
    args = [a0, mk("sym", "source"), some(mk("refv", INPUT)) if has_in else NONE, some(mk("refv", DEST)) if has_out else NONE]
    ends = [e for e in it.run(fn, args=args, q=(None, frozenset(), False, False)) if e.kind == "ret"]
    return it, ends


def output_field(v):
    """The output option of the walk, inside a term."""
    for x in walk(v):
        if x.k == "fld" and isinstance(x.t[2], tuple) and x.t[2][0] == "f" and x.t[2][-1] == "output":
            return x
    return None


def mentions_output(v):
    return output_field(v) is not None


def destinations(ctx, prog):
    """The destination handed over for each form of the output option."""
    seen = {"none": 0, "bare": 0, "given": 0, "stdin": 0}

    def judge(it, st, tup, where, stdin):
        tup = it.strip(st, tup)
        if tup.k != "tup" or len(tup.t[1]) != 3:
            raise ToolError(f"{where}: the documents are handed over in an unknown form")
        _, inp, out = tup.t[1]
        opt = first = None
        for f in st.facts:
            if f.k != "discr" or not mentions_output(f):
                continue
            o = option_known(st.facts, f.t[1])
            if f.t[1].k == "fld" and f.t[1] is output_field(f):
                opt = o
            elif f.t[1].k == "res" and f.t[1].t[2].endswith(("::first", "::next", "::get", "::last")):
                first = o
        if stdin:
            seen["stdin"] += 1
            ctx.obligation(is_none(inp), "stdin: input", where, "a document from standard input is given an input path")
            if is_some(out):
                ctx.obligation(mentions_output(out), "stdin: destination", where, "the result of standard input goes somewhere else than the output option says")
            elif is_none(out):
                ctx.obligation(opt is False or first is False, "stdin: destination dropped", where, "the output option is ignored for standard input")
            return
        path = peel(inp.t[3][0]) if is_some(inp) else None
        if path is None:
            ctx.undecide("walk: input", "the path of the input is not known")
            return
        if opt is None:
            if is_none(out) or is_some(out) and not mentions_output(out):
                ctx.obligation(False, "walk: option ignored", where, "the destination does not depend on the output option")
            else:
                ctx.undecide("walk: destination", "the form of the output option is not known")
        elif opt is False:
            seen["none"] += 1
            ctx.obligation(is_none(out), "walk: none", where, "a destination is handed over although no output was asked for")
        elif first is False:
            seen["bare"] += 1
            ctx.obligation(is_some(out) and peel(out.t[3][0]) is path, "walk: bare flag", where, "the output flag without a value does not mean the input itself")
        elif first is True:
            seen["given"] += 1
            if not is_some(out):
                ctx.obligation(False, "walk: given", where, "no destination is handed over although one was given")
                return
            rel = any(n.endswith("strip_prefix") for n in callees(out))
            empty = any(f[1] is True and any(n.endswith("strip_prefix") for n in callees(v)) for v, f in st.facts.items() if f[0] == "=")
            ctx.obligation(mentions_output(out), "walk: given", where, "the destination is not the one given")
            ctx.obligation(rel or empty, "walk: relative", where, "the destination does not keep the document's place in the walked directory")
            ctx.obligation(not (rel and empty), "walk: file", where, "an empty relative path is appended to the given file")
        else:
            ctx.undecide("walk: destination", "whether the output option has a value is not known")

    def outer(it, st, t, name, c, args):
        if cli.is_visit(it, st, c["fn"], args) and it.strip(st, args[1]).k == "tup" and len(it.strip(st, args[1]).t[1]) == 3:
            judge(it, st, args[1], st.top.fn.where(t[5]), True)
            return it.finish(st, t, UNIT)
        return None

    it, _, _ = cli.walker(prog, outer, track=mentions_output)
    ctx.analysed(*it.visited_fns)

    def inner(it, st, t, name, c, args):
        if cli.is_visit(it, st, c["fn"], args):
            judge(it, st, args[1], st.top.fn.where(t[5]), False)
            return it.finish(st, t, UNIT)
        return None

    for clos in cli.entries(prog):
        it, _ = cli.follow_entry(prog, clos, result(True, mk("sym", "entry")), inner,
                                 track=lambda v: mentions_output(v) or any(n.endswith("strip_prefix") for n in callees(v)))
        ctx.analysed(*it.visited_fns)
    for k, n in seen.items():
        ctx.count(f"handed_over_{k}", n)
    if not seen["stdin"] or not (seen["none"] or seen["bare"] or seen["given"] or ctx.undecided or ctx.violations):
        raise ToolError("the documents are not handed over")
