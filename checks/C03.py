"""Which files the commands process."""
import cli
from cli import result
from facts import ToolError
from interp import mk, UNIT
from terms import is_none, is_some, known, option_known, peel, walk, callees

TECHNIQUE = "path-sensitive dataflow analysis of the directory walker over MIR"
EXPLANATION = (
    "The walker is followed from the command line's options. Each setting of the directory walk must follow its option, every given path must "
    "be walked, and each entry that is a file with the svg extension and can be read must be handed to the command exactly once with its own "
    "content and path, while every other entry is passed over."
)
LEVEL_NOTE = "All paths of the walker. What the ignore crate does with the settings is trusted."

LOSSY = ("::take", "::skip", "::step_by", "::filter", "::filter_map", "::take_while", "::skip_while", "::map_while")
SETTINGS = {
    # method of the builder: (option, whether it is negated)
    "hidden": ("hidden", True),
    "git_ignore": ("no_ignore", True),
    "ignore": ("no_ignore", True),
    "threads": ("threads", False),
}


def option_name(v):
    v = peel(v)
    if v.k == "fld" and isinstance(v.t[2], tuple) and v.t[2][0] == "f":
        return v.t[2][-1]
    return None


def setting(v, facts):
    """(option, negated) a setting follows, or a constant."""
    v = peel(v)
    neg = False
    while v.k == "un" and v.t[1] == "Not":
        neg = not neg
        v = peel(v.t[2])
    n = option_name(v)
    if n is not None:
        return n, neg
    if v.k == "k":
        return "constant", v.t[1]
    return None


def check(ctx):
    prog = ctx.program("native", cli.CRATES)
    builder(ctx, prog)
    for clos in cli.entries(prog):
        entry(ctx, prog, clos)


def builder(ctx, prog):
    seen = {}

    def opt_fact(st, name):
        for v, f in st.facts.items():
            if option_name(v) == name and f[0] == "=":
                return f[1]
        return None

    def hook(it, st, t, name, c, args):
        base = c["fn"]
        pend, sets = st.q
        where = st.top.fn.where(t[5])
        if "WalkBuilder::" in base:
            m = base.rsplit("::", 1)[-1]
            vals = [it.strip(st, a) for a in args]
            if m == "new":
                ok = any(x.k == "fld" and option_name(x) == "paths" for x in walk(vals[0]))
                ctx.obligation(ok, "root", where, "the directory that is walked is not one of the given paths")
                st.q = (pend, frozenset())
                return None
            if m in SETTINGS and len(vals) == 2:
                want, neg = SETTINGS[m]
                got = setting(vals[1], st.facts)
                st.q = (pend, sets | {m})
                if got is None:
                    ctx.undecide(f"setting {m}", "its value is not known")
                elif got[0] == "constant":
                    f = opt_fact(st, want)
                    if f is None:
                        ctx.obligation(False, f"setting {m}", where, f"the walk's {m} setting does not follow the option --{want.replace('_', '-')}")
                    else:
                        ctx.obligation(got[1] == (f ^ neg), f"setting {m}", where, f"the walk's {m} setting is the reverse of the option --{want.replace('_', '-')}")
                else:
                    ctx.obligation(got == (want, neg), f"setting {m}", where, f"the walk's {m} setting does not follow the option --{want.replace('_', '-')}")
                seen[m] = 1
            elif m == "max_depth":
                st.q = (pend, sets | {m})
                f = opt_fact(st, "recursive")
                v = vals[1]
                if f is None:
                    if is_some(v) or is_none(v):
                        ctx.obligation(False, "setting max_depth", where, "the depth of the walk does not follow the option --recursive")
                    else:
                        ctx.undecide("setting max_depth", "its value is not known")
                elif f:
                    ctx.obligation(is_none(v), "setting max_depth", where, "subdirectories are not walked without limit although --recursive is given")
                else:
                    ctx.obligation(is_some(v) and v.t[3][0].k == "k" and v.t[3][0].t[1] == 1, "setting max_depth", where, "subdirectories are walked although --recursive is not given")
                seen[m] = 1
            elif m in ("standard_filters",):
                ctx.undecide("standard_filters", "sets several settings at once")
                st.q = (pend, sets | set(SETTINGS))
            elif m in ("filter_entry", "types", "max_filesize", "same_file_system", "skip_stdout", "min_depth", "overrides"):
                ctx.obligation(False, f"setting {m}", where, f"entries are left out by the walk's {m} setting")
            return None
        if base.endswith(("WalkParallel::run", "Walk::next")):
            for m in list(SETTINGS) + ["max_depth"]:
                if m == "threads":
                    continue
                ctx.obligation(m in sets, f"setting {m} missing", where, f"the walk's {m} setting is not made on some path")
            st.q = ("walked" if pend == "pending" else "elsewhere", sets)
            return it.finish(st, t, UNIT)
        if base == "core::iter::traits::iterator::Iterator::next" and any(option_name(x) == "paths" for x in walk(it.strip(st, args[0]))):
            ctx.obligation(pend != "pending", "path passed over", where, "a given path is passed over")
            some_left = [n for n in callees(it.strip(st, args[0])) if "Iterator" in n and n.endswith(LOSSY)]
            ctx.obligation(not some_left, "paths left out", where, "some of the given paths are left out of the walk")
            ctx.count("iterations")
            v = mk("res", (st.top.fn.id, st.top.block), "next", (it.strip(st, args[0]),))
            out = []
            for more in (True, False):
                s2 = st.copy()
                s2.q = ("pending" if more else "done", frozenset())
                val = mk("adt", "core::option::Option", 1, (mk("fld", mk("fld", v, ("v", 1)), ("f", 0, "0")),)) if more else mk("adt", "core::option::Option", 0, ())
                out += it.finish(s2, t, val)
            return out
        return None

    it, ends, _ = cli.walker(prog, hook, q=("none", frozenset()), track=lambda v: option_name(v) == "recursive" or option_name(v) in ("hidden", "no_ignore"))
    ctx.analysed(*it.visited_fns)
    for e in ends:
        pend, _ = e.state.q
        ctx.obligation(pend not in ("pending", "walked"), "walk ends early", prog.fn(cli.WALK_RUN).where(), "the walk ends before every given path was walked")
    ctx.count("settings", len(seen))
    ctx.floor("settings", 4)


def entry(ctx, prog, clos):
    fn = prog.fns[clos.t[1]]
    kinds = {"visited": 0, "passed over": 0}

    def file_fact(st):
        """Whether the entry is known to be a file: True, False or None."""
        r = None
        for v, f in st.facts.items():
            if v.k == "res" and f[0] == "=" and v.t[2].endswith(("FileType::is_file", "Metadata::is_file", "Path::is_file")):
                return f[1]
            if v.k == "res" and f[0] == "=" and v.t[2].endswith(("FileType::is_dir", "Path::is_dir")) and f[1]:
                return False
            if v.k == "discr" and v.t[1].k == "res" and v.t[1].t[2].endswith("file_type") and option_known(st.facts, v.t[1]) is False:
                r = False
        return r

    def svg_fact(st):
        """Whether the extension is known to be svg."""
        for v, f in st.facts.items():
            if v.k == "res" and "PartialEq" in v.t[2] and f[0] == "=" and any(x.k == "k" and x.t[1] == "svg" for x in walk(v)) and ext(v):
                return f[1] ^ v.t[2].endswith("::ne")
            if v.k == "res" and f[0] == "=" and v.t[2].endswith(("is_some_and", "is_none_or", "eq_ignore_ascii_case")) and ext(v):
                return "?"
        for v, f in st.facts.items():
            if v.k == "discr" and ext(v) and option_known(st.facts, v.t[1]) is False:
                return False
        return None

    def ext(v):
        return any(n.endswith("Path::extension") or n.endswith("OsStr::to_str") for n in callees(v))

    def hook(it, st, t, name, c, args):
        base = c["fn"]
        visited, read, other = st.q
        if cli.is_visit(it, st, base, args):
            where = st.top.fn.where(t[5])
            tup = it.strip(st, args[1])
            ctx.obligation(not visited, "twice", where, "a document is handed to the command twice")
            ctx.obligation(file_fact(st) is not False, "non-file", where, "an entry that is no file is handed to the command")
            sv = svg_fact(st)
            if sv != "?":
                ctx.obligation(bool(sv), "extension", where, "a file without the svg extension is handed to the command")
            if tup.k == "tup" and len(tup.t[1]) == 3:
                src, inp, _ = tup.t[1]
                content = [x for x in walk(src) if x.k == "res" and x.t[2].endswith(("read_to_string", "fs::read"))]
                if content and is_some(inp):
                    a = root(content[0].t[3][0])
                    b = root(inp.t[3][0])
                    ctx.obligation(a is b, "content", where, "the content handed over is not that of the path handed over")
                ctx.obligation(not is_none(inp), "input", where, "the path of the document is not handed over")
            kinds["visited"] += 1
            st.q = (True, read, other)
            return it.finish(st, t, UNIT)
        if cli.fallible(prog, st, t, name, base):
            out = []
            for ok in (True, False):
                s2 = st.copy()
                s2.q = (visited, "failed" if not ok else read, other)
                out += it.finish(s2, t, result(ok, mk("res", None, name, tuple(it.strip(st, a) for a in args)) if ok else mk("sym", "failure")))
            return out
        if base.endswith("Path::strip_prefix"):
            out = []
            for ok in (True, False):
                s2 = st.copy()
                s2.q = (visited, read, other or not ok)
                out += it.finish(s2, t, result(ok, mk("res", None, name, tuple(it.strip(st, a) for a in args)) if ok else mk("sym", "failure")))
            return out
        return None

    def track(v):
        return any(n.endswith(("file_type", "is_file", "is_dir", "Path::extension", "to_str")) for n in callees(v))

    it, ends = cli.follow_entry(prog, clos, result(True, mk("sym", "entry")), hook, q=(False, None, False), track=track)
    ctx.analysed(*it.visited_fns)
    for e in ends:
        visited, read, other = e.state.q
        if visited or read == "failed" or other:
            continue
        kinds["passed over"] += 1
        f, s = file_fact(e.state), svg_fact(e.state)
        if s == "?":
            ctx.undecide("extension", "the comparison of the extension is not understood")
            continue
        ctx.obligation(f is False or s is False, "passed over", fn.where(), "a readable file with the svg extension can be passed over in silence")
    for k, n in kinds.items():
        ctx.count(k.replace(" ", "_"), n)
    if not kinds["visited"]:
        raise ToolError(f"{fn.id}: no entry is handed to the command")


def root(v):
    while True:
        v = peel(v)
        if v.k == "res" and v.t[2].endswith(("::deref", "::as_ref", "::as_path", "::to_path_buf")) and len(v.t[3]) == 1:
            v = v.t[3][0]
            continue
        return v
