"""The commands of the command line: what a command hands to the walker and what that does per document."""
from facts import ToolError
from interp import Interp, mk, TRUE, FALSE, UNIT
from terms import walk, RESULT, OPTION

CRATES = ["oxvg.lib", "oxvg.bin", "oxvg_ast.lib"]
RUN_COMMAND = "oxvg::args::RunCommand"
WALK_RUN = "oxvg::walk::Walk::run"
WALK = "oxvg::walk::Walk"
LINTING = "oxvg_lint::error::LintingError"
READ_ONLY = ("metadata", "symlink_metadata", "exists", "try_exists", "canonicalize", "is_terminal")
ATOMIC = "core::sync::atomic::Atomic"


def result(ok, v):
    return mk("adt", RESULT, 0 if ok else 1, (v,))


def returns_result(prog, st, t):
    if t[3][1]:
        return False
    return prog.local_ty(st.top.fn, t[3][0])["s"].startswith("core::result::Result<")


def is_fs(base):
    return base.startswith("std::fs::") or base.startswith("<std::fs::") or base.startswith("std::path::Path::")


def fallible(prog, st, t, name, base):
    """Whether a call is an operation on a document that can fail."""
    if not returns_result(prog, st, t):
        return False
    last = base.rsplit("::", 1)[-1]
    if is_fs(base) or is_fs(name):
        return last not in READ_ONLY and not base.startswith("std::path::Path::strip_prefix")
    if "io::Write::" in base or "io::Read::" in base or base.startswith(("std::io::", "alloc::io::", "core::io::")):
        return last not in ("from",)
    if base.startswith("roxmltree::") or base.startswith("<roxmltree::"):
        return True
    f = prog.get(name)
    if f is not None and f.kind == "extern":
        return False
    crate = name.lstrip("<").split("::", 1)[0].split(" ", 1)[0]
    return crate.startswith("oxvg_") or base.startswith("oxvg_")


def commands(prog):
    """The functions run for a command."""
    out = []
    for (trait, _), impls in prog.impl_index.items():
        if trait != RUN_COMMAND:
            continue
        for im in impls:
            for n, fid in im["items"]:
                if n == "run" and fid in prog.fns:
                    out.append(prog.fns[fid])
    return sorted(out, key=lambda f: f.id)


def atom_id(v):
    """What a reference to an atomic stands for: the call that made it."""
    for x in walk(v):
        if x.k == "res" and ATOMIC in x.t[2] and x.t[2].endswith("::new"):
            return x
        if x.k == "res" and x.t[2].endswith(("Mutex::new", "RwLock::new")):
            return x
    return None


def atom_any(v):
    a = atom_id(v)
    if a is not None:
        return a
    syms = [x for x in walk(v) if x.k == "sym"]
    return syms[0] if syms else v


SETS = ("::store", "::swap", "::fetch_or", "::fetch_add", "::fetch_max", "::set")


def is_set(base):
    return ATOMIC in base and base.endswith(SETS)


def is_load(base):
    return ATOMIC in base and base.endswith(("::load", "::into_inner", "::get_mut", "::take"))


def scoped_set(it, st, t, base, args):
    """A thread-local set around a closure gives the closure's result."""
    if base.endswith("ScopedKey::set") and len(args) == 3:
        return it.call_closure(st, t, args[2], [], "scoped")
    return None


class Command:
    """What is known of one command that walks documents."""

    def __init__(self, fn):
        self.fn = fn
        self.factories = []
        self.ends = []


def is_walk_run(name, base):
    return name == WALK_RUN or base == WALK_RUN


def plain(f):
    """A closure with what it captures reduced to flags and plain parts of the command."""
    if f.k == "refv":
        return mk("refv", plain(f.t[1]))
    if f.k != "clos":
        return f
    ups = []
    for i, u in enumerate(f.t[2]):
        simple = all(x.k in ("sym", "fld", "deref", "ref", "refv", "k", "guard") for x in walk(u))
        ups.append(u if simple or atom_id(u) is not None else mk("sym", f"capture{i}"))
    return mk("clos", f.t[1], tuple(ups))


def survey(prog, fn, flags=frozenset()):
    """Runs a command up to its end, with the walk and the reads of the given flags split by outcome.

    The state of the automaton is (walk: None/'ok'/'err', frozenset of (flag, value read after the walk)).
    """
    cmd = Command(fn)

    def hook(it, st, t, name, c, args):
        base = c["fn"]
        if is_walk_run(name, base):
            w = plain(it.strip(st, args[1]))
            if w not in cmd.factories:
                cmd.factories.append(w)
            if st.q[0] is not None:
                raise ToolError(f"{fn.id}: walks twice")
            out = []
            for ok in (True, False):
                s2 = st.copy()
                s2.q = ("ok" if ok else "err", s2.q[1])
                out += it.finish(s2, t, result(ok, UNIT if ok else mk("sym", "walk error")))
            return out
        if is_load(base):
            a = atom_any(it.strip(st, args[0]))
            if a in flags:
                out = []
                b = "<bool>" in base
                for val in (True, False):
                    s2 = st.copy()
                    # a flag read before the walk says nothing of it
                    if s2.q[0] is not None:
                        s2.q = (s2.q[0], s2.q[1] | {(a, val)})
                    elif val:
                        continue
                    out += it.finish(s2, t, mk("k", val if b else int(val)))
                return out
        r = scoped_set(it, st, t, base, args)
        if r is not None:
            return r
        return None

    it = Interp(prog, hook=hook, opaque=lambda f: f.crate != "oxvg.lib" or f.id.endswith("::parse_template"), max_states=40000, max_depth=10,
                track=lambda v: False)
    it.pure = lambda n: True
    cmd.ends = [e for e in it.run(fn, q=(None, frozenset())) if e.kind == "ret"]
    cmd.interp = it
    return cmd


def visitors(prog, cmd):
    """The per-document closures the factories of a command give to the walker."""
    out = []
    for f in cmd.factories:
        if f.k == "refv":
            f = f.t[1]
        if f.k != "clos" or f.t[1] not in prog.fns:
            raise ToolError(f"{cmd.fn.id}: the walk is not given a closure")
        fn = prog.fns[f.t[1]]
        out += products(prog, fn, f)
    return out


def products(prog, fn, f):
    """The closures a factory closure makes."""
    it = Interp(prog, opaque=lambda g: g.crate != "oxvg.lib", track=lambda v: False, max_states=4000, explore_closures=False)
    it.pure = lambda n: True
    selfty = prog.local_ty(fn, 1)
    a0 = mk("refv", f) if selfty["k"] == "ref" else f
    out = []
    for e in it.run(fn, args=[a0]):
        if e.kind != "ret":
            continue
        v = it.strip(e.state, e.value)
        found = [x for x in walk(v) if x.k == "clos"]
        if not found:
            raise ToolError(f"{fn.id}: gives no closure for the documents")
        if found[0] not in out:
            out.append(found[0])
    return out


def lint_forks(prog, it, st, t, name, mark):
    """The outcomes of linting: nothing found, problems reported, or a failure."""
    adt = prog.adts.get(LINTING)
    out = []
    s2 = st.copy()
    out += it.finish(s2, t, result(True, UNIT))
    s2 = st.copy()
    mark(s2, "reported")
    if adt is not None:
        v = adt.variant("Reported")
        rep = mk("adt", LINTING, v.idx, tuple(mk("sym", f[0]) for f in v.fields))
        discr = v.discr
    else:
        rep, discr = mk("sym", "reported"), None
    out += it.finish(s2, t, result(False, rep))
    s2 = st.copy()
    mark(s2, "failed")
    e = mk("sym", "lint failure")
    if discr is not None:
        s2.facts[mk("discr", e)] = ("!", frozenset((discr,)))
    out += it.finish(s2, t, result(False, e))
    return out


def follow(prog, clos, argc, events, hook_extra=None, track=None, args=None, q0=None, opaque=None):
    """Follows a per-document closure on all paths; events(it, st, t, name, base, args) may claim a call."""
    fn = prog.fns[clos.t[1]]

    def hook(it, st, t, name, c, args):
        return events(it, st, t, name, c, args)

    def default_opaque(f):
        if f.crate == "oxvg.lib":
            return False
        if f.crate == "oxvg_ast.lib":
            return not f.id.startswith("oxvg_ast::parse::roxmltree::parse")
        return True

    it = Interp(prog, hook=hook, opaque=opaque or default_opaque, track=track or (lambda v: False), max_states=40000, max_depth=12)
    it.pure = lambda n: not ("next" in n)
    selfty = prog.local_ty(fn, 1)
    a0 = mk("refv", clos) if selfty["k"] == "ref" else clos
    names = args or ["source", "path", "output"]
    vals = [a0] + [mk("sym", n) for n in names]
    ends = [e for e in it.run(fn, args=vals, q=q0) if e.kind == "ret"]
    return it, ends


def walker(prog, hook=None, q=None, track=None):
    """Follows the walker; gives (interpreter, ends, closures given to the directory walk, by the state they were given in)."""
    fn = prog.fn(WALK_RUN)
    found = []

    def outer(it, st, t, name, c, args):
        base = c["fn"]
        if base.endswith("WalkParallel::run"):
            w = it.strip(st, args[1])
            if w.k == "refv":
                w = w.t[1]
            if w.k != "clos":
                raise ToolError(f"{fn.id}: the directory walk is not given a closure")
            if w not in found:
                found.append(w)
        if hook is not None:
            r = hook(it, st, t, name, c, args)
            if r is not None:
                return r
        if base.endswith("WalkParallel::run"):
            return it.finish(st, t, UNIT)
        return None

    it = Interp(prog, hook=outer, opaque=lambda f: f.crate != "oxvg.lib", track=track or (lambda v: False), max_states=20000)
    it.pure = lambda n: "next" not in n
    ends = [e for e in it.run(fn, q=q) if e.kind == "ret"]
    if not found:
        raise ToolError(f"{fn.id}: no directory walk found")
    return it, ends, found


def is_callable(it, st, v):
    """Whether a called value is a closure or function whose body is known."""
    n = 0
    while v.k in ("ref", "refv") and n < 4:
        v = it.read(st, v.t[2], v.t[3]) if v.k == "ref" else v.t[1]
        n += 1
    return v.k in ("clos", "fn")


def is_visit(it, st, base, args):
    """A call of the per-document closure the walker was given."""
    return base.startswith("core::ops::function::Fn") and len(args) == 2 and not is_callable(it, st, args[0])


def entries(prog):
    """The closures called for each entry of a directory."""
    out = []
    for f in walker(prog)[2]:
        for clos in products(prog, prog.fns[f.t[1]], f):
            if clos not in out:
                out.append(clos)
    return out


def follow_entry(prog, clos, arg, hook, q=None, track=None):
    fn = prog.fns[clos.t[1]]
    it = Interp(prog, hook=hook, opaque=lambda f: f.crate != "oxvg.lib", track=track or (lambda v: False), max_states=20000)
    it.pure = lambda n: True
    a0 = mk("refv", clos) if prog.local_ty(fn, 1)["k"] == "ref" else clos
    return it, [e for e in it.run(fn, args=[a0, arg], q=q) if e.kind == "ret"]
