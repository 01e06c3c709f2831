"""X01: the same document and options always give the same result.

Effect analysis over every body of the library crates: no call reads the clock, the environment, random numbers,
thread or process numbers; whatever comes out of a container in hash order reaches only order-free uses or is
sorted; closures handed to parallel iterators do not append to shared collections; process-wide tables are
memos keyed by everything their values depend on; option types hold no state."""
import re

import flow
from interp import Interp
from terms import walk

TECHNIQUE = "effect and order-flow analysis over MIR of every body of the library crates"
EXPLANATION = (
    "Every call in the library crates is looked at for reading the clock, the environment, random numbers, thread or process numbers. Whatever is taken out of a hash container is "
    "followed to where it goes: an order-free use, a sort, or a collection or text whose order a caller sees. Loops over hash containers and closures run in parallel may not append to "
    "collections that outlive them; process-wide tables must be keyed by everything their values are made from; the option types may hold nothing a run could change."
)
LEVEL_NOTE = "All bodies of the nine library crates; order is followed through locals, fields, closures and helper functions without regard to the path taken."

LIBS = ("oxvg_ast", "oxvg_collections", "oxvg_parse", "oxvg_path", "oxvg_serialize", "oxvg_optimiser", "oxvg_actions",
        "oxvg_lint", "oxvg_jsx")
AMBIENT = re.compile(
    r"^std::time::(?:SystemTime|Instant)(?:::.*)?::(?:now|elapsed)|^<?std::time::(?:SystemTime|Instant)>?::(?:now|elapsed)"
    r"|^std::env::(?:var|vars|var_os|vars_os|args|args_os|current_dir|current_exe|temp_dir|home_dir)$"
    r"|^std::process::id$|^std::thread::(?:current|current_id|available_parallelism)$|^rayon_core::current_(?:thread_index|num_threads)$"
    r"|^(?:rand|getrandom|fastrand|uuid)\w*::|^chrono::.*::now$"
    r"|RandomState.*::(?:hash_one|build_hasher)$|BuildHasher::(?:hash_one|build_hasher)$")
UNORDERED = re.compile(
    r"(?:hash::(?:map|set)|hash_map|hash_set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|"
    r"Union|Difference|Intersection|SymmetricDifference|ExtractIf)\b|dashmap::iter|rayon::collections::hash_(?:map|set)")
CONTAINER = re.compile(r"^(?:&mut |&)?(?:std::collections::hash::(?:map::HashMap|set::HashSet)|hashbrown::\w+::Hash\w+|dashmap::Dash\w+)<")
FREE = {"any", "all", "count", "len", "sum", "product", "min", "max", "is_empty", "size_hint", "is_subset", "for_each_drop",
        "eq", "ne", "clone", "drop", "by_ref", "contains", "fmt", "into_iter", "try_fold_free"}
FIRST = {"next_back", "find", "find_map", "find_any", "find_first", "find_map_first", "position", "last", "nth", "peek"}
TAKE = {"collect", "from_iter", "extend", "par_extend", "partition", "unzip", "collect_into", "collect_vec", "join", "format",
        "try_collect", "from_par_iter", "extend_from_slice"}
RACY = {"find_any", "find_map_any", "position_any", "par_bridge", "find_last_any"}
STATEFUL = re.compile(r"(?:core|std)::(?:cell|sync)::(?:\w+::)*(?:Cell|RefCell|OnceCell|UnsafeCell|Mutex|RwLock|OnceLock|Atomic\w+|LazyCell)\b|dashmap::DashMap|parking_lot")


def lib(crate):
    return crate.endswith(".lib") and crate[:-4] in LIBS


def ty(prog, fn, op):
    return prog.tys(fn, fn.locals[op[1][0]]) if op[0] in "cm" else ""


def short(f):
    return f.id


def check(ctx):
    prog = ctx.program("native")
    fns = [f for f in prog.fns.values() if lib(f.crate) and f.kind in ("fn", "method", "closure")]
    ctx.count("bodies of the library crates", len(fns))
    ctx.floor("bodies of the library crates", 1500)
    fills = flow.Fills(prog)
    for f in fns:
        ambient(ctx, prog, f)
        unordered(ctx, prog, f, fills)
        parallel(ctx, prog, f, fills)
    statics(ctx, prog)
    options(ctx, prog)


def ambient(ctx, prog, f):
    for _, t in f.calls():
        c = flow.callee(t)
        if c is None:
            continue
        ctx.count("calls looked at for ambient input")
        names = (c["fn"], c.get("res") or "")
        if any(AMBIENT.search(n) for n in names):
            ctx.violation(f"ambient {f.id} {c['fn']}", f.where(t[5]),
                          f"{f.id} calls {c['fn']}: its value differs from run to run, not with the document or the options")


def closures(prog, f, t):
    for a in t[2]:
        s = ty(prog, f, a)
        if "{closure#" in s:
            g = prog.fns.get(s.lstrip("&").removeprefix("mut "))
            if g is not None:
                yield g


def captured(ctx, prog, g, fills):
    """Calls in a closure that append to something it captured."""
    o = flow.Origins(prog, g)
    for i, t, a in fills.sinks(g):
        src = o.of(a[1][0])
        ls = {l for k, l in src if k == "local"}
        if 1 in ls and not any(2 <= l <= g.argc for l in ls):
            yield t


def target_ok(prog, f, local):
    s = prog.tys(f, f.locals[local])
    if flow.KEYED.search(s) or re.search(r"Hash(?:Map|Set)<|^\(\)$|^bool$|^usize$", s):
        return True
    return flow.sorted_later(prog, f, local)


def unordered(ctx, prog, f, fills):
    for i, t in f.calls():
        c = flow.callee(t)
        if c is None:
            continue
        at = [ty(prog, f, a) for a in t[2]]
        m = re.split(r"::", c["fn"])[-1]
        mine = [n for n, s in enumerate(at) if UNORDERED.search(s) or (CONTAINER.search(s) and m in TAKE and n > 0)]
        if not mine:
            if any(CONTAINER.search(s) for s in at[:1]) and UNORDERED.search(prog.tys(f, f.locals[t[3][0]])):
                ctx.count("places that start reading a container in hash order")
            continue
        dest = prog.tys(f, f.locals[t[3][0]])
        ctx.count("uses of values in hash order")
        key = f"order {f.id} {m}"
        for g in closures(prog, f, t):
            for ct in captured(ctx, prog, g, fills):
                ctx.violation(f"{key} captured", f.where(ct[5]),
                              f"{f.id} goes through a container in hash order and appends to a collection outside for each entry")
        if m == "next":
            inside = flow.loop(f, i)
            if not inside:
                if not guarded(prog, f, i):
                    ctx.violation(key, f.where(t[5]), f"{f.id} takes whichever entry comes first in hash order")
                continue
            body(ctx, prog, f, i, t, inside, fills)
        elif UNORDERED.search(dest) and m not in TAKE:
            continue
        elif m in FIRST:
            ctx.violation(key, f.where(t[5]), f"{f.id} keeps whichever entry `{m}` meets first in hash order")
        elif m in FREE or m in ("for_each", "try_for_each"):
            continue
        elif m in TAKE:
            if m in ("extend", "par_extend", "collect_into", "extend_from_slice"):
                op = t[2][0] if m != "collect_into" else t[2][1]
                s = ty(prog, f, op)
                if flow.KEYED.search(s):
                    continue
                ok = any(flow.sorted_later(prog, f, l) for l in roots(prog, f, op[1][0]))
                ctx.obligation(ok, key, f.where(t[5]),
                               f"{f.id} appends entries in hash order to {s.lstrip('&')} and never sorts them")
            else:
                ctx.obligation(target_ok(prog, f, t[3][0]), key, f.where(t[5]),
                               f"{f.id} builds {dest} from entries in hash order and never sorts it")
        else:
            ctx.undecide(key, f"{c['fn']} is given values in hash order")


def roots(prog, f, local):
    """Locals the place a handle points to lives in."""
    o, seen, todo = flow.Origins(prog, f), set(), [local]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for k, _, u, t in o.defs.get(l, ()):
            if k == "s" or flow.handle(prog, prog.tys(f, f.locals[l])):
                todo.extend(u)
    return seen


def guarded(prog, f, block):
    """Only one entry can be there: a test of the container's size comes before."""
    for i, t in f.calls():
        c = flow.callee(t)
        if c and re.search(r"::Hash(?:Map|Set)::len$", c["fn"]) and (block is None or block in flow.reach(f, i)):
            return True
    if f.kind == "closure":
        g = prog.fns.get(f.id.rsplit("::{closure", 1)[0])
        return g is not None and guarded(prog, g, None)
    return False


def body(ctx, prog, f, head, t, inside, fills):
    ctx.count("loops over a container in hash order")
    o = flow.Origins(prog, f, inside)
    counter(ctx, prog, f, inside)
    for i, s, a in fills.sinks(f, inside):
        src = o.of(a[1][0], stop={head})
        if ("call", head) in src or not any(k == "local" for k, _ in src):
            continue
        if any(flow.sorted_later(prog, f, l) for l in roots(prog, f, a[1][0])):
            continue
        c = flow.callee(s)
        ctx.violation(f"order {f.id} loop {c['fn'].split('::')[-1]}", f.where(s[5]),
                      f"{f.id} goes through a container in hash order and appends to a collection outside the loop with {c['fn']}")
    for i in inside:
        bt = f.blocks[i]["t"]
        if bt[0] == "call":
            for g in closures(prog, f, bt):
                ctx.count("closures in such loops")


NUMBER = re.compile(r"^(?:[iu](?:8|16|32|64|128|size))$")


def counter(ctx, prog, f, inside):
    """A number that runs along with the loop and is used for more than counting."""
    own, uses = {}, {}
    for i in inside:
        b = f.blocks[i]
        for s in b["s"]:
            if s[0] == "=":
                u = set()
                flow.places(s[2][1:], u)
                for l in u:
                    uses.setdefault(l, []).append((s[1][0], s[2][0], s[3]))
        if b["t"][0] == "call":
            for a in b["t"][2]:
                u = set()
                flow.places(a, u)
                for l in u:
                    uses.setdefault(l, []).append((None, "call", b["t"][5]))
    outer = set()
    for i, b in enumerate(f.blocks):
        if i not in inside:
            outer |= {s[1][0] for s in b["s"] if s[0] == "="}
    for l, us in uses.items():
        if l not in outer or not NUMBER.search(prog.tys(f, f.locals[l])):
            continue
        # l = f(l): what is computed from it and comes back into it
        back, todo = set(), [l]
        while todo:
            for d, k, _ in uses.get(todo.pop(), ()):
                if d is not None and k in ("use", "bin", "chk", "op", "un", "cast") and d not in back:
                    back.add(d)
                    todo.append(d)
        if l in back:
            other = [(d, n) for d, k, n in us if d not in back]
            if other:
                ctx.violation(f"order {f.id} counter {f.local_name(l)}", f.where(other[0][1]),
                              f"{f.id} goes through a container in hash order and numbers what it meets")


def parallel(ctx, prog, f, fills):
    for i, t in f.calls():
        c = flow.callee(t)
        if c is None or not re.match(r"<?rayon", c.get("trait") or c["fn"]):
            continue
        ctx.count("parallel calls")
        m = c["fn"].split("::")[-1]
        if m in RACY:
            ctx.violation(f"parallel {f.id} {m}", f.where(t[5]), f"{f.id} uses `{m}`, whose answer depends on which thread is first")
        for g in closures(prog, f, t):
            for ct in captured(ctx, prog, g, fills):
                ctx.violation(f"parallel {f.id} {m} captured", f.where(ct[5]),
                              f"{f.id} lets threads append to one collection in whatever order they finish")


def statics(ctx, prog):
    """Process-wide values are constants, values made once from constants, or memos."""
    used = {}

    def scan(x, f):
        if isinstance(x, dict):
            if "static" in x:
                used.setdefault(x["static"], {})[f.id] = f
            for v in x.values():
                scan(v, f)
        elif isinstance(x, list):
            for v in x:
                scan(v, f)

    for f in prog.fns.values():
        if lib(f.crate):
            scan(f.blocks, f)
    ctx.count("process-wide values", len(used))
    for sid, users in sorted(used.items()):
        d = prog.const_fns.get(sid)
        if d is None:
            continue
        s = prog.tys(d, d.locals[0])
        if not STATEFUL.search(s):
            continue
        if not re.search(r"(?:Dash|Hash|BTree)Map<", s):
            ctx.violation(f"static {sid}", d.where(), f"{sid} is state shared by every run in the process: {s}")
            continue
        for u in users.values():
            if u.kind != "promoted":
                memo(ctx, prog, sid, u)


IDENTITY = re.compile(r"::(?:to_string|to_owned|clone|from|into|as_ref|deref|borrow|as_str|copied|cloned|into_owned|as_bytes|bits|new_unchecked)$")


def identity(v, d=0):
    """The parameter a key stands for, if it is that parameter unchanged."""
    if d > 20:
        return None
    if v.k == "sym":
        return v
    if v.k in ("deref", "refv"):
        return identity(v.t[1], d + 1)
    if v.k == "res" and IDENTITY.search(v.t[2]):
        return identity(v.t[3][0], d + 1) if v.t[3] else None
    return None


def memo(ctx, prog, sid, f):
    seen = []

    def hook(it, st, t, name, c, args):
        if name.split("::")[-1] in ("insert", "entry", "get_or_insert_with", "or_insert_with") and args and any(
                x.k == "static" and x.t[1] == sid for x in walk(args[0], limit=40)):
            seen.append((args, f.where(t[5])))
        return None

    it = Interp(prog, hook=hook, max_states=20000)
    it.opaque = lambda name: True
    it.run(f)
    ctx.analysed(f.id)
    if not seen:
        ctx.undecide(f"memo {sid} {f.id}", "no entry is put in")
    for args, where in seen:
        if len(args) < 3:
            ctx.undecide(f"memo {sid} {f.id}", "entry made in another way")
            continue
        ps = {x for x in walk(args[2], limit=60) if x.k == "sym"}
        k = identity(args[1])
        if k is None and args[1].k in ("tup", "adt"):
            ks = {identity(x) for x in (args[1].t[1] if args[1].k == "tup" else args[1].t[3])}
        else:
            ks = {k}
        ks.discard(None)
        missing = [p for p in ps if p not in ks]
        ctx.obligation(not missing, f"memo {sid} {f.id}", where,
                       f"{f.id} remembers in {sid} a value under a key that is not all the value depends on")


def options(ctx, prog):
    """The option types carry nothing over from one document to the next."""
    todo = [a for a in prog.adts if a in ("oxvg_optimiser::jobs::Jobs", "oxvg_lint::rules::Rules", "oxvg_jsx::config::Config")]
    ctx.count("option types", len(todo))
    ctx.floor("option types", 3)
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen or a not in prog.adts:
            continue
        seen.add(a)
        d = prog.adts[a]
        for v in d.variants:
            for fl in v.fields:
                s = prog.types[d.crate][fl[1]]["s"]
                if STATEFUL.search(s):
                    ctx.violation(f"options {a} {fl[0]}", a, f"field {fl[0]} of {a} keeps state between documents: {s}")
                for n in re.findall(r"oxvg\w*(?:::\w+)+", s):
                    todo.append(n)
    ctx.count("option types looked through", len(seen))
