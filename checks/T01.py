"""Tree links stay consistent under every edit, and each edit has the effect it names."""
from facts import ToolError
from interp import mk, FALSE, UNIT
from program import callee
import shape
from shape import Heap, ShapeInterp, Undecided, node, element, LINKS

EXPLANATION = (
    "Shape analysis of every public function that writes a parent, sibling or child link of the document tree. The "
    "links of the nodes are tracked exactly from an arbitrary well-formed tree (materialised lazily, every case kept); "
    "each returned path must leave the tree well-formed and, for edits with a stated effect, in exactly the links the "
    "effect prescribes for that initial tree."
)
TECHNIQUE = "shape analysis of the tree edits over MIR"
LEVEL_NOTE = (
    "Every public edit is followed on all its paths from every well-formed initial neighbourhood of up to seven known "
    "nodes (more are unknown but well-formed); child lists longer than four are not unrolled. Trusts the compiler's MIR, "
    "the extractor and the models of Cell and of the child iterator."
)
ASSUMPTIONS = [
    "a reference node handed to an edit is a child of the node edited, and the nodes handed to one call are distinct",
    "a node is not inserted below itself",
    "callbacks given to an edit do not edit the tree themselves",
    "edits over child lists are followed for up to four children",
]

NODE = shape.NODE
ELEMENT = shape.ELEMENT


# -- reference semantics of the edits, over an abstract tree --------------------
def put(xs, n, f, v):
    return [x.set(n, f, v) for x in xs]


def get(x, n, f):
    v = x.get(n, f)
    if v is not KeyError:
        return [(v, x)]
    return [(y.get(n, f), y) for y in x.materialise(n, f)]


def s_remove(x, n):
    out = []
    for p, x1 in get(x, n, "parent"):
        for a, x2 in get(x1, n, "previous_sibling"):
            for b, x3 in get(x2, n, "next_sibling"):
                ys = [x3.set(n, "parent", None).set(n, "previous_sibling", None).set(n, "next_sibling", None)]
                if a is not None:
                    ys = put(ys, a, "next_sibling", b)
                elif p is not None:
                    ys = put(ys, p, "first_child", b)
                if b is not None:
                    ys = put(ys, b, "previous_sibling", a)
                elif p is not None:
                    ys = put(ys, p, "last_child", a)
                out += ys
    return out


def s_link(x, p, a, n, b):
    y = x.set(n, "parent", p).set(n, "previous_sibling", a).set(n, "next_sibling", b)
    y = y.set(a, "next_sibling", n) if a is not None else y.set(p, "first_child", n)
    y = y.set(b, "previous_sibling", n) if b is not None else y.set(p, "last_child", n)
    return y


def s_before(x, p, n, ref):
    return [s_link(x2, p, a, n, ref) for x1 in s_remove(x, n) for a, x2 in get(x1, ref, "previous_sibling")]


def s_after(x, p, n, ref):
    return [s_link(x2, p, ref, n, b) for x1 in s_remove(x, n) for b, x2 in get(x1, ref, "next_sibling")]


def s_append(x, p, n):
    return [s_link(x2, p, a, n, None) for x1 in s_remove(x, n) for a, x2 in get(x1, p, "last_child")]


def s_prepend(x, p, n):
    return [s_link(x2, p, None, n, b) for x1 in s_remove(x, n) for b, x2 in get(x1, p, "first_child")]


def s_replace(x, p, n, old):
    return [y for x1 in s_before(x, p, n, old) for y in s_remove(x1, old)]


def s_empty(x, p, n=0):
    out = []
    for c, x1 in get(x, p, "first_child"):
        if c is None or n > 5:
            out.append(x1.set(p, "first_child", None).set(p, "last_child", None) if c is None else x1)
        else:
            for x2 in s_remove(x1, c):
                out += s_empty(x2, p, n + 1)
    return out


def s_flatten(x, p, n, depth=0):
    out = []
    for c, x1 in get(x, n, "first_child"):
        if c is None or depth > 5:
            out += s_remove(x1.set(n, "first_child", None).set(n, "last_child", None), n)
        else:
            for x2 in s_before(x1, p, c, n):
                out += s_flatten(x2, p, n, depth + 1)
    return out


def s_rename(x, p, n, r, depth=0):
    """r takes the place of n and its children."""
    out = []
    for c, x1 in get(x, n, "first_child"):
        if c is None or depth > 5:
            out += s_replace(x1, p, r, n)
        else:
            for x2 in s_append(x1, r, c):
                out += s_rename(x2, p, n, r, depth + 1)
    return out


# name -> (precondition on the initial tree, effect); nodes are named self, new, ref, parent
def parent_of(n, p):
    return lambda x: x.extend(n, "parent", p)


SPECS = {
    "Node::remove": (None, lambda x: s_remove(x, "self")),
    "Node::append_child": (None, lambda x: s_append(x, "self", "arg1")),
    "Node::insert_before": (parent_of("arg2", "self"), lambda x: s_before(x, "self", "arg1", "arg2")),
    "Node::insert_after": (parent_of("arg2", "self"), lambda x: s_after(x, "self", "arg1", "arg2")),
    "Node::replace_child": (parent_of("arg2", "self"), lambda x: s_replace(x, "self", "arg1", "arg2")),
    "Node::empty": (None, lambda x: s_empty(x, "self")),
    "Element::append": (None, lambda x: s_append(x, "self", "arg1")),
    "Element::prepend": (None, lambda x: s_prepend(x, "self", "arg1")),
    "Element::before": ("parent", lambda x: s_before(x, "par", "arg1", "self")),
    "Element::after": ("parent", lambda x: s_after(x, "par", "arg1", "self")),
    "Element::replace_with": ("parent", lambda x: s_replace(x, "par", "arg1", "self")),
    "Element::flatten": ("parent", lambda x: s_flatten(x, "par", "self")),
    "Element::replace_children": (None, None),
    "Element::sort_child_elements": (None, None),
    "Node::retain_children": (None, None),
    "Node::remove_child_at": (None, None),
    "Node::remove_child": (None, None),
    "Node::insert": (parent_of("arg2", None), None),
    "Node::set_text_content": (None, None),
    "Node::set_style_content": (None, None),
    "Element::set_local_name": ("parent", lambda x, r: s_rename(x, "par", "self", r)),
    "roxmltree::attach_child": (parent_of("arg1", None), lambda x: s_append(x, "self", "arg1")),
}
# documented to change one link only; whoever calls it is analysed with what it does
RAW = ("Node::set_parent_node",)
# effects of edits that have been shown to hold, used where one edit calls another:
# name -> effect over the nodes of the call
CALLS = {
    "Node::remove": lambda x, a: s_remove(x, a),
    "Node::append_child": lambda x, a, b: s_append(x, a, b) if a != b else None,
    "Node::insert_before": lambda x, a, b, c: need_parent(x, c, a) and b not in (a, c) and s_before(x, a, b, c),
    "Node::insert_after": lambda x, a, b, c: need_parent(x, c, a) and b not in (a, c) and s_after(x, a, b, c),
    "Element::append": lambda x, a, b: s_append(x, a, b) if a != b else None,
    "Element::prepend": lambda x, a, b: s_prepend(x, a, b) if a != b else None,
    "Node::empty": lambda x, a: s_empty(x, a),
}


def need_parent(x, c, a):
    return x.get(c, "parent") == a


def short(fid):
    return "::".join(fid.split("::")[-2:])


def writes_links(prog, fn):
    """Does the body write a link of a node directly?"""
    for _, t in fn.calls():
        c = callee(t)
        if c is None or not c["fn"].startswith("core::cell::Cell::"):
            continue
        if c["fn"].rsplit("::", 1)[-1] in ("set", "replace", "take", "swap", "update") and c["subs"]:
            if NODE in type_text(prog, fn.crate, c["subs"][0]):
                return True
    return False


def type_text(prog, crate, i):
    return prog.ty(crate, i)["s"]


def build_args(prog, fn, heap):
    """Abstract arguments of fn; the nodes among them are added to the tree under fixed names."""
    args = []
    for i in range(fn.argc):
        ty = prog.local_ty(fn, i + 1)
        s = ty["s"]
        name = "self" if i == 0 else f"arg{i}"
        if s.lstrip("&").replace("mut ", "") in (NODE, ELEMENT):
            heap = Heap(heap.h0, heap.h, heap.nodes + (name,), heap.alias, heap.limit)
            v = node(name) if s.endswith(NODE) else element(name)
            refs = s.count("&") - (1 if s.endswith(NODE) else 0)
            for _ in range(refs):
                v = mk("refv", v)
            if refs < 0:
                raise Undecided("a node passed by value")
            args.append(v)
        elif ty["k"] == "param" and "Iterator" in s:
            args.append("SEQ")
        else:
            args.append(mk("sym", f"arg{i}"))
    return args, heap


class TreeInterp(ShapeInterp):
    def __init__(self, prog, **kw):
        super().__init__(prog, opaque=self.is_opaque, max_depth=12, **kw)
        self.proven = {}

    def shape_hook(self, it, st, t, name, c, args):
        s = short(name)
        if s == "Element::new" and len(args) == 1:
            # what has children is an element or the document
            x = self.plain(st, args[0])
            if x is not None and x[0] == "node" and (x[1] in st.q.h0.values() and any(f == "parent" and v == x[1] for (_, f), v in st.q.h0.items())):
                return self.finish(st, t, mk("adt", shape.OPTION, 1, (element(x[1]),)))
        if s in self.proven and name == self.proven[s] and len(st.frames) < 8:
            out = []
            cases = [((), st)]
            for a in args:
                more = []
                for names, s2 in cases:
                    x = self.plain(s2, a)
                    if x is not None and x[0] == "node":
                        more.append((names + (x[1],), s2))
                    else:
                        more += [(names + (n,), s3) for n, s3 in self.as_node(s2, a)]
                cases = more
            for names, s2 in cases:
                r = CALLS[s](s2.q, *names)
                if not r:
                    return super().shape_hook(it, st, t, name, c, args)
                for x in r:
                    s3 = s2.copy()
                    s3.q = x
                    out += self.finish(s3, t, UNIT)
            return out
        return super().shape_hook(it, st, t, name, c, args)

    def is_opaque(self, fn):
        if fn.kind in ("extern", "closure") or fn.id in self.editors:
            return False
        # what cannot change the tree matters only when it tells about links
        ret = self.prog.local_ty(fn, 0)["s"]
        return not (ret == "bool" or "oxvg_ast::node::Node" in ret or "ChildNodes" in ret or ret.endswith(ELEMENT)
                    or ELEMENT in ret or "impl" in ret)

def editors(prog):
    """Functions of the program that write links, directly or through what they call."""
    direct = {f.id for f in prog.fns.values() if writes_links(prog, f)}
    reach = set(direct)
    callers = {}
    for f in prog.fns.values():
        for _, t in f.calls():
            c = callee(t)
            if c:
                callers.setdefault(c.get("res") or c["fn"], set()).add(f.id)
        if f.kind == "closure":
            callers.setdefault(f.id, set()).add(f.id.rsplit("::{closure#", 1)[0])
    work = list(direct)
    while work:
        x = work.pop()
        for y in callers.get(x, ()):
            if y not in reach:
                reach.add(y)
                work.append(y)
    return direct, reach


def check(ctx):
    prog = ctx.program("native", ["oxvg_ast.lib"])
    direct, reach = editors(prog)
    subjects = []
    for fid in sorted(reach):
        fn = prog.fns.get(fid)
        if fn is None or fn.kind == "closure":
            continue
        if "arena" in fid:
            continue
        s = short(fid)
        if s in RAW:
            continue
        if s in SPECS or (fid in direct and fn.pub) or (fn.pub and fid.startswith(("oxvg_ast::node::Node::", "oxvg_ast::element::Element::"))):
            subjects.append(fn)
    ctx.count("editing_functions", len(subjects))
    ctx.count("functions_writing_links", len(direct))
    decided = 0
    proven = {}
    subjects.sort(key=lambda f: list(CALLS).index(short(f.id)) if short(f.id) in CALLS else 99)
    for fn in subjects:
        before = len(ctx.violations)
        r = analyse(ctx, prog, fn, reach, proven)
        decided += r
        if r and len(ctx.violations) == before and short(fn.id) in CALLS:
            proven[short(fn.id)] = fn.id
    if not subjects or decided * 2 < len(subjects):
        raise ToolError(f"only {decided} of {len(subjects)} tree edits could be analysed")
    ctx.count("edits_decided", decided)
    names = {short(f.id) for f in subjects}
    for must in ("Node::remove", "Node::append_child", "Node::insert_before", "Node::insert_after", "Element::append"):
        if must not in names:
            raise ToolError(f"the tree edit {must} is no longer found")


def analyse(ctx, prog, fn, reach, proven):
    s = short(fn.id)
    spec = SPECS.get(s, (None, None))
    base = Heap({}, {}, (), {}, 7)
    try:
        args, heap = build_args(prog, fn, base)
    except Undecided as e:
        ctx.undecide(fn.id, e)
        return 0
    pre = spec[0]
    if pre == "parent":
        heap = Heap(heap.h0, heap.h, heap.nodes + ("par",), heap.alias, heap.limit + 1).extend("self", "parent", "par")
    elif pre is not None:
        heap = pre(heap)
    starts = []
    if "SEQ" in args:
        for k in range(0, 4):
            h = heap
            items = []
            for j in range(k):
                n = f"item{j}"
                h = Heap(h.h0, h.h, h.nodes + (n,), h.alias, h.limit + 1)
                items.append(node(n))
            starts.append(([mk("seq", tuple(items)) if a == "SEQ" else a for a in args], h, [f"item{j}" for j in range(k)]))
    else:
        starts.append((args, heap, None))
    # small trees first, then larger ones: a breach shows on few nodes, and large trees may be too many
    limits = (3, 5, 7) if ctx.tier == "quick" else (3, 5, 7, 8)
    decided = False
    reason = None
    for limit in limits:
        try:
            for a, h, items in starts:
                run(ctx, prog, fn, s, spec, a, Heap(h.h0, h.h, h.nodes, h.alias, max(limit, len(h.nodes) + 1)), items, reach, proven)
            decided = True
        except (Undecided, ToolError) as e:
            reason = e
            break
    ctx.analysed(fn.id)
    if not decided:
        ctx.undecide(fn.id, reason)
        return 0
    return 1


def run(ctx, prog, fn, s, spec, args, heap, items, reach, proven):
    it = TreeInterp(prog, max_states=12000)
    it.editors = reach
    it.proven = {k: v for k, v in proven.items() if k != s}
    ends = it.run(fn, args, q=heap)
    paths = 0
    for e in ends:
        if e.kind != "ret":
            continue
        paths += 1
        x = e.state.q
        bad = None
        for y, msg in shape.check(x):
            bad = (y, msg)
            break
        if bad is not None and bad[0].alias:
            raise Undecided("depends on where an unmodelled search ends")
        key = f"{s}: links"
        ctx.count("paths")
        if not ctx.obligation(bad is None, key, fn.where(),
                              "" if bad is None else f"{s} leaves an inconsistent tree: {bad[1]} ({shape.describe(bad[0])})"):
            return
        effect = spec[1]
        if items is not None and s == "Element::replace_children":
            effect = lambda z: replace_children(z, items)
        if effect is None:
            continue
        if effect.__code__.co_argcount == 2:
            ret = it.plain(e.state, e.value)
            if ret is None or ret[0] != "node":
                raise Undecided("returns a node of unknown origin")
            effect = (lambda g, r: lambda z: g(z, r))(effect, ret[1])
        for y in effect(Heap(x.h0, {}, x.nodes, x.alias, x.limit + 2)):
            # the same initial tree, as far as both needed to know it
            got = Heap(y.h0, x.h, y.nodes, y.alias, y.limit)
            keys = set(y.h) | set(got.h)
            diff = None
            for k in sorted(keys):
                a, b = y.get(*k), got.get(*k)
                if a is KeyError or b is KeyError:
                    if a is KeyError and (k in y.h0 or True):
                        # written by the code, not by the effect: must equal what was there before
                        for z in y.materialise(*k):
                            if z.get(*k) != b:
                                diff = (k, z.get(*k), b)
                    continue
                if a != b:
                    diff = (k, a, b)
                    break
            ctx.obligation(diff is None, f"{s}: effect", fn.where(),
                           "" if diff is None else f"{s} does not have its effect: {diff[0][0]}.{diff[0][1]} should be {diff[1]} and is {diff[2]} ({shape.describe(got)})")
    if paths == 0:
        raise Undecided("no path returns")
    ctx.sample(f"{s}: {paths} end states over trees of up to {heap.limit} nodes")


def replace_children(x, items):
    xs = s_empty(x, "self")
    for n in items:
        xs = [y for z in xs for y in s_append(z, "self", n)]
    return xs
