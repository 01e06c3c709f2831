"""Flow of values inside one body, without following paths: loops, where a value comes from, who fills what."""
import re

APPEND = re.compile(
    r"(?:^|::)(?:Vec|VecDeque|String|SmallVec|Map|IndexMap|IndexSet|LinkedList|ArrayVec|vec|alloc::string::String)"
    r"(?:<.*>)?::(?:push|insert|push_str|push_back|push_front|extend_from_slice|append|try_push|insert_str)$"
    r"|Extend::extend$|ParallelExtend::par_extend$|::Write::(?:write_fmt|write_str|write_char|write_all|write)$")
ATTACH = re.compile(r"^oxvg_ast::(?:node::Node|element::Element|document::Document)::(?:append|append_child|append_children|insert|"
                    r"insert_before|insert_after|before|after|prepend)$")
KEYED = re.compile(r"(?:Hash|BTree|Dash)(?:Map|Set)<|BinaryHeap<")
SORT = re.compile(r"::(?:par_)?sort(?:_unstable)?(?:_by|_by_key|_by_cached_key)?$")
HANDLE = re.compile(r"^&|^core::cell::Ref(?:Mut)?<|Guard<|^core::option::Option<&|^core::pin::Pin<&")


def handle(prog, s, d=0):
    """Does a value of this type give access to something that lives elsewhere?"""
    if HANDLE.search(s):
        return True
    a = prog.adts.get(s.split("<")[0])
    if a is None or a.kind != "struct" or d > 3 or not a.id.startswith("oxvg"):
        return False
    return any(handle(prog, prog.types[a.crate][f[1]]["s"], d + 1) for f in a.variants[0].fields)


def callee(t):
    c = t[1][1] if t[1][0] == "k" else None
    return c if isinstance(c, dict) and "fn" in c else None


def succ(t):
    """Blocks a terminator may continue in, leaving out unwinding."""
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k in ("drop", "assert"):
        return [t[2]] if isinstance(t[2], int) else []
    return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][:1]


def reach(fn, start):
    seen, todo = set(), list(succ(fn.blocks[start]["t"]))
    while todo:
        b = todo.pop()
        if b in seen or b >= len(fn.blocks):
            continue
        seen.add(b)
        todo.extend(succ(fn.blocks[b]["t"]))
    return seen


def loop(fn, head):
    """The blocks that lie on a way round from head back to head."""
    ahead = reach(fn, head)
    if head not in ahead:
        return set()
    return {b for b in ahead if b == head or head in reach(fn, b)}


def places(x, out):
    """Locals used by an rvalue or an operand."""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
            out.add(x[0])
            return
        for y in x:
            places(y, out)


class Origins:
    """Which values a local may stand for, followed backwards through copies, borrows and calls that hand out handles."""

    def __init__(self, prog, fn, inside=None):
        self.prog, self.fn = prog, fn
        self.defs = {}
        for i, b in enumerate(fn.blocks):
            if inside is not None and i not in inside:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    u = set()
                    places(s[2][1:], u)
                    self.defs.setdefault(s[1][0], []).append(("s", i, u, None))
            t = b["t"]
            if t[0] == "call":
                u = set()
                for a in t[2]:
                    places(a, u)
                self.defs.setdefault(t[3][0], []).append(("c", i, u, t))

    def of(self, local, stop=()):
        """Locals without a definition in view, and the blocks of calls in `stop` the value comes out of."""
        out, seen, todo = set(), set(), [local]
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            ds = self.defs.get(l)
            if not ds:
                out.add(("local", l))
                continue
            for k, i, u, t in ds:
                if k == "c":
                    if i in stop:
                        out.add(("call", i))
                        continue
                    if not handle(self.prog, self.prog.tys(self.fn, self.fn.locals[l])):
                        continue
                todo.extend(u)
        return out


class Fills:
    """Parameters of a function that it appends to, directly or through what it calls."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def sinks(self, fn, inside=None):
        """(block, terminator, operand) for every operand something is appended to."""
        for i, t in fn.calls():
            if inside is not None and i not in inside:
                continue
            c = callee(t)
            if not c or not t[2]:
                continue
            name = c.get("res") or c["fn"]
            if APPEND.search(c["fn"]) or APPEND.search(re.sub(r"<[^<>]*(?:<[^<>]*>)*[^<>]*>", "", name)):
                if t[2][0][0] in "cm" and not KEYED.search(self.prog.tys(fn, fn.locals[t[2][0][1][0]])):
                    yield i, t, t[2][0]
                continue
            if ATTACH.search(name) and t[2][0][0] in "cm":
                yield i, t, t[2][0]
                continue
            g = self.prog.fns.get(name) or self.prog.fns.get(c["fn"])
            if g is not None and g.kind != "closure":
                for p in self.params(g):
                    if p < len(t[2]) and t[2][p][0] in "cm":
                        yield i, t, t[2][p]

    def params(self, fn):
        if fn.id in self.memo:
            return self.memo[fn.id]
        self.memo[fn.id] = set()
        o, out = Origins(self.prog, fn), set()
        for _, _, a in self.sinks(fn):
            for k, l in o.of(a[1][0]):
                if k == "local" and 1 <= l <= fn.argc and handle(self.prog, self.prog.tys(fn, fn.locals[l])):
                    out.add(l - 1)
        self.memo[fn.id] = out
        return out


def sorted_later(prog, fn, local):
    """Is what this local holds put into an order of its own further on in the body?"""
    o = Origins(prog, fn)
    names = {local}
    # follow the value where it is moved on to
    for _ in range(4):
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] in "cm" and s[2][1][1][0] in names:
                    names.add(s[1][0])
    for _, t in fn.calls():
        c = callee(t)
        if c and SORT.search(c["fn"]) and t[2] and t[2][0][0] in "cm":
            seen, todo = set(), [t[2][0][1][0]]
            while todo:
                l = todo.pop()
                if l in names:
                    return True
                if l in seen:
                    continue
                seen.add(l)
                for k, _, u, dt in o.defs.get(l, ()):
                    if k == "s" or handle(prog, prog.tys(fn, fn.locals[l])):
                        todo.extend(u)
    return False
