"""Shape analysis of the edits of the document tree.

The five links of a node are tracked exactly in an abstract heap whose nodes are materialised on
demand: reading a link that is not known yet splits the state into "no node", "one of the nodes
known so far" and "a new node", keeping every case that fits the tree invariant. Whatever else a
function looks at (kinds, names, texts) is unknown and both outcomes are followed. At every exit
the invariant is evaluated over the links the function wrote and everything linked to them.
"""
from facts import ToolError
from interp import Interp, mk, Term, TRUE, FALSE, UNIT, FnRef

LINKS = ("parent", "next_sibling", "previous_sibling", "first_child", "last_child")
NODE = "oxvg_ast::node::Node"
ELEMENT = "oxvg_ast::element::Element"
OPTION = "core::option::Option"
MAX_NODES = 9


class Undecided(Exception):
    pass


class Heap:
    """h0: what is known of the tree before the edit; h: what the edit wrote. Immutable."""
    __slots__ = ("h0", "h", "nodes", "alias", "_k", "limit")

    def __init__(self, h0, h, nodes, alias, limit=MAX_NODES):
        self.h0 = h0
        self.h = h
        self.nodes = nodes
        self.alias = alias
        self.limit = limit
        self._k = (frozenset(h0.items()), frozenset(h.items()), nodes, frozenset(alias.items()))

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, Heap) and self._k == o._k

    def get(self, n, f):
        if (n, f) in self.h:
            return self.h[(n, f)]
        if (n, f) in self.h0:
            return self.h0[(n, f)]
        return KeyError

    def set(self, n, f, v):
        h = dict(self.h)
        h[(n, f)] = v
        return Heap(self.h0, h, self.nodes, self.alias, self.limit)

    def with_alias(self, t, n):
        a = dict(self.alias)
        a[t] = n
        return Heap(self.h0, self.h, self.nodes, a, self.limit)

    def fresh(self):
        n = f"n{len(self.nodes)}"
        return n, Heap(self.h0, self.h, self.nodes + (n,), self.alias, self.limit)

    # -- materialisation ---------------------------------------------------
    def materialise(self, n, f):
        """Every heap that extends this one with a value of the initial link n.f."""
        if (n, f) in self.h0:
            return [self]
        if f in ("next_sibling", "previous_sibling") and (n, "parent") not in self.h0:
            out = []
            for x in self.materialise(n, "parent"):
                out += x.materialise(n, f)
            return out
        out = []
        cands = [None] + list(self.nodes)
        for c in cands:
            x = self.extend(n, f, c)
            if x is not None:
                out.append(x)
        if len(self.nodes) < self.limit:
            m, x = self.fresh()
            x = x.extend(n, f, m)
            if x is not None:
                out.append(x)
        return out

    def extend(self, n, f, v):
        h0 = dict(self.h0)
        todo = [(n, f, v)]
        while todo:
            a, g, b = todo.pop()
            if (a, g) in h0:
                if h0[(a, g)] != b:
                    return None
                continue
            h0[(a, g)] = b
            p = h0.get((a, "parent"), KeyError)
            if g == "next_sibling":
                if b is not None:
                    todo.append((b, "previous_sibling", a))
                    if p is not KeyError:
                        todo.append((b, "parent", p))
                elif p not in (KeyError, None):
                    todo.append((p, "last_child", a))
            elif g == "previous_sibling":
                if b is not None:
                    todo.append((b, "next_sibling", a))
                    if p is not KeyError:
                        todo.append((b, "parent", p))
                elif p not in (KeyError, None):
                    todo.append((p, "first_child", a))
            elif g == "parent":
                if b is None:
                    todo.append((a, "next_sibling", None))
                    todo.append((a, "previous_sibling", None))
                else:
                    if h0.get((a, "next_sibling"), KeyError) is None:
                        todo.append((b, "last_child", a))
                    if h0.get((a, "previous_sibling"), KeyError) is None:
                        todo.append((b, "first_child", a))
                    for s in ("next_sibling", "previous_sibling"):
                        m = h0.get((a, s), KeyError)
                        if m not in (KeyError, None):
                            todo.append((m, "parent", b))
            elif g in ("first_child", "last_child"):
                if b is None:
                    todo.append((a, "first_child", None))
                    todo.append((a, "last_child", None))
                else:
                    todo.append((b, "parent", a))
                    todo.append((b, "previous_sibling" if g == "first_child" else "next_sibling", None))
        if not consistent(h0):
            return None
        return Heap(h0, self.h, self.nodes, self.alias, self.limit)


def consistent(h0):
    for (n, f), v in h0.items():
        if f == "parent" and v is not None:
            if h0.get((v, "first_child"), KeyError) is None:
                return False
            if h0.get((n, "previous_sibling"), KeyError) not in (KeyError, None) and h0.get((v, "first_child"), KeyError) == n:
                return False
            if h0.get((n, "next_sibling"), KeyError) not in (KeyError, None) and h0.get((v, "last_child"), KeyError) == n:
                return False
            # no node is its own ancestor
            seen = {n}
            p = v
            while p not in (KeyError, None):
                if p in seen:
                    return False
                seen.add(p)
                p = h0.get((p, "parent"), KeyError)
        if f == "next_sibling" and v is not None:
            if v == n:
                return False
            seen = {n}
            m = v
            while m not in (KeyError, None):
                if m in seen:
                    return False
                seen.add(m)
                m = h0.get((m, "next_sibling"), KeyError)
        if f in ("first_child", "last_child") and v == n:
            return False
    # the children known between first and last form one chain when it is fully known
    for (p, f), c in h0.items():
        if f == "first_child" and c is not None:
            chain = [c]
            m = h0.get((c, "next_sibling"), KeyError)
            while m not in (KeyError, None):
                chain.append(m)
                m = h0.get((m, "next_sibling"), KeyError)
            if m is None:
                for (n, g), v in h0.items():
                    if g == "parent" and v == p and n not in chain:
                        return False
    return True


def check(heap):
    """Completes the heap where the invariant needs it. Yields (heap, message) for violated cases."""
    work = [heap]
    done = set()
    ok = 0
    while work:
        x = work.pop()
        if x in done:
            continue
        done.add(x)
        need, msg = violations(x)
        if msg is not None:
            yield x, msg
            continue
        if need is not None:
            more = x.materialise(*need)
            work += more
            continue
        ok += 1


def violations(x):
    """(link that must be known first, None) or (None, message) or (None, None)."""
    h, h0 = x.h, x.h0
    touched = list(h)
    for (n, f) in touched:
        if (n, f) not in h0:
            return (n, f), None

    def pair(a, b):
        """Both known, or one written and the other to be found out; None when neither was written."""
        ka, kb = x.get(*a), x.get(*b)
        wr = (a in h) or (b in h)
        if not wr:
            return None, None
        for k, v in ((a, ka), (b, kb)):
            if v is KeyError:
                return k, None
        return None, (ka, kb)

    nodes = x.nodes
    for n in nodes:
        for f, g, word in (("next_sibling", "previous_sibling", "next"), ("previous_sibling", "next_sibling", "previous")):
            m = x.get(n, f)
            if m is not KeyError and m is not None:
                need, v = pair((n, f), (m, g))
                if need:
                    return need, None
                if v and v[1] != n:
                    return None, f"{n}.{f} is {m} but {m}.{g} is {v[1]}"
                need, v = pair((n, "parent"), (m, "parent"))
                if need:
                    return need, None
                if v and v[0] != v[1]:
                    return None, f"{n} and its {word} sibling {m} have different parents ({v[0]}, {v[1]})"
                need, v = pair((n, f), (n, "parent"))
                if need:
                    return need, None
                if v and v[1] is None:
                    return None, f"{n} has no parent but {n}.{f} is {m}"
        p = x.get(n, "parent")
        if p is not KeyError and p is not None:
            for f, g in (("previous_sibling", "first_child"), ("next_sibling", "last_child")):
                s = x.get(n, f)
                wr = (n, f) in h or (n, "parent") in h or (p, g) in h
                if not wr:
                    continue
                if s is KeyError:
                    return (n, f), None
                if s is None:
                    c = x.get(p, g)
                    if c is KeyError:
                        return (p, g), None
                    if c != n:
                        return None, f"{n} is a child of {p} with no {f}, but {p}.{g} is {c}"
        for g, f in (("first_child", "previous_sibling"), ("last_child", "next_sibling")):
            c = x.get(n, g)
            if c is not KeyError and c is not None:
                need, v = pair((n, g), (c, "parent"))
                if need:
                    return need, None
                if v and v[1] != n:
                    return None, f"{n}.{g} is {c} but {c}.parent is {v[1]}"
                need, v = pair((n, g), (c, f))
                if need:
                    return need, None
                if v and v[1] is not None:
                    return None, f"{n}.{g} is {c} but {c}.{f} is {v[1]}"
        need, v = pair((n, "first_child"), (n, "last_child"))
        if need:
            return need, None
        if v and (v[0] is None) != (v[1] is None):
            return None, f"{n}.first_child is {v[0]} but {n}.last_child is {v[1]}"
        # siblings form a chain without repetition
        seen = {n}
        m = x.get(n, "next_sibling")
        while m not in (KeyError, None):
            if m in seen:
                return None, f"the siblings after {n} run in a circle"
            seen.add(m)
            m = x.get(m, "next_sibling")
    return None, None


def describe(x):
    def fmt(d):
        return ", ".join(f"{n}.{f}={v}" for (n, f), v in sorted(d.items(), key=str))
    return "before: " + fmt(x.h0) + "; written: " + fmt(x.h)


def node(n):
    return mk("node", n)


def opt(n):
    return mk("adt", OPTION, 0, ()) if n is None else mk("adt", OPTION, 1, (node(n),))


def element(n):
    return mk("adt", ELEMENT, 0, (node(n),))


class ShapeInterp(Interp):
    def __init__(self, prog, **kw):
        super().__init__(prog, hook=None, max_states=kw.pop("max_states", 40000), **kw)
        self.hook = self.shape_hook
        self.undecided = []
        self.track = lambda v: True

    # identity of nodes
    def binop(self, op, a, b):
        if op in ("Eq", "Ne") and a.k == "idof" and b.k == "idof":
            return mk("k", (a is b) == (op == "Eq"))
        return super().binop(op, a, b)

    def as_node(self, st, v):
        """Names of the node a reference value may stand for, with the heap of each case."""
        if v.k == "node":
            return [(v.t[1], st)]
        if v.k == "refv" and v.t[1].k == "node":
            return [(v.t[1].t[1], st)]
        if v.k == "ref":
            if v.t[2][0] == "D" and not v.t[3]:
                return self.as_node(st, v.t[2][1])
            x = self.read(st, v.t[2], v.t[3])
            if x.k == "deref":
                return self.as_node(st, x.t[1])
            if x.k in ("node", "ref"):
                return self.as_node(st, x)
        heap = st.q
        if v in heap.alias:
            return [(heap.alias[v], st)]
        if v.k in ("res", "fld", "hav", "old", "deref", "sym"):
            out = []
            for n in heap.nodes:
                s2 = st.copy()
                s2.q = heap.with_alias(v, n)
                out.append((n, s2))
            if len(heap.nodes) < heap.limit:
                n, h2 = heap.fresh()
                s2 = st.copy()
                s2.q = h2.with_alias(v, n)
                out.append((n, s2))
            return out
        raise Undecided(f"a node reference of unknown origin: {v!r}")

    def link_of(self, st, arg):
        """(node value, link name) when arg points at a link of a node."""
        root, path = self.deref_loc(arg)
        if len(path) >= 1 and path[-1][0] == "f" and path[-1][2] in LINKS:
            if root[0] == "D" and len(path) == 1:
                return root[1], path[-1][2]
            v = self.read(st, root, path[:-1])
            if v.k == "deref":
                return v.t[1], path[-1][2]
            if root[0] != "D":
                # a Node held by value: a node under construction
                return None
        return None

    def shape_hook(self, it, st, t, name, c, args):
        base = c["fn"]
        if base.startswith("core::cell::Cell::") and args:
            lk = self.link_of(st, args[0])
            m = base.rsplit("::", 1)[-1]
            if lk is not None:
                out = []
                for n, s2 in self.as_node(st, lk[0]):
                    out += self.cell_op(s2, t, n, lk[1], m, args)
                return out
            root, path = self.deref_loc(args[0])
            if path and path[-1][2] == "id" and m == "get" and root[0] == "D":
                out = []
                for n, s2 in self.as_node(st, root[1]):
                    out += self.finish(s2, t, mk("idof", n))
                return out
        if base in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(args) == 2:
            a = self.plain(st, args[0])
            b = self.plain(st, args[1])
            if a is not None and b is not None:
                return self.finish(st, t, mk("k", (a == b) == base.endswith("eq")))
        if base == "core::ptr::eq":
            a = self.plain(st, args[0])
            b = self.plain(st, args[1])
            if a is not None and b is not None:
                return self.finish(st, t, mk("k", a == b))
        r = self.sequence_op(st, t, base, c, args)
        if r is not None:
            return r
        if name.endswith("arena::Allocator::alloc"):
            heap = st.q
            n, h2 = heap.fresh()
            h0 = dict(h2.h0)
            for f in LINKS:
                h0[(n, f)] = None
            s2 = st.copy()
            s2.q = Heap(h0, h2.h, h2.nodes, h2.alias, h2.limit)
            return self.finish(s2, t, node(n))
        return None

    def plain(self, st, v, d=0):
        """A comparable picture of a value made of nodes and options, or None."""
        if d > 6:
            return None
        if v.k == "node":
            return ("node", v.t[1])
        if v.k in ("ref", "guard"):
            x = self.read(st, v.t[2], v.t[3])
            if x.k == "deref" and x.t[1].k == "node":
                return ("node", x.t[1].t[1])
            return self.plain(st, x, d + 1)
        if v.k == "refv":
            return self.plain(st, v.t[1], d + 1)
        if v.k == "deref" and v.t[1].k == "node":
            return ("node", v.t[1].t[1])
        if v.k == "adt" and v.t[1] == OPTION:
            if v.t[2] == 0:
                return ("none",)
            x = self.plain(st, v.t[3][0], d + 1)
            return None if x is None else ("some", x)
        if v.k == "adt" and v.t[1] == ELEMENT:
            return self.plain(st, v.t[3][0], d + 1)
        if v in getattr(st.q, "alias", {}):
            return ("node", st.q.alias[v])
        return None

    def cell_op(self, st, t, n, f, m, args):
        if m in ("get", "take", "replace", "into_inner"):
            out = []
            heap = st.q
            v = heap.get(n, f)
            cases = [(v, heap)]
            if v is KeyError:
                cases = [(x.h0[(n, f)], x) for x in heap.materialise(n, f)]
            for val, x in cases:
                s2 = st.copy()
                s2.q = x
                if m == "take":
                    s2.q = x.set(n, f, None)
                    out += self.finish(s2, t, opt(val))
                elif m == "replace":
                    for nv, s3 in self.as_opt(s2, args[1]):
                        s3.q = s3.q.set(n, f, nv)
                        out += self.finish(s3, t, opt(val))
                else:
                    out += self.finish(s2, t, opt(val))
            return out
        if m == "set":
            out = []
            for nv, s2 in self.as_opt(st, args[1]):
                s2 = s2.copy()
                s2.q = s2.q.set(n, f, nv)
                out += self.finish(s2, t, UNIT)
            return out
        raise Undecided(f"unmodelled operation Cell::{m} on {f}")

    def as_opt(self, st, v):
        if v.k == "adt" and v.t[1] == OPTION:
            if v.t[2] == 0:
                return [(None, st)]
            return self.as_node(st, v.t[3][0])
        d = mk("discr", v)
        known = self.lookup(st, d)
        out = []
        if known in (None, 0):
            s2 = st.copy()
            if self.assume(s2, d, 0):
                out.append((None, s2))
        if known in (None, 1):
            s2 = st.copy()
            if self.assume(s2, d, 1):
                out += self.as_node(s2, mk("fld", mk("fld", v, ("v", 1)), ("f", 0, "0")))
        return out

    # -- sequences of nodes ------------------------------------------------
    # A sequence is ("seq", items): what is still to come of an iterator or the elements of a Vec.
    def seq_of(self, st, v):
        n = 0
        while v.k in ("ref", "refv") and n < 4:
            v = self.read(st, v.t[2], v.t[3]) if v.k == "ref" else v.t[1]
            n += 1
        return v if v.k == "seq" else None

    def seq_place(self, st, v):
        if v.k != "ref":
            return None
        x = self.read(st, v.t[2], v.t[3])
        if x.k == "seq":
            return v.t[2], v.t[3]
        if x.k == "ref":
            return self.seq_place(st, x)
        return None

    def sequence_op(self, st, t, base, c, args):
        if not args:
            return None
        m = base.rsplit("::", 1)[-1]
        # collecting the children of a node
        if m in ("collect", "collect_vec") and args[0].k == "adt" and args[0].t[1].endswith("ChildNodes"):
            return self.collect_children(st, t, args[0])
        if m == "nth" and base.startswith("core::iter"):
            v = self.pointee(st, args[0])
            if v.k == "adt" and v.t[1].endswith("ChildNodes"):
                return self.nth_child(st, t, v)
        s = self.seq_of(st, args[0])
        if s is None:
            return None
        items = s.t[1]
        fin = lambda v: self.finish(st, t, v)
        some = lambda v: mk("adt", OPTION, 1, (v,))
        none = mk("adt", OPTION, 0, ())
        if m in ("into_iter", "peekable", "iter", "deref", "copied", "cloned", "as_slice", "by_ref", "collect", "collect_vec", "iter_mut", "deref_mut", "fuse"):
            if m in ("iter", "copied", "cloned", "deref", "as_slice", "deref_mut", "iter_mut"):
                return fin(s if m in ("copied", "cloned") else (args[0] if m.startswith("deref") else s))
            return fin(s)
        if m == "tuple_windows":
            return fin(mk("seq", tuple(mk("tup", (a, b)) for a, b in zip(items, items[1:]))))
        if m == "next":
            pl = self.seq_place(st, args[0])
            if pl is None:
                raise Undecided("next on a sequence that is not in a variable")
            if not items:
                return fin(none)
            self.write(st, pl[0], pl[1], mk("seq", items[1:]))
            return fin(some(items[0]))
        if m in ("peek", "first"):
            return fin(some(mk("refv", items[0])) if items else none)
        if m == "last":
            byref = "slice" in base or "[T]" in base
            return fin((some(mk("refv", items[-1])) if byref else some(items[-1])) if items else none)
        if m == "len":
            return fin(mk("k", len(items)))
        if m == "is_empty":
            return fin(mk("k", not items))
        if m == "get" and len(args) > 1:
            if args[1].k == "k" and isinstance(args[1].t[1], int):
                i = args[1].t[1]
                return fin(some(mk("refv", items[i])) if 0 <= i < len(items) else none)
        if m == "index" and len(args) > 1 and args[1].k == "k" and isinstance(args[1].t[1], int):
            i = args[1].t[1]
            if not 0 <= i < len(items):
                return []
            return fin(mk("refv", items[i]))
        if m in ("sort_by", "sort", "sort_by_key", "sort_unstable_by", "reverse", "sort_by_cached_key"):
            pl = self.seq_place(st, args[0])
            if pl is None:
                raise Undecided("sorting a sequence that is not in a variable")
            import itertools
            out = []
            for p in itertools.permutations(items):
                s2 = st.copy()
                self.write(s2, pl[0], pl[1], mk("seq", p))
                out += self.finish(s2, t, UNIT)
            return out
        if m == "windows" and args[1].k == "k":
            w = args[1].t[1]
            return fin(mk("seq", tuple(mk("refv", mk("seq", items[i:i + w])) for i in range(len(items) - w + 1))))
        if m == "enumerate":
            return fin(mk("seq", tuple(mk("tup", (mk("k", i), x)) for i, x in enumerate(items))))
        if m == "rev":
            return fin(mk("seq", tuple(reversed(items))))
        if m == "zip":
            s2 = self.seq_of(st, args[1])
            if s2 is not None:
                return fin(mk("seq", tuple(mk("tup", (a, b)) for a, b in zip(items, s2.t[1]))))
        if m == "skip" and args[1].k == "k":
            return fin(mk("seq", items[args[1].t[1]:]))
        if m in ("drop", "drop_in_place"):
            return None
        raise Undecided(f"unmodelled operation {base} on a list of nodes")

    def nth_child(self, st, t, it):
        """Some child from where the iterator stands, or none."""
        p = self.plain(st, it.t[3][0])
        none = mk("adt", OPTION, 0, ())
        out = self.finish(st.copy(), t, none)
        if p == ("none",):
            return out
        if p is None or p[0] != "some":
            raise Undecided("counting children from an unknown position")
        work = [(st, [p[1][1]])]
        while work:
            s, chain = work.pop()
            out += self.finish(s.copy(), t, opt(chain[-1]))
            if len(chain) >= 3:
                continue
            v = s.q.get(chain[-1], "next_sibling")
            if v is KeyError:
                for x in s.q.materialise(chain[-1], "next_sibling"):
                    w = x.h0[(chain[-1], "next_sibling")]
                    if w is not None and w not in chain:
                        s2 = s.copy()
                        s2.q = x
                        work.append((s2, chain + [w]))
            elif v is not None and v not in chain:
                work.append((s, chain + [v]))
        return out

    def collect_children(self, st, t, it):
        # the children of the node the iterator starts at, in order
        front = it.t[3][0]
        p = self.plain(st, front)
        if p == ("none",):
            return self.finish(st, t, mk("seq", ()))
        if p is None or p[0] != "some":
            raise Undecided("collecting children from an unknown position")
        out = []
        work = [(st, [p[1][1]])]
        while work:
            s, chain = work.pop()
            v = s.q.get(chain[-1], "next_sibling")
            if v is KeyError:
                for x in s.q.materialise(chain[-1], "next_sibling"):
                    if len(chain) >= 3 and x.h0[(chain[-1], "next_sibling")] is not None:
                        continue
                    s2 = s.copy()
                    s2.q = x
                    work.append((s2, chain))
            elif v is None:
                out += self.finish(s, t, mk("seq", tuple(node(n) for n in chain)))
            elif v in chain:
                raise Undecided("children run in a circle")
            elif len(chain) < 4:
                work.append((s, chain + [v]))
        return out

    def binop_range(self, *a):
        return None

    def builtin(self, st, t, name, c, args):
        base = c["fn"]
        # 0..n over known numbers
        if base == "core::iter::traits::iterator::Iterator::next":
            v = self.pointee(st, args[0])
            if v.k == "adt" and v.t[1] == "core::ops::range::Range":
                a, b = v.t[3]
                if a.k == "k" and b.k == "k":
                    root, path = self.deref_loc(args[0])
                    if a.t[1] < b.t[1]:
                        self.write(st, root, path, mk("adt", v.t[1], 0, (mk("k", a.t[1] + 1), b)))
                        return self.finish(st, t, mk("adt", OPTION, 1, (a,)))
                    return self.finish(st, t, mk("adt", OPTION, 0, ()))
        return super().builtin(st, t, name, c, args)

    def proj(self, v, e):
        if v.k == "seq" and e[0] == "i" and e[1].k == "k":
            i = e[1].t[1]
            if isinstance(i, int) and 0 <= i < len(v.t[1]):
                return v.t[1][i]
        if v.k == "seq" and e[0] == "ci":
            i = e[1] if not e[2] else len(v.t[1]) - e[1]
            if 0 <= i < len(v.t[1]):
                return v.t[1][i]
        return super().proj(v, e)

    def unop(self, op, a):
        if op == "PtrMetadata":
            x = a.t[1] if a.k == "refv" else a
            if x.k == "seq":
                return mk("k", len(x.t[1]))
        return super().unop(op, a)
