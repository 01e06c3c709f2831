"""Path-sensitive dataflow over MIR with disjunctive states.

A state maps places to abstract terms, keeps the facts learnt at branches and carries the state of
the automaton of the property being checked. Loops run to a fixpoint: a term made at a call site is
aged when the site is reached again, so the number of states is finite, and a state seen before is
not explored again. Calls of functions of /repo are analysed through (helpers, closures, and the
combinators of Option and Result); every other call is opaque and yields a fresh term naming the
callee and its arguments.
"""
from facts import ToolError
from program import callee as call_const


class Term:
    __slots__ = ("t", "sites", "__weakref__")

    def __init__(self, t, sites):
        self.t = t
        self.sites = sites

    @property
    def k(self):
        return self.t[0]

    def __repr__(self):
        return show(self)


_INTERN = {}
EMPTY = frozenset()


def mk(*t):
    key = ("k", type(t[1]), t[1]) if t[0] == "k" else t
    r = _INTERN.get(key)
    if r is None:
        s = EMPTY
        if t[0] in ("res", "hav", "old") and t[1] is not None:
            s = frozenset((t[1],))
        for x in t[1:]:
            if isinstance(x, Term):
                if x.sites:
                    s = s | x.sites
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        if y.sites:
                            s = s | y.sites
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Term) and z.sites:
                                s = s | z.sites
        r = Term(t, s)
        _INTERN[key] = r
    return r


def show(v, d=0):
    if not isinstance(v, Term):
        return str(v)
    t = v.t
    k = t[0]
    if d > 7:
        return "…"
    if k == "k":
        return repr(t[1]) if not isinstance(t[1], tuple) else repr(t[1][1])
    if k == "adt":
        n = t[1].rsplit("::", 1)[-1]
        return f"{n}#{t[2]}({', '.join(show(x, d+1) for x in t[3])})"
    if k in ("tup",):
        return "(" + ", ".join(show(x, d + 1) for x in t[1]) + ")"
    if k == "clos":
        return "closure " + t[1].rsplit("::", 2)[-2] + "{" + ", ".join(show(x, d + 1) for x in t[2]) + "}"
    if k == "res":
        return short(t[2]) + "(" + ", ".join(show(x, d + 1) for x in t[3]) + ")"
    if k == "ref":
        return f"&{t[2]}{''.join(show_elem(e) for e in t[3])}"
    if k == "refv":
        return "&" + show(t[1], d + 1)
    if k == "fld":
        return show(t[1], d + 1) + show_elem(t[2])
    if k == "deref":
        return "*" + show(t[1], d + 1)
    if k == "sym":
        return str(t[1])
    if k in ("op", "un", "discr", "cast", "old", "upd"):
        return k + "(" + ", ".join(show(x, d + 1) for x in t[1:] if isinstance(x, (Term, str))) + ")"
    return k + ":" + ",".join(str(x) for x in t[1:3])


def short(fid):
    s = fid.replace("core::", "").replace("alloc::", "")
    return s if len(s) < 60 else "…" + s[-58:]


def show_elem(e):
    if e[0] == "f":
        return "." + str(e[2])
    if e[0] == "v":
        return f"@{e[1]}"
    return f"[{e}]"


UNIT = mk("k", "()")
TRUE = mk("k", True)
FALSE = mk("k", False)
CELL = ("f", -1, "<inner>")


class Frame:
    __slots__ = ("fn", "block", "dest", "ret", "site", "subst", "discard")

    def __init__(self, fn, block, dest, ret, site, subst, discard=None):
        self.fn = fn
        self.block = block
        self.dest = dest
        self.ret = ret
        self.site = site
        self.subst = subst
        self.discard = discard

    def copy(self):
        return Frame(self.fn, self.block, self.dest, self.ret, self.site, self.subst, self.discard)


class State:
    __slots__ = ("frames", "mem", "facts", "q")

    def __init__(self, frames, mem, facts, q):
        self.frames = frames
        self.mem = mem
        self.facts = facts
        self.q = q

    def copy(self):
        return State([f.copy() for f in self.frames], dict(self.mem), dict(self.facts), self.q)

    def key(self):
        return (
            tuple((f.site, f.block, f.fn.id, f.discard) for f in self.frames),
            frozenset(self.mem.items()),
            frozenset(self.facts.items()),
            self.q,
        )

    @property
    def top(self):
        return self.frames[-1]


class End:
    """How a path ends: kind is 'ret', 'panic' or 'stop'."""
    __slots__ = ("kind", "value", "state", "where")

    def __init__(self, kind, value, state, where):
        self.kind = kind
        self.value = value
        self.state = state
        self.where = where


PURE_PREFIX = (
    "<str as core::cmp::PartialEq",
    "core::str::",
    "<str>::",
    "<[T]>::len",
    "<[T]>::is_empty",
)


class Interp:
    def __init__(self, prog, hook=None, opaque=None, track=None, max_states=60000, max_depth=14,
                 on_write=None, on_enter=None, on_drop=None, explore_closures=True, pure=None, on_return=None,
                 model_cells=True, keep_dead=False, fold_sums=True, write_filter=None):
        self.prog = prog
        self.hook = hook
        self.opaque = opaque or (lambda fn: False)
        self.track = track
        self.max_states = max_states
        self.max_depth = max_depth
        self.on_write = on_write
        self.on_enter = on_enter
        self.on_drop = on_drop
        self.on_return = on_return
        self.explore_closures = explore_closures
        self.pure = pure
        self.model_cells = model_cells
        self.keep_dead = keep_dead
        self.fold_sums = fold_sums
        self.write_filter = write_filter
        self.states = 0
        self.visited_fns = set()
        self.visited_blocks = set()
        self.opaque_calls = {}

    # -- values ------------------------------------------------------------
    def default(self, root):
        if root[0] == "D":
            t = root[1]
            if t.k == "refv":
                return t.t[1]
            return mk("deref", t)
        return mk("undef")

    def proj(self, v, e):
        t = v.t
        k = t[0]
        if k == "adt":
            if e[0] == "f":
                if 0 <= e[1] < len(t[3]):
                    return t[3][e[1]]
                return mk("fld", v, e)
            if e[0] == "v":
                return v
        elif k == "tup":
            if e[0] == "f" and 0 <= e[1] < len(t[1]):
                return t[1][e[1]]
            if e[0] == "ci" and e[1] < len(t[1]) and not e[2]:
                return t[1][e[1]]
            if e[0] == "i" and e[1].k == "k" and isinstance(e[1].t[1], int) and e[1].t[1] < len(t[1]):
                return t[1][e[1].t[1]]
        elif k == "clos":
            if e[0] == "f" and e[1] < len(t[2]):
                return t[2][e[1]]
        elif k == "upd":
            for pe, pv in t[2]:
                if pe == e:
                    return pv
            return self.proj(t[1], e)
        return mk("fld", v, e)

    def with_proj(self, v, path, new):
        if not path:
            return new
        e = path[0]
        sub = self.with_proj(self.proj(v, e), path[1:], new)
        t = v.t
        k = t[0]
        if k == "adt" and e[0] == "f" and 0 <= e[1] < len(t[3]):
            fs = list(t[3])
            fs[e[1]] = sub
            return mk("adt", t[1], t[2], tuple(fs))
        if k == "adt" and e[0] == "v":
            return sub
        if k == "tup" and e[0] == "f" and e[1] < len(t[1]):
            fs = list(t[1])
            fs[e[1]] = sub
            return mk("tup", tuple(fs))
        if k == "clos" and e[0] == "f" and e[1] < len(t[2]):
            fs = list(t[2])
            fs[e[1]] = sub
            return mk("clos", t[1], tuple(fs))
        if k == "upd":
            over = tuple((pe, pv) for pe, pv in t[2] if pe != e and pe[0] != "i") + ((e, sub),)
            return mk("upd", t[1], over)
        if k == "undef" and e[0] == "f":
            return mk("upd", v, ((e, sub),))
        return mk("upd", v, ((e, sub),))

    def read(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        for e in path:
            v = self.proj(v, e)
        return v

    def write(self, st, root, path, val, line=None):
        if self.on_write:
            self.on_write(self, st, root, path, val, line)
        if self.write_filter:
            val = self.write_filter(self, st, root, path, val)
            if val is None:
                return
        if not path:
            st.mem[root] = val
            return
        base = st.mem.get(root)
        if base is None:
            base = self.default(root)
        st.mem[root] = self.with_proj(base, path, val)

    def loc(self, st, place):
        depth = len(st.frames) - 1
        root, path = (depth, place[0]), ()
        for e in place[1]:
            if e == "*" or e == "*raw":
                v = self.read(st, root, path)
                root, path = self.deref_loc(v)
            elif e[0] == ".":
                path = path + (("f", e[1], e[2]),)
            elif e[0] == "v":
                path = path + (("v", e[1]),)
            elif e[0] == "[]":
                iv = self.read(st, (depth, e[1]), ())
                path = path + (("i", iv),)
            else:
                path = path + (tuple(e),)
        return root, path

    def deref_loc(self, v):
        if v.k == "ref":
            return v.t[2], v.t[3]
        if v.k == "guard":
            return v.t[2], v.t[3]
        return ("D", v), ()

    def strip(self, st, v, depth=0):
        """The value without references to places of the state."""
        if depth > 8:
            return v
        t = v.t
        k = t[0]
        if k == "ref":
            root, path = t[2], t[3]
            if root[0] == "D" and not path and root not in st.mem:
                return root[1]
            return mk("refv", self.strip(st, self.read(st, root, path), depth + 1))
        if k == "guard":
            return mk("refv", self.strip(st, self.read(st, t[2], t[3]), depth + 1))
        if k == "adt" and t[3]:
            return mk("adt", t[1], t[2], tuple(self.strip(st, x, depth + 1) for x in t[3]))
        if k == "tup" and t[1]:
            return mk("tup", tuple(self.strip(st, x, depth + 1) for x in t[1]))
        if k == "clos" and t[2]:
            return mk("clos", t[1], tuple(self.strip(st, x, depth + 1) for x in t[2]))
        if k == "upd":
            return mk("upd", self.strip(st, t[1], depth + 1), tuple((e, self.strip(st, x, depth + 1)) for e, x in t[2]))
        return v

    def const(self, fn, c):
        if "fn" in c:
            return mk("fn", FnRef(c, fn.crate))
        if "v" in c and c["v"] is not None:
            return self.cval(c["v"])
        if "prom" in c:
            return self.promoted(c["prom"][0], c["prom"][1])
        if "def" in c:
            return mk("const", c["def"])
        if "t" in c:
            ty = self.prog.ty(fn.crate, c["t"])
            if ty["k"] == "closure":
                return mk("clos", ty["def"], ())
            if ty["k"] == "tuple" and not ty["args"]:
                return UNIT
            if ty["k"] == "adt":
                adt = self.prog.adts.get(ty["def"])
                if adt and adt.kind == "struct" and not adt.variants[0].fields:
                    return mk("adt", adt.id, 0, ())
                if ty["def"] == "core::option::Option":
                    # the only constant of a generic Option
                    return mk("adt", ty["def"], 0, ())
            return mk("const", ty["s"] + ":" + str(c.get("tyconst", "")))
        return mk("const", "?")

    def cval(self, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return mk("k", v)
        if v is None:
            return mk("const", "?")
        if "str" in v:
            return mk("k", v["str"])
        if "char" in v:
            return mk("k", ("char", v["char"]))
        if "f" in v:
            return mk("k", ("f", v["f"]))
        if "bytes" in v:
            return mk("k", ("bytes", bytes(v["bytes"])))
        if "ref" in v:
            return mk("refv", self.cval(v["ref"]))
        if "adt" in v:
            return mk("adt", v["adt"], v["vi"], tuple(self.cval(f) for f in v["fields"]))
        if "tuple" in v:
            return mk("tup", tuple(self.cval(f) for f in v["tuple"]))
        if "static" in v:
            return mk("refv", mk("static", v["static"]))
        return mk("const", "?")

    def promoted(self, fid, i):
        p = self.prog.proms.get((fid, i))
        if p is None:
            return mk("const", f"promoted {fid} {i}")
        st = State([Frame(p, 0, None, None, "prom", {})], {}, {}, None)
        for s in p.blocks[0]["s"]:
            if s[0] == "=":
                root, path = self.loc(st, s[1])
                self.write(st, root, path, self.rvalue(st, s[2]))
        return self.strip(st, self.read(st, (0, 0), ())) if p.blocks[0]["t"][0] == "ret" else mk("const", f"promoted {fid} {i}")

    def operand(self, st, op):
        if op[0] == "k":
            return self.const(st.top.fn, op[1])
        root, path = self.loc(st, op[1])
        return self.read(st, root, path)

    def rvalue(self, st, r):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            root, path = self.loc(st, r[2])
            return mk("ref", r[1], root, path)
        if k == "addr":
            root, path = self.loc(st, r[1])
            return mk("ref", True, root, path)
        if k == "discr":
            root, path = self.loc(st, r[1])
            v = self.read(st, root, path)
            return self.discr(v)
        if k == "agg":
            vals = tuple(self.operand(st, o) for o in r[2])
            if r[1] == "adt":
                if r[6] is not None:
                    return mk("upd", mk("undef"), ((("f", r[6], ""), vals[0]),))
                return mk("adt", r[3], r[4], vals)
            if r[1] in ("tuple", "array"):
                return mk("tup", vals) if vals else UNIT
            if r[1] == "closure":
                return mk("clos", r[3], vals)
            return mk("rawptr", vals)
        if k == "cast":
            v = self.operand(st, r[2])
            ck = r[1]
            if "PointerCoercion" in ck or ck in ("PtrToPtr", "Transmute", "FnPtrToPtr") or "Subtype" in ck:
                return v
            if ck == "BoxDerefTransmute" and v.k in ("ref", "refv"):
                return v
            if ck == "IntToInt" and v.k == "k" and isinstance(v.t[1], int) and not isinstance(v.t[1], bool):
                return v
            if ck == "IntToInt" and v.k == "discr":
                return v
            return mk("cast", v, self.prog.tys(st.top.fn, r[3]))
        if k == "bin":
            return self.binop(r[1], self.operand(st, r[2]), self.operand(st, r[3]))
        if k == "un":
            return self.unop(r[1], self.operand(st, r[2]))
        if k == "repeat":
            return mk("rep", self.operand(st, r[1]))
        if k == "tls":
            return mk("static", r[1])
        raise ToolError(f"unknown rvalue {k}")

    def discr(self, v):
        if v.k == "adt":
            adt = self.prog.adts.get(v.t[1])
            if adt is not None and adt.kind == "enum":
                return mk("k", adt.variants[v.t[2]].discr)
            return mk("k", v.t[2])
        return mk("discr", v)

    def binop(self, op, a, b):
        wo = op.endswith("WithOverflow")
        base = op[:-12] if wo else op
        r = None
        if not self.fold_sums and base in ("Add", "Sub"):
            r = mk("sum")
            return mk("tup", (r, FALSE)) if wo else r
        if base in ("Add", "Sub", "Mul") and (a.k == "sum" or b.k == "sum" or counts(base, a, b)):
            # widening: a counter that keeps growing in a loop
            r = mk("sum")
            return mk("tup", (r, FALSE)) if wo else r
        if a.k == "k" and b.k == "k" and isinstance(a.t[1], (int, bool)) and isinstance(b.t[1], (int, bool)):
            x, y = a.t[1], b.t[1]
            f = {
                "Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y,
                "Gt": lambda: x > y, "Ge": lambda: x >= y, "Add": lambda: x + y, "Sub": lambda: x - y,
                "Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
            }.get(base)
            if f:
                r = mk("k", f())
        elif a.k == "k" and b.k == "k" and base in ("Eq", "Ne") and type(a.t[1]) == type(b.t[1]):
            if not (isinstance(a.t[1], tuple) and a.t[1][0] == "f"):
                r = mk("k", (a.t[1] == b.t[1]) == (base == "Eq"))
        if r is None:
            if a is b and base in ("Eq", "Ne") and a.k in ("discr", "res", "sym", "fld") and not a.sites & frozenset():
                if a.k != "old":
                    r = mk("k", base == "Eq") if not _has_old(a) else None
            if r is None:
                if base in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor", "Add", "Mul") and a.k == "k" and b.k != "k":
                    a, b = b, a
                if base in ("BitAnd", "BitOr") and b.k == "k" and isinstance(b.t[1], bool):
                    if base == "BitAnd":
                        r = a if b.t[1] else FALSE
                    else:
                        r = TRUE if b.t[1] else a
                else:
                    r = mk("op", base, a, b)
        if wo:
            return mk("tup", (r, FALSE))
        return r

    def unop(self, op, a):
        if op == "Not" and a.k == "k" and isinstance(a.t[1], bool):
            return mk("k", not a.t[1])
        if op == "Not" and a.k == "un" and a.t[1] == "Not":
            return a.t[2]
        if op == "PtrMetadata":
            return mk("un", "len", a)
        return mk("un", op, a)

    # -- facts -------------------------------------------------------------
    def lookup(self, st, v):
        """The known value of a term, or None."""
        if v.k == "k":
            return v.t[1]
        f = st.facts.get(v)
        if f and f[0] == "=":
            return f[1]
        if v.k == "un" and v.t[1] == "Not":
            x = self.lookup(st, v.t[2])
            return (not x) if isinstance(x, bool) else None
        if v.k == "res" and v.t[1] is None and v.t[2] == STR_EQ:
            s = str_eq(v)
            if s is not None:
                f = st.facts.get(mk("strval", s[0]))
                if f is not None:
                    return f[1] == s[1]
        if v.k == "op" and v.t[1] in ("Eq", "Ne"):
            a, b = v.t[2], v.t[3]
            x = self.lookup(st, a)
            y = self.lookup(st, b)
            if x is not None and y is not None and not _isfloat(x):
                return (x == y) == (v.t[1] == "Eq")
            if y is not None:
                f = st.facts.get(a)
                if f and f[0] == "!" and y in f[1]:
                    return v.t[1] == "Ne"
        return None

    def assume(self, st, v, val):
        """Records that term v has value val; False when that cannot be."""
        cur = self.lookup(st, v)
        if cur is not None:
            return cur == val
        f = st.facts.get(v)
        if f and f[0] == "!" and val in f[1]:
            return False
        if v.k == "un" and v.t[1] == "Not" and isinstance(val, (bool, int)):
            return self.assume(st, v.t[2], not val)
        if v.k == "op" and v.t[1] in ("Eq", "Ne"):
            same = bool(val) == (v.t[1] == "Eq")
            a, b = v.t[2], v.t[3]
            y = self.lookup(st, b)
            if y is not None and not _isfloat(y):
                return self.assume(st, a, y) if same else self.exclude(st, a, (y,))
        if v.k == "op" and v.t[1] in ("BitAnd", "BitOr") and isinstance(val, bool):
            if v.t[1] == "BitAnd" and val or v.t[1] == "BitOr" and not val:
                if not self.assume(st, v.t[2], val) or not self.assume(st, v.t[3], val):
                    return False
                return True
        if val is True and v.k == "res" and v.t[1] is None and v.t[2] == STR_EQ:
            # a string equal to one constant differs from the others
            s = str_eq(v)
            if s is not None:
                e = mk("strval", s[0])
                if self.track is None or self.track(e):
                    st.facts[e] = ("=", s[1])
        if self.track is None or self.track(v):
            st.facts[v] = ("=", val)
        return True

    def exclude(self, st, v, vals):
        cur = self.lookup(st, v)
        if cur is not None:
            return cur not in vals
        f = st.facts.get(v)
        old = f[1] if f else frozenset()
        new = old | frozenset(vals)
        # a discriminant with every variant but one excluded is known
        if self.track is None or self.track(v):
            st.facts[v] = ("!", new)
        return True

    # -- sites -------------------------------------------------------------
    def site(self, st, extra=""):
        return "/".join(f"{f.fn.id}@{f.block}" for f in st.frames) + extra

    def age(self, st, site):
        """A site is reached again: what it produced before is now old."""
        hit = False
        for r, v in st.mem.items():
            if site in v.sites or (r[0] == "D" and site in r[1].sites):
                hit = True
                break
        if not hit:
            for v in st.facts:
                if site in v.sites:
                    hit = True
                    break
        if not hit:
            return
        memo = {}
        mem = {}
        for r, v in st.mem.items():
            if r[0] == "D" and site in r[1].sites:
                r2 = ("D", self.rename(r[1], site, memo))
                if r2 in mem:
                    continue
                r = r2
            mem[r] = self.rename(v, site, memo) if site in v.sites else v
        st.mem = mem
        st.facts = {v: f for v, f in st.facts.items() if site not in v.sites}

    def rename(self, v, site, memo):
        if not isinstance(v, Term) or site not in v.sites:
            return v
        r = memo.get(v)
        if r is not None:
            return r
        t = v.t
        if t[0] in ("res", "hav", "old") and t[1] == site:
            r = mk("old", site, t[2] if t[0] == "res" else t[2] if len(t) > 2 else None)
        else:
            r = mk(*[self._ren(x, site, memo) for x in t])
        memo[v] = r
        return r

    def _ren(self, x, site, memo):
        if isinstance(x, Term):
            return self.rename(x, site, memo)
        if isinstance(x, tuple):
            return tuple(self._ren(y, site, memo) for y in x)
        return x

    # -- running -----------------------------------------------------------
    def run(self, fn, args=None, q=None, facts=None, mem=None, subst=None):
        """Explores fn; returns the ways its paths end."""
        st = State([Frame(fn, 0, None, None, "top", subst or {})], {}, dict(facts or {}), q)
        if mem:
            st.mem.update(mem)
        for i in range(fn.argc):
            v = args[i] if args and i < len(args) and args[i] is not None else mk("sym", f"arg{i}")
            st.mem[(0, i + 1)] = v
        return self.explore([st])

    def explore(self, work):
        ends = []
        seen = set()
        end_seen = set()
        while work:
            st = work.pop()
            if not self.keep_dead:
                self.drop_dead(st)
            k = st.key()
            if k in seen:
                continue
            seen.add(k)
            self.states += 1
            if self.states > self.max_states:
                raise ToolError(f"more than {self.max_states} states in {st.frames[0].fn.id} (at {st.top.fn.id})")
            for s2 in self.step(st):
                if isinstance(s2, End):
                    ek = (s2.kind, s2.value, s2.state.q, frozenset(s2.state.facts.items()), frozenset(s2.state.mem.items()))
                    if ek not in end_seen:
                        end_seen.add(ek)
                        ends.append(s2)
                else:
                    work.append(s2)
        return ends

    def drop_dead(self, st):
        fn = st.top.fn
        live, taken = liveness(fn)
        depth = len(st.frames) - 1
        lb = live[st.top.block]
        dead = [r for r in st.mem if r[0] == depth and r[1] not in lb and r[1] not in taken]
        for r in dead:
            del st.mem[r]
        # what pointers pointed to that nothing holds any more
        made = [r for r in st.mem if r[0] == "D" and r[1].sites]
        if made:
            held = set()
            for r, v in st.mem.items():
                if r[0] != "D" or not r[1].sites:
                    held |= v.sites
                    if v.k in ("ref", "guard", "adt", "tup", "clos", "upd", "refv"):
                        _ref_sites(v, held, 0)
            while True:
                keep = [r for r in made if r[1].sites <= held]
                if not keep:
                    break
                made = [r for r in made if not r[1].sites <= held]
                for r in keep:
                    held |= st.mem[r].sites
                    _ref_sites(st.mem[r], held, 0)
            for r in made:
                del st.mem[r]

    def step(self, st):
        fn = st.top.fn
        self.visited_fns.add(fn.id)
        self.visited_blocks.add((fn.id, st.top.block))
        b = fn.blocks[st.top.block]
        depth = len(st.frames) - 1
        st = st.copy()
        for s in b["s"]:
            if s[0] == "=":
                v = self.rvalue(st, s[2])
                root, path = self.loc(st, s[1])
                self.write(st, root, path, v, s[3])
            elif s[0] == "dead":
                st.mem.pop((depth, s[1]), None)
            elif s[0] == "sd":
                root, path = self.loc(st, s[1])
                self.write(st, root, path, mk("sdv", s[2]), s[3])
        t = b["t"]
        k = t[0]
        if k == "goto":
            st.top.block = t[1]
            return [st]
        if k == "switch":
            return self.switch(st, t)
        if k == "ret":
            return self.ret(st)
        if k == "drop":
            if self.on_drop:
                root, path = self.loc(st, t[1])
                self.on_drop(self, st, root, path, self.prog.tys(fn, t[3]))
            st.top.block = t[2]
            return [st]
        if k == "assert":
            out = []
            c = self.operand(st, t[1])
            known = self.lookup(st, c)
            if known is None or known == t[2]:
                s2 = st.copy()
                s2.top.block = t[3]
                out.append(s2)
            return out
        if k == "call":
            return self.call(st, t)
        if k in ("unreach", "resume"):
            return []
        if k == "yield":
            st.top.block = t[2]
            return [st]
        raise ToolError(f"unknown terminator {k} in {fn.id}")

    def switch(self, st, t):
        v = self.operand(st, t[1])
        isbool = self.prog.tys(st.top.fn, t[4]) == "bool"
        known = self.lookup(st, v)
        if known is not None and isinstance(known, (int, bool)):
            for val, tgt in t[2]:
                if int(known) == val:
                    st.top.block = tgt
                    return [st]
            st.top.block = t[3]
            return [st]
        if known is not None and isinstance(known, tuple) and known[0] == "char":
            for val, tgt in t[2]:
                if ord(known[1]) == val:
                    st.top.block = tgt
                    return [st]
            st.top.block = t[3]
            return [st]
        out = []
        vals = []
        for val, tgt in t[2]:
            vals.append(val)
            s2 = st.copy()
            if self.assume(s2, v, bool(val) if isbool else val):
                s2.top.block = tgt
                out.append(s2)
        s2 = st
        if isbool and len(vals) == 1:
            ok = self.assume(s2, v, not vals[0])
        else:
            ok = self.exclude(s2, v, vals)
            if ok and v.k == "discr":
                ok = self.not_exhausted(s2, v)
        if ok and s2.top.fn.blocks[t[3]]["t"][0] != "unreach":
            s2.top.block = t[3]
            out.append(s2)
        return out

    def not_exhausted(self, st, v):
        return True

    def ret(self, st):
        depth = len(st.frames) - 1
        v = st.mem.get((depth, 0), UNIT)
        if v.k == "undef":
            v = UNIT
        fr = st.top
        if self.on_return:
            self.on_return(self, st, fr.fn, v)
        if depth == 0:
            return [End("ret", v, st, fr.fn.where())]
        v = self.escape(st, v, depth)
        for r in [r for r in st.mem if r[0] == depth]:
            del st.mem[r]
        # references to the callee's own temporaries that were stored elsewhere
        for r, x in list(st.mem.items()):
            if _mentions_depth(x, depth):
                st.mem[r] = self.escape_dead(x, depth)
        st.frames.pop()
        if fr.discard is not None:
            return self.after_discard(st, fr, v)
        if fr.ret is None:
            return [End("panic", None, st, fr.fn.where())]
        root, path = fr.dest
        self.write(st, root, path, v)
        st.top.block = fr.ret
        return [st]

    def escape(self, st, v, depth, n=0):
        if n > 8:
            return v
        t = v.t
        k = t[0]
        if k in ("ref", "guard"):
            if t[2][0] == depth:
                return mk("refv", self.escape(st, self.read(st, t[2], t[3]), depth, n + 1))
            return v
        if k == "adt" and t[3]:
            return mk("adt", t[1], t[2], tuple(self.escape(st, x, depth, n + 1) for x in t[3]))
        if k == "tup" and t[1]:
            return mk("tup", tuple(self.escape(st, x, depth, n + 1) for x in t[1]))
        if k == "clos" and t[2]:
            return mk("clos", t[1], tuple(self.escape(st, x, depth, n + 1) for x in t[2]))
        if k == "upd":
            return mk("upd", self.escape(st, t[1], depth, n + 1), tuple((e, self.escape(st, x, depth, n + 1)) for e, x in t[2]))
        return v

    def escape_dead(self, v, depth):
        t = v.t
        k = t[0]
        if k in ("ref", "guard"):
            return mk("gone") if t[2][0] == depth else v
        if k == "adt" and t[3]:
            return mk("adt", t[1], t[2], tuple(self.escape_dead(x, depth) for x in t[3]))
        if k == "tup" and t[1]:
            return mk("tup", tuple(self.escape_dead(x, depth) for x in t[1]))
        if k == "clos" and t[2]:
            return mk("clos", t[1], tuple(self.escape_dead(x, depth) for x in t[2]))
        if k == "upd":
            return mk("upd", self.escape_dead(t[1], depth), tuple((e, self.escape_dead(x, depth)) for e, x in t[2]))
        return v

    # -- calls -------------------------------------------------------------
    def finish(self, st, t, val):
        """Continues after call terminator t with the result val."""
        if t[4] is None:
            return [End("panic", None, st, st.top.fn.where(t[5]))]
        root, path = self.loc(st, t[3])
        self.write(st, root, path, val)
        st.top.block = t[4]
        return [st]

    def subst_ty(self, st, ty):
        if ty["k"] == "param":
            return st.top.subst.get(ty["s"])
        if ty["k"] == "ref":
            return self.subst_ty(st, self.prog.ty(st.top.fn.crate, ty["t"]))
        return ty.get("def") or ty["s"]

    def resolve(self, st, c, crate):
        """The function body a callee constant stands for in the current frame, if there is one."""
        fid = c.get("res") or c["fn"]
        f = self.prog.get(fid)
        if f is not None and not (c.get("unres") or c.get("virt")):
            return f
        if c.get("trait") and c["subs"] and not c.get("virt"):
            sty = self.prog.ty(crate, c["subs"][0])
            name = self.subst_ty(st, sty)
            if name:
                m = self.prog.impl_method(c["trait"], name, c["fn"].rsplit("::", 1)[-1])
                if m is not None:
                    return m
        if c.get("unres") and f is not None and f.deftrait:
            return None
        return f if not c.get("virt") else None

    def call(self, st, t):
        f = self.operand(st, t[1])
        args = [self.operand(st, a) for a in t[2]]
        return self.apply(st, t, f, args)

    def apply(self, st, t, f, args):
        if f.k == "fn":
            ref = f.t[1]
            c = ref.c
            fid = c.get("res") or c["fn"]
            if "ctor" in c:
                return self.finish(st, t, mk("adt", c["ctor"][0], c["ctor"][1], tuple(args)))
            target = self.resolve(st, c, ref.crate)
            name = target.id if target is not None else fid
            if self.hook:
                r = self.hook(self, st, t, name, c, args)
                if r is not None:
                    return r
            r = self.builtin(st, t, name, c, args)
            if r is not None:
                return r
            base = c["fn"]
            if base.startswith("core::ops::function::Fn"):
                return self.call_closure(st, t, args[0], self.tuple_args(args[1]), base)
            if target is not None and self.can_inline(st, target):
                return self.enter(st, t, target, args, c, ref.crate)
            return self.opaque_call(st, t, name, args, c)
        if f.k in ("clos", "ref", "refv"):
            return self.call_closure(st, t, f, args, "indirect")
        if self.hook:
            r = self.hook(self, st, t, "<indirect>", {"fn": "<indirect>", "subs": []}, args)
            if r is not None:
                return r
        return self.opaque_call(st, t, "<indirect>", args, None)

    def tuple_args(self, v):
        if v.k == "tup":
            return list(v.t[1])
        if v is UNIT:
            return []
        return [self.proj(v, ("f", i, str(i))) for i in range(4)]

    def can_inline(self, st, fn):
        if len(st.frames) >= self.max_depth:
            return False
        if any(f.fn.id == fn.id for f in st.frames):
            return False
        if fn.kind == "closure" and "async" in fn.id:
            return False
        return fn.kind == "extern" or not self.opaque(fn)

    def enter(self, st, t, fn, args, c=None, crate=None, discard=None):
        st = st if discard is None else st
        subst = {}
        if c is not None:
            subs = c.get("rsubs", c["subs"]) if fn.id == (c.get("res") or c["fn"]) else []
            for p, s in zip(fn.params, subs):
                n = self.subst_ty(st, self.prog.ty(crate, s))
                if n:
                    subst[p] = n
        elif fn.kind == "closure":
            subst = st.top.subst
        if discard is None:
            dest = self.loc(st, t[3])
            ret = t[4]
        else:
            dest = None
            ret = None
        site = f"{st.top.fn.id}@{st.top.block}"
        st.frames.append(Frame(fn, 0, dest, ret, site, subst, discard))
        depth = len(st.frames) - 1
        for r in [r for r in st.mem if r[0] == depth]:
            del st.mem[r]
        for i in range(fn.argc):
            st.mem[(depth, i + 1)] = args[i] if i < len(args) else mk("sym", f"missing{i}")
        if self.on_enter:
            r = self.on_enter(self, st, fn, args)
            if r is False:
                return []
        return [st]

    def call_closure(self, st, t, f, args, kind, discard=None):
        v = f
        n = 0
        while v.k in ("ref", "refv") and n < 4:
            if v.k == "ref":
                v = self.read(st, v.t[2], v.t[3])
            else:
                v = v.t[1]
            n += 1
        if v.k == "clos":
            fn = self.prog.fns.get(v.t[1])
            if fn is not None and self.can_inline(st, fn):
                selfty = self.prog.local_ty(fn, 1) if fn.argc else {"k": ""}
                if selfty["k"] == "ref":
                    a0 = f if f.k in ("ref", "refv") else mk("refv", v)
                    m = 0
                    while a0.k == "ref" and self.read(st, a0.t[2], a0.t[3]).k == "ref" and m < 3:
                        a0 = self.read(st, a0.t[2], a0.t[3])
                        m += 1
                else:
                    a0 = v
                return self.enter(st, t, fn, [a0] + list(args), discard=discard)
        if v.k == "fn":
            if discard is None:
                return self.apply(st, t, v, list(args))
            ref = v.t[1]
            target = self.resolve(st, ref.c, ref.crate)
            if target is not None and self.can_inline(st, target) and "ctor" not in ref.c:
                return self.enter(st, t, target, list(args), ref.c, ref.crate, discard=discard)
            return None
        if discard is not None:
            return None
        return self.opaque_call(st, t, "<closure>", [f] + list(args), None)

    def opaque_call(self, st, t, name, args, c, explore=True):
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        if t[4] is None:
            return [End("panic", None, st, st.top.fn.where(t[5]))]
        clos = []
        if self.explore_closures and explore:
            for a in args:
                for v in self.callables(st, a):
                    clos.append(v)
        if clos:
            outs = []
            base = st.copy()
            outs += self.opaque_result(base, t, name, args, c)
            for i, v in enumerate(clos):
                s2 = st.copy()
                site = self.site(s2, f"#cl{i}")
                self.age(s2, site)
                n = self.closure_argc(s2, v)
                syms = [mk("res", site, name + f"#arg{j}", tuple(self.strip(s2, a) for a in args if a is not v)) for j in range(n)]
                r = self.call_closure(s2, t, v, syms, "closure", discard=(name, i))
                if r:
                    outs += r
            return outs
        return self.opaque_result(st, t, name, args, c)

    def callables(self, st, a):
        v = a
        n = 0
        while v.k == "ref" and n < 3:
            v = self.read(st, v.t[2], v.t[3])
            n += 1
        if v.k == "clos" and v.t[1] in self.prog.fns:
            return [a]
        if v.k == "fn" and "ctor" not in v.t[1].c:
            tgt = self.prog.get(v.t[1].c.get("res") or v.t[1].c["fn"])
            if tgt is not None and tgt.kind != "extern":
                return [a]
        return []

    def closure_argc(self, st, v):
        n = 0
        while v.k in ("ref", "refv") and n < 4:
            v = self.read(st, v.t[2], v.t[3]) if v.k == "ref" else v.t[1]
            n += 1
        if v.k == "clos":
            return max(self.prog.fns[v.t[1]].argc - 1, 0)
        if v.k == "fn":
            tgt = self.prog.get(v.t[1].c.get("res") or v.t[1].c["fn"])
            return tgt.argc if tgt else 0
        return 0

    def after_discard(self, st, fr, v):
        # the closure has run once inside an opaque call: the call may now return or run it again
        t = st.top.fn.blocks[st.top.block]["t"]
        f = self.operand(st, t[1])
        name, i = fr.discard
        args = [self.operand(st, a) for a in t[2]]
        if self.hook and hasattr(self, "closure_result"):
            self.closure_result(self, st, name, v)
        c = f.t[1].c if f.k == "fn" else None
        return self.opaque_call(st, t, name, args, c)

    def opaque_result(self, st, t, name, args, c):
        site = self.site(st)
        pure = name.startswith(PURE_PREFIX) or (self.pure is not None and self.pure(name))
        stripped = tuple(self.strip(st, a) for a in args)
        if pure:
            return self.finish(st, t, mk("res", None, name, stripped))
        if any(site in a.sites for a in stripped) or True:
            self.age(st, site)
            memo = {}
            stripped = tuple(self.rename(a, site, memo) for a in stripped)
            args = [self.rename(a, site, memo) for a in args]
        # an iterator stands for what it yields: taking from it leaves its term as it is
        if not (name.endswith(("::next", "::next_back")) and len(args) == 1 and c and "Iterator" in (c.get("trait") or name)):
            for i, a in enumerate(args):
                self.havoc(st, a, site, i, t, 0)
        return self.finish(st, t, mk("res", site, name, stripped))

    def havoc(self, st, a, site, i, t, depth):
        if depth > 4:
            return
        if a.k == "ref" and a.t[1]:
            self.write(st, a.t[2], a.t[3], mk("hav", site, i))
        elif a.k in ("clos",):
            for j, x in enumerate(a.t[2]):
                self.havoc(st, x, site, f"{i}.{j}", t, depth + 1)
        elif a.k == "adt":
            for j, x in enumerate(a.t[3]):
                self.havoc(st, x, site, f"{i}.{j}", t, depth + 1)
        elif a.k == "tup":
            for j, x in enumerate(a.t[1]):
                self.havoc(st, x, site, f"{i}.{j}", t, depth + 1)
        elif a.k in ("sym", "fld", "res", "deref", "hav") and isinstance(i, int):
            op = t[2][i] if i < len(t[2]) else None
            if op and op[0] in ("c", "m") and not op[1][1]:
                ty = self.prog.local_ty(st.top.fn, op[1][0])
                if ty["k"] == "ref" and ty["mut"]:
                    st.mem[("D", a)] = mk("hav", site, i)

    # -- models ------------------------------------------------------------
    def builtin(self, st, t, name, c, args):
        base = c["fn"]
        if base == "core::intrinsics::discriminant_value" or base == "core::mem::discriminant":
            v = self.pointee(st, args[0])
            return self.finish(st, t, self.discr(v))
        if base in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(args) == 2:
            a, b = (str_peel(self.strip(st, x)) for x in args)
            if a.k == "k" and isinstance(a.t[1], str):
                a, b = b, a
            if b.k == "k" and isinstance(b.t[1], str):
                if a.k == "k" and isinstance(a.t[1], str):
                    r = mk("k", a.t[1] == b.t[1])
                else:
                    r = mk("res", None, STR_EQ, (a, b))
                return self.finish(st, t, r if base.endswith("eq") else self.unop("Not", r))
            if a.k == "adt" and b.k == "adt" and a.t[1] == b.t[1] == "core::option::Option" and (a.t[2] != b.t[2] or a.t[2] == 0):
                return self.finish(st, t, mk("k", (a.t[2] == b.t[2]) == base.endswith("eq")))
            for x, y in ((a, b), (b, a)):
                x, y = unref(x), unref(y)
                if x.k == "adt" and not x.t[3] and x.t[1] in self.prog.adts and self.not_followed(st, c):
                    # derived equality against a variant without fields
                    r = self.binop("Eq", self.discr(y), self.discr(x))
                    return self.finish(st, t, r if base.endswith("eq") else self.unop("Not", r))
        if base in ("<str>::is_empty", "<[T]>::is_empty", "<str>::len", "<[T]>::len"):
            v = unref(self.strip(st, args[0]))
            n = None
            if v.k == "k" and isinstance(v.t[1], str):
                n = len(v.t[1].encode())
            elif v.k == "k" and isinstance(v.t[1], tuple) and v.t[1][0] == "bytes":
                n = len(v.t[1][1])
            elif v.k == "tup" and base.startswith("<["):
                n = len(v.t[1])
            if n is not None:
                return self.finish(st, t, mk("k", n == 0 if base.endswith("is_empty") else n))
        if base in ("core::mem::replace",):
            root, path = self.deref_loc(args[0])
            old = self.read(st, root, path)
            self.write(st, root, path, args[1])
            return self.finish(st, t, old)
        if base == "core::mem::swap":
            r1, p1 = self.deref_loc(args[0])
            r2, p2 = self.deref_loc(args[1])
            a, b = self.read(st, r1, p1), self.read(st, r2, p2)
            self.write(st, r1, p1, b)
            self.write(st, r2, p2, a)
            return self.finish(st, t, UNIT)
        if base in ("core::option::Option::take",) or base == "core::mem::take" and False:
            root, path = self.deref_loc(args[0])
            old = self.read(st, root, path)
            self.write(st, root, path, mk("adt", "core::option::Option", 0, ()))
            return self.finish(st, t, old)
        if self.model_cells:
            if base == "core::cell::Cell::new" or base == "core::cell::RefCell::new":
                return self.finish(st, t, mk("upd", mk("cell"), ((CELL, args[0]),)))
            if base in ("core::cell::Cell::get", "<core::cell::Cell<T>>::get") or base.endswith("Cell::get") and "core::cell" in base:
                root, path = self.deref_loc(args[0])
                return self.finish(st, t, self.read(st, root, path + (CELL,)))
            if base == "core::cell::Cell::set":
                root, path = self.deref_loc(args[0])
                self.write(st, root, path + (CELL,), args[1], t[5])
                return self.finish(st, t, UNIT)
            if base == "core::cell::Cell::replace":
                root, path = self.deref_loc(args[0])
                old = self.read(st, root, path + (CELL,))
                self.write(st, root, path + (CELL,), args[1], t[5])
                return self.finish(st, t, old)
            if base in ("core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut"):
                root, path = self.deref_loc(args[0])
                return self.finish(st, t, mk("guard", base.endswith("mut"), root, path + (CELL,)))
            if base in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut"):
                v = self.pointee(st, args[0])
                if v.k == "guard":
                    return self.finish(st, t, mk("ref", v.t[1], v.t[2], v.t[3]))
        if base == "core::clone::Clone::clone":
            target = self.resolve(st, c, st.top.fn.crate)
            sub = self.prog.ty(st.top.fn.crate, c["subs"][0]) if c["subs"] else None
            if target is None and sub is not None and sub["k"] in ("ref", "prim", "closure"):
                return self.finish(st, t, self.pointee(st, args[0]))
            if target is not None and target.kind != "extern":
                # a clone is a value equal to the original
                return self.finish(st, t, self.pointee(st, args[0]))
            if target is None:
                return self.finish(st, t, self.pointee(st, args[0]))
        if base in ("core::convert::Into::into", "core::convert::From::from"):
            fid = c.get("res") or base
            if fid in ("<T as core::convert::From<T>>::from",):
                return self.finish(st, t, args[0])
            if fid == "<T as core::convert::Into<U>>::into":
                target = self.into_target(st, c)
                if target is not None and self.can_inline(st, target):
                    return self.enter(st, t, target, args, None, None)
        if base == "core::iter::traits::collect::IntoIterator::into_iter" and (c.get("res") or "").startswith("<I as "):
            return self.finish(st, t, args[0])
        return None

    def not_followed(self, st, c):
        target = self.resolve(st, c, st.top.fn.crate)
        return target is None or not self.can_inline(st, target)

    def into_target(self, st, c):
        subs = c.get("rsubs") or c["subs"]
        crate = st.top.fn.crate
        if len(subs) < 2:
            return None
        a = self.prog.ty(crate, subs[0])
        b = self.prog.ty(crate, subs[1])
        for im in self.prog.impl_index.get(("core::convert::From", b.get("def") or b["s"]), []):
            ta = self.prog.ty(im["crate"], im["targs"][0])
            if (ta.get("def") or ta["s"]) == (a.get("def") or a["s"]):
                for n, fid in im["items"]:
                    if n == "from":
                        return self.prog.fns.get(fid)
        return None

    def pointee(self, st, v):
        root, path = self.deref_loc(v)
        return self.read(st, root, path)


class FnRef:
    """A callee constant, comparable by what it names."""
    __slots__ = ("c", "crate", "_k")
    _tab = {}

    def __new__(cls, c, crate):
        k = (c["fn"], c.get("res"), crate, tuple(c.get("subs", ())), c.get("ctor") and tuple(c["ctor"]))
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.c = c
            r.crate = crate
            r._k = k
            cls._tab[k] = r
        return r

    def __repr__(self):
        return "fn " + (self.c.get("res") or self.c["fn"])


def _ref_sites(v, out, d):
    t = v.t
    if d > 6:
        return
    if t[0] in ("ref", "guard") and t[2][0] == "D":
        out |= t[2][1].sites
        _ref_sites(t[2][1], out, d + 1)
    for x in t[1:]:
        if isinstance(x, Term):
            _ref_sites(x, out, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    _ref_sites(y, out, d + 1)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            _ref_sites(z, out, d + 1)


WIDEN = 4


def counts(op, a, b):
    """Whether the operation is one more step of a counter that has made several."""
    if a.k == "k" and b.k == "k":
        return op == "Add" and a.t[1] not in (True, False) and b.t[1] == 1 and isinstance(a.t[1], int) and WIDEN <= a.t[1] < 64
    n = 0
    while a.k == "op" and a.t[1] == op and n < WIDEN:
        a = a.t[2]
        n += 1
    return n >= WIDEN


STR_EQ = "<str as core::cmp::PartialEq<str>>::eq"


def unref(v):
    while v.k == "refv":
        v = v.t[1]
    return v


def str_peel(v):
    """The string a reference to it or a view of it stands for."""
    while True:
        if v.k == "refv":
            v = v.t[1]
        elif v.k == "deref":
            v = v.t[1]
        elif v.k == "res" and len(v.t[3]) == 1 and v.t[2].endswith(("String::as_str", "String as core::ops::deref::Deref>::deref", "AsRef::as_ref", "Borrow::borrow")):
            v = v.t[3][0]
        else:
            return v


def str_eq(v):
    a, b = v.t[3]
    while a.k == "refv":
        a = a.t[1]
    while b.k == "refv":
        b = b.t[1]
    if b.k == "k" and isinstance(b.t[1], str):
        return a, b.t[1]
    if a.k == "k" and isinstance(a.t[1], str):
        return b, a.t[1]
    return None


def _isfloat(x):
    return isinstance(x, tuple) and x and x[0] == "f"


def _has_old(v):
    if v.k == "old":
        return True
    return any("old" == x for x in ()) or _scan_old(v)


def _scan_old(v):
    for x in v.t[1:]:
        if isinstance(x, Term):
            if x.k == "old" or _scan_old(x):
                return True
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term) and (y.k == "old" or _scan_old(y)):
                    return True
    return False


def _mentions_depth(v, depth):
    t = v.t
    k = t[0]
    if k in ("ref", "guard"):
        return t[2][0] == depth
    if k == "adt":
        return any(_mentions_depth(x, depth) for x in t[3])
    if k == "tup":
        return any(_mentions_depth(x, depth) for x in t[1])
    if k == "clos":
        return any(_mentions_depth(x, depth) for x in t[2])
    if k == "upd":
        return _mentions_depth(t[1], depth) or any(_mentions_depth(x, depth) for _, x in t[2])
    return False


def _op_locals(op, out):
    if op[0] in ("c", "m"):
        out.add(op[1][0])
        for e in op[1][1]:
            if isinstance(e, list) and e[0] == "[]":
                out.add(e[1])


def _place_use(p, out):
    out.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == "[]":
            out.add(e[1])


def _rv_locals(r, out, taken):
    k = r[0]
    if k in ("use", "repeat"):
        _op_locals(r[1], out)
    elif k in ("ref", "addr"):
        p = r[2] if k == "ref" else r[1]
        _place_use(p, out)
        if "*" not in p[1] and "*raw" not in p[1]:
            taken.add(p[0])
    elif k == "discr":
        _place_use(r[1], out)
    elif k == "agg":
        for o in r[2]:
            _op_locals(o, out)
    elif k == "cast":
        _op_locals(r[2], out)
    elif k == "bin":
        _op_locals(r[2], out)
        _op_locals(r[3], out)
    elif k == "un":
        _op_locals(r[2], out)


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    if k == "yield":
        return [t[2]]
    return []


def liveness(fn):
    if fn._live is not None:
        return fn._live, fn._taken
    n = len(fn.blocks)
    taken = set()
    use = [set() for _ in range(n)]
    deff = [set() for _ in range(n)]
    for i, b in enumerate(fn.blocks):
        u, d = use[i], deff[i]
        for s in b["s"]:
            if s[0] == "=":
                o = set()
                _rv_locals(s[2], o, taken)
                if s[1][1]:
                    _place_use(s[1], o)
                u |= o - d
                if not s[1][1]:
                    d.add(s[1][0])
            elif s[0] == "sd":
                if s[1][0] not in d:
                    u.add(s[1][0])
        t = b["t"]
        o = set()
        if t[0] == "switch":
            _op_locals(t[1], o)
        elif t[0] == "call":
            _op_locals(t[1], o)
            for a in t[2]:
                _op_locals(a, o)
            if t[3][1]:
                _place_use(t[3], o)
        elif t[0] == "drop":
            _place_use(t[1], o)
        elif t[0] == "assert":
            _op_locals(t[1], o)
        elif t[0] == "ret":
            o.add(0)
        elif t[0] == "yield":
            _op_locals(t[1], o)
        u |= o - d
        if t[0] == "call" and not t[3][1]:
            d.add(t[3][0])
    live = [set(use[i]) for i in range(n)]
    preds = [[] for _ in range(n)]
    for i, b in enumerate(fn.blocks):
        for s in successors(b["t"]):
            preds[s].append(i)
    work = list(range(n))
    while work:
        i = work.pop()
        out = set()
        for s in successors(fn.blocks[i]["t"]):
            out |= live[s]
        new = use[i] | (out - deff[i])
        if new != live[i]:
            live[i] = new
            work.extend(preds[i])
    fn._live = live
    fn._taken = taken
    return live, taken
