"""The analysed program: function bodies, types, impls and constants of every crate of /repo."""
import json
import os

import facts


class Fn:
    __slots__ = ("id", "kind", "file", "line", "crate", "raw", "argc", "locals", "blocks", "params", "pub", "self_ty",
                 "itrait", "tmethod", "deftrait", "names", "unsafe", "_live", "_taken")

    def __init__(self, r, crate):
        self.id = r["id"]
        self.kind = r["kind"]
        self.file = r["file"]
        self.line = r["line"]
        self.crate = crate
        self.argc = r["argc"]
        self.locals = r["locals"]
        self.blocks = r["blocks"]
        self.params = r.get("params", [])
        self.pub = r.get("pub", False)
        self.self_ty = r.get("self")
        self.itrait = r.get("itrait")
        self.tmethod = r.get("tmethod")
        self.deftrait = r.get("deftrait")
        self.unsafe = r.get("unsafe", False)
        self.names = r["names"]
        self._live = None
        self._taken = None

    def __repr__(self):
        return f"Fn({self.id})"

    def where(self, line=None):
        return f"{rel(self.file)}:{line or self.line}"

    def calls(self):
        """(block index, terminator) of every call that is not on an unwind path."""
        for i, b in enumerate(self.blocks):
            if not b["c"] and b["t"][0] == "call":
                yield i, b["t"]

    def local_name(self, local):
        for n, p in self.names:
            if p[0] == local and not p[1]:
                return n
        return None


def rel(f):
    if f.startswith(facts.REPO + "/"):
        return f[len(facts.REPO) + 1:]
    return f


class Program:
    def __init__(self, profile="native", crates=None):
        self.profile = profile
        d = facts.ensure(profile)
        self.fns = {}
        self.proms = {}
        self.adts = {}
        self.types = {}
        self.consts = {}
        self.const_fns = {}
        self.impls = []
        self.traits = {}
        self.externs = {}
        for f in sorted(os.listdir(d)):
            if not f.endswith(".jsonl"):
                continue
            crate = f[:-6]
            if crates is not None and crate not in crates:
                continue
            self._load(os.path.join(d, f), crate)
        self.impl_index = {}
        for im in self.impls:
            if im["trait"]:
                key = (im["trait"], self.types[im["crate"]][im["self"]].get("def") or self.types[im["crate"]][im["self"]]["s"])
                self.impl_index.setdefault(key, []).append(im)
        self._closures = None

    def _load(self, path, crate):
        types = []
        ended = False
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                r = json.loads(line)
                k = r["r"]
                if k == "fn":
                    fn = Fn(r, crate)
                    if r["kind"] == "promoted":
                        self.proms[(fn.id, r["prom"])] = fn
                    elif r["kind"] == "extern":
                        self.externs.setdefault(fn.id, fn)
                    elif r["kind"] == "const":
                        self.const_fns[fn.id] = fn
                    else:
                        self.fns[fn.id] = fn
                elif k == "adt":
                    self.adts.setdefault(r["id"], Adt(r, crate))
                elif k == "ty":
                    types.append(r["t"])
                elif k == "const":
                    self.consts[r["id"]] = r
                elif k == "impl":
                    r["crate"] = crate
                    self.impls.append(r)
                elif k == "trait":
                    self.traits[r["id"]] = r
                elif k == "end":
                    ended = True
        if not ended:
            raise facts.ToolError(f"facts file {path} is incomplete")
        self.types[crate] = types

    # -- types -----------------------------------------------------------------
    def ty(self, crate, i):
        return self.types[crate][i]

    def local_ty(self, fn, local):
        return self.types[fn.crate][fn.locals[local]]

    def tys(self, fn, i):
        return self.types[fn.crate][i]["s"]

    # -- lookup ----------------------------------------------------------------
    def get(self, fid):
        return self.fns.get(fid) or self.externs.get(fid)

    def fn(self, fid):
        f = self.fns.get(fid)
        if f is None:
            raise facts.ToolError(f"function {fid} is not in the analysed program")
        return f

    def find(self, suffix=None, **kw):
        out = []
        for f in self.fns.values():
            if suffix is not None and not f.id.endswith(suffix):
                continue
            if all(getattr(f, k) == v for k, v in kw.items()):
                out.append(f)
        return out

    def impl_method(self, trait, self_def, method):
        """The function implementing `method` of `trait` for the type with path `self_def`."""
        res = []
        for im in self.impl_index.get((trait, self_def), []):
            for n, fid in im["items"]:
                if n == method and fid in self.fns:
                    res.append(self.fns[fid])
        return res[0] if len(res) == 1 else None

    def trait_default(self, trait, method):
        return self.fns.get(f"{trait}::{method}")

    def closures_of(self, fn):
        if self._closures is None:
            self._closures = {}
            for f in self.fns.values():
                if f.kind == "closure":
                    p = f.id.rsplit("::{closure#", 1)[0]
                    self._closures.setdefault(p, []).append(f)
        return self._closures.get(fn.id, [])


class Adt:
    __slots__ = ("id", "kind", "params", "variants", "crate", "by_discr")

    def __init__(self, r, crate):
        self.id = r["id"]
        self.kind = r["kind"]
        self.params = r["params"]
        self.variants = [Variant(i, v) for i, v in enumerate(r["variants"])]
        self.crate = crate
        self.by_discr = {v.discr: v for v in self.variants}

    def variant(self, name):
        for v in self.variants:
            if v.name == name:
                return v
        raise facts.ToolError(f"type {self.id} has no variant {name}")

    def field_index(self, name, vi=0):
        for i, f in enumerate(self.variants[vi].fields):
            if f[0] == name:
                return i
        raise facts.ToolError(f"type {self.id} has no field {name}")


class Variant:
    __slots__ = ("idx", "name", "discr", "fields")

    def __init__(self, i, v):
        self.idx = i
        self.name = v[0]
        self.discr = v[1]
        self.fields = v[2]


def callee(t):
    """The constant of a call terminator naming the function called, or None for an indirect call."""
    f = t[1]
    if f[0] == "k" and "fn" in f[1]:
        return f[1]
    return None


def target_id(c):
    return c.get("res") or c["fn"]
