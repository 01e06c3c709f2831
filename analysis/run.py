"""Runs the check of one property: python3 analysis/run.py <id>.

Exit 0: the property holds on everything analysed. Exit 1 with a VIOLATION line: it does not.
Exit 2: the check could not decide.
"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
sys.setrecursionlimit(20000)

import facts  # noqa: E402
from facts import ToolError, VERIF  # noqa: E402


class Context:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        self.violations = {}
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.assumptions = []
        self.functions = set()
        self.explanation = ""
        self._programs = {}

    def program(self, profile="native", crates=None):
        import program
        key = (profile, tuple(crates) if crates else None)
        if key not in self._programs:
            self._programs[key] = program.Program(profile, crates)
        return self._programs[key]

    def violation(self, key, where, message):
        """key names the construct without line numbers."""
        if key not in self.violations:
            self.violations[key] = {"key": key, "where": where, "message": message}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def obligation(self, ok, key, where, message):
        """One thing that must hold; counted, and reported when it does not."""
        self.count("obligations")
        if ok:
            self.count("discharged")
        else:
            self.violation(key, where, message)
        return ok

    def undecide(self, what, reason):
        x = {"what": what, "reason": str(reason)[:400]}
        if x not in self.undecided:
            self.undecided.append(x)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def analysed(self, *fids):
        for f in fids:
            self.functions.add(f)

    def parallel(self, items, func):
        """func(ctx, item) for every item, in worker processes; what they find is merged in order."""
        import multiprocessing
        items = list(items)
        global _JOB
        _JOB = (self.pid, items, func)
        out = []
        n = min(int(os.environ.get("VERIF_JOBS", "8")), len(items)) or 1
        mp = multiprocessing.get_context("fork")
        with mp.Pool(n) as pool:
            results = pool.map(_work, range(len(items)), chunksize=max(1, len(items) // (n * 6)))
        errors = []
        for r in results:
            if r["error"]:
                errors.append(r["error"])
            for v in r["violations"].values():
                self.violation(v["key"], v["where"], v["message"])
            for k, c in r["counts"].items():
                self.count(k, c)
            self.undecided += r["undecided"]
            self.functions |= r["functions"]
            for x in r["samples"]:
                self.sample(x)
            out.append(r["value"])
        if errors:
            raise ToolError("; ".join(errors[:3]))
        return out

    def floor(self, name, n):
        """Fails closed when far fewer constructs were found than there are."""
        got = self.counts.get(name, 0)
        if got < n:
            raise ToolError(f"only {got} {name} analysed, at least {n} were expected: the check has lost its subject")


_JOB = None


def _work(i):
    pid, items, func = _JOB
    ctx = Context(pid)
    error = value = None
    try:
        value = func(ctx, items[i])
    except ToolError as e:
        error = str(e)
    except Exception:
        error = traceback.format_exc()
    return {"violations": ctx.violations, "counts": ctx.counts, "undecided": ctx.undecided, "functions": ctx.functions,
            "samples": ctx.samples, "value": value, "error": error}


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return out
    with open(path, encoding="utf-8") as fh:
        for line in fh:
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            if line.startswith("known:"):
                fields = dict(x.split("=", 1) for x in line[6:].strip().split(" | ") if "=" in x)
                if fields.get("property") == pid:
                    out[fields["key"]] = fields.get("what", "")
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    ctx = Context(pid)
    mod = importlib.import_module(pid)
    status = 0
    error = None
    try:
        mod.check(ctx)
    except ToolError as e:
        error = str(e)
    except RecursionError as e:
        error = f"recursion limit: {e}"
    except Exception:
        error = traceback.format_exc()
    known = known_findings(pid)
    new = []
    for k, v in ctx.violations.items():
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]} [{v['where']}]")
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "explanation": ctx.explanation or getattr(mod, "EXPLANATION", ""),
        "functions_analysed": len(ctx.functions),
        **ctx.counts,
        "undecided": ctx.undecided[:60],
        "undecided_count": len(ctx.undecided),
        "samples": ctx.samples,
        "known_findings_seen": [k for k in ctx.violations if k in known],
        "violations": new[:40],
    }
    ev = {
        "property": pid,
        "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick",
        "seed": ctx.seed,
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": cov,
        "assumptions": ctx.assumptions + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)
    if new:
        rep = os.path.join(VERIF, "evidence", f"{pid}.replay.json")
        with open(rep, "w", encoding="utf-8") as fh:
            json.dump({"property": pid, "violations": new}, fh, indent=1, ensure_ascii=False)
        for v in new[:12]:
            print(f"{v['where']}: {v['message']}  [{v['key']}]")
        print(f"VIOLATION property={pid} replay={rep}")
        status = 1
    elif error:
        print(f"ERROR property={pid}: {error}", file=sys.stderr)
        status = 2
    else:
        done = ctx.counts.get("discharged")
        print(f"OK property={pid} obligations={ctx.counts.get('obligations', 0)} discharged={done} "
              f"undecided={len(ctx.undecided)} wall={ev['wall_s']}s")
    if error and new:
        print(f"NOTE property={pid}: {error}", file=sys.stderr)
    sys.exit(status)


if __name__ == "__main__":
    main()
