"""Writes DESIGN.md: the head, one section per property, the planted bugs, false alarms and findings."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(p):
    with open(os.path.join(HERE, p), encoding="utf-8") as fh:
        return fh.read()


def strings(p):
    out = {}
    for n in ast.parse(read(p)).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "EXPLANATION", "LEVEL_NOTE"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    props = [json.loads(x) for x in read("properties.jsonl").splitlines()]
    na = json.loads(read("tools/not_applicable.json"))
    notes = json.loads(read("tools/design_notes.json"))
    bugs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        with open(f, encoding="utf-8") as fh:
            m = json.load(fh)
        bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
    out = [read("tools/design_head.md"), "## The properties\n"]
    for p in props:
        i = p["id"]
        out.append(f"### {i} {p['title']}\n")
        if i in na:
            out.append(f"Not applicable: {na[i]}\n")
            continue
        s = strings(f"checks/{i}.py")
        out.append(f"*Specified and analysed.* {s['EXPLANATION']}\n")
        n = notes.get(i, {})
        if "oracle" in n:
            out.append(f"*Oracle.* {n['oracle']}\n")
        out.append(f"*Bounds.* {s['LEVEL_NOTE']}\n")
        out.append(f"*Beyond tests.* {p['why_tests_cant']}\n")
        if "false" in n:
            out.append(f"*False alarms handled.* {n['false']}\n")
        got = ", ".join(b for b, _ in bugs.get(i, []))
        if got:
            out.append(f"*Planted bugs.* {got}" + (f" (missed: {n['missed']})" if "missed" in n else " — caught") + ".\n")
    out.append("## Planted bugs\n")
    out.append("Each was written from the statement of its property, compiles, passes the stable tests and shows only under the condition named. Each is run against the check of its property.\n")
    for i in sorted(bugs):
        for b, m in bugs[i]:
            out.append(f"- **{b}** ({i}). Needs {m['needs'].rstrip('.')}. {m['what_it_breaks']}")
    out.append("\nBesides these, some 20 small edits per property (wrong branch, swapped operand, lost case, extra exemption) and 5–10 behaviour-preserving rewrites were tried by hand while each check was written; checks were strengthened until the former were reported and the latter quiet.\n")
    out.append("## Findings\n")
    out.append("Defects found by the checks in the tree as it was; those marked fixed are repaired by `fix:` commits in the repository, the others are listed in `known-findings.txt` and reported as known.\n")
    for line in read("known-findings.txt").splitlines():
        if line.startswith("fixed: "):
            _, pid, commit, what = line.split(" ", 3)
            out.append(f"- {pid.split('=')[1]}: {what} (fixed, {commit})")
        elif line.startswith("known: "):
            d = dict(x.split("=", 1) for x in (y.strip() for y in line[7:].split(" | ")))
            out.append(f"- {d['property']}: {d['what']} (known)")
    out.append("\n" + read("tools/design_tail.md"))
    with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as fh:
        fh.write("\n".join(out))


main()
