"""Rewrites MANIFEST.json from properties.jsonl and the modules in checks/."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path, encoding="utf-8").read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") if x.strip()]
    na = json.load(open(os.path.join(HERE, "tools", "not_applicable.json"), encoding="utf-8"))
    checks, missing = [], []
    for p in props:
        pid = p["id"]
        path = os.path.join(HERE, "checks", pid + ".py")
        if pid in na:
            missing.append({"property": pid, "reason": na[pid]})
        elif os.path.exists(path):
            c = consts(path)
            checks.append({
                "property": pid,
                "quick_cmd": f"python3 analysis/run.py {pid}",
                "thorough_cmd": f"python3 analysis/run.py {pid}",
                "evidence_file": f"evidence/{pid}.json",
                "technique": c.get("TECHNIQUE", "path-sensitive dataflow over MIR"),
                "level": c.get("LEVEL", "other"),
                "level_note": c.get("LEVEL_NOTE", ""),
            })
        else:
            missing.append({"property": pid, "reason": "no static check has been built for it"})
    m = {
        "version": 1,
        "setup_cmd": "python3 analysis/facts.py native napi",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Every check reads the MIR, types and constants of /repo's current sources, extracted by the compiler "
                 "driver in driver/ (nightly rustc, no code of /repo is run). Facts are cached by a hash of the sources; "
                 "a check extracts them itself when they are missing or stale. Known findings: known-findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(m, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    print(len(checks), "checks,", len(missing), "not applicable")


main()
