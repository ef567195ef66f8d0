#!/usr/bin/env python3
"""Writes MANIFEST.json from harnesses.py and properties.jsonl."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
from harnesses import NOT_APPLICABLE, PROPS  # noqa: E402

props = [json.loads(x) for x in open(HERE + "/properties.jsonl")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
hooks = [x.split()[0] for x in log.splitlines() if x.split(" ", 1)[1].startswith("hook:")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": "symbolic execution of the compiled Rust (LLVM IR) with z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": s.get("note", "Bounded: every input within the bounds listed per harness in the evidence file; "
                                        "nothing is claimed outside them.") +
            " Trusts rustc's IR at opt-level 2, the executor in engine/ (its sampled paths are re-run natively) and z3.",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "cfg(rezip_verif), cfg(rezip_verif_tree)",
        "enable": "RUSTFLAGS='--cfg rezip_verif' (check.py sets it for the harness build)",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "check.py builds the harness crate and /repo to LLVM IR and runs the symbolic executor in engine/ on it.",
}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

with open(HERE + "/BOUNDS.md", "w") as f:
    f.write("# Bounds per property\n\nWritten by gen_manifest.py from harnesses.py. Inside each bound every value is decided; "
            "nothing is claimed outside them.\n")
    for p in props:
        f.write(f"\n## {p['id']} {p['title']}\n\n")
        for h in PROPS.get(p["id"], {}).get("harnesses", []):
            t = " *(thorough only)*" if h.get("tier") == "thorough" else ""
            f.write(f"- `{h['fn']}`{t}: {h['bounds']}\n")
