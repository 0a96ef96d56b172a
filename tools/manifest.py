#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (run after changing the set of checks)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C30": "The lock is flock(2) in another process's address space plus sleeping and wall-clock timeouts: its outcome is decided in the "
           "kernel, of which there is no code in /repo to encode; replacing it by a model would decide the model.",
    "C31": "The sensor runs inside the notify crate's inotify thread and talks through crossbeam channels; events, threads and their order "
           "come from kernel and runtime code outside /repo, and the module is private and not reachable by a user.",
}
checks = []
for p in sorted(PROPS):
    d = PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 tools/check.py {p} --tier quick",
        "thorough_cmd": f"python3 tools/check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "symbolic execution of the compiled LLVM IR, assertions decided by SMT (z3, cvc5)",
        "level": d.get("level", "model_checking"),
        "level_note": "Every value within the bounds: " + d["bounds"] + " Outside: " + d["outside"] +
                      " Trusted: rustc's lowering to IR, the engine (sampled paths and every violation are replayed natively), the SMT solvers.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "--cfg brec_verif", "enable": "RUSTFLAGS='--cfg brec_verif' (set by tools/check.py for its own builds)",
              "source_commits": ["76fbdf16d064aef2c566c021066b76cd6d199d11"]},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k not in PROPS],
    "notes": "The technique is one engine (engine/) over harnesses (harness/) for all properties; see DESIGN.md. known_findings.json lists what is known to fail.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
