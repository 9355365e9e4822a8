#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "symbolic execution of the crate's compiled LLVM IR with an SMT solver (z3), bounded; counterexamples replayed natively/Miri"
BASE = "Decided by the solver for all values of the symbolic inputs within the bounds stated per harness (operations, entities, component types); nothing is claimed beyond them. Assumes a deterministic heap layout, no allocation failure (except C32), x86-64, component ids other than 0xFFFF; aliasing (Stacked Borrows) rules are not modelled."
m = {
    "version": 1, "setup_cmd": "./check --setup",
    "hooks": {"guard": "--cfg shard_verif", "enable": "RUSTFLAGS='--cfg shard_verif' (set by ./check)", "source_commits": ["3f1b23d", "f6fd2f8"]},
    "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"], "technique": TECH,
                "level": "model_checking", "level_note": (NOTES.get(p["id"], "") + " " + BASE).strip()} for p in props if p["id"] in CHECKS],
    "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check under construction")} for p in props if p["id"] not in CHECKS],
}
import subprocess
try:
    m["hooks"]["source_commits"] = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Verification hooks"], stdout=subprocess.PIPE, text=True).stdout.split() or m["hooks"]["source_commits"]
except OSError:
    pass
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
