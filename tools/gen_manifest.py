#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if CHECKS.get(i):
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique="symbolic execution of the headers' LLVM IR, decided by Z3 (bounded)", level="model_checking",
                           level_note="Holds for every input within the bounds listed in the evidence (symbolic bytes, all paths); outside the bounds nothing is claimed. Trusted: clang's IR, the executor and its libc/exception models (compared with g++ runs on sampled paths each run), the reference model in harness/."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="Counterexamples are replayed natively (ASan/UBSan, valgrind) before they are reported; replay one with: python3 run.py --replay FILE")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
