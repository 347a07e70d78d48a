#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json. Run to regenerate."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "run_matrix": "TLA+ specification MatrixStore (laws in TensorLaws, closed model MatrixGen); programs that TLC enumerates and seeded ones run on the real matrix code, TLC validates the traces",
    "run_dim": "TLA+ specification Dims (laws in DimLaws); TLC validates traces of programs over shapes, indices and iterators",
    "run_net": "TLA+ specification Network (layers and models in exact fixed point; laws in LayerLaws, closed model NetGen); programs that TLC enumerates and seeded ones run on the real layers and models, TLC validates the traces",
    "run_train": "TLA+ specification Training (all schedules explored by TLC) and Network; TLC validates traces of real multi-threaded training, plus TSan runs",
    "run_file": "TLA+ specification ModelFile; TLC decides each recorded save, load, truncation and damage of the real code",
    "run_reader": "TLA+ specification Reader; TLC validates traces of the real image reader, data source and validation",
}
NOTE = {
    "run_matrix": "Exhaustive over the enumerated small shapes and operand kinds, sampled (seeded) beyond them; elements are small integers or fixed point. Trusts TLC, the driver's logging, g++ and its sanitizers.",
    "run_dim": "The laws hold for every shape with sides up to 4 (5) in one to four dimensions; the real tuples run enumerated and seeded programs in memory with different leftovers. Trusts TLC, the driver's logging, g++ and its sanitizers.",
    "run_net": "Every recorded result, gradient and parameter is compared exactly with the specification on enumerated corner shapes and seeded random shapes and histories; curves (sigmoid, tanh, softmax, log) within rounding on a grid. Trusts TLC, the driver's logging, g++ and its sanitizers.",
    "run_train": "The specification is explored exhaustively for small thread, batch and data counts; the real code is observed on many real schedules (plain, gated and TSan runs), not on all. Trusts TLC, TSan, the driver's logging.",
    "run_file": "Every byte of each model file is a truncation point and every token a damage point; models are enumerated corner stacks and seeded random ones. Trusts TLC, the driver's tokeniser, g++ and its sanitizers.",
    "run_reader": "Call sequences are TLC-generated and seeded random over enumerated file shapes. Trusts TLC, the driver's logging, g++ and its sanitizers.",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        fam = check.FAMILY.get(p)
        if not fam:
            na.append({"property": p, "reason": "check not built yet"})
            continue
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH[fam], "level": "model_checking", "level_note": NOTE[fam]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo; only fix: commits. Specifications in spec/, drivers in harness/, known findings in known_findings.txt."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
