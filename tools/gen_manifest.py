#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
TECH = "symbolic execution of the compiled Rust code over SMT terms (z3), path-exhaustive within stated bounds, counterexamples replayed natively"
NOTE = {
 "T": "Every path through the real insertion, bulk-loading and removal code is followed for every tree in the stated family of shapes and every coordinate value, so within the bounds (numbers of objects, parameter sets, operations) the result is exhaustive. Trees beyond the stated sizes, and machine integers that overflow, are outside. Trusted: z3, rustc, the vsym number types.",
 "Q": "Exhaustive over all coordinates, query arguments and tree shapes within the stated bounds (up to three levels); the tree's contents are entered through the crate's own serialised form or built by its operations. Larger trees are outside. Trusted: z3, rustc, the vsym number types.",
 "N": "Exhaustive over all distances an object/box pair may report consistently with the envelope laws, for the stated shapes, plus concrete geometry for small trees. Larger trees are outside. Trusted: z3, rustc, the vsym number types.",
 "A": "Every path through the box operations for all coordinates, over exact integers, exact reals, fixed-width bit-vectors and IEEE floats, in the dimensions stated in the evidence. Wider floating-point formats are covered where the solver decides them in time, as listed. Trusted: z3, rustc, the vsym number types.",
 "P": "Every path through the object and point implementations for all coordinates in the stated number models and dimensions. Trusted: z3, rustc, the vsym number types.",
 "X01": "Exhaustive over all coordinates for the stated tree shapes; the serialised form is checked through serde's data model with one self-describing in-memory format. Trusted: z3, rustc, the vsym number types.",
 "X04": "Exhaustive over all coordinates for the stated tree shapes and histories; the debug output is examined as text, with symbolic numbers printed by identity. Trusted: z3, rustc, the vsym number types.",
 "X02": "The compiler's MIR of the tree-creating functions is executed symbolically with all three size parameters and the dimension as solver variables (64- and 32-bit usize, debug and release). Values whose sums wrap are outside. Trusted: z3, rustc's MIR output, the models of core integer helpers.",
 "X03": "Exhaustive over all query arguments of fixed-width integers (8 to 64 bits) and IEEE floats for every listed way of producing an empty tree. Trusted: z3, rustc, the vsym number types.",
}
checks = []
for i in ids:
    checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
        "technique": "symbolic execution of rustc MIR with z3, parameters symbolic, counterexamples replayed natively" if i == "X02" else TECH,
        "level": "model_checking", "level_note": NOTE.get(i) or NOTE[i[0]]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use the crate's public interface with a symbolic number type. Known and fixed findings: known_findings.txt. Bounds and limits: DESIGN.md and every evidence file."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
