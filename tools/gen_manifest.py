#!/usr/bin/env python3
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
NOT = {}
SYMX = "symbolic execution of the crate's own generic code with symbolic scalars; SMT (z3, cvc5) decides each obligation"
KANI = "bounded model checking of the compiled crate with Kani/CBMC: symbolic indices, lengths, integers and float bits; the SAT/SMT back end decides every assertion and memory-safety check"
NOTE = ("Every obligation is decided by SMT solvers for all values of the symbolic scalars (exact reals for "
        "float code) at the listed dimensions; counterexamples count only when they reproduce natively on f64. "
        "Trusts rustc, the engine in symx/core and the solvers; rounding is outside the claim.")
KNOTE = ("Every assertion and memory-safety check is decided by CBMC for all values of the symbolic inputs at the listed "
         "dimensions, loops unrolled past the dimension with unwinding assertions; counterexamples count only when "
         "they reproduce natively or under Miri. Trusts Kani, CBMC and their model of the standard library.")
BOTH = ("Generic code by symbolic execution over exact reals and SMT, fixed-width integers and IEEE bits by "
        "Kani/CBMC, at the listed dimensions; counterexamples count only when they reproduce natively. Trusts rustc, "
        "the engine in symx/core, Kani and the solvers; float rounding is outside the claim.")
TECH = {"C01": (KANI, KNOTE), "C04": (KANI, KNOTE)}
for i in ("C05", "C07", "C09", "C29"):
    TECH[i] = (SYMX + "; " + KANI, BOTH)
checks = [dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i,
               thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
               technique=TECH.get(i, (SYMX, NOTE))[0],
               level="model_checking", level_note=TECH.get(i, (SYMX, NOTE))[1]) for i in ids if i not in NOT]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT.items()]),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
