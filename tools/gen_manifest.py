#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed list below (run by hand after adding a check)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked SSA into a polynomial/interval/provenance domain, compared with specification polynomials and the recorded constraint set"
FLOW = "path-sensitive dataflow and typestate analysis over the type-checked SSA: every path of every operation with symbolic inputs and symbolic step outcomes, values tracked by provenance"
CLAIMED = {
 "C01": (AI, "all layouts in a declared grid of shapes; contents fully symbolic"),
 "C02": (AI, "every supported limb configuration; contents fully symbolic"),
 "C03": (AI, "table sizes in a declared grid; selectors and entries symbolic"),
 "C04": (AI, "array sizes in a declared grid; contents symbolic, verdict soundness by interval propagation"),
 "C05": (AI, "shapes in a declared grid; contents symbolic"),
 "C06": (AI, "proof shapes (depth, node kinds, fragment lengths, key patterns) in a declared grid; node contents, values, roots symbolic; list checker and Keccak uninterpreted, keyed by their exact inputs"),
 "C07": (AI, "maximal depths 2-10; all inputs symbolic; inclusion gadget, list checkers and Keccak uninterpreted, keyed by every argument; slot values of every encodable length"),
 "C08": (AI, "rounds in a declared grid, contents symbolic, permutation uninterpreted; the permutation itself is compared with the Keccak-f[1600] definition in a GF(2) domain"),
 "C09": (AI, "message lengths in a declared grid (bit, nibble and byte level), contents symbolic; includes aliasing of caller slices"),
 "C10": (AI, "message lengths and piecewise writes in a declared grid, contents symbolic; compared with the FIPS 180-4 definition evaluated in the same domain"),
 "C11": (AI, "message lengths and piecewise writes in a declared grid, contents symbolic; compared with the FIPS 180-4 definition evaluated in the same domain"),
 "C14": ("abstract interpretation of the type-checked SSA over rational functions on symbolic field coordinates; linear-span elimination modulo the cyclotomic relations; exponent domain with a typestate for cyclotomic and compressed elements", "all coordinates symbolic; gnark's emulated field operations trusted"),
 "C15": ("abstract interpretation of the type-checked SSA in ring, group-ring, line-monoid and exponent-class domains; pointer-capture analysis of operands held by deferred multiplication checks; constants compared with an independent derivation", "all coordinates symbolic; gnark's emulated field operations and SHA-256 (C10) trusted; affine exceptional cases (equal abscissas) are refusals"),
 "C12": ("abstract interpretation of the type-checked SSA with SHA-512 uninterpreted and points in the module generated by R, A and the base point; the recorded constraint set is compared with the required bindings", "all points, scalars, keys and messages symbolic; group law by C13, SHA-512 by C11, gnark's emulated fields trusted; S is not required to be below the group order"),
 "C13": ("abstract interpretation of the type-checked SSA over rational functions modulo the curve equation, and in the free module on the base points for scalar multiples; parameters compared with an independent derivation", "all points and scalars symbolic; two native fields (254 and 253 bits)"),
 "C16": (AI, "tree depths in a declared grid; leaves, paths and position bits symbolic, hash uninterpreted"),
 "C17": (AI, "round constants compared with an independent derivation, hash equations symbolic over the emulated modulus"),
 "C18": (AI, "exhaustive partition of 0..65535 by leading bit, lower bits symbolic, three fields"),
 "C19": (AI, "shapes in a declared grid; contents symbolic"),
 "C20": ("interprocedural effect and alias analysis over the type-checked SSA: may-write sets, escape origins and nondeterminism sources of every function reachable from a gadget entry point", "all circuit-building functions, every calling order; functions outside the repository by model"),
 "C21": ("enumeration of every unconstrained-value introducer in the type-checked SSA; abstract interpretation of the containing functions with monitors on hint outputs and bits; induction over the functions that build bit-words; type rule on conversions to a circuit variable", "split shapes and array lengths in a declared grid; all values symbolic; what gnark's own gadgets introduce is trusted"),
 "H01": (FLOW, "every exported host operation and every failing step; loops followed for up to three undetermined iterations, loops without tracked steps summarised"),
 "H02": (FLOW, "every operation that opens a file or network body; loops as in H01"),
 "H04": (FLOW, "every block, item list and index (symbolic) through every path of the two proof constructors, ProofWriter and the receipt encoder; loops for up to three undetermined iterations"),
 "H05": (FLOW, "every transaction type and signature (symbolic), compared with the payload each type's signature covers as linear forms and RLP item lists"),
 "H06": (FLOW + "; bit helpers by abstract interpretation on symbolic bits", "all field values, up to two logs followed exactly and up to two packed words; bit and packing helpers symbolic at a grid of widths"),
 "H08": (FLOW + "; key components enumerated from the key's type, padding by abstract interpretation", "all keys; loops of undetermined length for up to two iterations; five components are known findings"),
 "H07": (FLOW, "all values; every exporter, every word traced to the field it comes from"),
 "H09": (FLOW, "every method, data and target list (loops for up to three undetermined iterations); padding evaluated abstractly on symbolic bytes for every length up to width+2"),
 "H10": (FLOW, "every outcome of every SDK call, keys and buckets symbolic"),
 "H11": (FLOW, "every exported helper of the package that touches a key, witness, circuit or proof file; every failing step; object serialisation trusted to its own methods"),
 "H12": (AI, "byte lengths, list sizes and block boundaries in a declared grid; contents symbolic; native MiMC, Poseidon, RLP and Keccak uninterpreted"),
 "H13": (FLOW, "every path of the named helpers with symbolic arguments; list loops up to three rounds; strconv, time and hex encoders trusted"),
 "H03": (FLOW, "every response and transport failure (responses symbolic) of GetSlot, GetBlock and GetProof; loops as in H01"),
}
exec(open(os.path.join(root, "tools", "claims.py")).read()) if os.path.exists(os.path.join(root, "tools", "claims.py")) else None
NA = globals().get("NA", {})
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough", "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet (work in progress); nothing is claimed")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
 "notes": "Static analysis only: nothing in /repo is executed and no solver is used. No hooks in /repo are needed."}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "na")
