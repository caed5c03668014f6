#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after a change of the list)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
PBT = "property-based testing: "
MODEL = "generated declarations compiled against /repo, model-guided and damaged inputs; oracle: reference interpreter written from the documentation"
T = {
    "C01": MODEL,
    "C02": MODEL + "; every entry point on the same bytes",
    "C03": MODEL + " with traced SetEndian expressions",
    "C04": MODEL + " over chains of parser attributes",
    "C05": MODEL + " and metamorphic relation: same result for the same bytes at another offset of a larger buffer",
    "C06": MODEL + " over selector enums",
    "C07": "generated fieldless enums, 8-bit and 16-bit values exhaustively, wider ones at the boundaries; oracle: the repr cast and its inverse",
    "C08": MODEL + " and metamorphic relation between an input and its prefixes and extensions",
    "C09": MODEL + " and differential against the same declaration without Complete",
    "C10": "fuzzing with hostile amounts and damaged inputs under overflow checks; oracle: no panic or abort, slices inside of the input, same result when repeated; and the reference interpreter",
    "C11": MODEL + " over conditions",
    "C12": MODEL + " including the trace of the statements",
    "C13": MODEL + " and differential against the declaration without GenericErrors",
    "C14": MODEL + " of the library implementations, and round trip with an independent encoder",
    "C15": "differential: the same generated programs built with and without the alloc feature, and the reference interpreter",
    "C16": "differential: generated programs with and without Debug / DebugDerive, and the reference interpreter",
    "C17": "generated valid declarations, each mutated by one contradiction; oracle: the compiler accepts the original and rejects the mutant",
    "C18": "differential: generated programs and their respelled twins, and the reference interpreter",
    "C19": "differential: generated programs and their renamed twins (names used inside of the crate), and the reference interpreter",
    "C20": "differential: generated generic programs and their monomorphic twins, and the reference interpreter",
}
N = {
    "C07": "8- and 16-bit representations are exhausted per enum; everything else is sampled",
    "C17": "every kind of contradiction of the property at random places of random declarations; accepts any compile error",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + i,
        "technique": PBT + T[i],
        "level": "exploration",
        "level_note": N.get(i, "random search over declarations and inputs from a seed; no exhaustiveness is claimed") + "; bounds of the generated language are in DESIGN.md",
    })
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": []}, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
