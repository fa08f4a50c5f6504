"""Writes MANIFEST.json: claimed = properties that have scenarios or passes; the rest is not applicable, with reasons."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE); os.chdir(HERE)
import check
NA = {
 "P40": "Convergence of an iterative optimiser is a statement about runtime numeric values (basins of attraction, conditioning); no sound static argument over the source bounds it. The structure of the loop is decided under P17/P18.",
 "P41": "A floating-point round-trip error bound depends on the conditioning of runtime intrinsics and poses; the algebraic structure of projection and unprojection is decided under P24.",
 "P42": "Accuracy of estimated trajectories on recorded data is an empirical, numeric quantity; nothing in the source determines it. The wiring of tracking and mapping is decided under P19-P21.",
 "P43": "Optimality of the nearest-neighbour search is a property of a compiled third-party library outside this repository; what this repository does with its indices and distances is decided under P18.",
}
TECH = "static analysis: abstract interpretation of the current source with value-graph normal forms (global value numbering) compared with the required graph"
EXTRA = {
 "P15": TECH + "; gradient taint over the value graph", "P16": TECH + "; divisor guard obligations on every reached division",
 "P28": TECH + "; directory listings are modelled in arbitrary order, so an order that is not established by sorting shows in the value graph", "P33": "static analysis: abstract interpretation of the loaders; events at code-executing primitives (eval, exec, unsafe yaml loaders, module execution) reached with the text of the caller",
 "P34": TECH + "; write effects on caller-owned storage", "P35": TECH + "; device and dtype of created tensors", "P39": TECH + "; null-safety events", "P38": TECH + "; heap state at every raise point"}
NOTE = "Decides the property for every tensor content and every path of the analysed entry points, for batches and images of the fixed small shapes used by the driver scenarios; assumes the documented semantics of the torch/numpy/kornia operations it models, exact (not floating-point) arithmetic where expressions are rearranged, and leaves obligations it cannot normalise undecided (counted in the evidence, never reported as violations)."
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if check.scenarios(i) or check.passes(i):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i, technique=EXTRA.get(i, TECH), level="other", level_note=NOTE))
    else: na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na, notes="See DESIGN.md."), open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
