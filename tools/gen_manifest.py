"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json
CLAIM = ["C%02d" % i for i in range(1, 23)]
NA = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTE = {
 "C07": "unbounded in node counts, elements, length, widths, batch, weights and points; the number of dimensions is enumerated",
 "C11": "layers: unbounded; networks: depth, switch factors and options are enumerated",
 "C12": "layers: unbounded; networks: depth, switch factors and options are enumerated",
 "C13": "layers: unbounded; networks: depth enumerated",
 "C14": "layers: unbounded; networks: depth enumerated",
 "C15": "unbounded in sizes, values and eps; tensor ranks 1 to 4 are enumerated",
 "C16": "one step from an arbitrary state (induction over histories), unbounded sizes; number of parameters and groups enumerated",
 "C17": "unbounded in rotations and input values; the number of inputs is enumerated (the code builds Python lists over itertools pairs)",
 "C19": "unbounded in widths, orders, segments, batch, weights, inputs; depth, layer types and options are enumerated",
 "C20": "unbounded in sizes, strides, paddings; the number of stages is enumerated",
}
DEF = "every obligation generated from the current source by symbolic execution of the real functions on unbounded symbolic sizes and values, over mathematical reals; assumed contracts on torch/numpy/einops operations; runtime oracle only replays countermodels and cross-checks the library model"
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CLAIM:
        m["checks"].append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} --thorough",
            technique="contract-based deductive verification: contracts on the real Python functions, extracted from /repo on every run, obligations discharged by a custom VC prover with z3",
            level="proof", level_note=(NOTE[i] + "; " if i in NOTE else "") + DEF))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
