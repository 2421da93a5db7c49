"""Writes MANIFEST.json from vlib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.props import PROPS, T

NA = {
    "C29": "The guarantee is about the lifetime transmutes themselves (extend_lifetime!, ManuallyDrop, Box/Sink self references): Verus does not accept the transmutes and has no aliasing model (Tree/Stacked Borrows) in which a violation could be stated; interpreting executions with Miri would be another family (one genuine defect found by reading was repaired).",
    "C30": "Native stack use is not a notion of any contract Verus can state: its exec semantics has no stack resource, and the depth of nested drop glue is not visible to it.",
}
LATER = "No check of this property is registered yet; its contracts are under construction (see DESIGN.md)."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    hooks=dict(guard="none: /repo carries no hooks; contracts are woven into extracted copies of its source on every run", enable="nothing to enable", source_commits=[]),
    checks=[], not_applicable=[],
    notes="./check <property> [quick|thorough]; see DESIGN.md. Verus contracts decide; the bounded harness beside each proof looks for failing inputs and is never counted as proof.")
for p in props:
    i = p["id"]
    if i in PROPS:
        info = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                                technique=info.get("technique", T), level=info["level"], level_note=info["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, LATER)))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
