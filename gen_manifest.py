"""Writes MANIFEST.json from the registry in tav/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tav"))
import props

VGN = "abstract interpretation to value graphs (symbolic global value numbering) "
TECH = {
    "C01": VGN + "and self-composition over the history length",
    "C02": "ownership and effect analysis by abstract interpretation",
    "C03": "effect analysis and value-graph comparison over read orders and object pairs",
    "C04": VGN + "compared with reference definitions on gap rows",
    "C05": "label-dependence (taint) analysis by abstract interpretation",
    "C06": VGN + "of function and class compared",
    "C07": VGN + "of feature columns compared with the indicators",
    "C08": "abstract interpretation of column sets with a symbolic prefix",
    "C09": "call-graph reachability of row loops and per-row callbacks",
    "C10": "unit (dimension) inference over value graphs",
    "C11": "offset (translation degree) inference over value graphs",
    "C12": VGN + "with linear-inequality range analysis",
    "C13": VGN + "with dependence analysis of inputs and parameters",
    "C14": VGN + "with definedness analysis of rows",
    "C15": VGN + "with comparison of degenerate branches",
    "C16": "obligation analysis of raising operations by abstract interpretation",
    "C17": VGN + "compared with reference formulas",
    "C18": VGN + "compared with reference formulas",
    "C19": VGN + "compared with reference formulas",
    "C20": VGN + "compared with reference formulas",
    "C21": VGN + "compared with reference formulas",
    "C22": VGN + "of the recursive state machine compared with the reference",
    "C23": "abstract interpretation of the row-selection condition",
    "C25": "loop-nesting analysis by abstract interpretation",
}
NOTE = ("decided from the source for every history length, row and parameter value; a construct the analysis cannot follow is listed "
        "as undecided in the evidence, never as an alarm")
NA = {"C24": "the error depends on the magnitudes met at run time; a sound static bound for the running sums inside pandas' compiled "
             "code would have to hold for unbounded histories and does not exist (cancellation is unbounded)"}


def main():
    checks = []
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    for i in ids:
        if i in NA:
            continue
        checks.append({
            "property": i, "quick_cmd": "python3-vt tav/check.py %s" % i,
            "thorough_cmd": "python3-vt tav/check.py %s --thorough" % i,
            "technique": TECH[i], "level": props.PROPS[i].level, "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import ast'", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
