#!/usr/bin/env python3
"""Writes MANIFEST.json (development tool; the result is committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
TECH = {
    "C01": "TLA+ definition of the statistics (Laws model checked); trace validation of executions with TLC",
    "C02": "TLC models of the AVL and mergesort algorithms; order types enumerated by TLC replayed into every algorithm",
    "C03": "TLA+ coherence clauses evaluated by TLC on recorded executions; Laws model",
    "C04": "TLA+ invariance clauses evaluated by TLC on recorded pairs of executions",
    "C05": "TLA+ permutation test recomputed by TLC from the recorded draws; PermTest model",
    "C06": "TLA+ model of the parallel resampling; completion schedules enumerated by TLC forced on the real code",
    "C07": "TLA+ definition of the energy distance; trace validation with TLC",
    "C08": "TLA+ definition of the k-sample statistic; trace validation with TLC",
    "C09": "TLA+ definition of the partial measures; trace validation with TLC",
    "C10": "TLA+ model of buffers; operation histories generated by TLC replayed and validated",
    "C11": "TLA+ dispatch relation; requests enumerated by TLC replayed; trace validation",
    "C12": "TLA+ session model; call histories generated by TLC replayed and validated",
    "C13": "TLA+ definition of the statistics; trace validation over representations",
    "C14": "TLA+ dispatch relation enumerated by TLC; every request replayed and validated",
    "C15": "TLA+ definition of the distances; trace validation with TLC",
    "C16": "TLA+ definition through exact Mahalanobis distances; trace validation with TLC",
    "C17": "TLA+ definition of the t statistic and Student CDF; trace validation with TLC",
    "C18": "TLA+ definition of the test statistics; trace validation with TLC",
    "C19": "TLC models of the fast algorithms with a bound of their steps; trace validation of the resources measured",
}
NOTE = ("TLC evaluates the TLA+ specification in exact/outward rounded arithmetic on every recorded execution of the real "
        "code, built from /repo at check time; models of the design are explored exhaustively within the stated bounds. "
        "Inputs are sampled (or enumerated where a generator exists), so executions outside them are not covered.")
ids = sys.argv[1:] or sorted(TECH)
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 run.py --property %s --tier quick" % i,
                 "thorough_cmd": "python3 run.py --property %s --tier thorough" % i,
                 "technique": TECH[i], "level": "model_checking", "level_note": NOTE} for i in ids],
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in sorted(TECH) if i not in ids]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
