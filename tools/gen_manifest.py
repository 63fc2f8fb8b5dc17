#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed properties"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "TLC judges recorded round trips against the TLA+ heap model (HValues); graphs generated by model checking HickleDump"
TRUST = "Trusts TLC, the projection of Python objects onto heaps (hv/capture.py) and h5py/HDF5. "
NOTE = {}
CLAIMS = {
    "P01": (RT, "Dump specification checked exhaustively within bounds; every scalar of the boundary pool in every context plus random ones executed and judged by TLC. Values are sampled, not exhausted."),
    "P02": (RT, "Dump specification checked exhaustively for all graphs of 3-4 nodes; those graphs and random larger ones are executed by the real code and judged by TLC."),
    "P03": (RT, "All pairs of key kinds in the specification, ordered pairs of a pool of adversarial keys and random dicts executed and judged by TLC."),
    "P04": (RT, "All object graphs with sharing up to 4 (thorough 5) nodes from the specification and random graphs up to 20 nodes; identity is judged by TLC as a bijection between original and loaded nodes."),
    "P05": (RT, "Every combination of dtype, shape and layout of the pools, random arrays, at positions given by graphs of the specification."),
    "P06": (RT, "Random and hand made csr, csc and bsr matrices at positions given by graphs of the specification."),
    "P07": (RT, "Random astropy objects of all supported classes at positions given by graphs of the specification."),
    "P08": (RT, "Objects of 30 kinds without loader at positions given by graphs of the specification; objects that can not be stored must make dump raise."),
    "P09": (RT, "Cases of P01-P08 dumped with 14 combinations of lossless options; TLC judges the result against the result without options, strictly."),
}
try:
    from manifest_more import MORE
    CLAIMS.update(MORE)
except ImportError:
    pass


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in CLAIMS:
            tech, note = CLAIMS[pid]
            checks.append(dict(property=pid, quick_cmd="bin/check %s --tier quick" % pid, thorough_cmd="bin/check %s --tier thorough" % pid,
                               evidence_file="evidence/%s.json" % pid, technique=tech, level="model_checking", level_note=note + " " + TRUST.strip()))
        else:
            na.append(dict(property=pid, reason="machinery not built yet"))
    doc = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the harness observes the public API and the files, faults are injected by interposing h5py calls from the harness.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
