#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = {
    "C01": "explicit-state enumeration of files (all extents, spellings, every byte-length/torn write) on the real loader vs. file-order model",
    "C05": "explicit-state exploration of valid/invalid call histories on real objects vs. state model",
    "C10": "explicit-state exploration of all pair/region histories (and missing-file fault points) on the real batch code vs. stateless model",
    "C15": "explicit-state exploration of all operation sequences to a depth on real metric objects vs. abstract state model",
    "C16": "stateless model checking of thread interleavings (controlled scheduler, preemption bound) on the real code",
    "C17": "exhaustive bounded enumeration of image geometries on the compiled C extension, with AddressSanitizer as monitor",
    "C26": "exhaustive bounded enumeration of volumes and call histories on the real wrapper and C++ glue (compiled against a recording stand-in library) vs. model",
    "C27": "exhaustive enumeration of all subsets of omitted arguments x alternative values on the real code, equivalence with the call that gives the documented defaults",
    "C28": "exhaustive enumeration of environments (missing packages x notebook x import order) on the freshly imported real code vs. the complete environment",
    "C29": "exhaustive enumeration of calls x ambient settings on the real code with a monitor of the process-wide state",
    "C24": "explicit-state exploration of all widget event sequences to a depth on the real selection code vs. state model",
}
DEFAULT = "exhaustive bounded enumeration (explicit-state) on the real code vs. an independent executable model"


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
            checks.append(dict(
                property=i, quick_cmd="python3 vfw/run.py %s quick" % i,
                thorough_cmd="python3 vfw/run.py %s thorough" % i,
                evidence_file="evidence/%s.json" % i, technique=TECH.get(i, DEFAULT),
                level="model_checking",
                level_note="Every execution of the bounded space stated in the check's RULE (and DESIGN.md) is run on the code of "
                           "/repo's working tree and compared with the model; nothing is sampled. Behaviour outside the bounds, "
                           "NumPy/SciPy/PyTorch/piq/scikit-image themselves and the executable model are trusted."))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    json.dump(dict(version=1, setup_cmd="python3 vfw/setup.py", checks=checks, not_applicable=na,
                   notes="Checks import viqa from /repo/src, compile the C extension into a scratch directory and leave /repo "
                         "untouched. No hooks are needed."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
