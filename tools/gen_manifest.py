#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
ENUM = "bounded exhaustive enumeration of executions of the real code (stateless exploration, deviation-bounded), each compared with an independent reference model"
T = {
 "C15": "bounded exhaustive enumeration of file lists, faults and output directory states of the real command, compared with a model of its output",
 "C16": "exhaustive fault enumeration: every split of the input into reads and a read error at every offset, on the real code",
 "C17": "exhaustive fault enumeration: a write failure after every accepted byte, on the real code",
 "C18": "explicit enumeration of all call sequences up to a depth on the real code, with a state model (which files are expanded) and fresh-process references",
 "C19": "stateless model checking of the real code: preemption-bounded enumeration of thread interleavings under a controlled scheduler (statement granularity), happens-before race detection on each",
 "C12": "bounded exhaustive enumeration of rules and of values: the generated query is evaluated on every assignment (8 bit: all values) and compared with an independent bit-vector semantics",
}
LEVEL = {"C16": "fault_enumeration", "C17": "fault_enumeration"}
NOTE = {
 "C01": "exhaustive within the stated bounds (features, operand orders, file lists, sizes, spellings, the repository's own corpora); trusts the reference renderer and, for the corpora, go/parser",
 "C02": "exhaustive within bounds (token sequences, edits of seed texts, bytes, Go tokens in expressions); oracle: an independent recogniser of the documented grammar",
 "C03": "exhaustive within bounds (layout in every gap of a covering set of files, pairs of gaps, comments, long layout); one recorded finding, K1",
 "C04": "exhaustive within bounds; printed text is compared with the reference printer's reading and parsed again",
 "C05": "exhaustive within bounds; oracle: the reference printer",
 "C06": "exhaustive over Go expressions up to a depth in each position; oracle: independent Go expression model",
 "C07": "exhaustive within bounds; oracle: the reference expansion",
 "C08": "exhaustive within bounds; oracle: the reference expansion's verdict",
 "C09": "exhaustive within bounds; aliasing probed by changing every node of the result",
 "C10": "exhaustive placement of every feature at every node of all small trees",
 "C11": "exhaustive within bounds over trees and over the visitor's decisions",
 "C12": "exhaustive over rules within bounds and, for each, over value assignments (all values at 8 bits, boundary values above); trusts the independent SMT-LIB evaluator in mc/smt (cross-checked with z3 and cvc5 during development)",
 "C13": "exhaustive within bounds; oracle: an independent SMT-LIB 2 reader and sort checker",
 "C14": "exhaustive placement of each unsupported construct at each position of supported rules",
 "C15": "runs the real command in scratch directories; bounds as in the evidence",
 "C16": "every fault position within the stated texts; the in-memory parser is the reference",
 "C17": "every fault position within the stated trees",
 "C18": "all sequences up to the depth over the pool of calls; reference results come from fresh processes",
 "C19": "all schedules within the preemption bound at statement granularity for the listed calls, plus synchronisation-point schedules, in warm and cold processes; relies on the Go race detector for unordered accesses",
 "C20": "exhaustive within bounds; oracle: the farthest-failure positions of the independent recogniser",
 "C21": "exhaustive within bounds: dumps are compared across independent copies, every single change, and as a global one-to-one map",
}
checks = []
for i in ids:
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                   "technique": T.get(i, ENUM), "level": LEVEL.get(i, "model_checking"), "level_note": NOTE[i]})
m = {"version": 1, "setup_cmd": "bash build.sh && bash build.sh race", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the one check that needs scheduling points (C19) inserts them in a go build overlay generated from the working tree. bash run.sh ID TIER -replay FILE replays a violation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
