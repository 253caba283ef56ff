#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks (python3 mkmanifest.py)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
technique = {
 "C01": "bounded exhaustive enumeration of a type/value universe on the real encoder against a reference encoder model",
 "C02": "bounded exhaustive enumeration of (type, value, route) on the real encoder against a reference model and route equality",
 "C03": "bounded exhaustive enumeration of tags x types x values x documents against reference encoder and decoder models",
 "C04": "bounded exhaustive enumeration of encode-decode histories over a type/value universe",
 "C05": "bounded exhaustive enumeration of documents x destination types against a reference decoder model",
 "C06": "exhaustive fault enumeration (1 and 2 edits), all strings/token sequences to a length, against a reference grammar and decoder",
 "C07": "bounded exhaustive enumeration of inputs x destination types with crash, panic and hang monitoring in subprocesses",
 "C08": "bounded exhaustive enumeration of container mixes around the depth limit against a reference model",
 "C09": "exhaustive enumeration of small value graphs against a graph model (acyclicity, unfolding), crash monitoring",
 "C10": "stateless model checking: controlled scheduler with exhaustive preemption-bounded interleavings of an instrumented build, happens-before race monitoring",
 "C11": "explicit exploration of all call histories up to a length against history-free reference results",
 "C12": "bounded exhaustive enumeration of calls (documents x types, values x routes, broken inputs, sizes) under a memory-region monitor, with overwriting of inputs and results",
 "C13": "bounded exhaustive enumeration of documents x positions of Unmarshalers against a reference decoder recording calls",
 "C14": "bounded exhaustive enumeration of positions x outputs of Marshalers against a reference encoder",
 "C15": "exhaustive enumeration of 8/16-bit integers and boundary neighbourhoods, all decimal texts to a length, against exact decimal arithmetic",
 "C16": "exhaustive enumeration of structured float32/float64 classes (thorough: every float32) and decimals around rounding boundaries",
 "C17": "explicit-state exploration of destination states under sequences of decodes against a reference merge model",
 "C18": "exhaustive insertion of unknown members at every position of enumerated documents; metamorphic and reference-model comparison",
 "C19": "bounded exhaustive enumeration of type shapes with unsupported parts x call histories against a refusal model",
 "C20": "exhaustive enumeration of declared lengths over document shapes with allocation monitoring against a linear bound",
 "C21": "exhaustive enumeration of document and value families x destination types at two sizes with CPU-time and allocation monitoring against linear growth",
}
notes = {}
claimed = [l.strip() for l in open(os.path.join(here, "claimed.txt")) if l.strip()]
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
note = ("Every behaviour within the bounds given in DESIGN.md and the evidence file is executed on the real code built from /repo and compared with an independent model; "
        "nothing is claimed beyond those bounds. Trusted: the Go toolchain and the reference models in /verif/mc (ref_*.go).")
extra = {
 "C10": " Interleavings are explored at the synchronisation operations of the library (sync.Pool, atomic pointers, mutexes) and at user-code callbacks; unsynchronised accesses are caught by the Go race detector under every explored schedule.",
 "C20": " Allocation is measured with runtime counters; a violation has to recur on a repeated run.",
 "C21": " CPU time of the executing thread is measured, the best of up to five runs counts, and the bound (32 times the work for 8 times the data, above a floor of 150 ms) leaves a factor of four for noise.",
}
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build /dev/null",
 "checks": [{
   "property": p,
   "quick_cmd": f"bash check.sh {p} quick",
   "thorough_cmd": f"bash check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": technique[p],
   "level": "model_checking",
   "level_note": note + extra.get(p, ""),
 } for p in props if p in claimed],
 "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in claimed],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
