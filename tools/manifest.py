#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from registry import PROPS  # noqa: E402
SCHED = ("stateless model checking of the real code: all thread schedules and environment answers up to a bound on preemptions and deviations, "
         "under a controlled scheduler with happens-before state caching")
FAULTS = "stateless model checking of the real code: exhaustive enumeration of all failures and answers of the system calls up to a bound, against a protocol monitor"
TECH = dict(N04="stateless model checking of the real addon in node: exhaustive bounded exploration of event histories, server operations and garbage collection points against a reference model", I01=SCHED, I02=SCHED, N01=SCHED, N02=SCHED, N03=SCHED, R02=FAULTS, F01="stateless model checking of the real code: exhaustive enumeration of all operation histories and all places of failing allocations up to a bound, against a reference model")
RACES = " Threads run one at a time, sequentially consistent; a second part uses ThreadSanitizer on the same schedules for data races."
NOTE = dict(I02=RACES, N03=RACES, I01=" Sequentially consistent.", N01=" System calls are replaced by a model of sockets.", N02=" System calls are replaced by a model of sockets.", N04=" The addon runs in the installed node; the net module is replaced by an event emitter, except in a TCP scenario.")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i not in PROPS:
        na.append({"property": i, "reason": "the harness is not built yet"})
        continue
    s = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH.get(i, "stateless model checking of the real code: exhaustive bounded exploration of all operation histories and inputs against a reference model"),
        "level": "model_checking",
        "level_note": "Complete within the bounds in the evidence file, on the real code compiled from /repo with AddressSanitizer and UBSan. Trusts the explorer, the reference model in the harness, the compiler and its sanitizers; nothing is claimed outside of the bounds." + NOTE.get(i, ""),
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo are needed: the checks interpose library calls at link time."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
