#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "data": "stateless model checking of the real DATA codec: exhaustive enumeration of bodies x segmentations x environment answers, step-by-step against a byte-level reference model",
 "parse": "exhaustive bounded enumeration of inputs to the real parser (strings over critical alphabets, token sequences, all small edits of valid lines), each decided by an independent executable model of the grammar",
 "write": "stateless exploration of the real serialisers under a fault-injecting writer: every pattern of short writes, interruptions and failures within the bounds",
 "hist": "stateless model checking: every operation history up to a depth on the real type, in lock step with a reference model",
 "sess": "stateless model checking of the real session (interact) in lock step with an executable reference model of an SMTP session: all command histories x decisions x packet cuts x delays within bounds",
 "sfault": "fault enumeration on the real session: connection end or sink failure at every point of the histories, in lock step with the reference model",
 "queue": "stateless model checking of the real queue runner under a controlled executor, storage, transport and clock: every completion order within bounds, monitored by a protocol automaton per mail",
 "qfault": "fault enumeration on the real queue runner: crashes, failures and hangs at every step (restarted on the surviving storage), monitored by a protocol automaton per mail",
}
K = {}
for i in (1, 2, 3, 4, 5, 7): K["M%02d" % i] = ("data", "model_checking")
K["M06"] = ("data", "fault_enumeration")
K["M08"] = ("hist", "model_checking")
for i in range(9, 18): K["M%02d" % i] = ("parse", "exploration")
K["M18"] = ("write", "fault_enumeration")
K["M19"] = K["M20"] = ("hist", "model_checking")
for i in (1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13): K["S%02d" % i] = ("sess", "model_checking")
K["S07"] = K["S08"] = K["S14"] = ("sfault", "fault_enumeration")
for i in (1, 2, 4): K["Q%02d" % i] = ("queue", "model_checking")
K["Q03"] = K["Q05"] = K["Q06"] = ("qfault", "fault_enumeration")
NOTE = {
 "data": "Every execution within the bounds given in the evidence file was run on the real code, none sampled; beyond them (longer bodies, more simultaneous cuts or delays) nothing is claimed except what the length-sweep spaces cover. Trusts the reference model in harness/core and harness/msg (written from RFC 5321 4.5.2) and rustc.",
 "parse": "Every input of the enumerated spaces was parsed by the real code and compared with an independent grammar model; inputs outside those spaces are not covered. Where RFC 5321 and the documentation leave an input open, the model gives no verdict (listed in DESIGN.md). Trusts the grammar model.",
 "write": "Every write pattern within the bounds was run on the real serialisers; trusts the model of the byte writer's contract.",
 "hist": "Every operation history within the bounds was run on the real type; trusts the reference model.",
 "sess": "Every execution within the bounds was run on the real session; replies, hook calls and deliveries were compared with the model at the moment they happen. Trusts the session model and grammar model in harness/; handlers follow the documented contract (consume the body, call complete()).",
 "sfault": "As for the other sessions, with a fault at every point within the bounds.",
 "queue": "Every completion order within the bounds was run on the real runner; storage and transport are models that satisfy the documented interface, time is virtual. Trusts those models, the futures 0.1 task system and the timer wheel of tokio.",
 "qfault": "As for the other queue checks; storage operations are atomic and durable once completed.",
}
checks = []
for p in props:
    k, level = K[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick ./run.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": T[k], "level": level, "level_note": NOTE[k]})
json.dump({"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": [],
  "notes": "No hooks in /repo: everything is driven through the public interface. Repaired defects: KNOWN_FINDINGS.md. Design, bounds, planted bugs: DESIGN.md."},
  open(V + "/MANIFEST.json", "w"), indent=1)
