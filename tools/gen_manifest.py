#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAULT = {"C01", "C02", "C23", "C24", "C25"}
HIST = "explicit-state exploration of frame histories; every history replayed on the implementation and compared with the model"
TECH = {
 "C01": "exhaustive enumeration of damaged and hostile inputs within bounds, every public function run on each under a fault monitor",
 "C02": "exhaustive enumeration of crash (cut) points of histories, compared with the model of the complete frames",
 "C20": "exhaustive exploration of the nondeterminism around a call (hash seeds, clock, environment, addresses, processes) by controlling it",
 "C21": "exhaustive exploration of call sequences up to a depth, each in a forked process, on the real code",
 "C22": "stateless model checking of two concurrent calls under a controlled scheduler: instruction-level interleavings with partial-order reduction",
 "C23": "exhaustive enumeration of damaged and hostile inputs within bounds under an accounting allocator",
 "C24": "exhaustive enumeration of damaged and intact inputs within bounds, cross-checking all views of each",
}
 
TECH["C25"] = "exhaustive enumeration of growing and damaged inputs within bounds under an instrumented count of the work done"
for i in range(11, 16): TECH["C%d" % i] = "explicit-state exploration of rosters and event histories; every one replayed on the implementation and compared with the model"
for i in range(16, 20): TECH["C%d" % i] = "exhaustive enumeration of documents, texts and their placements within bounds; every one read by the implementation and compared with the model"
NOTE = {
 "C01": "Every input of the 18 generators, up to the stated bounds, goes through all 40 public functions of the real library, built with overflow checks, under a watchdog and in a supervised process; nothing outside those bounds is covered. A call of more than 20 s counts as a hang.",
 "C02": "Every cut of compact recordings, of all histories of up to 3 (thorough 4) frames over 10 kinds, of rosters and of reports, compared with a model of the complete frames and with the library on those frames; real recordings at chosen places. Trusts the model and decoder in mc/src (bound to the code by comparing every execution).",
 "C20": "All 40 functions on recordings with ties, under every enumerated hash seed, clock, environment answer, buffer address and heap state, and in child processes with different environments, directories and address layouts. Trusts that getrandom, clock_gettime, time, gettimeofday and getenv are the ways nondeterminism enters.",
 "C21": "Every sequence of two calls over 40 functions and 3-5 (thorough 7) inputs, of three calls over a core set, and long sequences, each in a forked process without history, with inputs in read-only guarded pages, a shared buffer, or a thread per call; answers compared with those of the call alone.",
 "C22": "Every function pair: either the calls change no memory the other can reach (watched instruction by instruction), so all interleavings are equivalent, or the interleavings at the contended words are enumerated up to the preemption bound; in addition a whole second call is run in front of every instruction of the first. Sequential consistency assumed; the C library is trusted.",
 "C23": "As C01, with the allocator counting what each call holds: at most 64 KiB + 512 bytes per input byte, 2048 per byte for functions that decode the stats report; and the memory still held after thousands of calls does not add up.",
 "C24": "As C01, with the relations between the answers of the 40 functions checked on every input; also every combination of the sources that combined answers draw on, and the real recordings.",
 "C25": "Every kind of event, pair of kinds, text, document and part of a recording, in every layout and roster enumerated, at two sizes a factor of 16 apart: the basic blocks entered (and bytes copied, compared, requested) by each of the 40 functions may grow at most three times as much as the input; and every damaged input of C01 costs at most 100000 + 400 per byte. Precompiled loops of the standard library (byte search) are not counted.",
}
DEF = "Every history or document within the stated bounds is run through the real library and compared with an independent model of what the property says; the real recordings of the repository are replayed through the model too. Trusts the model in mc/src/model.rs and the encoder in mc/src/wire.rs, which re-encodes the real recordings byte for byte."
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh check {i} quick",
        "thorough_cmd": f"./run.sh check {i} thorough",
        "technique": TECH.get(i, HIST),
        "level": "fault_enumeration" if i in FAULT else "model_checking",
        "level_note": NOTE.get(i, DEF),
    })
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks use only the public interface of the library. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
