#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after changing the properties)."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "exhaustive enumeration of requests x property lists x sizes on the real encoder and session, decoded by an independent reference decoder",
 "C02": "stateless model checking of the real event loop: all event sequences and select! orders within bounds, reference log of accepted commands",
 "C03": "stateless model checking of the handshake: all byte-level first answers, endings and event orders within bounds",
 "C04": "explicit-state search of the real allocator (all reachable states) bound to sessions by replay, plus stateless model checking of request/ack histories",
 "C05": "explicit-state search of the real allocator bound to sessions by replay, plus stateless model checking of exhausted sessions",
 "C06": "explicit-state search of the real allocator with spurious returns, plus stateless model checking of unexpected acknowledgements",
 "C07": "exhaustive enumeration of bounded inbound byte sequences and structured mutations against the real session, with panic, overflow and spin monitors",
 "C08": "exhaustive enumeration of segmentations of inbound streams against the real session, compared with the unsplit run",
 "C09": "exhaustive enumeration of PUBLISH packets and of event sequences, compared with an independent reference decoder",
 "C10": "exhaustive enumeration of answer packets and of event sequences, compared with an independent reference decoder",
 "C11": "exhaustive enumeration of bounded inbound byte sequences, classified by an independent reference decoder",
 "C12": "stateless model checking of the real event loop: all event sequences, write behaviours and select! orders within bounds",
 "C13": "stateless model checking of the real event loop with a stalled, slow or absent consumer at every fill level around the channel bound",
 "C14": "stateless model checking in virtual time: all answer delays, traffic and pauses on a time grid within bounds",
 "C15": "stateless model checking of all endings at all points of bounded histories",
 "C16": "stateless model checking with exact waker accounting: polls without a wake-up, lost wake-ups and spinning are violations",
 "C17": "exhaustive fault enumeration: every partial write size, blockage and failure at every byte of bounded histories, compared with an ideal socket",
 "C18": "stateless model checking of client handles: all call/clone/drop sequences at all fill levels around the queue bound",
 "C20": "exhaustive enumeration of loop bodies, floods and session lives on the real code with an exact ledger of the memory it holds",
 "C19": "stateless model checking of several sessions in one process: all interleavings of bounded histories, each in a process of its own, compared with every session run alone in a fresh process",
}
N = {}
props = [json.loads(l) for l in open(os.path.join(d, "properties.jsonl"))]
base = ("Holds for every execution enumerated (counts and completeness in the evidence file) of the real crate under a simulated socket, "
        "tokio's own paused clock and an explorer-chosen select! order; nothing is sampled. Trusts the simulated socket, the reference "
        "decoder and the bounds listed in DESIGN.md; says nothing beyond those alphabets and depths.")
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "model_checking", "level_note": base + N.get(i, "")})
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "cfg ruq_verif", "enable": "RUSTFLAGS='--cfg ruq_verif' (build.sh); if the tree does not build with it, the checker is built without and the spaces that need it are left out",
               "source_commits": ["414cafe"]},
     "checks": checks, "not_applicable": [],
     "notes": "quick_cmd takes the tier from VERIF_TIER (default quick), thorough_cmd forces the thorough tier. known-findings.txt lists the defects found; replay a violation with ./check.sh replay <file>."}
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() for c in m["hooks"]["source_commits"]]
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(d, "MANIFEST.json"), "a").write("\n")
