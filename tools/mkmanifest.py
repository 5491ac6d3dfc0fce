#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = ("runtime monitoring: CPython runs of the real model on generated workloads; every returned value, warning and exception is decoded exactly and "
      "judged by an independent integer oracle")
RTL = ("runtime monitoring: GHDL runs of the real VHDL on generated command streams; every logged result and simulator message is judged offline by an "
       "independent integer oracle")
T = {
 **{f"C{k:02d}": PY for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)},
 **{f"C{k}": RTL for k in (13, 14, 15, 16, 17)},
 "C18": "runtime monitoring: per-clock port log of the VHDL entities under stalls and resets, checked offline by a queue model (exactly-once, order, latency) and the exact oracle",
 "C19": "runtime monitoring: VHDL text I/O run under GHDL on generated scripts; written text and values read back judged by an independent renderer/parser",
 "C20": "runtime monitoring: strings and files exchanged between the real Python and VHDL code, judged by an independent parser",
 "C24": "runtime monitoring: the array helpers run under GHDL with the real VUnit checker on generated arrays; packed bits and check statistics judged by an independent oracle",
 "C21": "runtime monitoring: event log of concurrent runner threads with injected delays and failures, checked for exactly-once and happens-before",
 "C25": "runtime monitoring: the same generated calls and clocked traffic executed by GHDL builds of the RTL code for VHDL-93, 93c, 2002 and 2008; all logs compared event by event",
 "C26": "runtime monitoring: random designs of package calls and blocks synthesised with ghdl --synth; netlist and source simulated under the same stimulus and compared at every clock phase",
 "C27": "runtime monitoring: the real run scripts under the real VUnit with recording stand-in simulators, selected in all ways against decoys; every recorded call judged",
 "C28": "runtime monitoring: the real run scripts under the real VUnit with recording stand-in simulators and injected failures of simulations, co-simulations and compilations; calls, report and exit code judged",
 "C29": "runtime monitoring: the real test benches simulated on exact data and with one injected deviation (in the data or by a stand-in around the block); every verdict compared",
 "C22": "runtime monitoring: the real co-simulation scripts run in a scratch copy; every generated entry judged by the exact oracle",
}
NOTE = ("Exploration: the property held on every event observed in the run (counts in the evidence file), not a proof. Trusts the oracle in lib/fx.py, the decoders in "
        "lib/, and {}.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
import sys
sys.path.insert(0, os.path.join(V, "checks"))
src = open(os.path.join(V, "checks", "main.py")).read()
checks, na = [], []
for p in props:
    i = p["id"]
    if i == "C23":
        na.append({"property": i, "reason": "The wrappers are MATLAB code; neither MATLAB nor Octave is available offline, so no execution can be observed. The Python packing they rely on is decided by C09."})
        continue
    if f'"{i}"' not in src:
        na.append({"property": i, "reason": "check under construction"})
        continue
    trust = "CPython/numpy" if T[i] == PY or i in ("C21", "C22", "C27", "C28") else "GHDL"
    checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE.format(trust)})
m = {"version": 1, "setup_cmd": "mkdir -p evidence && chmod +x check", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through public interfaces, files and simulator messages. Defects found are repaired by 'fix:' commits, listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
