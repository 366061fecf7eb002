#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
 "N01": "Speed is not a function of schedules, inputs or faults: a simulator that owns the clock cannot say anything about how fast the real processor runs the two builds. The build with computed gotos and the plain switch are compared for equal results under S05.",
 "N02": "The simulated code runs on the host's own processor, compiler and C library; another byte order, word size or operating system is not something a simulator inside one x86-64 Linux process can put behind a seam. The sandbox has no such compiler or emulator.",
 "N03": "lburg is a pure, sequential function from a grammar file to C source, run once by the maintainer; there is no concurrency, time, I/O history or fault for its result to depend on, and the bytecode back end (src/bytecode.c) is hand-written: the only generated selector in the shipped compiler, dagcheck.c, is committed as output and takes part in S12 and S13 as it is.",
}
TECH = {
 "vm": "deterministic simulation with fault injection: seeded host histories, schedules, allocator and image faults against an executable reference model",
 "tool": "deterministic simulation with fault injection: the tools run as simulated processes on a simulated kernel (files, processes, signals, clock, memory), seeded schedules and faults, checked against reference models and fault-free runs",
}
NOTE = {
 "vm": "Exploration: seeded search, every run exactly repeatable from its seed; no claim beyond the runs made. Trusts the reference model (sim/model.h), the host compilers and the instrumentation; cut-offs and undefined C results as listed under assumptions in the evidence.",
 "tool": "Exploration: seeded search, every run exactly repeatable from its seed; no claim beyond the runs made. Trusts the simulated kernel's semantics of files, processes and signals, the reference models, and the host compilers.",
}
checks = [{"property": i, "quick_cmd": "./check.py --prop %s --tier quick" % i, "thorough_cmd": "./check.py --prop %s --tier thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": TECH[PROPS[i]["backend"]], "level": "exploration",
           "level_note": PROPS[i].get("note") or NOTE[PROPS[i]["backend"]]} for i in ids if i in PROPS]
m = {"version": 1, "setup_cmd": "./check.py --build", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet (work in progress)")} for i in ids if i not in PROPS],
     "notes": "No hooks in /repo: every seam is put in at link time (--wrap, symbol interposition, compiler instrumentation)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
