#!/usr/bin/env python3
# Generates /verif/MANIFEST.json.
import json,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
TRUST="Sampling: a clean batch is evidence for the explored schedules, faults and inputs only. Trusts the simulated application and allocator, and the oracle named in the technique; runs repeat exactly (re-executed in fresh processes in every batch)."
T={
"C01":"deterministic simulation: seeded delivery schedules (cuts, both delivery calls, empty calls, final flag) against the same stream fed whole",
"C02":"deterministic simulation: seeded suspension/resumption schedules against the uninterrupted run",
"C03":"deterministic simulation: seeded aborts, stops and misuse calls, status-machine invariants and prefix/equality oracles",
"C04":"deterministic simulation: positions queried at scheduled instants against counting over the stream, the whole-stream run and the C reference",
"C05":"deterministic simulation with allocation-fault injection (once, from then on, periodic, size-based), prefix, leak, crash and recovery oracles",
"C06":"deterministic simulation of API histories under a guard-page/poisoning allocator with a registry of live blocks",
"C07":"deterministic simulation of a cut-off history, a reset and a second stream, trace-equal to a new parser",
"C08":"deterministic simulation: several parsers on real threads under a seeded scheduler, other hash seeds and heap layouts, trace-equal to each alone",
"C09":"deterministic simulation: seeded stream corruption and delivery, refinement against the C reference parser",
"C10":"deterministic simulation: seeded encodings, cuts inside characters and corruption, equality across encodings and with the C reference",
"C11":"deterministic simulation: namespace-heavy streams under seeded schedules, executable resolution model and the C reference",
"C12":"deterministic simulation: DTD/entity graphs with seeded per-entity schedules and child-parser lifetimes, refinement against the C reference",
"C13":"deterministic simulation: byte conservation through the default handler under seeded schedules and handler sets",
"C14":"deterministic simulation: stream cut (crash of the sender) at a seeded byte, prefix and verdict oracles",
"C15":"deterministic simulation: both builds of the library on the same seeded schedule",
"C16":"deterministic simulation of the process's I/O: seeded short, interrupted and failing system calls, verdict oracle",
"C17":"deterministic simulation of the process's I/O: seeded read schedules, output equality across modes and canonical fixed point",
"C21":"deterministic simulation of the process's I/O and memory: seeded failing calls and reads, books kept of every descriptor, stream and block",
"C20":"deterministic simulation of long histories of repeating markup and resets under an accounting allocator, growth of the peak of live memory over equal windows",
}
CLAIM=os.environ.get('CLAIM','C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20 C21').split()
NA={
"C18":"Pure functions of their argument: no schedule, clock, I/O, fault or history for simulation to vary.",
"C19":"A running-time bound against adversarially chosen keys: the simulator fixes the hash keys and measures no wall time; nothing it controls decides the property.",
}
m={"version":1,"setup_cmd":"bin/build","hooks":{"guard":"none","enable":"No hooks in /repo: every seam (allocator, process randomness, file I/O) is taken at link or load time.","source_commits":[]},
"checks":[{"property":p,"quick_cmd":f"bin/check {p} quick","thorough_cmd":f"bin/check {p} thorough","technique":T[p],"level":"exploration","level_note":TRUST} for p in CLAIM],
"not_applicable":[{"property":p,"reason":r} for p,r in NA.items()]+[{"property":p,"reason":"Check under construction."} for p in T if p not in CLAIM]}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
