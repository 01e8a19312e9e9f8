#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
SRV="The real server process (its own main and every crate below it) is executed single-stepped in one process: every thread, lock, timer, stream byte and file operation goes through the simulator, and one seed is one exactly repeatable execution. Seeded search, not exhaustive: a schedule or history outside the explored seeds can still violate the property. Trusted: the simulator's model of the libc boundary, the LSP client model"
NOTE={
 "C01":SRV+", and that analysing a text twice with this tree's own analysis gives the same answer (the from-scratch analysis is this tree's).",
 "C02":SRV+", and this tree's own analysis as the from-scratch reference.",
 "C03":SRV+" and its independent re-implementation of LSP text edits; the analysed text is observed through the diagnostics it yields, which the generated texts make telling.",
 "C09":"The real AnalysisHost/Analysis/salsa code with a writer and reader threads under the simulated scheduler, with preemption inside code as well as at synchronisation; seeded search. Trusted: the reference, which recomputes each query on a fresh host holding the snapshot's state.",
 "C12":"The real stdx::process code and std's process plumbing against a simulated child, its pipes, poll, waitpid and spawn; seeded search over write splits, stream closing orders, short reads, interrupts and errors.",
 "C19":SRV+". Work is counted in basic-block edges of the instrumented code, memory in bytes handed out by the simulated heap; a leak of less than about 30 bytes per repetition in the longest runs stays below the allowance.",
 "C20":"The real project discovery and manifest loading, called from one or two threads over a simulated file system whose calls fail and whose nodes appear and vanish meanwhile; seeded search. Trusted: the simulated file system, and the toml crate for what a manifest says. A change during a call may or may not be seen: what must and what may be found is then judged from both states.",
 "C21":SRV+". Work is counted in basic-block edges of the instrumented code; a difference below a third of the message's own cost (and below 3 000 edges for each standing diagnostic of the other documents) stays below the allowance.",
 "C22":SRV+". Only the records of messages and of refusals are compared with what happened; of other records, that their target and level were asked for, and their place.",
 "C14":"The extension's own TypeScript, transpiled and run unmodified on node's real streams, over a simulated disk, network, processes, VS Code API and clock; one seed is one exactly repeatable execution. Seeded search. Trusted: those stand-ins - among them that a window kill loses nothing already written (no power loss), and that a response with a content length either delivers it, fails or stalls.",
 "C15":"The extension's own TypeScript, transpiled and run unmodified, over a simulated VS Code API, language-client library (modelled on vscode-languageclient 7), dove executable, disk, network and clock; one seed is one exactly repeatable execution. Seeded search. Trusted: those stand-ins.",
}
TECH={"C22":"deterministic simulation with fault injection: seeded sessions, settings and schedules with preemption at each write of a log record; the log compared with the recorded history at every idle point and at the end","C20":"deterministic simulation with fault injection: seeded directory trees, failing calls and concurrent changes; result compared with a small model of discovery","C21":"deterministic simulation: seeded sessions under seeded schedules; work per message measured exactly and compared beside small and large other documents","C19":"deterministic simulation with fault injection: seeded sessions of many equal rounds under seeded schedules; work and memory per round measured exactly and compared over the run","C14":"deterministic simulation with fault injection: several windows over one simulated disk and network, with kills, errors and cut downloads; disk invariant after every event, then recovery","C15":"deterministic simulation with fault injection: seeded interleavings of user actions with asynchronous work that is slow or fails; invariants at every event and at quiet points, then progress once faults stop","C09":"deterministic simulation: seeded schedules of host and snapshot threads, refinement against a fresh-host reference","C12":"deterministic simulation with fault injection of the child process and its pipes, history check"}
man={"version":1,"setup_cmd":"bash check.sh build","checks":[],"not_applicable":[],
 "notes":"Two simulators, described in DESIGN.md: sim/ (the server, C01-C13 and C19-C22; every seam is at the libc boundary, interposed at link time) and ext/ (the VS Code extension, C14-C15; every seam is a module the extension imports). No hooks in /repo. VERIF_TIER=thorough runs ten minutes per property instead of one."}
NA=json.load(open('/verif/not_applicable.json'))
for p in props:
    i=p['id']
    if i in NA: man["not_applicable"].append({"property":i,"reason":NA[i]}); continue
    man["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}","evidence_file":f"evidence/{i}.json",
      "technique":TECH.get(i,"deterministic simulation with fault injection: seeded schedules, faults and client histories of the whole server process, checked against a reference model"),
      "level":"exploration","level_note":NOTE.get(i,SRV+" and its recorded history.")})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
