#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
tech = {
 "C01": "seeded failing, short and refused output operations; output compared with the fault-free run",
 "C02": "seeded read faults and concurrent edits of the source; output compared with compiles of the texts that were on disk",
 "C03": "every file system mutation of faulted, killed and clean runs checked against the documented outputs",
 "C04": "seeded allocation failures in the compiler's own code",
 "C05": "seeded fork, exec, wait and linker outcomes, foreign children and interleavings",
 "C06": "seeded kill and power-loss points, then recovery run compared with a clean run",
 "C07": "seeded interleavings of several compiles, each compared with its solo run",
 "C08": "seeded histories of compiles inside one process, each compared with a fresh process",
 "C09": "runs under perturbed memory, ids, clock, environment and devices compared with the reference run",
 "C10": "seeded stream faults and quiet twins; message streams compared",
 "C11": "resource accounting of descriptors, children, memory and files over faulted histories",
 "C12": "bounded progress after faults stop, counted in system calls",
 "C13": "seeded file systems, faults and races around module lookup against a reference lookup",
 "C15": "state of the embedding program compared before and after each request of faulted histories",
 "C14": "seeded output faults, request histories and memory contents; verdict and report compared between kinds of output",
}
note = "Seeded search: shows the property on the explored seeds (counts in the evidence), not on all. Trusts the simulated kernel, the stub linker and the comparison code in /verif/sim; the compiler, LLVM and libc run as they are."
na = {
 "N01": "Type soundness is a function of the program text alone: no schedule, time, I/O or fault can change whether it holds, so a simulator has nothing to vary.",
 "N02": "The meaning of generated code depends on the program text and the code generator only; it needs a semantics and differential execution, not schedules or faults.",
 "N03": "Agreement of backends and optimisation levels is a pure function of the program text; there is no nondeterminism for a simulator to control.",
 "N04": "Robustness against arbitrary text is input fuzzing of a pure function; the simulator only covers the texts that arise from faults and edits during reading (C02).",
 "N05": "Line and column positions are a pure function of the text; nothing a schedule or fault could influence.",
 "N06": "Calling convention and symbol names are fixed by the generated code; checking them means linking against real C code, outside any simulated source of nondeterminism.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
assert set(ids) == set(tech) | set(na), (ids)
m = {"version": 1, "setup_cmd": "bash build.sh",
 "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}", "evidence_file": f"evidence/{p}.json",
   "technique": T + tech[p], "level": "exploration", "level_note": note} for p in ids if p in tech],
 "not_applicable": [{"property": p, "reason": na[p]} for p in ids if p in na],
 "notes": "No hooks in /repo: the seams are the system-call boundary (seccomp trap) and the symbols main, malloc and clock, renamed in the object files by objcopy. Replay: build/skullsim replay FILE -v --corpus corpus."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
