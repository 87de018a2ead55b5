#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the committed file is this script's output)."""
import json

TECH = "deterministic simulation with fault injection: "
CONC = (TECH + "seeded search over simulated thread schedules, weak-memory reads, spurious CAS "
        "failures, refused memory and panics, checked against a handle model with vector clocks")
SEQ = (TECH + "seeded search over operation histories with refused memory, in-place or moving "
       "reallocation and panics at chosen calls, checked against a reference model after every operation")
BASE = ("Sampled, not exhaustive: the runs of VERIF_SEED within the run limit. Trusted: the simulator "
        "in /verif/sim (scheduler, allocator, models), rustc, and the seam in /repo/src/sim.rs. ")
MEM = ("Real code: all of lokky. Simulated: threads (coroutines), atomics and per-thread counters with "
       "release/acquire views (no load buffering, no out-of-thin-air values), allocators. ")
NOTHR = "Real code: all of lokky. Simulated: allocators and scopes, user code of the elements. "

levels = {
 "C01": (CONC, MEM + "Up to 4 threads, about 20 operations."),
 "C02": (CONC, MEM + "Up to 4 threads, about 20 operations."),
 "C03": (CONC, MEM + "Progress is: every thread done within 24000 steps, the last 20000 of them scheduled round robin with no faults."),
 "C04": (CONC, MEM + "Counts during concurrency are compared with the range the model allows, exact otherwise."),
 "C05": (CONC, MEM + "Up to 4 threads, about 20 operations."),
 "C06": (CONC, MEM + "Up to 4 threads, about 20 operations."),
 "C07": (CONC, MEM + "Every access to a per-thread counter is checked for a happens-before race."),
 "C08": (CONC, MEM + "Envelopes are passed between simulated threads, or dropped in any of them."),
 "C09": (SEQ, NOTHR + "Single-threaded by design; destructors that use other handles to the same and other values are included."),
 "C10": (SEQ, NOTHR + "Single-threaded by design."),
 "C11": (SEQ, NOTHR + "Element types: identity-tracked, byte, zero-sized, 1040 bytes, 64-byte aligned."),
 "C12": (CONC, MEM + "All scenarios; allocator checks size, alignment, owner, bounds by guard zones, use after free by never reusing memory within a run."),
 "C13": (SEQ, MEM + "All scenarios; every refused operation is repeated with memory available."),
 "C14": (SEQ, NOTHR + "Element types: identity-tracked, byte, zero-sized, 1040 bytes, 64-byte aligned."),
 "C15": (SEQ, NOTHR + "Inline capacities 0, 1, 3 and 8."),
 "C16": (SEQ, NOTHR + "Reference model: the String of the standard library."),
 "C17": (SEQ, NOTHR + "A panic is injected in a chosen call of Clone, Drop, PartialEq, a closure or an iterator; one panic per operation."),
 "C18": (SEQ, NOTHR + "Iterators and drains are stopped, dropped, leaked or exhausted at arbitrary points from both ends."),
 "C19": (CONC, MEM + "Up to 3 threads besides the main one, 5 levels; bodies and initialisers panic and panics pass through several levels."),
 "C20": (SEQ, MEM + "Which marker the results of clone and split_off of a marked container have is not told by the property and not looked at."),
 "C21": (SEQ, MEM + "Handles and containers are compared, hashed, formatted and borrowed at arbitrary points of the histories of the other checks, also in several threads, with panicking and re-entrant user code. Reference: the plain values of the model."),
}
hooks = {
 "guard": "lokky_sim",
 "enable": "sim/build.sh builds /verif/sim, which depends on /repo by path, with RUSTFLAGS=\"--cfg lokky_sim\"",
 "source_commits": ["ea72873c0edcfb3d34376bb94e49a48ac60b0b32", "4978051c126c1753b29d14e65e4c6c73a004af73"],
}

m = {
 "version": 1,
 "setup_cmd": "sim/build.sh",
 "hooks": hooks,
 "checks": [
  dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
       evidence_file=f"evidence/{p}.json", technique=t, level="exploration", level_note=BASE + note)
  for p, (t, note) in levels.items()
 ],
 "not_applicable": [
  dict(property="C22", reason="What may be sent to other threads is decided by the compiler from the Send and Sync bounds. No execution, simulated or not, shows it."),
  dict(property="C23", reason="Which UTF-8 and UTF-16 input is accepted is a pure function of the input. (Rejected input and refused memory in these constructors are simulated for C12, C13 and C16.)"),
  dict(property="C24", reason="Identity of markers and selectors is a pure function of types, fixed at compile and link time; there is no schedule or fault it depends on."),
 ],
}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
