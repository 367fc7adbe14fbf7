#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(home + "/properties.jsonl"):
    p = json.loads(l); props[p["id"]] = p
stream = "the real generator/reporter writes to a simulated writer with a seeded fault plan"
proc = "real builder processes under an interposed libc with seeded system-call faults, kills and schedules"
thr = "real threads, one running at a time, switched by a seeded schedule at basic blocks, loads, stores and futex calls"
tech = {
 "C01": stream, "C02": stream, "C03": proc, "C04": proc, "C05": proc + ", over multi-build histories",
 "C06": proc + ", with an editor and a model of Cargo's rebuild decision", "C07": proc + "; " + thr,
 "C08": thr, "C09": thr, "C10": proc + ", several in lockstep", "C11": proc, "C12": stream + "; " + proc,
 "C13": proc + ", over damaged route files", "C14": stream + "; " + proc + "; " + thr,
 "C15": proc, "C16": proc + ", racing in lockstep for one output", "C17": proc + ", with the process state compared around each build",
 "C18": proc + ", stopped at seeded points inside the build",
 "C28": proc + ", with every call that concerns anything else denied",
 "C29": proc + ", over histories of interleaved builders in one process",
 "C31": thr + ", repeated with fresh names while the allocator counts",
 "C30": thr + ", asking matchers the real generator made",
 "C19": proc + ", with the route file replaced between seeded system calls of the build",
}
note = {
 "C01": "Searched, not proved: thousands of failure points per run over generated configurations, with every error kind.",
 "C02": "Searched: one-byte writes, interruption storms and mixes at seeded positions; oracle is the same call on a healthy writer.",
 "C03": "Searched: oracle is the real generator on a healthy stream in a pristine process. No power-loss model: accepted writes stay.",
 "C04": "Searched: rejected texts, unreadable files, incomplete builders and environments, read faults; output compared byte for byte.",
 "C05": "Searched: histories of failed, killed and disk-full builds, residues and timestamps, then an undisturbed build.",
 "C06": "Searched against a model of Cargo (rerun if a watched file is missing or newer than the last start, or the script failed); modification times do not go backwards.",
 "C07": "Searched: hash seeds, clock, pid, environment, directory, threads and in-process history; reference from other seeds in a pristine process.",
 "C08": "Searched at memory-access granularity under sequential consistency; oracle is the same parse and report alone in a pristine process.",
 "C09": "Searched at memory-access granularity under sequential consistency, with failing, panicking and re-entrant writers; deadlock is exact.",
 "C10": "Searched: lockstep interleavings of up to three builds at system-call granularity, faults and kills; the whole scratch tree is compared.",
 "C11": "Searched: stdout/stderr faults, rejected inputs; stdout compared with the reference module.",
 "C12": "Searched: flaky and failing report streams, in process and as the standard error of a build.",
 "C13": "Searched: sixteen kinds of damage; an independent reader accounts for every non-blank character of an accepted file.",
 "C14": "Searched: permanent failures, zero-byte writes, interruption storms; bound is a step cap far above any healthy run.",
 "C15": "Searched: every failing call of a build must leave its reason, and where due its file name, on standard error; wording is otherwise free.",
 "C16": "Searched: lockstep interleavings of two or three builds at system-call granularity; only transient faults.",
 "C17": "Searched: sequences of builds, refused and faulted ones included; compares what /proc and libc tell about the process.",
 "C18": "Searched: kills and failures between and inside the system calls of a build, over earlier outputs of every size; no power-loss model: accepted writes stay.",
 "C28": "Searched: every build mode with other files, folders, threads, children and descriptors denied; the healthy tree makes no such call, which the evidence shows as no denial fired. Randomness is never denied.",
 "C29": "Searched: seeded histories of up to four builders, against a model of what each was told; the reference module is the real generator's.",
 "C31": "Searched: programs of parses, reports, generations and builds with failing, panicking and re-entrant writers, run N and 4N times; what is held must not differ by a word per round. A cache that stops growing within 40 rounds is not a leak.",
 "C30": "Searched: sequences and interleavings of requests at memory-access granularity, over sixteen route files with misbehaving parameter types; oracle is the same request alone in a pristine process. What the answer should be is left to C20-C24.",
 "C19": "Searched: replacement by rename or re-pointed link at seeded moments, small reads, faults; replacements are whole and atomic, in-place edits are left to C06.",
}
pure = "The result is a pure function of its input, with no schedule, clock, I/O, fault or history for it to depend on; deciding it is input generation against a reference matcher or compiler, not deterministic simulation."
checks = [{
  "property": i,
  "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}",
  "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
  "evidence_file": f"evidence/{i}.json",
  "technique": "deterministic simulation with fault injection: " + tech[i],
  "level": "exploration",
  "level_note": note[i] + " Trusts the libc seam and the Linux scratch file system.",
} for i in sorted(tech)]
na = [{"property": i, "reason": pure} for i in sorted(props) if i not in tech]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are libc (LD_PRELOAD), the io::Write parameter and compiler instrumentation. One fix: commit in /repo, see KNOWN_FINDINGS.txt."}
json.dump(m, open(home + "/MANIFEST.json", "w"), indent=1)
open(home + "/MANIFEST.json", "a").write("\n")
