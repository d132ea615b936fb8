#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: properties with a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NOTE = {
 'C01': "seeded search over schedules, CPU and thread counts, clock, map order and pool behaviour; byte equality with a fixed-schedule run of the same build",
 'C02': "seeded search over schedules; lump-wise equality with the -d result of the same build",
 'C03': "seeded search over wad layouts and schedules; independent model of the directory and lump contents",
 'C04': "seeded search over read, write and directory faults, crashes and file aliases; journal of every mutation of a source file",
 'C05': "seeded search over kill and power-loss points and failing system calls during in-place rebuilds; what is left on the simulated disk is compared with the original and the result",
 'C06': "seeded search over failing and short system calls; a success claim must come with the bytes of an undisturbed run",
 'C07': "seeded search over failing system calls and aborts; directory listing after the run",
 'C08': "seeded search over levels, options, schedules, CPU and thread counts; deadlock, leak, panic and step-bound detection in the simulator",
 'C09': "seeded search over multi-level wads, level orders and schedules; lumps compared with those of single-level wads",
 'C10': "seeded search over schedules; the log is compared line by line, per level, with a fixed-schedule run and with the output file",
 'C11': "seeded search over thread counts and schedules; result compared with the best of the single roots under the documented order",
 'C12': "seeded search over workers and schedules; reference model: each candidate offset built alone",
 'C13': "seeded search over levels, workers and schedules; independent geometric model of the blockmap",
 'C14': "seeded search over levels, options and schedules; independent structural model of the level lumps",
 'C15': "seeded search over NOPROCESS sources, schedules and read faults; exact source bytes or an openly declined request",
 'C16': "seeded search over write faults, aborts and schedules; the report file is compared with an undisturbed run's",
 'C17': "seeded search over schedules with the Go race detector seeing only the program's own synchronisation",
 'C18': "seeded search over crash points followed by a simulated restart on the surviving disk",
 'C19': "seeded search over sequences of in-place builds under varying schedules and options; lumps compared with a single build of the original",
}
NA = {
 'C40': "visibility is a pure function of the level's geometry; deciding it needs an independent line-of-sight oracle over inputs, no schedule, fault or crash can change it",
 'C41': "RMB parsing and effects are a pure sequential function of the file's text",
 'C42': "rounding and convexity are pure sequential geometry; no concurrency, time or I/O is involved",
 'C43': "a static relation between committed files",
 'C44': "command line parsing is a pure sequential function of the arguments",
}
CLAIMED = open(here + '/tools/claimed.txt').read().split()
checks = [{"property": p, "quick_cmd": f"bin/check check -prop {p} -tier quick", "thorough_cmd": f"bin/check check -prop {p} -tier thorough",
           "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with seeded schedule and fault search",
           "level": "exploration",
           "level_note": NOTE[p] + ". No finding within the seeds explored; trusts the simulated file system and scheduler (DESIGN.md)."} for p in CLAIMED]
na = [{"property": p['id'], "reason": NA.get(p['id'], "check under construction")} for p in props if p['id'] not in CLAIMED]
m = {"version": 1, "setup_cmd": "bin/check build",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: bin/check instruments /repo's working tree at check time (go/ast) and links it with the simulator, so nothing has to be guarded."}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
