#!/usr/bin/env python3
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NOTE = {
 'P17': 'Random placement of one failing open or read (every offset class of every makefile, include file and command file) in generated projects.',
 'P20': 'Random placement of one or two failing system calls (12 call sites, single or repeated) in generated projects and schedules.',
 'P15': 'Histories of up to 5 disturbed builds, edits and deletions, followed by undisturbed ones; every crash point is a seeded event of the run.',
}
BASE = ('All of jom, compiled unmodified from /repo, runs against a simulated Windows in one process; a seeded scheduler decides every interleaving, delay and fault. '
        'Random search: a quick run explores 9 000-30 000 seeded runs, it can miss a violation but a reported one is a replayable execution of the real code. '
        'Trusted: the Win32, file system and command models in sim/, the reference semantics in chk/project.py.')
m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are the system interfaces jom already calls (Win32, C library, three Qt classes), replaced at compile and link time."}
for p in props:
    i = p['id']
    if i[0] == 'N':
        m['not_applicable'].append({"property": i, "reason": "a pure function of its input text: no schedule, clock, I/O fault or interleaving takes part, so simulation has nothing to decide"})
        continue
    m['checks'].append({"property": i, "quick_cmd": "python3 chk/check.py %s" % i, "thorough_cmd": "python3 chk/check.py %s --tier thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                        "level": "exploration", "level_note": (NOTE.get(i, '') + ' ' + BASE).strip()})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
