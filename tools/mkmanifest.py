#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py > MANIFEST.json)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import check
NA = {
    'C16': 'A pure function of its input: the codec reads no file or clock, has no schedule and no failing call for its result to depend on, so there is nothing for a simulator to decide. (Where it matters in a run - a base64 encoded baseline text delivered in pieces - it is part of C15.)',
    'C17': 'Pure string algebra without I/O, time, schedule or fault. (The queries that do touch the file system are C14, the use of search paths by a run is C09.)',
}
have = [p for p in sorted(check.INFO) if p not in check.ITK or os.path.exists(os.path.join(check.HERE, 'sim', 'props_itk.cpp'))]
for p in sorted(check.INFO):
    if p not in have:
        NA[p] = 'The simulation of the ITK part is not built yet.'
T = {
    'C10': 'deterministic simulation: seeded preemption of simulated threads at memory accesses and I/O, compared with the solo runs',
    'C13': 'deterministic simulation: seeded interleaving of worker threads at memory accesses, compared with a sequential reference',
    'C11': 'deterministic simulation with a simulated child process, seeded chunking, interleaving, exit and start failures',
    'C14': 'deterministic simulation with fault injection: answers judged against the history of the simulated file system',
    'C06': 'deterministic simulation: seeded crash points and torn writes, restart on the surviving disk content',
}
m = {'version': 1, 'setup_cmd': 'python3 simbuild.py sim' + (' itk' if set(have) & check.ITK else ''),
     'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: the seams are the libc calls the code makes (interposed at link time), the C++ memory access instrumentation of the compiler and the virtual functions and factories the code already has. Deterministic simulation with fault injection; see DESIGN.md.'}
for p in have:
    m['checks'].append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                        'evidence_file': 'evidence/%s.json' % p,
                        'technique': T.get(p, 'deterministic simulation with fault injection, seeded search, judged against a reference model'),
                        'level': 'exploration',
                        'level_note': 'Seeded sampling of workloads, faults and schedules of the real code on simulated system calls; a clean batch is evidence, not proof. Trusts the call semantics of sim/seams.cpp, the reference model in sim/model.cpp and the judge of the property.'})
print(json.dumps(m, indent=1))
