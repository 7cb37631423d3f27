#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TRACE = 'TLA+ (TLC): histories of the real code, explored under a controlled scheduler, are checked against Sync.tla; Sync.tla itself is model checked for the property (SyncMC)'
OBJ = 'TLA+ (TLC): every transition of LockObj.tla within the bound is replayed on the real lock objects over an instrumented mutex and compared step by step'
TIME = 'TLA+ (TLC): Deadline.tla computes the instant and outcome of each timeout expression; the real timed operations are executed on the simulator with virtual clocks and compared'
NOTE = ('Exhaustive over schedules up to the stated number of deviations from the default schedule for each program of the pool (public API, every build configuration that applies), plus seeded generated programs; '
        'every distinct history is accepted or rejected by TLC. Trusted: the simulator of the operating system primitives (sim/vsim.cpp), TSan instrumentation by the compiler for the yield points, TLC.')
ONOTE = ('Exhaustive over all operation sequences of the model within the stated bound (objects, mutexes, depth), including failing and throwing mutex operations. Trusted: the instrumented mutex and the driver, TLC.')
TNOTE = ('Every supported time type, unit, sign, magnitude class and clock combined with every timed operation in every configuration; clocks are virtual, so the instant of expiry is observed exactly. Trusted: the simulator, TLC.')
NA = {}
NOT_YET = set()
checks = []
for p in props:
    i = p['id']
    if i in NOT_YET:
        NA[i] = 'the machinery for it is not in place yet'
    if i in NA:
        continue
    tech, note = (OBJ, ONOTE) if i in ('C15', 'C16') else (TIME, TNOTE) if i == 'C14' else (TRACE, NOTE)
    checks.append(dict(property=i, quick_cmd='python3 checks/check.py --property %s --tier quick' % i, thorough_cmd='python3 checks/check.py --property %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3 checks/vbuild.py --setup', hooks=dict(guard='none', enable='no hooks: the checks compile /repo\'s headers and sources unchanged, instrumented by the compiler (-fsanitize=thread) and linked with a simulator', source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='See DESIGN.md. Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
