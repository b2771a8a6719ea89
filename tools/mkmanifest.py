#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties claimed and their commands."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ITER = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C23']
LANE = ['C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C24', 'C25']
TRACE = ['C22']
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    c = dict(property=i, quick_cmd='python3 tools/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i, level='model_checking')
    if i in ITER:
        c['technique'] = 'TLA+ state machine (spec/Iter.tla): TLC checks its design invariants, generates call programs from its state graph, and validates the logs of the real library running them'
        c['level_note'] = ('Exhaustive over the specification within the stated lengths and depths; the code is bound by replaying TLC-generated programs on three builds '
                           '(SSE2, AVX2, AVX2 without debug assertions) and validating every logged call against the specification. Assumes the harness logs faithfully; executions beyond the bounds are not explored.')
    elif i in LANE:
        c['technique'] = 'TLA+ definition of every lane operation (spec/Lanes.tla): TLC generates the argument vectors and validates the results logged from the real intrinsics and fallbacks'
        c['level_note'] = ('Arguments are boundary combinations and seeded samples, not all values; results of every vector type are checked by TLC on six builds (SSE2, SSE4.2, AVX, AVX2, and SSE2/AVX2 without debug assertions). '
                           'Numeric lane semantics are written in TLA+ over bytes; recip/rsqrt within a tolerance.')
    elif i in TRACE:
        c['technique'] = 'TLA+ specification of the trace log (spec/TraceLog.tla) validated by TLC against recorded output of the real library built with the trace feature'
        c['level_note'] = 'TraceLog is model-checked for three threads; the real library is judged on all command programs of four commands (up to renaming), long histories and concurrent runs of every operation, on three builds. Interleavings are those the scheduler gives.'
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
        continue
    checks.append(c)
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: everything observed is public API. Each check builds the harness crate against /repo for each configuration.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
