#!/usr/bin/env python3
"""replay.py ID 'CASE': run one case of a replay file on the current tree, print its log and TLC's judgement."""
import os, subprocess, sys
import vlib, iter_check, lane_check
cfg, rest = sys.argv[2].split(': ', 1)
if cfg not in vlib.CONFIGS:
    sys.exit('a case starts with a configuration, one of ' + ' '.join(vlib.CONFIGS))
lane = ' | ' not in rest
exe = 'vlane' if lane else iter_check.bin_of(rest.split(' | ')[0])
vlib.workdir('replay')
d = vlib.build([cfg], [exe])[cfg]
path = os.path.join(vlib.WORK, 'log.ndjson')
r = subprocess.run([os.path.join(d, exe)] + ([] if lane else ['run']), input='0 ' + rest + '\n', stdout=open(path, 'w'), text=True)
print(open(path).read(), end='')
if r.returncode != 0:
    print('the process died:', r.returncode)
rc, lines = vlib.tlc('LaneTrace.tla' if lane else 'IterTrace.tla', 'LaneTrace.cfg' if lane else 'IterTrace.cfg', dict(TRACE=path, SCOPE=sys.argv[1]))
for s in vlib.strings(lines):
    print(s)
vlib.cleanup()
