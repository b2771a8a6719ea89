#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

prop = sys.argv[1]
if prop == 'C12':
    # collections and iterators, then the vectors themselves
    import iter_check, lane_check
    def fn(prop, t0):
        v1, c1, n1 = iter_check.explore(prop, t0)
        v2, c2, n2 = lane_check.explore(prop, t0, iter_check.CONFS)
        cov = dict(c1, vectors=c2)
        for k in ('states', 'transitions', 'traces_validated_against_impl', 'calls_checked', 'trace_states', 'calls_skipped'):
            cov[k] = c1[k] + c2[k]
        return vlib.finish(prop, v1 + v2, cov, t0, 'model_checking', n1 + n2)
elif prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C23'):
    import iter_check
    fn = iter_check.check
elif prop == 'C22':
    import trace_check
    fn = trace_check.check
else:
    import lane_check
    fn = lane_check.check
vlib.main(fn, prop)
