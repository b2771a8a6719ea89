"""Lane properties: operands generated by TLC from spec/LaneGen.tla, every operation run on
them by the real code on every target CPU, and the outcomes judged by TLC with spec/LaneTrace.tla."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import *

CONFS = ['sse2', 'sse42', 'avx', 'avx2', 'sse2rel'] + (['avx2rel'] if TIER != 'quick' else [])
SIZES = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}
# calls per configuration, at most
CAP = {'quick': 50000, 'thorough': 400000}

def generate(prop):
    def one(job):
        w, sz = job
        rc, lines = tlc('LaneGen.tla', 'LaneGen.cfg', dict(PLAN=prop, TIER=TIER, SEED=SEED, BYTES=w, SZ=sz), timeout=850, heap='2g')
        if rc != 0:
            raise ToolError('TLC rejects the specification:\n' + '\n'.join([l for l in lines if not l.startswith('"A|')][-40:]))
        s = strings(lines)
        ops = {tuple(l[2:].split('|')) for l in s if l.startswith('O|')}
        args = set()
        for l in s:
            if l.startswith('A|'):
                _, c, t, n, v = l.split('|')
                v = ' '.join(bytes(int(b) for b in x.split(',')).hex() for x in re.findall(r'<<([0-9, ]+)>>', v))
                args.add((c, t, n, v))
        return ops, args, tlc_stats(lines)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, [(w, sz) for sz in (8, 4, 2, 1) for w in (64, 32, 16)]))
    ops = set.union(*[r[0] for r in res])
    args = sorted(set.union(*[r[1] for r in res]))
    return ops, args, sum(r[2][1] for r in res), sum(r[2][0] for r in res)

def run_shard(job):
    """Run calls (lines without their number); a crash of the harness is an observation too."""
    binary, calls, path = job
    todo = list(range(len(calls)))
    crashes = []
    with open(path, 'wb') as out:
        while todo and len(crashes) < 5:
            inp = ''.join('%d %s\n' % (i, calls[i]) for i in todo)
            try:
                r = subprocess.run([binary], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
                data, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired as e:
                data, rc = e.stdout or b'', -1
            if rc == 0:
                out.write(data)
                break
            lines = data.split(b'\n')[:-1]
            out.write(b''.join(l + b'\n' for l in lines))
            todo = todo[len(lines):]
            # output is buffered: the culprit is among the next calls
            k = None
            for j, i in enumerate(todo):
                q = subprocess.run([binary], input=('%d %s\n' % (i, calls[i])).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                if q.returncode != 0:
                    k = j
                    crashes.append((i, 'exit %d: %s' % (q.returncode, q.stderr[-200:].decode(errors='replace'))))
                    if q.returncode == 97:
                        return crashes      # a call which does not return: one is enough
                    break
                out.write(q.stdout)
            if k is None:
                if rc not in (-1, -9, 97):
                    crashes.append((todo[0] if todo else 0, 'exit %d, in one process with the calls before it: %s' % (rc, r.stderr[-200:].decode(errors='replace'))))
                break
            todo = todo[k + 1:]
    return crashes

def judge(job):
    cfg, binary, calls, path = job
    viol = [dict(case='%s: %s' % (cfg, calls[i]), detail='the process died: ' + why) for i, why in run_shard((binary, calls, path))]
    if os.path.getsize(path) == 0:
        return viol, (0, 0, 0)
    rc, lines = tlc('LaneTrace.tla', 'LaneTrace.cfg', dict(TRACE=path), timeout=850)
    res, bad = None, []
    for s in strings(lines):
        f = s.split('|')
        if f[0] == 'BAD':
            bad.append(int(f[1]))
        elif f[0] == 'RESULT':
            res = tuple(int(x) for x in f[1:])
    if rc != 0 or res is None:
        raise ToolError('TLC failed on a trace:\n' + '\n'.join(lines[-30:]))
    if bad:
        text = open(path).read().splitlines()
        for ln in bad:
            e = json.loads(text[ln - 1])
            viol.append(dict(case='%s: %s' % (cfg, calls[e['i']]), detail='logged: ' + text[ln - 1] + '\nwhich Lanes!Allowed rejects'))
    if os.environ.get('VERIF_KEEP') != '1':
        os.remove(path)
    return viol, (res[1], res[2], tlc_stats(lines)[1])

def explore(prop, t0, confs=CONFS):
    """Returns (violations, coverage, assumptions)."""
    with ThreadPoolExecutor(1) as ex:
        building = ex.submit(build, confs, ['vlane'])
        ops, args, states, trans = generate(prop)
        dirs = building.result()
    log('generated', len(args), round(time.time() - t0, 1))
    have = {}
    for l in subprocess.run([os.path.join(dirs[confs[0]], 'vlane'), 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        op, ty = l.split()
        have.setdefault((op.split('.')[0], ty), []).append(op)
    by_class = {}
    for c, op in ops:
        by_class.setdefault(c, []).append(op)
    calls, used = [], set()
    for c, ty, n, v in args:
        for op in by_class[c]:
            for full in have.get((op, ty), []):
                calls.append((full, ty, '%s %s %s %s' % (full, ty, n, v)))
                used.add((full, ty))
    # without operands the calls of these coincide
    calls = list(dict.fromkeys((o, t, ' '.join(l.split(' ')[:2]) + ' 0' if o in ('ones', 'zeroes', 'default') else l) for o, t, l in calls))
    cap = CAP['thorough' if TIER == 'thorough' else 'quick']
    groups = {}
    for o, t, l in calls:
        groups.setdefault((o, t), []).append(l)
    jobs = []
    for cfg in confs:
        rng = random.Random('%s/%s/%d' % (prop, cfg, SEED))
        quota = max(20, cap // max(1, len(groups)))
        chosen = []
        spare = cap - sum(min(len(g), quota) for g in groups.values())
        large = sum(1 for g in groups.values() if len(g) > quota)
        for k in sorted(groups):
            g = groups[k]
            q = quota + max(0, spare) // max(1, large)
            chosen += g if len(g) <= q else rng.sample(g, q)
        rng.shuffle(chosen)
        n = max(1, len(chosen) // 8000)
        jobs += [(cfg, os.path.join(dirs[cfg], 'vlane'), chosen[i::n], os.path.join(vlib.WORK, '%s-%d.ndjson' % (cfg, i))) for i in range(n)]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(judge, jobs))
    viol = [v for r in res for v in r[0]]
    tot = [sum(r[1][k] for r in res) for k in range(3)]
    log('judged', tot, round(time.time() - t0, 1))
    if tot[0] == 0:
        raise ToolError('no call was checked')
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=sum(len(j[2]) for j in jobs), calls_checked=tot[0], calls_skipped=tot[1],
               trace_states=tot[2], operand_sets=len(args), operations_by_type=len(used), configurations=list(confs),
               samples=['%s: %s' % (j[0], j[2][0]) for j in jobs][:6])
    return viol, cov, [
        'the harness passes operands and results through memory (harness/src/vlane.rs)',
        'operands are the boundary values of each type, paired in lanes, and pseudo-random bytes; a sample of them (by VERIF_SEED) where there are more than the cap']

def check(prop, t0):
    viol, cov, notes = explore(prop, t0)
    return finish(prop, viol, cov, t0, 'model_checking', notes)
