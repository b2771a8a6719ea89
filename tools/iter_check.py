"""Iterator properties: programs generated by TLC from spec/IterGen.tla, run on the
real code, and their logs validated by TLC against spec/IterTrace.tla."""
import json, os, random, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import *

SIZE = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}
UNSIGNED = {1: 'u8', 2: 'u16', 4: 'u32', 8: 'u64'}
ZIPS = ['u8.i8', 'i16.u16', 'f32.u32', 'i32.f32', 'u64.f64', 'i64.u64']
WIDEZIPS = ['u8.i8', 'f32.u32', 'u64.f64']      # those compiled for more than four iterators
MIXED = ['u8.u32', 'u32.u8', 'u32.f64', 'f64.u32']
CONFS = ['sse2', 'avx2rel'] if TIER == 'quick' else ['sse2', 'avx2', 'avx2rel']
BINS = ['viter_a', 'viter_b', 'viter_c', 'viter_d']
TYPE_BIN = {'u8': 'a', 'i8': 'a', 'u16': 'b', 'i16': 'b', 'u64': 'b', 'u32': 'c', 'i32': 'c', 'f32': 'c', 'i64': 'd', 'f64': 'd'}
PAIR_BIN = {'u8.i8': 'a', 'u8.u32': 'a', 'i16.u16': 'b', 'u64.f64': 'b', 'f32.u32': 'c', 'i32.f32': 'c', 'i64.u64': 'd', 'u32.u8': 'd',
            'u32.f64': 'd', 'f64.u32': 'd'}
MIX = ['u8', 'i16', 'f32', 'u64']
DESTRIDE = ['u8', 'i8', 'u16', 'i16', 'u32', 'i32']

# property -> depth (quick, thorough)
DEPTH = {'C01': (3, 5), 'C02': (2, 4), 'C03': (2, 3), 'C04': (2, 3), 'C05': (2, 4), 'C06': (2, 3), 'C07': (2, 3), 'C08': (2, 3),
         'C09': (3, 4), 'C10': (2, 4), 'C11': (2, 4), 'C12': (1, 2), 'C23': (3, 5)}
# depth of the comparison with spec/IterAlgo.tla
ALGO = {'C01': (3, 3), 'C02': (2, 2), 'C03': (1, 2), 'C04': (1, 2), 'C05': (2, 3), 'C06': (2, 2), 'C07': (1, 2), 'C08': (1, 2), 'C09': (2, 3),
        'C10': (1, 2), 'C11': (1, 2), 'C23': (2, 3)}
# at most this many programs per configuration and width
CAP = {'quick': 7000, 'thorough': 150000}
WALKS = {'quick': 400, 'thorough': 20000}

def widths(dirs):
    out = {}
    for c, d in dirs.items():
        r = subprocess.run([os.path.join(d, 'viter_a'), 'info'], stdout=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise ToolError('viter info failed')
        out[c] = {l.split()[0]: int(l.split()[1]) for l in r.stdout.splitlines()}
    return out

def generate(prop, ws):
    """TLC: programs and statistics per vector width."""
    depth = DEPTH[prop][1 if TIER == 'thorough' else 0]
    def one(job):
        w, walk = job
        env = dict(PLAN=prop, W=w, TIER=TIER, DEPTH=depth, WALK=7 if TIER == 'quick' else 12, HUGE='no' if walk else 'yes')
        if walk == 'algo':
            # the algorithms of the implementation, on the same configurations
            rc, lines = tlc('IterAlgo.tla', 'IterAlgo.cfg', dict(env, DEPTH=ALGO[prop][1 if TIER == 'thorough' else 0], TIER='quick', HUGE='no'), timeout=800)
        elif walk:
            n = WALKS['thorough' if TIER == 'thorough' else 'quick']
            rc, lines = tlc('IterGen.tla', 'IterWalk.cfg', env, ['-simulate', 'num=%d' % n, '-depth', '14', '-seed', str(SEED)], timeout=800)
        else:
            rc, lines = tlc('IterGen.tla', 'IterGen.cfg', env, timeout=800)
        if rc != 0:
            raise ToolError('TLC rejects the specification (W=%d):\n%s' % (w, '\n'.join([l for l in lines if not l.startswith('"P|')][-40:])))
        return w, walk, sorted({l[2:] for l in strings(lines) if l.startswith('P|')}), tlc_stats(lines)
    algo = [] if prop not in ALGO else [(2, 'algo')] if TIER == 'quick' else [(w, 'algo') for w in (2, 4, 8)]
    jobs = [(w, False) for w in ws] + algo + ([(w, True) for w in ws] if prop != 'C12' else [])
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    progs = {}
    states = trans = 0
    astates = 0
    for w, walk, ps, (g, d) in res:
        if walk == 'algo':
            astates += d
            continue
        groups = progs.setdefault(w, [{}, {}])[1 if walk else 0]
        for p in ps:
            head, ops = p.split('|', 1)
            groups.setdefault(head, []).append(ops)
        if not walk:
            states += d
            trans += g
    return progs, states, trans, astates

def bindings(head, types, w):
    """Concrete type/backing choices for the placeholders of a header."""
    t = [x for x in types if types[x] == w]
    ph = [x for x in head.split() if x.startswith('%')]
    out = [head]
    for p in ph:
        if p == '%T': ch = t
        elif p == '%H': ch = [t[len(head) % len(t)]] if t else []
        elif p == '%B': ch = ['vec', 'ref', 'mut']
        elif p == '%S': ch = ['ref', 'vec', 'iter']
        elif p == '%C': ch = ['vec', 'ref', 'mut', 'iter', 'packed']
        elif p == '%X': ch = [x for x in t if x in MIX]
        elif p == '%D': ch = [x for x in t if x in DESTRIDE]
        elif p == '%Z': ch = [z for z in (ZIPS if int(head.split()[2]) <= 4 else WIDEZIPS) if z.split('.')[0] in t]
        elif p == '%Y': ch = [z for z in ZIPS if z.split('.')[0] in t][:1]
        elif p == '%M': ch = [z for z in MIXED if z.split('.')[0] in t]
        else:
            x = UNSIGNED[int(p[1:])]
            ch = [x] if x in t else []
        out = [o.replace(p, c, 1) for o in out for c in ch]
    return out

def bin_of(head):
    h = head.split()
    if h[0] != 'zip':
        return 'viter_' + TYPE_BIN[h[1]]
    if int(h[2]) > 4 and h[1] == 'f32.u32':
        return 'viter_d'
    return 'viter_' + PAIR_BIN[h[1]]

STORES = ('store', 'stores', 'ustore', 'ustores')
def fits(head, ops):
    """Not every container takes stores or lane calls."""
    h = head.split()
    if h[0] != 'arr':
        return True
    names = [o.split()[0] for o in ops]
    if any(n in STORES for n in names) and h[2] not in ('mut', 'packed'):
        return False
    if any(n in ('ext', 'uext', 'rep', 'urep') for n in names) and h[2] != 'packed':
        return False
    if h[2] == 'packed' and any(n in ('loads', 'uloads', 'stores', 'ustores') for n in names):
        return False
    return True

def concrete(prop, progs, types, rng):
    """Programs for one configuration: [(head, [call, ...])].  Where there are more than the cap,
    a sample which gives every head an equal share."""
    out = []
    cap = CAP['thorough' if TIER == 'thorough' else 'quick']
    for w in sorted(set(types.values())):
        for groups in progs.get(w, []):
            heads = {h: bindings(h, types, w) for h in groups}
            todo = sorted((h for h in groups if heads[h]), key=lambda h: (len(groups[h]), h))
            whole = sum(len(heads[h]) * len(groups[h]) for h in todo) <= cap
            left = cap
            for k, h in enumerate(todo):
                os_ = groups[h]
                # water-filling: small groups whole, the others an equal part
                q = left // (len(todo) - k)
                if not whole and len(os_) > q:
                    os_ = rng.sample(os_, q)
                left -= len(os_)
                for ops in os_:
                    ops = ops.split('|')
                    bs = [b for b in heads[h] if fits(b, ops)]
                    if bs and not whole:
                        bs = [rng.choice(bs)]
                    out += [(b, ops) for b in bs]
    return out

HANGS = 97      # how the harness's watchdog exits
def run_shard(job):
    """Run the programs of one shard; a crash of the harness is an observation too."""
    binary, progs, path = job
    todo = list(range(len(progs)))
    crashes = []
    with open(path, 'wb') as out:
        for attempt in range(6):
            inp = ''.join('%d %s | %s\n' % (i, progs[i][0], ' | '.join(progs[i][1])) for i in todo)
            hung = False
            try:
                r = subprocess.run([binary, 'run'], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
                data, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired as e:
                data, rc, hung = e.stdout or b'', -1, True
            if rc == 0:
                out.write(data)
                break
            # whole lines of whole programs only
            lines = data.split(b'\n')[:-1]
            last = None
            if lines:
                last = json.loads(lines[-1])['i']
            pos = todo.index(last) + 1 if last is not None else 0
            # the output is buffered: run the rest one by one until the culprit is found
            keep = [l for l in lines if json.loads(l)['i'] != last]
            out.write(b''.join(l + b'\n' for l in keep))
            start = pos - 1 if last is not None else 0
            culprit = None
            for k in range(start, len(todo)):
                i = todo[k]
                one = '%d %s | %s\n' % (i, progs[i][0], ' | '.join(progs[i][1]))
                try:
                    q = subprocess.run([binary, 'run'], input=one.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                except subprocess.TimeoutExpired:
                    culprit, hung = (k, 'does not return'), True
                    break
                if q.returncode == HANGS:
                    culprit, hung = (k, 'does not return'), True
                    break
                if q.returncode != 0:
                    culprit = (k, 'exit %d: %s' % (q.returncode, q.stderr[-200:].decode(errors='replace')))
                    break
                out.write(q.stdout)
            if culprit is None:
                if not hung and rc not in (-9, HANGS):      # not by one program alone
                    crashes.append((todo[min(pos, len(todo) - 1)], 'exit %d, in one process with the programs before it: %s' % (rc, r.stderr[-200:].decode(errors='replace'))))
                break
            crashes.append((todo[culprit[0]], culprit[1]))
            if hung:
                break       # waiting for more of them takes long, and one is enough
            todo = todo[culprit[0] + 1:]
    return crashes

def validate(job):
    path, scope = job
    if os.path.getsize(path) == 0:
        return [], (0, 0, 0, 0), (0, 0)
    rc, lines = tlc('IterTrace.tla', 'IterTrace.cfg', dict(TRACE=path, SCOPE=scope), timeout=850)
    res = None
    bad = []
    for s in strings(lines):
        f = s.split('|', 2)
        if f[0] == 'BAD':
            bad.append((int(f[1]), f[2]))
        elif f[0] == 'RESULT':
            res = tuple(int(x) for x in s.split('|')[1:])
    if rc != 0 or res is None:
        raise ToolError('TLC failed on a trace:\n' + '\n'.join(lines[-30:]))
    return bad, res, tlc_stats(lines)

def judge(prop, job):
    """Run and validate one shard; returns (violations, counters)."""
    cfgname, binary, progs, path = job
    shards, paths, nsh = [progs], [path], 1
    viol = []
    cnt = dict(calls=0, programs=0, skipped=0, events=0)
    for i in range(nsh):
        for idx, why in run_shard((binary, shards[i], paths[i])):
            h, ops = shards[i][idx]
            viol.append(dict(case='%s: %s | %s' % (cfgname, h, ' | '.join(ops)), detail='the process died: ' + why))
        bad, (nb, calls, np, sk), (g, d) = validate((paths[i], prop))
        cnt['calls'] += calls; cnt['programs'] += np; cnt['skipped'] += sk; cnt['events'] += d
        if bad:
            text = open(paths[i]).read().splitlines()
            for ln, exp in bad:
                e = json.loads(text[ln - 1])
                h, ops = shards[i][e['i']]
                a = ln - 1
                while json.loads(text[a])['op'] not in ('init', 'buildpanic'):
                    a -= 1
                k = ln - 1 - a
                viol.append(dict(case='%s: %s | %s' % (cfgname, h, ' | '.join(ops[:k])),
                                 detail='logged:\n  ' + '\n  '.join(text[a:ln]) + '\nallowed there: ' + (exp or '(not printed)')))
        if os.environ.get('VERIF_KEEP') != '1':
            os.remove(paths[i])
    return viol, cnt

def explore(prop, t0):
    """Returns (violations, coverage, assumptions)."""
    with ThreadPoolExecutor(1) as ex:
        building = ex.submit(build, CONFS, BINS)
        ws = [2, 4, 8, 16, 32]
        progs, states, trans, astates = generate(prop, ws)
        log('specification explored', round(time.time() - t0, 1))
        dirs = building.result()
    log('built', round(time.time() - t0, 1))
    wd = widths(dirs)
    if not {w for t in wd.values() for w in t.values()} <= set(ws):
        raise ToolError('vector widths %s' % wd)
    log('generated', {w: [sum(map(len, x.values())) for x in p] for w, p in progs.items()}, round(time.time() - t0, 1))
    jobs = []
    for c in CONFS:
        rng = random.Random('%s/%s/%d' % (prop, c, SEED))
        groups = {}
        for p in concrete(prop, progs, wd[c], rng):
            groups.setdefault(bin_of(p[0]), []).append(p)
        for b, ps in sorted(groups.items()):
            n = max(1, len(ps) // 6000)
            jobs += [(c, os.path.join(dirs[c], b), ps[i::n], os.path.join(vlib.WORK, '%s-%s-%d.ndjson' % (c, b, i))) for i in range(n)]
    jobs.sort(key=lambda j: -len(j[2]))
    log('chosen', sum(len(j[2]) for j in jobs), round(time.time() - t0, 1))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: judge(prop, j), jobs))
    viol = [v for r in res for v in r[0]]
    tot = {k: sum(r[1][k] for r in res) for k in res[0][1]}
    log('judged', tot, round(time.time() - t0, 1))
    if tot['calls'] == 0:
        raise ToolError('no call was checked')
    sample = ['%s: %s | %s' % (j[0], j[2][0][0], ' | '.join(j[2][0][1])) for j in jobs][:6]
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=tot['programs'], calls_checked=tot['calls'],
               trace_states=tot['events'], algorithm_states=astates, calls_skipped=tot['skipped'], programs_generated=sum(len(y) for p in progs.values() for x in p for y in x.values()),
               configurations=CONFS, vector_widths=ws, depth=DEPTH[prop][1 if TIER == 'thorough' else 0], samples=sample)
    return viol, cov, [
        'the harness logs what the public calls return (harness/src/viter_body.rs)',
        'lengths up to 17 vectors and around 1024, 4096 and 65536 elements (every length up to 3 vectors only for narrow ones), values distinct up to 95 elements; executions sampled from TLC-generated programs by VERIF_SEED where the set exceeds the cap']

def check(prop, t0):
    viol, cov, notes = explore(prop, t0)
    return finish(prop, viol, cov, t0, 'model_checking', notes)
