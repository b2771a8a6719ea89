"""C22: what the trace feature reports, judged by TraceLog."""
import json, os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import SEED, TIER, JOBS, ToolError, build, tlc, tlc_stats, strings, log, finish

# configuration -> name of the log file (None: the library's own name)
CONFS = {'sse2': None, 'avx2rel': 'elsewhere.log'} if TIER == 'quick' else {'sse2': None, 'avx2': 'elsewhere.log', 'avx2rel': None}
DEFAULT = 'faster-debug.txt'
# what each operation reports at least, per CPU, on the tree these checks were made for (VERIF_LEARN=1, VERIF_TIER=quick: write it anew)
KINDS = os.path.join(vlib.ROOT, 'spec', 'trace_kinds.json')
LEARN = os.environ.get('VERIF_LEARN') == '1'
SHAPE = re.compile(r'\((\S.*):(\d+)\)')

def size(ty):
    el, n = ty.split('x')
    return int(el[1:]) // 8 * int(n), int(n)

def programs(table, rng):
    """Commands for vtrace, and the events they stand for."""
    rc, lines = tlc('TraceGen.tla', 'TraceGen.cfg', dict(LENGTH=5 if TIER == 'thorough' else 4))
    progs = [s.split('|')[1:] for s in strings(lines) if s.startswith('P|')]
    if rc != 0 or not progs:
        raise ToolError('TraceGen failed:\n' + '\n'.join(lines[-20:]))
    return progs, tlc_stats(lines)

def commands(progs, ops, rng):
    cmds, events = [], []
    n = len(ops)
    def emit(cmd, ev):
        k = len(events)
        cmds.append(cmd.replace('%K', str(k)))
        events.append(ev)
    for j in range(n):
        # every operation on a thread of its own; operation numbers start at 1 for TLC
        emit('run %%K l%d %d' % (j, j + 1), dict(c='learn', o=j + 1))
        cmds.append('end %d l%d' % (10 ** 7 + j, j))
    order = list(range(1, n + 1))
    rng.shuffle(order)
    pos = 0
    def finish_threads(p, live):
        for t in sorted(live):
            emit('end %%K p%dt%d' % (p, t), dict(c='end', t=t))
    for p, prog in enumerate(progs):
        if pos + 3 > n:
            rng.shuffle(order)
            pos = 0
        slot = order[pos:pos + 3]
        pos += 3
        emit('mark %K', dict(c='boot'))
        live = set()
        for c in prog:
            a = int(c[1])
            if c[0] == 'r':
                o = slot[int(c[2]) - 1]
                emit('run %%K p%dt%d %d' % (p, a, o), dict(c='run', t=a, o=o)); live.add(a)
            elif c[0] == 'e':
                emit('end %%K p%dt%d' % (p, a), dict(c='end', t=a)); live.discard(a)
            else:
                ts = list(range(1, a + 1)); os_ = slot[:int(c[2])]
                emit('conc %%K %s %s' % (','.join('p%dt%d' % (p, t) for t in ts), ','.join(map(str, os_))), dict(c='conc', ts=ts, os=os_))
                live |= set(ts)
        finish_threads(p, live)
    # long histories: everything on one thread, again, on another, and on many at once
    p = len(progs)
    emit('mark %K', dict(c='boot'))
    for t, seq in ((1, order), (1, order[::-1]), (2, sorted(order)), (1, sorted(order)[::7])):
        for o in seq:
            emit('run %%K p%dt%d %d' % (p, t, o), dict(c='run', t=t, o=o))
    allops = sorted(order)
    for ts in ([1, 2, 3], list(range(3, 11)), list(range(11, 19))):
        emit('conc %%K %s %s' % (','.join('p%dt%d' % (p, t) for t in ts), ','.join(map(str, allops))), dict(c='conc', ts=ts, os=allops))
    finish_threads(p, range(1, 19))
    return cmds, events

def split(data):
    """Text between marks: list of (lines, hash), in order of the marks; learn-phase ends are dropped."""
    out, cur = {}, []
    for l in data.decode('utf-8', 'replace').split('\n'):
        m = re.fullmatch(r'@ (\d+) (\d+)', l)
        if m:
            out[int(m.group(1))] = (cur, m.group(2))
            cur = []
        else:
            cur.append(l)
    return out, [x for x in cur if x]

def operand(rng, ty, b, top):
    """No NaNs: which of two of them an operation returns is up to the compiler."""
    x = bytearray(rng.randrange(top) for _ in range(b))
    if ty[0] == 'f':
        e = int(ty[1:3]) // 8
        for i in range(e - 1, b, e):
            if x[i] & 0x7f == 0x7f:
                x[i] &= 0xbf
    return bytes(x)

def judge(job):
    cfg, traced, plain, progs, table = job
    rng = random.Random('C22/%s/%d' % (cfg, SEED))
    ops = []
    for op, ty in table:
        b, n = size(ty)
        for top in (2, 256):
            # lanes which do not exist are no operands of unchecked operations
            k = rng.randrange(n if op in ('uextract', 'ureplace') else n + 1)
            ops.append('%s %s %d %s' % (op, ty, k, ' '.join(operand(rng, ty, b, top).hex() for _ in range(4))))
    cmds, events = commands(progs, ops, rng)
    text = ''.join('op %d %s\n' % (j + 1, o) for j, o in enumerate(ops)) + ''.join(c + '\n' for c in cmds)
    name = CONFS[cfg] or DEFAULT
    got = {}
    for kind, exe in (('traced', traced), ('plain', plain)):
        d = os.path.join(vlib.WORK, cfg + kind)
        os.makedirs(d)
        with open(os.path.join(d, 'out'), 'wb') as f:
            q = subprocess.run([exe, name], input=text.encode(), stdout=f, stderr=subprocess.PIPE, cwd=d)
        if q.returncode != 0:
            return [dict(case='%s: vtrace' % cfg, detail='the process ended with %d: %s' % (q.returncode, q.stderr.decode('utf-8', 'replace')[-2000:]))], (0, 0, 0)
        got[kind] = (split(open(os.path.join(d, 'out'), 'rb').read()), split(open(os.path.join(d, name), 'rb').read()),
                     sorted(set(os.listdir(d)) - {'out', name}))
    (out, rest1), (lg, rest2), stray = got['traced']
    (base, _), _, _ = got['plain']
    ids, texts, junk = {}, [], []
    def number(ls):
        r = []
        for l in ls:
            if l not in ids:
                m = SHAPE.search(l)
                ok = bool(m) and ('SOFTWARE' in l) != ('HARDWARE' in l)
                if ok:
                    f = m.group(1) if os.path.isabs(m.group(1)) else os.path.join('/repo', m.group(1))
                    ok = os.path.isfile(f) and 1 <= int(m.group(2)) <= len(open(f, errors='replace').read().split('\n'))
                if not ok:
                    junk.append(l)
                ids[l] = len(ids) + 1
                texts.append(l)
            r.append(ids[l])
        return r
    path = os.path.join(vlib.WORK, cfg + '.ndjson')
    cpu = cfg.replace('rel', '')
    with open(KINDS) as f:
        kinds = json.load(f)
    if LEARN:
        kinds[cpu] = {}
    rows = []
    for k, e in enumerate(events):
        if k not in base:
            raise ToolError('command %d left no mark' % k)
        if k not in out or k not in lg:
            return [dict(case='%s: command %d: %s' % (cfg, k, json.dumps(e)[:200]),
                         detail='  what the harness wrote after it to %s is gone' % ('standard output' if k not in out else 'the log'))], (0, 0, 0)
        if e['c'] == 'learn':
            # which kinds of report there are, and which must not be missing
            name_ = ' '.join(ops[e['o'] - 1].split()[:2])
            h, w = (any(x in l for l in out[k][0]) for x in ('HARDWARE', 'SOFTWARE'))
            if LEARN:
                kinds[cpu][name_] = 'H' * h + 'S' * w
            want = kinds[cpu].get(name_, '')
            e = dict(e, hard=h, soft=w, wanthard='H' in want, wantsoft='S' in want)
        rows.append(dict(e, out=number(out[k][0]), log=number(lg[k][0]), same=out[k][1] == base[k][1]))
    if LEARN:
        with open(KINDS, 'w') as f:
            f.write('{\n' + ',\n'.join('"%s": {\n%s\n}' % (c, ',\n'.join('"%s": "%s"' % x for x in sorted(t.items()) if x[1])) for c, t in sorted(kinds.items())) + '\n}\n')
    number(rest1 + rest2)
    rows.append(dict(c='sum', hard=sum('HARDWARE' in t for t in texts), soft=sum('SOFTWARE' in t for t in texts), junk=len(junk),
                     stray=len(stray) + len(rest1) + len(rest2) + sum(len(v[0]) for k, v in list(out.items()) + list(lg.items()) if k >= 10 ** 7)))
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')
    rc, lines = tlc('TraceCheck.tla', 'TraceCheck.cfg', dict(TRACE=path))
    res, viol = None, []
    for s in strings(lines):
        f = s.split('|')
        if f[0] == 'BAD':
            i = int(f[1]) - 1
            r = rows[i]
            d = dict((k, v) for k, v in r.items() if k not in ('out', 'log'))
            def show(q):
                return '\n'.join('    ' + texts[x - 1] for x in q[:10])
            about = ''
            if 'o' in r:
                about = '\n  operation %d: %s' % (r['o'], ops[r['o'] - 1][:100])
            if r['c'] == 'sum':
                about = '\n  lines which are no report: %s\n  files beside the log: %s' % (junk[:5], stray)
            prog = []
            j = i
            while j >= 0 and rows[j]['c'] not in ('boot', 'learn') and len(prog) < 8:
                prog.append(cmds_of(rows[j])); j -= 1
            viol.append(dict(case='%s: command %d: %s' % (cfg, i, json.dumps(d)[:200]),
                             detail='  standard output:\n%s\n  log:\n%s%s\n  last commands of the program: %s' % (show(r.get('out', [])), show(r.get('log', [])), about, '; '.join(prog[::-1]))))
        elif f[0] == 'RESULT':
            res = f
    if rc != 0 or res is None:
        raise ToolError('TLC failed on a trace:\n' + '\n'.join(lines[-30:]))
    return viol, (len(rows), len(texts), tlc_stats(lines)[1])

def cmds_of(r):
    return r['c'] + ' ' + ' '.join(str(r[k]) for k in ('t', 'o', 'ts') if k in r)

def check(prop, t0):
    rc, lines = tlc('TraceLogMC.tla', 'TraceLogMC.cfg', {})
    if rc != 0:
        raise ToolError('the specification TraceLog fails its own invariants:\n' + '\n'.join(lines[-30:]))
    mc = tlc_stats(lines)
    def with_trace(cfg):
        name = CONFS[cfg]
        return build([cfg], ['vtrace'], 'trace', {'FASTER_DEBUG_FILE': name} if name else {}, '-' + name if name else '')
    traced = {}
    with ThreadPoolExecutor(4) as ex:
        building = ex.submit(build, list(CONFS), ['vtrace'])
        for d in ex.map(with_trace, CONFS):
            traced.update(d)
        plain = building.result()
    log('built', round(time.time() - t0, 1))
    table = [tuple(l.split()) for l in subprocess.run([os.path.join(plain['sse2'], 'vtrace'), 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    progs, gen = programs(table, None)
    jobs = [(c, os.path.join(traced[c], 'vtrace'), os.path.join(plain[c], 'vtrace'), progs, table) for c in CONFS]
    with ThreadPoolExecutor(1 if LEARN else JOBS) as ex:
        res = list(ex.map(judge, jobs))
    viol = [v for r in res for v in r[0]]
    tot = [sum(r[1][k] for r in res) for k in range(3)]
    log('judged', tot, round(time.time() - t0, 1))
    cov = dict(states=mc[1] + gen[1], transitions=mc[0] + gen[0], traces_validated_against_impl=len(progs) * len(jobs), commands_checked=tot[0],
               sites_reported=tot[1], operations_by_type=len(table), trace_states=tot[2], configurations=list(CONFS),
               samples=['|'.join(p) for p in progs[:6]])
    return finish(prop, viol, cov, t0, 'model_checking', [
        'a call site is told from others by the text it reports',
        'the sites an operation executes are those which it reports on a thread of its own; that every site is reported there is not established otherwise',
        'the interleavings of threads which run together are those the scheduler produced'])
