"""Shared machinery of the checks: building the harness, running TLC, judging traces."""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, '.build')
SPEC = os.path.join(ROOT, 'spec')
EVID = os.path.join(ROOT, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
JOBS = 8

# name -> (target cpu, checks that a release build leaves out are on)
CONFIGS = {
    'sse2': ('x86-64', True),
    'sse42': ('nehalem', True),
    'avx': ('sandybridge', True),
    'avx2': ('haswell', True),
    'sse2rel': ('x86-64', False),
    'avx2rel': ('haswell', False),
}

class ToolError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def cargo_env(cfg, extra=None):
    e = dict(os.environ)
    for k in ('LD_LIBRARY_PATH', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'FASTER_DEBUG_FILE'):
        e.pop(k, None)
    cpu, dbg = CONFIGS[cfg]
    e.update(RUSTUP_TOOLCHAIN='nightly-2020-07-01', CARGO_HOME=os.path.join(BUILD, 'cargo-home'),
             CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             RUSTFLAGS='-C target-cpu=' + cpu, CARGO_TARGET_DIR=os.path.join(BUILD, cfg + (extra or '')))
    if not dbg:
        e['RUSTFLAGS'] += ' -C debug-assertions=off -C overflow-checks=off'
    return e

def build(configs, bins, features=None, env=None, tag=''):
    """Build the harness against /repo's working tree, one target directory per configuration."""
    home = os.path.join(BUILD, 'cargo-home')
    os.makedirs(home, exist_ok=True)
    shutil.copy(os.path.join(ROOT, 'harness/cargo-home/config'), os.path.join(home, 'config'))
    suffix = ('-' + features if features else '') + tag

    def one(cfg):
        cmd = ['cargo', 'build', '--offline', '-j', '4', '--manifest-path', os.path.join(ROOT, 'harness/Cargo.toml')]
        for b in bins:
            cmd += ['--bin', b]
        if features:
            cmd += ['--features', features]
        r = subprocess.run(cmd, env=dict(cargo_env(cfg, suffix), **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError('build of %s failed:\n%s' % (cfg, r.stdout[-4000:]))
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, configs))
    return {c: os.path.join(BUILD, c + suffix, 'debug') for c in configs}

TLC_JAR = '/opt/veriftools/tla/tla2tools.jar'

def tlc(module, cfg, env, args=(), timeout=900, heap='3g'):
    """Run TLC on SPEC/module.tla; returns (exit code, lines)."""
    e = dict(os.environ)
    e.update({k: str(v) for k, v in env.items()})
    e['JDK_JAVA_OPTIONS'] = '-Xmx%s -Xss64m -XX:ParallelGCThreads=1' % heap
    meta = os.path.join(WORK, 'tlc-%d-%d' % (os.getpid(), tlc.n))
    tlc.n += 1
    os.makedirs(meta, exist_ok=True)
    cmd = ['tlc', '-workers', '1', '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.splitlines()
tlc.n = 0

def tlc_stats(lines):
    for l in lines:
        m = re.match(r'(\d+) states generated, (\d+) distinct states found', l)
        if m:
            return int(m.group(1)), int(m.group(2))
    for l in reversed(lines):
        m = re.match(r'Progress: (\d+) states checked', l) or re.match(r'.*?(\d+) states checked', l)
        if m:
            return int(m.group(1)), 0
    return 0, 0

def strings(lines):
    """The strings TLC printed with PrintT (TLC wraps long ones in neither way)."""
    return [l[1:-1] for l in lines if l.startswith('"') and l.endswith('"')]

WORK = None
def workdir(prop):
    global WORK
    WORK = os.path.join(BUILD, 'work-%s' % prop)
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    return WORK

def known(prop):
    """Entries 'finding: property=<id> key=<regex over the replayed case> <text>' of known-findings.txt."""
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out

def finish(prop, violations, coverage, t0, level, assumptions):
    """violations: list of dicts with 'case' (one line naming the failing case) and 'detail'."""
    os.makedirs(EVID, exist_ok=True)
    new, seen = [], {}
    kn = known(prop)
    for v in violations:
        for rx, text in kn:
            if rx.search(v['case']):
                seen[text] = seen.get(text, 0) + 1
                break
        else:
            new.append(v)
    for text in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    ev = dict(property=prop, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=level, coverage=coverage,
              assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(new))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        path = os.path.join(EVID, prop + '.replay.txt')
        with open(path, 'w') as f:
            f.write('# %d cases disagree with the specification; how to replay one: see DESIGN.md, "Replaying"\n' % len(new))
            # a few of each kind first
            kinds, rest = {}, []
            for v in new:
                k = ' '.join(v['case'].split(' ')[:3])
                kinds[k] = kinds.get(k, 0) + 1
                if kinds[k] > 3:
                    rest.append(v)
                else:
                    rest.insert(0, v)
            for v in rest[:60]:
                f.write('case: %s\n%s\n\n' % (v['case'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('first: ' + new[0]['case'])
        return 1
    return 0

def cleanup():
    if WORK:
        shutil.rmtree(WORK, ignore_errors=True)

def main(fn, prop):
    t0 = time.time()
    try:
        workdir(prop)
        rc = fn(prop, t0)
    except ToolError as e:
        log('ERROR:', e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    if os.environ.get('VERIF_KEEP') != '1':
        cleanup()
    sys.exit(rc)
