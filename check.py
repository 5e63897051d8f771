#!/usr/bin/env python3
"""Driver of the checks: check.py <property> [--tier quick|thorough] | --replay FILE | --setup

Builds what the property's phases need from /repo's current tree, runs the phases under a watchdog,
judges their outcomes, writes evidence/<property>.json.

exit 0  the property held on everything explored
exit 1  violated (line VIOLATION property=<id> replay=<path>)
exit 2  no verdict (build failed, timeout, out of memory, harness error, nothing observed)
"""
import glob, json, os, re, resource, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
EVID = os.path.join(HERE, 'evidence')
TARGET = os.path.join(HERE, 'target')
TOOLCHAIN = '1.85.0'
from plan import PLAN, phases_of  # noqa: E402
import gen  # noqa: E402
import refuse  # noqa: E402


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


def base_env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTC', 'MIRIFLAGS'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', HOME=e.get('HOME', '/root'), RUST_BACKTRACE='0')
    return e


def crate_dir(crate):
    if crate.startswith('gen-'):
        return os.path.join(TARGET, 'gen', crate[4:])
    return os.path.join(HERE, 'harness', crate)


def run(cmd, env, cwd, timeout, cpus=None, mem_gb=None):
    """-> (rc, output, timed_out); kills the whole process group at the timeout"""
    if cpus:
        cmd = ['taskset', '-c', '0-%d' % (cpus - 1)] + cmd if cpus > 1 else ['taskset', '-c', '0'] + cmd
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return p.returncode, out.decode('utf8', 'replace'), True


def lockfile(d):
    """every harness crate resolves to the versions /repo pins"""
    src, dst = '/repo/Cargo.lock', os.path.join(d, 'Cargo.lock')
    extra = os.path.join(d, 'Cargo.lock.pinned')
    data = open(extra if os.path.exists(extra) else src).read()
    if not os.path.exists(dst):
        open(dst, 'w').write(data)


BUILT = set()


def build(ph):
    """-> path of the executable"""
    kind, crate, b, prof = ph['kind'], ph['crate'], ph['bin'], ph.get('profile', 'release')
    d = crate_dir(crate)
    lockfile(d)
    env = base_env()
    tdir = os.path.join(TARGET, crate if kind == 'run' else crate + '-' + kind)
    env['CARGO_TARGET_DIR'] = tdir
    env['RUSTUP_TOOLCHAIN'] = TOOLCHAIN if kind == 'run' else 'nightly'
    key = (kind, crate, b, prof)
    sub = prof
    if kind == 'run':
        cmd = ['cargo', 'build', '--offline', '--profile', prof, '--bin', b]
        exe = os.path.join(tdir, sub, b)
    elif kind in ('tsan', 'asan'):
        env['RUSTFLAGS'] = '-Zsanitizer=%s %s' % ({'tsan': 'thread', 'asan': 'address'}[kind], ph.get('rustflags', ''))
        cmd = ['cargo', 'build', '--offline', '--profile', prof, '--bin', b, '--target', 'x86_64-unknown-linux-gnu']
        if kind == 'tsan':
            cmd.append('-Zbuild-std')
        exe = os.path.join(tdir, 'x86_64-unknown-linux-gnu', sub, b)
    elif kind == 'miri':
        return None
    else:
        raise AssertionError(kind)
    if key not in BUILT:
        t = time.time()
        rc, out, to = run(cmd, env, d, ph.get('build_timeout', 600))
        if to:
            raise Inconclusive('build of %s timed out' % b)
        if rc != 0:
            if ph.get('compile_is_verdict'):
                # only if the library itself still builds is the rejected program the library's fault
                lib = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, 'common'))
                lr, lo, lt = run(['cargo', 'build', '--offline', '--release'], lib, crate_dir('common'), 600)
                if lr == 0 and re.search(r'^error', out, re.M) and not re.search(r'could not compile `(measured|vh|dsup)|no space left|signal: 9|linker', out):
                    errs = '\n'.join(out.splitlines()[-60:])
                    raise Violation('a valid program using the derives does not compile:\n' + errs,
                                    {'cmd': cmd, 'cwd': d, 'output': out[-20000:]})
            sys.stdout.write(out[-6000:] + '\n')
            raise Inconclusive('build of %s failed' % b)
        BUILT.add(key)
        print('[build] %s/%s (%s) %.1fs' % (crate, b, kind, time.time() - t))
    return exe


SAN = re.compile(r'(ThreadSanitizer|AddressSanitizer|LeakSanitizer|MemorySanitizer)')
MIRI = re.compile(r'error: (Undefined Behavior|the evaluated program deadlocked|memory leaked|unsupported operation|abnormal termination|Data race|.*[Dd]eadlock).*')


def merge(parts):
    """the fragments of one phase (Miri writes one per interpreted seed)"""
    if len(parts) < 2:
        return parts[0] if parts else None
    out = dict(parts[0], samples=[], counters={}, violation=None, evaluations=0)
    hashes = set()
    for p in parts:
        out['evaluations'] += p['evaluations']
        hashes.update(p.get('hashes', []))
        out['samples'] += p['samples'][:1]
        out['violation'] = out['violation'] or p['violation']
        for k, v in p['counters'].items():
            c = out['counters'].get(k, 0)
            out['counters'][k] = max(c, v) if k.startswith('max ') else c + v
    out['distinct_nontrivial'] = len(hashes)
    out['counters']['interpreted seeds'] = len(parts)
    return out


LIFETIME = {'E0277', 'E0499', 'E0502', 'E0503', 'E0505', 'E0506', 'E0515', 'E0521', 'E0597', 'E0621', 'E0716', 'E0373', 'E0713'}


def exploits(prop, ph, tier, seed):
    """safe programs that would be unsound: the compiler refuses them; one it accepts is interpreted"""
    t = time.time()
    d = crate_dir(ph['crate'])
    lockfile(d)
    env = base_env()
    env.update(CARGO_TARGET_DIR=os.path.join(TARGET, ph['crate']), RUSTUP_TOOLCHAIN=TOOLCHAIN)
    names = sorted(f[:-3] for f in os.listdir(os.path.join(d, 'src', 'bin')) if f.endswith('.rs'))
    rc, out, to = run(['cargo', 'check', '--offline', '--bins', '--keep-going', '--message-format=json'], env, d, 300)
    if to:
        raise Inconclusive('checking the exploit programs timed out')
    codes, accepted = {}, []
    for l in out.splitlines():
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            if m['target']['kind'] != ['bin']:
                raise Inconclusive('the library does not build: ' + m['message']['message'])
            codes.setdefault(m['target']['name'], set()).add((m['message'].get('code') or {}).get('code'))
        if m.get('reason') == 'compiler-artifact' and m['target']['kind'] == ['bin']:
            accepted.append(m['target']['name'])
    refused = [n for n in names if codes.get(n, set()) & LIFETIME]
    harmless = []
    for n in accepted:
        env = base_env()
        env.update(RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=os.path.join(TARGET, ph['crate'] + '-miri'),
                   MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-many-seeds=0..8')
        cmd = ['cargo', 'miri', 'run', '--offline', '--target', 'x86_64-unknown-freebsd', '--bin', n, '--quiet']
        rc, out, to = run(cmd, env, d, 300)
        m = MIRI.search(out)
        if m and ('Undefined Behavior' in m.group(0) or 'Data race' in m.group(0)):
            raise Violation('the safe program exploit/src/bin/%s.rs compiles and has undefined behaviour: %s' % (n, m.group(0)),
                            {'property': prop, 'phase': ph, 'phase_index': 0, 'tier': tier, 'seed': seed, 'cmd': cmd, 'output': out[-20000:]})
        harmless.append(n)
    if len(refused) + len(harmless) < len(names) // 2:
        print(out[-2000:])
        raise Inconclusive('the exploit programs are refused for reasons of their own: %s' % codes)
    print('[held] exploits: %d refused, %d accepted without harm, of %d, %.1fs' % (len(refused), len(harmless), len(names), time.time() - t))
    return {'evaluations': len(names), 'distinct_nontrivial': len(refused) + len(harmless), 'phase': 'exploits', 'wall_s': round(time.time() - t, 2),
            'rule': 'safe programs that would be unsound (references outliving their owner, unsynchronised sharing): refused by the compiler, or interpreted if accepted',
            'samples': ['%s: refused with %s' % (n, sorted(c for c in codes[n] if c)) for n in refused[:3]],
            'counters': {'unsound programs refused by the compiler': len(refused), 'programs accepted without undefined behaviour': len(harmless)}}


def refusals(prop, idx, ph, tier, seed):
    """generated items with one offence each, and the same items without it: the compiler's diagnostics are the events"""
    t = time.time()
    d = os.path.join(TARGET, 'gen', 'refuse')
    made = refuse.generate(d, '%s %s' % (seed, tier), ph['early'], ph['late'], ph['typed'])
    lockfile(d)
    env = base_env()
    env.update(CARGO_TARGET_DIR=os.path.join(TARGET, 'gen-refuse'), RUSTUP_TOOLCHAIN=TOOLCHAIN)
    cmd = ['cargo', 'check', '--offline', '--bins', '--keep-going', '--message-format=json']
    rc, out, to = run(cmd, env, d, ph.get('timeout', 600))
    if to:
        raise Inconclusive('checking the generated items timed out')
    try:
        bad, counters = refuse.judge(made, out)
    except refuse.NoVerdict as e:
        print(out[-2000:])
        raise Inconclusive(str(e))
    n = sum(len(made[b][0]) for b in refuse.BINS)
    kinds = sorted({w for b in refuse.BINS for w, _ in made[b][0]})
    if bad:
        raise Violation('%d of %d items: %s' % (len(bad), n, bad[0]),
                        {'property': prop, 'phase': ph, 'phase_index': idx, 'tier': tier, 'seed': seed - 7919 * idx, 'cmd': cmd, 'cwd': d, 'items': bad[:20]})
    print('[held] derives: %d items, %d offences, %.1fs' % (n, len(kinds), time.time() - t))
    return {'evaluations': n, 'distinct_nontrivial': len({s for b in refuse.BINS for _, s in made[b][0]}), 'phase': 'items with and without an offence',
            'wall_s': round(time.time() - t, 2), 'rule': 'a distinct item given to a derive: with an offence it is refused where the offence is, without it accepted',
            'samples': [made['refused'][0][i][1] for i in (0, 1)], 'counters': dict(counters, **{'distinct offences': len(kinds)})}


def run_phase(prop, idx, ph, tier, seed):
    if ph['kind'] == 'exploit':
        return exploits(prop, ph, tier, seed)
    if ph['kind'] == 'refuse':
        return refusals(prop, idx, ph, tier, seed + 7919 * idx)
    exe = build(ph)
    env = base_env()
    frag = os.path.join(EVID, '.%s.%d.json' % (prop, idx))
    for f in glob.glob(frag + '*'):
        os.remove(f)
    env.update(VERIF_SEED=str(seed + 7919 * idx), VERIF_TIER=tier, VH_OUT=frag, VH_BUDGET_MS=str(ph.get('budget_ms', 5000)),
               VH_PHASE=ph.get('phase', ''))
    env.update(ph.get('env', {}))
    kind = ph['kind']
    cwd = crate_dir(ph['crate'])
    if kind == 'run':
        cmd = [exe]
    elif kind in ('tsan', 'asan'):
        cmd = [exe]
        env['VH_SAN'] = '1'
        env['TSAN_OPTIONS'] = 'halt_on_error=1 exitcode=66 history_size=4'
        env['ASAN_OPTIONS'] = 'exitcode=66 detect_leaks=1 abort_on_error=0'
    else:
        # FreeBSD: there parking_lot parks threads in a way the interpreter accepts (its Linux futex call
        # passes `&AtomicI32` to syscall(2), which this Miri rejects by type)
        flags = '-Zmiri-disable-isolation -Zmiri-permissive-provenance ' + ph.get('miriflags', '')
        if ph.get('seeds'):
            flags += ' -Zmiri-many-seeds=%d..%d' % (seed * 1000, seed * 1000 + ph['seeds'])
        env.update(RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=os.path.join(TARGET, ph['crate'] + '-miri'), MIRIFLAGS=flags)
        cmd = ['cargo', 'miri', 'run', '--offline', '--target', ph.get('target', 'x86_64-unknown-freebsd'), '--bin', ph['bin'], '--quiet']
    t = time.time()
    rc, out, to = run(cmd, env, cwd, ph.get('timeout', ph.get('budget_ms', 5000) / 1000 * 4 + 60), ph.get('cpus'))
    wall = time.time() - t
    data = None
    written = glob.glob(frag + '*')
    if written:
        try:
            data = merge([json.load(open(f)) for f in written])
        except Exception:
            data = None
        for f in written:
            os.remove(f)
    replay = {'property': prop, 'phase': ph, 'phase_index': idx, 'tier': tier, 'seed': seed, 'cmd': cmd,
              'env': {k: env[k] for k in env if k.startswith(('VERIF', 'VH_', 'MIRI', 'RUST', 'CARGO', 'TSAN', 'ASAN'))},
              'output': out[-20000:]}
    name = '%s %s%s' % (ph['bin'], ph['kind'] if ph['kind'] != 'run' else ph.get('profile', 'release'),
                        ' cpus=%s' % ph['cpus'] if ph.get('cpus') else '')
    if ph.get('phase'):
        name += ' ' + ph['phase']
    if ph.get('target'):
        name += ' ' + ph['target'].split('-')[0]
    if to:
        print(out[-3000:])
        raise Inconclusive('%s: timed out after %.0fs' % (name, wall))
    if rc == 1 and data and data.get('violation'):
        raise Violation('%s: %s' % (name, data['violation']), replay)
    if kind == 'miri' and rc != 0:
        m = MIRI.search(out)
        if m and 'unsupported operation' not in m.group(0):
            raise Violation('%s: miri: %s' % (name, m.group(0)), replay)
        v = re.search(r'^violation in .*', out, re.M)
        if rc == 1 and v:
            raise Violation('%s: %s' % (name, v.group(0)), replay)
    if kind in ('tsan', 'asan') and rc == 66 and SAN.search(out):
        m = re.search(r'(WARNING|ERROR): \w+Sanitizer: .*', out)
        raise Violation('%s: %s' % (name, m.group(0) if m else 'sanitizer report'), replay)
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
        if 'memory allocation of' in out or 'failed to spawn' in out or 'cannot spawn a thread' in out:
            print(out[-3000:])
            raise Inconclusive('%s: out of resources' % name)
        raise Violation('%s: the program died of signal %s\n%s' % (name, signal.Signals(-rc).name, out[-3000:]), replay)
    if rc != 0 or data is None:
        print(out[-3000:])
        raise Inconclusive('%s: ended with status %s' % (name, rc))
    if not data['evaluations'] or not data['distinct_nontrivial']:
        raise Inconclusive('%s: observed nothing' % name)
    print('[held] %s: %d evaluations, %d distinct, %.1fs' % (name, data['evaluations'], data['distinct_nontrivial'], wall))
    data['phase'] = name
    data['wall_s'] = round(wall, 2)
    return data


def known_findings(prop):
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        r = json.load(open(a[1]))
        ph = r['phase']
        prepare(r['property'], r['tier'], r['seed'])
        try:
            run_phase(r['property'], r['phase_index'], ph, r['tier'], r['seed'])
            print('replay: held')
        except Violation as v:
            print('replay: violated: %s' % v)
            return 1
        return 0
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.makedirs(EVID, exist_ok=True)
    start = time.time()
    plan = PLAN[prop]
    frags, err = [], None
    viol = None
    try:
        prepare(prop, tier, seed)
        for idx, ph in enumerate(phases_of(prop, tier)):
            try:
                frags.append(run_phase(prop, idx, ph, tier, seed))
            except Inconclusive as e:
                # a later phase may still decide; without a violation the run has no verdict
                print('[inconclusive] %s' % e)
                err = err or e
    except Violation as v:
        viol = v
    except Inconclusive as e:
        err = e
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': plan['title'], 'samples': []}
    counters = {}
    rules = []
    for f in frags:
        cov['evaluations'] += f['evaluations']
        cov['distinct_nontrivial'] += f['distinct_nontrivial']
        cov['samples'] += f['samples'][:3]
        if f['rule'] and f['rule'] not in rules:
            rules.append(f['rule'])
        for k, v in f['counters'].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith('max ') else counters.get(k, 0) + v
    if rules:
        cov['rule'] = ' | '.join(rules) + ' (distinct cases are counted within each phase)'
    cov['observed'] = counters
    cov['phases'] = [{'phase': f['phase'], 'evaluations': f['evaluations'], 'distinct': f['distinct_nontrivial'], 'wall_s': f['wall_s']} for f in frags]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': plan['level'], 'coverage': cov,
          'assumptions': plan.get('assumptions', []), 'wall_s': round(time.time() - start, 2), 'violations': 1 if viol else 0}
    if viol:
        rp = os.path.join(EVID, '%s.replay.json' % prop)
        json.dump(viol.replay, open(rp, 'w'), indent=1)
        cov['samples'].append('VIOLATION: ' + str(viol)[:2000])
        cov['explanation'] = str(viol)[:4000]
    if err and not viol:
        cov['explanation'] = 'no verdict: %s' % err
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    if viol:
        print(str(viol)[:4000])
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, HERE)))
        return 1
    if err:
        print('no verdict: %s' % err)
        return 2
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('OK property=%s %d evaluations, %d distinct, %.1fs' % (prop, cov['evaluations'], cov['distinct_nontrivial'], time.time() - start))
    return 0


def prepare(prop, tier, seed):
    g = PLAN[prop].get('gen')
    if g:
        gen.generate(g, tier, seed, crate_dir('gen-' + g), HERE)


if __name__ == '__main__':
    sys.exit(main())
