#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property by symbolic execution of /repo's code.

Builds the executor, compiles the harness crate (which contains /repo's sources through path
dependencies) to LLVM IR and to a native replayer, runs the property's jobs, replays whatever
the solver finds, and writes evidence/<property>.json."""
import fcntl, glob, hashlib, json, os, random, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import jobs as J

T0 = time.time()
NCPU = os.cpu_count() or 4
BUILD = os.path.join(V, 'build')


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


def env(**kw):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='nightly-2023-04-01', CARGO_NET_OFFLINE='true',
             RUSTFLAGS='--cap-lints=warn -C no-vectorize-loops -C no-vectorize-slp')
    e.pop('CARGO_TARGET_DIR', None)
    e.update(kw)
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def run(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die(what + ' failed')
    return r.stdout


def build_engine():
    with Lock('engine'):
        run(['cargo', 'build', '--release', '--offline', '-q'], 'building the executor', cwd=os.path.join(V, 'engine'),
            env=env(RUSTUP_TOOLCHAIN='stable', RUSTFLAGS='', CARGO_TARGET_DIR=os.path.join(BUILD, 'engine')))
    return os.path.join(BUILD, 'engine', 'release', 'symx')


def ws_env(kind):
    return env(CARGO_TARGET_DIR=os.path.join(BUILD, kind), REPO='/repo')


def build_ir(crate):
    with Lock('ir'):
        d = os.path.join(BUILD, 'ir')
        if crate in J.PREPARE:
            run(['python3', os.path.join(V, 'lib', J.PREPARE[crate])], 'preparing the sources', cwd=V)
        run(['cargo', 'rustc', '--release', '-p', crate, '--lib', '--crate-type', 'staticlib', '--offline', '--',
             '--emit=llvm-ir', '-C', 'codegen-units=1'], 'compiling the harness to LLVM IR', cwd=os.path.join(V, 'ws'), env=ws_env('ir'))
        l = glob.glob(os.path.join(d, 'release', 'deps', crate + '-*.ll'))
        if not l:
            die('no LLVM IR was produced')
        return max(l, key=os.path.getmtime)


def build_native(crate):
    b = 'replay_' + crate[2:]
    with Lock('native'):
        r = subprocess.run(['cargo', 'build', '--profile', 'native', '-p', crate, '--features', 'native', '--bin', b, '--offline'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.join(V, 'ws'), env=ws_env('nat'))
    if r.returncode != 0:
        return None, r.stdout[-4000:]
    return os.path.join(BUILD, 'nat', 'native', b), ''


class Job:
    def __init__(self, spec):
        # harness:params [@seconds] [+flag]
        w = spec.split()
        self.spec = w[0]
        self.h, _, self.p = w[0].partition(':')
        self.time = None
        self.flags = []
        self.known = None
        for x in w[1:]:
            if x[0] == '@':
                self.time = int(x[1:])
            elif x == '+fork':
                self.flags.append('--fork-select')
            elif x.startswith('known='):
                self.known = x[6:]


def replay_text(job, v, comment=()):
    o = ['# ' + c for c in comment]
    o += ['harness ' + job.h, 'param ' + ' '.join(job.p.split(',')) if job.p else 'param']
    for n, h in v['inputs']:
        o.append('in %s %s' % (n.replace(' ', '_'), h))
    for n, i, h in v['ufs']:
        o.append('uf %s %s %s' % (n, i, h))
    return '\n'.join(o) + '\n'


def native_run(nat, path):
    try:
        r = subprocess.run([nat, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired:
        return -99, ['TIMEOUT']
    return r.returncode, r.stdout.decode('utf-8', 'replace').splitlines()


def reproduced(rc, out):
    if rc == 3:
        return None
    for l in out:
        if l.startswith('CHECK-FAILED'):
            return l
        if l.startswith('PANIC'):
            return l[:300]
    if rc < 0 and rc != -99:
        return 'killed by signal %d' % -rc
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rnd = random.Random(seed)
    P = J.PROPS[prop]
    crate = P['crate']
    specs = list(P['quick'])
    if tier == 'thorough':
        specs = list(P['quick']) + [x for x in P.get('thorough', []) if x not in P['quick']]
    js = [Job(s) for s in specs]
    # long jobs first
    ev_dir = os.path.join(V, 'evidence')
    rp_dir = os.path.join(ev_dir, 'replay')
    wk = os.path.join(BUILD, 'out', prop)
    os.makedirs(rp_dir, exist_ok=True)
    os.makedirs(wk, exist_ok=True)
    res = {}
    eng = []
    te = threading.Thread(target=lambda: eng.append(build_engine()))
    te.start()
    ll = build_ir(crate)
    te.join()
    if not eng:
        die('no executor')
    symx = eng[0]
    t_built = time.time() - T0
    nat = []
    tn = threading.Thread(target=lambda: nat.append(build_native(crate)))
    tn.start()
    # everything has to be over well before 900 s in the quick tier
    budget = (J.QUICK_WALL if tier == 'quick' else J.THOROUGH_WALL) - (time.time() - T0)
    deadline = time.time() + max(60, budget)
    default = J.QUICK_JOB if tier == 'quick' else J.THOROUGH_JOB

    def one(j):
        left = deadline - time.time()
        t = int(min(j.time or default, left))
        if t < 5:
            return j, {'status': 'inconclusive', 'inconclusive': ['not started: the time of this run was used up']}
        out = os.path.join(wk, j.spec.replace(':', '_').replace(',', '_') + '.json')
        if os.path.exists(out):
            os.unlink(out)
        cmd = [symx, '--ll', ll, '--harness', j.h, '--param', j.p, '--out', out, '--time', str(t)] + j.flags + (['--poly'] if P.get('poly') else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t + 90)
        except subprocess.TimeoutExpired:
            return j, {'status': 'inconclusive', 'inconclusive': ['time limit']}
        if not os.path.exists(out):
            e = r.stderr.decode('utf-8', 'replace')[-1500:]
            if 'no function' in e:
                return j, {'status': 'error', 'inconclusive': [e]}
            return j, {'status': 'inconclusive', 'inconclusive': ['the executor stopped: ' + e]}
        return j, json.load(open(out))

    with ThreadPoolExecutor(NCPU) as ex:
        done = list(ex.map(one, js))
    tn.join()
    if nat[0][0] is None:
        print(nat[0][1])
        die('building the native replayer failed')
    nat = nat[0][0]

    known = {}
    kf = os.path.join(V, 'known_findings.txt')
    for l in open(kf):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            known[m.group(2)] = m.group(3).strip()
    bad, incon, nonrep, kn = [], [], [], []
    validated, mism = 0, []
    samples = []
    tot = dict(paths=0, instructions=0, forks=0, queries=0, cached=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    checks, funcs, by = {}, {}, {}
    jl = []
    for j, d in done:
        s = d.get('solver', {})
        jl.append({'job': j.spec, 'status': d['status'], 'paths': d.get('paths', 0), 'ends': d.get('ends', {}),
                   'queries': s.get('queries', 0), 'solver_s': s.get('time_s', 0), 'wall_s': d.get('wall_s', 0),
                   'reached': sorted(d.get('reached', {}))})
        for k in ('paths', 'instructions', 'forks'):
            tot[k] += d.get(k, 0)
        for k in ('queries', 'cached', 'sat', 'unsat', 'unknown'):
            tot[k] += s.get(k, 0)
        tot['solver_s'] += s.get('time_s', 0)
        for k, v in s.get('by', {}).items():
            by[k] = by.get(k, 0) + v
        for k, v in d.get('checks', {}).items():
            c = checks.setdefault(k, {'evals': 0, 'solver': 0, 'folded': 0})
            for x in c:
                c[x] += v[x]
        for f, l in d.get('functions', {}).items():
            if f.startswith('/repo/') or '/gen/' in f:
                funcs.setdefault(f, set()).update(l)
        if d['status'] == 'error':
            die('%s: %s' % (j.spec, d['inconclusive']))
        for i in d.get('inconclusive', []):
            incon.append('%s: %s' % (j.spec, i))
        for n, v in enumerate(d.get('violations', [])):
            name = '%s_%s_%d.txt' % (prop, j.spec.replace(':', '_').replace(',', '_'), n)
            path = os.path.join(rp_dir, name)
            with open(path, 'w') as f:
                f.write(replay_text(j, v, ['property %s, %s: %s' % (prop, v['kind'], v['name']), 'in ' + ' < '.join(v['stack'][:6]),
                                           'replay: %s %s' % (nat, path)]))
            rc, out = native_run(nat, path)
            w = reproduced(rc, out)
            if w is None:
                nonrep.append('%s: %s %s did not reproduce natively (exit %d: %s)' % (j.spec, v['kind'], v['name'], rc, '; '.join(out[-4:])))
            elif j.known in known:
                kn.append((j.known, known[j.known], path))
            else:
                bad.append((j.spec, v['kind'], v['name'], w, path))
        sm = d.get('samples', [])
        pick = sm if len(sm) <= 12 else rnd.sample(sm, 12)
        for n, v in enumerate(pick):
            path = os.path.join(wk, 'sample.txt')
            with open(path, 'w') as f:
                f.write(replay_text(j, v))
            rc, out = native_run(nat, path)
            obs = [l for l in out if l.startswith('OBS ')]
            tags = [l[4:] for l in out if l.startswith('TAG ')]
            end = next((l[4:] for l in out if l.startswith('END ')), 'none')
            want_obs = ['OBS %s %s' % (a, b) for a, b in v['obs']]
            # a path cut short by an assumption or an allowed panic is compared up to there
            ok = rc == 0 and obs == want_obs and tags == [x for x in v['tags'] if x != 'panic'] and ends_agree(v['end'], end)
            validated += 1
            if not ok:
                mism.append({'job': j.spec, 'rc': rc, 'engine': {'end': v['end'], 'tags': v['tags'], 'obs': v['obs']},
                             'native': {'end': end, 'tags': tags, 'out': out[-6:]}})
                with open(os.path.join(wk, 'mismatch_%d.txt' % len(mism)), 'w') as f:
                    f.write(replay_text(j, v))
        if sm and len(samples) < 6:
            x = sm[0]
            samples.append({'job': j.spec, 'end': x['end'], 'tags': x['tags'], 'inputs': [[a, b[:160]] for a, b in x['inputs'][:8]]})
    wall = time.time() - T0
    cov = {
        'states': tot['paths'], 'transitions': tot['instructions'], 'traces_validated_against_impl': validated,
        'samples': samples, 'forks': tot['forks'], 'solver_queries': tot['queries'], 'queries_sat': tot['sat'],
        'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'], 'queries_from_cache': tot['cached'],
        'solver_time_s': round(tot['solver_s'], 2), 'solvers': by,
        'assertions': checks, 'functions_encoded': {k: sorted(v) for k, v in sorted(funcs.items())},
        'functions_encoded_count': sum(len(v) for v in funcs.values()),
        'jobs': jl, 'bounds': P.get('bounds', ''), 'outside': P.get('outside', ''), 'exhaustive': not incon,
        'inconclusive': incon, 'build_s': round(t_built, 1), 'llvm_ir_sha256': hashlib.sha256(open(ll, 'rb').read()).hexdigest(),
        'explanation': 'states = complete symbolic paths, transitions = instructions executed symbolically; '
                       'within the bounds each assertion was decided by the solver for all values',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': P.get('assumptions', []) + J.ASSUMPTIONS, 'wall_s': round(wall, 1), 'violations': len(bad)}
    if mism:
        cov['translator_mismatches'] = mism[:5]
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d jobs, %d paths, %d queries, solver %.1f s, %d samples replayed natively, %.0f s' % (
        prop, len(js), tot['paths'], tot['queries'], tot['solver_s'], validated, wall))
    for i in incon:
        print('INCONCLUSIVE ' + i)
    for k, t, p in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    if bad:
        for sp, kind, name, w, path in bad:
            print('%s %s "%s": natively %s' % (sp, kind, name, w))
        print('VIOLATION property=%s replay=%s' % (prop, bad[0][4]))
        sys.exit(1)
    if nonrep:
        print('\n'.join(nonrep))
        die('a counterexample did not reproduce against the real code')
    if mism:
        print(json.dumps(mism[:3], indent=1))
        die('the executor and the compiled code disagree')
    sys.exit(0)


def ends_agree(e, n):
    m = {'return': ['return'], 'assume': ['assume'], 'end': ['end'], 'allowed-panic': ['panic'], 'panic': ['panic']}
    return n in m.get(e, [e])


if __name__ == '__main__':
    main()
