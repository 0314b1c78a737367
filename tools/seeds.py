#!/usr/bin/env python3
"""seeds.py [id...]: writes seeded/<id> from the table below and tries each bug: applies, builds, passes the
stable tests, demo passes without and fails with it, and which check reports it."""
import json, os, shutil, subprocess, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'tools')]
S = {}
for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs_*.py'))):
    S.update(importlib.import_module(os.path.basename(f)[:-3]).BUGS)


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def write(i):
    b = S[i]
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo is dirty'
    for f, old, new in b['edits']:
        p = '/repo/' + f
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    if b['kind'] == 'btc':
        ws = os.path.join(d, 'demo_ws')
        shutil.rmtree(ws, ignore_errors=True)
        shutil.copytree(os.path.join(V, 'tools/demo_btc'), ws, ignore=shutil.ignore_patterns('demo.sh', 'target'))
        shutil.copy(os.path.join(V, 'tools/demo_btc/demo.sh'), os.path.join(d, 'demo.sh'))
        open(os.path.join(ws, 'demo/src/main.rs'), 'w').write(b['demo'])
    elif b['kind'] == 'script':
        open(os.path.join(d, 'demo.sh'), 'w').write(b['sh'])
        for n, t in b.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def test(i):
    b = S[i]
    d = os.path.join(V, 'seeded', i)
    a = sh('bash %s/demo.sh' % d, cwd='/repo')
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        return i, 'does not apply ' + r.stdout
    try:
        bl = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        tr = json.load(open('/tmp/seedtest.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = stable - set(tr['passed'])
        m = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = sh('./check.py %s' % b['property'], cwd=V)
    finally:
        sh('git -C /repo checkout -- .')
    ok = a.returncode == 0 and bl.returncode == 0 and not miss and m.returncode not in (0, 3)
    v = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'ERROR', 'INCONCLUSIVE'))] or c.stdout.splitlines()[-1:]
    return i, 'VALID' if ok else 'INVALID clean=%d build=%d missing=%s demo=%d %s' % (a.returncode, bl.returncode, sorted(miss)[:3], m.returncode, (a.stdout + m.stdout)[-600:]), 'rc=%d' % c.returncode, v[:2], m.stdout[-150:].strip()


ids = sys.argv[1:] or sorted(S)
w = '-w' in ids
ids = [i for i in ids if i != '-w'] or sorted(S)
for i in ids:
    write(i)
    if not w:
        print(*test(i), flush=True)
