#!/usr/bin/env python3
"""Confirms planted bugs: confirm.py NAME...: builds, passes the stable tests, the demonstration fails with it and passes without it; which checks notice it."""
import sys, os, subprocess, tempfile, shutil, json, concurrent.futures as cf
V = '/verif'
names = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
env = dict(os.environ)
env.update(l.split('=', 1) for l in subprocess.run(['bash', '-c', 'source /opt/vp/env.sh >/dev/null 2>&1; env'], capture_output=True, text=True).stdout.splitlines() if '=' in l)
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = base
    for k in ('stable', 'stable_pass', 'passing', 'pass', 'passed', 'tests'):
        if isinstance(b, dict) and k in b: return set(b[k])
    return set()
def one(n):
    d = tempfile.mkdtemp(prefix='cf', dir='/tmp')
    s = V + '/seeded/' + n
    try:
        os.makedirs(d + '/v')
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        shutil.copy(V + '/known-findings.txt', d + '/v/')
        os.makedirs(d + '/demo')
        for f in os.listdir(s):
            if f.endswith(('.diff', '.patch')) or f == 'meta.json': continue
            shutil.copy(s + '/' + f, d + '/demo/')
        prop = json.load(open(s + '/meta.json'))['property']
        bad = []
        def demo():
            return subprocess.run(['bash', d + '/demo/demo.sh'], cwd=d + '/repo', env=env, capture_output=True, text=True, timeout=280)
        r = demo()
        if r.returncode: bad.append('demo fails without it: ' + (r.stdout + r.stderr)[-600:])
        if subprocess.run(['git', 'apply', s + '/patch.diff'], cwd=d + '/repo').returncode: return n, ['does not apply']
        if subprocess.run(['go', 'build', './...'], cwd=d + '/repo', env=env, capture_output=True).returncode: return n, ['does not build']
        pk = subprocess.run("go list -e -tags integration ./... | grep -v 'pgutil/internal/pg$'", shell=True, cwd=d + '/repo', env=env, capture_output=True, text=True).stdout.split()
        t = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '3m', '-tags', 'integration'] + pk, cwd=d + '/repo', env=env, capture_output=True, text=True).stdout
        t += subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', './internal/pg'], cwd=d + '/repo', env=env, capture_output=True, text=True).stdout
        failed = set()
        for l in t.splitlines():
            try: x = json.loads(l)
            except Exception: continue
            if x.get('Action') == 'fail' and x.get('Test'): failed.add(x['Test'])
        bs = json.dumps(base)
        f2 = [x for x in failed if x not in ('TestPg', 'TestPgErrors', 'TestTasks') and x in bs and not x.startswith('TestPg')]
        if f2: bad.append('tests fail: ' + ' '.join(sorted(f2)))
        r = demo()
        if r.returncode == 0: bad.append('demo passes with it')
        r = subprocess.run(['bash', V + '/run.sh', 'all'], env=dict(env, PG_REPO=d + '/repo', PG_VERIF=d + '/v'), capture_output=True, text=True)
        c = sorted(set(l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')))
        if prop not in c: bad.append('NOT CAUGHT by ' + prop)
        return n, bad + ['caught by: ' + ' '.join(c)]
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(4) as ex:
    for n, b in ex.map(one, names): print(n, '|', ' | '.join(b), flush=True)
