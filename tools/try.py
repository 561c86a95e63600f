#!/usr/bin/env python3
"""Development aid: runs the checks against scratch copies with a change applied.
  try.py seeded [ID...]    planted bugs: verify they build, pass tests, demo fails, and who catches them
  try.py refactor [NAME..] behaviour-preserving edits: every check has to stay quiet
  try.py diff FILE [CHECK...]
Options: -q  skip build/test/demo"""
import os, re, subprocess, sys, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd=None, env=None, t=600):
    r = subprocess.run(['bash', '-c', cmd], cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin'
for k in ('PGHOST','PGPORT','PGUSER','PGDATABASE','PGPASSWORD'): ENV.pop(k, None)
BASE = json.load(open('/opt/vp/BASELINE.json'))
def copy(patch):
    d = tempfile.mkdtemp(prefix='try', dir='/tmp')
    sh('cp -a /repo/. %s/' % d)
    if patch:
        rc, o = sh('git apply --whitespace=nowarn %s' % os.path.abspath(patch), cwd=d)
        if rc: shutil.rmtree(d); return None, o
    return d, ''
def tests(d):
    rc, o = sh('go build ./...', cwd=d, env=ENV)
    if rc: return [], True, o
    rc, o = sh('go test -count=1 -json -vet=off -timeout 60s -tags integration $(go list -e -tags integration ./... | grep -v internal/pg$) 2>&1; go test -json -vet=off -count=1 ./internal/pg', cwd=d, env=ENV)
    passed = set()
    for l in o.split('\n'):
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('Action') == 'pass' and 'Test' in j: passed.add(j['Package'].replace('sjansen', 'sjansen') + '/' + j['Test'])
    return [t for t in BASE['stable'] if t not in passed], False, o
def checks(d, ids):
    out = tempfile.mkdtemp(prefix='tryo', dir='/tmp')
    shutil.copy(V + '/known-findings.txt', out)
    rc, o = sh('%s/run.sh %s' % (V, ' '.join(ids) or 'all'), env=dict(ENV, PG_REPO=d, PG_VERIF=out))
    shutil.rmtree(out)
    return sorted(set(re.findall(r'^VIOLATION property=(\S+)', o, re.M))), o
def one(name, patch, quick, ids, demo=None, verbose=False):
    d, o = copy(patch)
    if d is None: return name + ': PATCH DOES NOT APPLY ' + o
    try:
        s = name + ':'
        if not quick:
            f, b, o = tests(d)
            s += ' build=%s fails=%s' % ('BROKEN' if b else 'ok', f)
            if b: s += '\n' + o[-1500:]
            if demo:
                rc, o = sh('bash %s' % demo, cwd=d, env=ENV, t=300)
                s += ' demo(rc=%d)' % rc
                rc0, o0 = sh('bash %s' % demo, cwd=CLEAN, env=ENV, t=300)
                s += ' cleandemo(rc=%d)' % rc0
                if rc0: s += '\n' + o0[-1500:]
        v, o = checks(d, ids)
        s += ' caught by: ' + ' '.join(v)
        if verbose:
            s += '\n' + '\n'.join(l for l in o.split('\n') if l and not re.match(r'\w+ holds|KNOWN', l))[:6000]
        return s
    finally:
        shutil.rmtree(d)
args = sys.argv[1:]
quick = '-q' in args; args = [a for a in args if a != '-q']
verbose = '-v' in args; args = [a for a in args if a != '-v']
mode, rest = args[0], args[1:]
sh('%s/run.sh --setup' % V)
CLEAN, _ = copy(None)
try:
    jobs = []
    if mode == 'diff': jobs.append((rest[0], rest[0], quick, rest[1:], None, True))
    if mode == 'seeded':
        for n in sorted(os.listdir(V + '/seeded')):
            if rest and not any(n.startswith(r) for r in rest): continue
            p = V + '/seeded/' + n
            jobs.append((n + ' [' + json.load(open(p + '/meta.json'))['property'] + ']', p + '/patch.diff', quick, [], p + '/demo.sh', verbose))
    if mode == 'refactor':
        for n in sorted(os.listdir(V + '/refactor')):
            if rest and not any(n.startswith(r) for r in rest): continue
            jobs.append((n, V + '/refactor/' + n, quick, [], None, True))
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda j: one(*j), jobs): print(r, flush=True)
finally:
    shutil.rmtree(CLEAN)
