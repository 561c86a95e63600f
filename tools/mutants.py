#!/usr/bin/env python3
"""Small changes of the given files that build and no check notices:
mutants.py [-t] [-c "ID ..."] FILE...   (-t: only those the tests miss too)"""
import subprocess, sys, os, shutil, tempfile, queue, threading, getopt
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts, files = getopt.getopt(sys.argv[1:], 'tac:')
opts = dict(opts)
ids = opts.get('-c', 'all').split()
env = dict(os.environ)
env.update(l.split('=', 1) for l in subprocess.run(['bash', '-c', 'source /opt/vp/env.sh >/dev/null 2>&1; env'], capture_output=True, text=True).stdout.splitlines() if '=' in l)
tmp = tempfile.mkdtemp(prefix='mut')
subprocess.run(['go', 'build', '-o', tmp + '/mutate', '.'], cwd=V + '/tools/mutate', env=env, check=True)
q = queue.Queue()
for f in files:
    n = int(subprocess.run([tmp + '/mutate', '/repo/' + f], capture_output=True, text=True).stdout)
    for i in range(n):
        q.put((f, i))
total = q.qsize()
stats = dict(build=0, caught=0, missed=0, tested=0)
lock = threading.Lock()
def work(k):
    w = f'{tmp}/w{k}'
    os.makedirs(w + '/v')
    shutil.copytree('/repo', w + '/repo', symlinks=True)
    shutil.copy(V + '/known-findings.txt', w + '/v/')
    while True:
        try:
            f, i = q.get_nowait()
        except queue.Empty:
            return
        p = w + '/repo/' + f
        d = subprocess.run([tmp + '/mutate', '/repo/' + f, str(i), p], capture_output=True, text=True)
        desc = d.stdout.strip().replace('\n', ' ')
        def done(s, extra=''):
            shutil.copy('/repo/' + f, p)
            with lock:
                stats[s] += 1
                if s == 'missed' or '-a' in opts and s != 'build':
                    print(s.upper(), f, desc[:170], extra, flush=True)
        if d.returncode:
            done('build'); continue
        e = dict(env, PG_REPO=w + '/repo', PG_VERIF=w + '/v')
        if subprocess.run(['go', 'build', './...'], cwd=w + '/repo', env=env, capture_output=True).returncode:
            done('build'); continue
        r = subprocess.run(['bash', V + '/run.sh'] + ids, env=e, capture_output=True, text=True)
        if r.returncode:
            c = sorted(set(l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')))
            done('caught', ' '.join(c)); continue
        if '-t' in opts:
            t = subprocess.run(['go', 'test', '-vet=off', '-timeout', '60s', './internal/' + f.split('/')[1] + '/...', './internal/commands/...', './internal/cli/...'], cwd=w + '/repo', env=env, capture_output=True)
            if t.returncode:
                done('tested'); continue
        done('missed')
ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(tmp)
print(total, stats)
