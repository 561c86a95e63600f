#!/usr/bin/env python3
"""Development aid: mkdiff.py OUT.diff < script; the script calls sub(file, old, new[, count])."""
import sys, os, subprocess, tempfile, shutil
out = os.path.abspath(sys.argv[1])
d = tempfile.mkdtemp(prefix='mk', dir='/tmp')
subprocess.check_call(['bash', '-c', 'cp -a /repo/. %s/' % d])
os.chdir(d)
def sub(f, old, new, n=1):
    s = open(f).read()
    assert s.count(old) >= 1, (f, old)
    if n == 1: assert s.count(old) == 1, ('ambiguous', f, old, s.count(old))
    open(f, 'w').write(s.replace(old, new))
def app(f, text): open(f, 'a').write(text)
try:
    exec(sys.stdin.read())
    subprocess.call(['bash', '-c', 'source /opt/vp/env.sh; cd %s; go build ./...' % d])
    r = subprocess.run(['git', 'diff'], capture_output=True, text=True).stdout
    os.makedirs(os.path.dirname(out), exist_ok=True)
    open(out, 'w').write(r)
    print(out, len(r.split('\n')), 'lines')
finally:
    os.chdir('/'); shutil.rmtree(d)
