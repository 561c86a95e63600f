"""Development aid: seed.py DIR < script. The script sets prop, needs, breaks, calls sub(...), and gives demo=(pkg, gotest source) or demo_sh."""
import sys, os, subprocess, tempfile, shutil, json
name = sys.argv[1]
out = '/verif/seeded/' + name
d = tempfile.mkdtemp(prefix='mk', dir='/tmp')
subprocess.check_call(['bash', '-c', 'cp -a /repo/. %s/' % d])
os.chdir(d)
def sub(f, old, new, n=1):
    s = open(f).read()
    assert s.count(old) >= 1, (f, old)
    if n == 1: assert s.count(old) == 1, ('ambiguous', f, old, s.count(old))
    open(f, 'w').write(s.replace(old, new))
src_has_fake = lambda s: 'startFakePG' in s
demo = None; demo_sh = None; files = {}
exec(sys.stdin.read())
r = subprocess.run(['git', 'diff'], capture_output=True, text=True).stdout
b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s; go build ./...' % d], capture_output=True, text=True)
if b.returncode: print(b.stderr)
os.chdir('/'); shutil.rmtree(d)
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'w').write(r)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
HEAD = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves as specified.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
unset PGHOST PGPORT PGUSER PGDATABASE PGPASSWORD
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
'''
if demo and src_has_fake(demo[1]):
    pkg, src = demo
    open(out + '/demo_test.go.txt', 'w').write(src)
    fk = open('/verif/tools/fakepg.go.txt').read().replace('package PKG', [l for l in src.splitlines() if l.startswith('package ')][0], 1)
    open(out + '/fakepg_test.go.txt', 'w').write(fk)
    demo_sh = '''printf '{"Replace":{"%%s/%s/zz_seeded_demo_test.go":"%%s/zz_test.go","%%s/%s/zz_fakepg_test.go":"%%s/fk_test.go"}}' "$repo" "$tmp" "$repo" "$tmp" > "$tmp/overlay.json"
cp "$here/demo_test.go.txt" "$tmp/zz_test.go"
cp "$here/fakepg_test.go.txt" "$tmp/fk_test.go"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 60s -run '^TestSeededDemo$' ./%s
''' % (pkg, pkg, pkg)
elif demo:
    pkg, src = demo
    open(out + '/demo_test.go.txt', 'w').write(src)
    demo_sh = '''printf '{"Replace":{"%%s/%s/zz_seeded_demo_test.go":"%%s/zz_test.go"}}' "$repo" "$tmp" > "$tmp/overlay.json"
cp "$here/demo_test.go.txt" "$tmp/zz_test.go"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 60s -run '^TestSeededDemo$' ./%s
''' % (pkg, pkg)
for f, c in files.items(): open(out + '/' + f, 'w').write(c)
open(out + '/demo.sh', 'w').write(HEAD + demo_sh)
os.chmod(out + '/demo.sh', 0o755)
print(out, len(r.split('\n')))
