#!/usr/bin/env python3
"""plant.py SPEC.py: confirms a planted bug in a scratch copy of /repo and keeps it in /verif/seeded.
SPEC defines BUGS = [dict(id, property, file, old, new, needs, breaks, main)] ('edits' may list (file, old, new))."""
import sys, os, subprocess, shutil, tempfile, json
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it is broken
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export HOME=${HOME:-/root}; export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp go.mod go.sum "$t/"
printf '{"Replace":{"%s/zdemo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t/o.json"
go build -modfile "$t/go.mod" -overlay "$t/o.json" -o "$t/demo" ./zdemo || exit 1
cd "$t" && timeout 60 ./demo
'''
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def tests(d):
    for f in ('sqlite3def', 'sqlite3def_test', 'schema.sql'):
        p = d + '/cmd/sqlite3def/' + f
        if os.path.exists(p): os.remove(p)
    e = dict(env, PATH=d + '/cmd/sqlite3def:' + env['PATH'])
    r = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', './cmd/sqlite3def', './sqlparser/...'], cwd=d, env=e, capture_output=True, text=True)
    ok = set()
    for l in r.stdout.splitlines():
        j = json.loads(l)
        if j.get('Action') == 'pass' and 'Test' in j: ok.add(j['Package'] + '/' + j['Test'])
    return stable - ok

spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
work = tempfile.mkdtemp(prefix='plant', dir='/tmp')
shutil.rmtree(work)
shutil.copytree('/repo', work, symlinks=True)
bad = 0
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=work, check=True)
    dd = tempfile.mkdtemp(prefix='demo', dir='/tmp')
    open(dd + '/main.go', 'w').write(b['main'])
    open(dd + '/demo.sh', 'w').write(DEMO); os.chmod(dd + '/demo.sh', 0o755)
    def demo(): return subprocess.run(['bash', dd + '/demo.sh'], cwd=work, capture_output=True, text=True)
    why = ''
    r0 = demo()
    if r0.returncode != 0: why = 'demo fails on the clean tree:\n' + r0.stdout + r0.stderr
    if not why:
        for f, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
            s = open(work + '/' + f).read()
            if s.count(old) != 1: why = '%s: %d occurrences of %r' % (f, s.count(old), old); break
            open(work + '/' + f, 'w').write(s.replace(old, new))
    if not why:
        # only lines of the original repository count, not those which our own commits added
        d = subprocess.run(['git', 'diff', '-U0'], cwd=work, capture_output=True, text=True).stdout
        f, orig, n = '', set(), 0
        for l in d.splitlines():
            if l.startswith('+++ '): f = l[6:]; orig = set(subprocess.run(['git', 'show', 'a5277f2:' + f], cwd=work, capture_output=True, text=True).stdout.splitlines())
            elif l.startswith('-') and not l.startswith('---') and l[1:] in orig: n += 1
        if n == 0: why = 'changes no line of the original repository'
    if not why and subprocess.run(['go', 'build', './...'], cwd=work, env=env).returncode: why = 'does not build'
    if not why:
        t = tests(work)
        if t: why = 'tests fail: %s' % sorted(t)[:5]
    if not why:
        r1 = demo()
        if r1.returncode == 0: why = 'demo passes with the patch'
        elif 'build failed' in r1.stderr: why = 'demo does not build: ' + r1.stderr
    if why:
        print('NO ', b['id'], why); bad += 1
    else:
        out = here + '/seeded/' + b['id']
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', 'diff'], cwd=work, capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        shutil.copy(dd + '/main.go', out); shutil.copy(dd + '/demo.sh', out)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        print('OK ', b['id'], '|', (r1.stdout + r1.stderr).strip().splitlines()[-1:][:1])
    shutil.rmtree(dd)
shutil.rmtree(work)
sys.exit(bad)
