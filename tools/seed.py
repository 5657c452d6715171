#!/usr/bin/env python3
"""Development tool for seeded/: makes planted bugs from specs and tests them (no check uses this).

    seed.py make SPEC.py [ID..]  write seeded/<id>/ from the list BUGS in SPEC.py
    seed.py test [ID..]          apply each to a scratch copy of /repo: build, tests, demo on both trees, and its check
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = 'lib/go/src/thrift/'
GENF = 'compiler/cpp/src/generate/t_go_generator.cc'

DEMO = '''#!/bin/bash
# exit 0 when the property holds, 1 when it is broken, 2 when the demonstration could not run
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src/demo" "$w/src/simple"
cp "$here/demo.go" "$w/src/demo/"
cp tests/generation/golden/gen-go/simple/*.go "$w/src/simple/"
export GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOENV=off GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOFLAGS= GOWORK=off
export GOPATH="$w:$PWD/lib/go" GOCACHE=/opt/vp/gocache
[ -d "$GOCACHE" ] || export GOCACHE="$w/cache"
go build @RACE@-o "$w/demo.bin" demo || exit 2
timeout 120 "$w/demo.bin" 2>"$w/err"
rc=$?
[ $rc = 0 ] || tail -5 "$w/err"
[ $rc = 0 ] && exit 0
exit 1
'''


def copy_repo():
    d = tempfile.mkdtemp(prefix='seed-')
    subprocess.check_call(['cp', '-a', '/repo/.', d])
    return d


def make(spec, ids):
    g = runpy.run_path(spec)
    for b in g['BUGS']:
        if ids and b['id'] not in ids:
            continue
        d = copy_repo()
        try:
            for f, old, new in b['edits']:
                p = os.path.join(d, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'edit matches', s.count(old), 'times:', f, repr(old[:80]))
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                diff = subprocess.check_output(['git', '-C', d, 'diff', '-U12'], text=True)
                o = os.path.join(H, 'seeded', b['id'])
                os.makedirs(o, exist_ok=True)
                open(o + '/patch.diff', 'w').write(diff)
                if 'sh' in b:
                    open(o + '/demo.sh', 'w').write(b['sh'])
                else:
                    open(o + '/demo.sh', 'w').write(DEMO.replace('@RACE@', '-race ' if b.get('race') else ''))
                    open(o + '/demo.go', 'w').write(b['demo'])
                    subprocess.call(['/opt/veriftools/go1.27.3/bin/gofmt', '-w', o + '/demo.go'])
                for n, text in b.get('files', {}).items():
                    open(o + '/' + n, 'w').write(text)
                os.chmod(o + '/demo.sh', 0o755)
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(o + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def env_for(d):
    g = tempfile.mkdtemp(prefix='seed-gp-')
    s = os.path.join(g, 'src/simple')
    os.makedirs(s)
    gold = os.path.join(d, 'tests/generation/golden/gen-go/simple')
    for f in os.listdir(gold):
        if f.endswith('.go'):
            os.symlink(os.path.join(gold, f), os.path.join(s, f))
    t = os.path.join(d, 'tests/generation')
    for f in os.listdir(t):
        if f.endswith('_test.go'):
            os.symlink(os.path.join(t, f), os.path.join(s, f))
    return g, dict(GOROOT='/opt/veriftools/go1.27.3', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOENV='off', GO111MODULE='off', GOFLAGS='',
                   GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOPATH='%s/lib/go:%s' % (d, g), GOCACHE='/tmp/w/gocache')


def test(ids):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    clean = copy_repo()
    summary = []
    try:
        for i in ids or sorted(os.listdir(H + '/seeded')):
            o = os.path.join(H, 'seeded', i)
            meta = json.load(open(o + '/meta.json'))
            d = copy_repo()
            g, env = env_for(d)
            try:
                rc, out = sh(['git', 'apply', o + '/patch.diff'], d)
                if rc:
                    summary.append((i, 'PATCH DOES NOT APPLY'))
                    continue
                rc, out = sh(['go', 'test', '-json', '-vet=off', '-count=1', 'thrift/...', 'simple'], d, env)
                passed = set()
                for l in out.splitlines():
                    try:
                        j = json.loads(l)
                    except ValueError:
                        continue
                    if j.get('Action') == 'pass' and j.get('Test'):
                        passed.add(j['Package'] + '::' + j['Test'])
                missing = [x for x in stable if not any(x.endswith(p.split('::')[1]) for p in passed)]
                w = tempfile.mkdtemp(prefix='seed-demo-')
                for f in os.listdir(o):
                    if f not in ('patch.diff', 'meta.json'):
                        shutil.copy(o + '/' + f, w)
                r1, o1 = sh(['bash', w + '/demo.sh'], clean, t=300)
                r2, o2 = sh(['bash', w + '/demo.sh'], d, t=300)
                shutil.rmtree(w)
                rc, out = sh(['python3', 'check.py', meta['property']], H, dict(VERIF_REPO=d, VERIF_TIER='quick', VERIF_SEED='1', VERIF_NOEVIDENCE='1'))
                hit = rc == 1 and 'VIOLATION property=%s' % meta['property'] in out
                ok = not missing and r1 == 0 and r2 not in (0, 2)
                lines = [l for l in out.splitlines() if 'VIOLATION' in l or l.startswith('  ')]
                summary.append((i, 'ok' if ok else 'BAD missing=%s clean=%d patched=%d %s' % (missing, r1, r2, (o1 + o2)[-300:]), 'CAUGHT' if hit else 'missed rc=%d' % rc, lines[0][:160] if lines else ''))
            finally:
                shutil.rmtree(d)
                shutil.rmtree(g)
            print(summary[-1], flush=True)
    finally:
        shutil.rmtree(clean)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        test(sys.argv[2:])
