#!/usr/bin/env python3
"""Plants a bug: builds /verif/seeded/<id>/ from a description and confirms it
in a scratch copy of /repo (compiles, existing tests pass, the demonstration
passes without and fails with the change). Not used by any check.

A description is a Python file that calls seed(...)."""
import json, os, shutil, subprocess, sys, re
REPO = '/repo'
V = os.path.dirname(os.path.abspath(__file__))
BASE = open('/repo/.git/HEAD').read() and subprocess.run(
    ['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-buildvcs=false')
DEMO = '''#!/bin/bash
# Runs demo_test.go.txt inside the package (as an overlay: /repo is not touched).
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -r "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/go/@PKG@/zz_demo_test.go\\": \\"$t/zz_demo_test.go\\"}}" >"$t/overlay.json"
cd go/@PKG@ || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
timeout 250 go test -overlay "$t/overlay.json" -vet=off -count=1 @FLAGS@-timeout 200s -run '^TestDemo$' .
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

only = sys.argv[2:]

def seed(id, prop, needs, breaks, edits, pkg, test, flags=''):
    if only and id not in only: return
    s = '/tmp/plant'
    if os.path.exists(s): shutil.rmtree(s)
    shutil.copytree(REPO, s, symlinks=True)
    try:
        for f, old, new in edits:
            p = os.path.join(s, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(id, 'FAILED: edit matches', t.count(old), 'times in', f); return
            open(p, 'w').write(t.replace(old, new))
        diff = run(['git', 'diff'], s).stdout
        base = {}
        own = []
        for l in diff.splitlines():
            if l.startswith('--- '): f = l[6:]; base[f] = run(['git', 'show', BASE + ':' + f], REPO).stdout.splitlines()
            elif l.startswith('-') and l[1:] not in base[f]: own.append(l)
        if own: print(id, 'WARNING: changes lines the base does not have:', own)
        if not re.search(r'^-[^-]', diff, re.M): print(id, 'WARNING: only adds lines')
        d = os.path.join(V, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go.txt', 'w').write(test)
        open(d + '/demo.sh', 'w').write(DEMO.replace('@PKG@', pkg).replace('@FLAGS@', flags + ' ' if flags else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        g = s + '/go'
        mods = ['.', 'types/uuid', 'transport/wasmrs/cmd/wasmrs']
        for m in mods:
            b = run(['go', 'build', './...'], os.path.join(g, m))
            if b.returncode: print(id, 'FAILED: build', b.stderr[:500]); return
            b = run(['go', 'test', '-vet=off', '-count=1', './...'], os.path.join(g, m))
            if b.returncode: print(id, 'FAILED: existing tests', b.stdout[-800:]); return
        bad = run(['bash', d + '/demo.sh'], s)
        good = run(['bash', d + '/demo.sh'], REPO)
        ok = bad.returncode != 0 and good.returncode == 0
        if 'build failed' in bad.stdout + good.stdout or 'setup failed' in bad.stdout+good.stdout: ok = False
        print(id, 'ok' if ok else 'FAILED', '' if ok else (bad.returncode, bad.stdout[-1500:], good.returncode, good.stdout[-1500:], good.stderr[-500:]))
        if not re.search(r'--- FAIL|panic|DATA RACE|fatal error', bad.stdout): print(id, 'unclear failure', bad.stdout[-300:])
    finally:
        if os.path.exists(s): shutil.rmtree(s)

exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
