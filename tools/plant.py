#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes planted bugs from textual edits and confirms them in a scratch copy.

SPEC.py defines BUGS: list of dicts id, property, needs, what, edits [(file, old, new)], pkg, demo (Go test source).
For each: applies the edits to a copy of /repo, checks that it builds, that the stable tests pass, that the demo
passes without and fails with the change, and writes seeded/<id>/.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GO111MODULE='on',
           GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
DEMO = '''#!/bin/bash
# Shows the broken behaviour: exit 0 if it is absent, nonzero if present. Run in the repository's root.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$T/overlay.json"
go test %(flags)s-vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run '^TestDemo' ./%(pkg)s
'''

def run(cmd, cwd, timeout=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'

def stable(tree):
    rc, out = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], tree)
    ok = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add((d['Package'], d['Test']))
    return ok

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    for b in bugs:
        if want and b['id'] not in want: continue
        t = tempfile.mkdtemp(prefix='plant.')
        try:
            src = os.path.join(t, 'r')
            run(['git', 'clone', '-q', '/repo', src], '/')
            base = stable(src)
            for f, old, new in b['edits']:
                p = os.path.join(src, f); s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'edit matches', s.count(old), 'times:', f, old[:60]); raise SystemExit(1)
                # the changed lines have to be the original repository's
                open(p, 'w').write(s.replace(old, new))
            run(['gofmt', '-l', '.'], src)
            _, diff = run(['git', 'diff'], src)
            # blame of removed lines
            orig = 0; mine = 0
            root = run(['git', 'rev-list', '--max-parents=0', 'HEAD'], src)[1].split()[0]
            for f in {e[0] for e in b['edits']}:
                bl = run(['git', 'blame', '-l', '-s', 'HEAD', '--', f], src)[1].splitlines()
                ln = 0
                for l in run(['git', 'diff', '-U0', '--', f], src)[1].splitlines():
                    if l.startswith('@@'): ln = int(l.split()[1][1:].split(',')[0])
                    elif l.startswith('-') and not l.startswith('---'):
                        if bl[ln-1].lstrip('^').startswith(root[:39]): orig += 1
                        else: mine += 1
                        ln += 1
            d = os.path.join(SEEDED, b['id'])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'pkg': b.get('pkg', 'mqttp'), 'flags': b.get('flags', '')})
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo_test.go'), 'w').write(b['demo'].lstrip())
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            rc, out = run(['go', 'build', './...'], src)
            if rc: print(b['id'], 'BUILD', out); continue
            got = stable(src)
            lost = base - got
            rb, ob = run(['bash', os.path.join(d, 'demo.sh')], src, 300)
            run(['git', 'checkout', '-q', '.'], src)
            ra, oa = run(['bash', os.path.join(d, 'demo.sh')], src, 300)
            ok = not lost and ra == 0 and rb != 0 and rb != 99 and orig > 0 and 'build failed' not in ob and 'setup failed' not in ob
            print(b['id'], b['property'], 'OK' if ok else 'BAD', 'demo clean', ra, 'patched', rb, 'orig lines', orig, 'mine', mine, 'lost', sorted(lost)[:5])
            if not ok: print(oa[-800:], '\n---\n', ob[-800:])
        finally:
            shutil.rmtree(t)
main()
