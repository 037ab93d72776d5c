#!/usr/bin/env python3
"""mutants.py MUTS.jsonl OUT.jsonl [jobs]: measures which small changes of /repo the checks detect.

MUTS.jsonl comes from sim/cmd/mutate. A change counts when it compiles and passes the stable tests; the checks then run
with a tenth of their quick runs, most sensitive first, until one reports it. Works in scratch copies only.
"""
import json, os, shutil, subprocess, sys, tempfile, threading, queue, time

ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='0')
SIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim')
ORDER = ['C04', 'C05', 'C07', 'C02', 'C01', 'C06', 'C11', 'C08', 'C14', 'C10', 'C12', 'C13', 'C03', 'C09', 'C18', 'C19', 'C20']
QUICK = dict(C01=400, C02=1500, C03=800, C04=3000, C05=2000, C06=100, C07=1000, C08=280, C09=180, C10=1200, C11=150, C12=2000, C13=1500, C14=240, C18=1200, C19=1500, C20=20)
FRAC = float(os.environ.get('FRAC', '0.1'))

def run(cmd, cwd, timeout=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'

def tests(tree):
    rc, out = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '60s', './...'], tree, 120)
    ok = set()
    for l in out.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'): ok.add((d['Package'], d['Test']))
    return ok

def one(tree, pristine, scr, base, instr, m):
    f = tree + m['file'][len('/repo'):]
    src = open(pristine + m['file'][len('/repo'):], 'rb').read()
    new = src[:m['from']] + m['new'].encode() + src[m['to']:]
    open(f, 'wb').write(new)
    try:
        if run(['go', 'build', './...'], tree)[0]: return 'nobuild', ''
        if base - tests(tree): return 'tests', ''
        rc, o = run([instr, '-src', tree, '-dst', scr + '/vlapi', '-level', 'full'], SIM)
        if rc: return 'noinstr', o[-300:]
        mod = open(SIM + '/go.mod').read().replace('=> ./.vlapi', '=> ' + scr + '/vlapi')
        open(scr + '/go.mod', 'w').write(mod); open(scr + '/go.sum', 'w').close()
        rc, o = run(['go', 'build', '-modfile=' + scr + '/go.mod', '-o', scr + '/simcheck', './cmd/simcheck'], SIM)
        if rc: return 'nosim', o[-300:]
        odd = ''
        for p in ORDER:
            rc, o = run([scr + '/simcheck', '-prop', p, '-tier', 'quick', '-seed', '1', '-workers', '2', '-bare', '-scratch', scr,
                         '-sites', scr + '/vlapi/sites.json', '-known', os.path.dirname(SIM) + '/known-findings.txt',
                         '-evidence', scr, '-replays', scr, '-runs', str(int(QUICK[p] * 1000 * FRAC)), '-budget', '60s'], SIM, 200)
            if rc == 1: return 'caught', p + ' ' + next((l[:200] for l in o.splitlines() if l.startswith('violation of')), '')
            if rc != 0: odd += ' %s rc=%d %s' % (p, rc, o[-200:])
        return ('odd' if odd else 'MISSED'), odd
    finally:
        open(f, 'wb').write(src)

def main():
    muts = [json.loads(l) for l in open(sys.argv[1])]
    done = set()
    if os.path.exists(sys.argv[2]):
        for l in open(sys.argv[2]):
            d = json.loads(l); done.add((d['file'], d['from'], d['to'], d['new']))
    out = open(sys.argv[2], 'a'); lock = threading.Lock(); q = queue.Queue()
    for m in muts:
        if (m['file'], m['from'], m['to'], m['new']) not in done: q.put(m)
    top = tempfile.mkdtemp(prefix='mutants.')
    run(['go', 'build', '-o', top + '/instr', './cmd/instr'], SIM)
    run(['git', 'clone', '-q', '/repo', top + '/base'], '/')
    base = tests(top + '/base')
    def work(i):
        tree, scr = '%s/t%d' % (top, i), '%s/s%d' % (top, i)
        shutil.copytree(top + '/base', tree); os.mkdir(scr)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            t = time.time()
            r, d = one(tree, top + '/base', scr, base, top + '/instr', m)
            with lock:
                out.write(json.dumps(dict(m, result=r, detail=d, secs=round(time.time() - t, 1))) + '\n'); out.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(sys.argv[3]) if len(sys.argv) > 3 else 4)]
    for t in ts: t.start()
    for t in ts: t.join()
    shutil.rmtree(top)

main()
