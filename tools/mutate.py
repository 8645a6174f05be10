#!/usr/bin/env python3
"""Tries the changes that checker/mutate lists (small changes of single places of the source) and prints those that no check
and no test reports. A development aid; no check uses it.
usage: mutate.py XDBCHECK MUTANTS.json OUT [SEED [PART/PARTS [FILE-PREFIX [KINDS]]]]"""
import json, subprocess, sys, os, shutil, tempfile, threading, queue, random
xc, js, outf = sys.argv[1:4]
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
part, parts = (int(x) for x in (sys.argv[5] if len(sys.argv) > 5 else '0/1').split('/'))
pre = sys.argv[6] if len(sys.argv) > 6 else ''
kinds = sys.argv[7].split(',') if len(sys.argv) > 7 else None
SLOW = ['C03', 'C06', 'H02', 'G04']
here = os.path.dirname(os.path.abspath(__file__))
ids = [c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open(here + '/../MANIFEST.json'))['checks']]
FAST = [i for i in ids if i not in SLOW]
ms = [json.loads(l) for l in open(js)]
random.Random(seed).shuffle(ms)
ms = [m for i, m in enumerate(ms) if i % parts == part and m['File'].startswith(pre) and (not kinds or m['Kind'] in kinds)]
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
work = queue.Queue()
for m in ms: work.put(m)
lock = threading.Lock(); out = open(outf, 'a'); count = {}

def trial(w, env, m):
    r = w + '/r'
    p = r + '/' + m['File']
    b = open(p, 'rb').read()
    try:
        open(p, 'wb').write(b[:m['From']] + m['New'].encode() + b[m['To']:])
        if subprocess.run(['go', 'build', './...'], cwd=r, env=env, capture_output=True).returncode: return 'nobuild', ''
        def check(ids):
            o = subprocess.run([xc, 'check'] + ids, env=env, capture_output=True, text=True)
            return o.returncode, [l.strip() for l in o.stdout.splitlines() if l.startswith('   ')]
        c, v = check(FAST)
        if c == 1: return 'caught', ''
        if c: return 'CRASH', str(c)
        try: t = subprocess.run(['go', 'test', '-vet=off', '-timeout', '60s', '-json', './...'], cwd=r, env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired: return 'test', ''
        ok = {'%s/%s' % (d['Package'], d['Test']) for d in (json.loads(l) for l in t.stdout.splitlines() if l.startswith('{')) if d.get('Action') == 'pass' and d.get('Test')}
        if base - ok: return 'test', ''
        for s in SLOW:
            if s not in ('C03', 'C06') and not m['File'].startswith(('schema/', 'internal/', 'xsql/dialect', 'merge', 'pkg/print')[:5 if s == 'G04' else 3]): continue
            c, v = check([s])
            if c == 1: return 'caught', ''
            if c: return 'CRASH', s
        return 'SURVIVES', ''
    finally:
        open(p, 'wb').write(b)

def worker():
    w = tempfile.mkdtemp(prefix='mut')
    os.makedirs(w + '/v')
    shutil.copy(here + '/../known-findings.txt', w + '/v')
    subprocess.check_call(['cp', '-a', '/repo', w + '/r'])
    env = dict(os.environ, XDBCHECK_REPO=w + '/r', XDBCHECK_VERIF=w + '/v', HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOMAXPROCS='2', TMPDIR=w)
    while True:
        try: m = work.get_nowait()
        except queue.Empty: break
        k, d = trial(w, env, m)
        with lock:
            count[k] = count.get(k, 0) + 1
            if k in ('SURVIVES', 'CRASH'):
                out.write('%s %s %s:%d %s %s | %r -> %r\n' % (k, d, m['File'], m['Line'], m['Func'], m['Kind'], m['Old'][:90], m['New'][:90])); out.flush()
            if sum(count.values()) % 50 == 0: print(count, flush=True)
    shutil.rmtree(w)

ts = [threading.Thread(target=worker) for _ in range(int(os.environ.get('JOBS', '7')))]
[t.start() for t in ts]; [t.join() for t in ts]
print(count)
