#!/usr/bin/env python3
"""Applies edits that keep the behaviour (refactor/*.py, each with EDITS = {name: [(file, old, new), ...]}) to a copy of the
repository and reports the checks that do not stay quiet. A development aid; no check uses it.
usage: run.py XDBCHECK [NAME-PREFIX] [PROPERTY...]"""
import subprocess, sys, os, shutil, tempfile, glob, runpy, threading, queue
xc = sys.argv[1]; pre = sys.argv[2] if len(sys.argv) > 2 else ''; props = sys.argv[3:] or ['all']
here = os.path.dirname(os.path.abspath(__file__))

def trial(w, env, name, edits):
    try:
        for file, old, new in edits:
            p = w + '/r/' + file
            s = open(p).read()
            if s.count(old) != 1:
                return ['%s EDIT DOES NOT APPLY %d %s %s' % (name, s.count(old), file, old[:60])], True
            open(p, 'w').write(s.replace(old, new))
        t = subprocess.run(['go', 'build', './...'], cwd=w + '/r', env=env, capture_output=True, text=True)
        if t.returncode:
            return ['%s DOES NOT BUILD %s' % (name, t.stderr[:400])], True
        else:
            o = subprocess.run([xc, 'check'] + props, env=env, capture_output=True, text=True)
            v = [l for l in o.stdout.splitlines() if 'VIOLATION' in l or l.startswith('   ')]
            out = [name + (' ok' if o.returncode == 0 else ' ALARM %d' % o.returncode)] + ['      ' + l[:260] for l in v[:12]]
            if o.returncode not in (0, 1): out.append(o.stderr[-600:])
            return out, o.returncode != 0
    finally:
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=w + '/r')

work = queue.Queue()
for f in sorted(glob.glob(here + '/*.py')):
    if f.endswith('run.py'): continue
    for name, edits in runpy.run_path(f)['EDITS'].items():
        if name.startswith(pre): work.put((name, edits))
bad = [0]; lock = threading.Lock()

def worker():
    w = tempfile.mkdtemp(prefix='rfw')
    os.makedirs(w + '/v')
    shutil.copy(here + '/../known-findings.txt', w + '/v')
    subprocess.check_call(['cp', '-a', '/repo', w + '/r'])
    env = dict(os.environ, XDBCHECK_REPO=w + '/r', XDBCHECK_VERIF=w + '/v', HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
    while True:
        try: name, edits = work.get_nowait()
        except queue.Empty: break
        out, b = trial(w, env, name, edits)
        with lock:
            bad[0] += b
            print('\n'.join(out), flush=True)
    shutil.rmtree(w)

ts = [threading.Thread(target=worker) for _ in range(min(6, work.qsize()))]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(1 if bad[0] else 0)
