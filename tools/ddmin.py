#!/usr/bin/env python3
"""ddmin.py EXE SCRIPT [MODULE [CFG]]: shortest script that still makes the driver fail
(or, with MODULE, whose trace is still rejected)."""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vp
exe, script = map(os.path.abspath, sys.argv[1:3])
mod = sys.argv[3] if len(sys.argv) > 3 else None
cfg = sys.argv[4] if len(sys.argv) > 4 else None
w = tempfile.mkdtemp()
n = [0]
def bad(lines):
    n[0] += 1
    env = dict(os.environ, VP_OUT=w + '/o', VP_SEED='1', ASAN_OPTIONS='detect_leaks=0')
    try:
        open(w + '/i', 'w').write('\n'.join(lines) + '\n')
        d = tempfile.mkdtemp(dir=w)
        p = subprocess.run([exe], stdin=open(w + '/i'), env=env, cwd=d, timeout=15,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return True
    if rc == 3:
        return False
    if rc != 0:
        return True
    if not mod or not os.path.getsize(w + '/o'):
        return False
    r = vp.tlc(vp.SPECS, mod + '.tla', cfg or mod + '.cfg', w, env={'VP_TRACE': w + '/o'}, timeout=120)
    return not r.ok
lines = [l for l in open(script).read().split('\n') if l.strip()]
# one history
hs, cur = [], []
for l in lines:
    if l.startswith('reset') and cur:
        hs.append(cur); cur = []
    cur.append(l)
hs.append(cur)
for h in hs:
    if bad(h):
        lines = h
        break
head, lines = lines[:1], lines[1:]
k = 2
while lines:
    step = max(1, len(lines) // k)
    for i in range(0, len(lines), step):
        t = lines[:i] + lines[i + step:]
        if bad(head + t):
            lines = t
            k = max(2, k - 1)
            break
    else:
        if step == 1:
            break
        k = min(len(lines), 2 * k)
print('\n'.join(head + lines))
