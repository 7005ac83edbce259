#!/usr/bin/env python3
"""Which planted bugs do the checks catch:  caught.py [id ...]   (env J)

Every seed is applied to a scratch copy of the package's sources and its property's check is
run on that copy, with the evidence going to a scratch copy of the machinery.
"""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MDSA_REPO', '/repo')


def one(sid):
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='caught.')
    t0 = time.time()
    try:
        v = os.path.join(tmp, 'v')
        os.mkdir(v)
        for x in ('mdsa', 'specs'):
            shutil.copytree(os.path.join(V, x), os.path.join(v, x), ignore=shutil.ignore_patterns('__pycache__'))
        for x in ('check.py', 'known_findings.txt'):
            shutil.copy(os.path.join(V, x), v)
        r = os.path.join(tmp, 'r')
        shutil.copytree(os.path.join(REPO), r, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
        p = subprocess.run(['patch', '-p1', '-s', '-i', os.path.join(d, 'patch.diff')], cwd=r,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return sid, meta['property'], 'BADPATCH ' + p.stdout, 0
        p = subprocess.run([sys.executable, 'check.py', meta['property'], '--repo', r], cwd=v,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = p.stdout.replace(tmp, '')
        first = [l for l in out.splitlines() if ']' in l and '.py:' in l][:1]
        st = 'caught' if p.returncode == 1 and 'VIOLATION' in out else 'MISSED rc=%d' % p.returncode
        return sid, meta['property'], st + '  ' + (first[0] if first else out[-300:])[:150], time.time() - t0
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    n = m = 0
    with mp.Pool(int(os.environ.get('J', '6'))) as pool:
        for sid, prop, st, t in pool.imap_unordered(one, ids):
            n += 1
            m += st.startswith('caught')
            print('%-44s %s %5.1fs %s' % (sid, prop, t, st), flush=True)
    print('%d of %d caught' % (m, n))
