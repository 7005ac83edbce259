#!/usr/bin/env python3
"""Hand-written behaviour-preserving refactorings must stay quiet:  handref.py FILE [id ...]

FILE defines REFS = [(id, [(file, old, new), ...])]; every edit's `old` occurs once.
"""
import multiprocessing as mp
import os
import runpy
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from mdsa import compare  # noqa
from mdsa.check import SPEC  # noqa

REPO = os.environ.get('MDSA_REPO', '/repo')


def bare(t):
    """without blank and comment lines"""
    return ''.join(x for x in t.splitlines(True) if x.strip() and not x.strip().startswith('#'))


def one(ref):
    rid, edits = ref
    t0 = time.time()
    over = {}
    for fn, old, new, *times in edits:
        p = os.path.join(REPO, fn)
        t = over.get(p) or bare(open(p).read())
        old, new = bare(old), bare(new)
        if t.count(old) != (times or [1])[0]:
            return rid, 'BADREF %s: %d matches of %r' % (fn, t.count(old), old[:80]), 0
        over[p] = t.replace(old, new)
    for p, t in over.items():
        try:
            compile(t, p, 'exec')
        except SyntaxError as e:
            return rid, 'BADREF syntax %s %s' % (p, e), 0
    c = compare.Comparer(REPO, SPEC, overlay=over)
    bad = []
    mods = {m.name for m in c.R.modules.values() if m.path in over}
    touched = {q for q in c.S.functions if c.S.functions[q][1].name in mods}
    for q in sorted(touched):
        r = c.verdict(q)
        if r.status != 'EQUAL':
            bad.append('%s %s %s\n        %s' % (r.status, q, r.why, '\n        '.join(compare.describe(r))[:1500]))
    return rid, '\n   '.join(bad), time.time() - t0


def main():
    refs = runpy.run_path(sys.argv[1])['REFS']
    if len(sys.argv) > 2:
        refs = [r for r in refs if r[0] in sys.argv[2:]]
    with mp.Pool(int(os.environ.get('J', '6'))) as pool:
        for rid, bad, t in pool.imap_unordered(one, refs):
            print('%-34s %5.1fs %s' % (rid, t, bad or 'quiet'), flush=True)


if __name__ == '__main__':
    main()
