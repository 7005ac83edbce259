#!/usr/bin/env python3
"""Write and confirm planted bugs:  plant.py SEEDFILE [id ...]

SEEDFILE defines SEEDS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)].
Each is confirmed in a scratch copy of /repo before it is written to /verif/seeded/<id>/.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = '/repo'
SH = '''#!/bin/bash
# run with the package at the current directory
d="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -B "$d/demo.py"
'''


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    fixed = sh('git log --format=%H --grep=^fix:', REPO).stdout.split()
    for sd in seeds:
        if only and sd['id'] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='plant_')
        try:
            cp = os.path.join(tmp, 'repo')
            shutil.copytree(REPO, cp, symlinks=True)
            dd = os.path.join(tmp, 'demo')
            os.makedirs(dd)
            shutil.copy(os.path.join(HERE, 'stub', 'stubs.py'), dd)
            with open(os.path.join(dd, 'demo.py'), 'w') as f:
                f.write('import stubs  # noqa: first\n' + sd['demo'].strip('\n') + '\n')
            with open(os.path.join(dd, 'demo.sh'), 'w') as f:
                f.write(SH)
            os.chmod(os.path.join(dd, 'demo.sh'), 0o755)
            a = sh('bash %s/demo.sh' % dd, cp)
            if a.returncode != 0:
                print(sd['id'], 'BAD: demo fails on the unchanged tree\n', a.stdout[-800:], a.stderr[-1500:])
                continue
            edits = sd['edits'] if isinstance(sd['edits'][0][0], str) and len(sd['edits'][0]) == 2 else sd['edits']
            bad = False
            for e in edits:
                fn, old, new = (sd['file'],) + tuple(e) if len(e) == 2 else e
                p = os.path.join(cp, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    print(sd['id'], 'BAD: %d matches of %r' % (t.count(old), old))
                    bad = True
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                continue
            b = sh('bash %s/demo.sh' % dd, cp)
            if b.returncode == 0:
                print(sd['id'], 'BAD: demo passes with the change\n', b.stdout[-500:])
                continue
            c = sh('/opt/venv/bin/python -B -m pyflakes metadetect || true; /opt/venv/bin/python -B -c "import ast,glob;[ast.parse(open(f).read()) for f in glob.glob(\'metadetect/**/*.py\', recursive=True)]"', cp)
            if c.returncode:
                print(sd['id'], 'BAD: does not parse', c.stderr)
                continue
            pd = sh('git diff -- metadetect', cp).stdout
            # removed lines must belong to the original repository
            mine = False
            for e in edits:
                fn = sd['file'] if len(e) == 2 else e[0]
                bl = sh("git diff -U0 -- %s | grep '^@@'" % fn, cp).stdout
                for l in bl.splitlines():
                    r = l.split()[1][1:]
                    st, n = (r.split(',') + ['1'])[:2]
                    if int(n):
                        o = sh('git blame -l -L %s,+%s HEAD -- %s' % (st, n, fn), cp).stdout
                        for ll in o.splitlines():
                            if ll.split()[0].lstrip('^') in fixed:
                                mine = True
            out = os.path.join(SEEDED, sd['id'])
            os.makedirs(out, exist_ok=True)
            with open(os.path.join(out, 'patch.diff'), 'w') as f:
                f.write(pd)
            for x in os.listdir(dd):
                if x != '__pycache__':
                    shutil.copy(os.path.join(dd, x), out)
            with open(os.path.join(out, 'meta.json'), 'w') as f:
                json.dump(dict(property=sd['property'], needs=sd['needs'], what_it_breaks=sd['breaks']), f, indent=1)
                f.write('\n')
            # static verdict
            sc = sh('cd %s && python3 check.py %s --repo %s' % (os.path.dirname(HERE), sd['property'], cp), cp)
            v = 'CAUGHT' if sc.returncode == 1 else 'MISSED(%d)' % sc.returncode
            print(sd['id'], sd['property'], 'ok', 'TOUCHES-FIX' if mine else '', v, '| demo:', (b.stderr.strip().split('\n') or [''])[-1][:100])
            if sc.returncode != 1:
                print('     ', [l for l in sc.stdout.split('\n') if 'undecided' in l][:6], sc.stderr[-300:])
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp)


main()
