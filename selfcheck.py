#!/usr/bin/env python3
"""Setup: nothing to build; checks that the reference model parses and the analyser loads."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from mdsa import check, rules, props  # noqa
from mdsa.interp import Project
S = Project(check.SPEC)
n = 0
for p in props.PROPS:
    for pat in p['anchors']:
        if not check.select(S, [pat], S.functions):
            print('pattern selects nothing:', p['id'], pat)
            n += 1
print('%d functions in the reference model, %d properties' % (len(S.functions), len(props.PROPS)))
sys.exit(1 if n else 0)
