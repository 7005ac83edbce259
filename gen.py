#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mdsa/props.py"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from mdsa import props

TECH = {
    'interface': 'call and attribute resolution', 'definite': 'definite-assignment dataflow',
    'shear_inverse': 'algebraic composition of abstract summaries', 'shear_tables': 'label table agreement',
    'apkernel': 'exact polynomial analysis', 'kernel_bounds': 'symbolic index-range analysis',
    'flag_bits': 'constant evaluation', 'flag_writes': 'flag write lint', 'rng': 'effect analysis of random draws',
    'axes': 'row/column dimension typing', 'context': 'enter/exit pairing', 'mutation': 'alias and mutation analysis',
    'columns': 'record-field typing', 'combine': 'column-set analysis', 'cachekeys': 'cache-key dependence analysis',
}

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
    for i, title, st, why in props.NA:
        f.write(json.dumps(dict(
            id=i, title=title, statement=st,
            quantifier=dict(over=['inputs'], text='all images and noise realizations'),
            why_tests_cant='A statistical or numerical statement; the tests that would sample it cannot run here.',
            anchors=dict(files=['metadetect/'], mechanism=[dict(name='whole pipeline', where='metadetect/')]))) + '\n')

from mdsa import rules
checks = []
for p in props.PROPS:
    cs = [TECH[c] for c in p['custom'] if c in rules.RULES]
    checks.append(dict(
        property=p['id'],
        quick_cmd='python3 check.py %s --tier quick' % p['id'],
        thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
        technique='static analysis: abstract interpretation to normal-form summaries compared with a reference model'
                  + (''.join('; ' + c for c in cs)),
        level='other',
        level_note='Each anchor function of the current source is summarised for all inputs (result, effects on arguments, '
                   'errors with conditions, external effects) and must equal the reference summary; functions whose difference '
                   'involves an approximated construct are reported as undecided in the evidence and not alarmed. Trusts the '
                   'models of numpy and Python in mdsa and treats third-party calls as uninterpreted functions of their arguments.'))
m = dict(version=1, setup_cmd='python3 selfcheck.py', checks=checks,
         not_applicable=[dict(property=i, reason=why) for i, t_, s_, why in props.NA],
         notes='Pure standard-library Python; nothing of /repo is imported or run by the checks.')
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
for p in props.PROPS:
    assert len(p['title']) <= 80, p['id']
print(len(checks), 'checks')
