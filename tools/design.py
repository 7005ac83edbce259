"""Fill the generated tables of DESIGN.md (per property, per planted bug) from props.py, seeded/ and
tools/caught.txt (output of tools/caught.py)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mdsa import props


def prop_table():
    out = ['| id | property | what is compared | spec-free rules |', '|---|---|---|---|']
    from mdsa import rules
    for p in props.PROPS:
        a = ', '.join('`%s`' % x.replace('metadetect.', '', 1) for x in p['anchors'])
        if p['classes'] or p['consts']:
            a += '; attributes and constants of ' + ', '.join(
                '`%s`' % x.replace('metadetect.', '', 1) for x in list(p['classes']) + list(p['consts']))
        c = ', '.join(x for x in p['custom'] if x in rules.RULES) or '-'
        out.append('| %s | %s | %s | %s |' % (p['id'], p['title'], a, c))
    return '\n'.join(out)


def seed_table():
    res = {}
    f = os.path.join(HERE, 'tools', 'caught.txt')
    if os.path.exists(f):
        for l in open(f):
            w = l.split()
            if len(w) >= 2:
                res[w[0]] = 'caught' if ' caught' in l else 'missed'
    out = ['| planted bug | property | what it breaks | needs | check of the property |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        out.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], res.get(d, '?')))
    return '\n'.join(out)


def main():
    f = os.path.join(HERE, 'DESIGN.md')
    t = open(f).read()
    for name, fn in (('properties', prop_table), ('seeds', seed_table)):
        t = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name),
                   lambda m: m.group(1) + fn() + '\n' + m.group(2), t, flags=re.S)
    open(f, 'w').write(t)


main()
