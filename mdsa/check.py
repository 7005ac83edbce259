"""Decide one property on the current source of the package.

python3 check.py ID [--repo DIR] [--tier quick|thorough]

exit 0  no violation found;  exit 1  a line 'VIOLATION property=ID replay=PATH'
"""
import argparse
import fnmatch
import json
import os
import resource
import sys
import time
import traceback

from . import props
from .compare import (Comparer, EQUAL, DIFFERENT, UNKNOWN, is_private, locate, locate_data, describe)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'specs')
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Finding(object):
    def __init__(self, rule, where, construct, detail):
        self.rule, self.where, self.construct, self.detail = rule, where, construct, list(detail)

    def key(self):
        return '%s %s' % (self.rule, self.construct)

    def text(self):
        return '%s:%s: [%s] %s' % (self.where[0], self.where[1], self.rule, self.construct) + \
            ''.join('\n    ' + x for x in self.detail)


class Ctx(object):
    """what the rules get"""

    def __init__(self, repo, prop, tier):
        self.repo, self.prop, self.tier = repo, prop, tier
        self.cmp = Comparer(repo, SPEC)
        self.R, self.S = self.cmp.R, self.cmp.S


def select(S, pats, names):
    out = []
    for n in sorted(names):
        if '.vis.' in n or n.endswith('.vis') or n.endswith('._version'):
            continue
        if any(fnmatch.fnmatchcase(n, p) for p in pats):
            out.append(n)
    return out


def anchors(cmpr, pats):
    """the functions selected by the patterns and the private helpers they call"""
    sel = set(select(cmpr.S, pats, cmpr.S.functions))
    st = list(sel)
    while st:
        q = st.pop()
        for c in cmpr.callees('s', q):
            if is_private(c) and c in cmpr.S.functions and c not in sel and '.vis.' not in c:
                sel.add(c)
                st.append(c)
    return sorted(sel)


def compare(ctx, budget):
    """reference comparison of the anchors: findings and coverage"""
    c = ctx.cmp
    p = ctx.prop
    fs = anchors(c, p['anchors'])
    out, unknown, equal = [], [], []
    t0 = time.time()
    seen = set()
    missing = []
    for q in fs:
        left = budget - (time.time() - t0)
        if left < 5:
            unknown.append([q, 'time budget'])
            continue
        c.tlimit = min(60.0, left)
        if c.rq(q) is None and not is_private(q):
            cls = q.rsplit('.', 1)[0]
            mod = [m for m in c.S.modules if q.startswith(m + '.')]
            f = max(mod, key=len).replace('.', '/') + '.py'
            out.append(Finding('interface', (f, 1), q, ['public function or method is gone']))
            missing.append(q)
            continue
        r = c.verdict(q)
        if r.status == EQUAL:
            equal.append(q)
        elif r.status == UNKNOWN:
            unknown.append([q, r.why])
        else:
            k = (r.qual, r.inlined)
            if k in seen:
                continue
            seen.add(k)
            f, line, fq = locate(c, r)
            what = fq if r.qual == q else '%s (through %s)' % (fq, q)
            out.append(Finding('behaviour', (f, line), what, describe(r)))
    data = 0
    for iscls, pats in ((True, p['classes']), (False, p['consts'])):
        if iscls:
            names = select(c.S, pats, c.S.classes)
            for n in names:
                if n not in c.R.classes:
                    continue
                r = c.compare_data(n, True)
                data += getattr(r, 'count', 0)
                if r.status == DIFFERENT:
                    f, line, fq = locate_data(c, r, True)
                    out.append(Finding('data', (f, line), fq, describe(r)))
        else:
            for m in sorted(c.S.modules):
                if m.endswith('.vis') or m.endswith('_version'):
                    continue
                r = None
                if not any(pt.startswith(m + '.') for pt in pats):
                    continue
                if m not in c.R.modules:
                    continue
                r = c.compare_data(m, False)
                if r.status != DIFFERENT:
                    data += getattr(r, 'count', 0)
                    continue
                ds = [d for d in r.diffs if not d.weak and any(fnmatch.fnmatchcase(m + '.' + d.name, pt) for pt in pats)]
                data += getattr(r, 'count', 0)
                if ds:
                    r2 = type(r)(r.qual, r.status, ds)
                    f, line, fq = locate_data(c, r2, False)
                    out.append(Finding('data', (f, line), fq + '.' + ds[0].name, describe(r2)))
    cov = dict(functions_compared=len(fs), functions_equal=len(equal), undecided=unknown,
               attributes_and_constants_compared=data,
               summaries_computed=c.stats['pairs'], statements_interpreted=c.stats['stmts'],
               calls_resolved=c.stats['calls'], functions=fs)
    return out, cov


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            pre = 'known: property=%s ' % pid
            if l.startswith(pre):
                key, _, txt = l[len(pre):].partition(' :: ')
                out.append((key.strip(), txt.strip()))
    return out


def run(pid, repo, tier):
    from . import rules
    t0 = time.time()
    p = [x for x in props.PROPS if x['id'] == pid]
    if not p:
        sys.stderr.write('unknown property %s\n' % pid)
        return 2
    p = p[0]
    ctx = Ctx(repo, p, tier)
    findings, cov = compare(ctx, 420.0 if tier == 'quick' else 700.0)
    n_sites = {}
    for name in p['custom']:
        fn = rules.RULES.get(name)
        if fn is None:
            continue
        fs, rc = fn(ctx)
        findings.extend(fs)
        n_sites[name] = rc
    known = load_known(pid)
    new = []
    for f in findings:
        hit = [k for k in known if k[0] == f.key()]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1]))
        else:
            new.append(f)
    cov['rules'] = n_sites
    cov['explanation'] = (
        'Each listed function of the package was abstracted, by abstract interpretation of its syntax tree, into a '
        'normal form of its result, its effects on every argument, its errors with their conditions and its ordered '
        'external effects, for arbitrary inputs, and compared with that of the reference model in /verif/specs; '
        'the listed rules were evaluated on the same source. undecided lists functions whose comparison involved an '
        'approximated construct; nothing is claimed for those.')
    cov['findings'] = [f.text() for f in new][:20]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
              coverage=cov, wall_s=round(time.time() - t0, 3))
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d functions compared, %d equal, %d undecided, %d data items, rules %s, %.1fs' % (
        pid, cov['functions_compared'], cov['functions_equal'], len(cov['undecided']),
        cov['attributes_and_constants_compared'], ','.join(sorted(n_sites)) or '-', ev['wall_s']))
    for q, why in cov['undecided']:
        print('  undecided: %s (%s)' % (q, why))
    if cov['functions_compared'] == 0:
        sys.stderr.write('no anchor found\n')
        return 2
    if new:
        rp = os.path.join(edir, pid + '.violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, p['title']))
            for x in new:
                f.write(x.text() + '\n')
        for x in new[:5]:
            print(x.text())
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    rp = os.path.join(edir, pid + '.violation.txt')
    if os.path.exists(rp):
        os.remove(rp)
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--repo', default=os.environ.get('MDSA_REPO', '/repo'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    import threading
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    return run(a.property, a.repo, tier)
