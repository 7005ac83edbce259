#!/usr/bin/env python3
"""Mutation testing of the comparison: which syntactic mutants are told apart.

python3 tools/mutate.py OUT [filter ...]     (uses all cores)
"""
import ast
import copy
import multiprocessing as mp
import os
import random
import resource
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from mdsa import compare  # noqa
from mdsa.check import SPEC  # noqa

REPO = os.environ.get('MDSA_REPO', '/repo')
CMPSWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
OPSWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd,
          ast.BitAnd: ast.BitOr, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}
LOGN = ('logger', 'LOG', 'log', 'logging')


def islog(n):
    x = n
    while isinstance(x, (ast.Attribute, ast.Call)):
        x = x.value if isinstance(x, ast.Attribute) else x.func
    return isinstance(x, ast.Name) and x.id in LOGN


def mutants(fn):
    """(description, mutated copy) for a FunctionDef"""
    out = []
    nodes = list(ast.walk(fn))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                   {a.arg for a in fn.args.args + fn.args.kwonlyargs})
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or islog(n.value)):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip |= {id(x) for x in ast.walk(n.msg)}
    for d in fn.decorator_list:
        skip |= {id(x) for x in ast.walk(d)}

    def add(desc, i, f):
        c = copy.deepcopy(fn)
        ns = list(ast.walk(c))
        try:
            if f(ns[i], c) is False:
                return
        except (IndexError, AttributeError):
            return
        ast.fix_missing_locations(c)
        out.append((desc, c))
    rnd = random.Random(fn.name)
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMPSWAP:
            def f(x, c):
                x.ops[0] = CMPSWAP[type(x.ops[0])]()
            add('%d: cmp %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.BinOp) and type(n.op) in OPSWAP and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            def f(x, c):
                x.op = OPSWAP[type(x.op)]()
            add('%d: op %s' % (ln, ast.unparse(n)[:60]), i, f)
            if isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv)):
                def f(x, c):
                    x.left, x.right = x.right, x.left
                add('%d: swap %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.AugAssign):
            def f(x, c):
                x.op = OPSWAP[type(x.op)]()
            if type(n.op) in OPSWAP:
                add('%d: augop %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(x, c):
                x.value = not x.value
            add('%d: const %r' % (ln, n.value), i, f)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            def f(x, c):
                x.value = x.value + 1
            add('%d: const+1 %r' % (ln, n.value), i, f)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def f(x, c):
                x.test = ast.UnaryOp(op=ast.Not(), operand=x.test)
            add('%d: negate %s' % (ln, ast.unparse(n.test)[:60]), i, f)
        if isinstance(n, ast.BoolOp):
            def f(x, c):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            add('%d: andor %s' % (ln, ast.unparse(n)[:60]), i, f)

            def f(x, c):
                del x.values[-1]
            add('%d: dropclause %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            def f(x, c):
                for p in ast.walk(c):
                    for fld, v in ast.iter_fields(p):
                        if v is x:
                            setattr(p, fld, x.func.value)
                        elif isinstance(v, list) and x in v:
                            v[v.index(x)] = x.func.value
            add('%d: nocopy %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Call) and n.keywords and not islog(n):
            def f(x, c):
                del x.keywords[-1]
            if n.keywords[-1].arg not in (None, 'doc'):
                add('%d: dropkw %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            def f(x, c):
                x.args[0], x.args[1] = x.args[1], x.args[0]
            if ast.dump(n.args[0]) != ast.dump(n.args[1]):
                add('%d: swapargs %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            def f(x, c):
                x.elts.reverse()
            if ast.dump(n.elts[0]) != ast.dump(n.elts[1]):
                add('%d: swaptuple %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            o = rnd.choice([x for x in names if x != n.id])

            def f(x, c, o=o):
                x.id = o
            add('%d: name %s->%s' % (ln, n.id, o), i, f)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for k, s_ in enumerate(b):
                if not isinstance(s_, ast.stmt) or id(s_) in skip:
                    continue
                if isinstance(s_, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Continue, ast.Break, ast.If, ast.Assert)) \
                        and not (isinstance(s_, ast.Expr) and (isinstance(s_.value, ast.Constant) or islog(s_.value))):
                    def f(x, c, fld=fld, k=k):
                        getattr(x, fld)[k] = ast.Pass()
                    add('%d: drop %s' % (s_.lineno, ast.unparse(s_)[:60].split('\n')[0]), i, f)
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            def f(x, c):
                del x.type.elts[-1]
            add('%d: dropexc %s' % (ln, ast.unparse(n.type)), i, f)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) > 0:
            def f(x, c):
                x.value = x.value + 'x'
            add('%d: str %r' % (ln, n.value[:30]), i, f)
        if isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, ast.Load) and n.attr in ('x', 'y', 'width', 'height', 'row', 'col'):
            def f(x, c):
                sw = dict(x='y', y='x', width='height', height='width', row='col', col='row')
                x.attr = sw[x.attr]
            add('%d: axis %s' % (ln, ast.unparse(n)[:60]), i, f)
    return out


SWAPATTR = dict(image='weight', weight='image', bmask='ormask', ormask='bmask', noise='image', mfrac='weight',
                any='all', all='any', max='min', min='max', mean='median', median='mean', zeros_like='ones_like',
                ones_like='zeros_like', isfinite='isnan', isnan='isfinite', floor='ceil', ceil='floor', sum='mean',
                append='extend', row='col', col='row', variance='mask', logical_or='logical_and', maximum='minimum',
                logical_and='logical_or', minimum='maximum', int32='int16', float64='float32', int64='int16',
                sqrt='abs', abs='sqrt')
SWAPSTR = dict(g1='g2', g2='g1', i4='i2', f8='f4', f4='i4', flags='psf_flags', image='weight', weight='image', wmom='pgauss',
               row='col', col='row', row0='col0', noshear='1p', nearest='linear', i8='i4', x='y', y='x', e1='e2', e2='e1')


def mutants2(fn):
    """further kinds of changes"""
    out = []
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or islog(n.value)):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}

    def add(desc, i, f):
        c = copy.deepcopy(fn)
        ns = list(ast.walk(c))
        try:
            if f(ns[i], c) is False:
                return
        except (IndexError, AttributeError):
            return
        ast.fix_missing_locations(c)
        out.append((desc, c))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        ln = getattr(n, 'lineno', 0)
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for k, s_ in enumerate(b):
                if not isinstance(s_, ast.stmt) or id(s_) in skip:
                    continue
                if k + 1 < len(b) and id(b[k + 1]) not in skip and not isinstance(b[k + 1], (ast.Return, ast.Raise)) \
                        and not isinstance(s_, (ast.FunctionDef, ast.Import, ast.ImportFrom)):
                    def f(x, c, fld=fld, k=k):
                        y = getattr(x, fld)
                        y[k], y[k + 1] = y[k + 1], y[k]
                    add('%d: order %s' % (s_.lineno, ast.unparse(s_)[:60].split('\n')[0]), i, f)
                if isinstance(s_, (ast.For, ast.While)):
                    if isinstance(s_.body[0], ast.Assign):
                        def f(x, c, fld=fld, k=k):
                            y = getattr(x, fld)
                            y.insert(k, y[k].body.pop(0))
                        add('%d: hoist %s' % (s_.lineno, ast.unparse(s_.body[0])[:60].split('\n')[0]), i, f)
                    if len(s_.body) > 1:
                        def f(x, c, fld=fld, k=k):
                            y = getattr(x, fld)
                            y.insert(k + 1, y[k].body.pop())
                        add('%d: sink %s' % (s_.lineno, ast.unparse(s_.body[-1])[:60].split('\n')[0]), i, f)
                if isinstance(s_, (ast.Continue, ast.Break)):
                    def f(x, c, fld=fld, k=k):
                        y = getattr(x, fld)
                        y[k] = ast.Break() if isinstance(y[k], ast.Continue) else ast.Continue()
                    add('%d: breakcont' % s_.lineno, i, f)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and isinstance(n.ctx, ast.Load):
            def f(x, c):
                x.slice = ast.Constant(0)
            add('%d: index0 %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            def f(x, c):
                x.slice = ast.UnaryOp(ast.USub(), ast.Constant(1))
            add('%d: indexlast %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Attribute) and n.attr in SWAPATTR and isinstance(n.ctx, ast.Load):
            def f(x, c):
                x.attr = SWAPATTR[x.attr]
            add('%d: attr %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in SWAPSTR:
            def f(x, c):
                x.value = SWAPSTR[x.value]
            add('%d: strswap %s' % (ln, n.value), i, f)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript):
            def f(x, c):
                x.target.slice = ast.Slice()
            add('%d: nomask %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, (ast.Name, ast.Compare)):
            def f(x, c):
                x.targets[0].slice = ast.Slice()
            add('%d: nomask %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, ast.AugAssign):
            def f(x, c):
                for p in ast.walk(c):
                    for fld in ('body', 'orelse'):
                        b = getattr(p, fld, None)
                        if isinstance(b, list) and any(y is x for y in b):
                            b[[y is x for y in b].index(True)] = ast.Assign([x.target], x.value)
            add('%d: noaug %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, (ast.keyword,)) and n.arg and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            def f(x, c):
                x.value = ast.Constant(None)
            add('%d: kwnone %s' % (getattr(n.value, 'lineno', 0), n.arg), i, f)
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ('copy.deepcopy', 'copy.copy', 'np.array', 'deepcopy', 'np.abs', 'np.sqrt', 'sorted', 'int', 'float', 'list', 'bool'):
            def f(x, c):
                for p in ast.walk(c):
                    for fld, v in ast.iter_fields(p):
                        if v is x:
                            setattr(p, fld, x.args[0])
                        elif isinstance(v, list) and any(y is x for y in v):
                            v[[y is x for y in v].index(True)] = x.args[0]
            add('%d: nocall %s' % (ln, ast.unparse(n)[:60]), i, f)
        if isinstance(n, (ast.If,)) and not n.orelse:
            def f(x, c):
                x.test = ast.Constant(True)
            add('%d: always %s' % (ln, ast.unparse(n.test)[:60]), i, f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
            def f(x, c):
                for p in ast.walk(c):
                    for fld, v in ast.iter_fields(p):
                        if v is x:
                            setattr(p, fld, x.operand)
                        elif isinstance(v, list) and any(y is x for y in v):
                            v[[y is x for y in v].index(True)] = x.operand
            add('%d: nonot %s' % (ln, ast.unparse(n)[:60]), i, f)
    return out


def mutants3(fn):
    """a value passed through an unknown function: shows which values no check depends on"""
    out = []
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or islog(n.value)):
            skip |= set(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip |= {id(x) for x in ast.walk(n.msg)}
    for d in fn.decorator_list:
        skip |= {id(x) for x in ast.walk(d)}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        spots = []
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.keyword)) and n.value is not None:
            spots.append(('value', None))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            spots.append(('test', None))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Name, ast.Constant, ast.BinOp)):
            spots.append(('slice', None))
        elif isinstance(n, ast.Call):
            spots += [('args', j) for j, a in enumerate(n.args) if not isinstance(a, ast.Starred)]
        elif isinstance(n, ast.Compare) and not isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            spots += [('left', None), ('comparators', 0)]
        elif isinstance(n, ast.BinOp) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            spots += [('left', None), ('right', None)]
        for fld, j in spots:
            c = copy.deepcopy(fn)
            x = list(ast.walk(c))[i]
            e = getattr(x, fld) if j is None else getattr(x, fld)[j]
            w = ast.Call(ast.Attribute(ast.Name('zzz_perturb', ast.Load()), 'f', ast.Load()), [e], [])
            if j is None:
                setattr(x, fld, w)
            else:
                getattr(x, fld)[j] = w
            ast.fix_missing_locations(c)
            out.append(('%d: pert %s in %s' % (getattr(e, 'lineno', 0), ast.unparse(e)[:40], ast.unparse(n)[:50].split('\n')[0]), c))
    return out


if os.environ.get('OPS') == '2':
    mutants = mutants2
elif os.environ.get('OPS') == '3':
    mutants = mutants3


def replace_fn(tree, qn, new):
    """tree with function at path qn (list) replaced"""
    t = copy.deepcopy(tree)
    body = t.body
    for p in qn[:-1]:
        body = [x for x in body if isinstance(x, ast.ClassDef) and x.name == p][0].body
    for i, x in enumerate(body):
        if isinstance(x, ast.FunctionDef) and x.name == qn[-1]:
            body[i] = new
    return t


def jobs(flt):
    C = compare.Comparer(REPO, SPEC)
    out = []
    for q in sorted(C.S.functions):
        if '.vis.' in q or q not in C.R.functions:
            continue
        if flt and not any(f in q for f in flt):
            continue
        node, m, ci = C.R.functions[q]
        for k in range(len(mutants(node))):
            out.append((q, k))
    return out


_C = {}


def work(job):
    q, k = job
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    if 'c' not in _C:
        _C['c'] = compare.Comparer(REPO, SPEC)
    C = _C['c']
    node, m, ci = C.R.functions[q]
    desc, new = mutants(node)[k]
    path = q[len(m.name) + 1:].split('.')
    t = replace_fn(m.tree, path, new)
    if os.environ.get('OPS') == '3':
        t.body.insert(1, ast.parse('import zzz_perturb').body[0])
    t0 = time.time()
    try:
        c2 = compare.Comparer(REPO, SPEC, overlay={m.path: ast.unparse(t)}, tlimit=20)
        # the reference side never changes
        for kk, v in C.memo.items():
            if kk[0] == 's':
                c2.memo[kk] = v
        r = c2.verdict(q)
        for kk, v in c2.memo.items():
            if kk[0] == 's' and not isinstance(v, str):
                C.memo[kk] = v
        st, why = r.status, r.why
    except Exception as e:
        st, why = 'CRASH', repr(e)[:200]
    return (q, k, desc, st, why, time.time() - t0)


def main():
    out = sys.argv[1]
    flt = sys.argv[2:]
    js = jobs(flt)
    random.Random(1).shuffle(js)
    n = int(os.environ.get('N', '0'))
    if n:
        js = js[:n]
    print(len(js), 'mutants')
    from collections import Counter
    cnt = Counter()
    t0 = time.time()
    with mp.Pool(int(os.environ.get('J', '8')), maxtasksperchild=40) as p, open(out, 'w') as f:
        for r in p.imap_unordered(work, js, chunksize=1):
            cnt[r[3]] += 1
            f.write('%s\t%s\t%s\t%s\t%.1f\n' % (r[3], r[0], r[2], r[4], r[5]))
            f.flush()
    print(cnt, '%.0fs' % (time.time() - t0))


if __name__ == '__main__':
    main()
