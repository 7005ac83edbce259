#!/usr/bin/env python3
"""Refactoring battery: behaviour-preserving rewrites of every function must not be reported.

python3 tools/refactor.py OUT [filter ...]     (env: J processes, N limit, KIND substring of the kind)
"""
import ast
import builtins
import copy
import multiprocessing as mp
import os
import random
import resource
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from mdsa import compare  # noqa
from mdsa.check import SPEC  # noqa

REPO = os.environ.get('MDSA_REPO', '/repo')
SCOPES = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
BUILT = set(dir(builtins))


def names_in(nodes):
    """(loaded, stored) names, comprehension variables excluded from stored"""
    ld, st = set(), set()

    def visit(n, bound):
        if isinstance(n, COMPS):
            b2 = set(bound)
            for g in n.generators:
                visit(g.iter, b2)
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        b2.add(t.id)
                for c in g.ifs:
                    visit(c, b2)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    visit(getattr(n, f), b2)
            return
        if isinstance(n, ast.Lambda):
            b2 = set(bound) | {a.arg for a in n.args.args}
            visit(n.body, b2)
            return
        if isinstance(n, ast.FunctionDef):
            st.add(n.name)
            l2, s2 = names_in(n.body)
            ld.update(l2 - s2 - {a.arg for a in n.args.args})
            return
        if isinstance(n, ast.Name):
            if n.id in bound:
                return
            if isinstance(n.ctx, ast.Load):
                ld.add(n.id)
            else:
                st.add(n.id)
                if isinstance(n.ctx, ast.Del):
                    ld.add(n.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            ld.add(n.target.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            st.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                st.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            visit(c, bound)
    for n in nodes:
        visit(n, set())
    return ld, st


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def has(nodes, types):
    """contains such a node outside nested functions"""
    st = list(nodes)
    while st:
        n = st.pop()
        if isinstance(n, types):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def jumps_out(stmts):
    """return anywhere, or break/continue that leaves the block"""
    def v(n, inloop):
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
            return True
        if isinstance(n, (ast.Break, ast.Continue)):
            return not inloop
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return False
        il = inloop or isinstance(n, (ast.For, ast.While))
        return any(v(c, il) for c in ast.iter_child_nodes(n))
    return any(v(s, False) for s in stmts)


def terminates(stmts):
    if not stmts:
        return False
    l = stmts[-1]
    if isinstance(l, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(l, ast.If):
        return bool(l.orelse) and terminates(l.body) and terminates(l.orelse)
    return False


def definite(stmts, before):
    """names definitely assigned after stmts"""
    d = set(before)
    for s in stmts:
        if isinstance(s, ast.If):
            a, b = definite(s.body, d), definite(s.orelse, d)
            if terminates(s.body):
                d = b
            elif terminates(s.orelse):
                d = a
            else:
                d = a & b
        elif isinstance(s, (ast.For, ast.While)):
            pass
        elif isinstance(s, ast.Try):
            r = definite(s.body + s.orelse, d)
            for h in s.handlers:
                if not terminates(h.body):
                    r &= definite(h.body, d)
            d = definite(s.finalbody, r)
        elif isinstance(s, ast.With):
            _, st = names_in([i.optional_vars for i in s.items if i.optional_vars])
            d = definite(s.body, d | st)
        else:
            _, st = names_in([s])
            d |= st
    return d


def upward(stmts):
    """names possibly read before being assigned in stmts"""
    out = set()
    d = set()
    for s in stmts:
        ld, st = names_in([s])
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            out |= ld - d
            if isinstance(s, (ast.For, ast.While, ast.Try, ast.If)):
                # stored conditionally: also needed as input for the fall-through value
                pass
        else:
            out |= ld - d
        d = definite([s], d)
    return out


def blocks(fn):
    """(list of statements, path of enclosing) for every body in fn, outside nested functions"""
    out = []

    def v(n, loops):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((b, loops))
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        v(s, loops + ([n] if isinstance(n, (ast.For, ast.While)) else []) if False else loops + ([s] if isinstance(s, (ast.For, ast.While)) else []))
        for h in getattr(n, 'handlers', ()):
            v(h, loops)
    v(fn, [])
    return out


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def islog(n):
    x = n
    while isinstance(x, (ast.Attribute, ast.Call)):
        x = x.value if isinstance(x, ast.Attribute) else x.func
    return isinstance(x, ast.Name) and x.id in ('logger', 'LOG', 'log', 'logging')


def name(x, ctx=None):
    return ast.Name(id=x, ctx=ctx or ast.Load())


def assign(x, v):
    return ast.Assign(targets=[name(x, ast.Store())], value=v)


PURECALL = {'len', 'range', 'dict', 'list', 'tuple', 'int', 'float', 'max', 'min', 'abs', 'bool', 'str', 'isinstance'}


def pure(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and f.id in PURECALL:
                continue
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np' and \
                    not any(k.arg == 'out' for k in x.keywords):
                continue
            return False
        if isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)):
            return False
    return True


# ---------------------------------------------------------------- transformations
# each: f(fn, info) -> list of (kind, description, new function, extra top level functions, extra methods, extra consts)

def where(fn, s):
    return '%d %s' % (getattr(s, 'lineno', 0), ast.unparse(s).split('\n')[0][:50])


def edit(fn, idx, f):
    """copy of fn with f(node idx, copy) applied; None if f refuses"""
    c = copy.deepcopy(fn)
    ns = list(ast.walk(c))
    r = f(ns[idx], c)
    if r is False:
        return None
    return c


def replace_node(root, old, new):
    for p in ast.walk(root):
        for fld, v in ast.iter_fields(p):
            if v is old:
                setattr(p, fld, new)
                return True
            if isinstance(v, list):
                for i, e in enumerate(v):
                    if e is old:
                        if isinstance(new, list):
                            v[i:i + 1] = new
                        else:
                            v[i] = new
                        return True
    return False


def body_of(root, s):
    for p in ast.walk(root):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and any(x is s for x in b):
                return b, [i for i, x in enumerate(b) if x is s][0]
    return None, None


def t_rename(fn, info):
    ps = set(params(fn))
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn):
        return
    _, st = names_in(fn.body)
    for s in fn.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    st.discard((a.asname or a.name).split('.')[0])
    loc = sorted(st - ps)
    if not loc:
        return
    c = copy.deepcopy(fn)
    mp_ = {x: 'zz_%d' % (len(loc) - i) for i, x in enumerate(loc)}
    for n in ast.walk(c):
        if isinstance(n, ast.Name) and n.id in mp_:
            n.id = mp_[n.id]
        if isinstance(n, ast.ExceptHandler) and n.name in mp_:
            n.name = mp_[n.name]
    yield 'rename', 'all locals', c


def t_return(fn, info):
    c = copy.deepcopy(fn)
    k = 0
    for n in list(ast.walk(c)):
        if isinstance(n, ast.Return) and n.value is not None:
            b, i = body_of(c, n)
            if b is None:
                continue
            b[i:i + 1] = [assign('retval_', n.value), ast.Return(value=name('retval_'))]
            k += 1
    if k and not any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn):
        yield 'retvar', 'returns through a variable', c


def t_hoist(fn, info):
    """arguments of the calls of a statement go to temporaries"""
    for b, _ in blocks(fn):
        for s in b:
            if not isinstance(s, (ast.Assign, ast.Expr, ast.Return)) or isdoc(s):
                continue
            v = s.value
            if not isinstance(v, ast.Call) or islog(v) or has([v], (ast.Starred,)):
                continue
            if not isinstance(v.func, (ast.Name, ast.Attribute)) or (isinstance(v.func, ast.Attribute) and not pure(v.func)):
                continue
            c = copy.deepcopy(fn)
            s2 = [x for x, y in zip(ast.walk(c), ast.walk(fn)) if y is s][0]
            b2, i2 = body_of(c, s2)
            new = []
            call = s2.value
            for j, a in enumerate(call.args):
                if not isinstance(a, (ast.Name, ast.Constant)):
                    new.append(assign('tmp%d_' % j, a))
                    call.args[j] = name('tmp%d_' % j)
            for kw in call.keywords:
                if kw.arg is None:
                    continue
                if not isinstance(kw.value, (ast.Name, ast.Constant)):
                    new.append(assign('tmp_%s_' % kw.arg, kw.value))
                    kw.value = name('tmp_%s_' % kw.arg)
            if new:
                b2[i2:i2] = new
                yield 'hoist', where(fn, s), c


def t_inlinetmp(fn, info):
    """x = e; s(x) -> s(e), single use in the next statement, evaluated first"""
    for b, loops in blocks(fn):
        for i in range(len(b) - 1):
            s, nx = b[i], b[i + 1]
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            x = s.targets[0].id
            uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)]
            if len(uses) != 1 or not isinstance(nx, (ast.Assign, ast.Return, ast.Expr)):
                continue
            if not any(n is uses[0] for n in ast.walk(nx.value)):
                continue
            if has([nx.value], COMPS + (ast.Lambda, ast.IfExp, ast.BoolOp)):
                continue
            # only when everything else of the statement is free of calls before it
            if not (pure(s.value) or sum(isinstance(n, ast.Call) for n in ast.walk(nx)) <= 1):
                continue
            c = copy.deepcopy(fn)
            mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
            s2, u2 = mp_[id(s)], mp_[id(uses[0])]
            replace_node(c, u2, s2.value)
            replace_node(c, s2, [])
            yield 'inlinetmp', where(fn, s), c


def neg(e):
    SW = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
          ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn):
        return ast.Compare(left=e.left, ops=[SW[type(e.ops[0])]()], comparators=e.comparators)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.BoolOp):
        return ast.BoolOp(op=ast.Or() if isinstance(e.op, ast.And) else ast.And(), values=[neg(x) for x in e.values])
    return ast.UnaryOp(op=ast.Not(), operand=e)


def t_ifs(fn, info):
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.If):
            if n.orelse:
                def f(x, c):
                    x.test = neg(x.test)
                    x.body, x.orelse = x.orelse, x.body
                yield 'ifinvert', where(fn, n), edit(fn, i, f)
            b, k = body_of(fn, n)
            if terminates(n.body) and n.orelse and b is not None:
                def f(x, c):
                    b, k = body_of(c, x)
                    b[k + 1:k + 1] = x.orelse
                    x.orelse = []
                yield 'ifflatten', where(fn, n), edit(fn, i, f)
            if terminates(n.body) and not n.orelse and b is not None and k + 1 < len(b):
                def f(x, c):
                    b, k = body_of(c, x)
                    x.orelse = b[k + 1:]
                    del b[k + 1:]
                yield 'ifnest', where(fn, n), edit(fn, i, f)
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                def f(x, c):
                    v = x.test.values
                    inner = ast.If(test=v[-1], body=x.body, orelse=[])
                    x.test = v[0] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[:-1])
                    x.body = [inner]
                yield 'ifsplit', where(fn, n), edit(fn, i, f)
            if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                def f(x, c):
                    x.test = ast.BoolOp(op=ast.And(), values=[x.test, x.body[0].test])
                    x.body = x.body[0].body
                yield 'ifmerge', where(fn, n), edit(fn, i, f)
            if isinstance(n.test, ast.BoolOp):
                def f(x, c):
                    x.test = ast.UnaryOp(op=ast.Not(), operand=neg(x.test))
                yield 'demorgan', where(fn, n), edit(fn, i, f)

            def f(x, c):
                b, k = body_of(c, x)
                if b is None:
                    return False
                # elif tests are only evaluated when reached
                for p in ast.walk(c):
                    if isinstance(p, ast.If) and p.orelse and p.orelse[0] is x and len(p.orelse) == 1:
                        return False
                b.insert(k, assign('cond_', x.test))
                x.test = name('cond_')
            r = edit(fn, i, f)
            if r is not None:
                yield 'condvar', where(fn, n), r
            # both branches assign one name
            if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) \
                    and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]) and isinstance(n.body[0].targets[0], ast.Name):
                def f(x, c):
                    replace_node(c, x, ast.Assign(targets=x.body[0].targets, value=ast.IfExp(
                        test=x.test, body=x.body[0].value, orelse=x.orelse[0].value)))
                yield 'toifexp', where(fn, n), edit(fn, i, f)
            if len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.Assign) and isinstance(n.body[0].targets[0], ast.Name) \
                    and n.body[0].targets[0].id in params(fn):
                def f(x, c):
                    replace_node(c, x, ast.Assign(targets=x.body[0].targets, value=ast.IfExp(
                        test=x.test, body=x.body[0].value, orelse=name(x.body[0].targets[0].id))))
                yield 'defaultexp', where(fn, n), edit(fn, i, f)
            if n.orelse and len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Return) and isinstance(n.orelse[0], ast.Return) \
                    and n.body[0].value is not None and n.orelse[0].value is not None:
                def f(x, c):
                    replace_node(c, x, ast.Return(value=ast.IfExp(test=x.test, body=x.body[0].value, orelse=x.orelse[0].value)))
                yield 'toifexp', where(fn, n), edit(fn, i, f)
        if isinstance(n, (ast.Assign, ast.Return)) and isinstance(n.value, ast.IfExp):
            def f(x, c):
                e = x.value
                a, b = copy.copy(x), copy.copy(x)
                a.value, b.value = e.body, e.orelse
                replace_node(c, x, ast.If(test=e.test, body=[a], orelse=[b]))
            yield 'fromifexp', where(fn, n), edit(fn, i, f)


def t_expr(fn, info):
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            SW = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if type(n.ops[0]) in SW and pure(n):
                def f(x, c):
                    x.left, x.comparators, x.ops = x.comparators[0], [x.left], [SW[type(x.ops[0])]()]
                yield 'cmpflip', ast.unparse(n)[:60], edit(fn, i, f)
            if type(n.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
                def f(x, c):
                    replace_node(c, x, ast.UnaryOp(op=ast.Not(), operand=neg(x)))
                yield 'notcmp', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.Compare) and len(n.ops) == 2 and pure(n):
            def f(x, c):
                replace_node(c, x, ast.BoolOp(op=ast.And(), values=[
                    ast.Compare(left=x.left, ops=[x.ops[0]], comparators=[x.comparators[0]]),
                    ast.Compare(left=copy.deepcopy(x.comparators[0]), ops=[x.ops[1]], comparators=[x.comparators[1]])]))
            yield 'chain', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and pure(n) and not isinstance(n.left, (ast.List, ast.Constant)) \
                and not isinstance(n.right, ast.List):
            def f(x, c):
                x.left, x.right = x.right, x.left
            yield 'commute', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and pure(n) and any(
                isinstance(y, ast.Constant) and isinstance(y.value, (int, float)) for y in (n.left, n.right)):
            def f(x, c):
                x.left, x.right = x.right, x.left
            yield 'commute', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and pure(n):
            def f(x, c):
                replace_node(c, x, ast.BinOp(left=x.left, op=ast.Mult(), right=copy.deepcopy(x.left)))
            yield 'square', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) and n.right.value in (2, 2.0, 4):
            def f(x, c):
                x.op = ast.Mult()
                x.right = ast.Constant(value=1.0 / x.right.value)
            yield 'half', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.JoinedStr):
            if all(isinstance(v, ast.Constant) or (v.format_spec is None and v.conversion == -1) for v in n.values):
                def f(x, c):
                    s = ''.join(v.value.replace('{', '{{').replace('}', '}}') if isinstance(v, ast.Constant) else '{}' for v in x.values)
                    replace_node(c, x, ast.Call(func=ast.Attribute(value=ast.Constant(value=s), attr='format', ctx=ast.Load()),
                                                args=[v.value for v in x.values if not isinstance(v, ast.Constant)], keywords=[]))
                yield 'fstring', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            s = n.left.value
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            parts = s.split('%s')
            if len(parts) == len(args) + 1 and '%' not in ''.join(parts) and '{' not in s:
                def f(x, c):
                    args = x.right.elts if isinstance(x.right, ast.Tuple) else [x.right]
                    vals = []
                    for p, a in zip(parts, args + [None]):
                        if p:
                            vals.append(ast.Constant(value=p))
                        if a is not None:
                            vals.append(ast.FormattedValue(value=a, conversion=-1))
                    replace_node(c, x, ast.JoinedStr(values=vals))
                yield 'tofstring', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            def f(x, c):
                replace_node(c, x, ast.Call(func=name('dict'), args=[], keywords=[
                    ast.keyword(arg=k.value, value=v) for k, v in zip(x.keys, x.values)]))
            yield 'dictcall', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np' \
                and n.func.attr in ('any', 'all', 'sum', 'max', 'min', 'mean') and len(n.args) == 1 and not n.keywords \
                and isinstance(n.args[0], (ast.Name, ast.Compare)):
            def f(x, c):
                x.func.value = x.args[0]
                x.args = []
            yield 'npmethod', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('any', 'all', 'sum', 'max', 'min', 'mean', 'copy') \
                and not n.args and not n.keywords and not (n.func.attr == 'copy'):
            def f(x, c):
                x.args = [x.func.value]
                x.func = ast.Attribute(value=name('np'), attr=x.func.attr, ctx=ast.Load())
            if info.get('np'):
                yield 'npfunc', ast.unparse(n)[:60], edit(fn, i, f)


def t_loops(fn, info):
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.For) and not n.orelse:
            it = n.iter
            # enumerate with an unused counter
            if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'range', 'zip')):
                def f(x, c):
                    x.iter = ast.Call(func=name('enumerate'), args=[x.iter], keywords=[])
                    x.target = ast.Tuple(elts=[name('ienum_', ast.Store()), x.target], ctx=ast.Store())
                yield 'toenum', where(fn, n), edit(fn, i, f)
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 \
                    and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
                cn = n.target.elts[0].id
                if isinstance(it.args[0], (ast.Name, ast.Attribute)):
                    def f(x, c):
                        seq = x.iter.args[0]
                        tgt = x.target.elts[1]
                        x.body.insert(0, ast.Assign(targets=[tgt], value=ast.Subscript(
                            value=copy.deepcopy(seq), slice=name(cn), ctx=ast.Load())))
                        x.target = name(cn, ast.Store())
                        x.iter = ast.Call(func=name('range'), args=[ast.Call(func=name('len'), args=[seq], keywords=[])], keywords=[])
                    yield 'enum2range', where(fn, n), edit(fn, i, f)
                if not jumps_out(n.body):
                    def f(x, c):
                        seq = x.iter.args[0]
                        x.iter = seq
                        x.target = x.target.elts[1]
                        x.body.append(ast.AugAssign(target=name(cn, ast.Store()), op=ast.Add(), value=ast.Constant(value=1)))
                        b, k = body_of(c, x)
                        b.insert(k, assign(cn, ast.Constant(value=0)))
                    after = False
                    # the counter has another value after the loop
                    used_after = [y for y in nodes if isinstance(y, ast.Name) and y.id == cn and y.lineno > n.end_lineno]
                    if not used_after:
                        yield 'counter', where(fn, n), edit(fn, i, f)
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1 \
                    and isinstance(n.target, ast.Name) and not jumps_out(n.body):
                v = n.target.id
                if not [y for y in nodes if isinstance(y, ast.Name) and y.id == v and y.lineno > n.end_lineno]:
                    def f(x, c):
                        b, k = body_of(c, x)
                        stop = x.iter.args[0]
                        x.body.append(ast.AugAssign(target=name(v, ast.Store()), op=ast.Add(), value=ast.Constant(value=1)))
                        b[k:k + 1] = [assign('nloop_', stop), assign(v, ast.Constant(value=0)),
                                      ast.While(test=ast.Compare(left=name(v), ops=[ast.Lt()], comparators=[name('nloop_')]),
                                                body=x.body, orelse=[])]
                    yield 'towhile', where(fn, n), edit(fn, i, f)
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) == 1:
                def f(x, c):
                    x.iter.args.insert(0, ast.Constant(value=0))
                yield 'range0', where(fn, n), edit(fn, i, f)
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and len(it.args) == 2 \
                    and isinstance(n.target, ast.Tuple) and all(isinstance(a, ast.Name) for a in it.args):
                def f(x, c):
                    a, b_ = x.iter.args
                    t0, t1 = x.target.elts
                    x.iter = ast.Call(func=name('enumerate'), args=[a], keywords=[])
                    x.target = ast.Tuple(elts=[name('iz_', ast.Store()), t0], ctx=ast.Store())
                    x.body.insert(0, ast.Assign(targets=[t1], value=ast.Subscript(value=b_, slice=name('iz_'), ctx=ast.Load())))
                yield 'zip2enum', where(fn, n), edit(fn, i, f)
            # items()
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(n.target, ast.Tuple) \
                    and isinstance(n.target.elts[0], ast.Name):
                def f(x, c):
                    d = x.iter.func.value
                    k, v = x.target.elts
                    x.iter = d
                    x.target = k
                    x.body.insert(0, ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=name(k.id), ctx=ast.Load())))
                yield 'items2keys', where(fn, n), edit(fn, i, f)
            # iterate over a copy
            # continue -> nest
            for k, s in enumerate(n.body):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) and isinstance(s.body[-1], ast.Continue) and k + 1 < len(n.body):
                    def f(x, c, k=k):
                        s = x.body[k]
                        rest = x.body[k + 1:]
                        del x.body[k + 1:]
                        if len(s.body) == 1:
                            s.test = neg(s.test)
                            s.body = rest
                        else:
                            del s.body[-1]
                            s.orelse = rest
                    yield 'nocontinue', where(fn, s), edit(fn, i, f)
            l = n.body[-1]
            if isinstance(l, ast.If) and not l.orelse and len(n.body) <= 3 and not isinstance(l.body[-1], (ast.Continue, ast.Break)):
                def f(x, c):
                    s = x.body[-1]
                    bd = s.body
                    s.test = neg(s.test)
                    s.body = [ast.Continue()]
                    x.body.extend(bd)
                yield 'tocontinue', where(fn, l), edit(fn, i, f)
            # append loop -> comprehension
            b, k = body_of(fn, n)
            if b is not None and k > 0 and len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call) \
                    and isinstance(n.body[0].value.func, ast.Attribute) and n.body[0].value.func.attr == 'append' \
                    and isinstance(n.body[0].value.func.value, ast.Name):
                ln = n.body[0].value.func.value.id
                p = b[k - 1]
                if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name) and p.targets[0].id == ln and isinstance(p.value, ast.List) and not p.value.elts:
                    def f(x, c):
                        b, k = body_of(c, x)
                        e = x.body[0].value.args[0]
                        b[k - 1:k + 1] = [assign(ln, ast.ListComp(elt=e, generators=[ast.comprehension(
                            target=x.target, iter=x.iter, ifs=[], is_async=0)]))]
                    yield 'tocomp', where(fn, n), edit(fn, i, f)
        if isinstance(n, (ast.Assign, ast.Return)) and isinstance(n.value, (ast.ListComp, ast.DictComp)) and len(n.value.generators) == 1 \
                and (isinstance(n, ast.Return) or isinstance(n.targets[0], ast.Name)):
            def f(x, c):
                b, k = body_of(c, x)
                e = x.value
                g = e.generators[0]
                if isinstance(e, ast.ListComp):
                    init = ast.List(elts=[], ctx=ast.Load())
                    st = ast.Expr(value=ast.Call(func=ast.Attribute(value=name('acc_'), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))
                else:
                    init = ast.Dict(keys=[], values=[])
                    st = ast.Assign(targets=[ast.Subscript(value=name('acc_'), slice=e.key, ctx=ast.Store())], value=e.value)
                body = [st]
                for cnd in g.ifs:
                    body = [ast.If(test=cnd, body=body, orelse=[])]
                x.value = name('acc_')
                b[k:k] = [assign('acc_', init), ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            # comprehension variables must not clash
            tg = {y.id for y in ast.walk(n.value.generators[0].target) if isinstance(y, ast.Name)}
            ld, st = names_in([s for s in fn.body])
            if not (tg & (st | set(params(fn)))):
                yield 'fromcomp', where(fn, n), edit(fn, i, f)


def t_calls(fn, info):
    """keyword <-> positional for functions of the package called by a plain name"""
    sigs = info['sigs']
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in sigs and not has([n], (ast.Starred,)):
            ps = sigs[n.func.id]
            if any(k.arg is None for k in n.keywords):
                continue
            if n.args and len(n.args) <= len(ps):
                def f(x, c, ps=ps):
                    x.keywords = [ast.keyword(arg=ps[j], value=a) for j, a in enumerate(x.args)] + x.keywords
                    x.args = []
                yield 'tokw', ast.unparse(n)[:60], edit(fn, i, f)
            if n.keywords and pure(n) or (n.keywords and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in n.keywords)):
                def f(x, c, ps=ps):
                    while x.keywords and len(x.args) < len(ps):
                        k = [k for k in x.keywords if k.arg == ps[len(x.args)]]
                        if not k:
                            break
                        x.args.append(k[0].value)
                        x.keywords.remove(k[0])
                yield 'topos', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.Call) and len(n.keywords) >= 2 and all(k.arg for k in n.keywords) and all(pure(k.value) for k in n.keywords):
            def f(x, c):
                x.keywords.reverse()
            yield 'kworder', ast.unparse(n)[:60], edit(fn, i, f)
        if isinstance(n, ast.Call) and len(n.keywords) >= 1 and all(k.arg for k in n.keywords) and not islog(n):
            def f(x, c):
                s = None
                for b, _ in blocks(c):
                    for y in b:
                        if any(z is x for z in ast.walk(y)) and isinstance(y, (ast.Assign, ast.Expr, ast.Return)):
                            s = y
                if s is None or not (s.value is x) or not all(isinstance(a, (ast.Name, ast.Constant)) for a in x.args):
                    return False
                b, k = body_of(c, s)
                b.insert(k, assign('kw_', ast.Call(func=name('dict'), args=[], keywords=x.keywords)))
                x.keywords = [ast.keyword(arg=None, value=name('kw_'))]
            r = edit(fn, i, f)
            if r is not None:
                yield 'kwdict', ast.unparse(n)[:60], r


def t_stmts(fn, info):
    for b, _ in blocks(fn):
        for k in range(len(b) - 1):
            s, t = b[k], b[k + 1]
            if isinstance(s, ast.Assign) and isinstance(t, ast.Assign) and not isdoc(s) and pure(s) and pure(t) and (
                    all(isinstance(x, ast.Name) for x in s.targets + t.targets)):
                l1, s1 = names_in([s])
                l2, s2 = names_in([t])
                if not (s1 & (l2 | s2)) and not (s2 & l1):
                    c = copy.deepcopy(fn)
                    mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
                    b2, k2 = body_of(c, mp_[id(s)])
                    b2[k2], b2[k2 + 1] = b2[k2 + 1], b2[k2]
                    yield 'swap', where(fn, s), c
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple):
                ld, st = names_in([s])
                if not (ld & st) and all(isinstance(x, ast.Name) for x in s.targets[0].elts):
                    c = copy.deepcopy(fn)
                    mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
                    s2 = mp_[id(s)]
                    replace_node(c, s2, [ast.Assign(targets=[x], value=v) for x, v in zip(s2.targets[0].elts, s2.value.elts)])
                    yield 'untuple', where(fn, s), c
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and s.value.keys and isinstance(s.targets[0], ast.Name) and all(s.value.keys):
                c = copy.deepcopy(fn)
                mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
                s2 = mp_[id(s)]
                new = [ast.Assign(targets=s2.targets, value=ast.Dict(keys=[], values=[]))]
                for kk, v in zip(s2.value.keys, s2.value.values):
                    new.append(ast.Assign(targets=[ast.Subscript(value=name(s2.targets[0].id), slice=kk, ctx=ast.Store())], value=v))
                ld, _ = names_in([s.value])
                if s.targets[0].id not in ld:
                    replace_node(c, s2, new)
                    yield 'dictfill', where(fn, s), c
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, (ast.Subscript, ast.Attribute)) \
                    and pure(s):
                # d[a][b] = e  ->  sub = d[a]; sub[b] = e
                c = copy.deepcopy(fn)
                mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
                s2 = mp_[id(s)]
                base = s2.targets[0].value
                nb = copy.deepcopy(base)
                for q in ast.walk(nb):
                    if hasattr(q, 'ctx'):
                        q.ctx = ast.Load()
                s2.targets[0].value = name('sub_')
                bb, kk = body_of(c, s2)
                bb.insert(kk, assign('sub_', nb))
                yield 'subalias', where(fn, s), c
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                c = copy.deepcopy(fn)
                mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
                s2 = mp_[id(s)]
                replace_node(c, s2, assign(s2.target.id, ast.BinOp(left=name(s2.target.id), op=s2.op, right=s2.value)))
                yield 'unaug', where(fn, s), c
            if isinstance(s, ast.With) and len(s.items) == 2:
                c = copy.deepcopy(fn)
                mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
                s2 = mp_[id(s)]
                s2.body = [ast.With(items=[s2.items[1]], body=s2.body)]
                del s2.items[1]
                yield 'withsplit', where(fn, s), c


def t_attrs(fn, info):
    """self.x / param.x read once into a local (attributes not stored in the function)"""
    stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)}
    called = {id(n.func) for n in ast.walk(fn) if isinstance(n, ast.Call)}
    if fn.name == '__init__':
        return
    seen = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and id(n) not in called \
                and n.attr not in stored and n.attr not in seen:
            seen.add(n.attr)
            # used at top level of the body in a statement that always runs
            k0 = 1 if fn.body and isdoc(fn.body[0]) else 0
            if len(fn.body) <= k0:
                continue
            first = fn.body[k0]
            if not isinstance(first, (ast.Assign, ast.Expr, ast.Return)) or not any(
                    isinstance(x, ast.Attribute) and x.attr == n.attr and isinstance(x.value, ast.Name) and x.value.id == 'self' for x in ast.walk(first)):
                continue
            if info['isprop'](n.attr):
                continue
            c = copy.deepcopy(fn)
            for x in list(ast.walk(c)):
                if isinstance(x, ast.Attribute) and x.attr == n.attr and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load):
                    replace_node(c, x, name('loc_' + n.attr))
            c.body.insert(k0, assign('loc_' + n.attr, ast.Attribute(value=name('self'), attr=n.attr, ctx=ast.Load())))
            yield 'attrlocal', n.attr, c


def t_extract(fn, info):
    """a block of statements becomes a private helper"""
    rnd = random.Random(fn.name)
    ps = params(fn)
    if has(fn.body, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
        return
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn):
        return
    njit = any('njit' in ast.unparse(d) for d in fn.decorator_list)
    _, allst = names_in(fn.body)
    local = set(ps) | allst
    for s in fn.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                return
    cands = []
    for b, loops in blocks(fn):
        for i in range(len(b)):
            for j in range(i + 1, len(b) + 1):
                if j - i == len(b) and b is fn.body:
                    continue
                blk = b[i:j]
                if any(isdoc(x) for x in blk) or all(isinstance(x, (ast.Pass, ast.Continue, ast.Break)) for x in blk):
                    continue
                if all(isinstance(x, (ast.Expr)) and islog(x.value) for x in blk):
                    continue
                if any('super(' in ast.unparse(x) for x in blk):
                    continue
                cands.append((b, i, j, loops))
    rnd.shuffle(cands)
    lim = int(os.environ.get('NEX', '8'))
    n = 0
    for b, i, j, loops in cands:
        if n >= lim:
            break
        blk = b[i:j]
        ld, st = names_in(blk)
        tail = False
        if jumps_out(blk):
            # tail of the function, ending in return on all paths
            if not (b is fn.body and j == len(b) and terminates(blk) and not has(blk, (ast.Global,))):
                continue
            ok = True
            tail = True
        if has(blk, (ast.ExceptHandler,)) and tail:
            pass
        # names assigned definitely before the block (along the path): approximate by params + definite prefix of enclosing bodies
        before = set(ps)

        def pre(body, d):
            """definite names at the block, or None if not inside"""
            if body is b:
                return definite(body[:i], d)
            for k, s in enumerate(body):
                d2 = d
                if isinstance(s, ast.For):
                    _, t = names_in([s.target])
                    d2 = d | t
                if isinstance(s, ast.With):
                    _, t = names_in([x.optional_vars for x in s.items if x.optional_vars])
                    d2 = d | t
                for fld in ('body', 'orelse', 'finalbody'):
                    sb = getattr(s, fld, None)
                    if isinstance(sb, list) and sb:
                        d3 = d2
                        if fld == 'finalbody':
                            d3 = d
                        if fld == 'orelse' and isinstance(s, ast.Try):
                            d3 = definite(s.body, d)
                        r = pre(sb, d3)
                        if r is not None:
                            return r
                for h in getattr(s, 'handlers', ()):
                    r = pre(h.body, d | ({h.name} if h.name else set()))
                    if r is not None:
                        return r
                d = definite([s], d)
            return None
        before = pre(fn.body, set(ps))
        if before is None:
            continue
        after = definite(blk, before)
        need = (ld & local)
        # outputs: stored names read anywhere outside the block (or inside, around a loop)
        rest = []
        inside = {id(x) for s in blk for x in ast.walk(s)}
        outs = set()
        for x in ast.walk(fn):
            if id(x) in inside:
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                outs.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                outs.add(x.target.id)
        up = upward(blk)
        if loops:
            outs |= up   # carried around
        outs &= st
        if tail:
            outs = set()
        if not outs <= after:
            continue
        blkdef = definite(blk, set())
        ins = (up & local) | (outs - blkdef)
        if not ins <= before:
            continue
        if any(x.startswith('self') and x != 'self' for x in ins):
            continue
        c = copy.deepcopy(fn)
        mp_ = {id(y): z for y, z in zip(ast.walk(fn), ast.walk(c))}
        b2, i2 = body_of(c, mp_[id(blk[0])])
        hb = b2[i2:i2 + (j - i)]
        ins_l = sorted(ins - {'self'})
        outs_l = sorted(outs)
        ismeth = 'self' in ins
        hname = '_zz_helper'
        if njit:
            continue
        fargs = (['self'] if ismeth else []) + ins_l
        body = list(hb)
        if not tail and outs_l:
            body.append(ast.Return(value=name(outs_l[0]) if len(outs_l) == 1 else ast.Tuple(elts=[name(x) for x in outs_l], ctx=ast.Load())))
        h = ast.FunctionDef(name=hname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in fargs], kwonlyargs=[],
                                                           kw_defaults=[], defaults=[]), body=body, decorator_list=[], type_params=[])
        func = ast.Attribute(value=name('self'), attr=hname, ctx=ast.Load()) if ismeth else name(hname)
        if rnd.random() < 0.5:
            call = ast.Call(func=func, args=[name(x) for x in ins_l], keywords=[])
        else:
            call = ast.Call(func=func, args=[], keywords=[ast.keyword(arg=x, value=name(x)) for x in ins_l])
        if tail:
            st_ = ast.Return(value=call)
        elif not outs_l:
            st_ = ast.Expr(value=call)
        elif len(outs_l) == 1:
            st_ = assign(outs_l[0], call)
        else:
            st_ = ast.Assign(targets=[ast.Tuple(elts=[name(x, ast.Store()) for x in outs_l], ctx=ast.Store())], value=call)
        b2[i2:i2 + (j - i)] = [st_]
        n += 1
        yield 'extract', '%s +%d' % (where(fn, blk[0]), j - i), c, h, ismeth


def t_extractexpr(fn, info):
    """an expression becomes a call of a private helper"""
    rnd = random.Random(fn.name + 'e')
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn) if n is not fn) or any('njit' in ast.unparse(d) for d in fn.decorator_list):
        return
    if any(isinstance(n, (ast.Import, ast.ImportFrom)) for n in ast.walk(fn)):
        return
    _, st = names_in(fn.body)
    local = set(params(fn)) | st
    incomp = set()
    for x in ast.walk(fn):
        if isinstance(x, COMPS):
            incomp |= {id(y) for y in ast.walk(x)} - {id(x)}
    cands = [(i, n) for i, n in enumerate(ast.walk(fn)) if isinstance(n, (ast.BinOp, ast.Compare, ast.BoolOp, ast.Call, ast.IfExp, ast.ListComp))
             and id(n) not in incomp and not islog(n)]
    deco = set()
    for d in fn.decorator_list:
        deco |= {id(x) for x in ast.walk(d)}
    cands = [x for x in cands if id(x[1]) not in deco and not any(isinstance(y, ast.JoinedStr) for y in ast.walk(x[1])) ]
    rnd.shuffle(cands)
    for i, n in cands[:int(os.environ.get('NEX', '8')) // 2]:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super':
            continue
        if 'super(' in ast.unparse(n):
            continue
        ld, _ = names_in([n])
        ins = sorted((ld & local) - {'self'})
        ismeth = 'self' in ld
        h = ast.FunctionDef(name='_zz_helper', args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in (['self'] if ismeth else []) + ins],
                            kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(value=copy.deepcopy(n))], decorator_list=[], type_params=[])

        def f(x, c):
            func = ast.Attribute(value=name('self'), attr='_zz_helper', ctx=ast.Load()) if ismeth else name('_zz_helper')
            replace_node(c, x, ast.Call(func=func, args=[name(y) for y in ins], keywords=[]))
        yield 'extractexpr', ast.unparse(n)[:60].replace('\n', ' '), edit(fn, i, f), h, ismeth


def t_const(fn, info):
    """a literal becomes a module constant"""
    rnd = random.Random(fn.name + 'c')
    deco = {id(x) for d in fn.decorator_list for x in ast.walk(d)}
    js = {id(y) for x in ast.walk(fn) if isinstance(x, ast.JoinedStr) for y in ast.walk(x)}
    doc = {id(s.value) for b, _ in blocks(fn) for s in b if isdoc(s)}
    cands = [(i, n) for i, n in enumerate(ast.walk(fn)) if isinstance(n, ast.Constant) and isinstance(n.value, (int, float, str)) and
             not isinstance(n.value, bool) and id(n) not in deco | js | doc and not hasattr(n, 'kind_')]
    dfl = {id(x) for x in fn.args.defaults + [y for y in fn.args.kw_defaults if y]}
    cands = [x for x in cands if id(x[1]) not in dfl]
    rnd.shuffle(cands)
    for i, n in cands[:2]:
        def f(x, c):
            replace_node(c, x, name('ZZ_CONST'))
        yield 'const', repr(n.value)[:40], edit(fn, i, f), ast.Assign(targets=[name('ZZ_CONST', ast.Store())], value=ast.Constant(value=n.value)), 'const'


TR = [t_rename, t_return, t_hoist, t_inlinetmp, t_ifs, t_expr, t_loops, t_calls, t_stmts, t_attrs, t_extract, t_extractexpr, t_const]


def variants(fn, info):
    out = []
    for t in TR:
        for r in t(fn, info):
            if r is None or r[2] is None:
                continue
            kind, desc, c = r[:3]
            h, meth = (r[3], r[4]) if len(r) > 3 else (None, None)
            ast.fix_missing_locations(c)
            if h is not None:
                ast.fix_missing_locations(h)
            out.append((kind, desc, c, h, meth))
    return out


def build(tree, qn, v):
    kind, desc, new, h, meth = v
    t = copy.deepcopy(tree)
    body = t.body
    for p in qn[:-1]:
        body = [x for x in body if isinstance(x, ast.ClassDef) and x.name == p][0].body
    for i, x in enumerate(body):
        if isinstance(x, ast.FunctionDef) and x.name == qn[-1]:
            body[i] = new
            if h is not None and meth is True:
                body.insert(i + 1, h)
                break
            if meth == 'const':
                # after the imports
                k = 0
                for kk, y in enumerate(t.body):
                    if isinstance(y, (ast.Import, ast.ImportFrom)):
                        k = kk + 1
                t.body.insert(k, h)
                break
            if h is not None:
                t.body.append(h)
            break
    return t


def info_of(C, q):
    node, m, ci = C.R.functions[q]
    sigs = {}
    for s in m.tree.body:
        if isinstance(s, ast.FunctionDef) and not s.args.vararg and not s.args.kwonlyargs and not s.args.kwarg:
            sigs[s.name] = [a.arg for a in s.args.args]
    props = set()
    for s in ast.walk(m.tree):
        if isinstance(s, ast.FunctionDef) and any('property' in ast.unparse(d) for d in s.decorator_list):
            props.add(s.name)
    nps = any(isinstance(s, ast.Import) and any(a.asname == 'np' for a in s.names) for s in m.tree.body)
    return dict(sigs=sigs, isprop=lambda a: a in props, np=nps)


_C = {}


def getC():
    if 'c' not in _C:
        _C['c'] = compare.Comparer(REPO, SPEC)
    return _C['c']


def allvariants(q):
    k = ('v', q)
    if k not in _C:
        C = getC()
        node, m, ci = C.R.functions[q]
        _C[k] = variants(node, info_of(C, q))
    return _C[k]


def jobs(flt, kinds):
    C = getC()
    out = []
    for q in sorted(C.S.functions):
        if '.vis.' in q or q not in C.R.functions:
            continue
        if flt and not any(f in q for f in flt):
            continue
        for k, v in enumerate(allvariants(q)):
            if kinds and not any(x in v[0] for x in kinds):
                continue
            out.append((q, k))
    return out


def source(q, k):
    C = getC()
    node, m, ci = C.R.functions[q]
    v = allvariants(q)[k]
    return v, m, ast.unparse(build(m.tree, q[len(m.name) + 1:].split('.'), v))


def work(job):
    q, k = job
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    C = getC()
    t0 = time.time()
    desc = kind = '?'
    try:
        v, m, src = source(q, k)
        kind, desc = v[0], v[1]
        c2 = compare.Comparer(REPO, SPEC, overlay={m.path: src}, tlimit=20)
        for kk, vv in C.memo.items():
            if kk[0] == 's':
                c2.memo[kk] = vv
        r = c2.verdict(q)
        for kk, vv in c2.memo.items():
            if kk[0] == 's' and not isinstance(vv, str):
                C.memo[kk] = vv
        st, why = r.status, r.why
        if os.environ.get('RAW') and st == 'EQUAL' and q in c2.common:
            # how the comparison by loop records judges on its own
            ld = c2.loop_local(q, frozenset(), {})
            if ld:
                return (q, k, kind + ': ' + desc, 'RAWDIFF', str(len(ld)) + ' ' + ' | '.join(
                    '%s: %s / %s' % (d.comp, compare.short(d.pairs[0][0]), compare.short(d.pairs[0][1]))
                    for d in ld[:2]).replace('\n', ' ').replace('\t', ' '), time.time() - t0)
        if st == 'DIFFERENT':
            why = ' / '.join(compare.describe(r))[:300].replace('\n', ' ').replace('\t', ' ')
    except SyntaxError as e:
        st, why = 'BADMUT', repr(e)[:200]
    except Exception as e:
        st, why = 'CRASH', repr(e)[:200]
    return (q, k, kind + ': ' + desc, st, why, time.time() - t0)


def main():
    out = sys.argv[1]
    flt = sys.argv[2:]
    kinds = os.environ.get('KIND', '').split(',') if os.environ.get('KIND') else []
    js = jobs(flt, kinds)
    random.Random(int(os.environ.get('SEED', '1'))).shuffle(js)
    n = int(os.environ.get('N', '0'))
    if n:
        js = js[:n]
    print(len(js), 'variants')
    from collections import Counter
    cnt = Counter()
    bad = Counter()
    t0 = time.time()
    with mp.Pool(int(os.environ.get('J', '8')), maxtasksperchild=60) as p, open(out, 'w') as f:
        for r in p.imap_unordered(work, js, chunksize=1):
            cnt[r[3]] += 1
            if r[3] != 'EQUAL':
                bad[r[2].split(':')[0] + ' ' + r[3]] += 1
            f.write('%s\t%s\t%d\t%s\t%s\t%.1f\n' % (r[3], r[0], r[1], r[2], r[4], r[5]))
            f.flush()
    print(cnt, '%.0fs' % (time.time() - t0))
    print(bad)


if __name__ == '__main__':
    if len(sys.argv) > 3 and sys.argv[1] == 'show':
        import difflib
        q, k = sys.argv[2], int(sys.argv[3])
        C = getC()
        v, m, src = source(q, k)
        a = ast.unparse(m.tree).split('\n')
        print('\n'.join(x for x in difflib.unified_diff(a, src.split('\n'), lineterm='', n=1)))
        c2 = compare.Comparer(REPO, SPEC, overlay={m.path: src}, tlimit=60)
        r = c2.verdict(q)
        print(r.status, r.why)
        for x in compare.describe(r):
            print('   ', x[:1500])
    else:
        main()
