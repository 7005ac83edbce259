"""Which parameters can a function of the package mutate in place (syntactic over-approximation)."""
import ast

MUT = frozenset(['append', 'extend', 'update', 'insert', 'pop', 'remove', 'sort', 'clear', 'setdefault', 'fill',
                 'set', 'set_image', 'set_weight', 'set_mfrac', 'add', 'reverse'])
_memo = {}


def mutated_params(proj, fn):
    """names of parameters whose object may be changed; None when nothing is known"""
    key = fn.qual
    r = _memo.get((id(proj), key))
    if r is not None:
        return r
    node = fn.node
    if isinstance(node, ast.Lambda):
        return set()
    params = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    _memo[(id(proj), key)] = set(params[:1]) if fn.cls is not None else set()
    alias = {p: {p} for p in params}

    elems = {}      # local containers: parameters their elements may belong to

    def roots(e):
        deep = False
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            deep = deep or isinstance(e, ast.Subscript)
            e = e.value
        if isinstance(e, ast.Name):
            r = alias.get(e.id, set())
            return r | elems.get(e.id, set()) if deep else r
        return set()

    def inside(e):
        if isinstance(e, (ast.List, ast.Tuple)):
            r = set()
            for x in e.elts:
                r |= roots(x) | inside(x)
            return r
        if isinstance(e, ast.Name):
            return elems.get(e.id, set())
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return roots(e.elt)
        return set()
    mut = set()
    for _ in range(2):
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        elems[t.id] = elems.get(t.id, set()) | inside(n.value)
                    if isinstance(t, (ast.Attribute, ast.Subscript)):
                        mut |= roots(t.value)
                    elif isinstance(t, ast.Name) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript)):
                        alias[t.id] = alias.get(t.id, set()) | roots(n.value)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, (ast.Attribute, ast.Subscript)):
                    mut |= roots(n.target.value)
                elif isinstance(n.target, ast.Name):
                    mut |= roots(n.target)
            elif isinstance(n, ast.For):
                it = n.iter
                srcs = [it]
                if isinstance(it, ast.Call):
                    srcs = list(it.args) + ([it.func.value] if isinstance(it.func, ast.Attribute) else [])
                rs = set()
                for s_ in srcs:
                    rs |= roots(s_) | inside(s_)
                for t in ast.walk(n.target):
                    if isinstance(t, ast.Name):
                        alias[t.id] = alias.get(t.id, set()) | rs
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and isinstance(i.optional_vars, ast.Name) and \
                            isinstance(i.context_expr, ast.Call) and isinstance(i.context_expr.func, ast.Attribute):
                        alias[i.optional_vars.id] = roots(i.context_expr.func.value)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                    mut |= roots(n.func.value)
                    if n.func.attr in ('append', 'extend', 'insert', 'add') and isinstance(n.func.value, ast.Name):
                        nm = n.func.value.id
                        for a in n.args:
                            elems[nm] = elems.get(nm, set()) | roots(a) | inside(a)
                for k in n.keywords:
                    if k.arg == 'out':
                        mut |= roots(k.value)
                # calls into the package
                h = proj.static_name(fn.mod, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                from .interp import Fn as F
                if isinstance(h, F) and h.node is not node:
                    sub = mutated_params(proj, h) or set()
                    ps = [a.arg for a in h.node.args.args]
                    for i, a in enumerate(n.args):
                        if i < len(ps) and ps[i] in sub:
                            mut |= roots(a)
                    for k in n.keywords:
                        if k.arg in sub:
                            mut |= roots(k.value)
    _memo[(id(proj), key)] = mut
    return mut


_touch = {}


def self_touch(proj, fn):
    """(attributes of its object a method can read or change, those it can rebind), through the
    methods it calls; None when its object can be used in ways that are not followed"""
    if fn.cls is None or isinstance(fn.node, ast.Lambda):
        return None
    memo = _touch.setdefault(id(proj), {})
    if fn.qual in memo:
        return memo[fn.qual]
    byname = memo.get(0)
    if byname is None:
        byname = memo[0] = {}
        for q, (nd, m, ci) in proj.functions.items():
            if ci is not None:
                byname.setdefault(nd.name, []).append((q, nd))
    touched, rebound = set(), set()
    todo, seen = [fn.node], set()
    ok = True
    external = any(not known_bases(proj, ci) for q, (nd, m, ci) in proj.functions.items()
                   if ci is not None and ci.qual == fn.cls.qual) or not known_bases(proj, fn.cls)
    while todo and ok:
        node = todo.pop()
        if node in seen:
            continue
        seen.add(node)
        ps = node.args.posonlyargs + node.args.args
        deco = {d.id for d in node.decorator_list if isinstance(d, ast.Name)}
        if 'staticmethod' in deco:
            continue
        if not ps or 'classmethod' in deco:
            ok = False
            break
        me = ps[0].arg
        used = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id == 'super':
                    ok = False
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and \
                        f.attr not in byname and external:
                    ok = False       # a method of a class that is not part of the package
                if isinstance(f, ast.Name) and f.id in ('hasattr', 'getattr', 'setattr') and len(n.args) > 1 and \
                        isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                    if isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                        used.add(n.args[0])
                        touched.add(n.args[1].value)
                        if f.id == 'setattr':
                            rebound.add(n.args[1].value)
                    else:
                        ok = False
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                used.add(n.value)
                if n.attr.startswith('__'):
                    ok = False
                elif n.attr in byname:
                    todo.extend(nd for q, nd in byname[n.attr])
                else:
                    touched.add(n.attr)
                    if not isinstance(n.ctx, ast.Load):
                        rebound.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == me:
                used.add(n.value)
            elif isinstance(n, ast.Compare):
                for x in n.comparators:
                    if isinstance(x, ast.Name) and x.id == me:
                        used.add(x)
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id == me and n not in used:
                ok = False
    r = (frozenset(touched), frozenset(rebound)) if ok else None
    memo[fn.qual] = r
    return r


def known_bases(proj, ci):
    from .interp import Cls
    for b in ci.node.bases:
        if isinstance(b, ast.Name) and b.id in ('object', 'dict', 'list'):
            continue
        h = proj.static_name(ci.mod, b)
        if not isinstance(h, Cls) or not known_bases(proj, h.info):
            return False
    return True
