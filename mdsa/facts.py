"""Functions and methods of a project that never return None (flow-insensitive fixpoint over the syntax tree)."""
import ast

NEVER = set()        # qualified names of functions, bare names of methods


def _falls(body):
    """can control leave the end of this block?"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If) and s.orelse and not _falls(s.body) and not _falls(s.orelse):
            return False
        if isinstance(s, ast.With) and not _falls(s.body):
            return False
        if isinstance(s, ast.Try):
            if s.finalbody and not _falls(s.finalbody):
                return False
            main = _falls(s.body + s.orelse)
            if not main and not any(_falls(h.body) for h in s.handlers):
                return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                not any(isinstance(n, ast.Break) for n in ast.walk(s)):
            return False
    return True


def _own(node):
    """nodes of this function, without those of nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))


def never_none(proj):
    fns = {}
    for q, (node, mod, ci) in proj.functions.items():
        if isinstance(node, ast.FunctionDef):
            fns[q] = (node, mod, ci)
    methods = {}
    for q, (node, mod, ci) in fns.items():
        if ci is not None:
            methods.setdefault(node.name, set()).add(q)
    ok = {q for q, (node, mod, ci) in fns.items()
          if not _falls(node.body) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own(node))}

    def mods(q):
        return fns[q][1]

    def good(e, node, q, seen):
        if isinstance(e, ast.Constant):
            return e.value is not None
        if isinstance(e, (ast.Tuple, ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp,
                          ast.GeneratorExp, ast.JoinedStr, ast.BinOp, ast.Compare, ast.UnaryOp)):
            return True
        if isinstance(e, ast.IfExp):
            return good(e.body, node, q, seen) and good(e.orelse, node, q, seen)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                x = fns[q][1].name + '.' + f.id
                if x in fns:
                    return x in ok
                return f.id in ('int', 'float', 'len', 'list', 'dict', 'tuple', 'sorted', 'set', 'range', 'str') or \
                    f.id[:1].isupper()
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name) and f.value.id == 'np':
                    return True
                if isinstance(f.value, ast.Name):
                    x = [y for y in fns if y.endswith('.' + f.value.id + '.' + f.attr)]
                    if x:
                        return set(x) <= ok
                    if f.value.id[:1].isupper() and f.attr.startswith('from'):
                        return True
                if f.attr in methods and '_' in f.attr:
                    return methods[f.attr] <= ok
                return f.attr[:1].isupper()
            return False
        if isinstance(e, ast.Name):
            if e.id in seen:
                return True
            a = node.args
            if e.id in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} or \
                    (a.vararg and a.vararg.arg == e.id) or (a.kwarg and a.kwarg.arg == e.id):
                return False
            found = False
            for n in _own(node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            found = True
                            if not good(n.value, node, q, seen | {e.id}):
                                return False
                        elif not isinstance(t, ast.Name) and any(
                                isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store)
                                for x in ast.walk(t)):
                            return False
                elif isinstance(n, (ast.Global, ast.Nonlocal)) and e.id in n.names:
                    return False
                elif isinstance(n, ast.AugAssign):
                    pass
                elif isinstance(n, ast.With):
                    if any(i.optional_vars is not None and e.id in {
                            x.id for x in ast.walk(i.optional_vars) if isinstance(x, ast.Name)} for i in n.items):
                        return False
                elif isinstance(n, (ast.For, ast.comprehension)):
                    if e.id in {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}:
                        return False
                elif isinstance(n, (ast.NamedExpr, ast.AnnAssign)) and isinstance(n.target, ast.Name) and \
                        n.target.id == e.id:
                    return False
            return found
        return False

    while True:
        bad = set()
        for q in ok:
            node = fns[q][0]
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own(node))
            if gen:
                continue
            for n in _own(node):
                if isinstance(n, ast.Return) and (n.value is None or not good(n.value, node, q, frozenset())):
                    bad.add(q)
                    break
        if not bad:
            break
        ok -= bad
    r = set(ok)
    for name, qs in methods.items():
        if '_' in name.strip('_') and qs <= ok:
            r.add('.' + name)
    return r, set(fns) | {'.' + n for n in methods}


def install(R, S):
    r, rall = never_none(R)
    s, sall = never_none(S)
    NEVER.clear()
    # what both sides promise; a function that only one side has is judged there alone
    NEVER.update(x for x in r | s if (x in r or x not in rall) and (x in s or x not in sall))
