"""Mutual exclusion / implication between atoms, applied bottom-up to diagrams."""
from . import terms as tm
from .terms import T, mk, TRUE, FALSE, is_bool, atom, b_not, b_and, b_or, _constrain_raw

_memo = {}


def subject(a):
    """(kind, term) key grouping atoms that talk about the same value"""
    if a.op == 'eq':
        return a.args[0]
    if a.op in ('isnone', 'truth', 'isnan', 'isfinite', 'isinstance', 'hasattr'):
        return a.args[0]
    return None


def implied(a, val):
    """literals implied by atom a having truth value val, generated against other atoms: a predicate
    b -> True/False/None"""
    def f(b):
        if a is b:
            return val
        sa, sb = subject(a), subject(b)
        if sa is not None and sa is sb:
            if a.op == 'eq' and val:
                c = a.args[1]
                if b.op == 'eq':
                    if tm.is_const(c) and tm.is_const(b.args[1]):
                        return False
                if b.op == 'isnone':
                    return False if c.op in ('s', 'q') else None
                if b.op == 'truth' and c.op == 's':
                    return bool(c.args[0])
            if a.op == 'isnone' and val:
                if b.op == 'eq' and tm.is_const(b.args[1]):
                    return False
                if b.op in ('truth', 'isinstance'):
                    return False
            if a.op == 'truth' and val and b.op == 'isnone':
                return False
            if a.op == 'truth' and not val and b.op == 'eq' and b.args[1].op == 's' and b.args[1].args[0]:
                return False
            if a.op == 'isnan' and val and b.op == 'isfinite':
                return False
            if a.op == 'isfinite' and val and b.op == 'isnan':
                return False
            if a.op == 'isinstance' and val and b.op == 'isnone':
                return False
        if a.op in ('eq0', 'lt0') and b.op in ('eq0', 'lt0'):
            return arith(a, val, b)
        if a.op == 'has' and b.op == 'isnone':
            pass
        return None
    return f


_off_memo = {}


def offset(x, y):
    """k, s with y == s*x + k, s in (1,-1), k a number; else None"""
    key = (x, y)
    if key in _off_memo:
        return _off_memo[key]
    r = None
    try:
        d = tm.sub(y, x)
        if d.op == 'q':
            r = (1, d.args[0])
        else:
            d = tm.add(y, x)
            if d.op == 'q':
                r = (-1, d.args[0])
    except tm.Unmodelled:
        pass
    _off_memo[key] = r
    return r


def arith(a, val, b):
    x, y = a.args[0], b.args[0]
    o = offset(x, y)
    if o is None:
        return None
    sg, k = o
    isint = tm.is_int(x)
    nonneg = tm.is_nonneg_int(x)
    # the set of values of x consistent with the literal, as an interval (lo, lo_open, hi, hi_open)
    inf = float('inf')
    if a.op == 'eq0':
        if val:
            lo, hi, lo_o, hi_o = 0, 0, False, False
        else:
            if nonneg:
                lo, hi, lo_o, hi_o = 1, inf, False, True
            else:
                return (False if False else _neq(sg, k, b))
    else:
        if val:
            lo, hi, lo_o, hi_o = -inf, (-1 if isint else 0), True, (not isint)
        else:
            lo, hi, lo_o, hi_o = 0, inf, False, True
    # y = sg*x + k
    if sg == 1:
        ylo, yhi, ylo_o, yhi_o = lo + k, hi + k, lo_o, hi_o
    else:
        ylo, yhi, ylo_o, yhi_o = -hi + k, -lo + k, hi_o, lo_o
    if b.op == 'lt0':
        if yhi < 0 or (yhi == 0 and yhi_o):
            return True
        if ylo >= 0:
            return False
        return None
    # y == 0
    if ylo == yhi == 0 and not ylo_o:
        return True
    if yhi < 0 or (yhi == 0 and yhi_o) or ylo > 0 or (ylo == 0 and ylo_o):
        return False
    return None


def _neq(sg, k, b):
    if b.op == 'eq0' and k == 0:
        return False
    return None


def apply_lits(t, lits, memo):
    """simplify the raw diagram t under the literals"""
    if t.op != 'ite':
        return t
    r = memo.get(t)
    if r is not None:
        return r
    a = t.args[0]
    for f in lits:
        v = f(a)
        if v is not None:
            r = apply_lits(t.args[1] if v else t.args[2], lits, memo)
            break
    else:
        r = tm.raw_ite(a, apply_lits(t.args[1], lits, memo), apply_lits(t.args[2], lits, memo))
    memo[t] = r
    return r


def simp_dd(t):
    """apply the theory inside one raw diagram"""
    atoms = tm.dd_atoms(t) if t.op == 'ite' else set()
    if len(atoms) < 2:
        return t
    # only atoms that interact
    inter = False
    al = list(atoms)
    for i, a in enumerate(al):
        for b in al[i + 1:]:
            for v in (True, False):
                if implied(a, v)(b) is not None or implied(b, v)(a) is not None:
                    inter = True
    if not inter:
        return t
    memo = {}
    count = [0]

    def go(x, lits):
        if x.op != 'ite':
            return x
        key = (x, tuple(lits))
        if key in memo:
            return memo[key]
        count[0] += 1
        if count[0] > 20000:
            return x
        a = x.args[0]
        r = None
        for (b, v) in lits:
            w = implied(b, v)(a)
            if w is not None:
                r = go(x.args[1] if w else x.args[2], lits)
                break
        if r is None:
            rel = any(implied(a, v)(b) is not None for b in al if b is not a for v in (True, False))
            l1 = lits + ((a, True),) if rel else lits
            l0 = lits + ((a, False),) if rel else lits
            h, l = go(x.args[1], l1), go(x.args[2], l0)
            # redundant test: the branch taken when the literal contradicts nothing is equal anyway
            if h is not l and rel:
                # if under a the low branch simplifies to the high one, the test is redundant
                if go(x.args[2], l1) is h and False:
                    h = l
            r = tm.raw_ite(a, h, l)
        memo[key] = r
        return r
    r = go(t, ())
    return canon_redundant(r)


def canon_redundant(t):
    return t


def finalize(t):
    r = _memo.get(t)
    if r is not None:
        return r
    r = _fin(t)
    _memo[t] = r
    _memo.setdefault(r, r)
    return r


def _go(x):
    if isinstance(x, tuple):
        return tuple(_go(y) for y in x)
    if isinstance(x, T):
        return finalize(x)
    return x


def _fin(t):
    if not t.args:
        return t
    if t.op in ('fv', 'bv', 'cv', 'q', 's', 'param', 'g'):
        return t
    if t.op == 'ite':
        return fin_dd(t)
    na = tuple(_go(a) for a in t.args)
    if na != t.args:
        if t.op in tm.BINDERS:
            r = tm._reb(t, _go)
        else:
            r = tm.rebuild(t.op, na, t)
        if r.op == 'ite':
            return simp_dd(r)
        t = r
    return t


def fin_dd(t):
    # rebuild with finalised atoms and leaves
    memo = {}

    def go(x):
        if x.op != 'ite':
            return finalize(x)
        r = memo.get(x)
        if r is None:
            a = finalize(x.args[0])
            c = a if is_bool(a) else atom(a)
            h, l = go(x.args[1]), go(x.args[2])
            if is_bool(h) and is_bool(l):
                r = tm._ite_raw(c, h, l)
            else:
                r = tm.phi(c, h, l)
            memo[x] = r
        return r
    r = go(t)
    if r.op == 'ite':
        r = simp_dd(r)
    return r
