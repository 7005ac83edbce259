"""Hash-consed value terms with canonical constructors.

Everything the abstract interpreter computes is a Term.  Two program fragments
that compute the same value by rearranged code get the *same* Term object, because
every constructor below normalises:

* numbers      -> polynomials over opaque atoms, with Fraction coefficients; each
                  coefficient may be guarded (an algebraic decision diagram over
                  scalar branch conditions), so phi(c, x+a, x+b) and x+phi(c,a,b)
                  coincide
* booleans     -> reduced ordered decision diagrams over canonical atoms
* bit flags    -> sets of (element, guard)
* other merges -> multi-terminal decision diagrams

No solver is involved: equality is pointer equality after normalisation.
"""
import hashlib
from fractions import Fraction

from . import facts

_table = {}


class Unmodelled(Exception):
    """raised when a term gets too large to normalise"""


class T(object):
    __slots__ = ('op', 'args', 'key', 'src', 'bvh', 'fvs', '_num', '_tainted', 'nleaf', 'ok', 'ord', 'vs')

    def __repr__(self):
        return show(self)


def _k(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        h = hashlib.blake2b(digest_size=12)
        h.update(b'(')
        for x in a:
            h.update(_k(x))
            h.update(b',')
        return h.digest()
    return ('%s:%r' % (type(a).__name__, a)).encode()


def _okey(a):
    """order key: blind to the identity of index variables, so that the order of
    branch conditions does not depend on how the variables happen to be named"""
    if isinstance(a, T):
        return a.ok
    if isinstance(a, tuple):
        h = hashlib.blake2b(digest_size=8)
        h.update(b'(')
        for x in a:
            h.update(_okey(x))
            h.update(b',')
        return h.digest()
    return ('%s:%r' % (type(a).__name__, a)).encode()


CUR_SRC = [None]


def _walk_bv(a):
    m = -1
    if isinstance(a, T):
        return a.bvh
    if isinstance(a, tuple):
        for x in a:
            b = _walk_bv(x)
            if b > m:
                m = b
    return m


_EMPTY = frozenset()


def _walk_fv(a):
    if isinstance(a, T):
        return a.fvs
    if isinstance(a, tuple):
        r = _EMPTY
        for x in a:
            f = _walk_fv(x)
            if f:
                r = r | f if r else f
        return r
    return _EMPTY


def _walk_taint(a):
    if isinstance(a, T):
        return a._tainted
    if isinstance(a, tuple):
        return any(_walk_taint(x) for x in a)
    return False


def _walk_vs(a):
    if isinstance(a, T):
        return a.vs
    r = ()
    if isinstance(a, tuple):
        for x in a:
            f = _walk_vs(x)
            if f:
                r = r + f if r else f
                if len(r) >= 12:
                    return r[:12]
    return r


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    for a in args:
        h.update(b'|')
        h.update(_k(a))
    t.key = h.digest()
    t.src = CUR_SRC[0]
    t._num = None
    t.nleaf = None
    if op == 'bv':
        t.bvh = args[0]
    else:
        t.bvh = _walk_bv(args)
    if op in ('fv', 'cv'):
        t.fvs = frozenset([t])
    else:
        t.fvs = _walk_fv(args)
    t._tainted = op == 'unk' or _walk_taint(args)
    if op in ('fv', 'bv'):
        t.ok = b'index'
    elif op == 'cv':
        t.ok = b'cv' + (args[1] if len(args) > 1 else b'')
    elif t.bvh < 0 and not t.fvs and not t._tainted:
        t.ok = t.key
    elif op in ORDERBLIND:
        t.ok = _okey((op, args[0]))
    else:
        h = hashlib.blake2b(digest_size=8)
        h.update(op.encode())
        for a in args:
            h.update(b'|')
            h.update(_okey(a))
        t.ok = h.digest()
    # ties between terms that differ only in their variables: the older variables first
    if op in ('fv', 'cv'):
        t.vs = (args[0],)
    elif op == 'unk' and args and isinstance(args[-1], int):
        t.vs = (args[-1],)
    else:
        t.vs = _walk_vs(args) if t.fvs or t._tainted else ()
    t.ord = t.ok + (b''.join(x.to_bytes(4, 'big') for x in t.vs) if t.vs else b'') + t.key
    _table[k] = t
    return t


ORDERBLIND = ()

# ---------------------------------------------------------------- basic leaves
TRUE = mk('true')
FALSE = mk('false')
NONE = mk('none')


def q(v):
    return mk('q', Fraction(v))


Q0 = q(0)
Q1 = q(1)


def const(v):
    """term for a python literal"""
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return q(v)
    if isinstance(v, Fraction):
        return q(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return mk('g', 'numpy.inf') if v > 0 else neg(mk('g', 'numpy.inf'))
        return q(Fraction(str(v)))
    if isinstance(v, str):
        return mk('s', v)
    if isinstance(v, bytes):
        return mk('bytes', v)
    if v is Ellipsis:
        return mk('ellipsis')
    return mk('unk', 'const:' + repr(v))


NAN = mk('nan')


def s(v):
    return mk('s', v)


def is_const(t):
    return t.op in ('q', 's', 'none', 'true', 'false', 'bytes', 'nan')


# -------------------------------------------------------------- decision diagrams
def is_bool(t):
    """t is a boolean decision diagram"""
    if t is TRUE or t is FALSE:
        return True
    if t.op != 'ite':
        return False
    return _allbit(t, 8, _boolleaf)


def _boolleaf(x):
    return x is TRUE or x is FALSE


def _allbit(t, bit, pred):
    """do all leaves of a diagram satisfy pred?  kept on every node: two bits of _num"""
    v = t._num
    if v is not None and v & bit:
        return bool(v & (bit << 1))
    todo = [t]
    while todo:
        x = todo[-1]
        v = x._num or 0
        if v & bit:
            todo.pop()
            continue
        r = True
        wait = False
        for y in x.args[1:3]:
            if y.op == 'ite':
                w = y._num or 0
                if not w & bit:
                    todo.append(y)
                    wait = True
                elif not w & (bit << 1):
                    r = False
            elif not pred(y):
                r = False
        if not r:
            wait = False
        if wait:
            continue
        while todo[-1] is not x:
            todo.pop()
        todo.pop()
        x._num = v | bit | ((bit << 1) if r else 0)
    return bool(t._num & (bit << 1))


def _leaves_all(t, pred):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.args[1])
            st.append(x.args[2])
        elif not pred(x):
            return False
    return True


NONNUM = frozenset(['none', 's', 'bytes', 'tuple', 'list', 'dict', 'obj', 'map', 'cat', 'upd',
                    'true', 'false', 'fn', 'cls', 'mod', 'fmt', 'slice', 'dictmap', 'ellipsis',
                    'set', 'missing', 'view', 'bound'])


def _numleaf(t):
    return t.op not in NONNUM and t.op != 'ite' and t.op != 'or'


def numericable(t):
    if t.op == 'ite':
        return _allbit(t, 1, _numleaf)
    return _numleaf(t)


def haspoly(t):
    """contains a 'num' leaf (a genuine polynomial)"""
    if t.op == 'num':
        return True
    if t.op == 'ite':
        return not _allbit(t, 32, _nonpoly)
    return False


def hasor(t):
    if t.op == 'or':
        return True
    if t.op == 'ite':
        return not _allbit(t, 128, _nonor)
    return False


def _nonor(x):
    return x.op != 'or'


def _nonpoly(x):
    return x.op != 'num'


def _orleaf(t):
    return t.op == 'or' or (t.op not in NONNUM and t.op != 'ite' and t.op != 'num')


def orable(t):
    if t.op == 'ite':
        return _allbit(t, 512, _orleaf)
    return _orleaf(t)


def raw_ite(a, h, l):
    if h is l:
        return h
    return mk('ite', a, h, l)


def top(*ts):
    best = None
    for t in ts:
        if t.op == 'ite':
            a = t.args[0]
            if best is None or a.ord < best.ord:
                best = a
    return best


def cof(t, a, b):
    if t.op == 'ite' and t.args[0] is a:
        return t.args[1] if b else t.args[2]
    return t


_ite_memo = {}
MAXNODES = 60000


def _ite_raw(f, g, h):
    """ITE on diagrams, leaves opaque"""
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f, g, h)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    a = top(f, g, h)
    hi = _ite_raw(cof(f, a, 1), cof(g, a, 1), cof(h, a, 1))
    lo = _ite_raw(cof(f, a, 0), cof(g, a, 0), cof(h, a, 0))
    r = raw_ite(a, hi, lo)
    _ite_memo[k] = r
    return r


def b_not(f):
    return _ite_raw(f, FALSE, TRUE)


def b_and(f, *gs):
    for g in gs:
        f = _ite_raw(f, g, FALSE)
    return f


def b_or(f, *gs):
    for g in gs:
        f = _ite_raw(f, TRUE, g)
    return f


def b_xor(f, g):
    return _ite_raw(f, b_not(g), g)


def b_implies(f, g):
    return b_or(b_not(f), g) is TRUE


def atom(t):
    """a boolean atom as a decision diagram"""
    if t is TRUE or t is FALSE:
        return t
    return raw_ite(t, TRUE, FALSE)


_cons_memo = {}


def _constrain_raw(f, c):
    """Coudert-Madre generalised cofactor: canonical for f given the care set c"""
    if c is TRUE or f.op != 'ite':
        return f
    if c is FALSE:
        return f
    k = (f, c)
    r = _cons_memo.get(k)
    if r is not None:
        return r
    a = top(f, c)
    c1, c0 = cof(c, a, 1), cof(c, a, 0)
    if c1 is FALSE:
        r = _constrain_raw(cof(f, a, 0), c0)
    elif c0 is FALSE:
        r = _constrain_raw(cof(f, a, 1), c1)
    else:
        r = raw_ite(a, _constrain_raw(cof(f, a, 1), c1), _constrain_raw(cof(f, a, 0), c0))
    _cons_memo[k] = r
    return r


def constrain(t, c):
    if c is TRUE or c is FALSE:
        return t
    if t.op == 'num':
        if not num_guard_atoms(t):
            return t
        p = {m: _constrain_raw(v, c) for m, v in t.args[0]}
        return from_poly(p)
    if t.op == 'or':
        d = {}
        for e, g in t.args[0]:
            d[e] = _constrain_raw(g, c)
        return from_or(d)
    if t.op == 'ite':
        return renorm(_constrain_raw(t, c))
    if t.op in ('tuple', 'list'):
        return mk(t.op, tuple(constrain(x, c) for x in t.args[0]))
    if t.op == 'obj':
        return mk_obj(constrain(t.args[0], c), {k: constrain(v, c) for k, v in t.args[1]})
    return t


def dd_atoms(t, acc=None):
    """atoms tested in the decision structure at the top of t"""
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            acc.add(x.args[0])
            st.append(x.args[1])
            st.append(x.args[2])
        elif x.op == 'num':
            acc |= num_guard_atoms(x)
        elif x.op == 'or':
            for e, g in x.args[0]:
                if g.op == 'ite':
                    st.append(g)
    return acc


def num_guard_atoms(t):
    acc = set()
    for m, v in t.args[0]:
        if v.op == 'ite':
            dd_atoms(v, acc)
    return acc


# -------------------------------------------------------------- ADD arithmetic
_add_memo = {}


def _add_apply(name, fn, a, b):
    if a.op == 'q' and b.op == 'q':
        return q(fn(a.args[0], b.args[0]))
    k = (name, a, b)
    r = _add_memo.get(k)
    if r is not None:
        return r
    v = top(a, b)
    r = raw_ite(v, _add_apply(name, fn, cof(a, v, 1), cof(b, v, 1)),
                _add_apply(name, fn, cof(a, v, 0), cof(b, v, 0)))
    _add_memo[k] = r
    return r


def add_add(a, b):
    if a is Q0:
        return b
    if b is Q0:
        return a
    return _add_apply('+', lambda x, y: x + y, a, b)


def add_mul(a, b):
    if a is Q1:
        return b
    if b is Q1:
        return a
    if a is Q0 or b is Q0:
        return Q0
    return _add_apply('*', lambda x, y: x * y, a, b)


def add_neg(a):
    return add_mul(q(-1), a)


def add_nonzero(a):
    """bdd where a != 0"""
    if a.op == 'q':
        return FALSE if a.args[0] == 0 else TRUE
    return raw_ite(a.args[0], add_nonzero(a.args[1]), add_nonzero(a.args[2]))


# -------------------------------------------------------------- polynomials
MAXTERMS = 600


def to_poly(t):
    """dict monomial -> ADD"""
    if t.op == 'q':
        return {(): t} if t.args[0] != 0 else {}
    if t.op == 'num':
        return dict(t.args[0])
    if t.op == 'ite':
        if is_bool(t):
            return {((mk('b2n', t), 1),): Q1}
        return _ite_poly(t)
    if t is TRUE:
        return {(): Q1}
    if t is FALSE:
        return {}
    if t.op == 'or':
        return {((t, 1),): Q1}
    return {((t, 1),): Q1}


def _ite_poly(t):
    memo = {}

    def go(x):
        if x.op != 'ite':
            return to_poly(x)
        r = memo.get(x)
        if r is None:
            a, h, l = x.args
            ph, pl = go(h), go(l)
            r = {}
            for m in set(ph) | set(pl):
                c = _ite_raw(atom(a), ph.get(m, Q0), pl.get(m, Q0))
                if c is not Q0:
                    r[m] = c
            memo[x] = r
        return r
    return go(t)


def _mono_key(m):
    return tuple((a.ord, e) for a, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c is not Q0}
    if not p:
        return Q0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return c
        if c is Q1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            return a
    if len(p) > MAXTERMS:
        raise Unmodelled('polynomial too large')
    # single simple leaf everywhere?  (phi of atoms / constants)
    guarded = [m for m, c in p.items() if c.op == 'ite']
    if guarded:
        simple = True
        supp = []
        for m, c in p.items():
            if m == ():
                supp.append((m, c, add_nonzero(c)))
                continue
            if not (len(m) == 1 and m[0][1] == 1):
                simple = False
                break
            if c.op == 'q':
                if c is not Q1:
                    simple = False
                    break
            elif not _leaves_all(c, lambda x: x is Q0 or x is Q1):
                simple = False
                break
            supp.append((m, c, add_nonzero(c)))
        if simple:
            tot = FALSE
            for m, c, g in supp:
                if b_and(tot, g) is not FALSE:
                    simple = False
                    break
                tot = b_or(tot, g)
        if simple:
            r = p.get((), Q0)
            for m, c, g in supp:
                if m != ():
                    r = _ite_raw(g, m[0][0], r)
            return r
    items = tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0])))
    return mk('num', items)


ARITY = {}          # function or method name -> number of results the reference unpacks


def listy(t):
    return t.op in ('list', 'map', 'cat') or t.op == 'cv' and len(t.args) > 2


def add(a, b):
    # string / list concatenation
    if a.op in SEQ or b.op in SEQ or listy(a) or listy(b):
        return concat(a, b)
    if a.op == 'ite' or b.op == 'ite':
        if not (numericable(a) and numericable(b)):
            r = lift2(add, a, b)
            if r is not None:
                return r
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    pa, pb = to_poly(a), to_poly(b)
    r = dict(pa)
    for m, c in pb.items():
        r[m] = add_add(r[m], c) if m in r else c
    return from_poly(r)


def neg(a):
    return mul(q(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: (x[0].ord, x[1])))


def _poly_mul(pa, pb):
    if len(pa) * len(pb) > MAXTERMS:
        raise Unmodelled('product too large')
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            c = add_mul(c1, c2)
            if c is Q0:
                continue
            # expand sums that came back to a positive integer power
            ex = [(a, e) for a, e in m if a.op == 'num' and isinstance(e, int) and e > 0
                  or a.op == 'num' and isinstance(e, Fraction) and e.denominator == 1 and e > 0]
            if ex:
                rest = tuple(x for x in m if x not in ex)
                sub_p = {rest: c}
                for a, e in ex:
                    for _ in range(int(e)):
                        sub_p = _poly_mul(sub_p, to_poly(a))
                for mm, cc in sub_p.items():
                    r[mm] = add_add(r[mm], cc) if mm in r else cc
            else:
                r[m] = add_add(r[m], c) if m in r else c
    return {m: c for m, c in r.items() if c is not Q0}


def mul(a, b):
    if a.op == 'list' and b.op == 'q' and b.args[0].denominator == 1 and 0 <= b.args[0] <= 16:
        return mk('list', a.args[0] * int(b.args[0]))
    if a.op in ('list', 'tuple') or b.op in ('list', 'tuple'):
        if b.op in ('list', 'tuple'):
            a, b = b, a
        if len(a.args[0]) == 1:
            return mk_map(dom_n(b), a.args[0][0], TRUE, fresh_fv())
        return mk('repeat', a, b)
    if a.op == 'ite' or b.op == 'ite':
        if not (numericable(a) and numericable(b)):
            r = lift2(mul, a, b)
            if r is not None:
                return r
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    return from_poly(_poly_mul(to_poly(a), to_poly(b)))


def inv(a):
    return power(a, q(-1))


def div(a, b):
    if a.op == 'ite' and not numericable(a):
        r = lift2(div, a, b)
        if r is not None:
            return r
    return mul(a, inv(b))


def power(a, n):
    if n.op != 'q':
        if a.op == 'q' and a.args[0] == 1:
            return Q1
        return mk('pow', a, n)
    e = n.args[0]
    if e == 0:
        return Q1
    if e == 1:
        return a
    if a.op == 'nan':
        return NAN
    if a.op == 'ite' or (a.op == 'num' and num_guard_atoms(a)):
        x = expand(a)
        if x is not None and x.op == 'ite':
            return dd_map(lambda l: power(l, n), x)
    p = to_poly(a)
    ee = int(e) if e.denominator == 1 else e
    if len(p) == 0:
        return Q0 if e > 0 else mk('divzero', a)
    if len(p) == 1:
        (m, c), = p.items()
        if c.op == 'q':
            v = c.args[0]
            if e.denominator == 1:
                coef = v ** int(e)
                mm = _clean(m, ee)
                return from_poly(_poly_mul({mm: q(coef)}, {(): Q1}))
            if v == 1:
                return from_poly(_poly_mul({_clean(m, ee): Q1}, {(): Q1}))
            if v > 0:
                # try exact root
                r = _root(v, e)
                if r is not None:
                    return from_poly(_poly_mul({_clean(m, ee): q(r)}, {(): Q1}))
                if m != ():
                    base = mk('const_pow', q(v), q(e))
                    return from_poly(_poly_mul({_clean(m, ee): Q1}, {((base, 1),): Q1}))
                return mk('const_pow', q(v), q(e))
        return from_poly({((_mkp(p), ee),): Q1})
    if e.denominator == 1 and e > 0 and e <= 8:
        r = p
        for _ in range(int(e) - 1):
            r = _poly_mul(r, p)
        return from_poly(r)
    # negative / fractional power of a sum: pull the leading coefficient out
    lead = min(p, key=_mono_key)
    c = p[lead]
    if c.op == 'q' and c.args[0] != 1:
        v = c.args[0]
        if e.denominator == 1:
            pn = {m: add_mul(cc, q(1 / v)) for m, cc in p.items()}
            return from_poly({((_mkp(pn), ee),): q(v ** int(e))})
    return from_poly({((_mkp(p), ee),): Q1})


def _mkp(p):
    return mk('num', tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0]))))


def _clean(m, ee):
    r = []
    for a, x in m:
        y = Fraction(x) * ee
        r.append((a, int(y) if y.denominator == 1 else y))
    return tuple(sorted(r, key=lambda x: (x[0].ord, x[1])))


def _root(v, e):
    import math
    if e.denominator == 2:
        n, d = v.numerator, v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fraction(rn, rd) ** e.numerator
    return None


# -------------------------------------------------------------- bit-or
def to_or(t):
    """dict element -> guard"""
    if t.op == 'or':
        return dict(t.args[0])
    if t.op == 'q':
        return {e: TRUE for e in _bits(t)}
    if t is FALSE:
        return {}
    if t.op == 'ite':
        d = {}
        memo = {}

        def go(x):
            if x.op != 'ite':
                return to_or(x)
            r = memo.get(x)
            if r is None:
                a, h, l = x.args
                dh, dl = go(h), go(l)
                r = {}
                for e in set(dh) | set(dl):
                    g = _ite_raw(atom(a), dh.get(e, FALSE), dl.get(e, FALSE))
                    if g is not FALSE:
                        r[e] = g
                memo[x] = r
            return r
        return go(t)
    return {t: TRUE}


def _bits(t):
    v = t.args[0]
    if v.denominator != 1 or v < 0:
        return [t]
    v = int(v)
    r = []
    i = 0
    while v:
        if v & 1:
            r.append(q(1 << i))
        v >>= 1
        i += 1
    return r


def from_or(d):
    d = {e: g for e, g in d.items() if g is not FALSE}
    if not d:
        return Q0
    consts = [(e, g) for e, g in d.items() if e.op == 'q' and e.args[0] > 0]
    nonc = [(e, g) for e, g in d.items() if not (e.op == 'q' and e.args[0] > 0)]
    # disjoint guards -> plain diagram
    simple = True
    tot = FALSE
    for e, g in nonc:
        if b_and(tot, g) is not FALSE:
            simple = False
            break
        tot = b_or(tot, g)
    if simple:
        groups = {}
        for e, g in consts:
            groups.setdefault(g, []).append(e)
        for g, es in groups.items():
            if b_and(tot, g) is not FALSE:
                simple = False
                break
            tot = b_or(tot, g)
    if simple:
        r = Q0
        for g, es in groups.items():
            r = _ite_raw(g, q(sum(e.args[0] for e in es)), r)
        for e, g in nonc:
            r = _ite_raw(g, e, r)
        return r
    return mk('or', tuple(sorted(d.items(), key=lambda x: x[0].ord)))


def bitor(a, b):
    if is_bool(a) and is_bool(b):
        return b_or(a, b)
    if is_bool(a) != is_bool(b):
        x, y = (a, b) if is_bool(a) else (b, a)
        if y.op not in ('q', 'or', 'num') and not _dictlike(y):
            # mixed with an array/unknown: treat as boolean array
            if y is Q0:
                return x
            return b_or(x, truth(y))
        if y is Q0:
            return x
    if _dictlike(a) or _dictlike(b):
        return mk('dictor', a, b)
    if a.op == 'set' or b.op == 'set':
        return mk('setor', a, b)
    if not (orable(a) and orable(b)):
        r = lift2(bitor, a, b)
        if r is not None:
            return r
        return mk('or', tuple(sorted([(a, TRUE), (b, TRUE)], key=lambda x: x[0].ord)))
    da, db = to_or(a), to_or(b)
    r = dict(da)
    for e, g in db.items():
        r[e] = b_or(r[e], g) if e in r else g
    return from_or(r)


def _dictlike(t):
    return t.op in ('dict', 'obj') and t.op == 'dict'


def bitand(a, b):
    if is_bool(a) and is_bool(b):
        return b_and(a, b)
    if is_bool(a) != is_bool(b):
        x, y = (a, b) if is_bool(a) else (b, a)
        if y.op != 'q':
            return b_and(x, truth(y))
    if a.op == 'q' and b.op == 'q' and a.args[0].denominator == 1 and b.args[0].denominator == 1:
        return q(int(a.args[0]) & int(b.args[0]))
    if a is Q0 or b is Q0:
        return Q0
    if a is b:
        return a
    r = None
    if a.op == 'ite' or b.op == 'ite':
        r = lift2(bitand, a, b)
    if r is not None:
        return r
    xs = []
    for x in (a, b):
        if x.op == 'band':
            xs.extend(x.args[0])
        else:
            xs.append(x)
    c = None
    rest = set()
    for x in xs:
        if x.op == 'q' and x.args[0].denominator == 1:
            c = int(x.args[0]) if c is None else c & int(x.args[0])
        else:
            rest.add(x)
    if c is not None:
        if c == 0:
            return Q0
        rest.add(q(c))
    if len(rest) == 1:
        return rest.pop()
    return mk('band', tuple(sorted(rest, key=lambda x: x.ord)))


# -------------------------------------------------------------- phi
def phi(c, a, b):
    """scalar merge: a where c else b"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    for at in dd_atoms(c):
        SCALAR.add(at)
    if a.op in ('tuple', 'list') and a.op == b.op and len(a.args[0]) == len(b.args[0]):
        return mk(a.op, tuple(phi(c, x, y) for x, y in zip(a.args[0], b.args[0])))
    if a.op == 'obj' or b.op == 'obj':
        r = _phi_obj(c, a, b)
        if r is not None:
            return r
    return _phi(c, a, b)


def _phi_obj(c, a, b):
    ba, da = (a.args[0], dict(a.args[1])) if a.op == 'obj' else (a, {})
    bb, db = (b.args[0], dict(b.args[1])) if b.op == 'obj' else (b, {})
    if a.op == 'ite' or b.op == 'ite':
        return None
    if ba is not bb:
        return None
    keys = set(da) | set(db)
    r = {}
    for k in keys:
        x = da[k] if k in da else rd(ba, k)
        y = db[k] if k in db else rd(bb, k)
        r[k] = phi(c, x, y)
    return mk_obj(ba, r)


def _phi(c, a, b):
    if is_bool(a) and is_bool(b):
        return _ite_raw(c, a, b)
    na, nb = numericable(a), numericable(b)
    if na and nb and (haspoly(a) or haspoly(b)):
        pa, pb = to_poly(a), to_poly(b)
        r = {}
        for m in set(pa) | set(pb):
            r[m] = _ite_raw(c, pa.get(m, Q0), pb.get(m, Q0))
        return from_poly(r)
    if orable(a) and orable(b) and (hasor(a) or hasor(b)):
        da, db = to_or(a), to_or(b)
        r = {}
        for e in set(da) | set(db):
            r[e] = _ite_raw(c, da.get(e, FALSE), db.get(e, FALSE))
        return from_or(r)
    if na and nb:
        return _ite_raw(c, a, b)
    x = expand(a, force=True)
    y = expand(b, force=True)
    return renorm(_ite_raw(c, x, y))


def expand(t, force=False, limit=16):
    """diagram with guard-free leaves, or None when too many leaves"""
    if t.op == 'num':
        atoms = num_guard_atoms(t)
        if not atoms:
            return t
        if len(atoms) > 6 and not force:
            return None
        return _expand_num(t)
    if t.op == 'or':
        atoms = dd_atoms(t)
        if not atoms:
            return t
        if len(atoms) > 6 and not force:
            return None
        return _expand_or(t)
    if t.op == 'ite':
        if _leaves_all(t, lambda x: x.op not in ('num', 'or')):
            r = t
        else:
            a, h, l = t.args
            eh, el = expand(h, force), expand(l, force)
            if eh is None or el is None:
                return None
            r = _ite_raw(atom(a), eh, el)
        if not force and nleaves(r) > limit:
            return None
        return r
    return t


def nleaves(t):
    seen = set()
    st = [t]
    n = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            n.add(x)
    return len(n)


def npaths(t, memo=None):
    if t.op != 'ite':
        return 1
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = npaths(t.args[1], memo) + npaths(t.args[2], memo)
        memo[t] = r
    return r


def _expand_num(t):
    memo = {}

    def go(p):
        a = top(*[c for m, c in p])
        if a is None:
            return from_poly(dict(p))
        k = p
        r = memo.get(k)
        if r is None:
            hi = tuple((m, cof(c, a, 1)) for m, c in p)
            lo = tuple((m, cof(c, a, 0)) for m, c in p)
            r = raw_ite(a, go(hi), go(lo))
            memo[k] = r
            if len(memo) > 4000:
                raise Unmodelled('expand')
        return r
    return go(t.args[0])


def _expand_or(t):
    memo = {}

    def go(p):
        a = top(*[g for e, g in p])
        if a is None:
            return from_or({e: g for e, g in p})
        r = memo.get(p)
        if r is None:
            hi = tuple((e, cof(g, a, 1)) for e, g in p)
            lo = tuple((e, cof(g, a, 0)) for e, g in p)
            r = raw_ite(a, go(hi), go(lo))
            memo[p] = r
            if len(memo) > 4000:
                raise Unmodelled('expand')
        return r
    return go(t.args[0])


def renorm(t):
    """re-establish the class-specific normal form of a raw diagram"""
    if t.op != 'ite':
        return t
    if is_bool(t):
        return t
    if numericable(t):
        if haspoly(t):
            return from_poly(_ite_poly(t))
        return t
    if hasor(t) and orable(t):
        return from_or(to_or(t))
    return t


def dd_map(fn, t):
    """apply fn to every leaf of the (expanded) diagram, re-merging with phi"""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return fn(x)
        r = memo.get(x)
        if r is None:
            r = phi(atom(x.args[0]), go(x.args[1]), go(x.args[2]))
            memo[x] = r
        return r
    return go(t)


def lift1(fn, a, limit=40):
    """fn over the leaves of a (scalar phi), None when not a phi or too large"""
    if a.op == 'ite' and not is_bool(a) or a.op in ('num', 'or'):
        x = expand(a)
        if x is None or x.op != 'ite':
            return None
        return dd_map(fn, x)
    return None


def lift2(fn, a, b):
    if a.op == 'ite' and not is_bool(a):
        x = expand(a)
        if x is not None and x.op == 'ite' and npaths(x) <= 40:
            return dd_map(lambda l: fn(l, b), x)
    if b.op == 'ite' and not is_bool(b):
        x = expand(b)
        if x is not None and x.op == 'ite' and npaths(x) <= 40:
            return dd_map(lambda l: fn(a, l), x)
    return None


def liftn(fn, args, limit=24):
    """lift scalar phis out of a list of argument terms; fn(list)->T"""
    n = 1
    which = None
    for i, a in enumerate(args):
        if isinstance(a, T) and (a.op == 'ite' and not is_bool(a)):
            x = expand(a, limit=8)
            if x is None or x.op != 'ite':
                continue
            p = npaths(x)
            if p > 8:
                continue
            n *= p
            if n > limit:
                return fn(list(args))
            if which is None:
                which = (i, x)
        elif isinstance(a, T) and a.op in ('num', 'or') and which is None:
            at = dd_atoms(a)
            if at and len(at) <= 3:
                x = expand(a)
                if x is not None and x.op == 'ite':
                    n *= npaths(x)
                    if n > limit:
                        return fn(list(args))
                    which = (i, x)
    if which is None:
        return fn(list(args))
    i, x = which

    def leaf(l):
        args2 = list(args)
        args2[i] = l
        # arguments under this branch
        return liftn(fn, args2, limit)
    # simplify the other args under the branch conditions while descending

    def go(x, args):
        if x.op != 'ite':
            args2 = list(args)
            args2[i] = x
            return liftn(fn, args2, limit)
        a = x.args[0]
        hi = [constrain(z, atom(a)) if isinstance(z, T) and k != i else z for k, z in enumerate(args)]
        lo = [constrain(z, b_not(atom(a))) if isinstance(z, T) and k != i else z for k, z in enumerate(args)]
        return phi(atom(a), go(x.args[1], hi), go(x.args[2], lo))
    return go(x, list(args))


SCALAR = set()

# -------------------------------------------------------------- comparisons
INTOPS = frozenset(['len', 'intcast', 'count', 'band', 'floordiv_i', 'idx', 'rint_i', 'or', 'shift'])


def is_int(t):
    o = t.op
    if o == 'q':
        return t.args[0].denominator == 1
    if o in INTOPS:
        return True
    if o in ('fv', 'bv', 'iv'):
        return True
    if o == 'rd':
        k = t.args[1]
        if k == ('a', 'size') or k == ('a', 'ndim'):
            return True
        b = t.args[0]
        if b.op == 'rd' and b.args[1] == ('a', 'shape'):
            return True
        if k[0] == 'i' and isinstance(k[1], T) and b.op == 'rangeterm':
            return True
        return False
    if o == 'call' and t.args[0] in ('builtins.int', 'builtins.round1', 'builtins.len'):
        return True
    if o == 'num':
        for m, c in t.args[0]:
            if c.op == 'q':
                if c.args[0].denominator != 1:
                    return False
            elif not _leaves_all(c, lambda x: x.args[0].denominator == 1):
                return False
            for a, e in m:
                if not (isinstance(e, int) and e > 0 and is_int(a)):
                    return False
        return True
    if o in ('min', 'max'):
        return all(is_int(x) for x in t.args[0])
    return False


def is_nonneg_int(t):
    if t.op in ('len', 'count', 'fv', 'bv', 'iv'):
        return True
    if t.op == 'rd' and is_int(t):
        return True
    if t.op == 'q':
        return t.args[0].denominator == 1 and t.args[0] >= 0
    return False


def _lead(p):
    return min((m for m in p if m != ()), key=_mono_key, default=None)


def _cmp_expand(t):
    if t.op == 'ite' or t.op in ('num', 'or'):
        x = expand(t, limit=64)
        if x is not None and x.op == 'ite' and not is_bool(t):
            return x
    return None


def lt0(t):
    """t < 0 as a decision diagram"""
    if is_bool(t):
        return FALSE
    x = _cmp_expand(t)
    if x is not None:
        return dd_map(lt0, x)
    if t.op == 'q':
        return TRUE if t.args[0] < 0 else FALSE
    if t.op == 'nan' or t.op == 'none':
        return FALSE
    if is_nonneg_int(t):
        return FALSE
    p = to_poly(t)
    lead = _lead(p)
    c = p[lead]
    if c.op != 'q':
        return atom(mk('lt0', t))
    lc = c.args[0]
    if len(p) == 1 and len(lead) == 1 and is_nonneg_int(lead[0][0]) and isinstance(lead[0][1], int):
        # k * n < 0
        if lc > 0:
            return FALSE
        return b_not(eq0(from_poly({lead: Q1})))
    if is_int(t):
        # integer: make the leading coefficient positive
        if lc < 0:
            # p < 0  <=>  not (-p <= 0)  <=> not(-p < 1) <=> not (-p - 1 < 0)
            return b_not(lt0(sub(neg(t), Q1)))
        # nonneg single variable: n < 1  <=> n == 0
        if len(p) == 2 and () in p and len(lead) == 1 and lead[0][1] == 1 and lc == 1 \
                and is_nonneg_int(lead[0][0]):
            k = -p[()].args[0] if p[()].op == 'q' else None
            if k is not None and k <= 0:
                return FALSE
            if k == 1:
                return eq0(lead[0][0])
        return atom(mk('lt0', t))
    scale = abs(lc)
    if scale != 1:
        t = from_poly({m: add_mul(cc, q(1 / scale)) for m, cc in p.items()})
    return atom(mk('lt0', t))


def lt(a, b):
    return _cmpbin(a, b, lambda x, y: lt0(sub(x, y)))


def _cmpbin(a, b, fn):
    if a.op in NONNUM or b.op in NONNUM:
        if a.op == 's' and b.op == 's':
            return TRUE if a.args[0] < b.args[0] else FALSE
        return atom(mk('ltg', a, b))
    if a.op == 'ite' and not numericable(a):
        r = lift2(lambda x, y: _cmpbin(x, y, fn), a, b)
        if r is not None:
            return r
    if b.op == 'ite' and not numericable(b):
        r = lift2(lambda x, y: _cmpbin(x, y, fn), a, b)
        if r is not None:
            return r
    return fn(a, b)


def gt(a, b):
    return lt(b, a)


def le(a, b):
    return b_not(lt(b, a))


def ge(a, b):
    return b_not(lt(a, b))


def eq0(t):
    if is_bool(t):
        return b_not(t)
    if t.op == 'or':
        r = TRUE
        for e, g in t.args[0]:
            r = b_and(r, b_or(b_not(g), eq0(e)))
        return r
    x = _cmp_expand(t)
    if x is not None:
        return dd_map(eq0, x)
    if t.op == 'q':
        return TRUE if t.args[0] == 0 else FALSE
    if t.op in ('none', 's', 'nan', 'list', 'tuple', 'dict'):
        return FALSE
    if t.op == 'orfold':
        (e,), v = unbind(t)
        return b_not(mk_any(t.args[0], b_not(eq0(e)), v))
    if t.op == 'count':
        return b_not(any_(t.args[0]))
    if t.op == 'b2n':
        return b_not(t.args[0])
    p = to_poly(t)
    lead = _lead(p)
    c = p[lead]
    if c.op == 'q':
        if len(p) == 1 and all(isinstance(e, int) and e > 0 or isinstance(e, Fraction) and e > 0
                               for a, e in lead) and len(lead) == 1:
            t = lead[0][0]
            if t.op in ('orfold', 'count', 'b2n', 'or'):
                return eq0(t)
        else:
            lc = c.args[0]
            if lc != 1:
                t = from_poly({m: add_mul(cc, q(1 / lc)) for m, cc in p.items()})
    if t.op == 'num' and is_int(t):
        # n - k with n >= 0 and k < 0 never zero
        p = to_poly(t)
        if len(p) == 2 and () in p and p[()].op == 'q' and p[()].args[0] > 0:
            l2 = _lead(p)
            if len(l2) == 1 and l2[0][1] == 1 and is_nonneg_int(l2[0][0]) and p[l2] is Q1:
                return FALSE
    return atom(mk('eq0', t))


def eq(a, b):
    if a is b:
        if a is NAN:
            return FALSE
        return TRUE
    if is_bool(a) and is_bool(b):
        return b_not(b_xor(a, b))
    if a is NONE or b is NONE:
        return is_none(b if a is NONE else a)
    if is_bool(a) or is_bool(b):
        x, y = (a, b) if is_bool(a) else (b, a)
        if y.op == 'q':
            if y is Q0:
                return b_not(x)
            if y is Q1:
                return x
            return FALSE
        return b_not(b_xor(x, truth(y)))
    if a.op == 'ite' and not is_bool(a):
        r = lift2(eq, a, b)
        if r is not None:
            return r
    if b.op == 'ite' and not is_bool(b):
        r = lift2(eq, a, b)
        if r is not None:
            return r
    if a.op in ('tuple', 'list') and b.op in ('tuple', 'list'):
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.args[0], b.args[0]):
            r = b_and(r, eq(x, y))
        return r
    if a.op == 's' and b.op == 's':
        return FALSE
    if a.op in ('s', 'bytes') and b.op == 'q' or b.op in ('s', 'bytes') and a.op == 'q':
        return FALSE
    if a.op in NONNUM or b.op in NONNUM:
        if a.op in ('s', 'none', 'bytes') or (b.ord < a.ord and b.op not in ('s', 'none')):
            a, b = b, a
        return atom(mk('eq', a, b))
    if a.op == 'q' or (b.op != 'q' and b.ord < a.ord):
        a, b = b, a
    return eq0(sub(a, b))


def ne(a, b):
    return b_not(eq(a, b))


CVNONE = {}     # content of an object carried by a loop -> is the object None?


def is_none(t):
    if t.op == 'param' and len(t.args) > 1:
        return FALSE
    if t.op == 'cv' and t in CVNONE:
        return CVNONE[t]
    if t is NONE:
        return TRUE
    if t.op == 'ite':
        return dd_map(is_none, t) if not is_bool(t) else FALSE
    if t.op in ('q', 's', 'tuple', 'list', 'dict', 'num', 'or', 'map', 'true', 'false', 'fmt', 'cat',
                'fn', 'cls', 'mod', 'slice', 'len', 'count', 'orfold', 'sum', 'nan', 'dictmap', 'bound',
                'set', 'idx', 'b2n', 'wh', 'new', 'setterm', 'lt0', 'filled'):
        return FALSE
    if t.op == 'obj':
        return FALSE
    if t.op == 'call' and (t.args[0].startswith('numpy.') or t.args[0].rsplit('.', 1)[-1][:1].isupper()):
        return FALSE         # an array, a new object
    if t.op == 'call' and t.args[0] in facts.NEVER or t.op == 'mcall' and '.' + t.args[0] in facts.NEVER:
        return FALSE         # a function of the project that always returns something
    if t.op in ('upd', 'st', 'bulk'):
        return FALSE
    return atom(mk('isnone', t))


def truth(t):
    if is_bool(t):
        return t
    if t.op == 'ite':
        return dd_map(truth, t)
    if t is NONE:
        return FALSE
    if t.op == 'q':
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == 's':
        return TRUE if t.args[0] else FALSE
    if t.op in ('list', 'tuple', 'set'):
        return TRUE if len(t.args[0]) else FALSE
    if t.op == 'dict':
        return TRUE if len(t.args[0]) else FALSE
    if t.op in ('num', 'or', 'band', 'len', 'count', 'orfold', 'sum', 'b2n'):
        return b_not(eq0(t))
    if listy(t):
        return b_not(eq0(length(t)))
    if t.op in ('fn', 'cls', 'mod', 'bound'):
        return TRUE
    if t.op == 'obj' and t.args[1] and t.args[0].op == 'dict':
        return TRUE
    if t.op == 'nan':
        return TRUE
    if t.op == 'setsub':
        a, b = (x.args[0] if x.op == 'setterm' else x for x in t.args)
        if a.op in ('set', 'list', 'tuple'):
            return b_or_all([b_not(contains(b, e)) for e in a.args[0]])
        v = fresh_fv()
        return mk_any(dom_seq(a), b_not(contains(b, rd(a, ('i', v)))), v)
    return atom(mk('truth', t))


def b_or_all(xs):
    r = FALSE
    for x in xs:
        r = b_or(r, x)
    return r


# -------------------------------------------------------------- elementwise select
def wh(m, a, b):
    """np.where(m, a, b) with m a boolean diagram evaluated elementwise"""
    if m is TRUE:
        return a
    if m is FALSE:
        return b
    if a is b:
        return a
    if not is_bool(m):
        m = truth(m)
    # scalar atoms inside the mask are branch conditions
    sc = [x for x in dd_atoms(m) if x in SCALAR]
    if sc:
        v = min(sc, key=lambda x: x.ord)
        return phi(atom(v), wh(_constrain_raw(m, atom(v)), a, b), wh(_constrain_raw(m, b_not(atom(v))), a, b))
    for i, x in enumerate((a, b)):
        if x.op == 'ite' and not is_bool(x) or x.op in ('num', 'or') and dd_atoms(x):
            e = expand(x, limit=8)
            if e is not None and e.op == 'ite' and npaths(e) <= 8:
                if i == 0:
                    return dd_map(lambda l: wh(m, l, b), e)
                return dd_map(lambda l: wh(m, a, l), e)
    if is_bool(a) and is_bool(b):
        return _ite_raw(m, a, b)
    return _wh(m, a, b)


def _wtop(t):
    return t.args[0] if t.op == 'wh' else None


def _wcof(t, v, b):
    if t.op == 'wh' and t.args[0] is v:
        return t.args[1] if b else t.args[2]
    return t


def _wh(m, a, b):
    if m is TRUE:
        return a
    if m is FALSE:
        return b
    if a is b:
        return a
    v = m.args[0]
    for x in (_wtop(a), _wtop(b)):
        if x is not None and x.ord < v.ord:
            v = x
    hi = _wh(cof(m, v, 1), _wcof(a, v, 1), _wcof(b, v, 1))
    lo = _wh(cof(m, v, 0), _wcof(a, v, 0), _wcof(b, v, 0))
    if hi is lo:
        return hi
    return mk('wh', v, hi, lo)


def any_(b):
    """np.any of an elementwise boolean"""
    if not is_bool(b):
        if b.op == 'ite':
            return dd_map(any_, b)
        if b.op == 'map':
            (body, g), v = unbind(b)
            return mk_any(b.args[0], b_and(g, truth(body)), v)
        if b.op in ('list', 'tuple'):
            r = FALSE
            for x in b.args[0]:
                r = b_or(r, truth(x) if not is_arrayish(x) else any_(x))
            return r
        b = truth(b)
    if b is TRUE or b is FALSE:
        return b
    sc = [x for x in dd_atoms(b) if x in SCALAR]
    if sc:
        v = min(sc, key=lambda x: x.ord)
        return phi(atom(v), any_(_constrain_raw(b, atom(v))), any_(_constrain_raw(b, b_not(atom(v)))))
    return atom(mk('any', b))


def is_arrayish(t):
    return False


def all_(b):
    if not is_bool(b):
        if b.op == 'ite':
            return dd_map(all_, b)
        if b.op == 'map':
            (body, g), v = unbind(b)
            return b_not(mk_any(b.args[0], b_and(g, b_not(truth(body))), v))
        if b.op in ('list', 'tuple'):
            r = TRUE
            for x in b.args[0]:
                r = b_and(r, truth(x))
            return r
        b = truth(b)
    return b_not(any_(b_not(b)))


def masked(t):
    """the elements selected by a mask"""
    return t.op == 'rd' and t.args[1][0] == 'i' and isinstance(t.args[1][1], T) and is_bool(t.args[1][1]) and \
        t.args[1][1] is not TRUE and t.args[1][1] is not FALSE


def count_(b):
    if b is FALSE:
        return Q0
    return mk('count', b)


# -------------------------------------------------------------- sequences, domains
SEQ = frozenset(['list', 'tuple', 's', 'map', 'cat', 'fmt', 'repeat'])


def concat(a, b):
    if a.op == 'ite' and not is_bool(a):
        r = lift2(concat, a, b)
        if r is not None:
            return r
    if b.op == 'ite' and not is_bool(b):
        r = lift2(concat, a, b)
        if r is not None:
            return r
    if a.op in ('s', 'fmt') or b.op in ('s', 'fmt'):
        return fmt([a, b])
    if a.op == b.op and a.op in ('list', 'tuple'):
        return mk(a.op, a.args[0] + b.args[0])
    parts = []
    for x in (a, b):
        if x.op == 'cat':
            parts.extend(x.args[0])
        else:
            parts.append(x)
    out = []
    for x in parts:
        if x.op in ('list', 'tuple') and not x.args[0]:
            continue
        if out and x.op == 'list' and out[-1].op == 'list':
            out[-1] = mk('list', out[-1].args[0] + x.args[0])
        else:
            out.append(x)
    if not out:
        return mk('list', ())
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


def fmt(parts):
    out = []
    for p in parts:
        if p.op == 'fmt':
            out.extend(p.args[0])
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'q' and p.args[0].denominator == 1:
            p = s(str(int(p.args[0])))
        if p.op == 's' and res and res[-1].op == 's':
            res[-1] = s(res[-1].args[0] + p.args[0])
        elif p.op == 's' and p.args[0] == '':
            continue
        else:
            res.append(p)
    if not res:
        return s('')
    if len(res) == 1 and res[0].op == 's':
        return res[0]
    return liftn(lambda xs: _fmt2(xs), res) if any(x.op == 'ite' for x in res) else mk('fmt', tuple(res))


def _fmt2(xs):
    if any(x.op == 'fmt' or x.op == 'q' for x in xs) or all(x.op == 's' for x in xs) or \
            any(xs[i].op == 's' and xs[i + 1].op == 's' for i in range(len(xs) - 1)):
        res = []
        for x in xs:
            if x.op == 'fmt':
                res.extend(x.args[0])
            else:
                res.append(x)
        out = []
        for p in res:
            if p.op == 'q' and p.args[0].denominator == 1:
                p = s(str(int(p.args[0])))
            if p.op == 's' and out and out[-1].op == 's':
                out[-1] = s(out[-1].args[0] + p.args[0])
            else:
                out.append(p)
        if len(out) == 1 and out[0].op == 's':
            return out[0]
        return mk('fmt', tuple(out))
    return mk('fmt', tuple(xs))


def length(t):
    r = None
    if t.op in ('ite',) and not is_bool(t):
        r = lift1(length, t)
        if r is not None:
            return r
    if t.op in ('list', 'tuple', 'set'):
        return q(len(t.args[0]))
    if t.op == 's':
        return q(len(t.args[0]))
    if t.op == 'dict':
        return q(len(t.args[0]))
    if t.op == 'map':
        d = t.args[0]
        if t.args[1][1] is TRUE:
            return dom_len(d)
        (body, g), v = unbind(t)
        return mk_sum(d, phi(g, Q1, Q0), v)
    if t.op == 'cat':
        r = Q0
        for x in t.args[0]:
            r = add(r, length(x))
        return r
    if t.op == 'rangeterm':
        return t.args[0]
    if t.op == 'arr':
        return length(t.args[0])
    if t.op == 'where1':
        return count_(t.args[0])
    if masked(t):
        return count_(t.args[1][1])
    if t.op == 'obj':
        return length(t.args[0]) if t.args[0].op != 'dict' else mk('len', t)
    if t.op == 'filled':
        return t.args[1] if t.args[1].op != 'tuple' else mk('len', t)
    if t.op == 'bulk':
        return length(t.args[0][0])
    if t.op == 'st':
        return length(t.args[0])
    if t.op == 'wh':
        return mk('len', t)
    if t.op == 'rd' and t.args[1] == ('a', 'shape'):
        return mk('len', t)
    x = like(t)
    if x is not None:
        return length(x)
    return mk('len', t)


ELEMENTWISE = frozenset(['numpy.' + x for x in (
    'rint', 'log', 'exp', 'floor', 'ceil', 'sin', 'cos', 'tan', 'log10', 'sign', 'round', 'radians', 'degrees')])


def scalar(t):
    if is_const(t) or t.op in ('len', 'count'):
        return True
    if t.op == 'rd':
        return t.args[1] in (('a', 'size'), ('a', 'ndim')) or t.args[0].op == 'rd' and t.args[0].args[1] == ('a', 'shape')
    if t.op == 'num':
        return all(scalar(a) for mono, c in t.args[0] for a, p in mono)
    if t.op in ('min', 'max'):
        return all(scalar(a) for a in t.args[0])
    return False


def like(t):
    """array that has as many elements as a value made from it element by element"""
    if t.op == 'cast':
        return t.args[1]
    if t.op == 'call' and t.args[0] in ELEMENTWISE and len(t.args[1]) == 1 and not t.args[2]:
        return t.args[1][0]
    if t.op in ('min', 'max') and isinstance(t.args[0], tuple):
        xs = [a for a in t.args[0] if not scalar(a)]
        return xs[0] if len(xs) == 1 else None
    if t.op == 'num':
        xs = {a for mono, c in t.args[0] for a, p in mono if not scalar(a)}
        if len(xs) == 1 and not any(a.op == 'ite' for a in xs):
            return next(iter(xs))
    return None


def dom_seq(t):
    """iteration domain of a sequence term"""
    x = like(t)
    if x is not None:
        return dom_seq(x)
    if t.op == 'map' and t.args[1][1] is TRUE:
        return t.args[0]
    if t.op == 'rangeterm':
        return dom_n(t.args[0])
    if t.op == 'arr':
        return dom_seq(t.args[0])
    return mk('dom', t)


def dom_n(n):
    """domain 0..n-1"""
    if n.op == 'len':
        return dom_seq(n.args[0])
    return mk('domn', n)


def dom_len(d):
    if d.op == 'domn':
        return d.args[0]
    if d.op == 'dom':
        return length(d.args[0])
    return mk('len', d)


# bound variables ------------------------------------------------------------
# Binder terms have the form mk(op, pre, bodies, h): `pre` is outside the scope, `bodies`
# is a tuple in which bv(h) is the binder's own variable (h = -1: it does not occur).
# h is one more than the largest height inside the opened bodies, so it depends on the
# bodies alone and not on the context; enclosing binders always get a larger height.
_fresh = [0]


def fresh_fv():
    _fresh[0] += 1
    return mk('fv', _fresh[0])


def fresh_cv(init=None):
    _fresh[0] += 1
    if init is not None:
        if listy(init):
            return mk('cv', _fresh[0], init.ok, 'l')     # begins as a list
        return mk('cv', _fresh[0], init.ok)
    return mk('cv', _fresh[0])


BINDERS = {}


def depends(t, v):
    return v in _walk_fv(t)


def bind(op, pre, bodies, v):
    """close `bodies` over the free index v"""
    if not depends(bodies, v):
        return mk(op, pre, bodies, -1)
    h = _walk_bv(bodies) + 1
    nb = subst(bodies, {v: mk('bv', h)})
    return mk(op, pre, nb, h)


def unbind(t, idx=None):
    """(bodies, v): the bodies with the own variable replaced by idx / a fresh index"""
    pre, bodies, h = t.args
    v = fresh_fv() if idx is None else idx
    if h < 0:
        return bodies, v
    return subst_bv(bodies, {mk('bv', h): v}), v


def subst(t, mp):
    """rebuild t with the leaf substitution mp (fv/cv leaves -> T)"""
    keys = frozenset(mp)
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if not (x.fvs & keys):
            return x
        if x in mp:
            return mp[x]
        r = memo.get(x)
        if r is None:
            r = _reb(x, go)
            memo[x] = r
        return r
    return go(t)


def replace(t, mp):
    """rebuild t replacing arbitrary subterms"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in mp:
            return mp[x]
        r = memo.get(x)
        if r is None:
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else _reb(x, go)
            memo[x] = r
        return r
    return go(t)


def subst_bv(t, mp):
    hmin = min(k.args[0] for k in mp)
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in mp:
            return mp[x]
        if x.bvh < hmin:
            return x
        r = memo.get(x)
        if r is None:
            r = _reb(x, go)
            memo[x] = r
        return r
    return go(t)


def _reb(x, go):
    if x.op in BINDERS:
        pre, bodies, h = x.args
        pre = go(pre)
        bodies = go(bodies)
        v = fresh_fv()
        if h >= 0:
            bodies = subst_bv(bodies, {mk('bv', h): v})
        return BINDERS[x.op](pre, bodies, v)
    return rebuild(x.op, tuple(go(a) for a in x.args), x)


def rebuild(op, args, orig=None):
    if op == 'ite':
        a, h, l = args
        c = a if is_bool(a) else atom(a)
        if is_bool(h) and is_bool(l):
            return _ite_raw(c, h, l)
        return phi(c, h, l)
    if op == 'num':
        acc = {}
        for m, c in args[0]:
            # coefficients are diagrams that may have been rebuilt
            term = {(): Q1}
            for a, e in m:
                ee = e if isinstance(e, Fraction) else Fraction(e)
                term = _poly_mul(term, to_poly(power(a, q(ee))))
            cp = to_poly(c)
            term = _poly_mul(term, cp)
            for mm, cc in term.items():
                acc[mm] = add_add(acc[mm], cc) if mm in acc else cc
        return from_poly(acc)
    if op == 'or':
        r = Q0
        for e, g in args[0]:
            r = bitor(r, phi(g, e, Q0))
        return r
    if op == 'band':
        r = args[0][0]
        for x in args[0][1:]:
            r = bitand(r, x)
        return r
    if op == 'lt0':
        return lt0(args[0])
    if op == 'eq0':
        return eq0(args[0])
    if op == 'eq':
        return eq(args[0], args[1])
    if op == 'isnone':
        return is_none(args[0])
    if op == 'truth':
        return truth(args[0])
    if op == 'any':
        return any_(args[0])
    if op == 'rd':
        return rd(args[0], args[1])
    if op == 'obj':
        return mk_obj(args[0], dict(args[1]))
    if op == 'len':
        return length(args[0])
    if op == 'wh':
        c = args[0] if is_bool(args[0]) else atom(args[0])
        return wh(c, args[1], args[2])
    if op == 'b2n':
        b = args[0]
        return mk('b2n', b) if b not in (TRUE, FALSE) else (Q1 if b is TRUE else Q0)
    if op == 'dom':
        return dom_seq(args[0])
    if op == 'domn':
        return dom_n(args[0])
    if op == 'fmt':
        return fmt(list(args[0]))
    if op == 'cat':
        r = args[0][0]
        for x in args[0][1:]:
            r = concat(r, x)
        return r
    if op == 'has':
        return has(args[0], args[1])
    if op == 'st':
        return store(args[0], args[1], args[2])
    if op == 'pow':
        return power(args[0], args[1])
    if op == 'max' or op == 'min':
        return minmax(op, list(args[0]))
    hook = REBUILD.get(op)
    if hook is not None:
        return hook(*args)
    return mk(op, *args)


REBUILD = {}


def _expand_inv(guard, v, fn):
    """Shannon-expand fn(guard) on the atoms of guard that do not depend on v"""
    inv_atoms = [a for a in dd_atoms(guard) if not depends(a, v)]
    if inv_atoms:
        a = min(inv_atoms, key=lambda x: x.ord)
        return phi(atom(a), _expand_inv(_constrain_raw(guard, atom(a)), v, fn),
                   _expand_inv(_constrain_raw(guard, b_not(atom(a))), v, fn))
    return fn(guard)


def mk_any(d, body, v):
    """exists i in d: body(i), body over the free index v"""
    if not is_bool(body):
        body = truth(body)
    d, (body,), v = norm_dom(d, (body,), v)

    def leaf(b):
        if b is FALSE:
            return FALSE
        if b is TRUE:
            return b_not(eq0(dom_len(d)))
        if d.op == 'domn' and d.args[0].op == 'q' and d.args[0].args[0] <= 12:
            r = FALSE
            for i in range(int(d.args[0].args[0])):
                r = b_or(r, subst(b, {v: q(i)}))
            return r
        return atom(bind('anyd', d, (b,), v))
    if is_empty_dom(d):
        return FALSE
    return _expand_inv(body, v, leaf)


def is_empty_dom(d):
    return dom_len(d) is Q0


def norm_dom(d, bodies, v):
    """domains built from filtered/mapped sequences are reduced to their source"""
    return d, bodies, v


BINDERS['anyd'] = lambda d, bs, v: mk_any(d, bs[0], v)


def mk_sum(d, body, v):
    """sum over i in d of body(i)"""
    if is_empty_dom(d):
        return Q0
    if body.op == 'nan':
        return NAN
    if not numericable(body):
        if body.op == 'ite' and not is_bool(body):
            pass
        return bind('sum', d, (body,), v)
    res = Q0
    for m, c in to_poly(body).items():
        res = add(res, _sum_mono(d, m, c, v))
    return res


def _sum_mono(d, m, c, v):
    inv_atoms = [a for a in dd_atoms(c) if not depends(a, v)] if c.op == 'ite' else []
    if inv_atoms:
        a = min(inv_atoms, key=lambda x: x.ord)
        hi = _sum_mono(d, m, _constrain_raw(c, atom(a)), v)
        lo = _sum_mono(d, m, _constrain_raw(c, b_not(atom(a))), v)
        return phi(atom(a), hi, lo)
    inv_m = tuple(x for x in m if not depends(x[0], v))
    var_m = tuple(x for x in m if depends(x[0], v))
    if c.op == 'q':
        coef, cc = c, Q1
        if c is Q0:
            return Q0
        if var_m == ():
            return mul(from_poly(_poly_mul({inv_m: Q1}, {(): coef})), dom_len(d))
    else:
        coef, cc = Q1, c
    body = from_poly({var_m: cc})
    inner = bind('sum', d, (body,), v)
    return mul(from_poly({inv_m: coef}), inner)


BINDERS['sum'] = lambda d, bs, v: mk_sum(d, bs[0], v)


def mk_orfold(d, body, v):
    """OR over i in d of body(i)"""
    if is_empty_dom(d):
        return Q0
    if is_bool(body):
        return mk_any(d, body, v)
    if not orable(body):
        return bind('orfold', d, (body,), v)
    r = Q0
    for e, g in to_or(body).items():
        if not depends(e, v):
            r = bitor(r, phi(mk_any(d, g, v), e, Q0))
        else:
            r = bitor(r, _orfold_elem(d, e, g, v))
    return r


def _orfold_elem(d, e, g, v):
    def leaf(gg):
        if gg is FALSE:
            return Q0
        return bind('orfold', d, (phi(gg, e, Q0),), v)
    return _expand_inv(g, v, leaf)


BINDERS['orfold'] = lambda d, bs, v: mk_orfold(d, bs[0], v)


def mk_map(d, body, guard, v):
    """[body(i) for i in d if guard(i)]"""
    if is_empty_dom(d) or guard is FALSE:
        return mk('list', ())
    if guard is TRUE and d.op == 'domn' and d.args[0].op == 'q' and d.args[0].args[0] <= 12:
        n = int(d.args[0].args[0])
        return mk('list', tuple(subst(body, {v: q(i)}) for i in range(n)))
    if guard is TRUE and d.op == 'dom' and body.op == 'rd' and body.args[0] is d.args[0] and \
            body.args[1] == ('i', v):
        return d.args[0]
    if guard is TRUE and d.op == 'domn' and body is v:
        return mk('rangeterm', d.args[0])
    if guard is not TRUE and any(not depends(a, v) for a in dd_atoms(guard)):
        return _expand_inv(guard, v, lambda g: mk_map(d, body, g, v))
    return bind('map', d, (body, guard), v)


BINDERS['map'] = lambda d, bs, v: mk_map(d, bs[0], bs[1], v)


def mk_bulk(prev, d, key, val, guard, v):
    """prev with [key(i)] = val(i) for every i in d with guard(i), in order"""
    if guard is FALSE or is_empty_dom(d):
        return prev
    if prev.op == 'dict' and not prev.args[0] and d.op == 'dom' and len(d.args) == 1 and guard is not TRUE:
        # the entries of a dict but for some of its keys
        x = d.args[0]
        i = rd(x, ('i', v))
        if key == ('i', i) and val is rd(x, key):
            drop = []
            g = guard
            while g.op == 'ite' and g.args[1] is FALSE and g.args[0].op == 'eq' and any(
                    y is i for y in g.args[0].args):
                drop += [y for y in g.args[0].args if y is not i]
                g = g.args[2]
            if g is TRUE and all(y.op == 's' for y in drop):
                for y in drop:
                    x = mk_del(x, y)
                return x
    return bind('bulk', (prev, d), (key, val, guard), v)


BINDERS['bulk'] = lambda pre, bs, v: mk_bulk(pre[0], pre[1], bs[0], bs[1], bs[2], v)


def _generic_binder(op):
    BINDERS[op] = lambda pre, bs, v: bind(op, pre, bs, v)


for _o in ('prod', 'last', 'first', 'dictmap', 'evloop', 'maxd', 'mind', 'flat', 'fold', 'foldi'):
    _generic_binder(_o)


# -------------------------------------------------------------- reads and stores
def mk_obj(base, d):
    """base with constant-key fields overridden"""
    if base.op == 'obj':
        dd = dict(base.args[1])
        dd.update(d)
        d = dd
        base = base.args[0]
    if base.op == 'ite' and not is_bool(base) and npaths(base) <= 8:
        return dd_map(lambda l: mk_obj(l, d), base)
    if base.op == 'dict':
        items = dict(base.args[0])
        rest = {}
        for k, v in d.items():
            if k[0] == 'i' and (isinstance(k[1], T) and is_const(k[1])):
                items[k[1]] = v
            else:
                rest[k] = v
        base = mk('dict', tuple(sorted(items.items(), key=lambda kv: kv[0].ord)))
        d = rest
        if not d:
            return base
    if base.op == 'list':
        els = list(base.args[0])
        rest = {}
        for k, v in d.items():
            if k[0] == 'i' and isinstance(k[1], T) and k[1].op == 'q' and \
                    -len(els) <= k[1].args[0] < len(els):
                els[int(k[1].args[0])] = v
            elif k[0] == 'i' and isinstance(k[1], T) and k[1].op == 'q':
                pass    # no such element
            else:
                rest[k] = v
        base = mk('list', tuple(els))
        d = rest
        if not d:
            return base
    out = {}
    for k, v in d.items():
        if v is not rd(base, k):
            out[k] = v
    if not out:
        return base
    return mk('obj', base, tuple(sorted(out.items(), key=lambda kv: _k(kv[0]))))


def const_key(k):
    """keys that are distinct from each other when different"""
    if k[0] == 'a':
        return True
    return k[0] == 'i' and isinstance(k[1], T) and k[1].op in ('s', 'q')


def distinct(k1, k2):
    if k1[0] != k2[0]:
        return True
    if const_key(k1) and const_key(k2):
        return k1 != k2
    if k1[0] == 'i' and k2[0] == 'i':
        a, b = k1[1], k2[1]
        sa, sb = a.op in ('s', 'fmt'), b.op in ('s', 'fmt')
        if (sa and b.op == 'q') or (sb and a.op == 'q'):
            return True
        if (sa and b.op in ('fv', 'bv', 'iv', 'slice', 'idx')) or (sb and a.op in ('fv', 'bv', 'iv', 'slice', 'idx')):
            return True
        if sa and sb and a.op == 'fmt' and b.op == 'fmt':
            # common prefix, distinct constant tails
            x, y = a.args[0], b.args[0]
            if x[:-1] == y[:-1] and x[-1].op == 's' and y[-1].op == 's' and len(x) == len(y):
                return x[-1] is not y[-1]
        if a.op == 'fmt' and b.op == 's' or a.op == 's' and b.op == 'fmt':
            f_, c_ = (a, b) if a.op == 'fmt' else (b, a)
            tail = f_.args[0][-1]
            if tail.op == 's' and not c_.args[0].endswith(tail.args[0]):
                return True
            head = f_.args[0][0]
            if head.op == 's' and not c_.args[0].startswith(head.args[0]):
                return True
    return False


SCALARATTR = frozenset()


def _has_cols(o):
    return o.args[0].op != 'dict' and any(kk[0] == 'i' and kk[1].op == 's' for kk, v in o.args[1])


def _rowidx(i):
    return i.op in ('fv', 'bv', 'iv', 'slice', 'idx', 'num', 'q', 'where1') or is_bool(i)


def all_of(k):
    """the slices [:], [:, :], ..."""
    if k.op == 'slice':
        return all(x is NONE for x in k.args)
    return k.op == 'tuple' and bool(k.args[0]) and all(x.op == 'slice' and all_of(x) for x in k.args[0])


def rd(base, k):
    """read component k=('a',name)|('i',T) of a value"""
    op = base.op
    if k[0] == 'i' and isinstance(k[1], T) and all_of(k[1]):
        return base
    if op == 'ite' and not is_bool(base):
        if npaths(base) <= 64:
            return dd_map(lambda l: rd(l, k), base)
        return mk('rd', base, k)
    if k[0] == 'i' and isinstance(k[1], T) and k[1].op == 'ite' and not is_bool(k[1]):
        x = expand(k[1])
        if x is not None and x.op == 'ite' and npaths(x) <= 16:
            return dd_map(lambda l: rd(base, ('i', l)), x)
    if k[0] == 'i' and op == 'rd' and base.args[1][0] == 'i' and isinstance(k[1], T) and k[1].op == 's':
        # rows of tables: x[i]['f'] == x['f'][i]
        i0 = base.args[1][1]
        if isinstance(i0, T) and (i0.op in ('fv', 'bv', 'iv') or base.args[0].op == 'obj' and _has_cols(base.args[0])) \
                and i0.op not in ('s', 'fmt', 'str', 'rd', 'param', 'call', 'mcall'):
            return rd(rd(base.args[0], k), base.args[1])
    if op == 'obj':
        for kk, v in base.args[1]:
            if kk == k:
                return v
        if k[0] == 'i' and isinstance(k[1], T) and _rowidx(k[1]) and _has_cols(base):
            return mk('rd', base, k)
        if all(distinct(kk, k) for kk, v in base.args[1]):
            return rd(base.args[0], k)
        return mk('rd', base, k)
    if op == 'del' and k[0] == 'i' and isinstance(k[1], T) and k[1].op == 's' and base.args[1].op == 's':
        return mk('missing', base, k[1]) if k[1] is base.args[1] else rd(base.args[0], k)
    if op == 'dict':
        if k[0] == 'i':
            d = dict(base.args[0])
            if k[1] in d:
                return d[k[1]]
            if is_const(k[1]) and all(is_const(x) for x in d):
                return mk('missing', base, k[1])
        return mk('rd', base, k)
    if op in ('list', 'tuple') and k[0] == 'i':
        i = k[1]
        if i.op == 'q' and i.args[0].denominator == 1:
            n = len(base.args[0])
            j = int(i.args[0])
            if -n <= j < n:
                return base.args[0][j]
        if i.op == 'slice' and all(x.op in ('none', 'q') for x in i.args):
            sl = slice(*[None if x is NONE else int(x.args[0]) for x in i.args])
            return mk(op, base.args[0][sl])
        return mk('rd', base, k)
    if op == 'map' and k[0] == 'i' and base.args[1][1] is TRUE:
        i = k[1]
        if i.op not in ('slice', 'tuple', 's') and not is_bool(i) and not (
                i.op == 'q' and i.args[0] < 0):
            return unbind(base, i)[0][0]
    if op == 'rangeterm' and k[0] == 'i' and k[1].op in ('q', 'fv', 'bv', 'iv', 'num', 'idx'):
        if not (k[1].op == 'q' and k[1].args[0] < 0):
            return k[1]
    if op == 'st':
        # st(prev, key, val)
        prev, key, val = base.args
        if key == k:
            return val
        if distinct(key, k):
            return rd(prev, k)
        return mk('rd', base, k)
    if op == 'bulk':
        # bulk(prev, dom, key, val, guard): key disjoint?
        (prev, d), (key, val, g), h = base.args
        if distinct(key, k) or (k[0] == 'a'):
            if not (k[0] == 'a' and key[0] == 'a'):
                return rd(prev, k)
        # full coverage read at an index of the same domain
        if key[0] == 'i' and k[0] == 'i' and h >= 0 and key[1] is mk('bv', h) and g is TRUE and \
                k[1].op in ('fv', 'bv', 'iv'):
            return unbind(base, k[1])[0][1]
        return mk('rd', base, k)
    if op == 'filled':
        if k[0] == 'i':
            return base.args[0]
        return mk('rd', base, k)
    if op == 'where1' and k == ('a', 'size'):
        return count_(base.args[0])
    if k == ('a', 'size') and masked(base):
        return count_(base.args[1][1])
    if op == 'rd' and base.args[1] == ('a', 'shape') and k == ('i', Q0) and masked(base.args[0]):
        return count_(base.args[0].args[1][1])
    if op == 'arr' and k == ('a', 'size') and base.args[0].op in ('list', 'map'):
        return length(base.args[0])
    if op == 'wtuple' and k[0] == 'i' and k[1].op == 'q':
        if k[1] is Q0:
            return base.args[0]
        return mk('rd', base, k)
    if op == 'arr' and k[0] == 'i' and k[1].op in ('q', 'fv', 'bv', 'iv', 'idx') and base.args[0].op in (
            'list', 'tuple', 'map'):
        return rd(base.args[0], k)
    if k[0] == 'i' and isinstance(k[1], T) and k[1].op == 'where1':
        return rd(base, ('i', k[1].args[0]))
    if (op == 'true' or op == 'false') and k[0] == 'i':
        return base
    if op == 'q' and k[0] == 'i':
        # zeros()[...] : content is uniform
        return base
    if op == 'nan' and k[0] == 'i':
        return base
    if k == ('a', 'T') and op == 'rd' and base.args[1] == ('a', 'T'):
        return base.args[0]
    if k[0] == 'i' and op == 'rd' and base.args[1][0] == 'i' and isinstance(k[1], T) and isinstance(base.args[1][1], T):
        # x['f'][i] == x[i]['f'] for structured arrays: put the string key first
        k0 = base.args[1][1]
        if k[1].op == 's' and k0.op in ('fv', 'bv', 'slice') and False:
            return rd(rd(base.args[0], k), base.args[1])
    return mk('rd', base, k)


def store(base, k, v):
    """base with component k replaced by v"""
    if base.op == 'ite' and not is_bool(base) and npaths(base) <= 8:
        return dd_map(lambda l: store(l, k, v), base)
    if k[0] == 'i' and isinstance(k[1], T):
        i = k[1]
        if is_bool(i) and not (i is TRUE or i is FALSE):
            return wh(i, v, base)
        if i.op == 'where1':
            return wh(i.args[0], v, base)
        if is_full_slice(i):
            return v
        if i.op == 'ite':
            x = expand(i)
            if x is not None and npaths(x) <= 8:
                return dd_map(lambda l: store(base, ('i', l), v), x)
    if k[0] == 'i' and isinstance(k[1], T) and v.op == 'obj' and _rowidx(k[1]) and \
            v.args[0] is rd(base, k) and all(kk[0] == 'i' and kk[1].op == 's' for kk, vv in v.args[1]):
        r = base
        for kk, vv in v.args[1]:
            r = store(r, kk, store(rd(r, kk), k, vv))
        return r
    if const_key(k) or (k[0] == 'i' and k[1].op == 'fmt'):
        # stores to distinct keys commute; a store over an unresolved symbolic store does not
        if base.op == 'st' and not distinct(base.args[1], k):
            return mk('st', base, k, v)
        if base.op == 'obj':
            bad = [kk for kk, vv in base.args[1] if kk != k and not distinct(kk, k)]
            if bad:
                return mk('st', base, k, v)
        if base.op == 'bulk' and not distinct(base.args[1][0], k):
            return mk('st', base, k, v)
        return mk_obj(base, {k: v})
    if v is rd(base, k):
        return base
    if base.op == 'st' and base.args[1] == k:
        return store(base.args[0], k, v)
    if base.op == 'obj':
        # move symbolic stores below only if disjoint from all overridden keys
        if all(distinct(kk, k) for kk, vv in base.args[1]):
            return mk_obj(store(base.args[0], k, v), dict(base.args[1]))
    return mk('st', base, k, v)


def is_full_slice(i):
    if i.op == 'slice':
        return i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE
    if i.op == 'tuple':
        return len(i.args[0]) > 0 and all(is_full_slice(x) for x in i.args[0])
    if i.op == 'ellipsis':
        return True
    return False


def mk_del(c, k):
    """dict c without key k"""
    if c.op == 'ite' and not is_bool(c) and npaths(c) <= 16:
        return dd_map(lambda l: mk_del(l, k), c)
    if is_const(k):
        if c.op == 'dict' and all(is_const(x) for x, _ in c.args[0]):
            return mk('dict', tuple((kk, v) for kk, v in c.args[0] if kk is not k))
        if c.op == 'obj' and all(kk[0] == 'i' and is_const(kk[1]) for kk, v in c.args[1]):
            # stores to other keys commute with it
            return mk_obj(mk_del(c.args[0], k), {kk: v for kk, v in c.args[1] if kk[1] is not k})
        if c.op == 'del' and is_const(c.args[1]) and k.key < c.args[1].key:
            return mk('del', mk_del(c.args[0], k), c.args[1])
    return mk('del', c, k)


def has(d, k):
    """k in dict d"""
    if d.op == 'del':
        return b_and(b_not(eq(k, d.args[1])), has(d.args[0], k))
    if d.op == 'ite' and not is_bool(d):
        if npaths(d) <= 16:
            return dd_map(lambda l: has(l, k), d)
    if k.op == 'ite':
        r = lift2(lambda a, b: has(a, b), d, k)
        if r is not None:
            return r
    if d.op == 'dict':
        keys = dict(d.args[0])
        if k in keys:
            return TRUE
        if is_const(k) and all(is_const(x) for x in keys):
            return FALSE
        r = FALSE
        for x in keys:
            r = b_or(r, eq(k, x))
        return r
    if d.op == 'obj':
        for kk, v in d.args[1]:
            if kk == ('i', k):
                return TRUE
        if all(distinct(kk, ('i', k)) for kk, v in d.args[1]):
            return has(d.args[0], k)
        return atom(mk('has', d, k))
    if d.op == 'st':
        if d.args[1] == ('i', k):
            return TRUE
        if distinct(d.args[1], ('i', k)):
            return has(d.args[0], k)
    return atom(mk('has', d, k))


def contains(coll, x):
    """x in coll"""
    if coll.op == 'ite' and not is_bool(coll):
        r = lift2(lambda a, b: contains(a, b), coll, x)
        if r is not None:
            return r
    if coll.op in ('list', 'tuple', 'set'):
        r = FALSE
        for e in coll.args[0]:
            r = b_or(r, eq(x, e))
        return r
    if coll.op in ('dict', 'obj', 'st') :
        return has(coll, x)
    if coll.op == 'map':
        (b, gg), v = unbind(coll)
        return mk_any(coll.args[0], b_and(gg, eq(x, b)), v)
    if coll.op == 's' and x.op == 's':
        return TRUE if x.args[0] in coll.args[0] else FALSE
    if coll.op == 'fmt' and x.op == 's':
        for p in coll.args[0]:
            if p.op == 's' and x.args[0] in p.args[0]:
                return TRUE
    # unknown container: same predicate as dict membership
    return has(coll, x)


def minmax(op, xs):
    flat = []
    for x in xs:
        if x.op == op:
            flat.extend(x.args[0])
        else:
            flat.append(x)
    cs = [x for x in flat if x.op == 'q']
    rest = set(x for x in flat if x.op != 'q')
    if cs:
        v = (min if op == 'min' else max)(x.args[0] for x in cs)
        rest.add(q(v))
    if len(rest) == 1:
        return rest.pop()
    return mk(op, tuple(sorted(rest, key=lambda x: x.ord)))


# -------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, Fraction) else str(t)
    if depth < 0:
        return '..'
    o = t.op
    d = depth - 1
    if o == 'q':
        return str(t.args[0])
    if o == 's':
        return repr(t.args[0])
    if o == 'none':
        return 'None'
    if o in ('true', 'false'):
        return o
    if o == 'num':
        parts = []
        for m, c in t.args[0]:
            ms = '*'.join(show(a, d) + ('^%s' % e if e != 1 else '') for a, e in m)
            cs = show(c, d)
            if not ms:
                parts.append(cs)
            elif c is Q1:
                parts.append(ms)
            else:
                parts.append(cs + '*' + ms)
        return '(' + ' + '.join(parts) + ')'
    if o == 'or':
        return '(' + ' | '.join(show(e, d) + ('' if g is TRUE else '[if %s]' % show(g, d)) for e, g in t.args[0]) + ')'
    if o == 'ite':
        a, h, l = t.args
        if h is TRUE and l is FALSE:
            return show(a, d)
        if h is FALSE and l is TRUE:
            return 'not ' + show(a, d)
        return '{%s ? %s : %s}' % (show(a, d), show(h, d), show(l, d))
    if o == 'rd':
        k = t.args[1]
        if k[0] == 'a':
            return '%s.%s' % (show(t.args[0], d), k[1])
        return '%s[%s]' % (show(t.args[0], d), show(k[1], d))
    if o == 'lt0':
        return '(%s<0)' % show(t.args[0], d)
    if o == 'eq0':
        return '(%s==0)' % show(t.args[0], d)
    if o == 'eq':
        return '(%s==%s)' % (show(t.args[0], d), show(t.args[1], d))
    if o == 'call':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1]) + ''.join(
            ', %s=%s' % (k, show(v, d)) for k, v in t.args[2]))
    if o == 'mcall':
        return '%s.%s(%s)' % (show(t.args[1], d), t.args[0], ', '.join(show(a, d) for a in t.args[2]) + ''.join(
            ', %s=%s' % (k, show(v, d)) for k, v in t.args[3]))
    if o == 'param':
        return '%s' % t.args[0]
    if o == 'bv':
        return 'i%d' % t.args[0]
    if o == 'fv':
        return 'v%d' % t.args[0]
    if o == 'g':
        return str(t.args[0])
    if o in ('list', 'tuple'):
        return ('[%s]' if o == 'list' else '(%s)') % ', '.join(show(x, d) for x in t.args[0])
    if o == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (show(k, d), show(v, d)) for k, v in t.args[0])
    if o == 'obj':
        return '%s with {%s}' % (show(t.args[0], d), ', '.join(
            '%s: %s' % (show(k, d) if k[0] == 'i' else k[1], show(v, d)) for k, v in t.args[1]))
    return '%s(%s)' % (o, ', '.join(show(a, d) for a in t.args))


def has_unbound(t):
    """may the value be that of a variable without one"""
    if t.op == 'unbound':
        return True
    if t.op == 'ite':
        return has_unbound(t.args[1]) or has_unbound(t.args[2])
    if t.op == 'num':
        return any(has_unbound(a) for mono, c in t.args[0] for a, p in mono if a.op in ('unbound', 'ite'))
    return False
