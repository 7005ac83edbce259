"""Random interpretation of function summaries (after Gulwani & Necula, "Global value
numbering using random interpretation").

Two summaries that the normal forms of terms.py do not identify are given the same random
meaning for every uninterpreted symbol -- parameters, results of opaque calls, components
of unknown objects, lengths, which call raises -- and reduced to canonical values.  Equal
behaviour gives equal values under every interpretation; a summary that differs is told
apart by some interpretation.  Nothing of the package is executed: the subject is the
abstract summary (terms and loop records), and all symbols stand for arbitrary values.

A loop record (loops.close_raw) is reduced over a domain whose length is an interpreted
symbol, so the result does not depend on how the loop is written.
"""
import hashlib
import random
import zlib
from fractions import Fraction

from . import terms as tm
from .terms import T

M64 = (1 << 64) - 1


class Taint(Exception):
    """the summary contains a construct the interpretation has no meaning for"""


class Budget(Exception):
    pass


def hh(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big')


def mix(a, b, c=0):
    x = (a ^ (b * 0x9E3779B97F4A7C15) ^ (c * 0xC2B2AE3D27D4EB4F)) & M64
    x ^= x >> 33
    x = x * 0xff51afd7ed558ccd & M64
    x ^= x >> 33
    x = x * 0xc4ceb9fe1a85ec53 & M64
    return x ^ (x >> 33)


class V(object):
    """canonical value: kind, data, structural hash"""
    __slots__ = ('k', 'd', 'h', 'el')

    def __init__(self, k, d, h, el=None):
        # el (of a number): the unknown value it is the number of, or what its elements are
        self.k, self.d, self.h, self.el = k, d, h, el

    def __repr__(self):
        return showv(self)


def showv(v, d=4):
    if d < 0:
        return '..'
    if v.k in ('n', 's', 'b'):
        return str(v.d) if v.k != 's' else repr(v.d)
    if v.k == '0':
        return 'None'
    if v.k in 'lt':
        return ('[%s]' if v.k == 'l' else '(%s)') % ', '.join(showv(x, d - 1) for x in v.d)
    if v.k == 'd':
        return '%s{%s}' % (showv(v.d[0], d - 1), ', '.join(
            '%s: %s' % (k[1] if k[0] == 'a' else showv(kv, 1), showv(x, d - 1)) for k, (kv, x) in v.d[1].items()))
    if v.k == 'u':
        return '%s(%s)' % (v.d[0], ', '.join(showv(x, d - 1) if isinstance(x, V) else str(x) for x in v.d[1:]))
    return v.k


_nums, _strs = {}, {}


def N(x):
    r = _nums.get(x)
    if r is None:
        x = Fraction(x)
        r = _nums[x] = V('n', x, hh('n', x.numerator, x.denominator))
    return r


def S(x):
    r = _strs.get(x)
    if r is None:
        r = _strs[x] = V('s', x, hh('s', x))
    return r


NO_NAN = [False]     # take every number for a number
NONE = V('0', None, hh('0'))
TRUE = V('b', True, hh('b', 1))
FALSE = V('b', False, hh('b', 0))
NANV = V('nan', None, hh('nan'))
EMPTY = V('u', ('empty',), hh('empty'))


def B(x):
    return TRUE if x else FALSE


def U(*parts):
    return V('u', parts, hh('u', *[x.h if isinstance(x, V) else x for x in parts]))


def root(v):
    while v.k == 'd':
        v = v.d[0]
    return v


def is_name(v):
    """index values that are text"""
    return v.k == 's' or v.k == 'u' and v.d[0] in ('vcall', 'text', 'str')


def clear_key(k, kv):
    return k[0] == 'a' or kv.k in ('n', 's', '0') or pixel(k, kv)


def pixel(k, kv):
    """index of one element of an image"""
    return k[0] == 'i' and kv.k == 't' and all(x.k == 'n' and x.d >= 0 for x in kv.d)


ARITY = tm.ARITY


def set_arity(trees):
    import ast
    seen = {}
    for tree in trees:
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Tuple):
                f = n.value.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if nm:
                    seen.setdefault(nm, set()).add(len(n.targets[0].elts))
    ARITY.clear()
    ARITY.update((k, min(v)) for k, v in seen.items() if len(v) == 1)


# ------------------------------------------------------------------ static facts on terms
_free = {}
RAWSYM = ('lv', 'iv', 'lo', 'lm')


class Static(object):
    """free symbols of the terms of one summary"""

    def __init__(self, sm):
        self.sm = sm
        self.recs = {k: rec for k, rec, loc in sm.loops}
        self.f = {}
        self.rf = {}

    def rec_free(self, k):
        r = self.rf.get(k)
        if r is None:
            self.rf[k] = frozenset()
            out = set()
            if k not in self.recs:
                raise Taint('no record of loop %s' % k)
            for t in self.recs[k].values():
                out |= self.free(t)
            r = frozenset(x for x in out if x[0] not in ('lv', 'iv') or x[1] != k)
            self.rf[k] = r
        return r

    def free(self, t):
        r = self.f.get(t)
        if r is not None:
            return r
        # iterative post-order
        st = [t]
        f = self.f
        while st:
            x = st[-1]
            if x in f:
                st.pop()
                continue
            kids = []
            _kids(x.args, kids)
            todo = [y for y in kids if y not in f]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            op = x.op
            if op == 'bv':
                f[x] = frozenset([('bv', x.args[0])])
            elif op == 'lv':
                f[x] = frozenset([('lv', x.args[0], x.args[1])])
            elif op == 'iv':
                f[x] = frozenset([('iv', x.args[0])])
            elif op in ('lo', 'lm'):
                f[x] = self.rec_free(x.args[0])
            else:
                out = frozenset()
                for y in kids:
                    if f[y]:
                        out = out | f[y] if out else f[y]
                if op in tm.BINDERS and len(x.args) == 3 and isinstance(x.args[2], int) and x.args[2] >= 0:
                    # the own variable is bound in the bodies; in the pre part it cannot occur
                    own = ('bv', x.args[2])
                    if own in out:
                        pre = []
                        _kids((x.args[0],), pre)
                        if not any(own in f[y] for y in pre):
                            out = out - {own}
                if op == 'lev':
                    k = x.args[0][1].args[0]
                    out = frozenset(z for z in out if z[0] not in ('lv', 'iv') or z[1] != k) | self.rec_free(k)
                f[x] = out
        return f[t]


def _kids(args, out):
    for a in args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            _kids(a, out)


def tsig(t):
    """what kind of unknown a term denotes: its head symbol"""
    op = t.op
    if op == 'param':
        return 'param ' + str(t.args[0])
    if op in ('call', 'mcall'):
        return op + ' ' + str(t.args[0])
    if op in ('vcall', 'str'):
        return op
    if op == 'rd':
        k = t.args[1]
        if k[0] == 'a':
            return 'rd .' + k[1]
        if k[1].op == 's':
            return 'rd ' + k[1].args[0]
        b = t.args[0]
        while b.op in ('obj', 'st'):
            b = b.args[0]
        return 'rd * ' + (tsig(b) or '?')
    return None


def vsig(parts):
    op = parts[0]
    if op == 'param':
        return 'param ' + parts[1]
    if op in ('call', 'mcall'):
        return op + ' ' + str(parts[1])
    if op in ('vcall', 'str'):
        return op
    if op == 'shape':
        return 'rd .shape'
    if op == 'rd':
        k = parts[2]
        if k[0] == 'a':
            return 'rd .' + k[1]
        if parts[3].k == 's':
            return 'rd ' + parts[3].d
        b = parts[1]
        while b.k == 'd':
            b = b.d[0]
        return 'rd * ' + ((vsig(b.d) if b.k == 'u' else None) or '?')
    return None


class Pools(object):
    """what the summaries ask about unknown values: which may be None, which text they are
    compared with, which exceptions are caught"""

    def __init__(self, *sms):
        self.none = set()
        self.strs = {}
        types, names = set(), set()
        seen = set()
        nums = set()
        self.seqs = set()
        self.agree = set()     # kinds of values that are compared with one another
        self.bits = set()      # kinds of values that are combined bit by bit
        for sm in sms:
            recs = {k: rec for k, rec, loc in sm.loops}
            st = [sm.ret, sm.pc] + list(sm.params.values()) + list(sm.raises.values())
            st += [x for e in sm.events for x in (e[1], e[2])]
            for rec in recs.values():
                st += list(rec.values())
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'eq':
                    for a, b in (x.args, x.args[::-1]):
                        if a.op == 's':
                            for g in self.sigs(b, recs):
                                self.strs.setdefault(g, set()).add(a.args[0])
                elif x.op in ('eq0', 'lt0', 'band', 'floordiv', 'mod'):
                    if x.op == 'band':
                        for y in x.args[0]:
                            self.bits |= self.sigs(y, recs)
                    for y in x.args[0] if x.op == 'band' else x.args:
                        if y.op == 'q':
                            nums.add(y.args[0])
                        elif y.op == 'num':
                            if x.op == 'eq0' and len(y.args[0]) == 2 and all(
                                    len(mono) == 1 and mono[0][1] == 1 for mono, c in y.args[0]):
                                g = [self.sigs(mono[0][0], recs) for mono, c in y.args[0]]
                                self.agree |= g[0] & g[1]
                            nums |= {c.args[0] for mono, c in y.args[0] if mono == () and c.op == 'q'}
                elif x.op == 'or':
                    for y, _ in x.args[0]:
                        self.bits |= self.sigs(y, recs)
                elif x.op == 'orfold':
                    self.bits |= self.sigs(x.args[1][0], recs)
                elif x.op in ('len', 'dom') and x.args and isinstance(x.args[0], T):
                    self.seqs |= self.sigs(x.args[0], recs)
                elif x.op == 'domn':
                    y = x.args[0]
                    if y.op == 'rd' and y.args[1] == ('a', 'size'):
                        self.seqs |= self.sigs(y.args[0], recs)
                elif x.op == 'truth':
                    self.agree |= self.sigs(x.args[0], recs)
                elif x.op == 'isnone':
                    self.none |= self.sigs(x.args[0], recs)
                elif x.op == 'exc':
                    types |= set(x.args[0])
                    for c in x.args[3]:
                        types |= set(c)
                    names |= set(x.args[1])
                _kids(x.args, st)
        self.strs = {k: sorted(v) for k, v in self.strs.items()}
        self.nums = sorted({abs(Fraction(x)) for x in nums} - {0, 1})[:24]
        self.types = sorted(types - {'Exception', 'BaseException'})
        self.names = sorted(names)

    def sigs(self, t, recs):
        out = set()
        seen = set()
        st = [(t, 0)]          # (term, how deep inside its elements)
        while st:
            x, d = st.pop()
            if (x, d) in seen or d > 3:
                continue
            seen.add((x, d))
            if x.op == 'ite':
                st += [(x.args[1], d), (x.args[2], d)]
            elif x.op == 'lstep':
                st.append((x.args[1][0], d))
            elif x.op in ('lv', 'lo', 'lm'):
                nm = x.args[1]
                for m_ in ('@exit', '@break'):
                    if m_ in nm:
                        nm = nm[:nm.index(m_)]
                for n, y in recs.get(x.args[0], {}).items():
                    if n[-1] == nm or n[0] == 'returns':
                        st.append((y, d))
            elif d and x.op == 'cat':
                st += [(y, d) for y in x.args[0]]
            elif d and x.op in ('list', 'tuple'):
                st += [(y, d - 1) for y in x.args[0]]
            elif d and x.op == 'map':
                st.append((x.args[1][0], d - 1))
            elif x.op in ('st', 'obj', 'wh'):
                if d:
                    st.append((x.args[0], d))
            else:
                g = tsig(x)
                if g is not None:
                    out.add('rd * ' * d + g)
                if x.op == 'rd' and x.args[1][0] == 'i' and x.args[1][1].op != 's':
                    st.append((x.args[0], d + 1))
        return out


SCALARS = frozenset(['rd', 'call', 'mcall', 'param'])


PIXELS = frozenset(('a', x) for x in ('image', 'weight', 'noise', 'bmask', 'ormask', 'mfrac', 'array'))


class Model(object):
    """one random interpretation, shared by the two sides"""

    def __init__(self, seed, pl, ov=None):
        self.seed = seed
        self.pl = pl
        self.nums = pl.nums
        self.strs, self.types, self.names, self.none = pl.strs, pl.types, pl.names, pl.none
        r = mix(seed, 1)
        # what raises in this interpretation
        self.rz = r
        # how often unknown values are None / named constants / zero
        z = mix(seed, 2)
        self.pnone = (0, 3, 8, 15, 30)[z % 5] if self.none else 0
        self.pstr = (0, 20, 50, 75)[(z >> 8) % 4] if self.strs else 0
        self.pzero = (5, 15, 30, 50, 75)[(z >> 16) % 5]
        self.ptrue = (15, 50, 85, 98)[(z >> 24) % 4]
        self.plen = (30, 60, 100)[(z >> 32) % 3]
        self.size = (1, 1, 1, 2, 2, 2, 2, 3)[(z >> 52) % 8]      # the usual length
        # all unknown sequences of one length
        self.uniform = self.plen == 100
        if self.uniform and (z >> 36) % 16 == 0:
            self.size = 0
        self.pempty = (0, 0, 3, 20)[(z >> 56) % 4]
        self.pneg = (5, 20, 50)[(z >> 40) % 3]
        # in half of the interpretations every kind of unknown value has its own habits
        self.own = {} if (z >> 48) % 2 else None
        # values that are compared with one another mostly agree
        self.agree = pl.agree and mix(seed, 5) % 2 == 0
        self.nt = {}
        self.ov = ov or {}
        self.log = set()
        self.cov = set()       # outcomes of the tests met
        self.times = {}
        self.lens = {}
        # second look at a difference: unknown values used as numbers are these numbers
        # everywhere, arithmetic on values that are indexed has elements
        self.canon, self.ix = {}, set()
        self.numd, self.ixd = {}, set()
        self.pix = set()       # rows of pixels read

    def cn(self, v):
        x = self.canon.get(v.h)
        if x is None or v.k != 'u' or v.d[0] not in SCALARS:
            return v
        return V('n', x, N(x).h, v)

    def elements(self, v):
        if v.k == 'n':
            return v.el is not None and (callable(v.el) or v.el.h in self.ix)
        if v.k == 'd':
            if entries(v):
                return True
            r = root(v)
            return r.k == 'u' and (r.d[0] in ('filled', 'arr') or r.h in self.ix or r.d[0] == 'rd' and r.d[2] in PIXELS)
        return v.k in 'lt' or v.k == 'u' and (
            v.h in self.ix or v.d[0] in ('filled', 'arr') or v.d[0] == 'rd' and v.d[2] in PIXELS)

    def zero(self, v):
        if self.pl.seqs and vsig(v.d) in self.pl.seqs:
            return self.pempty
        return self.pzero if self.own is None else self.habit(v)[0]

    def habit(self, v):
        """(how often zero, how often None) for this kind of unknown value"""
        g = vsig(v.d) or v.d[0]
        r = self.own.get(g)
        if r is None:
            z = mix(self.seed, 3, zlib.crc32(g.encode()))
            r = self.own[g] = ((2, 10, 40, 85, 98)[z % 5], (0, 3, 30, 80)[(z >> 8) % 4])
        return r

    def draw(self, h, what):
        self.log.add((h, what))
        o = self.ov.get((h, what))
        if o is not None:
            return o
        return mix(h, self.seed, what)

    # -- meaning of an unknown value
    def fresh(self, v):
        """the value an uninterpreted term denotes: None, a named constant, or itself"""
        if self.pnone or self.pstr or self.own is not None:
            g = vsig(v.d)
            n, ss = g in self.none, self.strs.get(g)
            if not n and not ss:
                return self.cn(v) if self.canon else v
            r = self.draw(v.h, 11)
            p = r % 100
            if n and p < (self.pnone if self.own is None else self.habit(v)[1]):
                return NONE
            p = (r >> 10) % 100
            if ss and p < self.pstr:
                return S(ss[(r >> 20) % len(ss)])
        return self.cn(v) if self.canon else v

    def num(self, v, e=0):
        if v.k == 'n':
            return v.d
        x = self.num_(v, e)
        if v.k == 'u':
            if e:
                self.ixd.add(v.h)          # an array
            else:
                self.numd[v.h] = x
        return x

    def num_(self, v, e=0):
        k = v.k
        if k == 'b':
            return Fraction(1 if v.d else 0)
        if k == 'nan':
            return None
        if k == 'd' and v.d[0].k == 'u':
            pass
        if k in 'lt':
            n = len(v.d)
            if n == 0:
                return Fraction(0)
        if k == 'u' and self.pl.bits and vsig(v.d) in self.pl.bits:
            return Fraction(abs(self.draw_num(v, e).numerator))
        return self.draw_num(v, e)

    def draw_num(self, v, e):
        k, h = v.k, v.h
        if k == 'u' and self.agree:
            g = vsig(v.d)
            if g in self.pl.agree and self.draw(h, 51) % 8:
                h = zlib.crc32(g.encode())
        r = self.draw(h, 21 + e)
        if k == 'u' and r % 100 < self.zero(v):
            return Fraction(0)
        r >>= 8
        if self.nums and r % 10 == 0:
            # a number the summaries compare with, or one next to it
            r >>= 5
            x = self.nums[r % len(self.nums)] + (0, 0, 0, 1, -1)[(r >> 6) % 5]
            r >>= 12
            return -x if r % 100 < self.pneg else x
        r >>= 5
        x = (1, 1, 2, 3, 1, 5, 7, 4)[r % 8]
        r >>= 3
        x = Fraction(x)
        if r % 8 == 0:
            x = x / 2
        r >>= 3
        if r % 100 < self.pneg:
            x = -x
        return x

    def length(self, v):
        k = v.k
        if k in 'lt':
            return len(v.d)
        if k == 's':
            return len(v.d)
        if k == 'n':
            if v.el is not None and not callable(v.el):
                return self.length(v.el)
            return max(0, int(v.d))
        if k == 'd':
            base, items = v.d
            if base is EMPTY:
                return len([1 for x in items if x[0] == 'i'])
            return self.length(base)
        if k == 'u':
            if v.d[0] == 'rd' and v.d[2][0] == 'i' and is_name(v.d[3]):
                return self.length(v.d[1])      # columns of a table
            if v.d[0] == 'rd':
                sl = part(v)
                if sl is not None:
                    return len(range(self.length(v.d[1]))[sl])
            if v.d[0] == 'arr':
                return self.length(v.d[1])
            if v.d[0] in ('empty',):
                return 0
            if v.d[0] == 'set':
                return len(v.d) - 1
        if self.uniform:
            n = self.size
        else:
            r = self.draw(v.h, 21)
            if k == 'u' and r % 100 < self.zero(v):
                n = 0
            else:
                r = self.draw(v.h, 31)
                n = self.size if r % 100 < self.plen else 1 + ((r >> 10) % 3 == 0)
        self.lens[v.h] = n
        return n

    def truth(self, v):
        k = v.k
        if k == 'b':
            return v.d
        if k == '0':
            return False
        if k == 'nan':
            return True
        if k in 'lt' or k == 's':
            return len(v.d) > 0
        if k == 'd':
            if v.d[0] is EMPTY or v.d[1]:
                return bool(v.d[1])
        if v is EMPTY:
            return False
        if k == 'u' and self.uniform and self.pl.seqs and vsig(v.d) in self.pl.seqs:
            return self.length(v) != 0
        return self.num(v) != 0

    def bit(self, h, what, kind):
        p = self.ptrue
        if self.own is not None:
            p = (3, 50, 97, 97, 100, p)[mix(self.seed, 4, kind) % 6]
        return self.draw(h, what) % 100 < p

    def raising(self, tag):
        """(name, type) that raises, or None"""
        r = self.nt.get(tag)
        if r is None:
            z = mix(self.seed, 77, tag)
            if not self.names or z % 100 < 45:
                r = (None, None)
            else:
                ts = self.types + ['#other']
                r = (self.names[(z >> 8) % len(self.names)], ts[(z >> 24) % len(ts)])
            self.nt[tag] = r
        return r

    def exc(self, types, names, tag, cover):
        nm, ty = self.raising(tag)
        if nm is None or nm not in names:
            return False

        def m(ts):
            return ty in ts or 'Exception' in ts or 'BaseException' in ts
        return m(types) and not any(m(c) for c in cover)

    # -- components
    def key(self, kv):
        return ('i', kv.h)

    def rd(self, base, k, kv):
        """component k of base (kv: value of an index)"""
        b = base.k
        if b == 'u' and k[0] == 'i':
            self.ixd.add(base.h)
            if kv.k == 't' and kv.d and kv.d[0].k == 'n':
                self.pix.add((base.h, kv.d[0].d))
        if b == 'd':
            bb, items = base.d
            x = items.get(k)
            if x is not None:
                return x[1]
            if items and bb is not EMPTY:
                ky, (kv0, _) = next(iter(items.items()))
                if k[0] == 'i' and kv.k == 'n' and kv0 is not None and kv0.k == 'u' and kv0.d[0] == 'rd' and \
                        kv0.d[2][0] == 'i' and kv0.d[1].h == root(bb).h:
                    # mapping whose keys are its elements
                    return self.rd(bb, k, kv)
                if k[0] == 'i' and pixel(k, kv) != any(pixel(q_, z) for q_, (z, _) in items.items()) and any(
                        q_[0] == 'i' for q_ in items):
                    return self.opaque_rd(base, k, kv)
                if not clear_key(ky, kv0):
                    # layer of one store at an index that may coincide with others
                    if ky[0] == 'i' and k[0] == 'i' and not (kv.k == 's'):
                        return self.opaque_rd(base, k, kv)
                    return self.rd(bb, k, kv)
                if k[0] == 'i' and kv.k != 's':
                    if not clear_key(k, kv):
                        if any(q_[0] == 'i' for q_ in items):
                            return self.opaque_rd(base, k, kv)
                    elif any(q_[0] == 'i' and z.k == 's' for q_, (z, _) in items.items()) and bb is not EMPTY:
                        return self.opaque_rd(base, k, kv)    # row of a table
                elif k[0] == 'i' and not any(q_[0] == 'a' for q_ in items) and \
                        all(z.k == 'n' for z, _ in items.values()):
                    # column of a table some rows of which are replaced
                    pass
            if bb is EMPTY:
                if k[0] == 'i' and kv.k == 'n' and not any(z is None or z.k == 'n' for z, _ in items.values()):
                    # iteration over the keys
                    ks = sorted((z for z, _ in items.values()), key=lambda z: z.h)
                    if kv.d.denominator == 1 and 0 <= kv.d < len(ks):
                        return ks[int(kv.d)]
                return U('missing', base, k[0], kv if kv is not None else k[1])
            return self.rd(bb, k, kv)
        if b in 'lt' and k[0] == 'i':
            if kv.k == 's':
                # item of each element, before one of them is chosen
                return self.seq('l', [self.rd(x, k, kv) for x in base.d])
            if kv.k == 'n' and kv.d.denominator == 1:
                n = len(base.d)
                j = int(kv.d)
                if -n <= j < n:
                    return base.d[j]
                return U('noitem')
            if kv.k == 'u' and kv.d[0] == 'slice' and all(x.k in '0n' for x in kv.d[1:]):
                sl = slice(*[None if x.k == '0' else int(x.d) for x in kv.d[1:]])
                try:
                    return self.seq(b, base.d[sl])
                except ValueError:
                    return U('noitem')
            if kv.k == 'u' and kv.d[0] != 'slice':
                n = len(base.d)
                if n == 0:
                    return U('noitem')
                return base.d[int(abs(self.num(kv).numerator)) % n]
        if b == 's' and k[0] == 'i':
            if kv.k == 'n' and kv.d.denominator == 1:
                return S(base.d[int(kv.d)]) if -len(base.d) <= kv.d < len(base.d) else U('noitem')
            if kv.k == 'u' and kv.d[0] == 'slice' and all(x.k in '0n' for x in kv.d[1:]) and not (
                    kv.d[3].k == 'n' and kv.d[3].d == 0):
                return S(base.d[slice(*[None if x.k == '0' else int(x.d) for x in kv.d[1:]])])
        if b == 'u':
            if base is EMPTY:
                return U('missing', base, k[0], kv if kv is not None else k[1])
            tag = base.d[0]
            if tag == 'arr' and k[0] == 'i' and base.d[1].k in 'lt':
                return self.rd(base.d[1], k, kv)
            if k == ('a', 'size') and self.pl.seqs and vsig(base.d) in self.pl.seqs:
                return N(self.length(base))
            if k == ('a', 'shape'):
                return V('u', ('shape', base), hh('shape', base.h))
            if tag == 'set' and k[0] == 'i' and kv.k == 'n' and kv.d.denominator == 1 and 0 <= kv.d < len(base.d) - 1:
                return base.d[1 + int(kv.d)]
            if tag == 'shape' and k[0] == 'i' and kv.k == 'n' and kv.d == 0:
                return N(self.length(base.d[1]))
            if tag == 'shape' and k[0] == 'i' and kv.k == 'n':
                return N(int(abs(self.num(self.opaque_rd(base, k, kv)))) or 1)
            if tag == 'where1t' and k[0] == 'i' and kv.k == 'n':
                if kv.d == 0:
                    return base.d[1]
            if tag == 'filled' and k[0] == 'i':
                return base.d[1]
            if tag == 'rd' and k[0] == 'i' and kv.k == 'n' and kv.d.denominator == 1:
                sl = part(base)
                if sl is not None:
                    # item of a part of a sequence
                    j = int(kv.d)
                    if j < 0 or (sl.start or 0) < 0 or (sl.step or 1) < 0:
                        r = range(self.length(base.d[1]))[sl]
                        if not -len(r) <= j < len(r):
                            return U('noitem')
                        j = r[j]
                    else:
                        j = (sl.start or 0) + j * (sl.step or 1)
                    return self.rd(base.d[1], ('i', N(j).h), N(j))
        if b == 'n' and base.el is not None:
            if not callable(base.el):
                return self.rd(base.el, k, kv)
            if k[0] == 'i':
                return base.el(k, kv)
        if b == 'n' and k[0] == 'i':
            return base              # uniform content
        if b in ('nan', 'b') and k[0] == 'i':
            return base
        return self.opaque_rd(base, k, kv)

    def opaque_rd(self, base, k, kv):
        if k[0] == 'i' and is_name(kv) and base.k == 'u' and base.d[0] == 'rd' and base.d[2][0] == 'i' and \
                base.d[3].k in ('n', 'u') and not is_name(base.d[3]) and base.d[1].k in ('u', 'd'):
            # row of a table: x[i]['f'] is x['f'][i]
            return self.rd(self.rd(base.d[1], k, kv), base.d[2], base.d[3])
        if k == ('a', 'T') and base.k == 'u' and base.d[0] == 'rd' and base.d[2] == k:
            return base.d[1]
        x = V('u', ('rd', base, k, kv), hh('rd', base.h, k[0], k[1]))
        return self.fresh(x)

    def seq(self, k, items):
        items = tuple(items)
        if items and k == 'l':
            x = items[0]
            if x.k == 'u' and x.d[0] == 'rd' and x.d[2] == ('i', N(0).h):
                u = x.d[1]
                if u.k == 'u' and u.d[0] != 'rd!' and self.length(u) == len(items) and all(
                        y.h == self.rd(u, ('i', N(i).h), N(i)).h for i, y in enumerate(items)):
                    return u
        if items and k == 't':
            x = items[0]
            if x.k == 'u' and x.d[0] == 'rd' and x.d[2] == ('i', N(0).h) and x.d[1].k == 'u' and \
                    x.d[1].d[0] in ('call', 'mcall') and \
                    ARITY.get(x.d[1].d[1].rsplit('.', 1)[-1]) == len(items):
                u = x.d[1]
                if all(y.h == self.rd(u, ('i', N(i).h), N(i)).h for i, y in enumerate(items)):
                    return u
        return V(k, items, hh(k, *[x.h for x in items]))

    def items(self, v):
        """the elements of an iterable value"""
        if v.k in 'lt':
            return list(v.d)
        if v.k == 'u' and v.d[0] == 'arr' and v.d[1].k in 'lt':
            return list(v.d[1].d)
        if v.k == 'u' and v.d[0] == 'set':
            return list(v.d[1:])
        return [self.rd(v, ('i', N(i).h), N(i)) for i in range(self.length(v))]

    def store(self, base, k, kv, val):
        b = base.k
        if b == 'u' and k[0] == 'i':
            self.ixd.add(base.h)
        if k[0] == 'i' and kv.k == 'n' and b in 'lt' and kv.d.denominator == 1:
            n = len(base.d)
            j = int(kv.d)
            if -n <= j < n:
                it = list(base.d)
                it[j] = val
                return self.seq(b, it)
            return base
        if k[0] == 'i' and kv.k != 's' and val.k == 'd' and val.d[0].k == 'u' and val.d[0].d[0] == 'rd' and \
                val.d[0].d[1].h == base.h and val.d[0].d[2] == k and \
                all(z.k == 's' for z, _ in val.d[1].values() if z is not None) and \
                all(q_[0] == 'i' for q_ in val.d[1]):
            # fields of one row of a table
            r = base
            for kk, (z, x) in val.d[1].items():
                col = self.rd(base, kk, z)
                r = self.store(r, kk, z, self.store(col, k, kv, x))
            return r
        if b == 'd':
            bb, items = base.d
            ck = clear_key(k, kv)
            if bb is EMPTY:
                it = dict(items)
                it[k] = (kv, val)
                return self.mkd(bb, it)
            if items:
                ky, (kv0, _) = next(iter(items.items()))
                if k[0] == 'i' and kv.k == 'n' and kv0 is not None and kv0.k == 'u' and kv0.d[0] == 'rd' and \
                        kv0.d[2][0] == 'i' and kv0.d[1].h == root(bb).h:
                    # mapping whose keys are its elements
                    return self.rd(bb, k, kv)
                if ck and clear_key(ky, kv0) and (k[0] == 'a' or not any(
                        q_[0] == 'i' and pixel(q_, z) != pixel(k, kv) for q_, (z, _) in items.items())):
                    it = dict(items)
                    it[k] = (kv, val)
                    return self.mkd(bb, it)
                if not ck and ky == k:
                    return self.mkd(bb, {k: (kv, val)})
        if k[0] == 'i' and kv.k == 'u' and kv.d[0] == 'slice' and all(x.k == '0' for x in kv.d[1:]):
            return val
        return self.mkd(base, {k: (kv, val)})

    def mkd(self, base, items):
        out = {}
        if base is EMPTY and not items:
            return base
        for k in sorted(items):
            kv, x = items[k]
            if base is EMPTY or not same(x, self.rd(base, k, kv)):
                out[k] = (kv, x)
        if not out:
            return base
        return V('d', (base, out), hh('d', base.h, *[(k[0], k[1], x.h) for k, (kv, x) in out.items()]))

    def has(self, d, kv):
        if d.k == 'd':
            k = self.key(kv)
            if k in d.d[1]:
                return True
            return self.has(d.d[0], kv)
        if d is EMPTY:
            return False
        if d.k in 'lt':
            return any(self.eq(x, kv) for x in d.d)
        if d.k == 'u' and d.d[0] == 'set':
            return any(self.eq(x, kv) for x in d.d[1:])
        if d.k == 's' and kv.k == 's':
            return kv.d in d.d
        if d.k in '0n':
            return False
        return self.bit(hh('has', d.h, kv.h), 41, kv.h)

    def eq(self, a, b):
        if a.h == b.h:
            return True
        if a.k == 'n' and b.k == 'u' or a.k == 'u' and b.k == 'n':
            return self.num(a) == self.num(b)
        if a.k in ('0', 's', 'n', 'b') and b.k in ('0', 's', 'n', 'b'):
            return same(a, b)
        if a.k in 'lt' and b.k == a.k:
            return len(a.d) == len(b.d) and all(self.eq(x, y) for x, y in zip(a.d, b.d))
        if '0' in (a.k, b.k) or 's' in (a.k, b.k):
            return False
        return self.bit(hh('eq', *sorted((a.h, b.h))), 43, 7)


def same(a, b):
    return a.h == b.h or a.k == 'b' and b.k == 'n' and b.d == int(a.d) or a.k == 'n' and b.k == 'b' and a.d == int(b.d)


STRM = frozenset(['replace', 'split', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'find', 'count',
                  'isdigit', 'index', 'isalpha'])


def part(v):
    """slice that the part v of an unknown sequence is"""
    kv = v.d[3]
    if v.d[2][0] != 'i' or kv.k != 'u' or kv.d[0] != 'slice' or v.d[1].k != 'u' or \
            any(x.k not in '0n' for x in kv.d[1:]):
        return None
    xs = [None if x.k == '0' else int(x.d) for x in kv.d[1:]]
    if xs[2] == 0 or xs == [None, None, None]:
        return None
    return slice(*xs)


def entries(v):
    """zeros with entries stored at constant positions"""
    b, items = v.d
    return b.k == 'n' and b.d == 0 and all(k[0] == 'i' and z is not None and z.k == 'n' and z.d.denominator == 1
                                           for k, (z, _) in items.items())


def poisoned(v):
    return v.k == 'u' and v.d[0] == 'poison'


class Run(object):
    """reduction of the terms of one summary in a model"""

    def __init__(self, static, model, budget=[10**9]):
        self.s = static
        self.m = model
        self.memo = {}
        self.bad = set()       # entries of memo that used a value whose use raises
        self.loops = {}
        self.budget = budget
        self.fails = False     # met a value whose use raises
        self.beyond = False    # read past the end of an unknown sequence
        self.creads = set()    # items read at a constant index
        self.sreads = set()    # keys read
        self.absent = set()    # keys found to be absent

    def o_unbound(self, t, env, e):
        self.fails = True
        return U('unbound')

    def ev(self, t, env, e=0):
        op = t.op
        if op == 'q':
            return N(t.args[0])
        if op == 's':
            return S(t.args[0])
        fr = self.s.free(t)
        if fr:
            if len(fr) == 1:
                for x in fr:
                    y = env.get(x)
                    k = (t, e, y.h if y is not None else None)
            else:
                k = (t, e, tuple(sorted([(x, env[x].h) for x in fr if x in env])))
        else:
            k = (t, e)
        r = self.memo.get(k)
        if r is not None:
            if k in self.bad:
                self.fails = True
            return r
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise Budget()
        f0, self.fails = self.fails, False
        f = getattr(self, 'o_' + op, None)
        if f is not None:
            r = f(t, env, e)
        else:
            r = self.generic(t, env, e)
        if r.k == 'u' and self.m.canon:
            r = self.m.cn(r)
        self.memo[k] = r
        if self.fails:
            self.bad.add(k)
        else:
            self.fails = f0
        return r

    def safe(self, v):
        """v, marked if its evaluation used a value whose use raises"""
        if self.fails and not poisoned(v):
            v = U('poison', v)
        self.fails = False
        return v

    def use(self, v):
        if poisoned(v):
            self.fails = True
            return v.d[1]
        return v

    def num(self, t, env, e=0):
        """number denoted by t; None for nan"""
        return self.m.num(self.ev(t, env, e), e)

    def bool(self, t, env, e=0):
        return self.m.truth(self.ev(t, env, e))

    # -- leaves and logic
    def o_true(self, t, env, e):
        return TRUE

    def o_false(self, t, env, e):
        return FALSE

    def o_none(self, t, env, e):
        return NONE

    def o_nan(self, t, env, e):
        return NANV

    def o_bv(self, t, env, e):
        v = env.get(('bv', t.args[0]))
        if v is None:
            raise Taint('unbound index')
        return v

    def o_lv(self, t, env, e):
        v = env.get(('lv', t.args[0], t.args[1]))
        if v is None:
            raise Taint('unbound loop variable')
        return self.use(v)

    def o_iv(self, t, env, e):
        v = env.get(('iv', t.args[0]))
        if v is None:
            raise Taint('unbound loop index')
        return v

    def o_param(self, t, env, e):
        return self.m.fresh(U('param', *map(str, t.args)))

    def o_ite(self, t, env, e):
        a, h, l = t.args
        while True:
            f0, self.fails = self.fails, False
            r0, self.sreads = self.sreads, set()
            c = self.bool(a, env, e)
            r1, self.sreads = self.sreads, r0
            if r1 and not self.fails and not r1 <= r0:
                # reads of what may be absent: they are made only if the outcome of the test matters
                x = self.ev(h if c else l, env, e)
                f1 = self.fails
                r0, self.sreads = self.sreads, set()
                y = self.ev(l if c else h, env, e)
                self.sreads = r0
                if x.h != y.h:
                    self.sreads |= r1
                self.fails = f0 or f1
                self.m.cov.add((a, c))
                return x
            if self.fails:
                # a test that cannot be made; without a meaning unless it does not matter
                self.fails = False
                x, y = self.ev(h, env, e), self.ev(l, env, e)
                self.fails = self.fails or f0 or x.h != y.h
                return x if c else y
            self.fails = f0
            self.m.cov.add((a, c))
            fr = self.s.free(a)
            if fr:
                # in how many iterations
                s_ = self.m.times.setdefault((a, c), set())
                if len(s_) < 4:
                    s_.add(tuple(env[x].h if x in env else 0 for x in fr))
                    if len(s_) > 1:
                        self.m.cov.add((a, c, len(s_)))
            t = h if c else l
            if t.op != 'ite' or self.s.free(t):
                return self.ev(t, env, e)
            a, h, l = t.args

    def o_eq0(self, t, env, e):
        x = self.num(t.args[0], env, e)
        return B(x is not None and x == 0)

    def o_lt0(self, t, env, e):
        x = self.num(t.args[0], env, e)
        return B(x is not None and x < 0)

    def o_eq(self, t, env, e):
        return B(self.m.eq(self.ev(t.args[0], env, e), self.ev(t.args[1], env, e)))

    o_is = o_eq

    def o_truth(self, t, env, e):
        return B(self.bool(t.args[0], env, e))

    def o_isnone(self, t, env, e):
        return B(self.ev(t.args[0], env, e).k == '0')

    def o_has(self, t, env, e):
        d, k = self.ev(t.args[0], env, e), self.ev(t.args[1], env, e)
        r = self.m.has(d, k)
        if not r and k.k == 's':
            self.absent.add((root(d).h, k.h))
        return B(r)

    def o_hasattr(self, t, env, e):
        o, n = self.ev(t.args[0], env, e), self.ev(t.args[1], env, e)
        while o.k == 'd':
            if n.k == 's' and ('a', n.d) in o.d[1]:
                return TRUE
            o = o.d[0]
        if o.k == '0':
            return FALSE
        return B(self.m.bit(hh('hasattr', o.h, n.h), 41, n.h))

    def o_isinstance(self, t, env, e):
        o, n = self.ev(t.args[0], env, e), self.ev(t.args[1], env, e)
        if o.k == '0':
            return FALSE
        return B(self.m.bit(hh('isinstance', o.h, n.h), 41, n.h))

    def o_isnan(self, t, env, e):
        x = self.ev(t.args[0], env, e)
        if x.k == 'nan':
            return TRUE
        if x.k in 'nb0s' or NO_NAN[0]:
            return FALSE
        return B(mix(x.h, self.m.seed, 51) % 100 < 25)

    def o_isfinite(self, t, env, e):
        x = self.ev(t.args[0], env, e)
        if x.k == 'nan':
            return FALSE
        if x.k in 'nb0s':
            return TRUE
        return B(mix(x.h, self.m.seed, 51) % 100 >= 40)

    def o_exc(self, t, env, e):
        types, names, fvs, cover = t.args
        tag = hh(*[self.ev(x, env, e).h for x in fvs])
        return B(self.m.exc(types, names, tag, cover))

    def o_any(self, t, env, e):
        b = t.args[0]
        if b.op == 'ite' and b.args[0].op == 'truth' and b.args[1].op in ('true', 'false') and \
                b.args[2].op in ('true', 'false'):
            v = self.ev(b.args[0].args[0], env, 0)
            if v.k in 'lt':
                return B(any(self.m.truth(x) == (b.args[1].op == 'true') for x in v.d))
        return B(self.bool(t.args[0], env, 0) or self.bool(t.args[0], env, 1))

    def o_count(self, t, env, e):
        return N(self.bool(t.args[0], env, 0) + self.bool(t.args[0], env, 1))

    def o_where1(self, t, env, e):
        return U('where1', self.ev(t.args[0], env, 0), self.ev(t.args[0], env, 1))

    def o_wtuple(self, t, env, e):
        return U('where1t', self.ev(t.args[0], env, e))

    def o_wh(self, t, env, e):
        m, v, b = t.args
        c0 = self.bool(m, env, e)
        return self.ev(v if c0 else b, env, e)

    # -- numbers
    def o_num(self, t, env, e):
        r = Fraction(0)
        one = None
        ix = not e
        ops, proj = [], False
        for mono, c in t.args[0]:
            cf = self.num(c, env, e)
            if cf is None:
                return NANV
            if cf == 0:
                continue
            x = cf
            if one is None and cf == 1 and len(mono) == 1 and mono[0][1] == 1:
                one = mono[0][0]
            else:
                one = False
            fs = []
            if len(mono) > 1 and any(a.op == 'ite' and p == 1 and self.never(a, env, e) for a, p in mono):
                continue
            for a, p in mono:
                y = self.ev(a, env, e)
                if p == 1:
                    z = self.m.num(y, e)
                else:
                    z = self.power(y, p, e)
                if z is None:
                    return NANV
                x = x * z
                if ix:
                    fs.append((y, p))
                    proj = proj or self.m.elements(y)
            r += x
            if ix:
                ops.append((cf, fs))
        if one:
            return self.ev(one, env, e)
        if proj:
            return V('n', r, N(r).h, lambda k, kv: self.project(ops, k, kv, e))
        return N(r)

    def never(self, a, env, e):
        """the condition a (as a number) does not hold"""
        f0, self.fails = self.fails, False
        y = self.ev(a, env, e)
        r = not self.fails and (y.k == 'b' and not y.d or y.k == 'n' and y.d == 0)
        self.fails = f0
        return r

    def project(self, ops, k, kv, e):
        """element of an arithmetic combination of arrays and numbers"""
        r = Fraction(0)
        for cf, fs in ops:
            x = cf
            for y, p in fs:
                if self.m.elements(y):
                    y = self.m.rd(y, k, kv)
                z = self.m.num(y, e) if p == 1 else self.power(y, p, e)
                if z is None:
                    return NANV
                x = x * z
            r += x
        return N(r)

    def power(self, y, p, e):
        z = self.m.num(y, e)
        if z is None:
            return None
        if isinstance(p, Fraction) and p.denominator == 1:
            p = int(p)
        if isinstance(p, int) and abs(p) <= 12:
            if p < 0 and z == 0:
                # the same for 0**-2 as for (0**2)**-1
                return Fraction(1)
            return z ** p
        r = self.m.draw(hh('pow', str(z), str(p)), 61)
        return Fraction(1 + r % 97, 1 + (r >> 20) % 13) if z != 0 else Fraction(0)

    def bits(self, v, e):
        x = self.m.num(v, e)
        if x is None:
            return 0
        return abs(x.numerator)

    def o_or(self, t, env, e):
        return self.union([self.ev(x, env, e) for x, g in t.args[0] if self.bool(g, env, e)], e)

    def union(self, vs, e):
        r, one = 0, []
        for v in vs:
            b = self.bits(v, e)
            r |= b
            if b:
                one.append(v)
        return one[0] if len(one) == 1 else N(r)

    def o_band(self, t, env, e):
        r = None
        for x in t.args[0]:
            b = self.bits(self.ev(x, env, e), e)
            r = b if r is None else r & b
        return N(r or 0)

    def o_cast(self, t, env, e):
        dt = t.args[0]
        if dt.op == 's' and dt.args[0] in ('i4', 'i8'):
            v = self.ev(t.args[1], env, e)
            if v.k == 'n':
                return N(int(v.d))
            if v.k == 'u' and v.d[0] == 'cast' and v.d[1].h == self.ev(dt, env, e).h:
                return v
        return self.generic(t, env, e)

    def o_intcast(self, t, env, e):
        x = self.num(t.args[0], env, e)
        return N(int(x)) if x is not None else NANV

    def o_floordiv(self, t, env, e):
        a, b = self.num(t.args[0], env, e), self.num(t.args[1], env, e)
        if a is None or b is None or b == 0:
            return U('floordiv0')
        return N(a // b)

    def o_mod(self, t, env, e):
        a, b = self.num(t.args[0], env, e), self.num(t.args[1], env, e)
        if a is None or b is None or b == 0:
            return U('mod0')
        return N(a % b)

    def o_max(self, t, env, e):
        xs = [self.num(x, env, e) for x in t.args[0]]
        return NANV if None in xs else N(max(xs))

    def o_min(self, t, env, e):
        xs = [self.num(x, env, e) for x in t.args[0]]
        return NANV if None in xs else N(min(xs))

    def o_len(self, t, env, e):
        return N(self.m.length(self.ev(t.args[0], env, e)))

    # -- collections
    def o_tuple(self, t, env, e):
        return self.m.seq('t', [self.ev(x, env, e) for x in t.args[0]])

    def o_list(self, t, env, e):
        return self.m.seq('l', [self.ev(x, env, e) for x in t.args[0]])

    def mkset(self, xs):
        xs = {v.h: v for v in xs}
        return U('set', *[xs[h] for h in sorted(xs)])

    def o_set(self, t, env, e):
        return self.mkset([self.ev(x, env, e) for x in t.args[0]])

    def o_setterm(self, t, env, e):
        return self.mkset(self.m.items(self.ev(t.args[0], env, e)))

    def o_setor(self, t, env, e):
        out = []
        for x in t.args:
            v = self.ev(x, env, e)
            if not (v.k == 'u' and v.d[0] == 'set'):
                return self.generic(t, env, e)
            out += v.d[1:]
        return self.mkset(out)

    def o_dict(self, t, env, e):
        it = {}
        for k, x in t.args[0]:
            kv = self.ev(k, env, e)
            it[self.m.key(kv)] = (kv, self.ev(x, env, e))
        return self.m.mkd(EMPTY, it) if it else EMPTY

    def k_of(self, k, env, e):
        if k[0] == 'a':
            return k, None
        if tm.is_bool(k[1]) and k[1] is not tm.TRUE and k[1] is not tm.FALSE:
            kv = U('mask', self.ev(k[1], env, 0), self.ev(k[1], env, 1))
        else:
            kv = self.ev(k[1], env, e)
        if k[0] == 'x':
            # attribute with a computed name
            return (('a', kv.d), None) if kv.k == 's' else (('x', kv.h), kv)
        return self.m.key(kv), kv

    def o_obj(self, t, env, e):
        r = self.ev(t.args[0], env, e)
        for k, x in t.args[1]:
            kk, kv = self.k_of(k, env, e)
            r0, self.sreads = self.sreads, set()
            y = self.ev(x, env, e)
            r1, self.sreads = self.sreads, r0
            if r1:
                if kk[0] == 'i' and kv is not None and y.k == 'u' and y.d[0] == 'rd' and y.d[1].h == root(r).h:
                    # the entry stays as it was, if there is one
                    own = (y.d[1].h, kv.h)
                    if own in r1:
                        r1.discard(own)
                        self.memo.pop((x, e), None)
                        self.memo.pop((tm.rd(t.args[0], k), e), None)
                self.sreads |= r1
            if kk[0] == 'a' and r.k in 's0b':
                if self.m.rd(r, kk, kv).h == y.h:
                    continue           # another object was given the attribute
                self.fails = True      # has no attributes that can be set
            r = self.m.store(r, kk, kv, y)
        return r

    def o_st(self, t, env, e):
        kk, kv = self.k_of(t.args[1], env, e)
        r = self.ev(t.args[0], env, e)
        y = self.ev(t.args[2], env, e)
        if kk[0] == 'a' and r.k in 's0b':
            if self.m.rd(r, kk, kv).h == y.h:
                return r
            self.fails = True
        return self.m.store(r, kk, kv, y)

    def o_rd(self, t, env, e):
        k = t.args[1]
        kk, kv = self.k_of(k, env, e)
        b = self.ev(t.args[0], env, e)
        if b.k == '0':
            self.fails = True
        if kv is not None and kv.k == 's' and b.k in 'ud' and kk[0] == 'i' and not self.m.has(b, kv):
            self.sreads.add((root(b).h, kv.h))
        if kv is not None and kv.k == 'n' and b.k in 'ud':
            if k[1].op == 'q':
                self.creads.add((root(b).h, kv.d))
            elif root(b).k != 'n' and kv.d >= self.m.length(b) and not (b.k == 'u' and tm.like(t.args[0])):
                self.beyond = True
        if kv is not None and kv.k == 'n' and b.k in 'nu' and k[1].op != 'q':
            # element of an array made element by element
            x = y = tm.like(t.args[0])
            while y is not None:
                x, y = y, tm.like(y)
            if x is not None:
                v = self.ev(x, env, e)
                if v.k == 'u' and kv.d >= self.m.length(v):
                    self.beyond = True
        return self.m.rd(b, kk, kv)

    def o_slice(self, t, env, e):
        # bounds of slices are integers
        vs = [self.ev(x, env, e) for x in t.args]
        return U('slice', *[N(int(self.m.num(v, e) or 0)) if v.k == 'u' else v for v in vs])

    def o_cat(self, t, env, e):
        ps = [self.ev(x, env, e) for x in t.args[0]]
        out = []
        for p in ps:
            out.extend(self.m.items(p))
        k = 't' if all(p.k == 't' for p in ps) else 'l'
        return self.m.seq(k, out)

    def o_fmt(self, t, env, e):
        out = []
        for x in t.args[0]:
            v = self.ev(x, env, e)
            if v.k == 'u' and v.d[0] == 'text':
                out.extend(v.d[1:])
            else:
                out.append(v)
        return self.text(out)

    def text(self, parts):
        out = []
        for p in parts:
            if p.k == 'n' and p.d.denominator == 1:
                p = S(str(p.d))
            if p.k == 's' and out and out[-1].k == 's':
                out[-1] = S(out[-1].d + p.d)
            elif p.k == 's' and not p.d:
                continue
            else:
                out.append(p)
        if not out:
            return S('')
        if len(out) == 1 and out[0].k == 's':
            return out[0]
        return U('text', *out)

    def o_str(self, t, env, e):
        v = self.ev(t.args[0], env, e)
        if v.k == 's':
            return v
        if v.k == 'n' and v.d.denominator == 1:
            return S(str(v.d))
        return U('str', v)

    def o_join(self, t, env, e):
        sep, l = self.ev(t.args[0], env, e), self.ev(t.args[1], env, e)
        out = []
        for i, x in enumerate(self.m.items(l)):
            if i:
                out.append(sep)
            if x.k == 'u' and x.d[0] == 'text':
                out.extend(x.d[1:])
            else:
                out.append(x)
        return self.text(out)

    def affix(self, t, env, e):
        a, b = [self.ev(x, env, e) for x in t.args]
        if a.k == 's' and b.k == 's':
            return B(getattr(a.d, t.op)(b.d))
        if a.k == 's' and b.k == 't' and all(x.k == 's' for x in b.d):
            return B(getattr(a.d, t.op)(tuple(x.d for x in b.d)))
        return B(self.m.truth(U(t.op, a, b)))

    o_startswith = o_endswith = affix

    def o_mcall(self, t, env, e):
        nm, rc, args, kw = t.args
        if nm in STRM and not kw:
            r = self.ev(rc, env, e)
            if r.k == 's':
                xs = [self.ev(x, env, e) for x in args]
                if all(x.k == 's' for x in xs) and (nm != 'replace' or len(xs) == 2):
                    try:
                        v = getattr(r.d, nm)(*[x.d for x in xs])
                    except (TypeError, ValueError):
                        return U('noitem')
                    if isinstance(v, str):
                        return S(v)
                    if isinstance(v, bool):
                        return B(v)
                    if isinstance(v, list):
                        return self.m.seq('l', [S(x) for x in v])
                    return N(v)
        return self.generic(t, env, e)

    def o_rangeterm(self, t, env, e):
        n = self.dn(t.args[0], env, e)
        return self.m.seq('l', [N(i) for i in range(n)])

    def o_arr(self, t, env, e):
        v = self.ev(t.args[0], env, e)
        if v.k == 't':
            v = self.m.seq('l', v.d)
        return U('arr', v)

    def o_missing(self, t, env, e):
        self.fails = True
        return U('missing', self.ev(t.args[0], env, e), 'i', self.ev(t.args[1], env, e))

    def o_filled(self, t, env, e):
        return U('filled', *[self.ev(x, env, e) if isinstance(x, T) else str(x) for x in t.args])

    def o_upd(self, t, env, e):
        a, b = self.ev(t.args[0], env, e), self.ev(t.args[1], env, e)
        if b is EMPTY:
            return a
        if b.k == 'd' and b.d[0] is EMPTY and all(clear_key(k, z) for k, (z, _) in b.d[1].items()):
            for k, (z, x) in b.d[1].items():
                a = self.m.store(a, k, z, x)
            return a
        return U('upd', a, b)

    def o_call(self, t, env, e):
        if t.args[0] == 'numpy.sum' and len(t.args[1]) == 1 and not t.args[2]:
            v = self.ev(t.args[1][0], env, e)
            xs = None
            if v.k in 'lt':
                xs = v.d
            elif v.k == 'u' and v.d[0] == 'arr' and v.d[1].k in 'lt':
                xs = v.d[1].d
            elif v.k == 'd' and entries(v):
                xs = [x for _, x in v.d[1].values()]
            if xs is not None and all(x.k in 'nb' for x in xs):
                r = sum((Fraction(x.d) if x.k == 'n' else Fraction(1 if x.d else 0) for x in xs), Fraction(0))
                return N(r)
        return self.generic(t, env, e)

    # -- index domains
    def dn(self, t, env, e=0):
        x = self.num(t, env, e)
        if x is None:
            return 0
        n = int(x)
        return max(0, min(n, 12))

    def dom(self, d, env):
        """indices of a domain"""
        if d.op == 'domn':
            return self.dn(d.args[0], env)
        if d.op == 'dom':
            v = self.ev(d.args[0], env)
            return min(self.m.length(v), 40)
        if d.op in ('domprefix',):
            raise Taint(d.op)
        return self.m.length(self.ev(d, env))

    def each(self, t, d, env):
        h = t.args[2]
        for i in range(self.dom(d, env)):
            if h < 0:
                yield env
            else:
                e2 = dict(env)
                e2['bv', h] = N(i)
                yield e2

    def o_anyd(self, t, env, e):
        for e2 in self.each(t, t.args[0], env):
            if self.bool(t.args[1][0], e2, e):
                return TRUE
        return FALSE

    def o_sum(self, t, env, e):
        r = Fraction(0)
        for e2 in self.each(t, t.args[0], env):
            x = self.num(t.args[1][0], e2, e)
            if x is None:
                return NANV
            r += x
        return N(r)

    def o_prod(self, t, env, e):
        r = Fraction(1)
        for e2 in self.each(t, t.args[0], env):
            x = self.num(t.args[1][0], e2, e)
            if x is None:
                return NANV
            r *= x
        return N(r)

    def o_maxd(self, t, env, e):
        xs = [self.num(t.args[1][0], e2, e) for e2 in self.each(t, t.args[0], env)]
        return N(max(xs)) if xs and None not in xs else U('emptymax')

    def o_mind(self, t, env, e):
        xs = [self.num(t.args[1][0], e2, e) for e2 in self.each(t, t.args[0], env)]
        return N(min(xs)) if xs and None not in xs else U('emptymin')

    def o_orfold(self, t, env, e):
        return self.union([self.ev(t.args[1][0], e2, e) for e2 in self.each(t, t.args[0], env)], e)

    def o_map(self, t, env, e):
        x, g = t.args[1]
        out = []
        for e2 in self.each(t, t.args[0], env):
            if self.bool(g, e2, e):
                out.append(self.ev(x, e2, e))
        return self.m.seq('l', out)

    def o_flat(self, t, env, e):
        if len(t.args[1]) != 2:
            raise Taint('flat')
        x, g = t.args[1]
        out = []
        for e2 in self.each(t, t.args[0], env):
            if self.bool(g, e2, e):
                if isinstance(x, T):
                    out.extend(self.m.items(self.ev(x, e2, e)))
                else:
                    out.extend(self.ev(y, e2, e) for y in x)
        return self.m.seq('l', out)

    def o_bulk(self, t, env, e):
        (prev, d), (key, val, g), h = t.args
        r = self.ev(prev, env, e)
        for e2 in self.each((t), d, env):
            if self.bool(g, e2, e):
                kk, kv = self.k_of(key, e2, e)
                r = self.m.store(r, kk, kv, self.ev(val, e2, e))
        return r

    def o_first(self, t, env, e):
        g, x = t.args[1]
        for e2 in self.each(t, t.args[0], env):
            if self.bool(g, e2, e):
                return self.ev(x, e2, e)
        return U('none first')

    def o_last(self, t, env, e):
        g, x = t.args[1]
        r = None
        for e2 in self.each(t, t.args[0], env):
            if self.bool(g, e2, e):
                r = e2
        return self.ev(x, r, e) if r is not None else U('none last')

    def no(self, t, env, e):
        raise Taint(t.op)

    o_fold = o_foldj = o_foldproj = o_acc = o_accj = o_prev = o_prevv = o_cv = o_carried = o_midloop = no
    o_evloop = o_domprefix = o_exitfirst = o_advloop = o_unk = o_lstep = o_fv = no

    # -- loops
    def loop(self, k, env):
        rec = self.s.recs[k]
        fr = self.s.rec_free(k)
        key = (k, tuple(sorted([(x, env[x].h) for x in fr if x in env])))
        r = self.loops.get(key)
        if r is not None:
            self.fails = self.fails or r['fails']
            return r
        f1, self.fails = self.fails, False
        n = self.dom(rec['domain',], env)
        names = [x[1] for x in rec if x[0] == 'init']
        f0, self.fails = self.fails, False
        cur = {x: self.safe(self.ev(rec['init', x], env)) for x in names}
        self.fails = f0
        out = {}
        trace = []
        hist = []
        e2 = None

        def st(t, e2):
            """value of a one-iteration term"""
            h = t.args[2]
            if h >= 0:
                e2 = dict(e2)
                e2['bv', h] = e2['iv', k]
            return self.ev(t.args[1][0], e2)
        ended = None
        for i in range(n):
            e2 = dict(env)
            e2['iv', k] = N(i)
            for x in names:
                e2['lv', k, x] = cur[x]
            trace.append({x: y for x, y in e2.items() if x[0] in ('iv', 'lv') and x[1] == k})
            hist.append(cur)
            if self.m.truth(st(rec['exit',], e2)):
                ended = 'exit'
                break
            if self.m.truth(st(rec['break',], e2)):
                ended = 'break'
                break
            f0, self.fails = self.fails, False
            cur = {x: self.safe(st(rec['step', x], e2)) for x in names}
            self.fails = f0
        res = {'n': n, 'ended': ended, 'cur': cur, 'trace': trace, 'last': e2, 'st': st,
               'hist': hist, 'out': out, 'fails': self.fails}
        self.fails = self.fails or f1
        self.loops[key] = res
        return res

    def o_lo(self, t, env, e):
        k, name = t.args[:2]
        r = self.loop(k, env)
        rec = self.s.recs[k]
        if name == '#exit':
            return B(r['ended'] == 'exit')
        if name == '#break':
            return B(r['ended'] == 'break')
        if name.startswith('#exit'):
            return B(r['ended'] == 'exit' and self.m.truth(r['st'](rec['exit', int(name[5:])], r['last'])))
        if name.startswith('#ret'):
            if r['ended'] != 'exit':
                return U('no return')
            return r['st'](rec['returns', int(name[4:])], r['last'])
        if '@exit' in name:
            nm, i = name.rsplit('@exit', 1)
            if r['ended'] != 'exit':
                return U('no exit')
            return r['st'](rec['at exit', int(i), nm], r['last'])
        if name.endswith('@break'):
            nm = name[:-6]
            if r['ended'] != 'break':
                return U('no break')
            t2 = rec.get(('at break', nm))
            if t2 is None:
                raise Taint('at break')
            return r['st'](t2, r['last'])
        if name in r['cur']:
            return self.use(r['cur'][name])
        t2 = rec.get(('last', name))
        if t2 is None:
            raise Taint('loop result %s' % name)
        if r['n'] == 0 or r['last'] is None:
            return U('unbound')
        if r['ended'] is not None:
            return U('ended')
        return r['st'](t2, r['last'])

    def o_lm(self, t, env, e):
        r = self.loop(t.args[0], env)
        # some value the variable had
        name = t.args[1]
        hs = [x[name].h for x in r['hist'] if name in x]
        return U('lm', hh('mid', *hs) if hs else hh('mid', *sorted(x.h for x in r['cur'].values())))

    def lev(self, t, env):
        """events of a loop: [(value)]"""
        k = t.args[0][1].args[0]
        r = self.loop(k, env)
        g, x = t.args[1]
        h = t.args[2]
        for d in r['trace']:
            e2 = dict(env)
            e2.update(d)
            if h >= 0:
                e2['bv', h] = d['iv', k]
            if self.bool(g, e2):
                if x.op == 'lev':
                    for y in self.lev(x, e2):
                        yield y
                else:
                    yield self.ev(x, e2)

    # -- everything else
    def generic(self, t, env, e):
        op = t.op
        if op in tm.BINDERS:
            raise Taint(op)
        parts = [op]

        def add(a):
            if isinstance(a, T):
                parts.append(self.ev(a, env, e))
            elif isinstance(a, tuple):
                parts.append('(')
                for x in a:
                    add(x)
                parts.append(')')
            else:
                parts.append(str(a))
        for a in t.args:
            add(a)
        v = U(*parts)
        if op in ('call', 'mcall', 'vcall', 'sizeof', 'cast'):
            return self.m.fresh(v)
        return v


# ------------------------------------------------------------------ observation
def observe(run, sm, skip=()):
    """[(component, hash, value)] in this interpretation"""
    env = {}
    out = []
    rs = []
    for n in sorted(sm.raises):
        if run.bool(sm.raises[n], env):
            rs.append(n)
    out.append(('raises', hh(*rs), S(', '.join(rs))))
    done = bool(rs) or sm.pc is tm.FALSE
    if not rs and sm.pc is not tm.FALSE and not run.bool(sm.pc, env):
        out.append(('terminates', 0, FALSE))
        done = True
    if not done:
        v = run.ev(sm.ret, env)
        out.append(('return', v.h, v))
        for n in sorted(sm.params):
            if n in skip:
                continue
            v = run.ev(sm.params[n], env)
            out.append(('effect on ' + n, v.h, v))
    segs = [[]]
    for k, t, pc, src in sm.events:
        if not run.bool(pc, env):
            continue
        vs = list(run.lev(t, env)) if t.op == 'lev' else [run.ev(t, env)]
        for v in vs:
            if k in ('yield', 'with'):
                segs.append([(hh(k, v.h), k, v)])
                segs.append([])
            else:
                segs[-1].append((hh(k, v.h), k, v))
    out.append(('effects', hh(*[sorted(y[0] for y in x) for x in segs]),
                Segs('effects', segs, None)))
    return out


class Segs(V):
    """the effects between yields and with blocks"""
    __slots__ = ()

    def __repr__(self):
        return "'%d effects'" % sum(map(len, self.d))


def alike(m, a, b, e=0):
    """equal up to the representation of a number: itself or an unknown value that denotes it"""
    if a is b or a.h is not None and same(a, b):
        return True
    if a.k == 'effects' or b.k == 'effects':
        if a.k != b.k or len(a.d) != len(b.d):
            return False
        for x, y in zip(a.d, b.d):
            if len(x) != len(y):
                return False
            rest = [z for z in y]
            for z in x:
                for w in rest:
                    if z[0] == w[0] or z[1] == w[1] and alike(m, z[2], w[2]):
                        rest.remove(w)
                        break
                else:
                    return False
        return True
    if a.k == 'n' and b.k == 'u':
        return m.num(b, e) == a.d
    if a.k == 'u' and b.k == 'n':
        return m.num(a, e) == b.d
    if a.k != b.k:
        return False
    if a.k in 'lt':
        return len(a.d) == len(b.d) and all(alike(m, x, y) for x, y in zip(a.d, b.d))
    if a.k == 'd':
        if not alike(m, a.d[0], b.d[0]) or len(a.d[1]) != len(b.d[1]):
            return False
        rest = list(b.d[1].items())
        for k, (kv, x) in a.d[1].items():
            for r in rest:
                k2, (kv2, y) = r
                if (k == k2 or k[0] == k2[0] and kv is not None and kv2 is not None and alike(m, kv, kv2)) and \
                        alike(m, x, y):
                    rest.remove(r)
                    break
            else:
                return False
        return True
    if a.k == 'u':
        if len(a.d) != len(b.d):
            return False
        key = a.d[0] == 'rd' and a.d[2][0] != 'a'
        return all(alike(m, x, y) if isinstance(x, V) and isinstance(y, V) else
                   x == y or key and i == 2 and y[0] == x[0]
                   for i, (x, y) in enumerate(zip(a.d, b.d)))
    return False


class Sides(object):
    """the two summaries of one function (one case of its optional arguments)"""

    def __init__(self, a, b, skip=()):
        self.a, self.b, self.skip = a, b, skip
        self.pl = Pools(a, b)
        self.sa, self.sb = Static(a), Static(b)

    def trial(self, m, left, most=300000):
        b0 = min(most, left[0])
        bud = [b0]
        try:
            return self.observe(m, bud)
        finally:
            left[0] -= b0 - max(0, bud[0])

    def short(self, run, m, other=None):
        """the reference reads an item that a sequence does not have"""
        ln = m.lens
        if any(h in ln and not -ln[h] <= j < ln[h] for h, j in run.creads):
            return True
        if not run.sreads.isdisjoint(run.absent) or other is not None and not run.sreads.isdisjoint(other.absent):
            return True            # or a key that is not there
        if any(ln.get(h) == 0 for h, j in m.pix):
            return True
        if 0 not in ln.values():
            return False
        for t, j, pc in self.b.needs:
            if not self.sb.free(t) and not self.sb.free(pc):
                try:
                    h = root(run.ev(t, {})).h
                    if h in ln and not -ln[h] <= j < ln[h] and run.bool(pc, {}):
                        return True
                except Taint:
                    pass           # inside a loop
        return False

    def observe(self, m, bud):
        ra, rb = Run(self.sa, m, bud), Run(self.sb, m, bud)
        oa = observe(ra, self.a, self.skip)
        m.pix = set()
        ob = observe(rb, self.b, self.skip)
        if rb.fails or rb.beyond or self.short(rb, m, ra) or ra.beyond and not m.uniform:
            # nothing is required where the reference fails; sequences that are traversed
            # together are supposed to have one length
            return []
        da, db = {c: (h, v) for c, h, v in oa}, {c: (h, v) for c, h, v in ob}
        bad = []
        for c in list(da) + [c for c in db if c not in da]:
            if c not in da or c not in db:
                continue
            if da[c][0] != db[c][0] and not alike(m, da[c][1], db[c][1]):
                bad.append((c, da[c][1], db[c][1]))
        if not bad and set(da) != set(db):
            return [('terminates', S(str(sorted(da))), S(str(sorted(db))))]
        return bad


def second(s, m, r, left):
    """a difference seen in interpretation m, unless it is one between an unknown value and
    the number it denotes, or between the elements of a combination and a combination of elements"""
    canon, ix = {}, set()
    for _ in range(6):
        numd = {h: x for h, x in m.numd.items() if x is not None and h not in m.ixd}
        if all(h in canon for h in numd) and m.ixd <= ix:
            return r
        canon.update(numd)
        ix |= m.ixd
        m2 = Model(m.seed, s.pl, m.ov)
        m2.canon, m2.ix = canon, ix
        r = s.trial(m2, left)
        if not r:
            return r
        m = m2
    return r


def compare(a, b, skip=(), trials=60, evals=10**9, seed0=0, stop=1):
    """(number of trials, [(seed, [(component, code value, required value)])], taint)

    taint: construct without a meaning that was met in more than half of the trials"""
    s = Sides(a, b, skip)
    out = []
    n = 0
    tainted = {}
    left = [evals]
    rng = random.Random(seed0)
    cov, corpus = set(), []
    for i in range(trials):
        if left[0] <= 0:
            break
        m = None
        if i > 60 and i % 2 and corpus:
            # change part of an interpretation that decided some test in a new way
            j = len(corpus) - 1 - min(int(rng.expovariate(0.1)), len(corpus) - 1) if i % 4 == 1 else \
                rng.randrange(len(corpus))
            seed, ov, log = corpus[j]
            ov = dict(ov)
            for _ in range(1 << rng.randrange(5)):
                ov[log[rng.randrange(len(log))]] = rng.getrandbits(64)
            m = Model(seed, s.pl, ov)
        else:
            m = Model(seed0 + i, s.pl)
        try:
            r = s.trial(m, left)
        except Taint as x:
            tainted[str(x)] = tainted.get(str(x), 0) + 1
            if sum(tainted.values()) > n + 30:
                return n, out, max(tainted, key=tainted.get)
            continue
        except Budget:
            continue
        n += 1
        if not m.cov <= cov:
            cov |= m.cov
            if m.log:
                corpus.append((m.seed, m.ov, sorted(m.log)))
        if r:
            try:
                r = second(s, m, r, left)
            except (Taint, Budget):
                continue
        if r:
            out.append((seed0 + i, r))
            if len(out) >= stop:
                break
    return n, out, None
