"""Meaning of builtins, numpy and the few container classes the code relies on."""
from fractions import Fraction

from . import terms as tm
from .terms import (T, mk, q, s, TRUE, FALSE, NONE, NAN, Q0, Q1, const, is_bool, truth, b_and, b_or, b_not,
                    atom, phi, add, sub, mul, neg, power, div, wh, any_, all_, count_, concat, fmt, length,
                    fresh_fv, has, minmax, bitor, bitand, lt, le, gt, ge, eq, ne)

HALF = q(Fraction(1, 2))

# constructors of external types we know the parameter order of (for argument binding only)
SIGS = {
    'ngmix.Observation': ['image', 'weight', 'bmask', 'ormask', 'noise', 'jacobian', 'gmix', 'psf', 'meta',
                          'mfrac', 'store_pixels', 'ignore_zero_weight'],
    'numpy.rot90': ['m', 'k', 'axes'],
    'numpy.median': ['a', 'axis'], 'numpy.mean': ['a', 'axis'], 'numpy.std': ['a', 'axis'],
    'numpy.zeros': ['shape', 'dtype'], 'numpy.ones': ['shape', 'dtype'],
    'numpy.digitize': ['x', 'bins'], 'numpy.unravel_index': ['indices', 'shape'],
    'numpy.argmin': ['a', 'axis'], 'numpy.argmax': ['a', 'axis'],
    'numpy.unique': ['ar'], 'numpy.dot': ['a', 'b'],
    'galsim.Shear': [], 'ngmix.moments.fwhm_to_T': ['fwhm'], 'ngmix.moments.fwhm_to_sigma': ['fwhm'],
    'ngmix.shape.e1e2_to_g1g2': ['e1', 'e2'],
    'ngmix.fitting.Fitter': ['model', 'prior', 'fit_pars'],
    'ngmix.prepsfmom.PGaussMom': ['fwhm'], 'ngmix.prepsfmom.KSigmaMom': ['fwhm'],
    'ngmix.gaussmom.GaussMom': ['fwhm'],
    'ngmix.runners.Runner': ['fitter', 'guesser', 'ntry'],
    'ngmix.runners.PSFRunner': ['fitter', 'guesser', 'ntry'],
    'ngmix.guessers.TPSFFluxGuesser': ['rng', 'T', 'prior'],
    'ngmix.guessers.GMixPSFGuesser': ['rng', 'ngauss', 'guess_from_moms'],
    'ngmix.guessers.SimplePSFGuesser': ['rng', 'guess_from_moms'],
    'ngmix.priors.GPriorBA': ['sigma', 'rng'],
    'ngmix.priors.CenPrior': ['cen1', 'cen2', 'sigma1', 'sigma2', 'rng'],
    'ngmix.priors.TwoSidedErf': ['minval', 'width_at_min', 'maxval', 'width_at_max', 'rng'],
    'ngmix.joint_prior.PriorSimpleSep': ['cen_prior', 'g_prior', 'T_prior', 'F_prior'],
    'ngmix.flags.get_flags_str': ['val', 'name_map'],
}

DTYPES = {
    'builtins.float': 'f8', 'numpy.float64': 'f8', 'numpy.double': 'f8', 'numpy.float32': 'f4',
    'builtins.int': 'i8', 'numpy.int64': 'i8', 'numpy.int32': 'i4', 'numpy.int16': 'i2',
    'builtins.bool': 'bool', 'numpy.bool_': 'bool', 'numpy.uint8': 'u1', 'numpy.uint32': 'u4',
    'numpy.uint64': 'u8', 'numpy.int8': 'i1',
}
DTYPE_STR = {'float': 'f8', 'float64': 'f8', 'float32': 'f4', 'int': 'i8', 'int64': 'i8', 'int32': 'i4',
             'bool': 'bool', '?': 'bool', 'f8': 'f8', 'f4': 'f4', 'i8': 'i8', 'i4': 'i4', 'i2': 'i2'}

PURE_NP_EXC = frozenset(['numpy.linalg.inv'])
PURE_BUILTIN = frozenset(
    'len range enumerate zip reversed sorted list tuple dict set str repr int float bool abs round min max sum '
    'any all isinstance hasattr getattr type print id map filter iter next super format'.split())
PURE_METHODS = frozenset(
    'get items keys values copy astype clip sum any all min max mean std median ravel reshape transpose dot '
    'argmax argmin append extend update setdefault pop insert remove sort reverse join split strip startswith '
    'endswith format replace lower upper flatten tolist item fill round squeeze index count '
    'info debug warning issubset union intersection add'.split())
RED = {'any': 'any', 'all': 'all', 'sum': 'sum', 'max': 'max', 'min': 'min', 'mean': 'mean', 'std': 'std',
       'var': 'var', 'argmax': 'argmax', 'argmin': 'argmin', 'prod': 'prod', 'cumsum': 'cumsum',
       'ravel': 'ravel', 'reshape': 'reshape', 'transpose': 'transpose', 'dot': 'dot', 'flatten': 'ravel',
       'round': 'round', 'squeeze': 'squeeze', 'repeat': 'repeat'}
LISTCLS = ('ngmix.ObsList', 'ngmix.MultiBandObsList', 'ngmix.observation.ObsList',
           'ngmix.observation.MultiBandObsList')


def pure_ext(name):
    if name.startswith('numpy.'):
        return name not in PURE_NP_EXC
    if name.startswith('builtins.'):
        return name[9:] in PURE_BUILTIN
    if name.startswith(('math.', 'time.', 'copy.', 'logging.')):
        return True
    return name in LISTCLS


def pure_method(name):
    return name in PURE_METHODS


# ------------------------------------------------------------------ strings
def fmt_part(c, spec):
    if c.op == 'ite' and not is_bool(c):
        r = tm.lift1(lambda x: fmt_part(x, spec), c)
        if r is not None:
            return r
    if spec in ('', 's', 'd') and c.op in ('s', 'fmt'):
        return c
    if c.op == 'q' and c.args[0].denominator == 1:
        if spec in ('', 'd', 's'):
            return s(str(int(c.args[0])))
        try:
            return s(format(int(c.args[0]), spec))
        except ValueError:
            pass
    if spec in ('', 's', 'd'):
        return mk('str', c)
    return mk('strf', c, spec)


def percent_format(a, b):
    if a.op == 'ite':
        r = tm.lift1(lambda x: percent_format(x, b), a)
        if r is not None:
            return r
    if a.op != 's':
        return mk('percent', a, b)
    text = a.args[0]
    args = list(b.args[0]) if b.op == 'tuple' else [b]
    out = []
    i = 0
    cur = ''
    while i < len(text):
        ch = text[i]
        if ch != '%':
            cur += ch
            i += 1
            continue
        j = i + 1
        if j < len(text) and text[j] == '%':
            cur += '%'
            i = j + 1
            continue
        if j < len(text) and text[j] == '(':
            return mk('percent', a, b)
        while j < len(text) and text[j] not in 'sdifgeErxX':
            j += 1
        if j >= len(text) or not args:
            return mk('percent', a, b)
        out.append(s(cur))
        cur = ''
        spec = text[i + 1:j]
        kind = text[j]
        x = args.pop(0)
        if kind in 'sdi' and spec == '':
            out.append(fmt_part(x, ''))
        else:
            out.append(fmt_part(x, spec + kind))
        i = j + 1
    out.append(s(cur))
    return fmt(out)


def str_format(text, args, kwargs):
    out = []
    i = 0
    n = 0
    cur = ''
    while i < len(text):
        ch = text[i]
        if ch in '{}' and i + 1 < len(text) and text[i + 1] == ch:
            cur += ch
            i += 2
            continue
        if ch == '{':
            j = text.index('}', i)
            body = text[i + 1:j]
            name, _, spec = body.partition(':')
            if name == '':
                if n >= len(args):
                    return None
                x = args[n]
                n += 1
            elif name.isdigit():
                if int(name) >= len(args):
                    return None
                x = args[int(name)]
            elif name in kwargs:
                x = kwargs[name]
            else:
                return None
            out.append(s(cur))
            cur = ''
            out.append(fmt_part(x, spec))
            i = j + 1
            continue
        cur += ch
        i += 1
    out.append(s(cur))
    return fmt(out)


# ------------------------------------------------------------------ helpers
def canon_dtype(t):
    if t is None or t is NONE:
        return None
    if t.op == 'g' and t.args[0] in DTYPES:
        return s(DTYPES[t.args[0]])
    if t.op == 's':
        x = t.args[0]
        x = x[1:] if x[:1] in '<=|' else x
        return s(DTYPE_STR.get(x, x))
    return t


def is_struct_dtype(t):
    if t is None:
        return False
    if t.op == 's':
        return False
    if t.op == 'rd' and t.args[1] == ('a', 'dtype'):
        return False
    if t.op == 'g':
        return False
    return True


def as_array(c):
    """array view of a python sequence"""
    if c.op == 'tuple':
        c = mk('list', *c.args)
    if c.op in ('list', 'map', 'cat', 'repeat'):
        return mk('arr', c)
    if c.op == 'ite' and not is_bool(c):
        r = tm.lift1(as_array, c)
        if r is not None:
            return r
    return c


def unarr(c):
    return c.args[0] if c.op == 'arr' else c


def cast(c, dt):
    if dt is None or dt is s('f8'):
        return c
    if dt is s('bool'):
        return truth(c) if c.op not in ('arr',) else mk('cast', s('bool'), c)
    if c.op == 'cast' and c.args[0] is dt:
        return c
    if c.op == 'q' and dt.op == 's' and dt.args[0][:1] in 'iu' and c.args[0].denominator == 1:
        return c
    if c.op == 'q' and dt is s('f4'):
        return c
    if c.op in ('true', 'false') and dt.op == 's':
        return Q1 if c is TRUE else Q0
    if c.op == 'nan' and dt is s('f4'):
        return c
    if dt is s('i8') or dt is s('i4'):
        if tm.is_int(c):
            return c
        dt = s('i4')
        return tm.liftn(lambda xs: mk('cast', dt, xs[0]), [c])
    return tm.liftn(lambda xs: mk('cast', dt, xs[0]), [c])


def uf(name):
    return lambda c: tm.liftn(lambda xs: mk('call', name, (xs[0],), ()), [c])


def np_abs(c):
    if c.op == 'q':
        return q(abs(c.args[0]))
    # |x| is insensitive to the sign: use the leading positive form
    p = tm.to_poly(c) if tm.numericable(c) else None
    if p and c.op == 'num':
        lead = tm._lead(p)
        cc = p[lead]
        if cc.op == 'q' and cc.args[0] < 0:
            c = neg(c)
    return tm.liftn(lambda xs: mk('abs', xs[0]), [c])


def np_isnan(c):
    if c is NAN:
        return TRUE
    if c.op == 'q' or is_bool(c):
        return FALSE
    if c.op == 'ite' and not is_bool(c):
        r = tm.lift1(np_isnan, c)
        if r is not None:
            return r
    return atom(mk('isnan', c))


def np_isfinite(c):
    if c is NAN:
        return FALSE
    if c.op == 'q' or is_bool(c):
        return TRUE
    if c.op == 'ite' and not is_bool(c):
        r = tm.lift1(np_isfinite, c)
        if r is not None:
            return r
    return atom(mk('isfinite', c))


def intcast(c):
    if is_bool(c):
        return phi(c, Q1, Q0)
    if tm.is_int(c):
        return c
    if c.op == 'ite':
        r = tm.lift1(intcast, c)
        if r is not None:
            return r
    if c.op == 'q':
        return q(int(c.args[0]))
    return mk('intcast', c)


def clip(c, lo, hi):
    r = c
    if lo is not None and lo is not NONE:
        r = minmax2('max', [r, lo])
    if hi is not None and hi is not NONE:
        r = minmax2('min', [r, hi])
    return r


def minmax2(op, xs):
    if any(x.op == 'ite' and not is_bool(x) for x in xs):
        return tm.liftn(lambda ys: minmax(op, ys), xs)
    return minmax(op, xs)


def reduce_(kind, c, kt):
    """numpy reduction without an axis"""
    if kt:
        return None
    c0 = c
    c = unarr(c)
    if kind == 'any':
        return any_(c)
    if kind == 'all':
        return all_(c)
    if kind == 'sum':
        return sum_(c)
    if kind in ('max', 'min'):
        if c.op in ('list', 'tuple') and c.args[0]:
            return minmax2(kind, list(c.args[0]))
        if c.op == 'map':
            (b, g), v = tm.unbind(c)
            return tm.bind(kind + 'd', c.args[0], (b, g), v)
        if c.op == 'ite' and not is_bool(c):
            r = tm.lift1(lambda x: reduce_(kind, x, kt), c)
            if r is not None:
                return r
        return mk('call', 'numpy.' + kind, (c0,), ())
    return None


def sum_(c):
    if is_bool(c):
        return count_(c)
    if c.op in ('list', 'tuple'):
        r = Q0
        for x in c.args[0]:
            r = add(r, x)
        return r
    if c.op == 'map':
        (b, g), v = tm.unbind(c)
        return tm.mk_sum(c.args[0], phi(g, tonum(b), Q0), v)
    if c.op == 'ite':
        r = tm.lift1(sum_, c)
        if r is not None:
            return r
    return mk('call', 'numpy.sum', (c,), ())


def tonum(b):
    if is_bool(b):
        return phi(b, Q1, Q0)
    return b


def rot90(c, k):
    k = k % 4
    if c.op == 'ite' and not is_bool(c):
        r = tm.lift1(lambda x: rot90(x, k), c)
        if r is not None:
            return r
    if c.op == 'rot90':
        k = (k + c.args[1]) % 4
        c = c.args[0]
    if k == 0:
        return c
    if c.op == 'q':
        return c
    return mk('rot90', c, k)


tm.REBUILD['rot90'] = lambda c, k: rot90(c, k)
tm.REBUILD['arr'] = as_array
tm.REBUILD['cast'] = lambda dt, c: cast(c, dt)
tm.REBUILD['isnan'] = np_isnan
tm.REBUILD['isfinite'] = np_isfinite
tm.REBUILD['intcast'] = intcast
tm.REBUILD['abs'] = np_abs
tm.REBUILD['count'] = count_


def where1(m):
    if not is_bool(m):
        m = truth(m)
    if m.op == 'ite':
        sc = [x for x in tm.dd_atoms(m) if x in tm.SCALAR]
        if sc:
            v = min(sc, key=lambda x: x.ord)
            return phi(atom(v), where1(tm._constrain_raw(m, atom(v))), where1(tm._constrain_raw(m, b_not(atom(v)))))
    return mk('where1', m)


tm.REBUILD['where1'] = where1


class Ctx(object):
    def __init__(self, it, args, kwargs, st, node, stmt):
        self.it, self.args, self.kwargs, self.st, self.node, self.stmt = it, args, kwargs, st, node, stmt

    def c(self, i, name=None):
        if isinstance(i, int):
            if i < len(self.args):
                return self.it.content(self.args[i], self.st)
            if name is not None and name in self.kwargs:
                return self.it.content(self.kwargs[name], self.st)
            return None
        if i in self.kwargs:
            return self.it.content(self.kwargs[i], self.st)
        return None

    def h(self, i, name=None):
        if i < len(self.args):
            return self.args[i]
        return self.kwargs.get(name)


def _Val():
    from .interp import Val
    return Val


def call_ext(it, name, args, kwargs, st, node, stmt):
    from .interp import Val, Ref, Gen, Tup, Ext, PhiH, Cls, View
    x = Ctx(it, args, kwargs, st, node, stmt)
    if name.startswith('builtins.'):
        return _builtin(it, name[9:], x, Val, Ref, Gen, Tup, PhiH, Cls)
    if name.startswith('numpy.'):
        r = _numpy(it, name[6:], x, Val, Ref, Gen, Tup)
        if r is not None and 'out' in kwargs:
            o = it.promote(None, kwargs['out'], st)
            it.set_base(o, it.content(r, st), st)
            return o
        if r is not None:
            return r
    if name in ('copy.deepcopy',):
        return it.new_copy(st, x.c(0))
    if name == 'copy.copy':
        return shallow(it, args[0], st)
    if name in LISTCLS:
        c = mk('list', ())
        h = it.new_obj(st, c)
        if args:
            it.set_base(h, x.c(0), st)
        for k, v in kwargs.items():
            it.rebind_key(h, ('a', k), v, st)
        return h
    if name in ('time.time', 'time.perf_counter', 'time.monotonic'):
        return Val(mk('clock'))
    if name in ('functools.partial',) and args and '**' not in kwargs:
        return Gen('partial', (tuple(args), tuple(sorted(kwargs.items()))))
    if name in ('math.sqrt',):
        return Val(power(x.c(0), HALF))
    if name == 'math.floor' or name == 'math.ceil':
        return Val(uf('numpy.' + name[5:])(x.c(0)))
    if name == 'math.isnan':
        return Val(np_isnan(x.c(0)))
    if name == 'math.isfinite':
        return Val(np_isfinite(x.c(0)))
    if name == 'functools.reduce' and len(args) >= 2:
        f = it.content(args[0], st)
        if f.op == 'g' and f.args[0] in ('operator.or_', 'numpy.bitwise_or', 'numpy.logical_or'):
            r = or_reduce(x.c(1))
            if len(args) > 2:
                r = bitor(r, x.c(2))
            return it.new_obj(st, r)
        if f.op == 'g' and f.args[0] in ('operator.add', 'numpy.add'):
            r = sum_(x.c(1))
            return it.new_obj(st, add(r, x.c(2)) if len(args) > 2 else r)
    if name == 'itertools.chain':
        r = mk('list', ())
        for a in args:
            r = concat(r, it.content(a, st))
        return it.new_obj(st, r)
    if name in ('operator.or_',):
        return Val(bitor(x.c(0), x.c(1)))
    # positional / keyword normalisation
    sig = SIGS.get(name)
    if sig is not None and len(args) <= len(sig) and args:
        kw = dict(zip(sig, args))
        kw.update(kwargs)
        return it.opaque_ext(name, [], kw, st, node, stmt)
    return None


def shallow(it, h, st):
    from .interp import Ref, PhiH, Val
    if isinstance(h, PhiH):
        return PhiH(h.c, shallow(it, h.a, st), shallow(it, h.b, st))
    if isinstance(h, Ref):
        o = it.ostate(h.oid, st)
        r = it.new_obj(st, o.base, dict(o.kids), shape=o.shape, cls=o.cls, dtype=o.dtype,
                       shallow=o.shallow if o.shallow is not None else (
                           h if o.base.op not in ('dict', 'list', 'map', 'cat') else None))
        return r
    return it.new_obj(st, it.content(h, st))


def _builtin(it, name, x, Val, Ref, Gen, Tup, PhiH, Cls):
    st, args, kwargs = x.st, x.args, x.kwargs
    if name == 'len' and len(args) == 1:
        h = args[0]
        if isinstance(h, Ref):
            o = it.ostate(h.oid, st)
            if o.shape is not None:
                sh = o.shape
                if sh.op == 'tuple' and sh.args[0]:
                    return Val(sh.args[0][0])
                if sh.op != 'tuple' and not (sh.op == 'rd' and sh.args[1] == ('a', 'shape')):
                    return Val(sh)
                if sh.op == 'rd':
                    return Val(length(sh.args[0]))
        if isinstance(h, Val) and h.shape is not None and h.shape.op == 'tuple' and h.shape.args[0]:
            return Val(h.shape.args[0][0])
        if isinstance(h, Gen):
            return Val(length(it.content(h, st)))
        return Val(length(it.content(h, st)))
    if name == 'range':
        cs = [it.content(a, st) for a in args]
        if len(cs) == 1:
            return Val(mk('rangeterm', cs[0]))
        if len(cs) == 2 or (len(cs) == 3 and cs[2] is Q1):
            if cs[0] is Q0:
                return Val(mk('rangeterm', cs[1]))
            return Val(mk('range2', cs[0], cs[1]))
        if all(c.op == 'q' for c in cs):
            return Val(mk('list', tuple(q(i) for i in range(*[int(c.args[0]) for c in cs]))))
        return Val(mk('call', 'builtins.range', tuple(cs), ()))
    if name == 'enumerate':
        return Gen('enumerate', (args[0], x.c(1, 'start') or Q0))
    if name == 'zip':
        return Gen('zip', tuple(args))
    if name == 'reversed':
        return Gen('reversed', tuple(args))
    if name == 'print':
        return Val(NONE)
    if name in ('list', 'tuple'):
        if not args:
            return it.mk_list([], st) if name == 'list' else Tup([])
        h = args[0]
        if isinstance(h, Tup):
            return it.mk_list(list(h.items), st) if name == 'list' else h
        sp = it.iter_spec(h, st, x.node)
        if sp[0] == 'unroll':
            return it.mk_list(sp[1], st) if name == 'list' else Tup(sp[1])
        if isinstance(h, Gen):
            return it.new_obj(st, it.content(h, st))
        c = it.content(h, st)
        if c.op in ('map', 'cat', 'rangeterm'):
            return it.new_obj(st, c)
        return it.new_obj(st, mk('seqof', c) if c.op in ('setterm', 'set') else c)
    if name == 'dict':
        if args:
            h = shallow(it, args[0], st) if not isinstance(args[0], Gen) else it.new_obj(st, mk('dictof', x.c(0)))
            c = it.content(h, st)
            if c.op in ('list', 'map'):
                h = it.new_obj(st, mk('dict', ()))
                if c.op == 'list' and all(e.op in ('tuple', 'list') and len(e.args[0]) == 2 for e in c.args[0]):
                    for e in c.args[0]:
                        it.setitem(h, ('i', e.args[0][0]), Val(e.args[0][1]), st)
                elif c.op == 'map':
                    (b, g), v = tm.unbind(c)
                    if b.op == 'tuple':
                        it.set_base(h, tm.mk_bulk(mk('dict', ()), c.args[0], ('i', b.args[0][0]), b.args[0][1], g, v), st)
        else:
            h = it.new_obj(st, mk('dict', ()))
        for k, v in kwargs.items():
            if k == '**':
                it.dict_update(h, v, st)
            else:
                it.setitem(h, ('i', s(k)), v, st)
        from .interp import phi_leaves
        it.dicts |= {y.oid for y in phi_leaves(h) if isinstance(y, Ref)}
        return h
    if name in ('set', 'frozenset'):
        if not args:
            return it.new_set(st, mk('set', ()))
        c = it.content(args[0], st)
        if c.op in ('list', 'tuple') and all(tm.is_const(e) or e.op == 'g' for e in c.args[0]):
            return it.new_set(st, mk('set', tuple(sorted(set(c.args[0]), key=lambda z: z.ord))))
        return it.new_set(st, mk('setterm', c))
    if name == 'str':
        return Val(fmt([fmt_part(x.c(0), '')])) if args else Val(s(''))
    if name == 'repr':
        return Val(mk('str', mk('repr', x.c(0))))
    if name == 'int':
        return Val(intcast(x.c(0)), it.shape_of(args[0], st)) if args else Val(Q0)
    if name == 'float':
        c = x.c(0) if args else Q0
        if c.op == 's' and c.args[0].lower() == 'nan':
            return Val(NAN)
        return Val(c)
    if name == 'bool':
        return Val(truth(x.c(0)))
    if name == 'abs':
        return Val(np_abs(x.c(0)))
    if name == 'round':
        if len(args) == 1:
            return Val(mk('call', 'builtins.round1', (x.c(0),), ()))
        return None
    if name in ('min', 'max'):
        if kwargs:
            return None
        if len(args) > 1:
            return Val(minmax2(name, [it.content(a, st) for a in args]))
        return Val(reduce_(name, x.c(0), ()))
    if name == 'sum':
        c = x.c(0)
        r = sum_(unarr(c)) if not is_bool(c) else count_(c)
        if len(args) > 1:
            r = add(r, x.c(1))
        return it.new_obj(st, r)
    if name == 'any':
        return Val(any_(x.c(0)))
    if name == 'all':
        return Val(all_(x.c(0)))
    if name == 'sorted':
        c = x.c(0)
        if c.op in ('list', 'tuple', 'set') and all(e.op == 's' for e in c.args[0]) and not kwargs:
            return it.new_obj(st, mk('list', tuple(sorted(c.args[0], key=lambda e: e.args[0]))))
        return it.new_obj(st, mk('call', 'builtins.sorted', (c,), tuple(
            sorted((k, it.content(v, st)) for k, v in kwargs.items()))))
    if name == 'isinstance' and len(args) == 2:
        return Val(isinstance_(it, args[0], args[1], st))
    if name == 'hasattr':
        k = x.c(1)
        h = args[0]
        if isinstance(h, Ref) and k.op == 's':
            o = it.ostate(h.oid, st)
            if ('a', k.args[0]) in o.kids and o.base.op != 'param':
                pass
        return Val(atom(mk('hasattr', x.c(0), k)))
    if name == 'getattr':
        k = x.c(1)
        if k.op == 's':
            v = it.getattr(args[0], k.args[0], st, x.node)
            if len(args) > 2:
                return it.phi_handle(atom(mk('hasattr', x.c(0), k)), v, args[2], st)
            return v
        if k.op == 'ite':
            r = tm.lift1(lambda kk: it.content(it.getattr(args[0], kk.args[0], st, x.node), st)
                         if kk.op == 's' else mk('rd', x.c(0), ('x', kk)), k)
            if r is not None:
                return it.new_obj(st, r)
        r = it.new_obj(st, mk('rd', x.c(0), ('x', k)))
        if len(args) > 2:
            return it.phi_handle(atom(mk('hasattr', x.c(0), k)), r, args[2], st)
        return r
    if name == 'setattr':
        k = x.c(1)
        if k.op == 's':
            it.rebind_key(it.promote(None, args[0], st), ('a', k.args[0]), args[2], st)
        else:
            h = it.promote(None, args[0], st)
            it.set_base(h, mk('st', it.content(h, st), ('x', k), x.c(2)), st)
        return Val(NONE)
    if name == 'callable':
        return Val(atom(mk('callable', x.c(0))))
    if name == 'type':
        return Val(mk('type', x.c(0)))
    if name == 'id':
        return Val(mk('id', x.c(0)))
    if name == 'slice':
        from .interp import mk_slice
        cs = [it.content(a, st) for a in args]
        if len(cs) == 1:
            return Val(mk_slice(NONE, cs[0], NONE))
        return Val(mk_slice(cs[0], cs[1], cs[2] if len(cs) > 2 else NONE))
    if name == 'map' and len(args) == 2:
        sp = it.iter_spec(args[1], st, x.node)
        if sp[0] == 'unroll':
            return it.mk_list([it.call(args[0], [h], {}, st, x.node) for h in sp[1]], st)
        _, D, el, g = sp
        v = fresh_fv()
        s2 = st.copy()
        e = it.content(it.call(args[0], [el(s2, v)], {}, s2, x.node), s2)
        return it.new_obj(st, tm.mk_map(D, e, g(v), v))
    if name == 'filter' and len(args) == 2:
        sp = it.iter_spec(args[1], st, x.node)
        if sp[0] == 'dom':
            _, D, el, g = sp
            v = fresh_fv()
            s2 = st.copy()
            eh = el(s2, v)
            e = it.content(eh, s2)
            f = args[0]
            t = truth(e) if isinstance(f, Val) and f.t is NONE else truth(
                it.content(it.call(f, [eh], {}, s2, x.node), s2))
            return it.new_obj(st, tm.mk_map(D, e, b_and(g(v), t), v))
        return None
    if name == 'iter':
        return args[0]
    if name == 'next':
        c = x.c(0)
        if c.op == 'map':
            (b, g), v = tm.unbind(c)
            if g is TRUE:
                return it.new_obj(st, tm.rd(c, ('i', Q0)))
            f = tm.bind('first', c.args[0], (g, b), v)
            if len(args) > 1:
                return it.new_obj(st, phi(tm.mk_any(c.args[0], g, v), f, x.c(1)))
            return it.new_obj(st, f)
        if c.op == 'list' and c.args[0]:
            return it.child(args[0], ('i', Q0), st)
        return it.new_obj(st, mk('call', 'builtins.next', tuple(it.content(a, st) for a in args), ()))
    return None


TYPEOPS = {'builtins.list': ('list', 'map', 'cat', 'repeat'), 'builtins.dict': ('dict',),
           'builtins.tuple': ('tuple',), 'builtins.str': ('s', 'fmt', 'str')}


def isinstance_(it, h, ch, st):
    from .interp import Tup
    if isinstance(ch, Tup):
        r = FALSE
        for y in ch.items:
            r = b_or(r, isinstance_(it, h, y, st))
        return r
    c = it.content(h, st)
    k = it.content(ch, st)
    return inst(c, k)


def inst(c, k):
    if k.op == 'tuple':
        r = FALSE
        for y in k.args[0]:
            r = b_or(r, inst(c, y))
        return r
    if c.op == 'ite' and not is_bool(c):
        r = tm.lift1(lambda z: inst(z, k), c)
        if r is not None:
            return r
    nm = k.args[0] if k.op in ('g', 'cls') else None
    if nm in TYPEOPS:
        if c.op in TYPEOPS[nm]:
            return TRUE
        if c.op in ('q', 'none', 'true', 'false', 's', 'list', 'dict', 'tuple', 'map', 'fmt', 'str'):
            return FALSE
    if c is NONE:
        return FALSE
    return atom(mk('isinstance', c, k))


tm.REBUILD['isinstance'] = inst
tm.REBUILD['hasattr'] = lambda c, k: atom(mk('hasattr', c, k))

UNARY = {'log', 'exp', 'floor', 'ceil', 'rint', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'log10',
         'sign', 'round', 'isinf', 'radians', 'degrees', 'arcsinh', 'sinh', 'tanh', 'log1p', 'expm1'}


def _numpy(it, name, x, Val, Ref, Gen, Tup):
    st, args, kwargs = x.st, x.args, x.kwargs

    def shp(i=0):
        return it.shape_of(args[i], st) if i < len(args) else None

    if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'copy'):
        c = x.c(0, 'object')
        if c is None:
            return None
        dt = canon_dtype(x.c(1, 'dtype'))
        if is_struct_dtype(dt) and not (dt is not None and dt.op == 'rd'):
            return None
        h0 = args[0]
        if name in ('asarray', 'asanyarray') and dt is None and isinstance(h0, Ref) and c.op not in ('list', 'tuple', 'map'):
            return h0
        if c.op == 'call' and c.args[0].rsplit('.', 1)[-1] in tm.ARITY:
            # the results of a function that returns a tuple
            c = mk('list', tuple(tm.rd(c, ('i', tm.q(i))) for i in range(tm.ARITY[c.args[0].rsplit('.', 1)[-1]])))
        r = as_array(c)
        if dt is not None and dt.op == 's':
            r = cast(r, dt)
        if name in ('array', 'copy') and 'copy' not in kwargs:
            return it.new_copy(st, r, shape=shp())
        return it.new_obj(st, r, shape=shp())
    if name in ('zeros', 'ones', 'full', 'empty'):
        sh = x.c(0, 'shape')
        if name == 'full':
            v = x.c(1, 'fill_value')
            dt = canon_dtype(x.c(2, 'dtype'))
        else:
            v = {'zeros': Q0, 'ones': Q1, 'empty': mk('empty')}[name]
            dt = canon_dtype(x.c(1, 'dtype'))
        if is_struct_dtype(dt):
            return it.new_obj(st, mk('filled', v, dim(sh), dt), shape=sh, dtype=dt)
        if dt is s('bool'):
            v = truth(v) if v.op != 'empty' else v
        return it.new_obj(st, v, shape=sh, dtype=dt)
    if name in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
        c = x.c(0, 'a')
        if name == 'full_like':
            v = x.c(1, 'fill_value')
            dt = canon_dtype(x.c(2, 'dtype'))
        else:
            v = {'zeros_like': Q0, 'ones_like': Q1, 'empty_like': mk('empty')}[name]
            dt = canon_dtype(x.c(1, 'dtype'))
        sh = shp()
        if sh is None:
            sh = it.shape_attr(c, 'shape')
        if dt is None and is_bool(c):
            dt = s('bool')
        if dt is s('bool'):
            v = truth(v) if v.op != 'empty' else v
        return it.new_obj(st, v, shape=sh, dtype=dt)
    if name == 'where':
        if len(args) == 1:
            m = x.c(0)
            w = where1(m)
            return Val(mk('wtuple', w))
        if len(args) == 3:
            m = x.c(0)
            return it.new_obj(st, wh(truth(m) if not is_bool(m) else m, x.c(1), x.c(2)), shape=shp())
    if name in ('nonzero', 'flatnonzero') and len(args) == 1:
        w = where1(x.c(0))
        return Val(w) if name == 'flatnonzero' else Val(mk('wtuple', w))
    if name in ('any', 'all', 'sum', 'max', 'min', 'amax', 'amin'):
        nm = {'amax': 'max', 'amin': 'min'}.get(name, name)
        if len(args) == 1 and not kwargs:
            return it.new_obj(st, reduce_(nm, x.c(0), ())) if nm in ('sum', 'max', 'min') else \
                Val(reduce_(nm, x.c(0), ()))
        if name in ('sum',) and 'axis' in kwargs or len(args) == 2:
            ax = x.c(1, 'axis')
            c = unarr(x.c(0))
            if ax is Q0 and c.op in ('list', 'map') and set(kwargs) <= {'axis'}:
                return it.new_obj(st, sum_(c)) if nm == 'sum' else None
        return None
    if name in ('count_nonzero',) and len(args) == 1:
        c = x.c(0)
        return Val(count_(truth(c) if not is_bool(c) else c))
    if name in ('mean', 'median', 'std', 'var', 'argmax', 'argmin', 'prod', 'cumsum', 'ravel', 'unique') and \
            len(args) == 1 and not kwargs:
        c = x.c(0)
        if c.op == 'q' and name in ('mean', 'median'):
            return Val(c)
        if name == 'mean' and unarr(c).op in ('list', 'map'):
            cc = unarr(c)
            return it.new_obj(st, div(sum_(cc), length(cc)))
        return it.new_obj(st, tm.liftn(lambda xs: mk('call', 'numpy.' + name, (xs[0],), ()), [c]))
    if name == 'isnan':
        return it.new_obj(st, np_isnan(x.c(0)), shape=shp())
    if name == 'isfinite':
        return it.new_obj(st, np_isfinite(x.c(0)), shape=shp())
    if name in ('sqrt',):
        return Val(power(x.c(0), HALF), shp())
    if name == 'square':
        return Val(power(x.c(0), q(2)), shp())
    if name == 'power':
        return Val(power(x.c(0), x.c(1)), shp())
    if name in ('abs', 'absolute', 'fabs'):
        return Val(np_abs(x.c(0)), shp())
    if name in UNARY and len(args) == 1 and set(kwargs) <= {'out'}:
        return it.new_obj(st, uf('numpy.' + name)(x.c(0)), shape=shp())
    if name in ('minimum', 'maximum', 'fmin', 'fmax') and len(args) >= 2:
        return it.new_obj(st, minmax2(name[:1] == 'm' and name[:3] or name[1:], [x.c(0), x.c(1)]), shape=shp())
    if name == 'clip':
        r = clip(x.c(0), x.c(1, 'a_min'), x.c(2, 'a_max'))
        if kwargs.get('out') is not None:
            it.set_base(it.promote(None, kwargs['out'], st), r, st)
            return kwargs['out']
        return it.new_obj(st, r, shape=shp())
    if name in ('logical_and', 'logical_or', 'logical_not', 'logical_xor'):
        a = truth(x.c(0)) if not is_bool(x.c(0)) else x.c(0)
        if name == 'logical_not':
            return it.new_obj(st, b_not(a), shape=shp())
        b = truth(x.c(1)) if not is_bool(x.c(1)) else x.c(1)
        f = {'logical_and': b_and, 'logical_or': b_or, 'logical_xor': tm.b_xor}[name]
        return it.new_obj(st, f(a, b), shape=shp())
    if name in ('add', 'subtract', 'multiply', 'divide', 'true_divide') and len(args) >= 2:
        f = {'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div}[name]
        return it.new_obj(st, f(x.c(0), x.c(1)), shape=shp())
    if name in ('bitwise_or', 'bitwise_and') and len(args) >= 2:
        return it.new_obj(st, (bitor if name == 'bitwise_or' else bitand)(x.c(0), x.c(1)), shape=shp())
    if name in ('invert', 'bitwise_not'):
        from .interp import invert
        return Val(invert(x.c(0)))
    if name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal') and len(args) == 2:
        f = dict(less=lt, less_equal=le, greater=gt, greater_equal=ge, equal=eq, not_equal=ne)[name]
        return Val(f(x.c(0), x.c(1)))
    if name in ('bitwise_or.reduce', 'logical_or.reduce', 'any.reduce'):
        c = unarr(x.c(0))
        if c.op in ('list', 'map', 'tuple', 'cat') and (not kwargs or x.c('axis') is Q0):
            return it.new_obj(st, or_reduce(c))
        return None
    if name == 'add.reduce':
        return it.new_obj(st, sum_(unarr(x.c(0))))
    if name == 'rot90':
        k = x.c(1, 'k')
        k = Q1 if k is None else k
        if k.op == 'q' and not (set(kwargs) - {'k', 'm'}) and len(args) <= 2:
            return it.new_obj(st, rot90(x.c(0, 'm'), int(k.args[0])))
        return None
    if name == 'arange':
        cs = [it.content(a, st) for a in args]
        if len(cs) == 1 and set(kwargs) <= {'dtype'}:
            return it.new_obj(st, mk('rangeterm', cs[0]), shape=mk('tuple', (cs[0],)))
        return None
    if name == 'array_equal' and len(args) == 2:
        a, b = sorted((x.c(0), x.c(1)), key=lambda t: t.ord)
        return Val(TRUE if a is b else atom(mk('array_equal', a, b)))
    if name in ('int32', 'int64', 'float32', 'float64', 'uint8', 'bool_', 'int16', 'uint32') and len(args) == 1:
        return Val(cast(x.c(0), canon_dtype(mk('g', 'numpy.' + name))))
    if name in ('atleast_1d', 'atleast_2d'):
        c = x.c(0)
        return it.new_obj(st, tm.liftn(lambda xs: mk('call', 'numpy.' + name, (xs[0],), ()), [c]))
    if name in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack'):
        c = x.c(0)
        ks = tuple(sorted((k, it.content(v, st)) for k, v in kwargs.items()))
        if name == 'concatenate' and ks == (('axis', Q0),):
            ks = ()
        return it.new_obj(st, mk('call', 'numpy.' + name, (unarr(c),) + tuple(
            it.content(a, st) for a in args[1:]), ks))
    if name == 'testing.assert_allclose':
        return Val(NONE)
    return None


def dim(sh):
    if sh is not None and sh.op == 'tuple' and len(sh.args[0]) == 1:
        return sh.args[0][0]
    return sh if sh is not None else NONE


def or_reduce(c):
    c = unarr(c)
    if c.op in ('list', 'tuple'):
        r = Q0
        for i, e in enumerate(c.args[0]):
            r = bitor(r, e) if i else e
        return r
    if c.op == 'map':
        (b, g), v = tm.unbind(c)
        return tm.mk_orfold(c.args[0], phi(g, b, Q0) if g is not TRUE else b, v)
    if c.op == 'cat':
        r = None
        for p in c.args[0]:
            e = or_reduce(p)
            r = e if r is None else bitor(r, e)
        return r
    if c.op == 'ite' and not is_bool(c):
        r = tm.lift1(or_reduce, c)
        if r is not None:
            return r
    return mk('call', 'numpy.bitwise_or.reduce', (c,), ())


# ------------------------------------------------------------------ methods
def call_method(it, recv, name, args, kwargs, st, node, stmt):
    from .interp import Val, Ref, Gen, Tup, PhiH, View, Ext, is_rng, RNG_METHODS
    x = Ctx(it, args, kwargs, st, node, stmt)
    rc = it.content(recv, st)
    if is_rng(rc):
        return None
    if isinstance(recv, PhiH) and name in ('append', 'extend', 'update', 'insert', 'pop', 'setdefault', 'fill', 'sort'):
        return phi_method(it, recv, name, args, kwargs, st, node, stmt)
    # strings
    if rc.op in ('s', 'fmt', 'str') or (name in ('join',) and rc.op == 's'):
        r = str_method(it, rc, name, x)
        if r is not None:
            return r
    if name in ('startswith', 'endswith') and len(args) == 1:
        r = tm.liftn(lambda xs: _starts(name, xs[0], xs[1]), [rc, x.c(0)])
        return Val(r)
    if name == 'replace' and len(args) == 2:
        r = tm.liftn(lambda xs: _replace(xs[0], xs[1], xs[2]), [rc, x.c(0), x.c(1)])
        return Val(r)
    # containers
    if name == 'append' and len(args) == 1:
        it.note_kept(args[0], st)
        recv = it.promote(node.func.value if hasattr(node.func, 'value') else None, recv, st)
        if isinstance(recv, Ref):
            o = it.ostate(recv.oid, st)
            if o.base.op == 'list':
                n = len(o.base.args[0])
                h = args[0]
                kids = dict(o.kids)
                if isinstance(h, Val):
                    b = mk('list', o.base.args[0] + (h.t,))
                else:
                    b = mk('list', o.base.args[0] + (NONE,))
                    kids[('i', q(n))] = h
                st.heap[recv.oid] = o.with_(base=b, kids=kids)
                return Val(NONE)
            c = it.obj_content(recv.oid, st, 0)
            e = it.content(args[0], st)
            akids = {k: v for k, v in o.kids.items() if k[0] == 'a'}
            if akids:
                o2 = o.with_(kids={k: v for k, v in o.kids.items() if k[0] != 'a'})
                st.heap[recv.oid] = o2
                c = it.obj_content(recv.oid, st, 0)
            st.heap[recv.oid] = o.with_(base=concat(seqterm(c), mk('list', (e,))), kids=akids)
            return Val(NONE)
        it.set_base(recv, concat(seqterm(rc), mk('list', (x.c(0),))), st)
        return Val(NONE)
    if name == 'insert' and len(args) == 2 and not kwargs:
        pos, n = x.c(0), tm.length(rc) if rc.op in tm.SEQ else mk('len', rc)
        if pos is n or tm.sub(n, pos).op == 'num' and tm.sub(pos, n) is Q0:
            return call_method(it, recv, 'append', args[1:], kwargs, st, node, stmt)
        recv = it.promote(node.func.value if hasattr(node.func, 'value') else None, recv, st)
        if pos is Q0:
            it.set_base(recv, concat(mk('list', (x.c(1),)), seqterm(rc)), st)
        else:
            it.set_base(recv, mk('inserted', rc, pos, x.c(1)), st)
        return Val(NONE)
    if name == 'extend' and len(args) == 1:
        recv = it.promote(None, recv, st)
        sp = it.iter_spec(args[0], st, node)
        if sp[0] == 'unroll':
            for h in sp[1]:
                call_method(it, recv, 'append', [h], {}, st, node, True)
            return Val(NONE)
        it.set_base(recv, concat(seqterm(rc), it.content(args[0], st)), st)
        return Val(NONE)
    isset = rc.op in ('set', 'setterm', 'setor') or isinstance(recv, Ref) and recv.oid in it.sets
    if name == 'update' and (args or kwargs) and not isset:
        recv = it.promote(None, recv, st)
        if args:
            it.dict_update(recv, args[0], st)
        for k, v in kwargs.items():
            it.setitem(recv, ('i', s(k)), v, st)
        return Val(NONE)
    if name in ('add', 'update') and isset and len(args) == 1:
        c = x.c(0)
        if name == 'add':
            c = mk('set', (c,))
        elif c.op not in ('set', 'setterm', 'setor'):
            c = mk('setterm', c)
        if rc.op == 'set' and c.op == 'set':
            it.set_base(recv, mk('set', tuple(sorted(set(rc.args[0]) | set(c.args[0]), key=lambda z: z.ord))), st)
        else:
            it.set_base(recv, mk('setor', rc, c), st)
        return Val(NONE)
    if name == 'get' and 1 <= len(args) <= 2 and not kwargs:
        k = x.c(0)
        g = has(rc, k)
        d = args[1] if len(args) > 1 else Val(NONE)
        if g is FALSE:
            return d
        v = it.child(recv, ('i', k), st)
        return it.phi_handle(g, v, d, st)
    if name in ('items', 'keys', 'values') and not args and not kwargs:
        return Gen(name, (recv,))
    if name == 'setdefault' and args:
        k = x.c(0)
        recv = it.promote(None, recv, st)
        g = has(it.content(recv, st), k)
        d = args[1] if len(args) > 1 else Val(NONE)
        v = it.child(recv, ('i', k), st) if g is not FALSE else d
        r = it.phi_handle(g, v, d, st)
        it.setitem(recv, ('i', k), r, st)
        return it.child(recv, ('i', k), st)
    if name == 'pop':
        recv = it.promote(None, recv, st)
        if args:
            k = x.c(0)
            rc = it.content(recv, st)
            g = has(rc, k) if rc.op != 'list' else TRUE
            if len(args) > 1:
                r = it.phi_handle(g, it.child(recv, ('i', k), st), args[1], st)
            else:
                r = it.child(recv, ('i', k), st)
            r = it.new_obj(st, it.content(r, st))
            it.set_base(recv, del_(rc, k), st)
            return r
        if rc.op == 'list' and rc.args[0]:
            r = it.child(recv, ('i', q(len(rc.args[0]) - 1)), st)
            it.set_base(recv, mk('list', rc.args[0][:-1]), st)
            return r
        r = it.new_obj(st, mk('poplast', rc))
        it.set_base(recv, mk('del', rc, q(-1)), st)
        return r
    if name == 'copy' and not args and not kwargs:
        if isinstance(recv, Ref):
            o = it.ostate(recv.oid, st)
            if o.base.op in ('dict', 'list') and o.cls is None:
                return shallow(it, recv, st)
            return it.new_copy(st, rc, shape=o.shape, dtype=o.dtype)
        if isinstance(recv, Gen):
            return None
        return it.new_copy(st, rc, shape=it.shape_of(recv, st))
    if name == '__copy__':
        return shallow(it, recv, st)
    # arrays
    if name in ('any', 'all', 'sum', 'max', 'min') and not args and not kwargs:
        r = reduce_(name, rc, ())
        return Val(r) if name in ('any', 'all') else it.new_obj(st, r)
    if name in ('mean', 'std', 'argmax', 'argmin', 'ravel', 'flatten', 'prod', 'cumsum', 'round', 'repeat',
                'squeeze', 'dot', 'reshape', 'transpose') and rc.op not in ('s', 'mod'):
        nm = RED[name]
        r = _numpy(it, nm, Ctx(it, [recv] + list(args), kwargs, st, node, stmt), Val, Ref, Gen, Tup)
        if r is not None:
            return r
        return it.opaque_ext('numpy.' + nm, [recv] + list(args), kwargs, st, node, stmt)
    if name in ('sum', 'any', 'all', 'max', 'min') and (args or kwargs):
        r = _numpy(it, name, Ctx(it, [recv] + list(args), kwargs, st, node, stmt), Val, Ref, Gen, Tup)
        if r is not None:
            return r
        return it.opaque_ext('numpy.' + name, [recv] + list(args), kwargs, st, node, stmt)
    if name == 'clip' and not (len(args) == 1 and not kwargs and (stmt or x.c(0).op not in ('q', 'num'))):
        r = clip(rc, x.c(0, 'min'), x.c(1, 'max'))
        if kwargs.get('out') is not None:
            o = it.promote(None, kwargs['out'], st)
            it.set_base(o, r, st)
            return o
        return it.new_obj(st, r, shape=it.shape_of(recv, st))
    if name == 'astype' and args:
        dt = canon_dtype(x.c(0))
        return it.new_obj(st, cast(rc, dt), shape=it.shape_of(recv, st))
    if name == 'fill' and len(args) == 1:
        it.set_base(recv, x.c(0), st)
        return Val(NONE)
    if name == 'item' and not args:
        return Val(rc)
    if name == 'tolist' and not args:
        return it.new_obj(st, unarr(rc))
    if name == 'issubset' and len(args) == 1:
        c = x.c(0)
        a = rc
        if a.op == 'setterm':
            a = a.args[0]
        if a.op in ('set', 'list', 'tuple'):
            r = TRUE
            for e in a.args[0]:
                r = b_and(r, tm.contains(c, e))
            return Val(r)
        v = fresh_fv()
        e = tm.rd(a, ('i', v))
        return Val(b_not(tm.mk_any(tm.dom_seq(a), b_not(tm.contains(c, e)), v)))
    if name in ('info', 'debug', 'warning', 'error', 'warn') and rc.op == 'call':
        return Val(NONE)
    return None


def seqterm(c):
    return c


del_ = tm.mk_del


def phi_method(it, recv, name, args, kwargs, st, node, stmt):
    """in-place method through a merged handle: apply to both, guarded"""
    from .interp import Val
    fid = it.stack[-1].fid
    outs = []
    for g, h in ((recv.c, recv.a), (b_not(recv.c), recv.b)):
        s1 = st.copy()
        s1.pc = b_and(st.pc, g)
        if s1.pc is FALSE:
            continue
        from .interp import Bound
        r = it.call(Bound(h, name), args, kwargs, s1, node, stmt)
        s1.envs[fid]['#m'] = r
        outs.append(s1)
    m = it.merge(outs)
    if m is None:
        return Val(mk('unk', 'dead'))
    r = m.envs[fid].pop('#m')
    it.adopt(st, m)
    return r


def _starts(name, a, b):
    if a.op == 's' and b.op == 's':
        return TRUE if getattr(a.args[0], name)(b.args[0]) else FALSE
    return atom(mk(name, a, b))


def _replace(a, b, c):
    if a.op == 's' and b.op == 's' and c.op == 's':
        return s(a.args[0].replace(b.args[0], c.args[0]))
    return mk('mcall', 'replace', a, (b, c), ())


def str_method(it, rc, name, x):
    from .interp import Val
    st = x.st
    if name == 'join' and len(x.args) == 1 and rc.op == 's':
        c = x.c(0)
        if c.op in ('list', 'tuple'):
            parts = []
            for i, e in enumerate(c.args[0]):
                if i:
                    parts.append(rc)
                parts.append(fmt_part(e, ''))
            return Val(fmt(parts))
        return Val(mk('str', mk('join', rc, c)))
    if name == 'format' and rc.op == 's':
        r = str_format(rc.args[0], [it.content(a, st) for a in x.args],
                       {k: it.content(v, st) for k, v in x.kwargs.items()})
        if r is not None:
            return Val(r)
    if rc.op == 's' and name in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'title'):
        cs = [it.content(a, st) for a in x.args]
        if all(c.op == 's' for c in cs):
            r = getattr(rc.args[0], name)(*[c.args[0] for c in cs])
            if isinstance(r, list):
                return it.mk_list([Val(s(y)) for y in r], st)
            return Val(const(r))
    return None
