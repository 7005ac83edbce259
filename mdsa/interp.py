"""Abstract interpreter: python source -> canonical value terms + effects.

One forward pass per function over the syntax tree (merging, not enumerating, paths);
loops are closed to domain-indexed terms; nothing is executed and no solver is asked.
"""
import ast
import copy
import builtins
import os
import re

from .terms import *          # noqa
from . import terms as tm

RNG_METHODS = frozenset([
    'normal', 'uniform', 'randint', 'choice', 'random', 'random_sample', 'shuffle',
    'permutation', 'poisson', 'standard_normal', 'exponential', 'rand', 'randn', 'seed'])


def loops_diff(it, a, b):
    from .loops import diff_cells
    return diff_cells(it, a, b)


# ------------------------------------------------------------------ handles
class H(object):
    __slots__ = ()


class Val(H):
    __slots__ = ('t', 'shape')

    def __init__(self, t, shape=None):
        self.t = t
        self.shape = shape


class Ref(H):
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return self.oid


class View(H):
    __slots__ = ('base', 'key')

    def __init__(self, base, key):
        self.base = base
        self.key = key


class Tup(H):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class PhiH(H):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Fn(H):
    __slots__ = ('node', 'mod', 'qual', 'fid', 'slf', 'cls')

    def __init__(self, node, mod, qual, fid=None, slf=None, cls=None):
        self.node, self.mod, self.qual, self.fid, self.slf, self.cls = node, mod, qual, fid, slf, cls


class Cls(H):
    __slots__ = ('info',)

    def __init__(self, info):
        self.info = info


class Mod(H):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Ext(H):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Bound(H):
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Super(H):
    __slots__ = ('slf', 'info')

    def __init__(self, slf, info):
        self.slf, self.info = slf, info


class Gen(H):
    """generator / iterator wrapper: (kind, payload)"""
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


class ObjS(object):
    """immutable object state"""
    __slots__ = ('base', 'kids', 'cls', 'shape', 'origin', 'shallow', 'dtype', 'copyof', 'b0',
                 'aka', 'live')

    def __init__(self, base, kids=None, cls=None, shape=None, origin=None, shallow=None, dtype=None,
                 copyof=None, b0=None, aka=None, live=False):
        self.base = base
        self.kids = kids or {}
        self.cls = cls
        self.shape = shape
        self.origin = origin
        self.shallow = shallow
        self.dtype = dtype
        self.copyof = copyof
        self.b0 = b0       # content when first read, for components that exist in their parent
        self.aka = aka     # (container, key, handle, content) of an entry that is this same object
        self.live = live   # list of references to components of a parameter

    def with_(self, **kw):
        o = ObjS(self.base, self.kids, self.cls, self.shape, self.origin, self.shallow, self.dtype, self.copyof, self.b0,
                 self.aka, self.live)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


def list_leaves(c):
    """[(guard, list term)] of a value that is one of several literal lists, else None"""
    from .loops import leaves_guarded
    gl = leaves_guarded(c)
    if len(gl) > 8 or any(x.op not in ('list', 'tuple') or len(x.args[0]) > 8 for _, x in gl):
        return None
    return gl


def linked(h, oid):
    if isinstance(h, Ref):
        return h.oid == oid
    return isinstance(h, PhiH) and (linked(h.a, oid) or linked(h.b, oid))


def param_roots(t):
    """names of the parameters a value is a component of"""
    out = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'param':
            out.add(x.args[0])
        elif x.op in ('rd', 'obj', 'st', 'bulk'):
            if isinstance(x.args[0], T):
                st.append(x.args[0])
            elif isinstance(x.args[0], tuple) and x.args[0] and isinstance(x.args[0][0], T):
                st.append(x.args[0][0])
        elif x.op == 'ite' and not is_bool(x):
            st.extend(x.args[1:])
    return out


def param_parts(t):
    """(parameter, its component) pairs a value may belong to"""
    out = set()
    st, seen = [(t, None)], set()
    while st:
        x, k = st.pop()
        if (x, k) in seen:
            continue
        seen.add((x, k))
        if x.op == 'param':
            out.add((x.args[0], k))
        elif x.op in ('rd', 'obj', 'st', 'bulk'):
            kk = x.args[1] if x.op == 'rd' and tm.const_key(x.args[1]) else None
            if isinstance(x.args[0], T):
                st.append((x.args[0], kk if x.op == 'rd' else k))
            elif isinstance(x.args[0], tuple) and x.args[0] and isinstance(x.args[0][0], T):
                st.append((x.args[0][0], k))
        elif x.op == 'ite' and not is_bool(x):
            st.extend((y, k) for y in x.args[1:])
    return out


def part_of(t):
    """is the value a component of something that exists elsewhere?"""
    return t.op == 'rd'


def too_short(base, k):
    if k[0] != 'i' or k[1].op != 'q':
        return False
    n = k[1].args[0]
    if base.op == 'ite':
        gl = list_leaves(base)
        return gl is not None and all(len(x.args[0]) <= n for _, x in gl)
    return base.op in ('list', 'tuple') and len(base.args[0]) <= n and n >= 0


class State(object):
    __slots__ = ('envs', 'heap', 'pc')

    def __init__(self, envs, heap, pc):
        self.envs = envs
        self.heap = heap
        self.pc = pc

    def copy(self):
        return State({k: dict(v) for k, v in self.envs.items()}, dict(self.heap), self.pc)


class Exit(object):
    __slots__ = ('kind', 'pc', 'val', 'state', 'src')

    def __init__(self, kind, pc, val, state, src):
        self.kind, self.pc, self.val, self.state, self.src = kind, pc, val, state, src


class Frame(object):
    def __init__(self, fid, fn, parent=None):
        self.fid = fid
        self.fn = fn
        self.exits = []
        self.parent = parent
        self.stmt = False


class ClassInfo(object):
    def __init__(self, name, node, mod, qual):
        self.name, self.node, self.mod, self.qual = name, node, mod, qual
        self.methods = {}
        self.consts = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = st

    def bases(self, proj):
        r = []
        for b in self.node.bases:
            h = proj.static_name(self.mod, b)
            if isinstance(h, Cls):
                r.append(h.info)
        return r

    def find(self, proj, name):
        if name in self.methods:
            return self, self.methods[name]
        for b in self.bases(proj):
            r = b.find(proj, name)
            if r is not None:
                return r
        return None


def is_property(node):
    for d in node.decorator_list:
        if isinstance(d, ast.Name) and d.id in ('property', 'cached_property'):
            return True
    return False


def is_static(node):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)


def is_classm(node):
    return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in node.decorator_list)


_gen_memo = {}


def has_yield(node):
    r = _gen_memo.get(node)
    if r is None:
        r = False
        st = list(node.body) if not isinstance(node, ast.Lambda) else []
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
        _gen_memo[node] = r
    return r


def level_jumps(body, types):
    """jump statements in body, those of inner loops and functions aside"""
    out = []
    st = [(x, False) for x in body]
    while st:
        n, inner = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, types) and not (inner and isinstance(n, (ast.Break, ast.Continue))):
            out.append(n)
        loop = isinstance(n, (ast.For, ast.While))
        st.extend((c, inner or loop) for c in ast.iter_child_nodes(n))
    return out


def renamed_copy(n, names, pre):
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and x.id in names:
            x.id = pre + x.id
        elif isinstance(x, ast.ExceptHandler) and x.name in names:
            x.name = pre + x.name
    return n


def nested_loops(node, pre):
    """for x in (e for a in A for b in B): body, as loops"""
    ge = node.iter
    if level_jumps(node.body, ast.Break):
        return None
    names = {n.id for g in ge.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr))
           for x in [ge.elt] + ge.generators for n in ast.walk(x)):
        return None
    last = ge.generators[-1]
    body = list(node.body)
    elt = renamed_copy(ge.elt, names, pre)
    target = renamed_copy(last.target, names, pre)
    if isinstance(ge.elt, ast.Name) and isinstance(last.target, ast.Name) and ge.elt.id == last.target.id and \
            not last.ifs and isinstance(node.target, ast.Name):
        target = node.target
    else:
        body = [ast.Assign(targets=[node.target], value=elt)] + body
    for g in reversed(ge.generators):
        for c in reversed(g.ifs):
            body = [ast.If(test=renamed_copy(c, names, pre), body=body, orelse=[])]
        t = target if g is last else renamed_copy(g.target, names, pre)
        it = g.iter if g is ge.generators[0] else renamed_copy(g.iter, names, pre)
        body = [ast.For(target=t, iter=it, body=body, orelse=[])]
    for n in ast.walk(body[0]):
        if not hasattr(n, 'lineno'):
            ast.copy_location(n, node)
    return body[0]


def inlined_generator(fn, pre, node, target, body, cm):
    """(prefix, statements): the statements of the generator with body for each yield"""
    gen = [x for x in fn.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    ys = level_jumps(gen, (ast.Yield, ast.YieldFrom))
    if len(ys) != 1 or isinstance(ys[0], ast.YieldFrom) or level_jumps(gen, ast.Return) or \
            level_jumps(gen, (ast.Global, ast.Nonlocal)):
        return pre, None
    if level_jumps(body, (ast.Break, ast.Continue)) and not cm:
        return pre, None
    a = fn.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | \
        {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    for g in gen:
        names |= {n.id for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names |= {n.name for n in ast.walk(g) if isinstance(n, ast.ExceptHandler) and n.name}
        if any(isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for n in ast.walk(g)):
            return pre, None
    gen = [renamed_copy(g, names, pre) for g in gen]
    done = []

    def place(stmts, tail):
        """stmts with the yield replaced"""
        out = []
        for i, x in enumerate(stmts):
            t = tail and i == len(stmts) - 1
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Yield):
                if cm and not t and level_jumps(body, (ast.Return, ast.Break, ast.Continue)):
                    return None
                if target is not None:
                    v = x.value.value if x.value.value is not None else ast.Constant(value=None)
                    out.append(ast.copy_location(ast.Assign(targets=[target], value=v), x))
                out.extend(body)
                done.append(x)
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(x, f, None)
                if isinstance(b, list) and b and any(isinstance(y, ast.Yield) for z in b for y in ast.walk(z)):
                    if isinstance(x, (ast.For, ast.While)) and cm:
                        return None
                    if isinstance(x, ast.Try) and (x.handlers or not cm):
                        return None
                    r = place(b, t or isinstance(x, ast.For))
                    if r is None:
                        return None
                    setattr(x, f, r)
            out.append(x)
        return out
    r = place(gen, True)
    if r is None or len(done) != 1:
        return pre, None
    for x in r:
        for n in ast.walk(x):
            if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt)):
                ast.copy_location(n, node)
    return pre, r


class Module(object):
    def __init__(self, name, path, tree, ispkg):
        self.name, self.path, self.tree, self.ispkg = name, path, tree, ispkg
        self.env = None
        self.functions = {}
        self.classes = {}
        self.static = {}


class Project(object):
    """parsed source tree of the package"""

    def __init__(self, root, pkg="metadetect", skip=(), overlay=None):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.errors = []
        base = os.path.join(root, pkg)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ('tests', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)[:-3].split(os.sep)
                ispkg = rel[-1] == '__init__'
                if ispkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                if name in skip:
                    continue
                if overlay and p in overlay:
                    src = overlay[p]
                else:
                    with open(p) as fobj:
                        src = fobj.read()
                tree = ast.parse(src, p)
                self.modules[name] = Module(name, p, tree, ispkg)
        self.functions = {}
        self.classes = {}
        for m in self.modules.values():
            self._scan(m)

    def _scan(self, m):
        def scan(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q_ = m.name + '.' + st.name
                    m.functions[st.name] = st
                    self.functions[q_] = (st, m, None)
                    m.static[st.name] = Fn(st, m, q_)
                elif isinstance(st, ast.ClassDef):
                    ci = ClassInfo(st.name, st, m, m.name + '.' + st.name)
                    m.classes[st.name] = ci
                    self.classes[ci.qual] = ci
                    m.static[st.name] = Cls(ci)
                    for k, v in ci.methods.items():
                        self.functions[ci.qual + '.' + k] = (v, m, ci)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.static[a.asname] = self.modref(a.name)
                        else:
                            m.static[a.name.split('.')[0]] = self.modref(a.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    for a in st.names:
                        m.static[a.asname or a.name] = ('from', self.rel(m, st), a.name)
                elif isinstance(st, (ast.If, ast.Try, ast.With)):
                    for f in ('body', 'orelse', 'finalbody'):
                        scan(getattr(st, f, []))
                    for h in getattr(st, 'handlers', []):
                        scan(h.body)
        scan(m.tree.body)

    def rel(self, m, st):
        if not st.level:
            return st.module or ''
        parts = m.name.split('.')
        if not m.ispkg:
            parts = parts[:-1]
        up = st.level - 1
        if up:
            parts = parts[:-up]
        if st.module:
            parts = parts + st.module.split('.')
        return '.'.join(parts)

    def modref(self, name):
        return Mod(name) if name in self.modules else Ext(name)

    def static_resolve(self, h):
        if isinstance(h, tuple) and h[0] == 'from':
            _, modname, attr = h
            if modname in self.modules:
                m = self.modules[modname]
                if attr in m.static and m.static[attr] != h:
                    return self.static_resolve(m.static[attr])
                if modname + '.' + attr in self.modules:
                    return Mod(modname + '.' + attr)
                return None
            if modname + '.' + attr in self.modules:
                return Mod(modname + '.' + attr)
            return Ext(modname + '.' + attr)
        return h

    def static_name(self, m, node):
        """resolve a Name/Attribute expression at module level"""
        if isinstance(node, ast.Name):
            h = m.static.get(node.id)
            return self.static_resolve(h)
        if isinstance(node, ast.Attribute):
            b = self.static_name(m, node.value)
            if isinstance(b, Mod):
                mm = self.modules.get(b.name)
                if mm is not None:
                    if node.attr in mm.static:
                        return self.static_resolve(mm.static[node.attr])
                    if b.name + '.' + node.attr in self.modules:
                        return Mod(b.name + '.' + node.attr)
                return None
            if isinstance(b, Ext):
                return Ext(b.name + '.' + node.attr)
        return None


def by_reference(t):
    """a value that containers hold by reference: not an array or a number"""
    while t.op in ('obj', 'st'):
        t = t.args[0]
    return t.op in ('dict', 'new', 'updated') or t.op == 'call' and (
        t.args[0] == 'builtins.dict' or not t.args[0].startswith(('numpy.', 'builtins.', 'math.', 'scipy.')))


def phi_leaves(h):
    return phi_leaves(h.a) + phi_leaves(h.b) if isinstance(h, PhiH) else [h]


def restrict(t, attrs):
    """an object as a method that uses only these attributes sees it"""
    if t.op == 'obj':
        d = {k: v for k, v in t.args[1] if k[0] != 'a' or k[1] in attrs}
        b = restrict(t.args[0], attrs)
        return tm.mk_obj(b, d) if d else b
    if t.op == 'ite' and not is_bool(t):
        return phi(t.args[0], restrict(t.args[1], attrs), restrict(t.args[2], attrs))
    if t.op == 'st' and isinstance(t.args[1], tuple) and t.args[1][0] == 'a' and t.args[1][1] not in attrs:
        return restrict(t.args[0], attrs)
    return t


# methods of exposures that set one component
SETTERS = frozenset(['setPsf', 'setWcs', 'setFilter', 'setPhotoCalib'])
RNG_ARGS = {
    'normal': (('loc', Q0), ('scale', Q1), ('size', NONE)),
    'uniform': (('low', Q0), ('high', Q1), ('size', NONE)),
    'randint': (('low', None), ('high', None), ('size', NONE)),
}


def rng_call(name, at, kw):
    """a draw, its arguments by name and without those that have their default"""
    sig = RNG_ARGS.get(name)
    if sig is not None and len(at) <= len(sig) and not any(n in kw for (n, d), x in zip(sig, at)) and \
            all(k in dict(sig) or name == 'randint' for k in kw):
        kw = dict(kw)
        for (n, d), x in zip(sig, at):
            kw[n] = x
        if name == 'randint' and kw.get('high', NONE) is NONE and 'low' in kw:
            kw['low'], kw['high'] = Q0, kw['low']
        kw = {k: x for k, x in kw.items() if dict(sig).get(k) is not x}
        at = ()
    return mk('rngcall', name, tuple(at), tuple(sorted(kw.items())))


class Interp(object):
    def __init__(self, proj, baseline=None, inline=(), opaque=(), max_depth=12):
        """baseline: set of public qualnames treated as opaque calls"""
        self.proj = proj
        self.baseline = baseline if baseline is not None else set(proj.functions)
        self.baseline_classes = None
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.acts = False
        self.oid = 0
        self.fidc = 0
        self.events = []
        self.stack = []
        self.max_depth = max_depth
        self.mod_states = {}
        self.gheap = {}
        self.flatcomps = {}
        self.unmodelled = []
        self.lostwrites = 0
        self.missing = set()
        self.scalars = set()    # parameters the truth of whose comparisons is asked for
        self.half = set()       # variables that were set on one of two paths
        self.lost = set()
        self.quiet = 0
        self.loop_depth = 0
        self.stats = dict(calls=0, inlined=0, stmts=0, loops=0, funcs=set())
        from . import builtins_model
        self.bm = builtins_model
        self.cur_node = None
        self.risky = None
        self.trycount = 0
        self.alias = {}
        self.keptpaths, self.copypaths = set(), set()
        self.copies = set()    # objects that are explicit copies
        self.mutproj = None
        self.any_aka = False
        self.dicts = set()
        self.desugared = {}
        self.sets = set()
        self.rebound = set()   # keys and attributes that are assigned somewhere
        self.needs = []        # items read at a constant index
        self.projs = None          # both trees, for what a method may touch
        self.fresh0 = 0
        self.rawloops = None      # records of loops, when they are kept open
        self.loopno = 0
        self.rawnames = {}

    # -------------------------------------------------------------- utilities
    def src(self, node):
        m = self.cur_mod()
        return (m.path if m else '?', getattr(node, 'lineno', 0))

    def cur_mod(self):
        return self.stack[-1].fn.mod if self.stack else None

    def unk(self, why, node=None):
        self.unmodelled.append((why, self.src(node) if node is not None else None))
        tm._fresh[0] += 1
        return Val(mk('unk', why, tm._fresh[0]))

    def new_obj(self, st, base, kids=None, **kw):
        self.oid += 1
        st.heap[self.oid] = ObjS(base, kids, **kw)
        return Ref(self.oid)

    def new_copy(self, st, base, **kw):
        r = self.new_obj(st, base, **kw)
        self.copies.add(r.oid)
        return r

    # -------------------------------------------------------------- content
    def content(self, h, st):
        if isinstance(h, Val):
            return h.t
        if isinstance(h, Ref):
            return self.obj_content(h.oid, st, 0)
        if isinstance(h, Tup):
            return mk('tuple', tuple(self.content(x, st) for x in h.items))
        if isinstance(h, View):
            return tm.rd(self.content(h.base, st), h.key)
        if isinstance(h, PhiH):
            return phi(h.c, self.content(h.a, st), self.content(h.b, st))
        if isinstance(h, Fn):
            if h.slf is not None:
                return mk('fn', h.qual, self.content(h.slf, st))
            return mk('fn', h.qual)
        if isinstance(h, Cls):
            return mk('cls', h.info.qual)
        if isinstance(h, Mod):
            return mk('mod', h.name)
        if isinstance(h, Ext):
            return mk('g', h.name)
        if isinstance(h, Bound):
            return mk('bound', self.content(h.recv, st), h.name)
        if isinstance(h, Super):
            return mk('super', self.content(h.slf, st))
        if isinstance(h, Gen):
            return self.gen_content(h, st)
        return mk('unk', 'content:%s' % type(h).__name__)

    def obj_content(self, oid, st, depth):
        o = st.heap.get(oid)
        if o is None:
            o = self.gheap.get(oid)
        if o is None:
            return mk('unk', 'dangling')
        if not o.kids:
            if o.live and o.base.op == 'map':
                return self.live_content(o.base, st)
            return o.base
        if depth > 40:
            return mk('unk', 'cyclic')
        d = {}
        t = o.base
        for k, kid in o.kids.items():
            if isinstance(kid, Ref):
                if self.pristine(kid.oid, (oid, k), st):
                    continue
                c = self.obj_content(kid.oid, st, depth + 1)
            else:
                c = self.content(kid, st)
            if tm.const_key(k) or (k[0] == 'i' and k[1].op == 'fmt'):
                d[k] = c
            else:
                if c is not tm.rd(t, k):
                    t = tm.store(t, k, c)
        if d:
            if t.op in ('st', 'bulk'):
                for k, c in d.items():
                    if c is not tm.rd(t, k):
                        t = tm.store(t, k, c)
            else:
                t = tm.mk_obj(t, d)
        return t

    def live_content(self, m, st):
        v = fresh_fv()
        el, g = tm.unbind(m, v)[0]
        ks, t = [], el
        while t.op == 'rd':
            ks.append(t.args[1])
            t = t.args[0]
        h = self.root_param(t)
        if h is None or self.replaced(ks):
            return m
        c = self.content(h, st)
        if c is t:
            return m
        for k in reversed(ks):
            c = tm.rd(c, k)
        return tm.mk_map(m.args[0], c, g, v)

    def replaced(self, ks):
        return any((k[0], k[1] if k[0] == 'a' or k[1].op == 's' else None) in self.rebound for k in ks)

    def root_param(self, t):
        if t.op != 'param':
            return None
        h = self.params.get(t.args[0])
        if h is None and t.args[0] == 'self':
            h = next(iter(self.params.values()), None)
        return h

    def resolve(self, t, st):
        """the object at a path that starts at a parameter, when no entry on the path is ever replaced"""
        ks = []
        while t.op == 'rd':
            ks.append(t.args[1])
            t = t.args[0]
        h = self.root_param(t)
        if h is None or not ks or self.replaced(ks):
            return None
        for k in reversed(ks):
            h = self.child(h, k, st)
            if not isinstance(h, (Ref, View)):
                return None
        return h

    def alias_of(self, h, st, depth=0):
        """the value a handle shares its memory with, if that belongs to a parameter"""
        if isinstance(h, PhiH):
            a, b = self.alias_of(h.a, st), self.alias_of(h.b, st)
            return a if a is not None else b
        if isinstance(h, View):
            t = self.content(h, st)
            if param_roots(t):
                return t
            while isinstance(h, View):
                h = h.base
            t = self.content(h, st)
            return t if param_roots(t) else None
        if not isinstance(h, Ref):
            return None
        oid = h.oid
        for _ in range(30):
            o = st.heap.get(oid)
            if o is None:
                return None
            if o.copyof is not None:
                return o.copyof
            if o.origin is None:
                return o.base if o.base.op == 'param' else None
            if o.origin[0] in st.heap and st.heap[o.origin[0]].kids.get(o.origin[1]) is not None:
                k = st.heap[o.origin[0]].kids.get(o.origin[1])
                if not linked(k, oid):
                    return None
            if o.b0 is not None and param_roots(o.b0):
                return o.b0
            oid = o.origin[0]
        return None

    def pristine(self, oid, origin, st, depth=0):
        """a component that has only been read"""
        o = st.heap.get(oid)
        if o is None or o.origin != origin or o.b0 is None or o.base is not o.b0 or depth > 20:
            return False
        for k, kid in o.kids.items():
            if not isinstance(kid, Ref) or not self.pristine(kid.oid, (oid, k), st, depth + 1):
                return False
        return True

    def gen_content(self, h, st):
        if h.kind == 'partial':
            return mk('call', 'functools.partial', tuple(self.content(x, st) for x in h.parts[0]),
                      tuple((k, self.content(x, st)) for k, x in h.parts[1]))
        it = self.iter_spec(h, st, None)
        if it is None:
            return mk('unk', 'gen')
        if it[0] == 'unroll':
            return mk('list', tuple(self.content(x, st) for x in it[1]))
        v = fresh_fv()
        D, elem, guard = it[1], it[2], it[3]
        st2 = st.copy()
        e = self.content(elem(st2, v), st2)
        return tm.mk_map(D, e, guard(v), v)

    def ostate(self, oid, st):
        o = st.heap.get(oid)
        if o is None:
            o = self.gheap.get(oid)
            if o is not None:
                st.heap[oid] = o
        return o

    # -------------------------------------------------------------- children
    def child(self, h, k, st):
        """handle for component k of h (aliasing preserved)"""
        if isinstance(h, Ref):
            o = self.ostate(h.oid, st)
            if o is None:
                return Val(mk('unk', 'dangling'))
            if k in o.kids:
                return o.kids[k]
            if k == ('a', 'shape') and o.shape is not None:
                return Val(o.shape)
            # a store through a possibly aliasing symbolic key?
            if o.kids and any(not tm.distinct(kk, k) and kk != k for kk in o.kids):
                return View(h, k)
            if o.shallow is not None and k[0] == 'i':
                kid = self.child(o.shallow, k, st)
                o = self.ostate(h.oid, st)
                kids = dict(o.kids)
                kids[k] = kid
                st.heap[h.oid] = o.with_(kids=kids)
                return kid
            t = tm.rd(o.base, k)
            if (t.op in ('q', 's', 'none', 'true', 'false', 'fmt') or is_bool(t)) and \
                    not (o.base.op == 'filled' and k[0] == 'i'):
                return Val(t)
            if t.op == 'missing':
                return Val(t)
            r = self.new_obj(st, t, origin=(h.oid, k), b0=t)
            o = self.ostate(h.oid, st)
            kids = dict(o.kids)
            kids[k] = r
            st.heap[h.oid] = o.with_(kids=kids)
            return r
        if isinstance(h, PhiH):
            return self.phi_handle(h.c, self.child(h.a, k, st), self.child(h.b, k, st), st)
        if isinstance(h, Tup):
            if k[0] == 'i' and k[1].op == 'q':
                i = int(k[1].args[0])
                if -len(h.items) <= i < len(h.items):
                    return h.items[i]
            return Val(tm.rd(self.content(h, st), k))
        if isinstance(h, View):
            return View(h, k)
        if isinstance(h, Val):
            if k == ('a', 'shape') and h.shape is not None:
                return Val(h.shape)
            return Val(tm.rd(h.t, k))
        return Val(tm.rd(self.content(h, st), k))

    def late_kid(self, oid, o, k, st, heap):
        """component k of an object whose other version has another object there"""
        t = tm.rd(o.base, k)
        if t.op in ('q', 's', 'none', 'true', 'false', 'fmt', 'missing', 'nan', 'num', 'len', 'ite') or is_bool(t) or \
                o.base.op == 'filled' and k[0] == 'i':
            return Val(t)
        r = self.new_obj(st, t, origin=(oid, k), b0=t)
        heap[r.oid] = st.heap[r.oid]
        return r

    def phi_handle(self, c, a, b, st):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b or (isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid):
            return a
        if isinstance(a, Val) and isinstance(b, Val):
            sh = a.shape if a.shape is b.shape else None
            return Val(phi(c, a.t, b.t), sh)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.phi_handle(c, x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node and a.slf is b.slf:
            return a
        if isinstance(a, (Ext, Mod, Cls)) and type(a) is type(b):
            if self.content(a, st) is self.content(b, st):
                return a
        if isinstance(a, View) and isinstance(b, View) and a.key == b.key and \
                isinstance(a.base, Ref) and isinstance(b.base, Ref) and a.base.oid == b.base.oid:
            return a
        if isinstance(a, PhiH) and a.c is c:
            a = a.a
        if isinstance(b, PhiH) and b.c is c:
            b = b.b
        return PhiH(c, a, b)

    # -------------------------------------------------------------- stores
    def set_base(self, h, t, st, guard=TRUE):
        """in-place replacement of the whole content of h"""
        if isinstance(h, Ref):
            o = self.ostate(h.oid, st)
            if o.origin is not None or o.copyof is not None:
                self.check_lost(h.oid, t, st, guard)
            if o.dtype is not None and o.dtype.op == 's' and o.dtype.args[0] in ('i1', 'i2', 'u1', 'u2', 'i'):
                t = self.typed(o, t)
            if guard is not TRUE:
                t = phi(guard, t, self.obj_content(h.oid, st, 0))
            st.heap[h.oid] = o.with_(base=t, kids={}, shallow=None)
            self.write_through(h.oid, st)
        elif isinstance(h, PhiH):
            self.set_base(h.a, t, st, b_and(guard, h.c))
            self.set_base(h.b, t, st, b_and(guard, b_not(h.c)))
        elif isinstance(h, View):
            self.store_key(h.base, h.key, t, st, guard)

    def check_lost(self, oid, t, st, guard, hv=None):
        """a write to an object whose connection to the object it was read from is not
        represented any more: the effect on that object would be missed"""
        n = 0
        while n < 30:
            o = st.heap.get(oid)
            if o is None:
                return
            if o.copyof is not None:
                lost = o.copyof
                break
            if o.origin is None:
                return
            poid, k = o.origin
            po = st.heap.get(poid)
            if po is None:
                return
            kid = po.kids.get(k)
            if kid is None:
                lost = tm.rd(self.obj_content(poid, st, 0), k)
                break
            if not linked(kid, oid):
                return      # bound to something else since
            oid = poid
            n += 1
        else:
            return
        if t is None:
            t = self.content(hv, st)
        self.lostwrites += 1
        self.lost |= param_parts(lost)
        self.events.append(('call', mk('unk', 'lostwrite', lost, t), b_and(st.pc, guard), None))

    def store_key(self, h, k, t, st, guard=TRUE):
        """in-place h[k] = t (content)"""
        if isinstance(h, Ref):
            o = self.ostate(h.oid, st)
            if o.origin is not None or o.copyof is not None:
                self.check_lost(h.oid, t, st, guard)
            cur = self.obj_content(h.oid, st, 0)
            t = self.typed(o, t)
            if guard is not TRUE:
                t = phi(guard, t, tm.rd(cur, k))
            kids = {kk: x for kk, x in o.kids.items() if tm.const_key(kk) and tm.const_key(k)
                    and tm.distinct(kk, k)}
            st.heap[h.oid] = o.with_(base=tm.store(cur, k, t), kids=kids, shallow=None)
            self.write_through(h.oid, st)
        elif isinstance(h, PhiH):
            self.store_key(h.a, k, t, st, b_and(guard, h.c))
            self.store_key(h.b, k, t, st, b_and(guard, b_not(h.c)))
        elif isinstance(h, View):
            c = tm.store(self.content(h, st), k, t)
            self.store_key(h.base, h.key, c, st, guard)
        # Val: handled by caller (promote)

    def typed(self, o, t):
        """what an array made to hold integers keeps of a value"""
        dt = o.dtype
        if dt is not None and dt.op == 's' and re.match('[iu][0-9]', dt.args[0]):
            if is_bool(t):
                return phi(t, Q1, Q0)
            return self.bm.cast(t, dt)
        return t

    def rebind_key(self, h, k, hv, st, guard=TRUE):
        """object-graph rebinding: h.k = hv / h[k] = hv for constant keys"""
        if isinstance(h, Ref):
            o = self.ostate(h.oid, st)
            if o.origin is not None or o.copyof is not None:
                self.check_lost(h.oid, None, st, guard, hv)
            if guard is not TRUE:
                old = self.child(h, k, st)
                o = self.ostate(h.oid, st)
                hv = self.phi_handle(guard, hv, old, st)
            kids = dict(o.kids)
            # structured arrays / attributes: keep aliasing children in sync by content
            old = kids.get(k)
            conflict = [kk for kk in kids if kk != k and not tm.distinct(kk, k)]
            if conflict:
                t = tm.store(self.obj_content(h.oid, st, 0), k, self.content(hv, st))
                st.heap[h.oid] = o.with_(base=t, kids={}, shallow=None)
                self.write_through(h.oid, st)
                return
            kids[k] = hv
            st.heap[h.oid] = o.with_(kids=kids)
            self.write_through(h.oid, st)
        elif isinstance(h, PhiH):
            self.rebind_key(h.a, k, hv, st, b_and(guard, h.c))
            self.rebind_key(h.b, k, hv, st, b_and(guard, b_not(h.c)))
        elif isinstance(h, View):
            self.store_key(h, k, self.content(hv, st), st, guard)

    def promote(self, node, h, st):
        """a pure value that is about to be mutated in place becomes an object; every
        variable holding the same value handle follows"""
        if isinstance(h, PhiH):
            ls = phi_leaves(h)
            vs = [x for x in ls if isinstance(x, (Val, Ext))]
            if not vs or any(isinstance(x, Val) and (x.t is NONE or x.t.op in ('missing', 'unk', 'unbound'))
                             for x in vs):
                return h
            if len(vs) == len(ls):
                # an entry that one branch has set and another has not
                r = self.new_obj(st, self.content(h, st))
            else:
                # one branch has already made an object of it
                new = {id(x): self.new_obj(st, self.content(x, st), shape=getattr(x, 'shape', None)) for x in vs}

                def sub(x):
                    if isinstance(x, PhiH):
                        a, b = sub(x.a), sub(x.b)
                        return x if a is x.a and b is x.b else PhiH(x.c, a, b)
                    return new.get(id(x), x)
                r = sub(h)
                for env in st.envs.values():
                    for n, x in env.items():
                        if x is h:
                            env[n] = r
                        elif isinstance(x, (PhiH, Val)):
                            env[n] = sub(x)
                for oid, o in list(st.heap.items()):
                    if o.kids and any(isinstance(x, (PhiH, Val)) for x in o.kids.values()):
                        kids = {k: (r if x is h else sub(x)) for k, x in o.kids.items()}
                        if any(kids[k] is not x for k, x in o.kids.items()):
                            st.heap[oid] = o.with_(kids=kids)
                return r
        elif isinstance(h, Ext) and isinstance(node, ast.Subscript):
            # a number of another module has been broadcast into a column
            r = self.new_obj(st, self.content(h, st))
        elif not isinstance(h, Val):
            return h
        else:
            r = self.new_obj(st, h.t, shape=h.shape)
        for env in st.envs.values():
            for n, x in env.items():
                if x is h:
                    env[n] = r
        for oid, o in list(st.heap.items()):
            if o.kids and any(x is h for x in o.kids.values()):
                st.heap[oid] = o.with_(kids={k: (r if x is h else x) for k, x in o.kids.items()})
        return r

    # -------------------------------------------------------------- merging
    def merge(self, states):
        """states with mutually exclusive path conditions"""
        states = [s_ for s_ in states if s_ is not None and s_.pc is not FALSE]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        pc = states[0].pc
        for s_ in states[1:]:
            pc = b_or(pc, s_.pc)
        res = states[-1]
        for s_ in reversed(states[:-1]):
            care = b_or(s_.pc, res.pc)
            g = tm._constrain_raw(s_.pc, care)
            res = self.merge2(g, s_, res, care)
        res.pc = pc
        return res

    def merge2(self, g, a, b, pc):
        for at in tm.dd_atoms(g):
            tm.SCALAR.add(at)
        heap = {}
        out = State({}, heap, pc)
        # objects first
        for oid in set(a.heap) | set(b.heap):
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is ob:
                heap[oid] = oa
            elif oa is None or ob is None:
                x = oa if oa is not None else ob
                other = b if oa is None else None
                heap[oid] = x
        # lazily created children missing on the other side
        for oid in list(heap):
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is not None and ob is not None:
                continue
            x = oa if oa is not None else ob
            s_other = b if oa is not None else a
            if x.origin is not None:
                poid, k = x.origin
                pb = s_other.heap.get(poid)
                if pb is not None and k not in pb.kids:
                    t = tm.rd(pb.base, k)
                    s_other.heap[oid] = ObjS(t, origin=x.origin, b0=t)
                    kids = dict(pb.kids)
                    kids[k] = Ref(oid)
                    s_other.heap[poid] = pb.with_(kids=kids)
        for oid in set(a.heap) | set(b.heap):
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is ob:
                heap[oid] = oa
                continue
            if oa is None or ob is None:
                heap[oid] = oa if oa is not None else ob
                continue
            base = phi(g, oa.base, ob.base)
            kids = {}
            for k in set(oa.kids) | set(ob.kids):
                ka, kb = oa.kids.get(k), ob.kids.get(k)
                if ka is None:
                    # an element that does not exist on that side (a list extended on one
                    # path only): reading it there is an error, keep the existing handle
                    ka = kb if too_short(oa.base, k) else self.late_kid(oid, oa, k, a, heap)
                if kb is None:
                    kb = ka if too_short(ob.base, k) else self.late_kid(oid, ob, k, b, heap)
                kids[k] = (ka, kb)
            heap[oid] = ObjS(base, kids, oa.cls or ob.cls, oa.shape if oa.shape is ob.shape else None,
                             oa.origin if oa.origin == ob.origin else None,
                             oa.shallow if oa.shallow is ob.shallow else None,
                             oa.dtype, oa.copyof if oa.copyof is ob.copyof else None,
                             oa.b0 if oa.b0 is ob.b0 else
                             phi(g, oa.b0, ob.b0) if oa.b0 is not None and ob.b0 is not None else None,
                             oa.aka if oa.aka is ob.aka else None)
        for oid, o in list(heap.items()):
            if any(isinstance(x, tuple) for x in o.kids.values()):
                heap[oid] = o.with_(kids={
                    k: (self.phi_handle(g, x[0], x[1], out) if isinstance(x, tuple) else x)
                    for k, x in o.kids.items()})
        for fid in set(a.envs) | set(b.envs):
            ea, eb = a.envs.get(fid, {}), b.envs.get(fid, {})
            env = {}
            for n in set(ea) | set(eb):
                x, y = ea.get(n), eb.get(n)
                if x is None:
                    x = Val(mk('unbound'))
                    self.half.add((fid, n))
                if y is None:
                    y = Val(mk('unbound'))
                    self.half.add((fid, n))
                if isinstance(x, Val) and x.t.op == 'unbound' and not isinstance(y, Val):
                    env[n] = self.phi_handle(g, x, y, out)
                else:
                    env[n] = self.phi_handle(g, x, y, out)
            out.envs[fid] = env
        return out

    # -------------------------------------------------------------- modules
    def module_env(self, name):
        ms = self.mod_states.get(name)
        if ms is not None:
            return ms
        m = self.proj.modules[name]
        env = {}
        self.mod_states[name] = env
        st = State({0: env}, dict(self.gheap), TRUE)
        self.fidc += 1
        fid = -self.fidc
        st.envs = {fid: env}
        fake = Fn(m.tree, m, name + '.<module>')
        fr = Frame(fid, fake)
        self.stack.append(fr)
        self.quiet += 1
        try:
            r = self.exec_block(m.tree.body, st)
            if r is not None:
                new = r.envs[fid]
                env.update(new)
                self.gheap.update(r.heap)
        finally:
            self.quiet -= 1
            self.stack.pop()
        return env

    def lookup(self, name, st, node=None):
        fr = self.stack[-1]
        fid = fr.fid
        env = st.envs.get(fid)
        if env is not None and name in env:
            if (fid, name) in self.half and self.maybe_unbound(env[name], st):
                self.missing.add((fid, name))
            return env[name]
        fn = fr.fn
        # closure chain
        pf = fn.fid
        while pf is not None:
            env = st.envs.get(pf)
            if env is not None and name in env:
                return env[name]
            pf = self.fparent.get(pf) if hasattr(self, 'fparent') else None
        m = fn.mod
        g = self.module_env(m.name)
        if name in g:
            h = g[name]
            if isinstance(h, Ref) and h.oid not in st.heap and h.oid in self.gheap:
                self.pull_global(h.oid, st)
            return h
        if name in m.static:
            r = self.proj.static_resolve(m.static[name])
            if r is not None:
                return r
        if name == 'self' or name == '__name__':
            return Val(s(name))
        if not hasattr(builtins, name):
            self.missing.add((fid, name))
            self.event('call', mk('call', '<use of unbound %s>' % name, (), ()), st, node)
        return Ext('builtins.' + name)

    def maybe_unbound(self, h, st):
        if isinstance(h, PhiH):
            return self.maybe_unbound(h.a, st) or self.maybe_unbound(h.b, st)
        return isinstance(h, Val) and tm.has_unbound(h.t)

    def pull_global(self, oid, st):
        o = self.gheap.get(oid)
        if o is None or oid in st.heap:
            return
        st.heap[oid] = o
        for k in o.kids.values():
            self._pull_h(k, st)

    def changed_globals(self, st):
        """objects made by modules that were modified, as (before, after)"""
        out = []
        g = State({}, dict(self.gheap), TRUE)
        for oid, o in self.gheap.items():
            x = st.heap.get(oid)
            if x is None or x is o:
                continue
            a = finalize(self.content(Ref(oid), g))
            b = finalize(constrain_deep(self.content(Ref(oid), st), st.pc))
            if a is not b:
                out.append(mk('tuple', (a, b)))
        return mk('tuple', tuple(sorted(set(out), key=lambda x: x.key)))

    def note_kept(self, h, st):
        """h goes into a container"""
        if isinstance(h, View) or isinstance(h, Ref) and h.oid not in self.copies:
            p = attr_path(self.content(h, st))
            if p and self.alias_of(h, st) is not None:
                self.keptpaths.add(p)
        elif isinstance(h, Ref):
            p = attr_path(st.heap[h.oid].base)
            if p:
                self.copypaths.add(p)

    def owners(self, h, st):
        """{path: kinds} of the objects that the value h gives access to: memory of an argument, an explicit copy, other"""
        out, todo, seen = {}, [((), h)], set()
        params = {x.oid for n, x in self.params.items() if isinstance(x, Ref)}
        while todo:
            path, x = todo.pop()
            if isinstance(x, PhiH):
                todo += [(path, x.a), (path, x.b)]
                continue
            if isinstance(x, Val) and x.t.op in ('none', 'true', 'false', 'noreturn'):
                continue
            kind = 'other'
            if isinstance(x, Tup):
                todo += [(path + (i,), y) for i, y in enumerate(x.items)]
            elif isinstance(x, View):
                if self.alias_of(x, st) is not None:
                    kind = 'argument'
            elif isinstance(x, Ref):
                o = st.heap.get(x.oid)
                if x.oid in params:
                    kind = 'argument'
                elif x.oid in self.copies:
                    kind = 'copy'
                elif o is not None and o.origin is not None and self.alias_of(x, st) is not None:
                    kind = 'argument'
                if o is not None and len(path) < 4 and x.oid not in seen and x.oid not in params:
                    seen.add(x.oid)
                    todo += [(path + (k,), y) for k, y in o.kids.items()]
            out.setdefault(path, set()).add(kind)
        return out

    def shared_globals(self, h, st):
        """containers made by modules that the value h gives access to"""
        out, todo, seen = set(), [h], set()
        g = State({}, dict(self.gheap), TRUE)
        while todo:
            x = todo.pop()
            if isinstance(x, PhiH):
                todo += [x.a, x.b]
            elif isinstance(x, Tup):
                todo += list(x.items)
            elif isinstance(x, Ref) and x.oid not in seen:
                seen.add(x.oid)
                o = st.heap.get(x.oid)
                if x.oid in self.gheap and self.gheap[x.oid].base.op in ('dict', 'list'):
                    out.add(finalize(self.content(Ref(x.oid), g)))
                if o is not None:
                    todo += list(o.kids.values())
        return out

    def _pull_h(self, k, st):
        if isinstance(k, Ref):
            self.pull_global(k.oid, st)
        elif isinstance(k, PhiH):
            self._pull_h(k.a, st)
            self._pull_h(k.b, st)
        elif isinstance(k, Tup):
            for x in k.items:
                self._pull_h(x, st)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        for i, node in enumerate(stmts):
            if st is None:
                return None
            if st.pc is FALSE:
                return None
            tm.CUR_SRC[0] = self.src(node)
            self.stats['stmts'] += 1
            st = self.exec_stmt(node, st)
        return st

    def exec_stmt(self, node, st):
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            self.unk('stmt ' + type(node).__name__, node)
            return st
        return m(node, st)

    def s_Pass(self, node, st):
        return st

    def s_Global(self, node, st):
        self.unk('global', node)
        return st

    def s_Nonlocal(self, node, st):
        self.unk('nonlocal', node)
        return st

    def s_Expr(self, node, st):
        v = node.value
        if isinstance(v, ast.Constant):
            return st
        if isinstance(v, ast.Call):
            self.call_expr(v, st, stmt=True)
            return self._after(st)
        if isinstance(v, ast.YieldFrom):
            d = self.desugared.get(id(node))
            if d is None:
                d = ast.parse('for _yf in x:\n    yield _yf\n').body[0]
                d.iter = v.value
                for n in ast.walk(d):
                    ast.copy_location(n, node)
                self.desugared[id(node)] = d
            return self.exec_stmt(d, st)
        self.eval(v, st)
        return self._after(st)

    def _after(self, st):
        return st if st.pc is not FALSE else None

    def s_Import(self, node, st):
        env = st.envs[self.stack[-1].fid]
        for a in node.names:
            if a.asname:
                env[a.asname] = self.proj.modref(a.name)
            else:
                n = a.name.split('.')[0]
                env[n] = self.proj.modref(n)
        return st

    def s_ImportFrom(self, node, st):
        env = st.envs[self.stack[-1].fid]
        m = self.cur_mod()
        modname = self.proj.rel(m, node)
        for a in node.names:
            nm = a.asname or a.name
            if modname in self.proj.modules:
                if modname + '.' + a.name in self.proj.modules and \
                        a.name not in self.proj.modules[modname].static:
                    env[nm] = Mod(modname + '.' + a.name)
                    continue
                g = self.module_env(modname)
                if a.name in g:
                    env[nm] = g[a.name]
                else:
                    r = self.proj.static_resolve(('from', modname, a.name))
                    env[nm] = r if r is not None else Val(mk('unk', 'import', a.name))
            else:
                env[nm] = Ext(modname + '.' + a.name)
        return st

    def s_FunctionDef(self, node, st):
        fr = self.stack[-1]
        env = st.envs[fr.fid]
        if fr.fid < 0:
            env[node.name] = Fn(node, fr.fn.mod, fr.fn.mod.name + '.' + node.name)
        else:
            env[node.name] = Fn(node, fr.fn.mod, fr.fn.qual + '.<locals>.' + node.name, fid=fr.fid)
        return st

    def s_ClassDef(self, node, st):
        fr = self.stack[-1]
        env = st.envs[fr.fid]
        ci = fr.fn.mod.classes.get(node.name)
        if ci is None or fr.fid >= 0:
            ci = ClassInfo(node.name, node, fr.fn.mod, fr.fn.qual + '.<locals>.' + node.name)
        env[node.name] = Cls(ci)
        return st

    def s_Assign(self, node, st):
        h = self.eval(node.value, st)
        if st.pc is FALSE:
            return None
        for t in node.targets:
            self.assign(t, h, st)
        if isinstance(h, Ref) and isinstance(node.value, ast.ListComp) and len(node.value.generators) > 1 and \
                isinstance(node.value.elt, ast.Name):
            self.flatcomps[h.oid] = node.value, self.stack[-1].fid
        return st

    def flat_comp(self, it, st):
        """the comprehension with several generators that made the list, when it still gives the same"""
        h = self.eval(it, st)
        if not isinstance(h, Ref) or h.oid not in self.flatcomps:
            return None
        comp, fid = self.flatcomps[h.oid]
        if fid != self.stack[-1].fid:
            return None
        n = len(self.events)
        s2 = st.copy()
        x = self.eval(comp, s2)
        if len(self.events) != n:
            del self.events[n:]
            return None
        return comp if self.content(h, st) is self.content(x, s2) else None

    def s_AnnAssign(self, node, st):
        if node.value is not None:
            h = self.eval(node.value, st)
            self.assign(node.target, h, st)
        return st

    def assign(self, target, h, st):
        if isinstance(target, ast.Name):
            st.envs[self.stack[-1].fid][target.id] = h
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            if any(isinstance(e, ast.Starred) for e in target.elts):
                self.unk('starred', target)
                for e in target.elts:
                    e = e.value if isinstance(e, ast.Starred) else e
                    self.assign(e, self.unk('starred', target), st)
                return
            for i, e in enumerate(target.elts):
                self.assign(e, self.child(h, ('i', q(i)), st), st)
        elif isinstance(target, ast.Attribute):
            b = self.eval(target.value, st)
            b = self.promote(target.value, b, st)
            self.rebound.add(('a', target.attr))
            self.foreign(b, ('a', target.attr), h, st, target)
            self.rebind_key(b, ('a', target.attr), h, st)
        elif isinstance(target, ast.Subscript):
            b = self.eval(target.value, st)
            b = self.promote(target.value, b, st)
            k = self.eval_index(target.slice, st)
            self.foreign(b, k, h, st, target)
            if k[0] != 'i' or k[1].op not in ('slice', 'tuple') and not is_bool(k[1]):
                self.rebound.add((k[0], k[1] if k[0] == 'a' or k[1].op == 's' else None))
            self.setitem(b, k, h, st)
        else:
            self.unk('assign target', target)

    def foreign(self, b, k, h, st, node):
        """a store into what a getter of another object handed out is an effect on that object"""
        if isinstance(b, Ref):
            o = self.ostate(b.oid, st)
            t = o.b0 if o is not None and o.b0 is not None else o.base if o is not None else None
            while t is not None and t.op == 'rd':
                t = t.args[0]
            if t is not None and t.op == 'mcall' and re.match('get[A-Z]', str(t.args[0])):
                self.event('call', mk('mcall', '__set__', t, (k[1] if isinstance(k[1], T) else mk('s', k[1]),
                                                              self.content(h, st)), ()), st, node)

    def setitem(self, b, k, h, st):
        if isinstance(b, Ref) and k[0] == 'i' and self.ostate(b.oid, st).dtype is not None:
            c = self.content(h, st)
            d = self.typed(self.ostate(b.oid, st), c)
            h = h if d is c else Val(d)
        if tm.const_key(k) or k[1].op == 'fmt':
            # dict entry / structured field / list element
            if isinstance(h, (Val, Tup, Fn, Ext, Mod, Cls, Bound, Gen)) or self.dict_like(b, st):
                self.rebind_key(b, k, h, st)
            else:
                # numpy field assignment copies
                self.rebind_key(b, k, h, st)
        else:
            c = self.content(h, st)
            self.store_key(b, k, c, st)
            if isinstance(h, (Ref, PhiH)) and isinstance(b, (Ref, View, PhiH)):
                os_ = [self.ostate(x.oid, st) if isinstance(x, Ref) else None for x in phi_leaves(h)]
                if all(o is not None and o.origin is None and o.copyof is None and
                       (by_reference(o.base) or x.oid in self.dicts) for x, o in zip(phi_leaves(h), os_)):
                    aka = (b, k, h, self.new_obj(st, tm.rd(self.content(b, st), k)))
                    for x, o in zip(phi_leaves(h), os_):
                        st.heap[x.oid] = o.with_(aka=aka)
                    self.any_aka = True

    def write_through(self, oid, st):
        """an object that is also an entry of a container has changed, or a part of it"""
        if not self.any_aka:
            return
        for _ in range(20):
            o = st.heap.get(oid)
            if o is None:
                return
            if o.aka is not None:
                b, k, h, rec = o.aka
                if tm.rd(self.content(b, st), k) is self.content(rec, st):
                    c = self.content(h, st)
                    self.store_key(b, k, c, st)
                    self.set_base(rec, tm.rd(self.content(b, st), k), st)
                else:
                    st.heap[oid] = o.with_(aka=None)     # another object is there by now
                return
            if o.origin is None:
                return
            po = st.heap.get(o.origin[0])
            if po is None or not linked(po.kids.get(o.origin[1]), oid):
                return
            oid = o.origin[0]

    def dict_like(self, b, st):
        if isinstance(b, Ref):
            o = self.ostate(b.oid, st)
            return o is not None and o.base.op in ('dict', 'list')
        return False

    def s_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, node)
            rhs = self.eval(node.value, st)
            v = self.binop(node.op, cur, rhs, st, node)
            if isinstance(cur, (Ref, View, PhiH)) and self.inplace_ok(cur, st):
                self.set_base(cur, self.content(v, st), st)
            else:
                if isinstance(cur, Val) and cur.shape is not None and isinstance(v, Val):
                    v.shape = cur.shape
                st.envs[self.stack[-1].fid][t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            b = self.promote(t.value, b, st)
            k = ('a', t.attr)
            self.rebound.add(k)
            cur = self.child(b, k, st)
            rhs = self.eval(node.value, st)
            v = self.binop(node.op, cur, rhs, st, node)
            if isinstance(cur, (Ref, View, PhiH)):
                self.set_base(cur, self.content(v, st), st)
            else:
                self.rebind_key(b, k, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            b = self.promote(t.value, b, st)
            k = self.eval_index(t.slice, st)
            if tm.const_key(k) or k[1].op == 'fmt':
                self.rebound.add((k[0], k[1] if k[1].op == 's' else None))
                cur = self.child(b, k, st)
                rhs = self.eval(node.value, st)
                v = self.binop(node.op, cur, rhs, st, node)
                if isinstance(cur, (Ref, View, PhiH)):
                    self.set_base(cur, self.content(v, st), st)
                else:
                    self.rebind_key(b, k, v, st)
            else:
                bc = self.content(b, st)
                cur = tm.rd(bc, k)
                rhs = self.eval(node.value, st)
                kt = k[1]
                rc = self.content(rhs, st)
                if (is_bool(kt) and kt not in (TRUE, FALSE)) or kt.op == 'where1':
                    # x[m] op= y[m]  ==  x = where(m, x op y, x)
                    m = kt if is_bool(kt) else kt.args[0]
                    rc = unmask(rc, kt)
                    v = self.binop_t(node.op, bc, rc)
                    self.store_key(b, k, v, st)
                else:
                    v = self.binop_t(node.op, cur, rc)
                    self.store_key(b, k, v, st)
        return st

    def inplace_ok(self, h, st):
        """augmented assignment mutates the object for arrays/lists; numbers are rebound"""
        if isinstance(h, Ref):
            o = self.ostate(h.oid, st)
            b = o.base
            if b.op in ('q', 'len', 'count', 's', 'fmt'):
                return o.shape is not None
            return True
        if isinstance(h, View):
            return True
        if isinstance(h, PhiH):
            return self.inplace_ok(h.a, st) and self.inplace_ok(h.b, st)
        return False

    def s_Return(self, node, st):
        if self.stack[-1].stmt and isinstance(node.value, ast.Call):
            # the value is discarded by the (inlined) call
            self.call_expr(node.value, st, stmt=True)
            h = Val(NONE)
        else:
            h = self.eval(node.value, st) if node.value is not None else Val(NONE)
        if st.pc is FALSE:
            return None
        self.stack[-1].exits.append(Exit('return', st.pc, h, st, self.src(node)))
        return None

    def s_Raise(self, node, st):
        name = 'reraise'
        if node.exc is not None:
            e = node.exc
            if isinstance(e, ast.Call):
                f = e.func
            else:
                f = e
            if isinstance(f, ast.Name) and f.id in st.envs.get(self.stack[-1].fid, {}) and \
                    isinstance(st.envs[self.stack[-1].fid][f.id], (Val, Ref)):
                name = 'reraise'
                t = self.content(st.envs[self.stack[-1].fid][f.id], st)
                if t.op == 'excval':
                    name = t.args[0]
                elif t.op == 'call':
                    name = self.exc_head(t)
            else:
                h = self.eval(f, st)
                if isinstance(h, Fn) and isinstance(e, ast.Call):
                    # a helper makes the exception
                    risky, self.risky = self.risky, None
                    t = self.content(self.call_expr(e, st, stmt=False), st)
                    self.risky = risky
                    if st.pc is FALSE:
                        return None
                    name = self.exc_head(t)
                else:
                    name = self.exc_name(h, st)
        self.stack[-1].exits.append(Exit('raise', st.pc, Val(s(name)), st, self.src(node)))
        return None

    def exc_head(self, t):
        if t.op == 'call' and isinstance(t.args[0], str):
            return t.args[0].split(':')[-1].split('.')[-1]
        return 'Exception?'

    def exc_name(self, h, st):
        c = self.content(h, st)
        if c.op == 'g':
            return str(c.args[0]).split('.')[-1]
        if c.op == 'cls':
            return str(c.args[0]).split('.')[-1]
        return 'Exception?'

    def s_Assert(self, node, st):
        c = self.cond(node.test, st)
        self.raise_if(b_not(c), 'AssertionError', st, node)
        return self._after(st)

    def raise_if(self, c, name, st, node):
        g = b_and(st.pc, c)
        if g is not FALSE:
            st2 = st.copy()
            st2.pc = g
            self.stack[-1].exits.append(Exit('raise', g, Val(s(name)), st2, self.src(node)))
        st.pc = b_and(st.pc, b_not(c))

    def s_Delete(self, node, st):
        for t in node.targets:
            if isinstance(t, ast.Name):
                st.envs[self.stack[-1].fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                k = self.eval_index(t.slice, st)
                self.set_base(b, tm.mk_del(self.content(b, st), k[1]), st)
        return st

    def cond(self, node, st):
        h = self.eval(node, st)
        c = self.truth_h(h, st)
        for at in tm.dd_atoms(c):
            tm.SCALAR.add(at)
            if at.op == 'lt0' and at.args[0].op in ('num', 'param'):
                for x in [at.args[0]] if at.args[0].op == 'param' else [y for m, _ in at.args[0].args[0] for y, _ in m]:
                    if x.op == 'param':
                        self.scalars.add(x.args[0])
        return tm._constrain_raw(c, st.pc) if st.pc not in (TRUE, FALSE) else c

    def truth_h(self, h, st):
        if isinstance(h, (Fn, Cls, Mod)):
            return TRUE
        return truth(self.content(h, st))

    def s_If(self, node, st):
        c = self.cond(node.test, st)
        if st.pc is FALSE:
            return None
        p1 = b_and(st.pc, c)
        p0 = b_and(st.pc, b_not(c))
        r1 = r0 = None
        if p1 is not FALSE:
            s1 = st.copy() if p0 is not FALSE else st
            s1.pc = p1
            r1 = self.exec_block(node.body, s1)
        if p0 is not FALSE:
            s0 = st
            s0.pc = p0
            r0 = self.exec_block(node.orelse, s0) if node.orelse else s0
        return self.merge([r1, r0])

    def s_With(self, node, st):
        if len(node.items) == 1 and isinstance(node.items[0].context_expr, ast.Call):
            b = self.inline_gen(node, node.items[0].context_expr, node.items[0].optional_vars, node.body, st, True)
            if b is not None:
                return self.exec_block(b, st)
        for it in node.items:
            h = self.eval(it.context_expr, st)
            c = self.content(h, st)
            self.event('with', c, st, node)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.new_obj(st, mk('enter', c)), st)
        return self.exec_block(node.body, st)

    def event(self, kind, t, st, node):
        if self.quiet:
            return
        self.events.append((kind, t, st.pc, self.src(node)))

    def join_events(self, n):
        """the same event on two paths: one event"""
        out = []
        for k, t, pc, src in self.events[n:]:
            for i, x in enumerate(out):
                if x[0] == k and x[1] is t and x[3] == src:
                    out[i] = (k, t, b_or(x[2], pc), src)
                    break
            else:
                out.append((k, t, pc, src))
        self.events[n:] = out

    # ---- try
    def s_Try(self, node, st):
        fr = self.stack[-1]
        pre_exits = fr.exits
        fr.exits = []
        outer_risky = self.risky
        self.risky = []
        s0 = st
        entry = st.copy()
        ev0 = len(self.events)
        r = self.exec_block(node.body, st)
        body_exits = fr.exits
        risky = self.risky
        self.risky = outer_risky
        fr.exits = []
        handlers = []
        out_states = []
        if risky:
            # propagate to an enclosing try as well unless caught broadly
            pass
        remaining = list(body_exits)
        # implicit exceptions raised by opaque calls
        caught_types = []
        cases = []
        for hd in node.handlers:
            types = self.handler_types(hd, st)
            cases.append((hd, types))
        risk_guard_total = FALSE
        hstates = {i: [] for i in range(len(cases))}
        for e in remaining[:]:
            if e.kind == 'raise':
                nm = e.val.t.args[0]
                for i, (hd, types) in enumerate(cases):
                    if self.exc_matches(nm, types):
                        hstates[i].append(State(e.state.envs, e.state.heap, e.pc))
                        remaining.remove(e)
                        break
        names = tuple(sorted(set(c for c, f, _, _ in risky)))
        fvs = set()
        for _, f, _, _ in risky:
            fvs |= f
        exc_any = FALSE
        if risky and cases:
            # the first risky call determines the state seen by the handler
            snap = risky[0][2]
            cover = []
            for i, (hd, types) in enumerate(cases):
                at = mk('exc', tuple(sorted(types)), names, tuple(sorted(
                    (x for x in fvs if x.op == 'fv'), key=lambda x: x.ord)),
                    tuple(cover))
                g = b_and(atom(at), b_not(exc_any))
                hs = snap.copy()
                hs.pc = b_and(snap.pc, g)
                if hs.pc is not FALSE:
                    hstates[i].append(hs)
                exc_any = b_or(exc_any, g)
                cover.append(tuple(sorted(types)))
            ng = b_not(exc_any)
            if r is not None:
                r.pc = b_and(r.pc, ng)
            for e in remaining:
                e.pc = b_and(e.pc, ng)
                e.state.pc = e.pc
            for i in hstates:
                for x in hstates[i]:
                    pass
        if r is not None and node.orelse and r.pc is not FALSE:
            r = self.exec_block(node.orelse, r)
        outs = [r]
        else_exits = fr.exits
        fr.exits = []
        for i, (hd, types) in enumerate(cases):
            if not hstates[i]:
                continue
            hs = self.merge(hstates[i])
            if hs is None:
                continue
            if hd.name:
                hs.envs[fr.fid][hd.name] = Val(mk('excval', '|'.join(sorted(types))))
            rr = self.exec_block(hd.body, hs)
            for e in fr.exits:
                if e.kind == 'raise' and e.val.t is s('reraise'):
                    e.val = Val(s('|'.join(sorted(types))))
            outs.append(rr)
        new_exits = remaining + else_exits + fr.exits
        fr.exits = pre_exits
        res = self.merge([x for x in outs if x is not None and x.pc is not FALSE])
        if node.finalbody:
            ev1 = len(self.events)
            if res is not None:
                res = self.exec_block(node.finalbody, res)
            keep = fr.exits
            for e in new_exits:
                if e.pc is FALSE:
                    continue
                fr.exits = []
                stx = e.state.copy()
                stx.pc = e.pc
                q_ = self.quiet
                thrown = e.kind == 'raise' and e.val.t is s('thrown')
                self.quiet += not thrown
                stx = self.exec_block(node.finalbody, stx)
                self.quiet = q_
                if thrown:
                    self.join_events(ev1)
                if stx is not None:
                    e.state = stx
                keep = keep + [x for x in fr.exits]
            fr.exits = keep
        fr.exits = fr.exits + [e for e in new_exits if e.pc is not FALSE]
        if outer_risky is not None and not any('Exception' in t or 'BaseException' in t for _, t in cases):
            outer_risky.extend(risky)
        return res

    def handler_types(self, hd, st):
        if hd.type is None:
            return ('BaseException',)
        if isinstance(hd.type, ast.Tuple):
            return tuple(sorted(self.exc_name(self.eval(x, st), st) for x in hd.type.elts))
        h = self.eval(hd.type, st)
        if isinstance(h, Tup):
            return tuple(sorted(self.exc_name(x, st) for x in h.items))
        return (self.exc_name(h, st),)

    PARENTS = {
        'BootPSFFailure': ['BootFailure', 'GMixFatalError?'], 'PSFFluxFailure': [],
        'AssertionError': [], 'ValueError': [], 'RuntimeError': [], 'KeyError': ['LookupError'],
        'IndexError': ['LookupError'], 'AllZeroWeightError': [], 'CentroidFailError': [],
        'MissingDataError': [],
    }

    def exc_matches(self, nm, types):
        if nm in types or 'Exception' in types or 'BaseException' in types:
            return True
        for p in self.PARENTS.get(nm, ()):
            if p in types:
                return True
        # project classes
        for ci in self.proj.classes.values():
            if ci.name == nm:
                for b in ci.node.bases:
                    bn = b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '')
                    if bn in types:
                        return True
        return False

    # ---- loops
    def inline_gen(self, node, call, target, body, st, cm):
        """the body of a loop over, or of a with statement on, a generator function that exists
        on one side only, set in the place of its yield statements; None when it cannot be"""
        f = call.func
        if not isinstance(f, ast.Name) and not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name)):
            return None
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        if isinstance(f, ast.Name):
            fn = self.eval(f, st)
        else:
            fn = self.getattr_call(self.eval(f.value, st), f.attr, st, f)
        if not isinstance(fn, Fn) or isinstance(fn.node, ast.Lambda) or not has_yield(fn.node) or \
                fn.qual in self.baseline or '<locals>' in fn.qual or fn.mod is not self.cur_mod():
            return None
        decs = [d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None) for d in fn.node.decorator_list]
        if ('contextmanager' in decs) != cm or set(decs) - {'contextmanager', 'staticmethod', 'classmethod'}:
            return None
        if any(fr.fn.node is fn.node for fr in self.stack):
            return None
        key = ('gen', id(node), id(fn.node))
        d = self.desugared.get(key)
        if d is None:
            d = self.desugared[key] = inlined_generator(fn.node, '_g%d_' % len(self.desugared), node, target, body, cm)
        pre, stmts = d
        if stmts is None:
            return None
        args = [self.eval(a, st) for a in call.args]
        kw = {k.arg: self.eval(k.value, st) for k in call.keywords}
        env = self.bind_args(fn, args, kw, st, call)
        if env is None:
            return None
        for n, h in env.items():
            st.envs[self.stack[-1].fid][pre + n] = h
        self.stats['inlined'] += 1
        self.stats['funcs'].add(fn.qual)
        return stmts

    def s_For(self, node, st):
        if isinstance(node.iter, ast.Call) and not node.orelse:
            b = self.inline_gen(node, node.iter, node.target, node.body, st, False)
            if b is not None:
                return self.exec_block(b, st)
        if isinstance(node.iter, ast.Name) and not node.orelse and self.flatcomps:
            c = self.flat_comp(node.iter, st)
            if c is not None:
                d = self.desugared.get(('flat', id(node)))
                if d is None:
                    d = self.desugared['flat', id(node)] = nested_loops(ast.copy_location(ast.For(
                        target=node.target, iter=c, body=node.body, orelse=[]), node),
                        '_f%d_' % len(self.desugared)) or False
                if d:
                    return self.exec_stmt(d, st)
        if isinstance(node.iter, (ast.GeneratorExp, ast.ListComp)) and len(node.iter.generators) > 1 and \
                not node.orelse:
            d = self.desugared.get(id(node))
            if d is None:
                d = self.desugared[id(node)] = nested_loops(node, '_f%d_' % len(self.desugared)) or False
            if d:
                return self.exec_stmt(d, st)
        it = self.eval(node.iter, st)
        return self.run_for(node, it, st)

    def run_for(self, node, it, st):
        spec = self.iter_spec(it, st, node, True)
        fr = self.stack[-1]
        if spec[0] == 'unroll':
            return self.run_unrolled(node, spec[1], st, spec[2] if len(spec) > 2 else None)
        _, D, elem, guard = spec

        def body(s2, v):
            h = elem(s2, v)
            g = guard(v)
            skip = None
            if g is not TRUE:
                skip = s2.copy()
                skip.pc = b_and(s2.pc, b_not(g))
                s2.pc = b_and(s2.pc, g)
            self.assign(node.target, h, s2)
            r = self.exec_block(node.body, s2)
            if skip is not None:
                return [r, skip]
            return [r]
        tnames = [n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)]
        return self.close_loop(node, D, body, st, node.orelse, tnames)

    def run_unrolled(self, node, elems, st, guards=None):
        fr = self.stack[-1]
        saved = fr.exits
        fr.exits = []
        breaks = []
        ended = []
        for i, h in enumerate(elems):
            if st is None:
                break
            if guards is not None and guards[i] is not TRUE:
                sk = st.copy()
                sk.pc = b_and(st.pc, b_not(guards[i]))
                st.pc = b_and(st.pc, guards[i])
                if sk.pc is not FALSE:
                    ended.append(sk)
                if st.pc is FALSE:
                    st = None
                    break
            self.assign(node.target, h, st)
            r = self.exec_block(node.body, st)
            states = [r]
            rest = []
            for e in fr.exits:
                if e.kind == 'continue':
                    states.append(State(e.state.envs, e.state.heap, e.pc))
                elif e.kind == 'break':
                    breaks.append(State(e.state.envs, e.state.heap, e.pc))
                else:
                    rest.append(e)
            saved = saved + rest
            fr.exits = []
            st = self.merge([x for x in states if x is not None])
        fr.exits = saved
        st = self.merge([x for x in [st] + ended if x is not None])
        if node.orelse and st is not None:
            st = self.exec_block(node.orelse, st)
        return self.merge([x for x in [st] + breaks if x is not None])

    def s_Break(self, node, st):
        self.stack[-1].exits.append(Exit('break', st.pc, None, st, self.src(node)))
        return None

    def s_Continue(self, node, st):
        self.stack[-1].exits.append(Exit('continue', st.pc, None, st, self.src(node)))
        return None

    def s_While(self, node, st):
        from .loops import while_loop
        return while_loop(self, node, st)

    def close_loop(self, node, D, body, st, orelse, tnames=()):
        from .loops import close_loop
        return close_loop(self, node, D, body, st, orelse, tnames)

    def iter_spec(self, it, st, node, guarded=False):
        """('unroll', [handles]) or ('dom', D, elem(st, v)->handle, guard(v)->bdd)"""
        T_ = lambda v: TRUE    # noqa
        if isinstance(it, Tup):
            return ('unroll', list(it.items))
        if isinstance(it, Gen):
            k = it.kind
            if k == 'enumerate':
                seq_, start = it.parts
                sp = self.iter_spec(seq_, st, node, guarded)
                if sp[0] == 'unroll':
                    return ('unroll', [Tup([Val(add(q(i), start)), x]) for i, x in enumerate(sp[1])]) + sp[2:]
                _, D, el, g = sp
                return ('dom', D, lambda s_, v: Tup([Val(add(v, start)), el(s_, v)]), g)
            if k == 'zip':
                sps = [self.iter_spec(x, st, node, guarded) for x in it.parts]
                if any(sp[0] == 'unroll' for sp in sps):
                    n = min(len(sp[1]) for sp in sps if sp[0] == 'unroll')
                    rows = []
                    for i in range(n):
                        row = []
                        for sp in sps:
                            if sp[0] == 'unroll':
                                row.append(sp[1][i])
                            else:
                                row.append(sp[2](st, q(i)))
                        rows.append(Tup(row))
                    gs = [TRUE] * n
                    for sp in sps:
                        if sp[0] == 'unroll' and len(sp) > 2:
                            gs = [b_and(a, b) for a, b in zip(gs, sp[2])]
                    if any(g is not TRUE for g in gs):
                        return ('unroll', rows, gs)
                    return ('unroll', rows)
                # they are supposed to have one length: prefer the plain sequence
                D = min((sp[1] for sp in sps), key=lambda d: (
                    d.op != 'dom' or d.args[0].op not in ('param', 'rd'), d.op == 'dom' and d.args[0].op == 'num',
                    len(str(d)), str(d)))
                for sp in sps:
                    if sp[3](fresh_fv()) is not TRUE:
                        D = mk('dom', mk('zipped', tuple(self.content(x, st) for x in it.parts)))
                return ('dom', D, lambda s_, v: Tup([sp[2](s_, v) for sp in sps]), T_)
            if k in ('items', 'keys', 'values'):
                d = it.parts[0]
                c = self.content(d, st)
                items = self.dict_items(d, st)
                if items is not None:
                    hs = []
                    for kt, hv in items:
                        if k == 'items':
                            hs.append(Tup([Val(kt), hv]))
                        elif k == 'keys':
                            hs.append(Val(kt))
                        else:
                            hs.append(hv)
                    return ('unroll', hs)
                if c.op == 'dictmap':
                    pass
                D = mk('dom', c)

                def el(s_, v):
                    kt = tm.rd(c, ('i', v))
                    if k == 'keys':
                        return Val(kt)
                    hv = self.child(d, ('i', kt), s_)
                    if k == 'values':
                        return hv
                    return Tup([Val(kt), hv])
                return ('dom', D, el, T_)
            if k == 'reversed':
                sp = self.iter_spec(it.parts[0], st, node)
                if sp[0] == 'unroll':
                    return ('unroll', sp[1][::-1])
                c = mk('call', 'builtins.reversed', (self.content(it.parts[0], st),), ())
                return ('dom', mk('dom', c), lambda s_, v: Val(tm.rd(c, ('i', v))), T_)
            if k == 'comp':
                # generator expression: (D, elem, guard)
                return it.parts
        c = self.content(it, st)
        if guarded and c.op == 'ite' and isinstance(it, (Ref, Val)):
            gl = list_leaves(c)
            if gl is not None:
                n = max(len(x.args[0]) for _, x in gl)
                gs = []
                for i in range(n):
                    g = FALSE
                    for gg, x in gl:
                        if len(x.args[0]) > i:
                            g = b_or(g, gg)
                    gs.append(g)
                return ('unroll', [self.child(it, ('i', q(i)), st) for i in range(n)], gs)
        if c.op in ('list', 'tuple', 'set') and len(c.args[0]) <= 16:
            return ('unroll', [self.child(it, ('i', q(i)), st) if c.op != 'set' else Val(c.args[0][i])
                               for i in range(len(c.args[0]))])
        if c.op == 'dict' or (c.op == 'obj' and c.args[0].op == 'dict'):
            items = self.dict_items(it, st)
            if items is not None:
                return ('unroll', [Val(k) for k, h in items])
        if c.op == 'rangeterm':
            n = c.args[0]
            if n.op == 'q' and 0 <= n.args[0] <= 12:
                return ('unroll', [Val(q(i)) for i in range(int(n.args[0]))])
            return ('dom', tm.dom_n(n), lambda s_, v: Val(v), T_)
        if c.op == 'range2':
            a, b = c.args
            n = sub(b, a)
            if n.op == 'q' and 0 <= n.args[0] <= 12:
                return ('unroll', [Val(add(a, q(i))) for i in range(int(n.args[0]))])
            return ('dom', tm.dom_n(n), lambda s_, v: Val(add(a, v)), T_)
        if c.op == 'map':
            D = c.args[0]

            def el(s_, v):
                el_t = tm.unbind(c, v)[0][0]
                r = self.resolve(el_t, s_)
                if r is not None:
                    return r
                return self.new_obj(s_, el_t, copyof=el_t if part_of(el_t) else None)

            def gd(v):
                return tm.unbind(c, v)[0][1]
            return ('dom', D, el, gd if c.args[1][1] is not TRUE else T_)
        if c.op == 's' and len(c.args[0]) <= 12:
            return ('unroll', [Val(s(x)) for x in c.args[0]])
        return ('dom', tm.dom_seq(c), lambda s_, v: self.child(it, ('i', v), s_), T_)

    def dict_items(self, h, st):
        """[(key term, handle)] for a dict with statically known keys, else None"""
        c = self.content(h, st)
        if c.op == 'obj':
            return None
        if c.op != 'dict':
            return None
        if not all(tm.is_const(k) or k.op in ('g', 'fmt') for k, v in c.args[0]):
            return None
        if len(c.args[0]) > 24:
            return None
        return [(k, self.child(h, ('i', k), st)) for k, v in c.args[0]]

    # -------------------------------------------------------------- expressions
    def eval(self, node, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return self.unk('expr ' + type(node).__name__, node)
        return m(node, st)

    def evalc(self, node, st):
        return self.content(self.eval(node, st), st)

    def e_Constant(self, node, st):
        return Val(const(node.value))

    def e_Name(self, node, st):
        if node.id == 'True':
            return Val(TRUE)
        return self.lookup(node.id, st, node)

    def e_NamedExpr(self, node, st):
        h = self.eval(node.value, st)
        self.assign(node.target, h, st)
        return h

    def e_Attribute(self, node, st):
        x = node.value
        if node.attr in ('shape', 'ndim', 'size', 'dtype') and isinstance(x, ast.Subscript) and \
                isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
            # storing into a column of a table leaves its form
            b = self.eval(x.value, st)
            o = self.ostate(b.oid, st) if isinstance(b, Ref) else None
            if o is not None and o.base.op in ('call', 'filled') and ('i', tm.s(x.slice.value)) in o.kids:
                return Val(tm.rd(tm.rd(o.base, ('i', tm.s(x.slice.value))), ('a', node.attr)))
        b = self.eval(x, st)
        return self.getattr(b, node.attr, st, node)

    def getattr(self, b, attr, st, node=None):
        if isinstance(b, Mod):
            m = self.proj.modules.get(b.name)
            if b.name + '.' + attr in self.proj.modules and (m is None or attr not in m.static):
                return Mod(b.name + '.' + attr)
            if m is not None:
                g = self.module_env(b.name)
                if attr in g:
                    h = g[attr]
                    self._pull_h(h, st)
                    return h
                r = self.proj.static_resolve(m.static.get(attr)) if attr in m.static else None
                if r is not None:
                    return r
            return Val(mk('g', b.name + '.' + attr))
        if isinstance(b, Ext):
            if b.name == 'numpy' and attr in ('nan', 'NaN', 'NAN'):
                return Val(NAN)
            if b.name == 'numpy' and attr == 'newaxis':
                return Val(NONE)
            if b.name == 'numpy' and attr == 'pi':
                return Val(mk('g', 'pi'))
            if b.name == 'math' and attr == 'pi':
                return Val(mk('g', 'pi'))
            if b.name == 'math' and attr == 'nan':
                return Val(NAN)
            return Ext(b.name + '.' + attr)
        if isinstance(b, Super):
            for base in b.info.bases(self.proj):
                r = base.find(self.proj, attr)
                if r is not None:
                    ci, nd = r
                    return Fn(nd, ci.mod, ci.qual + '.' + attr, slf=b.slf, cls=ci)
            return Bound(b, attr)
        if isinstance(b, Cls):
            r = b.info.find(self.proj, attr)
            if r is not None:
                ci, nd = r
                return Fn(nd, ci.mod, ci.qual + '.' + attr, cls=ci)
            for stn in b.info.node.body:
                if isinstance(stn, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr
                                                       for t in stn.targets):
                    return Val(mk('g', b.info.qual + '.' + attr))
            return Ext(b.info.qual + '.' + attr)
        cls = self.cls_of(b, st)
        if cls is not None:
            # instance attribute set earlier wins over methods
            if isinstance(b, Ref):
                o = self.ostate(b.oid, st)
                if ('a', attr) in o.kids:
                    return o.kids[('a', attr)]
            r = cls.find(self.proj, attr)
            if r is not None:
                ci, nd = r
                if is_property(nd):
                    fn = Fn(nd, ci.mod, ci.qual + '.' + attr, slf=b, cls=ci)
                    if self.should_inline(fn, prop=True):
                        return self.call_fn(fn, [], {}, st, node)
                    return self.child(b, ('a', attr), st)
                if is_static(nd):
                    return Fn(nd, ci.mod, ci.qual + '.' + attr, cls=ci)
                return Fn(nd, ci.mod, ci.qual + '.' + attr, slf=b, cls=ci)
            if attr == '__class__':
                return Cls(cls)
        if isinstance(b, Fn) or isinstance(b, Bound):
            return Val(tm.rd(self.content(b, st), ('a', attr)))
        if attr == 'T' or attr in ('size', 'ndim', 'shape', 'dtype'):
            if isinstance(b, Val) and attr == 'shape' and b.shape is not None:
                return Val(b.shape)
            if isinstance(b, Ref) and attr == 'shape':
                return self.child(b, ('a', 'shape'), st)
            if isinstance(b, Ref) and attr == 'size':
                o = self.ostate(b.oid, st)
                if o.shape is not None:
                    if o.shape.op == 'tuple':
                        n = Q1
                        for x in o.shape.args[0]:
                            n = mul(n, x)
                        return Val(n)
                    return Val(mk('sizeof', o.shape))
            if isinstance(b, Ref) and attr == 'dtype':
                o = self.ostate(b.oid, st)
                if o.dtype is not None:
                    return Val(o.dtype)
            return Val(self.shape_attr(self.content(b, st), attr))
        return self.child(b, ('a', attr), st)

    def shape_attr(self, c, attr):
        """shape-like attributes see through element stores"""
        while True:
            if c.op in ('st',) and attr != 'T':
                c = c.args[0]
            elif c.op == 'bulk' and attr != 'T':
                c = c.args[0][0]
            elif c.op == 'wh' and attr != 'T':
                c = c.args[2]
            elif c.op == 'obj' and attr != 'T' and all(k[0] == 'i' for k, v in c.args[1]):
                c = c.args[0]
            else:
                break
        return tm.rd(c, ('a', attr))

    def cls_of(self, h, st):
        if isinstance(h, Ref):
            o = self.ostate(h.oid, st)
            return o.cls if o is not None else None
        if isinstance(h, PhiH):
            a, b = self.cls_of(h.a, st), self.cls_of(h.b, st)
            return a if a is b else None
        return None

    def e_Subscript(self, node, st):
        b = self.eval(node.value, st)
        k = self.eval_index(node.slice, st)
        if self.rawloops is not None and k[1].op == 'q' and isinstance(node.ctx, ast.Load):
            c = self.content(b, st)
            if c.op in ('rd', 'param', 'call', 'mcall'):
                self.needs.append((c, k[1].args[0], st.pc))
        return self.getitem(b, k, st)

    def getitem(self, b, k, st):
        kt = k[1]
        if isinstance(b, Ref) and kt.op in ('param', 'rd', 'bv', 'fv', 'lv', 'call', 'mcall'):
            o = self.ostate(b.oid, st)
            if o is not None and o.base.op == 'dict':
                # one of a few known entries
                ks = {('i', x): None for x, _ in o.base.args[0]}
                ks.update(o.kids)
                if 0 < len(ks) <= 8 and all(x[0] == 'i' and x[1].op == 's' for x in ks):
                    r = Val(mk('missing', self.content(b, st), kt))
                    for x in sorted(ks, key=lambda x: x[1].key, reverse=True):
                        r = self.phi_handle(tm.eq(kt, x[1]), self.child(b, x, st), r, st)
                    return r
        if isinstance(b, (Ref, PhiH)) and (
                kt.op == 'slice' or (kt.op == 'tuple' and any(x.op == 'slice' for x in kt.args[0]))):
            c = tm.rd(self.content(b, st), k)
            if c.op in ('list', 'tuple', 'q') or (isinstance(b, Ref) and
                                                  self.ostate(b.oid, st).base.op in ('list', 'cat', 'map')):
                return Val(c)
            if tm.is_full_slice(kt):
                return b
            return View(b, k)
        if isinstance(b, View) and (kt.op == 'slice' or kt.op == 'tuple'):
            return View(b, k)
        if isinstance(b, (Ref, PhiH)) and ((is_bool(kt) and kt not in (TRUE, FALSE)) or kt.op in ('where1', 'tuple', 'list', 'map')):
            if kt.op == 'tuple' and any(x.op == 'slice' for x in kt.args[0]):
                return View(b, k)
            return Val(tm.rd(self.content(b, st), k))
        if isinstance(b, Tup) and kt.op == 'slice' and all(x.op in ('none', 'q') for x in kt.args):
            sl = slice(*[None if x is NONE else int(x.args[0]) for x in kt.args])
            return Tup(b.items[sl])
        return self.child(b, k, st)

    def eval_index(self, node, st):
        if isinstance(node, ast.Slice):
            f = lambda x: self.evalc(x, st) if x is not None else NONE    # noqa
            return ('i', mk_slice(f(node.lower), f(node.upper), f(node.step)))
        if isinstance(node, ast.Tuple):
            ks = [self.eval_index(e, st)[1] for e in node.elts]
            while len(ks) > 1 and ks[-1].op == 'slice' and tm.is_full_slice(ks[-1]):
                ks.pop()           # x[i, :] is x[i]
            return ('i', ks[0] if len(ks) == 1 else mk('tuple', tuple(ks)))
        t = self.evalc(node, st)
        if t.op == 'wtuple':
            t = t.args[0]          # x[np.where(m)] is x[m]
        return ('i', t)

    def e_Slice(self, node, st):
        return Val(self.eval_index(node, st)[1])

    def e_Tuple(self, node, st):
        return Tup(self.eval_elts(node.elts, st))

    def eval_elts(self, elts, st):
        r = []
        for e in elts:
            if isinstance(e, ast.Starred):
                h = self.eval(e.value, st)
                if isinstance(h, Tup):
                    r.extend(h.items)
                    continue
                sp = self.iter_spec(h, st, e)
                if sp[0] == 'unroll':
                    r.extend(sp[1])
                else:
                    r.append(Val(mk('star', self.content(h, st))))
            else:
                r.append(self.eval(e, st))
        return r

    def e_List(self, node, st):
        return self.mk_list(self.eval_elts(node.elts, st), st)

    def mk_list(self, hs, st):
        stars = [i for i, h in enumerate(hs) if isinstance(h, Val) and h.t.op == 'star']
        if stars:
            t = mk('list', ())
            for h in hs:
                if isinstance(h, Val) and h.t.op == 'star':
                    t = concat(t, h.t.args[0])
                else:
                    t = concat(t, mk('list', (self.content(h, st),)))
            return self.new_obj(st, t)
        kids = {('i', q(i)): h for i, h in enumerate(hs) if not isinstance(h, Val)}
        return self.new_obj(st, mk('list', tuple(
            h.t if isinstance(h, Val) else NONE for h in hs)), kids)

    def new_set(self, st, t):
        h = self.new_obj(st, t)
        self.sets.add(h.oid)
        return h

    def e_Set(self, node, st):
        return self.new_set(st, mk('set', tuple(sorted({self.evalc(e, st) for e in node.elts},
                                                       key=lambda x: x.ord))))

    def e_Dict(self, node, st):
        h = self.new_obj(st, mk('dict', ()))
        for k, v in zip(node.keys, node.values):
            if k is None:
                self.dict_update(h, self.eval(v, st), st)
            else:
                kt = self.evalc(k, st)
                hv = self.eval(v, st)
                self.setitem(h, ('i', kt), hv, st)
        return h

    def dict_update(self, h, other, st):
        items = self.dict_items(other, st)
        if items is not None:
            for k, hv in items:
                self.setitem(h, ('i', k), hv, st)
            return
        oc = self.content(other, st)
        if oc.op == 'ite' and not is_bool(oc):
            pass
        self.set_base(h, dict_merge(self.content(h, st), oc), st)

    def e_IfExp(self, node, st):
        c = self.cond(node.test, st)
        if c is TRUE:
            return self.eval(node.body, st)
        if c is FALSE:
            return self.eval(node.orelse, st)
        pc = st.pc
        s1 = st.copy()
        s1.pc = b_and(pc, c)
        if s1.pc is FALSE:
            return self.eval(node.orelse, st)
        a = self.eval(node.body, s1)
        s0 = st.copy()
        s0.pc = b_and(pc, b_not(c))
        if s0.pc is FALSE:
            b = a
            self.adopt(st, s1)
            return a
        b = self.eval(node.orelse, s0)
        # merge side effects
        env1 = s1.envs[self.stack[-1].fid]
        env0 = s0.envs[self.stack[-1].fid]
        env1['#r'] = a
        env0['#r'] = b
        m = self.merge([x for x in (s1, s0) if x.pc is not FALSE])
        if m is None:
            st.pc = FALSE
            return a
        r = m.envs[self.stack[-1].fid].pop('#r')
        self.adopt(st, m)
        return r

    def adopt(self, st, other):
        st.envs, st.heap, st.pc = other.envs, other.heap, other.pc

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        # value semantics: phi(truth(a), b, a) / phi(truth(a), a, b)
        h = self.eval(node.values[0], st)
        for nx in node.values[1:]:
            c = self.truth_h(h, st)
            for at in tm.dd_atoms(c):
                tm.SCALAR.add(at)
            pc = st.pc
            s1 = st.copy()
            s1.pc = b_and(pc, c if isand else b_not(c))
            if s1.pc is FALSE:
                continue
            b = self.eval(nx, s1)
            # adopt lazily created objects, new facts
            if isinstance(h, Val) and is_bool(h.t):
                bt = truth(self.content(b, s1))
                st.heap = s1.heap if self.pure_diff(st, s1) else st.heap
                h = Val(b_and(h.t, bt) if isand else b_or(h.t, bt))
            else:
                at_ = self.content(h, st)
                bt = self.content(b, s1)
                if is_bool(bt):
                    # used as a condition: keep boolean structure
                    h = Val(b_and(c, bt)) if isand else (
                        Val(b_or(c, bt)) if is_bool(at_) else self.phi_handle(c, h, b, st))
                else:
                    h = self.phi_handle(c, b, h, st) if isand else self.phi_handle(c, h, b, st)
                st.heap = s1.heap if self.pure_diff(st, s1) else st.heap
        return h

    def pure_diff(self, a, b):
        return True

    def e_UnaryOp(self, node, st):
        h = self.eval(node.operand, st)
        c = self.content(h, st)
        if isinstance(node.op, ast.Not):
            return Val(b_not(truth(c)))
        if isinstance(node.op, ast.USub):
            return Val(neg(c), self.shape_of(h, st))
        if isinstance(node.op, ast.UAdd):
            return Val(c)
        if isinstance(node.op, ast.Invert):
            return Val(invert(c))
        return self.unk('unary', node)

    def shape_of(self, h, st):
        if isinstance(h, Val):
            return h.shape
        if isinstance(h, Ref):
            return self.ostate(h.oid, st).shape
        return None

    def e_BinOp(self, node, st):
        a = self.eval(node.left, st)
        b = self.eval(node.right, st)
        return self.binop(node.op, a, b, st, node)

    def binop(self, op, a, b, st, node=None):
        ca, cb = self.content(a, st), self.content(b, st)
        if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        r = self.binop_t(op, ca, cb)
        sh = self.shape_of(a, st) or self.shape_of(b, st)
        return Val(r, sh)

    def binop_t(self, op, a, b):
        if isinstance(op, ast.Mod) and (a.op in ('s', 'fmt') or (a.op == 'ite' and not numericable(a))):
            return self.bm.percent_format(a, b)
        if a.op == 'mask_rd' or b.op == 'mask_rd':
            pass
        try:
            return binop_term(type(op).__name__, a, b)
        except tm.Unmodelled as e:
            return self.unk('poly', None).t

    def e_Compare(self, node, st):
        left = self.eval(node.left, st)
        r = TRUE
        for op, rn in zip(node.ops, node.comparators):
            right = self.eval(rn, st)
            r = b_and(r, self.compare(op, left, right, st))
            left = right
        return Val(r)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b, st)
            return r if isinstance(op, ast.Is) else b_not(r)
        ca, cb = self.content(a, st), self.content(b, st)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Ref) and cb.op == 'obj' and False:
                pass
            r = contains(cb, ca)
            return r if isinstance(op, ast.In) else b_not(r)
        f = {'Eq': eq, 'NotEq': ne, 'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}[type(op).__name__]
        return f(ca, cb)

    def is_(self, a, b, st):
        if isinstance(a, PhiH):
            return tm._ite_raw(a.c, self.is_(a.a, b, st), self.is_(a.b, b, st))
        if isinstance(b, PhiH):
            return tm._ite_raw(b.c, self.is_(a, b.a, st), self.is_(a, b.b, st))
        ca, cb = self.content(a, st), self.content(b, st)
        if ca is NONE or cb is NONE:
            return is_none(cb if ca is NONE else ca)
        if ca in (TRUE, FALSE) or cb in (TRUE, FALSE):
            x, y = (ca, cb) if ca in (TRUE, FALSE) else (cb, ca)
            if is_bool(y):
                return y if x is TRUE else b_not(y)
            return truth(y) if x is TRUE else b_not(truth(y))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return TRUE
        if is_bool(ca) and is_bool(cb):
            return b_not(b_xor(ca, cb))
        x, y = (ca, cb) if ca.ord <= cb.ord else (cb, ca)
        return atom(mk('is', x, y))

    def e_JoinedStr(self, node, st):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(s(v.value))
            else:
                c = self.evalc(v.value, st)
                spec = None
                if v.format_spec is not None:
                    spec = self.evalc(v.format_spec, st)
                parts.append(self.bm.fmt_part(c, spec.args[0] if spec is not None and spec.op == 's' else ''))
        return Val(fmt(parts))

    def e_FormattedValue(self, node, st):
        return Val(fmt([self.bm.fmt_part(self.evalc(node.value, st), '')]))

    def e_Lambda(self, node, st):
        fr = self.stack[-1]
        return Fn(node, fr.fn.mod, fr.fn.qual + '.<lambda>', fid=fr.fid)

    def e_Starred(self, node, st):
        return Val(mk('star', self.evalc(node.value, st)))

    def acting(self, node, st, f):
        """f(state) for a comprehension, or None (and the state as before) if its elements have effects"""
        fr = self.stack[-1]
        pre, ev0, ex0 = st.copy(), len(self.events), list(fr.exits)
        self.acts, acts = False, self.acts
        r = f(st)
        acts, self.acts = self.acts, acts
        if not acts:
            return r
        # the loop it stands for
        del self.events[ev0:]
        fr.exits[:] = ex0
        self.adopt(st, pre)
        return self.comp_loop(node, st)

    def e_ListComp(self, node, st):
        def f(st):
            r = self.comp(node.elt, node.generators, st, node)
            return self.new_obj(st, r, live=True) if isinstance(r, T) else r
        return self.acting(node, st, f)

    def comp_loop(self, node, st):
        env = st.envs[self.stack[-1].fid]
        name = '_lc%d' % node.col_offset
        d = self.desugared.get(id(node))
        if d is None:
            if isinstance(node, ast.DictComp):
                body = ast.parse('%s[k] = v' % name).body
                body[0].targets[0].slice = node.key
                body[0].value = node.value
            else:
                body = ast.parse('%s.append(x)' % name).body
                body[0].value.args[0] = node.elt
            for g in reversed(node.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            d = body[0]
            for n in ast.walk(d):
                if not hasattr(n, 'lineno'):
                    ast.copy_location(n, node)
            self.desugared[id(node)] = d
        names = [n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)]
        saved = {n: env[n] for n in names if n in env}
        env[name] = self.new_obj(st, mk('dict', ())) if isinstance(node, ast.DictComp) else self.mk_list([], st)
        s2 = self.exec_stmt(d, st)
        if s2 is None:
            st.pc = FALSE
            return Val(mk('unk', 'dead'))
        env = s2.envs[self.stack[-1].fid]
        r = env.pop(name)
        for n in names:
            env.pop(n, None)
        env.update(saved)
        self.adopt(st, s2)
        return r

    def e_SetComp(self, node, st):
        r = self.comp(node.elt, node.generators, st, node)
        t = r if isinstance(r, T) else self.content(r, st)
        return self.new_set(st, mk('setterm', t))

    def e_GeneratorExp(self, node, st):
        def f(st):
            r = self.comp(node.elt, node.generators, st, node)
            return self.new_obj(st, r) if isinstance(r, T) else r
        return self.acting(node, st, f)

    def e_DictComp(self, node, st):
        return self.acting(node, st, lambda st: self.dict_comp(node, st))

    def dict_comp(self, node, st):
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        ast.copy_location(pair, node)
        r = self.comp(pair, node.generators, st, node)
        if isinstance(r, T):
            if r.op == 'list':
                h = self.new_obj(st, mk('dict', ()))
                for x in r.args[0]:
                    self.setitem(h, ('i', x.args[0][0]), Val(x.args[0][1]), st)
                return h
            if r.op == 'map':
                (body, g), v = tm.unbind(r)
                if body.op == 'tuple':
                    return self.new_obj(st, tm.mk_bulk(mk('dict', ()), r.args[0], ('i', body.args[0][0]),
                                                       body.args[0][1], g, v))
            return Val(mk('dictof', r))
        # Ref to list
        c = self.content(r, st)
        h = self.new_obj(st, mk('dict', ()))
        if c.op == 'list':
            for i, x in enumerate(c.args[0]):
                pr = self.child(r, ('i', q(i)), st)
                self.setitem(h, ('i', self.content(self.child(pr, ('i', Q0), st), st)),
                             self.child(pr, ('i', Q1), st), st)
            return h
        return Val(mk('dictof', c))

    def comp(self, elt, gens, st, node):
        """list of elements; returns a list handle or a map term"""
        fr = self.stack[-1]
        g = gens[0]
        it = self.eval(g.iter, st)
        sp = self.iter_spec(it, st, node)
        saved = dict(st.envs[fr.fid])
        if sp[0] == 'unroll':
            hs = []
            parts = mk('list', ())
            allconst = True
            for h in sp[1]:
                self.assign(g.target, h, st)
                c = TRUE
                for t in g.ifs:
                    c = b_and(c, self.cond(t, st))
                if c is FALSE:
                    continue
                if len(gens) > 1:
                    r = self.comp(elt, gens[1:], st, node)
                    t = r if isinstance(r, T) else self.content(r, st)
                    parts = concat(parts, phi(c, t, mk('list', ())) if c is not TRUE else t)
                    allconst = False
                    continue
                pc = st.pc
                e = self.eval(elt, st)
                if c is TRUE:
                    hs.append(e)
                    parts = concat(parts, mk('list', (self.content(e, st),)))
                else:
                    allconst = False
                    parts = concat(parts, phi(c, mk('list', (self.content(e, st),)), mk('list', ())))
            st.envs[fr.fid].clear()
            st.envs[fr.fid].update(saved)
            if allconst:
                return self.mk_list(hs, st)
            return parts
        _, D, elem, guard = sp
        v = fresh_fv()
        s2 = st.copy()
        h = elem(s2, v)
        self.assign(g.target, h, s2)
        c = guard(v)
        for t in g.ifs:
            c = b_and(c, truth(self.evalc(t, s2)))
        base_pc = s2.pc
        s2.pc = b_and(s2.pc, c)
        if len(gens) > 1:
            r = self.comp(elt, gens[1:], s2, node)
            t = r if isinstance(r, T) else self.content(r, s2)
            return tm.bind('flat', D, (t, c), v)
        before, ev0, ex0 = s2.copy(), len(self.events), len(fr.exits)
        e = self.eval(elt, s2)
        if len(self.events) > ev0 or len(fr.exits) > ex0 or loops_diff(self, before, s2):
            self.acts = True
        t = self.content(e, s2)
        return tm.mk_map(D, t, c, v)

    def e_Await(self, node, st):
        return self.unk('await', node)

    def e_Yield(self, node, st):
        c = self.evalc(node.value, st) if node.value is not None else NONE
        self.event('yield', c, st, node)
        f = self.stack[-1].fn
        if any((d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)) == 'contextmanager'
               for d in getattr(f.node, 'decorator_list', ())):
            # the body of the with statement may raise
            self.raise_if(atom(mk('thrown', c)), 'thrown', st, node)
        return Val(mk('sent', c))

    # -------------------------------------------------------------- calls
    def e_Call(self, node, st):
        return self.call_expr(node, st, stmt=False)

    def call_expr(self, node, st, stmt):
        self.stats['calls'] += 1
        fnode = node.func
        # super()
        if isinstance(fnode, ast.Name) and fnode.id == 'super':
            fr = self.stack[-1]
            slf = None
            f = fr.fn
            if f.cls is not None:
                if f.slf is not None:
                    slf = f.slf
                elif f.node.args.args:
                    slf = st.envs[fr.fid].get(f.node.args.args[0].arg)
                return Super(slf if slf is not None else Val(mk('param', 'self')), f.cls)
        f = self.eval(fnode, st) if not isinstance(fnode, ast.Attribute) else None
        recv = None
        if f is None:
            recv = self.eval(fnode.value, st)
            f = self.getattr_call(recv, fnode.attr, st, fnode)
        if self.is_logging(f, st):
            return Val(NONE)
        args = []
        kwargs = {}
        maybe = []
        star = False
        for a in node.args:
            if isinstance(a, ast.Starred):
                h = self.eval(a.value, st)
                if isinstance(h, Tup):
                    args.extend(h.items)
                else:
                    c = self.content(h, st)
                    if c.op in ('list', 'tuple'):
                        args.extend(self.child(h, ('i', q(i)), st) for i in range(len(c.args[0])))
                    else:
                        args.append(Val(mk('star', c)))
                        star = True
            else:
                args.append(self.eval(a, st))
        for k in node.keywords:
            if k.arg is None:
                h = self.eval(k.value, st)
                items = self.kw_items(h, st)
                if items is not None:
                    for kk, hv in items:
                        if self.lacks(hv, st):
                            maybe.append((kk, hv))
                        else:
                            kwargs[kk] = hv
                else:
                    kwargs['**'] = h
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        if st.pc is FALSE:
            return Val(mk('unk', 'dead'))
        if maybe:
            return self.call_maybe(f, args, kwargs, maybe, st, node, stmt)
        return self.call(f, args, kwargs, st, node, stmt)

    def lacks(self, h, st):
        """the value of a key that a mapping has under a condition only"""
        if isinstance(h, PhiH):
            return self.lacks(h.a, st) or self.lacks(h.b, st)
        t = h.t if isinstance(h, Val) else self.content(h, st) if isinstance(h, (Ref, View)) else None
        return t is not None and (t.op == 'missing' or t.op == 'ite' and not is_bool(t) and
                                  not tm._leaves_all(t, lambda x: x.op != 'missing'))

    def call_maybe(self, f, args, kwargs, maybe, st, node, stmt):
        """call with keyword arguments that are given under a condition"""
        if not maybe:
            return self.call(f, args, kwargs, st, node, stmt)
        (k, h), rest = maybe[0], maybe[1:]
        t = h.t if isinstance(h, Val) else None
        if t is not None and t.op == 'missing':
            return self.call_maybe(f, args, kwargs, rest, st, node, stmt)
        if t is not None and t.op == 'ite' and self.lacks(h, st):
            h = PhiH(atom(t.args[0]), Val(t.args[1]), Val(t.args[2]))
        if isinstance(h, PhiH) and self.lacks(h, st):
            return self.cases(h, st, lambda x, ss: self.call_maybe(f, args, kwargs, [(k, x)] + rest, ss, node, stmt))
        return self.call_maybe(f, args, dict(kwargs, **{k: h}), rest, st, node, stmt)

    def kw_items(self, h, st):
        """expand **h; phi of dicts expands when the keys agree on a common set"""
        items = self.dict_items(h, st)
        if items is not None:
            if all(k.op == 's' for k, v in items):
                return [(k.args[0], v) for k, v in items]
        return None

    def is_logging(self, f, st):
        if isinstance(f, Bound):
            c = self.content(f.recv, st)
            if c.op == 'call' and c.args[0] == 'logging.getLogger':
                return True
            if f.name in ('info', 'debug', 'warning', 'warn', 'error') and c.op == 'rd' and \
                    c.args[1] == ('a', 'log'):
                return True
        if isinstance(f, Ext) and (f.name.startswith('logging.') and f.name != 'logging.getLogger'
                                   or f.name in ('builtins.print', 'warnings.warn', 'time.sleep')):
            return True
        return False

    def getattr_call(self, recv, attr, st, node):
        if isinstance(recv, (Mod, Ext, Super, Cls)):
            return self.getattr(recv, attr, st, node)
        cls = self.cls_of(recv, st)
        if cls is not None:
            if isinstance(recv, Ref):
                o = self.ostate(recv.oid, st)
                if ('a', attr) in o.kids:
                    return o.kids[('a', attr)]
            r = cls.find(self.proj, attr)
            if r is not None:
                ci, nd = r
                if is_property(nd):
                    return self.getattr(recv, attr, st, node)
                if is_static(nd):
                    return Fn(nd, ci.mod, ci.qual + '.' + attr, cls=ci)
                return Fn(nd, ci.mod, ci.qual + '.' + attr, slf=recv, cls=ci)
        if isinstance(recv, Ref):
            o = self.ostate(recv.oid, st)
            if ('a', attr) in o.kids and isinstance(o.kids[('a', attr)], (Fn, Bound, Ext)):
                return o.kids[('a', attr)]
        return Bound(recv, attr)

    def cases(self, h, st, f):
        """f(branch, state) for the branches of a choice, merged"""
        s1 = st.copy()
        s1.pc = b_and(st.pc, h.c)
        s0 = st.copy()
        s0.pc = b_and(st.pc, b_not(h.c))
        outs = []
        fid = self.stack[-1].fid
        for ss, x in ((s1, h.a), (s0, h.b)):
            if ss.pc is FALSE:
                continue
            r = f(x, ss)
            if ss.pc is not FALSE:
                ss.envs[fid]['#c'] = r
                outs.append(ss)
        m = self.merge(outs)
        if m is None:
            st.pc = FALSE
            return Val(mk('unk', 'dead'))
        r = m.envs[fid].pop('#c')
        self.adopt(st, m)
        return r

    def call_kw(self, f, args, kwargs, h, st, node, stmt):
        """call with **h, h a choice among mappings"""
        if isinstance(h, PhiH):
            return self.cases(h, st, lambda x, ss: self.call_kw(f, args, kwargs, x, ss, node, stmt))
        if isinstance(h, Val) and h.t.op == 'missing':
            self.raise_if(TRUE, 'KeyError', st, node)
            st.pc = FALSE
            return Val(mk('unk', 'dead'))
        kwargs = dict(kwargs)
        items = self.kw_items(h, st)
        if items is None:
            kwargs['**'] = h
        else:
            kwargs.update(items)
        return self.call(f, args, kwargs, st, node, stmt)

    def call(self, f, args, kwargs, st, node, stmt=False):
        if isinstance(f, PhiH):
            return self.cases(f, st, lambda x, ss: self.call(x, args, kwargs, ss, node, stmt))
        if isinstance(kwargs.get('**'), PhiH):
            kwargs = dict(kwargs)
            h = kwargs.pop('**')
            return self.call_kw(f, args, kwargs, h, st, node, stmt)
        if isinstance(f, Fn):
            if self.should_inline(f) or stmt and self.empty_arg(f, args, kwargs, st):
                return self.call_fn(f, args, kwargs, st, node, stmt)
            return self.opaque_fn(f, args, kwargs, st, node, stmt)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st, node, stmt)
        if isinstance(f, Gen) and f.kind == 'partial':
            (g, *a), k = f.parts
            return self.call(g, list(a) + list(args), dict(dict(k), **kwargs), st, node, stmt)
        if isinstance(f, Ext):
            r = self.bm.call_ext(self, f.name, args, kwargs, st, node, stmt)
            if r is not None:
                return r
            return self.opaque_ext(f.name, args, kwargs, st, node, stmt)
        if isinstance(f, Bound):
            r = self.bm.call_method(self, f.recv, f.name, args, kwargs, st, node, stmt)
            if r is not None:
                return r
            return self.opaque_method(f.recv, f.name, args, kwargs, st, node, stmt)
        # calling a value
        if isinstance(f, View) and f.key[0] == 'a' and isinstance(f.key[1], str):
            return self.call(self.getattr_call(f.base, f.key[1], st, node), args, kwargs, st, node, stmt)
        if isinstance(f, Ref):
            o = self.ostate(f.oid, st)
            if o is not None and o.origin is not None and o.origin[1][0] == 'a' and not o.kids and \
                    o.base.op == 'rd' and o.base.args[1] == o.origin[1] and o.origin[0] in st.heap:
                # a method that was looked up before it is called
                return self.call(Bound(Ref(o.origin[0]), o.origin[1][1]), args, kwargs, st, node, stmt)
        cls = self.cls_of(f, st)
        if cls is not None:
            r = cls.find(self.proj, '__call__')
            if r is not None:
                ci, nd = r
                return self.call_fn(Fn(nd, ci.mod, ci.qual + '.__call__', slf=f, cls=ci), args, kwargs, st, node)
        c = self.content(f, st)
        if c.op == 'rd' and c.args[1][0] == 'a' and isinstance(c.args[1][1], str):
            return self.call(Bound(Val(c.args[0]), c.args[1][1]), args, kwargs, st, node, stmt)
        if c.op == 'ite' and not is_bool(c) and tm._leaves_all(c, lambda x: x.op in ('fn', 'g', 'cls')):
            return self.call(self.dd_to_phi(c), args, kwargs, st, node, stmt)
        if c.op == 'g':
            return self.call(Ext(c.args[0]), args, kwargs, st, node, stmt)
        if c.op == 'fn' and len(c.args) == 1 and c.args[0] in self.proj.functions:
            nd, m, ci = self.proj.functions[c.args[0]]
            return self.call(Fn(nd, m, c.args[0], cls=ci), args, kwargs, st, node, stmt)
        at = tuple(self.content(a, st) for a in args)
        kt = tuple(sorted((k, self.content(v, st)) for k, v in kwargs.items()))
        self.note_risky('<value>', at, st)
        t = tm.liftn(lambda xs: mk('vcall', xs[0], tuple(xs[1:1 + len(at)]),
                                   tuple((k, x) for (k, _), x in zip(kt, xs[1 + len(at):]))),
                     [c] + list(at) + [v for k, v in kt])
        if stmt:
            self.event('call', t, st, node)
        return self.new_obj(st, t)

    def empty_arg(self, f, args, kwargs, st):
        """a procedure that is given an empty container may have nothing to do"""
        if len(self.stack) > self.max_depth or has_yield(f.node) or \
                any(fr.fn.node is f.node for fr in self.stack) or len(f.node.body) > 4:
            return False
        return any(isinstance(a, (Val, Ref, View)) and self.content(a, st) in (mk('dict', ()), mk('list', ()))
                   for a in list(args) + [v for k, v in kwargs.items() if k != '**'])

    def dd_to_phi(self, c):
        if c.op == 'ite':
            return PhiH(atom(c.args[0]), self.dd_to_phi(c.args[1]), self.dd_to_phi(c.args[2]))
        if c.op == 'g':
            return Ext(c.args[0])
        if c.op == 'fn' and c.args[0] in self.proj.functions:
            nd, m, ci = self.proj.functions[c.args[0]]
            return Fn(nd, m, c.args[0], cls=ci)
        return Val(c)

    def should_inline(self, fn, prop=False):
        if len(self.stack) > self.max_depth:
            return False
        if any(fr.fn.node is fn.node for fr in self.stack):
            return False
        if isinstance(fn.node, ast.Lambda):
            return True
        if has_yield(fn.node):
            return False
        q_ = fn.qual
        if q_ in self.opaque:
            return False
        if q_ in self.inline:
            return True
        if '<locals>' in q_:
            return True
        name = fn.node.name
        if prop:
            return True
        if name.startswith('_') and not (name.startswith('__') and name.endswith('__')):
            return True
        if q_ not in self.baseline:
            return True
        return False

    def bind_args(self, fn, args, kwargs, st, node):
        """dict param -> handle; None when the call does not fit"""
        a = fn.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        pos = list(args)
        if fn.slf is not None and not is_static(fn.node):
            pos = [fn.slf] + pos
        elif fn.cls is not None and is_classm(fn.node):
            pos = [Cls(fn.cls)] + pos
        env = {}
        extra = []
        for i, h in enumerate(pos):
            if i < len(params):
                env[params[i]] = h
            else:
                extra.append(h)
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            return None
        rest = {}
        for k, h in kwargs.items():
            if k == '**':
                rest[k] = h
            elif k in params or k in kwonly:
                if k in env:
                    return None
                env[k] = h
            else:
                rest[k] = h
        if a.kwarg is not None:
            d = self.new_obj(st, mk('dict', ()))
            for k, h in rest.items():
                if k == '**':
                    self.dict_update(d, h, st)
                else:
                    self.setitem(d, ('i', s(k)), h, st)
            env[a.kwarg.arg] = d
            rest = {}
        # defaults
        defaults = a.defaults
        for nm, dn in zip(params[len(params) - len(defaults):], defaults):
            if nm not in env:
                env[nm] = self.default_val(fn, dn, st, rest, nm)
        for x, dn in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and dn is not None:
                env[x.arg] = self.default_val(fn, dn, st, rest, x.arg)
        if '**' in rest:
            d = rest.pop('**')
            for nm in params + kwonly:
                if nm not in env:
                    env[nm] = self.child(d, ('i', s(nm)), st)
        if rest:
            return None
        for nm in params + kwonly:
            if nm not in env:
                return None
        return env

    def default_val(self, fn, dn, st, rest, nm):
        if '**' in rest:
            d = rest['**']
            c = has(self.content(d, st), s(nm))
            dv = self._default(fn, dn, st)
            if c is FALSE:
                return dv
            return self.phi_handle(c, self.child(d, ('i', s(nm)), st), dv, st)
        return self._default(fn, dn, st)

    def _default(self, fn, dn, st):
        fr = Frame(-10 ** 9, Fn(fn.node, fn.mod, fn.qual, fid=fn.fid))
        st.envs.setdefault(-10 ** 9, {})
        self.stack.append(fr)
        try:
            return self.eval(dn, st)
        finally:
            self.stack.pop()

    def call_fn(self, fn, args, kwargs, st, node, stmt=False):
        """inline"""
        env = self.bind_args(fn, args, kwargs, st, node)
        if env is None:
            self.unk('call does not fit signature: ' + fn.qual, node)
            return self.new_obj(st, mk('badcall', fn.qual))
        self.stats['inlined'] += 1
        self.stats['funcs'].add(fn.qual)
        return self.run_body(fn, env, st, node, stmt)

    def run_body(self, fn, env, st, node, stmt=False):
        self.fidc += 1
        fid = self.fidc
        if not hasattr(self, 'fparent'):
            self.fparent = {}
        self.fparent[fid] = fn.fid
        st.envs[fid] = env
        fr = Frame(fid, fn)
        fr.stmt = stmt
        self.stack.append(fr)
        pc0 = st.pc
        try:
            if isinstance(fn.node, ast.Lambda):
                h = self.eval(fn.node.body, st)
                self.stack.pop()
                st.envs.pop(fid, None)
                self.stack.append(fr)
                # lambda has no exits of its own
                if fr.exits and len(self.stack) > 1:
                    self.stack[-2].exits.extend(fr.exits)
                return h
            r = self.exec_block(fn.node.body, st)
        finally:
            self.stack.pop()
        outs = []
        for e in fr.exits:
            if e.pc is FALSE:
                continue
            if e.kind == 'return':
                s2 = State(e.state.envs, e.state.heap, e.pc)
                s2.envs = dict(s2.envs)
                s2.envs[fid] = {'#ret': e.val}
                outs.append(s2)
            elif e.kind == 'raise':
                if self.stack:
                    self.stack[-1].exits.append(e)
                else:
                    self.top_raises.append(e)
        if r is not None and r.pc is not FALSE:
            r.envs = dict(r.envs)
            r.envs[fid] = {'#ret': Val(NONE)}
            outs.append(r)
        m = self.merge(outs)
        if m is None:
            st.pc = FALSE
            return Val(mk('unk', 'noreturn'))
        h = m.envs[fid]['#ret']
        del m.envs[fid]
        self.adopt(st, m)
        return h

    # opaque calls -----------------------------------------------------------
    def note_risky(self, name, terms, st):
        if self.risky is not None:
            fv = set()
            for t in terms:
                if isinstance(t, T):
                    fv |= t.fvs
            self.risky.append((name, fv, st.copy(), None))

    def opaque_fn(self, fn, args, kwargs, st, node, stmt):
        env = self.bind_args(fn, args, kwargs, st, node)
        q_ = self.alias.get(fn.qual, fn.qual)
        if env is None:
            self.note_risky(q_, (), st)
            at = tuple(self.content(a, st) for a in args)
            kt = tuple(sorted((k, self.content(v, st)) for k, v in kwargs.items()))
            t = mk('badcall', q_, at, kt)
            if stmt:
                self.event('call', t, st, node)
            return self.new_obj(st, t)
        kt = sorted((k, self.content(v, st)) for k, v in env.items())
        touch = self.touched(fn) if fn.slf is not None else None
        me = fn.node.args.args[0].arg if touch is not None else None
        if touch is not None:
            kt = [(k, restrict(v, touch[0]) if k == me else v) for k, v in kt]
        self.note_risky(q_, [v for k, v in kt], st)
        t = tm.liftn(lambda xs: mk('call', q_, (), tuple((k, x) for (k, _), x in zip(kt, xs))),
                     [v for k, v in kt])
        self.rng_args(env.values(), t, st)
        if stmt:
            self.event('call', t, st, node)
            mut = self.mutated(fn)
            for k, h in env.items():
                if mut is None or k in mut:
                    if k == me and isinstance(h, Ref):
                        self.mutate_self(h, mk('after', t, k), touch, st)
                    else:
                        self.mutate(h, mk('after', t, k), st)
        return self.new_obj(st, t)

    def touched(self, fn):
        """attributes a method may use and rebind, in either tree; None when unknown"""
        from .effects import self_touch
        if not fn.node.args.args:
            return None
        a, b = set(), set()
        q_ = self.alias.get(fn.qual, fn.qual)
        for p in self.projs or (self.proj,):
            for q in {fn.qual, q_}:
                if q in p.functions:
                    nd, m, ci = p.functions[q]
                    r = self_touch(p, Fn(nd, m, q, cls=ci))
                    if r is None:
                        return None
                    a |= r[0]
                    b |= r[1]
        return a, b

    def mutate_self(self, h, t, touch, st):
        """a method has run on an object: only the attributes it uses can have changed"""
        for x in sorted(touch[0]):
            k = ('a', x)
            c = self.child(h, k, st)
            new = tm.rd(t, k)
            if x not in touch[1] and isinstance(c, Ref):
                self.set_base(c, new, st)
            else:
                self.store_key(h, k, new, st)

    def rng_args(self, hs, t, st):
        """an opaque callee that receives a random state advances it"""
        for h in hs:
            c = self.content(h, st)
            if is_rng(c) and isinstance(h, Ref):
                self.set_base(h, mk('adv', c, mk('by', self.call_head(t))), st)

    def call_head(self, t):
        return s(t.args[0]) if t.op == 'call' and isinstance(t.args[0], str) else s(t.op)

    def mutated(self, fn):
        """parameters of a project function that it may mutate in place (syntactic,
        transitive through direct aliases); None = unknown"""
        from .effects import mutated_params
        q_ = self.alias.get(fn.qual, fn.qual)
        if self.mutproj is not None and q_ in self.mutproj.functions:
            nd, m, ci = self.mutproj.functions[q_]
            return mutated_params(self.mutproj, Fn(nd, m, q_, cls=ci))
        return mutated_params(self.proj, fn)

    def mutate(self, h, t, st):
        if isinstance(h, (Ref, PhiH)):
            self.set_base(h, t, st)

    def opaque_ext(self, name, args, kwargs, st, node, stmt):
        at = [self.content(a, st) for a in args]
        ks = sorted(kwargs)
        kt = [self.content(kwargs[k], st) for k in ks]
        if not self.bm.pure_ext(name):
            self.note_risky(name, at + kt, st)
        n = len(at)
        t = tm.liftn(lambda xs: mk('call', name, tuple(xs[:n]), tuple(zip(ks, xs[n:]))), at + kt)
        if name == 'numpy.unravel_index':
            # of the pixels of an image: rows and columns
            return Tup([Val(tm.rd(t, ('i', tm.q(i)))) for i in range(2)])
        self.rng_args(list(args) + list(kwargs.values()), t, st)
        if stmt:
            self.event('call', t, st, node)
            if not self.bm.pure_ext(name):
                for i, h in enumerate(args):
                    self.mutate(h, mk('after', t, i), st)
                for k, h in kwargs.items():
                    self.mutate(h, mk('after', t, k), st)
        return self.new_obj(st, t)

    def opaque_method(self, recv, name, args, kwargs, st, node, stmt):
        rt = self.content(recv, st)
        if args and rt.op == 'call' and rt.args[0].startswith('new:'):
            # arguments of methods of the project's classes by name
            ci = self.proj.classes.get(rt.args[0][4:])
            r = ci.find(self.proj, name) if ci is not None else None
            if r is not None:
                ps = [x.arg for x in r[1].args.posonlyargs + r[1].args.args][1:]
                if len(args) <= len(ps) and not set(ps[:len(args)]) & set(kwargs):
                    kwargs = dict(kwargs)
                    kwargs.update(zip(ps, args))
                    args = []
        at = [self.content(a, st) for a in args]
        ks = sorted(kwargs)
        kt = [self.content(kwargs[k], st) for k in ks]
        n = len(at)
        if not self.bm.pure_method(name):
            self.note_risky('.' + name, [rt] + at + kt, st)
        if is_rng(rt) or name in RNG_METHODS and not isinstance(recv, Ext):
            call = rng_call(name, at, dict(zip(ks, kt)))
            t = mk('draw', rt, call)
            self.set_base(recv, mk('adv', rt, call), st)
            if stmt:
                self.event('call', t, st, node)
            return self.new_obj(st, t)
        t = tm.liftn(lambda xs: mk('mcall', name, xs[0], tuple(xs[1:1 + n]), tuple(zip(ks, xs[1 + n:]))),
                     [rt] + at + kt)
        self.rng_args(list(args) + list(kwargs.values()), t, st)
        if name == 'enter_context' and not stmt and len(at) == 1 and not ks:
            # used for its value: what __enter__ returns
            self.event('call', t, st, node)
            self.mutate(recv, mk('after', t, 'self'), st)
            ci = self.cls_of(args[0], st)
            if ci is None and at[0].op == 'call' and at[0].args[0].startswith('new:'):
                ci = self.proj.classes.get(at[0].args[0][4:])
            r = ci.find(self.proj, '__enter__') if ci is not None else None
            if r is not None and isinstance(r[1].body[-1], ast.Return) and isinstance(r[1].body[-1].value, ast.Name) \
                    and r[1].body[-1].value.id == r[1].args.args[0].arg and \
                    sum(isinstance(x, ast.Return) for x in ast.walk(r[1])) == 1:
                return args[0]
            return self.new_obj(st, mk('enter', at[0]))
        if stmt and name in SETTERS and len(at) == 1 and not ks and rt.op != 'mcall':
            # one component of the object
            self.store_key(recv, ('a', name), at[0], st)
        elif stmt:
            self.event('call', t, st, node)
            if name == 'enter_context':
                self.mutate(recv, mk('after', t, 'self'), st)
            elif not self.bm.pure_method(name):
                self.mutate(recv, mk('after', t, 'self'), st)
                if isinstance(recv, View):
                    # an object, it has a method
                    self.store_key(recv.base, recv.key, mk('after', t, 'self'), st)
                for i, h in enumerate(args):
                    self.mutate(h, mk('after', t, i), st)
                for k, h in kwargs.items():
                    self.mutate(h, mk('after', t, k), st)
        return self.new_obj(st, t)

    def inline_class(self, info):
        if info.qual in self.inline:
            return True
        if self.baseline_classes is not None and info.qual not in self.baseline_classes:
            # new helper class without external bases
            return all(isinstance(b, ast.Name) and b.id == 'object' for b in info.node.bases) or not info.node.bases
        return False

    def instantiate(self, f, args, kwargs, st, node, stmt):
        info = f.info
        if self.inline_class(info):
            h = self.new_obj(st, mk('new', info.qual), cls=info)
            r = info.find(self.proj, '__init__')
            if r is not None:
                ci, nd = r
                self.call_fn(Fn(nd, ci.mod, ci.qual + '.__init__', slf=h, cls=ci), args, kwargs, st, node)
            return h
        r = info.find(self.proj, '__init__')
        if r is not None:
            ci, nd = r
            env = self.bind_args(Fn(nd, ci.mod, ci.qual + '.__init__', slf=Val(mk('new')), cls=ci),
                                 args, kwargs, st, node)
            if env is not None:
                env.pop(nd.args.args[0].arg, None)
                kt = sorted((k, self.content(v, st)) for k, v in env.items())
                self.note_risky(info.qual, [v for k, v in kt], st)
                t = tm.liftn(lambda xs: mk('call', 'new:' + info.qual, (),
                                           tuple((k, x) for (k, _), x in zip(kt, xs))), [v for k, v in kt])
                self.rng_args(env.values(), t, st)
                if stmt:
                    self.event('call', t, st, node)
                return self.new_obj(st, t)
        at = tuple(self.content(a, st) for a in args)
        kt = tuple(sorted((k, self.content(v, st)) for k, v in kwargs.items()))
        self.note_risky(info.qual, at + tuple(v for k, v in kt), st)
        t = mk('call', 'new:' + info.qual, at, kt)
        self.rng_args(list(args) + list(kwargs.values()), t, st)
        if stmt:
            self.event('call', t, st, node)
        return self.new_obj(st, t)

    # -------------------------------------------------------------- entry points
    def analyse(self, qual, types=None, consts=None, notnone=()):
        """summarise a project function: dict(ret, raises, params(final), events, pc)"""
        node, m, ci = self.proj.functions[qual]
        fn = Fn(node, m, qual, cls=ci)
        tm._fresh[0] = self.fresh0
        self.stats['funcs'].add(qual)
        st = State({}, {}, TRUE)
        self.events = []
        self.unmodelled = []
        self.lost = set()
        self.top_raises = []
        self.risky = None
        self.quiet = 0
        self.keptpaths, self.copypaths = set(), set()
        if self.rawloops is not None:
            self.rawloops, self.loopno = [], 0
        env = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        # prime the module environment before parameters get object ids
        self.module_env(m.name)
        self.fparent = getattr(self, 'fparent', {})
        self.params = {}
        for i, n in enumerate(names):
            if consts and n in consts:
                c = consts[n]
                env[n] = Val(c if isinstance(c, T) else const(c))
                continue
            cls = None
            if ci is not None and i == 0 and not is_static(node):
                pt = mk('param', 'self')
                cls = ci
            else:
                pt = mk('param', n, 'given') if notnone and n in notnone else mk('param', n)
            env[n] = self.new_obj(st, pt, cls=cls)
            self.params[n] = env[n]
        if a.vararg is not None:
            env[a.vararg.arg] = self.new_obj(st, mk('param', '*' + a.vararg.arg))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_obj(st, mk('param', '**' + a.kwarg.arg))
        h = self.run_body(fn, dict(env), st, node)
        res = Summary()
        res.qual = qual
        res.node = node
        res.mod = m
        res.pc = st.pc
        res.raises = {}
        for e in self.top_raises:
            nm = e.val.t.args[0]
            res.raises[nm] = b_or(res.raises.get(nm, FALSE), e.pc)
        if st.pc is FALSE:
            res.ret = mk('noreturn')
            res.params = {'<globals>': mk('tuple', ())}
        else:
            res.ret = finalize(constrain_deep(self.content(h, st), st.pc))
            res.params = {}
            for n, ph in self.params.items():
                c = self.content(ph, st)
                pt = mk('param', 'self') if (ci is not None and n == names[0] and not is_static(node)) else mk('param', n)
                key = 'self' if pt is mk('param', 'self') else n
                res.params[key] = finalize(constrain_deep(c, st.pc))
            res.params['<globals>'] = self.changed_globals(st)
            res.shared = self.shared_globals(h, st)
            res.made = self.shared_globals(Tup([Ref(o) for o in self.gheap]), State({}, dict(self.gheap), TRUE))
            res.owners = self.owners(h, st)
            res.kept, res.copied = self.keptpaths - self.copypaths, self.copypaths - self.keptpaths
        res.pulled = any(o in st.heap for o in self.gheap)
        res.raises = {k: finalize(v) for k, v in res.raises.items()}
        res.events = [(k, finalize(t), finalize(pc), src) for k, t, pc, src in self.events]
        res.unmodelled = list(self.unmodelled)
        res.lost = set(self.lost)
        res.scalars = set(self.scalars)
        res.loops = None
        if self.rawloops is not None:
            res.needs = list(dict.fromkeys((finalize(t), j, finalize(pc)) for t, j, pc in self.needs))
            res.loops = [(k, {n: finalize(t) for n, t in rec.items()}, src) for k, rec, src in self.rawloops]
        return res


def attr_path(t):
    """the names of the attributes on the way to a part of an argument"""
    out = []
    while t.op == 'rd':
        if t.args[1][0] == 'a':
            out.append(t.args[1][1])
        t = t.args[0]
    return tuple(out)


class Summary(object):
    shared = made = frozenset()
    owners = {}
    kept = copied = frozenset()


def is_rng(c):
    if c.op == 'adv':
        return True
    if c.op == 'param' and c.args[0] in ('rng',):
        return True
    if c.op == 'rd' and c.args[1] == ('a', 'rng'):
        return True
    if c.op == 'call' and str(c.args[0]).endswith(('RandomState', 'default_rng')):
        return True
    if c.op == 'cv':
        return False
    return False


def constrain_deep(t, pc):
    return constrain(t, pc)


def mk_slice(lo, hi, step):
    if lo is Q0:
        lo = NONE
    if step is Q1:
        step = NONE
    return mk('slice', lo, hi, step)


def invert(c):
    if is_bool(c):
        return b_not(c)
    if c.op == 'truthy_arr':
        return c
    if c.op == 'q':
        return mk('inv', c)
    return mk('inv', c)


def unmask(t, m):
    """y with y[m] read through the same mask m removed (for x[m] op= f(y[m]))"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x.op == 'rd' and x.args[1] == ('i', m):
            return x.args[0]
        if x.op in ('num', 'or', 'ite'):
            r = memo.get(x)
            if r is None:
                na = tuple(go(a) for a in x.args)
                r = x if na == x.args else tm.rebuild(x.op, na)
                memo[x] = r
            return r
        return x
    return go(t)


def binop_term(name, a, b):
    if name == 'Add':
        return add(a, b)
    if name == 'Sub':
        if a.op in ('set', 'setterm') or b.op in ('set', 'setterm'):
            return mk('setsub', a, b)
        return sub(a, b)
    if name == 'Mult':
        return mul(a, b)
    if name == 'Div':
        return div(a, b)
    if name == 'Pow':
        return power(a, b)
    if name == 'BitOr':
        return bitor(a, b)
    if name == 'BitAnd':
        return bitand(a, b)
    if name == 'BitXor':
        if is_bool(a) and is_bool(b):
            return b_xor(a, b)
        x, y = sorted((a, b), key=lambda z: z.ord)
        return mk('xor', x, y)
    if name == 'FloorDiv':
        if a.op == 'q' and b.op == 'q' and b.args[0] != 0:
            return q(a.args[0] // b.args[0])
        return _lift2op('floordiv', a, b)
    if name == 'Mod':
        if a.op == 'q' and b.op == 'q' and b.args[0] != 0:
            return q(a.args[0] % b.args[0])
        return _lift2op('mod', a, b)
    if name == 'LShift':
        if a.op == 'q' and b.op == 'q':
            return q(int(a.args[0]) << int(b.args[0]))
        return mk('shift', a, b)
    if name == 'RShift':
        if a.op == 'q' and b.op == 'q':
            return q(int(a.args[0]) >> int(b.args[0]))
        return mk('rshift', a, b)
    if name == 'MatMult':
        return mk('call', 'numpy.dot', (), (('a', a), ('b', b)))
    return mk('unk', 'binop ' + name)


def _lift2op(op, a, b):
    return tm.liftn(lambda xs: mk(op, xs[0], xs[1]), [a, b])


def dict_merge(a, b):
    """a.update(b) for opaque b"""
    if b.op == 'ite' and not is_bool(b):
        r = tm.lift2(dict_merge, a, b)
        if r is not None:
            return r
    if b.op == 'dict':
        d = {}
        for k, v in b.args[0]:
            d[('i', k)] = v
        r = a
        for k, v in d.items():
            r = tm.store(r, k, v)
        return r
    if b.op == 'obj' and b.args[0].op != 'dict':
        r = dict_merge(a, b.args[0])
        for k, v in b.args[1]:
            r = tm.store(r, k, v)
        return r
    if a.op == 'dict' and not a.args[0]:
        return b
    if b.op == 'bulk' and b.args[0][0].op == 'dict' and not b.args[0][0].args[0]:
        bodies, v = tm.unbind(b)
        return tm.mk_bulk(a, b.args[0][1], *bodies, v)
    return mk('upd', a, b)


# ------------------------------------------------------------------ final normalisation
_fin_memo = {}


def finalize(t):
    """bottom-up: apply the theory of mutually exclusive atoms inside every diagram"""
    if not isinstance(t, T):
        return t
    from .theory import finalize as f
    return f(t)
