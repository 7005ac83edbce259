"""Compare the package with a reference model of its behaviour, function by function.

Both trees are abstracted by the same interpreter into normal-form terms.  Functions
that exist on both sides with the same parameters are opaque to each other (modular
comparison); everything that exists on one side only is inlined.

status of a function
  EQUAL      both summaries are the same terms: same behaviour
  DIFFERENT  some observable component is a different term, and nothing the analysis
             had to approximate takes part in the difference
  UNKNOWN    the analysis cannot tell (approximated construct, size or time limit)
"""
import ast
import os
import signal
import time

from . import terms as tm
from . import randint
from . import facts
from .theory import finalize
from .terms import T, show, mk
from .interp import Project, Interp, Fn, Cls

EQUAL, DIFFERENT, UNKNOWN = 'EQUAL', 'DIFFERENT', 'UNKNOWN'

# operators whose normal form depends on how the loop is written
WEAK = frozenset(['fold', 'foldj', 'foldproj', 'carried', 'acc', 'accj', 'prev', 'cv', 'evloop', 'midloop'])


class Timeout(Exception):
    pass


class limit(object):
    def __init__(self, sec):
        self.sec = sec

    def _fire(self, *a):
        raise Timeout()

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def signature(node):
    a = node.args
    return (tuple(x.arg for x in a.posonlyargs + a.args), tuple(sorted(x.arg for x in a.kwonlyargs)),
            a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None)


def allnames(sig):
    return set(sig[0]) | set(sig[1]) | {sig[2], sig[3]}


def is_private(qual):
    n = qual.rsplit('.', 1)[-1]
    return n.startswith('_') and not n.startswith('__')


class Diff(object):
    """one differing component"""

    def __init__(self, comp, a, b, pairs, weak):
        self.comp, self.a, self.b, self.pairs, self.weak = comp, a, b, pairs, weak
        self.kept = False


class Result(object):
    full = False           # as many interpretations as intended

    def __init__(self, qual, status, diffs=(), why='', inlined=()):
        self.qual, self.status, self.diffs, self.why, self.inlined = qual, status, list(diffs), why, tuple(inlined)


def weakset(t):
    """maximal approximated subterms"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in WEAK:
            out.add(x)
            continue
        st.extend(x.args)
    return out


def mindiff(a, b, under=False, out=None, seen=None, budget=None):
    """minimal differing pairs of two terms: [(x, y, under_weak)]"""
    if out is None:
        out, seen = [], set()
    if a is b or len(out) > 40:
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            mindiff(x, y, under, out, seen)
        return out
    if isinstance(a, T) and isinstance(b, T):
        if (a, b) in seen:
            return out
        seen.add((a, b))
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('num', 'or', 'q', 's'):
            if a.op == 'ite' and a.args[0] is not b.args[0]:
                out.append((a, b, under))
                return out
            if a.op in ('acc', 'accj', 'cv'):
                out.append((a, b, under))
                return out
            aa, ba = a.args, b.args
            if a.op in tm.BINDERS and len(aa) == 3 and isinstance(aa[2], int) and isinstance(ba[2], int):
                if aa[2] != ba[2]:
                    v = tm.fresh_fv()
                    aa = (aa[0], tm.unbind(a, v)[0])
                    ba = (ba[0], tm.unbind(b, v)[0])
            if a.op == 'foldproj' and aa[1] != ba[1]:
                out.append((a, b, under))
                return out
            if a.op in ('fold', 'foldj', 'carried', 'prev', 'midloop'):
                # the step functions can be set against each other only when the loops agree
                # otherwise
                if aa[0] is not ba[0] and aa[0] != ba[0] or \
                        a.op == 'foldj' and (len(aa[1]) != len(ba[1]) or
                                             sum(x is not y for x, y in zip(aa[1], ba[1])) > 1) or \
                        a.op == 'carried' and aa[1] is not ba[1] or \
                        a.op == 'midloop' and aa[1][0] is not ba[1][0]:
                    out.append((a, b, under))
                    return out
            u = under or a.op in WEAK
            # same shape?
            if all(type(x) is type(y) and (not isinstance(x, tuple) or len(x) == len(y))
                   for x, y in zip(aa, ba)):
                n0 = len(out)
                for x, y in zip(aa, ba):
                    mindiff(x, y, u, out, seen)
                if len(out) > n0:
                    return out
        out.append((a, b, under))
        return out
    if a != b:
        out.append((a, b, under))
    return out


def tainted(x):
    return tm._walk_taint(x)


def classify(a, b):
    """(pairs, weak?) for a differing component"""
    pairs = mindiff(a, b)
    clean = []
    for x, y, under in pairs:
        if tainted(x) or tainted(y):
            continue
        if isinstance(x, T) and isinstance(y, T) and weakset(x) != weakset(y):
            continue
        clean.append((x, y, under))
    return pairs, not clean


class Comparer(object):
    def __init__(self, repo, spec, tlimit=8.0, overlay=None):
        self.R = Project(repo, overlay=overlay)
        self.S = Project(spec)
        randint.set_arity(m.tree for m in self.S.modules.values())
        facts.install(self.R, self.S)
        self.tlimit = tlimit
        self.trials, self.evals = TRIALS
        self.always = bool(os.environ.get('MDSA_ALWAYS'))     # self-test: interpret equal normal forms too
        self.disagree = []
        self.memo = {}
        self.casememo = {}
        self.fresh0 = {}
        self.alias = {}
        self.cmemo = {}
        self.stats = dict(pairs=0, terms=0, inlined=0, stmts=0, calls=0)
        self.analysed = set()
        self._aliases()
        self.common = set()
        self.extended = {}
        for q in self.S.functions:
            rq = self.rq(q)
            if rq is None:
                continue
            sr, ss = signature(self.R.functions[rq][0]), signature(self.S.functions[q][0])
            if sr == ss:
                self.common.add(q)
            else:
                self.extended[q] = (sr, ss)

    # functions that moved to another module but are still importable from the old one
    def _aliases(self):
        self.ralias = {}
        for q in self.S.functions:
            if q in self.R.functions:
                continue
            mod, _, nm = q.rpartition('.')
            m = self.R.modules.get(mod)
            h = self.R.static_resolve(m.static.get(nm)) if m is not None else None
            if isinstance(h, Fn) and h.qual in self.R.functions:
                self.alias[q] = h.qual
                self.ralias[h.qual] = q
                continue
            # methods: of a moved class, or now inherited from a helper base class
            cm, _, cn = mod.rpartition('.')
            m = self.R.modules.get(cm)
            h = self.R.static_resolve(m.static.get(cn)) if m is not None else None
            if isinstance(h, Cls):
                r = h.info.find(self.R, nm)
                if r is not None:
                    rq = r[0].qual + '.' + nm
                    self.alias[q] = rq
                    self.ralias.setdefault(rq, q)

    def rq(self, q):
        if q in self.R.functions:
            return q
        return self.alias.get(q)

    def interp(self, side, qual, inline):
        proj = self.R if side == 'r' else self.S
        op = self.common - inline - {qual}
        if side == 'r':
            op = {self.rq(x) for x in op}
        I = Interp(proj, baseline=set(op), opaque=op, inline=set(inline) | {qual})
        I.baseline_classes = set(self.S.classes) | {self.ralias.get(c, c) for c in ()}
        I.alias = self.ralias if side == 'r' else {}
        I.mutproj = self.S
        I.projs = (self.S, self.R)
        I.fresh0 = self.fresh0.get(side, 0)
        return I

    def none_cases(self, qual):
        """case analysis on which optional arguments are left out: [(left out, given)]"""
        r = self.casememo.get(qual)
        if r is not None:
            return r
        node = self.S.functions[qual][0]
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        opt = {n for n, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) +
               [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
               if isinstance(d, ast.Constant) and d.value is None}
        tested, stored = set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and len(n.ops) == 1 and \
                    isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and \
                    n.comparators[0].value is None and n.left.id in opt:
                tested.add(n.left.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored.add(n.id)
        ps = sorted(tested, key=lambda n: (n not in stored, n))[:2]
        cases = [((), ())]
        for n in ps:
            cases = [(x + (n,), y) for x, y in cases] + [(x, y + (n,)) for x, y in cases]
        self.casememo[qual] = cases
        return cases

    def summary(self, side, qual, inline, consts=None, case=((), ()), raw=False, ren=None):
        k = (side, qual, frozenset(inline), case) + (('raw', tuple(sorted(ren.items())) if ren else None) if raw else ())
        if case[0]:
            consts = dict(consts or {}, **{n: None for n in case[0]})
        if k in self.memo:
            return self.memo[k]
        I = self.interp(side, qual, set(inline))
        if raw:
            I.rawloops = []
            I.rawnames = ren or {}
        q = self.rq(qual) if side == 'r' else qual
        try:
            with limit(self.tlimit):
                r = I.analyse(q, consts=consts, notnone=case[1])
        except Timeout:
            r = 'time limit'
        except RecursionError:
            r = 'recursion limit'
        except tm.Unmodelled as e:
            r = 'size limit: %s' % e
        except MemoryError:
            r = 'memory'
        for a in ('inlined', 'stmts', 'calls'):
            self.stats[a] += I.stats.get(a, 0)
        self.analysed |= {(side, x) for x in I.stats['funcs']}
        self.memo[k] = r
        return r

    def default_terms(self, side, qual):
        """defaults of the parameters, evaluated"""
        proj = self.R if side == 'r' else self.S
        q = self.rq(qual) if side == 'r' else qual
        node, m, ci = proj.functions[q]
        I = self.interp(side, qual, set())
        I.events, I.top_raises = [], []
        from .interp import State
        st = State({}, {}, tm.TRUE)
        I.module_env(m.name)
        I.fparent = {}
        fn = Fn(node, m, q, cls=ci)
        a = node.args
        out = {}
        ps = [x.arg for x in a.posonlyargs + a.args]
        for nm, dn in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            out[nm] = I.content(I._default(fn, dn, st), st)
        return out

    def compare0(self, qual, inline=frozenset()):
        """compare one function, the given helpers inlined on both sides"""
        k = (qual, inline)
        if k in self.cmemo:
            return self.cmemo[k]
        self.stats['pairs'] += 1
        consts = {}
        if qual in self.extended:
            sr, ss = self.extended[qual]
            d = self.default_terms('r', qual)
            extra = (set(sr[0]) | set(sr[1])) - (set(ss[0]) | set(ss[1]))
            missing = (set(ss[0]) | set(ss[1])) - (set(sr[0]) | set(sr[1]))
            if missing or any(e not in d for e in extra):
                res = Result(qual, UNKNOWN, why='parameters changed', inlined=inline)
                self.cmemo[k] = res
                return res
            consts = {e: d[e] for e in extra}
        diffs = []
        unk = None
        for case in self.none_cases(qual):
            a = self.summary('r', qual, inline, consts or None, case)
            b = a if isinstance(a, str) else self.summary('s', qual, inline, None, case)
            if isinstance(a, str) or isinstance(b, str):
                unk = a if isinstance(a, str) else b
                continue
            self._compare_case(a, b, set(consts) | set(case[0]) | b.scalars, diffs)
            if a.pulled:
                # objects of modules that a loop may reach by a computed key
                x = self.summary('r', qual, inline, consts or None, case, raw=True)
                y = self.summary('s', qual, inline, None, case, raw=True)
                if not isinstance(x, str) and not isinstance(y, str):
                    new = (x.shared - y.shared) & y.made
                    if new:
                        # the caller is handed an object it shares with every other caller
                        e = mk('tuple', ())
                        diffs.append(Diff('memory shared with the result', mk('tuple', tuple(sorted(
                            new, key=lambda t: t.key))), e, [], False))
                        diffs[-1].kept = True
                    x, y = x.params['<globals>'], y.params['<globals>']
                    if x is not y:
                        diffs.append(Diff('effect on <globals>', x, y, [], False))

        def cmp(comp, x, y):
            if x is not y:
                pairs, weak = classify(x, y)
                diffs.append(Diff(comp, x, y, pairs, weak))
                diffs[-1].kept = True
        for n, x in sorted(self.default_terms('s', qual).items()):
            y = self.default_terms('r', qual).get(n)
            if y is not None and not is_private(qual):
                cmp('default of ' + n, y, x)
        if any(not d.weak for d in diffs):
            st = DIFFERENT
        elif diffs or unk is not None:
            st = UNKNOWN
        else:
            st = EQUAL
        nf = None
        if st != EQUAL or self.always:
            # kept[i]: differences the interpretation does not see
            kept = [d for d in diffs if d.kept]
            ri = self.interpret(qual, inline, consts)
            if ri is not None:
                if st == EQUAL and ri:
                    self.disagree.append((qual, ri))
                if ri:
                    for d in ri:
                        d.pairs = d.pairs + [p for x in diffs for p in x.pairs if isinstance(p[0], T)][:6]
                    diffs, st = ri + kept, DIFFERENT
                elif st != EQUAL:
                    nf = st
                    diffs, st = kept, (DIFFERENT if any(not d.weak for d in kept) else UNKNOWN if kept else EQUAL)
        res = Result(qual, st, diffs, inlined=inline)
        if nf is not None and st == EQUAL:
            res.full = self.full
            res.why = 'different normal forms that no interpretation separates'
        if st == UNKNOWN:
            res.why = unk if unk is not None else 'the difference involves approximated constructs'
        self.cmemo[k] = res
        return res

    def _compare_case(self, a, b, consts, diffs):
        def cmp(comp, x, y):
            if x is y:
                return
            pairs, weak = classify(x, y)
            diffs.append(Diff(comp, x, y, pairs, weak))
        if a.pc is not b.pc:
            cmp('terminates', tm.TRUE if a.pc is tm.FALSE else a.pc, tm.TRUE if b.pc is tm.FALSE else b.pc)
        cmp('return', a.ret, b.ret)
        for path, kinds in a.owners.items():
            if 'argument' in kinds and b.owners.get(path) == {'copy'}:
                # an argument, or a part of it, is handed out in place of a copy
                diffs.append(Diff('memory of the result', a.ret, b.ret, [], False))
                diffs[-1].kept = True
        if a.kept & b.copied:
            diffs.append(Diff('memory of the parts kept', a.ret, b.ret, [], False))
            diffs[-1].kept = True
        for n in sorted(set(a.params) | set(b.params)):
            if n in consts:
                continue
            x, y = a.params.get(n), b.params.get(n)
            if x is None or y is None:
                if x is None and y is not None and b.pc is tm.FALSE or y is None and a.pc is tm.FALSE:
                    continue
                continue
            cmp('effect on ' + n, x, y)
        for n in sorted(set(a.raises) | set(b.raises)):
            x, y = a.raises.get(n, tm.FALSE), b.raises.get(n, tm.FALSE)
            cmp('raises ' + n, x, y)
            if x is not y and n == 'AssertionError' and big_numbers(y) - big_numbers(x):
                # a limit beyond the sizes of the interpretations is not checked any more
                diffs[-1].kept = True
        for n, k in sorted(a.lost - b.lost, key=str):
            p = b.params.get(n)
            if p is None or n in consts:
                continue
            was = p
            while was.op in ('obj', 'st'):
                was = was.args[0]
            if was.op != 'param':
                continue
            if p.op == 'param' or k is not None and tm.rd(p, k) is tm.rd(was, k):
                # writes to part of an argument that has to stay as it was
                if k is not None:
                    was = tm.rd(was, k)
                diffs.append(Diff('effect on ' + n, mk('modified', was), was, [], False))
                diffs[-1].kept = True
        ea, eb = self.events(a), self.events(b)
        if ea != eb:
            self._events(ea, eb, diffs)

    # ---- random interpretation of both summaries
    def interpret(self, qual, inline, consts):
        """Diffs separating the two summaries; [] when no interpretation does; None: no verdict"""
        self.stats['interpreted'] = self.stats.get('interpreted', 0) + 1
        cases = self.none_cases(qual)
        self.full = True
        for case in cases:
            a = self.summary('r', qual, inline, consts or None, case, raw=True)
            b = a if isinstance(a, str) else self.summary('s', qual, inline, None, case, raw=True)
            if isinstance(a, str) or isinstance(b, str):
                return None
            n, bad, taint = randint.compare(a, b, set(consts) | set(case[0]) | b.scalars,
                                             max(self.trials // len(cases), 1500), self.evals // len(cases))
            self.stats['trials'] = self.stats.get('trials', 0) + n
            if n < 0.9 * max(self.trials // len(cases), 1500):
                self.full = False
            if bad:
                seed, cs = bad[0]
                return [Diff(c, x, y, [(x, y, False)], False) for c, x, y in cs]
            if taint is not None or n < 200:
                return None
        return []

    # ---- loops as records
    def loop_local(self, qual, inline, consts):
        """Diffs of functions whose loops correspond one to one, when few of the one-iteration
        effects differ; None when the loops cannot be set against each other"""
        allp = {}
        out = []
        for case in self.none_cases(qual):
            a = self.summary('r', qual, inline, consts or None, case, raw=True)
            b = self.summary('s', qual, inline, None, case, raw=True)
            if isinstance(a, str) or isinstance(b, str):
                return None
            if not b.loops or [x[0] for x in a.loops] != [x[0] for x in b.loops]:
                return None
            diffs = []
            ren = self.renamed(qual, a, b)
            if ren:
                a = self.summary('r', qual, inline, consts or None, case, raw=True, ren=ren)
                if isinstance(a, str):
                    return None
            self._compare_case(a, b, set(consts) | set(case[0]) | b.scalars, diffs)
            live = loop_live(a) | loop_live(b)
            for (k, ra, sa), (_, rb, sb) in zip(a.loops, b.loops):
                ka = {n for n in ra if rec_live(k, n, live)}
                kb = {n for n in rb if rec_live(k, n, live)}
                for n in ka ^ kb:
                    # a variable that lives for one iteration on one side and is carried on the other
                    if n[0] == 'init' and n[1] in (sb if n in ka else sa):
                        x, y = ra.get(('step', n[1])) or ra.get(('last', n[1])), \
                            rb.get(('step', n[1])) or rb.get(('last', n[1]))
                        if x is None or y is None:
                            x, y = mk('local') if x is None else mk('carried!', x), mk('local') if y is None else mk('carried!', y)
                        diffs.append(Diff('loop %d: carried %s' % (k, n[1]), x, y, [(x, y, False)], False))
                        ka = {z for z in ka if z[-1] != n[1]}
                        kb = {z for z in kb if z[-1] != n[1]}
                if ka != kb:
                    return None
                for n in sorted(ka, key=repr):
                    if ra[n] is not rb[n]:
                        pairs, weak = classify(ra[n], rb[n])
                        diffs.append(Diff('loop %d: %s' % (k, ' '.join(map(str, n))), ra[n], rb[n], pairs, weak))
            if ren and diffs:
                return None
            for d in diffs:
                if d.weak or not d.pairs:
                    return None
                for x, y, u in d.pairs:
                    if tainted(x) or tainted(y):
                        return None
                    allp[x, y] = 1
            if len(allp) > MAXPAIRS:
                return None
            out += diffs
        return out

    def renamed(self, qual, a, b):
        """code name -> reference name of the loop variables, by order of first assignment"""
        na = {n[1] for _, rec, _ in a.loops for n in rec if n[0] in ('init', 'last')}
        nb = {n[1] for _, rec, _ in b.loops for n in rec if n[0] in ('init', 'last')}
        if na == nb:
            return None
        oa = [n for n in stores(self.R.functions[self.rq(qual)][0]) if n in na and n not in nb]
        ob = [n for n in stores(self.S.functions[qual][0]) if n in nb and n not in na]
        if not oa or len(oa) != len(ob) or len(oa) != len(na - nb):
            return None
        return dict(zip(oa, ob))

    # ---- data outside of functions
    def env_terms(self, side, modname, cls=None):
        """name -> content for the assignments of a module / class body"""
        import copy
        proj = self.R if side == 'r' else self.S
        I = self.interp(side, modname + '.<module>', set())
        tm._fresh[0] = self.fresh0.get(side, 0)
        I.events, I.top_raises, I.quiet = [], [], 1
        I.fparent = {}
        from .interp import State, Frame
        with limit(self.tlimit):
            env = I.module_env(modname)
            st = State({}, dict(I.gheap), tm.TRUE)
            if cls is None:
                body = proj.modules[modname].tree.body
            else:
                ci = proj.classes[cls]
                body = [strip_doc(copy.deepcopy(x)) for x in ci.node.body
                        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))
                        and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                I.fidc += 1
                fid = I.fidc
                env = {}
                st.envs[fid] = env
                I.fparent[fid] = None
                I.stack.append(Frame(fid, Fn(ci.node, ci.mod, cls + '.<body>')))
                r = I.exec_block(body, st)
                I.stack.pop()
                if r is None:
                    return {}
                st, env = r, r.envs[fid]
            names = set()
            for s_ in body:
                for n in ast.walk(s_):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.add(n.id)
            out = {}
            for n in sorted(names):
                if n in env:
                    out[n] = finalize(I.content(env[n], st))
        return out

    def compare_data(self, qual, iscls):
        """Result for the attributes of a class body / the constants of a module"""
        k = ('data', qual)
        if k in self.cmemo:
            return self.cmemo[k]
        diffs, st, why = [], EQUAL, ''
        try:
            if iscls:
                ms, mr = self.S.classes[qual].mod.name, self.R.classes[qual].mod.name
                a = self.env_terms('r', mr, qual)
                b = self.env_terms('s', ms, qual)
            else:
                a = self.env_terms('r', qual)
                b = self.env_terms('s', qual)
        except (Timeout, tm.Unmodelled, RecursionError) as e:
            res = Result(qual, UNKNOWN, why=str(e))
            self.cmemo[k] = res
            return res
        n = 0
        for nm in sorted(b):
            if nm.startswith('_') and not iscls:
                continue
            n += 1
            x, y = a.get(nm), b[nm]
            if x is y or y.op == 'call' and 'getLogger' in str(y.args[0]):
                continue
            if x is None:
                if iscls and not nm.startswith('_'):
                    h = self.R.classes[qual]
                    if any(nm in self.env_terms('r', c.mod.name, c.qual) for c in ancestors(self.R, h)):
                        continue
                if not iscls:
                    # moved: still importable
                    if nm in self.R.modules[qual].static:
                        continue
                if nm in ('DEFAULT_TYPES',) or True:
                    x = mk('unbound')
            pairs, weak = classify(x, y)
            d = Diff(('attribute ' if iscls else 'constant ') + nm, x, y, pairs, weak)
            d.name = nm
            diffs.append(d)
        if diffs:
            st = DIFFERENT if any(not d.weak for d in diffs) else UNKNOWN
        res = Result(qual, st, diffs, why=why)
        res.count = n
        self.cmemo[k] = res
        return res

    def events(self, s):
        """events, order kept only around yields / with blocks"""
        segs = [[]]
        for k, t, pc, src in s.events:
            if pc is tm.FALSE:
                continue
            if k in ('yield', 'with'):
                segs.append([(k, t, pc)])
                segs.append([])
            else:
                segs[-1].append((k, t, pc))
        return [sorted(x, key=lambda e: (e[0], e[1].key, e[2].key)) for x in segs]

    def _events(self, ea, eb, diffs):
        fa = [x for s_ in ea for x in s_]
        fb = [x for s_ in eb for x in s_]
        oa = [x for x in fa if x not in fb]
        ob = [x for x in fb if x not in fa]
        if not oa and not ob:
            diffs.append(Diff('order of effects', None, None, [], False))
            return
        # pair up
        for x in list(oa):
            for y in ob:
                if x[0] == y[0] and x[1].op == y[1].op and (not x[1].args or not isinstance(x[1].args[0], str)
                                                            or x[1].args[0] == y[1].args[0]):
                    ob.remove(y)
                    oa.remove(x)
                    pairs, weak = classify((x[1], x[2]), (y[1], y[2]))
                    diffs.append(Diff('effect %s' % x[0], x[1], y[1], pairs, weak))
                    break
        for x in oa:
            weak = tainted(x[1]) or tainted(x[2]) or bool(weakset(x[1])) or bool(weakset(x[2]))
            diffs.append(Diff('extra effect', x[1], None, [(x[1], None, False)], weak))
        for y in ob:
            weak = tainted(y[1]) or tainted(y[2]) or bool(weakset(y[1])) or bool(weakset(y[2]))
            diffs.append(Diff('missing effect', None, y[1], [(None, y[1], False)], weak))

    # ------------------------------------------------------------ call graph
    def callees(self, side, q):
        """project functions referenced from a function (syntactic)"""
        proj = self.R if side == 'r' else self.S
        k = ('cg', side, q)
        if k in self.memo:
            return self.memo[k]
        rq = self.rq(q) if side == 'r' else q
        out = set()
        self.memo[k] = out
        if rq not in proj.functions:
            return out
        node, m, ci = proj.functions[rq]
        for n in ast.walk(node):
            if isinstance(n, (ast.Name, ast.Attribute)):
                h = proj.static_name(m, n)
                if isinstance(h, Fn):
                    out.add(h.qual)
                elif isinstance(h, Cls):
                    r = h.info.find(proj, '__init__')
                    if r:
                        out.add(r[0].qual + '.__init__')
                elif isinstance(n, ast.Attribute):
                    # by method name
                    if ci is not None and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        r = ci.find(proj, n.attr)
                        if r:
                            out.add(r[0].qual + '.' + n.attr)
        if side == 'r':
            out = {self.ralias.get(x, x) for x in out}
        self.memo[k] = out
        return out

    def closure(self, q):
        """functions on both sides reachable from q"""
        seen = set()
        st = [q]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.S.functions:
                st.extend(self.callees('s', x))
            if self.rq(x) in self.R.functions or x in self.R.functions:
                st.extend(self.callees('r', x))
        return seen

    def callers(self, q):
        out = set()
        for x in self.S.functions:
            if self.rq(x) is None:
                continue
            if q in self.callees('s', x) or q in self.callees('r', x):
                if x != q:
                    out.add(x)
        # through functions that exist only in the code
        for x in self.R.functions:
            if self.ralias.get(x, x) in self.S.functions:
                continue
            if q in self.callees('r', x):
                out |= self.callers(x)
        return out

    def judge(self, q, depth=0):
        """final verdict for a function: Result; private helpers are judged through
        their callers when they do not match on their own"""
        k = ('judge', q)
        if k in self.cmemo:
            return self.cmemo[k]
        self.cmemo[k] = Result(q, UNKNOWN, why='recursive')
        r = self._judge(q, depth)
        self.cmemo[k] = r
        return r

    def bad_private(self, q):
        """common private functions reachable from q through non-matching private
        helpers that do not match on their own"""
        out = set()
        st = [q]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            cs = self.callees('s', x) | self.callees('r', x)
            for c in cs:
                if c in seen:
                    continue
                if c in self.common and is_private(c):
                    if self.compare0(c).status != EQUAL:
                        out.add(c)
                        st.append(c)
                elif c not in self.common and (c in self.S.functions or c in self.R.functions):
                    st.append(c)
        out.discard(q)
        return frozenset(out)

    def _judge(self, q, depth):
        if self.rq(q) is None:
            return Result(q, UNKNOWN, why='not present')
        r0 = self.compare0(q)
        bad = self.bad_private(q)
        if r0.status == EQUAL and not bad:
            return r0
        r = r0
        if bad:
            r = self.compare0(q, bad)
            if r.status != DIFFERENT and r0.status == EQUAL:
                return r0          # the helpers are judged on their own
        if r.status == DIFFERENT:
            # what these functions may rely on their callees for
            tried = [frozenset(bad)]
            for ok, far in ((self.small_leaf, False), (self.procedure, False), (self.small, False),
                            (self.medium, False), (self.medium, True)):
                inl = set(bad)
                todo = [q] + sorted(bad)
                while todo:
                    x = todo.pop()
                    new = {c for c in self.callees('s', x) | self.callees('r', x)
                           if c in self.common and c != q and not c.endswith('.__init__') and ok(c)} - inl
                    inl |= new
                    if far:
                        todo += sorted(new)
                inl = frozenset(inl)
                if inl not in tried and len(inl) <= 12:
                    tried.append(inl)
                    keep, self.tlimit = self.tlimit, 4.
                    try:
                        r1 = self.compare0(q, inl)
                    finally:
                        self.tlimit = keep
                    # interpretations of large bodies reach too little of them
                    if r1.status == EQUAL and (not r1.why or r1.full and ok in (self.small_leaf, self.procedure)):
                        return r1
            if bad and r0.status == EQUAL:
                return r
        return r

    def only_for_nan(self, q, r):
        """a helper of unchanged parameters that tests its arguments for nan, and differs only when one is"""
        f, g = self.S.functions[q][0], self.R.functions[self.rq(q)][0]
        if ast.dump(f.args) != ast.dump(g.args) or any(d.kept for d in r.diffs) or \
                all(d.comp != 'return' for d in r.diffs) or \
                not any(isinstance(n, ast.Attribute) and n.attr == 'isnan' for n in ast.walk(f)):
            return False
        randint.NO_NAN[0] = True
        try:
            return self.interpret(q, frozenset(r.inlined or ()), {}) == []
        finally:
            randint.NO_NAN[0] = False

    def small_leaf(self, q):
        """a short function that calls no other function of the package"""
        return not self.callees('s', q) and not self.callees('r', q) and self.small(q)

    def procedure(self, q):
        """a short function that only stores in what it is given"""
        return self.small_leaf(q) or self.small(q) and \
            not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) for n in ast.walk(self.S.functions[q][0]))

    def medium(self, q):
        return sum(1 for _ in ast.walk(self.S.functions[q][0])) <= 500

    def small(self, q):
        return sum(1 for _ in ast.walk(self.S.functions[q][0])) <= 250

    def verdict(self, q):
        """judge q, resolving private helpers through their callers"""
        if self.rq(q) is None:
            if is_private(q):
                return Result(q, EQUAL, why='inlined')
            return Result(q, UNKNOWN, why='not present')
        r = self.judge(q)
        if r.status == EQUAL or not is_private(q):
            return r
        cs = self.callers(q)
        if not cs or q.endswith(('.go', '.run')):
            return r
        if r.status == DIFFERENT and self.only_for_nan(q, r):
            return r              # interpretations of the callers hand over no nan
        worst = None
        anyunk = False
        for c in sorted(cs):
            rc = self.judge_with(c, q)
            if rc.status == DIFFERENT:
                # is it because of q, or would the caller differ anyway
                return rc
            if rc.status == UNKNOWN:
                anyunk = True
                worst = rc
        if not anyunk:
            return Result(q, EQUAL, why='differs alone, same in every caller', inlined=())
        # could not decide in context: blame the helper when the callers' own code is unchanged
        if r.status == DIFFERENT and all(self.compare0(c).status == EQUAL for c in cs):
            return r
        return Result(q, UNKNOWN, r.diffs, why='cannot decide in the callers: ' + (worst.why if worst else ''))

    def judge_with(self, c, q, depth=0):
        """compare caller c with helper q (and other non-matching helpers) inlined"""
        bad = self.bad_private(c) | {q}
        r = self.compare0(c, frozenset(bad))
        if r.status != EQUAL and is_private(c) and depth < 4:
            # go further up
            cs = self.callers(c)
            if cs:
                res = None
                for cc in sorted(cs):
                    bad2 = self.bad_private(cc) | bad | {c}
                    rr = self.compare0(cc, frozenset(bad2))
                    if rr.status == DIFFERENT:
                        return rr
                    if rr.status == UNKNOWN:
                        res = rr
                if res is None:
                    return Result(c, EQUAL)
                if r.status == DIFFERENT and all(self.compare0(cc, frozenset(bad)).status == EQUAL for cc in cs):
                    return r
                return res
        return r


MAXPAIRS = 12
TRIALS = 5000, 5000000      # interpretations, reductions
LOOPSYM = frozenset(['lo', 'lv', 'lm'])


def loop_syms(t, out):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in LOOPSYM:
                out.add(x.args)
            else:
                st.extend(x.args)
    return out


def stores(fn):
    out = {}
    for n in sorted((n for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)),
                    key=lambda n: (n.lineno, n.col_offset)):
        out.setdefault(n.id, 1)
    return list(out)


def sym_base(n):
    for mark in ('@exit', '@break'):
        if mark in n:
            n = n[:n.index(mark)]
    return n


def rec_live(k, n, live):
    if n[0] in ('domain', 'exit', 'break', 'returns'):
        return True
    return (k, n[-1]) in live


def big_numbers(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'q' and abs(x.args[0]) > 5:
                out.add(x.args[0])
            todo += list(x.args)
    return out


def loop_live(sm):
    """(loop, name) of the loop results that reach something observable"""
    roots = set()
    loop_syms((sm.ret, sm.pc, tuple(sm.params.values()), tuple(sm.raises.values()),
               tuple((t, pc) for _, t, pc, _ in sm.events)), roots)
    deps = {}
    for k, rec, _ in sm.loops:
        for n, t in rec.items():
            d = loop_syms(t, set())
            if n[0] in ('domain', 'exit', 'break', 'returns'):
                roots |= d
            else:
                deps.setdefault((k, n[-1]), set()).update(d)
    live = set()
    st = [(k, sym_base(n)) for k, n in roots]
    while st:
        x = st.pop()
        if x in live:
            continue
        live.add(x)
        st.extend((k, sym_base(n)) for k, n in deps.get(x, ()))
    return live


def strip_doc(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            n.keywords = [k for k in n.keywords if k.arg != 'doc']
    return node


def ancestors(proj, ci):
    out = []
    st = list(ci.bases(proj))
    while st:
        c = st.pop()
        out.append(c)
        st.extend(c.bases(proj))
    return out


def locate_data(cmpr, res, iscls):
    if iscls:
        ci = cmpr.R.classes[res.qual]
        m, body, line = ci.mod, ci.node.body, ci.node.lineno
    else:
        m = cmpr.R.modules[res.qual]
        body, line = m.tree.body, 1
    names = {getattr(d, 'name', None) for d in res.diffs}
    for s_ in body:
        if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names for n in ast.walk(s_)):
            line = s_.lineno
            break
    return os.path.relpath(m.path, cmpr.R.root), line, res.qual


def locate(cmpr, res):
    """repo location of a difference: (file, line, function)"""
    q = cmpr.rq(res.qual) or res.qual
    node, m, ci = cmpr.R.functions[q]
    lo, hi = node.lineno, getattr(node, 'end_lineno', node.lineno)
    best = None
    for d in res.diffs:
        if d.weak:
            continue
        for x, y, u in d.pairs:
            if not isinstance(x, T):
                continue
            s_ = src_of(x, cmpr.R.root)
            if s_ and s_[0] == m.path and lo <= s_[1] <= hi:
                if best is None:
                    best = s_
    rel = os.path.relpath(m.path, cmpr.R.root)
    return rel, (best[1] if best else lo), q


def src_of(x, root):
    st = [x]
    n = 0
    while st and n < 200:
        y = st.pop(0)
        n += 1
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, T):
            continue
        if y.src and y.src[0].startswith(root):
            return y.src
        st.extend(y.args)
    return None


def describe(res, n=3):
    out = []
    for d in sorted(res.diffs, key=lambda d: d.weak):
        for x, y, u in (d.pairs or [(d.a, d.b, False)])[:2]:
            out.append('%s: code %s | required %s%s' % (
                d.comp, short(x), short(y), ' (weak)' if d.weak else ''))
        if len(out) >= n:
            break
    return out


def short(x, n=220):
    if x is None:
        return '-'
    if isinstance(x, T):
        r = show(x, 6)
    else:
        r = repr(x)
    return r if len(r) <= n else r[:n] + '...'
