"""Closing a loop: per-iteration effects -> terms quantified over the iteration domain."""
import ast
from fractions import Fraction

from . import terms as tm
from .terms import (T, mk, q, s, TRUE, FALSE, NONE, Q0, Q1, is_bool, truth, b_and, b_or, b_not, atom, phi,
                    add, sub, mul, concat, fresh_fv, fresh_cv, bitor, wh, subst, depends, constrain)
from .interp import (param_parts, Val, Ref, View, Tup, PhiH, Fn, Cls, Mod, Ext, Bound, Super, Gen, ObjS, State, Exit)

CONSTH = (Fn, Cls, Mod, Ext)


# ------------------------------------------------------------------ cells
def diff_cells(it, a, b):
    """cells of the pre-state `a` that differ in `b`"""
    cells = []
    for fid, env in a.envs.items():
        eb = b.envs.get(fid)
        if eb is None:
            continue
        for n, h in env.items():
            h2 = eb.get(n)
            if h2 is h or h2 is None:
                continue
            if isinstance(h, Ref) and isinstance(h2, Ref) and h.oid == h2.oid:
                continue
            if isinstance(h, Val) and isinstance(h2, Val) and h.t is h2.t:
                continue
            if isinstance(h, CONSTH) and type(h) is type(h2) and it.content(h, a) is it.content(h2, b):
                continue
            cells.append(('var', fid, n))
    for oid, o in a.heap.items():
        o2 = b.heap.get(oid)
        if o2 is o or o2 is None:
            continue
        if o2.base is not o.base:
            cells.append(('base', oid))
            continue
        flat = False
        for k, h2 in o2.kids.items():
            h = o.kids.get(k)
            if h is h2:
                continue
            if isinstance(h, Ref) and isinstance(h2, Ref) and h.oid == h2.oid:
                continue
            if h is None:
                if isinstance(h2, Ref):
                    ko = b.heap.get(h2.oid)
                    if ko is not None and ko.origin == (oid, k):
                        # created by reading; a change shows in its content
                        if it.obj_content(h2.oid, b, 0) is tm.rd(o.base, k):
                            continue
                if not (tm.const_key(k) or k[0] == 'i' and k[1].op == 'fmt'):
                    flat = True
                    break
                if it.content(h2, b) is tm.rd(o.base, k):
                    continue
            elif it.content(h, a) is it.content(h2, b):
                continue
            cells.append(('kid', oid, k))
        for k in o.kids:
            if k not in o2.kids:
                flat = True
        if flat:
            cells = [c for c in cells if c[:2] != ('kid', oid)]
            cells.append(('base', oid))
    return cells


def cell_handle(it, c, st):
    if c[0] == 'var':
        return st.envs.get(c[1], {}).get(c[2])
    if c[0] == 'kid':
        o = st.heap.get(c[1])
        h = o.kids.get(c[2])
        return h if h is not None else Val(tm.rd(o.base, c[2]))
    return None


def cell_content(it, c, st):
    if c[0] == 'base':
        return it.obj_content(c[1], st, 0)
    h = cell_handle(it, c, st)
    if h is None:
        return mk('unbound')
    return it.content(h, st)


def cell_set(it, c, t, st, shape=None, copyof=None, obj=False):
    if c[0] == 'base':
        o = st.heap[c[1]]
        st.heap[c[1]] = o.with_(base=t, kids={}, shallow=None)
        return
    old = cell_handle(it, c, st)
    if obj and copyof is None:
        h = it.new_obj(st, t, shape=shape)
    elif copyof is not None:
        h = it.new_obj(st, t, shape=shape, copyof=copyof)
    elif isinstance(old, Val) and not (c[0] == 'kid' and st.heap[c[1]].kids.get(c[2]) is None and
                                       t.op in ('cv', 'rd', 'param', 'lo', 'lm', 'st', 'obj', 'bulk', 'fold', 'foldproj',
                                                'last', 'first')):
        h = Val(t, shape)
    else:
        h = it.new_obj(st, t, shape=shape)
    if c[0] == 'var':
        st.envs[c[1]][c[2]] = h
    else:
        o = st.heap[c[1]]
        kids = dict(o.kids)
        kids[c[2]] = h
        st.heap[c[1]] = o.with_(kids=kids)


def has_ref(h):
    if isinstance(h, PhiH):
        return has_ref(h.a) or has_ref(h.b)
    return isinstance(h, Ref)


def cvterm(init, cv):
    """the unknown value of a cell at the start of an iteration"""
    if is_bool(init):
        return atom(cv)
    return cv


# ------------------------------------------------------------------ the loop
def close_loop(it, node, D, body, st, orelse, tnames=(), depth=0):
    if not it.any_aka:
        return close_loop_(it, node, D, body, st, orelse, tnames, depth)
    # objects that are also entries of containers: the entries follow after the loop
    held = []
    for oid, o in list(st.heap.items()):
        if o.aka is not None:
            b, k, h, rec = o.aka
            if tm.rd(it.content(b, st), k) is it.content(rec, st):
                held.append((oid, o.aka, it.content(h, st)))
            st.heap[oid] = o.with_(aka=None)
    r = close_loop_(it, node, D, body, st, orelse, tnames, depth)
    if r is None:
        return r
    for oid, aka, c0 in held:
        o = r.heap.get(oid)
        if o is None:
            continue
        b, k, h, rec = aka
        if tm.rd(it.content(b, r), k) is it.content(rec, r):
            r.heap[oid] = o.with_(aka=aka)
            it.any_aka = True
            if it.content(h, r) is not c0:
                it.write_through(oid, r)
    return r


def close_loop_(it, node, D, body, st, orelse, tnames=(), depth=0):
    if tm.dom_len(D) is Q0:
        if orelse:
            return it.exec_block(orelse, st)
        return st
    it.stats['loops'] += 1
    fr = it.stack[-1]
    v = fresh_fv()
    saved_exits = fr.exits
    pre = st.copy()

    def run(s_):
        """one iteration; returns (merged fall-through, breaks, exits)"""
        fr.exits = []
        outs = body(s_, v)
        falls, breaks, exits = list(outs), [], []
        for e in fr.exits:
            if e.pc is FALSE:
                continue
            if e.kind == 'continue':
                falls.append(State(e.state.envs, e.state.heap, e.pc))
            elif e.kind == 'break':
                breaks.append(State(e.state.envs, e.state.heap, e.pc))
            else:
                exits.append(e)
        fr.exits = []
        m = it.merge([x for x in falls if x is not None])
        b = it.merge(breaks)
        return m, b, exits

    # --- discovery
    cells = {}
    objs = set()     # variables without a value before the loop that hold an object in it
    aliases = {}     # carried variables that may name a component of an argument
    it_missing = it.missing
    rno = None
    if it.rawloops is not None:
        it.loopno += 1
        rno = it.loopno, len(it.rawloops)
    for rnd in range(5):
        it.missing = set()
        if rno is not None:
            it.loopno = rno[0]
            del it.rawloops[rno[1]:]
        s_ = pre.copy()
        cvs = {}
        for c in sorted(cells, key=repr):
            init = cell_content(it, c, pre)
            cvs[c] = cells[c]
            if c[0] == 'base':
                pass
            sh = None
            h0 = cell_handle(it, c, pre) if c[0] != 'base' else None
            if isinstance(h0, Val):
                sh = h0.shape
            elif isinstance(h0, Ref):
                sh = pre.heap[h0.oid].shape if h0.oid in pre.heap else None
            cell_set(it, c, cvterm(init, cells[c]), s_, sh, aliases.get(c), c in objs)
        hav = s_.copy()
        ev0 = len(it.events)
        rlen = len(it.risky) if it.risky is not None else 0
        m, b, exits = run(s_)
        new = []
        for x in [m, b] + [e.state for e in exits if e.kind == 'return']:
            if x is None:
                continue
            for c in diff_cells(it, hav, x):
                if c not in cells and exists(c, pre):
                    new.append(c)
        again = False
        for c in list(cells) + new:
            if c[0] == 'var' and c not in aliases:
                for x in [m, b]:
                    h = x.envs.get(c[1], {}).get(c[2]) if x is not None else None
                    if h is None:
                        continue
                    a_ = it.alias_of(h, x)
                    if a_ is not None and not depends(a_, v) and not any(depends(a_, z) for z in cells.values()):
                        aliases[c] = a_
                        again = True
                    elif a_ is not None:
                        rs = param_parts(a_)
                        if rs:
                            n_, k_ = sorted(rs, key=str)[0]
                            a_ = mk('param', n_)
                            aliases[c] = a_ if k_ is None or depends(k_[1], v) else tm.rd(a_, k_)
                            again = True
        # nothing before the loop, an object in it
        for c in list(cells) + new:
            if c[0] == 'var' and c not in objs and m is not None:
                h0 = cell_handle(it, c, pre)
                if isinstance(h0, Val) and h0.t.op in ('none', 'unbound') and \
                        has_ref(m.envs.get(c[1], {}).get(c[2])):
                    objs.add(c)
                    again = True
        # set in one iteration, read in a later one
        for f_, n in it.missing:
            e_ = pre.envs.get(f_)
            if f_ == fr.fid and e_ is not None and n not in e_ and \
                    any(x is not None and n in x.envs.get(f_, {}) for x in (m, b)):
                e_[n] = Val(mk('unbound'))
                again = True
        it_missing = it_missing | it.missing
        if not new and not again:
            break
        for c in new:
            if c not in cells:
                c0 = cell_content(it, c, pre)
                cells[c] = fresh_cv(c0)
                if c[0] == 'base' and c0.op != 'ite':
                    tm.CVNONE[cells[c]] = tm.is_none(c0)
        # a 'base' cell subsumes its 'kid' cells
        for c in list(cells):
            if c[0] == 'kid' and ('base', c[1]) in cells:
                del cells[c]
        del it.events[ev0:]
        if it.risky is not None:
            del it.risky[rlen:]
    it.missing = it_missing
    fr.exits = saved_exits
    evs = it.events[ev0:]
    del it.events[ev0:]

    inits = {c: cell_content(it, c, pre) for c in cells}
    cvall = {cells[c] for c in cells}

    # --- guards of the exits
    pc = pre.pc

    def rel(g):
        return tm._constrain_raw(g, pc) if pc not in (TRUE, FALSE) else g
    gexit = FALSE
    for e in exits:
        gexit = b_or(gexit, rel(e.pc))
    gbreak = rel(b.pc) if b is not None else FALSE
    stay = b_not(b_or(gexit, gbreak))

    # --- per-iteration steps of the cells (given that the iteration completes)
    steps = {}
    for c in cells:
        if m is None:
            steps[c] = cvterm(inits[c], cells[c])
        else:
            t = cell_content(it, c, m)
            steps[c] = constrain(t, rel(m.pc)) if m.pc not in (TRUE, FALSE) else t
    locs = {}
    if m is not None:
        env = m.envs.get(fr.fid, {})
        penv = pre.envs.get(fr.fid, {})
        used = None
        for n in env:
            if n not in penv and not n.startswith('#'):
                if used is None:
                    used = names_outside(fr, node)
                if n in used:
                    locs[n] = it.content(env[n], m)

    if it.rawloops is not None:
        return close_raw(it, node, D, v, cells, inits, aliases, m, b, exits, rel, gexit, gbreak, stay, steps, locs, evs,
                         pre, fr, saved_exits, orelse, rno, rlen, objs)

    # --- closing, resolving cells in dependency order
    done = {}
    prefix = {}
    pend = dict(steps)
    sub_map = {}

    def others(t, c):
        return [x for x in tm._walk_fv(t) if x in cvall and x is not cells[c] and x not in sub_map]

    prog = True
    while pend and prog:
        prog = False
        for c in sorted(pend, key=lambda z: cells[z].args[0]):
            t = subst(pend[c], sub_map) if sub_map else pend[c]
            cv = cells[c]
            if others(t, c):
                continue
            r = classify(it, D, v, cv, inits[c], t)
            if r is None:
                continue
            done[c], pf = r
            del pend[c]
            if pf is not None:
                sub_map[cv] = pf
                for k in sub_map:
                    pass
            else:
                if not depends(t, cv) and t.op != 'unk':
                    # value of the previous iteration
                    sub_map[cv] = mk('prev', inits[c], t) if not depends(t, v) else mk('prevv', inits[c], t)
                    del sub_map[cv]
            prog = True
    # cells never read by others but depending on unresolved ones: joint fold
    if pend:
        joint_fold(it, D, v, cells, inits, pend, sub_map, done)

    unres = {}

    def close(t):
        """remove remaining loop-carried variables from a per-iteration term"""
        if sub_map:
            t = subst(t, sub_map)
        bad = {x: None for x in tm._walk_fv(t) if x in cvall}
        if bad:
            mp = {}
            for x in bad:
                c = [k for k in cells if cells[k] is x][0]
                key = unres.get(x)
                if key is None:
                    key = mk('carried', inits[c], D, close_step(steps[c], cells, inits, sub_map, cvall))
                    unres[x] = key
                mp[x] = key if not is_bool(inits[c]) else key
            t = subst(t, mp)
        return t

    if it.risky is not None and len(it.risky) > rlen:
        # what a handler outside of the loop may see
        base = pre.copy()
        for c in cells:
            cell_set(it, c, tm.bind('midloop', D, (inits[c], close_step(steps[c], cells, inits, sub_map, cvall)), v),
                     base, keep_shape(it, c, pre))
        tail = it.risky[rlen:]
        del it.risky[rlen:]
        for nm_, fv_, _, x_ in tail:
            it.risky.append((nm_, fv_ - {v} - cvall, base.copy(), x_))

    out = pre
    # --- exits
    if gexit is not FALSE:
        G = close(gexit)
        brk = close(gbreak) if gbreak is not FALSE else FALSE
        DD = D
        if brk is not FALSE:
            DD = tm.bind('domprefix', D, (b_or(brk, G),), v)
            anyexit = tm.mk_any(D, G, v) if False else atom(tm.bind('exitfirst', D, (b_or(brk, G), G), v))
        else:
            anyexit = tm.mk_any(D, G, v)
        groups = {}
        for e in exits:
            groups.setdefault((e.kind, e.val.t if e.kind == 'raise' and isinstance(e.val, Val) else None), []).append(e)
        single = len(groups) == 1
        for (kind, nm), es in groups.items():
            g = FALSE
            for e in es:
                g = b_or(g, rel(e.pc))
            g = close(g)
            if single:
                ge = anyexit
            else:
                ge = b_and(anyexit, atom_first(D, b_or(G, brk), g, v))
            if kind == 'raise':
                s2 = pre.copy()
                s2.pc = b_and(pc, ge)
                saved_exits = saved_exits + [Exit('raise', s2.pc, es[0].val, s2, es[0].src)]
            else:
                mstate = it.merge([with_ret(e, fr) for e in es])
                rv = it.content(mstate.envs[fr.fid]['#lr'], mstate)
                rv = constrain(rv, rel(mstate.pc))
                rv = close(rv)
                rt = mk_first(D, b_or(G, brk), rv, v)
                s2 = pre.copy()
                s2.pc = b_and(pc, ge)
                for c in cells:
                    t = constrain(cell_content(it, c, mstate), rel(mstate.pc))
                    if t is cvterm(inits[c], cells[c]) and prefix_safe(steps[c], cells[c], inits[c]):
                        continue
                    t = close(t)
                    cell_set(it, c, mk_first(D, b_or(G, brk), t, v), s2)
                for e in es:
                    pass
                saved_exits = saved_exits + [Exit('return', s2.pc, it.new_obj(s2, rt), s2, es[0].src)]
        fr.exits = saved_exits
        out = pre
        out_pc = b_and(pc, b_not(anyexit))
    else:
        out_pc = pc
    # --- events
    for kind, t, epc, src in evs:
        g = close(rel(epc))
        it.events.append((kind, tm.bind('evloop', D, (g, close(t)), v), pc, src))
    if out_pc is FALSE:
        fr.exits = saved_exits
        return None
    # --- normal completion
    if gbreak is FALSE:
        out.pc = out_pc
        for c in cells:
            sh = keep_shape(it, c, pre)
            t = whole_array(done[c], pre.heap[c[1]].shape if c[0] == 'base' and c[1] in pre.heap else sh)
            cell_set(it, c, t, out, sh, aliases.get(c), c in objs)
        for n, t in locs.items():
            t = constrain(close(t), close(stay)) if stay is not TRUE else close(t)
            e0 = tm.eq0(tm.dom_len(D))
            out.envs[fr.fid][n] = it.new_obj(out, phi(e0, mk('unbound'), mk_last(D, TRUE, t, v)))
        fr.exits = saved_exits
        if orelse:
            return it.exec_block(orelse, out)
        return out
    # --- with break
    B = close(gbreak)
    if gexit is not FALSE:
        B = b_and(B, b_not(close(gexit)))
    if gexit is FALSE:
        anyb = tm.mk_any(D, B, v)
    else:
        anyb = atom(tm.bind('exitfirst', D, (b_or(B, close(gexit)), B), v))
    s_no = pre.copy()
    s_no.pc = b_and(out_pc, b_not(anyb))
    s_br = pre.copy()
    s_br.pc = b_and(out_pc, anyb)
    Dp = tm.bind('domprefix', D, (B,), v)
    for c in cells:
        cell_set(it, c, done[c], s_no, keep_shape(it, c, pre), None, c in objs)
        tb = constrain(cell_content(it, c, b), rel(b.pc))
        ident = steps[c] is cvterm(inits[c], cells[c])
        if ident:
            # only assigned when breaking
            tb = subst(tb, {cells[c]: inits[c]})
            tb = close(tb)
            cell_set(it, c, mk_first(D, B, tb, v), s_br, None, None, c in objs)
        else:
            r = classify(it, Dp, v, cells[c], inits[c], close_except(steps[c], cells[c], close))
            pv = r[0] if r is not None else mk('unk', 'break', tm._fresh[0])
            tb = subst(tb, {cells[c]: pv})
            tb = close(tb)
            cell_set(it, c, mk_first(D, B, tb, v), s_br, None, None, c in objs)
    benv = b.envs.get(fr.fid, {})
    penv = pre.envs.get(fr.fid, {})
    used = names_outside(fr, node)
    for n in benv:
        if n not in penv and not n.startswith('#') and (n in used or n[:2] in ('_g', '_f')):
            t = close(constrain(it.content(benv[n], b), rel(b.pc)))
            s_br.envs[fr.fid][n] = it.new_obj(s_br, mk_first(D, B, t, v))
    for n, t in locs.items():
        t = constrain(close(t), b_not(B))
        e0 = tm.eq0(tm.dom_len(D))
        s_no.envs[fr.fid][n] = it.new_obj(s_no, phi(e0, mk('unbound'), mk_last(D, TRUE, t, v)))
    fr.exits = saved_exits
    r_no = s_no if s_no.pc is not FALSE else None
    if orelse and r_no is not None:
        r_no = it.exec_block(orelse, r_no)
    r_br = s_br if s_br.pc is not FALSE else None
    return it.merge([x for x in (r_no, r_br) if x is not None])


def cell_names(it, cells, st):
    """names of the cells in the source: variable, or path of the object from a variable"""
    byoid = {}
    for fid, env in st.envs.items():
        for n, h in env.items():
            if isinstance(h, Ref) and not n.startswith('#'):
                byoid.setdefault(h.oid, []).append(n)

    def oname(oid, d=0):
        if oid in byoid:
            return min(it.rawnames.get(x, x) for x in byoid[oid])
        o = st.heap.get(oid)
        if o is not None and o.origin is not None and d < 6:
            return '%s/%s' % (oname(o.origin[0], d + 1), o.origin[1])
        if d < 6:
            for k, x in st.heap.items():
                for kk, h in x.kids.items():
                    if isinstance(h, Ref) and h.oid == oid and k != oid:
                        return '%s/%s' % (oname(k, d + 1), kk)
        return '?'
    out, seen = {}, {}
    for c in cells:
        if c[0] == 'var':
            n = it.rawnames.get(c[2], c[2])
        elif c[0] == 'base':
            n = oname(c[1])
        else:
            n = '%s/%s' % (oname(c[1]), c[2])
        k = seen.get(n, 0)
        seen[n] = k + 1
        out[c] = n if not k else '%s#%d' % (n, k)
    return out


def close_raw(it, node, D, v, cells, inits, aliases, m, b, exits, rel, gexit, gbreak, stay, steps, locs, evs,
              pre, fr, saved_exits, orelse, rno, rlen, objs):
    """keep the loop as a record of its one-iteration effects; its results are symbols"""
    k = rno[0]
    pc = pre.pc
    # induction variables have a closed form
    cvs = {cells[c] for c in cells}
    ind, res = {}, {}
    for c in list(cells):
        if c[0] != 'base' and tm.numericable(steps[c]) and not is_bool(inits[c]) and inits[c].op not in tm.SEQ:
            d = add_delta(steps[c], cells[c])
            if d is not None and not depends(d, v) and not any(depends(d, x) for x in cvs):
                ind[cells[c]] = add(inits[c], mul(d, v))
                res[c] = add(inits[c], mul(d, tm.dom_len(D)))
    names = cell_names(it, cells, pre)
    mp = {cells[c]: mk('lv', k, names[c]) for c in cells}
    mp.update(ind)

    def cl(t):
        t = subst(t, mp)
        return tm.bind('lstep', D, (t,), v)

    def sym(op, c_, like):
        r = mk(op, k, c_)
        return atom(r) if is_bool(like) else r
    rec = {('domain',): D}
    loc = set()
    for x in [m, b] + [e.state for e in exits]:
        if x is not None:
            loc |= {n for n in x.envs.get(fr.fid, {}) if n not in pre.envs.get(fr.fid, {}) and n[0] != '#'}
    for c in cells:
        if c in res:
            loc.add(names[c])
            continue
        rec['init', names[c]] = inits[c]
        rec['step', names[c]] = cl(steps[c])
    rec['exit',] = cl(gexit)
    rec['break',] = cl(gbreak)
    loc = {it.rawnames.get(n, n) for n in loc}
    for n, t in locs.items():
        rec['last', it.rawnames.get(n, n)] = cl(t)
    for kind, t, epc, src in evs:
        g = rel(epc)
        it.events.append((kind, tm.bind('lev', (D, mk('loopk', k)), (subst(g, mp), subst(t, mp)), v), pc, src))
    if it.risky is not None and len(it.risky) > rlen:
        base = pre.copy()
        for c in cells:
            cell_set(it, c, sym('lm', names[c], inits[c]), base, keep_shape(it, c, pre), None, c in objs)
        tail = it.risky[rlen:]
        del it.risky[rlen:]
        for nm_, fv_, _, x_ in tail:
            it.risky.append((nm_, fv_ - {v} - set(mp), base.copy(), x_))
    out_pc = pc
    if gexit is not FALSE:
        anyexit = atom(mk('lo', k, '#exit'))
        groups = {}
        for e in exits:
            groups.setdefault((e.kind, e.val.t if e.kind == 'raise' and isinstance(e.val, Val) else None), []).append(e)
        for i, ((kind, nm), es) in enumerate(sorted(groups.items(), key=lambda z: (z[0][0], str(z[0][1])))):
            g = FALSE
            for e in es:
                g = b_or(g, rel(e.pc))
            ge = anyexit
            if len(groups) > 1:
                ge = b_and(ge, atom(mk('lo', k, '#exit%d' % i)))
                rec['exit', i] = cl(g)
            s2 = pre.copy()
            s2.pc = b_and(pc, ge)
            if kind == 'raise':
                saved_exits = saved_exits + [Exit('raise', s2.pc, es[0].val, s2, es[0].src)]
                continue
            ms = it.merge([with_ret(e, fr) for e in es])
            rec['returns', i] = cl(constrain(it.content(ms.envs[fr.fid]['#lr'], ms), rel(ms.pc)))
            rt = mk('lo', k, '#ret%d' % i)
            if is_bool(tm.unbind(rec['returns', i])[0][0]):
                rt = atom(rt)
            for c in cells:
                t = constrain(cell_content(it, c, ms), rel(ms.pc))
                rec['at exit', i, names[c]] = cl(t)
                cell_set(it, c, sym('lo', '%s@exit%d' % (names[c], i), inits[c]), s2, None, None, c in objs)
            saved_exits = saved_exits + [Exit('return', s2.pc, it.new_obj(s2, rt), s2, es[0].src)]
        out_pc = b_and(pc, b_not(anyexit))
    imp = {x: subst(t, {v: mk('iv', k)}) for x, t in mp.items()}
    imp[v] = mk('iv', k)
    for i in range(rno[1], len(it.rawloops)):
        k2, r2, l2 = it.rawloops[i]
        it.rawloops[i] = (k2, {n: subst(t, imp) for n, t in r2.items()}, l2)
    it.rawloops.append((k, rec, loc))
    fr.exits = saved_exits
    if out_pc is FALSE:
        return None

    def finish(s_, suff):
        for c in cells:
            t = res[c] if c in res and not suff else sym('lo', names[c] + suff, inits[c])
            cell_set(it, c, t, s_, keep_shape(it, c, pre), aliases.get(c), c in objs)
    s_no = pre.copy()
    s_no.pc = out_pc
    if gbreak is not FALSE:
        anyb = atom(mk('lo', k, '#break'))
        s_no.pc = b_and(out_pc, b_not(anyb))
    finish(s_no, '')
    for n, t in locs.items():
        s_no.envs[fr.fid][n] = it.new_obj(s_no, sym('lo', it.rawnames.get(n, n), t))
    if gbreak is FALSE:
        return it.exec_block(orelse, s_no) if orelse else s_no
    s_br = pre.copy()
    s_br.pc = b_and(out_pc, anyb)
    finish(s_br, '@break')
    for c in cells:
        rec['at break', names[c]] = cl(constrain(cell_content(it, c, b), rel(b.pc)))
    benv = b.envs.get(fr.fid, {})
    penv = pre.envs.get(fr.fid, {})
    used = names_outside(fr, node)
    for n in sorted(benv):
        if n not in penv and not n.startswith('#') and (n in used or n[:2] in ('_g', '_f')):
            t = constrain(it.content(benv[n], b), rel(b.pc))
            nn = it.rawnames.get(n, n)
            rec['at break', nn] = cl(t)
            s_br.envs[fr.fid][n] = it.new_obj(s_br, sym('lo', nn + '@break', t))
    r_no = it.exec_block(orelse, s_no) if orelse else s_no
    return it.merge([x for x in (r_no, s_br) if x is not None])


def close_except(t, cv, close):
    ph = fresh_cv()
    t = subst(t, {cv: ph})
    t = close(t)
    return subst(t, {ph: cv})


def close_step(t, cells, inits, sub_map, cvall):
    t = subst(t, sub_map) if sub_map else t
    mp = {}
    n = 0
    for c in sorted(cells, key=lambda z: cells[z].args[0]):
        mp[cells[c]] = mk('acc', 0, n)
        n += 1
    t = subst(t, mp)
    # the iteration variable is implicit
    fvs = [x for x in tm._walk_fv(t) if x.op == 'fv']
    return mk('stepterm', t) if False else t


def with_ret(e, fr):
    s2 = State(dict(e.state.envs), e.state.heap, e.pc)
    s2.envs[fr.fid] = dict(s2.envs.get(fr.fid, {}))
    s2.envs[fr.fid]['#lr'] = e.val
    return s2


def keep_shape(it, c, pre):
    if c[0] == 'base':
        return None
    h = cell_handle(it, c, pre)
    if isinstance(h, Val):
        return h.shape
    if isinstance(h, Ref) and h.oid in pre.heap:
        return pre.heap[h.oid].shape
    return None


def whole_array(t, sh):
    """an array of a constant whose entries a loop has set one by one: the array of what was stored"""
    if t.op != 'bulk' or sh is None or t.args[2] < 0:
        return t
    (prev, d), (key, val, g), h = t.args
    n = sh.args[0][0] if sh.op in ('tuple', 'list') and len(sh.args[0]) == 1 else sh
    if prev.op != 'q' or key != ('i', mk('bv', h)) or tm.dom_len(d) is not n:
        return t
    (key, val, g), v = tm.unbind(t)
    return mk('arr', tm.mk_map(d, phi(g, val, prev), TRUE, v))


def exists(c, pre):
    if c[0] == 'var':
        return c[1] in pre.envs and c[2] in pre.envs[c[1]]
    return c[1] in pre.heap


def prefix_safe(step, cv, init):
    return step is cvterm(init, cv)


_used_memo = {}


def names_outside(fr, node):
    """names read in the enclosing function outside the loop body (or by an enclosing loop)"""
    key = (id(fr.fn.node), id(node))
    r = _used_memo.get(key)
    if r is None:
        r = set()
        inner = set(id(x) for x in ast.walk(node)) if node is not None else set()
        for x in ast.walk(fr.fn.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inner:
                r.add(x.id)
        _used_memo[key] = r
    return r


def mk_first(D, G, val, v):
    """val at the first index where G holds"""
    if not depends(val, v):
        return val
    if is_bool(val):
        return atom(tm.bind('first', D, (G, val), v))
    return tm.bind('first', D, (G, val), v)


def atom_first(D, G, g, v):
    if g is G:
        return TRUE
    if not depends(g, v):
        return g
    return atom(tm.bind('first', D, (G, g), v))


def mk_last(D, G, val, v):
    if not depends(val, v):
        return val
    if is_bool(val):
        return atom(tm.bind('last', D, (G, val), v))
    return tm.bind('last', D, (G, val), v)


# ------------------------------------------------------------------ recurrences
def classify(it, D, v, cv, init, t):
    """closed form of iterating cv := t(cv, v) over D from init; (value, prefix form or None)"""
    me = cvterm(init, cv)
    if t is me or t is cv:
        return init, init
    if not depends(t, cv):
        e0 = tm.eq0(tm.dom_len(D))
        return phi(e0, init, mk_last(D, TRUE, t, v)), None
    r = None
    # first-iteration special case
    r = peeled(it, D, v, cv, init, t)
    if r is not None:
        return r, None
    if is_bool(init) and is_bool(t):
        t1 = tm._constrain_raw(t, atom(cv)) if True else None
        t0 = tm._constrain_raw(t, b_not(atom(cv)))
        if not depends(t1, cv) and not depends(t0, cv):
            if t1 is TRUE:
                return b_or(init, tm.mk_any(D, t0, v)), None
            if t0 is FALSE:
                return b_and(init, b_not(tm.mk_any(D, b_not(t1), v))), None
    r = c_add(D, v, cv, init, t)
    if r is not None:
        return r
    for f in (c_seq, c_or, c_assign, c_elem, c_store, c_obj, c_mul, c_minmax, c_set, c_adv):
        r = f(it, D, v, cv, init, t)
        if r is not None:
            return r, None
    return fold(D, v, cv, init, t), None


def peeled(it, D, v, cv, init, t):
    """x = f(i) on the first iteration, x (op)= f(i) afterwards"""
    first = None
    nn = atom(mk('isnone', cv))
    ats = tm.dd_atoms(t) if t.op in ('ite', 'num', 'or') else set()
    z = mk('eq0', v)
    if mk('isnone', cv) in ats and init is NONE:
        first = nn
    elif z in ats:
        first = atom(z)
    if first is None:
        return None
    t1 = constrain(t, first)
    t0 = constrain(t, b_not(first))
    if depends(t1, cv):
        return None
    if first is not nn:
        # t1 was specialised to v == 0
        pass
    e0 = tm.eq0(tm.dom_len(D))
    d = or_delta(t0, cv)
    if d is not None and same_mod_first(d, t1, v, first, nn):
        return phi(e0, init, tm.mk_orfold(D, d, v))
    d = add_delta(t0, cv)
    if d is not None and same_mod_first(d, t1, v, first, nn):
        return phi(e0, init, tm.mk_sum(D, d, v))
    return None


def same_mod_first(d, t1, v, first, nn):
    if d is t1:
        return True
    if first is not nn and not depends(t1, v):
        return subst(d, {v: Q0}) is t1
    return False


def c_add(D, v, cv, init, t):
    if init.op in tm.SEQ or init.op in ('dict', 'obj'):
        return None
    d = add_delta(t, cv)
    if d is None:
        return None
    val = add(init, tm.mk_sum(D, d, v))
    pf = None
    if not depends(d, v):
        pf = add(init, mul(d, v))
    return val, pf


def add_delta(t, cv):
    """d with t == cv + d, d free of cv"""
    if t.op == 'wh':
        m, a, b = t.args
        if depends(m, cv):
            return None
        da, db = add_delta(a, cv), add_delta(b, cv)
        if da is None or db is None:
            return None
        return wh(m if is_bool(m) else atom(m), da, db)
    if not tm.numericable(t):
        return None
    if t is cv:
        return Q0
    if t.op not in ('num', 'ite'):
        return None
    p = tm.to_poly(t)
    m = ((cv, 1),)
    if p.get(m) is not Q1:
        # contributions hidden in elementwise selects
        rest = dict(p)
        tot = None
        for mm, c in p.items():
            if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == 'wh' and c is Q1:
                d = add_delta(mm[0][0], cv)
                if d is not None:
                    r2 = {k: x for k, x in p.items() if k != mm}
                    r = tm.from_poly(r2)
                    if not depends(r, cv):
                        return add(r, d)
        return None
    p = {k: c for k, c in p.items() if k != m}
    d = tm.from_poly(p)
    if depends(d, cv):
        return None
    return d


def or_delta(t, cv):
    if t is cv:
        return Q0
    if t.op == 'wh':
        m, a, b = t.args
        if depends(m, cv):
            return None
        da, db = or_delta(a, cv), or_delta(b, cv)
        if da is None or db is None:
            return None
        return wh(atom(m) if not is_bool(m) else m, da, db)
    if t.op == 'or' or (t.op == 'ite' and not is_bool(t) and tm.orable(t)):
        d = tm.to_or(t)
        if d.get(cv) is not TRUE:
            # cv hidden in a select
            for e, g in d.items():
                if e.op == 'wh' and g is TRUE:
                    x = or_delta(e, cv)
                    if x is not None:
                        rest = tm.from_or({k: y for k, y in d.items() if k is not e})
                        if not depends(rest, cv):
                            return bitor(rest, x)
            return None
        d = {e: g for e, g in d.items() if e is not cv}
        r = tm.from_or(d)
        if depends(r, cv):
            return None
        return r
    return None


def c_or(it, D, v, cv, init, t):
    d = or_delta(t, cv)
    if d is None:
        return None
    return bitor(init, tm.mk_orfold(D, d, v))


def leaves_guarded(t):
    """[(guard, leaf)] of a diagram"""
    if t.op in ('num', 'or'):
        x = tm.expand(t)
        t = x if x is not None else t
    if t.op != 'ite' or is_bool(t):
        return [(TRUE, t)]
    acc = {}

    def go(x, g):
        if x.op != 'ite':
            acc[x] = b_or(acc.get(x, FALSE), g)
            return
        a = atom(x.args[0])
        go(x.args[1], b_and(g, a))
        go(x.args[2], b_and(g, b_not(a)))
    if tm.npaths(t) > 64:
        return None
    go(t, TRUE)
    return [(g, x) for x, g in acc.items()]


def c_assign(it, D, v, cv, init, t):
    """conditional assignment: cv unchanged or set to something not involving cv"""
    me = cvterm(init, cv)
    if is_bool(t) and is_bool(init):
        t1 = tm._constrain_raw(t, atom(cv))
        t0 = tm._constrain_raw(t, b_not(atom(cv)))
        if depends(t1, cv) or depends(t0, cv):
            return None
        # t = cv ? t1 : t0 ; assigned where t1 == t0
        g = b_not(tm.b_xor(t1, t0))
        val = tm._constrain_raw(t1, g)
        return _assign_close(D, v, init, g, val)
    lv = leaves_guarded(t)
    if lv is None:
        return None
    g = FALSE
    val = None
    for gg, x in lv:
        if depends(gg, cv):
            return None
        if x is cv:
            continue
        if depends(x, cv):
            return None
        g = b_or(g, gg)
    if not any(x is cv for gg, x in lv):
        return None
    val = constrain(t, g)
    if depends(val, cv):
        val = None
        for gg, x in lv:
            if x is not cv:
                val = x if val is None else phi(gg, x, val)
    return _assign_close(D, v, init, g, val)


def _assign_close(D, v, init, g, val):
    if not depends(val, v):
        return phi(tm.mk_any(D, g, v), val, init)
    return phi(tm.mk_any(D, g, v), mk_last(D, g, val, v), init)


def c_seq(it, D, v, cv, init, t):
    """appending"""
    if t.op not in ('cat', 'ite', 'fmt'):
        return None
    lv = leaves_guarded(t)
    if lv is None:
        return None
    guard = FALSE
    elems = []
    for g, x in lv:
        if depends(g, cv):
            return None
        if x is cv:
            continue
        if x.op != 'cat' or x.args[0][0] is not cv:
            return None
        rest = x.args[0][1:]
        if any(depends(y, cv) for y in rest):
            return None
        if len(rest) == 1 and rest[0].op == 'list' and len(rest[0].args[0]) == 1:
            elems.append((g, rest[0].args[0][0]))
        else:
            elems.append((g, None))
        guard = b_or(guard, g)
    if not elems:
        return None
    if all(e is not None for g, e in elems):
        val = elems[0][1]
        for g, e in elems[1:]:
            val = phi(g, e, val)
        val = constrain(val, guard)
        return concat(init, tm.mk_map(D, val, guard, v))
    # several elements per iteration
    parts = mk('list', ())
    for g, x in lv:
        if x is cv:
            continue
        rest = x.args[0][1:]
        p = rest[0] if len(rest) == 1 else mk('cat', rest)
        parts = p if parts.op == 'list' and not parts.args[0] else phi(g, p, parts)
    return concat(init, tm.bind('flat', D, (parts, guard), v))


def c_elem(it, D, v, cv, init, t):
    """elementwise conditional assignment x[m] = val"""
    if t.op != 'wh':
        return None
    val = [None]
    ok = [True]

    def go(x):
        """mask where x is not cv"""
        if x is cv:
            return FALSE
        if x.op == 'wh':
            m = atom(x.args[0]) if not is_bool(x.args[0]) else x.args[0]
            if depends(m, cv):
                ok[0] = False
                return FALSE
            return tm._ite_raw(m, go(x.args[1]), go(x.args[2]))
        if depends(x, cv) or (val[0] is not None and val[0] is not x):
            ok[0] = False
            return FALSE
        val[0] = x
        return TRUE
    m = go(t)
    if not ok[0] or val[0] is None:
        return None
    if not depends(val[0], v):
        return wh(tm.mk_any(D, m, v), val[0], init)
    return wh(tm.mk_any(D, m, v), mk_last(D, m, val[0], v), init)


def inj_key(k, v):
    """the key takes a different value on every iteration"""
    if k[0] != 'i' or not isinstance(k[1], T):
        return False
    x = k[1]
    if x is v:
        return True
    if x.op == 'num':
        d = sub(x, v)
        return not depends(d, v)
    if x.op == 'rd' and x.args[1] == ('i', v) and not depends(x.args[0], v):
        return 'assumed'
    if x.op == 'tuple':
        return any(inj_key(('i', y), v) for y in x.args[0])
    return False


def strip_reads(t, cv, key, init):
    """replace rd(cv, key) by rd(init, key)"""
    return tm.replace(t, {mk('rd', cv, key): tm.rd(init, key)})


def c_store(it, D, v, cv, init, t):
    lv = leaves_guarded(t)
    if lv is None:
        return None
    g = FALSE
    key = None
    val = None
    for gg, x in lv:
        if depends(gg, cv):
            return None
        if x is cv:
            continue
        if x.op != 'st' or x.args[0] is not cv:
            return None
        if key is not None and key != x.args[1]:
            return None
        key = x.args[1]
        y = x.args[2]
        val = y if val is None else phi(gg, y, val)
        g = b_or(g, gg)
    if key is None or depends(key, cv):
        return None
    val = constrain(val, g)
    if depends(val, cv):
        if not inj_key(key, v):
            return None
        val = strip_reads(val, cv, key, init)
        if depends(val, cv):
            return None
    if not depends(key, v) :
        return None
    return tm.mk_bulk(init, D, key, val, g, v)


def c_obj(it, D, v, cv, init, t):
    """independent components"""
    lv = leaves_guarded(t)
    if lv is None:
        return None
    keys = []
    basestep = None
    for gg, x in lv:
        if depends(gg, cv):
            # guards over components of cv are allowed when the same component is stored
            pass
        y = x
        if y.op == 'obj':
            for k, vv in y.args[1]:
                if k not in keys:
                    keys.append(k)
            y = y.args[0]
        b = y
        basestep = b if basestep is None else (phi(gg, b, basestep) if b is not basestep else b)
    if not keys:
        # a store chain over the same object: st(obj...) handled above
        return None
    if depends(tuple(keys), v):
        return None
    res = {}
    for k in keys:
        sc = fresh_cv(tm.rd(init, k))
        ki = tm.rd(init, k)
        t_k = tm.rd(t, k)
        t_k = tm.replace(t_k, {mk('rd', cv, k): cvterm(ki, sc)})
        if depends(t_k, cv):
            return None
        r = classify(it, D, v, sc, ki, t_k)
        res[k] = r[0]
    nb = init
    if basestep is not cv:
        if not depends(basestep, cv):
            return None
        r = classify(it, D, v, cv, init, basestep)
        if r is None or r[0].op == 'fold':
            return None
        nb = r[0]
    r = nb
    for k, x in res.items():
        r = tm.store(r, k, x)
    return r


def c_mul(it, D, v, cv, init, t):
    if not tm.numericable(t) or t.op not in ('num', 'ite'):
        return None
    x = tm.div(t, cv) if t.op == 'num' and not tm.num_guard_atoms(t) else None
    if x is None or depends(x, cv):
        return None
    return mul(init, tm.bind('prod', D, (x,), v))


def c_minmax(it, D, v, cv, init, t):
    if t.op in ('min', 'max') and cv in t.args[0]:
        rest = [x for x in t.args[0] if x is not cv]
        r = tm.minmax(t.op, rest)
        if depends(r, cv):
            return None
        return tm.minmax(t.op, [init, tm.bind(t.op + 'd', D, (r, TRUE), v)])
    return None


def c_set(it, D, v, cv, init, t):
    lv = leaves_guarded(t)
    if lv is None:
        return None
    el = None
    g = FALSE
    for gg, x in lv:
        if depends(gg, cv):
            return None
        if x is cv:
            continue
        if x.op != 'setor' or x.args[0] is not cv or x.args[1].op != 'set' or len(x.args[1].args[0]) != 1:
            return None
        e = x.args[1].args[0][0]
        if depends(e, cv):
            return None
        el = e if el is None else phi(gg, e, el)
        g = b_or(g, gg)
    if el is None:
        return None
    m = mk('setterm', tm.mk_map(D, el, g, v))
    if init.op == 'set' and not init.args[0]:
        return m
    return mk('setor', init, m)


def c_adv(it, D, v, cv, init, t):
    """random stream consumed by every iteration"""
    def has_adv(x):
        while x.op == 'adv':
            x = x.args[0]
        return x is cv
    lv = leaves_guarded(t)
    if lv is None or not all(x is cv or x.op == 'adv' and has_adv(x) for g, x in lv):
        return None
    if t.op == 'adv' and not depends(tuple(t.args[1:]), cv):
        pass
    return mk('adv', init, tm.bind('advloop', D, (subst(t, {cv: mk('acc', 'rng')}),), v))


def fold(D, v, cv, init, t):
    d = 1 + acc_depth(t)
    return tm.bind('fold', (init, D), (subst(t, {cv: mk('acc', d)}),), v)


def acc_depth(t):
    m = [0]
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op == 'acc' and isinstance(x.args[0], int):
            m[0] = max(m[0], x.args[0])
        for y in x.args:
            go(y)
    go(t)
    return m[0]


def joint_fold(it, D, v, cells, inits, pend, sub_map, done):
    ts = {c: subst(pend[c], sub_map) if sub_map else pend[c] for c in pend}
    okey = {c: (inits[c].ok, ts[c].ok, cells[c].args[0]) for c in pend}
    cs = sorted(pend, key=lambda z: okey[z])
    d = 1 + max(acc_depth(ts[c]) for c in cs)
    # canonical order of the jointly carried values: by initial value and step shape
    allc = [c for c in cells if any(depends(ts[x], cells[c]) for x in cs)]
    mp = {}
    rest = sorted(set(allc) - set(cs), key=lambda z: (inits[z].ok, cells[z].args[0]))
    for i, c in enumerate(cs + rest):
        mp[cells[c]] = mk('accj', d, i)
    bodies = tuple(subst(ts[c], mp) for c in cs)
    ini = tuple(inits[c] for c in cs)
    j = tm.bind('foldj', (ini, D), bodies, v)
    for i, c in enumerate(cs):
        r = mk('foldproj', j, i)
        done[c] = atom(r) if is_bool(inits[c]) else r


def _reg(op):
    tm.BINDERS[op] = lambda pre, bs, v: tm.bind(op, pre, bs, v)


for _o in ('foldj', 'domprefix', 'exitfirst', 'advloop', 'lstep', 'lev'):
    _reg(_o)


# ------------------------------------------------------------------ while
def while_loop(it, node, st):
    """counting while loops are for loops; anything else is not modelled"""
    fr = it.stack[-1]
    pre = st.copy()
    s_ = pre.copy()
    it.quiet += 1
    ev0 = len(it.events)
    saved = fr.exits
    fr.exits = []
    r0 = it.risky
    it.risky = [] if r0 is not None else None
    raw0 = (it.loopno, len(it.rawloops)) if it.rawloops is not None else None
    try:
        r = it.exec_block(node.body, s_)
        states = [r] + [State(e.state.envs, e.state.heap, e.pc) for e in fr.exits if e.kind == 'continue']
        m = it.merge([x for x in states if x is not None])
    finally:
        it.quiet -= 1
        del it.events[ev0:]
        fr.exits = saved
        it.risky = r0
        if raw0 is not None:
            it.loopno = raw0[0]
            del it.rawloops[raw0[1]:]
    cand = None
    if m is not None:
        for n, h in pre.envs[fr.fid].items():
            h2 = m.envs[fr.fid].get(n)
            if not isinstance(h, Val) or not isinstance(h2, Val) or h.t is h2.t:
                continue
            d = sub(h2.t, h.t) if tm.numericable(h.t) and tm.numericable(h2.t) else None
            if d is Q1 and any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(node.test)):
                cand = (n, h.t)
    if cand is None:
        it.unk('while', node)
        # havoc everything the body assigns
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.envs[fr.fid][x.id] = it.unk('while', node)
        return st
    n, init = cand
    v = fresh_fv()
    s2 = pre.copy()
    s2.envs[fr.fid][n] = Val(v)
    c = truth(it.evalc(node.test, s2))
    bound = None
    if c.op == 'ite' and c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE) and c.args[0].op == 'lt0':
        p = c.args[0].args[0]
        pos = c.args[1] is TRUE
        d = sub(p, v)
        if pos and not depends(d, v):
            bound = tm.neg(d)              # v - n < 0
        d = add(p, v)
        if not pos and not depends(d, v):
            bound = add(d, Q1)             # not (n - v < 0)
    elif c.op == 'ite' and c.args[0].op == 'eq0' and c.args[1] is FALSE and c.args[2] is TRUE:
        p = c.args[0].args[0]
        for sg in (1, -1):
            d = sub(p, v) if sg > 0 else add(p, v)
            if not depends(d, v):
                bound = tm.neg(d) if sg > 0 else d
    if bound is None:
        it.unk('while', node)
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.envs[fr.fid][x.id] = it.unk('while', node)
        return st
    D = tm.dom_n(sub(bound, init))

    def body(s3, vv):
        s3.envs[fr.fid][n] = Val(add(init, vv))
        return [it.exec_block(node.body, s3)]
    return close_loop(it, node, D, body, st, node.orelse)
