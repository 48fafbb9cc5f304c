"""Loop summarisation: widening of the cells the body changes, induction-variable recognition,
per-iteration write ranges, exit-condition solving."""
from .expr import *
from . import expr as E
from .mem import Imprecise, Block


def is_kdep(e, ids):
    return contains(e, lambda x: x in ids)


class Cell:
    __slots__ = ('bid', 'off', 'path', 'v0', 'ty', 'kind', 'step', 'name', 'pend', 'tries')

    def __init__(self, bid, off, path, v0, ty, name):
        self.bid, self.off, self.path, self.v0, self.ty, self.name = bid, off, path, v0, ty, name
        self.kind = 'phi'
        self.step = None
        self.tries = 0
        self.pend = None      # step on each path through the body


def diff_values(I_, a, b, ty, path, out):
    """paths at which value b (after an iteration) differs from a (before)"""
    if a == b:
        return
    T = I_.T
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and not T.is_union(a[1]):
        fl = T.fields(a[1], a[2])
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            diff_values(I_, x, y, fl[i][1] if i < len(fl) else None, path + (i,), out)
        return
    if a[0] == 'agg' and b[0] == 'agg' and T.is_union(a[1]) and a[1:3] == b[1:3]:
        diff_values(I_, a[3][0], b[3][0], T.fields(a[1])[a[2]][1], path + (0,), out)
        return
    if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
        if a[2] != b[2]:
            out.append((path + ('off',), a[2], b[2], None))
        if a[3] != b[3]:
            if a[3] is None or b[3] is None:
                out.append((path, a, b, ty))
            else:
                out.append((path + ('meta',), a[3], b[3], None))
        return
    if a[0] == 'vec' and b[0] == 'vec' and a[2] == b[2]:
        if a[3] != b[3]:
            out.append((path + ('len',), a[3], b[3], None))
        if a[4] != b[4]:
            out.append((path + ('cap',), a[4], b[4], None))
        return
    if a[0] == 'it' and b[0] == 'it' and a[:2] == b[:2]:
        out.append((path + ('pos',), a[2], b[2], None))
        return
    out.append((path, a, b, ty))


def set_path(I_, v, path, new):
    if not path:
        return new
    h = path[0]
    if h == 'off':
        return ('ptr', v[1], new, v[3])
    if h == 'meta':
        return ('ptr', v[1], v[2], new)
    if h == 'len':
        return ('vec', v[1], v[2], new, v[4])
    if h == 'cap':
        return ('vec', v[1], v[2], v[3], new)
    if h == 'pos':
        return ('it', v[1], new) + v[3:]
    fs = v[3]
    return ('agg', v[1], v[2], fs[:h] + (set_path(I_, fs[h], path[1:], new),) + fs[h + 1:])


def get_path(v, path):
    for h in path:
        if h == 'off':
            return v[2] if v[0] == 'ptr' else None
        if h == 'meta':
            return v[3] if v[0] == 'ptr' else None
        if h == 'len':
            return v[3] if v[0] == 'vec' else None
        if h == 'cap':
            return v[4] if v[0] == 'vec' else None
        if h == 'pos':
            return v[2] if v[0] == 'it' else None
        if v[0] != 'agg' or h >= len(v[3]):
            return None
        v = v[3][h]
    return v


def numeric(v):
    return E.is_num(v) and v[0] not in ('S', 'phi', 'er', 'call', 'deref', 'elem', 'F', 'T') or (v[0] in ('S', 'F', 'elem', 'deref', 'phi') and (v[-1] is None or (E.TY and E.TY.is_num(v[-1]))))


def same_shape(a, b, ren):
    """pair the opaque non-numeric results which differ between two values"""
    if a == b:
        return
    if a[:1] == ('call',) and b[:1] == ('call',) and a[1] == b[1] and a[-1] == b[-1] and not numeric(a):
        ren[a] = b
        return
    if len(a) != len(b):
        return
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple):
            same_shape(x, y, ren)


def subsumed(h, b):
    """is state b an instance of state h, under some values of the opaque results h holds?"""
    ren = {}
    gone = set()
    for bid, hb in h.mem.items():
        bb = b.mem.get(bid)
        if bb is None:
            if bid[0] != 'L':
                return None, gone
            gone.add((bid, None))
            continue
        if bb is hb:
            continue
        for off, e in hb.entries.items():
            if e[2][0] == 'undef':
                continue
            f = bb.entries.get(off)
            if f is None or f[0] != e[0]:
                gone.add((bid, off))
                continue
            same_shape(e[2], f[2], ren)
    if any(bid[0] == 'H' and bid not in h.mem for bid in b.mem):
        return None, set()
    memo = {}
    for bid, hb in h.mem.items():
        bb = b.mem.get(bid)
        if bb is None or bb is hb and not ren:
            continue
        for off, e in hb.entries.items():
            if e[2][0] == 'undef' or (bid, off) in gone:
                continue
            if subst(e[2], ren, memo) != bb.entries[off][2]:
                return None, set()
        if len(hb.log) != len(bb.log) or any(subst_log(x, ren, memo) != y for x, y in zip(hb.log, bb.log)) or hb.size != bb.size:
            return None, set()
    if gone:
        return None, gone
    def old(x):
        return contains(x, lambda y: y in ren)
    if any(old(x) for x in h.notes.values() if isinstance(x, tuple)) or any(old(x) for x in h.events if isinstance(x, tuple) and x[0] == 'loop'):
        return None, set()
    for x, (lo, hi) in h.facts.iv.items():
        if old(x):
            l, u = b.facts.bounds(subst(x, ren, memo))
            if l < lo or u > hi:
                return None, set()
    for x, ns in h.facts.ne.items():
        if old(x):
            y = subst(x, ren, memo)
            l, u = b.facts.bounds(y)
            if any(n not in b.facts.ne.get(y, ()) and l <= n <= u for n in ns):
                return None, set()
    for c, v in h.facts.raw.items():
        if old(c) and b.facts.decide(subst(c, ren, memo)) != v:
            return None, set()
    for x in h.facts.lins:
        if old(x) and not b.facts.decide(mk_cmp('Le', ZERO, subst(x, ren, memo))):
            return None, set()
    return True, set()


def explore(I_, st, fr, header, body, lid, k, where):
    """follow the loop from its entry until every state at the head is an instance of an earlier one: for loops which carry only
    opaque results (an error to be looked at in the next round) from one round to the next.  None when that does not happen."""
    uid = fr.uid
    gone = set()
    for attempt in range(6):
        s0 = st.copy()
        for bid, off in gone:
            if bid in s0.mem:
                if off is None:
                    del s0.mem[bid]
                else:
                    I_.wblock(s0, bid).entries.pop(off, None)
        heads = []
        work = [(s0, ())]
        ends = []
        pruned = []
        more = set()
        while work and not more:
            h, before = work.pop()
            if len(heads) >= 8:
                return None
            h.out = None
            h.f.fresh = False
            snap = h.copy()
            chain = before + (snap,)
            heads.append(snap)
            for r in I_.run(h, (uid, header, body)):
                if r.out[0] == 'unk':
                    return None
                if r.out != ('back',):
                    ends.append(r)
                    continue
                new = set()
                for a in chain:
                    ok, g = subsumed(a, r)
                    if ok:
                        pruned.append(r)
                        break
                    new |= g
                else:
                    if new:
                        more |= new
                        break
                    work.append((r, chain))
        if more:
            if more <= gone:
                return None
            gone |= more
            continue
        break
    else:
        return None
    nb = len(st.events)
    bodies = tuple((b.events[nb:], b.facts.log[len(st.facts.log):]) for b in pruned)
    bobl = ()
    for b in pruned:
        bobl = bobl + b.obl[len(st.obl):]
    for e in ends:
        if pruned:
            e.events = st.events + (('loop', lid, k, k, bodies, where),) + e.events[nb:]
            e.obl = st.obl + bobl + e.obl[len(st.obl):]
        if e.out[0] == 'exit':
            e.out = None
            e.f.fresh = True
    return ends


def summarise(I_, st, fr, header, body, depth=0):
    fn = I_.p.fns[fr.fid]
    uid = fr.uid
    lid = st.fresh('loop')
    lid = (lid, st.ks)
    k = ('k', lid)
    where = (fn['path'], fr.line)
    cells = {}     # (bid, off, path) -> Cell
    dropped = set()  # (bid, off) entries undefined at the loop head
    rngs = ()      # [(bid, woff(k), size, ty, val(k))]
    base_events = len(st.events)
    results = None
    limits = []
    refuted = []
    for rnd in range(40):
        s = st.copy()
        s.ks = st.ks + (k,)
        s.facts.assume(mk_cmp('Le', ZERO, k), True, log=False)
        for n in limits:
            s.facts.assume(mk_cmp('Le', k, n), True, log=False)
        apply_cells(I_, s, cells, dropped, rngs, k, lid)
        s.f.fresh = False
        start = s.copy()
        nlog = len(s.facts.log)
        ncond = len(s.facts.raw)
        rs = I_.run(s, (uid, header, body))
        backs = [r for r in rs if r.out == ('back',)]
        changed = False
        newr = []
        for c in cells.values():
            c.pend = {}
        for i, b in enumerate(backs):
            changed |= diff_states(I_, st, start, b, cells, dropped, rngs, k, lid, newr, fr, i)
        for c in cells.values():
            if c.kind == 'pw':
                changed |= settle_pw(c, backs, nlog, k, lid)
        if rnd == 0 and depth == 0 and any(c.kind == 'phi' and c.ty is not None and not I_.T.is_num(c.ty) for c in cells.values()):
            r = explore(I_, st, fr, header, body, lid, k, where)
            if r is not None:
                return r
        if not changed:
            changed = relate(cells, dropped, len(backs))
        newr = merge_writes(newr, backs, nlog)
        if rnd >= 8:
            newr = newr + tuple(r for r in rngs if r[1] is None and r not in newr)
        if newr != rngs:
            # keep the union of what every back edge writes
            rngs = newr
            changed = True
        # a guard every iteration passes bounds the iteration number from the header on
        conts = backs + [r for r in rs if r.out[0] == 'unk']
        guards = [b.facts.log[nlog:] for b in conts]
        found = [n for n in (solve_exit(I_, st, r, nlog, guards, k) for r in rs if r.out[0] == 'exit') if n is not None] if conts else None
        if found and all(isint(n) for n in found) and max(n[1] for n in found) <= 40:
            s = st.copy()
            s.f.unroll = s.f.unroll + (header,)
            s.f.fresh = True
            return [s]
        if found is not None:
            new = [n for n in found if n not in limits and n not in refuted]
            gone = [n for n in limits if n not in found]
            if gone:
                refuted.extend(gone)
                limits = [n for n in limits if n not in gone]
                changed = True
            if new:
                limits.extend(new)
                changed = True
        # unswitch on loop-invariant conditions
        inv = invariant_cond(st, rs, nlog, k, lid)
        if inv is not None and depth < 12 and not changed:
            out = []
            for val in (True, False):
                s2 = st.copy()
                s2.ctr['loop'] = lid[0] if isinstance(lid[0], int) else s2.ctr['loop']
                if s2.facts.assume(inv, val):
                    out.extend(summarise(I_, s2, s2.f, header, body, depth + 1))
            return out
        if not changed:
            results = rs
            break
    else:
        st.out = ('unk', 'loop widening did not stabilise')
        I_.locate(st)
        return [st]
    out = []
    bodies = []
    for b in backs:
        ev = b.events[base_events:]
        bodies.append((ev, b.facts.log[nlog:]))
    bodies = tuple(bodies)
    fam = st.fam
    for b in backs:
        conds = tuple(b.facts.log[nlog:])
        for bid, blk in b.mem.items():
            if bid[0] == 'H' and bid not in st.mem and k in bid[2]:
                fam = fam + ((bid, blk, conds),)
        fam = fam + tuple((i, x, cs + conds) for i, x, cs in b.fam[len(st.fam):])
    # obligations raised inside the body are kept with the loop
    exits = [r for r in results if r.out[0] == 'exit']
    others = [r for r in results if r.out[0] not in ('exit', 'back')]
    guards = [b.facts.log[nlog:] for b in backs]
    count_const = None
    solved = []
    for e in exits:
        solved.append(solve_exit(I_, st, e, nlog, guards, k))
    # small constant trip counts are unrolled instead
    ns = [n for n in solved if n is not None]
    if backs and ns and all(isint(n) for n in ns) and max(n[1] for n in ns) <= 40:
        s = st.copy()
        s.f.unroll = s.f.unroll + (header,)
        s.f.fresh = True
        return [s]
    if not backs and any(r.out[0] == 'unk' for r in others):
        return others
    if not backs:
        # no iteration ever completes: run straight through
        s = st.copy()
        s.f.unroll = s.f.unroll + (header,)
        s.f.fresh = True
        return [s]
    maxo = max([len(b.obl) for b in backs] or [0])
    bobl = ()
    for b in backs:
        bobl = bobl + b.obl[len(st.obl):]
    for e, n in zip(exits, solved):
        ev = e.events[base_events:]
        cnt = n if n is not None else k
        if n is not None:
            subst_state(I_, e, {k: n}, st, lid)
            if e.out is not None and e.out[0] == 'dead':
                continue
        # value-level note: k is bounded by the exit condition
        e.events = st.events + (('loop', lid, cnt, k, bodies, where),) + tuple(subst_ev(x, {k: cnt}) for x in ev)
        e.ks = st.ks
        e.fam = fam
        e.obl = st.obl + tuple(x for x in bobl) + e.obl[len(st.obl):]
        e.out = None
        e.f.fresh = True
        out.append(e)
    for e in others:
        ev = e.events[base_events:]
        e.events = st.events + (('loop', lid, k, k, bodies, where),) + ev
        e.ks = st.ks
        e.fam = fam
        out.append(e)
    return out


PW = []
PWI = {}


def mk_pw(cases):
    """piecewise value: ((conditions, value), ...), kept in a table; the term holds the variables it depends on"""
    args = []
    for x in collect(cases, lambda y: y[0] in ('k', 'phi', 'j')):
        if x not in args:
            args.append(x)
    ps = tuple(('P', n) for n in range(len(args)))
    key = subst(cases, dict(zip(args, ps)))
    if key not in PWI:
        PWI[key] = len(PW)
        PW.append((ps, key))
    return ('pw', PWI[key]) + tuple(args)


def pw_cases(e):
    ps, cases = PW[e[1]]
    return subst(cases, dict(zip(ps, e[2:])))


def merge_writes(ws, backs, nlog):
    """what an iteration writes, whichever path it takes: the value where all paths agree, a piecewise value where each path
    writes its own, anything where some path does not write"""
    out = []
    pos = {r[:3]: n for n, (bi, r) in enumerate(ws)}       # the last write wins
    for bi, r in sorted(ws, key=lambda x: pos[x[1][:3]]):
        if r[1] is None:
            if r not in out:
                out.append(r)
            continue
        if any(q[:3] == r[:3] for q in out):
            continue
        same = [(i, q) for i, q in ws if q[:3] == r[:3]]
        last = {}
        for i, q in same:
            last[i] = q
        if len(last) < len(backs) or len({q[3] for q in last.values()}) > 1:
            r = (r[0], None, None, None, None)
            if r not in out:
                out.append(r)
            continue
        if len({q[4] for q in last.values()}) > 1:
            cases = tuple((tuple((x, v) for x, v in backs[i].facts.log[nlog:]), last[i][4]) for i in range(len(backs)))
            r = r[:4] + (mk_pw(cases),)
        else:
            r = last[0]
        out.append(r)
    return tuple(out)


def settle_pw(c, backs, nlog, k, lid):
    """the amount added by an iteration depends on the path taken through the body"""
    cases = []
    for i, b in enumerate(backs):
        step = c.pend.get(i, ZERO) if c.pend else ZERO
        conds = tuple((x, v) for x, v in b.facts.log[nlog:])
        if step is None or not sum_ok(step, k, lid) or not all(sum_ok(x, k, lid) for x, v in conds):
            c.kind = 'phi'
            c.step = None
            return True
        cases.append((conds, step))
    cases = tuple(cases)
    if cases != c.step:
        c.tries += 1
        if c.tries > 6:
            c.kind = 'phi'
            c.step = None
            return True
        c.step = cases
        return True
    return False


def subst_ev(x, m):
    return subst(x, m) if isinstance(x, tuple) else x


def subst_state(I_, e, m, st, lid):
    (kk, n), = m.items()
    e.facts = e.facts.subst(m)
    for c, v in e.facts.log:
        pass
    memo = {}
    nm = {}
    for bid, b in e.mem.items():
        nb = subst_block(b, m, memo)
        bid2 = subst(bid, m) if contains(bid, lambda x: x == kk) else bid
        nm[bid2] = nb
    e.mem = nm
    e.own = set()
    for f in e.frames:
        if isinstance(f.uid, tuple):
            pass
    e.retv = subst(e.retv, m) if e.retv is not None else None
    nd = {}
    for key, v in e.notes.items():
        nd[subst(key, m) if isinstance(key, tuple) else key] = v
    e.notes = nd


def subst_block(b, m, memo):
    ch = False
    ents = {}
    for o, (s, t, v) in b.entries.items():
        v2 = subst(v, m, memo)
        if v2 != v:
            ch = True
        ents[o] = (s, t, v2)
    log = []
    for w in b.log:
        w2 = subst_log(w, m, memo)
        if w2 != w:
            ch = True
        log.append(w2)
    size = subst(b.size, m, memo) if b.size is not None else None
    init = b.init
    if init is not None and init[0] in ('bulk', 'obj', 'arr'):
        i2 = (init[0], subst(init[1], m, memo)) + init[2:]
        if i2 != init:
            ch = True
            init = i2
    if not ch and size == b.size:
        return b
    nb = b.clone()
    nb.entries = ents
    nb.log = tuple(log)
    nb.size = size
    nb.init = init
    return nb


def subst_log(w, m, memo):
    if w[0] == 'copy':
        return ('copy', subst(w[1], m, memo), subst(w[2], m, memo), subst_block(w[3], m, memo), subst(w[4], m, memo))
    if w[0] == 'w':
        return ('w', subst(w[1], m, memo), w[2], w[3], subst(w[4], m, memo))
    if w[0] == 'bulk':
        return ('bulk', subst(w[1], m, memo), subst(w[2], m, memo), subst(w[3], m, memo))
    if w[0] == 'rng':
        return ('rng', subst(w[1], m, memo) if isinstance(m, dict) and w[1] not in m else w[1], subst(w[2], m, memo), w[3], w[4], subst(w[5], m, memo), subst(w[6], m, memo))
    if w[0] == 'havoc':
        return ('havoc', None if w[1] is None else subst(w[1], m, memo), None if w[2] is None else subst(w[2], m, memo))
    raise Imprecise('log')


def invariant_cond(st, rs, nlog, k, lid):
    """a condition branched on inside the body whose outcome cannot depend on the iteration"""
    def dep(x):
        if x == k:
            return True
        if x[0] == 'phi' and x[1][0] == lid:
            return True
        if x[0] == 'k' and x[1] != lid and isinstance(x[1], tuple) and len(x[1]) == 2:
            q = x[1] if isinstance(x[1][1], tuple) else x[1][0]
            if isinstance(q, tuple) and len(q) == 2 and isinstance(q[1], tuple) and k in q[1]:
                return True
        return False
    for r in rs:
        for c, v in r.facts.log[nlog:]:
            if not contains(c, dep) and st.facts.decide(c) is None:
                return c
    return None


def relate(cells, dropped, n):
    """cells which change by the same (or the opposite) amount as another one in every iteration"""
    def steps(c):
        return [c.pend.get(i, ZERO) for i in range(n)]
    for key, c in cells.items():
        if c.kind != 'rel':
            continue
        d = cells[c.step[0]]
        a, b = steps(c), steps(d)
        if any(x is None or y is None or sub(x, mulc(y, c.step[1])) != ZERO for x, y in zip(a, b)):
            c.kind, c.step = 'phi', None
            c.name = c.name + ('norel',)
            return True
    phis = [(key, c) for key, c in cells.items() if c.kind == 'phi' and c.pend and key[:2] not in dropped and numeric(c.v0)]
    bases = {c.step[0] for c in cells.values() if c.kind == 'rel'}
    for key, c in phis:
        if 'norel' in c.name or key in bases:
            continue
        a = steps(c)
        if any(x is None for x in a) or all(x == ZERO for x in a):
            continue
        for dkey, d in phis:
            if dkey == key:
                continue
            b = steps(d)
            if any(x is None for x in b):
                continue
            for sg in (1, -1):
                if all(sub(x, mulc(y, sg)) == ZERO for x, y in zip(a, b)):
                    c.kind, c.step = 'rel', (dkey, sg)
                    return True
    return False


def vec_facts(I_, s, v):
    """the length of a Vec never exceeds its capacity"""
    if v[0] == 'vec':
        if not isint(v[4]) and v[2][0] == 'H':
            es = I_.T.size(I_.T[v[1]]['args'][0])
            s.facts._ladd(sub(v[4], v[3]))
            if es and I_.block(s, v[2]).size != mulc(v[4], es):
                I_.wblock(s, v[2]).size = mulc(v[4], es)
    elif v[0] == 'agg':
        for x in v[3]:
            if isinstance(x, tuple) and x and x[0] in ('agg', 'vec'):
                vec_facts(I_, s, x)


def apply_cells(I_, s, cells, dropped, rngs, k, lid):
    by = {}
    for (bid, off, path), c in cells.items():
        by.setdefault((bid, off), []).append(c)
    for (bid, off), cs in by.items():
        if (bid, off) in dropped:
            continue
        b = I_.wblock(s, bid)
        size, ty, v = b.entries[off]
        for c in cs:
            nv = cell_value(I_, c, k, lid, cells)
            if (c.kind == 'rel' or c.kind == 'iv' and isint(c.step) and c.step[1] < 0) and (c.ty is None or not I_.T.signed(c.ty)):
                w = I_.T.size(c.ty) if c.ty is not None else 8
                s.facts.assume(mk_cmp('Le', ZERO, nv), True, log=False)
                s.facts.assume(mk_cmp('Le', nv, I((1 << 8 * w) - 1)), True, log=False)
            v = set_path(I_, v, c.path, nv)
        b.entries[off] = (size, ty, v)
        vec_facts(I_, s, v)
    for bid, off in dropped:
        b = I_.wblock(s, bid)
        b.entries.pop(off, None)
    for n, (bid, off, size, ty, val) in enumerate(rngs):
        b = I_.wblock(s, bid)
        j = ('k', (lid, 'j'))
        m = {k: j}
        if val is None:
            b.log = b.log + (('havoc', None, None),)
            continue
        b.log = b.log + (('rng', j, subst(off, m), size, ty, subst(val, m), k),)


def numeric_cell(c):
    return True


def cell_value(I_, c, k, lid, cells):
    if c.kind == 'rel':
        d = cells[c.step[0]]
        return add(c.v0, mulc(sub(cell_value(I_, d, k, lid, cells), d.v0), c.step[1]))
    if c.kind == 'iv':
        return add(c.v0, mul(k, c.step) if not isint(c.step) else mulc(k, c.step[1]))
    if c.kind == 'sum':
        j = ('k', (lid, 's'))
        return add(c.v0, mk_sum(j, k, subst(c.step, {k: j})))
    if c.kind == 'pw' and c.step:
        j = ('k', (lid, 's'))
        steps = {x for _, x in c.step}
        return add(c.v0, mk_sum(j, k, subst(mk_pw(c.step) if len(steps) > 1 else c.step[0][1], {k: j})))
    if c.ty is None:
        return ('phi', (lid, c.name), I_.usize)
    return I_.sym(('phi', (lid, c.name), c.ty), c.ty)


def diff_states(I_, st, start, b, cells, dropped, rngs, k, lid, newr, fr, bi):
    """compare the state after one iteration with the state at its start"""
    changed = False
    for bid, b0 in start.mem.items():
        if bid not in st.mem:
            # lazily created from caller-owned objects during apply: ignore
            if bid[0] in ('alloc',):
                continue
        b1 = b.mem.get(bid)
        if b1 is b0 or b1 is None:
            continue
        orig = st.mem.get(bid)
        for off in set(b0.entries) | set(b1.entries):
            if (bid, off) in dropped:
                continue
            e0, e1 = b0.entries.get(off), b1.entries.get(off)
            if e0 is None:
                # defined only inside the body: undefined (or dead) at the head
                continue
            if e1 is None or e1[0] != e0[0]:
                dropped.add((bid, off))
                changed = True
                continue
            if e0[2] == e1[2] or e0[2][0] == 'undef':
                continue
            v0 = orig.entries[off][2] if orig is not None and off in orig.entries else None
            ds = []
            diff_values(I_, e0[2], e1[2], e0[1], (), ds)
            # note: e0 already contains the induction expression of known cells
            for path, x0, x1, ty in ds:
                if x0[0] == 'undef':
                    # becomes defined during the first iteration
                    continue
                changed |= classify(I_, cells, dropped, bid, off, path, v0, x0, x1, ty if path else e0[1], k, lid, bi)
        # log growth
        l0, l1 = b0.log, b1.log
        if l1 != l0:
            nb = len(st.mem[bid].log) if bid in st.mem else 0
            if l1[:len(l0)] == l0:
                suf = l1[len(l0):]
            elif l1[:nb] == l0[:nb] and False:
                suf = l1[nb:]
            else:
                newr.append((bi, (bid, None, None, None, None)))
                continue
            for w in suf:
                if w[0] == 'w':
                    r = (bid, w[1], w[2], w[3], w[4])
                else:
                    r = (bid, None, None, None, None)
                if (bi, r) not in newr:
                    newr.append((bi, r))
    # blocks that entries appeared in only within the body keep no cross-iteration value
    return changed


def classify(I_, cells, dropped, bid, off, path, v0, x0, x1, ty, k, lid, bi):
    key = (bid, off, path)
    # an enclosing cell already widened?
    for n in range(len(path)):
        c = cells.get((bid, off, path[:n]))
        if c is not None and c.kind == 'phi':
            return False
    c = cells.get(key)
    init = get_path(v0, path) if v0 is not None else None
    if c is None:
        if init is None:
            # the shape changed under a widened parent: widen the whole entry
            dropped.add((bid, off))
            return True
        # sub-cells are superseded
        for kk in [kk for kk in cells if kk[0] == bid and kk[1] == off and len(kk[2]) > len(path) and kk[2][:len(path)] == path]:
            del cells[kk]
        c = Cell(bid, off, path, init, ty, (len(cells), str(bid), off, path))
        if numeric_pair(x0, x1):
            step = sub(x1, x0)
            if step_ok(step, k, lid):
                c.kind = 'iv'
                c.step = step
            elif sum_ok(step, k, lid):
                c.kind = 'sum'
                c.step = step
        cells[key] = c
        if c.kind == 'phi' and c.ty is None and not path_num(path):
            dropped.add((bid, off))
        return True
    if c.kind in ('iv', 'sum'):
        step = sub(x1, x0) if numeric_pair(x0, x1) else None
        if step == c.step:
            return False
        c.kind = 'pw' if step is not None and 'pw' not in c.name else 'phi'
        c.name = c.name + ('pw',)
        c.step = None
        c.pend = {bi: step}
        return True
    if c.kind == 'pw':
        if c.pend is None:
            c.pend = {}
        c.pend[bi] = sub(x1, x0) if numeric_pair(x0, x1) else None
        return False
    if c.pend is None:
        c.pend = {}
    c.pend[bi] = sub(x1, x0) if numeric_pair(x0, x1) else None
    if c.kind == 'rel':
        return False
    # phi: x0 is the phi symbol; is it in fact an induction variable?
    if numeric_pair(x0, x1) and c.name not in ('no',):
        step = sub(x1, x0)
        if not getattr_flag(c) and (step_ok(step, k, lid) or sum_ok(step, k, lid)):
            c.kind = 'iv' if step_ok(step, k, lid) else 'sum'
            c.step = step
            c.name = c.name + ('iv',)
            return True
    return False


def getattr_flag(c):
    return 'iv' in c.name


def path_num(path):
    return bool(path) and path[-1] in ('off', 'meta', 'len', 'cap', 'pos')


def numeric_pair(a, b):
    return numeric(a) and numeric(b)


def sum_ok(step, k, lid):
    bound = {x[1] for x in collect(step, lambda x: x[0] == 'sum')}
    return not contains(step, lambda x: (x[0] == 'phi' and x[1][0] == lid) or (x[0] == 'k' and x != k and x not in bound and contains(x, lambda y: y == k)))


def step_ok(step, k, lid):
    def dep(x):
        return x == k or (x[0] == 'phi' and x[1][0] == lid) or (x[0] in ('rd', 'er', 'pk', 'call') and contains(x, lambda y: y == k))
    return not contains(step, dep)


def solve_exit(I_, st, e, nlog, guards, k):
    """trip count when this exit is the loop guard failing, else None"""
    for c, v in e.facts.log[nlog:]:
        if not contains(c, lambda x: x == k):
            continue
        # every continuing path asserts the opposite
        if not guards or not all((c, not v) in g for g in guards):
            return None
        t = c[0]
        if t == 'eq':
            if not v:
                return None
            n = solve_lin(sub(c[1], c[2]), k)
            if n is None:
                return None
            if st.facts.decide(mk_cmp('Le', ZERO, n)):
                return n
            return None
        if t == 'lt':
            # continue while a<b (v False here), or continue while !(a<b)
            d = sub(c[2], c[1]) if not v else None
            if d is None:
                # continue while a >= b, i.e. a - b >= 0; exit when a - b < 0
                d = add(sub(c[1], c[2]), ('i', 1))
            # continue while d > 0 (d decreasing in k)
            ck = coef(d, k)
            if ck >= 0:
                return None
            s = -ck
            rest = sub(d, mulc(k, ck))
            if contains(rest, lambda x: x == k):
                return None
            q = divisible(rest, s)
            if q is None:
                return None
            if st.facts.decide(mk_cmp('Le', ZERO, q)):
                return q
            return None
        return None
    return None


def coef(e, k):
    for x, n in lin_parts(e)[1]:
        if x == k:
            return n
    return 0


def solve_lin(e, k):
    c = coef(e, k)
    if c == 0:
        return None
    rest = sub(e, mulc(k, c))
    if contains(rest, lambda x: x == k):
        return None
    return divisible(mulc(rest, -1 if c > 0 else 1), abs(c))
