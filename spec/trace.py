"""Comparison of the analysed paths of an entry point with its wire grammar."""
from engine.expr import *
from engine import expr as E
from engine import bits
from engine.interp import show, State
from engine.mem import Imprecise
from engine.loops import pw_cases, subst_block
from engine import models as MD
from .grammar import *

STREAM = ('R', 'RF', 'P', 'PF', 'E', 'EF', 'can', 'REOF', 'AF', 'W', 'WF', 'EW', 'EWF', 'canw')


def has_stream(events):
    for e in events:
        if e[0] in STREAM:
            return True
        if e[0] == 'loop' and any(has_stream(b[0]) for b in e[4]):
            return True
    return False


def canon(e, depth=0):
    """rename the bound variables of sums"""
    if not contains(e, lambda x: x[0] == 'sum'):
        return e

    def go(x):
        if isinstance(x, tuple) and x and x[0] == 'sum':
            d = go(x[3])
            n = 0
            while contains(d, lambda y: y == ('j', 'bound', n)):
                n += 1
            return ('sum', ('j', 'bound', n), go(x[2]), subst(d, {x[1]: ('j', 'bound', n)}))
        return x
    if e[0] == 'sum':
        return go(e)
    c, t = lin_parts(e)
    if len(t) == 1 and t[0][0] == e:
        return e
    out = I(c)
    for x, k in t:
        out = add(out, mulc(canon(x), k))
    return out


def split_cases(facts, s):
    """the facts in each of the cases"""
    out = []
    for c, v in s.cases:
        f = facts.copy()
        if not f.assume(c, v):
            continue
        if f.decide(c) is None:
            raise Undecided(str(s))
        out.append((f, (c, v)))
    return out


def cases(m, facts, fn, depth=0):
    """fn on the machine under these facts, in as many cases as the specification needs -> [(result, case)]"""
    try:
        return [(fn(m.at(facts)), ())]
    except Infeasible:
        return []
    except Split as s:
        if depth > 10:
            raise Undecided(str(s))
        return [(x, (c,) + cs) for f, c in split_cases(facts, s) for x, cs in cases(m, f, fn, depth + 1)]


class Machine:
    """what the specification needs from the abstract interpreter"""

    def __init__(self, I_, st):
        self.I = I_
        self.T = I_.T
        self.st = st

    def at(self, facts):
        s = self.st.copy()
        s.facts = facts
        s.ctr = {k: v + 1000 for k, v in s.ctr.items()}
        return Machine(self.I, s)

    def show(self, e):
        s = show(e)
        return s if len(s) < 300 else s[:300] + '...'

    def decide(self, c):
        return self.st.facts.decide(c)

    def iseof(self, fid):
        return self.decide_call('iseof', fid)

    def decide_call(self, name, arg):
        for c, v in self.st.facts.log:
            for x in (c, c[1] if c[0] == 'not' else None) + tuple(y for y in c[1:] if isinstance(y, tuple)):
                if isinstance(x, tuple) and x and x[0] == 'call' and x[1] == name and x[2] == arg:
                    r = self.decide(x)
                    if r is None:
                        r = self.decide(mk_not(mk_cmp('Eq', x, ZERO)))
                    if r is not None:
                        return bool(r)
        return None

    def eq_const(self, b, data):
        """do these bytes equal the constant on this path?"""
        r = self.decide(mk_cmp('Eq', b, I(int.from_bytes(data, 'little'))))
        if r is not None:
            return r
        n = len(data)
        known = [self.decide(mk_cmp('Eq', mk_sub(b, i, 1, n) if n > 1 else b, I(data[i]))) for i in range(n)]
        if False in known:
            return False
        if all(known):
            return True
        raise either(mk_cmp('Eq', b, I(int.from_bytes(data, 'little'))), 'the outcome does not depend on whether %s are the constant %r' % (self.show(b), data))

    def settle(self, e, ty):
        return self.I.settle(self.st, e, ty)

    def bits(self, e, ty):
        try:
            if self.T.is_enum(ty):
                e = self.settle(e, ty)
                if e[0] == 'agg' and all(not self.T.fields(ty, i) for i in range(self.T.nvariants(ty))):
                    return I(self.T.discr_of(ty, e[2]) & ((1 << 8 * self.T.size(ty)) - 1))
                return self.I.enum_bits(e, ty)
            return self.I.bits_of(e, ty)
        except Imprecise as x:
            raise Undecided(str(x))

    def part(self, v, off, size):
        """size bytes at an offset of the value's memory image"""
        t = self.T.byname['u%d' % (8 * size)]
        try:
            return self.bits(self.I.project(v.e, v.ty, off, t), t)
        except Imprecise as x:
            raise Undecided(str(x))

    def same(self, a, b, what):
        if a == b or a[0] == 'undef' and b[0] == 'undef':
            return
        if contains(a, lambda x: x == UNDEF):
            raise Mismatch('%s: uninitialised bytes instead of %s' % (what, self.show(b)))
        a, b = canon(a), canon(b)
        if a == b:
            return
        if E.is_num(a) and E.is_num(b):
            r = self.st.facts.decide(mk_cmp('Eq', a, b)) or bits.equal(a, b, self.st.facts)
        else:
            r = struct_eq(self.st.facts, a, b)
        if r:
            return
        if contains(a, lambda x: x[0] in ('snap', 'opaque', 'bytesof', 'mix')):
            raise Undecided('%s: %s' % (what, self.show(a)))
        raise Mismatch('%s: %s instead of %s' % (what, self.show(a), self.show(b)))

    def deref(self, e, ty):
        T = self.T
        if e[0] == 'ptr':
            if e[1][0] == 'ext' and e[2] == ZERO:
                x = e[1][1]
                p = T.pointee(x[-1])
                return V(self, self.I.sym(('deref', x, p), p) if T.meta_kind(p) is None else ('deref', x, p), p)
            p = T.pointee(ty)
            if T.meta_kind(p) is not None:
                return V(self, e, ty)
            return V(self, self.I.load(self.st, e[1], e[2], p), p)
        raise Undecided('deref of %r' % (e[:1],))

    def auto(self, v):
        if self.T.kind(v.ty) == 'ref':
            return self.deref(v.e, v.ty)
        return v

    def symv(self, x, ty):
        return V(self, self.I.sym(x, ty), ty)

    def tuple_of_refs(self, a, b):
        for i, t in enumerate(self.T.t):
            if t['k'] == 'tuple' and len(t['elems']) == 2:
                x, y = t['elems']
                if self.T.kind(x) == 'ref' and self.T.kind(y) == 'ref' and self.T.pointee(x) == a and self.T.pointee(y) == b:
                    return i
        raise Undecided('no entry type')

    def ref_to(self, a):
        c = None
        for i, t in enumerate(self.T.t):
            if t['k'] == 'ref' and t['to'] == a and not t['name'].startswith('&mut'):
                c = i
        if c is None:
            raise Undecided('no reference type')
        return c

    def seq(self, v):
        """(length, elem) of a symbolic caller-owned sequence"""
        T = self.T
        k = T.kind(v.ty)
        if k == 'ref' or (k == 'adt' and T[v.ty].get('isbox')):
            return self.seq(v.deref())
        if k in ('slice', 'str'):
            X = v.e
            e = T.elem(v.ty) if k == 'slice' else self.I.u8
            return ('len', X), lambda j: self.symv(('elem', X, j, e), e)
        if k == 'array':
            return I(T[v.ty]['len']), lambda j: self.elem_of_array(v, j)
        name = T[v.ty].get('path', '').split('::')[-1]
        if name == 'String':
            return self.seq(v.field(0))
        X = v.e
        args = T[v.ty].get('args', [])
        if name in ('Vec',):
            e = args[0]
            return ('len', X), lambda j: self.symv(('elem', X, j, e), e)
        if name == 'SmallVec':
            raise Undecided('SmallVec')
        if name.endswith('Map'):
            e = self.tuple_of_refs(args[0], args[1])
            return ('len', X), lambda j: self.symv(('elem', X, j, e), e)
        if name.endswith('Set'):
            e = self.ref_to(args[0])
            return ('len', X), lambda j: self.symv(('elem', X, j, e), e)
        raise Undecided('sequence type ' + T.name(v.ty))

    def elem_of_array(self, v, k):
        T = self.T
        e = T.elem(v.ty)
        if v.e[0] == 'rep':
            return V(self, v.e[2], e)
        if v.e[0] == 'agg':
            if isint(k):
                return V(self, v.e[3][k[1]], e)
            raise Undecided('array element')
        if isint(k):
            if E.is_num(v.e) and not self.I.is_symbolic(v.e):
                return V(self, self.I.coerce(self.I.project(v.e, None, k[1] * T.size(e), e, T.size(v.ty)), e, e), e)
            return V(self, self.I.field(v.e, v.ty, 0, k[1]), e)
        return self.symv(('elem', v.e, k, e), e)

    def total(self, n, g, el):
        if g.fixed is not None:
            return mulc(n, g.fixed) if g.fixed else ZERO
        if self.decide(mk_cmp('Eq', n, ZERO)):
            return ZERO
        x = self.piecewise(n, g, el)
        if x is not None:
            return x
        q = 0
        while ('j', 'tot', q) in self.st.facts.iv:
            q += 1
        j = ('j', 'tot', q)
        f = self.st.facts.copy()
        f._clamp(j, 0, ISIZE_MAX)
        f.assume(mk_cmp('Lt', j, n), True, log=False)
        try:
            return mk_sum(j, n, g.need(self.at(f), el(j)))
        except Split as s:
            x = self.piecewise(n, g, el, True)
            if x is None:
                raise Undecided(str(s))
            return x

    actual = None      # the computed size being compared

    def piecewise(self, n, g, el, every=False):
        """a sum in the computed size whose summand is, on each path through the loop body, the size of the element"""
        for x in collect(self.actual or (), lambda y: y[0] == 'sum' and (every or y[3][0] == 'pw')):
            if not self.decide(mk_cmp('Eq', x[2], n)):
                continue
            for conds, val in pw_cases(x[3]) if x[3][0] == 'pw' else (((), x[3]),):
                f = self.st.facts.copy()
                f._clamp(x[1], 0, ISIZE_MAX)
                ok = f.assume(mk_cmp('Lt', x[1], n), True, log=False)
                for c, v in conds:
                    ok = ok and f.assume(c, v, log=False)
                if not ok:
                    continue
                w = el(x[1])
                cases(self, f, lambda m2: m2.same(val, g.need(m2, V(m2, w.e, w.ty)), 'size of an element'))
            return x
        return None

    def piece(self, c, off, size):
        """bytes [off, off+size) of symbolic content c"""
        try:
            if c[0] == 'arrb':
                _, X, ety, o, n = c
                t = self.T.byname.get('u%d' % (8 * size))
                es = self.T.size(ety)
                q = divisible(add(o, off), es) if es else None
                if q is None:
                    raise Undecided('unaligned piece')
                if size % es == 0:
                    ps = []
                    for i in range(size // es):
                        v = self.symv(('elem', X, add(q, I(i)), ety), ety)
                        ps.append((self.bits(v.e, ety), es))
                    return mk_cat(tuple(ps))
                raise Undecided('piece')
            if c[0] == 'span':
                return self.piece(c[1], add(c[2], off), size)
            if c[0] == 'snap':
                b = MD.SNAPS[c[1]]
                t = self.T.byname.get('u%d' % (8 * size))
                if t is None:
                    raise Undecided('piece size')
                return self.I.load_b(self.st, b, add(c[2], off), t, 0, len(b.log))
            if c[0] == 'fill':
                x = c[1]
                return mk_cat(tuple((x, 1) for _ in range(size))) if size > 1 else x
            return mk_bsub(c, off, size)
        except Imprecise as x:
            raise Undecided(str(x))


class Trace:
    def __init__(self, m, events, endian, evs=None, pos=ZERO):
        self.m = m
        self.ev = [e for e in events if e[0] in STREAM or (e[0] == 'loop' and has_stream((e,)))]
        self.i = 0
        self.off = 0
        self.endian = endian
        self.pos = pos
        self.lower = []
        self.peeked = None
        self.env = {}
        self.eof_ok = 0
        self.borrow = False
        self.index0 = None

    def le(self):
        if self.endian in ('L', 'B'):
            return self.endian == 'L'
        return self.endian(self.m)

    def branch(self, c):
        r = self.m.decide(c)
        if r is None:
            raise either(c, 'the outcome does not depend on whether %s' % self.m.show(c))
        return r

    def sub(self, m, events):
        t = type(self)(m, events, self.endian)
        t.env = self.env
        t.borrow = self.borrow
        return t

    def skip(self):
        while self.i < len(self.ev):
            e = self.ev[self.i]
            if e[0] in ('W', 'R', 'P') and self.off == 0 and self.m.decide(mk_cmp('Eq', e[2], ZERO)):
                self.i += 1
                continue
            if e[0] == 'loop' and self.m.decide(mk_cmp('Eq', e[2], ZERO)):
                self.i += 1
                self.index0 = e[3]      # an index which is known to be zero
                continue
            break

    def cur(self):
        self.skip()
        return self.ev[self.i] if self.i < len(self.ev) else None

    def end(self):
        e = self.cur()
        if e is not None:
            raise Mismatch('unexpected %s after the complete encoding' % self.name(e))

    def name(self, e):
        n = {'R': 'read', 'RF': 'read', 'P': 'peek', 'PF': 'peek', 'E': 'element read', 'EF': 'element read', 'W': 'write', 'WF': 'write',
             'EW': 'element write', 'EWF': 'element write', 'can': 'size check', 'canw': 'size check', 'REOF': 'read to the end', 'AF': 'failed allocation', 'loop': 'loop'}[e[0]]
        if e[0] in ('R', 'RF', 'P', 'PF', 'W', 'WF'):
            return '%s of %s bytes' % (n, self.m.show(e[2]))
        if e[0] == 'loop':
            return 'loop of %s iterations' % self.m.show(e[2])
        return n

    def loop_bodies(self, e, n, fn):
        """fn(machine, sub trace, index) for one abstract iteration, in each of its cases -> [(result, index, case)]"""
        _, lid, cnt, k, bodies, where = e
        out = []
        for ev, conds in bodies:
            f = self.m.st.facts.copy()
            ok = f.assume(mk_cmp('Le', ZERO, k), True, log=False) and f.assume(mk_cmp('Lt', k, n), True, log=False)
            for c, val in conds:
                ok = ok and f.assume(c, val, log=False)
            if ok:
                out += [(x, k, tuple(conds) + cs) for x, cs in cases(self.m, f, lambda m2: fn(m2, self.sub(m2, ev), k))]
        return out

    def partial(self, e, n):
        """does this loop end in the middle of iteration k?"""
        _, lid, cnt, k, bodies, where = e
        if cnt == k:
            return True
        r = self.m.decide(mk_cmp('Eq', cnt, n))
        if r:
            return False
        raise Mismatch('%s iterations instead of %s' % (self.m.show(cnt), self.m.show(n)))


class WTrace(Trace):
    def seq(self, v):
        return self.m.seq(v)

    def put(self, e, n):
        pos = 0
        while pos < n:
            c = self.cur()
            if c is None:
                raise Mismatch('the writer stops %d bytes short of %s' % (n - pos, self.m.show(e)))
            if c[0] in ('WF', 'EWF'):
                self.i += 1
                if self.cur() is not None:
                    raise Mismatch('writing continues after a failed write')
                raise Failed(c[1])
            if c[0] == 'canw':
                self.i += 1
                self.canw(c, n - pos)
                continue
            if c[0] != 'W':
                raise Mismatch('%s where %d bytes of %s were expected' % (self.name(c), n - pos, self.m.show(e)))
            if not isint(c[2]):
                raise Mismatch('%s where %d bytes of %s were expected' % (self.name(c), n - pos, self.m.show(e)))
            ln = c[2][1]
            t = min(n - pos, ln - self.off)
            a = mk_sub(c[1], self.off, t, ln) if (self.off, t) != (0, ln) else c[1]
            if c[1][0] in ('arrb', 'span', 'snap', 'fill'):
                a = self.m.piece(c[1], I(self.off), t)
            elif c[1][0] == 'cb':
                a = I(int.from_bytes(bytes.fromhex(c[1][1])[self.off:self.off + t], 'little'))
            b = mk_sub(e, pos, t, n) if (pos, t) != (0, n) else e
            self.m.same(a, b, 'bytes written')
            pos += t
            self.off += t
            if self.off == ln:
                self.i += 1
                self.off = 0

    room = 0

    def canw(self, c, n):
        """a capacity check may only ask for what the value being written still needs"""
        if c[2] == 0:
            if not self.m.decide(mk_cmp('Le', c[1], I(max(n, self.room)))):
                raise Mismatch('output refused unless there is room for %s bytes, which is more than the value needs' % self.m.show(c[1]))
            raise CanFail(c[1])

    def elem(self, K, e):
        c = self.cur()
        if c is not None and c[0] in ('WF', 'EWF'):
            self.i += 1
            if self.cur() is not None:
                raise Mismatch('writing continues after a failed write')
            raise Failed(c[1])
        if c is None or c[0] != 'EW':
            raise Mismatch('%s where an element was expected' % (self.name(c) if c else 'the end'))
        if c[2] != K or c[1] != e:
            raise Mismatch('element %s written instead of %s' % (self.m.show(c[1]), self.m.show(e)))
        self.i += 1

    def rep(self, n, g, el):
        if isint(n) and n[1] <= 40:
            for k in range(n[1]):
                g.enc(self, el(I(k)))
            return
        if g.fixed == 0:
            return
        if self.m.decide(mk_cmp('Eq', n, ZERO)):
            return
        c = self.cur()
        if c is None:
            raise Mismatch('the elements (%s of them) are not written' % self.m.show(n))
        if c[0] == 'W' and (g.fixed is not None or self.index0 is None):
            if g.fixed is None or not self.m.decide(mk_cmp('Eq', c[2], mulc(n, g.fixed))):
                raise Mismatch('%s instead of %s elements' % (self.name(c), self.m.show(n)))
            q = 0
            while ('j', 'w', q) in self.m.st.facts.iv:
                q += 1
            j = ('j', 'w', q)
            f = self.m.st.facts.copy()
            f._clamp(j, 0, ISIZE_MAX)
            f.assume(mk_cmp('Lt', j, n), True, log=False)

            def one(m2):
                x = m2.piece(c[1], mulc(j, g.fixed), g.fixed)
                t = self.sub(m2, [('W', x, I(g.fixed))])
                g.enc(t, V(m2, el(j).e, el(j).ty))
                t.end()
            cases(self.m, f, one)
            self.i += 1
            return
        if c[0] in ('WF', 'EWF'):
            self.i += 1
            if self.cur() is not None:
                raise Mismatch('writing continues after a failed write')
            raise Failed(c[1])
        if c[0] == 'loop':
            part = self.partial(c, n)

            def body(m2, t, k):
                g.enc(t, V(m2, el(k).e, el(k).ty))
                t.end()
            self.loop_bodies(c, n, body)
            self.i += 1
            if part:
                g.enc(self, V(self.m, el(c[3]).e, el(c[3]).ty))
                raise Mismatch('the loop over the elements stops early')
            return
        if self.index0 is not None:     # the loop ended within its first round
            k = self.index0
            g.enc(self, V(self.m, el(k).e, el(k).ty))
            if self.m.decide(mk_cmp('Eq', n, I(1))):
                return
        raise Mismatch('%s where %s elements were expected' % (self.name(c), self.m.show(n)))


class RTrace(Trace):
    last = None

    def check(self):
        return Check(self.m)

    outcome = None     # how the entry point returned on this path

    def may_reject(self, tag):
        """tags above 1 are not produced by any encoder: a decoder may reject them"""
        if self.outcome == 'err' and self.cur() is None and self.m.decide(mk_cmp('Le', tag, I(1))) is False:
            raise Invalid(None)

    def fail(self, c):
        self.i += 1
        if self.cur() is not None and not self.eof_ok:
            raise Mismatch('reading continues after a failed read')
        raise Failed(c[1])

    def cans(self):
        while True:
            c = self.cur()
            if c is not None and c[0] == 'AF':
                self.i += self.eof_ok > 0
                raise CanFail(None)
            if c is None or c[0] != 'can':
                return c
            if c[2] == 0:
                need = add(self.pos, c[1])
                self.i += self.eof_ok > 0
                for lo in self.lower:
                    if self.m.decide(mk_cmp('Le', need, lo)):
                        raise CanFail(c[1])
                raise Mismatch('input rejected unless %s more bytes are available, which is more than a valid encoding needs' % self.m.show(c[1]))
            self.i += 1

    def alias(self, e):
        """replace every form in which the code computed this value (the same in every bit) by one"""
        def reads(x):
            return frozenset(collect(x, lambda y: y[0] in ('rd', 'pk')))
        rs = reads(e)
        seen = set()
        same = {}
        st = self.m.st
        for src in (tuple(st.facts.log), tuple(self.ev[self.i:]), st.retv or ()):
            for x in collect(src, lambda y: y[0] in ('op', 'lin', 'cat', 'rd', 'pk')):
                if x in seen or len(seen) > 300:
                    continue
                seen.add(x)
                if x != e and x not in rs and rs <= reads(x) and bits.equal(x, e, st.facts):
                    same[x] = e
        if same:
            s = st.copy()
            s.facts = st.facts.subst(same)
            memo = {}
            s.mem = {bid: subst_block(b, same, memo) for bid, b in st.mem.items()}
            s.events = tuple(subst(x, same) for x in st.events)
            s.retv = subst(st.retv, same) if st.retv is not None else None
            self.m.st = s
            if any(isint(c) and bool(c[1]) != bool(v) for c, v in ((subst(c, same), v) for c, v in st.facts.log)):
                raise Infeasible
            self.ev = [subst(x, same) for x in self.ev]
        return e

    def take(self, n):
        parts = []
        pos = 0
        while pos < n:
            c = self.cans()
            if c is None:
                raise Mismatch('%d bytes are not read' % (n - pos))
            if c[0] == 'P':
                self.i += 1
                continue
            if c[0] in ('RF', 'EF', 'PF'):
                self.fail(c)
            if c[0] != 'R' or not isint(c[2]):
                raise Mismatch('%s where %d bytes were to be read' % (self.name(c), n - pos))
            ln = c[2][1]
            t = min(n - pos, ln - self.off)
            parts.append((mk_sub(c[1], self.off, t, ln) if (self.off, t) != (0, ln) else c[1], t))
            pos += t
            self.off += t
            self.pos = add(self.pos, I(t))
            if self.off == ln:
                self.i += 1
                self.off = 0
        return parts[0][0] if len(parts) == 1 else mk_cat(tuple(parts))

    def peek(self, n):
        c = self.cans()
        if c is None:
            raise Mismatch('nothing is peeked')
        if c[0] == 'PF':
            self.fail(c)
        if c[0] != 'P' or not isint(c[2]) or c[2][1] < n:
            raise Mismatch('%s where %d bytes were to be peeked' % (self.name(c), n))
        self.i += 1
        return mk_sub(c[1], 0, n, c[2][1]) if c[2][1] != n else c[1]

    def elem(self, K):
        c = self.cans()
        if c is not None and c[0] in ('RF', 'EF', 'PF'):
            self.fail(c)
        if c is None or c[0] != 'E' or c[2] != K:
            raise Mismatch('%s where an element was to be read' % (self.name(c) if c else 'the end'))
        self.i += 1
        return c[1]

    def content(self, n):
        if self.m.decide(mk_cmp('Eq', n, ZERO)):
            return ('cat', ())
        if self.last is None:
            raise Undecided('content')
        return self.last

    def element(self, g):
        """one element of a loop"""
        self.lower = [I(g.min)]
        try:
            x = g.dec(self)
        except Failed:
            raise Mismatch('a failed read does not stop the loop')
        except Invalid:
            raise Mismatch('an invalid element is accepted')
        self.end()
        return x

    def bulk(self, c, g, J, f):
        """elements read as one piece -> function from element index to matcher"""
        def one(m2):
            t = self.sub(m2, [('R', m2.piece(c[1], mulc(J, g.fixed), g.fixed), I(g.fixed))])
            x = g.dec(t)
            t.end()
            return x
        xs = [(x, J, cs) for x, cs in cases(self.m, f, one)]
        if len(xs) == 1:
            return lambda j: xs[0][0].sub({J: j})
        return lambda j: MAlt(xs, j)

    def rest(self, g):
        """encodings of g up to the end of the input -> (their number, function from element index to matcher)"""
        m = self.m
        c = self.cur()
        if c is not None and c[0] == 'REOF':
            self.i += 1
            if not g.fixed:
                raise Undecided('rest of elements of no fixed size')
            n = c[2]
            if g.fixed > 1:
                n = mk_op('Div', 64, False, n, I(g.fixed))
                if self.outcome == 'err' and m.decide(mk_cmp('Eq', mk_op('Rem', 64, False, c[2], I(g.fixed)), ZERO)) is False:
                    raise Invalid(None)
            q = 0
            while ('j', 'r', q) in m.st.facts.iv:
                q += 1
            J = ('j', 'r', q)
            f = m.st.facts.copy()
            f._clamp(J, 0, ISIZE_MAX)
            f.assume(mk_cmp('Lt', J, n), True, log=False)
            at = self.bulk(c, g, J, f)
            self.last = c[1]
            return n, at
        n = ZERO
        xs = []
        if c is not None and c[0] == 'loop':
            n = c[2]
            xs = self.loop_bodies(c, add(c[3], I(1)), lambda m2, t, k: t.element(g))
            self.i += 1
            self.pos = ZERO
            self.lower = [I(g.min)]
        self.eof_ok += 1
        try:
            g.dec(self)
        except Failed as f:
            r = m.iseof(f.fid)
            if r is None:
                raise Mismatch('the outcome does not depend on whether the input has ended')
            if not r:
                if self.cur() is not None:
                    raise Mismatch('reading continues after a failed read')
                raise
        except CanFail as f:
            if self.cur() is not None:
                raise Mismatch('reading continues after the input was found too short')
        else:
            raise Mismatch('reading stops before the end of the input')
        finally:
            self.eof_ok -= 1
        if len(xs) == 1:
            x, k, _ = xs[0]
            return n, lambda j: x.sub({k: j})
        return n, lambda j: MAlt(xs, j)

    def text(self, n, seq):
        """the content whose validity as text was decided, checked to be these n bytes"""
        m = self.m
        for (c, v) in m.st.facts.log:
            for u in collect(c, lambda y: y[0] == 'call' and y[1] == 'utf8'):
                q = 0
                while ('j', 't', q) in m.st.facts.iv:
                    q += 1
                J = ('j', 't', q)
                f = m.st.facts.copy()
                f._clamp(J, 0, ISIZE_MAX)
                f.assume(mk_cmp('Lt', J, n), True, log=False)
                m2 = m.at(f)
                x = seq(J)
                m2.same(m2.piece(u[2], J, 1), x.e, 'byte of the text')
                return u[2]
        raise Mismatch('the outcome does not depend on whether the text is valid')

    def rep(self, n, g):
        """n encodings of g; -> function from element index to matcher"""
        m = self.m
        if g.min:
            self.lower.append(add(self.pos, mulc(n, g.min)))
        try:
            if isint(n) and n[1] <= 40:
                xs = []
                for i in range(n[1]):
                    self.lower.append(add(self.pos, I((n[1] - i) * g.min)))
                    xs.append(g.dec(self))
                return lambda j: xs[j[1]]
            if m.decide(mk_cmp('Eq', n, ZERO)):
                return lambda j: MAny()
            c = self.cans()
            if g.fixed == 0:
                x = g.dec(self)
                return lambda j: x
            if c is None:
                if self.outcome == 'err' and m.st.facts.bounds(mulc(n, max(1, g.min)))[0] > ISIZE_MAX:
                    raise Invalid(None)     # no input holds that many
                raise Mismatch('the %s elements are not read' % m.show(n))
            if c[0] in ('RF', 'EF', 'PF'):
                self.fail(c)
            if c[0] == 'R':
                if g.fixed is None or not m.decide(mk_cmp('Eq', c[2], mulc(n, g.fixed))):
                    raise Mismatch('%s instead of %s elements' % (self.name(c), m.show(n)))
                q = 0
                while ('j', 'r', q) in m.st.facts.iv:
                    q += 1
                J = ('j', 'r', q)
                f = m.st.facts.copy()
                f._clamp(J, 0, ISIZE_MAX)
                f.assume(mk_cmp('Lt', J, n), True, log=False)
                at = self.bulk(c, g, J, f)
                self.last = c[1]
                self.i += 1
                self.pos = add(self.pos, c[2])
                return at
            if c[0] == 'loop':
                part = self.partial(c, n)
                xs = self.loop_bodies(c, n, lambda m2, t, k: t.element(g))
                self.i += 1
                if part:
                    self.pos = ZERO
                    self.lower.append(I(g.min))
                    g.dec(self)
                    raise Mismatch('the loop over the elements stops early')
                if len(xs) == 1:
                    x, k, _ = xs[0]
                    return lambda j: x.sub({k: j})
                return lambda j: MAlt(xs, j)
            raise Mismatch('%s where %s elements were to be read' % (self.name(c), m.show(n)))
        finally:
            pass


class MAlt(M):
    """element j of a sequence whose elements were read on different paths through the loop body"""

    def __init__(self, xs, j):
        self.xs, self.j = xs, j

    def sub(self, m):
        return MAlt([(x.sub(m), k, tuple((subst(c, m), v) for c, v in conds)) for x, k, conds in self.xs], subst(self.j, m))

    def match(self, c, v):
        hit = False
        for x, k, conds in self.xs:
            mp = {k: self.j}
            f = c.m.st.facts.copy()
            if not all(f.assume(subst(y, mp), val, log=False) for y, val in conds):
                continue
            hit = True
            alts = pw_cases(v.e) if v.e[0] == 'pw' else (((), v.e),)
            for cs, e in alts:
                f2 = f.copy()
                if all(f2.assume(y, val, log=False) for y, val in cs):
                    cases(c.m, f2, lambda m2: x.sub(mp).match(Check(m2), V(m2, e, v.ty)))
        if not hit:
            raise Undecided('elements of several shapes')


class Check:
    """value comparison in the final state of a path"""

    def __init__(self, m):
        self.m = m

    def load(self, v):
        p = v.peel()
        e = p.e
        if e[0] != 'ptr':
            raise Undecided('pointer')
        t = self.m.T.pointee(p.ty)
        return V(self.m, self.m.I.load(self.m.st, e[1], e[2], t), t)

    def match_seq(self, v, n, at):
        m = self.m
        T = m.T
        name = T[v.ty].get('path', '').split('::')[-1]
        k = T.kind(v.ty)
        if name == 'String':
            v = v.field(0) if v.e[0] != 'vec' else V(m, v.e, v.e[1])
            name = 'Vec'
        if name == 'Vec':
            x = MD.as_vec(m.I, m.st, v.e, v.ty)
            blk, off, ln, ety = x[2], ZERO, x[3], T.arg(v.ty, 0)
        else:
            p = v.peel()
            if p.e[0] != 'ptr' or p.e[3] is None:
                raise Undecided('sequence value %s' % T.name(v.ty))
            pt = T.pointee(p.ty) if T.kind(p.ty) != 'adt' else None
            ety = T.elem(pt) if T.kind(pt) == 'slice' else m.I.u8
            blk, off, ln = p.e[1], p.e[2], p.e[3]
        if not m.decide(mk_cmp('Eq', ln, n)):
            m.same(ln, n, 'length of the decoded sequence')
        if m.decide(mk_cmp('Eq', n, ZERO)) or T.size(ety) == 0:
            return
        if isint(n) and n[1] <= 40:
            js = [I(q) for q in range(n[1])]
        else:
            q = 0
            while ('j', 'v', q) in m.st.facts.iv:
                q += 1
            j = ('j', 'v', q)
            f = m.st.facts.copy()
            f._clamp(j, 0, ISIZE_MAX)
            f.assume(mk_cmp('Lt', j, n), True, log=False)
            js = [j]

        def one(m):
            try:
                e = m.I.load(m.st, blk, add(off, mulc(j, T.size(ety))), ety)
            except Imprecise as x:
                raise Undecided(str(x))
            at(j).match(Check(m), V(m, e, ety))
        if isint(n) and n[1] <= 40:
            for j in js:
                one(m)
        else:
            cases(m, f, one)

    def match_array(self, v, n, at):
        m = self.m
        T = m.T
        ety = T.elem(v.ty)
        q = 0
        while ('j', 'v', q) in m.st.facts.iv:
            q += 1
        j = ('j', 'v', q)
        f = m.st.facts.copy()
        f._clamp(j, 0, n - 1)
        if v.e[0] == 'T':
            s = T.size(ety)
            e = m.I.from_bits(mk_bsub(v.e[2], mulc(j, s), s), ety)
        elif v.e[0] == 'rep':
            e = v.e[2]
        else:
            raise Undecided('large array value')
        cases(m, f, lambda m2: at(j).match(Check(m2), V(m2, e, ety)))

    def match_collection(self, v, n, at):
        m = self.m
        e = v.e
        if e[0] == 'agg':
            raise Undecided('collection value')
        if e[0] != 'col':
            raise Undecided('collection value %r' % (e[0],))
        cid = e[2]
        ins = [x for x in m.st.events if (x[0] == 'ins' and x[1] == cid) or (x[0] == 'loop' and any(y[0] == 'ins' and y[1] == cid for b in x[4] for y in b[0]))]
        ins = [x for x in ins if not (x[0] == 'loop' and m.decide(mk_cmp('Eq', x[2], ZERO)))]
        if not ins:
            if not m.decide(mk_cmp('Eq', n, ZERO)):
                raise Mismatch('the decoded elements are not inserted')
            return
        T = m.T
        if len(ins) == 1 and ins[0][0] == 'loop':
            x = ins[0]
            if not m.decide(mk_cmp('Eq', x[2], n)):
                raise Mismatch('%s elements inserted instead of %s' % (m.show(x[2]), m.show(n)))
            for ev, conds in x[4]:
                ys = [y for y in ev if y[0] == 'ins' and y[1] == cid]
                if len(ys) != 1:
                    raise Mismatch('%d insertions per element' % len(ys))
                f = m.st.facts.copy()
                f.assume(mk_cmp('Le', ZERO, x[3]), True, log=False)
                f.assume(mk_cmp('Lt', x[3], n), True, log=False)
                for c, val in conds:
                    f.assume(c, val, log=False)
                y, yt = ys[0][2], ys[0][3]
                cases(m, f, lambda m2: at(x[3]).match(Check(m2), V(m2, y, yt if yt is not None else T_of(m2, y))))
            return
        if isint(n) and len(ins) == n[1] and all(x[0] == 'ins' for x in ins):
            for i, x in enumerate(ins):
                at(I(i)).match(self, V(m, x[2], x[3] if x[3] is not None else T_of(m, x[2])))
            return
        raise Undecided('insertion pattern')


def T_of(m, e):
    if isinstance(e[-1], int) and e[0] in ('er', 'F', 'S', 'elem', 'deref', 'call'):
        return e[-1]
    if e[0] == 'agg':
        return e[1]
    raise Undecided('type of a value')
