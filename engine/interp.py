"""Path-partitioned abstract interpretation of monomorphised MIR.

Abstract state = frames + abstract memory (mem.py) + facts (expr.py) + the trace of observable events.
Branches the facts do not settle partition the state; loops are summarised (induction variables,
per-iteration write ranges and an event template), never unrolled except for small constant trip counts.
"""
import sys
from .expr import *
from . import expr as E
from .mem import Mem, Block, Imprecise, NeedCase, fold_agg, mk_sub_any, rel
from .prog import Prog

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ('fid', 'bb', 'uid', 'dest', 'target', 'unroll', 'line', 'cont', 'si', 'fresh')

    def __init__(self, fid, uid, dest, target):
        self.fid = fid
        self.bb = 0
        self.si = 0
        self.fresh = True
        self.uid = uid
        self.dest = dest      # (blk, off, ty) in the caller
        self.target = target  # block in the caller
        self.unroll = ()
        self.line = None
        self.cont = None      # python continuation run on return

    def copy(self):
        f = Frame(self.fid, self.uid, self.dest, self.target)
        f.bb = self.bb
        f.si = self.si
        f.fresh = self.fresh
        f.unroll = self.unroll
        f.line = self.line
        f.cont = self.cont
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'events', 'obl', 'ctr', 'own', 'out', 'ks', 'steps', 'notes', 'retv', 'fam')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.events = ()
        self.obl = ()
        self.ctr = {}
        self.own = set()
        self.out = None
        self.ks = ()
        self.steps = 0
        self.notes = {}
        self.retv = None
        self.fam = ()       # blocks allocated in each round of a loop: (id, block, conditions)

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.events = self.events
        s.obl = self.obl
        s.ctr = dict(self.ctr)
        self.own = set()
        s.ks = self.ks
        s.steps = self.steps
        s.notes = dict(self.notes)
        s.out = self.out
        s.retv = self.retv
        s.fam = self.fam
        return s

    def fresh(self, kind):
        n = self.ctr.get(kind, 0)
        self.ctr[kind] = n + 1
        return n

    @property
    def f(self):
        return self.frames[-1]


class Split(Exception):
    """raised by a handler to restart the current instruction on several refined states"""

    def __init__(self, states):
        self.states = states


class End(Exception):
    """the path ends here with an outcome"""

    def __init__(self, out):
        self.out = out


class Budget(Exception):
    pass


class Interp(Mem):
    MAXSTEPS = 400000
    MAXSTATES = 3000

    def __init__(self, prog):
        self.p = prog
        self.T = prog.types
        E.set_types(prog.types)
        T = self.T
        self.u8 = T.byname.get('u8')
        self.src = None         # position and contents of the stream under analysis
        self.world = None       # where the state of the operating system is kept
        self.usize = T.byname.get('usize')
        self.bool = T.byname.get('bool')
        self.models = {}
        self.synth = {}
        self._vo = {}
        self.cur_target = None
        self.analysed = set()
        self.externs = set()
        self.total = 0
        from . import models
        models.install(self)

    # ---- blocks -----------------------------------------------------------------------------------
    def block(self, st, bid):
        b = st.mem.get(bid)
        if b is None:
            b = self.make_block(st, bid)
            st.mem[bid] = b
        return b

    def wblock(self, st, bid):
        b = self.block(st, bid)
        if bid not in st.own:
            b = b.clone()
            st.mem[bid] = b
            st.own.add(bid)
        return b

    def make_block(self, st, bid):
        T = self.T
        k = bid[0]
        if k == 'ext':
            x = bid[1]
            ty = x[-1]
            p = T.pointee(ty)
            tk = T.kind(p)
            if tk == 'slice' or tk == 'str':
                e = T.elem(p) if tk == 'slice' else self.u8
                n = mul(('len', ('deref', x, p)), I(T.size(e)))
                return Block(n, ('arr', ('deref', x, p), e), T.align(e), 'ext')
            if tk == 'dyn':
                return Block(None, None, 1, 'ext')
            if T.size(p) is None:
                raise Imprecise('pointer to ' + T.name(p))
            return Block(I(T.size(p)), ('obj', ('deref', x, p), p), T.align(p), 'ext', p)
        if k == 'vb':
            x = bid[1]
            e = T.arg(x[-1], 0)
            return Block(mul(self.vec_cap(x), I(T.size(e))), ('arr', x, e), T.align(e), 'dyn')
        if k == 'alloc':
            return self.const_block(bid[1])
        if k == 'abs':
            return Block(ZERO, None, 1, 'abs')
        if k == 'H':
            b = self.family_block(st, bid)
            if b is not None:
                return b
        raise Imprecise('no block %r' % (bid,))

    def family_block(self, st, bid):
        """the block an earlier round of a loop allocated"""
        from .loops import subst_block
        hit = []
        for (_, n, ks), blk, conds in st.fam:
            if n != bid[1] or len(ks) != len(bid[2]):
                continue
            m = {a: b for a, b in zip(ks, bid[2]) if a != b}
            if any(a[0] != 'k' for a in m):
                continue
            f = st.facts.copy()
            if all(f.assume(subst(c, m), v, log=False) for c, v in conds):
                hit.append(subst_block(blk, m, {}))
        if len(hit) > 1:
            raise Imprecise('blocks allocated on several paths')
        return hit[0] if hit else None

    def vec_cap(self, x):
        return ('cap', x)

    def const_block(self, aid):
        a = self.p.allocs[aid]
        if a['k'] == 'static':
            m = a['mem']
        elif a['k'] == 'mem':
            m = a['mem']
        else:
            return Block(None, None, 1, 'const')
        return self.mem_block(m)

    def mem_block(self, m):
        hx = m['hex']
        data = [None if hx[i:i + 2] == '__' else int(hx[i:i + 2], 16) for i in range(0, len(hx), 2)]
        b = Block(I(len(data)), ('bytes', tuple(data)), 16, 'const')
        u = self.usize
        for off, g in m['ptrs']:
            ga = self.p.allocs[g]
            addend = int.from_bytes(bytes(x or 0 for x in data[off:off + 8]), 'little')
            if ga['k'] == 'fn':
                v = ('fn', ga['inst'])
            elif ga['k'] == 'vtable':
                v = ('vt', ga['ty'])
            else:
                v = ('ptr', ('alloc', g), I(addend), None)
            b.entries[off] = (8, None, v)
        return b

    # ---- places -------------------------------------------------------------------------------------
    def local(self, st, i):
        return ('L', st.f.uid, i)

    def local_ty(self, st, i):
        return self.p.fns[st.f.fid]['body']['locals'][i]

    def lblock(self, st, i):
        bid = ('L', st.f.uid, i)
        if bid not in st.mem:
            ty = self.local_ty(st, i)
            n = self.T.size(ty)
            st.mem[bid] = Block(I(n) if n is not None else None, None, self.T.align(ty) if n is not None else 1, 'local', ty)
            st.own.add(bid)
        return bid

    def place(self, st, pl):
        """-> (block, off, ty, meta)"""
        T = self.T
        if isinstance(pl, int):
            return self.lblock(st, pl), ZERO, self.local_ty(st, pl), None
        i = pl[0]
        blk, off, ty, meta = self.lblock(st, i), ZERO, self.local_ty(st, i), None
        variant = None
        for e in pl[1:]:
            if e == '*':
                v = self.load(st, blk, off, ty)
                v = self.as_ptr(v)
                k = T.kind(ty)
                if k in ('ref', 'ptr', 'pat'):
                    pt = T.pointee(ty)
                else:
                    raise Imprecise('deref of ' + T.name(ty))
                blk, off, meta, ty = v[1], v[2], v[3], pt
                variant = None
                if k == 'ref' and blk[0] == 'ext' and False:
                    pass
            elif e[0] == 'f':
                n, fty = e[1], e[2]
                tk = T.kind(ty)
                if T.size(ty) is None:
                    # unsized struct: fields before the tail have fixed offsets
                    offs = T[ty]['lay']['offs'] if T[ty]['lay'] else None
                    o = offs[n] if offs else 0
                else:
                    fl = T.fields(ty, variant if T.is_enum(ty) else None)
                    if tk == 'pat':
                        o = 0
                    else:
                        o = fl[n][0]
                off = add(off, I(o))
                ty = fty
                variant = None
            elif e[0] == 'd':
                variant = e[1]
                if T.is_enum(ty) and T.nvariants(ty) > 1:
                    v = self.load(st, blk, off, ty)
                    if v[0] != 'agg' and v[0] != 'undef':
                        fl = T.fields(ty, variant)
                        v2 = ('agg', ty, variant, tuple(self.field(v, ty, variant, j) for j in range(len(fl))))
                        self.store(st, blk, off, ty, v2)
            elif e[0] == 'i':
                idx = self.load(st, self.lblock(st, e[1]), ZERO, self.usize)
                et = T.elem(ty)
                off = add(off, mul(idx, I(T.size(et))))
                ty = et
            elif e[0] == 'ci':
                et = T.elem(ty)
                if e[3]:
                    n = I(T[ty]['len']) if T.kind(ty) == 'array' else meta
                    off = add(off, mul(sub(n, I(e[1])), I(T.size(et))))
                else:
                    off = add(off, I(e[1] * T.size(et)))
                ty = et
            elif e[0] == 'ss':
                et = T.elem(ty)
                off = add(off, I(e[1] * T.size(et)))
                if T.kind(ty) == 'slice':
                    meta = sub(meta, I(e[1] + e[2])) if e[3] else I(e[2] - e[1])
                else:
                    meta = None
                    raise Imprecise('array subslice pattern')
            elif e[0] == 'oc':
                ty = e[1]
            else:
                raise Imprecise('projection %r' % (e,))
        return blk, off, ty, meta

    def as_ptr(self, v):
        if v[0] == 'ptr':
            return v
        if v[0] == 'agg' or v[0] == 'undef':
            while v[0] == 'agg':
                nz = [x for x in v[3] if x[0] != 'agg' or self.T.size(x[1])]
                if len(nz) != 1:
                    break
                v = nz[0]
            if v[0] == 'ptr':
                return v
        if v[0] == 'cat' and len(v[1]) == 2 and v[1][0][1] == v[1][1][1] == 8 and v[1][0][0][0] == 'ptr':
            return v[1][0][0][:3] + (v[1][1][0],)
        if v[0] == 'undef':
            raise End(('ub', 'use of an uninitialised pointer'))
        if v[0] == 'i':
            return ('ptr', ('abs',), v, None)
        base = self.int_to_ptr(v)
        if base is not None:
            return base
        if E.is_num(v) and v[0] in ('len', 'lin', 'S', 'F', 'cap') :
            return ('ptr', ('abs',), v, None)
        raise Imprecise("pointer value %r" % (v[:2],))

    def int_to_ptr(self, v):
        c, t = lin_parts(v)
        a = [x for x, k in t if x[0] == 'addr' and k == 1]
        if len(a) == 1:
            return ('ptr', a[0][1], sub(v, a[0]), None)
        return None

    # ---- obligations -----------------------------------------------------------------------------------
    def oblige(self, st, kind, ok, detail):
        f = st.frames[-1]
        # attribute to the innermost speedy/corpus frame
        for fr in reversed(st.frames):
            kr = self.p.fns[fr.fid]['krate']
            if kr in ('speedy', 'corpus'):
                f = fr
                break
        st.obl = st.obl + ((kind, ok if ok is None else bool(ok), detail, self.p.fns[f.fid]['path'], f.line),)

    def check_access(self, st, blk, off, size, what):
        """[off, off+size) lies inside the block"""
        b = self.block(st, blk)
        if isint(size) and size[1] == 0:
            return
        if b.kind == 'abs':
            if st.facts.decide(mk_cmp('Eq', size, ZERO)):
                return
            self.oblige(st, 'bounds', False, '%s through a dangling pointer' % what)
            return
        if b.size is None:
            return
        if isint(off) and isint(size) and isint(b.size):
            if off[1] < 0 or off[1] + size[1] > b.size[1]:
                self.oblige(st, 'bounds', False, '%s of %d bytes at offset %d in a %d byte object' % (what, size[1], off[1], b.size[1]))
            return
        if blk[0] == 'vb':
            st.facts._ladd(sub(('cap', blk[1]), ('len', blk[1])))
        ok = self.proved(st, mk_cmp('Le', add(off, size), b.size))
        if ok:
            ok = self.proved(st, mk_cmp('Le', ZERO, off))
        if not ok and st.facts.decide(mk_cmp('Eq', size, ZERO)):
            ok = True
        self.oblige(st, 'bounds', ok, '%s of %s bytes at offset %s within %s' % (what, show(size), show(off), show(b.size)))

    def proved(self, st, c):
        """True, False (the facts allow the opposite), or None (beyond linear arithmetic)"""
        from .models import settle_cond, linear, counterexample
        r = settle_cond(st, c)
        return r if r is not None else (False if linear(c) or counterexample(st, c) else None)

    # ---- operands ------------------------------------------------------------------------------------------
    def operand(self, st, o):
        k = o[0]
        if k == 'c' or k == 'm':
            blk, off, ty, meta = self.place(st, o[1])
            if not isinstance(o[1], int):
                n = self.T.size(ty)
                if n:
                    self.check_access(st, blk, off, I(n), 'load')
            return self.load(st, blk, off, ty)
        if k == 'k':
            return self.const(st, o[1])
        if k == 'rc':
            return FALSE
        raise Imprecise('operand ' + k)

    def operand_ty(self, st, o):
        k = o[0]
        if k == 'c' or k == 'm':
            return self.place_ty(st, o[1])
        if k == 'k':
            return o[1][0]
        return self.bool

    def place_ty(self, st, pl):
        T = self.T
        if isinstance(pl, int):
            return self.local_ty(st, pl)
        ty = self.local_ty(st, pl[0])
        for e in pl[1:]:
            if e == '*':
                ty = T.pointee(ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = T.elem(ty)
            elif e[0] == 'oc':
                ty = e[1]
        return ty

    def const(self, st, c):
        ty, k = c[0], c[1]
        T = self.T
        if k == 'int':
            if T.kind(ty) in ('ptr', 'ref'):
                return ('ptr', ('abs',), I(c[2]), None)
            return I(c[2])
        if k == 'zst':
            return self.zst(ty)
        if k == 'alloc':
            m = c[2]
            key = ('konst', id(m))
            b = self._kc.get(key)
            if b is None:
                b = self.mem_block(m)
                self._kc[key] = b
            return self.load_b(st, b, ZERO, ty, 0, 0) if T.size(ty) else self.zst(ty)
        raise Imprecise('constant')

    _kc = {}

    # ---- rvalues -----------------------------------------------------------------------------------------------
    def rvalue(self, st, r, dty):
        T = self.T
        k = r[0]
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'ref' or k == 'addr':
            blk, off, ty, meta = self.place(st, r[1])
            if T.kind(dty) in ('ref', 'ptr') and not T.is_fat(dty):
                meta = None
            if meta is None and T.kind(ty) in ('slice', 'str'):
                raise Imprecise('lost metadata')
            if k == 'ref' and T.size(ty):
                self.check_access(st, blk, off, I(T.size(ty)), 'reference')
            return ('ptr', blk, off, meta)
        if k == 'bin':
            return self.binop(st, r[1], r[2], r[3], dty)
        if k == 'cbin':
            return self.cbinop(st, r[1], r[2], r[3], dty)
        if k == 'un':
            return self.unop(st, r[1], r[2], dty)
        if k == 'cast':
            return self.cast(st, r[1], r[2], r[3])
        if k == 'agg':
            ops = [self.operand(st, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple':
                return fold_agg(T, dty, 0, tuple(ops))
            if a[0] == 'array':
                return ('agg', dty, 0, tuple(ops))
            if a[0] == 'adt':
                ty, v, fi = a[1], a[2], a[3]
                if fi is not None:
                    return ('agg', ty, fi, tuple(ops))
                return fold_agg(T, ty, v, tuple(ops))
            if a[0] == 'closure':
                return ('agg', a[1], 0, tuple(ops))
            if a[0] == 'rawptr':
                p = self.as_ptr(ops[0])
                m = ops[1]
                if m[0] == 'agg':
                    m = None
                return ('ptr', p[1], p[2], m)
            raise Imprecise('aggregate')
        if k == 'discr':
            return self.discriminant(st, r[1])
        if k == 'len':
            blk, off, ty, meta = self.place(st, r[1])
            if T.kind(ty) == 'array':
                return I(T[ty]['len'])
            return meta
        if k == 'repeat':
            v = self.operand(st, r[1])
            n = r[2]
            if n <= 64:
                return ('agg', dty, 0, tuple(v for _ in range(n)))
            return ('rep', dty, v)
        raise Imprecise('rvalue ' + k)

    def discriminant(self, st, pl):
        T = self.T
        blk, off, ty, meta = self.place(st, pl)
        return self.discr_val(st, self.load(st, blk, off, ty), ty)

    def discr_val(self, st, v, ty):
        T = self.T
        if not T.is_enum(ty):
            return ZERO
        if v[0] == 'undef':
            raise End(('ub', 'discriminant of uninitialised %s' % T.name(ty)))
        if v[0] == 'agg':
            return I(T.discr_of(ty, v[2]))
        if v[0] == 'T':
            lay = T[ty]['lay']
            if lay.get('tagenc') == 'direct':
                o = lay['offs'][lay['tagfield']]
                w = self.tag_width(ty)
                e = mk_sub(v[2], o, w, T.size(ty))
                ds = [x['d'] for x in T[ty]['variants']]
                lo, hi = st.facts.bounds(e)
                self.oblige(st, 'validity', lo >= min(ds) and hi <= max(ds), 'enum %s read from raw bytes' % T.name(ty))
                return e
            if T.size(ty) == 0 or 'single' in lay:
                return I(T.discr_of(ty, lay.get('single', 0)))
            if lay.get('tagenc') == 'niche':
                return self.niche_discr(st, v, ty, lay)
            raise Imprecise('discriminant of transmuted %s' % T.name(ty))
        if E.is_num(v) or self.is_symbolic(v):
            if T.nvariants(ty) == 1:
                return I(T.discr_of(ty, 0))
            return ('discr', v)
        raise Imprecise('discriminant of %r' % (v[:2],))

    def niche_discr(self, st, v, ty, lay):
        T = self.T
        un, a, b, start = lay['niche']
        w, lo_ok, hi_ok = lay['tag']
        e = mk_sub_any(v[2], lay['offs'][lay['tagfield']], w, T.size(ty))
        if e[0] == 'ptr':
            if e[1] != ('abs',):
                if start == 0 and a == b:
                    return I(T.discr_of(ty, un))
                raise Imprecise('niche in a pointer')
            e = e[2]
        top = (1 << (8 * w)) - 1
        f = st.facts
        # validity of the raw bits
        if not isint(e) and not (lo_ok == 0 and hi_ok >= top):
            lo, hi = f.bounds(e)
            ok = (lo >= lo_ok and hi <= hi_ok) if lo_ok <= hi_ok else (lo >= lo_ok or hi <= hi_ok or ((lo_ok - hi_ok) == 2 and f.decide(mk_cmp('Eq', e, I(hi_ok + 1))) is False))
            self.oblige(st, 'validity', ok, 'enum %s read from raw bytes' % T.name(ty))
        for i in range(a, b + 1):
            if i == un:
                continue
            val = (start + (i - a)) & top
            c = mk_cmp('Eq', e, I(val))
            d = f.decide(c)
            if d is True:
                return I(T.discr_of(ty, i))
            if d is None:
                s2 = st.copy()
                outs = []
                if st.facts.assume(c, True):
                    outs.append(st)
                if s2.facts.assume(c, False):
                    outs.append(s2)
                raise Split(outs)
        return I(T.discr_of(ty, un))

    def num(self, v):
        """numeric view of a scalar value"""
        if v[0] == 'ptr':
            if v[1] == ('abs',):
                return v[2]
            return add(('addr', v[1]), v[2])
        if v[0] == 'undef':
            raise End(('ub', 'arithmetic on an uninitialised value'))
        return v

    def binop(self, st, op, oa, ob, dty):
        T = self.T
        aty = self.operand_ty(st, oa)
        a = self.operand(st, oa)
        b = self.operand(st, ob)
        if op == 'Offset' and T.signed(self.operand_ty(st, ob)) and isint(b):
            b = I(E.signed(b[1], 64))
        return self.arith(st, op, aty, a, b)

    def arith(self, st, op, aty, a, b):
        T = self.T
        if op == 'Offset':
            p = self.as_ptr(a)
            s = T.size(T.pointee(aty))
            return ('ptr', p[1], add(p[2], mul(b, I(s))), p[3])
        k = T.kind(aty)
        if k in ('ref', 'ptr', 'pat', 'fnptr'):
            if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
                return mk_cmp_f(st.facts, op, a[2], b[2])
            if op in ('Eq', 'Ne') and (a[0] == 'ptr' and b[0] == 'ptr'):
                # comparison with null / unrelated objects
                za = a[1] == ('abs',)
                zb = b[1] == ('abs',)
                if (za and a[2] == ZERO and not zb) or (zb and b[2] == ZERO and not za):
                    return I(int(op == 'Ne'))
            a, b = self.num(a), self.num(b)
            return mk_cmp(op, a, b)
        a, b = self.num(a), self.num(b)
        bits = T.bits(aty)
        sg = T.signed(aty)
        if k == 'float':
            if isint(a) and isint(b):
                return ('flop', op, bits, a, b)
            return ('flop', op, bits, a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return mk_cmp(op, a, b, bits, sg)
        if op == 'Cmp':
            raise Imprecise('three-way compare')
        return self.op(st, op, bits, sg, a, b)

    def op(self, st, op, bits, sg, a, b):
        if op in ('BitAnd', 'Rem'):
            # alignment tests on addresses of known objects
            x, m = (a, b) if isint(b) else (b, a)
            if isint(m) and m[1] > 0:
                n = m[1] + 1 if op == 'BitAnd' else m[1]
                c, t = lin_parts(x)
                ad = [(y, k) for y, k in t if y[0] == 'addr']
                if ad and (n & (n - 1)) == 0 and (op == 'BitAnd' or x is a):
                    rest = []
                    ok = True
                    for y, k in t:
                        if y[0] == 'addr':
                            ok = ok and (self.block(st, y[1]).align * k) % n == 0
                        elif k % n:
                            rest.append((y, k))
                    if ok:
                        if not rest:
                            return I(c % n)
                if ad and op == 'BitAnd' and (n & (n - 1)) == 0 and not sg:
                    op, a, b = 'Rem', x, I(n)
        if op == 'Rem' and not sg and not isint(b) and bits == 64:
            lt = mk_cmp('Lt', a, b)
            r = self.settled(st, lt)
            if r is True:
                return a
            if self.settled(st, mk_cmp('Lt', a, add(b, b))) is True:
                if r is False:
                    return sub(a, b)
                raise NeedCase('remainder', lt)
        return mk_op(op, bits, sg, a, b, st.facts)

    def settled(self, st, c):
        from .models import settle_cond
        return settle_cond(st, c)

    def cbinop(self, st, op, oa, ob, dty):
        T = self.T
        aty = self.operand_ty(st, oa)
        a = self.num(self.operand(st, oa))
        b = self.num(self.operand(st, ob))
        return self.checked(st, op, aty, a, b, dty)

    def checked(self, st, op, aty, a, b, dty):
        T = self.T
        op = op.replace('WithOverflow', '')
        bits = T.bits(aty)
        sg = T.signed(aty)
        top = (1 << bits)
        f = st.facts
        if op in ('Shl', 'Shr'):
            ov = mk_cmp('Le', I(bits), b)
            return ('agg', dty, 0, (self.op(st, op, bits, sg, a, b), f_simpl(f, ov)))
        if sg:
            if isint(a) and isint(b):
                x, y = E.signed(a[1], bits), E.signed(b[1], bits)
                r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[op]
                ok = -(1 << (bits - 1)) <= r < (1 << (bits - 1))
                return ('agg', dty, 0, (I(mask(r, bits)), I(int(not ok))))
            al, ah = f.bounds(a)
            bl, bh = f.bounds(b)
            half = 1 << (bits - 1)
            if ah < half and bh < half and op == 'Add' and ah + bh < half:
                return ('agg', dty, 0, (add(a, b), FALSE))
            return ('agg', dty, 0, (mk_op(op, bits, sg, a, b, f), ('ovf', op, bits, a, b)))
        if op == 'Add':
            r = add(a, b)
            ov = mk_cmp('Le', I(top), r)
        elif op == 'Sub':
            r = sub(a, b)
            ov = mk_cmp('Lt', a, b)
        else:
            r = mul(a, b)
            ov = mk_cmp('Le', I(top), r)
        d = f.decide(ov)
        if d is False:
            return ('agg', dty, 0, (r, FALSE))
        if d is True:
            return ('agg', dty, 0, (mk_op(op, bits, False, a, b), TRUE))
        # partition on overflow
        s1, s2 = st.copy(), st.copy()
        outs = []
        if s1.facts.assume(ov, False):
            outs.append(s1)
        if s2.facts.assume(ov, True):
            outs.append(s2)
        raise Split(outs)

    def unop(self, st, op, o, dty):
        T = self.T
        v = self.operand(st, o)
        if op == 'PtrMetadata':
            if v[0] == 'ptr':
                return v[3] if v[3] is not None else self.zst(dty)
            raise Imprecise('metadata')
        v = self.num(v)
        k = T.kind(dty)
        if op == 'Not':
            if k == 'bool':
                return mk_not(as_cond(v))
            bits = T.bits(dty)
            if isint(v):
                return I(v[1] ^ ((1 << bits) - 1))
            return sub(I((1 << bits) - 1), v)
        if op == 'Neg':
            bits = T.bits(dty)
            if k == 'float':
                return ('flop', 'Neg', bits, v)
            if isint(v):
                return I(mask(-v[1], bits))
            return mk_op('Sub', bits, True, ZERO, v, st.facts)
        raise Imprecise('unary ' + op)

    def cast(self, st, kind, o, ty):
        T = self.T
        sty = self.operand_ty(st, o)
        v = self.operand(st, o)
        if kind == 'IntToInt':
            v = self.num(v)
            v = self.enum_num(st, v, sty)
            return self.int_cast(st, v, sty, ty)
        if kind in ('PtrToPtr', 'coerce:MutToConstPointer', 'FnPtrToPtr', 'coerce:ArrayToPointer'):
            v = self.as_ptr(v)
            if not T.is_fat(ty):
                return ('ptr', v[1], v[2], None)
            return v
        if kind == 'coerce:Unsize':
            return self.unsize(st, v, sty, ty)
        if kind in ('Transmute', 'Subtype', 'BoxDerefTransmute'):
            return self.transmute(st, v, sty, ty)
        if kind == 'PointerExposeAddress':
            return self.num(v)
        if kind == 'PointerWithExposedProvenance':
            return self.as_ptr(v)
        if kind.startswith('coerce:ReifyFnPointer'):
            return ('fn', T[sty]['inst'])
        if kind.startswith('coerce:ClosureFnPointer'):
            return ('fn', T[sty]['inst'])
        if kind.startswith('coerce:UnsafeFnPointer'):
            return v
        if kind in ('FloatToInt', 'IntToFloat', 'FloatToFloat'):
            return ('fcast', kind, T.bits(sty), T.bits(ty), v)
        raise Imprecise('cast ' + kind)

    def enum_num(self, st, v, sty):
        if self.T.is_enum(sty):
            return self.discr_val(st, v, sty)
        return v

    def int_cast(self, st, v, sty, ty):
        T = self.T
        sb, db = T.bits(sty), T.bits(ty)
        if T.is_enum(sty):
            return mk_trunc(db, v, st.facts)
        if v[0] in ('lt', 'eq', 'not', 'slt', 'and', 'or'):
            return v
        if db < sb:
            return mk_trunc(db, v, st.facts)
        if db > sb and T.signed(sty):
            if isint(v):
                return I(mask(E.signed(v[1], sb), db))
            if st.facts.bounds(v)[1] < (1 << (sb - 1)):
                return v
            return ('sext', sb, db, v)
        return v

    def transmute(self, st, v, sty, ty):
        T = self.T
        if T.is_scalar(sty) and T.kind(ty) in ('int', 'uint') and v[0] == 'ptr' and v[3] is None:
            return self.num(v)
        if T.is_scalar(ty) and T.kind(ty) in ('ref', 'ptr', 'pat') and v[0] != 'undef':
            if T.is_scalar(sty) and v[0] != 'ptr':
                return self.as_ptr(v)
        r = self.project(v, sty, 0, ty) if sty != ty else v
        self.valid(st, r, ty, sty)
        return r

    def valid(self, st, r, ty, sty):
        k = self.T.kind(ty)
        if k == 'bool' and E.is_num(r):
            self.oblige(st, 'validity', st.facts.bounds(r)[1] <= 1, 'bool produced from raw bytes')
        elif k == 'char' and E.is_num(r):
            self.oblige(st, 'validity', isint(r) or self.valid_char(st, r), 'char produced from raw bytes')

    def valid_char(self, st, r):
        lo, hi = st.facts.bounds(r)
        if hi > 0x10FFFF:
            return False
        if hi < 0xD800 or lo > 0xDFFF:
            return True
        return (r, 'char') in st.notes

    def unsize(self, st, v, sty, ty):
        T = self.T
        if T.kind(ty) in ('ref', 'ptr'):
            sp, dp = T.pointee(sty), T.pointee(ty)
            v = self.as_ptr(v)
            if T.kind(sp) == 'array' and T.kind(dp) == 'slice':
                return ('ptr', v[1], v[2], I(T[sp]['len']))
            if T.kind(dp) == 'dyn':
                return ('ptr', v[1], v[2], ('vt', sp))
            return v
        # struct (Box, NonNull, Unique)
        if T.kind(ty) == 'adt':
            fs, fd = T.fields(sty), T.fields(ty)
            out = []
            for i, ((_, a), (_, b)) in enumerate(zip(fs, fd)):
                x = self.field(v, sty, 0, i)
                out.append(x if a == b else self.unsize_any(st, x, a, b))
            return ('agg', ty, 0, tuple(out))
        raise Imprecise('unsize ' + T.name(ty))

    def unsize_any(self, st, x, a, b):
        T = self.T
        if T.kind(a) == 'pat':
            return self.unsize(st, x, T[a]['inner'], T[b]['inner'])
        if T.size(a) == 0:
            return self.zst(b)
        return self.unsize(st, x, a, b)

    # ---- execution ------------------------------------------------------------------------------------------------
    def push_frame(self, st, fid, args, dest, target, cont=None):
        fn = self.p.fns[fid]
        if len(st.frames) > 120:
            raise Imprecise('call depth')
        if self.src is not None and fn['path'].startswith('speedy::circular_buffer::') and 'closure' not in fn['raw']:
            raise Imprecise('%s is not part of the abstract queue' % fn['path'])
        self.analysed.add(fid)
        uid = st.fresh('uid')
        if st.ks:
            uid = (uid, st.ks)
        fr = Frame(fid, uid, dest, target)
        fr.cont = cont
        st.frames.append(fr)
        body = fn['body']
        argc = body['argc']
        if body['spread'] is not None and len(args) != argc:
            sp = body['spread']
            # rust-call ABI: pack trailing args into the tuple local
            tty = body['locals'][sp]
            args = args[:sp - 1] + [('agg', tty, 0, tuple(args[sp - 1:]))]
        if len(args) == 2 and argc == 2 and body['spread'] is None and fn['raw'].endswith('}') and '{closure' in fn['raw']:
            a = args[1]
            if a[0] == 'agg' and self.T.kind(a[1]) == 'tuple' and len(a[3]) == 1 and a[1] != body['locals'][2]:
                args = [args[0], a[3][0]]
            elif a[0] != 'agg' and self.is_symbolic(a) and self.T.kind(a[-1]) == 'tuple' and a[-1] != body['locals'][2]:
                args = [args[0], self.field(a, a[-1], 0, 0)]
        if len(args) != argc:
            # closure called through FnOnce::call_once with a tuple
            if len(args) == 2 and args[1][0] == 'agg' and self.T.kind(args[1][1]) == 'tuple' and argc == 1 + len(args[1][3]):
                args = [args[0]] + list(args[1][3])
            else:
                raise Imprecise('argument count of ' + fn['path'])
        for i, a in enumerate(args):
            ty = body['locals'][i + 1]
            self.store(st, self.lblock(st, i + 1), ZERO, ty, a)

    def push_frame_call(self, st, fid, args, d):
        self.push_frame(st, fid, args, d, self.cur_target)

    def unit_ty(self):
        for i, t in enumerate(self.T.t):
            if t['k'] == 'tuple' and not t['elems']:
                return i
        raise Imprecise('no unit type')

    def pop_frame(self, st):
        fr = st.frames.pop()
        fn = self.p.fns[fr.fid]
        uid = fr.uid
        rty = fn['body']['locals'][0]
        b = st.mem.get(('L', uid, 0))
        if self.T.size(rty) == 0:
            v = self.zst(rty) if self.T.kind(rty) != 'never' else UNDEF
        elif b is None:
            v = UNDEF
        else:
            v = self.load_b(st, b, ZERO, rty, 0, len(b.log))
        for i in range(len(fn['body']['locals'])):
            st.mem.pop(('L', uid, i), None)
        return fr, v

    def start(self, fid, args, facts=None):
        st = State()
        if facts is not None:
            st.facts = facts
        self.push_frame(st, fid, args, None, None)
        return st

    def run(self, st0, stop=None):
        """run to completion; stop=(uid, header, body) ends paths at the loop boundary.
        -> list of states; st.out = ('ret',) | ('panic', what) | ('ub', what) | ('unk', what) | ('back',) | ('exit', bb)"""
        work = [st0]
        done = []
        n = 0
        while work:
            st = work.pop()
            if len(done) + len(work) > self.MAXSTATES:
                raise Budget('too many paths')
            try:
                more = self.run_path(st, stop)
            except End as e:
                st.out = e.out
                self.locate(st)
                done.append(st)
                continue
            except Imprecise as e:
                st.out = ('unk', str(e))
                self.locate(st)
                done.append(st)
                continue
            for s in more:
                if s.out is not None:
                    done.append(s)
                else:
                    work.append(s)
        return done

    def locate(self, st):
        where = None
        st.notes['stack'] = [(self.p.fns[fr.fid]['path'], fr.line) for fr in st.frames]
        for fr in reversed(st.frames):
            fn = self.p.fns[fr.fid]
            if where is None or fn['krate'] in ('speedy', 'corpus'):
                where = (fn['path'], fr.line)
                if fn['krate'] in ('speedy', 'corpus'):
                    break
        st.notes['where'] = where

    def run_path(self, st, stop):
        """straight-line execution of one path until it ends or splits"""
        p = self.p
        while True:
            fr = st.f
            body = p.fns[fr.fid]['body']
            loops = p.loops(fr.fid)
            bb = fr.bb
            if fr.fresh:
                fr.fresh = False
                if stop is not None and fr.uid == stop[0]:
                    if bb == stop[1]:
                        st.out = ('back',)
                        return [st]
                    if bb not in stop[2]:
                        fr.fresh = True
                        st.out = ('exit', bb)
                        return [st]
                if bb in loops and bb not in fr.unroll:
                    return self.summarise(st, fr, bb, loops[bb])
            stmts, term, line = body['blocks'][bb]
            st.steps += 1
            self.total += 1
            if self.total > self.MAXSTEPS:
                raise Budget('too many steps')
            try:
                n = len(stmts)
                while fr.si < n:
                    try:
                        self.stmt(st, stmts[fr.si])
                    except NeedCase as e:
                        raise Split(self.by_case(st, e))
                    fr.si += 1
                fr.line = line
                r = self.terminator(st, term)
            except Split as sp:
                # resume at the same statement on each refined state
                return sp.states
            if r is not None:
                return r
            if st.out is not None:
                return [st]

    def by_case(self, st, e):
        n = st.notes['cases'] = st.notes.get('cases', 0) + 1
        if n > 24:
            raise Imprecise(str(e))
        out = []
        for v in (True, False):
            s = st.copy()
            if s.facts.assume(e.cond, v) and not s.facts._infeasible(E.atoms_of(e.cond)):
                out.append(s)
        if not out:
            raise End(('dead', 'case'))
        return out

    def stmt(self, st, s):
        k = s[0]
        if k == '=':
            st.f.line = s[3]
            pl = s[1]
            if isinstance(pl, int):
                ty = self.local_ty(st, pl)
                v = self.rvalue(st, s[2], ty)
                self.store(st, self.lblock(st, pl), ZERO, ty, v)
            else:
                pty = self.place_ty(st, pl)
                v = self.rvalue(st, s[2], pty)
                blk, off, ty, meta = self.place(st, pl)
                n = self.T.size(ty)
                if n:
                    self.check_access(st, blk, off, I(n), 'store')
                self.store(st, blk, off, ty, v)
        elif k == 'sd':
            blk, off, ty, meta = self.place(st, s[1])
            v = self.load(st, blk, off, ty)
            if v[0] == 'agg' and v[2] == s[2]:
                return
            fl = self.T.fields(ty, s[2])
            self.store(st, blk, off, ty, ('agg', ty, s[2], tuple(UNDEF for _ in fl)))
        elif k == 'assume':
            c = as_cond(self.operand(st, s[1]))
            if not st.facts.assume(c, True, log=False):
                raise End(('dead', 'assume'))
        elif k == 'cno':
            sty = self.operand_ty(st, s[1])
            src, dst, n = (self.operand(st, x) for x in s[1:4])
            self.copy_mem(st, src, dst, mul(n, I(self.T.size(self.T.pointee(sty)))), self.T.pointee(sty), n)
        else:
            raise Imprecise('statement ' + k)

    def copy_mem(self, st, src, dst, nbytes, ty=None, count=None):
        T = self.T
        src, dst = self.as_ptr(src), self.as_ptr(dst)
        if st.facts.decide(mk_cmp('Eq', nbytes, ZERO)):
            return
        self.check_access(st, src[1], src[2], nbytes, 'copy source')
        self.check_access(st, dst[1], dst[2], nbytes, 'copy destination')
        if count is not None and isint(count) and count[1] == 1 and ty is not None:
            self.store(st, dst[1], dst[2], ty, self.load(st, src[1], src[2], ty))
            return
        if isint(nbytes) and nbytes[1] <= 32:
            if ty is not None and isint(count):
                s = T.size(ty)
                vals = [self.load(st, src[1], add(src[2], I(i * s)), ty) for i in range(count[1])]
                if s == 1:
                    bits = mk_cat(tuple((v, 1) if v[0] != 'undef' else (UNDEF, 1) for v in vals))
                    self.store_bulk(st, dst[1], dst[2], nbytes, bits)
                    return
                for i, v in enumerate(vals):
                    self.store(st, dst[1], add(dst[2], I(i * s)), ty, v)
                return
        b = self.block(st, src[1])
        snap = b.clone()
        d = self.wblock(st, dst[1])
        if isint(nbytes) and isint(dst[2]) and not d.log and d.kind != 'dyn':
            d.log = (('copy', dst[2], nbytes, snap, src[2]),)
            return
        d.log = d.log + (('copy', dst[2], nbytes, snap, src[2]),)

    def goto(self, st, bb):
        f = st.f
        f.bb = bb
        f.si = 0
        f.fresh = True

    def branch(self, st, cond, tb, fb):
        """two-way branch on a condition -> list of states"""
        d = st.facts.decide(cond)
        if d is True:
            self.goto(st, tb)
            return None
        if d is False:
            self.goto(st, fb)
            return None
        s2 = st.copy()
        out = []
        if st.facts.assume(cond, True):
            self.goto(st, tb)
            out.append(st)
        if s2.facts.assume(cond, False):
            self.goto(s2, fb)
            out.append(s2)
        return out

    def terminator(self, st, t):
        k = t[0]
        if k == 'goto':
            self.goto(st, t[1])
            return None
        if k == 'switch':
            ty = self.operand_ty(st, t[1])
            v = self.operand(st, t[1])
            if v[0] == 'undef':
                raise End(('ub', 'branch on an uninitialised value'))
            v = self.num(v)
            if isint(v):
                for val, bb in t[2]:
                    if val == v[1] or (self.T.signed(ty) and mask(val, self.T.bits(ty)) == mask(v[1], self.T.bits(ty))):
                        self.goto(st, bb)
                        return None
                self.goto(st, t[3])
                return None
            if self.T.kind(ty) == 'bool' and len(t[2]) == 1:
                c = as_cond(v)
                if t[2][0][0] == 0:
                    return self.branch(st, c, t[3], t[2][0][1])
                return self.branch(st, c, t[2][0][1], t[3])
            out = []
            cur = st
            for val, bb in t[2]:
                c = mk_cmp('Eq', v, I(val))
                d = cur.facts.decide(c)
                if d is False:
                    continue
                if d is True:
                    self.goto(cur, bb)
                    out.append(cur)
                    cur = None
                    break
                s2 = cur.copy()
                if s2.facts.assume(c, True):
                    self.goto(s2, bb)
                    out.append(s2)
                if not cur.facts.assume(c, False):
                    cur = None
                    break
            if cur is not None:
                lo, hi = cur.facts.bounds(v)
                if lo <= hi and not self.exhausted(cur, v):
                    self.goto(cur, t[3])
                    out.append(cur)
            return out
        if k == 'ret':
            return self.do_return(st)
        if k == 'call':
            return self.call(st, t)
        if k == 'assert':
            c = as_cond(self.operand(st, t[1]))
            d = st.facts.decide(c)
            if d is None:
                s2 = st.copy()
                out = []
                if st.facts.assume(c, t[2]):
                    self.goto(st, t[4])
                    out.append(st)
                if s2.facts.assume(c, not t[2]):
                    s2.out = ('panic', t[3][0])
                    self.locate(s2)
                    out.append(s2)
                return out
            if d == t[2]:
                self.goto(st, t[4])
                return None
            raise End(('panic', t[3][0]))
        if k == 'drop':
            return self.do_drop(st, t)
        if k == 'unreachable':
            raise End(('ub', 'unreachable code reached'))
        if k in ('resume', 'abort'):
            raise End(('panic', k))
        raise Imprecise('terminator ' + k)

    def exhausted(self, st, v):
        """has every variant of this enum been excluded?"""
        if v[0] != 'discr' or not isinstance(v[1][-1], int) or not self.T.is_enum(v[1][-1]):
            return False
        ty = v[1][-1]
        return all(st.facts.decide(mk_cmp('Eq', v, I(self.T.discr_of(ty, i)))) is False for i in range(self.T.nvariants(ty)))

    def do_return(self, st):
        fr, v = self.pop_frame(st)
        if not st.frames:
            st.out = ('ret',)
            st.retv = v
            return [st]
        if fr.cont is not None:
            return fr.cont(self, st, fr, v)
        return self.finish_call(st, fr.dest, v, fr.target)

    def finish_call(self, st, dest, v, target):
        if dest is not None:
            blk, off, ty = dest
            self.store(st, blk, off, ty, v)
        if target is None:
            raise End(('panic', 'diverging call returned'))
        self.goto(st, target)
        return None

    def do_drop(self, st, t):
        self.goto(st, t[2])
        ty = t[3]
        if ty is None or not self.T[ty]['nd']:
            return None
        blk, off, pty, meta = self.place(st, t[1])
        return self.drop_value(st, blk, off, pty, meta)

    def drop_value(self, st, blk, off, ty, meta=None):
        """run speedy/corpus Drop impls reachable from the value; library containers drop their elements"""
        todo = []
        self.collect_drops(st, blk, off, ty, todo, 0)
        if not todo:
            return None
        # run the destructors in order by chaining frames
        return self.chain(st, todo)

    def chain(self, st, todo):
        if not todo:
            return None
        fid, argp = todo[0]
        rest = todo[1:]

        def cont(self_, st_, fr, v):
            return self_.chain(st_, rest)
        self.push_frame(st, fid, [argp], None, None, cont)
        return None

    def collect_drops(self, st, blk, off, ty, todo, depth):
        T = self.T
        t = T[ty]
        if not t['nd'] or depth > 8:
            return
        k = t['k']
        if k == 'adt':
            if t['path'].endswith('ManuallyDrop') or t['kind'] == 'union':
                return
            m = self.drop_models(st, blk, off, ty, todo)
            if m:
                return
            if T.is_vec(ty) and t['krate'] == 'alloc':
                from . import models
                models.vec_dropped(self, st, blk, off, ty)
                return
            if t.get('isbox'):
                self.box_dropped(st, blk, off, ty, todo, depth)
                return
            if t['drop'] is not None:
                fn = self.p.fns[t['drop']]
                if fn['krate'] in ('speedy', 'corpus') and fn['body'] is not None:
                    todo.append((t['drop'], ('ptr', blk, off, None)))
                elif t['krate'] not in ('speedy', 'corpus'):
                    return
            if t['kind'] == 'enum':
                v = self.load(st, blk, off, ty)
                v = self.settle(st, v, ty)
                if v[0] != 'agg':
                    return
                for fo, fty in T.fields(ty, v[2]):
                    self.collect_drops(st, blk, add(off, I(fo)), fty, todo, depth + 1)
                return
        if k in ('adt', 'tuple', 'closure', 'array'):
            if k == 'array' and t['len'] > 64:
                return
            for fo, fty in T.fields(ty):
                self.collect_drops(st, blk, add(off, I(fo)), fty, todo, depth + 1)

    def box_dropped(self, st, blk, off, ty, todo, depth):
        """what is in a box of known contents is dropped with it"""
        pt = self.T[ty]['args'][0]
        try:
            p = self.as_ptr(self.load(st, blk, off, ty))
        except Exception:
            return
        if p[0] != 'ptr' or p[3] is not None or p[1][0] != 'H':
            return
        k = ('dropped', p[1])
        st.notes[k] = st.notes.get(k, 0) + 1
        self.collect_drops(st, p[1], p[2], pt, todo, depth + 1)

    def drop_models(self, st, blk, off, ty, todo):
        from . import models
        n = models.DROPS.get(self.T.name(ty)) if self.world is not None else None
        fid = models.stub_fn(self, n) if n else None
        if fid is None:
            return False
        todo.append((fid, ('ptr', blk, off, None)))
        return True

    # ---- calls -----------------------------------------------------------------------------------------------------------
    def call(self, st, t):
        callee, args, dest, target = t[1], t[2], t[3], t[4]
        fr = st.f
        try:
            vals = [self.operand(st, a) for a in args]
        except NeedCase as e:
            raise Split(self.by_case(st, e))
        blk, off, dty, meta = self.place(st, dest)
        d = (blk, off, dty)
        if isinstance(callee, dict):
            raise Imprecise('unresolved call ' + callee['unresolved'])
        if not isinstance(callee, int):
            v = self.operand(st, callee)
            if v[0] == 'fn':
                callee = v[1]
            else:
                raise Imprecise('indirect call')
        return self.invoke(st, callee, vals, d, target)

    def invoke(self, st, fid, vals, d, target):
        fn = self.p.fns[fid]
        m = self.find_model(fn)
        if m is not None:
            self.cur_target = target
            r = m(self, st, fn, vals, d)
            if r is NORET:
                return self.after_model(st, target)
            if isinstance(r, tuple):
                return self.finish_call(st, d, r, target)
            if isinstance(r, list):
                # list of (state, value) alternatives
                out = []
                for s2, v in r:
                    if v is NORET:
                        self.after_model(s2, target)
                    elif s2.out is None:
                        self.finish_call(s2, d, v, target)
                    else:
                        self.locate(s2)
                    out.append(s2)
                return out
            if r is PUSHED:
                return None
            if r is not None:
                raise Exception('model result')
        if fn['kind'] == 'intrinsic' and fn['body'] is None:
            raise Imprecise('intrinsic ' + str(fn['intr']))
        if fn['body'] is None and fn['raw'].endswith('::{constructor#0}'):
            ty = fn['sig'][1]
            v = 0
            if self.T.is_enum(ty):
                nm = fn['raw'].split('::')[-2]
                v = [i for i, x in enumerate(self.T[ty]['variants']) if x['n'] == nm][0]
            return self.finish_call(st, d, fold_agg(self.T, ty, v, tuple(vals)), target)
        if fn['body'] is None and fn['kind'] == 'shim' and fn['shim'].startswith('Shim(FnPtr'):
            ft = fn['args'][0]
            if self.T.kind(ft) == 'fndef':
                callee = self.T[ft]['inst']
            else:
                f = vals[0]
                if f[0] == 'ptr':
                    f = self.load(st, f[1], f[2], ft)
                if f[0] != 'fn':
                    raise Imprecise('indirect call')
                callee = f[1]
            a = vals[1]
            n = len(self.T[fn['args'][1]]['elems'])
            return self.invoke(st, callee, [self.field(a, fn['args'][1], 0, i) for i in range(n)], d, target)
        if fn['body'] is None and fn['raw'] == 'core::clone::Clone::clone' and self.plain_copy(d[2]) and vals[0][0] == 'ptr':
            return self.finish_call(st, d, self.load(st, vals[0][1], vals[0][2], d[2]), target)
        if fn['body'] is None:
            return self.extern_call(st, fn, vals, d, target)
        if fn['path'].startswith('core::panicking') or fn['raw'].startswith('core::panicking'):
            raise End(('panic', fn['raw']))
        self.push_frame(st, fid, vals, d, target)
        return None

    def plain_copy(self, ty):
        """cloning such a value copies its bits (the compiler's own Clone of tuples, arrays, references, functions)"""
        t = self.T[ty]
        k = t['k']
        if k in ('bool', 'char', 'int', 'uint', 'float', 'ptr', 'fnptr', 'fndef', 'never'):
            return True
        if k == 'ref':
            return not t.get('mut')
        if k == 'tuple':
            return all(self.plain_copy(e) for e in t['elems'])
        return False

    def after_model(self, st, target):
        if target is None:
            raise End(('panic', 'diverges'))
        self.goto(st, target)
        return None

    def extern_call(self, st, fn, vals, d, target):
        raw = fn['raw']
        if 'panic' in raw or raw.startswith('core::panicking') or raw.endswith('unwrap_failed') or raw.endswith('expect_failed') \
                or raw.endswith('_fail') or raw.endswith('handle_error') or raw.endswith('handle_alloc_error'):
            raise End(('panic', raw))
        if target is None:
            raise End(('panic', raw))
        self.externs.add(raw)
        raise Imprecise('call of ' + raw)

    def find_model(self, fn):
        m = fn.get('_m', 0)
        if m != 0:
            return m
        from . import models
        m = models.lookup(self, fn)
        fn['_m'] = m
        return m

    # ---- loops -------------------------------------------------------------------------------------------------------------
    def summarise(self, st, fr, header, body):
        from .loops import summarise
        return summarise(self, st, fr, header, body)


NORET = object()
PUSHED = object()


def as_cond(v):
    if v[0] in ('lt', 'eq', 'not', 'slt', 'i', 'and', 'or', 'ovf'):
        return v
    if v[0] == 'undef':
        raise End(('ub', 'condition on an uninitialised value'))
    # a symbolic boolean value
    return mk_not(('eq', v, ZERO)) if repr(v) <= repr(ZERO) else mk_not(mk_cmp('Eq', v, ZERO))


def f_simpl(f, c):
    d = f.decide(c)
    return c if d is None else I(int(d))


def mk_cmp_f(f, op, a, b):
    return mk_cmp(op, a, b)


def show(e, depth=0):
    t = e[0]
    if t == 'i':
        return str(e[1])
    if depth > 6:
        return '…'
    if t == 'lin':
        s = ' + '.join(('%d*%s' % (k, show(x, depth + 1))) if k != 1 else show(x, depth + 1) for x, k in e[2])
        return '(%s%s)' % (s, ' + %d' % e[1] if e[1] else '')
    if t == 'mul':
        return '%s*%s' % (show(e[1], depth + 1), show(e[2], depth + 1))
    if t == 'rd':
        return 'rd%s' % (e[1],)
    if t == 'len':
        return 'len(%s)' % show(e[1], depth + 1)
    if t == 'F':
        return '%s.%s%d' % (show(e[1], depth + 1), 'v%d.' % e[2] if e[2] else '', e[3])
    if t == 'S':
        return str(e[1])
    if t == 'deref':
        return '*' + show(e[1], depth + 1)
    if t in ('lt', 'eq'):
        return '(%s %s %s)' % (show(e[1], depth + 1), '<' if t == 'lt' else '==', show(e[2], depth + 1))
    if t == 'not':
        return '!' + show(e[1], depth + 1)
    if t == 'k':
        return 'k%s' % (e[1],)
    return '%s(%s)' % (t, ','.join(show(x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) if not isinstance(x, tuple) else '(' + ','.join(show(y, depth + 1) if isinstance(y, tuple) and y and isinstance(y[0], str) else str(y) for y in x) + ')' for x in e[1:]))
