"""Wire grammar: one object per documented encoding.  Each grammar item can
  enc(w, v)   - walk a writer trace that should be the encoding of value v
  dec(r)      - walk a reader trace that should consume this encoding; returns a matcher for the value
  need(m, v)  - the documented encoded size of v
  min         - the smallest possible encoded size
Values are symbolic (see V); nothing here is executed against concrete inputs."""
from engine.expr import *
from engine import expr as E
from engine.mem import Imprecise
from engine.loops import pw_cases


class Mismatch(Exception):
    """the trace differs from the specification"""


class Split(Exception):
    """the code does not tell these cases apart on this path: the specification has to hold in each of them"""

    def __init__(self, cases, msg):
        Exception.__init__(self, msg)
        self.cases = cases


def either(c, msg):
    return Split([(c, True), (c, False)], msg)


class Undecided(Exception):
    """the analysis result is not precise enough to compare"""


class Infeasible(Exception):
    """no input takes this path"""


class Failed(Exception):
    """the path ends with the failure of this probe call"""

    def __init__(self, fid):
        self.fid = fid


class CanFail(Exception):
    def __init__(self, n):
        self.n = n


class Invalid(Exception):
    """the specification says: this input must be rejected"""

    def __init__(self, kinds):
        self.kinds = kinds


class V:
    """a symbolic value of a Rust type seen by the specification"""

    def __init__(self, m, e, ty):
        self.m = m
        self.e = e
        self.ty = ty

    @property
    def T(self):
        return self.m.T

    def bits(self):
        return self.m.bits(self.e, self.ty)

    def field(self, f, variant=None):
        T = self.T
        t = T[self.ty]
        e = self.m.settle(self.e, self.ty)
        if T.is_enum(self.ty):
            i = f if isinstance(f, int) else [x[0] for x in t['variants'][variant]['f']].index(f)
            fl = T.fields(self.ty, variant)
            return V(self.m, self.m.I.field(e, self.ty, variant, i), fl[i][1])
        if isinstance(f, str):
            f = T.field_names(self.ty).index(f)
        fl = T.fields(self.ty)
        return V(self.m, self.m.I.field(e, self.ty, 0, f), fl[f][1])

    def path(self, *fs):
        v = self
        for f in fs:
            v = v.field(f)
        return v

    def variant(self):
        """index of the variant on this path"""
        T = self.T
        e = self.m.settle(self.e, self.ty)
        if e[0] == 'agg':
            return e[2]
        msg = 'this path does not depend on the variant of %s' % T.name(self.ty)
        if self.m.I.is_symbolic(e) and e[0] != 'T':
            raise Split([(mk_cmp('Eq', ('discr', e), I(T.discr_of(self.ty, i))), True) for i in range(T.nvariants(self.ty))], msg)
        if e[0] == 'pw':
            for conds, val in pw_cases(e):
                for c, v in conds:
                    if self.m.decide(c) is None:
                        raise either(c, msg)
        raise Undecided(msg)

    def variant_name(self):
        return self.T[self.ty]['variants'][self.variant()]['n']

    def peel(self):
        """through single-field wrappers down to a scalar/pointer"""
        v = self
        T = self.T
        while not T.is_scalar(v.ty) and T.kind(v.ty) == 'adt' and not T.is_enum(v.ty):
            fl = [i for i, (o, f) in enumerate(T.fields(v.ty)) if T.size(f)]
            if len(fl) != 1:
                break
            if T.is_union(v.ty):
                i = fl[0]
                v = V(self.m, self.m.I.project(v.e, v.ty, 0, T.fields(v.ty)[i][1]), T.fields(v.ty)[i][1])
                continue
            v = v.field(fl[0])
        return v

    def deref(self):
        v = self.peel()
        if self.T.kind(v.ty) not in ('ref', 'ptr', 'pat'):
            raise Undecided('deref of ' + self.T.name(self.ty))
        return self.m.deref(v.e, v.ty)

    def seq(self):
        """(length, element(k)) of a slice-like value"""
        return self.m.seq(self)


class G:
    min = 0
    fixed = None      # encoded size when constant

    def need(self, m, v):
        if self.fixed is not None:
            return I(self.fixed)
        raise Undecided('need')


class Prim(G):
    """n-byte scalar in the stream's byte order"""

    def __init__(self, n):
        self.n = self.min = self.fixed = n

    def enc(self, w, v):
        b = v.bits()
        w.put(b if self.n == 1 or w.le() else mk_bswap(8 * self.n, b), self.n)

    def dec(self, r):
        b = r.take(self.n)
        return MBits(b if self.n == 1 or r.le() else mk_bswap(8 * self.n, b), self.n)


class Octets(G):
    """n octets in network order that stand for one n-byte integer in the stream's byte order"""

    def __init__(self, n):
        self.n = self.min = self.fixed = n

    def enc(self, w, v):
        b = v.bits()
        w.put(mk_bswap(8 * self.n, b) if w.le() else b, self.n)

    def dec(self, r):
        b = r.take(self.n)
        return MBits(mk_bswap(8 * self.n, b) if r.le() else b, self.n)


def all_zero(e):
    """a constant aggregate whose scalar leaves are all zero (an epoch)"""
    if e[0] == 'i':
        return e[1] == 0
    return e[0] == 'agg' and all(all_zero(x) for x in e[3])


class DurationG(G):
    """whole seconds (u64), then the remaining nanoseconds (u32); a decoder carries excess nanoseconds into the seconds"""
    min = fixed = 12

    def enc(self, w, v):
        Prim(8).enc(w, v.field('secs'))
        Prim(4).enc(w, v.field('nanos').peel())

    def parts(self, r):
        s = Prim(8).dec(r).e
        n = Prim(4).dec(r).e
        d = r.m.decide(mk_cmp('Lt', n, I(10 ** 9)))
        if d:
            return s, n
        q = ('op', 'Div', 32, n, I(10 ** 9))
        if r.branch(mk_cmp('Lt', add(q, s), I(1 << 64))):
            return add(q, s), ('op', 'Rem', 32, n, I(10 ** 9))
        raise Invalid(None)

    def dec(self, r):
        s, n = self.parts(r)
        return MStruct([(('secs',), MBits(s, 8)), (('nanos',), MBits(n, 4))])


class PureCalls:
    """occurrences of an uninterpreted library function on a path"""

    def __init__(self, m, name):
        self.m, self.name = m, name

    def all(self):
        out = []

        def go(x):
            if isinstance(x, tuple):
                if len(x) > 2 and x[0] == 'call' and x[1] == self.name and x not in out:
                    out.append(x)
                for y in x:
                    go(y)
        for c, v in self.m.st.facts.log:
            go(c)
        for e in self.m.st.events:
            go(e)
        go(self.m.st.retv)
        return out


class SysTimeG(DurationG):
    """the duration since the epoch"""

    def enc(self, w, v):
        cs = [c for c in PureCalls(w.m, 'ext:std::time::duration_since').all() if c[2] == v.e and all_zero(c[3])]
        if len(cs) != 1:
            raise Mismatch('the encoding does not depend on the time since the epoch')
        c = V(w.m, cs[0], cs[0][-1])
        if c.variant_name() == 'Err':
            raise Invalid(('InvalidSystemTime',))
        super().enc(w, c.field(0, 0))

    def dec(self, r):
        s, n = self.parts(r)
        cs = [c for c in PureCalls(r.m, 'ext:std::time::checked_add').all() if all_zero(c[2])]
        if len(cs) != 1:
            raise Mismatch('the decoded time is not an offset from the epoch')
        c = V(r.m, cs[0], cs[0][-1])
        d = V(r.m, cs[0][3], r.m.I.p.types.byname['std::time::Duration'])
        MStruct([(('secs',), MBits(s, 8)), (('nanos',), MBits(n, 4))]).match(r.check(), d)
        if c.variant_name() == 'None':
            raise Invalid(('InvalidSystemTime',))
        return MExact(c.field(0, 1).e)


class ChronoG(G):
    """seconds since the epoch (i64), nanoseconds within the second (u32)"""
    min = fixed = 12

    def enc(self, w, v):
        for name, n in (('timestamp', 8), ('timestamp_subsec_nanos', 4)):
            cs = [c for c in PureCalls(w.m, 'ext:chrono::datetime::' + name).all() if c[2] == v.e]
            if len(cs) == 1:
                Prim(n).enc(w, V(w.m, cs[0], cs[0][-1]))
            elif w.cur() is not None and w.cur()[0] == 'WF':
                w.put(ZERO, n)
            else:
                raise Mismatch('the encoding does not depend on the %s' % name)

    def dec(self, r):
        s = Prim(8).dec(r).e
        n = Prim(4).dec(r).e
        cs = [c for c in PureCalls(r.m, 'ext:chrono::offset::TimeZone::timestamp_opt').all() if c[3:5] == (s, n)]
        if len(cs) != 1:
            raise Mismatch('the decoded time is not made of the seconds and nanoseconds read')
        ds = [d for d in PureCalls(r.m, 'ext:chrono::offset::single').all() if d[2] == cs[0]]
        if len(ds) != 1:
            raise Mismatch('the decoded time is not the only one with this timestamp')
        c = V(r.m, ds[0], ds[0][-1])
        if c.variant_name() == 'None':
            raise Invalid(None)
        return MExact(c.field(0, 1).e)


class RegexG(G):
    """the pattern as a string"""
    min = 4

    def str_of(self, m, v):
        cs = [c for c in PureCalls(m, 'ext:regex::regex::string::as_str').all() if c[2] == v.e]
        if len(cs) != 1:
            raise Mismatch('the pattern is not what is encoded')
        return V(m, m.I.sym(cs[0], cs[0][-1]), cs[0][-1])

    def enc(self, w, v):
        Seq(Len(4), Raw(1), 'str').enc(w, self.str_of(w.m, v))

    def need(self, m, v):
        return Seq(Len(4), Raw(1), 'str').need(m, self.str_of(m, v))

    def dec(self, r):
        Seq(Len(4), Raw(1), 'str').dec(r)
        cs = PureCalls(r.m, 'ext:regex::regex::string::new').all()
        if len(cs) != 1:
            raise Mismatch('the pattern is not compiled')
        if r.last is not None and cs[0][2] != r.last and cs[0][2] not in (('i', 0), ('cat', ())):
            raise Mismatch('the regex is not made from the pattern read')
        c = V(r.m, cs[0], cs[0][-1])
        if c.variant_name() == 'Err':
            raise Invalid(None)
        return MExact(c.field(0, 0).e)


class SmallVecG(G):
    def __init__(self, g):
        self.g = g
        self.min = g.min

    def slice_of(self, m, v):
        cs = [c for c in PureCalls(m, 'ext:smallvec::as_slice').all() if c[2] == v.e]
        if len(cs) != 1:
            raise Mismatch('the elements are not what is encoded')
        return V(m, m.I.sym(cs[0], cs[0][-1]), cs[0][-1])

    def enc(self, w, v):
        self.g.enc(w, self.slice_of(w.m, v))

    def need(self, m, v):
        return self.g.need(m, self.slice_of(m, v))

    def dec(self, r):
        return MSmallVec(self.g.dec(r))


class Comps(G):
    """components of s bytes at the given offsets of the value, in order"""

    def __init__(self, offs, s):
        self.offs, self.s = offs, s
        self.min = self.fixed = s * len(offs)

    def enc(self, w, v):
        for o in self.offs:
            b = w.m.part(v, o, self.s)
            w.put(b if w.le() else mk_bswap(8 * self.s, b), self.s)

    def dec(self, r):
        return MComps([(o, Prim(self.s).dec(r)) for o in self.offs], self.s)


class BoolMask(G):
    """booleans as the bits of one byte"""
    min = fixed = 1

    def __init__(self, n):
        self.n = n

    def enc(self, w, v):
        e = ZERO
        for i in range(self.n):
            b = v.field(i).bits()
            x = w.m.decide(b)
            e = add(e, mulc(b if x is None else I(int(x)), 1 << i))
        w.put(e, 1)

    def dec(self, r):
        b = r.take(1)
        return MMask(b, self.n)


class Raw(G):
    """n bytes copied verbatim"""

    def __init__(self, n):
        self.n = self.min = self.fixed = n

    def enc(self, w, v):
        w.put(v.bits(), self.n)

    def dec(self, r):
        return MBits(r.take(self.n), self.n)


class Unit(G):
    fixed = 0

    def enc(self, w, v):
        pass

    def dec(self, r):
        return MAny()


class BoolG(G):
    min = fixed = 1

    def enc(self, w, v):
        b = v.bits()
        x = w.m.decide(b)
        w.put(b if x is None else I(int(x)), 1)

    def dec(self, r):
        b = r.take(1)
        if r.branch(mk_cmp('Eq', b, ZERO)):
            return MBits(ZERO, 1)
        r.may_reject(b)
        return MBits(I(1), 1)


class CharG(G):
    min = fixed = 4

    def enc(self, w, v):
        Prim(4).enc(w, v)

    def dec(self, r):
        x = Prim(4).dec(r)
        e = x.e
        bad = r.branch(mk_cmp('Le', I(0x110000), e, 32))
        if bad:
            raise Invalid(None)
        if r.branch(mk_cmp('Lt', e, I(0xD800), 32)):
            return x
        if r.branch(mk_cmp('Lt', I(0xDFFF), e, 32)):
            return x
        raise Invalid(None)


class NonZero(G):
    def __init__(self, n):
        self.n = self.min = self.fixed = n

    def enc(self, w, v):
        Prim(self.n).enc(w, v)

    def dec(self, r):
        x = Prim(self.n).dec(r)
        if r.branch(mk_cmp('Eq', x.e, ZERO)):
            raise Invalid(None)
        return x


class Struct(G):
    """fields in order; each field is a name/index or a path of them"""

    def __init__(self, fields):
        self.fields = [(f if isinstance(f, tuple) else (f,), g) for f, g in fields]
        self.min = sum(g.min for _, g in self.fields)
        self.fixed = sum(g.fixed for _, g in self.fields) if all(g.fixed is not None for _, g in self.fields) else None

    def enc(self, w, v):
        for f, g in self.fields:
            g.enc(w, v.path(*f))

    def dec(self, r):
        out = []
        for i, (f, g) in enumerate(self.fields):
            r.lower.append(add(r.pos, I(sum(x.min for _, x in self.fields[i:]))))
            out.append((f, g.dec(r)))
        return MStruct(out)

    def need(self, m, v):
        e = ZERO
        for f, g in self.fields:
            e = add(e, g.need(m, v.path(*f)))
        return e


class Tagged(G):
    """enum: tag then the variant's payload; variants: {name: (tag, G of payload as fields list)}"""

    def __init__(self, tag, variants, lenient=False):
        self.tag = tag        # grammar of the tag (fixed size)
        self.lenient = lenient   # two variants with tags 0 and 1, any tag but 0 may be taken for 1
        self.vs = {n: (t, Struct(fs)) for n, (t, fs) in variants.items()}
        self.min = tag.min + min([g.min for t, g in self.vs.values()] or [0])
        self.fixed = None
        fx = {g.fixed for t, g in self.vs.values()}
        if len(fx) == 1 and None not in fx:
            self.fixed = tag.fixed + fx.pop() if tag.fixed is not None else None

    def enc(self, w, v):
        i = v.variant()
        n = v.T[v.ty]['variants'][i]['n']
        t, g = self.vs[n]
        self.tag.put_const(w, t)
        for f, x in g.fields:
            x.enc(w, v.field(f[0], i).path(*f[1:]))

    def dec(self, r):
        tagv = self.tag.get(r)
        for n, (t, g) in self.vs.items():
            if self.lenient and t != 0:
                r.may_reject(tagv)
                r.lower.append(add(r.pos, I(g.min)))
                return MEnum(n, [(f, x.dec(r)) for f, x in g.fields])
            if r.branch(mk_cmp('Eq', tagv, I(t))):
                r.lower.append(add(r.pos, I(g.min)))
                return MEnum(n, [(f, x.dec(r)) for f, x in g.fields])
        raise Invalid(None)

    def need(self, m, v):
        if self.fixed is not None:
            return I(self.fixed)
        i = v.variant()
        n = v.T[v.ty]['variants'][i]['n']
        e = I(self.tag.fixed)
        for f, x in self.vs[n][1].fields:
            e = add(e, x.need(m, v.field(f[0], i).path(*f[1:])))
        return e


class Tag(G):
    def __init__(self, n):
        self.n = self.min = self.fixed = n

    def size_of(self, t):
        return self.fixed

    def put_const(self, w, t):
        t &= (1 << 8 * self.n) - 1
        w.put(I(t) if self.n == 1 or w.le() else mk_bswap(8 * self.n, I(t)), self.n)

    def get(self, r):
        return Prim(self.n).dec(r).e


class PeekTag(Tag):
    """the tag is looked at, not consumed; it is written by the payload"""

    def __init__(self, n):
        self.n = n
        self.min = self.fixed = 0

    def put_const(self, w, t):
        pass

    def get(self, r):
        r.lower.append(add(r.pos, I(self.n)))
        b = r.peek(self.n)
        return b if r.le() else mk_bswap(8 * self.n, b)


def Opt(g):
    return Tagged(Tag(1), {'None': (0, []), 'Some': (1, [(0, g)])}, lenient=True)


def Res(a, b):
    return Tagged(Tag(1), {'Err': (0, [(0, b)]), 'Ok': (1, [(0, a)])}, lenient=True)


class VarTag(Tag):
    """u64 varint used as a constant tag"""

    def __init__(self):
        self.n = None
        self.min = 1
        self.fixed = None

    def size_of(self, t):
        for k in range(8):
            if t < 1 << 7 * (k + 1):
                return 1 + k
        return 9

    def put_const(self, w, t):
        VarInt().put_bits(w, I(t))

    def get(self, r):
        return VarInt().get_bits(r)


class PeekVarTag(VarTag):
    def __init__(self):
        self.min = self.fixed = 0

    def size_of(self, t):
        return 0

    def put_const(self, w, t):
        pass

    def get(self, r):
        return PeekVar().get_bits(r)


class PeekVar(G):
    """look at a varint without consuming it: its first byte, then all of it"""
    min = fixed = 0

    def get_bits(self, r):
        r.lower.append(add(r.pos, I(1)))
        f = r.peek(1)
        k = 8
        for i in range(8):
            if r.branch(mk_cmp('Lt', f, I(0x100 - (0x80 >> i)))):
                k = i
                break
        rest = ZERO
        if not k:
            c = r.cans()
            if c is not None and c[0] in ('P', 'PF'):
                r.peek(1)       # looking again changes nothing
        if k:
            r.lower.append(add(r.pos, I(k + 1)))
            b = r.peek(k + 1)
            rest = mk_sub(b, 1, k, k + 1)
        if k >= 7:
            return r.alias(rest)
        if k == 0:
            return r.alias(f)
        return r.alias(add(mulc(mk_op('BitAnd', 8, False, f, I(0x7f >> k)), 1 << 8 * k), rest))

    def dec(self, r):
        return MBits(self.get_bits(r), 8)


class Box(G):
    def __init__(self, g):
        self.g = g
        self.min = g.min
        self.fixed = g.fixed

    def enc(self, w, v):
        self.g.enc(w, v.deref())

    def dec(self, r):
        return MBox(self.g.dec(r))

    def need(self, m, v):
        return self.g.need(m, v.deref())


class CowG(G):
    def __init__(self, b, o):
        self.b, self.o = b, o
        self.min = b.min
        self.fixed = b.fixed

    def enc(self, w, v):
        n = v.variant_name()
        if n == 'Borrowed':
            self.b.enc(w, v.field(0, 0))
        else:
            self.o.enc(w, v.field(0, 1))

    def dec(self, r):
        return MCow(self.o.dec(r))

    def need(self, m, v):
        n = v.variant_name()
        return self.b.need(m, v.field(0, 0)) if n == 'Borrowed' else self.o.need(m, v.field(0, 1))


class Len:
    """a length prefix of n bytes holding at most `limit`"""

    def __init__(self, n, limit=None):
        self.n = n
        self.limit = limit if limit is not None else (1 << 8 * n) - 1
        self.min = n

    def put(self, w, ln):
        if w.branch(mk_cmp('Lt', I(self.limit), ln)):
            raise Invalid(('OutOfRangeLength',))
        b = mk_trunc(8 * self.n, ln, w.m.st.facts) if self.n < 8 else ln
        w.put(b if w.le() else mk_bswap(8 * self.n, b), self.n)

    def get(self, r):
        x = Prim(self.n).dec(r).e
        if self.limit < (1 << 8 * self.n) - 1:
            if r.branch(mk_cmp('Lt', I(self.limit), x)):
                raise Invalid(('OutOfRangeLength',))
        return x

    def need(self, m, ln):
        if m.decide(mk_cmp('Lt', I(self.limit), ln)):
            raise Invalid(('OutOfRangeLength',))
        return I(self.n)


class VarInt(G):
    """1 to 9 bytes: the first holds as many leading ones as bytes follow and the most significant bits, the rest is little endian"""
    min = 1

    def __init__(self, n=8):
        self.n = n

    def enc(self, w, v):
        self.put_bits(w, v.bits())

    def put_bits(self, w, b):
        k = self.size(w.m, b, w)
        w.room = 1 + k
        if k == 8:
            w.put(I(0xff), 1)
        else:
            pre = (0xff << (8 - k)) & 0xff
            w.put(add(I(pre), mk_op('Shr', 64, False, b, I(8 * k))), 1)
        if k:
            w.put(mk_sub(b, 0, k, 8), k)
        w.room = 0

    def size(self, m, b, w=None):
        """number of bytes after the first"""
        for k in range(8):
            c = mk_cmp('Lt', b, I(1 << 7 * (k + 1)))
            r = m.decide(c)
            if r is None:
                raise either(c, 'the outcome does not depend on whether the value fits in %d bytes' % (k + 1))
            if r:
                return k
        return 8

    def need(self, m, v):
        return I(1 + self.size(m, v.bits()))

    def get_bits(self, r):
        f = r.take(1)
        k = 8
        for i in range(8):
            if r.branch(mk_cmp('Lt', f, I(0x100 - (0x80 >> i)))):
                k = i
                break
        r.lower.append(add(r.pos, I(k)))
        rest = r.take(k) if k else ZERO
        if k >= 7:
            return r.alias(rest)
        if k == 0:
            return r.alias(f)
        return r.alias(add(mulc(mk_op('BitAnd', 8, False, f, I(0x7f >> k)), 1 << 8 * k), rest))

    def dec(self, r):
        return MBits(self.get_bits(r), 8)


class LenVar:
    """varint length prefix"""
    n = None
    min = 1

    def put(self, w, ln):
        VarInt().put_bits(w, ln)

    def get(self, r):
        return VarInt().get_bits(r)

    def need(self, m, ln):
        return I(1 + VarInt().size(m, ln))


class LenExpr:
    """no prefix: the length is an expression over already-known fields"""
    n = min = 0

    def __init__(self, fn):
        self.fn = fn

    def put(self, w, ln):
        if not w.branch(mk_cmp('Eq', ln, self.fn(w.env))):
            raise Invalid(('LengthIsNotTheSameAsLengthAttribute',))

    def get(self, r):
        return self.fn(r.env)

    def need(self, m, ln):
        if not m.decide(mk_cmp('Eq', ln, self.fn(m.env))):
            raise Invalid(None)
        return ZERO


class LenRest:
    """no prefix: everything up to the end of the input"""
    n = min = 0

    def put(self, w, ln):
        pass

    def get(self, r):
        return None

    def need(self, m, ln):
        return ZERO


class Seq(G):
    """length-prefixed sequence.  kind: vec, str, map, set (collections receive their elements by insertion)"""

    def __init__(self, ln, g, kind='vec', key=None):
        self.ln = ln
        self.g = g
        self.kind = kind
        self.min = ln.min

    def enc(self, w, v):
        n, el = w.seq(v)
        self.ln.put(w, n)
        w.rep(n, self.g, el)

    def dec(self, r):
        n = self.ln.get(r)
        rest = n is None
        if rest:
            n, seq = r.rest(self.g)
        elif self.kind == 'str' and isint(n):
            r.lower.append(add(r.pos, n))
            c = r.take(n[1]) if n[1] else ('cat', ())
            seq = lambda j: MBits(mk_sub(c, j[1], 1, n[1]), 1)
        else:
            seq = r.rep(n, self.g)
        if self.kind == 'str':
            if rest and r.last is None and not r.m.decide(mk_cmp('Eq', n, ZERO)):
                c = r.text(n, seq)
            elif not isint(n):
                c = r.content(n)
            if not r.m.decide(mk_cmp('Eq', n, ZERO)) and r.branch(mk_cmp('Eq', ('call', 'utf8', c, r.m.I.bool), ZERO)):
                raise Invalid(('InvalidUtf8',))
        return MSeq(n, seq, self.kind)

    def need(self, m, v):
        n, el = m.seq(v)
        e = self.ln.need(m, n)
        return add(e, m.total(n, self.g, el))


class ArrayG(G):
    def __init__(self, n, g):
        self.n = n
        self.g = g
        self.min = n * g.min
        self.fixed = n * g.fixed if g.fixed is not None else None

    def enc(self, w, v):
        w.rep(I(self.n), self.g, lambda k: w.m.elem_of_array(v, k))

    def dec(self, r):
        return MArray(self.n, r.rep(I(self.n), self.g))

    def need(self, m, v):
        if self.fixed is not None:
            return I(self.fixed)
        if self.n > 40:
            return m.total(I(self.n), self.g, lambda k: m.elem_of_array(v, k))
        e = ZERO
        for k in range(self.n):
            e = add(e, self.g.need(m, m.elem_of_array(v, I(k))))
        return e


class Pair(G):
    """(K, V) entry of a map (elements are tuples, of references when iterated)"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.min = a.min + b.min
        self.fixed = a.fixed + b.fixed if a.fixed is not None and b.fixed is not None else None

    def enc(self, w, v):
        self.a.enc(w, w.m.auto(v.field(0)))
        self.b.enc(w, w.m.auto(v.field(1)))

    def dec(self, r):
        return MStruct([((0,), self.a.dec(r)), ((1,), self.b.dec(r))])

    def need(self, m, v):
        return add(self.a.need(m, m.auto(v.field(0))), self.b.need(m, m.auto(v.field(1))))


class One(G):
    """entry of a set (a reference when iterated)"""

    def __init__(self, a):
        self.a = a
        self.min = a.min
        self.fixed = a.fixed

    def enc(self, w, v):
        self.a.enc(w, w.m.auto(v))

    def dec(self, r):
        return self.a.dec(r)

    def need(self, m, v):
        return self.a.need(m, m.auto(v))


class Elem(G):
    """opaque element type El<K, MIN>"""

    def __init__(self, K, mn):
        self.K = K
        self.min = mn

    def enc(self, w, v):
        w.elem(self.K, v.e)

    def dec(self, r):
        return MElem(r.elem(self.K))

    def need(self, m, v):
        return ('call', 'eb', v.e, m.I.usize)


class SkipG(G):
    """field that is not encoded; decoded as Default"""
    fixed = 0

    def enc(self, w, v):
        pass

    def dec(self, r):
        return MDefault()

    def need(self, m, v):
        return ZERO


class OnEof(G):
    """a field which is set to its default when the input ends in it"""
    min = 0

    def __init__(self, g):
        self.g = g
        self.fixed = None

    def enc(self, w, v):
        self.g.enc(w, v)

    def need(self, m, v):
        return self.g.need(m, v)

    def dec(self, r):
        r.eof_ok += 1
        r.lower.append(add(r.pos, I(self.g.min)))
        try:
            return self.g.dec(r)
        except Failed as f:
            c = r.m.iseof(f.fid)
            if c is None:
                raise Mismatch('the outcome does not depend on whether the input has ended')
            if c:
                return MDefault()
            if r.cur() is not None:
                raise Mismatch('reading continues after a failed read')
            raise
        except CanFail:
            return MDefault()
        finally:
            r.eof_ok -= 1


class Prefixed(G):
    """constant bytes, then a field"""

    def __init__(self, data, g):
        self.data, self.g = data, g
        self.min = len(data) + g.min
        self.fixed = len(data) + g.fixed if g.fixed is not None else None

    def enc(self, w, v):
        n = len(self.data)
        if n:
            w.put(I(int.from_bytes(self.data, 'little')), n)
        self.g.enc(w, v)

    def need(self, m, v):
        return add(I(len(self.data)), self.g.need(m, v))

    def dec(self, r):
        n = len(self.data)
        if n:
            r.lower.append(add(r.pos, I(n)))
            b = r.take(n)
            if not r.m.eq_const(b, self.data):
                raise Invalid(('ExpectedConstant',))
        return self.g.dec(r)


class RefG(G):
    """a sequence borrowed from the input"""

    def __init__(self, g, elem):
        self.g = g
        self.elem = elem
        self.min = g.min

    def enc(self, w, v):
        self.g.enc(w, v)

    def need(self, m, v):
        return self.g.need(m, v)

    def dec(self, r):
        z = self.g.g.fixed
        if z != 1 and not r.le():
            raise Invalid(('EndiannessMismatch',))
        if not r.borrow:
            if self.g.ln.get(r) is not None or True:
                raise Invalid(('Unsized', 'OutOfRangeLength'))
        x = self.g.dec(r)
        if z != 1 and r.outcome == 'err' and self.elem in ALIGNED and r.cur() is None:
            if not any(contains(c, lambda y: y[0] == 'addr') for c, v in r.m.st.facts.log):
                raise Mismatch('an aligned slice is rejected')
            raise Invalid(('MisalignedInput', 'OutOfRangeLength') if isinstance(self.g.ln, LenRest) else ('MisalignedInput',))
        return x


class RefArrG(RefG):
    """an array borrowed from the input"""

    def dec(self, r):
        if self.g.g.fixed != 1 and not r.le():
            raise Invalid(('EndiannessMismatch',))
        if not r.borrow:
            raise Invalid(('Unsized',))
        x = self.g.dec(r)
        if r.outcome == 'err' and self.elem in ALIGNED and r.cur() is None:
            if not any(contains(c, lambda y: y[0] == 'addr') for c, v in r.m.st.facts.log):
                raise Mismatch('an aligned array is rejected')
            raise Invalid(('MisalignedInput',))
        return MBox(x) if r.outcome != 'err' else x


ALIGNED = ('u16', 'u32', 'u64', 'u128', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64', 'Tr16')


class DStruct(G):
    """fields of a derived type in order; names of earlier fields can be used in length expressions"""

    def __init__(self, fields):
        self.fields = fields
        self.min = sum(g.min for _, g, _ in fields)
        self.fixed = sum(g.fixed for _, g, _ in fields) if all(g.fixed is not None for _, g, _ in fields) else None

    def enc(self, w, v, variant=None):
        old, w.env = w.env, {}
        for f, g, n in self.fields:
            x = v.field(f, variant) if variant is not None else v.field(f)
            if w.m.T.is_scalar(x.ty):
                w.env[n] = x.bits()
            g.enc(w, x)
        w.env = old

    def dec(self, r):
        old, r.env = r.env, {}
        out = []
        for i, (f, g, n) in enumerate(self.fields):
            r.lower.append(add(r.pos, I(sum(x.min for _, x, _ in self.fields[i:]))))
            x = g.dec(r)
            if isinstance(x, MBits):
                r.env[n] = x.e
            elif isinstance(x, MDefault):
                r.env[n] = ZERO
            out.append(((f,), x))
        r.env = old
        return MStruct(out)

    def need(self, m, v, variant=None):
        old, m.env = getattr(m, 'env', {}), {}
        e = ZERO
        for f, g, n in self.fields:
            x = v.field(f, variant) if variant is not None else v.field(f)
            if m.T.is_scalar(x.ty):
                m.env[n] = x.bits()
            e = add(e, g.need(m, x))
        m.env = old
        return e


class DEnum(G):
    """derived enum: tag, then the fields of the variant"""

    def __init__(self, tag, variants):
        self.tag = tag
        self.vs = {n: (t, DStruct(fs)) for n, (t, fs) in variants.items()}
        self.min = tag.min + min([g.min + (tag.size_of(t) - tag.min) for t, g in self.vs.values()] or [0])
        self.fixed = None
        fx = {(g.fixed + tag.size_of(t)) if g.fixed is not None else None for t, g in self.vs.values()}
        if len(fx) == 1 and None not in fx:
            self.fixed = fx.pop()

    def enc(self, w, v):
        i = v.variant()
        t, g = self.vs[v.T[v.ty]['variants'][i]['n']]
        self.tag.put_const(w, t)
        g.enc(w, v, i)

    def need(self, m, v):
        i = v.variant()
        t, g = self.vs[v.T[v.ty]['variants'][i]['n']]
        return add(I(self.tag.size_of(t)), g.need(m, v, i))

    def dec(self, r):
        tagv = self.tag.get(r)
        for n, (t, g) in self.vs.items():
            if r.branch(mk_cmp('Eq', tagv, I(t))):
                x = g.dec(r)
                return MEnum(n, x.fs)
        raise Invalid(('InvalidEnumVariant',))


class Peek(G):
    """look at an encoding of fixed size without consuming it"""
    min = fixed = 0

    def __init__(self, g):
        self.g = g

    def dec(self, r):
        r.lower.append(add(r.pos, I(self.g.n)))
        b = r.peek(self.g.n)
        return MBits(b if self.g.n == 1 or r.le() else mk_bswap(8 * self.g.n, b), self.g.n)


class Sw(G):
    """like Struct, with the byte order of the context changed on the way: [(letter or None, field, grammar)]"""

    def __init__(self, fields):
        self.f = fields
        self.min = sum(g.min for _, _, g in fields)

    def enc(self, w, v):
        old = w.endian
        for e, f, g in self.f:
            w.endian = e or w.endian
            g.enc(w, v.field(f))
        w.endian = old

    def dec(self, r):
        old, out = r.endian, []
        for i, (e, f, g) in enumerate(self.f):
            r.endian = e or r.endian
            r.lower.append(add(r.pos, I(sum(x.min for _, _, x in self.f[i:]))))
            out.append(((f,), g.dec(r)))
        r.endian = old
        return MStruct(out)


class Const(G):
    """constant byte prefix"""

    def __init__(self, data):
        self.data = data
        self.min = self.fixed = len(data)


# ---- matchers -----------------------------------------------------------------------------------------------
class M:
    def sub(self, m):
        """substitute in every expression"""
        return self

    def match(self, c, v):
        raise NotImplementedError


class MAny(M):
    def match(self, c, v):
        pass


class MDefault(M):
    """the default value of the type"""

    def match(self, c, v):
        T = v.T
        n = T[v.ty].get('path', '').split('::')[-1]
        if T.is_scalar(v.ty) or T.kind(v.ty) == 'array':
            MBits(ZERO, T.size(v.ty)).match(c, v)
        elif n == 'Option':
            if v.variant_name() != 'None':
                raise Mismatch('decoded value is not the default')
        elif n == 'Cow':
            if v.variant_name() == 'Owned':
                MDefault().match(c, v.field(0, v.variant()))
            else:
                MSeq(ZERO, lambda j: MAny(), 'vec').match(c, v.field(0, v.variant()))
        elif T.kind(v.ty) == 'tuple':
            for i in range(len(T.fields(v.ty))):
                MDefault().match(c, v.field(i))
        elif n in ('Vec', 'String') or n.endswith('Map') or n.endswith('Set'):
            MSeq(ZERO, lambda j: MAny(), 'map' if n[-3:] in ('Map', 'Set') else 'vec').match(c, v)
        else:
            raise Undecided('default of ' + T.name(v.ty))


class MSmallVec(M):
    def __init__(self, x):
        self.x = x

    def match(self, c, v):
        if v.e[:2] != ('call', 'ext:smallvec::from'):
            raise Mismatch('decoded value is not made of the elements read')
        self.x.match(c, V(c.m, v.e[2], v.e[2][1] if v.e[2][0] == 'vec' else None))


class MComps(M):
    def __init__(self, xs, s):
        self.xs, self.s = xs, s

    def match(self, c, v):
        for o, x in self.xs:
            c.m.same(c.m.part(v, o, self.s), x.e, 'decoded component')


class MMask(M):
    def __init__(self, b, n):
        self.b, self.n = b, n

    def match(self, c, v):
        for i in range(self.n):
            x = v.field(i).bits()
            want = c.m.decide(mk_cmp('Eq', ('op', 'BitAnd', 8, self.b, I(1 << i)), ZERO))
            c.m.same(x, mk_not(mk_cmp('Eq', ('op', 'BitAnd', 8, self.b, I(1 << i)), ZERO)) if want is None else I(int(not want)), 'decoded flag')


class MExact(M):
    def __init__(self, e):
        self.e = e

    def match(self, c, v):
        if v.e != self.e:
            raise Mismatch('decoded value %s instead of %s' % (c.m.show(v.e), c.m.show(self.e)))


class MBits(M):
    def __init__(self, e, n):
        self.e, self.n = e, n

    def sub(self, m):
        return MBits(subst(self.e, m), self.n)

    def match(self, c, v):
        b = v.bits()
        if b[0] == 'undef':
            raise Mismatch('the decoded value is uninitialised')
        c.m.same(b, self.e, 'decoded value')


class MElem(M):
    def __init__(self, e):
        self.e = e

    def sub(self, m):
        return MElem(subst(self.e, m))

    def match(self, c, v):
        if v.e != self.e:
            raise Mismatch('decoded element %s instead of %s' % (c.m.show(v.e), c.m.show(self.e)))


class MStruct(M):
    def __init__(self, fs):
        self.fs = fs

    def sub(self, m):
        return MStruct([(f, x.sub(m)) for f, x in self.fs])

    def match(self, c, v):
        for f, x in self.fs:
            x.match(c, v.path(*f))


class MEnum(M):
    def __init__(self, n, fs):
        self.n, self.fs = n, fs

    def sub(self, m):
        return MEnum(self.n, [(f, x.sub(m)) for f, x in self.fs])

    def match(self, c, v):
        if v.variant_name() != self.n:
            raise Mismatch('decoded variant %s instead of %s' % (v.variant_name(), self.n))
        i = v.variant()
        for f, x in self.fs:
            x.match(c, v.field(f[0], i).path(*f[1:]))


class MBox(M):
    def __init__(self, x):
        self.x = x

    def sub(self, m):
        return MBox(self.x.sub(m))

    def match(self, c, v):
        if isinstance(self.x, MSeq) and v.T.kind(v.ty) == 'adt' and v.T[v.ty].get('isbox') and v.T.size(v.T.arg(v.ty, 0)) is None:
            self.x.match(c, v)
        else:
            self.x.match(c, c.load(v))


class MCow(M):
    def __init__(self, x):
        self.x = x

    def sub(self, m):
        return MCow(self.x.sub(m))

    def match(self, c, v):
        n = v.variant_name()
        self.x.match(c, v.field(0, v.variant()))


class MArray(M):
    def __init__(self, n, at):
        self.n, self.at = n, at

    def sub(self, m):
        return MArray(self.n, lambda j, at=self.at: at(j).sub(m))

    def match(self, c, v):
        if self.n <= 32:
            for k in range(self.n):
                self.at(I(k)).match(c, c.m.elem_of_array(v, I(k)))
        else:
            c.match_array(v, self.n, self.at)


class MSeq(M):
    def __init__(self, n, at, kind):
        self.n, self.at, self.kind = n, at, kind

    def sub(self, m):
        return MSeq(subst(self.n, m), lambda j, at=self.at: at(j).sub(m), self.kind)

    def match(self, c, v):
        if self.kind in ('map', 'set'):
            c.match_collection(v, self.n, self.at)
        else:
            c.match_seq(v, self.n, self.at)
