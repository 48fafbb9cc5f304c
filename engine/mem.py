"""Abstract memory: byte-addressed blocks with constant-offset entries, a log of symbolic-offset
writes (single stores, bulk byte ranges, per-iteration ranges left behind by a summarised loop) and a
lazy initial content for objects owned by the caller."""
from .expr import *
from . import expr as E


class Imprecise(Exception):
    """the abstraction cannot represent the requested value: the path is reported as undecided"""


class NeedCase(Imprecise):
    """the value depends on a condition the facts do not settle"""

    def __init__(self, msg, cond):
        Imprecise.__init__(self, msg)
        self.cond = cond


class Block:
    __slots__ = ('entries', 'log', 'size', 'init', 'align', 'kind', 'ty')

    def __init__(self, size=None, init=None, align=1, kind='local', ty=None):
        self.entries = {}
        self.log = ()
        self.size = size
        self.init = init
        self.align = align
        self.kind = kind
        self.ty = ty

    def clone(self):
        b = Block(self.size, self.init, self.align, self.kind, self.ty)
        b.entries = dict(self.entries)
        b.log = self.log
        return b


def fold_agg(T, ty, variant, fields):
    """agg of all projections of one symbolic value is that value again"""
    if fields and ty is not None and T[ty]['k'] in ('adt', 'tuple', 'closure', 'array'):
        f0 = fields[0]
        if f0[0] == 'F' and f0[1][-1] == ty and f0[2] == variant:
            X = f0[1]
            for i, f in enumerate(fields):
                if f[0] != 'F' or f[1] != X or f[2] != variant or f[3] != i:
                    return ('agg', ty, variant, fields)
            if not T.is_enum(ty):
                return X
    return ('agg', ty, variant, fields)


class Mem:
    """operations on values and blocks; mixed into the interpreter (needs self.T)"""

    # ---- values --------------------------------------------------------------------------------
    def zst(self, ty):
        T = self.T
        k = T.kind(ty)
        if k in ('tuple', 'closure'):
            return ('agg', ty, 0, tuple(self.zst(f) for _, f in T.fields(ty)))
        if k == 'adt':
            if T.is_enum(ty):
                n = T.nvariants(ty)
                if n == 0:
                    return UNDEF
                v = T[ty]['lay'].get('single', 0)
                return ('agg', ty, v, tuple(self.zst(f) for _, f in T.fields(ty, v)))
            if T.is_union(ty):
                return ('agg', ty, 0, (self.zst(T.fields(ty)[0][1]),)) if T.fields(ty) else ('agg', ty, 0, ())
            return ('agg', ty, 0, tuple(self.zst(f) for _, f in T.fields(ty)))
        if k == 'array':
            e = T.elem(ty)
            n = T[ty]['len']
            if n == 0:
                return ('agg', ty, 0, ())
            return ('agg', ty, 0, tuple(self.zst(e) for _ in range(min(n, 64))))
        return ('agg', ty, 0, ())

    def sym(self, x, ty):
        """canonical form of symbolic expression x (whose last component is ty)"""
        T = self.T
        k = T.kind(ty)
        if T.size(ty) == 0:
            return self.zst(ty)
        if k in ('ref', 'ptr', 'pat'):
            if k == 'pat' and T.kind(T[ty]['inner']) not in ('ref', 'ptr'):
                return x
            p = T.pointee(ty)
            mk = T.meta_kind(p)
            if mk == 'len':
                return ('ptr', ('ext', x), ZERO, ('len', ('deref', x, p)))
            if mk == 'vt':
                return ('ptr', ('ext', x), ZERO, ('vtof', x))
            return ('ptr', ('ext', x), ZERO, None)
        return x

    def is_symbolic(self, v):
        return v[0] in ('S', 'F', 'elem', 'deref', 'T', 'phi', 'call', 'er', 'mix')

    def field(self, v, ty, variant, i):
        """value of field i (of the given enum variant)"""
        T = self.T
        if v[0] == 'undef':
            return UNDEF
        fs = T.fields(ty, variant)
        if T.is_vec(ty) and v[0] != 'agg':
            if v[0] != 'vec' and self.is_symbolic(v):
                v = self.vec_sym(v, ty)
            if v[0] == 'vec':
                o, f = fs[i]
                return self.build(f, lambda q, g: self.gather(self.vec_leaves(v), o + q, T.size(g)), None)
        if v[0] == 'agg':
            if T.is_union(v[1]):
                if v[2] == i:
                    return v[3][0]
                return self.coerce(v[3][0], T.fields(v[1])[v[2]][1], fs[i][1], prefix=True)
            if T.is_enum(ty) and v[2] != variant:
                raise Imprecise('downcast of %s to a different variant' % T.name(ty))
            return v[3][i]
        off, fty = fs[i]
        if v[0] == 'T':
            return self.from_bits(mk_sub_any(v[2], off, T.size(fty), T.size(ty)), fty)
        if v[0] == 'rep':
            return v[2]
        if E.is_num(v) and not self.is_symbolic(v):
            # scalar wrapped into a single-field struct
            return self.coerce(self.project(v, None, off, fty, T.size(ty)), fty, fty)
        if self.is_symbolic(v):
            if v[0] == 'call' and len(v) > 1 and v[1] == 'transmuted':
                pass
            return self.sym(('F', v, variant if T.is_enum(ty) else 0, i, fty), fty)
        if v[0] in ('vec', 'ptr', 'col', 'it'):
            if len([1 for o, f in fs if T.size(f)]) == 1:
                return v if T.size(fty) else self.zst(fty)
            if v[0] == 'ptr':
                return self.from_bits(mk_sub_any(v, off, T.size(fty)), fty)
        raise Imprecise('field %d of %r' % (i, v[:2]))

    def from_bits(self, e, ty):
        T = self.T
        if e[0] == 'undef':
            return e
        if T.size(ty) == 0:
            return self.zst(ty)
        if T.is_scalar(ty):
            return e
        if e[0] == 'ptr':
            return self.wrap(e, ty)
        return self.build(ty, lambda off, fty: mk_sub(e, off, T.size(fty), T.size(ty)), e)

    def wrap(self, e, ty):
        """wrap scalar e in the single-field struct type ty"""
        T = self.T
        if T.is_scalar(ty):
            return e
        nz = [(i, f) for i, (o, f) in enumerate(T.fields(ty)) if T.size(f)]
        if T.is_enum(ty) or len(nz) != 1:
            raise Imprecise('wrap %r into %s' % (e[:2], T.name(ty)))
        if T.is_union(ty):
            return ('agg', ty, nz[0][0], (self.wrap(e, nz[0][1]),))
        return ('agg', ty, 0, tuple(self.wrap(e, f) if i == nz[0][0] else self.zst(f) for i, (o, f) in enumerate(T.fields(ty))))

    def build(self, ty, getter, whole):
        """assemble a value of type ty from scalar pieces"""
        T = self.T
        k = T.kind(ty)
        if T.size(ty) == 0:
            return self.zst(ty)
        if T.is_scalar(ty):
            return getter(0, ty)
        if k == 'array':
            e = T.elem(ty)
            s = T.size(e)
            if T[ty]['len'] > 64:
                return ('T', ty, getter(0, ty) if whole is None else whole)
            return ('agg', ty, 0, tuple(self.build(e, lambda o, f, b=n * s: getter(b + o, f), None) for n in range(T[ty]['len'])))
        if k in ('tuple', 'closure') or (k == 'adt' and T[ty]['kind'] == 'struct'):
            return ('agg', ty, 0, tuple(self.build(f, lambda o, g, b=off: getter(b + o, g), None) for off, f in T.fields(ty)))
        if k == 'adt' and T[ty]['kind'] == 'union':
            big = max(range(len(T.fields(ty))), key=lambda i: T.size(T.fields(ty)[i][1]))
            f = T.fields(ty)[big][1]
            return ('agg', ty, big, (self.build(f, getter, whole),))
        n = T.size(ty)
        if whole is None:
            whole = getter(0, ty)
        return ('T', ty, whole)

    def leaves(self, v, ty, base=0, out=None):
        """[(offset, size, scalar expr)] of the value's memory image; padding is absent"""
        T = self.T
        if out is None:
            out = []
        n = T.size(ty)
        if n == 0:
            return out
        if v[0] == 'undef':
            out.append((base, n, UNDEF))
            return out
        if T.is_scalar(ty):
            out.append((base, n, v))
            return out
        k = T.kind(ty)
        if v[0] == 'agg' and T.is_union(v[1]):
            return self.leaves(v[3][0], T.fields(v[1])[v[2]][1], base, out)
        if v[0] == 'T':
            out.append((base, n, v[2]))
            return out
        if v[0] == 'vec' or (T.is_vec(ty) and self.is_symbolic(v)):
            if v[0] != 'vec':
                v = self.vec_sym(v, ty)
            out.extend((base + o, k_, x) for o, k_, x in self.vec_leaves(v))
            return out
        if v[0] in ('col', 'it'):
            out.append((base, n, v))
            return out
        if T.is_enum(ty):
            lay = T[ty]['lay']
            if v[0] == 'agg' and T.is_enum(v[1]):
                if lay.get('tagenc') == 'direct' or 'single' in lay:
                    if lay.get('tagenc') == 'direct':
                        tagoff = lay['offs'][lay['tagfield']]
                        # tag width: up to the first field or the whole
                        fs = [o for o, f in T.fields(ty, v[2]) if T.size(f)]
                        w = self.tag_width(ty)
                        out.append((base + tagoff, w, I(T.discr_of(ty, v[2]) & ((1 << (8 * w)) - 1))))
                    for (off, fty), fv in zip(T.fields(ty, v[2]), v[3]):
                        self.leaves(fv, fty, base + off, out)
                    return out
                out.append((base, n, v))
                return out
            out.append((base, n, v))
            return out
        if T.is_union(ty):
            out.append((base, n, v))
            return out
        if k == 'array':
            e = T.elem(ty)
            s = T.size(e)
            cnt = T[ty]['len']
            if v[0] == 'rep':
                if cnt > 4096:
                    raise Imprecise('large array')
                for i in range(cnt):
                    self.leaves(v[2], e, base + i * s, out)
                return out
            for i in range(cnt):
                x = v[3][i] if v[0] == 'agg' else self.field(v, ty, 0, i)
                self.leaves(x, e, base + i * s, out)
            return out
        if E.is_num(v) and not self.is_symbolic(v) and v[0] != 'agg':
            out.append((base, n, v))
            return out
        for i, (off, fty) in enumerate(T.fields(ty)):
            self.leaves(self.field(v, ty, 0, i), fty, base + off, out)
        return out

    def vec_offs(self, ty):
        """offsets of the pointer, capacity and length words of a Vec type"""
        T = self.T
        out = {}

        def walk(t, off, name):
            if T.size(t) == 0:
                return
            if T.is_scalar(t) or T.kind(t) == 'pat':
                out['ptr' if T.kind(t) in ('ptr', 'ref') or (T.kind(t) == 'pat' and T.kind(T[t]['inner']) in ('ptr', 'ref')) else name] = off
                return
            for (o, f), nm in zip(T.fields(t), T.field_names(t)):
                walk(f, off + o, nm if nm in ('len', 'cap') else name)
        if ty not in self._vo:
            walk(ty, 0, None)
            self._vo[ty] = out
        else:
            out = self._vo[ty]
        if set(out) != {'ptr', 'cap', 'len'}:
            raise Imprecise('layout of Vec')
        return out

    def vec_sym(self, v, ty):
        return ('vec', ty, ('vb', v), ('len', v), ('cap', v))

    def vec_leaves(self, v):
        o = self.vec_offs(v[1])
        p = ('ptr', v[2], ZERO, None) if v[2] != ('abs',) else ('ptr', v[2], I(self.T.align(self.T[v[1]]['args'][0])), None)
        cap = v[4] if v[4] != I(USIZE_MAX) else ZERO
        return [(o['ptr'], 8, p), (o['cap'], 8, cap), (o['len'], 8, v[3])]

    def vec_fold(self, v, ty):
        """agg representation of a Vec -> 'vec'"""
        T = self.T
        o = self.vec_offs(ty)
        lv = self.leaves(v, ty)
        p, cap, ln = [self.gather(lv, o[k], 8) for k in ('ptr', 'cap', 'len')]
        if isint(p):
            p = ('ptr', ('abs',), p, None)
        if p[0] != 'ptr' or not (p[1] == ('abs',) or p[2] == ZERO):
            raise Imprecise('Vec with a displaced buffer')
        if T.size(T[ty]['args'][0]) == 0:
            cap = I(USIZE_MAX)
        return ('vec', ty, p[1], ln, cap)

    def tag_width(self, ty):
        return self.T[ty]['lay']['tag'][0]

    def bits_of(self, v, ty):
        """whole memory image as one scalar expression"""
        n = self.T.size(ty)
        if self.T.is_scalar(ty):
            return v
        ls = sorted(self.leaves(v, ty), key=lambda x: x[0])
        if len(ls) == 1 and ls[0][0] == 0 and ls[0][1] == n:
            return ls[0][2]
        parts = []
        pos = 0
        for off, s, e in ls:
            if off > pos:
                parts.append((UNDEF, off - pos))
            parts.append((e, s))
            pos = off + s
        if pos < n:
            parts.append((UNDEF, n - pos))
        return mk_cat(tuple(parts))

    def coerce(self, v, a, b, prefix=False):
        """reinterpret a value of type a as type b (same size, or a prefix of it)"""
        T = self.T
        if a == b or v[0] == 'undef':
            return v
        if T.size(b) == 0:
            return self.zst(b)
        if T.is_scalar(a) and T.is_scalar(b):
            if prefix and T.size(b) < T.size(a):
                return mk_sub_any(v, 0, T.size(b))
            return v
        return self.project(v, a, 0, b)

    def project(self, v, vty, off, ty, total=None):
        """bytes [off, off+sizeof ty) of v (of type vty) as a value of type ty"""
        T = self.T
        size = T.size(ty)
        if size == 0:
            return self.zst(ty)
        if v[0] == 'undef':
            return UNDEF
        if vty == ty and off == 0:
            return v
        if vty is None:
            if v[0] == 'ptr' or v[0] == 'fn':
                return self.from_bits(mk_sub_any(v, off, size), ty)
            return self.from_bits(mk_sub(v, off, size, total), ty)
        n = T.size(vty)
        if T.is_scalar(vty):
            if v[0] == 'ptr' or v[0] == 'fn':
                if off == 0 and size == n:
                    return self.from_bits(v, ty)
                return self.from_bits(mk_sub_any(v, off, size), ty)
            return self.from_bits(mk_sub(v, off, size, n), ty)
        # a struct-like target with the same size: wrap / convert fieldwise
        if v[0] == 'agg' and T.is_union(v[1]):
            return self.project(v[3][0], T.fields(v[1])[v[2]][1], off, ty)
        if v[0] == 'T' and v[2][0] == 'agg' and T.size(v[2][1]) == n:
            return self.project(v[2], v[2][1], off, ty)
        if v[0] == 'T':
            return self.from_bits(mk_sub(v[2], off, size, n), ty)
        if v[0] in ('col', 'it') or (v[0] == 'vec' and off == 0 and size == n and not T.is_scalar(ty)):
            if off == 0 and size == n:
                return self.wrapval(v, vty, ty)
            raise Imprecise('part of %s' % v[0])
        if T.kind(vty) == 'array':
            es = T.size(T.elem(vty))
            if es and off // es == (off + size - 1) // es:
                i = off // es
                x = v[3][i] if v[0] == 'agg' else self.field(v, vty, 0, i)
                return self.project(x, T.elem(vty), off - i * es, ty)
        elif T.is_enum(vty):
            var = None
            if v[0] == 'agg':
                var = v[2]
            elif T.nvariants(vty) == 1:
                var = 0
            if var is not None:
                for i, (fo, fty) in enumerate(T.fields(vty, var)):
                    fs = T.size(fty)
                    if fs and fo <= off and off + size <= fo + fs:
                        return self.project(self.field(v, vty, var, i), fty, off - fo, ty)
            if off == 0 and size == n:
                if T.is_enum(ty) or T.is_union(ty) or not T.is_scalar(ty):
                    r = self.wrapval(v, vty, ty)
                    if r is not None:
                        return r
                return self.from_bits(self.enum_bits(v, vty), ty)
            lv = self.leaves(v, vty)
            return self.from_bits(self.gather(lv, off, size), ty)
        else:
            fl = T.fields(vty)
            for i, (fo, fty) in enumerate(fl):
                fs = T.size(fty)
                if fs and fo <= off and off + size <= fo + fs:
                    return self.project(self.field(v, vty, 0, i), fty, off - fo, ty)
        if off == 0 and size == n:
            r = self.wrapval(v, vty, ty)
            if r is not None:
                return r
        if not T.is_scalar(ty) and not T.is_enum(ty) and not T.is_union(ty):
            k = T.kind(ty)
            if k == 'array':
                es = T.size(T.elem(ty))
                if T[ty]['len'] <= 4096:
                    return ('agg', ty, 0, tuple(self.project(v, vty, off + i * es, T.elem(ty)) for i in range(T[ty]['len'])))
            else:
                return fold_agg(T, ty, 0, tuple(self.project(v, vty, off + fo, fty) for fo, fty in T.fields(ty)))
        if T.is_union(ty):
            big = max(range(len(T.fields(ty))), key=lambda i: T.size(T.fields(ty)[i][1]))
            return ('agg', ty, big, (self.project(v, vty, off, T.fields(ty)[big][1]),))
        return self.from_bits(self.gather(self.leaves(v, vty), off, size), ty)

    def enum_bits(self, v, ty):
        """image of an enum value as a scalar"""
        T = self.T
        ls = self.leaves(v, ty)
        if len(ls) == 1 and ls[0][1] == T.size(ty):
            if self.is_symbolic(v) and all(not T.fields(ty, i) for i in range(T.nvariants(ty))):
                return ('as', T.size(ty), ('discr', v))
            return ls[0][2]
        return self.gather(ls, 0, T.size(ty))

    def wrapval(self, v, vty, ty):
        """v (type vty) seen as ty where one is a transparent wrapper of the other; None if unrelated"""
        T = self.T
        if vty == ty:
            return v
        n = T.size(vty)
        # peel the target
        if not T.is_scalar(ty) and T.kind(ty) != 'array' and not T.is_enum(ty):
            nz = [(i, f) for i, (o, f) in enumerate(T.fields(ty)) if T.size(f)]
            if T.is_union(ty):
                cands = [(i, f) for i, f in nz if T.size(f) == n]
                for i, f in cands:
                    if f == vty:
                        return ('agg', ty, i, (v,))
                if cands:
                    i, f = cands[0]
                    return ('agg', ty, i, (self.project(v, vty, 0, f),))
                return None
            if len(nz) == 1 and T.size(nz[0][1]) == n:
                x = self.project(v, vty, 0, nz[0][1])
                return fold_agg(T, ty, 0, tuple(x if i == nz[0][0] else self.zst(f) for i, (o, f) in enumerate(T.fields(ty))))
        return None

    def gather(self, leaves, off, size):
        parts = []
        pos = off
        for o, s, e in sorted(leaves, key=lambda x: x[0]):
            if o + s <= off or o >= off + size:
                continue
            a = max(o, off)
            b = min(o + s, off + size)
            if a > pos:
                parts.append((UNDEF, a - pos))
            if a == o and b == o + s:
                parts.append((e, s))
            elif e[0] == 'undef':
                parts.append((UNDEF, b - a))
            elif e[0] in ('ptr', 'agg', 'vec'):
                parts.append((mk_sub_any(e, a - o, b - a), b - a))
            else:
                parts.append((mk_sub(e, a - o, b - a, s), b - a))
            pos = b
        if pos < off + size:
            parts.append((UNDEF, off + size - pos))
        if len(parts) == 1:
            return parts[0][0]
        if all(p[0][0] == 'undef' for p in parts):
            return UNDEF
        return mk_cat(tuple(parts))

    def update(self, v, vty, off, ty, new):
        """functional update of bytes [off, off+sizeof ty) of v"""
        T = self.T
        size = T.size(ty)
        n = T.size(vty)
        if size == 0:
            return v
        if off == 0 and size == n:
            if ty != vty and T.is_enum(vty) and v[0] == 'agg' and v[1] == vty:
                for i, (fo, fty) in enumerate(T.fields(vty, v[2])):
                    if fo == 0 and T.size(fty) == n and (fty == ty or T.is_enum(fty)):
                        return ('agg', vty, v[2], v[3][:i] + (self.update(v[3][i], fty, 0, ty, new),) + v[3][i + 1:])
            return self.coerce(new, ty, vty)
        if T.is_scalar(vty):
            lv = [(0, n, v)]
            nl = [(off + o, s, e) for o, s, e in self.leaves(new, ty)]
            parts = cut(self, lv, off, size) + nl
            return self.gather(parts, 0, n)
        if v[0] == 'agg' and T.is_union(v[1]):
            f = T.fields(v[1])[v[2]][1]
            if off + size <= T.size(f):
                return ('agg', v[1], v[2], (self.update(v[3][0], f, off, ty, new),))
            if T.size(f) == 0:
                v = UNDEF
        if v[0] == 'undef':
            # materialise an undefined aggregate
            if T.is_union(vty):
                for i, (o, f) in enumerate(T.fields(vty)):
                    if T.size(f) == n:
                        return ('agg', vty, i, (self.update(UNDEF, f, off, ty, new),))
            k = T.kind(vty)
            if k == 'array':
                if T[vty]['len'] > 4096:
                    raise Imprecise('update of a large array')
                v = ('agg', vty, 0, tuple(UNDEF for _ in range(T[vty]['len'])))
            elif not T.is_enum(vty):
                v = ('agg', vty, 0, tuple(self.zst(f) if T.size(f) == 0 else UNDEF for _, f in T.fields(vty)))
        if v[0] == 'rep':
            if T[vty]['len'] > 4096:
                raise Imprecise('update of a large array')
            v = ('agg', vty, 0, tuple(v[2] for _ in range(T[vty]['len'])))
        var = 0
        if T.is_enum(vty):
            if v[0] == 'agg':
                var = v[2]
            else:
                raise Imprecise('partial update of an unknown enum')
        fl = T.fields(vty, var)
        if v[0] != 'agg':
            v = ('agg', vty, var, tuple(self.field(v, vty, var, i) for i in range(len(fl))))
        for i, (fo, fty) in enumerate(fl):
            fs = T.size(fty)
            if fs and fo <= off and off + size <= fo + fs:
                nv = self.update(v[3][i], fty, off - fo, ty, new)
                return fold_agg(T, vty, var, v[3][:i] + (nv,) + v[3][i + 1:])
        lv = cut(self, self.leaves(v, vty), off, size) + [(off + o, s, e) for o, s, e in self.leaves(new, ty)]
        return self.project_leaves(lv, vty)

    def project_leaves(self, lv, ty):
        return self.build(ty, lambda o, f: self.gather(lv, o, self.T.size(f)), None)

    # ---- blocks ----------------------------------------------------------------------------------
    def load(self, st, blk, off, ty, depth=0):
        T = self.T
        size = T.size(ty)
        if size == 0:
            return self.zst(ty)
        b = self.block(st, blk)
        return self.load_b(st, b, off, ty, 0, len(b.log))

    def load_b(self, st, b, off, ty, depth, nlog):
        T = self.T
        size = T.size(ty)
        if size == 0:
            return self.zst(ty)
        for li in range(nlog - 1, -1, -1):
            w = b.log[li]
            r = self.log_read(st, w, off, ty, size)
            if r is None:
                continue
            if r == 'split':
                if size == 1:
                    c = self.alias_case(st, w, off)
                    if c is not None:
                        raise NeedCase('load with an undetermined aliasing write (%s)' % T.name(ty), c)
                return self.load_split(st, b, off, ty, depth, nlog)
            return r
        if isint(off):
            o = off[1]
            e = b.entries.get(o)
            if e is not None and e[0] == size:
                if e[1] is not None and e[1] != ty and T.is_enum(e[1]):
                    ev = self.settle(st, e[2], e[1])
                    if ev[0] == 'agg':
                        return self.project(ev, e[1], 0, ty)
                return self.coerce(e[2], e[1], ty) if e[1] is not None else self.from_bits(e[2], ty)
            ov = []
            for eo, (es, ety, ev) in b.entries.items():
                if eo < o + size and o < eo + es:
                    ov.append((eo, es, ety, ev))
            if not ov:
                return self.init_read(st, b, off, ty)
            if len(ov) == 1:
                eo, es, ety, ev = ov[0]
                if eo <= o and o + size <= eo + es:
                    if ety is None:
                        return self.from_bits(mk_sub(ev, o - eo, size, es), ty)
                    ev = self.settle(st, ev, ety)
                    return self.project(ev, ety, o - eo, ty)
            return self.load_split(st, b, off, ty, depth, nlog)
        if b.entries:
            # symbolic offset over constant entries
            lo, hi = st.facts.bounds(off)
            if hi - lo <= 32:
                for i in range(lo, hi + 1):
                    if st.facts.decide(mk_cmp('Eq', off, I(i))):
                        return self.load_b(st, b, I(i), ty, depth, 0)
            for eo, (es, ety, ev) in b.entries.items():
                rr = rel(st.facts, off, I(size), I(eo), I(es))
                if rr == 'out':
                    continue
                if ev[0] == 'undef':
                    if rr == 'in':
                        return UNDEF
                if rr == 'in' and ev[0] == 'rep' and T.kind(ety) == 'array':
                    es2 = T.size(T.elem(ety))
                    if es2 == size:
                        return self.coerce(ev[2], T.elem(ety), ty)
                x = ev
                xt = ety
                while rr == 'in' and xt is not None and x[0] == 'agg' and not T.is_enum(xt) and T.kind(xt) != 'array':
                    if T.is_union(xt):
                        x, xt = x[3][0], T.fields(xt)[x[2]][1]
                        continue
                    fl = [i for i, (o, f) in enumerate(T.fields(xt)) if T.size(f)]
                    if len(fl) != 1:
                        break
                    x, xt = self.field(x, xt, 0, fl[0]), T.fields(xt)[fl[0]][1]
                if rr == 'in' and xt is not None and x[0] == 'T' and T.kind(xt) == 'array' and T.is_scalar(ty):
                    return self.from_bits(mk_bsub(x[2], sub(off, I(eo)), size), ty)
                if hi - lo <= 32:
                    for i in range(lo, hi):
                        c = mk_cmp('Eq', off, I(i))
                        if st.facts.decide(c) is None:
                            raise NeedCase('load at a symbolic offset over fixed entries', c)
                raise Imprecise('load at a symbolic offset over fixed entries')
        return self.init_read(st, b, off, ty)

    def settle(self, st, v, ty):
        """expand a symbolic enum whose variant is known on this path"""
        T = self.T
        if T.is_enum(ty) and self.is_symbolic(v) and v[0] != 'T':
            for i in range(T.nvariants(ty)):
                if st.facts.decide(mk_cmp('Eq', ('discr', v), I(T.discr_of(ty, i)))) is True:
                    return ('agg', ty, i, tuple(self.field(v, ty, i, j) for j in range(len(T.fields(ty, i)))))
        return v

    def alias_case(self, st, w, off):
        """a condition which helps to tell whether a byte was written by w"""
        if w[0] in ('bulk', 'copy', 'havoc') and w[1] is not None:
            lo, n = w[1], w[2]
        elif w[0] == 'w':
            lo, n = w[1], I(w[2])
        else:
            return None
        for c in (mk_cmp('Lt', off, lo), mk_cmp('Lt', off, add(lo, n))):
            if st.facts.decide(c) is None:
                return c
        return None

    def load_split(self, st, b, off, ty, depth, nlog):
        T = self.T
        if depth > 12:
            raise Imprecise('load cannot be split')
        k = T.kind(ty)
        size = T.size(ty)
        if k == 'array':
            e = T.elem(ty)
            s = T.size(e)
            if T[ty]['len'] > 4096:
                raise Imprecise('load of a large array')
            return ('agg', ty, 0, tuple(self.load_b(st, b, add(off, I(i * s)), e, depth + 1, nlog) for i in range(T[ty]['len'])))
        if k in ('tuple', 'closure') or (k == 'adt' and T[ty]['kind'] == 'struct'):
            return fold_agg(T, ty, 0, tuple(self.load_b(st, b, add(off, I(o)), f, depth + 1, nlog) for o, f in T.fields(ty)))
        if T.is_union(ty):
            fl = T.fields(ty)
            big = max(range(len(fl)), key=lambda i: T.size(fl[i][1]))
            if T.size(fl[big][1]) == size and not (T.is_scalar(fl[big][1]) and size > 16):
                return ('agg', ty, big, (self.load_b(st, b, off, fl[big][1], depth + 1, nlog),))
        if size > 16 and not T.is_scalar(ty):
            raise Imprecise('load of a partially overwritten %s' % T.name(ty))
        u8 = self.u8
        if size == 1:
            raise Imprecise('load with an undetermined aliasing write (%s)' % T.name(ty))
        parts = tuple((self.load_b(st, b, add(off, I(i)), u8, depth + 1, nlog), 1) for i in range(size))
        if all(p[0][0] == 'undef' for p in parts):
            return UNDEF
        return self.from_bits(mk_cat(parts), ty)

    def log_read(self, st, w, off, ty, size):
        """None: disjoint; 'split': overlaps in part; else the value"""
        T = self.T
        k = w[0]
        if k == 'w':
            _, woff, wsize, wty, val = w
            d = sub(off, woff)
            if isint(d):
                if d[1] >= wsize or d[1] + size <= 0:
                    return None
                if d[1] >= 0 and d[1] + size <= wsize:
                    if wty is None:
                        return self.from_bits(mk_sub(val, d[1], size, wsize), ty)
                    return self.project(self.settle(st, val, wty), wty, d[1], ty)
                return 'split'
            r = rel(st.facts, off, I(size), woff, I(wsize))
            if r == 'out':
                return None
            if r == 'in' and wty is None:
                return self.from_bits(mk_bsub(val, d, size), ty)
            if st.facts.decide(mk_cmp('Eq', off, woff)) and size == wsize:
                return self.coerce(val, wty, ty) if wty is not None else self.from_bits(val, ty)
            return 'split'
        if k == 'bulk':
            _, woff, n, symv = w
            r = rel(st.facts, off, I(size), woff, n)
            if r == 'out':
                return None
            if r == 'in':
                return self.from_bits(mk_bsub(symv, sub(off, woff), size), ty)
            return 'split'
        if k == 'copy':
            _, woff, n, src, soff = w
            r = rel(st.facts, off, I(size), woff, n)
            if r == 'out':
                return None
            if r == 'in':
                return self.load_b(st, src, add(soff, sub(off, woff)), ty, 0, len(src.log))
            return 'split'
        if k == 'rng':
            _, j, offj, wsize, wty, val, cnt = w
            r = self.rng_index(st, off, size, j, offj, wsize, cnt)
            if r is None:
                return None
            if r == 'split':
                return 'split'
            idx, d = r
            v = subst(val, {j: idx})
            if d == 0 and size == wsize:
                return self.coerce(v, wty, ty) if wty is not None else self.from_bits(v, ty)
            if wty is None:
                return self.from_bits(mk_sub(v, d, size, wsize), ty)
            return self.project(v, wty, d, ty)
        if k == 'havoc':
            _, woff, n = w
            if woff is None:
                return 'split'
            r = rel(st.facts, off, I(size), woff, n)
            return None if r == 'out' else 'split'
        raise Imprecise('log ' + k)

    def rng_index(self, st, off, size, j, offj, wsize, cnt):
        """index of the iteration whose write covers [off, off+size), None when none does"""
        # offj = a + s*j
        c, t = lin_parts(offj)
        s = 0
        rest = []
        for x, n in t:
            if x == j:
                s = n
            else:
                rest.append((x, n))
        a = mk_lin(c, rest)
        if s <= 0 or contains(a, lambda x: x == j):
            return 'split'
        f = st.facts
        lo, hi = a, add(a, mulc(cnt, s))
        if f.decide(mk_cmp('Le', add(off, I(size)), lo)) or f.decide(mk_cmp('Le', hi, off)):
            return None
        d = sub(off, a)
        dc, dt = lin_parts(d)
        q = divisible(mk_lin(0, list(dt)), s)
        if q is None:
            return 'split'
        idx = add(q, I(dc // s))
        r = dc % s
        if r >= wsize and r + size <= s:
            return None     # between two of the ranges
        inlo = f.decide(mk_cmp('Le', ZERO, idx))
        inhi = f.decide(mk_cmp('Lt', idx, cnt))
        if inlo is False or inhi is False:
            if r + size <= s:
                return None
            return 'split'
        if inlo and inhi:
            if r + size <= wsize:
                return idx, r
            if r >= wsize and r + size <= s:
                return None
        return 'split'

    def init_read(self, st, b, off, ty):
        T = self.T
        size = T.size(ty)
        if b.init is None:
            return UNDEF
        if b.init[0] == 'obj':
            _, X, oty = b.init
            if oty == ty and off == ZERO:
                return self.sym(X, ty)
            if not isint(off):
                if T.kind(oty) == 'array' and T.size(T.elem(oty)):
                    e = T.elem(oty)
                    es = T.size(e)
                    c, t = lin_parts(off)
                    if all(n % es == 0 for _, n in t) and c % es + size <= es:
                        idx = mk_lin(c // es, [(x, n // es) for x, n in t])
                        return self.project(self.sym(('elem', self.sym(X, oty), idx, e), e), e, c % es, ty)
                raise Imprecise('symbolic offset into an object')
            v = self.settle(st, self.sym(X, oty), oty)
            return self.project(v, oty, off[1], ty)
        if b.init[0] == 'bytes':
            # constant bytes
            if not isint(off):
                raise Imprecise('symbolic offset into a constant')
            data = b.init[1]
            o = off[1]
            if o + size > len(data):
                raise Imprecise('read past a constant')
            chunk = data[o:o + size]
            if any(x is None for x in chunk):
                k = T.kind(ty)
                if k in ('tuple', 'closure') or (k == 'adt' and T[ty]['kind'] == 'struct'):
                    return ('agg', ty, 0, tuple(self.init_read(st, b, I(o + fo), f) if T.size(f) else self.zst(f) for fo, f in T.fields(ty)))
                if T.is_enum(ty):
                    lay = T[ty]['lay']
                    if lay.get('tagenc') == 'direct':
                        to = lay['offs'][lay['tagfield']]
                        tw = lay['tag'][0]
                        tb = chunk[to:to + tw]
                        if None not in tb:
                            d = int.from_bytes(bytes(tb), 'little')
                            for i in range(T.nvariants(ty)):
                                if T.discr_of(ty, i) & ((1 << 8 * tw) - 1) == d:
                                    return ('agg', ty, i, tuple(self.init_read(st, b, I(o + fo), f) if T.size(f) else self.zst(f) for fo, f in T.fields(ty, i)))
                    if lay.get('tagenc') == 'niche':
                        un, va, vb, start = lay['niche']
                        to, tw = lay['offs'][lay['tagfield']], lay['tag'][0]
                        tb = chunk[to:to + tw]
                        if None not in tb and not any(to <= x - o < to + tw for x in b.entries):
                            i = (int.from_bytes(bytes(tb), 'little') - start & (1 << 8 * tw) - 1) + va
                            if not va <= i <= vb:
                                i = un
                            return ('agg', ty, i, tuple(self.init_read(st, b, I(o + fo), f) if T.size(f) else self.zst(f) for fo, f in T.fields(ty, i)))
                return UNDEF
            return self.from_bits(I(int.from_bytes(bytes(chunk), 'little')), ty)
        if b.init[0] == 'zero':
            return self.from_bits(ZERO, ty)
        if b.init[0] == 'bulk':
            return self.from_bits(mk_bsub(b.init[1], off, size), ty)
        if b.init[0] == 'arr':
            _, X, ety = b.init
            es = T.size(ety)
            if es == 0:
                raise Imprecise('array of zero-sized elements')
            c, t = lin_parts(off)
            if all(n % es == 0 for _, n in t):
                idx = mk_lin(c // es, [(x, n // es) for x, n in t])
                r = c % es
                if r + size <= es:
                    v = self.sym(('elem', X, idx, ety), ety)
                    return self.project(v, ety, r, ty)
            if es == 1 or size % es == 0:
                q = divisible(off, es) if es > 1 else off
                if q is not None and size // es <= 64:
                    parts = tuple((self.bits_of(self.sym(('elem', X, add(q, I(i)), ety), ety), ety), es) for i in range(size // es))
                    return self.from_bits(mk_cat(parts), ty)
            raise Imprecise('misaligned symbolic array access')
        raise Imprecise('init')

    def store(self, st, blk, off, ty, val):
        T = self.T
        size = T.size(ty)
        if size == 0:
            return
        b = self.wblock(st, blk)
        if b.log or not isint(off) or b.kind == 'dyn':
            w = ('w', off, size, ty, val)
            log = b.log
            # drop superseded identical stores
            if log and log[-1][0] == 'w' and log[-1][1] == off and log[-1][2] == size:
                log = log[:-1]
            b.log = log + (w,)
            return
        o = off[1]
        e = b.entries.get(o)
        if e is not None and e[0] == size:
            if e[1] is not None and e[1] != ty and T.size(e[1]) == size and not T.is_union(ty):
                # keep the declared shape of the cell
                try:
                    b.entries[o] = (size, e[1], self.coerce(val, ty, e[1]))
                    return
                except Imprecise:
                    pass
            b.entries[o] = (size, ty, val)
            return
        ov = [(eo, x) for eo, x in b.entries.items() if eo < o + size and o < eo + x[0]]
        if not ov:
            if b.init is not None and b.init[0] == 'obj' and T.size(b.init[2]) != size:
                # partial write into a caller-owned object: materialise it first
                X, oty = b.init[1], b.init[2]
                base = self.settle(st, self.sym(X, oty), oty)
                b.entries[0] = (T.size(oty), oty, self.update(base, oty, o, ty, val))
                return
            if b.ty is not None and T.size(b.ty) > size and not b.entries and b.kind == 'local' and T.kind(b.ty) != 'array' and not T.is_enum(b.ty):
                b.entries[0] = (T.size(b.ty), b.ty, self.update(UNDEF, b.ty, o, ty, val))
                return
            b.entries[o] = (size, ty, val)
            return
        for eo, (es, ety, ev) in ov:
            if o <= eo and eo + es <= o + size:
                del b.entries[eo]
            elif eo <= o and o + size <= eo + es:
                if ety is None:
                    lv = cut(self, [(0, es, ev)], o - eo, size) + [(o - eo + p, s, e) for p, s, e in self.leaves(val, ty)]
                    b.entries[eo] = (es, None, self.gather(lv, 0, es))
                else:
                    b.entries[eo] = (es, ety, self.update(self.settle(st, ev, ety), ety, o - eo, ty, val))
                return
            else:
                # split into scalar leaves
                del b.entries[eo]
                lv = [(0, es, ev)] if ety is None else self.leaves(ev, ety)
                for p, s, x in cut(self, lv, o - eo, size):
                    b.entries[eo + p] = (s, None, x)
        b.entries[o] = (size, ty, val)

    def store_bulk(self, st, blk, off, n, symv):
        b = self.wblock(st, blk)
        if isint(n) and isint(off) and not b.log and b.kind != 'dyn':
            if n[1] == 0:
                return
            ov = [(eo, x) for eo, x in b.entries.items() if eo < off[1] + n[1] and off[1] < eo + x[0]]
            o, size = off[1], n[1]
            if len(ov) == 1 and ov[0][0] <= o and o + size <= ov[0][0] + ov[0][1][0]:
                eo, (es, ety, ev) = ov[0]
                if ety is None or self.T.is_scalar(ety) or size == es:
                    lv = cut(self, [(0, es, ev)] if ety is None or self.T.is_scalar(ety) else [], o - eo, size) + [(o - eo, size, symv)]
                    bits = self.gather(lv, 0, es)
                    b.entries[eo] = (es, ety, bits if ety is None else self.from_bits(bits, ety))
                    return
                lv = cut(self, self.leaves(ev, ety), o - eo, size) + [(o - eo, size, symv)]
                b.entries[eo] = (es, ety, self.project_leaves(lv, ety))
                return
            for eo, (es, ety, ev) in ov:
                del b.entries[eo]
                lv = [(0, es, ev)] if ety is None else self.leaves(ev, ety)
                for p, s, x in cut(self, lv, o - eo, size):
                    b.entries[eo + p] = (s, None, x)
            b.entries[o] = (size, None, symv)
            return
        if isint(n):
            if n[1] == 0:
                return
            b.log = b.log + (('w', off, n[1], None, symv),)
            return
        b.log = b.log + (('bulk', off, n, symv),)


def cut(m, lv, off, size):
    """leaves outside [off, off+size)"""
    out = []
    for o, s, e in lv:
        if o + s <= off or o >= off + size:
            out.append((o, s, e))
            continue
        if o < off:
            out.append((o, off - o, UNDEF if e[0] == 'undef' else mk_sub_any(e, 0, off - o, s)))
        if o + s > off + size:
            k = off + size - o
            out.append((o + k, s - k, UNDEF if e[0] == 'undef' else mk_sub_any(e, k, s - k, s)))
    return out


def mk_sub_any(v, off, size, total=None):
    if v[0] == 'ptr':
        if off == 0 and size == 8:
            return ('ptr', v[1], v[2], None) if v[3] is not None else v
        if off == 0 and size == 16:
            return v
        if off == 8 and size == 8 and v[3] is not None:
            return v[3]
        return ('bytesof', v, off, size)
    if v[0] in ('agg', 'vec', 'col', 'fn'):
        return ('bytesof', v, off, size)
    return mk_sub(v, off, size, total)


def rel(facts, off, size, eoff, esize):
    """'in': [off,off+size) inside [eoff,eoff+esize); 'out': disjoint; None: undetermined"""
    d = sub(off, eoff)
    if isint(d) and isint(size) and isint(esize):
        if d[1] >= 0 and d[1] + size[1] <= esize[1]:
            return 'in'
        if d[1] >= esize[1] or d[1] + size[1] <= 0:
            return 'out'
        return None
    e = add(d, size)
    if facts.decide(mk_cmp('Le', esize, d)) or facts.decide(mk_cmp('Le', e, ZERO)):
        return 'out'
    if facts.decide(mk_cmp('Le', ZERO, d)) and facts.decide(mk_cmp('Le', e, esize)):
        return 'in'
    return None
