"""Abstract values: normalised integer/boolean terms, a linear normal form, and a fact base
(intervals + linear difference facts).  No solver: every decision is a syntactic or linear-arithmetic
subsumption step over the facts collected on one abstract path."""
from functools import lru_cache
from math import gcd

UMAX = {8: (1 << 8) - 1, 16: (1 << 16) - 1, 32: (1 << 32) - 1, 64: (1 << 64) - 1, 128: (1 << 128) - 1, 1: 1}
USIZE_MAX = UMAX[64]
ISIZE_MAX = (1 << 63) - 1
UNDEF = ('undef',)
TRUE = ('i', 1)
FALSE = ('i', 0)
ZERO = ('i', 0)


def I(v):
    return ('i', v)


def isint(e):
    return e[0] == 'i'


# ---- linear normal form ------------------------------------------------------------------------
def lin_parts(e):
    if e[0] == 'i':
        return e[1], ()
    if e[0] == 'lin':
        return e[1], e[2]
    return 0, ((e, 1),)


def mk_lin(c, terms):
    terms = [(e, k) for (e, k) in terms if k != 0]
    if not terms:
        return ('i', c)
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    terms.sort(key=lambda t: repr(t[0]))
    return ('lin', c, tuple(terms))


def add(a, b, kb=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    d = {}
    for e, k in ta:
        d[e] = d.get(e, 0) + k
    for e, k in tb:
        d[e] = d.get(e, 0) + k * kb
    return mk_lin(ca + kb * cb, list(d.items()))


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, t = lin_parts(a)
    return mk_lin(c * k, [(e, n * k) for e, n in t])


def mul(a, b):
    if isint(a):
        return mulc(b, a[1])
    if isint(b):
        return mulc(a, b[1])
    if repr(a) > repr(b):
        a, b = b, a
    return ('mul', a, b)


def divisible(e, k):
    """e / k when every coefficient is divisible by k, else None."""
    c, t = lin_parts(e)
    if c % k or any(n % k for _, n in t):
        return None
    return mk_lin(c // k, [(x, n // k) for x, n in t])


# ---- generic traversal ---------------------------------------------------------------------------
def rebuild(e, f):
    """map f over the direct sub-terms of e (tuples), rebuilding with simplification."""
    t = e[0]
    if t in ('i', 'undef', 'fn', 'sym', 'prim'):
        return e
    if t == 'lin':
        r = ('i', e[1])
        for x, k in e[2]:
            r = add(r, mulc_any(f(x), k))
        return r
    if t == 'mul':
        return mul(f(e[1]), f(e[2]))
    out = []
    ch = False
    for x in e:
        if isinstance(x, tuple):
            y = f(x) if (x and isinstance(x[0], str)) else rebuild_seq(x, f)
            if y is not x and y != x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    if not ch:
        return e
    return resimplify(tuple(out))


def mulc_any(e, k):
    return mulc(e, k)


def rebuild_seq(xs, f):
    out = []
    ch = False
    for x in xs:
        if isinstance(x, tuple):
            y = f(x) if (x and isinstance(x[0], str)) else rebuild_seq(x, f)
            if y is not x and y != x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else xs


def subst(e, m, memo=None):
    """m: dict expr -> expr, or callable(expr)->expr|None"""
    if memo is None:
        memo = {}
    fn = m if callable(m) else (lambda x: m.get(x))

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if not isinstance(x[0], str):
            return rebuild_seq(x, go)
        k = x
        r = memo.get(k)
        if r is not None:
            return r
        y = fn(x)
        if y is None:
            y = rebuild(x, go)
            z = fn(y) if y != x else None
            if z is not None:
                y = z
        memo[k] = y
        return y
    return go(e)


def contains(e, pred):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if pred(x):
                return True
        for y in x:
            if isinstance(y, tuple):
                st.append(y)
    return False


def collect(e, pred, out=None):
    out = [] if out is None else out
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str) and pred(x):
            out.append(x)
        for y in reversed(x):
            if isinstance(y, tuple):
                st.append(y)
    return out


# ---- operators --------------------------------------------------------------------------------------
def signed(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


def mask(v, bits):
    return v & ((1 << bits) - 1)


def bswap_int(v, n):
    return int.from_bytes(v.to_bytes(n, 'little'), 'big')


def mk_bswap(bits, e):
    if bits == 8:
        return e
    if isint(e):
        return I(bswap_int(mask(e[1], bits), bits // 8))
    if e[0] == 'bswap' and e[1] == bits:
        return e[2]
    if e[0] == 'cat':
        return mk_cat(tuple((mk_bswap(s * 8, x), s) for x, s in reversed(e[1])))
    return ('bswap', bits, e)


def mk_sub(e, off, size, total=None):
    """bytes [off, off+size) of the little-endian memory representation of e (total bytes)."""
    if e[0] == 'ptr' and e[3] is None and off == 0 and size == 8:
        return e
    if off == 0 and (total == size or total is None and e[0] != 'sub' and byte_size(e) == size):
        return e
    if isint(e):
        return I((e[1] >> (8 * off)) & ((1 << (8 * size)) - 1))
    if e[0] == 'sub':
        return mk_sub(e[1], e[2] + off, size)
    if e[0] == 'bsub':
        return mk_bsub(e[1], add(e[2], I(off)), size)
    if e[0] == 'cat':
        pos = 0
        parts = []
        for x, s in e[1]:
            a = max(off, pos)
            b = min(off + size, pos + s)
            if a < b:
                parts.append((mk_sub(x, a - pos, b - a, s), b - a))
            pos += s
        return mk_cat(tuple(parts))
    if e[0] == 'bswap':
        n = e[1] // 8
        if off + size <= n:
            return mk_bswap(size * 8, mk_sub(e[2], n - off - size, size, n))
    return ('sub', e, off, size)


def mk_cat(parts):
    out = []
    for x, s in parts:
        if s == 0:
            continue
        if x[0] == 'cat':
            out.extend(x[1])
        else:
            out.append((x, s))
    m = []
    for x, s in out:
        if m:
            px, ps = m[-1]
            if isint(px) and isint(x):
                m[-1] = (I(px[1] | (x[1] << (8 * ps))), ps + s)
                continue
            if px[0] == 'sub' and x[0] == 'sub' and px[1] == x[1] and px[2] + px[3] == x[2]:
                m[-1] = (mk_sub(px[1], px[2], ps + s), ps + s)
                continue
            if px[0] == 'bsub' and x[0] == 'bsub' and px[1] == x[1] and px[3] == ps and x[3] == s and add(px[2], I(ps)) == x[2]:
                m[-1] = (mk_bsub(px[1], px[2], ps + s), ps + s)
                continue
        m.append((x, s))
    m = [(x[1], s) if (x[0] == 'sub' and x[2] == 0 and byte_size(x[1]) == s) else (x, s) for x, s in m]
    # reversed-byte concatenation is a byte swap of the whole
    if len(m) in (2, 4, 8, 16) and all(s == 1 for _, s in m):
        subs = [x for x, _ in m]
        lo = subs[-1]
        if lo[0] == 'sub' and all(x[0] == 'sub' and x[1] == lo[1] for x in subs) and [x[2] for x in subs] == list(range(lo[2] + len(m) - 1, lo[2] - 1, -1)):
            return mk_bswap(8 * len(m), mk_sub(lo[1], lo[2], len(m)))
        if lo[0] == 'bsub' and all(x[0] == 'bsub' and x[1] == lo[1] and x[2] == add(lo[2], I(len(m) - 1 - k)) for k, x in enumerate(subs)):
            return mk_bswap(8 * len(m), mk_bsub(lo[1], lo[2], len(m)))
    if len(m) == 1:
        return m[0][0]
    return ('cat', tuple(m))


def mk_bsub(e, off, size):
    """size bytes at a (possibly symbolic) offset of bulk symbol e"""
    if e == ('fill', I(0)) or e == I(0):
        return I(0)
    if isint(off):
        return mk_sub(e, off[1], size)
    return ('bsub', e, off, size)


def mk_sum(j, ub, f):
    """sum of f(j) for 0 <= j < ub"""
    if isint(ub) and ub[1] <= 0:
        return I(0)
    c, t = lin_parts(f)
    out = I(0)
    const = [(x, k) for x, k in t if not contains(x, lambda y: y == j)]
    dep = [(x, k) for x, k in t if contains(x, lambda y: y == j)]
    out = mul(ub, mk_lin(c, const))
    for x, k in dep:
        out = add(out, mulc(('sum', j, ub, x), k))
    return out


_sizes = {}


def byte_size(e):
    """size in bytes of an expression when known."""
    t = e[0]
    if t == 'rd' and isint(e[2]):
        return e[2][1]
    if t == 'pk' and isint(e[2]):
        return e[2][1]
    if t in ('sub', 'bsub'):
        return e[3]
    if t == 'bswap':
        return e[1] // 8
    if t == 'cat':
        return sum(s for _, s in e[1])
    if t in ('S', 'F', 'elem', 'deref') and isinstance(e[-1], int):
        return TY.size(e[-1]) or None if TY else None
    if t == 'trunc':
        return e[1] // 8
    if t == 'op':
        return e[2] // 8
    if t == 'as':
        return e[1]
    return None


TY = None  # type table, installed by interp


def set_types(t):
    global TY
    TY = t


def mk_trunc(bits, e, facts=None):
    if isint(e):
        return I(mask(e[1], bits))
    if e[0] == 'trunc':
        return mk_trunc(min(bits, e[1]), e[2], facts)
    if e[0] == 'sext':
        if bits <= e[1]:
            return mk_trunc(bits, e[3], facts) if bits < e[1] else e[3]
    if e[0] in ('lt', 'le', 'eq', 'not', 'slt', 'sle'):
        return e
    if facts is not None:
        lo, hi = facts.bounds(e)
        if lo >= 0 and hi < (1 << bits):
            return e
    else:
        hi = default_hi(e)
        if hi is not None and hi < (1 << bits):
            return e
    if e[0] == 'cat' and e[1][0][1] * 8 == bits:
        return e[1][0][0]
    if e[0] == 'op' and e[1] in ('BitAnd', 'BitOr', 'BitXor') and e[2] > bits:
        return mk_op(e[1], bits, False, mk_trunc(bits, e[3], facts), mk_trunc(bits, e[4], facts))
    return ('trunc', bits, e)


def len_hi(x):
    """most elements a sequence value can hold: they all live in one address space"""
    if TY is not None and isinstance(x[-1], int) and not isinstance(x[-1], bool) and x[0] in ('S', 'F', 'elem', 'deref', 'er', 'call'):
        t = TY[x[-1]]
        k = t['k']
        n = None
        if k == 'slice':
            n = TY.size(t['elem'])
        elif k == 'str':
            n = 1
        elif k == 'adt':
            name = t.get('path', '').split('::')[-1]
            args = [a for a in t.get('args', []) if isinstance(a, int)]
            if name in ('Vec', 'VecDeque') and args:
                n = TY.size(args[0])
            elif name.endswith('Map') and len(args) >= 2:
                n = max(1, TY.size(args[0]) + TY.size(args[1]))
            elif name.endswith('Set') and args:
                n = max(1, TY.size(args[0]))
        if n == 0:
            return USIZE_MAX
        if n:
            return ISIZE_MAX // n
    return ISIZE_MAX


def default_hi(e):
    t = e[0]
    if t == 'i':
        return e[1]
    if t in ('rd', 'pk') and isint(e[2]):
        return (1 << (8 * e[2][1])) - 1
    if t in ('sub', 'bsub'):
        return (1 << (8 * e[3])) - 1
    if t == 'trunc':
        return (1 << e[1]) - 1
    if t == 'bswap':
        return (1 << e[1]) - 1
    if t == 'cat':
        return (1 << (8 * sum(s for _, s in e[1]))) - 1
    if t in ('lt', 'le', 'eq', 'not', 'slt', 'sle', 'and', 'or'):
        return 1
    if t == 'len':
        return len_hi(e[1])
    if t == 'discr':
        return None
    if t in ('S', 'F', 'elem') and TY:
        k = TY.kind(e[-1])
        if k == 'bool':
            return 1
        if k == 'char':
            return 0x10FFFF
        if k in ('uint', 'int'):
            return (1 << TY.bits(e[-1])) - 1
        s = TY.size(e[-1])
        if s is not None and s <= 16:
            return (1 << (8 * s)) - 1
        return None
    if t == 'op':
        name, bits = e[1], e[2]
        if name == 'BitAnd':
            h = [x for x in (default_hi(e[3]), default_hi(e[4])) if x is not None]
            return min(h) if h else (1 << bits) - 1
        if name == 'Shr' and isint(e[4]):
            h = default_hi(e[3])
            return h >> e[4][1] if h is not None else None
        if name in ('BitOr', 'BitXor'):
            a, b = default_hi(e[3]), default_hi(e[4])
            if a is not None and b is not None:
                return (1 << max(a.bit_length(), b.bit_length())) - 1
        if name == 'Rem' and isint(e[4]):
            return e[4][1] - 1
        if name == 'Div' and isint(e[4]) and e[4][1]:
            h = default_hi(e[3])
            return h // e[4][1] if h is not None else (1 << bits) - 1
        return (1 << bits) - 1
    if t == 'un' and e[1] in ('ctlz', 'cttz', 'ctpop'):
        return e[2]
    if t == 'mul':
        return None
    if t == 'as':
        return (1 << (8 * e[1])) - 1
    return None


def mk_op(name, bits, sgn, a, b, facts=None):
    """wrapping semantics at `bits` width."""
    name = {'AddUnchecked': 'Add', 'SubUnchecked': 'Sub', 'MulUnchecked': 'Mul', 'ShlUnchecked': 'Shl', 'ShrUnchecked': 'Shr'}.get(name, name)
    if isint(a) and isint(b):
        x, y = a[1], b[1]
        if name in ('Div', 'Rem') and y == 0:
            return ('op', name, bits, a, b)
        if sgn:
            xs, ys = signed(x, bits), signed(y, bits)
        else:
            xs, ys = x, y
        if name == 'Add':
            return I(mask(x + y, bits))
        if name == 'Sub':
            return I(mask(x - y, bits))
        if name == 'Mul':
            return I(mask(x * y, bits))
        if name == 'Div':
            q = abs(xs) // abs(ys)
            return I(mask(q if (xs < 0) == (ys < 0) else -q, bits))
        if name == 'Rem':
            q = abs(xs) % abs(ys)
            return I(mask(q if xs >= 0 else -q, bits))
        if name == 'BitAnd':
            return I(x & y)
        if name == 'BitOr':
            return I(x | y)
        if name == 'BitXor':
            return I(x ^ y)
        if name == 'Shl':
            return I(mask(x << (y % bits), bits))
        if name == 'Shr':
            return I(mask(xs >> (y % bits), bits))
    if name == 'Add':
        r = add(a, b)
        if facts is not None:
            lo, hi = facts.bounds(r)
            if lo >= 0 and hi < (1 << bits):
                return r
        if isint(a) and a[1] == 0:
            return b
        if isint(b) and b[1] == 0:
            return a
        return ('op', 'Add', bits, a, b)
    if name == 'Sub':
        if a == b:
            return I(0)
        if isint(b) and b[1] == 0:
            return a
        if facts is not None and facts.decide(('le', b, a)):
            return sub(a, b)
        return ('op', 'Sub', bits, a, b)
    if name == 'Mul':
        if isint(b) and not isint(a):
            a, b = b, a
        if isint(a):
            if a[1] == 0:
                return I(0)
            if a[1] == 1:
                return b
        r = mul(a, b)
        if facts is not None:
            lo, hi = facts.bounds(r)
            if lo >= 0 and hi < (1 << bits):
                return r
        return ('op', 'Mul', bits, a, b)
    if name == 'BitAnd':
        for x, y in ((a, b), (b, a)):
            if isint(x):
                if x[1] == 0:
                    return I(0)
                h = default_hi(y) if facts is None else facts.bounds(y)[1]
                m = x[1]
                if h is not None and (m & (m + 1)) == 0 and h <= m:
                    return y
        if a == b:
            return a
    if name in ('BitOr', 'BitXor'):
        for x, y in ((a, b), (b, a)):
            if isint(x) and x[1] == 0:
                return y
        if a == b:
            return a if name == 'BitOr' else I(0)
    if name in ('Shl', 'Shr') and isint(b) and b[1] == 0:
        return a
    if name == 'Shr' and isint(b) and not sgn:
        h = default_hi(a)
        if h is not None and h >> b[1] == 0:
            return I(0)
    if name == 'Div' and isint(b) and b[1] == 1:
        return a
    if name == 'Div' and isint(b) and b[1] > 1 and not sgn:
        d = divisible(a, b[1])
        if d is not None:
            return d
    if name == 'Rem' and isint(b) and b[1] == 1:
        return I(0)
    if name == 'Rem' and isint(b) and not sgn and b[1] > 0:
        if divisible(a, b[1]) is not None:
            return I(0)
    return ('op', ('s' + name) if (sgn and name in ('Div', 'Rem', 'Shr')) else name, bits, a, b)


def mk_not(c):
    if isint(c):
        return I(1 - c[1])
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def mk_cmp(op, a, b, bits=64, sgn=False):
    if op == 'Ne':
        return mk_not(mk_cmp('Eq', a, b, bits, sgn))
    if op == 'Gt':
        return mk_cmp('Lt', b, a, bits, sgn)
    if op == 'Ge':
        return mk_cmp('Le', b, a, bits, sgn)
    if isint(a) and isint(b):
        x, y = a[1], b[1]
        if sgn:
            x, y = signed(x, bits), signed(y, bits)
        return I(int({'Eq': x == y, 'Lt': x < y, 'Le': x <= y}[op]))
    if op == 'Eq':
        if a == b:
            return TRUE
        # comparison of a boolean with a constant
        for x, y in ((a, b), (b, a)):
            if isint(y) and x[0] in ('lt', 'le', 'eq', 'not', 'slt', 'sle'):
                return x if y[1] == 1 else mk_not(x)
        if (a[0] in ('lin',) or b[0] == 'lin') and is_num(a) and is_num(b):
            n = norm_rel(a, b, True)
            if n is False:
                return FALSE
            if n is not None:
                a, b = n
                if a == b:
                    return TRUE
        if repr(a) > repr(b):
            a, b = b, a
        return ('eq', a, b)
    if op == 'Lt':
        if a == b:
            return FALSE
        if not sgn and (a[0] == 'lin' or b[0] == 'lin'):
            a, b = norm_rel(a, b, False)
            if isint(a) and isint(b):
                return I(int(a[1] < b[1]))
        return ('slt', bits, a, b) if sgn else ('lt', a, b)
    if op == 'Le':
        if a == b:
            return TRUE
        # a <= b  is  not (b < a): one canonical form
        return mk_not(mk_cmp('Lt', b, a, bits, sgn))
    raise Exception(op)


def norm_rel(a, b, eq):
    """canonical sides of a == b / a < b over mathematical integers (common factor removed)"""
    c, t = lin_parts(sub(b, a))
    if not t:
        if eq:
            return (a, a) if c == 0 else False
        return I(0), I(c)
    g = 0
    for _, k in t:
        g = gcd(g, abs(k))
    if eq:
        if c % g:
            return False
        c //= g
        t = [(x, k // g) for x, k in t]
        s = sorted(t, key=lambda z: repr(z[0]))
        if s[0][1] < 0:
            t = [(x, -k) for x, k in t]
            c = -c
    else:
        c = (c - 1) // g + 1
        t = [(x, k // g) for x, k in t]
    pos = mk_lin(c if c > 0 else 0, [(x, k) for x, k in t if k > 0])
    neg = mk_lin(-c if c < 0 else 0, [(x, -k) for x, k in t if k < 0])
    return neg, pos


def resimplify(e):
    t = e[0]
    if t == 'not':
        return mk_not(e[1])
    if t == 'lt':
        return mk_cmp('Lt', e[1], e[2])
    if t == 'eq':
        return mk_cmp('Eq', e[1], e[2])
    if t == 'slt':
        return mk_cmp('Lt', e[2], e[3], e[1], True)
    if t == 'bswap':
        return mk_bswap(e[1], e[2])
    if t == 'trunc':
        return mk_trunc(e[1], e[2])
    if t == 'sub':
        return mk_sub(e[1], e[2], e[3], byte_size(e[1]))
    if t == 'cat':
        return mk_cat(e[1])
    if t == 'op':
        n = e[1]
        sg = n in ('sDiv', 'sRem', 'sShr')
        return mk_op(n[1:] if sg else n, e[2], sg, e[3], e[4])
    if t == 'F' and e[1][0] == 'agg':
        return e[1][3][e[3]]
    if t == 'discr' and e[1][0] == 'agg' and TY:
        return I(TY.discr_of(e[1][1], e[1][2]))
    if t == 'bsub':
        return mk_bsub(e[1], e[2], e[3])
    if t == 'sum':
        return mk_sum(e[1], e[2], e[3])
    if t == 'len' and e[1][0] == 'vec':
        return e[1][3]
    if t == 'call':
        from . import rules
        return rules.simplify_call(e)
    return e


# ---- facts ------------------------------------------------------------------------------------------
def atoms_of(c):
    """the atoms of the numbers compared by a condition"""
    if c[0] == 'not':
        return atoms_of(c[1])
    out = set()
    if c[0] in ('lt', 'eq'):
        for x in c[1:3]:
            if is_num(x):
                out.update(y for y, _ in lin_parts(x)[1])
    return out


def eliminate(cons, limit=3000):
    """have the constraints (k + sum c*x >= 0) no solution?  Fourier-Motzkin elimination; False when it gets too large"""
    def norm(k, t):
        t = {x: c for x, c in t.items() if c}
        g = 0
        for c in t.values():
            g = gcd(g, abs(c))
        if g > 1:
            k //= g
            t = {x: c // g for x, c in t.items()}
        return k, t
    best = {}

    def put(k, t):
        k, t = norm(k, t)
        if not t:
            return k >= 0
        key = frozenset(t.items())
        if key not in best or best[key] > k:
            best[key] = k
        return True
    for k, t in cons:
        if not put(k, t):
            return True
    while best:
        cnt = {}
        for key in best:
            for x, c in key:
                a = cnt.setdefault(x, [0, 0])
                a[c > 0] += 1
        x = min(cnt, key=lambda y: (cnt[y][0] * cnt[y][1], str(y)))
        pos, neg, rest = [], [], {}
        for key, k in best.items():
            c = dict(key).get(x, 0)
            (pos if c > 0 else neg).append((key, k, c)) if c else rest.__setitem__(key, k)
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        best = rest
        for ka, a, ca in pos:
            for kb, b, cb in neg:
                t = {}
                for y, c in ka:
                    t[y] = t.get(y, 0) + c * -cb
                for y, c in kb:
                    t[y] = t.get(y, 0) + c * ca
                if not put(a * -cb + b * ca, t):
                    return True
    return False


class Facts:
    """Conjunction of facts known on the current abstract path."""
    __slots__ = ('iv', 'ne', 'lins', 'raw', 'log')

    def __init__(self):
        self.iv = {}
        self.ne = {}
        self.lins = ()   # expressions known to be >= 0
        self.raw = {}    # canonical condition -> bool
        self.log = ()    # ordered (cond, bool)

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.ne = dict(self.ne)
        f.lins = self.lins
        f.raw = dict(self.raw)
        f.log = self.log
        return f

    def bounds(self, e, depth=0):
        t = e[0]
        if t == 'i':
            return e[1], e[1]
        r = self.iv.get(e)
        lo, hi = (None, None) if r is None else r
        if t == 'lin':
            l = h = e[1]
            for x, k in e[2]:
                xl, xh = self.bounds(x, depth + 1)
                if k > 0:
                    l += k * xl
                    h += k * xh
                else:
                    l += k * xh
                    h += k * xl
        elif t == 'mul':
            al, ah = self.bounds(e[1], depth + 1)
            bl, bh = self.bounds(e[2], depth + 1)
            if al >= 0 and bl >= 0:
                l, h = al * bl, ah * bh
            else:
                l, h = -(1 << 200), 1 << 200
        elif t == 'k':
            l, h = 0, ISIZE_MAX
        elif t == 'sum':
            l, h = 0, 1 << 60
        elif t in ('addr', 'cap'):
            l, h = int(t == 'addr'), ISIZE_MAX
        elif t == 'op' and e[1] in ('Div',) and isint(e[4]) and e[4][1]:
            al, ah = self.bounds(e[3], depth + 1)
            l, h = al // e[4][1], ah // e[4][1]
        elif t == 'op' and e[1] == 'Rem':
            al, ah = self.bounds(e[4], depth + 1)
            l, h = 0, max(ah - 1, 0)
            xl, xh = self.bounds(e[3], depth + 1)
            h = min(h, xh)
        elif t == 'op' and e[1] == 'Div':
            al, ah = self.bounds(e[3], depth + 1)
            l, h = 0, ah
        elif t == 'op' and e[1] == 'BitAnd':
            h1 = self.bounds(e[3], depth + 1)[1]
            h2 = self.bounds(e[4], depth + 1)[1]
            l, h = 0, min(h1, h2)
        elif t == 'op' and e[1] == 'Shr' and isint(e[4]):
            al, ah = self.bounds(e[3], depth + 1)
            l, h = al >> e[4][1], ah >> e[4][1]
        elif t == 'op' and e[1] in ('BitOr', 'BitXor') and isinstance(e[2], int):
            al, ah = self.bounds(e[3], depth + 1)
            bl, bh = self.bounds(e[4], depth + 1)
            l, h = (max(al, bl, 0) if e[1] == 'BitOr' else 0), (1 << max(ah, bh, 0).bit_length()) - 1
        elif t == 'op' and e[1] == 'Shl' and isinstance(e[2], int) and isint(e[4]) and e[4][1] < e[2]:
            al, ah = self.bounds(e[3], depth + 1)
            l, h = (al << e[4][1], ah << e[4][1]) if 0 <= al and ah << e[4][1] < 1 << e[2] else (0, (1 << e[2]) - 1)
        elif t == 'cat':
            l = h = s = 0
            for x, n in e[1]:
                xl, xh = self.bounds(x, depth + 1) if is_num(x) else (0, (1 << 8 * n) - 1)
                l, h, s = l + (max(xl, 0) << s), h + (min(xh, (1 << 8 * n) - 1) << s), s + 8 * n
        elif t == 'call' and e[1] == 'min':
            al, ah = self.bounds(e[2], depth + 1)
            bl, bh = self.bounds(e[3], depth + 1)
            l, h = min(al, bl), min(ah, bh)
        elif t == 'call' and e[1] == 'max':
            al, ah = self.bounds(e[2], depth + 1)
            bl, bh = self.bounds(e[3], depth + 1)
            l, h = max(al, bl), max(ah, bh)
        else:
            h0 = default_hi(e)
            l, h = 0, (h0 if h0 is not None else (1 << 128) - 1 if t not in ('meta', 'addr', 'usz') else USIZE_MAX)
            if t == 'discr' and TY:
                n = TY.max_discr(e[1])
                if n is not None:
                    h = n
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if t == 'lin' and depth == 0:
            # tighten with known non-negative linear facts
            for ln in self.lins:
                d = sub(e, ln)
                if isint(d):
                    l = max(l, d[1])
                d = add(e, ln)
                if isint(d):
                    h = min(h, d[1])
        return l, h

    def _nonneg(self, e, depth=2):
        """can we show e >= 0 from the facts?"""
        lo, _ = self.bounds(e)
        if lo >= 0:
            return True
        c, t = lin_parts(e)
        if len(t) and depth > 0:
            g = 0
            for _, k in t:
                g = gcd(g, abs(k))
            if g > 1 and not isint(e):
                # sum of g*x + c >= 0  <=  sum x + floor(c/g) >= 0
                e2 = mk_lin(c // g, [(x, k // g) for x, k in t])
                if e2 != e and self._nonneg(e2, depth):
                    return True
            if g > 1 or True:
                for x, k in t:
                    if x[0] == 'mul' and k:
                        pass
        if depth <= 0:
            return False
        terms = set(x for x, _ in t)
        lins = self.lins
        for x in terms:
            if x[0] == 'op' and x[1] == 'Div' and isint(x[4]) and x[4][1] > 0:
                d = sub(x[3], mulc(x, x[4][1]))
                lins = list(lins) + [d, add(mulc(d, -1), I(x[4][1] - 1))]
        for ln in lins:
            lt = lin_parts(ln)[1]
            if not any(x in terms for x, _ in lt):
                continue
            ds = {x: k for x, k in lt}
            # e = m*ln + rest, m chosen to cancel one term
            for x, k in t:
                if x in ds and (k < 0) == (ds[x] < 0) and k % ds[x] == 0:
                    m = k // ds[x]
                    if m >= 1 and self._nonneg(add(e, mulc(ln, -m)), depth - 1):
                        return True
        return False

    def decide(self, c):
        """True/False when the facts settle c, else None."""
        if isint(c):
            return bool(c[1])
        t = c[0]
        if t == 'not':
            r = self.decide(c[1])
            return None if r is None else (not r)
        if c in self.raw:
            return self.raw[c]
        if t == 'eq':
            a, b = c[1], c[2]
            if a[0] in ('agg', 'ptr', 'fn', 'str') or b[0] in ('agg', 'ptr', 'fn', 'str'):
                return struct_eq(self, a, b)
            if is_num(a) and is_num(b):
                d = sub(a, b)
                if isint(d):
                    return d[1] == 0
                al, ah = self.bounds(a)
                bl, bh = self.bounds(b)
                if al == ah == bl == bh:
                    return True
                if ah < bl or bh < al:
                    return False
                if isint(b) and b[1] in self.ne.get(a, ()):
                    return False
                if isint(a) and a[1] in self.ne.get(b, ()):
                    return False
                if self._nonneg(add(d, I(-1))) or self._nonneg(add(mulc(d, -1), I(-1))):
                    return False
                if self._nonneg(d) and self._nonneg(mulc(d, -1)):
                    return True
            return None
        if t == 'lt':
            a, b = c[1], c[2]
            al, ah = self.bounds(a)
            bl, bh = self.bounds(b)
            if ah < bl:
                return True
            if al >= bh:
                return False
            d = sub(b, a)
            if self._nonneg(add(d, I(-1))):
                return True
            if self._nonneg(mulc(d, -1)):
                return False
            return None
        if t == 'le':
            r = self.decide(('lt', c[2], c[1]))
            return None if r is None else (not r)
        if t == 'slt':
            # decided for operands known non-negative on both sides at this width
            half = 1 << (c[1] - 1)
            a, b = c[2], c[3]
            if self.bounds(a)[1] < half and self.bounds(b)[1] < half:
                return self.decide(('lt', a, b))
            return None
        lo, hi = self.bounds(c)
        if lo > 0:
            return True
        if hi == 0:
            return False
        return None

    def _clamp(self, e, lo=None, hi=None):
        l, h = self.bounds(e)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        self.iv[e] = (l, h)

    def assume(self, c, val, log=True):
        """add c == val; returns False if contradictory."""
        if isint(c):
            return bool(c[1]) == val
        if c[0] == 'not':
            return self.assume(c[1], not val, log)
        r = self.decide(c)
        if r is not None:
            return r == val
        self.raw[c] = val
        if log:
            self.log = self.log + ((c, val),)
        t = c[0]
        if t == 'eq':
            a, b = c[1], c[2]
            if isint(a):
                a, b = b, a
            if val:
                if isint(b):
                    self._clamp(a, b[1], b[1])
                    self._ladd(sub(a, b))
                    self._ladd(sub(b, a))
                elif is_num(a) and is_num(b):
                    d = sub(a, b)
                    self._ladd(d)
                    self._ladd(mulc(d, -1))
                    bl, bh = self.bounds(b)
                    self._clamp(a, bl, bh)
                    al, ah = self.bounds(a)
                    self._clamp(b, al, ah)
            elif is_num(a) and is_num(b) and not isint(b):
                if self.decide(('lt', b, a)) is False:
                    self._ladd(add(sub(b, a), I(-1)))
                elif self.decide(('lt', a, b)) is False:
                    self._ladd(add(sub(a, b), I(-1)))
            elif isint(b):
                s = set(self.ne.get(a, ()))
                s.add(b[1])
                self.ne[a] = frozenset(s)
                l, h = self.bounds(a)
                while l in s and l <= h:
                    l += 1
                while h in s and l <= h:
                    h -= 1
                self.iv[a] = (l, h)
                if l > h:
                    return False
        elif t == 'lt':
            a, b = c[1], c[2]
            if val:
                self._ladd(add(sub(b, a), I(-1)))
                _, bh = self.bounds(b)
                al, _ = self.bounds(a)
                self._clamp(a, None, bh - 1)
                self._clamp(b, al + 1, None)
            else:
                self._ladd(sub(a, b))
                _, ah = self.bounds(a)
                bl, _ = self.bounds(b)
                self._clamp(a, bl, None)
                self._clamp(b, None, ah)
        elif not val and t not in ('slt',):
            self._clamp(c, None, 0)
        elif t not in ('slt',):
            self._clamp(c, 1, None)
        return True

    def excluded(self, c, val=True):
        """is c == val incompatible with the facts?  (elimination over the linear facts; for the rare questions where
        the incremental reasoning of `decide` gives up)"""
        f = self.copy()
        if not f.assume(c, val, log=False):
            return True
        return f._infeasible(atoms_of(c))

    def _infeasible(self, seed):
        cons = []
        for e in self.lins:
            k, t = lin_parts(e)
            cons.append((k, dict(t)))
        rel = set(seed)
        while True:
            n = len(rel)
            for k, t in cons:
                if any(x in rel for x in t):
                    rel.update(t)
            if len(rel) == n:
                break
        cons = [(k, t) for k, t in cons if t and all(x in rel for x in t)]
        for x in rel:
            lo, hi = self.bounds(x)
            cons.append((-lo, {x: 1}))
            if hi < 1 << 70:
                cons.append((hi, {x: -1}))
        return eliminate(cons)

    def _ladd(self, e):
        if isint(e):
            return
        if e not in self.lins:
            self.lins = self.lins + (e,)

    def subst(self, m):
        f = Facts()
        memo = {}
        for c, v in self.log:
            c2 = subst(c, m, memo)
            # boolean constants may now be contradictory: the caller decides
            f.assume(c2, v)
        for e, (l, h) in self.iv.items():
            e2 = subst(e, m, memo)
            if isint(e2):
                continue
            f._clamp(e2, l, h)
        for e in self.lins:
            f._ladd(subst(e, m, memo))
        for e, xs in self.ne.items():
            e2 = subst(e, m, memo)
            if not isint(e2):
                f.ne[e2] = f.ne.get(e2, frozenset()) | xs
        for c, v in self.raw.items():
            c2 = subst(c, m, memo)
            if not isint(c2) and c2 not in f.raw:
                f.raw[c2] = v
        return f


def is_num(e):
    return e[0] not in ('agg', 'ptr', 'fn', 'str', 'vec', 'undef', 'blob', 'it')


def struct_eq(f, a, b):
    if a == b:
        return True
    if a[0] == 'agg' and b[0] == 'agg':
        if a[2] != b[2]:
            return False
        rs = [f.decide(mk_cmp('Eq', x, y)) if is_num(x) and is_num(y) else struct_eq(f, x, y) for x, y in zip(a[3], b[3])]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if a[0] == 'ptr' and b[0] == 'ptr':
        if a[1] != b[1]:
            return None
        return f.decide(mk_cmp('Eq', a[2], b[2]))
    return None
