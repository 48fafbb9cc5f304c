"""Transfer functions for compiler intrinsics, the allocator-backed std containers and the probe
functions of the corpus.  Everything else in core/alloc/std/speedy is interpreted from its MIR."""
import re
from .expr import *
from . import expr as E
from .mem import Imprecise, NeedCase, Block, mk_sub_any, fold_agg, rel
from .interp import NORET, PUSHED, Split, End, as_cond, show

IMPL = re.compile(r'\{impl#\d+\}::')


def install(I_):
    I_.cache_models = {}


def key_of(fn):
    return IMPL.sub('', fn['raw'])


INTR = {}
KEY = {}
EXT = {}


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def key(*names):
    def d(f):
        for n in names:
            KEY[n] = f
        return f
    return d


def lookup(I_, fn):
    if fn['kind'] == 'intrinsic' or fn['intr']:
        m = INTR.get(fn['intr'])
        if m is not None:
            return m
    raw = fn['raw']
    if fn['krate'] == 'corpus':
        last = raw.split('::')[-1]
        if last.startswith('model_'):
            return PROBE.get(last)
        return None
    k = key_of(fn)
    m = KEY.get(k)
    if m is not None:
        return m
    if stub_of(fn) is not None:
        return call_stub
    for pre, f in PREFIX:
        if raw.startswith(pre):
            return f
    if raw.endswith('precondition_check') or raw.endswith('::runtime') and False:
        return m_unit
    if 'for std::boxed::Box<str>>::from' in fn['path']:
        return s_into_boxed_str
    if fn['body'] is None and fn['kind'] != 'intrinsic':
        return EXT.get(k) or generic_extern(I_, fn)
    return None


def s_into_boxed_str(I_, st, fn, vals, d):
    v = vals[0]
    while v[0] == 'agg' and len(v[3]) == 1:
        v = v[3][0]
    v = as_vec(I_, st, v, v[1] if v[0] == 'vec' else I_.T.fields(fn['sig'][0][0])[0][1])
    pt = ('ptr', v[2], ZERO if v[2] != ('abs',) else I(1), v[3])
    return I_.wrap(pt, d[2])


@key('core::char::from_u32', 'core::char::convert::from_u32', 'core::char::methods::from_u32')
def m_char_from_u32(I_, st, fn, vals, d):
    x = I_.num(vals[0])
    out = []
    s = st
    for cond, ok in ((mk_cmp('Lt', x, I(0xD800), 32), True), (mk_cmp('Lt', x, I(0xE000), 32), False), (mk_cmp('Lt', x, I(0x110000), 32), True), (TRUE, False)):
        a, b = fork(I_, s, cond)
        if a is not None:
            out.append((a, opt_some(I_, d[2], x) if ok else opt_none(I_, d[2])))
        s = b
        if s is None:
            break
    return out


def generic_extern(I_, fn):
    return None


# ---- helpers ----------------------------------------------------------------------------------------
def T_(I_):
    return I_.T


def unit(I_, d):
    return I_.zst(d[2])


def m_unit(I_, st, fn, vals, d):
    return I_.zst(d[2])


def fork(I_, st, cond):
    """-> (state where cond, state where not cond); either may be None"""
    r = st.facts.decide(cond)
    if r is True:
        return st, None
    if r is False:
        return None, st
    s2 = st.copy()
    a = st if st.facts.assume(cond, True) else None
    b = s2 if s2.facts.assume(cond, False) else None
    return a, b


def opt_some(I_, ty, v):
    return ('agg', ty, 1, (v,))


def opt_none(I_, ty):
    return ('agg', ty, 0, ())


def end(st, out):
    st.out = out
    return st


def uint(I_, e):
    return e


# ---- intrinsics ------------------------------------------------------------------------------------------
@intr('size_of', 'min_align_of', 'align_of', 'pref_align_of', 'needs_drop')
def i_tyinfo(I_, st, fn, vals, d):
    t = fn['args'][0]
    T = I_.T
    n = fn['intr']
    if n == 'size_of':
        return I(T.size(t))
    if n == 'needs_drop':
        return I(int(T[t]['nd']))
    return I(T.align(t))


@intr('size_of_val', 'align_of_val', 'min_align_of_val')
def i_sizeval(I_, st, fn, vals, d):
    T = I_.T
    t = fn['args'][0]
    p = I_.as_ptr(vals[0])
    if fn['intr'] != 'size_of_val':
        if T.kind(t) == 'slice':
            return I(T.align(T.elem(t)))
        if T.kind(t) == 'str':
            return I(1)
        if T.meta_kind(t) is None and T.size(t) is not None:
            return I(T.align(t))
        raise Imprecise('align_of_val')
    if T.kind(t) == 'slice':
        return mul(p[3], I(T.size(T.elem(t))))
    if T.kind(t) == 'str':
        return p[3]
    if T.meta_kind(t) is None and T.size(t) is not None:
        return I(T.size(t))
    raise Imprecise('size_of_val')


@intr('transmute', 'transmute_unchecked')
def i_transmute(I_, st, fn, vals, d):
    return I_.transmute(st, vals[0], fn['args'][0], fn['args'][1])


@intr('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'cold_path', 'assume_', 'forget_', 'black_box_')
def i_nop(I_, st, fn, vals, d):
    return I_.zst(d[2])


@intr('forget')
def i_forget(I_, st, fn, vals, d):
    return I_.zst(d[2])


@intr('black_box')
def i_bb(I_, st, fn, vals, d):
    return vals[0]


@intr('assume')
def i_assume(I_, st, fn, vals, d):
    c = as_cond(vals[0])
    r = st.facts.decide(c)
    if r is False:
        raise End(('ub', 'assume(false)'))
    if r is None:
        st.facts.assume(c, True, log=False)
    return I_.zst(d[2])


@intr('integer_min', 'integer_max')
def i_minmax(I_, st, fn, vals, d):
    a, b = I_.num(vals[0]), I_.num(vals[1])
    if I_.T.signed(d[2]):
        raise Imprecise('signed minimum')
    x, y = fork(I_, st, mk_cmp('Le', a, b))
    if fn['intr'] == 'integer_max':
        a, b = b, a
    return ([(x, a)] if x is not None else []) + ([(y, b)] if y is not None else []) if x is not None and y is not None else (a if x is not None else b)


@intr('likely', 'unlikely')
def i_id(I_, st, fn, vals, d):
    return vals[0]


@intr('ub_checks', 'contract_checks', 'is_val_statically_known')
def i_false(I_, st, fn, vals, d):
    return FALSE


@intr('overflow_checks')
def i_true(I_, st, fn, vals, d):
    return TRUE


@intr('abort')
def i_abort(I_, st, fn, vals, d):
    raise End(('panic', 'abort'))


@intr('unreachable')
def i_unreach(I_, st, fn, vals, d):
    raise End(('ub', 'unreachable_unchecked reached'))


@intr('const_eval_select')
def i_ces(I_, st, fn, vals, d):
    # the runtime variant
    f = vals[2]
    fty = fn['args'][2]
    # args: (ARG tuple, F const, G runtime, RET)
    g = [a for a in fn['args'] if isinstance(a, int) and I_.T.kind(a) == 'fndef']
    inst = I_.T[g[-1]]['inst']
    a = vals[0]
    args = list(a[3]) if a[0] == 'agg' else [I_.field(a, fn['args'][0], 0, i) for i in range(len(I_.T.fields(fn['args'][0])))]
    I_.push_frame_call(st, inst, args, d)
    return PUSHED


@intr('offset')
def i_offset(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    s = I_.T.size(I_.T.pointee(fn['args'][0]))
    n = to_signed(I_, st, vals[1], fn['args'][1])
    return ('ptr', p[1], add(p[2], mul(n, I(s))), p[3])


@intr('arith_offset')
def i_aoffset(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    s = I_.T.size(fn['args'][0])
    n = vals[1]
    if isint(n):
        n = I(E.signed(n[1], 64))
    return ('ptr', p[1], add(p[2], mul(n, I(s))), p[3])


def to_signed(I_, st, n, ty):
    n = I_.num(n)
    if I_.T.signed(ty) and isint(n):
        return I(E.signed(n[1], I_.T.bits(ty)))
    return n


@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def i_ptrdiff(I_, st, fn, vals, d):
    a, b = I_.as_ptr(vals[0]), I_.as_ptr(vals[1])
    s = I_.T.size(fn['args'][0])
    if a[1] != b[1]:
        raise Imprecise('difference of pointers into different objects')
    df = sub(a[2], b[2])
    if fn['intr'].endswith('unsigned'):
        I_.oblige(st, 'bounds', st.facts.decide(mk_cmp('Le', b[2], a[2])), 'ordered pointer difference')
    if s == 1:
        return df
    q = divisible(df, s)
    if q is None:
        return mk_op('Div', 64, False, df, I(s), st.facts)
    return q


@intr('ptr_metadata')
def i_meta(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    return p[3] if p[3] is not None else I_.zst(d[2])


@intr('aggregate_raw_ptr')
def i_aggraw(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    m = vals[1]
    return ('ptr', p[1], p[2], None if m[0] == 'agg' else m)


@intr('slice_get_unchecked')
def i_sgu(I_, st, fn, vals, d):
    T = I_.T
    p = I_.as_ptr(vals[0])
    t = T.pointee(d[2])
    s = T.size(t)
    return ('ptr', p[1], add(p[2], mul(I_.num(vals[1]), I(s))), None)


@intr('read_via_copy', 'volatile_load', 'unaligned_volatile_load')
def i_rvc(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    t = fn['args'][0]
    n = I_.T.size(t)
    if n:
        I_.check_access(st, p[1], p[2], I(n), 'read')
    return I_.load(st, p[1], p[2], t)


@intr('write_via_move', 'volatile_store', 'unaligned_volatile_store')
def i_wvm(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    t = fn['args'][0]
    n = I_.T.size(t)
    if n:
        I_.check_access(st, p[1], p[2], I(n), 'write')
        I_.store(st, p[1], p[2], t, vals[1])
    return I_.zst(d[2])


@intr('copy_nonoverlapping', 'copy', 'volatile_copy_memory', 'volatile_copy_nonoverlapping_memory')
def i_copy(I_, st, fn, vals, d):
    t = fn['args'][0]
    I_.copy_mem(st, vals[0], vals[1], mul(I_.num(vals[2]), I(I_.T.size(t))), t, vals[2])
    return I_.zst(d[2])


@intr('write_bytes')
def i_wb(I_, st, fn, vals, d):
    t = fn['args'][0]
    s = I_.T.size(t)
    n = mul(I_.num(vals[2]), I(s))
    p = I_.as_ptr(vals[0])
    if st.facts.decide(mk_cmp('Eq', n, ZERO)):
        return I_.zst(d[2])
    I_.check_access(st, p[1], p[2], n, 'fill')
    v = vals[1]
    if isint(n) and n[1] <= 64:
        I_.store_bulk(st, p[1], p[2], n, mk_cat(tuple((v, 1) for _ in range(n[1]))))
    elif isint(v) and v[1] == 0 and isint(n):
        I_.store_bulk(st, p[1], p[2], n, ZERO)
    else:
        I_.store_bulk(st, p[1], p[2], n, ('fill', v))
    return I_.zst(d[2])


@intr('compare_bytes')
def i_memcmp(I_, st, fn, vals, d):
    return memcmp(I_, st, vals[0], vals[1], I_.num(vals[2]))


def memcmp(I_, st, pa, pb, n):
    x = content(I_, st, pa, n)
    y = content(I_, st, pb, n)
    if x == y:
        return ZERO
    c = mk_cmp('Eq', x, y) if is_num(x) and is_num(y) else mk_not(mk_cmp('Eq', ('call', 'beq', x, y, None), ZERO))
    a, b = fork(I_, st, c)
    out = []
    if a is not None:
        out.append((a, ZERO))
    if b is not None:
        out.append((b, I(1)))
    return out


@intr('raw_eq')
def i_raweq(I_, st, fn, vals, d):
    t = fn['args'][0]
    n = I_.T.size(t)
    x = content(I_, st, vals[0], I(n))
    y = content(I_, st, vals[1], I(n))
    return mk_cmp('Eq', x, y)


@intr('discriminant_value')
def i_discr(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    t = fn['args'][0]
    return I_.discr_val(st, I_.load(st, p[1], p[2], t), t)


@intr('bswap')
def i_bswap(I_, st, fn, vals, d):
    return mk_bswap(I_.T.bits(fn['args'][0]), I_.num(vals[0]))


@intr('bitreverse')
def i_bitrev(I_, st, fn, vals, d):
    v = I_.num(vals[0])
    b = I_.T.bits(fn['args'][0])
    if isint(v):
        return I(int(bin(v[1])[2:].zfill(b)[::-1], 2))
    return ('un', 'bitreverse', b, v)


@intr('ctlz', 'ctlz_nonzero')
def i_ctlz(I_, st, fn, vals, d):
    v = I_.num(vals[0])
    b = I_.T.bits(fn['args'][0])
    if isint(v):
        return I(b - v[1].bit_length())
    # partition on the position of the highest set bit
    out = []
    cur = st
    lo, hi = cur.facts.bounds(v)
    hi = min(hi, (1 << b) - 1)
    for bl in range(0, b + 1):
        lo_b = 0 if bl == 0 else 1 << (bl - 1)
        hi_b = 0 if bl == 0 else (1 << bl) - 1
        if lo_b > hi or hi_b < lo:
            continue
        s2 = cur.copy()
        ok = True
        if hi_b < hi:
            ok = s2.facts.assume(mk_cmp('Le', v, I(hi_b)), True)
        if ok and lo_b > lo:
            ok = s2.facts.assume(mk_cmp('Le', I(lo_b), v), True)
        if ok:
            out.append((s2, I(b - bl)))
    return out


@intr('cttz', 'cttz_nonzero')
def i_cttz(I_, st, fn, vals, d):
    v = I_.num(vals[0])
    b = I_.T.bits(fn['args'][0])
    if isint(v):
        return I(b if v[1] == 0 else (v[1] & -v[1]).bit_length() - 1)
    return ('un', 'cttz', b, v)


@intr('ctpop')
def i_ctpop(I_, st, fn, vals, d):
    v = I_.num(vals[0])
    b = I_.T.bits(fn['args'][0])
    if isint(v):
        return I(bin(v[1]).count('1'))
    return ('un', 'ctpop', b, v)


@intr('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul',
      'unchecked_div', 'unchecked_rem', 'unchecked_shl', 'unchecked_shr', 'exact_div', 'disjoint_bitor')
def i_arith(I_, st, fn, vals, d):
    n = fn['intr']
    t = fn['args'][0]
    a, b = I_.num(vals[0]), I_.num(vals[1])
    op = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul', 'unchecked_add': 'Add', 'unchecked_sub': 'Sub',
          'unchecked_mul': 'Mul', 'unchecked_div': 'Div', 'unchecked_rem': 'Rem', 'unchecked_shl': 'Shl', 'unchecked_shr': 'Shr',
          'exact_div': 'Div', 'disjoint_bitor': 'BitOr'}[n]
    if I_.T.kind(t) == 'float':
        return ('flop', op, I_.T.bits(t), a, b)
    if n.startswith('unchecked') and op in ('Add', 'Mul') and not I_.T.signed(t):
        # overflow is undefined behaviour: the mathematical result
        r = add(a, b) if op == 'Add' else mul(a, b)
        return r
    if n == 'unchecked_sub' and not I_.T.signed(t):
        return sub(a, b)
    return I_.op(st, op, I_.T.bits(t), I_.T.signed(t), a, b)


@intr('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow')
def i_ovf(I_, st, fn, vals, d):
    op = {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[fn['intr'][0]]
    return I_.checked(st, op, fn['args'][0], I_.num(vals[0]), I_.num(vals[1]), d[2])


@intr('saturating_add', 'saturating_sub')
def i_sat(I_, st, fn, vals, d):
    t = fn['args'][0]
    if I_.T.signed(t):
        raise Imprecise('signed saturation')
    a, b = I_.num(vals[0]), I_.num(vals[1])
    top = (1 << I_.T.bits(t)) - 1
    if fn['intr'] == 'saturating_add':
        r = add(a, b)
        x, y = fork(I_, st, mk_cmp('Le', r, I(top)))
        out = []
        if x is not None:
            out.append((x, r))
        if y is not None:
            out.append((y, I(top)))
        return out
    x, y = fork(I_, st, mk_cmp('Le', b, a))
    out = []
    if x is not None:
        out.append((x, sub(a, b)))
    if y is not None:
        out.append((y, ZERO))
    return out


@intr('rotate_left', 'rotate_right')
def i_rot(I_, st, fn, vals, d):
    v, n = I_.num(vals[0]), I_.num(vals[1])
    b = I_.T.bits(fn['args'][0])
    if isint(v) and isint(n):
        k = n[1] % b
        if fn['intr'] == 'rotate_right':
            k = (b - k) % b
        return I(mask(v[1] << k, b) | (v[1] >> (b - k)))
    return ('op', fn['intr'], b, v, n)


@intr('typed_swap_nonoverlapping')
def i_swap(I_, st, fn, vals, d):
    t = fn['args'][0]
    a, b = I_.as_ptr(vals[0]), I_.as_ptr(vals[1])
    x, y = I_.load(st, a[1], a[2], t), I_.load(st, b[1], b[2], t)
    I_.store(st, a[1], a[2], t, y)
    I_.store(st, b[1], b[2], t, x)
    return I_.zst(d[2])


@intr('ptr_guaranteed_cmp')
def i_pgc(I_, st, fn, vals, d):
    return I(2)


@intr('three_way_compare')
def i_cmp3(I_, st, fn, vals, d):
    raise Imprecise('three-way compare')


@intr('caller_location')
def i_cl(I_, st, fn, vals, d):
    return ('ptr', ('abs',), I(8), None)


@intr('atomic_load', 'atomic_store', 'atomic_xchg')
def i_atomic(I_, st, fn, vals, d):
    n = fn['intr']
    p = I_.as_ptr(vals[0])
    t = fn['args'][0]
    if n == 'atomic_load':
        return I_.load(st, p[1], p[2], t)
    old = I_.load(st, p[1], p[2], t)
    I_.store(st, p[1], p[2], t, vals[1])
    return I_.zst(d[2]) if n == 'atomic_store' else old


@intr('atomic_cxchg', 'atomic_cxchgweak', 'atomic_xadd', 'atomic_xsub', 'atomic_and', 'atomic_or')
def i_atomic_rmw(I_, st, fn, vals, d):
    raise Imprecise('atomic read-modify-write')


@intr('atomic_fence', 'atomic_singlethreadfence')
def i_fence(I_, st, fn, vals, d):
    return I_.zst(d[2])


@intr('type_id')
def i_typeid(I_, st, fn, vals, d):
    return ('call', 'typeid', I(fn['args'][0]), d[2])


@intr('type_name')
def i_typename(I_, st, fn, vals, d):
    return ('call', 'type_name', I(fn['args'][0]), d[2])


# ---- content of a byte range --------------------------------------------------------------------------------
def content(I_, st, p, n, what='byte comparison'):
    """the bytes of [p, p+n) as one expression"""
    p = I_.as_ptr(p)
    if st.facts.decide(mk_cmp('Eq', n, ZERO)):
        return ('i', 0) if isint(n) else ('cat', ())
    I_.check_access(st, p[1], p[2], n, 'read')
    if isint(n) and n[1] <= 64:
        whole = load_span(I_, st, p[1], p[2], n[1])
        return whole
    b = I_.block(st, p[1])
    # one bulk region or one caller-owned array covering it
    for w in reversed(b.log):
        if w[0] == 'bulk':
            r = rel(st.facts, p[2], n, w[1], w[2])
            if r == 'out':
                continue
            d = sub(p[2], w[1])
            if d == ZERO and st.facts.decide(mk_cmp('Eq', n, w[2])):
                return w[3]
            if r == 'in':
                return ('span', w[3], d, n)
        elif w[0] == 'w':
            r = rel(st.facts, p[2], n, w[1], I(w[2]))
            if r == 'out':
                continue
        elif w[0] == 'copy':
            r = rel(st.facts, p[2], n, w[1], w[2])
            if r == 'out':
                continue
            if r == 'in':
                return content_b(I_, st, w[3], add(w[4], sub(p[2], w[1])), n)
        return snap(I_, st, b, p[2], n)
    return content_b(I_, st, b, p[2], n, True)


def content_b(I_, st, b, off, n, nolog=False):
    if not nolog and b.log:
        return snap(I_, st, b, off, n)
    if not b.entries and b.init is not None:
        if b.init[0] == 'arr':
            es = I_.T.size(b.init[2])
            X = b.init[1]
            return ('arrb', X, b.init[2], off, n)
        if b.init[0] == 'bulk':
            if off == ZERO and b.size is not None and st.facts.decide(mk_cmp('Eq', n, b.size)):
                return b.init[1]
            return ('span', b.init[1], off, n)
        if b.init[0] == 'bytes' and isint(off) and isint(n):
            data = b.init[1][off[1]:off[1] + n[1]]
            if all(x is not None for x in data):
                return ('cb', bytes(data).hex(), n)
    return snap(I_, st, b, off, n)


SNAPS = []


def snap(I_, st, b, off, n):
    SNAPS.append(b.clone())
    return ('snap', len(SNAPS) - 1, off, n)


def load_span(I_, st, blk, off, n):
    """n constant: bytes as one scalar expression, reading the largest aligned pieces available"""
    T = I_.T
    b = I_.block(st, blk)
    if n <= 64:
        # try to read typed entries whole
        parts = []
        pos = 0
        while pos < n:
            o = add(off, I(pos))
            done = False
            if isint(o) and not b.log:
                e = b.entries.get(o[1])
                if e is not None and e[0] <= n - pos and e[0] > 0:
                    parts.append((e[2] if e[1] is None else bits_of2(I_, st, e[2], e[1]), e[0]))
                    pos += e[0]
                    done = True
            if not done:
                for s in (16, 8, 4, 2, 1):
                    if pos + s > n:
                        continue
                    t = T.byname.get('u%d' % (8 * s))
                    if t is None:
                        continue
                    try:
                        v = I_.load(st, blk, o, t)
                    except Imprecise:
                        if s == 1:
                            raise
                        continue
                    if s > 1 and v[0] == 'cat' and any(x[0] == 'undef' for x, _ in v[1]):
                        pass
                    parts.append((v, s))
                    pos += s
                    break
        return mk_cat(tuple(parts))
    raise Imprecise('span')


def bits_of2(I_, st, v, ty):
    T = I_.T
    if T.is_scalar(ty):
        return I_.num(v) if v[0] == 'ptr' else v
    return I_.bits_of(v, ty)


# ---- heap, Box, Vec ---------------------------------------------------------------------------------------------
def heap_block(I_, st, size, align, ty=None):
    bid = ('H', st.fresh('heap'), st.ks)
    st.mem[bid] = Block(size, None, align, 'heap' if isint(size) else 'dyn', ty)
    st.own.add(bid)
    return bid


@key('alloc::alloc::__rust_no_alloc_shim_is_unstable_v2', 'alloc::alloc::{extern#0}::__rust_no_alloc_shim_is_unstable_v2')
def m_shim(I_, st, fn, vals, d):
    return I_.zst(d[2])


@key('alloc::boxed::new', 'alloc::boxed::pin')
def m_box_new(I_, st, fn, vals, d):
    T = I_.T
    t = fn['args'][0]
    n = T.size(t)
    if n == 0:
        return I_.wrap(('ptr', ('abs',), I(T.align(t)), None), d[2])
    bid = heap_block(I_, st, I(n), T.align(t), t)
    I_.store(st, bid, ZERO, t, vals[0])
    return I_.wrap(('ptr', bid, ZERO, None), d[2])


def vec_elem(I_, ty):
    """element type of a Vec type (or None)"""
    T = I_.T
    t = T[ty]
    return t['args'][0]


def as_vec(I_, st, v, ty):
    if v[0] == 'vec':
        return v
    if v[0] == 'undef':
        raise End(('ub', 'use of an uninitialised Vec'))
    if I_.is_symbolic(v):
        T = I_.T
        e = vec_elem(I_, ty)
        es = T.size(e)
        ln, cap = ('len', v), ('cap', v)
        if sub(cap, ln) not in st.facts.lins:
            st.facts._ladd(sub(cap, ln))
            m = ISIZE_MAX // es if es else USIZE_MAX
            st.facts._clamp(ln, 0, m)
            st.facts._clamp(cap, 0, m)
        return ('vec', ty, ('vb', v), ln, cap if es else I(USIZE_MAX))
    if v[0] == 'agg' and v[1] == ty:
        return I_.vec_fold(v, ty)
    raise Imprecise('Vec value %r' % (v[:2],))


def vec_at(I_, st, p, ty=None):
    """(vec value, ptr, type) behind a reference"""
    p = I_.as_ptr(p)
    return p


def load_vec(I_, st, p, vty):
    p = I_.as_ptr(p)
    v = as_vec(I_, st, I_.load(st, p[1], p[2], vty), vty)
    vec_inv(I_, st, v)
    return p, v


def vec_inv(I_, st, v):
    """the length of a Vec never exceeds its capacity (`set_len` and the modelled operations keep it so)"""
    es = vsize(I_, v)
    if not es or isint(v[4]):
        return
    d = sub(v[4], v[3])
    if not isint(d):
        st.facts._ladd(d)
    if v[4] == ('cap', ('V', v[2])):
        b = I_.block(st, v[2])
        if b.size != mulc(v[4], es):
            I_.wblock(st, v[2]).size = mulc(v[4], es)


def vec_type(I_, fn, elem):
    """type id of Vec<elem>"""
    T = I_.T
    for i, t in enumerate(T.t):
        if t['k'] == 'adt' and T.is_vec(i) and t['args'] and t['args'][0] == elem:
            return i
    raise Imprecise('no Vec type')


def vsize(I_, v):
    return I_.T.size(vec_elem(I_, v[1]))


def alloc_vec(I_, st, vty, n, where=None):
    """fresh buffer for n elements -> list of (state, vec)"""
    T = I_.T
    e = vec_elem(I_, vty)
    es = T.size(e)
    if es == 0:
        return [(st, ('vec', vty, ('abs',), ZERO, I(USIZE_MAX)))]
    out = []
    bytes_ = mul(n, I(es))
    ok, bad = fork(I_, st, mk_cmp('Le', bytes_, I(ISIZE_MAX)))
    if ok is not None:
        bid = ('H', ok.fresh('heap'), ok.ks)
        ok.mem[bid] = Block(bytes_, None, T.align(e), 'dyn' if not isint(bytes_) else 'dyn')
        ok.own.add(bid)
        if n != ZERO:
            ok.events = ok.events + (('A', bytes_),)
        out.append((ok, ('vec', vty, bid, ZERO, n)))
    if bad is not None:
        bad.out = ('panic', 'capacity overflow')
        out.append((bad, None))
    return out


@key('alloc::vec::new')
def v_new(I_, st, fn, vals, d):
    return alloc_vec(I_, st, d[2], ZERO)[0][1]


@key('alloc::vec::with_capacity', 'alloc::vec::with_capacity_in')
def v_with_capacity(I_, st, fn, vals, d):
    return alloc_vec(I_, st, d[2], I_.num(vals[0]))


@key('alloc::vec::default')
def v_default(I_, st, fn, vals, d):
    return alloc_vec(I_, st, d[2], ZERO)[0][1]


def vself(I_, st, fn, vals, i=0):
    return load_vec(I_, st, vals[i], vec_type(I_, fn, fn['args'][0]))


def vbuf(v):
    return ('ptr', v[2], I(0) if v[2] != ('abs',) else I(1), None)


@key('alloc::vec::as_ptr', 'alloc::vec::as_mut_ptr')
def v_as_ptr(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    if v[2] == ('abs',):
        return ('ptr', ('abs',), I(I_.T.align(vec_elem(I_, v[1]))), None)
    return ('ptr', v[2], ZERO, None)


@key('alloc::vec::len')
def v_len(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    return v[3]


@key('alloc::vec::is_empty')
def v_is_empty(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    return mk_cmp('Eq', v[3], ZERO)


@key('alloc::vec::capacity')
def v_cap(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    return v[4]


@key('alloc::vec::deref', 'alloc::vec::deref_mut', 'alloc::vec::as_slice', 'alloc::vec::as_mut_slice', 'alloc::vec::as_ref', 'alloc::vec::as_mut', 'alloc::vec::borrow', 'alloc::slice::borrow')
def v_deref(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    if v[2] == ('abs',):
        return ('ptr', ('abs',), I(I_.T.align(vec_elem(I_, v[1]))), v[3])
    return ('ptr', v[2], ZERO, v[3])


def put(I_, st, p, v):
    I_.store(st, p[1], p[2], v[1], v)


@key('alloc::vec::set_len')
def v_set_len(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    n = I_.num(vals[1])
    f = st.facts
    I_.oblige(st, 'bounds', f.decide(mk_cmp('Le', n, v[4])), 'set_len(%s) within the capacity %s' % (show(n), show(v[4])))
    st.events = st.events + (('setlen',),)
    # elements exposed by the new length must be initialised
    ok = init_range(I_, st, v, v[3], n)
    st.notes[('setlen', v[2])] = ok
    if not ok:
        st.obl = st.obl
        st.notes[('uninit', v[2])] = True
    put(I_, st, p, ('vec', v[1], v[2], n, v[4]))
    return I_.zst(d[2])


def vec_dropped(I_, st, blk, off, ty):
    """the destructor of a Vec: exactly the elements it holds are dropped"""
    T = I_.T
    e = vec_elem(I_, ty)
    try:
        v = I_.load(st, blk, off, ty)
        if v[0] == 'agg':
            v = I_.vec_fold(v, ty)
    except Imprecise:
        return
    if v[0] == 'vec' and T[e]['nd'] and not T.size(e):
        st.events = st.events + (('live', mulc(v[3], -1)),)
    if v[0] != 'vec' or v[2][0] != 'H':
        return
    k = ('dropped', v[2])
    st.notes[k] = st.notes.get(k, 0) + 1
    if not T[e]['nd'] or not T.size(e):
        return
    I_.oblige(st, 'drop', init_range(I_, st, v, ZERO, v[3]), 'the elements of a dropped Vec (of length %s) are initialised' % show(v[3]))
    try:
        x = I_.load(st, v[2], mulc(v[3], T.size(e)), e)
    except Imprecise:
        return
    if contains(x, lambda y: isinstance(y, tuple) and y[:1] == ('er',)) and not has_undef(I_, x, e) and st.facts.decide(mk_cmp('Lt', v[3], v[4])) is not False:
        I_.oblige(st, 'drop', False, 'a dropped Vec (of length %s) does not drop the element %s it holds' % (show(v[3]), show(x)))


def init_range(I_, st, v, lo, hi):
    """are all elements lo..hi of the buffer initialised?"""
    T = I_.T
    e = vec_elem(I_, v[1])
    if T.size(e) == 0:
        return True
    f = st.facts
    if f.decide(mk_cmp('Le', hi, lo)):
        return True
    return init_span(I_, st, v[2], e, lo, hi)


def init_span(I_, st, blk, e, lo, hi, base=ZERO):
    T = I_.T
    f = st.facts.copy()
    if isint(lo) and isint(hi) and hi[1] - lo[1] <= 8:
        idxs = [I(x) for x in range(lo[1], hi[1])]
    else:
        j = ('j', 'init', st.fresh('j'))
        f._clamp(j, 0, ISIZE_MAX)
        f.assume(mk_cmp('Le', lo, j), True, log=False)
        f.assume(mk_cmp('Lt', j, hi), True, log=False)
        idxs = [j]
    old = st.facts
    st.facts = f
    try:
        for j in idxs:
            try:
                x = I_.load(st, blk, add(base, mul(j, I(T.size(e)))), e)
            except Imprecise as ex:
                return None
            if has_undef(I_, x, e):
                return False
    finally:
        st.facts = old
    return True


def has_undef(I_, v, ty):
    if v[0] == 'undef':
        return True
    try:
        return any(contains(x, lambda y: y == UNDEF) for o, s, x in I_.leaves(v, ty))
    except Imprecise:
        return False


@key('alloc::vec::push', 'alloc::vec::push_mut')
def v_push(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    v2 = push(I_, st, v, vals[1])
    put(I_, st, p, v2)
    return I_.zst(d[2])


def push(I_, st, v, x):
    T = I_.T
    e = vec_elem(I_, v[1])
    es = T.size(e)
    n1 = add(v[3], I(1))
    if es == 0:
        return ('vec', v[1], v[2], n1, v[4])
    v = grow(I_, st, v, n1, 'G')
    I_.store(st, v[2], mul(v[3], I(es)), e, x)
    return ('vec', v[1], v[2], n1, v[4])


def grow(I_, st, v, need, how='A'):
    """make sure the capacity is at least `need`.  The event tells how: 'A' at once, ending the process when there is no memory;
    'T' at once, or failing; 'G' by doubling, as elements come"""
    T = I_.T
    es = vsize(I_, v)
    if es == 0:
        return v
    f = st.facts
    if f.decide(mk_cmp('Le', need, v[4])):
        return v
    cap = ('cap', ('V', v[2]))
    f._clamp(cap, 0, ISIZE_MAX // es)
    f._ladd(sub(cap, need))
    if v[4] != cap:
        st.events = st.events + ((how, mul(need, I(es))),)
    b = I_.wblock(st, v[2])
    b.size = mulc(cap, es)
    b.kind = 'dyn'
    return ('vec', v[1], v[2], v[3], cap)


@key('alloc::vec::reserve', 'alloc::vec::reserve_exact')
def v_reserve(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    n = I_.num(vals[1])
    need = add(v[3], n)
    es = vsize(I_, v)
    if es == 0:
        return I_.zst(d[2])
    ok, bad = fork(I_, st, mk_cmp('Le', mul(need, I(es)), I(ISIZE_MAX)))
    out = []
    if ok is not None:
        v2 = grow(I_, ok, v, need)
        put(I_, ok, p, v2)
        out.append((ok, I_.zst(d[2])))
    if bad is not None:
        bad.out = ('panic', 'capacity overflow')
        out.append((bad, None))
    return out


@key('alloc::vec::try_reserve', 'alloc::vec::try_reserve_exact')
def v_try_reserve(I_, st, fn, vals, d):
    """succeeds, or fails because so much memory cannot be had"""
    p, v = vself(I_, st, fn, vals)
    need = add(v[3], I_.num(vals[1]))
    es = vsize(I_, v)
    done = lambda: ('agg', d[2], 0, (I_.zst(I_.T.arg(d[2], 0)),))
    if es == 0 or st.facts.decide(mk_cmp('Le', need, v[4])):
        return done()
    out = []
    bad = st.copy()
    if st.facts.assume(mk_cmp('Le', mul(need, I(es)), I(ISIZE_MAX)), True):
        put(I_, st, p, grow(I_, st, v, need, 'T'))
        out.append((st, done()))
    err = I_.T.arg(d[2], 1)
    bad.events = bad.events + (('AF', mul(need, I(es))),)
    out.append((bad, ('agg', d[2], 1, (I_.sym(('call', 'reserve_error', bad.fresh('err'), err), err),))))
    return out


@key('alloc::vec::pop')
def v_pop(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    a, b = fork(I_, st, mk_cmp('Eq', v[3], ZERO))
    out = []
    if a is not None:
        out.append((a, opt_none(I_, d[2])))
    if b is not None:
        n = sub(v[3], I(1))
        e = vec_elem(I_, v[1])
        x = I_.load(b, v[2], mul(n, I(I_.T.size(e))), e)
        put(I_, b, p, ('vec', v[1], v[2], n, v[4]))
        out.append((b, opt_some(I_, d[2], x)))
    return out


@key('alloc::vec::clear')
def v_clear(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    put(I_, st, p, ('vec', v[1], v[2], ZERO, v[4]))
    return I_.zst(d[2])


@key('alloc::vec::truncate')
def v_trunc(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    n = I_.num(vals[1])
    a, b = fork(I_, st, mk_cmp('Le', v[3], n))
    out = []
    if a is not None:
        out.append((a, I_.zst(d[2])))
    if b is not None:
        put(I_, b, p, ('vec', v[1], v[2], n, v[4]))
        out.append((b, I_.zst(d[2])))
    return out


@key('alloc::vec::extend_from_slice')
def v_extend_slice(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    v2 = append(I_, st, v, vals[1])
    put(I_, st, p, v2)
    return I_.zst(d[2])


def append(I_, st, v, src):
    e = vec_elem(I_, v[1])
    es = I_.T.size(e)
    src = I_.as_ptr(src)
    n = src[3]
    v = grow(I_, st, v, add(v[3], n))
    I_.copy_mem(st, ('ptr', src[1], src[2], None), ('ptr', v[2], mul(v[3], I(es)), None), mul(n, I(es)), e, n)
    return ('vec', v[1], v[2], add(v[3], n), v[4])


@key('alloc::slice::to_vec', 'alloc::slice::to_vec_in', 'alloc::slice::to_owned', 'alloc::slice::into_vec_', 'alloc::vec::from_slice_')
def s_to_vec(I_, st, fn, vals, d):
    src = I_.as_ptr(vals[0])
    v = alloc_vec(I_, st, d[2], src[3])
    out = []
    for s, x in v:
        if x is not None:
            x = append(I_, s, x, src)
        out.append((s, x))
    return out


@key('alloc::vec::clone')
def v_clone(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    out = []
    for s, x in alloc_vec(I_, st, d[2], v[3]):
        if x is not None:
            x = append(I_, s, x, ('ptr', v[2], ZERO, v[3]))
        out.append((s, x))
    return out


@key('alloc::vec::from_elem::from_elem', 'alloc::vec::from_elem', 'alloc::vec::spec_from_elem::from_elem')
def v_from_elem(I_, st, fn, vals, d):
    T = I_.T
    n = I_.num(vals[1])
    e = vec_elem(I_, d[2])
    out = []
    for s, x in alloc_vec(I_, st, d[2], n):
        if x is not None and T.size(e):
            val = vals[0]
            bits = I_.bits_of(val, e)
            if n != ZERO:
                if T.size(e) == 1 or bits == ZERO:
                    I_.store_bulk(s, x[2], ZERO, mul(n, I(T.size(e))), ('fill', bits))
                else:
                    raise Imprecise('vec![value; n]')
        if x is not None:
            x = ('vec', x[1], x[2], n, x[4])
        out.append((s, x))
    return out


@key('alloc::vec::resize')
def v_resize(I_, st, fn, vals, d):
    p, v = vself(I_, st, fn, vals)
    n = I_.num(vals[1])
    e = vec_elem(I_, v[1])
    es = I_.T.size(e)
    bits = I_.bits_of(vals[2], e) if es in (1, 2, 4, 8, 16) and I_.T.is_scalar(e) else None
    if bits is None or not (es == 1 or bits == ZERO):
        return None
    less, more = fork(I_, st, mk_cmp('Le', n, v[3]))
    out = []
    if less is not None:
        put(I_, less, p, ('vec', v[1], v[2], n, v[4]))
        out.append((less, I_.zst(d[2])))
    if more is not None:
        ok, bad = fork(I_, more, mk_cmp('Le', mul(n, I(es)), I(ISIZE_MAX)))
        if ok is not None:
            v2 = grow(I_, ok, v, n)
            I_.store_bulk(ok, v2[2], mul(v[3], I(es)), mul(sub(n, v[3]), I(es)), ('fill', bits))
            put(I_, ok, p, ('vec', v2[1], v2[2], n, v2[4]))
            out.append((ok, I_.zst(d[2])))
        if bad is not None:
            bad.out = ('panic', 'capacity overflow')
            out.append((bad, None))
    return out


@key('alloc::vec::into_boxed_slice', 'alloc::vec::leak')
def v_into_boxed(I_, st, fn, vals, d):
    v = as_vec(I_, st, vals[0], vec_type(I_, fn, fn['args'][0]))
    pt = ('ptr', v[2], ZERO if v[2] != ('abs',) else I(1), v[3])
    return pt if I_.T.is_scalar(d[2]) else I_.wrap(pt, d[2])


@key('alloc::slice::into_vec', 'alloc::slice::hack::into_vec')
def s_into_vec(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    return ('vec', d[2], p[1], p[3], p[3])


@key('alloc::vec::into_raw_parts_', 'alloc::vec::from_raw_parts')
def v_from_raw(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    return ('vec', d[2], p[1], I_.num(vals[1]), I_.num(vals[2]))


@key('alloc::vec::drop')
def v_drop(I_, st, fn, vals, d):
    return I_.zst(d[2])


@key('alloc::vec::shrink_to_fit', 'alloc::string::shrink_to_fit')
def v_shrink(I_, st, fn, vals, d):
    return I_.zst(d[2])


# ---- iteration over an owned Vec ------------------------------------------------------------------------------
@key('alloc::vec::into_iter')
def v_into_iter(I_, st, fn, vals, d):
    T = I_.T
    sty = T.name(d[2])
    if T.kind(d[2]) == 'adt' and T.path(d[2]).endswith('IntoIter'):
        v = as_vec(I_, st, vals[0], vec_type(I_, fn, fn['args'][0]))
        return ('it', ('vecit', v), ZERO, v[3], d[2])
    # &Vec / &mut Vec -> slice iterator
    return None or slice_iter(I_, st, fn, vals, d)


def slice_iter(I_, st, fn, vals, d):
    raise Imprecise('slice iterator from a Vec reference')


# ---- from_iter / extend / collect ------------------------------------------------------------------------------
def synth_loop(I_, name, ity, sink):
    """MIR of  `loop { match it.next() { None => return, Some(x) => sink(col, x) } }`
    locals: 0 unit, 1 &mut I, 2 col pointer, 3 Option<Item>, 4 discr, 5 unit"""
    T = I_.T
    nxt = T[ity].get('next') if T.kind(ity) == 'adt' else None
    if nxt is None:
        raise Imprecise('iterator %s has no known next' % T.name(ity))
    fn = I_.p.fns[nxt]
    if fn['body'] is not None:
        rty, pty = fn['body']['locals'][0], fn['body']['locals'][1]
    else:
        rty, pty = fn['sig'][1], fn['sig'][0][0]
    item = T.fields(rty, 1)[0][1]
    un = I_.unit_ty()
    ck = ('synth', ity, sink)
    if ck in I_.synth:
        return I_.synth[ck]
    isz = T.byname.get('isize', I_.usize)
    snk = len(I_.p.fns)
    I_.p.fns.append({'name': sink, 'path': sink, 'raw': 'model::' + sink, 'krate': 'core', 'kind': 'item', 'intr': None, 'args': [item], 'file': '', 'line': 0,
                     'trait': None, 'foreign': False, 'shim': None, 'sig': None, 'body': None, '_m': SINKS[sink]})
    body = {'locals': [un, pty, pty, rty, isz, un], 'argc': 2, 'spread': None, 'blocks': [
        [[], ['goto', 1], 0],
        [[], ['call', nxt, [['c', 1]], 3, 2], 0],
        [[['=', 4, ['discr', 3], 0]], ['switch', ['c', 4], [[0, 3]], 4], 0],
        [[], ['ret'], 0],
        [[], ['call', snk, [['c', 2], ['m', [3, ['d', 1], ['f', 0, item]]]], 5, 1], 0],
    ]}
    fid = len(I_.p.fns)
    I_.p.fns.append({'name': name, 'path': name, 'raw': 'model::' + name, 'krate': 'core', 'kind': 'item', 'intr': None, 'args': [ity], 'file': '', 'line': 0,
                     'trait': None, 'foreign': False, 'shim': None, 'sig': None, 'body': body, '_m': None})
    I_.synth[ck] = fid
    return fid


def reserve_hint(I_, st, ity, itval, colty):
    """collections reserve room for as many elements as the iterator promises"""
    from .loops import subst_ev
    T = I_.T
    h = T[ity].get('hint')
    if h is None:
        return
    args = [a for a in T[colty]['args'] if isinstance(a, int)]
    es = sum(T.size(a) for a in args[:2] if T.size(a)) if T.kind(colty) == 'adt' else 1
    if T.is_vec(colty):
        es = T.size(args[0])
    if not es:
        return
    s = st.copy()
    s.frames = []
    s.events = ()
    s.notes = {}
    x = ('X', 'hint', s.fresh('x'), s.ks)
    s.mem[x] = Block(I(T.size(ity)), None, T.align(ity), 'local', ity)
    s.own.add(x)
    total, tgt, dest = I_.total, getattr(I_, 'cur_target', None), getattr(I_, 'cur_where', None)
    try:
        I_.store(s, x, ZERO, ity, itval)
        I_.push_frame(s, h, [('ptr', x, ZERO, None)], None, None)
        los = []
        for r in I_.run(s):
            if r.out != ('ret',):
                if r.out[0] in ('panic', 'dead'):
                    continue
                raise Imprecise(str(r.out))
            v = r.retv
            lo = v[3][0] if v[0] == 'agg' else I_.field(v, I_.p.fns[h]['body']['locals'][0], 0, 0)
            if lo not in los:
                los.append(lo)
        for lo in los:
            if lo != ZERO:
                st.events = st.events + (('A', mul(lo, I(es))),)
    except (Imprecise, End, Split, KeyError, TypeError, IndexError) as e:
        st.events = st.events + (('A', None, str(e)),)
    finally:
        I_.total = total
        if tgt is not None:
            I_.cur_target = tgt


def run_sink(I_, st, ity, itval, colty, colval, sink, d, finish):
    """iterate itval pushing into a collection cell, then finish(state, value)"""
    T = I_.T
    reserve_hint(I_, st, ity, itval, colty)
    a = ('X', 'it', st.fresh('x'), st.ks)
    b = ('X', 'col', st.fresh('x'), st.ks)
    n = T.size(ity)
    st.mem[a] = Block(I(n), None, T.align(ity), 'local', ity)
    st.mem[b] = Block(I(T.size(colty)), None, T.align(colty), 'local', colty)
    st.own.add(a)
    st.own.add(b)
    I_.store(st, a, ZERO, ity, itval)
    st.mem[b].entries[0] = (T.size(colty), colty, colval)
    fid = synth_loop(I_, 'collect<%s>' % T.name(ity), ity, sink)

    def cont(self_, st_, fr, v):
        # remaining iterator state is dropped
        col = st_.mem[b].entries[0][2]
        r = finish(st_, col)
        st_.mem.pop(a, None)
        st_.mem.pop(b, None)
        return self_.finish_call(st_, d, r, fr.target)
    tgt = I_.cur_target
    I_.push_frame(st, fid, [('ptr', a, ZERO, None), ('ptr', b, ZERO, None)], None, tgt, cont)
    return PUSHED


def sink_vec(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    e = st.mem[p[1]].entries[0]
    v = push(I_, st, e[2], vals[1])
    b = I_.wblock(st, p[1])
    b.entries[0] = (e[0], e[1], v)
    return I_.zst(d[2])


def sink_col(I_, st, fn, vals, d):
    """opaque collection: the order and values inserted are observable events"""
    p = I_.as_ptr(vals[0])
    e = st.mem[p[1]].entries[0]
    st.events = st.events + (('ins', e[2][2], vals[1], fn['sig'][0][1] if fn.get('sig') else fn['args'][0]),)
    return I_.zst(d[2])


SINKS = {'sink_vec': sink_vec, 'sink_col': sink_col}


@key('alloc::vec::from_iter', 'alloc::vec::spec_from_iter::from_iter', 'alloc::vec::spec_from_iter_nested::from_iter')
def v_from_iter(I_, st, fn, vals, d):
    T = I_.T
    v0 = alloc_vec(I_, st, d[2], ZERO)[0][1]
    ity = fn['args'][1]
    return run_sink(I_, st, ity, vals[0], d[2], v0, 'sink_vec', d, lambda s, c: c)


@key('alloc::vec::extend', 'alloc::vec::spec_extend::spec_extend', 'alloc::vec::extend_desugared', 'alloc::vec::extend_trusted')
def v_extend(I_, st, fn, vals, d):
    T = I_.T
    p, v = vself(I_, st, fn, vals)
    ity = [a for a in fn['args'] if isinstance(a, int) and T.kind(a) == 'adt' and T[a].get('next') is not None]
    if not ity:
        raise Imprecise('extend')

    def fin(s, c):
        put(I_, s, p, c)
        return I_.zst(d[2])
    return run_sink(I_, st, ity[-1], vals[1], v[1], v, 'sink_vec', d, fin)


COLS = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'IndexMap', 'IndexSet', 'VecDeque', 'LinkedList', 'BinaryHeap')


def col_name(I_, ty):
    T = I_.T
    t = T[ty]
    if t['k'] == 'adt':
        n = t['path'].split('::')[-1]
        if n in COLS:
            return n
    return None


def c_from_iter(I_, st, fn, vals, d):
    T = I_.T
    c = ('col', d[2], ('cid', st.fresh('col'), st.ks))
    ity = [a for a in fn['args'] if isinstance(a, int) and T.kind(a) == 'adt' and T[a].get('next') is not None]
    if not ity:
        raise Imprecise('from_iter')
    st.events = st.events + (('newcol', c[2], col_name(I_, d[2])),)
    return run_sink(I_, st, ity[-1], vals[0], d[2], c, 'sink_col', d, lambda s, x: x)


def c_new(I_, st, fn, vals, d):
    c = ('col', d[2], ('cid', st.fresh('col'), st.ks))
    st.events = st.events + (('newcol', c[2], col_name(I_, d[2])),)
    return c


def c_insert(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    T = I_.T
    pty = fn['sig'][0][0]
    cty = T.pointee(pty)
    c = I_.load(st, p[1], p[2], cty)
    if c[0] != 'col':
        raise Imprecise('insertion into a caller-owned collection')
    if len(vals) == 3:
        tt = [i for i, t in enumerate(T.t) if t['k'] == 'tuple' and len(t['elems']) == 2 and t['elems'] == [fn['sig'][0][1], fn['sig'][0][2]]]
        item = ('agg', tt[0] if tt else None, 0, (vals[1], vals[2]))
    else:
        item = vals[1]
    st.events = st.events + (('ins', c[2], item, tt[0] if len(vals) == 3 and tt else fn['sig'][0][1]),)
    if T.kind(d[2]) == 'bool':
        return ('call', 'inserted', ('i', st.fresh('u')), d[2])
    if T.size(d[2]) == 0:
        return I_.zst(d[2])
    return ('call', 'inserted', ('i', st.fresh('u')), d[2])


def c_len(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    T = I_.T
    cty = T.pointee(fn['sig'][0][0])
    c = I_.load(st, p[1], p[2], cty)
    return ('len', c) if c[0] != 'col' else ('len', c[2])


def c_iter(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    T = I_.T
    cty = T.pointee(fn['sig'][0][0])
    c = I_.load(st, p[1], p[2], cty)
    return ('it', c, ZERO, ('len', c), d[2])


def it_next(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    T = I_.T
    ity = T.pointee(fn['sig'][0][0])
    it = I_.load(st, p[1], p[2], ity)
    if it[0] != 'it':
        raise Imprecise('iterator state %r' % (it[:2],))
    pos, n = it[2], it[3]
    a, b = fork(I_, st, mk_cmp('Lt', pos, n))
    out = []
    if a is not None:
        item = T.fields(d[2], 1)[0][1]
        if it[1][0] == 'vecit':
            v = it[1][1]
            e = vec_elem(I_, v[1])
            x = I_.load(a, v[2], mul(pos, I(T.size(e))), e) if T.size(e) else I_.zst(e)
        else:
            x = I_.sym(('elem', it[1], pos, item), item)
        I_.store(a, p[1], p[2], ity, ('it', it[1], add(pos, I(1))) + it[3:])
        out.append((a, opt_some(I_, d[2], x)))
    if b is not None:
        out.append((b, opt_none(I_, d[2])))
    return out


def it_size_hint(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    T = I_.T
    ity = T.pointee(fn['sig'][0][0])
    it = I_.load(st, p[1], p[2], ity)
    n = sub(it[3], it[2])
    oty = T.fields(d[2])[1][1]
    return ('agg', d[2], 0, (n, opt_some(I_, oty, n)))


def it_len(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    ity = I_.T.pointee(fn['sig'][0][0])
    it = I_.load(st, p[1], p[2], ity)
    return sub(it[3], it[2])


def collection_model(I_, st, fn, vals, d):
    name = fn['raw'].split('::')[-1]
    h = {'from_iter': c_from_iter, 'new': c_new, 'with_capacity': c_new, 'default': c_new, 'with_hasher': c_new,
         'with_capacity_and_hasher': c_new, 'insert': c_insert, 'push_back': c_insert, 'push': c_insert,
         'len': c_len, 'iter': c_iter, 'into_iter': c_iter, 'next': it_next, 'size_hint': it_size_hint}.get(name)
    if name == 'drop':
        return I_.zst(d[2])
    if name in ('reserve', 'with_capacity', 'with_capacity_and_hasher'):
        n = [x for x, t in zip(vals, fn['sig'][0]) if I_.T.kind(t) == 'uint']
        if len(n) == 1 and n[0] != ZERO:
            st.events = st.events + (('A', I_.num(n[0])),)
    if name in ('reserve',):
        return I_.zst(d[2])
    if name == 'is_empty':
        return mk_cmp('Eq', c_len(I_, st, fn, vals, d), ZERO)
    if h is None:
        raise Imprecise('collection method ' + fn['path'])
    return h(I_, st, fn, vals, d)


# ---- strings -----------------------------------------------------------------------------------------------------
@key('core::str::converts::from_utf8')
def m_from_utf8(I_, st, fn, vals, d):
    T = I_.T
    p = I_.as_ptr(vals[0])
    c = content(I_, st, p, p[3])
    if p[3] == ZERO or st.facts.decide(mk_cmp('Eq', p[3], ZERO)):
        return ('agg', d[2], 0, (p,))
    cond = mk_not(mk_cmp('Eq', ('call', 'utf8', c, I_.bool), ZERO))
    a, b = fork(I_, st, cond)
    out = []
    if a is not None:
        out.append((a, ('agg', d[2], 0, (p,))))
    if b is not None:
        et = T.fields(d[2], 1)[0][1]
        out.append((b, ('agg', d[2], 1, (('call', 'utf8err', c, et),))))
    return out


@key('alloc::string::from_utf8_lossy', 'alloc::string::from_utf8_unchecked_')
def m_lossy(I_, st, fn, vals, d):
    raise Imprecise('lossy conversion')


# ---- allocator / panics -----------------------------------------------------------------------------------------------
def m_panic(I_, st, fn, vals, d):
    raise End(('panic', fn['raw']))


PREFIX = [
    ('core::panicking::', m_panic),
    ('std::panicking::', m_panic),
    ('alloc::collections::', collection_model),
    ('std::collections::', collection_model),
    ('indexmap::', collection_model),
]


@key('core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'alloc::raw_vec::handle_error', 'alloc::alloc::handle_alloc_error')
def m_fail(I_, st, fn, vals, d):
    raise End(('panic', fn['raw']))


@key('core::fmt::rt::new_const', 'core::fmt::new', 'core::fmt::rt::new', 'core::fmt::rt::new_display', 'core::fmt::rt::new_debug', 'core::fmt::rt::from_str', 'core::fmt::from_str')
def m_fmt(I_, st, fn, vals, d):
    return ('call', 'fmt', ('i', st.fresh('u')), d[2])


# ---- probes -----------------------------------------------------------------------------------------------------------
PROBE = {}


def probe(f):
    PROBE['model_' + f.__name__[2:]] = f
    return f


def new_rd(st, kind, n):
    i = st.fresh(kind)
    return (kind, i, n, st.ks)


def put_bytes(I_, st, p, n, symv):
    I_.check_access(st, p[1], p[2], n, 'output of a read')
    I_.store_bulk(st, p[1], p[2], n, symv)


def do_read(I_, st, vals, d, kind):
    """model_read(out_ptr, len) -> bool success"""
    p = I_.as_ptr(vals[-1])
    n = p[3]
    if n == ZERO:
        return TRUE
    st.facts.assume(mk_cmp('Le', n, I(ISIZE_MAX)), True, log=False)     # the size of an object
    given = lambda s2, J: I_.load(s2, p[1], add(p[2], J), I_.u8) != UNDEF
    try:
        if isint(n) and n[1] <= 256 and isint(p[2]):
            r = all(given(st, I(j)) for j in range(n[1]))
        else:
            r = each_byte(I_, st, [(p[1], p[2])], n, given)
    except Imprecise:
        r = None
    I_.oblige(st, 'init', r, 'a reader is handed %s bytes as a slice' % show(n))
    ok = st
    bad = st.copy()
    prev = ok.events[-1] if ok.events else None
    if kind == 'P' and isint(n) and prev is not None and prev[0] == 'P' and isint(prev[2]):
        # nothing was read since the previous peek: the same bytes are seen again
        k = prev[2][1]
        if k >= n[1]:
            sy = mk_sub(prev[1], 0, n[1], k)
        else:
            sy = mk_cat(((prev[1], k), (new_rd(ok, 'pk', I(n[1] - k)), n[1] - k)))
    else:
        sy = new_rd(ok, 'rd' if kind == 'R' else 'pk', n)
    if not ok.facts.decide(mk_cmp('Eq', n, ZERO)):
        put_bytes(I_, ok, p, n, sy)
    else:
        I_.check_access(ok, p[1], p[2], n, 'output')
    ok.events = ok.events + ((kind, sy, n),)
    fid = ('fail', bad.fresh('fail'), bad.ks)
    bad.events = bad.events + ((kind + 'F', fid, n),)
    return [(ok, TRUE), (bad, FALSE)]


@probe
def m_read(I_, st, fn, vals, d):
    return do_read(I_, st, vals, d, 'R')


@probe
def m_peek(I_, st, fn, vals, d):
    return do_read(I_, st, vals, d, 'P')


@probe
def m_err(I_, st, fn, vals, d):
    """the error of the most recent failing probe call"""
    n = max(st.ctr.get('fail', 0) - 1, 0)
    return I_.sym(('call', 'err', ('fail', n, st.ks), d[2]), d[2])


@key('speedy::error::is_eof')
def m_is_eof(I_, st, fn, vals, d):
    """whether an error of the source is an end of input: unknown.  (For speedy's own errors the function is interpreted; what it
    says about every kind of error is decided separately.)"""
    p = I_.as_ptr(vals[0])
    v = I_.load(st, p[1], p[2], I_.T.pointee(fn['sig'][0][0]))
    if v[0] == 'call' and v[1] == 'err':
        return I_.sym(('call', 'iseof', v[2], d[2]), d[2])
    return None


@probe
def m_can(I_, st, fn, vals, d):
    """can_read_at_least(n) of a capable reader: either answer, consistent with later reads"""
    n = I_.num(vals[0])
    c = mk_cmp('Lt', ('rem', st.ctr.get('rem', 0)), n)
    if st.facts.decide(mk_cmp('Eq', n, ZERO)):
        return TRUE
    ok = st
    bad = st.copy()
    u = st.fresh('can')
    bad.fresh('can')
    ok.events = ok.events + (('can', n, 1),)
    bad.events = bad.events + (('can', n, 0),)
    return [(ok, TRUE), (bad, FALSE)]


@probe
def m_canw(I_, st, fn, vals, d):
    """can_write_at_least(n) of a writer with a known capacity: either answer"""
    n = I_.num(vals[0])
    if st.facts.decide(mk_cmp('Eq', n, ZERO)):
        return TRUE
    ok = st
    bad = st.copy()
    st.fresh('can')
    bad.fresh('can')
    ok.events = ok.events + (('canw', n, 1),)
    bad.events = bad.events + (('canw', n, 0),)
    return [(ok, TRUE), (bad, FALSE)]


@probe
def m_borrow(I_, st, fn, vals, d):
    """borrow n bytes of the input: success -> slice, failure -> null slice"""
    n = I_.num(vals[0])
    if n == ZERO:
        return opt_some(I_, d[2], ('ptr', ('abs',), I(1), ZERO))
    ok = st
    bad = st.copy()
    sy = new_rd(ok, 'rd', n)
    bid = ('B', sy)
    ok.mem[bid] = Block(n, ('bulk', sy), 1, 'ext')
    ok.own.add(bid)
    ok.events = ok.events + (('R', sy, n),)
    fid = ('fail', bad.fresh('fail'), bad.ks)
    bad.events = bad.events + (('RF', fid, n),)
    if not ok.facts.assume(mk_cmp("Le", n, I(ISIZE_MAX)), True, log=False):
        return [(bad, opt_none(I_, d[2]))]
    T = I_.T
    return [(ok, opt_some(I_, d[2], ('ptr', bid, ZERO, n))), (bad, opt_none(I_, d[2]))]


@probe
def m_borrow_eof(I_, st, fn, vals, d):
    sy = ('rd', st.fresh('rd'), ('rest',), st.ks)
    n = ('restlen', sy)
    st.facts._clamp(n, 0, ISIZE_MAX)
    sy = ('rd', sy[1], n, st.ks)
    bid = ('B', sy)
    st.mem[bid] = Block(n, ('bulk', sy), 1, 'ext')
    st.own.add(bid)
    st.events = st.events + (('REOF', sy, n),)
    return ('ptr', bid, ZERO, n)


@probe
def m_write(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[-1])
    n = p[3]
    if n == ZERO:
        return TRUE
    c = content(I_, st, p, n, 'write')
    if contains(c, lambda x: x == UNDEF):
        I_.oblige(st, 'init', False, 'uninitialised bytes written out')
    ok = st
    bad = st.copy()
    ok.events = ok.events + (('W', c, n),)
    fid = ('fail', bad.fresh('fail'), bad.ks)
    bad.events = bad.events + (('WF', fid, n),)
    return [(ok, TRUE), (bad, FALSE)]


def const_arg(fn, n=0):
    cs = [a for a in fn['args'] if isinstance(a, dict)]
    return cs[n]['const'] if len(cs) > n else None


@probe
def m_elem_read(I_, st, fn, vals, d):
    """an opaque element decoder: consumes an unknown amount and returns a value or an error"""
    K = const_arg(fn)
    ok = st
    bad = st.copy()
    t = T_elem(I_, d)
    v = ('er', ok.fresh('er'), K, ok.ks, t)
    ok.events = ok.events + (('E', v, K),)
    fid = ('fail', bad.fresh('fail'), bad.ks)
    bad.events = bad.events + (('EF', fid, K),)
    return [(ok, opt_some(I_, d[2], v)), (bad, opt_none(I_, d[2]))]


def T_elem(I_, d):
    return I_.T.fields(d[2], 1)[0][1]


@probe
def m_elem_write(I_, st, fn, vals, d):
    K = const_arg(fn)
    p = I_.as_ptr(vals[0])
    t = I_.T.pointee(fn['sig'][0][0])
    v = I_.load(st, p[1], p[2], t)
    w = I_.T.pointee(fn['sig'][0][1])
    if I_.T.name(w).endswith('SizeCalculatorCollector'):
        # a writer which only counts: the element adds what bytes_needed says
        q = I_.as_ptr(vals[1])
        x = I_.load(st, q[1], q[2], I_.usize)
        e = ('call', 'eb', v, I_.usize)
        st.facts._clamp(e, 0, 1 << 20)
        I_.store(st, q[1], q[2], I_.usize, add(x, e))
        return TRUE
    ok = st
    bad = st.copy()
    ok.events = ok.events + (('EW', v, K),)
    fid = ('fail', bad.fresh('fail'), bad.ks)
    bad.events = bad.events + (('EWF', fid, K),)
    return [(ok, TRUE), (bad, FALSE)]


@probe
def m_elem_bytes(I_, st, fn, vals, d):
    """bytes_needed of an opaque element"""
    p = I_.as_ptr(vals[0])
    t = I_.T.pointee(fn['sig'][0][0])
    v = I_.load(st, p[1], p[2], t)
    e = ('call', 'eb', v, I_.usize)
    st.facts._clamp(e, 0, 1 << 20)
    return e


@probe
def m_elem_drop(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    t = I_.T.pointee(fn['sig'][0][0])
    v = I_.load(st, p[1], p[2], t)
    st.events = st.events + (('D', v),)
    if has_undef(I_, v, t):
        I_.oblige(st, 'drop', False, 'destructor run on an uninitialised value')
    return I_.zst(d[2])


@probe
def m_live(I_, st, fn, vals, d):
    """a value without a size comes to life or is dropped"""
    c = as_cond(vals[0])
    if not isint(c):
        raise Imprecise('live')
    st.events = st.events + (('live', I(1 if c[1] else -1)),)
    return I_.zst(d[2])


def alive(evs, f):
    n = ZERO
    for e in evs:
        if e[0] == 'live':
            n = add(n, e[1])
        elif e[0] == 'loop':
            per = {alive(b[0], f) for b in e[4]}
            if len(per) > 1:
                raise Imprecise('the iterations of a loop create different numbers of values')
            for p in per:
                if not isint(p):
                    raise Imprecise('an iteration of a loop creates %s values' % show(p))
                n = add(n, mulc(e[2], p[1]))
    return n


@probe
def m_alive(I_, st, fn, vals, d):
    """how many of them are alive"""
    return alive(st.events, st.facts)


@probe
def m_any(I_, st, fn, vals, d):
    i = st.fresh('any')
    return I_.sym(('S', ('any%d' % i,) + st.ks if st.ks else 'any%d' % i, d[2]), d[2])


@probe
def m_mark(I_, st, fn, vals, d):
    st.events = st.events + (('mark', const_arg(fn)) + tuple(vals),)
    return I_.zst(d[2])


@probe
def m_assume(I_, st, fn, vals, d):
    if not st.facts.assume(as_cond(vals[0]), True, log=False):
        raise End(('dead', 'assume'))
    return I_.zst(d[2])


def text_arg(I_, st, v):
    """a literal text argument"""
    p = I_.as_ptr(v)
    if p[3] is not None and isint(p[3]):
        b = I_.block(st, p[1])
        if b.init is not None and b.init[0] == 'bytes':
            return bytes(b.init[1][p[2][1]:p[2][1] + p[3][1]]).decode()
    return '?'


def linear(c):
    return not contains(c, lambda x: x[0] in ('mul', 'op', 'sum', 'un'))


def settle_cond(st, c):
    r = st.facts.decide(c)
    if r is None:
        no, yes = st.facts.excluded(c, True), st.facts.excluded(c, False)
        if no and yes:
            raise End(('dead', 'check'))
        if no:
            return False
        if yes:
            return True
    return r


def counterexample(st, c):
    """a value of the only unknown of a condition beyond linear arithmetic for which the facts hold and the condition
    does not: the facts which mention it must all become constants, so that nothing else can rule the value out"""
    xs = leaves_of(c)
    if len(xs) != 1:
        return None
    x = next(iter(xs))
    f = st.facts
    lo, hi = f.bounds(x)
    def has(e):
        return contains(e, lambda y: y == x)
    conds = [(e, v) for e, v in list(f.log) + list(f.raw.items()) if has(e)]
    lins = [e for e in f.lins if has(e)]
    ivs = [(e, r) for e, r in f.iv.items() if e != x and has(e)]
    nes = [(e, r) for e, r in f.ne.items() if has(e)]
    for v in sorted({lo, lo + 1, lo + 2, 1, 2, 3, 5, 7, 8, 9, 100, 255, 256, 257, 4095, 4096, 4097, 12345, 65535, 65536, 65537, (1 << 32) - 1, 1 << 32, hi}):
        if not lo <= v <= hi:
            continue
        m = {x: I(v)}
        def at(e):
            return subst(e, m)
        z = at(c)
        if not (isint(z) and not z[1]):
            continue
        zs = [(at(e), w) for e, w in conds]
        if not all(isint(e) and bool(e[1]) == bool(w) for e, w in zs):
            continue
        if not all(isint(e) and e[1] >= 0 for e in map(at, lins)):
            continue
        zs = [(at(e), r) for e, r in ivs]
        if not all(isint(e) and r[0] <= e[1] <= r[1] for e, r in zs):
            continue
        zs = [(at(e), r) for e, r in nes]
        if not all(isint(e) and e[1] not in r for e, r in zs):
            continue
        return x, v
    return None


def leaves_of(c):
    """the unknowns of an expression made of arithmetic only; None in the set stands for anything else"""
    t = c[0]
    if t == 'i':
        return set()
    if t == 'lin':
        return set().union(*[leaves_of(x) for x, _ in c[2]])
    if t in ('not', 'eq', 'lt', 'le', 'mul'):
        return set().union(*[leaves_of(x) for x in c[1:] if isinstance(x, tuple)])
    if t == 'op':
        return set().union(*[leaves_of(x) for x in c[1:] if isinstance(x, tuple)])
    if t in ('s', 'len', 'cap', 'j') or t not in ('agg', 'ptr', 'fn', 'str', 'vec', 'un', 'sum', 'call', 'ite', 'slt', 'cat', 'byte', 'ext', 'trunc'):
        return {c}
    return {None, c}


@probe
def m_check(I_, st, fn, vals, d):
    """a condition which the specification demands at this point"""
    what = text_arg(I_, st, vals[0])
    c = as_cond(vals[1])
    r = settle_cond(st, c)
    und = r is None and not linear(c) and counterexample(st, c) is None
    st.events = st.events + (('check', what, 'und' if und else r, c),)
    if r is None and not st.facts.assume(c, True, log=False):
        raise End(('dead', 'check'))
    return I_.zst(d[2])


def boundaries(b, off, out, depth=0):
    for w in b.log:
        if w[0] in ('bulk', 'copy', 'havoc') and w[1] is not None:
            out.append(sub(w[1], off))
            out.append(sub(add(w[1], w[2]), off))
            if w[0] == 'copy' and depth < 6:
                boundaries(w[3], add(w[4], sub(off, w[1])), out, depth + 1)
        elif w[0] == 'w':
            out.append(sub(w[1], off))
            out.append(sub(add(w[1], I(w[2])), off))
    for o, e in b.entries.items():
        out.append(sub(I(o), off))
        out.append(sub(I(o + e[0]), off))


def each_byte(I_, st, blocks, n, test):
    """test(state, j) for the bytes j < n of ranges (block, offset), with case splits at the limits of what was
    written to them; True, or the first complaint"""
    if st.facts.decide(mk_cmp('Eq', n, ZERO)):
        return True
    k = 0
    while ('j', 's', k) in st.facts.iv:
        k += 1
    J = ('j', 's', k)
    f = st.facts.copy()
    f._clamp(J, 0, ISIZE_MAX)
    if not f.assume(mk_cmp('Lt', J, n), True, log=False):
        return True
    bs = []
    for b, off in blocks:
        boundaries(I_.block(st, b), off, bs)

    def go(f, depth, J=J):
        s2 = st.copy()
        s2.facts = f
        try:
            return test(s2, J)
        except NeedCase as e:
            if depth > 24:
                raise
            for v in (True, False):
                g = f.copy()
                if g.assume(e.cond, v, log=False) and not g._infeasible(atoms_of(e.cond)):
                    r = go(g, depth + 1, J)
                    if r is not True:
                        return r
            return True
        except Imprecise as e:
            if depth > 12 or isint(J):
                raise
            for b in bs:
                c = mk_cmp('Lt', J, b)
                if f.decide(c) is None:
                    for v in (True, False):
                        g = f.copy()
                        if g.assume(c, v, log=False):
                            r = go(g, depth + 1)
                            if r is not True:
                                return r
                    return True
            raise
    hi = st.facts.bounds(n)[1]
    if hi <= 32:
        for j in range(hi):
            f = st.facts.copy()
            if f.assume(mk_cmp('Lt', I(j), n), True, log=False):
                r = go(f, 0, I(j))
                if r is not True:
                    return r
        return True
    return go(f, 0)


def same_bytes(I_, st, p, q, n):
    """True when [p, p+n) and [q, q+n) hold the same bytes, else a description of where they differ"""
    def test(s2, J):
        x = I_.load(s2, p[1], add(p[2], J), I_.u8)
        y = I_.load(s2, q[1], add(q[2], J), I_.u8)
        f = s2.facts
        if x == y or f.decide(mk_cmp('Eq', x, y)):
            return True
        if x[0] == 'elem' and y[0] == 'elem' and x[1] == y[1] and x[3:] == y[3:] and f.decide(mk_cmp('Eq', x[2], y[2])):
            return True
        return '%s instead of %s' % (show(x), show(y))
    return each_byte(I_, st, [(p[1], p[2]), (q[1], q[2])], n, test)


@probe
def m_init(I_, st, fn, vals, d):
    """the specification demands that these bytes hold values"""
    what = text_arg(I_, st, vals[0])
    p, n = I_.as_ptr(vals[1]), I_.num(vals[2])
    r = each_byte(I_, st, [(p[1], p[2])], n, lambda s2, J: I_.load(s2, p[1], add(p[2], J), I_.u8) != UNDEF)
    st.events = st.events + (('check', what, r, TRUE),)
    return I_.zst(d[2])


@probe
def m_same(I_, st, fn, vals, d):
    """the specification demands that two ranges of memory hold the same bytes"""
    what = text_arg(I_, st, vals[0])
    p, q, n = I_.as_ptr(vals[1]), I_.as_ptr(vals[2]), I_.num(vals[3])
    if st.facts.decide(mk_cmp('Eq', n, ZERO)):
        return I_.zst(d[2])
    I_.check_access(st, p[1], p[2], n, 'compared range')
    I_.check_access(st, q[1], q[2], n, 'compared range')
    r = same_bytes(I_, st, p, q, n)
    st.events = st.events + (('check', what + ('' if r is True else ' (%s)' % r), r is True, TRUE),)
    return I_.zst(d[2])


@probe
def m_iserr(I_, st, fn, vals, d):
    """the specification demands that this error is the one reported by the source or sink"""
    what = text_arg(I_, st, vals[0])
    p = I_.as_ptr(vals[1])
    v = I_.load(st, p[1], p[2], fn['args'][0])
    ok = contains(v, lambda x: x[0] == 'call' and x[1] == 'err')
    st.events = st.events + (('check', what, ok, TRUE),)
    return I_.zst(d[2])


@probe
def m_source(I_, st, fn, vals, d):
    """where the position and the contents of the stream under analysis are kept"""
    I_.src = [I_.as_ptr(v) for v in vals]
    return I_.zst(d[2])


@probe
def m_set_world(I_, st, fn, vals, d):
    I_.world = I_.as_ptr(vals[0])
    return I_.zst(d[2])


@probe
def m_world(I_, st, fn, vals, d):
    if I_.world is None:
        raise Imprecise('operating system')
    return I_.world


# functions of std and the operating system which are replaced by functions of the corpus (corpus/src/file.rs)
STUBS = {
    'std::fs::File::open': 'file_open', 'std::fs::File::create': 'file_create', 'std::fs::OpenOptions::new': 'opt_new',
    'std::fs::File::options': 'opt_new',
    'std::fs::OpenOptions::read': 'opt_read', 'std::fs::OpenOptions::write': 'opt_write', 'std::fs::OpenOptions::append': 'opt_append',
    'std::fs::OpenOptions::truncate': 'opt_trunc', 'std::fs::OpenOptions::create': 'opt_create', 'std::fs::OpenOptions::create_new': 'opt_new_file',
    'std::fs::OpenOptions::open': 'opt_open', 'std::fs::File::metadata': 'file_metadata', 'std::fs::Metadata::len': 'metadata_len',
    '<std::fs::File as std::os::fd::AsRawFd>::as_raw_fd': 'file_fd', 'std::io::error::<impl std::io::Error>::last_os_error': 'last_error', 'std::io::Error::last_os_error': 'last_error',
    '<std::fs::File as std::io::Write>::write': 'file_write', '<std::fs::File as std::io::Write>::flush': 'file_flush',
    'std::fs::File::sync_all': 'file_sync', 'std::fs::File::sync_data': 'file_sync',
    'std::io::BufWriter::<W>::new': 'bw_new', 'std::io::BufWriter::<W>::with_capacity': 'bw_cap', 'std::io::BufWriter::<W>::into_inner': 'bw_into_inner',
    '<std::io::BufWriter<W> as std::io::Write>::write': 'bw_write', '<std::io::BufWriter<W> as std::io::Write>::write_all': 'bw_write_all',
    '<std::io::BufWriter<W> as std::io::Write>::flush': 'bw_flush',
}
DROPS = {'std::fs::File': 'file_drop', 'std::io::BufWriter<std::fs::File>': 'bw_drop'}


def stub_fn(I_, name):
    t = I_.p.__dict__.setdefault('_stubs', {})
    if not t:
        for i, f in enumerate(I_.p.fns):
            if f['krate'] == 'corpus' and f['path'].startswith('file::stub::'):
                t[f['path'][len('file::stub::'):]] = i
    return t.get(name)


def stub_of(fn):
    n = STUBS.get(fn['path'])
    if n is None and fn['body'] is None and fn['raw'].split('::')[-1] in ('mmap', 'madvise', 'munmap'):
        n = fn['raw'].split('::')[-1]
    return n


def call_stub(I_, st, fn, vals, d):
    fid = stub_fn(I_, stub_of(fn)) if I_.world is not None else None
    if fid is None:
        raise Imprecise('call of ' + fn['path'])
    sig = I_.p.fns[fid]['sig']
    if list(sig[0]) != list(fn['sig'][0]) or sig[1] != fn['sig'][1]:
        raise Imprecise('call of %s with other types than expected' % fn['path'])
    I_.push_frame_call(st, fid, vals, d)
    return PUSHED


# ---- the buffer of a stream reader as an abstract queue ------------------------------------------------------------
# Holds the bytes [start, stream position) of the stream.  The implementation is decided against the same contract (spec/io.py).
class Queue:
    def __init__(self, I_, st):
        self.I_, self.st = I_, st

    def cell(self, i):
        s = self.I_.src[i]
        return self.I_.num(self.I_.load(self.st, s[1], s[2], self.I_.usize))

    def put(self, i, v):
        s = self.I_.src[i]
        self.I_.store(self.st, s[1], s[2], self.I_.usize, v)

    def pos(self):
        p = self.cell(1)
        self.st.facts.assume(mk_cmp('Le', p, self.I_.src[0][3]), True, log=False)
        return p

    def start(self):
        return self.cell(2)

    def cap(self):
        c = self.cell(3)
        self.st.facts.assume(mk_cmp('Le', c, I(ISIZE_MAX)), True, log=False)
        return c

    def take(self, n):
        self.put(2, add(self.start(), n))

    def grow(self, c):
        self.put(3, c)

    def len(self):
        f = self.st.facts
        n = sub(self.pos(), self.start())
        f.assume(mk_cmp('Le', ZERO, n), True, log=False)
        f.assume(mk_cmp('Le', n, self.cap()), True, log=False)
        return n

    def src(self, off):
        s = self.I_.src[0]
        return ('ptr', s[1], add(s[2], off), None)


def queue(f):
    def g(I_, st, fn, vals, d):
        if I_.src is None:
            return None
        return f(I_, st, fn, vals, d, Queue(I_, st))
    return g


def demand(st, what, c):
    r = settle_cond(st, c)
    if r is not True:
        st.events = st.events + (('check', what, r, c),)
        if not st.facts.assume(c, True, log=False):
            raise End(('dead', 'demand'))


@key('speedy::circular_buffer::len')
@queue
def q_len(I_, st, fn, vals, d, q):
    return q.len()


@key('speedy::circular_buffer::capacity')
@queue
def q_cap(I_, st, fn, vals, d, q):
    q.len()
    return q.cap()


@key('speedy::circular_buffer::with_capacity')
@queue
def q_new(I_, st, fn, vals, d, q):
    demand(st, 'the buffer is not empty at first', mk_cmp('Eq', q.len(), ZERO))
    q.grow(I_.num(vals[0]))
    return I_.sym(('call', 'queue', st.fresh('queue'), d[2]), d[2])


@key('speedy::circular_buffer::is_empty')
@queue
def q_empty(I_, st, fn, vals, d, q):
    return mk_cmp('Eq', q.len(), ZERO)


@key('speedy::circular_buffer::reserve')
@queue
def q_reserve(I_, st, fn, vals, d, q):
    need = add(q.len(), I_.num(vals[1]))
    demand(st, 'the buffer is asked to grow beyond what can be addressed', mk_cmp('Le', need, I(USIZE_MAX)))
    a, b = fork(I_, st, mk_cmp('Le', need, q.cap()))
    out = []
    if a is not None:
        out.append((a, I_.zst(d[2])))
    if b is not None:
        c = ('cap', b.fresh('cap'), b.ks)
        b.facts._clamp(c, 0, ISIZE_MAX)
        if b.facts.assume(mk_cmp('Le', need, c), True, log=False):
            Queue(I_, b).grow(c)
            out.append((b, I_.zst(d[2])))
    return out


@key('speedy::circular_buffer::try_append_with')
@queue
def q_append(I_, st, fn, vals, d, q):
    T = I_.T
    size = I_.num(vals[1])
    n = q.len()
    need = add(n, size)
    call = None
    for b in fn['body']['blocks']:
        t = b[1]
        if t[0] == 'call' and isinstance(t[1], int):
            g = I_.p.fns[t[1]]
            if g['body'] is not None and g['body']['argc'] == 2 and g['body']['locals'][1] == fn['sig'][0][2]:
                call = t[1]
    if call is None:
        raise Imprecise('how the buffer is filled is not recognised')
    demand(st, 'the buffer is asked to grow beyond what can be addressed', mk_cmp('Le', need, I(USIZE_MAX)))
    states = []
    a, b = fork(I_, st, mk_cmp('Le', need, q.cap()))
    if a is not None:
        states.append(a)
    if b is not None:
        # grows: an allocation which cannot be made ends the process
        c = ('cap', b.fresh('cap'), b.ks)
        b.facts._clamp(c, 0, ISIZE_MAX)
        if b.facts.assume(mk_cmp('Le', need, c), True, log=False):
            Queue(I_, b).grow(c)
            states.append(b)
    out = []
    for s in states:
        alts = []
        x, y = fork(I_, s, mk_cmp('Eq', size, ZERO))
        if x is not None:
            alts.append((x, ZERO))
        if y is not None:
            c = ('chunk', y.fresh('chunk'), y.ks)
            y.facts._clamp(c, 1, ISIZE_MAX)
            if y.facts.assume(mk_cmp('Le', c, size), True, log=False):
                alts.append((y, c))
        for z, c in alts:
            blk = heap_block(I_, z, c, 1)
            I_.wblock(z, blk).init = ('zero',)
            p0 = Queue(I_, z).pos()

            def cont(self_, st_, fr, v, p0=p0, blk=blk, c=c, rty=d[2]):
                m = self_.settle(st_, v, rty)
                if m[0] != 'agg':
                    raise Imprecise('outcome of filling the buffer')
                if self_.T[rty]['variants'][m[2]]['n'] == 'Ok':
                    k = self_.num(m[3][0])
                    q2 = Queue(self_, st_)
                    demand(st_, 'more bytes are added to the buffer than there is room for', mk_cmp('Le', k, c))
                    demand(st_, 'the buffer counts other bytes than were read from the stream', mk_cmp('Eq', sub(q2.pos(), p0), k))
                    if not st_.facts.decide(mk_cmp('Eq', k, ZERO)):
                        s0 = q2.src(p0)
                        r = same_bytes(self_, st_, ('ptr', blk, ZERO, None), s0, k)
                        if r is not True:
                            st_.events = st_.events + (('check', 'other bytes are buffered than were read from the stream (%s)' % r, False, TRUE),)
                else:
                    q2 = Queue(self_, st_)
                    demand(st_, 'bytes read from the stream are lost', mk_cmp('Eq', q2.pos(), p0))
                return self_.finish_call(st_, fr.dest, v, fr.target)
            cf = I_.p.fns[call]
            chunk = ('ptr', blk, ZERO, c)
            if I_.T[cf['body']['locals'][2]]['k'] == 'tuple':
                chunk = ('agg', cf['body']['locals'][2], 0, (chunk,))
            push_call(I_, z, call, [vals[2], chunk], d, cont)
            out.append(z)
    raise Split(out)


def push_call(I_, st, fid, args, d, cont):
    fn = I_.p.fns[fid]
    if fn['body'] is None:
        raise Imprecise('closure without a body')
    I_.push_frame(st, fid, args, d, I_.cur_target, cont)


@key('speedy::circular_buffer::consume_into')
@queue
def q_consume_into(I_, st, fn, vals, d, q):
    out = I_.as_ptr(vals[1])
    n = out[3]
    demand(st, 'more bytes are taken from the buffer than it holds', mk_cmp('Le', n, q.len()))
    I_.copy_mem(st, q.src(q.start()), out, n)
    q.take(n)
    return I_.zst(d[2])


@key('speedy::circular_buffer::consume')
@queue
def q_consume(I_, st, fn, vals, d, q):
    n = I_.num(vals[1])
    demand(st, 'more bytes are taken from the buffer than it holds', mk_cmp('Le', n, q.len()))
    q.take(n)
    return I_.zst(d[2])


def q_split(I_, st, q, n, d):
    """a prefix of the buffered bytes in one or two pieces"""
    T = I_.T
    oty = T.fields(d[2])[1][1]
    s1, s2 = st, st.copy()
    base = q.start()
    p = q.src(base)
    out = [(s1, ('agg', d[2], 0, (('ptr', p[1], p[2], n), opt_none(I_, oty))))]
    c = ('chunk', s2.fresh('chunk'), s2.ks)
    s2.facts._clamp(c, 0, ISIZE_MAX)
    if s2.facts.assume(mk_cmp('Lt', c, n), True, log=False):
        p2 = q.src(add(base, c))
        out.append((s2, ('agg', d[2], 0, (('ptr', p[1], p[2], c), opt_some(I_, oty, ('ptr', p2[1], p2[2], sub(n, c)))))))
    return out


@key('speedy::circular_buffer::as_slices_of_length')
@queue
def q_slices_len(I_, st, fn, vals, d, q):
    n = I_.num(vals[1])
    demand(st, 'more bytes are looked at than the buffer holds', mk_cmp('Le', n, q.len()))
    return q_split(I_, st, q, n, d)


@key('speedy::circular_buffer::as_slices')
@queue
def q_slices(I_, st, fn, vals, d, q):
    return q_split(I_, st, q, q.len(), d)


@key('std::io::error::kind', 'alloc::io::error::kind', 'core::io::error::kind')
def io_kind(I_, st, fn, vals, d):
    """the kind of an opaque error of a source or sink"""
    p = I_.as_ptr(vals[0])
    v = I_.load(st, p[1], p[2], I_.T.pointee(fn['sig'][0][0]))
    if v[0] == 'call' and v[1] == 'ioerr':
        return v[2]
    if contains(v, lambda x: x[0] == 'call' and x[1] == 'err'):
        return I_.sym(('call', 'iokind', v, d[2]), d[2])
    return None


@key('std::io::error::is_interrupted', 'alloc::io::error::is_interrupted', 'core::io::error::is_interrupted')
def io_interrupted(I_, st, fn, vals, d):
    p = I_.as_ptr(vals[0])
    v = I_.load(st, p[1], p[2], I_.T.pointee(fn['sig'][0][0]))
    if contains(v, lambda x: x[0] == 'call' and x[1] == 'err'):
        t = I_.T.byname.get('std::io::ErrorKind')
        for x in I_.T[t]['variants'] if t is not None else ():
            if x['n'] == 'Interrupted':
                return mk_cmp('Eq', ('discr', I_.sym(('call', 'iokind', v, t), t)), I(x['d']))
    return None


# ---- pure functions of other crates: uninterpreted, decided by their arguments ---------------------------------------
@key('smallvec::as_slice', 'smallvec::from', 'std::time::duration_since', 'std::time::checked_add', 'std::time::checked_sub', 'chrono::offset::TimeZone::timestamp_opt', 'chrono::offset::single', 'chrono::offset::earliest',
     'chrono::offset::latest', 'chrono::datetime::timestamp', 'chrono::datetime::timestamp_subsec_nanos', 'regex::regex::string::new',
     'regex::regex::string::as_str', 'chrono::datetime::from_timestamp')
def m_pure(I_, st, fn, vals, d):
    T = I_.T
    args = []
    for v, t in zip(vals, fn['sig'][0]):
        if T.kind(t) == 'ref':
            p = I_.as_ptr(v)
            pt = T.pointee(t)
            if T.kind(pt) in ('str', 'slice'):
                args.append(content(I_, st, p, p[3]))
            else:
                args.append(I_.load(st, p[1], p[2], pt))
        else:
            args.append(v)
    rty = d[2]
    return I_.sym(('call', 'ext:' + key_of(fn)) + tuple(args) + (rty,), rty)


@key('std::time::add', 'std::time::sub', 'std::time::add_assign', 'std::time::sub_assign')
def m_time_arith(I_, st, fn, vals, d):
    """time arithmetic panics when the result cannot be represented"""
    a, b = fork(I_, st, as_cond(I_.sym(('call', 'ext:representable') + tuple(vals) + (I_.bool,), I_.bool)))
    out = []
    if b is not None:
        out.append((end(b, ('panic', fn['raw'])), None))
    if a is not None:
        opt = I_.T.byname.get('std::option::Option<%s>' % I_.T.name(d[2]))
        if opt is None or 'assign' in fn['raw']:
            raise Imprecise('call of ' + fn['raw'])
        k = 'checked_' + fn['raw'].split('::')[-1]
        v = I_.sym(('call', 'ext:std::time::' + k) + tuple(vals) + (opt,), opt)
        a.facts.assume(mk_cmp('Eq', ('discr', v), I(1)), True)
        out.append((a, I_.field(v, opt, 1, 0)))
    return out


@key('chrono::offset::TimeZone::timestamp')
def m_may_panic(I_, st, fn, vals, d):
    raise End(('panic', fn['raw']))


@key('alloc::fmt::format', 'alloc::string::to_string', 'alloc::io::error::new', 'std::io::error::new', 'std::io::Error::new', 'std::io::Error::other', 'alloc::io::error::other')
def m_message(I_, st, fn, vals, d):
    """error messages are not part of any property; kinds are"""
    if len(vals) == 2 and I_.T.name(fn['sig'][0][0]).endswith('ErrorKind'):
        return I_.sym(('call', 'ioerr', vals[0], d[2]), d[2])
    if fn['path'].endswith('::other'):
        t = I_.T.byname.get('std::io::ErrorKind')
        k = [i for i, x in enumerate(I_.T[t]['variants']) if x['n'] == 'Other'] if t is not None else []
        if k:
            return I_.sym(('call', 'ioerr', ('agg', t, k[0], ()), d[2]), d[2])
    return I_.sym(('call', 'msg', I_.cur_where if hasattr(I_, 'cur_where') else 0, d[2]), d[2])
