"""Bit-level normal form of integer terms: every bit is 0, 1, a bit of an atom or its complement.  Decides equality
of differently written shifts, masks, byte swaps and disjoint sums."""
from .expr import isint, default_hi, lin_parts, byte_size


class NoBits(Exception):
    pass


def neg(b):
    if b == 0 or b == 1:
        return 1 - b
    if b[0] == '~':
        return b[1]
    return ('~', b)


def atom(e, n, facts):
    lo, hi = facts.bounds(e)
    out = []
    top = hi.bit_length()
    # a common prefix of all values in [lo, hi]
    k = top
    while k > 0 and (lo >> (k - 1)) == (hi >> (k - 1)):
        k -= 1
    for i in range(n):
        if i >= top:
            out.append(0)
        elif i >= k:
            out.append((hi >> i) & 1)
        else:
            out.append((e, i))
    return out


def bv(e, n, facts, depth=0):
    """n lowest bits of e"""
    if depth > 40:
        raise NoBits
    t = e[0]
    if t == 'i':
        return [(e[1] >> i) & 1 for i in range(n)]
    if t == 'trunc':
        m = min(n, e[1])
        return bv(e[2], m, facts, depth + 1) + [0] * (n - m)
    if t == 'sub' and isinstance(e[2], int) and isinstance(e[3], int):
        m = min(n, 8 * e[3])
        w = byte_size(e[1])
        x = bv(e[1], max(8 * (e[2] + e[3]), 8 * w if w else 0), facts, depth + 1)
        return x[8 * e[2]:8 * e[2] + m] + [0] * (n - m)
    if t == 'cat':
        out = []
        for x, s in e[1]:
            if x[0] == 'undef':
                raise NoBits
            out += bv(x, 8 * s, facts, depth + 1)
        return (out + [0] * n)[:n]
    if t == 'bswap':
        x = bv(e[2], e[1], facts, depth + 1)
        out = []
        for i in range(e[1] // 8 - 1, -1, -1):
            out += x[8 * i:8 * i + 8]
        return (out + [0] * n)[:n]
    if t == 'op':
        name, w = e[1], e[2]
        if name in ('BitAnd', 'BitOr', 'BitXor'):
            a, b = bv(e[3], w, facts, depth + 1), bv(e[4], w, facts, depth + 1)
            out = []
            for x, y in zip(a, b):
                if name == 'BitAnd':
                    r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else None
                elif name == 'BitOr':
                    r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else None
                else:
                    r = y if x == 0 else x if y == 0 else neg(y) if x == 1 else neg(x) if y == 1 else 0 if x == y else None
                if r is None:
                    r = ('op', name) + tuple(sorted((x, y), key=repr))
                out.append(r)
            return (out + [0] * n)[:n]
        if name in ('Shl', 'Shr') and isint(e[4]):
            k = e[4][1] % w
            a = bv(e[3], w, facts, depth + 1)
            out = [0] * k + a[:w - k] if name == 'Shl' else a[k:] + [0] * k
            return (out + [0] * n)[:n]
        if name == 'sShr' and isint(e[4]):
            k = e[4][1] % w
            a = bv(e[3], w, facts, depth + 1)
            return (a[k:] + [a[-1]] * k + [0] * n)[:n]
        if name == 'Div' and isint(e[4]) and e[4][1] and e[4][1] & (e[4][1] - 1) == 0:
            k = e[4][1].bit_length() - 1
            a = bv(e[3], max(w, n + k), facts, depth + 1)
            return (a[k:] + [0] * n)[:n]
        if name == 'Rem' and isint(e[4]) and e[4][1] and e[4][1] & (e[4][1] - 1) == 0:
            k = e[4][1].bit_length() - 1
            return (bv(e[3], min(k, n), facts, depth + 1) + [0] * n)[:n]
    if t == 'sext' and isinstance(e[1], int) and isinstance(e[2], int):
        a = bv(e[3], e[1], facts, depth + 1)
        return ((a + [a[-1]] * max(0, e[2] - e[1]))[:e[2]] + [0] * n)[:n]
    if t == 'lin':
        lo, hi = facts.bounds(e)
        c, ts = e[1], e[2]
        if lo >= 0:
            if len(ts) == 1 and ts[0][1] == -1 and c >= 0 and (c & (c + 1)) == 0 and facts.bounds(ts[0][0])[1] <= c:
                m = c.bit_length()
                return ([neg(b) for b in bv(ts[0][0], m, facts, depth + 1)] + [0] * n)[:n]
            if c >= 0 and all(k > 0 and (k & (k - 1)) == 0 for _, k in ts):
                out = bv(('i', c), n, facts)
                for x, k in ts:
                    s = k.bit_length() - 1
                    y = ([0] * s + bv(x, max(n - s, 0), facts, depth + 1))[:n]
                    for i in range(n):
                        if y[i] != 0 and out[i] != 0:
                            return atom(e, n, facts)
                        out[i] = out[i] if y[i] == 0 else y[i]
                return out
            if c < 0 and all(k > 0 and (k & (k - 1)) == 0 for _, k in ts):
                # clearing bits that are known to be set
                pos = bv(('lin', 0, ts) if len(ts) > 1 or ts[0][1] != 1 else ts[0][0], n, facts, depth + 1)
                out = list(pos)
                for i in range(n):
                    if (-c >> i) & 1:
                        if out[i] != 1:
                            return atom(e, n, facts)
                        out[i] = 0
                return out
    if t in ('not', 'eq', 'lt'):
        return ([(e, 0)] if t != 'not' else [neg((e[1], 0))]) + [0] * (n - 1)
    return atom(e, n, facts)


def equal(a, b, facts, n=128):
    try:
        return bv(a, n, facts) == bv(b, n, facts)
    except NoBits:
        return False
