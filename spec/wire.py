"""Decide one entry point against its grammar."""
import os
import time
from engine.prog import Prog
from engine.interp import Interp, show
from engine.expr import *
from engine.mem import Imprecise
from .grammar import *
from .trace import *


def args_for(I_, fid):
    b = I_.p.fns[fid]['body']
    return [I_.sym(('S', 'a%d' % i, b['locals'][i + 1]), b['locals'][i + 1]) for i in range(b['argc'])]


def arg_ref(I_, m, fid, i):
    """the value behind reference argument i"""
    ty = I_.p.fns[fid]['body']['locals'][i + 1]
    return m.deref(I_.sym(('S', 'a%d' % i, ty), ty), ty)


def run_root(I_, name):
    fid = I_.p.roots[name]
    I_.total = 0
    return fid, I_.run(I_.start(fid, args_for(I_, fid)))


def result_of(I_, st, ty):
    """('ok', V) or ('err', error value, type)"""
    m = Machine(I_, st)
    v = V(m, st.retv, ty)
    n = v.variant_name()
    if n == 'Ok':
        return 'ok', v.field(0, 0)
    return 'err', v.field(0, 1)


def err_kind(v):
    """name of the ErrorKind of a concrete speedy error, None for an opaque error"""
    e = v
    T = v.T
    while T.kind(e.ty) == 'adt' and not T.is_enum(e.ty):
        fl = [i for i, (o, f) in enumerate(T.fields(e.ty)) if T.size(f)]
        if len(fl) != 1:
            return None
        e = e.field(fl[0])
    if T.is_enum(e.ty):
        x = e.m.settle(e.e, e.ty)
        if x[0] == 'agg':
            return T[e.ty]['variants'][x[2]]['n']
    return None


def is_probe_err(v, fid):
    x = v.e
    return x[0] == 'call' and x[1] == 'err' and (fid is None or x[2] == fid)


CATS = [('a failed', 'err'), ('reading continues after a failed', 'err'), ('writing continues after a failed', 'err'), ('truncated', 'err'),
        ('reading continues after the input', 'err'), ('invalid', 'inv'), ('reading continues after invalid', 'inv'), ('a complete', 'inv'),
        ('the outcome', 'inv'), ('an invalid', 'inv'), ('error kind', 'inv'), ('a value that cannot', 'inv'), ('output is produced', 'inv'),
        ('input rejected', 'short'), ('decoded', 'value'), ('length of the decoded', 'value'), ('the decoded', 'value')]


def cat_of(msg, default):
    for p, c in CATS:
        if msg.startswith(p):
            return c
    return default


class Report:
    fns = frozenset()
    sample = ''

    def __init__(self, root):
        self.root = root
        self.default = {'w': 'wire', 'x': 'wire', 'r': 'wire', 'c': 'wire', 'n': 'need', 'm': 'min'}.get(root.split('_')[1], 'wire')
        self.paths = 0
        self.bad = []       # (message, path description)
        self.undecided = []
        self.steps = 0
        self.obligations = 0
        self.owned = 0
        self.allocs = 0
        self.odd = []
        self.unsafe_ = []
        self.unproved = []

    def add(self, msg, st=None, cat=None):
        self.bad.append((cat or cat_of(msg, self.default), msg, describe(st)))

    def und(self, msg, st=None):
        self.undecided.append(('und', msg, describe(st)))


def describe(st):
    if st is None:
        return ''
    from engine.probe_cli import shev
    ev = '; '.join(shev(e) for e in st.events if e[0] in STREAM or e[0] == 'loop')
    return ('trace [%s] when [%s]' % (ev, ', '.join(show(c) + ('' if v else ' is false') for c, v in st.facts.log)))[:900]


def endian_of(letter, fid, argi):
    if letter in 'LB':
        return letter

    def f(m):
        w = arg_ref(m.I, m, fid, argi)
        return w.field('ctx').variant_name() == 'LittleEndian'
    return f


def each_path(I_, root, rep, fn, partial=None, once=None):
    try:
        fid, rs = run_root(I_, root)
    except Imprecise as x:
        rep.und('analysis: %s' % x)
        return
    rep.steps += I_.total
    rep.fns = frozenset(I_.p.fns[f]['path'] for f in I_.analysed)
    if rs:
        rep.sample = describe(rs[-1])
    for st in rs:
        rep.paths += 1
        if st.out[0] == 'unk':
            if partial:
                partial(st)
            rep.und('%s at %s' % (st.out[1:], st.notes.get('where')), st)
            continue
        if st.out[0] == 'dead':
            continue
        for o in st.obl:
            rep.obligations += 1
            if not o[1]:
                (rep.unproved if o[1] is None else rep.unsafe_).append((o, st))
        if st.out[0] in ('panic', 'ub'):
            fn(fid, st, True)
            continue
        if once:
            once(st)
        one_path(rep, fid, st, fn)


def one_path(rep, fid, st, fn, depth=0):
    try:
        fn(fid, st, False)
    except Infeasible:
        pass
    except Mismatch as x:
        rep.add(str(x), st)
    except Split as x:
        try:
            fs = split_cases(st.facts, x) if depth < 10 else None
        except Undecided:
            fs = None
        if fs is None:
            rep.und(str(x), st)
            return
        for f, c in fs:
            s = st.copy()
            s.facts = f
            one_path(rep, fid, s, fn, depth + 1)
    except Undecided as x:
        rep.und(str(x), st)
    except Imprecise as x:
        rep.und('compare: %s' % x, st)


LOST = ('lost',)


def tokens(x, st, blocks, out):
    """the decoded elements in a value and in the heap blocks it refers to"""
    if not isinstance(x, tuple):
        return
    if x[:1] == ('er',) and len(x) == 5:
        out.append(x)
        return
    if x[:1] == ('H',) and len(x) == 3:
        if x not in st.mem:
            blocks.add(LOST)        # a block of an iteration of a loop
        elif x not in blocks:
            blocks.add(x)
            content_tokens(x, st, blocks, out)
        return
    for y in x:
        tokens(y, st, blocks, out)


def content_tokens(b, st, blocks, out):
    b = st.mem[b]
    for y in b.entries.values():
        tokens(y, st, blocks, out)
    tokens(b.log, st, blocks, out)


def check_owned(st):
    """every decoded element is owned exactly once when a read ends: returned, put into a collection, or dropped"""
    made = [e[1] for e in st.events if e[0] == 'E']
    drops = [e[1] for e in st.events if e[0] == 'D']
    rb, rt = set(), []
    tokens(st.retv, st, rb, rt)
    ret = set(rt)
    ib, it = set(), []
    for e in st.events:
        if e[0] == 'ins':
            tokens(e[2], st, ib, it)
    # the elements of the last, incomplete iteration of a loop are named like those of the complete ones
    lb = set()
    for e in st.events:
        for b in e[4] if e[0] == 'loop' else ():
            lt = []
            for x in b[0]:
                if x[0] == 'ins':
                    tokens(x[2], st, lb, lt)
            d = [x[1] for x in b[0] if x[0] == 'D']
            for x in d:
                if d.count(x) > 1 or x in lt:
                    raise Mismatch('an element is dropped twice: %s' % show(x))
            for x in b[0]:
                if x[0] == 'E' and len(e[4]) == 1 and not mentioned(x[1], st, lt, d):
                    raise Mismatch('an element read in a loop is neither kept nor dropped: %s' % show(x[1]))
    for e in drops:
        if drops.count(e) > 1:
            raise Mismatch('an element is dropped twice: %s' % show(e))
        if e in ret:
            raise Mismatch('an element which is returned is dropped as well: %s' % show(e))
        if e in it:
            raise Mismatch('an element which was put into a collection is dropped as well: %s' % show(e))
    held = set()
    for b in [b for b in st.mem if b[0] == 'H']:
        n = st.notes.get(('dropped', b), 0)
        if n > 1 or (n and b in rb):
            raise Mismatch('a Vec or Box is dropped twice')
        t = []
        content_tokens(b, st, set(), t)
        held.update(t)
        if t and not n and b not in rb and b not in ib and b not in lb and not any(st.notes.get(('dropped', x)) and b in reach(x, st) for x in st.mem if x[0] == 'H'):
            raise Mismatch('a Vec or Box of elements is neither returned nor dropped')
    for e in made:
        if e not in ret and e not in it and e not in held and e not in drops:
            raise Mismatch('an element is neither returned nor dropped: %s' % show(e))


RATIO = 1 << 16      # bytes of memory per byte of input


def check_alloc(st, cap, elastic):
    """memory is requested at once only for what the input is known to contain, or (when the reader cannot tell how much it
    contains) in a way that reports failure.  -> number of requests"""
    n = 0

    def bounded(f, b, have):
        return isint(b) and b[1] <= RATIO or any(f.decide(mk_cmp('Le', b, mulc(h, r))) for h in have for r in (1, RATIO))

    def walk(evs, f, have):
        nonlocal n
        for e in evs:
            if e[0] in ('R', 'P', 'REOF'):
                have.append(e[2])
            elif e[0] == 'can' and e[2]:
                have.append(e[1])
            elif e[0] == 'loop':
                for b in e[4]:
                    g = f.copy()
                    for c, v in b[1]:
                        g.assume(c, v, log=False)
                    walk(b[0], g, list(have))
            elif e[0] in ('A', 'T', 'AF'):
                n += 1
                if e[1] is None:
                    raise Undecided('an allocation is not understood: %s' % e[2])
                if bounded(f, e[1], have):
                    continue
                if e[0] == 'A':
                    raise Mismatch('%s bytes are allocated, on the word of the input, without checking that it is this long' % show(e[1]))
                if cap and not elastic:
                    raise Mismatch('%s bytes are reserved before checking that the input is this long' % show(e[1]))
    walk(st.events, st.facts, [])
    return n


def mentioned(x, st, lt, d):
    if x in lt or x in d:
        return True
    # kept in memory: in a block written by the loop
    for b in st.mem:
        t, bs = [], set()
        content_tokens(b, st, bs, t)
        if LOST in bs or any(y[:3] == x[:3] for y in t):
            return True
    return False


def reach(b, st):
    s, out = set(), []
    content_tokens(b, st, s, out)
    return s


def check_writer(I_, root, g, letter, rep):
    def path(fid, st, panic):
        if panic:
            rep.add('writing ends in %s (%s)' % (st.out[0], st.out[1]), st, st.out[0])
            return
        m = Machine(I_, st)
        v = arg_ref(I_, m, fid, 0)
        t = WTrace(m, st.events, endian_of(letter, fid, 1))
        kind, res = result_of(I_, st, I_.p.fns[fid]['body']['locals'][0])
        try:
            g.enc(t, v)
        except Failed as x:
            if kind != 'err' or not is_probe_err(res, x.fid):
                raise Mismatch('a failed write is not reported to the caller')
            return
        except CanFail:
            if kind != 'err':
                raise Mismatch('output that does not fit is accepted')
            if t.i + 1 < len(t.ev):
                raise Mismatch('writing continues after the output was found too small')
            if err_kind(res) != 'OutputBufferIsTooSmall' and 'EndOfOutput' not in str(err_kind(res)):
                raise Mismatch('error kind %s' % err_kind(res))
            return
        except Invalid as x:
            if kind != 'err':
                raise Mismatch('a value that cannot be encoded is accepted')
            if t.cur() is not None:
                raise Mismatch('output is produced after the value was found not to be encodable')
            if x.kinds and err_kind(res) not in x.kinds:
                raise Mismatch('error kind %s' % err_kind(res))
            return
        t.end()
        if kind != 'ok':
            raise Mismatch('a complete encoding is written but an error is returned')
    each_path(I_, root, rep, path)


def has_empty(g, seen=None):
    """does the grammar contain a sequence whose elements may be encoded in no bytes at all?"""
    seen = seen if seen is not None else []
    if any(g is x for x in seen):
        return False
    seen.append(g)
    if isinstance(g, (list, tuple, set)):
        return any(has_empty(x, seen) for x in g)
    if isinstance(g, dict):
        return any(has_empty(x, seen) for x in g.values())
    if not hasattr(g, 'dec'):
        return False
    if isinstance(g, Seq) and not getattr(g.g, 'min', 0):
        return True
    return any(has_empty(x, seen) for x in vars(g).values())


def check_reader(I_, root, g, letter, rep):
    elastic = has_empty(g)
    def allocs(st):
        try:
            rep.allocs += check_alloc(st, root.startswith('root_c_'), elastic)
        except Mismatch as x:
            rep.add(str(x), st, 'alloc')
        except Undecided as x:
            rep.odd.append(('alloc', str(x), describe(st)))

    def once(st):
        allocs(st)
        rep.owned += 1
        try:
            check_owned(st)
        except Mismatch as x:
            rep.add(str(x), st, 'drop')

    def path(fid, st, panic):
        if panic:
            allocs(st)
            rep.add('decoding ends in %s (%s)' % (st.out[0], st.out[1]), st, st.out[0])
            return
        m = Machine(I_, st)
        t = RTrace(m, st.events, endian_of(letter, fid, 0))
        if g.min:
            t.lower.append(I(g.min))
        kind, res = result_of(I_, st, I_.p.fns[fid]['body']['locals'][0])
        t.outcome = kind
        t.borrow = root.startswith('root_c_')
        try:
            x = g.dec(t)
        except Failed as f:
            if kind != 'err' or not is_probe_err(res, f.fid):
                raise Mismatch('a failed read is not reported to the caller')
            return
        except CanFail:
            if kind != 'err':
                raise Mismatch('truncated input is accepted')
            if t.i + 1 < len(t.ev):
                raise Mismatch('reading continues after the input was found too short')
            return
        except Invalid as x:
            if kind != 'err':
                raise Mismatch('invalid input is accepted')
            if t.cur() is not None:
                raise Mismatch('reading continues after invalid input')
            if x.kinds and err_kind(res) not in x.kinds:
                raise Mismatch('error kind %s instead of %s' % (err_kind(res), x.kinds))
            return
        t.end()
        if kind != 'ok':
            raise Mismatch('a complete valid encoding is rejected (%s)' % err_kind(res))
        x.match(Check(m), res)
    each_path(I_, root, rep, path, allocs, once)


def check_need(I_, root, g, rep):
    def path(fid, st, panic):
        if panic:
            if st.out[1] in ('overflow:Add', 'overflow:Mul'):
                return   # assumption: the size of the encoding fits in a usize
            rep.add('bytes_needed ends in %s (%s)' % (st.out[0], st.out[1]), st, st.out[0])
            return
        m = Machine(I_, st)
        v = arg_ref(I_, m, fid, 0)
        kind, res = result_of(I_, st, I_.p.fns[fid]['body']['locals'][0])
        m.actual = res.e if kind == 'ok' else None
        try:
            want = g.need(m, v)
        except Invalid:
            return       # the value has no encoding
        except Failed:
            want = None
        if kind != 'ok':
            if is_probe_err(res, None):
                return   # an element whose size cannot be computed
            raise Mismatch('bytes_needed fails')
        m.same(res.e, want, 'bytes_needed')
    each_path(I_, root, rep, path)


def check_min(I_, root, g, rep):
    def path(fid, st, panic):
        if panic:
            rep.add('minimum_bytes_needed ends in %s' % st.out[0], st)
            return
        x = st.retv
        if not isint(x):
            raise Undecided('minimum_bytes_needed is not a constant')
        if x[1] > g.min:
            raise Mismatch('minimum_bytes_needed is %d but an encoding can be as short as %d' % (x[1], g.min))
    each_path(I_, root, rep, path)


CHECKS = {'r': check_reader, 'c': check_reader, 'w': check_writer, 'x': check_writer}


def check_case(prog, c, kinds='rcwxnm'):
    out = []
    for k in kinds:
        for e in (c.ends if k in 'rcwx' else ['']):
            root = 'root_%s_%s%s' % (k, c.name, '_' + e if e else '')
            if root not in prog.roots:
                continue
            I_ = Interp(prog)
            rep = Report(root)
            t = time.time()
            try:
                if k in 'rcwx':
                    CHECKS[k](I_, root, c.g, e, rep)
                elif k == 'n':
                    check_need(I_, root, c.g, rep)
                else:
                    check_min(I_, root, c.g, rep)
            except Exception as x:
                if os.environ.get('TB'):
                    raise
                rep.und('%s: %s' % (type(x).__name__, x))
            rep.time = time.time() - t
            for l in (rep.unsafe_, rep.unproved):
                l[:] = [('drop' if o[0] == 'drop' else 'mem', '%s: %s in %s' % (o[0], o[2], o[3]), describe(st)) for o, st in l[:20]]
            out.append(rep)
    return out


if __name__ == '__main__':
    import sys, traceback
    from .corpus import CASES
    p = Prog(sys.argv[1])
    tot = {'ok': 0, 'bad': 0, 'und': 0}
    from .props import run_roots
    sel = [i for i, c in enumerate(CASES) if c.g is not None and (len(sys.argv) <= 2 or any(x in c.name for x in sys.argv[2:]))]
    for i, rs in run_roots(p, [(i, __import__('os').environ.get('KINDS', 'rcwxnm')) for i in sel]):
        if isinstance(rs, str):
            print('CRASH', CASES[i].name, rs)
            tot['bad'] += 1
            continue
        for r in rs:
            for x in r.unsafe_ + r.unproved + r.odd:
                print('OBL', r.root, x[1][:200])
            tot['obl'] = tot.get('obl', 0) + r.obligations
            tot['alloc'] = tot.get('alloc', 0) + r.allocs
            k = 'bad' if r.bad else 'und' if r.undecided else 'ok'
            tot[k] += 1
            if r.time > 2:
                print('SLOW', r.root, round(r.time, 1), r.paths)
            if k != 'ok':
                x = (r.bad or r.undecided)[0]
                print('%-4s %-22s %s' % (k, r.root, x[1][:150]), ('\n        ' + x[2]) if len(sys.argv) > 2 else '')
    print(tot)
