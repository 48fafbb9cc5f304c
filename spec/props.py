"""Properties -> analyses."""
import multiprocessing as mp
import multiprocessing.connection
import os, re, time
from . import build
from .corpus import CASES
from .wire import check_case
from engine.prog import Prog

ASSUMPTIONS = [
    'rustc nightly MIR (unoptimised, overflow checks on) is the meaning of the source; 64-bit little-endian target',
    'std/core/alloc follow their documentation where they are modelled (allocation, Vec, slices, iterators, collections, utf-8 validation) and are analysed from their own MIR otherwise',
    'element types and readers/writers supplied by the user are opaque: any of their operations may succeed or fail, and they have no other effect',
]


class Prop:
    def __init__(self, parts, level='other', floor=1):
        self.parts = parts      # [(analysis, args...)]
        self.level = level
        self.floor = floor


# category of a failed path -> which properties it breaks
ALL = ('wire', 'value', 'panic', 'ub', 'err', 'inv', 'need', 'min', 'short')

LIB = lambda c: c.group not in ('derive', 'cont')
VAR = lambda c: 'var' in c.name
BYTES = ('wire', 'value', 'panic', 'ub', 'inv', 'short')

PROPS = {
    'P01': Prop([('roots', LIB, 'wx', ALL)], floor=200),
    'P02': Prop([('roots', LIB, 'rc', ALL)], floor=500),
    'P03': Prop([('roots', lambda c: True, 'n', ALL)], floor=900),
    'P04': Prop([('roots', lambda c: True, 'm', ALL), ('roots', lambda c: True, 'c', ('short',))], floor=1500),
    'P05': Prop([('roots', lambda c: c.group == 'derive', 'rcwx', BYTES)], floor=2000),
    'P06': Prop([('roots', lambda c: c.group == 'cont', 'rcwx', BYTES)], floor=2000),
    'P07': Prop([('roots', VAR, 'rcwxn', ALL)], floor=200),
    'P08': Prop([('roots', lambda c: True, 'rcwx', ('err', 'panic'))], floor=5000),
    'P09': Prop([('roots', lambda c: True, 'rc', ('inv', 'panic'))], floor=3000),
    'P10': Prop([('roots', lambda c: True, 'rc', ('panic',))], floor=3000),
}

PROPS.update({
    'P14': Prop([('io', '(mem|copy|dflt)_.*', ('io', 'panic', 'ub', 'init', 'err'))], floor=90),
    'P15': Prop([('io', '(?!queue).*_peek.*', ('io', 'panic', 'ub', 'init', 'err'))], floor=60),
    'P16': Prop([('io', 'unbuf_.*', ('io', 'panic', 'ub', 'init', 'err'))], floor=28),
    'P17': Prop([('io', '(buf|queue)_.*', ('io', 'panic', 'ub', 'init', 'err'))], floor=38),
})

IO = ('io', 'panic', 'ub', 'init', 'err')
PROPS.update({
    'P18': Prop([('io', 'top_.*', IO)], floor=21),
    'P19': Prop([('io', '(wbuf|wvec|wst|wall|fwrite).*', IO)], floor=55),
    'P22': Prop([('io', 'fread_.*', IO)], floor=6),
})

MEM = ('mem', 'ub', 'init')
REFS = lambda c: bool(re.match('rd_|str$|sl_|d_ref|d_kr|d_elife|cow|d_kcow', c.name))
RAW = lambda c: bool(re.match(r'(vec|cow|boxs|arr\d|smallvec)_[uif]\d+$|arr\d_[uif]\d+$|vec_(bool|char|nz|usize|opt|optu|end|ip|arr|unit|tup)$|arr_|rd_|d_ref|d_.*_(vec|arr|cow|box)$|d_k(vec8|vec16|cow8|cow32|r8|r32)', c.name))
PROPS.update({
    'P20': Prop([('wit', 'P20'), ('roots', REFS, 'rc', ALL + ('mem',)), ('io', '(mem|copy|buf|unbuf|dflt)_(borrow.*|rest)', IO)], floor=600),
    'P21': Prop([('wit', 'P21'), ('roots', RAW, 'rcw', ('wire', 'value', 'ub', 'inv', 'mem'))], floor=1500),
    'P23': Prop([('wit', 'P23')], floor=500),
})
PROPS['P11'] = Prop([('roots', lambda c: True, 'rcwxn', MEM), ('io', '.*', MEM)], floor=9000)
PROPS['P12'] = Prop([('roots', lambda c: True, 'rc', ('drop',)), ('io', 'own_.*', IO)], floor=3000)
PROPS['P13'] = Prop([('roots', lambda c: True, 'rc', ('alloc',))], floor=3000)
PROPS['P24'] = Prop([('roots', lambda c: c.group in ('helper', 'method'), 'rcwx', ALL), ('io', 'end_.*', IO)], floor=400)
PROPS['P25'] = Prop([('io', 'err_.*', IO)], floor=1)
for p, k in (('P08', 'err'),):
    PROPS[p].parts.append(('io', '.*', (k,)))

# what a part of the corpus which does not compile any more violates
LOST = {('type', 'derive'): ('P05',), ('type', 'cont'): ('P06',), ('case', 'derive'): ('P05',), ('case', 'cont'): ('P06',), ('case', ''): ('P01', 'P02')}

_P = None


def one(a):
    if isinstance(a, str):
        from .io import check_root
        try:
            return a, check_root(_P, a)
        except RecursionError:
            return a, 'recursion'
    i, kinds = a
    c = CASES[i]
    try:
        return i, check_case(_P, c, kinds)
    except RecursionError:
        return i, 'recursion'
    except Exception as e:
        import traceback
        return i, traceback.format_exc()[-600:]


JOB_LIMIT = 200         # seconds for one job


def worker(conn):
    while True:
        j = conn.recv()
        if j is None:
            os._exit(0)
        conn.send(one(j))


def run_roots(prog, jobs):
    """results of all jobs in order; a job which takes too long or kills its process is reported as a string"""
    global _P
    _P = prog
    n = min(16, os.cpu_count() or 4, len(jobs))
    ctx = mp.get_context('fork')
    todo = list(reversed(jobs))
    out = {}
    live = {}       # connection -> [process, job, started]

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0]
        feed(a)

    def feed(a):
        w = live[a]
        w[1] = todo.pop() if todo else None
        w[2] = time.time()
        try:
            a.send(w[1])
        except OSError:
            pass
        if w[1] is None:
            del live[a]

    def lost(a, why):
        p, j, _ = live.pop(a)
        p.kill()
        out[j] = why
        if todo:
            spawn()

    for _ in range(n):
        spawn()
    while live:
        for a in mp.connection.wait(list(live), timeout=5):
            try:
                r = a.recv()
            except (EOFError, OSError):
                lost(a, 'the analysis of this entry point ended unexpectedly')
                continue
            out[live[a][1]] = r[1]
            feed(a)
        for a in [a for a, w in live.items() if time.time() - w[2] > JOB_LIMIT]:
            lost(a, 'the analysis of this entry point took too long')
    return [(j if isinstance(j, str) else j[0], out[j]) for j in jobs]


def run_io(prog, names):
    out = []
    for n, r in run_roots(prog, list(names)):
        if isinstance(r, str):
            from .wire import Report
            x = Report(n)
            x.demands = 0
            x.time = 0
            x.und('analysis crashed: ' + r)
            r = x
        out.append(r)
    return out


def run(prop, tier):
    P = PROPS[prop]
    prog, secs, gone = None, 0, []
    if any(part[0] != 'wit' for part in P.parts):
        mir, secs, gone = build.dump()
        prog = Prog(mir)
    viol, und = [], []
    roots = paths = steps = 0
    fns = set()
    samples = []
    crashes = []
    decided = 0
    demands = 0
    witnesses = 0
    for kind, name, group, msg, first in gone:
        und.append(('%s %s' % (kind, name), 'does not compile with this tree: ' + msg, ''))
        if first and prop in LOST.get((kind, group if group in ('derive', 'cont') else ''), ()):
            viol.append(('%s %s: does not compile' % (kind, name), 'valid use of the crate does not compile any more', msg))
    for part in P.parts:
        if part[0] == 'wit':
            from . import witness
            for n, what, res, det in witness.run(part[1]):
                roots += 1
                witnesses += 1
                decided += 1
                demands += 2
                if res == 'accepted':
                    viol.append(('witness %s: accepted' % n, 'the compiler accepts a program which has to be rejected: ' + what, det))
                elif res == 'rejected':
                    viol.append(('witness %s: rejected' % n, 'the compiler rejects a valid program', det))
                elif len(samples) < 6:
                    samples.append('%s: %s: %s' % (n, what, det[:200]))
            continue
        if part[0] == 'io':
            _, pat, cats = part
            names = sorted(n for n in prog.roots if re.match('root_i_(%s)$' % pat, n))
            if not names:
                und.append((pat, 'no such entry points', ''))
                continue
            results = [(n, [r]) for n, r in zip(names, run_io(prog, names))]
        else:
            _, sel, kinds, cats = part
            jobs = [(i, kinds) for i, c in enumerate(CASES) if c.g is not None and sel(c)]
            results = [(CASES[i].name, r) for i, r in run_roots(prog, jobs)]
        for i, reps in results:
            if isinstance(reps, str):
                crashes.append((i, reps))
                continue
            for r in reps:
                demands += getattr(r, 'demands', 0)
                roots += 1
                paths += r.paths
                steps += r.steps
                fns |= r.fns
                bad = [b for b in r.bad if b[0] in cats]
                demands += r.paths + (r.obligations if 'mem' in cats else 0)
                demands += r.owned if 'drop' in cats else 0
                if 'alloc' in cats:
                    demands += r.allocs
                    r.undecided += r.odd
                if 'drop' in cats:
                    bad += [b for b in r.unsafe_ if b[0] == 'drop']
                if 'mem' in cats:
                    bad += [b for b in r.unsafe_ if b not in bad]
                    r.undecided += r.unproved
                for cat, msg, det in bad[:3]:
                    viol.append(('%s: %s' % (r.root, cat), msg, det))
                for cat, msg, det in r.undecided[:2]:
                    und.append((r.root, msg, det))
                if not bad and not r.undecided:
                    decided += 1
                if len(samples) < 6 and r.paths > 2 and r.sample:
                    samples.append(r.root + ': ' + r.sample[:300])
    for n, c in crashes:
        und.append((n, 'analysis crashed: ' + c, ''))
    cov = {'entry_points': roots, 'entry_points_decided': decided, 'compile_fail_witnesses': witnesses, 'paths': paths, 'demands_decided': demands, 'mir_statements_interpreted': steps, 'functions_analysed': len(fns),
           'undecided': [list(u[:2]) for u in und[:30]], 'functions_sample': sorted(x for x in fns if 'speedy' in x)[:60], 'samples': samples,
           'rule': 'every abstract path of every entry point (compiled from the current tree) is compared with the specification',
           'explanation': 'Path-sensitive abstract interpretation of the MIR of each entry point with opaque readers, writers and elements; every path is compared with the wire grammar / size / outcome demanded by the specification.',
           'compile_s': round(secs, 1)}
    res = {'violations': viol, 'undecided': und, 'coverage': cov}
    if roots < (P.floor // 2 if gone else P.floor):
        res['error'] = 'only %d entry points were analysed (expected at least %d)' % (roots, P.floor)
    return res
