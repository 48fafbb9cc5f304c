"""Decide the entry points of corpus/src/io.rs: every demand written in them, on every abstract path."""
import os, time
from engine.interp import Interp, show
from engine.expr import atoms_of
from .wire import Report, run_root
from .trace import *

CATS = [('error of the', 'err'), ('after it failed', 'err'), ('failure of the', 'err'), ('not reported as an end of input', 'err'), ('uninitialised', 'init')]


def cat_of(msg):
    for p, c in CATS:
        if p in msg:
            return c
    return 'io'


def describe(st):
    ev = '; '.join(e[1] for e in st.events if e[0] == 'check' and e[2] is True)
    return ('when [%s]%s' % (', '.join(show(c) + ('' if v else ' is false') for c, v in st.facts.log), ' after: ' + ev if ev else ''))[:900]


def impossible(st):
    seed = set()
    for c, v in st.facts.log:
        seed |= set(atoms_of(c))
    return st.facts._infeasible(seed)


def checks(evs):
    for e in evs:
        if e[0] == 'check':
            yield e
        elif e[0] == 'loop':
            for b in e[4]:
                yield from checks(b[0])


def check_root(prog, root):
    I_ = Interp(prog)
    rep = Report(root)
    rep.demands = 0
    t = time.time()
    try:
        fid, sts = run_root(I_, root)
        rep.fns = frozenset(I_.p.fns[f]['path'] for f in I_.analysed)
        rep.steps = I_.total
        if not any(s.out[0] == 'ret' for s in sts):
            rep.und('no path returns')
        for s in sts:
            if s.out[0] != 'ret' and impossible(s):
                continue
            rep.paths += 1
            if s.out[0] in ('panic', 'ub', 'abort'):
                rep.bad.append((s.out[0] if s.out[0] != 'abort' else 'panic', 'ends in %s: %s' % (s.out[0], s.out[1:]), describe(s)))
            elif s.out[0] == 'unk':
                rep.undecided.append(('und', 'undecided: %s' % (s.out[1:],), describe(s)))
            elif s.out[0] != 'ret':
                continue
            seen = set()
            if any(e[2] is not True for e in checks(s.events)) and impossible(s):
                continue
            for e in checks(s.events):
                rep.demands += 1
                if e[2] is True or e[1] in seen:
                    continue
                seen.add(e[1])
                if e[2] == 'und':
                    rep.undecided.append(('und', e[1] + ': ' + show(e[3]), describe(s)))
                else:
                    rep.bad.append((cat_of(e[1]), e[1], describe(s)))
            for o in s.obl:
                rep.demands += 1
                if o[1] is None:
                    rep.undecided.append(('und', '%s: %s in %s' % (o[0], o[2], o[3]), describe(s)))
                elif not o[1]:
                    rep.bad.append(('ub', 'unsafe access not justified: %s %s in %s' % (o[0], o[2], o[3]), describe(s)))
            if not rep.sample and len(sts) > 2 and s.out[0] == 'ret':
                rep.sample = describe(s)
    except Exception as x:
        if os.environ.get('TB'):
            raise
        rep.und('%s: %s' % (type(x).__name__, x))
    rep.time = time.time() - t
    return rep


if __name__ == '__main__':
    import sys
    from engine.prog import Prog
    p = Prog(sys.argv[1])
    from .props import run_io
    names = sorted(r for r in p.roots if r.startswith('root_i_') and (len(sys.argv) <= 2 or any(x in r for x in sys.argv[2:])))
    tot = {'ok': 0, 'bad': 0, 'und': 0, 'demands': 0}
    for r in run_io(p, names):
        k = 'bad' if r.bad else 'und' if r.undecided else 'ok'
        tot[k] += 1
        tot['demands'] += r.demands
        if r.time > 5:
            print('SLOW', r.root, round(r.time, 1), r.paths)
        for x in (r.bad or r.undecided)[:int(os.environ.get('K', 2))]:
            print('%-4s %-24s %s %s' % (k, r.root, x[0], x[1][:300]))
            if os.environ.get('V'):
                print('       ', x[2][:int(os.environ['V'])])
    print(tot)
