"""developer tool: dump the abstract paths of selected roots"""
import sys, time
from .prog import Prog
from .interp import Interp, show
from .expr import *


def args_for(I_, fid):
    fn = I_.p.fns[fid]
    b = fn['body']
    out = []
    for i in range(b['argc']):
        ty = b['locals'][i + 1]
        out.append(I_.sym(('S', 'a%d' % i, ty), ty))
    return out


def shev(e):
    if e[0] == 'loop':
        return 'LOOP%s x %s {%s}' % (e[1][0], show(e[2]), ' || '.join('; '.join(shev(x) for x in b[0]) for b in e[4]))
    return '%s(%s)' % (e[0], ', '.join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in e[1:]))


if __name__ == '__main__':
    p = Prog(sys.argv[1])
    for rn, fid in (p.roots.items() if isinstance(p.roots, dict) else p.roots):
        fn = p.fns[fid]
        if len(sys.argv) > 2 and not any(x in fn['path'] for x in sys.argv[2:]):
            continue
        I_ = Interp(p)
        t = time.time()
        st = I_.start(fid, args_for(I_, fid))
        try:
            rs = I_.run(st)
        except Exception as e:
            import traceback
            traceback.print_exc()
            print('== %s CRASH %r' % (fn['path'], e))
            continue
        print('== %s: %d paths, %d steps, %.2fs' % (fn['path'], len(rs), I_.total, time.time() - t))
        for s in rs:
            print('   ', s.out if s.out else None, 'ret=', show(s.retv) if s.retv else None, s.notes.get('where') if s.out[0] != 'ret' else '')
            print('       ev:', '; '.join(shev(e) for e in s.events))
            bad = [o for o in s.obl if not o[1]]
            if bad:
                print('       BAD:', bad)
            if s.out[0]=='unk': print('       STACK', s.notes.get('stack'))
            print('       log:', [(show(c), v) for c, v in s.facts.log])
