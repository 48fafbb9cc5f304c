#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current source.
exit 0: holds on everything analysed; 1: VIOLATION; 2: the check itself could not run."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.abspath(__file__))


def known():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                prop, key, what = [x.strip() for x in l[len('finding:'):].split('|', 2)]
                out[(prop, key)] = what
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from spec import build, props
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    try:
        with build.Lock():
            res = props.run(prop, tier)
    except build.BuildError as e:
        print('ERROR', e)
        return 2
    kf = known()
    bad = []
    for key, msg, detail in res['violations']:
        if (prop, key) in kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[(prop, key)]))
        else:
            bad.append((key, msg, detail))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': props.PROPS[prop].level, 'coverage': res['coverage'],
          'assumptions': props.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for u in res.get('undecided', [])[:20]:
        print('undecided:', u[0], u[1][:200])
    if res.get('error'):
        print('ERROR', res['error'])
        if not bad:
            return 2
    if bad:
        path = os.path.join(ROOT, 'evidence', prop + '.violation.txt')
        with open(path, 'w') as f:
            for key, msg, detail in bad:
                f.write('%s\n  %s\n  %s\n\n' % (key, msg, detail))
        for key, msg, detail in bad[:15]:
            print('%s: %s' % (key, msg))
            if detail:
                print('     ' + detail[:700])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s holds: %s' % (prop, {k: v for k, v in res['coverage'].items() if isinstance(v, int)}))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
