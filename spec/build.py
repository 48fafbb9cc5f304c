"""Compile the corpus against /repo's working tree and load its MIR dump."""
import bisect, fcntl, json, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, '.work')


class BuildError(Exception):
    pass


def sh(cmd, cwd, env=None, what=''):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what or cmd, p.stdout[-4000:]))
    return p.stdout


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    t = os.path.join(WORK, 'driver')
    sh(['cargo', '+nightly', 'build', '--offline'], os.path.join(ROOT, 'driver'), {'CARGO_TARGET_DIR': t}, 'building the MIR driver')
    return os.path.join(t, 'debug', 'mirdump')


def blamed(log, d, index):
    """what of the generated source the compiler's errors (JSON lines) are about: {(kind, name): (group, message)}, and the
    errors which are about something else"""
    out, other = {}, []

    def spans(s):
        while s:
            yield s
            e = s.get('expansion')
            s = e and e.get('span')

    for l in log.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        pkg, m = m['target']['name'], m['message']
        if not m['spans']:
            if 'aborting due to' not in m['message'] and not m['message'].startswith('could not compile'):
                other.append(m['rendered'])
            continue
        hit = set()
        for s in m['spans']:
            for x in spans(s):
                f = x['file_name']
                if pkg != 'corpus':
                    continue
                if f.endswith('src/gen.rs'):
                    k = bisect.bisect_right([i[0] for i in index], x['line_start']) - 1
                    if k >= 0:
                        hit.add(index[k][1:])
                elif f.endswith('src/cb.rs') or f.endswith('src/circular_buffer.rs'):
                    hit.add(('module', 'cb', ''))
                elif f.endswith('src/errs.rs'):
                    hit.add(('module', 'errs', ''))
        if not hit:
            other.append(m['rendered'])
        # an error which mentions a type and a use of it is blamed on the use, unless it is all there is
        for k, n, g in hit:
            out.setdefault((k, n), (g, m['message']))
    return out, other


def dump():
    """(path of the MIR dump, seconds, what of the corpus does not compile any more: [(kind, name, group, message, first)])"""
    from . import corpus
    t = time.time()
    drv = driver()
    out = os.path.join(WORK, 'corpus.json')
    if os.path.exists(out):
        os.unlink(out)
    d = os.path.join(ROOT, 'corpus')
    p = os.path.join(d, 'src', 'gen.rs')
    env = dict(os.environ)
    env.update({'MIRDUMP_OUT': out, 'MIRDUMP_CFG': os.path.join(ROOT, 'inline.cfg'), 'CARGO_TARGET_DIR': os.path.join(WORK, 'corpus-target'),
                'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'RUSTC_WORKSPACE_WRAPPER': drv, 'CARGO_INCREMENTAL': '0',
                'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Awarnings'})
    gone = {}
    try:
        for rnd in range(12):
            src, index = corpus.gen(gone)
            if open(p).read() != src:
                open(p, 'w').write(src)
            os.utime(os.path.join(d, 'src', 'lib.rs'))
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode == 0:
                break
            bad, other = blamed(r.stdout, d, index)
            if not bad:
                raise BuildError('compiling the corpus against /repo failed:\n' + '\n'.join(other)[:3000] + r.stderr[-2000:])
            for (k, n), (g, m) in bad.items():
                gone[(k, n)] = (g, m, rnd == 0)
        else:
            raise BuildError('compiling the corpus against /repo failed:\n' + r.stderr[-3000:])
        if not os.path.exists(out):
            raise BuildError('no MIR dump was written\n' + r.stderr[-3000:])
    finally:
        if gone:
            open(p, 'w').write(corpus.gen()[0])
    return out, time.time() - t, [(k, n) + v for (k, n), v in gone.items()]
