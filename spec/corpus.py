"""Generates the Rust entry points (src/gen.rs of the corpus crate) for the cases."""
from .cases import CASES
from . import derive

CTX = {'L': 'LE', 'B': 'BE', 'D': 'Endianness'}


def life(c):
    return "<'a>" if c.life else ''


def roots(c):
    out = []
    for e in c.ends:
        x = CTX[e]
        lx = ("'a, " if c.life else "'_, ") + x
        rb = c.rbody or 'Readable::<%s>::read_from(r)' % lx
        wb = c.wbody or 'Writable::<%s>::write_to(v, w)' % x
        if c.rd:
            out.append('pub fn root_r_%s_%s%s(r: &mut Pr<%s>) -> Result<%s, Error> { %s }' % (c.name, e, life(c), x, c.rust, rb))
            out.append('pub fn root_c_%s_%s%s(r: &mut Prc<%s>) -> Result<%s, Error> { %s }' % (c.name, e, life(c), x, c.rust, rb))
        if c.wr:
            out.append('pub fn root_w_%s_%s%s(v: &%s, w: &mut Pw<%s>) -> Result<(), Error> { %s }' % (c.name, e, life(c), c.rust_w, x, wb))
            if e == c.ends[0]:
                out.append('pub fn root_x_%s_%s%s(v: &%s, w: &mut Pwc<%s>) -> Result<(), Error> { %s }' % (c.name, e, life(c), c.rust_w, x, wb))
    if c.wr and not c.wbody:
        out.append('pub fn root_n_%s%s(v: &%s) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }' % (c.name, life(c), c.rust_w))
    if c.rd and not c.rbody and c.minimum:
        out.append("pub fn root_m_%s%s() -> usize { <%s as Readable<%sLE>>::minimum_bytes_needed() }" % (c.name, life(c), c.rust, "'a, " if c.life else "'_, "))
    return out


def gen(drop=()):
    """(source, [(first line, kind, name, group)]); entries of `drop` ((kind, name)) are left out"""
    out = ['// generated by spec/corpus.py', 'use crate::model::*;', 'use speedy::*;', 'use std::borrow::Cow;', 'use std::collections::*;',
           'type LE = LittleEndian;', 'type BE = BigEndian;', '']
    index = []
    lines = len(out)

    def put(kind, name, group, text):
        nonlocal lines
        if (kind, name) in drop:
            return
        index.append((lines + 1, kind, name, group))
        for t in text:
            out.append(t)
            lines += t.count('\n') + 1

    for (name, group), d in zip(derive.DEFK, derive.DEFS):
        put('type', name, group, [d])
    for c in CASES:
        put('case', c.name, c.group, roots(c))
    for m in ('cb', 'errs'):
        put('module', m, '', ['#[path = "%s.rs"]' % m, 'pub mod %s;' % m])
    return '\n'.join(out) + '\n', index


if __name__ == '__main__':
    import sys
    open(sys.argv[1], 'w').write(gen()[0])
