"""Witnesses: pairs of small programs of which one has to be rejected by the compiler (by the derive macro, the trait
system or the borrow checker) and its twin, which differs only in the offending construct, has to be accepted.
The deciding step is the type check of speedy's current source together with the witness; nothing is run."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .build import ROOT, WORK, BuildError

PRELUDE = '''#![allow(dead_code, unused)]
use speedy::*;
use std::borrow::Cow;
use std::collections::*;
use std::num::*;
type LE = LittleEndian;
type NC = speedy::private::NativeContext;
pub struct NoImpl;
#[derive(Readable, Writable)] pub struct NoDefault(pub u8);
pub fn readable<'a, C: Context, T: Readable<'a, C>>() {}
pub fn writable<C: Context, T: Writable<C>>() {}
'''

W = []      # (property, id, what the bad program does, bad source, good source)


def w(prop, id, what, bad, good):
    W.append((prop, id, what, bad, good))


def both(id, what, bad, good, derives='RW', decl='pub struct S'):
    """bad/good are bodies of a type with the derive"""
    for d in derives:
        tr = {'R': 'Readable', 'W': 'Writable'}[d]
        w('P23', '%s_%s' % (id, d.lower()), '%s (derive of %s)' % (what, tr),
          '#[derive(%s)]\n%s' % (tr, bad), '#[derive(%s)]\n%s' % (tr, good))


def field(id, what, attr, ty, good_attr, good_ty, derives='RW', pre='', post='', life=''):
    for shape, o, c in (('named', 'pub struct S%s { %s', ' %s }'), ('tuple', None, None), ('variant', 'pub enum S%s { B, A { %s', ' %s } }')):
        def mk(a, t):
            f = '#[speedy(%s)] ' % a if a else ''
            if shape == 'tuple':
                return 'pub struct S%s(%s%s %s);' % (life, f, t, ', u8' if post else '')
            return (o % (life, pre)) + ' %s f: %s' % (f, t) + (c % ((', ' + post) if post else ''))
        if shape == 'tuple' and pre:
            continue
        both('%s_%s' % (id, shape), what, mk(attr, ty), mk(good_attr, good_ty), derives)


# ---- attributes of fields
V = 'Vec<u8>'
for a, ty in (('default_on_eof', 'u8'), ('length = 3u8', V), ('length_type = u8', V), ('constant_prefix = "x"', 'u8')):
    n = a.split()[0]
    field('twice_' + n, "the attribute '%s' is given twice" % n, a + ', ' + a, ty, a, ty)
for a in ('length = 3u8, length_type = u8', 'length_type = u8, length = 3u8', 'length = .., length_type = u16'):
    field('length_and_type_%d' % len(a), "both 'length' and 'length_type' are given", a, V, a.split(', ')[0], V)
field('open_not_last', "a field follows the field with the open-ended length", 'length = ..', V, 'length = 3u8', V, post='g: u8')
field('open_not_last_str', "a field follows the field with the open-ended length", 'length = ..', 'String', 'length_type = u8', 'String', post='g: u8')
UNSIZED = [('u32', 'u32'), ('bool', 'bool'), ('array', '[u8; 4]'), ('tuple', '(u8, u8)'), ('box', 'Box<[u8]>'), ('own', 'NoDefault'), ('opt_u8', 'Option<u8>')]
for n, t in UNSIZED + [('opt_vec', 'Option<Vec<u8>>'), ('opt_string', 'Option<String>')]:
    field('length_on_' + n, "'length' is given for a field of type %s" % t, 'length = 2', t, '', t)
for n, t in UNSIZED:
    field('length_type_on_' + n, "'length_type' is given for a field of type %s" % t, 'length_type = u8', t, '', t)
    field('open_on_' + n, "'length = ..' is given for a field of type %s" % t, 'length = ..', t, '', t)
field('length_of_later', "'length' refers to a field which is read later", 'length = g', V, 'length = 1u8', V, derives='R', post='g: u8')
field('length_of_unknown', "'length' refers to a field which does not exist", 'length = h', V, 'length = g', V, pre='g: u8,')
for t in ('u8', 'u32', 'i64', 'usize', 'u128', 'f64', 'Option<u64>', '[u64; 2]', 'Vec<u64>', 'NonZeroU32'):
    field('varint_on_' + re.sub(r'\W+', '_', t).lower(), "'varint' is given for a field of type %s" % t, 'varint', t, 'varint', 'u64')
for n, a in (('unknown', 'foo'), ('typo', 'length_typ = u8'), ('bool', 'default_on_eof = true'), ('nolen', 'length ='), ('bare_length', 'length'), ('u128', 'length_type = u128'), ('i8', 'length_type = i8'),
             ('usize', 'length_type = usize'), ('expr', 'length_type = 8'), ('tag', 'tag = 1'), ('tag_type', 'tag_type = u8'), ('peek', 'peek_tag'), ('prim', 'unsafe_is_primitive = always')):
    field('field_attr_' + n, "the attribute '%s' is given for a field" % a, a, V, 'length_type = u8', V)
for n, v in (('int', '5'), ('u16', '5u16'), ('float', '1.5'), ('neg_u8', '-1u8'), ('big', '300u8'), ('sum', '1u8 + 1u8'), ('path', 'FOO'), ('neg', '-5'), ('array', '[1u8]'), ('none', '')):
    field('prefix_' + n, 'the constant prefix is not a literal of bytes (%s)' % v, 'constant_prefix = ' + v, 'u8', 'constant_prefix = 5u8', 'u8')
field('skip_no_default', 'a field without a default is skipped', 'skip', 'NoDefault', '', 'NoDefault', derives='R')
field('eof_no_default', 'a field without a default is defaulted at the end of the input', 'default_on_eof', 'NoDefault', '', 'NoDefault', derives='R')
for n, t in (('own', 'NoImpl'), ('vec', 'Vec<NoImpl>'), ('opt', 'Option<NoImpl>'), ('ptr', '*const u8'), ('map', 'HashMap<u8, NoImpl>'), ('tuple', '(u8, NoImpl)'), ('array', '[NoImpl; 2]')):
    field('no_impl_' + n, 'a field of type %s, which cannot be serialized' % t, '', t, '', t.replace('NoImpl', 'NoDefault') if 'NoImpl' in t else 'u8')
both('list', "'speedy' without a list", 'pub struct S { #[speedy] a: u8 }', 'pub struct S { #[speedy(skip)] a: u8 }')
both('value', "'speedy' with a value", 'pub struct S { #[speedy = "skip"] a: u8 }', 'pub struct S { #[speedy(skip)] a: u8 }')

# ---- attributes of types and variants
both('union', 'a union', 'pub union S { a: u8, b: u8 }', 'pub struct S { a: u8, b: u8 }')
for n, a in (('tag_type', 'tag_type = u8'), ('peek', 'peek_tag'), ('tag', 'tag = 1'), ('unknown', 'foo'), ('length', 'length = 1'), ('skip', 'skip')):
    both('struct_attr_' + n, "the attribute '%s' is given for a struct" % a, '#[speedy(%s)] pub struct S { a: u8 }' % a, 'pub struct S { a: u8 }')
for n, a in (('prim', 'unsafe_is_primitive = always'), ('tag', 'tag = 1'), ('unknown', 'foo'), ('length', 'length = 1'), ('skip', 'skip'), ('i8', 'tag_type = i8'), ('u128', 'tag_type = u128'), ('novalue', 'tag_type')):
    both('enum_attr_' + n, "the attribute '%s' is given for an enum" % a, '#[speedy(%s)] pub enum S { A, B(u8) }' % a, '#[speedy(tag_type = u8)] pub enum S { A, B(u8) }')
for n, a in (('tag_type', 'tag_type = u8'), ('peek', 'peek_tag'), ('unknown', 'foo'), ('length', 'length = 1'), ('skip', 'skip'), ('str', 'tag = "x"'), ('neg', 'tag = -1'), ('huge', 'tag = 18446744073709551616'), ('expr', 'tag = 1 + 1')):
    both('variant_attr_' + n, "the attribute '%s' is given for a variant" % a, 'pub enum S { A, #[speedy(%s)] B(u8) }' % a, 'pub enum S { A, #[speedy(tag = 1)] B(u8) }')
both('twice_tag_type', "'tag_type' is given twice", '#[speedy(tag_type = u8, tag_type = u8)] pub enum S { A }', '#[speedy(tag_type = u8)] pub enum S { A }')
both('twice_tag_type2', "'tag_type' is given twice", '#[speedy(tag_type = u8)] #[speedy(tag_type = u16)] pub enum S { A }', '#[speedy(tag_type = u8)] pub enum S { A }')
both('twice_peek', "'peek_tag' is given twice", '#[speedy(peek_tag, peek_tag)] pub enum S { A }', '#[speedy(peek_tag)] pub enum S { A }')
both('twice_tag', "'tag' is given twice", 'pub enum S { #[speedy(tag = 1, tag = 1)] A }', 'pub enum S { #[speedy(tag = 1)] A }')
both('twice_prim', "'unsafe_is_primitive' is given twice", '#[speedy(unsafe_is_primitive = always, unsafe_is_primitive = always)] #[repr(C)] #[derive(Clone, Copy)] pub struct S { a: u8 }',
     '#[speedy(unsafe_is_primitive = always)] #[repr(C)] #[derive(Clone, Copy)] pub struct S { a: u8 }')
both('bad_prim', "'unsafe_is_primitive' has an unknown value", '#[speedy(unsafe_is_primitive = never)] pub struct S { a: u8 }', '#[speedy(unsafe_is_primitive = always)] pub struct S { a: u8 }')
for t, m in (('u7', 0x7f), ('u8', 0xff), ('u16', 0xffff), ('u32', 0xffffffff), (None, 0xffffffff)):
    at = '#[speedy(tag_type = %s)] ' % t if t else ''
    for k in (1, 1000):
        both('tag_max_%s_%d' % (t or 'default', k), 'a tag does not fit its type', at + 'pub enum S { A, #[speedy(tag = %d)] B }' % (m + k), at + 'pub enum S { A, #[speedy(tag = %d)] B }' % (m))
    both('disc_max_%s' % (t or 'default'), 'a discriminant does not fit the type of the tag', '#[repr(u64)] ' + at + 'pub enum S { A, B = %d }' % (m + 1), '#[repr(u64)] ' + at + 'pub enum S { A, B = %d }' % m)
    both('next_max_%s' % (t or 'default'), 'the tag which follows the largest one does not fit its type', at + 'pub enum S { #[speedy(tag = %d)] A, B }' % m, at + 'pub enum S { #[speedy(tag = %d)] A, B }' % (m - 1))
    both('next_max2_%s' % (t or 'default'), 'the tag which follows the largest one does not fit its type', '#[repr(u64)] ' + at + 'pub enum S { A = %d, B(u8) }' % m, '#[repr(u64)] ' + at + 'pub enum S { A = %d, B(u8) }' % (m - 1))
for t in ('u64', 'u64_varint'):
    both('next_max_' + t, 'the tag which follows the largest one does not fit its type', '#[speedy(tag_type = %s)] pub enum S { #[speedy(tag = 18446744073709551615)] A, B }' % t,
         '#[speedy(tag_type = %s)] pub enum S { #[speedy(tag = 18446744073709551614)] A, B }' % t)
for n, bad, good in (('explicit', '#[speedy(tag = 3)] A, #[speedy(tag = 3)] B', '#[speedy(tag = 3)] A, #[speedy(tag = 4)] B'),
                     ('far', '#[speedy(tag = 3)] A, C, D, #[speedy(tag = 3)] B', '#[speedy(tag = 3)] A, C, D, #[speedy(tag = 2)] B'),
                     ('implicit', '#[speedy(tag = 1)] A, #[speedy(tag = 0)] B, C', '#[speedy(tag = 1)] A, #[speedy(tag = 2)] B, C'),
                     ('first', '#[speedy(tag = 0)] A(u8), #[speedy(tag = 5)] B, #[speedy(tag = 0)] C', '#[speedy(tag = 0)] A(u8), #[speedy(tag = 5)] B, #[speedy(tag = 1)] C'),
                     ('disc', 'A = 4, #[speedy(tag = 4)] B', 'A = 4, #[speedy(tag = 5)] B')):
    both('same_tag_' + n, 'two variants have the same tag', 'pub enum S { %s }' % bad, 'pub enum S { %s }' % good)
both('disc_neg', 'a discriminant is negative', 'pub enum S { A = -1, B }', 'pub enum S { A = 1, B }')
both('disc_expr', 'a discriminant is not a literal', 'pub enum S { A = 1 + 1, B }', 'pub enum S { A = 2, B }')

# ---- lifetimes: what is borrowed from an input cannot outlive it or coexist with changes to it
BORROW = [('str', '&str', "&'static str"), ('u8', '&[u8]', "&'static [u8]"), ('i8', '&[i8]', "&'static [i8]"), ('array', '&[u8; 4]', "&'static [u8; 4]"), ('cow', 'Cow<[u8]>', "Cow<'static, [u8]>"), ('cows', 'Cow<str>', "Cow<'static, str>"),
          ('opt', 'Option<&str>', "Option<&'static str>"), ('vec', 'Vec<&str>', "Vec<&'static str>"), ('map', 'HashMap<u8, &str>', "HashMap<u8, &'static str>"), ('tuple', '(u8, &str)', "(u8, &'static str)"), ('box', 'Box<&str>', "Box<&'static str>"),
          ('struct', 'B', "B<'static>"), ('generic', 'G<&str>', "G<&'static str>"), ('enum', 'E', "E<'static>")]
DEFS = """
#[derive(Readable, Writable)] pub struct B<'a> { pub a: &'a str, #[speedy(length_type = u8)] pub b: &'a [u8], pub c: Cow<'a, [u16]> }
#[derive(Readable, Writable)] pub struct G<T> { pub a: T }
#[derive(Readable, Writable)] pub enum E<'a> { A(&'a str), B { x: Cow<'a, str> } }
#[derive(Readable, Writable)] pub struct Two<'a, 'b> { pub a: &'a str, pub b: &'b [u8] }
"""


def life(id, what, bad, good):
    w('P20', id, what, DEFS + bad, DEFS + good)


def lt(t, l):
    t = re.sub(r'&(\'static )?', '&%s ' % l, t)
    t = re.sub(r'Cow<(\'static, )?', 'Cow<%s, ' % l, t)
    t = re.sub(r'\b([BE])(<\'static>)?$', r'\1<%s>' % l, t)
    return t


for n, t, st in BORROW:
    ta, ts = lt(t, "'a"), lt(st, "'static")
    for f, call in (('buf', '<T_ as Readable<NC>>::read_from_buffer_with_ctx(c, b)'), ('len', '<T_ as Readable<NC>>::read_with_length_from_buffer_with_ctx(c, b).0')):
        src = "pub fn f<'a>(c: NC, b: &'a [u8]) -> Result<T_, Error> { %s }" % call
        life('life_%s_%s' % (n, f), 'a borrowed %s outlives the input it was read from' % t, src.replace('T_', ts), src.replace('T_', ta))
    src = "pub fn f(c: NC) -> bool { let r: Result<%s, Error> = { let b = vec![0u8; 9]; %%s }; r.is_ok() }" % lt(t, "'_")
    life('life_%s_drop' % n, 'a borrowed %s is used after its input was dropped' % t, src % 'Readable::<NC>::read_from_buffer_with_ctx(c, &b)', src % 'Readable::<NC>::read_from_buffer_with_ctx(c, b.leak())')
    src = "pub fn f(c: NC, b: &mut [u8]) -> bool { let r: Result<%s, Error> = Readable::<NC>::read_from_buffer_with_ctx(c, b); %%s }" % lt(t, "'_")
    life('life_%s_write' % n, 'an input is written while a %s borrows from it' % t, src % 'b[0] = 1; r.is_ok()', src % 'let k = r.is_ok(); drop(r); b[0] = 1; k')
    # a reader lends for the lifetime of the input
    src = "pub fn f<'a, R: Reader<'a, NC>>(r: &mut R) -> Result<T_, Error> { r.read_value() }"
    life('life_%s_reader' % n, 'a borrowed %s outlives the input of the reader' % t, src.replace('T_', ts), src.replace('T_', ta))
for m, ret, bad, good in (('read_bytes_borrowed', 'Option<Result<&L [u8], Error>>', "'static", "'a"), ('read_bytes_borrowed_until_eof', 'Option<&L [u8]>', "'static", "'a")):
    src = "pub fn f<'a, R: Reader<'a, NC>>(r: &mut R) -> %s { r.%s(%s) }" % (ret, m, '' if 'eof' in m else '4')
    life('life_' + m, 'bytes borrowed from the input of a reader outlive it', src.replace('&L', '&' + bad), src.replace('&L', '&' + good))
src = "pub fn f<'a, R: Reader<'a, NC>>(r: &mut R) -> bool { let x = r.read_bytes_borrowed_from_reader(4); %s }"
life('life_from_reader', 'bytes borrowed from the reader itself are used after the next read', src % 'let y = r.read_u8(); x.is_some() && y.is_ok()', src % 'let k = x.is_some(); let y = r.read_u8(); k && y.is_ok()')
src = "pub fn f<'a, 'r, R: Reader<'a, NC>>(r: &'r mut R) -> Option<Result<&%s [u8], Error>> { r.read_bytes_borrowed_from_reader(4) }"
life('life_from_reader2', 'bytes borrowed from the reader itself outlive it', src % "'a", src % "'r")
src = "pub fn f<'x>(b: &'x [u8]) -> Result<Two<'static, %s>, Error> { Readable::read_from_buffer(b) }"
life('life_two', 'a type with two lifetimes outlives its input', src % "'x", (src % "'x").replace("'static", "'x"))
src = "pub fn f<'x>(b: &'x [u8]) -> Result<Two<%s, 'static>, Error> { Readable::read_from_buffer(b) }"
life('life_two2', 'a type with two lifetimes outlives its input', src % "'x", (src % "'x").replace("'static", "'x"))

# ---- which elements may be borrowed as raw memory
PLAIN = """
#[derive(Readable, Writable)] pub struct Plain { pub a: u8, pub b: u16 }
#[derive(Readable, Writable, Clone, Copy)] pub enum En { A, B }
"""


def raw(id, what, bad, good, defs=''):
    w('P21', id, what, PLAIN + defs + bad, PLAIN + defs + good)


for t in ('bool', 'char', 'String', 'Vec<u8>', 'Option<u8>', 'Option<u32>', '&\'static str', '()', 'Box<u8>', 'NonZeroU8', 'NonZeroU32', 'NonZeroU64', 'NonZeroI32', 'Cow<\'static, str>', 'En', 'Plain', 'std::time::Duration', 'std::time::SystemTime', 'std::net::IpAddr',
          'std::net::SocketAddr', 'Result<u8, u8>', 'HashSet<u8>', 'BTreeMap<u8, u8>', 'std::ops::RangeInclusive<u32>', 'std::sync::atomic::AtomicU32', '*const u8', 'std::rc::Rc<u8>', '[bool; 2]', '(bool, u8)', 'NoImpl'):
    n = re.sub(r'\W+', '_', t).strip('_').lower()
    raw('slice_' + n, 'a slice of %s is borrowed from arbitrary bytes' % t, "pub fn f() { readable::<NC, &'static [%s]>() }" % t, "pub fn f() { readable::<NC, &'static [u8]>() }")
    raw('array_' + n, 'an array of %s is borrowed from arbitrary bytes' % t, "pub fn f() { readable::<NC, &'static [%s; 3]>() }" % t, "pub fn f() { readable::<NC, &'static [u16; 3]>() }")
    ft = t.replace("'static", "'a")
    raw('field_' + n, 'a field borrows a slice of %s from arbitrary bytes' % t, "#[derive(Readable)] pub struct S<'a> { f: &'a [%s] }" % ft, "#[derive(Readable)] pub struct S<'a> { f: &'a [u32] }")
    raw('field_len_' + n, 'a field with a length borrows a slice of %s from arbitrary bytes' % t, "#[derive(Readable)] pub struct S<'a> { #[speedy(length = 2)] f: &'a [%s] }" % ft, "#[derive(Readable)] pub struct S<'a> { #[speedy(length = 2)] f: &'a [u64] }")
    raw('field_open_' + n, 'a field with an open-ended length borrows a slice of %s from arbitrary bytes' % t, "#[derive(Readable)] pub struct S<'a> { #[speedy(length = ..)] f: &'a [%s] }" % ft, "#[derive(Readable)] pub struct S<'a> { #[speedy(length = ..)] f: &'a [i16] }")
    raw('field_type_' + n, 'a field with a narrow length borrows a slice of %s from arbitrary bytes' % t, "#[derive(Readable)] pub struct S<'a> { #[speedy(length_type = u8)] f: &'a [%s] }" % ft, "#[derive(Readable)] pub struct S<'a> { #[speedy(length_type = u8)] f: &'a [f32] }")
    raw('field_opt_' + n, 'an optional field borrows a slice of %s from arbitrary bytes' % t, "#[derive(Readable)] pub struct S<'a> { f: Option<&'a [%s]> }" % ft, "#[derive(Readable)] pub struct S<'a> { f: Option<&'a [f64]> }")
for n, bad in (('bool', 'bool'), ('char', 'char'), ('plain', 'Plain'), ('string', 'String'), ('nz', 'NonZeroU32')):
    for a in ('', '#[speedy(length = 2)] ', '#[speedy(length = ..)] ', '#[speedy(length_type = u8)] '):
        d = "#[derive(Readable)] pub struct S<'a, T> { x: u8, %sf: &'a [T] }\n" % a
        raw('generic_%s_%s' % (n, re.sub(r'\W+', '_', a).strip('_')), 'a generic field borrows a slice of %s from arbitrary bytes' % bad, "pub fn f() { readable::<NC, S<'static, %s>>() }" % bad, "pub fn f() { readable::<NC, S<'static, i32>>() }", d)
DV = '#[derive(Readable, Writable, Clone, Copy)] '
for n, bad, good in (
        ('plain', 'pub struct Q { a: u8, b: u8 }', '#[repr(packed)] pub struct Q { a: u8, b: u8 }'),
        ('padded', '#[repr(C)] pub struct Q { a: u8, b: u32 }', '#[repr(packed)] pub struct Q { a: u8, b: u32 }'),
        ('packed_bool', '#[repr(packed)] pub struct Q { a: u8, b: bool }', '#[repr(packed)] pub struct Q { a: u8, b: u8 }'),
        ('packed_char', '#[repr(packed)] pub struct Q { a: u8, b: char }', '#[repr(packed)] pub struct Q { a: u8, b: u32 }'),
        ('packed_nz', '#[repr(packed)] pub struct Q { a: u8, b: NonZeroU32 }', '#[repr(packed)] pub struct Q { a: u8, b: u32 }'),
        ('packed_enum', '#[repr(packed)] pub struct Q { a: u8, b: En }', '#[repr(packed)] pub struct Q { a: u8, b: u32 }'),
        ('packed_opt', '#[repr(packed)] pub struct Q { a: u8, b: Option<u8> }', '#[repr(packed)] pub struct Q { a: u8, b: u16 }'),
        ('packed_skip', '#[repr(packed)] pub struct Q { a: u8, #[speedy(skip)] b: u8 }', '#[repr(packed)] pub struct Q { a: u8, b: u8 }'),
        ('packed_eof', '#[repr(packed)] pub struct Q { a: u8, #[speedy(default_on_eof)] b: u8 }', '#[repr(packed)] pub struct Q { a: u8, b: u8 }'),
        ('packed_varint', '#[repr(packed)] pub struct Q { a: u8, #[speedy(varint)] b: u64 }', '#[repr(packed)] pub struct Q { a: u8, b: u64 }'),
        ('packed_prefix', '#[repr(packed)] pub struct Q { a: u8, #[speedy(constant_prefix = "x")] b: u8 }', '#[repr(packed)] pub struct Q { a: u8, b: u8 }'),
        ('transparent_bool', '#[repr(transparent)] pub struct Q { a: bool }', '#[repr(transparent)] pub struct Q { a: u8 }'),
        ('transparent_char', '#[repr(transparent)] pub struct Q(char);', '#[repr(transparent)] pub struct Q(u32);'),
        ('transparent_nz', '#[repr(transparent)] pub struct Q(NonZeroU64);', '#[repr(transparent)] pub struct Q(u64);'),
        ('transparent_enum', '#[repr(transparent)] pub struct Q(En);', '#[repr(transparent)] pub struct Q(i64);'),
        ('transparent_varint', '#[repr(transparent)] pub struct Q(#[speedy(varint)] u64);', '#[repr(transparent)] pub struct Q(u64);'),
        ('transparent_prefix', '#[repr(transparent)] pub struct Q { #[speedy(constant_prefix = "x")] a: u8 }', '#[repr(transparent)] pub struct Q { a: u8 }'),
        ('transparent_eof', '#[repr(transparent)] pub struct Q { #[speedy(default_on_eof)] a: u8 }', '#[repr(transparent)] pub struct Q { a: u8 }'),
        ('transparent_skip', '#[repr(transparent)] pub struct Q { #[speedy(skip)] a: u8 }', '#[repr(transparent)] pub struct Q { a: u8 }')):
    tail = "\npub fn f() { readable::<NC, &'static [Q]>() }"
    raw('derived_' + n, 'a slice of a derived type which is not plain memory of the wire format is borrowed: ' + bad, DV + bad + tail, DV + good + tail)
for t in ('u16', 'u32', 'u64', 'u128', 'i16', 'i32', 'i64', 'i128', 'f32', 'f64'):
    # nothing to be rejected: the plain types have to be accepted
    raw('plain_' + t, 'a slice of references is borrowed', "pub fn f() { readable::<NC, &'static [&'static %s]>() }" % t, "pub fn f() { readable::<NC, &'static [%s]>() }" % t)


def libs():
    """directories and files of speedy, compiled from the current tree"""
    d = os.path.join(ROOT, 'witness')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, 'witness-target'), CARGO_INCREMENTAL='0', RUSTFLAGS='-Awarnings')
    os.utime(os.path.join(d, 'src', 'lib.rs'))
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise BuildError('compiling speedy for the witnesses failed:\n' + p.stderr[-3000:])
    main, dirs = None, set()
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-artifact':
            continue
        for f in m['filenames']:
            if f.endswith(('.rmeta', '.so', '.rlib')):
                dirs.add(os.path.dirname(f))
        if m['target']['name'] == 'speedy':
            main = [f for f in m['filenames'] if f.endswith('.rmeta')][0]
    return main, sorted(dirs)


def compile_one(lib, dirs, src, tmp, n):
    path = os.path.join(tmp, n + '.rs')
    open(path, 'w').write(PRELUDE + src + '\n')
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata=' + os.path.join(tmp, n + '.rmeta'), '--extern', 'speedy=' + lib, '--error-format=short', '-Awarnings', path]
    for d in dirs:
        cmd += ['-L', 'dependency=' + d]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=tmp)
    return p.returncode, p.stderr


def run(prop):
    """[(id, what, 'ok' | 'accepted' | 'rejected' | 'crash', detail)]"""
    lib, dirs = libs()
    tmp = tempfile.mkdtemp(prefix='witness-', dir=WORK)
    try:
        ws = [x for x in W if x[0] == prop]
        goods = {}
        for x in ws:
            goods.setdefault(x[4], 'g%d' % len(goods))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            g = {s: ex.submit(compile_one, lib, dirs, s, tmp, n) for s, n in goods.items()}
            b = [ex.submit(compile_one, lib, dirs, x[3], tmp, 'b%d' % i) for i, x in enumerate(ws)]
            out = []
            for x, f in zip(ws, b):
                rc, err = f.result()
                grc, gerr = g[x[4]].result()
                src = ' '.join(x[3].split())
                if grc:
                    out.append((x[1], x[2], 'rejected', 'the valid program is not accepted: %s: %s' % (' '.join(x[4].split()), gerr[:400])))
                elif rc == 0:
                    out.append((x[1], x[2], 'accepted', src))
                else:
                    e = [l for l in err.splitlines() if 'error' in l]
                    out.append((x[1], x[2], 'ok', e[0].split(': ', 1)[-1] if e else err[:200]))
        return out
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    import sys, time
    t = time.time()
    for p in sys.argv[1:]:
        r = run(p)
        print(p, len(r), {k: sum(1 for x in r if x[2] == k) for k in ('ok', 'accepted', 'rejected')}, round(time.time() - t, 1))
        for x in r:
            if x[2] != 'ok':
                print(x[2], x[0], x[3])
            elif os.environ.get('V'):
                print('   ', x[0], '|', x[3][:160])
