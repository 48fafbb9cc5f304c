"""Types using the derive macros and the wire grammar their attributes document."""
from .grammar import *
from .cases import case, U8, U16, U32, U64, U128, E1, E2, R1, R2, L32

DEFS = []      # Rust definitions
DEFK = []      # (name of the type, group)
RW = 'Readable, Writable'


class F:
    """a field: Rust type, grammar, speedy attributes, other attributes"""

    def __init__(self, name, ty, g, attr='', prefix=None):
        self.name, self.ty, self.attr = name, ty, attr
        if prefix is not None:
            b, src = prefix
            self.attr = (self.attr + ', ' if self.attr else '') + 'constant_prefix = ' + src
            g = Prefixed(b, g)
        if 'default_on_eof' in self.attr:
            g = OnEof(g)
        self.g = g


def fields_src(fields, kind, pub='pub '):
    def one(f):
        a = '#[speedy(%s)] ' % f.attr if f.attr else ''
        return a + (pub + f.name + ': ' if kind == 'named' else pub) + f.ty
    s = ', '.join(one(f) for f in fields)
    return ' { %s }' % s if kind == 'named' else '(%s)' % s if kind == 'tuple' else ''


def grammar(fields, kind):
    return DStruct([(f.name if kind == 'named' else i, f.g, f.name) for i, f in enumerate(fields)])


def struct(name, fields, kind='named', pre='', gen='', use=None, derive=RW, case_name=None, group='derive', **k):
    life = "'a" in gen
    DEFK.append((name, group))
    DEFS.append('#[derive(%s)] %s\npub struct %s%s%s%s' % (derive, pre, name, gen, fields_src(fields, kind), '' if kind == 'named' else ';'))
    g = grammar(fields, kind)
    if case_name is not False:
        case(case_name or 'd_' + name.lower(), use or (name + ("<'a>" if life else '')), g, group=group, life=life, rd='Readable' in derive, wr='Writable' in derive, **k)
    return g


def enum(name, variants, tag=4, attr='', gen='', derive=RW, case_name=None, group='derive', first=0, **k):
    """variants: (name, explicit source before/after, tag value, kind, fields)"""
    life = "'a" in gen
    src = []
    vs = {}
    for n, pre, post, t, kind, fields in variants:
        src.append(pre + n + fields_src(fields, kind, '') + post)
        vs[n] = (t, [(i, f.g, f.name) for i, f in enumerate(fields)])
    DEFK.append((name, group))
    DEFS.append('#[derive(%s)] %s\npub enum %s%s { %s }' % (derive, attr, name, gen, ', '.join(src)))
    g = DEnum(tag, vs)
    if case_name is not False:
        case(case_name or 'd_' + name.lower(), name + ("<'a>" if life else ''), g, group=group, life=life, rd='Readable' in derive, wr='Writable' in derive, **k)
    return g


# ---- plain structs ------------------------------------------------------------------------------------------
PR = [('u8', U8), ('u16', U16), ('u32', U32), ('u64', U64), ('u128', U128), ('i8', U8), ('i16', U16), ('i32', U32), ('i64', U64), ('i128', U128), ('f32', U32), ('f64', U64)]
struct('Named', [F('a', 'u8', U8), F('b', 'u16', U16), F('c', R1, E1)])
struct('Tup', [F('a', 'u16', U16), F('b', R1, E1), F('c', 'u8', U8)], 'tuple')
struct('UnitS', [], 'unit', derive=RW + ', PartialEq, Eq, Hash, PartialOrd, Ord, Clone')
struct('EmptyN', [], 'named')
struct('AllPrims', [F('f%d' % i, t, g) for i, (t, g) in enumerate(PR)])
struct('AllPrimsRev', [F('f%d' % i, t, g) for i, (t, g) in enumerate(reversed(PR))])
struct('Others', [F('a', 'bool', BoolG()), F('b', 'char', CharG()), F('c', 'usize', U64), F('d', '(u8, u16)', Struct([(0, U8), (1, U16)])), F('e', '()', Unit())])
struct('Nest', [F('a', 'u8', U8), F('b', 'Named', DStruct([('a', U8, 'a'), ('b', U16, 'b'), ('c', E1, 'c')])), F('c', 'u16', U16)])
struct('Boxed', [F('a', 'Box<u32>', Box(U32)), F('b', 'Box<[u16]>', Seq(L32, U16))])
struct('Gen', [F('a', 'T', E1), F('b', 'Vec<T>', Seq(L32, E1)), F('c', 'Option<T>', Opt(E1)), F('d', '[T; 2]', ArrayG(2, E1))], gen='<T>', use='Gen<%s>' % R1)
struct('Gen2', [F('a', 'A', U16), F('b', 'B', E1)], gen='<A, B>', use='Gen2<u16, %s>' % R1)

# ---- structs which can be treated as plain memory ------------------------------------------------------------
CL = ', Clone'
MEMS = []


def mem(name, fields, kind='named', pre='', gen='', use=None, elems=True, arr=3, **k):
    g = struct(name, fields, kind, pre, gen=gen, use=use, derive=RW + CL, **k)
    u = use or name
    c = 'd_' + name.lower()
    if elems:
        case(c + '_vec', 'Vec<%s>' % u, Seq(L32, g), group='derive')
        case(c + '_arr', '[%s; %d]' % (u, arr), ArrayG(arr, g), group='derive')
        case(c + '_cow', "Cow<'a, [%s]>" % u, CowG(Seq(L32, g), Seq(L32, g)), group='derive', life=True)
        case(c + '_box', 'Box<[%s]>' % u, Seq(L32, g), group='derive')
    return g


def prims(s):
    return [F('f%d' % i, t, dict(PR)[t]) for i, t in enumerate(s.split())]


for nm, s in (('One8', 'u8'), ('One16', 'u16'), ('Pair16', 'u16 u16'), ('Pad', 'u8 u16'), ('Reord', 'u16 u32 u16'), ('Reord2', 'u8 u32 u8 u16'), ('Down', 'u32 u16 u8 u8'),
              ('Four', 'u32 i32 f32 u32'), ('Five8', 'u8 u8 u8 i8 u8'), ('Big', 'u64 f64 u64'), ('Mixed', 'u8 i8 u16 f32'), ('Q', 'u128')):
    mem(nm, prims(s))
    mem('T' + nm, prims(s), 'tuple')
for nm, s in (('C8', 'u8 u8'), ('C16', 'u16 u16'), ('CPad', 'u8 u32'), ('CTail', 'u32 u8'), ('CMix', 'u8 i8 u16 u32'), ('CLong', 'u16 u16 u16 u16 u16 u16')):
    mem(nm, prims(s), pre='#[repr(C)]')
for nm, s in (('P16', 'u8 u16'), ('PMix', 'u8 u32 u16'), ('P64', 'u8 f64'), ('POne', 'u32')):
    mem(nm, prims(s), pre='#[repr(packed)]')
for nm, s in (('Tr8', 'u8'), ('Tr16', 'u16'), ('Tr64', 'f64')):
    mem(nm, prims(s), 'tuple', pre='#[repr(transparent)]')
mem('TrN', prims('u32'), 'named', pre='#[repr(transparent)]')
mem('Al', prims('u16'), 'named', pre='#[repr(align(4))]')
mem('CAl', prims('u32 u32'), 'named', pre='#[repr(C, align(8))]')
mem('Inner', [F('a', 'Pair16', DStruct([('f0', U16, ''), ('f1', U16, '')])), F('b', 'u32', U32)])
mem('Inner2', [F('a', 'u8', U8), F('b', 'One8', DStruct([('f0', U8, '')])), F('c', 'Pair16', DStruct([('f0', U16, ''), ('f1', U16, '')]))])
mem('InnerPad', [F('a', 'Pad', DStruct([('f0', U8, ''), ('f1', U16, '')])), F('b', 'u16', U16)])
mem('TrIn', [F('a', 'Pair16', DStruct([('f0', U16, ''), ('f1', U16, '')]))], pre='#[repr(transparent)]')
mem('TrReo', [F('a', 'Reord', DStruct([('f0', U16, ''), ('f1', U32, ''), ('f2', U16, '')]))], pre='#[repr(transparent)]')
mem('TrVec', [F('a', 'Vec<u16>', Seq(L32, U16))], pre='#[repr(transparent)]', elems=False)
mem('TrGen', [F('a', 'T', U32)], pre='#[repr(transparent)]', gen='<T>', use='TrGen<u32>', case_name='d_trgen')
mem('TrEl', [F('a', '(El<1, 3>,)', Struct([(0, E1)]))], pre='#[repr(transparent)]')
mem('ArrF', [F('a', '[u16; 3]', ArrayG(3, U16))])
mem('ArrF2', [F('a', '[u8; 4]', ArrayG(4, U8)), F('b', 'u32', U32)])
mem('BoolF', [F('a', 'bool', BoolG()), F('b', 'u8', U8)])
mem('CharF', [F('a', 'char', CharG()), F('b', 'u32', U32)])
mem('EndF', [F('a', 'Endianness', Tagged(Tag(1), {'LittleEndian': (0, []), 'BigEndian': (1, [])})), F('b', 'u8', U8)])
mem('NzF', [F('a', 'std::num::NonZeroU16', NonZero(2)), F('b', 'u16', U16)])
mem('IpF', [F('a', 'std::net::Ipv4Addr', Octets(4)), F('b', 'u32', U32)])
mem('UsF', [F('a', 'usize', U64), F('b', 'u64', U64)])
mem('DurF', [F('a', 'std::time::Duration', DurationG())])
mem('GenP', [F('a', 'A', U16), F('b', 'B', U32)], gen='<A, B>', use='GenP<u16, u32>')
mem('GenC', [F('a', 'A', U32), F('b', 'B', U32)], pre='#[repr(C)]', gen='<A, B>', use='GenC<u32, u32>')
# attributes take a type out of the plain memory form, whatever its representation
for nm, pre in (('', ''), ('Tr', '#[repr(transparent)]'), ('Pk', '#[repr(packed)]'), ('Cc', '#[repr(C)]')):
    mem('Var' + nm, [F('a', 'u64', VarInt(), 'varint')], pre=pre, arr=1)
    mem('Pre' + nm, [F('a', 'u16', U16, prefix=(b'AB', 'b"AB"'))], pre=pre)
    mem('Eof' + nm, [F('a', 'u16', U16, 'default_on_eof')], pre=pre, elems=False)
    mem('Skp' + nm, [F('a', 'u16', SkipG(), 'skip')], pre=pre)
mem('Var2', [F('a', 'u64', VarInt(), 'varint'), F('b', 'u64', U64)], arr=1)
mem('Skp2', [F('a', 'u16', SkipG(), 'skip'), F('b', 'u16', U16)])
mem('Skp2C', [F('a', 'u16', SkipG(), 'skip'), F('b', 'u16', U16)], pre='#[repr(C)]')

# slices borrowed from the input
for nm, t, g in (('U8', 'u8', U8), ('I8', 'i8', U8), ('U16', 'u16', U16), ('F64', 'f64', U64), ('U128', 'u128', U128), ('TrR', 'Tr16', DStruct([(0, U16, '')])),
                 ('PkR', 'P16', DStruct([('f0', U8, ''), ('f1', U16, '')]))):
    struct('Ref' + nm, [F('n', 'u8', U8), F('x', "&'a [%s]" % t, RefG(Seq(L32, g), t)), F('y', 'u16', U16)], gen="<'a>")
    struct('RefL' + nm, [F('n', 'u8', U8), F('x', "&'a [%s]" % t, RefG(Seq(LenExpr(lambda e: e['n']), g), t), 'length = n'), F('y', 'u16', U16)], gen="<'a>")
    struct('RefE' + nm, [F('n', 'u8', U8), F('x', "&'a [%s]" % t, RefG(Seq(LenRest(), g), t), 'length = ..')], gen="<'a>")
    struct('RefO' + nm, [F('n', 'u8', U8), F('x', "Option<&'a [%s]>" % t, Opt(RefG(Seq(L32, g), t)))], gen="<'a>")

# ---- containers and their length attributes --------------------------------------------------------------------
STR = ('str',)
CONT = [
    ('String', 'String', lambda l: Seq(l, Raw(1), 'str'), False),
    ('Vec8', 'Vec<u8>', lambda l: Seq(l, U8), False),
    ('Vec16', 'Vec<u16>', lambda l: Seq(l, U16), False),
    ('VecEl', 'Vec<%s>' % R1, lambda l: Seq(l, E1), False),
    ('CowStr', "Cow<'a, str>", lambda l: CowG(Seq(l, Raw(1), 'str'), Seq(l, Raw(1), 'str')), True),
    ('Cow8', "Cow<'a, [u8]>", lambda l: CowG(Seq(l, U8), Seq(l, U8)), True),
    ('Cow32', "Cow<'a, [u32]>", lambda l: CowG(Seq(l, U32), Seq(l, U32)), True),
    ('CowEl', "Cow<'a, [%s]>" % R1, lambda l: CowG(Seq(l, E1), Seq(l, E1)), True),
    ('Hm', 'HashMap<%s, %s>' % (R1, R2), lambda l: Seq(l, Pair(E1, E2), 'map'), False),
    ('Bm', 'BTreeMap<u16, %s>' % R1, lambda l: Seq(l, Pair(U16, E1), 'map'), False),
    ('Hs', 'HashSet<%s>' % R1, lambda l: Seq(l, One(E1), 'set'), False),
    ('Bs', 'BTreeSet<u16>', lambda l: Seq(l, One(U16), 'set'), False),
    ('CHm', "Cow<'a, HashMap<%s, %s>>" % (R1, R2), lambda l: CowG(Box(Seq(l, Pair(E1, E2), 'map')), Seq(l, Pair(E1, E2), 'map')), True),
    ('CBm', "Cow<'a, BTreeMap<%s, u16>>" % R1, lambda l: CowG(Box(Seq(l, Pair(E1, U16), 'map')), Seq(l, Pair(E1, U16), 'map')), True),
    ('CHs', "Cow<'a, HashSet<u16>>", lambda l: CowG(Box(Seq(l, One(U16), 'set')), Seq(l, One(U16), 'set')), True),
    ('CBs', "Cow<'a, BTreeSet<%s>>" % R1, lambda l: CowG(Box(Seq(l, One(E1), 'set')), Seq(l, One(E1), 'set')), True),
    ('RStr', "&'a str", lambda l: RefG(Seq(l, Raw(1), 'str'), 'u8'), True),
    ('R8', "&'a [u8]", lambda l: RefG(Seq(l, U8), 'u8'), True),
    ('R32', "&'a [u32]", lambda l: RefG(Seq(l, U32), 'u32'), True),
]
LT = {'u7': lambda: Len(1, 127), 'u8': lambda: Len(1), 'u16': lambda: Len(2), 'u32': lambda: Len(4), 'u64': lambda: Len(8), 'u64_varint': lambda: LenVar()}
LE_ = [('n', 'n', 'u8', U8, lambda e: e['n']), ('div', 'n / 4', 'u8', U8, lambda e: mk_op('Div', 8, False, e['n'], I(4))), ('k', '3usize', 'u8', U8, lambda e: I(3)),
       ('w', 'n', 'u16', U16, lambda e: e['n']), ('l', 'n', 'u32', U32, lambda e: e['n']), ('z', 'n', 'usize', U64, lambda e: e['n'])]
for nm, ty, mk, life in CONT:
    gen = "<'a>" if life else ''

    def st(suffix, fs, **k):
        struct('K' + nm + suffix, fs, gen=gen, group='cont', **k)
    st('D', [F('n', 'u16', U16), F('x', ty, mk(L32)), F('y', 'u8', U8)])
    for lt, l in LT.items():
        st('T' + lt.replace('_', ''), [F('x', ty, mk(l()), 'length_type = ' + lt), F('y', 'u8', U8)])
    for en, src, nt, ng, fn in LE_:
        st('L' + en, [F('n', nt, ng), F('x', ty, mk(LenExpr(fn)), 'length = ' + src), F('y', 'u16', U16)])
    st('E', [F('n', 'u16', U16), F('x', ty, mk(LenRest()), 'length = ..')])
    st('O', [F('n', 'u8', U8), F('x', 'Option<%s>' % ty, Opt(mk(L32))), F('y', 'u8', U8)])
    st('OT', [F('x', 'Option<%s>' % ty, Opt(mk(Len(1, 127))), 'length_type = u7'), F('y', 'u8', U8)])
    st('OV', [F('x', 'Option<%s>' % ty, Opt(mk(LenVar())), 'length_type = u64_varint'), F('y', 'u8', U8)])
    st('P', [F('x', ty, mk(Len(2)), 'length_type = u16', prefix=(b'xyz', '"xyz"')), F('y', 'u8', U8)])
    if not ty.startswith('&'):
        dflt = True
        st('F', [F('n', 'u8', U8), F('x', ty, mk(L32), 'default_on_eof')])
        st('FO', [F('n', 'u8', U8), F('x', 'Option<%s>' % ty, Opt(mk(Len(1))), 'default_on_eof, length_type = u8')])
        st('FL', [F('n', 'u8', U8), F('x', ty, mk(LenExpr(lambda e: e['n'])), 'default_on_eof, length = n'), F('y', 'u16', U16, 'default_on_eof')])
        st('S', [F('n', 'u8', U8), F('x', ty, SkipG(), 'skip'), F('y', 'u16', U16)])

# ---- other field attributes ---------------------------------------------------------------------------------------
PFX = [(b'HELLO', '"HELLO"'), (b'\x00\xff\x01', 'b"\\x00\\xff\\x01"'), (b'\xc3\xa9', "'é'"), (b'Z', "b'Z'"), (b'\x7b', '123u8'), (b'\xfe', '-2i8'), (b'\x01', 'true'), (b'\x00', 'false'), (b'', '""')]
for i, (b, s) in enumerate(PFX):
    struct('Px%d' % i, [F('a', 'u8', U8), F('b', 'u16', U16, prefix=(b, s)), F('c', R1, E1)])
    struct('Po%d' % i, [F('b', 'Option<%s>' % R1, Opt(E1), prefix=(b, s)), F('c', 'u8', U8)])
struct('PxUnit', [F('a', '()', Unit(), prefix=(b'MAGIC', 'b"MAGIC"')), F('b', R1, E1)])
struct('PxTwo', [F('a', 'u8', U8, prefix=(b'1', 'b"1"')), F('b', 'u8', U8, prefix=(b'22', 'b"22"'))], 'tuple')
struct('PxEof', [F('a', 'u8', U8), F('b', 'u16', U16, 'default_on_eof', prefix=(b'ab', 'b"ab"'))])
struct('Vi', [F('a', 'u64', VarInt(), 'varint'), F('b', 'u8', U8), F('c', 'u64', U64)])
struct('ViT', [F('a', R1, E1), F('c', 'u64', VarInt(), 'varint')], 'tuple')
struct('ViEof', [F('a', 'u8', U8), F('c', 'u64', VarInt(), 'varint, default_on_eof')])
struct('ViPx', [F('c', 'u64', VarInt(), 'varint', prefix=(b'v', "b'v'"))])
struct('Sk', [F('a', 'u8', U8), F('b', 'u32', SkipG(), 'skip'), F('c', 'u16', U16), F('d', 'Option<%s>' % R1, SkipG(), 'skip'), F('e', 'String', SkipG(), 'skip')])
struct('SkT', [F('a', 'u32', SkipG(), 'skip'), F('b', R1, E1), F('c', 'u64', SkipG(), 'skip')], 'tuple')
struct('Eo1', [F('a', 'u8', U8), F('b', 'u32', U32, 'default_on_eof'), F('c', 'u16', U16, 'default_on_eof')])
struct('Eo2', [F('a', R1, E1), F('b', 'Option<u32>', Opt(U32), 'default_on_eof')])
struct('Eo3', [F('b', '[u16; 2]', ArrayG(2, U16), 'default_on_eof'), F('c', '(u8, u16)', Struct([(0, U8), (1, U16)]), 'default_on_eof')])
struct('EoMid', [F('a', 'u16', U16), F('b', 'u32', U32, 'default_on_eof'), F('c', 'u8', U8)])
struct('EoB', [F('a', 'bool', BoolG(), 'default_on_eof'), F('b', 'char', CharG(), 'default_on_eof')])
for n in (0, 1, 2, 5):
    struct('Ar%d' % n, [F('a', '[%s; %d]' % (R1, n), ArrayG(n, E1)), F('b', '[u16; %d]' % n, ArrayG(n, U16)), F('c', '[u8; %d]' % n, ArrayG(n, U8)), F('d', 'Option<[u32; %d]>' % n, Opt(ArrayG(n, U32)))])
VARG = DStruct([('a', VarInt(), '')])
for nm in ('', 'Tr', 'Pk', 'Cc'):
    struct('ArVar' + nm, [F('a', '[Var%s; 1]' % nm, ArrayG(1, VARG))])
struct('ArTr', [F('a', '[Tr16; 2]', ArrayG(2, DStruct([(0, U16, '')]))), F('b', '[Reord; 2]', ArrayG(2, DStruct([('f0', U16, ''), ('f1', U32, ''), ('f2', U16, '')])))])
struct('OptP', [F('a', 'Option<u8>', Opt(U8)), F('b', 'Option<%s>' % R1, Opt(E1)), F('c', 'Option<Option<u16>>', Opt(Opt(U16))), F('d', 'Option<()>', Opt(Unit()))])
struct('TwoLen', [F('a', 'u8', U8), F('b', 'u8', U8), F('x', 'Vec<u16>', Seq(LenExpr(lambda e: e['b']), U16), 'length = b'), F('y', 'Vec<u8>', Seq(LenExpr(lambda e: e['a']), U8), 'length = a')])

# ---- enums ----------------------------------------------------------------------------------------------------------
TAGS = {'u7': lambda: Tag(1), 'u8': lambda: Tag(1), 'u16': lambda: Tag(2), 'u32': lambda: Tag(4), 'u64': lambda: Tag(8), 'u64_varint': lambda: VarTag()}
PTAGS = {'u7': lambda: PeekTag(1), 'u8': lambda: PeekTag(1), 'u16': lambda: PeekTag(2), 'u32': lambda: PeekTag(4), 'u64': lambda: PeekTag(8), 'u64_varint': lambda: PeekVarTag()}


def U(n, t, pre='', post=''):
    return (n, pre, post, t, 'unit', [])


def N(n, t, fs, pre='', post=''):
    return (n, pre, post, t, 'named', fs)


def X(n, t, fs, pre='', post=''):
    return (n, pre, post, t, 'tuple', fs)


enum('Plain', [U('A', 0), U('B', 1), U('C', 2)], Tag(4))
enum('Single', [U('A', 0)], Tag(4), derive=RW + CL)
enum('Empty', [], Tag(4), case_name=False)
case('d_single_vec', 'Vec<Single>', Seq(L32, DEnum(Tag(4), {'A': (0, [])})), group='derive')
case('d_single_arr', '[Single; 2]', ArrayG(2, DEnum(Tag(4), {'A': (0, [])})), group='derive')
case('d_single_cow', "Cow<'a, [Single]>", CowG(*[Seq(L32, DEnum(Tag(4), {'A': (0, [])}))] * 2), group='derive', life=True)
UN = DStruct([])
case('d_units_vec', 'Vec<UnitS>', Seq(L32, UN), group='derive')
case('d_units_cow', "Cow<'a, [UnitS]>", CowG(Seq(L32, UN), Seq(L32, UN)), group='derive', life=True)
case('d_units_arr', '[UnitS; 2]', ArrayG(2, UN), group='derive')
enum('Disc', [U('A', 5, post=' = 5'), U('B', 6), U('C', 2, post=' = 2'), U('D', 3), U('E', 0x80, post=' = 0x80')], Tag(4))
enum('TagA', [U('A', 7, '#[speedy(tag = 7)] '), N('B', 8, [F('x', 'u8', U8)]), X('C', 3, [F('x', R1, E1)], '#[speedy(tag = 3)] '), U('D', 4)], Tag(4))
enum('TagOver', [U('A', 9, '#[speedy(tag = 9)] ', ' = 1'), U('B', 10), U('C', 20, post=' = 20')], Tag(4))
for t, mk in TAGS.items():
    big = {'u7': 127, 'u8': 255, 'u16': 65535, 'u32': 0xffffffff, 'u64': (1 << 64) - 1, 'u64_varint': (1 << 64) - 1}[t]
    vs = [U('A', 0), N('B', 1, [F('x', 'u16', U16), F('y', R1, E1)]), X('C', 2, [F('x', 'Vec<u8>', Seq(L32, U8)), F('y', 'u8', U8)]), U('D', 100, '#[speedy(tag = 100)] '),
          X('E', big, [F('x', R2, E2)], '#[speedy(tag = %d)] ' % big)]
    if t == 'u64_varint':
        vs += [U('F', 128, '#[speedy(tag = 128)] '), U('G', 300000, '#[speedy(tag = 300000)] '), U('H', 1 << 55, '#[speedy(tag = %d)] ' % (1 << 55)), U('I', 1 << 56, '#[speedy(tag = %d)] ' % (1 << 56))]
    enum('Et' + t.replace('_', ''), vs, mk(), '#[speedy(tag_type = %s)]' % t)
    ps = [X('A', 1, [F('x', 'u8', U8)], '#[speedy(tag = 1)] '), X('B', 2, [F('x', 'u64', U64), F('y', R1, E1)], '#[speedy(tag = 2)] '), U('C', big, '#[speedy(tag = %d)] ' % big)]
    enum('Ep' + t.replace('_', ''), ps, PTAGS[t](), '#[speedy(tag_type = %s, peek_tag)]' % t)
    struct('Ps' + t.replace('_', ''), [F('k', 'Ep' + t.replace('_', ''), DEnum(PTAGS[t](), {'A': (1, [(0, U8, '')]), 'B': (2, [(0, U64, ''), (1, E1, '')]), 'C': (big, [])})), F('r', 'u16', U16)])
enum('EpFull', [X('A', 1, [F('x', 'u16', U16)], '#[speedy(tag = 1)] '), X('B', 2, [F('x', 'u32', U32)], '#[speedy(tag = 2)] ')], PeekTag(2), '#[speedy(tag_type = u16, peek_tag)]')
enum('EAttr', [N('A', 0, [F('n', 'u8', U8), F('x', 'Vec<u16>', Seq(LenExpr(lambda e: e['n']), U16), 'length = n')]),
               N('B', 1, [F('s', 'u32', SkipG(), 'skip'), F('v', 'u64', VarInt(), 'varint')]),
               X('C', 2, [F('x', 'String', Seq(Len(1), Raw(1), 'str'), 'length_type = u8')]),
               N('D', 3, [F('p', 'u8', U8, prefix=(b'!!', 'b"!!"')), F('e', 'u16', U16, 'default_on_eof')]),
               X('E', 4, [F('x', 'Vec<u8>', Seq(LenRest(), U8), 'length = ..')])], Tag(4))
enum('ELife', [X('A', 0, [F('x', "&'a str", RefG(Seq(L32, Raw(1), 'str'), 'u8'))]), X('B', 1, [F('x', "Cow<'a, [u16]>", CowG(Seq(L32, U16), Seq(L32, U16)))])], Tag(4), gen="<'a>")
enum('EMin', [X('A', 0, [F('x', 'u64', U64)]), X('B', 1, [F('x', 'u8', U8), F('y', 'Vec<u8>', Seq(L32, U8))]), N('C', 2, [F('x', 'String', Seq(L32, Raw(1), 'str'))])], Tag(1), '#[speedy(tag_type = u8)]')
EMG = DEnum(Tag(1), {'A': (0, [(0, U64, '')]), 'B': (1, [(0, U8, ''), (1, Seq(L32, U8), '')]), 'C': (2, [(0, Seq(L32, Raw(1), 'str'), '')])})
struct('EIn', [F('a', 'EMin', EMG), F('b', 'Option<EMin>', Opt(EMG)), F('c', 'u8', U8)])
