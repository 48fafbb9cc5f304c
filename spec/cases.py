"""The types under analysis and their documented wire grammar (README, "Data format" tables)."""
from .grammar import *


class Case:
    def __init__(self, name, rust, g, rd=True, wr=True, ends='LB', cap=True, life=False, group='std', minimum=True, rust_w=None, rbody=None, wbody=None):
        self.rbody, self.wbody = rbody, wbody
        self.name, self.rust, self.g = name, rust, g
        self.rd, self.wr, self.ends, self.cap, self.life, self.group = rd, wr, ends, cap, life, group
        self.minimum = minimum
        self.rust_w = rust_w or rust


CASES = []


def case(name, rust, g, **k):
    CASES.append(Case(name, rust, g, **k))


U8, U16, U32, U64, U128 = Prim(1), Prim(2), Prim(4), Prim(8), Prim(16)
E1, E2 = Elem(1, 3), Elem(2, 5)
R1, R2 = 'El<1, 3>', 'El<2, 5>'
L32 = Len(4)

for n in (8, 16, 32, 64, 128):
    case('u%d' % n, 'u%d' % n, Prim(n // 8), ends='LBD')
    case('i%d' % n, 'i%d' % n, Prim(n // 8))
for n in (32, 64):
    case('f%d' % n, 'f%d' % n, Prim(n // 8), ends='LBD')
case('usize', 'usize', U64)
case('bool', 'bool', BoolG())
case('char', 'char', CharG())
case('unit', '()', Unit())
case('tup1', '(%s,)' % R1, Struct([(0, E1)]))
case('tup2', '(%s, u16)' % R1, Struct([(0, E1), (1, U16)]))
TUPG = [('u8', Prim(1)), ('u16', U16), (R1, E1), ('u32', U32), ('i64', U64), (R2, E2), ('u8', U8), ('i16', U16), ('f32', U32), ('u64', U64), ('i8', U8)]
for n in range(3, 12):
    case('tup%d' % n, '(%s)' % ', '.join(t for t, _ in TUPG[:n]), Struct([(i, g) for i, (_, g) in enumerate(TUPG[:n])]))
case('string', 'String', Seq(L32, Raw(1), 'str'))
case('cowstr', "Cow<'a, str>", CowG(Seq(L32, Raw(1), 'str'), Seq(L32, Raw(1), 'str')), life=True)
case('boxstr', 'Box<str>', Seq(L32, Raw(1), 'str'))
for t, g in (('u8', U8), ('u16', U16), ('i32', U32), ('f32', U32), ('u64', U64), ('f64', U64), ('u128', U128), (R1, E1)):
    nm = 'el' if t == R1 else t
    case('vec_' + nm, 'Vec<%s>' % t, Seq(L32, g), ends='LBD' if nm in ('u16', 'el') else 'LB')
    case('cow_' + nm, "Cow<'a, [%s]>" % t, CowG(Seq(L32, g), Seq(L32, g)), life=True)
    case('boxs_' + nm, 'Box<[%s]>' % t, Seq(L32, g))
for t, g in (('i8', U8), ('i16', U16), ('u32', U32), ('i64', U64), ('i128', U128)):
    case('vec_' + t, 'Vec<%s>' % t, Seq(L32, g))
case('vec_unit', 'Vec<()>', Seq(L32, Unit()))
case('vec_tup', 'Vec<(u16, u8)>', Seq(L32, Struct([(0, U16), (1, U8)])))
case('vec_usize', 'Vec<usize>', Seq(L32, U64))
case('vec_arr', 'Vec<[u16; 4]>', Seq(L32, ArrayG(4, U16)))
for c, cr in (('HashMap', 'hm'), ('BTreeMap', 'bm'), ('indexmap_v1::IndexMap', 'im1'), ('indexmap_v2::IndexMap', 'im2')):
    case(cr + '_el', '%s<%s, %s>' % (c, R1, R2), Seq(L32, Pair(E1, E2), 'map'))
    case(cr + '_prim', '%s<u16, u32>' % c, Seq(L32, Pair(U16, U32), 'map'))
    for kt, kg, vt, vg in (('u8', U8, 'u32', U32), ('u64', U64, 'i8', U8), ('u8', U8, 'u8', U8), ('i16', U16, R1, E1), (R2, E2, 'u16', U16)):
        case('%s_%s_%s' % (cr, kt[:3].replace('El<', 'el'), vt[:3].replace('El<', 'el')), '%s<%s, %s>' % (c, kt, vt), Seq(L32, Pair(kg, vg), 'map'))
for c, cr in (('HashSet', 'hs'), ('BTreeSet', 'bs'), ('indexmap_v1::IndexSet', 'is1'), ('indexmap_v2::IndexSet', 'is2')):
    case(cr + '_el', '%s<%s>' % (c, R1), Seq(L32, One(E1), 'set'))
    case(cr + '_prim', '%s<u32>' % c, Seq(L32, One(U32), 'set'))
    case(cr + '_u8', '%s<u8>' % c, Seq(L32, One(U8), 'set'))
    case(cr + '_tup', '%s<(u8, u16)>' % c, Seq(L32, One(Struct([(0, U8), (1, U16)])), 'set'))
for c, cr in (('HashMap', 'hm'), ('BTreeMap', 'bm')):
    g = Seq(L32, Pair(E1, E2), 'map')
    case('cow_' + cr, "Cow<'a, %s<%s, %s>>" % (c, R1, R2), CowG(Box(g), g), life=True)
for c, cr in (('HashSet', 'hs'), ('BTreeSet', 'bs')):
    g = Seq(L32, One(E1), 'set')
    case('cow_' + cr, "Cow<'a, %s<%s>>" % (c, R1), CowG(Box(g), g), life=True)
case('range', 'std::ops::Range<%s>' % R1, Struct([('start', E1), ('end', E1)]))
case('rangei', 'std::ops::RangeInclusive<%s>' % R1, Struct([('start', E1), ('end', E1)]))
case('range_u32', 'std::ops::Range<u32>', Struct([('start', U32), ('end', U32)]))
case('rangei_u16', 'std::ops::RangeInclusive<u16>', Struct([('start', U16), ('end', U16)]))
case('opt_el', 'Option<%s>' % R1, Opt(E1))
case('opt_u32', 'Option<u32>', Opt(U32))
case('opt_opt', 'Option<Option<u8>>', Opt(Opt(U8)))
case('res', 'Result<%s, %s>' % (R1, R2), Res(E1, E2))
case('res_21', 'Result<%s, %s>' % (R2, R1), Res(E2, E1))
case('res_u', 'Result<(), u64>', Res(Unit(), U64))
case('res_u2', 'Result<String, ()>', Res(Seq(L32, Raw(1), 'str'), Unit()))
case('opt_unit', 'Option<()>', Opt(Unit()))
case('opt_str', 'Option<String>', Opt(Seq(L32, Raw(1), 'str')))
case('opt_vec', 'Option<Vec<u16>>', Opt(Seq(L32, U16)))
case('res_p', 'Result<u16, u64>', Res(U16, U64))
case('endian', 'Endianness', Tagged(Tag(1), {'LittleEndian': (0, []), 'BigEndian': (1, [])}))
for s in 'ui':
    for n in (8, 16, 32, 64):
        case('nz%s%d' % (s, n), 'std::num::NonZero%s%d' % (s.upper(), n), NonZero(n // 8))
        case('at%s%d' % (s, n), 'std::sync::atomic::Atomic%s%d' % (s.upper(), n), Prim(n // 8))
case('ipv4', 'std::net::Ipv4Addr', Octets(4))
case('ipv6', 'std::net::Ipv6Addr', Octets(16))
case('ip', 'std::net::IpAddr', Tagged(Tag(1), {'V4': (0, [(0, Octets(4))]), 'V6': (1, [(0, Octets(16))])}))
case('duration', 'std::time::Duration', DurationG())
case('systime', 'std::time::SystemTime', SysTimeG())
for t, g, nm in (('u8', U8, 'u8'), ('u16', U16, 'u16'), ('f64', U64, 'f64'), (R1, E1, 'el'), ('(u8, u16)', Struct([(0, U8), (1, U16)]), 'tup')):
    for n in (0, 1, 3, 7):
        case('arr%d_%s' % (n, nm), '[%s; %d]' % (t, n), ArrayG(n, g))
case('arr_big_u8', '[u8; 1000]', ArrayG(1000, U8))
case('arr_arr', '[[u16; 2]; 3]', ArrayG(3, ArrayG(2, U16)))
case('box_u32', 'Box<u32>', Box(U32))
case('box_el', 'Box<%s>' % R1, Box(E1))
# borrowed forms that only exist for writing
case('str', "&'a str", Seq(L32, Raw(1), 'str'), rd=False, life=True)
case('sl_u16', "&'a [u16]", Seq(L32, U16), rd=False, life=True)
case('sl_el', "&'a [%s]" % R1, Seq(L32, E1), rd=False, life=True)
case('ref_u32', "&'a u32", Box(U32), rd=False, life=True)
case('refm_el', "&'a mut %s" % R1, Box(E1), rd=False, life=True)
case('uuid', 'uuid::Uuid', Raw(16), group='ext')
case('chrono', 'chrono::DateTime<chrono::Utc>', ChronoG(), group='ext')
case('regex', 'regex::Regex', RegexG(), group='ext')
case('smallvec_u16', 'smallvec::SmallVec<[u16; 4]>', SmallVecG(Seq(L32, U16)), group='ext')
case('smallvec_el', 'smallvec::SmallVec<[%s; 4]>' % R1, SmallVecG(Seq(L32, E1)), group='ext')
def glam_off(n, s, pad):
    """offsets of n components of s bytes in columns of `pad` components padded to 4"""
    return [((i // pad) * 4 + i % pad) * s if pad else i * s for i in range(n)]
for t, n, s, pad in (('Vec2', 2, 4, 0), ('Vec3', 3, 4, 0), ('Vec3A', 3, 4, 0), ('Vec4', 4, 4, 0), ('DVec2', 2, 8, 0), ('DVec3', 3, 8, 0), ('DVec4', 4, 8, 0),
                     ('IVec2', 2, 4, 0), ('IVec3', 3, 4, 0), ('IVec4', 4, 4, 0), ('UVec2', 2, 4, 0), ('UVec3', 3, 4, 0), ('UVec4', 4, 4, 0),
                     ('Quat', 4, 4, 0), ('DQuat', 4, 8, 0), ('Mat2', 4, 4, 0), ('Mat3', 9, 4, 0), ('Mat3A', 9, 4, 3), ('Mat4', 16, 4, 0),
                     ('DMat2', 4, 8, 0), ('DMat3', 9, 8, 0), ('DMat4', 16, 8, 0), ('Affine2', 6, 4, 0), ('Affine3A', 12, 4, 3), ('DAffine2', 6, 8, 0), ('DAffine3', 12, 8, 0)):
    case('glam_' + t.lower(), 'glam::' + t, Comps(glam_off(n, s, pad), s), group='ext')
for t, n in (('BVec2', 2), ('BVec3', 3), ('BVec4', 4)):
    case('glam_' + t.lower(), 'glam::' + t, BoolMask(n), group='ext')

# integers of variable length
case('varint', 'speedy::private::VarInt64', VarInt(), group='varint', ends='LBD')
case('varint_m', 'u64', VarInt(), group='varint', rbody='r.read_u64_varint()', wbody='w.write_u64_varint(*v)')
# methods of readers and writers
for n in (8, 16, 32, 64, 128):
    for s in 'uif':
        t = s + str(n)
        if s == 'f' and n not in (32, 64):
            continue
        case('me_' + t, t, Prim(n // 8), group='method', rbody='r.read_%s()' % t, wbody='w.write_%s(*v)' % t, ends='LBD')
        case('pk_' + t, t, Peek(Prim(n // 8)), group='method', rbody='r.peek_%s()' % t, wr=False, ends='LBD')
# elements of which there are several kinds, and sequences of sequences
STRG = Seq(L32, Raw(1), 'str')
case('vec_bool', 'Vec<bool>', Seq(L32, BoolG()))
case('vec_char', 'Vec<char>', Seq(L32, CharG()))
case('vec_opt', 'Vec<Option<%s>>' % R1, Seq(L32, Opt(E1)))
case('vec_optu', 'Vec<Option<u16>>', Seq(L32, Opt(U16)))
case('vec_res', 'Vec<Result<u16, %s>>' % R1, Seq(L32, Res(U16, E1)))
case('vec_vec', 'Vec<Vec<%s>>' % R1, Seq(L32, Seq(L32, E1)))
case('vec_vecu', 'Vec<Vec<u16>>', Seq(L32, Seq(L32, U16)))
case('vec_string', 'Vec<String>', Seq(L32, STRG))
case('vec_box', 'Vec<Box<%s>>' % R1, Seq(L32, Box(E1)))
case('vec_nz', 'Vec<std::num::NonZeroU16>', Seq(L32, NonZero(2)))
case('vec_end', 'Vec<Endianness>', Seq(L32, Tagged(Tag(1), {'LittleEndian': (0, []), 'BigEndian': (1, [])})))
case('vec_ip', 'Vec<std::net::Ipv4Addr>', Seq(L32, Octets(4)))
case('hm_bool', 'HashMap<u8, bool>', Seq(L32, Pair(U8, BoolG()), 'map'))
case('bm_opt', 'BTreeMap<u16, Option<%s>>' % R1, Seq(L32, Pair(U16, Opt(E1)), 'map'))
case('bm_str', 'BTreeMap<u16, String>', Seq(L32, Pair(U16, STRG), 'map'))
case('bs_opt', 'BTreeSet<Option<u16>>', Seq(L32, One(Opt(U16)), 'set'))
case('hs_bool', 'HashSet<bool>', Seq(L32, One(BoolG()), 'set'))
case('hs_str', 'HashSet<String>', Seq(L32, One(STRG), 'set'))
case('arr_big_u32', '[u32; 300]', ArrayG(300, U32), ends='L')
case('arr_big_el', '[%s; 50]' % R1, ArrayG(50, E1), rd=False)
case('arr_opt', '[Option<u16>; 2]', ArrayG(2, Opt(U16)))
case('arr_bool', '[bool; 3]', ArrayG(3, BoolG()))
case('tup_vec', '(Vec<u8>, %s)' % R1, Struct([(0, Seq(L32, U8)), (1, E1)]))
case('box_vec', 'Box<Vec<u16>>', Box(Seq(L32, U16)))
case('cow_optu', "Cow<'a, [Option<u16>]>", CowG(Seq(L32, Opt(U16)), Seq(L32, Opt(U16))), life=True)

# borrowed from the input
case('rd_str', "&'a str", RefG(Seq(L32, Raw(1), 'str'), 'u8'), wr=False, life=True, ends='LBD')
for t, n, e in (('u8', 1, 'LBD'), ('i8', 1, 'LB'), ('u16', 2, 'L'), ('i32', 4, 'L'), ('f32', 4, 'L'), ('u64', 8, 'L'), ('f64', 8, 'L'), ('u128', 16, 'L')):
    case('rd_sl_' + t, "&'a [%s]" % t, RefG(Seq(L32, Prim(n)), t), wr=False, life=True, ends=e)
    for k in (0, 1, 3):
        case('rd_ar%d_%s' % (k, t), "&'a [%s; %d]" % (t, k), RefArrG(ArrayG(k, Prim(n)), t), wr=False, life=True, ends=e)
case('rd_opt', "Option<&'a str>", Opt(RefG(Seq(L32, Raw(1), 'str'), 'u8')), wr=False, life=True)
case('rd_tup', "(u8, &'a [u16])", Struct([(0, U8), (1, RefG(Seq(L32, U16), 'u16'))]), wr=False, life=True, ends='L')

# the byte order is that of the context at each access, also when it changes on the way
LEX, BEX = 'Endianness::LittleEndian', 'Endianness::BigEndian'
def sw(name, parts, **k):
    """parts: [(L, B or None, rust type, grammar)]"""
    rd, wr = [], []
    for i, (e, t, g) in enumerate(parts):
        if e:
            rd.append('*r.context_mut() = %s; ' % (LEX if e == 'L' else BEX))
            wr.append('*w.context_mut() = %s; ' % (LEX if e == 'L' else BEX))
        rd.append('let x%d: %s = r.read_value()?; ' % (i, t))
        wr.append('w.write_value(&v.%d)?; ' % i)
    case('sw_' + name, '(%s,)' % ', '.join(t for _, t, _ in parts), Sw([(e, i, g) for i, (e, _, g) in enumerate(parts)]), group='helper', ends='D',
         rbody='{ %s Ok((%s,)) }' % (''.join(rd), ', '.join('x%d' % i for i in range(len(parts)))), wbody='{ %s Ok(()) }' % ''.join(wr), **k)
sw('ints', [(None, 'u16', U16), ('B', 'u32', U32), ('L', 'u64', U64), ('B', 'i16', U16)])
sw('back', [('B', 'f32', U32), ('L', 'f64', U64), (None, 'u128', U128)])
sw('vec', [('B', 'Vec<u16>', Seq(L32, U16)), ('L', 'Vec<u32>', Seq(L32, U32))])
sw('vecf', [('B', 'Vec<f64>', Seq(L32, U64)), (None, 'Vec<u8>', Seq(L32, U8)), ('L', 'char', CharG())])
sw('map', [('B', 'BTreeMap<u16, u32>', Seq(L32, Pair(U16, U32), 'map')), ('L', 'BTreeSet<u32>', Seq(L32, One(U32), 'set'))])
sw('mapl', [('L', 'HashMap<u64, u8>', Seq(L32, Pair(U64, U8), 'map')), ('B', 'HashSet<u16>', Seq(L32, One(U16), 'set'))])
sw('arr', [('B', '[u16; 3]', ArrayG(3, U16)), ('L', '[u32; 2]', ArrayG(2, U32))])
sw('mix', [('B', 'String', Seq(L32, Raw(1), 'str')), ('L', 'Option<u16>', Opt(U16)), ('B', 'std::time::Duration', DurationG())])
sw('cow', [('B', "Cow<'a, [u16]>", CowG(Seq(L32, U16), Seq(L32, U16))), ('L', "Cow<'a, [u32]>", CowG(Seq(L32, U32), Seq(L32, U32)))], life=True)

# methods of readers and writers for sequences
for nm, t, g in (('u8', 'u8', U8), ('u16', 'u16', U16), ('f32', 'f32', U32), ('u64', 'u64', U64), ('el', R1, E1), ('tup', '(u16, u8)', Struct([(0, U16), (1, U8)])), ('unit', '()', Unit())):
    case('hp_vec_' + nm, 'Vec<%s>' % t, Seq(Len(2), g), group='helper', rbody='{ let n = r.read_u16()?; r.read_vec(n as usize) }',
         wbody='{ if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) }')
    case('hp_cow_' + nm, "Cow<'a, [%s]>" % t, CowG(Seq(Len(1), g), Seq(Len(1), g)), group='helper', life=True, wr=False, rbody='{ let n = r.read_u8()?; r.read_cow(n as usize) }')
    if nm != 'unit':
        case('hp_eof_' + nm, 'Vec<%s>' % t, Seq(LenRest(), g), group='helper', rbody='r.read_vec_until_eof()', wbody='w.write_slice(v)')
        case('hp_ceof_' + nm, "Cow<'a, [%s]>" % t, CowG(Seq(LenRest(), g), Seq(LenRest(), g)), group='helper', life=True, wr=False, rbody='r.read_cow_until_eof()')
for nm, c, t, g in (('el', 'HashSet', R1, E1), ('u16', 'HashSet', 'u16', U16), ('u8', 'BTreeSet', 'u8', U8), ('str', 'BTreeSet', 'String', Seq(L32, Raw(1), 'str'))):
    case('hp_coll_' + nm, '%s<%s>' % (c, t), Seq(Len(2), One(g), 'set'), group='helper', wr=False, rbody='{ let n = r.read_u16()?; r.read_collection(n as usize) }')
    if nm != 'str':
        case('hp_colle_' + nm, '%s<%s>' % (c, t), Seq(LenRest(), One(g), 'set'), group='helper', rbody='r.read_collection_until_eof()', wbody='w.write_collection(v.iter())')
for nm, kt, kg, vt, vg in (('el', R1, E1, R2, E2), ('u8u16', 'u8', U8, 'u16', U16), ('u64u8', 'u64', U64, 'u8', U8), ('u16', 'u16', U16, 'u32', U32), ('u8', 'u8', U8, 'i8', U8), ('mix', 'u8', U8, R1, E1)):
    case('hp_kv_' + nm, 'HashMap<%s, %s>' % (kt, vt), Seq(Len(2), Pair(kg, vg), 'map'), group='helper', wr=False, rbody='{ let n = r.read_u16()?; r.read_key_value_collection(n as usize) }')
    case('hp_kve_' + nm, 'HashMap<%s, %s>' % (kt, vt), Seq(LenRest(), Pair(kg, vg), 'map'), group='helper', rbody='r.read_collection_until_eof()', wbody='w.write_collection(v.iter())')
case('hp_str', 'String', Seq(Len(1), Raw(1), 'str'), group='helper', wr=False, rbody='{ let n = r.read_u8()?; r.read_string(n as usize) }')
case('hp_val', '(u16, Option<%s>)' % R1, Struct([(0, U16), (1, Opt(E1))]), group='helper', rbody='r.read_value()', wbody='w.write_value(v)')
case('hp_pkvar', 'u64', PeekVar(), group='helper', wr=False, rbody='r.peek_u64_varint()')
