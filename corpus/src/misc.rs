//! Byte orders.
use crate::model::*;
use speedy::{BigEndian, Context, Endianness, LittleEndian, Reader};

fn order(big: bool) -> Endianness { if big { Endianness::BigEndian } else { Endianness::LittleEndian } }
const NATIVE_BIG: bool = cfg!(target_endian = "big");

// ---- byte order ------------------------------------------------------------------------------------------------------
pub fn root_i_end_ctx(big: bool) {
    model_check("the little endian context is not little endian", LittleEndian {}.endianness() == Endianness::LittleEndian);
    model_check("the big endian context is not big endian", BigEndian {}.endianness() == Endianness::BigEndian);
    let e = order(big);
    model_check("a byte order is not its own byte order", Context::endianness(&e) == e);
    model_check("the native byte order is wrong", Endianness::NATIVE == order(NATIVE_BIG));
    model_check("conversion is misjudged", e.conversion_necessary() == (big != NATIVE_BIG));
}
macro_rules! ends {
    ($($t:ident $u:ident $to_le:ident $to_be:ident, $read:ident $swap:ident $slice:ident, $a:ident $b:ident $c:ident;)*) => { $(
        pub fn $a(big: bool, s: &[u8]) {
            const N: usize = std::mem::size_of::<$t>();
            model_assume(s.len() == N);
            let raw = unsafe { (s.as_ptr() as *const $u).read_unaligned() };
            let v = order(big).$read(s);
            let v: $u = unsafe { std::mem::transmute::<$t, $u>(v) };
            model_check("the value is not the one encoded", v == if big { $u::from_be(raw) } else { $u::from_le(raw) });
        }
        pub fn $b(big: bool, v: $t) {
            let mut x = v;
            order(big).$swap(&mut x);
            let (v, x): ($u, $u) = unsafe { (std::mem::transmute(v), std::mem::transmute(x)) };
            model_check("the value is not brought into the byte order", x == if big { v.$to_be() } else { v.$to_le() });
        }
        pub fn $c(big: bool, s: &mut [$t], k: usize) {
            model_assume(k < s.len());
            let p = s.as_mut_ptr() as *mut $u;
            let v = unsafe { *p.add(k) };
            order(big).$slice(s);
            let x = unsafe { *p.add(k) };
            model_check("an element of the slice is not brought into the byte order", x == if big { v.$to_be() } else { v.$to_le() });
        }
    )* };
}
ends! {
    u16 u16 to_le to_be, read_u16 swap_u16 swap_slice_u16, root_i_end_read_u16 root_i_end_swap_u16 root_i_end_slice_u16;
    u32 u32 to_le to_be, read_u32 swap_u32 swap_slice_u32, root_i_end_read_u32 root_i_end_swap_u32 root_i_end_slice_u32;
    u64 u64 to_le to_be, read_u64 swap_u64 swap_slice_u64, root_i_end_read_u64 root_i_end_swap_u64 root_i_end_slice_u64;
    u128 u128 to_le to_be, read_u128 swap_u128 swap_slice_u128, root_i_end_read_u128 root_i_end_swap_u128 root_i_end_slice_u128;
    i16 u16 to_le to_be, read_i16 swap_i16 swap_slice_i16, root_i_end_read_i16 root_i_end_swap_i16 root_i_end_slice_i16;
    i32 u32 to_le to_be, read_i32 swap_i32 swap_slice_i32, root_i_end_read_i32 root_i_end_swap_i32 root_i_end_slice_i32;
    i64 u64 to_le to_be, read_i64 swap_i64 swap_slice_i64, root_i_end_read_i64 root_i_end_swap_i64 root_i_end_slice_i64;
    i128 u128 to_le to_be, read_i128 swap_i128 swap_slice_i128, root_i_end_read_i128 root_i_end_swap_i128 root_i_end_slice_i128;
    f32 u32 to_le to_be, read_f32 swap_f32 swap_slice_f32, root_i_end_read_f32 root_i_end_swap_f32 root_i_end_slice_f32;
    f64 u64 to_le to_be, read_f64 swap_f64 swap_slice_f64, root_i_end_read_f64 root_i_end_swap_f64 root_i_end_slice_f64;
}
pub fn root_i_end_slice_u8(big: bool, s: &mut [u8], k: usize) {
    model_assume(k < s.len());
    let v = s[k];
    order(big).swap_slice_u8(s);
    model_check("bytes are changed", s[k] == v);
}
pub fn root_i_end_slice_i8(big: bool, s: &mut [i8], k: usize) {
    model_assume(k < s.len());
    let v = s[k];
    order(big).swap_slice_i8(s);
    model_check("bytes are changed", s[k] == v);
}

// ---- elements without a size ----------------------------------------------------------------------------------------
trait Held { fn held(&self) -> usize; }
impl Held for Vec<Ez> { fn held(&self) -> usize { self.len() } }
impl Held for Box<[Ez]> { fn held(&self) -> usize { self.len() } }
impl Held for [Ez; 3] { fn held(&self) -> usize { 3 } }
impl Held for Ez { fn held(&self) -> usize { 1 } }
impl Held for Box<Ez> { fn held(&self) -> usize { 1 } }
impl Held for (Ez, u8, Ez) { fn held(&self) -> usize { 2 } }
impl Held for Option<Ez> { fn held(&self) -> usize { if self.is_some() { 1 } else { 0 } } }
impl Held for Result<Ez, (Ez, Ez)> { fn held(&self) -> usize { if self.is_ok() { 1 } else { 2 } } }
fn settle<T: Held>(x: &Result<T, speedy::Error>) {
    let n = match x { Ok(v) => v.held(), Err(_) => 0 };
    model_check("elements without a size are not all owned exactly once", model_alive() == n);
}
pub fn root_i_own_vec(reader: &mut Pr<LittleEndian>) { settle::<Vec<Ez>>(&reader.read_value()); }
pub fn root_i_own_vec_c(reader: &mut Prc<LittleEndian>) { settle::<Vec<Ez>>(&reader.read_value()); }
pub fn root_i_own_len(reader: &mut Pr<LittleEndian>, n: usize) { settle::<Vec<Ez>>(&reader.read_vec(n)); }
pub fn root_i_own_box(reader: &mut Pr<LittleEndian>) { settle::<Box<[Ez]>>(&reader.read_value()); }
pub fn root_i_own_arr(reader: &mut Pr<LittleEndian>) { settle::<[Ez; 3]>(&reader.read_value()); }
pub fn root_i_own_arr_c(reader: &mut Prc<LittleEndian>) { settle::<[Ez; 3]>(&reader.read_value()); }
pub fn root_i_own_one(reader: &mut Pr<LittleEndian>) { settle::<Ez>(&reader.read_value()); }
pub fn root_i_own_boxed(reader: &mut Pr<LittleEndian>) { settle::<Box<Ez>>(&reader.read_value()); }
pub fn root_i_own_tup(reader: &mut Pr<LittleEndian>) { settle::<(Ez, u8, Ez)>(&reader.read_value()); }
pub fn root_i_own_opt(reader: &mut Pr<LittleEndian>) { settle::<Option<Ez>>(&reader.read_value()); }
pub fn root_i_own_res(reader: &mut Pr<LittleEndian>) { settle::<Result<Ez, (Ez, Ez)>>(&reader.read_value()); }
pub fn root_i_own_eof(reader: &mut Pr<LittleEndian>) { settle::<Vec<Ez>>(&reader.read_vec_until_eof()); }
impl Held for std::borrow::Cow<'_, [Ez]> { fn held(&self) -> usize { (**self).len() } }
impl Clone for Ez { fn clone(&self) -> Self { model_live(true); Ez } }
pub fn root_i_own_cow(reader: &mut Pr<LittleEndian>) { settle::<std::borrow::Cow<[Ez]>>(&reader.read_value()); }
