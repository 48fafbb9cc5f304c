// generated by spec/corpus.py
use crate::model::*;
use speedy::*;
use std::borrow::Cow;
use std::collections::*;
type LE = LittleEndian;
type BE = BigEndian;

#[derive(Readable, Writable)] 
pub struct Named { pub a: u8, pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Tup(pub u16, pub El<1, 3>, pub u8);
#[derive(Readable, Writable, PartialEq, Eq, Hash, PartialOrd, Ord, Clone)] 
pub struct UnitS;
#[derive(Readable, Writable)] 
pub struct EmptyN {  }
#[derive(Readable, Writable)] 
pub struct AllPrims { pub f0: u8, pub f1: u16, pub f2: u32, pub f3: u64, pub f4: u128, pub f5: i8, pub f6: i16, pub f7: i32, pub f8: i64, pub f9: i128, pub f10: f32, pub f11: f64 }
#[derive(Readable, Writable)] 
pub struct AllPrimsRev { pub f0: f64, pub f1: f32, pub f2: i128, pub f3: i64, pub f4: i32, pub f5: i16, pub f6: i8, pub f7: u128, pub f8: u64, pub f9: u32, pub f10: u16, pub f11: u8 }
#[derive(Readable, Writable)] 
pub struct Others { pub a: bool, pub b: char, pub c: usize, pub d: (u8, u16), pub e: () }
#[derive(Readable, Writable)] 
pub struct Nest { pub a: u8, pub b: Named, pub c: u16 }
#[derive(Readable, Writable)] 
pub struct Boxed { pub a: Box<u32>, pub b: Box<[u16]> }
#[derive(Readable, Writable)] 
pub struct Gen<T> { pub a: T, pub b: Vec<T>, pub c: Option<T>, pub d: [T; 2] }
#[derive(Readable, Writable)] 
pub struct Gen2<A, B> { pub a: A, pub b: B }
#[derive(Readable, Writable, Clone)] 
pub struct One8 { pub f0: u8 }
#[derive(Readable, Writable, Clone)] 
pub struct TOne8(pub u8);
#[derive(Readable, Writable, Clone)] 
pub struct One16 { pub f0: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct TOne16(pub u16);
#[derive(Readable, Writable, Clone)] 
pub struct Pair16 { pub f0: u16, pub f1: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct TPair16(pub u16, pub u16);
#[derive(Readable, Writable, Clone)] 
pub struct Pad { pub f0: u8, pub f1: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct TPad(pub u8, pub u16);
#[derive(Readable, Writable, Clone)] 
pub struct Reord { pub f0: u16, pub f1: u32, pub f2: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct TReord(pub u16, pub u32, pub u16);
#[derive(Readable, Writable, Clone)] 
pub struct Reord2 { pub f0: u8, pub f1: u32, pub f2: u8, pub f3: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct TReord2(pub u8, pub u32, pub u8, pub u16);
#[derive(Readable, Writable, Clone)] 
pub struct Down { pub f0: u32, pub f1: u16, pub f2: u8, pub f3: u8 }
#[derive(Readable, Writable, Clone)] 
pub struct TDown(pub u32, pub u16, pub u8, pub u8);
#[derive(Readable, Writable, Clone)] 
pub struct Four { pub f0: u32, pub f1: i32, pub f2: f32, pub f3: u32 }
#[derive(Readable, Writable, Clone)] 
pub struct TFour(pub u32, pub i32, pub f32, pub u32);
#[derive(Readable, Writable, Clone)] 
pub struct Five8 { pub f0: u8, pub f1: u8, pub f2: u8, pub f3: i8, pub f4: u8 }
#[derive(Readable, Writable, Clone)] 
pub struct TFive8(pub u8, pub u8, pub u8, pub i8, pub u8);
#[derive(Readable, Writable, Clone)] 
pub struct Big { pub f0: u64, pub f1: f64, pub f2: u64 }
#[derive(Readable, Writable, Clone)] 
pub struct TBig(pub u64, pub f64, pub u64);
#[derive(Readable, Writable, Clone)] 
pub struct Mixed { pub f0: u8, pub f1: i8, pub f2: u16, pub f3: f32 }
#[derive(Readable, Writable, Clone)] 
pub struct TMixed(pub u8, pub i8, pub u16, pub f32);
#[derive(Readable, Writable, Clone)] 
pub struct Q { pub f0: u128 }
#[derive(Readable, Writable, Clone)] 
pub struct TQ(pub u128);
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct C8 { pub f0: u8, pub f1: u8 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct C16 { pub f0: u16, pub f1: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct CPad { pub f0: u8, pub f1: u32 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct CTail { pub f0: u32, pub f1: u8 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct CMix { pub f0: u8, pub f1: i8, pub f2: u16, pub f3: u32 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct CLong { pub f0: u16, pub f1: u16, pub f2: u16, pub f3: u16, pub f4: u16, pub f5: u16 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct P16 { pub f0: u8, pub f1: u16 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct PMix { pub f0: u8, pub f1: u32, pub f2: u16 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct P64 { pub f0: u8, pub f1: f64 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct POne { pub f0: u32 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct Tr8(pub u8);
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct Tr16(pub u16);
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct Tr64(pub f64);
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct TrN { pub f0: u32 }
#[derive(Readable, Writable, Clone)] #[repr(align(4))]
pub struct Al { pub f0: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C, align(8))]
pub struct CAl { pub f0: u32, pub f1: u32 }
#[derive(Readable, Writable, Clone)] 
pub struct Inner { pub a: Pair16, pub b: u32 }
#[derive(Readable, Writable, Clone)] 
pub struct Inner2 { pub a: u8, pub b: One8, pub c: Pair16 }
#[derive(Readable, Writable, Clone)] 
pub struct InnerPad { pub a: Pad, pub b: u16 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct TrIn { pub a: Pair16 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct TrReo { pub a: Reord }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct TrVec { pub a: Vec<u16> }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct TrGen<T> { pub a: T }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct TrEl { pub a: (El<1, 3>,) }
#[derive(Readable, Writable, Clone)] 
pub struct ArrF { pub a: [u16; 3] }
#[derive(Readable, Writable, Clone)] 
pub struct ArrF2 { pub a: [u8; 4], pub b: u32 }
#[derive(Readable, Writable, Clone)] 
pub struct BoolF { pub a: bool, pub b: u8 }
#[derive(Readable, Writable, Clone)] 
pub struct CharF { pub a: char, pub b: u32 }
#[derive(Readable, Writable, Clone)] 
pub struct EndF { pub a: Endianness, pub b: u8 }
#[derive(Readable, Writable, Clone)] 
pub struct NzF { pub a: std::num::NonZeroU16, pub b: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct IpF { pub a: std::net::Ipv4Addr, pub b: u32 }
#[derive(Readable, Writable, Clone)] 
pub struct UsF { pub a: usize, pub b: u64 }
#[derive(Readable, Writable, Clone)] 
pub struct DurF { pub a: std::time::Duration }
#[derive(Readable, Writable, Clone)] 
pub struct GenP<A, B> { pub a: A, pub b: B }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct GenC<A, B> { pub a: A, pub b: B }
#[derive(Readable, Writable, Clone)] 
pub struct Var { #[speedy(varint)] pub a: u64 }
#[derive(Readable, Writable, Clone)] 
pub struct Pre { #[speedy(constant_prefix = b"AB")] pub a: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct Eof { #[speedy(default_on_eof)] pub a: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct Skp { #[speedy(skip)] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct VarTr { #[speedy(varint)] pub a: u64 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct PreTr { #[speedy(constant_prefix = b"AB")] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct EofTr { #[speedy(default_on_eof)] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(transparent)]
pub struct SkpTr { #[speedy(skip)] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct VarPk { #[speedy(varint)] pub a: u64 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct PrePk { #[speedy(constant_prefix = b"AB")] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct EofPk { #[speedy(default_on_eof)] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(packed)]
pub struct SkpPk { #[speedy(skip)] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct VarCc { #[speedy(varint)] pub a: u64 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct PreCc { #[speedy(constant_prefix = b"AB")] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct EofCc { #[speedy(default_on_eof)] pub a: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct SkpCc { #[speedy(skip)] pub a: u16 }
#[derive(Readable, Writable, Clone)] 
pub struct Var2 { #[speedy(varint)] pub a: u64, pub b: u64 }
#[derive(Readable, Writable, Clone)] 
pub struct Skp2 { #[speedy(skip)] pub a: u16, pub b: u16 }
#[derive(Readable, Writable, Clone)] #[repr(C)]
pub struct Skp2C { #[speedy(skip)] pub a: u16, pub b: u16 }
#[derive(Readable, Writable)] 
pub struct RefU8<'a> { pub n: u8, pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefLU8<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefEU8<'a> { pub n: u8, #[speedy(length = ..)] pub x: &'a [u8] }
#[derive(Readable, Writable)] 
pub struct RefOU8<'a> { pub n: u8, pub x: Option<&'a [u8]> }
#[derive(Readable, Writable)] 
pub struct RefI8<'a> { pub n: u8, pub x: &'a [i8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefLI8<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [i8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefEI8<'a> { pub n: u8, #[speedy(length = ..)] pub x: &'a [i8] }
#[derive(Readable, Writable)] 
pub struct RefOI8<'a> { pub n: u8, pub x: Option<&'a [i8]> }
#[derive(Readable, Writable)] 
pub struct RefU16<'a> { pub n: u8, pub x: &'a [u16], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefLU16<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [u16], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefEU16<'a> { pub n: u8, #[speedy(length = ..)] pub x: &'a [u16] }
#[derive(Readable, Writable)] 
pub struct RefOU16<'a> { pub n: u8, pub x: Option<&'a [u16]> }
#[derive(Readable, Writable)] 
pub struct RefF64<'a> { pub n: u8, pub x: &'a [f64], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefLF64<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [f64], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefEF64<'a> { pub n: u8, #[speedy(length = ..)] pub x: &'a [f64] }
#[derive(Readable, Writable)] 
pub struct RefOF64<'a> { pub n: u8, pub x: Option<&'a [f64]> }
#[derive(Readable, Writable)] 
pub struct RefU128<'a> { pub n: u8, pub x: &'a [u128], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefLU128<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [u128], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefEU128<'a> { pub n: u8, #[speedy(length = ..)] pub x: &'a [u128] }
#[derive(Readable, Writable)] 
pub struct RefOU128<'a> { pub n: u8, pub x: Option<&'a [u128]> }
#[derive(Readable, Writable)] 
pub struct RefTrR<'a> { pub n: u8, pub x: &'a [Tr16], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefLTrR<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [Tr16], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefETrR<'a> { pub n: u8, #[speedy(length = ..)] pub x: &'a [Tr16] }
#[derive(Readable, Writable)] 
pub struct RefOTrR<'a> { pub n: u8, pub x: Option<&'a [Tr16]> }
#[derive(Readable, Writable)] 
pub struct RefPkR<'a> { pub n: u8, pub x: &'a [P16], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefLPkR<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [P16], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct RefEPkR<'a> { pub n: u8, #[speedy(length = ..)] pub x: &'a [P16] }
#[derive(Readable, Writable)] 
pub struct RefOPkR<'a> { pub n: u8, pub x: Option<&'a [P16]> }
#[derive(Readable, Writable)] 
pub struct KStringD { pub n: u16, pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringTu7 { #[speedy(length_type = u7)] pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringTu8 { #[speedy(length_type = u8)] pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringTu16 { #[speedy(length_type = u16)] pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringTu32 { #[speedy(length_type = u32)] pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringTu64 { #[speedy(length_type = u64)] pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringTu64varint { #[speedy(length_type = u64_varint)] pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringLn { pub n: u8, #[speedy(length = n)] pub x: String, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KStringLdiv { pub n: u8, #[speedy(length = n / 4)] pub x: String, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KStringLk { pub n: u8, #[speedy(length = 3usize)] pub x: String, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KStringLw { pub n: u16, #[speedy(length = n)] pub x: String, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KStringLl { pub n: u32, #[speedy(length = n)] pub x: String, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KStringLz { pub n: usize, #[speedy(length = n)] pub x: String, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KStringE { pub n: u16, #[speedy(length = ..)] pub x: String }
#[derive(Readable, Writable)] 
pub struct KStringO { pub n: u8, pub x: Option<String>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringOT { #[speedy(length_type = u7)] pub x: Option<String>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringOV { #[speedy(length_type = u64_varint)] pub x: Option<String>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringP { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: String, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KStringF { pub n: u8, #[speedy(default_on_eof)] pub x: String }
#[derive(Readable, Writable)] 
pub struct KStringFO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<String> }
#[derive(Readable, Writable)] 
pub struct KStringFL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: String, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KStringS { pub n: u8, #[speedy(skip)] pub x: String, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8D { pub n: u16, pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8Tu7 { #[speedy(length_type = u7)] pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8Tu8 { #[speedy(length_type = u8)] pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8Tu16 { #[speedy(length_type = u16)] pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8Tu32 { #[speedy(length_type = u32)] pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8Tu64 { #[speedy(length_type = u64)] pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8Tu64varint { #[speedy(length_type = u64_varint)] pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8Ln { pub n: u8, #[speedy(length = n)] pub x: Vec<u8>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8Ldiv { pub n: u8, #[speedy(length = n / 4)] pub x: Vec<u8>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8Lk { pub n: u8, #[speedy(length = 3usize)] pub x: Vec<u8>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8Lw { pub n: u16, #[speedy(length = n)] pub x: Vec<u8>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8Ll { pub n: u32, #[speedy(length = n)] pub x: Vec<u8>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8Lz { pub n: usize, #[speedy(length = n)] pub x: Vec<u8>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8E { pub n: u16, #[speedy(length = ..)] pub x: Vec<u8> }
#[derive(Readable, Writable)] 
pub struct KVec8O { pub n: u8, pub x: Option<Vec<u8>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8OT { #[speedy(length_type = u7)] pub x: Option<Vec<u8>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8OV { #[speedy(length_type = u64_varint)] pub x: Option<Vec<u8>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8P { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Vec<u8>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec8F { pub n: u8, #[speedy(default_on_eof)] pub x: Vec<u8> }
#[derive(Readable, Writable)] 
pub struct KVec8FO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Vec<u8>> }
#[derive(Readable, Writable)] 
pub struct KVec8FL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Vec<u8>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec8S { pub n: u8, #[speedy(skip)] pub x: Vec<u8>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16D { pub n: u16, pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16Tu7 { #[speedy(length_type = u7)] pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16Tu8 { #[speedy(length_type = u8)] pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16Tu16 { #[speedy(length_type = u16)] pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16Tu32 { #[speedy(length_type = u32)] pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16Tu64 { #[speedy(length_type = u64)] pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16Tu64varint { #[speedy(length_type = u64_varint)] pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16Ln { pub n: u8, #[speedy(length = n)] pub x: Vec<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16Ldiv { pub n: u8, #[speedy(length = n / 4)] pub x: Vec<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16Lk { pub n: u8, #[speedy(length = 3usize)] pub x: Vec<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16Lw { pub n: u16, #[speedy(length = n)] pub x: Vec<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16Ll { pub n: u32, #[speedy(length = n)] pub x: Vec<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16Lz { pub n: usize, #[speedy(length = n)] pub x: Vec<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16E { pub n: u16, #[speedy(length = ..)] pub x: Vec<u16> }
#[derive(Readable, Writable)] 
pub struct KVec16O { pub n: u8, pub x: Option<Vec<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16OT { #[speedy(length_type = u7)] pub x: Option<Vec<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16OV { #[speedy(length_type = u64_varint)] pub x: Option<Vec<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16P { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Vec<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVec16F { pub n: u8, #[speedy(default_on_eof)] pub x: Vec<u16> }
#[derive(Readable, Writable)] 
pub struct KVec16FO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Vec<u16>> }
#[derive(Readable, Writable)] 
pub struct KVec16FL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Vec<u16>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVec16S { pub n: u8, #[speedy(skip)] pub x: Vec<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElD { pub n: u16, pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElTu7 { #[speedy(length_type = u7)] pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElTu8 { #[speedy(length_type = u8)] pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElTu16 { #[speedy(length_type = u16)] pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElTu32 { #[speedy(length_type = u32)] pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElTu64 { #[speedy(length_type = u64)] pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElTu64varint { #[speedy(length_type = u64_varint)] pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElLn { pub n: u8, #[speedy(length = n)] pub x: Vec<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElLdiv { pub n: u8, #[speedy(length = n / 4)] pub x: Vec<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElLk { pub n: u8, #[speedy(length = 3usize)] pub x: Vec<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElLw { pub n: u16, #[speedy(length = n)] pub x: Vec<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElLl { pub n: u32, #[speedy(length = n)] pub x: Vec<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElLz { pub n: usize, #[speedy(length = n)] pub x: Vec<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElE { pub n: u16, #[speedy(length = ..)] pub x: Vec<El<1, 3>> }
#[derive(Readable, Writable)] 
pub struct KVecElO { pub n: u8, pub x: Option<Vec<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElOT { #[speedy(length_type = u7)] pub x: Option<Vec<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElOV { #[speedy(length_type = u64_varint)] pub x: Option<Vec<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElP { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Vec<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KVecElF { pub n: u8, #[speedy(default_on_eof)] pub x: Vec<El<1, 3>> }
#[derive(Readable, Writable)] 
pub struct KVecElFO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Vec<El<1, 3>>> }
#[derive(Readable, Writable)] 
pub struct KVecElFL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Vec<El<1, 3>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KVecElS { pub n: u8, #[speedy(skip)] pub x: Vec<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrD<'a> { pub n: u16, pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrTu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrTu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrTu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrTu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrTu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrTu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrLn<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, str>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrLdiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, str>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrLk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, str>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrLw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, str>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrLl<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, str>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrLz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, str>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrE<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, str> }
#[derive(Readable, Writable)] 
pub struct KCowStrO<'a> { pub n: u8, pub x: Option<Cow<'a, str>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrOT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, str>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrOV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, str>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrP<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowStrF<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, str> }
#[derive(Readable, Writable)] 
pub struct KCowStrFO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, str>> }
#[derive(Readable, Writable)] 
pub struct KCowStrFL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, str>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowStrS<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, str>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8D<'a> { pub n: u16, pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8Tu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8Tu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8Tu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8Tu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8Tu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8Tu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8Ln<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, [u8]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8Ldiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, [u8]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8Lk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, [u8]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8Lw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, [u8]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8Ll<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, [u8]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8Lz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, [u8]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8E<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, [u8]> }
#[derive(Readable, Writable)] 
pub struct KCow8O<'a> { pub n: u8, pub x: Option<Cow<'a, [u8]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8OT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, [u8]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8OV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, [u8]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8P<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow8F<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, [u8]> }
#[derive(Readable, Writable)] 
pub struct KCow8FO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, [u8]>> }
#[derive(Readable, Writable)] 
pub struct KCow8FL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, [u8]>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow8S<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, [u8]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32D<'a> { pub n: u16, pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32Tu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32Tu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32Tu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32Tu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32Tu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32Tu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32Ln<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, [u32]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32Ldiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, [u32]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32Lk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, [u32]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32Lw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, [u32]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32Ll<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, [u32]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32Lz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, [u32]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32E<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, [u32]> }
#[derive(Readable, Writable)] 
pub struct KCow32O<'a> { pub n: u8, pub x: Option<Cow<'a, [u32]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32OT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, [u32]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32OV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, [u32]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32P<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCow32F<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, [u32]> }
#[derive(Readable, Writable)] 
pub struct KCow32FO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, [u32]>> }
#[derive(Readable, Writable)] 
pub struct KCow32FL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, [u32]>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCow32S<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, [u32]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElD<'a> { pub n: u16, pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElTu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElTu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElTu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElTu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElTu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElTu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElLn<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, [El<1, 3>]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElLdiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, [El<1, 3>]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElLk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, [El<1, 3>]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElLw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, [El<1, 3>]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElLl<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, [El<1, 3>]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElLz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, [El<1, 3>]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElE<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, [El<1, 3>]> }
#[derive(Readable, Writable)] 
pub struct KCowElO<'a> { pub n: u8, pub x: Option<Cow<'a, [El<1, 3>]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElOT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, [El<1, 3>]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElOV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, [El<1, 3>]>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElP<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, [El<1, 3>]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCowElF<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, [El<1, 3>]> }
#[derive(Readable, Writable)] 
pub struct KCowElFO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, [El<1, 3>]>> }
#[derive(Readable, Writable)] 
pub struct KCowElFL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, [El<1, 3>]>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCowElS<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, [El<1, 3>]>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmD { pub n: u16, pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmTu7 { #[speedy(length_type = u7)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmTu8 { #[speedy(length_type = u8)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmTu16 { #[speedy(length_type = u16)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmTu32 { #[speedy(length_type = u32)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmTu64 { #[speedy(length_type = u64)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmTu64varint { #[speedy(length_type = u64_varint)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmLn { pub n: u8, #[speedy(length = n)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmLdiv { pub n: u8, #[speedy(length = n / 4)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmLk { pub n: u8, #[speedy(length = 3usize)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmLw { pub n: u16, #[speedy(length = n)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmLl { pub n: u32, #[speedy(length = n)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmLz { pub n: usize, #[speedy(length = n)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmE { pub n: u16, #[speedy(length = ..)] pub x: HashMap<El<1, 3>, El<2, 5>> }
#[derive(Readable, Writable)] 
pub struct KHmO { pub n: u8, pub x: Option<HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmOT { #[speedy(length_type = u7)] pub x: Option<HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmOV { #[speedy(length_type = u64_varint)] pub x: Option<HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmP { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHmF { pub n: u8, #[speedy(default_on_eof)] pub x: HashMap<El<1, 3>, El<2, 5>> }
#[derive(Readable, Writable)] 
pub struct KHmFO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<HashMap<El<1, 3>, El<2, 5>>> }
#[derive(Readable, Writable)] 
pub struct KHmFL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: HashMap<El<1, 3>, El<2, 5>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHmS { pub n: u8, #[speedy(skip)] pub x: HashMap<El<1, 3>, El<2, 5>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmD { pub n: u16, pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmTu7 { #[speedy(length_type = u7)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmTu8 { #[speedy(length_type = u8)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmTu16 { #[speedy(length_type = u16)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmTu32 { #[speedy(length_type = u32)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmTu64 { #[speedy(length_type = u64)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmTu64varint { #[speedy(length_type = u64_varint)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmLn { pub n: u8, #[speedy(length = n)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmLdiv { pub n: u8, #[speedy(length = n / 4)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmLk { pub n: u8, #[speedy(length = 3usize)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmLw { pub n: u16, #[speedy(length = n)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmLl { pub n: u32, #[speedy(length = n)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmLz { pub n: usize, #[speedy(length = n)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmE { pub n: u16, #[speedy(length = ..)] pub x: BTreeMap<u16, El<1, 3>> }
#[derive(Readable, Writable)] 
pub struct KBmO { pub n: u8, pub x: Option<BTreeMap<u16, El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmOT { #[speedy(length_type = u7)] pub x: Option<BTreeMap<u16, El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmOV { #[speedy(length_type = u64_varint)] pub x: Option<BTreeMap<u16, El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmP { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: BTreeMap<u16, El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBmF { pub n: u8, #[speedy(default_on_eof)] pub x: BTreeMap<u16, El<1, 3>> }
#[derive(Readable, Writable)] 
pub struct KBmFO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<BTreeMap<u16, El<1, 3>>> }
#[derive(Readable, Writable)] 
pub struct KBmFL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: BTreeMap<u16, El<1, 3>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBmS { pub n: u8, #[speedy(skip)] pub x: BTreeMap<u16, El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsD { pub n: u16, pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsTu7 { #[speedy(length_type = u7)] pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsTu8 { #[speedy(length_type = u8)] pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsTu16 { #[speedy(length_type = u16)] pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsTu32 { #[speedy(length_type = u32)] pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsTu64 { #[speedy(length_type = u64)] pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsTu64varint { #[speedy(length_type = u64_varint)] pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsLn { pub n: u8, #[speedy(length = n)] pub x: HashSet<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsLdiv { pub n: u8, #[speedy(length = n / 4)] pub x: HashSet<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsLk { pub n: u8, #[speedy(length = 3usize)] pub x: HashSet<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsLw { pub n: u16, #[speedy(length = n)] pub x: HashSet<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsLl { pub n: u32, #[speedy(length = n)] pub x: HashSet<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsLz { pub n: usize, #[speedy(length = n)] pub x: HashSet<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsE { pub n: u16, #[speedy(length = ..)] pub x: HashSet<El<1, 3>> }
#[derive(Readable, Writable)] 
pub struct KHsO { pub n: u8, pub x: Option<HashSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsOT { #[speedy(length_type = u7)] pub x: Option<HashSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsOV { #[speedy(length_type = u64_varint)] pub x: Option<HashSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsP { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: HashSet<El<1, 3>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KHsF { pub n: u8, #[speedy(default_on_eof)] pub x: HashSet<El<1, 3>> }
#[derive(Readable, Writable)] 
pub struct KHsFO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<HashSet<El<1, 3>>> }
#[derive(Readable, Writable)] 
pub struct KHsFL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: HashSet<El<1, 3>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KHsS { pub n: u8, #[speedy(skip)] pub x: HashSet<El<1, 3>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsD { pub n: u16, pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsTu7 { #[speedy(length_type = u7)] pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsTu8 { #[speedy(length_type = u8)] pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsTu16 { #[speedy(length_type = u16)] pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsTu32 { #[speedy(length_type = u32)] pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsTu64 { #[speedy(length_type = u64)] pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsTu64varint { #[speedy(length_type = u64_varint)] pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsLn { pub n: u8, #[speedy(length = n)] pub x: BTreeSet<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsLdiv { pub n: u8, #[speedy(length = n / 4)] pub x: BTreeSet<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsLk { pub n: u8, #[speedy(length = 3usize)] pub x: BTreeSet<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsLw { pub n: u16, #[speedy(length = n)] pub x: BTreeSet<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsLl { pub n: u32, #[speedy(length = n)] pub x: BTreeSet<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsLz { pub n: usize, #[speedy(length = n)] pub x: BTreeSet<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsE { pub n: u16, #[speedy(length = ..)] pub x: BTreeSet<u16> }
#[derive(Readable, Writable)] 
pub struct KBsO { pub n: u8, pub x: Option<BTreeSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsOT { #[speedy(length_type = u7)] pub x: Option<BTreeSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsOV { #[speedy(length_type = u64_varint)] pub x: Option<BTreeSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsP { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: BTreeSet<u16>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KBsF { pub n: u8, #[speedy(default_on_eof)] pub x: BTreeSet<u16> }
#[derive(Readable, Writable)] 
pub struct KBsFO { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<BTreeSet<u16>> }
#[derive(Readable, Writable)] 
pub struct KBsFL { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: BTreeSet<u16>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KBsS { pub n: u8, #[speedy(skip)] pub x: BTreeSet<u16>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmD<'a> { pub n: u16, pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmTu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmTu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmTu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmTu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmTu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmTu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmLn<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmLdiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmLk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmLw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmLl<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmLz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmE<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>> }
#[derive(Readable, Writable)] 
pub struct KCHmO<'a> { pub n: u8, pub x: Option<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmOT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmOV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmP<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHmF<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>> }
#[derive(Readable, Writable)] 
pub struct KCHmFO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>> }
#[derive(Readable, Writable)] 
pub struct KCHmFL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHmS<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmD<'a> { pub n: u16, pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmTu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmTu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmTu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmTu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmTu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmTu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmLn<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmLdiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmLk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmLw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmLl<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmLz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmE<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>> }
#[derive(Readable, Writable)] 
pub struct KCBmO<'a> { pub n: u8, pub x: Option<Cow<'a, BTreeMap<El<1, 3>, u16>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmOT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, BTreeMap<El<1, 3>, u16>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmOV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, BTreeMap<El<1, 3>, u16>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmP<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBmF<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>> }
#[derive(Readable, Writable)] 
pub struct KCBmFO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, BTreeMap<El<1, 3>, u16>>> }
#[derive(Readable, Writable)] 
pub struct KCBmFL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBmS<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, BTreeMap<El<1, 3>, u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsD<'a> { pub n: u16, pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsTu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsTu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsTu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsTu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsTu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsTu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsLn<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, HashSet<u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsLdiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, HashSet<u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsLk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, HashSet<u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsLw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, HashSet<u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsLl<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, HashSet<u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsLz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, HashSet<u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsE<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, HashSet<u16>> }
#[derive(Readable, Writable)] 
pub struct KCHsO<'a> { pub n: u8, pub x: Option<Cow<'a, HashSet<u16>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsOT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, HashSet<u16>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsOV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, HashSet<u16>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsP<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, HashSet<u16>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCHsF<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, HashSet<u16>> }
#[derive(Readable, Writable)] 
pub struct KCHsFO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, HashSet<u16>>> }
#[derive(Readable, Writable)] 
pub struct KCHsFL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, HashSet<u16>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCHsS<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, HashSet<u16>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsD<'a> { pub n: u16, pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsTu7<'a> { #[speedy(length_type = u7)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsTu8<'a> { #[speedy(length_type = u8)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsTu16<'a> { #[speedy(length_type = u16)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsTu32<'a> { #[speedy(length_type = u32)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsTu64<'a> { #[speedy(length_type = u64)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsTu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsLn<'a> { pub n: u8, #[speedy(length = n)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsLdiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsLk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsLw<'a> { pub n: u16, #[speedy(length = n)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsLl<'a> { pub n: u32, #[speedy(length = n)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsLz<'a> { pub n: usize, #[speedy(length = n)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsE<'a> { pub n: u16, #[speedy(length = ..)] pub x: Cow<'a, BTreeSet<El<1, 3>>> }
#[derive(Readable, Writable)] 
pub struct KCBsO<'a> { pub n: u8, pub x: Option<Cow<'a, BTreeSet<El<1, 3>>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsOT<'a> { #[speedy(length_type = u7)] pub x: Option<Cow<'a, BTreeSet<El<1, 3>>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsOV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<Cow<'a, BTreeSet<El<1, 3>>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsP<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KCBsF<'a> { pub n: u8, #[speedy(default_on_eof)] pub x: Cow<'a, BTreeSet<El<1, 3>>> }
#[derive(Readable, Writable)] 
pub struct KCBsFO<'a> { pub n: u8, #[speedy(default_on_eof, length_type = u8)] pub x: Option<Cow<'a, BTreeSet<El<1, 3>>>> }
#[derive(Readable, Writable)] 
pub struct KCBsFL<'a> { pub n: u8, #[speedy(default_on_eof, length = n)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, #[speedy(default_on_eof)] pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KCBsS<'a> { pub n: u8, #[speedy(skip)] pub x: Cow<'a, BTreeSet<El<1, 3>>>, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KRStrD<'a> { pub n: u16, pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrTu7<'a> { #[speedy(length_type = u7)] pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrTu8<'a> { #[speedy(length_type = u8)] pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrTu16<'a> { #[speedy(length_type = u16)] pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrTu32<'a> { #[speedy(length_type = u32)] pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrTu64<'a> { #[speedy(length_type = u64)] pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrTu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrLn<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a str, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KRStrLdiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: &'a str, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KRStrLk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: &'a str, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KRStrLw<'a> { pub n: u16, #[speedy(length = n)] pub x: &'a str, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KRStrLl<'a> { pub n: u32, #[speedy(length = n)] pub x: &'a str, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KRStrLz<'a> { pub n: usize, #[speedy(length = n)] pub x: &'a str, pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KRStrE<'a> { pub n: u16, #[speedy(length = ..)] pub x: &'a str }
#[derive(Readable, Writable)] 
pub struct KRStrO<'a> { pub n: u8, pub x: Option<&'a str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrOT<'a> { #[speedy(length_type = u7)] pub x: Option<&'a str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrOV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<&'a str>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KRStrP<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: &'a str, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8D<'a> { pub n: u16, pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8Tu7<'a> { #[speedy(length_type = u7)] pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8Tu8<'a> { #[speedy(length_type = u8)] pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8Tu16<'a> { #[speedy(length_type = u16)] pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8Tu32<'a> { #[speedy(length_type = u32)] pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8Tu64<'a> { #[speedy(length_type = u64)] pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8Tu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8Ln<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR8Ldiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR8Lk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR8Lw<'a> { pub n: u16, #[speedy(length = n)] pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR8Ll<'a> { pub n: u32, #[speedy(length = n)] pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR8Lz<'a> { pub n: usize, #[speedy(length = n)] pub x: &'a [u8], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR8E<'a> { pub n: u16, #[speedy(length = ..)] pub x: &'a [u8] }
#[derive(Readable, Writable)] 
pub struct KR8O<'a> { pub n: u8, pub x: Option<&'a [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8OT<'a> { #[speedy(length_type = u7)] pub x: Option<&'a [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8OV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<&'a [u8]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR8P<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: &'a [u8], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32D<'a> { pub n: u16, pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32Tu7<'a> { #[speedy(length_type = u7)] pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32Tu8<'a> { #[speedy(length_type = u8)] pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32Tu16<'a> { #[speedy(length_type = u16)] pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32Tu32<'a> { #[speedy(length_type = u32)] pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32Tu64<'a> { #[speedy(length_type = u64)] pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32Tu64varint<'a> { #[speedy(length_type = u64_varint)] pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32Ln<'a> { pub n: u8, #[speedy(length = n)] pub x: &'a [u32], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR32Ldiv<'a> { pub n: u8, #[speedy(length = n / 4)] pub x: &'a [u32], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR32Lk<'a> { pub n: u8, #[speedy(length = 3usize)] pub x: &'a [u32], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR32Lw<'a> { pub n: u16, #[speedy(length = n)] pub x: &'a [u32], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR32Ll<'a> { pub n: u32, #[speedy(length = n)] pub x: &'a [u32], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR32Lz<'a> { pub n: usize, #[speedy(length = n)] pub x: &'a [u32], pub y: u16 }
#[derive(Readable, Writable)] 
pub struct KR32E<'a> { pub n: u16, #[speedy(length = ..)] pub x: &'a [u32] }
#[derive(Readable, Writable)] 
pub struct KR32O<'a> { pub n: u8, pub x: Option<&'a [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32OT<'a> { #[speedy(length_type = u7)] pub x: Option<&'a [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32OV<'a> { #[speedy(length_type = u64_varint)] pub x: Option<&'a [u32]>, pub y: u8 }
#[derive(Readable, Writable)] 
pub struct KR32P<'a> { #[speedy(length_type = u16, constant_prefix = "xyz")] pub x: &'a [u32], pub y: u8 }
#[derive(Readable, Writable)] 
pub struct Px0 { pub a: u8, #[speedy(constant_prefix = "HELLO")] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po0 { #[speedy(constant_prefix = "HELLO")] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px1 { pub a: u8, #[speedy(constant_prefix = b"\x00\xff\x01")] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po1 { #[speedy(constant_prefix = b"\x00\xff\x01")] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px2 { pub a: u8, #[speedy(constant_prefix = 'é')] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po2 { #[speedy(constant_prefix = 'é')] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px3 { pub a: u8, #[speedy(constant_prefix = b'Z')] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po3 { #[speedy(constant_prefix = b'Z')] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px4 { pub a: u8, #[speedy(constant_prefix = 123u8)] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po4 { #[speedy(constant_prefix = 123u8)] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px5 { pub a: u8, #[speedy(constant_prefix = -2i8)] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po5 { #[speedy(constant_prefix = -2i8)] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px6 { pub a: u8, #[speedy(constant_prefix = true)] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po6 { #[speedy(constant_prefix = true)] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px7 { pub a: u8, #[speedy(constant_prefix = false)] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po7 { #[speedy(constant_prefix = false)] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct Px8 { pub a: u8, #[speedy(constant_prefix = "")] pub b: u16, pub c: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct Po8 { #[speedy(constant_prefix = "")] pub b: Option<El<1, 3>>, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct PxUnit { #[speedy(constant_prefix = b"MAGIC")] pub a: (), pub b: El<1, 3> }
#[derive(Readable, Writable)] 
pub struct PxTwo(#[speedy(constant_prefix = b"1")] pub u8, #[speedy(constant_prefix = b"22")] pub u8);
#[derive(Readable, Writable)] 
pub struct PxEof { pub a: u8, #[speedy(default_on_eof, constant_prefix = b"ab")] pub b: u16 }
#[derive(Readable, Writable)] 
pub struct Vi { #[speedy(varint)] pub a: u64, pub b: u8, pub c: u64 }
#[derive(Readable, Writable)] 
pub struct ViT(pub El<1, 3>, #[speedy(varint)] pub u64);
#[derive(Readable, Writable)] 
pub struct ViEof { pub a: u8, #[speedy(varint, default_on_eof)] pub c: u64 }
#[derive(Readable, Writable)] 
pub struct ViPx { #[speedy(varint, constant_prefix = b'v')] pub c: u64 }
#[derive(Readable, Writable)] 
pub struct Sk { pub a: u8, #[speedy(skip)] pub b: u32, pub c: u16, #[speedy(skip)] pub d: Option<El<1, 3>>, #[speedy(skip)] pub e: String }
#[derive(Readable, Writable)] 
pub struct SkT(#[speedy(skip)] pub u32, pub El<1, 3>, #[speedy(skip)] pub u64);
#[derive(Readable, Writable)] 
pub struct Eo1 { pub a: u8, #[speedy(default_on_eof)] pub b: u32, #[speedy(default_on_eof)] pub c: u16 }
#[derive(Readable, Writable)] 
pub struct Eo2 { pub a: El<1, 3>, #[speedy(default_on_eof)] pub b: Option<u32> }
#[derive(Readable, Writable)] 
pub struct Eo3 { #[speedy(default_on_eof)] pub b: [u16; 2], #[speedy(default_on_eof)] pub c: (u8, u16) }
#[derive(Readable, Writable)] 
pub struct EoMid { pub a: u16, #[speedy(default_on_eof)] pub b: u32, pub c: u8 }
#[derive(Readable, Writable)] 
pub struct EoB { #[speedy(default_on_eof)] pub a: bool, #[speedy(default_on_eof)] pub b: char }
#[derive(Readable, Writable)] 
pub struct Ar0 { pub a: [El<1, 3>; 0], pub b: [u16; 0], pub c: [u8; 0], pub d: Option<[u32; 0]> }
#[derive(Readable, Writable)] 
pub struct Ar1 { pub a: [El<1, 3>; 1], pub b: [u16; 1], pub c: [u8; 1], pub d: Option<[u32; 1]> }
#[derive(Readable, Writable)] 
pub struct Ar2 { pub a: [El<1, 3>; 2], pub b: [u16; 2], pub c: [u8; 2], pub d: Option<[u32; 2]> }
#[derive(Readable, Writable)] 
pub struct Ar5 { pub a: [El<1, 3>; 5], pub b: [u16; 5], pub c: [u8; 5], pub d: Option<[u32; 5]> }
#[derive(Readable, Writable)] 
pub struct ArVar { pub a: [Var; 1] }
#[derive(Readable, Writable)] 
pub struct ArVarTr { pub a: [VarTr; 1] }
#[derive(Readable, Writable)] 
pub struct ArVarPk { pub a: [VarPk; 1] }
#[derive(Readable, Writable)] 
pub struct ArVarCc { pub a: [VarCc; 1] }
#[derive(Readable, Writable)] 
pub struct ArTr { pub a: [Tr16; 2], pub b: [Reord; 2] }
#[derive(Readable, Writable)] 
pub struct OptP { pub a: Option<u8>, pub b: Option<El<1, 3>>, pub c: Option<Option<u16>>, pub d: Option<()> }
#[derive(Readable, Writable)] 
pub struct TwoLen { pub a: u8, pub b: u8, #[speedy(length = b)] pub x: Vec<u16>, #[speedy(length = a)] pub y: Vec<u8> }
#[derive(Readable, Writable)] 
pub enum Plain { A, B, C }
#[derive(Readable, Writable, Clone)] 
pub enum Single { A }
#[derive(Readable, Writable)] 
pub enum Empty {  }
#[derive(Readable, Writable)] 
pub enum Disc { A = 5, B, C = 2, D, E = 0x80 }
#[derive(Readable, Writable)] 
pub enum TagA { #[speedy(tag = 7)] A, B { x: u8 }, #[speedy(tag = 3)] C(El<1, 3>), D }
#[derive(Readable, Writable)] 
pub enum TagOver { #[speedy(tag = 9)] A = 1, B, C = 20 }
#[derive(Readable, Writable)] #[speedy(tag_type = u7)]
pub enum Etu7 { A, B { x: u16, y: El<1, 3> }, C(Vec<u8>, u8), #[speedy(tag = 100)] D, #[speedy(tag = 127)] E(El<2, 5>) }
#[derive(Readable, Writable)] #[speedy(tag_type = u7, peek_tag)]
pub enum Epu7 { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B(u64, El<1, 3>), #[speedy(tag = 127)] C }
#[derive(Readable, Writable)] 
pub struct Psu7 { pub k: Epu7, pub r: u16 }
#[derive(Readable, Writable)] #[speedy(tag_type = u8)]
pub enum Etu8 { A, B { x: u16, y: El<1, 3> }, C(Vec<u8>, u8), #[speedy(tag = 100)] D, #[speedy(tag = 255)] E(El<2, 5>) }
#[derive(Readable, Writable)] #[speedy(tag_type = u8, peek_tag)]
pub enum Epu8 { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B(u64, El<1, 3>), #[speedy(tag = 255)] C }
#[derive(Readable, Writable)] 
pub struct Psu8 { pub k: Epu8, pub r: u16 }
#[derive(Readable, Writable)] #[speedy(tag_type = u16)]
pub enum Etu16 { A, B { x: u16, y: El<1, 3> }, C(Vec<u8>, u8), #[speedy(tag = 100)] D, #[speedy(tag = 65535)] E(El<2, 5>) }
#[derive(Readable, Writable)] #[speedy(tag_type = u16, peek_tag)]
pub enum Epu16 { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B(u64, El<1, 3>), #[speedy(tag = 65535)] C }
#[derive(Readable, Writable)] 
pub struct Psu16 { pub k: Epu16, pub r: u16 }
#[derive(Readable, Writable)] #[speedy(tag_type = u32)]
pub enum Etu32 { A, B { x: u16, y: El<1, 3> }, C(Vec<u8>, u8), #[speedy(tag = 100)] D, #[speedy(tag = 4294967295)] E(El<2, 5>) }
#[derive(Readable, Writable)] #[speedy(tag_type = u32, peek_tag)]
pub enum Epu32 { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B(u64, El<1, 3>), #[speedy(tag = 4294967295)] C }
#[derive(Readable, Writable)] 
pub struct Psu32 { pub k: Epu32, pub r: u16 }
#[derive(Readable, Writable)] #[speedy(tag_type = u64)]
pub enum Etu64 { A, B { x: u16, y: El<1, 3> }, C(Vec<u8>, u8), #[speedy(tag = 100)] D, #[speedy(tag = 18446744073709551615)] E(El<2, 5>) }
#[derive(Readable, Writable)] #[speedy(tag_type = u64, peek_tag)]
pub enum Epu64 { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B(u64, El<1, 3>), #[speedy(tag = 18446744073709551615)] C }
#[derive(Readable, Writable)] 
pub struct Psu64 { pub k: Epu64, pub r: u16 }
#[derive(Readable, Writable)] #[speedy(tag_type = u64_varint)]
pub enum Etu64varint { A, B { x: u16, y: El<1, 3> }, C(Vec<u8>, u8), #[speedy(tag = 100)] D, #[speedy(tag = 18446744073709551615)] E(El<2, 5>), #[speedy(tag = 128)] F, #[speedy(tag = 300000)] G, #[speedy(tag = 36028797018963968)] H, #[speedy(tag = 72057594037927936)] I }
#[derive(Readable, Writable)] #[speedy(tag_type = u64_varint, peek_tag)]
pub enum Epu64varint { #[speedy(tag = 1)] A(u8), #[speedy(tag = 2)] B(u64, El<1, 3>), #[speedy(tag = 18446744073709551615)] C }
#[derive(Readable, Writable)] 
pub struct Psu64varint { pub k: Epu64varint, pub r: u16 }
#[derive(Readable, Writable)] #[speedy(tag_type = u16, peek_tag)]
pub enum EpFull { #[speedy(tag = 1)] A(u16), #[speedy(tag = 2)] B(u32) }
#[derive(Readable, Writable)] 
pub enum EAttr { A { n: u8, #[speedy(length = n)] x: Vec<u16> }, B { #[speedy(skip)] s: u32, #[speedy(varint)] v: u64 }, C(#[speedy(length_type = u8)] String), D { #[speedy(constant_prefix = b"!!")] p: u8, #[speedy(default_on_eof)] e: u16 }, E(#[speedy(length = ..)] Vec<u8>) }
#[derive(Readable, Writable)] 
pub enum ELife<'a> { A(&'a str), B(Cow<'a, [u16]>) }
#[derive(Readable, Writable)] #[speedy(tag_type = u8)]
pub enum EMin { A(u64), B(u8, Vec<u8>), C { x: String } }
#[derive(Readable, Writable)] 
pub struct EIn { pub a: EMin, pub b: Option<EMin>, pub c: u8 }
pub fn root_r_u8_L(r: &mut Pr<LE>) -> Result<u8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_u8_L(r: &mut Prc<LE>) -> Result<u8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_u8_L(v: &u8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_u8_L(v: &u8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_u8_B(r: &mut Pr<BE>) -> Result<u8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_u8_B(r: &mut Prc<BE>) -> Result<u8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_u8_B(v: &u8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_u8_D(r: &mut Pr<Endianness>) -> Result<u8, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_u8_D(r: &mut Prc<Endianness>) -> Result<u8, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_u8_D(v: &u8, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_u8(v: &u8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_u8() -> usize { <u8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_i8_L(r: &mut Pr<LE>) -> Result<i8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_i8_L(r: &mut Prc<LE>) -> Result<i8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_i8_L(v: &i8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_i8_L(v: &i8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_i8_B(r: &mut Pr<BE>) -> Result<i8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_i8_B(r: &mut Prc<BE>) -> Result<i8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_i8_B(v: &i8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_i8(v: &i8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_i8() -> usize { <i8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_u16_L(r: &mut Pr<LE>) -> Result<u16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_u16_L(r: &mut Prc<LE>) -> Result<u16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_u16_L(v: &u16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_u16_L(v: &u16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_u16_B(r: &mut Pr<BE>) -> Result<u16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_u16_B(r: &mut Prc<BE>) -> Result<u16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_u16_B(v: &u16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_u16_D(r: &mut Pr<Endianness>) -> Result<u16, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_u16_D(r: &mut Prc<Endianness>) -> Result<u16, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_u16_D(v: &u16, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_u16(v: &u16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_u16() -> usize { <u16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_i16_L(r: &mut Pr<LE>) -> Result<i16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_i16_L(r: &mut Prc<LE>) -> Result<i16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_i16_L(v: &i16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_i16_L(v: &i16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_i16_B(r: &mut Pr<BE>) -> Result<i16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_i16_B(r: &mut Prc<BE>) -> Result<i16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_i16_B(v: &i16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_i16(v: &i16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_i16() -> usize { <i16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_u32_L(r: &mut Pr<LE>) -> Result<u32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_u32_L(r: &mut Prc<LE>) -> Result<u32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_u32_L(v: &u32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_u32_L(v: &u32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_u32_B(r: &mut Pr<BE>) -> Result<u32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_u32_B(r: &mut Prc<BE>) -> Result<u32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_u32_B(v: &u32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_u32_D(r: &mut Pr<Endianness>) -> Result<u32, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_u32_D(r: &mut Prc<Endianness>) -> Result<u32, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_u32_D(v: &u32, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_u32(v: &u32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_u32() -> usize { <u32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_i32_L(r: &mut Pr<LE>) -> Result<i32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_i32_L(r: &mut Prc<LE>) -> Result<i32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_i32_L(v: &i32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_i32_L(v: &i32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_i32_B(r: &mut Pr<BE>) -> Result<i32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_i32_B(r: &mut Prc<BE>) -> Result<i32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_i32_B(v: &i32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_i32(v: &i32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_i32() -> usize { <i32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_u64_L(r: &mut Pr<LE>) -> Result<u64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_u64_L(r: &mut Prc<LE>) -> Result<u64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_u64_L(v: &u64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_u64_L(v: &u64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_u64_B(r: &mut Pr<BE>) -> Result<u64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_u64_B(r: &mut Prc<BE>) -> Result<u64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_u64_B(v: &u64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_u64_D(r: &mut Pr<Endianness>) -> Result<u64, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_u64_D(r: &mut Prc<Endianness>) -> Result<u64, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_u64_D(v: &u64, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_u64(v: &u64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_u64() -> usize { <u64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_i64_L(r: &mut Pr<LE>) -> Result<i64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_i64_L(r: &mut Prc<LE>) -> Result<i64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_i64_L(v: &i64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_i64_L(v: &i64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_i64_B(r: &mut Pr<BE>) -> Result<i64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_i64_B(r: &mut Prc<BE>) -> Result<i64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_i64_B(v: &i64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_i64(v: &i64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_i64() -> usize { <i64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_u128_L(r: &mut Pr<LE>) -> Result<u128, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_u128_L(r: &mut Prc<LE>) -> Result<u128, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_u128_L(v: &u128, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_u128_L(v: &u128, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_u128_B(r: &mut Pr<BE>) -> Result<u128, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_u128_B(r: &mut Prc<BE>) -> Result<u128, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_u128_B(v: &u128, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_u128_D(r: &mut Pr<Endianness>) -> Result<u128, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_u128_D(r: &mut Prc<Endianness>) -> Result<u128, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_u128_D(v: &u128, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_u128(v: &u128) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_u128() -> usize { <u128 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_i128_L(r: &mut Pr<LE>) -> Result<i128, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_i128_L(r: &mut Prc<LE>) -> Result<i128, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_i128_L(v: &i128, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_i128_L(v: &i128, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_i128_B(r: &mut Pr<BE>) -> Result<i128, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_i128_B(r: &mut Prc<BE>) -> Result<i128, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_i128_B(v: &i128, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_i128(v: &i128) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_i128() -> usize { <i128 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_f32_L(r: &mut Pr<LE>) -> Result<f32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_f32_L(r: &mut Prc<LE>) -> Result<f32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_f32_L(v: &f32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_f32_L(v: &f32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_f32_B(r: &mut Pr<BE>) -> Result<f32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_f32_B(r: &mut Prc<BE>) -> Result<f32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_f32_B(v: &f32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_f32_D(r: &mut Pr<Endianness>) -> Result<f32, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_f32_D(r: &mut Prc<Endianness>) -> Result<f32, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_f32_D(v: &f32, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_f32(v: &f32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_f32() -> usize { <f32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_f64_L(r: &mut Pr<LE>) -> Result<f64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_f64_L(r: &mut Prc<LE>) -> Result<f64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_f64_L(v: &f64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_f64_L(v: &f64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_f64_B(r: &mut Pr<BE>) -> Result<f64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_f64_B(r: &mut Prc<BE>) -> Result<f64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_f64_B(v: &f64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_f64_D(r: &mut Pr<Endianness>) -> Result<f64, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_f64_D(r: &mut Prc<Endianness>) -> Result<f64, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_f64_D(v: &f64, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_f64(v: &f64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_f64() -> usize { <f64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_usize_L(r: &mut Pr<LE>) -> Result<usize, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_usize_L(r: &mut Prc<LE>) -> Result<usize, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_usize_L(v: &usize, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_usize_L(v: &usize, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_usize_B(r: &mut Pr<BE>) -> Result<usize, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_usize_B(r: &mut Prc<BE>) -> Result<usize, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_usize_B(v: &usize, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_usize(v: &usize) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_usize() -> usize { <usize as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bool_L(r: &mut Pr<LE>) -> Result<bool, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bool_L(r: &mut Prc<LE>) -> Result<bool, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bool_L(v: &bool, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bool_L(v: &bool, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bool_B(r: &mut Pr<BE>) -> Result<bool, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bool_B(r: &mut Prc<BE>) -> Result<bool, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bool_B(v: &bool, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bool(v: &bool) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bool() -> usize { <bool as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_char_L(r: &mut Pr<LE>) -> Result<char, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_char_L(r: &mut Prc<LE>) -> Result<char, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_char_L(v: &char, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_char_L(v: &char, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_char_B(r: &mut Pr<BE>) -> Result<char, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_char_B(r: &mut Prc<BE>) -> Result<char, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_char_B(v: &char, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_char(v: &char) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_char() -> usize { <char as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_unit_L(r: &mut Pr<LE>) -> Result<(), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_unit_L(r: &mut Prc<LE>) -> Result<(), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_unit_L(v: &(), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_unit_L(v: &(), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_unit_B(r: &mut Pr<BE>) -> Result<(), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_unit_B(r: &mut Prc<BE>) -> Result<(), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_unit_B(v: &(), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_unit(v: &()) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_unit() -> usize { <() as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup1_L(r: &mut Pr<LE>) -> Result<(El<1, 3>,), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup1_L(r: &mut Prc<LE>) -> Result<(El<1, 3>,), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup1_L(v: &(El<1, 3>,), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup1_L(v: &(El<1, 3>,), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup1_B(r: &mut Pr<BE>) -> Result<(El<1, 3>,), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup1_B(r: &mut Prc<BE>) -> Result<(El<1, 3>,), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup1_B(v: &(El<1, 3>,), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup1(v: &(El<1, 3>,)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup1() -> usize { <(El<1, 3>,) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup2_L(r: &mut Pr<LE>) -> Result<(El<1, 3>, u16), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup2_L(r: &mut Prc<LE>) -> Result<(El<1, 3>, u16), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup2_L(v: &(El<1, 3>, u16), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup2_L(v: &(El<1, 3>, u16), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup2_B(r: &mut Pr<BE>) -> Result<(El<1, 3>, u16), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup2_B(r: &mut Prc<BE>) -> Result<(El<1, 3>, u16), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup2_B(v: &(El<1, 3>, u16), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup2(v: &(El<1, 3>, u16)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup2() -> usize { <(El<1, 3>, u16) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup3_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup3_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup3_L(v: &(u8, u16, El<1, 3>), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup3_L(v: &(u8, u16, El<1, 3>), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup3_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup3_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup3_B(v: &(u8, u16, El<1, 3>), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup3(v: &(u8, u16, El<1, 3>)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup3() -> usize { <(u8, u16, El<1, 3>) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup4_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup4_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup4_L(v: &(u8, u16, El<1, 3>, u32), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup4_L(v: &(u8, u16, El<1, 3>, u32), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup4_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup4_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup4_B(v: &(u8, u16, El<1, 3>, u32), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup4(v: &(u8, u16, El<1, 3>, u32)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup4() -> usize { <(u8, u16, El<1, 3>, u32) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup5_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup5_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup5_L(v: &(u8, u16, El<1, 3>, u32, i64), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup5_L(v: &(u8, u16, El<1, 3>, u32, i64), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup5_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup5_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup5_B(v: &(u8, u16, El<1, 3>, u32, i64), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup5(v: &(u8, u16, El<1, 3>, u32, i64)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup5() -> usize { <(u8, u16, El<1, 3>, u32, i64) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup6_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup6_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup6_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup6_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup6_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup6_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup6_B(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup6(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup6() -> usize { <(u8, u16, El<1, 3>, u32, i64, El<2, 5>) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup7_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup7_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup7_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup7_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup7_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup7_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup7_B(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup7(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup7() -> usize { <(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup8_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup8_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup8_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup8_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup8_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup8_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup8_B(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup8(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup8() -> usize { <(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup9_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup9_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup9_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup9_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup9_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup9_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup9_B(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup9(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup9() -> usize { <(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup10_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup10_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup10_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup10_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup10_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup10_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup10_B(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup10(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup10() -> usize { <(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup11_L(r: &mut Pr<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup11_L(r: &mut Prc<LE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup11_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup11_L(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup11_B(r: &mut Pr<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup11_B(r: &mut Prc<BE>) -> Result<(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup11_B(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup11(v: &(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup11() -> usize { <(u8, u16, El<1, 3>, u32, i64, El<2, 5>, u8, i16, f32, u64, i8) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_string_L(r: &mut Pr<LE>) -> Result<String, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_string_L(r: &mut Prc<LE>) -> Result<String, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_string_L(v: &String, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_string_L(v: &String, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_string_B(r: &mut Pr<BE>) -> Result<String, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_string_B(r: &mut Prc<BE>) -> Result<String, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_string_B(v: &String, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_string(v: &String) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_string() -> usize { <String as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cowstr_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, str>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cowstr_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, str>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cowstr_L<'a>(v: &Cow<'a, str>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cowstr_L<'a>(v: &Cow<'a, str>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cowstr_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, str>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cowstr_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, str>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cowstr_B<'a>(v: &Cow<'a, str>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cowstr<'a>(v: &Cow<'a, str>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cowstr<'a>() -> usize { <Cow<'a, str> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxstr_L(r: &mut Pr<LE>) -> Result<Box<str>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxstr_L(r: &mut Prc<LE>) -> Result<Box<str>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxstr_L(v: &Box<str>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxstr_L(v: &Box<str>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxstr_B(r: &mut Pr<BE>) -> Result<Box<str>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxstr_B(r: &mut Prc<BE>) -> Result<Box<str>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxstr_B(v: &Box<str>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxstr(v: &Box<str>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxstr() -> usize { <Box<str> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_u8_L(r: &mut Pr<LE>) -> Result<Vec<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_u8_L(r: &mut Prc<LE>) -> Result<Vec<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_u8_L(v: &Vec<u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_u8_L(v: &Vec<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_u8_B(r: &mut Pr<BE>) -> Result<Vec<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_u8_B(r: &mut Prc<BE>) -> Result<Vec<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_u8_B(v: &Vec<u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_u8(v: &Vec<u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_u8() -> usize { <Vec<u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_u8_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_u8_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_u8_L<'a>(v: &Cow<'a, [u8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_u8_L<'a>(v: &Cow<'a, [u8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_u8_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_u8_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_u8_B<'a>(v: &Cow<'a, [u8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_u8<'a>(v: &Cow<'a, [u8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_u8<'a>() -> usize { <Cow<'a, [u8]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_u8_L(r: &mut Pr<LE>) -> Result<Box<[u8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_u8_L(r: &mut Prc<LE>) -> Result<Box<[u8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_u8_L(v: &Box<[u8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_u8_L(v: &Box<[u8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_u8_B(r: &mut Pr<BE>) -> Result<Box<[u8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_u8_B(r: &mut Prc<BE>) -> Result<Box<[u8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_u8_B(v: &Box<[u8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_u8(v: &Box<[u8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_u8() -> usize { <Box<[u8]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_u16_L(r: &mut Pr<LE>) -> Result<Vec<u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_u16_L(r: &mut Prc<LE>) -> Result<Vec<u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_u16_L(v: &Vec<u16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_u16_L(v: &Vec<u16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_u16_B(r: &mut Pr<BE>) -> Result<Vec<u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_u16_B(r: &mut Prc<BE>) -> Result<Vec<u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_u16_B(v: &Vec<u16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_vec_u16_D(r: &mut Pr<Endianness>) -> Result<Vec<u16>, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_vec_u16_D(r: &mut Prc<Endianness>) -> Result<Vec<u16>, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_vec_u16_D(v: &Vec<u16>, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_vec_u16(v: &Vec<u16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_u16() -> usize { <Vec<u16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_u16_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_u16_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_u16_L<'a>(v: &Cow<'a, [u16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_u16_L<'a>(v: &Cow<'a, [u16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_u16_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_u16_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_u16_B<'a>(v: &Cow<'a, [u16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_u16<'a>(v: &Cow<'a, [u16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_u16<'a>() -> usize { <Cow<'a, [u16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_u16_L(r: &mut Pr<LE>) -> Result<Box<[u16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_u16_L(r: &mut Prc<LE>) -> Result<Box<[u16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_u16_L(v: &Box<[u16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_u16_L(v: &Box<[u16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_u16_B(r: &mut Pr<BE>) -> Result<Box<[u16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_u16_B(r: &mut Prc<BE>) -> Result<Box<[u16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_u16_B(v: &Box<[u16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_u16(v: &Box<[u16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_u16() -> usize { <Box<[u16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_i32_L(r: &mut Pr<LE>) -> Result<Vec<i32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_i32_L(r: &mut Prc<LE>) -> Result<Vec<i32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_i32_L(v: &Vec<i32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_i32_L(v: &Vec<i32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_i32_B(r: &mut Pr<BE>) -> Result<Vec<i32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_i32_B(r: &mut Prc<BE>) -> Result<Vec<i32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_i32_B(v: &Vec<i32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_i32(v: &Vec<i32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_i32() -> usize { <Vec<i32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_i32_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [i32]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_i32_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [i32]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_i32_L<'a>(v: &Cow<'a, [i32]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_i32_L<'a>(v: &Cow<'a, [i32]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_i32_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [i32]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_i32_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [i32]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_i32_B<'a>(v: &Cow<'a, [i32]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_i32<'a>(v: &Cow<'a, [i32]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_i32<'a>() -> usize { <Cow<'a, [i32]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_i32_L(r: &mut Pr<LE>) -> Result<Box<[i32]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_i32_L(r: &mut Prc<LE>) -> Result<Box<[i32]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_i32_L(v: &Box<[i32]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_i32_L(v: &Box<[i32]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_i32_B(r: &mut Pr<BE>) -> Result<Box<[i32]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_i32_B(r: &mut Prc<BE>) -> Result<Box<[i32]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_i32_B(v: &Box<[i32]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_i32(v: &Box<[i32]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_i32() -> usize { <Box<[i32]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_f32_L(r: &mut Pr<LE>) -> Result<Vec<f32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_f32_L(r: &mut Prc<LE>) -> Result<Vec<f32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_f32_L(v: &Vec<f32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_f32_L(v: &Vec<f32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_f32_B(r: &mut Pr<BE>) -> Result<Vec<f32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_f32_B(r: &mut Prc<BE>) -> Result<Vec<f32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_f32_B(v: &Vec<f32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_f32(v: &Vec<f32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_f32() -> usize { <Vec<f32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_f32_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [f32]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_f32_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [f32]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_f32_L<'a>(v: &Cow<'a, [f32]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_f32_L<'a>(v: &Cow<'a, [f32]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_f32_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [f32]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_f32_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [f32]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_f32_B<'a>(v: &Cow<'a, [f32]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_f32<'a>(v: &Cow<'a, [f32]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_f32<'a>() -> usize { <Cow<'a, [f32]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_f32_L(r: &mut Pr<LE>) -> Result<Box<[f32]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_f32_L(r: &mut Prc<LE>) -> Result<Box<[f32]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_f32_L(v: &Box<[f32]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_f32_L(v: &Box<[f32]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_f32_B(r: &mut Pr<BE>) -> Result<Box<[f32]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_f32_B(r: &mut Prc<BE>) -> Result<Box<[f32]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_f32_B(v: &Box<[f32]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_f32(v: &Box<[f32]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_f32() -> usize { <Box<[f32]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_u64_L(r: &mut Pr<LE>) -> Result<Vec<u64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_u64_L(r: &mut Prc<LE>) -> Result<Vec<u64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_u64_L(v: &Vec<u64>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_u64_L(v: &Vec<u64>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_u64_B(r: &mut Pr<BE>) -> Result<Vec<u64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_u64_B(r: &mut Prc<BE>) -> Result<Vec<u64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_u64_B(v: &Vec<u64>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_u64(v: &Vec<u64>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_u64() -> usize { <Vec<u64> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_u64_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_u64_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_u64_L<'a>(v: &Cow<'a, [u64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_u64_L<'a>(v: &Cow<'a, [u64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_u64_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_u64_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_u64_B<'a>(v: &Cow<'a, [u64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_u64<'a>(v: &Cow<'a, [u64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_u64<'a>() -> usize { <Cow<'a, [u64]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_u64_L(r: &mut Pr<LE>) -> Result<Box<[u64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_u64_L(r: &mut Prc<LE>) -> Result<Box<[u64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_u64_L(v: &Box<[u64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_u64_L(v: &Box<[u64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_u64_B(r: &mut Pr<BE>) -> Result<Box<[u64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_u64_B(r: &mut Prc<BE>) -> Result<Box<[u64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_u64_B(v: &Box<[u64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_u64(v: &Box<[u64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_u64() -> usize { <Box<[u64]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_f64_L(r: &mut Pr<LE>) -> Result<Vec<f64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_f64_L(r: &mut Prc<LE>) -> Result<Vec<f64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_f64_L(v: &Vec<f64>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_f64_L(v: &Vec<f64>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_f64_B(r: &mut Pr<BE>) -> Result<Vec<f64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_f64_B(r: &mut Prc<BE>) -> Result<Vec<f64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_f64_B(v: &Vec<f64>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_f64(v: &Vec<f64>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_f64() -> usize { <Vec<f64> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_f64_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [f64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_f64_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [f64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_f64_L<'a>(v: &Cow<'a, [f64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_f64_L<'a>(v: &Cow<'a, [f64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_f64_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [f64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_f64_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [f64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_f64_B<'a>(v: &Cow<'a, [f64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_f64<'a>(v: &Cow<'a, [f64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_f64<'a>() -> usize { <Cow<'a, [f64]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_f64_L(r: &mut Pr<LE>) -> Result<Box<[f64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_f64_L(r: &mut Prc<LE>) -> Result<Box<[f64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_f64_L(v: &Box<[f64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_f64_L(v: &Box<[f64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_f64_B(r: &mut Pr<BE>) -> Result<Box<[f64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_f64_B(r: &mut Prc<BE>) -> Result<Box<[f64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_f64_B(v: &Box<[f64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_f64(v: &Box<[f64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_f64() -> usize { <Box<[f64]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_u128_L(r: &mut Pr<LE>) -> Result<Vec<u128>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_u128_L(r: &mut Prc<LE>) -> Result<Vec<u128>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_u128_L(v: &Vec<u128>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_u128_L(v: &Vec<u128>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_u128_B(r: &mut Pr<BE>) -> Result<Vec<u128>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_u128_B(r: &mut Prc<BE>) -> Result<Vec<u128>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_u128_B(v: &Vec<u128>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_u128(v: &Vec<u128>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_u128() -> usize { <Vec<u128> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_u128_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u128]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_u128_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u128]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_u128_L<'a>(v: &Cow<'a, [u128]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_u128_L<'a>(v: &Cow<'a, [u128]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_u128_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u128]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_u128_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u128]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_u128_B<'a>(v: &Cow<'a, [u128]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_u128<'a>(v: &Cow<'a, [u128]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_u128<'a>() -> usize { <Cow<'a, [u128]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_u128_L(r: &mut Pr<LE>) -> Result<Box<[u128]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_u128_L(r: &mut Prc<LE>) -> Result<Box<[u128]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_u128_L(v: &Box<[u128]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_u128_L(v: &Box<[u128]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_u128_B(r: &mut Pr<BE>) -> Result<Box<[u128]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_u128_B(r: &mut Prc<BE>) -> Result<Box<[u128]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_u128_B(v: &Box<[u128]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_u128(v: &Box<[u128]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_u128() -> usize { <Box<[u128]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_el_L(r: &mut Pr<LE>) -> Result<Vec<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_el_L(r: &mut Prc<LE>) -> Result<Vec<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_el_L(v: &Vec<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_el_L(v: &Vec<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_el_B(r: &mut Pr<BE>) -> Result<Vec<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_el_B(r: &mut Prc<BE>) -> Result<Vec<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_el_B(v: &Vec<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_vec_el_D(r: &mut Pr<Endianness>) -> Result<Vec<El<1, 3>>, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_vec_el_D(r: &mut Prc<Endianness>) -> Result<Vec<El<1, 3>>, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_vec_el_D(v: &Vec<El<1, 3>>, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_vec_el(v: &Vec<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_el() -> usize { <Vec<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_el_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_el_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_el_L<'a>(v: &Cow<'a, [El<1, 3>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_el_L<'a>(v: &Cow<'a, [El<1, 3>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_el_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_el_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_el_B<'a>(v: &Cow<'a, [El<1, 3>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_el<'a>(v: &Cow<'a, [El<1, 3>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_el<'a>() -> usize { <Cow<'a, [El<1, 3>]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_boxs_el_L(r: &mut Pr<LE>) -> Result<Box<[El<1, 3>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_boxs_el_L(r: &mut Prc<LE>) -> Result<Box<[El<1, 3>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_boxs_el_L(v: &Box<[El<1, 3>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_boxs_el_L(v: &Box<[El<1, 3>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_boxs_el_B(r: &mut Pr<BE>) -> Result<Box<[El<1, 3>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_boxs_el_B(r: &mut Prc<BE>) -> Result<Box<[El<1, 3>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_boxs_el_B(v: &Box<[El<1, 3>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_boxs_el(v: &Box<[El<1, 3>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_boxs_el() -> usize { <Box<[El<1, 3>]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_i8_L(r: &mut Pr<LE>) -> Result<Vec<i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_i8_L(r: &mut Prc<LE>) -> Result<Vec<i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_i8_L(v: &Vec<i8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_i8_L(v: &Vec<i8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_i8_B(r: &mut Pr<BE>) -> Result<Vec<i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_i8_B(r: &mut Prc<BE>) -> Result<Vec<i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_i8_B(v: &Vec<i8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_i8(v: &Vec<i8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_i8() -> usize { <Vec<i8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_i16_L(r: &mut Pr<LE>) -> Result<Vec<i16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_i16_L(r: &mut Prc<LE>) -> Result<Vec<i16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_i16_L(v: &Vec<i16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_i16_L(v: &Vec<i16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_i16_B(r: &mut Pr<BE>) -> Result<Vec<i16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_i16_B(r: &mut Prc<BE>) -> Result<Vec<i16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_i16_B(v: &Vec<i16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_i16(v: &Vec<i16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_i16() -> usize { <Vec<i16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_u32_L(r: &mut Pr<LE>) -> Result<Vec<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_u32_L(r: &mut Prc<LE>) -> Result<Vec<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_u32_L(v: &Vec<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_u32_L(v: &Vec<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_u32_B(r: &mut Pr<BE>) -> Result<Vec<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_u32_B(r: &mut Prc<BE>) -> Result<Vec<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_u32_B(v: &Vec<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_u32(v: &Vec<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_u32() -> usize { <Vec<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_i64_L(r: &mut Pr<LE>) -> Result<Vec<i64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_i64_L(r: &mut Prc<LE>) -> Result<Vec<i64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_i64_L(v: &Vec<i64>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_i64_L(v: &Vec<i64>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_i64_B(r: &mut Pr<BE>) -> Result<Vec<i64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_i64_B(r: &mut Prc<BE>) -> Result<Vec<i64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_i64_B(v: &Vec<i64>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_i64(v: &Vec<i64>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_i64() -> usize { <Vec<i64> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_i128_L(r: &mut Pr<LE>) -> Result<Vec<i128>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_i128_L(r: &mut Prc<LE>) -> Result<Vec<i128>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_i128_L(v: &Vec<i128>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_i128_L(v: &Vec<i128>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_i128_B(r: &mut Pr<BE>) -> Result<Vec<i128>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_i128_B(r: &mut Prc<BE>) -> Result<Vec<i128>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_i128_B(v: &Vec<i128>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_i128(v: &Vec<i128>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_i128() -> usize { <Vec<i128> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_unit_L(r: &mut Pr<LE>) -> Result<Vec<()>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_unit_L(r: &mut Prc<LE>) -> Result<Vec<()>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_unit_L(v: &Vec<()>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_unit_L(v: &Vec<()>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_unit_B(r: &mut Pr<BE>) -> Result<Vec<()>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_unit_B(r: &mut Prc<BE>) -> Result<Vec<()>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_unit_B(v: &Vec<()>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_unit(v: &Vec<()>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_unit() -> usize { <Vec<()> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_tup_L(r: &mut Pr<LE>) -> Result<Vec<(u16, u8)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_tup_L(r: &mut Prc<LE>) -> Result<Vec<(u16, u8)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_tup_L(v: &Vec<(u16, u8)>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_tup_L(v: &Vec<(u16, u8)>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_tup_B(r: &mut Pr<BE>) -> Result<Vec<(u16, u8)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_tup_B(r: &mut Prc<BE>) -> Result<Vec<(u16, u8)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_tup_B(v: &Vec<(u16, u8)>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_tup(v: &Vec<(u16, u8)>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_tup() -> usize { <Vec<(u16, u8)> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_usize_L(r: &mut Pr<LE>) -> Result<Vec<usize>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_usize_L(r: &mut Prc<LE>) -> Result<Vec<usize>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_usize_L(v: &Vec<usize>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_usize_L(v: &Vec<usize>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_usize_B(r: &mut Pr<BE>) -> Result<Vec<usize>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_usize_B(r: &mut Prc<BE>) -> Result<Vec<usize>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_usize_B(v: &Vec<usize>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_usize(v: &Vec<usize>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_usize() -> usize { <Vec<usize> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_arr_L(r: &mut Pr<LE>) -> Result<Vec<[u16; 4]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_arr_L(r: &mut Prc<LE>) -> Result<Vec<[u16; 4]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_arr_L(v: &Vec<[u16; 4]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_arr_L(v: &Vec<[u16; 4]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_arr_B(r: &mut Pr<BE>) -> Result<Vec<[u16; 4]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_arr_B(r: &mut Prc<BE>) -> Result<Vec<[u16; 4]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_arr_B(v: &Vec<[u16; 4]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_arr(v: &Vec<[u16; 4]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_arr() -> usize { <Vec<[u16; 4]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_el_L(r: &mut Pr<LE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_el_L(r: &mut Prc<LE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_el_L(v: &HashMap<El<1, 3>, El<2, 5>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_el_L(v: &HashMap<El<1, 3>, El<2, 5>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_el_B(r: &mut Pr<BE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_el_B(r: &mut Prc<BE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_el_B(v: &HashMap<El<1, 3>, El<2, 5>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_el(v: &HashMap<El<1, 3>, El<2, 5>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_el() -> usize { <HashMap<El<1, 3>, El<2, 5>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_prim_L(r: &mut Pr<LE>) -> Result<HashMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_prim_L(r: &mut Prc<LE>) -> Result<HashMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_prim_L(v: &HashMap<u16, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_prim_L(v: &HashMap<u16, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_prim_B(r: &mut Pr<BE>) -> Result<HashMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_prim_B(r: &mut Prc<BE>) -> Result<HashMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_prim_B(v: &HashMap<u16, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_prim(v: &HashMap<u16, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_prim() -> usize { <HashMap<u16, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_u8_u32_L(r: &mut Pr<LE>) -> Result<HashMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_u8_u32_L(r: &mut Prc<LE>) -> Result<HashMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_u8_u32_L(v: &HashMap<u8, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_u8_u32_L(v: &HashMap<u8, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_u8_u32_B(r: &mut Pr<BE>) -> Result<HashMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_u8_u32_B(r: &mut Prc<BE>) -> Result<HashMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_u8_u32_B(v: &HashMap<u8, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_u8_u32(v: &HashMap<u8, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_u8_u32() -> usize { <HashMap<u8, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_u64_i8_L(r: &mut Pr<LE>) -> Result<HashMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_u64_i8_L(r: &mut Prc<LE>) -> Result<HashMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_u64_i8_L(v: &HashMap<u64, i8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_u64_i8_L(v: &HashMap<u64, i8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_u64_i8_B(r: &mut Pr<BE>) -> Result<HashMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_u64_i8_B(r: &mut Prc<BE>) -> Result<HashMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_u64_i8_B(v: &HashMap<u64, i8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_u64_i8(v: &HashMap<u64, i8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_u64_i8() -> usize { <HashMap<u64, i8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_u8_u8_L(r: &mut Pr<LE>) -> Result<HashMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_u8_u8_L(r: &mut Prc<LE>) -> Result<HashMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_u8_u8_L(v: &HashMap<u8, u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_u8_u8_L(v: &HashMap<u8, u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_u8_u8_B(r: &mut Pr<BE>) -> Result<HashMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_u8_u8_B(r: &mut Prc<BE>) -> Result<HashMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_u8_u8_B(v: &HashMap<u8, u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_u8_u8(v: &HashMap<u8, u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_u8_u8() -> usize { <HashMap<u8, u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_i16_el_L(r: &mut Pr<LE>) -> Result<HashMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_i16_el_L(r: &mut Prc<LE>) -> Result<HashMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_i16_el_L(v: &HashMap<i16, El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_i16_el_L(v: &HashMap<i16, El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_i16_el_B(r: &mut Pr<BE>) -> Result<HashMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_i16_el_B(r: &mut Prc<BE>) -> Result<HashMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_i16_el_B(v: &HashMap<i16, El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_i16_el(v: &HashMap<i16, El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_i16_el() -> usize { <HashMap<i16, El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_el_u16_L(r: &mut Pr<LE>) -> Result<HashMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_el_u16_L(r: &mut Prc<LE>) -> Result<HashMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_el_u16_L(v: &HashMap<El<2, 5>, u16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_el_u16_L(v: &HashMap<El<2, 5>, u16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_el_u16_B(r: &mut Pr<BE>) -> Result<HashMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_el_u16_B(r: &mut Prc<BE>) -> Result<HashMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_el_u16_B(v: &HashMap<El<2, 5>, u16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_el_u16(v: &HashMap<El<2, 5>, u16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_el_u16() -> usize { <HashMap<El<2, 5>, u16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_el_L(r: &mut Pr<LE>) -> Result<BTreeMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_el_L(r: &mut Prc<LE>) -> Result<BTreeMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_el_L(v: &BTreeMap<El<1, 3>, El<2, 5>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_el_L(v: &BTreeMap<El<1, 3>, El<2, 5>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_el_B(r: &mut Pr<BE>) -> Result<BTreeMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_el_B(r: &mut Prc<BE>) -> Result<BTreeMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_el_B(v: &BTreeMap<El<1, 3>, El<2, 5>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_el(v: &BTreeMap<El<1, 3>, El<2, 5>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_el() -> usize { <BTreeMap<El<1, 3>, El<2, 5>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_prim_L(r: &mut Pr<LE>) -> Result<BTreeMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_prim_L(r: &mut Prc<LE>) -> Result<BTreeMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_prim_L(v: &BTreeMap<u16, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_prim_L(v: &BTreeMap<u16, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_prim_B(r: &mut Pr<BE>) -> Result<BTreeMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_prim_B(r: &mut Prc<BE>) -> Result<BTreeMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_prim_B(v: &BTreeMap<u16, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_prim(v: &BTreeMap<u16, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_prim() -> usize { <BTreeMap<u16, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_u8_u32_L(r: &mut Pr<LE>) -> Result<BTreeMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_u8_u32_L(r: &mut Prc<LE>) -> Result<BTreeMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_u8_u32_L(v: &BTreeMap<u8, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_u8_u32_L(v: &BTreeMap<u8, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_u8_u32_B(r: &mut Pr<BE>) -> Result<BTreeMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_u8_u32_B(r: &mut Prc<BE>) -> Result<BTreeMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_u8_u32_B(v: &BTreeMap<u8, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_u8_u32(v: &BTreeMap<u8, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_u8_u32() -> usize { <BTreeMap<u8, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_u64_i8_L(r: &mut Pr<LE>) -> Result<BTreeMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_u64_i8_L(r: &mut Prc<LE>) -> Result<BTreeMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_u64_i8_L(v: &BTreeMap<u64, i8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_u64_i8_L(v: &BTreeMap<u64, i8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_u64_i8_B(r: &mut Pr<BE>) -> Result<BTreeMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_u64_i8_B(r: &mut Prc<BE>) -> Result<BTreeMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_u64_i8_B(v: &BTreeMap<u64, i8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_u64_i8(v: &BTreeMap<u64, i8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_u64_i8() -> usize { <BTreeMap<u64, i8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_u8_u8_L(r: &mut Pr<LE>) -> Result<BTreeMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_u8_u8_L(r: &mut Prc<LE>) -> Result<BTreeMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_u8_u8_L(v: &BTreeMap<u8, u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_u8_u8_L(v: &BTreeMap<u8, u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_u8_u8_B(r: &mut Pr<BE>) -> Result<BTreeMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_u8_u8_B(r: &mut Prc<BE>) -> Result<BTreeMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_u8_u8_B(v: &BTreeMap<u8, u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_u8_u8(v: &BTreeMap<u8, u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_u8_u8() -> usize { <BTreeMap<u8, u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_i16_el_L(r: &mut Pr<LE>) -> Result<BTreeMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_i16_el_L(r: &mut Prc<LE>) -> Result<BTreeMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_i16_el_L(v: &BTreeMap<i16, El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_i16_el_L(v: &BTreeMap<i16, El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_i16_el_B(r: &mut Pr<BE>) -> Result<BTreeMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_i16_el_B(r: &mut Prc<BE>) -> Result<BTreeMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_i16_el_B(v: &BTreeMap<i16, El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_i16_el(v: &BTreeMap<i16, El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_i16_el() -> usize { <BTreeMap<i16, El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_el_u16_L(r: &mut Pr<LE>) -> Result<BTreeMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_el_u16_L(r: &mut Prc<LE>) -> Result<BTreeMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_el_u16_L(v: &BTreeMap<El<2, 5>, u16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_el_u16_L(v: &BTreeMap<El<2, 5>, u16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_el_u16_B(r: &mut Pr<BE>) -> Result<BTreeMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_el_u16_B(r: &mut Prc<BE>) -> Result<BTreeMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_el_u16_B(v: &BTreeMap<El<2, 5>, u16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_el_u16(v: &BTreeMap<El<2, 5>, u16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_el_u16() -> usize { <BTreeMap<El<2, 5>, u16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im1_el_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im1_el_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im1_el_L(v: &indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im1_el_L(v: &indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im1_el_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im1_el_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im1_el_B(v: &indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im1_el(v: &indexmap_v1::IndexMap<El<1, 3>, El<2, 5>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im1_el() -> usize { <indexmap_v1::IndexMap<El<1, 3>, El<2, 5>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im1_prim_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im1_prim_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im1_prim_L(v: &indexmap_v1::IndexMap<u16, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im1_prim_L(v: &indexmap_v1::IndexMap<u16, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im1_prim_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im1_prim_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im1_prim_B(v: &indexmap_v1::IndexMap<u16, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im1_prim(v: &indexmap_v1::IndexMap<u16, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im1_prim() -> usize { <indexmap_v1::IndexMap<u16, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im1_u8_u32_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im1_u8_u32_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im1_u8_u32_L(v: &indexmap_v1::IndexMap<u8, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im1_u8_u32_L(v: &indexmap_v1::IndexMap<u8, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im1_u8_u32_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im1_u8_u32_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im1_u8_u32_B(v: &indexmap_v1::IndexMap<u8, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im1_u8_u32(v: &indexmap_v1::IndexMap<u8, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im1_u8_u32() -> usize { <indexmap_v1::IndexMap<u8, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im1_u64_i8_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im1_u64_i8_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im1_u64_i8_L(v: &indexmap_v1::IndexMap<u64, i8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im1_u64_i8_L(v: &indexmap_v1::IndexMap<u64, i8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im1_u64_i8_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im1_u64_i8_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im1_u64_i8_B(v: &indexmap_v1::IndexMap<u64, i8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im1_u64_i8(v: &indexmap_v1::IndexMap<u64, i8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im1_u64_i8() -> usize { <indexmap_v1::IndexMap<u64, i8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im1_u8_u8_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im1_u8_u8_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im1_u8_u8_L(v: &indexmap_v1::IndexMap<u8, u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im1_u8_u8_L(v: &indexmap_v1::IndexMap<u8, u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im1_u8_u8_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im1_u8_u8_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im1_u8_u8_B(v: &indexmap_v1::IndexMap<u8, u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im1_u8_u8(v: &indexmap_v1::IndexMap<u8, u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im1_u8_u8() -> usize { <indexmap_v1::IndexMap<u8, u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im1_i16_el_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im1_i16_el_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im1_i16_el_L(v: &indexmap_v1::IndexMap<i16, El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im1_i16_el_L(v: &indexmap_v1::IndexMap<i16, El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im1_i16_el_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im1_i16_el_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im1_i16_el_B(v: &indexmap_v1::IndexMap<i16, El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im1_i16_el(v: &indexmap_v1::IndexMap<i16, El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im1_i16_el() -> usize { <indexmap_v1::IndexMap<i16, El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im1_el_u16_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im1_el_u16_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im1_el_u16_L(v: &indexmap_v1::IndexMap<El<2, 5>, u16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im1_el_u16_L(v: &indexmap_v1::IndexMap<El<2, 5>, u16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im1_el_u16_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im1_el_u16_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im1_el_u16_B(v: &indexmap_v1::IndexMap<El<2, 5>, u16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im1_el_u16(v: &indexmap_v1::IndexMap<El<2, 5>, u16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im1_el_u16() -> usize { <indexmap_v1::IndexMap<El<2, 5>, u16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im2_el_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im2_el_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im2_el_L(v: &indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im2_el_L(v: &indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im2_el_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im2_el_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im2_el_B(v: &indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im2_el(v: &indexmap_v2::IndexMap<El<1, 3>, El<2, 5>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im2_el() -> usize { <indexmap_v2::IndexMap<El<1, 3>, El<2, 5>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im2_prim_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im2_prim_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexMap<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im2_prim_L(v: &indexmap_v2::IndexMap<u16, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im2_prim_L(v: &indexmap_v2::IndexMap<u16, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im2_prim_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im2_prim_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexMap<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im2_prim_B(v: &indexmap_v2::IndexMap<u16, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im2_prim(v: &indexmap_v2::IndexMap<u16, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im2_prim() -> usize { <indexmap_v2::IndexMap<u16, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im2_u8_u32_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im2_u8_u32_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexMap<u8, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im2_u8_u32_L(v: &indexmap_v2::IndexMap<u8, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im2_u8_u32_L(v: &indexmap_v2::IndexMap<u8, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im2_u8_u32_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im2_u8_u32_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexMap<u8, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im2_u8_u32_B(v: &indexmap_v2::IndexMap<u8, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im2_u8_u32(v: &indexmap_v2::IndexMap<u8, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im2_u8_u32() -> usize { <indexmap_v2::IndexMap<u8, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im2_u64_i8_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im2_u64_i8_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexMap<u64, i8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im2_u64_i8_L(v: &indexmap_v2::IndexMap<u64, i8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im2_u64_i8_L(v: &indexmap_v2::IndexMap<u64, i8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im2_u64_i8_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im2_u64_i8_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexMap<u64, i8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im2_u64_i8_B(v: &indexmap_v2::IndexMap<u64, i8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im2_u64_i8(v: &indexmap_v2::IndexMap<u64, i8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im2_u64_i8() -> usize { <indexmap_v2::IndexMap<u64, i8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im2_u8_u8_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im2_u8_u8_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexMap<u8, u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im2_u8_u8_L(v: &indexmap_v2::IndexMap<u8, u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im2_u8_u8_L(v: &indexmap_v2::IndexMap<u8, u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im2_u8_u8_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im2_u8_u8_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexMap<u8, u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im2_u8_u8_B(v: &indexmap_v2::IndexMap<u8, u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im2_u8_u8(v: &indexmap_v2::IndexMap<u8, u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im2_u8_u8() -> usize { <indexmap_v2::IndexMap<u8, u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im2_i16_el_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im2_i16_el_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im2_i16_el_L(v: &indexmap_v2::IndexMap<i16, El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im2_i16_el_L(v: &indexmap_v2::IndexMap<i16, El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im2_i16_el_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im2_i16_el_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexMap<i16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im2_i16_el_B(v: &indexmap_v2::IndexMap<i16, El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im2_i16_el(v: &indexmap_v2::IndexMap<i16, El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im2_i16_el() -> usize { <indexmap_v2::IndexMap<i16, El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_im2_el_u16_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_im2_el_u16_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_im2_el_u16_L(v: &indexmap_v2::IndexMap<El<2, 5>, u16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_im2_el_u16_L(v: &indexmap_v2::IndexMap<El<2, 5>, u16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_im2_el_u16_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_im2_el_u16_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexMap<El<2, 5>, u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_im2_el_u16_B(v: &indexmap_v2::IndexMap<El<2, 5>, u16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_im2_el_u16(v: &indexmap_v2::IndexMap<El<2, 5>, u16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_im2_el_u16() -> usize { <indexmap_v2::IndexMap<El<2, 5>, u16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hs_el_L(r: &mut Pr<LE>) -> Result<HashSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hs_el_L(r: &mut Prc<LE>) -> Result<HashSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hs_el_L(v: &HashSet<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hs_el_L(v: &HashSet<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hs_el_B(r: &mut Pr<BE>) -> Result<HashSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hs_el_B(r: &mut Prc<BE>) -> Result<HashSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hs_el_B(v: &HashSet<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hs_el(v: &HashSet<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hs_el() -> usize { <HashSet<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hs_prim_L(r: &mut Pr<LE>) -> Result<HashSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hs_prim_L(r: &mut Prc<LE>) -> Result<HashSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hs_prim_L(v: &HashSet<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hs_prim_L(v: &HashSet<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hs_prim_B(r: &mut Pr<BE>) -> Result<HashSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hs_prim_B(r: &mut Prc<BE>) -> Result<HashSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hs_prim_B(v: &HashSet<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hs_prim(v: &HashSet<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hs_prim() -> usize { <HashSet<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hs_u8_L(r: &mut Pr<LE>) -> Result<HashSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hs_u8_L(r: &mut Prc<LE>) -> Result<HashSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hs_u8_L(v: &HashSet<u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hs_u8_L(v: &HashSet<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hs_u8_B(r: &mut Pr<BE>) -> Result<HashSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hs_u8_B(r: &mut Prc<BE>) -> Result<HashSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hs_u8_B(v: &HashSet<u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hs_u8(v: &HashSet<u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hs_u8() -> usize { <HashSet<u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hs_tup_L(r: &mut Pr<LE>) -> Result<HashSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hs_tup_L(r: &mut Prc<LE>) -> Result<HashSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hs_tup_L(v: &HashSet<(u8, u16)>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hs_tup_L(v: &HashSet<(u8, u16)>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hs_tup_B(r: &mut Pr<BE>) -> Result<HashSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hs_tup_B(r: &mut Prc<BE>) -> Result<HashSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hs_tup_B(v: &HashSet<(u8, u16)>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hs_tup(v: &HashSet<(u8, u16)>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hs_tup() -> usize { <HashSet<(u8, u16)> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bs_el_L(r: &mut Pr<LE>) -> Result<BTreeSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bs_el_L(r: &mut Prc<LE>) -> Result<BTreeSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bs_el_L(v: &BTreeSet<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bs_el_L(v: &BTreeSet<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bs_el_B(r: &mut Pr<BE>) -> Result<BTreeSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bs_el_B(r: &mut Prc<BE>) -> Result<BTreeSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bs_el_B(v: &BTreeSet<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bs_el(v: &BTreeSet<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bs_el() -> usize { <BTreeSet<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bs_prim_L(r: &mut Pr<LE>) -> Result<BTreeSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bs_prim_L(r: &mut Prc<LE>) -> Result<BTreeSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bs_prim_L(v: &BTreeSet<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bs_prim_L(v: &BTreeSet<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bs_prim_B(r: &mut Pr<BE>) -> Result<BTreeSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bs_prim_B(r: &mut Prc<BE>) -> Result<BTreeSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bs_prim_B(v: &BTreeSet<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bs_prim(v: &BTreeSet<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bs_prim() -> usize { <BTreeSet<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bs_u8_L(r: &mut Pr<LE>) -> Result<BTreeSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bs_u8_L(r: &mut Prc<LE>) -> Result<BTreeSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bs_u8_L(v: &BTreeSet<u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bs_u8_L(v: &BTreeSet<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bs_u8_B(r: &mut Pr<BE>) -> Result<BTreeSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bs_u8_B(r: &mut Prc<BE>) -> Result<BTreeSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bs_u8_B(v: &BTreeSet<u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bs_u8(v: &BTreeSet<u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bs_u8() -> usize { <BTreeSet<u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bs_tup_L(r: &mut Pr<LE>) -> Result<BTreeSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bs_tup_L(r: &mut Prc<LE>) -> Result<BTreeSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bs_tup_L(v: &BTreeSet<(u8, u16)>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bs_tup_L(v: &BTreeSet<(u8, u16)>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bs_tup_B(r: &mut Pr<BE>) -> Result<BTreeSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bs_tup_B(r: &mut Prc<BE>) -> Result<BTreeSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bs_tup_B(v: &BTreeSet<(u8, u16)>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bs_tup(v: &BTreeSet<(u8, u16)>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bs_tup() -> usize { <BTreeSet<(u8, u16)> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is1_el_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is1_el_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is1_el_L(v: &indexmap_v1::IndexSet<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is1_el_L(v: &indexmap_v1::IndexSet<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is1_el_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is1_el_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is1_el_B(v: &indexmap_v1::IndexSet<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is1_el(v: &indexmap_v1::IndexSet<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is1_el() -> usize { <indexmap_v1::IndexSet<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is1_prim_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is1_prim_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is1_prim_L(v: &indexmap_v1::IndexSet<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is1_prim_L(v: &indexmap_v1::IndexSet<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is1_prim_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is1_prim_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is1_prim_B(v: &indexmap_v1::IndexSet<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is1_prim(v: &indexmap_v1::IndexSet<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is1_prim() -> usize { <indexmap_v1::IndexSet<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is1_u8_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is1_u8_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is1_u8_L(v: &indexmap_v1::IndexSet<u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is1_u8_L(v: &indexmap_v1::IndexSet<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is1_u8_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is1_u8_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is1_u8_B(v: &indexmap_v1::IndexSet<u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is1_u8(v: &indexmap_v1::IndexSet<u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is1_u8() -> usize { <indexmap_v1::IndexSet<u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is1_tup_L(r: &mut Pr<LE>) -> Result<indexmap_v1::IndexSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is1_tup_L(r: &mut Prc<LE>) -> Result<indexmap_v1::IndexSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is1_tup_L(v: &indexmap_v1::IndexSet<(u8, u16)>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is1_tup_L(v: &indexmap_v1::IndexSet<(u8, u16)>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is1_tup_B(r: &mut Pr<BE>) -> Result<indexmap_v1::IndexSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is1_tup_B(r: &mut Prc<BE>) -> Result<indexmap_v1::IndexSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is1_tup_B(v: &indexmap_v1::IndexSet<(u8, u16)>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is1_tup(v: &indexmap_v1::IndexSet<(u8, u16)>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is1_tup() -> usize { <indexmap_v1::IndexSet<(u8, u16)> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is2_el_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is2_el_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexSet<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is2_el_L(v: &indexmap_v2::IndexSet<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is2_el_L(v: &indexmap_v2::IndexSet<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is2_el_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is2_el_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexSet<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is2_el_B(v: &indexmap_v2::IndexSet<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is2_el(v: &indexmap_v2::IndexSet<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is2_el() -> usize { <indexmap_v2::IndexSet<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is2_prim_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is2_prim_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexSet<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is2_prim_L(v: &indexmap_v2::IndexSet<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is2_prim_L(v: &indexmap_v2::IndexSet<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is2_prim_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is2_prim_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexSet<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is2_prim_B(v: &indexmap_v2::IndexSet<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is2_prim(v: &indexmap_v2::IndexSet<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is2_prim() -> usize { <indexmap_v2::IndexSet<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is2_u8_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is2_u8_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexSet<u8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is2_u8_L(v: &indexmap_v2::IndexSet<u8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is2_u8_L(v: &indexmap_v2::IndexSet<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is2_u8_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is2_u8_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexSet<u8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is2_u8_B(v: &indexmap_v2::IndexSet<u8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is2_u8(v: &indexmap_v2::IndexSet<u8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is2_u8() -> usize { <indexmap_v2::IndexSet<u8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_is2_tup_L(r: &mut Pr<LE>) -> Result<indexmap_v2::IndexSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_is2_tup_L(r: &mut Prc<LE>) -> Result<indexmap_v2::IndexSet<(u8, u16)>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_is2_tup_L(v: &indexmap_v2::IndexSet<(u8, u16)>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_is2_tup_L(v: &indexmap_v2::IndexSet<(u8, u16)>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_is2_tup_B(r: &mut Pr<BE>) -> Result<indexmap_v2::IndexSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_is2_tup_B(r: &mut Prc<BE>) -> Result<indexmap_v2::IndexSet<(u8, u16)>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_is2_tup_B(v: &indexmap_v2::IndexSet<(u8, u16)>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_is2_tup(v: &indexmap_v2::IndexSet<(u8, u16)>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_is2_tup() -> usize { <indexmap_v2::IndexSet<(u8, u16)> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_hm_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_hm_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_hm_L<'a>(v: &Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_hm_L<'a>(v: &Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_hm_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_hm_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_hm_B<'a>(v: &Cow<'a, HashMap<El<1, 3>, El<2, 5>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_hm<'a>(v: &Cow<'a, HashMap<El<1, 3>, El<2, 5>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_hm<'a>() -> usize { <Cow<'a, HashMap<El<1, 3>, El<2, 5>>> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_bm_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_bm_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_bm_L<'a>(v: &Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_bm_L<'a>(v: &Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_bm_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_bm_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_bm_B<'a>(v: &Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_bm<'a>(v: &Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_bm<'a>() -> usize { <Cow<'a, BTreeMap<El<1, 3>, El<2, 5>>> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_hs_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, HashSet<El<1, 3>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_hs_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, HashSet<El<1, 3>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_hs_L<'a>(v: &Cow<'a, HashSet<El<1, 3>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_hs_L<'a>(v: &Cow<'a, HashSet<El<1, 3>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_hs_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, HashSet<El<1, 3>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_hs_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, HashSet<El<1, 3>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_hs_B<'a>(v: &Cow<'a, HashSet<El<1, 3>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_hs<'a>(v: &Cow<'a, HashSet<El<1, 3>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_hs<'a>() -> usize { <Cow<'a, HashSet<El<1, 3>>> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_bs_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, BTreeSet<El<1, 3>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_bs_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, BTreeSet<El<1, 3>>>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_bs_L<'a>(v: &Cow<'a, BTreeSet<El<1, 3>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_bs_L<'a>(v: &Cow<'a, BTreeSet<El<1, 3>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_bs_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, BTreeSet<El<1, 3>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_bs_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, BTreeSet<El<1, 3>>>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_bs_B<'a>(v: &Cow<'a, BTreeSet<El<1, 3>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_bs<'a>(v: &Cow<'a, BTreeSet<El<1, 3>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_bs<'a>() -> usize { <Cow<'a, BTreeSet<El<1, 3>>> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_range_L(r: &mut Pr<LE>) -> Result<std::ops::Range<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_range_L(r: &mut Prc<LE>) -> Result<std::ops::Range<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_range_L(v: &std::ops::Range<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_range_L(v: &std::ops::Range<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_range_B(r: &mut Pr<BE>) -> Result<std::ops::Range<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_range_B(r: &mut Prc<BE>) -> Result<std::ops::Range<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_range_B(v: &std::ops::Range<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_range(v: &std::ops::Range<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_range() -> usize { <std::ops::Range<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_rangei_L(r: &mut Pr<LE>) -> Result<std::ops::RangeInclusive<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_rangei_L(r: &mut Prc<LE>) -> Result<std::ops::RangeInclusive<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_rangei_L(v: &std::ops::RangeInclusive<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_rangei_L(v: &std::ops::RangeInclusive<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_rangei_B(r: &mut Pr<BE>) -> Result<std::ops::RangeInclusive<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_rangei_B(r: &mut Prc<BE>) -> Result<std::ops::RangeInclusive<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_rangei_B(v: &std::ops::RangeInclusive<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_rangei(v: &std::ops::RangeInclusive<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_rangei() -> usize { <std::ops::RangeInclusive<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_range_u32_L(r: &mut Pr<LE>) -> Result<std::ops::Range<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_range_u32_L(r: &mut Prc<LE>) -> Result<std::ops::Range<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_range_u32_L(v: &std::ops::Range<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_range_u32_L(v: &std::ops::Range<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_range_u32_B(r: &mut Pr<BE>) -> Result<std::ops::Range<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_range_u32_B(r: &mut Prc<BE>) -> Result<std::ops::Range<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_range_u32_B(v: &std::ops::Range<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_range_u32(v: &std::ops::Range<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_range_u32() -> usize { <std::ops::Range<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_rangei_u16_L(r: &mut Pr<LE>) -> Result<std::ops::RangeInclusive<u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_rangei_u16_L(r: &mut Prc<LE>) -> Result<std::ops::RangeInclusive<u16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_rangei_u16_L(v: &std::ops::RangeInclusive<u16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_rangei_u16_L(v: &std::ops::RangeInclusive<u16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_rangei_u16_B(r: &mut Pr<BE>) -> Result<std::ops::RangeInclusive<u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_rangei_u16_B(r: &mut Prc<BE>) -> Result<std::ops::RangeInclusive<u16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_rangei_u16_B(v: &std::ops::RangeInclusive<u16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_rangei_u16(v: &std::ops::RangeInclusive<u16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_rangei_u16() -> usize { <std::ops::RangeInclusive<u16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_opt_el_L(r: &mut Pr<LE>) -> Result<Option<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_opt_el_L(r: &mut Prc<LE>) -> Result<Option<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_opt_el_L(v: &Option<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_opt_el_L(v: &Option<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_opt_el_B(r: &mut Pr<BE>) -> Result<Option<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_opt_el_B(r: &mut Prc<BE>) -> Result<Option<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_opt_el_B(v: &Option<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_opt_el(v: &Option<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_opt_el() -> usize { <Option<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_opt_u32_L(r: &mut Pr<LE>) -> Result<Option<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_opt_u32_L(r: &mut Prc<LE>) -> Result<Option<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_opt_u32_L(v: &Option<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_opt_u32_L(v: &Option<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_opt_u32_B(r: &mut Pr<BE>) -> Result<Option<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_opt_u32_B(r: &mut Prc<BE>) -> Result<Option<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_opt_u32_B(v: &Option<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_opt_u32(v: &Option<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_opt_u32() -> usize { <Option<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_opt_opt_L(r: &mut Pr<LE>) -> Result<Option<Option<u8>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_opt_opt_L(r: &mut Prc<LE>) -> Result<Option<Option<u8>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_opt_opt_L(v: &Option<Option<u8>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_opt_opt_L(v: &Option<Option<u8>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_opt_opt_B(r: &mut Pr<BE>) -> Result<Option<Option<u8>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_opt_opt_B(r: &mut Prc<BE>) -> Result<Option<Option<u8>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_opt_opt_B(v: &Option<Option<u8>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_opt_opt(v: &Option<Option<u8>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_opt_opt() -> usize { <Option<Option<u8>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_res_L(r: &mut Pr<LE>) -> Result<Result<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_res_L(r: &mut Prc<LE>) -> Result<Result<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_res_L(v: &Result<El<1, 3>, El<2, 5>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_res_L(v: &Result<El<1, 3>, El<2, 5>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_res_B(r: &mut Pr<BE>) -> Result<Result<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_res_B(r: &mut Prc<BE>) -> Result<Result<El<1, 3>, El<2, 5>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_res_B(v: &Result<El<1, 3>, El<2, 5>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_res(v: &Result<El<1, 3>, El<2, 5>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_res() -> usize { <Result<El<1, 3>, El<2, 5>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_res_21_L(r: &mut Pr<LE>) -> Result<Result<El<2, 5>, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_res_21_L(r: &mut Prc<LE>) -> Result<Result<El<2, 5>, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_res_21_L(v: &Result<El<2, 5>, El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_res_21_L(v: &Result<El<2, 5>, El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_res_21_B(r: &mut Pr<BE>) -> Result<Result<El<2, 5>, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_res_21_B(r: &mut Prc<BE>) -> Result<Result<El<2, 5>, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_res_21_B(v: &Result<El<2, 5>, El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_res_21(v: &Result<El<2, 5>, El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_res_21() -> usize { <Result<El<2, 5>, El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_res_u_L(r: &mut Pr<LE>) -> Result<Result<(), u64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_res_u_L(r: &mut Prc<LE>) -> Result<Result<(), u64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_res_u_L(v: &Result<(), u64>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_res_u_L(v: &Result<(), u64>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_res_u_B(r: &mut Pr<BE>) -> Result<Result<(), u64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_res_u_B(r: &mut Prc<BE>) -> Result<Result<(), u64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_res_u_B(v: &Result<(), u64>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_res_u(v: &Result<(), u64>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_res_u() -> usize { <Result<(), u64> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_res_u2_L(r: &mut Pr<LE>) -> Result<Result<String, ()>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_res_u2_L(r: &mut Prc<LE>) -> Result<Result<String, ()>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_res_u2_L(v: &Result<String, ()>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_res_u2_L(v: &Result<String, ()>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_res_u2_B(r: &mut Pr<BE>) -> Result<Result<String, ()>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_res_u2_B(r: &mut Prc<BE>) -> Result<Result<String, ()>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_res_u2_B(v: &Result<String, ()>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_res_u2(v: &Result<String, ()>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_res_u2() -> usize { <Result<String, ()> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_opt_unit_L(r: &mut Pr<LE>) -> Result<Option<()>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_opt_unit_L(r: &mut Prc<LE>) -> Result<Option<()>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_opt_unit_L(v: &Option<()>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_opt_unit_L(v: &Option<()>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_opt_unit_B(r: &mut Pr<BE>) -> Result<Option<()>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_opt_unit_B(r: &mut Prc<BE>) -> Result<Option<()>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_opt_unit_B(v: &Option<()>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_opt_unit(v: &Option<()>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_opt_unit() -> usize { <Option<()> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_opt_str_L(r: &mut Pr<LE>) -> Result<Option<String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_opt_str_L(r: &mut Prc<LE>) -> Result<Option<String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_opt_str_L(v: &Option<String>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_opt_str_L(v: &Option<String>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_opt_str_B(r: &mut Pr<BE>) -> Result<Option<String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_opt_str_B(r: &mut Prc<BE>) -> Result<Option<String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_opt_str_B(v: &Option<String>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_opt_str(v: &Option<String>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_opt_str() -> usize { <Option<String> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_opt_vec_L(r: &mut Pr<LE>) -> Result<Option<Vec<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_opt_vec_L(r: &mut Prc<LE>) -> Result<Option<Vec<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_opt_vec_L(v: &Option<Vec<u16>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_opt_vec_L(v: &Option<Vec<u16>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_opt_vec_B(r: &mut Pr<BE>) -> Result<Option<Vec<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_opt_vec_B(r: &mut Prc<BE>) -> Result<Option<Vec<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_opt_vec_B(v: &Option<Vec<u16>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_opt_vec(v: &Option<Vec<u16>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_opt_vec() -> usize { <Option<Vec<u16>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_res_p_L(r: &mut Pr<LE>) -> Result<Result<u16, u64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_res_p_L(r: &mut Prc<LE>) -> Result<Result<u16, u64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_res_p_L(v: &Result<u16, u64>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_res_p_L(v: &Result<u16, u64>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_res_p_B(r: &mut Pr<BE>) -> Result<Result<u16, u64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_res_p_B(r: &mut Prc<BE>) -> Result<Result<u16, u64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_res_p_B(v: &Result<u16, u64>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_res_p(v: &Result<u16, u64>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_res_p() -> usize { <Result<u16, u64> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_endian_L(r: &mut Pr<LE>) -> Result<Endianness, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_endian_L(r: &mut Prc<LE>) -> Result<Endianness, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_endian_L(v: &Endianness, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_endian_L(v: &Endianness, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_endian_B(r: &mut Pr<BE>) -> Result<Endianness, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_endian_B(r: &mut Prc<BE>) -> Result<Endianness, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_endian_B(v: &Endianness, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_endian(v: &Endianness) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_endian() -> usize { <Endianness as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzu8_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroU8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzu8_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroU8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzu8_L(v: &std::num::NonZeroU8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzu8_L(v: &std::num::NonZeroU8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzu8_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroU8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzu8_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroU8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzu8_B(v: &std::num::NonZeroU8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzu8(v: &std::num::NonZeroU8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzu8() -> usize { <std::num::NonZeroU8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_atu8_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicU8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_atu8_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicU8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_atu8_L(v: &std::sync::atomic::AtomicU8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_atu8_L(v: &std::sync::atomic::AtomicU8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_atu8_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicU8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_atu8_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicU8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_atu8_B(v: &std::sync::atomic::AtomicU8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_atu8(v: &std::sync::atomic::AtomicU8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_atu8() -> usize { <std::sync::atomic::AtomicU8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzu16_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroU16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzu16_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroU16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzu16_L(v: &std::num::NonZeroU16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzu16_L(v: &std::num::NonZeroU16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzu16_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroU16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzu16_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroU16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzu16_B(v: &std::num::NonZeroU16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzu16(v: &std::num::NonZeroU16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzu16() -> usize { <std::num::NonZeroU16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_atu16_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicU16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_atu16_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicU16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_atu16_L(v: &std::sync::atomic::AtomicU16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_atu16_L(v: &std::sync::atomic::AtomicU16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_atu16_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicU16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_atu16_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicU16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_atu16_B(v: &std::sync::atomic::AtomicU16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_atu16(v: &std::sync::atomic::AtomicU16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_atu16() -> usize { <std::sync::atomic::AtomicU16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzu32_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroU32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzu32_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroU32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzu32_L(v: &std::num::NonZeroU32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzu32_L(v: &std::num::NonZeroU32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzu32_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroU32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzu32_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroU32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzu32_B(v: &std::num::NonZeroU32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzu32(v: &std::num::NonZeroU32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzu32() -> usize { <std::num::NonZeroU32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_atu32_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicU32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_atu32_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicU32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_atu32_L(v: &std::sync::atomic::AtomicU32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_atu32_L(v: &std::sync::atomic::AtomicU32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_atu32_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicU32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_atu32_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicU32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_atu32_B(v: &std::sync::atomic::AtomicU32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_atu32(v: &std::sync::atomic::AtomicU32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_atu32() -> usize { <std::sync::atomic::AtomicU32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzu64_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroU64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzu64_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroU64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzu64_L(v: &std::num::NonZeroU64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzu64_L(v: &std::num::NonZeroU64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzu64_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroU64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzu64_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroU64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzu64_B(v: &std::num::NonZeroU64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzu64(v: &std::num::NonZeroU64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzu64() -> usize { <std::num::NonZeroU64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_atu64_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicU64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_atu64_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicU64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_atu64_L(v: &std::sync::atomic::AtomicU64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_atu64_L(v: &std::sync::atomic::AtomicU64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_atu64_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicU64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_atu64_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicU64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_atu64_B(v: &std::sync::atomic::AtomicU64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_atu64(v: &std::sync::atomic::AtomicU64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_atu64() -> usize { <std::sync::atomic::AtomicU64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzi8_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroI8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzi8_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroI8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzi8_L(v: &std::num::NonZeroI8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzi8_L(v: &std::num::NonZeroI8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzi8_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroI8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzi8_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroI8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzi8_B(v: &std::num::NonZeroI8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzi8(v: &std::num::NonZeroI8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzi8() -> usize { <std::num::NonZeroI8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_ati8_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicI8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_ati8_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicI8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_ati8_L(v: &std::sync::atomic::AtomicI8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ati8_L(v: &std::sync::atomic::AtomicI8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_ati8_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicI8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_ati8_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicI8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_ati8_B(v: &std::sync::atomic::AtomicI8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ati8(v: &std::sync::atomic::AtomicI8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_ati8() -> usize { <std::sync::atomic::AtomicI8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzi16_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroI16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzi16_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroI16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzi16_L(v: &std::num::NonZeroI16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzi16_L(v: &std::num::NonZeroI16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzi16_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroI16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzi16_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroI16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzi16_B(v: &std::num::NonZeroI16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzi16(v: &std::num::NonZeroI16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzi16() -> usize { <std::num::NonZeroI16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_ati16_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicI16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_ati16_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicI16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_ati16_L(v: &std::sync::atomic::AtomicI16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ati16_L(v: &std::sync::atomic::AtomicI16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_ati16_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicI16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_ati16_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicI16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_ati16_B(v: &std::sync::atomic::AtomicI16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ati16(v: &std::sync::atomic::AtomicI16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_ati16() -> usize { <std::sync::atomic::AtomicI16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzi32_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroI32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzi32_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroI32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzi32_L(v: &std::num::NonZeroI32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzi32_L(v: &std::num::NonZeroI32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzi32_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroI32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzi32_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroI32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzi32_B(v: &std::num::NonZeroI32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzi32(v: &std::num::NonZeroI32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzi32() -> usize { <std::num::NonZeroI32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_ati32_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicI32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_ati32_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicI32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_ati32_L(v: &std::sync::atomic::AtomicI32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ati32_L(v: &std::sync::atomic::AtomicI32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_ati32_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicI32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_ati32_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicI32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_ati32_B(v: &std::sync::atomic::AtomicI32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ati32(v: &std::sync::atomic::AtomicI32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_ati32() -> usize { <std::sync::atomic::AtomicI32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_nzi64_L(r: &mut Pr<LE>) -> Result<std::num::NonZeroI64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_nzi64_L(r: &mut Prc<LE>) -> Result<std::num::NonZeroI64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_nzi64_L(v: &std::num::NonZeroI64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_nzi64_L(v: &std::num::NonZeroI64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_nzi64_B(r: &mut Pr<BE>) -> Result<std::num::NonZeroI64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_nzi64_B(r: &mut Prc<BE>) -> Result<std::num::NonZeroI64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_nzi64_B(v: &std::num::NonZeroI64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_nzi64(v: &std::num::NonZeroI64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_nzi64() -> usize { <std::num::NonZeroI64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_ati64_L(r: &mut Pr<LE>) -> Result<std::sync::atomic::AtomicI64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_ati64_L(r: &mut Prc<LE>) -> Result<std::sync::atomic::AtomicI64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_ati64_L(v: &std::sync::atomic::AtomicI64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ati64_L(v: &std::sync::atomic::AtomicI64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_ati64_B(r: &mut Pr<BE>) -> Result<std::sync::atomic::AtomicI64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_ati64_B(r: &mut Prc<BE>) -> Result<std::sync::atomic::AtomicI64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_ati64_B(v: &std::sync::atomic::AtomicI64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ati64(v: &std::sync::atomic::AtomicI64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_ati64() -> usize { <std::sync::atomic::AtomicI64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_ipv4_L(r: &mut Pr<LE>) -> Result<std::net::Ipv4Addr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_ipv4_L(r: &mut Prc<LE>) -> Result<std::net::Ipv4Addr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_ipv4_L(v: &std::net::Ipv4Addr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ipv4_L(v: &std::net::Ipv4Addr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_ipv4_B(r: &mut Pr<BE>) -> Result<std::net::Ipv4Addr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_ipv4_B(r: &mut Prc<BE>) -> Result<std::net::Ipv4Addr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_ipv4_B(v: &std::net::Ipv4Addr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ipv4(v: &std::net::Ipv4Addr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_ipv4() -> usize { <std::net::Ipv4Addr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_ipv6_L(r: &mut Pr<LE>) -> Result<std::net::Ipv6Addr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_ipv6_L(r: &mut Prc<LE>) -> Result<std::net::Ipv6Addr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_ipv6_L(v: &std::net::Ipv6Addr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ipv6_L(v: &std::net::Ipv6Addr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_ipv6_B(r: &mut Pr<BE>) -> Result<std::net::Ipv6Addr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_ipv6_B(r: &mut Prc<BE>) -> Result<std::net::Ipv6Addr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_ipv6_B(v: &std::net::Ipv6Addr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ipv6(v: &std::net::Ipv6Addr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_ipv6() -> usize { <std::net::Ipv6Addr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_ip_L(r: &mut Pr<LE>) -> Result<std::net::IpAddr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_ip_L(r: &mut Prc<LE>) -> Result<std::net::IpAddr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_ip_L(v: &std::net::IpAddr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ip_L(v: &std::net::IpAddr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_ip_B(r: &mut Pr<BE>) -> Result<std::net::IpAddr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_ip_B(r: &mut Prc<BE>) -> Result<std::net::IpAddr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_ip_B(v: &std::net::IpAddr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ip(v: &std::net::IpAddr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_ip() -> usize { <std::net::IpAddr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_duration_L(r: &mut Pr<LE>) -> Result<std::time::Duration, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_duration_L(r: &mut Prc<LE>) -> Result<std::time::Duration, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_duration_L(v: &std::time::Duration, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_duration_L(v: &std::time::Duration, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_duration_B(r: &mut Pr<BE>) -> Result<std::time::Duration, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_duration_B(r: &mut Prc<BE>) -> Result<std::time::Duration, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_duration_B(v: &std::time::Duration, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_duration(v: &std::time::Duration) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_duration() -> usize { <std::time::Duration as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_systime_L(r: &mut Pr<LE>) -> Result<std::time::SystemTime, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_systime_L(r: &mut Prc<LE>) -> Result<std::time::SystemTime, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_systime_L(v: &std::time::SystemTime, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_systime_L(v: &std::time::SystemTime, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_systime_B(r: &mut Pr<BE>) -> Result<std::time::SystemTime, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_systime_B(r: &mut Prc<BE>) -> Result<std::time::SystemTime, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_systime_B(v: &std::time::SystemTime, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_systime(v: &std::time::SystemTime) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_systime() -> usize { <std::time::SystemTime as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr0_u8_L(r: &mut Pr<LE>) -> Result<[u8; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr0_u8_L(r: &mut Prc<LE>) -> Result<[u8; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr0_u8_L(v: &[u8; 0], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr0_u8_L(v: &[u8; 0], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr0_u8_B(r: &mut Pr<BE>) -> Result<[u8; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr0_u8_B(r: &mut Prc<BE>) -> Result<[u8; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr0_u8_B(v: &[u8; 0], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr0_u8(v: &[u8; 0]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr0_u8() -> usize { <[u8; 0] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr1_u8_L(r: &mut Pr<LE>) -> Result<[u8; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr1_u8_L(r: &mut Prc<LE>) -> Result<[u8; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr1_u8_L(v: &[u8; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr1_u8_L(v: &[u8; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr1_u8_B(r: &mut Pr<BE>) -> Result<[u8; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr1_u8_B(r: &mut Prc<BE>) -> Result<[u8; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr1_u8_B(v: &[u8; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr1_u8(v: &[u8; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr1_u8() -> usize { <[u8; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr3_u8_L(r: &mut Pr<LE>) -> Result<[u8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr3_u8_L(r: &mut Prc<LE>) -> Result<[u8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr3_u8_L(v: &[u8; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr3_u8_L(v: &[u8; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr3_u8_B(r: &mut Pr<BE>) -> Result<[u8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr3_u8_B(r: &mut Prc<BE>) -> Result<[u8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr3_u8_B(v: &[u8; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr3_u8(v: &[u8; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr3_u8() -> usize { <[u8; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr7_u8_L(r: &mut Pr<LE>) -> Result<[u8; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr7_u8_L(r: &mut Prc<LE>) -> Result<[u8; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr7_u8_L(v: &[u8; 7], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr7_u8_L(v: &[u8; 7], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr7_u8_B(r: &mut Pr<BE>) -> Result<[u8; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr7_u8_B(r: &mut Prc<BE>) -> Result<[u8; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr7_u8_B(v: &[u8; 7], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr7_u8(v: &[u8; 7]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr7_u8() -> usize { <[u8; 7] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr0_u16_L(r: &mut Pr<LE>) -> Result<[u16; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr0_u16_L(r: &mut Prc<LE>) -> Result<[u16; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr0_u16_L(v: &[u16; 0], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr0_u16_L(v: &[u16; 0], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr0_u16_B(r: &mut Pr<BE>) -> Result<[u16; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr0_u16_B(r: &mut Prc<BE>) -> Result<[u16; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr0_u16_B(v: &[u16; 0], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr0_u16(v: &[u16; 0]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr0_u16() -> usize { <[u16; 0] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr1_u16_L(r: &mut Pr<LE>) -> Result<[u16; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr1_u16_L(r: &mut Prc<LE>) -> Result<[u16; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr1_u16_L(v: &[u16; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr1_u16_L(v: &[u16; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr1_u16_B(r: &mut Pr<BE>) -> Result<[u16; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr1_u16_B(r: &mut Prc<BE>) -> Result<[u16; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr1_u16_B(v: &[u16; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr1_u16(v: &[u16; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr1_u16() -> usize { <[u16; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr3_u16_L(r: &mut Pr<LE>) -> Result<[u16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr3_u16_L(r: &mut Prc<LE>) -> Result<[u16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr3_u16_L(v: &[u16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr3_u16_L(v: &[u16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr3_u16_B(r: &mut Pr<BE>) -> Result<[u16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr3_u16_B(r: &mut Prc<BE>) -> Result<[u16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr3_u16_B(v: &[u16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr3_u16(v: &[u16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr3_u16() -> usize { <[u16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr7_u16_L(r: &mut Pr<LE>) -> Result<[u16; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr7_u16_L(r: &mut Prc<LE>) -> Result<[u16; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr7_u16_L(v: &[u16; 7], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr7_u16_L(v: &[u16; 7], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr7_u16_B(r: &mut Pr<BE>) -> Result<[u16; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr7_u16_B(r: &mut Prc<BE>) -> Result<[u16; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr7_u16_B(v: &[u16; 7], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr7_u16(v: &[u16; 7]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr7_u16() -> usize { <[u16; 7] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr0_f64_L(r: &mut Pr<LE>) -> Result<[f64; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr0_f64_L(r: &mut Prc<LE>) -> Result<[f64; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr0_f64_L(v: &[f64; 0], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr0_f64_L(v: &[f64; 0], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr0_f64_B(r: &mut Pr<BE>) -> Result<[f64; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr0_f64_B(r: &mut Prc<BE>) -> Result<[f64; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr0_f64_B(v: &[f64; 0], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr0_f64(v: &[f64; 0]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr0_f64() -> usize { <[f64; 0] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr1_f64_L(r: &mut Pr<LE>) -> Result<[f64; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr1_f64_L(r: &mut Prc<LE>) -> Result<[f64; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr1_f64_L(v: &[f64; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr1_f64_L(v: &[f64; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr1_f64_B(r: &mut Pr<BE>) -> Result<[f64; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr1_f64_B(r: &mut Prc<BE>) -> Result<[f64; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr1_f64_B(v: &[f64; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr1_f64(v: &[f64; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr1_f64() -> usize { <[f64; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr3_f64_L(r: &mut Pr<LE>) -> Result<[f64; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr3_f64_L(r: &mut Prc<LE>) -> Result<[f64; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr3_f64_L(v: &[f64; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr3_f64_L(v: &[f64; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr3_f64_B(r: &mut Pr<BE>) -> Result<[f64; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr3_f64_B(r: &mut Prc<BE>) -> Result<[f64; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr3_f64_B(v: &[f64; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr3_f64(v: &[f64; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr3_f64() -> usize { <[f64; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr7_f64_L(r: &mut Pr<LE>) -> Result<[f64; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr7_f64_L(r: &mut Prc<LE>) -> Result<[f64; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr7_f64_L(v: &[f64; 7], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr7_f64_L(v: &[f64; 7], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr7_f64_B(r: &mut Pr<BE>) -> Result<[f64; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr7_f64_B(r: &mut Prc<BE>) -> Result<[f64; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr7_f64_B(v: &[f64; 7], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr7_f64(v: &[f64; 7]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr7_f64() -> usize { <[f64; 7] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr0_el_L(r: &mut Pr<LE>) -> Result<[El<1, 3>; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr0_el_L(r: &mut Prc<LE>) -> Result<[El<1, 3>; 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr0_el_L(v: &[El<1, 3>; 0], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr0_el_L(v: &[El<1, 3>; 0], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr0_el_B(r: &mut Pr<BE>) -> Result<[El<1, 3>; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr0_el_B(r: &mut Prc<BE>) -> Result<[El<1, 3>; 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr0_el_B(v: &[El<1, 3>; 0], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr0_el(v: &[El<1, 3>; 0]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr0_el() -> usize { <[El<1, 3>; 0] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr1_el_L(r: &mut Pr<LE>) -> Result<[El<1, 3>; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr1_el_L(r: &mut Prc<LE>) -> Result<[El<1, 3>; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr1_el_L(v: &[El<1, 3>; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr1_el_L(v: &[El<1, 3>; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr1_el_B(r: &mut Pr<BE>) -> Result<[El<1, 3>; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr1_el_B(r: &mut Prc<BE>) -> Result<[El<1, 3>; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr1_el_B(v: &[El<1, 3>; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr1_el(v: &[El<1, 3>; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr1_el() -> usize { <[El<1, 3>; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr3_el_L(r: &mut Pr<LE>) -> Result<[El<1, 3>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr3_el_L(r: &mut Prc<LE>) -> Result<[El<1, 3>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr3_el_L(v: &[El<1, 3>; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr3_el_L(v: &[El<1, 3>; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr3_el_B(r: &mut Pr<BE>) -> Result<[El<1, 3>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr3_el_B(r: &mut Prc<BE>) -> Result<[El<1, 3>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr3_el_B(v: &[El<1, 3>; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr3_el(v: &[El<1, 3>; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr3_el() -> usize { <[El<1, 3>; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr7_el_L(r: &mut Pr<LE>) -> Result<[El<1, 3>; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr7_el_L(r: &mut Prc<LE>) -> Result<[El<1, 3>; 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr7_el_L(v: &[El<1, 3>; 7], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr7_el_L(v: &[El<1, 3>; 7], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr7_el_B(r: &mut Pr<BE>) -> Result<[El<1, 3>; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr7_el_B(r: &mut Prc<BE>) -> Result<[El<1, 3>; 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr7_el_B(v: &[El<1, 3>; 7], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr7_el(v: &[El<1, 3>; 7]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr7_el() -> usize { <[El<1, 3>; 7] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr0_tup_L(r: &mut Pr<LE>) -> Result<[(u8, u16); 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr0_tup_L(r: &mut Prc<LE>) -> Result<[(u8, u16); 0], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr0_tup_L(v: &[(u8, u16); 0], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr0_tup_L(v: &[(u8, u16); 0], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr0_tup_B(r: &mut Pr<BE>) -> Result<[(u8, u16); 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr0_tup_B(r: &mut Prc<BE>) -> Result<[(u8, u16); 0], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr0_tup_B(v: &[(u8, u16); 0], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr0_tup(v: &[(u8, u16); 0]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr0_tup() -> usize { <[(u8, u16); 0] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr1_tup_L(r: &mut Pr<LE>) -> Result<[(u8, u16); 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr1_tup_L(r: &mut Prc<LE>) -> Result<[(u8, u16); 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr1_tup_L(v: &[(u8, u16); 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr1_tup_L(v: &[(u8, u16); 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr1_tup_B(r: &mut Pr<BE>) -> Result<[(u8, u16); 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr1_tup_B(r: &mut Prc<BE>) -> Result<[(u8, u16); 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr1_tup_B(v: &[(u8, u16); 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr1_tup(v: &[(u8, u16); 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr1_tup() -> usize { <[(u8, u16); 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr3_tup_L(r: &mut Pr<LE>) -> Result<[(u8, u16); 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr3_tup_L(r: &mut Prc<LE>) -> Result<[(u8, u16); 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr3_tup_L(v: &[(u8, u16); 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr3_tup_L(v: &[(u8, u16); 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr3_tup_B(r: &mut Pr<BE>) -> Result<[(u8, u16); 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr3_tup_B(r: &mut Prc<BE>) -> Result<[(u8, u16); 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr3_tup_B(v: &[(u8, u16); 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr3_tup(v: &[(u8, u16); 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr3_tup() -> usize { <[(u8, u16); 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr7_tup_L(r: &mut Pr<LE>) -> Result<[(u8, u16); 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr7_tup_L(r: &mut Prc<LE>) -> Result<[(u8, u16); 7], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr7_tup_L(v: &[(u8, u16); 7], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr7_tup_L(v: &[(u8, u16); 7], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr7_tup_B(r: &mut Pr<BE>) -> Result<[(u8, u16); 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr7_tup_B(r: &mut Prc<BE>) -> Result<[(u8, u16); 7], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr7_tup_B(v: &[(u8, u16); 7], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr7_tup(v: &[(u8, u16); 7]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr7_tup() -> usize { <[(u8, u16); 7] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr_big_u8_L(r: &mut Pr<LE>) -> Result<[u8; 1000], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr_big_u8_L(r: &mut Prc<LE>) -> Result<[u8; 1000], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr_big_u8_L(v: &[u8; 1000], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr_big_u8_L(v: &[u8; 1000], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr_big_u8_B(r: &mut Pr<BE>) -> Result<[u8; 1000], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr_big_u8_B(r: &mut Prc<BE>) -> Result<[u8; 1000], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr_big_u8_B(v: &[u8; 1000], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr_big_u8(v: &[u8; 1000]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr_big_u8() -> usize { <[u8; 1000] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr_arr_L(r: &mut Pr<LE>) -> Result<[[u16; 2]; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr_arr_L(r: &mut Prc<LE>) -> Result<[[u16; 2]; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr_arr_L(v: &[[u16; 2]; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr_arr_L(v: &[[u16; 2]; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr_arr_B(r: &mut Pr<BE>) -> Result<[[u16; 2]; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr_arr_B(r: &mut Prc<BE>) -> Result<[[u16; 2]; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr_arr_B(v: &[[u16; 2]; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr_arr(v: &[[u16; 2]; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr_arr() -> usize { <[[u16; 2]; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_box_u32_L(r: &mut Pr<LE>) -> Result<Box<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_box_u32_L(r: &mut Prc<LE>) -> Result<Box<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_box_u32_L(v: &Box<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_box_u32_L(v: &Box<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_box_u32_B(r: &mut Pr<BE>) -> Result<Box<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_box_u32_B(r: &mut Prc<BE>) -> Result<Box<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_box_u32_B(v: &Box<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_box_u32(v: &Box<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_box_u32() -> usize { <Box<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_box_el_L(r: &mut Pr<LE>) -> Result<Box<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_box_el_L(r: &mut Prc<LE>) -> Result<Box<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_box_el_L(v: &Box<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_box_el_L(v: &Box<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_box_el_B(r: &mut Pr<BE>) -> Result<Box<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_box_el_B(r: &mut Prc<BE>) -> Result<Box<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_box_el_B(v: &Box<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_box_el(v: &Box<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_box_el() -> usize { <Box<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_w_str_L<'a>(v: &&'a str, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_str_L<'a>(v: &&'a str, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_w_str_B<'a>(v: &&'a str, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_str<'a>(v: &&'a str) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_w_sl_u16_L<'a>(v: &&'a [u16], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_sl_u16_L<'a>(v: &&'a [u16], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_w_sl_u16_B<'a>(v: &&'a [u16], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_sl_u16<'a>(v: &&'a [u16]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_w_sl_el_L<'a>(v: &&'a [El<1, 3>], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_sl_el_L<'a>(v: &&'a [El<1, 3>], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_w_sl_el_B<'a>(v: &&'a [El<1, 3>], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_sl_el<'a>(v: &&'a [El<1, 3>]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_w_ref_u32_L<'a>(v: &&'a u32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_ref_u32_L<'a>(v: &&'a u32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_w_ref_u32_B<'a>(v: &&'a u32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_ref_u32<'a>(v: &&'a u32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_w_refm_el_L<'a>(v: &&'a mut El<1, 3>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_refm_el_L<'a>(v: &&'a mut El<1, 3>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_w_refm_el_B<'a>(v: &&'a mut El<1, 3>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_refm_el<'a>(v: &&'a mut El<1, 3>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_r_uuid_L(r: &mut Pr<LE>) -> Result<uuid::Uuid, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_uuid_L(r: &mut Prc<LE>) -> Result<uuid::Uuid, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_uuid_L(v: &uuid::Uuid, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_uuid_L(v: &uuid::Uuid, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_uuid_B(r: &mut Pr<BE>) -> Result<uuid::Uuid, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_uuid_B(r: &mut Prc<BE>) -> Result<uuid::Uuid, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_uuid_B(v: &uuid::Uuid, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_uuid(v: &uuid::Uuid) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_uuid() -> usize { <uuid::Uuid as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_chrono_L(r: &mut Pr<LE>) -> Result<chrono::DateTime<chrono::Utc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_chrono_L(r: &mut Prc<LE>) -> Result<chrono::DateTime<chrono::Utc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_chrono_L(v: &chrono::DateTime<chrono::Utc>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_chrono_L(v: &chrono::DateTime<chrono::Utc>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_chrono_B(r: &mut Pr<BE>) -> Result<chrono::DateTime<chrono::Utc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_chrono_B(r: &mut Prc<BE>) -> Result<chrono::DateTime<chrono::Utc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_chrono_B(v: &chrono::DateTime<chrono::Utc>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_chrono(v: &chrono::DateTime<chrono::Utc>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_chrono() -> usize { <chrono::DateTime<chrono::Utc> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_regex_L(r: &mut Pr<LE>) -> Result<regex::Regex, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_regex_L(r: &mut Prc<LE>) -> Result<regex::Regex, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_regex_L(v: &regex::Regex, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_regex_L(v: &regex::Regex, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_regex_B(r: &mut Pr<BE>) -> Result<regex::Regex, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_regex_B(r: &mut Prc<BE>) -> Result<regex::Regex, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_regex_B(v: &regex::Regex, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_regex(v: &regex::Regex) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_regex() -> usize { <regex::Regex as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_smallvec_u16_L(r: &mut Pr<LE>) -> Result<smallvec::SmallVec<[u16; 4]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_smallvec_u16_L(r: &mut Prc<LE>) -> Result<smallvec::SmallVec<[u16; 4]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_smallvec_u16_L(v: &smallvec::SmallVec<[u16; 4]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_smallvec_u16_L(v: &smallvec::SmallVec<[u16; 4]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_smallvec_u16_B(r: &mut Pr<BE>) -> Result<smallvec::SmallVec<[u16; 4]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_smallvec_u16_B(r: &mut Prc<BE>) -> Result<smallvec::SmallVec<[u16; 4]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_smallvec_u16_B(v: &smallvec::SmallVec<[u16; 4]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_smallvec_u16(v: &smallvec::SmallVec<[u16; 4]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_smallvec_u16() -> usize { <smallvec::SmallVec<[u16; 4]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_smallvec_el_L(r: &mut Pr<LE>) -> Result<smallvec::SmallVec<[El<1, 3>; 4]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_smallvec_el_L(r: &mut Prc<LE>) -> Result<smallvec::SmallVec<[El<1, 3>; 4]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_smallvec_el_L(v: &smallvec::SmallVec<[El<1, 3>; 4]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_smallvec_el_L(v: &smallvec::SmallVec<[El<1, 3>; 4]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_smallvec_el_B(r: &mut Pr<BE>) -> Result<smallvec::SmallVec<[El<1, 3>; 4]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_smallvec_el_B(r: &mut Prc<BE>) -> Result<smallvec::SmallVec<[El<1, 3>; 4]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_smallvec_el_B(v: &smallvec::SmallVec<[El<1, 3>; 4]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_smallvec_el(v: &smallvec::SmallVec<[El<1, 3>; 4]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_smallvec_el() -> usize { <smallvec::SmallVec<[El<1, 3>; 4]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_vec2_L(r: &mut Pr<LE>) -> Result<glam::Vec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_vec2_L(r: &mut Prc<LE>) -> Result<glam::Vec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_vec2_L(v: &glam::Vec2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_vec2_L(v: &glam::Vec2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_vec2_B(r: &mut Pr<BE>) -> Result<glam::Vec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_vec2_B(r: &mut Prc<BE>) -> Result<glam::Vec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_vec2_B(v: &glam::Vec2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_vec2(v: &glam::Vec2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_vec2() -> usize { <glam::Vec2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_vec3_L(r: &mut Pr<LE>) -> Result<glam::Vec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_vec3_L(r: &mut Prc<LE>) -> Result<glam::Vec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_vec3_L(v: &glam::Vec3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_vec3_L(v: &glam::Vec3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_vec3_B(r: &mut Pr<BE>) -> Result<glam::Vec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_vec3_B(r: &mut Prc<BE>) -> Result<glam::Vec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_vec3_B(v: &glam::Vec3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_vec3(v: &glam::Vec3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_vec3() -> usize { <glam::Vec3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_vec3a_L(r: &mut Pr<LE>) -> Result<glam::Vec3A, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_vec3a_L(r: &mut Prc<LE>) -> Result<glam::Vec3A, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_vec3a_L(v: &glam::Vec3A, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_vec3a_L(v: &glam::Vec3A, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_vec3a_B(r: &mut Pr<BE>) -> Result<glam::Vec3A, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_vec3a_B(r: &mut Prc<BE>) -> Result<glam::Vec3A, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_vec3a_B(v: &glam::Vec3A, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_vec3a(v: &glam::Vec3A) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_vec3a() -> usize { <glam::Vec3A as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_vec4_L(r: &mut Pr<LE>) -> Result<glam::Vec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_vec4_L(r: &mut Prc<LE>) -> Result<glam::Vec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_vec4_L(v: &glam::Vec4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_vec4_L(v: &glam::Vec4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_vec4_B(r: &mut Pr<BE>) -> Result<glam::Vec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_vec4_B(r: &mut Prc<BE>) -> Result<glam::Vec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_vec4_B(v: &glam::Vec4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_vec4(v: &glam::Vec4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_vec4() -> usize { <glam::Vec4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_dvec2_L(r: &mut Pr<LE>) -> Result<glam::DVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_dvec2_L(r: &mut Prc<LE>) -> Result<glam::DVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_dvec2_L(v: &glam::DVec2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_dvec2_L(v: &glam::DVec2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_dvec2_B(r: &mut Pr<BE>) -> Result<glam::DVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_dvec2_B(r: &mut Prc<BE>) -> Result<glam::DVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_dvec2_B(v: &glam::DVec2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_dvec2(v: &glam::DVec2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_dvec2() -> usize { <glam::DVec2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_dvec3_L(r: &mut Pr<LE>) -> Result<glam::DVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_dvec3_L(r: &mut Prc<LE>) -> Result<glam::DVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_dvec3_L(v: &glam::DVec3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_dvec3_L(v: &glam::DVec3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_dvec3_B(r: &mut Pr<BE>) -> Result<glam::DVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_dvec3_B(r: &mut Prc<BE>) -> Result<glam::DVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_dvec3_B(v: &glam::DVec3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_dvec3(v: &glam::DVec3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_dvec3() -> usize { <glam::DVec3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_dvec4_L(r: &mut Pr<LE>) -> Result<glam::DVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_dvec4_L(r: &mut Prc<LE>) -> Result<glam::DVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_dvec4_L(v: &glam::DVec4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_dvec4_L(v: &glam::DVec4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_dvec4_B(r: &mut Pr<BE>) -> Result<glam::DVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_dvec4_B(r: &mut Prc<BE>) -> Result<glam::DVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_dvec4_B(v: &glam::DVec4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_dvec4(v: &glam::DVec4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_dvec4() -> usize { <glam::DVec4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_ivec2_L(r: &mut Pr<LE>) -> Result<glam::IVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_ivec2_L(r: &mut Prc<LE>) -> Result<glam::IVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_ivec2_L(v: &glam::IVec2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_ivec2_L(v: &glam::IVec2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_ivec2_B(r: &mut Pr<BE>) -> Result<glam::IVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_ivec2_B(r: &mut Prc<BE>) -> Result<glam::IVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_ivec2_B(v: &glam::IVec2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_ivec2(v: &glam::IVec2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_ivec2() -> usize { <glam::IVec2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_ivec3_L(r: &mut Pr<LE>) -> Result<glam::IVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_ivec3_L(r: &mut Prc<LE>) -> Result<glam::IVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_ivec3_L(v: &glam::IVec3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_ivec3_L(v: &glam::IVec3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_ivec3_B(r: &mut Pr<BE>) -> Result<glam::IVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_ivec3_B(r: &mut Prc<BE>) -> Result<glam::IVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_ivec3_B(v: &glam::IVec3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_ivec3(v: &glam::IVec3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_ivec3() -> usize { <glam::IVec3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_ivec4_L(r: &mut Pr<LE>) -> Result<glam::IVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_ivec4_L(r: &mut Prc<LE>) -> Result<glam::IVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_ivec4_L(v: &glam::IVec4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_ivec4_L(v: &glam::IVec4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_ivec4_B(r: &mut Pr<BE>) -> Result<glam::IVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_ivec4_B(r: &mut Prc<BE>) -> Result<glam::IVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_ivec4_B(v: &glam::IVec4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_ivec4(v: &glam::IVec4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_ivec4() -> usize { <glam::IVec4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_uvec2_L(r: &mut Pr<LE>) -> Result<glam::UVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_uvec2_L(r: &mut Prc<LE>) -> Result<glam::UVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_uvec2_L(v: &glam::UVec2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_uvec2_L(v: &glam::UVec2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_uvec2_B(r: &mut Pr<BE>) -> Result<glam::UVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_uvec2_B(r: &mut Prc<BE>) -> Result<glam::UVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_uvec2_B(v: &glam::UVec2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_uvec2(v: &glam::UVec2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_uvec2() -> usize { <glam::UVec2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_uvec3_L(r: &mut Pr<LE>) -> Result<glam::UVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_uvec3_L(r: &mut Prc<LE>) -> Result<glam::UVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_uvec3_L(v: &glam::UVec3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_uvec3_L(v: &glam::UVec3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_uvec3_B(r: &mut Pr<BE>) -> Result<glam::UVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_uvec3_B(r: &mut Prc<BE>) -> Result<glam::UVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_uvec3_B(v: &glam::UVec3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_uvec3(v: &glam::UVec3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_uvec3() -> usize { <glam::UVec3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_uvec4_L(r: &mut Pr<LE>) -> Result<glam::UVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_uvec4_L(r: &mut Prc<LE>) -> Result<glam::UVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_uvec4_L(v: &glam::UVec4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_uvec4_L(v: &glam::UVec4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_uvec4_B(r: &mut Pr<BE>) -> Result<glam::UVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_uvec4_B(r: &mut Prc<BE>) -> Result<glam::UVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_uvec4_B(v: &glam::UVec4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_uvec4(v: &glam::UVec4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_uvec4() -> usize { <glam::UVec4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_quat_L(r: &mut Pr<LE>) -> Result<glam::Quat, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_quat_L(r: &mut Prc<LE>) -> Result<glam::Quat, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_quat_L(v: &glam::Quat, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_quat_L(v: &glam::Quat, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_quat_B(r: &mut Pr<BE>) -> Result<glam::Quat, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_quat_B(r: &mut Prc<BE>) -> Result<glam::Quat, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_quat_B(v: &glam::Quat, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_quat(v: &glam::Quat) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_quat() -> usize { <glam::Quat as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_dquat_L(r: &mut Pr<LE>) -> Result<glam::DQuat, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_dquat_L(r: &mut Prc<LE>) -> Result<glam::DQuat, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_dquat_L(v: &glam::DQuat, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_dquat_L(v: &glam::DQuat, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_dquat_B(r: &mut Pr<BE>) -> Result<glam::DQuat, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_dquat_B(r: &mut Prc<BE>) -> Result<glam::DQuat, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_dquat_B(v: &glam::DQuat, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_dquat(v: &glam::DQuat) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_dquat() -> usize { <glam::DQuat as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_mat2_L(r: &mut Pr<LE>) -> Result<glam::Mat2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_mat2_L(r: &mut Prc<LE>) -> Result<glam::Mat2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_mat2_L(v: &glam::Mat2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_mat2_L(v: &glam::Mat2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_mat2_B(r: &mut Pr<BE>) -> Result<glam::Mat2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_mat2_B(r: &mut Prc<BE>) -> Result<glam::Mat2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_mat2_B(v: &glam::Mat2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_mat2(v: &glam::Mat2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_mat2() -> usize { <glam::Mat2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_mat3_L(r: &mut Pr<LE>) -> Result<glam::Mat3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_mat3_L(r: &mut Prc<LE>) -> Result<glam::Mat3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_mat3_L(v: &glam::Mat3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_mat3_L(v: &glam::Mat3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_mat3_B(r: &mut Pr<BE>) -> Result<glam::Mat3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_mat3_B(r: &mut Prc<BE>) -> Result<glam::Mat3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_mat3_B(v: &glam::Mat3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_mat3(v: &glam::Mat3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_mat3() -> usize { <glam::Mat3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_mat3a_L(r: &mut Pr<LE>) -> Result<glam::Mat3A, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_mat3a_L(r: &mut Prc<LE>) -> Result<glam::Mat3A, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_mat3a_L(v: &glam::Mat3A, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_mat3a_L(v: &glam::Mat3A, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_mat3a_B(r: &mut Pr<BE>) -> Result<glam::Mat3A, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_mat3a_B(r: &mut Prc<BE>) -> Result<glam::Mat3A, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_mat3a_B(v: &glam::Mat3A, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_mat3a(v: &glam::Mat3A) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_mat3a() -> usize { <glam::Mat3A as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_mat4_L(r: &mut Pr<LE>) -> Result<glam::Mat4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_mat4_L(r: &mut Prc<LE>) -> Result<glam::Mat4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_mat4_L(v: &glam::Mat4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_mat4_L(v: &glam::Mat4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_mat4_B(r: &mut Pr<BE>) -> Result<glam::Mat4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_mat4_B(r: &mut Prc<BE>) -> Result<glam::Mat4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_mat4_B(v: &glam::Mat4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_mat4(v: &glam::Mat4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_mat4() -> usize { <glam::Mat4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_dmat2_L(r: &mut Pr<LE>) -> Result<glam::DMat2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_dmat2_L(r: &mut Prc<LE>) -> Result<glam::DMat2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_dmat2_L(v: &glam::DMat2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_dmat2_L(v: &glam::DMat2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_dmat2_B(r: &mut Pr<BE>) -> Result<glam::DMat2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_dmat2_B(r: &mut Prc<BE>) -> Result<glam::DMat2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_dmat2_B(v: &glam::DMat2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_dmat2(v: &glam::DMat2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_dmat2() -> usize { <glam::DMat2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_dmat3_L(r: &mut Pr<LE>) -> Result<glam::DMat3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_dmat3_L(r: &mut Prc<LE>) -> Result<glam::DMat3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_dmat3_L(v: &glam::DMat3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_dmat3_L(v: &glam::DMat3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_dmat3_B(r: &mut Pr<BE>) -> Result<glam::DMat3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_dmat3_B(r: &mut Prc<BE>) -> Result<glam::DMat3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_dmat3_B(v: &glam::DMat3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_dmat3(v: &glam::DMat3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_dmat3() -> usize { <glam::DMat3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_dmat4_L(r: &mut Pr<LE>) -> Result<glam::DMat4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_dmat4_L(r: &mut Prc<LE>) -> Result<glam::DMat4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_dmat4_L(v: &glam::DMat4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_dmat4_L(v: &glam::DMat4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_dmat4_B(r: &mut Pr<BE>) -> Result<glam::DMat4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_dmat4_B(r: &mut Prc<BE>) -> Result<glam::DMat4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_dmat4_B(v: &glam::DMat4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_dmat4(v: &glam::DMat4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_dmat4() -> usize { <glam::DMat4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_affine2_L(r: &mut Pr<LE>) -> Result<glam::Affine2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_affine2_L(r: &mut Prc<LE>) -> Result<glam::Affine2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_affine2_L(v: &glam::Affine2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_affine2_L(v: &glam::Affine2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_affine2_B(r: &mut Pr<BE>) -> Result<glam::Affine2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_affine2_B(r: &mut Prc<BE>) -> Result<glam::Affine2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_affine2_B(v: &glam::Affine2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_affine2(v: &glam::Affine2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_affine2() -> usize { <glam::Affine2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_affine3a_L(r: &mut Pr<LE>) -> Result<glam::Affine3A, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_affine3a_L(r: &mut Prc<LE>) -> Result<glam::Affine3A, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_affine3a_L(v: &glam::Affine3A, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_affine3a_L(v: &glam::Affine3A, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_affine3a_B(r: &mut Pr<BE>) -> Result<glam::Affine3A, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_affine3a_B(r: &mut Prc<BE>) -> Result<glam::Affine3A, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_affine3a_B(v: &glam::Affine3A, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_affine3a(v: &glam::Affine3A) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_affine3a() -> usize { <glam::Affine3A as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_daffine2_L(r: &mut Pr<LE>) -> Result<glam::DAffine2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_daffine2_L(r: &mut Prc<LE>) -> Result<glam::DAffine2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_daffine2_L(v: &glam::DAffine2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_daffine2_L(v: &glam::DAffine2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_daffine2_B(r: &mut Pr<BE>) -> Result<glam::DAffine2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_daffine2_B(r: &mut Prc<BE>) -> Result<glam::DAffine2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_daffine2_B(v: &glam::DAffine2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_daffine2(v: &glam::DAffine2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_daffine2() -> usize { <glam::DAffine2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_daffine3_L(r: &mut Pr<LE>) -> Result<glam::DAffine3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_daffine3_L(r: &mut Prc<LE>) -> Result<glam::DAffine3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_daffine3_L(v: &glam::DAffine3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_daffine3_L(v: &glam::DAffine3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_daffine3_B(r: &mut Pr<BE>) -> Result<glam::DAffine3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_daffine3_B(r: &mut Prc<BE>) -> Result<glam::DAffine3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_daffine3_B(v: &glam::DAffine3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_daffine3(v: &glam::DAffine3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_daffine3() -> usize { <glam::DAffine3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_bvec2_L(r: &mut Pr<LE>) -> Result<glam::BVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_bvec2_L(r: &mut Prc<LE>) -> Result<glam::BVec2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_bvec2_L(v: &glam::BVec2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_bvec2_L(v: &glam::BVec2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_bvec2_B(r: &mut Pr<BE>) -> Result<glam::BVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_bvec2_B(r: &mut Prc<BE>) -> Result<glam::BVec2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_bvec2_B(v: &glam::BVec2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_bvec2(v: &glam::BVec2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_bvec2() -> usize { <glam::BVec2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_bvec3_L(r: &mut Pr<LE>) -> Result<glam::BVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_bvec3_L(r: &mut Prc<LE>) -> Result<glam::BVec3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_bvec3_L(v: &glam::BVec3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_bvec3_L(v: &glam::BVec3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_bvec3_B(r: &mut Pr<BE>) -> Result<glam::BVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_bvec3_B(r: &mut Prc<BE>) -> Result<glam::BVec3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_bvec3_B(v: &glam::BVec3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_bvec3(v: &glam::BVec3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_bvec3() -> usize { <glam::BVec3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_glam_bvec4_L(r: &mut Pr<LE>) -> Result<glam::BVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_glam_bvec4_L(r: &mut Prc<LE>) -> Result<glam::BVec4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_glam_bvec4_L(v: &glam::BVec4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_glam_bvec4_L(v: &glam::BVec4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_glam_bvec4_B(r: &mut Pr<BE>) -> Result<glam::BVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_glam_bvec4_B(r: &mut Prc<BE>) -> Result<glam::BVec4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_glam_bvec4_B(v: &glam::BVec4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_glam_bvec4(v: &glam::BVec4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_glam_bvec4() -> usize { <glam::BVec4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_varint_L(r: &mut Pr<LE>) -> Result<speedy::private::VarInt64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_varint_L(r: &mut Prc<LE>) -> Result<speedy::private::VarInt64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_varint_L(v: &speedy::private::VarInt64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_varint_L(v: &speedy::private::VarInt64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_varint_B(r: &mut Pr<BE>) -> Result<speedy::private::VarInt64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_varint_B(r: &mut Prc<BE>) -> Result<speedy::private::VarInt64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_varint_B(v: &speedy::private::VarInt64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_r_varint_D(r: &mut Pr<Endianness>) -> Result<speedy::private::VarInt64, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_c_varint_D(r: &mut Prc<Endianness>) -> Result<speedy::private::VarInt64, Error> { Readable::<'_, Endianness>::read_from(r) }
pub fn root_w_varint_D(v: &speedy::private::VarInt64, w: &mut Pw<Endianness>) -> Result<(), Error> { Writable::<Endianness>::write_to(v, w) }
pub fn root_n_varint(v: &speedy::private::VarInt64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_varint() -> usize { <speedy::private::VarInt64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_varint_m_L(r: &mut Pr<LE>) -> Result<u64, Error> { r.read_u64_varint() }
pub fn root_c_varint_m_L(r: &mut Prc<LE>) -> Result<u64, Error> { r.read_u64_varint() }
pub fn root_w_varint_m_L(v: &u64, w: &mut Pw<LE>) -> Result<(), Error> { w.write_u64_varint(*v) }
pub fn root_x_varint_m_L(v: &u64, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_u64_varint(*v) }
pub fn root_r_varint_m_B(r: &mut Pr<BE>) -> Result<u64, Error> { r.read_u64_varint() }
pub fn root_c_varint_m_B(r: &mut Prc<BE>) -> Result<u64, Error> { r.read_u64_varint() }
pub fn root_w_varint_m_B(v: &u64, w: &mut Pw<BE>) -> Result<(), Error> { w.write_u64_varint(*v) }
pub fn root_r_me_u8_L(r: &mut Pr<LE>) -> Result<u8, Error> { r.read_u8() }
pub fn root_c_me_u8_L(r: &mut Prc<LE>) -> Result<u8, Error> { r.read_u8() }
pub fn root_w_me_u8_L(v: &u8, w: &mut Pw<LE>) -> Result<(), Error> { w.write_u8(*v) }
pub fn root_x_me_u8_L(v: &u8, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_u8(*v) }
pub fn root_r_me_u8_B(r: &mut Pr<BE>) -> Result<u8, Error> { r.read_u8() }
pub fn root_c_me_u8_B(r: &mut Prc<BE>) -> Result<u8, Error> { r.read_u8() }
pub fn root_w_me_u8_B(v: &u8, w: &mut Pw<BE>) -> Result<(), Error> { w.write_u8(*v) }
pub fn root_r_me_u8_D(r: &mut Pr<Endianness>) -> Result<u8, Error> { r.read_u8() }
pub fn root_c_me_u8_D(r: &mut Prc<Endianness>) -> Result<u8, Error> { r.read_u8() }
pub fn root_w_me_u8_D(v: &u8, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_u8(*v) }
pub fn root_r_pk_u8_L(r: &mut Pr<LE>) -> Result<u8, Error> { r.peek_u8() }
pub fn root_c_pk_u8_L(r: &mut Prc<LE>) -> Result<u8, Error> { r.peek_u8() }
pub fn root_r_pk_u8_B(r: &mut Pr<BE>) -> Result<u8, Error> { r.peek_u8() }
pub fn root_c_pk_u8_B(r: &mut Prc<BE>) -> Result<u8, Error> { r.peek_u8() }
pub fn root_r_pk_u8_D(r: &mut Pr<Endianness>) -> Result<u8, Error> { r.peek_u8() }
pub fn root_c_pk_u8_D(r: &mut Prc<Endianness>) -> Result<u8, Error> { r.peek_u8() }
pub fn root_r_me_i8_L(r: &mut Pr<LE>) -> Result<i8, Error> { r.read_i8() }
pub fn root_c_me_i8_L(r: &mut Prc<LE>) -> Result<i8, Error> { r.read_i8() }
pub fn root_w_me_i8_L(v: &i8, w: &mut Pw<LE>) -> Result<(), Error> { w.write_i8(*v) }
pub fn root_x_me_i8_L(v: &i8, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_i8(*v) }
pub fn root_r_me_i8_B(r: &mut Pr<BE>) -> Result<i8, Error> { r.read_i8() }
pub fn root_c_me_i8_B(r: &mut Prc<BE>) -> Result<i8, Error> { r.read_i8() }
pub fn root_w_me_i8_B(v: &i8, w: &mut Pw<BE>) -> Result<(), Error> { w.write_i8(*v) }
pub fn root_r_me_i8_D(r: &mut Pr<Endianness>) -> Result<i8, Error> { r.read_i8() }
pub fn root_c_me_i8_D(r: &mut Prc<Endianness>) -> Result<i8, Error> { r.read_i8() }
pub fn root_w_me_i8_D(v: &i8, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_i8(*v) }
pub fn root_r_pk_i8_L(r: &mut Pr<LE>) -> Result<i8, Error> { r.peek_i8() }
pub fn root_c_pk_i8_L(r: &mut Prc<LE>) -> Result<i8, Error> { r.peek_i8() }
pub fn root_r_pk_i8_B(r: &mut Pr<BE>) -> Result<i8, Error> { r.peek_i8() }
pub fn root_c_pk_i8_B(r: &mut Prc<BE>) -> Result<i8, Error> { r.peek_i8() }
pub fn root_r_pk_i8_D(r: &mut Pr<Endianness>) -> Result<i8, Error> { r.peek_i8() }
pub fn root_c_pk_i8_D(r: &mut Prc<Endianness>) -> Result<i8, Error> { r.peek_i8() }
pub fn root_r_me_u16_L(r: &mut Pr<LE>) -> Result<u16, Error> { r.read_u16() }
pub fn root_c_me_u16_L(r: &mut Prc<LE>) -> Result<u16, Error> { r.read_u16() }
pub fn root_w_me_u16_L(v: &u16, w: &mut Pw<LE>) -> Result<(), Error> { w.write_u16(*v) }
pub fn root_x_me_u16_L(v: &u16, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_u16(*v) }
pub fn root_r_me_u16_B(r: &mut Pr<BE>) -> Result<u16, Error> { r.read_u16() }
pub fn root_c_me_u16_B(r: &mut Prc<BE>) -> Result<u16, Error> { r.read_u16() }
pub fn root_w_me_u16_B(v: &u16, w: &mut Pw<BE>) -> Result<(), Error> { w.write_u16(*v) }
pub fn root_r_me_u16_D(r: &mut Pr<Endianness>) -> Result<u16, Error> { r.read_u16() }
pub fn root_c_me_u16_D(r: &mut Prc<Endianness>) -> Result<u16, Error> { r.read_u16() }
pub fn root_w_me_u16_D(v: &u16, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_u16(*v) }
pub fn root_r_pk_u16_L(r: &mut Pr<LE>) -> Result<u16, Error> { r.peek_u16() }
pub fn root_c_pk_u16_L(r: &mut Prc<LE>) -> Result<u16, Error> { r.peek_u16() }
pub fn root_r_pk_u16_B(r: &mut Pr<BE>) -> Result<u16, Error> { r.peek_u16() }
pub fn root_c_pk_u16_B(r: &mut Prc<BE>) -> Result<u16, Error> { r.peek_u16() }
pub fn root_r_pk_u16_D(r: &mut Pr<Endianness>) -> Result<u16, Error> { r.peek_u16() }
pub fn root_c_pk_u16_D(r: &mut Prc<Endianness>) -> Result<u16, Error> { r.peek_u16() }
pub fn root_r_me_i16_L(r: &mut Pr<LE>) -> Result<i16, Error> { r.read_i16() }
pub fn root_c_me_i16_L(r: &mut Prc<LE>) -> Result<i16, Error> { r.read_i16() }
pub fn root_w_me_i16_L(v: &i16, w: &mut Pw<LE>) -> Result<(), Error> { w.write_i16(*v) }
pub fn root_x_me_i16_L(v: &i16, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_i16(*v) }
pub fn root_r_me_i16_B(r: &mut Pr<BE>) -> Result<i16, Error> { r.read_i16() }
pub fn root_c_me_i16_B(r: &mut Prc<BE>) -> Result<i16, Error> { r.read_i16() }
pub fn root_w_me_i16_B(v: &i16, w: &mut Pw<BE>) -> Result<(), Error> { w.write_i16(*v) }
pub fn root_r_me_i16_D(r: &mut Pr<Endianness>) -> Result<i16, Error> { r.read_i16() }
pub fn root_c_me_i16_D(r: &mut Prc<Endianness>) -> Result<i16, Error> { r.read_i16() }
pub fn root_w_me_i16_D(v: &i16, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_i16(*v) }
pub fn root_r_pk_i16_L(r: &mut Pr<LE>) -> Result<i16, Error> { r.peek_i16() }
pub fn root_c_pk_i16_L(r: &mut Prc<LE>) -> Result<i16, Error> { r.peek_i16() }
pub fn root_r_pk_i16_B(r: &mut Pr<BE>) -> Result<i16, Error> { r.peek_i16() }
pub fn root_c_pk_i16_B(r: &mut Prc<BE>) -> Result<i16, Error> { r.peek_i16() }
pub fn root_r_pk_i16_D(r: &mut Pr<Endianness>) -> Result<i16, Error> { r.peek_i16() }
pub fn root_c_pk_i16_D(r: &mut Prc<Endianness>) -> Result<i16, Error> { r.peek_i16() }
pub fn root_r_me_u32_L(r: &mut Pr<LE>) -> Result<u32, Error> { r.read_u32() }
pub fn root_c_me_u32_L(r: &mut Prc<LE>) -> Result<u32, Error> { r.read_u32() }
pub fn root_w_me_u32_L(v: &u32, w: &mut Pw<LE>) -> Result<(), Error> { w.write_u32(*v) }
pub fn root_x_me_u32_L(v: &u32, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_u32(*v) }
pub fn root_r_me_u32_B(r: &mut Pr<BE>) -> Result<u32, Error> { r.read_u32() }
pub fn root_c_me_u32_B(r: &mut Prc<BE>) -> Result<u32, Error> { r.read_u32() }
pub fn root_w_me_u32_B(v: &u32, w: &mut Pw<BE>) -> Result<(), Error> { w.write_u32(*v) }
pub fn root_r_me_u32_D(r: &mut Pr<Endianness>) -> Result<u32, Error> { r.read_u32() }
pub fn root_c_me_u32_D(r: &mut Prc<Endianness>) -> Result<u32, Error> { r.read_u32() }
pub fn root_w_me_u32_D(v: &u32, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_u32(*v) }
pub fn root_r_pk_u32_L(r: &mut Pr<LE>) -> Result<u32, Error> { r.peek_u32() }
pub fn root_c_pk_u32_L(r: &mut Prc<LE>) -> Result<u32, Error> { r.peek_u32() }
pub fn root_r_pk_u32_B(r: &mut Pr<BE>) -> Result<u32, Error> { r.peek_u32() }
pub fn root_c_pk_u32_B(r: &mut Prc<BE>) -> Result<u32, Error> { r.peek_u32() }
pub fn root_r_pk_u32_D(r: &mut Pr<Endianness>) -> Result<u32, Error> { r.peek_u32() }
pub fn root_c_pk_u32_D(r: &mut Prc<Endianness>) -> Result<u32, Error> { r.peek_u32() }
pub fn root_r_me_i32_L(r: &mut Pr<LE>) -> Result<i32, Error> { r.read_i32() }
pub fn root_c_me_i32_L(r: &mut Prc<LE>) -> Result<i32, Error> { r.read_i32() }
pub fn root_w_me_i32_L(v: &i32, w: &mut Pw<LE>) -> Result<(), Error> { w.write_i32(*v) }
pub fn root_x_me_i32_L(v: &i32, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_i32(*v) }
pub fn root_r_me_i32_B(r: &mut Pr<BE>) -> Result<i32, Error> { r.read_i32() }
pub fn root_c_me_i32_B(r: &mut Prc<BE>) -> Result<i32, Error> { r.read_i32() }
pub fn root_w_me_i32_B(v: &i32, w: &mut Pw<BE>) -> Result<(), Error> { w.write_i32(*v) }
pub fn root_r_me_i32_D(r: &mut Pr<Endianness>) -> Result<i32, Error> { r.read_i32() }
pub fn root_c_me_i32_D(r: &mut Prc<Endianness>) -> Result<i32, Error> { r.read_i32() }
pub fn root_w_me_i32_D(v: &i32, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_i32(*v) }
pub fn root_r_pk_i32_L(r: &mut Pr<LE>) -> Result<i32, Error> { r.peek_i32() }
pub fn root_c_pk_i32_L(r: &mut Prc<LE>) -> Result<i32, Error> { r.peek_i32() }
pub fn root_r_pk_i32_B(r: &mut Pr<BE>) -> Result<i32, Error> { r.peek_i32() }
pub fn root_c_pk_i32_B(r: &mut Prc<BE>) -> Result<i32, Error> { r.peek_i32() }
pub fn root_r_pk_i32_D(r: &mut Pr<Endianness>) -> Result<i32, Error> { r.peek_i32() }
pub fn root_c_pk_i32_D(r: &mut Prc<Endianness>) -> Result<i32, Error> { r.peek_i32() }
pub fn root_r_me_f32_L(r: &mut Pr<LE>) -> Result<f32, Error> { r.read_f32() }
pub fn root_c_me_f32_L(r: &mut Prc<LE>) -> Result<f32, Error> { r.read_f32() }
pub fn root_w_me_f32_L(v: &f32, w: &mut Pw<LE>) -> Result<(), Error> { w.write_f32(*v) }
pub fn root_x_me_f32_L(v: &f32, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_f32(*v) }
pub fn root_r_me_f32_B(r: &mut Pr<BE>) -> Result<f32, Error> { r.read_f32() }
pub fn root_c_me_f32_B(r: &mut Prc<BE>) -> Result<f32, Error> { r.read_f32() }
pub fn root_w_me_f32_B(v: &f32, w: &mut Pw<BE>) -> Result<(), Error> { w.write_f32(*v) }
pub fn root_r_me_f32_D(r: &mut Pr<Endianness>) -> Result<f32, Error> { r.read_f32() }
pub fn root_c_me_f32_D(r: &mut Prc<Endianness>) -> Result<f32, Error> { r.read_f32() }
pub fn root_w_me_f32_D(v: &f32, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_f32(*v) }
pub fn root_r_pk_f32_L(r: &mut Pr<LE>) -> Result<f32, Error> { r.peek_f32() }
pub fn root_c_pk_f32_L(r: &mut Prc<LE>) -> Result<f32, Error> { r.peek_f32() }
pub fn root_r_pk_f32_B(r: &mut Pr<BE>) -> Result<f32, Error> { r.peek_f32() }
pub fn root_c_pk_f32_B(r: &mut Prc<BE>) -> Result<f32, Error> { r.peek_f32() }
pub fn root_r_pk_f32_D(r: &mut Pr<Endianness>) -> Result<f32, Error> { r.peek_f32() }
pub fn root_c_pk_f32_D(r: &mut Prc<Endianness>) -> Result<f32, Error> { r.peek_f32() }
pub fn root_r_me_u64_L(r: &mut Pr<LE>) -> Result<u64, Error> { r.read_u64() }
pub fn root_c_me_u64_L(r: &mut Prc<LE>) -> Result<u64, Error> { r.read_u64() }
pub fn root_w_me_u64_L(v: &u64, w: &mut Pw<LE>) -> Result<(), Error> { w.write_u64(*v) }
pub fn root_x_me_u64_L(v: &u64, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_u64(*v) }
pub fn root_r_me_u64_B(r: &mut Pr<BE>) -> Result<u64, Error> { r.read_u64() }
pub fn root_c_me_u64_B(r: &mut Prc<BE>) -> Result<u64, Error> { r.read_u64() }
pub fn root_w_me_u64_B(v: &u64, w: &mut Pw<BE>) -> Result<(), Error> { w.write_u64(*v) }
pub fn root_r_me_u64_D(r: &mut Pr<Endianness>) -> Result<u64, Error> { r.read_u64() }
pub fn root_c_me_u64_D(r: &mut Prc<Endianness>) -> Result<u64, Error> { r.read_u64() }
pub fn root_w_me_u64_D(v: &u64, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_u64(*v) }
pub fn root_r_pk_u64_L(r: &mut Pr<LE>) -> Result<u64, Error> { r.peek_u64() }
pub fn root_c_pk_u64_L(r: &mut Prc<LE>) -> Result<u64, Error> { r.peek_u64() }
pub fn root_r_pk_u64_B(r: &mut Pr<BE>) -> Result<u64, Error> { r.peek_u64() }
pub fn root_c_pk_u64_B(r: &mut Prc<BE>) -> Result<u64, Error> { r.peek_u64() }
pub fn root_r_pk_u64_D(r: &mut Pr<Endianness>) -> Result<u64, Error> { r.peek_u64() }
pub fn root_c_pk_u64_D(r: &mut Prc<Endianness>) -> Result<u64, Error> { r.peek_u64() }
pub fn root_r_me_i64_L(r: &mut Pr<LE>) -> Result<i64, Error> { r.read_i64() }
pub fn root_c_me_i64_L(r: &mut Prc<LE>) -> Result<i64, Error> { r.read_i64() }
pub fn root_w_me_i64_L(v: &i64, w: &mut Pw<LE>) -> Result<(), Error> { w.write_i64(*v) }
pub fn root_x_me_i64_L(v: &i64, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_i64(*v) }
pub fn root_r_me_i64_B(r: &mut Pr<BE>) -> Result<i64, Error> { r.read_i64() }
pub fn root_c_me_i64_B(r: &mut Prc<BE>) -> Result<i64, Error> { r.read_i64() }
pub fn root_w_me_i64_B(v: &i64, w: &mut Pw<BE>) -> Result<(), Error> { w.write_i64(*v) }
pub fn root_r_me_i64_D(r: &mut Pr<Endianness>) -> Result<i64, Error> { r.read_i64() }
pub fn root_c_me_i64_D(r: &mut Prc<Endianness>) -> Result<i64, Error> { r.read_i64() }
pub fn root_w_me_i64_D(v: &i64, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_i64(*v) }
pub fn root_r_pk_i64_L(r: &mut Pr<LE>) -> Result<i64, Error> { r.peek_i64() }
pub fn root_c_pk_i64_L(r: &mut Prc<LE>) -> Result<i64, Error> { r.peek_i64() }
pub fn root_r_pk_i64_B(r: &mut Pr<BE>) -> Result<i64, Error> { r.peek_i64() }
pub fn root_c_pk_i64_B(r: &mut Prc<BE>) -> Result<i64, Error> { r.peek_i64() }
pub fn root_r_pk_i64_D(r: &mut Pr<Endianness>) -> Result<i64, Error> { r.peek_i64() }
pub fn root_c_pk_i64_D(r: &mut Prc<Endianness>) -> Result<i64, Error> { r.peek_i64() }
pub fn root_r_me_f64_L(r: &mut Pr<LE>) -> Result<f64, Error> { r.read_f64() }
pub fn root_c_me_f64_L(r: &mut Prc<LE>) -> Result<f64, Error> { r.read_f64() }
pub fn root_w_me_f64_L(v: &f64, w: &mut Pw<LE>) -> Result<(), Error> { w.write_f64(*v) }
pub fn root_x_me_f64_L(v: &f64, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_f64(*v) }
pub fn root_r_me_f64_B(r: &mut Pr<BE>) -> Result<f64, Error> { r.read_f64() }
pub fn root_c_me_f64_B(r: &mut Prc<BE>) -> Result<f64, Error> { r.read_f64() }
pub fn root_w_me_f64_B(v: &f64, w: &mut Pw<BE>) -> Result<(), Error> { w.write_f64(*v) }
pub fn root_r_me_f64_D(r: &mut Pr<Endianness>) -> Result<f64, Error> { r.read_f64() }
pub fn root_c_me_f64_D(r: &mut Prc<Endianness>) -> Result<f64, Error> { r.read_f64() }
pub fn root_w_me_f64_D(v: &f64, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_f64(*v) }
pub fn root_r_pk_f64_L(r: &mut Pr<LE>) -> Result<f64, Error> { r.peek_f64() }
pub fn root_c_pk_f64_L(r: &mut Prc<LE>) -> Result<f64, Error> { r.peek_f64() }
pub fn root_r_pk_f64_B(r: &mut Pr<BE>) -> Result<f64, Error> { r.peek_f64() }
pub fn root_c_pk_f64_B(r: &mut Prc<BE>) -> Result<f64, Error> { r.peek_f64() }
pub fn root_r_pk_f64_D(r: &mut Pr<Endianness>) -> Result<f64, Error> { r.peek_f64() }
pub fn root_c_pk_f64_D(r: &mut Prc<Endianness>) -> Result<f64, Error> { r.peek_f64() }
pub fn root_r_me_u128_L(r: &mut Pr<LE>) -> Result<u128, Error> { r.read_u128() }
pub fn root_c_me_u128_L(r: &mut Prc<LE>) -> Result<u128, Error> { r.read_u128() }
pub fn root_w_me_u128_L(v: &u128, w: &mut Pw<LE>) -> Result<(), Error> { w.write_u128(*v) }
pub fn root_x_me_u128_L(v: &u128, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_u128(*v) }
pub fn root_r_me_u128_B(r: &mut Pr<BE>) -> Result<u128, Error> { r.read_u128() }
pub fn root_c_me_u128_B(r: &mut Prc<BE>) -> Result<u128, Error> { r.read_u128() }
pub fn root_w_me_u128_B(v: &u128, w: &mut Pw<BE>) -> Result<(), Error> { w.write_u128(*v) }
pub fn root_r_me_u128_D(r: &mut Pr<Endianness>) -> Result<u128, Error> { r.read_u128() }
pub fn root_c_me_u128_D(r: &mut Prc<Endianness>) -> Result<u128, Error> { r.read_u128() }
pub fn root_w_me_u128_D(v: &u128, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_u128(*v) }
pub fn root_r_pk_u128_L(r: &mut Pr<LE>) -> Result<u128, Error> { r.peek_u128() }
pub fn root_c_pk_u128_L(r: &mut Prc<LE>) -> Result<u128, Error> { r.peek_u128() }
pub fn root_r_pk_u128_B(r: &mut Pr<BE>) -> Result<u128, Error> { r.peek_u128() }
pub fn root_c_pk_u128_B(r: &mut Prc<BE>) -> Result<u128, Error> { r.peek_u128() }
pub fn root_r_pk_u128_D(r: &mut Pr<Endianness>) -> Result<u128, Error> { r.peek_u128() }
pub fn root_c_pk_u128_D(r: &mut Prc<Endianness>) -> Result<u128, Error> { r.peek_u128() }
pub fn root_r_me_i128_L(r: &mut Pr<LE>) -> Result<i128, Error> { r.read_i128() }
pub fn root_c_me_i128_L(r: &mut Prc<LE>) -> Result<i128, Error> { r.read_i128() }
pub fn root_w_me_i128_L(v: &i128, w: &mut Pw<LE>) -> Result<(), Error> { w.write_i128(*v) }
pub fn root_x_me_i128_L(v: &i128, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_i128(*v) }
pub fn root_r_me_i128_B(r: &mut Pr<BE>) -> Result<i128, Error> { r.read_i128() }
pub fn root_c_me_i128_B(r: &mut Prc<BE>) -> Result<i128, Error> { r.read_i128() }
pub fn root_w_me_i128_B(v: &i128, w: &mut Pw<BE>) -> Result<(), Error> { w.write_i128(*v) }
pub fn root_r_me_i128_D(r: &mut Pr<Endianness>) -> Result<i128, Error> { r.read_i128() }
pub fn root_c_me_i128_D(r: &mut Prc<Endianness>) -> Result<i128, Error> { r.read_i128() }
pub fn root_w_me_i128_D(v: &i128, w: &mut Pw<Endianness>) -> Result<(), Error> { w.write_i128(*v) }
pub fn root_r_pk_i128_L(r: &mut Pr<LE>) -> Result<i128, Error> { r.peek_i128() }
pub fn root_c_pk_i128_L(r: &mut Prc<LE>) -> Result<i128, Error> { r.peek_i128() }
pub fn root_r_pk_i128_B(r: &mut Pr<BE>) -> Result<i128, Error> { r.peek_i128() }
pub fn root_c_pk_i128_B(r: &mut Prc<BE>) -> Result<i128, Error> { r.peek_i128() }
pub fn root_r_pk_i128_D(r: &mut Pr<Endianness>) -> Result<i128, Error> { r.peek_i128() }
pub fn root_c_pk_i128_D(r: &mut Prc<Endianness>) -> Result<i128, Error> { r.peek_i128() }
pub fn root_r_vec_bool_L(r: &mut Pr<LE>) -> Result<Vec<bool>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_bool_L(r: &mut Prc<LE>) -> Result<Vec<bool>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_bool_L(v: &Vec<bool>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_bool_L(v: &Vec<bool>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_bool_B(r: &mut Pr<BE>) -> Result<Vec<bool>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_bool_B(r: &mut Prc<BE>) -> Result<Vec<bool>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_bool_B(v: &Vec<bool>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_bool(v: &Vec<bool>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_bool() -> usize { <Vec<bool> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_char_L(r: &mut Pr<LE>) -> Result<Vec<char>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_char_L(r: &mut Prc<LE>) -> Result<Vec<char>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_char_L(v: &Vec<char>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_char_L(v: &Vec<char>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_char_B(r: &mut Pr<BE>) -> Result<Vec<char>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_char_B(r: &mut Prc<BE>) -> Result<Vec<char>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_char_B(v: &Vec<char>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_char(v: &Vec<char>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_char() -> usize { <Vec<char> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_opt_L(r: &mut Pr<LE>) -> Result<Vec<Option<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_opt_L(r: &mut Prc<LE>) -> Result<Vec<Option<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_opt_L(v: &Vec<Option<El<1, 3>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_opt_L(v: &Vec<Option<El<1, 3>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_opt_B(r: &mut Pr<BE>) -> Result<Vec<Option<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_opt_B(r: &mut Prc<BE>) -> Result<Vec<Option<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_opt_B(v: &Vec<Option<El<1, 3>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_opt(v: &Vec<Option<El<1, 3>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_opt() -> usize { <Vec<Option<El<1, 3>>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_optu_L(r: &mut Pr<LE>) -> Result<Vec<Option<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_optu_L(r: &mut Prc<LE>) -> Result<Vec<Option<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_optu_L(v: &Vec<Option<u16>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_optu_L(v: &Vec<Option<u16>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_optu_B(r: &mut Pr<BE>) -> Result<Vec<Option<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_optu_B(r: &mut Prc<BE>) -> Result<Vec<Option<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_optu_B(v: &Vec<Option<u16>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_optu(v: &Vec<Option<u16>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_optu() -> usize { <Vec<Option<u16>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_res_L(r: &mut Pr<LE>) -> Result<Vec<Result<u16, El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_res_L(r: &mut Prc<LE>) -> Result<Vec<Result<u16, El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_res_L(v: &Vec<Result<u16, El<1, 3>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_res_L(v: &Vec<Result<u16, El<1, 3>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_res_B(r: &mut Pr<BE>) -> Result<Vec<Result<u16, El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_res_B(r: &mut Prc<BE>) -> Result<Vec<Result<u16, El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_res_B(v: &Vec<Result<u16, El<1, 3>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_res(v: &Vec<Result<u16, El<1, 3>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_res() -> usize { <Vec<Result<u16, El<1, 3>>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_vec_L(r: &mut Pr<LE>) -> Result<Vec<Vec<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_vec_L(r: &mut Prc<LE>) -> Result<Vec<Vec<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_vec_L(v: &Vec<Vec<El<1, 3>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_vec_L(v: &Vec<Vec<El<1, 3>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_vec_B(r: &mut Pr<BE>) -> Result<Vec<Vec<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_vec_B(r: &mut Prc<BE>) -> Result<Vec<Vec<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_vec_B(v: &Vec<Vec<El<1, 3>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_vec(v: &Vec<Vec<El<1, 3>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_vec() -> usize { <Vec<Vec<El<1, 3>>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_vecu_L(r: &mut Pr<LE>) -> Result<Vec<Vec<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_vecu_L(r: &mut Prc<LE>) -> Result<Vec<Vec<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_vecu_L(v: &Vec<Vec<u16>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_vecu_L(v: &Vec<Vec<u16>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_vecu_B(r: &mut Pr<BE>) -> Result<Vec<Vec<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_vecu_B(r: &mut Prc<BE>) -> Result<Vec<Vec<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_vecu_B(v: &Vec<Vec<u16>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_vecu(v: &Vec<Vec<u16>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_vecu() -> usize { <Vec<Vec<u16>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_string_L(r: &mut Pr<LE>) -> Result<Vec<String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_string_L(r: &mut Prc<LE>) -> Result<Vec<String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_string_L(v: &Vec<String>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_string_L(v: &Vec<String>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_string_B(r: &mut Pr<BE>) -> Result<Vec<String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_string_B(r: &mut Prc<BE>) -> Result<Vec<String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_string_B(v: &Vec<String>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_string(v: &Vec<String>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_string() -> usize { <Vec<String> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_box_L(r: &mut Pr<LE>) -> Result<Vec<Box<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_box_L(r: &mut Prc<LE>) -> Result<Vec<Box<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_box_L(v: &Vec<Box<El<1, 3>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_box_L(v: &Vec<Box<El<1, 3>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_box_B(r: &mut Pr<BE>) -> Result<Vec<Box<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_box_B(r: &mut Prc<BE>) -> Result<Vec<Box<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_box_B(v: &Vec<Box<El<1, 3>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_box(v: &Vec<Box<El<1, 3>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_box() -> usize { <Vec<Box<El<1, 3>>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_nz_L(r: &mut Pr<LE>) -> Result<Vec<std::num::NonZeroU16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_nz_L(r: &mut Prc<LE>) -> Result<Vec<std::num::NonZeroU16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_nz_L(v: &Vec<std::num::NonZeroU16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_nz_L(v: &Vec<std::num::NonZeroU16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_nz_B(r: &mut Pr<BE>) -> Result<Vec<std::num::NonZeroU16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_nz_B(r: &mut Prc<BE>) -> Result<Vec<std::num::NonZeroU16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_nz_B(v: &Vec<std::num::NonZeroU16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_nz(v: &Vec<std::num::NonZeroU16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_nz() -> usize { <Vec<std::num::NonZeroU16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_end_L(r: &mut Pr<LE>) -> Result<Vec<Endianness>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_end_L(r: &mut Prc<LE>) -> Result<Vec<Endianness>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_end_L(v: &Vec<Endianness>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_end_L(v: &Vec<Endianness>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_end_B(r: &mut Pr<BE>) -> Result<Vec<Endianness>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_end_B(r: &mut Prc<BE>) -> Result<Vec<Endianness>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_end_B(v: &Vec<Endianness>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_end(v: &Vec<Endianness>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_end() -> usize { <Vec<Endianness> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_vec_ip_L(r: &mut Pr<LE>) -> Result<Vec<std::net::Ipv4Addr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_vec_ip_L(r: &mut Prc<LE>) -> Result<Vec<std::net::Ipv4Addr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_vec_ip_L(v: &Vec<std::net::Ipv4Addr>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_vec_ip_L(v: &Vec<std::net::Ipv4Addr>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_vec_ip_B(r: &mut Pr<BE>) -> Result<Vec<std::net::Ipv4Addr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_vec_ip_B(r: &mut Prc<BE>) -> Result<Vec<std::net::Ipv4Addr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_vec_ip_B(v: &Vec<std::net::Ipv4Addr>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_vec_ip(v: &Vec<std::net::Ipv4Addr>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_vec_ip() -> usize { <Vec<std::net::Ipv4Addr> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hm_bool_L(r: &mut Pr<LE>) -> Result<HashMap<u8, bool>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hm_bool_L(r: &mut Prc<LE>) -> Result<HashMap<u8, bool>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hm_bool_L(v: &HashMap<u8, bool>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hm_bool_L(v: &HashMap<u8, bool>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hm_bool_B(r: &mut Pr<BE>) -> Result<HashMap<u8, bool>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hm_bool_B(r: &mut Prc<BE>) -> Result<HashMap<u8, bool>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hm_bool_B(v: &HashMap<u8, bool>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hm_bool(v: &HashMap<u8, bool>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hm_bool() -> usize { <HashMap<u8, bool> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_opt_L(r: &mut Pr<LE>) -> Result<BTreeMap<u16, Option<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_opt_L(r: &mut Prc<LE>) -> Result<BTreeMap<u16, Option<El<1, 3>>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_opt_L(v: &BTreeMap<u16, Option<El<1, 3>>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_opt_L(v: &BTreeMap<u16, Option<El<1, 3>>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_opt_B(r: &mut Pr<BE>) -> Result<BTreeMap<u16, Option<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_opt_B(r: &mut Prc<BE>) -> Result<BTreeMap<u16, Option<El<1, 3>>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_opt_B(v: &BTreeMap<u16, Option<El<1, 3>>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_opt(v: &BTreeMap<u16, Option<El<1, 3>>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_opt() -> usize { <BTreeMap<u16, Option<El<1, 3>>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bm_str_L(r: &mut Pr<LE>) -> Result<BTreeMap<u16, String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bm_str_L(r: &mut Prc<LE>) -> Result<BTreeMap<u16, String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bm_str_L(v: &BTreeMap<u16, String>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bm_str_L(v: &BTreeMap<u16, String>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bm_str_B(r: &mut Pr<BE>) -> Result<BTreeMap<u16, String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bm_str_B(r: &mut Prc<BE>) -> Result<BTreeMap<u16, String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bm_str_B(v: &BTreeMap<u16, String>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bm_str(v: &BTreeMap<u16, String>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bm_str() -> usize { <BTreeMap<u16, String> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_bs_opt_L(r: &mut Pr<LE>) -> Result<BTreeSet<Option<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_bs_opt_L(r: &mut Prc<LE>) -> Result<BTreeSet<Option<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_bs_opt_L(v: &BTreeSet<Option<u16>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_bs_opt_L(v: &BTreeSet<Option<u16>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_bs_opt_B(r: &mut Pr<BE>) -> Result<BTreeSet<Option<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_bs_opt_B(r: &mut Prc<BE>) -> Result<BTreeSet<Option<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_bs_opt_B(v: &BTreeSet<Option<u16>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_bs_opt(v: &BTreeSet<Option<u16>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_bs_opt() -> usize { <BTreeSet<Option<u16>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hs_bool_L(r: &mut Pr<LE>) -> Result<HashSet<bool>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hs_bool_L(r: &mut Prc<LE>) -> Result<HashSet<bool>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hs_bool_L(v: &HashSet<bool>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hs_bool_L(v: &HashSet<bool>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hs_bool_B(r: &mut Pr<BE>) -> Result<HashSet<bool>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hs_bool_B(r: &mut Prc<BE>) -> Result<HashSet<bool>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hs_bool_B(v: &HashSet<bool>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hs_bool(v: &HashSet<bool>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hs_bool() -> usize { <HashSet<bool> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_hs_str_L(r: &mut Pr<LE>) -> Result<HashSet<String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_hs_str_L(r: &mut Prc<LE>) -> Result<HashSet<String>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_hs_str_L(v: &HashSet<String>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_hs_str_L(v: &HashSet<String>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_hs_str_B(r: &mut Pr<BE>) -> Result<HashSet<String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_hs_str_B(r: &mut Prc<BE>) -> Result<HashSet<String>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_hs_str_B(v: &HashSet<String>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_hs_str(v: &HashSet<String>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_hs_str() -> usize { <HashSet<String> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr_big_u32_L(r: &mut Pr<LE>) -> Result<[u32; 300], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr_big_u32_L(r: &mut Prc<LE>) -> Result<[u32; 300], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr_big_u32_L(v: &[u32; 300], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr_big_u32_L(v: &[u32; 300], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_n_arr_big_u32(v: &[u32; 300]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr_big_u32() -> usize { <[u32; 300] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_w_arr_big_el_L(v: &[El<1, 3>; 50], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr_big_el_L(v: &[El<1, 3>; 50], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_w_arr_big_el_B(v: &[El<1, 3>; 50], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr_big_el(v: &[El<1, 3>; 50]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_r_arr_opt_L(r: &mut Pr<LE>) -> Result<[Option<u16>; 2], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr_opt_L(r: &mut Prc<LE>) -> Result<[Option<u16>; 2], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr_opt_L(v: &[Option<u16>; 2], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr_opt_L(v: &[Option<u16>; 2], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr_opt_B(r: &mut Pr<BE>) -> Result<[Option<u16>; 2], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr_opt_B(r: &mut Prc<BE>) -> Result<[Option<u16>; 2], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr_opt_B(v: &[Option<u16>; 2], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr_opt(v: &[Option<u16>; 2]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr_opt() -> usize { <[Option<u16>; 2] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_arr_bool_L(r: &mut Pr<LE>) -> Result<[bool; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_arr_bool_L(r: &mut Prc<LE>) -> Result<[bool; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_arr_bool_L(v: &[bool; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_arr_bool_L(v: &[bool; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_arr_bool_B(r: &mut Pr<BE>) -> Result<[bool; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_arr_bool_B(r: &mut Prc<BE>) -> Result<[bool; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_arr_bool_B(v: &[bool; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_arr_bool(v: &[bool; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_arr_bool() -> usize { <[bool; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_tup_vec_L(r: &mut Pr<LE>) -> Result<(Vec<u8>, El<1, 3>), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_tup_vec_L(r: &mut Prc<LE>) -> Result<(Vec<u8>, El<1, 3>), Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_tup_vec_L(v: &(Vec<u8>, El<1, 3>), w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_tup_vec_L(v: &(Vec<u8>, El<1, 3>), w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_tup_vec_B(r: &mut Pr<BE>) -> Result<(Vec<u8>, El<1, 3>), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_tup_vec_B(r: &mut Prc<BE>) -> Result<(Vec<u8>, El<1, 3>), Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_tup_vec_B(v: &(Vec<u8>, El<1, 3>), w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_tup_vec(v: &(Vec<u8>, El<1, 3>)) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_tup_vec() -> usize { <(Vec<u8>, El<1, 3>) as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_box_vec_L(r: &mut Pr<LE>) -> Result<Box<Vec<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_box_vec_L(r: &mut Prc<LE>) -> Result<Box<Vec<u16>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_box_vec_L(v: &Box<Vec<u16>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_box_vec_L(v: &Box<Vec<u16>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_box_vec_B(r: &mut Pr<BE>) -> Result<Box<Vec<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_box_vec_B(r: &mut Prc<BE>) -> Result<Box<Vec<u16>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_box_vec_B(v: &Box<Vec<u16>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_box_vec(v: &Box<Vec<u16>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_box_vec() -> usize { <Box<Vec<u16>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_cow_optu_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Option<u16>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_cow_optu_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Option<u16>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_cow_optu_L<'a>(v: &Cow<'a, [Option<u16>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_cow_optu_L<'a>(v: &Cow<'a, [Option<u16>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_cow_optu_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Option<u16>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_cow_optu_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Option<u16>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_cow_optu_B<'a>(v: &Cow<'a, [Option<u16>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_cow_optu<'a>(v: &Cow<'a, [Option<u16>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_cow_optu<'a>() -> usize { <Cow<'a, [Option<u16>]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_str_L<'a>(r: &mut Pr<LE>) -> Result<&'a str, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_str_L<'a>(r: &mut Prc<LE>) -> Result<&'a str, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_str_B<'a>(r: &mut Pr<BE>) -> Result<&'a str, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_str_B<'a>(r: &mut Prc<BE>) -> Result<&'a str, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_r_rd_str_D<'a>(r: &mut Pr<Endianness>) -> Result<&'a str, Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_c_rd_str_D<'a>(r: &mut Prc<Endianness>) -> Result<&'a str, Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_m_rd_str<'a>() -> usize { <&'a str as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_u8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u8], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_u8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u8], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_sl_u8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [u8], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_sl_u8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [u8], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_r_rd_sl_u8_D<'a>(r: &mut Pr<Endianness>) -> Result<&'a [u8], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_c_rd_sl_u8_D<'a>(r: &mut Prc<Endianness>) -> Result<&'a [u8], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_m_rd_sl_u8<'a>() -> usize { <&'a [u8] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_u8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u8; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_u8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u8; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_ar0_u8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [u8; 0], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_ar0_u8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [u8; 0], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_r_rd_ar0_u8_D<'a>(r: &mut Pr<Endianness>) -> Result<&'a [u8; 0], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_c_rd_ar0_u8_D<'a>(r: &mut Prc<Endianness>) -> Result<&'a [u8; 0], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_m_rd_ar0_u8<'a>() -> usize { <&'a [u8; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_u8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u8; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_u8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u8; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_ar1_u8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [u8; 1], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_ar1_u8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [u8; 1], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_r_rd_ar1_u8_D<'a>(r: &mut Pr<Endianness>) -> Result<&'a [u8; 1], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_c_rd_ar1_u8_D<'a>(r: &mut Prc<Endianness>) -> Result<&'a [u8; 1], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_m_rd_ar1_u8<'a>() -> usize { <&'a [u8; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_u8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u8; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_u8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u8; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_ar3_u8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [u8; 3], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_ar3_u8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [u8; 3], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_r_rd_ar3_u8_D<'a>(r: &mut Pr<Endianness>) -> Result<&'a [u8; 3], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_c_rd_ar3_u8_D<'a>(r: &mut Prc<Endianness>) -> Result<&'a [u8; 3], Error> { Readable::<'a, Endianness>::read_from(r) }
pub fn root_m_rd_ar3_u8<'a>() -> usize { <&'a [u8; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_i8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i8], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_i8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i8], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_sl_i8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [i8], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_sl_i8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [i8], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_m_rd_sl_i8<'a>() -> usize { <&'a [i8] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_i8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i8; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_i8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i8; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_ar0_i8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [i8; 0], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_ar0_i8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [i8; 0], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_m_rd_ar0_i8<'a>() -> usize { <&'a [i8; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_i8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i8; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_i8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i8; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_ar1_i8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [i8; 1], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_ar1_i8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [i8; 1], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_m_rd_ar1_i8<'a>() -> usize { <&'a [i8; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_i8_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i8; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_i8_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i8; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_ar3_i8_B<'a>(r: &mut Pr<BE>) -> Result<&'a [i8; 3], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_ar3_i8_B<'a>(r: &mut Prc<BE>) -> Result<&'a [i8; 3], Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_m_rd_ar3_i8<'a>() -> usize { <&'a [i8; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_u16_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u16], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_u16_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u16], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_sl_u16<'a>() -> usize { <&'a [u16] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_u16_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u16; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_u16_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u16; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar0_u16<'a>() -> usize { <&'a [u16; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_u16_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u16; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_u16_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u16; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar1_u16<'a>() -> usize { <&'a [u16; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_u16_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u16; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_u16_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u16; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar3_u16<'a>() -> usize { <&'a [u16; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_i32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i32], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_i32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i32], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_sl_i32<'a>() -> usize { <&'a [i32] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_i32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i32; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_i32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i32; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar0_i32<'a>() -> usize { <&'a [i32; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_i32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i32; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_i32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i32; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar1_i32<'a>() -> usize { <&'a [i32; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_i32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [i32; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_i32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [i32; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar3_i32<'a>() -> usize { <&'a [i32; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_f32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f32], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_f32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f32], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_sl_f32<'a>() -> usize { <&'a [f32] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_f32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f32; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_f32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f32; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar0_f32<'a>() -> usize { <&'a [f32; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_f32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f32; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_f32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f32; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar1_f32<'a>() -> usize { <&'a [f32; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_f32_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f32; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_f32_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f32; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar3_f32<'a>() -> usize { <&'a [f32; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_u64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u64], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_u64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u64], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_sl_u64<'a>() -> usize { <&'a [u64] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_u64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u64; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_u64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u64; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar0_u64<'a>() -> usize { <&'a [u64; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_u64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u64; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_u64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u64; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar1_u64<'a>() -> usize { <&'a [u64; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_u64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u64; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_u64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u64; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar3_u64<'a>() -> usize { <&'a [u64; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_f64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f64], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_f64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f64], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_sl_f64<'a>() -> usize { <&'a [f64] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_f64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f64; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_f64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f64; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar0_f64<'a>() -> usize { <&'a [f64; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_f64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f64; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_f64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f64; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar1_f64<'a>() -> usize { <&'a [f64; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_f64_L<'a>(r: &mut Pr<LE>) -> Result<&'a [f64; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_f64_L<'a>(r: &mut Prc<LE>) -> Result<&'a [f64; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar3_f64<'a>() -> usize { <&'a [f64; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_sl_u128_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u128], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_sl_u128_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u128], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_sl_u128<'a>() -> usize { <&'a [u128] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar0_u128_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u128; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar0_u128_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u128; 0], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar0_u128<'a>() -> usize { <&'a [u128; 0] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar1_u128_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u128; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar1_u128_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u128; 1], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar1_u128<'a>() -> usize { <&'a [u128; 1] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_ar3_u128_L<'a>(r: &mut Pr<LE>) -> Result<&'a [u128; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_ar3_u128_L<'a>(r: &mut Prc<LE>) -> Result<&'a [u128; 3], Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_ar3_u128<'a>() -> usize { <&'a [u128; 3] as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_opt_L<'a>(r: &mut Pr<LE>) -> Result<Option<&'a str>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_opt_L<'a>(r: &mut Prc<LE>) -> Result<Option<&'a str>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_r_rd_opt_B<'a>(r: &mut Pr<BE>) -> Result<Option<&'a str>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_rd_opt_B<'a>(r: &mut Prc<BE>) -> Result<Option<&'a str>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_m_rd_opt<'a>() -> usize { <Option<&'a str> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_rd_tup_L<'a>(r: &mut Pr<LE>) -> Result<(u8, &'a [u16]), Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_rd_tup_L<'a>(r: &mut Prc<LE>) -> Result<(u8, &'a [u16]), Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_m_rd_tup<'a>() -> usize { <(u8, &'a [u16]) as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_sw_ints_D(r: &mut Pr<Endianness>) -> Result<(u16, u32, u64, i16,), Error> { { let x0: u16 = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x1: u32 = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x2: u64 = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x3: i16 = r.read_value()?;  Ok((x0, x1, x2, x3,)) } }
pub fn root_c_sw_ints_D(r: &mut Prc<Endianness>) -> Result<(u16, u32, u64, i16,), Error> { { let x0: u16 = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x1: u32 = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x2: u64 = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x3: i16 = r.read_value()?;  Ok((x0, x1, x2, x3,)) } }
pub fn root_w_sw_ints_D(v: &(u16, u32, u64, i16,), w: &mut Pw<Endianness>) -> Result<(), Error> { { w.write_value(&v.0)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.1)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.2)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.3)?;  Ok(()) } }
pub fn root_x_sw_ints_D(v: &(u16, u32, u64, i16,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { w.write_value(&v.0)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.1)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.2)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.3)?;  Ok(()) } }
pub fn root_r_sw_back_D(r: &mut Pr<Endianness>) -> Result<(f32, f64, u128,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: f32 = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: f64 = r.read_value()?; let x2: u128 = r.read_value()?;  Ok((x0, x1, x2,)) } }
pub fn root_c_sw_back_D(r: &mut Prc<Endianness>) -> Result<(f32, f64, u128,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: f32 = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: f64 = r.read_value()?; let x2: u128 = r.read_value()?;  Ok((x0, x1, x2,)) } }
pub fn root_w_sw_back_D(v: &(f32, f64, u128,), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?; w.write_value(&v.2)?;  Ok(()) } }
pub fn root_x_sw_back_D(v: &(f32, f64, u128,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?; w.write_value(&v.2)?;  Ok(()) } }
pub fn root_r_sw_vec_D(r: &mut Pr<Endianness>) -> Result<(Vec<u16>, Vec<u32>,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: Vec<u16> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: Vec<u32> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_c_sw_vec_D(r: &mut Prc<Endianness>) -> Result<(Vec<u16>, Vec<u32>,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: Vec<u16> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: Vec<u32> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_w_sw_vec_D(v: &(Vec<u16>, Vec<u32>,), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_x_sw_vec_D(v: &(Vec<u16>, Vec<u32>,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_r_sw_vecf_D(r: &mut Pr<Endianness>) -> Result<(Vec<f64>, Vec<u8>, char,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: Vec<f64> = r.read_value()?; let x1: Vec<u8> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x2: char = r.read_value()?;  Ok((x0, x1, x2,)) } }
pub fn root_c_sw_vecf_D(r: &mut Prc<Endianness>) -> Result<(Vec<f64>, Vec<u8>, char,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: Vec<f64> = r.read_value()?; let x1: Vec<u8> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x2: char = r.read_value()?;  Ok((x0, x1, x2,)) } }
pub fn root_w_sw_vecf_D(v: &(Vec<f64>, Vec<u8>, char,), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; w.write_value(&v.1)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.2)?;  Ok(()) } }
pub fn root_x_sw_vecf_D(v: &(Vec<f64>, Vec<u8>, char,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; w.write_value(&v.1)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.2)?;  Ok(()) } }
pub fn root_r_sw_map_D(r: &mut Pr<Endianness>) -> Result<(BTreeMap<u16, u32>, BTreeSet<u32>,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: BTreeMap<u16, u32> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: BTreeSet<u32> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_c_sw_map_D(r: &mut Prc<Endianness>) -> Result<(BTreeMap<u16, u32>, BTreeSet<u32>,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: BTreeMap<u16, u32> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: BTreeSet<u32> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_w_sw_map_D(v: &(BTreeMap<u16, u32>, BTreeSet<u32>,), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_x_sw_map_D(v: &(BTreeMap<u16, u32>, BTreeSet<u32>,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_r_sw_mapl_D(r: &mut Pr<Endianness>) -> Result<(HashMap<u64, u8>, HashSet<u16>,), Error> { { *r.context_mut() = Endianness::LittleEndian; let x0: HashMap<u64, u8> = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x1: HashSet<u16> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_c_sw_mapl_D(r: &mut Prc<Endianness>) -> Result<(HashMap<u64, u8>, HashSet<u16>,), Error> { { *r.context_mut() = Endianness::LittleEndian; let x0: HashMap<u64, u8> = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x1: HashSet<u16> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_w_sw_mapl_D(v: &(HashMap<u64, u8>, HashSet<u16>,), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_x_sw_mapl_D(v: &(HashMap<u64, u8>, HashSet<u16>,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_r_sw_arr_D(r: &mut Pr<Endianness>) -> Result<([u16; 3], [u32; 2],), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: [u16; 3] = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: [u32; 2] = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_c_sw_arr_D(r: &mut Prc<Endianness>) -> Result<([u16; 3], [u32; 2],), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: [u16; 3] = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: [u32; 2] = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_w_sw_arr_D(v: &([u16; 3], [u32; 2],), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_x_sw_arr_D(v: &([u16; 3], [u32; 2],), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_r_sw_mix_D(r: &mut Pr<Endianness>) -> Result<(String, Option<u16>, std::time::Duration,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: String = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: Option<u16> = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x2: std::time::Duration = r.read_value()?;  Ok((x0, x1, x2,)) } }
pub fn root_c_sw_mix_D(r: &mut Prc<Endianness>) -> Result<(String, Option<u16>, std::time::Duration,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: String = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: Option<u16> = r.read_value()?; *r.context_mut() = Endianness::BigEndian; let x2: std::time::Duration = r.read_value()?;  Ok((x0, x1, x2,)) } }
pub fn root_w_sw_mix_D(v: &(String, Option<u16>, std::time::Duration,), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.2)?;  Ok(()) } }
pub fn root_x_sw_mix_D(v: &(String, Option<u16>, std::time::Duration,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?; *w.context_mut() = Endianness::BigEndian; w.write_value(&v.2)?;  Ok(()) } }
pub fn root_r_sw_cow_D<'a>(r: &mut Pr<Endianness>) -> Result<(Cow<'a, [u16]>, Cow<'a, [u32]>,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: Cow<'a, [u16]> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: Cow<'a, [u32]> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_c_sw_cow_D<'a>(r: &mut Prc<Endianness>) -> Result<(Cow<'a, [u16]>, Cow<'a, [u32]>,), Error> { { *r.context_mut() = Endianness::BigEndian; let x0: Cow<'a, [u16]> = r.read_value()?; *r.context_mut() = Endianness::LittleEndian; let x1: Cow<'a, [u32]> = r.read_value()?;  Ok((x0, x1,)) } }
pub fn root_w_sw_cow_D<'a>(v: &(Cow<'a, [u16]>, Cow<'a, [u32]>,), w: &mut Pw<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_x_sw_cow_D<'a>(v: &(Cow<'a, [u16]>, Cow<'a, [u32]>,), w: &mut Pwc<Endianness>) -> Result<(), Error> { { *w.context_mut() = Endianness::BigEndian; w.write_value(&v.0)?; *w.context_mut() = Endianness::LittleEndian; w.write_value(&v.1)?;  Ok(()) } }
pub fn root_r_hp_vec_u8_L(r: &mut Pr<LE>) -> Result<Vec<u8>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_u8_L(r: &mut Prc<LE>) -> Result<Vec<u8>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_u8_L(v: &Vec<u8>, w: &mut Pw<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_x_hp_vec_u8_L(v: &Vec<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_vec_u8_B(r: &mut Pr<BE>) -> Result<Vec<u8>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_u8_B(r: &mut Prc<BE>) -> Result<Vec<u8>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_u8_B(v: &Vec<u8>, w: &mut Pw<BE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_cow_u8_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u8]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_u8_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u8]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_cow_u8_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u8]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_u8_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u8]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_eof_u8_L(r: &mut Pr<LE>) -> Result<Vec<u8>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_u8_L(r: &mut Prc<LE>) -> Result<Vec<u8>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_u8_L(v: &Vec<u8>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_x_hp_eof_u8_L(v: &Vec<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_eof_u8_B(r: &mut Pr<BE>) -> Result<Vec<u8>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_u8_B(r: &mut Prc<BE>) -> Result<Vec<u8>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_u8_B(v: &Vec<u8>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_ceof_u8_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u8]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_u8_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u8]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_ceof_u8_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u8]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_u8_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u8]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_vec_u16_L(r: &mut Pr<LE>) -> Result<Vec<u16>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_u16_L(r: &mut Prc<LE>) -> Result<Vec<u16>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_u16_L(v: &Vec<u16>, w: &mut Pw<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_x_hp_vec_u16_L(v: &Vec<u16>, w: &mut Pwc<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_vec_u16_B(r: &mut Pr<BE>) -> Result<Vec<u16>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_u16_B(r: &mut Prc<BE>) -> Result<Vec<u16>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_u16_B(v: &Vec<u16>, w: &mut Pw<BE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_cow_u16_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u16]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_u16_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u16]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_cow_u16_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u16]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_u16_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u16]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_eof_u16_L(r: &mut Pr<LE>) -> Result<Vec<u16>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_u16_L(r: &mut Prc<LE>) -> Result<Vec<u16>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_u16_L(v: &Vec<u16>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_x_hp_eof_u16_L(v: &Vec<u16>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_eof_u16_B(r: &mut Pr<BE>) -> Result<Vec<u16>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_u16_B(r: &mut Prc<BE>) -> Result<Vec<u16>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_u16_B(v: &Vec<u16>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_ceof_u16_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u16]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_u16_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u16]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_ceof_u16_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u16]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_u16_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u16]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_vec_f32_L(r: &mut Pr<LE>) -> Result<Vec<f32>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_f32_L(r: &mut Prc<LE>) -> Result<Vec<f32>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_f32_L(v: &Vec<f32>, w: &mut Pw<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_x_hp_vec_f32_L(v: &Vec<f32>, w: &mut Pwc<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_vec_f32_B(r: &mut Pr<BE>) -> Result<Vec<f32>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_f32_B(r: &mut Prc<BE>) -> Result<Vec<f32>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_f32_B(v: &Vec<f32>, w: &mut Pw<BE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_cow_f32_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [f32]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_f32_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [f32]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_cow_f32_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [f32]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_f32_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [f32]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_eof_f32_L(r: &mut Pr<LE>) -> Result<Vec<f32>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_f32_L(r: &mut Prc<LE>) -> Result<Vec<f32>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_f32_L(v: &Vec<f32>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_x_hp_eof_f32_L(v: &Vec<f32>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_eof_f32_B(r: &mut Pr<BE>) -> Result<Vec<f32>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_f32_B(r: &mut Prc<BE>) -> Result<Vec<f32>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_f32_B(v: &Vec<f32>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_ceof_f32_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [f32]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_f32_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [f32]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_ceof_f32_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [f32]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_f32_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [f32]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_vec_u64_L(r: &mut Pr<LE>) -> Result<Vec<u64>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_u64_L(r: &mut Prc<LE>) -> Result<Vec<u64>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_u64_L(v: &Vec<u64>, w: &mut Pw<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_x_hp_vec_u64_L(v: &Vec<u64>, w: &mut Pwc<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_vec_u64_B(r: &mut Pr<BE>) -> Result<Vec<u64>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_u64_B(r: &mut Prc<BE>) -> Result<Vec<u64>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_u64_B(v: &Vec<u64>, w: &mut Pw<BE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_cow_u64_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u64]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_u64_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u64]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_cow_u64_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u64]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_u64_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u64]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_eof_u64_L(r: &mut Pr<LE>) -> Result<Vec<u64>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_u64_L(r: &mut Prc<LE>) -> Result<Vec<u64>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_u64_L(v: &Vec<u64>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_x_hp_eof_u64_L(v: &Vec<u64>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_eof_u64_B(r: &mut Pr<BE>) -> Result<Vec<u64>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_u64_B(r: &mut Prc<BE>) -> Result<Vec<u64>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_u64_B(v: &Vec<u64>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_ceof_u64_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [u64]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_u64_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [u64]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_ceof_u64_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [u64]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_u64_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [u64]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_vec_el_L(r: &mut Pr<LE>) -> Result<Vec<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_el_L(r: &mut Prc<LE>) -> Result<Vec<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_el_L(v: &Vec<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_x_hp_vec_el_L(v: &Vec<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_vec_el_B(r: &mut Pr<BE>) -> Result<Vec<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_el_B(r: &mut Prc<BE>) -> Result<Vec<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_el_B(v: &Vec<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_cow_el_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_el_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_cow_el_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_el_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_eof_el_L(r: &mut Pr<LE>) -> Result<Vec<El<1, 3>>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_el_L(r: &mut Prc<LE>) -> Result<Vec<El<1, 3>>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_el_L(v: &Vec<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_x_hp_eof_el_L(v: &Vec<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_eof_el_B(r: &mut Pr<BE>) -> Result<Vec<El<1, 3>>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_el_B(r: &mut Prc<BE>) -> Result<Vec<El<1, 3>>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_el_B(v: &Vec<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_ceof_el_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_el_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_ceof_el_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_el_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [El<1, 3>]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_vec_tup_L(r: &mut Pr<LE>) -> Result<Vec<(u16, u8)>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_tup_L(r: &mut Prc<LE>) -> Result<Vec<(u16, u8)>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_tup_L(v: &Vec<(u16, u8)>, w: &mut Pw<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_x_hp_vec_tup_L(v: &Vec<(u16, u8)>, w: &mut Pwc<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_vec_tup_B(r: &mut Pr<BE>) -> Result<Vec<(u16, u8)>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_tup_B(r: &mut Prc<BE>) -> Result<Vec<(u16, u8)>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_tup_B(v: &Vec<(u16, u8)>, w: &mut Pw<BE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_cow_tup_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_tup_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_cow_tup_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_tup_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_eof_tup_L(r: &mut Pr<LE>) -> Result<Vec<(u16, u8)>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_tup_L(r: &mut Prc<LE>) -> Result<Vec<(u16, u8)>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_tup_L(v: &Vec<(u16, u8)>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_x_hp_eof_tup_L(v: &Vec<(u16, u8)>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_eof_tup_B(r: &mut Pr<BE>) -> Result<Vec<(u16, u8)>, Error> { r.read_vec_until_eof() }
pub fn root_c_hp_eof_tup_B(r: &mut Prc<BE>) -> Result<Vec<(u16, u8)>, Error> { r.read_vec_until_eof() }
pub fn root_w_hp_eof_tup_B(v: &Vec<(u16, u8)>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_slice(v) }
pub fn root_r_hp_ceof_tup_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_tup_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_ceof_tup_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { r.read_cow_until_eof() }
pub fn root_c_hp_ceof_tup_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [(u16, u8)]>, Error> { r.read_cow_until_eof() }
pub fn root_r_hp_vec_unit_L(r: &mut Pr<LE>) -> Result<Vec<()>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_unit_L(r: &mut Prc<LE>) -> Result<Vec<()>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_unit_L(v: &Vec<()>, w: &mut Pw<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_x_hp_vec_unit_L(v: &Vec<()>, w: &mut Pwc<LE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_vec_unit_B(r: &mut Pr<BE>) -> Result<Vec<()>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_c_hp_vec_unit_B(r: &mut Prc<BE>) -> Result<Vec<()>, Error> { { let n = r.read_u16()?; r.read_vec(n as usize) } }
pub fn root_w_hp_vec_unit_B(v: &Vec<()>, w: &mut Pw<BE>) -> Result<(), Error> { { if v.len() > 65535 { return Err(speedy::private::error_out_of_range_length()); } w.write_u16(v.len() as u16)?; w.write_slice(v) } }
pub fn root_r_hp_cow_unit_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [()]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_unit_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [()]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_cow_unit_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [()]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_c_hp_cow_unit_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [()]>, Error> { { let n = r.read_u8()?; r.read_cow(n as usize) } }
pub fn root_r_hp_coll_el_L(r: &mut Pr<LE>) -> Result<HashSet<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_el_L(r: &mut Prc<LE>) -> Result<HashSet<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_coll_el_B(r: &mut Pr<BE>) -> Result<HashSet<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_el_B(r: &mut Prc<BE>) -> Result<HashSet<El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_colle_el_L(r: &mut Pr<LE>) -> Result<HashSet<El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_colle_el_L(r: &mut Prc<LE>) -> Result<HashSet<El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_colle_el_L(v: &HashSet<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_colle_el_L(v: &HashSet<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_colle_el_B(r: &mut Pr<BE>) -> Result<HashSet<El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_colle_el_B(r: &mut Prc<BE>) -> Result<HashSet<El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_colle_el_B(v: &HashSet<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_coll_u16_L(r: &mut Pr<LE>) -> Result<HashSet<u16>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_u16_L(r: &mut Prc<LE>) -> Result<HashSet<u16>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_coll_u16_B(r: &mut Pr<BE>) -> Result<HashSet<u16>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_u16_B(r: &mut Prc<BE>) -> Result<HashSet<u16>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_colle_u16_L(r: &mut Pr<LE>) -> Result<HashSet<u16>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_colle_u16_L(r: &mut Prc<LE>) -> Result<HashSet<u16>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_colle_u16_L(v: &HashSet<u16>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_colle_u16_L(v: &HashSet<u16>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_colle_u16_B(r: &mut Pr<BE>) -> Result<HashSet<u16>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_colle_u16_B(r: &mut Prc<BE>) -> Result<HashSet<u16>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_colle_u16_B(v: &HashSet<u16>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_coll_u8_L(r: &mut Pr<LE>) -> Result<BTreeSet<u8>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_u8_L(r: &mut Prc<LE>) -> Result<BTreeSet<u8>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_coll_u8_B(r: &mut Pr<BE>) -> Result<BTreeSet<u8>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_u8_B(r: &mut Prc<BE>) -> Result<BTreeSet<u8>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_colle_u8_L(r: &mut Pr<LE>) -> Result<BTreeSet<u8>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_colle_u8_L(r: &mut Prc<LE>) -> Result<BTreeSet<u8>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_colle_u8_L(v: &BTreeSet<u8>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_colle_u8_L(v: &BTreeSet<u8>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_colle_u8_B(r: &mut Pr<BE>) -> Result<BTreeSet<u8>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_colle_u8_B(r: &mut Prc<BE>) -> Result<BTreeSet<u8>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_colle_u8_B(v: &BTreeSet<u8>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_coll_str_L(r: &mut Pr<LE>) -> Result<BTreeSet<String>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_str_L(r: &mut Prc<LE>) -> Result<BTreeSet<String>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_coll_str_B(r: &mut Pr<BE>) -> Result<BTreeSet<String>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_c_hp_coll_str_B(r: &mut Prc<BE>) -> Result<BTreeSet<String>, Error> { { let n = r.read_u16()?; r.read_collection(n as usize) } }
pub fn root_r_hp_kv_el_L(r: &mut Pr<LE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_el_L(r: &mut Prc<LE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kv_el_B(r: &mut Pr<BE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_el_B(r: &mut Prc<BE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kve_el_L(r: &mut Pr<LE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_el_L(r: &mut Prc<LE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_el_L(v: &HashMap<El<1, 3>, El<2, 5>>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_kve_el_L(v: &HashMap<El<1, 3>, El<2, 5>>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kve_el_B(r: &mut Pr<BE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_el_B(r: &mut Prc<BE>) -> Result<HashMap<El<1, 3>, El<2, 5>>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_el_B(v: &HashMap<El<1, 3>, El<2, 5>>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kv_u8u16_L(r: &mut Pr<LE>) -> Result<HashMap<u8, u16>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u8u16_L(r: &mut Prc<LE>) -> Result<HashMap<u8, u16>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kv_u8u16_B(r: &mut Pr<BE>) -> Result<HashMap<u8, u16>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u8u16_B(r: &mut Prc<BE>) -> Result<HashMap<u8, u16>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kve_u8u16_L(r: &mut Pr<LE>) -> Result<HashMap<u8, u16>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u8u16_L(r: &mut Prc<LE>) -> Result<HashMap<u8, u16>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u8u16_L(v: &HashMap<u8, u16>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_kve_u8u16_L(v: &HashMap<u8, u16>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kve_u8u16_B(r: &mut Pr<BE>) -> Result<HashMap<u8, u16>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u8u16_B(r: &mut Prc<BE>) -> Result<HashMap<u8, u16>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u8u16_B(v: &HashMap<u8, u16>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kv_u64u8_L(r: &mut Pr<LE>) -> Result<HashMap<u64, u8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u64u8_L(r: &mut Prc<LE>) -> Result<HashMap<u64, u8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kv_u64u8_B(r: &mut Pr<BE>) -> Result<HashMap<u64, u8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u64u8_B(r: &mut Prc<BE>) -> Result<HashMap<u64, u8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kve_u64u8_L(r: &mut Pr<LE>) -> Result<HashMap<u64, u8>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u64u8_L(r: &mut Prc<LE>) -> Result<HashMap<u64, u8>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u64u8_L(v: &HashMap<u64, u8>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_kve_u64u8_L(v: &HashMap<u64, u8>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kve_u64u8_B(r: &mut Pr<BE>) -> Result<HashMap<u64, u8>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u64u8_B(r: &mut Prc<BE>) -> Result<HashMap<u64, u8>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u64u8_B(v: &HashMap<u64, u8>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kv_u16_L(r: &mut Pr<LE>) -> Result<HashMap<u16, u32>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u16_L(r: &mut Prc<LE>) -> Result<HashMap<u16, u32>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kv_u16_B(r: &mut Pr<BE>) -> Result<HashMap<u16, u32>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u16_B(r: &mut Prc<BE>) -> Result<HashMap<u16, u32>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kve_u16_L(r: &mut Pr<LE>) -> Result<HashMap<u16, u32>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u16_L(r: &mut Prc<LE>) -> Result<HashMap<u16, u32>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u16_L(v: &HashMap<u16, u32>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_kve_u16_L(v: &HashMap<u16, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kve_u16_B(r: &mut Pr<BE>) -> Result<HashMap<u16, u32>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u16_B(r: &mut Prc<BE>) -> Result<HashMap<u16, u32>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u16_B(v: &HashMap<u16, u32>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kv_u8_L(r: &mut Pr<LE>) -> Result<HashMap<u8, i8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u8_L(r: &mut Prc<LE>) -> Result<HashMap<u8, i8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kv_u8_B(r: &mut Pr<BE>) -> Result<HashMap<u8, i8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_u8_B(r: &mut Prc<BE>) -> Result<HashMap<u8, i8>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kve_u8_L(r: &mut Pr<LE>) -> Result<HashMap<u8, i8>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u8_L(r: &mut Prc<LE>) -> Result<HashMap<u8, i8>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u8_L(v: &HashMap<u8, i8>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_kve_u8_L(v: &HashMap<u8, i8>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kve_u8_B(r: &mut Pr<BE>) -> Result<HashMap<u8, i8>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_u8_B(r: &mut Prc<BE>) -> Result<HashMap<u8, i8>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_u8_B(v: &HashMap<u8, i8>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kv_mix_L(r: &mut Pr<LE>) -> Result<HashMap<u8, El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_mix_L(r: &mut Prc<LE>) -> Result<HashMap<u8, El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kv_mix_B(r: &mut Pr<BE>) -> Result<HashMap<u8, El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_c_hp_kv_mix_B(r: &mut Prc<BE>) -> Result<HashMap<u8, El<1, 3>>, Error> { { let n = r.read_u16()?; r.read_key_value_collection(n as usize) } }
pub fn root_r_hp_kve_mix_L(r: &mut Pr<LE>) -> Result<HashMap<u8, El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_mix_L(r: &mut Prc<LE>) -> Result<HashMap<u8, El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_mix_L(v: &HashMap<u8, El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_x_hp_kve_mix_L(v: &HashMap<u8, El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_kve_mix_B(r: &mut Pr<BE>) -> Result<HashMap<u8, El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_c_hp_kve_mix_B(r: &mut Prc<BE>) -> Result<HashMap<u8, El<1, 3>>, Error> { r.read_collection_until_eof() }
pub fn root_w_hp_kve_mix_B(v: &HashMap<u8, El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { w.write_collection(v.iter()) }
pub fn root_r_hp_str_L(r: &mut Pr<LE>) -> Result<String, Error> { { let n = r.read_u8()?; r.read_string(n as usize) } }
pub fn root_c_hp_str_L(r: &mut Prc<LE>) -> Result<String, Error> { { let n = r.read_u8()?; r.read_string(n as usize) } }
pub fn root_r_hp_str_B(r: &mut Pr<BE>) -> Result<String, Error> { { let n = r.read_u8()?; r.read_string(n as usize) } }
pub fn root_c_hp_str_B(r: &mut Prc<BE>) -> Result<String, Error> { { let n = r.read_u8()?; r.read_string(n as usize) } }
pub fn root_r_hp_val_L(r: &mut Pr<LE>) -> Result<(u16, Option<El<1, 3>>), Error> { r.read_value() }
pub fn root_c_hp_val_L(r: &mut Prc<LE>) -> Result<(u16, Option<El<1, 3>>), Error> { r.read_value() }
pub fn root_w_hp_val_L(v: &(u16, Option<El<1, 3>>), w: &mut Pw<LE>) -> Result<(), Error> { w.write_value(v) }
pub fn root_x_hp_val_L(v: &(u16, Option<El<1, 3>>), w: &mut Pwc<LE>) -> Result<(), Error> { w.write_value(v) }
pub fn root_r_hp_val_B(r: &mut Pr<BE>) -> Result<(u16, Option<El<1, 3>>), Error> { r.read_value() }
pub fn root_c_hp_val_B(r: &mut Prc<BE>) -> Result<(u16, Option<El<1, 3>>), Error> { r.read_value() }
pub fn root_w_hp_val_B(v: &(u16, Option<El<1, 3>>), w: &mut Pw<BE>) -> Result<(), Error> { w.write_value(v) }
pub fn root_r_hp_pkvar_L(r: &mut Pr<LE>) -> Result<u64, Error> { r.peek_u64_varint() }
pub fn root_c_hp_pkvar_L(r: &mut Prc<LE>) -> Result<u64, Error> { r.peek_u64_varint() }
pub fn root_r_hp_pkvar_B(r: &mut Pr<BE>) -> Result<u64, Error> { r.peek_u64_varint() }
pub fn root_c_hp_pkvar_B(r: &mut Prc<BE>) -> Result<u64, Error> { r.peek_u64_varint() }
pub fn root_r_d_named_L(r: &mut Pr<LE>) -> Result<Named, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_named_L(r: &mut Prc<LE>) -> Result<Named, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_named_L(v: &Named, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_named_L(v: &Named, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_named_B(r: &mut Pr<BE>) -> Result<Named, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_named_B(r: &mut Prc<BE>) -> Result<Named, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_named_B(v: &Named, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_named(v: &Named) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_named() -> usize { <Named as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tup_L(r: &mut Pr<LE>) -> Result<Tup, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tup_L(r: &mut Prc<LE>) -> Result<Tup, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tup_L(v: &Tup, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tup_L(v: &Tup, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tup_B(r: &mut Pr<BE>) -> Result<Tup, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tup_B(r: &mut Prc<BE>) -> Result<Tup, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tup_B(v: &Tup, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tup(v: &Tup) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tup() -> usize { <Tup as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_units_L(r: &mut Pr<LE>) -> Result<UnitS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_units_L(r: &mut Prc<LE>) -> Result<UnitS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_units_L(v: &UnitS, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_units_L(v: &UnitS, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_units_B(r: &mut Pr<BE>) -> Result<UnitS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_units_B(r: &mut Prc<BE>) -> Result<UnitS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_units_B(v: &UnitS, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_units(v: &UnitS) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_units() -> usize { <UnitS as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_emptyn_L(r: &mut Pr<LE>) -> Result<EmptyN, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_emptyn_L(r: &mut Prc<LE>) -> Result<EmptyN, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_emptyn_L(v: &EmptyN, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_emptyn_L(v: &EmptyN, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_emptyn_B(r: &mut Pr<BE>) -> Result<EmptyN, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_emptyn_B(r: &mut Prc<BE>) -> Result<EmptyN, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_emptyn_B(v: &EmptyN, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_emptyn(v: &EmptyN) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_emptyn() -> usize { <EmptyN as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_allprims_L(r: &mut Pr<LE>) -> Result<AllPrims, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_allprims_L(r: &mut Prc<LE>) -> Result<AllPrims, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_allprims_L(v: &AllPrims, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_allprims_L(v: &AllPrims, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_allprims_B(r: &mut Pr<BE>) -> Result<AllPrims, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_allprims_B(r: &mut Prc<BE>) -> Result<AllPrims, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_allprims_B(v: &AllPrims, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_allprims(v: &AllPrims) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_allprims() -> usize { <AllPrims as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_allprimsrev_L(r: &mut Pr<LE>) -> Result<AllPrimsRev, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_allprimsrev_L(r: &mut Prc<LE>) -> Result<AllPrimsRev, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_allprimsrev_L(v: &AllPrimsRev, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_allprimsrev_L(v: &AllPrimsRev, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_allprimsrev_B(r: &mut Pr<BE>) -> Result<AllPrimsRev, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_allprimsrev_B(r: &mut Prc<BE>) -> Result<AllPrimsRev, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_allprimsrev_B(v: &AllPrimsRev, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_allprimsrev(v: &AllPrimsRev) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_allprimsrev() -> usize { <AllPrimsRev as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_others_L(r: &mut Pr<LE>) -> Result<Others, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_others_L(r: &mut Prc<LE>) -> Result<Others, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_others_L(v: &Others, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_others_L(v: &Others, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_others_B(r: &mut Pr<BE>) -> Result<Others, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_others_B(r: &mut Prc<BE>) -> Result<Others, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_others_B(v: &Others, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_others(v: &Others) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_others() -> usize { <Others as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_nest_L(r: &mut Pr<LE>) -> Result<Nest, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_nest_L(r: &mut Prc<LE>) -> Result<Nest, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_nest_L(v: &Nest, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_nest_L(v: &Nest, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_nest_B(r: &mut Pr<BE>) -> Result<Nest, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_nest_B(r: &mut Prc<BE>) -> Result<Nest, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_nest_B(v: &Nest, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_nest(v: &Nest) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_nest() -> usize { <Nest as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_boxed_L(r: &mut Pr<LE>) -> Result<Boxed, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_boxed_L(r: &mut Prc<LE>) -> Result<Boxed, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_boxed_L(v: &Boxed, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_boxed_L(v: &Boxed, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_boxed_B(r: &mut Pr<BE>) -> Result<Boxed, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_boxed_B(r: &mut Prc<BE>) -> Result<Boxed, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_boxed_B(v: &Boxed, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_boxed(v: &Boxed) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_boxed() -> usize { <Boxed as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_gen_L(r: &mut Pr<LE>) -> Result<Gen<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_gen_L(r: &mut Prc<LE>) -> Result<Gen<El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_gen_L(v: &Gen<El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_gen_L(v: &Gen<El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_gen_B(r: &mut Pr<BE>) -> Result<Gen<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_gen_B(r: &mut Prc<BE>) -> Result<Gen<El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_gen_B(v: &Gen<El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_gen(v: &Gen<El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_gen() -> usize { <Gen<El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_gen2_L(r: &mut Pr<LE>) -> Result<Gen2<u16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_gen2_L(r: &mut Prc<LE>) -> Result<Gen2<u16, El<1, 3>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_gen2_L(v: &Gen2<u16, El<1, 3>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_gen2_L(v: &Gen2<u16, El<1, 3>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_gen2_B(r: &mut Pr<BE>) -> Result<Gen2<u16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_gen2_B(r: &mut Prc<BE>) -> Result<Gen2<u16, El<1, 3>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_gen2_B(v: &Gen2<u16, El<1, 3>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_gen2(v: &Gen2<u16, El<1, 3>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_gen2() -> usize { <Gen2<u16, El<1, 3>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one8_L(r: &mut Pr<LE>) -> Result<One8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one8_L(r: &mut Prc<LE>) -> Result<One8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one8_L(v: &One8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one8_L(v: &One8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one8_B(r: &mut Pr<BE>) -> Result<One8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one8_B(r: &mut Prc<BE>) -> Result<One8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one8_B(v: &One8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one8(v: &One8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one8() -> usize { <One8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one8_vec_L(r: &mut Pr<LE>) -> Result<Vec<One8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one8_vec_L(r: &mut Prc<LE>) -> Result<Vec<One8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one8_vec_L(v: &Vec<One8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one8_vec_L(v: &Vec<One8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one8_vec_B(r: &mut Pr<BE>) -> Result<Vec<One8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one8_vec_B(r: &mut Prc<BE>) -> Result<Vec<One8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one8_vec_B(v: &Vec<One8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one8_vec(v: &Vec<One8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one8_vec() -> usize { <Vec<One8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one8_arr_L(r: &mut Pr<LE>) -> Result<[One8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one8_arr_L(r: &mut Prc<LE>) -> Result<[One8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one8_arr_L(v: &[One8; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one8_arr_L(v: &[One8; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one8_arr_B(r: &mut Pr<BE>) -> Result<[One8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one8_arr_B(r: &mut Prc<BE>) -> Result<[One8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one8_arr_B(v: &[One8; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one8_arr(v: &[One8; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one8_arr() -> usize { <[One8; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one8_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [One8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_one8_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [One8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_one8_cow_L<'a>(v: &Cow<'a, [One8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one8_cow_L<'a>(v: &Cow<'a, [One8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one8_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [One8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_one8_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [One8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_one8_cow_B<'a>(v: &Cow<'a, [One8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one8_cow<'a>(v: &Cow<'a, [One8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one8_cow<'a>() -> usize { <Cow<'a, [One8]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one8_box_L(r: &mut Pr<LE>) -> Result<Box<[One8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one8_box_L(r: &mut Prc<LE>) -> Result<Box<[One8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one8_box_L(v: &Box<[One8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one8_box_L(v: &Box<[One8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one8_box_B(r: &mut Pr<BE>) -> Result<Box<[One8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one8_box_B(r: &mut Prc<BE>) -> Result<Box<[One8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one8_box_B(v: &Box<[One8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one8_box(v: &Box<[One8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one8_box() -> usize { <Box<[One8]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone8_L(r: &mut Pr<LE>) -> Result<TOne8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone8_L(r: &mut Prc<LE>) -> Result<TOne8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone8_L(v: &TOne8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone8_L(v: &TOne8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone8_B(r: &mut Pr<BE>) -> Result<TOne8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone8_B(r: &mut Prc<BE>) -> Result<TOne8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone8_B(v: &TOne8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone8(v: &TOne8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone8() -> usize { <TOne8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone8_vec_L(r: &mut Pr<LE>) -> Result<Vec<TOne8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone8_vec_L(r: &mut Prc<LE>) -> Result<Vec<TOne8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone8_vec_L(v: &Vec<TOne8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone8_vec_L(v: &Vec<TOne8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone8_vec_B(r: &mut Pr<BE>) -> Result<Vec<TOne8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone8_vec_B(r: &mut Prc<BE>) -> Result<Vec<TOne8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone8_vec_B(v: &Vec<TOne8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone8_vec(v: &Vec<TOne8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone8_vec() -> usize { <Vec<TOne8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone8_arr_L(r: &mut Pr<LE>) -> Result<[TOne8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone8_arr_L(r: &mut Prc<LE>) -> Result<[TOne8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone8_arr_L(v: &[TOne8; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone8_arr_L(v: &[TOne8; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone8_arr_B(r: &mut Pr<BE>) -> Result<[TOne8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone8_arr_B(r: &mut Prc<BE>) -> Result<[TOne8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone8_arr_B(v: &[TOne8; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone8_arr(v: &[TOne8; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone8_arr() -> usize { <[TOne8; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone8_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TOne8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tone8_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TOne8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tone8_cow_L<'a>(v: &Cow<'a, [TOne8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone8_cow_L<'a>(v: &Cow<'a, [TOne8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone8_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TOne8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tone8_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TOne8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tone8_cow_B<'a>(v: &Cow<'a, [TOne8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone8_cow<'a>(v: &Cow<'a, [TOne8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone8_cow<'a>() -> usize { <Cow<'a, [TOne8]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone8_box_L(r: &mut Pr<LE>) -> Result<Box<[TOne8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone8_box_L(r: &mut Prc<LE>) -> Result<Box<[TOne8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone8_box_L(v: &Box<[TOne8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone8_box_L(v: &Box<[TOne8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone8_box_B(r: &mut Pr<BE>) -> Result<Box<[TOne8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone8_box_B(r: &mut Prc<BE>) -> Result<Box<[TOne8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone8_box_B(v: &Box<[TOne8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone8_box(v: &Box<[TOne8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone8_box() -> usize { <Box<[TOne8]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one16_L(r: &mut Pr<LE>) -> Result<One16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one16_L(r: &mut Prc<LE>) -> Result<One16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one16_L(v: &One16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one16_L(v: &One16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one16_B(r: &mut Pr<BE>) -> Result<One16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one16_B(r: &mut Prc<BE>) -> Result<One16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one16_B(v: &One16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one16(v: &One16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one16() -> usize { <One16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one16_vec_L(r: &mut Pr<LE>) -> Result<Vec<One16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one16_vec_L(r: &mut Prc<LE>) -> Result<Vec<One16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one16_vec_L(v: &Vec<One16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one16_vec_L(v: &Vec<One16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one16_vec_B(r: &mut Pr<BE>) -> Result<Vec<One16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one16_vec_B(r: &mut Prc<BE>) -> Result<Vec<One16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one16_vec_B(v: &Vec<One16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one16_vec(v: &Vec<One16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one16_vec() -> usize { <Vec<One16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one16_arr_L(r: &mut Pr<LE>) -> Result<[One16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one16_arr_L(r: &mut Prc<LE>) -> Result<[One16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one16_arr_L(v: &[One16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one16_arr_L(v: &[One16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one16_arr_B(r: &mut Pr<BE>) -> Result<[One16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one16_arr_B(r: &mut Prc<BE>) -> Result<[One16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one16_arr_B(v: &[One16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one16_arr(v: &[One16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one16_arr() -> usize { <[One16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one16_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [One16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_one16_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [One16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_one16_cow_L<'a>(v: &Cow<'a, [One16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one16_cow_L<'a>(v: &Cow<'a, [One16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one16_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [One16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_one16_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [One16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_one16_cow_B<'a>(v: &Cow<'a, [One16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one16_cow<'a>(v: &Cow<'a, [One16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one16_cow<'a>() -> usize { <Cow<'a, [One16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_one16_box_L(r: &mut Pr<LE>) -> Result<Box<[One16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_one16_box_L(r: &mut Prc<LE>) -> Result<Box<[One16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_one16_box_L(v: &Box<[One16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_one16_box_L(v: &Box<[One16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_one16_box_B(r: &mut Pr<BE>) -> Result<Box<[One16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_one16_box_B(r: &mut Prc<BE>) -> Result<Box<[One16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_one16_box_B(v: &Box<[One16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_one16_box(v: &Box<[One16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_one16_box() -> usize { <Box<[One16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone16_L(r: &mut Pr<LE>) -> Result<TOne16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone16_L(r: &mut Prc<LE>) -> Result<TOne16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone16_L(v: &TOne16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone16_L(v: &TOne16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone16_B(r: &mut Pr<BE>) -> Result<TOne16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone16_B(r: &mut Prc<BE>) -> Result<TOne16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone16_B(v: &TOne16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone16(v: &TOne16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone16() -> usize { <TOne16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone16_vec_L(r: &mut Pr<LE>) -> Result<Vec<TOne16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone16_vec_L(r: &mut Prc<LE>) -> Result<Vec<TOne16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone16_vec_L(v: &Vec<TOne16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone16_vec_L(v: &Vec<TOne16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone16_vec_B(r: &mut Pr<BE>) -> Result<Vec<TOne16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone16_vec_B(r: &mut Prc<BE>) -> Result<Vec<TOne16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone16_vec_B(v: &Vec<TOne16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone16_vec(v: &Vec<TOne16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone16_vec() -> usize { <Vec<TOne16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone16_arr_L(r: &mut Pr<LE>) -> Result<[TOne16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone16_arr_L(r: &mut Prc<LE>) -> Result<[TOne16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone16_arr_L(v: &[TOne16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone16_arr_L(v: &[TOne16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone16_arr_B(r: &mut Pr<BE>) -> Result<[TOne16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone16_arr_B(r: &mut Prc<BE>) -> Result<[TOne16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone16_arr_B(v: &[TOne16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone16_arr(v: &[TOne16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone16_arr() -> usize { <[TOne16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone16_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TOne16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tone16_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TOne16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tone16_cow_L<'a>(v: &Cow<'a, [TOne16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone16_cow_L<'a>(v: &Cow<'a, [TOne16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone16_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TOne16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tone16_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TOne16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tone16_cow_B<'a>(v: &Cow<'a, [TOne16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone16_cow<'a>(v: &Cow<'a, [TOne16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone16_cow<'a>() -> usize { <Cow<'a, [TOne16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tone16_box_L(r: &mut Pr<LE>) -> Result<Box<[TOne16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tone16_box_L(r: &mut Prc<LE>) -> Result<Box<[TOne16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tone16_box_L(v: &Box<[TOne16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tone16_box_L(v: &Box<[TOne16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tone16_box_B(r: &mut Pr<BE>) -> Result<Box<[TOne16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tone16_box_B(r: &mut Prc<BE>) -> Result<Box<[TOne16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tone16_box_B(v: &Box<[TOne16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tone16_box(v: &Box<[TOne16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tone16_box() -> usize { <Box<[TOne16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pair16_L(r: &mut Pr<LE>) -> Result<Pair16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pair16_L(r: &mut Prc<LE>) -> Result<Pair16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pair16_L(v: &Pair16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pair16_L(v: &Pair16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pair16_B(r: &mut Pr<BE>) -> Result<Pair16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pair16_B(r: &mut Prc<BE>) -> Result<Pair16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pair16_B(v: &Pair16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pair16(v: &Pair16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pair16() -> usize { <Pair16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pair16_vec_L(r: &mut Pr<LE>) -> Result<Vec<Pair16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pair16_vec_L(r: &mut Prc<LE>) -> Result<Vec<Pair16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pair16_vec_L(v: &Vec<Pair16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pair16_vec_L(v: &Vec<Pair16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pair16_vec_B(r: &mut Pr<BE>) -> Result<Vec<Pair16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pair16_vec_B(r: &mut Prc<BE>) -> Result<Vec<Pair16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pair16_vec_B(v: &Vec<Pair16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pair16_vec(v: &Vec<Pair16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pair16_vec() -> usize { <Vec<Pair16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pair16_arr_L(r: &mut Pr<LE>) -> Result<[Pair16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pair16_arr_L(r: &mut Prc<LE>) -> Result<[Pair16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pair16_arr_L(v: &[Pair16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pair16_arr_L(v: &[Pair16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pair16_arr_B(r: &mut Pr<BE>) -> Result<[Pair16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pair16_arr_B(r: &mut Prc<BE>) -> Result<[Pair16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pair16_arr_B(v: &[Pair16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pair16_arr(v: &[Pair16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pair16_arr() -> usize { <[Pair16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pair16_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Pair16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_pair16_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Pair16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_pair16_cow_L<'a>(v: &Cow<'a, [Pair16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pair16_cow_L<'a>(v: &Cow<'a, [Pair16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pair16_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Pair16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_pair16_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Pair16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_pair16_cow_B<'a>(v: &Cow<'a, [Pair16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pair16_cow<'a>(v: &Cow<'a, [Pair16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pair16_cow<'a>() -> usize { <Cow<'a, [Pair16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pair16_box_L(r: &mut Pr<LE>) -> Result<Box<[Pair16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pair16_box_L(r: &mut Prc<LE>) -> Result<Box<[Pair16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pair16_box_L(v: &Box<[Pair16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pair16_box_L(v: &Box<[Pair16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pair16_box_B(r: &mut Pr<BE>) -> Result<Box<[Pair16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pair16_box_B(r: &mut Prc<BE>) -> Result<Box<[Pair16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pair16_box_B(v: &Box<[Pair16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pair16_box(v: &Box<[Pair16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pair16_box() -> usize { <Box<[Pair16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpair16_L(r: &mut Pr<LE>) -> Result<TPair16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpair16_L(r: &mut Prc<LE>) -> Result<TPair16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpair16_L(v: &TPair16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpair16_L(v: &TPair16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpair16_B(r: &mut Pr<BE>) -> Result<TPair16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpair16_B(r: &mut Prc<BE>) -> Result<TPair16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpair16_B(v: &TPair16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpair16(v: &TPair16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpair16() -> usize { <TPair16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpair16_vec_L(r: &mut Pr<LE>) -> Result<Vec<TPair16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpair16_vec_L(r: &mut Prc<LE>) -> Result<Vec<TPair16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpair16_vec_L(v: &Vec<TPair16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpair16_vec_L(v: &Vec<TPair16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpair16_vec_B(r: &mut Pr<BE>) -> Result<Vec<TPair16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpair16_vec_B(r: &mut Prc<BE>) -> Result<Vec<TPair16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpair16_vec_B(v: &Vec<TPair16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpair16_vec(v: &Vec<TPair16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpair16_vec() -> usize { <Vec<TPair16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpair16_arr_L(r: &mut Pr<LE>) -> Result<[TPair16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpair16_arr_L(r: &mut Prc<LE>) -> Result<[TPair16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpair16_arr_L(v: &[TPair16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpair16_arr_L(v: &[TPair16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpair16_arr_B(r: &mut Pr<BE>) -> Result<[TPair16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpair16_arr_B(r: &mut Prc<BE>) -> Result<[TPair16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpair16_arr_B(v: &[TPair16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpair16_arr(v: &[TPair16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpair16_arr() -> usize { <[TPair16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpair16_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TPair16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tpair16_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TPair16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tpair16_cow_L<'a>(v: &Cow<'a, [TPair16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpair16_cow_L<'a>(v: &Cow<'a, [TPair16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpair16_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TPair16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tpair16_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TPair16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tpair16_cow_B<'a>(v: &Cow<'a, [TPair16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpair16_cow<'a>(v: &Cow<'a, [TPair16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpair16_cow<'a>() -> usize { <Cow<'a, [TPair16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpair16_box_L(r: &mut Pr<LE>) -> Result<Box<[TPair16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpair16_box_L(r: &mut Prc<LE>) -> Result<Box<[TPair16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpair16_box_L(v: &Box<[TPair16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpair16_box_L(v: &Box<[TPair16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpair16_box_B(r: &mut Pr<BE>) -> Result<Box<[TPair16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpair16_box_B(r: &mut Prc<BE>) -> Result<Box<[TPair16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpair16_box_B(v: &Box<[TPair16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpair16_box(v: &Box<[TPair16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpair16_box() -> usize { <Box<[TPair16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pad_L(r: &mut Pr<LE>) -> Result<Pad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pad_L(r: &mut Prc<LE>) -> Result<Pad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pad_L(v: &Pad, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pad_L(v: &Pad, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pad_B(r: &mut Pr<BE>) -> Result<Pad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pad_B(r: &mut Prc<BE>) -> Result<Pad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pad_B(v: &Pad, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pad(v: &Pad) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pad() -> usize { <Pad as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pad_vec_L(r: &mut Pr<LE>) -> Result<Vec<Pad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pad_vec_L(r: &mut Prc<LE>) -> Result<Vec<Pad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pad_vec_L(v: &Vec<Pad>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pad_vec_L(v: &Vec<Pad>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pad_vec_B(r: &mut Pr<BE>) -> Result<Vec<Pad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pad_vec_B(r: &mut Prc<BE>) -> Result<Vec<Pad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pad_vec_B(v: &Vec<Pad>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pad_vec(v: &Vec<Pad>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pad_vec() -> usize { <Vec<Pad> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pad_arr_L(r: &mut Pr<LE>) -> Result<[Pad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pad_arr_L(r: &mut Prc<LE>) -> Result<[Pad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pad_arr_L(v: &[Pad; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pad_arr_L(v: &[Pad; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pad_arr_B(r: &mut Pr<BE>) -> Result<[Pad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pad_arr_B(r: &mut Prc<BE>) -> Result<[Pad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pad_arr_B(v: &[Pad; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pad_arr(v: &[Pad; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pad_arr() -> usize { <[Pad; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pad_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Pad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_pad_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Pad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_pad_cow_L<'a>(v: &Cow<'a, [Pad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pad_cow_L<'a>(v: &Cow<'a, [Pad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pad_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Pad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_pad_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Pad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_pad_cow_B<'a>(v: &Cow<'a, [Pad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pad_cow<'a>(v: &Cow<'a, [Pad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pad_cow<'a>() -> usize { <Cow<'a, [Pad]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pad_box_L(r: &mut Pr<LE>) -> Result<Box<[Pad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pad_box_L(r: &mut Prc<LE>) -> Result<Box<[Pad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pad_box_L(v: &Box<[Pad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pad_box_L(v: &Box<[Pad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pad_box_B(r: &mut Pr<BE>) -> Result<Box<[Pad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pad_box_B(r: &mut Prc<BE>) -> Result<Box<[Pad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pad_box_B(v: &Box<[Pad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pad_box(v: &Box<[Pad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pad_box() -> usize { <Box<[Pad]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpad_L(r: &mut Pr<LE>) -> Result<TPad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpad_L(r: &mut Prc<LE>) -> Result<TPad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpad_L(v: &TPad, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpad_L(v: &TPad, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpad_B(r: &mut Pr<BE>) -> Result<TPad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpad_B(r: &mut Prc<BE>) -> Result<TPad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpad_B(v: &TPad, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpad(v: &TPad) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpad() -> usize { <TPad as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpad_vec_L(r: &mut Pr<LE>) -> Result<Vec<TPad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpad_vec_L(r: &mut Prc<LE>) -> Result<Vec<TPad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpad_vec_L(v: &Vec<TPad>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpad_vec_L(v: &Vec<TPad>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpad_vec_B(r: &mut Pr<BE>) -> Result<Vec<TPad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpad_vec_B(r: &mut Prc<BE>) -> Result<Vec<TPad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpad_vec_B(v: &Vec<TPad>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpad_vec(v: &Vec<TPad>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpad_vec() -> usize { <Vec<TPad> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpad_arr_L(r: &mut Pr<LE>) -> Result<[TPad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpad_arr_L(r: &mut Prc<LE>) -> Result<[TPad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpad_arr_L(v: &[TPad; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpad_arr_L(v: &[TPad; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpad_arr_B(r: &mut Pr<BE>) -> Result<[TPad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpad_arr_B(r: &mut Prc<BE>) -> Result<[TPad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpad_arr_B(v: &[TPad; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpad_arr(v: &[TPad; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpad_arr() -> usize { <[TPad; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpad_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TPad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tpad_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TPad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tpad_cow_L<'a>(v: &Cow<'a, [TPad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpad_cow_L<'a>(v: &Cow<'a, [TPad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpad_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TPad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tpad_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TPad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tpad_cow_B<'a>(v: &Cow<'a, [TPad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpad_cow<'a>(v: &Cow<'a, [TPad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpad_cow<'a>() -> usize { <Cow<'a, [TPad]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tpad_box_L(r: &mut Pr<LE>) -> Result<Box<[TPad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tpad_box_L(r: &mut Prc<LE>) -> Result<Box<[TPad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tpad_box_L(v: &Box<[TPad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tpad_box_L(v: &Box<[TPad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tpad_box_B(r: &mut Pr<BE>) -> Result<Box<[TPad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tpad_box_B(r: &mut Prc<BE>) -> Result<Box<[TPad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tpad_box_B(v: &Box<[TPad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tpad_box(v: &Box<[TPad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tpad_box() -> usize { <Box<[TPad]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord_L(r: &mut Pr<LE>) -> Result<Reord, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord_L(r: &mut Prc<LE>) -> Result<Reord, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord_L(v: &Reord, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord_L(v: &Reord, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord_B(r: &mut Pr<BE>) -> Result<Reord, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord_B(r: &mut Prc<BE>) -> Result<Reord, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord_B(v: &Reord, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord(v: &Reord) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord() -> usize { <Reord as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord_vec_L(r: &mut Pr<LE>) -> Result<Vec<Reord>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord_vec_L(r: &mut Prc<LE>) -> Result<Vec<Reord>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord_vec_L(v: &Vec<Reord>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord_vec_L(v: &Vec<Reord>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord_vec_B(r: &mut Pr<BE>) -> Result<Vec<Reord>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord_vec_B(r: &mut Prc<BE>) -> Result<Vec<Reord>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord_vec_B(v: &Vec<Reord>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord_vec(v: &Vec<Reord>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord_vec() -> usize { <Vec<Reord> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord_arr_L(r: &mut Pr<LE>) -> Result<[Reord; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord_arr_L(r: &mut Prc<LE>) -> Result<[Reord; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord_arr_L(v: &[Reord; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord_arr_L(v: &[Reord; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord_arr_B(r: &mut Pr<BE>) -> Result<[Reord; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord_arr_B(r: &mut Prc<BE>) -> Result<[Reord; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord_arr_B(v: &[Reord; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord_arr(v: &[Reord; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord_arr() -> usize { <[Reord; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Reord]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reord_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Reord]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reord_cow_L<'a>(v: &Cow<'a, [Reord]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord_cow_L<'a>(v: &Cow<'a, [Reord]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Reord]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reord_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Reord]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reord_cow_B<'a>(v: &Cow<'a, [Reord]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord_cow<'a>(v: &Cow<'a, [Reord]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord_cow<'a>() -> usize { <Cow<'a, [Reord]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord_box_L(r: &mut Pr<LE>) -> Result<Box<[Reord]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord_box_L(r: &mut Prc<LE>) -> Result<Box<[Reord]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord_box_L(v: &Box<[Reord]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord_box_L(v: &Box<[Reord]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord_box_B(r: &mut Pr<BE>) -> Result<Box<[Reord]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord_box_B(r: &mut Prc<BE>) -> Result<Box<[Reord]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord_box_B(v: &Box<[Reord]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord_box(v: &Box<[Reord]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord_box() -> usize { <Box<[Reord]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord_L(r: &mut Pr<LE>) -> Result<TReord, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord_L(r: &mut Prc<LE>) -> Result<TReord, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord_L(v: &TReord, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord_L(v: &TReord, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord_B(r: &mut Pr<BE>) -> Result<TReord, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord_B(r: &mut Prc<BE>) -> Result<TReord, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord_B(v: &TReord, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord(v: &TReord) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord() -> usize { <TReord as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord_vec_L(r: &mut Pr<LE>) -> Result<Vec<TReord>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord_vec_L(r: &mut Prc<LE>) -> Result<Vec<TReord>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord_vec_L(v: &Vec<TReord>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord_vec_L(v: &Vec<TReord>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord_vec_B(r: &mut Pr<BE>) -> Result<Vec<TReord>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord_vec_B(r: &mut Prc<BE>) -> Result<Vec<TReord>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord_vec_B(v: &Vec<TReord>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord_vec(v: &Vec<TReord>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord_vec() -> usize { <Vec<TReord> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord_arr_L(r: &mut Pr<LE>) -> Result<[TReord; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord_arr_L(r: &mut Prc<LE>) -> Result<[TReord; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord_arr_L(v: &[TReord; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord_arr_L(v: &[TReord; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord_arr_B(r: &mut Pr<BE>) -> Result<[TReord; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord_arr_B(r: &mut Prc<BE>) -> Result<[TReord; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord_arr_B(v: &[TReord; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord_arr(v: &[TReord; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord_arr() -> usize { <[TReord; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TReord]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_treord_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TReord]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_treord_cow_L<'a>(v: &Cow<'a, [TReord]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord_cow_L<'a>(v: &Cow<'a, [TReord]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TReord]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_treord_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TReord]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_treord_cow_B<'a>(v: &Cow<'a, [TReord]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord_cow<'a>(v: &Cow<'a, [TReord]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord_cow<'a>() -> usize { <Cow<'a, [TReord]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord_box_L(r: &mut Pr<LE>) -> Result<Box<[TReord]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord_box_L(r: &mut Prc<LE>) -> Result<Box<[TReord]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord_box_L(v: &Box<[TReord]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord_box_L(v: &Box<[TReord]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord_box_B(r: &mut Pr<BE>) -> Result<Box<[TReord]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord_box_B(r: &mut Prc<BE>) -> Result<Box<[TReord]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord_box_B(v: &Box<[TReord]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord_box(v: &Box<[TReord]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord_box() -> usize { <Box<[TReord]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord2_L(r: &mut Pr<LE>) -> Result<Reord2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord2_L(r: &mut Prc<LE>) -> Result<Reord2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord2_L(v: &Reord2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord2_L(v: &Reord2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord2_B(r: &mut Pr<BE>) -> Result<Reord2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord2_B(r: &mut Prc<BE>) -> Result<Reord2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord2_B(v: &Reord2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord2(v: &Reord2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord2() -> usize { <Reord2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord2_vec_L(r: &mut Pr<LE>) -> Result<Vec<Reord2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord2_vec_L(r: &mut Prc<LE>) -> Result<Vec<Reord2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord2_vec_L(v: &Vec<Reord2>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord2_vec_L(v: &Vec<Reord2>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord2_vec_B(r: &mut Pr<BE>) -> Result<Vec<Reord2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord2_vec_B(r: &mut Prc<BE>) -> Result<Vec<Reord2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord2_vec_B(v: &Vec<Reord2>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord2_vec(v: &Vec<Reord2>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord2_vec() -> usize { <Vec<Reord2> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord2_arr_L(r: &mut Pr<LE>) -> Result<[Reord2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord2_arr_L(r: &mut Prc<LE>) -> Result<[Reord2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord2_arr_L(v: &[Reord2; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord2_arr_L(v: &[Reord2; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord2_arr_B(r: &mut Pr<BE>) -> Result<[Reord2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord2_arr_B(r: &mut Prc<BE>) -> Result<[Reord2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord2_arr_B(v: &[Reord2; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord2_arr(v: &[Reord2; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord2_arr() -> usize { <[Reord2; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord2_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Reord2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reord2_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Reord2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reord2_cow_L<'a>(v: &Cow<'a, [Reord2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord2_cow_L<'a>(v: &Cow<'a, [Reord2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord2_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Reord2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reord2_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Reord2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reord2_cow_B<'a>(v: &Cow<'a, [Reord2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord2_cow<'a>(v: &Cow<'a, [Reord2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord2_cow<'a>() -> usize { <Cow<'a, [Reord2]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reord2_box_L(r: &mut Pr<LE>) -> Result<Box<[Reord2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_reord2_box_L(r: &mut Prc<LE>) -> Result<Box<[Reord2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_reord2_box_L(v: &Box<[Reord2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reord2_box_L(v: &Box<[Reord2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reord2_box_B(r: &mut Pr<BE>) -> Result<Box<[Reord2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_reord2_box_B(r: &mut Prc<BE>) -> Result<Box<[Reord2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_reord2_box_B(v: &Box<[Reord2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reord2_box(v: &Box<[Reord2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reord2_box() -> usize { <Box<[Reord2]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord2_L(r: &mut Pr<LE>) -> Result<TReord2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord2_L(r: &mut Prc<LE>) -> Result<TReord2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord2_L(v: &TReord2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord2_L(v: &TReord2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord2_B(r: &mut Pr<BE>) -> Result<TReord2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord2_B(r: &mut Prc<BE>) -> Result<TReord2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord2_B(v: &TReord2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord2(v: &TReord2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord2() -> usize { <TReord2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord2_vec_L(r: &mut Pr<LE>) -> Result<Vec<TReord2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord2_vec_L(r: &mut Prc<LE>) -> Result<Vec<TReord2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord2_vec_L(v: &Vec<TReord2>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord2_vec_L(v: &Vec<TReord2>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord2_vec_B(r: &mut Pr<BE>) -> Result<Vec<TReord2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord2_vec_B(r: &mut Prc<BE>) -> Result<Vec<TReord2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord2_vec_B(v: &Vec<TReord2>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord2_vec(v: &Vec<TReord2>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord2_vec() -> usize { <Vec<TReord2> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord2_arr_L(r: &mut Pr<LE>) -> Result<[TReord2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord2_arr_L(r: &mut Prc<LE>) -> Result<[TReord2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord2_arr_L(v: &[TReord2; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord2_arr_L(v: &[TReord2; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord2_arr_B(r: &mut Pr<BE>) -> Result<[TReord2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord2_arr_B(r: &mut Prc<BE>) -> Result<[TReord2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord2_arr_B(v: &[TReord2; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord2_arr(v: &[TReord2; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord2_arr() -> usize { <[TReord2; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord2_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TReord2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_treord2_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TReord2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_treord2_cow_L<'a>(v: &Cow<'a, [TReord2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord2_cow_L<'a>(v: &Cow<'a, [TReord2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord2_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TReord2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_treord2_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TReord2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_treord2_cow_B<'a>(v: &Cow<'a, [TReord2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord2_cow<'a>(v: &Cow<'a, [TReord2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord2_cow<'a>() -> usize { <Cow<'a, [TReord2]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_treord2_box_L(r: &mut Pr<LE>) -> Result<Box<[TReord2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_treord2_box_L(r: &mut Prc<LE>) -> Result<Box<[TReord2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_treord2_box_L(v: &Box<[TReord2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_treord2_box_L(v: &Box<[TReord2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_treord2_box_B(r: &mut Pr<BE>) -> Result<Box<[TReord2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_treord2_box_B(r: &mut Prc<BE>) -> Result<Box<[TReord2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_treord2_box_B(v: &Box<[TReord2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_treord2_box(v: &Box<[TReord2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_treord2_box() -> usize { <Box<[TReord2]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_down_L(r: &mut Pr<LE>) -> Result<Down, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_down_L(r: &mut Prc<LE>) -> Result<Down, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_down_L(v: &Down, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_down_L(v: &Down, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_down_B(r: &mut Pr<BE>) -> Result<Down, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_down_B(r: &mut Prc<BE>) -> Result<Down, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_down_B(v: &Down, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_down(v: &Down) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_down() -> usize { <Down as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_down_vec_L(r: &mut Pr<LE>) -> Result<Vec<Down>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_down_vec_L(r: &mut Prc<LE>) -> Result<Vec<Down>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_down_vec_L(v: &Vec<Down>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_down_vec_L(v: &Vec<Down>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_down_vec_B(r: &mut Pr<BE>) -> Result<Vec<Down>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_down_vec_B(r: &mut Prc<BE>) -> Result<Vec<Down>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_down_vec_B(v: &Vec<Down>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_down_vec(v: &Vec<Down>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_down_vec() -> usize { <Vec<Down> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_down_arr_L(r: &mut Pr<LE>) -> Result<[Down; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_down_arr_L(r: &mut Prc<LE>) -> Result<[Down; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_down_arr_L(v: &[Down; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_down_arr_L(v: &[Down; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_down_arr_B(r: &mut Pr<BE>) -> Result<[Down; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_down_arr_B(r: &mut Prc<BE>) -> Result<[Down; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_down_arr_B(v: &[Down; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_down_arr(v: &[Down; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_down_arr() -> usize { <[Down; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_down_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Down]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_down_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Down]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_down_cow_L<'a>(v: &Cow<'a, [Down]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_down_cow_L<'a>(v: &Cow<'a, [Down]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_down_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Down]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_down_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Down]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_down_cow_B<'a>(v: &Cow<'a, [Down]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_down_cow<'a>(v: &Cow<'a, [Down]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_down_cow<'a>() -> usize { <Cow<'a, [Down]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_down_box_L(r: &mut Pr<LE>) -> Result<Box<[Down]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_down_box_L(r: &mut Prc<LE>) -> Result<Box<[Down]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_down_box_L(v: &Box<[Down]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_down_box_L(v: &Box<[Down]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_down_box_B(r: &mut Pr<BE>) -> Result<Box<[Down]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_down_box_B(r: &mut Prc<BE>) -> Result<Box<[Down]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_down_box_B(v: &Box<[Down]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_down_box(v: &Box<[Down]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_down_box() -> usize { <Box<[Down]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tdown_L(r: &mut Pr<LE>) -> Result<TDown, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tdown_L(r: &mut Prc<LE>) -> Result<TDown, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tdown_L(v: &TDown, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tdown_L(v: &TDown, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tdown_B(r: &mut Pr<BE>) -> Result<TDown, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tdown_B(r: &mut Prc<BE>) -> Result<TDown, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tdown_B(v: &TDown, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tdown(v: &TDown) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tdown() -> usize { <TDown as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tdown_vec_L(r: &mut Pr<LE>) -> Result<Vec<TDown>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tdown_vec_L(r: &mut Prc<LE>) -> Result<Vec<TDown>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tdown_vec_L(v: &Vec<TDown>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tdown_vec_L(v: &Vec<TDown>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tdown_vec_B(r: &mut Pr<BE>) -> Result<Vec<TDown>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tdown_vec_B(r: &mut Prc<BE>) -> Result<Vec<TDown>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tdown_vec_B(v: &Vec<TDown>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tdown_vec(v: &Vec<TDown>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tdown_vec() -> usize { <Vec<TDown> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tdown_arr_L(r: &mut Pr<LE>) -> Result<[TDown; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tdown_arr_L(r: &mut Prc<LE>) -> Result<[TDown; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tdown_arr_L(v: &[TDown; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tdown_arr_L(v: &[TDown; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tdown_arr_B(r: &mut Pr<BE>) -> Result<[TDown; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tdown_arr_B(r: &mut Prc<BE>) -> Result<[TDown; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tdown_arr_B(v: &[TDown; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tdown_arr(v: &[TDown; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tdown_arr() -> usize { <[TDown; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tdown_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TDown]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tdown_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TDown]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tdown_cow_L<'a>(v: &Cow<'a, [TDown]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tdown_cow_L<'a>(v: &Cow<'a, [TDown]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tdown_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TDown]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tdown_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TDown]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tdown_cow_B<'a>(v: &Cow<'a, [TDown]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tdown_cow<'a>(v: &Cow<'a, [TDown]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tdown_cow<'a>() -> usize { <Cow<'a, [TDown]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tdown_box_L(r: &mut Pr<LE>) -> Result<Box<[TDown]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tdown_box_L(r: &mut Prc<LE>) -> Result<Box<[TDown]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tdown_box_L(v: &Box<[TDown]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tdown_box_L(v: &Box<[TDown]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tdown_box_B(r: &mut Pr<BE>) -> Result<Box<[TDown]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tdown_box_B(r: &mut Prc<BE>) -> Result<Box<[TDown]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tdown_box_B(v: &Box<[TDown]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tdown_box(v: &Box<[TDown]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tdown_box() -> usize { <Box<[TDown]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_four_L(r: &mut Pr<LE>) -> Result<Four, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_four_L(r: &mut Prc<LE>) -> Result<Four, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_four_L(v: &Four, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_four_L(v: &Four, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_four_B(r: &mut Pr<BE>) -> Result<Four, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_four_B(r: &mut Prc<BE>) -> Result<Four, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_four_B(v: &Four, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_four(v: &Four) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_four() -> usize { <Four as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_four_vec_L(r: &mut Pr<LE>) -> Result<Vec<Four>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_four_vec_L(r: &mut Prc<LE>) -> Result<Vec<Four>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_four_vec_L(v: &Vec<Four>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_four_vec_L(v: &Vec<Four>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_four_vec_B(r: &mut Pr<BE>) -> Result<Vec<Four>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_four_vec_B(r: &mut Prc<BE>) -> Result<Vec<Four>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_four_vec_B(v: &Vec<Four>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_four_vec(v: &Vec<Four>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_four_vec() -> usize { <Vec<Four> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_four_arr_L(r: &mut Pr<LE>) -> Result<[Four; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_four_arr_L(r: &mut Prc<LE>) -> Result<[Four; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_four_arr_L(v: &[Four; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_four_arr_L(v: &[Four; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_four_arr_B(r: &mut Pr<BE>) -> Result<[Four; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_four_arr_B(r: &mut Prc<BE>) -> Result<[Four; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_four_arr_B(v: &[Four; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_four_arr(v: &[Four; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_four_arr() -> usize { <[Four; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_four_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Four]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_four_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Four]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_four_cow_L<'a>(v: &Cow<'a, [Four]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_four_cow_L<'a>(v: &Cow<'a, [Four]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_four_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Four]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_four_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Four]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_four_cow_B<'a>(v: &Cow<'a, [Four]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_four_cow<'a>(v: &Cow<'a, [Four]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_four_cow<'a>() -> usize { <Cow<'a, [Four]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_four_box_L(r: &mut Pr<LE>) -> Result<Box<[Four]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_four_box_L(r: &mut Prc<LE>) -> Result<Box<[Four]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_four_box_L(v: &Box<[Four]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_four_box_L(v: &Box<[Four]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_four_box_B(r: &mut Pr<BE>) -> Result<Box<[Four]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_four_box_B(r: &mut Prc<BE>) -> Result<Box<[Four]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_four_box_B(v: &Box<[Four]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_four_box(v: &Box<[Four]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_four_box() -> usize { <Box<[Four]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfour_L(r: &mut Pr<LE>) -> Result<TFour, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfour_L(r: &mut Prc<LE>) -> Result<TFour, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfour_L(v: &TFour, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfour_L(v: &TFour, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfour_B(r: &mut Pr<BE>) -> Result<TFour, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfour_B(r: &mut Prc<BE>) -> Result<TFour, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfour_B(v: &TFour, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfour(v: &TFour) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfour() -> usize { <TFour as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfour_vec_L(r: &mut Pr<LE>) -> Result<Vec<TFour>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfour_vec_L(r: &mut Prc<LE>) -> Result<Vec<TFour>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfour_vec_L(v: &Vec<TFour>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfour_vec_L(v: &Vec<TFour>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfour_vec_B(r: &mut Pr<BE>) -> Result<Vec<TFour>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfour_vec_B(r: &mut Prc<BE>) -> Result<Vec<TFour>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfour_vec_B(v: &Vec<TFour>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfour_vec(v: &Vec<TFour>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfour_vec() -> usize { <Vec<TFour> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfour_arr_L(r: &mut Pr<LE>) -> Result<[TFour; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfour_arr_L(r: &mut Prc<LE>) -> Result<[TFour; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfour_arr_L(v: &[TFour; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfour_arr_L(v: &[TFour; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfour_arr_B(r: &mut Pr<BE>) -> Result<[TFour; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfour_arr_B(r: &mut Prc<BE>) -> Result<[TFour; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfour_arr_B(v: &[TFour; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfour_arr(v: &[TFour; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfour_arr() -> usize { <[TFour; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfour_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TFour]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tfour_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TFour]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tfour_cow_L<'a>(v: &Cow<'a, [TFour]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfour_cow_L<'a>(v: &Cow<'a, [TFour]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfour_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TFour]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tfour_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TFour]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tfour_cow_B<'a>(v: &Cow<'a, [TFour]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfour_cow<'a>(v: &Cow<'a, [TFour]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfour_cow<'a>() -> usize { <Cow<'a, [TFour]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfour_box_L(r: &mut Pr<LE>) -> Result<Box<[TFour]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfour_box_L(r: &mut Prc<LE>) -> Result<Box<[TFour]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfour_box_L(v: &Box<[TFour]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfour_box_L(v: &Box<[TFour]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfour_box_B(r: &mut Pr<BE>) -> Result<Box<[TFour]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfour_box_B(r: &mut Prc<BE>) -> Result<Box<[TFour]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfour_box_B(v: &Box<[TFour]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfour_box(v: &Box<[TFour]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfour_box() -> usize { <Box<[TFour]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_five8_L(r: &mut Pr<LE>) -> Result<Five8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_five8_L(r: &mut Prc<LE>) -> Result<Five8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_five8_L(v: &Five8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_five8_L(v: &Five8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_five8_B(r: &mut Pr<BE>) -> Result<Five8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_five8_B(r: &mut Prc<BE>) -> Result<Five8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_five8_B(v: &Five8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_five8(v: &Five8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_five8() -> usize { <Five8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_five8_vec_L(r: &mut Pr<LE>) -> Result<Vec<Five8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_five8_vec_L(r: &mut Prc<LE>) -> Result<Vec<Five8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_five8_vec_L(v: &Vec<Five8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_five8_vec_L(v: &Vec<Five8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_five8_vec_B(r: &mut Pr<BE>) -> Result<Vec<Five8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_five8_vec_B(r: &mut Prc<BE>) -> Result<Vec<Five8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_five8_vec_B(v: &Vec<Five8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_five8_vec(v: &Vec<Five8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_five8_vec() -> usize { <Vec<Five8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_five8_arr_L(r: &mut Pr<LE>) -> Result<[Five8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_five8_arr_L(r: &mut Prc<LE>) -> Result<[Five8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_five8_arr_L(v: &[Five8; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_five8_arr_L(v: &[Five8; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_five8_arr_B(r: &mut Pr<BE>) -> Result<[Five8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_five8_arr_B(r: &mut Prc<BE>) -> Result<[Five8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_five8_arr_B(v: &[Five8; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_five8_arr(v: &[Five8; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_five8_arr() -> usize { <[Five8; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_five8_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Five8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_five8_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Five8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_five8_cow_L<'a>(v: &Cow<'a, [Five8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_five8_cow_L<'a>(v: &Cow<'a, [Five8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_five8_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Five8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_five8_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Five8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_five8_cow_B<'a>(v: &Cow<'a, [Five8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_five8_cow<'a>(v: &Cow<'a, [Five8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_five8_cow<'a>() -> usize { <Cow<'a, [Five8]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_five8_box_L(r: &mut Pr<LE>) -> Result<Box<[Five8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_five8_box_L(r: &mut Prc<LE>) -> Result<Box<[Five8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_five8_box_L(v: &Box<[Five8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_five8_box_L(v: &Box<[Five8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_five8_box_B(r: &mut Pr<BE>) -> Result<Box<[Five8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_five8_box_B(r: &mut Prc<BE>) -> Result<Box<[Five8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_five8_box_B(v: &Box<[Five8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_five8_box(v: &Box<[Five8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_five8_box() -> usize { <Box<[Five8]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfive8_L(r: &mut Pr<LE>) -> Result<TFive8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfive8_L(r: &mut Prc<LE>) -> Result<TFive8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfive8_L(v: &TFive8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfive8_L(v: &TFive8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfive8_B(r: &mut Pr<BE>) -> Result<TFive8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfive8_B(r: &mut Prc<BE>) -> Result<TFive8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfive8_B(v: &TFive8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfive8(v: &TFive8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfive8() -> usize { <TFive8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfive8_vec_L(r: &mut Pr<LE>) -> Result<Vec<TFive8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfive8_vec_L(r: &mut Prc<LE>) -> Result<Vec<TFive8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfive8_vec_L(v: &Vec<TFive8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfive8_vec_L(v: &Vec<TFive8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfive8_vec_B(r: &mut Pr<BE>) -> Result<Vec<TFive8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfive8_vec_B(r: &mut Prc<BE>) -> Result<Vec<TFive8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfive8_vec_B(v: &Vec<TFive8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfive8_vec(v: &Vec<TFive8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfive8_vec() -> usize { <Vec<TFive8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfive8_arr_L(r: &mut Pr<LE>) -> Result<[TFive8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfive8_arr_L(r: &mut Prc<LE>) -> Result<[TFive8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfive8_arr_L(v: &[TFive8; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfive8_arr_L(v: &[TFive8; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfive8_arr_B(r: &mut Pr<BE>) -> Result<[TFive8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfive8_arr_B(r: &mut Prc<BE>) -> Result<[TFive8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfive8_arr_B(v: &[TFive8; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfive8_arr(v: &[TFive8; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfive8_arr() -> usize { <[TFive8; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfive8_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TFive8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tfive8_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TFive8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tfive8_cow_L<'a>(v: &Cow<'a, [TFive8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfive8_cow_L<'a>(v: &Cow<'a, [TFive8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfive8_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TFive8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tfive8_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TFive8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tfive8_cow_B<'a>(v: &Cow<'a, [TFive8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfive8_cow<'a>(v: &Cow<'a, [TFive8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfive8_cow<'a>() -> usize { <Cow<'a, [TFive8]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tfive8_box_L(r: &mut Pr<LE>) -> Result<Box<[TFive8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tfive8_box_L(r: &mut Prc<LE>) -> Result<Box<[TFive8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tfive8_box_L(v: &Box<[TFive8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tfive8_box_L(v: &Box<[TFive8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tfive8_box_B(r: &mut Pr<BE>) -> Result<Box<[TFive8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tfive8_box_B(r: &mut Prc<BE>) -> Result<Box<[TFive8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tfive8_box_B(v: &Box<[TFive8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tfive8_box(v: &Box<[TFive8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tfive8_box() -> usize { <Box<[TFive8]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_big_L(r: &mut Pr<LE>) -> Result<Big, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_big_L(r: &mut Prc<LE>) -> Result<Big, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_big_L(v: &Big, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_big_L(v: &Big, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_big_B(r: &mut Pr<BE>) -> Result<Big, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_big_B(r: &mut Prc<BE>) -> Result<Big, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_big_B(v: &Big, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_big(v: &Big) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_big() -> usize { <Big as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_big_vec_L(r: &mut Pr<LE>) -> Result<Vec<Big>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_big_vec_L(r: &mut Prc<LE>) -> Result<Vec<Big>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_big_vec_L(v: &Vec<Big>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_big_vec_L(v: &Vec<Big>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_big_vec_B(r: &mut Pr<BE>) -> Result<Vec<Big>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_big_vec_B(r: &mut Prc<BE>) -> Result<Vec<Big>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_big_vec_B(v: &Vec<Big>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_big_vec(v: &Vec<Big>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_big_vec() -> usize { <Vec<Big> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_big_arr_L(r: &mut Pr<LE>) -> Result<[Big; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_big_arr_L(r: &mut Prc<LE>) -> Result<[Big; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_big_arr_L(v: &[Big; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_big_arr_L(v: &[Big; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_big_arr_B(r: &mut Pr<BE>) -> Result<[Big; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_big_arr_B(r: &mut Prc<BE>) -> Result<[Big; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_big_arr_B(v: &[Big; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_big_arr(v: &[Big; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_big_arr() -> usize { <[Big; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_big_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Big]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_big_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Big]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_big_cow_L<'a>(v: &Cow<'a, [Big]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_big_cow_L<'a>(v: &Cow<'a, [Big]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_big_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Big]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_big_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Big]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_big_cow_B<'a>(v: &Cow<'a, [Big]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_big_cow<'a>(v: &Cow<'a, [Big]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_big_cow<'a>() -> usize { <Cow<'a, [Big]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_big_box_L(r: &mut Pr<LE>) -> Result<Box<[Big]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_big_box_L(r: &mut Prc<LE>) -> Result<Box<[Big]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_big_box_L(v: &Box<[Big]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_big_box_L(v: &Box<[Big]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_big_box_B(r: &mut Pr<BE>) -> Result<Box<[Big]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_big_box_B(r: &mut Prc<BE>) -> Result<Box<[Big]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_big_box_B(v: &Box<[Big]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_big_box(v: &Box<[Big]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_big_box() -> usize { <Box<[Big]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tbig_L(r: &mut Pr<LE>) -> Result<TBig, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tbig_L(r: &mut Prc<LE>) -> Result<TBig, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tbig_L(v: &TBig, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tbig_L(v: &TBig, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tbig_B(r: &mut Pr<BE>) -> Result<TBig, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tbig_B(r: &mut Prc<BE>) -> Result<TBig, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tbig_B(v: &TBig, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tbig(v: &TBig) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tbig() -> usize { <TBig as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tbig_vec_L(r: &mut Pr<LE>) -> Result<Vec<TBig>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tbig_vec_L(r: &mut Prc<LE>) -> Result<Vec<TBig>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tbig_vec_L(v: &Vec<TBig>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tbig_vec_L(v: &Vec<TBig>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tbig_vec_B(r: &mut Pr<BE>) -> Result<Vec<TBig>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tbig_vec_B(r: &mut Prc<BE>) -> Result<Vec<TBig>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tbig_vec_B(v: &Vec<TBig>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tbig_vec(v: &Vec<TBig>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tbig_vec() -> usize { <Vec<TBig> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tbig_arr_L(r: &mut Pr<LE>) -> Result<[TBig; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tbig_arr_L(r: &mut Prc<LE>) -> Result<[TBig; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tbig_arr_L(v: &[TBig; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tbig_arr_L(v: &[TBig; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tbig_arr_B(r: &mut Pr<BE>) -> Result<[TBig; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tbig_arr_B(r: &mut Prc<BE>) -> Result<[TBig; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tbig_arr_B(v: &[TBig; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tbig_arr(v: &[TBig; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tbig_arr() -> usize { <[TBig; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tbig_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TBig]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tbig_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TBig]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tbig_cow_L<'a>(v: &Cow<'a, [TBig]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tbig_cow_L<'a>(v: &Cow<'a, [TBig]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tbig_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TBig]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tbig_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TBig]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tbig_cow_B<'a>(v: &Cow<'a, [TBig]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tbig_cow<'a>(v: &Cow<'a, [TBig]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tbig_cow<'a>() -> usize { <Cow<'a, [TBig]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tbig_box_L(r: &mut Pr<LE>) -> Result<Box<[TBig]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tbig_box_L(r: &mut Prc<LE>) -> Result<Box<[TBig]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tbig_box_L(v: &Box<[TBig]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tbig_box_L(v: &Box<[TBig]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tbig_box_B(r: &mut Pr<BE>) -> Result<Box<[TBig]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tbig_box_B(r: &mut Prc<BE>) -> Result<Box<[TBig]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tbig_box_B(v: &Box<[TBig]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tbig_box(v: &Box<[TBig]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tbig_box() -> usize { <Box<[TBig]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_mixed_L(r: &mut Pr<LE>) -> Result<Mixed, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_mixed_L(r: &mut Prc<LE>) -> Result<Mixed, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_mixed_L(v: &Mixed, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_mixed_L(v: &Mixed, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_mixed_B(r: &mut Pr<BE>) -> Result<Mixed, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_mixed_B(r: &mut Prc<BE>) -> Result<Mixed, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_mixed_B(v: &Mixed, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_mixed(v: &Mixed) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_mixed() -> usize { <Mixed as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_mixed_vec_L(r: &mut Pr<LE>) -> Result<Vec<Mixed>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_mixed_vec_L(r: &mut Prc<LE>) -> Result<Vec<Mixed>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_mixed_vec_L(v: &Vec<Mixed>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_mixed_vec_L(v: &Vec<Mixed>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_mixed_vec_B(r: &mut Pr<BE>) -> Result<Vec<Mixed>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_mixed_vec_B(r: &mut Prc<BE>) -> Result<Vec<Mixed>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_mixed_vec_B(v: &Vec<Mixed>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_mixed_vec(v: &Vec<Mixed>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_mixed_vec() -> usize { <Vec<Mixed> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_mixed_arr_L(r: &mut Pr<LE>) -> Result<[Mixed; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_mixed_arr_L(r: &mut Prc<LE>) -> Result<[Mixed; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_mixed_arr_L(v: &[Mixed; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_mixed_arr_L(v: &[Mixed; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_mixed_arr_B(r: &mut Pr<BE>) -> Result<[Mixed; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_mixed_arr_B(r: &mut Prc<BE>) -> Result<[Mixed; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_mixed_arr_B(v: &[Mixed; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_mixed_arr(v: &[Mixed; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_mixed_arr() -> usize { <[Mixed; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_mixed_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Mixed]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_mixed_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Mixed]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_mixed_cow_L<'a>(v: &Cow<'a, [Mixed]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_mixed_cow_L<'a>(v: &Cow<'a, [Mixed]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_mixed_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Mixed]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_mixed_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Mixed]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_mixed_cow_B<'a>(v: &Cow<'a, [Mixed]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_mixed_cow<'a>(v: &Cow<'a, [Mixed]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_mixed_cow<'a>() -> usize { <Cow<'a, [Mixed]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_mixed_box_L(r: &mut Pr<LE>) -> Result<Box<[Mixed]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_mixed_box_L(r: &mut Prc<LE>) -> Result<Box<[Mixed]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_mixed_box_L(v: &Box<[Mixed]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_mixed_box_L(v: &Box<[Mixed]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_mixed_box_B(r: &mut Pr<BE>) -> Result<Box<[Mixed]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_mixed_box_B(r: &mut Prc<BE>) -> Result<Box<[Mixed]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_mixed_box_B(v: &Box<[Mixed]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_mixed_box(v: &Box<[Mixed]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_mixed_box() -> usize { <Box<[Mixed]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tmixed_L(r: &mut Pr<LE>) -> Result<TMixed, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tmixed_L(r: &mut Prc<LE>) -> Result<TMixed, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tmixed_L(v: &TMixed, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tmixed_L(v: &TMixed, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tmixed_B(r: &mut Pr<BE>) -> Result<TMixed, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tmixed_B(r: &mut Prc<BE>) -> Result<TMixed, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tmixed_B(v: &TMixed, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tmixed(v: &TMixed) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tmixed() -> usize { <TMixed as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tmixed_vec_L(r: &mut Pr<LE>) -> Result<Vec<TMixed>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tmixed_vec_L(r: &mut Prc<LE>) -> Result<Vec<TMixed>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tmixed_vec_L(v: &Vec<TMixed>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tmixed_vec_L(v: &Vec<TMixed>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tmixed_vec_B(r: &mut Pr<BE>) -> Result<Vec<TMixed>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tmixed_vec_B(r: &mut Prc<BE>) -> Result<Vec<TMixed>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tmixed_vec_B(v: &Vec<TMixed>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tmixed_vec(v: &Vec<TMixed>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tmixed_vec() -> usize { <Vec<TMixed> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tmixed_arr_L(r: &mut Pr<LE>) -> Result<[TMixed; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tmixed_arr_L(r: &mut Prc<LE>) -> Result<[TMixed; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tmixed_arr_L(v: &[TMixed; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tmixed_arr_L(v: &[TMixed; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tmixed_arr_B(r: &mut Pr<BE>) -> Result<[TMixed; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tmixed_arr_B(r: &mut Prc<BE>) -> Result<[TMixed; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tmixed_arr_B(v: &[TMixed; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tmixed_arr(v: &[TMixed; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tmixed_arr() -> usize { <[TMixed; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tmixed_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TMixed]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tmixed_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TMixed]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tmixed_cow_L<'a>(v: &Cow<'a, [TMixed]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tmixed_cow_L<'a>(v: &Cow<'a, [TMixed]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tmixed_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TMixed]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tmixed_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TMixed]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tmixed_cow_B<'a>(v: &Cow<'a, [TMixed]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tmixed_cow<'a>(v: &Cow<'a, [TMixed]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tmixed_cow<'a>() -> usize { <Cow<'a, [TMixed]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tmixed_box_L(r: &mut Pr<LE>) -> Result<Box<[TMixed]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tmixed_box_L(r: &mut Prc<LE>) -> Result<Box<[TMixed]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tmixed_box_L(v: &Box<[TMixed]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tmixed_box_L(v: &Box<[TMixed]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tmixed_box_B(r: &mut Pr<BE>) -> Result<Box<[TMixed]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tmixed_box_B(r: &mut Prc<BE>) -> Result<Box<[TMixed]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tmixed_box_B(v: &Box<[TMixed]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tmixed_box(v: &Box<[TMixed]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tmixed_box() -> usize { <Box<[TMixed]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_q_L(r: &mut Pr<LE>) -> Result<Q, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_q_L(r: &mut Prc<LE>) -> Result<Q, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_q_L(v: &Q, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_q_L(v: &Q, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_q_B(r: &mut Pr<BE>) -> Result<Q, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_q_B(r: &mut Prc<BE>) -> Result<Q, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_q_B(v: &Q, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_q(v: &Q) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_q() -> usize { <Q as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_q_vec_L(r: &mut Pr<LE>) -> Result<Vec<Q>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_q_vec_L(r: &mut Prc<LE>) -> Result<Vec<Q>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_q_vec_L(v: &Vec<Q>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_q_vec_L(v: &Vec<Q>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_q_vec_B(r: &mut Pr<BE>) -> Result<Vec<Q>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_q_vec_B(r: &mut Prc<BE>) -> Result<Vec<Q>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_q_vec_B(v: &Vec<Q>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_q_vec(v: &Vec<Q>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_q_vec() -> usize { <Vec<Q> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_q_arr_L(r: &mut Pr<LE>) -> Result<[Q; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_q_arr_L(r: &mut Prc<LE>) -> Result<[Q; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_q_arr_L(v: &[Q; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_q_arr_L(v: &[Q; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_q_arr_B(r: &mut Pr<BE>) -> Result<[Q; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_q_arr_B(r: &mut Prc<BE>) -> Result<[Q; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_q_arr_B(v: &[Q; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_q_arr(v: &[Q; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_q_arr() -> usize { <[Q; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_q_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Q]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_q_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Q]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_q_cow_L<'a>(v: &Cow<'a, [Q]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_q_cow_L<'a>(v: &Cow<'a, [Q]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_q_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Q]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_q_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Q]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_q_cow_B<'a>(v: &Cow<'a, [Q]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_q_cow<'a>(v: &Cow<'a, [Q]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_q_cow<'a>() -> usize { <Cow<'a, [Q]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_q_box_L(r: &mut Pr<LE>) -> Result<Box<[Q]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_q_box_L(r: &mut Prc<LE>) -> Result<Box<[Q]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_q_box_L(v: &Box<[Q]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_q_box_L(v: &Box<[Q]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_q_box_B(r: &mut Pr<BE>) -> Result<Box<[Q]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_q_box_B(r: &mut Prc<BE>) -> Result<Box<[Q]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_q_box_B(v: &Box<[Q]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_q_box(v: &Box<[Q]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_q_box() -> usize { <Box<[Q]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tq_L(r: &mut Pr<LE>) -> Result<TQ, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tq_L(r: &mut Prc<LE>) -> Result<TQ, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tq_L(v: &TQ, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tq_L(v: &TQ, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tq_B(r: &mut Pr<BE>) -> Result<TQ, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tq_B(r: &mut Prc<BE>) -> Result<TQ, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tq_B(v: &TQ, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tq(v: &TQ) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tq() -> usize { <TQ as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tq_vec_L(r: &mut Pr<LE>) -> Result<Vec<TQ>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tq_vec_L(r: &mut Prc<LE>) -> Result<Vec<TQ>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tq_vec_L(v: &Vec<TQ>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tq_vec_L(v: &Vec<TQ>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tq_vec_B(r: &mut Pr<BE>) -> Result<Vec<TQ>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tq_vec_B(r: &mut Prc<BE>) -> Result<Vec<TQ>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tq_vec_B(v: &Vec<TQ>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tq_vec(v: &Vec<TQ>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tq_vec() -> usize { <Vec<TQ> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tq_arr_L(r: &mut Pr<LE>) -> Result<[TQ; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tq_arr_L(r: &mut Prc<LE>) -> Result<[TQ; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tq_arr_L(v: &[TQ; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tq_arr_L(v: &[TQ; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tq_arr_B(r: &mut Pr<BE>) -> Result<[TQ; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tq_arr_B(r: &mut Prc<BE>) -> Result<[TQ; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tq_arr_B(v: &[TQ; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tq_arr(v: &[TQ; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tq_arr() -> usize { <[TQ; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tq_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TQ]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tq_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TQ]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tq_cow_L<'a>(v: &Cow<'a, [TQ]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tq_cow_L<'a>(v: &Cow<'a, [TQ]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tq_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TQ]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tq_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TQ]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tq_cow_B<'a>(v: &Cow<'a, [TQ]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tq_cow<'a>(v: &Cow<'a, [TQ]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tq_cow<'a>() -> usize { <Cow<'a, [TQ]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tq_box_L(r: &mut Pr<LE>) -> Result<Box<[TQ]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tq_box_L(r: &mut Prc<LE>) -> Result<Box<[TQ]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tq_box_L(v: &Box<[TQ]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tq_box_L(v: &Box<[TQ]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tq_box_B(r: &mut Pr<BE>) -> Result<Box<[TQ]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tq_box_B(r: &mut Prc<BE>) -> Result<Box<[TQ]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tq_box_B(v: &Box<[TQ]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tq_box(v: &Box<[TQ]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tq_box() -> usize { <Box<[TQ]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c8_L(r: &mut Pr<LE>) -> Result<C8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c8_L(r: &mut Prc<LE>) -> Result<C8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c8_L(v: &C8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c8_L(v: &C8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c8_B(r: &mut Pr<BE>) -> Result<C8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c8_B(r: &mut Prc<BE>) -> Result<C8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c8_B(v: &C8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c8(v: &C8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c8() -> usize { <C8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c8_vec_L(r: &mut Pr<LE>) -> Result<Vec<C8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c8_vec_L(r: &mut Prc<LE>) -> Result<Vec<C8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c8_vec_L(v: &Vec<C8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c8_vec_L(v: &Vec<C8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c8_vec_B(r: &mut Pr<BE>) -> Result<Vec<C8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c8_vec_B(r: &mut Prc<BE>) -> Result<Vec<C8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c8_vec_B(v: &Vec<C8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c8_vec(v: &Vec<C8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c8_vec() -> usize { <Vec<C8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c8_arr_L(r: &mut Pr<LE>) -> Result<[C8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c8_arr_L(r: &mut Prc<LE>) -> Result<[C8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c8_arr_L(v: &[C8; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c8_arr_L(v: &[C8; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c8_arr_B(r: &mut Pr<BE>) -> Result<[C8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c8_arr_B(r: &mut Prc<BE>) -> Result<[C8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c8_arr_B(v: &[C8; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c8_arr(v: &[C8; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c8_arr() -> usize { <[C8; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c8_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [C8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_c8_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [C8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_c8_cow_L<'a>(v: &Cow<'a, [C8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c8_cow_L<'a>(v: &Cow<'a, [C8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c8_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [C8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_c8_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [C8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_c8_cow_B<'a>(v: &Cow<'a, [C8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c8_cow<'a>(v: &Cow<'a, [C8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c8_cow<'a>() -> usize { <Cow<'a, [C8]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c8_box_L(r: &mut Pr<LE>) -> Result<Box<[C8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c8_box_L(r: &mut Prc<LE>) -> Result<Box<[C8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c8_box_L(v: &Box<[C8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c8_box_L(v: &Box<[C8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c8_box_B(r: &mut Pr<BE>) -> Result<Box<[C8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c8_box_B(r: &mut Prc<BE>) -> Result<Box<[C8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c8_box_B(v: &Box<[C8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c8_box(v: &Box<[C8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c8_box() -> usize { <Box<[C8]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c16_L(r: &mut Pr<LE>) -> Result<C16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c16_L(r: &mut Prc<LE>) -> Result<C16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c16_L(v: &C16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c16_L(v: &C16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c16_B(r: &mut Pr<BE>) -> Result<C16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c16_B(r: &mut Prc<BE>) -> Result<C16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c16_B(v: &C16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c16(v: &C16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c16() -> usize { <C16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c16_vec_L(r: &mut Pr<LE>) -> Result<Vec<C16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c16_vec_L(r: &mut Prc<LE>) -> Result<Vec<C16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c16_vec_L(v: &Vec<C16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c16_vec_L(v: &Vec<C16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c16_vec_B(r: &mut Pr<BE>) -> Result<Vec<C16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c16_vec_B(r: &mut Prc<BE>) -> Result<Vec<C16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c16_vec_B(v: &Vec<C16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c16_vec(v: &Vec<C16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c16_vec() -> usize { <Vec<C16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c16_arr_L(r: &mut Pr<LE>) -> Result<[C16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c16_arr_L(r: &mut Prc<LE>) -> Result<[C16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c16_arr_L(v: &[C16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c16_arr_L(v: &[C16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c16_arr_B(r: &mut Pr<BE>) -> Result<[C16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c16_arr_B(r: &mut Prc<BE>) -> Result<[C16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c16_arr_B(v: &[C16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c16_arr(v: &[C16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c16_arr() -> usize { <[C16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c16_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [C16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_c16_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [C16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_c16_cow_L<'a>(v: &Cow<'a, [C16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c16_cow_L<'a>(v: &Cow<'a, [C16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c16_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [C16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_c16_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [C16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_c16_cow_B<'a>(v: &Cow<'a, [C16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c16_cow<'a>(v: &Cow<'a, [C16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c16_cow<'a>() -> usize { <Cow<'a, [C16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_c16_box_L(r: &mut Pr<LE>) -> Result<Box<[C16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_c16_box_L(r: &mut Prc<LE>) -> Result<Box<[C16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_c16_box_L(v: &Box<[C16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_c16_box_L(v: &Box<[C16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_c16_box_B(r: &mut Pr<BE>) -> Result<Box<[C16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_c16_box_B(r: &mut Prc<BE>) -> Result<Box<[C16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_c16_box_B(v: &Box<[C16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_c16_box(v: &Box<[C16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_c16_box() -> usize { <Box<[C16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cpad_L(r: &mut Pr<LE>) -> Result<CPad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cpad_L(r: &mut Prc<LE>) -> Result<CPad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cpad_L(v: &CPad, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cpad_L(v: &CPad, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cpad_B(r: &mut Pr<BE>) -> Result<CPad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cpad_B(r: &mut Prc<BE>) -> Result<CPad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cpad_B(v: &CPad, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cpad(v: &CPad) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cpad() -> usize { <CPad as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cpad_vec_L(r: &mut Pr<LE>) -> Result<Vec<CPad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cpad_vec_L(r: &mut Prc<LE>) -> Result<Vec<CPad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cpad_vec_L(v: &Vec<CPad>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cpad_vec_L(v: &Vec<CPad>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cpad_vec_B(r: &mut Pr<BE>) -> Result<Vec<CPad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cpad_vec_B(r: &mut Prc<BE>) -> Result<Vec<CPad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cpad_vec_B(v: &Vec<CPad>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cpad_vec(v: &Vec<CPad>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cpad_vec() -> usize { <Vec<CPad> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cpad_arr_L(r: &mut Pr<LE>) -> Result<[CPad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cpad_arr_L(r: &mut Prc<LE>) -> Result<[CPad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cpad_arr_L(v: &[CPad; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cpad_arr_L(v: &[CPad; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cpad_arr_B(r: &mut Pr<BE>) -> Result<[CPad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cpad_arr_B(r: &mut Prc<BE>) -> Result<[CPad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cpad_arr_B(v: &[CPad; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cpad_arr(v: &[CPad; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cpad_arr() -> usize { <[CPad; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cpad_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [CPad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_cpad_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [CPad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_cpad_cow_L<'a>(v: &Cow<'a, [CPad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cpad_cow_L<'a>(v: &Cow<'a, [CPad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cpad_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [CPad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_cpad_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [CPad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_cpad_cow_B<'a>(v: &Cow<'a, [CPad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cpad_cow<'a>(v: &Cow<'a, [CPad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cpad_cow<'a>() -> usize { <Cow<'a, [CPad]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cpad_box_L(r: &mut Pr<LE>) -> Result<Box<[CPad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cpad_box_L(r: &mut Prc<LE>) -> Result<Box<[CPad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cpad_box_L(v: &Box<[CPad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cpad_box_L(v: &Box<[CPad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cpad_box_B(r: &mut Pr<BE>) -> Result<Box<[CPad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cpad_box_B(r: &mut Prc<BE>) -> Result<Box<[CPad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cpad_box_B(v: &Box<[CPad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cpad_box(v: &Box<[CPad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cpad_box() -> usize { <Box<[CPad]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ctail_L(r: &mut Pr<LE>) -> Result<CTail, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ctail_L(r: &mut Prc<LE>) -> Result<CTail, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ctail_L(v: &CTail, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ctail_L(v: &CTail, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ctail_B(r: &mut Pr<BE>) -> Result<CTail, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ctail_B(r: &mut Prc<BE>) -> Result<CTail, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ctail_B(v: &CTail, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ctail(v: &CTail) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ctail() -> usize { <CTail as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ctail_vec_L(r: &mut Pr<LE>) -> Result<Vec<CTail>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ctail_vec_L(r: &mut Prc<LE>) -> Result<Vec<CTail>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ctail_vec_L(v: &Vec<CTail>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ctail_vec_L(v: &Vec<CTail>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ctail_vec_B(r: &mut Pr<BE>) -> Result<Vec<CTail>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ctail_vec_B(r: &mut Prc<BE>) -> Result<Vec<CTail>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ctail_vec_B(v: &Vec<CTail>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ctail_vec(v: &Vec<CTail>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ctail_vec() -> usize { <Vec<CTail> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ctail_arr_L(r: &mut Pr<LE>) -> Result<[CTail; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ctail_arr_L(r: &mut Prc<LE>) -> Result<[CTail; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ctail_arr_L(v: &[CTail; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ctail_arr_L(v: &[CTail; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ctail_arr_B(r: &mut Pr<BE>) -> Result<[CTail; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ctail_arr_B(r: &mut Prc<BE>) -> Result<[CTail; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ctail_arr_B(v: &[CTail; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ctail_arr(v: &[CTail; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ctail_arr() -> usize { <[CTail; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ctail_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [CTail]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_ctail_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [CTail]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_ctail_cow_L<'a>(v: &Cow<'a, [CTail]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ctail_cow_L<'a>(v: &Cow<'a, [CTail]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ctail_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [CTail]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_ctail_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [CTail]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_ctail_cow_B<'a>(v: &Cow<'a, [CTail]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ctail_cow<'a>(v: &Cow<'a, [CTail]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ctail_cow<'a>() -> usize { <Cow<'a, [CTail]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ctail_box_L(r: &mut Pr<LE>) -> Result<Box<[CTail]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ctail_box_L(r: &mut Prc<LE>) -> Result<Box<[CTail]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ctail_box_L(v: &Box<[CTail]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ctail_box_L(v: &Box<[CTail]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ctail_box_B(r: &mut Pr<BE>) -> Result<Box<[CTail]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ctail_box_B(r: &mut Prc<BE>) -> Result<Box<[CTail]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ctail_box_B(v: &Box<[CTail]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ctail_box(v: &Box<[CTail]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ctail_box() -> usize { <Box<[CTail]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cmix_L(r: &mut Pr<LE>) -> Result<CMix, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cmix_L(r: &mut Prc<LE>) -> Result<CMix, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cmix_L(v: &CMix, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cmix_L(v: &CMix, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cmix_B(r: &mut Pr<BE>) -> Result<CMix, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cmix_B(r: &mut Prc<BE>) -> Result<CMix, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cmix_B(v: &CMix, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cmix(v: &CMix) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cmix() -> usize { <CMix as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cmix_vec_L(r: &mut Pr<LE>) -> Result<Vec<CMix>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cmix_vec_L(r: &mut Prc<LE>) -> Result<Vec<CMix>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cmix_vec_L(v: &Vec<CMix>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cmix_vec_L(v: &Vec<CMix>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cmix_vec_B(r: &mut Pr<BE>) -> Result<Vec<CMix>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cmix_vec_B(r: &mut Prc<BE>) -> Result<Vec<CMix>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cmix_vec_B(v: &Vec<CMix>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cmix_vec(v: &Vec<CMix>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cmix_vec() -> usize { <Vec<CMix> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cmix_arr_L(r: &mut Pr<LE>) -> Result<[CMix; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cmix_arr_L(r: &mut Prc<LE>) -> Result<[CMix; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cmix_arr_L(v: &[CMix; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cmix_arr_L(v: &[CMix; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cmix_arr_B(r: &mut Pr<BE>) -> Result<[CMix; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cmix_arr_B(r: &mut Prc<BE>) -> Result<[CMix; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cmix_arr_B(v: &[CMix; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cmix_arr(v: &[CMix; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cmix_arr() -> usize { <[CMix; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cmix_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [CMix]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_cmix_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [CMix]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_cmix_cow_L<'a>(v: &Cow<'a, [CMix]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cmix_cow_L<'a>(v: &Cow<'a, [CMix]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cmix_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [CMix]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_cmix_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [CMix]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_cmix_cow_B<'a>(v: &Cow<'a, [CMix]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cmix_cow<'a>(v: &Cow<'a, [CMix]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cmix_cow<'a>() -> usize { <Cow<'a, [CMix]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cmix_box_L(r: &mut Pr<LE>) -> Result<Box<[CMix]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cmix_box_L(r: &mut Prc<LE>) -> Result<Box<[CMix]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cmix_box_L(v: &Box<[CMix]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cmix_box_L(v: &Box<[CMix]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cmix_box_B(r: &mut Pr<BE>) -> Result<Box<[CMix]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cmix_box_B(r: &mut Prc<BE>) -> Result<Box<[CMix]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cmix_box_B(v: &Box<[CMix]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cmix_box(v: &Box<[CMix]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cmix_box() -> usize { <Box<[CMix]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_clong_L(r: &mut Pr<LE>) -> Result<CLong, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_clong_L(r: &mut Prc<LE>) -> Result<CLong, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_clong_L(v: &CLong, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_clong_L(v: &CLong, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_clong_B(r: &mut Pr<BE>) -> Result<CLong, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_clong_B(r: &mut Prc<BE>) -> Result<CLong, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_clong_B(v: &CLong, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_clong(v: &CLong) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_clong() -> usize { <CLong as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_clong_vec_L(r: &mut Pr<LE>) -> Result<Vec<CLong>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_clong_vec_L(r: &mut Prc<LE>) -> Result<Vec<CLong>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_clong_vec_L(v: &Vec<CLong>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_clong_vec_L(v: &Vec<CLong>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_clong_vec_B(r: &mut Pr<BE>) -> Result<Vec<CLong>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_clong_vec_B(r: &mut Prc<BE>) -> Result<Vec<CLong>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_clong_vec_B(v: &Vec<CLong>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_clong_vec(v: &Vec<CLong>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_clong_vec() -> usize { <Vec<CLong> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_clong_arr_L(r: &mut Pr<LE>) -> Result<[CLong; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_clong_arr_L(r: &mut Prc<LE>) -> Result<[CLong; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_clong_arr_L(v: &[CLong; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_clong_arr_L(v: &[CLong; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_clong_arr_B(r: &mut Pr<BE>) -> Result<[CLong; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_clong_arr_B(r: &mut Prc<BE>) -> Result<[CLong; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_clong_arr_B(v: &[CLong; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_clong_arr(v: &[CLong; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_clong_arr() -> usize { <[CLong; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_clong_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [CLong]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_clong_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [CLong]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_clong_cow_L<'a>(v: &Cow<'a, [CLong]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_clong_cow_L<'a>(v: &Cow<'a, [CLong]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_clong_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [CLong]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_clong_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [CLong]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_clong_cow_B<'a>(v: &Cow<'a, [CLong]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_clong_cow<'a>(v: &Cow<'a, [CLong]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_clong_cow<'a>() -> usize { <Cow<'a, [CLong]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_clong_box_L(r: &mut Pr<LE>) -> Result<Box<[CLong]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_clong_box_L(r: &mut Prc<LE>) -> Result<Box<[CLong]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_clong_box_L(v: &Box<[CLong]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_clong_box_L(v: &Box<[CLong]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_clong_box_B(r: &mut Pr<BE>) -> Result<Box<[CLong]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_clong_box_B(r: &mut Prc<BE>) -> Result<Box<[CLong]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_clong_box_B(v: &Box<[CLong]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_clong_box(v: &Box<[CLong]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_clong_box() -> usize { <Box<[CLong]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p16_L(r: &mut Pr<LE>) -> Result<P16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p16_L(r: &mut Prc<LE>) -> Result<P16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p16_L(v: &P16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p16_L(v: &P16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p16_B(r: &mut Pr<BE>) -> Result<P16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p16_B(r: &mut Prc<BE>) -> Result<P16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p16_B(v: &P16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p16(v: &P16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p16() -> usize { <P16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p16_vec_L(r: &mut Pr<LE>) -> Result<Vec<P16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p16_vec_L(r: &mut Prc<LE>) -> Result<Vec<P16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p16_vec_L(v: &Vec<P16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p16_vec_L(v: &Vec<P16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p16_vec_B(r: &mut Pr<BE>) -> Result<Vec<P16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p16_vec_B(r: &mut Prc<BE>) -> Result<Vec<P16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p16_vec_B(v: &Vec<P16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p16_vec(v: &Vec<P16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p16_vec() -> usize { <Vec<P16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p16_arr_L(r: &mut Pr<LE>) -> Result<[P16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p16_arr_L(r: &mut Prc<LE>) -> Result<[P16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p16_arr_L(v: &[P16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p16_arr_L(v: &[P16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p16_arr_B(r: &mut Pr<BE>) -> Result<[P16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p16_arr_B(r: &mut Prc<BE>) -> Result<[P16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p16_arr_B(v: &[P16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p16_arr(v: &[P16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p16_arr() -> usize { <[P16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p16_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [P16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_p16_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [P16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_p16_cow_L<'a>(v: &Cow<'a, [P16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p16_cow_L<'a>(v: &Cow<'a, [P16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p16_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [P16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_p16_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [P16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_p16_cow_B<'a>(v: &Cow<'a, [P16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p16_cow<'a>(v: &Cow<'a, [P16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p16_cow<'a>() -> usize { <Cow<'a, [P16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p16_box_L(r: &mut Pr<LE>) -> Result<Box<[P16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p16_box_L(r: &mut Prc<LE>) -> Result<Box<[P16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p16_box_L(v: &Box<[P16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p16_box_L(v: &Box<[P16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p16_box_B(r: &mut Pr<BE>) -> Result<Box<[P16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p16_box_B(r: &mut Prc<BE>) -> Result<Box<[P16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p16_box_B(v: &Box<[P16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p16_box(v: &Box<[P16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p16_box() -> usize { <Box<[P16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pmix_L(r: &mut Pr<LE>) -> Result<PMix, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pmix_L(r: &mut Prc<LE>) -> Result<PMix, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pmix_L(v: &PMix, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pmix_L(v: &PMix, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pmix_B(r: &mut Pr<BE>) -> Result<PMix, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pmix_B(r: &mut Prc<BE>) -> Result<PMix, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pmix_B(v: &PMix, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pmix(v: &PMix) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pmix() -> usize { <PMix as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pmix_vec_L(r: &mut Pr<LE>) -> Result<Vec<PMix>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pmix_vec_L(r: &mut Prc<LE>) -> Result<Vec<PMix>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pmix_vec_L(v: &Vec<PMix>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pmix_vec_L(v: &Vec<PMix>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pmix_vec_B(r: &mut Pr<BE>) -> Result<Vec<PMix>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pmix_vec_B(r: &mut Prc<BE>) -> Result<Vec<PMix>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pmix_vec_B(v: &Vec<PMix>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pmix_vec(v: &Vec<PMix>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pmix_vec() -> usize { <Vec<PMix> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pmix_arr_L(r: &mut Pr<LE>) -> Result<[PMix; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pmix_arr_L(r: &mut Prc<LE>) -> Result<[PMix; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pmix_arr_L(v: &[PMix; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pmix_arr_L(v: &[PMix; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pmix_arr_B(r: &mut Pr<BE>) -> Result<[PMix; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pmix_arr_B(r: &mut Prc<BE>) -> Result<[PMix; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pmix_arr_B(v: &[PMix; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pmix_arr(v: &[PMix; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pmix_arr() -> usize { <[PMix; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pmix_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [PMix]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_pmix_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [PMix]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_pmix_cow_L<'a>(v: &Cow<'a, [PMix]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pmix_cow_L<'a>(v: &Cow<'a, [PMix]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pmix_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [PMix]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_pmix_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [PMix]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_pmix_cow_B<'a>(v: &Cow<'a, [PMix]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pmix_cow<'a>(v: &Cow<'a, [PMix]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pmix_cow<'a>() -> usize { <Cow<'a, [PMix]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pmix_box_L(r: &mut Pr<LE>) -> Result<Box<[PMix]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pmix_box_L(r: &mut Prc<LE>) -> Result<Box<[PMix]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pmix_box_L(v: &Box<[PMix]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pmix_box_L(v: &Box<[PMix]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pmix_box_B(r: &mut Pr<BE>) -> Result<Box<[PMix]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pmix_box_B(r: &mut Prc<BE>) -> Result<Box<[PMix]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pmix_box_B(v: &Box<[PMix]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pmix_box(v: &Box<[PMix]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pmix_box() -> usize { <Box<[PMix]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p64_L(r: &mut Pr<LE>) -> Result<P64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p64_L(r: &mut Prc<LE>) -> Result<P64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p64_L(v: &P64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p64_L(v: &P64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p64_B(r: &mut Pr<BE>) -> Result<P64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p64_B(r: &mut Prc<BE>) -> Result<P64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p64_B(v: &P64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p64(v: &P64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p64() -> usize { <P64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p64_vec_L(r: &mut Pr<LE>) -> Result<Vec<P64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p64_vec_L(r: &mut Prc<LE>) -> Result<Vec<P64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p64_vec_L(v: &Vec<P64>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p64_vec_L(v: &Vec<P64>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p64_vec_B(r: &mut Pr<BE>) -> Result<Vec<P64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p64_vec_B(r: &mut Prc<BE>) -> Result<Vec<P64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p64_vec_B(v: &Vec<P64>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p64_vec(v: &Vec<P64>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p64_vec() -> usize { <Vec<P64> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p64_arr_L(r: &mut Pr<LE>) -> Result<[P64; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p64_arr_L(r: &mut Prc<LE>) -> Result<[P64; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p64_arr_L(v: &[P64; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p64_arr_L(v: &[P64; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p64_arr_B(r: &mut Pr<BE>) -> Result<[P64; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p64_arr_B(r: &mut Prc<BE>) -> Result<[P64; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p64_arr_B(v: &[P64; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p64_arr(v: &[P64; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p64_arr() -> usize { <[P64; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p64_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [P64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_p64_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [P64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_p64_cow_L<'a>(v: &Cow<'a, [P64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p64_cow_L<'a>(v: &Cow<'a, [P64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p64_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [P64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_p64_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [P64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_p64_cow_B<'a>(v: &Cow<'a, [P64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p64_cow<'a>(v: &Cow<'a, [P64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p64_cow<'a>() -> usize { <Cow<'a, [P64]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_p64_box_L(r: &mut Pr<LE>) -> Result<Box<[P64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_p64_box_L(r: &mut Prc<LE>) -> Result<Box<[P64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_p64_box_L(v: &Box<[P64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_p64_box_L(v: &Box<[P64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_p64_box_B(r: &mut Pr<BE>) -> Result<Box<[P64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_p64_box_B(r: &mut Prc<BE>) -> Result<Box<[P64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_p64_box_B(v: &Box<[P64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_p64_box(v: &Box<[P64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_p64_box() -> usize { <Box<[P64]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pone_L(r: &mut Pr<LE>) -> Result<POne, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pone_L(r: &mut Prc<LE>) -> Result<POne, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pone_L(v: &POne, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pone_L(v: &POne, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pone_B(r: &mut Pr<BE>) -> Result<POne, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pone_B(r: &mut Prc<BE>) -> Result<POne, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pone_B(v: &POne, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pone(v: &POne) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pone() -> usize { <POne as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pone_vec_L(r: &mut Pr<LE>) -> Result<Vec<POne>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pone_vec_L(r: &mut Prc<LE>) -> Result<Vec<POne>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pone_vec_L(v: &Vec<POne>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pone_vec_L(v: &Vec<POne>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pone_vec_B(r: &mut Pr<BE>) -> Result<Vec<POne>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pone_vec_B(r: &mut Prc<BE>) -> Result<Vec<POne>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pone_vec_B(v: &Vec<POne>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pone_vec(v: &Vec<POne>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pone_vec() -> usize { <Vec<POne> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pone_arr_L(r: &mut Pr<LE>) -> Result<[POne; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pone_arr_L(r: &mut Prc<LE>) -> Result<[POne; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pone_arr_L(v: &[POne; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pone_arr_L(v: &[POne; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pone_arr_B(r: &mut Pr<BE>) -> Result<[POne; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pone_arr_B(r: &mut Prc<BE>) -> Result<[POne; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pone_arr_B(v: &[POne; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pone_arr(v: &[POne; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pone_arr() -> usize { <[POne; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pone_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [POne]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_pone_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [POne]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_pone_cow_L<'a>(v: &Cow<'a, [POne]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pone_cow_L<'a>(v: &Cow<'a, [POne]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pone_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [POne]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_pone_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [POne]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_pone_cow_B<'a>(v: &Cow<'a, [POne]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pone_cow<'a>(v: &Cow<'a, [POne]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pone_cow<'a>() -> usize { <Cow<'a, [POne]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pone_box_L(r: &mut Pr<LE>) -> Result<Box<[POne]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pone_box_L(r: &mut Prc<LE>) -> Result<Box<[POne]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pone_box_L(v: &Box<[POne]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pone_box_L(v: &Box<[POne]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pone_box_B(r: &mut Pr<BE>) -> Result<Box<[POne]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pone_box_B(r: &mut Prc<BE>) -> Result<Box<[POne]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pone_box_B(v: &Box<[POne]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pone_box(v: &Box<[POne]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pone_box() -> usize { <Box<[POne]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr8_L(r: &mut Pr<LE>) -> Result<Tr8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr8_L(r: &mut Prc<LE>) -> Result<Tr8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr8_L(v: &Tr8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr8_L(v: &Tr8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr8_B(r: &mut Pr<BE>) -> Result<Tr8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr8_B(r: &mut Prc<BE>) -> Result<Tr8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr8_B(v: &Tr8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr8(v: &Tr8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr8() -> usize { <Tr8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr8_vec_L(r: &mut Pr<LE>) -> Result<Vec<Tr8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr8_vec_L(r: &mut Prc<LE>) -> Result<Vec<Tr8>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr8_vec_L(v: &Vec<Tr8>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr8_vec_L(v: &Vec<Tr8>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr8_vec_B(r: &mut Pr<BE>) -> Result<Vec<Tr8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr8_vec_B(r: &mut Prc<BE>) -> Result<Vec<Tr8>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr8_vec_B(v: &Vec<Tr8>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr8_vec(v: &Vec<Tr8>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr8_vec() -> usize { <Vec<Tr8> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr8_arr_L(r: &mut Pr<LE>) -> Result<[Tr8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr8_arr_L(r: &mut Prc<LE>) -> Result<[Tr8; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr8_arr_L(v: &[Tr8; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr8_arr_L(v: &[Tr8; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr8_arr_B(r: &mut Pr<BE>) -> Result<[Tr8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr8_arr_B(r: &mut Prc<BE>) -> Result<[Tr8; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr8_arr_B(v: &[Tr8; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr8_arr(v: &[Tr8; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr8_arr() -> usize { <[Tr8; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr8_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Tr8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tr8_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Tr8]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tr8_cow_L<'a>(v: &Cow<'a, [Tr8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr8_cow_L<'a>(v: &Cow<'a, [Tr8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr8_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Tr8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tr8_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Tr8]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tr8_cow_B<'a>(v: &Cow<'a, [Tr8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr8_cow<'a>(v: &Cow<'a, [Tr8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr8_cow<'a>() -> usize { <Cow<'a, [Tr8]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr8_box_L(r: &mut Pr<LE>) -> Result<Box<[Tr8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr8_box_L(r: &mut Prc<LE>) -> Result<Box<[Tr8]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr8_box_L(v: &Box<[Tr8]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr8_box_L(v: &Box<[Tr8]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr8_box_B(r: &mut Pr<BE>) -> Result<Box<[Tr8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr8_box_B(r: &mut Prc<BE>) -> Result<Box<[Tr8]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr8_box_B(v: &Box<[Tr8]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr8_box(v: &Box<[Tr8]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr8_box() -> usize { <Box<[Tr8]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr16_L(r: &mut Pr<LE>) -> Result<Tr16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr16_L(r: &mut Prc<LE>) -> Result<Tr16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr16_L(v: &Tr16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr16_L(v: &Tr16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr16_B(r: &mut Pr<BE>) -> Result<Tr16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr16_B(r: &mut Prc<BE>) -> Result<Tr16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr16_B(v: &Tr16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr16(v: &Tr16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr16() -> usize { <Tr16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr16_vec_L(r: &mut Pr<LE>) -> Result<Vec<Tr16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr16_vec_L(r: &mut Prc<LE>) -> Result<Vec<Tr16>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr16_vec_L(v: &Vec<Tr16>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr16_vec_L(v: &Vec<Tr16>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr16_vec_B(r: &mut Pr<BE>) -> Result<Vec<Tr16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr16_vec_B(r: &mut Prc<BE>) -> Result<Vec<Tr16>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr16_vec_B(v: &Vec<Tr16>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr16_vec(v: &Vec<Tr16>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr16_vec() -> usize { <Vec<Tr16> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr16_arr_L(r: &mut Pr<LE>) -> Result<[Tr16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr16_arr_L(r: &mut Prc<LE>) -> Result<[Tr16; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr16_arr_L(v: &[Tr16; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr16_arr_L(v: &[Tr16; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr16_arr_B(r: &mut Pr<BE>) -> Result<[Tr16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr16_arr_B(r: &mut Prc<BE>) -> Result<[Tr16; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr16_arr_B(v: &[Tr16; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr16_arr(v: &[Tr16; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr16_arr() -> usize { <[Tr16; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr16_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Tr16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tr16_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Tr16]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tr16_cow_L<'a>(v: &Cow<'a, [Tr16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr16_cow_L<'a>(v: &Cow<'a, [Tr16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr16_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Tr16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tr16_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Tr16]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tr16_cow_B<'a>(v: &Cow<'a, [Tr16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr16_cow<'a>(v: &Cow<'a, [Tr16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr16_cow<'a>() -> usize { <Cow<'a, [Tr16]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr16_box_L(r: &mut Pr<LE>) -> Result<Box<[Tr16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr16_box_L(r: &mut Prc<LE>) -> Result<Box<[Tr16]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr16_box_L(v: &Box<[Tr16]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr16_box_L(v: &Box<[Tr16]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr16_box_B(r: &mut Pr<BE>) -> Result<Box<[Tr16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr16_box_B(r: &mut Prc<BE>) -> Result<Box<[Tr16]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr16_box_B(v: &Box<[Tr16]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr16_box(v: &Box<[Tr16]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr16_box() -> usize { <Box<[Tr16]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr64_L(r: &mut Pr<LE>) -> Result<Tr64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr64_L(r: &mut Prc<LE>) -> Result<Tr64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr64_L(v: &Tr64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr64_L(v: &Tr64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr64_B(r: &mut Pr<BE>) -> Result<Tr64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr64_B(r: &mut Prc<BE>) -> Result<Tr64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr64_B(v: &Tr64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr64(v: &Tr64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr64() -> usize { <Tr64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr64_vec_L(r: &mut Pr<LE>) -> Result<Vec<Tr64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr64_vec_L(r: &mut Prc<LE>) -> Result<Vec<Tr64>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr64_vec_L(v: &Vec<Tr64>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr64_vec_L(v: &Vec<Tr64>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr64_vec_B(r: &mut Pr<BE>) -> Result<Vec<Tr64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr64_vec_B(r: &mut Prc<BE>) -> Result<Vec<Tr64>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr64_vec_B(v: &Vec<Tr64>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr64_vec(v: &Vec<Tr64>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr64_vec() -> usize { <Vec<Tr64> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr64_arr_L(r: &mut Pr<LE>) -> Result<[Tr64; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr64_arr_L(r: &mut Prc<LE>) -> Result<[Tr64; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr64_arr_L(v: &[Tr64; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr64_arr_L(v: &[Tr64; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr64_arr_B(r: &mut Pr<BE>) -> Result<[Tr64; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr64_arr_B(r: &mut Prc<BE>) -> Result<[Tr64; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr64_arr_B(v: &[Tr64; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr64_arr(v: &[Tr64; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr64_arr() -> usize { <[Tr64; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr64_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Tr64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_tr64_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Tr64]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_tr64_cow_L<'a>(v: &Cow<'a, [Tr64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr64_cow_L<'a>(v: &Cow<'a, [Tr64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr64_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Tr64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_tr64_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Tr64]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_tr64_cow_B<'a>(v: &Cow<'a, [Tr64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr64_cow<'a>(v: &Cow<'a, [Tr64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr64_cow<'a>() -> usize { <Cow<'a, [Tr64]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tr64_box_L(r: &mut Pr<LE>) -> Result<Box<[Tr64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tr64_box_L(r: &mut Prc<LE>) -> Result<Box<[Tr64]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tr64_box_L(v: &Box<[Tr64]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tr64_box_L(v: &Box<[Tr64]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tr64_box_B(r: &mut Pr<BE>) -> Result<Box<[Tr64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tr64_box_B(r: &mut Prc<BE>) -> Result<Box<[Tr64]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tr64_box_B(v: &Box<[Tr64]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tr64_box(v: &Box<[Tr64]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tr64_box() -> usize { <Box<[Tr64]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trn_L(r: &mut Pr<LE>) -> Result<TrN, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trn_L(r: &mut Prc<LE>) -> Result<TrN, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trn_L(v: &TrN, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trn_L(v: &TrN, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trn_B(r: &mut Pr<BE>) -> Result<TrN, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trn_B(r: &mut Prc<BE>) -> Result<TrN, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trn_B(v: &TrN, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trn(v: &TrN) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trn() -> usize { <TrN as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trn_vec_L(r: &mut Pr<LE>) -> Result<Vec<TrN>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trn_vec_L(r: &mut Prc<LE>) -> Result<Vec<TrN>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trn_vec_L(v: &Vec<TrN>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trn_vec_L(v: &Vec<TrN>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trn_vec_B(r: &mut Pr<BE>) -> Result<Vec<TrN>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trn_vec_B(r: &mut Prc<BE>) -> Result<Vec<TrN>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trn_vec_B(v: &Vec<TrN>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trn_vec(v: &Vec<TrN>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trn_vec() -> usize { <Vec<TrN> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trn_arr_L(r: &mut Pr<LE>) -> Result<[TrN; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trn_arr_L(r: &mut Prc<LE>) -> Result<[TrN; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trn_arr_L(v: &[TrN; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trn_arr_L(v: &[TrN; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trn_arr_B(r: &mut Pr<BE>) -> Result<[TrN; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trn_arr_B(r: &mut Prc<BE>) -> Result<[TrN; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trn_arr_B(v: &[TrN; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trn_arr(v: &[TrN; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trn_arr() -> usize { <[TrN; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trn_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TrN]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_trn_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TrN]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_trn_cow_L<'a>(v: &Cow<'a, [TrN]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trn_cow_L<'a>(v: &Cow<'a, [TrN]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trn_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TrN]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_trn_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TrN]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_trn_cow_B<'a>(v: &Cow<'a, [TrN]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trn_cow<'a>(v: &Cow<'a, [TrN]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trn_cow<'a>() -> usize { <Cow<'a, [TrN]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trn_box_L(r: &mut Pr<LE>) -> Result<Box<[TrN]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trn_box_L(r: &mut Prc<LE>) -> Result<Box<[TrN]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trn_box_L(v: &Box<[TrN]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trn_box_L(v: &Box<[TrN]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trn_box_B(r: &mut Pr<BE>) -> Result<Box<[TrN]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trn_box_B(r: &mut Prc<BE>) -> Result<Box<[TrN]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trn_box_B(v: &Box<[TrN]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trn_box(v: &Box<[TrN]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trn_box() -> usize { <Box<[TrN]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_al_L(r: &mut Pr<LE>) -> Result<Al, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_al_L(r: &mut Prc<LE>) -> Result<Al, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_al_L(v: &Al, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_al_L(v: &Al, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_al_B(r: &mut Pr<BE>) -> Result<Al, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_al_B(r: &mut Prc<BE>) -> Result<Al, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_al_B(v: &Al, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_al(v: &Al) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_al() -> usize { <Al as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_al_vec_L(r: &mut Pr<LE>) -> Result<Vec<Al>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_al_vec_L(r: &mut Prc<LE>) -> Result<Vec<Al>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_al_vec_L(v: &Vec<Al>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_al_vec_L(v: &Vec<Al>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_al_vec_B(r: &mut Pr<BE>) -> Result<Vec<Al>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_al_vec_B(r: &mut Prc<BE>) -> Result<Vec<Al>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_al_vec_B(v: &Vec<Al>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_al_vec(v: &Vec<Al>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_al_vec() -> usize { <Vec<Al> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_al_arr_L(r: &mut Pr<LE>) -> Result<[Al; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_al_arr_L(r: &mut Prc<LE>) -> Result<[Al; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_al_arr_L(v: &[Al; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_al_arr_L(v: &[Al; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_al_arr_B(r: &mut Pr<BE>) -> Result<[Al; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_al_arr_B(r: &mut Prc<BE>) -> Result<[Al; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_al_arr_B(v: &[Al; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_al_arr(v: &[Al; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_al_arr() -> usize { <[Al; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_al_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Al]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_al_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Al]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_al_cow_L<'a>(v: &Cow<'a, [Al]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_al_cow_L<'a>(v: &Cow<'a, [Al]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_al_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Al]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_al_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Al]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_al_cow_B<'a>(v: &Cow<'a, [Al]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_al_cow<'a>(v: &Cow<'a, [Al]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_al_cow<'a>() -> usize { <Cow<'a, [Al]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_al_box_L(r: &mut Pr<LE>) -> Result<Box<[Al]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_al_box_L(r: &mut Prc<LE>) -> Result<Box<[Al]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_al_box_L(v: &Box<[Al]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_al_box_L(v: &Box<[Al]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_al_box_B(r: &mut Pr<BE>) -> Result<Box<[Al]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_al_box_B(r: &mut Prc<BE>) -> Result<Box<[Al]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_al_box_B(v: &Box<[Al]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_al_box(v: &Box<[Al]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_al_box() -> usize { <Box<[Al]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cal_L(r: &mut Pr<LE>) -> Result<CAl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cal_L(r: &mut Prc<LE>) -> Result<CAl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cal_L(v: &CAl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cal_L(v: &CAl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cal_B(r: &mut Pr<BE>) -> Result<CAl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cal_B(r: &mut Prc<BE>) -> Result<CAl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cal_B(v: &CAl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cal(v: &CAl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cal() -> usize { <CAl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cal_vec_L(r: &mut Pr<LE>) -> Result<Vec<CAl>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cal_vec_L(r: &mut Prc<LE>) -> Result<Vec<CAl>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cal_vec_L(v: &Vec<CAl>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cal_vec_L(v: &Vec<CAl>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cal_vec_B(r: &mut Pr<BE>) -> Result<Vec<CAl>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cal_vec_B(r: &mut Prc<BE>) -> Result<Vec<CAl>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cal_vec_B(v: &Vec<CAl>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cal_vec(v: &Vec<CAl>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cal_vec() -> usize { <Vec<CAl> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cal_arr_L(r: &mut Pr<LE>) -> Result<[CAl; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cal_arr_L(r: &mut Prc<LE>) -> Result<[CAl; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cal_arr_L(v: &[CAl; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cal_arr_L(v: &[CAl; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cal_arr_B(r: &mut Pr<BE>) -> Result<[CAl; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cal_arr_B(r: &mut Prc<BE>) -> Result<[CAl; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cal_arr_B(v: &[CAl; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cal_arr(v: &[CAl; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cal_arr() -> usize { <[CAl; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cal_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [CAl]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_cal_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [CAl]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_cal_cow_L<'a>(v: &Cow<'a, [CAl]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cal_cow_L<'a>(v: &Cow<'a, [CAl]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cal_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [CAl]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_cal_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [CAl]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_cal_cow_B<'a>(v: &Cow<'a, [CAl]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cal_cow<'a>(v: &Cow<'a, [CAl]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cal_cow<'a>() -> usize { <Cow<'a, [CAl]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_cal_box_L(r: &mut Pr<LE>) -> Result<Box<[CAl]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_cal_box_L(r: &mut Prc<LE>) -> Result<Box<[CAl]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_cal_box_L(v: &Box<[CAl]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_cal_box_L(v: &Box<[CAl]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_cal_box_B(r: &mut Pr<BE>) -> Result<Box<[CAl]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_cal_box_B(r: &mut Prc<BE>) -> Result<Box<[CAl]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_cal_box_B(v: &Box<[CAl]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_cal_box(v: &Box<[CAl]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_cal_box() -> usize { <Box<[CAl]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner_L(r: &mut Pr<LE>) -> Result<Inner, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner_L(r: &mut Prc<LE>) -> Result<Inner, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner_L(v: &Inner, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner_L(v: &Inner, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner_B(r: &mut Pr<BE>) -> Result<Inner, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner_B(r: &mut Prc<BE>) -> Result<Inner, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner_B(v: &Inner, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner(v: &Inner) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner() -> usize { <Inner as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner_vec_L(r: &mut Pr<LE>) -> Result<Vec<Inner>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner_vec_L(r: &mut Prc<LE>) -> Result<Vec<Inner>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner_vec_L(v: &Vec<Inner>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner_vec_L(v: &Vec<Inner>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner_vec_B(r: &mut Pr<BE>) -> Result<Vec<Inner>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner_vec_B(r: &mut Prc<BE>) -> Result<Vec<Inner>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner_vec_B(v: &Vec<Inner>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner_vec(v: &Vec<Inner>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner_vec() -> usize { <Vec<Inner> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner_arr_L(r: &mut Pr<LE>) -> Result<[Inner; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner_arr_L(r: &mut Prc<LE>) -> Result<[Inner; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner_arr_L(v: &[Inner; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner_arr_L(v: &[Inner; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner_arr_B(r: &mut Pr<BE>) -> Result<[Inner; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner_arr_B(r: &mut Prc<BE>) -> Result<[Inner; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner_arr_B(v: &[Inner; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner_arr(v: &[Inner; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner_arr() -> usize { <[Inner; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Inner]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_inner_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Inner]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_inner_cow_L<'a>(v: &Cow<'a, [Inner]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner_cow_L<'a>(v: &Cow<'a, [Inner]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Inner]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_inner_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Inner]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_inner_cow_B<'a>(v: &Cow<'a, [Inner]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner_cow<'a>(v: &Cow<'a, [Inner]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner_cow<'a>() -> usize { <Cow<'a, [Inner]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner_box_L(r: &mut Pr<LE>) -> Result<Box<[Inner]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner_box_L(r: &mut Prc<LE>) -> Result<Box<[Inner]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner_box_L(v: &Box<[Inner]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner_box_L(v: &Box<[Inner]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner_box_B(r: &mut Pr<BE>) -> Result<Box<[Inner]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner_box_B(r: &mut Prc<BE>) -> Result<Box<[Inner]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner_box_B(v: &Box<[Inner]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner_box(v: &Box<[Inner]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner_box() -> usize { <Box<[Inner]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner2_L(r: &mut Pr<LE>) -> Result<Inner2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner2_L(r: &mut Prc<LE>) -> Result<Inner2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner2_L(v: &Inner2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner2_L(v: &Inner2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner2_B(r: &mut Pr<BE>) -> Result<Inner2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner2_B(r: &mut Prc<BE>) -> Result<Inner2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner2_B(v: &Inner2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner2(v: &Inner2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner2() -> usize { <Inner2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner2_vec_L(r: &mut Pr<LE>) -> Result<Vec<Inner2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner2_vec_L(r: &mut Prc<LE>) -> Result<Vec<Inner2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner2_vec_L(v: &Vec<Inner2>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner2_vec_L(v: &Vec<Inner2>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner2_vec_B(r: &mut Pr<BE>) -> Result<Vec<Inner2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner2_vec_B(r: &mut Prc<BE>) -> Result<Vec<Inner2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner2_vec_B(v: &Vec<Inner2>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner2_vec(v: &Vec<Inner2>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner2_vec() -> usize { <Vec<Inner2> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner2_arr_L(r: &mut Pr<LE>) -> Result<[Inner2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner2_arr_L(r: &mut Prc<LE>) -> Result<[Inner2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner2_arr_L(v: &[Inner2; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner2_arr_L(v: &[Inner2; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner2_arr_B(r: &mut Pr<BE>) -> Result<[Inner2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner2_arr_B(r: &mut Prc<BE>) -> Result<[Inner2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner2_arr_B(v: &[Inner2; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner2_arr(v: &[Inner2; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner2_arr() -> usize { <[Inner2; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner2_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Inner2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_inner2_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Inner2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_inner2_cow_L<'a>(v: &Cow<'a, [Inner2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner2_cow_L<'a>(v: &Cow<'a, [Inner2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner2_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Inner2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_inner2_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Inner2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_inner2_cow_B<'a>(v: &Cow<'a, [Inner2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner2_cow<'a>(v: &Cow<'a, [Inner2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner2_cow<'a>() -> usize { <Cow<'a, [Inner2]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_inner2_box_L(r: &mut Pr<LE>) -> Result<Box<[Inner2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_inner2_box_L(r: &mut Prc<LE>) -> Result<Box<[Inner2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_inner2_box_L(v: &Box<[Inner2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_inner2_box_L(v: &Box<[Inner2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_inner2_box_B(r: &mut Pr<BE>) -> Result<Box<[Inner2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_inner2_box_B(r: &mut Prc<BE>) -> Result<Box<[Inner2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_inner2_box_B(v: &Box<[Inner2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_inner2_box(v: &Box<[Inner2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_inner2_box() -> usize { <Box<[Inner2]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_innerpad_L(r: &mut Pr<LE>) -> Result<InnerPad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_innerpad_L(r: &mut Prc<LE>) -> Result<InnerPad, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_innerpad_L(v: &InnerPad, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_innerpad_L(v: &InnerPad, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_innerpad_B(r: &mut Pr<BE>) -> Result<InnerPad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_innerpad_B(r: &mut Prc<BE>) -> Result<InnerPad, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_innerpad_B(v: &InnerPad, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_innerpad(v: &InnerPad) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_innerpad() -> usize { <InnerPad as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_innerpad_vec_L(r: &mut Pr<LE>) -> Result<Vec<InnerPad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_innerpad_vec_L(r: &mut Prc<LE>) -> Result<Vec<InnerPad>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_innerpad_vec_L(v: &Vec<InnerPad>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_innerpad_vec_L(v: &Vec<InnerPad>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_innerpad_vec_B(r: &mut Pr<BE>) -> Result<Vec<InnerPad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_innerpad_vec_B(r: &mut Prc<BE>) -> Result<Vec<InnerPad>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_innerpad_vec_B(v: &Vec<InnerPad>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_innerpad_vec(v: &Vec<InnerPad>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_innerpad_vec() -> usize { <Vec<InnerPad> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_innerpad_arr_L(r: &mut Pr<LE>) -> Result<[InnerPad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_innerpad_arr_L(r: &mut Prc<LE>) -> Result<[InnerPad; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_innerpad_arr_L(v: &[InnerPad; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_innerpad_arr_L(v: &[InnerPad; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_innerpad_arr_B(r: &mut Pr<BE>) -> Result<[InnerPad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_innerpad_arr_B(r: &mut Prc<BE>) -> Result<[InnerPad; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_innerpad_arr_B(v: &[InnerPad; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_innerpad_arr(v: &[InnerPad; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_innerpad_arr() -> usize { <[InnerPad; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_innerpad_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [InnerPad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_innerpad_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [InnerPad]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_innerpad_cow_L<'a>(v: &Cow<'a, [InnerPad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_innerpad_cow_L<'a>(v: &Cow<'a, [InnerPad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_innerpad_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [InnerPad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_innerpad_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [InnerPad]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_innerpad_cow_B<'a>(v: &Cow<'a, [InnerPad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_innerpad_cow<'a>(v: &Cow<'a, [InnerPad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_innerpad_cow<'a>() -> usize { <Cow<'a, [InnerPad]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_innerpad_box_L(r: &mut Pr<LE>) -> Result<Box<[InnerPad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_innerpad_box_L(r: &mut Prc<LE>) -> Result<Box<[InnerPad]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_innerpad_box_L(v: &Box<[InnerPad]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_innerpad_box_L(v: &Box<[InnerPad]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_innerpad_box_B(r: &mut Pr<BE>) -> Result<Box<[InnerPad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_innerpad_box_B(r: &mut Prc<BE>) -> Result<Box<[InnerPad]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_innerpad_box_B(v: &Box<[InnerPad]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_innerpad_box(v: &Box<[InnerPad]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_innerpad_box() -> usize { <Box<[InnerPad]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trin_L(r: &mut Pr<LE>) -> Result<TrIn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trin_L(r: &mut Prc<LE>) -> Result<TrIn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trin_L(v: &TrIn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trin_L(v: &TrIn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trin_B(r: &mut Pr<BE>) -> Result<TrIn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trin_B(r: &mut Prc<BE>) -> Result<TrIn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trin_B(v: &TrIn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trin(v: &TrIn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trin() -> usize { <TrIn as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trin_vec_L(r: &mut Pr<LE>) -> Result<Vec<TrIn>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trin_vec_L(r: &mut Prc<LE>) -> Result<Vec<TrIn>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trin_vec_L(v: &Vec<TrIn>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trin_vec_L(v: &Vec<TrIn>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trin_vec_B(r: &mut Pr<BE>) -> Result<Vec<TrIn>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trin_vec_B(r: &mut Prc<BE>) -> Result<Vec<TrIn>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trin_vec_B(v: &Vec<TrIn>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trin_vec(v: &Vec<TrIn>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trin_vec() -> usize { <Vec<TrIn> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trin_arr_L(r: &mut Pr<LE>) -> Result<[TrIn; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trin_arr_L(r: &mut Prc<LE>) -> Result<[TrIn; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trin_arr_L(v: &[TrIn; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trin_arr_L(v: &[TrIn; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trin_arr_B(r: &mut Pr<BE>) -> Result<[TrIn; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trin_arr_B(r: &mut Prc<BE>) -> Result<[TrIn; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trin_arr_B(v: &[TrIn; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trin_arr(v: &[TrIn; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trin_arr() -> usize { <[TrIn; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trin_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TrIn]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_trin_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TrIn]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_trin_cow_L<'a>(v: &Cow<'a, [TrIn]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trin_cow_L<'a>(v: &Cow<'a, [TrIn]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trin_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TrIn]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_trin_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TrIn]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_trin_cow_B<'a>(v: &Cow<'a, [TrIn]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trin_cow<'a>(v: &Cow<'a, [TrIn]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trin_cow<'a>() -> usize { <Cow<'a, [TrIn]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trin_box_L(r: &mut Pr<LE>) -> Result<Box<[TrIn]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trin_box_L(r: &mut Prc<LE>) -> Result<Box<[TrIn]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trin_box_L(v: &Box<[TrIn]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trin_box_L(v: &Box<[TrIn]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trin_box_B(r: &mut Pr<BE>) -> Result<Box<[TrIn]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trin_box_B(r: &mut Prc<BE>) -> Result<Box<[TrIn]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trin_box_B(v: &Box<[TrIn]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trin_box(v: &Box<[TrIn]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trin_box() -> usize { <Box<[TrIn]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trreo_L(r: &mut Pr<LE>) -> Result<TrReo, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trreo_L(r: &mut Prc<LE>) -> Result<TrReo, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trreo_L(v: &TrReo, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trreo_L(v: &TrReo, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trreo_B(r: &mut Pr<BE>) -> Result<TrReo, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trreo_B(r: &mut Prc<BE>) -> Result<TrReo, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trreo_B(v: &TrReo, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trreo(v: &TrReo) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trreo() -> usize { <TrReo as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trreo_vec_L(r: &mut Pr<LE>) -> Result<Vec<TrReo>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trreo_vec_L(r: &mut Prc<LE>) -> Result<Vec<TrReo>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trreo_vec_L(v: &Vec<TrReo>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trreo_vec_L(v: &Vec<TrReo>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trreo_vec_B(r: &mut Pr<BE>) -> Result<Vec<TrReo>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trreo_vec_B(r: &mut Prc<BE>) -> Result<Vec<TrReo>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trreo_vec_B(v: &Vec<TrReo>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trreo_vec(v: &Vec<TrReo>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trreo_vec() -> usize { <Vec<TrReo> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trreo_arr_L(r: &mut Pr<LE>) -> Result<[TrReo; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trreo_arr_L(r: &mut Prc<LE>) -> Result<[TrReo; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trreo_arr_L(v: &[TrReo; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trreo_arr_L(v: &[TrReo; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trreo_arr_B(r: &mut Pr<BE>) -> Result<[TrReo; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trreo_arr_B(r: &mut Prc<BE>) -> Result<[TrReo; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trreo_arr_B(v: &[TrReo; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trreo_arr(v: &[TrReo; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trreo_arr() -> usize { <[TrReo; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trreo_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TrReo]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_trreo_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TrReo]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_trreo_cow_L<'a>(v: &Cow<'a, [TrReo]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trreo_cow_L<'a>(v: &Cow<'a, [TrReo]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trreo_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TrReo]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_trreo_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TrReo]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_trreo_cow_B<'a>(v: &Cow<'a, [TrReo]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trreo_cow<'a>(v: &Cow<'a, [TrReo]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trreo_cow<'a>() -> usize { <Cow<'a, [TrReo]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trreo_box_L(r: &mut Pr<LE>) -> Result<Box<[TrReo]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trreo_box_L(r: &mut Prc<LE>) -> Result<Box<[TrReo]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trreo_box_L(v: &Box<[TrReo]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trreo_box_L(v: &Box<[TrReo]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trreo_box_B(r: &mut Pr<BE>) -> Result<Box<[TrReo]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trreo_box_B(r: &mut Prc<BE>) -> Result<Box<[TrReo]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trreo_box_B(v: &Box<[TrReo]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trreo_box(v: &Box<[TrReo]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trreo_box() -> usize { <Box<[TrReo]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trvec_L(r: &mut Pr<LE>) -> Result<TrVec, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trvec_L(r: &mut Prc<LE>) -> Result<TrVec, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trvec_L(v: &TrVec, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trvec_L(v: &TrVec, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trvec_B(r: &mut Pr<BE>) -> Result<TrVec, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trvec_B(r: &mut Prc<BE>) -> Result<TrVec, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trvec_B(v: &TrVec, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trvec(v: &TrVec) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trvec() -> usize { <TrVec as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trgen_L(r: &mut Pr<LE>) -> Result<TrGen<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trgen_L(r: &mut Prc<LE>) -> Result<TrGen<u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trgen_L(v: &TrGen<u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trgen_L(v: &TrGen<u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trgen_B(r: &mut Pr<BE>) -> Result<TrGen<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trgen_B(r: &mut Prc<BE>) -> Result<TrGen<u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trgen_B(v: &TrGen<u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trgen(v: &TrGen<u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trgen() -> usize { <TrGen<u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trgen_vec_L(r: &mut Pr<LE>) -> Result<Vec<TrGen<u32>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trgen_vec_L(r: &mut Prc<LE>) -> Result<Vec<TrGen<u32>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trgen_vec_L(v: &Vec<TrGen<u32>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trgen_vec_L(v: &Vec<TrGen<u32>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trgen_vec_B(r: &mut Pr<BE>) -> Result<Vec<TrGen<u32>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trgen_vec_B(r: &mut Prc<BE>) -> Result<Vec<TrGen<u32>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trgen_vec_B(v: &Vec<TrGen<u32>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trgen_vec(v: &Vec<TrGen<u32>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trgen_vec() -> usize { <Vec<TrGen<u32>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trgen_arr_L(r: &mut Pr<LE>) -> Result<[TrGen<u32>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trgen_arr_L(r: &mut Prc<LE>) -> Result<[TrGen<u32>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trgen_arr_L(v: &[TrGen<u32>; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trgen_arr_L(v: &[TrGen<u32>; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trgen_arr_B(r: &mut Pr<BE>) -> Result<[TrGen<u32>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trgen_arr_B(r: &mut Prc<BE>) -> Result<[TrGen<u32>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trgen_arr_B(v: &[TrGen<u32>; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trgen_arr(v: &[TrGen<u32>; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trgen_arr() -> usize { <[TrGen<u32>; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trgen_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TrGen<u32>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_trgen_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TrGen<u32>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_trgen_cow_L<'a>(v: &Cow<'a, [TrGen<u32>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trgen_cow_L<'a>(v: &Cow<'a, [TrGen<u32>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trgen_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TrGen<u32>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_trgen_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TrGen<u32>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_trgen_cow_B<'a>(v: &Cow<'a, [TrGen<u32>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trgen_cow<'a>(v: &Cow<'a, [TrGen<u32>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trgen_cow<'a>() -> usize { <Cow<'a, [TrGen<u32>]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trgen_box_L(r: &mut Pr<LE>) -> Result<Box<[TrGen<u32>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trgen_box_L(r: &mut Prc<LE>) -> Result<Box<[TrGen<u32>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trgen_box_L(v: &Box<[TrGen<u32>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trgen_box_L(v: &Box<[TrGen<u32>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trgen_box_B(r: &mut Pr<BE>) -> Result<Box<[TrGen<u32>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trgen_box_B(r: &mut Prc<BE>) -> Result<Box<[TrGen<u32>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trgen_box_B(v: &Box<[TrGen<u32>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trgen_box(v: &Box<[TrGen<u32>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trgen_box() -> usize { <Box<[TrGen<u32>]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trel_L(r: &mut Pr<LE>) -> Result<TrEl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trel_L(r: &mut Prc<LE>) -> Result<TrEl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trel_L(v: &TrEl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trel_L(v: &TrEl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trel_B(r: &mut Pr<BE>) -> Result<TrEl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trel_B(r: &mut Prc<BE>) -> Result<TrEl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trel_B(v: &TrEl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trel(v: &TrEl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trel() -> usize { <TrEl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trel_vec_L(r: &mut Pr<LE>) -> Result<Vec<TrEl>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trel_vec_L(r: &mut Prc<LE>) -> Result<Vec<TrEl>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trel_vec_L(v: &Vec<TrEl>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trel_vec_L(v: &Vec<TrEl>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trel_vec_B(r: &mut Pr<BE>) -> Result<Vec<TrEl>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trel_vec_B(r: &mut Prc<BE>) -> Result<Vec<TrEl>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trel_vec_B(v: &Vec<TrEl>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trel_vec(v: &Vec<TrEl>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trel_vec() -> usize { <Vec<TrEl> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trel_arr_L(r: &mut Pr<LE>) -> Result<[TrEl; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trel_arr_L(r: &mut Prc<LE>) -> Result<[TrEl; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trel_arr_L(v: &[TrEl; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trel_arr_L(v: &[TrEl; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trel_arr_B(r: &mut Pr<BE>) -> Result<[TrEl; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trel_arr_B(r: &mut Prc<BE>) -> Result<[TrEl; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trel_arr_B(v: &[TrEl; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trel_arr(v: &[TrEl; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trel_arr() -> usize { <[TrEl; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trel_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [TrEl]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_trel_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [TrEl]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_trel_cow_L<'a>(v: &Cow<'a, [TrEl]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trel_cow_L<'a>(v: &Cow<'a, [TrEl]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trel_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [TrEl]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_trel_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [TrEl]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_trel_cow_B<'a>(v: &Cow<'a, [TrEl]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trel_cow<'a>(v: &Cow<'a, [TrEl]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trel_cow<'a>() -> usize { <Cow<'a, [TrEl]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_trel_box_L(r: &mut Pr<LE>) -> Result<Box<[TrEl]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_trel_box_L(r: &mut Prc<LE>) -> Result<Box<[TrEl]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_trel_box_L(v: &Box<[TrEl]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_trel_box_L(v: &Box<[TrEl]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_trel_box_B(r: &mut Pr<BE>) -> Result<Box<[TrEl]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_trel_box_B(r: &mut Prc<BE>) -> Result<Box<[TrEl]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_trel_box_B(v: &Box<[TrEl]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_trel_box(v: &Box<[TrEl]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_trel_box() -> usize { <Box<[TrEl]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf_L(r: &mut Pr<LE>) -> Result<ArrF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf_L(r: &mut Prc<LE>) -> Result<ArrF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf_L(v: &ArrF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf_L(v: &ArrF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf_B(r: &mut Pr<BE>) -> Result<ArrF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf_B(r: &mut Prc<BE>) -> Result<ArrF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf_B(v: &ArrF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf(v: &ArrF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf() -> usize { <ArrF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf_vec_L(r: &mut Pr<LE>) -> Result<Vec<ArrF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf_vec_L(r: &mut Prc<LE>) -> Result<Vec<ArrF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf_vec_L(v: &Vec<ArrF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf_vec_L(v: &Vec<ArrF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf_vec_B(r: &mut Pr<BE>) -> Result<Vec<ArrF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf_vec_B(r: &mut Prc<BE>) -> Result<Vec<ArrF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf_vec_B(v: &Vec<ArrF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf_vec(v: &Vec<ArrF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf_vec() -> usize { <Vec<ArrF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf_arr_L(r: &mut Pr<LE>) -> Result<[ArrF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf_arr_L(r: &mut Prc<LE>) -> Result<[ArrF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf_arr_L(v: &[ArrF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf_arr_L(v: &[ArrF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf_arr_B(r: &mut Pr<BE>) -> Result<[ArrF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf_arr_B(r: &mut Prc<BE>) -> Result<[ArrF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf_arr_B(v: &[ArrF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf_arr(v: &[ArrF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf_arr() -> usize { <[ArrF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [ArrF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_arrf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [ArrF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_arrf_cow_L<'a>(v: &Cow<'a, [ArrF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf_cow_L<'a>(v: &Cow<'a, [ArrF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [ArrF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_arrf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [ArrF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_arrf_cow_B<'a>(v: &Cow<'a, [ArrF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf_cow<'a>(v: &Cow<'a, [ArrF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf_cow<'a>() -> usize { <Cow<'a, [ArrF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf_box_L(r: &mut Pr<LE>) -> Result<Box<[ArrF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf_box_L(r: &mut Prc<LE>) -> Result<Box<[ArrF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf_box_L(v: &Box<[ArrF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf_box_L(v: &Box<[ArrF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf_box_B(r: &mut Pr<BE>) -> Result<Box<[ArrF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf_box_B(r: &mut Prc<BE>) -> Result<Box<[ArrF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf_box_B(v: &Box<[ArrF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf_box(v: &Box<[ArrF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf_box() -> usize { <Box<[ArrF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf2_L(r: &mut Pr<LE>) -> Result<ArrF2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf2_L(r: &mut Prc<LE>) -> Result<ArrF2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf2_L(v: &ArrF2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf2_L(v: &ArrF2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf2_B(r: &mut Pr<BE>) -> Result<ArrF2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf2_B(r: &mut Prc<BE>) -> Result<ArrF2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf2_B(v: &ArrF2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf2(v: &ArrF2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf2() -> usize { <ArrF2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf2_vec_L(r: &mut Pr<LE>) -> Result<Vec<ArrF2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf2_vec_L(r: &mut Prc<LE>) -> Result<Vec<ArrF2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf2_vec_L(v: &Vec<ArrF2>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf2_vec_L(v: &Vec<ArrF2>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf2_vec_B(r: &mut Pr<BE>) -> Result<Vec<ArrF2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf2_vec_B(r: &mut Prc<BE>) -> Result<Vec<ArrF2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf2_vec_B(v: &Vec<ArrF2>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf2_vec(v: &Vec<ArrF2>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf2_vec() -> usize { <Vec<ArrF2> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf2_arr_L(r: &mut Pr<LE>) -> Result<[ArrF2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf2_arr_L(r: &mut Prc<LE>) -> Result<[ArrF2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf2_arr_L(v: &[ArrF2; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf2_arr_L(v: &[ArrF2; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf2_arr_B(r: &mut Pr<BE>) -> Result<[ArrF2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf2_arr_B(r: &mut Prc<BE>) -> Result<[ArrF2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf2_arr_B(v: &[ArrF2; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf2_arr(v: &[ArrF2; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf2_arr() -> usize { <[ArrF2; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf2_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [ArrF2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_arrf2_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [ArrF2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_arrf2_cow_L<'a>(v: &Cow<'a, [ArrF2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf2_cow_L<'a>(v: &Cow<'a, [ArrF2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf2_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [ArrF2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_arrf2_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [ArrF2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_arrf2_cow_B<'a>(v: &Cow<'a, [ArrF2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf2_cow<'a>(v: &Cow<'a, [ArrF2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf2_cow<'a>() -> usize { <Cow<'a, [ArrF2]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arrf2_box_L(r: &mut Pr<LE>) -> Result<Box<[ArrF2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arrf2_box_L(r: &mut Prc<LE>) -> Result<Box<[ArrF2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arrf2_box_L(v: &Box<[ArrF2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arrf2_box_L(v: &Box<[ArrF2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arrf2_box_B(r: &mut Pr<BE>) -> Result<Box<[ArrF2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arrf2_box_B(r: &mut Prc<BE>) -> Result<Box<[ArrF2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arrf2_box_B(v: &Box<[ArrF2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arrf2_box(v: &Box<[ArrF2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arrf2_box() -> usize { <Box<[ArrF2]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_boolf_L(r: &mut Pr<LE>) -> Result<BoolF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_boolf_L(r: &mut Prc<LE>) -> Result<BoolF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_boolf_L(v: &BoolF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_boolf_L(v: &BoolF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_boolf_B(r: &mut Pr<BE>) -> Result<BoolF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_boolf_B(r: &mut Prc<BE>) -> Result<BoolF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_boolf_B(v: &BoolF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_boolf(v: &BoolF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_boolf() -> usize { <BoolF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_boolf_vec_L(r: &mut Pr<LE>) -> Result<Vec<BoolF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_boolf_vec_L(r: &mut Prc<LE>) -> Result<Vec<BoolF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_boolf_vec_L(v: &Vec<BoolF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_boolf_vec_L(v: &Vec<BoolF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_boolf_vec_B(r: &mut Pr<BE>) -> Result<Vec<BoolF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_boolf_vec_B(r: &mut Prc<BE>) -> Result<Vec<BoolF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_boolf_vec_B(v: &Vec<BoolF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_boolf_vec(v: &Vec<BoolF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_boolf_vec() -> usize { <Vec<BoolF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_boolf_arr_L(r: &mut Pr<LE>) -> Result<[BoolF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_boolf_arr_L(r: &mut Prc<LE>) -> Result<[BoolF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_boolf_arr_L(v: &[BoolF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_boolf_arr_L(v: &[BoolF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_boolf_arr_B(r: &mut Pr<BE>) -> Result<[BoolF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_boolf_arr_B(r: &mut Prc<BE>) -> Result<[BoolF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_boolf_arr_B(v: &[BoolF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_boolf_arr(v: &[BoolF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_boolf_arr() -> usize { <[BoolF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_boolf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [BoolF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_boolf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [BoolF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_boolf_cow_L<'a>(v: &Cow<'a, [BoolF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_boolf_cow_L<'a>(v: &Cow<'a, [BoolF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_boolf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [BoolF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_boolf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [BoolF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_boolf_cow_B<'a>(v: &Cow<'a, [BoolF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_boolf_cow<'a>(v: &Cow<'a, [BoolF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_boolf_cow<'a>() -> usize { <Cow<'a, [BoolF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_boolf_box_L(r: &mut Pr<LE>) -> Result<Box<[BoolF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_boolf_box_L(r: &mut Prc<LE>) -> Result<Box<[BoolF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_boolf_box_L(v: &Box<[BoolF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_boolf_box_L(v: &Box<[BoolF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_boolf_box_B(r: &mut Pr<BE>) -> Result<Box<[BoolF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_boolf_box_B(r: &mut Prc<BE>) -> Result<Box<[BoolF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_boolf_box_B(v: &Box<[BoolF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_boolf_box(v: &Box<[BoolF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_boolf_box() -> usize { <Box<[BoolF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_charf_L(r: &mut Pr<LE>) -> Result<CharF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_charf_L(r: &mut Prc<LE>) -> Result<CharF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_charf_L(v: &CharF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_charf_L(v: &CharF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_charf_B(r: &mut Pr<BE>) -> Result<CharF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_charf_B(r: &mut Prc<BE>) -> Result<CharF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_charf_B(v: &CharF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_charf(v: &CharF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_charf() -> usize { <CharF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_charf_vec_L(r: &mut Pr<LE>) -> Result<Vec<CharF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_charf_vec_L(r: &mut Prc<LE>) -> Result<Vec<CharF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_charf_vec_L(v: &Vec<CharF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_charf_vec_L(v: &Vec<CharF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_charf_vec_B(r: &mut Pr<BE>) -> Result<Vec<CharF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_charf_vec_B(r: &mut Prc<BE>) -> Result<Vec<CharF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_charf_vec_B(v: &Vec<CharF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_charf_vec(v: &Vec<CharF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_charf_vec() -> usize { <Vec<CharF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_charf_arr_L(r: &mut Pr<LE>) -> Result<[CharF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_charf_arr_L(r: &mut Prc<LE>) -> Result<[CharF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_charf_arr_L(v: &[CharF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_charf_arr_L(v: &[CharF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_charf_arr_B(r: &mut Pr<BE>) -> Result<[CharF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_charf_arr_B(r: &mut Prc<BE>) -> Result<[CharF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_charf_arr_B(v: &[CharF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_charf_arr(v: &[CharF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_charf_arr() -> usize { <[CharF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_charf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [CharF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_charf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [CharF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_charf_cow_L<'a>(v: &Cow<'a, [CharF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_charf_cow_L<'a>(v: &Cow<'a, [CharF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_charf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [CharF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_charf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [CharF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_charf_cow_B<'a>(v: &Cow<'a, [CharF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_charf_cow<'a>(v: &Cow<'a, [CharF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_charf_cow<'a>() -> usize { <Cow<'a, [CharF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_charf_box_L(r: &mut Pr<LE>) -> Result<Box<[CharF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_charf_box_L(r: &mut Prc<LE>) -> Result<Box<[CharF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_charf_box_L(v: &Box<[CharF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_charf_box_L(v: &Box<[CharF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_charf_box_B(r: &mut Pr<BE>) -> Result<Box<[CharF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_charf_box_B(r: &mut Prc<BE>) -> Result<Box<[CharF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_charf_box_B(v: &Box<[CharF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_charf_box(v: &Box<[CharF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_charf_box() -> usize { <Box<[CharF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_endf_L(r: &mut Pr<LE>) -> Result<EndF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_endf_L(r: &mut Prc<LE>) -> Result<EndF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_endf_L(v: &EndF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_endf_L(v: &EndF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_endf_B(r: &mut Pr<BE>) -> Result<EndF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_endf_B(r: &mut Prc<BE>) -> Result<EndF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_endf_B(v: &EndF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_endf(v: &EndF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_endf() -> usize { <EndF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_endf_vec_L(r: &mut Pr<LE>) -> Result<Vec<EndF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_endf_vec_L(r: &mut Prc<LE>) -> Result<Vec<EndF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_endf_vec_L(v: &Vec<EndF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_endf_vec_L(v: &Vec<EndF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_endf_vec_B(r: &mut Pr<BE>) -> Result<Vec<EndF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_endf_vec_B(r: &mut Prc<BE>) -> Result<Vec<EndF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_endf_vec_B(v: &Vec<EndF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_endf_vec(v: &Vec<EndF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_endf_vec() -> usize { <Vec<EndF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_endf_arr_L(r: &mut Pr<LE>) -> Result<[EndF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_endf_arr_L(r: &mut Prc<LE>) -> Result<[EndF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_endf_arr_L(v: &[EndF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_endf_arr_L(v: &[EndF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_endf_arr_B(r: &mut Pr<BE>) -> Result<[EndF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_endf_arr_B(r: &mut Prc<BE>) -> Result<[EndF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_endf_arr_B(v: &[EndF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_endf_arr(v: &[EndF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_endf_arr() -> usize { <[EndF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_endf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [EndF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_endf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [EndF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_endf_cow_L<'a>(v: &Cow<'a, [EndF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_endf_cow_L<'a>(v: &Cow<'a, [EndF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_endf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [EndF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_endf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [EndF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_endf_cow_B<'a>(v: &Cow<'a, [EndF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_endf_cow<'a>(v: &Cow<'a, [EndF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_endf_cow<'a>() -> usize { <Cow<'a, [EndF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_endf_box_L(r: &mut Pr<LE>) -> Result<Box<[EndF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_endf_box_L(r: &mut Prc<LE>) -> Result<Box<[EndF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_endf_box_L(v: &Box<[EndF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_endf_box_L(v: &Box<[EndF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_endf_box_B(r: &mut Pr<BE>) -> Result<Box<[EndF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_endf_box_B(r: &mut Prc<BE>) -> Result<Box<[EndF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_endf_box_B(v: &Box<[EndF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_endf_box(v: &Box<[EndF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_endf_box() -> usize { <Box<[EndF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_nzf_L(r: &mut Pr<LE>) -> Result<NzF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_nzf_L(r: &mut Prc<LE>) -> Result<NzF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_nzf_L(v: &NzF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_nzf_L(v: &NzF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_nzf_B(r: &mut Pr<BE>) -> Result<NzF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_nzf_B(r: &mut Prc<BE>) -> Result<NzF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_nzf_B(v: &NzF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_nzf(v: &NzF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_nzf() -> usize { <NzF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_nzf_vec_L(r: &mut Pr<LE>) -> Result<Vec<NzF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_nzf_vec_L(r: &mut Prc<LE>) -> Result<Vec<NzF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_nzf_vec_L(v: &Vec<NzF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_nzf_vec_L(v: &Vec<NzF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_nzf_vec_B(r: &mut Pr<BE>) -> Result<Vec<NzF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_nzf_vec_B(r: &mut Prc<BE>) -> Result<Vec<NzF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_nzf_vec_B(v: &Vec<NzF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_nzf_vec(v: &Vec<NzF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_nzf_vec() -> usize { <Vec<NzF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_nzf_arr_L(r: &mut Pr<LE>) -> Result<[NzF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_nzf_arr_L(r: &mut Prc<LE>) -> Result<[NzF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_nzf_arr_L(v: &[NzF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_nzf_arr_L(v: &[NzF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_nzf_arr_B(r: &mut Pr<BE>) -> Result<[NzF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_nzf_arr_B(r: &mut Prc<BE>) -> Result<[NzF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_nzf_arr_B(v: &[NzF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_nzf_arr(v: &[NzF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_nzf_arr() -> usize { <[NzF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_nzf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [NzF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_nzf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [NzF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_nzf_cow_L<'a>(v: &Cow<'a, [NzF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_nzf_cow_L<'a>(v: &Cow<'a, [NzF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_nzf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [NzF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_nzf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [NzF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_nzf_cow_B<'a>(v: &Cow<'a, [NzF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_nzf_cow<'a>(v: &Cow<'a, [NzF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_nzf_cow<'a>() -> usize { <Cow<'a, [NzF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_nzf_box_L(r: &mut Pr<LE>) -> Result<Box<[NzF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_nzf_box_L(r: &mut Prc<LE>) -> Result<Box<[NzF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_nzf_box_L(v: &Box<[NzF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_nzf_box_L(v: &Box<[NzF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_nzf_box_B(r: &mut Pr<BE>) -> Result<Box<[NzF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_nzf_box_B(r: &mut Prc<BE>) -> Result<Box<[NzF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_nzf_box_B(v: &Box<[NzF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_nzf_box(v: &Box<[NzF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_nzf_box() -> usize { <Box<[NzF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ipf_L(r: &mut Pr<LE>) -> Result<IpF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ipf_L(r: &mut Prc<LE>) -> Result<IpF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ipf_L(v: &IpF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ipf_L(v: &IpF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ipf_B(r: &mut Pr<BE>) -> Result<IpF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ipf_B(r: &mut Prc<BE>) -> Result<IpF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ipf_B(v: &IpF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ipf(v: &IpF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ipf() -> usize { <IpF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ipf_vec_L(r: &mut Pr<LE>) -> Result<Vec<IpF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ipf_vec_L(r: &mut Prc<LE>) -> Result<Vec<IpF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ipf_vec_L(v: &Vec<IpF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ipf_vec_L(v: &Vec<IpF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ipf_vec_B(r: &mut Pr<BE>) -> Result<Vec<IpF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ipf_vec_B(r: &mut Prc<BE>) -> Result<Vec<IpF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ipf_vec_B(v: &Vec<IpF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ipf_vec(v: &Vec<IpF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ipf_vec() -> usize { <Vec<IpF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ipf_arr_L(r: &mut Pr<LE>) -> Result<[IpF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ipf_arr_L(r: &mut Prc<LE>) -> Result<[IpF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ipf_arr_L(v: &[IpF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ipf_arr_L(v: &[IpF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ipf_arr_B(r: &mut Pr<BE>) -> Result<[IpF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ipf_arr_B(r: &mut Prc<BE>) -> Result<[IpF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ipf_arr_B(v: &[IpF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ipf_arr(v: &[IpF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ipf_arr() -> usize { <[IpF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ipf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [IpF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_ipf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [IpF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_ipf_cow_L<'a>(v: &Cow<'a, [IpF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ipf_cow_L<'a>(v: &Cow<'a, [IpF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ipf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [IpF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_ipf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [IpF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_ipf_cow_B<'a>(v: &Cow<'a, [IpF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ipf_cow<'a>(v: &Cow<'a, [IpF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ipf_cow<'a>() -> usize { <Cow<'a, [IpF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ipf_box_L(r: &mut Pr<LE>) -> Result<Box<[IpF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ipf_box_L(r: &mut Prc<LE>) -> Result<Box<[IpF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ipf_box_L(v: &Box<[IpF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ipf_box_L(v: &Box<[IpF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ipf_box_B(r: &mut Pr<BE>) -> Result<Box<[IpF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ipf_box_B(r: &mut Prc<BE>) -> Result<Box<[IpF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ipf_box_B(v: &Box<[IpF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ipf_box(v: &Box<[IpF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ipf_box() -> usize { <Box<[IpF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_usf_L(r: &mut Pr<LE>) -> Result<UsF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_usf_L(r: &mut Prc<LE>) -> Result<UsF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_usf_L(v: &UsF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_usf_L(v: &UsF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_usf_B(r: &mut Pr<BE>) -> Result<UsF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_usf_B(r: &mut Prc<BE>) -> Result<UsF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_usf_B(v: &UsF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_usf(v: &UsF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_usf() -> usize { <UsF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_usf_vec_L(r: &mut Pr<LE>) -> Result<Vec<UsF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_usf_vec_L(r: &mut Prc<LE>) -> Result<Vec<UsF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_usf_vec_L(v: &Vec<UsF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_usf_vec_L(v: &Vec<UsF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_usf_vec_B(r: &mut Pr<BE>) -> Result<Vec<UsF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_usf_vec_B(r: &mut Prc<BE>) -> Result<Vec<UsF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_usf_vec_B(v: &Vec<UsF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_usf_vec(v: &Vec<UsF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_usf_vec() -> usize { <Vec<UsF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_usf_arr_L(r: &mut Pr<LE>) -> Result<[UsF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_usf_arr_L(r: &mut Prc<LE>) -> Result<[UsF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_usf_arr_L(v: &[UsF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_usf_arr_L(v: &[UsF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_usf_arr_B(r: &mut Pr<BE>) -> Result<[UsF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_usf_arr_B(r: &mut Prc<BE>) -> Result<[UsF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_usf_arr_B(v: &[UsF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_usf_arr(v: &[UsF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_usf_arr() -> usize { <[UsF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_usf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [UsF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_usf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [UsF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_usf_cow_L<'a>(v: &Cow<'a, [UsF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_usf_cow_L<'a>(v: &Cow<'a, [UsF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_usf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [UsF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_usf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [UsF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_usf_cow_B<'a>(v: &Cow<'a, [UsF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_usf_cow<'a>(v: &Cow<'a, [UsF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_usf_cow<'a>() -> usize { <Cow<'a, [UsF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_usf_box_L(r: &mut Pr<LE>) -> Result<Box<[UsF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_usf_box_L(r: &mut Prc<LE>) -> Result<Box<[UsF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_usf_box_L(v: &Box<[UsF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_usf_box_L(v: &Box<[UsF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_usf_box_B(r: &mut Pr<BE>) -> Result<Box<[UsF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_usf_box_B(r: &mut Prc<BE>) -> Result<Box<[UsF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_usf_box_B(v: &Box<[UsF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_usf_box(v: &Box<[UsF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_usf_box() -> usize { <Box<[UsF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_durf_L(r: &mut Pr<LE>) -> Result<DurF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_durf_L(r: &mut Prc<LE>) -> Result<DurF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_durf_L(v: &DurF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_durf_L(v: &DurF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_durf_B(r: &mut Pr<BE>) -> Result<DurF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_durf_B(r: &mut Prc<BE>) -> Result<DurF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_durf_B(v: &DurF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_durf(v: &DurF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_durf() -> usize { <DurF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_durf_vec_L(r: &mut Pr<LE>) -> Result<Vec<DurF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_durf_vec_L(r: &mut Prc<LE>) -> Result<Vec<DurF>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_durf_vec_L(v: &Vec<DurF>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_durf_vec_L(v: &Vec<DurF>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_durf_vec_B(r: &mut Pr<BE>) -> Result<Vec<DurF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_durf_vec_B(r: &mut Prc<BE>) -> Result<Vec<DurF>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_durf_vec_B(v: &Vec<DurF>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_durf_vec(v: &Vec<DurF>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_durf_vec() -> usize { <Vec<DurF> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_durf_arr_L(r: &mut Pr<LE>) -> Result<[DurF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_durf_arr_L(r: &mut Prc<LE>) -> Result<[DurF; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_durf_arr_L(v: &[DurF; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_durf_arr_L(v: &[DurF; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_durf_arr_B(r: &mut Pr<BE>) -> Result<[DurF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_durf_arr_B(r: &mut Prc<BE>) -> Result<[DurF; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_durf_arr_B(v: &[DurF; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_durf_arr(v: &[DurF; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_durf_arr() -> usize { <[DurF; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_durf_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [DurF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_durf_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [DurF]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_durf_cow_L<'a>(v: &Cow<'a, [DurF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_durf_cow_L<'a>(v: &Cow<'a, [DurF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_durf_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [DurF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_durf_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [DurF]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_durf_cow_B<'a>(v: &Cow<'a, [DurF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_durf_cow<'a>(v: &Cow<'a, [DurF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_durf_cow<'a>() -> usize { <Cow<'a, [DurF]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_durf_box_L(r: &mut Pr<LE>) -> Result<Box<[DurF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_durf_box_L(r: &mut Prc<LE>) -> Result<Box<[DurF]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_durf_box_L(v: &Box<[DurF]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_durf_box_L(v: &Box<[DurF]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_durf_box_B(r: &mut Pr<BE>) -> Result<Box<[DurF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_durf_box_B(r: &mut Prc<BE>) -> Result<Box<[DurF]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_durf_box_B(v: &Box<[DurF]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_durf_box(v: &Box<[DurF]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_durf_box() -> usize { <Box<[DurF]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genp_L(r: &mut Pr<LE>) -> Result<GenP<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genp_L(r: &mut Prc<LE>) -> Result<GenP<u16, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genp_L(v: &GenP<u16, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genp_L(v: &GenP<u16, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genp_B(r: &mut Pr<BE>) -> Result<GenP<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genp_B(r: &mut Prc<BE>) -> Result<GenP<u16, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genp_B(v: &GenP<u16, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genp(v: &GenP<u16, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genp() -> usize { <GenP<u16, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genp_vec_L(r: &mut Pr<LE>) -> Result<Vec<GenP<u16, u32>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genp_vec_L(r: &mut Prc<LE>) -> Result<Vec<GenP<u16, u32>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genp_vec_L(v: &Vec<GenP<u16, u32>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genp_vec_L(v: &Vec<GenP<u16, u32>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genp_vec_B(r: &mut Pr<BE>) -> Result<Vec<GenP<u16, u32>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genp_vec_B(r: &mut Prc<BE>) -> Result<Vec<GenP<u16, u32>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genp_vec_B(v: &Vec<GenP<u16, u32>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genp_vec(v: &Vec<GenP<u16, u32>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genp_vec() -> usize { <Vec<GenP<u16, u32>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genp_arr_L(r: &mut Pr<LE>) -> Result<[GenP<u16, u32>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genp_arr_L(r: &mut Prc<LE>) -> Result<[GenP<u16, u32>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genp_arr_L(v: &[GenP<u16, u32>; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genp_arr_L(v: &[GenP<u16, u32>; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genp_arr_B(r: &mut Pr<BE>) -> Result<[GenP<u16, u32>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genp_arr_B(r: &mut Prc<BE>) -> Result<[GenP<u16, u32>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genp_arr_B(v: &[GenP<u16, u32>; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genp_arr(v: &[GenP<u16, u32>; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genp_arr() -> usize { <[GenP<u16, u32>; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genp_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [GenP<u16, u32>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_genp_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [GenP<u16, u32>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_genp_cow_L<'a>(v: &Cow<'a, [GenP<u16, u32>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genp_cow_L<'a>(v: &Cow<'a, [GenP<u16, u32>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genp_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [GenP<u16, u32>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_genp_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [GenP<u16, u32>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_genp_cow_B<'a>(v: &Cow<'a, [GenP<u16, u32>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genp_cow<'a>(v: &Cow<'a, [GenP<u16, u32>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genp_cow<'a>() -> usize { <Cow<'a, [GenP<u16, u32>]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genp_box_L(r: &mut Pr<LE>) -> Result<Box<[GenP<u16, u32>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genp_box_L(r: &mut Prc<LE>) -> Result<Box<[GenP<u16, u32>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genp_box_L(v: &Box<[GenP<u16, u32>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genp_box_L(v: &Box<[GenP<u16, u32>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genp_box_B(r: &mut Pr<BE>) -> Result<Box<[GenP<u16, u32>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genp_box_B(r: &mut Prc<BE>) -> Result<Box<[GenP<u16, u32>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genp_box_B(v: &Box<[GenP<u16, u32>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genp_box(v: &Box<[GenP<u16, u32>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genp_box() -> usize { <Box<[GenP<u16, u32>]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genc_L(r: &mut Pr<LE>) -> Result<GenC<u32, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genc_L(r: &mut Prc<LE>) -> Result<GenC<u32, u32>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genc_L(v: &GenC<u32, u32>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genc_L(v: &GenC<u32, u32>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genc_B(r: &mut Pr<BE>) -> Result<GenC<u32, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genc_B(r: &mut Prc<BE>) -> Result<GenC<u32, u32>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genc_B(v: &GenC<u32, u32>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genc(v: &GenC<u32, u32>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genc() -> usize { <GenC<u32, u32> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genc_vec_L(r: &mut Pr<LE>) -> Result<Vec<GenC<u32, u32>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genc_vec_L(r: &mut Prc<LE>) -> Result<Vec<GenC<u32, u32>>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genc_vec_L(v: &Vec<GenC<u32, u32>>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genc_vec_L(v: &Vec<GenC<u32, u32>>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genc_vec_B(r: &mut Pr<BE>) -> Result<Vec<GenC<u32, u32>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genc_vec_B(r: &mut Prc<BE>) -> Result<Vec<GenC<u32, u32>>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genc_vec_B(v: &Vec<GenC<u32, u32>>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genc_vec(v: &Vec<GenC<u32, u32>>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genc_vec() -> usize { <Vec<GenC<u32, u32>> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genc_arr_L(r: &mut Pr<LE>) -> Result<[GenC<u32, u32>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genc_arr_L(r: &mut Prc<LE>) -> Result<[GenC<u32, u32>; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genc_arr_L(v: &[GenC<u32, u32>; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genc_arr_L(v: &[GenC<u32, u32>; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genc_arr_B(r: &mut Pr<BE>) -> Result<[GenC<u32, u32>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genc_arr_B(r: &mut Prc<BE>) -> Result<[GenC<u32, u32>; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genc_arr_B(v: &[GenC<u32, u32>; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genc_arr(v: &[GenC<u32, u32>; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genc_arr() -> usize { <[GenC<u32, u32>; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genc_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [GenC<u32, u32>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_genc_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [GenC<u32, u32>]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_genc_cow_L<'a>(v: &Cow<'a, [GenC<u32, u32>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genc_cow_L<'a>(v: &Cow<'a, [GenC<u32, u32>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genc_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [GenC<u32, u32>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_genc_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [GenC<u32, u32>]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_genc_cow_B<'a>(v: &Cow<'a, [GenC<u32, u32>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genc_cow<'a>(v: &Cow<'a, [GenC<u32, u32>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genc_cow<'a>() -> usize { <Cow<'a, [GenC<u32, u32>]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_genc_box_L(r: &mut Pr<LE>) -> Result<Box<[GenC<u32, u32>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_genc_box_L(r: &mut Prc<LE>) -> Result<Box<[GenC<u32, u32>]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_genc_box_L(v: &Box<[GenC<u32, u32>]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_genc_box_L(v: &Box<[GenC<u32, u32>]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_genc_box_B(r: &mut Pr<BE>) -> Result<Box<[GenC<u32, u32>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_genc_box_B(r: &mut Prc<BE>) -> Result<Box<[GenC<u32, u32>]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_genc_box_B(v: &Box<[GenC<u32, u32>]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_genc_box(v: &Box<[GenC<u32, u32>]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_genc_box() -> usize { <Box<[GenC<u32, u32>]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var_L(r: &mut Pr<LE>) -> Result<Var, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var_L(r: &mut Prc<LE>) -> Result<Var, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var_L(v: &Var, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var_L(v: &Var, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var_B(r: &mut Pr<BE>) -> Result<Var, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var_B(r: &mut Prc<BE>) -> Result<Var, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var_B(v: &Var, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var(v: &Var) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var() -> usize { <Var as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var_vec_L(r: &mut Pr<LE>) -> Result<Vec<Var>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var_vec_L(r: &mut Prc<LE>) -> Result<Vec<Var>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var_vec_L(v: &Vec<Var>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var_vec_L(v: &Vec<Var>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var_vec_B(r: &mut Pr<BE>) -> Result<Vec<Var>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var_vec_B(r: &mut Prc<BE>) -> Result<Vec<Var>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var_vec_B(v: &Vec<Var>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var_vec(v: &Vec<Var>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var_vec() -> usize { <Vec<Var> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var_arr_L(r: &mut Pr<LE>) -> Result<[Var; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var_arr_L(r: &mut Prc<LE>) -> Result<[Var; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var_arr_L(v: &[Var; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var_arr_L(v: &[Var; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var_arr_B(r: &mut Pr<BE>) -> Result<[Var; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var_arr_B(r: &mut Prc<BE>) -> Result<[Var; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var_arr_B(v: &[Var; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var_arr(v: &[Var; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var_arr() -> usize { <[Var; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Var]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_var_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Var]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_var_cow_L<'a>(v: &Cow<'a, [Var]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var_cow_L<'a>(v: &Cow<'a, [Var]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Var]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_var_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Var]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_var_cow_B<'a>(v: &Cow<'a, [Var]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var_cow<'a>(v: &Cow<'a, [Var]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var_cow<'a>() -> usize { <Cow<'a, [Var]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var_box_L(r: &mut Pr<LE>) -> Result<Box<[Var]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var_box_L(r: &mut Prc<LE>) -> Result<Box<[Var]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var_box_L(v: &Box<[Var]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var_box_L(v: &Box<[Var]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var_box_B(r: &mut Pr<BE>) -> Result<Box<[Var]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var_box_B(r: &mut Prc<BE>) -> Result<Box<[Var]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var_box_B(v: &Box<[Var]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var_box(v: &Box<[Var]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var_box() -> usize { <Box<[Var]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pre_L(r: &mut Pr<LE>) -> Result<Pre, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pre_L(r: &mut Prc<LE>) -> Result<Pre, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pre_L(v: &Pre, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pre_L(v: &Pre, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pre_B(r: &mut Pr<BE>) -> Result<Pre, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pre_B(r: &mut Prc<BE>) -> Result<Pre, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pre_B(v: &Pre, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pre(v: &Pre) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pre() -> usize { <Pre as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pre_vec_L(r: &mut Pr<LE>) -> Result<Vec<Pre>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pre_vec_L(r: &mut Prc<LE>) -> Result<Vec<Pre>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pre_vec_L(v: &Vec<Pre>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pre_vec_L(v: &Vec<Pre>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pre_vec_B(r: &mut Pr<BE>) -> Result<Vec<Pre>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pre_vec_B(r: &mut Prc<BE>) -> Result<Vec<Pre>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pre_vec_B(v: &Vec<Pre>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pre_vec(v: &Vec<Pre>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pre_vec() -> usize { <Vec<Pre> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pre_arr_L(r: &mut Pr<LE>) -> Result<[Pre; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pre_arr_L(r: &mut Prc<LE>) -> Result<[Pre; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pre_arr_L(v: &[Pre; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pre_arr_L(v: &[Pre; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pre_arr_B(r: &mut Pr<BE>) -> Result<[Pre; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pre_arr_B(r: &mut Prc<BE>) -> Result<[Pre; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pre_arr_B(v: &[Pre; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pre_arr(v: &[Pre; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pre_arr() -> usize { <[Pre; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pre_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Pre]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_pre_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Pre]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_pre_cow_L<'a>(v: &Cow<'a, [Pre]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pre_cow_L<'a>(v: &Cow<'a, [Pre]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pre_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Pre]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_pre_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Pre]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_pre_cow_B<'a>(v: &Cow<'a, [Pre]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pre_cow<'a>(v: &Cow<'a, [Pre]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pre_cow<'a>() -> usize { <Cow<'a, [Pre]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pre_box_L(r: &mut Pr<LE>) -> Result<Box<[Pre]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pre_box_L(r: &mut Prc<LE>) -> Result<Box<[Pre]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pre_box_L(v: &Box<[Pre]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pre_box_L(v: &Box<[Pre]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pre_box_B(r: &mut Pr<BE>) -> Result<Box<[Pre]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pre_box_B(r: &mut Prc<BE>) -> Result<Box<[Pre]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pre_box_B(v: &Box<[Pre]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pre_box(v: &Box<[Pre]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pre_box() -> usize { <Box<[Pre]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eof_L(r: &mut Pr<LE>) -> Result<Eof, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eof_L(r: &mut Prc<LE>) -> Result<Eof, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eof_L(v: &Eof, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eof_L(v: &Eof, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eof_B(r: &mut Pr<BE>) -> Result<Eof, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eof_B(r: &mut Prc<BE>) -> Result<Eof, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eof_B(v: &Eof, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eof(v: &Eof) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eof() -> usize { <Eof as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp_L(r: &mut Pr<LE>) -> Result<Skp, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp_L(r: &mut Prc<LE>) -> Result<Skp, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp_L(v: &Skp, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp_L(v: &Skp, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp_B(r: &mut Pr<BE>) -> Result<Skp, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp_B(r: &mut Prc<BE>) -> Result<Skp, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp_B(v: &Skp, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp(v: &Skp) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp() -> usize { <Skp as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp_vec_L(r: &mut Pr<LE>) -> Result<Vec<Skp>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp_vec_L(r: &mut Prc<LE>) -> Result<Vec<Skp>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp_vec_L(v: &Vec<Skp>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp_vec_L(v: &Vec<Skp>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp_vec_B(r: &mut Pr<BE>) -> Result<Vec<Skp>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp_vec_B(r: &mut Prc<BE>) -> Result<Vec<Skp>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp_vec_B(v: &Vec<Skp>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp_vec(v: &Vec<Skp>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp_vec() -> usize { <Vec<Skp> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp_arr_L(r: &mut Pr<LE>) -> Result<[Skp; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp_arr_L(r: &mut Prc<LE>) -> Result<[Skp; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp_arr_L(v: &[Skp; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp_arr_L(v: &[Skp; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp_arr_B(r: &mut Pr<BE>) -> Result<[Skp; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp_arr_B(r: &mut Prc<BE>) -> Result<[Skp; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp_arr_B(v: &[Skp; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp_arr(v: &[Skp; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp_arr() -> usize { <[Skp; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Skp]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_skp_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Skp]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_skp_cow_L<'a>(v: &Cow<'a, [Skp]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp_cow_L<'a>(v: &Cow<'a, [Skp]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Skp]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_skp_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Skp]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_skp_cow_B<'a>(v: &Cow<'a, [Skp]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp_cow<'a>(v: &Cow<'a, [Skp]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp_cow<'a>() -> usize { <Cow<'a, [Skp]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp_box_L(r: &mut Pr<LE>) -> Result<Box<[Skp]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp_box_L(r: &mut Prc<LE>) -> Result<Box<[Skp]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp_box_L(v: &Box<[Skp]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp_box_L(v: &Box<[Skp]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp_box_B(r: &mut Pr<BE>) -> Result<Box<[Skp]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp_box_B(r: &mut Prc<BE>) -> Result<Box<[Skp]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp_box_B(v: &Box<[Skp]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp_box(v: &Box<[Skp]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp_box() -> usize { <Box<[Skp]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vartr_L(r: &mut Pr<LE>) -> Result<VarTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vartr_L(r: &mut Prc<LE>) -> Result<VarTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vartr_L(v: &VarTr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vartr_L(v: &VarTr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vartr_B(r: &mut Pr<BE>) -> Result<VarTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vartr_B(r: &mut Prc<BE>) -> Result<VarTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vartr_B(v: &VarTr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vartr(v: &VarTr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vartr() -> usize { <VarTr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vartr_vec_L(r: &mut Pr<LE>) -> Result<Vec<VarTr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vartr_vec_L(r: &mut Prc<LE>) -> Result<Vec<VarTr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vartr_vec_L(v: &Vec<VarTr>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vartr_vec_L(v: &Vec<VarTr>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vartr_vec_B(r: &mut Pr<BE>) -> Result<Vec<VarTr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vartr_vec_B(r: &mut Prc<BE>) -> Result<Vec<VarTr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vartr_vec_B(v: &Vec<VarTr>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vartr_vec(v: &Vec<VarTr>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vartr_vec() -> usize { <Vec<VarTr> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vartr_arr_L(r: &mut Pr<LE>) -> Result<[VarTr; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vartr_arr_L(r: &mut Prc<LE>) -> Result<[VarTr; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vartr_arr_L(v: &[VarTr; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vartr_arr_L(v: &[VarTr; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vartr_arr_B(r: &mut Pr<BE>) -> Result<[VarTr; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vartr_arr_B(r: &mut Prc<BE>) -> Result<[VarTr; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vartr_arr_B(v: &[VarTr; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vartr_arr(v: &[VarTr; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vartr_arr() -> usize { <[VarTr; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vartr_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [VarTr]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_vartr_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [VarTr]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_vartr_cow_L<'a>(v: &Cow<'a, [VarTr]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vartr_cow_L<'a>(v: &Cow<'a, [VarTr]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vartr_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [VarTr]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_vartr_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [VarTr]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_vartr_cow_B<'a>(v: &Cow<'a, [VarTr]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vartr_cow<'a>(v: &Cow<'a, [VarTr]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vartr_cow<'a>() -> usize { <Cow<'a, [VarTr]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vartr_box_L(r: &mut Pr<LE>) -> Result<Box<[VarTr]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vartr_box_L(r: &mut Prc<LE>) -> Result<Box<[VarTr]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vartr_box_L(v: &Box<[VarTr]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vartr_box_L(v: &Box<[VarTr]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vartr_box_B(r: &mut Pr<BE>) -> Result<Box<[VarTr]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vartr_box_B(r: &mut Prc<BE>) -> Result<Box<[VarTr]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vartr_box_B(v: &Box<[VarTr]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vartr_box(v: &Box<[VarTr]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vartr_box() -> usize { <Box<[VarTr]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pretr_L(r: &mut Pr<LE>) -> Result<PreTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pretr_L(r: &mut Prc<LE>) -> Result<PreTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pretr_L(v: &PreTr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pretr_L(v: &PreTr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pretr_B(r: &mut Pr<BE>) -> Result<PreTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pretr_B(r: &mut Prc<BE>) -> Result<PreTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pretr_B(v: &PreTr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pretr(v: &PreTr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pretr() -> usize { <PreTr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pretr_vec_L(r: &mut Pr<LE>) -> Result<Vec<PreTr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pretr_vec_L(r: &mut Prc<LE>) -> Result<Vec<PreTr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pretr_vec_L(v: &Vec<PreTr>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pretr_vec_L(v: &Vec<PreTr>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pretr_vec_B(r: &mut Pr<BE>) -> Result<Vec<PreTr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pretr_vec_B(r: &mut Prc<BE>) -> Result<Vec<PreTr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pretr_vec_B(v: &Vec<PreTr>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pretr_vec(v: &Vec<PreTr>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pretr_vec() -> usize { <Vec<PreTr> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pretr_arr_L(r: &mut Pr<LE>) -> Result<[PreTr; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pretr_arr_L(r: &mut Prc<LE>) -> Result<[PreTr; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pretr_arr_L(v: &[PreTr; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pretr_arr_L(v: &[PreTr; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pretr_arr_B(r: &mut Pr<BE>) -> Result<[PreTr; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pretr_arr_B(r: &mut Prc<BE>) -> Result<[PreTr; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pretr_arr_B(v: &[PreTr; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pretr_arr(v: &[PreTr; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pretr_arr() -> usize { <[PreTr; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pretr_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [PreTr]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_pretr_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [PreTr]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_pretr_cow_L<'a>(v: &Cow<'a, [PreTr]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pretr_cow_L<'a>(v: &Cow<'a, [PreTr]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pretr_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [PreTr]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_pretr_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [PreTr]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_pretr_cow_B<'a>(v: &Cow<'a, [PreTr]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pretr_cow<'a>(v: &Cow<'a, [PreTr]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pretr_cow<'a>() -> usize { <Cow<'a, [PreTr]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pretr_box_L(r: &mut Pr<LE>) -> Result<Box<[PreTr]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pretr_box_L(r: &mut Prc<LE>) -> Result<Box<[PreTr]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pretr_box_L(v: &Box<[PreTr]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pretr_box_L(v: &Box<[PreTr]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pretr_box_B(r: &mut Pr<BE>) -> Result<Box<[PreTr]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pretr_box_B(r: &mut Prc<BE>) -> Result<Box<[PreTr]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pretr_box_B(v: &Box<[PreTr]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pretr_box(v: &Box<[PreTr]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pretr_box() -> usize { <Box<[PreTr]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eoftr_L(r: &mut Pr<LE>) -> Result<EofTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eoftr_L(r: &mut Prc<LE>) -> Result<EofTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eoftr_L(v: &EofTr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eoftr_L(v: &EofTr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eoftr_B(r: &mut Pr<BE>) -> Result<EofTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eoftr_B(r: &mut Prc<BE>) -> Result<EofTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eoftr_B(v: &EofTr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eoftr(v: &EofTr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eoftr() -> usize { <EofTr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skptr_L(r: &mut Pr<LE>) -> Result<SkpTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skptr_L(r: &mut Prc<LE>) -> Result<SkpTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skptr_L(v: &SkpTr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skptr_L(v: &SkpTr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skptr_B(r: &mut Pr<BE>) -> Result<SkpTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skptr_B(r: &mut Prc<BE>) -> Result<SkpTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skptr_B(v: &SkpTr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skptr(v: &SkpTr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skptr() -> usize { <SkpTr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skptr_vec_L(r: &mut Pr<LE>) -> Result<Vec<SkpTr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skptr_vec_L(r: &mut Prc<LE>) -> Result<Vec<SkpTr>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skptr_vec_L(v: &Vec<SkpTr>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skptr_vec_L(v: &Vec<SkpTr>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skptr_vec_B(r: &mut Pr<BE>) -> Result<Vec<SkpTr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skptr_vec_B(r: &mut Prc<BE>) -> Result<Vec<SkpTr>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skptr_vec_B(v: &Vec<SkpTr>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skptr_vec(v: &Vec<SkpTr>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skptr_vec() -> usize { <Vec<SkpTr> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skptr_arr_L(r: &mut Pr<LE>) -> Result<[SkpTr; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skptr_arr_L(r: &mut Prc<LE>) -> Result<[SkpTr; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skptr_arr_L(v: &[SkpTr; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skptr_arr_L(v: &[SkpTr; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skptr_arr_B(r: &mut Pr<BE>) -> Result<[SkpTr; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skptr_arr_B(r: &mut Prc<BE>) -> Result<[SkpTr; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skptr_arr_B(v: &[SkpTr; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skptr_arr(v: &[SkpTr; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skptr_arr() -> usize { <[SkpTr; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skptr_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [SkpTr]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_skptr_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [SkpTr]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_skptr_cow_L<'a>(v: &Cow<'a, [SkpTr]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skptr_cow_L<'a>(v: &Cow<'a, [SkpTr]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skptr_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [SkpTr]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_skptr_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [SkpTr]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_skptr_cow_B<'a>(v: &Cow<'a, [SkpTr]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skptr_cow<'a>(v: &Cow<'a, [SkpTr]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skptr_cow<'a>() -> usize { <Cow<'a, [SkpTr]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skptr_box_L(r: &mut Pr<LE>) -> Result<Box<[SkpTr]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skptr_box_L(r: &mut Prc<LE>) -> Result<Box<[SkpTr]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skptr_box_L(v: &Box<[SkpTr]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skptr_box_L(v: &Box<[SkpTr]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skptr_box_B(r: &mut Pr<BE>) -> Result<Box<[SkpTr]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skptr_box_B(r: &mut Prc<BE>) -> Result<Box<[SkpTr]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skptr_box_B(v: &Box<[SkpTr]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skptr_box(v: &Box<[SkpTr]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skptr_box() -> usize { <Box<[SkpTr]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varpk_L(r: &mut Pr<LE>) -> Result<VarPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varpk_L(r: &mut Prc<LE>) -> Result<VarPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varpk_L(v: &VarPk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varpk_L(v: &VarPk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varpk_B(r: &mut Pr<BE>) -> Result<VarPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varpk_B(r: &mut Prc<BE>) -> Result<VarPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varpk_B(v: &VarPk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varpk(v: &VarPk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varpk() -> usize { <VarPk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varpk_vec_L(r: &mut Pr<LE>) -> Result<Vec<VarPk>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varpk_vec_L(r: &mut Prc<LE>) -> Result<Vec<VarPk>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varpk_vec_L(v: &Vec<VarPk>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varpk_vec_L(v: &Vec<VarPk>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varpk_vec_B(r: &mut Pr<BE>) -> Result<Vec<VarPk>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varpk_vec_B(r: &mut Prc<BE>) -> Result<Vec<VarPk>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varpk_vec_B(v: &Vec<VarPk>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varpk_vec(v: &Vec<VarPk>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varpk_vec() -> usize { <Vec<VarPk> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varpk_arr_L(r: &mut Pr<LE>) -> Result<[VarPk; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varpk_arr_L(r: &mut Prc<LE>) -> Result<[VarPk; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varpk_arr_L(v: &[VarPk; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varpk_arr_L(v: &[VarPk; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varpk_arr_B(r: &mut Pr<BE>) -> Result<[VarPk; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varpk_arr_B(r: &mut Prc<BE>) -> Result<[VarPk; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varpk_arr_B(v: &[VarPk; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varpk_arr(v: &[VarPk; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varpk_arr() -> usize { <[VarPk; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varpk_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [VarPk]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_varpk_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [VarPk]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_varpk_cow_L<'a>(v: &Cow<'a, [VarPk]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varpk_cow_L<'a>(v: &Cow<'a, [VarPk]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varpk_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [VarPk]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_varpk_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [VarPk]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_varpk_cow_B<'a>(v: &Cow<'a, [VarPk]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varpk_cow<'a>(v: &Cow<'a, [VarPk]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varpk_cow<'a>() -> usize { <Cow<'a, [VarPk]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varpk_box_L(r: &mut Pr<LE>) -> Result<Box<[VarPk]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varpk_box_L(r: &mut Prc<LE>) -> Result<Box<[VarPk]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varpk_box_L(v: &Box<[VarPk]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varpk_box_L(v: &Box<[VarPk]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varpk_box_B(r: &mut Pr<BE>) -> Result<Box<[VarPk]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varpk_box_B(r: &mut Prc<BE>) -> Result<Box<[VarPk]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varpk_box_B(v: &Box<[VarPk]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varpk_box(v: &Box<[VarPk]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varpk_box() -> usize { <Box<[VarPk]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_prepk_L(r: &mut Pr<LE>) -> Result<PrePk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_prepk_L(r: &mut Prc<LE>) -> Result<PrePk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_prepk_L(v: &PrePk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_prepk_L(v: &PrePk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_prepk_B(r: &mut Pr<BE>) -> Result<PrePk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_prepk_B(r: &mut Prc<BE>) -> Result<PrePk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_prepk_B(v: &PrePk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_prepk(v: &PrePk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_prepk() -> usize { <PrePk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_prepk_vec_L(r: &mut Pr<LE>) -> Result<Vec<PrePk>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_prepk_vec_L(r: &mut Prc<LE>) -> Result<Vec<PrePk>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_prepk_vec_L(v: &Vec<PrePk>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_prepk_vec_L(v: &Vec<PrePk>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_prepk_vec_B(r: &mut Pr<BE>) -> Result<Vec<PrePk>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_prepk_vec_B(r: &mut Prc<BE>) -> Result<Vec<PrePk>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_prepk_vec_B(v: &Vec<PrePk>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_prepk_vec(v: &Vec<PrePk>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_prepk_vec() -> usize { <Vec<PrePk> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_prepk_arr_L(r: &mut Pr<LE>) -> Result<[PrePk; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_prepk_arr_L(r: &mut Prc<LE>) -> Result<[PrePk; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_prepk_arr_L(v: &[PrePk; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_prepk_arr_L(v: &[PrePk; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_prepk_arr_B(r: &mut Pr<BE>) -> Result<[PrePk; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_prepk_arr_B(r: &mut Prc<BE>) -> Result<[PrePk; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_prepk_arr_B(v: &[PrePk; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_prepk_arr(v: &[PrePk; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_prepk_arr() -> usize { <[PrePk; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_prepk_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [PrePk]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_prepk_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [PrePk]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_prepk_cow_L<'a>(v: &Cow<'a, [PrePk]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_prepk_cow_L<'a>(v: &Cow<'a, [PrePk]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_prepk_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [PrePk]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_prepk_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [PrePk]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_prepk_cow_B<'a>(v: &Cow<'a, [PrePk]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_prepk_cow<'a>(v: &Cow<'a, [PrePk]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_prepk_cow<'a>() -> usize { <Cow<'a, [PrePk]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_prepk_box_L(r: &mut Pr<LE>) -> Result<Box<[PrePk]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_prepk_box_L(r: &mut Prc<LE>) -> Result<Box<[PrePk]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_prepk_box_L(v: &Box<[PrePk]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_prepk_box_L(v: &Box<[PrePk]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_prepk_box_B(r: &mut Pr<BE>) -> Result<Box<[PrePk]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_prepk_box_B(r: &mut Prc<BE>) -> Result<Box<[PrePk]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_prepk_box_B(v: &Box<[PrePk]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_prepk_box(v: &Box<[PrePk]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_prepk_box() -> usize { <Box<[PrePk]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eofpk_L(r: &mut Pr<LE>) -> Result<EofPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eofpk_L(r: &mut Prc<LE>) -> Result<EofPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eofpk_L(v: &EofPk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eofpk_L(v: &EofPk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eofpk_B(r: &mut Pr<BE>) -> Result<EofPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eofpk_B(r: &mut Prc<BE>) -> Result<EofPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eofpk_B(v: &EofPk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eofpk(v: &EofPk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eofpk() -> usize { <EofPk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skppk_L(r: &mut Pr<LE>) -> Result<SkpPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skppk_L(r: &mut Prc<LE>) -> Result<SkpPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skppk_L(v: &SkpPk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skppk_L(v: &SkpPk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skppk_B(r: &mut Pr<BE>) -> Result<SkpPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skppk_B(r: &mut Prc<BE>) -> Result<SkpPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skppk_B(v: &SkpPk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skppk(v: &SkpPk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skppk() -> usize { <SkpPk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skppk_vec_L(r: &mut Pr<LE>) -> Result<Vec<SkpPk>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skppk_vec_L(r: &mut Prc<LE>) -> Result<Vec<SkpPk>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skppk_vec_L(v: &Vec<SkpPk>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skppk_vec_L(v: &Vec<SkpPk>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skppk_vec_B(r: &mut Pr<BE>) -> Result<Vec<SkpPk>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skppk_vec_B(r: &mut Prc<BE>) -> Result<Vec<SkpPk>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skppk_vec_B(v: &Vec<SkpPk>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skppk_vec(v: &Vec<SkpPk>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skppk_vec() -> usize { <Vec<SkpPk> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skppk_arr_L(r: &mut Pr<LE>) -> Result<[SkpPk; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skppk_arr_L(r: &mut Prc<LE>) -> Result<[SkpPk; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skppk_arr_L(v: &[SkpPk; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skppk_arr_L(v: &[SkpPk; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skppk_arr_B(r: &mut Pr<BE>) -> Result<[SkpPk; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skppk_arr_B(r: &mut Prc<BE>) -> Result<[SkpPk; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skppk_arr_B(v: &[SkpPk; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skppk_arr(v: &[SkpPk; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skppk_arr() -> usize { <[SkpPk; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skppk_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [SkpPk]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_skppk_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [SkpPk]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_skppk_cow_L<'a>(v: &Cow<'a, [SkpPk]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skppk_cow_L<'a>(v: &Cow<'a, [SkpPk]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skppk_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [SkpPk]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_skppk_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [SkpPk]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_skppk_cow_B<'a>(v: &Cow<'a, [SkpPk]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skppk_cow<'a>(v: &Cow<'a, [SkpPk]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skppk_cow<'a>() -> usize { <Cow<'a, [SkpPk]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skppk_box_L(r: &mut Pr<LE>) -> Result<Box<[SkpPk]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skppk_box_L(r: &mut Prc<LE>) -> Result<Box<[SkpPk]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skppk_box_L(v: &Box<[SkpPk]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skppk_box_L(v: &Box<[SkpPk]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skppk_box_B(r: &mut Pr<BE>) -> Result<Box<[SkpPk]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skppk_box_B(r: &mut Prc<BE>) -> Result<Box<[SkpPk]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skppk_box_B(v: &Box<[SkpPk]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skppk_box(v: &Box<[SkpPk]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skppk_box() -> usize { <Box<[SkpPk]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varcc_L(r: &mut Pr<LE>) -> Result<VarCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varcc_L(r: &mut Prc<LE>) -> Result<VarCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varcc_L(v: &VarCc, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varcc_L(v: &VarCc, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varcc_B(r: &mut Pr<BE>) -> Result<VarCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varcc_B(r: &mut Prc<BE>) -> Result<VarCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varcc_B(v: &VarCc, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varcc(v: &VarCc) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varcc() -> usize { <VarCc as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varcc_vec_L(r: &mut Pr<LE>) -> Result<Vec<VarCc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varcc_vec_L(r: &mut Prc<LE>) -> Result<Vec<VarCc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varcc_vec_L(v: &Vec<VarCc>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varcc_vec_L(v: &Vec<VarCc>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varcc_vec_B(r: &mut Pr<BE>) -> Result<Vec<VarCc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varcc_vec_B(r: &mut Prc<BE>) -> Result<Vec<VarCc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varcc_vec_B(v: &Vec<VarCc>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varcc_vec(v: &Vec<VarCc>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varcc_vec() -> usize { <Vec<VarCc> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varcc_arr_L(r: &mut Pr<LE>) -> Result<[VarCc; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varcc_arr_L(r: &mut Prc<LE>) -> Result<[VarCc; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varcc_arr_L(v: &[VarCc; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varcc_arr_L(v: &[VarCc; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varcc_arr_B(r: &mut Pr<BE>) -> Result<[VarCc; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varcc_arr_B(r: &mut Prc<BE>) -> Result<[VarCc; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varcc_arr_B(v: &[VarCc; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varcc_arr(v: &[VarCc; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varcc_arr() -> usize { <[VarCc; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varcc_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [VarCc]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_varcc_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [VarCc]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_varcc_cow_L<'a>(v: &Cow<'a, [VarCc]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varcc_cow_L<'a>(v: &Cow<'a, [VarCc]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varcc_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [VarCc]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_varcc_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [VarCc]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_varcc_cow_B<'a>(v: &Cow<'a, [VarCc]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varcc_cow<'a>(v: &Cow<'a, [VarCc]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varcc_cow<'a>() -> usize { <Cow<'a, [VarCc]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_varcc_box_L(r: &mut Pr<LE>) -> Result<Box<[VarCc]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_varcc_box_L(r: &mut Prc<LE>) -> Result<Box<[VarCc]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_varcc_box_L(v: &Box<[VarCc]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_varcc_box_L(v: &Box<[VarCc]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_varcc_box_B(r: &mut Pr<BE>) -> Result<Box<[VarCc]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_varcc_box_B(r: &mut Prc<BE>) -> Result<Box<[VarCc]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_varcc_box_B(v: &Box<[VarCc]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_varcc_box(v: &Box<[VarCc]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_varcc_box() -> usize { <Box<[VarCc]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_precc_L(r: &mut Pr<LE>) -> Result<PreCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_precc_L(r: &mut Prc<LE>) -> Result<PreCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_precc_L(v: &PreCc, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_precc_L(v: &PreCc, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_precc_B(r: &mut Pr<BE>) -> Result<PreCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_precc_B(r: &mut Prc<BE>) -> Result<PreCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_precc_B(v: &PreCc, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_precc(v: &PreCc) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_precc() -> usize { <PreCc as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_precc_vec_L(r: &mut Pr<LE>) -> Result<Vec<PreCc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_precc_vec_L(r: &mut Prc<LE>) -> Result<Vec<PreCc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_precc_vec_L(v: &Vec<PreCc>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_precc_vec_L(v: &Vec<PreCc>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_precc_vec_B(r: &mut Pr<BE>) -> Result<Vec<PreCc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_precc_vec_B(r: &mut Prc<BE>) -> Result<Vec<PreCc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_precc_vec_B(v: &Vec<PreCc>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_precc_vec(v: &Vec<PreCc>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_precc_vec() -> usize { <Vec<PreCc> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_precc_arr_L(r: &mut Pr<LE>) -> Result<[PreCc; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_precc_arr_L(r: &mut Prc<LE>) -> Result<[PreCc; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_precc_arr_L(v: &[PreCc; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_precc_arr_L(v: &[PreCc; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_precc_arr_B(r: &mut Pr<BE>) -> Result<[PreCc; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_precc_arr_B(r: &mut Prc<BE>) -> Result<[PreCc; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_precc_arr_B(v: &[PreCc; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_precc_arr(v: &[PreCc; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_precc_arr() -> usize { <[PreCc; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_precc_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [PreCc]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_precc_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [PreCc]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_precc_cow_L<'a>(v: &Cow<'a, [PreCc]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_precc_cow_L<'a>(v: &Cow<'a, [PreCc]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_precc_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [PreCc]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_precc_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [PreCc]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_precc_cow_B<'a>(v: &Cow<'a, [PreCc]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_precc_cow<'a>(v: &Cow<'a, [PreCc]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_precc_cow<'a>() -> usize { <Cow<'a, [PreCc]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_precc_box_L(r: &mut Pr<LE>) -> Result<Box<[PreCc]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_precc_box_L(r: &mut Prc<LE>) -> Result<Box<[PreCc]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_precc_box_L(v: &Box<[PreCc]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_precc_box_L(v: &Box<[PreCc]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_precc_box_B(r: &mut Pr<BE>) -> Result<Box<[PreCc]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_precc_box_B(r: &mut Prc<BE>) -> Result<Box<[PreCc]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_precc_box_B(v: &Box<[PreCc]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_precc_box(v: &Box<[PreCc]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_precc_box() -> usize { <Box<[PreCc]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eofcc_L(r: &mut Pr<LE>) -> Result<EofCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eofcc_L(r: &mut Prc<LE>) -> Result<EofCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eofcc_L(v: &EofCc, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eofcc_L(v: &EofCc, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eofcc_B(r: &mut Pr<BE>) -> Result<EofCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eofcc_B(r: &mut Prc<BE>) -> Result<EofCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eofcc_B(v: &EofCc, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eofcc(v: &EofCc) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eofcc() -> usize { <EofCc as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skpcc_L(r: &mut Pr<LE>) -> Result<SkpCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skpcc_L(r: &mut Prc<LE>) -> Result<SkpCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skpcc_L(v: &SkpCc, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skpcc_L(v: &SkpCc, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skpcc_B(r: &mut Pr<BE>) -> Result<SkpCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skpcc_B(r: &mut Prc<BE>) -> Result<SkpCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skpcc_B(v: &SkpCc, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skpcc(v: &SkpCc) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skpcc() -> usize { <SkpCc as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skpcc_vec_L(r: &mut Pr<LE>) -> Result<Vec<SkpCc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skpcc_vec_L(r: &mut Prc<LE>) -> Result<Vec<SkpCc>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skpcc_vec_L(v: &Vec<SkpCc>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skpcc_vec_L(v: &Vec<SkpCc>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skpcc_vec_B(r: &mut Pr<BE>) -> Result<Vec<SkpCc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skpcc_vec_B(r: &mut Prc<BE>) -> Result<Vec<SkpCc>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skpcc_vec_B(v: &Vec<SkpCc>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skpcc_vec(v: &Vec<SkpCc>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skpcc_vec() -> usize { <Vec<SkpCc> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skpcc_arr_L(r: &mut Pr<LE>) -> Result<[SkpCc; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skpcc_arr_L(r: &mut Prc<LE>) -> Result<[SkpCc; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skpcc_arr_L(v: &[SkpCc; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skpcc_arr_L(v: &[SkpCc; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skpcc_arr_B(r: &mut Pr<BE>) -> Result<[SkpCc; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skpcc_arr_B(r: &mut Prc<BE>) -> Result<[SkpCc; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skpcc_arr_B(v: &[SkpCc; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skpcc_arr(v: &[SkpCc; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skpcc_arr() -> usize { <[SkpCc; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skpcc_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [SkpCc]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_skpcc_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [SkpCc]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_skpcc_cow_L<'a>(v: &Cow<'a, [SkpCc]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skpcc_cow_L<'a>(v: &Cow<'a, [SkpCc]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skpcc_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [SkpCc]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_skpcc_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [SkpCc]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_skpcc_cow_B<'a>(v: &Cow<'a, [SkpCc]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skpcc_cow<'a>(v: &Cow<'a, [SkpCc]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skpcc_cow<'a>() -> usize { <Cow<'a, [SkpCc]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skpcc_box_L(r: &mut Pr<LE>) -> Result<Box<[SkpCc]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skpcc_box_L(r: &mut Prc<LE>) -> Result<Box<[SkpCc]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skpcc_box_L(v: &Box<[SkpCc]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skpcc_box_L(v: &Box<[SkpCc]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skpcc_box_B(r: &mut Pr<BE>) -> Result<Box<[SkpCc]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skpcc_box_B(r: &mut Prc<BE>) -> Result<Box<[SkpCc]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skpcc_box_B(v: &Box<[SkpCc]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skpcc_box(v: &Box<[SkpCc]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skpcc_box() -> usize { <Box<[SkpCc]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var2_L(r: &mut Pr<LE>) -> Result<Var2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var2_L(r: &mut Prc<LE>) -> Result<Var2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var2_L(v: &Var2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var2_L(v: &Var2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var2_B(r: &mut Pr<BE>) -> Result<Var2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var2_B(r: &mut Prc<BE>) -> Result<Var2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var2_B(v: &Var2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var2(v: &Var2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var2() -> usize { <Var2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var2_vec_L(r: &mut Pr<LE>) -> Result<Vec<Var2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var2_vec_L(r: &mut Prc<LE>) -> Result<Vec<Var2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var2_vec_L(v: &Vec<Var2>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var2_vec_L(v: &Vec<Var2>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var2_vec_B(r: &mut Pr<BE>) -> Result<Vec<Var2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var2_vec_B(r: &mut Prc<BE>) -> Result<Vec<Var2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var2_vec_B(v: &Vec<Var2>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var2_vec(v: &Vec<Var2>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var2_vec() -> usize { <Vec<Var2> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var2_arr_L(r: &mut Pr<LE>) -> Result<[Var2; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var2_arr_L(r: &mut Prc<LE>) -> Result<[Var2; 1], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var2_arr_L(v: &[Var2; 1], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var2_arr_L(v: &[Var2; 1], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var2_arr_B(r: &mut Pr<BE>) -> Result<[Var2; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var2_arr_B(r: &mut Prc<BE>) -> Result<[Var2; 1], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var2_arr_B(v: &[Var2; 1], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var2_arr(v: &[Var2; 1]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var2_arr() -> usize { <[Var2; 1] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var2_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Var2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_var2_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Var2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_var2_cow_L<'a>(v: &Cow<'a, [Var2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var2_cow_L<'a>(v: &Cow<'a, [Var2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var2_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Var2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_var2_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Var2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_var2_cow_B<'a>(v: &Cow<'a, [Var2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var2_cow<'a>(v: &Cow<'a, [Var2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var2_cow<'a>() -> usize { <Cow<'a, [Var2]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_var2_box_L(r: &mut Pr<LE>) -> Result<Box<[Var2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_var2_box_L(r: &mut Prc<LE>) -> Result<Box<[Var2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_var2_box_L(v: &Box<[Var2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_var2_box_L(v: &Box<[Var2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_var2_box_B(r: &mut Pr<BE>) -> Result<Box<[Var2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_var2_box_B(r: &mut Prc<BE>) -> Result<Box<[Var2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_var2_box_B(v: &Box<[Var2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_var2_box(v: &Box<[Var2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_var2_box() -> usize { <Box<[Var2]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2_L(r: &mut Pr<LE>) -> Result<Skp2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2_L(r: &mut Prc<LE>) -> Result<Skp2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2_L(v: &Skp2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2_L(v: &Skp2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2_B(r: &mut Pr<BE>) -> Result<Skp2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2_B(r: &mut Prc<BE>) -> Result<Skp2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2_B(v: &Skp2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2(v: &Skp2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2() -> usize { <Skp2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2_vec_L(r: &mut Pr<LE>) -> Result<Vec<Skp2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2_vec_L(r: &mut Prc<LE>) -> Result<Vec<Skp2>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2_vec_L(v: &Vec<Skp2>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2_vec_L(v: &Vec<Skp2>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2_vec_B(r: &mut Pr<BE>) -> Result<Vec<Skp2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2_vec_B(r: &mut Prc<BE>) -> Result<Vec<Skp2>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2_vec_B(v: &Vec<Skp2>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2_vec(v: &Vec<Skp2>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2_vec() -> usize { <Vec<Skp2> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2_arr_L(r: &mut Pr<LE>) -> Result<[Skp2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2_arr_L(r: &mut Prc<LE>) -> Result<[Skp2; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2_arr_L(v: &[Skp2; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2_arr_L(v: &[Skp2; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2_arr_B(r: &mut Pr<BE>) -> Result<[Skp2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2_arr_B(r: &mut Prc<BE>) -> Result<[Skp2; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2_arr_B(v: &[Skp2; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2_arr(v: &[Skp2; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2_arr() -> usize { <[Skp2; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Skp2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_skp2_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Skp2]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_skp2_cow_L<'a>(v: &Cow<'a, [Skp2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2_cow_L<'a>(v: &Cow<'a, [Skp2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Skp2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_skp2_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Skp2]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_skp2_cow_B<'a>(v: &Cow<'a, [Skp2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2_cow<'a>(v: &Cow<'a, [Skp2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2_cow<'a>() -> usize { <Cow<'a, [Skp2]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2_box_L(r: &mut Pr<LE>) -> Result<Box<[Skp2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2_box_L(r: &mut Prc<LE>) -> Result<Box<[Skp2]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2_box_L(v: &Box<[Skp2]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2_box_L(v: &Box<[Skp2]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2_box_B(r: &mut Pr<BE>) -> Result<Box<[Skp2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2_box_B(r: &mut Prc<BE>) -> Result<Box<[Skp2]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2_box_B(v: &Box<[Skp2]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2_box(v: &Box<[Skp2]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2_box() -> usize { <Box<[Skp2]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2c_L(r: &mut Pr<LE>) -> Result<Skp2C, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2c_L(r: &mut Prc<LE>) -> Result<Skp2C, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2c_L(v: &Skp2C, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2c_L(v: &Skp2C, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2c_B(r: &mut Pr<BE>) -> Result<Skp2C, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2c_B(r: &mut Prc<BE>) -> Result<Skp2C, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2c_B(v: &Skp2C, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2c(v: &Skp2C) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2c() -> usize { <Skp2C as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2c_vec_L(r: &mut Pr<LE>) -> Result<Vec<Skp2C>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2c_vec_L(r: &mut Prc<LE>) -> Result<Vec<Skp2C>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2c_vec_L(v: &Vec<Skp2C>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2c_vec_L(v: &Vec<Skp2C>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2c_vec_B(r: &mut Pr<BE>) -> Result<Vec<Skp2C>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2c_vec_B(r: &mut Prc<BE>) -> Result<Vec<Skp2C>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2c_vec_B(v: &Vec<Skp2C>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2c_vec(v: &Vec<Skp2C>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2c_vec() -> usize { <Vec<Skp2C> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2c_arr_L(r: &mut Pr<LE>) -> Result<[Skp2C; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2c_arr_L(r: &mut Prc<LE>) -> Result<[Skp2C; 3], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2c_arr_L(v: &[Skp2C; 3], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2c_arr_L(v: &[Skp2C; 3], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2c_arr_B(r: &mut Pr<BE>) -> Result<[Skp2C; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2c_arr_B(r: &mut Prc<BE>) -> Result<[Skp2C; 3], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2c_arr_B(v: &[Skp2C; 3], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2c_arr(v: &[Skp2C; 3]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2c_arr() -> usize { <[Skp2C; 3] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2c_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Skp2C]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_skp2c_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Skp2C]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_skp2c_cow_L<'a>(v: &Cow<'a, [Skp2C]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2c_cow_L<'a>(v: &Cow<'a, [Skp2C]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2c_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Skp2C]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_skp2c_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Skp2C]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_skp2c_cow_B<'a>(v: &Cow<'a, [Skp2C]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2c_cow<'a>(v: &Cow<'a, [Skp2C]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2c_cow<'a>() -> usize { <Cow<'a, [Skp2C]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skp2c_box_L(r: &mut Pr<LE>) -> Result<Box<[Skp2C]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skp2c_box_L(r: &mut Prc<LE>) -> Result<Box<[Skp2C]>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skp2c_box_L(v: &Box<[Skp2C]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skp2c_box_L(v: &Box<[Skp2C]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skp2c_box_B(r: &mut Pr<BE>) -> Result<Box<[Skp2C]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skp2c_box_B(r: &mut Prc<BE>) -> Result<Box<[Skp2C]>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skp2c_box_B(v: &Box<[Skp2C]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skp2c_box(v: &Box<[Skp2C]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skp2c_box() -> usize { <Box<[Skp2C]> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refu8_L<'a>(r: &mut Pr<LE>) -> Result<RefU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refu8_L<'a>(r: &mut Prc<LE>) -> Result<RefU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refu8_L<'a>(v: &RefU8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refu8_L<'a>(v: &RefU8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refu8_B<'a>(r: &mut Pr<BE>) -> Result<RefU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refu8_B<'a>(r: &mut Prc<BE>) -> Result<RefU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refu8_B<'a>(v: &RefU8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refu8<'a>(v: &RefU8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refu8<'a>() -> usize { <RefU8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reflu8_L<'a>(r: &mut Pr<LE>) -> Result<RefLU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reflu8_L<'a>(r: &mut Prc<LE>) -> Result<RefLU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reflu8_L<'a>(v: &RefLU8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reflu8_L<'a>(v: &RefLU8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reflu8_B<'a>(r: &mut Pr<BE>) -> Result<RefLU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reflu8_B<'a>(r: &mut Prc<BE>) -> Result<RefLU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reflu8_B<'a>(v: &RefLU8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reflu8<'a>(v: &RefLU8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reflu8<'a>() -> usize { <RefLU8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refeu8_L<'a>(r: &mut Pr<LE>) -> Result<RefEU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refeu8_L<'a>(r: &mut Prc<LE>) -> Result<RefEU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refeu8_L<'a>(v: &RefEU8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refeu8_L<'a>(v: &RefEU8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refeu8_B<'a>(r: &mut Pr<BE>) -> Result<RefEU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refeu8_B<'a>(r: &mut Prc<BE>) -> Result<RefEU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refeu8_B<'a>(v: &RefEU8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refeu8<'a>(v: &RefEU8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refeu8<'a>() -> usize { <RefEU8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refou8_L<'a>(r: &mut Pr<LE>) -> Result<RefOU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refou8_L<'a>(r: &mut Prc<LE>) -> Result<RefOU8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refou8_L<'a>(v: &RefOU8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refou8_L<'a>(v: &RefOU8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refou8_B<'a>(r: &mut Pr<BE>) -> Result<RefOU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refou8_B<'a>(r: &mut Prc<BE>) -> Result<RefOU8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refou8_B<'a>(v: &RefOU8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refou8<'a>(v: &RefOU8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refou8<'a>() -> usize { <RefOU8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refi8_L<'a>(r: &mut Pr<LE>) -> Result<RefI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refi8_L<'a>(r: &mut Prc<LE>) -> Result<RefI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refi8_L<'a>(v: &RefI8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refi8_L<'a>(v: &RefI8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refi8_B<'a>(r: &mut Pr<BE>) -> Result<RefI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refi8_B<'a>(r: &mut Prc<BE>) -> Result<RefI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refi8_B<'a>(v: &RefI8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refi8<'a>(v: &RefI8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refi8<'a>() -> usize { <RefI8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refli8_L<'a>(r: &mut Pr<LE>) -> Result<RefLI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refli8_L<'a>(r: &mut Prc<LE>) -> Result<RefLI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refli8_L<'a>(v: &RefLI8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refli8_L<'a>(v: &RefLI8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refli8_B<'a>(r: &mut Pr<BE>) -> Result<RefLI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refli8_B<'a>(r: &mut Prc<BE>) -> Result<RefLI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refli8_B<'a>(v: &RefLI8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refli8<'a>(v: &RefLI8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refli8<'a>() -> usize { <RefLI8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refei8_L<'a>(r: &mut Pr<LE>) -> Result<RefEI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refei8_L<'a>(r: &mut Prc<LE>) -> Result<RefEI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refei8_L<'a>(v: &RefEI8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refei8_L<'a>(v: &RefEI8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refei8_B<'a>(r: &mut Pr<BE>) -> Result<RefEI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refei8_B<'a>(r: &mut Prc<BE>) -> Result<RefEI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refei8_B<'a>(v: &RefEI8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refei8<'a>(v: &RefEI8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refei8<'a>() -> usize { <RefEI8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refoi8_L<'a>(r: &mut Pr<LE>) -> Result<RefOI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refoi8_L<'a>(r: &mut Prc<LE>) -> Result<RefOI8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refoi8_L<'a>(v: &RefOI8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refoi8_L<'a>(v: &RefOI8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refoi8_B<'a>(r: &mut Pr<BE>) -> Result<RefOI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refoi8_B<'a>(r: &mut Prc<BE>) -> Result<RefOI8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refoi8_B<'a>(v: &RefOI8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refoi8<'a>(v: &RefOI8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refoi8<'a>() -> usize { <RefOI8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refu16_L<'a>(r: &mut Pr<LE>) -> Result<RefU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refu16_L<'a>(r: &mut Prc<LE>) -> Result<RefU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refu16_L<'a>(v: &RefU16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refu16_L<'a>(v: &RefU16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refu16_B<'a>(r: &mut Pr<BE>) -> Result<RefU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refu16_B<'a>(r: &mut Prc<BE>) -> Result<RefU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refu16_B<'a>(v: &RefU16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refu16<'a>(v: &RefU16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refu16<'a>() -> usize { <RefU16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reflu16_L<'a>(r: &mut Pr<LE>) -> Result<RefLU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reflu16_L<'a>(r: &mut Prc<LE>) -> Result<RefLU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reflu16_L<'a>(v: &RefLU16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reflu16_L<'a>(v: &RefLU16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reflu16_B<'a>(r: &mut Pr<BE>) -> Result<RefLU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reflu16_B<'a>(r: &mut Prc<BE>) -> Result<RefLU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reflu16_B<'a>(v: &RefLU16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reflu16<'a>(v: &RefLU16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reflu16<'a>() -> usize { <RefLU16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refeu16_L<'a>(r: &mut Pr<LE>) -> Result<RefEU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refeu16_L<'a>(r: &mut Prc<LE>) -> Result<RefEU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refeu16_L<'a>(v: &RefEU16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refeu16_L<'a>(v: &RefEU16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refeu16_B<'a>(r: &mut Pr<BE>) -> Result<RefEU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refeu16_B<'a>(r: &mut Prc<BE>) -> Result<RefEU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refeu16_B<'a>(v: &RefEU16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refeu16<'a>(v: &RefEU16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refeu16<'a>() -> usize { <RefEU16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refou16_L<'a>(r: &mut Pr<LE>) -> Result<RefOU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refou16_L<'a>(r: &mut Prc<LE>) -> Result<RefOU16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refou16_L<'a>(v: &RefOU16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refou16_L<'a>(v: &RefOU16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refou16_B<'a>(r: &mut Pr<BE>) -> Result<RefOU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refou16_B<'a>(r: &mut Prc<BE>) -> Result<RefOU16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refou16_B<'a>(v: &RefOU16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refou16<'a>(v: &RefOU16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refou16<'a>() -> usize { <RefOU16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reff64_L<'a>(r: &mut Pr<LE>) -> Result<RefF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reff64_L<'a>(r: &mut Prc<LE>) -> Result<RefF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reff64_L<'a>(v: &RefF64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reff64_L<'a>(v: &RefF64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reff64_B<'a>(r: &mut Pr<BE>) -> Result<RefF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reff64_B<'a>(r: &mut Prc<BE>) -> Result<RefF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reff64_B<'a>(v: &RefF64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reff64<'a>(v: &RefF64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reff64<'a>() -> usize { <RefF64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reflf64_L<'a>(r: &mut Pr<LE>) -> Result<RefLF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reflf64_L<'a>(r: &mut Prc<LE>) -> Result<RefLF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reflf64_L<'a>(v: &RefLF64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reflf64_L<'a>(v: &RefLF64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reflf64_B<'a>(r: &mut Pr<BE>) -> Result<RefLF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reflf64_B<'a>(r: &mut Prc<BE>) -> Result<RefLF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reflf64_B<'a>(v: &RefLF64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reflf64<'a>(v: &RefLF64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reflf64<'a>() -> usize { <RefLF64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refef64_L<'a>(r: &mut Pr<LE>) -> Result<RefEF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refef64_L<'a>(r: &mut Prc<LE>) -> Result<RefEF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refef64_L<'a>(v: &RefEF64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refef64_L<'a>(v: &RefEF64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refef64_B<'a>(r: &mut Pr<BE>) -> Result<RefEF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refef64_B<'a>(r: &mut Prc<BE>) -> Result<RefEF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refef64_B<'a>(v: &RefEF64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refef64<'a>(v: &RefEF64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refef64<'a>() -> usize { <RefEF64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refof64_L<'a>(r: &mut Pr<LE>) -> Result<RefOF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refof64_L<'a>(r: &mut Prc<LE>) -> Result<RefOF64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refof64_L<'a>(v: &RefOF64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refof64_L<'a>(v: &RefOF64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refof64_B<'a>(r: &mut Pr<BE>) -> Result<RefOF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refof64_B<'a>(r: &mut Prc<BE>) -> Result<RefOF64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refof64_B<'a>(v: &RefOF64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refof64<'a>(v: &RefOF64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refof64<'a>() -> usize { <RefOF64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refu128_L<'a>(r: &mut Pr<LE>) -> Result<RefU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refu128_L<'a>(r: &mut Prc<LE>) -> Result<RefU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refu128_L<'a>(v: &RefU128<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refu128_L<'a>(v: &RefU128<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refu128_B<'a>(r: &mut Pr<BE>) -> Result<RefU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refu128_B<'a>(r: &mut Prc<BE>) -> Result<RefU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refu128_B<'a>(v: &RefU128<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refu128<'a>(v: &RefU128<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refu128<'a>() -> usize { <RefU128<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reflu128_L<'a>(r: &mut Pr<LE>) -> Result<RefLU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reflu128_L<'a>(r: &mut Prc<LE>) -> Result<RefLU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reflu128_L<'a>(v: &RefLU128<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reflu128_L<'a>(v: &RefLU128<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reflu128_B<'a>(r: &mut Pr<BE>) -> Result<RefLU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reflu128_B<'a>(r: &mut Prc<BE>) -> Result<RefLU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reflu128_B<'a>(v: &RefLU128<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reflu128<'a>(v: &RefLU128<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reflu128<'a>() -> usize { <RefLU128<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refeu128_L<'a>(r: &mut Pr<LE>) -> Result<RefEU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refeu128_L<'a>(r: &mut Prc<LE>) -> Result<RefEU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refeu128_L<'a>(v: &RefEU128<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refeu128_L<'a>(v: &RefEU128<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refeu128_B<'a>(r: &mut Pr<BE>) -> Result<RefEU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refeu128_B<'a>(r: &mut Prc<BE>) -> Result<RefEU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refeu128_B<'a>(v: &RefEU128<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refeu128<'a>(v: &RefEU128<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refeu128<'a>() -> usize { <RefEU128<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refou128_L<'a>(r: &mut Pr<LE>) -> Result<RefOU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refou128_L<'a>(r: &mut Prc<LE>) -> Result<RefOU128<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refou128_L<'a>(v: &RefOU128<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refou128_L<'a>(v: &RefOU128<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refou128_B<'a>(r: &mut Pr<BE>) -> Result<RefOU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refou128_B<'a>(r: &mut Prc<BE>) -> Result<RefOU128<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refou128_B<'a>(v: &RefOU128<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refou128<'a>(v: &RefOU128<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refou128<'a>() -> usize { <RefOU128<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reftrr_L<'a>(r: &mut Pr<LE>) -> Result<RefTrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reftrr_L<'a>(r: &mut Prc<LE>) -> Result<RefTrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reftrr_L<'a>(v: &RefTrR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reftrr_L<'a>(v: &RefTrR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reftrr_B<'a>(r: &mut Pr<BE>) -> Result<RefTrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reftrr_B<'a>(r: &mut Prc<BE>) -> Result<RefTrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reftrr_B<'a>(v: &RefTrR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reftrr<'a>(v: &RefTrR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reftrr<'a>() -> usize { <RefTrR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refltrr_L<'a>(r: &mut Pr<LE>) -> Result<RefLTrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refltrr_L<'a>(r: &mut Prc<LE>) -> Result<RefLTrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refltrr_L<'a>(v: &RefLTrR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refltrr_L<'a>(v: &RefLTrR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refltrr_B<'a>(r: &mut Pr<BE>) -> Result<RefLTrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refltrr_B<'a>(r: &mut Prc<BE>) -> Result<RefLTrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refltrr_B<'a>(v: &RefLTrR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refltrr<'a>(v: &RefLTrR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refltrr<'a>() -> usize { <RefLTrR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refetrr_L<'a>(r: &mut Pr<LE>) -> Result<RefETrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refetrr_L<'a>(r: &mut Prc<LE>) -> Result<RefETrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refetrr_L<'a>(v: &RefETrR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refetrr_L<'a>(v: &RefETrR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refetrr_B<'a>(r: &mut Pr<BE>) -> Result<RefETrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refetrr_B<'a>(r: &mut Prc<BE>) -> Result<RefETrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refetrr_B<'a>(v: &RefETrR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refetrr<'a>(v: &RefETrR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refetrr<'a>() -> usize { <RefETrR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refotrr_L<'a>(r: &mut Pr<LE>) -> Result<RefOTrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refotrr_L<'a>(r: &mut Prc<LE>) -> Result<RefOTrR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refotrr_L<'a>(v: &RefOTrR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refotrr_L<'a>(v: &RefOTrR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refotrr_B<'a>(r: &mut Pr<BE>) -> Result<RefOTrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refotrr_B<'a>(r: &mut Prc<BE>) -> Result<RefOTrR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refotrr_B<'a>(v: &RefOTrR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refotrr<'a>(v: &RefOTrR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refotrr<'a>() -> usize { <RefOTrR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refpkr_L<'a>(r: &mut Pr<LE>) -> Result<RefPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refpkr_L<'a>(r: &mut Prc<LE>) -> Result<RefPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refpkr_L<'a>(v: &RefPkR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refpkr_L<'a>(v: &RefPkR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refpkr_B<'a>(r: &mut Pr<BE>) -> Result<RefPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refpkr_B<'a>(r: &mut Prc<BE>) -> Result<RefPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refpkr_B<'a>(v: &RefPkR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refpkr<'a>(v: &RefPkR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refpkr<'a>() -> usize { <RefPkR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_reflpkr_L<'a>(r: &mut Pr<LE>) -> Result<RefLPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_reflpkr_L<'a>(r: &mut Prc<LE>) -> Result<RefLPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_reflpkr_L<'a>(v: &RefLPkR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_reflpkr_L<'a>(v: &RefLPkR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_reflpkr_B<'a>(r: &mut Pr<BE>) -> Result<RefLPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_reflpkr_B<'a>(r: &mut Prc<BE>) -> Result<RefLPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_reflpkr_B<'a>(v: &RefLPkR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_reflpkr<'a>(v: &RefLPkR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_reflpkr<'a>() -> usize { <RefLPkR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refepkr_L<'a>(r: &mut Pr<LE>) -> Result<RefEPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refepkr_L<'a>(r: &mut Prc<LE>) -> Result<RefEPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refepkr_L<'a>(v: &RefEPkR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refepkr_L<'a>(v: &RefEPkR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refepkr_B<'a>(r: &mut Pr<BE>) -> Result<RefEPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refepkr_B<'a>(r: &mut Prc<BE>) -> Result<RefEPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refepkr_B<'a>(v: &RefEPkR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refepkr<'a>(v: &RefEPkR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refepkr<'a>() -> usize { <RefEPkR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_refopkr_L<'a>(r: &mut Pr<LE>) -> Result<RefOPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_refopkr_L<'a>(r: &mut Prc<LE>) -> Result<RefOPkR<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_refopkr_L<'a>(v: &RefOPkR<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_refopkr_L<'a>(v: &RefOPkR<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_refopkr_B<'a>(r: &mut Pr<BE>) -> Result<RefOPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_refopkr_B<'a>(r: &mut Prc<BE>) -> Result<RefOPkR<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_refopkr_B<'a>(v: &RefOPkR<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_refopkr<'a>(v: &RefOPkR<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_refopkr<'a>() -> usize { <RefOPkR<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringd_L(r: &mut Pr<LE>) -> Result<KStringD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringd_L(r: &mut Prc<LE>) -> Result<KStringD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringd_L(v: &KStringD, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringd_L(v: &KStringD, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringd_B(r: &mut Pr<BE>) -> Result<KStringD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringd_B(r: &mut Prc<BE>) -> Result<KStringD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringd_B(v: &KStringD, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringd(v: &KStringD) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringd() -> usize { <KStringD as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringtu7_L(r: &mut Pr<LE>) -> Result<KStringTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringtu7_L(r: &mut Prc<LE>) -> Result<KStringTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringtu7_L(v: &KStringTu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringtu7_L(v: &KStringTu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringtu7_B(r: &mut Pr<BE>) -> Result<KStringTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringtu7_B(r: &mut Prc<BE>) -> Result<KStringTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringtu7_B(v: &KStringTu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringtu7(v: &KStringTu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringtu7() -> usize { <KStringTu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringtu8_L(r: &mut Pr<LE>) -> Result<KStringTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringtu8_L(r: &mut Prc<LE>) -> Result<KStringTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringtu8_L(v: &KStringTu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringtu8_L(v: &KStringTu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringtu8_B(r: &mut Pr<BE>) -> Result<KStringTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringtu8_B(r: &mut Prc<BE>) -> Result<KStringTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringtu8_B(v: &KStringTu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringtu8(v: &KStringTu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringtu8() -> usize { <KStringTu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringtu16_L(r: &mut Pr<LE>) -> Result<KStringTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringtu16_L(r: &mut Prc<LE>) -> Result<KStringTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringtu16_L(v: &KStringTu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringtu16_L(v: &KStringTu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringtu16_B(r: &mut Pr<BE>) -> Result<KStringTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringtu16_B(r: &mut Prc<BE>) -> Result<KStringTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringtu16_B(v: &KStringTu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringtu16(v: &KStringTu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringtu16() -> usize { <KStringTu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringtu32_L(r: &mut Pr<LE>) -> Result<KStringTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringtu32_L(r: &mut Prc<LE>) -> Result<KStringTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringtu32_L(v: &KStringTu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringtu32_L(v: &KStringTu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringtu32_B(r: &mut Pr<BE>) -> Result<KStringTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringtu32_B(r: &mut Prc<BE>) -> Result<KStringTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringtu32_B(v: &KStringTu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringtu32(v: &KStringTu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringtu32() -> usize { <KStringTu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringtu64_L(r: &mut Pr<LE>) -> Result<KStringTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringtu64_L(r: &mut Prc<LE>) -> Result<KStringTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringtu64_L(v: &KStringTu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringtu64_L(v: &KStringTu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringtu64_B(r: &mut Pr<BE>) -> Result<KStringTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringtu64_B(r: &mut Prc<BE>) -> Result<KStringTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringtu64_B(v: &KStringTu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringtu64(v: &KStringTu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringtu64() -> usize { <KStringTu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringtu64varint_L(r: &mut Pr<LE>) -> Result<KStringTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringtu64varint_L(r: &mut Prc<LE>) -> Result<KStringTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringtu64varint_L(v: &KStringTu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringtu64varint_L(v: &KStringTu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringtu64varint_B(r: &mut Pr<BE>) -> Result<KStringTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringtu64varint_B(r: &mut Prc<BE>) -> Result<KStringTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringtu64varint_B(v: &KStringTu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringtu64varint(v: &KStringTu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringtu64varint() -> usize { <KStringTu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringln_L(r: &mut Pr<LE>) -> Result<KStringLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringln_L(r: &mut Prc<LE>) -> Result<KStringLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringln_L(v: &KStringLn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringln_L(v: &KStringLn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringln_B(r: &mut Pr<BE>) -> Result<KStringLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringln_B(r: &mut Prc<BE>) -> Result<KStringLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringln_B(v: &KStringLn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringln(v: &KStringLn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringln() -> usize { <KStringLn as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringldiv_L(r: &mut Pr<LE>) -> Result<KStringLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringldiv_L(r: &mut Prc<LE>) -> Result<KStringLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringldiv_L(v: &KStringLdiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringldiv_L(v: &KStringLdiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringldiv_B(r: &mut Pr<BE>) -> Result<KStringLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringldiv_B(r: &mut Prc<BE>) -> Result<KStringLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringldiv_B(v: &KStringLdiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringldiv(v: &KStringLdiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringldiv() -> usize { <KStringLdiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringlk_L(r: &mut Pr<LE>) -> Result<KStringLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringlk_L(r: &mut Prc<LE>) -> Result<KStringLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringlk_L(v: &KStringLk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringlk_L(v: &KStringLk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringlk_B(r: &mut Pr<BE>) -> Result<KStringLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringlk_B(r: &mut Prc<BE>) -> Result<KStringLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringlk_B(v: &KStringLk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringlk(v: &KStringLk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringlk() -> usize { <KStringLk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringlw_L(r: &mut Pr<LE>) -> Result<KStringLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringlw_L(r: &mut Prc<LE>) -> Result<KStringLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringlw_L(v: &KStringLw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringlw_L(v: &KStringLw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringlw_B(r: &mut Pr<BE>) -> Result<KStringLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringlw_B(r: &mut Prc<BE>) -> Result<KStringLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringlw_B(v: &KStringLw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringlw(v: &KStringLw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringlw() -> usize { <KStringLw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringll_L(r: &mut Pr<LE>) -> Result<KStringLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringll_L(r: &mut Prc<LE>) -> Result<KStringLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringll_L(v: &KStringLl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringll_L(v: &KStringLl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringll_B(r: &mut Pr<BE>) -> Result<KStringLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringll_B(r: &mut Prc<BE>) -> Result<KStringLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringll_B(v: &KStringLl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringll(v: &KStringLl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringll() -> usize { <KStringLl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringlz_L(r: &mut Pr<LE>) -> Result<KStringLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringlz_L(r: &mut Prc<LE>) -> Result<KStringLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringlz_L(v: &KStringLz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringlz_L(v: &KStringLz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringlz_B(r: &mut Pr<BE>) -> Result<KStringLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringlz_B(r: &mut Prc<BE>) -> Result<KStringLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringlz_B(v: &KStringLz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringlz(v: &KStringLz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringlz() -> usize { <KStringLz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringe_L(r: &mut Pr<LE>) -> Result<KStringE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringe_L(r: &mut Prc<LE>) -> Result<KStringE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringe_L(v: &KStringE, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringe_L(v: &KStringE, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringe_B(r: &mut Pr<BE>) -> Result<KStringE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringe_B(r: &mut Prc<BE>) -> Result<KStringE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringe_B(v: &KStringE, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringe(v: &KStringE) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringe() -> usize { <KStringE as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringo_L(r: &mut Pr<LE>) -> Result<KStringO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringo_L(r: &mut Prc<LE>) -> Result<KStringO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringo_L(v: &KStringO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringo_L(v: &KStringO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringo_B(r: &mut Pr<BE>) -> Result<KStringO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringo_B(r: &mut Prc<BE>) -> Result<KStringO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringo_B(v: &KStringO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringo(v: &KStringO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringo() -> usize { <KStringO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringot_L(r: &mut Pr<LE>) -> Result<KStringOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringot_L(r: &mut Prc<LE>) -> Result<KStringOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringot_L(v: &KStringOT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringot_L(v: &KStringOT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringot_B(r: &mut Pr<BE>) -> Result<KStringOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringot_B(r: &mut Prc<BE>) -> Result<KStringOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringot_B(v: &KStringOT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringot(v: &KStringOT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringot() -> usize { <KStringOT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringov_L(r: &mut Pr<LE>) -> Result<KStringOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringov_L(r: &mut Prc<LE>) -> Result<KStringOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringov_L(v: &KStringOV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringov_L(v: &KStringOV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringov_B(r: &mut Pr<BE>) -> Result<KStringOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringov_B(r: &mut Prc<BE>) -> Result<KStringOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringov_B(v: &KStringOV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringov(v: &KStringOV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringov() -> usize { <KStringOV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringp_L(r: &mut Pr<LE>) -> Result<KStringP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringp_L(r: &mut Prc<LE>) -> Result<KStringP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringp_L(v: &KStringP, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringp_L(v: &KStringP, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringp_B(r: &mut Pr<BE>) -> Result<KStringP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringp_B(r: &mut Prc<BE>) -> Result<KStringP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringp_B(v: &KStringP, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringp(v: &KStringP) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringp() -> usize { <KStringP as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringf_L(r: &mut Pr<LE>) -> Result<KStringF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringf_L(r: &mut Prc<LE>) -> Result<KStringF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringf_L(v: &KStringF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringf_L(v: &KStringF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringf_B(r: &mut Pr<BE>) -> Result<KStringF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringf_B(r: &mut Prc<BE>) -> Result<KStringF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringf_B(v: &KStringF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringf(v: &KStringF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringf() -> usize { <KStringF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringfo_L(r: &mut Pr<LE>) -> Result<KStringFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringfo_L(r: &mut Prc<LE>) -> Result<KStringFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringfo_L(v: &KStringFO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringfo_L(v: &KStringFO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringfo_B(r: &mut Pr<BE>) -> Result<KStringFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringfo_B(r: &mut Prc<BE>) -> Result<KStringFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringfo_B(v: &KStringFO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringfo(v: &KStringFO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringfo() -> usize { <KStringFO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstringfl_L(r: &mut Pr<LE>) -> Result<KStringFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstringfl_L(r: &mut Prc<LE>) -> Result<KStringFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstringfl_L(v: &KStringFL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstringfl_L(v: &KStringFL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstringfl_B(r: &mut Pr<BE>) -> Result<KStringFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstringfl_B(r: &mut Prc<BE>) -> Result<KStringFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstringfl_B(v: &KStringFL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstringfl(v: &KStringFL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstringfl() -> usize { <KStringFL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kstrings_L(r: &mut Pr<LE>) -> Result<KStringS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kstrings_L(r: &mut Prc<LE>) -> Result<KStringS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kstrings_L(v: &KStringS, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kstrings_L(v: &KStringS, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kstrings_B(r: &mut Pr<BE>) -> Result<KStringS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kstrings_B(r: &mut Prc<BE>) -> Result<KStringS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kstrings_B(v: &KStringS, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kstrings(v: &KStringS) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kstrings() -> usize { <KStringS as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8d_L(r: &mut Pr<LE>) -> Result<KVec8D, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8d_L(r: &mut Prc<LE>) -> Result<KVec8D, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8d_L(v: &KVec8D, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8d_L(v: &KVec8D, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8d_B(r: &mut Pr<BE>) -> Result<KVec8D, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8d_B(r: &mut Prc<BE>) -> Result<KVec8D, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8d_B(v: &KVec8D, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8d(v: &KVec8D) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8d() -> usize { <KVec8D as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8tu7_L(r: &mut Pr<LE>) -> Result<KVec8Tu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8tu7_L(r: &mut Prc<LE>) -> Result<KVec8Tu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8tu7_L(v: &KVec8Tu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8tu7_L(v: &KVec8Tu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8tu7_B(r: &mut Pr<BE>) -> Result<KVec8Tu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8tu7_B(r: &mut Prc<BE>) -> Result<KVec8Tu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8tu7_B(v: &KVec8Tu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8tu7(v: &KVec8Tu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8tu7() -> usize { <KVec8Tu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8tu8_L(r: &mut Pr<LE>) -> Result<KVec8Tu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8tu8_L(r: &mut Prc<LE>) -> Result<KVec8Tu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8tu8_L(v: &KVec8Tu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8tu8_L(v: &KVec8Tu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8tu8_B(r: &mut Pr<BE>) -> Result<KVec8Tu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8tu8_B(r: &mut Prc<BE>) -> Result<KVec8Tu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8tu8_B(v: &KVec8Tu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8tu8(v: &KVec8Tu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8tu8() -> usize { <KVec8Tu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8tu16_L(r: &mut Pr<LE>) -> Result<KVec8Tu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8tu16_L(r: &mut Prc<LE>) -> Result<KVec8Tu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8tu16_L(v: &KVec8Tu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8tu16_L(v: &KVec8Tu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8tu16_B(r: &mut Pr<BE>) -> Result<KVec8Tu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8tu16_B(r: &mut Prc<BE>) -> Result<KVec8Tu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8tu16_B(v: &KVec8Tu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8tu16(v: &KVec8Tu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8tu16() -> usize { <KVec8Tu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8tu32_L(r: &mut Pr<LE>) -> Result<KVec8Tu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8tu32_L(r: &mut Prc<LE>) -> Result<KVec8Tu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8tu32_L(v: &KVec8Tu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8tu32_L(v: &KVec8Tu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8tu32_B(r: &mut Pr<BE>) -> Result<KVec8Tu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8tu32_B(r: &mut Prc<BE>) -> Result<KVec8Tu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8tu32_B(v: &KVec8Tu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8tu32(v: &KVec8Tu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8tu32() -> usize { <KVec8Tu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8tu64_L(r: &mut Pr<LE>) -> Result<KVec8Tu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8tu64_L(r: &mut Prc<LE>) -> Result<KVec8Tu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8tu64_L(v: &KVec8Tu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8tu64_L(v: &KVec8Tu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8tu64_B(r: &mut Pr<BE>) -> Result<KVec8Tu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8tu64_B(r: &mut Prc<BE>) -> Result<KVec8Tu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8tu64_B(v: &KVec8Tu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8tu64(v: &KVec8Tu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8tu64() -> usize { <KVec8Tu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8tu64varint_L(r: &mut Pr<LE>) -> Result<KVec8Tu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8tu64varint_L(r: &mut Prc<LE>) -> Result<KVec8Tu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8tu64varint_L(v: &KVec8Tu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8tu64varint_L(v: &KVec8Tu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8tu64varint_B(r: &mut Pr<BE>) -> Result<KVec8Tu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8tu64varint_B(r: &mut Prc<BE>) -> Result<KVec8Tu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8tu64varint_B(v: &KVec8Tu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8tu64varint(v: &KVec8Tu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8tu64varint() -> usize { <KVec8Tu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8ln_L(r: &mut Pr<LE>) -> Result<KVec8Ln, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8ln_L(r: &mut Prc<LE>) -> Result<KVec8Ln, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8ln_L(v: &KVec8Ln, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8ln_L(v: &KVec8Ln, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8ln_B(r: &mut Pr<BE>) -> Result<KVec8Ln, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8ln_B(r: &mut Prc<BE>) -> Result<KVec8Ln, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8ln_B(v: &KVec8Ln, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8ln(v: &KVec8Ln) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8ln() -> usize { <KVec8Ln as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8ldiv_L(r: &mut Pr<LE>) -> Result<KVec8Ldiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8ldiv_L(r: &mut Prc<LE>) -> Result<KVec8Ldiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8ldiv_L(v: &KVec8Ldiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8ldiv_L(v: &KVec8Ldiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8ldiv_B(r: &mut Pr<BE>) -> Result<KVec8Ldiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8ldiv_B(r: &mut Prc<BE>) -> Result<KVec8Ldiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8ldiv_B(v: &KVec8Ldiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8ldiv(v: &KVec8Ldiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8ldiv() -> usize { <KVec8Ldiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8lk_L(r: &mut Pr<LE>) -> Result<KVec8Lk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8lk_L(r: &mut Prc<LE>) -> Result<KVec8Lk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8lk_L(v: &KVec8Lk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8lk_L(v: &KVec8Lk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8lk_B(r: &mut Pr<BE>) -> Result<KVec8Lk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8lk_B(r: &mut Prc<BE>) -> Result<KVec8Lk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8lk_B(v: &KVec8Lk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8lk(v: &KVec8Lk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8lk() -> usize { <KVec8Lk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8lw_L(r: &mut Pr<LE>) -> Result<KVec8Lw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8lw_L(r: &mut Prc<LE>) -> Result<KVec8Lw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8lw_L(v: &KVec8Lw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8lw_L(v: &KVec8Lw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8lw_B(r: &mut Pr<BE>) -> Result<KVec8Lw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8lw_B(r: &mut Prc<BE>) -> Result<KVec8Lw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8lw_B(v: &KVec8Lw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8lw(v: &KVec8Lw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8lw() -> usize { <KVec8Lw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8ll_L(r: &mut Pr<LE>) -> Result<KVec8Ll, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8ll_L(r: &mut Prc<LE>) -> Result<KVec8Ll, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8ll_L(v: &KVec8Ll, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8ll_L(v: &KVec8Ll, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8ll_B(r: &mut Pr<BE>) -> Result<KVec8Ll, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8ll_B(r: &mut Prc<BE>) -> Result<KVec8Ll, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8ll_B(v: &KVec8Ll, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8ll(v: &KVec8Ll) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8ll() -> usize { <KVec8Ll as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8lz_L(r: &mut Pr<LE>) -> Result<KVec8Lz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8lz_L(r: &mut Prc<LE>) -> Result<KVec8Lz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8lz_L(v: &KVec8Lz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8lz_L(v: &KVec8Lz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8lz_B(r: &mut Pr<BE>) -> Result<KVec8Lz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8lz_B(r: &mut Prc<BE>) -> Result<KVec8Lz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8lz_B(v: &KVec8Lz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8lz(v: &KVec8Lz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8lz() -> usize { <KVec8Lz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8e_L(r: &mut Pr<LE>) -> Result<KVec8E, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8e_L(r: &mut Prc<LE>) -> Result<KVec8E, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8e_L(v: &KVec8E, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8e_L(v: &KVec8E, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8e_B(r: &mut Pr<BE>) -> Result<KVec8E, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8e_B(r: &mut Prc<BE>) -> Result<KVec8E, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8e_B(v: &KVec8E, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8e(v: &KVec8E) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8e() -> usize { <KVec8E as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8o_L(r: &mut Pr<LE>) -> Result<KVec8O, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8o_L(r: &mut Prc<LE>) -> Result<KVec8O, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8o_L(v: &KVec8O, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8o_L(v: &KVec8O, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8o_B(r: &mut Pr<BE>) -> Result<KVec8O, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8o_B(r: &mut Prc<BE>) -> Result<KVec8O, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8o_B(v: &KVec8O, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8o(v: &KVec8O) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8o() -> usize { <KVec8O as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8ot_L(r: &mut Pr<LE>) -> Result<KVec8OT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8ot_L(r: &mut Prc<LE>) -> Result<KVec8OT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8ot_L(v: &KVec8OT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8ot_L(v: &KVec8OT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8ot_B(r: &mut Pr<BE>) -> Result<KVec8OT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8ot_B(r: &mut Prc<BE>) -> Result<KVec8OT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8ot_B(v: &KVec8OT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8ot(v: &KVec8OT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8ot() -> usize { <KVec8OT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8ov_L(r: &mut Pr<LE>) -> Result<KVec8OV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8ov_L(r: &mut Prc<LE>) -> Result<KVec8OV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8ov_L(v: &KVec8OV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8ov_L(v: &KVec8OV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8ov_B(r: &mut Pr<BE>) -> Result<KVec8OV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8ov_B(r: &mut Prc<BE>) -> Result<KVec8OV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8ov_B(v: &KVec8OV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8ov(v: &KVec8OV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8ov() -> usize { <KVec8OV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8p_L(r: &mut Pr<LE>) -> Result<KVec8P, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8p_L(r: &mut Prc<LE>) -> Result<KVec8P, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8p_L(v: &KVec8P, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8p_L(v: &KVec8P, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8p_B(r: &mut Pr<BE>) -> Result<KVec8P, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8p_B(r: &mut Prc<BE>) -> Result<KVec8P, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8p_B(v: &KVec8P, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8p(v: &KVec8P) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8p() -> usize { <KVec8P as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8f_L(r: &mut Pr<LE>) -> Result<KVec8F, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8f_L(r: &mut Prc<LE>) -> Result<KVec8F, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8f_L(v: &KVec8F, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8f_L(v: &KVec8F, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8f_B(r: &mut Pr<BE>) -> Result<KVec8F, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8f_B(r: &mut Prc<BE>) -> Result<KVec8F, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8f_B(v: &KVec8F, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8f(v: &KVec8F) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8f() -> usize { <KVec8F as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8fo_L(r: &mut Pr<LE>) -> Result<KVec8FO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8fo_L(r: &mut Prc<LE>) -> Result<KVec8FO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8fo_L(v: &KVec8FO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8fo_L(v: &KVec8FO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8fo_B(r: &mut Pr<BE>) -> Result<KVec8FO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8fo_B(r: &mut Prc<BE>) -> Result<KVec8FO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8fo_B(v: &KVec8FO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8fo(v: &KVec8FO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8fo() -> usize { <KVec8FO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8fl_L(r: &mut Pr<LE>) -> Result<KVec8FL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8fl_L(r: &mut Prc<LE>) -> Result<KVec8FL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8fl_L(v: &KVec8FL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8fl_L(v: &KVec8FL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8fl_B(r: &mut Pr<BE>) -> Result<KVec8FL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8fl_B(r: &mut Prc<BE>) -> Result<KVec8FL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8fl_B(v: &KVec8FL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8fl(v: &KVec8FL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8fl() -> usize { <KVec8FL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec8s_L(r: &mut Pr<LE>) -> Result<KVec8S, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec8s_L(r: &mut Prc<LE>) -> Result<KVec8S, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec8s_L(v: &KVec8S, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec8s_L(v: &KVec8S, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec8s_B(r: &mut Pr<BE>) -> Result<KVec8S, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec8s_B(r: &mut Prc<BE>) -> Result<KVec8S, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec8s_B(v: &KVec8S, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec8s(v: &KVec8S) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec8s() -> usize { <KVec8S as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16d_L(r: &mut Pr<LE>) -> Result<KVec16D, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16d_L(r: &mut Prc<LE>) -> Result<KVec16D, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16d_L(v: &KVec16D, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16d_L(v: &KVec16D, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16d_B(r: &mut Pr<BE>) -> Result<KVec16D, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16d_B(r: &mut Prc<BE>) -> Result<KVec16D, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16d_B(v: &KVec16D, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16d(v: &KVec16D) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16d() -> usize { <KVec16D as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16tu7_L(r: &mut Pr<LE>) -> Result<KVec16Tu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16tu7_L(r: &mut Prc<LE>) -> Result<KVec16Tu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16tu7_L(v: &KVec16Tu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16tu7_L(v: &KVec16Tu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16tu7_B(r: &mut Pr<BE>) -> Result<KVec16Tu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16tu7_B(r: &mut Prc<BE>) -> Result<KVec16Tu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16tu7_B(v: &KVec16Tu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16tu7(v: &KVec16Tu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16tu7() -> usize { <KVec16Tu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16tu8_L(r: &mut Pr<LE>) -> Result<KVec16Tu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16tu8_L(r: &mut Prc<LE>) -> Result<KVec16Tu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16tu8_L(v: &KVec16Tu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16tu8_L(v: &KVec16Tu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16tu8_B(r: &mut Pr<BE>) -> Result<KVec16Tu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16tu8_B(r: &mut Prc<BE>) -> Result<KVec16Tu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16tu8_B(v: &KVec16Tu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16tu8(v: &KVec16Tu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16tu8() -> usize { <KVec16Tu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16tu16_L(r: &mut Pr<LE>) -> Result<KVec16Tu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16tu16_L(r: &mut Prc<LE>) -> Result<KVec16Tu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16tu16_L(v: &KVec16Tu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16tu16_L(v: &KVec16Tu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16tu16_B(r: &mut Pr<BE>) -> Result<KVec16Tu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16tu16_B(r: &mut Prc<BE>) -> Result<KVec16Tu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16tu16_B(v: &KVec16Tu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16tu16(v: &KVec16Tu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16tu16() -> usize { <KVec16Tu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16tu32_L(r: &mut Pr<LE>) -> Result<KVec16Tu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16tu32_L(r: &mut Prc<LE>) -> Result<KVec16Tu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16tu32_L(v: &KVec16Tu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16tu32_L(v: &KVec16Tu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16tu32_B(r: &mut Pr<BE>) -> Result<KVec16Tu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16tu32_B(r: &mut Prc<BE>) -> Result<KVec16Tu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16tu32_B(v: &KVec16Tu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16tu32(v: &KVec16Tu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16tu32() -> usize { <KVec16Tu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16tu64_L(r: &mut Pr<LE>) -> Result<KVec16Tu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16tu64_L(r: &mut Prc<LE>) -> Result<KVec16Tu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16tu64_L(v: &KVec16Tu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16tu64_L(v: &KVec16Tu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16tu64_B(r: &mut Pr<BE>) -> Result<KVec16Tu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16tu64_B(r: &mut Prc<BE>) -> Result<KVec16Tu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16tu64_B(v: &KVec16Tu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16tu64(v: &KVec16Tu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16tu64() -> usize { <KVec16Tu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16tu64varint_L(r: &mut Pr<LE>) -> Result<KVec16Tu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16tu64varint_L(r: &mut Prc<LE>) -> Result<KVec16Tu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16tu64varint_L(v: &KVec16Tu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16tu64varint_L(v: &KVec16Tu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16tu64varint_B(r: &mut Pr<BE>) -> Result<KVec16Tu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16tu64varint_B(r: &mut Prc<BE>) -> Result<KVec16Tu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16tu64varint_B(v: &KVec16Tu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16tu64varint(v: &KVec16Tu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16tu64varint() -> usize { <KVec16Tu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16ln_L(r: &mut Pr<LE>) -> Result<KVec16Ln, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16ln_L(r: &mut Prc<LE>) -> Result<KVec16Ln, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16ln_L(v: &KVec16Ln, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16ln_L(v: &KVec16Ln, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16ln_B(r: &mut Pr<BE>) -> Result<KVec16Ln, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16ln_B(r: &mut Prc<BE>) -> Result<KVec16Ln, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16ln_B(v: &KVec16Ln, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16ln(v: &KVec16Ln) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16ln() -> usize { <KVec16Ln as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16ldiv_L(r: &mut Pr<LE>) -> Result<KVec16Ldiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16ldiv_L(r: &mut Prc<LE>) -> Result<KVec16Ldiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16ldiv_L(v: &KVec16Ldiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16ldiv_L(v: &KVec16Ldiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16ldiv_B(r: &mut Pr<BE>) -> Result<KVec16Ldiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16ldiv_B(r: &mut Prc<BE>) -> Result<KVec16Ldiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16ldiv_B(v: &KVec16Ldiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16ldiv(v: &KVec16Ldiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16ldiv() -> usize { <KVec16Ldiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16lk_L(r: &mut Pr<LE>) -> Result<KVec16Lk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16lk_L(r: &mut Prc<LE>) -> Result<KVec16Lk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16lk_L(v: &KVec16Lk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16lk_L(v: &KVec16Lk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16lk_B(r: &mut Pr<BE>) -> Result<KVec16Lk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16lk_B(r: &mut Prc<BE>) -> Result<KVec16Lk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16lk_B(v: &KVec16Lk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16lk(v: &KVec16Lk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16lk() -> usize { <KVec16Lk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16lw_L(r: &mut Pr<LE>) -> Result<KVec16Lw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16lw_L(r: &mut Prc<LE>) -> Result<KVec16Lw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16lw_L(v: &KVec16Lw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16lw_L(v: &KVec16Lw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16lw_B(r: &mut Pr<BE>) -> Result<KVec16Lw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16lw_B(r: &mut Prc<BE>) -> Result<KVec16Lw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16lw_B(v: &KVec16Lw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16lw(v: &KVec16Lw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16lw() -> usize { <KVec16Lw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16ll_L(r: &mut Pr<LE>) -> Result<KVec16Ll, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16ll_L(r: &mut Prc<LE>) -> Result<KVec16Ll, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16ll_L(v: &KVec16Ll, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16ll_L(v: &KVec16Ll, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16ll_B(r: &mut Pr<BE>) -> Result<KVec16Ll, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16ll_B(r: &mut Prc<BE>) -> Result<KVec16Ll, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16ll_B(v: &KVec16Ll, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16ll(v: &KVec16Ll) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16ll() -> usize { <KVec16Ll as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16lz_L(r: &mut Pr<LE>) -> Result<KVec16Lz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16lz_L(r: &mut Prc<LE>) -> Result<KVec16Lz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16lz_L(v: &KVec16Lz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16lz_L(v: &KVec16Lz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16lz_B(r: &mut Pr<BE>) -> Result<KVec16Lz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16lz_B(r: &mut Prc<BE>) -> Result<KVec16Lz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16lz_B(v: &KVec16Lz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16lz(v: &KVec16Lz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16lz() -> usize { <KVec16Lz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16e_L(r: &mut Pr<LE>) -> Result<KVec16E, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16e_L(r: &mut Prc<LE>) -> Result<KVec16E, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16e_L(v: &KVec16E, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16e_L(v: &KVec16E, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16e_B(r: &mut Pr<BE>) -> Result<KVec16E, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16e_B(r: &mut Prc<BE>) -> Result<KVec16E, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16e_B(v: &KVec16E, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16e(v: &KVec16E) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16e() -> usize { <KVec16E as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16o_L(r: &mut Pr<LE>) -> Result<KVec16O, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16o_L(r: &mut Prc<LE>) -> Result<KVec16O, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16o_L(v: &KVec16O, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16o_L(v: &KVec16O, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16o_B(r: &mut Pr<BE>) -> Result<KVec16O, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16o_B(r: &mut Prc<BE>) -> Result<KVec16O, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16o_B(v: &KVec16O, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16o(v: &KVec16O) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16o() -> usize { <KVec16O as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16ot_L(r: &mut Pr<LE>) -> Result<KVec16OT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16ot_L(r: &mut Prc<LE>) -> Result<KVec16OT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16ot_L(v: &KVec16OT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16ot_L(v: &KVec16OT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16ot_B(r: &mut Pr<BE>) -> Result<KVec16OT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16ot_B(r: &mut Prc<BE>) -> Result<KVec16OT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16ot_B(v: &KVec16OT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16ot(v: &KVec16OT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16ot() -> usize { <KVec16OT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16ov_L(r: &mut Pr<LE>) -> Result<KVec16OV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16ov_L(r: &mut Prc<LE>) -> Result<KVec16OV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16ov_L(v: &KVec16OV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16ov_L(v: &KVec16OV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16ov_B(r: &mut Pr<BE>) -> Result<KVec16OV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16ov_B(r: &mut Prc<BE>) -> Result<KVec16OV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16ov_B(v: &KVec16OV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16ov(v: &KVec16OV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16ov() -> usize { <KVec16OV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16p_L(r: &mut Pr<LE>) -> Result<KVec16P, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16p_L(r: &mut Prc<LE>) -> Result<KVec16P, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16p_L(v: &KVec16P, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16p_L(v: &KVec16P, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16p_B(r: &mut Pr<BE>) -> Result<KVec16P, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16p_B(r: &mut Prc<BE>) -> Result<KVec16P, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16p_B(v: &KVec16P, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16p(v: &KVec16P) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16p() -> usize { <KVec16P as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16f_L(r: &mut Pr<LE>) -> Result<KVec16F, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16f_L(r: &mut Prc<LE>) -> Result<KVec16F, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16f_L(v: &KVec16F, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16f_L(v: &KVec16F, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16f_B(r: &mut Pr<BE>) -> Result<KVec16F, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16f_B(r: &mut Prc<BE>) -> Result<KVec16F, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16f_B(v: &KVec16F, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16f(v: &KVec16F) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16f() -> usize { <KVec16F as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16fo_L(r: &mut Pr<LE>) -> Result<KVec16FO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16fo_L(r: &mut Prc<LE>) -> Result<KVec16FO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16fo_L(v: &KVec16FO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16fo_L(v: &KVec16FO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16fo_B(r: &mut Pr<BE>) -> Result<KVec16FO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16fo_B(r: &mut Prc<BE>) -> Result<KVec16FO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16fo_B(v: &KVec16FO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16fo(v: &KVec16FO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16fo() -> usize { <KVec16FO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16fl_L(r: &mut Pr<LE>) -> Result<KVec16FL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16fl_L(r: &mut Prc<LE>) -> Result<KVec16FL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16fl_L(v: &KVec16FL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16fl_L(v: &KVec16FL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16fl_B(r: &mut Pr<BE>) -> Result<KVec16FL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16fl_B(r: &mut Prc<BE>) -> Result<KVec16FL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16fl_B(v: &KVec16FL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16fl(v: &KVec16FL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16fl() -> usize { <KVec16FL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvec16s_L(r: &mut Pr<LE>) -> Result<KVec16S, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvec16s_L(r: &mut Prc<LE>) -> Result<KVec16S, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvec16s_L(v: &KVec16S, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvec16s_L(v: &KVec16S, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvec16s_B(r: &mut Pr<BE>) -> Result<KVec16S, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvec16s_B(r: &mut Prc<BE>) -> Result<KVec16S, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvec16s_B(v: &KVec16S, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvec16s(v: &KVec16S) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvec16s() -> usize { <KVec16S as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kveceld_L(r: &mut Pr<LE>) -> Result<KVecElD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kveceld_L(r: &mut Prc<LE>) -> Result<KVecElD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kveceld_L(v: &KVecElD, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kveceld_L(v: &KVecElD, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kveceld_B(r: &mut Pr<BE>) -> Result<KVecElD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kveceld_B(r: &mut Prc<BE>) -> Result<KVecElD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kveceld_B(v: &KVecElD, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kveceld(v: &KVecElD) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kveceld() -> usize { <KVecElD as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kveceltu7_L(r: &mut Pr<LE>) -> Result<KVecElTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kveceltu7_L(r: &mut Prc<LE>) -> Result<KVecElTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kveceltu7_L(v: &KVecElTu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kveceltu7_L(v: &KVecElTu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kveceltu7_B(r: &mut Pr<BE>) -> Result<KVecElTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kveceltu7_B(r: &mut Prc<BE>) -> Result<KVecElTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kveceltu7_B(v: &KVecElTu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kveceltu7(v: &KVecElTu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kveceltu7() -> usize { <KVecElTu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kveceltu8_L(r: &mut Pr<LE>) -> Result<KVecElTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kveceltu8_L(r: &mut Prc<LE>) -> Result<KVecElTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kveceltu8_L(v: &KVecElTu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kveceltu8_L(v: &KVecElTu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kveceltu8_B(r: &mut Pr<BE>) -> Result<KVecElTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kveceltu8_B(r: &mut Prc<BE>) -> Result<KVecElTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kveceltu8_B(v: &KVecElTu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kveceltu8(v: &KVecElTu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kveceltu8() -> usize { <KVecElTu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kveceltu16_L(r: &mut Pr<LE>) -> Result<KVecElTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kveceltu16_L(r: &mut Prc<LE>) -> Result<KVecElTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kveceltu16_L(v: &KVecElTu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kveceltu16_L(v: &KVecElTu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kveceltu16_B(r: &mut Pr<BE>) -> Result<KVecElTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kveceltu16_B(r: &mut Prc<BE>) -> Result<KVecElTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kveceltu16_B(v: &KVecElTu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kveceltu16(v: &KVecElTu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kveceltu16() -> usize { <KVecElTu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kveceltu32_L(r: &mut Pr<LE>) -> Result<KVecElTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kveceltu32_L(r: &mut Prc<LE>) -> Result<KVecElTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kveceltu32_L(v: &KVecElTu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kveceltu32_L(v: &KVecElTu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kveceltu32_B(r: &mut Pr<BE>) -> Result<KVecElTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kveceltu32_B(r: &mut Prc<BE>) -> Result<KVecElTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kveceltu32_B(v: &KVecElTu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kveceltu32(v: &KVecElTu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kveceltu32() -> usize { <KVecElTu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kveceltu64_L(r: &mut Pr<LE>) -> Result<KVecElTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kveceltu64_L(r: &mut Prc<LE>) -> Result<KVecElTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kveceltu64_L(v: &KVecElTu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kveceltu64_L(v: &KVecElTu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kveceltu64_B(r: &mut Pr<BE>) -> Result<KVecElTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kveceltu64_B(r: &mut Prc<BE>) -> Result<KVecElTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kveceltu64_B(v: &KVecElTu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kveceltu64(v: &KVecElTu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kveceltu64() -> usize { <KVecElTu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kveceltu64varint_L(r: &mut Pr<LE>) -> Result<KVecElTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kveceltu64varint_L(r: &mut Prc<LE>) -> Result<KVecElTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kveceltu64varint_L(v: &KVecElTu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kveceltu64varint_L(v: &KVecElTu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kveceltu64varint_B(r: &mut Pr<BE>) -> Result<KVecElTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kveceltu64varint_B(r: &mut Prc<BE>) -> Result<KVecElTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kveceltu64varint_B(v: &KVecElTu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kveceltu64varint(v: &KVecElTu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kveceltu64varint() -> usize { <KVecElTu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelln_L(r: &mut Pr<LE>) -> Result<KVecElLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelln_L(r: &mut Prc<LE>) -> Result<KVecElLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelln_L(v: &KVecElLn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelln_L(v: &KVecElLn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelln_B(r: &mut Pr<BE>) -> Result<KVecElLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelln_B(r: &mut Prc<BE>) -> Result<KVecElLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelln_B(v: &KVecElLn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelln(v: &KVecElLn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelln() -> usize { <KVecElLn as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelldiv_L(r: &mut Pr<LE>) -> Result<KVecElLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelldiv_L(r: &mut Prc<LE>) -> Result<KVecElLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelldiv_L(v: &KVecElLdiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelldiv_L(v: &KVecElLdiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelldiv_B(r: &mut Pr<BE>) -> Result<KVecElLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelldiv_B(r: &mut Prc<BE>) -> Result<KVecElLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelldiv_B(v: &KVecElLdiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelldiv(v: &KVecElLdiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelldiv() -> usize { <KVecElLdiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecellk_L(r: &mut Pr<LE>) -> Result<KVecElLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecellk_L(r: &mut Prc<LE>) -> Result<KVecElLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecellk_L(v: &KVecElLk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecellk_L(v: &KVecElLk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecellk_B(r: &mut Pr<BE>) -> Result<KVecElLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecellk_B(r: &mut Prc<BE>) -> Result<KVecElLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecellk_B(v: &KVecElLk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecellk(v: &KVecElLk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecellk() -> usize { <KVecElLk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecellw_L(r: &mut Pr<LE>) -> Result<KVecElLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecellw_L(r: &mut Prc<LE>) -> Result<KVecElLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecellw_L(v: &KVecElLw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecellw_L(v: &KVecElLw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecellw_B(r: &mut Pr<BE>) -> Result<KVecElLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecellw_B(r: &mut Prc<BE>) -> Result<KVecElLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecellw_B(v: &KVecElLw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecellw(v: &KVecElLw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecellw() -> usize { <KVecElLw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelll_L(r: &mut Pr<LE>) -> Result<KVecElLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelll_L(r: &mut Prc<LE>) -> Result<KVecElLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelll_L(v: &KVecElLl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelll_L(v: &KVecElLl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelll_B(r: &mut Pr<BE>) -> Result<KVecElLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelll_B(r: &mut Prc<BE>) -> Result<KVecElLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelll_B(v: &KVecElLl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelll(v: &KVecElLl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelll() -> usize { <KVecElLl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecellz_L(r: &mut Pr<LE>) -> Result<KVecElLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecellz_L(r: &mut Prc<LE>) -> Result<KVecElLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecellz_L(v: &KVecElLz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecellz_L(v: &KVecElLz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecellz_B(r: &mut Pr<BE>) -> Result<KVecElLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecellz_B(r: &mut Prc<BE>) -> Result<KVecElLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecellz_B(v: &KVecElLz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecellz(v: &KVecElLz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecellz() -> usize { <KVecElLz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecele_L(r: &mut Pr<LE>) -> Result<KVecElE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecele_L(r: &mut Prc<LE>) -> Result<KVecElE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecele_L(v: &KVecElE, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecele_L(v: &KVecElE, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecele_B(r: &mut Pr<BE>) -> Result<KVecElE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecele_B(r: &mut Prc<BE>) -> Result<KVecElE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecele_B(v: &KVecElE, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecele(v: &KVecElE) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecele() -> usize { <KVecElE as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelo_L(r: &mut Pr<LE>) -> Result<KVecElO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelo_L(r: &mut Prc<LE>) -> Result<KVecElO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelo_L(v: &KVecElO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelo_L(v: &KVecElO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelo_B(r: &mut Pr<BE>) -> Result<KVecElO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelo_B(r: &mut Prc<BE>) -> Result<KVecElO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelo_B(v: &KVecElO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelo(v: &KVecElO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelo() -> usize { <KVecElO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelot_L(r: &mut Pr<LE>) -> Result<KVecElOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelot_L(r: &mut Prc<LE>) -> Result<KVecElOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelot_L(v: &KVecElOT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelot_L(v: &KVecElOT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelot_B(r: &mut Pr<BE>) -> Result<KVecElOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelot_B(r: &mut Prc<BE>) -> Result<KVecElOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelot_B(v: &KVecElOT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelot(v: &KVecElOT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelot() -> usize { <KVecElOT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelov_L(r: &mut Pr<LE>) -> Result<KVecElOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelov_L(r: &mut Prc<LE>) -> Result<KVecElOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelov_L(v: &KVecElOV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelov_L(v: &KVecElOV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelov_B(r: &mut Pr<BE>) -> Result<KVecElOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelov_B(r: &mut Prc<BE>) -> Result<KVecElOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelov_B(v: &KVecElOV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelov(v: &KVecElOV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelov() -> usize { <KVecElOV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelp_L(r: &mut Pr<LE>) -> Result<KVecElP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelp_L(r: &mut Prc<LE>) -> Result<KVecElP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelp_L(v: &KVecElP, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelp_L(v: &KVecElP, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelp_B(r: &mut Pr<BE>) -> Result<KVecElP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelp_B(r: &mut Prc<BE>) -> Result<KVecElP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelp_B(v: &KVecElP, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelp(v: &KVecElP) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelp() -> usize { <KVecElP as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelf_L(r: &mut Pr<LE>) -> Result<KVecElF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelf_L(r: &mut Prc<LE>) -> Result<KVecElF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelf_L(v: &KVecElF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelf_L(v: &KVecElF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelf_B(r: &mut Pr<BE>) -> Result<KVecElF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelf_B(r: &mut Prc<BE>) -> Result<KVecElF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelf_B(v: &KVecElF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelf(v: &KVecElF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelf() -> usize { <KVecElF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelfo_L(r: &mut Pr<LE>) -> Result<KVecElFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelfo_L(r: &mut Prc<LE>) -> Result<KVecElFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelfo_L(v: &KVecElFO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelfo_L(v: &KVecElFO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelfo_B(r: &mut Pr<BE>) -> Result<KVecElFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelfo_B(r: &mut Prc<BE>) -> Result<KVecElFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelfo_B(v: &KVecElFO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelfo(v: &KVecElFO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelfo() -> usize { <KVecElFO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecelfl_L(r: &mut Pr<LE>) -> Result<KVecElFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecelfl_L(r: &mut Prc<LE>) -> Result<KVecElFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecelfl_L(v: &KVecElFL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecelfl_L(v: &KVecElFL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecelfl_B(r: &mut Pr<BE>) -> Result<KVecElFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecelfl_B(r: &mut Prc<BE>) -> Result<KVecElFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecelfl_B(v: &KVecElFL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecelfl(v: &KVecElFL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecelfl() -> usize { <KVecElFL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kvecels_L(r: &mut Pr<LE>) -> Result<KVecElS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kvecels_L(r: &mut Prc<LE>) -> Result<KVecElS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kvecels_L(v: &KVecElS, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kvecels_L(v: &KVecElS, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kvecels_B(r: &mut Pr<BE>) -> Result<KVecElS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kvecels_B(r: &mut Prc<BE>) -> Result<KVecElS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kvecels_B(v: &KVecElS, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kvecels(v: &KVecElS) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kvecels() -> usize { <KVecElS as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrd_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrd_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrd_L<'a>(v: &KCowStrD<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrd_L<'a>(v: &KCowStrD<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrd_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrd_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrd_B<'a>(v: &KCowStrD<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrd<'a>(v: &KCowStrD<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrd<'a>() -> usize { <KCowStrD<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrtu7_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrtu7_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrtu7_L<'a>(v: &KCowStrTu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrtu7_L<'a>(v: &KCowStrTu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrtu7_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrtu7_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrtu7_B<'a>(v: &KCowStrTu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrtu7<'a>(v: &KCowStrTu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrtu7<'a>() -> usize { <KCowStrTu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrtu8_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrtu8_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrtu8_L<'a>(v: &KCowStrTu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrtu8_L<'a>(v: &KCowStrTu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrtu8_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrtu8_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrtu8_B<'a>(v: &KCowStrTu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrtu8<'a>(v: &KCowStrTu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrtu8<'a>() -> usize { <KCowStrTu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrtu16_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrtu16_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrtu16_L<'a>(v: &KCowStrTu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrtu16_L<'a>(v: &KCowStrTu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrtu16_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrtu16_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrtu16_B<'a>(v: &KCowStrTu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrtu16<'a>(v: &KCowStrTu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrtu16<'a>() -> usize { <KCowStrTu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrtu32_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrtu32_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrtu32_L<'a>(v: &KCowStrTu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrtu32_L<'a>(v: &KCowStrTu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrtu32_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrtu32_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrtu32_B<'a>(v: &KCowStrTu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrtu32<'a>(v: &KCowStrTu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrtu32<'a>() -> usize { <KCowStrTu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrtu64_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrtu64_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrtu64_L<'a>(v: &KCowStrTu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrtu64_L<'a>(v: &KCowStrTu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrtu64_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrtu64_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrtu64_B<'a>(v: &KCowStrTu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrtu64<'a>(v: &KCowStrTu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrtu64<'a>() -> usize { <KCowStrTu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrtu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrtu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrtu64varint_L<'a>(v: &KCowStrTu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrtu64varint_L<'a>(v: &KCowStrTu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrtu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrtu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrtu64varint_B<'a>(v: &KCowStrTu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrtu64varint<'a>(v: &KCowStrTu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrtu64varint<'a>() -> usize { <KCowStrTu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrln_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrln_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrln_L<'a>(v: &KCowStrLn<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrln_L<'a>(v: &KCowStrLn<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrln_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrln_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrln_B<'a>(v: &KCowStrLn<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrln<'a>(v: &KCowStrLn<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrln<'a>() -> usize { <KCowStrLn<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrldiv_L<'a>(v: &KCowStrLdiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrldiv_L<'a>(v: &KCowStrLdiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrldiv_B<'a>(v: &KCowStrLdiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrldiv<'a>(v: &KCowStrLdiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrldiv<'a>() -> usize { <KCowStrLdiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrlk_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrlk_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrlk_L<'a>(v: &KCowStrLk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrlk_L<'a>(v: &KCowStrLk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrlk_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrlk_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrlk_B<'a>(v: &KCowStrLk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrlk<'a>(v: &KCowStrLk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrlk<'a>() -> usize { <KCowStrLk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrlw_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrlw_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrlw_L<'a>(v: &KCowStrLw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrlw_L<'a>(v: &KCowStrLw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrlw_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrlw_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrlw_B<'a>(v: &KCowStrLw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrlw<'a>(v: &KCowStrLw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrlw<'a>() -> usize { <KCowStrLw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrll_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrll_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrll_L<'a>(v: &KCowStrLl<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrll_L<'a>(v: &KCowStrLl<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrll_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrll_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrll_B<'a>(v: &KCowStrLl<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrll<'a>(v: &KCowStrLl<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrll<'a>() -> usize { <KCowStrLl<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrlz_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrlz_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrlz_L<'a>(v: &KCowStrLz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrlz_L<'a>(v: &KCowStrLz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrlz_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrlz_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrlz_B<'a>(v: &KCowStrLz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrlz<'a>(v: &KCowStrLz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrlz<'a>() -> usize { <KCowStrLz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstre_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstre_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstre_L<'a>(v: &KCowStrE<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstre_L<'a>(v: &KCowStrE<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstre_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstre_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstre_B<'a>(v: &KCowStrE<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstre<'a>(v: &KCowStrE<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstre<'a>() -> usize { <KCowStrE<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstro_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstro_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstro_L<'a>(v: &KCowStrO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstro_L<'a>(v: &KCowStrO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstro_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstro_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstro_B<'a>(v: &KCowStrO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstro<'a>(v: &KCowStrO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstro<'a>() -> usize { <KCowStrO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrot_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrot_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrot_L<'a>(v: &KCowStrOT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrot_L<'a>(v: &KCowStrOT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrot_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrot_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrot_B<'a>(v: &KCowStrOT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrot<'a>(v: &KCowStrOT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrot<'a>() -> usize { <KCowStrOT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrov_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrov_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrov_L<'a>(v: &KCowStrOV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrov_L<'a>(v: &KCowStrOV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrov_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrov_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrov_B<'a>(v: &KCowStrOV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrov<'a>(v: &KCowStrOV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrov<'a>() -> usize { <KCowStrOV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrp_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrp_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrp_L<'a>(v: &KCowStrP<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrp_L<'a>(v: &KCowStrP<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrp_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrp_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrp_B<'a>(v: &KCowStrP<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrp<'a>(v: &KCowStrP<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrp<'a>() -> usize { <KCowStrP<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrf_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrf_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrf_L<'a>(v: &KCowStrF<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrf_L<'a>(v: &KCowStrF<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrf_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrf_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrf_B<'a>(v: &KCowStrF<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrf<'a>(v: &KCowStrF<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrf<'a>() -> usize { <KCowStrF<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrfo_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrfo_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrfo_L<'a>(v: &KCowStrFO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrfo_L<'a>(v: &KCowStrFO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrfo_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrfo_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrfo_B<'a>(v: &KCowStrFO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrfo<'a>(v: &KCowStrFO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrfo<'a>() -> usize { <KCowStrFO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrfl_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrfl_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrfl_L<'a>(v: &KCowStrFL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrfl_L<'a>(v: &KCowStrFL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrfl_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrfl_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrfl_B<'a>(v: &KCowStrFL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrfl<'a>(v: &KCowStrFL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrfl<'a>() -> usize { <KCowStrFL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowstrs_L<'a>(r: &mut Pr<LE>) -> Result<KCowStrS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowstrs_L<'a>(r: &mut Prc<LE>) -> Result<KCowStrS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowstrs_L<'a>(v: &KCowStrS<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowstrs_L<'a>(v: &KCowStrS<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowstrs_B<'a>(r: &mut Pr<BE>) -> Result<KCowStrS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowstrs_B<'a>(r: &mut Prc<BE>) -> Result<KCowStrS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowstrs_B<'a>(v: &KCowStrS<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowstrs<'a>(v: &KCowStrS<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowstrs<'a>() -> usize { <KCowStrS<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8d_L<'a>(r: &mut Pr<LE>) -> Result<KCow8D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8d_L<'a>(r: &mut Prc<LE>) -> Result<KCow8D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8d_L<'a>(v: &KCow8D<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8d_L<'a>(v: &KCow8D<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8d_B<'a>(r: &mut Pr<BE>) -> Result<KCow8D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8d_B<'a>(r: &mut Prc<BE>) -> Result<KCow8D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8d_B<'a>(v: &KCow8D<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8d<'a>(v: &KCow8D<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8d<'a>() -> usize { <KCow8D<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8tu7_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8tu7_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8tu7_L<'a>(v: &KCow8Tu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8tu7_L<'a>(v: &KCow8Tu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8tu7_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8tu7_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8tu7_B<'a>(v: &KCow8Tu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8tu7<'a>(v: &KCow8Tu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8tu7<'a>() -> usize { <KCow8Tu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8tu8_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8tu8_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8tu8_L<'a>(v: &KCow8Tu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8tu8_L<'a>(v: &KCow8Tu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8tu8_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8tu8_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8tu8_B<'a>(v: &KCow8Tu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8tu8<'a>(v: &KCow8Tu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8tu8<'a>() -> usize { <KCow8Tu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8tu16_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8tu16_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8tu16_L<'a>(v: &KCow8Tu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8tu16_L<'a>(v: &KCow8Tu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8tu16_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8tu16_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8tu16_B<'a>(v: &KCow8Tu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8tu16<'a>(v: &KCow8Tu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8tu16<'a>() -> usize { <KCow8Tu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8tu32_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8tu32_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8tu32_L<'a>(v: &KCow8Tu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8tu32_L<'a>(v: &KCow8Tu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8tu32_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8tu32_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8tu32_B<'a>(v: &KCow8Tu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8tu32<'a>(v: &KCow8Tu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8tu32<'a>() -> usize { <KCow8Tu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8tu64_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8tu64_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8tu64_L<'a>(v: &KCow8Tu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8tu64_L<'a>(v: &KCow8Tu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8tu64_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8tu64_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8tu64_B<'a>(v: &KCow8Tu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8tu64<'a>(v: &KCow8Tu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8tu64<'a>() -> usize { <KCow8Tu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8tu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8tu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8tu64varint_L<'a>(v: &KCow8Tu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8tu64varint_L<'a>(v: &KCow8Tu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8tu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8tu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8tu64varint_B<'a>(v: &KCow8Tu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8tu64varint<'a>(v: &KCow8Tu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8tu64varint<'a>() -> usize { <KCow8Tu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8ln_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8ln_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8ln_L<'a>(v: &KCow8Ln<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8ln_L<'a>(v: &KCow8Ln<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8ln_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8ln_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8ln_B<'a>(v: &KCow8Ln<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8ln<'a>(v: &KCow8Ln<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8ln<'a>() -> usize { <KCow8Ln<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8ldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8ldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8ldiv_L<'a>(v: &KCow8Ldiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8ldiv_L<'a>(v: &KCow8Ldiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8ldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8ldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8ldiv_B<'a>(v: &KCow8Ldiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8ldiv<'a>(v: &KCow8Ldiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8ldiv<'a>() -> usize { <KCow8Ldiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8lk_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8lk_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8lk_L<'a>(v: &KCow8Lk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8lk_L<'a>(v: &KCow8Lk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8lk_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8lk_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8lk_B<'a>(v: &KCow8Lk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8lk<'a>(v: &KCow8Lk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8lk<'a>() -> usize { <KCow8Lk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8lw_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8lw_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8lw_L<'a>(v: &KCow8Lw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8lw_L<'a>(v: &KCow8Lw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8lw_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8lw_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8lw_B<'a>(v: &KCow8Lw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8lw<'a>(v: &KCow8Lw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8lw<'a>() -> usize { <KCow8Lw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8ll_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8ll_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8ll_L<'a>(v: &KCow8Ll<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8ll_L<'a>(v: &KCow8Ll<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8ll_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8ll_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8ll_B<'a>(v: &KCow8Ll<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8ll<'a>(v: &KCow8Ll<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8ll<'a>() -> usize { <KCow8Ll<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8lz_L<'a>(r: &mut Pr<LE>) -> Result<KCow8Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8lz_L<'a>(r: &mut Prc<LE>) -> Result<KCow8Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8lz_L<'a>(v: &KCow8Lz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8lz_L<'a>(v: &KCow8Lz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8lz_B<'a>(r: &mut Pr<BE>) -> Result<KCow8Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8lz_B<'a>(r: &mut Prc<BE>) -> Result<KCow8Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8lz_B<'a>(v: &KCow8Lz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8lz<'a>(v: &KCow8Lz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8lz<'a>() -> usize { <KCow8Lz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8e_L<'a>(r: &mut Pr<LE>) -> Result<KCow8E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8e_L<'a>(r: &mut Prc<LE>) -> Result<KCow8E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8e_L<'a>(v: &KCow8E<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8e_L<'a>(v: &KCow8E<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8e_B<'a>(r: &mut Pr<BE>) -> Result<KCow8E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8e_B<'a>(r: &mut Prc<BE>) -> Result<KCow8E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8e_B<'a>(v: &KCow8E<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8e<'a>(v: &KCow8E<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8e<'a>() -> usize { <KCow8E<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8o_L<'a>(r: &mut Pr<LE>) -> Result<KCow8O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8o_L<'a>(r: &mut Prc<LE>) -> Result<KCow8O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8o_L<'a>(v: &KCow8O<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8o_L<'a>(v: &KCow8O<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8o_B<'a>(r: &mut Pr<BE>) -> Result<KCow8O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8o_B<'a>(r: &mut Prc<BE>) -> Result<KCow8O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8o_B<'a>(v: &KCow8O<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8o<'a>(v: &KCow8O<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8o<'a>() -> usize { <KCow8O<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8ot_L<'a>(r: &mut Pr<LE>) -> Result<KCow8OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8ot_L<'a>(r: &mut Prc<LE>) -> Result<KCow8OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8ot_L<'a>(v: &KCow8OT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8ot_L<'a>(v: &KCow8OT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8ot_B<'a>(r: &mut Pr<BE>) -> Result<KCow8OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8ot_B<'a>(r: &mut Prc<BE>) -> Result<KCow8OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8ot_B<'a>(v: &KCow8OT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8ot<'a>(v: &KCow8OT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8ot<'a>() -> usize { <KCow8OT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8ov_L<'a>(r: &mut Pr<LE>) -> Result<KCow8OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8ov_L<'a>(r: &mut Prc<LE>) -> Result<KCow8OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8ov_L<'a>(v: &KCow8OV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8ov_L<'a>(v: &KCow8OV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8ov_B<'a>(r: &mut Pr<BE>) -> Result<KCow8OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8ov_B<'a>(r: &mut Prc<BE>) -> Result<KCow8OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8ov_B<'a>(v: &KCow8OV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8ov<'a>(v: &KCow8OV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8ov<'a>() -> usize { <KCow8OV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8p_L<'a>(r: &mut Pr<LE>) -> Result<KCow8P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8p_L<'a>(r: &mut Prc<LE>) -> Result<KCow8P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8p_L<'a>(v: &KCow8P<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8p_L<'a>(v: &KCow8P<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8p_B<'a>(r: &mut Pr<BE>) -> Result<KCow8P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8p_B<'a>(r: &mut Prc<BE>) -> Result<KCow8P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8p_B<'a>(v: &KCow8P<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8p<'a>(v: &KCow8P<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8p<'a>() -> usize { <KCow8P<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8f_L<'a>(r: &mut Pr<LE>) -> Result<KCow8F<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8f_L<'a>(r: &mut Prc<LE>) -> Result<KCow8F<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8f_L<'a>(v: &KCow8F<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8f_L<'a>(v: &KCow8F<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8f_B<'a>(r: &mut Pr<BE>) -> Result<KCow8F<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8f_B<'a>(r: &mut Prc<BE>) -> Result<KCow8F<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8f_B<'a>(v: &KCow8F<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8f<'a>(v: &KCow8F<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8f<'a>() -> usize { <KCow8F<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8fo_L<'a>(r: &mut Pr<LE>) -> Result<KCow8FO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8fo_L<'a>(r: &mut Prc<LE>) -> Result<KCow8FO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8fo_L<'a>(v: &KCow8FO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8fo_L<'a>(v: &KCow8FO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8fo_B<'a>(r: &mut Pr<BE>) -> Result<KCow8FO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8fo_B<'a>(r: &mut Prc<BE>) -> Result<KCow8FO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8fo_B<'a>(v: &KCow8FO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8fo<'a>(v: &KCow8FO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8fo<'a>() -> usize { <KCow8FO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8fl_L<'a>(r: &mut Pr<LE>) -> Result<KCow8FL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8fl_L<'a>(r: &mut Prc<LE>) -> Result<KCow8FL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8fl_L<'a>(v: &KCow8FL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8fl_L<'a>(v: &KCow8FL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8fl_B<'a>(r: &mut Pr<BE>) -> Result<KCow8FL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8fl_B<'a>(r: &mut Prc<BE>) -> Result<KCow8FL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8fl_B<'a>(v: &KCow8FL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8fl<'a>(v: &KCow8FL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8fl<'a>() -> usize { <KCow8FL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow8s_L<'a>(r: &mut Pr<LE>) -> Result<KCow8S<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow8s_L<'a>(r: &mut Prc<LE>) -> Result<KCow8S<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow8s_L<'a>(v: &KCow8S<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow8s_L<'a>(v: &KCow8S<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow8s_B<'a>(r: &mut Pr<BE>) -> Result<KCow8S<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow8s_B<'a>(r: &mut Prc<BE>) -> Result<KCow8S<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow8s_B<'a>(v: &KCow8S<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow8s<'a>(v: &KCow8S<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow8s<'a>() -> usize { <KCow8S<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32d_L<'a>(r: &mut Pr<LE>) -> Result<KCow32D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32d_L<'a>(r: &mut Prc<LE>) -> Result<KCow32D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32d_L<'a>(v: &KCow32D<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32d_L<'a>(v: &KCow32D<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32d_B<'a>(r: &mut Pr<BE>) -> Result<KCow32D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32d_B<'a>(r: &mut Prc<BE>) -> Result<KCow32D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32d_B<'a>(v: &KCow32D<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32d<'a>(v: &KCow32D<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32d<'a>() -> usize { <KCow32D<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32tu7_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32tu7_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32tu7_L<'a>(v: &KCow32Tu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32tu7_L<'a>(v: &KCow32Tu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32tu7_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32tu7_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32tu7_B<'a>(v: &KCow32Tu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32tu7<'a>(v: &KCow32Tu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32tu7<'a>() -> usize { <KCow32Tu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32tu8_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32tu8_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32tu8_L<'a>(v: &KCow32Tu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32tu8_L<'a>(v: &KCow32Tu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32tu8_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32tu8_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32tu8_B<'a>(v: &KCow32Tu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32tu8<'a>(v: &KCow32Tu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32tu8<'a>() -> usize { <KCow32Tu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32tu16_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32tu16_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32tu16_L<'a>(v: &KCow32Tu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32tu16_L<'a>(v: &KCow32Tu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32tu16_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32tu16_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32tu16_B<'a>(v: &KCow32Tu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32tu16<'a>(v: &KCow32Tu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32tu16<'a>() -> usize { <KCow32Tu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32tu32_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32tu32_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32tu32_L<'a>(v: &KCow32Tu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32tu32_L<'a>(v: &KCow32Tu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32tu32_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32tu32_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32tu32_B<'a>(v: &KCow32Tu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32tu32<'a>(v: &KCow32Tu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32tu32<'a>() -> usize { <KCow32Tu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32tu64_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32tu64_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32tu64_L<'a>(v: &KCow32Tu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32tu64_L<'a>(v: &KCow32Tu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32tu64_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32tu64_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32tu64_B<'a>(v: &KCow32Tu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32tu64<'a>(v: &KCow32Tu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32tu64<'a>() -> usize { <KCow32Tu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32tu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32tu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32tu64varint_L<'a>(v: &KCow32Tu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32tu64varint_L<'a>(v: &KCow32Tu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32tu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32tu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32tu64varint_B<'a>(v: &KCow32Tu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32tu64varint<'a>(v: &KCow32Tu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32tu64varint<'a>() -> usize { <KCow32Tu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32ln_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32ln_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32ln_L<'a>(v: &KCow32Ln<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32ln_L<'a>(v: &KCow32Ln<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32ln_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32ln_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32ln_B<'a>(v: &KCow32Ln<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32ln<'a>(v: &KCow32Ln<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32ln<'a>() -> usize { <KCow32Ln<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32ldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32ldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32ldiv_L<'a>(v: &KCow32Ldiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32ldiv_L<'a>(v: &KCow32Ldiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32ldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32ldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32ldiv_B<'a>(v: &KCow32Ldiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32ldiv<'a>(v: &KCow32Ldiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32ldiv<'a>() -> usize { <KCow32Ldiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32lk_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32lk_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32lk_L<'a>(v: &KCow32Lk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32lk_L<'a>(v: &KCow32Lk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32lk_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32lk_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32lk_B<'a>(v: &KCow32Lk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32lk<'a>(v: &KCow32Lk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32lk<'a>() -> usize { <KCow32Lk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32lw_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32lw_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32lw_L<'a>(v: &KCow32Lw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32lw_L<'a>(v: &KCow32Lw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32lw_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32lw_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32lw_B<'a>(v: &KCow32Lw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32lw<'a>(v: &KCow32Lw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32lw<'a>() -> usize { <KCow32Lw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32ll_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32ll_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32ll_L<'a>(v: &KCow32Ll<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32ll_L<'a>(v: &KCow32Ll<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32ll_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32ll_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32ll_B<'a>(v: &KCow32Ll<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32ll<'a>(v: &KCow32Ll<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32ll<'a>() -> usize { <KCow32Ll<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32lz_L<'a>(r: &mut Pr<LE>) -> Result<KCow32Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32lz_L<'a>(r: &mut Prc<LE>) -> Result<KCow32Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32lz_L<'a>(v: &KCow32Lz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32lz_L<'a>(v: &KCow32Lz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32lz_B<'a>(r: &mut Pr<BE>) -> Result<KCow32Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32lz_B<'a>(r: &mut Prc<BE>) -> Result<KCow32Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32lz_B<'a>(v: &KCow32Lz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32lz<'a>(v: &KCow32Lz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32lz<'a>() -> usize { <KCow32Lz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32e_L<'a>(r: &mut Pr<LE>) -> Result<KCow32E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32e_L<'a>(r: &mut Prc<LE>) -> Result<KCow32E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32e_L<'a>(v: &KCow32E<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32e_L<'a>(v: &KCow32E<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32e_B<'a>(r: &mut Pr<BE>) -> Result<KCow32E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32e_B<'a>(r: &mut Prc<BE>) -> Result<KCow32E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32e_B<'a>(v: &KCow32E<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32e<'a>(v: &KCow32E<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32e<'a>() -> usize { <KCow32E<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32o_L<'a>(r: &mut Pr<LE>) -> Result<KCow32O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32o_L<'a>(r: &mut Prc<LE>) -> Result<KCow32O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32o_L<'a>(v: &KCow32O<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32o_L<'a>(v: &KCow32O<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32o_B<'a>(r: &mut Pr<BE>) -> Result<KCow32O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32o_B<'a>(r: &mut Prc<BE>) -> Result<KCow32O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32o_B<'a>(v: &KCow32O<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32o<'a>(v: &KCow32O<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32o<'a>() -> usize { <KCow32O<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32ot_L<'a>(r: &mut Pr<LE>) -> Result<KCow32OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32ot_L<'a>(r: &mut Prc<LE>) -> Result<KCow32OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32ot_L<'a>(v: &KCow32OT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32ot_L<'a>(v: &KCow32OT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32ot_B<'a>(r: &mut Pr<BE>) -> Result<KCow32OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32ot_B<'a>(r: &mut Prc<BE>) -> Result<KCow32OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32ot_B<'a>(v: &KCow32OT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32ot<'a>(v: &KCow32OT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32ot<'a>() -> usize { <KCow32OT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32ov_L<'a>(r: &mut Pr<LE>) -> Result<KCow32OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32ov_L<'a>(r: &mut Prc<LE>) -> Result<KCow32OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32ov_L<'a>(v: &KCow32OV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32ov_L<'a>(v: &KCow32OV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32ov_B<'a>(r: &mut Pr<BE>) -> Result<KCow32OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32ov_B<'a>(r: &mut Prc<BE>) -> Result<KCow32OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32ov_B<'a>(v: &KCow32OV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32ov<'a>(v: &KCow32OV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32ov<'a>() -> usize { <KCow32OV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32p_L<'a>(r: &mut Pr<LE>) -> Result<KCow32P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32p_L<'a>(r: &mut Prc<LE>) -> Result<KCow32P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32p_L<'a>(v: &KCow32P<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32p_L<'a>(v: &KCow32P<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32p_B<'a>(r: &mut Pr<BE>) -> Result<KCow32P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32p_B<'a>(r: &mut Prc<BE>) -> Result<KCow32P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32p_B<'a>(v: &KCow32P<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32p<'a>(v: &KCow32P<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32p<'a>() -> usize { <KCow32P<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32f_L<'a>(r: &mut Pr<LE>) -> Result<KCow32F<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32f_L<'a>(r: &mut Prc<LE>) -> Result<KCow32F<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32f_L<'a>(v: &KCow32F<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32f_L<'a>(v: &KCow32F<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32f_B<'a>(r: &mut Pr<BE>) -> Result<KCow32F<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32f_B<'a>(r: &mut Prc<BE>) -> Result<KCow32F<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32f_B<'a>(v: &KCow32F<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32f<'a>(v: &KCow32F<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32f<'a>() -> usize { <KCow32F<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32fo_L<'a>(r: &mut Pr<LE>) -> Result<KCow32FO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32fo_L<'a>(r: &mut Prc<LE>) -> Result<KCow32FO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32fo_L<'a>(v: &KCow32FO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32fo_L<'a>(v: &KCow32FO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32fo_B<'a>(r: &mut Pr<BE>) -> Result<KCow32FO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32fo_B<'a>(r: &mut Prc<BE>) -> Result<KCow32FO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32fo_B<'a>(v: &KCow32FO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32fo<'a>(v: &KCow32FO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32fo<'a>() -> usize { <KCow32FO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32fl_L<'a>(r: &mut Pr<LE>) -> Result<KCow32FL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32fl_L<'a>(r: &mut Prc<LE>) -> Result<KCow32FL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32fl_L<'a>(v: &KCow32FL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32fl_L<'a>(v: &KCow32FL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32fl_B<'a>(r: &mut Pr<BE>) -> Result<KCow32FL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32fl_B<'a>(r: &mut Prc<BE>) -> Result<KCow32FL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32fl_B<'a>(v: &KCow32FL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32fl<'a>(v: &KCow32FL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32fl<'a>() -> usize { <KCow32FL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcow32s_L<'a>(r: &mut Pr<LE>) -> Result<KCow32S<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcow32s_L<'a>(r: &mut Prc<LE>) -> Result<KCow32S<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcow32s_L<'a>(v: &KCow32S<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcow32s_L<'a>(v: &KCow32S<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcow32s_B<'a>(r: &mut Pr<BE>) -> Result<KCow32S<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcow32s_B<'a>(r: &mut Prc<BE>) -> Result<KCow32S<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcow32s_B<'a>(v: &KCow32S<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcow32s<'a>(v: &KCow32S<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcow32s<'a>() -> usize { <KCow32S<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcoweld_L<'a>(r: &mut Pr<LE>) -> Result<KCowElD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcoweld_L<'a>(r: &mut Prc<LE>) -> Result<KCowElD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcoweld_L<'a>(v: &KCowElD<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcoweld_L<'a>(v: &KCowElD<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcoweld_B<'a>(r: &mut Pr<BE>) -> Result<KCowElD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcoweld_B<'a>(r: &mut Prc<BE>) -> Result<KCowElD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcoweld_B<'a>(v: &KCowElD<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcoweld<'a>(v: &KCowElD<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcoweld<'a>() -> usize { <KCowElD<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcoweltu7_L<'a>(r: &mut Pr<LE>) -> Result<KCowElTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcoweltu7_L<'a>(r: &mut Prc<LE>) -> Result<KCowElTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcoweltu7_L<'a>(v: &KCowElTu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcoweltu7_L<'a>(v: &KCowElTu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcoweltu7_B<'a>(r: &mut Pr<BE>) -> Result<KCowElTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcoweltu7_B<'a>(r: &mut Prc<BE>) -> Result<KCowElTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcoweltu7_B<'a>(v: &KCowElTu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcoweltu7<'a>(v: &KCowElTu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcoweltu7<'a>() -> usize { <KCowElTu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcoweltu8_L<'a>(r: &mut Pr<LE>) -> Result<KCowElTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcoweltu8_L<'a>(r: &mut Prc<LE>) -> Result<KCowElTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcoweltu8_L<'a>(v: &KCowElTu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcoweltu8_L<'a>(v: &KCowElTu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcoweltu8_B<'a>(r: &mut Pr<BE>) -> Result<KCowElTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcoweltu8_B<'a>(r: &mut Prc<BE>) -> Result<KCowElTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcoweltu8_B<'a>(v: &KCowElTu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcoweltu8<'a>(v: &KCowElTu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcoweltu8<'a>() -> usize { <KCowElTu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcoweltu16_L<'a>(r: &mut Pr<LE>) -> Result<KCowElTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcoweltu16_L<'a>(r: &mut Prc<LE>) -> Result<KCowElTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcoweltu16_L<'a>(v: &KCowElTu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcoweltu16_L<'a>(v: &KCowElTu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcoweltu16_B<'a>(r: &mut Pr<BE>) -> Result<KCowElTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcoweltu16_B<'a>(r: &mut Prc<BE>) -> Result<KCowElTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcoweltu16_B<'a>(v: &KCowElTu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcoweltu16<'a>(v: &KCowElTu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcoweltu16<'a>() -> usize { <KCowElTu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcoweltu32_L<'a>(r: &mut Pr<LE>) -> Result<KCowElTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcoweltu32_L<'a>(r: &mut Prc<LE>) -> Result<KCowElTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcoweltu32_L<'a>(v: &KCowElTu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcoweltu32_L<'a>(v: &KCowElTu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcoweltu32_B<'a>(r: &mut Pr<BE>) -> Result<KCowElTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcoweltu32_B<'a>(r: &mut Prc<BE>) -> Result<KCowElTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcoweltu32_B<'a>(v: &KCowElTu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcoweltu32<'a>(v: &KCowElTu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcoweltu32<'a>() -> usize { <KCowElTu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcoweltu64_L<'a>(r: &mut Pr<LE>) -> Result<KCowElTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcoweltu64_L<'a>(r: &mut Prc<LE>) -> Result<KCowElTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcoweltu64_L<'a>(v: &KCowElTu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcoweltu64_L<'a>(v: &KCowElTu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcoweltu64_B<'a>(r: &mut Pr<BE>) -> Result<KCowElTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcoweltu64_B<'a>(r: &mut Prc<BE>) -> Result<KCowElTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcoweltu64_B<'a>(v: &KCowElTu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcoweltu64<'a>(v: &KCowElTu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcoweltu64<'a>() -> usize { <KCowElTu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcoweltu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCowElTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcoweltu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCowElTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcoweltu64varint_L<'a>(v: &KCowElTu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcoweltu64varint_L<'a>(v: &KCowElTu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcoweltu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCowElTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcoweltu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCowElTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcoweltu64varint_B<'a>(v: &KCowElTu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcoweltu64varint<'a>(v: &KCowElTu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcoweltu64varint<'a>() -> usize { <KCowElTu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelln_L<'a>(r: &mut Pr<LE>) -> Result<KCowElLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelln_L<'a>(r: &mut Prc<LE>) -> Result<KCowElLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelln_L<'a>(v: &KCowElLn<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelln_L<'a>(v: &KCowElLn<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelln_B<'a>(r: &mut Pr<BE>) -> Result<KCowElLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelln_B<'a>(r: &mut Prc<BE>) -> Result<KCowElLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelln_B<'a>(v: &KCowElLn<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelln<'a>(v: &KCowElLn<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelln<'a>() -> usize { <KCowElLn<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCowElLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCowElLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelldiv_L<'a>(v: &KCowElLdiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelldiv_L<'a>(v: &KCowElLdiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCowElLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCowElLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelldiv_B<'a>(v: &KCowElLdiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelldiv<'a>(v: &KCowElLdiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelldiv<'a>() -> usize { <KCowElLdiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowellk_L<'a>(r: &mut Pr<LE>) -> Result<KCowElLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowellk_L<'a>(r: &mut Prc<LE>) -> Result<KCowElLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowellk_L<'a>(v: &KCowElLk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowellk_L<'a>(v: &KCowElLk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowellk_B<'a>(r: &mut Pr<BE>) -> Result<KCowElLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowellk_B<'a>(r: &mut Prc<BE>) -> Result<KCowElLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowellk_B<'a>(v: &KCowElLk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowellk<'a>(v: &KCowElLk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowellk<'a>() -> usize { <KCowElLk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowellw_L<'a>(r: &mut Pr<LE>) -> Result<KCowElLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowellw_L<'a>(r: &mut Prc<LE>) -> Result<KCowElLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowellw_L<'a>(v: &KCowElLw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowellw_L<'a>(v: &KCowElLw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowellw_B<'a>(r: &mut Pr<BE>) -> Result<KCowElLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowellw_B<'a>(r: &mut Prc<BE>) -> Result<KCowElLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowellw_B<'a>(v: &KCowElLw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowellw<'a>(v: &KCowElLw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowellw<'a>() -> usize { <KCowElLw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelll_L<'a>(r: &mut Pr<LE>) -> Result<KCowElLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelll_L<'a>(r: &mut Prc<LE>) -> Result<KCowElLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelll_L<'a>(v: &KCowElLl<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelll_L<'a>(v: &KCowElLl<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelll_B<'a>(r: &mut Pr<BE>) -> Result<KCowElLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelll_B<'a>(r: &mut Prc<BE>) -> Result<KCowElLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelll_B<'a>(v: &KCowElLl<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelll<'a>(v: &KCowElLl<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelll<'a>() -> usize { <KCowElLl<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowellz_L<'a>(r: &mut Pr<LE>) -> Result<KCowElLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowellz_L<'a>(r: &mut Prc<LE>) -> Result<KCowElLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowellz_L<'a>(v: &KCowElLz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowellz_L<'a>(v: &KCowElLz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowellz_B<'a>(r: &mut Pr<BE>) -> Result<KCowElLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowellz_B<'a>(r: &mut Prc<BE>) -> Result<KCowElLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowellz_B<'a>(v: &KCowElLz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowellz<'a>(v: &KCowElLz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowellz<'a>() -> usize { <KCowElLz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowele_L<'a>(r: &mut Pr<LE>) -> Result<KCowElE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowele_L<'a>(r: &mut Prc<LE>) -> Result<KCowElE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowele_L<'a>(v: &KCowElE<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowele_L<'a>(v: &KCowElE<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowele_B<'a>(r: &mut Pr<BE>) -> Result<KCowElE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowele_B<'a>(r: &mut Prc<BE>) -> Result<KCowElE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowele_B<'a>(v: &KCowElE<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowele<'a>(v: &KCowElE<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowele<'a>() -> usize { <KCowElE<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelo_L<'a>(r: &mut Pr<LE>) -> Result<KCowElO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelo_L<'a>(r: &mut Prc<LE>) -> Result<KCowElO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelo_L<'a>(v: &KCowElO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelo_L<'a>(v: &KCowElO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelo_B<'a>(r: &mut Pr<BE>) -> Result<KCowElO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelo_B<'a>(r: &mut Prc<BE>) -> Result<KCowElO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelo_B<'a>(v: &KCowElO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelo<'a>(v: &KCowElO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelo<'a>() -> usize { <KCowElO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelot_L<'a>(r: &mut Pr<LE>) -> Result<KCowElOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelot_L<'a>(r: &mut Prc<LE>) -> Result<KCowElOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelot_L<'a>(v: &KCowElOT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelot_L<'a>(v: &KCowElOT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelot_B<'a>(r: &mut Pr<BE>) -> Result<KCowElOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelot_B<'a>(r: &mut Prc<BE>) -> Result<KCowElOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelot_B<'a>(v: &KCowElOT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelot<'a>(v: &KCowElOT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelot<'a>() -> usize { <KCowElOT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelov_L<'a>(r: &mut Pr<LE>) -> Result<KCowElOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelov_L<'a>(r: &mut Prc<LE>) -> Result<KCowElOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelov_L<'a>(v: &KCowElOV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelov_L<'a>(v: &KCowElOV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelov_B<'a>(r: &mut Pr<BE>) -> Result<KCowElOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelov_B<'a>(r: &mut Prc<BE>) -> Result<KCowElOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelov_B<'a>(v: &KCowElOV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelov<'a>(v: &KCowElOV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelov<'a>() -> usize { <KCowElOV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelp_L<'a>(r: &mut Pr<LE>) -> Result<KCowElP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelp_L<'a>(r: &mut Prc<LE>) -> Result<KCowElP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelp_L<'a>(v: &KCowElP<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelp_L<'a>(v: &KCowElP<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelp_B<'a>(r: &mut Pr<BE>) -> Result<KCowElP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelp_B<'a>(r: &mut Prc<BE>) -> Result<KCowElP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelp_B<'a>(v: &KCowElP<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelp<'a>(v: &KCowElP<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelp<'a>() -> usize { <KCowElP<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelf_L<'a>(r: &mut Pr<LE>) -> Result<KCowElF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelf_L<'a>(r: &mut Prc<LE>) -> Result<KCowElF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelf_L<'a>(v: &KCowElF<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelf_L<'a>(v: &KCowElF<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelf_B<'a>(r: &mut Pr<BE>) -> Result<KCowElF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelf_B<'a>(r: &mut Prc<BE>) -> Result<KCowElF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelf_B<'a>(v: &KCowElF<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelf<'a>(v: &KCowElF<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelf<'a>() -> usize { <KCowElF<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelfo_L<'a>(r: &mut Pr<LE>) -> Result<KCowElFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelfo_L<'a>(r: &mut Prc<LE>) -> Result<KCowElFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelfo_L<'a>(v: &KCowElFO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelfo_L<'a>(v: &KCowElFO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelfo_B<'a>(r: &mut Pr<BE>) -> Result<KCowElFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelfo_B<'a>(r: &mut Prc<BE>) -> Result<KCowElFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelfo_B<'a>(v: &KCowElFO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelfo<'a>(v: &KCowElFO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelfo<'a>() -> usize { <KCowElFO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowelfl_L<'a>(r: &mut Pr<LE>) -> Result<KCowElFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowelfl_L<'a>(r: &mut Prc<LE>) -> Result<KCowElFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowelfl_L<'a>(v: &KCowElFL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowelfl_L<'a>(v: &KCowElFL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowelfl_B<'a>(r: &mut Pr<BE>) -> Result<KCowElFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowelfl_B<'a>(r: &mut Prc<BE>) -> Result<KCowElFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowelfl_B<'a>(v: &KCowElFL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowelfl<'a>(v: &KCowElFL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowelfl<'a>() -> usize { <KCowElFL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcowels_L<'a>(r: &mut Pr<LE>) -> Result<KCowElS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcowels_L<'a>(r: &mut Prc<LE>) -> Result<KCowElS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcowels_L<'a>(v: &KCowElS<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcowels_L<'a>(v: &KCowElS<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcowels_B<'a>(r: &mut Pr<BE>) -> Result<KCowElS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcowels_B<'a>(r: &mut Prc<BE>) -> Result<KCowElS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcowels_B<'a>(v: &KCowElS<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcowels<'a>(v: &KCowElS<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcowels<'a>() -> usize { <KCowElS<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmd_L(r: &mut Pr<LE>) -> Result<KHmD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmd_L(r: &mut Prc<LE>) -> Result<KHmD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmd_L(v: &KHmD, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmd_L(v: &KHmD, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmd_B(r: &mut Pr<BE>) -> Result<KHmD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmd_B(r: &mut Prc<BE>) -> Result<KHmD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmd_B(v: &KHmD, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmd(v: &KHmD) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmd() -> usize { <KHmD as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmtu7_L(r: &mut Pr<LE>) -> Result<KHmTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmtu7_L(r: &mut Prc<LE>) -> Result<KHmTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmtu7_L(v: &KHmTu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmtu7_L(v: &KHmTu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmtu7_B(r: &mut Pr<BE>) -> Result<KHmTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmtu7_B(r: &mut Prc<BE>) -> Result<KHmTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmtu7_B(v: &KHmTu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmtu7(v: &KHmTu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmtu7() -> usize { <KHmTu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmtu8_L(r: &mut Pr<LE>) -> Result<KHmTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmtu8_L(r: &mut Prc<LE>) -> Result<KHmTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmtu8_L(v: &KHmTu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmtu8_L(v: &KHmTu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmtu8_B(r: &mut Pr<BE>) -> Result<KHmTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmtu8_B(r: &mut Prc<BE>) -> Result<KHmTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmtu8_B(v: &KHmTu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmtu8(v: &KHmTu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmtu8() -> usize { <KHmTu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmtu16_L(r: &mut Pr<LE>) -> Result<KHmTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmtu16_L(r: &mut Prc<LE>) -> Result<KHmTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmtu16_L(v: &KHmTu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmtu16_L(v: &KHmTu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmtu16_B(r: &mut Pr<BE>) -> Result<KHmTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmtu16_B(r: &mut Prc<BE>) -> Result<KHmTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmtu16_B(v: &KHmTu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmtu16(v: &KHmTu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmtu16() -> usize { <KHmTu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmtu32_L(r: &mut Pr<LE>) -> Result<KHmTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmtu32_L(r: &mut Prc<LE>) -> Result<KHmTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmtu32_L(v: &KHmTu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmtu32_L(v: &KHmTu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmtu32_B(r: &mut Pr<BE>) -> Result<KHmTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmtu32_B(r: &mut Prc<BE>) -> Result<KHmTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmtu32_B(v: &KHmTu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmtu32(v: &KHmTu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmtu32() -> usize { <KHmTu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmtu64_L(r: &mut Pr<LE>) -> Result<KHmTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmtu64_L(r: &mut Prc<LE>) -> Result<KHmTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmtu64_L(v: &KHmTu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmtu64_L(v: &KHmTu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmtu64_B(r: &mut Pr<BE>) -> Result<KHmTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmtu64_B(r: &mut Prc<BE>) -> Result<KHmTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmtu64_B(v: &KHmTu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmtu64(v: &KHmTu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmtu64() -> usize { <KHmTu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmtu64varint_L(r: &mut Pr<LE>) -> Result<KHmTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmtu64varint_L(r: &mut Prc<LE>) -> Result<KHmTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmtu64varint_L(v: &KHmTu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmtu64varint_L(v: &KHmTu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmtu64varint_B(r: &mut Pr<BE>) -> Result<KHmTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmtu64varint_B(r: &mut Prc<BE>) -> Result<KHmTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmtu64varint_B(v: &KHmTu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmtu64varint(v: &KHmTu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmtu64varint() -> usize { <KHmTu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmln_L(r: &mut Pr<LE>) -> Result<KHmLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmln_L(r: &mut Prc<LE>) -> Result<KHmLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmln_L(v: &KHmLn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmln_L(v: &KHmLn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmln_B(r: &mut Pr<BE>) -> Result<KHmLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmln_B(r: &mut Prc<BE>) -> Result<KHmLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmln_B(v: &KHmLn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmln(v: &KHmLn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmln() -> usize { <KHmLn as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmldiv_L(r: &mut Pr<LE>) -> Result<KHmLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmldiv_L(r: &mut Prc<LE>) -> Result<KHmLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmldiv_L(v: &KHmLdiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmldiv_L(v: &KHmLdiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmldiv_B(r: &mut Pr<BE>) -> Result<KHmLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmldiv_B(r: &mut Prc<BE>) -> Result<KHmLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmldiv_B(v: &KHmLdiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmldiv(v: &KHmLdiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmldiv() -> usize { <KHmLdiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmlk_L(r: &mut Pr<LE>) -> Result<KHmLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmlk_L(r: &mut Prc<LE>) -> Result<KHmLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmlk_L(v: &KHmLk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmlk_L(v: &KHmLk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmlk_B(r: &mut Pr<BE>) -> Result<KHmLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmlk_B(r: &mut Prc<BE>) -> Result<KHmLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmlk_B(v: &KHmLk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmlk(v: &KHmLk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmlk() -> usize { <KHmLk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmlw_L(r: &mut Pr<LE>) -> Result<KHmLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmlw_L(r: &mut Prc<LE>) -> Result<KHmLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmlw_L(v: &KHmLw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmlw_L(v: &KHmLw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmlw_B(r: &mut Pr<BE>) -> Result<KHmLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmlw_B(r: &mut Prc<BE>) -> Result<KHmLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmlw_B(v: &KHmLw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmlw(v: &KHmLw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmlw() -> usize { <KHmLw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmll_L(r: &mut Pr<LE>) -> Result<KHmLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmll_L(r: &mut Prc<LE>) -> Result<KHmLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmll_L(v: &KHmLl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmll_L(v: &KHmLl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmll_B(r: &mut Pr<BE>) -> Result<KHmLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmll_B(r: &mut Prc<BE>) -> Result<KHmLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmll_B(v: &KHmLl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmll(v: &KHmLl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmll() -> usize { <KHmLl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmlz_L(r: &mut Pr<LE>) -> Result<KHmLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmlz_L(r: &mut Prc<LE>) -> Result<KHmLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmlz_L(v: &KHmLz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmlz_L(v: &KHmLz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmlz_B(r: &mut Pr<BE>) -> Result<KHmLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmlz_B(r: &mut Prc<BE>) -> Result<KHmLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmlz_B(v: &KHmLz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmlz(v: &KHmLz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmlz() -> usize { <KHmLz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khme_L(r: &mut Pr<LE>) -> Result<KHmE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khme_L(r: &mut Prc<LE>) -> Result<KHmE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khme_L(v: &KHmE, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khme_L(v: &KHmE, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khme_B(r: &mut Pr<BE>) -> Result<KHmE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khme_B(r: &mut Prc<BE>) -> Result<KHmE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khme_B(v: &KHmE, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khme(v: &KHmE) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khme() -> usize { <KHmE as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmo_L(r: &mut Pr<LE>) -> Result<KHmO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmo_L(r: &mut Prc<LE>) -> Result<KHmO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmo_L(v: &KHmO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmo_L(v: &KHmO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmo_B(r: &mut Pr<BE>) -> Result<KHmO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmo_B(r: &mut Prc<BE>) -> Result<KHmO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmo_B(v: &KHmO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmo(v: &KHmO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmo() -> usize { <KHmO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmot_L(r: &mut Pr<LE>) -> Result<KHmOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmot_L(r: &mut Prc<LE>) -> Result<KHmOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmot_L(v: &KHmOT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmot_L(v: &KHmOT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmot_B(r: &mut Pr<BE>) -> Result<KHmOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmot_B(r: &mut Prc<BE>) -> Result<KHmOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmot_B(v: &KHmOT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmot(v: &KHmOT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmot() -> usize { <KHmOT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmov_L(r: &mut Pr<LE>) -> Result<KHmOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmov_L(r: &mut Prc<LE>) -> Result<KHmOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmov_L(v: &KHmOV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmov_L(v: &KHmOV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmov_B(r: &mut Pr<BE>) -> Result<KHmOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmov_B(r: &mut Prc<BE>) -> Result<KHmOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmov_B(v: &KHmOV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmov(v: &KHmOV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmov() -> usize { <KHmOV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmp_L(r: &mut Pr<LE>) -> Result<KHmP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmp_L(r: &mut Prc<LE>) -> Result<KHmP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmp_L(v: &KHmP, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmp_L(v: &KHmP, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmp_B(r: &mut Pr<BE>) -> Result<KHmP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmp_B(r: &mut Prc<BE>) -> Result<KHmP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmp_B(v: &KHmP, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmp(v: &KHmP) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmp() -> usize { <KHmP as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmf_L(r: &mut Pr<LE>) -> Result<KHmF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmf_L(r: &mut Prc<LE>) -> Result<KHmF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmf_L(v: &KHmF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmf_L(v: &KHmF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmf_B(r: &mut Pr<BE>) -> Result<KHmF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmf_B(r: &mut Prc<BE>) -> Result<KHmF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmf_B(v: &KHmF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmf(v: &KHmF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmf() -> usize { <KHmF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmfo_L(r: &mut Pr<LE>) -> Result<KHmFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmfo_L(r: &mut Prc<LE>) -> Result<KHmFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmfo_L(v: &KHmFO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmfo_L(v: &KHmFO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmfo_B(r: &mut Pr<BE>) -> Result<KHmFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmfo_B(r: &mut Prc<BE>) -> Result<KHmFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmfo_B(v: &KHmFO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmfo(v: &KHmFO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmfo() -> usize { <KHmFO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khmfl_L(r: &mut Pr<LE>) -> Result<KHmFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khmfl_L(r: &mut Prc<LE>) -> Result<KHmFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khmfl_L(v: &KHmFL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khmfl_L(v: &KHmFL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khmfl_B(r: &mut Pr<BE>) -> Result<KHmFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khmfl_B(r: &mut Prc<BE>) -> Result<KHmFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khmfl_B(v: &KHmFL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khmfl(v: &KHmFL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khmfl() -> usize { <KHmFL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khms_L(r: &mut Pr<LE>) -> Result<KHmS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khms_L(r: &mut Prc<LE>) -> Result<KHmS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khms_L(v: &KHmS, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khms_L(v: &KHmS, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khms_B(r: &mut Pr<BE>) -> Result<KHmS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khms_B(r: &mut Prc<BE>) -> Result<KHmS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khms_B(v: &KHmS, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khms(v: &KHmS) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khms() -> usize { <KHmS as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmd_L(r: &mut Pr<LE>) -> Result<KBmD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmd_L(r: &mut Prc<LE>) -> Result<KBmD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmd_L(v: &KBmD, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmd_L(v: &KBmD, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmd_B(r: &mut Pr<BE>) -> Result<KBmD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmd_B(r: &mut Prc<BE>) -> Result<KBmD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmd_B(v: &KBmD, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmd(v: &KBmD) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmd() -> usize { <KBmD as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmtu7_L(r: &mut Pr<LE>) -> Result<KBmTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmtu7_L(r: &mut Prc<LE>) -> Result<KBmTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmtu7_L(v: &KBmTu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmtu7_L(v: &KBmTu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmtu7_B(r: &mut Pr<BE>) -> Result<KBmTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmtu7_B(r: &mut Prc<BE>) -> Result<KBmTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmtu7_B(v: &KBmTu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmtu7(v: &KBmTu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmtu7() -> usize { <KBmTu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmtu8_L(r: &mut Pr<LE>) -> Result<KBmTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmtu8_L(r: &mut Prc<LE>) -> Result<KBmTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmtu8_L(v: &KBmTu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmtu8_L(v: &KBmTu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmtu8_B(r: &mut Pr<BE>) -> Result<KBmTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmtu8_B(r: &mut Prc<BE>) -> Result<KBmTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmtu8_B(v: &KBmTu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmtu8(v: &KBmTu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmtu8() -> usize { <KBmTu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmtu16_L(r: &mut Pr<LE>) -> Result<KBmTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmtu16_L(r: &mut Prc<LE>) -> Result<KBmTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmtu16_L(v: &KBmTu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmtu16_L(v: &KBmTu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmtu16_B(r: &mut Pr<BE>) -> Result<KBmTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmtu16_B(r: &mut Prc<BE>) -> Result<KBmTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmtu16_B(v: &KBmTu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmtu16(v: &KBmTu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmtu16() -> usize { <KBmTu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmtu32_L(r: &mut Pr<LE>) -> Result<KBmTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmtu32_L(r: &mut Prc<LE>) -> Result<KBmTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmtu32_L(v: &KBmTu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmtu32_L(v: &KBmTu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmtu32_B(r: &mut Pr<BE>) -> Result<KBmTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmtu32_B(r: &mut Prc<BE>) -> Result<KBmTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmtu32_B(v: &KBmTu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmtu32(v: &KBmTu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmtu32() -> usize { <KBmTu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmtu64_L(r: &mut Pr<LE>) -> Result<KBmTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmtu64_L(r: &mut Prc<LE>) -> Result<KBmTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmtu64_L(v: &KBmTu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmtu64_L(v: &KBmTu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmtu64_B(r: &mut Pr<BE>) -> Result<KBmTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmtu64_B(r: &mut Prc<BE>) -> Result<KBmTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmtu64_B(v: &KBmTu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmtu64(v: &KBmTu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmtu64() -> usize { <KBmTu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmtu64varint_L(r: &mut Pr<LE>) -> Result<KBmTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmtu64varint_L(r: &mut Prc<LE>) -> Result<KBmTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmtu64varint_L(v: &KBmTu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmtu64varint_L(v: &KBmTu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmtu64varint_B(r: &mut Pr<BE>) -> Result<KBmTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmtu64varint_B(r: &mut Prc<BE>) -> Result<KBmTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmtu64varint_B(v: &KBmTu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmtu64varint(v: &KBmTu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmtu64varint() -> usize { <KBmTu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmln_L(r: &mut Pr<LE>) -> Result<KBmLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmln_L(r: &mut Prc<LE>) -> Result<KBmLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmln_L(v: &KBmLn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmln_L(v: &KBmLn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmln_B(r: &mut Pr<BE>) -> Result<KBmLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmln_B(r: &mut Prc<BE>) -> Result<KBmLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmln_B(v: &KBmLn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmln(v: &KBmLn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmln() -> usize { <KBmLn as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmldiv_L(r: &mut Pr<LE>) -> Result<KBmLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmldiv_L(r: &mut Prc<LE>) -> Result<KBmLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmldiv_L(v: &KBmLdiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmldiv_L(v: &KBmLdiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmldiv_B(r: &mut Pr<BE>) -> Result<KBmLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmldiv_B(r: &mut Prc<BE>) -> Result<KBmLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmldiv_B(v: &KBmLdiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmldiv(v: &KBmLdiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmldiv() -> usize { <KBmLdiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmlk_L(r: &mut Pr<LE>) -> Result<KBmLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmlk_L(r: &mut Prc<LE>) -> Result<KBmLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmlk_L(v: &KBmLk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmlk_L(v: &KBmLk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmlk_B(r: &mut Pr<BE>) -> Result<KBmLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmlk_B(r: &mut Prc<BE>) -> Result<KBmLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmlk_B(v: &KBmLk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmlk(v: &KBmLk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmlk() -> usize { <KBmLk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmlw_L(r: &mut Pr<LE>) -> Result<KBmLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmlw_L(r: &mut Prc<LE>) -> Result<KBmLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmlw_L(v: &KBmLw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmlw_L(v: &KBmLw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmlw_B(r: &mut Pr<BE>) -> Result<KBmLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmlw_B(r: &mut Prc<BE>) -> Result<KBmLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmlw_B(v: &KBmLw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmlw(v: &KBmLw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmlw() -> usize { <KBmLw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmll_L(r: &mut Pr<LE>) -> Result<KBmLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmll_L(r: &mut Prc<LE>) -> Result<KBmLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmll_L(v: &KBmLl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmll_L(v: &KBmLl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmll_B(r: &mut Pr<BE>) -> Result<KBmLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmll_B(r: &mut Prc<BE>) -> Result<KBmLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmll_B(v: &KBmLl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmll(v: &KBmLl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmll() -> usize { <KBmLl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmlz_L(r: &mut Pr<LE>) -> Result<KBmLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmlz_L(r: &mut Prc<LE>) -> Result<KBmLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmlz_L(v: &KBmLz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmlz_L(v: &KBmLz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmlz_B(r: &mut Pr<BE>) -> Result<KBmLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmlz_B(r: &mut Prc<BE>) -> Result<KBmLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmlz_B(v: &KBmLz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmlz(v: &KBmLz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmlz() -> usize { <KBmLz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbme_L(r: &mut Pr<LE>) -> Result<KBmE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbme_L(r: &mut Prc<LE>) -> Result<KBmE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbme_L(v: &KBmE, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbme_L(v: &KBmE, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbme_B(r: &mut Pr<BE>) -> Result<KBmE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbme_B(r: &mut Prc<BE>) -> Result<KBmE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbme_B(v: &KBmE, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbme(v: &KBmE) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbme() -> usize { <KBmE as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmo_L(r: &mut Pr<LE>) -> Result<KBmO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmo_L(r: &mut Prc<LE>) -> Result<KBmO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmo_L(v: &KBmO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmo_L(v: &KBmO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmo_B(r: &mut Pr<BE>) -> Result<KBmO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmo_B(r: &mut Prc<BE>) -> Result<KBmO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmo_B(v: &KBmO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmo(v: &KBmO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmo() -> usize { <KBmO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmot_L(r: &mut Pr<LE>) -> Result<KBmOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmot_L(r: &mut Prc<LE>) -> Result<KBmOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmot_L(v: &KBmOT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmot_L(v: &KBmOT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmot_B(r: &mut Pr<BE>) -> Result<KBmOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmot_B(r: &mut Prc<BE>) -> Result<KBmOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmot_B(v: &KBmOT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmot(v: &KBmOT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmot() -> usize { <KBmOT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmov_L(r: &mut Pr<LE>) -> Result<KBmOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmov_L(r: &mut Prc<LE>) -> Result<KBmOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmov_L(v: &KBmOV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmov_L(v: &KBmOV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmov_B(r: &mut Pr<BE>) -> Result<KBmOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmov_B(r: &mut Prc<BE>) -> Result<KBmOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmov_B(v: &KBmOV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmov(v: &KBmOV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmov() -> usize { <KBmOV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmp_L(r: &mut Pr<LE>) -> Result<KBmP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmp_L(r: &mut Prc<LE>) -> Result<KBmP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmp_L(v: &KBmP, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmp_L(v: &KBmP, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmp_B(r: &mut Pr<BE>) -> Result<KBmP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmp_B(r: &mut Prc<BE>) -> Result<KBmP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmp_B(v: &KBmP, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmp(v: &KBmP) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmp() -> usize { <KBmP as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmf_L(r: &mut Pr<LE>) -> Result<KBmF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmf_L(r: &mut Prc<LE>) -> Result<KBmF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmf_L(v: &KBmF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmf_L(v: &KBmF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmf_B(r: &mut Pr<BE>) -> Result<KBmF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmf_B(r: &mut Prc<BE>) -> Result<KBmF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmf_B(v: &KBmF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmf(v: &KBmF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmf() -> usize { <KBmF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmfo_L(r: &mut Pr<LE>) -> Result<KBmFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmfo_L(r: &mut Prc<LE>) -> Result<KBmFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmfo_L(v: &KBmFO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmfo_L(v: &KBmFO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmfo_B(r: &mut Pr<BE>) -> Result<KBmFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmfo_B(r: &mut Prc<BE>) -> Result<KBmFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmfo_B(v: &KBmFO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmfo(v: &KBmFO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmfo() -> usize { <KBmFO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbmfl_L(r: &mut Pr<LE>) -> Result<KBmFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbmfl_L(r: &mut Prc<LE>) -> Result<KBmFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbmfl_L(v: &KBmFL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbmfl_L(v: &KBmFL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbmfl_B(r: &mut Pr<BE>) -> Result<KBmFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbmfl_B(r: &mut Prc<BE>) -> Result<KBmFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbmfl_B(v: &KBmFL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbmfl(v: &KBmFL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbmfl() -> usize { <KBmFL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbms_L(r: &mut Pr<LE>) -> Result<KBmS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbms_L(r: &mut Prc<LE>) -> Result<KBmS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbms_L(v: &KBmS, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbms_L(v: &KBmS, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbms_B(r: &mut Pr<BE>) -> Result<KBmS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbms_B(r: &mut Prc<BE>) -> Result<KBmS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbms_B(v: &KBmS, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbms(v: &KBmS) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbms() -> usize { <KBmS as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsd_L(r: &mut Pr<LE>) -> Result<KHsD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsd_L(r: &mut Prc<LE>) -> Result<KHsD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsd_L(v: &KHsD, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsd_L(v: &KHsD, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsd_B(r: &mut Pr<BE>) -> Result<KHsD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsd_B(r: &mut Prc<BE>) -> Result<KHsD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsd_B(v: &KHsD, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsd(v: &KHsD) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsd() -> usize { <KHsD as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khstu7_L(r: &mut Pr<LE>) -> Result<KHsTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khstu7_L(r: &mut Prc<LE>) -> Result<KHsTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khstu7_L(v: &KHsTu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khstu7_L(v: &KHsTu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khstu7_B(r: &mut Pr<BE>) -> Result<KHsTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khstu7_B(r: &mut Prc<BE>) -> Result<KHsTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khstu7_B(v: &KHsTu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khstu7(v: &KHsTu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khstu7() -> usize { <KHsTu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khstu8_L(r: &mut Pr<LE>) -> Result<KHsTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khstu8_L(r: &mut Prc<LE>) -> Result<KHsTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khstu8_L(v: &KHsTu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khstu8_L(v: &KHsTu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khstu8_B(r: &mut Pr<BE>) -> Result<KHsTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khstu8_B(r: &mut Prc<BE>) -> Result<KHsTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khstu8_B(v: &KHsTu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khstu8(v: &KHsTu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khstu8() -> usize { <KHsTu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khstu16_L(r: &mut Pr<LE>) -> Result<KHsTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khstu16_L(r: &mut Prc<LE>) -> Result<KHsTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khstu16_L(v: &KHsTu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khstu16_L(v: &KHsTu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khstu16_B(r: &mut Pr<BE>) -> Result<KHsTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khstu16_B(r: &mut Prc<BE>) -> Result<KHsTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khstu16_B(v: &KHsTu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khstu16(v: &KHsTu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khstu16() -> usize { <KHsTu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khstu32_L(r: &mut Pr<LE>) -> Result<KHsTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khstu32_L(r: &mut Prc<LE>) -> Result<KHsTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khstu32_L(v: &KHsTu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khstu32_L(v: &KHsTu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khstu32_B(r: &mut Pr<BE>) -> Result<KHsTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khstu32_B(r: &mut Prc<BE>) -> Result<KHsTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khstu32_B(v: &KHsTu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khstu32(v: &KHsTu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khstu32() -> usize { <KHsTu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khstu64_L(r: &mut Pr<LE>) -> Result<KHsTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khstu64_L(r: &mut Prc<LE>) -> Result<KHsTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khstu64_L(v: &KHsTu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khstu64_L(v: &KHsTu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khstu64_B(r: &mut Pr<BE>) -> Result<KHsTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khstu64_B(r: &mut Prc<BE>) -> Result<KHsTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khstu64_B(v: &KHsTu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khstu64(v: &KHsTu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khstu64() -> usize { <KHsTu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khstu64varint_L(r: &mut Pr<LE>) -> Result<KHsTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khstu64varint_L(r: &mut Prc<LE>) -> Result<KHsTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khstu64varint_L(v: &KHsTu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khstu64varint_L(v: &KHsTu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khstu64varint_B(r: &mut Pr<BE>) -> Result<KHsTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khstu64varint_B(r: &mut Prc<BE>) -> Result<KHsTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khstu64varint_B(v: &KHsTu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khstu64varint(v: &KHsTu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khstu64varint() -> usize { <KHsTu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsln_L(r: &mut Pr<LE>) -> Result<KHsLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsln_L(r: &mut Prc<LE>) -> Result<KHsLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsln_L(v: &KHsLn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsln_L(v: &KHsLn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsln_B(r: &mut Pr<BE>) -> Result<KHsLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsln_B(r: &mut Prc<BE>) -> Result<KHsLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsln_B(v: &KHsLn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsln(v: &KHsLn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsln() -> usize { <KHsLn as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsldiv_L(r: &mut Pr<LE>) -> Result<KHsLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsldiv_L(r: &mut Prc<LE>) -> Result<KHsLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsldiv_L(v: &KHsLdiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsldiv_L(v: &KHsLdiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsldiv_B(r: &mut Pr<BE>) -> Result<KHsLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsldiv_B(r: &mut Prc<BE>) -> Result<KHsLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsldiv_B(v: &KHsLdiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsldiv(v: &KHsLdiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsldiv() -> usize { <KHsLdiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khslk_L(r: &mut Pr<LE>) -> Result<KHsLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khslk_L(r: &mut Prc<LE>) -> Result<KHsLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khslk_L(v: &KHsLk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khslk_L(v: &KHsLk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khslk_B(r: &mut Pr<BE>) -> Result<KHsLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khslk_B(r: &mut Prc<BE>) -> Result<KHsLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khslk_B(v: &KHsLk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khslk(v: &KHsLk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khslk() -> usize { <KHsLk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khslw_L(r: &mut Pr<LE>) -> Result<KHsLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khslw_L(r: &mut Prc<LE>) -> Result<KHsLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khslw_L(v: &KHsLw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khslw_L(v: &KHsLw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khslw_B(r: &mut Pr<BE>) -> Result<KHsLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khslw_B(r: &mut Prc<BE>) -> Result<KHsLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khslw_B(v: &KHsLw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khslw(v: &KHsLw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khslw() -> usize { <KHsLw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsll_L(r: &mut Pr<LE>) -> Result<KHsLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsll_L(r: &mut Prc<LE>) -> Result<KHsLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsll_L(v: &KHsLl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsll_L(v: &KHsLl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsll_B(r: &mut Pr<BE>) -> Result<KHsLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsll_B(r: &mut Prc<BE>) -> Result<KHsLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsll_B(v: &KHsLl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsll(v: &KHsLl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsll() -> usize { <KHsLl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khslz_L(r: &mut Pr<LE>) -> Result<KHsLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khslz_L(r: &mut Prc<LE>) -> Result<KHsLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khslz_L(v: &KHsLz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khslz_L(v: &KHsLz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khslz_B(r: &mut Pr<BE>) -> Result<KHsLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khslz_B(r: &mut Prc<BE>) -> Result<KHsLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khslz_B(v: &KHsLz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khslz(v: &KHsLz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khslz() -> usize { <KHsLz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khse_L(r: &mut Pr<LE>) -> Result<KHsE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khse_L(r: &mut Prc<LE>) -> Result<KHsE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khse_L(v: &KHsE, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khse_L(v: &KHsE, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khse_B(r: &mut Pr<BE>) -> Result<KHsE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khse_B(r: &mut Prc<BE>) -> Result<KHsE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khse_B(v: &KHsE, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khse(v: &KHsE) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khse() -> usize { <KHsE as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khso_L(r: &mut Pr<LE>) -> Result<KHsO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khso_L(r: &mut Prc<LE>) -> Result<KHsO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khso_L(v: &KHsO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khso_L(v: &KHsO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khso_B(r: &mut Pr<BE>) -> Result<KHsO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khso_B(r: &mut Prc<BE>) -> Result<KHsO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khso_B(v: &KHsO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khso(v: &KHsO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khso() -> usize { <KHsO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsot_L(r: &mut Pr<LE>) -> Result<KHsOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsot_L(r: &mut Prc<LE>) -> Result<KHsOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsot_L(v: &KHsOT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsot_L(v: &KHsOT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsot_B(r: &mut Pr<BE>) -> Result<KHsOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsot_B(r: &mut Prc<BE>) -> Result<KHsOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsot_B(v: &KHsOT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsot(v: &KHsOT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsot() -> usize { <KHsOT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsov_L(r: &mut Pr<LE>) -> Result<KHsOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsov_L(r: &mut Prc<LE>) -> Result<KHsOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsov_L(v: &KHsOV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsov_L(v: &KHsOV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsov_B(r: &mut Pr<BE>) -> Result<KHsOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsov_B(r: &mut Prc<BE>) -> Result<KHsOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsov_B(v: &KHsOV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsov(v: &KHsOV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsov() -> usize { <KHsOV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsp_L(r: &mut Pr<LE>) -> Result<KHsP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsp_L(r: &mut Prc<LE>) -> Result<KHsP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsp_L(v: &KHsP, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsp_L(v: &KHsP, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsp_B(r: &mut Pr<BE>) -> Result<KHsP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsp_B(r: &mut Prc<BE>) -> Result<KHsP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsp_B(v: &KHsP, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsp(v: &KHsP) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsp() -> usize { <KHsP as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsf_L(r: &mut Pr<LE>) -> Result<KHsF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsf_L(r: &mut Prc<LE>) -> Result<KHsF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsf_L(v: &KHsF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsf_L(v: &KHsF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsf_B(r: &mut Pr<BE>) -> Result<KHsF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsf_B(r: &mut Prc<BE>) -> Result<KHsF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsf_B(v: &KHsF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsf(v: &KHsF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsf() -> usize { <KHsF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsfo_L(r: &mut Pr<LE>) -> Result<KHsFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsfo_L(r: &mut Prc<LE>) -> Result<KHsFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsfo_L(v: &KHsFO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsfo_L(v: &KHsFO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsfo_B(r: &mut Pr<BE>) -> Result<KHsFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsfo_B(r: &mut Prc<BE>) -> Result<KHsFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsfo_B(v: &KHsFO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsfo(v: &KHsFO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsfo() -> usize { <KHsFO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khsfl_L(r: &mut Pr<LE>) -> Result<KHsFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khsfl_L(r: &mut Prc<LE>) -> Result<KHsFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khsfl_L(v: &KHsFL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khsfl_L(v: &KHsFL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khsfl_B(r: &mut Pr<BE>) -> Result<KHsFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khsfl_B(r: &mut Prc<BE>) -> Result<KHsFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khsfl_B(v: &KHsFL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khsfl(v: &KHsFL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khsfl() -> usize { <KHsFL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_khss_L(r: &mut Pr<LE>) -> Result<KHsS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_khss_L(r: &mut Prc<LE>) -> Result<KHsS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_khss_L(v: &KHsS, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_khss_L(v: &KHsS, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_khss_B(r: &mut Pr<BE>) -> Result<KHsS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_khss_B(r: &mut Prc<BE>) -> Result<KHsS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_khss_B(v: &KHsS, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_khss(v: &KHsS) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_khss() -> usize { <KHsS as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsd_L(r: &mut Pr<LE>) -> Result<KBsD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsd_L(r: &mut Prc<LE>) -> Result<KBsD, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsd_L(v: &KBsD, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsd_L(v: &KBsD, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsd_B(r: &mut Pr<BE>) -> Result<KBsD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsd_B(r: &mut Prc<BE>) -> Result<KBsD, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsd_B(v: &KBsD, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsd(v: &KBsD) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsd() -> usize { <KBsD as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbstu7_L(r: &mut Pr<LE>) -> Result<KBsTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbstu7_L(r: &mut Prc<LE>) -> Result<KBsTu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbstu7_L(v: &KBsTu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbstu7_L(v: &KBsTu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbstu7_B(r: &mut Pr<BE>) -> Result<KBsTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbstu7_B(r: &mut Prc<BE>) -> Result<KBsTu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbstu7_B(v: &KBsTu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbstu7(v: &KBsTu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbstu7() -> usize { <KBsTu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbstu8_L(r: &mut Pr<LE>) -> Result<KBsTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbstu8_L(r: &mut Prc<LE>) -> Result<KBsTu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbstu8_L(v: &KBsTu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbstu8_L(v: &KBsTu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbstu8_B(r: &mut Pr<BE>) -> Result<KBsTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbstu8_B(r: &mut Prc<BE>) -> Result<KBsTu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbstu8_B(v: &KBsTu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbstu8(v: &KBsTu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbstu8() -> usize { <KBsTu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbstu16_L(r: &mut Pr<LE>) -> Result<KBsTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbstu16_L(r: &mut Prc<LE>) -> Result<KBsTu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbstu16_L(v: &KBsTu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbstu16_L(v: &KBsTu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbstu16_B(r: &mut Pr<BE>) -> Result<KBsTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbstu16_B(r: &mut Prc<BE>) -> Result<KBsTu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbstu16_B(v: &KBsTu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbstu16(v: &KBsTu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbstu16() -> usize { <KBsTu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbstu32_L(r: &mut Pr<LE>) -> Result<KBsTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbstu32_L(r: &mut Prc<LE>) -> Result<KBsTu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbstu32_L(v: &KBsTu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbstu32_L(v: &KBsTu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbstu32_B(r: &mut Pr<BE>) -> Result<KBsTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbstu32_B(r: &mut Prc<BE>) -> Result<KBsTu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbstu32_B(v: &KBsTu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbstu32(v: &KBsTu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbstu32() -> usize { <KBsTu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbstu64_L(r: &mut Pr<LE>) -> Result<KBsTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbstu64_L(r: &mut Prc<LE>) -> Result<KBsTu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbstu64_L(v: &KBsTu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbstu64_L(v: &KBsTu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbstu64_B(r: &mut Pr<BE>) -> Result<KBsTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbstu64_B(r: &mut Prc<BE>) -> Result<KBsTu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbstu64_B(v: &KBsTu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbstu64(v: &KBsTu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbstu64() -> usize { <KBsTu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbstu64varint_L(r: &mut Pr<LE>) -> Result<KBsTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbstu64varint_L(r: &mut Prc<LE>) -> Result<KBsTu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbstu64varint_L(v: &KBsTu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbstu64varint_L(v: &KBsTu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbstu64varint_B(r: &mut Pr<BE>) -> Result<KBsTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbstu64varint_B(r: &mut Prc<BE>) -> Result<KBsTu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbstu64varint_B(v: &KBsTu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbstu64varint(v: &KBsTu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbstu64varint() -> usize { <KBsTu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsln_L(r: &mut Pr<LE>) -> Result<KBsLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsln_L(r: &mut Prc<LE>) -> Result<KBsLn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsln_L(v: &KBsLn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsln_L(v: &KBsLn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsln_B(r: &mut Pr<BE>) -> Result<KBsLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsln_B(r: &mut Prc<BE>) -> Result<KBsLn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsln_B(v: &KBsLn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsln(v: &KBsLn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsln() -> usize { <KBsLn as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsldiv_L(r: &mut Pr<LE>) -> Result<KBsLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsldiv_L(r: &mut Prc<LE>) -> Result<KBsLdiv, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsldiv_L(v: &KBsLdiv, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsldiv_L(v: &KBsLdiv, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsldiv_B(r: &mut Pr<BE>) -> Result<KBsLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsldiv_B(r: &mut Prc<BE>) -> Result<KBsLdiv, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsldiv_B(v: &KBsLdiv, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsldiv(v: &KBsLdiv) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsldiv() -> usize { <KBsLdiv as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbslk_L(r: &mut Pr<LE>) -> Result<KBsLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbslk_L(r: &mut Prc<LE>) -> Result<KBsLk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbslk_L(v: &KBsLk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbslk_L(v: &KBsLk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbslk_B(r: &mut Pr<BE>) -> Result<KBsLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbslk_B(r: &mut Prc<BE>) -> Result<KBsLk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbslk_B(v: &KBsLk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbslk(v: &KBsLk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbslk() -> usize { <KBsLk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbslw_L(r: &mut Pr<LE>) -> Result<KBsLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbslw_L(r: &mut Prc<LE>) -> Result<KBsLw, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbslw_L(v: &KBsLw, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbslw_L(v: &KBsLw, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbslw_B(r: &mut Pr<BE>) -> Result<KBsLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbslw_B(r: &mut Prc<BE>) -> Result<KBsLw, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbslw_B(v: &KBsLw, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbslw(v: &KBsLw) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbslw() -> usize { <KBsLw as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsll_L(r: &mut Pr<LE>) -> Result<KBsLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsll_L(r: &mut Prc<LE>) -> Result<KBsLl, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsll_L(v: &KBsLl, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsll_L(v: &KBsLl, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsll_B(r: &mut Pr<BE>) -> Result<KBsLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsll_B(r: &mut Prc<BE>) -> Result<KBsLl, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsll_B(v: &KBsLl, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsll(v: &KBsLl) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsll() -> usize { <KBsLl as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbslz_L(r: &mut Pr<LE>) -> Result<KBsLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbslz_L(r: &mut Prc<LE>) -> Result<KBsLz, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbslz_L(v: &KBsLz, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbslz_L(v: &KBsLz, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbslz_B(r: &mut Pr<BE>) -> Result<KBsLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbslz_B(r: &mut Prc<BE>) -> Result<KBsLz, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbslz_B(v: &KBsLz, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbslz(v: &KBsLz) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbslz() -> usize { <KBsLz as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbse_L(r: &mut Pr<LE>) -> Result<KBsE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbse_L(r: &mut Prc<LE>) -> Result<KBsE, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbse_L(v: &KBsE, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbse_L(v: &KBsE, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbse_B(r: &mut Pr<BE>) -> Result<KBsE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbse_B(r: &mut Prc<BE>) -> Result<KBsE, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbse_B(v: &KBsE, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbse(v: &KBsE) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbse() -> usize { <KBsE as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbso_L(r: &mut Pr<LE>) -> Result<KBsO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbso_L(r: &mut Prc<LE>) -> Result<KBsO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbso_L(v: &KBsO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbso_L(v: &KBsO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbso_B(r: &mut Pr<BE>) -> Result<KBsO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbso_B(r: &mut Prc<BE>) -> Result<KBsO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbso_B(v: &KBsO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbso(v: &KBsO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbso() -> usize { <KBsO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsot_L(r: &mut Pr<LE>) -> Result<KBsOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsot_L(r: &mut Prc<LE>) -> Result<KBsOT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsot_L(v: &KBsOT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsot_L(v: &KBsOT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsot_B(r: &mut Pr<BE>) -> Result<KBsOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsot_B(r: &mut Prc<BE>) -> Result<KBsOT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsot_B(v: &KBsOT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsot(v: &KBsOT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsot() -> usize { <KBsOT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsov_L(r: &mut Pr<LE>) -> Result<KBsOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsov_L(r: &mut Prc<LE>) -> Result<KBsOV, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsov_L(v: &KBsOV, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsov_L(v: &KBsOV, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsov_B(r: &mut Pr<BE>) -> Result<KBsOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsov_B(r: &mut Prc<BE>) -> Result<KBsOV, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsov_B(v: &KBsOV, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsov(v: &KBsOV) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsov() -> usize { <KBsOV as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsp_L(r: &mut Pr<LE>) -> Result<KBsP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsp_L(r: &mut Prc<LE>) -> Result<KBsP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsp_L(v: &KBsP, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsp_L(v: &KBsP, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsp_B(r: &mut Pr<BE>) -> Result<KBsP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsp_B(r: &mut Prc<BE>) -> Result<KBsP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsp_B(v: &KBsP, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsp(v: &KBsP) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsp() -> usize { <KBsP as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsf_L(r: &mut Pr<LE>) -> Result<KBsF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsf_L(r: &mut Prc<LE>) -> Result<KBsF, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsf_L(v: &KBsF, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsf_L(v: &KBsF, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsf_B(r: &mut Pr<BE>) -> Result<KBsF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsf_B(r: &mut Prc<BE>) -> Result<KBsF, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsf_B(v: &KBsF, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsf(v: &KBsF) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsf() -> usize { <KBsF as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsfo_L(r: &mut Pr<LE>) -> Result<KBsFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsfo_L(r: &mut Prc<LE>) -> Result<KBsFO, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsfo_L(v: &KBsFO, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsfo_L(v: &KBsFO, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsfo_B(r: &mut Pr<BE>) -> Result<KBsFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsfo_B(r: &mut Prc<BE>) -> Result<KBsFO, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsfo_B(v: &KBsFO, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsfo(v: &KBsFO) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsfo() -> usize { <KBsFO as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbsfl_L(r: &mut Pr<LE>) -> Result<KBsFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbsfl_L(r: &mut Prc<LE>) -> Result<KBsFL, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbsfl_L(v: &KBsFL, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbsfl_L(v: &KBsFL, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbsfl_B(r: &mut Pr<BE>) -> Result<KBsFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbsfl_B(r: &mut Prc<BE>) -> Result<KBsFL, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbsfl_B(v: &KBsFL, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbsfl(v: &KBsFL) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbsfl() -> usize { <KBsFL as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kbss_L(r: &mut Pr<LE>) -> Result<KBsS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_kbss_L(r: &mut Prc<LE>) -> Result<KBsS, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_kbss_L(v: &KBsS, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kbss_L(v: &KBsS, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kbss_B(r: &mut Pr<BE>) -> Result<KBsS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_kbss_B(r: &mut Prc<BE>) -> Result<KBsS, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_kbss_B(v: &KBsS, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kbss(v: &KBsS) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kbss() -> usize { <KBsS as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmd_L<'a>(r: &mut Pr<LE>) -> Result<KCHmD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmd_L<'a>(r: &mut Prc<LE>) -> Result<KCHmD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmd_L<'a>(v: &KCHmD<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmd_L<'a>(v: &KCHmD<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmd_B<'a>(r: &mut Pr<BE>) -> Result<KCHmD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmd_B<'a>(r: &mut Prc<BE>) -> Result<KCHmD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmd_B<'a>(v: &KCHmD<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmd<'a>(v: &KCHmD<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmd<'a>() -> usize { <KCHmD<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmtu7_L<'a>(r: &mut Pr<LE>) -> Result<KCHmTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmtu7_L<'a>(r: &mut Prc<LE>) -> Result<KCHmTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmtu7_L<'a>(v: &KCHmTu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmtu7_L<'a>(v: &KCHmTu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmtu7_B<'a>(r: &mut Pr<BE>) -> Result<KCHmTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmtu7_B<'a>(r: &mut Prc<BE>) -> Result<KCHmTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmtu7_B<'a>(v: &KCHmTu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmtu7<'a>(v: &KCHmTu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmtu7<'a>() -> usize { <KCHmTu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmtu8_L<'a>(r: &mut Pr<LE>) -> Result<KCHmTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmtu8_L<'a>(r: &mut Prc<LE>) -> Result<KCHmTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmtu8_L<'a>(v: &KCHmTu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmtu8_L<'a>(v: &KCHmTu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmtu8_B<'a>(r: &mut Pr<BE>) -> Result<KCHmTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmtu8_B<'a>(r: &mut Prc<BE>) -> Result<KCHmTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmtu8_B<'a>(v: &KCHmTu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmtu8<'a>(v: &KCHmTu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmtu8<'a>() -> usize { <KCHmTu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmtu16_L<'a>(r: &mut Pr<LE>) -> Result<KCHmTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmtu16_L<'a>(r: &mut Prc<LE>) -> Result<KCHmTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmtu16_L<'a>(v: &KCHmTu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmtu16_L<'a>(v: &KCHmTu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmtu16_B<'a>(r: &mut Pr<BE>) -> Result<KCHmTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmtu16_B<'a>(r: &mut Prc<BE>) -> Result<KCHmTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmtu16_B<'a>(v: &KCHmTu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmtu16<'a>(v: &KCHmTu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmtu16<'a>() -> usize { <KCHmTu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmtu32_L<'a>(r: &mut Pr<LE>) -> Result<KCHmTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmtu32_L<'a>(r: &mut Prc<LE>) -> Result<KCHmTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmtu32_L<'a>(v: &KCHmTu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmtu32_L<'a>(v: &KCHmTu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmtu32_B<'a>(r: &mut Pr<BE>) -> Result<KCHmTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmtu32_B<'a>(r: &mut Prc<BE>) -> Result<KCHmTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmtu32_B<'a>(v: &KCHmTu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmtu32<'a>(v: &KCHmTu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmtu32<'a>() -> usize { <KCHmTu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmtu64_L<'a>(r: &mut Pr<LE>) -> Result<KCHmTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmtu64_L<'a>(r: &mut Prc<LE>) -> Result<KCHmTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmtu64_L<'a>(v: &KCHmTu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmtu64_L<'a>(v: &KCHmTu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmtu64_B<'a>(r: &mut Pr<BE>) -> Result<KCHmTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmtu64_B<'a>(r: &mut Prc<BE>) -> Result<KCHmTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmtu64_B<'a>(v: &KCHmTu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmtu64<'a>(v: &KCHmTu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmtu64<'a>() -> usize { <KCHmTu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmtu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCHmTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmtu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCHmTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmtu64varint_L<'a>(v: &KCHmTu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmtu64varint_L<'a>(v: &KCHmTu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmtu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCHmTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmtu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCHmTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmtu64varint_B<'a>(v: &KCHmTu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmtu64varint<'a>(v: &KCHmTu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmtu64varint<'a>() -> usize { <KCHmTu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmln_L<'a>(r: &mut Pr<LE>) -> Result<KCHmLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmln_L<'a>(r: &mut Prc<LE>) -> Result<KCHmLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmln_L<'a>(v: &KCHmLn<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmln_L<'a>(v: &KCHmLn<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmln_B<'a>(r: &mut Pr<BE>) -> Result<KCHmLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmln_B<'a>(r: &mut Prc<BE>) -> Result<KCHmLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmln_B<'a>(v: &KCHmLn<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmln<'a>(v: &KCHmLn<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmln<'a>() -> usize { <KCHmLn<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCHmLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCHmLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmldiv_L<'a>(v: &KCHmLdiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmldiv_L<'a>(v: &KCHmLdiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCHmLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCHmLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmldiv_B<'a>(v: &KCHmLdiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmldiv<'a>(v: &KCHmLdiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmldiv<'a>() -> usize { <KCHmLdiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmlk_L<'a>(r: &mut Pr<LE>) -> Result<KCHmLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmlk_L<'a>(r: &mut Prc<LE>) -> Result<KCHmLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmlk_L<'a>(v: &KCHmLk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmlk_L<'a>(v: &KCHmLk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmlk_B<'a>(r: &mut Pr<BE>) -> Result<KCHmLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmlk_B<'a>(r: &mut Prc<BE>) -> Result<KCHmLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmlk_B<'a>(v: &KCHmLk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmlk<'a>(v: &KCHmLk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmlk<'a>() -> usize { <KCHmLk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmlw_L<'a>(r: &mut Pr<LE>) -> Result<KCHmLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmlw_L<'a>(r: &mut Prc<LE>) -> Result<KCHmLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmlw_L<'a>(v: &KCHmLw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmlw_L<'a>(v: &KCHmLw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmlw_B<'a>(r: &mut Pr<BE>) -> Result<KCHmLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmlw_B<'a>(r: &mut Prc<BE>) -> Result<KCHmLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmlw_B<'a>(v: &KCHmLw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmlw<'a>(v: &KCHmLw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmlw<'a>() -> usize { <KCHmLw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmll_L<'a>(r: &mut Pr<LE>) -> Result<KCHmLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmll_L<'a>(r: &mut Prc<LE>) -> Result<KCHmLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmll_L<'a>(v: &KCHmLl<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmll_L<'a>(v: &KCHmLl<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmll_B<'a>(r: &mut Pr<BE>) -> Result<KCHmLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmll_B<'a>(r: &mut Prc<BE>) -> Result<KCHmLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmll_B<'a>(v: &KCHmLl<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmll<'a>(v: &KCHmLl<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmll<'a>() -> usize { <KCHmLl<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmlz_L<'a>(r: &mut Pr<LE>) -> Result<KCHmLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmlz_L<'a>(r: &mut Prc<LE>) -> Result<KCHmLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmlz_L<'a>(v: &KCHmLz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmlz_L<'a>(v: &KCHmLz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmlz_B<'a>(r: &mut Pr<BE>) -> Result<KCHmLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmlz_B<'a>(r: &mut Prc<BE>) -> Result<KCHmLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmlz_B<'a>(v: &KCHmLz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmlz<'a>(v: &KCHmLz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmlz<'a>() -> usize { <KCHmLz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchme_L<'a>(r: &mut Pr<LE>) -> Result<KCHmE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchme_L<'a>(r: &mut Prc<LE>) -> Result<KCHmE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchme_L<'a>(v: &KCHmE<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchme_L<'a>(v: &KCHmE<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchme_B<'a>(r: &mut Pr<BE>) -> Result<KCHmE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchme_B<'a>(r: &mut Prc<BE>) -> Result<KCHmE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchme_B<'a>(v: &KCHmE<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchme<'a>(v: &KCHmE<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchme<'a>() -> usize { <KCHmE<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmo_L<'a>(r: &mut Pr<LE>) -> Result<KCHmO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmo_L<'a>(r: &mut Prc<LE>) -> Result<KCHmO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmo_L<'a>(v: &KCHmO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmo_L<'a>(v: &KCHmO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmo_B<'a>(r: &mut Pr<BE>) -> Result<KCHmO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmo_B<'a>(r: &mut Prc<BE>) -> Result<KCHmO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmo_B<'a>(v: &KCHmO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmo<'a>(v: &KCHmO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmo<'a>() -> usize { <KCHmO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmot_L<'a>(r: &mut Pr<LE>) -> Result<KCHmOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmot_L<'a>(r: &mut Prc<LE>) -> Result<KCHmOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmot_L<'a>(v: &KCHmOT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmot_L<'a>(v: &KCHmOT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmot_B<'a>(r: &mut Pr<BE>) -> Result<KCHmOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmot_B<'a>(r: &mut Prc<BE>) -> Result<KCHmOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmot_B<'a>(v: &KCHmOT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmot<'a>(v: &KCHmOT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmot<'a>() -> usize { <KCHmOT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmov_L<'a>(r: &mut Pr<LE>) -> Result<KCHmOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmov_L<'a>(r: &mut Prc<LE>) -> Result<KCHmOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmov_L<'a>(v: &KCHmOV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmov_L<'a>(v: &KCHmOV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmov_B<'a>(r: &mut Pr<BE>) -> Result<KCHmOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmov_B<'a>(r: &mut Prc<BE>) -> Result<KCHmOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmov_B<'a>(v: &KCHmOV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmov<'a>(v: &KCHmOV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmov<'a>() -> usize { <KCHmOV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmp_L<'a>(r: &mut Pr<LE>) -> Result<KCHmP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmp_L<'a>(r: &mut Prc<LE>) -> Result<KCHmP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmp_L<'a>(v: &KCHmP<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmp_L<'a>(v: &KCHmP<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmp_B<'a>(r: &mut Pr<BE>) -> Result<KCHmP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmp_B<'a>(r: &mut Prc<BE>) -> Result<KCHmP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmp_B<'a>(v: &KCHmP<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmp<'a>(v: &KCHmP<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmp<'a>() -> usize { <KCHmP<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmf_L<'a>(r: &mut Pr<LE>) -> Result<KCHmF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmf_L<'a>(r: &mut Prc<LE>) -> Result<KCHmF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmf_L<'a>(v: &KCHmF<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmf_L<'a>(v: &KCHmF<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmf_B<'a>(r: &mut Pr<BE>) -> Result<KCHmF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmf_B<'a>(r: &mut Prc<BE>) -> Result<KCHmF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmf_B<'a>(v: &KCHmF<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmf<'a>(v: &KCHmF<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmf<'a>() -> usize { <KCHmF<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmfo_L<'a>(r: &mut Pr<LE>) -> Result<KCHmFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmfo_L<'a>(r: &mut Prc<LE>) -> Result<KCHmFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmfo_L<'a>(v: &KCHmFO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmfo_L<'a>(v: &KCHmFO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmfo_B<'a>(r: &mut Pr<BE>) -> Result<KCHmFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmfo_B<'a>(r: &mut Prc<BE>) -> Result<KCHmFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmfo_B<'a>(v: &KCHmFO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmfo<'a>(v: &KCHmFO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmfo<'a>() -> usize { <KCHmFO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchmfl_L<'a>(r: &mut Pr<LE>) -> Result<KCHmFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchmfl_L<'a>(r: &mut Prc<LE>) -> Result<KCHmFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchmfl_L<'a>(v: &KCHmFL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchmfl_L<'a>(v: &KCHmFL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchmfl_B<'a>(r: &mut Pr<BE>) -> Result<KCHmFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchmfl_B<'a>(r: &mut Prc<BE>) -> Result<KCHmFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchmfl_B<'a>(v: &KCHmFL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchmfl<'a>(v: &KCHmFL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchmfl<'a>() -> usize { <KCHmFL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchms_L<'a>(r: &mut Pr<LE>) -> Result<KCHmS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchms_L<'a>(r: &mut Prc<LE>) -> Result<KCHmS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchms_L<'a>(v: &KCHmS<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchms_L<'a>(v: &KCHmS<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchms_B<'a>(r: &mut Pr<BE>) -> Result<KCHmS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchms_B<'a>(r: &mut Prc<BE>) -> Result<KCHmS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchms_B<'a>(v: &KCHmS<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchms<'a>(v: &KCHmS<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchms<'a>() -> usize { <KCHmS<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmd_L<'a>(r: &mut Pr<LE>) -> Result<KCBmD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmd_L<'a>(r: &mut Prc<LE>) -> Result<KCBmD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmd_L<'a>(v: &KCBmD<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmd_L<'a>(v: &KCBmD<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmd_B<'a>(r: &mut Pr<BE>) -> Result<KCBmD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmd_B<'a>(r: &mut Prc<BE>) -> Result<KCBmD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmd_B<'a>(v: &KCBmD<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmd<'a>(v: &KCBmD<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmd<'a>() -> usize { <KCBmD<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmtu7_L<'a>(r: &mut Pr<LE>) -> Result<KCBmTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmtu7_L<'a>(r: &mut Prc<LE>) -> Result<KCBmTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmtu7_L<'a>(v: &KCBmTu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmtu7_L<'a>(v: &KCBmTu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmtu7_B<'a>(r: &mut Pr<BE>) -> Result<KCBmTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmtu7_B<'a>(r: &mut Prc<BE>) -> Result<KCBmTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmtu7_B<'a>(v: &KCBmTu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmtu7<'a>(v: &KCBmTu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmtu7<'a>() -> usize { <KCBmTu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmtu8_L<'a>(r: &mut Pr<LE>) -> Result<KCBmTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmtu8_L<'a>(r: &mut Prc<LE>) -> Result<KCBmTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmtu8_L<'a>(v: &KCBmTu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmtu8_L<'a>(v: &KCBmTu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmtu8_B<'a>(r: &mut Pr<BE>) -> Result<KCBmTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmtu8_B<'a>(r: &mut Prc<BE>) -> Result<KCBmTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmtu8_B<'a>(v: &KCBmTu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmtu8<'a>(v: &KCBmTu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmtu8<'a>() -> usize { <KCBmTu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmtu16_L<'a>(r: &mut Pr<LE>) -> Result<KCBmTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmtu16_L<'a>(r: &mut Prc<LE>) -> Result<KCBmTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmtu16_L<'a>(v: &KCBmTu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmtu16_L<'a>(v: &KCBmTu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmtu16_B<'a>(r: &mut Pr<BE>) -> Result<KCBmTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmtu16_B<'a>(r: &mut Prc<BE>) -> Result<KCBmTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmtu16_B<'a>(v: &KCBmTu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmtu16<'a>(v: &KCBmTu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmtu16<'a>() -> usize { <KCBmTu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmtu32_L<'a>(r: &mut Pr<LE>) -> Result<KCBmTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmtu32_L<'a>(r: &mut Prc<LE>) -> Result<KCBmTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmtu32_L<'a>(v: &KCBmTu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmtu32_L<'a>(v: &KCBmTu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmtu32_B<'a>(r: &mut Pr<BE>) -> Result<KCBmTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmtu32_B<'a>(r: &mut Prc<BE>) -> Result<KCBmTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmtu32_B<'a>(v: &KCBmTu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmtu32<'a>(v: &KCBmTu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmtu32<'a>() -> usize { <KCBmTu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmtu64_L<'a>(r: &mut Pr<LE>) -> Result<KCBmTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmtu64_L<'a>(r: &mut Prc<LE>) -> Result<KCBmTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmtu64_L<'a>(v: &KCBmTu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmtu64_L<'a>(v: &KCBmTu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmtu64_B<'a>(r: &mut Pr<BE>) -> Result<KCBmTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmtu64_B<'a>(r: &mut Prc<BE>) -> Result<KCBmTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmtu64_B<'a>(v: &KCBmTu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmtu64<'a>(v: &KCBmTu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmtu64<'a>() -> usize { <KCBmTu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmtu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCBmTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmtu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCBmTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmtu64varint_L<'a>(v: &KCBmTu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmtu64varint_L<'a>(v: &KCBmTu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmtu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCBmTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmtu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCBmTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmtu64varint_B<'a>(v: &KCBmTu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmtu64varint<'a>(v: &KCBmTu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmtu64varint<'a>() -> usize { <KCBmTu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmln_L<'a>(r: &mut Pr<LE>) -> Result<KCBmLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmln_L<'a>(r: &mut Prc<LE>) -> Result<KCBmLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmln_L<'a>(v: &KCBmLn<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmln_L<'a>(v: &KCBmLn<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmln_B<'a>(r: &mut Pr<BE>) -> Result<KCBmLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmln_B<'a>(r: &mut Prc<BE>) -> Result<KCBmLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmln_B<'a>(v: &KCBmLn<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmln<'a>(v: &KCBmLn<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmln<'a>() -> usize { <KCBmLn<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCBmLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCBmLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmldiv_L<'a>(v: &KCBmLdiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmldiv_L<'a>(v: &KCBmLdiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCBmLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCBmLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmldiv_B<'a>(v: &KCBmLdiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmldiv<'a>(v: &KCBmLdiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmldiv<'a>() -> usize { <KCBmLdiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmlk_L<'a>(r: &mut Pr<LE>) -> Result<KCBmLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmlk_L<'a>(r: &mut Prc<LE>) -> Result<KCBmLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmlk_L<'a>(v: &KCBmLk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmlk_L<'a>(v: &KCBmLk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmlk_B<'a>(r: &mut Pr<BE>) -> Result<KCBmLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmlk_B<'a>(r: &mut Prc<BE>) -> Result<KCBmLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmlk_B<'a>(v: &KCBmLk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmlk<'a>(v: &KCBmLk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmlk<'a>() -> usize { <KCBmLk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmlw_L<'a>(r: &mut Pr<LE>) -> Result<KCBmLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmlw_L<'a>(r: &mut Prc<LE>) -> Result<KCBmLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmlw_L<'a>(v: &KCBmLw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmlw_L<'a>(v: &KCBmLw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmlw_B<'a>(r: &mut Pr<BE>) -> Result<KCBmLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmlw_B<'a>(r: &mut Prc<BE>) -> Result<KCBmLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmlw_B<'a>(v: &KCBmLw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmlw<'a>(v: &KCBmLw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmlw<'a>() -> usize { <KCBmLw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmll_L<'a>(r: &mut Pr<LE>) -> Result<KCBmLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmll_L<'a>(r: &mut Prc<LE>) -> Result<KCBmLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmll_L<'a>(v: &KCBmLl<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmll_L<'a>(v: &KCBmLl<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmll_B<'a>(r: &mut Pr<BE>) -> Result<KCBmLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmll_B<'a>(r: &mut Prc<BE>) -> Result<KCBmLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmll_B<'a>(v: &KCBmLl<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmll<'a>(v: &KCBmLl<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmll<'a>() -> usize { <KCBmLl<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmlz_L<'a>(r: &mut Pr<LE>) -> Result<KCBmLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmlz_L<'a>(r: &mut Prc<LE>) -> Result<KCBmLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmlz_L<'a>(v: &KCBmLz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmlz_L<'a>(v: &KCBmLz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmlz_B<'a>(r: &mut Pr<BE>) -> Result<KCBmLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmlz_B<'a>(r: &mut Prc<BE>) -> Result<KCBmLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmlz_B<'a>(v: &KCBmLz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmlz<'a>(v: &KCBmLz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmlz<'a>() -> usize { <KCBmLz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbme_L<'a>(r: &mut Pr<LE>) -> Result<KCBmE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbme_L<'a>(r: &mut Prc<LE>) -> Result<KCBmE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbme_L<'a>(v: &KCBmE<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbme_L<'a>(v: &KCBmE<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbme_B<'a>(r: &mut Pr<BE>) -> Result<KCBmE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbme_B<'a>(r: &mut Prc<BE>) -> Result<KCBmE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbme_B<'a>(v: &KCBmE<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbme<'a>(v: &KCBmE<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbme<'a>() -> usize { <KCBmE<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmo_L<'a>(r: &mut Pr<LE>) -> Result<KCBmO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmo_L<'a>(r: &mut Prc<LE>) -> Result<KCBmO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmo_L<'a>(v: &KCBmO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmo_L<'a>(v: &KCBmO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmo_B<'a>(r: &mut Pr<BE>) -> Result<KCBmO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmo_B<'a>(r: &mut Prc<BE>) -> Result<KCBmO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmo_B<'a>(v: &KCBmO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmo<'a>(v: &KCBmO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmo<'a>() -> usize { <KCBmO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmot_L<'a>(r: &mut Pr<LE>) -> Result<KCBmOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmot_L<'a>(r: &mut Prc<LE>) -> Result<KCBmOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmot_L<'a>(v: &KCBmOT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmot_L<'a>(v: &KCBmOT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmot_B<'a>(r: &mut Pr<BE>) -> Result<KCBmOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmot_B<'a>(r: &mut Prc<BE>) -> Result<KCBmOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmot_B<'a>(v: &KCBmOT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmot<'a>(v: &KCBmOT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmot<'a>() -> usize { <KCBmOT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmov_L<'a>(r: &mut Pr<LE>) -> Result<KCBmOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmov_L<'a>(r: &mut Prc<LE>) -> Result<KCBmOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmov_L<'a>(v: &KCBmOV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmov_L<'a>(v: &KCBmOV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmov_B<'a>(r: &mut Pr<BE>) -> Result<KCBmOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmov_B<'a>(r: &mut Prc<BE>) -> Result<KCBmOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmov_B<'a>(v: &KCBmOV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmov<'a>(v: &KCBmOV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmov<'a>() -> usize { <KCBmOV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmp_L<'a>(r: &mut Pr<LE>) -> Result<KCBmP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmp_L<'a>(r: &mut Prc<LE>) -> Result<KCBmP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmp_L<'a>(v: &KCBmP<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmp_L<'a>(v: &KCBmP<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmp_B<'a>(r: &mut Pr<BE>) -> Result<KCBmP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmp_B<'a>(r: &mut Prc<BE>) -> Result<KCBmP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmp_B<'a>(v: &KCBmP<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmp<'a>(v: &KCBmP<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmp<'a>() -> usize { <KCBmP<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmf_L<'a>(r: &mut Pr<LE>) -> Result<KCBmF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmf_L<'a>(r: &mut Prc<LE>) -> Result<KCBmF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmf_L<'a>(v: &KCBmF<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmf_L<'a>(v: &KCBmF<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmf_B<'a>(r: &mut Pr<BE>) -> Result<KCBmF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmf_B<'a>(r: &mut Prc<BE>) -> Result<KCBmF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmf_B<'a>(v: &KCBmF<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmf<'a>(v: &KCBmF<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmf<'a>() -> usize { <KCBmF<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmfo_L<'a>(r: &mut Pr<LE>) -> Result<KCBmFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmfo_L<'a>(r: &mut Prc<LE>) -> Result<KCBmFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmfo_L<'a>(v: &KCBmFO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmfo_L<'a>(v: &KCBmFO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmfo_B<'a>(r: &mut Pr<BE>) -> Result<KCBmFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmfo_B<'a>(r: &mut Prc<BE>) -> Result<KCBmFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmfo_B<'a>(v: &KCBmFO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmfo<'a>(v: &KCBmFO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmfo<'a>() -> usize { <KCBmFO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbmfl_L<'a>(r: &mut Pr<LE>) -> Result<KCBmFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbmfl_L<'a>(r: &mut Prc<LE>) -> Result<KCBmFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbmfl_L<'a>(v: &KCBmFL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbmfl_L<'a>(v: &KCBmFL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbmfl_B<'a>(r: &mut Pr<BE>) -> Result<KCBmFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbmfl_B<'a>(r: &mut Prc<BE>) -> Result<KCBmFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbmfl_B<'a>(v: &KCBmFL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbmfl<'a>(v: &KCBmFL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbmfl<'a>() -> usize { <KCBmFL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbms_L<'a>(r: &mut Pr<LE>) -> Result<KCBmS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbms_L<'a>(r: &mut Prc<LE>) -> Result<KCBmS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbms_L<'a>(v: &KCBmS<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbms_L<'a>(v: &KCBmS<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbms_B<'a>(r: &mut Pr<BE>) -> Result<KCBmS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbms_B<'a>(r: &mut Prc<BE>) -> Result<KCBmS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbms_B<'a>(v: &KCBmS<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbms<'a>(v: &KCBmS<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbms<'a>() -> usize { <KCBmS<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsd_L<'a>(r: &mut Pr<LE>) -> Result<KCHsD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsd_L<'a>(r: &mut Prc<LE>) -> Result<KCHsD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsd_L<'a>(v: &KCHsD<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsd_L<'a>(v: &KCHsD<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsd_B<'a>(r: &mut Pr<BE>) -> Result<KCHsD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsd_B<'a>(r: &mut Prc<BE>) -> Result<KCHsD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsd_B<'a>(v: &KCHsD<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsd<'a>(v: &KCHsD<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsd<'a>() -> usize { <KCHsD<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchstu7_L<'a>(r: &mut Pr<LE>) -> Result<KCHsTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchstu7_L<'a>(r: &mut Prc<LE>) -> Result<KCHsTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchstu7_L<'a>(v: &KCHsTu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchstu7_L<'a>(v: &KCHsTu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchstu7_B<'a>(r: &mut Pr<BE>) -> Result<KCHsTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchstu7_B<'a>(r: &mut Prc<BE>) -> Result<KCHsTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchstu7_B<'a>(v: &KCHsTu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchstu7<'a>(v: &KCHsTu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchstu7<'a>() -> usize { <KCHsTu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchstu8_L<'a>(r: &mut Pr<LE>) -> Result<KCHsTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchstu8_L<'a>(r: &mut Prc<LE>) -> Result<KCHsTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchstu8_L<'a>(v: &KCHsTu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchstu8_L<'a>(v: &KCHsTu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchstu8_B<'a>(r: &mut Pr<BE>) -> Result<KCHsTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchstu8_B<'a>(r: &mut Prc<BE>) -> Result<KCHsTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchstu8_B<'a>(v: &KCHsTu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchstu8<'a>(v: &KCHsTu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchstu8<'a>() -> usize { <KCHsTu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchstu16_L<'a>(r: &mut Pr<LE>) -> Result<KCHsTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchstu16_L<'a>(r: &mut Prc<LE>) -> Result<KCHsTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchstu16_L<'a>(v: &KCHsTu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchstu16_L<'a>(v: &KCHsTu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchstu16_B<'a>(r: &mut Pr<BE>) -> Result<KCHsTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchstu16_B<'a>(r: &mut Prc<BE>) -> Result<KCHsTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchstu16_B<'a>(v: &KCHsTu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchstu16<'a>(v: &KCHsTu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchstu16<'a>() -> usize { <KCHsTu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchstu32_L<'a>(r: &mut Pr<LE>) -> Result<KCHsTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchstu32_L<'a>(r: &mut Prc<LE>) -> Result<KCHsTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchstu32_L<'a>(v: &KCHsTu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchstu32_L<'a>(v: &KCHsTu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchstu32_B<'a>(r: &mut Pr<BE>) -> Result<KCHsTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchstu32_B<'a>(r: &mut Prc<BE>) -> Result<KCHsTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchstu32_B<'a>(v: &KCHsTu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchstu32<'a>(v: &KCHsTu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchstu32<'a>() -> usize { <KCHsTu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchstu64_L<'a>(r: &mut Pr<LE>) -> Result<KCHsTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchstu64_L<'a>(r: &mut Prc<LE>) -> Result<KCHsTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchstu64_L<'a>(v: &KCHsTu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchstu64_L<'a>(v: &KCHsTu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchstu64_B<'a>(r: &mut Pr<BE>) -> Result<KCHsTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchstu64_B<'a>(r: &mut Prc<BE>) -> Result<KCHsTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchstu64_B<'a>(v: &KCHsTu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchstu64<'a>(v: &KCHsTu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchstu64<'a>() -> usize { <KCHsTu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchstu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCHsTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchstu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCHsTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchstu64varint_L<'a>(v: &KCHsTu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchstu64varint_L<'a>(v: &KCHsTu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchstu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCHsTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchstu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCHsTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchstu64varint_B<'a>(v: &KCHsTu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchstu64varint<'a>(v: &KCHsTu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchstu64varint<'a>() -> usize { <KCHsTu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsln_L<'a>(r: &mut Pr<LE>) -> Result<KCHsLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsln_L<'a>(r: &mut Prc<LE>) -> Result<KCHsLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsln_L<'a>(v: &KCHsLn<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsln_L<'a>(v: &KCHsLn<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsln_B<'a>(r: &mut Pr<BE>) -> Result<KCHsLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsln_B<'a>(r: &mut Prc<BE>) -> Result<KCHsLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsln_B<'a>(v: &KCHsLn<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsln<'a>(v: &KCHsLn<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsln<'a>() -> usize { <KCHsLn<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCHsLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCHsLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsldiv_L<'a>(v: &KCHsLdiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsldiv_L<'a>(v: &KCHsLdiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCHsLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCHsLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsldiv_B<'a>(v: &KCHsLdiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsldiv<'a>(v: &KCHsLdiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsldiv<'a>() -> usize { <KCHsLdiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchslk_L<'a>(r: &mut Pr<LE>) -> Result<KCHsLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchslk_L<'a>(r: &mut Prc<LE>) -> Result<KCHsLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchslk_L<'a>(v: &KCHsLk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchslk_L<'a>(v: &KCHsLk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchslk_B<'a>(r: &mut Pr<BE>) -> Result<KCHsLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchslk_B<'a>(r: &mut Prc<BE>) -> Result<KCHsLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchslk_B<'a>(v: &KCHsLk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchslk<'a>(v: &KCHsLk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchslk<'a>() -> usize { <KCHsLk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchslw_L<'a>(r: &mut Pr<LE>) -> Result<KCHsLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchslw_L<'a>(r: &mut Prc<LE>) -> Result<KCHsLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchslw_L<'a>(v: &KCHsLw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchslw_L<'a>(v: &KCHsLw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchslw_B<'a>(r: &mut Pr<BE>) -> Result<KCHsLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchslw_B<'a>(r: &mut Prc<BE>) -> Result<KCHsLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchslw_B<'a>(v: &KCHsLw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchslw<'a>(v: &KCHsLw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchslw<'a>() -> usize { <KCHsLw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsll_L<'a>(r: &mut Pr<LE>) -> Result<KCHsLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsll_L<'a>(r: &mut Prc<LE>) -> Result<KCHsLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsll_L<'a>(v: &KCHsLl<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsll_L<'a>(v: &KCHsLl<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsll_B<'a>(r: &mut Pr<BE>) -> Result<KCHsLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsll_B<'a>(r: &mut Prc<BE>) -> Result<KCHsLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsll_B<'a>(v: &KCHsLl<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsll<'a>(v: &KCHsLl<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsll<'a>() -> usize { <KCHsLl<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchslz_L<'a>(r: &mut Pr<LE>) -> Result<KCHsLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchslz_L<'a>(r: &mut Prc<LE>) -> Result<KCHsLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchslz_L<'a>(v: &KCHsLz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchslz_L<'a>(v: &KCHsLz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchslz_B<'a>(r: &mut Pr<BE>) -> Result<KCHsLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchslz_B<'a>(r: &mut Prc<BE>) -> Result<KCHsLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchslz_B<'a>(v: &KCHsLz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchslz<'a>(v: &KCHsLz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchslz<'a>() -> usize { <KCHsLz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchse_L<'a>(r: &mut Pr<LE>) -> Result<KCHsE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchse_L<'a>(r: &mut Prc<LE>) -> Result<KCHsE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchse_L<'a>(v: &KCHsE<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchse_L<'a>(v: &KCHsE<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchse_B<'a>(r: &mut Pr<BE>) -> Result<KCHsE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchse_B<'a>(r: &mut Prc<BE>) -> Result<KCHsE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchse_B<'a>(v: &KCHsE<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchse<'a>(v: &KCHsE<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchse<'a>() -> usize { <KCHsE<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchso_L<'a>(r: &mut Pr<LE>) -> Result<KCHsO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchso_L<'a>(r: &mut Prc<LE>) -> Result<KCHsO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchso_L<'a>(v: &KCHsO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchso_L<'a>(v: &KCHsO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchso_B<'a>(r: &mut Pr<BE>) -> Result<KCHsO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchso_B<'a>(r: &mut Prc<BE>) -> Result<KCHsO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchso_B<'a>(v: &KCHsO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchso<'a>(v: &KCHsO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchso<'a>() -> usize { <KCHsO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsot_L<'a>(r: &mut Pr<LE>) -> Result<KCHsOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsot_L<'a>(r: &mut Prc<LE>) -> Result<KCHsOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsot_L<'a>(v: &KCHsOT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsot_L<'a>(v: &KCHsOT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsot_B<'a>(r: &mut Pr<BE>) -> Result<KCHsOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsot_B<'a>(r: &mut Prc<BE>) -> Result<KCHsOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsot_B<'a>(v: &KCHsOT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsot<'a>(v: &KCHsOT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsot<'a>() -> usize { <KCHsOT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsov_L<'a>(r: &mut Pr<LE>) -> Result<KCHsOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsov_L<'a>(r: &mut Prc<LE>) -> Result<KCHsOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsov_L<'a>(v: &KCHsOV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsov_L<'a>(v: &KCHsOV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsov_B<'a>(r: &mut Pr<BE>) -> Result<KCHsOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsov_B<'a>(r: &mut Prc<BE>) -> Result<KCHsOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsov_B<'a>(v: &KCHsOV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsov<'a>(v: &KCHsOV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsov<'a>() -> usize { <KCHsOV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsp_L<'a>(r: &mut Pr<LE>) -> Result<KCHsP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsp_L<'a>(r: &mut Prc<LE>) -> Result<KCHsP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsp_L<'a>(v: &KCHsP<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsp_L<'a>(v: &KCHsP<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsp_B<'a>(r: &mut Pr<BE>) -> Result<KCHsP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsp_B<'a>(r: &mut Prc<BE>) -> Result<KCHsP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsp_B<'a>(v: &KCHsP<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsp<'a>(v: &KCHsP<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsp<'a>() -> usize { <KCHsP<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsf_L<'a>(r: &mut Pr<LE>) -> Result<KCHsF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsf_L<'a>(r: &mut Prc<LE>) -> Result<KCHsF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsf_L<'a>(v: &KCHsF<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsf_L<'a>(v: &KCHsF<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsf_B<'a>(r: &mut Pr<BE>) -> Result<KCHsF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsf_B<'a>(r: &mut Prc<BE>) -> Result<KCHsF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsf_B<'a>(v: &KCHsF<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsf<'a>(v: &KCHsF<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsf<'a>() -> usize { <KCHsF<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsfo_L<'a>(r: &mut Pr<LE>) -> Result<KCHsFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsfo_L<'a>(r: &mut Prc<LE>) -> Result<KCHsFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsfo_L<'a>(v: &KCHsFO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsfo_L<'a>(v: &KCHsFO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsfo_B<'a>(r: &mut Pr<BE>) -> Result<KCHsFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsfo_B<'a>(r: &mut Prc<BE>) -> Result<KCHsFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsfo_B<'a>(v: &KCHsFO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsfo<'a>(v: &KCHsFO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsfo<'a>() -> usize { <KCHsFO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchsfl_L<'a>(r: &mut Pr<LE>) -> Result<KCHsFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchsfl_L<'a>(r: &mut Prc<LE>) -> Result<KCHsFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchsfl_L<'a>(v: &KCHsFL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchsfl_L<'a>(v: &KCHsFL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchsfl_B<'a>(r: &mut Pr<BE>) -> Result<KCHsFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchsfl_B<'a>(r: &mut Prc<BE>) -> Result<KCHsFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchsfl_B<'a>(v: &KCHsFL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchsfl<'a>(v: &KCHsFL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchsfl<'a>() -> usize { <KCHsFL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kchss_L<'a>(r: &mut Pr<LE>) -> Result<KCHsS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kchss_L<'a>(r: &mut Prc<LE>) -> Result<KCHsS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kchss_L<'a>(v: &KCHsS<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kchss_L<'a>(v: &KCHsS<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kchss_B<'a>(r: &mut Pr<BE>) -> Result<KCHsS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kchss_B<'a>(r: &mut Prc<BE>) -> Result<KCHsS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kchss_B<'a>(v: &KCHsS<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kchss<'a>(v: &KCHsS<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kchss<'a>() -> usize { <KCHsS<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsd_L<'a>(r: &mut Pr<LE>) -> Result<KCBsD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsd_L<'a>(r: &mut Prc<LE>) -> Result<KCBsD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsd_L<'a>(v: &KCBsD<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsd_L<'a>(v: &KCBsD<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsd_B<'a>(r: &mut Pr<BE>) -> Result<KCBsD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsd_B<'a>(r: &mut Prc<BE>) -> Result<KCBsD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsd_B<'a>(v: &KCBsD<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsd<'a>(v: &KCBsD<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsd<'a>() -> usize { <KCBsD<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbstu7_L<'a>(r: &mut Pr<LE>) -> Result<KCBsTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbstu7_L<'a>(r: &mut Prc<LE>) -> Result<KCBsTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbstu7_L<'a>(v: &KCBsTu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbstu7_L<'a>(v: &KCBsTu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbstu7_B<'a>(r: &mut Pr<BE>) -> Result<KCBsTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbstu7_B<'a>(r: &mut Prc<BE>) -> Result<KCBsTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbstu7_B<'a>(v: &KCBsTu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbstu7<'a>(v: &KCBsTu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbstu7<'a>() -> usize { <KCBsTu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbstu8_L<'a>(r: &mut Pr<LE>) -> Result<KCBsTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbstu8_L<'a>(r: &mut Prc<LE>) -> Result<KCBsTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbstu8_L<'a>(v: &KCBsTu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbstu8_L<'a>(v: &KCBsTu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbstu8_B<'a>(r: &mut Pr<BE>) -> Result<KCBsTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbstu8_B<'a>(r: &mut Prc<BE>) -> Result<KCBsTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbstu8_B<'a>(v: &KCBsTu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbstu8<'a>(v: &KCBsTu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbstu8<'a>() -> usize { <KCBsTu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbstu16_L<'a>(r: &mut Pr<LE>) -> Result<KCBsTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbstu16_L<'a>(r: &mut Prc<LE>) -> Result<KCBsTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbstu16_L<'a>(v: &KCBsTu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbstu16_L<'a>(v: &KCBsTu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbstu16_B<'a>(r: &mut Pr<BE>) -> Result<KCBsTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbstu16_B<'a>(r: &mut Prc<BE>) -> Result<KCBsTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbstu16_B<'a>(v: &KCBsTu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbstu16<'a>(v: &KCBsTu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbstu16<'a>() -> usize { <KCBsTu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbstu32_L<'a>(r: &mut Pr<LE>) -> Result<KCBsTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbstu32_L<'a>(r: &mut Prc<LE>) -> Result<KCBsTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbstu32_L<'a>(v: &KCBsTu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbstu32_L<'a>(v: &KCBsTu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbstu32_B<'a>(r: &mut Pr<BE>) -> Result<KCBsTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbstu32_B<'a>(r: &mut Prc<BE>) -> Result<KCBsTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbstu32_B<'a>(v: &KCBsTu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbstu32<'a>(v: &KCBsTu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbstu32<'a>() -> usize { <KCBsTu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbstu64_L<'a>(r: &mut Pr<LE>) -> Result<KCBsTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbstu64_L<'a>(r: &mut Prc<LE>) -> Result<KCBsTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbstu64_L<'a>(v: &KCBsTu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbstu64_L<'a>(v: &KCBsTu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbstu64_B<'a>(r: &mut Pr<BE>) -> Result<KCBsTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbstu64_B<'a>(r: &mut Prc<BE>) -> Result<KCBsTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbstu64_B<'a>(v: &KCBsTu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbstu64<'a>(v: &KCBsTu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbstu64<'a>() -> usize { <KCBsTu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbstu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KCBsTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbstu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KCBsTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbstu64varint_L<'a>(v: &KCBsTu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbstu64varint_L<'a>(v: &KCBsTu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbstu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KCBsTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbstu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KCBsTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbstu64varint_B<'a>(v: &KCBsTu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbstu64varint<'a>(v: &KCBsTu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbstu64varint<'a>() -> usize { <KCBsTu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsln_L<'a>(r: &mut Pr<LE>) -> Result<KCBsLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsln_L<'a>(r: &mut Prc<LE>) -> Result<KCBsLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsln_L<'a>(v: &KCBsLn<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsln_L<'a>(v: &KCBsLn<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsln_B<'a>(r: &mut Pr<BE>) -> Result<KCBsLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsln_B<'a>(r: &mut Prc<BE>) -> Result<KCBsLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsln_B<'a>(v: &KCBsLn<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsln<'a>(v: &KCBsLn<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsln<'a>() -> usize { <KCBsLn<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsldiv_L<'a>(r: &mut Pr<LE>) -> Result<KCBsLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsldiv_L<'a>(r: &mut Prc<LE>) -> Result<KCBsLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsldiv_L<'a>(v: &KCBsLdiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsldiv_L<'a>(v: &KCBsLdiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsldiv_B<'a>(r: &mut Pr<BE>) -> Result<KCBsLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsldiv_B<'a>(r: &mut Prc<BE>) -> Result<KCBsLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsldiv_B<'a>(v: &KCBsLdiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsldiv<'a>(v: &KCBsLdiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsldiv<'a>() -> usize { <KCBsLdiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbslk_L<'a>(r: &mut Pr<LE>) -> Result<KCBsLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbslk_L<'a>(r: &mut Prc<LE>) -> Result<KCBsLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbslk_L<'a>(v: &KCBsLk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbslk_L<'a>(v: &KCBsLk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbslk_B<'a>(r: &mut Pr<BE>) -> Result<KCBsLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbslk_B<'a>(r: &mut Prc<BE>) -> Result<KCBsLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbslk_B<'a>(v: &KCBsLk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbslk<'a>(v: &KCBsLk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbslk<'a>() -> usize { <KCBsLk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbslw_L<'a>(r: &mut Pr<LE>) -> Result<KCBsLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbslw_L<'a>(r: &mut Prc<LE>) -> Result<KCBsLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbslw_L<'a>(v: &KCBsLw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbslw_L<'a>(v: &KCBsLw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbslw_B<'a>(r: &mut Pr<BE>) -> Result<KCBsLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbslw_B<'a>(r: &mut Prc<BE>) -> Result<KCBsLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbslw_B<'a>(v: &KCBsLw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbslw<'a>(v: &KCBsLw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbslw<'a>() -> usize { <KCBsLw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsll_L<'a>(r: &mut Pr<LE>) -> Result<KCBsLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsll_L<'a>(r: &mut Prc<LE>) -> Result<KCBsLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsll_L<'a>(v: &KCBsLl<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsll_L<'a>(v: &KCBsLl<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsll_B<'a>(r: &mut Pr<BE>) -> Result<KCBsLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsll_B<'a>(r: &mut Prc<BE>) -> Result<KCBsLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsll_B<'a>(v: &KCBsLl<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsll<'a>(v: &KCBsLl<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsll<'a>() -> usize { <KCBsLl<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbslz_L<'a>(r: &mut Pr<LE>) -> Result<KCBsLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbslz_L<'a>(r: &mut Prc<LE>) -> Result<KCBsLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbslz_L<'a>(v: &KCBsLz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbslz_L<'a>(v: &KCBsLz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbslz_B<'a>(r: &mut Pr<BE>) -> Result<KCBsLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbslz_B<'a>(r: &mut Prc<BE>) -> Result<KCBsLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbslz_B<'a>(v: &KCBsLz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbslz<'a>(v: &KCBsLz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbslz<'a>() -> usize { <KCBsLz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbse_L<'a>(r: &mut Pr<LE>) -> Result<KCBsE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbse_L<'a>(r: &mut Prc<LE>) -> Result<KCBsE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbse_L<'a>(v: &KCBsE<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbse_L<'a>(v: &KCBsE<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbse_B<'a>(r: &mut Pr<BE>) -> Result<KCBsE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbse_B<'a>(r: &mut Prc<BE>) -> Result<KCBsE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbse_B<'a>(v: &KCBsE<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbse<'a>(v: &KCBsE<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbse<'a>() -> usize { <KCBsE<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbso_L<'a>(r: &mut Pr<LE>) -> Result<KCBsO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbso_L<'a>(r: &mut Prc<LE>) -> Result<KCBsO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbso_L<'a>(v: &KCBsO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbso_L<'a>(v: &KCBsO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbso_B<'a>(r: &mut Pr<BE>) -> Result<KCBsO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbso_B<'a>(r: &mut Prc<BE>) -> Result<KCBsO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbso_B<'a>(v: &KCBsO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbso<'a>(v: &KCBsO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbso<'a>() -> usize { <KCBsO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsot_L<'a>(r: &mut Pr<LE>) -> Result<KCBsOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsot_L<'a>(r: &mut Prc<LE>) -> Result<KCBsOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsot_L<'a>(v: &KCBsOT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsot_L<'a>(v: &KCBsOT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsot_B<'a>(r: &mut Pr<BE>) -> Result<KCBsOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsot_B<'a>(r: &mut Prc<BE>) -> Result<KCBsOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsot_B<'a>(v: &KCBsOT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsot<'a>(v: &KCBsOT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsot<'a>() -> usize { <KCBsOT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsov_L<'a>(r: &mut Pr<LE>) -> Result<KCBsOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsov_L<'a>(r: &mut Prc<LE>) -> Result<KCBsOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsov_L<'a>(v: &KCBsOV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsov_L<'a>(v: &KCBsOV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsov_B<'a>(r: &mut Pr<BE>) -> Result<KCBsOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsov_B<'a>(r: &mut Prc<BE>) -> Result<KCBsOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsov_B<'a>(v: &KCBsOV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsov<'a>(v: &KCBsOV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsov<'a>() -> usize { <KCBsOV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsp_L<'a>(r: &mut Pr<LE>) -> Result<KCBsP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsp_L<'a>(r: &mut Prc<LE>) -> Result<KCBsP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsp_L<'a>(v: &KCBsP<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsp_L<'a>(v: &KCBsP<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsp_B<'a>(r: &mut Pr<BE>) -> Result<KCBsP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsp_B<'a>(r: &mut Prc<BE>) -> Result<KCBsP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsp_B<'a>(v: &KCBsP<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsp<'a>(v: &KCBsP<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsp<'a>() -> usize { <KCBsP<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsf_L<'a>(r: &mut Pr<LE>) -> Result<KCBsF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsf_L<'a>(r: &mut Prc<LE>) -> Result<KCBsF<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsf_L<'a>(v: &KCBsF<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsf_L<'a>(v: &KCBsF<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsf_B<'a>(r: &mut Pr<BE>) -> Result<KCBsF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsf_B<'a>(r: &mut Prc<BE>) -> Result<KCBsF<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsf_B<'a>(v: &KCBsF<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsf<'a>(v: &KCBsF<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsf<'a>() -> usize { <KCBsF<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsfo_L<'a>(r: &mut Pr<LE>) -> Result<KCBsFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsfo_L<'a>(r: &mut Prc<LE>) -> Result<KCBsFO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsfo_L<'a>(v: &KCBsFO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsfo_L<'a>(v: &KCBsFO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsfo_B<'a>(r: &mut Pr<BE>) -> Result<KCBsFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsfo_B<'a>(r: &mut Prc<BE>) -> Result<KCBsFO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsfo_B<'a>(v: &KCBsFO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsfo<'a>(v: &KCBsFO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsfo<'a>() -> usize { <KCBsFO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbsfl_L<'a>(r: &mut Pr<LE>) -> Result<KCBsFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbsfl_L<'a>(r: &mut Prc<LE>) -> Result<KCBsFL<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbsfl_L<'a>(v: &KCBsFL<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbsfl_L<'a>(v: &KCBsFL<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbsfl_B<'a>(r: &mut Pr<BE>) -> Result<KCBsFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbsfl_B<'a>(r: &mut Prc<BE>) -> Result<KCBsFL<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbsfl_B<'a>(v: &KCBsFL<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbsfl<'a>(v: &KCBsFL<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbsfl<'a>() -> usize { <KCBsFL<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kcbss_L<'a>(r: &mut Pr<LE>) -> Result<KCBsS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kcbss_L<'a>(r: &mut Prc<LE>) -> Result<KCBsS<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kcbss_L<'a>(v: &KCBsS<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kcbss_L<'a>(v: &KCBsS<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kcbss_B<'a>(r: &mut Pr<BE>) -> Result<KCBsS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kcbss_B<'a>(r: &mut Prc<BE>) -> Result<KCBsS<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kcbss_B<'a>(v: &KCBsS<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kcbss<'a>(v: &KCBsS<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kcbss<'a>() -> usize { <KCBsS<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrd_L<'a>(r: &mut Pr<LE>) -> Result<KRStrD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrd_L<'a>(r: &mut Prc<LE>) -> Result<KRStrD<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrd_L<'a>(v: &KRStrD<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrd_L<'a>(v: &KRStrD<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrd_B<'a>(r: &mut Pr<BE>) -> Result<KRStrD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrd_B<'a>(r: &mut Prc<BE>) -> Result<KRStrD<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrd_B<'a>(v: &KRStrD<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrd<'a>(v: &KRStrD<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrd<'a>() -> usize { <KRStrD<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrtu7_L<'a>(r: &mut Pr<LE>) -> Result<KRStrTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrtu7_L<'a>(r: &mut Prc<LE>) -> Result<KRStrTu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrtu7_L<'a>(v: &KRStrTu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrtu7_L<'a>(v: &KRStrTu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrtu7_B<'a>(r: &mut Pr<BE>) -> Result<KRStrTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrtu7_B<'a>(r: &mut Prc<BE>) -> Result<KRStrTu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrtu7_B<'a>(v: &KRStrTu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrtu7<'a>(v: &KRStrTu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrtu7<'a>() -> usize { <KRStrTu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrtu8_L<'a>(r: &mut Pr<LE>) -> Result<KRStrTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrtu8_L<'a>(r: &mut Prc<LE>) -> Result<KRStrTu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrtu8_L<'a>(v: &KRStrTu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrtu8_L<'a>(v: &KRStrTu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrtu8_B<'a>(r: &mut Pr<BE>) -> Result<KRStrTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrtu8_B<'a>(r: &mut Prc<BE>) -> Result<KRStrTu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrtu8_B<'a>(v: &KRStrTu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrtu8<'a>(v: &KRStrTu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrtu8<'a>() -> usize { <KRStrTu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrtu16_L<'a>(r: &mut Pr<LE>) -> Result<KRStrTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrtu16_L<'a>(r: &mut Prc<LE>) -> Result<KRStrTu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrtu16_L<'a>(v: &KRStrTu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrtu16_L<'a>(v: &KRStrTu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrtu16_B<'a>(r: &mut Pr<BE>) -> Result<KRStrTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrtu16_B<'a>(r: &mut Prc<BE>) -> Result<KRStrTu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrtu16_B<'a>(v: &KRStrTu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrtu16<'a>(v: &KRStrTu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrtu16<'a>() -> usize { <KRStrTu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrtu32_L<'a>(r: &mut Pr<LE>) -> Result<KRStrTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrtu32_L<'a>(r: &mut Prc<LE>) -> Result<KRStrTu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrtu32_L<'a>(v: &KRStrTu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrtu32_L<'a>(v: &KRStrTu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrtu32_B<'a>(r: &mut Pr<BE>) -> Result<KRStrTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrtu32_B<'a>(r: &mut Prc<BE>) -> Result<KRStrTu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrtu32_B<'a>(v: &KRStrTu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrtu32<'a>(v: &KRStrTu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrtu32<'a>() -> usize { <KRStrTu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrtu64_L<'a>(r: &mut Pr<LE>) -> Result<KRStrTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrtu64_L<'a>(r: &mut Prc<LE>) -> Result<KRStrTu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrtu64_L<'a>(v: &KRStrTu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrtu64_L<'a>(v: &KRStrTu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrtu64_B<'a>(r: &mut Pr<BE>) -> Result<KRStrTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrtu64_B<'a>(r: &mut Prc<BE>) -> Result<KRStrTu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrtu64_B<'a>(v: &KRStrTu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrtu64<'a>(v: &KRStrTu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrtu64<'a>() -> usize { <KRStrTu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrtu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KRStrTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrtu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KRStrTu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrtu64varint_L<'a>(v: &KRStrTu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrtu64varint_L<'a>(v: &KRStrTu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrtu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KRStrTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrtu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KRStrTu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrtu64varint_B<'a>(v: &KRStrTu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrtu64varint<'a>(v: &KRStrTu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrtu64varint<'a>() -> usize { <KRStrTu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrln_L<'a>(r: &mut Pr<LE>) -> Result<KRStrLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrln_L<'a>(r: &mut Prc<LE>) -> Result<KRStrLn<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrln_L<'a>(v: &KRStrLn<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrln_L<'a>(v: &KRStrLn<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrln_B<'a>(r: &mut Pr<BE>) -> Result<KRStrLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrln_B<'a>(r: &mut Prc<BE>) -> Result<KRStrLn<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrln_B<'a>(v: &KRStrLn<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrln<'a>(v: &KRStrLn<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrln<'a>() -> usize { <KRStrLn<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrldiv_L<'a>(r: &mut Pr<LE>) -> Result<KRStrLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrldiv_L<'a>(r: &mut Prc<LE>) -> Result<KRStrLdiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrldiv_L<'a>(v: &KRStrLdiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrldiv_L<'a>(v: &KRStrLdiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrldiv_B<'a>(r: &mut Pr<BE>) -> Result<KRStrLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrldiv_B<'a>(r: &mut Prc<BE>) -> Result<KRStrLdiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrldiv_B<'a>(v: &KRStrLdiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrldiv<'a>(v: &KRStrLdiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrldiv<'a>() -> usize { <KRStrLdiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrlk_L<'a>(r: &mut Pr<LE>) -> Result<KRStrLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrlk_L<'a>(r: &mut Prc<LE>) -> Result<KRStrLk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrlk_L<'a>(v: &KRStrLk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrlk_L<'a>(v: &KRStrLk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrlk_B<'a>(r: &mut Pr<BE>) -> Result<KRStrLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrlk_B<'a>(r: &mut Prc<BE>) -> Result<KRStrLk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrlk_B<'a>(v: &KRStrLk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrlk<'a>(v: &KRStrLk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrlk<'a>() -> usize { <KRStrLk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrlw_L<'a>(r: &mut Pr<LE>) -> Result<KRStrLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrlw_L<'a>(r: &mut Prc<LE>) -> Result<KRStrLw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrlw_L<'a>(v: &KRStrLw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrlw_L<'a>(v: &KRStrLw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrlw_B<'a>(r: &mut Pr<BE>) -> Result<KRStrLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrlw_B<'a>(r: &mut Prc<BE>) -> Result<KRStrLw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrlw_B<'a>(v: &KRStrLw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrlw<'a>(v: &KRStrLw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrlw<'a>() -> usize { <KRStrLw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrll_L<'a>(r: &mut Pr<LE>) -> Result<KRStrLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrll_L<'a>(r: &mut Prc<LE>) -> Result<KRStrLl<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrll_L<'a>(v: &KRStrLl<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrll_L<'a>(v: &KRStrLl<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrll_B<'a>(r: &mut Pr<BE>) -> Result<KRStrLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrll_B<'a>(r: &mut Prc<BE>) -> Result<KRStrLl<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrll_B<'a>(v: &KRStrLl<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrll<'a>(v: &KRStrLl<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrll<'a>() -> usize { <KRStrLl<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrlz_L<'a>(r: &mut Pr<LE>) -> Result<KRStrLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrlz_L<'a>(r: &mut Prc<LE>) -> Result<KRStrLz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrlz_L<'a>(v: &KRStrLz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrlz_L<'a>(v: &KRStrLz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrlz_B<'a>(r: &mut Pr<BE>) -> Result<KRStrLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrlz_B<'a>(r: &mut Prc<BE>) -> Result<KRStrLz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrlz_B<'a>(v: &KRStrLz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrlz<'a>(v: &KRStrLz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrlz<'a>() -> usize { <KRStrLz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstre_L<'a>(r: &mut Pr<LE>) -> Result<KRStrE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstre_L<'a>(r: &mut Prc<LE>) -> Result<KRStrE<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstre_L<'a>(v: &KRStrE<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstre_L<'a>(v: &KRStrE<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstre_B<'a>(r: &mut Pr<BE>) -> Result<KRStrE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstre_B<'a>(r: &mut Prc<BE>) -> Result<KRStrE<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstre_B<'a>(v: &KRStrE<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstre<'a>(v: &KRStrE<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstre<'a>() -> usize { <KRStrE<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstro_L<'a>(r: &mut Pr<LE>) -> Result<KRStrO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstro_L<'a>(r: &mut Prc<LE>) -> Result<KRStrO<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstro_L<'a>(v: &KRStrO<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstro_L<'a>(v: &KRStrO<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstro_B<'a>(r: &mut Pr<BE>) -> Result<KRStrO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstro_B<'a>(r: &mut Prc<BE>) -> Result<KRStrO<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstro_B<'a>(v: &KRStrO<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstro<'a>(v: &KRStrO<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstro<'a>() -> usize { <KRStrO<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrot_L<'a>(r: &mut Pr<LE>) -> Result<KRStrOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrot_L<'a>(r: &mut Prc<LE>) -> Result<KRStrOT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrot_L<'a>(v: &KRStrOT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrot_L<'a>(v: &KRStrOT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrot_B<'a>(r: &mut Pr<BE>) -> Result<KRStrOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrot_B<'a>(r: &mut Prc<BE>) -> Result<KRStrOT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrot_B<'a>(v: &KRStrOT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrot<'a>(v: &KRStrOT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrot<'a>() -> usize { <KRStrOT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrov_L<'a>(r: &mut Pr<LE>) -> Result<KRStrOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrov_L<'a>(r: &mut Prc<LE>) -> Result<KRStrOV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrov_L<'a>(v: &KRStrOV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrov_L<'a>(v: &KRStrOV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrov_B<'a>(r: &mut Pr<BE>) -> Result<KRStrOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrov_B<'a>(r: &mut Prc<BE>) -> Result<KRStrOV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrov_B<'a>(v: &KRStrOV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrov<'a>(v: &KRStrOV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrov<'a>() -> usize { <KRStrOV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_krstrp_L<'a>(r: &mut Pr<LE>) -> Result<KRStrP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_krstrp_L<'a>(r: &mut Prc<LE>) -> Result<KRStrP<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_krstrp_L<'a>(v: &KRStrP<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_krstrp_L<'a>(v: &KRStrP<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_krstrp_B<'a>(r: &mut Pr<BE>) -> Result<KRStrP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_krstrp_B<'a>(r: &mut Prc<BE>) -> Result<KRStrP<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_krstrp_B<'a>(v: &KRStrP<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_krstrp<'a>(v: &KRStrP<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_krstrp<'a>() -> usize { <KRStrP<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8d_L<'a>(r: &mut Pr<LE>) -> Result<KR8D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8d_L<'a>(r: &mut Prc<LE>) -> Result<KR8D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8d_L<'a>(v: &KR8D<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8d_L<'a>(v: &KR8D<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8d_B<'a>(r: &mut Pr<BE>) -> Result<KR8D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8d_B<'a>(r: &mut Prc<BE>) -> Result<KR8D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8d_B<'a>(v: &KR8D<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8d<'a>(v: &KR8D<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8d<'a>() -> usize { <KR8D<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8tu7_L<'a>(r: &mut Pr<LE>) -> Result<KR8Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8tu7_L<'a>(r: &mut Prc<LE>) -> Result<KR8Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8tu7_L<'a>(v: &KR8Tu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8tu7_L<'a>(v: &KR8Tu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8tu7_B<'a>(r: &mut Pr<BE>) -> Result<KR8Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8tu7_B<'a>(r: &mut Prc<BE>) -> Result<KR8Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8tu7_B<'a>(v: &KR8Tu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8tu7<'a>(v: &KR8Tu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8tu7<'a>() -> usize { <KR8Tu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8tu8_L<'a>(r: &mut Pr<LE>) -> Result<KR8Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8tu8_L<'a>(r: &mut Prc<LE>) -> Result<KR8Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8tu8_L<'a>(v: &KR8Tu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8tu8_L<'a>(v: &KR8Tu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8tu8_B<'a>(r: &mut Pr<BE>) -> Result<KR8Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8tu8_B<'a>(r: &mut Prc<BE>) -> Result<KR8Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8tu8_B<'a>(v: &KR8Tu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8tu8<'a>(v: &KR8Tu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8tu8<'a>() -> usize { <KR8Tu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8tu16_L<'a>(r: &mut Pr<LE>) -> Result<KR8Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8tu16_L<'a>(r: &mut Prc<LE>) -> Result<KR8Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8tu16_L<'a>(v: &KR8Tu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8tu16_L<'a>(v: &KR8Tu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8tu16_B<'a>(r: &mut Pr<BE>) -> Result<KR8Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8tu16_B<'a>(r: &mut Prc<BE>) -> Result<KR8Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8tu16_B<'a>(v: &KR8Tu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8tu16<'a>(v: &KR8Tu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8tu16<'a>() -> usize { <KR8Tu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8tu32_L<'a>(r: &mut Pr<LE>) -> Result<KR8Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8tu32_L<'a>(r: &mut Prc<LE>) -> Result<KR8Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8tu32_L<'a>(v: &KR8Tu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8tu32_L<'a>(v: &KR8Tu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8tu32_B<'a>(r: &mut Pr<BE>) -> Result<KR8Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8tu32_B<'a>(r: &mut Prc<BE>) -> Result<KR8Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8tu32_B<'a>(v: &KR8Tu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8tu32<'a>(v: &KR8Tu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8tu32<'a>() -> usize { <KR8Tu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8tu64_L<'a>(r: &mut Pr<LE>) -> Result<KR8Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8tu64_L<'a>(r: &mut Prc<LE>) -> Result<KR8Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8tu64_L<'a>(v: &KR8Tu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8tu64_L<'a>(v: &KR8Tu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8tu64_B<'a>(r: &mut Pr<BE>) -> Result<KR8Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8tu64_B<'a>(r: &mut Prc<BE>) -> Result<KR8Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8tu64_B<'a>(v: &KR8Tu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8tu64<'a>(v: &KR8Tu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8tu64<'a>() -> usize { <KR8Tu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8tu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KR8Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8tu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KR8Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8tu64varint_L<'a>(v: &KR8Tu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8tu64varint_L<'a>(v: &KR8Tu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8tu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KR8Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8tu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KR8Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8tu64varint_B<'a>(v: &KR8Tu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8tu64varint<'a>(v: &KR8Tu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8tu64varint<'a>() -> usize { <KR8Tu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8ln_L<'a>(r: &mut Pr<LE>) -> Result<KR8Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8ln_L<'a>(r: &mut Prc<LE>) -> Result<KR8Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8ln_L<'a>(v: &KR8Ln<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8ln_L<'a>(v: &KR8Ln<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8ln_B<'a>(r: &mut Pr<BE>) -> Result<KR8Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8ln_B<'a>(r: &mut Prc<BE>) -> Result<KR8Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8ln_B<'a>(v: &KR8Ln<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8ln<'a>(v: &KR8Ln<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8ln<'a>() -> usize { <KR8Ln<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8ldiv_L<'a>(r: &mut Pr<LE>) -> Result<KR8Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8ldiv_L<'a>(r: &mut Prc<LE>) -> Result<KR8Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8ldiv_L<'a>(v: &KR8Ldiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8ldiv_L<'a>(v: &KR8Ldiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8ldiv_B<'a>(r: &mut Pr<BE>) -> Result<KR8Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8ldiv_B<'a>(r: &mut Prc<BE>) -> Result<KR8Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8ldiv_B<'a>(v: &KR8Ldiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8ldiv<'a>(v: &KR8Ldiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8ldiv<'a>() -> usize { <KR8Ldiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8lk_L<'a>(r: &mut Pr<LE>) -> Result<KR8Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8lk_L<'a>(r: &mut Prc<LE>) -> Result<KR8Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8lk_L<'a>(v: &KR8Lk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8lk_L<'a>(v: &KR8Lk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8lk_B<'a>(r: &mut Pr<BE>) -> Result<KR8Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8lk_B<'a>(r: &mut Prc<BE>) -> Result<KR8Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8lk_B<'a>(v: &KR8Lk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8lk<'a>(v: &KR8Lk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8lk<'a>() -> usize { <KR8Lk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8lw_L<'a>(r: &mut Pr<LE>) -> Result<KR8Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8lw_L<'a>(r: &mut Prc<LE>) -> Result<KR8Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8lw_L<'a>(v: &KR8Lw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8lw_L<'a>(v: &KR8Lw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8lw_B<'a>(r: &mut Pr<BE>) -> Result<KR8Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8lw_B<'a>(r: &mut Prc<BE>) -> Result<KR8Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8lw_B<'a>(v: &KR8Lw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8lw<'a>(v: &KR8Lw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8lw<'a>() -> usize { <KR8Lw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8ll_L<'a>(r: &mut Pr<LE>) -> Result<KR8Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8ll_L<'a>(r: &mut Prc<LE>) -> Result<KR8Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8ll_L<'a>(v: &KR8Ll<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8ll_L<'a>(v: &KR8Ll<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8ll_B<'a>(r: &mut Pr<BE>) -> Result<KR8Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8ll_B<'a>(r: &mut Prc<BE>) -> Result<KR8Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8ll_B<'a>(v: &KR8Ll<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8ll<'a>(v: &KR8Ll<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8ll<'a>() -> usize { <KR8Ll<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8lz_L<'a>(r: &mut Pr<LE>) -> Result<KR8Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8lz_L<'a>(r: &mut Prc<LE>) -> Result<KR8Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8lz_L<'a>(v: &KR8Lz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8lz_L<'a>(v: &KR8Lz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8lz_B<'a>(r: &mut Pr<BE>) -> Result<KR8Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8lz_B<'a>(r: &mut Prc<BE>) -> Result<KR8Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8lz_B<'a>(v: &KR8Lz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8lz<'a>(v: &KR8Lz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8lz<'a>() -> usize { <KR8Lz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8e_L<'a>(r: &mut Pr<LE>) -> Result<KR8E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8e_L<'a>(r: &mut Prc<LE>) -> Result<KR8E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8e_L<'a>(v: &KR8E<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8e_L<'a>(v: &KR8E<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8e_B<'a>(r: &mut Pr<BE>) -> Result<KR8E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8e_B<'a>(r: &mut Prc<BE>) -> Result<KR8E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8e_B<'a>(v: &KR8E<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8e<'a>(v: &KR8E<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8e<'a>() -> usize { <KR8E<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8o_L<'a>(r: &mut Pr<LE>) -> Result<KR8O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8o_L<'a>(r: &mut Prc<LE>) -> Result<KR8O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8o_L<'a>(v: &KR8O<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8o_L<'a>(v: &KR8O<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8o_B<'a>(r: &mut Pr<BE>) -> Result<KR8O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8o_B<'a>(r: &mut Prc<BE>) -> Result<KR8O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8o_B<'a>(v: &KR8O<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8o<'a>(v: &KR8O<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8o<'a>() -> usize { <KR8O<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8ot_L<'a>(r: &mut Pr<LE>) -> Result<KR8OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8ot_L<'a>(r: &mut Prc<LE>) -> Result<KR8OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8ot_L<'a>(v: &KR8OT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8ot_L<'a>(v: &KR8OT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8ot_B<'a>(r: &mut Pr<BE>) -> Result<KR8OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8ot_B<'a>(r: &mut Prc<BE>) -> Result<KR8OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8ot_B<'a>(v: &KR8OT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8ot<'a>(v: &KR8OT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8ot<'a>() -> usize { <KR8OT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8ov_L<'a>(r: &mut Pr<LE>) -> Result<KR8OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8ov_L<'a>(r: &mut Prc<LE>) -> Result<KR8OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8ov_L<'a>(v: &KR8OV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8ov_L<'a>(v: &KR8OV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8ov_B<'a>(r: &mut Pr<BE>) -> Result<KR8OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8ov_B<'a>(r: &mut Prc<BE>) -> Result<KR8OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8ov_B<'a>(v: &KR8OV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8ov<'a>(v: &KR8OV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8ov<'a>() -> usize { <KR8OV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr8p_L<'a>(r: &mut Pr<LE>) -> Result<KR8P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr8p_L<'a>(r: &mut Prc<LE>) -> Result<KR8P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr8p_L<'a>(v: &KR8P<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr8p_L<'a>(v: &KR8P<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr8p_B<'a>(r: &mut Pr<BE>) -> Result<KR8P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr8p_B<'a>(r: &mut Prc<BE>) -> Result<KR8P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr8p_B<'a>(v: &KR8P<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr8p<'a>(v: &KR8P<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr8p<'a>() -> usize { <KR8P<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32d_L<'a>(r: &mut Pr<LE>) -> Result<KR32D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32d_L<'a>(r: &mut Prc<LE>) -> Result<KR32D<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32d_L<'a>(v: &KR32D<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32d_L<'a>(v: &KR32D<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32d_B<'a>(r: &mut Pr<BE>) -> Result<KR32D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32d_B<'a>(r: &mut Prc<BE>) -> Result<KR32D<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32d_B<'a>(v: &KR32D<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32d<'a>(v: &KR32D<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32d<'a>() -> usize { <KR32D<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32tu7_L<'a>(r: &mut Pr<LE>) -> Result<KR32Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32tu7_L<'a>(r: &mut Prc<LE>) -> Result<KR32Tu7<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32tu7_L<'a>(v: &KR32Tu7<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32tu7_L<'a>(v: &KR32Tu7<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32tu7_B<'a>(r: &mut Pr<BE>) -> Result<KR32Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32tu7_B<'a>(r: &mut Prc<BE>) -> Result<KR32Tu7<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32tu7_B<'a>(v: &KR32Tu7<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32tu7<'a>(v: &KR32Tu7<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32tu7<'a>() -> usize { <KR32Tu7<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32tu8_L<'a>(r: &mut Pr<LE>) -> Result<KR32Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32tu8_L<'a>(r: &mut Prc<LE>) -> Result<KR32Tu8<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32tu8_L<'a>(v: &KR32Tu8<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32tu8_L<'a>(v: &KR32Tu8<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32tu8_B<'a>(r: &mut Pr<BE>) -> Result<KR32Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32tu8_B<'a>(r: &mut Prc<BE>) -> Result<KR32Tu8<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32tu8_B<'a>(v: &KR32Tu8<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32tu8<'a>(v: &KR32Tu8<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32tu8<'a>() -> usize { <KR32Tu8<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32tu16_L<'a>(r: &mut Pr<LE>) -> Result<KR32Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32tu16_L<'a>(r: &mut Prc<LE>) -> Result<KR32Tu16<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32tu16_L<'a>(v: &KR32Tu16<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32tu16_L<'a>(v: &KR32Tu16<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32tu16_B<'a>(r: &mut Pr<BE>) -> Result<KR32Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32tu16_B<'a>(r: &mut Prc<BE>) -> Result<KR32Tu16<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32tu16_B<'a>(v: &KR32Tu16<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32tu16<'a>(v: &KR32Tu16<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32tu16<'a>() -> usize { <KR32Tu16<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32tu32_L<'a>(r: &mut Pr<LE>) -> Result<KR32Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32tu32_L<'a>(r: &mut Prc<LE>) -> Result<KR32Tu32<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32tu32_L<'a>(v: &KR32Tu32<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32tu32_L<'a>(v: &KR32Tu32<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32tu32_B<'a>(r: &mut Pr<BE>) -> Result<KR32Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32tu32_B<'a>(r: &mut Prc<BE>) -> Result<KR32Tu32<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32tu32_B<'a>(v: &KR32Tu32<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32tu32<'a>(v: &KR32Tu32<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32tu32<'a>() -> usize { <KR32Tu32<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32tu64_L<'a>(r: &mut Pr<LE>) -> Result<KR32Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32tu64_L<'a>(r: &mut Prc<LE>) -> Result<KR32Tu64<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32tu64_L<'a>(v: &KR32Tu64<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32tu64_L<'a>(v: &KR32Tu64<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32tu64_B<'a>(r: &mut Pr<BE>) -> Result<KR32Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32tu64_B<'a>(r: &mut Prc<BE>) -> Result<KR32Tu64<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32tu64_B<'a>(v: &KR32Tu64<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32tu64<'a>(v: &KR32Tu64<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32tu64<'a>() -> usize { <KR32Tu64<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32tu64varint_L<'a>(r: &mut Pr<LE>) -> Result<KR32Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32tu64varint_L<'a>(r: &mut Prc<LE>) -> Result<KR32Tu64varint<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32tu64varint_L<'a>(v: &KR32Tu64varint<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32tu64varint_L<'a>(v: &KR32Tu64varint<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32tu64varint_B<'a>(r: &mut Pr<BE>) -> Result<KR32Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32tu64varint_B<'a>(r: &mut Prc<BE>) -> Result<KR32Tu64varint<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32tu64varint_B<'a>(v: &KR32Tu64varint<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32tu64varint<'a>(v: &KR32Tu64varint<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32tu64varint<'a>() -> usize { <KR32Tu64varint<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32ln_L<'a>(r: &mut Pr<LE>) -> Result<KR32Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32ln_L<'a>(r: &mut Prc<LE>) -> Result<KR32Ln<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32ln_L<'a>(v: &KR32Ln<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32ln_L<'a>(v: &KR32Ln<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32ln_B<'a>(r: &mut Pr<BE>) -> Result<KR32Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32ln_B<'a>(r: &mut Prc<BE>) -> Result<KR32Ln<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32ln_B<'a>(v: &KR32Ln<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32ln<'a>(v: &KR32Ln<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32ln<'a>() -> usize { <KR32Ln<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32ldiv_L<'a>(r: &mut Pr<LE>) -> Result<KR32Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32ldiv_L<'a>(r: &mut Prc<LE>) -> Result<KR32Ldiv<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32ldiv_L<'a>(v: &KR32Ldiv<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32ldiv_L<'a>(v: &KR32Ldiv<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32ldiv_B<'a>(r: &mut Pr<BE>) -> Result<KR32Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32ldiv_B<'a>(r: &mut Prc<BE>) -> Result<KR32Ldiv<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32ldiv_B<'a>(v: &KR32Ldiv<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32ldiv<'a>(v: &KR32Ldiv<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32ldiv<'a>() -> usize { <KR32Ldiv<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32lk_L<'a>(r: &mut Pr<LE>) -> Result<KR32Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32lk_L<'a>(r: &mut Prc<LE>) -> Result<KR32Lk<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32lk_L<'a>(v: &KR32Lk<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32lk_L<'a>(v: &KR32Lk<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32lk_B<'a>(r: &mut Pr<BE>) -> Result<KR32Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32lk_B<'a>(r: &mut Prc<BE>) -> Result<KR32Lk<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32lk_B<'a>(v: &KR32Lk<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32lk<'a>(v: &KR32Lk<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32lk<'a>() -> usize { <KR32Lk<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32lw_L<'a>(r: &mut Pr<LE>) -> Result<KR32Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32lw_L<'a>(r: &mut Prc<LE>) -> Result<KR32Lw<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32lw_L<'a>(v: &KR32Lw<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32lw_L<'a>(v: &KR32Lw<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32lw_B<'a>(r: &mut Pr<BE>) -> Result<KR32Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32lw_B<'a>(r: &mut Prc<BE>) -> Result<KR32Lw<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32lw_B<'a>(v: &KR32Lw<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32lw<'a>(v: &KR32Lw<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32lw<'a>() -> usize { <KR32Lw<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32ll_L<'a>(r: &mut Pr<LE>) -> Result<KR32Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32ll_L<'a>(r: &mut Prc<LE>) -> Result<KR32Ll<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32ll_L<'a>(v: &KR32Ll<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32ll_L<'a>(v: &KR32Ll<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32ll_B<'a>(r: &mut Pr<BE>) -> Result<KR32Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32ll_B<'a>(r: &mut Prc<BE>) -> Result<KR32Ll<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32ll_B<'a>(v: &KR32Ll<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32ll<'a>(v: &KR32Ll<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32ll<'a>() -> usize { <KR32Ll<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32lz_L<'a>(r: &mut Pr<LE>) -> Result<KR32Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32lz_L<'a>(r: &mut Prc<LE>) -> Result<KR32Lz<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32lz_L<'a>(v: &KR32Lz<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32lz_L<'a>(v: &KR32Lz<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32lz_B<'a>(r: &mut Pr<BE>) -> Result<KR32Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32lz_B<'a>(r: &mut Prc<BE>) -> Result<KR32Lz<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32lz_B<'a>(v: &KR32Lz<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32lz<'a>(v: &KR32Lz<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32lz<'a>() -> usize { <KR32Lz<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32e_L<'a>(r: &mut Pr<LE>) -> Result<KR32E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32e_L<'a>(r: &mut Prc<LE>) -> Result<KR32E<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32e_L<'a>(v: &KR32E<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32e_L<'a>(v: &KR32E<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32e_B<'a>(r: &mut Pr<BE>) -> Result<KR32E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32e_B<'a>(r: &mut Prc<BE>) -> Result<KR32E<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32e_B<'a>(v: &KR32E<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32e<'a>(v: &KR32E<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32e<'a>() -> usize { <KR32E<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32o_L<'a>(r: &mut Pr<LE>) -> Result<KR32O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32o_L<'a>(r: &mut Prc<LE>) -> Result<KR32O<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32o_L<'a>(v: &KR32O<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32o_L<'a>(v: &KR32O<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32o_B<'a>(r: &mut Pr<BE>) -> Result<KR32O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32o_B<'a>(r: &mut Prc<BE>) -> Result<KR32O<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32o_B<'a>(v: &KR32O<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32o<'a>(v: &KR32O<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32o<'a>() -> usize { <KR32O<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32ot_L<'a>(r: &mut Pr<LE>) -> Result<KR32OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32ot_L<'a>(r: &mut Prc<LE>) -> Result<KR32OT<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32ot_L<'a>(v: &KR32OT<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32ot_L<'a>(v: &KR32OT<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32ot_B<'a>(r: &mut Pr<BE>) -> Result<KR32OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32ot_B<'a>(r: &mut Prc<BE>) -> Result<KR32OT<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32ot_B<'a>(v: &KR32OT<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32ot<'a>(v: &KR32OT<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32ot<'a>() -> usize { <KR32OT<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32ov_L<'a>(r: &mut Pr<LE>) -> Result<KR32OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32ov_L<'a>(r: &mut Prc<LE>) -> Result<KR32OV<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32ov_L<'a>(v: &KR32OV<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32ov_L<'a>(v: &KR32OV<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32ov_B<'a>(r: &mut Pr<BE>) -> Result<KR32OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32ov_B<'a>(r: &mut Prc<BE>) -> Result<KR32OV<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32ov_B<'a>(v: &KR32OV<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32ov<'a>(v: &KR32OV<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32ov<'a>() -> usize { <KR32OV<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_kr32p_L<'a>(r: &mut Pr<LE>) -> Result<KR32P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_kr32p_L<'a>(r: &mut Prc<LE>) -> Result<KR32P<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_kr32p_L<'a>(v: &KR32P<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_kr32p_L<'a>(v: &KR32P<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_kr32p_B<'a>(r: &mut Pr<BE>) -> Result<KR32P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_kr32p_B<'a>(r: &mut Prc<BE>) -> Result<KR32P<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_kr32p_B<'a>(v: &KR32P<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_kr32p<'a>(v: &KR32P<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_kr32p<'a>() -> usize { <KR32P<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px0_L(r: &mut Pr<LE>) -> Result<Px0, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px0_L(r: &mut Prc<LE>) -> Result<Px0, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px0_L(v: &Px0, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px0_L(v: &Px0, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px0_B(r: &mut Pr<BE>) -> Result<Px0, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px0_B(r: &mut Prc<BE>) -> Result<Px0, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px0_B(v: &Px0, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px0(v: &Px0) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px0() -> usize { <Px0 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po0_L(r: &mut Pr<LE>) -> Result<Po0, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po0_L(r: &mut Prc<LE>) -> Result<Po0, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po0_L(v: &Po0, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po0_L(v: &Po0, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po0_B(r: &mut Pr<BE>) -> Result<Po0, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po0_B(r: &mut Prc<BE>) -> Result<Po0, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po0_B(v: &Po0, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po0(v: &Po0) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po0() -> usize { <Po0 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px1_L(r: &mut Pr<LE>) -> Result<Px1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px1_L(r: &mut Prc<LE>) -> Result<Px1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px1_L(v: &Px1, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px1_L(v: &Px1, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px1_B(r: &mut Pr<BE>) -> Result<Px1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px1_B(r: &mut Prc<BE>) -> Result<Px1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px1_B(v: &Px1, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px1(v: &Px1) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px1() -> usize { <Px1 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po1_L(r: &mut Pr<LE>) -> Result<Po1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po1_L(r: &mut Prc<LE>) -> Result<Po1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po1_L(v: &Po1, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po1_L(v: &Po1, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po1_B(r: &mut Pr<BE>) -> Result<Po1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po1_B(r: &mut Prc<BE>) -> Result<Po1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po1_B(v: &Po1, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po1(v: &Po1) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po1() -> usize { <Po1 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px2_L(r: &mut Pr<LE>) -> Result<Px2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px2_L(r: &mut Prc<LE>) -> Result<Px2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px2_L(v: &Px2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px2_L(v: &Px2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px2_B(r: &mut Pr<BE>) -> Result<Px2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px2_B(r: &mut Prc<BE>) -> Result<Px2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px2_B(v: &Px2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px2(v: &Px2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px2() -> usize { <Px2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po2_L(r: &mut Pr<LE>) -> Result<Po2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po2_L(r: &mut Prc<LE>) -> Result<Po2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po2_L(v: &Po2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po2_L(v: &Po2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po2_B(r: &mut Pr<BE>) -> Result<Po2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po2_B(r: &mut Prc<BE>) -> Result<Po2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po2_B(v: &Po2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po2(v: &Po2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po2() -> usize { <Po2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px3_L(r: &mut Pr<LE>) -> Result<Px3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px3_L(r: &mut Prc<LE>) -> Result<Px3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px3_L(v: &Px3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px3_L(v: &Px3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px3_B(r: &mut Pr<BE>) -> Result<Px3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px3_B(r: &mut Prc<BE>) -> Result<Px3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px3_B(v: &Px3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px3(v: &Px3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px3() -> usize { <Px3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po3_L(r: &mut Pr<LE>) -> Result<Po3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po3_L(r: &mut Prc<LE>) -> Result<Po3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po3_L(v: &Po3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po3_L(v: &Po3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po3_B(r: &mut Pr<BE>) -> Result<Po3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po3_B(r: &mut Prc<BE>) -> Result<Po3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po3_B(v: &Po3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po3(v: &Po3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po3() -> usize { <Po3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px4_L(r: &mut Pr<LE>) -> Result<Px4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px4_L(r: &mut Prc<LE>) -> Result<Px4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px4_L(v: &Px4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px4_L(v: &Px4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px4_B(r: &mut Pr<BE>) -> Result<Px4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px4_B(r: &mut Prc<BE>) -> Result<Px4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px4_B(v: &Px4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px4(v: &Px4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px4() -> usize { <Px4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po4_L(r: &mut Pr<LE>) -> Result<Po4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po4_L(r: &mut Prc<LE>) -> Result<Po4, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po4_L(v: &Po4, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po4_L(v: &Po4, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po4_B(r: &mut Pr<BE>) -> Result<Po4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po4_B(r: &mut Prc<BE>) -> Result<Po4, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po4_B(v: &Po4, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po4(v: &Po4) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po4() -> usize { <Po4 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px5_L(r: &mut Pr<LE>) -> Result<Px5, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px5_L(r: &mut Prc<LE>) -> Result<Px5, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px5_L(v: &Px5, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px5_L(v: &Px5, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px5_B(r: &mut Pr<BE>) -> Result<Px5, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px5_B(r: &mut Prc<BE>) -> Result<Px5, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px5_B(v: &Px5, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px5(v: &Px5) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px5() -> usize { <Px5 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po5_L(r: &mut Pr<LE>) -> Result<Po5, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po5_L(r: &mut Prc<LE>) -> Result<Po5, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po5_L(v: &Po5, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po5_L(v: &Po5, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po5_B(r: &mut Pr<BE>) -> Result<Po5, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po5_B(r: &mut Prc<BE>) -> Result<Po5, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po5_B(v: &Po5, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po5(v: &Po5) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po5() -> usize { <Po5 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px6_L(r: &mut Pr<LE>) -> Result<Px6, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px6_L(r: &mut Prc<LE>) -> Result<Px6, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px6_L(v: &Px6, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px6_L(v: &Px6, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px6_B(r: &mut Pr<BE>) -> Result<Px6, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px6_B(r: &mut Prc<BE>) -> Result<Px6, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px6_B(v: &Px6, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px6(v: &Px6) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px6() -> usize { <Px6 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po6_L(r: &mut Pr<LE>) -> Result<Po6, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po6_L(r: &mut Prc<LE>) -> Result<Po6, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po6_L(v: &Po6, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po6_L(v: &Po6, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po6_B(r: &mut Pr<BE>) -> Result<Po6, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po6_B(r: &mut Prc<BE>) -> Result<Po6, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po6_B(v: &Po6, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po6(v: &Po6) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po6() -> usize { <Po6 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px7_L(r: &mut Pr<LE>) -> Result<Px7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px7_L(r: &mut Prc<LE>) -> Result<Px7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px7_L(v: &Px7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px7_L(v: &Px7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px7_B(r: &mut Pr<BE>) -> Result<Px7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px7_B(r: &mut Prc<BE>) -> Result<Px7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px7_B(v: &Px7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px7(v: &Px7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px7() -> usize { <Px7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po7_L(r: &mut Pr<LE>) -> Result<Po7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po7_L(r: &mut Prc<LE>) -> Result<Po7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po7_L(v: &Po7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po7_L(v: &Po7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po7_B(r: &mut Pr<BE>) -> Result<Po7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po7_B(r: &mut Prc<BE>) -> Result<Po7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po7_B(v: &Po7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po7(v: &Po7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po7() -> usize { <Po7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_px8_L(r: &mut Pr<LE>) -> Result<Px8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_px8_L(r: &mut Prc<LE>) -> Result<Px8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_px8_L(v: &Px8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_px8_L(v: &Px8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_px8_B(r: &mut Pr<BE>) -> Result<Px8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_px8_B(r: &mut Prc<BE>) -> Result<Px8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_px8_B(v: &Px8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_px8(v: &Px8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_px8() -> usize { <Px8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_po8_L(r: &mut Pr<LE>) -> Result<Po8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_po8_L(r: &mut Prc<LE>) -> Result<Po8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_po8_L(v: &Po8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_po8_L(v: &Po8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_po8_B(r: &mut Pr<BE>) -> Result<Po8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_po8_B(r: &mut Prc<BE>) -> Result<Po8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_po8_B(v: &Po8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_po8(v: &Po8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_po8() -> usize { <Po8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pxunit_L(r: &mut Pr<LE>) -> Result<PxUnit, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pxunit_L(r: &mut Prc<LE>) -> Result<PxUnit, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pxunit_L(v: &PxUnit, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pxunit_L(v: &PxUnit, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pxunit_B(r: &mut Pr<BE>) -> Result<PxUnit, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pxunit_B(r: &mut Prc<BE>) -> Result<PxUnit, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pxunit_B(v: &PxUnit, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pxunit(v: &PxUnit) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pxunit() -> usize { <PxUnit as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pxtwo_L(r: &mut Pr<LE>) -> Result<PxTwo, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pxtwo_L(r: &mut Prc<LE>) -> Result<PxTwo, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pxtwo_L(v: &PxTwo, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pxtwo_L(v: &PxTwo, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pxtwo_B(r: &mut Pr<BE>) -> Result<PxTwo, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pxtwo_B(r: &mut Prc<BE>) -> Result<PxTwo, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pxtwo_B(v: &PxTwo, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pxtwo(v: &PxTwo) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pxtwo() -> usize { <PxTwo as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_pxeof_L(r: &mut Pr<LE>) -> Result<PxEof, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_pxeof_L(r: &mut Prc<LE>) -> Result<PxEof, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_pxeof_L(v: &PxEof, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_pxeof_L(v: &PxEof, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_pxeof_B(r: &mut Pr<BE>) -> Result<PxEof, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_pxeof_B(r: &mut Prc<BE>) -> Result<PxEof, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_pxeof_B(v: &PxEof, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_pxeof(v: &PxEof) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_pxeof() -> usize { <PxEof as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vi_L(r: &mut Pr<LE>) -> Result<Vi, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vi_L(r: &mut Prc<LE>) -> Result<Vi, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vi_L(v: &Vi, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vi_L(v: &Vi, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vi_B(r: &mut Pr<BE>) -> Result<Vi, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vi_B(r: &mut Prc<BE>) -> Result<Vi, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vi_B(v: &Vi, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vi(v: &Vi) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vi() -> usize { <Vi as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vit_L(r: &mut Pr<LE>) -> Result<ViT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vit_L(r: &mut Prc<LE>) -> Result<ViT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vit_L(v: &ViT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vit_L(v: &ViT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vit_B(r: &mut Pr<BE>) -> Result<ViT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vit_B(r: &mut Prc<BE>) -> Result<ViT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vit_B(v: &ViT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vit(v: &ViT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vit() -> usize { <ViT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vieof_L(r: &mut Pr<LE>) -> Result<ViEof, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vieof_L(r: &mut Prc<LE>) -> Result<ViEof, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vieof_L(v: &ViEof, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vieof_L(v: &ViEof, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vieof_B(r: &mut Pr<BE>) -> Result<ViEof, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vieof_B(r: &mut Prc<BE>) -> Result<ViEof, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vieof_B(v: &ViEof, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vieof(v: &ViEof) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vieof() -> usize { <ViEof as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_vipx_L(r: &mut Pr<LE>) -> Result<ViPx, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_vipx_L(r: &mut Prc<LE>) -> Result<ViPx, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_vipx_L(v: &ViPx, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_vipx_L(v: &ViPx, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_vipx_B(r: &mut Pr<BE>) -> Result<ViPx, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_vipx_B(r: &mut Prc<BE>) -> Result<ViPx, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_vipx_B(v: &ViPx, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_vipx(v: &ViPx) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_vipx() -> usize { <ViPx as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_sk_L(r: &mut Pr<LE>) -> Result<Sk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_sk_L(r: &mut Prc<LE>) -> Result<Sk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_sk_L(v: &Sk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_sk_L(v: &Sk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_sk_B(r: &mut Pr<BE>) -> Result<Sk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_sk_B(r: &mut Prc<BE>) -> Result<Sk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_sk_B(v: &Sk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_sk(v: &Sk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_sk() -> usize { <Sk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_skt_L(r: &mut Pr<LE>) -> Result<SkT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_skt_L(r: &mut Prc<LE>) -> Result<SkT, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_skt_L(v: &SkT, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_skt_L(v: &SkT, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_skt_B(r: &mut Pr<BE>) -> Result<SkT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_skt_B(r: &mut Prc<BE>) -> Result<SkT, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_skt_B(v: &SkT, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_skt(v: &SkT) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_skt() -> usize { <SkT as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eo1_L(r: &mut Pr<LE>) -> Result<Eo1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eo1_L(r: &mut Prc<LE>) -> Result<Eo1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eo1_L(v: &Eo1, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eo1_L(v: &Eo1, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eo1_B(r: &mut Pr<BE>) -> Result<Eo1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eo1_B(r: &mut Prc<BE>) -> Result<Eo1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eo1_B(v: &Eo1, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eo1(v: &Eo1) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eo1() -> usize { <Eo1 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eo2_L(r: &mut Pr<LE>) -> Result<Eo2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eo2_L(r: &mut Prc<LE>) -> Result<Eo2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eo2_L(v: &Eo2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eo2_L(v: &Eo2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eo2_B(r: &mut Pr<BE>) -> Result<Eo2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eo2_B(r: &mut Prc<BE>) -> Result<Eo2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eo2_B(v: &Eo2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eo2(v: &Eo2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eo2() -> usize { <Eo2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eo3_L(r: &mut Pr<LE>) -> Result<Eo3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eo3_L(r: &mut Prc<LE>) -> Result<Eo3, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eo3_L(v: &Eo3, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eo3_L(v: &Eo3, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eo3_B(r: &mut Pr<BE>) -> Result<Eo3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eo3_B(r: &mut Prc<BE>) -> Result<Eo3, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eo3_B(v: &Eo3, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eo3(v: &Eo3) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eo3() -> usize { <Eo3 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eomid_L(r: &mut Pr<LE>) -> Result<EoMid, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eomid_L(r: &mut Prc<LE>) -> Result<EoMid, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eomid_L(v: &EoMid, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eomid_L(v: &EoMid, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eomid_B(r: &mut Pr<BE>) -> Result<EoMid, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eomid_B(r: &mut Prc<BE>) -> Result<EoMid, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eomid_B(v: &EoMid, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eomid(v: &EoMid) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eomid() -> usize { <EoMid as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eob_L(r: &mut Pr<LE>) -> Result<EoB, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eob_L(r: &mut Prc<LE>) -> Result<EoB, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eob_L(v: &EoB, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eob_L(v: &EoB, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eob_B(r: &mut Pr<BE>) -> Result<EoB, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eob_B(r: &mut Prc<BE>) -> Result<EoB, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eob_B(v: &EoB, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eob(v: &EoB) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eob() -> usize { <EoB as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ar0_L(r: &mut Pr<LE>) -> Result<Ar0, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ar0_L(r: &mut Prc<LE>) -> Result<Ar0, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ar0_L(v: &Ar0, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ar0_L(v: &Ar0, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ar0_B(r: &mut Pr<BE>) -> Result<Ar0, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ar0_B(r: &mut Prc<BE>) -> Result<Ar0, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ar0_B(v: &Ar0, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ar0(v: &Ar0) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ar0() -> usize { <Ar0 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ar1_L(r: &mut Pr<LE>) -> Result<Ar1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ar1_L(r: &mut Prc<LE>) -> Result<Ar1, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ar1_L(v: &Ar1, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ar1_L(v: &Ar1, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ar1_B(r: &mut Pr<BE>) -> Result<Ar1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ar1_B(r: &mut Prc<BE>) -> Result<Ar1, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ar1_B(v: &Ar1, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ar1(v: &Ar1) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ar1() -> usize { <Ar1 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ar2_L(r: &mut Pr<LE>) -> Result<Ar2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ar2_L(r: &mut Prc<LE>) -> Result<Ar2, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ar2_L(v: &Ar2, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ar2_L(v: &Ar2, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ar2_B(r: &mut Pr<BE>) -> Result<Ar2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ar2_B(r: &mut Prc<BE>) -> Result<Ar2, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ar2_B(v: &Ar2, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ar2(v: &Ar2) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ar2() -> usize { <Ar2 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ar5_L(r: &mut Pr<LE>) -> Result<Ar5, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ar5_L(r: &mut Prc<LE>) -> Result<Ar5, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ar5_L(v: &Ar5, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ar5_L(v: &Ar5, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ar5_B(r: &mut Pr<BE>) -> Result<Ar5, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ar5_B(r: &mut Prc<BE>) -> Result<Ar5, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ar5_B(v: &Ar5, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ar5(v: &Ar5) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ar5() -> usize { <Ar5 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arvar_L(r: &mut Pr<LE>) -> Result<ArVar, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arvar_L(r: &mut Prc<LE>) -> Result<ArVar, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arvar_L(v: &ArVar, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arvar_L(v: &ArVar, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arvar_B(r: &mut Pr<BE>) -> Result<ArVar, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arvar_B(r: &mut Prc<BE>) -> Result<ArVar, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arvar_B(v: &ArVar, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arvar(v: &ArVar) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arvar() -> usize { <ArVar as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arvartr_L(r: &mut Pr<LE>) -> Result<ArVarTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arvartr_L(r: &mut Prc<LE>) -> Result<ArVarTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arvartr_L(v: &ArVarTr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arvartr_L(v: &ArVarTr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arvartr_B(r: &mut Pr<BE>) -> Result<ArVarTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arvartr_B(r: &mut Prc<BE>) -> Result<ArVarTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arvartr_B(v: &ArVarTr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arvartr(v: &ArVarTr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arvartr() -> usize { <ArVarTr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arvarpk_L(r: &mut Pr<LE>) -> Result<ArVarPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arvarpk_L(r: &mut Prc<LE>) -> Result<ArVarPk, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arvarpk_L(v: &ArVarPk, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arvarpk_L(v: &ArVarPk, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arvarpk_B(r: &mut Pr<BE>) -> Result<ArVarPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arvarpk_B(r: &mut Prc<BE>) -> Result<ArVarPk, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arvarpk_B(v: &ArVarPk, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arvarpk(v: &ArVarPk) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arvarpk() -> usize { <ArVarPk as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_arvarcc_L(r: &mut Pr<LE>) -> Result<ArVarCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_arvarcc_L(r: &mut Prc<LE>) -> Result<ArVarCc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_arvarcc_L(v: &ArVarCc, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_arvarcc_L(v: &ArVarCc, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_arvarcc_B(r: &mut Pr<BE>) -> Result<ArVarCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_arvarcc_B(r: &mut Prc<BE>) -> Result<ArVarCc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_arvarcc_B(v: &ArVarCc, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_arvarcc(v: &ArVarCc) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_arvarcc() -> usize { <ArVarCc as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_artr_L(r: &mut Pr<LE>) -> Result<ArTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_artr_L(r: &mut Prc<LE>) -> Result<ArTr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_artr_L(v: &ArTr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_artr_L(v: &ArTr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_artr_B(r: &mut Pr<BE>) -> Result<ArTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_artr_B(r: &mut Prc<BE>) -> Result<ArTr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_artr_B(v: &ArTr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_artr(v: &ArTr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_artr() -> usize { <ArTr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_optp_L(r: &mut Pr<LE>) -> Result<OptP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_optp_L(r: &mut Prc<LE>) -> Result<OptP, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_optp_L(v: &OptP, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_optp_L(v: &OptP, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_optp_B(r: &mut Pr<BE>) -> Result<OptP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_optp_B(r: &mut Prc<BE>) -> Result<OptP, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_optp_B(v: &OptP, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_optp(v: &OptP) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_optp() -> usize { <OptP as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_twolen_L(r: &mut Pr<LE>) -> Result<TwoLen, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_twolen_L(r: &mut Prc<LE>) -> Result<TwoLen, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_twolen_L(v: &TwoLen, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_twolen_L(v: &TwoLen, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_twolen_B(r: &mut Pr<BE>) -> Result<TwoLen, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_twolen_B(r: &mut Prc<BE>) -> Result<TwoLen, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_twolen_B(v: &TwoLen, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_twolen(v: &TwoLen) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_twolen() -> usize { <TwoLen as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_plain_L(r: &mut Pr<LE>) -> Result<Plain, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_plain_L(r: &mut Prc<LE>) -> Result<Plain, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_plain_L(v: &Plain, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_plain_L(v: &Plain, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_plain_B(r: &mut Pr<BE>) -> Result<Plain, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_plain_B(r: &mut Prc<BE>) -> Result<Plain, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_plain_B(v: &Plain, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_plain(v: &Plain) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_plain() -> usize { <Plain as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_single_L(r: &mut Pr<LE>) -> Result<Single, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_single_L(r: &mut Prc<LE>) -> Result<Single, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_single_L(v: &Single, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_single_L(v: &Single, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_single_B(r: &mut Pr<BE>) -> Result<Single, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_single_B(r: &mut Prc<BE>) -> Result<Single, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_single_B(v: &Single, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_single(v: &Single) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_single() -> usize { <Single as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_single_vec_L(r: &mut Pr<LE>) -> Result<Vec<Single>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_single_vec_L(r: &mut Prc<LE>) -> Result<Vec<Single>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_single_vec_L(v: &Vec<Single>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_single_vec_L(v: &Vec<Single>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_single_vec_B(r: &mut Pr<BE>) -> Result<Vec<Single>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_single_vec_B(r: &mut Prc<BE>) -> Result<Vec<Single>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_single_vec_B(v: &Vec<Single>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_single_vec(v: &Vec<Single>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_single_vec() -> usize { <Vec<Single> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_single_arr_L(r: &mut Pr<LE>) -> Result<[Single; 2], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_single_arr_L(r: &mut Prc<LE>) -> Result<[Single; 2], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_single_arr_L(v: &[Single; 2], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_single_arr_L(v: &[Single; 2], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_single_arr_B(r: &mut Pr<BE>) -> Result<[Single; 2], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_single_arr_B(r: &mut Prc<BE>) -> Result<[Single; 2], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_single_arr_B(v: &[Single; 2], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_single_arr(v: &[Single; 2]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_single_arr() -> usize { <[Single; 2] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_single_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [Single]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_single_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [Single]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_single_cow_L<'a>(v: &Cow<'a, [Single]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_single_cow_L<'a>(v: &Cow<'a, [Single]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_single_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [Single]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_single_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [Single]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_single_cow_B<'a>(v: &Cow<'a, [Single]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_single_cow<'a>(v: &Cow<'a, [Single]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_single_cow<'a>() -> usize { <Cow<'a, [Single]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_units_vec_L(r: &mut Pr<LE>) -> Result<Vec<UnitS>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_units_vec_L(r: &mut Prc<LE>) -> Result<Vec<UnitS>, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_units_vec_L(v: &Vec<UnitS>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_units_vec_L(v: &Vec<UnitS>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_units_vec_B(r: &mut Pr<BE>) -> Result<Vec<UnitS>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_units_vec_B(r: &mut Prc<BE>) -> Result<Vec<UnitS>, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_units_vec_B(v: &Vec<UnitS>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_units_vec(v: &Vec<UnitS>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_units_vec() -> usize { <Vec<UnitS> as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_units_cow_L<'a>(r: &mut Pr<LE>) -> Result<Cow<'a, [UnitS]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_units_cow_L<'a>(r: &mut Prc<LE>) -> Result<Cow<'a, [UnitS]>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_units_cow_L<'a>(v: &Cow<'a, [UnitS]>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_units_cow_L<'a>(v: &Cow<'a, [UnitS]>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_units_cow_B<'a>(r: &mut Pr<BE>) -> Result<Cow<'a, [UnitS]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_units_cow_B<'a>(r: &mut Prc<BE>) -> Result<Cow<'a, [UnitS]>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_units_cow_B<'a>(v: &Cow<'a, [UnitS]>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_units_cow<'a>(v: &Cow<'a, [UnitS]>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_units_cow<'a>() -> usize { <Cow<'a, [UnitS]> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_units_arr_L(r: &mut Pr<LE>) -> Result<[UnitS; 2], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_units_arr_L(r: &mut Prc<LE>) -> Result<[UnitS; 2], Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_units_arr_L(v: &[UnitS; 2], w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_units_arr_L(v: &[UnitS; 2], w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_units_arr_B(r: &mut Pr<BE>) -> Result<[UnitS; 2], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_units_arr_B(r: &mut Prc<BE>) -> Result<[UnitS; 2], Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_units_arr_B(v: &[UnitS; 2], w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_units_arr(v: &[UnitS; 2]) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_units_arr() -> usize { <[UnitS; 2] as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_disc_L(r: &mut Pr<LE>) -> Result<Disc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_disc_L(r: &mut Prc<LE>) -> Result<Disc, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_disc_L(v: &Disc, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_disc_L(v: &Disc, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_disc_B(r: &mut Pr<BE>) -> Result<Disc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_disc_B(r: &mut Prc<BE>) -> Result<Disc, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_disc_B(v: &Disc, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_disc(v: &Disc) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_disc() -> usize { <Disc as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_taga_L(r: &mut Pr<LE>) -> Result<TagA, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_taga_L(r: &mut Prc<LE>) -> Result<TagA, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_taga_L(v: &TagA, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_taga_L(v: &TagA, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_taga_B(r: &mut Pr<BE>) -> Result<TagA, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_taga_B(r: &mut Prc<BE>) -> Result<TagA, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_taga_B(v: &TagA, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_taga(v: &TagA) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_taga() -> usize { <TagA as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_tagover_L(r: &mut Pr<LE>) -> Result<TagOver, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_tagover_L(r: &mut Prc<LE>) -> Result<TagOver, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_tagover_L(v: &TagOver, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_tagover_L(v: &TagOver, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_tagover_B(r: &mut Pr<BE>) -> Result<TagOver, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_tagover_B(r: &mut Prc<BE>) -> Result<TagOver, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_tagover_B(v: &TagOver, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_tagover(v: &TagOver) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_tagover() -> usize { <TagOver as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_etu7_L(r: &mut Pr<LE>) -> Result<Etu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_etu7_L(r: &mut Prc<LE>) -> Result<Etu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_etu7_L(v: &Etu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_etu7_L(v: &Etu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_etu7_B(r: &mut Pr<BE>) -> Result<Etu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_etu7_B(r: &mut Prc<BE>) -> Result<Etu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_etu7_B(v: &Etu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_etu7(v: &Etu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_etu7() -> usize { <Etu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_epu7_L(r: &mut Pr<LE>) -> Result<Epu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_epu7_L(r: &mut Prc<LE>) -> Result<Epu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_epu7_L(v: &Epu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_epu7_L(v: &Epu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_epu7_B(r: &mut Pr<BE>) -> Result<Epu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_epu7_B(r: &mut Prc<BE>) -> Result<Epu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_epu7_B(v: &Epu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_epu7(v: &Epu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_epu7() -> usize { <Epu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_psu7_L(r: &mut Pr<LE>) -> Result<Psu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_psu7_L(r: &mut Prc<LE>) -> Result<Psu7, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_psu7_L(v: &Psu7, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_psu7_L(v: &Psu7, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_psu7_B(r: &mut Pr<BE>) -> Result<Psu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_psu7_B(r: &mut Prc<BE>) -> Result<Psu7, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_psu7_B(v: &Psu7, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_psu7(v: &Psu7) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_psu7() -> usize { <Psu7 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_etu8_L(r: &mut Pr<LE>) -> Result<Etu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_etu8_L(r: &mut Prc<LE>) -> Result<Etu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_etu8_L(v: &Etu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_etu8_L(v: &Etu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_etu8_B(r: &mut Pr<BE>) -> Result<Etu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_etu8_B(r: &mut Prc<BE>) -> Result<Etu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_etu8_B(v: &Etu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_etu8(v: &Etu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_etu8() -> usize { <Etu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_epu8_L(r: &mut Pr<LE>) -> Result<Epu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_epu8_L(r: &mut Prc<LE>) -> Result<Epu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_epu8_L(v: &Epu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_epu8_L(v: &Epu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_epu8_B(r: &mut Pr<BE>) -> Result<Epu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_epu8_B(r: &mut Prc<BE>) -> Result<Epu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_epu8_B(v: &Epu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_epu8(v: &Epu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_epu8() -> usize { <Epu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_psu8_L(r: &mut Pr<LE>) -> Result<Psu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_psu8_L(r: &mut Prc<LE>) -> Result<Psu8, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_psu8_L(v: &Psu8, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_psu8_L(v: &Psu8, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_psu8_B(r: &mut Pr<BE>) -> Result<Psu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_psu8_B(r: &mut Prc<BE>) -> Result<Psu8, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_psu8_B(v: &Psu8, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_psu8(v: &Psu8) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_psu8() -> usize { <Psu8 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_etu16_L(r: &mut Pr<LE>) -> Result<Etu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_etu16_L(r: &mut Prc<LE>) -> Result<Etu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_etu16_L(v: &Etu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_etu16_L(v: &Etu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_etu16_B(r: &mut Pr<BE>) -> Result<Etu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_etu16_B(r: &mut Prc<BE>) -> Result<Etu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_etu16_B(v: &Etu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_etu16(v: &Etu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_etu16() -> usize { <Etu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_epu16_L(r: &mut Pr<LE>) -> Result<Epu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_epu16_L(r: &mut Prc<LE>) -> Result<Epu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_epu16_L(v: &Epu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_epu16_L(v: &Epu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_epu16_B(r: &mut Pr<BE>) -> Result<Epu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_epu16_B(r: &mut Prc<BE>) -> Result<Epu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_epu16_B(v: &Epu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_epu16(v: &Epu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_epu16() -> usize { <Epu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_psu16_L(r: &mut Pr<LE>) -> Result<Psu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_psu16_L(r: &mut Prc<LE>) -> Result<Psu16, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_psu16_L(v: &Psu16, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_psu16_L(v: &Psu16, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_psu16_B(r: &mut Pr<BE>) -> Result<Psu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_psu16_B(r: &mut Prc<BE>) -> Result<Psu16, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_psu16_B(v: &Psu16, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_psu16(v: &Psu16) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_psu16() -> usize { <Psu16 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_etu32_L(r: &mut Pr<LE>) -> Result<Etu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_etu32_L(r: &mut Prc<LE>) -> Result<Etu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_etu32_L(v: &Etu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_etu32_L(v: &Etu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_etu32_B(r: &mut Pr<BE>) -> Result<Etu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_etu32_B(r: &mut Prc<BE>) -> Result<Etu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_etu32_B(v: &Etu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_etu32(v: &Etu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_etu32() -> usize { <Etu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_epu32_L(r: &mut Pr<LE>) -> Result<Epu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_epu32_L(r: &mut Prc<LE>) -> Result<Epu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_epu32_L(v: &Epu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_epu32_L(v: &Epu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_epu32_B(r: &mut Pr<BE>) -> Result<Epu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_epu32_B(r: &mut Prc<BE>) -> Result<Epu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_epu32_B(v: &Epu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_epu32(v: &Epu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_epu32() -> usize { <Epu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_psu32_L(r: &mut Pr<LE>) -> Result<Psu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_psu32_L(r: &mut Prc<LE>) -> Result<Psu32, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_psu32_L(v: &Psu32, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_psu32_L(v: &Psu32, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_psu32_B(r: &mut Pr<BE>) -> Result<Psu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_psu32_B(r: &mut Prc<BE>) -> Result<Psu32, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_psu32_B(v: &Psu32, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_psu32(v: &Psu32) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_psu32() -> usize { <Psu32 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_etu64_L(r: &mut Pr<LE>) -> Result<Etu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_etu64_L(r: &mut Prc<LE>) -> Result<Etu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_etu64_L(v: &Etu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_etu64_L(v: &Etu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_etu64_B(r: &mut Pr<BE>) -> Result<Etu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_etu64_B(r: &mut Prc<BE>) -> Result<Etu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_etu64_B(v: &Etu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_etu64(v: &Etu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_etu64() -> usize { <Etu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_epu64_L(r: &mut Pr<LE>) -> Result<Epu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_epu64_L(r: &mut Prc<LE>) -> Result<Epu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_epu64_L(v: &Epu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_epu64_L(v: &Epu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_epu64_B(r: &mut Pr<BE>) -> Result<Epu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_epu64_B(r: &mut Prc<BE>) -> Result<Epu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_epu64_B(v: &Epu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_epu64(v: &Epu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_epu64() -> usize { <Epu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_psu64_L(r: &mut Pr<LE>) -> Result<Psu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_psu64_L(r: &mut Prc<LE>) -> Result<Psu64, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_psu64_L(v: &Psu64, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_psu64_L(v: &Psu64, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_psu64_B(r: &mut Pr<BE>) -> Result<Psu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_psu64_B(r: &mut Prc<BE>) -> Result<Psu64, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_psu64_B(v: &Psu64, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_psu64(v: &Psu64) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_psu64() -> usize { <Psu64 as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_etu64varint_L(r: &mut Pr<LE>) -> Result<Etu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_etu64varint_L(r: &mut Prc<LE>) -> Result<Etu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_etu64varint_L(v: &Etu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_etu64varint_L(v: &Etu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_etu64varint_B(r: &mut Pr<BE>) -> Result<Etu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_etu64varint_B(r: &mut Prc<BE>) -> Result<Etu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_etu64varint_B(v: &Etu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_etu64varint(v: &Etu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_etu64varint() -> usize { <Etu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_epu64varint_L(r: &mut Pr<LE>) -> Result<Epu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_epu64varint_L(r: &mut Prc<LE>) -> Result<Epu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_epu64varint_L(v: &Epu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_epu64varint_L(v: &Epu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_epu64varint_B(r: &mut Pr<BE>) -> Result<Epu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_epu64varint_B(r: &mut Prc<BE>) -> Result<Epu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_epu64varint_B(v: &Epu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_epu64varint(v: &Epu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_epu64varint() -> usize { <Epu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_psu64varint_L(r: &mut Pr<LE>) -> Result<Psu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_psu64varint_L(r: &mut Prc<LE>) -> Result<Psu64varint, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_psu64varint_L(v: &Psu64varint, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_psu64varint_L(v: &Psu64varint, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_psu64varint_B(r: &mut Pr<BE>) -> Result<Psu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_psu64varint_B(r: &mut Prc<BE>) -> Result<Psu64varint, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_psu64varint_B(v: &Psu64varint, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_psu64varint(v: &Psu64varint) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_psu64varint() -> usize { <Psu64varint as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_epfull_L(r: &mut Pr<LE>) -> Result<EpFull, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_epfull_L(r: &mut Prc<LE>) -> Result<EpFull, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_epfull_L(v: &EpFull, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_epfull_L(v: &EpFull, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_epfull_B(r: &mut Pr<BE>) -> Result<EpFull, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_epfull_B(r: &mut Prc<BE>) -> Result<EpFull, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_epfull_B(v: &EpFull, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_epfull(v: &EpFull) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_epfull() -> usize { <EpFull as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_eattr_L(r: &mut Pr<LE>) -> Result<EAttr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_eattr_L(r: &mut Prc<LE>) -> Result<EAttr, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_eattr_L(v: &EAttr, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_eattr_L(v: &EAttr, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_eattr_B(r: &mut Pr<BE>) -> Result<EAttr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_eattr_B(r: &mut Prc<BE>) -> Result<EAttr, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_eattr_B(v: &EAttr, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_eattr(v: &EAttr) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_eattr() -> usize { <EAttr as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_elife_L<'a>(r: &mut Pr<LE>) -> Result<ELife<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_c_d_elife_L<'a>(r: &mut Prc<LE>) -> Result<ELife<'a>, Error> { Readable::<'a, LE>::read_from(r) }
pub fn root_w_d_elife_L<'a>(v: &ELife<'a>, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_elife_L<'a>(v: &ELife<'a>, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_elife_B<'a>(r: &mut Pr<BE>) -> Result<ELife<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_c_d_elife_B<'a>(r: &mut Prc<BE>) -> Result<ELife<'a>, Error> { Readable::<'a, BE>::read_from(r) }
pub fn root_w_d_elife_B<'a>(v: &ELife<'a>, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_elife<'a>(v: &ELife<'a>) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_elife<'a>() -> usize { <ELife<'a> as Readable<'a, LE>>::minimum_bytes_needed() }
pub fn root_r_d_emin_L(r: &mut Pr<LE>) -> Result<EMin, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_emin_L(r: &mut Prc<LE>) -> Result<EMin, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_emin_L(v: &EMin, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_emin_L(v: &EMin, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_emin_B(r: &mut Pr<BE>) -> Result<EMin, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_emin_B(r: &mut Prc<BE>) -> Result<EMin, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_emin_B(v: &EMin, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_emin(v: &EMin) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_emin() -> usize { <EMin as Readable<'_, LE>>::minimum_bytes_needed() }
pub fn root_r_d_ein_L(r: &mut Pr<LE>) -> Result<EIn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_c_d_ein_L(r: &mut Prc<LE>) -> Result<EIn, Error> { Readable::<'_, LE>::read_from(r) }
pub fn root_w_d_ein_L(v: &EIn, w: &mut Pw<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_x_d_ein_L(v: &EIn, w: &mut Pwc<LE>) -> Result<(), Error> { Writable::<LE>::write_to(v, w) }
pub fn root_r_d_ein_B(r: &mut Pr<BE>) -> Result<EIn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_c_d_ein_B(r: &mut Prc<BE>) -> Result<EIn, Error> { Readable::<'_, BE>::read_from(r) }
pub fn root_w_d_ein_B(v: &EIn, w: &mut Pw<BE>) -> Result<(), Error> { Writable::<BE>::write_to(v, w) }
pub fn root_n_d_ein(v: &EIn) -> Result<usize, Error> { Writable::<LE>::bytes_needed(v) }
pub fn root_m_d_ein() -> usize { <EIn as Readable<'_, LE>>::minimum_bytes_needed() }
#[path = "cb.rs"]
pub mod cb;
#[path = "errs.rs"]
pub mod errs;
