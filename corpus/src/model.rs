//! Probe functions.  They have no behaviour of their own: the analyser gives them their abstract
//! semantics (see engine/models.py).  Nothing in this crate is ever run.
#![allow(unused_variables)]
use speedy::{Context, Readable, Reader, Writable, Writer};

pub fn model_read(out: &mut [u8]) -> bool { unimplemented!() }
pub fn model_peek(out: &mut [u8]) -> bool { unimplemented!() }
pub fn model_can(n: usize) -> bool { unimplemented!() }
pub fn model_borrow<'a>(n: usize) -> Option<&'a [u8]> { unimplemented!() }
pub fn model_borrow_eof<'a>() -> &'a [u8] { unimplemented!() }
pub fn model_err<E>() -> E { unimplemented!() }
pub fn model_write(data: &[u8]) -> bool { unimplemented!() }
pub fn model_canw(n: usize) -> bool { unimplemented!() }
pub fn model_any<T>() -> T { unimplemented!() }
pub fn model_assume(c: bool) { unimplemented!() }
pub fn model_check(what: &'static str, c: bool) { unimplemented!() }
pub fn model_iserr<T>(what: &'static str, e: &T) { unimplemented!() }
pub fn model_source(data: &[u8], pos: *mut usize, start: *mut usize, cap: *mut usize) { unimplemented!() }
pub fn model_same(what: &'static str, a: *const u8, b: *const u8, n: usize) { unimplemented!() }
pub fn model_elem_read<const K: usize, T>() -> Option<T> { unimplemented!() }
pub fn model_elem_write<const K: usize, T, W: ?Sized>(v: &T, w: &mut W) -> bool { unimplemented!() }
pub fn model_elem_bytes<T>(v: &T) -> usize { unimplemented!() }
pub fn model_live(born: bool) { unimplemented!() }
pub fn model_alive() -> usize { unimplemented!() }
pub fn model_elem_drop<T>(v: &mut T) { unimplemented!() }

/// A reader about which nothing is known: every request may succeed or fail.
pub struct Pr<C> { pub ctx: C }
impl<'a, C: Context> Reader<'a, C> for Pr<C> {
    fn read_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> { if model_read(out) { Ok(()) } else { Err(model_err()) } }
    fn peek_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> { if model_peek(out) { Ok(()) } else { Err(model_err()) } }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}

/// The same with every optional capability of an in-memory reader.
pub struct Prc<C> { pub ctx: C }
impl<'a, C: Context> Reader<'a, C> for Prc<C> {
    fn read_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> { if model_read(out) { Ok(()) } else { Err(model_err()) } }
    fn peek_bytes(&mut self, out: &mut [u8]) -> Result<(), C::Error> { if model_peek(out) { Ok(()) } else { Err(model_err()) } }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
    fn can_read_at_least(&self, n: usize) -> Option<bool> { Some(model_can(n)) }
    fn read_bytes_borrowed(&mut self, n: usize) -> Option<Result<&'a [u8], C::Error>> {
        Some(match model_borrow(n) { Some(s) => Ok(s), None => Err(model_err()) })
    }
    fn read_bytes_borrowed_from_reader<'r>(&'r mut self, n: usize) -> Option<Result<&'r [u8], C::Error>> {
        Some(match model_borrow(n) { Some(s) => Ok(s), None => Err(model_err()) })
    }
    fn read_bytes_borrowed_until_eof(&mut self) -> Option<&'a [u8]> { Some(model_borrow_eof()) }
}

/// A writer about which nothing is known: every write may succeed or fail.
pub struct Pw<C> { pub ctx: C }
impl<C: Context> Writer<C> for Pw<C> {
    fn write_bytes(&mut self, data: &[u8]) -> Result<(), C::Error> { if model_write(data) { Ok(()) } else { Err(model_err()) } }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
}

/// The same with a known capacity.
pub struct Pwc<C> { pub ctx: C }
impl<C: Context> Writer<C> for Pwc<C> {
    fn write_bytes(&mut self, data: &[u8]) -> Result<(), C::Error> { if model_write(data) { Ok(()) } else { Err(model_err()) } }
    fn context(&self) -> &C { &self.ctx }
    fn context_mut(&mut self) -> &mut C { &mut self.ctx }
    fn can_write_at_least(&self, n: usize) -> Option<bool> { Some(model_canw(n)) }
}

/// An opaque element type: its encoding is unknown, needs at least `MIN` bytes, and it owns a resource.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct El<const K: usize, const MIN: usize> { pub token: [u64; 3] }
impl<const K: usize, const MIN: usize> Drop for El<K, MIN> { fn drop(&mut self) { model_elem_drop(self) } }
impl<'a, C: Context, const K: usize, const MIN: usize> Readable<'a, C> for El<K, MIN> {
    fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
        match model_elem_read::<K, Self>() { Some(v) => Ok(v), None => Err(model_err()) }
    }
    fn minimum_bytes_needed() -> usize { MIN }
}
impl<C: Context, const K: usize, const MIN: usize> Writable<C> for El<K, MIN> {
    fn write_to<T: ?Sized + Writer<C>>(&self, writer: &mut T) -> Result<(), C::Error> {
        if model_elem_write::<K, Self, T>(self, writer) { Ok(()) } else { Err(model_err()) }
    }
    fn bytes_needed(&self) -> Result<usize, C::Error> { Ok(model_elem_bytes(self)) }
}
/// the specification demands that these bytes hold values
pub fn model_init(what: &'static str, p: *const u8, n: usize) { unimplemented!() }
/// where the state of the world outside is kept
pub fn model_set_world<W>(w: *mut W) { unimplemented!() }
pub fn model_world<W>() -> *mut W { unimplemented!() }

/// An element without a size which owns a resource all the same.
pub struct Ez;
impl Drop for Ez { fn drop(&mut self) { model_live(false) } }
impl<'a, C: Context> Readable<'a, C> for Ez {
    fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, C::Error> {
        reader.read_u8()?;
        model_live(true);
        Ok(Ez)
    }
    fn minimum_bytes_needed() -> usize { 1 }
}
