//! The functions a user calls: each of them is to do the same thing with the context it is documented to use.
use crate::model::*;
use speedy::{Context, Endianness, Error, IsEof, LittleEndian, Readable, Reader, Writable, Writer};
use std::io;

/// The input or output, and what has been done with it.
pub struct Tw {
    base: *const u8,
    len: usize,
    /// what the value under test has read or written, and how that ended
    ran: bool, ok: bool, at: usize, val: u32,
    /// bytes the stream has handed out or taken, and what is left in the buffer
    pos: usize, start: usize, cap: usize,
    failed: bool,
    endian: Endianness, tag: u64,
    max: usize, seek: bool,
}
fn tw() -> &'static mut Tw { unsafe { &mut *model_world::<Tw>() } }
fn state(data: &[u8]) -> Tw {
    Tw { base: data.as_ptr(), len: data.len(), ran: false, ok: false, at: 0, val: 0, pos: 0, start: 0, cap: 0, failed: false, endian: Endianness::LittleEndian, tag: 0, max: usize::MAX, seek: true }
}
pub trait Tc: Context<Error = Error> {
    fn seen(&mut self);
}
impl Tc for LittleEndian {
    fn seen(&mut self) {}
}
/// a context of the user
pub struct Mc { endian: Endianness, tag: u64, n: usize }
impl Context for Mc {
    type Error = Error;
    fn endianness(&self) -> Endianness { self.endian }
}
impl Tc for Mc {
    fn seen(&mut self) {
        model_check("another context than the given one is used", self.tag == tw().tag);
        self.n += 1;
    }
}
fn le(p: *const u8, e: Endianness) -> u32 {
    let v = unsafe { (p as *const u32).read_unaligned() };
    if e == Endianness::LittleEndian { u32::from_le(v) } else { u32::from_be(v) }
}

// ---- reading --------------------------------------------------------------------------------------------------------
pub struct TopR(u32);
impl<'a, C: Tc> Readable<'a, C> for TopR {
    fn read_from<R: Reader<'a, C>>(reader: &mut R) -> Result<Self, Error> {
        let w = tw();
        model_check("the value is read twice", !w.ran);
        w.ran = true;
        model_check("the byte order is not that of the context", reader.endianness() == w.endian);
        reader.context_mut().seen();
        if w.seek {
            let k: usize = model_any();
            model_assume(k <= isize::MAX as usize);
            w.at = k;
            reader.skip_bytes(k)?;
        }
        w.val = reader.read_u32()?;
        w.ok = true;
        Ok(TopR(w.val))
    }
}
fn judge(r: Result<TopR, Error>) -> bool {
    let w = tw();
    model_check("the value is not read", w.ran);
    match r {
        Ok(v) => {
            model_check("a failure of the source is ignored", !w.failed);
            model_check("another value than the decoded one is returned", w.ok && v.0 == w.val);
            model_check("more bytes are provided than the input has", w.at + 4 <= w.len);
            if w.at + 4 <= w.len { model_check("the value is not the one encoded", v.0 == le(unsafe { w.base.add(w.at) }, w.endian)); }
            true
        }
        Err(e) => {
            model_check("a decoded value is turned into an error", !w.ok);
            if w.failed { model_iserr("the error of the source is not passed on", &e); }
            else {
                model_check("available bytes are refused", w.at + 4 > w.len);
                model_check("running out of input is not reported as an end of input", e.is_eof());
            }
            false
        }
    }
}
fn used(r: (Result<TopR, Error>, usize)) {
    let at = tw().at;
    if judge(r.0) { model_check("the reported length is not what was consumed", r.1 == at + 4); }
    else { model_check("more is reported as consumed than there is", r.1 <= tw().len); }
}
macro_rules! top {
    ($($name:ident |$d:ident, $c:ident| $body:block;)*) => { $(
        pub fn $name($d: &[u8], big: bool) {
            let mut w = state($d);
            model_set_world(&mut w);
            let endian = if big { Endianness::BigEndian } else { Endianness::LittleEndian };
            let mut $c = Mc { endian, tag: model_any(), n: 0 };
            $body
        }
    )* };
}
fn with(c: &Mc) { let w = tw(); w.endian = c.endian; w.tag = c.tag; }
fn noted(c: &Mc) { model_check("changes to the context are lost", c.n == 1); }
top! {
    root_i_top_buf |d, c| { judge(TopR::read_from_buffer(d)); };
    root_i_top_buf_len |d, c| { used(TopR::read_with_length_from_buffer(d)); };
    root_i_top_copy |d, c| { judge(TopR::read_from_buffer_copying_data(d)); };
    root_i_top_copy_len |d, c| { used(TopR::read_with_length_from_buffer_copying_data(d)); };
    root_i_top_buf_ctx |d, c| { with(&c); judge(TopR::read_from_buffer_with_ctx(c, d)); };
    root_i_top_buf_len_ctx |d, c| { with(&c); used(TopR::read_with_length_from_buffer_with_ctx(c, d)); };
    root_i_top_copy_ctx |d, c| { with(&c); judge(TopR::read_from_buffer_copying_data_with_ctx(c, d)); };
    root_i_top_copy_len_ctx |d, c| { with(&c); used(TopR::read_with_length_from_buffer_copying_data_with_ctx(c, d)); };
    root_i_top_copy_len_mut |d, c| { with(&c); used(TopR::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut c, d)); noted(&c); };
    root_i_top_unbuf |d, c| { exact(); judge(TopR::read_from_stream_unbuffered(Ts)); exactly(); };
    root_i_top_unbuf_ctx |d, c| { with(&c); exact(); judge(TopR::read_from_stream_unbuffered_with_ctx(c, Ts)); exactly(); };
    root_i_top_buffered |d, c| { queue(d); judge(TopR::read_from_stream_buffered(Ts)); };
    root_i_top_buffered_ctx |d, c| { with(&c); queue(d); judge(TopR::read_from_stream_buffered_with_ctx(c, Ts)); };
}
pub struct Ts;
fn exact() { let w = tw(); w.max = 4; w.seek = false; }
fn exactly() {
    let w = tw();
    if w.ok { model_check("more is read from the stream than is needed", w.pos == w.at + 4); }
}
fn queue(d: &[u8]) { let w = tw(); w.seek = false; model_source(d, &mut w.pos, &mut w.start, &mut w.cap); }
impl io::Read for Ts {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let w = tw();
        model_assume(w.pos <= w.len);
        model_check("the stream is read after it failed", !w.failed);
        model_check("more is read from the stream than is needed", buf.len() <= w.max.saturating_sub(w.pos));
        if model_any() {
            let e: io::Error = model_err();
            if e.kind() != io::ErrorKind::Interrupted { w.failed = true; }
            return Err(e);
        }
        let n: usize = model_any();
        model_assume(n <= buf.len());
        model_assume(n <= w.len - w.pos);
        if n == 0 && !buf.is_empty() { model_assume(w.pos == w.len); }
        unsafe { std::ptr::copy_nonoverlapping(w.base.add(w.pos), buf.as_mut_ptr(), n) }
        w.pos += n;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let w = tw();
        model_assume(w.pos <= w.len);
        model_check("the stream is read after it failed", !w.failed);
        model_check("more is read from the stream than is needed", buf.len() <= w.max.saturating_sub(w.pos));
        if model_any() { w.failed = true; return Err(model_err()); }
        if buf.len() > w.len - w.pos { w.pos = w.len; w.start = w.len; return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
        unsafe { std::ptr::copy_nonoverlapping(w.base.add(w.pos), buf.as_mut_ptr(), buf.len()) }
        w.pos += buf.len();
        w.start = w.pos;
        Ok(())
    }
}

// ---- writing --------------------------------------------------------------------------------------------------------
pub struct TopW<'x>(u32, &'x [u8]);
impl<'x, C: Tc> Writable<C> for TopW<'x> {
    fn write_to<W: ?Sized + Writer<C>>(&self, writer: &mut W) -> Result<(), Error> {
        let w = tw();
        model_check("the value is written twice", !w.ran);
        w.ran = true;
        model_check("the byte order is not that of the context", writer.endianness() == w.endian);
        writer.context_mut().seen();
        writer.write_u32(self.0)?;
        writer.write_bytes(self.1)?;
        w.ok = true;
        Ok(())
    }
    fn bytes_needed(&self) -> Result<usize, Error> { Ok(4 + self.1.len()) }
}
/// what is expected in the output for (v, d)
fn expect(p: *const u8, n: usize, v: u32, d: &[u8]) {
    let w = tw();
    model_check("the wrong number of bytes is written", n == 4 + d.len());
    if n >= 4 {
        model_check("the value is not written as encoded", le(p, w.endian) == v);
        if n == 4 + d.len() { unsafe { model_same("bytes written", p.add(4), d.as_ptr(), d.len()) } }
    }
}
fn wrote(r: Result<(), Error>, out: &[u8], v: u32, d: &[u8]) {
    let w = tw();
    match r {
        Ok(()) => {
            model_check("the value is not written", w.ok);
            model_check("success is reported although the buffer is too small", 4 + d.len() <= out.len());
            if 4 + d.len() <= out.len() { expect(out.as_ptr(), 4 + d.len(), v, d); }
        }
        Err(_) => { model_check("room for the output is refused", 4 + d.len() > out.len()); }
    }
}
fn vector(r: Result<Vec<u8>, Error>, v: u32, d: &[u8]) {
    match r {
        Ok(x) => { model_check("the value is not written", tw().ok); expect(x.as_ptr(), x.len(), v, d); }
        Err(_) => { model_check("writing fails without a cause", false); }
    }
}
macro_rules! topw {
    ($($name:ident |$v:ident, $d:ident, $out:ident, $c:ident| $body:block;)*) => { $(
        pub fn $name($v: u32, $d: &[u8], $out: &mut [u8], big: bool) {
            model_assume($d.len() <= isize::MAX as usize - 4);
            let mut w = state($d);
            model_set_world(&mut w);
            let endian = if big { Endianness::BigEndian } else { Endianness::LittleEndian };
            let mut $c = Mc { endian, tag: model_any(), n: 0 };
            $body
        }
    )* };
}
topw! {
    root_i_top_wbuf |v, d, out, c| { let r = TopW(v, d).write_to_buffer(out); wrote(r, out, v, d); };
    root_i_top_wbuf_ctx |v, d, out, c| { with(&c); let r = TopW(v, d).write_to_buffer_with_ctx(c, out); wrote(r, out, v, d); };
    root_i_top_wbuf_mut |v, d, out, c| { with(&c); let r = TopW(v, d).write_to_buffer_with_ctx_mut(&mut c, out); if r.is_ok() { noted(&c); } wrote(r, out, v, d); };
    root_i_top_wvec |v, d, out, c| { vector(TopW(v, d).write_to_vec(), v, d); };
    root_i_top_wvec_ctx |v, d, out, c| { with(&c); vector(TopW(v, d).write_to_vec_with_ctx(c), v, d); };
    root_i_top_wvec_mut |v, d, out, c| { with(&c); let r = TopW(v, d).write_to_vec_with_ctx_mut(&mut c); noted(&c); vector(r, v, d); };
    root_i_top_wst |v, d, out, c| { let r = TopW(v, d).write_to_stream(&mut *out); sent(r, out, v, d); };
    root_i_top_wst_ctx |v, d, out, c| { with(&c); let r = TopW(v, d).write_to_stream_with_ctx(c, &mut *out); sent(r, out, v, d); };
}
/// a slice is a stream which takes as much as fits
fn sent(r: Result<(), Error>, out: &[u8], v: u32, d: &[u8]) { wrote(r, out, v, d) }
