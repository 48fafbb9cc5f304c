//! Entry points for the readers, writers and top-level functions of speedy itself.  What the
//! specification demands of each is written next to the call as `model_check`/`model_same`; the
//! analyser decides these on every abstract path.  Nothing here is ever run.
use crate::model::*;
use speedy::{Context, Endianness, Error, IsEof, Readable, Reader, Writable, Writer};
use std::io;

/// What the operation under test needs to know: the whole input, and where to leave the expected position.
#[derive(Clone, Copy)]
pub struct Cx { pub base: *const u8, pub len: usize, pub pos: *mut usize }
impl Context for Cx {
    type Error = Error;
    fn endianness(&self) -> Endianness { Endianness::NATIVE }
}

/// move to an arbitrary position of the input
fn seek<'a, R: Reader<'a, Cx>>(r: &mut R) -> Result<usize, Error> {
    let cx = *r.context();
    let k: usize = model_any();
    match r.skip_bytes(k) {
        Ok(()) => { model_check("skipping past the end of the input succeeds", k <= cx.len); at(cx, k); Ok(k) }
        Err(e) => { short(&e); model_check("skipping available input fails", k > cx.len); Err(e) }
    }
}
fn at(cx: Cx, pos: usize) { unsafe { *cx.pos = pos } }
fn short(e: &Error) { model_check("running out of input is not reported as an end of input", e.is_eof()) }

macro_rules! op {
    ($name:ident, |$r:ident, $cx:ident, $k:ident| $body:block) => {
        pub struct $name;
        impl<'a> Readable<'a, Cx> for $name {
            fn read_from<R: Reader<'a, Cx>>($r: &mut R) -> Result<Self, Error> {
                let $cx = *$r.context();
                let $k = seek($r)?;
                $body
            }
        }
    };
}

macro_rules! outcome {
    ($res:expr, $cx:ident, $k:ident, $n:expr, $used:expr, |$v:pat_param| $ok:block) => {{
        let n: usize = $n;
        match $res {
            Ok($v) => {
                model_check("more bytes are provided than the input has", n <= $cx.len - $k);
                if n <= $cx.len - $k { $ok; at($cx, $k + $used); }
                Ok(Self)
            }
            Err(e) => {
                let e: Error = e;
                model_check("available bytes are refused", n > $cx.len - $k);
                short(&e);
                Err(e)
            }
        }
    }};
}

op!(OpRead, |r, cx, k| {
    let out: &mut [u8] = model_any();
    let (p, n) = (out.as_ptr(), out.len());
    outcome!(r.read_bytes(out), cx, k, n, n, |()| { unsafe { model_same("bytes read", p, cx.base.add(k), n) } })
});
op!(OpReadPtr, |r, cx, k| {
    let out: &mut [u8] = model_any();
    let (p, n) = (out.as_mut_ptr(), out.len());
    outcome!(unsafe { r.read_bytes_into_ptr(p, n) }, cx, k, n, n, |()| { unsafe { model_same("bytes read", p, cx.base.add(k), n) } })
});
op!(OpPeek, |r, cx, k| {
    let out: &mut [u8] = model_any();
    let (p, n) = (out.as_ptr(), out.len());
    outcome!(r.peek_bytes(out), cx, k, n, 0, |()| { unsafe { model_same("bytes peeked", p, cx.base.add(k), n) } })
});
op!(OpPeekPtr, |r, cx, k| {
    let out: &mut [u8] = model_any();
    let (p, n) = (out.as_mut_ptr(), out.len());
    outcome!(unsafe { r.peek_bytes_into_ptr(p, n) }, cx, k, n, 0, |()| { unsafe { model_same("bytes peeked", p, cx.base.add(k), n) } })
});
op!(OpSkip, |r, cx, k| {
    let n: usize = model_any();
    outcome!(r.skip_bytes(n), cx, k, n, n, |()| {})
});
op!(OpCan, |r, cx, k| {
    let n: usize = model_any();
    if let Some(yes) = r.can_read_at_least(n) { model_check("the remaining length is misjudged", yes == (n <= cx.len - k)); }
    Ok(Self)
});
op!(OpBorrow, |r, cx, k| {
    let n: usize = model_any();
    match r.read_bytes_borrowed(n) {
        None => Ok(Self),
        Some(res) => outcome!(res, cx, k, n, n, |s| {
            model_check("the borrowed slice has another length than requested", s.len() == n);
            model_check("the borrowed slice is not the input at the current position", s.as_ptr() == unsafe { cx.base.add(k) });
        }),
    }
});
op!(OpBorrowReader, |r, cx, k| {
    let n: usize = model_any();
    match r.read_bytes_borrowed_from_reader(n) {
        None => Ok(Self),
        Some(res) => outcome!(res, cx, k, n, n, |s| {
            model_check("the borrowed slice has another length than requested", s.len() == n);
            model_check("the borrowed slice is not the input at the current position", s.as_ptr() == unsafe { cx.base.add(k) });
        }),
    }
});
op!(OpRest, |r, cx, k| {
    if let Some(s) = r.read_bytes_borrowed_until_eof() {
        model_check("the borrowed rest does not reach the end of the input", s.len() == cx.len - k);
        model_check("the borrowed rest does not start at the current position", s.as_ptr() == unsafe { cx.base.add(k) });
        at(cx, cx.len);
    }
    Ok(Self)
});

macro_rules! mem_roots {
    ($($op:ident $b:ident $c:ident;)*) => { $(
        pub fn $b<'a>(input: &'a [u8]) {
            let mut pos = 0usize;
            let cx = Cx { base: input.as_ptr(), len: input.len(), pos: &mut pos };
            let (_, used) = <$op as Readable<'a, Cx>>::read_with_length_from_buffer_with_ctx(cx, input);
            model_check("the reported length is not what was consumed", used == pos);
        }
        pub fn $c<'a>(input: &'a [u8]) {
            let mut pos = 0usize;
            let mut cx = Cx { base: input.as_ptr(), len: input.len(), pos: &mut pos };
            let (_, used) = <$op as Readable<'a, Cx>>::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut cx, input);
            model_check("the reported length is not what was consumed", used == pos);
        }
    )* };
}
mem_roots! {
    OpRead root_i_mem_read root_i_copy_read;
    OpReadPtr root_i_mem_read_ptr root_i_copy_read_ptr;
    OpPeek root_i_mem_peek root_i_copy_peek;
    OpPeekPtr root_i_mem_peek_ptr root_i_copy_peek_ptr;
    OpSkip root_i_mem_skip root_i_copy_skip;
    OpCan root_i_mem_can root_i_copy_can;
    OpBorrow root_i_mem_borrow root_i_copy_borrow;
    OpBorrowReader root_i_mem_borrow_reader root_i_copy_borrow_reader;
    OpRest root_i_mem_rest root_i_copy_rest;
}

// ---- integers through speedy's own readers ------------------------------------------------------------------------
macro_rules! ints {
    ($($op:ident $t:ty, $read:ident $bits:expr, $used:expr, $b:ident $c:ident;)*) => { $(
        op!($op, |r, cx, k| {
            let n = std::mem::size_of::<$t>();
            outcome!(r.$read(), cx, k, n, if $used { n } else { 0 }, |v| {
                let raw = unsafe { (cx.base.add(k) as *const $t).read_unaligned() };
                let same = $bits;
                model_check("the value is not the one encoded at the current position", same(v, raw));
            })
        });
        pub fn $b<'a>(input: &'a [u8]) {
            let mut pos = 0usize;
            let cx = Cx { base: input.as_ptr(), len: input.len(), pos: &mut pos };
            let (_, used) = <$op as Readable<'a, Cx>>::read_with_length_from_buffer_with_ctx(cx, input);
            model_check("the reported length is not what was consumed", used == pos);
        }
        pub fn $c<'a>(input: &'a [u8]) {
            let mut pos = 0usize;
            let mut cx = Cx { base: input.as_ptr(), len: input.len(), pos: &mut pos };
            let (_, used) = <$op as Readable<'a, Cx>>::read_with_length_from_buffer_copying_data_with_ctx_mut(&mut cx, input);
            model_check("the reported length is not what was consumed", used == pos);
        }
    )* };
}
ints! {
    ReadU8 u8, read_u8 |a: u8, b: u8| a == b, true, root_i_mem_read_u8 root_i_copy_read_u8;
    ReadU16 u16, read_u16 |a: u16, b: u16| a == b, true, root_i_mem_read_u16 root_i_copy_read_u16;
    ReadU32 u32, read_u32 |a: u32, b: u32| a == b, true, root_i_mem_read_u32 root_i_copy_read_u32;
    ReadU64 u64, read_u64 |a: u64, b: u64| a == b, true, root_i_mem_read_u64 root_i_copy_read_u64;
    ReadU128 u128, read_u128 |a: u128, b: u128| a == b, true, root_i_mem_read_u128 root_i_copy_read_u128;
    ReadI8 i8, read_i8 |a: i8, b: i8| a == b, true, root_i_mem_read_i8 root_i_copy_read_i8;
    ReadI16 i16, read_i16 |a: i16, b: i16| a == b, true, root_i_mem_read_i16 root_i_copy_read_i16;
    ReadI32 i32, read_i32 |a: i32, b: i32| a == b, true, root_i_mem_read_i32 root_i_copy_read_i32;
    ReadI64 i64, read_i64 |a: i64, b: i64| a == b, true, root_i_mem_read_i64 root_i_copy_read_i64;
    ReadI128 i128, read_i128 |a: i128, b: i128| a == b, true, root_i_mem_read_i128 root_i_copy_read_i128;
    ReadF32 u32, read_f32 |a: f32, b: u32| a.to_bits() == b, true, root_i_mem_read_f32 root_i_copy_read_f32;
    ReadF64 u64, read_f64 |a: f64, b: u64| a.to_bits() == b, true, root_i_mem_read_f64 root_i_copy_read_f64;
    PeekU8 u8, peek_u8 |a: u8, b: u8| a == b, false, root_i_mem_peek_u8 root_i_copy_peek_u8;
    PeekU16 u16, peek_u16 |a: u16, b: u16| a == b, false, root_i_mem_peek_u16 root_i_copy_peek_u16;
    PeekU32 u32, peek_u32 |a: u32, b: u32| a == b, false, root_i_mem_peek_u32 root_i_copy_peek_u32;
    PeekU64 u64, peek_u64 |a: u64, b: u64| a == b, false, root_i_mem_peek_u64 root_i_copy_peek_u64;
    PeekU128 u128, peek_u128 |a: u128, b: u128| a == b, false, root_i_mem_peek_u128 root_i_copy_peek_u128;
    PeekI8 i8, peek_i8 |a: i8, b: i8| a == b, false, root_i_mem_peek_i8 root_i_copy_peek_i8;
    PeekI16 i16, peek_i16 |a: i16, b: i16| a == b, false, root_i_mem_peek_i16 root_i_copy_peek_i16;
    PeekI32 i32, peek_i32 |a: i32, b: i32| a == b, false, root_i_mem_peek_i32 root_i_copy_peek_i32;
    PeekI64 i64, peek_i64 |a: i64, b: i64| a == b, false, root_i_mem_peek_i64 root_i_copy_peek_i64;
    PeekI128 i128, peek_i128 |a: i128, b: i128| a == b, false, root_i_mem_peek_i128 root_i_copy_peek_i128;
    PeekF32 u32, peek_f32 |a: f32, b: u32| a.to_bits() == b, false, root_i_mem_peek_f32 root_i_copy_peek_f32;
    PeekF64 u64, peek_f64 |a: f64, b: u64| a.to_bits() == b, false, root_i_mem_peek_f64 root_i_copy_peek_f64;
}

// ---- streams --------------------------------------------------------------------------------------------------------
/// The state of an arbitrary stream holding `len` bytes at `src`: the bytes up to `pos` have been handed out, those
/// up to `start` have also been consumed, and those in between are buffered in a queue with room for `cap` bytes.
pub struct Stream { src: *const u8, len: usize, pos: usize, start: usize, cap: usize, want: usize, failed: bool }
#[derive(Clone, Copy)]
pub struct Sx { s: *mut Stream, exact: bool }
impl Context for Sx {
    type Error = Error;
    fn endianness(&self) -> Endianness { Endianness::NATIVE }
}
pub struct Ps { s: *mut Stream }
impl Ps {
    fn begin(&self, buf: &[u8]) {
        let n = buf.len();
        let s = unsafe { &mut *self.s };
        model_init("the stream is handed uninitialised memory", buf.as_ptr(), n);
        model_assume(s.pos <= s.len);
        model_check("the stream is read after it failed", !s.failed);
        model_check("more is read from the stream than is needed", n <= s.want.saturating_sub(s.pos));
    }
    fn fetch(&mut self, buf: &mut [u8], n: usize) {
        let s = unsafe { &mut *self.s };
        unsafe { std::ptr::copy_nonoverlapping(s.src.add(s.pos), buf.as_mut_ptr(), n) }
        s.pos += n;
    }
    /// an arbitrary failure; being interrupted is none, the reader has to try again
    fn fail(&mut self) -> io::Error {
        let e: io::Error = model_err();
        if e.kind() != io::ErrorKind::Interrupted { unsafe { (*self.s).failed = true } }
        e
    }
}
impl io::Read for Ps {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.begin(buf);
        let s = unsafe { &mut *self.s };
        if model_any() { return Err(self.fail()); }
        let n: usize = model_any();
        model_assume(n <= buf.len());
        model_assume(n <= s.len - s.pos);
        if n == 0 && !buf.is_empty() { model_assume(s.pos == s.len); }
        self.fetch(buf, n);
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        self.begin(buf);
        let s = unsafe { &mut *self.s };
        model_check("the stream is read past bytes which are still buffered", s.start == s.pos);
        if model_any() { s.failed = true; return Err(model_err()); }
        if buf.len() > s.len - s.pos { s.pos = s.len; s.start = s.len; return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
        self.fetch(buf, buf.len());
        s.start = s.pos;
        Ok(())
    }
}

/// bring the reader into an arbitrary reachable state
fn s_state<'a, R: Reader<'a, Sx>>(r: &R) -> Sx {
    let cx = *r.context();
    let s = unsafe { &mut *cx.s };
    model_check("the buffer is not empty at first", s.pos == 0 && s.start == 0);
    s.pos = model_any();
    s.start = model_any();
    s.cap = model_any();
    model_assume(s.pos <= s.len);
    model_assume(s.start <= s.pos);
    model_assume(s.pos - s.start <= s.cap);
    cx
}
fn s_op<'a, R: Reader<'a, Sx>>(r: &mut R, take: bool, op: impl FnOnce(&mut R, &mut [u8]) -> Result<(), Error>) -> Result<(), Error> {
    let out: &mut [u8] = model_any();
    let (p, n) = (out.as_ptr(), out.len());
    s_run(r, n, take, |r| op(r, out), |_, q| unsafe { model_same("bytes from the stream", p, q, n) })
}
fn s_run<'a, T, R: Reader<'a, Sx>>(r: &mut R, n: usize, take: bool, op: impl FnOnce(&mut R) -> Result<T, Error>, same: impl FnOnce(T, *const u8)) -> Result<(), Error> {
    let cx = s_state(r);
    let s = unsafe { &mut *cx.s };
    let (start, pos) = (s.start, s.pos);
    s.want = if !cx.exact { usize::MAX } else if n <= pos - start { pos } else { start + n };
    let res = op(r);
    model_assume(s.pos <= s.len);
    match res {
        Ok(v) => {
            model_check("a failure of the stream is ignored", !s.failed);
            model_check("more bytes are provided than the stream has", n <= s.len - start);
            if n <= s.len - start { same(v, unsafe { s.src.add(start) }) }
            model_check("the wrong number of bytes is consumed", s.start == if take { start + n } else { start });
            Ok(())
        }
        Err(e) => {
            if s.failed { model_iserr("the error of the stream is not passed on", &e); }
            else { model_check("available bytes are refused", n > s.len - start); short(&e); }
            if !take { model_check("bytes are consumed although none were to be", s.start == start); }
            Err(e)
        }
    }
}

macro_rules! sop {
    ($name:ident, $u:ident $b:ident, |$r:ident| $body:block) => {
        pub struct $name;
        impl<'a> Readable<'a, Sx> for $name {
            fn read_from<R: Reader<'a, Sx>>($r: &mut R) -> Result<Self, Error> { $body Ok(Self) }
        }
        pub fn $u(data: &[u8]) {
            let mut s = Stream { src: data.as_ptr(), len: data.len(), pos: 0, start: 0, cap: 0, want: 0, failed: false };
            let cx = Sx { s: &mut s, exact: true };
            model_source(data, &mut s.pos, &mut s.start, &mut s.cap);
            let _ = <$name as Readable<Sx>>::read_from_stream_unbuffered_with_ctx(cx, Ps { s: cx.s });
        }
        pub fn $b(data: &[u8]) {
            let mut s = Stream { src: data.as_ptr(), len: data.len(), pos: 0, start: 0, cap: 0, want: 0, failed: false };
            let cx = Sx { s: &mut s, exact: false };
            model_source(data, &mut s.pos, &mut s.start, &mut s.cap);
            let _ = <$name as Readable<Sx>>::read_from_stream_buffered_with_ctx(cx, Ps { s: cx.s });
        }
    };
}
sop!(StRead, root_i_unbuf_read root_i_buf_read, |r| { s_op(r, true, |r, out| r.read_bytes(out))?; });
sop!(StReadPtr, root_i_unbuf_read_ptr root_i_buf_read_ptr, |r| { s_op(r, true, |r, out| unsafe { r.read_bytes_into_ptr(out.as_mut_ptr(), out.len()) })?; });
sop!(StPeek, root_i_unbuf_peek root_i_buf_peek, |r| { s_op(r, false, |r, out| r.peek_bytes(out))?; });
sop!(StPeekPtr, root_i_unbuf_peek_ptr root_i_buf_peek_ptr, |r| { s_op(r, false, |r, out| unsafe { r.peek_bytes_into_ptr(out.as_mut_ptr(), out.len()) })?; });
macro_rules! sints {
    ($($op:ident $t:ty, $read:ident $take:expr, $u:ident $b:ident;)*) => { $(
        sop!($op, $u $b, |r| {
            let n = std::mem::size_of::<$t>();
            s_run(r, n, $take, |r| r.$read(), |v, q| unsafe {
                model_same("the value is not the one encoded at the current position", &v as *const $t as *const u8, q, n)
            })?;
        });
    )* };
}
sints! {
    StReadU8 u8, read_u8 true, root_i_unbuf_read_u8 root_i_buf_read_u8;
    StReadU16 u16, read_u16 true, root_i_unbuf_read_u16 root_i_buf_read_u16;
    StReadU32 u32, read_u32 true, root_i_unbuf_read_u32 root_i_buf_read_u32;
    StReadU64 u64, read_u64 true, root_i_unbuf_read_u64 root_i_buf_read_u64;
    StReadU128 u128, read_u128 true, root_i_unbuf_read_u128 root_i_buf_read_u128;
    StReadI8 i8, read_i8 true, root_i_unbuf_read_i8 root_i_buf_read_i8;
    StReadI16 i16, read_i16 true, root_i_unbuf_read_i16 root_i_buf_read_i16;
    StReadI32 i32, read_i32 true, root_i_unbuf_read_i32 root_i_buf_read_i32;
    StReadI64 i64, read_i64 true, root_i_unbuf_read_i64 root_i_buf_read_i64;
    StReadI128 i128, read_i128 true, root_i_unbuf_read_i128 root_i_buf_read_i128;
    StReadF32 f32, read_f32 true, root_i_unbuf_read_f32 root_i_buf_read_f32;
    StReadF64 f64, read_f64 true, root_i_unbuf_read_f64 root_i_buf_read_f64;
    StPeekU8 u8, peek_u8 false, root_i_unbuf_peek_u8 root_i_buf_peek_u8;
    StPeekU16 u16, peek_u16 false, root_i_unbuf_peek_u16 root_i_buf_peek_u16;
    StPeekU32 u32, peek_u32 false, root_i_unbuf_peek_u32 root_i_buf_peek_u32;
    StPeekU64 u64, peek_u64 false, root_i_unbuf_peek_u64 root_i_buf_peek_u64;
    StPeekU128 u128, peek_u128 false, root_i_unbuf_peek_u128 root_i_buf_peek_u128;
    StPeekI8 i8, peek_i8 false, root_i_unbuf_peek_i8 root_i_buf_peek_i8;
    StPeekI16 i16, peek_i16 false, root_i_unbuf_peek_i16 root_i_buf_peek_i16;
    StPeekI32 i32, peek_i32 false, root_i_unbuf_peek_i32 root_i_buf_peek_i32;
    StPeekI64 i64, peek_i64 false, root_i_unbuf_peek_i64 root_i_buf_peek_i64;
    StPeekI128 i128, peek_i128 false, root_i_unbuf_peek_i128 root_i_buf_peek_i128;
    StPeekF32 f32, peek_f32 false, root_i_unbuf_peek_f32 root_i_buf_peek_f32;
    StPeekF64 f64, peek_f64 false, root_i_unbuf_peek_f64 root_i_buf_peek_f64;
}

// ---- what every reader inherits -----------------------------------------------------------------------------------
/// A reader of `len` bytes with nothing but the required methods.
pub struct Pd<'a> { cx: Sk, data: &'a [u8] }
#[derive(Clone, Copy)]
pub struct Sk { pos: *mut usize, failed: *mut bool }
impl Context for Sk {
    type Error = Error;
    fn endianness(&self) -> Endianness { Endianness::NATIVE }
}
impl<'a> Pd<'a> {
    fn get(&mut self, output: &mut [u8], take: bool) -> Result<(), Error> {
        let pos = unsafe { &mut *self.cx.pos };
        model_assume(*pos <= self.data.len());
        model_init("the reader is handed uninitialised memory", output.as_ptr(), output.len());
        model_check("the reader is used after it failed", unsafe { !*self.cx.failed });
        if output.len() > self.data.len() - *pos { unsafe { *self.cx.failed = true }; return Err(model_err()); }
        unsafe { std::ptr::copy_nonoverlapping(self.data.as_ptr().add(*pos), output.as_mut_ptr(), output.len()) }
        if take { *pos += output.len(); }
        Ok(())
    }
}
impl<'a> Reader<'a, Sk> for Pd<'a> {
    fn read_bytes(&mut self, output: &mut [u8]) -> Result<(), Error> { self.get(output, true) }
    fn peek_bytes(&mut self, output: &mut [u8]) -> Result<(), Error> { self.get(output, false) }
    fn context(&self) -> &Sk { &self.cx }
    fn context_mut(&mut self) -> &mut Sk { &mut self.cx }
}
fn d_run<'a, T>(data: &'a [u8], n: usize, take: bool, op: impl FnOnce(&mut Pd<'a>) -> Result<T, Error>, same: impl FnOnce(T, *const u8)) {
    let (mut pos, mut failed) = (0usize, false);
    pos = model_any();
    model_assume(pos <= data.len());
    let start = pos;
    let mut r = Pd { cx: Sk { pos: &mut pos, failed: &mut failed }, data };
    let res = op(&mut r);
    model_assume(pos <= data.len());
    match res {
        Ok(v) => {
            model_check("a failure of the reader is ignored", !failed);
            model_check("more bytes are provided than the input has", n <= data.len() - start);
            if n <= data.len() - start { same(v, unsafe { data.as_ptr().add(start) }) }
            model_check("the wrong number of bytes is consumed", pos == if take { start + n } else { start });
        }
        Err(e) => {
            model_check("available bytes are refused", n > data.len() - start);
            if failed { model_iserr("the error of the reader is not passed on", &e); } else { short(&e); }
        }
    }
}
pub fn root_i_dflt_skip(data: &[u8]) { let n: usize = model_any(); d_run(data, n, true, |r| r.skip_bytes(n), |_, _| {}) }
pub fn root_i_dflt_read_ptr(data: &[u8]) {
    let out: &mut [u8] = model_any();
    let (p, n) = (out.as_mut_ptr(), out.len());
    d_run(data, n, true, |r| unsafe { r.read_bytes_into_ptr(p, n) }, |_, q| unsafe { model_same("bytes read", p, q, n) })
}
pub fn root_i_dflt_peek_ptr(data: &[u8]) {
    let out: &mut [u8] = model_any();
    let (p, n) = (out.as_mut_ptr(), out.len());
    d_run(data, n, false, |r| unsafe { r.peek_bytes_into_ptr(p, n) }, |_, q| unsafe { model_same("bytes peeked", p, q, n) })
}
macro_rules! dints {
    ($($t:ty, $read:ident $take:expr, $f:ident;)*) => { $(
        pub fn $f(data: &[u8]) {
            let n = std::mem::size_of::<$t>();
            d_run(data, n, $take, |r| r.$read(), |v, q| unsafe {
                model_same("the value is not the one encoded at the current position", &v as *const $t as *const u8, q, n)
            })
        }
    )* };
}
dints! {
    u8, read_u8 true, root_i_dflt_read_u8;
    u16, read_u16 true, root_i_dflt_read_u16;
    u32, read_u32 true, root_i_dflt_read_u32;
    u64, read_u64 true, root_i_dflt_read_u64;
    u128, read_u128 true, root_i_dflt_read_u128;
    i8, read_i8 true, root_i_dflt_read_i8;
    i16, read_i16 true, root_i_dflt_read_i16;
    i32, read_i32 true, root_i_dflt_read_i32;
    i64, read_i64 true, root_i_dflt_read_i64;
    i128, read_i128 true, root_i_dflt_read_i128;
    f32, read_f32 true, root_i_dflt_read_f32;
    f64, read_f64 true, root_i_dflt_read_f64;
    u8, peek_u8 false, root_i_dflt_peek_u8;
    u16, peek_u16 false, root_i_dflt_peek_u16;
    u32, peek_u32 false, root_i_dflt_peek_u32;
    u64, peek_u64 false, root_i_dflt_peek_u64;
    u128, peek_u128 false, root_i_dflt_peek_u128;
    i8, peek_i8 false, root_i_dflt_peek_i8;
    i16, peek_i16 false, root_i_dflt_peek_i16;
    i32, peek_i32 false, root_i_dflt_peek_i32;
    i64, peek_i64 false, root_i_dflt_peek_i64;
    i128, peek_i128 false, root_i_dflt_peek_i128;
    f32, peek_f32 false, root_i_dflt_peek_f32;
    f64, peek_f64 false, root_i_dflt_peek_f64;
}

// ---- writing into memory --------------------------------------------------------------------------------------------
/// What is known about the output: where it is, how much may be written, how much has been.
pub struct Out { base: *mut u8, len: usize, need: usize, pos: usize, size_failed: bool, tried: bool, failed: bool }
#[derive(Clone, Copy)]
pub struct Ox { o: *mut Out }
impl Context for Ox {
    type Error = Error;
    fn endianness(&self) -> Endianness { Endianness::NATIVE }
}
fn mine(cx: Ox) -> &'static mut Out { unsafe { &mut *cx.o } }
impl Ox {
    fn size(self) -> Result<usize, Error> {
        let o = mine(self);
        if model_any() { o.size_failed = true; return Err(model_err()); }
        o.need = model_any();
        model_assume(o.need <= isize::MAX as usize);
        Ok(o.need)
    }
    /// a write of the `n` bytes at `p` has been attempted
    fn wrote(self, res: Result<(), Error>, p: *const u8, n: usize) -> Result<(), Error> {
        let o = mine(self);
        model_check("the output is written to after it failed", !o.failed);
        match res {
            Ok(()) => {
                model_check("more is written than there is room for", n <= o.need - o.pos);
                if n <= o.need - o.pos {
                    if !o.base.is_null() { unsafe { model_same("bytes written", o.base.add(o.pos), p, n) } }
                    o.pos += n;
                }
                Ok(())
            }
            Err(e) => {
                model_check("room for the output is refused", n > o.need - o.pos);
                model_check("running out of room is not reported as an end of the output", e.is_eof());
                o.failed = true;
                Err(e)
            }
        }
    }
    fn start<W: ?Sized + Writer<Ox>>(self, w: &mut W, a: &[u8]) -> Result<(), Error> {
        let o = mine(self);
        model_check("the value is written twice", !o.tried);
        o.tried = true;
        self.wrote(w.write_bytes(a), a.as_ptr(), a.len())
    }
}
fn to_buffer<V: Writable<Ox>>(v: &V, cx: Ox, out: &mut [u8]) {
    let o = mine(cx);
    let (k, len) = (model_any::<usize>(), out.len());
    let old = if k < len { out[k] } else { 0 };
    let mut c = cx;
    match v.write_to_buffer_with_ctx_mut(&mut c, out) {
        Ok(()) => {
            model_check("a failure to determine the size is ignored", !o.size_failed);
            model_check("the value is not written", o.tried);
            model_check("a failed write is reported as success", !o.failed);
            model_check("success is reported although the buffer is too small", o.need <= len);
        }
        Err(e) => {
            if o.size_failed { model_iserr("the error of the size calculation is not passed on", &e); }
            else { model_check("writing fails without a cause", o.failed || o.need > len); }
            if o.size_failed || o.need > len { model_check("a value which does not fit is written", !o.tried); }
        }
    }
    if k < len && k >= o.pos { model_check("bytes behind the written ones are changed", out[k] == old); }
}
fn to_vec<V: Writable<Ox>>(v: &V, cx: Ox) {
    let o = mine(cx);
    let mut c = cx;
    match v.write_to_vec_with_ctx_mut(&mut c) {
        Ok(out) => {
            model_check("a failure to determine the size is ignored", !o.size_failed);
            model_check("the value is not written", o.tried);
            model_check("a failed write is reported as success", !o.failed);
            model_check("the vector does not end with the written bytes", out.len() == o.pos);
            model_init("the vector holds uninitialised memory", out.as_ptr(), out.len());
        }
        Err(e) => {
            if o.size_failed { model_iserr("the error of the size calculation is not passed on", &e); }
            else { model_check("writing fails without a cause", o.failed); }
        }
    }
}

macro_rules! wop {
    ($name:ident $buf:ident $vec:ident, $t:ty, |$s:ident, $w:ident, $cx:ident| $body:block) => {
        pub struct $name<'x> { v: $t, first: &'x [u8], cx: Ox }
        impl<'x> Writable<Ox> for $name<'x> {
            fn write_to<W: ?Sized + Writer<Ox>>(&self, $w: &mut W) -> Result<(), Error> {
                let ($s, $cx) = (self, self.cx);
                $cx.start($w, self.first)?;
                let res: Result<(), Error> = (|| $body)();
                // a vector is only filled by values which know their size
                let o = mine($cx);
                if o.base.is_null() && res.is_ok() { model_assume(o.pos == o.need); }
                res
            }
            fn bytes_needed(&self) -> Result<usize, Error> { self.cx.size() }
        }
        pub fn $buf<'x>(v: $t, first: &'x [u8], out: &mut [u8]) {
            let mut o = Out { base: out.as_mut_ptr(), len: out.len(), need: 0, pos: 0, size_failed: false, tried: false, failed: false };
            let cx = Ox { o: &mut o };
            to_buffer(&$name { v, first, cx }, cx, out);
        }
        pub fn $vec<'x>(v: $t, first: &'x [u8]) {
            let mut o = Out { base: std::ptr::null_mut(), len: 0, need: 0, pos: 0, size_failed: false, tried: false, failed: false };
            let cx = Ox { o: &mut o };
            to_vec(&$name { v, first, cx }, cx);
        }
    };
}
wop!(WrBytes root_i_wbuf_bytes root_i_wvec_bytes, &'x [u8], |s, w, cx| { cx.wrote(w.write_bytes(s.v), s.v.as_ptr(), s.v.len()) });
wop!(WrCan root_i_wbuf_can root_i_wvec_can, usize, |s, w, cx| {
    if let Some(yes) = w.can_write_at_least(s.v) { let o = mine(cx); model_check("the remaining room is misjudged", yes == (s.v <= o.need - o.pos)); }
    Ok(())
});
macro_rules! wints {
    ($($op:ident $t:ty, $write:ident, $b:ident $v:ident;)*) => { $(
        wop!($op $b $v, $t, |s, w, cx| { cx.wrote(w.$write(s.v), &s.v as *const $t as *const u8, std::mem::size_of::<$t>()) });
    )* };
}
wints! {
    WrU8 u8, write_u8, root_i_wbuf_u8 root_i_wvec_u8;
    WrU16 u16, write_u16, root_i_wbuf_u16 root_i_wvec_u16;
    WrU32 u32, write_u32, root_i_wbuf_u32 root_i_wvec_u32;
    WrU64 u64, write_u64, root_i_wbuf_u64 root_i_wvec_u64;
    WrU128 u128, write_u128, root_i_wbuf_u128 root_i_wvec_u128;
    WrI8 i8, write_i8, root_i_wbuf_i8 root_i_wvec_i8;
    WrI16 i16, write_i16, root_i_wbuf_i16 root_i_wvec_i16;
    WrI32 i32, write_i32, root_i_wbuf_i32 root_i_wvec_i32;
    WrI64 i64, write_i64, root_i_wbuf_i64 root_i_wvec_i64;
    WrI128 i128, write_i128, root_i_wbuf_i128 root_i_wvec_i128;
    WrF32 f32, write_f32, root_i_wbuf_f32 root_i_wvec_f32;
    WrF64 f64, write_f64, root_i_wbuf_f64 root_i_wvec_f64;
}

// ---- writing into streams -------------------------------------------------------------------------------------------
/// What the sink is to receive next: `done` of the `n` bytes at `p` have arrived.
pub struct Sink { p: *const u8, n: usize, done: usize, failed: bool, stuck: bool, flushed: bool }
#[derive(Clone, Copy)]
pub struct Wx { s: *mut Sink }
impl Context for Wx {
    type Error = Error;
    fn endianness(&self) -> Endianness { Endianness::NATIVE }
}
pub struct Ws { s: *mut Sink }
impl Ws {
    fn take(&mut self, buf: &[u8], n: usize) {
        let s = unsafe { &mut *self.s };
        model_assume(s.done <= s.n);
        model_check("the stream is written to after it failed", !s.failed);
        model_check("more is written to the stream than the value holds", buf.len() <= s.n - s.done);
        if buf.len() <= s.n - s.done { unsafe { model_same("bytes written to the stream", buf.as_ptr(), s.p.add(s.done), buf.len()) } }
        s.done += n;
    }
}
impl io::Write for Ws {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let s = unsafe { &mut *self.s };
        let n: usize = model_any();
        model_assume(n <= buf.len());
        self.take(buf, n);
        if model_any() {
            let e: io::Error = model_err();
            if e.kind() != io::ErrorKind::Interrupted { s.failed = true; }
            s.done -= n;
            return Err(e);
        }
        if n == 0 && !buf.is_empty() { s.stuck = true; }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let s = unsafe { &mut *self.s };
        if model_any() { s.failed = true; return Err(model_err()); }
        s.flushed = true;
        Ok(())
    }
}
pub struct Wa { s: *mut Sink }
impl io::Write for Wa {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { Ws { s: self.s }.write(buf) }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        let s = unsafe { &mut *self.s };
        Ws { s }.take(buf, buf.len());
        if model_any() { s.failed = true; return Err(model_err()); }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> { Ws { s: self.s }.flush() }
}
/// one operation which is to pass on the `n` bytes at `p`
fn put(cx: Wx, p: *const u8, n: usize, op: impl FnOnce() -> Result<(), Error>) -> Result<(), Error> {
    let s = unsafe { &mut *cx.s };
    s.p = p;
    s.n = n;
    s.done = 0;
    let res = op();
    match &res {
        Ok(()) => {
            model_check("a failure of the stream is ignored", !s.failed);
            model_check("not all bytes have been written", s.done == n);
        }
        Err(e) => {
            model_check("writing fails without a cause", s.failed || s.stuck);
            if s.failed { model_iserr("the error of the stream is not passed on", e); }
        }
    }
    res
}
macro_rules! wsop {
    ($($name:ident $t:ty, $a:ident $b:ident, |$s:ident, $w:ident| $p:expr, $n:expr, $body:expr;)*) => { $(
        pub struct $name<'x> { v: $t, first: &'x [u8], cx: Wx }
        impl<'x> Writable<Wx> for $name<'x> {
            fn write_to<W: ?Sized + Writer<Wx>>(&self, $w: &mut W) -> Result<(), Error> {
                let $s = self;
                put(self.cx, self.first.as_ptr(), self.first.len(), || $w.write_bytes(self.first))?;
                put(self.cx, $p, $n, || $body)
            }
        }
        pub fn $a<'x>(v: $t, first: &'x [u8]) {
            let mut s = Sink { p: std::ptr::null(), n: 0, done: 0, failed: false, stuck: false, flushed: false };
            let cx = Wx { s: &mut s };
            finish(cx, $name { v, first, cx }.write_to_stream_with_ctx(cx, Ws { s: cx.s }));
        }
        pub fn $b<'x>(v: $t, first: &'x [u8]) {
            let mut s = Sink { p: std::ptr::null(), n: 0, done: 0, failed: false, stuck: false, flushed: false };
            let cx = Wx { s: &mut s };
            finish(cx, $name { v, first, cx }.write_to_stream_with_ctx(cx, &mut Wa { s: cx.s }));
        }
    )* };
}
fn finish(cx: Wx, res: Result<(), Error>) {
    let s = unsafe { &mut *cx.s };
    match res {
        Ok(()) => {
            model_check("a failure of the stream is ignored", !s.failed);
            model_check("not all bytes have been written", s.done == s.n);
            model_check("the value is not written", !s.p.is_null());
        }
        Err(e) => {
            model_check("writing fails without a cause", s.failed || s.stuck);
            if s.failed { model_iserr("the error of the stream is not passed on", &e); }
        }
    }
}
wsop! {
    WsBytes &'x [u8], root_i_wst_bytes root_i_wall_bytes, |s, w| s.v.as_ptr(), s.v.len(), w.write_bytes(s.v);
    WsU8 u8, root_i_wst_u8 root_i_wall_u8, |s, w| &s.v as *const u8, 1, w.write_u8(s.v);
    WsU16 u16, root_i_wst_u16 root_i_wall_u16, |s, w| &s.v as *const u16 as *const u8, 2, w.write_u16(s.v);
    WsU32 u32, root_i_wst_u32 root_i_wall_u32, |s, w| &s.v as *const u32 as *const u8, 4, w.write_u32(s.v);
    WsU64 u64, root_i_wst_u64 root_i_wall_u64, |s, w| &s.v as *const u64 as *const u8, 8, w.write_u64(s.v);
    WsU128 u128, root_i_wst_u128 root_i_wall_u128, |s, w| &s.v as *const u128 as *const u8, 16, w.write_u128(s.v);
    WsI8 i8, root_i_wst_i8 root_i_wall_i8, |s, w| &s.v as *const i8 as *const u8, 1, w.write_i8(s.v);
    WsI16 i16, root_i_wst_i16 root_i_wall_i16, |s, w| &s.v as *const i16 as *const u8, 2, w.write_i16(s.v);
    WsI32 i32, root_i_wst_i32 root_i_wall_i32, |s, w| &s.v as *const i32 as *const u8, 4, w.write_i32(s.v);
    WsI64 i64, root_i_wst_i64 root_i_wall_i64, |s, w| &s.v as *const i64 as *const u8, 8, w.write_i64(s.v);
    WsI128 i128, root_i_wst_i128 root_i_wall_i128, |s, w| &s.v as *const i128 as *const u8, 16, w.write_i128(s.v);
    WsF32 f32, root_i_wst_f32 root_i_wall_f32, |s, w| &s.v as *const f32 as *const u8, 4, w.write_f32(s.v);
    WsF64 f64, root_i_wst_f64 root_i_wall_f64, |s, w| &s.v as *const f64 as *const u8, 8, w.write_f64(s.v);
}
