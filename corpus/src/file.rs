//! Files: the operating system and the buffered writer of std are replaced by the functions in `stub`,
//! which say what they are documented to do and what speedy must (not) ask of them.
use crate::io::*;
use crate::model::*;
use speedy::{Context, Endianness, Error, IsEof, Readable, Reader, Writable, Writer};
use std::fs::{File, Metadata, OpenOptions};
use std::io::{self, BufWriter, Write};
use std::path::Path;

pub struct World {
    /// the file named by the caller
    path: *const u8,
    data: *const u8,
    size: usize,
    opened: bool,
    open: bool,
    truncated: bool,
    mapped: bool,
    maps: usize,
    ran: bool,
    ran_ok: bool,
    failed: bool,
    advice_failed: bool,
    // writing: `done` of the `n` bytes at `p` have been handed over
    p: *const u8,
    n: usize,
    done: usize,
    stuck: bool,
    /// written to a buffer but not to the file yet
    dirty: bool,
    lost: bool,
    wrapped: bool,
    // flags of the last OpenOptions
    o_read: bool, o_write: bool, o_append: bool, o_trunc: bool, o_create: bool, o_new: bool,
}
fn world() -> &'static mut World { unsafe { &mut *model_world::<World>() } }
fn fresh(path: &Path) -> World {
    World {
        path: path as *const Path as *const u8, data: std::ptr::null(), size: 0, opened: false, open: false, truncated: false, mapped: false,
        maps: 0, ran: false, ran_ok: false, failed: false, advice_failed: false, p: std::ptr::null(), n: 0, done: 0, stuck: false, dirty: false,
        lost: false, wrapped: false, o_read: false, o_write: false, o_append: false, o_trunc: false, o_create: false, o_new: false,
    }
}

pub mod stub {
    use super::*;
    fn opened(path: &Path, write: bool) -> io::Result<File> {
        let w = world();
        model_check("another file than the one named is opened", path as *const Path as *const u8 == w.path);
        model_check("the file is opened twice", !w.opened);
        if model_any() { w.failed = true; return Err(model_err()); }
        w.opened = true;
        w.open = true;
        w.truncated = write;
        Ok(model_any())
    }
    pub fn file_open(path: &Path) -> io::Result<File> { opened(path, false) }
    pub fn file_create(path: &Path) -> io::Result<File> { opened(path, true) }
    pub fn opt_new() -> OpenOptions {
        let w = world();
        w.o_read = false; w.o_write = false; w.o_append = false; w.o_trunc = false; w.o_create = false; w.o_new = false;
        model_any()
    }
    pub fn opt_read(o: &mut OpenOptions, v: bool) -> &mut OpenOptions { world().o_read = v; o }
    pub fn opt_write(o: &mut OpenOptions, v: bool) -> &mut OpenOptions { world().o_write = v; o }
    pub fn opt_append(o: &mut OpenOptions, v: bool) -> &mut OpenOptions { world().o_append = v; o }
    pub fn opt_trunc(o: &mut OpenOptions, v: bool) -> &mut OpenOptions { world().o_trunc = v; o }
    pub fn opt_create(o: &mut OpenOptions, v: bool) -> &mut OpenOptions { world().o_create = v; o }
    pub fn opt_new_file(o: &mut OpenOptions, v: bool) -> &mut OpenOptions { world().o_new = v; o }
    pub fn opt_open(o: &OpenOptions, path: &Path) -> io::Result<File> {
        let w = world();
        if w.p.is_null() && w.data.is_null() { return opened(path, false); }
        if w.data.is_null() {
            model_check("a file which is to be written is not created if it does not exist", w.o_write && w.o_create);
            model_check("an existing file is not replaced", !w.o_new && !w.o_append);
            model_check("the old contents of the file stay behind the new ones", w.o_trunc);
        } else {
            model_check("a file which is to be read is opened for something else", w.o_read && !w.o_trunc && !w.o_new && !w.o_create);
        }
        opened(path, w.o_trunc)
    }
    pub fn file_metadata(f: &File) -> io::Result<Metadata> {
        let w = world();
        model_check("a closed file is used", w.open);
        if model_any() { w.failed = true; return Err(model_err()); }
        Ok(model_any())
    }
    pub fn metadata_len(m: &Metadata) -> u64 { world().size as u64 }
    pub fn file_fd(f: &File) -> i32 { 7 }
    pub fn last_error() -> io::Error { model_err() }
    pub fn file_drop(f: &mut File) {
        let w = world();
        model_check("the file is closed twice", w.open);
        w.open = false;
    }
    // -- mapping -----------------------------------------------------------------------------------------------------
    pub unsafe fn mmap(addr: *mut std::ffi::c_void, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut std::ffi::c_void {
        let w = world();
        model_check("something else than the opened file is mapped", w.open && fd == 7);
        model_check("the mapping does not start with the file", offset == 0);
        model_check("the mapping is not as long as the file", len == w.size);
        model_check("an empty mapping is requested", len != 0);
        model_check("the mapping is not readable", prot & 1 == 1);
        model_check("the mapping is executable", prot & 4 == 0);
        model_check("the mapping is neither private nor shared, or placed at a fixed address", (flags & 3 == 1 || flags & 3 == 2) && flags & 0x30 == 0);
        if model_any() { w.failed = true; let _: io::Error = model_err(); return !0usize as *mut std::ffi::c_void; }
        w.mapped = true;
        w.maps += 1;
        w.data as *mut std::ffi::c_void
    }
    pub unsafe fn madvise(addr: *mut std::ffi::c_void, len: usize, advice: i32) -> i32 {
        let w = world();
        model_check("advice is given for memory which is not mapped", w.mapped && addr as *const u8 == w.data && len <= w.size);
        model_check("the advice discards data", advice <= 3 || advice == 14 || advice == 15);
        if model_any() { w.advice_failed = true; let _: io::Error = model_err(); return -1; }
        0
    }
    pub unsafe fn munmap(addr: *mut std::ffi::c_void, len: usize) -> i32 {
        let w = world();
        model_check("memory which is not mapped is unmapped", w.mapped && addr as *const u8 == w.data);
        model_check("the mapping is not unmapped as a whole", len == w.size);
        w.mapped = false;
        if model_any() { -1 } else { 0 }
    }
    // -- writing -----------------------------------------------------------------------------------------------------
    fn take(buf: &[u8], n: usize) {
        let w = world();
        model_assume(w.done <= w.n);
        model_check("a closed file is used", w.open);
        model_check("the file is written to after it failed", !w.failed);
        model_check("more is written to the file than the value holds", buf.len() <= w.n - w.done);
        if buf.len() <= w.n - w.done { unsafe { model_same("bytes written to the file", buf.as_ptr(), w.p.add(w.done), buf.len()) } }
        w.done += n;
    }
    fn some(buf: &[u8]) -> io::Result<usize> {
        let w = world();
        let n: usize = model_any();
        model_assume(n <= buf.len());
        take(buf, n);
        if model_any() {
            let e: io::Error = model_err();
            if e.kind() != io::ErrorKind::Interrupted { w.failed = true; }
            w.done -= n;
            return Err(e);
        }
        if n == 0 && !buf.is_empty() { w.stuck = true; }
        Ok(n)
    }
    fn all(buf: &[u8]) -> io::Result<()> {
        take(buf, buf.len());
        if model_any() { world().failed = true; return Err(model_err()); }
        Ok(())
    }
    pub fn file_write(f: &mut File, buf: &[u8]) -> io::Result<usize> { some(buf) }
    pub fn file_flush(f: &mut File) -> io::Result<()> { Ok(()) }
    pub fn file_sync(f: &File) -> io::Result<()> {
        if model_any() { world().failed = true; return Err(model_err()); }
        Ok(())
    }
    pub fn bw_new(f: File) -> BufWriter<File> { std::mem::forget(f); world().wrapped = true; model_any() }
    pub fn bw_cap(n: usize, f: File) -> BufWriter<File> { bw_new(f) }
    pub fn bw_write(b: &mut BufWriter<File>, buf: &[u8]) -> io::Result<usize> { world().dirty = true; some(buf) }
    pub fn bw_write_all(b: &mut BufWriter<File>, buf: &[u8]) -> io::Result<()> { world().dirty = true; all(buf) }
    pub fn bw_flush(b: &mut BufWriter<File>) -> io::Result<()> {
        let w = world();
        if model_any() { w.failed = true; return Err(model_err()); }
        w.dirty = false;
        Ok(())
    }
    pub fn bw_into_inner(b: BufWriter<File>) -> Result<File, io::IntoInnerError<BufWriter<File>>> {
        let mut b = std::mem::ManuallyDrop::new(b);
        if bw_flush(&mut b).is_err() { return Err(model_any()); }
        Ok(model_any())
    }
    pub fn bw_drop(b: &mut BufWriter<File>) {
        let w = world();
        // an error which happens now is lost
        if w.dirty && !w.failed && model_any() { w.lost = true; }
        model_check("the file is closed twice", w.open);
        w.open = false;
    }
}

/// never analysed: makes the stubs part of the program
pub fn root_z_stubs(path: &Path) {
    use stub::*;
    unsafe {
        let _ = file_open(path);
        let mut f = file_create(path).unwrap();
        let mut o = opt_new();
        opt_read(&mut o, true); opt_write(&mut o, true); opt_append(&mut o, true); opt_trunc(&mut o, true); opt_create(&mut o, true); opt_new_file(&mut o, true);
        let _ = opt_open(&o, path);
        let _ = metadata_len(&file_metadata(&f).unwrap());
        file_fd(&f);
        let _ = last_error();
        file_drop(&mut f);
        mmap(std::ptr::null_mut(), 0, 0, 0, 0, 0);
        madvise(std::ptr::null_mut(), 0, 0);
        munmap(std::ptr::null_mut(), 0);
        let _ = file_write(&mut f, &[]);
        let _ = file_flush(&mut f);
        let _ = file_sync(&f);
        let mut b = bw_new(f);
        let f = file_create(path).unwrap();
        let mut b = bw_cap(1, f);
        let _ = bw_write(&mut b, &[]);
        let _ = bw_write_all(&mut b, &[]);
        let _ = bw_flush(&mut b);
        bw_drop(&mut b);
        let _ = bw_into_inner(b);
    }
}

// ---- reading --------------------------------------------------------------------------------------------------------
pub struct InFile<O>(O);
impl<'a, O: Readable<'a, Cx>> Readable<'a, Cx> for InFile<O> {
    fn read_from<R: Reader<'a, Cx>>(reader: &mut R) -> Result<Self, Error> {
        let w = world();
        model_check("the file is read without having been opened", w.opened);
        model_check("the file is read while it is not mapped", w.mapped || w.size == 0);
        model_check("data of the file is lent out beyond its mapping", reader.read_bytes_borrowed(0).is_none());
        model_check("data of the file is lent out beyond its mapping", reader.read_bytes_borrowed_until_eof().is_none());
        w.ran = true;
        let r = O::read_from(reader);
        w.ran_ok = r.is_ok();
        r.map(InFile)
    }
}
macro_rules! fread {
    ($($op:ident $f:ident;)*) => { $(
        pub fn $f(path: &Path, data: &[u8]) {
            let mut pos = 0usize;
            let mut w = fresh(path);
            w.data = data.as_ptr();
            w.size = data.len();
            model_set_world(&mut w);
            let cx = Cx { base: data.as_ptr(), len: data.len(), pos: &mut pos };
            let res = <InFile<$op> as Readable<Cx>>::read_from_file_with_ctx(cx, path);
            match res {
                Ok(_) => {
                    model_check("a failure to read the file is ignored", !w.failed);
                    model_check("the value is not read", w.ran && w.ran_ok);
                }
                Err(e) => {
                    if w.failed { model_iserr("the error of the file is not passed on", &e); }
                    else { model_check("reading fails without a cause", w.advice_failed || (w.ran && !w.ran_ok)); }
                }
            }
            model_check("the mapping outlives the call", !w.mapped);
            model_check("the file stays open", !w.open);
        }
    )* };
}
fread! {
    OpRead root_i_fread_read;
    OpPeek root_i_fread_peek;
    OpSkip root_i_fread_skip;
    OpRest root_i_fread_rest;
    OpBorrow root_i_fread_borrow;
    ReadU64 root_i_fread_u64;
}

// ---- writing --------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Fx;
impl Context for Fx {
    type Error = Error;
    fn endianness(&self) -> Endianness { Endianness::NATIVE }
}
fn fput(p: *const u8, n: usize, op: impl FnOnce() -> Result<(), Error>) -> Result<(), Error> {
    let w = world();
    w.ran = true;
    w.p = p;
    w.n = n;
    w.done = 0;
    let res = op();
    match &res {
        Ok(()) => {
            model_check("a failure of the file is ignored", !w.failed);
            model_check("not all bytes have been written", w.done == n);
        }
        Err(e) => {
            model_check("writing fails without a cause", w.failed || w.stuck);
            if w.failed { model_iserr("the error of the file is not passed on", e); }
        }
    }
    res
}
pub struct ToFile<'x> { a: &'x [u8], b: &'x [u8] }
impl<'x> Writable<Fx> for ToFile<'x> {
    fn write_to<W: ?Sized + Writer<Fx>>(&self, w: &mut W) -> Result<(), Error> {
        if model_any() { world().failed = true; return Err(model_err()); }
        fput(self.a.as_ptr(), self.a.len(), || w.write_bytes(self.a))?;
        fput(self.b.as_ptr(), self.b.len(), || w.write_bytes(self.b))
    }
}
pub fn root_i_fwrite(path: &Path, a: &[u8], b: &[u8]) {
    let mut w = fresh(path);
    w.p = a.as_ptr();
    model_set_world(&mut w);
    let res = ToFile { a, b }.write_to_file_with_ctx(Fx, path);
    match res {
        Ok(()) => {
            model_check("a failure of the file is ignored", !w.failed && !w.lost);
            model_check("the file is not created", w.opened);
            model_check("the old contents of the file stay behind the new ones", w.truncated);
            model_check("the value is not written", w.ran);
            model_check("not all bytes have been written", w.done == w.n);
        }
        Err(e) => {
            model_check("writing fails without a cause", w.failed || w.stuck);
            if w.failed { model_iserr("the error of the file is not passed on", &e); }
        }
    }
    model_check("the file stays open", !w.open);
}
