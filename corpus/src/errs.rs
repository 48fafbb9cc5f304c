//! Errors: which kind they say they are, and what becomes of them.
use crate::model::*;
use speedy::private as sp;
use speedy::{Error, IsEof};
use std::io;

/// whether an error is an end of input or output, and what becomes of it as an error of the standard library
fn classify(e: Error, eof: bool) {
    model_check("the end of the input or output is misjudged", e.is_eof() == eof);
    let io: io::Error = e.into();
    model_check("the error has another kind for the standard library",
        io.kind() == if eof { io::ErrorKind::UnexpectedEof } else { io::ErrorKind::InvalidData });
}
macro_rules! errs {
    ($($name:ident |$n:ident, $m:ident| $e:expr, $k:pat $(if $g:expr)?, $eof:expr;)*) => { $(
        pub fn $name($n: usize, $m: usize) {
            let e: Error = $e;
            model_check("the error is of another kind than it says", match *sp::get_error_kind(&e) { $k $(if $g)? => true, _ => false });
            classify(e, $eof);
        }
    )* };
}
errs! {
    root_i_err_length |n, m| sp::error_length_is_not_the_same_as_length_attribute("x"), sp::ErrorKind::LengthIsNotTheSameAsLengthAttribute { field_name } if field_name.len() == 1, false;
    root_i_err_range |n, m| sp::error_out_of_range_length(), sp::ErrorKind::OutOfRangeLength, false;
    root_i_err_variant |n, m| sp::error_invalid_enum_variant(), sp::ErrorKind::InvalidEnumVariant, false;
    root_i_err_unsized |n, m| sp::error_unsized(), sp::ErrorKind::Unsized, false;
    root_i_err_order |n, m| sp::error_endianness_mismatch(), sp::ErrorKind::EndiannessMismatch, false;
}
/// an error of a stream is handed through unchanged
pub fn root_i_err_io(x: bool) {
    struct S;
    impl io::Read for S {
        fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(model_err()) }
        fn read_exact(&mut self, _: &mut [u8]) -> io::Result<()> { Err(model_err()) }
    }
    use speedy::Readable;
    match u8::read_from_stream_unbuffered(S) {
        Ok(_) => model_check("a failure of the stream is ignored", false),
        Err(e) => {
            model_iserr("the error of the stream is not passed on", &e);
            let eof = e.is_eof();
            let io: io::Error = e.into();
            model_iserr("the error of the stream is changed", &io);
            model_check("the end of the input or output is misjudged", eof == (io.kind() == io::ErrorKind::UnexpectedEof));
        }
    }
}
pub fn root_i_err_custom(x: bool) {
    let e = Error::custom("x");
    model_check("the end of the input or output is misjudged", !e.is_eof());
    let io: io::Error = e.into();
    model_check("the error has another kind for the standard library", io.kind() == io::ErrorKind::Other);
}
/// what the library itself reports
pub fn root_i_err_eof(d: &[u8]) {
    use speedy::Readable;
    model_assume(d.len() < 4);
    match u32::read_from_buffer_copying_data(d) {
        Ok(_) => model_check("more bytes are provided than the input has", false),
        Err(e) => {
            match *sp::get_error_kind(&e) {
                sp::ErrorKind::UnexpectedEndOfInput => classify(e, true),
                sp::ErrorKind::InputBufferIsTooSmall { actual_size, expected_size } => model_check("the sizes are wrong", actual_size == d.len() && expected_size == 4),
                _ => model_check("the error is of another kind than it says", false),
            }
        }
    }
}
pub fn root_i_err_room(v: u32, d: &mut [u8]) {
    use speedy::Writable;
    let n = d.len();
    match v.write_to_buffer(d) {
        Ok(()) => model_check("success is reported although the buffer is too small", n >= 4),
        Err(e) => match *sp::get_error_kind(&e) {
            sp::ErrorKind::OutputBufferIsTooSmall { actual_size, expected_size } => {
                model_check("room for the output is refused", n < 4);
                model_check("the sizes are wrong", actual_size == n && expected_size == 4);
                classify(e, false)
            }
            _ => model_check("the error is of another kind than it says", false),
        },
    }
}
