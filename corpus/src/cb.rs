//! The queue behind buffered streams, compiled from the source of speedy, against the contract which the analysis of
//! the stream reader relies on (`Queue` in engine/models.py).  The start state is arbitrary.
include!("/repo/src/circular_buffer.rs");
use crate::model::*;

/// an arbitrary reachable queue: the start is within the buffer, and no more is held than there is room for
fn state(q: &CircularBuffer) {
    model_assume(q.length <= q.buffer.len());
    model_assume(q.position < q.buffer.len() || q.position == 0);
}
fn invariant(q: &CircularBuffer) {
    model_check("the queue holds more than it has room for", q.length <= q.buffer.len());
    model_check("the start of the queue is outside of its buffer", q.position < q.buffer.len() || q.position == 0);
}
/// where the i-th byte held is
fn at(q: &CircularBuffer, i: usize) -> *const u8 {
    let cap = q.buffer.len();
    let k = if q.position + i < cap { q.position + i } else { q.position + i - cap };
    unsafe { q.buffer.as_ptr().add(k) }
}
/// an arbitrary byte held
fn some(q: &CircularBuffer) -> (usize, u8) {
    let i: usize = model_any();
    model_assume(i < q.length);
    (i, unsafe { *at(q, i) })
}
fn same(q: &CircularBuffer, i: usize, v: u8) {
    model_check("a byte in the queue has changed", unsafe { *at(q, i) } == v);
}
fn pieces(q: &CircularBuffer, a: &[u8], b: Option<&[u8]>, n: usize) {
    match b {
        None => {
            model_check("the slices have the wrong length", a.len() == n);
            if n > 0 { model_check("the slice is not where the bytes held are", a.as_ptr() == at(q, 0)); model_check("the slice is not where the bytes held are", unsafe { a.as_ptr().add(n - 1) } == at(q, n - 1)); }
        }
        Some(b) => {
            model_check("the slices have the wrong length", a.len() + b.len() == n);
            if a.len() > 0 && a.len() <= n { model_check("the first slice is not where the bytes held are", a.as_ptr() == at(q, 0)); model_check("the first slice is not where the bytes held are", unsafe { a.as_ptr().add(a.len() - 1) } == at(q, a.len() - 1)); }
            if b.len() > 0 && a.len() < n { model_check("the second slice is not where the bytes held are", b.as_ptr() == at(q, a.len())); model_check("the second slice is not where the bytes held are", unsafe { b.as_ptr().add(b.len() - 1) } == at(q, n - 1)); }
        }
    }
}

pub fn root_i_queue_new() {
    let n: usize = model_any();
    model_assume(n <= 1 << 20);
    let q = CircularBuffer::with_capacity(n);
    invariant(&q);
    model_check("a new queue is not empty", q.len() == 0);
    model_check("a new queue has less room than requested", q.capacity() >= n);
    model_init("the buffer is uninitialised", q.buffer.as_ptr(), q.buffer.len());
}
pub fn root_i_queue_len(q: &CircularBuffer) {
    state(q);
    model_check("the length is wrong", q.len() == q.length);
    model_check("the capacity is wrong", q.capacity() == q.buffer.len());
}
pub fn root_i_queue_slices(q: &CircularBuffer) {
    state(q);
    let (a, b) = q.as_slices();
    pieces(q, a, b, q.length);
}
pub fn root_i_queue_slices_len(q: &CircularBuffer) {
    state(q);
    let n: usize = model_any();
    model_assume(n <= q.length);
    let (a, b) = q.as_slices_of_length(n);
    pieces(q, a, b, n);
}
pub fn root_i_queue_consume(q: &mut CircularBuffer) {
    state(q);
    let n: usize = model_any();
    model_assume(n <= q.length);
    model_assume(n > 0);
    let (i, v) = some(q);
    let len = q.length;
    q.consume(n);
    invariant(q);
    model_check("the wrong number of bytes is left", q.length == len - n);
    if i >= n { same(q, i - n, v); }
}
pub fn root_i_queue_consume_into(q: &mut CircularBuffer) {
    state(q);
    let out: &mut [u8] = model_any();
    let n = out.len();
    model_assume(n <= q.length);
    let (i, v) = some(q);
    let len = q.length;
    q.consume_into(out);
    invariant(q);
    model_check("the wrong number of bytes is left", q.length == len - n);
    if i >= n { same(q, i - n, v); } else { model_check("another byte is handed out than was held", unsafe { *out.as_ptr().add(i) } == v); }
}
pub fn root_i_queue_consume_nothing(q: &mut CircularBuffer) {
    state(q);
    q.consume_into(&mut []);
    invariant(q);
    model_check("bytes are lost", q.length == q.len());
}
pub fn root_i_queue_reserve(q: &mut CircularBuffer) {
    state(q);
    let n: usize = model_any();
    model_assume(n <= 1 << 40);
    model_assume(q.length <= 1 << 40);
    let (i, v) = some(q);
    let len = q.length;
    q.reserve(n);
    invariant(q);
    model_check("bytes are lost by making room", q.length == len);
    model_check("no room is made", q.buffer.len() >= len + n);
    model_init("the buffer is uninitialised", q.buffer.as_ptr(), q.buffer.len());
    same(q, i, v);
}
pub fn root_i_queue_append(q: &mut CircularBuffer) {
    state(q);
    let n: usize = model_any();
    model_assume(n <= 1 << 40);
    model_assume(q.length <= 1 << 40);
    let (i, v) = some(q);
    append(q, n, Some((i, v)));
}
pub fn root_i_queue_append_first(q: &mut CircularBuffer) {
    state(q);
    model_assume(q.length == 0);
    let n: usize = model_any();
    model_assume(n <= 1 << 40);
    append(q, n, None);
}
fn append(q: &mut CircularBuffer, n: usize, held: Option<(usize, u8)>) {
    let len = q.length;
    let (mut added, mut j, mut w, mut called) = (0usize, 0usize, 0u8, false);
    let res = q.try_append_with(n, |chunk| {
        called = true;
        model_init("uninitialised memory is handed out to be filled", chunk.as_ptr(), chunk.len());
        model_check("more room is handed out than was asked for", chunk.len() <= n);
        model_check("no room is handed out", n == 0 || chunk.len() > 0);
        if model_any() { return Err(()); }
        let k: usize = model_any();
        model_assume(k <= chunk.len());
        if k > 0 {
            j = model_any();
            model_assume(j < k);
            w = model_any();
            chunk[j] = w;
        }
        added = k;
        Ok(k)
    });
    model_check("nothing was appended", called);
    invariant(q);
    match res {
        Ok(k) => {
            model_check("the wrong number of bytes is reported", k == added);
            model_check("the wrong number of bytes is held", q.length == len + added);
            if added > 0 { same(q, len + j, w); }
        }
        Err(()) => model_check("bytes are held although none were added", q.length == len),
    }
    if let Some((i, v)) = held { same(q, i, v); }
}
