//! A program without the standard library that uses the crate without its `std` feature. It only builds when that
//! feature really leaves the standard library out: otherwise there are two panic handlers.
#![no_std]
use sized_chunks::{sparse_chunk::SparseChunk, Chunk, InlineArray};
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    loop {}
}
#[no_mangle]
pub extern "C" fn probe(x: usize) -> usize {
    let mut c = Chunk::<usize, 4>::new();
    c.push_back(x);
    let mut a = InlineArray::<usize, [usize; 4]>::new();
    a.push(x);
    let mut s = SparseChunk::<usize, 4>::new();
    s.insert(1, x);
    c.pop_front() + a[0] + s[1]
}
