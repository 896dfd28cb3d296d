//! C24: the interface of the containers executed on the abstract machine (Miri), which stops at the first undefined
//! operation. `--part k/n` runs every n-th job.
use mc::arb::gen_jobs;
use mc::elem::*;
use mc::harness::*;
use mc::ub::*;
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    let only = std::env::var("C24_ONLY").unwrap_or_default();
    let on = |s: &str| only.is_empty() || only == s;
    macro_rules! each {
        ($f:ident; $($s:ty),* $(,)?) => { $( $f::<$s>(&mut j); )* };
        ($f:ident, $x:expr; $($s:ty),* $(,)?) => { $( $f::<$s>(&mut j, $x); )* };
    }
    if only == "halves" {
        halves_job(&mut j);
        run_jobs(&a, j)
    }
    if on("operations") {
        each! { op_jobs, false;
            Chunk<Bx, 2>, RingBuffer<Bx, 2>, Chunk<Pl, 0>, Chunk<Pl, 1>, Chunk<Pl, 3>, Chunk<u8, 3>, Chunk<Al64, 2>, Chunk<TokZ, 2>,
            RingBuffer<Pl, 0>, RingBuffer<Pl, 1>, RingBuffer<Pl, 3>, RingBuffer<u8, 3>, RingBuffer<Al64, 2>, RingBuffer<TokZ, 2>,
            InlineArray<Pl, [u32; 5]>, InlineArray<Bx, [usize; 3]>, InlineArray<Pl, [usize; 2]>, InlineArray<u8, [u8; 11]>, InlineArray<u16, [u8; 13]>, InlineArray<u128, [u128; 3]>,
            InlineArray<TokZ, [usize; 2]>, InlineArray<u32, [u64; 3]>, InlineArray<Al64, [Al64; 3]>,
        }
        if t {
            each! { op_jobs, false; Chunk<Pl, 4>, Chunk<Pl, 5>, RingBuffer<Pl, 4>, RingBuffer<Pl, 5>, InlineArray<Pl, [usize; 7]>, InlineArray<Pl, [u64; 5]> }
        }
    }
    if on("extremes") {
        each! { op_jobs, true; Chunk<Pl, 1>, Chunk<Pl, 2>, RingBuffer<Pl, 0>, RingBuffer<Pl, 1>, RingBuffer<Pl, 2>, InlineArray<Pl, [u32; 4]> }
        if t {
            each! { op_jobs, true; Chunk<Pl, 3>, RingBuffer<Pl, 3>, InlineArray<Pl, [u32; 5]>, Chunk<TokZ, 2>, RingBuffer<TokZ, 2> }
        }
    }
    if on("sequences") {
        each! { pair_op_jobs; Chunk<Pl, 1>, RingBuffer<Pl, 1>, InlineArray<Pl, [u32; 3]> }
        if t {
            each! { pair_op_jobs; Chunk<Pl, 2>, RingBuffer<Pl, 2>, InlineArray<Pl, [u32; 4]>, Chunk<Pl, 3>, RingBuffer<Pl, 3>, InlineArray<Pl, [u32; 5]>, Chunk<TokZ, 2>, RingBuffer<TokZ, 2> }
        }
    }
    if on("faults") {
        each! { fault_cases; Chunk<Pl, 1>, Chunk<Pl, 2>, RingBuffer<Pl, 1>, RingBuffer<Pl, 2>, InlineArray<Pl, [u32; 4]> }
        if t {
            each! { fault_cases; Chunk<Pl, 3>, RingBuffer<Pl, 3>, InlineArray<Pl, [u32; 5]> }
        }
    }
    if on("lies") {
        each! { lie_cases; Chunk<Pl, 2>, RingBuffer<Pl, 2>, InlineArray<Pl, [u32; 4]> }
        if t {
            each! { lie_cases; Chunk<Pl, 3>, RingBuffer<Pl, 3>, InlineArray<Pl, [u32; 5]> }
        }
    }
    if on("iterators") {
        each! { iter_cases; Chunk<Bx, 1>, Chunk<Pl, 3>, Chunk<TokZ, 1>, RingBuffer<Bx, 1>, RingBuffer<Pl, 2>, RingBuffer<Pl, 3>, RingBuffer<TokZ, 1>,
            InlineArray<Pl, [u32; 4]>, InlineArray<u8, [u8; 11]>, InlineArray<TokZ, [usize; 2]> }
        if t {
            each! { iter_cases; Chunk<Pl, 2>, Chunk<Pl, 4>, RingBuffer<Pl, 4>, Chunk<TokZ, 2>, RingBuffer<TokZ, 2>, InlineArray<Pl, [u32; 6]> }
        }
    }
    if on("slices") {
        each! { slice_cases; Chunk<Pl, 0>, Chunk<Pl, 1>, Chunk<Pl, 3>, Chunk<Al64, 2>, InlineArray<Pl, [u32; 5]>, InlineArray<u8, [u8; 11]>, InlineArray<u16, [u8; 13]>, InlineArray<TokZ, [usize; 2]> }
    }
    if on("windows") {
        window_cases::<Pl, 1>(&mut j);
        window_cases::<Pl, 2>(&mut j);
        window_cases::<Pl, 3>(&mut j);
        window_cases::<TokZ, 2>(&mut j);
        if t {
            window_cases::<Pl, 4>(&mut j);
            window_cases::<u8, 5>(&mut j);
        }
    }
    if on("sparse") {
        sparse_cases::<Pl, 1>(&mut j, 9);
        sparse_cases::<Pl, 2>(&mut j, 9);
        sparse_cases::<Pl, 3>(&mut j, 9);
        sparse_cases::<TokZ, 2>(&mut j, 9);
        if t {
            sparse_cases::<Pl, 4>(&mut j, 9);
            sparse_cases::<Pl, 65>(&mut j, 1);
        }
    }
    if on("pairs") {
        each! { couple_jobs; Chunk<Pl, 2>, RingBuffer<Pl, 2>, InlineArray<Pl, [u32; 4]> }
        if t {
            each! { couple_jobs; Chunk<Pl, 3>, RingBuffer<Pl, 3>, InlineArray<Pl, [u32; 5]> }
        }
    }
    if on("streams") {
        each! { byte_cases; Chunk<u8, 2>, RingBuffer<u8, 2> }
        if t {
            each! { byte_cases; Chunk<u8, 4>, RingBuffer<u8, 4> }
        }
    }
    if on("conversion") {
        convert_cases::<Pl, [usize; 4], 3>(&mut j);
        convert_cases::<Pl, [usize; 4], 4>(&mut j);
        convert_cases::<Pl, [usize; 4], 2>(&mut j);
        convert_cases::<u16, [u8; 13], 6>(&mut j);
        convert_cases::<TokZ, [usize; 2], 2>(&mut j);
    }
    if on("pools") {
        each! { pool_cases; Chunk<Pl, 2>, RingBuffer<Pl, 2>, Chunk<TokZ, 2> }
        sparse_pool_cases::<Pl, 2>(&mut j);
        if t {
            each! { pool_cases; Chunk<Pl, 4>, RingBuffer<Pl, 4> }
        }
    }
    if on("generation") {
        gen_jobs::<Chunk<u8, 2>>(&mut j, 2, 0, 1);
        gen_jobs::<RingBuffer<u8, 2>>(&mut j, 2, 0, 1);
        gen_jobs::<SparseChunk<u8, 2>>(&mut j, 2, 0, 1);
        gen_jobs::<InlineArray<u8, [usize; 3]>>(&mut j, 2, 0, 1);
    }
    run_jobs(&a, j)
}
