use mc::elem::*;
use mc::fault::*;
use mc::harness::*;
use mc::pools::*;
use mc::sparse::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let r = if t { 8 } else { 4 };
    let mut j = vec![];
    macro_rules! ch { ($($n:expr),*) => { $(
        fault_jobs::<Chunk<Tok, $n>>(&mut j, r, if $n > 3 { 8 } else { 2 }, true);
        fault_jobs::<RingBuffer<Tok, $n>>(&mut j, r, if $n > 3 { 8 } else { 2 }, true);
    )* } }
    ch!(1, 2, 3, 4, 5, 6, 7, 8);
    fault_jobs::<Chunk<Tok, 16>>(&mut j, 1, 64, false);
    fault_jobs::<RingBuffer<Tok, 16>>(&mut j, 1, 64, false);
    fault_jobs::<Chunk<TokB, 4>>(&mut j, 1, 4, true);
    fault_jobs::<RingBuffer<TokB, 4>>(&mut j, 1, 4, true);
    fault_jobs::<Chunk<TokZ, 3>>(&mut j, 1, 2, true);
    fault_jobs::<RingBuffer<TokZ, 3>>(&mut j, 1, 2, true);
    macro_rules! ia { ($($e:ty, $t:ty);* $(;)?) => { $( fault_jobs::<InlineArray<$e, $t>>(&mut j, 3, 2, true); )* } }
    ia! { Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 6]; Tok, [usize; 10]; TokB, [u8; 13]; TokZ, [usize; 2] }
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $sh:expr);* $(;)?) => { $( sjobs::<$e, $n>(&mut j, "faults", $max, 2, $sh, |c, h, i| fault_sparse::<$e, $n>(c, h, i, $max)); )* } }
    sp! { Tok, 1, 10, 1; Tok, 2, 10, 1; Tok, 4, 10, 1; Tok, 5, 10, 2; Tok, 6, 10, 8; TokZ, 4, 10, 1; TokB, 4, 10, 1; Tok, 32, 4, 4; Tok, 65, 4, 4 }
    macro_rules! pr { ($($n:expr),*) => { $( fault_pair_jobs::<Chunk<Tok, $n>>(&mut j, 8); fault_pair_jobs::<RingBuffer<Tok, $n>>(&mut j, 8); )* } }
    pr!(1, 2, 3);
    fault_pair_jobs::<InlineArray<Tok, [usize; 4]>>(&mut j, 4);
    fault_pair_jobs::<InlineArray<Tok, [usize; 6]>>(&mut j, 4);
    macro_rules! po { ($($n:expr),*) => { $(
        pool_fault_jobs::<Chunk<Tok, $n>>(&mut j, 2, 1);
        pool_fault_jobs::<RingBuffer<Tok, $n>>(&mut j, 2, 1);
        pool_sparse_fault_jobs::<Tok, $n>(&mut j, 10, 2, 1);
    )* } }
    po!(1, 2, 3, 4, 5, 6);
    if t {
        po!(7, 8);
        pr!(4, 5);
        ch!(10, 12);
        fault_jobs::<Chunk<Tok, 16>>(&mut j, 1, 64, true);
        fault_jobs::<RingBuffer<Tok, 16>>(&mut j, 1, 64, true);
        sp! { Tok, 7, 10, 16; Tok, 8, 10, 32; Tok, 64, 6, 16 }
    }
    run_jobs(&a, j)
}
