use mc::elem::*;
use mc::harness::*;
use mc::refusal::*;
use mc::seq::*;
use mc::sparse::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let r = if t { 4 } else { 2 };
    let mut j = vec![];
    macro_rules! ch { ($($n:expr),*) => { $(
        refuse_jobs::<Chunk<Tok, $n>>(&mut j, r, if $n > 5 { 8 } else { 1 });
        refuse_jobs::<RingBuffer<Tok, $n>>(&mut j, r, if $n > 5 { 8 } else { 1 });
        space_jobs::<Chunk<Tok, $n>>(&mut j, "insert_ordered when full", 1, 1, refuse_ordered::<Chunk<Tok, $n>>);
        space_jobs::<RingBuffer<Tok, $n>>(&mut j, "insert_ordered when full", 1, 1, refuse_ordered::<RingBuffer<Tok, $n>>);
        space_jobs::<RingBuffer<Tok, $n>>(&mut j, "refused slices", 2, if $n > 5 { 8 } else { 1 }, refuse_slices::<Tok, $n>);
    )* } }
    ch!(0, 1, 2, 3, 4, 5, 6, 8);
    refuse_jobs::<Chunk<Tok, 16>>(&mut j, 1, 16);
    refuse_jobs::<RingBuffer<Tok, 16>>(&mut j, 1, 16);
    refuse_jobs::<Chunk<TokZ, 3>>(&mut j, 2, 1);
    refuse_jobs::<RingBuffer<TokZ, 3>>(&mut j, 2, 1);
    refuse_jobs::<Chunk<u8, 7>>(&mut j, 1, 2);
    refuse_jobs::<RingBuffer<u8, 7>>(&mut j, 1, 2);
    macro_rules! pr { ($($n:expr),*) => { $( refuse_pair_jobs::<Chunk<Tok, $n>>(&mut j, 4); refuse_pair_jobs::<RingBuffer<Tok, $n>>(&mut j, 4); )* } }
    pr!(1, 2, 3, 4, 5);
    if t {
        refuse_jobs::<Chunk<Tok, 64>>(&mut j, 1, 64);
        refuse_jobs::<RingBuffer<Tok, 64>>(&mut j, 1, 64);
        pr!(6, 7, 8);
        space_jobs::<RingBuffer<Tok, 16>>(&mut j, "refused slices", 1, 32, refuse_slices::<Tok, 16>);
    }
    macro_rules! ia { ($($e:ty, $t:ty);* $(;)?) => { $( refuse_jobs::<InlineArray<$e, $t>>(&mut j, 3, if InlineArray::<$e, $t>::CAPACITY > 12 { 8 } else { 1 }); )* } }
    ia! {
        Tok, [u8; 12]; Tok, [usize; 2]; Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 6]; Tok, [usize; 10]; Tok, [usize; 25];
        u8, [u8; 9]; u8, [u8; 11]; u8, [u8; 40]; u128, [u128; 4]; u128, [u8; 64]; Al64, [usize; 40]; TokZ, [usize; 2]; Tok, [u8; 33];
    }
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $sh:expr);* $(;)?) => { $( sjobs::<$e, $n>(&mut j, "refused calls", $max, 2, $sh, refuse_sparse::<$e, $n>); )* } }
    sp! { Tok, 1, 10, 1; Tok, 2, 10, 1; Tok, 3, 10, 1; Tok, 4, 10, 1; Tok, 7, 10, 2; Tok, 8, 10, 4; Tok, 32, 6, 2; Tok, 63, 5, 2; Tok, 64, 6, 4; Tok, 65, 5, 4; Tok, 128, 5, 4; u8, 129, 5, 4; u8, 1024, 3, 8; TokZ, 5, 10, 1 }
    run_jobs(&a, j)
}
