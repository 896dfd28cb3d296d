use mc::elem::*;
use mc::harness::*;
use mc::ownership::*;
use mc::sparse::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let r = if t { 6 } else { 3 };
    let mut j = vec![];
    macro_rules! ch { ($($n:expr),*) => { $( own_jobs::<Chunk<Tok, $n>>(&mut j, r, if $n > 5 { 8 } else { 1 }, true); own_jobs::<RingBuffer<Tok, $n>>(&mut j, r, if $n > 5 { 8 } else { 1 }, true); )* } }
    ch!(0, 1, 2, 3, 4, 5, 6, 8);
    own_jobs::<Chunk<TokB, 5>>(&mut j, r, 4, true);
    own_jobs::<RingBuffer<TokB, 5>>(&mut j, r, 4, true);
    own_jobs::<Chunk<TokZ, 3>>(&mut j, r, 1, true);
    own_jobs::<RingBuffer<TokZ, 3>>(&mut j, r, 1, true);
    own_jobs::<Chunk<Tok, 16>>(&mut j, 1, 32, false);
    own_jobs::<RingBuffer<Tok, 16>>(&mut j, 1, 32, false);
    own_jobs::<Chunk<Tok, 64>>(&mut j, 1, 64, false);
    own_jobs::<Chunk<Tok, 150>>(&mut j, 1, 64, false);
    own_jobs::<RingBuffer<Tok, 150>>(&mut j, 1, 64, false);
    own_jobs::<InlineArray<Tok, [u8; 4000]>>(&mut j, 1, 8, false);
    if t {
        own_jobs::<RingBuffer<Tok, 64>>(&mut j, 1, 128, false);
    }
    own_jobs::<InlineArray<Tok, [usize; 2]>>(&mut j, r, 1, true);
    own_jobs::<InlineArray<Tok, [usize; 3]>>(&mut j, r, 1, true);
    own_jobs::<InlineArray<Tok, [usize; 7]>>(&mut j, r, 1, true);
    own_jobs::<InlineArray<Tok, [u8; 33]>>(&mut j, r, 1, true);
    own_jobs::<InlineArray<Tok, [usize; 13]>>(&mut j, r, 4, true);
    own_jobs::<InlineArray<Tok, [usize; 25]>>(&mut j, r, 8, true);
    own_jobs::<InlineArray<Tok, [u8; 12]>>(&mut j, r, 1, true);
    own_jobs::<InlineArray<TokB, [u8; 13]>>(&mut j, r, 1, true);
    own_jobs::<InlineArray<TokZ, [usize; 2]>>(&mut j, r, 1, true);
    macro_rules! sq { ($($s:ty, $d:expr, $sh:expr);* $(;)?) => { $( own_seq_jobs::<$s>(&mut j, $d, $sh); )* } }
    sq! { Chunk<Tok, 2>, 3, 8; RingBuffer<Tok, 2>, 3, 8; Chunk<Tok, 1>, 4, 8; RingBuffer<Tok, 1>, 4, 8; InlineArray<Tok, [usize; 3]>, 4, 8; InlineArray<Tok, [usize; 4]>, 4, 8; InlineArray<TokZ, [usize; 2]>, 3, 4; Chunk<Tok, 3>, 3, 8; RingBuffer<Tok, 3>, 3, 8 }
    if t {
        sq! { Chunk<Tok, 4>, 3, 32; RingBuffer<Tok, 4>, 3, 32; Chunk<Tok, 2>, 4, 32; RingBuffer<Tok, 2>, 4, 32 }
    }
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $sh:expr);* $(;)?) => { $( sjobs::<$e, $n>(&mut j, "ownership", $max, 4, $sh, |c, h, i| sown_state::<$e, $n>(c, h, i, $max)); )* } }
    sp! { Tok, 1, 10, 1; Tok, 2, 10, 1; Tok, 4, 10, 1; Tok, 7, 10, 4; TokB, 5, 10, 1; TokZ, 4, 10, 1; Tok, 32, 7, 4; Tok, 64, 7, 4; Tok, 65, 7, 4; Tok, 129, 7, 8; Tok, 256, 5, 8 }
    if t {
        sp! { Tok, 10, 10, 16; Tok, 128, 9, 16; Tok, 1024, 6, 16 }
    }
    run_jobs(&a, j)
}
