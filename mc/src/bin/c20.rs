use mc::arb::*;
use mc::elem::*;
use mc::harness::*;
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($e:ty, $n:expr, $l:expr, $p:expr, $s:expr);* $(;)?) => { $(
        gen_jobs::<Chunk<$e, $n>>(&mut j, $l, $p, $s);
        gen_jobs::<RingBuffer<$e, $n>>(&mut j, $l, $p, $s);
        gen_jobs::<SparseChunk<$e, $n>>(&mut j, $l, $p, $s);
    )* } }
    ch! { Tok, 1, 7, 2, 1; Tok, 2, 7, 2, 1; Tok, 3, 8, 2, 4; Tok, 4, 8, 2, 4; TokB, 2, 7, 2, 1; TokB, 3, 7, 2, 1; TokZ, 3, 7, 2, 1; u8, 3, 7, 2, 1; u16, 3, 7, 2, 1; u32, 2, 7, 2, 1; (), 3, 6, 2, 1;
        Tok, 8, 6, 2, 1; u8, 64, 5, 2, 4; Tok, 64, 5, 2, 4; u32, 65, 5, 2, 4; u8, 200, 5, 1, 1 }
    macro_rules! ia { ($($e:ty, $t:ty, $l:expr);* $(;)?) => { $( gen_jobs::<InlineArray<$e, $t>>(&mut j, $l, 2, 2); )* } }
    ia! { Tok, [usize; 3], 7; Tok, [usize; 4], 7; Tok, [usize; 7], 7; u8, [u8; 12], 7; u16, [u8; 17], 7; u32, [u64; 3], 7; u8, [u8; 9], 7; TokB, [u8; 14], 7; TokZ, [usize; 2], 7; (), [usize; 2], 6; Tok, [u8; 10], 5; u32, [u32; 4], 5; u32, [u64; 30], 5 }
    if t {
        ch! { Tok, 4, 10, 4, 64; TokB, 3, 10, 4, 64; u16, 3, 10, 3, 32; Tok, 64, 8, 4, 64; u8, 200, 6, 3, 16; u32, 1000, 4, 2, 16 }
    }
    run_jobs(&a, j)
}
