use mc::elem::*;
use mc::harness::*;
use mc::iters::*;
use mc::sparse::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($e:ty, $n:expr, $r:expr, $s:expr);* $(;)?) => { $(
        consume_jobs::<Chunk<$e, $n>>(&mut j, $r, $s, t);
        consume_jobs::<RingBuffer<$e, $n>>(&mut j, $r, $s, t);
    )* } }
    ch! { Tok, 0, 2, 1; Tok, 1, 4, 1; Tok, 2, 3, 1; Tok, 3, 2, 2; Tok, 4, 2, 4; Tok, 5, 1, 8; Tok, 6, 1, 8; u8, 5, 1, 8; TokZ, 3, 1, 1; Tok, 16, 1, 32; u16, 300, 1, 8; u16, 66000, 1, 8 }
    if t {
        ch! { Tok, 7, 1, 16; Tok, 8, 1, 32; Tok, 64, 1, 64 }
    }
    macro_rules! ia { ($($e:ty, $t:ty);* $(;)?) => { $( consume_jobs::<InlineArray<$e, $t>>(&mut j, 3, 4, t); )* } }
    ia! { Tok, [u8; 12]; Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 7]; Tok, [usize; 10]; Tok, [usize; 25]; TokB, [u8; 14]; u8, [u8; 71]; u128, [u128; 6]; Al64, [Al64; 4]; TokZ, [usize; 2] }
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $sh:expr);* $(;)?) => { $( sjobs::<$e, $n>(&mut j, "consuming", $max, 2, $sh, move |c, h, _| sconsume::<$e, $n>(c, h, t)); )* } }
    sp! { Tok, 1, 10, 1; Tok, 2, 10, 1; Tok, 3, 10, 1; Tok, 4, 10, 2; Tok, 6, 10, 8; Tok, 8, 10, 16; TokZ, 4, 10, 1; Tok, 32, 5, 4; Tok, 64, 7, 4; Tok, 65, 5, 4; u8, 129, 6, 4; u8, 1024, 4, 8 }
    run_jobs(&a, j)
}
