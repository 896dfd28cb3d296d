use mc::clones::*;
use mc::elem::*;
use mc::harness::*;
use mc::sparse::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($e:ty, $n:expr, $r:expr, $s:expr, $full:expr, $p:expr);* $(;)?) => { $(
        clone_jobs::<Chunk<$e, $n>>(&mut j, $r, $s, $full, $p);
        clone_jobs::<RingBuffer<$e, $n>>(&mut j, $r, $s, $full, $p);
    )* } }
    ch! { Tok, 0, 2, 1, true, true; Tok, 1, 8, 1, true, true; Tok, 2, 8, 2, true, true; Tok, 3, 4, 8, true, true; Tok, 4, 4, 16, true, t; Tok, 5, 4, 8, true, t;
        Tok, 6, 2, 8, true, false; Tok, 7, 2, 8, true, false; Tok, 8, 2, 8, true, false; u8, 4, 2, 2, true, false; u128, 4, 2, 2, true, false; TokB, 4, 2, 2, true, false; TokZ, 3, 2, 1, true, false; Cln, 1, 2, 1, true, true; Cln, 4, 4, 4, true, false; Cln, 5, 2, 4, true, false;
        Tok, 16, 1, 16, false, false; u32, 64, 1, 64, false, false; u16, 300, 1, 32, false, false; [u64; 17], 4, 2, 2, true, false }
    macro_rules! ia { ($($e:ty, $t:ty);* $(;)?) => { $( clone_jobs::<InlineArray<$e, $t>>(&mut j, 4, 2, true, InlineArray::<$e, $t>::CAPACITY < 20); )* } }
    ia! { Tok, [u8; 12]; Tok, [u8; 9]; Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 5]; Tok, [usize; 7]; u8, [u8; 12]; u16, [u8; 13]; u128, [u128; 6]; TokB, [u8; 13]; TokZ, [usize; 2]; u8, [u128; 1]; Cln, [usize; 4]; Cln, [u8; 25]; u16, [u16; 300]; [u64; 17], [u64; 90] }
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $sh:expr);* $(;)?) => { $( sjobs::<$e, $n>(&mut j, "copies", $max, 4, $sh, move |c, h, _| sclone_state::<$e, $n>(c, h, $max)); )* } }
    sp! { Tok, 1, 10, 1; Tok, 2, 10, 1; Tok, 3, 10, 1; Tok, 4, 10, 1; Tok, 5, 10, 2; Tok, 6, 10, 4; Tok, 8, 10, 16; TokB, 4, 10, 1; TokZ, 4, 10, 1; Cln, 5, 10, 2; u8, 4, 10, 1; Tok, 32, 5, 4; Tok, 33, 5, 4; Tok, 64, 6, 4; Tok, 65, 6, 4; u8, 129, 6, 4; u16, 1024, 4, 8 }
    if t {
        ch! { Tok, 16, 2, 64, true, false; Tok, 6, 1, 32, true, true; Tok, 12, 2, 32, true, false }
        sp! { Tok, 10, 10, 64; Tok, 128, 9, 32 }
    }
    run_jobs(&a, j)
}
