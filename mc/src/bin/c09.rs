use mc::elem::*;
use mc::harness::*;
use mc::moves::*;
use mc::seq::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! mv { ($($e:ty, $n:expr, $r:expr, $all:expr);* $(;)?) => { $(
        move_jobs::<Chunk<$e, $n>>(&mut j, $r, if $n > 3 { 16 } else { 2 }, $all);
        move_jobs::<RingBuffer<$e, $n>>(&mut j, $r, if $n > 3 { 16 } else { 2 }, $all);
    )* } }
    mv! { Tok, 0, 2, true; Tok, 1, 4, true; Tok, 2, 3, true; Tok, 3, 2, true; Tok, 4, 2, true; Tok, 5, 1, true; Tok, 6, 2, true; Tok, 7, 2, true; Tok, 8, 1, true; TokB, 7, 1, true; TokZ, 4, 1, true; u32, 16, 1, true; Tok, 12, 1, true; u8, 31, 1, false; [u64; 17], 4, 1, true; u16, 300, 1, false; u16, 66000, 1, false }
    if t {
        mv! { Tok, 4, 6, true; Tok, 6, 3, true; Tok, 8, 3, true; u32, 16, 2, true; Tok, 12, 3, true; u8, 31, 1, true; u8, 64, 1, false; Tok, 64, 1, false }
    }
    macro_rules! ia { ($($e:ty, $t:ty);* $(;)?) => { $( space_jobs::<InlineArray<$e, $t>>(&mut j, "moves out", 4, 1, single_state::<InlineArray<$e, $t>>); )* } }
    ia! { Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 10]; Tok, [usize; 25]; TokB, [u8; 24]; TokZ, [usize; 2]; u128, [u128; 6]; Al64, [Al64; 4]; [u64; 17], [u64; 90]; u16, [u16; 300]; u16, [u16; 66000] }
    run_jobs(&a, j)
}
