use mc::elem::*;
use mc::harness::*;
use mc::order::*;
use sized_chunks::{Chunk, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($e:ty, $n:expr, $r:expr, $s:expr, $al:expr, $all:expr, $some:expr);* $(;)?) => { $(
        order_jobs::<Chunk<$e, $n>>(&mut j, $r, $s, $al, $all, $some);
        order_jobs::<RingBuffer<$e, $n>>(&mut j, $r, $s, $al, $all, $some);
    )* } }
    ch! { Tok, 1, 4, 1, 3, 9, 9; Tok, 2, 4, 1, 3, 9, 9; Tok, 3, 4, 1, 3, 9, 9; Tok, 4, 2, 4, 3, 9, 9; Tok, 5, 1, 8, 3, 9, 9; Tok, 6, 1, 16, 3, 4, 9; Tok, 8, 1, 16, 3, 3, 9; u8, 5, 1, 8, 3, 9, 9; TokZ, 3, 1, 1, 1, 3, 3; u32, 16, 1, 32, 3, 0, 6; Tok, 64, 1, 64, 3, 0, 4; u16, 300, 1, 64, 3, 0, 0 }
    if t {
        ch! { Tok, 5, 4, 16, 4, 9, 9; Tok, 6, 2, 64, 3, 9, 9; u8, 7, 1, 64, 3, 9, 9; Tok, 16, 1, 64, 4, 0, 12; Tok, 64, 2, 64, 3, 0, 9 }
    }
    run_jobs(&a, j)
}
