use mc::cost::*;
use mc::elem::*;
use mc::harness::*;
use sized_chunks::{Chunk, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($e:ty, $n:expr, $r:expr, $s:expr, $b:expr);* $(;)?) => { $(
        cost_jobs::<Chunk<$e, $n>>(&mut j, $r, $s, $b);
        cost_jobs::<RingBuffer<$e, $n>>(&mut j, $r, $s, $b);
    )* } }
    ch! { Tok, 1, 4, 1, 3; Tok, 2, 4, 1, 3; Tok, 3, 4, 1, 3; Tok, 4, 4, 1, 4; Tok, 5, 4, 1, 4; Tok, 6, 2, 1, 4; Tok, 7, 2, 1, 4; Tok, 8, 2, 2, 5; Tok, 16, 2, 8, 5; u32, 16, 1, 8, 5; u64, 9, 1, 4, 5; u32, 33, 1, 16, 3; u32, 64, 1, 128, 1; u32, 300, 1, 64, 2 }
    if t {
        ch! { u32, 64, 1, 256, 3; u32, 32, 2, 64, 20; Tok, 24, 1, 64, 24 }
    }
    run_jobs(&a, j)
}
