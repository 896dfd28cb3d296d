use mc::elem::*;
use mc::eqs::*;
use mc::harness::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($e:ty, $n:expr, $sp:expr, $s:expr, $tot:expr);* $(;)?) => { $(
        eq_jobs::<Chunk<$e, $n>>(&mut j, $sp, $s, $tot);
        eq_jobs::<RingBuffer<$e, $n>>(&mut j, $sp, $s, $tot);
    )* } }
    ch! {
        u8, 0, (1, 3, 9), 1, true; u8, 1, (3, 3, 9), 1, true; u8, 2, (3, 3, 9), 1, true; u8, 3, (2, 3, 9), 4, true;
        Tok, 3, (1, 2, 9), 2, true; u16, 4, (1, 2, 9), 4, true; Part, 3, (1, 3, 9), 4, false; u16, 6, (1, 2, 3), 8, true; TokZ, 3, (2, 1, 9), 1, true
    }
    macro_rules! ia { ($($e:ty, $t:ty, $sp:expr, $s:expr, $tot:expr);* $(;)?) => { $( eq_jobs::<InlineArray<$e, $t>>(&mut j, $sp, $s, $tot); )* } }
    ia! { u8, [u8; 9], (2, 3, 9), 1, true; u8, [u8; 12], (2, 3, 9), 2, true; u16, [u16; 8], (2, 3, 9), 4, true; Tok, [usize; 5], (1, 3, 9), 1, true;
        Part, [u8; 12], (1, 3, 9), 2, false; TokZ, [usize; 2], (1, 1, 3), 1, true }
    cross_jobs::<u8, 3, [u8; 12]>(&mut j, 2, 9);
    cross_jobs::<u16, 4, [u16; 8]>(&mut j, 2, 9);
    cross_jobs::<Tok, 2, [usize; 5]>(&mut j, 3, 9);
    sparse_eq_jobs::<u8, 1>(&mut j, 1, 3, 1, 1, true);
    sparse_eq_jobs::<u8, 2>(&mut j, 2, 3, 1, 1, true);
    sparse_eq_jobs::<Tok, 3>(&mut j, 3, 2, 1, 1, true);
    sparse_eq_jobs::<u16, 4>(&mut j, 4, 2, 1, 4, true);
    sparse_eq_jobs::<Part, 3>(&mut j, 3, 3, 1, 1, false);
    sparse_eq_jobs::<u8, 33>(&mut j, 3, 2, 16, 2, true);
    sparse_eq_jobs::<u8, 65>(&mut j, 3, 2, 32, 2, true);
    sparse_eq_jobs::<u8, 130>(&mut j, 3, 2, 64, 2, true);
    ch! { u8, 4, (1, 3, 9), 32, true; Part, 4, (1, 3, 9), 32, false; u32, 5, (1, 2, 9), 32, true; Tok, 4, (1, 2, 9), 16, true }
    ia! { u8, [u8; 13], (2, 3, 9), 16, true; u64, [usize; 6], (1, 3, 9), 16, true }
    sparse_eq_jobs::<u16, 5>(&mut j, 5, 2, 1, 16, true);
    sparse_eq_jobs::<Tok, 6>(&mut j, 6, 1, 1, 16, true);
    long_eq_jobs::<Chunk<u16, 300>>(&mut j, 16);
    long_eq_jobs::<RingBuffer<u16, 300>>(&mut j, 32);
    long_eq_jobs::<InlineArray<u16, [u16; 300]>>(&mut j, 8);
    long_eq_jobs::<RingBuffer<u32, 66000>>(&mut j, 32);
    if t {
        ch! { u8, 5, (1, 3, 9), 64, true; u16, 5, (2, 2, 9), 64, true; Part, 5, (1, 3, 9), 64, false; u8, 16, (1, 2, 3), 64, true; u8, 64, (1, 3, 1), 64, true }
        ia! { u8, [u8; 14], (2, 3, 9), 32, true; u32, [u32; 8], (1, 3, 9), 64, true }
        sparse_eq_jobs::<u8, 6>(&mut j, 6, 2, 1, 32, true);
        sparse_eq_jobs::<Tok, 8>(&mut j, 8, 1, 1, 16, true);
    }
    run_jobs(&a, j)
}
