use mc::elem::*;
use mc::harness::*;
use mc::liar::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let r = if t { 3 } else { 1 };
    let mut j = vec![];
    macro_rules! ch { ($($n:expr),*) => { $(
        lie_jobs::<Chunk<Tok, $n>>(&mut j, r, if $n > 3 { 16 } else { 2 });
        lie_jobs::<RingBuffer<Tok, $n>>(&mut j, r, if $n > 3 { 16 } else { 2 });
    )* } }
    ch!(0, 1, 2, 3, 4, 5, 6);
    lie_jobs::<Chunk<TokB, 4>>(&mut j, 1, 4);
    lie_jobs::<RingBuffer<TokB, 4>>(&mut j, 1, 4);
    lie_jobs::<Chunk<TokZ, 3>>(&mut j, 1, 2);
    lie_jobs::<RingBuffer<TokZ, 3>>(&mut j, 1, 2);
    lie_jobs::<Chunk<u8, 4>>(&mut j, 1, 4);
    lie_jobs::<RingBuffer<u8, 4>>(&mut j, 1, 4);
    macro_rules! ia { ($($e:ty, $t:ty);* $(;)?) => { $( lie_jobs::<InlineArray<$e, $t>>(&mut j, 2, 1); )* } }
    ia! { Tok, [u8; 12]; Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 6]; Tok, [usize; 10]; TokB, [u8; 13]; TokZ, [usize; 2]; u128, [u128; 4] }
    if t {
        ch!(7, 8, 10);
    }
    run_jobs(&a, j)
}
