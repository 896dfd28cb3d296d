use mc::elem::*;
use mc::harness::*;
use mc::pools::*;
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($e:ty, $n:expr, $r:expr, $s:expr, $full:expr, $m:expr);* $(;)?) => { $(
        pool_seq_jobs::<Chunk<$e, $n>>(&mut j, $r, $s, $full, &MEMS[..$m]);
        pool_seq_jobs::<RingBuffer<$e, $n>>(&mut j, $r, $s, $full, &MEMS[..$m]);
    )* } }
    ch! { Tok, 0, 2, 1, true, 5; Tok, 1, 4, 1, true, 5; Tok, 2, 4, 2, true, 5; Tok, 3, 4, 4, true, 2; Tok, 4, 3, 8, true, 2; Tok, 5, 2, 8, true, 2; Tok, 6, 2, 8, true, 2; Tok, 8, 1, 8, true, 2;
        u8, 4, 1, 2, true, 2; u128, 3, 1, 2, true, 2; TokZ, 3, 1, 1, true, 2; TokB, 5, 1, 2, true, 2; Cln, 4, 2, 4, true, 2; Tok, 16, 1, 32, false, 1 }
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $r:expr, $sh:expr, $m:expr);* $(;)?) => { $( pool_sparse_jobs::<$e, $n>(&mut j, $max, $r, $sh, &MEMS[..$m]); )* } }
    sp! { Tok, 1, 10, 4, 1, 5; Tok, 2, 10, 4, 1, 5; Tok, 3, 10, 4, 1, 5; Tok, 4, 10, 4, 1, 2; Tok, 5, 10, 2, 2, 2; Tok, 6, 10, 1, 4, 2; Tok, 8, 10, 1, 8, 1; TokZ, 3, 10, 1, 1, 2; Cln, 4, 10, 1, 1, 2; u8, 4, 10, 1, 1, 2; Tok, 64, 5, 1, 8, 1; Tok, 65, 5, 1, 8, 1; u8, 129, 5, 1, 8, 1 }
    macro_rules! hi { ($($h:expr, $d:expr, $b:expr, $p:expr, $s:expr);* $(;)?) => { $(
        history_jobs::<Chunk<Tok, 2>>(&mut j, $h, $d, $b, $p, $s);
        history_jobs::<RingBuffer<Tok, 2>>(&mut j, $h, $d, $b, $p, $s);
        history_jobs::<SparseChunk<Tok, 3>>(&mut j, $h, $d, $b, $p, $s);
    )* } }
    hi! { 2, 4, false, 0, 2; 2, 5, false, 1, 8; 2, 4, false, 2, 2; 3, 4, false, 1, 8; 2, 4, true, 0, 2; 2, 5, true, 1, 8; 3, 4, true, 2, 4 }
    if t {
        hi! { 2, 6, false, 1, 64; 2, 6, true, 1, 64; 3, 5, false, 1, 64; 3, 5, false, 2, 64; 3, 5, true, 2, 64 }
        ch! { Tok, 6, 4, 32, true, 5; Tok, 8, 2, 32, true, 5; Tok, 16, 2, 64, true, 2; u32, 64, 1, 64, false, 2 }
        sp! { Tok, 8, 10, 2, 64, 2; Tok, 10, 10, 1, 64, 1; Tok, 128, 8, 1, 64, 1; u16, 1000, 4, 1, 8, 1 }
    }
    run_jobs(&a, j)
}
