use mc::bytes::*;
use mc::harness::*;
use sized_chunks::{Chunk, RingBuffer};
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! ch { ($($n:expr, $r:expr, $s:expr, $d:expr);* $(;)?) => { $(
        byte_jobs::<Chunk<u8, $n>>(&mut j, $r, $s, $d);
        byte_jobs::<RingBuffer<u8, $n>>(&mut j, $r, $s, $d);
    )* } }
    ch! { 0, 2, 1, true; 1, 8, 1, true; 2, 8, 1, true; 3, 8, 2, true; 4, 8, 2, true; 5, 8, 4, true; 6, 4, 4, true; 7, 4, 8, true; 8, 4, 8, true; 16, 1, 32, true; 64, 1, 64, false }
    macro_rules! sq { ($($n:expr, $d:expr, $s:expr);* $(;)?) => { $(
        byte_seq_jobs::<Chunk<u8, $n>>(&mut j, $d, $s);
        byte_seq_jobs::<RingBuffer<u8, $n>>(&mut j, $d, $s);
    )* } }
    sq! { 1, 5, 4; 2, 5, 8; 3, 5, 16 }
    ch! { 300, 1, 16, false; 66000, 1, 16, false }
    if t {
        sq! { 1, 7, 16; 2, 6, 32; 3, 6, 64; 4, 5, 64; 5, 5, 64 }
        ch! { 31, 1, 64, true; 100, 1, 64, false }
    }
    run_jobs(&a, j)
}
