use mc::elem::*;
use mc::harness::*;
use mc::heap::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
#[global_allocator]
static A: Counting = Counting;
fn main() {
    selftest();
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! both { ($($e:ty, $n:expr, $r:expr, $s:expr, $f:expr);* $(;)?) => { $(
        heap_jobs::<Chunk<$e, $n>>(&mut j, $r, $s, $f);
        heap_jobs::<RingBuffer<$e, $n>>(&mut j, $r, $s, $f);
    )* } }
    both! { u32, 1, 4, 1, true; u32, 2, 4, 1, true; u32, 3, 4, 1, true; u32, 4, 4, 1, true; u32, 5, 3, 1, true; u32, 6, 2, 2, true; u32, 7, 2, 2, true;
            u8, 8, 2, 4, true; u64, 5, 2, 1, true; u128, 4, 2, 1, true; [u8; 3], 4, 2, 1, true; u32, 16, 1, 8, false; u64, 64, 1, 32, false; (), 3, 2, 1, true }
    macro_rules! ia { ($($e:ty, $h:ty);* $(;)?) => { $( heap_jobs::<InlineArray<$e, $h>>(&mut j, 4, 1, InlineArray::<$e, $h>::CAPACITY < 20); )* } }
    ia! { u32, [u64; 2]; u32, [u64; 3]; u32, [u64; 5]; u8, [u8; 9]; u8, [u8; 11]; u8, [u8; 71]; u64, [u64; 5]; u128, [u128; 4]; u128, [u8; 64]; u16, [u8; 17]; (), [u64; 2]; u32, [u64; 33] }
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $s:expr);* $(;)?) => { $( sparse_heap::<$e, $n>(&mut j, $max, 3, $s); )* } }
    sp! { u32, 1, 10, 1; u32, 2, 10, 1; u32, 3, 10, 1; u32, 4, 10, 1; u32, 5, 10, 1; u8, 6, 10, 1; u64, 7, 10, 2; u128, 4, 10, 1; (), 4, 10, 1; u32, 33, 6, 2; u32, 64, 6, 4; u8, 65, 6, 4; u32, 128, 6, 4; u16, 129, 6, 4; u8, 1024, 4, 4 }
    stream_heap::<Chunk<u8, 5>>(&mut j, 3, 1);
    stream_heap::<RingBuffer<u8, 5>>(&mut j, 3, 1);
    stream_heap::<Chunk<u8, 16>>(&mut j, 1, 1);
    stream_heap::<RingBuffer<u8, 16>>(&mut j, 1, 1);
    macro_rules! sizes { ($($e:ty: $($n:literal)*);* $(;)?) => { $( $( chunk_sizes::<$e, $n>(&mut j); )* )* } }
    sizes! { u8: 0 1 2 7 8 9 64 1000; u16: 1 3 4 63; u32: 1 2 3 64 65; u64: 1 2 64; u128: 1 2 3 64; [u8; 3]: 1 5 8 64; Al16: 1 2 7; Al64: 1 2 3; (): 1 64; Box<u32>: 1 3 64; Tok: 5 64 }
    macro_rules! ssizes { ($($e:ty: $($n:literal)*);* $(;)?) => { $( $( sparse_size::<$e, $n>(&mut j); )* )* } }
    ssizes! { u8: 1 2 7 8 9 64 65 1000; u16: 1 3 4 63; u32: 1 2 3 64 65 128 129; u64: 1 2 64 512; u128: 1 2 3 64; [u8; 3]: 1 5 8 64; Al16: 1 2 7; Al64: 1 2 3; (): 1 64; Box<u32>: 1 3 64 }
    if t {
        both! { u32, 8, 4, 8, true; u32, 9, 3, 8, true; u8, 12, 2, 16, true; u32, 32, 1, 64, true; u64, 64, 1, 64, true }
        sp! { u32, 8, 10, 8; u8, 10, 10, 8; u32, 64, 9, 16; u32, 128, 9, 16; u8, 513, 6, 16 }
    }
    run_jobs(&a, j)
}
