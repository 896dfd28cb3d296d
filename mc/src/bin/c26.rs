//! C26: small explorations with their models, executed on abstract machines of other word sizes and byte orders.
use mc::bytes::*;
use mc::elem::*;
use mc::geometry::*;
use mc::harness::*;
use mc::targets::*;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::sync::atomic::Ordering::Relaxed;
macro_rules! cross {
    ($j:expr; [$($u:ty, $s:expr;)*] $h:tt) => { $( cross!(@ $j; $u, $s; $h); )* };
    (@ $j:expr; $u:ty, $s:expr; [$($v:ty, $($z:expr),*;)*]) => { $(
        job($j, format!("geometry of ({}, {}) in ({}, ..)", stringify!($u), $s, stringify!($v)), || vec![ $( table::<$u, $s, $v, $z>(stringify!($u), stringify!($v)) ),* ]);
    )* };
}
const W: usize = std::mem::size_of::<usize>();
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    if std::env::var("C26_ONLY").map_or(false, |s| !s.is_empty()) {
        run_jobs(&a, j)
    }
    JUDGE.store(true, Relaxed);
    cross! { &mut j;
        [ u8, 0; u8, 1; u8, 3; u16, 2; u32, 4; u64, 0; u64, 8; u128, 16; A32, 32; ]
        [ u8, 3, 4, 5, 7, 8, 9, 11, 16, 21, 264; u16, 6, 10; u32, 4, 8, 20; u64, 8, 16, 24; u128, 16, 48; A32, 32, 64; ]
    }
    // what a word of eight bytes in the other order can change is in the arrays and the bitmaps; words of the other size concern everything
    let all = t || cfg!(not(all(target_endian = "big", target_pointer_width = "64")));
    macro_rules! two { ($($e:ty, $n:expr);* $(;)?) => { $(
        lean_jobs::<Chunk<$e, $n>>(&mut j, true);
        lean_jobs::<RingBuffer<$e, $n>>(&mut j, true);
    )* } }
    if all {
        two! { u32, 0; u32, 1; u32, 2; TokZ, 2 }
    }
    macro_rules! ia { ($($e:ty, $t:ty);* $(;)?) => { $( lean_jobs::<InlineArray<$e, $t>>(&mut j, true); )* } }
    ia! { u32, [u8; 3 + W]; u32, [u8; 3 * 4 + W]; u64, [u8; 2 * 8 + W]; u16, [u8; 2 * 3 + 1 + W]; u128, [u128; 3]; TokZ, [usize; 2]; [u8; 3], [u8; 9 + W] }
    // a counter of more than one byte
    counter_job::<[u8; 300]>(&mut j);
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr);* $(;)?) => { $( lean_sparse::<$e, $n>(&mut j, $max); )* } }
    sp! { u32, 1, 10; u32, 2, 10 }
    if all {
        sp! { u8, 33, 1 }
    }
    if t || !all {
        sp! { u8, 65, 1 }
    }
    macro_rules! walks { ($($t:ty),* $(,)?) => { $( lean_iters::<$t>(&mut j); lean_pairs::<$t>(&mut j); )* } }
    if all {
        walks! { Chunk<u32, 2>, RingBuffer<u32, 2> }
        lean_windows::<u32, 2>(&mut j);
    }
    if t || cfg!(target_endian = "big") && all {
        byte_jobs::<Chunk<u8, 1>>(&mut j, 1, 1, false);
        byte_jobs::<RingBuffer<u8, 1>>(&mut j, 1, 1, false);
    }
    walks! { InlineArray<u32, [u8; 3 * 4 + W]>, InlineArray<u64, [u8; 2 * 8 + W]> }
    lean_convert::<u32, [u8; 12 + W], 3>(&mut j);
    lean_convert::<u64, [u8; 16 + W], 3>(&mut j);
    if t {
        counter_job::<[u8; 66000]>(&mut j);
        two! { u32, 3; u32, 4; u8, 3; u128, 3 }
        walks! { Chunk<u32, 3>, RingBuffer<u32, 3>, Chunk<u16, 4>, RingBuffer<u16, 4>, InlineArray<u16, [u8; 4 * 2 + W]> }
        lean_windows::<u32, 3>(&mut j);
        lean_windows::<u16, 4>(&mut j);
        ia! { u32, [u8; 5 * 4 + W]; u64, [u64; 5] }
        sp! { u32, 3, 10; u32, 4, 10; u8, 64, 1; u8, 128, 1 }
    }
    run_jobs(&a, j)
}
