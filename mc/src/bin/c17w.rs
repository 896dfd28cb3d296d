use mc::geometry::*;
use mc::harness::*;
macro_rules! cross {
    ($j:expr; [$($u:ty, $s:expr;)*] $h:tt) => { $( cross!(@ $j; $u, $s; $h); )* };
    (@ $j:expr; $u:ty, $s:expr; [$($v:ty, $($z:expr),*;)*]) => { $(
        job($j, format!("geometry of ({}, {}) in ({}, ..)", stringify!($u), $s, stringify!($v)), || vec![ $( table::<$u, $s, $v, $z>(stringify!($u), stringify!($v)) ),* ]);
    )* };
}
fn main() {
    let a = args();
    let mut j = vec![];
    cross! { &mut j;
        [ u8, 0; u8, 1; u8, 2; u8, 3; u8, 4; u8, 5; u8, 6; u8, 7; u8, 8; u8, 9; u8, 11; u8, 12; u8, 16; u8, 17; u8, 23; u8, 33; u8, 64; u8, 256;
          u16, 0; u16, 2; u16, 4; u16, 6; u16, 10; u16, 18; u32, 0; u32, 4; u32, 8; u32, 12; u32, 20; u32, 36; u64, 0; u64, 8; u64, 16; u64, 24; u64, 40;
          u128, 0; u128, 16; u128, 32; u128, 48; A32, 0; A32, 32; A32, 64; A64, 0; A64, 64; A64, 128; ]
        [ u8, 1, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 40, 41, 47, 48, 49, 63, 64, 65, 72, 80, 100, 127, 128, 129, 264, 1000;
          u16, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 34, 50; u32, 8, 12, 16, 20, 24, 28, 32, 36, 44, 68;
          u64, 8, 16, 24, 32, 40, 48, 56, 64, 72, 80, 96, 136, 256, 520, 1032;
          u128, 16, 32, 48, 64, 80, 96, 112, 144, 272; A32, 32, 64, 96, 128, 160; A64, 64, 128, 192, 256; ]
    }
    run_jobs(&a, j)
}
