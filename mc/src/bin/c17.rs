use mc::geometry::*;
use mc::harness::*;
macro_rules! cross {
    ($j:expr; [$($u:ty, $s:expr;)*] $h:tt) => { $( cross!(@ $j; $u, $s; $h); )* };
    (@ $j:expr; $u:ty, $s:expr; [$($v:ty, $($z:expr),*;)*]) => { $(
        job($j, format!("geometry of ({}, {}) in ({}, ..)", stringify!($u), $s, stringify!($v)), || vec![ $( table::<$u, $s, $v, $z>(stringify!($u), stringify!($v)) ),* ]);
    )* };
}
fn main() {
    let a = args();
    let mut j = vec![];
    cross! { &mut j;
        [ u8, 0; u8, 1; u8, 2; u8, 3; u8, 5; u8, 8; u8, 16; u8, 23; u16, 2; u16, 6; u32, 4; u32, 12;
          u64, 0; u64, 8; u64, 16; u64, 24; u128, 0; u128, 16; u128, 48; A32, 32; A64, 64; A64, 128; ]
        [ u8, 1, 8, 9, 10, 11, 12, 15, 16, 17, 23, 24, 25, 31, 33, 40, 47, 65, 100, 264;
          u16, 10, 14, 16, 22, 50; u32, 8, 12, 20, 28, 68;
          u64, 8, 16, 24, 32, 40, 56, 72, 136, 520;
          u128, 16, 32, 48, 64, 80, 144; A32, 32, 64, 128; A64, 64, 128, 256; ]
    }
    run_jobs(&a, j)
}
