use mc::convert::*;
use mc::elem::*;
use mc::harness::*;
fn main() {
    let a = args();
    let t = a.thorough();
    let r = if t { 32 } else { 12 };
    let mut j = vec![];
    macro_rules! go { ($($e:ty, $t:ty);* $(;)?) => { $(
        go!(@ $e, $t, 0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 64);
    )* };
    (@ $e:ty, $t:ty, $($n:expr),*) => { $( convert_jobs::<$e, $t, $n>(&mut j, r); )* } }
    go! { Tok, [u8; 12]; Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 6]; Tok, [usize; 8]; TokB, [u8; 13]; TokB, [u8; 9]; u8, [u8; 11]; u8, [u8; 80]; u16, [u8; 15]; u32, [u64; 4]; u64, [u64; 5];
        u128, [u128; 2]; u128, [u128; 5]; [u8; 3], [u8; 20]; Al16, [u128; 4]; Al64, Al64; Al64, [Al64; 4]; TokZ, [usize; 2]; (), [usize; 2]; Box<u32>, [usize; 4]; u8, [u128; 1]; u128, [u8; 30] }
    convert_jobs::<u16, [u16; 400], 300>(&mut j, 1);
    convert_jobs::<u16, [u16; 300], 300>(&mut j, 1);
    convert_jobs::<u16, [u16; 66000], 66000>(&mut j, 1);
    convert_jobs::<Tok, [u8; 4000], 300>(&mut j, 1);
    convert_jobs::<[u64; 17], [u64; 90], 5>(&mut j, 4);
    run_jobs(&a, j)
}
