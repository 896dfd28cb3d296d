use mc::elem::*;
use mc::harness::*;
use mc::sparse::*;
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    macro_rules! sp { ($($e:ty, $n:expr, $max:expr, $sh:expr);* $(;)?) => { $( sjobs::<$e, $n>(&mut j, "transitions", $max, 4, $sh, |c, h, i| scheck::<$e, $n>(c, h, i, $max)); )* } }
    sp! {
        Tok, 1, 10, 1; Tok, 2, 10, 1; Tok, 3, 10, 1; Tok, 4, 10, 1; Tok, 5, 10, 1; Tok, 6, 10, 1; Tok, 7, 10, 2; Tok, 8, 10, 4;
        u8, 8, 10, 2; Box<u32>, 6, 10, 1; u128, 7, 10, 1; TokZ, 5, 10, 1; TokB, 9, 10, 4; u64, 10, 10, 4;
        Tok, 16, 7, 2; Tok, 31, 7, 2; Tok, 32, 8, 2; Tok, 33, 8, 2; Tok, 63, 7, 4; Tok, 64, 8, 8; Tok, 65, 8, 8; Tok, 127, 7, 8; Tok, 128, 8, 8; Tok, 129, 8, 8;
        u8, 64, 8, 4; u32, 128, 8, 4; u8, 200, 8, 8; u16, 256, 8, 8; u8, 1024, 6, 8;
    }
    if t {
        sp! { Tok, 11, 12, 8; Tok, 12, 12, 16; Tok, 64, 11, 32; Tok, 129, 11, 32; u8, 257, 10, 32; u8, 1024, 9, 32; u8, 511, 9, 32; u8, 513, 9, 32; }
    }
    macro_rules! sq { ($($e:ty, $n:expr, $d:expr, $sh:expr);* $(;)?) => { $( for s in 0..$sh {
        j.push(Job { name: format!("sequences depth {} SparseChunk<{},{}> {}/{}", $d, <$e>::NAME, $n, s, $sh), f: Box::new(move |c| ssequences::<$e, $n>(c, $d, s, $sh)) });
    } )* } }
    sq! { Tok, 1, 5, 4; Tok, 2, 4, 8; Tok, 3, 4, 8; TokB, 4, 3, 4; }
    if t {
        sq! { Tok, 2, 5, 16; Tok, 3, 5, 32; Tok, 4, 4, 16; }
    }
    run_jobs(&a, j)
}
