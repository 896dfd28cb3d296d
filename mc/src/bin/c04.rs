use mc::elem::*;
use mc::functional::*;
use mc::harness::*;
use sized_chunks::InlineArray;
fn main() {
    let a = args();
    let t = a.thorough();
    let r = if t { 8 } else { 4 };
    let mut j = vec![];
    macro_rules! full { ($($e:ty, $t:ty);* $(;)?) => { $( jobs_for::<InlineArray<$e, $t>>(&mut j, r, if InlineArray::<$e, $t>::CAPACITY > 12 { 8 } else { 1 }, InlineArray::<$e, $t>::CAPACITY < 20 || t); )* } }
    full! {
        // tracked 12-byte tokens, header first: capacity 0, 1, 2, 3, 4, 6, 8, 16
        Tok, [usize; 2]; Tok, [usize; 3]; Tok, [usize; 4]; Tok, [usize; 6]; Tok, [usize; 7]; Tok, [usize; 10]; Tok, [usize; 13]; Tok, [usize; 25];
        Tok, [u8; 33]; Tok, [u32; 9]; Tok, [u128; 3];
        // one byte, odd and even hosts: capacity 1, 2, 3, 8, 63
        u8, [u8; 9]; u8, [u8; 10]; u8, [u8; 11]; u8, [usize; 2]; u8, [u8; 71];
        TokB, [u8; 13]; [u8; 3], [u16; 9]; u16, [u8; 17]; u64, [u64; 5]; u32, [usize; 33];
        // over-aligned elements: header after the elements
        u128, [u128; 4]; u128, [u128; 2]; Al16, [u128; 4]; Al16, [Al16; 6]; Al64, [Al64; 4]; Al64, [Al64; 2]; Al64, [Al64; 1];
        // alignment cannot be guaranteed: no capacity
        u128, [u8; 64]; Al64, [usize; 40]; Al64, [u128; 40];
        // capacities beyond a byte and beyond 16 bits, and large elements
        u8, [u8; 300]; u32, [u32; 400]; u8, [u8; 66000]; u16, [u16; 66000]; [u64; 17], [u64; 90];
        // zero-sized
        TokZ, [usize; 2]; TokZ, [u8; 9]; (), [usize; 4];
    }
    seq_jobs_for::<InlineArray<Tok, [usize; 3]>>(&mut j, 4, 4);
    seq_jobs_for::<InlineArray<Tok, [usize; 4]>>(&mut j, 4, 8);
    seq_jobs_for::<InlineArray<Tok, [usize; 6]>>(&mut j, 3, 8);
    seq_jobs_for::<InlineArray<u128, [u128; 3]>>(&mut j, 4, 8);
    seq_jobs_for::<InlineArray<TokZ, [usize; 2]>>(&mut j, 3, 8);
    if t {
        seq_jobs_for::<InlineArray<Tok, [usize; 6]>>(&mut j, 4, 16);
        seq_jobs_for::<InlineArray<TokB, [u8; 12]>>(&mut j, 4, 16);
    }
    run_jobs(&a, j)
}
