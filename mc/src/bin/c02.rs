use mc::elem::*;
use mc::functional::*;
use mc::harness::*;
use sized_chunks::RingBuffer;
fn main() {
    let a = args();
    let t = a.thorough();
    let r = if t { 6 } else { 3 };
    let mut j = vec![];
    macro_rules! full { ($e:ty: $($n:literal),*) => { $( jobs_for::<RingBuffer<$e, $n>>(&mut j, r, if $n > 5 { 8 } else { 1 }, true); )* } }
    jobs_for::<RingBuffer<u32, 64>>(&mut j, if t { 2 } else { 1 }, 32, t);
    jobs_for::<RingBuffer<Tok, 16>>(&mut j, 2, 8, t);
    full!(Tok: 0, 1, 2, 3, 4, 5, 6, 7, 8);
    full!(u8: 3, 6);
    full!([u8; 3]: 4);
    full!(u128: 4);
    full!(Al64: 3);
    full!(TokZ: 0, 1, 3, 5);
    // large elements and large capacities: boundary layouts and arguments
    full!([u64; 17]: 4);
    jobs_for::<RingBuffer<u32, 300>>(&mut j, 2, 8, t);
    jobs_for::<RingBuffer<u16, 66000>>(&mut j, if t { 2 } else { 1 }, 8, t);
    jobs_for::<RingBuffer<TokZ, 0x1_0000_0003>>(&mut j, 12, 1, t);
    jobs_for::<RingBuffer<TokZ, { usize::MAX }>>(&mut j, 12, 1, t);
    seq_jobs_for::<RingBuffer<(), { usize::MAX }>>(&mut j, 3, 4);
    seq_jobs_for::<RingBuffer<Tok, 1>>(&mut j, 4, 4);
    seq_jobs_for::<RingBuffer<Tok, 2>>(&mut j, 3, 8);
    seq_jobs_for::<RingBuffer<Tok, 3>>(&mut j, 3, 8);
    if t {
        seq_jobs_for::<RingBuffer<Tok, 4>>(&mut j, 3, 16);
        seq_jobs_for::<RingBuffer<Tok, 2>>(&mut j, 4, 16);
    }
    run_jobs(&a, j)
}
