use mc::elem::*;
use mc::harness::*;
use mc::slices::*;
fn main() {
    let a = args();
    let t = a.thorough();
    let mut j = vec![];
    slice_jobs::<Tok, 0>(&mut j, 2, 1, true);
    slice_jobs::<Cln, 3>(&mut j, 2, 2, true);
    slice_jobs::<Tok, 1>(&mut j, 4, 1, true);
    slice_jobs::<Tok, 2>(&mut j, 4, 1, true);
    slice_jobs::<Tok, 3>(&mut j, 3, 4, true);
    slice_jobs::<Tok, 4>(&mut j, 2, 8, true);
    slice_jobs::<Tok, 5>(&mut j, 1, 16, false);
    slice_jobs::<u8, 4>(&mut j, 1, 8, true);
    slice_jobs::<TokZ, 3>(&mut j, 1, 2, true);
    slice_jobs::<u32, 6>(&mut j, 1, 16, false);
    slice_jobs::<TokZ, { usize::MAX }>(&mut j, 1, 4, false);
    long_slice_jobs::<u16, 300>(&mut j, 16);
    long_slice_jobs::<u32, 66000>(&mut j, 16);
    if t {
        slice_jobs::<Tok, 5>(&mut j, 2, 32, true);
        slice_jobs::<Tok, 6>(&mut j, 1, 64, true);
        slice_jobs::<u32, 7>(&mut j, 1, 64, false);
        slice_jobs::<u32, 8>(&mut j, 1, 64, false);
        slice_jobs::<u16, 16>(&mut j, 1, 128, false);
    }
    run_jobs(&a, j)
}
