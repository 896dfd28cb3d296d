//! C25: what may cross threads, on the abstract machine with its race detector
use mc::harness::*;
use mc::threads::*;
fn main() {
    let a = args();
    let mut j = vec![];
    match std::env::var("C25_ONLY").unwrap_or_default().as_str() {
        "" => {}
        "probe" => {
            probe_job(&mut j);
            run_jobs(&a, j)
        }
        _ => run_jobs(&a, j),
    }
    plain_jobs(&mut j);
    cell_jobs(&mut j);
    bound_jobs(&mut j);
    rc_jobs(&mut j);
    together_jobs(&mut j);
    run_jobs(&a, j)
}
