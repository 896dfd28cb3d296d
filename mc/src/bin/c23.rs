//! prints a digest per job; run.py compares the digests of all configurations
use mc::harness::*;
fn main() {
    let a = args();
    let mut jobs = mc::digest::all_jobs(a.thorough());
    // --part FILE with --only JOB,..: trace the cases of that job
    if let (Some(p), Some(o)) = (&a.part, a.only) {
        std::panic::set_hook(Box::new(|_| {}));
        let j = jobs.remove(o[0] as usize);
        mc::digest::trace_to(p);
        let mut ctx = Ctx::detached(&j.name, a.thorough());
        (j.f)(&mut ctx);
        mc::digest::trace_end();
        return;
    }
    run_jobs(&a, jobs)
}
