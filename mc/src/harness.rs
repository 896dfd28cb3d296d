//! Job runner: deterministic case addresses, progress for the watchdog, counters, violations, JSON report.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    static SLOT: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
    static LASTPANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// On the abstract machine mismatches with the models count only where this is set.
pub static JUDGE: AtomicBool = AtomicBool::new(!cfg!(miri));
static STOP: AtomicBool = AtomicBool::new(false);

/// On the abstract machine: progress goes through a file, and mismatches with the models do not count (they belong to
/// the other checks); only what the machine itself refuses does.
#[cfg(miri)]
pub mod abstract_machine {
    use super::*;
    pub static PROGRESS: Mutex<Option<(std::fs::File, u64)>> = Mutex::new(None);
    pub fn put(words: [u64; 4]) {
        use std::os::unix::fs::FileExt;
        if let Some((f, n)) = PROGRESS.lock().unwrap().as_mut() {
            *n += 1;
            let mut b = [0u8; 40];
            for (i, w) in [*n, words[0], words[1], words[2], words[3]].iter().enumerate() {
                b[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes())
            }
            let _ = f.write_all_at(&b, 0);
        }
    }
}
pub fn set_slot(words: [u64; 4]) {
    #[cfg(miri)]
    return abstract_machine::put(words);
    #[cfg(not(miri))]
    set_slot_mapped(words)
}
#[cfg(not(miri))]
fn set_slot_mapped(words: [u64; 4]) {
    let p = SLOT.with(|s| s.get());
    if !p.is_null() {
        unsafe {
            p.add(1).write_volatile(words[0]);
            p.add(2).write_volatile(words[1]);
            p.add(3).write_volatile(words[2]);
            p.add(4).write_volatile(words[3]);
            p.write_volatile(p.read_volatile().wrapping_add(1));
        }
    }
}

/// Run `f`, catching a panic; Err is its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            drop(e);
            Err(m)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub addr: [u64; 3],
    pub case: String,
    pub detail: String,
}
#[derive(Default)]
pub struct Counters(pub BTreeMap<&'static str, u64>);

pub struct Ctx {
    pub job: u64,
    pub job_name: String,
    state: u64,
    case: u64,
    only: Option<[u64; 3]>,
    pub c: BTreeMap<&'static str, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub digest: u64,
    pub thorough: bool,
}
impl Ctx {
    /// not part of a run
    pub fn detached(name: &str, thorough: bool) -> Self {
        Ctx {
            job: 0,
            job_name: name.into(),
            state: 0,
            case: 0,
            only: None,
            c: BTreeMap::new(),
            violations: vec![],
            samples: vec![],
            digest: 0,
            thorough,
        }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
    }
    pub fn state(&mut self, i: usize) {
        self.state = i as u64;
        self.case = 0;
    }
    pub fn stopped(&self) -> bool {
        STOP.load(Relaxed) || self.violations.len() >= 3
    }
    /// replaying a single case: the other cases are not executed
    pub fn only_other(&self) -> bool {
        self.only.is_some()
    }
    /// mark progress outside of cases (exploration)
    pub fn beat(&mut self) {
        set_slot([self.job, u64::MAX, u64::MAX, 0]);
    }
    /// Execute one case. `desc` is only evaluated when needed. Returns false if it was not run or failed.
    pub fn run(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        let addr = [self.job, self.state, self.case];
        self.case += 1;
        if let Some(o) = self.only {
            if o != addr {
                return true;
            }
            println!("CASE {}", desc());
            use std::io::Write;
            let _ = std::io::stdout().flush();
        }
        if self.stopped() {
            return false;
        }
        set_slot([addr[0], addr[1], addr[2], 1]);
        if JUDGE.load(Relaxed) {
            crate::elem::reset();
        }
        if self.samples.len() < if cfg!(miri) { 1 } else { 3 } {
            let d = desc();
            self.samples.push(format!("{}: {}", self.job_name, d));
        }
        let r = match guard(f) {
            Ok(r) => r,
            Err(m) => Err(format!("unexpected panic: {}", m)),
        };
        crate::elem::disarm();
        if !JUDGE.load(Relaxed) {
            return true;
        }
        if let Err(detail) = r {
            let case = format!("{}: {}", self.job_name, desc());
            if self.only.is_some() {
                println!("FAILED {}", detail);
            }
            self.violations.push(Violation { addr, case, detail });
            return false;
        }
        true
    }
}

pub struct Job {
    pub name: String,
    pub f: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}
pub struct Args {
    pub tier: String,
    pub out: Option<String>,
    pub progress: Option<String>,
    pub only: Option<[u64; 3]>,
    pub threads: usize,
    pub part: Option<String>,
}
impl Args {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}
pub fn args() -> Args {
    let mut a = Args { tier: "quick".into(), out: None, progress: None, only: None, threads: 8, part: None };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i + 1 < v.len() {
        let x = v[i + 1].clone();
        match v[i].as_str() {
            "--tier" => a.tier = x,
            "--out" => a.out = Some(x),
            "--progress" => a.progress = Some(x),
            "--threads" => a.threads = x.parse().unwrap(),
            "--part" => a.part = Some(x),
            "--only" => {
                let p: Vec<u64> = x.split(',').map(|s| s.parse::<i64>().unwrap() as u64).collect();
                a.only = Some([p[0], p[1], p[2]])
            }
            _ => panic!("unknown argument {}", v[i]),
        }
        i += 2;
    }
    a
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[cfg(not(miri))]
fn map_progress(path: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("progress file");
    f.set_len(64 * 64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), 64 * 64, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p as *mut u64
}
#[cfg(miri)]
fn map_progress(path: &str) -> *mut u64 {
    let f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(path).expect("progress file");
    *abstract_machine::PROGRESS.lock().unwrap() = Some((f, 0));
    std::ptr::null_mut()
}

/// Run all jobs, write the report, exit 0 (no violation) or 1.
pub fn run_jobs(args: &Args, jobs: Vec<Job>) -> ! {
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    let base = match &args.progress {
        Some(p) => map_progress(p) as usize,
        None => 0,
    };
    let next = AtomicUsize::new(0);
    // k/n: every n-th job
    let part: Option<(usize, usize)> = args.part.as_ref().and_then(|p| p.split_once('/')).map(|(k, n)| (k.parse().unwrap(), n.parse().unwrap()));
    let total: Mutex<(BTreeMap<&'static str, u64>, Vec<Violation>, Vec<(usize, Vec<String>)>, Vec<(usize, u64)>)> = Mutex::new(Default::default());
    let nv = AtomicUsize::new(0);
    let timing = std::env::var("MC_TIMING").is_ok();
    std::thread::scope(|s| {
        for t in 0..args.threads.max(1) {
            let (next, total, jobs, nv) = (&next, &total, &jobs, &nv);
            // room for several containers of tens of thousands of elements
            let worker = move || {
                if base != 0 {
                    SLOT.with(|x| x.set((base + t * 64) as *mut u64));
                }
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= jobs.len() || STOP.load(Relaxed) {
                        break;
                    }
                    if part.map_or(false, |(k, n)| i % n != k) {
                        continue;
                    }
                    if let Some(o) = args.only {
                        if o[0] != i as u64 {
                            continue;
                        }
                    }
                    let j = &jobs[i];
                    let tj = Instant::now();
                    let mut ctx = Ctx {
                        job: i as u64,
                        job_name: j.name.clone(),
                        state: 0,
                        case: 0,
                        only: args.only,
                        c: BTreeMap::new(),
                        violations: vec![],
                        samples: vec![],
                        digest: 0,
                        thorough: args.thorough(),
                    };
                    set_slot([i as u64, u64::MAX, u64::MAX, 2]);
                    if let (Err(m), true) = (guard(|| (j.f)(&mut ctx)), JUDGE.load(Relaxed)) {
                        // a panic outside of a case: code under test misbehaving while states are set up
                        ctx.violations.push(Violation {
                            addr: [i as u64, u64::MAX, u64::MAX],
                            case: format!("{}: exploration", j.name),
                            detail: format!("unexpected panic while exploring: {}", m),
                        });
                    }
                    if timing {
                        eprintln!("{:8.3}s {} {:?}", tj.elapsed().as_secs_f64(), j.name, ctx.c);
                    }
                    let mut g = total.lock().unwrap();
                    for (k, v) in ctx.c {
                        *g.0.entry(k).or_insert(0) += v;
                    }
                    if nv.fetch_add(ctx.violations.len(), SeqCst) + ctx.violations.len() >= 12 {
                        STOP.store(true, SeqCst);
                    }
                    g.1.extend(ctx.violations);
                    g.2.push((i, ctx.samples));
                    g.3.push((i, ctx.digest));
                }
                set_slot([u64::MAX, 0, 0, 9]);
            };
            std::thread::Builder::new().stack_size(if cfg!(miri) { 1 << 24 } else { 1 << 28 }).spawn_scoped(s, worker).expect("worker thread");
        }
    });
    let (c, mut v, mut s, mut d) = total.into_inner().unwrap();
    v.sort_by_key(|v| v.addr);
    s.sort();
    d.sort();
    let mut samples: Vec<String> = vec![];
    let step = (s.len() / 6).max(1);
    for (_, x) in s.iter().step_by(step) {
        if let Some(x) = x.last() {
            samples.push(x.clone());
        }
    }
    let mut o = String::from("{");
    o += &format!("\"jobs\":{},\"wall_s\":{:.3},", jobs.len(), t0.elapsed().as_secs_f64());
    o += "\"counters\":{";
    o += &c.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"samples\":[";
    o += &samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    o += "],\"digests\":[";
    o += &d.iter().filter(|x| x.1 != 0).map(|(i, d)| format!("[{},\"{:016x}\"]", esc(&jobs[*i].name), d)).collect::<Vec<_>>().join(",");
    o += "],\"violations\":[";
    o += &v
        .iter()
        .map(|v| format!("{{\"addr\":[{}],\"case\":{},\"detail\":{}}}", v.addr.map(|x| (x as i64).to_string()).join(","), esc(&v.case), esc(&v.detail)))
        .collect::<Vec<_>>()
        .join(",");
    o += "]}";
    if let Some(p) = &args.out {
        std::fs::write(p, &o).expect("write report");
    } else {
        println!("{}", o);
    }
    std::process::exit(if v.is_empty() { 0 } else { 1 })
}
