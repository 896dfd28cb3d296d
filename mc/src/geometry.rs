//! C17: where InlineArray puts its elements and its counter, over a grid of element and host types.
use crate::harness::{guard, Ctx, Job};
use sized_chunks::InlineArray;
use std::mem::{align_of, size_of, MaybeUninit};

/// an element of any size and alignment whose bytes are all significant
#[repr(C)]
#[derive(Clone, Copy)]
pub struct El<U: Copy, const S: usize> {
    a: [U; 0],
    b: [u8; S],
}
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct A32;
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct A64;

type Arr<U, const S: usize, V, const Z: usize> = InlineArray<El<U, S>, El<V, Z>>;

/// everything the driver needs of one element/host pairing, so that the driver itself is compiled once
pub struct Table {
    pub name: String,
    esize: usize,
    ealign: usize,
    hsize: usize,
    halign: usize,
    size: usize,
    align: usize,
    cap: usize,
    sig: usize,
    make: fn(*mut u8),
    len: fn(*const u8) -> usize,
    push: fn(*mut u8, u8),
    pop: fn(*mut u8) -> Option<u8>,
    insert: fn(*mut u8, usize, u8),
    remove: fn(*mut u8, usize) -> u8,
    set: fn(*mut u8, usize, u8),
    slice: fn(*const u8) -> (usize, usize),
    slice_mut: fn(*mut u8) -> (usize, usize),
    full: fn(*const u8) -> bool,
    drop: fn(*mut u8),
    copy: fn(*const u8, *mut u8),
}
fn el<U: Copy, const S: usize>(k: u8) -> El<U, S> {
    El { a: [], b: std::array::from_fn(|i| pat(k, i)) }
}
/// byte i of the element carrying k: 0 and 255 are solid, the rest varies
fn pat(k: u8, i: usize) -> u8 {
    match k {
        0 | 255 => k,
        k => k.wrapping_mul(29).wrapping_add(i as u8),
    }
}
/// the k an element carries; 77 when its bytes are not those of any element
fn un<U: Copy, const S: usize>(e: &El<U, S>) -> u8 {
    if S == 0 {
        return 1;
    }
    for k in [0, 255, (e.b[0] as u16 * 53 % 256) as u8] {
        if (0..S).all(|i| e.b[i] == pat(k, i)) {
            return k;
        }
    }
    77
}
pub fn table<U: Copy + 'static, const S: usize, V: Copy + 'static, const Z: usize>(ua: &str, va: &str) -> Table {
    macro_rules! me { ($p:expr) => { unsafe { &*($p as *const Arr<U, S, V, Z>) } } }
    macro_rules! mm { ($p:expr) => { unsafe { &mut *($p as *mut Arr<U, S, V, Z>) } } }
    Table {
        name: format!("element {{align {}, {} bytes}} in host {{align {}, {} bytes}}", ua, S, va, Z),
        esize: size_of::<El<U, S>>(),
        ealign: align_of::<El<U, S>>(),
        hsize: size_of::<El<V, Z>>(),
        halign: align_of::<El<V, Z>>(),
        size: size_of::<Arr<U, S, V, Z>>(),
        align: align_of::<Arr<U, S, V, Z>>(),
        cap: Arr::<U, S, V, Z>::CAPACITY,
        sig: S,
        make: |p| unsafe { (p as *mut Arr<U, S, V, Z>).write(InlineArray::new()) },
        len: |p| me!(p).len(),
        push: |p, k| mm!(p).push(el(k)),
        pop: |p| mm!(p).pop().map(|e| un(&e)),
        insert: |p, i, k| mm!(p).insert(i, el(k)),
        remove: |p, i| un(&mm!(p).remove(i).expect("an element is there")),
        set: |p, i, k| mm!(p)[i] = el(k),
        slice: |p| {
            let s: &[El<U, S>] = me!(p);
            (s.as_ptr() as usize, s.len())
        },
        slice_mut: |p| {
            let s: &mut [El<U, S>] = mm!(p);
            (s.as_mut_ptr() as usize, s.len())
        },
        full: |p| me!(p).is_full(),
        drop: |p| unsafe { std::ptr::drop_in_place(p as *mut Arr<U, S, V, Z>) },
        copy: |p, q| unsafe { (q as *mut Arr<U, S, V, Z>).write((*(p as *const Arr<U, S, V, Z>)).clone()) },
    }
}

const CANARY: u8 = 0xA5;
/// the abstract machine is slow, and sees by itself what leaves the allocation
const LEAN: bool = cfg!(miri);
const MARGIN: usize = if LEAN { 0 } else { 32 };
/// memory for one array at an exact alignment (not more), surrounded by canaries
struct Place {
    mem: Box<[MaybeUninit<u8>]>,
    at: usize,
    size: usize,
}
impl Place {
    /// `salt` chooses among the addresses of the right alignment
    fn new(t: &Table, salt: usize, fill: u8) -> Place {
        let mut mem = vec![MaybeUninit::new(CANARY); t.size + if LEAN { t.align } else { 64 + 8 * t.align.max(64) }].into_boxed_slice();
        let base = mem.as_mut_ptr() as usize;
        let mut at = (base + MARGIN + t.align - 1) / t.align * t.align;
        if !LEAN {
            at += t.align * (salt % 4);
        }
        let at = at - base;
        unsafe { mem[at..at + t.size].as_mut_ptr().write_bytes(fill, t.size) };
        Place { mem, at, size: t.size }
    }
    fn p(&mut self) -> *mut u8 {
        unsafe { self.mem.as_mut_ptr().add(self.at) as *mut u8 }
    }
    fn zones(&self, what: &str) -> Result<(), String> {
        if LEAN {
            return Ok(());
        }
        for (i, b) in self.mem.iter().enumerate() {
            if (i < self.at || i >= self.at + self.size) && unsafe { b.assume_init() } != CANARY {
                return Err(format!("{}: the byte at offset {} of the array (it has {} bytes) was written", what, i as isize - self.at as isize, self.size));
            }
        }
        Ok(())
    }
}
fn check(t: &Table, pl: &mut Place, m: &[u8], what: &str) -> Result<(), String> {
    let p = pl.p();
    let n = m.len();
    if (t.len)(p) != n {
        return Err(format!("{}: length {} where {} elements were put", what, (t.len)(p), n));
    }
    if (t.full)(p) != (n >= t.cap) {
        return Err(format!("{}: is_full() is {} at length {} of {}", what, (t.full)(p), n, t.cap));
    }
    for (a, k) in [(t.slice)(p), (t.slice_mut)(p)] {
        if k != n {
            return Err(format!("{}: slice of {} elements at length {}", what, k, n));
        }
        if a % t.ealign != 0 {
            return Err(format!("{}: elements at address offset {} are not aligned to {}", what, a as isize - p as isize, t.ealign));
        }
        if n > 0 && t.esize > 0 {
            let (lo, hi) = (p as usize, p as usize + t.size);
            if a < lo || a + n * t.esize > hi {
                return Err(format!("{}: slots occupy bytes {}..{} of an array of {} bytes", what, a as isize - lo as isize, a + n * t.esize - lo, t.size));
            }
            for (i, k) in m.iter().enumerate() {
                for j in 0..t.sig {
                    let b = unsafe { *((a + i * t.esize + j) as *const u8) };
                    if b != pat(*k, j) {
                        return Err(format!("{}: byte {} of element {} is {}, it was {}", what, j, i, b, pat(*k, j)));
                    }
                }
            }
        }
    }
    pl.zones(what)
}
/// pattern number s: the key of slot i
fn key(t: &Table, s: usize, i: usize) -> u8 {
    if t.sig == 0 {
        return 1;
    }
    match s {
        0 => 255,
        1 => 0,
        _ => (i % 70) as u8 + 1,
    }
}
fn one(t: &Table, n: usize, s: usize) -> Result<(), String> {
    let mut pl = Place::new(t, n, if s == 1 { 0xFF } else { 0 });
    let p = pl.p();
    (t.make)(p);
    let mut m: Vec<u8> = vec![];
    check(t, &mut pl, &m, "new")?;
    for i in 0..n {
        (t.push)(p, key(t, s, i));
        m.push(key(t, s, i));
        // (every prefix is a fill level of its own)
    }
    check(t, &mut pl, &m, "filled")?;
    // overwritten in place, each slot alone, with the extremes
    if n <= if LEAN { 3 } else { 40 } {
        for i in 0..n {
            for k in [255, 0, 5] {
                let k = if t.sig == 0 { 1 } else { k };
                (t.set)(p, i, k);
                let old = std::mem::replace(&mut m[i], k);
                check(t, &mut pl, &m, "slot overwritten")?;
                (t.set)(p, i, old);
                m[i] = old;
            }
        }
    }
    // moved elsewhere, the old memory overwritten
    let mut q = Place::new(t, n + 1, 0x3C);
    unsafe { std::ptr::copy_nonoverlapping(p, q.p(), t.size) };
    unsafe { std::ptr::write_bytes(p, 0x99, t.size) };
    check(t, &mut q, &m, "moved")?;
    // cloned
    let mut r = Place::new(t, n + 2, 0xC3);
    (t.copy)(q.p(), r.p());
    check(t, &mut r, &m, "clone")?;
    // a neighbour on each side, as in an array of arrays
    {
        let mut mem = Place { mem: vec![MaybeUninit::new(CANARY); t.size * 3 + 2 * MARGIN + 2 * t.align].into_boxed_slice(), at: 0, size: t.size * 3 };
        let base = mem.mem.as_ptr() as usize;
        mem.at = (base + MARGIN + t.align - 1) / t.align * t.align - base;
        let b = mem.p();
        let ps = [b, unsafe { b.add(t.size) }, unsafe { b.add(2 * t.size) }];
        for x in ps {
            (t.make)(x);
        }
        for i in 0..n {
            for (j, x) in ps.iter().enumerate() {
                (t.push)(*x, key(t, (s + j) % 3, i));
            }
        }
        for (j, x) in ps.iter().enumerate() {
            if (t.len)(*x) != n {
                return Err(format!("array {} of three adjacent ones has length {} instead of {}", j, (t.len)(*x), n));
            }
        }
        for i in (0..n).rev() {
            for (j, x) in ps.iter().enumerate() {
                let g = (t.pop)(*x);
                if g != Some(key(t, (s + j) % 3, i)) {
                    return Err(format!("element {} of array {} of three adjacent ones came out as {:?}", i, j, g));
                }
            }
        }
        for x in ps {
            (t.drop)(x)
        }
        mem.zones("three arrays side by side")?;
    }
    // refused at capacity
    if n == t.cap {
        for i in 0..2 {
            if guard(|| if i == 0 { (t.push)(q.p(), 9) } else { (t.insert)(q.p(), 0, 9) }).is_ok() {
                return Err(format!("{} accepted at capacity {}", if i == 0 { "push" } else { "insert" }, t.cap));
            }
            check(t, &mut q, &m, "after the refusal")?;
        }
    } else {
        for i in 0..=n {
            if n > 12 && i % (n / 5) != 0 && i != n {
                continue;
            }
            let k = if t.sig == 0 { 1 } else { 7 };
            (t.insert)(r.p(), i, k);
            let mut x = m.clone();
            x.insert(i, k);
            check(t, &mut r, &x, "inserted")?;
            if (t.remove)(r.p(), i) != k {
                return Err(format!("remove({}) gave another element", i));
            }
            check(t, &mut r, &m, "removed")?;
        }
    }
    for i in (0..n).rev() {
        let g = (t.pop)(q.p());
        if g != Some(m[i]) {
            return Err(format!("pop gave {:?} instead of {}", g, m[i]));
        }
        m.pop();
        if i % 8 == 0 {
            check(t, &mut q, &m, "popped")?;
        }
    }
    if (t.pop)(q.p()).is_some() {
        return Err("pop of an empty array gave an element".into());
    }
    (t.drop)(q.p());
    (t.drop)(r.p());
    q.zones("dropped")?;
    r.zones("dropped")
}
pub fn grid(ctx: &mut Ctx, ts: &[Table]) {
    for (i, t) in ts.iter().enumerate() {
        ctx.state(i);
        if ctx.stopped() {
            return;
        }
        ctx.add("pairings", 1);
        ctx.run(
            || format!("{}: layout", t.name),
            || {
                // `u64` counts on every target: "to handle all common types on 32-bit systems too"
                let al = t.halign.max(align_of::<(u64, usize)>());
                if t.align != al {
                    return Err(format!("alignment {}, the host has {} and u64 {}", t.align, t.halign, align_of::<u64>()));
                }
                let size = (t.hsize + t.align - 1) / t.align * t.align;
                if t.size != size {
                    return Err(format!("{} bytes, the host rounded up to alignment {} has {}", t.size, t.align, size));
                }
                let cap = if t.esize == 0 {
                    usize::MAX
                } else if t.ealign > t.align || t.hsize <= size_of::<usize>() {
                    0
                } else {
                    (t.hsize - size_of::<usize>()) / t.esize
                };
                if t.cap != cap {
                    return Err(format!("capacity {}, expected {} ({} bytes of host, {} of element)", t.cap, cap, t.hsize, t.esize));
                }
                Ok(())
            },
        );
        if t.hsize <= size_of::<usize>() || t.esize == 0 && t.ealign > t.align {
            // no room for the counter, or not constructible: nothing to place
            continue;
        }
        for n in 0..=t.cap.min(260) {
            if t.cap == usize::MAX && n > 20 && n != 260 || (n > 48 && n < t.cap.min(260) - 9 && n % 16 != 0) {
                continue;
            }
            if LEAN && n > 2 && n != t.cap.min(258) && n + 1 != t.cap {
                continue;
            }
            ctx.add("states", 1);
            for s in if LEAN { 2 } else { 0 }..3 {
                if ctx.stopped() {
                    return;
                }
                ctx.add("transitions", 2 * n as u64 + 8);
                ctx.run(|| format!("{}: {} elements, pattern {}", t.name, n, s), || one(t, n, s));
            }
        }
    }
}
pub fn job(jobs: &mut Vec<Job>, name: String, ts: fn() -> Vec<Table>) {
    jobs.push(Job { name, f: Box::new(move |ctx| grid(ctx, &ts())) });
}
