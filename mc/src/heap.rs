//! C22: containers are inline. A counting allocator watches every operation; sizes and element addresses are bounded.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::seq::*;
use crate::sparse::*;
use arbitrary::{Arbitrary, Unstructured};
use array_ops::{Array, ArrayMut};
use bitmaps::{Bitmap, Bits, BitsImpl};
use refpool::{PoolClone, PoolDefault};
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of, MaybeUninit};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}
/// the global allocator of the checking binary
pub struct Counting;
fn count(blocks: i64, bytes: i64) {
    if ON.with(|o| o.get()) {
        CALLS.with(|c| c.set(c.get() + 1));
        BLOCKS.with(|c| c.set(c.get() + blocks));
        BYTES.with(|c| c.set(c.get() + bytes));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Run `f` with the allocator watched: (calls, live blocks, live bytes), and whether it panicked.
fn watch(f: impl FnOnce()) -> (u64, i64, i64, bool) {
    CALLS.with(|c| c.set(0));
    BLOCKS.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let p = guard(f).is_err();
    ON.with(|o| o.set(false));
    (CALLS.with(|c| c.get()), BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get()), p)
}
/// no use of the heap at all; after a refusal (whose message is on the heap) nothing is left behind
fn judge(what: &dyn Debug, refused: bool, r: (u64, i64, i64, bool)) -> Result<(), String> {
    if r.3 != refused {
        return Err(format!("{:?} {}", what, if r.3 { "panicked" } else { "was not refused" }));
    }
    if !refused && r.0 != 0 {
        return Err(format!("{:?} called the allocator {} times", what, r.0));
    }
    if r.1 != 0 || r.2 != 0 {
        return Err(format!("{:?} left {} blocks, {} bytes on the heap", what, r.1, r.2));
    }
    Ok(())
}
/// one entry of the closure lists below
pub struct Quiet {
    err: Option<String>,
    n: u64,
}
impl Quiet {
    pub fn no(&mut self, what: &str, f: impl FnOnce()) {
        self.n += 1;
        let r = watch(f);
        if let Err(e) = judge(&what, false, r) {
            self.err.get_or_insert(e);
        }
    }
}
/// is the allocator really watched? (a check that sees nothing is worse than none)
pub fn selftest() {
    let r = watch(|| drop(std::hint::black_box(Box::new(5u64))));
    assert!(r.0 == 2 && r.1 == 0, "harness: allocator is not watched");
    let r = watch(|| std::mem::forget(std::hint::black_box(vec![1u8; 9])));
    assert!(r.0 == 1 && r.1 == 1 && r.2 == 9, "harness: allocator is not watched");
}

struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3)
        }
    }
}
pub trait Plain: Elem + Copy + for<'a> Arbitrary<'a> {}
impl<T: Elem + Copy + for<'a> Arbitrary<'a>> Plain for T {}

/// the rest of the interface: everything that is not an `Op`
pub trait Heap: Seq {
    fn header() -> usize;
    fn bound() -> usize;
    fn extra(&mut self, other: &mut Self, v: &[Self::E], bytes: &[u8], q: &mut Quiet);
}
fn round(n: usize, a: usize) -> usize {
    (n + a - 1) / a * a
}
macro_rules! shared {
    ($self:ident, $o:ident, $v:ident, $q:ident, $room:expr) => {
        use std::fmt::Write;
        $q.no("extend from references", || $self.extend($v[..$room.min($v.len())].iter()));
        $q.no("len, is_empty, is_full", || {
            std::hint::black_box(($self.length(), $self.empty(), $self.full()));
        });
        $q.no("iter", || assert!($self.iter().count() == $self.length()));
        $q.no("rev", || assert!($self.iter().rev().count() == $self.length()));
        $q.no("iter_mut", || $self.iter_mut().for_each(|e| *e = *e));
        $q.no("iter_mut rev", || $self.iter_mut().rev().for_each(|e| *e = *e));
        $q.no("for in &", || for _ in &*$self {});
        $q.no("for in &mut", || for _ in &mut *$self {});
        $q.no("==", || {
            std::hint::black_box(*$self == *$o);
        });
        $q.no("== slice", || {
            std::hint::black_box(*$self == $v);
        });
        $q.no("partial_cmp", || {
            std::hint::black_box((*$self).partial_cmp(&*$o));
        });
        $q.no("cmp", || {
            std::hint::black_box(Ord::cmp(&*$self, &*$o));
        });
        $q.no("hash", || $self.hash(&mut Fnv(1)));
        $q.no("{:?}", || write!(Null, "{:?}", $self).unwrap());
        $q.no("{:#?}", || write!(Null, "{:#?}", $self).unwrap());
        $q.no("clone", || drop($self.clone()));
        $q.no("clone_from", || $o.clone_from($self));
        $q.no("default", || drop(Self::default()));
        $q.no("swap and take", || {
            std::mem::swap($self, $o);
            drop(std::mem::take($o))
        });
        $q.no("index", || {
            for i in 0..$self.length() {
                $self[i] = *$self.get(i).unwrap();
                *$self.get_mut(i).unwrap() = $self[i];
            }
        });
    };
}
macro_rules! gen {
    ($q:ident, $bytes:ident) => {
        $q.no("arbitrary", || drop(Self::arbitrary(&mut Unstructured::new($bytes))));
        $q.no("arbitrary_take_rest", || drop(Self::arbitrary_take_rest(Unstructured::new($bytes))));
        $q.no("size_hint", || {
            <Self as Arbitrary>::size_hint(0);
        });
    };
}
macro_rules! pool {
    ($self:ident, $o:ident, $q:ident) => {
        $q.no("default_uninit", || unsafe {
            let mut m = MaybeUninit::<Self>::uninit();
            Self::default_uninit(&mut m);
            drop(m.assume_init())
        });
        $q.no("clone_uninit", || unsafe {
            let mut m = MaybeUninit::<Self>::uninit();
            $self.clone_uninit(&mut m);
            drop(m.assume_init())
        });
    };
}
macro_rules! array_ops {
    ($self:expr, $q:ident, $what:literal) => {
        $q.no(concat!($what, "first, last, binary_search, sort, contains"), || {
            let n = array_ops::HasLength::len(&*$self);
            Array::first(&*$self);
            Array::last(&*$self);
            if n > 1 {
                ArrayMut::sort_unstable(&mut *$self);
            }
            if n > 0 {
                let k = $self[n / 2];
                Array::binary_search(&*$self, &k).unwrap();
                Array::contains(&*$self, &k);
                Array::starts_with(&*$self, &[k][..]);
            }
        })
    };
}
impl<E: Plain, const N: usize> Heap for Chunk<E, N>
where
    BitsImpl<N>: Bits,
{
    fn header() -> usize {
        2 * size_of::<usize>()
    }
    fn bound() -> usize {
        round(N * size_of::<E>() + Self::header(), align_of::<E>().max(align_of::<usize>()))
    }
    fn extra(&mut self, other: &mut Self, v: &[E], bytes: &[u8], q: &mut Quiet) {
        shared!(self, other, v, q, N - self.len());
        gen!(q, bytes);
        pool!(self, other, q);
        q.no("slices", || {
            self.as_slice();
            self.as_mut_slice().reverse();
            let _: &[E] = self.as_ref();
            let _: &mut [E] = self.as_mut();
            self.sort_unstable();
            let n = self.len();
            let _ = &self[n / 2..];
        });
        q.no("insert_ordered", || {
            if self.len() < N {
                self.insert_ordered(E::mk(7))
            }
        });
        let mut ia = InlineArray::<E, [u64; 9]>::new();
        for e in v.iter().take(N.min(InlineArray::<E, [u64; 9]>::CAPACITY)) {
            ia.push(*e)
        }
        q.no("From<&mut InlineArray>", || drop(Self::from(&mut ia)));
        q.no("From<InlineArray>", || drop(Self::from(ia)));
        q.no("drop", || drop(std::mem::replace(self, Self::new())));
    }
}
impl<E: Plain, const N: usize> Heap for RingBuffer<E, N>
where
    BitsImpl<N>: Bits,
{
    fn header() -> usize {
        2 * size_of::<usize>()
    }
    fn bound() -> usize {
        round(N * size_of::<E>() + Self::header(), align_of::<E>().max(align_of::<usize>()))
    }
    fn extra(&mut self, other: &mut Self, v: &[E], bytes: &[u8], q: &mut Quiet) {
        shared!(self, other, v, q, N - self.length());
        gen!(q, bytes);
        pool!(self, other, q);
        q.no("insert_ordered", || {
            if self.length() > 1 {
                ArrayMut::sort_unstable(self)
            }
            if self.length() < N {
                self.insert_ordered(E::mk(7))
            }
        });
        array_ops!(self, q, "ring: ");
        let n = self.length();
        let (a, b) = (n / 3, n - n / 4);
        q.no("slice", || {
            use std::fmt::Write;
            let s = self.slice(a..b);
            let (x, y) = s.clone().split_at((b - a) / 2);
            std::hint::black_box((x == y, x.cmp(&y), x == *self, x.partial_cmp(&y), x == v));
            write!(Null, "{:?}", x).unwrap();
            x.hash(&mut Fnv(1));
            for _ in x.iter() {}
            for _ in &y {}
            drop(s.to_owned());
            drop(s.slice(..0))
        });
        q.no("slice_mut", || {
            use std::fmt::Write;
            let mut s = self.slice_mut(a..b);
            for e in s.iter_mut() {
                *e = *e
            }
            for _ in s.iter() {}
            drop(s.to_owned());
            write!(Null, "{:?}", s).unwrap();
            s.hash(&mut Fnv(1));
            std::hint::black_box((s == v, s == s));
            array_sort(&mut s);
            let (x, y) = s.split_at((b - a) / 2);
            drop(x.unmut());
            drop(y.slice(..));
        });
        q.no("drop", || drop(std::mem::replace(self, Self::new())));
    }
}
fn array_sort<E: Plain, const N: usize>(s: &mut sized_chunks::ring_buffer::SliceMut<'_, E, N>) {
    if array_ops::HasLength::len(s) > 1 {
        ArrayMut::sort_unstable(s);
        let k = s[0];
        Array::binary_search(&*s, &k).unwrap();
    }
}
impl<E: Plain, T: 'static> Heap for InlineArray<E, T> {
    fn header() -> usize {
        size_of::<usize>()
    }
    fn bound() -> usize {
        round(size_of::<T>(), align_of::<T>().max(align_of::<E>()).max(align_of::<usize>()))
    }
    fn extra(&mut self, other: &mut Self, v: &[E], bytes: &[u8], q: &mut Quiet) {
        shared!(self, other, v, q, Self::CAPACITY - self.len());
        gen!(q, bytes);
        q.no("slices", || {
            self.reverse();
            let _: &[E] = self.as_ref();
            let _: &mut [E] = self.as_mut();
            let n = self.len();
            let _ = &self[n / 2..];
        });
        q.no("drop", || drop(std::mem::replace(self, Self::new())));
    }
}

fn inside<S: Seq>(c: &S) -> Result<(), String> {
    let (lo, hi) = (c as *const S as usize, c as *const S as usize + size_of::<S>());
    let mut bad = None;
    c.each(&mut |e| {
        let p = e as *const S::E as usize;
        if p < lo || p + size_of::<S::E>() > hi {
            bad = Some(p.wrapping_sub(lo) as isize)
        }
    });
    match bad {
        Some(p) => Err(format!("an element is at offset {} of a container of {} bytes", p, size_of::<S>())),
        None => Ok(()),
    }
}
fn space(out: &mut Vec<u8>, cap: usize) {
    out.clear();
    out.resize(2 * cap + 3, 1);
}
pub fn heap_state<S: Heap>(ctx: &mut Ctx, st: &State, full: bool)
where
    S::E: Plain,
{
    let (m0, _) = model_hist::<S>(&st.hist);
    for op in all_ops::<S>(st.len, &st.hist, full) {
        if ctx.stopped() {
            return;
        }
        if let Op::ExtRef(_) = op {
            continue; // the list of references is made by the harness; see `extra`
        }
        ctx.add("transitions", 1);
        ctx.run(
            || desc::<S>(&st.hist, &op),
            || {
                let mut w = World::<S>::build(&st.hist);
                let base = w.next;
                let refused = model(S::KIND, S::cap(), &mut m0.clone(), &op, base).refuse;
                let mut out = Out { elems: Vec::with_capacity(S::maxlen() + 2), others: Vec::with_capacity(2) };
                let c = w.cm();
                judge(&op, refused, watch(|| c.exec(&op, base, &mut out)))?;
                inside(c)?;
                let mut others = out.others;
                judge(&"drop of the rest", false, watch(|| others.clear()))?;
                let old = std::mem::replace(c, S::make());
                judge(&"drop", false, watch(|| drop(old)))
            },
        );
    }
    ctx.add("traces", 1);
    let mut n = 0;
    ctx.run(
        || format!("{} history {:?}, then the rest of the interface", S::name(), st.hist),
        || {
            let mut w = World::<S>::build(&st.hist);
            inside(w.c())?;
            let mut o = w.c().dup();
            let v: Vec<S::E> = (0..S::maxlen() as u32).map(S::E::mk).collect();
            let mut bytes = vec![];
            space(&mut bytes, S::maxlen() * size_of::<S::E>());
            let mut q = Quiet { err: None, n: 0 };
            w.cm().extra(&mut o, &v, &bytes, &mut q);
            n = q.n;
            q.err.map_or(Ok(()), Err)
        },
    );
    ctx.add("transitions", n);
}
pub fn heap_jobs<S: Heap>(jobs: &mut Vec<Job>, reps: usize, shards: usize, full: bool)
where
    S::E: Plain,
{
    size_job(jobs, S::name(), size_of::<S>(), S::bound(), S::maxlen() * size_of::<S::E>());
    space_jobs::<S>(jobs, "heap use", reps, shards, move |ctx, st| heap_state::<S>(ctx, st, full));
}
/// a size that is no more than the elements, the bookkeeping and what alignment requires
pub fn size_job(jobs: &mut Vec<Job>, name: String, size: usize, bound: usize, least: usize) {
    jobs.push(Job {
        name: format!("size of {}", name),
        f: Box::new(move |ctx| {
            ctx.state(0);
            ctx.add("transitions", 1);
            ctx.run(
                || format!("size of {}", name),
                || {
                    if size > bound || size < least {
                        return Err(format!("{} bytes; elements take {}, with bookkeeping and padding {}", size, least, bound));
                    }
                    Ok(())
                },
            );
        }),
    })
}
pub fn chunk_sizes<E: Elem, const N: usize>(jobs: &mut Vec<Job>) {
    let bound = round(N * size_of::<E>() + 2 * size_of::<usize>(), align_of::<E>().max(align_of::<usize>()));
    size_job(jobs, format!("Chunk<{},{}>", E::NAME, N), size_of::<Chunk<E, N>>(), bound, N * size_of::<E>());
    size_job(jobs, format!("RingBuffer<{},{}>", E::NAME, N), size_of::<RingBuffer<E, N>>(), bound, N * size_of::<E>());
}
pub fn sparse_size<E: Elem, const N: usize>(jobs: &mut Vec<Job>)
where
    BitsImpl<N>: Bits,
{
    let bound = round(N * size_of::<E>() + size_of::<Bitmap<N>>(), align_of::<E>().max(align_of::<Bitmap<N>>()));
    size_job(jobs, format!("SparseChunk<{},{}>", E::NAME, N), size_of::<SparseChunk<E, N>>(), bound, N * size_of::<E>());
}
pub fn sparse_heap<E: Plain, const N: usize>(jobs: &mut Vec<Job>, max: usize, reps: usize, shards: usize)
where
    BitsImpl<N>: Bits,
{
    sparse_size::<E, N>(jobs);
    sjobs::<E, N>(jobs, "heap use", max, reps, shards, move |ctx, h, initial| {
        let (m0, _) = smodel_hist(N, h);
        for op in sops(N, max, m0.len(), initial) {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || sdesc::<E>(N, h, &op),
                || {
                    let mut w = SWorld::<E, N>::build(h);
                    let base = w.next;
                    let refused = smodel(N, &mut m0.clone(), &op, base).refuse;
                    let mut out = SOut { ret: Vec::with_capacity(N + 2), others: Vec::with_capacity(2) };
                    let c = w.cm();
                    judge(&op, refused, watch(|| sexec(c, &op, base, &mut out)))?;
                    sinside(c)?;
                    let mut others = out.others;
                    judge(&"drop of the rest", false, watch(|| others.clear()))?;
                    let old = std::mem::replace(c, SparseChunk::new());
                    judge(&"drop", false, watch(|| drop(old)))
                },
            );
        }
        ctx.add("traces", 1);
        let mut n = 0;
        ctx.run(
            || sdesc::<E>(N, h, &"the rest of the interface"),
            || {
                let mut w = SWorld::<E, N>::build(h);
                let bt: BTreeMap<usize, E> = m0.iter().map(|(k, v)| (*k, E::mk(*v))).collect();
                let hm: HashMap<usize, E> = bt.clone().into_iter().collect();
                let mut o = w.c().clone();
                let mut bytes = vec![];
                space(&mut bytes, N * (size_of::<E>() + 1));
                let mut q = Quiet { err: None, n: 0 };
                srest(w.cm(), &mut o, &bt, &hm, &bytes, &mut q);
                n = q.n;
                q.err.map_or(Ok(()), Err)
            },
        );
        ctx.add("transitions", n);
    })
}
fn sinside<E: Elem, const N: usize>(c: &SparseChunk<E, N>) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    let lo = c as *const _ as usize;
    for e in c.iter() {
        let p = e as *const E as usize;
        if p < lo || p + size_of::<E>() > lo + size_of::<SparseChunk<E, N>>() {
            return Err("an element is outside of the container".into());
        }
    }
    Ok(())
}
fn srest<E: Plain, const N: usize>(
    c: &mut SparseChunk<E, N>,
    o: &mut SparseChunk<E, N>,
    bt: &BTreeMap<usize, E>,
    hm: &HashMap<usize, E>,
    bytes: &[u8],
    q: &mut Quiet,
) where
    BitsImpl<N>: Bits,
{
    use std::fmt::Write;
    q.no("observers", || {
        std::hint::black_box((c.len(), c.is_empty(), c.is_full(), c.first_index()));
        for i in 0..N + 1 {
            c.get(i);
        }
    });
    q.no("indices", || assert!(c.indices().count() <= N));
    q.no("iter", || assert!(c.iter().count() <= N));
    q.no("entries", || assert!(c.entries().count() <= N));
    q.no("option_iter", || assert!(c.option_iter().count() <= N));
    q.no("iter_mut", || c.iter_mut().for_each(|e| *e = *e));
    q.no("option_iter_mut", || c.option_iter_mut().flatten().for_each(|e| *e = *e));
    q.no("get_mut", || {
        for i in 0..N {
            c.get_mut(i).map(|e| *e = *e);
        }
    });
    q.no("==", || {
        std::hint::black_box(c == o);
    });
    q.no("== BTreeMap", || {
        std::hint::black_box(c == bt);
    });
    q.no("== HashMap", || {
        std::hint::black_box(c == hm);
    });
    q.no("{:?}", || write!(Null, "{:?}", c).unwrap());
    q.no("{:#?}", || write!(Null, "{:#?}", c).unwrap());
    q.no("clone_from", || o.clone_from(c));
    q.no("take", || drop(std::mem::take(o)));
    q.no("default_uninit", || unsafe {
        let mut m = MaybeUninit::<SparseChunk<E, N>>::uninit();
        SparseChunk::default_uninit(&mut m);
        drop(m.assume_init())
    });
    q.no("clone_uninit", || unsafe {
        let mut m = MaybeUninit::<SparseChunk<E, N>>::uninit();
        c.clone_uninit(&mut m);
        drop(m.assume_init())
    });
    q.no("arbitrary", || drop(<SparseChunk<E, N> as Arbitrary>::arbitrary(&mut Unstructured::new(bytes))));
    q.no("arbitrary_take_rest", || drop(<SparseChunk<E, N> as Arbitrary>::arbitrary_take_rest(Unstructured::new(bytes))));
    q.no("drop", || drop(std::mem::replace(c, SparseChunk::new())));
}
/// byte streams
pub fn stream_heap<S: Heap<E = u8> + std::io::Read + std::io::Write>(jobs: &mut Vec<Job>, reps: usize, shards: usize) {
    space_jobs::<S>(jobs, "heap use of byte streams", reps, shards, move |ctx, st| {
        let bytes = vec![3u8; S::cap() + 2];
        for k in 0..=S::cap() + 2 {
            ctx.add("transitions", 2);
            ctx.run(
                || format!("{} history {:?}, then {} bytes written and read", S::name(), st.hist, k),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    let mut buf = vec![0u8; k];
                    let mut q = Quiet { err: None, n: 0 };
                    let c = w.cm();
                    q.no("write", || drop(c.write(&bytes[..k])));
                    q.no("flush", || drop(c.flush()));
                    q.no("read", || drop(c.read(&mut buf)));
                    q.err.map_or(Ok(()), Err)
                },
            );
        }
    })
}
