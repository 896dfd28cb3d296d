//! C23: what every history does, as one number per job, so that builds of the crate in different configurations can be
//! compared. Histories are generated from the model alone: the same ones in every configuration.
use crate::elem::*;
use crate::functional::each_sequence;
use crate::harness::{guard, Ctx, Job};
use crate::seq::*;
use crate::sparse::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray};
#[cfg(feature = "ringbuffer")]
use sized_chunks::RingBuffer;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write as _;

#[derive(Clone)]
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3)
        }
    }
}
impl Fnv {
    fn put(&mut self, x: u64) {
        for i in 0..8 {
            self.0 = (self.0 ^ (x >> (8 * i) & 255)).wrapping_mul(0x100000001b3)
        }
    }
    fn text(&mut self, x: &dyn Debug) {
        let s = format!("{:?}", x);
        self.put(s.len() as u64);
        self.write(s.as_bytes())
    }
}
fn new() -> Fnv {
    Fnv(0xcbf29ce484222325)
}
thread_local! {
    static TRACE: std::cell::RefCell<Option<std::io::BufWriter<std::fs::File>>> = const { std::cell::RefCell::new(None) };
}
/// write a line per case of this job, for finding the first difference
pub fn trace_to(path: &str) {
    let f = std::io::BufWriter::new(std::fs::File::create(path).expect("trace file"));
    TRACE.with(|t| *t.borrow_mut() = Some(f))
}
pub fn trace_end() {
    TRACE.with(|t| drop(t.borrow_mut().take()))
}
/// one case: its outcome goes into the digest of the job
fn case(ctx: &mut Ctx, desc: impl Fn() -> String, f: impl FnOnce(&mut Fnv)) {
    ctx.add("transitions", 1);
    let mut h = new();
    ctx.run(&desc, || {
        // a panic is an outcome like others
        if guard(|| f(&mut h)).is_err() {
            h.put(0xdead)
        }
        Ok(())
    });
    TRACE.with(|t| {
        if let Some(f) = t.borrow_mut().as_mut() {
            writeln!(f, "{:016x} {}", h.0, desc()).unwrap()
        }
    });
    let mut d = Fnv(ctx.digest ^ 0x9e3779b97f4a7c15);
    d.put(h.0);
    ctx.digest = d.0 | 1;
}

/// everything that can be seen of a container
pub trait Look: Seq {
    fn look(&mut self, h: &mut Fnv);
}
macro_rules! look {
    ([$($g:tt)*], $t:ty) => {
        impl<E: Elem, $($g)*> Look for $t {
            fn look(&mut self, h: &mut Fnv) {
                h.put(self.length() as u64);
                h.put(self.empty() as u64 | (self.full() as u64) << 1);
                for e in self.iter() {
                    h.put(e.key() as u64)
                }
                for e in self.iter().rev() {
                    h.put(e.key() as u64)
                }
                h.put(self.iter_mut().map(|e| e.key() as u64).sum());
                for i in [0, 1, self.length().wrapping_sub(1), self.length(), usize::MAX] {
                    h.put(self.try_at(i).map_or(!0, |e| e.key() as u64));
                    h.put(self.try_at_mut(i).map_or(!0, |e| e.key() as u64));
                }
                h.text(self);
                h.text(&format!("{:#?}", self));
                let mut k = new();
                self.hash(&mut k);
                h.put(k.0);
                let mut c = self.clone();
                h.put((c == *self) as u64);
                h.text(&c.partial_cmp(self));
                if c.length() > 0 {
                    *c.at_mut(0) = E::mk(1);
                    h.put((c == *self) as u64);
                    h.text(&c.partial_cmp(&*self));
                    h.text(&Ord::cmp(&*self, &c));
                }
            }
        }
    };
}
look!([const N: usize], Chunk<E, N>);
#[cfg(feature = "ringbuffer")]
look!([const N: usize], RingBuffer<E, N>);
look!([T: 'static], InlineArray<E, T>);

fn dstep<S: Look>(w: &mut World<S>, op: &Op, h: &mut Fnv) {
    let mut o = w.exec(op);
    h.put(o.panic.is_some() as u64);
    if o.panic.is_none() {
        for e in &o.out.elems {
            h.put(e.key() as u64)
        }
        for c in &mut o.out.others {
            c.look(h)
        }
    }
    w.cm().look(h)
}
fn extremes<S: Seq>(n: usize) -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    for i in [n + 1, S::maxlen() + 1, 64, 1 << 31, 1 << 32, 1 << 62, 1 << 63, usize::MAX - n, usize::MAX - 1, usize::MAX] {
        if i <= n {
            continue;
        }
        v.extend([Insert(i), Remove(i), SplitL(i), Set(i)]);
        if S::KIND != Kind::Inline {
            v.extend([DropL(i), DropR(i), TakeF(i), TakeB(i), InsFrom(i, 1), InsFrom(i, 0), DrainFF(S::cap(), i), DrainFB(S::cap(), i)])
        }
    }
    v
}
/// representative layouts at larger capacities, from the model alone
fn layouts<S: Seq>() -> Vec<Vec<Op>> {
    let cap = S::maxlen();
    let mut v = vec![];
    for k in 0..=cap {
        v.push(vec![Op::FromIter(k)]);
        if S::KIND != Kind::Inline {
            let mut h = vec![Op::FromIter(k)];
            for _ in 0..k / 2 {
                h.push(Op::PopF)
            }
            for _ in 0..(cap - k) / 2 {
                h.push(Op::PushB)
            }
            v.push(h.clone());
            for _ in 0..(cap - k) / 4 {
                h.push(Op::PushF)
            }
            v.push(h);
            v.push((0..k).map(|i| if i % 3 == 0 { Op::PushF } else { Op::PushB }).collect());
        }
    }
    v
}
pub fn digest_jobs<S: Look>(jobs: &mut Vec<Job>, depth: usize) {
    jobs.push(Job {
        name: format!("histories {}", S::name()),
        f: Box::new(move |ctx| {
            ctx.state(0);
            case(ctx, || format!("size of {}", S::name()), |h| h.put((std::mem::size_of::<S>() as u64) << 32 | S::cap() as u64));
            for d in 1..=depth {
                each_sequence::<S>(ctx, d, 0, 1, &mut |ctx, hist| {
                    ctx.add("traces", 1);
                    case(
                        ctx,
                        || format!("{} sequence {:?}", S::name(), hist),
                        |h| {
                            let mut w = World::<S>::new();
                            for op in hist {
                                dstep(&mut w, op, h)
                            }
                        },
                    )
                })
            }
            let mut hs: Vec<Vec<Op>> = vec![vec![]];
            hs.extend(layouts::<S>());
            for hist in hs {
                let n = model_hist::<S>(&hist).0.len();
                let mut ops = all_ops::<S>(n, &hist, S::maxlen() <= 6);
                ops.extend(extremes::<S>(n));
                ctx.add("states", 1);
                for op in ops {
                    case(
                        ctx,
                        || desc::<S>(&hist, &op),
                        |h| {
                            let mut w = World::<S>::build(&hist);
                            dstep(&mut w, &op, h)
                        },
                    )
                }
            }
        }),
    });
}
fn slook<E: Elem, const N: usize>(c: &mut SparseChunk<E, N>, h: &mut Fnv)
where
    BitsImpl<N>: Bits,
{
    h.put(c.len() as u64);
    h.put(c.is_empty() as u64 | (c.is_full() as u64) << 1);
    h.put(c.first_index().map_or(!0, |i| i as u64));
    for i in c.indices() {
        h.put(i as u64)
    }
    for e in c.iter() {
        h.put(e.key() as u64)
    }
    for (i, e) in c.entries() {
        h.put((i as u64) << 32 | e.key() as u64)
    }
    for e in c.option_iter() {
        h.put(e.map_or(!0, |e| e.key() as u64))
    }
    h.put(c.iter_mut().map(|e| e.key() as u64).sum());
    h.put(c.option_iter_mut().map(|e| e.map_or(1, |e| 7 * e.key() as u64)).sum());
    for i in [N, N + 1, N + 64, usize::MAX] {
        h.put(c.get(i).is_some() as u64 | (c.get_mut(i).is_some() as u64) << 1)
    }
    h.text(c);
    h.text(&format!("{:#?}", c));
    let d = c.clone();
    h.put((d == *c) as u64);
}
pub fn sparse_digest<E: Elem, const N: usize>(jobs: &mut Vec<Job>, max: usize)
where
    BitsImpl<N>: Bits,
{
    jobs.push(Job {
        name: format!("histories SparseChunk<{},{}>", E::NAME, N),
        f: Box::new(move |ctx| {
            ctx.state(0);
            case(ctx, || "size".into(), |h| h.put(std::mem::size_of::<SparseChunk<E, N>>() as u64));
            for (i, hist) in sstates(N, max, 2).into_iter().enumerate() {
                ctx.state(i + 1);
                ctx.add("states", 1);
                ctx.add("traces", 1);
                let (m, _) = smodel_hist(N, &hist);
                for op in sops(N, max, m.len(), i == 0) {
                    case(
                        ctx,
                        || sdesc::<E>(N, &hist, &op),
                        |h| {
                            let mut w = SWorld::<E, N>::build(&hist);
                            let mut o = w.exec(&op);
                            h.put(o.panic.is_some() as u64);
                            if o.panic.is_none() {
                                for e in &o.out.ret {
                                    h.put(e.as_ref().map_or(!0, |e| e.key() as u64))
                                }
                                for c in &mut o.out.others {
                                    slook(c, h)
                                }
                            }
                            slook(w.cm(), h)
                        },
                    )
                }
            }
        }),
    });
}
/// conversions between the two always available sequence types
pub fn convert_digest(jobs: &mut Vec<Job>) {
    fn one<const N: usize>(ctx: &mut Ctx) {
        for k in 0..=InlineArray::<u32, [u64; 4]>::CAPACITY {
            case(
                ctx,
                || format!("InlineArray of {} into Chunk of {}", k, N),
                |h| {
                    let mut a: InlineArray<u32, [u64; 4]> = (0..k as u32).collect();
                    let r = guard(|| Chunk::<u32, N>::from(&mut a));
                    a.look(h);
                    h.put(r.is_ok() as u64);
                    if let Ok(mut c) = r {
                        c.look(h)
                    }
                    let a: InlineArray<u32, [u64; 4]> = (0..k as u32).collect();
                    if let Ok(mut c) = guard(|| Chunk::<u32, N>::from(a)) {
                        c.look(h)
                    }
                },
            )
        }
    }
    jobs.push(Job {
        name: "conversions".into(),
        f: Box::new(|ctx| {
            ctx.state(0);
            one::<0>(ctx);
            one::<1>(ctx);
            one::<3>(ctx);
            one::<6>(ctx);
            one::<9>(ctx);
        }),
    });
}
#[cfg(feature = "std")]
pub fn stream_digest<S: Look<E = u8> + std::io::Read + std::io::Write>(jobs: &mut Vec<Job>) {
    jobs.push(Job {
        name: format!("streams {}", S::name()),
        f: Box::new(|ctx| {
            ctx.state(0);
            for hist in layouts::<S>() {
                for k in 0..=S::cap() + 1 {
                    for r in 0..=S::cap() + 1 {
                        case(
                            ctx,
                            || format!("{} {:?} then write {} read {}", S::name(), hist, k, r),
                            |h| {
                                let mut w = World::<S>::build(&hist);
                                let mut b = vec![9; r];
                                h.text(&w.cm().write(&vec![5; k]).ok());
                                h.text(&w.cm().flush().ok());
                                h.text(&w.cm().read(&mut b).ok());
                                h.text(&b);
                                w.cm().look(h)
                            },
                        )
                    }
                }
            }
        }),
    });
}
#[cfg(feature = "std")]
pub fn maps_digest<E: Elem, const N: usize>(jobs: &mut Vec<Job>)
where
    BitsImpl<N>: Bits,
{
    use std::collections::{BTreeMap, HashMap};
    jobs.push(Job {
        name: format!("comparison with maps SparseChunk<{},{}>", E::NAME, N),
        f: Box::new(|ctx| {
            ctx.state(0);
            for x in 0u32..1 << N {
                for y in 0u32..1 << (N + 1) {
                    case(
                        ctx,
                        || format!("SparseChunk<{},{}> {:b} with map {:b}", E::NAME, N, x, y),
                        |h| {
                            let c: SparseChunk<E, N> = (0..N).map(|i| if x >> i & 1 == 1 { Some(E::mk(i as u32)) } else { None }).collect();
                            let b: BTreeMap<usize, E> = (0..N + 1).filter(|i| y >> i & 1 == 1).map(|i| (i, E::mk(i as u32))).collect();
                            h.put((c == b) as u64);
                            let m: HashMap<usize, E> = b.into_iter().collect();
                            h.put((c == m) as u64);
                        },
                    )
                }
            }
        }),
    });
}
#[cfg(feature = "refpool")]
pub fn pool_digest<S: Look + refpool::PoolDefault + refpool::PoolClone>(jobs: &mut Vec<Job>) {
    jobs.push(Job {
        name: format!("pooled {}", S::name()),
        f: Box::new(|ctx| {
            ctx.state(0);
            for hist in layouts::<S>() {
                case(
                    ctx,
                    || format!("{} {:?} in pools", S::name(), hist),
                    |h| {
                        let w = World::<S>::build(&hist);
                        for size in [0, 2] {
                            let pool = refpool::Pool::<S>::new(size);
                            (&mut *refpool::PoolBox::<S>::default(&pool)).look(h);
                            let mut c = refpool::PoolBox::clone_from(&pool, w.c());
                            c.look(h);
                            while !c.full() {
                                c.push(S::E::mk(77))
                            }
                            c.look(h);
                        }
                    },
                )
            }
        }),
    });
}
#[cfg(feature = "refpool")]
pub fn sparse_pool_digest<E: Elem, const N: usize>(jobs: &mut Vec<Job>)
where
    BitsImpl<N>: Bits,
{
    jobs.push(Job {
        name: format!("pooled SparseChunk<{},{}>", E::NAME, N),
        f: Box::new(|ctx| {
            ctx.state(0);
            for hist in sstates(N, 10, 2) {
                case(
                    ctx,
                    || format!("SparseChunk<{},{}> {:?} in pools", E::NAME, N, hist),
                    |h| {
                        let w = SWorld::<E, N>::build(&hist);
                        let pool = refpool::Pool::<SparseChunk<E, N>>::new(1);
                        slook(&mut *refpool::PoolBox::<SparseChunk<E, N>>::default(&pool), h);
                        slook(&mut *refpool::PoolBox::clone_from(&pool, w.c()), h);
                    },
                )
            }
        }),
    });
}
#[cfg(feature = "arbitrary")]
pub fn gen_digest<S: for<'a> arbitrary::Arbitrary<'a> + 'static>(jobs: &mut Vec<Job>, name: String, look: impl Fn(S, &mut Fnv) + Send + Sync + Copy + 'static) {
    use arbitrary::Unstructured;
    jobs.push(Job {
        name: format!("generated {}", name),
        f: Box::new(move |ctx| {
            ctx.state(0);
            let mut strings: Vec<Vec<u8>> = vec![vec![]];
            for l in 0..6 {
                for s in strings.clone().into_iter().filter(|s| s.len() == l) {
                    for b in [0u8, 1, 2, 0xff] {
                        let mut s = s.clone();
                        s.push(b);
                        strings.push(s)
                    }
                }
            }
            case(ctx, || "size hint".into(), |h| h.text(&S::size_hint(0)));
            for s in strings {
                case(
                    ctx,
                    || format!("{} from {:?}", name, s),
                    |h| {
                        let mut u = Unstructured::new(&s);
                        match S::arbitrary(&mut u) {
                            Ok(c) => look(c, h),
                            Err(e) => h.text(&e),
                        }
                        h.put(u.len() as u64);
                        match S::arbitrary_take_rest(Unstructured::new(&s)) {
                            Ok(c) => look(c, h),
                            Err(e) => h.text(&e),
                        }
                    },
                )
            }
        }),
    });
}
pub fn all_jobs(thorough: bool) -> Vec<Job> {
    let mut j = vec![];
    let d = if thorough { 3 } else { 2 };
    macro_rules! two { ($($e:ty, $n:expr, $d:expr);* $(;)?) => { $(
        digest_jobs::<Chunk<$e, $n>>(&mut j, $d);
        #[cfg(feature = "ringbuffer")]
        digest_jobs::<RingBuffer<$e, $n>>(&mut j, $d);
    )* } }
    two! { u32, 0, 3; u32, 1, 3; u32, 2, 3; u32, 3, d; Tok, 4, d; u32, 5, 2; u32, 8, 1; u128, 16, 1; (), 3, 2 }
    digest_jobs::<InlineArray<u32, [u64; 2]>>(&mut j, 3);
    digest_jobs::<InlineArray<Tok, [u64; 6]>>(&mut j, 3);
    digest_jobs::<InlineArray<u8, [u8; 14]>>(&mut j, 2);
    digest_jobs::<InlineArray<u128, [u128; 4]>>(&mut j, 3);
    digest_jobs::<InlineArray<u128, [u8; 64]>>(&mut j, 3);
    digest_jobs::<InlineArray<(), [u64; 2]>>(&mut j, 2);
    convert_digest(&mut j);
    sparse_digest::<u32, 1>(&mut j, 10);
    sparse_digest::<Tok, 3>(&mut j, 10);
    sparse_digest::<u32, 6>(&mut j, 10);
    sparse_digest::<u8, 65>(&mut j, 4);
    sparse_digest::<u32, 128>(&mut j, 4);
    #[cfg(feature = "std")]
    {
        stream_digest::<Chunk<u8, 4>>(&mut j);
        #[cfg(feature = "ringbuffer")]
        stream_digest::<RingBuffer<u8, 4>>(&mut j);
        maps_digest::<u32, 4>(&mut j);
    }
    #[cfg(feature = "refpool")]
    {
        pool_digest::<Chunk<u32, 5>>(&mut j);
        #[cfg(feature = "ringbuffer")]
        pool_digest::<RingBuffer<u32, 5>>(&mut j);
        sparse_pool_digest::<u32, 5>(&mut j);
    }
    #[cfg(feature = "arbitrary")]
    {
        gen_digest::<Chunk<u8, 2>>(&mut j, "Chunk<u8,2>".into(), |mut c, h| c.look(h));
        gen_digest::<Chunk<u16, 3>>(&mut j, "Chunk<u16,3>".into(), |mut c, h| c.look(h));
        #[cfg(feature = "ringbuffer")]
        gen_digest::<RingBuffer<u8, 2>>(&mut j, "RingBuffer<u8,2>".into(), |mut c, h| c.look(h));
        gen_digest::<SparseChunk<u8, 3>>(&mut j, "SparseChunk<u8,3>".into(), |mut c, h| slook(&mut c, h));
        gen_digest::<InlineArray<u8, [u8; 10]>>(&mut j, "InlineArray<u8,[u8;10]>".into(), |mut c, h| c.look(h));
    }
    j
}
