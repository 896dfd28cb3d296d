//! C19: containers created or cloned in place in pooled memory, fresh or recycled, against ordinary ones.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::ownership::clean;
use crate::seq::*;
use crate::sparse::*;
use bitmaps::{Bits, BitsImpl};
use refpool::{Pool, PoolBox, PoolClone, PoolDefault, PoolRef};
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, RingBuffer};
use std::fmt::Debug;
use std::mem::MaybeUninit;
use std::ops::{Deref, DerefMut};

pub trait Pooled: PoolDefault + PoolClone + Clone + Sized + 'static {
    type E: Elem;
    type O: Clone + Debug + Send + Sync;
    type M: Clone + Debug + Default;
    fn pname() -> String;
    fn plain() -> Self;
    fn replay(h: &[Self::O]) -> Self;
    fn mhist(h: &[Self::O]) -> (Self::M, u32);
    fn check(&self, m: &Self::M) -> Result<(), String>;
    fn idlist(&self) -> Vec<u32>;
    fn count(m: &Self::M) -> usize;
    /// execute, compare with the model, drop what was returned
    fn run(&mut self, m: &mut Self::M, op: &Self::O, next: u32) -> Result<(), String>;
    fn nk(op: &Self::O) -> u32;
    /// as many elements as it takes
    fn stuffed(next: u32) -> Self;
    /// mutations used in histories
    fn hops() -> Vec<Self::O>;
}
macro_rules! pooled { ($c:ident) => {
    impl<E: Elem, const N: usize> Pooled for $c<E, N> {
        type E = E;
        type O = Op;
        type M = Vec<u32>;
        fn pname() -> String {
            <Self as Seq>::name()
        }
        fn plain() -> Self {
            Self::make()
        }
        fn replay(h: &[Op]) -> Self {
            let mut w = World::<Self>::build(h);
            std::mem::replace(w.cm(), Self::make())
        }
        fn mhist(h: &[Op]) -> (Vec<u32>, u32) {
            model_hist::<Self>(h)
        }
        fn check(&self, m: &Vec<u32>) -> Result<(), String> {
            observe(self, m)
        }
        fn idlist(&self) -> Vec<u32> {
            self.ids()
        }
        fn count(m: &Vec<u32>) -> usize {
            m.len()
        }
        fn run(&mut self, m: &mut Vec<u32>, op: &Op, next: u32) -> Result<(), String> {
            let mut out = Out::default();
            let r = guard(|| self.exec(op, next, &mut out));
            let o = Outcome { panic: r.err(), out, base: next };
            let x = model(Self::KIND, N, m, op, next);
            compare_on(self, m, op, &o, &x)
        }
        fn nk(op: &Op) -> u32 {
            nkeys(op, N)
        }
        fn stuffed(next: u32) -> Self {
            (0..N as u32).map(|i| E::mk(next + i)).collect()
        }
        fn hops() -> Vec<Op> {
            vec![Op::PushB, Op::PushF, Op::PopF]
        }
    }
} }
pooled!(Chunk);
pooled!(RingBuffer);
impl<E: Elem, const N: usize> Pooled for SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    type E = E;
    type O = SOp;
    type M = M;
    fn pname() -> String {
        format!("SparseChunk<{},{}>", E::NAME, N)
    }
    fn plain() -> Self {
        SparseChunk::new()
    }
    fn replay(h: &[SOp]) -> Self {
        let mut w = SWorld::<E, N>::build(h);
        std::mem::replace(w.cm(), SparseChunk::new())
    }
    fn mhist(h: &[SOp]) -> (M, u32) {
        smodel_hist(N, h)
    }
    fn check(&self, m: &M) -> Result<(), String> {
        sobserve(self, m)
    }
    fn idlist(&self) -> Vec<u32> {
        self.iter()
            .map(|e| {
                e.key();
                e.id()
            })
            .collect()
    }
    fn count(m: &M) -> usize {
        m.len()
    }
    fn run(&mut self, m: &mut M, op: &SOp, next: u32) -> Result<(), String> {
        let mut out = SOut { ret: vec![], others: vec![] };
        let r = guard(|| sexec(self, op, next, &mut out));
        let o = SOutcome { panic: r.err(), out, base: next };
        let x = smodel(N, m, op, next);
        scompare_on(self, m, op, &o, &x)
    }
    fn nk(op: &SOp) -> u32 {
        snkeys(op)
    }
    fn stuffed(next: u32) -> Self {
        (0..N as u32).map(|i| Some(E::mk(next + i))).collect()
    }
    fn hops() -> Vec<SOp> {
        vec![SOp::Insert(0), SOp::Insert(N - 1), SOp::Pop]
    }
}

/// where a container is created or cloned
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mem {
    /// a pool that keeps nothing
    NoPool,
    /// the memory of a full container that was dropped
    Recycled,
    /// memory filled with one byte, between guard zones
    Raw(u8),
}
const PAT: u64 = 0xA5C3_9E37_79B9_7F4A;
#[repr(C)]
pub struct RawG<P> {
    pre: [u64; 8],
    c: MaybeUninit<P>,
    post: [u64; 8],
    init: bool,
}
impl<P> RawG<P> {
    fn new(b: u8) -> Box<Self> {
        let mut g = Box::new(RawG { pre: [PAT; 8], c: MaybeUninit::uninit(), post: [PAT; 8], init: false });
        unsafe { std::ptr::write_bytes(g.c.as_mut_ptr() as *mut u8, b, std::mem::size_of::<P>()) };
        g
    }
}
impl<P> Drop for RawG<P> {
    fn drop(&mut self) {
        if self.init {
            unsafe { std::ptr::drop_in_place(self.c.as_mut_ptr()) }
        }
    }
}
pub enum Held<P> {
    Pooled(PoolRef<P>),
    Raw(Box<RawG<P>>),
}
impl<P> Deref for Held<P> {
    type Target = P;
    fn deref(&self) -> &P {
        match self {
            Held::Pooled(p) => p,
            Held::Raw(r) => unsafe { &*r.c.as_ptr() },
        }
    }
}
impl<P> DerefMut for Held<P> {
    fn deref_mut(&mut self) -> &mut P {
        match self {
            Held::Pooled(p) => PoolRef::get_mut(p).expect("harness: shared"),
            Held::Raw(r) => unsafe { &mut *r.c.as_mut_ptr() },
        }
    }
}
impl<P> Held<P> {
    fn zones(&self) -> Result<(), String> {
        if let Held::Raw(r) = self {
            if r.pre.iter().chain(&r.post).any(|p| unsafe { std::ptr::read_volatile(p) } != PAT) {
                return Err("memory outside of the target was overwritten".into());
            }
        }
        Ok(())
    }
}
fn pool<P: Pooled>(mem: Mem, n: usize) -> Pool<P> {
    if mem == Mem::NoPool {
        return Pool::new(0);
    }
    let p = Pool::new(n);
    let v: Vec<PoolRef<P>> = (0..n).map(|i| PoolRef::new(&p, P::stuffed(9000 + 100 * i as u32))).collect();
    drop(v);
    p
}
fn held_default<P: Pooled>(mem: Mem) -> Held<P> {
    if let Mem::Raw(b) = mem {
        let mut g = RawG::<P>::new(b);
        unsafe { P::default_uninit(&mut g.c) };
        g.init = true;
        Held::Raw(g)
    } else {
        Held::Pooled(PoolRef::default(&pool(mem, 1)))
    }
}
fn held_clone<P: Pooled>(mem: Mem, src: &P) -> Held<P> {
    if let Mem::Raw(b) = mem {
        let mut g = RawG::<P>::new(b);
        unsafe { src.clone_uninit(&mut g.c) };
        g.init = true;
        Held::Raw(g)
    } else {
        Held::Pooled(PoolRef::clone_from(&pool(mem, 1), src))
    }
}
pub const MEMS: [Mem; 5] = [Mem::Recycled, Mem::Raw(0xff), Mem::NoPool, Mem::Raw(0), Mem::Raw(0x55)];

fn same<P: Pooled>(c: &P, m: &P::M, ids: &[u32], what: &str) -> Result<(), String> {
    c.check(m).map_err(|e| format!("{}: {}", what, e))?;
    if P::E::IDS && c.idlist() != ids {
        return Err(format!("{}: holds different elements than before", what));
    }
    Ok(())
}
fn tracked<P: Pooled>(what: &str) -> Result<(), String> {
    if P::E::TRACKED {
        clean::<P::E>(what)
    } else {
        Ok(())
    }
}
/// creation in every kind of memory, then every operation
pub fn defaults<P: Pooled>(ctx: &mut Ctx, ops: &[P::O]) {
    for mem in MEMS {
        for op in ops.iter().map(Some).chain([None]) {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} created in {:?} memory, then {:?}", P::pname(), mem, op),
                || {
                    let mut c = held_default::<P>(mem);
                    let mut m = P::M::default();
                    c.check(&m)?;
                    if let Some(op) = op {
                        c.run(&mut m, op, 0)?;
                    }
                    c.zones()?;
                    drop(c);
                    tracked::<P>("after dropping it")
                },
            );
        }
    }
}
/// cloning from one state into every kind of memory
pub fn clones_from<P: Pooled>(ctx: &mut Ctx, h: &[P::O], ops: &[P::O], mems: &[Mem]) {
    let what = |s: String| format!("{} history {:?} {}", P::pname(), h, s);
    let (m0, next) = P::mhist(h);
    for &mem in &MEMS {
        ctx.add("transitions", 1);
        ctx.run(
            || what(format!("cloned into {:?} memory", mem)),
            || {
                let src = P::replay(h);
                let ids = src.idlist();
                let c0 = clones();
                let d = held_clone(mem, &src);
                if P::E::CLONES && (clones() - c0) as usize != P::count(&m0) {
                    return Err(format!("{} elements were cloned {} times", P::count(&m0), clones() - c0));
                }
                d.zones()?;
                d.check(&m0)?;
                same(&src, &m0, &ids, "source")?;
                if P::E::IDS && d.idlist().iter().any(|i| ids.contains(i)) {
                    return Err("the clone shares an element with its source".into());
                }
                // the ordinary clone gives the same
                src.clone().check(&m0).map_err(|e| format!("ordinary clone: {}", e))?;
                drop(src);
                d.check(&m0)?;
                drop(d);
                tracked::<P>("after dropping both")
            },
        );
    }
    for op in ops {
        for &mem in mems {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 2);
            ctx.run(
                || what(format!("cloned into {:?} memory, then the clone: {:?}", mem, op)),
                || {
                    let src = P::replay(h);
                    let ids = src.idlist();
                    let mut d = held_clone(mem, &src);
                    let mut m = m0.clone();
                    d.run(&mut m, op, next)?;
                    d.zones()?;
                    same(&src, &m0, &ids, "source")?;
                    drop(d);
                    same(&src, &m0, &ids, "source, after dropping the clone")?;
                    drop(src);
                    tracked::<P>("after dropping both")
                },
            );
            ctx.run(
                || what(format!("cloned into {:?} memory, then the source: {:?}", mem, op)),
                || {
                    let mut src = P::replay(h);
                    let d = held_clone(mem, &src);
                    let ids = d.idlist();
                    let mut m = m0.clone();
                    src.run(&mut m, op, next)?;
                    same(&*d, &m0, &ids, "clone")?;
                    drop(src);
                    same(&*d, &m0, &ids, "clone, after dropping the source")?;
                    d.zones()?;
                    drop(d);
                    tracked::<P>("after dropping both")
                },
            );
        }
        ctx.add("transitions", 1);
        ctx.run(
            || what(format!("shared, then one reference by copy on write: {:?}", op)),
            || {
                let p = pool::<P>(Mem::Recycled, 2);
                let r1 = PoolRef::new(&p, P::replay(h));
                let ids = r1.idlist();
                let mut r2 = r1.clone();
                let mut r3 = r1.clone();
                let mut m = m0.clone();
                PoolRef::make_mut(&p, &mut r2).run(&mut m, op, next)?;
                let ids2 = r2.idlist();
                same(&*r1, &m0, &ids, "shared original")?;
                drop(r1);
                same(&*r3, &m0, &ids, "second reference to the original")?;
                same(&*r2, &m, &ids2, "modified copy")?;
                // now unique: modified in place
                let mut m3 = m0.clone();
                PoolRef::make_mut(&p, &mut r3).run(&mut m3, op, next + 50)?;
                same(&*r2, &m, &ids2, "copy, after modifying the original")?;
                drop(r3);
                same(&*r2, &m, &ids2, "copy, after dropping the original")?;
                drop(r2);
                drop(p);
                tracked::<P>("after dropping everything")
            },
        );
    }
}
/// every element clone panics in turn
pub fn clone_faults<P: Pooled>(ctx: &mut Ctx, h: &[P::O]) {
    let (m0, _) = P::mhist(h);
    for k in 1..=P::count(&m0) as u64 {
        if ctx.stopped() {
            return;
        }
        for way in 0..3 {
            ctx.add("evaluations", 1);
            ctx.add("distinct_nontrivial", 1);
            ctx.run(
                || format!("{} history {:?}: pool clone (way {}), clone {} of an element panics", P::pname(), h, way, k),
                || {
                    let src = P::replay(h);
                    let ids = src.idlist();
                    let p = pool::<P>(Mem::Recycled, 2);
                    let mut r = PoolRef::new(&p, src);
                    let r2 = r.clone();
                    arm(F_CLONE, k);
                    let res = guard(|| match way {
                        0 => drop(PoolRef::clone_from(&p, &*r)),
                        1 => drop(PoolRef::cloned(&p, &r)),
                        _ => drop(PoolRef::make_mut(&p, &mut r)),
                    });
                    disarm();
                    if res != Err(INJECTED.into()) {
                        return Err(format!("harness: the fault did not fire: {:?}", res));
                    }
                    if has_errs() {
                        return Err(take_errs().join("; "));
                    }
                    same(&*r, &m0, &ids, "source")?;
                    same(&*r2, &m0, &ids, "other reference to the source")?;
                    // still usable
                    PoolRef::cloned(&p, &r).check(&m0).map_err(|e| format!("a later clone: {}", e))?;
                    drop(r2);
                    drop(r);
                    drop(p);
                    if has_errs() {
                        return Err(take_errs().join("; "));
                    }
                    // leaking what was cloned before the panic is allowed
                    if P::E::live() > k as i64 - 1 {
                        return Err(format!("{} elements leaked, {} had been cloned", P::E::live(), k - 1));
                    }
                    Ok(())
                },
            );
        }
    }
}

// ---- histories of several handles over one pool ---------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum H {
    Default(usize),
    /// a container moved in
    New(usize),
    /// .0 = clone_from(pool, &*.1)
    CloneFrom(usize, usize),
    /// .0 = deep copy of .1
    Cloned(usize, usize),
    /// .0 = reference to the same value as .1
    Share(usize, usize),
    Mut(usize, usize),
    Unwrap(usize),
    Drop(usize),
}
#[derive(Clone)]
struct HModel<Md: Clone> {
    h: Vec<Option<usize>>,
    vals: Vec<Md>,
    next: u32,
}
impl<Md: Clone> HModel<Md> {
    fn put(&mut self, i: usize, m: Md) {
        self.vals.push(m);
        self.h[i] = Some(self.vals.len() - 1)
    }
    fn own(&mut self, i: usize) -> usize {
        let v = self.h[i].unwrap();
        if self.h.iter().filter(|x| **x == Some(v)).count() > 1 {
            let m = self.vals[v].clone();
            self.put(i, m)
        }
        self.h[i].unwrap()
    }
}
enum Handle<P> {
    R(PoolRef<P>),
    B(PoolBox<P>),
}
impl<P> Deref for Handle<P> {
    type Target = P;
    fn deref(&self) -> &P {
        match self {
            Handle::R(r) => r,
            Handle::B(r) => r,
        }
    }
}
fn actions<Md: Clone>(m: &HModel<Md>, boxed: bool, nops: usize) -> Vec<H> {
    let n = m.h.len();
    let mut v = vec![];
    for i in 0..n {
        // the first unused handle stands for all of them
        if m.h[i].is_none() && m.h[..i].iter().any(|x| x.is_none()) {
            continue;
        }
        v.extend([H::Default(i), H::New(i)]);
        for j in 0..n {
            if m.h[j].is_some() {
                v.extend([H::CloneFrom(i, j), H::Cloned(i, j)]);
                if !boxed && i != j {
                    v.push(H::Share(i, j))
                }
            }
        }
        if m.h[i].is_some() {
            for o in 0..nops {
                v.push(H::Mut(i, o))
            }
            if !boxed {
                v.push(H::Unwrap(i));
            }
            v.push(H::Drop(i))
        }
    }
    v
}
/// what an action does to the handles (the values: only where the action does not run an operation)
fn shape<Md: Clone + Default>(m: &mut HModel<Md>, a: &H) {
    match *a {
        H::Default(i) | H::New(i) => m.put(i, Md::default()),
        H::CloneFrom(i, j) | H::Cloned(i, j) => {
            let x = m.vals[m.h[j].unwrap()].clone();
            m.put(i, x)
        }
        H::Share(i, j) => m.h[i] = m.h[j],
        H::Mut(i, _) => {
            m.own(i);
        }
        H::Unwrap(i) | H::Drop(i) => m.h[i] = None,
    }
}
fn hrun<P: Pooled>(pool: &Pool<P>, hs: &mut Vec<Option<Handle<P>>>, m: &mut HModel<P::M>, a: &H, ops: &[P::O], boxed: bool) -> Result<(), String> {
    match *a {
        H::Default(i) => {
            hs[i] = Some(if boxed { Handle::B(PoolBox::default(pool)) } else { Handle::R(PoolRef::default(pool)) });
            shape(m, a)
        }
        H::New(i) => {
            let mut x = P::plain();
            let mut md = P::M::default();
            x.run(&mut md, &ops[0], m.next)?;
            m.next += P::nk(&ops[0]);
            hs[i] = Some(if boxed { Handle::B(PoolBox::new(pool, x)) } else { Handle::R(PoolRef::new(pool, x)) });
            m.put(i, md)
        }
        H::CloneFrom(i, j) => {
            let x = &**hs[j].as_ref().unwrap();
            let h = if boxed { Handle::B(PoolBox::clone_from(pool, x)) } else { Handle::R(PoolRef::clone_from(pool, x)) };
            hs[i] = Some(h);
            shape(m, a)
        }
        H::Cloned(i, j) => {
            let h = match hs[j].as_ref().unwrap() {
                Handle::R(r) => Handle::R(PoolRef::cloned(pool, r)),
                Handle::B(b) => Handle::B(b.clone()),
            };
            hs[i] = Some(h);
            shape(m, a)
        }
        H::Share(i, j) => {
            let Some(Handle::R(r)) = &hs[j] else { unreachable!() };
            let r = r.clone();
            hs[i] = Some(Handle::R(r));
            shape(m, a)
        }
        H::Mut(i, o) => {
            let v = m.own(i);
            let next = m.next;
            m.next += P::nk(&ops[o]);
            let c = match hs[i].as_mut().unwrap() {
                Handle::R(r) => PoolRef::make_mut(pool, r),
                Handle::B(b) => &mut **b,
            };
            c.run(&mut m.vals[v], &ops[o], next)?
        }
        H::Unwrap(i) => {
            let v = m.h[i].unwrap();
            let Some(Handle::R(r)) = hs[i].take() else { unreachable!() };
            PoolRef::unwrap_or_clone(r).check(&m.vals[v])?;
            m.h[i] = None
        }
        H::Drop(i) => {
            hs[i] = None;
            m.h[i] = None
        }
    }
    for (i, h) in hs.iter().enumerate() {
        if let Some(h) = h {
            h.check(&m.vals[m.h[i].unwrap()]).map_err(|e| format!("after {:?}, handle {}: {}", a, i, e))?
        }
    }
    Ok(())
}

fn descend(m: &HModel<()>, seq: &mut Vec<H>, depth: usize, boxed: bool, nops: usize, f: &mut dyn FnMut(&[H]) -> bool) -> bool {
    if seq.len() == depth {
        return f(seq);
    }
    for a in actions(m, boxed, nops) {
        let mut m2 = m.clone();
        shape(&mut m2, &a);
        seq.push(a);
        let go = descend(&m2, seq, depth, boxed, nops, f);
        seq.pop();
        if !go {
            return false;
        }
    }
    true
}
/// all histories of exactly `depth` actions (and with them all shorter ones: every step is checked)
pub fn history_jobs<P: Pooled>(jobs: &mut Vec<Job>, handles: usize, depth: usize, boxed: bool, psize: usize, shards: usize) {
    for sh in 0..shards {
        jobs.push(Job {
            name: format!("pool histories {} {} {} handles, pool of {}, {} steps {}/{}", P::pname(), handles, if boxed { "PoolBox" } else { "PoolRef" }, psize, depth, sh, shards),
            f: Box::new(move |ctx| {
                let ops = P::hops();
                let m0 = HModel { h: vec![None; handles], vals: vec![], next: 0 };
                let mut n = 0usize;
                descend(&m0, &mut vec![], depth, boxed, ops.len(), &mut |seq| {
                    n += 1;
                    if n % shards != sh {
                        return true;
                    }
                    ctx.state(n);
                    ctx.add("traces", 1);
                    ctx.add("sequence_steps", seq.len() as u64);
                    ctx.run(
                        || format!("{:?} with operations {:?}", seq, ops),
                        || {
                            let p = pool::<P>(if psize == 0 { Mem::NoPool } else { Mem::Recycled }, psize);
                            let mut hs: Vec<Option<Handle<P>>> = (0..handles).map(|_| None).collect();
                            let mut m = HModel { h: vec![None; handles], vals: vec![], next: 0 };
                            for a in seq {
                                hrun(&p, &mut hs, &mut m, a, &ops, boxed)?
                            }
                            let back = n % 2 == 0;
                            if back {
                                drop(p);
                                while hs.pop().is_some() {}
                            } else {
                                drop(hs);
                                drop(p)
                            }
                            tracked::<P>("after dropping everything")
                        },
                    );
                    !ctx.stopped()
                });
            }),
        });
    }
}
pub fn pool_seq_jobs<S: Pooled<O = Op> + Seq>(jobs: &mut Vec<Job>, reps: usize, shards: usize, full: bool, mems: &'static [Mem]) {
    space_jobs::<S>(jobs, "pool clones", reps, shards, move |ctx, st| {
        let ops = all_ops::<S>(st.len, &st.hist, full);
        if st.hist.is_empty() {
            defaults::<S>(ctx, &ops)
        }
        clones_from::<S>(ctx, &st.hist, &ops, mems)
    });
}
pub fn pool_sparse_jobs<E: Elem, const N: usize>(jobs: &mut Vec<Job>, max: usize, reps: usize, shards: usize, mems: &'static [Mem])
where
    BitsImpl<N>: Bits,
{
    sjobs::<E, N>(jobs, "pool clones", max, reps, shards, move |ctx, h, initial| {
        let (m, _) = smodel_hist(N, h);
        let ops = sops(N, max, m.len(), initial);
        if initial {
            defaults::<SparseChunk<E, N>>(ctx, &ops)
        }
        clones_from::<SparseChunk<E, N>>(ctx, h, &ops, mems)
    });
}
pub fn pool_fault_jobs<S: Pooled<O = Op> + Seq>(jobs: &mut Vec<Job>, reps: usize, shards: usize) {
    space_jobs::<S>(jobs, "pool clones with faults", reps, shards, |ctx, st| clone_faults::<S>(ctx, &st.hist));
}
pub fn pool_sparse_fault_jobs<E: Elem, const N: usize>(jobs: &mut Vec<Job>, max: usize, reps: usize, shards: usize)
where
    BitsImpl<N>: Bits,
{
    sjobs::<E, N>(jobs, "pool clones with faults", max, reps, shards, |ctx, h, _| clone_faults::<SparseChunk<E, N>>(ctx, h));
}
