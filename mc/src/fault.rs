//! C07: every user callback inside every operation panics once.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::ownership::clean;
use crate::refusal::usable;
use crate::seq::*;
use crate::sparse::*;
use bitmaps::{Bits, BitsImpl};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::Hash;

/// operations beyond `Op` that call user code
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Do(Op),
    Eq,
    EqSlice,
    Cmp,
    HashIt,
    Fmt,
    Sorted(u32),
    Search(u32),
    SliceOwned(usize, usize),
    ExtendRef(usize),
    CloneFrom,
    Pool,
    DropIt,
}
pub trait FaultExtra: Seq {
    /// returns false if the operation does not exist for this type
    fn extra(&mut self, op: &FOp, base: u32, out: &mut Out<Self>) -> bool;
}
fn common<S: Seq + PartialEq + Ord + Hash + std::fmt::Debug + Clone>(c: &mut S, op: &FOp, out: &mut Out<S>) -> bool {
    // the value it is compared with is made before the fault is armed
    match op {
        FOp::Eq => {
            std::hint::black_box(*c == out.others[0]);
        }
        FOp::Cmp => {
            std::hint::black_box((*c).cmp(&out.others[0]));
            std::hint::black_box((*c).partial_cmp(&out.others[0]));
        }
        FOp::HashIt => {
            let mut h = DefaultHasher::new();
            c.hash(&mut h);
        }
        FOp::Fmt => {
            std::hint::black_box(format!("{:?}", c));
        }
        FOp::CloneFrom => {
            let o = &mut out.others[0];
            o.clone_from(c);
        }
        _ => return false,
    }
    true
}
#[cfg(not(miri))]
fn pool_copies<S: Seq + refpool::PoolClone>(c: &S) {
    use refpool::*;
    let pool: Pool<S> = Pool::new(4);
    let a = PoolRef::clone_from(&pool, c);
    let mut b = a.clone();
    PoolRef::make_mut(&pool, &mut b).length();
}
/// the counters of refpool itself are undefined behaviour on the abstract machine: without them
#[cfg(miri)]
fn pool_copies<S: Seq + refpool::PoolClone>(c: &S) {
    crate::ub::pool_copy(c, None).length();
}
impl<E: Elem, const N: usize> FaultExtra for sized_chunks::Chunk<E, N> {
    fn extra(&mut self, op: &FOp, base: u32, out: &mut Out<Self>) -> bool {
        match *op {
            FOp::EqSlice => {
                std::hint::black_box(*self == out.others[0].as_slice());
            }
            FOp::Sorted(k) => self.insert_ordered(E::mk(k)),
            FOp::Pool => {
                pool_copies(self);
            }
            _ => {
                let _ = base;
                return common(self, op, out);
            }
        }
        true
    }
}
impl<E: Elem, const N: usize> FaultExtra for sized_chunks::RingBuffer<E, N> {
    fn extra(&mut self, op: &FOp, _base: u32, out: &mut Out<Self>) -> bool {
        use array_ops::Array;
        match *op {
            FOp::EqSlice => {
                std::hint::black_box(self.slice(..) == out.others[0].slice(..));
                std::hint::black_box(self.slice(..).cmp(&out.others[0].slice(..)));
                std::hint::black_box(*self == out.elems);
            }
            FOp::Sorted(k) => self.insert_ordered(E::mk(k)),
            FOp::Search(_) => {
                let _ = std::hint::black_box(self.binary_search(&out.elems[0]));
                let _ = std::hint::black_box(self.slice(..).binary_search(&out.elems[0]));
            }
            FOp::SliceOwned(a, b) => {
                let c = self.slice(a..b).to_owned();
                out.others.push(c);
                let c = self.slice_mut(a..b).to_owned();
                out.others.push(c);
            }
            FOp::ExtendRef(_) => self.extend(out.elems.iter()),
            FOp::Pool => {
                pool_copies(self);
            }
            _ => return common(self, op, out),
        }
        true
    }
}
impl<E: Elem, T: 'static> FaultExtra for sized_chunks::InlineArray<E, T> {
    fn extra(&mut self, op: &FOp, _base: u32, out: &mut Out<Self>) -> bool {
        match *op {
            FOp::EqSlice => {
                std::hint::black_box(**self == out.others[0][..]);
                true
            }
            _ => common(self, op, out),
        }
    }
}
pub fn fops<S: FaultExtra>(n: usize, hist: &[Op], full: bool) -> Vec<FOp> {
    let mut v: Vec<FOp> = all_ops::<S>(n, hist, full).into_iter().map(FOp::Do).collect();
    // constructors replace a container that is not empty, too
    if !hist.is_empty() && n > 0 {
        v.push(FOp::Do(Op::FromIter(S::maxlen())));
        v.push(FOp::Do(Op::FromIter(S::maxlen().saturating_add(1).min(90))));
        if S::KIND != Kind::Inline {
            v.push(FOp::Do(Op::Collect(S::maxlen(), S::maxlen())));
            v.push(FOp::Do(Op::Unit))
        }
    }
    v.extend([FOp::Eq, FOp::EqSlice, FOp::Cmp, FOp::HashIt, FOp::Fmt, FOp::CloneFrom, FOp::DropIt]);
    if S::KIND != Kind::Inline {
        v.push(FOp::Pool);
        for k in 0..=n as u32 {
            v.push(FOp::Sorted(k));
            if S::KIND == Kind::Ring {
                v.push(FOp::Search(k))
            }
        }
    }
    if S::KIND == Kind::Ring {
        for k in 0..=(S::maxlen() - n) + 1 {
            v.push(FOp::ExtendRef(k))
        }
        for a in 0..=n {
            for b in a..=n {
                v.push(FOp::SliceOwned(a, b))
            }
        }
    }
    v
}
/// execute with the n-th callback panicking (0: count only) -> (callbacks, fired, panic)
fn exec<S: FaultExtra>(w: &mut World<S>, op: &FOp, nth: u64, out: &mut Out<S>) -> (u64, bool, Option<String>) {
    let base = w.next;
    w.next += 200;
    match op {
        FOp::Eq | FOp::EqSlice | FOp::Cmp | FOp::CloneFrom => {
            let d = w.c().dup();
            if let FOp::EqSlice = op {
                d.each(&mut |e| out.elems.push(e.clone()))
            }
            out.others.push(d);
        }
        FOp::Search(k) => out.elems.push(S::E::mk(*k)),
        FOp::ExtendRef(k) => out.elems.extend((0..*k as u32).map(|i| S::E::mk(base + i))),
        _ => (),
    }
    let c = &mut w.g.c;
    arm(F_ALL, nth);
    let r = guard(|| match op {
        FOp::Do(op) => {
            c.exec(op, base, out);
            true
        }
        FOp::DropIt => {
            *c = S::make();
            true
        }
        op => c.extra(op, base, out),
    });
    let (n, fired) = disarm();
    (n, fired, r.err())
}
fn read_only(op: &FOp) -> bool {
    matches!(
        op,
        FOp::Eq | FOp::EqSlice | FOp::Cmp | FOp::HashIt | FOp::Fmt | FOp::CloneFrom | FOp::Search(_) | FOp::SliceOwned(..) | FOp::Pool | FOp::Do(Op::CloneK | Op::CloneD)
    )
}
/// everything that can be seen is alive and owned once; at most as many as are alive
fn sane<S: Seq>(w: &World<S>, out: &Out<S>, what: &str) -> Result<(), String> {
    if has_errs() {
        return Err(format!("{}: {}", what, take_errs().join("; ")));
    }
    let mut ids = vec![];
    for c in std::iter::once(w.c()).chain(out.others.iter()) {
        let k = c.keys();
        if k.len() != c.length() || k.len() > S::cap() {
            return Err(format!("{}: length {} but {} elements, capacity {}", what, c.length(), k.len(), S::cap()));
        }
        if k.contains(&GARBAGE) {
            return Err(format!("{}: a dead or uninitialised element is exposed", what));
        }
        ids.extend(c.ids());
    }
    for e in &out.elems {
        e.key();
        ids.push(e.id())
    }
    if has_errs() {
        return Err(format!("{}: {}", what, take_errs().join("; ")));
    }
    if S::E::TRACKED && ids.len() as i64 > S::E::live() {
        return Err(format!("{}: {} elements exposed, only {} alive", what, ids.len(), S::E::live()));
    }
    if S::E::IDS {
        ids.sort();
        if ids.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("{}: one element is exposed twice", what));
        }
    }
    w.zones()
}
/// one faulty operation on `w`; Ok(callbacks seen)
fn faulty<S: FaultExtra>(w: &mut World<S>, op: &FOp, nth: u64) -> Result<(u64, bool), String> {
    let (k0, i0) = (w.c().keys(), w.c().ids());
    let mut out = Out::default();
    let (n, fired, panic) = exec(w, op, nth, &mut out);
    let what = format!("after a panic in callback {} of {:?}", nth, op);
    if fired {
        match &panic {
            Some(p) if p == INJECTED => (),
            Some(p) => return Err(format!("{}: panicked with {:?} instead", what, p)),
            // a container may catch a panic, but nothing here does
            None => return Err(format!("{}: the panic was swallowed", what)),
        }
    }
    sane(w, &out, &what)?;
    if fired && read_only(op) && (w.c().keys() != k0 || w.c().ids() != i0) {
        return Err(format!("{}: the container that was only read changed from {:?} to {:?}", what, k0, w.c().keys()));
    }
    for c in std::mem::take(&mut out.others) {
        // the other containers are usable too
        let k = c.keys();
        let mut x = World::<S>::new();
        x.next = w.next + 100;
        x.g.c = c;
        usable(&mut x, &k).map_err(|e| format!("{}: other container: {}", what, e))?;
    }
    drop(out);
    if has_errs() {
        return Err(format!("{}, dropping the outputs: {}", what, take_errs().join("; ")));
    }
    Ok((n, fired))
}
fn finish<S: FaultExtra>(mut w: World<S>, what: &str) -> Result<(), String> {
    let k = w.c().keys();
    usable(&mut w, &k).map_err(|e| format!("{}: {}", what, e))?;
    drop(w);
    if has_errs() {
        return Err(format!("{}, dropping the container: {}", what, take_errs().join("; ")));
    }
    Ok(())
}
pub fn fault_state<S: FaultExtra>(ctx: &mut Ctx, st: &State, full: bool) {
    for op in fops::<S>(st.len, &st.hist, full) {
        if ctx.stopped() {
            return;
        }
        // how many callbacks are there?
        reset();
        let mut n = 0;
        ctx.add("evaluations", 1);
        ctx.run(
            || format!("{} history {:?} then {:?}, no fault", S::name(), st.hist, op),
            || {
                let mut w = World::<S>::build(&st.hist);
                let mut out = Out::default();
                n = exec(&mut w, &op, 0, &mut out).0;
                drop(out);
                finish(w, "without a fault")
            },
        );
        if n == 0 && ctx.only_other() {
            n = count_only::<S>(&st.hist, &op);
        }
        for k in 1..=n {
            ctx.add("evaluations", 1);
            let mut hit = 0;
            ctx.run(
                || format!("{} history {:?} then {:?} with callback {} panicking", S::name(), st.hist, op, k),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    let (_, fired) = faulty(&mut w, &op, k)?;
                    hit += fired as u64;
                    finish(w, &format!("after a panic in callback {} of {:?}", k, op))
                },
            );
            ctx.add("distinct_nontrivial", hit);
        }
    }
}
fn count_only<S: FaultExtra>(hist: &[Op], op: &FOp) -> u64 {
    reset();
    let mut w = World::<S>::build(hist);
    let mut out = Out::default();
    exec(&mut w, op, 0, &mut out).0
}
/// two faults in a row
pub fn fault_pairs<S: FaultExtra>(ctx: &mut Ctx, st: &State) {
    use Op::*;
    let cap = S::cap();
    let mut ops: Vec<FOp> = vec![];
    for o in [Clear, Extend(cap), CloneK, CloneD, Drain(1, 0), Consume(0, 1), FromIter(cap), Drain(0, 0), PushB] {
        ops.push(FOp::Do(o))
    }
    if S::KIND != Kind::Inline {
        for i in 0..=st.len {
            ops.extend([DropL(i), DropR(i)].map(FOp::Do));
            for k in 1..=cap - st.len {
                ops.push(FOp::Do(InsFrom(i, k)))
            }
            ops.push(FOp::Sorted(i as u32));
        }
    }
    for a in &ops {
        let na = count_only::<S>(&st.hist, a);
        for ka in 1..=na {
            for b in &ops {
                // the number of callbacks of b depends on the state after a: enumerate until none fires
                for kb in 1..64 {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.add("evaluations", 1);
                    let mut hit = false;
                    ctx.run(
                        || format!("{} history {:?} then {:?} with callback {} panicking, then {:?} with callback {} panicking", S::name(), st.hist, a, ka, b, kb),
                        || {
                            let mut w = World::<S>::build(&st.hist);
                            faulty(&mut w, a, ka)?;
                            hit = faulty(&mut w, b, kb)?.1;
                            finish(w, "after two panics")
                        },
                    );
                    if !hit && !ctx.only_other() {
                        break;
                    }
                    ctx.add("distinct_nontrivial", 1);
                }
            }
        }
    }
}
pub fn fault_jobs<S: FaultExtra>(jobs: &mut Vec<Job>, reps: usize, shards: usize, full: bool) {
    space_jobs::<S>(jobs, "faults", reps, shards, move |c, st| fault_state::<S>(c, st, full));
}
pub fn fault_pair_jobs<S: FaultExtra>(jobs: &mut Vec<Job>, shards: usize) {
    space_jobs::<S>(jobs, "two faults", 1, shards, fault_pairs::<S>);
}

// ---- sparse -------------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
enum SF {
    Do(SOp),
    Eq,
    Maps,
    Fmt,
    Pool,
}
fn sfexec<E: Elem, const N: usize>(w: &mut SWorld<E, N>, op: &SF, nth: u64) -> (u64, bool, Option<String>, Vec<E>, Vec<sized_chunks::sparse_chunk::SparseChunk<E, N>>)
where
    BitsImpl<N>: Bits,
{
    let base = w.next;
    w.next += 200;
    let mut out = SOut { ret: vec![], others: vec![] };
    let mut map = BTreeMap::new();
    match op {
        SF::Eq => out.others.push(w.c().clone()),
        SF::Maps => map = (0..N).filter_map(|i| w.c().get(i).map(|e| (i, e.clone()))).collect(),
        _ => (),
    }
    let c = &mut w.g.c;
    arm(F_ALL, nth);
    let r = guard(|| match op {
        SF::Do(op) => sexec(c, op, base, &mut out),
        SF::Eq => {
            std::hint::black_box(*c == out.others[0]);
        }
        SF::Maps => {
            std::hint::black_box(*c == map);
        }
        SF::Fmt => {
            std::hint::black_box(format!("{:?}", c));
        }
        SF::Pool => {
            use refpool::*;
            let pool: Pool<sized_chunks::sparse_chunk::SparseChunk<E, N>> = Pool::new(4);
            let a = PoolRef::clone_from(&pool, c);
            let mut b = a.clone();
            PoolRef::make_mut(&pool, &mut b).len();
        }
    });
    let (n, f) = disarm();
    (n, f, r.err(), out.ret.into_iter().flatten().collect(), out.others)
}
pub fn fault_sparse<E: Elem, const N: usize>(ctx: &mut Ctx, h: &Vec<SOp>, initial: bool, max: usize)
where
    BitsImpl<N>: Bits,
{
    let (m0, _) = smodel_hist(N, h);
    let mut ops: Vec<SF> = sops(N, max, m0.len(), initial).into_iter().map(SF::Do).collect();
    if !initial {
        ops.push(SF::Do(SOp::From((0..N).collect(), N)));
        ops.push(SF::Do(SOp::From((0..=N).collect(), N + 1)));
        ops.push(SF::Do(SOp::Unit(N - 1)));
    }
    ops.extend([SF::Eq, SF::Maps, SF::Fmt, SF::Pool]);
    for op in ops {
        if ctx.stopped() {
            return;
        }
        reset();
        let n = {
            let mut w = SWorld::<E, N>::build(h);
            sfexec(&mut w, &op, 0).0
        };
        for k in 1..=n {
            ctx.add("evaluations", 1);
            let mut hit = 0;
            ctx.run(
                || format!("{} with callback {} panicking", sdesc::<E>(N, h, &op), k),
                || {
                    let mut w = SWorld::<E, N>::build(h);
                    let look = |w: &SWorld<E, N>| (0..N).map(|i| w.c().get(i).map(|e| (e.key(), e.id()))).collect::<Vec<_>>();
                    let before = look(&w);
                    let (_, fired, panic, ret, others) = sfexec(&mut w, &op, k);
                    hit = fired as u64;
                    if fired && panic.is_none() {
                        return Err("the panic was swallowed".into());
                    }
                    let after = look(&w);
                    let ro = matches!(op, SF::Eq | SF::Maps | SF::Fmt | SF::Pool | SF::Do(SOp::CloneD | SOp::CloneK));
                    if fired && ro && after != before {
                        return Err("the container that was only read changed".into());
                    }
                    let mut ids: Vec<u32> = after.iter().flatten().map(|e| e.1).collect();
                    for e in &ret {
                        e.key();
                        ids.push(e.id())
                    }
                    for c in &others {
                        ids.extend((0..N).filter_map(|i| c.get(i)).map(|e| {
                            e.key();
                            e.id()
                        }))
                    }
                    if has_errs() {
                        return Err(take_errs().join("; "));
                    }
                    if ids.len() as i64 > E::live() {
                        return Err(format!("{} elements exposed, only {} alive", ids.len(), E::live()));
                    }
                    if E::IDS {
                        ids.sort();
                        if ids.windows(2).any(|w| w[0] == w[1]) {
                            return Err("one element is exposed twice".into());
                        }
                    }
                    w.zones()?;
                    drop((ret, others));
                    let mut m: M = after.iter().enumerate().filter_map(|(i, e)| e.map(|e| (i, e.0))).collect();
                    sobserve(w.c(), &m)?;
                    for op in [SOp::Insert(N - 1), SOp::Pop, SOp::Insert(0), SOp::CloneD, SOp::Insert(N / 2), SOp::Remove(N - 1), SOp::Insert(N - 1), SOp::IntoIter(1)] {
                        sstep(&mut w, &mut m, &op).map_err(|e| format!("not usable afterwards: {}", e))?
                    }
                    drop(w);
                    if has_errs() {
                        return Err(take_errs().join("; "));
                    }
                    Ok(())
                },
            );
            ctx.add("distinct_nontrivial", hit);
        }
    }
    let _ = clean::<E>;
}
