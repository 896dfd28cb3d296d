//! C13: equality, ordering, hashing and Debug over all pairs of contents and all pairs of layouts.
use crate::elem::*;
use crate::harness::{Ctx, Job};
use crate::seq::*;
use crate::sparse::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::ring_buffer::{Slice, SliceMut};
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::{Arc, OnceLock};

/// records what it is fed
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.0.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn fed<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = Rec::default();
    t.hash(&mut h);
    h.0
}
fn sip<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
type Bh = BuildHasherDefault<DefaultHasher>;

/// one value: a state with chosen contents
#[derive(Clone, Debug)]
pub struct Val {
    pub hist: Vec<Op>,
    pub keys: Vec<u32>,
}
pub fn build_val<S: Seq>(v: &Val) -> S {
    let mut w = World::<S>::build(&v.hist);
    for (i, k) in v.keys.iter().enumerate() {
        *w.cm().at_mut(i) = S::E::mk(*k);
    }
    std::mem::replace(&mut w.g.c, S::make())
}
/// every assignment of keys below `alpha` to every state of at most `max` elements
pub fn values(states: &[State], alpha: u32, max: usize) -> Vec<Val> {
    let mut v = vec![];
    for st in states.iter().filter(|s| s.len <= max) {
        for code in 0..(alpha as u64).pow(st.len as u32) {
            let mut c = code;
            let keys = (0..st.len)
                .map(|_| {
                    let k = (c % alpha as u64) as u32;
                    c /= alpha as u64;
                    k
                })
                .collect();
            v.push(Val { hist: st.hist.clone(), keys })
        }
    }
    v
}
pub fn value_jobs<S: Seq>(
    jobs: &mut Vec<Job>,
    label: &str,
    (reps, alpha, max): (usize, u32, usize),
    shards: usize,
    check: impl Fn(&mut Ctx, &[Val], usize) + Send + Sync + Clone + 'static,
) {
    let cell: Arc<OnceLock<Arc<Vec<Val>>>> = Arc::new(OnceLock::new());
    for sh in 0..shards {
        let (cell, check) = (cell.clone(), check.clone());
        jobs.push(Job {
            name: format!("{} {} {}/{}", label, S::name(), sh, shards),
            f: Box::new(move |ctx| {
                let vals = cell
                    .get_or_init(|| {
                        let v = values(&explore::<S>(ctx, reps), alpha, max);
                        ctx.add("values", v.len() as u64);
                        Arc::new(v)
                    })
                    .clone();
                for i in (sh..vals.len()).step_by(shards) {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.state(i);
                    check(ctx, &vals, i)
                }
            }),
        });
    }
}

macro_rules! want {
    ($what:expr, $got:expr, $exp:expr) => {{
        let (g, e) = (&$got, &$exp);
        if g != e {
            return Err(format!("{} is {:?}, expected {:?}", $what, g, e));
        }
    }};
}
/// the comparison operators of one type against those of the plain sequences
fn ordered<T: Ord + Debug, E: Ord>(what: &str, a: &T, b: &T, va: &[E], vb: &[E], total: bool) -> Result<(), String> {
    want!(format!("{} ==", what), a == b, va == vb);
    want!(format!("{} !=", what), a != b, va != vb);
    want!(format!("{} partial_cmp", what), a.partial_cmp(b), va.partial_cmp(vb));
    want!(format!("{} <", what), a < b, va < vb);
    want!(format!("{} <=", what), a <= b, va <= vb);
    want!(format!("{} >", what), a > b, va > vb);
    want!(format!("{} >=", what), a >= b, va >= vb);
    if total {
        want!(format!("{} cmp", what), a.cmp(b), va.cmp(vb));
        let max: &T = std::cmp::max(a, b);
        want!(format!("{} max is the second", what), std::ptr::eq(max, b), va <= vb || std::ptr::eq(a, b));
    }
    Ok(())
}
/// equal contents hash and print alike; different ones print differently
fn alike<T: Hash + Debug>(what: &str, a: &T, b: &T, same: bool) -> Result<(), String> {
    if same {
        want!(format!("{}: hash input", what), fed(a), fed(b));
        want!(format!("{}: hash", what), sip(a), sip(b));
        want!(format!("{}: print", what), format!("{:?}", a), format!("{:?}", b));
        want!(format!("{}: pretty print", what), format!("{:#?}", a), format!("{:#?}", b));
    } else {
        if format!("{:?}", a) == format!("{:?}", b) {
            return Err(format!("{}: different contents are printed alike: {:?}", what, a));
        }
    }
    Ok(())
}
/// as the slice it can be borrowed as
fn borrowed<T: Borrow<[E]> + Hash + Ord + Debug, E: Elem>(what: &str, a: &T, va: &[E]) -> Result<(), String> {
    want!(format!("{}: borrow()", what), a.borrow().iter().map(|e| e.key()).collect::<Vec<_>>(), va.iter().map(|e| e.key()).collect::<Vec<_>>());
    want!(format!("{}: hash input (against its slice)", what), fed(a), fed(va));
    want!(format!("{}: hash (against its slice)", what), sip(a), sip(va));
    Ok(())
}
/// lookups in keyed collections by the borrowed slice and by value
fn lookups<T: Borrow<[E]> + Hash + Ord + Debug, E: Elem>(what: &str, a: T, b: &T, vb: &[E], same: bool) -> Result<(), String> {
    let n = same.then_some(&7);
    let mut h: HashMap<T, u32, Bh> = HashMap::default();
    h.insert(a, 7);
    want!(format!("{}: HashMap lookup by slice", what), h.get(vb), n);
    want!(format!("{}: HashMap lookup", what), h.get::<T>(b), n);
    let a = h.into_iter().next().unwrap().0;
    let mut t: BTreeMap<T, u32> = BTreeMap::new();
    t.insert(a, 7);
    want!(format!("{}: BTreeMap lookup by slice", what), t.get(vb), n);
    want!(format!("{}: BTreeMap lookup", what), t.get::<T>(b), n);
    Ok(())
}

/// pairs of one type: (a, b) with contents (va, vb)
pub trait Pairs: Seq {
    fn pair(a: &Self, b: &mut Self, va: &[Self::E], vb: &[Self::E], total: bool) -> Result<(), String>;
    /// a sorted collection of many values agrees with one of plain vectors
    fn set(vals: Vec<Self>, plain: Vec<Vec<Self::E>>) -> Result<(), String>;
}
macro_rules! sets {
    () => {
        fn set(vals: Vec<Self>, plain: Vec<Vec<Self::E>>) -> Result<(), String> {
            let t: BTreeSet<Self> = vals.iter().cloned().collect();
            let tp: BTreeSet<Vec<Self::E>> = plain.iter().cloned().collect();
            want!("size of a BTreeSet of all values", t.len(), tp.len());
            for (x, y) in t.iter().zip(&tp) {
                keys_eq::<Self::E>(&mut x.keys().into_iter(), &y.iter().map(|e| e.key()).collect::<Vec<_>>(), "order of a BTreeSet of all values")?;
            }
            let h: HashSet<Self, Bh> = vals.iter().cloned().collect();
            want!("size of a HashSet of all values", h.len(), tp.len());
            let mut s = vals;
            s.sort();
            let mut p = plain;
            p.sort();
            for (x, y) in s.iter().zip(&p) {
                keys_eq::<Self::E>(&mut x.keys().into_iter(), &y.iter().map(|e| e.key()).collect::<Vec<_>>(), "sorted values")?;
            }
            Ok(())
        }
    };
}
impl<E: Elem, const N: usize> Pairs for Chunk<E, N> {
    sets!();
    fn pair(a: &Self, b: &mut Self, va: &[E], vb: &[E], total: bool) -> Result<(), String> {
        let same = va == vb;
        ordered("chunks", a, b, va, vb, total)?;
        let bv: Vec<E> = vb.to_vec();
        want!("Chunk == Vec", *a == bv, same);
        want!("Chunk == &[A]", *a == &bv[..], same);
        want!("Vec == by deref", a[..] == bv[..], same);
        if total {
            alike("chunks", a, b, same)?;
            borrowed("chunk", a, va)?;
            lookups("chunk", a.clone(), b, vb, same)?;
        }
        Ok(())
    }
}
impl<E: Elem, T: 'static> Pairs for InlineArray<E, T> {
    sets!();
    fn pair(a: &Self, b: &mut Self, va: &[E], vb: &[E], total: bool) -> Result<(), String> {
        let same = va == vb;
        ordered("arrays", a, b, va, vb, total)?;
        let bv: Vec<E> = vb.to_vec();
        want!("InlineArray == Vec", *a == bv, same);
        want!("InlineArray == &[A]", *a == &bv[..], same);
        if total {
            alike("arrays", a, b, same)?;
            borrowed("array", a, va)?;
            lookups("array", a.clone(), b, vb, same)?;
        }
        Ok(())
    }
}
fn slices<'x, 'y, E: Elem, const N: usize>(a: &Slice<'x, E, N>, b: &SliceMut<'y, E, N>, va: &[E], vb: &[E]) -> Result<(), String> {
    // one lifetime for both
    fn go<'z, E: Elem, const N: usize>(a: &Slice<'z, E, N>, b: &SliceMut<'z, E, N>, va: &[E], vb: &[E]) -> Result<(), String> {
        want!("Slice == SliceMut", *a == *b, va == vb);
        want!("SliceMut == Slice", *b == *a, va == vb);
        Ok(())
    }
    go(a, b, va, vb)
}
impl<E: Elem, const N: usize> Pairs for RingBuffer<E, N> {
    sets!();
    fn pair(a: &Self, b: &mut Self, va: &[E], vb: &[E], total: bool) -> Result<(), String> {
        let same = va == vb;
        ordered("ring buffers", a, &*b, va, vb, total)?;
        let bv: Vec<E> = vb.to_vec();
        want!("RingBuffer == Vec", *a == bv, same);
        want!("RingBuffer == &[A]", *a == &bv[..], same);
        ordered("slices", &a.slice(..), &b.slice(..), va, vb, total)?;
        want!("RingBuffer == Slice", *a == b.slice(..), same);
        want!("Slice == RingBuffer", a.slice(..) == *b, same);
        want!("Slice == Vec", a.slice(..) == bv, same);
        want!("Slice == &[A]", a.slice(..) == &bv[..], same);
        want!("RingBuffer == SliceMut", *a == b.slice_mut(..), same);
        want!("SliceMut == RingBuffer", b.slice_mut(..) == *a, vb == va);
        let av: Vec<E> = va.to_vec();
        want!("SliceMut == Vec", b.slice_mut(..) == av, vb == va);
        want!("SliceMut == &[A]", b.slice_mut(..) == &av[..], vb == va);
        slices(&a.slice(..), &b.slice_mut(..), va, vb)?;
        if total {
            alike("ring buffers", a, &*b, same)?;
            alike("slices", &a.slice(..), &b.slice(..), same)?;
            if same {
                want!("slice: print", format!("{:?}", a), format!("{:?}", b.slice(..)));
                want!("mutable slice: print", format!("{:?}", a), format!("{:?}", b.slice_mut(..)));
                want!("slice: hash input", fed(a), fed(&b.slice(..)));
                want!("mutable slice: hash input", fed(a), fed(&b.slice_mut(..)));
            }
        }
        // proper windows of both
        for (i, j) in [(0, va.len()), (1, va.len()), (0, va.len().saturating_sub(1)), (va.len() / 2, va.len())] {
            for (k, l) in [(0, vb.len()), (1, vb.len()), (0, vb.len().saturating_sub(1))] {
                if i > j || k > l || (i, j, k, l) == (0, va.len(), 0, vb.len()) {
                    continue;
                }
                let (wa, wb) = (&va[i..j], &vb[k..l]);
                let what = format!("windows {}..{} and {}..{}", i, j, k, l);
                ordered(&what, &a.slice(i..j), &b.slice(k..l), wa, wb, total)?;
                want!(what, *a == b.slice(k..l), va == wb);
                want!(what, a.slice(i..j) == *b, wa == vb);
                want!(what, a.slice(i..j) == wb.to_vec(), wa == wb);
                want!(what, *a == b.slice_mut(k..l), va == wb);
                want!(what, b.slice_mut(k..l) == *a, wb == va);
                slices(&a.slice(i..j), &b.slice_mut(k..l), wa, wb)?;
                if total && wa == wb {
                    want!(what, fed(&a.slice(i..j)), fed(&b.slice_mut(k..l)));
                    want!(what, format!("{:?}", a.slice(i..j)), format!("{:?}", b.slice_mut(k..l)));
                    want!(what, format!("{:?}", a.slice(i..j)), format!("{:?}", b.slice(k..l)));
                }
            }
        }
        let mut a2 = a.clone();
        ordered("mutable slices", &a2.slice_mut(..), &b.slice_mut(..), va, vb, total)
    }
}
pub fn eq_jobs<S: Pairs>(jobs: &mut Vec<Job>, space: (usize, u32, usize), shards: usize, total: bool) {
    value_jobs::<S>(jobs, "pairs of values", space, shards, move |ctx, vals, i| {
        ctx.add("transitions", vals.len() as u64);
        let a = &vals[i];
        let lit = |v: &Val| v.keys.iter().map(|k| S::E::mk(*k)).collect::<Vec<S::E>>();
        let ok = ctx.run(
            || format!("{} history {:?} with contents {:?} against every value", S::name(), a.hist, a.keys),
            || {
                let (ca, va) = (build_val::<S>(a), lit(a));
                for b in vals {
                    let (mut cb, vb) = (build_val::<S>(b), lit(b));
                    S::pair(&ca, &mut cb, &va, &vb, total).map_err(|e| format!("{}; the other: history {:?} with contents {:?}", e, b.hist, b.keys))?;
                    // comparing changes nothing
                    observe(&cb, &b.keys)?;
                }
                observe(&ca, &a.keys)
            },
        );
        if ok && i == 0 && total {
            ctx.run(
                || format!("{}: all values in sets", S::name()),
                || {
                    let sel: Vec<&Val> = vals.iter().step_by((vals.len() / 400).max(1)).collect();
                    S::set(sel.iter().map(|v| build_val::<S>(v)).collect(), sel.iter().map(|v| lit(v)).collect())
                },
            );
        }
    });
}
/// long contents: equal ones in different layouts, and ones that differ at one place or in length
pub fn long_eq_jobs<S: Pairs>(jobs: &mut Vec<Job>, shards: usize) {
    pair_jobs::<S>(jobs, "pairs of long values", 1, shards, |ctx, sp, a| {
        let cap = S::cap();
        let mut others: Vec<&State> = sp.iter().filter(|b| b.len == a.len).collect();
        let k = others.len();
        others = others.into_iter().enumerate().filter(|(i, _)| [0, k / 2, k - 1].contains(i)).map(|x| x.1).collect();
        others.extend(sp.iter().filter(|b| b.len != a.len).skip(a.key.0 % 11).step_by(11));
        let lit = |v: &Val| v.keys.iter().map(|k| S::E::mk(*k)).collect::<Vec<S::E>>();
        let va = Val { hist: a.hist.clone(), keys: (0..a.len as u32).map(|i| 2 * i + 1).collect() };
        for b in others {
            // no difference, and each of the boundary places
            let places: Vec<Option<usize>> = if a.len == b.len { [None].into_iter().chain(marks(b.len, cap).into_iter().map(Some)).collect() } else { vec![None] };
            for p in places {
                for up in [true, false] {
                    let mut keys: Vec<u32> = (0..b.len as u32).map(|i| 2 * i + 1).collect();
                    match p {
                        Some(p) if p < keys.len() => keys[p] = if up { keys[p] + 1 } else { keys[p] - 1 },
                        None if up => (),
                        _ => continue,
                    }
                    if ctx.stopped() {
                        return;
                    }
                    let vb = Val { hist: b.hist.clone(), keys };
                    ctx.add("transitions", 1);
                    ctx.run(
                        || format!("{} history {:?} against history {:?}, ascending contents, difference {:?}", S::name(), a.hist, b.hist, p),
                        || {
                            let (ca, mut cb) = (build_val::<S>(&va), build_val::<S>(&vb));
                            S::pair(&ca, &mut cb, &lit(&va), &lit(&vb), true)?;
                            observe(&cb, &vb.keys)?;
                            observe(&ca, &va.keys)
                        },
                    );
                }
            }
        }
    });
}
/// different container types with the same or different contents
pub fn cross_jobs<E: Elem, const N: usize, T: 'static>(jobs: &mut Vec<Job>, alpha: u32, max: usize) {
    jobs.push(Job {
        name: format!("pairs across types {} {}", E::NAME, N),
        f: Box::new(move |ctx| {
            let cs = values(&explore::<Chunk<E, N>>(ctx, 1), alpha, max);
            let rs = values(&explore::<RingBuffer<E, N>>(ctx, 1), alpha, max);
            let is = values(&explore::<InlineArray<E, T>>(ctx, 1), alpha, max);
            for (i, a) in cs.iter().chain(&rs).chain(&is).enumerate() {
                let kind = if i < cs.len() { 0 } else if i < cs.len() + rs.len() { 1 } else { 2 };
                if ctx.stopped() {
                    return;
                }
                ctx.state(i);
                ctx.add("transitions", (cs.len() + is.len()) as u64);
                ctx.run(
                    || format!("{} history {:?} with contents {:?} against the other types", ["Chunk", "RingBuffer", "InlineArray"][kind], a.hist, a.keys),
                    || {
                        macro_rules! against {
                            ($a:expr, $what:expr) => {{
                                let mut a = $a;
                                for b in &cs {
                                    let mut c = build_val::<Chunk<E, N>>(b);
                                    let same = a.keys() == c.keys();
                                    want!(format!("{} == Chunk (history {:?}, contents {:?})", $what, b.hist, b.keys), a == c, same);
                                    sl(&mut a, &mut c, same)?;
                                }
                                for b in &is {
                                    let mut c = build_val::<InlineArray<E, T>>(b);
                                    let same = a.keys() == c.keys();
                                    want!(format!("{} == InlineArray (history {:?}, contents {:?})", $what, b.hist, b.keys), a == c, same);
                                    sl(&mut a, &mut c, same)?;
                                }
                            }};
                        }
                        fn sl<A, B>(_: &mut A, _: &mut B, _: bool) -> Result<(), String> {
                            Ok(())
                        }
                        match kind {
                            0 => against!(build_val::<Chunk<E, N>>(a), "Chunk"),
                            2 => against!(build_val::<InlineArray<E, T>>(a), "InlineArray"),
                            _ => {
                                fn sl<E: Elem, C: Borrow<[E]>, const N: usize>(a: &mut RingBuffer<E, N>, c: &mut C, same: bool) -> Result<(), String> {
                                    want!("Slice ==", a.slice(..) == *c, same);
                                    want!("SliceMut ==", a.slice_mut(..) == *c, same);
                                    Ok(())
                                }
                                against!(build_val::<RingBuffer<E, N>>(a), "RingBuffer")
                            }
                        }
                        Ok(())
                    },
                );
            }
        }),
    });
}

// ---- sparse -------------------------------------------------------------------------------------------------------
/// contents: per index none or a key; made by three kinds of history
fn smake<E: Elem, const N: usize>(m: &M, how: usize) -> SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    match how {
        0 => {
            let mut c = SparseChunk::new();
            for (i, k) in m {
                c.insert(*i, E::mk(*k));
            }
            c
        }
        1 => {
            // all slots were full of other values
            let mut c: SparseChunk<E, N> = (0..N).map(|i| Some(E::mk(2 + i as u32))).collect();
            for i in (0..N).rev() {
                match m.get(&i) {
                    Some(k) => {
                        c.insert(i, E::mk(*k));
                    }
                    None => {
                        c.remove(i);
                    }
                }
            }
            c
        }
        _ => {
            let mut c: SparseChunk<E, N> = (0..N).map(|i| m.get(&i).map(|k| E::mk(*k))).collect();
            if !m.contains_key(&0) {
                c.insert(0, E::mk(1));
                c.pop();
            }
            c
        }
    }
}
pub fn seq_maps(n: usize, alpha: u32) -> Vec<M> {
    let mut v = vec![];
    for code in 0..(alpha as u64 + 1).pow(n as u32) {
        let mut c = code;
        let mut m = M::new();
        for i in 0..n {
            let k = (c % (alpha as u64 + 1)) as u32;
            c /= alpha as u64 + 1;
            if k > 0 {
                m.insert(i, k - 1);
            }
        }
        v.push(m)
    }
    v
}
pub fn sparse_eq_jobs<E: Elem, const N: usize>(jobs: &mut Vec<Job>, n: usize, alpha: u32, stride: usize, shards: usize, total: bool)
where
    BitsImpl<N>: Bits,
{
    for sh in 0..shards {
        jobs.push(Job {
            name: format!("pairs of values SparseChunk<{},{}> {}/{}", E::NAME, N, sh, shards),
            f: Box::new(move |ctx| {
                // the first n slots, spread over the capacity
                let ms: Vec<M> = seq_maps(n, alpha).into_iter().map(|m| m.into_iter().map(|(i, k)| ((i * stride).min(N - 1 - (n - 1 - i)), k)).collect()).collect();
                if sh == 0 {
                    ctx.add("values", 3 * ms.len() as u64);
                    ctx.add("states", 3 * ms.len() as u64);
                }
                for i in (sh..ms.len()).step_by(shards) {
                    if ctx.stopped() {
                        return;
                    }
                    let ma = &ms[i];
                    ctx.state(i);
                    for how in 0..3 {
                        ctx.add("transitions", 3 * ms.len() as u64);
                        ctx.run(
                            || format!("SparseChunk<{},{}> {:?} (way {}) against every value", E::NAME, N, ma, how),
                            || {
                                let a = smake::<E, N>(ma, how);
                                let lit = |m: &M| -> BTreeMap<usize, E> { m.iter().map(|(i, k)| (*i, E::mk(*k))).collect() };
                                let la = lit(ma);
                                for mb in &ms {
                                    let lb = lit(mb);
                                    let same = la == lb;
                                    want!(format!("SparseChunk == BTreeMap {:?}", mb), a == lb, same);
                                    let hb: HashMap<usize, E, std::collections::hash_map::RandomState> = lb.clone().into_iter().collect();
                                    want!(format!("SparseChunk == HashMap {:?}", mb), a == hb, same);
                                    for how2 in 0..3 {
                                        let b = smake::<E, N>(mb, how2);
                                        want!(format!("SparseChunk == {:?} (way {})", mb, how2), a == b, same);
                                        want!(format!("SparseChunk != {:?} (way {})", mb, how2), a != b, !same);
                                        if total && (how2 == 1 || same) {
                                            let (x, y) = (format!("{:?}", a), format!("{:?}", b));
                                            if (x == y) != same {
                                                return Err(format!("printed {} and {}", x, y));
                                            }
                                        }
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }),
        });
    }
}
