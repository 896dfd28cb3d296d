//! SparseChunk: operations, reference model (BTreeMap), observation, state spaces.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::seq::show;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::sparse_chunk::SparseChunk;
use std::collections::{BTreeMap, HashMap};
use std::mem::replace;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SOp {
    New,
    Unit(usize),
    Pair(usize, usize),
    /// collected from `.1` options, of which those at the indices in `.0` are Some
    From(Vec<usize>, usize),
    Insert(usize),
    Remove(usize),
    Pop,
    /// replace through get_mut / IndexMut
    Write(usize),
    WriteIdx(usize),
    /// read through Index
    Index(usize),
    CloneK,
    CloneD,
    /// n steps of the consuming iterators, then dropped; the chunk is new afterwards
    Drain(usize),
    IntoIter(usize),
    OptDrain(usize),
}
use SOp::*;
pub type M = BTreeMap<usize, u32>;
pub struct SOut<E: Elem, const N: usize>
where
    BitsImpl<N>: Bits,
{
    /// what was returned: Some(element) / None per answer
    pub ret: Vec<Option<E>>,
    pub others: Vec<SparseChunk<E, N>>,
}
#[derive(Default, Debug, Clone)]
pub struct SExp {
    pub refuse: bool,
    pub ret: Vec<Option<u32>>,
    pub others: Vec<M>,
}
const PAT: u64 = 0x9E37_79B9_7F4A_7C15;
#[repr(C)]
pub struct SGuarded<E: Elem, const N: usize>
where
    BitsImpl<N>: Bits,
{
    pre: [u64; 16],
    pub c: SparseChunk<E, N>,
    post: [u64; 16],
}
pub struct SWorld<E: Elem, const N: usize>
where
    BitsImpl<N>: Bits,
{
    pub g: Box<SGuarded<E, N>>,
    pub next: u32,
}
pub struct SOutcome<E: Elem, const N: usize>
where
    BitsImpl<N>: Bits,
{
    pub panic: Option<String>,
    pub out: SOut<E, N>,
    pub base: u32,
}

pub fn snkeys(op: &SOp) -> u32 {
    match op {
        Unit(_) | Insert(_) | Write(_) | WriteIdx(_) => 1,
        Pair(..) => 2,
        From(s, _) => s.len() as u32,
        _ => 0,
    }
}
pub fn smodel(n: usize, m: &mut M, op: &SOp, base: u32) -> SExp {
    let mut x = SExp::default();
    match op {
        New => m.clear(),
        Unit(i) => {
            if *i >= n {
                x.refuse = true
            } else {
                *m = M::from([(*i, base)])
            }
        }
        Pair(i, j) => {
            if *i >= n || *j >= n {
                x.refuse = true
            } else {
                let mut r = M::new();
                r.insert(*i, base);
                r.insert(*j, base + 1);
                *m = r
            }
        }
        From(s, _) => {
            if s.iter().any(|i| *i >= n) {
                x.refuse = true
            } else {
                *m = s.iter().enumerate().map(|(k, i)| (*i, base + k as u32)).collect()
            }
        }
        Insert(i) => {
            if *i >= n {
                x.refuse = true
            } else {
                x.ret.push(m.insert(*i, base))
            }
        }
        Remove(i) => {
            if *i >= n {
                x.refuse = true
            } else {
                x.ret.push(m.remove(i))
            }
        }
        Pop => {
            let k = m.keys().next().copied();
            x.ret.push(k.and_then(|k| m.remove(&k)))
        }
        Write(i) => x.ret.push(m.get_mut(i).map(|v| replace(v, base))),
        WriteIdx(i) => match m.get_mut(i) {
            Some(v) => x.ret.push(Some(replace(v, base))),
            None => x.refuse = true,
        },
        Index(i) => x.refuse = !m.contains_key(i),
        CloneK | CloneD => x.others.push(m.clone()),
        Drain(k) | IntoIter(k) => {
            let vals: Vec<u32> = m.values().copied().collect();
            for i in 0..*k {
                x.ret.push(vals.get(i).copied())
            }
            m.clear()
        }
        OptDrain(k) => {
            for i in 0..*k {
                x.ret.push(m.get(&i).copied())
            }
            m.clear()
        }
    }
    x
}
impl<E: Elem, const N: usize> SWorld<E, N>
where
    BitsImpl<N>: Bits,
{
    pub fn new() -> Self {
        SWorld { g: Box::new(SGuarded { pre: [PAT; 16], c: SparseChunk::new(), post: [PAT; 16] }), next: 0 }
    }
    pub fn c(&self) -> &SparseChunk<E, N> {
        &self.g.c
    }
    pub fn cm(&mut self) -> &mut SparseChunk<E, N> {
        &mut self.g.c
    }
    pub fn zones(&self) -> Result<(), String> {
        for p in self.g.pre.iter().chain(&self.g.post) {
            if unsafe { std::ptr::read_volatile(p) } != PAT {
                return Err("memory outside of the container was overwritten".into());
            }
        }
        Ok(())
    }
    pub fn of(c: SparseChunk<E, N>, next: u32) -> Self {
        let mut w = Self::new();
        w.g.c = c;
        w.next = next;
        w
    }
    pub fn build(h: &[SOp]) -> Self {
        let mut w = Self::new();
        for op in h {
            let _ = w.exec(op);
        }
        w
    }
    pub fn exec(&mut self, op: &SOp) -> SOutcome<E, N> {
        let mut out = SOut { ret: vec![], others: vec![] };
        let base = self.next;
        self.next += snkeys(op);
        let c = &mut self.g.c;
        let r = guard(|| sexec(c, op, base, &mut out));
        SOutcome { panic: r.err(), out, base }
    }
}
pub fn sexec<E: Elem, const N: usize>(c: &mut SparseChunk<E, N>, op: &SOp, base: u32, out: &mut SOut<E, N>)
where
    BitsImpl<N>: Bits,
{
    match op {
        New => *c = SparseChunk::default(),
        Unit(i) => *c = SparseChunk::unit(*i, E::mk(base)),
        Pair(i, j) => *c = SparseChunk::pair(*i, E::mk(base), *j, E::mk(base + 1)),
        From(s, len) => {
            let mut k = 0;
            *c = (0..*len)
                .map(|i| {
                    tick(F_NEXT);
                    if s.contains(&i) {
                        k += 1;
                        Some(E::mk(base + k - 1))
                    } else {
                        None
                    }
                })
                .collect()
        }
        Insert(i) => out.ret.push(c.insert(*i, E::mk(base))),
        Remove(i) => out.ret.push(c.remove(*i)),
        Pop => out.ret.push(c.pop()),
        Write(i) => {
            let e = E::mk(base);
            out.ret.push(c.get_mut(*i).map(|r| replace(r, e)))
        }
        WriteIdx(i) => {
            let e = E::mk(base);
            let r = replace(&mut c[*i], e);
            out.ret.push(Some(r))
        }
        Index(i) => {
            c[*i].key();
        }
        CloneK => {
            let d = c.clone();
            out.others.push(replace(c, d))
        }
        CloneD => out.others.push(c.clone()),
        Drain(k) => {
            let mut it = replace(c, SparseChunk::new()).drain();
            for _ in 0..*k {
                out.ret.push(it.next())
            }
        }
        IntoIter(k) => {
            let mut it = replace(c, SparseChunk::new()).into_iter();
            for _ in 0..*k {
                out.ret.push(it.next())
            }
        }
        OptDrain(k) => {
            let mut it = replace(c, SparseChunk::new()).option_drain();
            for _ in 0..*k {
                out.ret.push(it.next().expect("option_drain ended early"))
            }
        }
    }
}
fn o<E: Elem>(e: Option<&E>) -> Option<u32> {
    e.map(|e| e.key())
}
fn n<E: Elem>(e: Option<u32>) -> Option<u32> {
    e.map(E::norm)
}
pub fn sobserve<E: Elem, const N: usize>(c: &SparseChunk<E, N>, m: &M) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    if c.len() != m.len() {
        return Err(format!("len() = {}, expected {} {:?}", c.len(), m.len(), m));
    }
    if c.is_empty() != m.is_empty() || c.is_full() != (m.len() == N) {
        return Err(format!("is_empty() = {}, is_full() = {} at {} of {}", c.is_empty(), c.is_full(), m.len(), N));
    }
    for i in 0..N {
        let (g, e) = (o(c.get(i)), n::<E>(m.get(&i).copied()));
        if g != e {
            return Err(format!("get({}) = {:?}, expected {:?} of {:?}", i, g.map(show), e, m));
        }
    }
    for i in [N, N + 1, 2 * N, N + 64, N + 128, usize::MAX / 2 + 1, usize::MAX] {
        if c.get(i).is_some() {
            return Err(format!("get({}) is Some", i));
        }
    }
    if c.first_index() != m.keys().next().copied() {
        return Err(format!("first_index() = {:?}, expected {:?}", c.first_index(), m.keys().next()));
    }
    let idx: Vec<usize> = c.indices().take(N + 1).collect();
    if !idx.iter().eq(m.keys()) {
        return Err(format!("indices() = {:?}, expected {:?}", idx, m.keys()));
    }
    let want = || m.iter().map(|(k, v)| (*k, E::norm(*v)));
    let ent: Vec<(usize, u32)> = c.entries().take(N + 1).map(|(i, e)| (i, e.key())).collect();
    if !ent.iter().copied().eq(want()) {
        return Err(format!("entries() = {:?}, expected {:?}", ent, m));
    }
    let it: Vec<u32> = c.iter().take(N + 1).map(|e| e.key()).collect();
    if !it.iter().copied().eq(want().map(|x| x.1)) {
        return Err(format!("iter() = {:?}, expected {:?}", it, m));
    }
    Ok(())
}
pub fn scompare<E: Elem, const N: usize>(w: &mut SWorld<E, N>, m: &M, op: &SOp, oc: &SOutcome<E, N>, x: &SExp) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    scompare_on(w.c(), m, op, oc, x)?;
    w.zones()
}
pub fn scompare_on<E: Elem, const N: usize>(c: &SparseChunk<E, N>, m: &M, op: &SOp, oc: &SOutcome<E, N>, x: &SExp) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    match (&oc.panic, x.refuse) {
        (Some(p), false) => return Err(format!("{:?} panicked: {}", op, p)),
        (None, true) => return Err(format!("{:?} was not refused", op)),
        _ => (),
    }
    if !x.refuse {
        let got: Vec<Option<u32>> = oc.out.ret.iter().map(|e| o(e.as_ref())).collect();
        let exp: Vec<Option<u32>> = x.ret.iter().map(|e| n::<E>(*e)).collect();
        if got != exp {
            return Err(format!("{:?} returned {:?}, expected {:?}", op, got, exp));
        }
        for (c, m) in oc.out.others.iter().zip(&x.others) {
            sobserve(c, m).map_err(|s| format!("other container: {}", s))?;
        }
    }
    sobserve(c, m)
}
pub fn sstep<E: Elem, const N: usize>(w: &mut SWorld<E, N>, m: &mut M, op: &SOp) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    let oc = w.exec(op);
    let x = smodel(N, m, op, oc.base);
    scompare(w, m, op, &oc, &x)
}
pub fn smodel_hist(n: usize, h: &[SOp]) -> (M, u32) {
    let (mut m, mut next) = (M::new(), 0);
    for op in h {
        smodel(n, &mut m, op, next);
        next += snkeys(op);
    }
    (m, next)
}
/// interesting indices: every one at small capacities, word and end boundaries at large ones
pub fn positions(n: usize, max: usize) -> Vec<usize> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![];
    for p in [0, n - 1, 63, 64, 127, 128, 31, 32, n - 2, n / 2, 255, 256, 1, 511, 512, 1000] {
        if p < n && !v.contains(&p) && v.len() < max {
            v.push(p)
        }
    }
    v.sort();
    v
}
/// All subsets of the interesting indices (and, at large capacities, their complements), each reached by several
/// histories.
pub fn sstates(cap: usize, max: usize, reps: usize) -> Vec<Vec<SOp>> {
    let pos = positions(cap, max);
    let mut out = vec![];
    for bits in 0u32..1 << pos.len() {
        let set: Vec<usize> = (0..pos.len()).filter(|i| bits >> i & 1 == 1).map(|i| pos[i]).collect();
        let comp: Vec<usize> = (0..cap).filter(|i| !set.contains(i)).collect();
        let mut h: Vec<Vec<SOp>> = vec![];
        h.push(set.iter().map(|i| Insert(*i)).collect());
        if !set.is_empty() {
            // the values at the other indices were there and are gone
            let mut v = vec![From((0..cap).collect(), cap)];
            v.extend(comp.iter().map(|i| Remove(*i)));
            h.push(v);
        }
        let mut v = vec![From(set.clone(), cap)];
        v.push(CloneK);
        h.push(v);
        let mut v: Vec<SOp> = set.iter().rev().map(|i| Insert(*i)).collect();
        v.extend(set.iter().map(|i| Insert(*i)));
        h.push(v);
        h.truncate(reps);
        out.extend(h);
        if cap > max {
            let mut v = vec![From((0..cap).collect(), cap)];
            v.extend(set.iter().map(|i| Remove(*i)));
            out.push(v);
        }
    }
    out
}
/// every operation (all interesting arguments) from a state
pub fn sops(cap: usize, max: usize, len: usize, initial: bool) -> Vec<SOp> {
    let mut pos = positions(cap, max);
    if cap > max {
        pos.extend([2, 3, 62, 65, 66, 126, 129].iter().filter(|i| **i < cap));
    }
    pos.extend([cap, cap + 1, cap + 63, cap + 64, 2 * cap, usize::MAX / 2 + 1, usize::MAX]);
    pos.sort();
    pos.dedup();
    let mut v = vec![];
    for &i in &pos {
        v.extend([Insert(i), Remove(i), Write(i), WriteIdx(i), Index(i)]);
    }
    v.extend([Pop, CloneK, CloneD, New]);
    let ks: Vec<usize> = if len <= 10 { (0..=len + 2).collect() } else { vec![0, 1, len / 2, len, len + 1] };
    for k in ks {
        v.push(Drain(k));
        v.push(IntoIter(k))
    }
    let ks: Vec<usize> = if cap <= 10 { (0..=cap).collect() } else { vec![0, 1, cap / 2, cap - 1, cap] };
    for k in ks {
        v.push(OptDrain(k))
    }
    if initial {
        for &i in &pos {
            v.push(Unit(i));
            for &j in &pos {
                v.push(Pair(i, j))
            }
        }
        if cap <= 8 {
            for bits in 0u32..1 << (cap + 2) {
                let s: Vec<usize> = (0..cap + 2).filter(|i| bits >> i & 1 == 1).collect();
                for l in s.last().map_or(0, |l| l + 1)..=cap + 2 {
                    v.push(From(s.clone(), l))
                }
            }
        } else {
            for l in [0, 1, cap - 1, cap, cap + 1, cap + 70] {
                v.push(From((0..l).collect(), l));
                v.push(From(vec![], l));
                v.push(From((0..l).filter(|i| i % 3 == 1).collect(), l));
                v.push(From((0..l.min(cap)).filter(|i| i % 3 != 1).collect(), l));
                if l > 0 {
                    v.push(From(vec![l - 1], l));
                    v.push(From(vec![0, (l - 1).max(1)], l.max(2)))
                }
            }
        }
    }
    v
}
pub fn sdesc<E: Elem>(n: usize, h: &[SOp], op: &dyn std::fmt::Debug) -> String {
    let h = format!("{:?}", h);
    let h = if h.len() > 600 { format!("{} ... {}", &h[..300], &h[h.len() - 200..]) } else { h };
    format!("SparseChunk<{},{}> history {} then {:?}", E::NAME, n, h, op)
}
/// jobs over the state space of one SparseChunk type
pub fn sjobs<E: Elem, const N: usize>(
    jobs: &mut Vec<Job>,
    label: &str,
    max: usize,
    reps: usize,
    shards: usize,
    check: impl Fn(&mut Ctx, &Vec<SOp>, bool) + Send + Sync + Clone + 'static,
) where
    BitsImpl<N>: Bits,
{
    let cell: Arc<std::sync::OnceLock<Arc<Vec<Vec<SOp>>>>> = Arc::new(std::sync::OnceLock::new());
    for sh in 0..shards {
        let (check, cell) = (check.clone(), cell.clone());
        jobs.push(Job {
            name: format!("{} SparseChunk<{},{}> {}/{}", label, E::NAME, N, sh, shards),
            f: Box::new(move |ctx| {
                let st = cell.get_or_init(|| Arc::new(sstates(N, max, reps))).clone();
                for (i, h) in st.iter().enumerate() {
                    if i % shards == sh && !ctx.stopped() {
                        ctx.state(i);
                        ctx.add("states", 1);
                        check(ctx, h, i == 0)
                    }
                }
            }),
        });
    }
}
/// C03 from one state
#[cfg(feature = "std")]
pub fn scheck<E: Elem, const N: usize>(ctx: &mut Ctx, h: &Vec<SOp>, initial: bool, max: usize)
where
    BitsImpl<N>: Bits,
{
    let (m0, _) = smodel_hist(N, h);
    ctx.add("traces", 1);
    ctx.run(
        || sdesc::<E>(N, h, &"comparison with maps"),
        || {
            let mut w = SWorld::<E, N>::new();
            let mut m = M::new();
            for op in h {
                sstep(&mut w, &mut m, op)?
            }
            maps::<E, N>(w.c(), &m)
        },
    );
    for op in sops(N, max, m0.len(), initial) {
        if ctx.stopped() {
            return;
        }
        ctx.add("transitions", 1);
        ctx.run(
            || sdesc::<E>(N, h, &op),
            || {
                let mut w = SWorld::<E, N>::build(h);
                let mut m = m0.clone();
                sstep(&mut w, &mut m, &op)
            },
        );
    }
}
#[cfg(feature = "std")]
fn maps<E: Elem, const N: usize>(c: &SparseChunk<E, N>, m: &M) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    let bt = |m: &M| -> BTreeMap<usize, E> { m.iter().map(|(k, v)| (*k, E::mk(*v))).collect() };
    let same = |a: &M, b: &M| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && E::norm(*x.1) == E::norm(*y.1));
    let mut others: Vec<M> = vec![m.clone()];
    for i in positions(N, 10).into_iter().chain([N, N + 3, N + 64]) {
        let mut o = m.clone();
        if o.remove(&i).is_none() {
            o.insert(i, 77_777);
        } else {
            others.push(o.clone());
            o.insert(i, 77_777);
        }
        others.push(o);
        // the same values under other indices
        if let Some((k, v)) = m.iter().next() {
            let mut o = m.clone();
            o.remove(k);
            o.insert(i, *v);
            others.push(o);
        }
    }
    for o in &others {
        let want = same(m, o);
        let b = bt(o);
        if (*c == b) != want {
            return Err(format!("== BTreeMap {:?} is {}", o, !want));
        }
        let h: HashMap<usize, E> = b.into_iter().collect();
        if (*c == h) != want {
            return Err(format!("== HashMap {:?} is {}", o, !want));
        }
    }
    Ok(())
}
/// all unmerged sequences of in-range operations
pub fn ssequences<E: Elem, const N: usize>(ctx: &mut Ctx, depth: usize, sh: usize, shards: usize)
where
    BitsImpl<N>: Bits,
{
    fn go<E: Elem, const N: usize>(ctx: &mut Ctx, h: &mut Vec<SOp>, d: usize, idx: &mut usize, sh: usize, shards: usize)
    where
        BitsImpl<N>: Bits,
    {
        let mut ops: Vec<SOp> = (0..N).flat_map(|i| [Insert(i), Remove(i), Write(i), WriteIdx(i)]).collect();
        ops.extend([Pop, CloneK, Drain(1), OptDrain(1)]);
        if h.is_empty() {
            ops.extend((0..N).map(Unit));
            ops.extend((0..N).flat_map(|i| (0..N).map(move |j| Pair(i, j))));
            ops.push(From((0..N).collect(), N));
        }
        for op in ops {
            if ctx.stopped() {
                return;
            }
            h.push(op);
            if h.len() == d {
                *idx += 1;
                if *idx % shards == sh {
                    ctx.add("traces", 1);
                    ctx.add("sequence_steps", d as u64);
                    ctx.run(
                        || sdesc::<E>(N, h, &"(sequence)"),
                        || {
                            let mut w = SWorld::<E, N>::new();
                            let mut m = M::new();
                            for op in h.iter() {
                                sstep(&mut w, &mut m, op)?
                            }
                            Ok(())
                        },
                    );
                }
            } else {
                go::<E, N>(ctx, h, d, idx, sh, shards)
            }
            h.pop();
        }
    }
    ctx.state(0);
    go::<E, N>(ctx, &mut vec![], depth, &mut 0, sh, shards)
}
