//! C24: cases executed on the abstract machine (Miri), which is the oracle: it stops at the first undefined operation.
//! Lean on purpose (the machine is four orders of magnitude slower than the processor): operations are executed from
//! every layout and everything reachable afterwards is read, written and dropped; results are not compared.
use crate::elem::*;
use crate::fault::{fops, FOp, FaultExtra};
use crate::harness::{guard, Ctx, Job};
use crate::iters::{Fin, Iters, St};
use crate::liar::{LOp, Lie, LieTarget, Liar};
use crate::seq::*;
use crate::sparse::*;
use array_ops::{Array, ArrayMut, HasLength};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::io::{Read, Write};
use std::mem::forget;

macro_rules! element { ($(#[$d:meta])* $Bx:ident, $t:ty, $new:expr) => {
$(#[$d])*
pub struct $Bx($t);
impl Drop for $Bx {
    fn drop(&mut self) {
        self.0 = $new(*self.get() ^ 1);
        tick(F_DROP)
    }
}
impl Clone for $Bx {
    fn clone(&self) -> Self {
        tick(F_CLONE);
        $Bx($new(*self.get()))
    }
}
impl Elem for $Bx {
    const NAME: &'static str = stringify!($Bx);
    const KEYS: u32 = 0;
    const TRACKED: bool = false;
    const IDS: bool = false;
    fn mk(k: u32) -> Self {
        $Bx($new(k))
    }
    fn key(&self) -> u32 {
        *self.get()
    }
}
impl PartialEq for $Bx {
    fn eq(&self, o: &Self) -> bool {
        tick(F_CMP);
        self.get() == o.get()
    }
}
impl Eq for $Bx {}
impl PartialOrd for $Bx {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for $Bx {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        tick(F_CMP);
        self.get().cmp(o.get())
    }
}
impl Hash for $Bx {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(F_HASH);
        h.write_u32(*self.get())
    }
}
impl std::fmt::Debug for $Bx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick(F_FMT);
        f.write_str(if *self.get() == 0 { "0" } else { "1" })
    }
}
} }
impl Bx {
    fn get(&self) -> &u32 {
        &self.0
    }
}
impl Pl {
    fn get(&self) -> &u32 {
        &self.0
    }
}
element!{ /// An element whose every copy owns memory: using one after its end, or twice, is a memory error.
    Bx, Box<u32>, Box::new }
element!{ /// An element without memory of its own, which is a lot faster.
    Pl, u32, |x: u32| x }
pub struct Sum(pub u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        b.iter().for_each(|x| self.0 += *x as u64)
    }
}

/// read a value; elements without an identity are read as a whole by `key`
pub fn look<E: Elem>(e: &E) {
    black_box(e.key());
}
/// a new value in place of the old one, which is dropped
pub fn put<E: Elem>(e: &mut E) {
    let k = e.key();
    *e = E::mk(k.wrapping_add(7));
}
/// the number of layouts, and one way to reach each of them
pub fn layouts<S: Seq>() -> usize {
    let cap = S::maxlen();
    match S::KIND {
        Kind::Inline => cap + 1,
        Kind::Chunk => (cap + 1) * (cap + 2) / 2,
        Kind::Ring => cap.max(1) * (cap + 1),
    }
}
pub fn layout<S: Seq>(mut i: usize) -> Vec<Op> {
    use Op::*;
    let cap = S::maxlen();
    match S::KIND {
        Kind::Inline if i % 2 == 0 => vec![FromIter(i)],
        Kind::Inline => vec![PushB; i],
        Kind::Chunk => {
            let mut l = 0;
            while i > cap - l {
                i -= cap - l + 1;
                l += 1
            }
            match i {
                0 => vec![FromIter(l)],
                _ if l == 0 => {
                    let mut h = vec![FromIter(i)];
                    h.extend(vec![PopF; i]);
                    h
                }
                _ => vec![FromIter(i + l), DropL(i)],
            }
        }
        Kind::Ring => {
            let mut h = vec![];
            for _ in 0..i / (cap + 1) {
                h.extend([PushB, PopF])
            }
            h.extend(vec![PushB; i % (cap + 1)]);
            h
        }
    }
}
fn len_of<S: Seq>(h: &[Op]) -> usize {
    model_hist::<S>(h).0.len()
}
pub fn build<S: Seq>(h: &[Op]) -> (S, u32) {
    let mut c = S::make();
    let mut out = Out::default();
    let mut base = 0;
    for op in h {
        c.exec(op, base, &mut out);
        base += 100;
    }
    (c, base)
}
/// read, write, use up and refill what an operation left behind
pub fn touch<S: Seq>(c: &mut S) {
    c.each_mut(&mut |e| put(e));
    let n = c.length();
    if n > 0 {
        look(c.at(0));
        put(c.at_mut(n - 1))
    }
    black_box((c.try_at(n).map(look), c.try_at_mut(n / 2).map(|e| put(e))));
    if !c.full() {
        c.push(S::E::mk(901));
    }
    if c.length() > 0 {
        let mut out = Out::default();
        c.exec(&Op::PopB, 902, &mut out);
        if c.length() > 0 && S::KIND != Kind::Inline {
            c.exec(&Op::PopF, 903, &mut out);
            c.exec(&Op::PushF, 904, &mut out);
        }
        out.elems.iter().for_each(look)
    }
    c.each(&mut |e| look(e));
}
fn results<S: Seq>(mut out: Out<S>) {
    out.elems.iter_mut().for_each(|e| put(e));
    out.others.iter_mut().for_each(|c| touch(c))
}
/// every operation, in and out of the contract
pub fn op_case<S: Seq>(h: &[Op], op: &Op, flip: bool) -> Result<(), String> {
    let (mut c, base) = build::<S>(h);
    let mut out = Out::default();
    let _ = guard(|| c.exec(op, base, &mut out));
    if flip {
        results(out);
        touch(&mut c)
    } else {
        touch(&mut c);
        drop(c);
        results(out)
    }
    Ok(())
}
/// all operations with arguments up to the capacity and a little more; or those with arithmetic extremes
pub fn ops_of<S: Seq>(h: &[Op], extremes: bool) -> Vec<Op> {
    use Op::*;
    let n = len_of::<S>(h);
    let initial = h.len() <= 1;
    if !extremes {
        return all_ops::<S>(n, if initial { &[] } else { h }, S::cap() <= 2);
    }
    let mut v = vec![];
    for x in [usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1] {
        v.extend([Insert(x), Remove(x), SplitL(x), SplitR(x), Set(x)]);
        if n > 0 && S::KIND != Kind::Ring {
            v.extend([Swap(0, x), Swap(x, n - 1)])
        }
        if S::KIND != Kind::Inline {
            v.extend([DropL(x), DropR(x), TakeF(x), TakeB(x), DrainFF(n, x), DrainFB(n, x)]);
            v.extend([InsFrom(x, 0), InsFrom(x, 1), InsFrom(x, S::cap() - n + 1)]);
            if initial {
                v.push(Collect(x, 1))
            }
        }
    }
    v
}
pub fn op_jobs<S: Seq>(jobs: &mut Vec<Job>, extremes: bool) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: if extremes { "extremes" } else { "operations" }.into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<S>(i);
                ctx.add("states", 1);
                let ops = ops_of::<S>(&h, extremes);
                ctx.add("transitions", ops.len() as u64);
                for (k, op) in ops.iter().enumerate() {
                    ctx.run(|| desc::<S>(&h, op), || op_case::<S>(&h, op, k % 2 == 0));
                }
            }),
        })
    }
}
/// two operations in a row
pub fn pair_op_jobs<S: Seq>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: "sequences".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<S>(i);
                let n = len_of::<S>(&h);
                for a in gen_ops::<S>(n, n == 0) {
                    if model(S::KIND, S::cap(), &mut vec![0; n], &a, 0).refuse {
                        continue;
                    }
                    let mut h2 = h.clone();
                    h2.push(a);
                    let (m, _) = model_hist::<S>(&h2);
                    for b in gen_ops::<S>(m.len(), false) {
                        ctx.add("transitions", 1);
                        ctx.run(|| desc::<S>(&h2, &b), || op_case::<S>(&h2, &b, m.len() % 2 == 0));
                    }
                }
            }),
        })
    }
}
/// every user callback of every operation panics once
fn fault_case<S: FaultExtra>(h: &[Op], op: &FOp, nth: u64) -> u64 {
    let (mut c, base) = build::<S>(h);
    let mut out = Out::<S>::default();
    match op {
        FOp::Eq | FOp::EqSlice | FOp::Cmp | FOp::CloneFrom => {
            let d = c.dup();
            if let FOp::EqSlice = op {
                d.each(&mut |e| out.elems.push(e.clone()))
            }
            out.others.push(d);
        }
        FOp::Search(k) => out.elems.push(S::E::mk(*k)),
        FOp::ExtendRef(k) => out.elems.extend((0..*k as u32).map(|i| S::E::mk(base + i))),
        _ => (),
    }
    arm(F_ALL, nth);
    let _ = guard(|| match op {
        FOp::Do(op) => {
            c.exec(op, base, &mut out);
            true
        }
        FOp::DropIt => {
            c = S::make();
            true
        }
        op => c.extra(op, base, &mut out),
    });
    let (n, _) = disarm();
    touch(&mut c);
    if nth % 2 == 0 {
        drop(c);
        results(out)
    } else {
        results(out)
    }
    n
}
pub fn fault_cases<S: FaultExtra>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        for sh in 0..2 {
            jobs.push(Job {
                name: "faults".into(),
                f: Box::new(move |ctx: &mut Ctx| {
                    ctx.state(i);
                    let h = layout::<S>(i);
                    let n = len_of::<S>(&h);
                    let cap = S::cap();
                    let m = vec![0; n];
                    let mut ops = fops::<S>(n, &h, false);
                    ops.retain(|o| if let FOp::Do(o) = o { !model(S::KIND, cap, &mut m.clone(), o, 0).refuse } else { true });
                    for op in ops.iter().skip(sh).step_by(2) {
                        // on replay the count is needed without running the case that counts
                        let mut n = if ctx.only_other() { fault_case::<S>(&h, op, 0) } else { 0 };
                        ctx.add("transitions", 1);
                        ctx.run(|| format!("{} history {:?} then {:?}", S::name(), h, op), || {
                            n = fault_case::<S>(&h, op, 0);
                            Ok(())
                        });
                        for k in 1..=n {
                            ctx.add("faults", 1);
                            ctx.run(|| format!("{} history {:?} then {:?} with callback {} panicking", S::name(), h, op, k), || {
                                fault_case::<S>(&h, op, k);
                                Ok(())
                            });
                        }
                    }
                }),
            })
        }
    }
}
pub fn lie_cases<S: LieTarget>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: "lying iterators".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<S>(i);
                let n = len_of::<S>(&h);
                let cap = S::maxlen();
                let mut ops = vec![LOp::Extend];
                if n == 0 {
                    ops.push(LOp::FromIter)
                }
                if S::KIND != Kind::Inline {
                    ops.extend((0..=n).map(LOp::InsFrom));
                    if n == 0 {
                        ops.extend((0..=cap + 1).map(LOp::Collect))
                    }
                }
                for op in ops {
                    let room = cap - if let LOp::Collect(_) | LOp::FromIter = op { 0 } else { n };
                    let mut ls = vec![];
                    for x in (0..=room + 1).chain([usize::MAX]) {
                        for yields in 0..=room + 2 {
                            ls.push(Lie { answers: [x; 3], yields, more: 0, upper: true });
                        }
                        ls.push(Lie { answers: [x; 3], yields: 1, more: room + 2, upper: false });
                        for y in [0, room, room + 1, usize::MAX] {
                            ls.push(Lie { answers: [x, y, y], yields: room + 2, more: 0, upper: true });
                            ls.push(Lie { answers: [x, y, x], yields: 0, more: 0, upper: true });
                        }
                    }
                    for l in ls {
                        ctx.add("transitions", 1);
                        ctx.run(
                            || format!("{} history {:?} then {:?} from {:?}", S::name(), h, op, l),
                            || {
                                let (mut c, base) = build::<S>(&h);
                                let _ = guard(|| c.lie(op, Liar::new(l, base)));
                                touch(&mut c);
                                Ok(())
                            },
                        );
                    }
                }
            }),
        })
    }
}

/// all words over an alphabet up to a length
fn each_word(ab: &[St], len: usize, f: &mut dyn FnMut(&[St])) {
    let mut w = vec![];
    fn go(ab: &[St], len: usize, w: &mut Vec<St>, f: &mut dyn FnMut(&[St])) {
        f(w);
        if w.len() < len {
            for s in ab {
                w.push(*s);
                go(ab, len, w, f);
                w.pop();
            }
        }
    }
    go(ab, len, &mut w, f)
}
const DE: [St; 2] = [St::F, St::B];
const MORE: [St; 6] = [St::F, St::B, St::N(0), St::N(1), St::NB(1), St::Any(0)];
const FW: [St; 1] = [St::F];
const FWMORE: [St; 3] = [St::F, St::N(1), St::Any(0)];
const FINISH: [Fin; 6] = [Fin::Drop, Fin::Last, Fin::All, Fin::Fold, Fin::Rev, Fin::RFold];
fn walk<T>(it: &mut dyn crate::iters::It<T>, w: &[St], got: &mut Vec<T>, mut after: impl FnMut(&mut Vec<T>)) {
    for s in w {
        match *s {
            St::F => got.extend(it.f()),
            St::B => got.extend(it.b()),
            St::N(k) => got.extend(it.n(k)),
            St::NB(k) => got.extend(it.nb(k)),
            St::Any(k) => got.extend(it.any(k)),
        }
        black_box(it.hint());
        after(got)
    }
}
fn end<T>(it: crate::iters::BoxIt<'_, T>, fin: Fin, got: &mut Vec<T>) {
    match fin {
        Fin::Drop => drop(it),
        Fin::Last => got.extend(it.last()),
        Fin::All => got.extend(it.all()),
        Fin::Fold => got.extend(it.fold()),
        Fin::Rev => got.extend(it.rall()),
        Fin::RFold => got.extend(it.rfold()),
        Fin::Count => {
            black_box(it.count());
        }
    }
}
/// references from an iterator are held together, used after every step, after the iterator's end, and then the container
fn muts_case<S: Iters>(h: &[Op], which: usize, w: &[St], fin: Fin) -> Result<(), String> {
    let (mut c, _) = build::<S>(h);
    {
        let Some(mut it) = c.muts(which) else { return Ok(()) };
        let mut got = vec![];
        walk(it.as_mut(), w, &mut got, |g| g.iter_mut().for_each(|e| put(*e)));
        end(it, fin, &mut got);
        got.iter_mut().for_each(|e| put(*e));
        got.iter_mut().rev().for_each(|e| put(*e));
        got.iter().for_each(|e| look(*e));
    }
    touch(&mut c);
    Ok(())
}
fn shared_case<S: Iters>(h: &[Op], which: usize, w: &[St], fin: Fin) -> Result<(), String> {
    let (mut c, _) = build::<S>(h);
    {
        let (a, b) = (c.try_at(0), if c.empty() { None } else { Some(c.at(c.length() - 1)) });
        let Some(mut it) = c.shared(which) else { return Ok(()) };
        let mut other = c.shared(which).unwrap();
        let mut got = vec![];
        walk(it.as_mut(), w, &mut got, |g| g.iter().for_each(|e| look(*e)));
        got.extend(other.f());
        end(it, fin, &mut got);
        got.extend(other.b());
        drop(other);
        c.each(&mut |e| look(e));
        got.iter().copied().chain(a).chain(b).for_each(look);
    }
    touch(&mut c);
    Ok(())
}
/// consuming and draining, dropped or leaked half way
fn taken_case<S: Iters>(h: &[Op], owned: bool, leak: bool, w: &[St], fin: Fin) -> Result<(), String> {
    let (mut c, _) = build::<S>(h);
    let mut got = vec![];
    if owned {
        let mut it = c.owned();
        walk(it.as_mut(), w, &mut got, |g| g.iter_mut().for_each(|e| put(e)));
        if leak {
            forget(it)
        } else {
            end(it, fin, &mut got)
        }
    } else {
        {
            let mut it = c.draining();
            walk(it.as_mut(), w, &mut got, |g| g.iter_mut().for_each(|e| put(e)));
            if leak {
                forget(it)
            } else {
                end(it, fin, &mut got)
            }
        }
        touch(&mut c);
        drop(c)
    }
    got.iter_mut().for_each(|e| put(e));
    Ok(())
}
fn show(h: &dyn std::fmt::Debug, what: &str, w: &[St], fin: Fin) -> String {
    format!("history {:?} then {} {:?} {:?}", h, what, w, fin)
}
/// (word, finish) combinations for n elements
fn plans(n: usize, de: bool) -> Vec<(Vec<St>, Fin)> {
    let mut v: Vec<(Vec<St>, Fin)> = vec![];
    let ab: &[St] = if de { &DE } else { &FW };
    each_word(ab, n + 1, &mut |w| v.push((w.to_vec(), Fin::Drop)));
    each_word(if de { &MORE } else { &FWMORE }, if n == 1 || n == 2 { 2 } else { 1 }, &mut |w| {
        if w.len() > n + 1 || w.iter().any(|s| !matches!(s, St::F | St::B)) {
            v.push((w.to_vec(), Fin::Drop))
        }
    });
    each_word(ab, 1.min(n), &mut |w| FINISH[1..].iter().filter(|f| de || !matches!(f, Fin::Rev | Fin::RFold)).for_each(|f| v.push((w.to_vec(), *f))));
    v
}
pub fn iter_cases<S: Iters>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: "borrowing".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h2 = layout::<S>(i);
                for (w, fin) in plans(len_of::<S>(&h2), true) {
                    for which in 0..2 {
                        if which == 1 && w.len() > 2 {
                            continue;
                        }
                        ctx.add("transitions", 2);
                        ctx.run(|| S::name() + " " + &show(&h2, "mutable iterator", &w, fin), || muts_case::<S>(&h2, which, &w, fin));
                        ctx.run(|| S::name() + " " + &show(&h2, "iterator", &w, fin), || shared_case::<S>(&h2, which, &w, fin));
                    }
                }
            }),
        });
        jobs.push(Job {
            name: "consuming".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<S>(i);
                for (w, fin) in plans(len_of::<S>(&h), true) {
                    for owned in [false, true] {
                        ctx.add("transitions", 1);
                        let what = if owned { "into_iter" } else { "drain" };
                        ctx.run(|| S::name() + " " + &show(&h, what, &w, fin), || taken_case::<S>(&h, owned, false, &w, fin));
                        if fin == Fin::Drop && w.iter().all(|s| *s == St::F) {
                            ctx.run(|| S::name() + " " + &show(&h, what, &w, fin) + " leaked", || taken_case::<S>(&h, owned, true, &w, fin));
                        }
                    }
                }
            }),
        });
    }
}

/// references into a container whose elements are also a slice
pub trait Sliced: Seq {
    fn s(&self) -> &[Self::E];
    fn m(&mut self, which: usize) -> &mut [Self::E];
}
impl<E: Elem, const N: usize> Sliced for Chunk<E, N> {
    fn s(&self) -> &[E] {
        self.as_slice()
    }
    fn m(&mut self, which: usize) -> &mut [E] {
        match which {
            0 => self.as_mut_slice(),
            1 => &mut *self,
            2 => self.as_mut(),
            3 => std::borrow::BorrowMut::borrow_mut(self),
            _ => &mut self[..],
        }
    }
}
impl<E: Elem, T: 'static> Sliced for InlineArray<E, T> {
    fn s(&self) -> &[E] {
        self
    }
    fn m(&mut self, which: usize) -> &mut [E] {
        match which {
            0 => &mut self[..],
            1 => &mut *self,
            2 => self.as_mut(),
            _ => std::borrow::BorrowMut::borrow_mut(self),
        }
    }
}
pub fn slice_cases<S: Sliced>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: "as slice".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<S>(i);
                let n = len_of::<S>(&h);
                for which in 0..5 {
                    for cut in 0..=n {
                        ctx.add("transitions", 1);
                        ctx.run(
                            || format!("{} history {:?} as mutable slice split at {} ({})", S::name(), h, cut, which),
                            || {
                                let (mut c, _) = build::<S>(&h);
                                let (a, b) = c.m(which).split_at_mut(cut);
                                a.iter_mut().chain(b.iter_mut()).for_each(|e| put(e));
                                b.iter_mut().for_each(|e| put(e));
                                a.reverse();
                                if let ([x, ..], [y, ..]) = (a, b) {
                                    std::mem::swap(x, y)
                                }
                                let (a, b) = c.s().split_at(cut);
                                c.each(&mut |e| look(e));
                                a.iter().chain(b).for_each(look);
                                c.m(which).sort();
                                touch(&mut c);
                                Ok(())
                            },
                        );
                    }
                }
            }),
        })
    }
}
/// windows into a ring buffer
pub fn window_cases<E: Elem, const N: usize>(jobs: &mut Vec<Job>) {
    type R<E, const N: usize> = RingBuffer<E, N>;
    for i in 0..layouts::<R<E, N>>() {
        jobs.push(Job {
            name: "windows".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<R<E, N>>(i);
                let n = len_of::<R<E, N>>(&h);
                for a in 0..=n {
                    for b in a..=n {
                        ctx.add("states", 1);
                        ctx.add("transitions", 1);
                        ctx.run(
                            || format!("{} history {:?} shared window {}..{}", R::<E, N>::name(), h, a, b),
                            || {
                                let (mut c, _) = build::<R<E, N>>(&h);
                                let s = c.slice(a..b);
                                let first = s.first();
                                let mut it = s.iter();
                                let mut rest = (&s).into_iter();
                                let x = (it.next(), rest.next_back(), it.next_back());
                                let t = s.clone().slice(..);
                                for j in 0..b - a {
                                    look(&s[j]);
                                    let (l, r) = s.clone().split_at(j);
                                    l.iter().chain(r.iter()).for_each(look);
                                    look(r.first().unwrap());
                                    black_box(l == r);
                                }
                                t.iter().for_each(look);
                                it.chain(rest).for_each(look);
                                [x.0, x.1, x.2, first, s.last()].into_iter().flatten().for_each(look);
                                let mut o = s.to_owned();
                                black_box((s == o, s.partial_cmp(&t), s.is_sorted(), s.binary_search(&E::mk(3)).is_ok(), s.get(b - a).is_some()));
                                s.hash(&mut Sum(0));
                                touch(&mut o);
                                touch(&mut c);
                                Ok(())
                            },
                        );
                        ctx.add("transitions", 1);
                        ctx.run(
                            || format!("{} history {:?} mutable window {}..{}", R::<E, N>::name(), h, a, b),
                            || {
                                let (mut c, _) = build::<R<E, N>>(&h);
                                {
                                    let mut s = c.slice_mut(a..b);
                                    for j in 0..b - a {
                                        put(&mut s[j]);
                                        look(&s[j]);
                                        s.get_mut(j).into_iter().for_each(|e| put(e));
                                    }
                                    s.first_mut().into_iter().for_each(|e| put(e));
                                    s.last_mut().into_iter().for_each(|e| put(e));
                                    black_box(s.get_mut(b - a).is_some());
                                    {
                                        let mut it = s.iter_mut();
                                        let x = it.next();
                                        let y = it.next_back();
                                        let mut v: Vec<&mut E> = x.into_iter().chain(y).collect();
                                        for e in it {
                                            v.push(e);
                                            v.iter_mut().for_each(|e| put(*e));
                                        }
                                        v.iter_mut().rev().for_each(|e| put(*e));
                                    }
                                    s.iter().for_each(look);
                                    let mut o = s.to_owned();
                                    touch(&mut o);
                                    let mut t = s.slice(..);
                                    t.iter_mut().for_each(|e| put(e));
                                    if a % 2 == 0 {
                                        t.unmut().iter().for_each(look)
                                    } else {
                                        (&mut t).into_iter().for_each(|e| put(e))
                                    }
                                }
                                c.each(&mut |e| look(e));
                                touch(&mut c);
                                Ok(())
                            },
                        );
                        for j in 0..=b - a {
                            for left in [true, false] {
                                ctx.add("transitions", 1);
                                ctx.run(
                                    || format!("{} history {:?} mutable window {}..{} split at {}, the {} part is used", R::<E, N>::name(), h, a, b, j, if left { "left" } else { "right" }),
                                    || {
                                        let (mut c, _) = build::<R<E, N>>(&h);
                                        {
                                            let (l, r) = c.slice_mut(a..b).split_at(j);
                                            let mut s = if left { drop(r); l } else { drop(l); r };
                                            s.iter_mut().for_each(|e| put(e));
                                            for k in 0..s.len() {
                                                put(&mut s[k])
                                            }
                                            s.unmut().iter().for_each(look)
                                        }
                                        touch(&mut c);
                                        Ok(())
                                    },
                                );
                            }
                        }
                    }
                }
                for (what, k) in [("swap", 0), ("sort", 1), ("map_pair", 2)] {
                    for x in 0..n {
                        for y in 0..n {
                            if x == y || (k == 1 && (x, y) != (0, 1)) {
                                continue;
                            }
                            for window in [false, true] {
                                ctx.add("transitions", 1);
                                ctx.run(
                                    || format!("{} history {:?} {}({},{}){}", R::<E, N>::name(), h, what, x, y, if window { " on a window" } else { "" }),
                                    || {
                                        let (mut c, _) = build::<R<E, N>>(&h);
                                        macro_rules! go { ($s:expr) => { match k {
                                            0 => $s.swap(x, y),
                                            1 => { let mut i = 3u32; $s.iter_mut().for_each(|e| { *e = E::mk(i); i = (i * 5 + 1) % 7 }); $s.sort_unstable() }
                                            _ => $s.map_pair(x, y, |p: &mut E, q: &mut E| { put(p); put(q); put(p) }),
                                        } } }
                                        if window { go!(c.slice_mut(..)) } else { go!(c) }
                                        touch(&mut c);
                                        Ok(())
                                    },
                                );
                            }
                        }
                    }
                }
            }),
        })
    }
}
/// both halves of a split window, one after the other
pub fn halves_job(jobs: &mut Vec<Job>) {
    jobs.push(Job {
        name: "split windows".into(),
        f: Box::new(|ctx: &mut Ctx| {
            ctx.run(
                || "SliceMut::split_at: halves of a split used together".into(),
                || {
                    let mut c: RingBuffer<u32, 4> = (0..4).collect();
                    let (mut l, mut r) = c.slice_mut(..).split_at(2);
                    l[0] = 1;
                    r[0] = 2;
                    l[1] = 3;
                    r[1] = 4;
                    Ok(())
                },
            );
        }),
    })
}

fn sbuild<E: Elem, const N: usize>(h: &[SOp]) -> (SparseChunk<E, N>, u32)
where
    BitsImpl<N>: Bits,
{
    let mut c = SparseChunk::new();
    let mut out = SOut { ret: vec![], others: vec![] };
    let mut base = 0;
    for op in h {
        sexec(&mut c, op, base, &mut out);
        base += 300;
    }
    (c, base)
}
fn stouch<E: Elem, const N: usize>(c: &mut SparseChunk<E, N>)
where
    BitsImpl<N>: Bits,
{
    c.iter().for_each(look);
    c.iter_mut().for_each(|e| put(e));
    black_box(c.indices().count());
    let first = c.first_index();
    for i in (0..N.min(8)).chain(first) {
        c.get(i).into_iter().for_each(look);
        c.get_mut(i).into_iter().for_each(|e| put(e));
    }
    drop(c.insert(N - 1, E::mk(800)));
    drop(c.insert(N - 1, E::mk(801)));
    look(&c[N - 1]);
    drop(c.remove(0));
    c.pop().iter().for_each(look);
    c.entries().for_each(|(_, e)| look(e));
    black_box((c.len(), c.is_full(), c.is_empty()));
}
fn sresults<E: Elem, const N: usize>(mut out: SOut<E, N>)
where
    BitsImpl<N>: Bits,
{
    out.ret.iter_mut().flatten().for_each(|e| put(e));
    out.others.iter_mut().for_each(|c| stouch(c));
}
fn sop_case<E: Elem, const N: usize>(h: &[SOp], op: &SOp, nth: u64) -> u64
where
    BitsImpl<N>: Bits,
{
    let (mut c, base) = sbuild::<E, N>(h);
    let mut out = SOut { ret: vec![], others: vec![] };
    arm(F_ALL, nth);
    let _ = guard(|| sexec(&mut c, op, base, &mut out));
    let (n, _) = disarm();
    stouch(&mut c);
    drop(c);
    sresults(out);
    n
}
pub fn sparse_cases<E: Elem, const N: usize>(jobs: &mut Vec<Job>, max: usize)
where
    BitsImpl<N>: Bits,
{
    for (i, h) in sstates(N, max, 1).into_iter().enumerate() {
        let name = move |what: &str| format!("{} SparseChunk<{},{}>", what, E::NAME, N);
        let h2 = h.clone();
        jobs.push(Job {
            name: name("operations"),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                ctx.add("states", 1);
                let (m, _) = smodel_hist(N, &h2);
                let mut ops = sops(N, max, m.len(), i == 0);
                if N > 8 {
                    // panics are the expensive part
                    ops.retain(|o| !matches!(o, SOp::Pair(..)));
                }
                for op in ops {
                    let mut n = 0;
                    ctx.add("transitions", 1);
                    if ctx.only_other() {
                        n = sop_case::<E, N>(&h2, &op, 0)
                    }
                    ctx.run(|| sdesc::<E>(N, &h2, &op), || {
                        n = sop_case::<E, N>(&h2, &op, 0);
                        Ok(())
                    });
                    for k in 1..=n {
                        ctx.add("faults", 1);
                        ctx.run(|| sdesc::<E>(N, &h2, &op) + &format!(" with callback {} panicking", k), || {
                            sop_case::<E, N>(&h2, &op, k);
                            Ok(())
                        });
                    }
                }
            }),
        });
        jobs.push(Job {
            name: name("iterators"),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let (m, _) = smodel_hist(N, &h);
                for (w, fin) in plans(if N > 8 { m.len() } else { N }, false) {
                    ctx.add("transitions", 1);
                    ctx.run(|| sdesc::<E>(N, &h, &(w.clone(), fin)), || {
                        sparse_walk::<E, N>(&h, &w, fin);
                        Ok(())
                    });
                }
                ctx.add("transitions", 1);
                ctx.run(|| sdesc::<E>(N, &h, &"comparisons, formatting, copies"), || {
                    let (mut c, _) = sbuild::<E, N>(&h);
                    let mut d = c.clone();
                    black_box(c == d);
                    d.pop();
                    black_box((c == d, d == c, c == c.entries().map(|(i, e)| (i, e.clone())).collect::<std::collections::BTreeMap<_, _>>()));
                    black_box(format!("{:?}", c));
                    d.clone_from(&c);
                    stouch(&mut d);
                    stouch(&mut c);
                    Ok(())
                });
            }),
        })
    }
}
fn sparse_walk<E: Elem, const N: usize>(h: &[SOp], w: &[St], fin: Fin)
where
    BitsImpl<N>: Bits,
{
    use crate::iters::{BoxIt, Fw};
    let (mut c, _) = sbuild::<E, N>(h);
    {
        let mut it: BoxIt<'_, &mut E> = Box::new(Fw(c.iter_mut()));
        let mut got = vec![];
        walk(it.as_mut(), w, &mut got, |g| g.iter_mut().for_each(|e| put(*e)));
        end(it, fin, &mut got);
        got.iter_mut().for_each(|e| put(*e));
        got.iter_mut().rev().for_each(|e| put(*e));
    }
    {
        let mut it: BoxIt<'_, Option<&mut E>> = Box::new(Fw(c.option_iter_mut()));
        let mut got = vec![];
        walk(it.as_mut(), w, &mut got, |g| g.iter_mut().flatten().for_each(|e| put(*e)));
        end(it, fin, &mut got);
        got.iter_mut().flatten().for_each(|e| put(*e));
        got.iter_mut().rev().flatten().for_each(|e| put(*e));
    }
    {
        let mut it: BoxIt<'_, &E> = Box::new(Fw(c.iter()));
        let mut op: BoxIt<'_, Option<&E>> = Box::new(Fw(c.option_iter()));
        let (mut got, mut opt) = (vec![], vec![]);
        walk(it.as_mut(), w, &mut got, |g| g.iter().for_each(|e| look(*e)));
        walk(op.as_mut(), w, &mut opt, |g| g.iter().flatten().for_each(|e| look(*e)));
        end(it, fin, &mut got);
        end(op, fin, &mut opt);
        got.into_iter().chain(opt.into_iter().flatten()).for_each(look);
    }
    {
        let d = c.clone();
        let mut it: BoxIt<'_, E> = Box::new(Fw(d.drain()));
        let mut got = vec![];
        walk(it.as_mut(), w, &mut got, |g| g.iter_mut().for_each(|e| put(e)));
        end(it, fin, &mut got);
        let d = c.clone();
        let mut it: BoxIt<'_, Option<E>> = Box::new(Fw(d.option_drain()));
        let mut opt = vec![];
        walk(it.as_mut(), w, &mut opt, |g| g.iter_mut().flatten().for_each(|e| put(e)));
        if w.len() % 2 == 1 {
            forget(it)
        } else {
            end(it, fin, &mut opt)
        }
        got.iter_mut().for_each(|e| put(e));
    }
    stouch(&mut c)
}

/// every pair of layouts: transfers between them, comparisons
pub fn couple_jobs<S: FaultExtra + PartialEq>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: "pairs".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                use Op::*;
                ctx.state(i);
                let h = layout::<S>(i);
                let n = len_of::<S>(&h);
                for g in &(0..layouts::<S>()).map(layout::<S>).collect::<Vec<_>>() {
                    let k = len_of::<S>(g);
                    let mut ops = vec![];
                    if S::KIND != Kind::Inline {
                        if n + k <= S::cap() {
                            ops.push(Append(k))
                        }
                        for c in 0..=k.min(S::cap() - n) {
                            ops.extend([DrainFF(k, c), DrainFB(k, c)])
                        }
                    }
                    for op in ops {
                        ctx.add("transitions", 1);
                        ctx.run(|| format!("{} {:?} and {:?}: {:?}", S::name(), h, g, op), || {
                            let ((mut a, _), (mut b, _)) = (build::<S>(&h), build::<S>(g));
                            a.transfer_from(&mut b, &op);
                            touch(&mut b);
                            touch(&mut a);
                            Ok(())
                        });
                    }
                    ctx.add("transitions", 1);
                    ctx.run(|| format!("{} {:?} and {:?}: ==, clone_from", S::name(), h, g), || {
                        let ((mut a, _), (b, _)) = (build::<S>(&h), build::<S>(g));
                        black_box(a == b);
                        let mut out = Out::default();
                        out.others.push(b);
                        a.extra(&FOp::Cmp, 0, &mut out);
                        a.extra(&FOp::CloneFrom, 0, &mut out);
                        touch(&mut a);
                        results(out);
                        Ok(())
                    });
                }
            }),
        })
    }
}
pub fn byte_cases<S: Seq<E = u8> + Read + Write>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: "streams".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<S>(i);
                for k in 0..=S::cap() + 1 {
                    for l in 0..=S::cap() + 1 {
                        ctx.add("transitions", 2);
                        ctx.run(|| format!("{} history {:?} then write {} read {}", S::name(), h, k, l), || {
                            let (mut c, _) = build::<S>(&h);
                            let v: Vec<u8> = (0..k as u8).collect();
                            let _ = guard(|| black_box(c.write(&v).is_ok()));
                            let mut b = vec![0; l];
                            let _ = guard(|| black_box(c.read(&mut b).is_ok()));
                            b.iter().for_each(look);
                            let _ = black_box(c.write_all(&v).is_ok());
                            touch(&mut c);
                            let mut b = vec![];
                            let _ = black_box(c.read_to_end(&mut b).is_ok());
                            b.iter().for_each(look);
                            Ok(())
                        });
                    }
                }
            }),
        })
    }
}
pub fn convert_cases<E: Elem, T: 'static, const N: usize>(jobs: &mut Vec<Job>) {
    let name = format!("conversion {} to Chunk of {}", InlineArray::<E, T>::name(), N);
    jobs.push(Job {
        name,
        f: Box::new(|ctx: &mut Ctx| {
            for h in (0..layouts::<InlineArray<E, T>>()).map(layout::<InlineArray<E, T>>) {
                for by_ref in [false, true] {
                    ctx.add("transitions", 1);
                    ctx.run(|| format!("{:?} by reference: {}", h, by_ref), || {
                        let (mut a, _) = build::<InlineArray<E, T>>(&h);
                        if by_ref {
                            if let Ok(mut c) = guard(|| Chunk::<E, N>::from(&mut a)) {
                                touch(&mut c)
                            }
                            touch(&mut a)
                        } else if let Ok(mut c) = guard(|| Chunk::<E, N>::from(a)) {
                            touch(&mut c)
                        }
                        Ok(())
                    });
                }
            }
        }),
    })
}
/// what a pool does with its memory, without refpool's handles, whose counters are undefined behaviour by themselves
pub fn pool_copy<S: refpool::PoolClone>(c: &S, last: Option<S>) -> S {
    let mut m = std::mem::MaybeUninit::<S>::uninit();
    if let Some(x) = last {
        drop(unsafe { m.write(x); std::ptr::read(m.as_ptr()) })
    }
    unsafe {
        c.clone_uninit(&mut m);
        m.assume_init()
    }
}
fn pool_new<S: refpool::PoolDefault>(last: Option<S>) -> S {
    let mut m = std::mem::MaybeUninit::<S>::uninit();
    if let Some(x) = last {
        drop(unsafe { m.write(x); std::ptr::read(m.as_ptr()) })
    }
    unsafe {
        S::default_uninit(&mut m);
        m.assume_init()
    }
}
/// pooled memory, fresh and recycled from each layout
pub fn pool_cases<S: Seq + refpool::PoolClone + refpool::PoolDefault>(jobs: &mut Vec<Job>) {
    for i in 0..layouts::<S>() {
        jobs.push(Job {
            name: "pools".into(),
            f: Box::new(move |ctx: &mut Ctx| {
                ctx.state(i);
                let h = layout::<S>(i);
                for last in (0..layouts::<S>()).map(|k| Some(layout::<S>(k))).chain([None]) {
                    ctx.add("transitions", 2);
                    let get = || last.as_ref().map(|l| build::<S>(l).0);
                    ctx.run(|| format!("{} history {:?} copied into a pool, on memory of {:?}", S::name(), h, last), || {
                        let (mut c, _) = build::<S>(&h);
                        let mut d = pool_copy(&c, get());
                        touch(&mut c);
                        d.each(&mut |e| look(e));
                        touch(&mut d);
                        drop(c);
                        touch(&mut d);
                        Ok(())
                    });
                    if i == 0 {
                        ctx.run(|| format!("{} new from a pool, on memory of {:?}", S::name(), last), || {
                            let mut d = pool_new::<S>(get());
                            d.each(&mut |e| look(e));
                            touch(&mut d);
                            Ok(())
                        });
                    }
                }
            }),
        })
    }
}
pub fn sparse_pool_cases<E: Elem, const N: usize>(jobs: &mut Vec<Job>)
where
    BitsImpl<N>: Bits,
{
    jobs.push(Job {
        name: "pools".into(),
        f: Box::new(|ctx: &mut Ctx| {
            for (i, h) in sstates(N, N, 1).into_iter().enumerate() {
                ctx.state(i);
                ctx.add("transitions", 2);
                ctx.run(|| sdesc::<E>(N, &h, &"copied into a pool, on recycled memory"), || {
                    let (mut c, _) = sbuild::<E, N>(&h);
                    let mut d = pool_copy(&c, Some(c.clone()));
                    stouch(&mut c);
                    stouch(&mut d);
                    Ok(())
                });
                ctx.run(|| sdesc::<E>(N, &h, &"new from a pool, on recycled memory"), || {
                    let mut d = pool_new(Some(sbuild::<E, N>(&h).0));
                    stouch(&mut d);
                    Ok(())
                });
            }
        }),
    })
}
