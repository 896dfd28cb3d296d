//! C08: iterators that lie about their length.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::refusal::usable;
use crate::seq::*;
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Lie {
    /// successive answers of len() / size_hint() (the last one repeats)
    pub answers: [usize; 3],
    /// elements actually yielded
    pub yields: usize,
    /// after the first None: how many more it yields
    pub more: usize,
    pub upper: bool,
}
pub struct Liar<E> {
    l: Lie,
    asked: Cell<usize>,
    given: usize,
    nones: usize,
    base: u32,
    e: std::marker::PhantomData<E>,
}
impl<E: Elem> Liar<E> {
    pub fn new(l: Lie, base: u32) -> Self {
        Liar { l, asked: Cell::new(0), given: 0, nones: 0, base, e: std::marker::PhantomData }
    }
    fn ask(&self) -> usize {
        let i = self.asked.get();
        self.asked.set(i + 1);
        self.l.answers[i.min(2)]
    }
}
impl<E: Elem> Iterator for Liar<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        let total = self.l.yields + if self.nones > 0 { self.l.more } else { 0 };
        if self.given < total {
            self.given += 1;
            Some(E::mk(self.base + self.given as u32 - 1))
        } else {
            self.nones += 1;
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let a = self.ask();
        (a, if self.l.upper { Some(a) } else { None })
    }
}
impl<E: Elem> ExactSizeIterator for Liar<E> {
    fn len(&self) -> usize {
        self.ask()
    }
}
#[derive(Clone, Copy, Debug)]
pub enum LOp {
    InsFrom(usize),
    Extend,
    FromIter,
    Collect(usize),
}
pub trait LieTarget: Seq {
    fn lie(&mut self, op: LOp, it: Liar<Self::E>);
}
macro_rules! lie_deque { ($t:ident) => {
    impl<E: Elem, const N: usize> LieTarget for sized_chunks::$t<E, N> {
        fn lie(&mut self, op: LOp, mut it: Liar<E>) {
            match op {
                LOp::InsFrom(i) => self.insert_from(i, it),
                LOp::Extend => self.extend(it),
                LOp::FromIter => *self = it.collect(),
                LOp::Collect(n) => *self = Self::collect_from(&mut it, n),
            }
        }
    }
} }
lie_deque!(Chunk);
lie_deque!(RingBuffer);
impl<E: Elem, T: 'static> LieTarget for sized_chunks::InlineArray<E, T> {
    fn lie(&mut self, op: LOp, it: Liar<E>) {
        match op {
            LOp::Extend => self.extend(it),
            LOp::FromIter => *self = it.collect(),
            _ => unreachable!(),
        }
    }
}
pub fn lies(n: usize, cap: usize) -> Vec<Lie> {
    let room = cap - n;
    let m = usize::MAX;
    let mut a: Vec<usize> = (0..=room + 2).collect();
    a.extend([m, m - 1, m - n, m - cap, 1 << 63, (1 << 32) + 1, (1 << 63) + 1, 2 * cap + 1]);
    let mut v = vec![];
    let mut b = vec![0, 1, room, room + 1, m];
    b.sort();
    b.dedup();
    for &x in &a {
        for &y in a.iter().filter(|y| b.contains(y) || **y == x || **y == x.wrapping_add(1) || **y == x.wrapping_sub(1)) {
            for &z in &b {
                for yields in 0..=room + 3 {
                    v.push(Lie { answers: [x, y, z], yields, more: 0, upper: true });
                    if y == x && z == b[0] {
                        v.push(Lie { answers: [x, y, y], yields, more: room + 3, upper: true });
                        v.push(Lie { answers: [x, y, y], yields, more: 1, upper: false });
                        v.push(Lie { answers: [x, y, y], yields, more: 0, upper: false });
                    }
                }
            }
        }
    }
    v
}
pub fn lie_state<S: LieTarget>(ctx: &mut Ctx, st: &State) {
    let cap = S::maxlen();
    let mut ops = vec![LOp::Extend];
    if st.len <= 1 {
        ops.push(LOp::FromIter);
    }
    if S::KIND != Kind::Inline {
        ops.extend((0..=st.len + 1).map(LOp::InsFrom));
        if st.len <= 1 {
            ops.extend((0..=cap + 1).map(LOp::Collect));
        }
    }
    for op in ops {
        let n = if let LOp::Collect(_) | LOp::FromIter = op { 0 } else { st.len };
        for l in lies(n, cap) {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} history {:?} then {:?} from an iterator answering {:?}... to len(), yielding {} then None then {} more{}", S::name(), st.hist, op, l.answers, l.yields, l.more, if l.upper { "" } else { ", no upper bound" }),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    let old = w.c().keys();
                    let base = w.next;
                    let p = guard(|| w.g.c.lie(op, Liar::new(l, base)));
                    w.next += 1000;
                    check(&mut w, &old, base, op, p.is_err(), st.len)
                },
            );
        }
    }
}
fn check<S: LieTarget>(w: &mut World<S>, old: &[u32], base: u32, op: LOp, panicked: bool, _n: usize) -> Result<(), String> {
    w.zones()?;
    if has_errs() {
        return Err(take_errs().join("; "));
    }
    let k = w.c().keys();
    if k.len() != w.c().length() || k.len() > S::cap() {
        return Err(format!("length {} but {} elements, capacity {}", w.c().length(), k.len(), S::cap()));
    }
    let mut ids = w.c().ids();
    ids.sort();
    if S::E::IDS && ids.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!("one element is stored twice: {:?}", k));
    }
    if has_errs() {
        return Err(format!("{} in {:?}", take_errs().join("; "), k));
    }
    if S::E::TRACKED {
        // without a panic nothing may be lost
        if !panicked && S::E::live() != k.len() as i64 {
            return Err(format!("{} elements alive, {} stored: {:?}, before {:?}", S::E::live(), k.len(), k, old));
        }
        if (k.len() as i64) > S::E::live() {
            return Err(format!("{} elements stored, only {} alive", k.len(), S::E::live()));
        }
    }
    // what is stored are the old elements with a prefix of the new ones inserted at the position
    let (at, kept) = match op {
        LOp::InsFrom(i) => (i.min(old.len()), old),
        LOp::Extend => (old.len(), old),
        LOp::FromIter | LOp::Collect(_) => (0, if panicked { old } else { &[] as &[u32] }),
    };
    let fresh = k.len() as i64 - kept.len() as i64;
    let mut exp = kept.to_vec();
    if fresh > 0 {
        exp.splice(at..at, (0..fresh as u32).map(|i| S::E::norm(base + i)));
    }
    // after a refused call elements may have been given up (leaked), but what is stored keeps its order
    let ok = if panicked && fresh < 0 {
        let mut it = old.iter();
        k.iter().all(|x| *x >= base || it.any(|y| y == x))
    } else {
        k == exp
    };
    if !ok {
        return Err(format!("contents {:?}, before {:?}, first new key {}", k, old, base));
    }
    usable(w, &k)?;
    w.g.c = S::make();
    if has_errs() {
        return Err(take_errs().join("; "));
    }
    if S::E::TRACKED && !panicked && S::E::live() != 0 {
        return Err(format!("{} elements leaked", S::E::live()));
    }
    Ok(())
}
pub fn lie_jobs<S: LieTarget>(jobs: &mut Vec<Job>, reps: usize, shards: usize) {
    space_jobs::<S>(jobs, "lying iterators", reps, shards, lie_state::<S>);
}
