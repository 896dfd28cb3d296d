//! C14: clones (and slices copied out) equal their source, and neither copy ever affects the other.
use crate::elem::*;
use crate::harness::{Ctx, Job};
use crate::ownership::clean;
use crate::seq::*;
use crate::sparse::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::{Chunk, InlineArray, RingBuffer};

/// every way to copy elements out: (description, start, end, copy)
pub trait Copies: Seq {
    /// the k-th way; None: no more ways. Some((range, copy))
    fn copy(&self, k: usize) -> Option<(usize, usize, Self)>;
    fn copy_mut(&mut self, _k: usize) -> Option<(usize, usize, Self)> {
        None
    }
    fn overwrite(&self, target: &mut Self);
}
macro_rules! plain_copies { ($($g:tt)*) => {
    $($g)* {
        fn copy(&self, k: usize) -> Option<(usize, usize, Self)> {
            match k {
                0 => Some((0, self.length(), self.clone())),
                1 => {
                    let mut d = Self::make();
                    d.clone_from(self);
                    Some((0, self.length(), d))
                }
                2 => Some((0, self.length(), ToOwned::to_owned(self))),
                _ => None,
            }
        }
        fn overwrite(&self, t: &mut Self) {
            t.clone_from(self)
        }
    }
} }
plain_copies!(impl<E: Elem, const N: usize> Copies for Chunk<E, N>);
plain_copies!(impl<E: Elem, T: 'static> Copies for InlineArray<E, T>);
impl<E: Elem, const N: usize> Copies for RingBuffer<E, N> {
    fn copy(&self, k: usize) -> Option<(usize, usize, Self)> {
        let n = self.length();
        if k < 2 {
            let mut d = Self::make();
            if k == 0 {
                d = self.clone()
            } else {
                d.clone_from(self)
            }
            return Some((0, n, d));
        }
        let (s, e) = span(n, k - 2)?;
        Some((s, e, self.slice(s..e).to_owned()))
    }
    fn copy_mut(&mut self, k: usize) -> Option<(usize, usize, Self)> {
        let (s, e) = span(self.length(), k)?;
        Some((s, e, self.slice_mut(s..e).to_owned()))
    }
    fn overwrite(&self, t: &mut Self) {
        t.clone_from(self)
    }
}
/// the k-th of all ranges over n elements (only the longest and some others at large n)
fn span(n: usize, k: usize) -> Option<(usize, usize)> {
    if n > 8 {
        return [(0, n), (1, n), (0, n - 1), (n / 2, n), (n / 3, n - n / 3)].get(k).copied();
    }
    let mut i = 0;
    for s in 0..=n {
        for e in s..=n {
            if i == k {
                return Some((s, e));
            }
            i += 1
        }
    }
    None
}
fn disjoint<S: Seq>(a: &S, b: &S) -> Result<(), String> {
    if S::E::IDS {
        let ids = a.ids();
        if b.ids().iter().any(|i| ids.contains(i)) {
            return Err("the copy shares an element with its source".into());
        }
    }
    Ok(())
}
fn unchanged<S: Seq>(s: &S, keys: &[u32], ids: &[u32], at: Option<usize>, what: &str) -> Result<(), String> {
    observe(s, keys).map_err(|e| format!("{}: {}", what, e))?;
    if S::E::IDS && s.ids() != ids {
        return Err(format!("{}: different elements than before", what));
    }
    if at.is_some() && s.origin() != at {
        return Err(format!("{}: elements were moved", what));
    }
    Ok(())
}
pub fn clone_state<S: Copies>(ctx: &mut Ctx, st: &State, full: bool, pairs: bool) {
    let ops = all_ops::<S>(st.len, &st.hist, full);
    // each way of copying: exact contents, one clone per element, source untouched
    for muts in [false, true] {
        for k in 0.. {
            if ctx.stopped() {
                return;
            }
            let mut more = false;
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} history {:?}, {} way {}", S::name(), st.hist, if muts { "mutable copy" } else { "copy" }, k),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    let (keys, ids, at) = (w.c().keys(), w.c().ids(), w.c().origin());
                    let c0 = clones();
                    let Some((s, e, d)) = (if muts { w.cm().copy_mut(k) } else { w.c().copy(k) }) else { return Ok(()) };
                    more = true;
                    if S::E::CLONES && clones() - c0 != (e - s) as u64 {
                        return Err(format!("{} clones were made of {} elements", clones() - c0, e - s));
                    }
                    unchanged(w.c(), &keys, &ids, at, "source")?;
                    let mut d = World::<S>::of(d, w.next);
                    observe(d.c(), &keys[s..e]).map_err(|x| format!("copy of {}..{}: {}", s, e, x))?;
                    disjoint(w.c(), d.c())?;
                    // the copy is a full container of its own
                    let mut m = keys[s..e].to_vec();
                    for op in [Op::PushB, Op::PopB, Op::PopF, Op::PushF, Op::Insert(m.len() / 2), Op::Remove(0), Op::SplitL(m.len() / 2), Op::CloneK, Op::Extend(1), Op::Clear, Op::FromIter(1)] {
                        if S::KIND == Kind::Inline && matches!(op, Op::PushF | Op::PopF) || (S::cap() == 0 && op == Op::FromIter(1)) {
                            continue;
                        }
                        step(&mut d, &mut m, &op).map_err(|x| format!("copy of {}..{}: {}", s, e, x))?;
                        unchanged(w.c(), &keys, &ids, at, "source after using the copy")?;
                    }
                    drop(d);
                    unchanged(w.c(), &keys, &ids, at, "source after dropping the copy")?;
                    w.zones()?;
                    drop(w);
                    if S::E::TRACKED {
                        clean::<S::E>("after dropping everything")?
                    }
                    Ok(())
                },
            );
            if !more {
                break;
            }
        }
    }
    // every operation on either copy
    for op in &ops {
        for on_copy in [true, false] {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{}, cloned before and the operation applied to the {}", desc::<S>(&st.hist, op), if on_copy { "clone" } else { "source" }),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    let d = w.c().dup();
                    let mut d = World::of(d, w.next);
                    let keys = w.c().keys();
                    let mut m = keys.clone();
                    let (x, y) = if on_copy { (&mut d, &mut w) } else { (&mut w, &mut d) };
                    let (ids, at) = (y.c().ids(), y.c().origin());
                    step(x, &mut m, op)?;
                    unchanged(y.c(), &keys, &ids, at, "the other copy")?;
                    y.zones()?;
                    // and once one of them is gone
                    x.g.c = S::make();
                    unchanged(y.c(), &keys, &ids, at, "the other copy after dropping this one")?;
                    drop((w, d));
                    if S::E::TRACKED {
                        clean::<S::E>("after dropping everything")?
                    }
                    Ok(())
                },
            );
        }
    }
    // clone_from over every kind of old contents
    for n in 0..=S::maxlen().min(9) {
        ctx.add("transitions", 1);
        ctx.run(
            || format!("{} history {:?} assigned by clone_from over {} elements", S::name(), st.hist, n),
            || {
                let w = World::<S>::build(&st.hist);
                let (keys, ids, at) = (w.c().keys(), w.c().ids(), w.c().origin());
                let mut d = World::<S>::new();
                d.next = 9000;
                d.exec(&Op::FromIter(n));
                w.c().overwrite(d.cm());
                observe(d.c(), &keys)?;
                disjoint(w.c(), d.c())?;
                unchanged(w.c(), &keys, &ids, at, "source")?;
                drop((w, d));
                if S::E::TRACKED {
                    clean::<S::E>("after dropping everything")?
                }
                Ok(())
            },
        );
    }
    // every two operations, each on either copy
    if pairs {
        let second = crate::functional::seq_ops::<S>(st.len, false);
        for op in &second {
            for op2 in &second {
                if ctx.stopped() {
                    return;
                }
                ctx.add("transitions", 2);
                ctx.run(
                    || format!("{} history {:?}, then {:?} on one copy and {:?} on the other", S::name(), st.hist, op, op2),
                    || {
                        let mut w = World::<S>::build(&st.hist);
                        let d = w.c().dup();
                        let mut d = World::of(d, w.next + 100);
                        let (mut mw, mut md) = (w.c().keys(), w.c().keys());
                        step(&mut w, &mut mw, op)?;
                        step(&mut d, &mut md, op2)?;
                        observe(w.c(), &mw)?;
                        disjoint(w.c(), d.c())
                    },
                );
            }
        }
    }
}
pub fn clone_jobs<S: Copies>(jobs: &mut Vec<Job>, reps: usize, shards: usize, full: bool, pairs: bool) {
    space_jobs::<S>(jobs, "copies", reps, shards, move |c, s| clone_state::<S>(c, s, full, pairs));
}

fn sids<E: Elem, const N: usize>(w: &SWorld<E, N>) -> Vec<u32>
where
    BitsImpl<N>: Bits,
{
    (0..N)
        .filter_map(|i| w.c().get(i))
        .map(|e| {
            e.key();
            e.id()
        })
        .collect()
}
pub fn sclone_state<E: Elem, const N: usize>(ctx: &mut Ctx, h: &Vec<SOp>, max: usize)
where
    BitsImpl<N>: Bits,
{
    let (m0, _) = smodel_hist(N, h);
    let mut ops = sops(N, max, m0.len(), false);
    ops.push(SOp::From((0..N).step_by(2).collect(), N));
    ops.push(SOp::Unit(N - 1));
    for op in &ops {
        for on_copy in [true, false] {
            for from in [false, true] {
                if ctx.stopped() {
                    return;
                }
                ctx.add("transitions", 1);
                ctx.run(
                    || format!("{}, cloned before and the operation applied to the {}", sdesc::<E>(N, h, op), if on_copy { "clone" } else { "source" }),
                    || {
                        let mut w = SWorld::<E, N>::build(h);
                        let (ids, c0) = (sids(&w), clones());
                        let mut m = m0.clone();
                        let mut d = if from {
                            // over old contents
                            let mut d = SWorld::<E, N>::of((0..N).map(|i| if i % 3 != 1 { Some(E::mk(7000 + i as u32)) } else { None }).collect(), w.next);
                            d.cm().clone_from(w.c());
                            d
                        } else {
                            SWorld::of(w.c().clone(), w.next)
                        };
                        if E::CLONES && clones() - c0 != m.len() as u64 {
                            return Err(format!("{} clones were made of {} elements", clones() - c0, m.len()));
                        }
                        sobserve(d.c(), &m0).map_err(|e| format!("clone: {}", e))?;
                        if E::IDS && (sids(&w) != ids || sids(&d).iter().any(|i| ids.contains(i))) {
                            return Err("the elements of the source were replaced or shared".into());
                        }
                        let (x, y) = if on_copy { (&mut d, &mut w) } else { (&mut w, &mut d) };
                        let ids = sids(y);
                        sstep(x, &mut m, op)?;
                        sobserve(y.c(), &m0).map_err(|e| format!("the other copy: {}", e))?;
                        if E::IDS && sids(y) != ids {
                            return Err("the other copy: different elements than before".into());
                        }
                        y.zones()?;
                        *x.cm() = Default::default();
                        sobserve(y.c(), &m0).map_err(|e| format!("the other copy after dropping this one: {}", e))?;
                        drop((w, d));
                        if E::TRACKED {
                            clean::<E>("after dropping everything")?
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
