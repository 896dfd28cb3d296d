//! C06: calls outside the contract are refused and change nothing.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::ownership::{audit, clean};
use crate::seq::*;
use crate::sparse::*;
use array_ops::{Array, ArrayMut, HasLength};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::RingBuffer;
use std::ops::Bound;

/// values above `n`, up to the largest integer, with the ones where sums with small numbers wrap or truncate
pub fn above(n: usize, cap: usize) -> Vec<usize> {
    let (n, cap) = (n.min(1 << 20), cap.min(1 << 20));
    let mut v = vec![n + 1, n + 2, cap, cap + 1, cap + 2, 2 * cap, 2 * cap + 1, 3 * cap + n, 63, 64, 65, 127, 128, 255, 256, 257, 65536 + n];
    for p in [1usize << 31, 1 << 32, 1 << 48, 1 << 62, 1 << 63] {
        v.extend([p - 1, p, p + 1, p + n, p + cap, p - cap, p - n])
    }
    for k in [0, 1, 2, 3, n, n + 1, cap, cap + 1, cap.wrapping_sub(n)] {
        v.push(usize::MAX - k);
        v.push(usize::MAX - 2 * k);
    }
    v.retain(|x| *x > n);
    v.sort();
    v.dedup();
    v
}
/// refused operations of a container in a state of length n
fn refused_ops<S: Seq>(n: usize, initial: bool) -> Vec<Op> {
    use Op::*;
    let cap = S::cap();
    let inline = S::KIND == Kind::Inline;
    let room = cap - n;
    let mut v = vec![];
    let xs = above(n, cap);
    let xn = || xs.iter().copied();
    v.extend([PushB, PopB, Insert(0), Insert(n / 2), Insert(n)]);
    if !inline {
        v.extend([PushF, PopF]);
    }
    for i in xn().chain([n]) {
        v.extend([Insert(i), Remove(i), SplitL(i), SplitR(i), Set(i)]);
        if n > 0 && S::KIND != Kind::Ring {
            v.extend([Swap(0, i), Swap(i, n - 1)]);
        }
        if !inline {
            v.extend([DropL(i), DropR(i), TakeF(i), TakeFK(i), TakeB(i), TakeBK(i)]);
            for k in [0, 1, room, room + 1, usize::MAX - i, usize::MAX] {
                v.push(InsFrom(i, k))
            }
        }
    }
    let kx = above(room, cap);
    if std::mem::size_of::<S::E>() != 0 || !inline {
        for &k in &kx {
            v.push(Extend(k));
            if k <= 300 {
                v.push(ExtRef(k))
            }
            if !inline {
                for i in [0, 1, n / 2, n.saturating_sub(1), n] {
                    v.push(InsFrom(i, k))
                }
            }
        }
        if initial {
            for k in above(cap, cap) {
                v.push(FromIter(k));
                if !inline {
                    for a in [0, 1, cap, cap + 1, k] {
                        v.push(Collect(k, a))
                    }
                }
            }
        }
    }
    if !inline {
        if initial {
            v.extend([Unit, Pair]);
            for c in 1..=cap.min(20) {
                for a in 0..c {
                    v.push(Collect(c, a))
                }
            }
        }
        for k in 0..=cap.min(20) {
            v.push(Append(k));
            v.push(AppendTo(k));
            for c in xs.iter().copied().chain(0..=cap.min(20)).chain(above(k, cap)) {
                v.push(DrainFF(k, c));
                v.push(DrainFB(k, c));
            }
        }
        if cap > 20 {
            for k in [cap / 2, cap - 1, cap] {
                v.push(Append(k));
                v.push(AppendTo(k));
                for c in above(k, cap).into_iter().chain([room + 1, k]) {
                    v.push(DrainFF(k, c));
                    v.push(DrainFB(k, c));
                }
            }
        }
    }
    // keep what is outside of the contract: the model refuses it, or answers None
    let (m, _) = (vec![0u32; n], 0);
    v.retain(|op| match op {
        PopB | PopF => n == 0,
        Remove(i) | Set(i) => *i >= n,
        op => model(S::KIND, cap, &mut m.clone(), op, 0).refuse,
    });
    let mut seen = std::collections::HashSet::new();
    v.retain(|o| seen.insert(*o));
    v
}
/// the container behaves like a bounded deque holding `m` (checked by using it up and filling it)
pub fn usable<S: Seq>(w: &mut World<S>, m: &[u32]) -> Result<(), String> {
    let mut m = m.to_vec();
    let big = S::cap() > 20;
    let mut ops = vec![];
    let room = S::maxlen().saturating_sub(m.len());
    for _ in 0..room.min(if big { 3 } else { 20 }) {
        ops.push(Op::PushB);
    }
    ops.push(Op::CloneD);
    if !m.is_empty() {
        ops.push(Op::Remove(0))
    }
    if S::KIND != Kind::Inline {
        ops.extend([Op::PopB, Op::PushF, Op::PushF]);
    }
    ops.extend([Op::Clear, Op::PushB]);
    for op in ops {
        let cap = S::cap();
        let n = m.len();
        if matches!(op, Op::PopB if n == 0) || (matches!(op, Op::PushB | Op::PushF) && n >= cap) || (op == Op::Remove(0) && n == 0) {
            continue;
        }
        step(w, &mut m, &op).map_err(|e| format!("not usable afterwards: {}", e))?
    }
    Ok(())
}
fn check_unchanged<S: Seq>(w: &World<S>, keys: &[u32], ids: &[u32], what: &str) -> Result<(), String> {
    let k = w.c().keys();
    if k != keys || w.c().length() != keys.len() {
        return Err(format!("{}: contents were {:?} (length {}), are now {:?} (length {})", what, keys, keys.len(), k, w.c().length()));
    }
    if S::E::IDS && w.c().ids() != ids {
        return Err(format!("{}: different elements than before", what));
    }
    w.zones()
}
fn all_ids<S: Seq>(w: &World<S>, o: &Outcome<S>) -> Vec<u32> {
    let mut v = w.c().ids();
    for e in &o.out.elems {
        e.key();
        v.push(e.id())
    }
    o.out.others.iter().for_each(|c| v.extend(c.ids()));
    v
}
pub fn refuse_one<S: Seq>(hist: &[Op], op: &Op) -> Result<(), String> {
    let mut w = World::<S>::build(hist);
    let (keys, ids) = (w.c().keys(), w.c().ids());
    let o = w.exec(op);
    let none_ok = match op {
        Op::PopB | Op::PopF => S::KIND != Kind::Chunk,
        Op::Remove(_) => S::KIND == Kind::Inline,
        Op::Set(_) => S::KIND == Kind::Ring,
        _ => false,
    };
    if o.panic.is_none() {
        if !none_ok {
            return Err(format!("{:?} was not refused", op));
        }
        if !o.out.elems.is_empty() {
            return Err(format!("{:?} returned an element", op));
        }
    }
    let expect = match op {
        Op::Extend(_) | Op::ExtRef(_) => {
            let mut v = keys.clone();
            v.extend((0..(S::cap() - keys.len()) as u32).map(|i| S::E::norm(o.base + i)));
            v
        }
        _ => keys.clone(),
    };
    if let Op::Extend(_) | Op::ExtRef(_) = op {
        let now = w.c().keys();
        if now != expect {
            return Err(format!("after {:?}: contents {:?}, expected {:?}", op, now, expect));
        }
        w.zones()?;
    } else {
        check_unchanged(&w, &keys, &ids, &format!("after the refused {:?}", op))?;
    }
    match op {
        Op::Append(k) | Op::AppendTo(k) | Op::DrainFF(k, _) | Op::DrainFB(k, _) => {
            let exp: Vec<u32> = (0..*k as u32).map(|i| S::E::norm(o.base + i)).collect();
            match o.out.others.first() {
                Some(c) if c.keys() == exp => (),
                c => return Err(format!("after the refused {:?}: the other container holds {:?}, held {:?}", op, c.map(|c| c.keys()), exp)),
            }
        }
        _ => (),
    }
    if S::E::TRACKED {
        audit::<S::E>(&mut all_ids(&w, &o), &format!("after the refused {:?}", op))?;
    }
    drop(o);
    // once more: still refused in the same way
    if !matches!(op, Op::Extend(_) | Op::ExtRef(_)) {
        let o = w.exec(op);
        if o.panic.is_none() && !none_ok {
            return Err(format!("{:?} was not refused the second time", op));
        }
        drop(o);
        check_unchanged(&w, &keys, &ids, &format!("after the refused {:?}, twice", op))?;
    }
    // norm() is idempotent, so observed keys serve as expectation
    usable(&mut w, &expect)?;
    drop(w);
    if S::E::TRACKED {
        clean::<S::E>(&format!("after the refused {:?} and dropping everything", op))?;
    }
    Ok(())
}
pub fn refuse_state<S: Seq>(ctx: &mut Ctx, st: &State) {
    for op in refused_ops::<S>(st.len, st.hist.is_empty()) {
        if ctx.stopped() {
            return;
        }
        ctx.add("transitions", 1);
        ctx.run(|| desc::<S>(&st.hist, &op), || refuse_one::<S>(&st.hist, &op));
    }
    // element access
    ctx.add("traces", 1);
    ctx.run(
        || format!("{} history {:?} then access outside of the contents", S::name(), st.hist),
        || {
            let mut w = World::<S>::build(&st.hist);
            let (keys, ids) = (w.c().keys(), w.c().ids());
            let n = w.c().length();
            for i in above(n, S::cap().min(4096)).into_iter().chain([n]) {
                if w.c().try_at(i).is_some() || w.cm().try_at_mut(i).is_some() {
                    return Err(format!("get({}) is Some at length {}", i, n));
                }
                if guard(|| w.c().at(i) as *const S::E as usize).is_ok() {
                    return Err(format!("[{}] is not refused at length {}", i, n));
                }
                if guard(|| w.cm().at_mut(i) as *mut S::E as usize).is_ok() {
                    return Err(format!("mutable [{}] is not refused at length {}", i, n));
                }
            }
            check_unchanged(&w, &keys, &ids, "after refused accesses")?;
            usable(&mut w, &keys)
        },
    );
}
/// transfers between two containers in every pair of layouts
pub fn refuse_pairs<S: Seq>(ctx: &mut Ctx, sp: &[State], a: &State, shrink: bool) {
    use Op::*;
    for b in sp {
        if shrink && b.hist.len() > 2 {
            continue;
        }
        let (na, nb, cap) = (a.len, b.len, S::cap());
        let room = cap - na;
        let mut ops = vec![];
        if nb > room {
            ops.push(Append(0));
        }
        for c in (0..=nb + 1).chain(above(nb.max(room), cap)) {
            if c > nb || c > room {
                ops.push(DrainFF(0, c));
                ops.push(DrainFB(0, c));
            }
        }
        for op in ops {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} history {:?}, other container history {:?}: {:?}", S::name(), a.hist, b.hist, op),
                || {
                    let mut x = World::<S>::build(&a.hist);
                    let mut y = World::<S>::build(&b.hist);
                    let (kx, ix, ky, iy) = (x.c().keys(), x.c().ids(), y.c().keys(), y.c().ids());
                    if guard(|| transfer(x.cm(), y.cm(), &op)).is_ok() {
                        return Err(format!("{:?} was not refused", op));
                    }
                    check_unchanged(&x, &kx, &ix, "target")?;
                    check_unchanged(&y, &ky, &iy, "source")?;
                    usable(&mut x, &kx).and_then(|_| usable(&mut y, &ky))?;
                    drop((x, y));
                    clean::<S::E>("after dropping everything")
                },
            );
        }
    }
}
fn transfer<S: Seq>(x: &mut S, y: &mut S, op: &Op) {
    x.transfer_from(y, op)
}
pub fn refuse_jobs<S: Seq>(jobs: &mut Vec<Job>, reps: usize, shards: usize) {
    space_jobs::<S>(jobs, "refused calls", reps, shards, refuse_state::<S>);
}
pub fn refuse_pair_jobs<S: Seq>(jobs: &mut Vec<Job>, shards: usize) {
    pair_jobs::<S>(jobs, "refused transfers", 1, shards, |ctx, sp, a| refuse_pairs::<S>(ctx, sp, a, false));
}

// ---- ring buffer specifics: slices --------------------------------------------------------------------------------
pub fn bounds(n: usize) -> Vec<(Bound<usize>, Bound<usize>)> {
    use Bound::*;
    let m = usize::MAX;
    let mut ends = vec![];
    for e in (0..=n + 2).chain([2 * n + 7, 1 << 32, 1 << 63, m - 1, m]) {
        ends.push(Excluded(e));
        ends.push(Included(e));
    }
    ends.push(Unbounded);
    let mut v = vec![];
    for s in (0..=n + 2).chain([1 << 32, m - 1, m]) {
        for e in &ends {
            v.push((Included(s), *e))
        }
    }
    for e in &ends {
        v.push((Unbounded, *e))
    }
    v
}
/// (start, end) if the range lies within 0..n
pub fn resolve(n: usize, b: &(Bound<usize>, Bound<usize>)) -> Option<(usize, usize)> {
    use Bound::*;
    let s = match b.0 {
        Included(s) => s,
        Unbounded => 0,
        Excluded(s) => s.checked_add(1)?,
    };
    let e = match b.1 {
        Excluded(e) => e,
        Included(e) => e.checked_add(1)?,
        Unbounded => n,
    };
    (s <= e && e <= n).then_some((s, e))
}
pub fn refuse_slices<E: Elem, const N: usize>(ctx: &mut Ctx, st: &State) {
    type R<E, const N: usize> = RingBuffer<E, N>;
    let n = st.len;
    let what = |s: &str| format!("{} history {:?}: {}", R::<E, N>::name(), st.hist, s);
    let mut slots: Vec<(usize, usize)> = vec![];
    for s in 0..=n {
        for e in s..=n {
            slots.push((s, e))
        }
    }
    ctx.add("traces", 1);
    ctx.run(
        || what("ranges"),
        || {
            let mut w = World::<R<E, N>>::build(&st.hist);
            let (keys, ids) = (w.c().keys(), w.c().ids());
            for b in bounds(n) {
                if resolve(n, &b).is_some() {
                    continue;
                }
                if guard(|| std::hint::black_box(w.c().slice(b).len())).is_ok() {
                    return Err(format!("slice({:?}) was not refused at length {}", b, n));
                }
                if guard(|| std::hint::black_box(w.cm().slice_mut(b).len())).is_ok() {
                    return Err(format!("slice_mut({:?}) was not refused at length {}", b, n));
                }
            }
            check_unchanged(&w, &keys, &ids, "after refused ranges")?;
            usable(&mut w, &keys)
        },
    );
    for (s, e) in slots {
        if ctx.stopped() {
            return;
        }
        ctx.add("transitions", 1);
        ctx.run(
            || what(&format!("slice {}..{}: accesses, ranges and splits outside of the window", s, e)),
            || {
                let mut w = World::<R<E, N>>::build(&st.hist);
                let (keys, ids) = (w.c().keys(), w.c().ids());
                let k = e - s;
                for i in above(k, N).into_iter().chain([k]) {
                    let sl = w.c().slice(s..e);
                    if sl.get(i).is_some() || guard(|| &sl[i] as *const E as usize).is_ok() {
                        return Err(format!("index {} of a slice of length {} was not refused", i, k));
                    }
                    if i > k && guard(|| std::hint::black_box(sl.split_at(i).0.len())).is_ok() {
                        return Err(format!("split_at({}) of a slice of length {} was not refused", i, k));
                    }
                    let mut sl = w.cm().slice_mut(s..e);
                    if sl.get(i).is_some() || sl.get_mut(i).is_some() {
                        return Err(format!("get({}) of a mutable slice of length {} was not refused", i, k));
                    }
                    if guard(|| &sl[i] as *const E as usize).is_ok() || guard(|| &mut sl[i] as *const E as usize).is_ok() {
                        return Err(format!("index {} of a mutable slice of length {} was not refused", i, k));
                    }
                    if sl.set(i, E::mk(1234)).is_some() {
                        return Err(format!("set({}) of a mutable slice of length {} was not refused", i, k));
                    }
                    if i > k && guard(|| std::hint::black_box(sl.split_at(i).0.len())).is_ok() {
                        return Err(format!("split_at({}) of a mutable slice of length {} was not refused", i, k));
                    }
                }
                for b in bounds(k) {
                    if resolve(k, &b).is_some() {
                        continue;
                    }
                    if guard(|| std::hint::black_box(w.c().slice(s..e).slice(b).len())).is_ok() {
                        return Err(format!("slice({:?}) of a slice of length {} was not refused", b, k));
                    }
                    if guard(|| std::hint::black_box(w.cm().slice_mut(s..e).slice(b).len())).is_ok() {
                        return Err(format!("slice({:?}) of a mutable slice of length {} was not refused", b, k));
                    }
                }
                check_unchanged(&w, &keys, &ids, "after refused slice operations")?;
                usable(&mut w, &keys)?;
                drop(w);
                if E::TRACKED {
                    clean::<E>("after dropping everything")?
                }
                Ok(())
            },
        );
    }
}
/// insert_ordered into a full container
pub fn refuse_ordered<S: Seq>(ctx: &mut Ctx, st: &State) {
    if st.len != S::cap() {
        return;
    }
    for v in 0..(st.len as u32 + 40).min(60) {
        ctx.add("transitions", 1);
        ctx.run(
            || format!("{} history {:?} then insert_ordered({})", S::name(), st.hist, v),
            || {
                let mut w = World::<S>::build(&st.hist);
                let (keys, ids) = (w.c().keys(), w.c().ids());
                if guard(|| w.cm().insert_sorted(S::E::mk(v))).is_ok() {
                    return Err("was not refused".into());
                }
                check_unchanged(&w, &keys, &ids, "after the refused insert_ordered")?;
                usable(&mut w, &keys)?;
                drop(w);
                clean::<S::E>("after dropping everything")
            },
        );
    }
}

// ---- sparse -------------------------------------------------------------------------------------------------------
pub fn refuse_sparse<E: Elem, const N: usize>(ctx: &mut Ctx, h: &Vec<SOp>, initial: bool)
where
    BitsImpl<N>: Bits,
{
    use SOp::*;
    let mut ops = vec![];
    let xs: Vec<usize> = above(N - 1, N);
    for &i in &xs {
        ops.extend([Insert(i), Remove(i), WriteIdx(i), Index(i), Write(i)]);
        if initial {
            ops.extend([Unit(i), Pair(i, 0), Pair(N - 1, i), Pair(i, i)]);
        }
    }
    for i in positions(N, 10) {
        ops.extend([WriteIdx(i), Index(i)])
    }
    if initial {
        for i in [N, N + 1, N + 64, N + 200] {
            ops.push(From(vec![i], i + 1));
            ops.push(From((0..=i).collect(), i + 1));
            ops.push(From(vec![0, N - 1, i], i + 3));
        }
    }
    for op in ops {
        if ctx.stopped() {
            return;
        }
        let (mut m, _) = smodel_hist(N, h);
        let x = smodel(N, &mut m, &op, 0);
        let none = matches!(op, Write(_)) && x.ret == vec![None];
        if !x.refuse && !none {
            continue;
        }
        ctx.add("transitions", 1);
        ctx.run(
            || sdesc::<E>(N, h, &op),
            || {
                let mut w = SWorld::<E, N>::build(h);
                let look = |w: &SWorld<E, N>| (0..N).map(|i| w.c().get(i).map(|e| (e.key(), e.id()))).collect::<Vec<_>>();
                let before = look(&w);
                let o = w.exec(&op);
                if o.panic.is_none() && !(none && o.out.ret.iter().all(|r| r.is_none())) {
                    return Err(format!("{:?} was not refused", op));
                }
                drop(o);
                let after = look(&w);
                if after != before || w.c().len() != before.iter().flatten().count() {
                    return Err(format!("after the refused {:?}: {:?}, was {:?}", op, after, before));
                }
                w.zones()?;
                let mut m: M = before.iter().enumerate().filter_map(|(i, e)| e.map(|e| (i, e.0))).collect();
                for op in [Insert(N - 1), Pop, Insert(0), CloneD, Insert(N / 2), Remove(N - 1), Insert(N - 1), IntoIter(1)] {
                    sstep(&mut w, &mut m, &op).map_err(|e| format!("not usable afterwards: {}", e))?
                }
                drop(w);
                if E::TRACKED {
                    clean::<E>("after dropping everything")?
                }
                Ok(())
            },
        );
    }
}
