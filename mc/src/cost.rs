//! C21: how many elements change their address in an operation.
use crate::elem::*;
use crate::harness::{Ctx, Job};
use crate::seq::*;
use std::collections::HashMap;

fn places<S: Seq>(c: &S) -> Vec<(u32, usize)> {
    let mut v = vec![];
    c.each(&mut |e| v.push((e.id(), e as *const S::E as usize)));
    v
}
/// elements present in both that are somewhere else now
fn moved(before: &[(u32, usize)], after: &[(u32, usize)]) -> usize {
    let m: HashMap<u32, usize> = after.iter().copied().collect();
    before.iter().filter(|(id, at)| m.get(id).map_or(false, |x| x != at)).count()
}
/// elements in the contents for which identity is their value
fn measure<S: Seq>(w: &mut World<S>, op: &Op) -> Result<usize, String> {
    let before = places(w.c());
    let o = w.exec(op);
    if let Some(p) = o.panic {
        return Err(format!("{:?} panicked: {}", op, p));
    }
    Ok(moved(&before, &places(w.c())))
}
/// free slots before and after the contents
fn room<S: Seq>(w: &World<S>, slot0: usize) -> (usize, usize) {
    let n = w.c().length();
    let left = (w.c().origin().expect("empty") - slot0) / std::mem::size_of::<S::E>();
    (left, S::cap() - left - n)
}
/// address of the first slot relative to the container
pub fn slot0<S: Seq>() -> usize {
    let mut w = World::<S>::new();
    for _ in 0..S::cap() {
        w.exec(&Op::PushB);
    }
    w.c().origin().unwrap()
}
pub fn cost_state<S: Seq>(ctx: &mut Ctx, st: &State, slot0: usize, bulk: usize) {
    let n = st.len;
    let chunk = S::KIND == Kind::Chunk;
    // (operation, relocations allowed; None: not promised)
    let mut ops: Vec<(Op, usize)> = vec![(Op::PopB, 0), (Op::PopF, 0)];
    if n == 0 {
        ops.clear()
    }
    if n < S::cap() && !chunk {
        ops.extend([(Op::PushB, 0), (Op::PushF, 0)]);
    }
    let sides = if n > 0 && chunk { room(&World::<S>::build(&st.hist), slot0) } else { (1, 1) };
    let some = |n: usize| if S::cap() > BIG { marks(n, S::cap()) } else { (0..=n).collect() };
    for i in some(n) {
        if i < n && sides.0 > 0 && sides.1 > 0 {
            ops.push((Op::Remove(i), i.min(n - 1 - i)))
        }
    }
    for i in some(n) {
        for k in 1..=bulk {
            if n + k <= S::cap() && sides.0 >= k && sides.1 >= k {
                if k == 1 {
                    ops.push((Op::Insert(i), i.min(n - i)))
                }
                ops.push((Op::InsFrom(i, k), i.min(n - i)))
            } else if n + k <= S::cap() && !chunk {
                if k == 1 {
                    ops.push((Op::Insert(i), i.min(n - i)))
                }
                ops.push((Op::InsFrom(i, k), i.min(n - i)))
            }
        }
    }
    for (op, max) in &ops {
        if ctx.stopped() {
            return;
        }
        ctx.add("transitions", 1);
        ctx.run(
            || desc::<S>(&st.hist, op),
            || {
                let mut w = World::<S>::build(&st.hist);
                let m = measure(&mut w, op)?;
                if m > *max {
                    return Err(format!("{} elements were relocated, at most {} lie on the shorter side (length {}, free slots {:?})", m, max, n, sides));
                }
                Ok(())
            },
        );
    }
    // ordered insertion into sorted contents, and through the draining iterators
    if !chunk || (sides.0 > 0 && sides.1 > 0) {
        for i in some(n) {
            if n >= S::cap() {
                break;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} history {:?} sorted, then insert_ordered at {}", S::name(), st.hist, i),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    for j in 0..n {
                        *w.cm().at_mut(j) = S::E::mk(10 + 2 * j as u32)
                    }
                    let before = places(w.c());
                    w.cm().insert_sorted(S::E::mk(9 + 2 * i as u32));
                    let m = moved(&before, &places(w.c()));
                    if m > i.min(n - i) {
                        return Err(format!("{} elements were relocated, at most {} lie on the shorter side", m, i.min(n - i)));
                    }
                    Ok(())
                },
            );
        }
    }
    if n > 0 {
        for word in 0..4usize {
            ctx.add("transitions", n as u64);
            ctx.run(
                || format!("{} history {:?}, popped empty (pattern {})", S::name(), st.hist, word),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    for i in 0..n {
                        let op = if word >> (i % 2) & 1 == 0 { Op::PopF } else { Op::PopB };
                        let m = measure(&mut w, &op)?;
                        if m > 0 {
                            return Err(format!("{} elements were relocated by {:?}", m, op));
                        }
                    }
                    Ok(())
                },
            );
        }
    }
    for op in [Op::PushB, Op::PushF] {
        ctx.add("transitions", (S::cap() - n) as u64);
        ctx.run(
            || format!("{} history {:?}, {:?} until full", S::name(), st.hist, op),
            || {
                let mut w = World::<S>::build(&st.hist);
                let mut times = 0;
                for _ in n..S::cap() {
                    if measure(&mut w, &op)? > 0 {
                        times += 1
                    }
                }
                if w.c().length() != S::cap() {
                    return Err("not full".into());
                }
                let max = if chunk { 1 } else { 0 };
                if times > max {
                    return Err(format!("the contents were relocated {} times by {} pushes", times, S::cap() - n));
                }
                Ok(())
            },
        );
    }
}
pub fn cost_jobs<S: Seq>(jobs: &mut Vec<Job>, reps: usize, shards: usize, bulk: usize) {
    space_jobs::<S>(jobs, "relocations", reps, shards, move |ctx, st| {
        let z = slot0::<S>();
        cost_state::<S>(ctx, st, z, bulk)
    });
}
