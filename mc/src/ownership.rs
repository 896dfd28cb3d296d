//! C05: every live element is in exactly one place; nothing is left when every owner is gone.
use crate::elem::*;
use crate::harness::{Ctx, Job};
use crate::seq::*;
use crate::sparse::*;
use bitmaps::{Bits, BitsImpl};

/// `ids`: identities of all elements that can be seen in containers, iterators and return values
pub fn audit<E: Elem>(ids: &mut Vec<u32>, what: &str) -> Result<(), String> {
    if has_errs() {
        return Err(format!("{}: {}", what, take_errs().join("; ")));
    }
    let n = ids.len() as i64;
    if n != E::live() {
        let x = if E::live() > n { "leaked" } else { "owned more than once" };
        return Err(format!("{}: {} elements are alive, {} are owned by a container or the caller: {}", what, E::live(), n, x));
    }
    if E::IDS {
        ids.sort();
        if ids.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("{}: one element is owned twice", what));
        }
    }
    Ok(())
}
pub fn clean<E: Elem>(what: &str) -> Result<(), String> {
    if has_errs() {
        return Err(format!("{}: {}", what, take_errs().join("; ")));
    }
    if E::live() != 0 {
        return Err(format!("{}: {} elements leaked", what, E::live()));
    }
    Ok(())
}
fn world_ids<S: Seq>(w: &World<S>, o: Option<&Outcome<S>>) -> Vec<u32> {
    let mut ids = w.c().ids();
    if let Some(o) = o {
        for e in &o.out.elems {
            e.key();
            ids.push(e.id())
        }
        for c in &o.out.others {
            ids.extend(c.ids())
        }
    }
    ids
}
pub fn own_step<S: Seq>(w: &mut World<S>, op: &Op) -> Result<(), String> {
    let o = w.exec(op);
    audit::<S::E>(&mut world_ids(w, Some(&o)), &format!("after {:?}", op))?;
    drop(o);
    audit::<S::E>(&mut world_ids(w, None), &format!("after {:?} and dropping what it returned", op))
}
pub fn own_state<S: Seq>(ctx: &mut Ctx, st: &State, full: bool) {
    ctx.add("traces", 1);
    ctx.run(
        || desc::<S>(&st.hist, &Op::Clear),
        || {
            let mut w = World::<S>::new();
            for op in &st.hist {
                own_step(&mut w, op)?
            }
            drop(w);
            clean::<S::E>("after dropping the container")
        },
    );
    for op in all_ops::<S>(st.len, &st.hist, full) {
        if ctx.stopped() {
            return;
        }
        // both orders of giving up: outputs first, container first
        for first in [true, false] {
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{}, {} dropped first", desc::<S>(&st.hist, &op), if first { "outputs" } else { "container" }),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    if first {
                        own_step(&mut w, &op)?;
                    } else {
                        let o = w.exec(&op);
                        audit::<S::E>(&mut world_ids(&w, Some(&o)), &format!("after {:?}", op))?;
                        w.g.c = S::make();
                        audit::<S::E>(&mut world_ids(&w, Some(&o)), "after dropping the container")?;
                        w.zones()?;
                    }
                    drop(w);
                    clean::<S::E>("after dropping everything")
                },
            );
        }
    }
}
/// A draining iterator that is forgotten may leak, but nothing may be owned twice: not right afterwards, and not after
/// the container was used again.
fn own_forget<S: Seq>(ctx: &mut Ctx, st: &State) {
    for f in 0..=st.len {
        for b in 0..=st.len - f {
            for after in [Op::Clear, Op::PushB, Op::PushF, Op::PopB, Op::PopF, Op::Insert(0), Op::DropR(0), Op::CloneD, Op::Drain(0, 1)] {
                if S::KIND == Kind::Inline && matches!(after, Op::PushF | Op::PopF | Op::DropR(_)) {
                    continue;
                }
                if ctx.stopped() {
                    return;
                }
                ctx.add("transitions", 1);
                ctx.run(
                    || format!("{}, then {:?}", desc::<S>(&st.hist, &Op::Forget(f, b)), after),
                    || {
                        let mut w = World::<S>::build(&st.hist);
                        let owned = |w: &World<S>, os: &[&Outcome<S>], what: &str| {
                            let mut ids = world_ids(w, None);
                            for o in os {
                                o.out.elems.iter().for_each(|e| ids.push(e.id()));
                                o.out.others.iter().for_each(|c| ids.extend(c.ids()));
                            }
                            if has_errs() {
                                return Err(format!("{}: {}", what, take_errs().join("; ")));
                            }
                            if ids.len() as i64 > S::E::live() {
                                return Err(format!("{}: {} elements are alive, {} are owned", what, S::E::live(), ids.len()));
                            }
                            ids.sort();
                            if S::E::IDS && ids.windows(2).any(|x| x[0] == x[1]) {
                                return Err(format!("{}: one element is owned twice", what));
                            }
                            Ok(())
                        };
                        let o = w.exec(&Op::Forget(f, b));
                        if let Some(p) = o.panic {
                            return Err(format!("draining panicked: {}", p));
                        }
                        owned(&w, &[&o], "after forgetting a draining iterator")?;
                        let p = w.exec(&after);
                        owned(&w, &[&o, &p], &format!("after forgetting a draining iterator and {:?}", after))?;
                        drop((o, p, w));
                        if has_errs() {
                            return Err(format!("after dropping everything: {}", take_errs().join("; ")));
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
/// iterators dropped and moved half-used with steps interleaved from both ends
pub fn own_jobs<S: Seq>(jobs: &mut Vec<Job>, reps: usize, shards: usize, full: bool) {
    space_jobs::<S>(jobs, "ownership", reps, shards, move |c, st| {
        own_state::<S>(c, st, full);
        if full {
            own_forget::<S>(c, st)
        }
    });
}
pub fn own_seq_jobs<S: Seq>(jobs: &mut Vec<Job>, depth: usize, shards: usize) {
    for sh in 0..shards {
        jobs.push(Job {
            name: format!("ownership sequences depth {} {} {}/{}", depth, S::name(), sh, shards),
            f: Box::new(move |ctx| {
                ctx.state(0);
                crate::functional::each_sequence::<S>(ctx, depth, sh, shards, &mut |ctx, hist| {
                    ctx.add("traces", 1);
                    ctx.run(
                        || format!("{} sequence {:?}", S::name(), hist),
                        || {
                            let mut w = World::<S>::new();
                            for op in hist {
                                own_step(&mut w, op)?
                            }
                            drop(w);
                            clean::<S::E>("after dropping the container")
                        },
                    );
                })
            }),
        });
    }
}

fn sids<E: Elem, const N: usize>(w: &SWorld<E, N>, o: Option<&SOutcome<E, N>>) -> Vec<u32>
where
    BitsImpl<N>: Bits,
{
    let mut ids = vec![];
    let mut add = |e: &E| {
        e.key();
        ids.push(e.id())
    };
    for i in 0..N {
        w.c().get(i).into_iter().for_each(&mut add)
    }
    if let Some(o) = o {
        o.out.ret.iter().flatten().for_each(&mut add);
        for c in &o.out.others {
            (0..N).filter_map(|i| c.get(i)).for_each(&mut add)
        }
    }
    ids
}
pub fn sown_state<E: Elem, const N: usize>(ctx: &mut Ctx, h: &Vec<SOp>, initial: bool, max: usize)
where
    BitsImpl<N>: Bits,
{
    let (m0, _) = smodel_hist(N, h);
    for op in sops(N, max, m0.len(), initial) {
        if ctx.stopped() {
            return;
        }
        ctx.add("transitions", 1);
        ctx.run(
            || sdesc::<E>(N, h, &op),
            || {
                let mut w = SWorld::<E, N>::build(h);
                let o = w.exec(&op);
                audit::<E>(&mut sids(&w, Some(&o)), &format!("after {:?}", op))?;
                drop(o);
                audit::<E>(&mut sids(&w, None), &format!("after {:?} and dropping what it returned", op))?;
                drop(w);
                clean::<E>("after dropping everything")
            },
        );
    }
}
