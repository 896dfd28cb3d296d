//! C09: moving elements between two containers, all ordered pairs of layouts, all counts.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::refusal::usable;
use crate::seq::*;
use Op::*;

/// (keys, ids) as seen
fn look<S: Seq>(c: &S) -> Vec<(u32, u32)> {
    let mut v = vec![];
    c.each(&mut |e| {
        v.push((e.key(), e.id()));
        assert!(v.len() < 1 << 18)
    });
    v
}
fn same<S: Seq>(c: &S, exp: &[(u32, u32)], what: &str) -> Result<(), String> {
    let got = look(c);
    if got != exp || c.length() != exp.len() {
        return Err(format!("{} holds {:?} (length {}), expected {:?}", what, keys(&got), c.length(), keys(exp)));
    }
    Ok(())
}
fn keys(v: &[(u32, u32)]) -> Vec<u32> {
    v.iter().map(|x| x.0).collect()
}
pub fn pair_state<S: Seq>(ctx: &mut Ctx, sp: &[State], a: &State, all: bool) {
    // at large capacities a few sources for each target, different ones for neighbouring targets
    let big = S::maxlen() > BIG;
    let stride = if big { (sp.len() / 24).max(1) } else { 1 };
    for b in sp.iter().skip(a.key.0 % stride).step_by(stride) {
        let (na, nb, cap) = (a.len, b.len, S::cap());
        let room = cap - na;
        let mut ops = vec![];
        if nb <= room {
            ops.push(Append(0));
        }
        let top = nb.min(room);
        for c in 0..=top {
            if (all && !big) || (big && marks(top, cap).contains(&c)) || (!big && [0, 1, 2, top / 2, top.saturating_sub(1), top].contains(&c)) {
                ops.push(DrainFF(0, c));
                ops.push(DrainFB(0, c));
            }
        }
        for op in ops {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} target history {:?}, source history {:?}: {:?}", S::name(), a.hist, b.hist, op),
                || {
                    let mut x = World::<S>::build(&a.hist);
                    let mut y = World::<S>::new();
                    y.next = x.next;
                    for op in &b.hist {
                        y.exec(op);
                    }
                    x.next = y.next;
                    let (mut ex, mut ey) = (look(x.c()), look(y.c()));
                    if let Err(p) = guard(|| x.g.c.transfer_from(&mut y.g.c, &op)) {
                        return Err(format!("{:?} panicked: {}", op, p));
                    }
                    match op {
                        Append(_) => ex.append(&mut ey),
                        DrainFF(_, c) => ex.extend(ey.drain(..c)),
                        DrainFB(_, c) => {
                            let t = ey.split_off(ey.len() - c);
                            ex.splice(0..0, t);
                        }
                        _ => unreachable!(),
                    }
                    same(x.c(), &ex, "target")?;
                    same(y.c(), &ey, "source")?;
                    x.zones()?;
                    y.zones()?;
                    if cap <= 4 {
                        usable(&mut x, &keys(&ex)).map_err(|e| format!("target {}", e))?;
                        usable(&mut y, &keys(&ey)).map_err(|e| format!("source {}", e))?;
                    } else {
                        // the ends work
                        let mut m = keys(&ey);
                        for op in [PushF, PopB, PushB] {
                            let skip = match op {
                                PopB => m.is_empty(),
                                _ => m.len() == cap,
                            };
                            if !skip {
                                step(&mut y, &mut m, &op).map_err(|e| format!("source not usable afterwards: {}", e))?
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
/// moves out of one container: split_off, from_front, from_back, drain_from
pub fn single_state<S: Seq>(ctx: &mut Ctx, st: &State) {
    let mut ops = vec![];
    for i in if S::maxlen() > BIG { marks(st.len, S::cap()) } else { (0..=st.len).collect() } {
        ops.extend([SplitL(i)]);
        if S::KIND != Kind::Inline {
            ops.extend([TakeF(i), TakeB(i)]);
        }
    }
    if S::KIND != Kind::Inline {
        ops.push(TakeAll);
    }
    for op in ops {
        if ctx.stopped() {
            return;
        }
        ctx.add("transitions", 1);
        ctx.run(
            || desc::<S>(&st.hist, &op),
            || {
                let mut w = World::<S>::build(&st.hist);
                let mut before = look(w.c());
                let o = w.exec(&op);
                if let Some(p) = o.panic {
                    return Err(format!("{:?} panicked: {}", op, p));
                }
                let (rest, taken) = match op {
                    SplitL(i) => {
                        let t = before.split_off(i);
                        (before, t)
                    }
                    TakeF(c) => {
                        let r = before.split_off(c);
                        (r, before)
                    }
                    TakeB(c) => {
                        let t = before.split_off(before.len() - c);
                        (before, t)
                    }
                    _ => (vec![], before),
                };
                same(w.c(), &rest, "the container")?;
                let Some(c) = o.out.others.into_iter().next() else { return Err("nothing returned".into()) };
                same(&c, &taken, "the returned container")?;
                w.zones()?;
                let mut x = World::<S>::new();
                x.next = w.next + 100;
                x.g.c = c;
                usable(&mut x, &keys(&taken)).map_err(|e| format!("the returned container is {}", e))?;
                usable(&mut w, &keys(&rest)).map_err(|e| format!("the container is {}", e))
            },
        );
    }
}
pub fn move_jobs<S: Seq>(jobs: &mut Vec<Job>, reps: usize, shards: usize, all: bool) {
    pair_jobs::<S>(jobs, "transfers", reps, shards, move |c, sp, a| pair_state::<S>(c, sp, a, all));
    space_jobs::<S>(jobs, "moves out", reps.max(3), shards, single_state::<S>);
}
