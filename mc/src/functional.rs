//! C01/C02/C04: every operation from every reachable state agrees with the reference model.
use crate::elem::Elem;
use crate::harness::{Ctx, Job};
use crate::seq::*;

/// every operation (all arguments) from one state
pub fn check_state<S: Seq>(ctx: &mut Ctx, st: &State, full: bool) {
    let (m0, _) = model_hist::<S>(&st.hist);
    // the state itself: the history conforms step by step, all views agree, writes land in place
    ctx.add("traces", 1);
    ctx.run(
        || format!("{} history {:?}", S::name(), st.hist),
        || {
            let mut w = World::<S>::new();
            let mut m = vec![];
            for op in &st.hist {
                step(&mut w, &mut m, op)?;
            }
            w.cm().views_mut(&m)?;
            // write through every mutable access path
            for i in 0..m.len() {
                if i >= 80 {
                    break;
                }
                let k = 10_000 + i as u32;
                *w.cm().at_mut(i) = S::E::mk(k);
                m[i] = k;
                if m.len() <= 16 || i % 7 == 0 {
                    observe(w.c(), &m).map_err(|e| format!("after writing index {}: {}", i, e))?;
                }
                if let Some(e) = w.cm().try_at_mut(i) {
                    *e = S::E::mk(k + 5000)
                } else {
                    return Err(format!("get_mut({}) is None at length {}", i, m.len()));
                }
                m[i] = k + 5000;
            }
            observe(w.c(), &m)?;
            let n = m.len();
            if n < 80 && w.cm().try_at_mut(n).is_some() {
                return Err(format!("get_mut({}) is Some at length {}", n, n));
            }
            let mut i = 0;
            w.cm().each_mut(&mut |e| {
                *e = S::E::mk(20_000 + i);
                i += 1
            });
            let m: Vec<u32> = (0..n as u32).map(|i| 20_000 + i).collect();
            observe(w.c(), &m).map_err(|e| format!("after writing through iter_mut: {}", e))?;
            w.zones()
        },
    );
    for op in all_ops::<S>(st.len, &st.hist, full) {
        if ctx.stopped() {
            return;
        }
        ctx.add("transitions", 1);
        ctx.run(
            || desc::<S>(&st.hist, &op),
            || {
                let mut w = World::<S>::build(&st.hist);
                let mut m = m0.clone();
                step(&mut w, &mut m, &op)
            },
        );
    }
}

/// all operation sequences of length `depth` from the constructor, without merging states
pub fn each_sequence<S: Seq>(ctx: &mut Ctx, depth: usize, shard: usize, shards: usize, f: &mut dyn FnMut(&mut Ctx, &[Op])) {
    fn go<S: Seq>(
        ctx: &mut Ctx,
        hist: &mut Vec<Op>,
        len: usize,
        depth: usize,
        idx: &mut usize,
        shard: usize,
        shards: usize,
        f: &mut dyn FnMut(&mut Ctx, &[Op]),
    ) {
        for op in seq_ops::<S>(len, hist.is_empty()) {
            if ctx.stopped() {
                return;
            }
            if hist.len() + 1 == depth {
                *idx += 1;
                if *idx % shards != shard {
                    continue;
                }
                hist.push(op);
                f(ctx, hist);
                hist.pop();
            } else {
                let (mut m, next) = model_hist::<S>(hist);
                model(S::KIND, S::cap(), &mut m, &op, next);
                if m.len() > S::maxlen() {
                    continue;
                }
                hist.push(op);
                go::<S>(ctx, hist, m.len(), depth, idx, shard, shards, f);
                hist.pop();
            }
        }
    }
    let mut idx = 0;
    go::<S>(ctx, &mut vec![], 0, depth, &mut idx, shard, shards, f);
}
pub fn sequences<S: Seq>(ctx: &mut Ctx, depth: usize, shard: usize, shards: usize) {
    ctx.state(0);
    each_sequence::<S>(ctx, depth, shard, shards, &mut |ctx, hist| {
        ctx.add("traces", 1);
        ctx.add("sequence_steps", depth as u64);
        ctx.run(
            || format!("{} sequence {:?}", S::name(), hist),
            || {
                let mut w = World::<S>::new();
                let mut m = vec![];
                for op in hist.iter() {
                    step(&mut w, &mut m, op)?
                }
                Ok(())
            },
        );
    });
}
/// in-range operations for unmerged sequences
pub fn seq_ops<S: Seq>(n: usize, initial: bool) -> Vec<Op> {
    let mut v = gen_ops::<S>(n, initial);
    for i in 0..n {
        v.push(Op::Set(i));
        v.push(Op::Consume(i, 0));
        v.push(Op::Swap(0, i));
    }
    v.sort_by_key(|o| format!("{:?}", o));
    v.dedup();
    v
}
pub fn jobs_for<S: Seq>(jobs: &mut Vec<Job>, reps: usize, shards: usize, full: bool) {
    space_jobs::<S>(jobs, "transitions", reps, shards, move |ctx, st| check_state::<S>(ctx, st, full));
}
pub fn seq_jobs_for<S: Seq>(jobs: &mut Vec<Job>, depth: usize, shards: usize) {
    for sh in 0..shards {
        jobs.push(Job {
            name: format!("sequences depth {} {} {}/{}", depth, S::name(), sh, shards),
            f: Box::new(move |ctx| sequences::<S>(ctx, depth, sh, shards)),
        });
    }
}
