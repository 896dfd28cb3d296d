//! C15: byte chunks and ring buffers as FIFO byte streams.
use crate::harness::{guard, Ctx, Job};
use crate::seq::*;
use sized_chunks::{Chunk, RingBuffer};
use std::collections::VecDeque;
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BOp {
    W(usize),
    /// through write_all / by reference / flush before and after
    WAll(usize),
    /// write of several buffers at once
    WVec(usize, usize),
    R(usize),
    RExact(usize),
    RToEnd,
    /// reading one byte at a time until nothing comes
    RBytes(usize),
    Other(Op),
}
use BOp::*;
pub trait Stream: Seq<E = u8> + Read + Write {}
impl<const N: usize> Stream for Chunk<u8, N> {}
impl<const N: usize> Stream for RingBuffer<u8, N> {}

fn next_bytes(n: &mut u32, k: usize) -> Vec<u8> {
    let v = (0..k as u32).map(|i| ((*n + i) % 251) as u8).collect();
    *n += k as u32;
    v
}
/// one operation on the stream and on the model; `next`: the next byte value
pub fn bstep<S: Stream>(w: &mut World<S>, m: &mut VecDeque<u8>, next: &mut u32, op: &BOp) -> Result<(), String> {
    let room = S::cap() - m.len();
    let say = |e: std::io::Error| format!("{:?} failed: {}", op, e);
    match *op {
        W(k) => {
            let v = next_bytes(next, k);
            let r = guard(|| w.cm().write(&v)).map_err(|p| format!("{:?} panicked: {}", op, p))?.map_err(say)?;
            if r != k.min(room) {
                return Err(format!("{:?} returned {}, {} bytes are free", op, r, room));
            }
            m.extend(&v[..r]);
        }
        WVec(a, b) => {
            let (x, y) = (next_bytes(next, a), next_bytes(next, b));
            let r = guard(|| w.cm().write_vectored(&[std::io::IoSlice::new(&x), std::io::IoSlice::new(&y)]))
                .map_err(|p| format!("{:?} panicked: {}", op, p))?
                .map_err(say)?;
            if r > room || r > a + b {
                return Err(format!("{:?} returned {}, {} bytes are free", op, r, room));
            }
            m.extend(x.iter().chain(&y).take(r));
        }
        WAll(k) => {
            let v = next_bytes(next, k);
            let r = guard(|| {
                let mut c: &mut S = w.cm();
                c.flush()?;
                let r = (&mut c).write_all(&v);
                c.flush()?;
                r
            })
            .map_err(|p| format!("{:?} panicked: {}", op, p))?;
            m.extend(&v[..k.min(room)]);
            if r.is_ok() != (k <= room) {
                return Err(format!("{:?} is {:?} with {} bytes free", op, r, room));
            }
        }
        R(k) => {
            let mut v = vec![0xEE; k];
            let r = guard(|| w.cm().read(&mut v)).map_err(|p| format!("{:?} panicked: {}", op, p))?.map_err(say)?;
            if r != k.min(m.len()) {
                return Err(format!("{:?} returned {}, {} bytes are there", op, r, m.len()));
            }
            let want: Vec<u8> = m.drain(..r).collect();
            if v[..r] != want[..] {
                return Err(format!("{:?} gave {:?}, expected {:?}", op, v, want));
            }
        }
        RExact(k) => {
            let mut v = vec![0xEE; k];
            let r = guard(|| w.cm().read_exact(&mut v)).map_err(|p| format!("{:?} panicked: {}", op, p))?;
            let want: Vec<u8> = m.drain(..k.min(m.len())).collect();
            if r.is_ok() != (want.len() == k) || v[..want.len()] != want[..] {
                return Err(format!("{:?} is {:?} and gave {:?}, expected {:?}", op, r, v, want));
            }
        }
        RToEnd => {
            let mut v = vec![1, 2];
            let r = guard(|| w.cm().read_to_end(&mut v)).map_err(|p| format!("{:?} panicked: {}", op, p))?.map_err(say)?;
            let want: Vec<u8> = [1, 2].into_iter().chain(m.drain(..)).collect();
            if v != want || r != want.len() - 2 {
                return Err(format!("{:?} returned {} and gave {:?}, expected {:?}", op, r, v, want));
            }
        }
        RBytes(k) => {
            let got = guard(|| Read::by_ref(w.cm()).bytes().take(k).collect::<Result<Vec<u8>, _>>()).map_err(|p| format!("{:?} panicked: {}", op, p))?.map_err(say)?;
            let want: Vec<u8> = m.drain(..k.min(m.len())).collect();
            if got != want {
                return Err(format!("{:?} gave {:?}, expected {:?}", op, got, want));
            }
        }
        Other(o) => {
            let mut keys: Vec<u32> = m.iter().map(|b| *b as u32).collect();
            w.next = *next;
            step(w, &mut keys, &o)?;
            *next = w.next;
            *m = keys.iter().map(|k| (*k % 251) as u8).collect();
        }
    }
    observe(w.c(), &m.iter().map(|b| *b as u32).collect::<Vec<_>>()).map_err(|e| format!("after {:?}: {}", op, e))?;
    w.zones()
}
fn sizes(cap: usize, n: usize) -> Vec<usize> {
    if cap <= 20 {
        return (0..=cap + 3).collect();
    }
    let mut v = vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, (cap - n) / 2, (cap - n).saturating_sub(1), cap - n, cap - n + 1, cap, cap + 1, 1000];
    if cap > BIG {
        v.extend(marks(cap, cap))
    }
    v.sort();
    v.dedup();
    v
}
pub fn bops(cap: usize, n: usize) -> Vec<BOp> {
    let mut v = vec![];
    for k in sizes(cap, n) {
        v.extend([W(k), WAll(k), R(k), RExact(k), RBytes(k), WVec(k, 2), WVec(1, k)]);
    }
    v.push(RToEnd);
    v
}
/// from one state: every operation, then every operation (depth 2) or a full read
pub fn byte_state<S: Stream>(ctx: &mut Ctx, st: &State, depth2: bool) {
    for op in bops(S::cap(), st.len) {
        if ctx.stopped() {
            return;
        }
        let second = if depth2 { [W(1), W(S::cap()), R(1), R(2), RToEnd, Other(Op::PushB), Other(Op::PopF), Other(Op::PopB), Other(Op::PushF), Other(Op::CloneK)].to_vec() } else { vec![W(1), RToEnd] };
        for op2 in second {
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} history {:?} then {:?}, {:?}", S::name(), st.hist, op, op2),
                || {
                    let mut w = World::<S>::build(&st.hist);
                    let mut m: VecDeque<u8> = w.c().keys().iter().map(|k| *k as u8).collect();
                    let mut next = w.next;
                    bstep(&mut w, &mut m, &mut next, &op)?;
                    let skip = match op2 {
                        Other(Op::PushB) | Other(Op::PushF) => m.len() == S::cap(),
                        Other(Op::PopF) | Other(Op::PopB) => m.is_empty(),
                        _ => false,
                    };
                    if !skip {
                        bstep(&mut w, &mut m, &mut next, &op2)?;
                    }
                    bstep(&mut w, &mut m, &mut next, &W(S::cap()))?;
                    bstep(&mut w, &mut m, &mut next, &RToEnd)
                },
            );
        }
    }
}
/// every sequence of reads, writes and other operations up to a depth
pub fn byte_sequences<S: Stream>(ctx: &mut Ctx, depth: usize, shard: usize, shards: usize) {
    fn go<S: Stream>(ctx: &mut Ctx, h: &mut Vec<BOp>, n: usize, d: usize, idx: &mut usize, sh: usize, shards: usize) {
        let cap = S::cap();
        let mut ops: Vec<(BOp, usize)> = vec![];
        for k in 0..=cap + 1 {
            ops.push((W(k), n + k.min(cap - n)));
            ops.push((R(k), n - k.min(n)));
        }
        if n < cap {
            ops.push((Other(Op::PushB), n + 1));
            ops.push((Other(Op::PushF), n + 1));
        }
        if n > 0 {
            ops.push((Other(Op::PopB), n - 1));
            ops.push((Other(Op::PopF), n - 1));
        }
        ops.push((Other(Op::CloneK), n));
        for i in 1..n {
            ops.push((Other(Op::SplitR(i)), n - i));
            ops.push((Other(Op::Remove(i)), n - 1));
        }
        for (op, n2) in ops {
            if ctx.stopped() {
                return;
            }
            h.push(op);
            if h.len() == d {
                *idx += 1;
                if *idx % shards == sh {
                    ctx.add("traces", 1);
                    ctx.run(
                        || format!("{} sequence {:?}", S::name(), h),
                        || {
                            let mut w = World::<S>::new();
                            let (mut m, mut next) = (VecDeque::new(), 0);
                            for op in h.iter() {
                                bstep(&mut w, &mut m, &mut next, op)?
                            }
                            Ok(())
                        },
                    );
                }
            } else {
                go::<S>(ctx, h, n2, d, idx, sh, shards)
            }
            h.pop();
        }
    }
    ctx.state(0);
    go::<S>(ctx, &mut vec![], 0, depth, &mut 0, shard, shards)
}
pub fn byte_jobs<S: Stream>(jobs: &mut Vec<Job>, reps: usize, shards: usize, depth2: bool) {
    space_jobs::<S>(jobs, "streams", reps, shards, move |c, s| byte_state::<S>(c, s, depth2));
}
pub fn byte_seq_jobs<S: Stream>(jobs: &mut Vec<Job>, depth: usize, shards: usize) {
    for sh in 0..shards {
        jobs.push(Job { name: format!("stream sequences depth {} {} {}/{}", depth, S::name(), sh, shards), f: Box::new(move |c| byte_sequences::<S>(c, depth, sh, shards)) });
    }
}
