//! C18: ordered insertion and binary search.
use crate::elem::*;
use crate::eqs::{build_val, Val};
use crate::harness::{Ctx, Job};
use crate::seq::*;
use array_ops::Array;
use sized_chunks::{Chunk, RingBuffer};
use std::cmp::Ordering;

/// the searches of one container or window; `keys` its contents
macro_rules! searches {
    ($s:expr, $keys:expr, $what:expr, $E:ty) => {{
        let keys: &[u32] = $keys;
        let sorted = keys.windows(2).all(|w| w[0] <= w[1]);
        for t in 0..=top(keys) {
            let t = <$E>::norm(t);
            let e = <$E>::mk(t);
            let all = [
                ("binary_search", $s.binary_search(&e)),
                ("binary_search_by", $s.binary_search_by(|x| x.key().cmp(&t))),
                ("binary_search_by_key", $s.binary_search_by_key(&t, |x| x.key())),
            ];
            for (how, r) in all {
                check(keys, t, r, sorted).map_err(|e| format!("{} {}({}) of {:?}: {}", $what, how, t, keys, e))?
            }
        }
        // searches for a boundary
        for t in 0..=top(keys) {
            if sorted {
                let r = $s.binary_search_by(|x| if x.key() < t { Ordering::Less } else { Ordering::Greater });
                let p = keys.iter().filter(|k| **k < t).count();
                if r != Err(p) {
                    return Err(format!("{}: boundary search for {} of {:?} is {:?}, expected Err({})", $what, t, keys, r, p));
                }
            }
        }
    }};
}
fn top(keys: &[u32]) -> u32 {
    keys.iter().max().map_or(1, |m| m + 1)
}
fn check(keys: &[u32], t: u32, r: Result<usize, usize>, sorted: bool) -> Result<(), String> {
    match r {
        Ok(i) if i >= keys.len() || keys[i] != t => Err(format!("Ok({}), but that is no match", i)),
        Err(i) if sorted && keys.contains(&t) => Err(format!("Err({}), but there is a match", i)),
        Err(i) if i > keys.len() => Err(format!("Err({}) at length {}", i, keys.len())),
        Err(i) if sorted && i != keys.iter().filter(|k| **k < t).count() => Err(format!("Err({}), it would not be sorted there", i)),
        _ => Ok(()),
    }
}
pub trait Search: Seq {
    fn search(&mut self, keys: &[u32], windows: bool) -> Result<(), String>;
}
impl<E: Elem, const N: usize> Search for Chunk<E, N> {
    fn search(&mut self, keys: &[u32], _: bool) -> Result<(), String> {
        searches!(self, keys, "chunk", E);
        Ok(())
    }
}
impl<E: Elem, const N: usize> Search for RingBuffer<E, N> {
    fn search(&mut self, keys: &[u32], windows: bool) -> Result<(), String> {
        searches!(self, keys, "ring buffer", E);
        let n = keys.len();
        let all: Vec<(usize, usize)> =
            if windows { (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect() } else { vec![(0, n), (n.min(1), n), (0, n.saturating_sub(1)), (n / 3, n - n / 3)] };
        for (a, b) in all {
            {
                let s = self.slice(a..b);
                searches!(s, &keys[a..b], format!("window {}..{}", a, b), E);
            }
            let s = self.slice_mut(a..b);
            searches!(s, &keys[a..b], format!("mutable window {}..{}", a, b), E);
            if a < b {
                let (l, r) = self.slice(..).split_at(a);
                searches!(l, &keys[..a], format!("left of split {}", a), E);
                searches!(r, &keys[a..], format!("right of split {}", a), E);
            }
        }
        Ok(())
    }
}
/// contents to try at one length: every sequence over `alpha` odd keys when short, else the sorted ones, else ascending
fn contents(n: usize, alpha: u32, all: usize, some: usize) -> Vec<Vec<u32>> {
    let mut v = vec![];
    if n <= all {
        for code in 0..(alpha as u64).pow(n as u32) {
            let mut c = code;
            v.push(
                (0..n)
                    .map(|_| {
                        let k = (c % alpha as u64) as u32;
                        c /= alpha as u64;
                        2 * k + 1
                    })
                    .collect(),
            )
        }
    } else if n <= some {
        fn go(n: usize, lo: u32, alpha: u32, cur: &mut Vec<u32>, v: &mut Vec<Vec<u32>>) {
            if cur.len() == n {
                return v.push(cur.clone());
            }
            for k in lo..alpha {
                cur.push(2 * k + 1);
                go(n, k, alpha, cur, v);
                cur.pop();
            }
        }
        go(n, 0, alpha, &mut vec![], &mut v);
        v.push((0..n as u32).map(|i| 2 * i + 1).collect());
        v.push((0..n as u32).rev().map(|i| 2 * i + 1).collect());
    } else {
        v.push((0..n as u32).map(|i| 2 * i + 1).collect());
        v.push((0..n as u32).map(|i| 2 * (i / 3) + 1).collect());
        v.push((0..n as u32).map(|i| 2 * (i / (n as u32 / 2).max(1)) + 1).collect());
        v.push((0..n as u32).map(|i| (i * 37) % 64).collect());
    }
    v
}
fn order_state<S: Search>(ctx: &mut Ctx, st: &State, alpha: u32, all: usize, some: usize) {
    for keys in contents(st.len, alpha, all, some) {
        let keys: Vec<u32> = keys.into_iter().map(S::E::norm).collect();
        if ctx.stopped() {
            return;
        }
        let v = Val { hist: st.hist.clone(), keys: keys.clone() };
        ctx.add("transitions", 1 + top(&keys) as u64);
        ctx.add("contents", 1);
        ctx.run(
            || format!("{} history {:?} with contents {:?}: searches", S::name(), st.hist, keys),
            || {
                let mut c = build_val::<S>(&v);
                c.search(&keys, S::cap() <= 8)?;
                observe(&c, &keys)
            },
        );
        let tops = if S::cap() > BIG { marks(top(&keys) as usize, 2 * S::cap()) } else { (0..=top(&keys) as usize).collect() };
        for t in tops.into_iter().map(|t| t as u32) {
            if keys.len() == S::cap() {
                continue;
            }
            ctx.run(
                || format!("{} history {:?} with contents {:?}: insert_ordered({})", S::name(), st.hist, keys, t),
                || {
                    let mut w = World::<S>::of(build_val::<S>(&v), 0);
                    let ids = w.c().ids();
                    let e = S::E::mk(t);
                    let id = e.id();
                    w.cm().insert_sorted(e);
                    let now = w.c().keys();
                    // exactly one more, the others in order
                    if now.len() != keys.len() + 1 || w.c().length() != now.len() {
                        return Err(format!("{:?} became {:?}", keys, now));
                    }
                    let p = if S::E::IDS {
                        let n = w.c().ids();
                        let p = n.iter().position(|i| *i == id).ok_or("the new element is not there")?;
                        let mut rest = n.clone();
                        rest.remove(p);
                        if rest != ids {
                            return Err(format!("the other elements were reordered or lost: {:?} became {:?}", ids, n));
                        }
                        p
                    } else {
                        (0..now.len())
                            .find(|p| {
                                let mut r = now.clone();
                                r.remove(*p) == S::E::norm(t) && r == keys
                            })
                            .ok_or(format!("{:?} became {:?}", keys, now))?
                    };
                    let mut exp = keys.clone();
                    exp.insert(p, t);
                    observe(w.c(), &exp)?;
                    if keys.windows(2).all(|w| w[0] <= w[1]) && !now.windows(2).all(|w| w[0] <= w[1]) {
                        return Err(format!("no longer sorted: {:?}", now));
                    }
                    w.zones()?;
                    drop(w);
                    if S::E::TRACKED {
                        crate::ownership::clean::<S::E>("after dropping everything")?
                    }
                    Ok(())
                },
            );
        }
    }
}
/// n values inserted in every order into an empty container with the given start state
fn order_sequences<S: Search>(ctx: &mut Ctx, st: &State, alpha: u32) {
    if st.len != 0 {
        return;
    }
    let n = S::cap().min(6);
    for code in 0..(alpha as u64).pow(n as u32) {
        if ctx.stopped() {
            return;
        }
        let keys: Vec<u32> = (0..n).map(|i| (code / (alpha as u64).pow(i as u32) % alpha as u64) as u32).collect();
        ctx.add("traces", 1);
        ctx.run(
            || format!("{} history {:?}: insert_ordered of {:?} in turn", S::name(), st.hist, keys),
            || {
                let mut w = World::<S>::build(&st.hist);
                let mut m = vec![];
                for k in &keys {
                    w.cm().insert_sorted(S::E::mk(*k));
                    m.push(*k);
                    m.sort();
                    observe(w.c(), &m)?;
                }
                w.zones()
            },
        );
    }
}
pub fn order_jobs<S: Search>(jobs: &mut Vec<Job>, reps: usize, shards: usize, alpha: u32, all: usize, some: usize) {
    space_jobs::<S>(jobs, "order", reps, shards, move |c, s| {
        order_state::<S>(c, s, alpha, all, some);
        if S::cap() <= 8 {
            order_sequences::<S>(c, s, 4)
        }
    });
}
