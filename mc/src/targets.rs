//! C26: every operation from every layout, compared with the model in a way an abstract machine can afford.
use crate::elem::*;
use crate::harness::*;
use crate::iters::{BoxIt, Iters};
use crate::seq::*;
use crate::sparse::*;
use crate::ub;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::sparse_chunk::SparseChunk;

fn contents<S: Seq>(c: &S, m: &[u32], what: &str) -> Result<(), String> {
    let mut got = vec![];
    c.each(&mut |e| got.push(e.key()));
    let want: Vec<u32> = m.iter().map(|k| S::E::norm(*k)).collect();
    let n = m.len();
    if got != want || c.length() != n || c.empty() != (n == 0) || c.full() != (n == S::cap()) {
        return Err(format!("{}: contents {:?}, length {}, empty {}, full {}; expected {:?}", what, got, c.length(), c.empty(), c.full(), want));
    }
    if (0..n).any(|i| c.try_at(i).map(|e| e.key()) != Some(want[i])) || c.try_at(n).is_some() {
        return Err(format!("{}: lookups by index do not give {:?}", what, want));
    }
    Ok(())
}
fn lean_case<S: Seq>(h: &[Op], op: &Op) -> Result<(), String> {
    let (mut c, base) = ub::build::<S>(h);
    let mut m = vec![];
    for (i, op) in h.iter().enumerate() {
        model(S::KIND, S::cap(), &mut m, op, 100 * i as u32);
    }
    let mut out = Out::default();
    let refused = guard(|| c.exec(op, base, &mut out)).err();
    let x = model(S::KIND, S::cap(), &mut m, op, base);
    match (&refused, x.refuse) {
        (Some(p), false) => return Err(format!("panicked: {}", p)),
        (None, true) => return Err("not refused".into()),
        _ => {}
    }
    contents(&c, &m, "afterwards")?;
    if refused.is_none() {
        let got: Vec<u32> = out.elems.iter().map(|e| e.key()).collect();
        let want: Vec<u32> = x.elems.iter().map(|k| S::E::norm(*k)).collect();
        if got != want {
            return Err(format!("returned {:?}, expected {:?}", got, want));
        }
        for (d, e) in out.others.iter().zip(&x.others) {
            contents(d, e, "other container")?
        }
    }
    // it goes on
    if m.len() < S::maxlen() {
        c.push(S::E::mk(90));
        m.push(90)
    } else if !m.is_empty() {
        c.exec(&Op::PopB, 0, &mut out);
        m.pop();
    }
    contents(&c, &m, "one step later")
}
fn bits() -> u32 {
    usize::BITS
}
fn extremes<S: Seq>(n: usize) -> Vec<Op> {
    use Op::*;
    let mut v = vec![];
    for x in [usize::MAX, usize::MAX - 1, 1usize << (bits() - 1), (1usize << (bits() - 1)) - 1, 1usize << (bits() / 2)] {
        if x <= n + 1 || x <= S::maxlen() + 1 {
            continue;
        }
        v.extend([Insert(x), Remove(x), SplitL(x), Set(x)]);
        if S::KIND != Kind::Inline {
            v.extend([DropL(x), DropR(x), TakeF(x), InsFrom(x, 1)]);
        }
    }
    v
}
pub fn lean_jobs<S: Seq>(jobs: &mut Vec<Job>, full: bool) {
    for i in 0..ub::layouts::<S>() {
        jobs.push(Job {
            name: format!("operations {}", S::name()),
            f: Box::new(move |ctx| {
                ctx.state(i);
                ctx.add("states", 1);
                let h = ub::layout::<S>(i);
                let n = model_hist::<S>(&h).0.len();
                ctx.run(
                    || format!("{} history {:?}", S::name(), h),
                    || {
                        let (mut c, _) = ub::build::<S>(&h);
                        let mut m = vec![];
                        for (i, op) in h.iter().enumerate() {
                            model(S::KIND, S::cap(), &mut m, op, 100 * i as u32);
                        }
                        observe(&c, &m)?;
                        c.views(&m)?;
                        c.views_mut(&m)
                    },
                );
                let mut ops = all_ops::<S>(n, if h.len() <= 1 { &[] } else { &h }, full);
                ops.extend(extremes::<S>(n));
                for op in ops {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.add("transitions", 1);
                    ctx.run(|| desc::<S>(&h, &op), || lean_case::<S>(&h, &op));
                }
            }),
        })
    }
}
pub fn lean_sparse<E: Elem, const N: usize>(jobs: &mut Vec<Job>, max: usize)
where
    BitsImpl<N>: Bits,
{
    for (i, h) in sstates(N, max, 1).into_iter().enumerate() {
        jobs.push(Job {
            name: format!("operations SparseChunk<{},{}>", E::NAME, N),
            f: Box::new(move |ctx| {
                ctx.state(i);
                ctx.add("states", 1);
                let (m, _) = smodel_hist(N, &h);
                for op in sops(N, max, m.len(), i == 0) {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.add("transitions", 1);
                    ctx.run(|| sdesc::<E>(N, &h, &op), || sparse_case::<E, N>(&h, &op));
                }
            }),
        })
    }
}
fn sparse_contents<E: Elem, const N: usize>(c: &SparseChunk<E, N>, m: &M, what: &str) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    let got: Vec<(usize, u32)> = c.entries().map(|(i, e)| (i, e.key())).collect();
    let want: Vec<(usize, u32)> = m.iter().map(|(i, k)| (*i, E::norm(*k))).collect();
    if got != want || c.len() != want.len() || c.is_empty() != want.is_empty() || c.is_full() != (want.len() == N) {
        return Err(format!("{}: entries {:?}, length {}; expected {:?}", what, got, c.len(), want));
    }
    if want.iter().any(|(i, k)| c.get(*i).map(|e| e.key()) != Some(*k)) || c.get(N).is_some() || c.first_index() != want.first().map(|e| e.0) {
        return Err(format!("{}: lookups do not give {:?}", what, want));
    }
    Ok(())
}
fn sparse_case<E: Elem, const N: usize>(h: &[SOp], op: &SOp) -> Result<(), String>
where
    BitsImpl<N>: Bits,
{
    let mut w = SWorld::<E, N>::build(h);
    let (mut m, _) = smodel_hist(N, h);
    let o = w.exec(op);
    let x = smodel(N, &mut m, op, o.base);
    match (&o.panic, x.refuse) {
        (Some(p), false) => return Err(format!("panicked: {}", p)),
        (None, true) => return Err("not refused".into()),
        _ => {}
    }
    sparse_contents(w.cm(), &m, "afterwards")?;
    if !x.refuse {
        let got: Vec<Option<u32>> = o.out.ret.iter().map(|e| e.as_ref().map(|e| e.key())).collect();
        let want: Vec<Option<u32>> = x.ret.iter().map(|k| k.map(E::norm)).collect();
        if got != want {
            return Err(format!("returned {:?}, expected {:?}", got, want));
        }
        for (c, m) in o.out.others.iter().zip(&x.others) {
            sparse_contents(c, m, "other container")?
        }
    }
    Ok(())
}
/// the element counter of an array of bytes, filled and emptied past the limits of one and two bytes
pub fn counter_job<T: 'static>(jobs: &mut Vec<Job>) {
    use sized_chunks::InlineArray;
    let cap = InlineArray::<u8, T>::CAPACITY;
    for n in [1, 127, 128, 255, 256, 257, 65535, 65536, cap] {
        if n > cap {
            continue;
        }
        jobs.push(Job {
            name: format!("counter of {}", std::any::type_name::<T>()),
            f: Box::new(move |ctx| {
                ctx.state(n);
                ctx.add("states", 1);
                ctx.add("transitions", 6);
                ctx.run(
                    || format!("{} bytes in an InlineArray of capacity {}", n, cap),
                    || {
                        let v: Vec<u8> = vec![3; n - 1];
                        let mut a = InlineArray::<u8, T>::new();
                        // all at once where the array is long
                        if n < 300 {
                            v.iter().for_each(|b| a.push(*b))
                        } else {
                            a = Box::leak(Box::new(v)).iter().copied().collect()
                        }
                        let is = |a: &InlineArray<u8, T>, n: usize, what: &str| {
                            if a.len() != n || a.is_full() != (n == cap) || a.as_ref().len() != n || a.get(n).is_some() {
                                return Err(format!("{}: length {}, expected {}", what, a.len(), n));
                            }
                            Ok(())
                        };
                        is(&a, n - 1, "before")?;
                        a.push(5);
                        is(&a, n, "push")?;
                        if a[n - 1] != 5 || a[n / 2] != if n / 2 == n - 1 { 5 } else { 3 } {
                            return Err("the elements are not those put in".into());
                        }
                        if a.pop() != Some(5) {
                            return Err("pop gave another element".into());
                        }
                        is(&a, n - 1, "pop")?;
                        a.insert(n - 1, 7);
                        is(&a, n, "insert")?;
                        let b = a.split_off(n - 1);
                        is(&a, n - 1, "split")?;
                        is(&b, 1, "split off")
                    },
                );
            }),
        })
    }
}
fn built<S: Seq>(h: &[Op]) -> (S, Vec<u32>) {
    let mut m = vec![];
    for (i, op) in h.iter().enumerate() {
        model(S::KIND, S::cap(), &mut m, op, 100 * i as u32);
    }
    (ub::build::<S>(h).0, m)
}
/// `word` bit by bit: from the back or from the front, one call past the end
fn walk<T>(mut it: BoxIt<'_, T>, word: u32, m: &[u32], norm: fn(u32) -> u32, key: impl Fn(T) -> u32, what: &str) -> Result<(), String> {
    let (mut a, mut b) = (0, m.len());
    for k in 0..=m.len() {
        let back = word >> k & 1 == 1;
        let want = if a == b {
            None
        } else if back {
            b -= 1;
            Some(norm(m[b]))
        } else {
            a += 1;
            Some(norm(m[a - 1]))
        };
        let got = if back { it.b() } else { it.f() }.map(&key);
        if got != want {
            return Err(format!("{}: call {} (from the back: {}) gives {:?}, expected {:?}", what, k, back, got, want));
        }
        if it.exact() != Some(b - a) || it.hint() != (b - a, Some(b - a)) {
            return Err(format!("{}: after {} calls the length is {:?}, size hint {:?}, expected {}", what, k + 1, it.exact(), it.hint(), b - a));
        }
    }
    Ok(())
}
/// every iterator of every layout, consumed in every order of ends
pub fn lean_iters<S: Iters>(jobs: &mut Vec<Job>) {
    for i in 0..ub::layouts::<S>() {
        jobs.push(Job {
            name: format!("iterators {}", S::name()),
            f: Box::new(move |ctx| {
                ctx.state(i);
                ctx.add("states", 1);
                let h = ub::layout::<S>(i);
                let n = built::<S>(&h).1.len();
                for word in 0..1u32 << (n + 1) {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.add("transitions", 4);
                    ctx.run(
                        || format!("{} history {:?} iterated, ends {:#b}", S::name(), h, word),
                        || {
                            let (mut c, m) = built::<S>(&h);
                            walk(c.shared(0).unwrap(), word, &m, S::E::norm, |e| e.key(), "iter")?;
                            walk(c.muts(0).unwrap(), word, &m, S::E::norm, |e| e.key(), "iter_mut")?;
                            walk(built::<S>(&h).0.owned(), word, &m, S::E::norm, |e| e.key(), "into_iter")?;
                            walk(c.draining(), word, &m, S::E::norm, |e| e.key(), "drain")?;
                            contents(&c, &[], "after drain")
                        },
                    );
                }
            }),
        })
    }
}
/// every pair of layouts with every way for their contents to differ in one place
pub fn lean_pairs<S: Seq + Eq + Ord + std::hash::Hash>(jobs: &mut Vec<Job>) {
    for i in 0..ub::layouts::<S>() {
        jobs.push(Job {
            name: format!("pairs {}", S::name()),
            f: Box::new(move |ctx| {
                ctx.state(i);
                ctx.add("states", 1);
                let h = ub::layout::<S>(i);
                for j in 0..ub::layouts::<S>() {
                    let g = ub::layout::<S>(j);
                    let k = built::<S>(&g).1.len();
                    for p in 0..=2 * k {
                        if ctx.stopped() {
                            return;
                        }
                        ctx.add("transitions", 3);
                        ctx.run(
                            || format!("{} history {:?} against history {:?}, difference {}", S::name(), h, g, p),
                            || {
                                let ((mut a, m), (mut b, n)) = (built::<S>(&h), built::<S>(&g));
                                // the numbers of the elements are those of their places, one of them is not
                                let key = |i: usize| 3 * i as u32 + 70000;
                                (0..m.len()).for_each(|i| *a.at_mut(i) = S::E::mk(key(i)));
                                (0..n.len()).for_each(|i| *b.at_mut(i) = S::E::mk(key(i)));
                                let x: Vec<S::E> = (0..m.len()).map(|i| S::E::mk(key(i))).collect();
                                let mut y: Vec<S::E> = (0..n.len()).map(|i| S::E::mk(key(i))).collect();
                                if p > 0 {
                                    let d = if p % 2 == 0 { key(p / 2 - 1) + 1 } else { key(p / 2) - 1 };
                                    *b.at_mut((p - 1) / 2) = S::E::mk(d);
                                    y[(p - 1) / 2] = S::E::mk(d);
                                }
                                let (got, want) = ((a == b, a.cmp(&b), a.partial_cmp(&b)), (x == y, x.cmp(&y), x.partial_cmp(&y)));
                                if got != want {
                                    return Err(format!("==, cmp, partial_cmp give {:?}, expected {:?}", got, want));
                                }
                                let hash = |c: &S| {
                                    let mut s = ub::Sum(0);
                                    c.hash(&mut s);
                                    s.0
                                };
                                if x == y && hash(&a) != hash(&b) {
                                    return Err("equal values hash differently".into());
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }),
        })
    }
}
/// every window of every layout of a ring buffer
pub fn lean_windows<E: Elem, const N: usize>(jobs: &mut Vec<Job>) {
    use array_ops::{Array, ArrayMut, HasLength};
    type R<E, const N: usize> = sized_chunks::RingBuffer<E, N>;
    for i in 0..ub::layouts::<R<E, N>>() {
        jobs.push(Job {
            name: format!("windows {}", R::<E, N>::name()),
            f: Box::new(move |ctx| {
                ctx.state(i);
                let h = ub::layout::<R<E, N>>(i);
                let n = built::<R<E, N>>(&h).1.len();
                for (a, b) in (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))) {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.add("states", 1);
                    ctx.add("transitions", 2);
                    ctx.run(
                        || format!("{} history {:?} window {}..{}", R::<E, N>::name(), h, a, b),
                        || {
                            let (mut c, mut m) = built::<R<E, N>>(&h);
                            {
                                let w = &m[a..b];
                                let s = c.slice(a..b);
                                let is = |s: &sized_chunks::ring_buffer::Slice<E, N>, w: &[u32], what: &str| {
                                    let got: Vec<u32> = s.iter().map(|e| e.key()).collect();
                                    let want: Vec<u32> = w.iter().map(|k| E::norm(*k)).collect();
                                    let ends = (s.first().map(|e| e.key()), s.last().map(|e| e.key()));
                                    let at: Vec<u32> = (0..w.len()).map(|i| s[i].key()).collect();
                                    if got != want || at != want || s.len() != w.len() || s.is_empty() != w.is_empty() || s.get(w.len()).is_some() {
                                        return Err(format!("{}: {:?} (by index {:?}), length {}; expected {:?}", what, got, at, s.len(), want));
                                    }
                                    if ends != (want.first().copied(), want.last().copied()) {
                                        return Err(format!("{}: ends {:?}, expected {:?}", what, ends, want));
                                    }
                                    Ok(())
                                };
                                is(&s, w, "window")?;
                                for i in 0..=w.len() {
                                    let (l, r) = s.clone().split_at(i);
                                    is(&l, &w[..i], "left")?;
                                    is(&r, &w[i..], "right")?;
                                    is(&s.clone().slice(i..), &w[i..], "window of the window")?;
                                }
                                contents(&s.to_owned(), w, "to_owned")?;
                            }
                            for (i, k) in (0..b - a).zip([501, 502, 503, 504]) {
                                c.slice_mut(a..b)[i] = E::mk(k);
                                m[a + i] = k;
                            }
                            contents(&c, &m, "after writes by index")?;
                            if b > a + 1 {
                                ArrayMut::swap(&mut c.slice_mut(a..b), 0, b - a - 1);
                                m.swap(a, b - 1);
                                contents(&c, &m, "after a swap")?;
                            }
                            for (e, k) in c.slice_mut(a..b).iter_mut().zip([601, 602, 603, 604]) {
                                *e = E::mk(k)
                            }
                            (a..b).zip([601, 602, 603, 604]).for_each(|(i, k)| m[i] = k);
                            contents(&c, &m, "after writes by iteration")
                        },
                    );
                }
            }),
        })
    }
}
/// every array into a chunk
pub fn lean_convert<E: Elem, T: 'static, const N: usize>(jobs: &mut Vec<Job>) {
    use sized_chunks::{Chunk, InlineArray};
    jobs.push(Job {
        name: format!("conversion {} to Chunk of {}", InlineArray::<E, T>::name(), N),
        f: Box::new(|ctx| {
            for i in 0..ub::layouts::<InlineArray<E, T>>() {
                ctx.state(i);
                ctx.add("states", 1);
                let h = ub::layout::<InlineArray<E, T>>(i);
                if built::<InlineArray<E, T>>(&h).1.len() > N {
                    continue;
                }
                for by_ref in [false, true] {
                    ctx.add("transitions", 1);
                    ctx.run(
                        || format!("{} history {:?} into a Chunk of {} (by reference: {})", InlineArray::<E, T>::name(), h, N, by_ref),
                        || {
                            let (mut a, m) = built::<InlineArray<E, T>>(&h);
                            if by_ref {
                                contents(&Chunk::<E, N>::from(&mut a), &m, "chunk")?;
                                contents(&a, &[], "array afterwards")
                            } else {
                                contents(&Chunk::<E, N>::from(a), &m, "chunk")
                            }
                        },
                    );
                }
            }
        }),
    })
}
