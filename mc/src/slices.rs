//! C12: every window of every ring buffer layout, made by every nesting of ranges and splits.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::iters::*;
use crate::refusal::{bounds, resolve};
use crate::seq::*;
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::ring_buffer::{Slice, SliceMut};
use sized_chunks::RingBuffer;
use std::collections::hash_map::DefaultHasher;
use std::collections::VecDeque;
use std::hash::{Hash, Hasher};
use std::ops::Bound;

#[derive(Clone, Copy, Debug)]
pub enum Cut {
    /// the whole buffer, by From
    From,
    Sl(Bound<usize>, Bound<usize>),
    L(usize),
    R(usize),
}
use Cut::*;
fn cuts(n: usize) -> Vec<(Cut, usize, usize)> {
    let mut v: Vec<(Cut, usize, usize)> = bounds(n).into_iter().filter_map(|b| resolve(n, &b).map(|(s, e)| (Sl(b.0, b.1), s, e))).collect();
    for i in 0..=n {
        v.push((L(i), 0, i));
        v.push((R(i), i, n));
    }
    v
}
fn bare_cuts(n: usize) -> Vec<(Cut, usize, usize)> {
    let mut v = vec![];
    for s in 0..=n {
        for e in s..=n {
            v.push((Sl(Bound::Included(s), Bound::Excluded(e)), s, e))
        }
    }
    for i in 0..=n {
        v.push((L(i), 0, i));
        v.push((R(i), i, n));
    }
    v
}
fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
type R<E, const N: usize> = RingBuffer<E, N>;

macro_rules! cut {
    ($name:ident, $ty:ident) => {
        fn $name<'a, E: Elem, const N: usize>(s: $ty<'a, E, N>, c: Cut) -> $ty<'a, E, N> {
            match c {
                From => s,
                // the same window through the std range types where there is one
                Sl(Bound::Included(a), Bound::Excluded(b)) => s.slice(a..b),
                Sl(Bound::Included(a), Bound::Included(b)) if b < usize::MAX => s.slice(a..=b),
                Sl(Bound::Included(a), Bound::Unbounded) => s.slice(a..),
                Sl(Bound::Unbounded, Bound::Excluded(b)) => s.slice(..b),
                Sl(Bound::Unbounded, Bound::Included(b)) => s.slice(..=b),
                Sl(Bound::Unbounded, Bound::Unbounded) => s.slice(..),
                Sl(a, b) => s.slice((a, b)),
                L(i) => s.split_at(i).0,
                R(i) => s.split_at(i).1,
            }
        }
    };
}
cut!(cut, Slice);
cut!(cut_mut, SliceMut);
pub fn window<'a, E: Elem, const N: usize>(r: &'a R<E, N>, c: Cut) -> Slice<'a, E, N> {
    match c {
        From => Slice::from(r),
        Sl(Bound::Included(a), Bound::Excluded(b)) => r.slice(a..b),
        Sl(Bound::Included(a), Bound::Included(b)) => r.slice(a..=b),
        Sl(Bound::Unbounded, Bound::Excluded(b)) => r.slice(..b),
        Sl(Bound::Unbounded, Bound::Unbounded) => r.slice(..),
        Sl(a, b) => r.slice((a, b)),
        c => cut(r.slice(..), c),
    }
}
pub fn window_mut<'a, E: Elem, const N: usize>(r: &'a mut R<E, N>, c: Cut) -> SliceMut<'a, E, N> {
    match c {
        From => SliceMut::from(r),
        Sl(Bound::Included(a), Bound::Excluded(b)) => r.slice_mut(a..b),
        Sl(Bound::Included(a), Bound::Included(b)) => r.slice_mut(a..=b),
        Sl(Bound::Unbounded, Bound::Excluded(b)) => r.slice_mut(..b),
        Sl(Bound::Unbounded, Bound::Unbounded) => r.slice_mut(..),
        Sl(a, b) => r.slice_mut((a, b)),
        c => cut_mut(r.slice_mut(..), c),
    }
}

/// what every slice, shared or mutable, must answer; $exp: copies of the window's elements, $at: their addresses
macro_rules! view {
    ($s:expr, $all:expr, $lo:expr, $hi:expr, $at:expr, $deep:expr) => {{
        let s = &$s;
        let exp = &$all[$lo..$hi];
        let k = exp.len();
        if HasLength::len(s) != k || s.is_empty() != (k == 0) {
            return Err(format!("len() = {}, is_empty() = {}, the window has {} elements", HasLength::len(s), s.is_empty(), k));
        }
        for i in 0..k {
            let a = $at[$lo + i];
            let same = |e: &E| e as *const E as usize == a || std::mem::size_of::<E>() == 0;
            if !same(&s[i]) || !same(s.get(i).ok_or("get() is None inside the window")?) || !same(unsafe { s.get_unchecked(i) }) {
                return Err(format!("element {} of the window is another element of the buffer", i));
            }
            if s[i].key() != exp[i].key() {
                return Err(format!("element {} is {}, expected {}", i, show(s[i].key()), exp[i].key()));
            }
        }
        for i in [k, k + 1, N, usize::MAX] {
            if i >= k && (s.get(i).is_some() || guard(|| std::hint::black_box(&s[i] as *const E as usize)).is_ok()) {
                return Err(format!("index {} of a window of length {} was not refused", i, k));
            }
        }
        let first = s.first().map(|e| e.key());
        let last = s.last().map(|e| e.key());
        if first != exp.first().map(|e| e.key()) || last != exp.last().map(|e| e.key()) {
            return Err(format!("first() = {:?}, last() = {:?} of {:?}", first, last, exp));
        }
        let keys: Vec<u32> = exp.iter().map(|e| e.key()).collect();
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), &keys, "iter()")?;
        keys_eq::<E>(&mut s.iter().rev().map(|e| e.key()).collect::<Vec<_>>().into_iter().rev(), &keys, "iter().rev()")?;
        keys_eq::<E>(&mut s.into_iter().map(|e| e.key()), &keys, "into_iter()")?;
        if $deep {
            for len in 1..=k + 1 {
                for bits in 0u32..1 << len.min(5) {
                    let w: Vec<St> = (0..len).map(|i| if bits >> (i % 5) & 1 == 1 { St::B } else { St::F }).collect();
                    let mut it = De(s.iter());
                    let mut m: VecDeque<usize> = (0..k).collect();
                    let mut got = vec![];
                    run_word(&mut it, &w, &mut m, &mut got).map_err(|e| format!("iter() with steps {:?}: {}", w, e))?;
                    for (p, e) in got {
                        if e as *const E as usize != $at[$lo + p] && std::mem::size_of::<E>() > 0 {
                            return Err(format!("iter() with steps {:?}: not element {}", w, p));
                        }
                    }
                }
            }
            for (i, e) in $all.iter().enumerate() {
                let want = keys.contains(&e.key());
                if s.contains(e) != want {
                    return Err(format!("contains(element {} of the buffer) = {}, window {}..{}", i, !want, $lo, $hi));
                }
            }
            for i in 0..=k {
                if !s.starts_with(&exp[..i]) || !s.ends_with(&exp[k - i..]) {
                    return Err(format!("starts_with/ends_with deny {} own elements", i));
                }
                if i > 0 && $hi < $all.len() && s.ends_with(&$all[$hi + 1 - i..$hi + 1]) && keys[k - 1] != $all[$hi].key() {
                    return Err("ends_with accepts elements after the window".into());
                }
            }
            if $lo + k + 1 <= $all.len() && s.starts_with(&$all[$lo..$hi + 1]) {
                return Err("starts_with accepts more elements than the window has".into());
            }
            if s.is_sorted() != keys.windows(2).all(|w| w[0] <= w[1]) {
                return Err(format!("is_sorted() of {:?} is wrong", keys));
            }
            let v: Vec<E> = exp.to_vec();
            let o: R<E, N> = v.iter().cloned().collect();
            if *s != v || *s != &v[..] || *s != o || *s != window(&o, From) || *s != o.slice(..) {
                return Err(format!("the window does not equal its contents {:?}", v));
            }
            for j in 0..=k {
                // one element missing / one replaced / one more
                let mut w = v.clone();
                w.insert(j, E::mk(50_000));
                if *s == w {
                    return Err(format!("the window {:?} equals {:?}", v, w));
                }
                if w.len() <= N {
                    let r: R<E, N> = w.iter().cloned().collect();
                    if *s == r || *s == r.slice(..) {
                        return Err(format!("the window {:?} equals the ring buffer {:?}", v, w));
                    }
                }
                if j < k && E::KEYS != 1 {
                    w.remove(j + 1);
                    let mut r: R<E, N> = w.iter().cloned().collect();
                    if *s == w || *s == r || *s == r.slice(..) || *s == r.slice_mut(..) {
                        return Err(format!("the window {:?} equals {:?}", v, w));
                    }
                }
                if j < k {
                    let mut w = v.clone();
                    w.remove(j);
                    let mut r: R<E, N> = w.iter().cloned().collect();
                    if *s == w || *s == r || *s == r.slice(..) || *s == r.slice_mut(..) {
                        return Err(format!("the window {:?} equals {:?}", v, w));
                    }
                }
            }
            let want = format!("RingBuffer{:?}", exp);
            if format!("{:?}", s) != want {
                return Err(format!("printed as {:?}, expected {}", s, want));
            }
            if hash(s) != hash(&o) {
                return Err("hashes differently from a buffer with the same contents".into());
            }
            drop((v, o));
            let c0 = clones();
            let o = s.to_owned();
            if E::CLONES && clones() - c0 != k as u64 {
                return Err(format!("to_owned() made {} clones of {} elements", clones() - c0, k));
            }
            observe(&o, &keys).map_err(|e| format!("to_owned(): {}", e))?;
        }
    }};
}

fn read<E: Elem, const N: usize>(s: &Slice<E, N>, all: &[E], lo: usize, hi: usize, at: &[usize], deep: bool) -> Result<(), String> {
    view!(*s, all, lo, hi, at, deep);
    let c = s.clone();
    if c != *s || c.cmp(s) != std::cmp::Ordering::Equal {
        return Err("a cloned slice differs from its source".into());
    }
    Ok(())
}
fn read_mut<E: Elem, const N: usize>(s: &SliceMut<E, N>, all: &[E], lo: usize, hi: usize, at: &[usize], deep: bool) -> Result<(), String> {
    view!(*s, all, lo, hi, at, deep);
    Ok(())
}
fn copies<E: Elem, const N: usize>(r: &R<E, N>) -> (Vec<E>, Vec<usize>) {
    (r.iter().cloned().collect(), r.iter().map(|e| e as *const E as usize).collect())
}
/// shared windows
fn shared<E: Elem, const N: usize>(r: &R<E, N>, c1: Cut, lo: usize, hi: usize, deep: bool) -> Result<(), String> {
    let (all, at) = copies(r);
    let s1 = window(r, c1);
    read(&s1, &all, lo, hi, &at, true)?;
    for (c2, a, b) in cuts(hi - lo) {
        let s2 = cut(s1.clone(), c2);
        let (lo2, hi2) = (lo + a, lo + b);
        read(&s2, &all, lo2, hi2, &at, deep).map_err(|e| format!("then {:?}: {}", c2, e))?;
        if deep {
            for (c3, a, b) in bare_cuts(b - a) {
                read(&cut(s2.clone(), c3), &all, lo2 + a, lo2 + b, &at, false).map_err(|e| format!("then {:?}, {:?}: {}", c2, c3, e))?;
            }
        }
        // both halves of a split
        if let L(i) = c2 {
            let (l, r) = s1.clone().split_at(i);
            read(&l, &all, lo, lo + i, &at, false)?;
            read(&r, &all, lo + i, hi, &at, false)?;
        }
    }
    Ok(())
}
/// writes: $w is called with the slice; the buffer must afterwards be as `model` says
fn written<E: Elem, const N: usize>(w: &mut World<R<E, N>>, model: &mut Vec<u32>, c: &[Cut], what: &str, f: impl FnOnce(SliceMut<E, N>, &mut Vec<u32>) -> Result<(), String>) -> Result<(), String> {
    let mut s = window_mut(w.cm(), c[0]);
    for c in &c[1..] {
        s = cut_mut(s, *c)
    }
    f(s, model).map_err(|e| format!("{:?} {}: {}", c, what, e))?;
    observe(w.c(), model).map_err(|e| format!("{:?} after {}: {}", c, what, e))?;
    w.zones()
}
fn mutable<E: Elem, const N: usize>(w: &mut World<R<E, N>>, c1: Cut, lo: usize, hi: usize, deep: bool) -> Result<(), String> {
    let mut m: Vec<u32> = w.c().keys();
    let mut fresh = 60_000u32;
    for (c2, a, b) in [(None, 0, hi - lo)].into_iter().chain(if deep { cuts(hi - lo) } else { bare_cuts(hi - lo) }.into_iter().map(|(c, a, b)| (Some(c), a, b))) {
        let c: Vec<Cut> = [c1].into_iter().chain(c2).collect();
        let (lo, hi) = (lo + a, lo + b);
        let k = hi - lo;
        let (all, at) = copies(w.c());
        {
            let mut s = window_mut(w.cm(), c1);
            if let Some(c2) = c2 {
                s = cut_mut(s, c2)
            }
            read_mut(&s, &all, lo, hi, &at, c2.is_none() || deep).map_err(|e| format!("{:?}: {}", c, e))?;
            let s: Slice<E, N> = if a % 2 == 0 { s.unmut() } else { s.into() };
            read(&s, &all, lo, hi, &at, false).map_err(|e| format!("{:?}, made shared: {}", c, e))?;
        }
        drop(all);
        for i in 0..k {
            fresh += 4;
            let f = fresh;
            written(w, &mut m, &c, &format!("writing [{}]", i), |mut s, m| {
                s[i] = E::mk(f);
                m[lo + i] = f;
                Ok(())
            })?;
            written(w, &mut m, &c, &format!("writing get_mut({})", i), |mut s, m| {
                *s.get_mut(i).ok_or("get_mut() is None")? = E::mk(f + 1);
                m[lo + i] = f + 1;
                Ok(())
            })?;
            written(w, &mut m, &c, &format!("set({})", i), |mut s, m| {
                let old = s.set(i, E::mk(f + 2)).ok_or("set() is None")?;
                if old.key() != E::norm(m[lo + i]) {
                    return Err(format!("returned {}, held {}", show(old.key()), m[lo + i]));
                }
                m[lo + i] = f + 2;
                Ok(())
            })?;
            written(w, &mut m, &c, &format!("writing get_unchecked_mut({})", i), |mut s, m| {
                *unsafe { s.get_unchecked_mut(i) } = E::mk(f + 3);
                m[lo + i] = f + 3;
                Ok(())
            })?;
            for j in 0..k {
                written(w, &mut m, &c, &format!("swap({}, {})", i, j), |mut s, m| {
                    ArrayMut::swap(&mut s, i, j);
                    m.swap(lo + i, lo + j);
                    Ok(())
                })?;
            }
        }
        if k > 0 {
            fresh += 2;
            let f = fresh;
            written(w, &mut m, &c, "writing first_mut() and last_mut()", |mut s, m| {
                *s.first_mut().ok_or("None")? = E::mk(f);
                m[lo] = f;
                *s.last_mut().ok_or("None")? = E::mk(f + 1);
                m[hi - 1] = f + 1;
                Ok(())
            })?;
        }
        for i in [k, k + 1, usize::MAX] {
            written(w, &mut m, &c, &format!("refused accesses at {}", i), |mut s, _| {
                if s.get_mut(i).is_some() || guard(|| s[i] = E::mk(7)).is_ok() || s.set(i, E::mk(8)).is_some() || (k == 0 && (s.first_mut().is_some() || s.last_mut().is_some())) {
                    return Err("not refused".into());
                }
                // array-ops' swap ignores an index that equals the other one
                for j in 0..k {
                    if guard(|| ArrayMut::swap(&mut s, i, j)).is_ok() || guard(|| ArrayMut::swap(&mut s, j, i)).is_ok() {
                        return Err(format!("swap with {} was not refused", j));
                    }
                }
                Ok(())
            })?;
        }
        // iter_mut: all references held, written, in mixed order
        for bits in 0u32..if deep { 1 << k.min(5) } else { 2 } {
            let word: Vec<St> = (0..k + 1).map(|i| if bits >> (i % 5) & 1 == 1 { St::B } else { St::F }).collect();
            written(w, &mut m, &c, &format!("writing through iter_mut() with steps {:?}", word), |mut s, m| {
                let keys: Vec<u32> = m[lo..hi].iter().map(|x| E::norm(*x)).collect();
                let mut left: VecDeque<usize> = (0..k).collect();
                let mut s2;
                let mut got = vec![];
                {
                    if bits % 2 == 0 {
                        let mut it = De(s.iter_mut());
                        run_word(&mut it, &word, &mut left, &mut got)?;
                    } else {
                        s2 = s;
                        let mut it = De((&mut s2).into_iter());
                        run_word(&mut it, &word, &mut left, &mut got)?;
                    }
                }
                check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &keys)?;
                m[lo..hi].copy_from_slice(&write_all(got, &keys)?);
                Ok(())
            })?;
        }
        // both halves of every split, written in turn and through iterators held together
        for i in 0..=k {
            fresh += 2 * k as u32;
            let f = fresh;
            written(w, &mut m, &c, &format!("split_at({}), both halves written", i), |s, m| {
                let (mut l, mut r) = s.split_at(i);
                if l.len() != i || r.len() != k - i {
                    return Err(format!("halves of lengths {} and {}", l.len(), r.len()));
                }
                for j in 0..i.max(k - i) {
                    if j < r.len() {
                        r[j] = E::mk(f + j as u32);
                        m[lo + i + j] = f + j as u32;
                    }
                    if j < l.len() {
                        *l.get_mut(j).ok_or("None")? = E::mk(f + (k + j) as u32);
                        m[lo + j] = f + (k + j) as u32;
                    }
                }
                if guard(|| l[i] = E::mk(3)).is_ok() || guard(|| r[k - i] = E::mk(3)).is_ok() || l.get_mut(i).is_some() || r.get_mut(k - i).is_some() {
                    return Err("an access beyond a half was not refused".into());
                }
                let old: Vec<u32> = m[lo..hi].iter().map(|x| E::norm(*x)).collect();
                let mut got: Vec<(usize, &mut E)> = l.iter_mut().enumerate().collect();
                got.extend(r.iter_mut().enumerate().map(|(j, e)| (i + j, e)));
                if got.len() != k {
                    return Err(format!("the halves' iterators give {} elements", got.len()));
                }
                m[lo..hi].copy_from_slice(&write_all(got, &old)?);
                Ok(())
            })?;
        }
        // array-ops' sort fails on runs of equal elements, as those of an element type with one value
        if k > 0 && (k < 4 || E::KEYS != 1) {
            written(w, &mut m, &c, "sort_unstable()", |mut s, m| {
                s.sort_unstable();
                let mut v: Vec<u32> = m[lo..hi].iter().map(|x| E::norm(*x)).collect();
                v.sort();
                m[lo..hi].copy_from_slice(&v);
                Ok(())
            })?;
            // leave distinct, descending contents behind
            written(w, &mut m, &c, "writing descending values", |mut s, m| {
                for i in 0..k {
                    s[i] = E::mk(100 + (k - i) as u32);
                    m[lo + i] = 100 + (k - i) as u32;
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}
pub fn slice_state<E: Elem, const N: usize>(ctx: &mut Ctx, st: &State, deep: bool) {
    let n = st.len;
    for (c, lo, hi) in [(From, 0, n)].into_iter().chain(cuts(n)) {
        if ctx.stopped() {
            return;
        }
        let d = |s: &str| format!("{} history {:?}, {} window {:?}", R::<E, N>::name(), st.hist, s, c);
        let k = hi - lo;
        ctx.add("windows", 1 + cuts(k).len() as u64);
        ctx.add("transitions", 2 * (1 + cuts(k).len() as u64));
        ctx.run(
            || d("shared"),
            || {
                let w = World::<R<E, N>>::build(&st.hist);
                shared(w.c(), c, lo, hi, deep)?;
                w.zones()
            },
        );
        ctx.run(
            || d("mutable"),
            || {
                let mut w = World::<R<E, N>>::build(&st.hist);
                mutable(&mut w, c, lo, hi, deep)?;
                drop(w);
                if E::TRACKED {
                    crate::ownership::clean::<E>("after dropping everything")?
                }
                Ok(())
            },
        );
    }
}
pub fn slice_jobs<E: Elem, const N: usize>(jobs: &mut Vec<Job>, reps: usize, shards: usize, deep: bool) {
    space_jobs::<R<E, N>>(jobs, "windows", reps, shards, move |c, s| slice_state::<E, N>(c, s, deep));
    // ranges, splits and indices outside of every window
    space_jobs::<R<E, N>>(jobs, "refused by windows", 1, shards, crate::refusal::refuse_slices::<E, N>);
}

// ---- long windows -------------------------------------------------------------------------------------------------
/// what a long window must answer
macro_rules! long_view {
    ($s:expr, $keys:expr, $at:expr, $lo:expr, $hi:expr) => {{
        let s = &$s;
        let k = $hi - $lo;
        let keys = &$keys[$lo..$hi];
        if HasLength::len(s) != k || s.is_empty() != (k == 0) {
            return Err(format!("len() = {}, is_empty() = {}, the window has {} elements", HasLength::len(s), s.is_empty(), k));
        }
        for i in 0..k {
            if &s[i] as *const E as usize != $at[$lo + i] || s.get(i).map(|e| e as *const E as usize) != Some($at[$lo + i]) {
                return Err(format!("element {} of the window is another element of the buffer", i));
            }
        }
        for i in [k, k + 1, N, usize::MAX] {
            if i >= k && (s.get(i).is_some() || guard(|| std::hint::black_box(&s[i] as *const E as usize)).is_ok()) {
                return Err(format!("index {} of a window of length {} was not refused", i, k));
            }
        }
        if s.first().map(|e| e.key()) != keys.first().copied() || s.last().map(|e| e.key()) != keys.last().copied() {
            return Err("first() or last() is wrong".into());
        }
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), keys, "iter()")?;
        keys_eq::<E>(&mut s.iter().rev().map(|e| e.key()).collect::<Vec<_>>().into_iter().rev(), keys, "iter().rev()")?;
        let v: Vec<E> = s.iter().cloned().collect();
        let mut o = s.to_owned();
        keys_eq::<E>(&mut o.iter().map(|e| e.key()), keys, "to_owned()")?;
        if *s != v || *s != &v[..] || *s != o || *s != o.slice(..) || hash(s) != hash(&o) {
            return Err("the window does not equal its contents".into());
        }
        if s.is_sorted() != keys.windows(2).all(|w| w[0] <= w[1]) {
            return Err("is_sorted() is wrong".into());
        }
        for i in marks(k, N) {
            if !s.starts_with(&v[..i]) || !s.ends_with(&v[k - i..]) {
                return Err(format!("starts_with/ends_with deny {} own elements", i));
            }
            if i < k {
                if !s.contains(&v[i]) {
                    return Err(format!("contains(element {}) is false", i));
                }
                let old = std::mem::replace(&mut o[i], E::mk(40_404));
                if *s == o || *s == o.slice(..) || *s == o.slice_mut(..) || hash(s) == hash(&o) {
                    return Err(format!("the window equals contents that differ at {}", i));
                }
                o[i] = old;
            }
        }
    }};
}
/// distinct keys in mixed order (array-ops' sort fails on runs of equal elements)
fn mix(i: usize, n: usize) -> u32 {
    (if n < 1000 { i * 7919 % 10_007 } else { i * 7919 % (1 << 17) }) as u32
}
fn long_state<E: Elem, const N: usize>(ctx: &mut Ctx, st: &State) {
    let n = st.len;
    let mut wins = vec![(From, 0, n)];
    for a in marks(n, N) {
        for b in marks(n, N) {
            if a <= b {
                wins.push((Sl(Bound::Included(a), Bound::Excluded(b)), a, b))
            }
        }
        wins.push((L(a), 0, a));
        wins.push((R(a), a, n));
    }
    for (c, lo, hi) in wins {
        if ctx.stopped() {
            return;
        }
        let k = hi - lo;
        ctx.add("windows", 1 + marks(k, N).len() as u64 * 2);
        ctx.add("transitions", 2);
        ctx.run(
            || format!("{} history {:?}, long window {:?}", R::<E, N>::name(), st.hist, c),
            || {
                let mut w = World::<R<E, N>>::build(&st.hist);
                let keys = w.c().keys();
                let at: Vec<usize> = w.c().iter().map(|e| e as *const E as usize).collect();
                {
                    let s = window(w.c(), c);
                    long_view!(s, keys, at, lo, hi);
                    // nested windows and halves
                    for i in marks(k, N) {
                        let (l, r) = s.clone().split_at(i);
                        if l.len() != i || r.len() != k - i {
                            return Err(format!("split_at({}) gives lengths {} and {}", i, l.len(), r.len()));
                        }
                        keys_eq::<E>(&mut l.iter().map(|e| e.key()), &keys[lo..lo + i], "left half")?;
                        keys_eq::<E>(&mut r.iter().map(|e| e.key()), &keys[lo + i..hi], "right half")?;
                        let t = s.clone().slice(i / 2..i);
                        keys_eq::<E>(&mut t.iter().map(|e| e.key()), &keys[lo + i / 2..lo + i], "nested window")?;
                    }
                }
                {
                    let s = window_mut(w.cm(), c);
                    long_view!(s, keys, at, lo, hi);
                }
                let mut m = keys.clone();
                for i in marks(k, N) {
                    if i == k {
                        continue;
                    }
                    let f = 30_000 + i as u32;
                    written(&mut w, &mut m, &[c], &format!("writing [{}] and others", i), |mut s, m| {
                        s[i] = E::mk(f);
                        *s.get_mut(k - 1 - i).ok_or("None")? = E::mk(f + 1);
                        m[lo + i] = f;
                        m[hi - 1 - i] = f + 1;
                        ArrayMut::swap(&mut s, i, k / 2);
                        m.swap(lo + i, lo + k / 2);
                        Ok(())
                    })?;
                    written(&mut w, &mut m, &[c, R(i)], "writing through iter_mut()", |mut s, m| {
                        let old: Vec<u32> = m[lo + i..hi].iter().map(|x| E::norm(*x)).collect();
                        let got: Vec<(usize, &mut E)> = s.iter_mut().enumerate().collect();
                        check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &old)?;
                        m[lo + i..hi].copy_from_slice(&write_all(got, &old)?);
                        Ok(())
                    })?;
                    written(&mut w, &mut m, &[c, L(i + 1)], "sort_unstable()", |mut s, m| {
                        for j in 0..=i {
                            s[j] = E::mk(mix(i - j, N))
                        }
                        s.sort_unstable();
                        let mut v: Vec<u32> = (0..=i).map(|j| E::norm(mix(i - j, N))).collect();
                        v.sort();
                        m[lo..lo + i + 1].copy_from_slice(&v);
                        for j in marks(i, N) {
                            let (a, b) = (E::mk(v[j]), guard(|| s.binary_search(&E::mk(v[j])).ok()));
                            if b.ok().flatten().and_then(|p| s.get(p).map(|e| e.key())) != Some(a.key()) {
                                return Err(format!("binary_search does not find element {}", j));
                            }
                        }
                        Ok(())
                    })?;
                }
                Ok(())
            },
        );
    }
}
pub fn long_slice_jobs<E: Elem, const N: usize>(jobs: &mut Vec<Job>, shards: usize) {
    space_jobs::<R<E, N>>(jobs, "long windows", 1, shards, long_state::<E, N>);
}
