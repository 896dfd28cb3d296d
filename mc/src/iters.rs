//! C10/C11: every interleaving of steps of every iterator over every state.
use crate::elem::*;
use crate::harness::{Ctx, Job};
use crate::refusal::usable;
use crate::seq::*;
use crate::sparse::*;
use bitmaps::{Bits, BitsImpl};
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::collections::VecDeque;

/// object-safe view of a double-ended exact-size iterator
pub trait It<T> {
    fn f(&mut self) -> Option<T>;
    fn b(&mut self) -> Option<T>;
    fn n(&mut self, k: usize) -> Option<T>;
    fn nb(&mut self, k: usize) -> Option<T>;
    /// k+1 steps with a stopping search; the elements passed
    fn any(&mut self, k: usize) -> Vec<T>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> Option<usize>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<T>;
    fn all(self: Box<Self>) -> Vec<T>;
    fn fold(self: Box<Self>) -> Vec<T>;
    fn rall(self: Box<Self>) -> Vec<T>;
    fn rfold(self: Box<Self>) -> Vec<T>;
}
pub struct De<I>(pub I);
impl<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator> It<T> for De<I> {
    fn f(&mut self) -> Option<T> {
        self.0.next()
    }
    fn b(&mut self) -> Option<T> {
        self.0.next_back()
    }
    fn n(&mut self, k: usize) -> Option<T> {
        self.0.nth(k)
    }
    fn nb(&mut self, k: usize) -> Option<T> {
        self.0.nth_back(k)
    }
    fn any(&mut self, k: usize) -> Vec<T> {
        let mut v = vec![];
        self.0.any(|x| {
            v.push(x);
            v.len() > k
        });
        v
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<T> {
        self.0.last()
    }
    fn all(self: Box<Self>) -> Vec<T> {
        self.0.collect()
    }
    fn fold(self: Box<Self>) -> Vec<T> {
        self.0.fold(vec![], |mut v, x| {
            v.push(x);
            v
        })
    }
    fn rall(self: Box<Self>) -> Vec<T> {
        self.0.rev().collect()
    }
    fn rfold(self: Box<Self>) -> Vec<T> {
        self.0.rfold(vec![], |mut v, x| {
            v.push(x);
            v
        })
    }
}
pub struct Fw<I>(pub I);
/// front-only iterators (the sparse array's)
impl<T, I: Iterator<Item = T>> It<T> for Fw<I> {
    fn f(&mut self) -> Option<T> {
        self.0.next()
    }
    fn b(&mut self) -> Option<T> {
        unreachable!()
    }
    fn n(&mut self, k: usize) -> Option<T> {
        self.0.nth(k)
    }
    fn nb(&mut self, _: usize) -> Option<T> {
        unreachable!()
    }
    fn any(&mut self, k: usize) -> Vec<T> {
        let mut v = vec![];
        self.0.any(|x| {
            v.push(x);
            v.len() > k
        });
        v
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        None
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<T> {
        self.0.last()
    }
    fn all(self: Box<Self>) -> Vec<T> {
        self.0.collect()
    }
    fn fold(self: Box<Self>) -> Vec<T> {
        self.0.fold(vec![], |mut v, x| {
            v.push(x);
            v
        })
    }
    fn rall(self: Box<Self>) -> Vec<T> {
        unreachable!()
    }
    fn rfold(self: Box<Self>) -> Vec<T> {
        unreachable!()
    }
}
pub type BoxIt<'a, T> = Box<dyn It<T> + 'a>;
pub trait Iters: Seq {
    fn owned(self) -> BoxIt<'static, Self::E>;
    fn draining(&mut self) -> BoxIt<'_, Self::E>;
    /// shared iterators; `which` selects the way it is made; None: no such way
    fn shared(&self, which: usize) -> Option<BoxIt<'_, &Self::E>>;
    fn muts(&mut self, which: usize) -> Option<BoxIt<'_, &mut Self::E>>;
}
impl<E: Elem, const N: usize> Iters for Chunk<E, N> {
    fn owned(self) -> BoxIt<'static, E> {
        Box::new(De(self.into_iter()))
    }
    fn draining(&mut self) -> BoxIt<'_, E> {
        Box::new(De(self.drain()))
    }
    fn shared(&self, w: usize) -> Option<BoxIt<'_, &E>> {
        match w {
            0 => Some(Box::new(De(self.iter()))),
            1 => Some(Box::new(De(self.into_iter()))),
            _ => None,
        }
    }
    fn muts(&mut self, w: usize) -> Option<BoxIt<'_, &mut E>> {
        match w {
            0 => Some(Box::new(De(self.iter_mut()))),
            1 => Some(Box::new(De(self.into_iter()))),
            _ => None,
        }
    }
}
impl<E: Elem, T: 'static> Iters for InlineArray<E, T> {
    fn owned(self) -> BoxIt<'static, E> {
        Box::new(De(self.into_iter()))
    }
    fn draining(&mut self) -> BoxIt<'_, E> {
        Box::new(De(self.drain()))
    }
    fn shared(&self, w: usize) -> Option<BoxIt<'_, &E>> {
        match w {
            0 => Some(Box::new(De(self.iter()))),
            1 => Some(Box::new(De(self.into_iter()))),
            _ => None,
        }
    }
    fn muts(&mut self, w: usize) -> Option<BoxIt<'_, &mut E>> {
        match w {
            0 => Some(Box::new(De(self.iter_mut()))),
            1 => Some(Box::new(De(self.into_iter()))),
            _ => None,
        }
    }
}
impl<E: Elem, const N: usize> Iters for RingBuffer<E, N> {
    fn owned(self) -> BoxIt<'static, E> {
        Box::new(De(self.into_iter()))
    }
    fn draining(&mut self) -> BoxIt<'_, E> {
        Box::new(De(self.drain()))
    }
    fn shared(&self, w: usize) -> Option<BoxIt<'_, &E>> {
        match w {
            0 => Some(Box::new(De(self.iter()))),
            1 => Some(Box::new(De(self.into_iter()))),
            _ => None,
        }
    }
    fn muts(&mut self, w: usize) -> Option<BoxIt<'_, &mut E>> {
        match w {
            0 => Some(Box::new(De(self.iter_mut()))),
            1 => Some(Box::new(De(self.into_iter()))),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    F,
    B,
    N(usize),
    NB(usize),
    Any(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fin {
    Drop,
    Count,
    Last,
    All,
    Fold,
    Rev,
    RFold,
}
use St::{Any, B, F, N as NT, NB};
pub const FINS: [Fin; 7] = [Fin::Drop, Fin::Count, Fin::Last, Fin::All, Fin::Fold, Fin::Rev, Fin::RFold];
pub const FWFINS: [Fin; 5] = [Fin::Drop, Fin::Count, Fin::Last, Fin::All, Fin::Fold];

/// words of steps for n remaining elements
pub fn words(n: usize, de: bool, deep: bool) -> Vec<Vec<St>> {
    let mut v: Vec<Vec<St>> = vec![];
    if de {
        let lim = if deep { 9 } else { 6 };
        if n <= lim {
            // every interleaving, beyond exhaustion
            for len in 0..=n + 2 {
                for bits in 0u32..1 << len {
                    v.push((0..len).map(|i| if bits >> i & 1 == 1 { B } else { F }).collect())
                }
            }
        } else {
            // patterns of period up to 4, cut anywhere, and every split F^i B^j F^k
            for p in 1..=4 {
                for bits in 0u32..1 << p {
                    v.push((0..n + 2).map(|i| if bits >> (i % p) & 1 == 1 { B } else { F }).collect());
                    v.push((0..n / 2).map(|i| if bits >> (i % p) & 1 == 1 { B } else { F }).collect());
                }
            }
            for i in (0..=n).step_by(if n > 20 { n / 8 } else { 1 }) {
                for j in [0, 1, (n - i) / 2, n - i] {
                    let mut w = vec![F; i];
                    w.extend(vec![B; j]);
                    w.extend(vec![F; 2]);
                    v.push(w)
                }
            }
        }
    } else {
        for len in 0..=n + 2 {
            v.push(vec![F; len])
        }
    }
    // the other stepping methods, mixed
    let mut ab = vec![F, NT(1), NT(2), Any(0), Any(1), NT(0), NT(n.saturating_sub(1)), NT(n)];
    if de {
        ab.extend([B, NB(0), NB(1), NB(2), NB(n.saturating_sub(1)), NB(n)]);
    }
    ab.push(NT(usize::MAX));
    let mut layer: Vec<Vec<St>> = vec![vec![]];
    for _ in 0..if n > 6 && !deep { 2 } else { 3 } {
        let mut nx = vec![];
        for w in &layer {
            for s in &ab {
                let mut w = w.clone();
                w.push(*s);
                nx.push(w)
            }
        }
        v.extend(nx.iter().filter(|w| w.iter().any(|s| !matches!(s, F | B))).cloned());
        layer = nx;
    }
    v
}
/// very long runs: whole traversals from either end and both, cut around the ends and the middle, and jumps
fn words_long(n: usize) -> Vec<Vec<St>> {
    let mut v: Vec<Vec<St>> = vec![vec![], vec![F], vec![B], vec![F; n + 2], vec![B; n + 2]];
    v.push((0..n + 2).map(|i| if i % 2 == 1 { B } else { F }).collect());
    if n < 65535 {
        // the jumps past the end, and the longest ones
        for k in [n.saturating_sub(1), n, usize::MAX] {
            v.push(vec![NT(k)]);
            v.push(vec![NB(k), F]);
        }
        return v;
    }
    for i in [n / 2, n.saturating_sub(1)] {
        let mut w = vec![F; i];
        w.extend(vec![B; n + 2 - i]);
        v.push(w)
    }
    for k in [256, n / 2, 65535, 65536, n - 1, n, usize::MAX] {
        v.push(vec![NT(k)]);
        v.push(vec![NB(k)]);
        v.push(vec![F, NT(k), B]);
        v.push(vec![B, NB(k), F]);
    }
    for k in [n / 2, n] {
        v.push(vec![NT(n / 3), NB(k.min(n) / 3), Any(k.min(n) / 4)]);
    }
    v
}
/// the words for a container: few where building each state is expensive
fn words_of<S: Seq>(n: usize, deep: bool) -> Vec<Vec<St>> {
    if S::maxlen() > 1000 {
        words_long(n)
    } else {
        words(n, true, deep)
    }
}
/// Run a word; `model` holds the positions not yet yielded; `got` receives (position, item).
pub fn run_word<T>(it: &mut dyn It<T>, w: &[St], model: &mut VecDeque<usize>, got: &mut Vec<(usize, T)>) -> Result<(), String> {
    let hint = |it: &dyn It<T>, m: &VecDeque<usize>, at: usize| -> Result<(), String> {
        let (lo, hi) = it.hint();
        if let Some(n) = it.exact() {
            if n != m.len() || lo != m.len() || hi != Some(m.len()) {
                return Err(format!("after {} steps: len() = {}, size_hint() = {:?}, {} elements remain", at, n, (lo, hi), m.len()));
            }
        } else if lo > m.len() || hi.map_or(false, |h| h < m.len()) {
            return Err(format!("after {} steps: size_hint() = {:?}, {} elements remain", at, (lo, hi), m.len()));
        }
        Ok(())
    };
    hint(it, model, 0)?;
    for (i, s) in w.iter().enumerate() {
        let (r, p) = match *s {
            F => (it.f(), model.pop_front()),
            B => (it.b(), model.pop_back()),
            NT(k) => {
                let r = it.n(k);
                model.drain(..k.min(model.len()));
                (r, model.pop_front())
            }
            NB(k) => {
                let r = it.nb(k);
                let l = model.len();
                model.truncate(l - k.min(l));
                (r, model.pop_back())
            }
            Any(k) => {
                for x in it.any(k) {
                    match model.pop_front() {
                        Some(p) => got.push((p, x)),
                        None => return Err(format!("step {} ({:?}) yields an element after the end", i, s)),
                    }
                }
                hint(it, model, i + 1)?;
                continue;
            }
        };
        match (r, p) {
            (Some(x), Some(p)) => got.push((p, x)),
            (None, None) => (),
            (Some(_), None) => return Err(format!("step {} ({:?}) yields an element, none remains", i, s)),
            (None, Some(p)) => return Err(format!("step {} ({:?}) yields nothing, element {} remains", i, s, p)),
        }
        hint(it, model, i + 1)?;
    }
    Ok(())
}
pub fn finish<T>(it: BoxIt<'_, T>, fin: Fin, model: &mut VecDeque<usize>, got: &mut Vec<(usize, T)>) -> Result<bool, String> {
    let v = match fin {
        Fin::Drop => {
            drop(it);
            return Ok(false);
        }
        Fin::Count => {
            let c = it.count();
            if c != model.len() {
                return Err(format!("count() = {}, {} elements remain", c, model.len()));
            }
            model.clear();
            return Ok(true);
        }
        Fin::Last => {
            match (it.last(), model.pop_back()) {
                (Some(x), Some(p)) => got.push((p, x)),
                (None, None) => (),
                (x, p) => return Err(format!("last() is {}, last remaining {:?}", if x.is_some() { "Some" } else { "None" }, p)),
            }
            model.clear();
            return Ok(true);
        }
        Fin::All => it.all(),
        Fin::Fold => it.fold(),
        Fin::Rev => it.rall(),
        Fin::RFold => it.rfold(),
    };
    if v.len() != model.len() {
        return Err(format!("{:?} gives {} elements, {} remain", fin, v.len(), model.len()));
    }
    for x in v {
        let p = if matches!(fin, Fin::Rev | Fin::RFold) { model.pop_back() } else { model.pop_front() };
        got.push((p.unwrap(), x))
    }
    Ok(true)
}
pub fn check_keys(got: &[(usize, u32)], keys: &[u32]) -> Result<(), String> {
    for (p, k) in got {
        if *k != keys[*p] {
            return Err(format!("element {} expected ({}), got {}", p, show(keys[*p]), show(*k)));
        }
    }
    Ok(())
}
fn wshow(w: &[St], f: Fin) -> String {
    if w.len() > 200 {
        let mut runs: Vec<(St, usize)> = vec![];
        for s in w {
            match runs.last_mut() {
                Some((t, c)) if t == s => *c += 1,
                _ => runs.push((*s, 1)),
            }
        }
        let shown: Vec<String> = runs.iter().take(8).map(|(s, c)| format!("{:?}*{}", s, c)).collect();
        return format!("[{}{}] then {:?}", shown.join(", "), if runs.len() > 8 { format!(", ... {} steps in all", w.len()) } else { String::new() }, f);
    }
    format!("{:?} then {:?}", w, f)
}
fn fins_for(w: &[St], de: bool, n: usize) -> &'static [Fin] {
    if n > 1000 && !w.is_empty() && de {
        return &[Fin::Drop];
    }
    // plain interleavings are finished by dropping and by collecting; short mixed words in every way
    match (w.len() <= 2, de) {
        (true, true) => &FINS,
        (true, false) => &FWFINS,
        (false, true) => &[Fin::Drop, Fin::Rev],
        (false, false) => &[Fin::Drop, Fin::All],
    }
}
pub fn consume_state<S: Iters>(ctx: &mut Ctx, st: &State, deep: bool) {
    let n = st.len;
    for w in words_of::<S>(n, deep) {
        for &fin in fins_for(&w, true, n) {
            for drain in [false, true] {
                if ctx.stopped() {
                    return;
                }
                ctx.add("transitions", 1);
                ctx.run(
                    || format!("{} history {:?}, {} with steps {}", S::name(), st.hist, if drain { "drain()" } else { "into_iter()" }, wshow(&w, fin)),
                    || {
                        let mut x = World::<S>::build(&st.hist);
                        let keys = x.c().keys();
                        let mut model: VecDeque<usize> = (0..keys.len()).collect();
                        let mut got = vec![];
                        if drain {
                            let mut it = x.g.c.draining();
                            run_word(&mut *it, &w, &mut model, &mut got)?;
                            finish(it, fin, &mut model, &mut got)?;
                            let rest: Vec<u32> = model.iter().map(|p| keys[*p]).collect();
                            if x.c().keys() != rest || x.c().length() != rest.len() {
                                return Err(format!("the drained container holds {:?}, expected {:?} of {:?}", x.c().keys(), rest, keys));
                            }
                            x.zones()?;
                            if w.len() < 4 || model.is_empty() {
                                usable(&mut x, &rest)?;
                            }
                        } else {
                            let mut it = std::mem::replace(&mut x.g.c, S::make()).owned();
                            run_word(&mut *it, &w, &mut model, &mut got)?;
                            finish(it, fin, &mut model, &mut got)?;
                        }
                        check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &keys)
                    },
                );
            }
        }
    }
}
/// shared and mutable iterators; mutable references are all held, then written through
pub fn borrow_state<S: Iters>(ctx: &mut Ctx, st: &State, deep: bool) {
    let n = st.len;
    for w in words_of::<S>(n, deep) {
        for &fin in fins_for(&w, true, n) {
            for which in 0..2 {
                for mutable in [false, true] {
                    if ctx.stopped() {
                        return;
                    }
                    ctx.add("transitions", 1);
                    ctx.run(
                        || format!("{} history {:?}, {} {} with steps {}", S::name(), st.hist, if mutable { "mutable iterator" } else { "iterator" }, which, wshow(&w, fin)),
                        || {
                            let mut x = World::<S>::build(&st.hist);
                            let keys = x.c().keys();
                            let mut model: VecDeque<usize> = (0..keys.len()).collect();
                            if mutable {
                                let mut got = vec![];
                                let Some(mut it) = x.g.c.muts(which) else { return Ok(()) };
                                run_word(&mut *it, &w, &mut model, &mut got)?;
                                finish(it, fin, &mut model, &mut got)?;
                                check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &keys)?;
                                let exp = write_all(got, &keys)?;
                                if x.c().keys() != exp {
                                    return Err(format!("after writing through the references: {:?}, expected {:?}", x.c().keys(), exp));
                                }
                                x.zones()?;
                            } else {
                                let mut got = vec![];
                                let Some(mut it) = x.g.c.shared(which) else { return Ok(()) };
                                run_word(&mut *it, &w, &mut model, &mut got)?;
                                finish(it, fin, &mut model, &mut got)?;
                                check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &keys)?;
                                let mut at: Vec<*const S::E> = got.iter().map(|(_, e)| *e as *const S::E).collect();
                                distinct(&mut at)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
pub fn distinct<E>(at: &mut Vec<*const E>) -> Result<(), String> {
    at.sort();
    if std::mem::size_of::<E>() > 0 && at.windows(2).any(|w| (w[1] as usize) - (w[0] as usize) < std::mem::size_of::<E>()) {
        return Err("two references to one element".into());
    }
    Ok(())
}
/// write a new key through each held reference, in reverse order; returns the keys expected
pub fn write_all<E: Elem>(mut got: Vec<(usize, &mut E)>, keys: &[u32]) -> Result<Vec<u32>, String> {
    let mut at: Vec<*const E> = got.iter().map(|(_, e)| &**e as *const E).collect();
    distinct(&mut at)?;
    let mut exp = keys.to_vec();
    for (i, (p, e)) in got.iter_mut().enumerate().rev() {
        let k = E::norm(40_000 + i as u32);
        **e = E::mk(k);
        exp[*p] = k;
    }
    for (p, e) in &got {
        if e.key() != exp[*p] {
            return Err(format!("the reference to element {} sees {}, {} was written", p, show(e.key()), exp[*p]));
        }
    }
    Ok(exp)
}
pub fn consume_jobs<S: Iters>(jobs: &mut Vec<Job>, reps: usize, shards: usize, deep: bool) {
    space_jobs::<S>(jobs, "consuming", reps, shards, move |c, s| consume_state::<S>(c, s, deep));
}
pub fn borrow_jobs<S: Iters>(jobs: &mut Vec<Job>, reps: usize, shards: usize, deep: bool) {
    space_jobs::<S>(jobs, "borrowing", reps, shards, move |c, s| borrow_state::<S>(c, s, deep));
}

// ---- sparse -------------------------------------------------------------------------------------------------------
fn sbuild<E: Elem, const N: usize>(h: &[SOp]) -> (SWorld<E, N>, Vec<(usize, u32)>)
where
    BitsImpl<N>: Bits,
{
    let w = SWorld::<E, N>::build(h);
    let v = (0..N).filter_map(|i| w.c().get(i).map(|e| (i, e.key()))).collect();
    (w, v)
}
pub fn sconsume<E: Elem, const N: usize>(ctx: &mut Ctx, h: &Vec<SOp>, deep: bool)
where
    BitsImpl<N>: Bits,
{
    let (_, occ) = sbuild::<E, N>(h);
    for opt in [false, true] {
        let n = if opt { N } else { occ.len() };
        for w in words_fw(n, deep) {
            for &fin in fins_for(&w, false, n) {
                if ctx.stopped() {
                    return;
                }
                ctx.add("transitions", 1);
                ctx.run(
                    || format!("{} with steps {}", sdesc::<E>(N, h, &if opt { "option_drain()" } else { "drain()/into_iter()" }), wshow(&w, fin)),
                    || {
                        let (mut x, occ) = sbuild::<E, N>(h);
                        let c = std::mem::replace(x.cm(), SparseChunk::new());
                        let mut model: VecDeque<usize> = (0..n).collect();
                        if opt {
                            let mut got = vec![];
                            let mut it: BoxIt<Option<E>> = Box::new(Fw(c.option_drain()));
                            run_word(&mut *it, &w, &mut model, &mut got)?;
                            finish(it, fin, &mut model, &mut got)?;
                            for (p, e) in &got {
                                opt_check(*p, e.as_ref(), &occ)?
                            }
                        } else {
                            let mut got = vec![];
                            let mut it: BoxIt<E> = if w.len() % 2 == 0 { Box::new(Fw(c.drain())) } else { Box::new(Fw(c.into_iter())) };
                            run_word(&mut *it, &w, &mut model, &mut got)?;
                            finish(it, fin, &mut model, &mut got)?;
                            check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &occ.iter().map(|x| x.1).collect::<Vec<_>>())?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
fn words_fw(n: usize, deep: bool) -> Vec<Vec<St>> {
    if n > 40 && !deep {
        let mut v: Vec<Vec<St>> = vec![];
        for k in [0, 1, 2, n / 2, n - 1, n, n + 1, n + 2] {
            v.push(vec![F; k]);
            v.push(vec![NT(k)]);
            v.push(vec![NT(k / 2), F, Any(2), NT(k / 2)]);
        }
        return v;
    }
    words(n, false, deep)
}
fn opt_check<E: Elem>(p: usize, e: Option<&E>, occ: &[(usize, u32)]) -> Result<(), String> {
    let want = occ.iter().find(|x| x.0 == p).map(|x| x.1);
    let got = e.map(|e| e.key());
    if got != want {
        return Err(format!("index {}: {:?}, expected {:?}", p, got, want));
    }
    Ok(())
}
pub fn sborrow<E: Elem, const N: usize>(ctx: &mut Ctx, h: &Vec<SOp>, deep: bool)
where
    BitsImpl<N>: Bits,
{
    let (_, occ) = sbuild::<E, N>(h);
    for kind in ["iter", "iter_mut", "indices", "entries", "option_iter", "option_iter_mut"] {
        let n = if kind.starts_with("option") { N } else { occ.len() };
        for w in words_fw(n, deep) {
            for &fin in fins_for(&w, false, n) {
                if ctx.stopped() {
                    return;
                }
                ctx.add("transitions", 1);
                ctx.run(
                    || format!("{} with steps {}", sdesc::<E>(N, h, &kind), wshow(&w, fin)),
                    || {
                        let (mut x, occ) = sbuild::<E, N>(h);
                        let keys: Vec<u32> = occ.iter().map(|x| x.1).collect();
                        let mut model: VecDeque<usize> = (0..n).collect();
                        macro_rules! drive { ($it:expr) => {{
                            let mut got = vec![];
                            let mut it: BoxIt<_> = Box::new(Fw($it));
                            run_word(&mut *it, &w, &mut model, &mut got)?;
                            finish(it, fin, &mut model, &mut got)?;
                            got
                        }} }
                        match kind {
                            "iter" => {
                                let got = drive!(x.c().iter());
                                check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &keys)?;
                                let mut at: Vec<*const E> = got.iter().map(|(_, e)| *e as *const E).collect();
                                distinct(&mut at)?;
                            }
                            "indices" => {
                                for (p, i) in drive!(x.c().indices()) {
                                    if i != occ[p].0 {
                                        return Err(format!("index {} is reported as {}", occ[p].0, i));
                                    }
                                }
                            }
                            "entries" => {
                                for (p, (i, e)) in drive!(x.c().entries()) {
                                    if (i, e.key()) != occ[p] {
                                        return Err(format!("entry {:?} is reported as {:?}", occ[p], (i, e.key())));
                                    }
                                }
                            }
                            "option_iter" => {
                                for (p, e) in drive!(x.c().option_iter()) {
                                    opt_check(p, e, &occ)?
                                }
                            }
                            "iter_mut" => {
                                let got = drive!(x.cm().iter_mut());
                                check_keys(&got.iter().map(|(p, e)| (*p, e.key())).collect::<Vec<_>>(), &keys)?;
                                let exp = write_all(got, &keys)?;
                                let m: M = occ.iter().zip(exp).map(|(o, k)| (o.0, k)).collect();
                                sobserve(x.c(), &m)?;
                            }
                            _ => {
                                let got = drive!(x.cm().option_iter_mut());
                                let mut held = vec![];
                                for (p, e) in got {
                                    opt_check(p, e.as_deref(), &occ)?;
                                    if let Some(e) = e {
                                        held.push((occ.iter().position(|o| o.0 == p).unwrap(), e))
                                    }
                                }
                                let exp = write_all(held, &keys)?;
                                let m: M = occ.iter().zip(exp).map(|(o, k)| (o.0, k)).collect();
                                sobserve(x.c(), &m)?;
                            }
                        }
                        x.zones()
                    },
                );
            }
        }
    }
}
