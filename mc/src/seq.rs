//! The three sequence containers behind one interface: operations, reference model, observation, state spaces.
use crate::elem::*;
use crate::harness::{guard, Ctx};
use sized_chunks::{Chunk, InlineArray};
#[cfg(feature = "ringbuffer")]
use {
    array_ops::{Array, ArrayMut, HasLength},
    sized_chunks::RingBuffer,
};
use std::collections::HashMap;
use std::mem::replace;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    // constructors: replace the container
    Unit,
    Pair,
    FromIter(usize),
    /// collect_from(count) on an iterator that has `.1` elements
    Collect(usize, usize),
    PushB,
    PushF,
    PopB,
    PopF,
    Insert(usize),
    InsFrom(usize, usize),
    Remove(usize),
    Set(usize),
    Swap(usize, usize),
    DropL(usize),
    DropR(usize),
    /// split_off, container keeps the left / the right part
    SplitL(usize),
    SplitR(usize),
    Clear,
    Extend(usize),
    /// extend from references
    ExtRef(usize),
    /// drain(): `.0` steps from the front, `.1` from the back, then dropped
    Drain(usize, usize),
    /// the same, but the iterator is forgotten instead of dropped
    Forget(usize, usize),
    /// into_iter(): same; the container is new afterwards
    Consume(usize, usize),
    /// from_front / from_back / drain_from: container keeps the rest, or (K) what was taken
    TakeF(usize),
    TakeFK(usize),
    TakeB(usize),
    TakeBK(usize),
    TakeAll,
    TakeAllK,
    /// other = `.0` elements; self.append(other) etc.
    Append(usize),
    AppendTo(usize),
    DrainFF(usize, usize),
    DrainFB(usize, usize),
    CloneK,
    CloneD,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Chunk,
    Ring,
    Inline,
}

pub struct Out<S: Seq> {
    pub elems: Vec<S::E>,
    pub others: Vec<S>,
}
impl<S: Seq> Default for Out<S> {
    fn default() -> Self {
        Out { elems: Vec::new(), others: Vec::new() }
    }
}

/// What the model expects of an operation.
#[derive(Debug, PartialEq, Eq, Clone, Default)]
pub struct Exp {
    pub refuse: bool,
    pub elems: Vec<u32>,
    pub others: Vec<Vec<u32>>,
}

pub trait Seq: Sized + 'static {
    type E: Elem;
    const KIND: Kind;
    fn name() -> String;
    fn cap() -> usize;
    /// bound on the length explored (differs from cap for zero-sized elements)
    fn maxlen() -> usize {
        Self::cap()
    }
    fn make() -> Self;
    fn exec(&mut self, op: &Op, base: u32, out: &mut Out<Self>);
    fn length(&self) -> usize;
    fn empty(&self) -> bool;
    fn full(&self) -> bool;
    fn at(&self, i: usize) -> &Self::E;
    fn at_mut(&mut self, i: usize) -> &mut Self::E;
    fn try_at(&self, i: usize) -> Option<&Self::E>;
    fn try_at_mut(&mut self, i: usize) -> Option<&mut Self::E>;
    fn each(&self, f: &mut dyn FnMut(&Self::E));
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut Self::E));
    fn push(&mut self, e: Self::E);
    /// the API-specific views (slices, borrows, iterators), compared against the expected keys
    fn views(&self, exp: &[u32]) -> Result<(), String>;
    fn views_mut(&mut self, exp: &[u32]) -> Result<(), String>;
    fn dup(&self) -> Self;
    /// append (Append), drain_from_front (DrainFF(_, count)), drain_from_back (DrainFB(_, count))
    fn transfer_from(&mut self, _other: &mut Self, _op: &Op) {
        unimplemented!()
    }
    fn insert_sorted(&mut self, _e: Self::E) {
        unimplemented!()
    }
    fn keys(&self) -> Vec<u32> {
        let mut v = Vec::with_capacity(self.length().min(80));
        self.each(&mut |e| {
            v.push(e.key());
            assert!(v.len() < 1 << 18, "iterator does not end");
        });
        v
    }
    fn ids(&self) -> Vec<u32> {
        let mut v = Vec::with_capacity(self.length().min(80));
        self.each(&mut |e| {
            e.key();
            v.push(e.id());
            assert!(v.len() < 1 << 18, "iterator does not end");
        });
        v
    }
    /// byte offset of the first element in the container, if it can be seen
    fn origin(&self) -> Option<usize>;
}

pub fn keys_eq<E: Elem>(got: &mut dyn Iterator<Item = u32>, exp: &[u32], what: &str) -> Result<(), String> {
    let mut n = 0;
    for g in got {
        if n >= exp.len() {
            return Err(format!("{}: more than the expected {} elements", what, exp.len()));
        }
        if g != E::norm(exp[n]) {
            return Err(format!("{}[{}] = {}, expected {} (all expected: {:?})", what, n, show(g), E::norm(exp[n]), exp));
        }
        n += 1;
    }
    if n != exp.len() {
        return Err(format!("{}: {} elements, expected {:?}", what, n, exp));
    }
    Ok(())
}
pub fn show(k: u32) -> String {
    if k == GARBAGE {
        "<garbage>".into()
    } else {
        k.to_string()
    }
}

/// Full comparison of a container with its expected contents.
pub fn observe<S: Seq>(s: &S, exp: &[u32]) -> Result<(), String> {
    if s.length() != exp.len() {
        return Err(format!("len() = {}, expected {} {:?}", s.length(), exp.len(), exp));
    }
    if s.empty() != exp.is_empty() {
        return Err(format!("is_empty() = {} at length {}", s.empty(), exp.len()));
    }
    if s.full() != (exp.len() == S::cap()) {
        return Err(format!("is_full() = {} at length {} of {}", s.full(), exp.len(), S::cap()));
    }
    for i in 0..exp.len() {
        if s.at(i).key() != S::E::norm(exp[i]) {
            return Err(format!("[{}] = {}, expected {} of {:?}", i, show(s.at(i).key()), exp[i], exp));
        }
        match s.try_at(i) {
            Some(e) if e.key() == S::E::norm(exp[i]) => (),
            r => return Err(format!("get({}) = {:?}, expected {}", i, r.map(|e| e.key()), exp[i])),
        }
    }
    for i in [exp.len(), exp.len() + 1, S::cap(), usize::MAX] {
        if i >= exp.len() && s.try_at(i).is_some() {
            return Err(format!("get({}) is Some at length {}", i, exp.len()));
        }
    }
    s.views(exp)
}

/// The reference model: a plain Vec limited to `cap`.
pub fn model(kind: Kind, cap: usize, m: &mut Vec<u32>, op: &Op, base: u32) -> Exp {
    let n = m.len();
    let fresh = |k: usize| (0..k as u32).map(|i| base + i).collect::<Vec<u32>>();
    let mut x = Exp::default();
    let room = cap - n.min(cap);
    match *op {
        Unit => {
            if cap < 1 {
                x.refuse = true
            } else {
                *m = fresh(1)
            }
        }
        Pair => {
            if cap < 2 {
                x.refuse = true
            } else {
                *m = fresh(2)
            }
        }
        FromIter(k) => {
            if k > cap {
                x.refuse = true
            } else {
                *m = fresh(k)
            }
        }
        Collect(c, avail) => {
            if c > cap || avail < c {
                x.refuse = true
            } else {
                *m = fresh(avail);
                // what the iterator still holds afterwards
                x.elems = m.split_off(c)
            }
        }
        PushB => {
            if room == 0 {
                x.refuse = true
            } else {
                m.push(base)
            }
        }
        PushF => {
            if room == 0 {
                x.refuse = true
            } else {
                m.insert(0, base)
            }
        }
        PopB | PopF => {
            if n == 0 {
                x.refuse = kind == Kind::Chunk
            } else if *op == PopB {
                x.elems.push(m.pop().unwrap())
            } else {
                x.elems.push(m.remove(0))
            }
        }
        Insert(i) => {
            if room == 0 || i > n {
                x.refuse = true
            } else {
                m.insert(i, base)
            }
        }
        InsFrom(i, k) => {
            if k > room || i > n {
                x.refuse = true
            } else {
                m.splice(i..i, fresh(k));
            }
        }
        Remove(i) => {
            if i >= n {
                x.refuse = kind != Kind::Inline
            } else {
                x.elems.push(m.remove(i))
            }
        }
        Set(i) => {
            if i >= n {
                // array-ops' set answers None
                x.refuse = kind != Kind::Ring
            } else {
                x.elems.push(replace(&mut m[i], base))
            }
        }
        Swap(i, j) => {
            if i >= n || j >= n {
                x.refuse = true
            } else {
                m.swap(i, j)
            }
        }
        DropL(i) => {
            if i > n {
                x.refuse = true
            } else {
                m.drain(..i);
            }
        }
        DropR(i) => {
            if i > n {
                x.refuse = true
            } else {
                m.truncate(i)
            }
        }
        SplitL(i) | SplitR(i) => {
            if i > n {
                x.refuse = true
            } else {
                let mut r = m.split_off(i);
                if let SplitR(_) = op {
                    std::mem::swap(m, &mut r)
                }
                x.others.push(r)
            }
        }
        Clear => m.clear(),
        Extend(k) | ExtRef(k) => {
            m.extend(fresh(k.min(room)));
            x.refuse = k > room;
        }
        Drain(f, b) | Forget(f, b) | Consume(f, b) => {
            for _ in 0..f {
                if !m.is_empty() {
                    x.elems.push(m.remove(0))
                }
            }
            for _ in 0..b {
                if let Some(e) = m.pop() {
                    x.elems.push(e)
                }
            }
            if let Consume(..) = op {
                m.clear()
            }
        }
        TakeF(c) | TakeFK(c) | TakeB(c) | TakeBK(c) => {
            if c > n {
                x.refuse = true
            } else {
                let (mut taken, mut rest);
                match op {
                    TakeF(_) | TakeFK(_) => {
                        rest = m.split_off(c);
                        taken = m.clone();
                    }
                    _ => {
                        taken = m.split_off(n - c);
                        rest = m.clone();
                    }
                }
                if let TakeFK(_) | TakeBK(_) = op {
                    std::mem::swap(&mut taken, &mut rest)
                }
                *m = rest;
                x.others.push(taken);
            }
        }
        TakeAll => x.others.push(std::mem::take(m)),
        TakeAllK => x.others.push(vec![]),
        Append(k) | AppendTo(k) => {
            let o = fresh(k.min(cap));
            if o.len() > room {
                x.refuse = true;
                x.others.push(o)
            } else if let Append(_) = op {
                m.extend(o);
                x.others.push(vec![])
            } else {
                let old = replace(m, o);
                m.extend(old);
                x.others.push(vec![])
            }
        }
        DrainFF(k, c) | DrainFB(k, c) => {
            let mut o = fresh(k.min(cap));
            if c > room || c > o.len() {
                x.refuse = true
            } else if let DrainFF(..) = op {
                m.extend(o.drain(..c))
            } else {
                let t = o.split_off(o.len() - c);
                m.splice(0..0, t);
            }
            x.others.push(o)
        }
        CloneK | CloneD => x.others.push(m.clone()),
    }
    x
}
/// number of fresh keys an operation uses up
pub fn nkeys(op: &Op, cap: usize) -> u32 {
    (match *op {
        Unit | PushB | PushF | Insert(_) | Set(_) => 1, // also when refused
        Pair => 2,
        FromIter(k) | Extend(k) | ExtRef(k) | InsFrom(_, k) => k.min(1 << 17),
        Collect(_, a) => a.min(1 << 17),
        Append(k) | AppendTo(k) | DrainFF(k, _) | DrainFB(k, _) => k.min(cap),
        _ => 0,
    }) as u32
}

/// the iterator handed to bulk operations: honest, but each of its methods is user code that may panic
pub struct Src<E> {
    base: u32,
    i: usize,
    k: usize,
    e: std::marker::PhantomData<E>,
}
impl<E: Elem> Iterator for Src<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        tick(F_NEXT);
        if self.i == self.k {
            return None;
        }
        self.i += 1;
        Some(E::mk(self.base.wrapping_add(self.i as u32 - 1)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        tick(F_NEXT);
        (self.k - self.i, Some(self.k - self.i))
    }
}
impl<E: Elem> ExactSizeIterator for Src<E> {
    fn len(&self) -> usize {
        tick(F_NEXT);
        self.k - self.i
    }
}
impl<E> Drop for Src<E> {
    fn drop(&mut self) {
        tick(F_DROP)
    }
}
fn src<E: Elem>(base: u32, k: usize) -> Src<E> {
    Src { base, i: 0, k, e: std::marker::PhantomData }
}
macro_rules! drain_steps {
    ($it:expr, $f:expr, $b:expr, $out:expr) => {{
        drain_steps!(let it = $it, $f, $b, $out);
        drop(it)
    }};
    (let $v:ident = $it:expr, $f:expr, $b:expr, $out:expr) => {
        let mut $v = $it;
        for _ in 0..$f {
            if let Some(e) = $v.next() {
                $out.elems.push(e)
            }
        }
        for _ in 0..$b {
            if let Some(e) = $v.next_back() {
                $out.elems.push(e)
            }
        }
    };
}

/// zero-sized elements allow for capacities that no exploration fills
fn deque_maxlen<E>(n: usize) -> usize {
    if std::mem::size_of::<E>() == 0 && n > 1 << 10 {
        5
    } else {
        n
    }
}
/// Capacities above this are explored at boundary layouts and with boundary arguments only.
pub const BIG: usize = 128;
/// Boundary values in 0..=n of a container of capacity `cap`: the ends, the middle, and both sides of the powers of
/// two at which an index kept in a narrower type would wrap.
pub fn marks(n: usize, cap: usize) -> Vec<usize> {
    let mut v = if cap < 1 << 15 {
        let mut v = vec![0, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1), n];
        for p in [128usize, 256] {
            for d in [p - 1, p, p + 1] {
                if d <= cap {
                    v.extend([d, cap - d])
                }
            }
        }
        v
    } else {
        vec![0, 1, 256, 65535, 65536, n.saturating_sub(1), n]
    };
    v.retain(|i| *i <= n);
    v.sort();
    v.dedup();
    v
}
fn big_states<S: Seq>(reps: usize) -> Vec<State> {
    let n = S::cap();
    let mut v = vec![State { hist: vec![], key: (0, 0), len: 0 }];
    let m = marks(n, n);
    for &l in &m {
        for &len in &m {
            let mut hs = vec![];
            if S::KIND == Kind::Inline {
                if l == 0 {
                    hs.push(vec![FromIter(len)]);
                    hs.push(vec![FromIter(n), SplitL(len)]);
                }
            } else if len == 0 {
                if l < n {
                    hs.push(vec![FromIter(n), DropL(l), DropR(1), PopB]);
                    hs.push(vec![FromIter(n), DropL(l), DropR(1), PopF]);
                }
            } else if l + len <= n {
                hs.push(vec![FromIter(n), DropL(l), DropR(len)]);
                hs.push(vec![FromIter(l + len), DropL(l)]);
            } else if S::KIND == Kind::Ring && l < n {
                hs.push(vec![FromIter(n), DropL(l), Extend(l + len - n)]);
                hs.push(vec![FromIter(l), DropL(l), Extend(len)]);
            }
            hs.truncate(reps);
            for hist in hs {
                reset();
                if let Ok((key, len)) = guard(|| {
                    let w = World::<S>::build(&hist);
                    (key_of(&hist, &w), w.c().length())
                }) {
                    v.push(State { hist, key, len })
                }
            }
        }
    }
    v
}

macro_rules! common_exec {
    ($self:ident, $op:ident, $base:ident, $out:ident) => {
        match *$op {
            FromIter(k) => *$self = src::<E>($base, k).collect(),
            Extend(k) => $self.extend(src::<E>($base, k)),
            Insert(i) => $self.insert(i, E::mk($base)),
            SplitL(i) => {
                let r = $self.split_off(i);
                $out.others.push(r)
            }
            SplitR(i) => {
                let r = $self.split_off(i);
                $out.others.push(replace($self, r))
            }
            Clear => $self.clear(),
            Drain(f, b) => drain_steps!($self.drain(), f, b, $out),
            Forget(f, b) => {
                drain_steps!(let it = $self.drain(), f, b, $out);
                std::mem::forget(it)
            }
            Consume(f, b) => drain_steps!(replace($self, Self::new()).into_iter(), f, b, $out),
            CloneK => {
                let c = $self.clone();
                $out.others.push(replace($self, c))
            }
            CloneD => {
                let c = $self.clone();
                $out.others.push(c)
            }
            ref op => panic!("harness: operation {:?} not available for {}", op, Self::name()),
        }
    };
}
macro_rules! deque_exec {
    ($self:ident, $op:ident, $base:ident, $out:ident) => {
        match *$op {
            Unit => *$self = Self::unit(E::mk($base)),
            Pair => *$self = Self::pair(E::mk($base), E::mk($base + 1)),
            Collect(c, a) => {
                let mut it = src::<E>($base, a);
                *$self = Self::collect_from(&mut it, c);
                $out.elems.extend((it.i..it.k).map(|j| E::mk($base + j as u32)));
            }
            PushB => $self.push_back(E::mk($base)),
            PushF => $self.push_front(E::mk($base)),
            InsFrom(i, k) => $self.insert_from(i, src::<E>($base, k)),
            DropL(i) => $self.drop_left(i),
            DropR(i) => $self.drop_right(i),
            TakeF(c) => {
                let t = Self::from_front($self, c);
                $out.others.push(t)
            }
            TakeFK(c) => {
                let t = Self::from_front($self, c);
                $out.others.push(replace($self, t))
            }
            TakeB(c) => {
                let t = Self::from_back($self, c);
                $out.others.push(t)
            }
            TakeBK(c) => {
                let t = Self::from_back($self, c);
                $out.others.push(replace($self, t))
            }
            TakeAll => {
                let t = Self::drain_from($self);
                $out.others.push(t)
            }
            TakeAllK => {
                let t = Self::drain_from($self);
                $out.others.push(replace($self, t))
            }
            Append(k) | AppendTo(k) | DrainFF(k, _) | DrainFB(k, _) => {
                let mut o = Self::new();
                for i in 0..k.min(N) {
                    o.push_back(E::mk($base + i as u32))
                }
                $out.others.push(o);
                let o = &mut $out.others[0];
                match *$op {
                    Append(_) => $self.append(o),
                    AppendTo(_) => {
                        o.append($self);
                        std::mem::swap($self, o)
                    }
                    DrainFF(_, c) => $self.drain_from_front(o, c),
                    DrainFB(_, c) => $self.drain_from_back(o, c),
                    _ => unreachable!(),
                }
            }
            _ => common_exec!($self, $op, $base, $out),
        }
    };
}

impl<E: Elem, const N: usize> Seq for Chunk<E, N> {
    type E = E;
    const KIND: Kind = Kind::Chunk;
    fn name() -> String {
        format!("Chunk<{},{}>", E::NAME, N)
    }
    fn cap() -> usize {
        N
    }
    fn maxlen() -> usize {
        deque_maxlen::<E>(N)
    }
    fn make() -> Self {
        Self::new()
    }
    fn exec(&mut self, op: &Op, base: u32, out: &mut Out<Self>) {
        match *op {
            ExtRef(k) => {
                let v: Vec<E> = (0..k as u32).map(|i| E::mk(base + i)).collect();
                E::extend_chunk(self, &v)
            }
            PopB => {
                let e = self.pop_back();
                out.elems.push(e)
            }
            PopF => {
                let e = self.pop_front();
                out.elems.push(e)
            }
            Remove(i) => {
                let e = self.remove(i);
                out.elems.push(e)
            }
            Set(i) => {
                let e = Chunk::set(self, i, E::mk(base));
                out.elems.push(e)
            }
            Swap(i, j) => self.as_mut_slice().swap(i, j),
            _ => deque_exec!(self, op, base, out),
        }
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn full(&self) -> bool {
        self.is_full()
    }
    fn at(&self, i: usize) -> &E {
        &self[i]
    }
    fn at_mut(&mut self, i: usize) -> &mut E {
        &mut self[i]
    }
    fn try_at(&self, i: usize) -> Option<&E> {
        self.get(i)
    }
    fn try_at_mut(&mut self, i: usize) -> Option<&mut E> {
        self.get_mut(i)
    }
    fn each(&self, f: &mut dyn FnMut(&E)) {
        self.as_slice().iter().for_each(f)
    }
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut E)) {
        self.iter_mut().for_each(f)
    }
    fn push(&mut self, e: E) {
        self.push_back(e)
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn transfer_from(&mut self, other: &mut Self, op: &Op) {
        match *op {
            Append(_) => self.append(other),
            DrainFF(_, c) => self.drain_from_front(other, c),
            DrainFB(_, c) => self.drain_from_back(other, c),
            ref op => panic!("harness: {:?} is no transfer", op),
        }
    }
    fn insert_sorted(&mut self, e: E) {
        self.insert_ordered(e)
    }
    fn views(&self, exp: &[u32]) -> Result<(), String> {
        keys_eq::<E>(&mut self.as_slice().iter().map(|e| e.key()), exp, "as_slice()")?;
        keys_eq::<E>(&mut self.into_iter().map(|e| e.key()), exp, "(&chunk).into_iter()")?;
        keys_eq::<E>(&mut self.iter().rev().map(|e| e.key()).collect::<Vec<_>>().into_iter().rev(), exp, "iter().rev()")?;
        let s: &[E] = std::borrow::Borrow::borrow(self);
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "borrow()")?;
        let s: &[E] = self.as_ref();
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "as_ref()")?;
        keys_eq::<E>(&mut self[..].iter().map(|e| e.key()), exp, "[..]")?;
        if exp.len() > 1 {
            keys_eq::<E>(&mut self[1..].iter().map(|e| e.key()), &exp[1..], "[1..]")?;
            keys_eq::<E>(&mut self[..=exp.len() - 2].iter().map(|e| e.key()), &exp[..exp.len() - 1], "[..=len-2]")?;
        }
        Ok(())
    }
    fn views_mut(&mut self, exp: &[u32]) -> Result<(), String> {
        keys_eq::<E>(&mut self.as_mut_slice().iter().map(|e| e.key()), exp, "as_mut_slice()")?;
        keys_eq::<E>(&mut (&mut *self).into_iter().map(|e| e.key()), exp, "(&mut chunk).into_iter()")?;
        let s: &mut [E] = std::borrow::BorrowMut::borrow_mut(self);
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "borrow_mut()")?;
        let s: &mut [E] = self.as_mut();
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "as_mut()")?;
        keys_eq::<E>(&mut self[..].iter_mut().map(|e| e.key()), exp, "[..] mut")?;
        Ok(())
    }
    fn origin(&self) -> Option<usize> {
        Some((self.as_slice().as_ptr() as usize).wrapping_sub(self as *const _ as usize))
    }
}
#[cfg(feature = "ringbuffer")]
impl<E: Elem, const N: usize> Seq for RingBuffer<E, N> {
    type E = E;
    const KIND: Kind = Kind::Ring;
    fn name() -> String {
        format!("RingBuffer<{},{}>", E::NAME, N)
    }
    fn cap() -> usize {
        N
    }
    fn maxlen() -> usize {
        deque_maxlen::<E>(N)
    }
    fn make() -> Self {
        Self::new()
    }
    fn exec(&mut self, op: &Op, base: u32, out: &mut Out<Self>) {
        match *op {
            ExtRef(k) => {
                let v: Vec<E> = (0..k as u32).map(|i| E::mk(base + i)).collect();
                self.extend(&v)
            }
            PopB => {
                let e = self.pop_back();
                out.elems.extend(e)
            }
            PopF => {
                let e = self.pop_front();
                out.elems.extend(e)
            }
            Remove(i) => {
                let e = self.remove(i);
                out.elems.push(e)
            }
            Set(i) => {
                let e = ArrayMut::set(self, i, E::mk(base));
                out.elems.extend(e)
            }
            Swap(i, j) => ArrayMut::swap(self, i, j),
            _ => deque_exec!(self, op, base, out),
        }
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn full(&self) -> bool {
        self.is_full()
    }
    fn at(&self, i: usize) -> &E {
        &self[i]
    }
    fn at_mut(&mut self, i: usize) -> &mut E {
        &mut self[i]
    }
    fn try_at(&self, i: usize) -> Option<&E> {
        self.get(i)
    }
    fn try_at_mut(&mut self, i: usize) -> Option<&mut E> {
        self.get_mut(i)
    }
    fn each(&self, f: &mut dyn FnMut(&E)) {
        self.iter().for_each(f)
    }
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut E)) {
        self.iter_mut().for_each(f)
    }
    fn push(&mut self, e: E) {
        self.push_back(e)
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn transfer_from(&mut self, other: &mut Self, op: &Op) {
        match *op {
            Append(_) => self.append(other),
            DrainFF(_, c) => self.drain_from_front(other, c),
            DrainFB(_, c) => self.drain_from_back(other, c),
            ref op => panic!("harness: {:?} is no transfer", op),
        }
    }
    fn insert_sorted(&mut self, e: E) {
        self.insert_ordered(e)
    }
    fn views(&self, exp: &[u32]) -> Result<(), String> {
        keys_eq::<E>(&mut self.iter().map(|e| e.key()), exp, "iter()")?;
        keys_eq::<E>(&mut self.into_iter().map(|e| e.key()), exp, "(&ring).into_iter()")?;
        keys_eq::<E>(&mut self.iter().rev().map(|e| e.key()).collect::<Vec<_>>().into_iter().rev(), exp, "iter().rev()")?;
        keys_eq::<E>(&mut self.slice(..).iter().map(|e| e.key()), exp, "slice(..)")?;
        keys_eq::<E>(&mut self.first().into_iter().map(|e| e.key()), &exp[..exp.len().min(1)], "first()")?;
        keys_eq::<E>(&mut self.last().into_iter().map(|e| e.key()), &exp[exp.len() - exp.len().min(1)..], "last()")?;
        Ok(())
    }
    fn views_mut(&mut self, exp: &[u32]) -> Result<(), String> {
        keys_eq::<E>(&mut self.iter_mut().map(|e| e.key()), exp, "iter_mut()")?;
        keys_eq::<E>(&mut (&mut *self).into_iter().map(|e| e.key()), exp, "(&mut ring).into_iter()")?;
        keys_eq::<E>(&mut self.first_mut().into_iter().map(|e| e.key()), &exp[..exp.len().min(1)], "first_mut()")?;
        keys_eq::<E>(&mut self.last_mut().into_iter().map(|e| e.key()), &exp[exp.len() - exp.len().min(1)..], "last_mut()")?;
        Ok(())
    }
    fn origin(&self) -> Option<usize> {
        self.get(0).map(|e| (e as *const E as usize).wrapping_sub(self as *const _ as usize))
    }
}

impl<E: Elem, T: 'static> Seq for InlineArray<E, T> {
    type E = E;
    const KIND: Kind = Kind::Inline;
    fn name() -> String {
        format!("InlineArray<{},{}>", E::NAME, std::any::type_name::<T>().rsplit("::").next().unwrap_or("?"))
    }
    fn cap() -> usize {
        Self::CAPACITY
    }
    fn maxlen() -> usize {
        Self::CAPACITY.min(if std::mem::size_of::<E>() == 0 { 5 } else { usize::MAX })
    }
    fn make() -> Self {
        Self::new()
    }
    fn exec(&mut self, op: &Op, base: u32, out: &mut Out<Self>) {
        match *op {
            ExtRef(k) => {
                let v: Vec<E> = (0..k as u32).map(|i| E::mk(base + i)).collect();
                E::extend_inline(self, &v)
            }
            PushB => InlineArray::push(self, E::mk(base)),
            PopB => {
                let e = self.pop();
                out.elems.extend(e)
            }
            Remove(i) => {
                let e = self.remove(i);
                out.elems.extend(e)
            }
            Set(i) => {
                let e = replace(&mut self[i], E::mk(base));
                out.elems.push(e)
            }
            Swap(i, j) => self[..].swap(i, j),
            _ => common_exec!(self, op, base, out),
        }
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        InlineArray::is_empty(self)
    }
    fn full(&self) -> bool {
        self.is_full()
    }
    fn at(&self, i: usize) -> &E {
        &self[i]
    }
    fn at_mut(&mut self, i: usize) -> &mut E {
        &mut self[i]
    }
    fn try_at(&self, i: usize) -> Option<&E> {
        self.get(i)
    }
    fn try_at_mut(&mut self, i: usize) -> Option<&mut E> {
        self.get_mut(i)
    }
    fn each(&self, f: &mut dyn FnMut(&E)) {
        self.iter().for_each(f)
    }
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut E)) {
        self.iter_mut().for_each(f)
    }
    fn push(&mut self, e: E) {
        InlineArray::push(self, e)
    }
    fn dup(&self) -> Self {
        self.clone()
    }
    fn views(&self, exp: &[u32]) -> Result<(), String> {
        keys_eq::<E>(&mut self.into_iter().map(|e| e.key()), exp, "(&array).into_iter()")?;
        keys_eq::<E>(&mut self[..].iter().map(|e| e.key()), exp, "[..]")?;
        let s: &[E] = std::borrow::Borrow::borrow(self);
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "borrow()")?;
        let s: &[E] = self.as_ref();
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "as_ref()")?;
        Ok(())
    }
    fn views_mut(&mut self, exp: &[u32]) -> Result<(), String> {
        keys_eq::<E>(&mut (&mut *self).into_iter().map(|e| e.key()), exp, "(&mut array).into_iter()")?;
        keys_eq::<E>(&mut self[..].iter_mut().map(|e| e.key()), exp, "[..] mut")?;
        let s: &mut [E] = std::borrow::BorrowMut::borrow_mut(self);
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "borrow_mut()")?;
        let s: &mut [E] = self.as_mut();
        keys_eq::<E>(&mut s.iter().map(|e| e.key()), exp, "as_mut()")?;
        Ok(())
    }
    fn origin(&self) -> Option<usize> {
        None
    }
}

const PAT: u64 = 0xA5C3_96F0_1B2D_4E87;
/// The container under test between two guard zones.
#[repr(C)]
pub struct Guarded<S> {
    pre: [u64; 16],
    pub c: S,
    post: [u64; 16],
}
pub struct World<S: Seq> {
    pub g: Box<Guarded<S>>,
    pub next: u32,
}
pub struct Outcome<S: Seq> {
    pub panic: Option<String>,
    pub out: Out<S>,
    /// first fresh key given to the operation
    pub base: u32,
}
impl<S: Seq> World<S> {
    pub fn new() -> Self {
        World { g: Box::new(Guarded { pre: [PAT; 16], c: S::make(), post: [PAT; 16] }), next: 0 }
    }
    pub fn exec(&mut self, op: &Op) -> Outcome<S> {
        let mut out = Out::default();
        let base = self.next;
        self.next += nkeys(op, S::cap());
        let c = &mut self.g.c;
        let r = guard(|| c.exec(op, base, &mut out));
        Outcome { panic: r.err(), out, base }
    }
    /// around an existing container; fresh keys start at `next`
    pub fn of(c: S, next: u32) -> Self {
        let mut w = Self::new();
        w.g.c = c;
        w.next = next;
        w
    }
    /// replay a history (outcomes ignored)
    pub fn build(hist: &[Op]) -> Self {
        let mut w = Self::new();
        for op in hist {
            let _ = w.exec(op);
        }
        w
    }
    pub fn zones(&self) -> Result<(), String> {
        for p in self.g.pre.iter().chain(&self.g.post) {
            if unsafe { std::ptr::read_volatile(p) } != PAT {
                return Err("memory outside of the container was overwritten".into());
            }
        }
        Ok(())
    }
    pub fn c(&self) -> &S {
        &self.g.c
    }
    pub fn cm(&mut self) -> &mut S {
        &mut self.g.c
    }
}
/// model state after a history, and the next fresh key
pub fn model_hist<S: Seq>(hist: &[Op]) -> (Vec<u32>, u32) {
    let (mut m, mut next) = (vec![], 0);
    for op in hist {
        model(S::KIND, S::cap(), &mut m, op, next);
        next += nkeys(op, S::cap());
    }
    (m, next)
}

/// One operation on the real container and on the model, compared.
pub fn step<S: Seq>(w: &mut World<S>, m: &mut Vec<u32>, op: &Op) -> Result<(), String> {
    let o = w.exec(op);
    let x = model(S::KIND, S::cap(), m, op, o.base);
    compare(w, m, op, &o, &x)
}
pub fn compare<S: Seq>(w: &mut World<S>, m: &[u32], op: &Op, o: &Outcome<S>, x: &Exp) -> Result<(), String> {
    compare_on(w.c(), m, op, o, x)?;
    w.zones()
}
pub fn compare_on<S: Seq>(c: &S, m: &[u32], op: &Op, o: &Outcome<S>, x: &Exp) -> Result<(), String> {
    match (&o.panic, x.refuse) {
        (Some(p), false) => return Err(format!("{:?} panicked: {}", op, p)),
        (None, true) => return Err(format!("{:?} was not refused", op)),
        _ => (),
    }
    if !x.refuse {
        keys_eq::<S::E>(&mut o.out.elems.iter().map(|e| e.key()), &x.elems, "returned")?;
    }
    if o.out.others.len() != x.others.len() && !x.refuse {
        return Err(format!("harness: {} other containers, model has {}", o.out.others.len(), x.others.len()));
    }
    for (d, e) in o.out.others.iter().zip(&x.others) {
        observe(d, e).map_err(|s| format!("other container: {}", s))?;
    }
    observe(c, m)
}

// ---- state spaces -------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct State {
    pub hist: Vec<Op>,
    pub key: (usize, usize),
    pub len: usize,
}
pub type Space = Arc<Vec<State>>;

/// canonical key: (offset of first element, length); for an empty ring buffer where the next pushed element lands
pub fn key_of<S: Seq>(hist: &[Op], w: &World<S>) -> (usize, usize) {
    let n = w.c().length();
    if std::mem::size_of::<S::E>() == 0 {
        return (0, n);
    }
    match w.c().origin() {
        Some(o) => (o, n),
        None if S::KIND == Kind::Ring && S::cap() > 0 && n == 0 => {
            let mut p = World::<S>::build(hist);
            let next = p.next;
            let _ = guard(|| p.cm().push(S::E::mk(next)));
            (p.c().origin().unwrap_or(usize::MAX), 0)
        }
        None => (0, n),
    }
}

/// Operations used to reach states (a generating set: small at large capacities).
pub fn gen_ops<S: Seq>(n: usize, initial: bool) -> Vec<Op> {
    let cap = S::maxlen();
    let mut v = vec![];
    if initial {
        for k in 0..=cap {
            v.push(FromIter(k))
        }
        if S::KIND != Kind::Inline {
            v.push(Unit);
            v.push(Pair);
            v.push(Collect(cap / 2, cap));
        }
    }
    if n < cap {
        v.push(PushB);
        if S::KIND != Kind::Inline {
            v.push(PushF)
        }
    }
    if n > 0 {
        v.push(PopB);
        if S::KIND != Kind::Inline {
            v.push(PopF)
        }
    }
    let small = cap <= 16;
    let idx: Vec<usize> = if small { (0..=n).collect() } else { vec![0, 1, n / 4, n / 2, n - n / 4, n.saturating_sub(1), n] };
    for &i in idx.iter().filter(|i| **i <= n) {
        if n < cap {
            v.push(Insert(i));
        }
        if i < n {
            v.push(Remove(i))
        }
        v.push(SplitL(i));
        v.push(SplitR(i));
        if S::KIND != Kind::Inline {
            v.push(DropL(i));
            v.push(DropR(i));
            for k in [0, 1, 2, (cap - n) / 2, cap - n] {
                if k <= cap - n {
                    v.push(InsFrom(i, k))
                }
            }
            v.extend([TakeF(i), TakeFK(i), TakeB(i), TakeBK(i)]);
        }
        v.push(Drain(i, (n - i) / 2));
    }
    if S::KIND != Kind::Inline {
        v.extend([TakeAll, TakeAllK]);
        for k in [1, 2, cap / 2, cap - n] {
            if k <= cap - n {
                v.extend([Append(k), AppendTo(k), DrainFF(k + 1, k), DrainFB(k + 1, k)])
            }
        }
    }
    v.extend([Clear, CloneK, CloneD]);
    v.extend([1, cap - n].iter().filter(|k| **k <= cap - n).map(|k| Extend(*k)));
    v.retain(|o| match *o {
        DrainFF(k, _) | DrainFB(k, _) => k <= cap,
        _ => true,
    });
    v
}

/// Breadth-first exploration of the reachable layouts; up to `reps` different histories per layout.
pub fn explore<S: Seq>(ctx: &mut Ctx, reps: usize) -> Vec<State> {
    let mut states: Vec<State> = vec![];
    let mut count: HashMap<(usize, usize), usize> = HashMap::new();
    let mut parents: HashMap<(usize, usize), Vec<((usize, usize), Op)>> = HashMap::new();
    reset();
    let w = World::<S>::new();
    let k = key_of(&[], &w);
    drop(w);
    states.push(State { hist: vec![], key: k, len: 0 });
    count.insert(k, 1);
    let mut i = 0;
    let mut trans = 0u64;
    if S::maxlen() > BIG {
        states = big_states::<S>(reps);
        for st in &states {
            count.insert(st.key, 1);
        }
        i = states.len();
    }
    while i < states.len() {
        // all representatives are expanded at small capacities: different histories of one layout
        // need not be equivalent in broken code
        let st = states[i].clone();
        ctx.beat();
        let expand = i == 0 || S::maxlen() <= 8 || first_rep(&states, i);
        if expand && st.hist.len() < 12 {
            for op in gen_ops::<S>(st.len, st.hist.is_empty()) {
                reset();
                trans += 1;
                let mut hist = st.hist.clone();
                hist.push(op);
                let r = guard(|| {
                    let mut w = World::<S>::build(&st.hist);
                    let o = w.exec(&op);
                    let k = key_of(&hist, &w);
                    let n = w.c().length();
                    (o.panic.is_none(), k, n)
                });
                let Ok((true, k, n)) = r else { continue };
                if n > S::maxlen() {
                    continue;
                }
                let c = count.entry(k).or_insert(0);
                let via = (st.key, op);
                let ps = parents.entry(k).or_default();
                // different last operations make for genuinely different histories
                if *c < reps && !ps.iter().any(|p| std::mem::discriminant(&p.1) == std::mem::discriminant(&op)) {
                    ps.push(via);
                    *c += 1;
                    states.push(State { hist, key: k, len: n });
                }
            }
        }
        i += 1;
    }
    ctx.add("states", count.len() as u64);
    ctx.add("histories", states.len() as u64);
    ctx.add("explore_transitions", trans);
    states
}
fn first_rep(states: &[State], i: usize) -> bool {
    !states[..i].iter().any(|s| s.key == states[i].key)
}

/// All operations to check from a state of length n: every in-range argument, and the boundary out-of-range ones.
pub fn all_ops<S: Seq>(n: usize, hist: &[Op], full: bool) -> Vec<Op> {
    let cap = S::maxlen();
    let zst = S::cap() != cap;
    let room = cap - n;
    let mut v = vec![];
    let inline = S::KIND == Kind::Inline;
    let over = if zst { 0 } else { 2 };
    let big = cap > BIG;
    let upto = |k: usize| if big { marks(k, S::cap()) } else { (0..=k).collect::<Vec<usize>>() };
    let full = full && !big;
    let pick = |room: usize, over: usize| if big { marks(room + over, S::cap()) } else { pick(room, over) };
    if hist.is_empty() {
        for k in upto(cap + over) {
            v.push(FromIter(k));
        }
        if !inline {
            v.push(Unit);
            v.push(Pair);
            for k in upto(cap + over) {
                for a in [k.saturating_sub(1), k, k + 1] {
                    v.push(Collect(k, a))
                }
            }
        }
    }
    v.push(PushB);
    v.push(PopB);
    if !inline {
        v.push(PushF);
        v.push(PopF);
    }
    let hi = n + 2;
    for i in upto(hi) {
        v.push(Insert(i));
        v.push(Remove(i));
        v.push(Set(i));
        v.push(SplitL(i));
        v.push(SplitR(i));
        if !inline {
            v.push(DropL(i));
            v.push(DropR(i));
            v.push(TakeF(i));
            v.push(TakeFK(i));
            v.push(TakeB(i));
            v.push(TakeBK(i));
            let ks: Vec<usize> = if full { (0..=room + over).collect() } else { pick(room, over) };
            for k in ks {
                if big && k > 2 && k + 1 < room && i > 2 && i + 1 < n && (i + k) % 3 != 0 {
                    continue;
                }
                v.push(InsFrom(i, k))
            }
        }
        if full && i < n {
            for j in 0..=n {
                v.push(Swap(i, j))
            }
        } else if i < n {
            v.push(Swap(i, n - 1 - i));
            v.push(Swap(i, 0));
        }
    }
    if full {
        for f in 0..=n + 1 {
            for b in 0..=(n + 1 - f) {
                v.push(Drain(f, b));
                v.push(Consume(f, b));
            }
        }
    } else {
        for f in [0, 1, n / 2, n] {
            for b in [0, 1, n / 2, n] {
                v.push(Drain(f, b));
                v.push(Consume(f, b));
            }
        }
    }
    let ks: Vec<usize> = if full { (0..=room + over).collect() } else { pick(room, over) };
    for &k in &ks {
        v.push(Extend(k));
        v.push(ExtRef(k));
        if !inline && k <= cap {
            v.push(Append(k));
            v.push(AppendTo(k));
            let cs: Vec<usize> = if full { (0..=k + 1).collect() } else { vec![0, 1, k / 2, k, k + 1] };
            for c in cs {
                v.push(DrainFF(k, c));
                v.push(DrainFB(k, c));
            }
        }
    }
    if !inline {
        v.push(TakeAll);
        v.push(TakeAllK);
    }
    v.extend([Clear, CloneK, CloneD]);
    v
}
fn pick(room: usize, over: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 2, 3, room / 4, room / 2, room / 2 + 1, room.saturating_sub(1), room, room + 1, room + over]
        .into_iter()
        .filter(|k| *k <= room + over)
        .collect();
    v.sort();
    v.dedup();
    v
}
pub fn desc<S: Seq>(hist: &[Op], op: &Op) -> String {
    format!("{} history {:?} then {:?}", S::name(), hist, op)
}

/// Jobs for one container type: `check` runs on shards of its state space.
pub fn space_jobs<S: Seq>(
    jobs: &mut Vec<crate::harness::Job>,
    label: &str,
    reps: usize,
    shards: usize,
    check: impl Fn(&mut Ctx, &State) + Send + Sync + Clone + 'static,
) {
    let cell: Arc<std::sync::OnceLock<Space>> = Arc::new(std::sync::OnceLock::new());
    for sh in 0..shards {
        let (cell, check) = (cell.clone(), check.clone());
        jobs.push(crate::harness::Job {
            name: format!("{} {} {}/{}", label, S::name(), sh, shards),
            f: Box::new(move |ctx| {
                let mut fresh = None;
                let sp = cell
                    .get_or_init(|| {
                        let s = explore::<S>(ctx, reps);
                        fresh = Some(());
                        Arc::new(s)
                    })
                    .clone();
                for (i, st) in sp.iter().enumerate() {
                    if i % shards == sh && !ctx.stopped() {
                        ctx.state(i);
                        check(ctx, st)
                    }
                }
            }),
        });
    }
}

/// Jobs over all ordered pairs of states: `check` gets the whole space and one state.
pub fn pair_jobs<S: Seq>(
    jobs: &mut Vec<crate::harness::Job>,
    label: &str,
    reps: usize,
    shards: usize,
    check: impl Fn(&mut Ctx, &[State], &State) + Send + Sync + Clone + 'static,
) {
    let cell: Arc<std::sync::OnceLock<Space>> = Arc::new(std::sync::OnceLock::new());
    for sh in 0..shards {
        let (cell, check) = (cell.clone(), check.clone());
        jobs.push(crate::harness::Job {
            name: format!("{} {} {}/{}", label, S::name(), sh, shards),
            f: Box::new(move |ctx| {
                let sp = cell.get_or_init(|| Arc::new(explore::<S>(ctx, reps))).clone();
                for (i, st) in sp.iter().enumerate() {
                    if i % shards == sh && !ctx.stopped() {
                        ctx.state(i);
                        check(ctx, &sp, st)
                    }
                }
            }),
        });
    }
}
