//! C25: every crossing of a thread boundary that the compiler accepts, executed in every interleaving on the abstract
//! machine with its race detector. The threads take turns through relaxed accesses, which order nothing for the detector,
//! so the interleaving is controlled and no race is hidden.
use crate::harness::*;
use array_ops::{Array, ArrayMut};
use sized_chunks::sparse_chunk::SparseChunk;
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// An element type. `touch` is what shared access allows, `poke` what exclusive access allows.
pub trait El: Sized + 'static {
    const NAME: &'static str;
    const SEND: bool;
    const SYNC: bool;
    /// `n` relatives
    fn family(n: usize) -> Vec<Self>;
    fn touch(&self);
    fn poke(&mut self);
}
impl El for u32 {
    const NAME: &'static str = "u32";
    const SEND: bool = true;
    const SYNC: bool = true;
    fn family(n: usize) -> Vec<Self> {
        (0..n as u32).collect()
    }
    fn touch(&self) {
        unsafe { std::ptr::read_volatile(self) };
    }
    fn poke(&mut self) {
        *self += 1
    }
}
/// may move to another thread, may not be used from two
impl El for Cell<u32> {
    const NAME: &'static str = "Cell<u32>";
    const SEND: bool = true;
    const SYNC: bool = false;
    fn family(n: usize) -> Vec<Self> {
        (0..n as u32).map(Cell::new).collect()
    }
    fn touch(&self) {
        self.set(self.get() + 1)
    }
    fn poke(&mut self) {
        self.touch()
    }
}
/// may be looked at from two threads, but all relatives must stay on one: exclusive access uses what they have in common
pub struct Bound(*mut u32);
unsafe impl Sync for Bound {}
impl El for Bound {
    const NAME: &'static str = "Bound";
    const SEND: bool = false;
    const SYNC: bool = true;
    fn family(n: usize) -> Vec<Self> {
        let common = Box::leak(Box::new(0));
        (0..n).map(|_| Bound(common)).collect()
    }
    fn touch(&self) {
        assert!(!self.0.is_null())
    }
    fn poke(&mut self) {
        unsafe { *self.0 += 1 }
    }
}
impl Drop for Bound {
    fn drop(&mut self) {
        self.poke()
    }
}
impl El for Rc<Cell<u32>> {
    const NAME: &'static str = "Rc<Cell<u32>>";
    const SEND: bool = false;
    const SYNC: bool = false;
    fn family(n: usize) -> Vec<Self> {
        let x = Rc::new(Cell::new(0));
        (0..n).map(|_| x.clone()).collect()
    }
    fn touch(&self) {
        drop(self.clone());
        self.set(self.get() + 1)
    }
    fn poke(&mut self) {
        self.touch()
    }
}

/// one side of the interleaving `word` (bit i: who makes step i)
fn side(me: u32, word: (u32, usize), turn: &AtomicUsize, mut step: impl FnMut(usize)) {
    let mut k = 0;
    loop {
        let i = turn.load(Relaxed);
        if i >= word.1 {
            break;
        }
        if word.0 >> i & 1 == me {
            // a panic is not a race: the other side goes on
            let _ = guard(|| step(k));
            k += 1;
            turn.store(i + 1, Relaxed);
        } else {
            std::thread::yield_now()
        }
    }
}
/// all interleavings of `a` steps with `b` steps
fn words(a: usize, b: usize) -> Vec<(u32, usize)> {
    (0..1u32 << (a + b)).filter(|w| w.count_ones() as usize == b).map(|w| (w, a + b)).collect()
}

/// The compiler chooses between the crossing and no crossing.
pub struct Try<T>(Cell<Option<T>>);
pub trait Crosses<T> {
    /// moved into another thread, which makes its steps and drops it; this one makes steps of its own
    fn send(&self, word: (u32, usize), other: fn(&mut T, usize), mine: &dyn Fn(usize)) -> bool;
}
impl<T: Send> Crosses<T> for Try<T> {
    fn send(&self, word: (u32, usize), other: fn(&mut T, usize), mine: &dyn Fn(usize)) -> bool {
        let mut t = self.0.take().unwrap();
        let turn = AtomicUsize::new(0);
        std::thread::scope(|s| {
            let turn = &turn;
            s.spawn(move || {
                side(1, word, turn, |k| other(&mut t, k));
                drop(t);
            });
            side(0, word, turn, mine);
            mine(9);
        });
        true
    }
}
pub trait Stays<T> {
    fn send(&self, _: (u32, usize), _: fn(&mut T, usize), _: &dyn Fn(usize)) -> bool {
        false
    }
}
impl<T> Stays<T> for &Try<T> {}
pub trait Shares<T> {
    fn share(&self, word: (u32, usize), both: fn(&T, usize)) -> bool;
}
impl<T: Sync> Shares<T> for Try<T> {
    fn share(&self, word: (u32, usize), both: fn(&T, usize)) -> bool {
        let t = self.0.take().unwrap();
        let turn = AtomicUsize::new(0);
        std::thread::scope(|s| {
            let (turn, r) = (&turn, &t);
            s.spawn(move || side(1, word, turn, |k| both(r, k)));
            side(0, word, turn, |k| both(r, k));
        });
        true
    }
}
pub trait Alone<T> {
    fn share(&self, _: (u32, usize), _: fn(&T, usize)) -> bool {
        false
    }
}
impl<T> Alone<T> for &Try<T> {}

/// (elements, how many of them were pushed to the front)
type Lay = (usize, usize);
fn lays(t: bool) -> Vec<Lay> {
    (1..=if t { 3 } else { 2 }).flat_map(|n| (0..=n).map(move |f| (n, f))).collect()
}
fn chunk<E: El>(els: Vec<E>, lay: Lay) -> Chunk<E, 3> {
    let mut c = Chunk::new();
    for (i, e) in els.into_iter().enumerate() {
        if i < lay.1 {
            c.push_front(e)
        } else {
            c.push_back(e)
        }
    }
    c
}
fn ring<E: El>(els: Vec<E>, lay: Lay) -> RingBuffer<E, 3> {
    let mut c = RingBuffer::new();
    for (i, e) in els.into_iter().enumerate() {
        if i < lay.1 {
            c.push_front(e)
        } else {
            c.push_back(e)
        }
    }
    c
}
fn sparse<E: El>(els: Vec<E>, lay: Lay) -> SparseChunk<E, 4> {
    let mut c = SparseChunk::new();
    for (i, e) in els.into_iter().enumerate() {
        c.insert((i + lay.1) % 4, e);
    }
    c
}
fn inline<E: El>(els: Vec<E>, _: Lay) -> InlineArray<E, [usize; 6]> {
    els.into_iter().collect()
}

macro_rules! crossing {
    ($ctx:ident, $e:ty, $name:expr, $send:expr, $sync:expr, $make:ident, |$c:ident| $t:expr, rival $rival:expr, write $write:expr, read $read:expr) => {
        for (s, lay) in lays($ctx.thorough).into_iter().enumerate() {
            $ctx.add("states", 1);
            let steps = if $ctx.thorough { 3 } else { 2 };
            for (m, mode) in ["sent to", "shared with"].into_iter().enumerate() {
                $ctx.state(2 * s + m);
                for word in words(steps, steps) {
                    if $ctx.stopped() {
                        return;
                    }
                    let what = format!("{} of {}, {} elements, {} pushed to the front, {} another thread", $name, <$e>::NAME, lay.0, lay.1, mode);
                    let (ok, mut crossed) = (if mode == "sent to" { $send } else { $sync }, false);
                    $ctx.run(
                        || format!("{}, interleaving {:b}", what, word.0),
                        || {
                            let mut els = <$e>::family(lay.0 + 1);
                            let mine = RefCell::new(els.pop().unwrap());
                            #[allow(unused_mut)]
                            let mut $c = $make(els, lay);
                            let t = Try(Cell::new(Some($t)));
                            crossed = if mode == "sent to" {
                                (&t).send(word, $write, &|k| {
                                    mine.borrow().touch();
                                    mine.borrow_mut().poke();
                                    $rival(k)
                                })
                            } else {
                                (&t).share(word, $read)
                            };
                            Ok(())
                        },
                    );
                    if crossed {
                        $ctx.add("transitions", word.1 as u64);
                        $ctx.add("schedules", 1);
                        if !ok {
                            let detail = "the language accepts this crossing, which the element type does not allow".to_string();
                            let addr = [$ctx.job, (2 * s + m) as u64, 0];
                            $ctx.violations.push(Violation { addr, case: what, detail });
                            return;
                        }
                    } else if !$ctx.only_other() {
                        $ctx.add("refused", 1);
                        break;
                    }
                }
            }
        }
    };
}

fn nothing(_: usize) {}
macro_rules! kind {
    ($fname:ident, $e:ty) => {
        pub fn $fname(jobs: &mut Vec<Job>) {
            type E = $e;
            const SEND: bool = <E as El>::SEND;
            const SYNC: bool = <E as El>::SYNC;
            macro_rules! job {
                ($n:expr, $b:expr) => {
                    jobs.push(Job { name: format!("{} of {}", $n, E::NAME), f: Box::new($b) })
                };
            }
            fn ends<T: DoubleEndedIterator<Item = E>>(w: &mut T, k: usize) {
                if let Some(mut e) = if k % 2 == 0 { w.next() } else { w.next_back() } {
                    e.poke()
                }
            }
            fn one<T: Iterator<Item = E>>(w: &mut T, _: usize) {
                if let Some(mut e) = w.next() {
                    e.poke()
                }
            }
            fn mone<'a, T: Iterator<Item = &'a mut E>>(w: &mut T, _: usize) {
                if let Some(e) = w.next() {
                    e.poke()
                }
            }
            fn hint<T: Iterator>(w: &T, _: usize) {
                w.size_hint();
            }
            job!("Chunk", |x| crossing!(x, E, "a Chunk", SEND, SYNC, chunk, |c| c, rival nothing,
                write |w, k| if k % 2 == 0 { w.iter_mut().for_each(|e| e.poke()) } else { w.drop_left(1.min(w.len())) },
                read |w, k| if k % 2 == 0 { w.iter().for_each(|e| e.touch()) } else { w[0].touch() }));
            job!("RingBuffer", |x| crossing!(x, E, "a RingBuffer", SEND, SYNC, ring, |c| c, rival nothing,
                write |w, k| if k % 2 == 0 { w.iter_mut().for_each(|e| e.poke()) } else { drop(w.pop_front()) },
                read |w, k| if k % 2 == 0 { w.iter().for_each(|e| e.touch()) } else { w[0].touch() }));
            job!("SparseChunk", |x| crossing!(x, E, "a SparseChunk", SEND, SYNC, sparse, |c| c, rival nothing,
                write |w, k| if k % 2 == 0 { w.iter_mut().for_each(|e| e.poke()) } else { drop(w.pop()) },
                read |w, k| if k % 2 == 0 { w.iter().for_each(|e| e.touch()) } else { (0..4).filter_map(|i| w.get(i)).for_each(|e| e.touch()) }));
            job!("InlineArray", |x| crossing!(x, E, "an InlineArray", SEND, SYNC, inline, |c| c, rival nothing,
                write |w, k| if k % 2 == 0 { w.iter_mut().for_each(|e| e.poke()) } else { drop(w.pop()) },
                read |w, k| if k % 2 == 0 { w.iter().for_each(|e| e.touch()) } else { w[0].touch() }));
            // consuming iterators
            job!("Chunk::into_iter", |x| crossing!(x, E, "Chunk::into_iter", SEND, SYNC, chunk, |c| c.into_iter(), rival nothing, write ends, read hint));
            job!("RingBuffer::into_iter", |x| crossing!(x, E, "RingBuffer::into_iter", SEND, SYNC, ring, |c| c.into_iter(), rival nothing, write ends, read hint));
            job!("InlineArray::into_iter", |x| crossing!(x, E, "InlineArray::into_iter", SEND, SYNC, inline, |c| c.into_iter(), rival nothing, write ends, read hint));
            job!("SparseChunk::into_iter", |x| crossing!(x, E, "SparseChunk::into_iter", SEND, SYNC, sparse, |c| c.into_iter(), rival nothing, write one, read hint));
            job!("SparseChunk::option_drain", |x| crossing!(x, E, "SparseChunk::option_drain", SEND, SYNC, sparse, |c| c.option_drain(), rival nothing,
                write |w, _| if let Some(Some(mut e)) = w.next() { e.poke() }, read hint));
            // exclusively borrowing ones
            job!("Chunk::drain", |x| crossing!(x, E, "Chunk::drain", SEND, SYNC, chunk, |c| c.drain(), rival nothing, write ends, read hint));
            job!("RingBuffer::drain", |x| crossing!(x, E, "RingBuffer::drain", SEND, SYNC, ring, |c| c.drain(), rival nothing, write ends, read hint));
            job!("InlineArray::drain", |x| crossing!(x, E, "InlineArray::drain", SEND, SYNC, inline, |c| c.drain(), rival nothing, write ends, read hint));
            job!("RingBuffer::iter_mut", |x| crossing!(x, E, "RingBuffer::iter_mut", SEND, SYNC, ring, |c| c.iter_mut(), rival nothing, write mone, read hint));
            job!("SliceMut::iter_mut", |x| {
                crossing!(x, E, "SliceMut", SEND, SYNC, ring, |c| c.slice_mut(..), rival nothing,
                    write |w, k| if k % 2 == 0 { w.iter_mut().for_each(|e| e.poke()) } else { ArrayMut::get_mut(w, 0).unwrap().poke() },
                    read |w, k| if k % 2 == 0 { w.iter().for_each(|e| e.touch()) } else { Array::get(w, 0).unwrap().touch() })
            });
            job!("SparseChunk::iter_mut", |x| crossing!(x, E, "SparseChunk::iter_mut", SEND, SYNC, sparse, |c| c.iter_mut(), rival nothing, write mone, read hint));
            job!("SparseChunk::option_iter_mut", |x| crossing!(x, E, "SparseChunk::option_iter_mut", SEND, SYNC, sparse, |c| c.option_iter_mut(), rival nothing,
                write |w, _| if let Some(Some(e)) = w.next() { e.poke() }, read hint));
            // sharing ones: the sender can still look
            job!("RingBuffer::iter", |x| crossing!(x, E, "RingBuffer::iter", SYNC, SYNC, ring, |c| c.iter(), rival |_| c.iter().for_each(|e| e.touch()),
                write |w, k| if let Some(e) = if k % 2 == 0 { w.next() } else { w.next_back() } { e.touch() }, read hint));
            job!("RingBuffer::slice", |x| crossing!(x, E, "RingBuffer::slice", SYNC, SYNC, ring, |c| c.slice(..), rival |_| c.iter().for_each(|e| e.touch()),
                write |w, _| w.iter().for_each(|e| e.touch()),
                read |w, k| if k % 2 == 0 { w.iter().for_each(|e| e.touch()) } else { w[0].touch() }));
            job!("SparseChunk::iter", |x| crossing!(x, E, "SparseChunk::iter", SYNC, SYNC, sparse, |c| c.iter(), rival |_| c.iter().for_each(|e| e.touch()),
                write |w, _| if let Some(e) = w.next() { e.touch() }, read hint));
            job!("SparseChunk::entries", |x| crossing!(x, E, "SparseChunk::entries", SYNC, SYNC, sparse, |c| c.entries(), rival |_| c.iter().for_each(|e| e.touch()),
                write |w, _| if let Some((_, e)) = w.next() { e.touch() }, read hint));
            job!("SparseChunk::option_iter", |x| crossing!(x, E, "SparseChunk::option_iter", SYNC, SYNC, sparse, |c| c.option_iter(), rival |_| c.iter().for_each(|e| e.touch()),
                write |w, _| if let Some(Some(e)) = w.next() { e.touch() }, read hint));
        }
    };
}
kind!(plain_jobs, u32);
kind!(cell_jobs, Cell<u32>);
kind!(bound_jobs, Bound);
kind!(rc_jobs, Rc<Cell<u32>>);

/// two things that exist at the same time and may be used by two threads
fn together<A: Send, B: Send>(word: (u32, usize), mut a: A, fa: impl Fn(&mut A, usize) + Send, mut b: B, fb: impl Fn(&mut B, usize) + Send) {
    let turn = AtomicUsize::new(0);
    let turn = &turn;
    std::thread::scope(|s| {
        s.spawn(move || side(1, word, turn, |k| fa(&mut a, k)));
        s.spawn(move || side(0, word, turn, |k| fb(&mut b, k)));
    });
}
/// References handed out by one mutable iterator, halves of a window, and a container with its clone or split-off part.
pub fn together_jobs(jobs: &mut Vec<Job>) {
    macro_rules! refs {
        ($name:expr, $make:ident, |$c:ident| $it:expr) => {
            jobs.push(Job {
                name: format!("references of {} in two threads", $name),
                f: Box::new(|x| {
                    for (s, lay) in lays(x.thorough).into_iter().enumerate() {
                        x.state(s);
                        x.add("states", 1);
                        for who in 0..1u32 << lay.0 {
                            for word in words(2, 2) {
                                x.add("transitions", 4);
                                x.add("schedules", 1);
                                x.run(
                                    || format!("{} elements, {} pushed to the front, {:b} of them in the other thread, interleaving {:b}", lay.0, lay.1, who, word.0),
                                    || {
                                        let mut $c = $make(u32::family(lay.0), lay);
                                        let (mut a, mut b) = (vec![], vec![]);
                                        for (i, r) in $it.enumerate() {
                                            if who >> i & 1 == 1 {
                                                a.push(r)
                                            } else {
                                                b.push(r)
                                            }
                                        }
                                        let f = |v: &mut Vec<&mut u32>, _: usize| v.iter_mut().for_each(|e| e.poke());
                                        together(word, a, f, b, f);
                                        Ok(())
                                    },
                                );
                            }
                        }
                    }
                }),
            })
        };
    }
    refs!("Chunk::iter_mut", chunk, |c| c.iter_mut());
    refs!("RingBuffer::iter_mut", ring, |c| c.iter_mut());
    refs!("RingBuffer::iter_mut().rev()", ring, |c| c.iter_mut().rev());
    refs!("InlineArray::iter_mut", inline, |c| c.iter_mut());
    refs!("SparseChunk::iter_mut", sparse, |c| c.iter_mut());
    refs!("SparseChunk::option_iter_mut", sparse, |c| c.option_iter_mut().flatten());
    macro_rules! two {
        ($name:expr, $make:ident, |$c:ident, $i:ident| $ab:expr, $fa:expr, $fb:expr) => {
            jobs.push(Job {
                name: format!("{} in two threads", $name),
                f: Box::new(|x| {
                    for (s, lay) in lays(x.thorough).into_iter().enumerate() {
                        x.state(s);
                        x.add("states", 1);
                        for $i in 0..=lay.0 {
                            for word in words(2, 2) {
                                x.add("transitions", 4);
                                x.add("schedules", 1);
                                x.run(
                                    || format!("{} elements, {} pushed to the front, at {}, interleaving {:b}", lay.0, lay.1, $i, word.0),
                                    || {
                                        let mut $c = $make(u32::family(lay.0), lay);
                                        let (a, b) = $ab;
                                        together(word, a, $fa, b, $fb);
                                        Ok(())
                                    },
                                );
                            }
                        }
                    }
                }),
            })
        };
    }
    two!("the halves of a window", ring, |c, i| c.slice_mut(..).split_at(i), |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| w.iter_mut().for_each(|e| e.poke()));
    two!("windows on one buffer", ring, |c, i| (c.slice(..i), c.slice(i..)), |w, _| w.iter().for_each(|e| e.touch()), |w, _| w.iter().for_each(|e| e.touch()));
    two!("a Chunk and its clone", chunk, |c, _i| { let d = c.clone(); (c, d) }, |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| w.clear());
    two!("a RingBuffer and its clone", ring, |c, _i| { let d = c.clone(); (c, d) }, |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| w.clear());
    two!("a SparseChunk and its clone", sparse, |c, _i| { let d = c.clone(); (c, d) }, |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| drop(w.pop()));
    two!("an InlineArray and its clone", inline, |c, _i| { let d = c.clone(); (c, d) }, |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| w.clear());
    two!("a Chunk and what was split off", chunk, |c, i| { let d = c.split_off(i); (c, d) }, |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| w.clear());
    two!("a RingBuffer and what was split off", ring, |c, i| { let d = c.split_off(i); (c, d) }, |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| w.clear());
    two!("an InlineArray and what was split off", inline, |c, i| { let d = c.split_off(i); (c, d) }, |w, _| w.iter_mut().for_each(|e| e.poke()), |w, _| w.clear());
}

/// Does the detector see anything at all? A container that must stay where it is, forced across.
pub fn probe_job(jobs: &mut Vec<Job>) {
    struct Force<T>(T);
    unsafe impl<T> Send for Force<T> {}
    jobs.push(Job {
        name: "probe".into(),
        f: Box::new(|x| {
            x.run(
                || "forced".into(),
                || {
                    type E = Rc<Cell<u32>>;
                    let mut els = E::family(2);
                    let mine = Force(els.pop().unwrap());
                    let c = Force(chunk(els, (1, 0)));
                    let f = |e: &mut Force<E>, _: usize| e.0.poke();
                    together((0b0110, 4), c, |c, _| c.0.iter_mut().for_each(|e| e.poke()), mine, f);
                    Ok(())
                },
            );
        }),
    })
}
