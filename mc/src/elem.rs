//! Element types. Tracked ones report every lifecycle event to a thread-local registry, so that a double drop, a
//! leak, an observed dead/garbage slot or an unexpected clone is seen by the harness.
//! The registry also owns the callback fault injector (the n-th user callback panics).
use std::cell::{Cell, RefCell};
use sized_chunks::{Chunk, InlineArray};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Reg {
    /// state of each token id: 1 live, 0 dropped
    live: Vec<u8>,
    nlive: i64,
    byte: Vec<i32>,
    zst: i64,
    errs: Vec<String>,
    clones: u64,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FAULT: Cell<u64> = const { Cell::new(0) };
    static FAULTMASK: Cell<u32> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
}
pub const F_CLONE: u32 = 1;
pub const F_DROP: u32 = 2;
pub const F_CMP: u32 = 4;
pub const F_NEXT: u32 = 8;
pub const F_HASH: u32 = 16;
pub const F_FMT: u32 = 32;
pub const F_ALL: u32 = 63;
pub const GARBAGE: u32 = u32::MAX;
pub const INJECTED: &str = "injected fault";

#[cfg(miri)]
mod injector {
    //! the abstract machine runs one thread, and thread-locals are slow there
    pub static mut ST: (u32, u64, u64, bool) = (0, 0, 0, false);
    pub fn tick(kind: u32) {
        unsafe {
            if ST.0 & kind == 0 {
                return;
            }
            ST.1 += 1;
            if ST.2 == 0 || std::thread::panicking() {
                return;
            }
            ST.2 -= 1;
            if ST.2 == 0 {
                ST.3 = true;
                std::panic::panic_any(super::INJECTED)
            }
        }
    }
    pub fn arm(mask: u32, n: u64) {
        unsafe { ST = (mask, 0, n, false) }
    }
    pub fn disarm() -> (u64, bool) {
        unsafe {
            ST.0 = 0;
            ST.2 = 0;
            (ST.1, ST.3)
        }
    }
}
#[cfg(miri)]
pub use injector::*;
#[cfg(not(miri))]
pub use native_injector::*;
#[cfg(not(miri))]
mod native_injector {
use super::*;
/// Called by every user callback. Panics if this is the callback selected by `arm`.
pub fn tick(kind: u32) {
    if FAULTMASK.with(|m| m.get()) & kind == 0 {
        return;
    }
    COUNT.with(|c| c.set(c.get() + 1));
    let f = FAULT.with(|f| f.get());
    if f == 0 || std::thread::panicking() {
        return;
    }
    FAULT.with(|c| c.set(f - 1));
    if f == 1 {
        FIRED.with(|x| x.set(true));
        panic!("{}", INJECTED);
    }
}
/// Count callbacks of the kinds in `mask`; the `n`-th one panics (0: none).
pub fn arm(mask: u32, n: u64) {
    FAULTMASK.with(|m| m.set(mask));
    FAULT.with(|m| m.set(n));
    COUNT.with(|m| m.set(0));
    FIRED.with(|m| m.set(false));
}
/// Stop; returns (callbacks seen, whether the fault fired)
pub fn disarm() -> (u64, bool) {
    FAULTMASK.with(|m| m.set(0));
    FAULT.with(|m| m.set(0));
    (COUNT.with(|c| c.get()), FIRED.with(|c| c.get()))
}
}
pub fn reset() {
    disarm();
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.live.clear();
        r.nlive = 0;
        r.byte.clear();
        r.zst = 0;
        r.errs.clear();
        r.clones = 0;
    })
}
fn err(r: &mut Reg, s: String) {
    if r.errs.len() < 4 {
        r.errs.push(s)
    }
}
pub fn take_errs() -> Vec<String> {
    REG.with(|r| std::mem::take(&mut r.borrow_mut().errs))
}
pub fn has_errs() -> bool {
    REG.with(|r| !r.borrow().errs.is_empty())
}
pub fn clones() -> u64 {
    REG.with(|r| r.borrow().clones)
}

pub trait Elem: Clone + Ord + Debug + Hash + 'static {
    const NAME: &'static str;
    /// number of distinct keys this type can carry
    const KEYS: u32;
    /// lifecycle is recorded by the registry
    const TRACKED: bool;
    /// clone() is counted
    const CLONES: bool = Self::TRACKED;
    /// each instance has an identity (id) of its own
    const IDS: bool;
    fn mk(k: u32) -> Self;
    fn key(&self) -> u32;
    fn id(&self) -> u32 {
        self.key()
    }
    fn norm(k: u32) -> u32 {
        if Self::KEYS == 0 {
            k
        } else {
            k % Self::KEYS
        }
    }
    /// extend() from references, where the element type allows it
    fn extend_chunk<const N: usize>(c: &mut Chunk<Self, N>, v: &[Self]) {
        c.extend(v.iter().cloned())
    }
    fn extend_inline<T>(c: &mut InlineArray<Self, T>, v: &[Self]) {
        c.extend(v.iter().cloned())
    }
    /// number of live instances according to the registry
    fn live() -> i64 {
        0
    }
}

/// Tracked token: identity, key, checksum.
pub struct Tok {
    key: u32,
    id: u32,
    chk: u32,
    /// on the abstract machine a double drop or a look at a dead element is a memory error, not only a bookkeeping one
    #[cfg(miri)]
    own: Box<u32>,
}
const MAGIC: u32 = 0x5eed_1e55;
impl Tok {
    fn valid(&self, r: &Reg) -> bool {
        self.chk == self.id ^ MAGIC ^ self.key.rotate_left(9) && r.live.get(self.id as usize) == Some(&1)
    }
    fn alloc(key: u32) -> Self {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.live.len() as u32;
            r.live.push(1);
            r.nlive += 1;
            Tok {
                key,
                id,
                chk: id ^ MAGIC ^ key.rotate_left(9),
                #[cfg(miri)]
                own: Box::new(key),
            }
        })
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if self.valid(&r) {
                r.live[self.id as usize] = 0;
                r.nlive -= 1;
            } else if self.chk == self.id ^ MAGIC ^ self.key.rotate_left(9) && (self.id as usize) < r.live.len() {
                let s = format!("element {} dropped twice", self.key);
                err(&mut r, s)
            } else {
                err(&mut r, "uninitialised or corrupted slot dropped".to_string())
            }
        });
        tick(F_DROP);
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        tick(F_CLONE);
        let k = self.key();
        REG.with(|r| r.borrow_mut().clones += 1);
        Tok::alloc(k)
    }
}
impl Elem for Tok {
    const NAME: &'static str = "Tok";
    const KEYS: u32 = 0;
    const TRACKED: bool = true;
    const IDS: bool = true;
    fn mk(k: u32) -> Self {
        Tok::alloc(k)
    }
    fn key(&self) -> u32 {
        #[cfg(miri)]
        std::hint::black_box(*self.own);
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if self.valid(&r) {
                self.key
            } else {
                err(&mut r, "dead or uninitialised element observed".to_string());
                GARBAGE
            }
        })
    }
    fn id(&self) -> u32 {
        self.id
    }
    fn live() -> i64 {
        REG.with(|r| r.borrow().nlive)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Self) -> bool {
        tick(F_CMP);
        self.key() == o.key()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Self) -> Ordering {
        tick(F_CMP);
        self.key().cmp(&o.key())
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick(F_HASH);
        self.key().hash(h)
    }
}
impl Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick(F_FMT);
        write!(f, "t{}", self.key())
    }
}

/// Tracked one-byte token (a different element size; no room for an identity, counted per key).
pub struct TokB(u8);
fn byte(r: &mut Reg, k: u8) -> &mut i32 {
    if r.byte.is_empty() {
        r.byte.resize(256, 0)
    }
    &mut r.byte[k as usize]
}
impl Drop for TokB {
    fn drop(&mut self) {
        let k = self.0;
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let b = byte(&mut r, k);
            *b -= 1;
            if *b < 0 {
                err(&mut r, format!("byte element {} dropped more often than created", k))
            }
            r.nlive -= 1;
        });
        tick(F_DROP);
    }
}
impl Elem for TokB {
    const NAME: &'static str = "TokB";
    const KEYS: u32 = 251;
    const TRACKED: bool = true;
    const IDS: bool = false;
    fn mk(k: u32) -> Self {
        let k = Self::norm(k) as u8;
        REG.with(|r| {
            let mut r = r.borrow_mut();
            *byte(&mut r, k) += 1;
            r.nlive += 1;
        });
        TokB(k)
    }
    fn key(&self) -> u32 {
        let k = self.0;
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if *byte(&mut r, k) > 0 {
                k as u32
            } else {
                err(&mut r, "dead or uninitialised byte element observed".to_string());
                GARBAGE
            }
        })
    }
    fn live() -> i64 {
        REG.with(|r| r.borrow().nlive)
    }
}
impl Clone for TokB {
    fn clone(&self) -> Self {
        tick(F_CLONE);
        REG.with(|r| r.borrow_mut().clones += 1);
        TokB::mk(self.key())
    }
}

/// Tracked zero-sized element (counted).
pub struct TokZ(());
impl Drop for TokZ {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.zst -= 1;
            if r.zst < 0 {
                err(&mut r, "more zero-sized elements dropped than created".to_string())
            }
        });
        tick(F_DROP);
    }
}
impl Elem for TokZ {
    const NAME: &'static str = "TokZ";
    const KEYS: u32 = 1;
    const TRACKED: bool = true;
    const IDS: bool = false;
    fn mk(_: u32) -> Self {
        REG.with(|r| r.borrow_mut().zst += 1);
        TokZ(())
    }
    fn key(&self) -> u32 {
        0
    }
    fn live() -> i64 {
        REG.with(|r| r.borrow().zst)
    }
}
impl Clone for TokZ {
    fn clone(&self) -> Self {
        tick(F_CLONE);
        REG.with(|r| r.borrow_mut().clones += 1);
        TokZ::mk(0)
    }
}

/// No destructor, but a clone that is not a bitwise copy: it is counted and gets an identity of its own.
pub struct Cln(u32, u32);
impl Elem for Cln {
    const NAME: &'static str = "Cln";
    const KEYS: u32 = 0;
    const TRACKED: bool = false;
    const CLONES: bool = true;
    const IDS: bool = true;
    fn mk(k: u32) -> Self {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.live.push(1);
            Cln(k, r.live.len() as u32 - 1)
        })
    }
    fn key(&self) -> u32 {
        self.0
    }
    fn id(&self) -> u32 {
        self.1
    }
}
impl Clone for Cln {
    fn clone(&self) -> Self {
        tick(F_CLONE);
        REG.with(|r| r.borrow_mut().clones += 1);
        Cln::mk(self.0)
    }
}

macro_rules! tracked_traits { ($($t:ty),*) => { $(
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { tick(F_CMP); self.key() == o.key() } }
    impl Eq for $t {}
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { tick(F_CMP); self.key().cmp(&o.key()) } }
    impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { tick(F_HASH); self.key().hash(h) } }
    impl Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { tick(F_FMT); write!(f, "t{}", self.key()) } }
)* } }
tracked_traits!(TokB, TokZ, Cln);

macro_rules! plain { ($t:ty, $name:expr, $keys:expr, $mk:expr, $key:expr) => {
    impl Elem for $t {
        const NAME: &'static str = $name;
        const KEYS: u32 = $keys;
        const TRACKED: bool = false;
        const IDS: bool = false;
        fn mk(k: u32) -> Self { let k = Self::norm(k); ($mk)(k) }
        fn extend_chunk<const N: usize>(c: &mut Chunk<Self, N>, v: &[Self]) {
            c.extend(v)
        }
        fn extend_inline<T>(c: &mut InlineArray<Self, T>, v: &[Self]) {
            c.extend(v)
        }
        fn key(&self) -> u32 { ($key)(self) }
    }
} }
plain!(u8, "u8", 251, |k| k as u8, |s: &u8| *s as u32);
plain!(u16, "u16", 65521, |k| k as u16, |s: &u16| *s as u32);
plain!(u32, "u32", 0, |k| k, |s: &u32| *s);
plain!(u64, "u64", 0, |k: u32| (k as u64) << 32 | (!k) as u64,
    |s: &u64| { let k = (*s >> 32) as u32; if *s as u32 == !k { k } else { GARBAGE } });
plain!(u128, "u128", 0, |k: u32| (k as u128) << 96 | (!k) as u128,
    |s: &u128| { let k = (*s >> 96) as u32; if *s & (u128::MAX >> 32) == (!k) as u128 { k } else { GARBAGE } });
plain!([u8; 3], "[u8;3]", 251, |k| [k as u8, !(k as u8), 0x5a],
    |s: &[u8; 3]| if s[1] == !s[0] && s[2] == 0x5a { s[0] as u32 } else { GARBAGE });
// larger than a cache line, and than any header
plain!([u64; 17], "[u64;17]", 0, |k: u32| { let mut v = [0x5a5a_5a5a_5a5au64; 17]; v[0] = k as u64; v[16] = !(k as u64); v },
    |s: &[u64; 17]| if s[16] == !s[0] && s[1..16].iter().all(|x| *x == 0x5a5a_5a5a_5a5a) { s[0] as u32 } else { GARBAGE });
plain!((), "()", 1, |_| (), |_: &()| 0);

/// Over-aligned plain element.
#[repr(align(64))]
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Al64(pub u32, pub u32);
plain!(Al64, "Al64", 0, |k: u32| Al64(k, !k), |s: &Al64| {
    if (s as *const Al64 as usize) % 64 == 0 && s.1 == !s.0 { s.0 } else { GARBAGE }
});
#[repr(align(16))]
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Al16(pub u8);
plain!(Al16, "Al16", 251, |k: u32| Al16(k as u8), |s: &Al16| {
    if (s as *const Al16 as usize) % 16 == 0 { s.0 as u32 } else { GARBAGE }
});
impl Elem for Box<u32> {
    const NAME: &'static str = "Box";
    const KEYS: u32 = 0;
    const TRACKED: bool = false;
    const IDS: bool = false;
    fn mk(k: u32) -> Self {
        Box::new(k)
    }
    fn key(&self) -> u32 {
        **self
    }
}
/// Partially ordered plain element: key 2 is unordered and unequal to everything, itself included (like a float NaN).
#[derive(Clone, Copy, Hash, Debug)]
pub struct Part(pub u8);
impl PartialEq for Part {
    fn eq(&self, o: &Self) -> bool {
        self.0 != 2 && self.0 == o.0
    }
}
impl Eq for Part {}
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.0 == 2 || o.0 == 2 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
impl Ord for Part {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
plain!(Part, "Part", 3, |k: u32| Part(k as u8), |s: &Part| s.0 as u32);
