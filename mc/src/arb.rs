//! C20: generation from every byte string of a bounded family, against the generator's own element sequence.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::ownership::clean;
use crate::seq::*;
use crate::sparse::*;
use arbitrary::{Arbitrary, Error, Result as AResult, Unstructured};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::sparse_chunk::SparseChunk;

/// one byte per element; the byte 0xee is a format error
impl<'a> Arbitrary<'a> for Tok {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        match u8::arbitrary(u)? {
            0xee => Err(Error::IncorrectFormat),
            b => Ok(Tok::mk(b as u32)),
        }
    }
    fn size_hint(_: usize) -> (usize, Option<usize>) {
        (1, Some(1))
    }
}
/// needs two bytes and reports exhaustion when they are not there
impl<'a> Arbitrary<'a> for TokB {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        let mut b = [0u8; 2];
        if u.len() < 2 {
            return Err(Error::NotEnoughData);
        }
        u.fill_buffer(&mut b)?;
        Ok(TokB::mk(b[0] as u32 * 3 + b[1] as u32))
    }
    fn size_hint(_: usize) -> (usize, Option<usize>) {
        (2, Some(2))
    }
}
/// zero-sized, but reads a byte
impl<'a> Arbitrary<'a> for TokZ {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        u8::arbitrary(u)?;
        Ok(TokZ::mk(0))
    }
    fn size_hint(_: usize) -> (usize, Option<usize>) {
        (1, Some(1))
    }
}

pub trait Gen: Sized + 'static {
    type E: Elem;
    /// what the generator produces per position
    type I: for<'a> Arbitrary<'a>;
    fn gname() -> String;
    fn gcap() -> usize;
    fn key(i: &Self::I) -> Option<u32>;
    fn valid(&self, exp: &[Option<u32>]) -> Result<(), String>;
    /// a few operations after generation
    fn usable(&mut self, exp: &[Option<u32>]) -> Result<(), String>;
    fn gen(u: &mut Unstructured<'_>) -> AResult<Self>;
    fn gen_rest(u: Unstructured<'_>) -> AResult<Self>;
    fn hint(depth: usize) -> (usize, Option<usize>);
}
macro_rules! seq_gen { ($($g:tt)*) => {
    $($g)* {
        type E = E;
        type I = E;
        fn gname() -> String { <Self as Seq>::name() }
        fn gcap() -> usize { <Self as Seq>::cap() }
        fn key(i: &E) -> Option<u32> { Some(i.key()) }
        fn valid(&self, exp: &[Option<u32>]) -> Result<(), String> {
            observe(self, &exp.iter().map(|x| x.unwrap()).collect::<Vec<_>>())
        }
        fn usable(&mut self, exp: &[Option<u32>]) -> Result<(), String> {
            let mut m: Vec<u32> = exp.iter().map(|x| x.unwrap()).collect();
            let mut next = 100;
            for op in [Op::PopB, Op::PushB, Op::Insert(0), Op::Remove(0), Op::Clear] {
                let mut out = Out::default();
                let r = guard(|| self.exec(&op, next, &mut out));
                let o = Outcome { panic: r.err(), out, base: next };
                let x = model(Self::KIND, Self::cap(), &mut m, &op, next);
                next += nkeys(&op, Self::cap());
                compare_on(self, &m, &op, &o, &x).map_err(|e| format!("then {:?}: {}", op, e))?;
            }
            Ok(())
        }
        fn gen(u: &mut Unstructured<'_>) -> AResult<Self> { Self::arbitrary(u) }
        fn gen_rest(u: Unstructured<'_>) -> AResult<Self> { Self::arbitrary_take_rest(u) }
        fn hint(d: usize) -> (usize, Option<usize>) { <Self as Arbitrary<'static>>::size_hint(d) }
    }
} }
seq_gen!(impl<E: Elem + for<'a> Arbitrary<'a>, const N: usize> Gen for sized_chunks::Chunk<E, N> where BitsImpl<N>: Bits);
seq_gen!(impl<E: Elem + for<'a> Arbitrary<'a>, const N: usize> Gen for sized_chunks::RingBuffer<E, N> where BitsImpl<N>: Bits);
seq_gen!(impl<E: Elem + for<'a> Arbitrary<'a>, T: 'static> Gen for sized_chunks::InlineArray<E, T>);
impl<E: Elem + for<'a> Arbitrary<'a>, const N: usize> Gen for SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    type E = E;
    type I = Option<E>;
    fn gname() -> String {
        format!("SparseChunk<{},{}>", E::NAME, N)
    }
    fn gcap() -> usize {
        N
    }
    fn key(i: &Option<E>) -> Option<u32> {
        i.as_ref().map(|e| e.key())
    }
    fn valid(&self, exp: &[Option<u32>]) -> Result<(), String> {
        sobserve(self, &exp.iter().enumerate().filter_map(|(i, k)| k.map(|k| (i, k))).collect())
    }
    fn usable(&mut self, exp: &[Option<u32>]) -> Result<(), String> {
        let mut m: M = exp.iter().enumerate().filter_map(|(i, k)| k.map(|k| (i, k))).collect();
        let mut next = 100;
        for op in [SOp::Pop, SOp::Insert(0), SOp::Insert(N - 1), SOp::Remove(N / 2), SOp::IntoIter(N + 1)] {
            let mut out = SOut { ret: vec![], others: vec![] };
            let r = guard(|| sexec(self, &op, next, &mut out));
            let o = SOutcome { panic: r.err(), out, base: next };
            let x = smodel(N, &mut m, &op, next);
            next += snkeys(&op);
            scompare_on(self, &m, &op, &o, &x).map_err(|e| format!("then {:?}: {}", op, e))?;
        }
        Ok(())
    }
    fn gen(u: &mut Unstructured<'_>) -> AResult<Self> {
        Self::arbitrary(u)
    }
    fn gen_rest(u: Unstructured<'_>) -> AResult<Self> {
        Self::arbitrary_take_rest(u)
    }
    fn hint(d: usize) -> (usize, Option<usize>) {
        <Self as Arbitrary<'static>>::size_hint(d)
    }
}
/// The first capacity-many elements of the generator: keys, or the error; and how many bytes are left.
fn elements<G: Gen>(bytes: &[u8], rest: bool) -> (AResult<Vec<Option<u32>>>, usize) {
    let mut u = Unstructured::new(bytes);
    if rest {
        let mut v = vec![];
        match u.arbitrary_take_rest_iter::<G::I>() {
            Err(e) => return (Err(e), 0),
            Ok(mut it) => {
                while v.len() < G::gcap() {
                    match it.next() {
                        None => break,
                        Some(Err(e)) => return (Err(e), 0),
                        Some(Ok(x)) => v.push(G::key(&x)),
                    }
                }
            }
        }
        return (Ok(v), 0);
    }
    let mut v = vec![];
    let mut err = None;
    match u.arbitrary_iter::<G::I>() {
        Err(e) => err = Some(e),
        Ok(mut it) => {
            while v.len() < G::gcap() {
                match it.next() {
                    None => break,
                    Some(Err(e)) => {
                        err = Some(e);
                        break;
                    }
                    Some(Ok(x)) => v.push(G::key(&x)),
                }
            }
        }
    }
    (err.map_or(Ok(v), Err), u.len())
}
fn ename(e: &Error) -> String {
    format!("{:?}", e)
}
fn compare_gen<G: Gen>(got: AResult<G>, exp: &AResult<Vec<Option<u32>>>, deep: bool) -> Result<(), String> {
    match (got, exp) {
        (Ok(mut c), Ok(x)) => {
            c.valid(x)?;
            if deep {
                c.usable(x)?
            }
            Ok(())
        }
        (Err(e), Err(x)) if ename(&e) == ename(x) => Ok(()),
        (Ok(_), Err(x)) => Err(format!("generated although the generator reports {:?}", x)),
        (Err(e), x) => Err(format!("error {:?}, expected {:?}", e, x.as_ref().map_err(ename))),
    }
}
pub fn one<G: Gen>(bytes: &[u8]) -> Result<(), String> {
    let (exp, left) = elements::<G>(bytes, false);
    for round in 0..2 {
        let mut u = Unstructured::new(bytes);
        let got = guard(|| G::gen(&mut u)).map_err(|p| format!("panicked: {}", p))?;
        compare_gen(got, &exp, round == 0)?;
        if exp.is_ok() && u.len() != left {
            return Err(format!("{} of {} bytes left, the elements alone leave {}", u.len(), bytes.len(), left));
        }
        if let (lo, Some(hi)) = G::hint(0) {
            let used = bytes.len() - u.len();
            if used > hi || lo > hi {
                return Err(format!("{} bytes consumed, size_hint() = ({}, {})", used, lo, hi));
            }
        }
    }
    let (exp, _) = elements::<G>(bytes, true);
    for round in 0..2 {
        let got = guard(|| G::gen_rest(Unstructured::new(bytes))).map_err(|p| format!("arbitrary_take_rest panicked: {}", p))?;
        compare_gen(got, &exp, round == 0).map_err(|e| format!("arbitrary_take_rest: {}", e))?;
    }
    if G::E::TRACKED {
        clean::<G::E>("after dropping everything")?
    }
    Ok(())
}
/// all strings over an alphabet up to a length
fn strings(alpha: &[u8], len: usize, f: &mut dyn FnMut(&[u8])) {
    for l in 0..=len {
        let mut ix = vec![0usize; l];
        loop {
            let s: Vec<u8> = ix.iter().map(|i| alpha[*i]).collect();
            f(&s);
            let Some(k) = ix.iter().rposition(|i| *i + 1 < alpha.len()) else { break };
            ix[k] += 1;
            ix[k + 1..].fill(0)
        }
    }
}
pub fn gen_jobs<G: Gen>(jobs: &mut Vec<Job>, len: usize, period: usize, shards: usize) {
    for sh in 0..shards {
        jobs.push(Job {
            name: format!("generation {} {}/{}", G::gname(), sh, shards),
            f: Box::new(move |ctx: &mut Ctx| {
                let mut n = 0;
                let case = |ctx: &mut Ctx, n: &mut usize, b: &[u8]| {
                    *n += 1;
                    if *n % shards != sh || ctx.stopped() {
                        return;
                    }
                    ctx.state(*n);
                    ctx.add("states", 1);
                    ctx.add("transitions", 4);
                    ctx.run(|| format!("{} from bytes {:?}", G::gname(), b), || one::<G>(b));
                };
                if sh == 0 {
                    ctx.run(
                        || format!("{} size_hint", G::gname()),
                        || {
                            for d in [0, 1, 2, 19, 20, 21, 22, 1000, usize::MAX - 1] {
                                let (lo, hi) = guard(|| G::hint(d)).map_err(|p| format!("size_hint({}) panicked: {}", d, p))?;
                                if lo > 0 || hi.map_or(false, |h| h < lo) {
                                    return Err(format!("size_hint({}) = ({}, {:?}), but an empty input is enough", d, lo, hi));
                                }
                            }
                            Ok(())
                        },
                    );
                }
                strings(&[0, 1, 0xf9, 0xee], len, &mut |s| case(ctx, &mut n, s));
                // periodic strings, long enough to fill the container
                strings(&[0, 1, 2, 3, 0xf7, 0xf9, 0xee], period, &mut |w| {
                    if w.is_empty() {
                        return;
                    }
                    let full = G::gcap().min(70) * 5 + 6;
                    for l in [full, full / 2, full / 3 + 1, 17] {
                        let s: Vec<u8> = w.iter().cycle().take(l).copied().collect();
                        case(ctx, &mut n, &s);
                        let mut s2 = s.clone();
                        let k = s2.len() / 2;
                        s2[k] = 0;
                        case(ctx, &mut n, &s2);
                        s2[k] = 0xee;
                        case(ctx, &mut n, &s2)
                    }
                });
            }),
        });
    }
}
