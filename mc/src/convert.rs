//! C16: InlineArray -> Chunk.
use crate::elem::*;
use crate::harness::{guard, Ctx, Job};
use crate::ownership::*;
use crate::seq::*;
use sized_chunks::{Chunk, InlineArray};

fn convert_state<E: Elem, T: 'static, const N: usize>(ctx: &mut Ctx, st: &State) {
    type Ia<E, T> = InlineArray<E, T>;
    for by_ref in [false, true] {
        for follow in 0..6 {
            if ctx.stopped() {
                return;
            }
            ctx.add("transitions", 1);
            ctx.run(
                || format!("{} history {:?} converted by {} into Chunk<{},{}> (follow-up {})", Ia::<E, T>::name(), st.hist, if by_ref { "reference" } else { "value" }, E::NAME, N, follow),
                || {
                    let mut w = World::<Ia<E, T>>::build(&st.hist);
                    let (keys, ids, c0) = (w.c().keys(), w.c().ids(), clones());
                    let fits = keys.len() <= N;
                    let mut d = World::<Chunk<E, N>>::new();
                    d.next = w.next;
                    let r = if by_ref {
                        let a = w.cm();
                        guard(|| Chunk::<E, N>::from(a))
                    } else {
                        let a = std::mem::replace(w.cm(), Ia::make());
                        guard(|| a.into())
                    };
                    if E::CLONES && clones() != c0 {
                        return Err(format!("{} clones were made", clones() - c0));
                    }
                    match r {
                        Err(_) => {
                            if fits {
                                return Err(format!("{} elements were refused", keys.len()));
                            }
                            let held = if by_ref { (&keys[..], &ids[..]) } else { (&[][..], &[][..]) };
                            observe(w.c(), held.0)?;
                            if E::IDS && w.c().ids() != held.1 {
                                return Err("the source holds different elements after the refusal".into());
                            }
                            if E::TRACKED {
                                audit::<E>(&mut w.c().ids(), "after the refused conversion")?
                            }
                            if by_ref {
                                crate::refusal::usable(&mut w, &keys)?
                            }
                        }
                        Ok(c) => {
                            if !fits {
                                return Err(format!("{} elements were converted into a chunk of capacity {}", keys.len(), N));
                            }
                            d.g.c = c;
                            observe(d.c(), &keys)?;
                            if E::IDS && d.c().ids() != ids {
                                return Err(format!("the chunk holds other elements: {:?}, they were {:?}", d.c().ids(), ids));
                            }
                            observe(w.c(), &[]).map_err(|e| format!("source: {}", e))?;
                            if E::TRACKED {
                                let mut all = d.c().ids();
                                all.extend(w.c().ids());
                                audit::<E>(&mut all, "after the conversion")?;
                            }
                            // both go on as containers of their own
                            let mut m = keys.clone();
                            match follow {
                                0 => {
                                    w.next = d.next + 500;
                                    crate::refusal::usable(&mut w, &[])?;
                                    observe(d.c(), &m)?;
                                }
                                1 => crate::refusal::usable(&mut d, &m)?,
                                2 => {
                                    // the source goes first
                                    drop(w);
                                    observe(d.c(), &m)?;
                                    drop(d);
                                    return if E::TRACKED { clean::<E>("after dropping both") } else { Ok(()) };
                                }
                                3 => {
                                    drop(d);
                                    observe(w.c(), &[])?;
                                    drop(w);
                                    return if E::TRACKED { clean::<E>("after dropping both") } else { Ok(()) };
                                }
                                4 => {
                                    for op in [Op::PushF, Op::PopB, Op::Insert(0), Op::PushF, Op::InsFrom(1, 2)] {
                                        let room = N - m.len();
                                        if room >= nkeys(&op, N) as usize && !(op == Op::PopB && m.is_empty()) && !(matches!(op, Op::InsFrom(..)) && m.is_empty()) {
                                            step(&mut d, &mut m, &op)?
                                        }
                                    }
                                }
                                _ => {
                                    // convert a second time: nothing comes
                                    let again: Chunk<E, N> = w.cm().into();
                                    observe(&again, &[])?;
                                    observe(d.c(), &m)?;
                                }
                            }
                            d.zones()?;
                        }
                    }
                    w.zones()?;
                    drop((w, d));
                    if E::TRACKED {
                        clean::<E>("after dropping everything")?
                    }
                    Ok(())
                },
            );
        }
    }
}
pub fn convert_jobs<E: Elem, T: 'static, const N: usize>(jobs: &mut Vec<Job>, reps: usize) {
    space_jobs::<InlineArray<E, T>>(jobs, &format!("conversion into Chunk<{},{}> of", E::NAME, N), reps, 1, move |c, s| convert_state::<E, T, N>(c, s));
}
