//! Concurrent use: many threads on shared and private values; results are compared with the model
//! and with the sequential results, computed only after the threads have finished so that they
//! cannot warm anything up.

use crate::case::{mods_str, Case, Out};
use crate::check::{short, Obs, Verdict};
use crate::gen;
use crate::hist::{blame, data_pool, encoded_right, generate, generated_right, out_pool, res_hash, Nested, Panics};
use crate::rng::{hash, Src};
use crate::spec::{self, Admit};
use bcsut::{Kind, Obj, Sym};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;

/// Shares values even if they are not `Sync`: that they are is an observation, not a prerequisite.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

struct Probe<T>(PhantomData<T>);
impl<T: Send> Probe<T> {
    fn is_send(&self) -> bool {
        true
    }
}
trait NotSend {
    fn is_send(&self) -> bool {
        false
    }
}
impl<T> NotSend for Probe<T> {}
struct ProbeSync<T>(PhantomData<T>);
impl<T: Sync> ProbeSync<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
}
impl<T> NotSync for ProbeSync<T> {}

macro_rules! probe {
    ($out:ident, $($t:ty),+) => {
        $(
            let _ = NotSend::is_send(&Probe::<$t>(PhantomData));
            let _ = NotSync::is_sync(&ProbeSync::<$t>(PhantomData));
            $out.push((stringify!($t), Probe::<$t>(PhantomData).is_send(), ProbeSync::<$t>(PhantomData).is_sync()));
        )+
    };
}

/// Which public types are Send and Sync.
pub fn auto_traits() -> Vec<(&'static str, bool, bool)> {
    use bcsut::barcoders::{error::Error, generators as g, sym};
    let mut v = vec![];
    probe!(
        v,
        sym::ean13::EAN13,
        sym::upca::UPCA,
        sym::ean8::EAN8,
        sym::ean_supp::EANSUPP,
        sym::tf::TF,
        sym::codabar::Codabar,
        sym::code11::Code11,
        sym::code39::Code39,
        sym::code93::Code93,
        sym::code128::Code128,
        g::ascii::ASCII,
        g::json::JSON,
        g::svg::SVG,
        g::svg::Color,
        Error
    );
    #[cfg(feature = "image")]
    probe!(v, g::image::Image, g::image::Color, g::image::Rotation);
    v
}

struct Shared {
    objs: Vec<(Sym, String, Obj)>,
    outs: Vec<Out>,
    mods: Vec<Vec<u8>>,
    pool: Vec<(Sym, String)>,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Encode(usize),
    Construct(usize),
    Gen(usize, usize),
}

fn run(sh: &Shared, op: Op) -> (u64, Result<Vec<u8>, Kind>) {
    let r = match op {
        Op::Encode(i) => Ok(sh.objs[i].2.encode()),
        Op::Construct(i) => {
            let (s, d) = &sh.pool[i];
            bcsut::construct(*s, d).map(|o| o.encode())
        }
        Op::Gen(o, m) => generate(&sh.outs[o], &sh.mods[m]),
    };
    (res_hash(&r), r)
}

fn op(src: &mut Src, sh: &Shared, hot: usize) -> Op {
    match src.below(10) {
        0..=3 => Op::Encode(if src.chance(1, 2) { hot % sh.objs.len() } else { src.below(sh.objs.len()) }),
        4..=6 => Op::Construct(src.below(sh.pool.len())),
        _ => Op::Gen(src.below(sh.outs.len()), src.below(sh.mods.len())),
    }
}

fn describe(sh: &Shared, op: Op) -> String {
    match op {
        Op::Encode(i) => format!("encoding shared {:?} {}", sh.objs[i].0, short(&sh.objs[i].1)),
        Op::Construct(i) => format!("constructing and encoding {:?} {}", sh.pool[i].0, short(&sh.pool[i].1)),
        Op::Gen(o, m) => format!("{} of {}", sh.outs[o].to_j().write(), short(&mods_str(&sh.mods[m]))),
    }
}

pub fn check(seed: u64, threads: u32, rounds: u32, ops: u32, obs: &mut Obs) -> Verdict {
    for (t, send, sync) in auto_traits() {
        if !send || !sync {
            return Err(format!("type {}: Send {} Sync {}", t, send, sync));
        }
    }
    let images = cfg!(feature = "image") && !cfg!(miri);
    for round in 0..rounds {
        let mut src = Src::seeded(seed.wrapping_add(round as u64 * 7919));
        let per = if cfg!(miri) { 1 } else { 2 };
        let mut pool = data_pool(&mut src, per);
        if cfg!(miri) {
            pool.truncate(400);
            let keep: Vec<_> = (0..30).map(|_| src.pick(&pool).clone()).filter(|p| p.1.len() < 40).collect();
            pool = keep;
        }
        let outs = out_pool(&mut src, if cfg!(miri) { 4 } else { 24 }, images);
        let mods: Vec<Vec<u8>> = (0..12).map(|_| gen::mods(&mut src, if cfg!(miri) { 20 } else { 120 })).collect();
        // Shared values are constructed without being encoded.
        let mut objs = vec![];
        for _ in 0..if cfg!(miri) { 4 } else { 16 } {
            let sym = *src.pick(&Sym::ALL);
            let d = gen::valid(&mut src, sym, 60);
            if let Ok(o) = bcsut::construct(sym, &d) {
                objs.push((sym, d, o));
            }
        }
        if objs.is_empty() || pool.is_empty() {
            continue;
        }
        let sh = Share(Shared { objs, outs, mods, pool });
        let barrier = Barrier::new(threads as usize);
        let overlap = AtomicUsize::new(0);
        let results: Vec<Vec<(Op, u64)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (sh, barrier, overlap) = (&sh, &barrier, &overlap);
                    std::thread::Builder::new()
                        .name(format!("w{}", t))
                        .spawn_scoped(sc, move || {
                            let sh = sh.get();
                            // In even rounds all threads make the same calls at the same time.
                            let mut src = Src::seeded(if round % 2 == 0 { seed ^ round as u64 } else { seed ^ (t as u64) << 32 ^ round as u64 });
                            let mut log = Vec::with_capacity(ops as usize);
                            barrier.wait();
                            overlap.fetch_add(1, Ordering::Relaxed);
                            for i in 0..ops {
                                let o = op(&mut src, sh, i as usize / 16);
                                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(sh, o).0));
                                log.push((o, r.unwrap_or(0)));
                                if i % 32 == 7 {
                                    let sym = *src.pick(&Sym::ALL);
                                    let _ = std::panic::catch_unwind(|| bcsut::construct_with(sym, Panics).is_ok());
                                    let _ = std::panic::catch_unwind(|| bcsut::construct_with(Sym::Code93, Nested("AB")).is_ok());
                                }
                                if i % 64 == 9 {
                                    std::thread::yield_now();
                                }
                                PROGRESS.fetch_add(1, Ordering::Relaxed);
                            }
                            overlap.fetch_sub(1, Ordering::Relaxed);
                            log
                        })
                        .expect("harness: cannot start a thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness: worker panicked")).collect()
        });
        let sh = sh.get();
        let mut cache: std::collections::HashMap<(u8, usize, usize), u64> = Default::default();
        for (t, log) in results.iter().enumerate() {
            let mut order = 0u64;
            for (i, (o, h)) in log.iter().enumerate() {
                let key = match *o {
                    Op::Encode(i) => (0, i, 0),
                    Op::Construct(i) => (1, i, 0),
                    Op::Gen(a, b) => (2, a, b),
                };
                order = hash(&[&order.to_le_bytes(), &[key.0, key.1 as u8, key.2 as u8]]);
                let what = || format!("seed {} round {} thread {} call {}: {}", seed, round, t, i, describe(sh, *o));
                let exp = match cache.get(&key) {
                    Some(e) => *e,
                    None => {
                        // Only after the threads have finished: nothing is warmed up for them.
                        let (e, right) = match crate::check::call("the call", || run(sh, *o)) {
                            Err(p) => (0, Err(p)),
                            Ok((e, r)) => (
                                e,
                                match (*o, &r) {
                                    (Op::Encode(i), Ok(m)) => encoded_right(sh.objs[i].0, &sh.objs[i].1, m, obs),
                                    (Op::Construct(i), Ok(m)) => encoded_right(sh.pool[i].0, &sh.pool[i].1, m, obs),
                                    (Op::Construct(i), Err(k)) => match spec::admit(sh.pool[i].0, &sh.pool[i].1) {
                                        Admit::Reject(ks) if ks.contains(k) => Ok(()),
                                        a => Err(format!("{:?}, the model says {:?}", k, a)),
                                    },
                                    (Op::Gen(a, b), r) => generated_right(&sh.outs[a], &sh.mods[b], r),
                                    _ => Ok(()),
                                },
                            ),
                        };
                        // The sequential result must itself not be one the threads have left behind.
                        if right.is_err() {
                            let case = match *o {
                                Op::Encode(i) => Case::Sym { sym: sh.objs[i].0, data: sh.objs[i].1.clone() },
                                Op::Construct(i) => Case::Sym { sym: sh.pool[i].0, data: sh.pool[i].1.clone() },
                                Op::Gen(a, b) => Case::Gen { out: sh.outs[a].clone(), mods: sh.mods[b].clone() },
                            };
                            blame(&case, e, right, obs).map_err(|e| format!("{} (sequential result): {}", what(), e))?;
                        }
                        cache.insert(key, e);
                        e
                    }
                };
                if *h != exp {
                    return Err(format!("{}: {} unlike the sequential result", what(), if *h == 0 { "panicked" } else { "result" }));
                }
            }
            if !obs.quiet {
                obs.distinct.insert(hash(&[&order.to_le_bytes(), &(t as u64).to_le_bytes(), &round.to_le_bytes()]));
            }
            obs.count("concurrent calls", log.len() as u64);
        }
        obs.count("rounds", 1);
        obs.dim("thread counts", threads as u64);
    }
    Ok(true)
}
