//! The first use of the library in a process, by many threads at once. Each run is a process of
//! its own.

use crate::case::Case;
use crate::check::{self, short, Obs, Verdict};
use crate::gen;
use crate::hist::{blame, encoded_right, generate, generated_right, res_hash};
use crate::rng::Src;
use crate::spec::{self, Admit};
use bcsut::{Kind, Sym};
use std::sync::atomic::{AtomicUsize, Ordering};

fn run(c: &Case) -> Result<Result<Vec<u8>, Kind>, String> {
    check::call("the call", || match c {
        Case::Sym { sym, data } => bcsut::construct(*sym, data).map(|o| o.encode()),
        Case::Gen { out, mods } => generate(out, mods),
        _ => unreachable!(),
    })
}

fn hash_of(c: &Case) -> u64 {
    run(c).as_ref().map_or(0, res_hash)
}

fn some_call(src: &mut Src, family: usize) -> Case {
    match Sym::ALL.get(family) {
        Some(&sym) => Case::Sym { sym, data: gen::valid(src, sym, 40) },
        None => Case::Gen { out: gen::small_out(src, cfg!(feature = "image")), mods: gen::mods(src, 80) },
    }
}

/// One process: the message of a violation, if there is one.
pub fn child(seed: u64) -> Option<String> {
    let mut src = Src::seeded(seed);
    let threads = *src.pick(&[2usize, 3, 4, 6, 8, 16]);
    let family = src.below(Sym::ALL.len() + 3);
    let alike = src.chance(1, 2);
    let first = some_call(&mut src, family);
    let plans: Vec<(Vec<Case>, usize)> = (0..threads)
        .map(|_| {
            let a = if alike { first.clone() } else { some_call(&mut src, family) };
            let b = some_call(&mut src, family);
            let any = src.below(Sym::ALL.len() + 3);
            let c = some_call(&mut src, any);
            (vec![a, b, c], if src.chance(1, 2) { 0 } else { src.below(3000) })
        })
        .collect();
    let ready = AtomicUsize::new(0);
    let results: Vec<Vec<u64>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|(calls, delay)| {
                let ready = &ready;
                s.spawn(move || {
                    ready.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u32;
                    while ready.load(Ordering::SeqCst) < threads {
                        std::hint::spin_loop();
                        spins += 1;
                        if spins % 4096 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    for _ in 0..*delay {
                        std::hint::spin_loop();
                    }
                    calls.iter().map(hash_of).collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut obs = Obs::default();
    for (t, ((calls, _), got)) in plans.iter().zip(&results).enumerate() {
        for (k, (c, h)) in calls.iter().zip(got).enumerate() {
            let what = |e: &str| format!("first use by {} threads: thread {} call {}: {}: {}", threads, t, k, short(&c.to_j().write()), e);
            let r = run(c);
            let seq = r.as_ref().map_or(0, res_hash);
            if *h != seq {
                return Some(what(if *h == 0 { "panicked, unlike the sequential call" } else { "result unlike the sequential one" }));
            }
            let right = match (c, &r) {
                (_, Err(e)) => Err(e.clone()),
                (Case::Sym { sym, data }, Ok(Ok(m))) => encoded_right(*sym, data, m, &mut obs),
                (Case::Sym { sym, data }, Ok(Err(k))) => match spec::admit(*sym, data) {
                    Admit::Reject(ks) if ks.contains(k) => Ok(()),
                    a => Err(format!("{:?}, the model says {:?}", k, a)),
                },
                (Case::Gen { out, mods }, Ok(r)) => generated_right(out, mods, r),
                _ => Ok(()),
            };
            if let Err(e) = blame(c, seq, right, &mut obs) {
                return Some(what(&e));
            }
        }
    }
    None
}

#[cfg(miri)]
pub fn check(_: u64, _: u64, _: &mut Obs) -> Verdict {
    Ok(false)
}

/// Many such processes.
#[cfg(not(miri))]
pub fn check(seed: u64, n: u64, obs: &mut Obs) -> Verdict {
    use std::io::Read;
    use std::process::{Command, Stdio};
    use std::time::{Duration, Instant};
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    for i in 0..n {
        let s = seed.wrapping_add(i.wrapping_mul(0x9E37_79B9));
        let mut c = Command::new(&exe)
            .args(["firstuse", "--seed", &s.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| format!("harness: cannot start a process: {}", e))?;
        let start = Instant::now();
        let status = loop {
            match c.try_wait() {
                Ok(Some(st)) => break Some(st),
                Ok(None) if start.elapsed() > Duration::from_secs(60) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                _ => std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 20 { 200 } else { 5000 })),
            }
        };
        crate::threads::PROGRESS.fetch_add(1, Ordering::Relaxed);
        let mut out = String::new();
        let mut err = String::new();
        let _ = c.stdout.take().map(|mut o| o.read_to_string(&mut out));
        let _ = c.stderr.take().map(|mut o| o.read_to_string(&mut err));
        match status.map(|s| s.code()) {
            Some(Some(0)) => {}
            Some(Some(10)) => return Err(format!("process seed {}: {}", s, out.trim())),
            None => return Err(format!("process seed {}: no result after a minute: the threads wait for each other", s)),
            Some(c) => return Err(format!("process seed {}: ended with {:?}: {}", s, c, err.lines().take(3).collect::<Vec<_>>().join(" "))),
        }
        obs.count("first uses by threads of a process of their own", 1);
    }
    Ok(true)
}
