//! The time monitor: CPU time of calls of one kind at two sizes, and early and late in a process.

use crate::check::{Obs, Verdict};
use crate::gen;
use crate::rng::Src;
use bcsut::{Fmt, ImgCfg, SvgCfg, Sym};

/// CPU time of this thread, in seconds.
fn now() -> f64 {
    #[cfg(all(target_os = "linux", not(miri)))]
    {
        extern "C" {
            fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
        }
        const THREAD: i32 = 3;
        let mut t = [0i64; 2];
        unsafe { clock_gettime(THREAD, &mut t) };
        t[0] as f64 + t[1] as f64 * 1e-9
    }
    #[cfg(not(all(target_os = "linux", not(miri))))]
    {
        0.0
    }
}

/// A call with its argument made: returns the size of argument and result.
type Call = Box<dyn Fn() -> usize>;

struct Family {
    name: String,
    /// The largest small size.
    cap: usize,
    make: Box<dyn Fn(usize) -> Call>,
}

fn encode(sym: Sym, data: String) -> Call {
    Box::new(move || data.len() + bcsut::construct(sym, &data).map_or(0, |o| o.encode().len()))
}

/// Modules in several textures.
fn texture(kind: usize, n: usize) -> Vec<u8> {
    let mut x = 0x9E37_79B9_7F4A_7C15u64;
    (0..n)
        .map(|i| match kind {
            0 => (i % 2 == 0) as u8,
            1 => 1,
            2 => 0,
            3 => (i % 8 < 4) as u8,
            _ => {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 60 & 1) as u8
            }
        })
        .collect()
}
const TEXTURES: [&str; 5] = ["alternating", "bars", "spaces", "wide bars", "random"];

fn families() -> Vec<Family> {
    let mut v = vec![];
    let mut add = |name: String, cap: usize, make: Box<dyn Fn(usize) -> Call>| v.push(Family { name, cap, make });
    const BIG: usize = 1 << 20;
    let [a, b, c] = gen::SELS;
    let rep = |s: String| move |n: usize| s.repeat(n / s.len() + 1);
    let runs: Vec<(&str, char, String, &str)> = vec![
        ("one character", b, "z".into(), ""),
        ("digits in pairs", c, "42".into(), ""),
        ("function characters", a, format!("{}7", crate::spec::FNC1), ""),
        ("function characters in C", c, format!("{}73", crate::spec::FNC1), ""),
        ("changing sets", a, format!("{}A{}A", b, a), ""),
        ("changing to digits", b, format!("{}42{}y", c, b), ""),
        ("a foreign end", b, "z".into(), "\u{E9}"),
        ("an odd end", c, "42".into(), "4"),
        ("a repeated selector at the end", b, "z".into(), "\u{106}\u{106}"),
        ("foreign throughout", b, "\u{4E2D}".into(), ""),
        ("lower case in A", a, "a".into(), ""),
        ("no selector", 'x', "z".into(), ""),
    ];
    for (what, start, unit, end) in runs {
        let unit = rep(unit);
        add(format!("Code128, {}", what), BIG, Box::new(move |n| encode(Sym::Code128, format!("{}{}{}", start, unit(n), end))));
    }
    // One kind of content after another, and two in turn in growing runs.
    let phases: [(&str, char, String); 7] = [
        ("letters", b, "z".into()),
        ("pairs", c, "42".into()),
        ("control characters", a, "\u{1}".into()),
        ("function characters", a, crate::spec::FNC1.to_string()),
        ("selectors", a, format!("{}{}", b, a)),
        ("selectors to C", c, format!("{}{}", b, c)),
        ("shifts", b, format!("{}z", crate::spec::SHIFT)),
    ];
    for (w1, s1, u1) in &phases {
        for (w2, s2, u2) in &phases {
            let (s1, s2, u1, u2) = (*s1, *s2, u1.clone(), u2.clone());
            let (v1, v2, same) = (u1.clone(), u2.clone(), w1 == w2);
            // A selector that names the set in use is refused.
            let sel = move |at: char, to: char| if at == to { String::new() } else { to.to_string() };
            if !same {
                add(
                    format!("Code128, {} then {}", w1, w2),
                    1 << 16,
                    Box::new(move |n| encode(Sym::Code128, format!("{}{}{}{}", s1, v1.repeat(n / v1.len() + 1), sel(s1, s2), v2.repeat(n / v2.len() + 1)))),
                );
                add(
                    format!("Code128, runs of {} and {}", w1, w2),
                    1 << 16,
                    Box::new(move |n| {
                        let mut d = s1.to_string();
                        let mut k = 1;
                        while d.len() < n {
                            d += &u1.repeat(k);
                            d += &sel(s1, s2);
                            d += &u2.repeat(k);
                            d += &sel(s2, s1);
                            k += 7;
                        }
                        d += &u1;
                        encode(Sym::Code128, d)
                    }),
                );
            }
        }
    }
    for sym in Sym::ALL {
        if sym == Sym::Code128 {
            continue;
        }
        add(format!("{:?}, too many", sym), BIG, Box::new(move |n| encode(sym, "1".repeat(n))));
        add(format!("{:?}, too many and a foreign end", sym), BIG, Box::new(move |n| encode(sym, "1".repeat(n) + "\u{E9}")));
        add(format!("{:?}, foreign", sym), BIG, Box::new(move |n| encode(sym, "\u{4E2D}".repeat(n / 3 + 1))));
    }
    for (t, what) in TEXTURES.iter().enumerate() {
        add(
            format!("ASCII, modules {}", what),
            BIG,
            Box::new(move |n| {
                let m = texture(t, n);
                Box::new(move || m.len() + bcsut::ascii(1, 1, &m).map_or(0, |s| s.len()))
            }),
        );
        add(
            format!("JSON, modules {}", what),
            BIG / 2,
            Box::new(move |n| {
                let m = texture(t, n);
                Box::new(move || m.len() + bcsut::json(1, 1, &m).map_or(0, |s| s.len()))
            }),
        );
        add(
            format!("SVG, modules {}", what),
            BIG / 16,
            Box::new(move |n| {
                let m = texture(t, n);
                let c = SvgCfg { height: 5, xdim: 1, fg: [1, 2, 3, 4], bg: [255; 4], xmlns: None };
                Box::new(move || m.len() + bcsut::svg(&c, &m).map_or(0, |s| s.len()))
            }),
        );
    }
    for (what, x, h) in [("wide", 1usize, 0usize), ("high", 0, 1), ("square", 1, 1)] {
        add(
            format!("ASCII, {}", what),
            BIG,
            Box::new(move |n| {
                let side = if x == h { (n as f64 / 7.0).sqrt() as usize + 1 } else { n / 7 + 1 };
                let (x, h) = (if x == 1 { side } else { 1 }, if h == 1 { side } else { 1 });
                Box::new(move || bcsut::ascii(h, x, &[1, 0, 1, 1, 0, 0, 1]).map_or(0, |s| s.len()))
            }),
        );
    }
    for (what, unit) in [("plain", "http://x/"), ("to be escaped", "&<>\"'"), ("not ASCII", "\u{4E2D}\u{1F600}"), ("mixed", "a&\u{E9}\"")] {
        let text = unit;
        let unit = rep(unit.into());
        add(
            format!("SVG, namespace {}", what),
            BIG,
            Box::new(move |n| {
                let c = SvgCfg { height: 5, xdim: 1, fg: [1, 2, 3, 4], bg: [255; 4], xmlns: Some(unit(n)) };
                Box::new(move || c.xmlns.as_ref().map_or(0, |x| x.len()) + bcsut::svg(&c, &[1, 0, 1]).map_or(0, |s| s.len()))
            }),
        );
        let unit = rep(text.into());
        add(
            format!("SVG by the builder, namespace {}", what),
            BIG,
            Box::new(move |n| {
                let c = SvgCfg { height: 5, xdim: 1, fg: [1, 2, 3, 4], bg: [255; 4], xmlns: Some(unit(n)) };
                Box::new(move || c.xmlns.as_ref().map_or(0, |x| x.len()) + bcsut::svg_built(&c, &[1, 0, 1]).map_or(0, |s| s.len()))
            }),
        );
        let unit = rep(text.into());
        add(
            format!("SVG cloned and shown, namespace {}", what),
            BIG,
            Box::new(move |n| {
                let c = SvgCfg { height: 5, xdim: 1, fg: [1, 2, 3, 4], bg: [255; 4], xmlns: Some(unit(n)) };
                let v = bcsut::svg_value(&c);
                Box::new(move || {
                    let w = v.clone();
                    format!("{:?}", w).len() + c.xmlns.as_ref().map_or(0, |x| x.len())
                })
            }),
        );
    }
    #[cfg(feature = "image")]
    for fmt in Fmt::ALL {
        for rot in 0..4u8 {
            for (what, shape) in [("of many modules", 0), ("of wide modules", 1), ("high", 2), ("square", 3)] {
                // The longest side that every format holds.
                let limit = if fmt == Fmt::Buffer || fmt == Fmt::Png { 1 << 24 } else { 16_000 };
                add(
                    format!("{:?} {} quarter turns, {}", fmt, rot, what),
                    if fmt == Fmt::Buffer { 1 << 19 } else { 1 << 17 },
                    Box::new(move |n| {
                        let root = (n as f64).sqrt() as usize + 1;
                        let (m, x, h) = match shape {
                            0 => (n.min(limit), 1, n / limit + 1),
                            1 => (5, n.min(limit) / 5 + 1, n / limit + 1),
                            2 => (n / limit + 1, 1, n.min(limit)),
                            _ => (root / 3 + 1, 3, root),
                        };
                        let mods = texture(4, m);
                        let c = ImgCfg { fmt, height: h as u32, xdim: x as u32, rot, fg: [10, 20, 30, 255], bg: [200, 210, 220, 255] };
                        Box::new(move || {
                            let _ = if fmt == Fmt::Buffer { bcsut::img::buffer(&c, &mods).map(|_| ()) } else { bcsut::img::bytes(&c, &mods).map(|_| ()) };
                            m * x * h
                        })
                    }),
                );
            }
        }
    }
    let _ = Fmt::ALL;
    let _: Option<ImgCfg> = None;
    v
}

/// How many kinds of call there are, histories included.
pub fn count() -> u64 {
    families().len() as u64 + 2 * Sym::ALL.len() as u64
}

/// The least of some times: (seconds, size).
fn best(f: &Call, times: usize) -> (f64, usize) {
    let mut r = (f64::MAX, 0);
    for _ in 0..times {
        let t = now();
        let n = f();
        let t = now() - t;
        if t < r.0 {
            r = (t, n);
        }
        if t > 2.0 {
            break;
        }
    }
    r
}

/// Below this the clock says little.
const FLOOR: f64 = 0.002;
/// How many times more than proportional is too much: caches and allocators have steps.
const SLACK: f64 = 6.0;

/// Memory once had is kept, so that the second time no page is new.
fn keep_memory() {
    #[cfg(all(target_os = "linux", not(miri)))]
    {
        extern "C" {
            fn mallopt(p: i32, v: i32) -> i32;
        }
        const TRIM_THRESHOLD: i32 = -1;
        const MMAP_MAX: i32 = -4;
        const ARENA_MAX: i32 = -8;
        unsafe {
            mallopt(TRIM_THRESHOLD, i32::MAX);
            mallopt(MMAP_MAX, 0);
            mallopt(ARENA_MAX, 1);
        }
    }
}

pub fn check(which: u64, obs: &mut Obs) -> Verdict {
    keep_memory();
    let all = families();
    let i = which as usize;
    let judge = |name: &str, once: &dyn Fn() -> ((f64, usize), (f64, usize))| -> Result<f64, String> {
        let mut why = String::new();
        for _ in 0..3 {
            let ((t1, n1), (t2, n2)) = once();
            let per = (t2 / n2.max(1) as f64) / (t1.max(FLOOR) / n1.max(1) as f64);
            if per <= SLACK {
                if std::env::var_os("BCMON_DEBUG").is_some() {
                    eprintln!("{:.2} {} {:.4} {} {:.4} {}", per, name, t1, n1, t2, n2);
                }
                return Ok(per);
            }
            why = format!("{}: {:.4} s for a size of {}, {:.4} s for a size of {}: {:.0} times more per unit", name, t1, n1, t2, n2, per);
        }
        Err(why)
    };
    let per = if let Some(f) = all.get(i) {
        judge(&f.name, &|| {
            let mut n = 1 << 10;
            let mut small = (f.make)(n);
            while n < f.cap && best(&small, 1).0 < FLOOR {
                n *= 2;
                small = (f.make)(n);
            }
            let a = best(&small, 5);
            drop(small);
            (a, best(&(f.make)(n * 16), 3))
        })?
    } else if let Some(&sym) = Sym::ALL.get(i - all.len()) {
        // Short and the longest data, many calls.
        if crate::spec::payload_len(sym).is_some() || sym == Sym::Supp {
            return Ok(false);
        }
        let calls = |len: usize| -> Call {
            let mut src = Src::seeded(which * 1000 + len as u64);
            let data: Vec<String> = (0..64)
                .map(|_| {
                    let mut s = String::new();
                    if sym == Sym::Code128 {
                        s.push(gen::SELS[1]);
                    }
                    while s.chars().count() < len {
                        s.push((b'0' + src.below(10) as u8) as char);
                    }
                    s
                })
                .collect();
            Box::new(move || {
                (0..if len == 16 { 512 } else { 32 })
                    .map(|i| {
                        let d = &data[i % 64];
                        bcsut::construct(sym, d).map_or(0, |o| o.encode().len() * 0) + d.len()
                    })
                    .sum()
            })
        };
        judge(&format!("{:?}, 16 and 256 characters", sym), &|| {
            let (a, b) = (calls(16), calls(256));
            (best(&a, 9), best(&b, 9))
        })?
    } else if let Some(&sym) = Sym::ALL.get(i - all.len() - Sym::ALL.len()) {
        // The first calls of a kind, and calls after many others.
        let batch = |from: u64| -> f64 {
            let data: Vec<String> = (from..from + 4000).map(|k| serial(sym, k)).collect();
            let t = now();
            for d in &data {
                let _ = bcsut::construct(sym, d).map(|o| o.encode().len());
            }
            now() - t
        };
        let mut k = 0;
        let mut early = f64::MAX;
        for _ in 0..4 {
            early = early.min(batch(k));
            k += 4000;
        }
        for _ in 0..60 {
            batch(k);
            k += 4000;
        }
        let mut late = f64::MAX;
        for _ in 0..4 {
            late = late.min(batch(k));
            k += 4000;
        }
        let per = late / early.max(FLOOR);
        if per > SLACK {
            return Err(format!("{:?}: 4000 calls took {:.4} s at first, {:.4} s after {} others", sym, early, late, k));
        }
        per
    } else {
        return Ok(false);
    };
    obs.count("kinds of call timed", 1);
    obs.count("growth per unit in hundredths, summed", (per * 100.0) as u64);
    obs.dim("kinds of call timed", which);
    Ok(true)
}

/// Different data each time.
fn serial(sym: Sym, k: u64) -> String {
    match sym {
        Sym::Code128 => format!("{}SN{:08}", gen::SELS[1], k),
        Sym::Bookland => format!("978{:09}", k),
        Sym::Ean13 | Sym::Jan => format!("{:012}", k),
        Sym::Upca => format!("{:011}", k),
        Sym::Ean8 => format!("{:07}", k),
        Sym::Supp => format!("{:05}", k % 100_000),
        _ => format!("{:08}", k),
    }
}
