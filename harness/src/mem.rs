//! The allocation monitor: a counting allocator, and the C24 oracle over its events.

use crate::case::{Case, Out, SvgOp};
use crate::check::{call, short, Obs, Verdict};
use crate::gen;
use crate::rng::Src;
use bcsut::{SvgCfg, Sym};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
    pub static WORST_PEAK: Cell<u64> = const { Cell::new(0) };
    pub static WORST_TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        PEAK.with(|p| p.set(p.get().max(v)));
        TOTAL.with(|t| t.set(t.get() + n as u64));
        EVENTS.with(|t| t.set(t.get() + 1));
    });
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            sub(l.size());
            add(n);
        }
        q
    }
}

#[derive(Debug)]
pub struct Use {
    pub kept: i64,
    pub peak: u64,
    pub total: u64,
    pub events: u64,
    pub out: usize,
}

/// Runs `f`, which returns the size of its result and has dropped it.
pub fn measure(f: impl FnOnce() -> usize) -> Use {
    let live = LIVE.with(|l| l.get());
    let total = TOTAL.with(|l| l.get());
    let events = EVENTS.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    let out = f();
    let kept = LIVE.with(|l| l.get()) - live;
    let u = Use {
        kept,
        peak: (PEAK.with(|l| l.get()) - live) as u64,
        total: TOTAL.with(|l| l.get()) - total,
        events: EVENTS.with(|l| l.get()) - events,
        out,
    };
    u
}

/// Bytes allowed whatever the size (messages, small tables, format headers and encoder state).
const BASE: u64 = 64 << 10;
const BASE_IMAGE: u64 = 8 << 20;
/// Bytes allowed per byte of argument and result.
const PER_BYTE: u64 = 256;
const PER_PIXEL_BYTE: u64 = 48;

fn work(case: &Case) -> Option<usize> {
    match case {
        Case::Sym { sym, data } => Some(match bcsut::construct(*sym, data) {
            Ok(o) => o.encode().len() + data.len(),
            Err(_) => data.len(),
        }),
        Case::Gen { out, mods } => Some(
            mods.len()
                + match out {
                    Out::Ascii { height, xdim } => bcsut::ascii(*height, *xdim, mods).map_or(0, |s| s.len()),
                    Out::Json { height, xdim } => bcsut::json(*height, *xdim, mods).map_or(0, |s| s.len()),
                    Out::Svg(c) => {
                        c.xmlns.as_ref().map_or(0, |x| x.len()) + bcsut::svg(c, mods).map_or(0, |s| s.len())
                    }
                    #[cfg(feature = "image")]
                    Out::Img(c) => {
                        let px = mods.len() as u64 * c.xdim as u64 * c.height as u64 * 4;
                        if px > 1 << 26 {
                            return None;
                        }
                        if c.fmt == bcsut::Fmt::Buffer {
                            let _ = bcsut::img::buffer(c, mods);
                        } else {
                            let _ = bcsut::img::bytes(c, mods);
                        }
                        px as usize
                    }
                    #[cfg(not(feature = "image"))]
                    Out::Img(_) => return None,
                },
        ),
        Case::Build { height, ops, mods } => {
            use bcsut::barcoders::generators::svg::{Color, SVG};
            let mut s = SVG::new(*height);
            for o in ops {
                s = match o {
                    SvgOp::Xdim(x) => s.xdim(*x),
                    SvgOp::Fg(c) => s.foreground(Color::new(*c)),
                    SvgOp::Bg(c) => s.background(Color::new(*c)),
                    SvgOp::Xmlns(n) => s.xmlns(n.clone()),
                };
            }
            s.generate(mods).ok().map(|s| s.len())
        }
        _ => None,
    }
}

pub fn check(case: &Case, obs: &mut Obs) -> Verdict {
    let image = matches!(case, Case::Gen { out: Out::Img(_), .. });
    let ctx = |e: String| short_case(case, e);
    let mut kept = [0i64; 3];
    let mut some = true;
    for (i, k) in kept.iter_mut().enumerate() {
        let mut r = Ok(None);
        let u = measure(|| {
            r = call("the call", || work(case));
            match &r {
                Ok(Some(n)) => *n,
                _ => 0,
            }
        });
        match r {
            // Panics are the business of other properties.
            Err(_) | Ok(None) => {
                some = false;
                break;
            }
            Ok(Some(_)) => {}
        }
        *k = u.kept;
        let (base, per) = if image { (BASE_IMAGE, PER_PIXEL_BYTE) } else { (BASE, PER_BYTE) };
        let bound = base + per * u.out as u64;
        if i > 0 && (u.peak > bound || u.total > 2 * bound) {
            return Err(ctx(format!(
                "argument and result of {} bytes: allocated {} bytes in all, {} at the peak (bounds {} and {})",
                u.out,
                u.total,
                u.peak,
                2 * bound,
                bound
            )));
        }
        let per_mille = |v: u64| v.saturating_sub(base) * 1000 / u.out.max(1) as u64;
        WORST_PEAK.with(|w| w.set(w.get().max(per_mille(u.peak))));
        WORST_TOTAL.with(|w| w.set(w.get().max(per_mille(u.total))));
        obs.count("allocation events", u.events);
        obs.count("bytes allocated", u.total);
        if obs.detailed() {
            obs.dim("argument and result sizes", u.out as u64);
        }
    }
    if !some {
        return Ok(false);
    }
    // The first call may fill a table that stays for good; the repetitions may keep nothing.
    if kept[1] > 0 && kept[2] > 0 {
        return Err(ctx(format!("every repetition keeps memory: {:?} bytes after everything was dropped", kept)));
    }
    Ok(true)
}

fn short_case(case: &Case, e: String) -> String {
    format!("{}: {}", short(&case.to_j().write()), e)
}

/// Many different small calls of one kind after another, for each kind: what stays allocated may
/// not grow with their number (tables filled by the first calls may stay).
pub fn drift(seed: u64, n: u64, obs: &mut Obs) -> Verdict {
    const SLACK: i64 = 2048;
    let syms = Sym::ALL.len();
    let kinds = 2 * syms + if cfg!(feature = "image") { 5 } else { 4 };
    for kind in 0..kinds {
        let mut src = Src::seeded(seed ^ (kind as u64) << 32);
        let what = match kind {
            k if k < syms => format!("{:?} of valid data", Sym::ALL[k]),
            k if k < 2 * syms => format!("{:?} of any data", Sym::ALL[k - syms]),
            k => ["ASCII", "JSON", "SVG", "SVG by its builders", "images"][k - 2 * syms].to_string(),
        };
        let n = if kind == 2 * syms + 4 { n / 8 } else { n };
        let mut held = 0i64;
        let mut at = [0i64; 3];
        for i in 0..n {
            for (k, part) in [4, 2, 1].iter().enumerate() {
                if i == n / part - u64::from(*part == 1) {
                    at[k] = held;
                }
            }
            let case = match kind {
                k if k < 2 * syms => {
                    let sym = Sym::ALL[k % syms];
                    let data = if k < syms { gen::valid(&mut src, sym, 40) } else { gen::arbitrary(&mut src, sym).chars().take(40).collect() };
                    Case::Sym { sym, data }
                }
                k => {
                    let k = k - 2 * syms;
                    let mods = gen::mods(&mut src, 60);
                    let small = |src: &mut Src| src.range(0, 20);
                    match k {
                        0 => Case::Gen { out: Out::Ascii { height: small(&mut src), xdim: small(&mut src) }, mods },
                        1 => Case::Gen { out: Out::Json { height: src.u32() as usize, xdim: src.u32() as usize }, mods },
                        2 | 3 => {
                            let c = |src: &mut Src| [src.u32() as u8, src.u32() as u8, src.u32() as u8, src.u32() as u8];
                            let xmlns = if src.chance(1, 2) { Some(format!("urn:{:x}", src.u32())) } else { None };
                            let cfg = SvgCfg { height: src.u32(), xdim: src.u32(), fg: c(&mut src), bg: c(&mut src), xmlns };
                            if k == 3 {
                                let mut ops = vec![SvgOp::Xdim(cfg.xdim), SvgOp::Fg(cfg.fg), SvgOp::Bg(cfg.bg)];
                                ops.extend(cfg.xmlns.map(SvgOp::Xmlns));
                                Case::Build { height: cfg.height, ops, mods }
                            } else {
                                Case::Gen { out: Out::Svg(cfg), mods }
                            }
                        }
                        _ => Case::Gen { out: Out::Img(gen::img_cfg(&mut src, 60, 400)), mods },
                    }
                }
            };
            let u = measure(|| call("the call", || work(&case)).ok().flatten().unwrap_or(0));
            held += u.kept;
        }
        obs.count("different calls watched for what they keep", n);
        obs.dim("bytes held after all calls of a kind", held as u64);
        if at[1] - at[0] > SLACK && at[2] - at[1] > SLACK {
            return Err(format!(
                "memory grows with use: {} different calls ({}) keep {} bytes, {} after half of them, {} after a quarter",
                n, what, at[2], at[1], at[0]
            ));
        }
    }
    Ok(true)
}
