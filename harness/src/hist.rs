//! Histories: long sequences of calls on many live values, failing and panicking calls among them,
//! every result compared with the pure model and with every earlier result for the same arguments.

use crate::case::{mods_str, Case, Out};
use crate::check::{self, call, codabar_known, diff, short, Obs, Verdict};
use crate::gen;
use crate::rng::{hash, mix, Src};
use crate::spec::{self, Admit};
use bcsut::{Kind, Obj, Sym};
use std::borrow::Cow;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A conversion that panics.
pub struct Panics;
impl AsRef<str> for Panics {
    fn as_ref(&self) -> &str {
        panic!("conversion refused")
    }
}
impl AsRef<[u8]> for Panics {
    fn as_ref(&self) -> &[u8] {
        panic!("conversion refused")
    }
}

/// A conversion that itself uses the library.
pub struct Nested<'a>(pub &'a str);
impl AsRef<str> for Nested<'_> {
    fn as_ref(&self) -> &str {
        if let Ok(o) = bcsut::construct(Sym::Code128, "\u{106}12\u{C0}A") {
            let _ = bcsut::json(3, 1, &o.encode());
        }
        let _ = bcsut::construct(Sym::Ean13, "750103131130").map(|o| o.encode());
        let _ = bcsut::construct(Sym::Itf, "123").map(|o| o.encode());
        let _ = bcsut::construct(Sym::Code39Chk, "NESTED").map(|o| o.encode());
        let _ = bcsut::construct(Sym::Code93, "NESTED").map(|o| o.encode());
        let _ = bcsut::construct(Sym::Code11, "12-3").map(|o| o.encode());
        let _ = bcsut::construct(Sym::Codabar, "A12B").map(|o| o.encode());
        let _ = bcsut::construct(Sym::Supp, "52495").map(|o| o.encode());
        let _ = bcsut::construct(Sym::Ean8, "x");
        self.0
    }
}

struct NestedMods<'a>(&'a [u8]);
impl AsRef<[u8]> for NestedMods<'_> {
    fn as_ref(&self) -> &[u8] {
        let _ = bcsut::ascii(2, 1, &[1, 0, 1]);
        let _ = bcsut::json(2, 1, &[1, 0, 1, 1]);
        let c = bcsut::SvgCfg { height: 7, xdim: 3, fg: [1, 2, 3, 4], bg: [5, 6, 7, 8], xmlns: None };
        let _ = bcsut::svg(&c, &[1, 1, 0]);
        self.0
    }
}

/// Data strings that a careless cache would take for one another.
pub fn near_duplicates(base: &str, src: &mut Src) -> Vec<String> {
    let c: Vec<char> = base.chars().collect();
    let mut v = vec![base.to_string()];
    if c.is_empty() {
        return v;
    }
    let mk = |c: &[char]| c.iter().collect::<String>();
    v.push(c.iter().rev().collect());
    for _ in 0..3 {
        let mut d = c.clone();
        let (i, j) = (src.below(d.len()), src.below(d.len()));
        d.swap(i, j);
        v.push(mk(&d));
        let mut d = c.clone();
        let i = src.below(d.len());
        d[i] = c[src.below(c.len())];
        v.push(mk(&d));
    }
    let mut d = c.clone();
    d.rotate_left(1);
    v.push(mk(&d));
    // Same first, last and length.
    if c.len() > 3 {
        let mut d = c.clone();
        let m = d.len() / 2;
        d[m] = c[1];
        d[m - 1] = c[c.len() - 2];
        v.push(mk(&d));
    }
    v.push(mk(&c[..c.len() - 1]));
    let mut d = c.clone();
    d.push(c[0]);
    v.push(mk(&d));
    v
}

pub fn data_pool(src: &mut Src, per_sym: usize) -> Vec<(Sym, String)> {
    let mut pool = vec![];
    for sym in Sym::ALL {
        for _ in 0..per_sym {
            let s = gen::valid(src, sym, 40);
            for d in near_duplicates(&s, src) {
                pool.push((sym, d));
            }
        }
        for _ in 0..per_sym {
            pool.push((sym, gen::arbitrary(src, sym)));
        }
        // The same text for every symbology.
        pool.push((sym, "1234567".into()));
        pool.push((sym, "123456789012".into()));
        pool.push((sym, "12".into()));
    }
    pool
}

pub fn out_pool(src: &mut Src, n: usize, images: bool) -> Vec<Out> {
    let mut v = vec![];
    while v.len() < n {
        let o = gen::small_out(src, images);
        // A twin that differs in one setting.
        v.push(gen::tweak(src, &o));
        v.push(o);
    }
    v
}

/// The result of a generator as bytes (or the error kind).
pub fn generate(out: &Out, mods: &[u8]) -> Result<Vec<u8>, Kind> {
    match out {
        Out::Ascii { height, xdim } => bcsut::ascii(*height, *xdim, mods).map(|s| s.into_bytes()),
        Out::Json { height, xdim } => bcsut::json(*height, *xdim, mods).map(|s| s.into_bytes()),
        Out::Svg(c) => bcsut::svg(c, mods).map(|s| s.into_bytes()),
        #[cfg(feature = "image")]
        Out::Img(c) if c.fmt == bcsut::Fmt::Buffer => bcsut::img::buffer(c, mods).map(|(w, h, mut p)| {
            p.extend(w.to_le_bytes());
            p.extend(h.to_le_bytes());
            p
        }),
        #[cfg(feature = "image")]
        Out::Img(c) => bcsut::img::bytes(c, mods),
        #[cfg(not(feature = "image"))]
        Out::Img(_) => Err(Kind::Generate),
    }
}

/// Compares a generator's result with the model.
pub fn generated_right(out: &Out, mods: &[u8], r: &Result<Vec<u8>, Kind>) -> Result<(), String> {
    let text = |b: &Vec<u8>| String::from_utf8(b.clone()).map_err(|_| "not UTF-8".to_string());
    match (out, r) {
        (Out::Ascii { height, xdim }, Ok(b)) => {
            if text(b)? != check::ascii_expected(*height, *xdim, mods) {
                return Err("wrong picture".into());
            }
        }
        (Out::Json { height, xdim }, Ok(b)) => {
            let (h, x, m) = check::json_read(&text(b)?)?;
            if h != height.to_string() || x != xdim.to_string() || m != mods {
                return Err(format!("height {} xdim {} modules {}", h, x, short(&mods_str(&m))));
            }
        }
        (Out::Svg(c), Ok(b)) => check::svg_right(c, mods, &text(b)?)?,
        #[cfg(feature = "image")]
        (Out::Img(c), Ok(b)) => {
            use check::img;
            let (w, h) = img::sides(c, mods.len());
            if w > 0 && h > 0 {
                let r = if c.fmt == bcsut::Fmt::Buffer {
                    let n = b.len() - 8;
                    let d = |o: usize| u32::from_le_bytes(b[n + o..n + o + 4].try_into().unwrap());
                    img::Raster { w: d(0), h: d(4), px: b[..n].to_vec() }
                } else {
                    img::decode(c.fmt, b)?
                };
                img::right(c, mods, &r)?;
            }
        }
        #[cfg(feature = "image")]
        (Out::Img(c), Err(_)) => {
            let (w, h) = check::img::sides(c, mods.len());
            if w > 0 && h > 0 && w.max(h) <= check::img::limit(c.fmt) {
                return Err("an error".into());
            }
        }
        #[cfg(not(feature = "image"))]
        (Out::Img(_), Err(_)) => {}
        #[allow(unreachable_patterns)]
        (_, Err(k)) => return Err(format!("{:?} error", k)),
        #[allow(unreachable_patterns)]
        _ => {}
    }
    Ok(())
}

/// Compares an encoding with the model.
pub fn encoded_right(sym: Sym, data: &str, got: &[u8], obs: &mut Obs) -> Result<(), String> {
    if spec::admit(sym, data) != Admit::Accept {
        return Ok(());
    }
    let exp = spec::render(sym, data);
    if exp != got {
        if sym == Sym::Codabar {
            if let Some(s) = codabar_known(data, got, &obs.known) {
                check::note_findings(obs, s);
                return Ok(());
            }
        }
        return Err(diff(&exp, got));
    }
    Ok(())
}

struct Slot {
    /// As constructed.
    sym: Sym,
    /// Code 39: the flag as last set by the history.
    flag: Option<bool>,
    data: String,
    obj: Obj,
}

impl Slot {
    /// The same encoding as a case of its own.
    fn case(&self) -> Case {
        match self.flag {
            None => Case::Sym { sym: self.sym, data: self.data.clone() },
            Some(f) => Case::Flags { data: self.data.clone(), chk: self.sym == Sym::Code39Chk, ops: vec![f as u8, 2] },
        }
    }
    /// What it should encode as.
    fn means(&self) -> Sym {
        match self.flag {
            None => self.sym,
            Some(true) => Sym::Code39Chk,
            Some(false) => Sym::Code39,
        }
    }
}

struct World {
    slots: Vec<Slot>,
    /// Hash of arguments -> hash of the first result.
    seen: HashMap<u64, u64>,
    text_buf: String,
    mods_buf: Vec<u8>,
}

pub fn res_hash(r: &Result<Vec<u8>, Kind>) -> u64 {
    match r {
        Ok(v) => hash(&[&[9], v]),
        Err(k) => hash(&[&[*k as u8]]),
    }
}

/// A result that the model contradicts: is it the history's fault?
/// The model's objection is returned only if a fresh process gives another result.
pub fn blame(case: &Case, here: u64, wrong: Result<(), String>, obs: &mut Obs) -> Result<(), String> {
    let Err(e) = wrong else {
        return Ok(());
    };
    match crate::fresh::in_child(case) {
        Some(alone) if alone != here => Err(format!("{} - but on its own the call gives another result", e)),
        Some(_) => {
            if std::env::var_os("BCMON_DEBUG").is_some() {
                eprintln!("contradicted: {}", e);
            }
            obs.count("results the model contradicts, the same in a fresh process", 1);
            Ok(())
        }
        None => {
            obs.count("results the model contradicts, not compared with a fresh process", 1);
            Ok(())
        }
    }
}

impl World {
    fn same(&mut self, key: u64, res: u64) -> (bool, bool) {
        if self.seen.len() > 2_000_000 {
            self.seen.clear();
        }
        match self.seen.get(&key) {
            Some(&r) => (true, r == res),
            None => {
                self.seen.insert(key, res);
                (false, true)
            }
        }
    }
}

fn construct_via(via: usize, sym: Sym, data: &str, buf: &mut String) -> Result<Obj, Kind> {
    match via {
        0 => bcsut::construct_with(sym, data.to_string()),
        1 => bcsut::construct_with(sym, &data.to_string()),
        2 => bcsut::construct_with(sym, data.to_string().into_boxed_str()),
        3 => bcsut::construct_with(sym, Rc::<str>::from(data)),
        4 => bcsut::construct_with(sym, Arc::<str>::from(data)),
        5 => bcsut::construct_with(sym, Cow::Borrowed(data)),
        6 => bcsut::construct_with(sym, Cow::<str>::Owned(data.to_string())),
        7 => bcsut::construct_with(sym, Nested(data)),
        8 | 9 => {
            // The same memory with other contents than last time.
            buf.clear();
            buf.push_str(data);
            bcsut::construct_with(sym, buf.as_str())
        }
        _ => bcsut::construct(sym, data),
    }
}

/// Result -> text, for messages.
fn show(r: &Result<Vec<u8>, Kind>) -> String {
    match r {
        Ok(v) if v.iter().all(|&b| b < 2) => short(&mods_str(v)),
        Ok(v) => short(&String::from_utf8_lossy(v)),
        Err(k) => format!("{:?} error", k),
    }
}

pub fn check(seed: u64, ops: u64, obs: &mut Obs) -> Verdict {
    let mut src = Src::seeded(seed);
    let images = cfg!(feature = "image") && !cfg!(miri);
    let small = cfg!(miri);
    let pool = data_pool(&mut src, if small { 1 } else { 6 });
    let outs = out_pool(&mut src, if small { 8 } else { 60 }, images);
    let mut w = World { slots: vec![], seen: HashMap::new(), text_buf: String::with_capacity(4096), mods_buf: Vec::with_capacity(8192) };
    // Modules that are not the encoder's.
    let loose: Vec<Vec<u8>> = (0..if small { 4 } else { 40 })
        .map(|i| {
            let n = if i % 2 == 0 { 24 } else { src.range(0, 70) };
            (0..n).map(|_| src.below(2) as u8).collect()
        })
        .collect();
    let mut i = 0u64;
    let err = |i: u64, e: String| Err(format!("history seed {} operation {}: {}", seed, i, e));
    while i < ops {
        i += 1;
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let what = src.below(100);
        match what {
            // Construct (and remember the outcome).
            0..=29 => {
                let (sym, data) = src.pick(&pool).clone();
                let via = src.below(16);
                let mut buf = std::mem::take(&mut w.text_buf);
                let r = call("the constructor", || construct_via(via, sym, &data, &mut buf));
                w.text_buf = buf;
                let key = hash(&[&[1, sym as u8], data.as_bytes()]);
                let out = match &r {
                    Ok(Ok(_)) => 100,
                    Ok(Err(k)) => *k as u64,
                    Err(_) => 101,
                };
                let show = match &r {
                    Ok(Ok(_)) => "accepted".to_string(),
                    Ok(Err(k)) => format!("{:?} error", k),
                    Err(e) => e.clone(),
                };
                let (known, same) = w.same(key, out);
                if !same {
                    return err(i, format!("constructing {:?} {} (container {}): {} unlike before", sym, short(&data), via, show));
                }
                obs.count("constructor calls", 1);
                if !known {
                    obs.count("distinct calls", 1);
                    let right = match (&r, spec::admit(sym, &data)) {
                        (Ok(Ok(_)), Admit::Accept) => true,
                        (Ok(Err(k)), Admit::Reject(ks)) => ks.contains(k),
                        _ => false,
                    };
                    if !right {
                        let case = Case::Sym { sym, data: data.clone() };
                        // The fresh process also encodes: so does this.
                        let here = match &r {
                            Ok(Ok(o)) => check::encode(o).map_or(0, |m| res_hash(&Ok(m))),
                            Ok(Err(k)) => res_hash(&Err(*k)),
                            Err(_) => 0,
                        };
                        let e = format!("constructing {:?} {} (container {}): {}, the model says {:?}", sym, short(&data), via, show, spec::admit(sym, &data));
                        if let Err(e) = blame(&case, here, Err(e), obs) {
                            return err(i, e);
                        }
                    }
                }
                let Ok(r) = r else {
                    continue;
                };
                if let Ok(obj) = r {
                    let s = Slot { sym, flag: None, data, obj };
                    if w.slots.len() < 48 {
                        w.slots.push(s);
                    } else {
                        let k = src.below(w.slots.len());
                        w.slots[k] = s;
                    }
                }
            }
            // Encode, once or many times over.
            30..=59 => {
                if w.slots.is_empty() {
                    continue;
                }
                let k = src.below(w.slots.len());
                let times = if src.chance(1, if small { 100_000 } else { 600 }) { src.range(2, 2000) } else { 1 };
                for t in 0..times {
                    let s = &w.slots[k];
                    let r = check::encode(&s.obj);
                    let here = r.as_ref().map_or(0, |m| hash(&[&[9], m]));
                    let f = s.flag.map_or(2, |f| f as u8);
                    let key = hash(&[&[2, s.sym as u8, f], s.data.as_bytes()]);
                    let (known, same) = w.same(key, here);
                    let s = &w.slots[k];
                    if !same {
                        return err(i, format!("encoding {:?} {} (repetition {}): {} unlike before", s.means(), short(&s.data), t, r.map_or_else(|e| e, |m| short(&mods_str(&m)))));
                    }
                    if !known {
                        let right = r.and_then(|m| encoded_right(s.means(), &s.data, &m, obs));
                        let right = right.map_err(|e| format!("encoding {:?} {} (repetition {}): {}", s.means(), short(&s.data), t, e));
                        if let Err(e) = blame(&s.case(), here, right, obs) {
                            return err(i, e);
                        }
                    }
                    if !known {
                        obs.count("distinct calls", 1);
                    }
                    obs.count("encode calls", 1);
                }
                i += times as u64 - 1;
            }
            // Generate.
            60..=84 => {
                let out = src.pick(&outs).clone();
                let mods = if w.slots.is_empty() || src.chance(1, 2) {
                    src.pick(&loose).clone()
                } else {
                    let k = src.below(w.slots.len());
                    match check::encode(&w.slots[k].obj) {
                        Ok(m) => m,
                        Err(_) => continue,
                    }
                };
                let via = src.below(6);
                let mut buf = std::mem::take(&mut w.mods_buf);
                let r = call("generate", || generate_via(via, &out, &mods, &mut buf));
                w.mods_buf = buf;
                let here = r.as_ref().map_or(0, res_hash);
                let key = hash(&[&[3], out.to_j().write().as_bytes(), &mods]);
                let (known, same) = w.same(key, here);
                if !same {
                    return err(i, format!("{} of {} (container {}): unlike before: {}", out.to_j().write(), short(&mods_str(&mods)), via, r.map_or_else(|e| e, |r| show(&r))));
                }
                if !known {
                    obs.count("distinct calls", 1);
                    let right = r.and_then(|r| generated_right(&out, &mods, &r));
                    let right = right.map_err(|e| format!("{} of {} (container {}): {}", out.to_j().write(), short(&mods_str(&mods)), via, e));
                    if right.is_err() {
                        if let Err(e) = blame(&Case::Gen { out: out.clone(), mods: mods.clone() }, here, right, obs) {
                            return err(i, e);
                        }
                    }
                }
                obs.count("generator calls", 1);
            }
            // The public flag of Code 39.
            85..=88 => {
                if w.slots.is_empty() {
                    continue;
                }
                let k = src.below(w.slots.len());
                let s = &mut w.slots[k];
                if matches!(s.sym, Sym::Code39 | Sym::Code39Chk) {
                    let f = src.chance(1, 2);
                    s.flag = Some(f);
                    s.obj.set_checksum(f);
                    obs.count("flag changes", 1);
                }
            }
            // A conversion that panics inside the library.
            89..=92 => {
                let sym = *src.pick(&Sym::ALL);
                let _ = std::panic::catch_unwind(|| bcsut::construct_with(sym, Panics).is_ok());
                let out = src.pick(&outs).clone();
                let _ = std::panic::catch_unwind(|| panicking_generate(&out));
                obs.count("panicking conversions", 2);
            }
            // A call made while a panic unwinds.
            93 => {
                let (sym, data) = src.pick(&pool).clone();
                struct During<'a>(Sym, &'a str, &'a std::cell::Cell<u64>);
                impl Drop for During<'_> {
                    fn drop(&mut self) {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bcsut::construct(self.0, self.1).map(|o| o.encode())));
                        self.2.set(r.as_ref().map_or(0, res_hash));
                    }
                }
                let during = std::cell::Cell::new(1);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let _d = During(sym, &data, &during);
                    std::panic::resume_unwind(Box::new(0u8));
                }));
                let after = call("the call", || bcsut::construct(sym, &data).map(|o| o.encode()));
                if during.get() != after.as_ref().map_or(0, res_hash) {
                    return err(i, format!("{:?} {} while a panic unwinds: unlike the same call later", sym, short(&data)));
                }
                obs.count("calls while a panic unwinds", 1);
            }
            // Calls that fail.
            94..=96 => {
                let sym = *src.pick(&Sym::ALL);
                let data = gen::foreign(&mut src, sym);
                let r = check::construct(sym, &data);
                let out = match &r {
                    Ok(Ok(_)) => 100,
                    Ok(Err(k)) => *k as u64,
                    Err(_) => 101,
                };
                if !w.same(hash(&[&[1, sym as u8], data.as_bytes()]), out).1 {
                    return err(i, format!("constructing {:?} {}: {:?} unlike before", sym, short(&data), r.map(|r| r.err())));
                }
                obs.count("failing calls", 1);
            }
            // Drop values, a few or all.
            _ => {
                if src.chance(1, 40) {
                    w.slots.clear();
                } else if !w.slots.is_empty() {
                    let k = src.below(w.slots.len());
                    w.slots.swap_remove(k);
                }
                obs.count("drops", 1);
            }
        }
        if !obs.quiet && i % 16 == 0 {
            obs.dim("live values x operation", (w.slots.len() as u64) << 8 | what as u64);
        }
    }
    Ok(true)
}

fn generate_via(via: usize, out: &Out, mods: &[u8], buf: &mut Vec<u8>) -> Result<Vec<u8>, Kind> {
    use bcsut::barcoders::generators as g;
    match (via, out) {
        (0 | 1, _) => {
            buf.clear();
            buf.extend_from_slice(mods);
            generate(out, buf)
        }
        (2, Out::Ascii { height, xdim }) => {
            g::ascii::ASCII { height: *height, xdim: *xdim }.generate(mods.to_vec()).map(|s| s.into_bytes()).map_err(bcsut::kind)
        }
        (2, Out::Json { height, xdim }) => {
            g::json::JSON { height: *height, xdim: *xdim }.generate(Rc::<[u8]>::from(mods)).map(|s| s.into_bytes()).map_err(bcsut::kind)
        }
        (2, Out::Svg(c)) => bcsut::svg_value(c).generate(mods.to_vec().into_boxed_slice()).map(|s| s.into_bytes()).map_err(bcsut::kind),
        (3, Out::Ascii { height, xdim }) => {
            g::ascii::ASCII { height: *height, xdim: *xdim }.generate(NestedMods(mods)).map(|s| s.into_bytes()).map_err(bcsut::kind)
        }
        (3, Out::Json { height, xdim }) => {
            g::json::JSON { height: *height, xdim: *xdim }.generate(NestedMods(mods)).map(|s| s.into_bytes()).map_err(bcsut::kind)
        }
        (3, Out::Svg(c)) => bcsut::svg_value(c).generate(NestedMods(mods)).map(|s| s.into_bytes()).map_err(bcsut::kind),
        // The same generator value used for other modules before.
        (4, Out::Svg(c)) => {
            let s = bcsut::svg_value(c);
            let _ = s.generate([1u8, 0, 1]);
            s.generate(mods).map(|s| s.into_bytes()).map_err(bcsut::kind)
        }
        #[cfg(feature = "image")]
        (2 | 5, Out::Img(c)) if c.fmt != bcsut::Fmt::Buffer => {
            let v = bcsut::img::value(c);
            let w = v;
            let _ = w.generate(if via == 5 { &[1u8, 0, 1][..] } else { &[] });
            v.generate(mods.to_vec()).map_err(bcsut::kind)
        }
        _ => generate(out, mods),
    }
}

fn panicking_generate(out: &Out) -> bool {
    use bcsut::barcoders::generators as g;
    match out {
        Out::Ascii { height, xdim } => g::ascii::ASCII { height: *height, xdim: *xdim }.generate(Panics).is_ok(),
        Out::Json { height, xdim } => g::json::JSON { height: *height, xdim: *xdim }.generate(Panics).is_ok(),
        Out::Svg(c) => bcsut::svg_value(c).generate(Panics).is_ok(),
        #[cfg(feature = "image")]
        Out::Img(c) => bcsut::img::value(c).generate(Panics).is_ok(),
        #[cfg(not(feature = "image"))]
        Out::Img(_) => false,
    }
}

/// The digest lines of a fixed list of calls, made in an order chosen by `order`:
/// "<call number> <hash of the result>" in call order, plus the calls themselves.
pub fn digest(seed: u64, order: u64, per_sym: usize) -> (Vec<u64>, Vec<String>) {
    let mut src = Src::seeded(seed);
    let images = cfg!(feature = "image");
    let pool = data_pool(&mut src, per_sym);
    let outs = out_pool(&mut src, 10 * per_sym, images);
    enum Call {
        Enc(usize),
        Gen(usize, usize),
    }
    let mut calls: Vec<Call> = (0..pool.len()).map(Call::Enc).collect();
    for _ in 0..outs.len() * 30 {
        calls.push(Call::Gen(src.below(outs.len()), src.below(pool.len())));
    }
    let mut perm: Vec<usize> = (0..calls.len()).collect();
    match order {
        0 => {}
        1 => perm.reverse(),
        _ => {
            let mut r = Src::seeded(seed ^ order.wrapping_mul(0x1234_5678_9abc_def1));
            for i in (1..perm.len()).rev() {
                perm.swap(i, r.below(i + 1));
            }
        }
    }
    // Modules for the generators come from the model, so that they do not depend on the library.
    let mods = |k: usize| {
        let (s, d) = &pool[k];
        match spec::admit(*s, d) {
            Admit::Accept => spec::render(*s, d),
            _ => (0..(hash(&[d.as_bytes()]) % 60) as u8).map(|i| (i as u32 * 7 % 3 == 0) as u8).collect(),
        }
    };
    let mut res = vec![0u64; calls.len()];
    for i in perm {
        let r = match &calls[i] {
            Call::Enc(k) => {
                let (s, d) = &pool[*k];
                call("the call", || bcsut::construct(*s, d).map(|o| o.encode()))
            }
            Call::Gen(o, k) => call("the call", || generate(&outs[*o], &mods(*k))),
        };
        res[i] = match r {
            Ok(r) => res_hash(&r),
            Err(_) => 1,
        };
    }
    let text = calls
        .iter()
        .map(|c| match c {
            Call::Enc(k) => format!("{:?} {}", pool[*k].0, short(&pool[*k].1)),
            Call::Gen(o, k) => format!("{} of {}", outs[*o].to_j().write(), short(&mods_str(&mods(*k)))),
        })
        .collect();
    (res, text)
}

/// How many kinds of bulk there are: every symbology and four generators.
pub const BULKS: u8 = Sym::ALL.len() as u8 + 4;

/// The i-th call of a bulk: half of them serial numbers, as a printer of labels makes them.
fn bulk_call(seed: u64, which: u8, i: u64) -> Case {
    let mut src = Src::seeded(mix(seed ^ mix(i + 1)));
    let src = &mut src;
    match Sym::ALL.get(which as usize) {
        Some(&sym) => {
            let data = if i % 2 == 0 {
                let n = (seed % 1_000_000).wrapping_add(i / 2);
                match sym {
                    Sym::Code128 => format!("{}SN{:08}", gen::SELS[1], n),
                    Sym::Bookland => format!("978{:09}", n),
                    _ => match spec::payload_len(sym) {
                        Some(w) => format!("{:0w$}", n % 10u64.pow(w as u32), w = w),
                        None if sym == Sym::Supp => format!("{:05}", n % 100_000),
                        None => format!("{:08}", n),
                    },
                }
            } else if let Some(w) = spec::payload_len(sym) {
                let mut s: String = (0..w).map(|_| (b'0' + src.below(10) as u8) as char).collect();
                if sym == Sym::Bookland {
                    s.replace_range(..3, "979");
                }
                s
            } else {
                gen::valid(src, sym, 14)
            };
            Case::Sym { sym, data }
        }
        None => {
            let n = src.range(1, 70);
            let mods: Vec<u8> = (0..n).map(|_| src.below(2) as u8).collect();
            let out = match which as usize - Sym::ALL.len() {
                0 => Out::Ascii { height: src.range(1, 3), xdim: src.range(1, 2) },
                1 => Out::Json { height: src.range(1, 100_000), xdim: src.range(1, 1000) },
                2 => Out::Svg(gen::svg_cfg_printable(src)),
                _ => {
                    let (fg, bg) = (gen::colour(src), gen::colour(src));
                    Out::Img(bcsut::ImgCfg { fmt: bcsut::Fmt::Buffer, height: src.range(1, 3) as u32, xdim: 1, rot: src.below(4) as u8, fg, bg })
                }
            };
            Case::Gen { out, mods }
        }
    }
}

/// Many different calls of one kind: every result is compared with the model,
/// and with the result of the same call later on.
pub fn bulk(seed: u64, which: u8, n: u64, obs: &mut Obs) -> Verdict {
    if which >= BULKS || which == BULKS - 1 && !cfg!(feature = "image") {
        return Ok(false);
    }
    let mut first = Vec::with_capacity(n as usize);
    for i in (0..n).chain((0..n).rev()) {
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let case = bulk_call(seed, which, i);
        let (r, wrong) = match &case {
            Case::Sym { sym, data } => {
                let r = call("the call", || bcsut::construct(*sym, data).map(|o| o.encode()));
                let wrong = match &r {
                    Ok(Ok(m)) => encoded_right(*sym, data, m, obs),
                    _ if spec::admit(*sym, data) == Admit::Accept => Err("refused or panicked".into()),
                    _ => Ok(()),
                };
                (r, wrong)
            }
            Case::Gen { out, mods } => {
                let r = call("the call", || generate(out, mods));
                let wrong = match &r {
                    Ok(r) => generated_right(out, mods, r),
                    Err(e) => Err(e.clone()),
                };
                (r, wrong)
            }
            _ => unreachable!(),
        };
        let h = r.as_ref().map_or(0, res_hash);
        let say = |e: String| format!("after many calls: {}: {}", short(&case.to_j().write()), e);
        blame(&case, h, wrong, obs).map_err(say)?;
        if (first.len() as u64) < n {
            first.push(h);
        } else if first[i as usize] != h {
            return Err(say("the second time the result is another".into()));
        }
    }
    obs.count("calls in bulk", 2 * n);
    Ok(true)
}
