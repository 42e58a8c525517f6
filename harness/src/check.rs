//! The monitors: each runs the real code on a case and judges what it observed.

use crate::case::{mods_str, Case, Out, SvgOp};
use crate::jsn::{self, J};
use crate::rng::hash;
use crate::spec::{self, Admit};
use crate::xml;
use bcsut::{Kind, Obj, Rgba, SvgCfg, Sym};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are observations here, not messages for the terminal.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("BCMON_DEBUG").is_some() {
            eprintln!("panic: {} ({})", m, at);
        }
        crate::seal::HOOKED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{} ({})", m, at));
    }));
}

/// Runs library code; a panic becomes an error.
pub fn call<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let p = PANIC.with(|p| p.borrow().clone());
        format!("{} panicked: {}", what, p)
    })
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub const DISTINCT_CAP: usize = 3_000_000;

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    /// Cases outside the property's domain.
    pub skipped: u64,
    pub distinct: HashSet<u64>,
    pub dims: BTreeMap<&'static str, HashSet<u64>>,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<J>,
    /// Signatures of known findings the known-findings file lists.
    pub known: Vec<String>,
    pub findings: BTreeMap<String, u64>,
    pub quiet: bool,
    pub fuzz: bool,
}

impl Obs {
    pub fn dim(&mut self, d: &'static str, v: u64) {
        if !self.quiet && !self.fuzz {
            self.dims.entry(d).or_default().insert(v);
        }
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        if !self.quiet {
            *self.counts.entry(c).or_default() += n;
        }
    }
    pub fn detailed(&self) -> bool {
        !self.quiet && !self.fuzz && (self.evals < 100_000 || self.evals % 16 == 0)
    }
}

/// Whether the case was in the property's domain.
pub type Verdict = Result<bool, String>;

pub fn short(s: &str) -> String {
    let n = s.chars().count();
    if n <= 120 {
        format!("{:?}", s)
    } else {
        let h: String = s.chars().take(60).collect();
        let t: String = s.chars().skip(n - 30).collect();
        format!("{:?}..({} characters)..{:?}", h, n, t)
    }
}

pub fn diff(exp: &[u8], got: &[u8]) -> String {
    let i = exp.iter().zip(got).position(|(a, b)| a != b).unwrap_or(exp.len().min(got.len()));
    let w = |v: &[u8]| mods_str(&v[i.saturating_sub(8).min(v.len())..(i + 16).min(v.len())]);
    format!(
        "expected {} modules, got {}; first difference at module {}: expected ..{}.. got ..{}..",
        exp.len(),
        got.len(),
        i,
        w(exp),
        w(got)
    )
}

pub fn check(prop: &str, case: &Case, obs: &mut Obs) -> Verdict {
    match (prop, case) {
        ("C24", Case::Drift { seed, n }) => crate::mem::drift(*seed, *n, obs),
        ("C24", _) => crate::mem::check(case, obs),
        ("C29", _) => crate::seal::check(case, obs),
        ("C30", _) => crate::shown::check(case, obs),
        (_, Case::Time { which }) => crate::time::check(*which, obs),
        ("C02", Case::Gate { sym, payload }) => gate(*sym, payload, obs),
        ("C08", Case::Flags { data, chk, ops }) => flags(data, *chk, ops, obs),
        ("C11" | "C12", Case::Sym { sym, data }) => admission(*sym, data, obs),
        ("C13", Case::Sym { sym, data }) => total(*sym, data, obs),
        ("C12" | "C13", Case::Huge { sym, len, ch }) => huge(*sym, *len, *ch),
        (_, Case::Sym { sym, data }) => symbol(prop, *sym, data, obs),
        ("C18", Case::Gen { out: Out::Svg(c), mods }) => svg_document(c, mods, obs),
        (_, Case::Gen { out: Out::Svg(c), mods }) => svg_geometry(c, mods, obs),
        (_, Case::Gen { out: Out::Ascii { height, xdim }, mods }) => ascii(*height, *xdim, mods, obs),
        (_, Case::Gen { out: Out::Json { height, xdim }, mods }) => json(*height, *xdim, mods, obs),
        (_, Case::Gen { out: Out::Img(c), mods }) => img::picture(c, mods, obs),
        (_, Case::ImgSize { cfg, n }) => img::size(cfg, *n, obs),
        (_, Case::E2e { sym, data, out }) => e2e(*sym, data, out, obs),
        (_, Case::Short { which, height, mods }) => shorthand(*which, *height, mods, obs),
        (_, Case::Build { height, ops, mods }) => build(*height, ops, mods, obs),
        (_, Case::Alias { sym, data }) => alias(*sym, data, obs),
        (_, Case::Direct { variant, digits, next }) => crate::public::direct(*variant, digits, next, obs),
        (_, Case::Types { sym, data }) => crate::public::texts(*sym, data, obs),
        (_, Case::GenTypes { out, then, mods }) => crate::public::generators(out, then, mods, obs),
        (_, Case::Tables) => crate::public::tables(obs),
        (_, Case::Hist { seed, ops }) => crate::hist::check(*seed, *ops, obs),
        (_, Case::Vast { which }) => img::vast(*which, obs),
        (_, Case::Wide { out, len, bars }) => wide(out, *len, *bars, obs),
        (_, Case::First { seed, n }) => crate::first::check(*seed, *n, obs),
        (_, Case::Twins { seed, n }) => crate::twins::check(*seed, *n, obs),
        (_, Case::Hot { seed, threads, millis }) => crate::twins::hot(*seed, *threads, *millis, obs),
        (_, Case::Bulk { seed, which, n }) => crate::hist::bulk(*seed, *which, *n, obs),
        (_, Case::Threads { seed, threads, rounds, ops }) => {
            crate::threads::check(*seed, *threads, *rounds, *ops, obs)
        }
        _ => Err(format!("harness: case {:?} is not one of {}", case.to_j().write(), prop)),
    }
}

// ------------------------------------------------------------------ symbologies

pub fn construct(sym: Sym, data: &str) -> Result<Result<Obj, Kind>, String> {
    call("the constructor", || bcsut::construct(sym, data))
}

pub fn encode(o: &Obj) -> Result<Vec<u8>, String> {
    call("encode", || o.encode())
}

/// The known findings about Codabar: characters whose drawn pattern is listed.
fn codabar_alternatives(known: &[String]) -> Vec<(char, Vec<u8>, String)> {
    known
        .iter()
        .filter_map(|k| {
            let r = k.strip_prefix("codabar:")?;
            let c = r.chars().next()?;
            let m = r[c.len_utf8()..].strip_prefix(':')?;
            Some((c, m.bytes().map(|b| b - b'0').collect(), k.clone()))
        })
        .collect()
}

/// Whether the observed modules differ from the standard exactly by listed patterns.
/// Returns the signatures at work.
pub fn codabar_known(data: &str, got: &[u8], known: &[String]) -> Option<Vec<String>> {
    let alts = codabar_alternatives(known);
    let alts: Vec<_> = alts.into_iter().filter(|(c, _, _)| data.contains(*c)).collect();
    for mask in 1u32..1 << alts.len().min(8) {
        let mut m = Vec::with_capacity(got.len());
        for (i, c) in data.chars().enumerate() {
            if i > 0 {
                m.push(0);
            }
            match alts.iter().enumerate().find(|(k, (a, _, _))| *a == c && mask >> k & 1 == 1) {
                Some((_, (_, p, _))) => m.extend(p),
                None => m.extend(spec::codabar_pattern(c)),
            }
        }
        if m == got {
            return Some(alts.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, a)| a.2.clone()).collect());
        }
    }
    None
}

pub fn note_findings(obs: &mut Obs, sigs: Vec<String>) {
    if !obs.quiet {
        for s in sigs {
            *obs.findings.entry(s).or_default() += 1;
        }
    }
}

fn cover_symbol(sym: Sym, data: &str, obs: &mut Obs) {
    if !obs.detailed() {
        return;
    }
    let n = data.chars().count();
    obs.dim("lengths", n as u64);
    let s = sym as u64;
    for (i, c) in data.chars().take(64).enumerate() {
        obs.dim("characters", s << 32 | c as u64);
        obs.dim("character x position", s << 48 | (i as u64) << 32 | c as u64);
    }
    let mut prev = None;
    for c in data.chars().take(64) {
        if let Some(p) = prev {
            obs.dim("adjacent character pairs", s << 56 | (p as u64) << 28 | c as u64);
        }
        prev = Some(c);
    }
    if n <= 2000 {
        for (i, c) in spec::checks(sym, data).into_iter().enumerate() {
            obs.dim("check values", s << 32 | (i as u64) << 16 | c as u64);
        }
    }
}

fn symbol(prop: &str, sym: Sym, data: &str, obs: &mut Obs) -> Verdict {
    let admit = spec::admit(sym, data);
    if sym == Sym::Supp && matches!(data.len(), 0..=6) && data.bytes().all(|b| b.is_ascii_digit()) && admit != Admit::Accept {
        // Part of C03: the neighbouring lengths are refused.
        return match construct(sym, data)? {
            Err(Kind::Length) => Ok(true),
            r => Err(format!("{:?} {}: {:?} instead of the length error", sym, short(data), r.err())),
        };
    }
    if admit != Admit::Accept {
        return Ok(false);
    }
    let o = match construct(sym, data).map_err(|e| format!("{:?} {}: {}", sym, short(data), e))? {
        Ok(o) => o,
        // Wrongly refused data is the business of the admission properties, except where the
        // property itself says which strings have a symbol.
        Err(e) if matches!(sym, Sym::Itf | Sym::Stf | Sym::Supp) => {
            return Err(format!("{:?} {} was refused: {:?}", sym, short(data), e));
        }
        Err(_) => return Ok(false),
    };
    let got = encode(&o).map_err(|e| format!("{:?} {}: {}", sym, short(data), e))?;
    let exp = spec::render(sym, data);
    cover_symbol(sym, data, obs);
    if got != exp {
        if sym == Sym::Codabar {
            if let Some(s) = codabar_known(data, &got, &obs.known) {
                note_findings(obs, s);
                return Ok(true);
            }
        }
        let read = spec::decode(sym, &got);
        return Err(format!("{:?} {}: {}; a reader sees {:?}", sym, short(data), diff(&exp, &got), read.map(|s| short(&s))));
    }
    // The reader is an independent second opinion on the same modules.
    if data.len() < 5000 && !(prop == "C10" && data.len() > 400) {
        match spec::decode(sym, &got) {
            Ok(s) if s == spec::canonical(sym, data) => {}
            r => return Err(format!("{:?} {}: a reader sees {:?}", sym, short(data), r.map(|s| short(&s)))),
        }
        obs.count("symbols read back", 1);
    }
    obs.count("modules compared", got.len() as u64);
    if sym == Sym::Upca && prop == "C01" {
        if let Ok(Ok(e)) = construct(Sym::Ean13, &format!("0{}", data)) {
            let m = encode(&e)?;
            if m != got {
                return Err(format!("UPC-A {} is not the EAN-13 symbol of 0{}: {}", data, data, diff(&m, &got)));
            }
        }
    }
    Ok(true)
}

fn gate(sym: Sym, payload: &str, obs: &mut Obs) -> Verdict {
    if spec::payload_len(sym) != Some(payload.len()) || !payload.bytes().all(|b| b.is_ascii_digit()) {
        return Ok(false);
    }
    let d: Vec<u8> = payload.bytes().map(|b| b - b'0').collect();
    let right = spec::mod10(&d);
    let alone = match construct(sym, payload)? {
        Ok(o) => encode(&o)?,
        Err(e) => return Err(format!("{:?} payload {} was refused: {:?}", sym, payload, e)),
    };
    let mut s = payload.to_string();
    for k in 0..10u8 {
        s.push((b'0' + k) as char);
        match (construct(sym, &s)?, k == right) {
            (Ok(o), true) => {
                let m = encode(&o)?;
                if m != alone {
                    return Err(format!("{:?}: {} and {} give different symbols: {}", sym, payload, s, diff(&alone, &m)));
                }
            }
            (Err(e), true) => return Err(format!("{:?} {}: right check digit refused with {:?}", sym, s, e)),
            (Ok(_), false) => return Err(format!("{:?} {}: wrong check digit accepted (right: {})", sym, s, right)),
            (Err(Kind::Checksum), false) => {}
            (Err(e), false) => return Err(format!("{:?} {}: wrong check digit refused with {:?}", sym, s, e)),
        }
        s.pop();
    }
    if obs.detailed() {
        obs.dim("check values", (sym as u64) << 8 | right as u64);
        for (i, c) in payload.bytes().enumerate() {
            obs.dim("character x position", (sym as u64) << 32 | (i as u64) << 8 | c as u64);
        }
    }
    obs.count("check digits tried", 10);
    Ok(true)
}

fn flags(data: &str, chk: bool, ops: &[u8], obs: &mut Obs) -> Verdict {
    let sym = if chk { Sym::Code39Chk } else { Sym::Code39 };
    if spec::admit(sym, data) != Admit::Accept {
        return Ok(false);
    }
    let mut o = match construct(sym, data)? {
        Ok(o) => o,
        Err(_) => return Ok(false),
    };
    let mut on = chk;
    for (i, op) in ops.iter().enumerate() {
        match op {
            0 | 1 => {
                on = *op == 1;
                o.set_checksum(on);
            }
            _ => {
                let exp = spec::render(if on { Sym::Code39Chk } else { Sym::Code39 }, data);
                let got = encode(&o)?;
                if got != exp {
                    return Err(format!(
                        "Code39 {} after operations {} (checksum {}): {}",
                        short(data),
                        mods_str(&ops[..=i]),
                        on,
                        diff(&exp, &got)
                    ));
                }
                obs.count("encodings after flag changes", 1);
            }
        }
    }
    obs.dim("flag histories", hash(&[ops]));
    Ok(true)
}

fn admission(sym: Sym, data: &str, obs: &mut Obs) -> Verdict {
    let exp = spec::admit(sym, data);
    let got = construct(sym, data).map_err(|e| format!("{:?} {}: {}", sym, short(data), e))?;
    let what = match (&got, &exp) {
        (Ok(_), Admit::Accept) => 1,
        (Err(e), Admit::Reject(k)) if k.contains(e) => 2 + *e as u64,
        // A wrong retail check digit is the business of another property.
        (Ok(_), Admit::Reject([Kind::Checksum])) => return Ok(false),
        (Err(Kind::Checksum), Admit::Accept) => return Ok(false),
        (r, e) => {
            return Err(format!(
                "{:?} {}: expected {:?}, got {}",
                sym,
                short(data),
                e,
                match r {
                    Ok(_) => "acceptance".to_string(),
                    Err(k) => format!("the {:?} error", k),
                }
            ))
        }
    };
    if obs.detailed() {
        obs.dim("outcome x symbology", (sym as u64) << 8 | what);
        obs.dim("lengths x outcome", (data.chars().count() as u64) << 8 | what);
        for c in data.chars().take(16) {
            obs.dim("characters", c as u64);
        }
    }
    obs.count(if what == 1 { "accepted" } else { "refused" }, 1);
    Ok(true)
}

pub fn binary(m: &[u8]) -> Result<(), String> {
    match (m.first(), m.iter().position(|&b| b > 1)) {
        (None, _) => Err("no modules".into()),
        (_, Some(i)) => Err(format!("module {} is {}", i, m[i])),
        (Some(0), _) => Err("the first module is a space".into()),
        _ => Ok(()),
    }
}

fn total(sym: Sym, data: &str, obs: &mut Obs) -> Verdict {
    let ctx = |e: String| format!("{:?} {}: {}", sym, short(data), e);
    let r = construct(sym, data).map_err(ctx)?;
    match &r {
        Ok(o) => {
            let m = encode(o).map_err(ctx)?;
            binary(&m).map_err(ctx)?;
            obs.count("encoded", 1);
            if obs.detailed() {
                obs.dim("symbol lengths x symbology", (m.len() as u64) << 8 | sym as u64);
            }
        }
        Err(_) => obs.count("refused", 1),
    }
    if obs.detailed() {
        let kind = match &r {
            Ok(_) => 0,
            Err(k) => 1 + *k as u64,
        };
        obs.dim("outcome x symbology", (sym as u64) << 8 | kind);
        obs.dim("lengths x symbology", (data.len() as u64) << 8 | sym as u64);
    }
    call("formatting the result", || {
        if data.len() < 64 {
            match &r {
                Ok(o) => drop(o.debug()),
                Err(k) => drop(format!("{:?}", k)),
            }
        }
    })
    .map_err(ctx)?;
    Ok(true)
}

fn huge(sym: Sym, len: u64, ch: u8) -> Verdict {
    let Some(data) = crate::big::repeated(len, ch) else {
        return Ok(false);
    };
    match construct(sym, data)? {
        Err(Kind::Length) => Ok(true),
        Err(k) => Err(format!("{:?} {} times {:?}: {:?} error instead of the length error", sym, len, ch as char, k)),
        Ok(_) => Err(format!("{:?} {} times {:?}: accepted", sym, len, ch as char)),
    }
}

/// More modules, or a larger text, than a 32-bit number counts.
fn wide(out: &Out, len: u64, bars: bool, obs: &mut Obs) -> Verdict {
    let Some(mods) = crate::big::modules(len, bars) else {
        return Ok(false);
    };
    let ctx = |e: String| format!("{} of {} modules: {}", out.to_j().write(), len, e);
    match out {
        Out::Svg(c) => match call("generate", || bcsut::svg(c, mods)).map_err(ctx)? {
            Ok(s) => svg_right(c, mods, &s).map_err(ctx)?,
            Err(k) => return Err(ctx(format!("{:?} error", k))),
        },
        #[cfg(feature = "image")]
        Out::Img(c) => {
            let b = call("generate", || bcsut::img::bytes(c, mods).map(|b| b.len())).map_err(ctx)?;
            let i = call("generate_buffer", || bcsut::img::buffer(c, mods).map(|b| b.2.len())).map_err(ctx)?;
            for r in [b, i] {
                if r != Err(Kind::Generate) {
                    return Err(ctx(format!("{:?} instead of the generate error", r)));
                }
            }
        }
        // A right text does not fit into the memory, a wrong one may.
        Out::Ascii { .. } | Out::Json { .. } => {
            let exp = match out {
                Out::Ascii { height: 0, .. } => 0,
                Out::Ascii { height, xdim } => (len as u128 * *xdim as u128 + 1) * *height as u128 - 1,
                Out::Json { height, xdim } => format!("{{\"height\":{},\"xdim\":{},\"encoding\":[]}}", height, xdim).len() as u128 + (len as u128 * 2).saturating_sub(1),
                _ => unreachable!(),
            };
            match crate::big::child(&Case::Wide { out: out.clone(), len, bars })? {
                Some(n) if n != exp => return Err(ctx(format!("{} bytes instead of {}", n, exp))),
                _ => obs.count("texts larger than the memory", 1),
            }
        }
        #[allow(unreachable_patterns)]
        _ => return Ok(false),
    }
    obs.count("calls of more than 32 bits", 1);
    Ok(true)
}

fn alias(sym: Sym, data: &str, obs: &mut Obs) -> Verdict {
    let base = match sym {
        Sym::Jan | Sym::Bookland => Sym::Ean13,
        Sym::Usd8 => Sym::Code11,
        Sym::Code39Chk => Sym::Code39,
        _ => return Ok(false),
    };
    let run = |s: Sym, flag: bool| -> Result<Result<Vec<u8>, Kind>, String> {
        Ok(match construct(s, data)? {
            Ok(mut o) => {
                if flag {
                    o.set_checksum(true);
                }
                Ok(encode(&o)?)
            }
            Err(k) => Err(k),
        })
    };
    let a = run(sym, false)?;
    let b = run(base, sym == Sym::Code39Chk)?;
    if a != b {
        return Err(format!(
            "{:?} and {:?} differ on {}: {} / {}",
            sym,
            base,
            short(data),
            a.map_or_else(|k| format!("{:?}", k), |m| short(&mods_str(&m))),
            b.map_or_else(|k| format!("{:?}", k), |m| short(&mods_str(&m)))
        ));
    }
    obs.dim("aliases x outcome", (sym as u64) << 1 | a.is_ok() as u64);
    Ok(true)
}

// ------------------------------------------------------------------ text generators

fn show_mods(m: &[u8]) -> String {
    short(&mods_str(m))
}

pub fn ascii_expected(height: usize, xdim: usize, mods: &[u8]) -> String {
    if height == 0 {
        return String::new();
    }
    let row: String = mods.iter().flat_map(|&b| std::iter::repeat(if b == 1 { '#' } else { ' ' }).take(xdim)).collect();
    vec![row; height].join("\n")
}

fn cover_gen(out: &Out, mods: &[u8], obs: &mut Obs) {
    if !obs.detailed() {
        return;
    }
    obs.dim("module counts", mods.len() as u64);
    let (h, x) = match out {
        Out::Ascii { height, xdim } | Out::Json { height, xdim } => (*height as u64, *xdim as u64),
        Out::Svg(c) => (c.height as u64, c.xdim as u64),
        Out::Img(c) => {
            obs.dim("format x rotation", (c.fmt as u64) << 8 | c.rot as u64);
            (c.height as u64, c.xdim as u64)
        }
    };
    obs.dim("heights", h);
    obs.dim("X dimensions", x);
    match out {
        Out::Svg(SvgCfg { fg, bg, .. }) | Out::Img(bcsut::ImgCfg { fg, bg, .. }) => {
            for i in 0..4 {
                obs.dim("colour channel values", (i as u64) << 8 | fg[i] as u64);
                obs.dim("colour channel values", (4 + i as u64) << 8 | bg[i] as u64);
            }
        }
        _ => {}
    }
}

fn ascii(height: usize, xdim: usize, mods: &[u8], obs: &mut Obs) -> Verdict {
    let ctx = |e: String| format!("ASCII height {} xdim {} of {}: {}", height, xdim, show_mods(mods), e);
    cover_gen(&Out::Ascii { height, xdim }, mods, obs);
    let got = call("generate", || bcsut::ascii(height, xdim, mods)).map_err(ctx)?;
    let exp = ascii_expected(height, xdim, mods);
    match got {
        Ok(s) if s == exp => Ok(true),
        Ok(s) => {
            let i = s.bytes().zip(exp.bytes()).position(|(a, b)| a != b).unwrap_or(s.len().min(exp.len()));
            Err(ctx(format!("output of {} bytes differs from the expected {} bytes at byte {}", s.len(), exp.len(), i)))
        }
        Err(k) => Err(ctx(format!("{:?} error", k))),
    }
}

/// Reads JSON output: (height, xdim, modules).
pub fn json_read(s: &str) -> Result<(String, String, Vec<u8>), String> {
    let j = jsn::parse(s).map_err(|e| format!("not valid JSON: {}", e))?;
    let J::Obj(m) = &j else {
        return Err("not an object".into());
    };
    let mut names: Vec<&str> = m.iter().map(|(k, _)| k.as_str()).collect();
    names.sort();
    if names != ["encoding", "height", "xdim"] {
        return Err(format!("members {:?}", names));
    }
    let num = |k: &str| match j.get(k) {
        Some(J::Num(n)) => Ok(n.clone()),
        o => Err(format!("{} is {:?}", k, o)),
    };
    let mut mods = vec![];
    for x in j.get("encoding").and_then(|e| e.arr()).ok_or("encoding is not an array")? {
        match x {
            J::Num(n) if n == "0" => mods.push(0),
            J::Num(n) if n == "1" => mods.push(1),
            o => return Err(format!("array element {:?}", o)),
        }
    }
    Ok((num("height")?, num("xdim")?, mods))
}

fn json(height: usize, xdim: usize, mods: &[u8], obs: &mut Obs) -> Verdict {
    let ctx = |e: String| format!("JSON height {} xdim {} of {}: {}", height, xdim, show_mods(mods), e);
    cover_gen(&Out::Json { height, xdim }, mods, obs);
    let s = match call("generate", || bcsut::json(height, xdim, mods)).map_err(ctx)? {
        Ok(s) => s,
        Err(k) => return Err(ctx(format!("{:?} error", k))),
    };
    let (h, x, m) = json_read(&s).map_err(ctx)?;
    if h != height.to_string() || x != xdim.to_string() {
        return Err(ctx(format!("it says height {} xdim {}", h, x)));
    }
    if m != mods {
        return Err(ctx(diff(mods, &m)));
    }
    Ok(true)
}

/// What an SVG renderer paints: view box, background, and the covered intervals of the bars.
pub struct Painted {
    pub width: u128,
    pub height: u128,
    /// (x, width) of every foreground rectangle, as written.
    pub bars: Vec<(u128, u128)>,
    pub fills: Vec<(Rgba, Option<u32>)>,
}

fn uint(s: &str) -> Result<u128, String> {
    if s.is_empty() || s.len() > 30 || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("{:?} is not an unsigned integer", s));
    }
    Ok(s.parse().unwrap())
}

fn fill(e: &xml::El) -> Result<(Rgba, Option<u32>), String> {
    let f = e.attr("fill").ok_or("rect without fill")?;
    let h = f.strip_prefix('#').filter(|h| h.len() == 6 && h.bytes().all(|b| b.is_ascii_hexdigit()));
    let h = h.ok_or_else(|| format!("fill {:?} is not #rrggbb", f))?;
    let b = |i: usize| u8::from_str_radix(&h[i..i + 2], 16).unwrap();
    let op = match e.attr("fill-opacity") {
        None => None,
        Some(o) => {
            // Hundredths.
            let (i, f) = o.split_once('.').unwrap_or((o, ""));
            if f.len() > 2 || !(i.is_empty() || i == "0" || i == "1") || !f.bytes().all(|b| b.is_ascii_digit()) {
                return Err(format!("fill-opacity {:?} is not two decimals", o));
            }
            let f: u32 = format!("{:0<2}", f).parse().unwrap();
            Some(f + if i == "1" { 100 } else { 0 })
        }
    };
    Ok(([b(0), b(2), b(4), 0], op))
}

/// Interprets an SVG document.
pub fn svg_read(s: &str) -> Result<Painted, String> {
    let e = xml::parse(s).map_err(|e| format!("not well-formed: {}", e))?;
    if e.name != "svg" {
        return Err(format!("document element {:?}", e.name));
    }
    let vb = e.attr("viewBox").ok_or("no viewBox")?;
    let vb: Vec<&str> = vb.split([' ', ',']).filter(|s| !s.is_empty()).collect();
    if vb.len() != 4 || vb[0] != "0" || vb[1] != "0" {
        return Err(format!("view box {:?}", vb));
    }
    let mut p = Painted { width: uint(vb[2])?, height: uint(vb[3])?, bars: vec![], fills: vec![] };
    for (i, r) in e.children.iter().enumerate() {
        if r.name != "rect" {
            return Err(format!("child {:?}", r.name));
        }
        let n = |k: &str| uint(r.attr(k).unwrap_or("0")).map_err(|m| format!("rect {}: {} {}", i, k, m));
        let (x, y, w, h) = (n("x")?, n("y")?, n("width")?, n("height")?);
        if y != 0 || h != p.height {
            return Err(format!("rect {} spans y {} height {} instead of the full height {}", i, y, h, p.height));
        }
        if i == 0 {
            if x != 0 || w != p.width {
                return Err(format!("background rect at x {} of width {}, view box width {}", x, w, p.width));
            }
        } else {
            p.bars.push((x, w));
        }
        p.fills.push(fill(r)?);
    }
    if p.fills.is_empty() {
        return Err("no background rect".into());
    }
    Ok(p)
}

fn colour_wrong(f: &(Rgba, Option<u32>), c: &Rgba) -> Option<String> {
    let hund = (c[3] as u32 * 200 + 255) / 510;
    let exp = if hund == 100 { None } else { Some(hund) };
    if f.0[..3] != c[..3] || f.1 != exp {
        return Some(format!("drawn as #{:02x}{:02x}{:02x} opacity {:?}/100, requested {:?}", f.0[0], f.0[1], f.0[2], f.1, c));
    }
    None
}

/// The painted bars as maximal covered intervals; overlapping paint is an error.
fn intervals(bars: &[(u128, u128)]) -> Result<Vec<(u128, u128)>, String> {
    let mut b: Vec<(u128, u128)> = bars.iter().filter(|b| b.1 > 0).map(|&(x, w)| (x, x + w)).collect();
    b.sort();
    let mut out: Vec<(u128, u128)> = vec![];
    for (s, e) in b {
        match out.last_mut() {
            Some(l) if s < l.1 => return Err(format!("foreground painted twice from {} to {}", s, l.1.min(e))),
            Some(l) if s == l.1 => l.1 = e,
            _ => out.push((s, e)),
        }
    }
    Ok(out)
}

pub fn module_intervals(mods: &[u8], xdim: u128) -> Vec<(u128, u128)> {
    let mut out: Vec<(u128, u128)> = vec![];
    if xdim == 0 {
        return out;
    }
    for (i, &m) in mods.iter().enumerate() {
        if m == 1 {
            let (s, e) = (i as u128 * xdim, (i as u128 + 1) * xdim);
            match out.last_mut() {
                Some(l) if l.1 == s => l.1 = e,
                _ => out.push((s, e)),
            }
        }
    }
    out
}

/// Everything C17 says about one SVG text.
pub fn svg_right(c: &SvgCfg, mods: &[u8], s: &str) -> Result<(), String> {
    let p = svg_read(s)?;
    if p.width != mods.len() as u128 * c.xdim as u128 || p.height != c.height as u128 {
        return Err(format!("view box {} x {}", p.width, p.height));
    }
    if let Some(e) = colour_wrong(&p.fills[0], &c.bg) {
        return Err(format!("background {}", e));
    }
    for f in &p.fills[1..] {
        if let Some(e) = colour_wrong(f, &c.fg) {
            return Err(format!("bar {}", e));
        }
    }
    let got = intervals(&p.bars)?;
    let exp = module_intervals(mods, c.xdim as u128);
    if got != exp {
        let i = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
        return Err(format!("painted bar {} is {:?}, expected {:?}", i, got.get(i), exp.get(i)));
    }
    Ok(())
}

fn svg_ctx(c: &SvgCfg, mods: &[u8], e: String) -> String {
    format!("SVG {} of {}: {}", Out::Svg(c.clone()).to_j().write(), show_mods(mods), e)
}

fn svg_geometry(c: &SvgCfg, mods: &[u8], obs: &mut Obs) -> Verdict {
    let ctx = |e: String| svg_ctx(c, mods, e);
    cover_gen(&Out::Svg(c.clone()), mods, obs);
    match call("generate", || bcsut::svg(c, mods)).map_err(ctx)? {
        Ok(s) => {
            svg_right(c, mods, &s).map_err(ctx)?;
            if mods.len() <= 4096 {
                // The same settings made with the builder.
                let ctx = |e: String| svg_ctx(c, mods, format!("made with the builder: {}", e));
                match call("generate", || bcsut::svg_built(c, mods)).map_err(ctx)? {
                    Ok(t) if t == s => {}
                    Ok(t) => svg_right(c, mods, &t).map_err(ctx)?,
                    Err(k) => return Err(ctx(format!("{:?} error", k))),
                }
            }
            obs.count("bars compared", mods.iter().filter(|&&m| m == 1).count() as u64);
            Ok(true)
        }
        Err(k) => Err(ctx(format!("{:?} error", k))),
    }
}

/// XML attribute values are normalised on reading only where white space other than blanks occurs,
/// and control characters cannot be written at all.
pub fn printable(c: char) -> bool {
    !c.is_control() && !matches!(c, '\u{FFFE}' | '\u{FFFF}')
}

fn svg_document(c: &SvgCfg, mods: &[u8], obs: &mut Obs) -> Verdict {
    if c.xmlns.as_ref().is_some_and(|x| !x.chars().all(printable)) {
        return Ok(false);
    }
    cover_gen(&Out::Svg(c.clone()), mods, obs);
    let mut first = None;
    for built in [false, true] {
        let ctx = |e: String| svg_ctx(c, mods, if built { format!("made with the builder: {}", e) } else { e });
        let s = match call("generate", || if built { bcsut::svg_built(c, mods) } else { bcsut::svg(c, mods) }).map_err(ctx)? {
            Ok(s) => s,
            Err(k) => return Err(ctx(format!("{:?} error", k))),
        };
        if first.as_ref() != Some(&s) {
            svg_well_formed(c, &s).map_err(ctx)?;
        }
        first = Some(s);
    }
    if let (true, Some(x)) = (obs.detailed(), &c.xmlns) {
        for ch in x.chars() {
            obs.dim("namespace characters", ch as u64);
        }
    }
    Ok(true)
}

fn svg_well_formed(c: &SvgCfg, s: &str) -> Result<(), String> {
    let e = xml::parse(s).map_err(|e| format!("not well-formed: {}", e))?;
    if e.name != "svg" || !e.text.is_empty() {
        return Err(format!("document element {:?} with text {:?}", e.name, e.text));
    }
    for r in &e.children {
        if r.name != "rect" || !r.children.is_empty() || !r.text.is_empty() {
            return Err(format!("child {:?} is not an empty rect", r.name));
        }
    }
    let got = e.attr("xmlns").map(|s| s.to_string());
    if got != c.xmlns {
        return Err(format!("xmlns reads back as {:?}", got));
    }
    Ok(())
}

// ------------------------------------------------------------------ images

#[cfg(feature = "image")]
pub mod img {
    use super::*;
    use bcsut::{Fmt, ImgCfg};
    use image::{AnimationDecoder, ImageDecoder};
    use std::io::Cursor;

    pub struct Raster {
        pub w: u32,
        pub h: u32,
        pub px: Vec<u8>,
    }

    /// The decoder takes a side of 16384 in a bare lossless file for 0: it is given the same
    /// stream in the extended container, which states the sides a second time.
    fn extended(b: &[u8]) -> Option<Vec<u8>> {
        if b.get(8..16)? != b"WEBPVP8L" || *b.get(20)? != 0x2f {
            return None;
        }
        let v = u32::from_le_bytes(b.get(21..25)?.try_into().unwrap());
        let (w, h) = (v & 0x3fff, v >> 14 & 0x3fff);
        if w != 0x3fff && h != 0x3fff {
            return None;
        }
        let mut o = b"RIFF".to_vec();
        o.extend((b.len() as u32 - 8 + 18).to_le_bytes());
        o.extend(b"WEBPVP8X");
        o.extend(10u32.to_le_bytes());
        o.extend([0x10, 0, 0, 0]);
        o.extend(&w.to_le_bytes()[..3]);
        o.extend(&h.to_le_bytes()[..3]);
        o.extend(&b[12..]);
        Some(o)
    }

    pub fn decode(fmt: Fmt, bytes: &[u8]) -> Result<Raster, String> {
        let e = |e: image::ImageError| format!("output does not decode: {}", e);
        let buf = match fmt {
            Fmt::Gif => {
                let d = image::codecs::gif::GifDecoder::new(Cursor::new(bytes)).map_err(e)?;
                let dims = d.dimensions();
                let f = d.into_frames().collect_frames().map_err(e)?;
                if f.len() != 1 {
                    return Err(format!("{} frames", f.len()));
                }
                let b = f.into_iter().next().unwrap().into_buffer();
                if b.dimensions() != dims {
                    return Err(format!("frame {:?} on a screen {:?}", b.dimensions(), dims));
                }
                b
            }
            Fmt::Png | Fmt::Webp => {
                let f = if fmt == Fmt::Png { image::ImageFormat::Png } else { image::ImageFormat::WebP };
                let wrapped = if fmt == Fmt::Webp { extended(bytes) } else { None };
                let mut r = image::ImageReader::with_format(Cursor::new(wrapped.as_deref().unwrap_or(bytes)), f);
                r.no_limits();
                r.decode().map_err(e)?.to_rgba8()
            }
            Fmt::Buffer => return Err("harness: a buffer has no bytes".into()),
        };
        Ok(Raster { w: buf.width(), h: buf.height(), px: buf.into_raw() })
    }

    /// Whether the bytes are one whole file of the format, with nothing that would have its pixels
    /// shown otherwise than they are stored.
    pub fn whole(fmt: Fmt, b: &[u8]) -> Result<(), String> {
        let end = |at: usize| if at == b.len() { Ok(()) } else { Err(format!("{} bytes, of which the file takes {}", b.len(), at)) };
        let cut = || "the file is cut short".to_string();
        let get = |a: usize, n: usize| a.checked_add(n).and_then(|e| b.get(a..e)).ok_or_else(cut);
        match fmt {
            Fmt::Png => {
                let mut at = 8;
                loop {
                    let n = u32::from_be_bytes(get(at, 4)?.try_into().unwrap()) as usize;
                    let name = get(at + 4, 4)?;
                    let data = get(at + 8, n)?;
                    get(at + 8 + n, 4)?;
                    at += n + 12;
                    match name {
                        b"IEND" => return end(at),
                        b"gAMA" | b"cHRM" | b"iCCP" | b"cICP" | b"eXIf" | b"acTL" | b"fcTL" | b"fdAT" => {
                            return Err(format!("a {} part", String::from_utf8_lossy(name)));
                        }
                        b"pHYs" if data.len() == 9 && data[..4] != data[4..8] => return Err("pixels that are not square".into()),
                        _ => {}
                    }
                }
            }
            Fmt::Gif => {
                let table = |flags: u8| if flags & 0x80 != 0 { 3usize << ((flags & 7) + 1) } else { 0 };
                let blocks = |mut at: usize| -> Result<usize, String> {
                    loop {
                        let n = get(at, 1)?[0] as usize;
                        at += 1 + n;
                        if n == 0 {
                            return Ok(at);
                        }
                    }
                };
                if !matches!(get(12, 1)?[0], 0 | 49) {
                    return Err("pixels that are not square".into());
                }
                let mut at = 13 + table(get(10, 1)?[0]);
                let mut pictures = 0;
                loop {
                    match get(at, 1)?[0] {
                        0x21 => at = blocks(at + 2)?,
                        0x2c => {
                            pictures += 1;
                            at = blocks(at + 11 + table(get(at + 9, 1)?[0]))?;
                        }
                        0x3b if pictures == 1 => return end(at + 1),
                        v => return Err(format!("{} pictures, then a part {}", pictures, v)),
                    }
                }
            }
            Fmt::Webp => {
                let n = u32::from_le_bytes(get(4, 4)?.try_into().unwrap()) as usize;
                let mut at = 12;
                while at < n + 8 {
                    let k = u32::from_le_bytes(get(at + 4, 4)?.try_into().unwrap()) as usize;
                    let name = get(at, 4)?;
                    if matches!(name, b"ICCP" | b"EXIF" | b"ANIM" | b"ANMF") {
                        return Err(format!("a {} part", String::from_utf8_lossy(name)));
                    }
                    get(at + 8, k)?;
                    at += 8 + k + k % 2;
                }
                if at != n + 8 {
                    return Err(format!("a file of {} bytes that holds {}", n + 8, at));
                }
                end(at)
            }
            Fmt::Buffer => Ok(()),
        }
    }

    /// Generates: the pixels, or the error.
    pub fn generate(c: &ImgCfg, mods: &[u8]) -> Result<Result<Raster, Kind>, String> {
        if c.fmt == Fmt::Buffer {
            return Ok(call("generate_buffer", || bcsut::img::buffer(c, mods))?.map(|(w, h, px)| Raster { w, h, px }));
        }
        match call("generate", || bcsut::img::bytes(c, mods))? {
            Ok(b) => Ok(Ok(decode(c.fmt, &b)?)),
            Err(k) => Ok(Err(k)),
        }
    }

    /// Width and height after rotation.
    pub fn sides(c: &ImgCfg, n: usize) -> (u64, u64) {
        let (w, h) = ((n as u64).saturating_mul(c.xdim as u64), c.height as u64);
        if c.rot % 2 == 1 {
            (h, w)
        } else {
            (w, h)
        }
    }

    pub fn limit(f: Fmt) -> u64 {
        match f {
            Fmt::Gif => 65535,
            Fmt::Webp => 16384,
            _ => 0x7fff_ffff,
        }
    }

    /// The colour a pixel must show in this format.
    pub fn shown(f: Fmt, c: Rgba) -> Option<Rgba> {
        match f {
            Fmt::Gif if c[3] == 0 => None,
            Fmt::Gif => Some([c[0], c[1], c[2], 255]),
            _ => Some(c),
        }
    }

    /// Compares every pixel.
    pub fn right(c: &ImgCfg, mods: &[u8], r: &Raster) -> Result<(), String> {
        let (w, h) = sides(c, mods.len());
        if (r.w as u64, r.h as u64) != (w, h) {
            return Err(format!("picture of {} x {}, expected {} x {}", r.w, r.h, w, h));
        }
        if r.px.len() as u64 != w * h * 4 {
            return Err(format!("{} bytes of pixels for {} x {}", r.px.len(), w, h));
        }
        let x = c.xdim as usize;
        let n = mods.len() * x;
        let colour = |m: usize| if mods[m / x] == 1 { c.fg } else { c.bg };
        let bad = |px: &[u8], want: Rgba| match shown(c.fmt, want) {
            Some(s) => px != s,
            None => px[3] != 0,
        };
        let err = |x: usize, y: usize, px: &[u8], want: Rgba| {
            Err(format!("pixel ({}, {}) is {:?}, requested {:?} (foreground {:?}, background {:?})", x, y, px, want, c.fg, c.bg))
        };
        // Position along the bars of a pixel (column for 0 and 180 degrees, row for 90 and 270):
        // a clockwise quarter turn takes column x to row x.
        match c.rot {
            0 | 2 => {
                let exp: Vec<Rgba> = (0..n).map(|i| colour(if c.rot == 0 { i } else { n - 1 - i })).collect();
                for (y, row) in r.px.chunks(4 * n.max(1)).enumerate() {
                    for (x, px) in row.chunks(4).enumerate() {
                        if bad(px, exp[x]) {
                            return err(x, y, px, exp[x]);
                        }
                    }
                }
            }
            _ => {
                for (y, row) in r.px.chunks(4 * (c.height as usize).max(1)).enumerate() {
                    let want = colour(if c.rot == 1 { y } else { n - 1 - y });
                    for (x, px) in row.chunks(4).enumerate() {
                        if bad(px, want) {
                            return err(x, y, px, want);
                        }
                    }
                }
            }
        }
        Ok(())
    }

    pub fn ctx(c: &ImgCfg, what: &str, e: String) -> String {
        format!("{} of {}: {}", Out::Img(*c).to_j().write(), what, e)
    }

    pub fn picture(c: &ImgCfg, mods: &[u8], obs: &mut Obs) -> Verdict {
        let (w, h) = sides(c, mods.len());
        if w == 0 || h == 0 || w > limit(c.fmt) || h > limit(c.fmt) || w * h > 1 << 26 {
            return Ok(false);
        }
        cover_gen(&Out::Img(*c), mods, obs);
        obs.dim("alpha pairs", (c.fg[3] as u64) << 8 | c.bg[3] as u64);
        let f = |e: String| ctx(c, &show_mods(mods), e);
        let made = if c.fmt == Fmt::Buffer {
            generate(c, mods).map_err(f)?
        } else {
            match call("generate", || bcsut::img::bytes(c, mods)).map_err(f)? {
                Ok(b) => {
                    let r = decode(c.fmt, &b).map_err(f)?;
                    whole(c.fmt, &b).map_err(f)?;
                    obs.count("files taken apart", 1);
                    Ok(r)
                }
                Err(k) => Err(k),
            }
        };
        match made {
            Ok(r) => {
                right(c, mods, &r).map_err(f)?;
                obs.count("pixels compared", w * h);
                if c.fmt == Fmt::Buffer && w * h <= 4096 {
                    // The other kinds give the same buffer.
                    for fmt in [Fmt::Gif, Fmt::Png, Fmt::Webp] {
                        let k = ImgCfg { fmt, ..*c };
                        let f = |e: String| ctx(&k, &show_mods(mods), format!("as a buffer: {}", e));
                        match call("generate_buffer", || bcsut::img::buffer(&k, mods)).map_err(f)? {
                            Ok((w, h, px)) => right(c, mods, &Raster { w, h, px }).map_err(f)?,
                            Err(e) => return Err(f(format!("{:?} error", e))),
                        }
                    }
                }
                Ok(true)
            }
            Err(k) => Err(f(format!("{:?} error", k))),
        }
    }

    /// Sizes beyond this are not attempted unless no machine could hold them.
    fn manageable(c: &ImgCfg, obs: &Obs) -> u128 {
        match c.fmt {
            _ if obs.fuzz => 1 << 19,
            // Nothing is compressed.
            Fmt::Buffer => 1 << 27,
            _ => 1 << 25,
        }
    }
    const IMPOSSIBLE: u128 = 1 << 40;

    /// Modules, X dimension, height, rotation, format: sizes around 2^31, 2^32 bytes.
    const VAST: [(usize, u32, u32, u8, Fmt); 10] = [
        (16, 2048, 16384, 0, Fmt::Buffer),
        (1, 65537, 16385, 0, Fmt::Buffer),
        (3, 1, 357_913_942, 0, Fmt::Buffer),
        (268_435_457, 1, 2, 0, Fmt::Buffer),
        (16, 2048, 16384, 1, Fmt::Buffer),
        (32, 1024, 16385, 2, Fmt::Buffer),
        (11, 5958, 16385, 3, Fmt::Buffer),
        (16383, 1, 16383, 1, Fmt::Webp),
        (47, 700, 16500, 0, Fmt::Png),
        (3, 8000, 24000, 1, Fmt::Gif),
    ];

    pub fn vast(which: u64, obs: &mut Obs) -> Verdict {
        let &(n, xdim, height, rot, fmt) = VAST.get(which as usize).ok_or("harness: no such picture")?;
        let c = ImgCfg { fmt, height, xdim, rot, fg: [1, 2, 3, 255], bg: [250, 251, 252, 253] };
        let what = format!("{} alternating modules", n);
        let f = |e: String| ctx(&c, &what, e);
        let (w, h) = sides(&c, n);
        let bytes = n as u64 * xdim as u64 * height as u64 * 4;
        // Copies, and what else runs here.
        let free = std::fs::read_to_string("/proc/meminfo")
            .ok()
            .and_then(|s| s.lines().find_map(|l| l.strip_prefix("MemAvailable:")?.trim().strip_suffix("kB")?.trim().parse::<u64>().ok()))
            .unwrap_or(0)
            << 10;
        if free < bytes * 3 + (6 << 30) {
            obs.count("pictures not made for want of memory", 1);
            return Ok(true);
        }
        let mods: Vec<u8> = (0..n).map(|i| (i % 2 == 0) as u8).collect();
        if fmt != Fmt::Buffer {
            let b = call("generate", || bcsut::img::bytes(&c, &mods)).map_err(f)?.map_err(|k| f(format!("{} x {} pixels: {:?} error", w, h, k)))?;
            if fmt == Fmt::Png && b.get(16..24) != Some(&[(w as u32).to_be_bytes(), (h as u32).to_be_bytes()].concat()[..]) {
                return Err(f(format!("not a picture of {} x {} pixels", w, h)));
            }
            obs.count("pictures of gigabytes", 1);
            return Ok(true);
        }
        let (bw, bh, px) = match call("generate_buffer", || bcsut::img::buffer(&c, &mods)).map_err(f)? {
            Ok(b) => b,
            Err(k) => return Err(f(format!("buffer of {} x {}, with {} MiB of memory free: {:?} error", w, h, free >> 20, k))),
        };
        if (bw as u64, bh as u64) != (w, h) || px.len() as u64 != bytes {
            return Err(f(format!("a buffer of {} x {} ({} bytes), expected {} x {}", bw, bh, px.len(), w, h)));
        }
        let at = |x: u64, y: u64| -> u64 {
            // The column of the upright picture.
            let (pw, ph) = (n as u64 * xdim as u64, height as u64);
            debug_assert!(pw * ph == w * h);
            match rot {
                0 => x,
                1 => y,
                2 => pw - 1 - x,
                _ => pw - 1 - y,
            }
        };
        let mut i = 0u64;
        let last = w * h - 1;
        while i <= last {
            let (x, y) = (i % w, i / w);
            let exp = if mods[(at(x, y) / xdim as u64) as usize] == 1 { c.fg } else { c.bg };
            let got = &px[i as usize * 4..i as usize * 4 + 4];
            if got != exp {
                return Err(f(format!("pixel ({}, {}) is {:?}, requested {:?}", x, y, got, exp)));
            }
            i = if i == last { i + 1 } else { (i + 61).min(last) };
        }
        obs.count("pixels of such buffers compared", last / 61 + 1);
        obs.count("pictures of gigabytes", 1);
        Ok(true)
    }

    pub fn size(c: &ImgCfg, n: usize, obs: &mut Obs) -> Verdict {
        let what = format!("{} alternating modules", n);
        let f = |e: String| ctx(c, &what, e);
        let mods: Vec<u8> = (0..n).map(|i| (i % 2 == 0) as u8).collect();
        let bytes = n as u128 * c.xdim as u128 * c.height as u128 * 4;
        let overflow = n as u128 * c.xdim as u128 > u32::MAX as u128;
        let (w, h) = sides(c, n);
        obs.dim("size classes", {
            let k = |v: u64| [0u64, 1, 16383, 16384, 65534, 65535, u32::MAX as u64].iter().filter(|&&b| v > b).count() as u64;
            (c.fmt as u64) << 16 | k(w) << 8 | k(h)
        });
        obs.dim("format x rotation", (c.fmt as u64) << 8 | c.rot as u64);
        if !overflow && bytes > manageable(c, obs) && bytes < IMPOSSIBLE {
            return Ok(false);
        }
        // No pixels, but very many rows or modules to go through: slow, which is not what is judged.
        if bytes == 0 && n.max(1) as u128 * c.xdim.max(1) as u128 * c.height.max(1) as u128 > if obs.fuzz { 1 << 20 } else { 1 << 26 } {
            return Ok(false);
        }
        // The bytes of any kind but the buffer's.
        let gen = call("generate", || bcsut::img::bytes(c, &mods)).map_err(f)?;
        let expect_err = c.fmt == Fmt::Buffer
            || overflow
            || bytes >= IMPOSSIBLE
            || w > limit(c.fmt)
            || h > limit(c.fmt)
            || ((w == 0 || h == 0) && matches!(c.fmt, Fmt::Png | Fmt::Webp));
        let unspecified = c.fmt == Fmt::Gif && (w == 0 || h == 0) && w <= 65535 && h <= 65535;
        match (&gen, expect_err) {
            (Err(Kind::Generate), true) => obs.count("generate errors", 1),
            (Ok(_), true) => return Err(f(format!("{} x {} pixels: bytes instead of the generate error", w, h))),
            (Ok(b), false) if !unspecified => {
                let r = decode(c.fmt, b).map_err(f)?;
                if (r.w as u64, r.h as u64) != (w, h) {
                    return Err(f(format!("picture of {} x {}, expected {} x {}", r.w, r.h, w, h)));
                }
                obs.count("pictures", 1);
            }
            (Err(k), _) if !unspecified => return Err(f(format!("{} x {} pixels: {:?} error", w, h, k))),
            (Err(k), _) if *k != Kind::Generate => return Err(f(format!("{} x {} pixels: {:?} error", w, h, k))),
            _ => obs.count("empty GIFs", 1),
        }
        // Every kind can make a buffer.
        match call("generate_buffer", || bcsut::img::buffer(c, &mods)).map_err(f)? {
            Ok((bw, bh, px)) => {
                if overflow || bytes >= IMPOSSIBLE {
                    return Err(f(format!("a buffer of {} x {}", bw, bh)));
                }
                if (bw as u64, bh as u64) != (w, h) || px.len() as u128 != bytes {
                    return Err(f(format!("a buffer of {} x {} ({} bytes), expected {} x {}", bw, bh, px.len(), w, h)));
                }
                obs.count("buffers", 1);
            }
            Err(Kind::Generate) if overflow || bytes >= IMPOSSIBLE => obs.count("generate errors", 1),
            Err(k) => return Err(f(format!("buffer of {} x {}: {:?} error", w, h, k))),
        }
        Ok(true)
    }
}

#[cfg(not(feature = "image"))]
pub mod img {
    use super::*;
    pub fn picture(_: &bcsut::ImgCfg, _: &[u8], _: &mut Obs) -> Verdict {
        Ok(false)
    }
    pub fn size(_: &bcsut::ImgCfg, _: usize, _: &mut Obs) -> Verdict {
        Ok(false)
    }
    pub fn vast(_: u64, _: &mut Obs) -> Verdict {
        Ok(false)
    }
}

// ------------------------------------------------------------------ end to end

/// Run lengths in units of xdim become modules.
fn unscale(px: &[bool], xdim: usize) -> Result<Vec<u8>, String> {
    if px.len() % xdim != 0 {
        return Err(format!("{} samples are not a multiple of the X dimension {}", px.len(), xdim));
    }
    let mut m = vec![];
    for (i, c) in px.chunks(xdim).enumerate() {
        if c.iter().any(|&b| b != c[0]) {
            return Err(format!("module {} is not of one colour", i));
        }
        m.push(c[0] as u8);
    }
    Ok(m)
}

/// Reads the modules back from what a generator made of them.
fn scan(out: &Out, mods: &[u8]) -> Result<Option<Vec<u8>>, String> {
    match out {
        Out::Ascii { height, xdim } => {
            let s = match call("generate", || bcsut::ascii(*height, *xdim, mods))? {
                Ok(s) => s,
                Err(k) => return Err(format!("{:?} error", k)),
            };
            let lines: Vec<&str> = s.split('\n').collect();
            if lines.len() != *height || lines.iter().any(|l| l != &lines[0]) {
                return Err("lines differ".into());
            }
            if lines[0].bytes().any(|b| b != b'#' && b != b' ') {
                return Err("characters other than # and space".into());
            }
            unscale(&lines[0].bytes().map(|b| b == b'#').collect::<Vec<_>>(), *xdim).map(Some)
        }
        Out::Json { height, xdim } => {
            let s = match call("generate", || bcsut::json(*height, *xdim, mods))? {
                Ok(s) => s,
                Err(k) => return Err(format!("{:?} error", k)),
            };
            json_read(&s).map(|r| Some(r.2))
        }
        Out::Svg(c) => {
            let s = match call("generate", || bcsut::svg(c, mods))? {
                Ok(s) => s,
                Err(k) => return Err(format!("{:?} error", k)),
            };
            let p = svg_read(&s)?;
            let x = c.xdim as u128;
            if p.width % x != 0 {
                return Err("width is not a multiple of the X dimension".into());
            }
            let mut m = vec![0u8; (p.width / x) as usize];
            for (s, e) in intervals(&p.bars)? {
                if s % x != 0 || e % x != 0 || e > p.width {
                    return Err(format!("bar from {} to {}", s, e));
                }
                m[(s / x) as usize..(e / x) as usize].fill(1);
            }
            Ok(Some(m))
        }
        Out::Img(_c) => {
            #[cfg(feature = "image")]
            {
                let c = _c;
                let (w, h) = img::sides(c, mods.len());
                if w > img::limit(c.fmt) || h > img::limit(c.fmt) || w * h > 1 << 24 {
                    return Ok(None);
                }
                let r = match img::generate(c, mods)? {
                    Ok(r) => r,
                    Err(k) => return Err(format!("{:?} error", k)),
                };
                // Upright the picture, then look along three lines across the bars.
                let (along, across) = if c.rot % 2 == 1 { (r.h, r.w) } else { (r.w, r.h) };
                if across == 0 {
                    return Err("empty picture".into());
                }
                let at = |i: u32, line: u32| -> [u8; 4] {
                    let (x, y) = match c.rot {
                        0 => (i, line),
                        1 => (across - 1 - line, i),
                        2 => (along - 1 - i, across - 1 - line),
                        _ => (line, along - 1 - i),
                    };
                    let o = (y as usize * r.w as usize + x as usize) * 4;
                    r.px[o..o + 4].try_into().unwrap()
                };
                let mut first: Option<Vec<u8>> = None;
                for line in [0, across / 2, across - 1] {
                    let dark = (0..along)
                        .map(|i| {
                            let p = at(i, line);
                            let is = |want: Rgba| match img::shown(c.fmt, want) {
                                Some(s) => p == s,
                                None => p[3] == 0,
                            };
                            match (is(c.fg), is(c.bg)) {
                                (true, false) => Ok(true),
                                (false, true) => Ok(false),
                                _ => Err(format!("sample {} of line {} is {:?}", i, line, p)),
                            }
                        })
                        .collect::<Result<Vec<bool>, String>>()?;
                    let m = unscale(&dark, c.xdim as usize)?;
                    match &first {
                        Some(f) if *f != m => return Err("scan lines differ".into()),
                        _ => first = Some(m),
                    }
                }
                return Ok(first);
            }
            #[cfg(not(feature = "image"))]
            Ok(None)
        }
    }
}

fn distinguishable(out: &Out) -> bool {
    match out {
        Out::Ascii { height, xdim } => *height >= 1 && *xdim >= 1 && *height <= 1000 && *xdim <= 1000,
        Out::Json { .. } => true,
        Out::Svg(c) => c.height >= 1 && c.xdim >= 1,
        Out::Img(c) => {
            let see = |x: Rgba| match (c.fmt, x[3]) {
                (bcsut::Fmt::Gif, 0) => [0, 0, 0, 0],
                (bcsut::Fmt::Gif, _) => [x[0], x[1], x[2], 255],
                _ => x,
            };
            c.height >= 1 && c.xdim >= 1 && see(c.fg) != see(c.bg)
        }
    }
}

fn e2e(sym: Sym, data: &str, out: &Out, obs: &mut Obs) -> Verdict {
    if spec::admit(sym, data) != Admit::Accept || !distinguishable(out) {
        return Ok(false);
    }
    let ctx = |e: String| format!("{:?} {} through {}: {}", sym, short(data), out.to_j().write(), e);
    let o = match construct(sym, data).map_err(ctx)? {
        Ok(o) => o,
        Err(_) => return Ok(false),
    };
    let mods = encode(&o).map_err(ctx)?;
    let Some(seen) = scan(out, &mods).map_err(ctx)? else {
        return Ok(false);
    };
    if seen != mods {
        return Err(ctx(format!("scanned modules differ from the encoded ones: {}", diff(&mods, &seen))));
    }
    if let Some(s) = (sym == Sym::Codabar).then(|| codabar_known(data, &seen, &obs.known)).flatten() {
        note_findings(obs, s);
    } else {
        match spec::decode(sym, &seen) {
            Ok(s) if s == spec::canonical(sym, data) => {}
            r => return Err(ctx(format!("a reader sees {:?}", r.map(|s| short(&s))))),
        }
    }
    if !obs.quiet && !obs.fuzz {
        obs.dim("symbology x output", hash(&[&[sym as u8], out.name().as_bytes()]));
    }
    cover_symbol(sym, data, obs);
    cover_gen(out, &mods, obs);
    obs.count("scans", 1);
    Ok(true)
}

// ------------------------------------------------------------------ shorthands

const BLACK: Rgba = [0, 0, 0, 255];
const WHITE: Rgba = [255, 255, 255, 255];

fn shorthand(which: u8, height: u32, mods: &[u8], obs: &mut Obs) -> Verdict {
    use bcsut::barcoders::generators as g;
    let ctx = |e: String| format!("shorthand {} height {} of {}: {}", which, height, show_mods(mods), e);
    let same = |a: Result<String, Kind>, b: Result<String, Kind>| {
        if a != b {
            Err(ctx(format!("{} / spelled out {}", short(&format!("{:?}", a)), short(&format!("{:?}", b)))))
        } else {
            Ok(true)
        }
    };
    obs.dim("shorthands", which as u64);
    obs.dim("heights", height as u64);
    obs.dim("module counts", mods.len() as u64);
    let k = bcsut::kind;
    match which {
        0 | 1 => {
            let a = call("ASCII::new", || if which == 0 { g::ascii::ASCII::new() } else { g::ascii::ASCII::default() }).map_err(ctx)?;
            let a = call("generate", || a.generate(mods).map_err(k)).map_err(ctx)?;
            same(a, Ok(ascii_expected(10, 1, mods)))?;
            let a = g::ascii::ASCII { height: height as usize % 9, xdim: 1 + height as usize % 4 };
            let b = call("clone", || Clone::clone(&a)).map_err(ctx)?;
            same(call("generate", || b.generate(mods).map_err(k)).map_err(ctx)?, Ok(ascii_expected(a.height, a.xdim, mods)))
        }
        2 | 3 => {
            let a = call("JSON::new", || if which == 2 { g::json::JSON::new() } else { g::json::JSON::default() }).map_err(ctx)?;
            let a = call("generate", || a.generate(mods).map_err(k)).map_err(ctx)?;
            same(a, call("generate", || bcsut::json(10, 1, mods)).map_err(ctx)?)?;
            let a = g::json::JSON { height: height as usize, xdim: !height as usize };
            let b = call("clone", || Clone::clone(&a)).map_err(ctx)?;
            same(call("generate", || b.generate(mods).map_err(k)).map_err(ctx)?, call("generate", || bcsut::json(a.height, a.xdim, mods)).map_err(ctx)?)
        }
        4 => {
            let s = call("SVG::new", || g::svg::SVG::new(height)).map_err(ctx)?;
            let a = call("generate", || s.generate(mods).map_err(k)).map_err(ctx)?;
            let c = SvgCfg { height, xdim: 1, fg: BLACK, bg: WHITE, xmlns: None };
            if let Ok(t) = &a {
                svg_right(&c, mods, t).map_err(ctx)?;
            }
            same(a, call("generate", || bcsut::svg(&c, mods)).map_err(ctx)?)
        }
        5 => {
            // Colour constructors.
            let mut s = g::svg::SVG::new(height);
            s.foreground = g::svg::Color::black();
            s.background = g::svg::Color::white();
            let a = call("generate", || s.generate(mods).map_err(k)).map_err(ctx)?;
            let c = SvgCfg { height, xdim: 1, fg: BLACK, bg: WHITE, xmlns: None };
            same(a, call("generate", || bcsut::svg(&c, mods)).map_err(ctx)?)?;
            let n = [mods.len() as u8, height as u8, which, 7];
            let (b, w) = (g::svg::Color::black().rgba, g::svg::Color::white().rgba);
            if b != BLACK || w != WHITE || g::svg::Color::new(n).rgba != n {
                return Err(ctx(format!("colour constructors give {:?} {:?} {:?}", b, w, g::svg::Color::new(n).rgba)));
            }
            Ok(true)
        }
        #[cfg(feature = "image")]
        6..=13 => {
            use bcsut::barcoders::generators::image::{Color, Image, Rotation};
            use bcsut::{Fmt, ImgCfg};
            let fmt = Fmt::ALL[(which - 6) as usize % 4];
            if mods.len() as u64 * height as u64 > 1 << 22 {
                return Ok(false);
            }
            let cfg = ImgCfg { fmt, height, xdim: 1, rot: 0, fg: BLACK, bg: WHITE };
            let a = if which < 10 {
                call("shorthand", || bcsut::img::shorthand(fmt, height)).map_err(ctx)?
            } else {
                let (xdim, rotation, foreground, background) = (1, Rotation::Zero, Color::black(), Color::white());
                match fmt {
                    Fmt::Gif => Image::GIF { height, xdim, rotation, foreground, background },
                    Fmt::Png => Image::PNG { height, xdim, rotation, foreground, background },
                    Fmt::Webp => Image::WEBP { height, xdim, rotation, foreground, background },
                    Fmt::Buffer => Image::ImageBuffer { height, xdim, rotation, foreground, background },
                }
            };
            let x = call("generate", || bcsut::img::bytes_of(&a, mods)).map_err(ctx)?;
            let y = call("generate", || bcsut::img::bytes(&cfg, mods)).map_err(ctx)?;
            if x != y {
                return Err(ctx(format!("{:?}: bytes differ from the spelled-out settings'", fmt)));
            }
            let p = call("generate_buffer", || bcsut::img::buffer_of(&a, mods)).map_err(ctx)?;
            let q = call("generate_buffer", || bcsut::img::buffer(&cfg, mods)).map_err(ctx)?;
            if p != q {
                return Err(ctx(format!("{:?}: pixels differ from the spelled-out settings'", fmt)));
            }
            // A clone of other settings, and of its parts.
            let n = mods.len() as u8;
            let other = ImgCfg { fmt, height: 1 + height % 5, xdim: 1 + height % 3, rot: which.wrapping_add(n) % 4, fg: [n, 2, height as u8, 254], bg: [200, n, 7, height as u8] };
            let a = bcsut::img::value(&other);
            let b = call("clone", || Clone::clone(&a)).map_err(ctx)?;
            let of = |v: &Image| -> Result<_, String> {
                Ok((
                    call("generate", || bcsut::img::bytes_of(v, mods)).map_err(ctx)?,
                    call("generate_buffer", || bcsut::img::buffer_of(v, mods)).map_err(ctx)?,
                ))
            };
            let (r, t) = (of(&a)?, of(&b)?);
            let z = Rotation::Ninety;
            if r != t || !matches!(Clone::clone(&z), Rotation::Ninety) {
                return Err(ctx(format!("{:?}: a clone of {:?} differs", fmt, other)));
            }
            // Black on white, upright, one pixel per module.
            if let Ok((w, h, px)) = p {
                img::right(&ImgCfg { fmt: Fmt::Buffer, ..cfg }, mods, &img::Raster { w, h, px }).map_err(ctx)?;
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}

fn build(height: u32, ops: &[SvgOp], mods: &[u8], obs: &mut Obs) -> Verdict {
    use bcsut::barcoders::generators::svg::{Color, SVG};
    let ctx = |e: String| format!("SVG::new({}) then {:?} on {}: {}", height, ops, show_mods(mods), e);
    let mut c = SvgCfg { height, xdim: 1, fg: BLACK, bg: WHITE, xmlns: None };
    let b = call("builder", || {
        let mut s = SVG::new(height);
        for o in ops {
            s = match o {
                SvgOp::Xdim(x) => s.xdim(*x),
                SvgOp::Fg(c) => s.foreground(Color::new(*c)),
                SvgOp::Bg(c) => s.background(Color::new(*c)),
                SvgOp::Xmlns(n) => s.xmlns(n.clone()),
            };
        }
        s
    })
    .map_err(ctx)?;
    for o in ops {
        match o {
            SvgOp::Xdim(x) => c.xdim = *x,
            SvgOp::Fg(f) => c.fg = *f,
            SvgOp::Bg(f) => c.bg = *f,
            SvgOp::Xmlns(n) => c.xmlns = Some(n.clone()),
        }
    }
    let fields = SvgCfg { height: b.height, xdim: b.xdim, fg: Clone::clone(&b.foreground).rgba, bg: Clone::clone(&b.background).rgba, xmlns: b.xmlns.clone() };
    if fields != c {
        return Err(ctx(format!("fields {:?}, expected {:?}", fields, c)));
    }
    // Clones made before and after the value is used, and a clone of a clone.
    let d = call("clone", || Clone::clone(&b)).map_err(ctx)?;
    let x = call("generate", || b.generate(mods).map_err(bcsut::kind)).map_err(ctx)?;
    let e = call("clone", || Clone::clone(&d)).map_err(ctx)?;
    let mut g = SVG::new(height ^ 1).xdim(9).xmlns("other".into());
    call("clone_from", || g.clone_from(&b)).map_err(ctx)?;
    let y = call("generate", || bcsut::svg(&c, mods)).map_err(ctx)?;
    if x != y {
        return Err(ctx(format!("{:?} / spelled out {:?}", x.map(|s| short(&s)), y.map(|s| short(&s)))));
    }
    for (what, v) in [("a clone", &d), ("a clone of a clone", &e), ("a value assigned from it", &g)] {
        let z = call("generate", || v.generate(mods).map_err(bcsut::kind)).map_err(ctx)?;
        if z != y {
            return Err(ctx(format!("{}: {:?} / {:?}", what, z.map(|s| short(&s)), y.map(|s| short(&s)))));
        }
    }
    if let Ok(s) = &y {
        if c.xmlns.as_ref().map_or(true, |x| x.chars().all(printable)) {
            svg_right(&c, mods, s).map_err(ctx)?;
        }
    }
    if !obs.quiet && !obs.fuzz {
        let order: Vec<u8> = ops
            .iter()
            .map(|o| match o {
                SvgOp::Xdim(_) => 0,
                SvgOp::Fg(_) => 1,
                SvgOp::Bg(_) => 2,
                SvgOp::Xmlns(_) => 3,
            })
            .collect();
        obs.dim("builder call orders", hash(&[&order]));
    }
    Ok(true)
}
