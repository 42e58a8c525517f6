//! Errors and values as they show themselves: equality, Display, Debug, and `std::error::Error`.

use crate::case::{Case, Out};
use crate::check::{call, short, Obs, Verdict};
use bcsut::barcoders::error::Error;
use bcsut::{Fmt, ImgCfg, SvgCfg, Sym, Text};
use std::error::Error as StdError;
use std::fmt::{self, Debug, Display, Write};

const KINDS: [Error; 4] = [Error::Character, Error::Length, Error::Generate, Error::Checksum];

/// A sink that fails when it has this much.
struct Narrow {
    room: usize,
    got: String,
}

impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.room {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// Writes the value into sinks of several sizes.
fn narrow(what: &str, full: &str, put: &dyn Fn(&mut Narrow) -> fmt::Result) -> Result<(), String> {
    let n = full.len();
    for room in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
        let mut w = Narrow { room, got: String::new() };
        let r = call(what, || put(&mut w))?;
        if r.is_ok() != (room >= n) {
            return Err(format!("{}, {} bytes long, into a sink for {}: {:?}", what, n, room, r));
        }
        if !full.starts_with(&w.got) || (r.is_ok() && w.got != full) {
            return Err(format!("{} into a sink for {} bytes left {}, not the beginning of {}", what, room, short(&w.got), short(full)));
        }
    }
    Ok(())
}

fn same(e: &Error, k: &Error) -> bool {
    matches!(
        (e, k),
        (Error::Character, Error::Character) | (Error::Length, Error::Length) | (Error::Generate, Error::Generate) | (Error::Checksum, Error::Checksum)
    )
}

type Boxed = Box<dyn StdError + Send + Sync>;

/// The error in a box, if it is a `std::error::Error`; chosen by autoref, so that a type which is none
/// does not keep the monitors from being built.
struct Wrap<T>(T);

trait IsStd {
    fn boxed(&self) -> Option<Boxed>;
}

impl<T: StdError + Send + Sync + Clone + 'static> IsStd for Wrap<T> {
    fn boxed(&self) -> Option<Boxed> {
        Some(question(self.0.clone()).unwrap_err())
    }
}

trait IsNot {
    fn boxed(&self) -> Option<Boxed>;
}

impl<T> IsNot for &Wrap<T> {
    fn boxed(&self) -> Option<Boxed> {
        None
    }
}

/// By `?`, as in a program.
fn question<T: StdError + Send + Sync + 'static>(e: T) -> Result<(), Boxed> {
    Err(e)?;
    Ok(())
}

fn error(e: Error, obs: &mut Obs) -> Result<(), String> {
    let text = call("to_string", || e.to_string())?;
    let debug = call("Debug", || format!("{:?}", e))?;
    if text.trim().is_empty() || text.chars().any(|c| c.is_control()) {
        return Err(format!("the message of {} is {:?}", debug, text));
    }
    let copy = e;
    #[allow(clippy::clone_on_copy)]
    let clone = call("clone", || e.clone())?;
    let mut from = Error::Character;
    from.clone_from(&e);
    for (how, x) in [("itself", &e), ("a copy", &copy), ("a clone", &clone), ("a value assigned from it", &from)] {
        if !same(x, &e) {
            return Err(format!("{} of {} is {:?}", how, debug, x));
        }
        for k in &KINDS {
            let is = same(x, k);
            if (x == k) != is || (k == x) != is || (x != k) == is || (k != x) == is {
                return Err(format!("{} of {} and Error::{:?}: == gives {} and {}, != gives {} and {}", how, debug, k, x == k, k == x, x != k, k != x));
            }
            let (kt, kd) = (k.to_string(), format!("{:?}", k));
            if (kt == text) != is {
                return Err(format!("the message of {} is {:?}, that of Error::{:?} is {:?}", debug, text, k, kt));
            }
            if (kd == debug) != is {
                return Err(format!("the Debug form of an error is {:?}, that of Error::{:?} is {:?}", debug, k, kd));
            }
        }
    }
    let d: &dyn Display = &e;
    #[allow(clippy::needless_borrow)]
    let into = || (&Wrap(e)).boxed().ok_or_else(|| "barcoders' Error cannot be made a Box<dyn Error + Send + Sync>".to_string());
    let asked = into()?;
    let boxed: Box<dyn StdError> = into()?;
    let shared: std::sync::Arc<dyn StdError + Send + Sync> = into()?.into();
    let io = std::io::Error::new(std::io::ErrorKind::Other, into()?);
    let forms = [
        ("format!(\"{}\")", format!("{}", e)),
        ("format!(\"{}\") of a reference", format!("{}", &&e)),
        ("dyn Display", d.to_string()),
        ("Box<dyn Error>", boxed.to_string()),
        ("Arc<dyn Error>", shared.to_string()),
        ("the error after ?", asked.to_string()),
        ("std::io::Error", io.to_string()),
        ("format!(\"{}\") again", format!("{}", e)),
    ];
    for (how, t) in &forms {
        if *t != text {
            return Err(format!("{} of {} is {:?}, to_string {:?}", how, debug, t, text));
        }
    }
    let around = call("Display", || format!("[{0}|{0}]{1}", e, 1))?;
    if around != format!("[{0}|{0}]1", text) {
        return Err(format!("{} within other text is {:?}", debug, around));
    }
    // Width and precision may be honoured or not, but do not lose the message.
    for t in [format!("{:60}", e), format!("{:>60}", e), format!("{:^60}", e), format!("{:.200}", e), format!("{:#}", e)] {
        if t.trim() != text.trim() {
            return Err(format!("{} with a width or flags is {:?}", debug, t));
        }
    }
    if format!("{:#?}", e).trim().is_empty() || format!("{:?}", Some(e)) != format!("Some({})", debug) {
        return Err(format!("Debug forms of {}: {:#?}, {:?}", debug, e, Some(e)));
    }
    let mut at: Option<&(dyn StdError + 'static)> = Some(&*asked);
    let mut n = 0;
    while let Some(x) = at {
        n += 1;
        if n > 1 {
            return Err(format!("{} has a source: {}", debug, x));
        }
        at = x.source();
    }
    match (boxed.downcast_ref::<Error>(), asked.downcast_ref::<Error>(), io.get_ref().and_then(|x| x.downcast_ref::<Error>())) {
        (Some(a), Some(b), Some(c)) if same(a, &e) && same(b, &e) && same(c, &e) => {}
        _ => return Err(format!("{} does not come back out of a box", debug)),
    }
    narrow("Display of an error", &text, &|w| write!(w, "{}", e))?;
    narrow("Debug of an error", &debug, &|w| write!(w, "{:?}", e))?;
    obs.count("errors looked at", 1);
    obs.dim("error kinds", KINDS.iter().position(|k| same(k, &e)).unwrap_or(9) as u64);
    Ok(())
}

/// Debug forms of two values of the same contents.
fn values(what: &str, a: &dyn Debug, b: &dyn Debug, pretty: bool, obs: &mut Obs) -> Result<String, String> {
    let s = call("Debug", || format!("{:?}", a))?;
    let t = call("Debug", || format!("{:?}", b))?;
    if s.is_empty() || s != t {
        return Err(format!("{}: values of the same contents show as {} and {}", what, short(&s), short(&t)));
    }
    if pretty {
        let (x, y) = (call("Debug", || format!("{:#?}", a))?, call("Debug", || format!("{:#?}", b))?);
        if x.is_empty() || x != y {
            return Err(format!("{}: values of the same contents show as {} and {}", what, short(&x), short(&y)));
        }
        narrow("Debug of a value", &s, &|w| write!(w, "{:?}", a))?;
    }
    obs.count("values shown", 2);
    Ok(s)
}

fn symbol(sym: Sym, data: &str, obs: &mut Obs) -> Result<bool, String> {
    if data.len() > 3000 {
        return Ok(false);
    }
    let make = |d: &str| call("the constructor", || bcsut::try_construct(sym, d));
    let what = || format!("{:?} {}", sym, short(data));
    match (make(data)?, make(&data.to_string())?) {
        (Ok(a), Ok(b)) => {
            values(&what(), &a, &b, data.len() < 200, obs)?;
        }
        (Err(a), Err(b)) => {
            if !same(&a, &b) {
                return Err(format!("{}: fails with {:?} and {:?}", what(), a, b));
            }
            error(a, obs).map_err(|e| format!("{}: {}", what(), e))?;
        }
        _ => return Err(format!("{}: once a value, once an error", what())),
    }
    Ok(true)
}

enum Shown {
    Text(Text),
    #[cfg(feature = "image")]
    Image(bcsut::barcoders::generators::image::Image),
}

impl Shown {
    fn new(out: &Out) -> Option<Shown> {
        Some(match out {
            Out::Ascii { height, xdim } => Shown::Text(Text::ascii(*height, *xdim)),
            Out::Json { height, xdim } => Shown::Text(Text::json(*height, *xdim)),
            Out::Svg(c) => Shown::Text(Text::Svg(bcsut::svg_value(c))),
            #[cfg(feature = "image")]
            Out::Img(c) => Shown::Image(bcsut::img::value(c)),
            #[cfg(not(feature = "image"))]
            Out::Img(_) => return None,
        })
    }
    fn again(&self) -> Shown {
        match self {
            Shown::Text(Text::Ascii(a)) => Shown::Text(Text::Ascii(*a)),
            Shown::Text(Text::Json(a)) => Shown::Text(Text::Json(*a)),
            Shown::Text(Text::Svg(a)) => Shown::Text(Text::Svg(a.clone())),
            #[cfg(feature = "image")]
            Shown::Image(a) => Shown::Image(*a),
        }
    }
    fn debug(&self) -> &dyn Debug {
        match self {
            Shown::Text(Text::Ascii(a)) => a,
            Shown::Text(Text::Json(a)) => a,
            Shown::Text(Text::Svg(a)) => a,
            #[cfg(feature = "image")]
            Shown::Image(a) => a,
        }
    }
}

/// Settings that differ in one field.
fn neighbours(out: &Out) -> Vec<Out> {
    let mut r = vec![];
    match out {
        Out::Ascii { height, xdim } => {
            r.push(Out::Ascii { height: height ^ 1, xdim: *xdim });
            r.push(Out::Ascii { height: *height, xdim: xdim ^ 1 });
            r.push(Out::Ascii { height: *xdim, xdim: *height });
        }
        Out::Json { height, xdim } => {
            r.push(Out::Json { height: height ^ 1, xdim: *xdim });
            r.push(Out::Json { height: *height, xdim: xdim ^ 1 });
            r.push(Out::Json { height: *xdim, xdim: *height });
        }
        Out::Svg(c) => {
            let mut to = |f: &dyn Fn(&mut SvgCfg)| {
                let mut c = c.clone();
                f(&mut c);
                r.push(Out::Svg(c));
            };
            to(&|c| c.height ^= 1);
            to(&|c| c.xdim ^= 1);
            to(&|c| std::mem::swap(&mut c.height, &mut c.xdim));
            to(&|c| std::mem::swap(&mut c.fg, &mut c.bg));
            for i in 0..4 {
                to(&|c| c.fg[i] ^= 1);
                to(&|c| c.bg[i] ^= 1);
            }
            to(&|c| c.xmlns = if c.xmlns.is_some() { None } else { Some(String::new()) });
            to(&|c| c.xmlns = Some(c.xmlns.clone().unwrap_or_default() + "/"));
        }
        Out::Img(c) => {
            let mut to = |f: &dyn Fn(&mut ImgCfg)| {
                let mut c = *c;
                f(&mut c);
                r.push(Out::Img(c));
            };
            to(&|c| c.height ^= 1);
            to(&|c| c.xdim ^= 1);
            to(&|c| std::mem::swap(&mut c.height, &mut c.xdim));
            to(&|c| std::mem::swap(&mut c.fg, &mut c.bg));
            for i in 0..4 {
                to(&|c| c.fg[i] ^= 1);
                to(&|c| c.bg[i] ^= 1);
            }
            to(&|c| c.rot = (c.rot + 1) % 4);
            to(&|c| c.rot = (c.rot + 2) % 4);
            for f in Fmt::ALL {
                to(&|c| c.fmt = f);
            }
        }
    }
    r
}

fn generator(out: &Out, obs: &mut Obs) -> Result<bool, String> {
    let a = match Shown::new(out) {
        Some(a) => a,
        None => return Ok(false),
    };
    let what = || out.to_j().write();
    let b = Shown::new(out).unwrap();
    let s = values(&what(), a.debug(), b.debug(), true, obs)?;
    values(&what(), a.debug(), a.again().debug(), false, obs)?;
    for o in neighbours(out) {
        let n = Shown::new(&o).unwrap();
        let t = call("Debug", || format!("{:?}", n.debug()))?;
        if (s == t) != (*out == o) {
            return Err(format!("generators with {} and with {} show as {} and {}", what(), o.to_j().write(), short(&s), short(&t)));
        }
    }
    obs.count("settings told apart", 1);
    Ok(true)
}

#[cfg(feature = "image")]
fn size(c: &ImgCfg, n: usize, obs: &mut Obs) -> Result<bool, String> {
    let wide = n as u128 * c.xdim as u128 > u32::MAX as u128;
    let all = n.max(1) as u128 * c.xdim.max(1) as u128 * c.height.max(1) as u128;
    if n > 100_000 || (!wide && all > 1 << 20) {
        return Ok(false);
    }
    let mods: Vec<u8> = (0..n).map(|i| (i % 2 == 0) as u8).collect();
    let i = bcsut::img::value(c);
    for buffer in [false, true] {
        if let Err(e) = call("generate", || bcsut::img::try_image(&i, &mods, buffer))? {
            error(e, obs).map_err(|e| format!("{} of {} modules: {}", Out::Img(*c).to_j().write(), n, e))?;
        }
    }
    generator(&Out::Img(*c), obs)
}

#[cfg(not(feature = "image"))]
fn size(_: &ImgCfg, _: usize, _: &mut Obs) -> Result<bool, String> {
    Ok(false)
}

pub fn check(case: &Case, obs: &mut Obs) -> Verdict {
    match case {
        Case::Sym { sym, data } | Case::Types { sym, data } | Case::Alias { sym, data } => symbol(*sym, data, obs),
        Case::Gate { sym, payload } => {
            for k in 0..10 {
                symbol(*sym, &format!("{}{}", payload, k), obs)?;
            }
            symbol(*sym, payload, obs)
        }
        Case::Gen { out, .. } => generator(out, obs),
        Case::GenTypes { out, then, .. } => {
            generator(out, obs)?;
            generator(then, obs)
        }
        Case::Direct { variant, digits, next } => {
            let nums = |s: &str| -> Vec<u8> { s.bytes().map(|b| b.wrapping_sub(b'0')).collect() };
            let make = |s: &str| bcsut::direct(*variant, nums(s));
            let name = || format!("variant {} of {}", variant, short(digits));
            let a = values(&name(), &make(digits), &make(digits), true, obs)?;
            let b = values(&name(), &make(next), &make(next), false, obs)?;
            if (a == b) != (digits == next) {
                return Err(format!("{} and of {} show as {} and {}", name(), short(next), short(&a), short(&b)));
            }
            Ok(true)
        }
        Case::ImgSize { cfg, n } => size(cfg, *n, obs),
        _ => Ok(false),
    }
}
