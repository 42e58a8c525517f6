//! What users build and change without a constructor: public variants, fields and tables, and
//! arguments of other types.

use crate::case::{mods_str, Out};
use crate::check::{call, construct, diff, encode, short, Obs, Verdict};
use crate::rng::hash;
use crate::spec::{self, Admit};
use bcsut::{Kind, Obj, Sym, Text};

const VARIANTS: [Sym; 4] = [Sym::Stf, Sym::Itf, Sym::Supp, Sym::Supp];
const NAMES: [&str; 4] = ["TF::Standard", "TF::Interleaved", "EANSUPP::EAN2", "EANSUPP::EAN5"];

fn nums(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b.wrapping_sub(b'0')).collect()
}

/// Whether the digits are some the variant is for.
fn fits(variant: u8, d: &str) -> bool {
    let n = d.len();
    spec::admit(VARIANTS[variant as usize], d) == Admit::Accept
        && match variant {
            1 => n % 2 == 0,
            2 => n == 2,
            3 => n == 5,
            _ => true,
        }
}

pub fn direct(variant: u8, digits: &str, next: &str, obs: &mut Obs) -> Verdict {
    if variant > 3 || !fits(variant, digits) {
        return Ok(false);
    }
    let sym = VARIANTS[variant as usize];
    let name = NAMES[variant as usize];
    let made = |d: &str| -> Result<Result<(Obj, Vec<u8>), Kind>, String> {
        Ok(match construct(sym, d)? {
            Ok(o) => {
                let m = encode(&o)?;
                Ok((o, m))
            }
            Err(k) => Err(k),
        })
    };
    let (mut o, exp) = match made(digits)? {
        Ok(x) => x,
        Err(k) => return Err(format!("{:?} rejects {}: {:?}", sym, short(digits), k)),
    };
    match o.digits_mut() {
        Some((v, d)) if v == variant && *d == nums(digits) => {}
        other => return Err(format!("{:?} of {} is not {} of these digits, but {}", sym, short(digits), name, short(&format!("{:?}", other)))),
    }
    let mut own = bcsut::direct(variant, nums(digits));
    for k in 0..2 {
        let got = encode(&own)?;
        if got != exp {
            return Err(format!("{} of {}, encoding {}: not as from the constructor: {}", name, short(digits), k, diff(&exp, &got)));
        }
    }
    obs.dim("variants x lengths", (variant as u64) << 32 | digits.len() as u64);
    if !fits(variant, next) {
        return Ok(true);
    }
    let old = exp;
    let exp = match made(next)? {
        Ok(x) => x.1,
        Err(k) => return Err(format!("{:?} rejects {}: {:?}", sym, short(next), k)),
    };
    // Changed in place and replaced.
    for (x, what) in [(&mut own, "made directly"), (&mut o, "from the constructor")] {
        // Nothing comes between the two encodings.
        let before = encode(x)?;
        match x.digits_mut() {
            Some((_, d)) if what == "made directly" || digits.len() != next.len() => *d = nums(next),
            Some((_, d)) => d.copy_from_slice(&nums(next)),
            None => {}
        }
        let got = encode(x)?;
        if before != old {
            return Err(format!("{} {} of {}, encoded again: {}", name, what, short(digits), diff(&old, &before)));
        }
        if got != exp {
            return Err(format!("{} {}, digits changed from {} to {}: {}", name, what, short(digits), short(next), diff(&exp, &got)));
        }
    }
    obs.count("values changed after use", 2);
    Ok(true)
}

pub fn texts(sym: Sym, data: &str, obs: &mut Obs) -> Verdict {
    let run = |how: usize| -> Result<Result<Vec<u8>, Kind>, String> {
        Ok(match call("constructor", || bcsut::construct_as(sym, data, how))? {
            Ok(o) => {
                if let Some(c) = o.checksum() {
                    if c != (sym == Sym::Code39Chk) {
                        return Err(format!("{:?} of {}: the checksum field is {}", sym, short(data), c));
                    }
                }
                Ok(encode(&o)?)
            }
            Err(k) => Err(k),
        })
    };
    let show = |r: &Result<Vec<u8>, Kind>| match r {
        Ok(m) => short(&mods_str(m)),
        Err(k) => format!("{:?}", k),
    };
    let first = run(0)?;
    for (how, t) in bcsut::TEXT_TYPES.iter().enumerate().skip(1) {
        let r = run(how)?;
        if r != first {
            return Err(format!("{:?} of {} as {} gives {}, as &str {}", sym, short(data), t, show(&r), show(&first)));
        }
    }
    obs.count("constructions with other types", bcsut::TEXT_TYPES.len() as u64 - 1);
    obs.dim("symbologies x outcome", (sym as u64) << 8 | first.as_ref().map_or_else(|k| *k as u64 + 1, |_| 0));
    Ok(true)
}

#[derive(PartialEq)]
enum Made {
    Text(Result<String, Kind>),
    Bytes(Result<Vec<u8>, Kind>),
    Buffer(Result<(u32, u32, Vec<u8>), Kind>),
}

fn tell(m: &Made) -> String {
    match m {
        Made::Text(r) => short(&format!("{:?}", r)),
        Made::Bytes(Ok(b)) => format!("{} bytes, hash {:x}", b.len(), hash(&[b])),
        Made::Buffer(Ok(b)) => format!("{} x {}, hash {:x}", b.0, b.1, hash(&[&b.2])),
        Made::Bytes(Err(k)) | Made::Buffer(Err(k)) => format!("{:?}", k),
    }
}

enum Maker {
    Text(Text),
    #[cfg(feature = "image")]
    Image(bcsut::barcoders::generators::image::Image, bool),
}

impl Maker {
    fn new(out: &Out) -> Option<Maker> {
        Some(match out {
            Out::Ascii { height, xdim } => Maker::Text(Text::ascii(*height, *xdim)),
            Out::Json { height, xdim } => Maker::Text(Text::json(*height, *xdim)),
            Out::Svg(c) => Maker::Text(Text::Svg(bcsut::svg_value(c))),
            #[cfg(feature = "image")]
            Out::Img(c) => Maker::Image(bcsut::img::value(c), c.fmt == bcsut::Fmt::Buffer),
            #[cfg(not(feature = "image"))]
            Out::Img(_) => return None,
        })
    }
    fn make(&self, mods: &[u8], how: usize) -> Result<Made, String> {
        call("generate", || match self {
            Maker::Text(t) => Made::Text(bcsut::text_as(t, mods, how)),
            #[cfg(feature = "image")]
            Maker::Image(i, false) => Made::Bytes(bcsut::img::bytes_as(i, mods, how)),
            #[cfg(feature = "image")]
            Maker::Image(i, true) => Made::Buffer(bcsut::img::buffer_as(i, mods, how)),
        })
    }
    /// Gives the public fields the values of `out`, which is of the same kind.
    fn set(&mut self, out: &Out) -> bool {
        match (self, out) {
            (Maker::Text(t @ Text::Ascii(_)), Out::Ascii { height, xdim }) | (Maker::Text(t @ Text::Json(_)), Out::Json { height, xdim }) => t.set(*height, *xdim),
            (Maker::Text(t @ Text::Svg(_)), Out::Svg(c)) => t.set_svg(c),
            #[cfg(feature = "image")]
            (Maker::Image(i, _), Out::Img(c)) => bcsut::img::set(i, c),
            _ => return false,
        }
        true
    }
}

pub fn generators(out: &Out, then: &Out, mods: &[u8], obs: &mut Obs) -> Verdict {
    let mut m = match Maker::new(out) {
        Some(m) => m,
        None => return Ok(false),
    };
    let ctx = |e: String| format!("{} of {} modules {}: {}", out.to_j().write(), mods.len(), short(&mods_str(mods)), e);
    let first = m.make(mods, 0).map_err(ctx)?;
    for (how, t) in bcsut::MODULE_TYPES.iter().enumerate().skip(1) {
        let r = m.make(mods, how).map_err(ctx)?;
        if r != first {
            return Err(ctx(format!("modules as {} give {}, as &[u8] {}", t, tell(&r), tell(&first))));
        }
    }
    obs.count("generations with other types", bcsut::MODULE_TYPES.len() as u64 - 1);
    obs.dim("generators x module counts", hash(&[out.name().as_bytes(), &mods.len().to_le_bytes()]));
    // The other settings on the used value; in the value's own format.
    let mut then = then.clone();
    if let (Out::Img(a), Out::Img(b)) = (out, &mut then) {
        b.fmt = a.fmt;
    }
    if m.set(&then) {
        let got = m.make(mods, 0).map_err(ctx)?;
        let exp = Maker::new(&then).unwrap().make(mods, 0).map_err(ctx)?;
        if got != exp {
            return Err(ctx(format!("then its fields set to {}: gives {}, made with these {}", then.to_j().write(), tell(&got), tell(&exp))));
        }
        // And back.
        m.set(out);
        let got = m.make(mods, 1).map_err(ctx)?;
        if got != first {
            return Err(ctx(format!("its fields set to {} and back: gives {}, before {}", then.to_j().write(), tell(&got), tell(&first))));
        }
        obs.count("generators changed after use", 2);
    }
    Ok(true)
}

pub fn tables(obs: &mut Obs) -> Verdict {
    for (name, codes, guards) in bcsut::tables() {
        let sides = if name == "ean13" { "LGR" } else { "LR" };
        if codes.len() != sides.len() || codes.iter().any(|t| t.len() != 10) {
            return Err(format!("{}::ENCODINGS has another shape", name));
        }
        for (t, side) in codes.iter().zip(sides.chars()) {
            for (d, got) in t.iter().enumerate() {
                let exp = spec::ean_code(d as u8, side);
                if exp != got {
                    return Err(format!("{}::ENCODINGS, {} side, digit {}: {}", name, side, d, diff(&exp, got)));
                }
                obs.count("table entries", 1);
            }
        }
        for (got, exp) in guards.iter().zip([&[1u8, 0, 1][..], &[0, 1, 0, 1, 0], &[1, 0, 1]]) {
            if got != exp {
                return Err(format!("{}: a guard is {}", name, mods_str(got)));
            }
        }
    }
    Ok(true)
}
