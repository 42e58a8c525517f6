//! Makes the calls it is given, one per line of the input, and prints what each gave.
//! Built with every feature set, in both modes, for several platforms, and run under Miri: the
//! transcripts must agree. It knows nothing about what the results should be.
//!
//! Lines: see Case::line in the harness.
#![no_std]

extern crate alloc;

use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use barcoders::error::Error;
#[allow(unused_imports)]
use barcoders::generators as g;
use barcoders::sym::*;

pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    s.trim_start_matches('-').as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

#[allow(dead_code)]
fn rgba(s: &str) -> [u8; 4] {
    unhex(s).try_into().unwrap()
}

fn modules(s: &str) -> Vec<u8> {
    s.bytes().filter(|&b| b != b'-').map(|b| b - b'0').collect()
}

pub enum Value {
    Ean13(ean13::EAN13),
    Upca(upca::UPCA),
    Ean8(ean8::EAN8),
    Supp(ean_supp::EANSUPP),
    Tf(tf::TF),
    Codabar(codabar::Codabar),
    Code11(code11::Code11),
    Code39(code39::Code39),
    Code93(code93::Code93),
    Code128(code128::Code128),
}

pub fn construct(sym: &str, d: &str) -> Result<Value, Error> {
    Ok(match sym {
        "Ean13" => Value::Ean13(ean13::EAN13::new(d)?),
        "Jan" => Value::Ean13(ean13::JAN::new(d)?),
        "Bookland" => Value::Ean13(ean13::Bookland::new(d)?),
        "Upca" => Value::Upca(upca::UPCA::new(d)?),
        "Ean8" => Value::Ean8(ean8::EAN8::new(d)?),
        "Supp" => Value::Supp(ean_supp::EANSUPP::new(d)?),
        "Itf" => Value::Tf(tf::TF::interleaved(d)?),
        "Stf" => Value::Tf(tf::TF::standard(d)?),
        "Codabar" => Value::Codabar(codabar::Codabar::new(d)?),
        "Code11" => Value::Code11(code11::Code11::new(d)?),
        "Usd8" => Value::Code11(code11::USD8::new(d)?),
        "Code39" => Value::Code39(code39::Code39::new(d)?),
        "Code39Chk" => Value::Code39(code39::Code39::with_checksum(d)?),
        "Code93" => Value::Code93(code93::Code93::new(d)?),
        "Code128" => Value::Code128(code128::Code128::new(d)?),
        _ => panic!("probe: unknown symbology {}", sym),
    })
}

impl Value {
    fn encode(&self) -> Vec<u8> {
        match self {
            Value::Ean13(b) => b.encode(),
            Value::Upca(b) => b.encode(),
            Value::Ean8(b) => b.encode(),
            Value::Supp(b) => b.encode(),
            Value::Tf(b) => b.encode(),
            Value::Codabar(b) => b.encode(),
            Value::Code11(b) => b.encode(),
            Value::Code39(b) => b.encode(),
            Value::Code93(b) => b.encode(),
            Value::Code128(b) => b.encode(),
        }
    }
}

/// The kind and the message.
fn error(e: Error) -> String {
    let kind = match e {
        Error::Character => "character",
        Error::Length => "length",
        Error::Generate => "generate",
        Error::Checksum => "checksum",
    };
    format!("{}: {}", kind, e)
}

/// Length, hash and beginning.
fn show(b: &[u8]) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    let binary = b.iter().all(|&x| x < 2);
    let head: String = b
        .iter()
        .take(60)
        .map(|&x| match x {
            0 | 1 if binary => (b'0' + x) as char,
            32..=126 => x as char,
            _ => '.',
        })
        .collect();
    format!("{} {:016x} {}", b.len(), h, head)
}

/// What the call gave; None if the build does not have it.
pub fn call(line: &str, shared: Option<&Result<Value, Error>>) -> Option<String> {
    let f: Vec<&str> = line.split(' ').collect();
    #[allow(unused_variables)]
    let n = |i: usize| f[i].parse::<usize>().unwrap();
    #[allow(unused_variables)]
    let w = |i: usize| f[i].parse::<u32>().unwrap();
    #[allow(unused_variables)]
    let text = |r: Result<String, Error>| Some(r.map_or_else(error, |s| show(s.as_bytes())));
    match f[0] {
        "S" => {
            let made;
            let r = match shared {
                Some(r) => r,
                None => {
                    made = construct(f[1], core::str::from_utf8(&unhex(f[2])).unwrap());
                    &made
                }
            };
            Some(match r {
                Ok(v) => show(&v.encode()),
                Err(e) => error(match e {
                    Error::Character => Error::Character,
                    Error::Length => Error::Length,
                    Error::Generate => Error::Generate,
                    Error::Checksum => Error::Checksum,
                }),
            })
        }
        #[cfg(feature = "ascii")]
        "A" => text(g::ascii::ASCII { height: n(1), xdim: n(2) }.generate(modules(f[3]))),
        #[cfg(feature = "json")]
        "J" => text(g::json::JSON { height: n(1), xdim: n(2) }.generate(modules(f[3]))),
        #[cfg(feature = "svg")]
        "V" => {
            let xmlns = f[5].strip_prefix('x').map(|h| String::from_utf8(unhex(h)).unwrap());
            text(
                g::svg::SVG {
                    height: w(1),
                    xdim: w(2),
                    foreground: g::svg::Color::new(rgba(f[3])),
                    background: g::svg::Color::new(rgba(f[4])),
                    xmlns,
                }
                .generate(modules(f[6])),
            )
        }
        #[cfg(feature = "ascii")]
        "D" if n(1) == 0 => text(g::ascii::ASCII::new().generate(modules(f[3]))),
        #[cfg(feature = "ascii")]
        "D" if n(1) == 1 => text(g::ascii::ASCII::default().generate(modules(f[3]))),
        #[cfg(feature = "json")]
        "D" if n(1) == 2 => text(g::json::JSON::new().generate(modules(f[3]))),
        #[cfg(feature = "json")]
        "D" if n(1) == 3 => text(g::json::JSON::default().generate(modules(f[3]))),
        #[cfg(feature = "svg")]
        "D" if n(1) == 4 => text(g::svg::SVG::new(w(2)).generate(modules(f[3]))),
        #[cfg(feature = "svg")]
        "D" if n(1) == 5 => {
            let mut s = g::svg::SVG::new(w(2));
            s.foreground = g::svg::Color::black();
            s.background = g::svg::Color::white();
            text(s.generate(modules(f[3])))
        }
        #[cfg(feature = "svg")]
        "B" => {
            let mut s = g::svg::SVG::new(w(1));
            for o in f[2].split(',').filter(|o| *o != "-") {
                let (k, v) = o.split_at(1);
                s = match k {
                    "x" => s.xdim(v.parse().unwrap()),
                    "f" => s.foreground(g::svg::Color::new(rgba(v))),
                    "b" => s.background(g::svg::Color::new(rgba(v))),
                    _ => s.xmlns(String::from_utf8(unhex(v)).unwrap()),
                };
            }
            text(s.generate(modules(f[3])))
        }
        #[cfg(all(feature = "image", feature = "std"))]
        "I" => {
            use g::image::{Color, Image, Rotation};
            let (height, xdim) = (w(2), w(3));
            let rotation = match f[4] {
                "0" => Rotation::Zero,
                "1" => Rotation::Ninety,
                "2" => Rotation::OneEighty,
                _ => Rotation::TwoSeventy,
            };
            let (foreground, background) = (Color::new(rgba(f[5])), Color::new(rgba(f[6])));
            let m = modules(f[7]);
            Some(match f[1] {
                "Gif" => Image::GIF { height, xdim, rotation, foreground, background }.generate(m).map_or_else(error, |b| show(&b)),
                "Png" => Image::PNG { height, xdim, rotation, foreground, background }.generate(m).map_or_else(error, |b| show(&b)),
                "Webp" => Image::WEBP { height, xdim, rotation, foreground, background }.generate(m).map_or_else(error, |b| show(&b)),
                _ => Image::ImageBuffer { height, xdim, rotation, foreground, background }
                    .generate_buffer(m)
                    .map_or_else(error, |b| format!("{} x {} {}", b.width(), b.height(), show(&b))),
            })
        }
        _ => None,
    }
}

