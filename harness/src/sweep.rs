//! Systematic enumerations, split over shards.

use crate::case::{Case, Out, SvgOp};
use crate::gen::{self, alphabet, FIXED};
use crate::rng::Src;
use crate::spec::{self, *};
use bcsut::{Fmt, ImgCfg, Rgba, SvgCfg, Sym};

pub struct Sw<'a> {
    i: u64,
    shard: u64,
    of: u64,
    go: bool,
    f: &'a mut dyn FnMut(Case) -> bool,
}

impl Sw<'_> {
    fn at(&mut self, mk: impl FnOnce() -> Case) {
        let mine = self.i % self.of == self.shard;
        self.i += 1;
        if mine && self.go {
            self.go = (self.f)(mk());
        }
    }
    fn sym(&mut self, sym: Sym, mk: impl FnOnce() -> String) {
        self.at(|| Case::Sym { sym, data: mk() });
    }
}

/// Runs the enumeration of a property; true if it was completed.
pub fn sweep(prop: &str, deep: bool, seed: u64, shard: (u64, u64), f: &mut dyn FnMut(Case) -> bool) -> bool {
    let mut s = Sw { i: 0, shard: shard.0, of: shard.1, go: true, f };
    let tiny = cfg!(miri);
    let mut src = Src::seeded(seed ^ 0x5eed);
    dictionary(&mut s, prop);
    match prop {
        "C01" => {
            for sym in [Sym::Ean13, Sym::Upca, Sym::Ean8, Sym::Jan, Sym::Bookland] {
                retail(&mut s, sym, deep, &mut src);
            }
            // Every EAN-8.
            for n in 0..if tiny { 100 } else { 10_000_000u64 } {
                if !s.go {
                    break;
                }
                if deep || tiny || (n.wrapping_mul(0x9E37_79B9).wrapping_add(seed)) % 4 == 0 {
                    s.sym(Sym::Ean8, || format!("{:07}", n));
                }
            }
        }
        "C02" => {
            for sym in [Sym::Ean13, Sym::Upca, Sym::Ean8, Sym::Jan, Sym::Bookland] {
                let p = payload_len(sym).unwrap();
                for i in 0..p {
                    for j in 0..p {
                        for x in 0..10u8 {
                            for y in 0..10u8 {
                                for bg in [0u8, 9, 5] {
                                    s.at(|| {
                                        let mut d = vec![b'0' + bg; p];
                                        d[i] = b'0' + x;
                                        d[j] = b'0' + y;
                                        Case::Gate { sym, payload: String::from_utf8(d).unwrap() }
                                    });
                                }
                            }
                        }
                    }
                    if tiny {
                        break;
                    }
                }
            }
            for n in 0..if tiny { 20 } else { 10_000_000u64 } {
                if !s.go {
                    break;
                }
                if deep || (n.wrapping_mul(0x9E37_79B9).wrapping_add(seed)) % 16 == 0 {
                    s.at(|| Case::Gate { sym: Sym::Ean8, payload: format!("{:07}", n) });
                }
            }
        }
        "C03" => {
            for n in 0..=if tiny { 2 } else { 6usize } {
                let total = 10u64.pow(n as u32);
                for v in 0..total {
                    if n == 6 && v % 97 != seed % 97 && !deep {
                        continue;
                    }
                    s.sym(Sym::Supp, || if n == 0 { String::new() } else { format!("{:0w$}", v, w = n) });
                }
            }
        }
        "C04" => fixed(&mut s, Sym::Itf, deep, &mut src),
        "C05" => fixed(&mut s, Sym::Stf, deep, &mut src),
        "C06" => fixed(&mut s, Sym::Codabar, deep, &mut src),
        "C07" => {
            fixed(&mut s, Sym::Code11, deep, &mut src);
            fixed(&mut s, Sym::Usd8, false, &mut src);
        }
        "C08" => {
            fixed(&mut s, Sym::Code39Chk, deep, &mut src);
            fixed(&mut s, Sym::Code39, deep, &mut src);
            // All flag histories of up to six operations.
            for n in 1..=if tiny { 3 } else { 6usize } {
                for v in 0..3u32.pow(n as u32) {
                    for chk in [false, true] {
                        for d in ["A", "CODE 39", "%+/$", "ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ"] {
                            s.at(|| Case::Flags {
                                data: d.into(),
                                chk,
                                ops: (0..n).map(|k| (v / 3u32.pow(k as u32) % 3) as u8).collect(),
                            });
                        }
                    }
                }
            }
        }
        "C09" => fixed(&mut s, Sym::Code93, deep, &mut src),
        "C10" => code128(&mut s, deep),
        "C11" => admission128(&mut s, deep),
        "C12" => {
            admission(&mut s, deep, seed);
        }
        "C13" => {
            for sym in Sym::ALL {
                lengths(&mut s, sym);
            }
            for sym in FIXED {
                fixed_some(&mut s, sym, &mut src, if deep { 4000 } else { 300 });
            }
            wide(&mut s);
            scalars(&mut s, &Sym::ALL, if deep { 1 } else { 37 }, seed);
            tokens128(&mut s, if deep { 5 } else { 4 });
            long128(&mut s, deep);
        }
        "C14" => {
            for fmt in [Fmt::Png, Fmt::Webp, Fmt::Buffer] {
                images(&mut s, fmt, deep);
            }
        }
        "C15" => images(&mut s, Fmt::Gif, deep),
        "C16" => image_sizes(&mut s, deep),
        "C17" | "C18" => svgs(&mut s, prop, deep),
        "C19" => asciis(&mut s, deep),
        "C20" => jsons(&mut s, deep),
        "C24" => {
            for sym in Sym::ALL {
                lengths(&mut s, sym);
            }
            long128(&mut s, deep);
            for n in [0usize, 1, 10, 1000, 10_000, 100_000, if deep { 2_000_000 } else { 400_000 }] {
                let m: Vec<u8> = (0..if tiny { n.min(50) } else { n }).map(|i| (i % 3 == 0) as u8).collect();
                for xdim in [0, 1, 3] {
                    s.at(|| Case::Gen { out: Out::Ascii { height: 2, xdim: xdim as usize }, mods: m.clone() });
                    s.at(|| Case::Gen { out: Out::Json { height: 2, xdim: xdim as usize }, mods: m.clone() });
                    let c = SvgCfg { height: 5, xdim, fg: [1, 2, 3, 4], bg: [9, 8, 7, 6], xmlns: None };
                    s.at(|| Case::Gen { out: Out::Svg(c), mods: m.clone() });
                }
            }
            for x in [1000usize, 10_000, 1_000_000] {
                s.at(|| Case::Gen { out: Out::Ascii { height: 0, xdim: if tiny { 3 } else { x } }, mods: vec![1; 100] });
            }
            for h in [1usize, 100, 10_000] {
                s.at(|| Case::Gen { out: Out::Ascii { height: if tiny { 3 } else { h }, xdim: 2 }, mods: vec![1, 0, 1] });
                s.at(|| Case::Gen { out: Out::Ascii { height: if tiny { 3 } else { h }, xdim: 0 }, mods: vec![1, 0, 1] });
            }
            if cfg!(feature = "image") && !tiny {
                for fmt in Fmt::ALL {
                    for (n, x, h) in [(1, 1, 1), (95, 1, 50), (95, 3, 200), (1000, 1, 1000), (3, 1000, 1000), (9000, 1, 300)] {
                        for rot in 0..4 {
                            let c = ImgCfg { fmt, height: h, xdim: x, rot, fg: [0, 0, 0, 255], bg: [255; 4] };
                            s.at(|| Case::Gen { out: Out::Img(c), mods: (0..n).map(|i| (i % 2) as u8).collect() });
                        }
                    }
                }
            }
        }
        "C25" => {
            for sym in Sym::ALL {
                for k in 0..if tiny { 2 } else { 40 } {
                    let d = gen::valid(&mut src, sym, 20 + k);
                    for xdim in 1..4u32 {
                        for height in [1u32, 2, 7] {
                            s.at(|| Case::E2e { sym, data: d.clone(), out: Out::Ascii { height: height as usize, xdim: xdim as usize } });
                            s.at(|| Case::E2e { sym, data: d.clone(), out: Out::Json { height: height as usize, xdim: xdim as usize } });
                            let c = SvgCfg { height, xdim, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None };
                            s.at(|| Case::E2e { sym, data: d.clone(), out: Out::Svg(c) });
                            if cfg!(feature = "image") && !tiny {
                                for fmt in Fmt::ALL {
                                    for rot in 0..4 {
                                        let c = ImgCfg { fmt, height, xdim, rot, fg: [0, 0, 0, 255], bg: [255; 4] };
                                        s.at(|| Case::E2e { sym, data: d.clone(), out: Out::Img(c) });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        "C26" => shorthands(&mut s, deep, &mut src),
        "C28" => public(&mut s, deep, &mut src),
        "C29" => {
            for sym in Sym::ALL {
                lengths(&mut s, sym);
            }
            for sym in FIXED {
                fixed_some(&mut s, sym, &mut src, if deep { 2000 } else { 100 });
            }
            scalars(&mut s, &Sym::ALL, if deep { 7 } else { 211 }, seed);
            tokens128(&mut s, if deep { 4 } else { 3 });
            dictionary(&mut s, "C13");
            for p in ["C14", "C17", "C19", "C20"] {
                dictionary(&mut s, p);
            }
            shorthands(&mut s, false, &mut src);
            public(&mut s, false, &mut src);
            jsons(&mut s, false);
            asciis(&mut s, false);
            svgs(&mut s, "C17", false);
            for fmt in Fmt::ALL {
                images(&mut s, fmt, false);
            }
            image_sizes(&mut s, false);
        }
        "C30" => {
            for sym in Sym::ALL {
                lengths(&mut s, sym);
            }
            for sym in FIXED {
                fixed_some(&mut s, sym, &mut src, if deep { 2000 } else { 100 });
            }
            scalars(&mut s, &Sym::ALL, if deep { 7 } else { 211 }, seed);
            tokens128(&mut s, if deep { 4 } else { 3 });
            public(&mut s, false, &mut src);
            jsons(&mut s, false);
            asciis(&mut s, false);
            svgs(&mut s, "C17", false);
            for fmt in Fmt::ALL {
                images(&mut s, fmt, false);
            }
            image_sizes(&mut s, false);
        }
        "C27" => {
            for which in 0..crate::time::count() {
                s.at(|| Case::Time { which });
            }
        }
        _ => {}
    }
    s.go
}

/// The longest inputs, for the builds in which recursion and arithmetic show.
pub fn long(prop: &str, deep: bool, f: &mut dyn FnMut(Case) -> bool) {
    if prop == "C29" {
        for p in ["C13", "C12", "C17", "C19", "C20", "C14", "C15"] {
            long(p, deep, f);
        }
        let mut s = Sw { i: 0, shard: 0, of: 1, go: true, f };
        for k in 8..19 {
            for n in [(1usize << k) - 1, 1 << k, 5 << (k - 2), (7 << (k - 2)) + 1] {
                for t in 0..3 {
                    let mods: Vec<u8> = (0..n).map(|i| [1, (i % 2) as u8, (i % 7 < 3) as u8][t]).collect();
                    let c = SvgCfg { height: 5, xdim: 2, fg: [1, 2, 3, 4], bg: [9, 8, 7, 6], xmlns: None };
                    let (m, o) = (mods.clone(), c.clone());
                    s.at(|| Case::Gen { out: Out::Svg(o), mods: m });
                    let m = mods.clone();
                    s.at(|| Case::Gen { out: Out::Ascii { height: 2, xdim: 1 }, mods: m });
                    let m = mods.clone();
                    s.at(|| Case::Gen { out: Out::Json { height: 2, xdim: 2 }, mods: m });
                    if cfg!(feature = "image") && n < 60_000 {
                        for fmt in Fmt::ALL {
                            if fmt != Fmt::Webp || n < 16_384 {
                                let c = ImgCfg { fmt, height: 3, xdim: 1, rot: (n % 4) as u8, fg: [10, 20, 30, 255], bg: [255; 4] };
                                let m = mods.clone();
                                s.at(|| Case::Gen { out: Out::Img(c), mods: m });
                            }
                        }
                    }
                }
            }
        }
        return;
    }
    let mut s = Sw { i: 0, shard: 0, of: 1, go: true, f };
    let lens: &[usize] = if deep { &[70_000, 300_000, 1_000_000, 4_000_000, 16_000_000] } else { &[70_000, 300_000, 1_500_000] };
    for &n in lens {
        let mods = |n: usize| -> Vec<u8> { (0..n).map(|i| (i % 3 != 1) as u8).collect() };
        match prop {
            "C10" | "C11" | "C13" => {
                for d in [
                    format!("{}{}", SEL_B, "z".repeat(n)),
                    format!("{}{}", SEL_C, "42".repeat(n)),
                    format!("{}{}", SEL_A, format!("{}7", FNC1).repeat(n / 2)),
                    // Changes of the set all along.
                    std::iter::once(SEL_A).chain((0..n / 2).flat_map(|i| [if i % 2 == 0 { SEL_B } else { SEL_A }, 'A'])).collect(),
                    format!("{}{}", SEL_C, "42".repeat(n)) + "4",
                    format!("{}{}\u{E9}", SEL_B, "z".repeat(n)),
                ] {
                    s.sym(Sym::Code128, || d);
                }
            }
            "C12" => {
                for sym in gen::FIXED {
                    s.sym(sym, || "1".repeat(n));
                    s.sym(sym, || "1".repeat(n) + "\u{E9}");
                }
            }
            "C17" | "C18" => {
                let c = SvgCfg { height: 5, xdim: 2, fg: [1, 2, 3, 4], bg: [9, 8, 7, 6], xmlns: None };
                s.at(|| Case::Gen { out: Out::Svg(c), mods: mods(n / 4) });
            }
            "C19" => s.at(|| Case::Gen { out: Out::Ascii { height: 2, xdim: 2 }, mods: mods(n) }),
            "C20" => s.at(|| Case::Gen { out: Out::Json { height: 2, xdim: 2 }, mods: mods(n) }),
            "C14" | "C15" if cfg!(feature = "image") => {
                for fmt in Fmt::ALL {
                    if (fmt == Fmt::Gif) == (prop == "C15") {
                        for rot in 0..4 {
                            // Pictures of millions of pixels.
                            let big = [(95usize, 21u32, 2100u32), (1, 2100, 2100), (2100, 1, 2100), (300, 220, 66), (3, 22, 65_000)];
                            let (m, x, h) = big[(n / 1000 + rot as usize) % 5];
                            if fmt != Fmt::Webp || h < 16_384 && x as usize * m < 16_384 {
                                let c = ImgCfg { fmt, height: h, xdim: x, rot, fg: [10, 20, 30, 255], bg: [255; 4] };
                                s.at(|| Case::Gen { out: Out::Img(c), mods: mods(m) });
                            }
                            // More than 2^24 pixels.
                            if n == lens[2] && rot % 2 == 1 && (fmt == Fmt::Buffer || fmt == Fmt::Png && !cfg!(debug_assertions)) {
                                let c = ImgCfg { fmt, height: 4099, xdim: 43, rot, fg: [10, 20, 30, 255], bg: [255; 4] };
                                s.at(|| Case::Gen { out: Out::Img(c), mods: mods(97) });
                            }
                            // Wider, or higher.
                            if n == lens[2] && (fmt == Fmt::Buffer && (deep || rot < 3) || fmt == Fmt::Png && rot % 2 == 0 && !cfg!(debug_assertions)) {
                                let (m, x, h) = [(65_521, 259, 1), ((1 << 24) + 7, 1, 1), (2, 1, (1 << 24) + 9), (21, 1_000_003, 1)][rot as usize];
                                let c = ImgCfg { fmt, height: h, xdim: x, rot: rot + u8::from(fmt == Fmt::Png), fg: [10, 20, 30, 255], bg: [255; 4] };
                                s.at(|| Case::Gen { out: Out::Img(c), mods: mods(m) });
                            }
                            let c = ImgCfg { fmt, height: 2, xdim: 1, rot, fg: [10, 20, 30, 255], bg: [255; 4] };
                            let w = if fmt == Fmt::Buffer || fmt == Fmt::Png { n / 8 } else { n.min(16_000) };
                            s.at(|| Case::Gen { out: Out::Img(c), mods: mods(w) });
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// Characters of several bytes at every offset, short to long.
fn wide(s: &mut Sw) {
    let mut lens: Vec<usize> = (1..40).collect();
    for k in 5..if cfg!(miri) { 6 } else { 17 } {
        lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    lens.extend(if cfg!(miri) { &[100usize][..] } else { &[100, 255, 256, 257, 300, 500, 999, 1000, 1001, 1500, 10_000, 70_000] });
    for sym in Sym::ALL {
        let a = alphabet(sym)[0];
        for &n in &lens {
            for ch in ["\u{E9}", "\u{4E2D}", "\u{1F600}"] {
                for before in 0..if n < 3000 { 4 } else { 2 } {
                    s.sym(sym, || a.to_string().repeat(before) + &ch.repeat(n));
                    // The same in the middle, and halves that are equal.
                    s.sym(sym, || a.to_string().repeat(n / 2) + &ch.repeat(before + 1) + &a.to_string().repeat(n / 2));
                }
            }
        }
    }
}

/// Every literal of the source under test, in every role it can play.
fn dictionary(s: &mut Sw, prop: &str) {
    let d = gen::dict();
    let syms: &[Sym] = match prop {
        "C01" => &[Sym::Ean13, Sym::Upca, Sym::Ean8],
        "C03" => &[Sym::Supp],
        "C04" => &[Sym::Itf],
        "C05" => &[Sym::Stf],
        "C06" => &[Sym::Codabar],
        "C07" => &[Sym::Code11],
        "C08" => &[Sym::Code39, Sym::Code39Chk],
        "C09" => &[Sym::Code93],
        "C10" | "C11" => &[Sym::Code128],
        "C12" => &FIXED,
        "C13" | "C24" => &Sym::ALL,
        _ => &[],
    };
    for &sym in syms {
        for t in &d.strs {
            s.sym(sym, || t.clone());
            s.sym(sym, || t.to_uppercase());
        }
        // Lengths.
        let a = alphabet(sym);
        for &n in d.ints.iter().filter(|&&n| n <= 100_000) {
            for &c in [a[0], a[a.len() - 1], a[a.len() / 2]].iter() {
                if sym == Sym::Code128 {
                    s.sym(sym, || format!("{}{}", SEL_B, c.to_string().repeat(n as usize)));
                    s.sym(sym, || format!("{}{}", SEL_C, "7".repeat(n as usize / 2 * 2)));
                } else {
                    s.sym(sym, || c.to_string().repeat(n as usize));
                }
            }
        }
        // Numbers as data.
        for &n in &d.ints {
            for w in [1, 2, 5, 7, 8, 11, 12, 13] {
                s.sym(sym, || format!("{:0w$}", n, w = w));
            }
        }
    }
    let gens: &[&str] = &["C14", "C15", "C16", "C17", "C18", "C19", "C20"];
    if gens.contains(&prop) {
        let m = [1u8, 0, 1, 1, 0];
        for &n in &d.ints {
            for &k in [1u64, 2, 7].iter() {
                for (h, x) in [(n, k), (k, n)] {
                    let (h32, x32) = (h as u32, x as u32);
                    let fits = h <= u32::MAX as u64 && x <= u32::MAX as u64;
                    match prop {
                        "C20" => s.at(|| Case::Gen { out: Out::Json { height: h as usize, xdim: x as usize }, mods: m.to_vec() }),
                        "C19" if h.saturating_mul(x) < 100_000 => {
                            s.at(|| Case::Gen { out: Out::Ascii { height: h as usize, xdim: x as usize }, mods: m.to_vec() })
                        }
                        "C17" | "C18" if fits => s.at(|| Case::Gen {
                            out: Out::Svg(SvgCfg { height: h32, xdim: x32, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None }),
                            mods: m.to_vec(),
                        }),
                        "C14" | "C15" if fits && h.saturating_mul(x) < 200_000 => {
                            for fmt in Fmt::ALL {
                                if (fmt == Fmt::Gif) == (prop == "C15") {
                                    for rot in 0..4 {
                                        let c = ImgCfg { fmt, height: h32, xdim: x32, rot, fg: [10, 20, 30, 255], bg: [255; 4] };
                                        s.at(|| Case::Gen { out: Out::Img(c), mods: m.to_vec() });
                                    }
                                }
                            }
                        }
                        "C16" if fits => {
                            for fmt in Fmt::ALL {
                                for rot in 0..2 {
                                    let c = ImgCfg { fmt, height: h32, xdim: x32, rot, fg: [10, 20, 30, 255], bg: [255; 4] };
                                    s.at(|| Case::ImgSize { cfg: c, n: 5 });
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            // Module counts and colour channels.
            let b = n as u8;
            if n <= 20_000 {
                let pat: Vec<u8> = (0..n).map(|i| (i % 3 != 1) as u8).collect();
                match prop {
                    "C20" => s.at(|| Case::Gen { out: Out::Json { height: 1, xdim: 1 }, mods: pat }),
                    "C19" => s.at(|| Case::Gen { out: Out::Ascii { height: 2, xdim: 1 }, mods: pat }),
                    "C17" | "C18" => {
                        for (fg, bg) in [([b, 0, 0, 255], [255; 4]), ([0, b, 0, b], [b; 4]), ([b; 4], [0, 0, b, 255]), ([9, 9, 9, b], [1, 2, 3, b])] {
                            s.at(|| Case::Gen { out: Out::Svg(SvgCfg { height: 3, xdim: 2, fg, bg, xmlns: None }), mods: pat.clone() });
                        }
                    }
                    "C14" | "C15" => {
                        for fmt in Fmt::ALL {
                            if (fmt == Fmt::Gif) == (prop == "C15") && n > 0 {
                                for (fg, bg) in [([b, 0, 0, 255], [255; 4]), ([0, b, 0, b], [b; 4]), ([b; 4], [0, 0, b, 255])] {
                                    let c = ImgCfg { fmt, height: 2, xdim: 1, rot: b % 4, fg, bg };
                                    s.at(|| Case::Gen { out: Out::Img(c), mods: pat.clone() });
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        // New numbers against each other.
        for &a in d.new_ints.iter().take(60) {
            for &b in d.new_ints.iter().take(60) {
                let (h32, x32) = (a as u32, b as u32);
                let fits = a <= u32::MAX as u64 && b <= u32::MAX as u64;
                let small = |n: u64| a.saturating_mul(b).saturating_mul(n) < 100_000;
                for m in [vec![1u8], vec![1, 0, 1, 1, 0]] {
                    match prop {
                        "C20" => s.at(|| Case::Gen { out: Out::Json { height: a as usize, xdim: b as usize }, mods: m }),
                        "C19" if small(5) => s.at(|| Case::Gen { out: Out::Ascii { height: a as usize, xdim: b as usize }, mods: m }),
                        "C17" | "C18" if fits => s.at(|| Case::Gen {
                            out: Out::Svg(SvgCfg { height: h32, xdim: x32, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None }),
                            mods: m,
                        }),
                        "C14" | "C15" if fits && small(5) => {
                            for fmt in Fmt::ALL {
                                if (fmt == Fmt::Gif) == (prop == "C15") {
                                    for rot in 0..4 {
                                        let c = ImgCfg { fmt, height: h32, xdim: x32, rot, fg: [10, 20, 30, 255], bg: [255; 4] };
                                        s.at(|| Case::Gen { out: Out::Img(c), mods: m.clone() });
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                // As a module count and an X dimension.
                if a <= 3000 && b <= 300 && a * b < 100_000 {
                    let m: Vec<u8> = (0..a).map(|i| (i % 3 != 1) as u8).collect();
                    match prop {
                        "C19" => s.at(|| Case::Gen { out: Out::Ascii { height: 2, xdim: b as usize }, mods: m }),
                        "C17" => s.at(|| Case::Gen { out: Out::Svg(SvgCfg { height: 2, xdim: x32, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: None }), mods: m }),
                        "C14" | "C15" => {
                            for fmt in Fmt::ALL {
                                if (fmt == Fmt::Gif) == (prop == "C15") {
                                    let c = ImgCfg { fmt, height: 2, xdim: x32, rot: (a % 4) as u8, fg: [10, 20, 30, 255], bg: [255; 4] };
                                    s.at(|| Case::Gen { out: Out::Img(c), mods: m.clone() });
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if prop == "C18" {
            for t in &d.strs {
                let c = SvgCfg { height: 3, xdim: 2, fg: [0, 0, 0, 255], bg: [255; 4], xmlns: Some(t.clone()) };
                s.at(|| Case::Gen { out: Out::Svg(c), mods: vec![1, 0, 1] });
            }
        }
    }
}

fn retail(s: &mut Sw, sym: Sym, deep: bool, src: &mut Src) {
    let p = payload_len(sym).unwrap();
    let with_check = |d: &[u8], full: bool| {
        let mut t: String = d.iter().map(|x| (b'0' + x) as char).collect();
        if full {
            t.push((b'0' + mod10(d)) as char);
        }
        t
    };
    for full in [false, true] {
        // Every pair of positions with every pair of digits on three backgrounds.
        for i in 0..p {
            for j in i..p {
                for x in 0..10u8 {
                    for y in 0..10u8 {
                        for bg in [0u8, 9, 4] {
                            s.sym(sym, || {
                                let mut d = vec![bg; p];
                                d[i] = x;
                                d[j] = y;
                                with_check(&d, full)
                            });
                        }
                    }
                }
                if cfg!(miri) {
                    return;
                }
            }
        }
        // Every prefix and suffix of a few digits on random fill.
        let w = if deep { 6 } else { 4 };
        for v in 0..10u32.pow(w) {
            let fill: Vec<u8> = (0..p).map(|_| src.below(10) as u8).collect();
            for front in [false, true] {
                s.sym(sym, || {
                    let mut d = fill.clone();
                    for k in 0..w as usize {
                        let x = (v / 10u32.pow(k as u32) % 10) as u8;
                        let at = if front { k } else { p - 1 - k };
                        d[at] = x;
                    }
                    with_check(&d, full)
                });
            }
        }
    }
}

/// Strings of the symbologies with a free length and a fixed alphabet.
fn fixed(s: &mut Sw, sym: Sym, deep: bool, src: &mut Src) {
    let a = alphabet(sym);
    let k = a.len();
    let tiny = cfg!(miri);
    // All short strings.
    let limit = if tiny { 60 } else if deep { 12_000_000 } else { 1_200_000 };
    let mut n = 1u32;
    let mut total = 0u64;
    while (k as u64).pow(n) + total <= limit {
        let count = (k as u64).pow(n);
        for v in 0..count {
            s.sym(sym, || (0..n).map(|i| a[(v / (k as u64).pow(i) % k as u64) as usize]).collect());
        }
        total += count;
        n += 1;
    }
    if !s.go {
        return;
    }
    // The next length: all strings with a sampled rest.
    lengths(s, sym);
    fixed_some(s, sym, src, if tiny { 4 } else if deep { 60_000 } else { 6000 });
    if tiny {
        return;
    }
    // Every length, every position, every character, on a constant background.
    for n in 1..=256usize {
        let step = if deep || n < 60 || n > 250 { 1 } else { 7 };
        for p in (0..n).step_by(step) {
            for (ci, &c) in a.iter().enumerate() {
                if !s.go {
                    return;
                }
                let bg = a[(ci + 1 + n) % k];
                s.sym(sym, || (0..n).map(|i| if i == p { c } else { bg }).collect());
            }
        }
    }
    // Adjacent pairs at every position of a few lengths.
    for n in [6usize, 12, 13, 23, 48] {
        for p in 0..n - 1 {
            for &x in &a {
                for &y in &a {
                    if !s.go {
                        return;
                    }
                    s.sym(sym, || (0..n).map(|i| if i == p { x } else if i == p + 1 { y } else { a[0] }).collect());
                }
            }
            if !deep && n > 13 && k > 20 {
                break;
            }
        }
    }
}

/// Every length, in several textures, one beyond the limits included.
fn lengths(s: &mut Sw, sym: Sym) {
    let a = alphabet(sym);
    let k = a.len();
    for n in 0..=if cfg!(miri) { 14 } else { 300usize } {
        if sym == Sym::Code128 {
            for c in ['0', '9', '_', ' '] {
                for sel in [SEL_A, SEL_B, SEL_C] {
                    s.sym(sym, || std::iter::once(sel).chain(std::iter::repeat(c).take(n)).collect());
                }
            }
            continue;
        }
        for (ci, &c) in a.iter().enumerate() {
            if k > 12 && n > 30 && ci % 5 != n % 5 && ci != k - 1 {
                continue;
            }
            s.sym(sym, || std::iter::repeat(c).take(n).collect());
        }
        for st in [1, 3, 7] {
            s.sym(sym, || (0..n).map(|i| a[(i * st + n) % k]).collect());
        }
    }
    if !cfg!(miri) {
        for n in [511usize, 512, 513, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 65536 + 2, 65536 + 5, 65536 + 7, 65536 + 8, 65536 + 11, 65536 + 12, 65536 + 13, 65536 + 256, 131072 + 12, 131072 + 5] {
            s.sym(sym, || a[1].to_string().repeat(n));
        }
    }
}

fn fixed_some(s: &mut Sw, sym: Sym, src: &mut Src, count: usize) {
    for _ in 0..count {
        let d = gen::valid(src, sym, 256);
        s.sym(sym, || d);
    }
}

fn tokens_of(set: char) -> Vec<String> {
    match set {
        SEL_A => (0..96u8).map(|b| (b as char).to_string()).chain([FNC1, FNC2, FNC3, FNC4, SHIFT].map(|c| c.to_string())).collect(),
        SEL_B => (32..128u8)
            .map(|b| (b as char).to_string())
            .chain([FNC1, FNC2, FNC3, FNC4, SHIFT, DEL_ALT].map(|c| c.to_string()))
            .collect(),
        _ => (0..100).map(|v| format!("{:02}", v)).chain([FNC1.to_string()]).collect(),
    }
}

fn code128(s: &mut Sw, deep: bool) {
    let sels = [SEL_A, SEL_B, SEL_C];
    let tiny = cfg!(miri);
    for set in sels {
        let t = tokens_of(set);
        // Each token alone; each pair; each token at each position of a run.
        for x in &t {
            s.sym(Sym::Code128, || format!("{}{}", set, x));
            if tiny {
                continue;
            }
            for y in &t {
                s.sym(Sym::Code128, || format!("{}{}{}", set, x, y));
            }
            for p in 0..if deep { 320 } else { 112 } {
                let bg = &t[(p + 16) % 90];
                s.sym(Sym::Code128, || format!("{}{}{}{}", set, bg.repeat(p), x, bg.repeat(p % 3)));
            }
        }
        if tiny {
            continue;
        }
        // Each token before and after each switch.
        for to in sels {
            if to == set {
                continue;
            }
            let u = tokens_of(to);
            for x in &t {
                for y in u.iter().step_by(if deep { 1 } else { 3 }) {
                    s.sym(Sym::Code128, || format!("{}{}{}{}", set, x, to, y));
                }
            }
            for y in &u {
                s.sym(Sym::Code128, || format!("{}{}{}{}{}{}", set, t[17], to, y, set, t[20]));
            }
        }
        // Runs of every length.
        for n in 1..=if deep { 1200 } else { 420usize } {
            for x in [&t[0], &t[33], &t[95], &t[t.len() - 1]] {
                s.sym(Sym::Code128, || format!("{}{}", set, x.repeat(n)));
            }
        }
        if deep {
            for x in &t {
                for y in t.iter().step_by(5) {
                    for z in t.iter().step_by(3) {
                        s.sym(Sym::Code128, || format!("{}{}{}{}", set, x, y, z));
                    }
                }
            }
        }
    }
    // Every sequence of sets.
    let depth = if tiny { 3 } else if deep { 9 } else { 7 };
    let mut seqs: Vec<Vec<char>> = sels.iter().map(|&c| vec![c]).collect();
    for _ in 1..depth {
        let mut next = vec![];
        for q in &seqs {
            for &c in sels.iter().filter(|&c| c != q.last().unwrap()) {
                let mut r = q.clone();
                r.push(c);
                next.push(r);
            }
        }
        for q in &next {
            for fill in 0..4 {
                s.sym(Sym::Code128, || {
                    q.iter()
                        .enumerate()
                        .map(|(i, &c)| {
                            let f = match (c, (fill + i) % 4) {
                                (_, 0) => "",
                                (_, 1) => "42",
                                (SEL_C, 2) => "\u{179}00",
                                (SEL_A, 2) => "\u{1}Z",
                                (_, 2) => "z\u{17c}",
                                (SEL_C, _) => "9900",
                                _ => "\u{17d}A\u{179}",
                            };
                            format!("{}{}", c, f)
                        })
                        .collect()
                });
            }
        }
        seqs = next;
    }
    long128(s, deep);
}

/// Symbols long enough for weighted sums to leave any integer width smaller than 64 bits.
fn long128(s: &mut Sw, deep: bool) {
    if cfg!(miri) {
        return;
    }
    let lens: &[usize] = if deep {
        &[600, 1000, 2000, 3000, 6000, 6390, 6400, 6410, 9000, 9050, 10_000, 20_000, 32_768, 65_536, 70_000, 100_000, 131_072, 200_000, 400_000, 1_000_000, 3_000_000]
    } else {
        &[600, 1000, 2000, 3000, 6380, 6400, 9100, 10_000, 20_000, 32_768, 65_536, 70_000, 100_000, 250_000]
    };
    for &n in lens {
        for (set, unit) in [(SEL_A, "_"), (SEL_B, "~"), (SEL_B, "\u{7F}"), (SEL_C, "99"), (SEL_B, "A1"), (SEL_C, "01"), (SEL_A, "\u{179}")] {
            s.sym(Sym::Code128, || format!("{}{}", set, unit.repeat(n)));
            if n > 300_000 {
                break;
            }
        }
    }
}

fn tokens128(s: &mut Sw, depth: u32) {
    tokens128_of(s, depth, &['\u{C0}', '\u{181}', '\u{106}', '1', '7', 'A', 'a', '\u{1}', '\u{7F}', '\u{179}', '\u{17A}', '\u{17B}', '\u{17C}', '\u{17D}', '\u{F7}', '\u{E9}', ' ']);
}

fn tokens128_of(s: &mut Sw, depth: u32, t: &[char]) {
    let k = t.len() as u64;
    for n in 0..=if cfg!(miri) { 2 } else { depth } {
        for v in 0..k.pow(n) {
            if !s.go {
                return;
            }
            s.sym(Sym::Code128, || (0..n).map(|i| t[(v / k.pow(i) % k) as usize]).collect());
        }
    }
}

fn admission128(s: &mut Sw, deep: bool) {
    tokens128(s, if deep { 6 } else { 5 });
    if cfg!(miri) {
        return;
    }
    // Longer: what decides in which set a character is, and pairs.
    tokens128_of(s, if deep { 9 } else { 8 }, &[SEL_A, SEL_C, '1', 'A', FNC1]);
    tokens128_of(s, if deep { 11 } else { 9 }, &[SEL_B, SEL_C, '7', SHIFT]);
    // Every scalar value after each selector, and first of all.
    for u in 0..0x110000u32 {
        let Some(c) = char::from_u32(u) else { continue };
        if !s.go {
            return;
        }
        s.sym(Sym::Code128, || format!("{}A", c));
        s.sym(Sym::Code128, || format!("{}{}", SEL_A, c));
        s.sym(Sym::Code128, || format!("{}{}", SEL_B, c));
        s.sym(Sym::Code128, || format!("{}1{}", SEL_C, c));
        s.sym(Sym::Code128, || format!("{}12{}", SEL_C, c));
        if u < 0x300 {
            s.sym(Sym::Code128, || c.to_string());
            for from in [SEL_A, SEL_B, SEL_C] {
                for to in [SEL_A, SEL_B, SEL_C] {
                    for gap in ["", "12", "123", "\u{179}", "1\u{179}2", "\u{17d}"] {
                        s.sym(Sym::Code128, || format!("{}{}{}{}", from, gap, to, c));
                    }
                }
                for p in [5usize, 50, 105, 106, 107, 300] {
                    s.sym(Sym::Code128, || format!("{}{}{}", from, "12".repeat(p), c));
                    s.sym(Sym::Code128, || format!("{}{}{}12", from, "12".repeat(p), c));
                }
            }
        }
    }
    for n in 0..if deep { 2000 } else { 300usize } {
        s.sym(Sym::Code128, || format!("{}{}", SEL_C, "7".repeat(n)));
        s.sym(Sym::Code128, || format!("{}A{}{}", SEL_A, SEL_C, "7".repeat(n)));
        s.sym(Sym::Code128, || format!("{}{}{}A", SEL_C, "7".repeat(n), SEL_A));
        s.sym(Sym::Code128, || format!("{}{}{}{}", SEL_C, "7".repeat(n), FNC1, "7".repeat(n)));
        s.sym(Sym::Code128, || format!("{}{}", SEL_B.to_string().repeat(2), "7".repeat(n)));
    }
}

/// Every scalar value (or every `stride`th) inside an otherwise acceptable string.
fn scalars(s: &mut Sw, syms: &[Sym], stride: u32, seed: u64) {
    if cfg!(miri) {
        return;
    }
    for u in 0..0x110000u32 {
        if u > 0x3000 && (u + seed as u32) % stride != 0 {
            continue;
        }
        let Some(c) = char::from_u32(u) else { continue };
        for &sym in syms {
            if !s.go {
                return;
            }
            s.sym(sym, || {
                let n = match sym {
                    Sym::Ean13 | Sym::Jan | Sym::Bookland => 12,
                    Sym::Upca => 11,
                    Sym::Ean8 => 7,
                    Sym::Supp => 5,
                    _ => 6,
                };
                // The number of bytes is kept right when it can be, else the number of characters.
                let w = c.len_utf8();
                let rest = if u % 2 == 0 && n > w { n - w } else { n - 1 };
                let p = u as usize % (rest + 1);
                let mut t = String::new();
                if sym == Sym::Code128 {
                    t.push(SEL_B);
                }
                for _ in 0..p {
                    t.push('1');
                }
                t.push(c);
                for _ in p..rest {
                    t.push('2');
                }
                t
            });
        }
    }
}

fn admission(s: &mut Sw, deep: bool, seed: u64) {
    for sym in FIXED {
        lengths(s, sym);
        let a = alphabet(sym);
        // Every low character at every position of allowed and neighbouring lengths.
        let lens: &[usize] = match sym {
            Sym::Ean13 | Sym::Jan | Sym::Bookland => &[11, 12, 13, 14],
            Sym::Upca => &[10, 11, 12, 13],
            Sym::Ean8 => &[6, 7, 8, 9],
            Sym::Supp => &[1, 2, 3, 4, 5, 6],
            _ => &[1, 2, 3, 10, 11, 64, 255, 256, 257],
        };
        for &n in lens {
            for p in 0..n {
                if cfg!(miri) || (n > 20 && !deep && p % 9 != 0 && p != n - 1) {
                    continue;
                }
                for u in 0..0x180u32 {
                    let c = char::from_u32(u).unwrap();
                    s.sym(sym, || (0..n).map(|i| if i == p { c } else { a[1] }).collect());
                }
            }
        }
        // Long strings with the foreign character late.
        for n in [60usize, 128, 200, 256] {
            for c in ['x', '\u{1F600}', '\u{660}', '!'] {
                s.sym(sym, || a[2].to_string().repeat(n - c.len_utf8()) + &c.to_string());
            }
        }
    }
    scalars(s, &FIXED, if deep { 1 } else { 3 }, seed);
    if cfg!(miri) {
        return;
    }
    for sym in FIXED {
        affixes(s, sym, deep);
    }
    // Lengths that truncate to allowed ones in narrower integers.
    for (k, sym) in FIXED.into_iter().enumerate() {
        let n = match sym {
            Sym::Ean13 | Sym::Jan | Sym::Bookland => 12,
            Sym::Upca => 11,
            Sym::Ean8 => 7,
            Sym::Supp => 5,
            _ => 10,
        };
        for base in [1u64 << 16, 1 << 17, 1 << 20, 1 << 24] {
            s.sym(sym, || "0".repeat((base + n) as usize));
        }
        for base in [1u64 << 31, 1 << 32, 1 << 33] {
            if deep || k as u64 % 14 == seed % 14 {
                s.at(|| Case::Huge { sym, len: base + n, ch: b'0' });
            }
        }
    }
}

/// Framed, spaced and otherwise dressed up data, of allowed and other lengths.
fn affixes(s: &mut Sw, sym: Sym, deep: bool) {
    let a = alphabet(sym);
    let k = a.len();
    let lens: &[usize] = match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland => &[10, 11, 12, 13],
        Sym::Upca => &[9, 10, 11, 12],
        Sym::Ean8 => &[5, 6, 7, 8],
        Sym::Supp => &[2, 3, 5, 7],
        _ => &[2, 5, 12, 32],
    };
    // Pairs of ASCII characters: first and last, first two, last two.
    for (li, &n) in lens.iter().enumerate() {
        for x in 0..128u8 {
            for y in 0..128u8 {
                if !s.go {
                    return;
                }
                // All of those that may mean something, a third of the others.
                let (cx, cy) = (x as char, y as char);
                let plain = cx.is_ascii_graphic() && cy.is_ascii_graphic();
                if !deep && !plain && (x as usize + 3 * y as usize + li) % 3 != 0 {
                    continue;
                }
                for (i, j) in [(0, n - 1), (0, 1), (n - 2, n - 1)] {
                    if i == j {
                        continue;
                    }
                    s.sym(sym, || (0..n).map(|p| if p == i { cx } else if p == j { cy } else { a[(p * 3 + 1) % k] }).collect());
                }
            }
        }
    }
    for n in lens.iter().copied().chain([1, 3, 4, 6, 8, 9, 14, 20, 64, 254, 255, 256]) {
        for fill in 0..3 {
            let d: String = (0..n).map(|p| a[if fill == 0 { 1 } else { (p * fill + fill) % k }]).collect();
            for t in gen::dressed(&d) {
                s.sym(sym, || t);
            }
        }
    }
}

// ------------------------------------------------------------------ generators

const BW: (Rgba, Rgba) = ([0, 0, 0, 255], [255, 255, 255, 255]);

fn patterns() -> Vec<Vec<u8>> {
    let mut v = vec![
        vec![1],
        vec![0],
        vec![1, 0],
        vec![0, 1],
        vec![1, 1, 0],
        vec![1, 0, 0, 1],
        vec![0, 1, 1, 0, 1],
        vec![1; 17],
        vec![0; 17],
        spec::render(Sym::Ean13, "750103131130"),
        spec::render(Sym::Code39, "AB1"),
    ];
    if !cfg!(miri) {
        v.push(spec::render(Sym::Code128, "\u{106}123456\u{C0}ABC"));
        v.push((0..256).map(|i| (i % 5 < 2) as u8).collect());
        v.push((0..257).map(|i| (i % 7 < 3) as u8).collect());
    }
    v
}

fn images(s: &mut Sw, fmt: Fmt, deep: bool) {
    if !cfg!(feature = "image") {
        return;
    }
    let tiny = cfg!(miri);
    let gen = |c: ImgCfg, m: &[u8]| Case::Gen { out: Out::Img(c), mods: m.to_vec() };
    // Sizes and rotations.
    for m in patterns() {
        for h in [1u32, 2, 3, 5, 10, 50, 80, 255, 256, 257] {
            for x in [1u32, 2, 3, 4, 7, 16] {
                if (m.len() as u32 * h * x > if deep { 400_000 } else { 30_000 }) || (tiny && m.len() as u32 * h * x > 30) {
                    continue;
                }
                for rot in 0..4 {
                    for (fg, bg) in [BW, ([200, 30, 60, 128], [1, 250, 3, 77])] {
                        s.at(|| gen(ImgCfg { fmt, height: h, xdim: x, rot, fg, bg }, &m));
                    }
                }
            }
        }
    }
    if tiny {
        return;
    }
    // All module patterns of up to ten modules.
    for n in 1..=if deep { 14 } else { 10u32 } {
        for v in 0..1u32 << n {
            let m: Vec<u8> = (0..n).map(|i| (v >> i & 1) as u8).collect();
            s.at(|| gen(ImgCfg { fmt, height: 2, xdim: 1 + v % 2, rot: (v % 4) as u8, fg: BW.0, bg: BW.1 }, &m));
        }
    }
    // Every value of every channel; every pair of alphas.
    let m = [1, 0, 1, 1, 0];
    for v in 0..=255u8 {
        for i in 0..4 {
            for base in [0u8, 255, 100] {
                let mut c = [base; 4];
                c[3] = if base == 100 { 100 } else { 255 };
                c[i] = v;
                s.at(|| gen(ImgCfg { fmt, height: 2, xdim: 1, rot: v % 4, fg: c, bg: [255, 255, 255, 255] }, &m));
                s.at(|| gen(ImgCfg { fmt, height: 2, xdim: 1, rot: v % 4, fg: [0, 0, 0, 255], bg: c }, &m));
                s.at(|| gen(ImgCfg { fmt, height: 2, xdim: 2, rot: v % 4, fg: c, bg: [c[0], c[1], c[2] ^ 1, c[3]] }, &m));
            }
        }
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            if deep || (a as usize * 7 + b as usize) % 5 == 0 || a.min(b) < 3 || a.max(b) > 252 {
                s.at(|| gen(ImgCfg { fmt, height: 1, xdim: 1, rot: 0, fg: [10, 20, 30, a], bg: [40, 50, 60, b] }, &m));
                s.at(|| gen(ImgCfg { fmt, height: 1, xdim: 1, rot: 0, fg: [10, 20, 30, a], bg: [10, 20, 30, b] }, &m));
            }
        }
    }
    // Long and tall.
    let top = match fmt {
        Fmt::Gif => 65535usize,
        Fmt::Webp => 16384,
        _ => 70_000,
    };
    for n in [1000usize, 4096, 8192, 16383, 16384, 32768, 65535, 65536, 70_000] {
        if n > top {
            continue;
        }
        let m: Vec<u8> = (0..n).map(|i| (i % 3 == 0) as u8).collect();
        for rot in 0..4 {
            s.at(|| gen(ImgCfg { fmt, height: 1, xdim: 1, rot, fg: BW.0, bg: BW.1 }, &m));
            s.at(|| gen(ImgCfg { fmt, height: 3, xdim: 1, rot, fg: [9, 8, 7, 255], bg: [1, 2, 3, 0] }, &m));
            s.at(|| gen(ImgCfg { fmt, height: n as u32, xdim: 1, rot, fg: BW.0, bg: BW.1 }, &[1, 0, 1]));
            s.at(|| gen(ImgCfg { fmt, height: 2, xdim: n as u32 / 4, rot, fg: BW.0, bg: BW.1 }, &[1, 0, 1, 0]));
        }
    }
}

fn image_sizes(s: &mut Sw, deep: bool) {
    if !cfg!(feature = "image") || cfg!(miri) {
        return;
    }
    let big = [u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 29, (u32::MAX / 95) + 1, u32::MAX / 95, u32::MAX / 3, u32::MAX / 3 + 1];
    let small = [0u32, 1, 2, 3];
    let edge = [16383u32, 16384, 16385, 65534, 65535, 65536, 65537];
    for fmt in Fmt::ALL {
        for rot in 0..4 {
            let mut go = |n: usize, xdim: u32, height: u32| {
                let cfg = ImgCfg { fmt, height, xdim, rot, fg: [0, 0, 0, 255], bg: [255; 4] };
                s.at(|| Case::ImgSize { cfg, n });
            };
            for n in [0usize, 1, 2, 3, 5, 95] {
                for &x in small.iter().chain(&big) {
                    for &h in small.iter().chain(&big) {
                        go(n, x, h);
                    }
                }
                for &e in &edge {
                    go(n, e, 1);
                    go(n, 1, e);
                    go(n, e, 0);
                    go(n, 0, e);
                    if n > 0 {
                        go(n, e / n as u32, 1);
                        go(n, e / n as u32 + 1, 2);
                    }
                    for &h in &big {
                        go(n, e, h);
                        go(n, h, e);
                    }
                }
            }
            // Large pictures, of few and of many modules.
            if rot < 2 {
                let most = if fmt == Fmt::Buffer { 1u32 << 25 } else { 1 << 23 };
                for side in [1u32, 100, 2048, 5000, 16_384, 65_535] {
                    go(1, most / side, side);
                    go(95, most / side / 95, side);
                    if side > 100 {
                        go(side as usize, 1, most / side);
                    }
                }
            }
            for &e in &edge {
                go(e as usize, 1, 1);
                if deep {
                    go(e as usize, 1, 7);
                    go(e as usize, 2, 1);
                }
                for &h in &big {
                    go(e as usize, h, 1);
                }
            }
        }
    }
}

fn svgs(s: &mut Sw, prop: &str, deep: bool) {
    let gen = |c: SvgCfg, m: &[u8]| Case::Gen { out: Out::Svg(c), mods: m.to_vec() };
    let cfg = |height, xdim, (fg, bg): (Rgba, Rgba)| SvgCfg { height, xdim, fg, bg, xmlns: None };
    let m5 = [1u8, 0, 1, 1, 0];
    let tiny = cfg!(miri);
    // Every pattern of up to twelve modules.
    for n in 0..=if tiny { 3 } else if deep { 16 } else { 12u32 } {
        for v in 0..1u32 << n {
            let m: Vec<u8> = (0..n).map(|i| (v >> i & 1) as u8).collect();
            s.at(|| gen(cfg(3, 1 + v % 3, BW), &m));
        }
    }
    // Every module count.
    for n in (0..if tiny { 4 } else { 1500usize }).chain([4095, 4096, 10_000, 65_535, 65_536, 65_537, 70_000, 131_072]) {
        if tiny && n > 10 {
            continue;
        }
        for t in 0..2 {
            s.at(|| gen(cfg(1, 1 + n as u32 % 4, BW), &(0..n).map(|i| (i % (3 + t) == 0) as u8).collect::<Vec<_>>()));
        }
    }
    // Sizes.
    let mut sizes: Vec<u32> = (0..if tiny { 12 } else { 300 }).collect();
    for p in 8..32 {
        for d in [-1i64, 0, 1] {
            sizes.push(((1i64 << p) + d) as u32);
        }
    }
    for p in 1..10 {
        for d in [-1i64, 0, 1] {
            sizes.push((10i64.pow(p) + d) as u32);
        }
    }
    sizes.extend([u32::MAX, u32::MAX - 1]);
    for &a in &sizes {
        for b in [0u32, 1, 3, 80, u32::MAX] {
            s.at(|| gen(cfg(a, b, BW), &m5));
            s.at(|| gen(cfg(b, a, BW), &m5));
        }
        s.at(|| gen(cfg(7, a, BW), &[vec![0; 90], vec![1; 5]].concat()));
    }
    if tiny {
        return;
    }
    // Every value of every channel, every alpha pair.
    for v in 0..=255u8 {
        for i in 0..4 {
            for base in [0u8, 255, 16] {
                let mut c = [base, base, base, 255];
                c[i] = v;
                s.at(|| gen(cfg(5, 2, (c, BW.1)), &m5));
                s.at(|| gen(cfg(5, 2, (BW.0, c)), &m5));
            }
        }
        for w in 0..=255u8 {
            s.at(|| gen(cfg(5, 2, ([1, 2, 3, v], [4, 5, 6, w])), &m5));
            if prop == "C17" {
                s.at(|| gen(cfg(5, 2, ([v, w, 3, 255], [w, 5, v, 255])), &m5));
            }
        }
    }
    // Namespaces of every length, with something to escape at either end or nowhere.
    let mut lens: Vec<usize> = (0..if prop == "C18" { 1500 } else { 100 }).collect();
    for p in 6..17 {
        lens.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
    }
    lens.extend([999, 1000, 1001, 2000, 2083, 2084, 5000, 10_000, 20_000, 100_000, if deep { 5_000_000 } else { 1_000_000 }]);
    lens.extend(gen::dict().ints.iter().filter(|&&n| n < 200_000).flat_map(|&n| [n as usize, n as usize + 1]));
    for n in lens {
        for (c, first, last) in [("u", "", ""), ("u", "&", ""), ("u", "", "\""), ("u", "<", ">"), ("\u{E9}", "", ""), ("\u{1F600}", "", "&"), ("&", "", ""), ("&lt;", "", "")] {
            if n > 2000 && c.len() + n % 3 > 4 && !deep {
                continue;
            }
            let mut k = cfg(5, 2, BW);
            let mut x = first.to_string();
            while x.len() + last.len() + c.len() <= n {
                x += c;
            }
            k.xmlns = Some(x + last);
            s.at(|| gen(k, &[1, 0]));
        }
    }
    if prop == "C18" {
        // Every printable character, alone and between others.
        for u in 0..0x110000u32 {
            if u > 0x3000 && !deep && u % 61 != 0 {
                continue;
            }
            if let Some(c) = char::from_u32(u).filter(|&c| crate::check::printable(c)) {
                let mut k = cfg(5, 2, BW);
                k.xmlns = Some(if u % 2 == 0 || u < 256 { c.to_string() } else { format!("a{}b", c) });
                s.at(|| gen(k, &[1, 0]));
            }
        }
        // Every pair and triple of delicate characters.
        let t = ['&', '<', '>', '"', '\'', ';', '#', 'a', ' ', '/', '=', 'm', 'l', 't'];
        for n in 0..=if deep { 5u32 } else { 4 } {
            for v in 0..(t.len() as u64).pow(n) {
                let mut k = cfg(1, 1, BW);
                k.xmlns = Some((0..n).map(|i| t[(v / (t.len() as u64).pow(i) % t.len() as u64) as usize]).collect());
                s.at(|| gen(k, &[1]));
            }
        }
    }
}

fn asciis(s: &mut Sw, deep: bool) {
    let gen = |height, xdim, m: &[u8]| Case::Gen { out: Out::Ascii { height, xdim }, mods: m.to_vec() };
    let tiny = cfg!(miri);
    for n in 0..=if tiny { 3 } else if deep { 14 } else { 10u32 } {
        for v in 0..1u32 << n {
            let m: Vec<u8> = (0..n).map(|i| (v >> i & 1) as u8).collect();
            for h in 0..4 {
                for x in 0..4 {
                    s.at(|| gen(h, x, &m));
                }
            }
        }
    }
    for m in patterns() {
        for h in 0..if tiny { 3 } else { 40 } {
            for x in 0..if tiny { 3 } else { 24 } {
                s.at(|| gen(h, x, &m));
            }
        }
    }
    if tiny {
        return;
    }
    for x in [100_000usize, 10_000_000] {
        s.at(|| gen(0, x, &[1, 0, 1]));
        s.at(|| gen(0, x, &[]));
    }
    for n in 0..1200usize {
        s.at(|| gen(2, 1, &(0..n).map(|i| (i % 3 == 0) as u8).collect::<Vec<_>>()));
    }
    for e in [63usize, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 10_000, 65_535, 65_536, 65_537, 100_000] {
        s.at(|| gen(e, 1, &[1, 0, 1]));
        s.at(|| gen(e, 0, &[1, 0, 1]));
        s.at(|| gen(e, 3, &[]));
        s.at(|| gen(2, e, &[1, 0, 1]));
        s.at(|| gen(0, e, &[1, 0, 1]));
        s.at(|| gen(1, 2, &(0..e).map(|i| (i % 7 < 3) as u8).collect::<Vec<_>>()));
    }
}

fn jsons(s: &mut Sw, deep: bool) {
    let gen = |height, xdim, m: &[u8]| Case::Gen { out: Out::Json { height, xdim }, mods: m.to_vec() };
    let tiny = cfg!(miri);
    for n in 0..=if tiny { 3 } else if deep { 16 } else { 13u32 } {
        for v in 0..1u32 << n {
            let m: Vec<u8> = (0..n).map(|i| (v >> i & 1) as u8).collect();
            s.at(|| gen(10, 1, &m));
        }
    }
    let mut sizes: Vec<usize> = (0..if tiny { 5 } else { 1100 }).collect();
    for p in 8..usize::BITS {
        sizes.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
    }
    let mut t = 10usize;
    while let Some(n) = t.checked_mul(10) {
        sizes.extend([t - 1, t, t + 1]);
        t = n;
    }
    sizes.extend([t - 1, t, t + 1, usize::MAX, usize::MAX - 1]);
    for &a in &sizes {
        for b in [0usize, 1, 10, usize::MAX] {
            s.at(|| gen(a, b, &[1, 0]));
            s.at(|| gen(b, a, &[]));
        }
    }
    if tiny {
        return;
    }
    for n in (0..1500usize).chain([4096, 10_000, 32_768, 65_535, 65_536, 65_537, 200_000]) {
        for k in 2..5 {
            s.at(|| gen(1, 2, &(0..n).map(|i| (i % k == 0) as u8).collect::<Vec<_>>()));
        }
    }
}

/// Public variants, fields, tables; all types of arguments.
fn public(s: &mut Sw, deep: bool, src: &mut Src) {
    let tiny = cfg!(miri);
    s.at(|| Case::Tables);
    // All supplements and all short numbers.
    for v in 0..100_000usize {
        if tiny && v % 9973 != 0 {
            continue;
        }
        s.at(|| Case::Direct { variant: 3, digits: format!("{:05}", v), next: format!("{:05}", (v * 7 + 3) % 100_000) });
        if v < 10_000 {
            s.at(|| Case::Direct { variant: 2, digits: format!("{:02}", v / 100), next: format!("{:02}", v % 100) });
            for variant in [0, 1] {
                s.at(|| Case::Direct { variant, digits: v.to_string(), next: format!("{:04}", (v * 31) % 10_000) });
                s.at(|| Case::Direct { variant, digits: format!("{:04}", v), next: (v / 3).to_string() });
            }
        }
    }
    // One digit changed, two exchanged, at every place.
    for n in [2usize, 4, 5, 6, 10, 30, 64, 256] {
        let d: Vec<u8> = (0..n).map(|i| b'0' + (i * 7 % 10) as u8).collect();
        for i in 0..if tiny { 1 } else { n } {
            for j in [0, 1, n / 2, n - 2, n - 1, (i + 1) % n] {
                let mut e = d.clone();
                e.swap(i, j);
                if i == j {
                    e[i] = b'0' + (e[i] - b'0' + 1) % 10;
                }
                for variant in 0..4 {
                    s.at(|| Case::Direct { variant, digits: String::from_utf8(d.clone()).unwrap(), next: String::from_utf8(e.clone()).unwrap() });
                }
            }
        }
    }
    for n in 1..if tiny { 4 } else { 257usize } {
        for k in 0..if deep { 60 } else { 12usize } {
            let d: String = (0..n).map(|i| (b'0' + ((i * (k + 1) + k * k) % 10) as u8) as char).collect();
            for variant in [0, 1] {
                s.at(|| Case::Direct { variant, digits: d.clone(), next: "80".repeat(1 + k * 20 % 128) });
            }
        }
    }
    for sym in Sym::ALL {
        let a = alphabet(sym);
        for n in 0..if tiny { 3 } else { 260usize } {
            for k in [1, 3, 7] {
                s.at(|| Case::Types { sym, data: (0..n).map(|i| a[(i * k + n) % a.len()]).collect() });
            }
        }
        for _ in 0..if tiny { 2 } else if deep { 20_000 } else { 3000 } {
            let d = if src.chance(3, 4) { gen::valid(src, sym, 256) } else { gen::arbitrary(src, sym) };
            s.at(|| Case::Types { sym, data: d });
        }
    }
    let pats = patterns();
    for (k, m) in pats.iter().enumerate() {
        for n in [0, 1, 3, 95, m.len()] {
            let mods: Vec<u8> = m.iter().copied().cycle().take(n).collect();
            for i in 0..if deep { 60 } else { 12 } {
                let out = if i % 3 == 0 { Out::Svg(gen::svg_cfg_printable(src)) } else { gen::small_out(src, cfg!(feature = "image") && !tiny && k % 2 == 0) };
                let then = gen::tweak(src, &out);
                s.at(|| Case::GenTypes { out, then, mods: mods.clone() });
            }
        }
    }
    // Every field on its own, and all of them.
    let c = |i: u8| [i.wrapping_mul(37), 200 - i, i, if i % 3 == 0 { 255 } else { i * 9 }];
    for v in 0..32u8 {
        let b = |i: u8| (v >> i & 1) as u32;
        let mods = vec![1u8, 0, 1, 1, 0, 0, 1];
        let svg = |f: [u32; 5]| {
            Out::Svg(SvgCfg { height: 3 + f[0], xdim: 1 + f[1], fg: c(f[2] as u8), bg: c(9 + f[3] as u8), xmlns: if f[4] == 1 { Some("urn:a".into()) } else { None } })
        };
        s.at(|| Case::GenTypes { out: svg([0; 5]), then: svg([b(0), b(1), b(2), b(3), b(4)]), mods: mods.clone() });
        s.at(|| Case::GenTypes { out: svg([b(0), b(1), b(2), b(3), b(4)]), then: svg([1; 5]), mods: mods.clone() });
        if cfg!(feature = "image") && !tiny {
            for fmt in Fmt::ALL {
                let img = |f: [u32; 5]| Out::Img(ImgCfg { fmt, height: 2 + f[0], xdim: 1 + f[1], rot: f[2] as u8, fg: c(f[3] as u8), bg: c(9 + f[4] as u8) });
                s.at(|| Case::GenTypes { out: img([0; 5]), then: img([b(0), b(1), b(2), b(3), b(4)]), mods: mods.clone() });
                s.at(|| Case::GenTypes { out: img([b(0), b(1), b(2), b(3), b(4)]), then: img([1; 5]), mods: mods.clone() });
            }
        }
    }
}

fn shorthands(s: &mut Sw, deep: bool, src: &mut Src) {
    let tiny = cfg!(miri);
    let kinds = if cfg!(feature = "image") && !tiny { 14u8 } else { 6 };
    let pats = patterns();
    for which in 0..kinds {
        let mut heights: Vec<u32> = (0..if tiny { 3 } else { 300 }).collect();
        heights.extend([511, 512, 513, 1000, 1023, 1024, 4096, 16_384, 16_385, 65_535, 65_536]);
        if which < 6 {
            heights.extend([100_000, 1 << 24, 1 << 31, u32::MAX]);
        }
        for h in heights {
            for (k, m) in pats.iter().enumerate() {
                if !deep && k != h as usize % pats.len() && k > 2 {
                    continue;
                }
                s.at(|| Case::Short { which, height: h, mods: m.clone() });
            }
        }
        for n in 0..=if tiny { 2 } else { 9u32 } {
            for v in 0..1u32 << n {
                s.at(|| Case::Short { which, height: 2, mods: (0..n).map(|i| (v >> i & 1) as u8).collect() });
            }
        }
        s.at(|| Case::Short { which, height: 3, mods: vec![] });
    }
    // All builder call sequences of up to five calls.
    for n in 0..=if tiny { 2 } else if deep { 6 } else { 5u32 } {
        for v in 0..4u32.pow(n) {
            for k in 0..2 {
                let ops: Vec<SvgOp> = (0..n)
                    .map(|i| match v / 4u32.pow(i) % 4 {
                        0 => SvgOp::Xdim(src.range(0, 9) as u32),
                        1 => SvgOp::Fg(gen::colour(src)),
                        2 => SvgOp::Bg(gen::colour(src)),
                        _ => SvgOp::Xmlns(if k == 0 { "http://www.w3.org/2000/svg".into() } else { gen::namespace(src) }),
                    })
                    .collect();
                s.at(|| Case::Build { height: 4 + n, ops, mods: vec![1, 0, 1, 1] });
            }
        }
    }
    for sym in [Sym::Jan, Sym::Bookland, Sym::Usd8, Sym::Code39Chk] {
        let a = alphabet(sym);
        for n in 0..=if tiny { 13 } else { 260usize } {
            for &c in a.iter().take(if tiny { 1 } else { 44 }) {
                s.at(|| Case::Alias { sym, data: c.to_string().repeat(n) });
            }
            for st in [1, 3, 7] {
                s.at(|| Case::Alias { sym, data: (0..n).map(|i| a[(i * st + n) % a.len()]).collect() });
            }
        }
        for _ in 0..if tiny { 3 } else { 20_000 } {
            let d = if src.chance(3, 4) { gen::valid(src, sym, 256) } else { gen::arbitrary(src, sym) };
            s.at(|| Case::Alias { sym, data: d });
        }
    }
}
