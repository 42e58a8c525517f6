//! Generators of cases, from seeded choices or from fuzzer bytes.

use crate::case::{Case, Out, SvgOp};
use crate::jsn::J;
use crate::rng::Src;
use crate::spec::{self, *};
use bcsut::{Fmt, ImgCfg, Rgba, SvgCfg, Sym};
use std::sync::OnceLock;

/// Literals found in the source under test: workload only, never an oracle.
/// `new`: those the committed lib/literals.json does not list, so that they are tried more often.
#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub chars: Vec<char>,
    pub new_ints: Vec<u64>,
    pub new_strs: Vec<String>,
    pub new_chars: Vec<char>,
}

impl Dict {
    pub fn from_j(j: &J) -> Dict {
        let arr = |k: &str| j.get(k).and_then(|a| a.arr()).map(|a| a.to_vec()).unwrap_or_default();
        let ints = |k: &str| arr(k).iter().filter_map(|v| v.u64()).collect();
        let strs = |k: &str| arr(k).iter().filter_map(|v| v.str().map(|s| s.to_string())).collect();
        let chars = |k: &str| arr(k).iter().filter_map(|v| v.str().and_then(|s| s.chars().next())).collect();
        Dict {
            ints: ints("ints"),
            strs: strs("strs"),
            chars: chars("chars"),
            new_ints: ints("new_ints"),
            new_strs: strs("new_strs"),
            new_chars: chars("new_chars"),
        }
    }
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn set_dict(d: Dict) {
    let _ = DICT.set(d);
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

/// One of the literals, half the time a new one.
fn literal<'a, T>(src: &mut Src, all: &'a [T], new: &'a [T]) -> Option<&'a T> {
    if !new.is_empty() && src.chance(1, 2) {
        return Some(src.pick(new));
    }
    if all.is_empty() {
        return None;
    }
    Some(src.pick(all))
}

fn dict_int(src: &mut Src, max: u64) -> Option<u64> {
    literal(src, &dict().ints, &dict().new_ints).copied().filter(|&v| v <= max)
}

fn dict_str(src: &mut Src) -> Option<String> {
    literal(src, &dict().strs, &dict().new_strs).cloned()
}

fn dict_char(src: &mut Src) -> Option<char> {
    literal(src, &dict().chars, &dict().new_chars).copied()
}

/// More often when there are new literals.
fn use_dict(src: &mut Src) -> bool {
    let d = dict();
    let new = !(d.new_ints.is_empty() && d.new_strs.is_empty() && d.new_chars.is_empty());
    src.chance(if new { 6 } else { 1 }, 24)
}

/// Writes a literal, as far as the alphabet has its characters, over a part of the text.
fn overlay(src: &mut Src, s: &mut String, ok: &dyn Fn(char) -> bool) {
    let t: Vec<char> = match src.below(4) {
        0 => dict_int(src, u64::MAX).map(|n| n.to_string().chars().collect()),
        1 => dict_char(src).map(|c| vec![c]),
        2 => dict_int(src, 256).and_then(|n| dict_char(src).map(|c| vec![c; n as usize])),
        _ => dict_str(src).map(|s| s.chars().collect()),
    }
    .unwrap_or_default();
    let t: Vec<char> = t.into_iter().filter(|&c| ok(c)).collect();
    let mut c: Vec<char> = s.chars().collect();
    if t.is_empty() || c.len() < t.len() {
        return;
    }
    let at = match src.below(4) {
        0 | 1 => 0,
        2 => c.len() - t.len(),
        _ => src.below(c.len() - t.len() + 1),
    };
    c[at..at + t.len()].copy_from_slice(&t);
    *s = c.into_iter().collect();
}

const LENGTHS: [usize; 30] = [
    1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 14, 15, 16, 19, 20, 21, 31, 32, 33, 46, 47, 63, 64, 65, 127, 128, 129, 254, 255, 256,
];

fn length(src: &mut Src, max: usize) -> usize {
    let n = match src.below(16) {
        0..=8 => src.range(1, 14),
        9..=11 => *src.pick(&LENGTHS),
        12 => dict_int(src, 300).unwrap_or(1) as usize,
        13 if !dict().new_ints.is_empty() => dict_int(src, 300).unwrap_or(1) as usize,
        13 => src.range(1, 256),
        _ => src.range(1, 48),
    };
    n.clamp(1, max)
}

/// A string of a fixed alphabet, in one of several textures.
fn text(src: &mut Src, alphabet: &[char], n: usize) -> String {
    let k = alphabet.len();
    match src.below(18) {
        // Repeated, mirrored, mirrored in the alphabet, sorted, of few characters, all different.
        5 => {
            let p = src.range(2, (n / 2).clamp(2, 40));
            let unit: Vec<char> = (0..p).map(|_| *src.pick(alphabet)).collect();
            (0..n).map(|i| unit[i % p]).collect()
        }
        6 => {
            let half: Vec<char> = (0..n.div_ceil(2)).map(|_| *src.pick(alphabet)).collect();
            (0..n).map(|i| half[i.min(n - 1 - i)]).collect()
        }
        7 => {
            let half: Vec<usize> = (0..n / 2).map(|_| src.below(k)).collect();
            let back = src.chance(1, 2);
            let mut s: String = half.iter().map(|&i| alphabet[i]).collect();
            if n % 2 == 1 {
                s.push(*src.pick(alphabet));
            }
            s.extend((0..n / 2).map(|i| alphabet[k - 1 - half[if back { n / 2 - 1 - i } else { i }]]));
            s
        }
        8 => {
            let mut v: Vec<usize> = (0..n).map(|_| src.below(k)).collect();
            v.sort();
            if src.chance(1, 2) {
                v.reverse();
            }
            v.into_iter().map(|i| alphabet[i]).collect()
        }
        9 => {
            let few: Vec<char> = (0..src.range(2, 4)).map(|_| *src.pick(alphabet)).collect();
            (0..n).map(|_| *src.pick(&few)).collect()
        }
        10 => {
            let mut v: Vec<char> = vec![];
            while v.len() < n {
                let mut a = alphabet.to_vec();
                for i in (1..k).rev() {
                    a.swap(i, src.below(i + 1));
                }
                v.extend(a);
            }
            v.into_iter().take(n).collect()
        }
        0 => {
            let c = *src.pick(alphabet);
            std::iter::repeat(c).take(n).collect()
        }
        1 => {
            let (a, b) = (*src.pick(alphabet), *src.pick(alphabet));
            (0..n).map(|i| if i % 2 == 0 { a } else { b }).collect()
        }
        2 => {
            let s = src.below(k);
            (0..n).map(|i| alphabet[(s + i) % k]).collect()
        }
        // One odd character out.
        3 => {
            let (a, b, p) = (*src.pick(alphabet), *src.pick(alphabet), src.below(n));
            (0..n).map(|i| if i == p { b } else { a }).collect()
        }
        4 => {
            // Runs.
            let mut s = String::new();
            let mut left = n;
            while left > 0 {
                let r = src.range(1, left.min(9));
                let c = *src.pick(alphabet);
                s.extend(std::iter::repeat(c).take(r));
                left -= r;
            }
            s
        }
        _ => (0..n).map(|_| *src.pick(alphabet)).collect(),
    }
}

pub fn alphabet(sym: Sym) -> Vec<char> {
    spec::alphabet(sym).chars().collect()
}

/// An accepted string.
pub fn valid(src: &mut Src, sym: Sym, max: usize) -> String {
    let a = alphabet(sym);
    if sym == Sym::Code128 {
        return valid128(src, max);
    }
    let literal = use_dict(src);
    if literal && src.chance(1, 3) {
        if let Some(s) = dict_str(src) {
            if spec::admit(sym, &s) == Admit::Accept && s.chars().count() <= max {
                return s;
            }
        }
    }
    let part = |src: &mut Src, mut s: String, a: &[char]| {
        if literal {
            overlay(src, &mut s, &|c| a.contains(&c));
        }
        s
    };
    match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland | Sym::Upca | Sym::Ean8 => {
            let p = payload_len(sym).unwrap();
            let s = text(src, &a, p);
            let mut s = part(src, s, &a);
            if src.chance(1, 2) {
                let d: Vec<u8> = s.bytes().map(|b| b - b'0').collect();
                s.push((b'0' + mod10(&d)) as char);
            }
            s
        }
        Sym::Supp => {
            let n = if src.chance(1, 3) { 2 } else { 5 };
            let s = text(src, &a, n);
            part(src, s, &a)
        }
        Sym::Codabar if src.chance(1, 2) => {
            let n = length(src, max.saturating_sub(2).max(1));
            let mut s = String::new();
            s.push(*src.pick(&a[16..]));
            let t = text(src, &a[..16], n);
            s.push_str(&part(src, t, &a[..16]));
            s.push(*src.pick(&a[16..]));
            s
        }
        _ => {
            let n = length(src, max.min(256));
            let s = text(src, &a, n);
            part(src, s, &a)
        }
    }
}

pub const SELS: [char; 3] = [SEL_A, SEL_B, SEL_C];

fn valid128(src: &mut Src, max: usize) -> String {
    let mut set = *src.pick(&SELS);
    let mut s = String::new();
    s.push(set);
    let n = length(src, max.max(2) - 1);
    let switchy = src.below(4);
    let mut k = 0;
    let literal = use_dict(src);
    while k < n {
        if literal && src.chance(1, 4) {
            // A part of a literal, or a run of its length.
            let t: Vec<char> = match src.below(3) {
                0 => dict_str(src).map(|s| s.chars().collect()),
                1 => dict_char(src).map(|c| vec![c]),
                _ => {
                    let c = if set == SEL_C { (b'0' + src.below(10) as u8) as char } else { (b' ' + src.below(64) as u8) as char };
                    dict_int(src, max as u64).map(|n| vec![c; n as usize])
                }
            }
            .unwrap_or_default();
            let ok = |c: char| match set {
                SEL_A => (c as u32) < 96 || [FNC1, FNC2, FNC3, FNC4, SHIFT].contains(&c),
                SEL_B => (32..128).contains(&(c as u32)) || [FNC1, FNC2, FNC3, FNC4, SHIFT].contains(&c),
                _ => c.is_ascii_digit(),
            };
            let mut t: Vec<char> = t.into_iter().filter(|&c| ok(c)).take(max.saturating_sub(k)).collect();
            if set == SEL_C && t.len() % 2 == 1 {
                t.pop();
            }
            k += t.len().max(1);
            s.extend(t);
            continue;
        }
        if src.chance([1, 1, 2, 6][switchy], 12) {
            let to = *src.pick(&SELS);
            if to != set {
                set = to;
                s.push(set);
                k += 1;
            }
            continue;
        }
        match set {
            SEL_A => s.push(match src.below(14) {
                0 => *src.pick(&[FNC1, FNC2, FNC3, FNC4, SHIFT]),
                1..=4 => src.below(32) as u8 as char,
                _ => src.below(96) as u8 as char,
            }),
            SEL_B => s.push(match src.below(14) {
                0 => *src.pick(&[FNC1, FNC2, FNC3, FNC4, SHIFT]),
                1 => *src.pick(&['\u{7F}', DEL_ALT, '~', ' ', '}', '`']),
                _ => (32 + src.below(96) as u8) as char,
            }),
            _ => {
                if src.chance(1, 10) {
                    s.push(FNC1);
                } else {
                    let v = src.below(100);
                    s.push((b'0' + (v / 10) as u8) as char);
                    s.push((b'0' + (v % 10) as u8) as char);
                    k += 1;
                }
            }
        }
        k += 1;
    }
    if s.chars().count() < 2 {
        s.push_str(if set == SEL_C { "42" } else { "4" });
    }
    s
}

/// Characters that look like ones of an alphabet.
const LOOKALIKES: [char; 46] = [
    'a', 'z', 'b', 'd', '_', '*', '(', ')', '[', ']', '+', '%', '/', '$', '.', ':', '-', ',', ';', '\'', '"', '&', '#', '@',
    '!', '?', '=', '<', '\0', '\n', '\t', '\u{7F}', '\u{80}', '\u{FF}', '\u{660}', '\u{FF11}', '\u{966}', '\u{1D7CE}',
    '\u{B2}', '\u{130}', '\u{17F}', '\u{212A}', '\u{1F600}', '\u{131}', '\u{FEFF}', '\u{FFFD}',
];

pub fn any_char(src: &mut Src) -> char {
    match src.below(10) {
        0..=2 => *src.pick(&LOOKALIKES),
        3..=4 => src.below(128) as u8 as char,
        5 => char::from_u32(src.below(0x250) as u32).unwrap(),
        6 => *src.pick(&[SEL_A, SEL_B, SEL_C, FNC1, FNC2, FNC3, FNC4, SHIFT, DEL_ALT]),
        7 if !dict().chars.is_empty() => dict_char(src).unwrap_or('x'),
        // The same low byte as an ASCII character.
        8 => char::from_u32((src.range(1, 0x10) << 8 | src.below(128)) as u32).unwrap_or('x'),
        _ => char::from_u32(src.below(0x110000) as u32).unwrap_or('\u{D7FF}'),
    }
}

/// The same data as people also write them.
pub fn dressed(d: &str) -> Vec<String> {
    let c: Vec<char> = d.chars().collect();
    let mut v = vec![d.to_lowercase(), d.to_uppercase(), d.chars().rev().collect(), d.repeat(2)];
    for (a, b) in [
        ("*", "*"), ("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("\"", "\""), ("'", "'"), ("!", "!"), ("+", "+"), ("-", ""), ("+", ""), ("0x", ""), ("#", ""),
        (" ", ""), ("", " "), (" ", " "), ("", "\n"), ("", "\r\n"), ("\t", ""), ("", "\0"), ("\0", ""), ("\u{FEFF}", ""), ("\u{A0}", ""), ("", "\u{200B}"),
        ("]E0", ""), ("]C1", ""), ("ISBN ", ""), ("ISBN", ""), ("EAN", ""), ("01", ""), ("(01)", ""), ("A", "B"), ("A", "A"), ("a", "t"), ("a", "b"), ("B", "N"),
        ("C", "*"), ("D", "E"), ("S", ""), ("", "X"), ("", "x"), ("", "."), ("", ","), (".", ""), ("", "e0"), ("", ".0"), ("", "-0"), ("", "\u{301}"), ("%", "%"), ("$", ""), ("/", ""),
    ] {
        v.push(format!("{}{}{}", a, d, b));
        // In place of characters, so that the length stays right.
        let (m, n) = (a.chars().count(), b.chars().count());
        if m + n <= c.len() {
            v.push(a.chars().chain(c[m..c.len() - n].iter().copied()).chain(b.chars()).collect());
        }
    }
    for sep in ['-', ' ', '.', ',', '_', '\'', '\u{A0}', '\u{2009}', '\t', '\n', '\0'] {
        for every in [1usize, 2, 3, 4, 6] {
            let with: Vec<char> = c.iter().enumerate().flat_map(|(i, &x)| if i > 0 && i % every == 0 { vec![sep, x] } else { vec![x] }).collect();
            if with.len() > c.len() {
                v.push(with.iter().collect());
                v.push(with[..c.len()].iter().collect());
                if !with[..c.len().max(1)].is_empty() {
                    // The same number of characters, ending in one of the alphabet.
                    let mut w = with[..c.len()].to_vec();
                    let l = w.len() - 1;
                    w[l] = c[0];
                    v.push(w.into_iter().collect());
                }
            }
        }
    }
    // Other digits and letters.
    for base in [0x660u32, 0x6F0, 0x966, 0xFF10, 0x1D7CE] {
        v.push(c.iter().map(|x| x.to_digit(10).and_then(|n| char::from_u32(base + n)).unwrap_or(*x)).collect());
        for p in [0, c.len() / 2, c.len() - 1] {
            v.push(c.iter().enumerate().map(|(i, x)| if i == p { x.to_digit(10).and_then(|n| char::from_u32(base + n)).unwrap_or(*x) } else { *x }).collect());
        }
    }
    v.push(c.iter().map(|x| if x.is_ascii_graphic() { char::from_u32(*x as u32 + 0xFEE0).unwrap() } else { *x }).collect());
    v.push(c.iter().map(|x| if *x == '0' { 'O' } else if *x == '1' { 'l' } else { *x }).collect());
    v
}

/// Any string: mutated, foreign, random.
pub fn arbitrary(src: &mut Src, sym: Sym) -> String {
    match src.below(14) {
        13 => {
            // Long, of characters of several bytes; perhaps some of them of the alphabet.
            let a = alphabet(sym);
            let unit: Vec<char> = (0..src.range(1, 4)).map(|_| if src.chance(1, 3) { *src.pick(&a) } else { any_char(src) }).collect();
            let n = match src.below(4) {
                0 => dict_int(src, 5000).unwrap_or(100) as usize,
                1 => 1 << src.range(5, 12),
                _ => src.range(20, 3000),
            };
            let mut s: String = (0..src.below(5)).map(|_| a[0]).collect();
            let half: String = unit.iter().cycle().take(n / 2).collect();
            s.push_str(&half);
            match src.below(3) {
                0 => s.push_str(&half),
                1 => s.extend(half.chars().rev()),
                _ => s.extend(std::iter::repeat(*src.pick(&a)).take(n / 2)),
            }
            s
        }
        12 => {
            let d = valid(src, sym, 60);
            let v = dressed(&d);
            let s = src.pick(&v).clone();
            // And one character more or less changed.
            if src.chance(1, 3) && !s.is_empty() {
                let mut c: Vec<char> = s.chars().collect();
                let i = src.below(c.len());
                c[i] = any_char(src);
                return c.into_iter().collect();
            }
            s
        }
        0..=4 => {
            // A valid string, damaged.
            let mut c: Vec<char> = valid(src, sym, 300).chars().collect();
            for _ in 0..src.range(1, 3) {
                let i = src.below(c.len() + 1);
                match src.below(7) {
                    0 if !c.is_empty() => {
                        c.remove(i % c.len());
                    }
                    1 => c.insert(i, any_char(src)),
                    2 if !c.is_empty() => {
                        let k = i % c.len();
                        c[k] = any_char(src);
                    }
                    3 => {
                        let a = alphabet(sym);
                        c.insert(i, *src.pick(&a));
                    }
                    4 if !c.is_empty() => {
                        let k = i % c.len();
                        let (l, u) = (c[k].to_ascii_lowercase(), c[k].to_ascii_uppercase());
                        c[k] = if l == c[k] { u } else { l };
                    }
                    5 => c.insert(i, *src.pick(&SELS)),
                    _ => c.truncate(i),
                }
            }
            c.into_iter().collect()
        }
        5..=6 => {
            let other = *src.pick(&Sym::ALL);
            valid(src, other, 300)
        }
        7 => {
            // Any length in the alphabet.
            let a = alphabet(sym);
            let n = match src.below(6) {
                0 => src.range(0, 20),
                1 => src.range(250, 270),
                2 => 65536 + src.range(0, 14),
                3 => dict_int(src, 70_000).unwrap_or(0) as usize,
                _ => src.range(0, 600),
            };
            text(src, &a, n.max(1)).chars().take(n).collect()
        }
        8 if !dict().strs.is_empty() => dict_str(src).unwrap_or_default(),
        9 => {
            // Code 128 tokens in any order.
            let n = src.range(1, 10);
            let mut s = String::new();
            if src.chance(3, 4) {
                s.push(*src.pick(&SELS));
            }
            for _ in 0..n {
                s.push(*src.pick(&[SEL_A, SEL_B, SEL_C, '0', '1', '9', 'A', 'a', '\u{1}', '\u{7F}', FNC1, FNC2, FNC3, FNC4, SHIFT, DEL_ALT, ' ', '_']));
            }
            s
        }
        _ => {
            let n = src.range(0, 20);
            (0..n).map(|_| any_char(src)).collect()
        }
    }
}

/// A string the symbology must refuse.
pub fn foreign(src: &mut Src, sym: Sym) -> String {
    let mut c: Vec<char> = valid(src, sym, 60).chars().collect();
    let i = src.range(if sym == Sym::Code128 { 1 } else { 0 }, c.len());
    c.insert(i, *src.pick(&['\u{1F600}', '\u{E9}', '\u{660}', '\u{FF11}']));
    c.into_iter().collect()
}

// ------------------------------------------------------------------ modules and settings

pub fn mods(src: &mut Src, max: usize) -> Vec<u8> {
    let n = match src.below(10) {
        0 => src.range(0, 3),
        1..=4 => src.range(1, 40),
        5..=6 => src.range(40, 130),
        7 => *src.pick(&[95, 67, 7, 8, 9, 15, 16, 17, 255, 256, 257, 128, 512]),
        8 => dict_int(src, 2000).unwrap_or(20) as usize,
        _ => src.range(0, 700),
    }
    .min(max);
    match src.below(9) {
        0 => vec![1; n],
        1 => vec![0; n],
        2 => (0..n).map(|i| (i % 2 == 0) as u8).collect(),
        3 => (0..n).map(|i| (i % 2 == 1) as u8).collect(),
        4 => {
            let p = src.below(n.max(1));
            (0..n).map(|i| (i == p) as u8).collect()
        }
        5 => {
            let s = *src.pick(&Sym::ALL);
            let d = valid(src, s, 24);
            let mut m = spec::render(s, &d);
            m.truncate(max);
            m
        }
        6 => {
            // Runs of random length.
            let mut v = vec![];
            let mut b = src.below(2) as u8;
            while v.len() < n {
                let r = src.range(1, 12);
                v.extend(std::iter::repeat(b).take(r));
                b ^= 1;
            }
            v.truncate(n);
            v
        }
        _ => (0..n).map(|_| src.below(2) as u8).collect(),
    }
}

fn channel(src: &mut Src) -> u8 {
    match src.below(4) {
        0 => *src.pick(&[0, 1, 2, 9, 10, 15, 16, 17, 99, 100, 127, 128, 129, 159, 160, 239, 240, 250, 253, 254, 255]),
        1 => dict_int(src, 255).unwrap_or(255) as u8,
        _ => src.byte(),
    }
}

pub fn colour(src: &mut Src) -> Rgba {
    match src.below(9) {
        0 => [0, 0, 0, 255],
        1 => [255, 255, 255, 255],
        8 => match dict_int(src, u32::MAX as u64).unwrap_or(0) as u32 {
            // 0xRRGGBB or 0xRRGGBBAA.
            n if n < 1 << 24 => {
                let b = n.to_be_bytes();
                [b[1], b[2], b[3], if src.chance(1, 2) { 255 } else { channel(src) }]
            }
            n => n.to_be_bytes(),
        },
        2 => [0, 0, 0, channel(src)],
        3 => {
            let c = channel(src);
            [c, c, c, 255]
        }
        4 => [channel(src), channel(src), channel(src), 255],
        5 => [channel(src), channel(src), channel(src), 0],
        _ => [channel(src), channel(src), channel(src), channel(src)],
    }
}

fn colours(src: &mut Src) -> (Rgba, Rgba) {
    let f = colour(src);
    let b = match src.below(8) {
        0 => f,
        1 => {
            // Differ in one channel, perhaps by one.
            let mut b = f;
            let i = src.below(4);
            b[i] = if src.chance(1, 2) { b[i].wrapping_add(1) } else { channel(src) };
            b
        }
        _ => colour(src),
    };
    (f, b)
}

fn edge_u32(src: &mut Src) -> u32 {
    match src.below(8) {
        0 => *src.pick(&[0, 1, 2, 3, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 65537]),
        1 => *src.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, 1 << 24, (1 << 24) + 1, 1_000_000, 999_999_999]),
        2 => dict_int(src, u32::MAX as u64).unwrap_or(7) as u32,
        3 => src.u32(),
        4 => src.u32() >> src.below(32),
        _ => src.range(0, 120) as u32,
    }
}

pub fn edge_usize(src: &mut Src) -> usize {
    match src.below(6) {
        0 => *src.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, u32::MAX as usize]),
        1 => (src.u64() >> src.below(64)) as usize,
        _ => edge_u32(src) as usize,
    }
}

pub fn namespace(src: &mut Src) -> String {
    if src.chance(1, 40) {
        // A long one.
        let a = short_namespace(src);
        let n = if src.chance(1, 3) { dict_int(src, 10_000).unwrap_or(300) as usize } else { src.range(1, 3000) };
        let r = a.repeat(1 + n / a.len().max(1));
        return r.chars().take(n).collect::<String>() + &short_namespace(src);
    }
    short_namespace(src)
}

fn short_namespace(src: &mut Src) -> String {
    match src.below(8) {
        0 => "http://www.w3.org/2000/svg".into(),
        1 => String::new(),
        2 => (*src.pick(&["&", "<", ">", "\"", "'", "&amp;", "&lt;", "&#38;", "]]>", "--", "<!--", "/>", "\" x=\"", "%", "{}", "{0}", "\\", "$1", "&amp;amp;", "é", "\u{1F600}", "=", " ", "  a  ", "#", ";"])).into(),
        3 if !dict().strs.is_empty() => {
            let t = dict_str(src).unwrap_or_default();
            match src.below(6) {
                0 => format!("{}{}", any_char(src), t),
                1 => format!("{}{}", t, any_char(src)),
                2 => t.repeat(2),
                _ => t,
            }
        }
        4 => {
            let n = src.range(1, 12);
            (0..n).map(|_| *src.pick(&['&', '<', '>', '"', '\'', 'a', ';', '#', ' ', '/', 'x', '='])).collect()
        }
        5 => {
            let n = src.range(1, 12);
            (0..n).map(|_| any_char(src)).collect()
        }
        _ => {
            let n = src.range(1, 60);
            (0..n).map(|_| (32 + src.below(95) as u8) as char).collect()
        }
    }
}

pub fn svg_cfg(src: &mut Src) -> SvgCfg {
    let (fg, bg) = colours(src);
    let xmlns = if src.chance(1, 2) { Some(namespace(src)) } else { None };
    SvgCfg { height: edge_u32(src), xdim: edge_u32(src), fg, bg, xmlns }
}

/// An image configuration whose picture of `n` modules stays below `max` pixels.
pub fn img_cfg(src: &mut Src, n: usize, max: usize) -> ImgCfg {
    let (fg, bg) = colours(src);
    let xdim = match src.below(8) {
        0..=4 => src.range(1, 4),
        5 => dict_int(src, 200).unwrap_or(5) as usize,
        _ => src.range(1, 20),
    };
    let mut height = match src.below(8) {
        0..=3 => src.range(1, 8),
        4 => dict_int(src, 400).unwrap_or(1) as usize,
        5 => *src.pick(&[1, 10, 50, 80, 100, 255, 256, 257]),
        _ => src.range(1, 60),
    };
    let mut xdim = xdim.max(1);
    let n = n.max(1);
    if n * xdim > max {
        xdim = (max / n).max(1);
    }
    height = height.clamp(1, (max / (n * xdim)).max(1));
    ImgCfg { fmt: *src.pick(&Fmt::ALL), height: height as u32, xdim: xdim as u32, rot: src.below(4) as u8, fg, bg }
}

/// Output settings of moderate size for histories.
pub fn small_out(src: &mut Src, images: bool) -> Out {
    match src.below(if images { 5 } else { 3 }) {
        0 => Out::Ascii { height: src.range(0, 6), xdim: src.range(0, 4) },
        1 => Out::Json { height: edge_usize(src), xdim: edge_usize(src) },
        2 => Out::Svg(svg_cfg_printable(src)),
        _ => {
            let c = img_cfg(src, 60, 600);
            Out::Img(c)
        }
    }
}

pub fn svg_cfg_printable(src: &mut Src) -> SvgCfg {
    let mut c = svg_cfg(src);
    if let Some(x) = &mut c.xmlns {
        x.retain(crate::check::printable);
    }
    c
}

/// The same settings but for one.
pub fn tweak(src: &mut Src, o: &Out) -> Out {
    let mut o = o.clone();
    let k = src.below(5);
    match &mut o {
        Out::Ascii { height, xdim } => *(if k < 3 { height } else { xdim }) = src.range(0, 5),
        Out::Json { height, xdim } => *(if k < 3 { height } else { xdim }) = src.range(0, 300),
        Out::Svg(c) => match k {
            0 => c.height = edge_u32(src),
            1 => c.xdim = edge_u32(src),
            2 => c.fg = colour(src),
            3 => c.bg = colour(src),
            _ => c.xmlns = if c.xmlns.is_some() { None } else { Some("urn:x".into()) },
        },
        Out::Img(c) => match k {
            0 => c.height = src.range(1, 9) as u32,
            1 => c.xdim = src.range(1, 3) as u32,
            2 => c.fg = colour(src),
            3 => c.bg = colour(src),
            _ => c.rot = (c.rot + 1) % 4,
        },
    }
    o
}

// ------------------------------------------------------------------ one case per property

pub const FIXED: [Sym; 14] = [
    Sym::Ean13, Sym::Jan, Sym::Bookland, Sym::Upca, Sym::Ean8, Sym::Supp, Sym::Itf, Sym::Stf, Sym::Codabar, Sym::Code11, Sym::Usd8,
    Sym::Code39, Sym::Code39Chk, Sym::Code93,
];

fn long_valid(src: &mut Src, sym: Sym) -> String {
    let max = if src.is_fuzz() { 400 } else { 256 };
    if sym == Sym::Code128 && !src.is_fuzz() && src.chance(1, 400) {
        // Long symbols, in one set or switching.
        let unit = valid128(src, 12);
        let mut s = unit.clone();
        let set = s.chars().filter(|c| SELS.contains(c)).last().unwrap();
        let more: Vec<char> = match set {
            SEL_C => "123456789012345678".chars().collect(),
            _ => "AZ09 _%".chars().collect(),
        };
        let n = src.range(500, 20_000) / 2 * 2;
        s.extend((0..n).map(|i| more[i % more.len()]));
        return s;
    }
    valid(src, sym, max)
}

pub fn case(prop: &str, src: &mut Src) -> Case {
    let sym_case = |src: &mut Src, syms: &[Sym]| {
        let sym = *src.pick(syms);
        Case::Sym { sym, data: long_valid(src, sym) }
    };
    let small = if cfg!(miri) { 40 } else { 5000 };
    match prop {
        "C01" => sym_case(src, &[Sym::Ean13, Sym::Ean13, Sym::Ean13, Sym::Upca, Sym::Upca, Sym::Ean8, Sym::Jan, Sym::Bookland]),
        "C02" => {
            let sym = *src.pick(&[Sym::Ean13, Sym::Upca, Sym::Ean8, Sym::Jan, Sym::Bookland]);
            Case::Gate { sym, payload: text(src, &alphabet(sym), payload_len(sym).unwrap()) }
        }
        "C03" => sym_case(src, &[Sym::Supp]),
        "C04" => sym_case(src, &[Sym::Itf]),
        "C05" => sym_case(src, &[Sym::Stf]),
        "C06" => sym_case(src, &[Sym::Codabar]),
        "C07" => sym_case(src, &[Sym::Code11, Sym::Code11, Sym::Usd8]),
        "C08" => {
            if src.chance(1, 4) {
                let n = src.range(1, 8);
                Case::Flags {
                    data: valid(src, Sym::Code39, 60),
                    chk: src.chance(1, 2),
                    ops: (0..n).map(|_| src.below(3) as u8).chain([2]).collect(),
                }
            } else {
                sym_case(src, &[Sym::Code39, Sym::Code39Chk])
            }
        }
        "C09" => sym_case(src, &[Sym::Code93]),
        "C10" => sym_case(src, &[Sym::Code128]),
        "C11" => {
            let data = if src.chance(1, 3) { valid128(src, 40) } else { arbitrary(src, Sym::Code128) };
            Case::Sym { sym: Sym::Code128, data }
        }
        "C12" => {
            let sym = *src.pick(&FIXED);
            let data = if src.chance(1, 4) { valid(src, sym, 256) } else { arbitrary(src, sym) };
            Case::Sym { sym, data }
        }
        "C13" => {
            let sym = *src.pick(&Sym::ALL);
            let data = if src.chance(1, 3) { long_valid(src, sym) } else { arbitrary(src, sym) };
            Case::Sym { sym, data }
        }
        "C14" | "C15" => {
            let big = !src.is_fuzz() && !cfg!(miri) && src.chance(1, 50);
            let m = loop {
                let m = mods(src, if big { 2000 } else { 300 });
                if !m.is_empty() || src.exhausted() {
                    break m;
                }
            };
            let mut c = img_cfg(src, m.len(), if big { 200_000 } else { small });
            c.fmt = if prop == "C15" { Fmt::Gif } else { *src.pick(&[Fmt::Png, Fmt::Webp, Fmt::Buffer]) };
            Case::Gen { out: Out::Img(c), mods: m }
        }
        "C16" => {
            let side = |src: &mut Src| match src.below(6) {
                0 => 0,
                1 => src.range(1, 4) as u32,
                2 => *src.pick(&[16383, 16384, 16385, 65534, 65535, 65536, 65537, 8192, 32768]),
                3 => edge_u32(src),
                4 => *src.pick(&[u32::MAX, 1 << 31, 1 << 30, 1 << 16]),
                _ => src.range(0, 400) as u32,
            };
            let n = match src.below(5) {
                0 => src.range(0, 3),
                1 => *src.pick(&[95, 67, 16384, 16385, 65535, 65536]),
                _ => src.range(0, 200),
            };
            let (fg, bg) = colours(src);
            let cfg = ImgCfg { fmt: *src.pick(&Fmt::ALL), height: side(src), xdim: side(src), rot: src.below(4) as u8, fg, bg };
            Case::ImgSize { cfg, n }
        }
        "C17" | "C18" => {
            let c = if prop == "C17" { svg_cfg_printable(src) } else { svg_cfg(src) };
            Case::Gen { out: Out::Svg(c), mods: mods(src, 700) }
        }
        "C19" => {
            let m = mods(src, 700);
            let xdim = match src.below(10) {
                0 => src.range(0, 200),
                1 => dict_int(src, 2000).unwrap_or(5) as usize,
                _ => src.range(0, 6),
            };
            let height = if src.chance(1, 8) { dict_int(src, 2000).unwrap_or(300) as usize } else { src.range(0, 30) };
            let height = height.min(400_000 / (m.len() * xdim + 1).max(1));
            Case::Gen { out: Out::Ascii { height, xdim }, mods: m }
        }
        "C20" => Case::Gen { out: Out::Json { height: edge_usize(src), xdim: edge_usize(src) }, mods: mods(src, 700) },
        "C21" => Case::Hist { seed: src.u64(), ops: 400 },
        "C24" => match src.below(8) {
            0..=3 => {
                let sym = *src.pick(&Sym::ALL);
                let data = if src.chance(2, 3) { long_valid(src, sym) } else { arbitrary(src, sym) };
                Case::Sym { sym, data }
            }
            4 => case("C19", src),
            5 => case("C20", src),
            6 => case("C18", src),
            _ if cfg!(feature = "image") => {
                let p = *src.pick(&["C14", "C15"]);
                case(p, src)
            }
            _ => case("C17", src),
        },
        "C29" => {
            let p = *src.pick(&["C13", "C13", "C13", "C13", "C10", "C11", "C12", "C02", "C08", "C19", "C20", "C18", "C17", "C26", "C28", "C14", "C15", "C16"]);
            if !cfg!(feature = "image") && matches!(p, "C14" | "C15" | "C16") {
                return case("C18", src);
            }
            case(p, src)
        }
        "C30" => {
            let p = *src.pick(&["C13", "C13", "C12", "C11", "C02", "C28", "C28", "C19", "C20", "C18", "C14", "C15", "C16"]);
            if !cfg!(feature = "image") && matches!(p, "C14" | "C15" | "C16") {
                return case("C18", src);
            }
            case(p, src)
        }
        "C25" => {
            let sym = *src.pick(&Sym::ALL);
            let data = valid(src, sym, 60);
            let n = spec::render(sym, &data).len();
            let out = match src.below(if cfg!(feature = "image") { 7 } else { 3 }) {
                0 => Out::Ascii { height: src.range(1, 5), xdim: src.range(1, 5) },
                1 => Out::Json { height: edge_usize(src), xdim: edge_usize(src) },
                2 => {
                    let mut c = svg_cfg_printable(src);
                    c.xdim = c.xdim.max(1);
                    c.height = c.height.max(1);
                    Out::Svg(c)
                }
                _ => {
                    let mut c = img_cfg(src, n, if cfg!(miri) { 400 } else { 20_000 });
                    if src.chance(1, 2) {
                        // Mostly readable colours.
                        c.fg = [channel(src) / 2, channel(src) / 2, 0, 255];
                        c.bg = [255, 128 + channel(src) / 2, 200, 255];
                    }
                    Out::Img(c)
                }
            };
            Case::E2e { sym, data, out }
        }
        "C26" => match src.below(6) {
            0..=1 => {
                let m = mods(src, 300);
                Case::Short { which: src.below(if cfg!(feature = "image") { 14 } else { 6 }) as u8, height: src.range(0, 300) as u32, mods: m }
            }
            2 => {
                let sym = *src.pick(&[Sym::Jan, Sym::Bookland, Sym::Usd8, Sym::Code39Chk]);
                let data = if src.chance(2, 3) { valid(src, sym, 256) } else { arbitrary(src, sym) };
                Case::Alias { sym, data }
            }
            3 => Case::Short { which: src.range(4, 5) as u8, height: edge_u32(src), mods: mods(src, 300) },
            _ => {
                let n = src.range(0, 7);
                let ops = (0..n)
                    .map(|_| match src.below(4) {
                        0 => SvgOp::Xdim(edge_u32(src)),
                        1 => SvgOp::Fg(colour(src)),
                        2 => SvgOp::Bg(colour(src)),
                        _ => SvgOp::Xmlns(namespace(src)),
                    })
                    .collect();
                Case::Build { height: edge_u32(src), ops, mods: mods(src, 100) }
            }
        },
        "C28" => match src.below(5) {
            0 => {
                let variant = src.below(4) as u8;
                let mut d = |src: &mut Src| {
                    let n = match variant {
                        0 => src.range(1, 256),
                        1 => src.range(1, 128) * 2,
                        2 => 2,
                        _ => 5,
                    };
                    let n = if src.chance(1, 2) { n.min(12) } else { n };
                    text(src, &alphabet(Sym::Stf), n)
                };
                let digits = d(src);
                // Other digits, or the same ones in another order.
                let next = match src.below(3) {
                    0 => d(src),
                    1 => {
                        let mut c: Vec<char> = digits.chars().collect();
                        for _ in 0..src.range(1, 4) {
                            let (i, j) = (src.below(c.len()), src.below(c.len()));
                            c.swap(i, j);
                        }
                        c.into_iter().collect()
                    }
                    _ => {
                        // One digit less here, one more there.
                        let mut c = digits.clone().into_bytes();
                        let (i, j) = (src.below(c.len()), src.below(c.len()));
                        if i != j && c[i] > b'0' && c[j] < b'9' {
                            c[i] -= 1;
                            c[j] += 1;
                        } else {
                            c[i] = b'0' + (c[i] - b'0' + 1) % 10;
                        }
                        String::from_utf8(c).unwrap()
                    }
                };
                Case::Direct { variant, digits, next }
            }
            1..=2 => {
                let sym = *src.pick(&Sym::ALL);
                let data = if src.chance(3, 4) { valid(src, sym, 256) } else { arbitrary(src, sym) };
                Case::Types { sym, data }
            }
            _ => {
                let n = *src.pick(&[0usize, 1, 3, 95, 400, 95]);
                let mut m = mods(src, n);
                if n > 3 && src.chance(1, 2) {
                    m.resize(95, 1);
                }
                let out = if src.chance(1, 2) { Out::Svg(svg_cfg_printable(src)) } else { small_out(src, cfg!(feature = "image")) };
                let mut then = out.clone();
                for _ in 0..src.range(1, 3) {
                    then = tweak(src, &then);
                }
                Case::GenTypes { out, then, mods: m }
            }
        },
        _ => Case::Threads { seed: src.u64(), threads: 4, rounds: 2, ops: 60 },
    }
}

/// Calls to be compared between builds: `per` of each kind, all of them possible on 32 bits.
pub fn inputs(seed: u64, per: usize) -> Vec<Case> {
    let mut src = Src::seeded(seed ^ 0x1e57);
    let src = &mut src;
    let mut v = vec![];
    for sym in Sym::ALL {
        for i in 0..per {
            let data = match i % 4 {
                0..=1 => valid(src, sym, 40),
                2 => valid(src, sym, 256),
                _ => arbitrary(src, sym),
            };
            v.push(Case::Sym { sym, data });
        }
    }
    // Long symbols.
    for n in [255usize, 256, 257, 1000] {
        v.push(Case::Sym { sym: Sym::Code128, data: format!("{}{}", SEL_B, "z".repeat(n)) });
        v.push(Case::Sym { sym: Sym::Itf, data: "9".repeat(n) });
        v.push(Case::Sym { sym: Sym::Code93, data: "%".repeat(n) });
    }
    // Beyond what interpreters can do.
    for n in [5000usize, 20_000, 70_000, 140_000] {
        for sel in [SEL_A, SEL_B, SEL_C] {
            let unit = if sel == SEL_C { format!("{:02}", n / 97 % 100) } else { "Z".into() };
            v.push(Case::Sym { sym: Sym::Code128, data: format!("{}{}", sel, unit.repeat(n)) });
        }
        v.push(Case::Sym { sym: Sym::Code128, data: format!("{}{}", SEL_B, (0..n).map(|i| (32 + (i * 7 + i / 11) as u8 % 95) as char).collect::<String>()) });
        for sym in Sym::ALL {
            v.push(Case::Sym { sym, data: "8".repeat(n) });
        }
        let m: Vec<u8> = (0..n).map(|i| (i * i % 7 < 3) as u8).collect();
        v.push(Case::Gen { out: Out::Ascii { height: 3, xdim: 2 }, mods: m.clone() });
        v.push(Case::Gen { out: Out::Json { height: 3, xdim: 2 }, mods: m.clone() });
        for xdim in [1, 77, 40_000] {
            v.push(Case::Gen { out: Out::Svg(SvgCfg { height: 9, xdim, fg: [1, 2, 3, 4], bg: [5, 6, 7, 255], xmlns: None }), mods: m.clone() });
        }
    }
    for i in 0..per / 2 {
        let m = mods(src, 60);
        v.push(Case::Short { which: (i % 6) as u8, height: edge_u32(src), mods: m });
        let m = mods(src, 60);
        let ops = (0..src.below(6))
            .map(|_| match src.below(4) {
                0 => SvgOp::Xdim(edge_u32(src)),
                1 => SvgOp::Fg(colour(src)),
                2 => SvgOp::Bg(colour(src)),
                _ => SvgOp::Xmlns(namespace(src)),
            })
            .collect();
        v.push(Case::Build { height: edge_u32(src), ops, mods: m });
    }
    let n32 = |src: &mut Src| (edge_usize(src) as u64).min(u32::MAX as u64) as usize;
    for i in 0..per * 2 {
        let max = if i % 16 == 0 { 400 } else { 70 };
        let m = mods(src, max);
        let xdim = src.range(0, 6);
        v.push(Case::Gen { out: Out::Ascii { height: src.range(0, 6), xdim }, mods: m });
        let m = mods(src, max);
        v.push(Case::Gen { out: Out::Json { height: n32(src), xdim: n32(src) }, mods: m });
        let m = mods(src, max);
        v.push(Case::Gen { out: Out::Svg(svg_cfg(src)), mods: m });
    }
    for _ in 0..per {
        let m = mods(src, 60);
        let c = img_cfg(src, m.len(), 600);
        v.push(Case::Gen { out: Out::Img(c), mods: m });
    }
    v
}
