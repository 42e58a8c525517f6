//! Independent model of the symbologies, written from the published element-width tables (not from
//! the module strings of the crate under test): what is accepted, which modules are drawn, and how a
//! reader decodes them.

use bcsut::{Kind, Sym};

// ------------------------------------------------------------------ tables

/// Element widths of the EAN/UPC digits, odd parity, left half (space first).
const EAN_W: [[u8; 4]; 10] = [
    [3, 2, 1, 1],
    [2, 2, 2, 1],
    [2, 1, 2, 2],
    [1, 4, 1, 1],
    [1, 1, 3, 2],
    [1, 2, 3, 1],
    [1, 1, 1, 4],
    [1, 3, 1, 2],
    [1, 2, 1, 3],
    [3, 1, 1, 2],
];

/// Parity of the six left digits of EAN-13 by first digit (L = odd, G = even).
const EAN13_PARITY: [&str; 10] = [
    "LLLLLL", "LLGLGG", "LLGGLG", "LLGGGL", "LGLLGG", "LGGLLG", "LGGGLL", "LGLGLG", "LGLGGL",
    "LGGLGL",
];
const EAN5_PARITY: [&str; 10] = [
    "GGLLL", "GLGLL", "GLLGL", "GLLLG", "LGGLL", "LLGGL", "LLLGG", "LGLGL", "LGLLG", "LLGLG",
];
const EAN2_PARITY: [&str; 4] = ["LL", "LG", "GL", "GG"];

const TWO_OF_FIVE: [&str; 10] = [
    "nnwwn", "wnnnw", "nwnnw", "wwnnn", "nnwnw", "wnwnn", "nwwnn", "nnnww", "wnnwn", "nwnwn",
];

pub const CODABAR_ALPHABET: &str = "0123456789-$:/.+ABCD";
/// Seven elements, most significant bit first, 1 = wide.
const CODABAR_MASK: [u8; 20] = [
    0x03, 0x06, 0x09, 0x60, 0x12, 0x42, 0x21, 0x24, 0x30, 0x48, 0x0c, 0x18, 0x45, 0x51, 0x54, 0x15,
    0x1A, 0x29, 0x0B, 0x0E,
];

pub const CODE11_ALPHABET: &str = "0123456789-";
const CODE11_W: [&str; 12] = [
    "nnnnw", "wnnnw", "nwnnw", "wwnnn", "nnwnw", "wnwnn", "nwwnn", "nnnww", "wnnwn", "wnnnn",
    "nnwnn", /* start/stop */ "nnwwn",
];

pub const CODE39_ALPHABET: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
const CODE39_MASK: [u16; 43] = [
    0x034, 0x121, 0x061, 0x160, 0x031, 0x130, 0x070, 0x025, 0x124, 0x064, // 0-9
    0x109, 0x049, 0x148, 0x019, 0x118, 0x058, 0x00D, 0x10C, 0x04C, 0x01C, // A-J
    0x103, 0x043, 0x142, 0x013, 0x112, 0x052, 0x007, 0x106, 0x046, 0x016, // K-T
    0x181, 0x0C1, 0x1C0, 0x091, 0x190, 0x0D0, 0x085, 0x184, 0x0C4, 0x0A8, // U-$
    0x0A2, 0x08A, 0x02A, // / + %
];
const CODE39_STAR: u16 = 0x094;

/// The four shift characters are written ( ) [ ] by this crate: ($) (%) (/) (+).
pub const CODE93_ALPHABET: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%()[]";
const CODE93_BITS: [u16; 47] = [
    0x114, 0x148, 0x144, 0x142, 0x128, 0x124, 0x122, 0x150, 0x112, 0x10A, // 0-9
    0x1A8, 0x1A4, 0x1A2, 0x194, 0x192, 0x18A, 0x168, 0x164, 0x162, 0x134, // A-J
    0x11A, 0x158, 0x14C, 0x146, 0x12C, 0x116, 0x1B4, 0x1B2, 0x1AC, 0x1A6, // K-T
    0x196, 0x19A, 0x16C, 0x166, 0x136, 0x13A, // U-Z
    0x12E, 0x1D4, 0x1D2, 0x1CA, 0x16E, 0x176, 0x1AE, // - . space $ / + %
    0x126, 0x1DA, 0x1D6, 0x132, // ($) (%) (/) (+)
];
const CODE93_STAR: u16 = 0x15E;

const CODE128_W: [&str; 106] = [
    "212222", "222122", "222221", "121223", "121322", "131222", "122213", "122312", "132212",
    "221213", "221312", "231212", "112232", "122132", "122231", "113222", "123122", "123221",
    "223211", "221132", "221231", "213212", "223112", "312131", "311222", "321122", "321221",
    "312212", "322112", "322211", "212123", "212321", "232121", "111323", "131123", "131321",
    "112313", "132113", "132311", "211313", "231113", "231311", "112133", "112331", "132131",
    "113123", "113321", "133121", "313121", "211331", "231131", "213113", "213311", "213131",
    "311123", "311321", "331121", "312113", "312311", "332111", "314111", "221411", "431111",
    "111224", "111422", "121124", "121421", "141122", "141221", "112214", "112412", "122114",
    "122411", "142112", "142211", "241211", "221114", "413111", "241112", "134111", "111242",
    "121142", "121241", "114212", "124112", "124211", "411212", "421112", "421211", "212141",
    "214121", "412121", "111143", "111341", "131141", "114113", "114311", "411113", "411311",
    "113141", "114131", "311141", "411131", "211412", "211214", "211232",
];
const CODE128_STOP: &str = "2331112";

pub const SEL_A: char = '\u{00C0}';
pub const SEL_B: char = '\u{0181}';
pub const SEL_C: char = '\u{0106}';
pub const FNC1: char = '\u{0179}';
pub const FNC2: char = '\u{017A}';
pub const FNC3: char = '\u{017B}';
pub const FNC4: char = '\u{017C}';
pub const SHIFT: char = '\u{017D}';
/// The crate's spelling of DEL besides DEL itself.
pub const DEL_ALT: char = '\u{00F7}';

// ------------------------------------------------------------------ helpers

fn push_widths(out: &mut Vec<u8>, widths: impl IntoIterator<Item = usize>, first: u8) {
    let mut v = first;
    for w in widths {
        for _ in 0..w {
            out.push(v);
        }
        v ^= 1;
    }
}

fn nw(s: &str, wide: usize) -> Vec<usize> {
    s.bytes().map(|b| if b == b'w' { wide } else { 1 }).collect()
}

fn mask_widths(mask: u16, n: u32, wide: usize) -> Vec<usize> {
    (0..n).rev().map(|i| if mask >> i & 1 == 1 { wide } else { 1 }).collect()
}

fn digits(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b - b'0').collect()
}

fn pos(alphabet: &str, c: char) -> usize {
    alphabet.chars().position(|x| x == c).expect("spec: character outside alphabet")
}

/// GS1 modulo 10: weight 3 on the rightmost payload digit, alternating.
pub fn mod10(payload: &[u8]) -> u8 {
    let s: u64 = payload
        .iter()
        .rev()
        .enumerate()
        .map(|(i, &d)| d as u64 * if i % 2 == 0 { 3 } else { 1 })
        .sum();
    ((10 - s % 10) % 10) as u8
}

/// Weighted sum, weights 1..=cycle repeating from the right.
fn weighted(values: &[usize], cycle: usize, modulus: usize) -> usize {
    let n = values.len();
    let s: u64 = values
        .iter()
        .enumerate()
        .map(|(i, &v)| v as u64 * (((n - 1 - i) % cycle) as u64 + 1))
        .sum();
    (s % modulus as u64) as usize
}

// ------------------------------------------------------------------ admission

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Admit {
    Accept,
    /// Any of these error kinds is right.
    Reject(&'static [Kind]),
}

pub fn alphabet(sym: Sym) -> &'static str {
    match sym {
        Sym::Codabar => CODABAR_ALPHABET,
        Sym::Code11 | Sym::Usd8 => CODE11_ALPHABET,
        Sym::Code39 | Sym::Code39Chk => CODE39_ALPHABET,
        Sym::Code93 => CODE93_ALPHABET,
        _ => "0123456789",
    }
}

pub fn length_ok(sym: Sym, n: usize) -> bool {
    match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland => n == 12 || n == 13,
        Sym::Upca => n == 11 || n == 12,
        Sym::Ean8 => n == 7 || n == 8,
        Sym::Supp => n == 2 || n == 5,
        Sym::Code128 => n >= 2,
        _ => (1..=256).contains(&n),
    }
}

/// Number of payload digits of the retail symbologies.
pub fn payload_len(sym: Sym) -> Option<usize> {
    match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland => Some(12),
        Sym::Upca => Some(11),
        Sym::Ean8 => Some(7),
        _ => None,
    }
}

pub fn admit(sym: Sym, data: &str) -> Admit {
    if sym == Sym::Code128 {
        return admit128(data);
    }
    let n = data.chars().count();
    let a = alphabet(sym);
    let chars_ok = data.chars().all(|c| c.is_ascii() && a.contains(c));
    match (length_ok(sym, n), chars_ok) {
        (true, true) => match payload_len(sym) {
            Some(p) if n == p + 1 => {
                let d = digits(data);
                if mod10(&d[..p]) == d[p] {
                    Admit::Accept
                } else {
                    Admit::Reject(&[Kind::Checksum])
                }
            }
            _ => Admit::Accept,
        },
        (false, true) => Admit::Reject(&[Kind::Length]),
        // A length counted in bytes may differ from the number of characters: then either is right.
        (true, false) if length_ok(sym, data.len()) => Admit::Reject(&[Kind::Character]),
        _ => Admit::Reject(&[Kind::Character, Kind::Length]),
    }
}

fn admit128(data: &str) -> Admit {
    let n = data.chars().count();
    if n < 2 {
        let sel = data.chars().next().map_or(true, |c| [SEL_A, SEL_B, SEL_C].contains(&c));
        return if sel || data.len() < 2 {
            Admit::Reject(&[Kind::Length])
        } else {
            Admit::Reject(&[Kind::Length, Kind::Character])
        };
    }
    match values128(data) {
        Some(_) => Admit::Accept,
        None => Admit::Reject(&[Kind::Character]),
    }
}

/// The Code 128 symbol values of the data (start character first), if it can be expressed.
pub fn values128(data: &str) -> Option<Vec<usize>> {
    let mut it = data.chars();
    let mut set = match it.next()? {
        SEL_A => 'A',
        SEL_B => 'B',
        SEL_C => 'C',
        _ => return None,
    };
    let mut out = vec![match set {
        'A' => 103,
        'B' => 104,
        _ => 105,
    }];
    let mut half: Option<usize> = None;
    for c in it {
        if half.is_some() && !c.is_ascii_digit() {
            return None;
        }
        if let Some(to) = match c {
            SEL_A => Some('A'),
            SEL_B => Some('B'),
            SEL_C => Some('C'),
            _ => None,
        } {
            out.push(match (set, to) {
                ('A', 'B') | ('C', 'B') => 100,
                ('B', 'A') | ('C', 'A') => 101,
                ('A', 'C') | ('B', 'C') => 99,
                _ => return None,
            });
            set = to;
            continue;
        }
        let o = c as usize;
        let v = match (set, c) {
            (_, FNC1) => 102,
            ('A' | 'B', FNC2) => 97,
            ('A' | 'B', FNC3) => 96,
            ('A' | 'B', SHIFT) => 98,
            ('A', FNC4) => 101,
            ('B', FNC4) => 100,
            ('A', _) if o < 32 => o + 64,
            ('A', _) if o < 96 => o - 32,
            ('B', DEL_ALT) => 95,
            ('B', _) if (32..128).contains(&o) => o - 32,
            ('C', _) if c.is_ascii_digit() => {
                let d = o - '0' as usize;
                match half.take() {
                    None => {
                        half = Some(d);
                        continue;
                    }
                    Some(h) => h * 10 + d,
                }
            }
            _ => return None,
        };
        out.push(v);
    }
    if half.is_some() {
        None
    } else {
        Some(out)
    }
}

pub fn check128(values: &[usize]) -> usize {
    let mut s = values[0] as u128;
    for (i, &v) in values.iter().enumerate().skip(1) {
        s += i as u128 * v as u128;
    }
    (s % 103) as usize
}

// ------------------------------------------------------------------ rendering

fn ean_digit(out: &mut Vec<u8>, d: u8, parity: char) {
    let w = EAN_W[d as usize];
    match parity {
        'L' => push_widths(out, w.iter().map(|&x| x as usize), 0),
        'G' => push_widths(out, w.iter().rev().map(|&x| x as usize), 0),
        _ => push_widths(out, w.iter().map(|&x| x as usize), 1),
    }
}

/// The modules of a digit on one side: L, G or R.
pub fn ean_code(d: u8, side: char) -> Vec<u8> {
    let mut o = vec![];
    ean_digit(&mut o, d, side);
    o
}

fn ean_frame(left: &[u8], parity: &str, right: &[u8]) -> Vec<u8> {
    let mut o = vec![1, 0, 1];
    for (&d, p) in left.iter().zip(parity.chars()) {
        ean_digit(&mut o, d, p);
    }
    o.extend([0, 1, 0, 1, 0]);
    for &d in right {
        ean_digit(&mut o, d, 'R');
    }
    o.extend([1, 0, 1]);
    o
}

pub fn codabar_pattern(c: char) -> Vec<u8> {
    let mut o = vec![];
    let m = CODABAR_MASK[pos(CODABAR_ALPHABET, c)] as u16;
    push_widths(&mut o, mask_widths(m, 7, 2), 1);
    o
}

/// The check characters a symbol carries: (values or digits), for coverage accounting.
pub fn checks(sym: Sym, data: &str) -> Vec<usize> {
    match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland | Sym::Upca | Sym::Ean8 => {
            vec![mod10(&digits(data)[..payload_len(sym).unwrap()]) as usize]
        }
        Sym::Supp => vec![supp_check(&digits(data))],
        Sym::Itf if data.len() % 2 == 1 => vec![mod10(&digits(data)) as usize],
        Sym::Code11 | Sym::Usd8 => {
            let v = values_of(sym, data);
            check11(&v)
        }
        Sym::Code39Chk => vec![values_of(sym, data).iter().sum::<usize>() % 43],
        Sym::Code93 => check93(&values_of(sym, data)),
        Sym::Code128 => values128(data).map(|v| vec![check128(&v)]).unwrap_or_default(),
        _ => vec![],
    }
}

pub fn values_of(sym: Sym, data: &str) -> Vec<usize> {
    let a = alphabet(sym);
    data.chars().map(|c| pos(a, c)).collect()
}

fn check11(v: &[usize]) -> Vec<usize> {
    let c = weighted(v, 10, 11);
    let mut r = vec![c];
    if v.len() > 10 {
        let mut w = v.to_vec();
        w.push(c);
        r.push(weighted(&w, 9, 11));
    }
    r
}

fn check93(v: &[usize]) -> Vec<usize> {
    let c = weighted(v, 20, 47);
    let mut w = v.to_vec();
    w.push(c);
    vec![c, weighted(&w, 15, 47)]
}

pub fn supp_check(d: &[u8]) -> usize {
    if d.len() == 2 {
        (d[0] as usize * 10 + d[1] as usize) % 4
    } else {
        let w = [3, 9, 3, 9, 3];
        d.iter().zip(w).map(|(&x, w)| x as usize * w).sum::<usize>() % 10
    }
}

/// The modules of an accepted string.
pub fn render(sym: Sym, data: &str) -> Vec<u8> {
    match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland => {
            let mut d = digits(data);
            d.truncate(12);
            d.push(mod10(&d));
            ean_frame(&d[1..7], EAN13_PARITY[d[0] as usize], &d[7..])
        }
        Sym::Upca => {
            let mut d = digits(data);
            d.truncate(11);
            d.push(mod10(&d));
            ean_frame(&d[..6], "LLLLLL", &d[6..])
        }
        Sym::Ean8 => {
            let mut d = digits(data);
            d.truncate(7);
            d.push(mod10(&d));
            ean_frame(&d[..4], "LLLL", &d[4..])
        }
        Sym::Supp => {
            let d = digits(data);
            let par = if d.len() == 2 { EAN2_PARITY[supp_check(&d)] } else { EAN5_PARITY[supp_check(&d)] };
            let mut o = vec![1, 0, 1, 1];
            for (i, (&x, p)) in d.iter().zip(par.chars()).enumerate() {
                if i > 0 {
                    o.extend([0, 1]);
                }
                ean_digit(&mut o, x, p);
            }
            o
        }
        Sym::Itf => {
            let mut d = digits(data);
            if d.len() % 2 == 1 {
                d.push(mod10(&d));
            }
            let mut o = vec![1, 0, 1, 0];
            for p in d.chunks(2) {
                let b = nw(TWO_OF_FIVE[p[0] as usize], 3);
                let s = nw(TWO_OF_FIVE[p[1] as usize], 3);
                push_widths(&mut o, b.into_iter().zip(s).flat_map(|(x, y)| [x, y]), 1);
            }
            o.extend([1, 1, 0, 1]);
            o
        }
        Sym::Stf => {
            let mut o = vec![1, 1, 0, 1, 1, 0, 1, 0];
            for x in digits(data) {
                push_widths(&mut o, nw(TWO_OF_FIVE[x as usize], 3).into_iter().flat_map(|w| [w, 1]), 1);
            }
            o.extend([1, 1, 0, 1, 0, 1, 1, 0]);
            o
        }
        Sym::Codabar => {
            let mut o = vec![];
            for (i, c) in data.chars().enumerate() {
                if i > 0 {
                    o.push(0);
                }
                o.extend(codabar_pattern(c));
            }
            o
        }
        Sym::Code11 | Sym::Usd8 => {
            let mut v = values_of(sym, data);
            let k = check11(&v);
            v.extend(k);
            let mut o = vec![];
            for (i, x) in std::iter::once(11).chain(v).chain([11]).enumerate() {
                if i > 0 {
                    o.push(0);
                }
                push_widths(&mut o, nw(CODE11_W[x], 2), 1);
            }
            o
        }
        Sym::Code39 | Sym::Code39Chk => {
            let mut v = values_of(sym, data);
            if sym == Sym::Code39Chk {
                v.push(v.iter().sum::<usize>() % 43);
            }
            let mut o = vec![];
            push_widths(&mut o, mask_widths(CODE39_STAR, 9, 2), 1);
            for x in v {
                o.push(0);
                push_widths(&mut o, mask_widths(CODE39_MASK[x], 9, 2), 1);
            }
            o.push(0);
            push_widths(&mut o, mask_widths(CODE39_STAR, 9, 2), 1);
            o
        }
        Sym::Code93 => {
            let mut v = values_of(sym, data);
            let k = check93(&v);
            v.extend(k);
            let mut o = vec![];
            let mut put = |bits: u16| o.extend((0..9).rev().map(|i| (bits >> i & 1) as u8));
            put(CODE93_STAR);
            for x in v {
                put(CODE93_BITS[x]);
            }
            put(CODE93_STAR);
            o.push(1);
            o
        }
        Sym::Code128 => {
            let mut v = values128(data).expect("spec: not expressible");
            v.push(check128(&v));
            let mut o = Vec::with_capacity(v.len() * 11 + 13);
            for x in v {
                push_widths(&mut o, CODE128_W[x].bytes().map(|b| (b - b'0') as usize), 1);
            }
            push_widths(&mut o, CODE128_STOP.bytes().map(|b| (b - b'0') as usize), 1);
            o
        }
    }
}

// ------------------------------------------------------------------ reading

/// Run lengths of a module sequence that starts with a bar.
pub fn runs(m: &[u8]) -> Result<Vec<usize>, String> {
    let mut r = vec![];
    let mut last = 0;
    for &b in m {
        match b {
            0 | 1 if b == last && !r.is_empty() => *r.last_mut().unwrap() += 1,
            0 | 1 => {
                if r.is_empty() && b == 0 {
                    return Err("does not start with a bar".into());
                }
                r.push(1);
                last = b;
            }
            _ => return Err(format!("module value {}", b)),
        }
    }
    Ok(r)
}

fn is_nw(r: &[usize], s: &str, wide_min: usize) -> bool {
    r.len() == s.len() && r.iter().zip(s.bytes()).all(|(&w, b)| (w >= wide_min) == (b == b'w'))
}

fn ean_read(r: &[usize]) -> Option<(u8, char)> {
    for (d, w) in EAN_W.iter().enumerate() {
        if r.iter().zip(w).all(|(&a, &b)| a == b as usize) {
            return Some((d as u8, 'L'));
        }
        if r.iter().zip(w.iter().rev()).all(|(&a, &b)| a == b as usize) {
            return Some((d as u8, 'G'));
        }
    }
    None
}

/// Decodes a symbol the way a reader does: from element widths, verifying guards, parity and check
/// characters. Returns the data in canonical form (with a retail check digit, without the other
/// check characters, DEL for its alternative spelling).
pub fn decode(sym: Sym, m: &[u8]) -> Result<String, String> {
    let r = runs(m)?;
    let bad = |s: &str| Err(s.to_string());
    let to_s = |d: &[u8]| d.iter().map(|x| (b'0' + x) as char).collect::<String>();
    match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland | Sym::Upca | Sym::Ean8 => {
            let half = if sym == Sym::Ean8 { 4 } else { 6 };
            if r.len() != 3 + half * 4 + 5 + half * 4 + 3 {
                return bad("number of elements");
            }
            let mid = 3 + half * 4;
            if r[..3] != [1, 1, 1] || r[mid..mid + 5] != [1; 5] || r[r.len() - 3..] != [1, 1, 1] {
                return bad("guard");
            }
            let mut d = vec![];
            let mut par = String::new();
            for i in 0..half {
                let (x, p) = ean_read(&r[3 + i * 4..7 + i * 4]).ok_or("left digit")?;
                d.push(x);
                par.push(p);
            }
            for i in 0..half {
                let s = mid + 5 + i * 4;
                match ean_read(&r[s..s + 4]) {
                    Some((x, 'L')) => d.push(x),
                    _ => return bad("right digit"),
                }
            }
            if half == 6 {
                let first = EAN13_PARITY.iter().position(|p| *p == par).ok_or("parity")?;
                if sym != Sym::Upca {
                    d.insert(0, first as u8);
                } else if first != 0 {
                    return bad("parity");
                }
            } else if par != "LLLL" {
                return bad("parity");
            }
            let n = d.len() - 1;
            if mod10(&d[..n]) != d[n] {
                return bad("check digit");
            }
            Ok(to_s(&d))
        }
        Sym::Supp => {
            if r.len() < 7 || r[0] != 1 || r[1] != 1 || r[2] != 2 {
                return bad("guard");
            }
            let (mut d, mut par, mut i) = (vec![], String::new(), 3);
            loop {
                if i + 4 > r.len() {
                    return bad("truncated digit");
                }
                let (x, p) = ean_read(&r[i..i + 4]).ok_or("digit")?;
                d.push(x);
                par.push(p);
                i += 4;
                if i == r.len() {
                    break;
                }
                if i + 2 > r.len() || r[i] != 1 || r[i + 1] != 1 {
                    return bad("separator");
                }
                i += 2;
            }
            let ok = match d.len() {
                2 => EAN2_PARITY[supp_check(&d)] == par,
                5 => EAN5_PARITY[supp_check(&d)] == par,
                _ => false,
            };
            if !ok {
                return bad("parity");
            }
            Ok(to_s(&d))
        }
        Sym::Itf => {
            if r.len() < 17 || (r.len() - 7) % 10 != 0 || r[..4] != [1; 4] {
                return bad("start");
            }
            let e = r.len() - 3;
            if !(r[e] >= 2 && r[e + 1] == 1 && r[e + 2] == 1) {
                return bad("stop");
            }
            let mut d = vec![];
            for c in r[4..e].chunks(10) {
                for k in 0..2 {
                    let w: Vec<usize> = c.iter().skip(k).step_by(2).copied().collect();
                    let x = TWO_OF_FIVE.iter().position(|s| is_nw(&w, s, 2)).ok_or("digit")?;
                    d.push(x as u8);
                }
            }
            Ok(to_s(&d))
        }
        Sym::Stf => {
            // Trailing one-module space of the stop pattern included: an even number of elements.
            if r.len() < 22 || (r.len() - 12) % 10 != 0 || r.iter().skip(1).step_by(2).any(|&s| s != 1) {
                return bad("spaces");
            }
            let bars: Vec<usize> = r.iter().step_by(2).copied().collect();
            let n = bars.len();
            if !is_nw(&bars[..3], "wwn", 2) || !is_nw(&bars[n - 3..], "wnw", 2) {
                return bad("guard");
            }
            let mut d = vec![];
            for w in bars[3..n - 3].chunks(5) {
                d.push(TWO_OF_FIVE.iter().position(|s| is_nw(w, s, 2)).ok_or("digit")? as u8);
            }
            Ok(to_s(&d))
        }
        Sym::Codabar => {
            if (r.len() + 1) % 8 != 0 {
                return bad("number of elements");
            }
            let mut o = String::new();
            for c in r.chunks(8) {
                if c.len() == 8 && c[7] != 1 {
                    return bad("gap");
                }
                let mask = c[..7].iter().fold(0u8, |a, &w| a << 1 | (w >= 2) as u8);
                let i = CODABAR_MASK.iter().position(|&m| m == mask).ok_or("character")?;
                o.push(CODABAR_ALPHABET.as_bytes()[i] as char);
            }
            Ok(o)
        }
        Sym::Code11 | Sym::Usd8 => {
            if (r.len() + 1) % 6 != 0 {
                return bad("number of elements");
            }
            let mut v = vec![];
            for c in r.chunks(6) {
                if c.len() == 6 && c[5] != 1 {
                    return bad("gap");
                }
                v.push(CODE11_W.iter().position(|s| is_nw(&c[..5], s, 2)).ok_or("character")?);
            }
            if v.len() < 4 || v[0] != 11 || v[v.len() - 1] != 11 {
                return bad("guard");
            }
            let v = &v[1..v.len() - 1];
            // With k check characters, n = v.len() - k must satisfy (n > 10) == (k == 2).
            for k in [1, 2] {
                if v.len() > k {
                    let n = v.len() - k;
                    if (n > 10) == (k == 2) && v[..n].iter().all(|&x| x < 11) && check11(&v[..n]) == v[n..] {
                        return Ok(v[..n].iter().map(|&i| CODE11_ALPHABET.as_bytes()[i] as char).collect());
                    }
                }
            }
            bad("check characters")
        }
        Sym::Code39 | Sym::Code39Chk => {
            if (r.len() + 1) % 10 != 0 {
                return bad("number of elements");
            }
            let mut v = vec![];
            for c in r.chunks(10) {
                if c.len() == 10 && c[9] != 1 {
                    return bad("gap");
                }
                let mask = c[..9].iter().fold(0u16, |a, &w| a << 1 | (w >= 2) as u16);
                if mask == CODE39_STAR {
                    v.push(99);
                } else {
                    v.push(CODE39_MASK.iter().position(|&m| m == mask).ok_or("character")?);
                }
            }
            let n = v.len();
            if n < 3 || v[0] != 99 || v[n - 1] != 99 || v[1..n - 1].contains(&99) {
                return bad("guard");
            }
            let mut v = v[1..n - 1].to_vec();
            if sym == Sym::Code39Chk {
                let c = v.pop().unwrap();
                if v.is_empty() || v.iter().sum::<usize>() % 43 != c {
                    return bad("check character");
                }
            }
            Ok(v.iter().map(|&i| CODE39_ALPHABET.as_bytes()[i] as char).collect())
        }
        Sym::Code93 => {
            if m.len() % 9 != 1 || m[m.len() - 1] != 1 {
                return bad("termination");
            }
            let mut v = vec![];
            for c in m[..m.len() - 1].chunks(9) {
                let bits = c.iter().fold(0u16, |a, &b| a << 1 | b as u16);
                if bits == CODE93_STAR {
                    v.push(99);
                } else {
                    v.push(CODE93_BITS.iter().position(|&x| x == bits).ok_or("character")?);
                }
            }
            let n = v.len();
            if n < 5 || v[0] != 99 || v[n - 1] != 99 || v[1..n - 1].contains(&99) {
                return bad("guard");
            }
            let v = &v[1..n - 1];
            let k = v.len() - 2;
            if check93(&v[..k]) != v[k..] {
                return bad("check characters");
            }
            Ok(v[..k].iter().map(|&i| CODE93_ALPHABET.as_bytes()[i] as char).collect())
        }
        Sym::Code128 => decode128(&r),
    }
}

fn decode128(r: &[usize]) -> Result<String, String> {
    if r.len() < 6 + 6 + 7 || (r.len() - 7) % 6 != 0 {
        return Err("number of elements".into());
    }
    let key = |c: &[usize]| c.iter().map(|&w| char::from_digit(w as u32, 10).unwrap_or('?')).collect::<String>();
    let e = r.len() - 7;
    if key(&r[e..]) != CODE128_STOP {
        return Err("stop".into());
    }
    let mut v = vec![];
    for c in r[..e].chunks(6) {
        let k = key(c);
        v.push(CODE128_W.iter().position(|w| *w == k).ok_or("character")?);
    }
    let chk = v.pop().unwrap();
    if check128(&v) != chk {
        return Err("check character".into());
    }
    let mut set = match v[0] {
        103 => 'A',
        104 => 'B',
        105 => 'C',
        _ => return Err("start".into()),
    };
    let sel = |s| match s {
        'A' => SEL_A,
        'B' => SEL_B,
        _ => SEL_C,
    };
    let mut o = String::new();
    o.push(sel(set));
    for &x in &v[1..] {
        let mut switch = None;
        match (set, x) {
            (_, 102) => o.push(FNC1),
            ('C', 0..=99) => o.push_str(&format!("{:02}", x)),
            ('C', 100) => switch = Some('B'),
            ('C', 101) => switch = Some('A'),
            ('A' | 'B', 96) => o.push(FNC3),
            ('A' | 'B', 97) => o.push(FNC2),
            ('A' | 'B', 98) => o.push(SHIFT),
            ('A' | 'B', 99) => switch = Some('C'),
            ('A', 100) => switch = Some('B'),
            ('A', 101) => o.push(FNC4),
            ('B', 100) => o.push(FNC4),
            ('B', 101) => switch = Some('A'),
            ('A', 0..=63) => o.push((x as u8 + 32) as char),
            ('A', 64..=95) => o.push((x as u8 - 64) as char),
            ('B', 0..=95) => o.push((x as u8 + 32) as char),
            _ => return Err("start character inside".into()),
        }
        if let Some(s) = switch {
            o.push(sel(s));
            set = s;
        }
    }
    Ok(o)
}

/// What `decode` must return for an accepted string.
pub fn canonical(sym: Sym, data: &str) -> String {
    match sym {
        Sym::Ean13 | Sym::Jan | Sym::Bookland | Sym::Upca | Sym::Ean8 => {
            let mut d = digits(data);
            d.truncate(payload_len(sym).unwrap());
            let c = mod10(&d);
            d.push(c);
            d.iter().map(|x| (b'0' + x) as char).collect()
        }
        Sym::Itf if data.len() % 2 == 1 => format!("{}{}", data, mod10(&digits(data))),
        Sym::Code128 => {
            let mut set = ' ';
            data.chars()
                .map(|c| {
                    match c {
                        SEL_A | SEL_B | SEL_C => set = c,
                        DEL_ALT if set == SEL_B => return '\u{7F}',
                        _ => {}
                    }
                    c
                })
                .collect()
        }
        _ => data.to_string(),
    }
}
