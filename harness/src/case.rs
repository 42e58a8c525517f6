//! A case: one thing to try, replayable from its JSON form.

use crate::jsn::J;
use crate::rng::hash;
use bcsut::{Fmt, ImgCfg, Rgba, SvgCfg, Sym};

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ascii { height: usize, xdim: usize },
    Json { height: usize, xdim: usize },
    Svg(SvgCfg),
    Img(ImgCfg),
}

#[derive(Clone, Debug, PartialEq)]
pub enum SvgOp {
    Xdim(u32),
    Fg(Rgba),
    Bg(Rgba),
    Xmlns(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    /// Construct and encode.
    Sym { sym: Sym, data: String },
    /// A retail payload with each of the ten digits appended.
    Gate { sym: Sym, payload: String },
    /// A Code 39 value: 0 clears the flag, 1 sets it, 2 encodes.
    Flags { data: String, chk: bool, ops: Vec<u8> },
    /// A generator on modules.
    Gen { out: Out, mods: Vec<u8> },
    /// An image of n alternating modules: only the outcome and the size are looked at.
    ImgSize { cfg: ImgCfg, n: usize },
    /// Encode, generate, scan back.
    E2e { sym: Sym, data: String, out: Out },
    /// A shorthand constructor against the spelled-out settings.
    Short { which: u8, height: u32, mods: Vec<u8> },
    /// A sequence of SVG builder calls.
    Build { height: u32, ops: Vec<SvgOp>, mods: Vec<u8> },
    /// An alias type against the type it stands for.
    Alias { sym: Sym, data: String },
    /// A value made from a public variant with these digits, which then change.
    Direct { variant: u8, digits: String, next: String },
    /// The data in every type of text.
    Types { sym: Sym, data: String },
    /// The modules in every type, and the generator's public fields changed after use.
    GenTypes { out: Out, then: Out, mods: Vec<u8> },
    /// The public tables.
    Tables,
    /// A data string of gigabytes: `len` times the byte `ch`.
    Huge { sym: Sym, len: u64, ch: u8 },
    /// A generated history of calls: the first `ops` of the sequence from `seed`.
    Hist { seed: u64, ops: u64 },
    /// Many different calls of one kind in one process, forwards and then backwards.
    Bulk { seed: u64, which: u8, n: u64 },
    /// Like arguments one right after another.
    Twins { seed: u64, n: u64 },
    /// A few like calls over and over in many threads.
    Hot { seed: u64, threads: u32, millis: u64 },
    /// Processes in which threads use the library for the first time.
    First { seed: u64, n: u64 },
    /// More modules, or a text larger, than the memory holds: spaces, with a bar in every 16 million if `bars`.
    Wide { out: Out, len: u64, bars: bool },
    /// Pictures of gigabytes, which fit into the memory all the same.
    Vast { which: u64 },
    /// Many different small calls of each kind: memory may not grow with their number.
    Drift { seed: u64, n: u64 },
    /// A kind of call at two sizes, or early and late: the time per unit may not grow.
    Time { which: u64 },
    /// A generated concurrent run.
    Threads { seed: u64, threads: u32, rounds: u32, ops: u32 },
}

pub fn mods_str(m: &[u8]) -> String {
    m.iter().map(|&b| (b'0' + b.min(9)) as char).collect()
}

fn mods_from(j: &J) -> Option<Vec<u8>> {
    Some(j.str()?.bytes().map(|b| b - b'0').collect())
}

fn rgba(c: &Rgba) -> J {
    J::Arr(c.iter().map(J::n).collect())
}

fn rgba_from(j: &J) -> Option<Rgba> {
    let a = j.arr()?;
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = a.get(i)?.u64()? as u8;
    }
    Some(r)
}

fn u(j: &J, k: &str) -> Option<u64> {
    j.get(k)?.u64()
}

impl Out {
    pub fn to_j(&self) -> J {
        match self {
            Out::Ascii { height, xdim } => J::obj(vec![("gen", J::s("ascii")), ("height", J::n(height)), ("xdim", J::n(xdim))]),
            Out::Json { height, xdim } => J::obj(vec![("gen", J::s("json")), ("height", J::n(height)), ("xdim", J::n(xdim))]),
            Out::Svg(c) => J::obj(vec![
                ("gen", J::s("svg")),
                ("height", J::n(c.height)),
                ("xdim", J::n(c.xdim)),
                ("fg", rgba(&c.fg)),
                ("bg", rgba(&c.bg)),
                ("xmlns", c.xmlns.as_ref().map_or(J::Null, J::s)),
            ]),
            Out::Img(c) => J::obj(vec![
                ("gen", J::s(format!("{:?}", c.fmt).to_lowercase())),
                ("height", J::n(c.height)),
                ("xdim", J::n(c.xdim)),
                ("rot", J::n(c.rot)),
                ("fg", rgba(&c.fg)),
                ("bg", rgba(&c.bg)),
            ]),
        }
    }
    pub fn from_j(j: &J) -> Option<Out> {
        Some(match j.get("gen")?.str()? {
            "ascii" => Out::Ascii { height: u(j, "height")? as usize, xdim: u(j, "xdim")? as usize },
            "json" => Out::Json { height: u(j, "height")? as usize, xdim: u(j, "xdim")? as usize },
            "svg" => Out::Svg(SvgCfg {
                height: u(j, "height")? as u32,
                xdim: u(j, "xdim")? as u32,
                fg: rgba_from(j.get("fg")?)?,
                bg: rgba_from(j.get("bg")?)?,
                xmlns: j.get("xmlns")?.str().map(|s| s.to_string()),
            }),
            f => Out::Img(ImgCfg {
                fmt: Fmt::ALL.iter().copied().find(|x| format!("{:?}", x).to_lowercase() == f)?,
                height: u(j, "height")? as u32,
                xdim: u(j, "xdim")? as u32,
                rot: u(j, "rot")? as u8,
                fg: rgba_from(j.get("fg")?)?,
                bg: rgba_from(j.get("bg")?)?,
            }),
        })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Out::Ascii { .. } => "ascii",
            Out::Json { .. } => "json",
            Out::Svg(_) => "svg",
            Out::Img(c) => match c.fmt {
                Fmt::Gif => "gif",
                Fmt::Png => "png",
                Fmt::Webp => "webp",
                Fmt::Buffer => "buffer",
            },
        }
    }
}

impl Case {
    pub fn to_j(&self) -> J {
        let sym = |s: &Sym| J::s(s.name());
        match self {
            Case::Sym { sym: s, data } => J::obj(vec![("case", J::s("sym")), ("sym", sym(s)), ("data", J::s(data))]),
            Case::Gate { sym: s, payload } => J::obj(vec![("case", J::s("gate")), ("sym", sym(s)), ("data", J::s(payload))]),
            Case::Flags { data, chk, ops } => J::obj(vec![
                ("case", J::s("flags")),
                ("data", J::s(data)),
                ("chk", J::Bool(*chk)),
                ("ops", J::s(mods_str(ops))),
            ]),
            Case::Gen { out, mods } => J::obj(vec![("case", J::s("gen")), ("out", out.to_j()), ("mods", J::s(mods_str(mods)))]),
            Case::ImgSize { cfg, n } => J::obj(vec![("case", J::s("imgsize")), ("out", Out::Img(*cfg).to_j()), ("n", J::n(n))]),
            Case::E2e { sym: s, data, out } => J::obj(vec![
                ("case", J::s("e2e")),
                ("sym", sym(s)),
                ("data", J::s(data)),
                ("out", out.to_j()),
            ]),
            Case::Short { which, height, mods } => J::obj(vec![
                ("case", J::s("short")),
                ("which", J::n(which)),
                ("height", J::n(height)),
                ("mods", J::s(mods_str(mods))),
            ]),
            Case::Build { height, ops, mods } => J::obj(vec![
                ("case", J::s("build")),
                ("height", J::n(height)),
                ("mods", J::s(mods_str(mods))),
                (
                    "ops",
                    J::Arr(
                        ops.iter()
                            .map(|o| match o {
                                SvgOp::Xdim(x) => J::obj(vec![("xdim", J::n(x))]),
                                SvgOp::Fg(c) => J::obj(vec![("fg", rgba(c))]),
                                SvgOp::Bg(c) => J::obj(vec![("bg", rgba(c))]),
                                SvgOp::Xmlns(s) => J::obj(vec![("xmlns", J::s(s))]),
                            })
                            .collect(),
                    ),
                ),
            ]),
            Case::Alias { sym: s, data } => J::obj(vec![("case", J::s("alias")), ("sym", sym(s)), ("data", J::s(data))]),
            Case::Direct { variant, digits, next } => J::obj(vec![
                ("case", J::s("direct")),
                ("variant", J::n(variant)),
                ("data", J::s(digits)),
                ("next", J::s(next)),
            ]),
            Case::Types { sym: s, data } => J::obj(vec![("case", J::s("types")), ("sym", sym(s)), ("data", J::s(data))]),
            Case::GenTypes { out, then, mods } => J::obj(vec![
                ("case", J::s("gentypes")),
                ("out", out.to_j()),
                ("then", then.to_j()),
                ("mods", J::s(mods_str(mods))),
            ]),
            Case::Tables => J::obj(vec![("case", J::s("tables"))]),
            Case::Huge { sym: s, len, ch } => {
                J::obj(vec![("case", J::s("huge")), ("sym", sym(s)), ("len", J::n(len)), ("ch", J::n(ch))])
            }
            Case::Hist { seed, ops } => J::obj(vec![("case", J::s("hist")), ("seed", J::n(seed)), ("ops", J::n(ops))]),
            Case::Twins { seed, n } => J::obj(vec![("case", J::s("twins")), ("seed", J::n(seed)), ("n", J::n(n))]),
            Case::Hot { seed, threads, millis } => J::obj(vec![
                ("case", J::s("hot")),
                ("seed", J::n(seed)),
                ("threads", J::n(threads)),
                ("millis", J::n(millis)),
            ]),
            Case::Bulk { seed, which, n } => J::obj(vec![
                ("case", J::s("bulk")),
                ("seed", J::n(seed)),
                ("which", J::n(which)),
                ("n", J::n(n)),
            ]),
            Case::Wide { out, len, bars } => J::obj(vec![("case", J::s("wide")), ("out", out.to_j()), ("len", J::n(len)), ("bars", J::n(*bars as u8))]),
            Case::First { seed, n } => J::obj(vec![("case", J::s("first")), ("seed", J::n(seed)), ("n", J::n(n))]),
            Case::Vast { which } => J::obj(vec![("case", J::s("vast")), ("which", J::n(which))]),
            Case::Drift { seed, n } => J::obj(vec![("case", J::s("drift")), ("seed", J::n(seed)), ("n", J::n(n))]),
            Case::Time { which } => J::obj(vec![("case", J::s("time")), ("which", J::n(which))]),
            Case::Threads { seed, threads, rounds, ops } => J::obj(vec![
                ("case", J::s("threads")),
                ("seed", J::n(seed)),
                ("threads", J::n(threads)),
                ("rounds", J::n(rounds)),
                ("ops", J::n(ops)),
            ]),
        }
    }

    pub fn from_j(j: &J) -> Option<Case> {
        let sym = || Sym::by_name(j.get("sym")?.str()?);
        let data = || Some(j.get("data")?.str()?.to_string());
        let mods = || mods_from(j.get("mods")?);
        let out = || Out::from_j(j.get("out")?);
        Some(match j.get("case")?.str()? {
            "sym" => Case::Sym { sym: sym()?, data: data()? },
            "gate" => Case::Gate { sym: sym()?, payload: data()? },
            "flags" => Case::Flags {
                data: data()?,
                chk: *j.get("chk")? == J::Bool(true),
                ops: mods_from(j.get("ops")?)?,
            },
            "gen" => Case::Gen { out: out()?, mods: mods()? },
            "imgsize" => Case::ImgSize {
                cfg: match out()? {
                    Out::Img(c) => c,
                    _ => return None,
                },
                n: u(j, "n")? as usize,
            },
            "e2e" => Case::E2e { sym: sym()?, data: data()?, out: out()? },
            "short" => Case::Short { which: u(j, "which")? as u8, height: u(j, "height")? as u32, mods: mods()? },
            "build" => {
                let mut ops = vec![];
                for o in j.get("ops")?.arr()? {
                    ops.push(if let Some(x) = u(o, "xdim") {
                        SvgOp::Xdim(x as u32)
                    } else if let Some(c) = o.get("fg") {
                        SvgOp::Fg(rgba_from(c)?)
                    } else if let Some(c) = o.get("bg") {
                        SvgOp::Bg(rgba_from(c)?)
                    } else {
                        SvgOp::Xmlns(o.get("xmlns")?.str()?.to_string())
                    });
                }
                Case::Build { height: u(j, "height")? as u32, ops, mods: mods()? }
            }
            "alias" => Case::Alias { sym: sym()?, data: data()? },
            "direct" => Case::Direct { variant: u(j, "variant")? as u8, digits: data()?, next: j.get("next")?.str()?.to_string() },
            "types" => Case::Types { sym: sym()?, data: data()? },
            "gentypes" => Case::GenTypes { out: out()?, then: Out::from_j(j.get("then")?)?, mods: mods()? },
            "tables" => Case::Tables,
            "huge" => Case::Huge { sym: sym()?, len: u(j, "len")?, ch: u(j, "ch")? as u8 },
            "hist" => Case::Hist { seed: u(j, "seed")?, ops: u(j, "ops")? },
            "twins" => Case::Twins { seed: u(j, "seed")?, n: u(j, "n")? },
            "hot" => Case::Hot { seed: u(j, "seed")?, threads: u(j, "threads")? as u32, millis: u(j, "millis")? },
            "bulk" => Case::Bulk { seed: u(j, "seed")?, which: u(j, "which")? as u8, n: u(j, "n")? },
            "wide" => Case::Wide { out: Out::from_j(j.get("out")?)?, len: u(j, "len")?, bars: u(j, "bars")? == 1 },
            "first" => Case::First { seed: u(j, "seed")?, n: u(j, "n")? },
            "vast" => Case::Vast { which: u(j, "which")? },
            "drift" => Case::Drift { seed: u(j, "seed")?, n: u(j, "n")? },
            "time" => Case::Time { which: u(j, "which")? },
            "threads" => Case::Threads {
                seed: u(j, "seed")?,
                threads: u(j, "threads")? as u32,
                rounds: u(j, "rounds")? as u32,
                ops: u(j, "ops")? as u32,
            },
            _ => return None,
        })
    }

    /// The case for the probe that is built in every configuration:
    /// `S sym hex`, `A|J height xdim modules`, `V height xdim fg bg hex|- modules`,
    /// `I format height xdim rotation fg bg modules`.
    pub fn line(&self) -> Option<String> {
        let hex = |b: &[u8]| b.iter().map(|b| format!("{:02x}", b)).collect::<String>();
        let dash = |s: String| if s.is_empty() { "-".to_string() } else { s };
        Some(match self {
            Case::Sym { sym, data } => format!("S {:?} {}\n", sym, dash(hex(data.as_bytes()))),
            Case::Gen { out, mods } => {
                let m = dash(mods_str(mods));
                match out {
                    Out::Ascii { height, xdim } => format!("A {} {} {}\n", height, xdim, m),
                    Out::Json { height, xdim } => format!("J {} {} {}\n", height, xdim, m),
                    Out::Svg(c) => format!(
                        "V {} {} {} {} {} {}\n",
                        c.height,
                        c.xdim,
                        hex(&c.fg),
                        hex(&c.bg),
                        c.xmlns.as_ref().map_or("-".into(), |x| format!("x{}", hex(x.as_bytes()))),
                        m
                    ),
                    Out::Img(c) => {
                        format!("I {:?} {} {} {} {} {} {}\n", c.fmt, c.height, c.xdim, c.rot, hex(&c.fg), hex(&c.bg), m)
                    }
                }
            }
            Case::Short { which, height, mods } if *which < 6 => format!("D {} {} {}\n", which, height, dash(mods_str(mods))),
            Case::Build { height, ops, mods } => {
                let ops: Vec<String> = ops
                    .iter()
                    .map(|o| match o {
                        SvgOp::Xdim(x) => format!("x{}", x),
                        SvgOp::Fg(c) => format!("f{}", hex(c)),
                        SvgOp::Bg(c) => format!("b{}", hex(c)),
                        SvgOp::Xmlns(n) => format!("n{}", hex(n.as_bytes())),
                    })
                    .collect();
                format!("B {} {} {}\n", height, dash(ops.join(",")), dash(mods_str(mods)))
            }
            _ => return None,
        })
    }

    /// A key for counting distinct cases.
    pub fn key(&self) -> u64 {
        match self {
            Case::Sym { sym, data } => hash(&[&[*sym as u8], data.as_bytes()]),
            Case::Gate { sym, payload } => hash(&[&[100, *sym as u8], payload.as_bytes()]),
            Case::Gen { out, mods } => hash(&[&out_key(out), mods]),
            _ => hash(&[format!("{:?}", self).as_bytes()]),
        }
    }

    /// Simpler variants, for shrinking.
    pub fn simpler(&self) -> Vec<Case> {
        let mut v = vec![];
        match self {
            Case::Sym { sym, data } => v.extend(strings(data).into_iter().map(|d| Case::Sym { sym: *sym, data: d })),
            Case::Gate { sym, payload } => {
                v.extend(strings(payload).into_iter().filter(|d| d.len() == payload.len()).map(|d| Case::Gate { sym: *sym, payload: d }))
            }
            Case::Flags { data, chk, ops } => {
                v.extend(bytes(ops).into_iter().map(|o| Case::Flags { data: data.clone(), chk: *chk, ops: o }));
                v.extend(strings(data).into_iter().map(|d| Case::Flags { data: d, chk: *chk, ops: ops.clone() }));
            }
            Case::Gen { out, mods } => {
                v.extend(bytes(mods).into_iter().map(|m| Case::Gen { out: out.clone(), mods: m }));
                v.extend(outs(out).into_iter().map(|o| Case::Gen { out: o, mods: mods.clone() }));
            }
            Case::ImgSize { cfg, n } => {
                v.extend(nums(*n as u64).into_iter().map(|n| Case::ImgSize { cfg: *cfg, n: n as usize }));
                for o in outs(&Out::Img(*cfg)) {
                    if let Out::Img(c) = o {
                        v.push(Case::ImgSize { cfg: c, n: *n });
                    }
                }
            }
            Case::E2e { sym, data, out } => {
                v.extend(strings(data).into_iter().map(|d| Case::E2e { sym: *sym, data: d, out: out.clone() }));
                v.extend(outs(out).into_iter().map(|o| Case::E2e { sym: *sym, data: data.clone(), out: o }));
            }
            Case::Short { which, height, mods } => {
                v.extend(bytes(mods).into_iter().map(|m| Case::Short { which: *which, height: *height, mods: m }));
                v.extend(nums(*height as u64).into_iter().map(|h| Case::Short { which: *which, height: h as u32, mods: mods.clone() }));
            }
            Case::Build { height, ops, mods } => {
                for i in 0..ops.len() {
                    let mut o = ops.clone();
                    o.remove(i);
                    v.push(Case::Build { height: *height, ops: o, mods: mods.clone() });
                }
                v.extend(bytes(mods).into_iter().map(|m| Case::Build { height: *height, ops: ops.clone(), mods: m }));
            }
            Case::Alias { sym, data } => v.extend(strings(data).into_iter().map(|d| Case::Alias { sym: *sym, data: d })),
            Case::Direct { variant, digits, next } => {
                v.extend(strings(digits).into_iter().map(|d| Case::Direct { variant: *variant, digits: d, next: next.clone() }));
                v.extend(strings(next).into_iter().map(|d| Case::Direct { variant: *variant, digits: digits.clone(), next: d }));
            }
            Case::Types { sym, data } => v.extend(strings(data).into_iter().map(|d| Case::Types { sym: *sym, data: d })),
            Case::GenTypes { out, then, mods } => {
                v.extend(bytes(mods).into_iter().map(|m| Case::GenTypes { out: out.clone(), then: then.clone(), mods: m }));
                v.extend(outs(out).into_iter().map(|o| Case::GenTypes { out: o, then: then.clone(), mods: mods.clone() }));
                v.extend(outs(then).into_iter().map(|o| Case::GenTypes { out: out.clone(), then: o, mods: mods.clone() }));
            }
            Case::Tables => {}
            Case::Twins { .. } | Case::Hot { .. } | Case::Wide { .. } | Case::Huge { .. } | Case::Threads { .. } | Case::Hist { .. } | Case::Bulk { .. } | Case::First { .. } | Case::Vast { .. } | Case::Drift { .. } | Case::Time { .. } => {}
        }
        v
    }
}

fn out_key(o: &Out) -> Vec<u8> {
    let mut k = vec![];
    match o {
        Out::Ascii { height, xdim } => {
            k.push(0);
            k.extend(height.to_le_bytes());
            k.extend(xdim.to_le_bytes());
        }
        Out::Json { height, xdim } => {
            k.push(1);
            k.extend(height.to_le_bytes());
            k.extend(xdim.to_le_bytes());
        }
        Out::Svg(c) => {
            k.push(2);
            k.extend(c.height.to_le_bytes());
            k.extend(c.xdim.to_le_bytes());
            k.extend(c.fg);
            k.extend(c.bg);
            if let Some(x) = &c.xmlns {
                k.push(1);
                k.extend(x.as_bytes());
            }
        }
        Out::Img(c) => {
            k.extend([3, c.fmt as u8, c.rot]);
            k.extend(c.height.to_le_bytes());
            k.extend(c.xdim.to_le_bytes());
            k.extend(c.fg);
            k.extend(c.bg);
        }
    }
    k
}

fn nums(n: u64) -> Vec<u64> {
    let mut v = vec![0, 1, 2, 3, n / 2, n.saturating_sub(n / 8), n.saturating_sub(1)];
    v.retain(|&x| x < n);
    v.dedup();
    v
}

/// Shorter sequences first, then ones with a simpler element.
fn strings(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut v: Vec<String> = cuts(c.len()).into_iter().map(|(a, b)| c[..a].iter().chain(&c[b..]).collect()).collect();
    if c.len() <= 600 {
        for i in 0..c.len() {
            for r in ['0', '1'] {
                if c[i] != r && c[i] != '0' {
                    let mut d = c.clone();
                    d[i] = r;
                    v.push(d.into_iter().collect());
                }
            }
        }
    }
    v
}

fn bytes(m: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = cuts(m.len()).into_iter().map(|(a, b)| [&m[..a], &m[b..]].concat()).collect();
    if m.len() <= 200 {
        for i in 0..m.len() {
            if m[i] != 0 {
                let mut d = m.to_vec();
                d[i] = 0;
                v.push(d);
            }
        }
    }
    v
}

fn cuts(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = n;
    while k > 0 {
        let mut a = 0;
        while a < n && v.len() < 4000 {
            v.push((a, (a + k).min(n)));
            a += k;
        }
        k /= 2;
    }
    v
}

fn outs(o: &Out) -> Vec<Out> {
    let mut v = vec![];
    const BLACK: Rgba = [0, 0, 0, 255];
    const WHITE: Rgba = [255, 255, 255, 255];
    match o {
        Out::Ascii { height, xdim } => {
            v.extend(nums(*height as u64).into_iter().map(|h| Out::Ascii { height: h as usize, xdim: *xdim }));
            v.extend(nums(*xdim as u64).into_iter().map(|x| Out::Ascii { height: *height, xdim: x as usize }));
        }
        Out::Json { height, xdim } => {
            v.extend(nums(*height as u64).into_iter().map(|h| Out::Json { height: h as usize, xdim: *xdim }));
            v.extend(nums(*xdim as u64).into_iter().map(|x| Out::Json { height: *height, xdim: x as usize }));
        }
        Out::Svg(c) => {
            v.extend(nums(c.height as u64).into_iter().map(|h| Out::Svg(SvgCfg { height: h as u32, ..c.clone() })));
            v.extend(nums(c.xdim as u64).into_iter().map(|x| Out::Svg(SvgCfg { xdim: x as u32, ..c.clone() })));
            if c.fg != BLACK {
                v.push(Out::Svg(SvgCfg { fg: BLACK, ..c.clone() }));
            }
            if c.bg != WHITE {
                v.push(Out::Svg(SvgCfg { bg: WHITE, ..c.clone() }));
            }
            if let Some(x) = &c.xmlns {
                v.push(Out::Svg(SvgCfg { xmlns: None, ..c.clone() }));
                v.extend(strings(x).into_iter().map(|s| Out::Svg(SvgCfg { xmlns: Some(s), ..c.clone() })));
            }
        }
        Out::Img(c) => {
            v.extend(nums(c.height as u64).into_iter().map(|h| Out::Img(ImgCfg { height: h as u32, ..*c })));
            v.extend(nums(c.xdim as u64).into_iter().map(|x| Out::Img(ImgCfg { xdim: x as u32, ..*c })));
            if c.rot != 0 {
                v.push(Out::Img(ImgCfg { rot: 0, ..*c }));
            }
            if c.fg != BLACK {
                v.push(Out::Img(ImgCfg { fg: BLACK, ..*c }));
            }
            if c.bg != WHITE {
                v.push(Out::Img(ImgCfg { bg: WHITE, ..*c }));
            }
        }
    }
    v
}
