//! Adapter to the crate under test: the only place where barcoders is called.
//! It is a crate of its own so that coverage instrumentation can be limited to the code under test
//! and the generic functions instantiated here.

use barcoders::error::Error;
use barcoders::generators as g;
use barcoders::sym::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    Ean13,
    Jan,
    Bookland,
    Upca,
    Ean8,
    Supp,
    Itf,
    Stf,
    Codabar,
    Code11,
    Usd8,
    Code39,
    Code39Chk,
    Code93,
    Code128,
}

impl Sym {
    pub const ALL: [Sym; 15] = [
        Sym::Ean13,
        Sym::Jan,
        Sym::Bookland,
        Sym::Upca,
        Sym::Ean8,
        Sym::Supp,
        Sym::Itf,
        Sym::Stf,
        Sym::Codabar,
        Sym::Code11,
        Sym::Usd8,
        Sym::Code39,
        Sym::Code39Chk,
        Sym::Code93,
        Sym::Code128,
    ];
    pub fn name(self) -> String {
        format!("{:?}", self)
    }
    pub fn by_name(n: &str) -> Option<Sym> {
        Sym::ALL.iter().copied().find(|s| s.name() == n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Character,
    Length,
    Generate,
    Checksum,
}

pub fn kind(e: Error) -> Kind {
    match e {
        Error::Character => Kind::Character,
        Error::Length => Kind::Length,
        Error::Generate => Kind::Generate,
        Error::Checksum => Kind::Checksum,
    }
}

/// A constructed barcode.
#[derive(Debug)]
pub enum Obj {
    Ean13(ean13::EAN13),
    Upca(upca::UPCA),
    Ean8(ean8::EAN8),
    Supp(ean_supp::EANSUPP),
    Tf(tf::TF),
    Codabar(codabar::Codabar),
    Code11(code11::Code11),
    Code39(code39::Code39),
    Code93(code93::Code93),
    Code128(code128::Code128),
}

/// With the library's own error.
pub fn try_construct<T: AsRef<str>>(sym: Sym, data: T) -> Result<Obj, Error> {
    Ok(match sym {
        Sym::Ean13 => Obj::Ean13(ean13::EAN13::new(data)?),
        Sym::Jan => Obj::Ean13(ean13::JAN::new(data)?),
        Sym::Bookland => Obj::Ean13(ean13::Bookland::new(data)?),
        Sym::Upca => Obj::Upca(upca::UPCA::new(data)?),
        Sym::Ean8 => Obj::Ean8(ean8::EAN8::new(data)?),
        Sym::Supp => Obj::Supp(ean_supp::EANSUPP::new(data)?),
        Sym::Itf => Obj::Tf(tf::TF::interleaved(data)?),
        Sym::Stf => Obj::Tf(tf::TF::standard(data)?),
        Sym::Codabar => Obj::Codabar(codabar::Codabar::new(data)?),
        Sym::Code11 => Obj::Code11(code11::Code11::new(data)?),
        Sym::Usd8 => Obj::Code11(code11::USD8::new(data)?),
        Sym::Code39 => Obj::Code39(code39::Code39::new(data)?),
        Sym::Code39Chk => Obj::Code39(code39::Code39::with_checksum(data)?),
        Sym::Code93 => Obj::Code93(code93::Code93::new(data)?),
        Sym::Code128 => Obj::Code128(code128::Code128::new(data)?),
    })
}

pub fn construct_with<T: AsRef<str>>(sym: Sym, data: T) -> Result<Obj, Kind> {
    try_construct(sym, data).map_err(kind)
}

/// The same bytes elsewhere: at every kind of address (as their contents decide), and right at the
/// end of an allocation.
pub struct Placed<'a> {
    at: usize,
    own: Vec<u8>,
    was: &'a [u8],
}

pub fn placed(b: &[u8]) -> Placed<'_> {
    if b.len() > 1 << 24 {
        return Placed { at: 0, own: vec![], was: b };
    }
    let k = b.len().wrapping_mul(7) ^ b.first().map_or(3, |&x| x as usize * 5) ^ b.get(b.len() / 2).map_or(0, |&x| x as usize * 11);
    let at = if k & 1 == 0 { 0 } else { k >> 1 & 15 };
    let mut own = Vec::with_capacity(at + b.len());
    own.resize(at, 0xA5);
    own.extend_from_slice(b);
    Placed { at, own, was: &[] }
}

impl Placed<'_> {
    pub fn bytes(&self) -> &[u8] {
        if self.own.is_empty() {
            self.was
        } else {
            &self.own[self.at..]
        }
    }
    /// Of a `str`'s bytes.
    pub fn text(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(self.bytes()) }
    }
}

/// A value made from a public variant.
pub fn direct(variant: u8, digits: Vec<u8>) -> Obj {
    match variant {
        0 => Obj::Tf(tf::TF::Standard(digits)),
        1 => Obj::Tf(tf::TF::Interleaved(digits)),
        2 => Obj::Supp(ean_supp::EANSUPP::EAN2(digits)),
        _ => Obj::Supp(ean_supp::EANSUPP::EAN5(digits)),
    }
}

/// A user's own type of text or modules.
pub struct Mine<T>(pub u64, pub T);

impl AsRef<str> for Mine<String> {
    fn as_ref(&self) -> &str {
        &self.1
    }
}

impl AsRef<[u8]> for Mine<Vec<u8>> {
    fn as_ref(&self) -> &[u8] {
        &self.1
    }
}

pub const TEXT_TYPES: [&str; 9] = ["&str", "String", "&String", "Box<str>", "Rc<str>", "Arc<str>", "Cow<str>", "&&str", "a type of the user's"];

/// With the text in the given type.
pub fn construct_as(sym: Sym, data: &str, how: usize) -> Result<Obj, Kind> {
    let own = data.to_string();
    match how {
        0 => construct_with(sym, data),
        1 => construct_with(sym, own),
        2 => construct_with(sym, &own),
        3 => construct_with(sym, own.into_boxed_str()),
        4 => construct_with(sym, std::rc::Rc::<str>::from(data)),
        5 => construct_with(sym, std::sync::Arc::<str>::from(data)),
        6 => construct_with(sym, std::borrow::Cow::Borrowed(data)),
        7 => construct_with(sym, &data),
        _ => construct_with(sym, Mine(7, own)),
    }
}

pub const MODULE_TYPES: [&str; 9] = ["&[u8]", "Vec<u8>", "&Vec<u8>", "Box<[u8]>", "Rc<[u8]>", "Arc<[u8]>", "Cow<[u8]>", "[u8; N]", "a type of the user's"];

/// Calls `f!` with the modules in the given type.
macro_rules! module_types {
    ($mods:expr, $how:expr, $f:ident) => {{
        let own = $mods.to_vec();
        match $how {
            0 => $f!($mods),
            1 => $f!(own),
            2 => $f!(&own),
            3 => $f!(own.into_boxed_slice()),
            4 => $f!(std::rc::Rc::<[u8]>::from($mods)),
            5 => $f!(std::sync::Arc::<[u8]>::from($mods)),
            6 => $f!(std::borrow::Cow::<[u8]>::Owned(own)),
            7 => match $mods {
                [] => $f!([0u8; 0]),
                &[a] => $f!([a]),
                &[a, b, c] => $f!([a, b, c]),
                m => match <[u8; 95]>::try_from(m) {
                    Ok(a) => $f!(a),
                    Err(_) => $f!(own),
                },
            },
            _ => $f!(Mine(7, own)),
        }
    }};
}

#[inline(never)]
pub fn construct(sym: Sym, data: &str) -> Result<Obj, Kind> {
    construct_with(sym, placed(data.as_bytes()).text())
}

impl Obj {
    #[inline(never)]
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Obj::Ean13(b) => b.encode(),
            Obj::Upca(b) => b.encode(),
            Obj::Ean8(b) => b.encode(),
            Obj::Supp(b) => b.encode(),
            Obj::Tf(b) => b.encode(),
            Obj::Codabar(b) => b.encode(),
            Obj::Code11(b) => b.encode(),
            Obj::Code39(b) => b.encode(),
            Obj::Code93(b) => b.encode(),
            Obj::Code128(b) => b.encode(),
        }
    }
    pub fn set_checksum(&mut self, on: bool) {
        if let Obj::Code39(b) = self {
            b.checksum = on;
        }
    }
    /// The public variant the value is, and its digits.
    pub fn digits_mut(&mut self) -> Option<(u8, &mut Vec<u8>)> {
        match self {
            Obj::Tf(tf::TF::Standard(d)) => Some((0, d)),
            Obj::Tf(tf::TF::Interleaved(d)) => Some((1, d)),
            Obj::Supp(ean_supp::EANSUPP::EAN2(d)) => Some((2, d)),
            Obj::Supp(ean_supp::EANSUPP::EAN5(d)) => Some((3, d)),
            _ => None,
        }
    }
    pub fn checksum(&self) -> Option<bool> {
        match self {
            Obj::Code39(b) => Some(b.checksum),
            _ => None,
        }
    }
    pub fn debug(&self) -> String {
        format!("{:?}", self)
    }
}

// ---------------------------------------------------------------- text generators

#[inline(never)]
pub fn ascii(height: usize, xdim: usize, mods: &[u8]) -> Result<String, Kind> {
    g::ascii::ASCII { height, xdim }.generate(placed(mods).bytes()).map_err(kind)
}

#[inline(never)]
pub fn json(height: usize, xdim: usize, mods: &[u8]) -> Result<String, Kind> {
    g::json::JSON { height, xdim }.generate(placed(mods).bytes()).map_err(kind)
}

pub type Rgba = [u8; 4];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SvgCfg {
    pub height: u32,
    pub xdim: u32,
    pub fg: Rgba,
    pub bg: Rgba,
    pub xmlns: Option<String>,
}

pub fn svg_value(c: &SvgCfg) -> g::svg::SVG {
    g::svg::SVG {
        height: c.height,
        xdim: c.xdim,
        foreground: g::svg::Color::new(c.fg),
        background: g::svg::Color::new(c.bg),
        xmlns: c.xmlns.clone(),
    }
}

#[inline(never)]
pub fn svg(c: &SvgCfg, mods: &[u8]) -> Result<String, Kind> {
    svg_value(c).generate(placed(mods).bytes()).map_err(kind)
}

/// With the builder methods, and the modules in a Vec.
#[inline(never)]
pub fn svg_built(c: &SvgCfg, mods: &[u8]) -> Result<String, Kind> {
    let mut s = g::svg::SVG::new(c.height).background(g::svg::Color::new(c.bg)).xdim(c.xdim).foreground(g::svg::Color::new(c.fg));
    if let Some(x) = &c.xmlns {
        s = s.xmlns(x.clone());
    }
    s.generate(mods.to_vec()).map_err(kind)
}

/// With the modules in the given type.
pub fn text_as(g: &Text, mods: &[u8], how: usize) -> Result<String, Kind> {
    macro_rules! go {
        ($m:expr) => {
            match g {
                Text::Ascii(g) => g.generate($m),
                Text::Json(g) => g.generate($m),
                Text::Svg(g) => g.generate($m),
            }
        };
    }
    module_types!(mods, how, go).map_err(kind)
}

/// A text generator.
#[derive(Debug)]
pub enum Text {
    Ascii(g::ascii::ASCII),
    Json(g::json::JSON),
    Svg(g::svg::SVG),
}

impl Text {
    pub fn ascii(height: usize, xdim: usize) -> Text {
        Text::Ascii(g::ascii::ASCII { height, xdim })
    }
    pub fn json(height: usize, xdim: usize) -> Text {
        Text::Json(g::json::JSON { height, xdim })
    }
    /// Gives the public fields other values.
    pub fn set(&mut self, h: usize, x: usize) {
        match self {
            Text::Ascii(g) => {
                g.height = h;
                g.xdim = x;
            }
            Text::Json(g) => {
                g.height = h;
                g.xdim = x;
            }
            Text::Svg(_) => {}
        }
    }
    pub fn set_svg(&mut self, c: &SvgCfg) {
        if let Text::Svg(g) = self {
            g.height = c.height;
            g.xdim = c.xdim;
            g.foreground.rgba = c.fg;
            g.background = g::svg::Color { rgba: c.bg };
            g.xmlns.clone_from(&c.xmlns);
        }
    }
}

/// The public tables: (name, contents, what the standard says about them is in the harness).
pub fn tables() -> Vec<(&'static str, Vec<Vec<[u8; 7]>>, Vec<Vec<u8>>)> {
    use barcoders::sym::{ean13, upca};
    vec![
        (
            "ean13",
            ean13::ENCODINGS.iter().map(|t| t.to_vec()).collect(),
            vec![ean13::LEFT_GUARD.to_vec(), ean13::MIDDLE_GUARD.to_vec(), ean13::RIGHT_GUARD.to_vec()],
        ),
        (
            "upca",
            upca::ENCODINGS.iter().map(|t| t.to_vec()).collect(),
            vec![upca::LEFT_GUARD.to_vec(), upca::MIDDLE_GUARD.to_vec(), upca::RIGHT_GUARD.to_vec()],
        ),
    ]
}

// ---------------------------------------------------------------- images

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fmt {
    Gif,
    Png,
    Webp,
    Buffer,
}

impl Fmt {
    pub const ALL: [Fmt; 4] = [Fmt::Gif, Fmt::Png, Fmt::Webp, Fmt::Buffer];
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ImgCfg {
    pub fmt: Fmt,
    pub height: u32,
    pub xdim: u32,
    /// Quarter turns.
    pub rot: u8,
    pub fg: Rgba,
    pub bg: Rgba,
}

#[cfg(feature = "image")]
pub mod img {
    use super::*;
    use barcoders::generators::image::{Color, Image, Rotation};

    pub fn value(c: &ImgCfg) -> Image {
        let rotation = match c.rot {
            0 => Rotation::Zero,
            1 => Rotation::Ninety,
            2 => Rotation::OneEighty,
            _ => Rotation::TwoSeventy,
        };
        let (height, xdim) = (c.height, c.xdim);
        let (foreground, background) = (Color::new(c.fg), Color::new(c.bg));
        match c.fmt {
            Fmt::Gif => Image::GIF { height, xdim, rotation, foreground, background },
            Fmt::Png => Image::PNG { height, xdim, rotation, foreground, background },
            Fmt::Webp => Image::WEBP { height, xdim, rotation, foreground, background },
            Fmt::Buffer => Image::ImageBuffer { height, xdim, rotation, foreground, background },
        }
    }

    pub fn shorthand(fmt: Fmt, height: u32) -> Image {
        match fmt {
            Fmt::Gif => Image::gif(height),
            Fmt::Png => Image::png(height),
            Fmt::Webp => Image::webp(height),
            Fmt::Buffer => Image::image_buffer(height),
        }
    }

    /// Gives the public fields other values; the variant stays.
    pub fn set(i: &mut Image, c: &ImgCfg) {
        let to = value(c);
        let (h, x, r, f, b) = match to {
            Image::GIF { height, xdim, rotation, foreground, background }
            | Image::PNG { height, xdim, rotation, foreground, background }
            | Image::WEBP { height, xdim, rotation, foreground, background }
            | Image::ImageBuffer { height, xdim, rotation, foreground, background } => (height, xdim, rotation, foreground, background),
        };
        match i {
            Image::GIF { height, xdim, rotation, foreground, background }
            | Image::PNG { height, xdim, rotation, foreground, background }
            | Image::WEBP { height, xdim, rotation, foreground, background }
            | Image::ImageBuffer { height, xdim, rotation, foreground, background } => {
                *height = h;
                *xdim = x;
                *rotation = r;
                *foreground = f;
                *background = b;
            }
        }
    }

    /// With the modules in the given type.
    pub fn bytes_as(i: &Image, mods: &[u8], how: usize) -> Result<Vec<u8>, Kind> {
        macro_rules! go {
            ($m:expr) => {
                i.generate($m)
            };
        }
        module_types!(mods, how, go).map_err(kind)
    }

    pub fn buffer_as(i: &Image, mods: &[u8], how: usize) -> Result<(u32, u32, Vec<u8>), Kind> {
        macro_rules! go {
            ($m:expr) => {
                i.generate_buffer($m)
            };
        }
        let b = module_types!(mods, how, go).map_err(kind)?;
        Ok((b.width(), b.height(), b.into_raw()))
    }

    /// With the library's own error; the bytes or the buffer.
    pub fn try_image(i: &Image, mods: &[u8], buffer: bool) -> Result<usize, Error> {
        if buffer {
            i.generate_buffer(mods).map(|b| b.into_raw().len())
        } else {
            i.generate(mods).map(|b| b.len())
        }
    }

    #[inline(never)]
    pub fn bytes_of(i: &Image, mods: &[u8]) -> Result<Vec<u8>, Kind> {
        i.generate(placed(mods).bytes()).map_err(kind)
    }

    #[inline(never)]
    pub fn buffer_of(i: &Image, mods: &[u8]) -> Result<(u32, u32, Vec<u8>), Kind> {
        let b = i.generate_buffer(placed(mods).bytes()).map_err(kind)?;
        Ok((b.width(), b.height(), b.into_raw()))
    }

    pub fn bytes(c: &ImgCfg, mods: &[u8]) -> Result<Vec<u8>, Kind> {
        bytes_of(&value(c), mods)
    }

    pub fn buffer(c: &ImgCfg, mods: &[u8]) -> Result<(u32, u32, Vec<u8>), Kind> {
        buffer_of(&value(c), mods)
    }
}

pub use barcoders;
