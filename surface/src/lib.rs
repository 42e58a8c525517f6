//! What a program of the user's relies on to compile: names, signatures and traits.
#![cfg_attr(not(feature = "std"), no_std)]
#![cfg(not(feature = "alone"))]
#![allow(dead_code, unused_imports, clippy::all)]

extern crate alloc;
use alloc::string::String;
use alloc::vec::Vec;
use barcoders::error::{Error, Result as Shorthand};
use barcoders::sym::*;
use core::fmt::{Debug, Display};

fn any<T: Debug + Send + Sync + Unpin + 'static>() {}
fn copy<T: Copy + Clone + Debug + Send + Sync + Unpin + 'static>() {}
fn clone<T: Clone + Debug + Send + Sync + Unpin + 'static>() {}

fn errors(e: Error) -> Shorthand<u8> {
    fn shown<T: Display + PartialEq>() {}
    copy::<Error>();
    shown::<Error>();
    #[cfg(feature = "std")]
    {
        fn std_error<T: std::error::Error + 'static>(e: T) -> Box<dyn std::error::Error + Send + Sync>
        where
            T: Send + Sync,
        {
            e.into()
        }
        let _ = std_error(e);
    }
    match e {
        Error::Character | Error::Length | Error::Generate => Err(e),
        Error::Checksum => Ok(1),
    }
}

macro_rules! symbology {
    ($($t:ty: $($new:path),+;)*) => {
        fn symbologies(s: &str, o: String) -> core::result::Result<(), Error> {
            $({
                any::<$t>();
                $(
                    let v: $t = $new(s)?;
                    let _: $t = $new(o.clone())?;
                    let _: $t = $new(&o)?;
                    let r: &$t = &v;
                    let _: Vec<u8> = r.encode();
                )+
            })*
            Ok(())
        }
    };
}

symbology! {
    ean13::EAN13: ean13::EAN13::new, ean13::JAN::new, ean13::Bookland::new;
    upca::UPCA: upca::UPCA::new;
    ean8::EAN8: ean8::EAN8::new;
    ean_supp::EANSUPP: ean_supp::EANSUPP::new;
    tf::TF: tf::TF::interleaved, tf::TF::standard;
    codabar::Codabar: codabar::Codabar::new;
    code11::Code11: code11::Code11::new, code11::USD8::new;
    code39::Code39: code39::Code39::new, code39::Code39::with_checksum;
    code93::Code93: code93::Code93::new;
    code128::Code128: code128::Code128::new;
}

fn parts(d: Vec<u8>, mut c: code39::Code39) {
    let _ = tf::TF::Standard(d.clone());
    let _ = tf::TF::Interleaved(d.clone());
    let _ = ean_supp::EANSUPP::EAN2(d.clone());
    let _ = ean_supp::EANSUPP::EAN5(d);
    let b: bool = c.checksum;
    c.checksum = !b;
    let _: [[[u8; 7]; 10]; 3] = ean13::ENCODINGS;
    let _: [[[u8; 7]; 10]; 2] = upca::ENCODINGS;
}

#[cfg(feature = "ascii")]
fn ascii(m: &[u8]) -> core::result::Result<String, Error> {
    use barcoders::generators::ascii::ASCII;
    copy::<ASCII>();
    let _ = ASCII::default();
    let mut a = ASCII { height: 1usize, xdim: 2usize, ..ASCII::new() };
    a.height += a.xdim;
    a.generate(m)
}

#[cfg(feature = "json")]
fn json(m: Vec<u8>) -> core::result::Result<String, Error> {
    use barcoders::generators::json::JSON;
    copy::<JSON>();
    let _ = JSON::default();
    let mut a = JSON { height: 1usize, xdim: 2usize, ..JSON::new() };
    a.height += a.xdim;
    a.generate(m)
}

#[cfg(feature = "svg")]
fn svg(m: &Vec<u8>) -> core::result::Result<String, Error> {
    use barcoders::generators::svg::{Color, SVG};
    copy::<Color>();
    clone::<SVG>();
    let c = Color { rgba: [1u8, 2, 3, 4] };
    let _: [u8; 4] = Color::black().rgba;
    let mut a = SVG { height: 1u32, xdim: 2u32, background: Color::white(), foreground: Color::new([1, 2, 3, 4]), xmlns: Some(String::new()) };
    a.height += a.xdim;
    a = SVG::new(7).xdim(1).foreground(c).background(c).xmlns(String::new());
    a.clone().generate(m)
}

#[cfg(feature = "image")]
fn image(m: &[u8]) -> core::result::Result<Vec<u8>, Error> {
    use barcoders::generators::image::{Color, Image, Rotation};
    copy::<Color>();
    copy::<Rotation>();
    copy::<Image>();
    let c = Color::new([1u8, 2, 3, 4]);
    let _ = (Color::black(), Color::white(), Color::new([0; 4]));
    for rotation in [Rotation::Zero, Rotation::Ninety, Rotation::OneEighty, Rotation::TwoSeventy] {
        let _ = Image::GIF { height: 1u32, xdim: 1u32, rotation, foreground: c, background: c };
        let _ = Image::PNG { height: 1u32, xdim: 1u32, rotation, foreground: c, background: c };
        let _ = Image::WEBP { height: 1u32, xdim: 1u32, rotation, foreground: c, background: c };
        let b = Image::ImageBuffer { height: 1u32, xdim: 1u32, rotation, foreground: c, background: c }.generate_buffer(m)?;
        let _: (u32, u32) = b.dimensions();
        let _: Vec<u8> = b.into_raw();
    }
    let _ = (Image::gif(1), Image::webp(1), Image::image_buffer(1));
    Image::png(1).generate(m)
}
