#![cfg_attr(rustfmt, rustfmt_skip)]
//! P34 what encoders do with buffers of the wrong length, colour types they have no representation for and sizes beyond their header fields.
use hx::*;
use image::codecs::{bmp::BmpEncoder, farbfeld::FarbfeldEncoder, gif::GifEncoder, hdr::HdrEncoder, ico::IcoEncoder, jpeg::JpegEncoder, png::PngEncoder, pnm::*, qoi::QoiEncoder, tga::TgaEncoder, tiff::TiffEncoder, webp::WebPEncoder};
use image::{ExtendedColorType as E, ImageEncoder, ImageResult};
use std::cell::RefCell;
use std::io::{self, Seek, SeekFrom, Write};
use std::rc::Rc;

const COLORS: [E; 24] = [E::L8, E::La8, E::Rgb8, E::Rgba8, E::L16, E::La16, E::Rgb16, E::Rgba16, E::Rgb32F, E::Rgba32F, E::L1, E::La1, E::Rgb1, E::Rgba1, E::L2, E::La2, E::Rgb2, E::Rgba2, E::L4, E::La4, E::Rgb4, E::Rgba4, E::Bgr8, E::Bgra8];
fn bits(c: usize) -> u64 {
    match c {
        0..=3 => 8 * (c as u64 + 1),
        4..=7 => 16 * (c as u64 - 3),
        8 | 9 => 32 * (c as u64 - 5),
        10..=13 => c as u64 - 9,
        14..=17 => 2 * (c as u64 - 13),
        18..=21 => 4 * (c as u64 - 17),
        c => 8 * (c as u64 - 19),
    }
}
/// Keeps what is written and fails once the header is there.
struct Sink {
    data: Rc<RefCell<Vec<u8>>>,
    /// the file may be started
    allowed: bool,
    done: fn(&[u8]) -> bool,
    pos: u64,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        ck!(self.allowed);
        let mut d = self.data.borrow_mut();
        if (self.done)(&d) {
            return Err(io::ErrorKind::StorageFull.into());
        }
        d.extend_from_slice(b);
        if (self.done)(&d) {
            return Err(io::ErrorKind::StorageFull.into());
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if let SeekFrom::Start(x) = p {
            self.pos = x;
        }
        Ok(self.pos)
    }
}
const BMP: usize = 0;
const TGA: usize = 1;
const TGA_RAW: usize = 2;
const FF: usize = 3;
const HDR: usize = 4;
const PNM: usize = 5; // 5 any, 6 to 11 P1 to P6, 12 P7
const JPEG: usize = 13;
const WEBP: usize = 14;
const QOI: usize = 15;
const TIFF: usize = 16;
const PNG: usize = 17;
const ICO: usize = 18;
const GIF: usize = 19;
fn supported(enc: usize, c: usize) -> bool {
    match enc {
        BMP | TGA | TGA_RAW | WEBP => c < 4,
        FF => c == 7,
        HDR => c == 8,
        6 | 9 => c == 0 || c == 10,
        7 | 10 => c == 0,
        8 | 11 => c == 2,
        // bytes only: the trait has no samples of 16 bits for these files; samples of one bit come one per byte
        5 | 12 => c < 4 || c == 10,
        JPEG => c == 0 || c == 2,
        QOI => c == 2 || c == 3,
        TIFF => [0, 2, 3, 4, 6, 7].contains(&c),
        PNG | ICO => c < 8,
        _ => c == 2 || c == 3,
    }
}
fn encode(enc: usize, s: Sink, buf: &[u8], w: u32, h: u32, c: E) -> ImageResult<()> {
    let mut s = s;
    use SampleEncoding::*;
    match enc {
        BMP => BmpEncoder::new(&mut s).write_image(buf, w, h, c),
        TGA => TgaEncoder::new(s).write_image(buf, w, h, c),
        TGA_RAW => TgaEncoder::new(s).disable_rle().write_image(buf, w, h, c),
        FF => FarbfeldEncoder::new(s).write_image(buf, w, h, c),
        HDR => HdrEncoder::new(s).write_image(buf, w, h, c),
        PNM => PnmEncoder::new(s).write_image(buf, w, h, c),
        6..=12 => {
            let t = [PnmSubtype::Bitmap(Ascii), PnmSubtype::Graymap(Ascii), PnmSubtype::Pixmap(Ascii), PnmSubtype::Bitmap(Binary), PnmSubtype::Graymap(Binary), PnmSubtype::Pixmap(Binary), PnmSubtype::ArbitraryMap][enc - 6];
            PnmEncoder::new(s).with_subtype(t).write_image(buf, w, h, c)
        }
        JPEG => JpegEncoder::new(s).write_image(buf, w, h, c),
        WEBP => WebPEncoder::new_lossless(s).write_image(buf, w, h, c),
        QOI => QoiEncoder::new(s).write_image(buf, w, h, c),
        TIFF => TiffEncoder::new(s).write_image(buf, w, h, c),
        PNG => PngEncoder::new(s).write_image(buf, w, h, c),
        ICO => IcoEncoder::new(s).write_image(buf, w, h, c),
        _ => GifEncoder::new(s).encode(buf, w, h, c),
    }
}
/// The sizes the header of the format has room for.
fn fits(enc: usize, w: u32, h: u32, c: usize) -> bool {
    match enc {
        BMP => {
            let row = (w as u64 * [1, 1, 3, 4][c] + 3) / 4 * 4;
            w <= i32::MAX as u32 && h <= i32::MAX as u32 && row < 1 << 32 && row * h as u64 + [54 + 1024, 54 + 1024, 54, 122][c] < 1 << 32
        }
        TGA | TGA_RAW | GIF => w <= 65535 && h <= 65535,
        JPEG => w != 0 && h != 0 && w <= 65535 && h <= 65535,
        WEBP => w != 0 && h != 0 && w <= 16384 && h <= 16384,
        PNG | QOI => w != 0 && h != 0,
        ICO => w != 0 && h != 0 && w <= 256 && h <= 256,
        _ => true,
    }
}
/// The header is there.
fn done(enc: usize) -> fn(&[u8]) -> bool {
    match enc {
        BMP => |d| d.len() >= 54 && (d[14] == 40 || d.len() >= 122),
        TGA | TGA_RAW => |d| d.len() >= 18,
        FF => |d| d.len() >= 16,
        HDR => |d| d.iter().filter(|&&b| b == b'\n').count() == 5,
        5 | 12 => |d| d.ends_with(b"ENDHDR\n"),
        6..=11 => |d| d.iter().filter(|&&b| b == b'\n').count() == 2,
        JPEG => |d| d.windows(2).any(|x| x == [0xff, 0xc0]),
        PNG => |d| d.len() >= 33,
        _ => |_| false,
    }
}
fn number(d: &[u8], before: &[u8]) -> u64 {
    let i = d.windows(before.len()).position(|x| x == before);
    ck!(i.is_some());
    let mut n = 0;
    for &b in &d[i.unwrap() + before.len()..] {
        if b < b'0' || b > b'9' {
            break;
        }
        n = 10 * n + (b - b'0') as u64;
    }
    n
}
fn le(d: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([d[i], d[i + 1], d[i + 2], d[i + 3]])
}
fn be(d: &[u8], i: usize) -> u32 {
    u32::from_be_bytes([d[i], d[i + 1], d[i + 2], d[i + 3]])
}
/// The size in the header is the one given.
fn header(enc: usize, d: &[u8], w: u32, h: u32, c: usize, exact: bool) {
    match enc {
        BMP => {
            ck!(le(d, 18) == w && le(d, 22) == h);
            ck!(d[28] == [8, 8, 24, 32][c] && d[29] == 0);
            ck!(le(d, 10) == [54 + 1024, 54 + 1024, 54, 122][c]);
            ck!(le(d, 34).wrapping_add(le(d, 10)) == le(d, 2));
            if exact {
                let row = (w as u64 * [1, 1, 3, 4][c] + 3) / 4 * 4;
                ck!(le(d, 34) as u64 == row * h as u64);
            }
        }
        // no image data
        TGA | TGA_RAW if w == 0 || h == 0 => ck!(d[..18].iter().all(|&x| x == 0)),
        TGA | TGA_RAW => {
            ck!(d[12] as u32 + 256 * d[13] as u32 == w && d[14] as u32 + 256 * d[15] as u32 == h);
            ck!(d[16] == [8, 16, 24, 32][c]);
        }
        FF => ck!(d[..8] == *b"farbfeld" && be(d, 8) == w && be(d, 12) == h),
        HDR => ck!(number(d, b"-Y ") == h as u64 && number(d, b" +X ") == w as u64),
        5 | 12 => {
            ck!(d[..3] == *b"P7\n" && number(d, b"WIDTH ") == w as u64 && number(d, b"HEIGHT ") == h as u64);
            ck!(number(d, b"MAXVAL ") == if c == 10 { 1 } else { 255 } && number(d, b"DEPTH ") == if c == 10 { 1 } else { c as u64 + 1 });
        }
        6..=11 => {
            ck!(d[0] == b'P' && d[1] == b'0' + (enc - 5) as u8 && number(d, b"\n") == w as u64 && number(d, b" ") == h as u64);
            if enc != 6 && enc != 9 {
                ck!(d.windows(5).any(|x| x == b" 255\n"));
            }
        }
        JPEG => {
            let i = d.windows(2).position(|x| x == [0xff, 0xc0]).unwrap();
            if d.len() > i + 9 {
                ck!(d[i + 5] as u32 * 256 + d[i + 6] as u32 == h && d[i + 7] as u32 * 256 + d[i + 8] as u32 == w);
            }
        }
        PNG => {
            ck!(be(d, 16) == w && be(d, 20) == h);
            ck!(d[24] == if c < 4 { 8 } else { 16 } && d[25] == [0, 4, 2, 6][c % 4]);
        }
        _ => (),
    }
}
/// Any size, any length of the buffer, which the encoder does not get to read. params: encoder, colour type, 0 or 1 + what the width is or 0 or 1 + what the height is (a BMP file is measured then)
#[no_mangle]
#[inline(never)]
pub extern "C" fn enc_sizes() {
    let (enc, c) = (param(0), param(1));
    // numbers in decimal come from a list
    let text = || [0, 1, 2, 9, 10, 99, 100, 65535, 65536, 16_777_217, i32::MAX as u32, 1 << 31, u32::MAX][each(0, 12) as usize];
    let side = |p| if p > 0 { p as u32 - 1 } else if enc >= HDR && enc <= 12 && supported(enc, c) { text() } else { any_u32() };
    let (w, h) = (side(param(2)), side(param(3)));
    let len = any_u64();
    assume(len <= i64::MAX as u64);
    let want = ((w as u64 * bits(c) + 7) / 8).saturating_mul(h as u64);
    let right = len == want;
    let ok = supported(enc, c) && (c != 10 || len == w as u64 * h as u64);
    let fits = ok && fits(enc, w, h, c);
    // these read the samples before they write
    if right && (fits || enc == ICO) {
        assume(enc <= JPEG || enc == PNG && c < 4);
    }
    // bytes nobody may touch
    let buf = unsafe { std::slice::from_raw_parts(0x10000 as *const u8, len as usize) };
    let data = Rc::new(RefCell::new(vec![]));
    let s = Sink { data: data.clone(), allowed: right, done: done(enc), pos: 0 };
    if !right {
        expect_panic(true);
    }
    let r = encode(enc, s, buf, w, h, COLORS[c]);
    expect_panic(false);
    let d = data.borrow();
    if !right || !fits {
        ck!(r.is_err());
        reach(0);
    } else {
        // stopped by the writer, at the latest after the header
        ck!(r.is_err());
        ck!(done(enc)(&d));
        header(enc, &d, w, h, c, param(2) > 0 || param(3) > 0);
        reach(1);
    }
}
/// Buffers of all lengths around the right one, sizes of 0 to 2. params: encoder, colour type
#[no_mangle]
#[inline(never)]
pub extern "C" fn enc_small() {
    let (enc, c) = (param(0), param(1));
    let (w, h) = (each(0, 2), each(0, 2));
    let want = (w as u64 * bits(c) + 7) / 8 * h as u64;
    let len = each((want as u8).saturating_sub(bits(c) as u8 / 8 + 1), want as u8 + bits(c) as u8 / 8 + 1) as usize;
    let buf: Vec<u8> = (0..len).map(|i| (i * 37) as u8).collect();
    let right = len as u64 == want;
    let ok = supported(enc, c) && (c != 10 || len == (w * h) as usize) && fits(enc, w, h, c.min(3));
    let empty = w == 0 || h == 0;
    let data = Rc::new(RefCell::new(vec![]));
    let s = Sink { data: data.clone(), allowed: right || (enc == GIF && !supported(enc, c)), done: |_| false, pos: 0 };
    if !right {
        expect_panic(true);
    }
    let r = if enc == TIFF {
        let mut v = io::Cursor::new(vec![]);
        let r = TiffEncoder::new(&mut v).write_image(&buf, w, h, COLORS[c]);
        *data.borrow_mut() = v.into_inner();
        r
    } else {
        encode(enc, s, &buf, w, h, COLORS[c])
    };
    expect_panic(false);
    let d = data.borrow();
    if !right {
        ck!(r.is_err());
        reach(0);
    } else if empty {
        // a file or an error, no panic
        reach(1);
    } else if !ok {
        ck!(r.is_err());
        reach(2);
    } else {
        ck!(r.is_ok());
        if enc <= PNG && done(enc)(&d) {
            header(enc, &d, w, h, c, true);
        }
        use image::codecs::{gif::GifDecoder, ico::IcoDecoder, png::PngDecoder, qoi::QoiDecoder, tiff::TiffDecoder, webp::WebPDecoder};
        use image::{ColorType as C, ImageDecoder};
        let r = io::Cursor::new(&d[..]);
        let got = match enc {
            WEBP => { let d = WebPDecoder::new(r).unwrap(); Some((d.dimensions(), d.color_type())) }
            QOI => { let d = QoiDecoder::new(r).unwrap(); Some((d.dimensions(), d.color_type())) }
            TIFF => { let d = TiffDecoder::new(r).unwrap(); Some((d.dimensions(), d.color_type())) }
            PNG => { let d = PngDecoder::new(r).unwrap(); Some((d.dimensions(), d.color_type())) }
            ICO => { let d = IcoDecoder::new(r); if c == 3 { let d = d.unwrap(); Some((d.dimensions(), d.color_type())) } else { None } }
            GIF => { let d = GifDecoder::new(r).unwrap(); Some((d.dimensions(), d.color_type())) }
            _ => None,
        };
        if let Some((size, color)) = got {
            ck!(size == (w, h));
            let want = [C::L8, C::La8, C::Rgb8, C::Rgba8, C::L16, C::La16, C::Rgb16, C::Rgba16][c];
            ck!(color == want || enc == GIF && color == C::Rgba8 || enc == WEBP && (c == 0 && color == C::Rgb8 || c == 1 && color == C::Rgba8));
        }
        reach(3);
    }
}
/// Icons of 0 to 257 pixels; param: which width (0, 1, 255, 256, 257)
#[no_mangle]
#[inline(never)]
pub extern "C" fn enc_icon() {
    let (w, h) = (any_u32(), any_u32());
    let n = each(0, 3) as usize;
    let mut frames = vec![];
    let mut sizes = vec![];
    for k in 0..n {
        let (w, h) = if k == 0 { (w, h) } else { (any_u8() as u32 + 1, any_u8() as u32 + 1) };
        let r = image::codecs::ico::IcoFrame::with_encoded(vec![k as u8; 5 + 3 * k], w, h, if k == 1 { E::L16 } else { E::Rgba8 });
        if w >= 1 && w <= 256 && h >= 1 && h <= 256 {
            ck!(r.is_ok());
        } else {
            ck!(r.is_err());
            reach(0);
            return;
        }
        frames.push(r.unwrap());
        sizes.push((w, h));
    }
    let mut out = vec![];
    let r = IcoEncoder::new(&mut out).encode_images(&frames);
    if n == 0 {
        ck!(r.is_err() && out.is_empty());
        reach(1);
        return;
    }
    ck!(r.is_ok());
    ck!(out[..6] == [0, 0, 1, 0, n as u8, 0]);
    let mut p = 6 + 16 * n;
    for k in 0..n {
        let e = &out[6 + 16 * k..22 + 16 * k];
        let size = 5 + 3 * k;
        ck!(e[0] as u32 == sizes[k].0 % 256 && e[1] as u32 == sizes[k].1 % 256);
        ck!(e[2..6] == [0, 0, 0, 0] || e[2..6] == [0, 0, 1, 0]);
        ck!(e[6] == if k == 1 { 16 } else { 32 } && e[7] == 0);
        ck!(le(e, 8) as usize == size && le(e, 12) as usize == p);
        ck!(out[p..p + size].iter().all(|&x| x == k as u8));
        p += size;
    }
    ck!(out.len() == p);
    reach(2);
}
/// A palette; params: colours, 1: with alpha, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn enc_palette() {
    let (n, w, h) = (param(0), param(2) as u32, param(3) as u32);
    let c = param(1);
    let pal: Vec<[u8; 3]> = (0..n).map(|i| [i as u8, any_u8(), (i / 256) as u8]).collect();
    let buf = vec(((c + 1) * (w * h) as usize).min(300));
    let mut out = vec![];
    let r = BmpEncoder::new(&mut out).encode_with_palette(&buf, w, h, COLORS[c], Some(&pal));
    if n == 0 || n > 256 || c > 1 {
        ck!(r.is_err() && out.is_empty());
    } else {
        ck!(r.is_ok());
        ck!(le(&out, 46) as usize == n && le(&out, 10) as usize == 54 + 4 * n);
        for i in 0..n {
            ck!(out[54 + 4 * i..][..4] == [pal[i][2], pal[i][1], pal[i][0], 0]);
        }
    }
    reach(0);
}
harnesses!(enc_sizes, enc_small, enc_icon, enc_palette);
