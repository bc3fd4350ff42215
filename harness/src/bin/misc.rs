//! Limits, format tables, delays, EXIF, resize dimensions.
use hx::*;
use image::metadata::Orientation;
use image::*;
use std::io::Cursor;
use std::time::Duration;

harnesses!(
    limits_ops, limits_decoder, limits_vec, formats_guess, formats_ext, formats_mime, formats_tables, delay_ratio,
    delay_to_duration, delay_from_duration, delay_cmp, exif_code, exif_chunk, resize_dims, resize_small
);

// ---------------------------------------------------------------- Limits
fn opt32() -> Option<u32> {
    let v = any_u32();
    if any_bool() {
        Some(v)
    } else {
        None
    }
}
fn opt64() -> Option<u64> {
    let v = any_u64();
    if any_bool() {
        Some(v)
    } else {
        None
    }
}
fn lim() -> Limits {
    let mut l = Limits::no_limits();
    l.max_image_width = opt32();
    l.max_image_height = opt32();
    l.max_alloc = opt64();
    l
}
fn is_limits<T>(r: &ImageResult<T>) -> bool {
    matches!(r, Err(ImageError::Limits(_)))
}
const COLORS: [ColorType; 10] = [
    ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8, ColorType::L16, ColorType::La16, ColorType::Rgb16,
    ColorType::Rgba16, ColorType::Rgb32F, ColorType::Rgba32F,
];
const BPP: [u64; 10] = [1, 2, 3, 4, 2, 4, 6, 8, 12, 16];
fn color(i: usize) -> ColorType {
    COLORS[i]
}

/// params: operation, colour
#[no_mangle]
extern "C" fn limits_ops() {
    let mut l = lim();
    let o = l.clone();
    let (w, h) = (any_u32(), any_u32());
    let n = any_u64();
    let fits = |l: &Limits| l.max_image_width.map_or(true, |m| w <= m) && l.max_image_height.map_or(true, |m| h <= m);
    let alloc = |l: &Limits, n: u128| l.max_alloc.map_or(true, |m| n <= m as u128);
    let (ok, spent) = match param(0) {
        0 => {
            let r = l.check_dimensions(w, h);
            ck!(r.is_ok() == fits(&o));
            ck!(r.is_ok() || is_limits(&r));
            (false, 0)
        }
        1 => {
            let r = l.reserve(n);
            ck!(r.is_ok() == alloc(&o, n as u128));
            ck!(r.is_ok() || is_limits(&r));
            (r.is_ok(), n)
        }
        2 => {
            let r = l.reserve_usize(n as usize);
            ck!(r.is_ok() == alloc(&o, n as u128));
            ck!(r.is_ok() || is_limits(&r));
            (r.is_ok(), n)
        }
        3 => {
            let c = param(1);
            let need = (w as u64 as u128) * (h as u128) * BPP[c] as u128;
            // stored sizes saturate at u64::MAX
            let need = need.min(u64::MAX as u128) as u64;
            let r = l.reserve_buffer(w, h, color(c));
            ck!(r.is_ok() == (fits(&o) && alloc(&o, need as u128)));
            ck!(r.is_ok() || is_limits(&r));
            (r.is_ok(), need)
        }
        4 | 5 => {
            if param(0) == 4 {
                l.free(n)
            } else {
                l.free_usize(n as usize)
            }
            ck!(l.max_alloc == o.max_alloc.map(|m| m.saturating_add(n)));
            l.max_alloc = o.max_alloc;
            (false, 0)
        }
        6 => {
            ck!(l.check_support(&LimitSupport::default()).is_ok());
            let d = Limits::default();
            ck!(d.max_image_width.is_none() && d.max_image_height.is_none() && d.max_alloc == Some(512 << 20));
            (false, 0)
        }
        _ => {
            // reserve then free gives the budget back
            let r = l.reserve(n);
            if r.is_ok() {
                l.free(n);
            }
            (false, 0)
        }
    };
    reach(0);
    ck!(l.max_image_width == o.max_image_width);
    ck!(l.max_image_height == o.max_image_height);
    if ok {
        ck!(l.max_alloc == o.max_alloc.map(|m| m.wrapping_sub(spent)));
    } else {
        ck!(l.max_alloc == o.max_alloc);
    }
}

/// A file of each format, written by the encoders (or by hand).
fn file(fmt: usize, w: u32, h: u32) -> (ImageFormat, Vec<u8>, u8) {
    let mut out = Cursor::new(Vec::new());
    let px: Vec<u8> = (0..w * h * 4).map(|i| (i * 37 % 251) as u8).collect();
    let n = (w * h) as usize;
    let rgb = &px[..3 * n];
    use image::codecs::*;
    let f = match fmt {
        0 => {
            bmp::BmpEncoder::new(&mut out).encode(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Bmp, 3)
        }
        1 => {
            tga::TgaEncoder::new(&mut out).encode(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Tga, 3)
        }
        2 => {
            pnm::PnmEncoder::new(&mut out).encode(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Pnm, 3)
        }
        3 => {
            qoi::QoiEncoder::new(&mut out).write_image(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Qoi, 3)
        }
        4 => {
            let px: Vec<u8> = (0..n * 8).map(|i| i as u8).collect();
            farbfeld::FarbfeldEncoder::new(&mut out).encode(&px, w, h).unwrap();
            (ImageFormat::Farbfeld, 8)
        }
        5 => {
            let px = vec![Rgb([0.5f32, 0.25, 1.0]); n];
            hdr::HdrEncoder::new(&mut out).encode(&px, w as usize, h as usize).unwrap();
            (ImageFormat::Hdr, 12)
        }
        6 => {
            tiff::TiffEncoder::new(&mut out).encode(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Tiff, 3)
        }
        7 => {
            png::PngEncoder::new(&mut out).write_image(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Png, 3)
        }
        8 => {
            webp::WebPEncoder::new_lossless(&mut out).encode(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::WebP, 3)
        }
        9 => {
            ico::IcoEncoder::new(&mut out).write_image(&px, w, h, ExtendedColorType::Rgba8).unwrap();
            (ImageFormat::Ico, 4)
        }
        10 => {
            gif::GifEncoder::new(&mut out).encode(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Gif, 4)
        }
        _ => {
            jpeg::JpegEncoder::new(&mut out).encode(rgb, w, h, ExtendedColorType::Rgb8).unwrap();
            (ImageFormat::Jpeg, 3)
        }
    };
    (f.0, out.into_inner(), f.1 as u8)
}
/// params: format, w, h
#[no_mangle]
extern "C" fn limits_decoder() {
    let (w, h) = (param(1) as u32, param(2) as u32);
    let (f, data, bpp) = file(param(0), w, h);
    let mut l = Limits::no_limits();
    l.max_image_width = opt32();
    l.max_image_height = opt32();
    let fits = l.max_image_width.map_or(true, |m| w <= m) && l.max_image_height.map_or(true, |m| h <= m);
    let mut r = ImageReader::with_format(Cursor::new(&data[..]), f);
    r.limits(l.clone());
    match r.into_decoder() {
        Ok(d) => {
            reach(0);
            ck!(fits);
            ck!(d.dimensions() == (w, h));
            ck!(d.total_bytes() == w as u64 * h as u64 * bpp as u64);
        }
        Err(e) => {
            reach(1);
            ck!(!fits);
            ck!(matches!(e, ImageError::Limits(_)));
        }
    }
    let mut r = ImageReader::with_format(Cursor::new(&data[..]), f);
    r.limits(l);
    match r.decode() {
        Ok(d) => {
            reach(2);
            ck!(fits);
            ck!(d.width() == w && d.height() == h);
        }
        Err(e) => {
            reach(3);
            ck!(!fits);
            ck!(matches!(e, ImageError::Limits(_)));
        }
    }
}

struct Fake(u32, u32, ColorType);
impl ImageDecoder for Fake {
    fn dimensions(&self) -> (u32, u32) {
        (self.0, self.1)
    }
    fn color_type(&self) -> ColorType {
        self.2
    }
    fn read_image(self, buf: &mut [u8]) -> ImageResult<()> {
        ck!(buf.len() as u64 == self.total_bytes());
        Ok(())
    }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> {
        (*self).read_image(buf)
    }
}
/// params: colour, 0 = the whole product overflows isize / 1 = small
#[no_mangle]
extern "C" fn limits_vec() {
    let c = param(0);
    let (w, h) = (any_u32(), any_u32());
    let exact = w as u128 * h as u128 * BPP[c] as u128;
    if param(1) == 0 {
        assume(exact > isize::MAX as u128);
        let d = Fake(w, h, color(c));
        ck!(d.total_bytes() as u128 == exact.min(u64::MAX as u128));
        let r = DynamicImage::from_decoder(d);
        reach(0);
        ck!(is_limits(&r));
    } else {
        assume(w <= 3 && h <= 3);
        let (w, h) = (conc(w as u64) as u32, conc(h as u64) as u32);
        let d = Fake(w, h, color(c));
        ck!(d.total_bytes() as u128 == exact);
        let r = DynamicImage::from_decoder(d).unwrap();
        reach(0);
        ck!(r.width() == w && r.height() == h);
        ck!(r.color() == color(c));
    }
}

// ---------------------------------------------------------------- formats
const MAGIC: [(&[u8], ImageFormat); 20] = [
    (b"\x89PNG\r\n\x1a\n", ImageFormat::Png),
    (&[0xff, 0xd8, 0xff], ImageFormat::Jpeg),
    (b"GIF89a", ImageFormat::Gif),
    (b"GIF87a", ImageFormat::Gif),
    (b"MM\x00*", ImageFormat::Tiff),
    (b"II*\x00", ImageFormat::Tiff),
    (b"DDS ", ImageFormat::Dds),
    (b"BM", ImageFormat::Bmp),
    (&[0, 0, 1, 0], ImageFormat::Ico),
    (b"#?RADIANCE", ImageFormat::Hdr),
    (&[0x76, 0x2f, 0x31, 0x01], ImageFormat::OpenExr),
    (b"qoif", ImageFormat::Qoi),
    (b"P1", ImageFormat::Pnm),
    (b"P2", ImageFormat::Pnm),
    (b"P3", ImageFormat::Pnm),
    (b"P4", ImageFormat::Pnm),
    (b"P5", ImageFormat::Pnm),
    (b"P6", ImageFormat::Pnm),
    (b"P7", ImageFormat::Pnm),
    (b"farbfeld", ImageFormat::Farbfeld),
];
fn expect_format(b: &[u8]) -> Option<ImageFormat> {
    let mut i = 0;
    while i < MAGIC.len() {
        if b.starts_with(MAGIC[i].0) {
            return Some(MAGIC[i].1);
        }
        i += 1;
    }
    let n = b.len();
    if n >= 12 && b[..4] == *b"RIFF" && b[8..12] == *b"WEBP" {
        return Some(ImageFormat::WebP);
    }
    if n >= 12 && b[..2] == [0, 0] && b[4..12] == *b"ftypavif" {
        return Some(ImageFormat::Avif);
    }
    if n >= 2 && b[0] == 0x0a && b[1] < 8 {
        return Some(ImageFormat::Pcx);
    }
    None
}
/// params: length
#[no_mangle]
extern "C" fn formats_guess() {
    let b = vec(param(0));
    let want = expect_format(&b);
    let got = guess_format(&b);
    match (got, want) {
        (Ok(g), Some(w)) => {
            reach(0);
            ck!(g == w)
        }
        (Err(e), None) => {
            reach(1);
            ck!(matches!(e, ImageError::Unsupported(_)))
        }
        _ => ckfail!(),
    }
    let r = ImageReader::new(Cursor::new(&b[..])).with_guessed_format().unwrap();
    ck!(r.format() == want);
}
const EXTS: [(&str, ImageFormat); 23] = [
    ("avif", ImageFormat::Avif), ("jpg", ImageFormat::Jpeg), ("jpeg", ImageFormat::Jpeg), ("jfif", ImageFormat::Jpeg),
    ("png", ImageFormat::Png), ("apng", ImageFormat::Png), ("gif", ImageFormat::Gif), ("webp", ImageFormat::WebP),
    ("tif", ImageFormat::Tiff), ("tiff", ImageFormat::Tiff), ("tga", ImageFormat::Tga), ("dds", ImageFormat::Dds),
    ("bmp", ImageFormat::Bmp), ("ico", ImageFormat::Ico), ("hdr", ImageFormat::Hdr), ("exr", ImageFormat::OpenExr),
    ("pbm", ImageFormat::Pnm), ("pam", ImageFormat::Pnm), ("ppm", ImageFormat::Pnm), ("pgm", ImageFormat::Pnm),
    ("ff", ImageFormat::Farbfeld), ("qoi", ImageFormat::Qoi), ("pcx", ImageFormat::Pcx),
];
fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' {
        b + 32
    } else {
        b
    }
}
/// params: length, 0 = from_extension, 1 = from_path
#[no_mangle]
extern "C" fn formats_ext() {
    use std::os::unix::ffi::OsStrExt;
    let b = vec(param(0));
    let mut want = None;
    for (e, f) in EXTS {
        let e = e.as_bytes();
        if e.len() == b.len() {
            let mut eq = true;
            for i in 0..e.len() {
                eq &= lower(b[i]) == e[i];
            }
            if eq {
                want = Some(f);
            }
        }
    }
    let got = if param(1) == 0 {
        ImageFormat::from_extension(std::ffi::OsStr::from_bytes(&b))
    } else {
        for &x in &b {
            assume(x != b'/' && x != b'.');
        }
        let mut p = b"a/b.c.".to_vec();
        p.extend_from_slice(&b);
        ImageFormat::from_path(std::path::Path::new(std::ffi::OsStr::from_bytes(&p))).ok()
    };
    reach(want.is_none() as u32);
    ck!(got == want);
}
const MIMES: [(&str, ImageFormat); 22] = [
    ("image/avif", ImageFormat::Avif), ("image/jpeg", ImageFormat::Jpeg), ("image/png", ImageFormat::Png),
    ("image/gif", ImageFormat::Gif), ("image/webp", ImageFormat::WebP), ("image/tiff", ImageFormat::Tiff),
    ("image/x-targa", ImageFormat::Tga), ("image/x-tga", ImageFormat::Tga), ("image/vnd-ms.dds", ImageFormat::Dds),
    ("image/bmp", ImageFormat::Bmp), ("image/x-icon", ImageFormat::Ico), ("image/vnd.microsoft.icon", ImageFormat::Ico),
    ("image/vnd.radiance", ImageFormat::Hdr), ("image/x-exr", ImageFormat::OpenExr),
    ("image/x-portable-bitmap", ImageFormat::Pnm), ("image/x-portable-graymap", ImageFormat::Pnm),
    ("image/x-portable-pixmap", ImageFormat::Pnm), ("image/x-portable-anymap", ImageFormat::Pnm),
    ("image/x-qoi", ImageFormat::Qoi), ("image/vnd.zbrush.pcx", ImageFormat::Pcx), ("image/x-pcx", ImageFormat::Pcx),
    ("image/x-pcx", ImageFormat::Pcx),
];
/// params: length
#[no_mangle]
extern "C" fn formats_mime() {
    let b = vec(param(0));
    for &x in &b {
        assume(x < 0x80);
    }
    let mut want = None;
    for (e, f) in MIMES {
        if e.as_bytes() == &b[..] {
            want = Some(f);
        }
    }
    let got = ImageFormat::from_mime_type(std::str::from_utf8(&b).unwrap());
    reach(want.is_none() as u32);
    ck!(got == want);
}
/// tables agree with each other, for a symbolic choice of format
#[no_mangle]
extern "C" fn formats_tables() {
    let all: Vec<ImageFormat> = ImageFormat::all().collect();
    ck!(all.len() == 16);
    let k = each(0, all.len() as u8 - 1) as usize;
    let f = all[k];
    reach(0);
    for (i, g) in all.iter().enumerate() {
        ck!((*g == f) == (i == k));
    }
    ck!(!f.extensions_str().is_empty());
    for e in f.extensions_str() {
        ck!(ImageFormat::from_extension(e) == Some(f));
        ck!(ImageFormat::from_extension(e.to_uppercase()) == Some(f));
    }
    let m = f.to_mime_type();
    ck!(ImageFormat::from_mime_type(m) == if f == ImageFormat::Farbfeld { None } else { Some(f) });
    // enabled implies supported at all
    ck!(!f.reading_enabled() || f.can_read());
    ck!(!f.writing_enabled() || f.can_write());
    ck!(f.can_read() != (f == ImageFormat::Dds));
    ck!(f.can_write() != (f == ImageFormat::Dds || f == ImageFormat::Pcx));
}

// ---------------------------------------------------------------- delays
#[no_mangle]
extern "C" fn delay_ratio() {
    let (n, d) = (any_u32(), any_u32());
    if d == 0 {
        reach(1);
        ckpanics!({ Delay::from_numer_denom_ms(n, d); });
        return;
    }
    reach(0);
    let x = Delay::from_numer_denom_ms(n, d);
    ck!(x.numer_denom_ms() == (n, d));
}
/// params: denominator
#[no_mangle]
extern "C" fn delay_to_duration() {
    let d = param(0) as u32;
    let n = any_u32();
    let dur: Duration = Delay::from_numer_denom_ms(n, d).into();
    reach(0);
    // floor of n/d milliseconds in nanoseconds
    let (ms, rest) = (n / d, n % d);
    ck!(dur.as_secs() == (ms / 1000) as u64);
    ck!(dur.subsec_nanos() as u64 == (ms % 1000) as u64 * 1_000_000 + rest as u64 * 1_000_000 / d as u64);
}
#[no_mangle]
extern "C" fn delay_cmp() {
    let (a, b, c, d) = (any_u32(), any_u32(), any_u32(), any_u32());
    assume(b != 0 && d != 0);
    let (x, y) = (Delay::from_numer_denom_ms(a, b), Delay::from_numer_denom_ms(c, d));
    let (l, r) = (a as u64 * d as u64, c as u64 * b as u64);
    reach(0);
    ck!((x == y) == (l == r));
    ck!((x != y) == (l != r));
    ck!((x < y) == (l < r));
    ck!((x <= y) == (l <= r));
    ck!((x > y) == (l > r));
    ck!((x >= y) == (l >= r));
    ck!(x.partial_cmp(&y) == Some(l.cmp(&r)));
    ck!(x == x && !(x < x));
}
/// params: mode, s or ms. 0: whole milliseconds within a second; 1: `ms` milliseconds and any number of nanoseconds;
/// 2: more than the maximum
#[no_mangle]
extern "C" fn delay_from_duration() {
    let mode = param(0);
    let (ms, sub, dur) = match mode {
        0 => {
            let (secs, mp) = (param(1) as u32, any_u32());
            assume(mp <= 999);
            (secs as u64 * 1000 + mp as u64, 0, Duration::new(secs as u64, mp * 1_000_000))
        }
        1 => {
            let sub = any_u32();
            assume(sub <= 999_999);
            let ms = param(1) as u64;
            (ms, sub, Duration::new(ms / 1000, (ms % 1000) as u32 * 1_000_000 + sub))
        }
        _ => {
            let (secs, nanos) = (any_u64(), any_u32());
            assume(nanos <= 999_999_999 && secs >= 4_294_968);
            (u64::MAX, 0, Duration::new(secs, nanos))
        }
    };
    let (n, d) = Delay::from_saturating_duration(dur).numer_denom_ms();
    reach(0);
    ck!(d != 0);
    if mode == 2 {
        ck!(n == u32::MAX && d == 1);
    } else {
        // within one millisecond, and exact for whole milliseconds
        let diff = (n as i128 * 1_000_000 - (ms as i128 * 1_000_000 + sub as i128) * d as i128).abs();
        ck!(diff < 1_000_000 * d as i128);
        ck!(sub != 0 || diff == 0);
    }
}

// ---------------------------------------------------------------- EXIF
#[no_mangle]
extern "C" fn exif_code() {
    let c = any_u8();
    match Orientation::from_exif(c) {
        Some(o) => {
            reach(0);
            ck!(c >= 1 && c <= 8);
            ck!(o.to_exif() == c);
            ck!(Orientation::from_exif(o.to_exif()) == Some(o));
        }
        None => {
            reach(1);
            ck!(c == 0 || c > 8);
        }
    }
}
fn exif_ref(b: &[u8]) -> Option<u8> {
    if b.len() < 8 {
        return None;
    }
    let le = if b[..4] == [0x49, 0x49, 42, 0] {
        true
    } else if b[..4] == [0x4d, 0x4d, 0, 42] {
        false
    } else {
        return None;
    };
    let u16_at = |i: usize| -> Option<u16> {
        let s = b.get(i..i + 2)?;
        Some(if le { u16::from_le_bytes([s[0], s[1]]) } else { u16::from_be_bytes([s[0], s[1]]) })
    };
    let u32_at = |i: usize| -> Option<u32> {
        let s = b.get(i..i + 4)?;
        let a = [s[0], s[1], s[2], s[3]];
        Some(if le { u32::from_le_bytes(a) } else { u32::from_be_bytes(a) })
    };
    let off = u32_at(4)?;
    if off as usize >= b.len() {
        return None;
    }
    let off = conc(off as u64) as usize;
    let n = u16_at(off)?;
    let mut p = off + 2;
    let mut i = 0;
    while i < n {
        let (t, f, c, v) = (u16_at(p)?, u16_at(p + 2)?, u32_at(p + 4)?, u16_at(p + 8)?);
        u16_at(p + 10)?;
        if t == 0x112 && f == 3 && c == 1 {
            return if v >= 1 && v <= 8 { Some(v as u8) } else { None };
        }
        p += 12;
        i += 1;
    }
    None
}
/// params: length
#[no_mangle]
extern "C" fn exif_chunk() {
    let b = vec(param(0));
    let want = exif_ref(&b);
    let got = image::verif::orientation_from_exif_chunk(&b).map(|o| o.to_exif());
    reach(want.is_none() as u32);
    ck!(got == want);
}

// ---------------------------------------------------------------- resize dimensions
fn rounds(exact_n: u128, exact_d: u128, v: u32) -> bool {
    // |v - n/d| <= 1, or the minimum of one pixel
    let v = v as u128;
    let (l, r) = (v * exact_d, exact_n);
    let diff = if l > r { l - r } else { r - l };
    diff <= exact_d || v == 1 && exact_n <= exact_d
}
fn dims_ok(w: u32, h: u32, nw: u32, nh: u32, fill: bool, r: (u32, u32)) {
    ck!(r.0 >= 1 && r.1 >= 1);
    // does the width decide?
    let by_w = (nw as u64 * h as u64 <= nh as u64 * w as u64) != fill;
    let tie = nw as u64 * h as u64 == nh as u64 * w as u64;
    if !fill {
        ck!(r.0 <= nw && r.1 <= nh);
    }
    if by_w || tie {
        ck!(r.0 == nw || r.1 == u32::MAX);
        if r.1 != u32::MAX {
            ck!(rounds(h as u128 * nw as u128, w as u128, r.1));
        }
    } else {
        ck!(r.1 == nh || r.0 == u32::MAX);
        if r.0 != u32::MAX {
            ck!(rounds(w as u128 * nh as u128, h as u128, r.0));
        }
    }
    if fill {
        ck!(r.0 >= nw || r.1 == u32::MAX);
        ck!(r.1 >= nh || r.0 == u32::MAX);
    }
}
/// params: fill, zero mask
#[no_mangle]
extern "C" fn resize_dims() {
    let (w, h, nw, nh) = (any_u32(), any_u32(), any_u32(), any_u32());
    let r = image::verif::resize_dimensions(w, h, nw, nh, param(0) == 1);
    reach(0);
    ck!(r.0 >= 1 && r.1 >= 1);
}
/// params: fill, w, h, max requested
#[no_mangle]
extern "C" fn resize_small() {
    let m = param(3) as u32;
    let (w, h) = (param(1) as u32, param(2) as u32);
    let (nw, nh) = if m < 256 { (small(1, m as u8), small(1, m as u8)) } else { (in_range(1, m), in_range(1, m)) };
    let fill = param(0) == 1;
    let r = image::verif::resize_dimensions(w, h, nw, nh, fill);
    reach(0);
    dims_ok(w, h, nw, nh, fill, r);
}
