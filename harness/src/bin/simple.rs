#![cfg_attr(rustfmt, rustfmt_skip)]
//! P17 farbfeld, QOI and TIFF round trips, P24 farbfeld and QOI decoding, P37 farbfeld truncation.
use hx::*;
use image::codecs::farbfeld::*;
use image::codecs::qoi::*;
use image::codecs::tiff::*;
use image::*;
use std::io::Cursor;

fn ne(px: &[u16]) -> Vec<u8> {
    px.iter().flat_map(|p| p.to_ne_bytes()).collect()
}
fn ff_file(w: u32, h: u32) -> Vec<u8> {
    let mut f = b"farbfeld".to_vec();
    f.extend_from_slice(&w.to_be_bytes());
    f.extend_from_slice(&h.to_be_bytes());
    f
}
/// params: w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn ff_roundtrip() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let px = u16s((w * h * 4) as usize);
    let raw = ne(&px);
    let mut out = Vec::new();
    FarbfeldEncoder::new(&mut out).write_image(&raw, w, h, ExtendedColorType::Rgba16).unwrap();
    // the file by definition
    let mut want = ff_file(w, h);
    for p in &px {
        want.extend_from_slice(&p.to_be_bytes());
    }
    ckeq!(out, want);
    let d = FarbfeldDecoder::new(&out[..]).unwrap();
    ck!(d.dimensions() == (w, h) && d.color_type() == ColorType::Rgba16 && d.total_bytes() == raw.len() as u64);
    let mut b = vec![0x55; raw.len()];
    d.read_image(&mut b).unwrap();
    ckeq!(b, raw);
    reach(0);
}
/// Any header, and 8 bytes of pixels; param: header bytes left out at the end
#[no_mangle]
#[inline(never)]
pub extern "C" fn ff_header() {
    let mut f = bytes::<24>().to_vec();
    f.truncate(24 - param(0));
    alloc_mark();
    let r = FarbfeldDecoder::new(&f[..]);
    let magic = f.len() >= 16 && (0..8).fold(true, |a, i| a & (f[i] == b"farbfeld"[i]));
    match r {
        Err(_) => {
            if magic {
                let w = u32::from_be_bytes(f[8..12].try_into().unwrap()) as u64;
                let h = u32::from_be_bytes(f[12..16].try_into().unwrap()) as u64;
                ck!(w * h > u64::MAX / 8);
            }
            reach(1);
        }
        Ok(d) => {
            ck!(magic);
            let (w, h) = d.dimensions();
            ck!(w == u32::from_be_bytes(f[8..12].try_into().unwrap()));
            ck!(h == u32::from_be_bytes(f[12..16].try_into().unwrap()));
            ck!(w as u64 * h as u64 <= u64::MAX / 8);
            ck!(d.total_bytes() == w as u64 * h as u64 * 8);
            reach(0);
            if w <= 2 && h <= 2 {
                let (w, h) = (conc(w as u64) as usize, conc(h as u64) as usize);
                let mut b = vec![1; w * h * 8];
                let r = d.read_image(&mut b);
                ck!(r.is_ok() == (w * h * 8 <= f.len() - 16));
                if r.is_ok() {
                    for i in 0..w * h * 4 {
                        let v = u16::from_ne_bytes([b[2 * i], b[2 * i + 1]]);
                        ck!(v == u16::from_be_bytes([f[16 + 2 * i], f[17 + 2 * i]]));
                    }
                    reach(2);
                } else {
                    reach(3);
                }
            }
        }
    }
    ck!(alloc_peak() < 4000);
}
/// params: w, h, bytes of pixel data present
#[no_mangle]
#[inline(never)]
pub extern "C" fn ff_decode() {
    let (w, h, n) = (param(0) as u32, param(1) as u32, param(2));
    let mut f = ff_file(w, h);
    f.extend_from_slice(&vec(n));
    let d = FarbfeldDecoder::new(&f[..]).unwrap();
    let mut b = vec![1; (w * h * 8) as usize];
    let r = d.read_image(&mut b);
    ck!(r.is_ok() == (n >= b.len()));
    if r.is_ok() {
        for i in 0..b.len() / 2 {
            ck!(u16::from_ne_bytes([b[2 * i], b[2 * i + 1]]) == u16::from_be_bytes([f[16 + 2 * i], f[17 + 2 * i]]));
        }
        reach(0);
    } else {
        reach(1);
    }
}
/// params: w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn ff_truncated() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let px = ne(&u16s((w * h * 4) as usize));
    let mut out = Vec::new();
    FarbfeldEncoder::new(&mut out).write_image(&px, w, h, ExtendedColorType::Rgba16).unwrap();
    for cut in 0..out.len() {
        match FarbfeldDecoder::new(&out[..cut]) {
            Err(_) => {
                ck!(cut < 16);
                reach(0);
            }
            Ok(d) => {
                let mut b = vec![0; px.len()];
                ck!(d.read_image(&mut b).is_err());
                reach(1);
            }
        }
    }
}
/// params: w, h, colour (0 Rgb8, 1 Rgba8), free channels (0: all)
#[no_mangle]
#[inline(never)]
pub extern "C" fn qoi_roundtrip() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let (c, n) = [(ExtendedColorType::Rgb8, 3), (ExtendedColorType::Rgba8, 4)][param(2)];
    let mut px = u8s((w * h) as usize * n);
    // with a number of free channels, the others are constants
    if param(3) > 0 {
        for i in 0..px.len() {
            if i % n >= param(3) {
                px[i] = (40 * (i % n) + 100 * (i / n % 2)) as u8;
            }
        }
    }
    let mut out = Vec::new();
    QoiEncoder::new(&mut out).write_image(&px, w, h, c).unwrap();
    qoi_back(&out, &px, w, h, c);
    reach(0);
}
fn qoi_back(out: &[u8], px: &[u8], w: u32, h: u32, c: ExtendedColorType) {
    let d = QoiDecoder::new(out).unwrap();
    ck!(d.dimensions() == (w, h) && ExtendedColorType::from(d.color_type()) == c && d.total_bytes() == px.len() as u64);
    let mut b = vec![0x55; px.len()];
    d.read_image(&mut b).unwrap();
    observe(&b);
    ckeq!(b, px);
}
/// Runs: n times the same pixel, then a second pixel; params: colour, fewest pixels, most
#[no_mangle]
#[inline(never)]
pub extern "C" fn qoi_runs() {
    let (c, n) = [(ExtendedColorType::Rgb8, 3), (ExtendedColorType::Rgba8, 4)][param(0)];
    let k = each(param(1) as u8, param(2) as u8) as usize;
    let (a, b) = (vec(n), vec(n));
    let mut px = vec![];
    for _ in 0..k {
        px.extend_from_slice(&a);
    }
    px.extend_from_slice(&b);
    let mut out = Vec::new();
    QoiEncoder::new(&mut out).write_image(&px, k as u32 + 1, 1, c).unwrap();
    qoi_back(&out, &px, k as u32 + 1, 1, c);
    reach(0);
}
/// Any header
#[no_mangle]
#[inline(never)]
pub extern "C" fn qoi_header() {
    let f = bytes::<14>();
    alloc_mark();
    let r = QoiDecoder::new(&f[..14 - param(0)]);
    let be = |i: usize| u32::from_be_bytes([f[i], f[i + 1], f[i + 2], f[i + 3]]);
    match r {
        Err(_) => reach(1),
        Ok(d) => {
            ck!(param(0) == 0);
            ck!(be(0) == 0x716f6966);
            ck!(d.dimensions() == (be(4), be(8)));
            ck!(f[12] == 3 || f[12] == 4);
            ck!((d.color_type() == ColorType::Rgb8) == (f[12] == 3) && (d.color_type() == ColorType::Rgba8) == (f[12] == 4));
            ck!(d.total_bytes() == be(4) as u64 * be(8) as u64 * f[12] as u64);
            reach(0);
        }
    }
    ck!(alloc_peak() < 4000);
}
/// QOI by definition; None where the definition says nothing
fn qoi_reference(f: &[u8], cnt: usize, ch: usize) -> Option<Result<Vec<u8>, ()>> {
    let mut index = [[0u8; 4]; 64];
    let mut set = [false; 64];
    let mut p = [0u8, 0, 0, 255];
    let mut out: Vec<u8> = vec![];
    let mut i = 0;
    let mut fuzzy = false;
    while out.len() < cnt * ch {
        if i >= f.len() {
            return Some(Err(()));
        }
        let b = conc(f[i] as u64) as u8;
        i += 1;
        let mut run = 1;
        match b {
            0xfe | 0xff => {
                if i + b as usize - 0xfb > f.len() {
                    return Some(Err(()));
                }
                p[..3].copy_from_slice(&f[i..i + 3]);
                i += 3;
                if b == 0xff {
                    if ch == 3 {
                        fuzzy = true;
                    }
                    p[3] = f[i];
                    i += 1;
                }
            }
            0..=0x3f => {
                fuzzy |= !set[b as usize];
                p = index[b as usize];
            }
            0x40..=0x7f => {
                p[0] = p[0].wrapping_add((b >> 4) & 3).wrapping_sub(2);
                p[1] = p[1].wrapping_add((b >> 2) & 3).wrapping_sub(2);
                p[2] = p[2].wrapping_add(b & 3).wrapping_sub(2);
            }
            0x80..=0xbf => {
                if i >= f.len() {
                    return Some(Err(()));
                }
                let g = (b & 0x3f).wrapping_sub(32);
                p[0] = p[0].wrapping_add(g).wrapping_sub(8).wrapping_add(f[i] >> 4);
                p[1] = p[1].wrapping_add(g);
                p[2] = p[2].wrapping_add(g).wrapping_sub(8).wrapping_add(f[i] & 15);
                i += 1;
            }
            _ => run = (b & 0x3f) as usize + 1,
        }
        let ran = b >= 0xc0 && b < 0xfe;
        // a file whose definition is left to the decoder from here on
        if fuzzy {
            return None;
        }
        let k = conc((p[0].wrapping_mul(3).wrapping_add(p[1].wrapping_mul(5)).wrapping_add(p[2].wrapping_mul(7)).wrapping_add(p[3].wrapping_mul(11)) % 64) as u64) as usize;
        index[k] = p;
        // a run repeats a pixel already seen, save for the pixel before the first one
        set[k] |= !ran;
        for _ in 0..run {
            if out.len() < cnt * ch {
                out.extend_from_slice(&p[..ch]);
            }
        }
    }
    if f.len() - i < 8 {
        return Some(Err(()));
    }
    Some(Ok(out))
}
/// params: channels, w, h, data bytes, 1: end marker after them
#[no_mangle]
#[inline(never)]
pub extern "C" fn qoi_decode() {
    let (ch, w, h, n) = (param(0), param(1), param(2), param(3));
    let mut body = vec(n);
    if param(4) == 1 {
        body.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 1]);
    }
    let want = qoi_reference(&body, w * h, ch);
    let mut f = b"qoif".to_vec();
    f.extend_from_slice(&(w as u32).to_be_bytes());
    f.extend_from_slice(&(h as u32).to_be_bytes());
    f.extend_from_slice(&[ch as u8, 0]);
    f.extend_from_slice(&body);
    let d = QoiDecoder::new(&f[..]).unwrap();
    ck!(d.total_bytes() == (w * h * ch) as u64);
    let mut b = vec![1; w * h * ch];
    let r = d.read_image(&mut b);
    let mut b2 = vec![2; w * h * ch];
    let r2 = QoiDecoder::new(&f[..]).unwrap().read_image(&mut b2);
    ck!(r.is_ok() == r2.is_ok());
    if r.is_ok() {
        ckeq!(b, b2);
        reach(0);
    } else {
        reach(1);
    }
    match want {
        Some(Ok(p)) if r.is_ok() => ckeq!(b, p),
        // what follows the pixels is not zero, .., zero, one
        Some(Ok(_)) => {}
        Some(Err(())) => ck!(r.is_err()),
        None => {}
    }
}
/// params: w, h, colour (0 L8, 1 Rgb8, 2 Rgba8, 3 L16, 4 Rgb16, 5 Rgba16)
#[no_mangle]
#[inline(never)]
pub extern "C" fn tiff_roundtrip() {
    let (w, h, k) = (param(0) as u32, param(1) as u32, param(2));
    use ColorType::*;
    let c = [L8, Rgb8, Rgba8, L16, Rgb16, Rgba16][k];
    let n = (w * h) as usize * c.channel_count() as usize;
    let p16;
    let p8;
    let raw: &[u8] = if k >= 3 {
        p16 = u16s(n);
        unsafe { std::slice::from_raw_parts(p16.as_ptr() as *const u8, 2 * n) }
    } else {
        p8 = u8s(n);
        &p8
    };
    let mut out = Cursor::new(Vec::new());
    TiffEncoder::new(&mut out).write_image(raw, w, h, c.into()).unwrap();
    let out = out.into_inner();
    let d = TiffDecoder::new(Cursor::new(&out[..])).unwrap();
    ck!(d.dimensions() == (w, h) && d.color_type() == c && d.total_bytes() == raw.len() as u64);
    let mut b = vec![0x55; raw.len()];
    d.read_image(&mut b).unwrap();
    observe(&b);
    ckeq!(b, raw);
    reach(0);
}
harnesses!(ff_roundtrip, ff_header, ff_decode, ff_truncated, qoi_roundtrip, qoi_runs, qoi_header, qoi_decode, tiff_roundtrip);
