#![cfg_attr(rustfmt, rustfmt_skip)]
//! P15 TGA round trips, P21 TGA decoding, P37 truncation.
use hx::*;
use image::codecs::tga::{TgaDecoder, TgaEncoder};
use image::*;

const COLORS: [ExtendedColorType; 4] = [ExtendedColorType::L8, ExtendedColorType::La8, ExtendedColorType::Rgb8, ExtendedColorType::Rgba8];

fn encode(px: &[u8], w: u32, h: u32, c: usize, rle: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let e = TgaEncoder::new(&mut out);
    let e = if rle { e } else { e.disable_rle() };
    e.encode(px, w, h, COLORS[c]).unwrap();
    out
}
fn back(out: &[u8], px: &[u8], w: u32, h: u32, c: usize) {
    let d = TgaDecoder::new(out).unwrap();
    ck!(d.dimensions() == (w, h));
    ck!(d.color_type() == [ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8][c]);
    ck!(d.total_bytes() == px.len() as u64);
    let mut b = vec![0x5au8; px.len()];
    d.read_image(&mut b).unwrap();
    observe(&b);
    ckeq!(b, px);
}
/// params: w, h, colour, rle
#[no_mangle]
#[inline(never)]
pub extern "C" fn tga_roundtrip() {
    let (w, h, c) = (param(0) as u32, param(1) as u32, param(2));
    let px = u8s((w * h) as usize * (c + 1));
    let out = encode(&px, w, h, c, param(3) == 1);
    back(&out, &px, w, h, c);
    reach(0);
}
/// Long runs: a constant run of any length up to 255 (+ param 1), then differing pixels, then a run; params: colour, base, middle, last
#[no_mangle]
#[inline(never)]
pub extern "C" fn tga_runs() {
    let c = param(0);
    let n = each(0, 255) as usize + param(1);
    let (mid, last) = (param(2), param(3));
    let a = vec(c + 1);
    let b = vec(c + 1);
    assume((0..c + 1).any(|i| a[i] != b[i]));
    let mut px = vec![];
    for _ in 0..n {
        px.extend_from_slice(&a);
    }
    for i in 0..mid {
        px.extend_from_slice(if i % 2 == 0 { &b } else { &a });
    }
    for _ in 0..last {
        px.extend_from_slice(&a);
    }
    let w = (n + mid + last) as u32;
    if w == 0 {
        return;
    }
    let out = encode(&px, w, 1, c, true);
    // no packet is longer than needed: at most one byte per 128 raw pixels plus one per change
    ck!(out.len() <= 18 + px.len() + px.len() / 128 + 2 + 2 * mid);
    back(&out, &px, w, 1, c);
    reach(0);
}
enum Want {
    Pixels(Vec<u8>),
    Error,
    Anything,
}
/// TGA by definition.
fn reference(f: &[u8]) -> Want {
    let u16_at = |i: usize| f[i] as usize | (f[i + 1] as usize) << 8;
    if f.len() < 18 {
        return Want::Error;
    }
    let (idl, mt, ty, mo, ml, me) = (f[0] as usize, f[1], f[2], u16_at(3), u16_at(5), f[7]);
    let (w, h, depth, desc) = (u16_at(12), u16_at(14), f[16], f[17]);
    let mapped = ty == 1 || ty == 9;
    let rle = ty >= 8;
    if !mapped && ty != 2 && ty != 3 && ty != 10 && ty != 11 {
        return Want::Anything;
    }
    let color = ty != 3 && ty != 11;
    let alpha = desc & 15;
    if depth % 8 != 0 || depth > 32 || depth == 0 {
        return Want::Anything;
    }
    let bits = if mapped {
        if mt != 1 {
            return Want::Anything;
        }
        me
    } else {
        if alpha > depth {
            return Want::Anything;
        }
        depth - alpha
    };
    let ch = match (alpha, bits, color) {
        (0, 32, true) | (8, 24, true) => 4,
        (0, 24, true) => 3,
        (8, 8, false) => 2,
        (0, 8, false) | (8, 0, false) => 1,
        _ => return Want::Anything,
    };
    let mut p = 18 + idl;
    let mut map = &f[..0];
    if mt == 1 {
        let n = ml * ((me as usize + 7) / 8);
        if f.len() < p + n {
            return Want::Error;
        }
        map = &f[p..p + n];
        p += n;
    }
    let bpp = depth as usize / 8;
    // the stored elements
    let total = w * h * bpp;
    let mut raw = vec![];
    if rle {
        while raw.len() < total {
            if p >= f.len() {
                return Want::Error;
            }
            let k = (conc(f[p] as u64 & 127) + 1) as usize;
            let run = f[p] > 127;
            p += 1;
            if f.len() < p + if run { bpp } else { 0 } {
                return Want::Error;
            }
            if run {
                for _ in 0..k {
                    raw.extend_from_slice(&f[p..p + bpp]);
                }
                p += bpp;
            } else {
                if f.len() < p + k * bpp {
                    // the file ends in the last packet, past the pixels that matter
                    return if raw.len() + (f.len() - p) < total { Want::Error } else { Want::Anything };
                }
                raw.extend_from_slice(&f[p..p + k * bpp]);
                p += k * bpp;
            }
        }
        raw.truncate(total);
    } else {
        if f.len() < p + total {
            return Want::Error;
        }
        raw.extend_from_slice(&f[p..p + total]);
    }
    let mut px = vec![];
    for e in raw.chunks_exact(bpp) {
        if mapped {
            let eb = (me as usize + 7) / 8;
            if eb != ch {
                return Want::Error;
            }
            let mut i = 0usize;
            for (k, b) in e.iter().enumerate() {
                i |= (*b as usize) << (8 * k);
            }
            if i < mo || i - mo >= ml {
                return Want::Error;
            }
            let i = conc((i - mo) as u64) as usize;
            px.extend_from_slice(&map[i * eb..(i + 1) * eb]);
        } else {
            px.extend_from_slice(e);
        }
    }
    if ch >= 3 {
        for q in px.chunks_exact_mut(ch) {
            q.swap(0, 2);
        }
    }
    if desc & 0x20 == 0 {
        let r = w * ch;
        let mut out = vec![];
        for y in (0..h).rev() {
            out.extend_from_slice(&px[y * r..(y + 1) * r]);
        }
        px = out;
    }
    Want::Pixels(px)
}
/// Every header and payload of some length; params: image type (255: any other), depth (255: any), w, h, bytes after the header, 1: colour map
#[no_mangle]
#[inline(never)]
pub extern "C" fn tga_decode() {
    let (ty, depth, w, h, n) = (param(0), param(1), param(2), param(3), param(4));
    let mut f = vec(18 + n);
    if ty != 255 {
        f[2] = ty as u8;
    } else {
        assume(f[2] != 1 && f[2] != 2 && f[2] != 3 && f[2] != 9 && f[2] != 10 && f[2] != 11);
    }
    if depth != 255 {
        f[16] = depth as u8;
    }
    f[0] = conc(f[0].min(2) as u64) as u8;
    if param(5) == 0 {
        assume(f[1] != 1);
    } else {
        f[1] = 1;
        f[6] = 0;
        f[5] = conc(f[5].min(4) as u64) as u8;
        f[7] = conc(f[7] as u64) as u8;
        if param(5) == 2 {
            assume(f[7] == 24 || f[7] == 32);
        }
    }
    (f[12], f[13], f[14], f[15]) = (w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8);
    let want = reference(&f);
    alloc_mark();
    let d = match TgaDecoder::new(&f[..]) {
        Ok(d) => d,
        Err(_) => {
            reach(1);
            ck!(!matches!(want, Want::Pixels(_)));
            return;
        }
    };
    ck!(d.dimensions() == (w as u32, h as u32));
    let bpp = d.color_type().bytes_per_pixel() as u64;
    ck!(d.total_bytes() == w as u64 * h as u64 * bpp);
    let m = d.total_bytes() as usize;
    let mut b = vec![0u8; m];
    let r = d.read_image(&mut b);
    ck!(alloc_peak() <= 100_000);
    let mut b2 = vec![0xa5u8; m];
    let r2 = TgaDecoder::new(&f[..]).unwrap().read_image(&mut b2);
    ck!(r.is_ok() == r2.is_ok());
    if r.is_ok() {
        // the buffer is filled completely
        ckeq!(b, b2);
        observe(&b);
    }
    match want {
        Want::Pixels(p) => {
            ck!(r.is_ok());
            ckeq!(b, p);
            reach(0);
        }
        Want::Error => {
            ck!(r.is_err());
            reach(2);
        }
        Want::Anything => {}
    }
}
/// Any dimensions: the decoder reports them and what they need
#[no_mangle]
#[inline(never)]
pub extern "C" fn tga_header() {
    let mut f = vec(18);
    f[0] = 0;
    if f[1] == 1 {
        (f[5], f[6]) = (0, 0);
    }
    let w = f[12] as u64 | (f[13] as u64) << 8;
    let h = f[14] as u64 | (f[15] as u64) << 8;
    alloc_mark();
    match TgaDecoder::new(&f[..]) {
        Ok(d) => {
            ck!(d.dimensions() == (w as u32, h as u32));
            ck!(d.total_bytes() == w * h * d.color_type().bytes_per_pixel() as u64);
            reach(0);
        }
        Err(_) => reach(1),
    }
    ck!(alloc_peak() < 4096);
}
/// Every strict prefix is refused; params: w, h, colour, rle
#[no_mangle]
#[inline(never)]
pub extern "C" fn tga_truncated() {
    let (w, h, c) = (param(0) as u32, param(1) as u32, param(2));
    let px = u8s((w * h) as usize * (c + 1));
    let out = encode(&px, w, h, c, param(3) == 1);
    for n in 0..out.len() {
        let mut b = vec![0u8; px.len()];
        match TgaDecoder::new(&out[..n]) {
            Ok(d) => {
                ck!(d.total_bytes() == px.len() as u64);
                ck!(d.read_image(&mut b).is_err());
                reach(0);
            }
            Err(_) => reach(1),
        }
    }
}
harnesses!(tga_roundtrip, tga_runs, tga_decode, tga_header, tga_truncated);
