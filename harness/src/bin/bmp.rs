#![cfg_attr(rustfmt, rustfmt_skip)]
//! P14 BMP round trips, P20 BMP decoding, P35 rectangles, P37 truncation.
use hx::*;
use image::codecs::bmp::{BmpDecoder, BmpEncoder};
use image::*;
use std::io::Cursor;

/// params: w, h, color (0 L8, 1 Rgb8, 2 Rgba8, 3 La8)
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_roundtrip() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let c = [ExtendedColorType::L8, ExtendedColorType::Rgb8, ExtendedColorType::Rgba8, ExtendedColorType::La8][param(2)];
    let px = u8s((w * h) as usize * c.channel_count() as usize);
    let mut out = Vec::new();
    BmpEncoder::new(&mut out).encode(&px, w, h, c).unwrap();
    observe(&out);
    // what the file says of itself
    ck!(out[2..6] == (out.len() as u32).to_le_bytes());
    let dec = BmpDecoder::new(Cursor::new(&out[..])).unwrap();
    ck!(dec.dimensions() == (w, h));
    let n = dec.total_bytes() as usize;
    let mut b = vec![0u8; n];
    let ct = dec.color_type();
    dec.read_image(&mut b).unwrap();
    observe(&b);
    if param(2) % 3 == 0 {
        // grey BMPs decode as RGB through the grey palette
        let k = param(2) / 3 + 1;
        ck!(ct == ColorType::Rgb8);
        for i in 0..(w * h) as usize {
            let p = px[k * i];
            ck!(b[3 * i] == p && b[3 * i + 1] == p && b[3 * i + 2] == p);
        }
        let mut d = BmpDecoder::new(Cursor::new(&out[..])).unwrap();
        d.set_indexed_color(true);
        let mut b = vec![0u8; (w * h) as usize];
        d.read_image(&mut b).unwrap();
        for i in 0..(w * h) as usize {
            ck!(b[i] == px[k * i]);
        }
    } else {
        ck!(ct == if param(2) == 1 { ColorType::Rgb8 } else { ColorType::Rgba8 });
        ckeq!(b, px);
    }
    reach(0);
}
/// A palette of n colours; params: w, h, n, 1: with alpha
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_palette() {
    let (w, h, n) = (param(0) as u32, param(1) as u32, param(2));
    let pal: Vec<[u8; 3]> = (0..n).map(|_| bytes::<3>()).collect();
    let k = param(3) + 1;
    let px = u8s((w * h) as usize * k);
    for i in 0..(w * h) as usize {
        assume((px[k * i] as usize) < n);
    }
    let mut out = Vec::new();
    let c = if k == 1 { ExtendedColorType::L8 } else { ExtendedColorType::La8 };
    BmpEncoder::new(&mut out).encode_with_palette(&px, w, h, c, Some(&pal)).unwrap();
    ck!(out[2..6] == (out.len() as u32).to_le_bytes());
    let dec = BmpDecoder::new(Cursor::new(&out[..])).unwrap();
    ck!(dec.dimensions() == (w, h) && dec.color_type() == ColorType::Rgb8);
    for (i, p) in dec.get_palette().unwrap().iter().enumerate() {
        ck!(*p == if i < n { pal[i] } else { [0; 3] });
    }
    let mut b = vec![0u8; dec.total_bytes() as usize];
    dec.read_image(&mut b).unwrap();
    for i in 0..(w * h) as usize {
        let p = pal[px[k * i] as usize];
        ck!(b[3 * i] == p[0] && b[3 * i + 1] == p[1] && b[3 * i + 2] == p[2]);
    }
    reach(0);
}

enum Want {
    Pixels(usize, usize, ColorType, Vec<u8>),
    Error,
    Anything,
}
/// One channel of a bit mask: position and length, or not a mask.
fn mask(m: u32, bits: u32) -> Option<(u32, u32)> {
    if m == 0 {
        return Some((0, 0));
    }
    let m = conc(m as u64) as u32;
    let lo = m.trailing_zeros();
    let hi = 32 - m.leading_zeros();
    if m.count_ones() != hi - lo || hi > bits {
        return None;
    }
    Some((lo, hi - lo))
}
fn channel(v: u32, (lo, n): (u32, u32)) -> u8 {
    // the eight highest bits
    let (lo, n) = if n > 8 { (lo + n - 8, 8) } else { (lo, n) };
    let max = (1u32 << n) - 1;
    let x = (v >> lo) & max;
    ((x * 255 * 2 + max) / (2 * max)) as u8
}
/// BMP by definition.
fn reference(f: &[u8], no_file_header: bool, indexed: bool) -> Want {
    let u16_at = |i: usize| f[i] as u32 | (f[i + 1] as u32) << 8;
    let u32_at = |i: usize| f[i] as u32 | (f[i + 1] as u32) << 8 | (f[i + 2] as u32) << 16 | (f[i + 3] as u32) << 24;
    let o = if no_file_header { 0 } else { 14 };
    if f.len() < o + 4 {
        return Want::Error;
    }
    if !no_file_header && (f[0] != b'B' || f[1] != b'M') {
        return Want::Error;
    }
    let hs = conc(u32_at(o) as u64) as u32;
    if ![12, 40, 52, 56, 108, 124].contains(&hs) {
        return Want::Error;
    }
    let core = hs == 12;
    if f.len() < o + if core { 12 } else { 40 } {
        return Want::Error;
    }
    let (w, h, top) = if core {
        (u16_at(o + 4) as i64, u16_at(o + 6) as i64, false)
    } else {
        let h = u32_at(o + 8) as i32 as i64;
        (u32_at(o + 4) as i32 as i64, h.abs(), h < 0)
    };
    if w < 0 || w > 65535 || h > 65535 {
        // (the decoder takes taller images when stored from the top)
        return if top && w >= 0 && w <= 65535 { Want::Anything } else { Want::Error };
    }
    if w == 0 || h == 0 {
        return Want::Error;
    }
    let planes = u16_at(if core { o + 8 } else { o + 12 });
    let bpp = conc(u16_at(if core { o + 10 } else { o + 14 }) as u64) as u32;
    let comp = if core { 0 } else { conc(u32_at(o + 16) as u64) as u32 };
    let used = if core { 0 } else { u32_at(o + 32) };
    if planes != 1 {
        return Want::Error;
    }
    let ok = match comp {
        0 => [1, 4, 8, 24].contains(&bpp) || !core && [2, 16, 32].contains(&bpp),
        1 => bpp == 8 && !top,
        2 => bpp == 4 && !top,
        3 => bpp == 16 || bpp == 32,
        _ => false,
    };
    if !ok {
        return Want::Error;
    }
    let mut p = o + hs as usize;
    let mut masks = [(0, 0); 4];
    if comp == 3 {
        if f.len() < o + 52 {
            return Want::Error;
        }
        let n = if hs >= 56 { 4 } else { 3 };
        if f.len() < o + 40 + 4 * n {
            return Want::Error;
        }
        for i in 0..n {
            match mask(u32_at(o + 40 + 4 * i), bpp) {
                Some(m) => masks[i] = m,
                None => return Want::Error,
            }
        }
        if masks[0].1 == 0 || masks[1].1 == 0 || masks[2].1 == 0 {
            return Want::Error;
        }
        if hs == 40 {
            p += 12;
        }
    }
    let mut pal = vec![[0u8; 3]; 256];
    let paletted = bpp <= 8;
    if paletted {
        let n = if used == 0 { 1 << bpp } else { used };
        if n > 1 << bpp {
            return Want::Error;
        }
        let n = conc(n as u64) as usize;
        let e = if core { 3 } else { 4 };
        if f.len() < p + n * e {
            return Want::Error;
        }
        for i in 0..n {
            pal[i] = [f[p + e * i + 2], f[p + e * i + 1], f[p + e * i]];
        }
        p += n * e;
    }
    if !no_file_header {
        p = conc(u32_at(10) as u64) as usize;
    }
    let (w, h) = (conc(w as u64) as usize, conc(h as u64) as usize);
    let indexed = indexed && paletted;
    let ch = if indexed { 1 } else if masks[3].1 > 0 { 4 } else { 3 };
    let mut out = vec![0u8; w * h * ch];
    let put = |out: &mut Vec<u8>, x: usize, y: usize, v: &[u8]| {
        let y = if top { y } else { h - 1 - y };
        out[(y * w + x) * ch..][..ch].copy_from_slice(v);
    };
    let color = |i: u8| if indexed { vec![i] } else { pal[i as usize].to_vec() };
    if comp == 1 || comp == 2 {
        let (mut x, mut y) = (0, 0);
        let at = |p: usize| if p < f.len() { Some(f[p]) } else { None };
        macro_rules! get {
            () => {{
                let Some(b) = at(p) else { return Want::Error };
                p += 1;
                b
            }};
        }
        // pixels no code has set are black
        loop {
            let n = get!();
            if n != 0 {
                let v = get!();
                if n as usize > w - x {
                    return Want::Error;
                }
                for k in 0..conc(n as u64) {
                    put(&mut out, x, y, &color(if comp == 1 { v } else if k % 2 == 0 { v >> 4 } else { v & 15 }));
                    x += 1;
                }
                continue;
            }
            match get!() {
                0 => {
                    x = 0;
                    y += 1;
                    if y == h {
                        return Want::Pixels(w, h, if indexed { ColorType::L8 } else { ColorType::Rgb8 }, out);
                    }
                }
                1 => return Want::Pixels(w, h, if indexed { ColorType::L8 } else { ColorType::Rgb8 }, out),
                2 => {
                    let (dx, dy) = (get!(), get!());
                    if dy as usize >= h - y || dx as usize > w - x {
                        return Want::Error;
                    }
                    x += conc(dx as u64) as usize;
                    y += conc(dy as u64) as usize;
                }
                n => {
                    let n = conc(n as u64) as usize;
                    let bytes = if comp == 1 { n } else { (n + 1) / 2 };
                    let bytes = bytes + bytes % 2;
                    if f.len() < p + bytes || n > w - x {
                        return Want::Error;
                    }
                    for k in 0..n {
                        let i = if comp == 1 { f[p + k] } else if k % 2 == 0 { f[p + k / 2] >> 4 } else { f[p + k / 2] & 15 };
                        put(&mut out, x, y, &color(i));
                        x += 1;
                    }
                    p += bytes;
                }
            }
        }
    }
    let row = (w * bpp as usize + 31) / 32 * 4;
    if f.len() < p {
        return Want::Error;
    }
    let f = &f[p..];
    // the padding of the last row may be missing in some 32 bit files, never needed
    if f.len() < row * h {
        return Want::Error;
    }
    for y in 0..h {
        for x in 0..w {
            let r = &f[y * row..];
            match bpp {
                1 | 2 | 4 | 8 => {
                    let bit = x * bpp as usize;
                    let i = (r[bit / 8] >> (8 - bpp as usize - bit % 8)) & ((1u32 << bpp) - 1) as u8;
                    put(&mut out, x, y, &color(i));
                }
                24 => put(&mut out, x, y, &[r[3 * x + 2], r[3 * x + 1], r[3 * x]]),
                _ => {
                    let n = bpp as usize / 8;
                    let mut v = 0;
                    for k in 0..n {
                        v |= (r[n * x + k] as u32) << (8 * k);
                    }
                    if comp == 0 {
                        masks = if bpp == 16 { [(10, 5), (5, 5), (0, 5), (0, 0)] } else { [(16, 8), (8, 8), (0, 8), (0, 0)] };
                    }
                    let c: Vec<u8> = (0..ch).map(|k| channel(v, masks[k])).collect();
                    put(&mut out, x, y, &c);
                }
            }
        }
    }
    Want::Pixels(w, h, match ch { 1 => ColorType::L8, 3 => ColorType::Rgb8, _ => ColorType::Rgba8 }, out)
}
fn check(f: &[u8], no_file_header: bool, indexed: bool) {
    let want = reference(f, no_file_header, indexed);
    alloc_mark();
    let c = Cursor::new(f);
    let d = if no_file_header { BmpDecoder::new_without_file_header(c) } else { BmpDecoder::new(c) };
    ck!(alloc_peak() < 100_000);
    let mut d = match d {
        Ok(d) => d,
        Err(_) => {
            ck!(!matches!(want, Want::Pixels(..)));
            reach(1);
            return;
        }
    };
    if indexed {
        d.set_indexed_color(true);
    }
    let (w, h) = d.dimensions();
    ck!(w > 0 && h > 0);
    let ct = d.color_type();
    ck!(d.total_bytes() == w as u64 * h as u64 * ct.bytes_per_pixel() as u64);
    match want {
        Want::Pixels(ww, hh, c, px) => {
            ck!((w as usize, h as usize) == (ww, hh) && ct == c);
            // whatever was in the buffer before
            let mut b = vec![any_u8(); px.len()];
            d.read_image(&mut b).unwrap();
            observe(&b);
            ckeq!(b, px);
            reach(0);
        }
        Want::Error => {
            if d.total_bytes() < 1000 {
                let mut b = vec![0; conc(d.total_bytes()) as usize];
                ck!(d.read_image(&mut b).is_err());
            }
            reach(1);
        }
        Want::Anything => {}
    }
}
fn header(hs: usize, bpp: usize, comp: usize, w: i32, h: i32, used: usize, file: bool, gap: usize) -> Vec<u8> {
    let mut f = vec![];
    if file {
        f.extend(b"BM");
        f.extend(vec(8));
        let pal = if bpp <= 8 { (if used == 0 { 1 << bpp } else { used }) * if hs == 12 { 3 } else { 4 } } else { 0 };
        f.extend(((14 + hs + pal + gap + if hs == 40 && comp == 3 { 12 } else { 0 }) as u32).to_le_bytes());
    }
    f.extend((hs as u32).to_le_bytes());
    if hs == 12 {
        f.extend((w as u16).to_le_bytes());
        f.extend((h as u16).to_le_bytes());
    } else {
        f.extend(w.to_le_bytes());
        f.extend(h.to_le_bytes());
    }
    f.extend([1, 0, bpp as u8, 0]);
    if hs > 12 {
        f.extend((comp as u32).to_le_bytes());
        f.extend(vec(12));
        f.extend((used as u32).to_le_bytes());
        f.extend(vec(4));
    }
    f
}
/// Files of one kind with free palette and pixels; params: header size, bits, compression, w, h, flags (1 from the top, 2 no file header, 4 indexed), colours used, bytes between header and pixels, bytes missing at the end
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_kinds() {
    let (hs, bpp, comp, w, h) = (param(0), param(1), param(2), param(3) as i32, param(4) as i32);
    let (flags, used, gap, less) = (param(5), param(6), param(7), param(8));
    let mut f = header(hs, bpp, comp, w, if flags & 1 != 0 { -h } else { h }, used, flags & 2 == 0, gap);
    let o = if flags & 2 == 0 { 14 } else { 0 };
    if comp == 3 {
        let m: [u32; 4] = match (bpp, param(9)) {
            (16, 0) => [0xf800, 0x07e0, 0x001f, 0],
            (16, 1) => [0x7c00, 0x03e0, 0x001f, 0x8000],
            (16, 2) => [0x0007, 0x0f00, 0x0070, 0xf000],
            (16, 3) => [0xffc0, 0x0038, 0x0006, 0x0001],
            (32, 0) => [0xff0000, 0xff00, 0xff, 0xff000000],
            (32, 1) => [0xff000000, 0xff0000, 0xff00, 0],
            (32, 2) => [0x3ff00000, 0xffc00, 0x3ff, 0xc0000000],
            (32, 3) => [0xff, 0xff00, 0xff0000, 0xff000000],
            (32, 4) => [0x7f, 0x1f80, 0x10000, 0],
            _ => [0xff000000, 0xff0000, 0xff00, 0xff],
        };
        for i in 0..if hs == 40 { 3 } else { ((hs - 40) / 4).min(4) } {
            f.extend(m[i].to_le_bytes());
        }
    }
    if hs > 40 {
        f.extend(vec(o + hs - f.len()));
    }
    if bpp <= 8 {
        f.extend(vec(if used == 0 { 1 << bpp } else { used } * if hs == 12 { 3 } else { 4 }));
    }
    f.extend(vec(gap));
    f.extend(vec((w as usize * bpp + 31) / 32 * 4 * h as usize - less));
    merge(1);
    check(&f, flags & 2 != 0, flags & 4 != 0);
}
/// Run lengths; params: 1 RLE8, 2 RLE4, w, h, bytes, flags (4 indexed)
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_rle() {
    let k = param(0);
    let mut f = header(40, if k == 1 { 8 } else { 4 }, k, param(1) as i32, param(2) as i32, 3, true, 0);
    f.extend(vec(12));
    f.extend(vec(param(3)));
    check(&f, false, param(4) & 4 != 0);
}
/// Any mask of one channel; params: bits, channel
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_masks() {
    let (bpp, c) = (param(0), param(1));
    let mut f = header(56, bpp, 3, 1, 1, 0, true, 0);
    for i in 0..4 {
        if i == c {
            let (lo, n) = (each(0, 31), each(0, 32));
            assume(lo + n <= 32);
            let m = if n == 32 { u32::MAX } else { ((1u32 << n) - 1) << lo };
            // or with one bit wrong
            let wrong = each(0, 32);
            let m = if wrong < 32 { m ^ 1 << wrong } else { m };
            f.extend(m.to_le_bytes());
        } else {
            f.extend([0xf0, 0, 0, 0]);
        }
    }
    f.extend(vec(4));
    check(&f, false, false);
}
/// All header bytes free; params: header size, bytes in all, 1: no file header
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_header() {
    let (hs, n) = (param(0), param(1));
    let mut f = vec(n);
    let o = if param(2) == 1 { 0 } else { 14 };
    if hs > 0 && n >= o + 4 {
        f[o..o + 4].copy_from_slice(&(hs as u32).to_le_bytes());
    }
    if n >= o + 20 {
        // few sizes of palettes and kinds, all others as one
        let b = if hs == 12 { f[o + 10] as u32 | (f[o + 11] as u32) << 8 } else { f[o + 14] as u32 | (f[o + 15] as u32) << 8 };
        assume([0, 1, 2, 3, 4, 8, 16, 24, 32, 64, 257].contains(&b));
        if hs > 12 {
            let c = f[o + 16] as u32 | (f[o + 17] as u32) << 8 | (f[o + 18] as u32) << 16 | (f[o + 19] as u32) << 24;
            assume(c < 16 || c == 256);
        }
    }
    let c = Cursor::new(&f[..]);
    alloc_mark();
    let d = if param(2) == 1 { BmpDecoder::new_without_file_header(c) } else { BmpDecoder::new(c) };
    ck!(alloc_peak() < 100_000);
    if let Ok(d) = d {
        let (w, h) = d.dimensions();
        let u16_at = |i: usize| f[i] as u32 | (f[i + 1] as u32) << 8;
        let u32_at = |i: usize| u16_at(i) | u16_at(i + 2) << 16;
        ck!(o == 0 || f[0] == b'B' && f[1] == b'M');
        if hs == 12 {
            ck!(w == u16_at(o + 4) && h == u16_at(o + 6));
            ck!(u16_at(o + 8) == 1);
        } else {
            ck!(w == u32_at(o + 4) && w <= 65535 && h == (u32_at(o + 8) as i32).unsigned_abs());
            ck!(u16_at(o + 12) == 1);
        }
        ck!(w > 0 && h > 0);
        ck!(d.total_bytes() == w as u64 * h as u64 * d.color_type().bytes_per_pixel() as u64);
        reach(0);
    } else {
        reach(1);
    }
}
/// Every prefix of a file is refused; params: w, h, colour
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_truncated() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let c = [ExtendedColorType::L8, ExtendedColorType::Rgb8, ExtendedColorType::Rgba8][param(2)];
    let px = u8s((w * h) as usize * c.channel_count() as usize);
    let mut out = Vec::new();
    BmpEncoder::new(&mut out).encode(&px, w, h, c).unwrap();
    let k = each(1, out.len().min(200) as u8) as usize;
    let k = if param(3) > 0 { k + param(3) } else { k };
    assume(k <= out.len());
    let f = &out[..out.len() - k];
    match BmpDecoder::new(Cursor::new(f)) {
        Err(_) => reach(0),
        Ok(d) => {
            let mut b = vec![0; d.total_bytes() as usize];
            ck!(d.read_image(&mut b).is_err());
            reach(1);
        }
    }
}
/// A part of an image is that part of the whole; params: w, h, colour (0 palette, 1 RGB, 2 RGBA), extra bytes per row
#[no_mangle]
#[inline(never)]
pub extern "C" fn bmp_rect() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let c = [ExtendedColorType::L8, ExtendedColorType::Rgb8, ExtendedColorType::Rgba8][param(2)];
    let n = [3, 3, 4][param(2)];
    let px = u8s((w * h) as usize * c.channel_count() as usize);
    let mut out = Vec::new();
    BmpEncoder::new(&mut out).encode(&px, w, h, c).unwrap();
    let full = {
        let d = BmpDecoder::new(Cursor::new(&out[..])).unwrap();
        let mut b = vec![0; d.total_bytes() as usize];
        d.read_image(&mut b).unwrap();
        b
    };
    let mut d = BmpDecoder::new(Cursor::new(&out[..])).unwrap();
    for _ in 0..2 {
        let (x, y) = (each(0, w as u8 + 1), each(0, h as u8 + 1));
        let (rw, rh) = (each(0, w as u8 + 1), each(0, h as u8 + 1));
        let pitch = rw as usize * n + param(3);
        let fillb = any_u8();
        let mut b = vec![fillb; pitch * rh as usize];
        let r = d.read_rect(x, y, rw, rh, &mut b, pitch);
        if x + rw > w || y + rh > h || rw == 0 || rh == 0 {
            ck!(r.is_err());
            reach(1);
            return;
        }
        r.unwrap();
        for j in 0..rh as usize {
            for i in 0..pitch {
                if i < rw as usize * n {
                    ck!(b[j * pitch + i] == full[((y as usize + j) * w as usize + x as usize) * n + i]);
                } else {
                    ck!(b[j * pitch + i] == fillb);
                }
            }
        }
    }
    reach(0);
}
harnesses!(bmp_roundtrip, bmp_palette, bmp_kinds, bmp_rle, bmp_masks, bmp_header, bmp_truncated, bmp_rect);
