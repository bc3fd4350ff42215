#![cfg_attr(rustfmt, rustfmt_skip)]
//! P26 ICO.
use hx::pngf::*;
use hx::*;
use image::codecs::ico::IcoDecoder;
use image::*;
use std::io::Cursor;

/// The bitmap of an icon without its mask; pixels bottom-up, rows padded to four bytes.
fn bitmap(w: u32, h2: u32, bpp: u16, comp: u32, palette: &[u8], pixels: &[u8]) -> Vec<u8> {
    let mut f = [40u32, w, h2].map(|x| x.to_le_bytes()).concat();
    f.extend([1u16, bpp].map(|x| x.to_le_bytes()).concat());
    f.extend([comp, 0, 0, 0, palette.len() as u32 / 4, 0].map(|x| x.to_le_bytes()).concat());
    f.extend(palette);
    f.extend(pixels);
    f
}
fn entry(w: u8, h: u8, bpp: u16, len: u32, offset: u32) -> Vec<u8> {
    let mut e = vec![w, h, 0, 0, 1, 0];
    e.extend(bpp.to_le_bytes());
    e.extend(len.to_le_bytes());
    e.extend(offset.to_le_bytes());
    e
}
/// Free directory entries over images of different sizes; params: entries, entries missing at the end (bytes)
#[no_mangle]
#[inline(never)]
pub extern "C" fn ico_dir() {
    let (n, cut) = (param(0), param(1));
    let mut f = vec(4);
    f.extend((n as u16).to_le_bytes());
    let d = vec(8 * n);
    for k in 0..n {
        f.extend(&d[8 * k..8 * k + 8]);
        let (at, len) = (6 + 16 * n + 40 * k + 4 * (k * (k + 1) / 2), 40 + 4 * (k + 1));
        f.extend((len as u32).to_le_bytes());
        f.extend((at as u32).to_le_bytes());
    }
    for k in 0..n {
        f.extend(bitmap(k as u32 + 1, 2, 32, 0, &[], &vec![9 + k as u8; 4 * (k + 1)]));
    }
    f.truncate(f.len() - cut);
    let cut_dir = f.len() < 6 + 16 * n;
    let r = IcoDecoder::new(Cursor::new(&f[..]));
    let u16_at = |i: usize| d[i] as u32 | (d[i + 1] as u32) << 8;
    let real = |b: u8| if b == 0 { 256 } else { b as u32 };
    let bad = (0..n).any(|k| u16_at(8 * k + 4) > 256 || u16_at(8 * k + 6) > 256);
    if n == 0 || cut_dir || bad {
        ck!(r.is_err());
        reach(1);
        return;
    }
    if cut > 0 {
        // whichever image was chosen may be the one cut
        if let Ok(d) = r {
            let mut out = vec![0; d.total_bytes() as usize];
            let _ = d.read_image(&mut out);
        }
        reach(1);
        return;
    }
    let r = r.unwrap();
    let (w, h) = r.dimensions();
    ck!(h == 1 && r.color_type() == ColorType::Rgba8);
    let c = conc(w as u64) as usize - 1;
    let score = |k: usize| (u16_at(8 * k + 6) << 17) + real(d[8 * k]) * real(d[8 * k + 1]);
    for k in 0..n {
        ck!(score(k) <= score(c));
    }
    let mut out = vec![any_u8(); 4 * (c + 1)];
    let r = r.read_image(&mut out);
    if d[8 * c] as usize == c + 1 && d[8 * c + 1] == 1 {
        // with or without mask after it
        ck!(r.is_ok());
        ckeq!(out, vec![9 + c as u8; 4 * (c + 1)]);
        reach(0);
    } else {
        ck!(r.is_err());
        reach(2);
    }
}
/// params: width, height, kind (bits per pixel 32, 24, 16, 8, 4, 1; 108 run-length), entry says: 0 all, 1 no mask, 2 one byte short of the mask, 3 one byte less than the image, 4 more than there is, missing bytes at the end, size mismatch
#[no_mangle]
#[inline(never)]
pub extern "C" fn ico_bitmap() {
    let (w, h, kind, says, cut, other) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let mut want = vec![[0u8; 4]; w * h];
    let (mut palette, mut pixels) = (vec![], vec![]);
    let bpp = kind % 100;
    if bpp <= 8 {
        palette = vec(4 << bpp.min(2));
    }
    let np = palette.len() / 4;
    if kind == 108 {
        // one run per row, starting at a free column
        for y in (0..h).rev() {
            let skip = each(0, w as u8 - 1) as usize;
            let i = each(0, np as u8 - 1) as usize;
            pixels.extend([0, 2, skip as u8, 0, (w - skip) as u8, i as u8, 0, (y == 0) as u8]);
            for x in skip..w {
                want[y * w + x] = [palette[4 * i + 2], palette[4 * i + 1], palette[4 * i], 255];
            }
        }
    } else {
        for y in (0..h).rev() {
            let mut row = vec![];
            for x in 0..w {
                let o = &mut want[y * w + x];
                if bpp <= 8 {
                    let i = (3 * x + 5 * y + 1) % np;
                    *o = [palette[4 * i + 2], palette[4 * i + 1], palette[4 * i], 255];
                    if x * bpp % 8 == 0 {
                        row.push(0);
                    }
                    *row.last_mut().unwrap() |= (i << (8 - bpp - x * bpp % 8)) as u8;
                } else if bpp == 16 {
                    let p = vec(2);
                    let v = p[0] as u32 | (p[1] as u32) << 8;
                    let c = |s: u32| (((v >> s & 31) * 255 + 15) / 31) as u8;
                    *o = [c(10), c(5), c(0), 255];
                    row.extend(p);
                } else {
                    let p = vec(bpp / 8);
                    *o = [p[2], p[1], p[0], if bpp == 32 { p[3] } else { 255 }];
                    row.extend(p);
                }
            }
            while row.len() % 4 != 0 {
                row.push(any_u8());
            }
            pixels.extend(row);
        }
    }
    let stride = (w + 31) / 32 * 4;
    let mask = vec(stride * h);
    let b = bitmap(w as u32, 2 * h as u32, bpp as u16, (kind == 108) as u32, &palette, &pixels);
    let len = match says {
        0 => b.len() + mask.len(),
        1 => b.len(),
        2 => b.len() + mask.len() - 1,
        3 => b.len() - 1,
        _ => b.len() + mask.len() + each(1, 3) as usize * 100,
    };
    let mut f = vec![0, 0, 1, 0, 1, 0];
    let e = [(w as u8, h as u8), (w as u8 + 1, h as u8), (w as u8, h as u8 + 1), (0, h as u8)][other];
    f.extend(entry(e.0, e.1, any_u8() as u16, len as u32, 22));
    f.extend(&b);
    f.extend(&mask);
    f.truncate(f.len() - cut);
    let d = IcoDecoder::new(Cursor::new(&f[..])).unwrap();
    ck!(d.dimensions() == (w as u32, h as u32) && d.color_type() == ColorType::Rgba8);
    let mut out = vec![any_u8(); 4 * w * h];
    merge(1);
    let r = d.read_image(&mut out);
    if other > 0 || says == 2 || says == 3 || cut > mask.len() || cut > 0 && says != 1 {
        ck!(r.is_err());
        reach(1);
        return;
    }
    r.unwrap();
    observe(&out);
    for y in 0..h {
        for x in 0..w {
            let e = want[y * w + x];
            let o = &out[4 * (y * w + x)..][..4];
            let m = mask[(h - 1 - y) * stride + x / 8];
            let hidden = says != 1 && (m << (x % 8)) & 0x80 != 0;
            ck!(o[0] == e[0] && o[1] == e[1] && o[2] == e[2]);
            if hidden {
                ck!(o[3] == 0);
            } else if kind == 108 && e[3] == 0 {
                // skipped by the run-length code: black or see-through
                ck!(o[3] == 0 || o[3] == 255);
            } else {
                ck!(o[3] == e[3]);
            }
        }
    }
    reach(0);
}
/// params: width, height, PNG colour type, entry says width + n, height + n, length 0 all, 1 seven bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn ico_png() {
    let (w, h, color, dw, dh, short) = (param(0), param(1), param(2), param(3), param(4), param(5));
    let data = vec(w * h * [1, 0, 3, 0, 2, 0, 4][color]);
    let p = still(w as u32, h as u32, color as u8, 8, &data);
    let mut f = vec![0, 0, 1, 0, 1, 0];
    f.extend(entry((w + dw) as u8, (h + dh) as u8, any_u8() as u16, if short == 1 { 7 } else { p.len() as u32 }, 22 + 5));
    f.extend(vec(5));
    f.extend(&p);
    let d = IcoDecoder::new(Cursor::new(&f[..])).unwrap();
    ck!(d.dimensions() == (w as u32, h as u32));
    let mut out = vec![any_u8(); d.total_bytes() as usize];
    let r = d.read_image(&mut out);
    if dw + dh + short > 0 || color != 6 {
        ck!(r.is_err());
        reach(1);
    } else {
        r.unwrap();
        ckeq!(out, data);
        reach(0);
    }
}
/// Any bitmap header behind one valid entry; params: bits per pixel, compression, bytes after the header, largest side
#[no_mangle]
#[inline(never)]
pub extern "C" fn ico_header() {
    let (bpp, comp, n, side) = (param(0) as u16, param(1) as u32, param(2), param(3));
    let mut f = vec![0, 0, 1, 0, 1, 0];
    let (w, h) = (each(0, side as u8), each(0, side as u8));
    let d = vec(4);
    f.extend(entry(w as u8, h as u8, 0, u32::from_le_bytes([d[0], d[1], d[2], d[3]]), 22));
    let mut hd = vec(40);
    hd[0..4].copy_from_slice(&40u32.to_le_bytes());
    hd[14..16].copy_from_slice(&bpp.to_le_bytes());
    hd[16..20].copy_from_slice(&comp.to_le_bytes());
    if bpp < 16 {
        hd[32..36].copy_from_slice(&(1u32 << (bpp / 4)).to_le_bytes());
    }
    f.extend(&hd);
    f.extend(vec(n));
    match IcoDecoder::new(Cursor::new(&f[..])) {
        Ok(d) => {
            let (iw, ih) = d.dimensions();
            // larger ones are refused when read, but for sides of 256 and more
            if iw <= side as u32 && ih <= side as u32 {
                let (iw, ih) = (conc(iw as u64) as u32, conc(ih as u64) as u32);
                let mut out = vec![0; 4 * (iw * ih) as usize];
                let r = d.read_image(&mut out);
                ck!(r.is_err() || iw == w && ih == h);
                reach(r.is_err() as u32);
            } else {
                reach(2);
            }
        }
        Err(_) => reach(3),
    }
}
/// Any bytes at all; params: how many, entries
#[no_mangle]
#[inline(never)]
pub extern "C" fn ico_any() {
    let mut f = vec(param(0));
    if f.len() >= 6 {
        f[4] = param(1) as u8;
        f[5] = 0;
    }
    // reading starts at one of the bytes around the directory or far away
    for k in 0..param(1) {
        if f.len() >= 22 + 16 * k {
            let at = [0, 5, 22, f.len() as u32 - 1, f.len() as u32, 0xffff_ffff][each(0, 5) as usize];
            f[18 + 16 * k..22 + 16 * k].copy_from_slice(&at.to_le_bytes());
        }
    }
    if let Ok(d) = IcoDecoder::new(Cursor::new(&f[..])) {
        let (w, h) = d.dimensions();
        ck!(w > 0);
        ck!(d.total_bytes() == w as u64 * h as u64 * d.color_type().bytes_per_pixel() as u64);
        reach(1);
    }
    reach(0);
}
harnesses!(ico_dir, ico_bitmap, ico_png, ico_header, ico_any);
