#![cfg_attr(rustfmt, rustfmt_skip)]
//! P33 GIF and APNG compositing.
use hx::pngf::*;
use hx::*;
use image::codecs::gif::GifDecoder;
use image::codecs::png::PngDecoder;
use image::*;
use std::io::Cursor;

/// GIF image data for two-bit indices, with a clear code before the code size could grow.
fn lzw(idx: &[u8]) -> Vec<u8> {
    let (mut acc, mut n, mut out) = (0u32, 0, Vec::new());
    let mut put = |c: u32, out: &mut Vec<u8>| {
        acc |= c << n;
        n += 3;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    for (i, &x) in idx.iter().enumerate() {
        if i % 2 == 0 {
            put(4, &mut out);
        }
        put(x as u32, &mut out);
    }
    put(5, &mut out);
    put(0, &mut out);
    put(0, &mut out);
    put(0, &mut out);
    let mut f = vec![2, out.len() as u8];
    f.extend(out);
    f.push(0);
    f
}
struct G {
    rect: [u32; 4],
    dispose: u32,
    transparent: Option<u8>,
    idx: Vec<u8>,
    pal: Vec<u8>,
    delay: [u8; 2],
}
fn gif(w: u16, h: u16, global: &[u8], frames: &[G]) -> Vec<u8> {
    let mut f = b"GIF89a".to_vec();
    f.extend(w.to_le_bytes());
    f.extend(h.to_le_bytes());
    f.extend([0x91, 1, 0]);
    f.extend(global);
    for g in frames {
        f.extend([0x21, 0xf9, 4, (g.dispose << 2) as u8 | g.transparent.is_some() as u8, g.delay[0], g.delay[1], g.transparent.unwrap_or(0), 0]);
        f.push(0x2c);
        for v in g.rect {
            f.extend((v as u16).to_le_bytes());
        }
        if g.pal.is_empty() {
            f.push(0);
        } else {
            f.push(0x81);
            f.extend(&g.pal);
        }
        f.extend(lzw(&g.idx));
    }
    f.push(0x3b);
    f
}
fn idx(k: usize, n: u32) -> Vec<u8> {
    (0..n).map(|i| ((i + i / 4 + k as u32) % 4) as u8).collect()
}
fn rect(code: usize) -> [u32; 4] {
    [code as u32 / 1000, code as u32 / 100 % 10, code as u32 / 10 % 10, code as u32 % 10]
}
/// Draw one frame over the canvas; what is outside is dropped.
fn draw(canvas: &mut [[u8; 4]], w: u32, h: u32, g: &G, pal: &[u8]) {
    let [l, t, fw, fh] = g.rect;
    for y in 0..fh {
        for x in 0..fw {
            if l + x < w && t + y < h {
                let i = g.idx[(y * fw + x) as usize];
                if Some(i) != g.transparent {
                    let p = &pal[3 * i as usize..];
                    canvas[((t + y) * w + l + x) as usize] = [p[0], p[1], p[2], 255];
                }
            }
        }
    }
}
/// params: w, h, frames, rectangle of each frame (digits left, top, width, height; 0 any)
#[no_mangle]
#[inline(never)]
pub extern "C" fn gif_frames() {
    let (w, h, n) = (param(0) as u32, param(1) as u32, param(2));
    let global = vec(12);
    let mut frames = Vec::new();
    for k in 0..n {
        let r = if param(3 + k as u32) == 0 { [each(0, w as u8), each(0, h as u8), each(1, w as u8 + 1), each(1, h as u8)] } else { rect(param(3 + k as u32)) };
        let t = each(0, 2) as u8;
        frames.push(G { rect: r, dispose: each(0, 3), transparent: [None, Some(1), Some(3)][t as usize], idx: idx(k, r[2] * r[3]), pal: if k % 2 == 1 { vec(12) } else { vec![] }, delay: bytes() });
    }
    let f = gif(w as u16, h as u16, &global, &frames);
    merge(1);
    let d = GifDecoder::new(Cursor::new(&f[..])).unwrap();
    ck!(d.dimensions() == (w, h) && d.color_type() == ColorType::Rgba8);
    let mut canvas = vec![[0u8; 4]; (w * h) as usize];
    let mut it = d.into_frames();
    for g in &frames {
        let pal = if g.pal.is_empty() { &global } else { &g.pal };
        let mut shown = canvas.clone();
        draw(&mut shown, w, h, g, pal);
        let fr = it.next().unwrap().unwrap();
        ck!((fr.left(), fr.top()) == (0, 0));
        let (num, den) = fr.delay().numer_denom_ms();
        ck!((num, den) == (10 * u16::from_le_bytes(g.delay) as u32, 1));
        let b = fr.into_buffer();
        ck!(b.dimensions() == (w, h));
        ckeq!(b.as_raw(), shown.concat());
        match g.dispose {
            0 | 1 => canvas = shown,
            2 => {
                for y in 0..h {
                    for x in 0..w {
                        if x.wrapping_sub(g.rect[0]) < g.rect[2] && y.wrapping_sub(g.rect[1]) < g.rect[3] {
                            canvas[(y * w + x) as usize] = [0; 4];
                        }
                    }
                }
            }
            _ => (),
        }
    }
    ck!(it.next().is_none());
    // the still image is the first frame alone
    let d = GifDecoder::new(Cursor::new(&f[..])).unwrap();
    let mut out = vec![any_u8(); (4 * w * h) as usize];
    d.read_image(&mut out).unwrap();
    let mut shown = vec![[0u8; 4]; (w * h) as usize];
    draw(&mut shown, w, h, &frames[0], &global);
    let e: Vec<u8> = shown.concat();
    for i in 0..(w * h) as usize {
        // the colour of a transparent pixel is not specified
        ck!(out[4 * i + 3] == e[4 * i + 3]);
        if e[4 * i + 3] != 0 {
            ck!(out[4 * i..4 * i + 3] == e[4 * i..4 * i + 3]);
        }
    }
    reach(0);
}

struct A {
    rect: [u32; 4],
    dispose: u8,
    blend: u8,
    data: Vec<u8>,
    delay: [u8; 4],
}
/// kind: channels; thumb: the default image is no frame
fn apng(w: u32, h: u32, ch: usize, frames: &[A], thumb: bool) -> Vec<u8> {
    let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut d = [w.to_be_bytes(), h.to_be_bytes()].concat();
    d.extend([8, [0, 4, 2, 6][ch - 1], 0, 0, 0]);
    chunk(&mut f, b"IHDR", &d);
    chunk(&mut f, b"acTL", &[(frames.len() as u32).to_be_bytes(), [0; 4]].concat());
    let mut seq = 0u32;
    if thumb {
        chunk(&mut f, b"IDAT", &stored(&vec![77; (w * h) as usize * ch], w as usize * ch));
    }
    for (k, a) in frames.iter().enumerate() {
        let [l, t, fw, fh] = a.rect;
        let mut d = [seq, fw, fh, l, t].map(|x| x.to_be_bytes()).concat();
        d.extend(a.delay);
        d.extend([a.dispose, a.blend]);
        chunk(&mut f, b"fcTL", &d);
        seq += 1;
        let z = stored(&a.data, fw as usize * ch);
        if k == 0 && !thumb {
            chunk(&mut f, b"IDAT", &z);
        } else {
            let mut d = seq.to_be_bytes().to_vec();
            d.extend(z);
            chunk(&mut f, b"fdAT", &d);
            seq += 1;
        }
    }
    chunk(&mut f, b"IEND", &[]);
    f
}
/// params: w, h, channels, thumbnail, frames, rectangle of each frame (digits; 0 any), free: 0 all samples but alpha is 0, 255 or (fixed) 100, 1 alpha too
#[no_mangle]
#[inline(never)]
pub extern "C" fn apng_frames() {
    let (w, h, ch, thumb, n) = (param(0) as u32, param(1) as u32, param(2), param(3) == 1, param(4));
    let mut frames = Vec::new();
    for k in 0..n {
        let r = if k == 0 && !thumb {
            [0, 0, w, h]
        } else if param(5 + k as u32) == 0 {
            let (l, t) = (each(0, w as u8 - 1), each(0, h as u8 - 1));
            [l, t, each(1, w as u8 - l as u8), each(1, h as u8 - t as u8)]
        } else {
            rect(param(5 + k as u32))
        };
        let m = (r[2] * r[3]) as usize;
        let mut data = vec(m * ch);
        if ch % 2 == 0 {
            for i in 0..m {
                data[i * ch + ch - 1] = [0, 255, 100][(i + k) % 3];
            }
        }
        frames.push(A { rect: r, dispose: each(0, 2) as u8, blend: each(0, 1) as u8, data, delay: if k == 0 { bytes() } else { [0, 7, 0, k as u8] } });
    }
    let f = apng(w, h, ch, &frames, thumb);
    merge(1);
    let d = PngDecoder::new(Cursor::new(&f[..])).unwrap();
    ck!(d.is_apng().unwrap());
    let mut it = d.apng().unwrap().into_frames();
    let mut canvas = RgbaImage::new(w, h);
    for a in &frames {
        let mut shown = canvas.clone();
        let [l, t, fw, fh] = a.rect;
        for y in 0..fh {
            for x in 0..fw {
                let s = &a.data[(y * fw + x) as usize * ch..][..ch];
                let p = Rgba(match ch {
                    1 => [s[0], s[0], s[0], 255],
                    2 => [s[0], s[0], s[0], s[1]],
                    3 => [s[0], s[1], s[2], 255],
                    _ => [s[0], s[1], s[2], s[3]],
                });
                if a.blend == 0 {
                    shown.put_pixel(l + x, t + y, p);
                } else {
                    shown.get_pixel_mut(l + x, t + y).blend(&p);
                }
            }
        }
        let fr = it.next().unwrap().unwrap();
        ck!((fr.left(), fr.top()) == (0, 0));
        let (num, den) = fr.delay().numer_denom_ms();
        let e = u16::from_be_bytes([a.delay[0], a.delay[1]]) as u64;
        let den0 = match u16::from_be_bytes([a.delay[2], a.delay[3]]) { 0 => 100, d => d as u64 };
        ck!(num as u64 == 1000 * e && den as u64 == den0);
        ckeq!(fr.buffer().as_raw(), shown.as_raw());
        let mut next = match a.dispose {
            2 => canvas.clone(),
            _ => shown,
        };
        if a.dispose == 1 {
            for y in 0..fh {
                for x in 0..fw {
                    next.put_pixel(l + x, t + y, Rgba([0; 4]));
                }
            }
        }
        canvas = next;
    }
    ck!(it.next().is_none());
    reach(0);
}
harnesses!(gif_frames, apng_frames);
