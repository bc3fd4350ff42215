#![cfg_attr(rustfmt, rustfmt_skip)]
//! P18 Radiance HDR round trips, P23 HDR decoding, P37 truncation.
use hx::*;
use image::codecs::hdr::*;
use image::*;

fn header(w: usize, h: usize) -> Vec<u8> {
    format!("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y {h} +X {w}\n").into_bytes()
}
fn f32s_of(b: &[u8]) -> Vec<f32> {
    b.chunks_exact(4).map(|c| f32::from_ne_bytes([c[0], c[1], c[2], c[3]])).collect()
}
fn decode(f: &[u8], w: usize, h: usize) -> Vec<f32> {
    let d = HdrDecoder::new(f).unwrap();
    ck!(d.dimensions() == (w as u32, h as u32) && d.color_type() == ColorType::Rgb32F && d.total_bytes() == (w * h * 12) as u64);
    let mut b = vec![0x55; w * h * 12];
    d.read_image(&mut b).unwrap();
    f32s_of(&b)
}
fn encode(px: &[f32], w: usize, h: usize) -> Vec<u8> {
    let raw: Vec<u8> = px.iter().flat_map(|p| p.to_ne_bytes()).collect();
    let mut out = vec![];
    HdrEncoder::new(&mut out).write_image(&raw, w as u32, h as u32, ExtendedColorType::Rgb32F).unwrap();
    out
}
/// A byte of the file as a sample, by definition: value * 2^(exponent - 136)
fn sample(c: u8, e: u8) -> f32 {
    if e == 0 {
        0.0
    } else {
        // both factors are powers of two that f32 can represent
        let (a, b) = if e < 100 { (-60, e as i32 - 76) } else { (0, e as i32 - 136) };
        c as f32 * pow2(a) * pow2(b)
    }
}
fn pow2(k: i32) -> f32 {
    f32::from_bits(((k + 127) as u32) << 23)
}
/// Every normalised RGBE pixel survives decoding and encoding; params: channel of the largest component, constant third component
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_rgbe() {
    let e = each(param(2) as u8, param(3) as u8) as u8;
    let [m, x] = bytes::<2>();
    assume(m >= 128);
    let mut p = [0u8; 4];
    p[param(0)] = m;
    p[(param(0) + 1) % 3] = x;
    p[(param(0) + 2) % 3] = param(1) as u8;
    p[3] = e;
    assume(x <= m && param(1) as u8 <= m);
    let mut f = header(1, 1);
    f.extend_from_slice(&p);
    let v = decode(&f, 1, 1);
    for i in 0..3 {
        ck!(v[i].to_bits() == sample(p[i], e).to_bits());
    }
    let out = encode(&v, 1, 1);
    ckeq!(out[out.len() - 4..], p);
    reach(0);
}
/// Every f32 within the range of the format comes back with an error below 1/127 of the largest component
/// params: first and last exponent field, low mantissa bits
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_precision() {
    let e = each(param(0) as u8, param(1) as u8);
    let m = any_u16();
    let v = f32::from_bits(e << 23 | (m as u32) << 7 | param(2) as u32);
    let out = encode(&[v, v / 4.0, 0.0], 1, 1);
    let back = decode(&out, 1, 1);
    if v >= pow2(127) {
        // the largest pixel of the format
        ck!(back[0] == pow2(126) + (pow2(126) - pow2(119)));
        ck!(back[1] <= v / 4.0);
    } else if v < pow2(-125) / 8.0 {
        // black, or (just below the limit) the smallest pixel
        ck!(back[0] <= v && (back[0] == 0.0 || v - back[0] <= v / 127.0));
        ck!(v > pow2(-125) / 8.1 || back[0] == 0.0 && back[1] == 0.0);
    } else {
        ck!(back[0] <= v && v - back[0] <= v / 127.0);
        ck!(back[1] <= v / 4.0 && v / 4.0 - back[1] <= v / 127.0);
    }
    ck!(back[2] == 0.0);
    reach(0);
}
/// No pixel makes the encoder panic; negative and undefined components are stored as zero
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_special() {
    let all = [0.0f32, -0.0, -1.0, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.75];
    let p: Vec<f32> = (0..3).map(|_| all[each(0, 11) as usize]).collect();
    let out = encode(&p, 1, 1);
    let back = decode(&out, 1, 1);
    for i in 0..3 {
        ck!(back[i].is_finite() && back[i] >= 0.0);
        if !(p[i] > 0.0) {
            ck!(back[i] == 0.0);
        } else {
            ck!(back[i] <= p[i]);
        }
    }
    let most = p.iter().fold(0.0f32, |a, &b| if b > a { b } else { a });
    if most == f32::INFINITY || most == f32::MAX {
        for i in 0..3 {
            ck!(p[i] != most || back[i] > f32::MAX / 4.0);
        }
    }
    reach(0);
}
/// A pixel with one free component; channel 3 is the exponent
fn pixel(ch: usize, b: u8) -> [f32; 3] {
    let mut p = [0.5, 0.25, 0.75];
    if ch == 3 {
        p[2] = f32::from_bits((b as u32 & 127 | 32) << 23) * 1.5;
        p[0] = 0.0;
        p[1] = 0.0;
    } else {
        // the largest component stays at 255/256
        p[(ch + 1) % 3] = 255.0 / 256.0;
        p[ch] = b as f32 / 256.0;
    }
    p
}
/// Every run structure of one component; params: w, h, channel, distinct values (0: any)
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_roundtrip() {
    let (w, h, ch) = (param(0), param(1), param(2));
    let mut px = vec![];
    for b in vec(w * h) {
        if param(3) > 0 {
            assume((b as usize) < param(3));
        }
        px.extend_from_slice(&pixel(ch, b));
    }
    let out = encode(&px, w, h);
    let back = decode(&out, w, h);
    for i in 0..px.len() {
        ck!(back[i].to_bits() == px[i].to_bits());
    }
    reach(0);
}
/// Runs: n + base pixels alike, then mid alternating ones, then last alike; params: channel, first n, last n, mid, last
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_runs() {
    let ch = param(0);
    let n = param(1) + each(0, param(2) as u8) as usize;
    let (mid, last) = (param(3), param(4));
    let (a, b) = (any_u8(), any_u8());
    assume(a != b);
    if ch == 3 {
        assume(a & 127 | 32 != b & 127 | 32);
    }
    let mut px = vec![];
    for i in 0..n + mid + last {
        let v = if i >= n && i < n + mid && (i - n) % 2 == 0 { b } else { a };
        px.extend_from_slice(&pixel(ch, v));
    }
    let w = n + mid + last;
    let out = encode(&px, w, 1);
    let back = decode(&out, w, 1);
    for i in 0..px.len() {
        ck!(back[i].to_bits() == px[i].to_bits());
    }
    reach(0);
}
/// Wide scanlines; param: w
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_wide() {
    let w = param(0);
    let v = any_u8();
    let mut px = vec![];
    for i in 0..w {
        px.extend_from_slice(&pixel(1, if i == 5 || i == w - 1 { v } else { 7 }));
    }
    let out = encode(&px, w, 1);
    let back = decode(&out, w, 1);
    for i in 0..px.len() {
        ck!(back[i].to_bits() == px[i].to_bits());
    }
    reach(0);
}
/// Pixels by definition, or None for a malformed raster
fn reference(f: &[u8], w: usize, h: usize) -> Option<Vec<[u8; 4]>> {
    if w == 0 || h == 0 {
        return Some(vec![]);
    }
    let mut i = 0;
    let mut out = vec![];
    for _ in 0..h {
        let mut line: Vec<[u8; 4]> = vec![];
        if f.len() < i + 4 {
            return None;
        }
        let first = [f[i], f[i + 1], f[i + 2], f[i + 3]];
        i += 4;
        if w >= 8 && first[0] == 2 && first[1] == 2 && first[2] < 128 {
            line.resize(w, [0; 4]);
            for c in 0..4 {
                let mut x = 0;
                while x < w {
                    let n = conc(*f.get(i)? as u64) as usize;
                    i += 1;
                    let (n, run) = if n > 128 { (n - 128, true) } else { (n, false) };
                    if x + n > w {
                        return None;
                    }
                    if run {
                        let v = *f.get(i)?;
                        i += 1;
                        for p in &mut line[x..x + n] {
                            p[c] = v;
                        }
                    } else {
                        for p in &mut line[x..x + n] {
                            p[c] = *f.get(i)?;
                            i += 1;
                        }
                    }
                    x += n;
                }
            }
        } else {
            if first[0] == 1 && first[1] == 1 && first[2] == 1 {
                return None;
            }
            line.push(first);
            let mut shift = 0;
            while line.len() < w {
                if f.len() < i + 4 {
                    return None;
                }
                let p = [f[i], f[i + 1], f[i + 2], f[i + 3]];
                i += 4;
                if p[0] == 1 && p[1] == 1 && p[2] == 1 {
                    let n = if shift < 32 { conc((p[3] as u64) << shift) } else { u64::from(p[3] != 0) << 60 };
                    shift += 8;
                    if n > (w - line.len()) as u64 {
                        return None;
                    }
                    let l = line[line.len() - 1];
                    for _ in 0..n {
                        line.push(l);
                    }
                } else {
                    shift = 0;
                    line.push(p);
                }
            }
        }
        out.extend_from_slice(&line);
    }
    Some(out)
}
fn check(f: &[u8], body: &[u8], w: usize, h: usize) {
    let want = reference(body, w, h);
    alloc_mark();
    let d = HdrDecoder::new(f).unwrap();
    ck!(d.dimensions() == (w as u32, h as u32) && d.color_type() == ColorType::Rgb32F);
    let n = w * h * 12;
    ck!(d.total_bytes() == n as u64);
    let mut b = vec![0x55; n];
    let r = d.read_image(&mut b);
    ck!(r.is_ok() == want.is_some());
    ck!(alloc_peak() < 4000 + 5 * n as u64);
    match want {
        Some(px) => {
            let v = f32s_of(&b);
            for i in 0..w * h {
                for c in 0..3 {
                    ck!(v[3 * i + c].to_bits() == sample(px[i][c], px[i][3]).to_bits());
                }
            }
            reach(0);
        }
        None => reach(1),
    }
}
/// Any raster; params: w, h, bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_decode() {
    let (w, h, n) = (param(0), param(1), param(2));
    let body = vec(n);
    let mut f = header(w, h);
    f.extend_from_slice(&body);
    check(&f, &body, w, h);
}
/// Flat and run-length pixels of the old form: per pixel any value or a marker; params: w, h, pixels stored, free bytes per pixel
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_old() {
    let (w, h, n) = (param(0), param(1), param(2));
    let mut body = vec![];
    for i in 0..n {
        if any_bool() {
            body.extend_from_slice(&[1, 1, 1, any_u8()]);
        } else {
            body.extend_from_slice(&[any_u8(), 7, i as u8, 130]);
        }
    }
    let mut f = header(w, h);
    f.extend_from_slice(&body);
    check(&f, &body, w, h);
}
/// Per-component run-length coding: n symbolic bytes for one component, the others are single runs; params: w, component, bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_component() {
    let (w, c, n) = (param(0), param(1), param(2));
    let mut body = vec![2, 2, (w / 256) as u8, (w % 256) as u8];
    for i in 0..4 {
        if i == c {
            body.extend_from_slice(&vec(n));
        } else {
            let mut x = w;
            while x > 0 {
                let k = x.min(127);
                body.extend_from_slice(&[128 + k as u8, 120 + i as u8]);
                x -= k;
            }
        }
    }
    let mut f = header(w, 1);
    f.extend_from_slice(&body);
    check(&f, &body, w, 1);
}
/// Consecutive run-length markers; param: how many
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_markers() {
    let mut body = vec![9, 9, 9, 9];
    let mut run = 0u128;
    for i in 0..param(0) {
        let n = if any_bool() { 1 } else { 0 };
        body.extend_from_slice(&[1, 1, 1, n]);
        run = run.saturating_add(if i < 15 { (n as u128) << (8 * i) } else { n as u128 * (1 << 120) });
    }
    body.extend_from_slice(&[8, 8, 8, 8, 7, 7, 7, 7, 6, 6, 6, 6]);
    let w = 4;
    let mut f = header(w, 1);
    f.extend_from_slice(&body);
    let d = HdrDecoder::new(&f[..]).unwrap();
    let mut b = vec![0x55; 12 * w];
    let r = d.read_image(&mut b);
    ck!(r.is_ok() == (run <= 3));
    reach(if r.is_ok() { 0 } else { 1 });
}
/// Bytes after the signature line; params: bytes, 1: strict
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_text() {
    let mut f = if param(1) == 1 { b"#?RADIANCE\n".to_vec() } else { vec![] };
    f.extend_from_slice(&vec(param(0)));
    f.extend_from_slice(match param(2) {
        0 => b"\n\n-Y 1 +X 1\n\x07\x08\x09\x80".as_slice(),
        1 => b"",
        _ => b" +X 1\n\x07\x08\x09\x80",
    });
    alloc_mark();
    let r = if param(1) == 1 { HdrDecoder::new(&f[..]) } else { HdrDecoder::new_nonstrict(&f[..]) };
    match r {
        Err(_) => reach(1),
        Ok(d) => {
            reach(0);
            let (w, h) = d.dimensions();
            let m = d.metadata();
            ck!(m.width == w && m.height == h);
            if w <= 1 && h <= 1 {
                let n = d.total_bytes() as usize;
                let mut b = vec![0; conc(n as u64) as usize];
                let _ = d.read_image(&mut b);
            }
        }
    }
    ck!(alloc_peak() < 4000);
}
/// The dimensions line; params: leading digits of the height, of the width, free digits of each
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_dims() {
    let n = param(2);
    let digits = |k: usize| if k == 0 { vec![] } else { k.to_string().into_bytes() };
    let (mut a, mut b) = (digits(param(0)), digits(param(1)));
    let (x, y) = (vec(n), vec(param(3)));
    assume(x.iter().chain(&y).all(|c| c.is_ascii_digit()));
    a.extend_from_slice(&x);
    b.extend_from_slice(&y);
    let num = |v: &[u8]| v.iter().fold(0u64, |s, c| s * 10 + (c - b'0') as u64);
    let (h, w) = (num(&a), num(&b));
    let mut f = b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n# comment\nEXPOSURE=1.5\n\n-Y ".to_vec();
    f.extend_from_slice(&a);
    f.extend_from_slice(b" +X ");
    f.extend_from_slice(&b);
    f.push(b'\n');
    match HdrDecoder::new(&f[..]) {
        Err(_) => {
            ck!(h > u32::MAX as u64 || w > u32::MAX as u64 || h as u128 * w as u128 * 12 > u64::MAX as u128);
            reach(1);
        }
        Ok(d) => {
            ck!(d.dimensions() == (w as u32, h as u32) && w <= u32::MAX as u64 && h <= u32::MAX as u64);
            ck!(d.total_bytes() as u128 == w as u128 * h as u128 * 12);
            reach(0);
        }
    }
}
/// params: w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn hdr_truncated() {
    let (w, h) = (param(0), param(1));
    let mut px = vec![];
    for b in vec(w * h) {
        assume(b < 3);
        px.extend_from_slice(&pixel(1, b));
    }
    let out = encode(&px, w, h);
    let start = out.len() - if w < 8 { 4 * w * h } else { 0 };
    let start = if w < 8 { start } else { out.windows(2).position(|c| c == [2, 2]).unwrap() };
    for cut in start..out.len() {
        let d = HdrDecoder::new(&out[..cut]).unwrap();
        let mut b = vec![0; 12 * w * h];
        ck!(d.read_image(&mut b).is_err());
        reach(0);
    }
}
harnesses!(hdr_rgbe, hdr_precision, hdr_special, hdr_roundtrip, hdr_runs, hdr_wide, hdr_decode, hdr_old, hdr_component, hdr_markers, hdr_text, hdr_dims, hdr_truncated);
