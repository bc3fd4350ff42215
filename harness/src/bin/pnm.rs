#![cfg_attr(rustfmt, rustfmt_skip)]
//! P16 PNM round trips, P22 PNM decoding, P37 truncation.
use hx::*;
use image::codecs::pnm::*;
use image::*;

const KINDS: usize = 10;
fn subtype(k: usize) -> (PnmSubtype, ExtendedColorType) {
    use ExtendedColorType::*;
    use PnmSubtype::*;
    let (a, b) = (SampleEncoding::Ascii, SampleEncoding::Binary);
    [(Bitmap(a), L8), (Bitmap(b), L8), (Graymap(a), L8), (Graymap(b), L8), (Pixmap(a), Rgb8), (Pixmap(b), Rgb8),
     (ArbitraryMap, L8), (ArbitraryMap, Rgb8), (ArbitraryMap, L16), (ArbitraryMap, L1)][k % KINDS]
}
/// Files are made of lines of at most 70 characters in the ASCII subtypes.
fn lines(out: &[u8]) {
    let mut n = 0;
    for &c in out {
        if c == b'\n' {
            n = 0;
        } else {
            n += 1;
            ck!(n <= 70);
        }
    }
}
fn decode(out: &[u8], w: u32, h: u32) -> (ColorType, Vec<u8>) {
    let d = PnmDecoder::new(out).unwrap();
    ck!(d.dimensions() == (w, h));
    let c = d.color_type();
    let n = d.total_bytes() as usize;
    ck!(n == (w * h) as usize * c.bytes_per_pixel() as usize);
    let mut b = vec![0x77u8; n];
    d.read_image(&mut b).unwrap();
    observe(&b);
    (c, b)
}
/// params: kind, w, h, digits of the ASCII samples (0: any, 1..3, 4: varying)
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_roundtrip() {
    let (k, w, h) = (param(0), param(1) as u32, param(2) as u32);
    let (st, c) = subtype(k);
    let n = (w * h) as usize * c.channel_count() as usize;
    let mut out = Vec::new();
    if k == 8 {
        let px = u16s(n);
        PnmEncoder::new(&mut out).with_subtype(st).encode(&px[..], w, h, c).unwrap();
        let (ct, b) = decode(&out, w, h);
        ck!(ct == ColorType::L16);
        for i in 0..n {
            ck!(u16::from_ne_bytes([b[2 * i], b[2 * i + 1]]) == px[i]);
        }
    } else {
        let px = u8s(n);
        for i in 0..n {
            let d = if param(3) == 4 { 1 + (i * 7 + i / 5) % 3 } else { param(3) };
            match d {
                0 => {}
                1 => assume(px[i] < 10),
                2 => assume(px[i] >= 10 && px[i] < 100),
                _ => assume(px[i] >= 100),
            }
            if c == ExtendedColorType::L1 {
                assume(px[i] < 2);
            }
        }
        PnmEncoder::new(&mut out).with_subtype(st).encode(&px[..], w, h, c).unwrap();
        if matches!(k, 0 | 2 | 4) {
            lines(&out);
        }
        let (ct, b) = decode(&out, w, h);
        ck!(ct == if c == ExtendedColorType::Rgb8 { ColorType::Rgb8 } else { ColorType::L8 });
        for i in 0..n {
            // bitmaps: zero is black, anything else white
            ck!(b[i] == if k < 2 || k == 9 { if px[i] == 0 { 0 } else { 255 } } else { px[i] });
        }
    }
    reach(0);
}
/// A chosen header: samples up to its maximum are written, larger ones refused; params: kind (3 grey, 5 rgb, 10, 11: the same as PAM), maximum, w, h, 1: samples of 16 bits, 2: and that colour
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_chosen() {
    let (k, m, w, h, wide) = (param(0), param(1) as u32, param(2) as u32, param(3) as u32, param(4));
    let grey = k == 3 || k == 10;
    let c = if wide == 2 { ExtendedColorType::L16 } else if grey { ExtendedColorType::L8 } else { ExtendedColorType::Rgb8 };
    let n = (w * h) as usize * c.channel_count() as usize;
    let (px8, px16) = if wide == 0 { (u8s(n), vec![]) } else { (vec![], u16s(n)) };
    let px: Vec<u32> = px8.iter().map(|&x| x as u32).chain(px16.iter().map(|&x| x as u32)).collect();
    let encoding = SampleEncoding::Binary;
    let header: PnmHeader = match k {
        3 => GraymapHeader { encoding, width: w, height: h, maxwhite: m }.into(),
        5 => PixmapHeader { encoding, width: w, height: h, maxval: m }.into(),
        _ => ArbitraryHeader { width: w, height: h, depth: if grey { 1 } else { 3 }, maxval: m, tupltype: None }.into(),
    };
    let mut out = Vec::new();
    let mut e = PnmEncoder::new(&mut out).with_header(header);
    let r = if wide == 0 { e.encode(&px8[..], w, h, c) } else { e.encode(&px16[..], w, h, c) };
    let fits = px.iter().all(|&p| p <= m);
    if fits {
        ck!(r.is_ok());
        let (_, b) = decode(&out, w, h);
        for i in 0..n {
            if m > 255 {
                scaled(px[i], u16::from_ne_bytes([b[2 * i], b[2 * i + 1]]) as u32, m, 65535);
            } else {
                scaled(px[i], b[i] as u32, m, 255);
            }
        }
        reach(0);
    } else {
        ck!(r.is_err());
        reach(1);
    }
}
/// out is the nearest to v * full / m
fn scaled(v: u32, out: u32, m: u32, full: u32) {
    if v > m {
        return;
    }
    let (v, out, m, full) = (v as i64, out as i64, m as i64, full as i64);
    let e = (out * m - v * full).abs();
    ck!(200 * e <= 100 * m + if full > 255 { 2 * m } else { 0 });
    if v == 0 {
        ck!(out == 0);
    }
    if v == m {
        ck!(out == full);
    }
}
/// A well-formed header and an arbitrary raster; params: kind (0..=9, 10: PAM grey without a tuple type, 11: PAM rgb without one), maximum, w, h, raster bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_raster() {
    let (k, m, w, h, n) = (param(0), param(1) as u32, param(2), param(3), param(4));
    let raster = vec(n);
    let rgb = matches!(k, 4 | 5 | 7 | 11);
    let ch = if rgb { 3 } else { 1 };
    let wide = m > 255;
    let head = match k {
        0 => format!("P1\n{w} {h}\n"),
        1 => format!("P4\n{w} {h}\n"),
        2..=5 => format!("P{}\n{w} {h} {m}\n", [0, 0, 2, 5, 3, 6][k]),
        _ => format!("P7\nWIDTH {w}\nHEIGHT {h}\nDEPTH {ch}\nMAXVAL {m}\n{}ENDHDR\n",
            ["TUPLTYPE GRAYSCALE\n", "TUPLTYPE RGB\n", "TUPLTYPE GRAYSCALE\n", "TUPLTYPE BLACKANDWHITE\n", "", ""][k - 6]),
    };
    let mut f = head.into_bytes();
    f.extend_from_slice(&raster);
    let d = match PnmDecoder::new(&f[..]) {
        Ok(d) => d,
        Err(_) => {
            ck!(m == 0 || m > 65535 || (k == 9 && m != 1));
            reach(3);
            return;
        }
    };
    ck!(m > 0 && m <= 65535);
    ck!(d.dimensions() == (w as u32, h as u32));
    let two = wide && k >= 2;
    ck!(d.color_type() == match (rgb, two) { (false, false) => ColorType::L8, (false, true) => ColorType::L16, (true, false) => ColorType::Rgb8, (true, true) => ColorType::Rgb16 });
    let tot = d.total_bytes() as usize;
    let mut b = vec![0x66u8; tot];
    alloc_mark();
    let r = d.read_image(&mut b);
    ck!(alloc_peak() < 2000);
    let cnt = w * h * ch;
    let get = |b: &[u8], i: usize| if two { u16::from_ne_bytes([b[2 * i], b[2 * i + 1]]) as u32 } else { b[i] as u32 };
    let full = if two { 65535 } else { 255 };
    let ws = |c: u8| c == b' ' || (9..=13).contains(&c);
    match k {
        1 => {
            let row = (w + 7) / 8;
            ck!(r.is_ok() == (n >= row * h));
            if r.is_ok() {
                for y in 0..h {
                    for x in 0..w {
                        let bit = raster[y * row + x / 8] >> (7 - x % 8) & 1;
                        ck!(b[y * w + x] == if bit == 1 { 0 } else { 255 });
                    }
                }
                reach(0);
            } else {
                reach(1);
            }
        }
        0 => {
            // characters 0 and 1 between white space
            let mut i = 0;
            for &c in &raster {
                if i == cnt {
                    break;
                }
                if ws(c) {
                    continue;
                }
                if c != b'0' && c != b'1' {
                    break;
                }
                ck!(b[i] == if c == b'1' { 0 } else { 255 });
                i += 1;
            }
            ck!(r.is_ok() == (i == cnt));
            reach(if r.is_ok() { 0 } else { 1 });
        }
        2 | 4 => {
            // decimal numbers between white space
            let mut p = 0;
            let mut i = 0;
            while i < cnt {
                while p < n && ws(raster[p]) {
                    p += 1;
                }
                let s = p;
                let mut v = 0u32;
                let mut ok = true;
                while p < n && !ws(raster[p]) {
                    ok &= raster[p].is_ascii_digit();
                    if ok {
                        v = v * 10 + (raster[p] - b'0') as u32;
                        ok &= v <= full;
                    }
                    p += 1;
                }
                if s == p || !ok {
                    break;
                }
                if r.is_ok() {
                    scaled(v, get(&b, i), m, full);
                }
                i += 1;
            }
            ck!(r.is_ok() == (i == cnt));
            reach(if r.is_ok() { 0 } else { 1 });
        }
        _ => {
            let sz = if two { 2 } else { 1 };
            let mut ok = n >= cnt * sz;
            if ok {
                for i in 0..cnt {
                    let v = if two { (raster[2 * i] as u32) << 8 | raster[2 * i + 1] as u32 } else { raster[i] as u32 };
                    if k == 9 && v > 1 {
                        ok = false;
                        break;
                    }
                    if r.is_ok() {
                        scaled(v, get(&b, i), m, full);
                    }
                }
            }
            ck!(r.is_ok() == ok);
            reach(if r.is_ok() { 0 } else { 1 });
        }
    }
}
fn safe(f: &[u8]) {
    alloc_mark();
    match PnmDecoder::new(f) {
        Err(_) => reach(1),
        Ok(d) => {
            let (w, h) = d.dimensions();
            let n = w as u128 * h as u128 * d.color_type().bytes_per_pixel() as u128;
            ck!(d.total_bytes() as u128 == n);
            if n > 16 {
                reach(2);
                return;
            }
            let n = n as usize;
            let mut b = vec![0u8; n];
            let r = d.read_image(&mut b);
            let mut b2 = vec![0xa5u8; n];
            let r2 = PnmDecoder::new(f).unwrap().read_image(&mut b2);
            ck!(r.is_ok() == r2.is_ok());
            if r.is_ok() {
                ckeq!(b, b2);
                reach(0);
            } else {
                reach(3);
            }
        }
    }
    ck!(alloc_peak() < 4000);
}
/// Arbitrary bytes after the magic number; params: digit of the magic number, bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_any() {
    let mut f = vec![b'P', b'0' + param(0) as u8];
    f.extend_from_slice(&vec(param(1)));
    safe(&f);
}
/// Any two first bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_magic() {
    let m = bytes::<2>();
    let mut f = m.to_vec();
    f.extend_from_slice(b" 1 1 1 \x01\x01\x01\x01");
    let known = m[0] == b'P' && m[1] >= b'1' && m[1] <= b'6';
    let r = PnmDecoder::new(&f[..]);
    ck!(r.is_ok() == known);
    reach(known as u32);
}
/// Dimensions and maximum as given, whatever the separators and comments; params: style, kind 1..=6
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_header() {
    let digit = |c: u8| c.is_ascii_digit();
    let d = bytes::<6>();
    assume(d.iter().all(|&c| digit(c)));
    let ws = bytes::<3>();
    assume(ws.iter().all(|&c| c == b' ' || (9..=13).contains(&c)));
    let num = |i: usize| (d[i] - b'0') as u32 * 10 + (d[i + 1] - b'0') as u32;
    let c = bytes::<3>();
    let k = param(1);
    let mut f = vec![b'P', b'0' + k as u8];
    let tok = |f: &mut Vec<u8>, i: usize| {
        f.extend_from_slice(&d[i..i + 2]);
    };
    match param(0) {
        0 => f.push(ws[0]),
        1 => {
            // a comment of any characters
            assume(c.iter().all(|&c| c != b'\n' && c != b'\r'));
            f.push(ws[0]);
            f.push(b'#');
            f.extend_from_slice(&c);
            f.push(b'\n');
        }
        _ => f.extend_from_slice(&ws[..]),
    }
    tok(&mut f, 0);
    f.push(ws[1]);
    if param(0) == 1 {
        f.extend_from_slice(b"#12 34\n");
    }
    tok(&mut f, 2);
    f.push(ws[2]);
    if k != 1 && k != 4 {
        tok(&mut f, 4);
        f.push(ws[0]);
    }
    let m = num(4);
    match PnmDecoder::new(&f[..]) {
        Ok(dec) => {
            ck!(dec.dimensions() == (num(0), num(2)));
            let (_, h) = dec.into_inner();
            ck!(k == 1 || k == 4 || (h.maximal_sample() == m && m > 0));
            reach(0);
        }
        Err(_) => ck!(k != 1 && k != 4 && m == 0),
    }
}
/// PAM headers; params: tuple type, digits of the maximum, depth + 1 (0: any digit)
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_pam() {
    let tt = ["", "TUPLTYPE GRAYSCALE\n", "TUPLTYPE RGB\n", "TUPLTYPE BLACKANDWHITE\n", "TUPLTYPE GRAYSCALE_ALPHA\n", "TUPLTYPE X\n"][param(0)];
    let d = vec(param(1));
    assume(d.iter().all(|c| c.is_ascii_digit()));
    let dep = if param(2) > 0 { b'0' + param(2) as u8 - 1 } else { any_u8() };
    assume(dep.is_ascii_digit());
    let mut f = b"P7\n# comment\nWIDTH 2\nHEIGHT 1\nDEPTH ".to_vec();
    f.push(dep);
    f.extend_from_slice(b"\nMAXVAL ");
    f.extend_from_slice(&d);
    f.push(b'\n');
    f.extend_from_slice(tt.as_bytes());
    f.extend_from_slice(b"ENDHDR\n");
    f.extend_from_slice(&[0; 12]);
    let m = d.iter().fold(0u32, |a, c| a * 10 + (c - b'0') as u32);
    let dep = dep - b'0';
    let want = match (param(0), dep) {
        (0, 1) | (1, 1) if m <= 255 => Some(ColorType::L8),
        (0, 1) | (1, 1) if m <= 65535 => Some(ColorType::L16),
        (0, 3) | (2, 3) if m <= 255 => Some(ColorType::Rgb8),
        (0, 3) | (2, 3) if m <= 65535 => Some(ColorType::Rgb16),
        (3, 1) if m == 1 => Some(ColorType::L8),
        _ => None,
    };
    let want = if m == 0 { None } else { want };
    match PnmDecoder::new(&f[..]) {
        Ok(x) => {
            ck!(want == Some(x.color_type()));
            ck!(x.dimensions() == (2, 1));
            let mut b = vec![1u8; x.total_bytes() as usize];
            ck!(x.read_image(&mut b).is_ok());
            for v in b {
                ck!(v == 0);
            }
            reach(0);
        }
        Err(_) => {
            ck!(want.is_none());
            reach(1);
        }
    }
}
/// Every strict prefix that ends before the last sample is refused; params: kind, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn pnm_truncated() {
    let (k, w, h) = (param(0), param(1) as u32, param(2) as u32);
    let (st, c) = subtype(k);
    let n = (w * h) as usize * c.channel_count() as usize;
    let mut out = Vec::new();
    if k == 8 {
        let px = u16s(n);
        PnmEncoder::new(&mut out).with_subtype(st).encode(&px[..], w, h, c).unwrap();
    } else {
        let px = u8s(n);
        if k == 9 {
            assume(px.iter().all(|&p| p < 2));
        }
        PnmEncoder::new(&mut out).with_subtype(st).encode(&px[..], w, h, c).unwrap();
    }
    let mut end = out.len();
    if matches!(k, 0 | 2 | 4) {
        // the last number and the space after it
        end -= 1;
        while out[end - 1] != b' ' && out[end - 1] != b'\n' {
            end -= 1;
        }
        end += 1;
    }
    for cut in 0..end {
        match PnmDecoder::new(&out[..cut]) {
            Ok(d) => {
                if d.dimensions() != (w, h) || (d.total_bytes() as usize) < n {
                    // cut inside the header
                    continue;
                }
                let mut b = vec![0u8; d.total_bytes() as usize];
                ck!(d.read_image(&mut b).is_err());
                reach(0);
            }
            Err(_) => reach(1),
        }
    }
}
/// A raster of 4 GiB or more; params: magic digit, w, h
harnesses!(pnm_roundtrip, pnm_chosen, pnm_raster, pnm_any, pnm_magic, pnm_header, pnm_pam, pnm_truncated);
