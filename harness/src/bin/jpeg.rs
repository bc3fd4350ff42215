#![cfg_attr(rustfmt, rustfmt_skip)]
//! P27 the JPEG encoder: its kernels and whole files, read by a decoder of the entropy coded data written here.
use hx::*;
use image::codecs::jpeg::{verif, JpegEncoder, PixelDensity, PixelDensityUnit};
use image::{ExtendedColorType as E, GenericImageView, ImageBuffer, ImageEncoder, ImageError, Luma, LumaA, Rgb, Rgba};

/// cos((2 x + 1) k pi / 16) / 2 (over the root of two for k = 0) in units of 1 / 2^20, by k * (2 x + 1) mod 32
fn c(k: usize, x: usize) -> i64 {
    // cos(n pi / 16) / 2, n in 0..=8
    const T: [i64; 9] = [524288, 514214, 484379, 435930, 370728, 291279, 200636, 102284, 0];
    if k == 0 {
        return 370728;
    }
    let n = k * (2 * x + 1) % 32;
    let n = if n > 16 { 32 - n } else { n };
    if n > 8 { -T[16 - n] } else { T[n] }
}
/// Coefficient u (across), v (down) in units of 1 / 2^40.
fn dct(s: &[u8; 64], u: usize, v: usize) -> i64 {
    let mut t = 0;
    for y in 0..8 {
        for x in 0..8 {
            t += (s[8 * y + x] as i64 - 128) * (c(u, x) * c(v, y));
        }
    }
    t
}
/// Samples around those that vary. 0 black, 1 white, 2 gray, 3 texture, 4 + k: as large as coefficient k gets, 100 + k: as low
fn ground(kind: usize) -> [u8; 64] {
    let mut s = [0; 64];
    for i in 0..64 {
        s[i] = match kind {
            0 => 0,
            1 => 255,
            2 => 128,
            3 => (i * i * 37 + i * 101 + 13) as u8,
            k => {
                let up = k < 100;
                let k = k - if up { 4 } else { 100 };
                if (c(k % 8, i % 8) * c(k / 8, i / 8) >= 0) == up { 255 } else { 0 }
            }
        };
    }
    s
}
fn near(s: &[u8; 64], o: &[i32; 64]) {
    const S: i64 = 1 << 40;
    for i in 0..64 {
        let d = o[i] as i64 * S - 8 * dct(s, i % 8, i / 8);
        ck!(d <= 8 * S && d >= -8 * S);
        // the codes end at ten bits; the quotient of the encoder drops the eighths
        ck!(o[i] < 8192 && o[i] > if i == 0 { -8200 } else { -8192 });
    }
}
/// params: ground, first varying sample, one after the last (each on its own path)
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_fdct() {
    let mut s = ground(param(0));
    let k = each(param(1) as u8, param(2) as u8 - 1) as usize;
    s[k] = any_u8();
    let o = verif::fdct(&s);
    near(&s, &o);
    reach(0);
}
/// params: ground, two samples that vary together
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_fdct2() {
    let mut s = ground(param(0));
    s[param(1)] = any_u8();
    s[param(2)] = any_u8();
    let o = verif::fdct(&s);
    near(&s, &o);
    reach(0);
}
/// The largest and smallest values of every coefficient; params: first, one after the last
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_fdct_extreme() {
    let k = each(param(0) as u8, param(1) as u8 - 1) as usize;
    for g in [4, 100] {
        let mut s = ground(g + k);
        s[(7 * k + 3) % 64] = any_u8();
        let o = verif::fdct(&s);
        near(&s, &o);
    }
    reach(0);
}
/// No sum overflows, every sample free.
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_fdct_free() {
    let s = bytes::<64>();
    let o = verif::fdct(&s);
    near(&s, &o);
    reach(0);
}
/// params: bits of the channels that vary, their values otherwise
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_ycbcr() {
    let p = bytes::<3>();
    for k in 0..3 {
        if param(0) & (1 << k) == 0 {
            assume(p[k] as usize == param(1 + k as u32));
        }
    }
    let (y, cb, cr) = verif::rgb_to_ycbcr(p);
    let [r, g, b] = p.map(|x| x as i64);
    // ITU-T T.871 in units of 1 / 10^6
    let near = |o: u8, w: i64| {
        let d = o as i64 * 1_000_000 - w;
        ck!(d <= 510_000 && d >= -510_000);
    };
    near(y, 299_000 * r + 587_000 * g + 114_000 * b);
    near(cb, -168_736 * r - 331_264 * g + 500_000 * b + 128_000_000);
    near(cr, 500_000 * r - 418_688 * g - 81_312 * b + 128_000_000);
    reach(0);
}

// ---------------------------------------------------------------- the file
const ZIGZAG: [usize; 64] = {
    let mut z = [0; 64];
    let (mut i, mut d) = (0, 0);
    while d < 15 {
        // diagonal d, upwards when even
        let mut k = 0;
        while k <= d {
            let (y, x) = if d % 2 == 0 { (d - k, k) } else { (k, d - k) };
            if y < 8 && x < 8 {
                z[i] = 8 * y + x;
                i += 1;
            }
            k += 1;
        }
        d += 1;
    }
    z
};
/// Code and its length of every symbol.
type Huff = [(u32, u32); 256];
/// Codes in order of length; `None` where they overrun.
fn huff(counts: &[u8], symbols: &[u8]) -> Option<Huff> {
    let mut h = [(0, 0); 256];
    let (mut code, mut n) = (0u32, 0);
    for l in 1..=16u32 {
        code <<= 1;
        for _ in 0..counts[l as usize - 1] {
            // the code of ones only stays unused
            if code + 1 >= 1 << l || h[symbols[n] as usize].1 != 0 {
                return None;
            }
            h[symbols[n] as usize] = (code, l);
            code += 1;
            n += 1;
        }
    }
    Some(h)
}
#[derive(Default)]
struct File {
    app0: Vec<u8>,
    icc: Vec<u8>,
    size: (u32, u32),
    /// identifier, sampling, quantisation table, Huffman tables
    comps: Vec<[u8; 4]>,
    q: Vec<Option<[u8; 64]>>,
    dc: Vec<Option<Huff>>,
    ac: Vec<Option<Huff>>,
    /// bytes of the scan without the stuffing
    scan: Vec<u8>,
}
fn read(f: &[u8]) -> File {
    let mut r = File { q: vec![None; 4], dc: vec![None; 2], ac: vec![None; 2], ..Default::default() };
    ck!(f.len() > 4 && f[0] == 0xff && f[1] == 0xd8);
    let mut p = 2;
    let mut seen = 0;
    let mut parts = (0, 0);
    loop {
        ck!(f[p] == 0xff);
        let m = f[p + 1];
        let l = f[p + 2] as usize * 256 + f[p + 3] as usize;
        let d = &f[p + 4..p + 2 + l];
        p += 2 + l;
        match m {
            0xe0 => {
                ck!(seen == 0);
                r.app0 = d.to_vec();
            }
            0xe2 => {
                ck!(&d[..12] == b"ICC_PROFILE\0");
                ck!(d[12] as usize == parts.0 + 1 && (parts.0 == 0 || d[13] as usize == parts.1));
                parts = (parts.0 + 1, d[13] as usize);
                r.icc.extend_from_slice(&d[14..]);
            }
            0xc0 => {
                ck!(r.comps.is_empty() && d[0] == 8);
                r.size = (d[3] as u32 * 256 + d[4] as u32, d[1] as u32 * 256 + d[2] as u32);
                ck!(d.len() == 6 + 3 * d[5] as usize);
                for c in d[6..].chunks(3) {
                    r.comps.push([c[0], c[1], c[2], 0]);
                }
            }
            0xdb => {
                ck!(d.len() == 65 && d[0] < 4);
                let mut q = [0; 64];
                for i in 0..64 {
                    q[ZIGZAG[i]] = d[1 + i];
                }
                ck!(q.iter().all(|&x| x > 0));
                r.q[d[0] as usize] = Some(q);
            }
            0xc4 => {
                let n: usize = d[1..17].iter().map(|&x| x as usize).sum();
                ck!(d.len() == 17 + n && d[0] & 0xee == 0);
                let h = huff(&d[1..17], &d[17..]);
                ck!(h.is_some());
                if d[0] & 0x10 == 0 { r.dc[d[0] as usize & 1] = h } else { r.ac[d[0] as usize & 1] = h }
            }
            0xda => {
                ck!(d.len() == 4 + 2 * d[0] as usize && d[0] as usize == r.comps.len());
                for (c, s) in r.comps.iter_mut().zip(d[1..].chunks(2)) {
                    ck!(c[0] == s[0] && s[1] & 0xee == 0);
                    c[3] = s[1];
                }
                ck!(d[d.len() - 3..] == [0, 63, 0]);
                break;
            }
            _ => ckfail!(),
        }
        seen += 1;
    }
    ck!(parts.0 == parts.1);
    while p < f.len() {
        let b = f[p];
        p += 1;
        if b == 0xff {
            if f[p] == 0xd9 {
                ck!(p + 1 == f.len());
                return r;
            }
            ck!(f[p] == 0);
            p += 1;
        }
        r.scan.push(b);
    }
    ckfail!();
    r
}
struct Bits<'a>(&'a [u8], usize);
impl Bits<'_> {
    fn bit(&mut self) -> u32 {
        let b = self.0[self.1 / 8] >> (7 - self.1 % 8) & 1;
        self.1 += 1;
        b as u32
    }
    fn symbol(&mut self, h: &Huff) -> u8 {
        let mut code = 0;
        for l in 1..=16 {
            code = 2 * code + conc(self.bit() as u64) as u32;
            for s in 0..256 {
                if h[s] == (code, l) {
                    return s as u8;
                }
            }
        }
        ckfail!();
        0
    }
    fn value(&mut self, n: u8) -> i32 {
        if n == 0 {
            return 0;
        }
        let mut v = 0;
        for _ in 0..n {
            v = 2 * v + self.bit() as i32;
        }
        if v < 1 << (n - 1) { v - (1 << n) + 1 } else { v }
    }
    fn block(&mut self, dc: &Huff, ac: &Huff, prev: i32) -> [i32; 64] {
        let mut b = [0; 64];
        let n = self.symbol(dc);
        b[0] = prev + self.value(n);
        let mut k = 1;
        while k < 64 {
            let s = self.symbol(ac);
            if s == 0 {
                break;
            }
            k += (s >> 4) as usize;
            ck!(k < 64 && (s & 15 > 0 || s == 0xf0));
            if s & 15 > 0 {
                b[ZIGZAG[k]] = self.value(s & 15);
            }
            k += 1;
        }
        b
    }
}
/// One block of samples per component, in the order of the scan, against the coefficients of the file.
fn compare(f: &File, blocks: &[[u8; 64]], exact: bool) {
    let mut b = Bits(&f.scan, 0);
    let n = f.comps.len();
    let mut prev = [0; 3];
    for (k, s) in blocks.iter().enumerate() {
        let [_, _, tq, t] = f.comps[k % n];
        let (dc, ac) = (f.dc[(t >> 4) as usize].unwrap(), f.ac[(t & 1) as usize].unwrap());
        let o = b.block(&dc, &ac, prev[k % n]);
        prev[k % n] = o[0];
        let q = f.q[tq as usize].unwrap();
        for i in 0..64 {
            // within half a step and what the integer transform loses
            let d = o[i] as i64 * q[i] as i64 * (1 << 40) - dct(s, i % 8, i / 8);
            let tol = (q[i] as i64 * 2 + if exact { 6 } else { 20 }) << 38;
            ck!(d <= tol && d >= -tol);
        }
    }
    ck!((b.1 + 7) / 8 == f.scan.len());
    while b.1 % 8 != 0 {
        ck!(b.bit() == 1);
    }
}
/// The sample blocks of an image, edges repeated; p gives the pixel.
fn blocks(w: u32, h: u32, n: usize, p: impl Fn(u32, u32) -> [u8; 3]) -> Vec<[u8; 64]> {
    let mut v = vec![];
    for y in (0..h).step_by(8) {
        for x in (0..w).step_by(8) {
            let mut b = [[0; 64]; 3];
            for i in 0..64 {
                let q = p((x + i % 8).min(w - 1), (y + i / 8).min(h - 1));
                let q = if n == 1 { q } else { let t = verif::rgb_to_ycbcr(q); [t.0, t.1, t.2] };
                for c in 0..n {
                    b[c][i as usize] = q[c];
                }
            }
            v.extend_from_slice(&b[..n]);
        }
    }
    v
}
fn header(f: &File, w: u32, h: u32, n: usize) {
    ck!(f.size == (w, h) && f.comps.len() == n);
    for (i, c) in f.comps.iter().enumerate() {
        ck!(c[1] == 0x11 && f.q[c[2] as usize].is_some());
        ck!(f.dc[(c[3] >> 4) as usize].is_some() && f.ac[(c[3] & 1) as usize].is_some());
        ck!(f.comps[..i].iter().all(|d| d[0] != c[0]));
    }
    // every symbol has a code
    for h in f.dc.iter().flatten() {
        ck!((0..=11).all(|s| h[s].1 > 0));
    }
    for h in f.ac.iter().flatten() {
        ck!(h[0].1 > 0 && h[0xf0].1 > 0);
        for run in 0..16 {
            ck!((1..=10).all(|s| h[run * 16 + s].1 > 0));
        }
    }
}
/// Whole files. params: w, h, kind (0 L8, 1 Rgb8, 2 La8, 3 Rgba8, the last two through encode_image), quality, texture, byte that varies, another one or 0
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_file() {
    let (w, h, kind, quality, tex) = (param(0) as u32, param(1) as u32, param(2), param(3) as u8, param(4));
    let ch = [1, 3, 2, 4][kind];
    let n = (w * h) as usize * ch;
    let mut raw: Vec<u8> = (0..n).map(|i| match tex { 0 => 128, 1 => (i * 7 + i * i * 3) as u8, 2 => 255 * (i / ch % 2) as u8, _ => (255 - 3 * i) as u8 }).collect();
    raw[param(5)] = any_u8();
    if param(6) > 0 {
        raw[param(6)] = any_u8();
    }
    let mut out = vec![];
    let mut e = JpegEncoder::new_with_quality(&mut out, quality);
    let r = match kind {
        0 => e.write_image(&raw, w, h, E::L8),
        1 => e.write_image(&raw, w, h, E::Rgb8),
        2 => e.encode_image(&ImageBuffer::<LumaA<u8>, _>::from_raw(w, h, &raw[..]).unwrap()),
        _ => e.encode_image(&ImageBuffer::<Rgba<u8>, _>::from_raw(w, h, &raw[..]).unwrap()),
    };
    ck!(r.is_ok());
    let f = read(&out);
    let nc = if kind % 2 == 0 { 1 } else { 3 };
    header(&f, w, h, nc);
    ck!(f.app0 == *b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0");
    let b = blocks(w, h, nc, |x, y| {
        let p = (y * w + x) as usize * ch;
        if nc == 1 { [raw[p]; 3] } else { [raw[p], raw[p + 1], raw[p + 2]] }
    });
    compare(&f, &b, nc == 1);
    reach(0);
}
/// Entropy coded data of blocks with few coefficients. params: luma, blocks, number of AC places, then their places in zigzag order
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_entropy() {
    let (luma, n, m) = (param(0) == 1, param(1), param(2));
    let mut b = vec![[0i32; 64]; n];
    for k in 0..n {
        b[k][0] = any_u16() as i16 as i32;
        assume(b[k][0] >= -1024 && b[k][0] < 1024);
    }
    for k in 0..m {
        let x = any_u16() as i16 as i32;
        assume(x > -1024 && x < 1024);
        let p = param(3 + k as u32);
        b[p / 100][ZIGZAG[p % 100]] = x;
    }
    let got = verif::write_blocks(&b, luma);
    // with the codes the file announces
    let mut out = vec![];
    JpegEncoder::new(&mut out).write_image(&[1, 2, 3], 1, 1, E::Rgb8).unwrap();
    let f = read(&out);
    let i = if luma { 0 } else { 1 };
    let (dc, ac) = (f.dc[i].unwrap(), f.ac[i].unwrap());
    let mut bits: Vec<u8> = vec![];
    let mut put = |v: u32, l: u32| (0..l).rev().for_each(|i| bits.push((v >> i & 1) as u8));
    let size = |x: i32| {
        let mut s = 0;
        while x.abs() >= 1 << s {
            s += 1;
        }
        s as u32
    };
    let coded = |x: i32, s: u32| (if x < 0 { x + (1 << s) - 1 } else { x }) as u32;
    let mut prev = 0;
    for x in &b {
        let d = x[0] - prev;
        prev = x[0];
        let s = size(d);
        put(dc[s as usize].0, dc[s as usize].1);
        put(coded(d, s), s);
        let last = (1..64).rev().find(|&k| x[ZIGZAG[k]] != 0).unwrap_or(0);
        let mut run = 0;
        for k in 1..=last {
            let v = x[ZIGZAG[k]];
            if v == 0 {
                run += 1;
                continue;
            }
            for _ in 0..run / 16 {
                put(ac[0xf0].0, ac[0xf0].1);
            }
            let s = size(v);
            let e = ac[run % 16 * 16 + s as usize];
            put(e.0, e.1);
            put(coded(v, s), s);
            run = 0;
        }
        if last < 63 {
            put(ac[0].0, ac[0].1);
        }
    }
    while bits.len() % 8 != 0 {
        bits.push(1);
    }
    let mut want = vec![];
    for c in bits.chunks(8) {
        let x = c.iter().fold(0, |a, &b| 2 * a + b);
        want.push(x);
        if x == 255 {
            want.push(0);
        }
    }
    ckeq!(got, want);
    reach(0);
}
/// Quantisation tables of every quality.
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_quality() {
    // Annex K
    const L: [[u32; 8]; 8] = [[16, 11, 10, 16, 24, 40, 51, 61], [12, 12, 14, 19, 26, 58, 60, 55], [14, 13, 16, 24, 40, 57, 69, 56], [14, 17, 22, 29, 51, 87, 80, 62], [18, 22, 37, 56, 68, 109, 103, 77],
        [24, 35, 55, 64, 81, 104, 113, 92], [49, 64, 78, 87, 103, 121, 120, 101], [72, 92, 95, 98, 112, 100, 103, 99]];
    const C: [[u32; 4]; 4] = [[17, 18, 24, 47], [18, 21, 26, 66], [24, 26, 56, 99], [47, 66, 99, 99]];
    let q = each(param(0) as u8, param(1) as u8) as u8;
    let mut out = vec![];
    JpegEncoder::new_with_quality(&mut out, q).write_image(&[1, 2, 3], 1, 1, E::Rgb8).unwrap();
    let f = read(&out);
    let q = (q as u32).clamp(1, 100);
    let s = if q < 50 { 5000 / q } else { 200 - 2 * q };
    for (k, t) in [f.q[f.comps[0][2] as usize].unwrap(), f.q[f.comps[1][2] as usize].unwrap(), f.q[f.comps[2][2] as usize].unwrap()].iter().enumerate() {
        for i in 0..64 {
            let (x, y) = (i % 8, i / 8);
            let base = if k == 0 { LUMA(&L, x, y) } else if x < 4 && y < 4 { C[y][x] } else { 99 };
            ck!(t[i] as u32 == ((base * s + 50) / 100).clamp(1, 255));
        }
    }
    reach(0);
}
#[allow(non_snake_case)]
fn LUMA(l: &[[u32; 8]; 8], x: usize, y: usize) -> u32 {
    l[y][x]
}
/// Sizes. params: kind of pixel (0 L8, 1 Rgb8), w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_sizes() {
    struct Fake(u32, u32);
    impl GenericImageView for Fake {
        type Pixel = Luma<u8>;
        fn dimensions(&self) -> (u32, u32) {
            (self.0, self.1)
        }
        fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> {
            ck!(x < self.0 && y < self.1);
            Luma([100])
        }
    }
    // one side free (or none of it), the other a single block
    let (a, b) = if param(0) == 0 { (any_u32(), any_u32()) } else { (each(1, 9), each(1, 17)) };
    if param(0) == 0 {
        assume(a == 0 || b == 0 || a > 65535 || b > 65535);
    }
    let mut out = vec![];
    let r = JpegEncoder::new(&mut out).encode_image(&Fake(a, b));
    if param(0) == 0 {
        ck!(matches!(r, Err(ImageError::Parameter(_))));
        reach(0);
    } else {
        ck!(r.is_ok());
        let f = read(&out);
        header(&f, a, b, 1);
        compare(&f, &blocks(a, b, 1, |_, _| [100; 3]), true);
        reach(0);
    }
}
/// Density and profile. params: length of the profile
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_extras() {
    let d = (any_u16(), any_u16());
    let u = each(0, 2) as usize;
    let mut icc = vec![0xa5u8; param(0)];
    for i in [0, 1, 65518, 65519, 65520, 131037, 131038] {
        if i < icc.len() {
            icc[i] = any_u8();
        }
    }
    let mut out = vec![];
    let mut e = JpegEncoder::new(&mut out);
    e.set_pixel_density(PixelDensity { density: d, unit: [PixelDensityUnit::PixelAspectRatio, PixelDensityUnit::Inches, PixelDensityUnit::Centimeters][u] });
    e.set_icc_profile(icc.clone()).unwrap();
    e.write_image(&[9], 1, 1, E::L8).unwrap();
    let f = read(&out);
    let (x, y) = (d.0.to_be_bytes(), d.1.to_be_bytes());
    ckeq!(f.app0, [b'J', b'F', b'I', b'F', 0, 1, 2, u as u8, x[0], x[1], y[0], y[1], 0, 0]);
    ckeq!(f.icc, icc);
    header(&f, 1, 1, 1);
    compare(&f, &blocks(1, 1, 1, |_, _| [9; 3]), true);
    reach(0);
}
/// Pixels of more than eight bits are refused. params: kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn jpeg_types() {
    let k = param(0);
    let mut out = vec![];
    let mut e = JpegEncoder::new(&mut out);
    let r = match k {
        0 => e.encode_image(&ImageBuffer::<Luma<u16>, _>::from_raw(1, 1, u16s(1)).unwrap()),
        1 => e.encode_image(&ImageBuffer::<LumaA<u16>, _>::from_raw(1, 1, u16s(2)).unwrap()),
        2 => e.encode_image(&ImageBuffer::<Rgb<u16>, _>::from_raw(1, 1, u16s(3)).unwrap()),
        3 => e.encode_image(&ImageBuffer::<Rgba<u16>, _>::from_raw(1, 1, u16s(4)).unwrap()),
        4 => e.encode_image(&ImageBuffer::<Rgb<f32>, _>::from_raw(1, 1, f32s(3)).unwrap()),
        5 => e.encode_image(&ImageBuffer::<Rgba<f32>, _>::from_raw(1, 1, f32s(4)).unwrap()),
        k => {
            let c = [E::La8, E::Rgba8, E::L16, E::La16, E::Rgb16, E::Rgba16, E::Rgb32F, E::Rgba32F][k - 6];
            e.write_image(&vec((c.bits_per_pixel() / 8) as usize), 1, 1, c)
        }
    };
    ck!(matches!(r, Err(ImageError::Unsupported(_))));
    reach(0);
}
harnesses!(jpeg_fdct, jpeg_fdct2, jpeg_fdct_extreme, jpeg_fdct_free, jpeg_ycbcr, jpeg_file, jpeg_entropy, jpeg_quality, jpeg_sizes, jpeg_extras, jpeg_types);
