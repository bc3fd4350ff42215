#![cfg_attr(rustfmt, rustfmt_skip)]
//! P13 resampling, thumbnails, filters.
use num_traits::ToPrimitive;
use hx::px::*;
use hx::*;
use image::imageops::*;
use image::*;

const FILTERS: [FilterType; 5] = [FilterType::Nearest, FilterType::Triangle, FilterType::CatmullRom, FilterType::Gaussian, FilterType::Lanczos3];

/// A symbolic sample of 256 values: every u8, u16 multiples of 257, f32 k/255.
trait Byte: Sub {
    fn byte(b: u8) -> Self;
    fn f(self) -> f64;
    const EPS: f64;
    const EXACT: bool;
}
impl Byte for u8 {
    fn byte(b: u8) -> u8 { b }
    fn f(self) -> f64 { self as f64 }
    const EPS: f64 = 0.52;
    const EXACT: bool = true;
}
impl Byte for u16 {
    fn byte(b: u8) -> u16 { b as u16 * 257 }
    fn f(self) -> f64 { self as f64 }
    const EPS: f64 = 0.7;
    const EXACT: bool = true;
}
impl Byte for f32 {
    fn byte(b: u8) -> f32 { b as f32 / 255.0 }
    fn f(self) -> f64 { self as f64 }
    const EPS: f64 = 1e-5;
    const EXACT: bool = false;
}
macro_rules! by_kind {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<Luma<u8>>($($a),*),
            1 => $f::<Rgba<u8>>($($a),*),
            2 => $f::<LumaA<u16>>($($a),*),
            3 => $f::<Rgb<f32>>($($a),*),
            _ => $f::<Rgb<u8>>($($a),*),
        }
    };
}
/// Fixed samples but for one, at a place of its own.
fn one<P: Pixel>(w: u32, h: u32) -> Img<P>
where
    P::Subpixel: Byte,
{
    let n = P::CHANNEL_COUNT as usize;
    let mut i = fixed::<P>(w, h);
    let s = P::Subpixel::byte(any_u8());
    let (x, y) = (each(0, (w - 1) as u8), each(0, (h - 1) as u8));
    i.get_pixel_mut(x, y).channels_mut()[(x as usize + y as usize) % n] = s;
    i
}
/// All pixels alike.
fn constant<P: Pixel>(w: u32, h: u32) -> (Img<P>, Vec<P::Subpixel>)
where
    P::Subpixel: Byte,
{
    let n = P::CHANNEL_COUNT as usize;
    let v: Vec<P::Subpixel> = (0..n).map(|_| P::Subpixel::byte(any_u8())).collect();
    (ImageBuffer::from_pixel(w, h, *P::from_slice(&v)), v)
}
fn near(a: f64, b: f64, eps: f64) -> bool {
    a - b <= eps && b - a <= eps
}
fn kernel(f: usize, x: f64) -> f64 {
    let a = x.abs();
    match f {
        1 => if a < 1.0 { 1.0 - a } else { 0.0 },
        2 => {
            if a < 1.0 { (9.0 * a * a * a - 15.0 * a * a + 6.0) / 6.0 }
            else if a < 2.0 { (-3.0 * a * a * a + 15.0 * a * a - 24.0 * a + 12.0) / 6.0 }
            else { 0.0 }
        }
        3 => (-x * x / 0.5).exp(),
        _ => {
            let sinc = |t: f64| if t == 0.0 { 1.0 } else { (t * std::f64::consts::PI).sin() / (t * std::f64::consts::PI) };
            if a < 3.0 { sinc(x) * sinc(x / 3.0) } else { 0.0 }
        }
    }
}
/// Normalised weights of the source positions for one target position.
fn weights(f: usize, n: u32, m: u32, o: u32) -> Vec<(u32, f64)> {
    let ratio = n as f64 / m as f64;
    let s = ratio.max(1.0);
    let support = [0.0, 1.0, 2.0, 3.0, 3.0][f] * s;
    let c = (o as f64 + 0.5) * ratio;
    let mut v = vec![];
    let mut sum = 0.0;
    for i in 0..n {
        // one more on each side has (nearly) no weight
        if (i as f64) + 1.0 > c - support && (i as f64) < c + support {
            let k = kernel(f, (i as f64 + 0.5 - c) / s);
            v.push((i, k));
            sum += k;
        }
    }
    for x in &mut v {
        x.1 /= sum;
    }
    v
}
fn resize_one<P: Pixel + 'static>(f: usize, w: u32, h: u32, nw: u32, nh: u32)
where
    P::Subpixel: Byte + 'static,
{
    let n = P::CHANNEL_COUNT as usize;
    let i = one::<P>(w, h);
    merge(1);
    let r = resize(&i, nw, nh, FILTERS[f]);
    ck!(r.dimensions() == (nw, nh));
    ck!(r.as_raw().len() == nw as usize * nh as usize * n);
    if (w, h) == (nw, nh) {
        ck!(same(r.as_raw(), i.as_raw()));
        reach(0);
        return;
    }
    let max = P::Subpixel::DEFAULT_MAX_VALUE.f();
    for y in 0..nh {
        let wy = if f > 0 { weights(f, h, nh, y) } else { vec![] };
        for x in 0..nw {
            let wx = if f > 0 { weights(f, w, nw, x) } else { vec![] };
            for c in 0..n {
                let got = r.get_pixel(x, y).channels()[c];
                if f == 0 {
                    // the pixel under the centre
                    let (cx, cy) = ((2 * x as u64 + 1) * w as u64, (2 * y as u64 + 1) * h as u64);
                    let (sx, sy) = ((cx / (2 * nw as u64)) as u32, (cy / (2 * nh as u64)) as u32);
                    let (ex, ey) = (cx % (2 * nw as u64) == 0 && sx > 0, cy % (2 * nh as u64) == 0 && sy > 0);
                    // or either one where the centre lies on an edge
                    let mut ok = false;
                    for (dx, dy) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
                        if (dx == 0 || ex) && (dy == 0 || ey) {
                            ok |= same(&[got], &[i.get_pixel(sx - dx, sy - dy).channels()[c]]);
                        }
                    }
                    ck!(ok);
                } else {
                    let mut want = 0.0;
                    for &(sy, ky) in &wy {
                        for &(sx, kx) in &wx {
                            want += i.get_pixel(sx, sy).channels()[c].f() * (kx * ky);
                        }
                    }
                    let want = if want < 0.0 { 0.0 } else if want > max { max } else { want };
                    ck!(near(got.f(), want, P::Subpixel::EPS));
                }
            }
        }
    }
    reach(0);
}
/// One free sample among fixed ones; params: kind, filter, w, h, new w, new h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_resize() {
    by_kind!(param(0), resize_one, param(1), param(2) as u32, param(3) as u32, param(4) as u32, param(5) as u32)
}
fn const_one<P: Pixel + 'static>(op: usize, w: u32, h: u32, nw: u32, nh: u32)
where
    P::Subpixel: Byte + 'static,
    P: Thumb,
{
    let n = P::CHANNEL_COUNT as usize;
    let (i, v) = constant::<P>(w, h);
    merge(1);
    let (r, d) = match op {
        0..=4 => (resize(&i, nw, nh, FILTERS[op]), (nw, nh)),
        5 => (P::thumb(&i, nw, nh), (nw, nh)),
        6 => (blur(&i, nw as f32 / 10.0), (w, h)),
        7 => (fast_blur(&i, nw as f32 / 10.0), (w, h)),
        8 => (unsharpen(&i, nw as f32 / 10.0, nh as i32), (w, h)),
        _ => (filter3x3(&i, &[0.5, 1.0, -0.5, 2.0, 1.0, 0.25, 0.5, -1.0, 0.25]), (w, h)),
    };
    ck!(r.dimensions() == d);
    for y in 0..d.1 {
        for x in 0..d.0 {
            for c in 0..n {
                let got = r.get_pixel(x, y).channels()[c];
                if op == 9 && (x == 0 || y == 0 || x + 1 == w || y + 1 == h) {
                    continue;
                }
                if P::Subpixel::EXACT {
                    ck!(got == v[c]);
                } else {
                    ck!(near(got.f(), v[c].f(), 1e-5));
                }
            }
        }
    }
    reach(0);
}
/// Constant images; params: kind, operation, w, h, and new w, new h or tenths of sigma, threshold
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_constant() {
    by_kind!(param(0), const_one, param(1), param(2) as u32, param(3) as u32, param(4) as u32, param(5) as u32)
}
trait Thumb: Pixel where Self::Subpixel: Sub {
    fn thumb(i: &Img<Self>, w: u32, h: u32) -> Img<Self>;
}
macro_rules! th {
    ($($p:ty),*) => {$(impl Thumb for $p { fn thumb(i: &Img<Self>, w: u32, h: u32) -> Img<Self> { thumbnail(i, w, h) } })*};
}
th!(Luma<u8>, Rgb<u8>, Rgba<u8>, LumaA<u16>, Rgb<f32>);
/// Sizes of zero: every operation returns an image of the requested size; param: operation
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_empty() {
    let (w, h) = (each(0, 2), each(0, 2));
    let (nw, nh) = (each(0, 2), each(0, 2));
    let op = param(0);
    assume(w * h == 0 || nw * nh == 0 && op < 6);
    let (i, _) = img::<Rgb<u8>>(w, h);
    let (r, d) = match op {
        0..=4 => (resize(&i, nw, nh, FILTERS[op]), (nw, nh)),
        5 => (thumbnail(&i, nw, nh), (nw, nh)),
        6 => (blur(&i, 1.5), (w, h)),
        7 => (fast_blur(&i, 1.5), (w, h)),
        8 => (unsharpen(&i, 1.5, 2), (w, h)),
        _ => (filter3x3(&i, &[1.0; 9]), (w, h)),
    };
    ck!(r.dimensions() == d && r.as_raw().len() == (d.0 * d.1 * 3) as usize);
    reach(0);
}
fn blur_one<P: Pixel + 'static>(sigma: f32, w: u32, h: u32)
where
    P::Subpixel: Byte + 'static,
{
    let n = P::CHANNEL_COUNT as usize;
    let i = one::<P>(w, h);
    merge(1);
    let r = blur(&i, sigma);
    ck!(r.dimensions() == (w, h));
    let s = if sigma <= 0.0 { 1.0 } else { sigma as f64 };
    let axis = |len: u32, o: u32| {
        let mut v = vec![];
        let mut sum = 0.0;
        for p in 0..len {
            let d = p as f64 - o as f64;
            // pixels touched by the window of two standard deviations
            if d + 0.5 > -2.0 * s && d - 0.5 < 2.0 * s {
                let k = (-d * d / (2.0 * s * s)).exp();
                v.push((p, k));
                sum += k;
            }
        }
        for x in &mut v {
            x.1 /= sum;
        }
        v
    };
    for y in 0..h {
        let wy = axis(h, y);
        for x in 0..w {
            let wx = axis(w, x);
            for c in 0..n {
                let mut want = 0.0;
                for &(sy, ky) in &wy {
                    for &(sx, kx) in &wx {
                        want += i.get_pixel(sx, sy).channels()[c].f() * (kx * ky);
                    }
                }
                ck!(near(r.get_pixel(x, y).channels()[c].f(), want, P::Subpixel::EPS));
            }
        }
    }
    reach(0);
}
/// params: kind, sigma in hundredths, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_blur() {
    by_kind!(param(0), blur_one, param(1) as f32 / 100.0, param(2) as u32, param(3) as u32)
}
/// Any sigma; params: w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_sigma() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let all = [f32::MIN_POSITIVE, 1e-45, 1e-30, 1e-23, 1e-20, 1e-10, 1e-3, 0.01, 0.04, 0.3, 3.0, 1e4, 1e10, 1e19, 1e20, 1e38, f32::MAX, 0.0, -0.0, -1.0, -1e30, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    let s = all[each(0, all.len() as u8 - 1) as usize];
    let i = one::<Luma<u8>>(w, h);
    merge(1);
    let r = blur(&i, s);
    ck!(r.dimensions() == (w, h));
    if s > 0.0 && s < 0.1 {
        ck!(same(r.as_raw(), i.as_raw()));
    }
    let r = unsharpen(&i, s, 3);
    ck!(r.dimensions() == (w, h));
    if s.abs() < 100.0 {
        let r = fast_blur(&i, s);
        ck!(r.dimensions() == (w, h));
        if s.abs() < 0.1 {
            ck!(same(r.as_raw(), i.as_raw()));
        }
    }
    reach(0);
}
/// Three box blurs of the same radius or of two radii, with edges repeated; params: sigma in tenths, w, h, first box, second, third
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_fast_blur() {
    let (w, h) = (param(1) as u32, param(2) as u32);
    let i = one::<Rgb<u8>>(w, h);
    merge(1);
    let r = fast_blur(&i, param(0) as f32 / 10.0);
    ck!(r.dimensions() == (w, h));
    let mut v: Vec<u32> = i.as_raw().iter().map(|&b| b as u32).collect();
    let get = |v: &[u32], x: i64, y: i64, c: usize| v[((y.clamp(0, h as i64 - 1) * w as i64 + x.clamp(0, w as i64 - 1)) * 3) as usize + c];
    for p in 0..3 {
        let size = param(3 + p) as u32;
        let rad = (size as i64 - 1) / 2;
        for axis in 0..2 {
            let mut o = vec![0; v.len()];
            for y in 0..h as i64 {
                for x in 0..w as i64 {
                    for c in 0..3 {
                        let mut s = 0;
                        for d in -rad..=rad {
                            s += if axis == 0 { get(&v, x + d, y, c) } else { get(&v, x, y + d, c) };
                        }
                        o[((y * w as i64 + x) * 3) as usize + c] = s / size;
                    }
                }
            }
            v = o;
        }
    }
    for k in 0..v.len() {
        ck!(r.as_raw()[k] as u32 == v[k]);
    }
    reach(0);
}
fn filter_one<P: Pixel + 'static>(w: u32, h: u32, k: usize)
where
    P::Subpixel: Byte + 'static,
{
    let n = P::CHANNEL_COUNT as usize;
    let i = one::<P>(w, h);
    merge(1);
    let ks: [[f32; 9]; 3] = [[1.0, 2.0, 1.0, 2.0, 4.0, 2.0, 1.0, 2.0, 1.0], [-1.0, -1.0, -1.0, -1.0, 8.0, -1.0, -1.0, -1.0, -1.0], [0.0, 3.0, 1.0, -2.0, 0.5, 0.0, 0.25, 0.0, 1.25]];
    let ks = ks[k];
    let r = filter3x3(&i, &ks);
    ck!(r.dimensions() == (w, h));
    let sum: f64 = ks.iter().map(|&x| x as f64).sum();
    let sum = if sum == 0.0 { 1.0 } else { sum };
    let max = P::Subpixel::DEFAULT_MAX_VALUE.f();
    for y in 0..h {
        for x in 0..w {
            for c in 0..n {
                let got = r.get_pixel(x, y).channels()[c].f();
                if x == 0 || y == 0 || x + 1 == w || y + 1 == h {
                    ck!(got == 0.0);
                    continue;
                }
                let mut t = 0.0;
                for (j, k) in ks.iter().enumerate() {
                    t += *k as f64 * i.get_pixel(x + j as u32 % 3 - 1, y + j as u32 / 3 - 1).channels()[c].f();
                }
                let t = t / sum;
                let t = if t < 0.0 { 0.0 } else if t > max { max } else { t };
                // the result is cut, not rounded
                ck!(got <= t + 0.02 && t - got <= 1.02 && (P::Subpixel::EXACT || near(got, t, 1e-4)));
            }
        }
    }
    reach(0);
}
/// params: kind, w, h, kernel
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_filter() {
    by_kind!(param(0), filter_one, param(1) as u32, param(2) as u32, param(3))
}
/// Sharpening: what differs from its blur by more than the threshold moves by the difference; params: sigma in tenths, threshold, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_unsharpen() {
    let (w, h) = (param(2) as u32, param(3) as u32);
    let sigma = param(0) as f32 / 10.0;
    let i = one::<LumaA<u8>>(w, h);
    merge(1);
    let b = blur(&i, sigma);
    let r = unsharpen(&i, sigma, param(1) as i32);
    ck!(r.dimensions() == (w, h));
    for k in 0..i.as_raw().len() {
        let (a, b) = (i.as_raw()[k] as i32, b.as_raw()[k] as i32);
        let d = a - b;
        let want = if d > param(1) as i32 || -d > param(1) as i32 { (a + d).max(0).min(255) } else { a };
        ck!(r.as_raw()[k] as i32 == want);
    }
    reach(0);
}
/// Thumbnails by a whole factor are the rounded block averages; params: kind, factors, new w, new h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_thumb_blocks() {
    by_kind!(param(0), thumb_blocks, param(1) as u32, param(2) as u32, param(3) as u32, param(4) as u32)
}
fn thumb_blocks<P: Thumb>(fx: u32, fy: u32, nw: u32, nh: u32)
where
    P::Subpixel: Byte,
{
    let n = P::CHANNEL_COUNT as usize;
    let (w, h) = (fx * nw, fy * nh);
    let i = one::<P>(w, h);
    let r = P::thumb(&i, nw, nh);
    ck!(r.dimensions() == (nw, nh));
    for y in 0..nh {
        for x in 0..nw {
            for c in 0..n {
                let got = r.get_pixel(x, y).channels()[c];
                if P::Subpixel::EXACT {
                    let mut s = 0u64;
                    for j in 0..fx * fy {
                        s += i.get_pixel(x * fx + j % fx, y * fy + j / fx).channels()[c].to_u64().unwrap();
                    }
                    ck!(got.to_u64().unwrap() == (s + (fx * fy / 2) as u64) / (fx * fy) as u64);
                } else {
                    let mut s = 0.0;
                    for j in 0..fx * fy {
                        s += i.get_pixel(x * fx + j % fx, y * fy + j / fx).channels()[c].f();
                    }
                    ck!(near(got.f(), s / (fx * fy) as f64, 1e-5));
                }
            }
        }
    }
    reach(0);
}
/// Each source sample is part of exactly one thumbnail pixel; params: w, h, new w, new h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_thumb_partition() {
    let (w, h, nw, nh) = (param(0) as u32, param(1) as u32, param(2) as u32, param(3) as u32);
    let s = any_u16();
    assume(s >= 64);
    let (x, y) = (each(0, (w - 1) as u8), each(0, (h - 1) as u8));
    let mut i: Img<Luma<u16>> = ImageBuffer::new(w, h);
    i.put_pixel(x, y, Luma([s]));
    let r = thumbnail(&i, nw, nh);
    let mut used = 0;
    let mut total = 0;
    for p in r.pixels() {
        used += (p.0[0] != 0) as u32;
        total += p.0[0] as u32;
    }
    ck!(used == 1);
    // a block holds at most ceil(w / nw) * ceil(h / nh) pixels, and one more along each side through rounding
    ck!(total <= s as u32 && total >= s as u32 / ((w.div_ceil(nw) + 1) * (h.div_ceil(nh) + 1)));
    reach(0);
}
/// A thumbnail pixel lies between the smallest and the largest sample; params: kind, w, h, new w, new h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_thumb_range() {
    by_kind!(param(0), thumb_range, param(1) as u32, param(2) as u32, param(3) as u32, param(4) as u32)
}
fn thumb_range<P: Thumb>(w: u32, h: u32, nw: u32, nh: u32)
where
    P::Subpixel: Byte,
{
    let n = P::CHANNEL_COUNT as usize;
    let lo = P::Subpixel::byte(100);
    let s = P::Subpixel::byte(any_u8());
    let mut i: Img<P> = ImageBuffer::from_pixel(w, h, *P::from_slice(&vec![lo; n]));
    let (x, y) = (each(0, (w - 1) as u8), each(0, (h - 1) as u8));
    i.get_pixel_mut(x, y).channels_mut()[0] = s;
    let r = P::thumb(&i, nw, nh);
    ck!(r.dimensions() == (nw, nh));
    let (a, b) = if s < lo { (s, lo) } else { (lo, s) };
    let e = if P::Subpixel::EXACT { 0.0 } else { 1e-6 };
    for p in r.pixels() {
        ck!(p.channels()[0].f() >= a.f() - e && p.channels()[0].f() <= b.f() + e);
        for c in 1..n {
            ck!(near(p.channels()[c].f(), lo.f(), e));
        }
    }
    reach(0);
}
/// A thumbnail of a rising row or column of two free samples rises, and lies between its neighbours; params: kind, w, h, new w, new h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_thumb_rising() {
    by_kind!(param(0), thumb_rising, param(1) as u32, param(2) as u32, param(3) as u32, param(4) as u32)
}
fn thumb_rising<P: Thumb>(w: u32, h: u32, nw: u32, nh: u32)
where
    P::Subpixel: Byte,
{
    let (a, b) = (P::Subpixel::byte(50), P::Subpixel::byte(any_u8()));
    assume(a < b);
    let k = each(1, (w.max(h) - 1) as u8);
    let along = each(0, 1) == 0;
    let n = P::CHANNEL_COUNT as usize;
    let i: Img<P> = ImageBuffer::from_fn(w, h, |x, y| *P::from_slice(&vec![if (if along { x } else { y }) < k { a } else { b }; n]));
    merge(1);
    let r = P::thumb(&i, nw, nh);
    // mixes may round to either side
    let e = if P::Subpixel::EXACT { 1.0 } else { 1e-5 };
    for y in 0..nh {
        for x in 0..nw {
            let v = r.get_pixel(x, y).channels()[0].f();
            ck!(v >= a.f() - 1e-5 && v <= b.f() + 1e-5);
            if along && x > 0 {
                ck!(v >= r.get_pixel(x - 1, y).channels()[0].f() - e);
            }
            if !along && y > 0 {
                ck!(v >= r.get_pixel(x, y - 1).channels()[0].f() - e);
            }
            if along && y > 0 {
                ck!(near(v, r.get_pixel(x, y - 1).channels()[0].f(), e));
            }
            if !along && x > 0 {
                ck!(near(v, r.get_pixel(x - 1, y).channels()[0].f(), e));
            }
        }
    }
    reach(0);
}
/// A view of any size whose reads are checked.
struct Wide {
    w: u32,
    h: u32,
    s: u16,
}
impl GenericImageView for Wide {
    type Pixel = Luma<u16>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u16> {
        ck!(x < self.w && y < self.h);
        Luma([if x == self.w - 1 && y == self.h - 1 { self.s } else { 65535 }])
    }
}
/// Large reductions do not overflow; params: w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_thumb_large() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let s = any_u16();
    let i = Wide { w, h, s };
    let r = thumbnail(&i, 1, 1);
    let n = w as u64 * h as u64;
    let want = ((n - 1) * 65535 + s as u64 + n / 2) / n;
    ck!(r.get_pixel(0, 0).0[0] as u64 == want);
    reach(0);
}
/// Point sampling at any coordinate of a view of any size: inside the domain a value, outside none; params: function, w, h (0: any)
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_point() {
    let f = param(0);
    let w = if param(1) == 9 { any_u32() } else { param(1) as u32 };
    let h = if param(2) == 9 { any_u32() } else { param(2) as u32 };
    let i = Wide { w, h, s: 65535 };
    let (x, y) = (any_f32(), if param(3) == 1 { any_f32() } else { param(4) as f32 / 8.0 });
    point(f, i, x, y);
}
/// Sizes and coordinates at the edges of what floats hold; params: function
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_edges() {
    let sizes = [1, 2, 3, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, (1 << 24) + 3, (1 << 25) + 3, 0x7fff_ffff, 0x8000_0000, 0xffff_ff7f, 0xffff_ff80, 0xffff_ff81, u32::MAX];
    let f = param(0);
    let w = sizes[each(0, sizes.len() as u8 - 1) as usize];
    let edge = (w - 1) as f32;
    let next = |x: f32, d: i32| f32::from_bits((x.to_bits() as i32 + d) as u32);
    let one = if f == 1 { 1.0 } else { edge };
    let at = [0.0, -0.0, next(0.0, 1), -1e-30, one * 0.25, one * 0.3, one / 2.0, next(one, -1), one, next(one, 1), next(one, -1) / 2.0, f32::NAN, f32::INFINITY, 0.5, 0.49999997, 1.0, 1.5, f32::from_bits(0x3f7f_ffff)];
    let a = at[each(0, at.len() as u8 - 1) as usize];
    if each(0, 1) == 0 {
        point(f, Wide { w, h: 3, s: 65535 }, a, 0.5);
    } else {
        point(f, Wide { w: 3, h: w, s: 65535 }, 0.5, a);
    }
}
fn point(f: usize, i: Wide, x: f32, y: f32) {
    let (w, h) = (i.w, i.h);
    let r = match f {
        0 => sample_nearest(&i, x, y),
        1 => sample_bilinear(&i, x, y),
        2 => interpolate_nearest(&i, x, y),
        _ => interpolate_bilinear(&i, x, y),
    };
    let inside = if f < 2 {
        x >= 0.0 && x <= 1.0 && y >= 0.0 && y <= 1.0
    } else {
        x >= 0.0 && x <= w.wrapping_sub(1) as f32 && y >= 0.0 && y <= h.wrapping_sub(1) as f32
    };
    ck!(r.is_some() == (w > 0 && h > 0 && inside));
    if let Some(p) = r {
        ck!(p.0[0] == 65535);
        reach(0);
    } else {
        reach(1);
    }
}
/// Values at points: a multiple of an eighth of a pixel; params: function, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn smp_value() {
    let (w, h) = (param(1) as u32, param(2) as u32);
    let i = one::<LumaA<u8>>(w, h);
    let (a, b) = (each(0, (8 * (w - 1)) as u8), each(0, (8 * (h - 1)) as u8));
    merge(1);
    let (x, y) = (a as f32 / 8.0, b as f32 / 8.0);
    if param(0) == 0 {
        let r = interpolate_nearest(&i, x, y).unwrap();
        ck!(r == *i.get_pixel((a + 4) / 8, (b + 4) / 8));
    } else {
        let r = interpolate_bilinear(&i, x, y).unwrap();
        let (x0, y0) = (a / 8, b / 8);
        let (x1, y1) = ((x0 + 1).min(w - 1), (y0 + 1).min(h - 1));
        let (fx, fy) = (a % 8, b % 8);
        for c in 0..2 {
            let g = |x: u32, y: u32| i.get_pixel(x, y).0[c] as u32;
            let v = (8 - fx) * (8 - fy) * g(x0, y0) + fx * (8 - fy) * g(x1, y0) + (8 - fx) * fy * g(x0, y1) + fx * fy * g(x1, y1);
            ck!(r.0[c] as u32 == (v + 32) / 64);
        }
    }
    reach(0);
}
harnesses!(smp_resize, smp_constant, smp_empty, smp_blur, smp_sigma, smp_fast_blur, smp_filter, smp_unsharpen, smp_thumb_blocks, smp_thumb_partition, smp_thumb_range, smp_thumb_large, smp_thumb_rising, smp_point, smp_edges, smp_value);
