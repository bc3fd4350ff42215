#![cfg_attr(rustfmt, rustfmt_skip)]
//! P08 conversions, P10 blending, P11 colour operations.
use hx::px::*;
use hx::*;
use image::buffer::ConvertBuffer;
use image::imageops::colorops::*;
use image::imageops::{self};
use image::*;
use num_traits::ToPrimitive;

// ---------------------------------------------------------------- P08

/// One sample converted to another sample type.
fn to<S: Primitive + Sub, T: Primitive + Sub>(s: S) -> T
where
    Luma<S>: Pixel<Subpixel = S>, Luma<T>: Pixel<Subpixel = T>,
    Img<Luma<S>>: ConvertBuffer<Img<Luma<T>>>,
{
    let a: Img<Luma<S>> = ImageBuffer::from_raw(1, 1, vec![s]).unwrap();
    let b: Img<Luma<T>> = a.convert();
    b.get_pixel(0, 0).0[0]
}

/// Sample conversions; param: which
#[no_mangle]
#[inline(never)]
pub extern "C" fn sample_conv() {
    match param(0) {
        0 => {
            let x = any_u8();
            let y: u16 = to(x);
            ck!(y == x as u16 * 257);
            ck!(to::<u16, u8>(y) == x);
        }
        1 => {
            let x = any_u16();
            let y: u8 = to(x);
            // nearest: 2 * |x - 257 y| <= 257
            let d = (x as i32 - 257 * y as i32).abs();
            ck!(2 * d <= 257);
            let z = any_u16();
            ck!(!(x <= z) || y <= to::<u16, u8>(z));
        }
        2 => {
            let x = any_u8();
            let y: f32 = to(x);
            ck!((0.0..=1.0).contains(&y));
            ck!(to::<f32, u8>(y) == x);
            let z = any_u8();
            ck!(!(x < z) || y < to::<u8, f32>(z));
            ck!(to::<u8, f32>(0) == 0.0 && to::<u8, f32>(255) == 1.0);
            // exact to f32 precision
            let e = (y as f64 * 255.0 - x as f64).abs();
            ck!(e < 0.0001);
        }
        3 => {
            let x = any_u16();
            let y: f32 = to(x);
            ck!((0.0..=1.0).contains(&y));
            ck!(to::<f32, u16>(y) == x);
            ck!(to::<u16, f32>(0) == 0.0 && to::<u16, f32>(65535) == 1.0);
            let e = (y as f64 * 65535.0 - x as f64).abs();
            ck!(e < 0.01);
        }
        4 => {
            // every float maps into range without panic; the special values as documented
            let f = any_f32();
            let y: u8 = to(f);
            let z: u16 = to(f);
            if f <= 0.0 {
                ck!(y == 0 && z == 0);
                reach(0);
            } else if !(f < 1.0) {
                ck!(y == 255 && z == 65535);
                reach(1);
            }
        }
        5 | 6 => {
            // nearest, for every float in 2^-(k+1) .. 2^-k (k = param 1)
            let k = param(1) as i32;
            let f = any_f32();
            assume(f >= 2f32.powi(-k - 1) && f < 2f32.powi(-k));
            // exact in f64
            if param(0) == 5 {
                let y: u8 = to(f);
                let e = f as f64 * 255.0 - y as f64;
                ck!(e <= 0.50002 && e >= -0.50002);
            } else {
                let y: u16 = to(f);
                let e = f as f64 * 65535.0 - y as f64;
                ck!(e <= 0.505 && e >= -0.505);
            }
            reach(0);
        }
        7 => {
            // monotone u16 -> f32
            let (x, z) = (any_u16(), any_u16());
            assume(x < z);
            ck!(to::<u16, f32>(x) < to::<u16, f32>(z));
        }
        8 => {
            // monotone f32 -> u8
            let (a, b) = (any_f32(), any_f32());
            assume(a <= b);
            ck!(to::<f32, u8>(a) <= to::<f32, u8>(b));
        }
        9 => {
            // monotone f32 -> u16: from each float to the next, in 2^-(k+1) ..= 2^-k
            let k = param(1) as i32;
            let f = any_f32();
            assume(f >= 2f32.powi(-k - 1) && f < 2f32.powi(-k));
            ck!(to::<f32, u16>(f) <= to::<f32, u16>(f32::from_bits(f.to_bits() + 1)));
            reach(0);
        }
        11 => {
            // nearest and monotone in 2^-(k+1) .. 2^-k, by leading mantissa bits
            let k = param(1) as u32;
            for i in param(2)..param(3) {
                let b = (126 - k) << 23 | (i as u32) << 16 | any_u16() as u32;
                let f = f32::from_bits(b);
                let y: u16 = to(f);
                let e = f as f64 * 65535.0 - y as f64;
                ck!(e <= 0.505 && e >= -0.505);
                ck!(y <= to::<f32, u16>(f32::from_bits(b + 1)));
            }
            reach(0);
        }
        _ => {
            // too small to matter
            let f = any_f32();
            assume(f >= 0.0 && f < 2f32.powi(-17));
            ck!(to::<f32, u16>(f) == 0 && to::<f32, u8>(f) == 0);
            reach(0);
        }
    }
}

/// The luma of an RGB triple by definition (same arithmetic type for all).
trait Grey: Sub + Primitive {
    fn grey(r: Self, g: Self, b: Self) -> Self;
}
impl Grey for u8 {
    fn grey(r: u8, g: u8, b: u8) -> u8 {
        ((2126 * r as u32 + 7152 * g as u32 + 722 * b as u32) / 10000) as u8
    }
}
impl Grey for u16 {
    fn grey(r: u16, g: u16, b: u16) -> u16 {
        ((2126 * r as u32 + 7152 * g as u32 + 722 * b as u32) / 10000) as u16
    }
}
impl Grey for f32 {
    fn grey(r: f32, g: f32, b: f32) -> f32 {
        let l = (2126.0 * r as f64 + 7152.0 * g as f64 + 722.0 * b as f64) / 10000.0;
        // within f32 for all but huge components
        l as f32
    }
}
/// r, g, b, a (a None: opaque), grey
fn parts<P: Pixel>(p: &P) -> (P::Subpixel, P::Subpixel, P::Subpixel, Option<P::Subpixel>, P::Subpixel)
where
    P::Subpixel: Grey,
{
    let c = p.channels();
    match c.len() {
        1 => (c[0], c[0], c[0], None, c[0]),
        2 => (c[0], c[0], c[0], Some(c[1]), c[0]),
        3 => (c[0], c[1], c[2], None, Grey::grey(c[0], c[1], c[2])),
        _ => (c[0], c[1], c[2], Some(c[3]), Grey::grey(c[0], c[1], c[2])),
    }
}
fn eqs<S: Sub>(a: S, b: S) {
    ck!(same(&[a], &[b]));
}
fn expect_parts<T: Grey>(b: &[T], r: T, g: T, bl: T, a: T, l: T) {
    match b.len() {
        1 => eqs(b[0], l),
        2 => {
            eqs(b[0], l);
            eqs(b[1], a);
        }
        3 => {
            eqs(b[0], r);
            eqs(b[1], g);
            eqs(b[2], bl);
        }
        _ => {
            eqs(b[0], r);
            eqs(b[1], g);
            eqs(b[2], bl);
            eqs(b[3], a);
        }
    }
}
/// Every pixel of an n x 1 image converts channel by channel.
fn conv<A: Pixel, B: Pixel>(w: u32, h: u32)
where
    A::Subpixel: Grey, B::Subpixel: Grey,
    Luma<A::Subpixel>: Pixel<Subpixel = A::Subpixel>, Luma<B::Subpixel>: Pixel<Subpixel = B::Subpixel>,
    Img<A>: ConvertBuffer<Img<B>>,
    Img<Luma<A::Subpixel>>: ConvertBuffer<Img<Luma<B::Subpixel>>>,
{
    let (mut a, v) = img::<A>(w, h);
    if A::Subpixel::DEFAULT_MAX_VALUE.to_f64().unwrap() == 1.0 {
        // float components: one unconstrained channel (param 4), the others fixed
        let n = v.len();
        for (i, s) in a.iter_mut().enumerate() {
            if i == param(4) {
                let f = v[i].to_f32().unwrap();
                assume(f >= -2.0 && f <= 2.0);
            } else {
                *s = <A::Subpixel as num_traits::NumCast>::from((i + 1) as f32 / (n + 2) as f32).unwrap();
            }
        }
    }
    let b: Img<B> = a.convert();
    ck!(b.dimensions() == (w, h));
    for y in 0..h {
        for x in 0..w {
            let (r, g, bl, al, l) = parts(a.get_pixel(x, y));
            let c = |s| to::<A::Subpixel, B::Subpixel>(s);
            let al = al.map_or(B::Subpixel::DEFAULT_MAX_VALUE, c);
            expect_parts(b.get_pixel(x, y).channels(), c(r), c(g), c(bl), al, c(l));
        }
    }
}
macro_rules! by_target {
    ($k:expr, $a:ty $(, $e:expr)*) => {
        match $k {
            0 => conv::<$a, Luma<u8>>($($e),*),
            1 => conv::<$a, LumaA<u8>>($($e),*),
            2 => conv::<$a, Rgb<u8>>($($e),*),
            3 => conv::<$a, Rgba<u8>>($($e),*),
            4 => conv::<$a, Luma<u16>>($($e),*),
            5 => conv::<$a, LumaA<u16>>($($e),*),
            6 => conv::<$a, Rgb<u16>>($($e),*),
            7 => conv::<$a, Rgba<u16>>($($e),*),
            8 => conv::<$a, Rgb<f32>>($($e),*),
            _ => conv::<$a, Rgba<f32>>($($e),*),
        }
    };
}
/// params: source pixel, target pixel, width, height
#[no_mangle]
#[inline(never)]
pub extern "C" fn pixel_conv() {
    let (w, h) = (param(2) as u32, param(3) as u32);
    match param(0) {
        0 => by_target!(param(1), Luma<u8>, w, h),
        1 => by_target!(param(1), LumaA<u8>, w, h),
        2 => by_target!(param(1), Rgb<u8>, w, h),
        3 => by_target!(param(1), Rgba<u8>, w, h),
        4 => by_target!(param(1), Luma<u16>, w, h),
        5 => by_target!(param(1), LumaA<u16>, w, h),
        6 => by_target!(param(1), Rgb<u16>, w, h),
        7 => by_target!(param(1), Rgba<u16>, w, h),
        8 => by_target!(param(1), Rgb<f32>, w, h),
        _ => by_target!(param(1), Rgba<f32>, w, h),
    }
}
/// to_rgb, to_rgba, to_luma, to_luma_alpha, channels, map and friends
fn methods<P: Pixel>()
where
    P::Subpixel: Grey,
{
    let v = <P::Subpixel as Sub>::any(P::CHANNEL_COUNT as usize);
    let p = *P::from_slice(&v);
    if P::Subpixel::DEFAULT_MAX_VALUE.to_f64().unwrap() == 1.0 {
        for s in &v {
            let f = s.to_f32().unwrap();
            assume(f >= -1e30 && f <= 1e30);
        }
    }
    let (r, g, b, a, l) = parts(&p);
    let a = a.unwrap_or(P::Subpixel::DEFAULT_MAX_VALUE);
    expect_parts(&p.to_rgb().0, r, g, b, a, l);
    expect_parts(&p.to_rgba().0, r, g, b, a, l);
    expect_parts(&p.to_luma().0, r, g, b, a, l);
    expect_parts(&p.to_luma_alpha().0, r, g, b, a, l);
    ck!(same(p.channels(), &v));
    let w = <P::Subpixel as Sub>::any(P::CHANNEL_COUNT as usize);
    let q = *P::from_slice(&w);
    let n = v.len();
    let alpha = n % 2 == 0;
    // map applies to every channel, map_with_alpha separates the alpha channel, map2 pairs channels
    let k = P::Subpixel::any(2);
    let m = p.map(|_| k[0]);
    let ma = p.map_with_alpha(|_| k[0], |_| k[1]);
    let m2 = p.map2(&q, |_, y| y);
    let mut id = p;
    id.apply(|x| x);
    let mut ida = p;
    ida.apply_with_alpha(|x| x, |x| x);
    let mut id2 = p;
    id2.apply2(&q, |x, _| x);
    for i in 0..n {
        eqs(m.channels()[i], k[0]);
        eqs(ma.channels()[i], if alpha && i == n - 1 { k[1] } else { k[0] });
        eqs(m2.channels()[i], w[i]);
        eqs(id.channels()[i], v[i]);
        eqs(ida.channels()[i], v[i]);
        eqs(id2.channels()[i], v[i]);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn pixel_methods() {
    by_pixel!(param(0), methods)
}
/// luma of r = g = b = v is v; luma lies between the smallest and largest channel
#[no_mangle]
#[inline(never)]
pub extern "C" fn luma_bounds() {
    match param(0) {
        0 => {
            let p = Rgb(bytes::<3>());
            let l = p.to_luma().0[0];
            ck!(l >= p.0[0].min(p.0[1]).min(p.0[2]) && l <= p.0[0].max(p.0[1]).max(p.0[2]));
            let v = any_u8();
            ck!(Rgb([v; 3]).to_luma().0[0] == v);
            ck!(Rgba([v, v, v, p.0[0]]).to_luma_alpha() == LumaA([v, p.0[0]]));
        }
        1 => {
            // one channel differs from the other two
            let (x, y) = (any_u16(), param(1) as u16);
            for i in 0..3 {
                let mut p = Rgb([y; 3]);
                p.0[i] = x;
                let l = p.to_luma().0[0];
                ck!(l >= x.min(y) && l <= x.max(y));
            }
            let v = any_u16();
            ck!(Rgb([v; 3]).to_luma().0[0] == v);
            ck!(Rgba([v, v, v, x]).to_luma_alpha() == LumaA([v, x]));
        }
        _ => {
            // floats with up to 16 significant bits
            let v = any_u16() as f32 / 65536.0;
            ck!(Rgb([v; 3]).to_luma().0[0] == v);
        }
    }
}

// ---------------------------------------------------------------- P10

fn blend_simple<P: Pixel>()
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (v, w) = (P::Subpixel::any(n), P::Subpixel::any(n));
    let (mut p, q) = (*P::from_slice(&v), *P::from_slice(&w));
    if n == 1 || n == 3 {
        p.blend(&q);
        ck!(same(p.channels(), &w));
        reach(0);
        return;
    }
    let zero = P::Subpixel::DEFAULT_MIN_VALUE;
    let one = P::Subpixel::DEFAULT_MAX_VALUE;
    if param(1) == 0 {
        assume(w[n - 1] == zero);
        p.blend(&q);
        ck!(same(p.channels(), &v));
        reach(0);
    } else {
        assume(w[n - 1] == one);
        p.blend(&q);
        ck!(same(p.channels(), &w));
        reach(0);
    }
}
/// params: pixel type, 0 transparent / 1 opaque
#[no_mangle]
#[inline(never)]
pub extern "C" fn blend_ends() {
    by_pixel!(param(0), blend_simple)
}
/// 8-bit blending for given alphas; params: 0 Rgba / 1 LumaA, destination alpha, source alpha (256: any)
#[no_mangle]
#[inline(never)]
pub extern "C" fn blend_range() {
    let f = |i| if param(i) > 255 { any_u8() } else { param(i) as u8 };
    let (da, sa) = (f(1), f(2));
    let (d, s) = (any_u8(), any_u8());
    let (c, a) = if param(0) == 0 {
        let mut p = Rgba([d, d, d, da]);
        p.blend(&Rgba([s, s, s, sa]));
        ck!(p.0[0] == p.0[1] && p.0[0] == p.0[2]);
        (p.0[0], p.0[3])
    } else {
        let mut p = LumaA([d, da]);
        p.blend(&LumaA([s, sa]));
        (p.0[0], p.0[1])
    };
    // one below: the result is truncated, not rounded
    ck!(a as u32 + 1 >= da.max(sa) as u32);
    ck!(c as u32 + 1 >= d.min(s) as u32);
    ck!(c <= d.max(s));
}
/// the channels of Rgba are blended independently and alike; params: alphas
#[no_mangle]
#[inline(never)]
pub extern "C" fn blend_channels() {
    let (da, sa) = (param(0) as u8, param(1) as u8);
    let (d, s) = (bytes::<3>(), bytes::<3>());
    let mut p = Rgba([d[0], d[1], d[2], da]);
    p.blend(&Rgba([s[0], s[1], s[2], sa]));
    for i in 0..3 {
        let mut q = Rgba([d[i], d[i], d[i], da]);
        q.blend(&Rgba([s[i], s[i], s[i], sa]));
        ck!(q.0[i] == p.0[i] && q.0[3] == p.0[3]);
    }
}
/// alpha of the result for any alphas
#[no_mangle]
#[inline(never)]
pub extern "C" fn blend_alpha() {
    let (da, sa) = (conc(any_u8() as u64) as u8, any_u8());
    let a = if param(0) == 0 {
        let mut p = Rgba([0u8, 0, 0, da]);
        p.blend(&Rgba([0u8, 0, 0, sa]));
        p.0[3]
    } else {
        let mut p = LumaA([0u8, da]);
        p.blend(&LumaA([0u8, sa]));
        p.0[1]
    };
    ck!(a as u32 + 1 >= da.max(sa) as u32);
    // 1 - (1 - da)(1 - sa), truncated
    let exact = 255 * (da as i64 + sa as i64) - da as i64 * sa as i64;
    ck!(255 * a as i64 <= exact + 1 && 255 * (a as i64 + 1) >= exact - 1);
}

// ---------------------------------------------------------------- P11

fn invert_all<P: Pixel>(w: u32, h: u32)
where
    P::Subpixel: Sub,
{
    let (mut b, v) = img::<P>(w, h);
    let n = P::CHANNEL_COUNT as usize;
    let max = P::Subpixel::DEFAULT_MAX_VALUE;
    imageops::invert(&mut b);
    ck!(b.dimensions() == (w, h));
    for y in 0..h {
        for x in 0..w {
            let q = at(&v, w, n, x, y);
            let mut p = *P::from_slice(q);
            p.invert();
            ck!(same(p.channels(), b.get_pixel(x, y).channels()));
            for i in 0..n {
                let alpha = n % 2 == 0 && i == n - 1;
                eqs(b.get_pixel(x, y).channels()[i], if alpha { q[i] } else { max - q[i] });
            }
        }
    }
    if max.to_f64().unwrap() > 1.0 {
        imageops::invert(&mut b);
        ck!(same(b.as_raw(), &v));
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn color_invert() {
    by_pixel!(param(0), invert_all, param(1) as u32, param(2) as u32)
}
fn brighten_all<P: Pixel + 'static>(w: u32, h: u32)
where
    P::Subpixel: Sub + 'static,
{
    let (mut b, v) = img::<P>(w, h);
    let n = P::CHANNEL_COUNT as usize;
    let k = any_i32();
    let max = P::Subpixel::DEFAULT_MAX_VALUE.to_i64().unwrap();
    let out = imageops::brighten(&b, k);
    brighten_in_place(&mut b, k);
    ck!(out.dimensions() == (w, h) && b.dimensions() == (w, h));
    for i in 0..v.len() {
        let alpha = n % 2 == 0 && i % n == n - 1;
        let want = if alpha { v[i].to_i64().unwrap() } else { (v[i].to_i64().unwrap() + k as i64).clamp(0, max) };
        ck!(out.as_raw()[i].to_i64().unwrap() == want);
        ck!(b.as_raw()[i].to_i64().unwrap() == want);
    }
}
/// integer samples; params: pixel type, width, height
#[no_mangle]
#[inline(never)]
pub extern "C" fn color_brighten() {
    let (w, h) = (param(1) as u32, param(2) as u32);
    match param(0) {
        0 => brighten_all::<Luma<u8>>(w, h),
        1 => brighten_all::<LumaA<u8>>(w, h),
        2 => brighten_all::<Rgb<u8>>(w, h),
        3 => brighten_all::<Rgba<u8>>(w, h),
        4 => brighten_all::<Luma<u16>>(w, h),
        5 => brighten_all::<LumaA<u16>>(w, h),
        6 => brighten_all::<Rgb<u16>>(w, h),
        _ => brighten_all::<Rgba<u16>>(w, h),
    }
}
fn contrast_all<P: Pixel + 'static>(w: u32, h: u32, k: f32)
where
    P::Subpixel: Sub + 'static,
{
    let (mut b, v) = img::<P>(w, h);
    let out = imageops::contrast(&b, k);
    contrast_in_place(&mut b, k);
    ck!(out.dimensions() == (w, h) && b.dimensions() == (w, h));
    ck!(same(out.as_raw(), b.as_raw()));
    let max = P::Subpixel::DEFAULT_MAX_VALUE.to_f32().unwrap();
    let percent = ((100.0 + k) / 100.0).powi(2);
    for i in 0..v.len() {
        let c: f32 = v[i].to_f32().unwrap();
        let d = ((c / max - 0.5) * percent + 0.5) * max;
        let e = if d < 0.0 { 0.0 } else if d > max { max } else { d };
        let e = <P::Subpixel as num_traits::NumCast>::from(e).unwrap();
        eqs(out.as_raw()[i], e);
    }
}
/// params: pixel type, width, height, contrast in tenths (+ 100000; 0: any finite)
#[no_mangle]
#[inline(never)]
pub extern "C" fn color_contrast() {
    let k = if param(3) == 0 {
        let f = any_f32();
        assume(f.is_finite());
        f
    } else {
        (param(3) as f32 - 100000.0) / 10.0
    };
    let (w, h) = (param(1) as u32, param(2) as u32);
    match param(0) {
        0 => contrast_all::<Luma<u8>>(w, h, k),
        1 => contrast_all::<LumaA<u8>>(w, h, k),
        2 => contrast_all::<Rgb<u8>>(w, h, k),
        3 => contrast_all::<Rgba<u8>>(w, h, k),
        4 => contrast_all::<Luma<u16>>(w, h, k),
        5 => contrast_all::<LumaA<u16>>(w, h, k),
        6 => contrast_all::<Rgb<u16>>(w, h, k),
        _ => contrast_all::<Rgba<u16>>(w, h, k),
    }
}
fn hue_all<P: Pixel + 'static>(w: u32, h: u32, k: i32)
where
    P::Subpixel: Sub + 'static,
{
    let (mut b, v) = img::<P>(w, h);
    let n = P::CHANNEL_COUNT as usize;
    let out = imageops::huerotate(&b, k);
    huerotate_in_place(&mut b, k);
    ck!(out.dimensions() == (w, h) && b.dimensions() == (w, h));
    ck!(same(out.as_raw(), b.as_raw()));
    if n == 4 {
        for y in 0..h {
            for x in 0..w {
                eqs(out.get_pixel(x, y).channels()[3], at(&v, w, n, x, y)[3]);
            }
        }
    }
}
/// params: pixel type, width, height, angle + 100000
#[no_mangle]
#[inline(never)]
pub extern "C" fn color_hue() {
    by_pixel!(param(0), hue_all, param(1) as u32, param(2) as u32, param(3) as i32 - 100000)
}
fn grey_all<P: Pixel>(w: u32, h: u32)
where
    P::Subpixel: Grey,
{
    let (mut b, _) = img::<P>(w, h);
    if param(3) > 0 {
        for (i, s) in b.iter_mut().enumerate() {
            if i + 1 != param(3) {
                *s = <P::Subpixel as num_traits::NumCast>::from(i * 20001 + 5).unwrap();
            }
        }
    }
    let (g, ga) = (imageops::grayscale(&b), imageops::grayscale_alpha(&b));
    ck!(g.dimensions() == (w, h) && ga.dimensions() == (w, h));
    for y in 0..h {
        for x in 0..w {
            let p = b.get_pixel(x, y);
            let (_, _, _, a, _) = parts(p);
            eqs(g.get_pixel(x, y).0[0], p.to_luma().0[0]);
            eqs(ga.get_pixel(x, y).0[0], p.to_luma().0[0]);
            eqs(ga.get_pixel(x, y).0[1], a.unwrap_or(P::Subpixel::DEFAULT_MAX_VALUE));
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn color_grey() {
    by_pixel!(param(0), grey_all, param(1) as u32, param(2) as u32)
}

/// A palette of eight colours, chosen per channel.
struct Eight;
impl ColorMap for Eight {
    type Color = Rgb<u8>;
    fn index_of(&self, c: &Rgb<u8>) -> usize {
        (c.0[0] >> 7) as usize | ((c.0[1] >> 7) as usize) << 1 | ((c.0[2] >> 7) as usize) << 2
    }
    fn map_color(&self, c: &mut Rgb<u8>) {
        for i in 0..3 {
            c.0[i] = if c.0[i] >= 128 { 255 } else { 0 };
        }
    }
}
/// Floyd-Steinberg by definition, one channel.
fn floyd(v: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut t: Vec<i32> = v.iter().map(|&x| x as i32).collect();
    let add = |t: &mut Vec<i32>, x: usize, y: usize, e: i32, f: i32| {
        let k = t[y * w + x] + e * f / 16;
        t[y * w + x] = k.clamp(0, 255);
    };
    for y in 0..h {
        for x in 0..w {
            let old = t[y * w + x];
            let new = if old > 127 { 255 } else { 0 };
            t[y * w + x] = new;
            let e = old - new;
            if x + 1 < w {
                add(&mut t, x + 1, y, e, 7);
            }
            if y + 1 < h && x > 0 {
                add(&mut t, x - 1, y + 1, e, 3);
            }
            if y + 1 < h {
                add(&mut t, x, y + 1, e, 5);
            }
            if y + 1 < h && x + 1 < w {
                add(&mut t, x + 1, y + 1, e, 1);
            }
        }
    }
    t.into_iter().map(|x| x as u8).collect()
}
/// params: 0 BiLevel / 1 eight colours, width, height
#[no_mangle]
#[inline(never)]
pub extern "C" fn color_dither() {
    let (w, h) = (param(1) as u32, param(2) as u32);
    let (wu, hu) = (w as usize, h as usize);
    if param(0) == 0 {
        let (mut b, v) = img::<Luma<u8>>(w, h);
        imageops::dither(&mut b, &BiLevel);
        ck!(b.dimensions() == (w, h));
        let want = floyd(&v, wu, hu);
        for i in 0..v.len() {
            let o = b.as_raw()[i];
            ck!(o == 0 || o == 255);
            ck!(o == want[i]);
        }
    } else {
        let (mut b, v) = img::<Rgb<u8>>(w, h);
        imageops::dither(&mut b, &Eight);
        ck!(b.dimensions() == (w, h));
        for c in 0..3 {
            let ch: Vec<u8> = v.iter().skip(c).step_by(3).copied().collect();
            let want = floyd(&ch, wu, hu);
            for i in 0..ch.len() {
                ck!(b.as_raw()[3 * i + c] == want[i]);
            }
        }
    }
}
/// BiLevel and index_colors; params: width, height
#[no_mangle]
#[inline(never)]
pub extern "C" fn color_index() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let (b, v) = img::<Luma<u8>>(w, h);
    let m = BiLevel;
    ck!(m.has_lookup());
    let out = imageops::index_colors(&b, &m);
    ck!(out.dimensions() == (w, h));
    for i in 0..v.len() {
        let k = m.index_of(&Luma([v[i]]));
        ck!(out.as_raw()[i] as usize == k);
        let c = m.lookup(k);
        ck!(c.is_some());
        let mut q = Luma([v[i]]);
        m.map_color(&mut q);
        ck!(c == Some(q));
        // the nearer of black and white
        ck!(q.0[0] == if v[i] > 127 { 255 } else { 0 });
    }
    let k = any_usize();
    ck!(m.lookup(k).is_some() == (k < 2));
    let (b, v) = img::<Rgb<u8>>(w, h);
    let out = imageops::index_colors(&b, &Eight);
    for i in 0..v.len() / 3 {
        ck!(out.as_raw()[i] == v[3 * i] >> 7 | (v[3 * i + 1] >> 7) << 1 | (v[3 * i + 2] >> 7) << 2);
    }
}
harnesses!(sample_conv, pixel_conv, pixel_methods, luma_bounds, blend_ends, blend_range, blend_channels, blend_alpha, color_invert,
    color_brighten, color_contrast, color_hue, color_grey, color_dither, color_index);
