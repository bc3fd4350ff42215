#![cfg_attr(rustfmt, rustfmt_skip)]
//! P28 YUV to RGB of AVIF. The module depends on no decoder and is compiled here as it is.
use hx::*;
use image::{error, ImageError, ImageFormat};
#[path = "/repo/src/codecs/avif/yuv.rs"]
mod yuv;
use yuv::*;

/// Layouts: 0 gray, 1 4:2:0, 2 4:2:2, 3 4:4:4
struct In<T> {
    w: usize,
    h: usize,
    p: [Vec<T>; 3],
    s: [usize; 3],
}
const MATRICES: [YuvStandardMatrix; 6] = [YuvStandardMatrix::Bt601, YuvStandardMatrix::Bt709, YuvStandardMatrix::Bt2020, YuvStandardMatrix::Smpte240, YuvStandardMatrix::Bt470_6, YuvStandardMatrix::Identity];
/// KR and KB of ITU-T H.273 in ten thousandths.
const WEIGHTS: [(i64, i64); 5] = [(2990, 1140), (2126, 722), (2627, 593), (2120, 870), (3000, 1100)];
fn range(full: usize) -> YuvIntensityRange {
    if full == 1 { YuvIntensityRange::Pc } else { YuvIntensityRange::Tv }
}
trait Sample: Copy {
    fn any(depth: usize) -> Self;
    fn run(i: &In<Self>, out: &mut [Self], depth: usize, layout: usize, m: usize, full: usize) -> bool;
    /// Few bits, for where only the place of a sample matters.
    fn few(depth: usize) -> Self;
    fn v(self) -> i64;
    fn of(v: i64) -> Self;
}
macro_rules! call {
    ($i:ident, $out:ident, $m:ident, $full:ident, $f:expr) => {{
        let img = YuvPlanarImage { y_plane: &$i.p[0], y_stride: $i.s[0], u_plane: &$i.p[1], u_stride: $i.s[1], v_plane: &$i.p[2], v_stride: $i.s[2], width: $i.w, height: $i.h };
        $f(img, $out, range($full), MATRICES[$m]).is_ok()
    }};
}
impl Sample for u8 {
    fn any(_: usize) -> u8 {
        any_u8()
    }
    fn few(_: usize) -> u8 {
        (any_u8() & 7) * 32 + 5
    }
    fn run(i: &In<u8>, out: &mut [u8], _: usize, layout: usize, m: usize, full: usize) -> bool {
        match layout {
            0 => call!(i, out, m, full, yuv400_to_rgba8),
            1 => call!(i, out, m, full, yuv420_to_rgba8),
            2 => call!(i, out, m, full, yuv422_to_rgba8),
            _ => call!(i, out, m, full, yuv444_to_rgba8),
        }
    }
    fn v(self) -> i64 {
        self as i64
    }
    fn of(v: i64) -> u8 {
        v as u8
    }
}
impl Sample for u16 {
    fn any(depth: usize) -> u16 {
        any_u8() as u16 | (each(0, (1 << (depth - 8)) - 1) as u16) << 8
    }
    fn few(depth: usize) -> u16 {
        (any_u16() & 7) * (1 << (depth - 3)) + 21
    }
    fn run(i: &In<u16>, out: &mut [u16], depth: usize, layout: usize, m: usize, full: usize) -> bool {
        match (layout, depth) {
            (0, 10) => call!(i, out, m, full, yuv400_to_rgba10),
            (1, 10) => call!(i, out, m, full, yuv420_to_rgba10),
            (2, 10) => call!(i, out, m, full, yuv422_to_rgba10),
            (_, 10) => call!(i, out, m, full, yuv444_to_rgba10),
            (0, _) => call!(i, out, m, full, yuv400_to_rgba12),
            (1, _) => call!(i, out, m, full, yuv420_to_rgba12),
            (2, _) => call!(i, out, m, full, yuv422_to_rgba12),
            (_, _) => call!(i, out, m, full, yuv444_to_rgba12),
        }
    }
    fn v(self) -> i64 {
        self as i64
    }
    fn of(v: i64) -> u16 {
        v as u16
    }
}
fn sizes(layout: usize, w: usize, h: usize) -> [(usize, usize); 3] {
    let c = match layout {
        0 => (0, 0),
        1 => ((w + 1) / 2, (h + 1) / 2),
        2 => ((w + 1) / 2, h),
        _ => (w, h),
    };
    [(w, h), c, c]
}
fn one<T: Sample>(depth: usize, layout: usize, m: usize, full: usize, y: T, u: T, v: T) -> [T; 4] {
    let s = sizes(layout, 1, 1).map(|x| x.0);
    let i = In { w: 1, h: 1, p: [vec![y], vec![u; s[1]], vec![v; s[2]]], s };
    let mut out = [y; 4];
    ck!(T::run(&i, &mut out, depth, layout, m, full));
    out
}
/// One pixel against the matrix.
fn exact<T: Sample>(depth: usize, layout: usize, m: usize, full: usize, free: usize, at: usize) {
    let max = (1i64 << depth) - 1;
    // which of the samples vary, and where the others are
    let sample = |k: usize| {
        if free & (1 << k) != 0 {
            return T::any(depth);
        }
        let at = if at < 4 { at } else { each(0, 3) as usize };
        T::of([[max / 3, max / 5, max - max / 4], [0, max, 0], [max, 0, max], [max / 16, max / 2, 2 * max / 3]][at][k])
    };
    let (y, u, v) = (sample(0), sample(1), sample(2));
    let o = one(depth, layout, m, full, y, u, v).map(|x| x.v());
    ck!(o[3] == max);
    let half = 1i64 << (depth - 1);
    let (bias, ry, rc) = if full == 1 { (0, max, max) } else { (16 << (depth - 8), 219 << (depth - 8), 224 << (depth - 8)) };
    const S: i64 = 1 << 20;
    let tol = [1, 2, 5][(depth - 8) / 2];
    // a / b in units of 1 / S, to the nearest
    let q = |a: i64, b: i64| (2 * a * S + b) / (2 * b);
    let cy = q(max, ry);
    let want = if m == 5 {
        [v, y, u].map(|x| (x.v() - bias) * cy)
    } else {
        let (kr, kb) = WEIGHTS[m];
        let kg = 10000 - kr - kb;
        let yy = (y.v() - bias) * cy;
        if layout == 0 {
            [yy; 3]
        } else {
            let (cb, cr) = (u.v() - half, v.v() - half);
            let f = 2 * max;
            [
                yy + cr * q(f * (10000 - kr), rc * 10000),
                yy - cr * q(f * (10000 - kr) * kr, rc * kg * 10000) - cb * q(f * (10000 - kb) * kb, rc * kg * 10000),
                yy + cb * q(f * (10000 - kb), rc * 10000),
            ]
        }
    };
    for c in 0..3 {
        // green of three free samples is left to the solver's patience: they vary in pairs
        if c == 1 && free == 7 && m != 5 && layout != 0 {
            continue;
        }
        let w = want[c].clamp(0, max * S);
        ck!(o[c] >= 0 && o[c] <= max);
        ck!(o[c] * S - w <= tol * S && w - o[c] * S <= tol * S);
    }
    reach(0);
}
/// params: depth, layout, matrix, full range, bits of what varies, where the rest stays (4: everywhere in turn)
#[no_mangle]
#[inline(never)]
pub extern "C" fn yuv_exact() {
    merge(1);
    let (d, l, m, f, v, at) = (param(0), param(1), param(2), param(3), param(4), param(5));
    if d == 8 { exact::<u8>(d, l, m, f, v, at) } else { exact::<u16>(d, l, m, f, v, at) }
}
/// Every pixel is converted from its own samples.
fn siting<T: Sample>(depth: usize, layout: usize, m: usize, full: usize, w: usize, h: usize, pad: usize) {
    let z = sizes(layout, w, h);
    let mut i = In { w, h, p: [vec![], vec![], vec![]], s: [0; 3] };
    for k in 0..3 {
        i.s[k] = if z[k].0 > 0 { z[k].0 + pad * (k + 1) } else { 0 };
        i.p[k] = (0..i.s[k] * z[k].1).map(|_| T::few(depth)).collect();
    }
    let mut out: Vec<T> = (0..4 * w * h).map(|_| T::few(depth)).collect();
    ck!(T::run(&i, &mut out, depth, layout, m, full));
    for y in 0..h {
        for x in 0..w {
            let (cx, cy) = match layout {
                1 => (x / 2, y / 2),
                2 => (x / 2, y),
                _ => (x, y),
            };
            let s = |k: usize, x: usize, y: usize| i.p[k].get(y * i.s[k] + x).copied().unwrap_or(i.p[0][0]);
            let e = one(depth, if layout == 0 { 0 } else { 3 }, m, full, s(0, x, y), s(1, cx, cy), s(2, cx, cy));
            for c in 0..4 {
                ck!(out[4 * (y * w + x) + c].v() == e[c].v());
            }
        }
    }
    reach(0);
}
/// params: depth, layout, matrix, full range, width, height, padding of the rows
#[no_mangle]
#[inline(never)]
pub extern "C" fn yuv_siting() {
    merge(1);
    let (d, l, m, f, w, h, p) = (param(0), param(1), param(2), param(3), param(4), param(5), param(6));
    if d == 8 { siting::<u8>(d, l, m, f, w, h, p) } else { siting::<u16>(d, l, m, f, w, h, p) }
}
/// Lengths of planes and of the output that do not fit; params: depth, layout, matrix, full range, width, height
#[no_mangle]
#[inline(never)]
pub extern "C" fn yuv_sizes() {
    fn go<T: Sample>(depth: usize, layout: usize, m: usize, full: usize, w: usize, h: usize) {
        let z = sizes(layout, w, h);
        let s = T::few(depth);
        let mut i = In { w, h, p: [vec![], vec![], vec![]], s: z.map(|x| x.0) };
        let planes = if layout == 0 { 1 } else { 3 };
        let mut fits = true;
        for k in 0..3 {
            let n = z[k].0 * z[k].1;
            let have = if k < planes { each(0, n as u8 + z[k].0 as u8 + 1) as usize } else { 0 };
            fits &= k >= planes || have == n;
            i.p[k] = vec![s; have];
        }
        let n = 4 * w * h;
        let have = n + 4 - [0, 1, 4, 4 + n.min(4 * w), 8][each(0, 4) as usize].min(n + 4);
        let mut out = vec![s; have];
        let ok = T::run(&i, &mut out, depth, layout, m, full);
        ck!(ok == (fits && have == n));
        reach(ok as u32);
    }
    let (d, l, m, f, w, h) = (param(0), param(1), param(2), param(3), param(4), param(5));
    if d == 8 { go::<u8>(d, l, m, f, w, h) } else { go::<u16>(d, l, m, f, w, h) }
}
harnesses!(yuv_exact, yuv_siting, yuv_sizes);
