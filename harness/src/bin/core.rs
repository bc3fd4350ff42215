#![cfg_attr(rustfmt, rustfmt_skip)]
//! ImageBuffer addressing, iterators, views, geometric operations.
use hx::*;
use image::imageops;
use image::math::Rect;
use image::*;

type Img<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;

trait Sub: Primitive {
    fn any(n: usize) -> Vec<Self>;
    fn raw(v: &[Self]) -> Vec<u8>;
}
impl Sub for u8 {
    fn any(n: usize) -> Vec<u8> {
        vec(n)
    }
    fn raw(v: &[u8]) -> Vec<u8> {
        v.to_vec()
    }
}
impl Sub for u16 {
    fn any(n: usize) -> Vec<u16> {
        u16s(n)
    }
    fn raw(v: &[u16]) -> Vec<u8> {
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
impl Sub for f32 {
    fn any(n: usize) -> Vec<f32> {
        // comparisons below are on bit patterns
        f32s(n)
    }
    fn raw(v: &[f32]) -> Vec<u8> {
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
/// same bits
fn same<S: Sub>(a: &[S], b: &[S]) -> bool {
    let (a, b) = (S::raw(a), S::raw(b));
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
fn img<P: Pixel>(w: u32, h: u32) -> (Img<P>, Vec<P::Subpixel>)
where
    P::Subpixel: Sub,
{
    let v = <P::Subpixel as Sub>::any(w as usize * h as usize * P::CHANNEL_COUNT as usize);
    (ImageBuffer::from_raw(w, h, v.clone()).unwrap(), v)
}
/// The pixel (x, y) of a row-major sample array, by definition.
fn at<S>(v: &[S], w: u32, n: usize, x: u32, y: u32) -> &[S] {
    let i = (y as usize * w as usize + x as usize) * n;
    &v[i..i + n]
}
macro_rules! by_pixel {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<Luma<u8>>($($a),*),
            1 => $f::<LumaA<u8>>($($a),*),
            2 => $f::<Rgb<u8>>($($a),*),
            3 => $f::<Rgba<u8>>($($a),*),
            4 => $f::<Luma<u16>>($($a),*),
            5 => $f::<LumaA<u16>>($($a),*),
            6 => $f::<Rgb<u16>>($($a),*),
            7 => $f::<Rgba<u16>>($($a),*),
            8 => $f::<Rgb<f32>>($($a),*),
            _ => $f::<Rgba<f32>>($($a),*),
        }
    };
}

// ---------------------------------------------------------------- P01

fn fits<P: Pixel>(len: usize)
where
    P::Subpixel: Sub,
{
    let (w, h) = (any_u32(), any_u32());
    // three channel types: one concrete width per job keeps the product linear
    let w = if P::CHANNEL_COUNT == 3 { param(2) as u32 } else { w };
    let v = <P::Subpixel as Sub>::any(len);
    let need = w as u128 * h as u128 * P::CHANNEL_COUNT as u128;
    let borrowed = ImageBuffer::<P, &[P::Subpixel]>::from_raw(w, h, &v[..]);
    ck!(borrowed.is_some() == (need <= len as u128));
    match ImageBuffer::<P, _>::from_raw(w, h, v.clone()) {
        None => {
            ck!(need > len as u128);
            ck!(ImageBuffer::<P, _>::from_vec(w, h, v).is_none());
            reach(1);
        }
        Some(b) => {
            ck!(need <= len as u128);
            ck!(b.dimensions() == (w, h) && b.width() == w && b.height() == h);
            ck!(same(b.as_raw(), &v));
            ck!(ImageBuffer::<P, _>::from_vec(w, h, v.clone()).is_some());
            let l = b.sample_layout();
            ck!(l.width == w && l.height == h && l.channels == P::CHANNEL_COUNT);
            ck!(same(&b.into_raw(), &v));
            reach(0);
        }
    }
}
/// params: pixel type, container length, width (three channel types)
#[no_mangle]
#[inline(never)]
pub extern "C" fn buf_fits() {
    by_pixel!(param(0), fits, param(1))
}

/// every coordinate of a w x h image in a container with `extra` more samples
fn address<P: Pixel>(w: u32, h: u32, extra: usize)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let v = <P::Subpixel as Sub>::any(w as usize * h as usize * n + extra);
    let mut b = ImageBuffer::<P, _>::from_raw(w, h, v.clone()).unwrap();
    let (x, y) = (any_u32(), any_u32());
    if x < w && y < h {
        let want = at(&v, w, n, x, y);
        ck!(same(b.get_pixel(x, y).channels(), want));
        ck!(same(b[(x, y)].channels(), want));
        ck!(same(b.get_pixel_checked(x, y).unwrap().channels(), want));
        ck!(same(GenericImageView::get_pixel(&b, x, y).channels(), want));
        ck!(b.in_bounds(x, y));
        ck!(same(unsafe { b.unsafe_get_pixel(x, y) }.channels(), want));
        ck!(same(b.get_pixel_mut(x, y).channels(), want));
        ck!(same(b.get_pixel_mut_checked(x, y).unwrap().channels(), want));
        {
            let f = b.as_flat_samples();
            let c = in_range(0, n as u32 - 1) as u8;
            let s = *f.get_sample(c, x, y).unwrap();
            let k = c as usize;
            let i = (y as usize * w as usize + x as usize) * n + k;
            ck!(same(&[s], &v[i..i + 1]));
            ck!(f.get_sample(n as u8, x, y).is_none());
        }
        // one write through one of the write paths
        let p = <P::Subpixel as Sub>::any(n);
        let px = *P::from_slice(&p);
        match param(4) {
            0 => b.put_pixel(x, y, px),
            1 => *b.get_pixel_mut(x, y) = px,
            2 => *b.get_pixel_mut_checked(x, y).unwrap() = px,
            3 => b[(x, y)] = px,
            4 => unsafe { b.unsafe_put_pixel(x, y, px) },
            _ => GenericImage::put_pixel(&mut b, x, y, px),
        }
        let mut e = v.clone();
        let i = (y as usize * w as usize + x as usize) * n;
        e[i..i + n].copy_from_slice(&p);
        ck!(same(b.as_raw(), &e));
        reach(0);
    } else {
        ck!(b.get_pixel_checked(x, y).is_none());
        ck!(b.get_pixel_mut_checked(x, y).is_none());
        ck!(!b.in_bounds(x, y));
        ck!(b.as_flat_samples().get_sample(0, x, y).is_none());
        reach(1);
        match param(4) {
            0 => ckpanics!({
                b.get_pixel(x, y);
            }),
            1 => ckpanics!({
                b.get_pixel_mut(x, y);
            }),
            2 => ckpanics!({
                let p = *P::from_slice(&v[..n]);
                b.put_pixel(x, y, p)
            }),
            3 => ckpanics!({
                let _ = b[(x, y)];
            }),
            _ => ckpanics!({
                GenericImageView::get_pixel(&b, x, y);
            }),
        }
    }
}
/// params: pixel type, w, h, extra, access path
#[no_mangle]
#[inline(never)]
pub extern "C" fn buf_address() {
    by_pixel!(param(0), address, param(1) as u32, param(2) as u32, param(3))
}

fn construct<P: Pixel>(w: u32, h: u32)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let total = w as usize * h as usize;
    let z = Img::<P>::new(w, h);
    ck!(z.dimensions() == (w, h) && z.as_raw().len() == total * n);
    for s in z.as_raw().iter() {
        ck!(*s == <P::Subpixel as num_traits::Zero>::zero());
    }
    let p = <P::Subpixel as Sub>::any(n);
    let b = Img::<P>::from_pixel(w, h, *P::from_slice(&p));
    ck!(b.dimensions() == (w, h) && b.as_raw().len() == total * n);
    for c in b.as_raw().chunks_exact(n) {
        ck!(same(c, &p));
    }
    let v = <P::Subpixel as Sub>::any(total * n);
    let mut calls = 0;
    let f = Img::<P>::from_fn(w, h, |x, y| {
        calls += 1;
        *P::from_slice(at(&v, w, n, x, y))
    });
    ck!(calls == total);
    ck!(f.dimensions() == (w, h));
    ck!(same(f.as_raw(), &v));
    let c = f.clone();
    ck!(c.dimensions() == (w, h));
    ck!(same(c.as_raw(), &v));
    let mut d = Img::<P>::new(1, 1);
    d.clone_from(&f);
    ck!(d.dimensions() == (w, h));
    ck!(same(d.as_raw(), &v));
    ck!(same(&f.into_vec(), &v));
    let e = Img::<P>::default();
    ck!(e.dimensions() == (0, 0) && e.as_raw().is_empty());
    reach(0);
}
/// params: pixel type, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn buf_construct() {
    by_pixel!(param(0), construct, param(1) as u32, param(2) as u32)
}


// ---------------------------------------------------------------- P02

/// forward traversal of all iterators of a w x h image
fn iterate<P: Pixel>(w: u32, h: u32, extra: usize)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let total = w as usize * h as usize;
    let v = <P::Subpixel as Sub>::any(total * n + extra);
    let mut b = ImageBuffer::<P, _>::from_raw(w, h, v.clone()).unwrap();
    let nrows = if w == 0 { 0 } else { h as usize };
    // pixels
    let mut it = b.pixels();
    for i in 0..total {
        ck!(it.len() == total - i);
        ck!(it.size_hint() == (total - i, Some(total - i)));
        let p = it.next().unwrap();
        ck!(same(p.channels(), &v[i * n..i * n + n]));
    }
    ck!(it.next().is_none() && it.len() == 0 && it.next().is_none());
    // enumerate_pixels
    let mut it = b.enumerate_pixels();
    for y in 0..h {
        for x in 0..w {
            let left = total - (y as usize * w as usize + x as usize);
            ck!(it.len() == left && it.size_hint() == (left, Some(left)));
            let (px, py, p) = it.next().unwrap();
            ck!(px == x && py == y);
            ck!(same(p.channels(), at(&v, w, n, x, y)));
        }
    }
    ck!(it.next().is_none() && it.len() == 0);
    // rows
    let mut it = b.rows();
    for y in 0..nrows {
        ck!(it.len() == nrows - y && it.size_hint() == (nrows - y, Some(nrows - y)));
        let r = it.next().unwrap();
        ck!(r.len() == w as usize);
        for (x, p) in r.enumerate() {
            ck!(same(p.channels(), at(&v, w, n, x as u32, y as u32)));
        }
    }
    ck!(it.next().is_none() && it.len() == 0);
    // enumerate_rows
    let mut it = b.enumerate_rows();
    for y in 0..nrows {
        ck!(it.len() == nrows - y && it.size_hint() == (nrows - y, Some(nrows - y)));
        let (ry, r) = it.next().unwrap();
        ck!(ry as usize == y);
        ck!(r.len() == w as usize);
        let mut k = 0;
        for (x, yy, p) in r {
            ck!(x == k && yy as usize == y);
            ck!(same(p.channels(), at(&v, w, n, x, yy)));
            k += 1;
        }
        ck!(k == w);
    }
    ck!(it.next().is_none() && it.len() == 0);
    // GenericImageView::pixels
    let mut it = GenericImageView::pixels(&b);
    for y in 0..h {
        for x in 0..w {
            let (px, py, p) = it.next().unwrap();
            ck!(px == x && py == y);
            ck!(same(p.channels(), at(&v, w, n, x, y)));
        }
    }
    ck!(it.next().is_none());
    // mutable forms: write a fresh value through each in turn
    let f = <P::Subpixel as Sub>::any(total * n);
    let mut e = v.clone();
    e[..total * n].copy_from_slice(&f);
    {
        let mut it = b.pixels_mut();
        for i in 0..total {
            ck!(it.len() == total - i && it.size_hint() == (total - i, Some(total - i)));
            *it.next().unwrap() = *P::from_slice(&f[i * n..i * n + n]);
        }
        ck!(it.next().is_none() && it.len() == 0);
    }
    ck!(same(b.as_raw(), &e));
    let mut b = ImageBuffer::<P, _>::from_raw(w, h, v.clone()).unwrap();
    {
        let mut it = b.enumerate_pixels_mut();
        for y in 0..h {
            for x in 0..w {
                let left = total - (y as usize * w as usize + x as usize);
                ck!(it.len() == left && it.size_hint() == (left, Some(left)));
                let (px, py, p) = it.next().unwrap();
                ck!(px == x && py == y);
                *p = *P::from_slice(at(&f, w, n, x, y));
            }
        }
        ck!(it.next().is_none() && it.len() == 0);
    }
    ck!(same(b.as_raw(), &e));
    let mut b = ImageBuffer::<P, _>::from_raw(w, h, v.clone()).unwrap();
    {
        let mut it = b.rows_mut();
        for y in 0..nrows {
            ck!(it.len() == nrows - y && it.size_hint() == (nrows - y, Some(nrows - y)));
            let r = it.next().unwrap();
            ck!(r.len() == w as usize);
            for (x, p) in r.enumerate() {
                *p = *P::from_slice(at(&f, w, n, x as u32, y as u32));
            }
        }
        ck!(it.next().is_none() && it.len() == 0);
    }
    ck!(same(b.as_raw(), &e));
    let mut b = ImageBuffer::<P, _>::from_raw(w, h, v.clone()).unwrap();
    {
        let mut it = b.enumerate_rows_mut();
        for y in 0..nrows {
            ck!(it.len() == nrows - y && it.size_hint() == (nrows - y, Some(nrows - y)));
            let (ry, r) = it.next().unwrap();
            ck!(ry as usize == y && r.len() == w as usize);
            let mut k = 0;
            for (x, yy, p) in r {
                ck!(x == k && yy as usize == y);
                *p = *P::from_slice(at(&f, w, n, x, yy));
                k += 1;
            }
            ck!(k == w);
        }
        ck!(it.next().is_none() && it.len() == 0);
    }
    ck!(same(b.as_raw(), &e));
    reach(0);
}
/// params: pixel type, w, h, extra samples
#[no_mangle]
#[inline(never)]
pub extern "C" fn iter_forward() {
    by_pixel!(param(0), iterate, param(1) as u32, param(2) as u32, param(3))
}

/// any interleaving of next and next_back on all double-ended iterators
fn both_ends<P: Pixel>(w: u32, h: u32, extra: usize)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let total = w as usize * h as usize;
    let nrows = if w == 0 { 0 } else { h as usize };
    let v = <P::Subpixel as Sub>::any(total * n + extra);
    let mut b = ImageBuffer::<P, _>::from_raw(w, h, v.clone()).unwrap();
    match param(4) {
        0 => {
            let (mut lo, mut hi) = (0, total);
            let mut it = b.pixels();
            while lo < hi {
                ck!(it.len() == hi - lo);
                let c = it.clone();
                ck!(c.len() == hi - lo);
                let i;
                let p = if any_bool() {
                    i = lo;
                    lo += 1;
                    it.next()
                } else {
                    hi -= 1;
                    i = hi;
                    it.next_back()
                };
                ck!(same(p.unwrap().channels(), &v[i * n..i * n + n]));
            }
            ck!(it.next().is_none() && it.next_back().is_none() && it.len() == 0);
        }
        1 => {
            let (mut lo, mut hi) = (0, nrows);
            let mut it = b.rows();
            while lo < hi {
                ck!(it.len() == hi - lo && it.clone().len() == hi - lo);
                let i;
                let r = if any_bool() {
                    i = lo;
                    lo += 1;
                    it.next()
                } else {
                    hi -= 1;
                    i = hi;
                    it.next_back()
                };
                for (x, p) in r.unwrap().enumerate() {
                    ck!(same(p.channels(), at(&v, w, n, x as u32, i as u32)));
                }
            }
            ck!(it.next().is_none() && it.next_back().is_none() && it.len() == 0);
        }
        2 => {
            let (mut lo, mut hi) = (0, total);
            let mut it = b.pixels_mut();
            while lo < hi {
                ck!(it.len() == hi - lo);
                let i;
                let p = if any_bool() {
                    i = lo;
                    lo += 1;
                    it.next()
                } else {
                    hi -= 1;
                    i = hi;
                    it.next_back()
                };
                ck!(same(p.unwrap().channels(), &v[i * n..i * n + n]));
            }
            ck!(it.next().is_none() && it.next_back().is_none());
        }
        _ => {
            let (mut lo, mut hi) = (0, nrows);
            let mut it = b.rows_mut();
            while lo < hi {
                ck!(it.len() == hi - lo);
                let i;
                let r = if any_bool() {
                    i = lo;
                    lo += 1;
                    it.next()
                } else {
                    hi -= 1;
                    i = hi;
                    it.next_back()
                };
                for (x, p) in r.unwrap().enumerate() {
                    ck!(same(p.channels(), at(&v, w, n, x as u32, i as u32)));
                }
            }
            ck!(it.next().is_none() && it.next_back().is_none());
        }
    }
    reach(0);
}
/// params: pixel type, w, h, extra, iterator
#[no_mangle]
#[inline(never)]
pub extern "C" fn iter_both() {
    by_pixel!(param(0), both_ends, param(1) as u32, param(2) as u32, param(3))
}

// ---------------------------------------------------------------- P04

/// views of a w x h image at any rectangle
fn views<P: Pixel + 'static>(w: u32, h: u32)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (mut b, v) = img::<P>(w, h);
    let (x0, y0, vw, vh) = (any_u32(), any_u32(), any_u32(), any_u32());
    let ok = x0 as u64 + vw as u64 <= w as u64 && y0 as u64 + vh as u64 <= h as u64;
    if !ok {
        reach(1);
        if param(3) == 0 {
            ckpanics!({
                b.view(x0, y0, vw, vh);
            })
        } else {
            ckpanics!({
                b.sub_image(x0, y0, vw, vh);
            })
        }
    }
    let c = |v: u32| conc(v as u64) as u32;
    let (x0, y0, vw, vh) = (c(x0), c(y0), c(vw), c(vh));
    {
        let s = b.view(x0, y0, vw, vh);
        ck!(s.dimensions() == (vw, vh));
        ck!(s.offsets() == (x0, y0));
        ck!(s.inner().dimensions() == (w, h));
        let i = s.to_image();
        ck!(i.dimensions() == (vw, vh));
        let mut k = 0;
        for y in 0..vh {
            for x in 0..vw {
                ck!(same(i.get_pixel(x, y).channels(), at(&v, w, n, x0 + x, y0 + y)));
                ck!(same(s.get_pixel(x, y).channels(), at(&v, w, n, x0 + x, y0 + y)));
            }
        }
        for (x, y, p) in s.pixels() {
            ck!(x == k % vw && y == k / vw);
            ck!(same(p.channels(), at(&v, w, n, x0 + x, y0 + y)));
            k += 1;
        }
        ck!(k == vw * vh);
        reach(2);
        let (x, y) = (any_u32(), any_u32());
        ck!(s.in_bounds(x, y) == (x < vw && y < vh));
    }
    if vw > 0 && vh > 0 {
        // a nested view
        let (x1, y1) = (any_u32(), any_u32());
        assume(x1 < vw && y1 < vh);
        let (x1, y1) = (c(x1), c(y1));
        let s = b.view(x0, y0, vw, vh);
        let t = s.view(x1, y1, vw - x1, vh - y1);
        ck!(t.dimensions() == (vw - x1, vh - y1));
        ck!(t.offsets() == (x0 + x1, y0 + y1));
        ck!(same(t.get_pixel(0, 0).channels(), at(&v, w, n, x0 + x1, y0 + y1)));
        let mut u = s;
        u.change_bounds(x0 + x1, y0 + y1, vw - x1, vh - y1);
        ck!(u.dimensions() == (vw - x1, vh - y1) && u.offsets() == (x0 + x1, y0 + y1));
        ck!(same(u.get_pixel(0, 0).channels(), at(&v, w, n, x0 + x1, y0 + y1)));
        // write through a nested mutable view
        let p = <P::Subpixel as Sub>::any(n);
        let px = *P::from_slice(&p);
        {
            let mut m = b.sub_image(x0, y0, vw, vh);
            ck!(m.dimensions() == (vw, vh));
            ck!(m.inner_mut().dimensions() == (w, h));
            let mut q = m.sub_image(x1, y1, vw - x1, vh - y1);
            ck!(q.dimensions() == (vw - x1, vh - y1));
            q.put_pixel(0, 0, px);
        }
        let mut e = v.clone();
        let i = ((y0 + y1) as usize * w as usize + (x0 + x1) as usize) * n;
        e[i..i + n].copy_from_slice(&p);
        ck!(same(b.as_raw(), &e));
        reach(0);
    }
}
/// params: pixel type, w, h, which constructor
#[no_mangle]
#[inline(never)]
pub extern "C" fn view_rect() {
    by_pixel!(param(0), views, param(1) as u32, param(2) as u32)
}
/// nested view rejected outside the outer view; pixels outside the view are out of bounds
#[no_mangle]
#[inline(never)]
pub extern "C" fn view_outside() {
    let (w, h) = (param(0) as u32, param(1) as u32);
    let (mut b, v) = img::<Rgb<u8>>(w, h);
    let (x0, y0, vw, vh) = (small(0, w as u8), small(0, h as u8), small(0, w as u8), small(0, h as u8));
    assume(x0 + vw <= w && y0 + vh <= h);
    let (x1, y1, nw, nh) = (any_u32(), any_u32(), any_u32(), any_u32());
    match param(2) {
        0 | 1 => {
            assume(x1 as u64 + nw as u64 > vw as u64 || y1 as u64 + nh as u64 > vh as u64);
            reach(0);
            if param(2) == 0 {
                let s = b.view(x0, y0, vw, vh);
                ckpanics!({
                    s.view(x1, y1, nw, nh);
                })
            } else {
                let mut s = b.sub_image(x0, y0, vw, vh);
                ckpanics!({
                    s.sub_image(x1, y1, nw, nh);
                })
            }
        }
        2 => {
            assume(x1 >= vw || y1 >= vh);
            reach(0);
            let s = b.view(x0, y0, vw, vh);
            ckpanics!({ s.get_pixel(x1, y1); })
        }
        _ => {
            assume(x1 >= vw || y1 >= vh);
            reach(0);
            let p = *Rgb::from_slice(&v[..3]);
            let mut s = b.sub_image(x0, y0, vw, vh);
            ckpanics!({ s.put_pixel(x1, y1, p) })
        }
    }
}

/// imageops::crop / crop_imm clamp to the image
fn crops<P: Pixel + 'static>(w: u32, h: u32)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (mut b, v) = img::<P>(w, h);
    let (x0, y0, cw, ch) = (any_u32(), any_u32(), any_u32(), any_u32());
    let c = |v: u32| conc(v as u64) as u32;
    // offsets inside and small sizes one by one, everything else symbolic
    let x0 = if x0 <= w { c(x0) } else { x0 };
    let y0 = if y0 <= h { c(y0) } else { y0 };
    let cw = if cw <= w { c(cw) } else { cw };
    let ch = if ch <= h { c(ch) } else { ch };
    let cx = x0.min(w);
    let cy = y0.min(h);
    let ew = cw.min(w - cx);
    let eh = ch.min(h - cy);
    let o = if param(3) == 0 {
        let c = imageops::crop_imm(&b, x0, y0, cw, ch);
        ck!(c.dimensions() == (ew, eh));
        let (ew, eh) = (conc(ew as u64) as u32, conc(eh as u64) as u32);
        let _ = (ew, eh);
        c.to_image()
    } else {
        let mut c = imageops::crop(&mut b, x0, y0, cw, ch);
        ck!(c.dimensions() == (ew, eh));
        ck!(c.inner_mut().dimensions() == (w, h));
        let (ew, eh) = (conc(ew as u64) as u32, conc(eh as u64) as u32);
        let _ = (ew, eh);
        c.to_image()
    };
    let (ew, eh) = (conc(ew as u64) as u32, conc(eh as u64) as u32);
    ck!(o.dimensions() == (ew, eh));
    for y in 0..eh {
        for x in 0..ew {
            ck!(same(o.get_pixel(x, y).channels(), at(&v, w, n, cx + x, cy + y)));
        }
    }
    ck!(same(b.as_raw(), &v));
    reach(0);
}
/// params: pixel type, w, h, mut?
#[no_mangle]
#[inline(never)]
pub extern "C" fn crop_rect() {
    by_pixel!(param(0), crops, param(1) as u32, param(2) as u32)
}

// ---------------------------------------------------------------- P05

/// replace / overlay at any offset
fn overlays<P: Pixel>(bw: u32, bh: u32, tw: u32, th: u32, mode: usize)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (mut b, v) = img::<P>(bw, bh);
    let (t, u) = img::<P>(tw, th);
    let (mut x, mut y) = (any_i64(), any_i64());
    if mode == 2 {
        // transparent and opaque top pixels only (blending itself is P10)
        for p in u.chunks_exact(n) {
            let a = p[n - 1];
            assume(a == P::Subpixel::DEFAULT_MIN_VALUE || a == P::Subpixel::DEFAULT_MAX_VALUE);
            reach(if a == P::Subpixel::DEFAULT_MIN_VALUE { 2 } else { 3 });
        }
    }
    let hit = (x as i128) > -(tw as i128) && x < bw as i64 && (y as i128) > -(th as i128) && y < bh as i64;
    if hit {
        x = conc(x as u64) as i64;
        y = conc(y as u64) as i64;
    }
    if mode == 0 {
        imageops::replace(&mut b, &t, x, y);
    } else {
        imageops::overlay(&mut b, &t, x, y);
    }
    ck!(b.dimensions() == (bw, bh));
    for by in 0..bh {
        for bx in 0..bw {
            let tx = bx as i128 - x as i128;
            let ty = by as i128 - y as i128;
            let mut e = *P::from_slice(at(&v, bw, n, bx, by));
            if tx >= 0 && ty >= 0 && tx < tw as i128 && ty < th as i128 {
                let p = *P::from_slice(at(&u, tw, n, tx as u32, ty as u32));
                if mode == 0 {
                    e = p;
                } else {
                    e.blend(&p);
                }
                reach(0);
            }
            ck!(same(b.get_pixel(bx, by).channels(), e.channels()));
        }
    }
    ck!(same(t.as_raw(), &u));
    reach(1);
}
/// params: pixel type, bottom w, h, top w, h, mode
#[no_mangle]
#[inline(never)]
pub extern "C" fn overlay_at() {
    by_pixel!(
        param(0), overlays, param(1) as u32, param(2) as u32, param(3) as u32, param(4) as u32, param(5)
    )
}
/// overlay_bounds for all sizes and offsets
#[no_mangle]
#[inline(never)]
pub extern "C" fn overlay_bounds() {
    let (bw, bh, tw, th, x, y) = (any_u32(), any_u32(), any_u32(), any_u32(), any_u32(), any_u32());
    let (rw, rh) = imageops::overlay_bounds((bw, bh), (tw, th), x, y);
    let e = |b: u32, t: u32, o: u32| {
        // how many k in 0..t have o + k < b
        if o >= b {
            0
        } else {
            t.min(b - o)
        }
    };
    ck!(rw == e(bw, tw, x) && rh == e(bh, th, y));
    reach(0);
}
fn tiles<P: Pixel>(bw: u32, bh: u32, tw: u32, th: u32)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (mut b, v) = img::<P>(bw, bh);
    let (t, u) = img::<P>(tw, th);
    imageops::tile(&mut b, &t);
    for y in 0..bh {
        for x in 0..bw {
            let mut e = *P::from_slice(at(&v, bw, n, x, y));
            e.blend(P::from_slice(at(&u, tw, n, x % tw, y % th)));
            ck!(same(b.get_pixel(x, y).channels(), e.channels()));
        }
    }
    reach(0);
}
/// params: pixel type, bottom w, h, top w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn tile_all() {
    by_pixel!(param(0), tiles, param(1) as u32, param(2) as u32, param(3) as u32, param(4) as u32)
}

// ---------------------------------------------------------------- P06

fn affine<P: Pixel + 'static>(w: u32, h: u32)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (b, v) = img::<P>(w, h);
    // (result, source coordinate of result pixel (x, y))
    let check = |o: &Img<P>, ow: u32, oh: u32, f: &dyn Fn(u32, u32) -> (u32, u32)| {
        ck!(o.dimensions() == (ow, oh));
        ck!(o.as_raw().len() == v.len());
        for y in 0..oh {
            for x in 0..ow {
                let (sx, sy) = f(x, y);
                ck!(same(o.get_pixel(x, y).channels(), at(&v, w, n, sx, sy)));
            }
        }
    };
    let r90 = |x: u32, y: u32| (y, h - 1 - x);
    let r180 = |x: u32, y: u32| (w - 1 - x, h - 1 - y);
    let r270 = |x: u32, y: u32| (w - 1 - y, x);
    let fh = |x: u32, y: u32| (w - 1 - x, y);
    let fv = |x: u32, y: u32| (x, h - 1 - y);
    check(&imageops::rotate90(&b), h, w, &r90);
    check(&imageops::rotate180(&b), w, h, &r180);
    check(&imageops::rotate270(&b), h, w, &r270);
    check(&imageops::flip_horizontal(&b), w, h, &fh);
    check(&imageops::flip_vertical(&b), w, h, &fv);
    let mut o = Img::<P>::new(h, w);
    ck!(imageops::rotate90_in(&b, &mut o).is_ok());
    check(&o, h, w, &r90);
    ck!(imageops::rotate270_in(&b, &mut o).is_ok());
    check(&o, h, w, &r270);
    let mut o = Img::<P>::new(w, h);
    ck!(imageops::rotate180_in(&b, &mut o).is_ok());
    check(&o, w, h, &r180);
    ck!(imageops::flip_horizontal_in(&b, &mut o).is_ok());
    check(&o, w, h, &fh);
    ck!(imageops::flip_vertical_in(&b, &mut o).is_ok());
    check(&o, w, h, &fv);
    let mut o = b.clone();
    imageops::rotate180_in_place(&mut o);
    check(&o, w, h, &r180);
    let mut o = b.clone();
    imageops::flip_horizontal_in_place(&mut o);
    check(&o, w, h, &fh);
    let mut o = b.clone();
    imageops::flip_vertical_in_place(&mut o);
    check(&o, w, h, &fv);
    // a destination of another size is refused
    let mut o = Img::<P>::new(h + 1, w);
    ck!(imageops::rotate90_in(&b, &mut o).is_err());
    ck!(imageops::rotate270_in(&b, &mut o).is_err());
    let mut o = Img::<P>::new(h, w + 1);
    ck!(imageops::rotate90_in(&b, &mut o).is_err());
    ck!(imageops::rotate270_in(&b, &mut o).is_err());
    let mut o = Img::<P>::new(w + 1, h);
    ck!(imageops::rotate180_in(&b, &mut o).is_err());
    ck!(imageops::flip_horizontal_in(&b, &mut o).is_err());
    ck!(imageops::flip_vertical_in(&b, &mut o).is_err());
    let mut o = Img::<P>::new(w, h + 1);
    ck!(imageops::rotate180_in(&b, &mut o).is_err());
    ck!(imageops::flip_horizontal_in(&b, &mut o).is_err());
    ck!(imageops::flip_vertical_in(&b, &mut o).is_err());
    ck!(same(b.as_raw(), &v));
    reach(0);
}
/// params: pixel type, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn affine_all() {
    by_pixel!(param(0), affine, param(1) as u32, param(2) as u32)
}

/// in-place operations on a sub-image permute the rectangle only
fn affine_sub<P: Pixel + 'static>(w: u32, h: u32)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (mut b, v) = img::<P>(w + 2, h + 2);
    {
        let mut s = b.sub_image(1, 1, w, h);
        match param(3) {
            0 => imageops::rotate180_in_place(&mut *s),
            1 => imageops::flip_horizontal_in_place(&mut *s),
            _ => imageops::flip_vertical_in_place(&mut *s),
        }
    }
    for y in 0..h + 2 {
        for x in 0..w + 2 {
            let inside = x >= 1 && x <= w && y >= 1 && y <= h;
            let (sx, sy) = match (inside, param(3)) {
                (false, _) => (x, y),
                (_, 0) => (w + 1 - x, h + 1 - y),
                (_, 1) => (w + 1 - x, y),
                _ => (x, h + 1 - y),
            };
            ck!(same(b.get_pixel(x, y).channels(), at(&v, w + 2, n, sx, sy)));
        }
    }
    reach(0);
}
/// params: pixel type, w, h, operation
#[no_mangle]
#[inline(never)]
pub extern "C" fn affine_view() {
    by_pixel!(param(0), affine_sub, param(1) as u32, param(2) as u32)
}

fn dynamic(k: usize, w: u32, h: u32) -> DynamicImage {
    fn f<P: Pixel>(w: u32, h: u32) -> Img<P>
    where
        P::Subpixel: Sub,
    {
        img::<P>(w, h).0
    }
    match k {
        0 => f::<Luma<u8>>(w, h).into(),
        1 => f::<LumaA<u8>>(w, h).into(),
        2 => f::<Rgb<u8>>(w, h).into(),
        3 => f::<Rgba<u8>>(w, h).into(),
        4 => f::<Luma<u16>>(w, h).into(),
        5 => f::<LumaA<u16>>(w, h).into(),
        6 => f::<Rgb<u16>>(w, h).into(),
        7 => f::<Rgba<u16>>(w, h).into(),
        8 => f::<Rgb<f32>>(w, h).into(),
        _ => f::<Rgba<f32>>(w, h).into(),
    }
}
/// apply_orientation equals the EXIF definition of the orientation; params: variant, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn orientation_apply() {
    use image::metadata::Orientation;
    let (k, w, h) = (param(0), param(1) as u32, param(2) as u32);
    let d = dynamic(k, w, h);
    let bpp = d.color().bytes_per_pixel() as usize;
    let v = d.as_bytes().to_vec();
    for e in 1..=8u8 {
        let o = Orientation::from_exif(e).unwrap();
        let mut r = d.clone();
        r.apply_orientation(o);
        let swap = e >= 5;
        let (ow, oh) = if swap { (h, w) } else { (w, h) };
        ck!(r.width() == ow && r.height() == oh);
        ck!(r.color() == d.color());
        let rb = r.as_bytes();
        ck!(rb.len() == v.len());
        for y in 0..oh {
            for x in 0..ow {
                // EXIF: where the displayed pixel (x, y) is stored
                let (sx, sy) = match e {
                    1 => (x, y),
                    2 => (w - 1 - x, y),
                    3 => (w - 1 - x, h - 1 - y),
                    4 => (x, h - 1 - y),
                    5 => (y, x),
                    6 => (y, h - 1 - x),
                    7 => (w - 1 - y, h - 1 - x),
                    _ => (w - 1 - y, x),
                };
                ck!(same(at(rb, ow, bpp, x, y), at(&v, w, bpp, sx, sy)));
            }
        }
    }
    // the direct methods
    let mut r = d.clone();
    r.apply_orientation(Orientation::Rotate90);
    let q = d.rotate90();
    ckeq!(r.as_bytes(), q.as_bytes());
    let mut r = d.clone();
    r.apply_orientation(Orientation::Rotate180);
    let q = d.rotate180();
    ckeq!(r.as_bytes(), q.as_bytes());
    let mut r = d.clone();
    r.apply_orientation(Orientation::Rotate270);
    let q = d.rotate270();
    ckeq!(r.as_bytes(), q.as_bytes());
    let mut r = d.clone();
    r.apply_orientation(Orientation::FlipHorizontal);
    let q = d.fliph();
    ckeq!(r.as_bytes(), q.as_bytes());
    let mut r = d.clone();
    r.apply_orientation(Orientation::FlipVertical);
    let q = d.flipv();
    ckeq!(r.as_bytes(), q.as_bytes());
    reach(0);
}

// ---------------------------------------------------------------- P07

/// copy_from at any offset, into an ImageBuffer (via 0) or a sub-image (via 1)
fn copies<P: Pixel>(dw: u32, dh: u32, sw: u32, sh: u32, via: usize)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let (mut b, v) = img::<P>(dw, dh);
    let (s, u) = img::<P>(sw, sh);
    let (x, y) = (any_u32(), any_u32());
    // the whole image, or the image without a one pixel frame
    let m = via as u32;
    let (vw, vh) = (dw - 2 * m, dh - 2 * m);
    let (mut x, mut y) = (x, y);
    if x as u64 + sw as u64 <= vw as u64 && y as u64 + sh as u64 <= vh as u64 {
        x = conc(x as u64) as u32;
        y = conc(y as u64) as u32;
    }
    let r = if via == 0 { b.copy_from(&s, x, y) } else { b.sub_image(1, 1, vw, vh).copy_from(&s, x, y) };
    let ok = x as u64 + sw as u64 <= vw as u64 && y as u64 + sh as u64 <= vh as u64;
    ck!(r.is_ok() == ok);
    if !ok {
        ck!(same(b.as_raw(), &v));
        reach(1);
    } else {
        for by in 0..dh {
            for bx in 0..dw {
                let e = if bx >= x + m && bx < x + m + sw && by >= y + m && by < y + m + sh {
                    at(&u, sw, n, bx - x - m, by - y - m)
                } else {
                    at(&v, dw, n, bx, by)
                };
                ck!(same(b.get_pixel(bx, by).channels(), e));
            }
        }
        reach(0);
    }
}
/// params: pixel type, destination w, h, source w, h, via
#[no_mangle]
#[inline(never)]
pub extern "C" fn copy_from_at() {
    by_pixel!(
        param(0), copies, param(1) as u32, param(2) as u32, param(3) as u32, param(4) as u32, param(5)
    )
}

fn within<P: Pixel>(w: u32, h: u32, via: usize)
where
    P::Subpixel: Sub,
{
    let n = P::CHANNEL_COUNT as usize;
    let m = via as u32;
    let (mut b, v) = img::<P>(w + 2 * m, h + 2 * m);
    let (sx, sy, dx, dy) = (any_u32(), any_u32(), any_u32(), any_u32());
    // the offsets have to lie in the image (documented by assertion), the size is arbitrary
    assume(sx < w && sy < h && dx < w && dy < h);
    let (cw, ch) = (any_u32(), any_u32());
    let fits = sx as u64 + cw as u64 <= w as u64
        && sy as u64 + ch as u64 <= h as u64
        && dx as u64 + cw as u64 <= w as u64
        && dy as u64 + ch as u64 <= h as u64;
    let (mut sx, mut sy, mut dx, mut dy, mut cw, mut ch) = (sx, sy, dx, dy, cw, ch);
    if fits {
        for v in [&mut sx, &mut sy, &mut dx, &mut dy, &mut cw, &mut ch] {
            *v = conc(*v as u64) as u32;
        }
    }
    let r = Rect { x: sx, y: sy, width: cw, height: ch };
    let done = if via == 0 { b.copy_within(r, dx, dy) } else { b.sub_image(1, 1, w, h).copy_within(r, dx, dy) };
    ck!(done == fits);
    if !done {
        ck!(same(b.as_raw(), &v));
        reach(1);
    } else {
        for by in 0..h + 2 * m {
            for bx in 0..w + 2 * m {
                let inside = bx >= dx + m && bx < dx + m + cw && by >= dy + m && by < dy + m + ch;
                let e = if inside { at(&v, w + 2 * m, n, bx - dx + sx, by - dy + sy) } else { at(&v, w + 2 * m, n, bx, by) };
                ck!(same(b.get_pixel(bx, by).channels(), e));
            }
        }
        reach(0);
    }
}
/// params: pixel type, w, h, via
#[no_mangle]
#[inline(never)]
pub extern "C" fn copy_within_at() {
    by_pixel!(param(0), within, param(1) as u32, param(2) as u32, param(3))
}

harnesses!(
    buf_fits, buf_address, buf_construct, iter_forward, iter_both, view_rect, view_outside, crop_rect, overlay_at,
    overlay_bounds, tile_all, affine_all, affine_view, orientation_apply, copy_from_at, copy_within_at
);
