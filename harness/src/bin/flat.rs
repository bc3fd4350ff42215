#![cfg_attr(rustfmt, rustfmt_skip)]
//! P03: SampleLayout, FlatSamples, View, ViewMut.
use hx::*;
use image::flat::*;
use image::*;

fn layout(c: u8, w: u32, h: u32) -> SampleLayout {
    SampleLayout { channels: c, channel_stride: any_usize(), width: w, width_stride: any_usize(), height: h, height_stride: any_usize() }
}
/// offset in unbounded arithmetic
fn off(l: &SampleLayout, c: u64, x: u64, y: u64) -> u128 {
    c as u128 * l.channel_stride as u128 + x as u128 * l.width_stride as u128 + y as u128 * l.height_stride as u128
}
const MAX: u128 = usize::MAX as u128;

/// params: 0, then extents and coordinate (strides are unconstrained); or 1, then the strides (extents and
/// coordinate are unconstrained)
fn problem() -> (SampleLayout, u8, u32, u32) {
    let p = |i| param(i);
    if p(0) == 0 {
        (layout(p(1) as u8, p(2) as u32, p(3) as u32), p(4) as u8, p(5) as u32, p(6) as u32)
    } else {
        let l = SampleLayout { channels: any_u8(), channel_stride: p(1), width: any_u32(), width_stride: p(2), height: any_u32(), height_stride: p(3) };
        (l, any_u8(), any_u32(), any_u32())
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn layout_index() {
    let (l, c, x, y) = problem();
    let (ec, ew, eh) = (l.channels, l.width, l.height);
    let inb = c < ec && x < ew && y < eh;
    ck!(l.in_bounds(c, x, y) == inb);
    ck!(l.bounds() == (ec, ew, eh));
    ck!(l.extents() == (ec as usize, ew as usize, eh as usize));
    ck!(l.strides_cwh() == (l.channel_stride, l.width_stride, l.height_stride));
    let o = off(&l, c as u64, x as u64, y as u64);
    let i = l.index(c, x, y);
    let j = l.index_ignoring_bounds(c as usize, x as usize, y as usize);
    match j {
        None => ck!(o > MAX),
        Some(j) => {
            ck!(o <= MAX);
            ck!(j == o as u64 as usize);
            if inb {
                ck!(l.in_bounds_index(c, x, y) == j);
                reach(0);
            }
        }
    }
    if inb {
        ck!(i == j);
    } else {
        ck!(i.is_none());
        reach(1);
    }
}
/// min_length and fits against the definition
#[no_mangle]
#[inline(never)]
pub extern "C" fn layout_min() {
    let (l, ..) = problem();
    let (ec, ew, eh) = (l.channels, l.width, l.height);
    let n = any_usize();
    let need = if ec == 0 || ew == 0 || eh == 0 { 0 } else { off(&l, ec as u64 - 1, ew as u64 - 1, eh as u64 - 1) + 1 };
    let m = l.min_length();
    let fl = FlatSamples { samples: [0u8; 0], layout: l, color_hint: None };
    ck!(fl.min_length() == m);
    match m {
        None => {
            ck!(need > MAX);
            reach(1);
        }
        Some(m) => {
            ck!(need <= MAX);
            ck!(m == need as u64 as usize);
            reach(0);
        }
    }
    // m is the exact length (above)
    ck!(l.fits(n) == m.is_some_and(|m| n >= m));
    ck!(fl.fits(n) == m.is_some_and(|m| n >= m));
}
/// two different in-bounds samples never share an offset when the layout says it is unaliased; params: extents
#[no_mangle]
#[inline(never)]
pub extern "C" fn layout_alias() {
    let (c, w, h) = (param(0) as u8, param(1) as u32, param(2) as u32);
    let l = layout(c, w, h);
    let al = l.has_aliased_samples();
    ck!(FlatSamples { samples: [0u8; 0], layout: l, color_hint: None }.has_aliased_samples() == al);
    if al {
        reach(1);
        return;
    }
    // only differences of coordinates matter; the channel difference is taken non-negative
    let dc = each(0, c - 1);
    let (dx, dy) = (each(0, 2 * w as u8 - 2) as i32 - (w as i32 - 1), each(0, 2 * h as u8 - 2) as i32 - (h as i32 - 1));
    if dc == 0 && dx == 0 && dy == 0 {
        return;
    }
    let p = l.index(dc as u8, dx.max(0) as u32, dy.max(0) as u32);
    let q = l.index(0, (-dx).max(0) as u32, (-dy).max(0) as u32);
    // the dimensions fit the address space separately; their sum may not
    if let (Some(p), Some(q)) = (p, q) {
        reach(0);
        ck!(p != q);
    }
}
/// the packed constructors and normal forms; params: extents
#[no_mangle]
#[inline(never)]
pub extern "C" fn layout_forms() {
    let (c, w, h) = (param(0) as u8, param(1) as u32, param(2) as u32);
    let (cs, ws, hs) = (c as usize, w as usize, h as usize);
    let r = SampleLayout::row_major_packed(c, w, h);
    ck!(r == SampleLayout { channels: c, channel_stride: 1, width: w, width_stride: cs, height: h, height_stride: cs * ws });
    let k = SampleLayout::column_major_packed(c, w, h);
    ck!(k == SampleLayout { channels: c, channel_stride: 1, width: w, width_stride: cs * hs, height: h, height_stride: cs });
    if c > 0 && w > 0 && h > 0 {
        ck!(r.is_normal(NormalForm::RowMajorPacked) && r.is_normal(NormalForm::ImagePacked) && r.is_normal(NormalForm::PixelPacked) && r.is_normal(NormalForm::Unaliased));
        ck!(k.is_normal(NormalForm::ColumnMajorPacked) && k.is_normal(NormalForm::ImagePacked) && k.is_normal(NormalForm::PixelPacked));
    }
    let l = layout(c, w, h);
    let un = !l.has_aliased_samples();
    ck!(l.is_normal(NormalForm::Unaliased) == un);
    ck!(l.is_normal(NormalForm::PixelPacked) == (un && l.channel_stride == 1));
    if l.is_normal(NormalForm::RowMajorPacked) {
        ck!(l.width_stride == cs && l.height_stride == cs * ws && un);
        // a pixel's channels lie next to each other unless there is only one channel
        ck!(c < 2 || l.channel_stride == 1);
        reach(0);
    }
    if l.is_normal(NormalForm::ColumnMajorPacked) {
        ck!(l.height_stride == cs && l.width_stride == cs * hs && un);
        reach(1);
    }
    if l.is_normal(NormalForm::ImagePacked) {
        // packed: exactly the samples 0..c*w*h
        ck!(un && l.min_length() == Some(cs * ws * hs));
        reach(2);
    }
    let mut s = l;
    let (c2, w2, h2) = (any_u8(), any_u32(), any_u32());
    s.shrink_to(c2, w2, h2);
    ck!(s.channels == c.min(c2) && s.width == w.min(w2) && s.height == h.min(h2));
    ck!(s.strides_cwh() == l.strides_cwh());
}

fn samples<T: From<u8>>(n: usize) -> Vec<T> {
    vec(n).into_iter().map(T::from).collect()
}
/// Views over `n` samples with concrete extents and any strides.
fn view<P: Pixel + 'static>(n: usize, w: u32, h: u32, part: usize)
where
    P::Subpixel: From<u8> + PartialEq + 'static,
{
    let cc = P::CHANNEL_COUNT;
    let l = layout(cc, w, h);
    let v = samples::<P::Subpixel>(n);
    let need = if w == 0 || h == 0 { 0 } else { off(&l, cc as u64 - 1, w as u64 - 1, h as u64 - 1) + 1 };
    let mut f = FlatSamples { samples: v.clone(), layout: l, color_hint: None };
    let fits = need <= n as u128;
    let (x, y) = (any_u32(), any_u32());
    let ch = any_u8();
    if part == 0 {
        ck!(f.as_view::<P>().is_ok() == fits);
        ck!(f.image_slice::<P::Subpixel>().is_some() == fits);
        ck!(f.as_view_with_mut_samples::<P>().is_ok() == fits);
        let mut g = FlatSamples { samples: v.clone(), layout: l, color_hint: None };
        g.layout.channels = cc + 1;
        ck!(g.as_view::<P>().is_err() && g.as_view_mut::<P>().is_err() && g.as_view_with_mut_samples::<P>().is_err());
        ck!(g.try_into_buffer::<P>().is_err());
        if !fits {
            ck!(f.as_view_mut::<P>().is_err());
            reach(1);
        } else if w > 0 && h > 0 {
            reach(0);
            ck!(f.image_slice::<P::Subpixel>().unwrap().len() as u128 == need);
            let s = f.as_view::<P>().unwrap();
            ck!(s.dimensions() == (w, h) && s.min_length() as u128 == need);
            ck!(s.image_slice().len() as u128 == need);
            if x < w && y < h {
                let (x, y) = (conc(x as u64) as u32, conc(y as u64) as u32);
                let p = s.get_pixel(x, y);
                for c in 0..cc {
                    let i = off(&l, c as u64, x as u64, y as u64) as usize;
                    ck!(p.channels()[c as usize] == v[i]);
                    ck!(*s.get_sample(c, x, y).unwrap() == v[i]);
                    ck!(*f.get_sample(c, x, y).unwrap() == v[i]);
                    ck!(f[(c, x, y)] == v[i]);
                }
                if ch >= cc {
                    ck!(s.get_sample(ch, x, y).is_none());
                }
                reach(2);
            } else {
                ck!(s.get_sample(ch, x, y).is_none() && f.get_sample(ch, x, y).is_none());
                ck!(!s.in_bounds(x, y));
                reach(3);
                ckpanics!({
                    s.get_pixel(x, y);
                });
            }
        }
    } else if part == 1 {
        // mutable views
        let normal = l.channel_stride == 1 && !l.has_aliased_samples();
        ck!(f.as_view_mut::<P>().is_ok() == (fits && normal));
        if !fits || !normal {
            reach(1);
            return;
        }
        reach(0);
        let q = samples::<P::Subpixel>(cc as usize);
        let q = *P::from_slice(&q);
        let mut m = f.as_view_mut::<P>().unwrap();
        ck!(m.dimensions() == (w, h) && m.min_length() as u128 == need && m.image_mut_slice().len() as u128 == need);
        if x < w && y < h {
            let (x, y) = (conc(x as u64) as u32, conc(y as u64) as u32);
            let base = off(&l, 0, x as u64, y as u64) as usize;
            ck!(*m.get_pixel(x, y).channels().first().unwrap() == v[base]);
            for c in 0..cc {
                let b = *m.get_sample(c, x, y).unwrap() == v[base + c as usize];
                ck!(b);
                let b = *m.get_mut_sample(c, x, y).unwrap() == v[base + c as usize];
                ck!(b);
            }
            m.put_pixel(x, y, q);
            for c in 0..cc as usize {
                ck!(m.get_pixel(x, y).channels()[c] == q.channels()[c]);
            }
            for i in 0..n {
                let inside = i >= base && i < base + cc as usize;
                // nothing else changes
                ck!(inside || f.samples[i] == v[i]);
            }
            for c in 0..cc as usize {
                ck!(f.samples[base + c] == q.channels()[c]);
            }
            reach(2);
        } else {
            reach(3);
            ck!(m.get_sample(ch, x, y).is_none() && m.get_mut_sample(ch, x, y).is_none());
            ckpanics!({
                m.put_pixel(x, y, q);
            });
        }
    } else {
        // conversion to an ImageBuffer, upgrades, shrinking
        let rm = l.channel_stride == 1 && l.width_stride == cc as usize && l.height_stride == cc as usize * w as usize;
        let g = FlatSamples { samples: v.clone(), layout: l, color_hint: None };
        match g.try_into_buffer::<P>() {
            Ok(b) => {
                ck!(fits && (rm || cc == 1));
                ck!(b.dimensions() == (w, h));
                for y in 0..h {
                    for x in 0..w {
                        for c in 0..cc as usize {
                            let i = (y as usize * w as usize + x as usize) * cc as usize + c;
                            ck!(b.get_pixel(x, y).channels()[c] == v[i]);
                        }
                    }
                }
                reach(0);
            }
            Err((e, back)) => {
                ck!(!(fits && rm && w > 0 && h > 0));
                ck!(back.layout == l && back.samples.len() == n);
                ck!(matches!(e, Error::NormalFormRequired(_) | Error::TooLarge));
                reach(1);
            }
        }
        if fits {
            let normal = l.channel_stride == 1 && !l.has_aliased_samples();
            let v2 = f.as_view_with_mut_samples::<P>().unwrap();
            match v2.try_upgrade() {
                Ok(mut m) => {
                    ck!(normal);
                    let (w2, h2) = (small(0, 4), small(0, 4));
                    m.shrink_to(w2, h2);
                    ck!(m.dimensions() == (w.min(w2), h.min(h2)));
                    let (w3, h3) = m.dimensions();
                    ck!(m.get_mut_sample(0, w3, 0).is_none() && m.get_mut_sample(0, 0, h3).is_none());
                    let ml = m.min_length();
                    ck!(ml <= n && m.image_mut_slice().len() == ml);
                    reach(2);
                }
                Err((_, mut s)) => {
                    ck!(!normal);
                    s.shrink_to(1, 1);
                    ck!(s.dimensions() == (w.min(1), h.min(1)));
                    if w > 0 && h > 0 {
                        ck!(s.get_pixel(0, 0).channels()[0] == v[0]);
                    }
                    reach(3);
                }
            }
        }
    }
}
/// params: pixel type (0 Luma<u8>, 1 Rgb<u8>, 2 LumaA<u16>, 3 Rgba<f32>), samples, width, height, part
#[no_mangle]
#[inline(never)]
pub extern "C" fn flat_view() {
    let (n, w, h, p) = (param(1), param(2) as u32, param(3) as u32, param(4));
    match param(0) {
        0 => view::<Luma<u8>>(n, w, h, p),
        1 => view::<Rgb<u8>>(n, w, h, p),
        2 => view::<LumaA<u16>>(n, w, h, p),
        _ => view::<Rgba<f32>>(n, w, h, p),
    }
}
/// a single pixel shown as an image of any size
#[no_mangle]
#[inline(never)]
pub extern "C" fn flat_mono() {
    let p = Rgb(bytes::<3>());
    let (w, h) = (any_u32(), any_u32());
    let f = FlatSamples::with_monocolor(&p, w, h);
    ck!(f.bounds() == (3, w, h));
    let v = f.as_view::<Rgb<u8>>().unwrap();
    let (x, y) = (any_u32(), any_u32());
    ck!(v.dimensions() == (w, h));
    if x < w && y < h {
        ck!(v.get_pixel(x, y) == p);
        reach(0);
    } else {
        ck!(!v.in_bounds(x, y) && v.get_sample(0, x, y).is_none());
        reach(1);
    }
    // all pixels are the same samples
    if w > 1 && h > 0 {
        ck!(f.has_aliased_samples());
    }
}
harnesses!(layout_index, layout_min, layout_alias, layout_forms, flat_view, flat_mono);
