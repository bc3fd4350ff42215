//! Images of unconstrained samples.
use crate::*;
use image::*;

pub type Img<P> = ImageBuffer<P, Vec<<P as Pixel>::Subpixel>>;

pub trait Sub: Primitive {
    fn any(n: usize) -> Vec<Self>;
    fn raw(v: &[Self]) -> Vec<u8>;
    /// The sample at the given part of the range.
    fn part(v: f32) -> Self {
        let m = Self::DEFAULT_MAX_VALUE.to_f32().unwrap();
        <Self as num_traits::NumCast>::from(v * m).unwrap()
    }
}
impl Sub for u8 {
    fn any(n: usize) -> Vec<u8> {
        vec(n)
    }
    fn raw(v: &[u8]) -> Vec<u8> {
        v.to_vec()
    }
}
impl Sub for u16 {
    fn any(n: usize) -> Vec<u16> {
        u16s(n)
    }
    fn raw(v: &[u16]) -> Vec<u8> {
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
impl Sub for f32 {
    fn any(n: usize) -> Vec<f32> {
        // comparisons below are on bit patterns
        f32s(n)
    }
    fn raw(v: &[f32]) -> Vec<u8> {
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
/// same bits
pub fn same<S: Sub>(a: &[S], b: &[S]) -> bool {
    let (a, b) = (S::raw(a), S::raw(b));
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
pub fn img<P: Pixel>(w: u32, h: u32) -> (Img<P>, Vec<P::Subpixel>)
where
    P::Subpixel: Sub,
{
    let v = <P::Subpixel as Sub>::any(w as usize * h as usize * P::CHANNEL_COUNT as usize);
    (ImageBuffer::from_raw(w, h, v.clone()).unwrap(), v)
}
/// The pixel (x, y) of a row-major sample array, by definition.
pub fn at<S>(v: &[S], w: u32, n: usize, x: u32, y: u32) -> &[S] {
    let i = (y as usize * w as usize + x as usize) * n;
    &v[i..i + n]
}
#[macro_export]
macro_rules! by_pixel {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<image::Luma<u8>>($($a),*),
            1 => $f::<image::LumaA<u8>>($($a),*),
            2 => $f::<image::Rgb<u8>>($($a),*),
            3 => $f::<image::Rgba<u8>>($($a),*),
            4 => $f::<image::Luma<u16>>($($a),*),
            5 => $f::<image::LumaA<u16>>($($a),*),
            6 => $f::<image::Rgb<u16>>($($a),*),
            7 => $f::<image::Rgba<u16>>($($a),*),
            8 => $f::<image::Rgb<f32>>($($a),*),
            _ => $f::<image::Rgba<f32>>($($a),*),
        }
    };
}


/// An image of unremarkable constant samples.
pub fn fixed<P: Pixel>(w: u32, h: u32) -> Img<P>
where
    P::Subpixel: Sub,
{
    let n = w as usize * h as usize * P::CHANNEL_COUNT as usize;
    let mut s = 12345u32;
    let v = (0..n)
        .map(|_| {
            s = s.wrapping_mul(1664525).wrapping_add(1013904223);
            P::Subpixel::part((s >> 24) as f32 / 256.0)
        })
        .collect();
    ImageBuffer::from_raw(w, h, v).unwrap()
}
/// An image whose only symbolic channel is the given one (counted from 1), or with every sample symbolic (0).
pub fn free<P: Pixel>(w: u32, h: u32, ch: usize) -> Img<P>
where
    P::Subpixel: Sub,
{
    let mut i = fixed::<P>(w, h);
    for p in i.pixels_mut() {
        for (c, s) in p.channels_mut().iter_mut().enumerate() {
            if ch == 0 || c + 1 == ch {
                *s = P::Subpixel::any(1)[0];
            }
        }
    }
    i
}
