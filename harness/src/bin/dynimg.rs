#![cfg_attr(rustfmt, rustfmt_skip)]
//! P09 DynamicImage.
#![allow(deprecated)]
use hx::px::*;
use hx::*;
use image::buffer::ConvertBuffer;
use image::*;
use std::io::Cursor;

const COLORS: [ColorType; 10] = [ColorType::L8, ColorType::La8, ColorType::Rgb8, ColorType::Rgba8, ColorType::L16, ColorType::La16, ColorType::Rgb16, ColorType::Rgba16, ColorType::Rgb32F, ColorType::Rgba32F];

/// A dynamic image over symbolic samples, in a container that is `extra` samples longer than needed.
fn make<P: Pixel>(w: u32, h: u32, extra: usize) -> (Img<P>, Vec<P::Subpixel>)
where
    P::Subpixel: Sub,
{
    let n = w as usize * h as usize * P::CHANNEL_COUNT as usize;
    let v = <P::Subpixel as Sub>::any(n);
    let mut c = v.clone();
    c.extend_from_slice(&<P::Subpixel as Sub>::any(extra));
    (ImageBuffer::from_raw(w, h, c).unwrap(), v)
}
/// One by one conversion to another pixel type.
fn each_pixel<P: Pixel, Q: Pixel>(i: &Img<P>) -> Vec<Q::Subpixel>
where
    Img<P>: ConvertBuffer<Img<Q>>,
{
    let mut out = vec![];
    for y in 0..i.height() {
        for x in 0..i.width() {
            let mut one: Img<P> = ImageBuffer::new(1, 1);
            one.put_pixel(0, 0, *i.get_pixel(x, y));
            let c: Img<Q> = one.convert();
            out.extend_from_slice(c.get_pixel(0, 0).channels());
        }
    }
    out
}
fn needed<P: Pixel>(i: &Img<P>) -> &[P::Subpixel] {
    let n = i.width() as usize * i.height() as usize * P::CHANNEL_COUNT as usize;
    &i.as_raw()[..n]
}
trait Dyn: Pixel + Copy where Self::Subpixel: Sub {
    fn wrap(i: Img<Self>) -> DynamicImage;
    fn unwrap(d: &DynamicImage) -> Option<&Img<Self>>;
    fn thumb(i: &Img<Self>, w: u32, h: u32) -> Img<Self>;
}
macro_rules! dynp {
    ($($p:ty, $v:ident);*) => {$(
        impl Dyn for $p {
            fn wrap(i: Img<Self>) -> DynamicImage { i.into() }
            fn thumb(i: &Img<Self>, w: u32, h: u32) -> Img<Self> { imageops::thumbnail(i, w, h) }
            fn unwrap(d: &DynamicImage) -> Option<&Img<Self>> { if let DynamicImage::$v(i) = d { Some(i) } else { None } }
        }
    )*};
}
dynp!(Luma<u8>, ImageLuma8; LumaA<u8>, ImageLumaA8; Rgb<u8>, ImageRgb8; Rgba<u8>, ImageRgba8; Luma<u16>, ImageLuma16; LumaA<u16>, ImageLumaA16;
    Rgb<u16>, ImageRgb16; Rgba<u16>, ImageRgba16; Rgb<f32>, ImageRgb32F; Rgba<f32>, ImageRgba32F);

fn basic<P: Dyn>(k: usize, w: u32, h: u32, extra: usize)
where
    P::Subpixel: Sub,
    Img<P>: ConvertBuffer<Img<Rgba<u8>>>,
{
    let (i, v) = make::<P>(w, h, extra);
    let raw = <P::Subpixel as Sub>::raw(&v);
    let mut d = P::wrap(i.clone());
    ck!(d.color() == COLORS[k] && d.dimensions() == (w, h) && d.width() == w && d.height() == h);
    ck!(P::unwrap(&d).is_some());
    ck!(d.as_bytes().len() >= raw.len());
    ckeq!(d.as_bytes()[..raw.len()], raw);
    // only the accessors of the own variant answer
    let have = [d.as_luma8().is_some(), d.as_luma_alpha8().is_some(), d.as_rgb8().is_some(), d.as_rgba8().is_some(), d.as_luma16().is_some(),
        d.as_luma_alpha16().is_some(), d.as_rgb16().is_some(), d.as_rgba16().is_some(), d.as_rgb32f().is_some(), d.as_rgba32f().is_some()];
    let have_mut = [d.as_mut_luma8().is_some(), d.as_mut_luma_alpha8().is_some(), d.as_mut_rgb8().is_some(), d.as_mut_rgba8().is_some(), d.as_mut_luma16().is_some(),
        d.as_mut_luma_alpha16().is_some(), d.as_mut_rgb16().is_some(), d.as_mut_rgba16().is_some(), d.as_mut_rgb32f().is_some(), d.as_mut_rgba32f().is_some()];
    for q in 0..10 {
        ck!(have[q] == (q == k) && have_mut[q] == (q == k));
    }
    let flat = [d.as_flat_samples_u8().map(|f| (f.layout, f.samples.len())), d.as_flat_samples_u16().map(|f| (f.layout, f.samples.len())), d.as_flat_samples_f32().map(|f| (f.layout, f.samples.len()))];
    for q in 0..3 {
        ck!(flat[q].is_some() == (q == if k < 4 { 0 } else if k < 8 { 1 } else { 2 }));
        if let Some((l, n)) = flat[q] {
            ck!(n >= v.len() && l.width == w && l.height == h && l.channels == P::CHANNEL_COUNT);
            ck!(l.channel_stride == 1 && l.width_stride == P::CHANNEL_COUNT as usize && l.height_stride == P::CHANNEL_COUNT as usize * w as usize);
        }
    }
    // pixel access through the generic interface
    let rgba = each_pixel::<P, Rgba<u8>>(&i);
    for y in 0..h {
        for x in 0..w {
            ckeq!(d.get_pixel(x, y).0, *at(&rgba, w, 4, x, y));
        }
    }
    // inversion is that of the variant
    let mut inv = i.clone();
    imageops::invert(&mut inv);
    let mut di = d.clone();
    di.invert();
    ck!(same(needed(P::unwrap(&di).unwrap()), needed(&inv)));
    // copies
    let c = d.clone();
    ck!(c.color() == COLORS[k] && same(needed(P::unwrap(&c).unwrap()), &v));
    let mut o = DynamicImage::new_rgb16(1, 2);
    o.clone_from(&d);
    ck!(o.color() == COLORS[k] && o.dimensions() == (w, h) && same(needed(P::unwrap(&o).unwrap()), &v));
    let mut o = DynamicImage::new(3, 1, COLORS[k]);
    ck!(o.color() == COLORS[k] && o.dimensions() == (3, 1) && o.as_bytes().iter().all(|&b| b == 0));
    ck!(o.as_bytes().len() == 3 * COLORS[k].bytes_per_pixel() as usize);
    o.clone_from(&d);
    ck!(o.dimensions() == (w, h) && same(needed(P::unwrap(&o).unwrap()), &v));
    let b = d.into_bytes();
    ckeq!(b[..raw.len()], raw);
    reach(0);
}
/// params: variant, w, h, extra samples in the container
#[no_mangle]
#[inline(never)]
pub extern "C" fn dyn_basic() {
    let k = param(0);
    by_pixel!(k, basic, k, param(1) as u32, param(2) as u32, param(3))
}
fn conv<P: Dyn>(to: usize, w: u32, h: u32)
where
    P::Subpixel: Sub,
    Img<P>: ConvertBuffer<Img<Luma<u8>>> + ConvertBuffer<Img<LumaA<u8>>> + ConvertBuffer<Img<Rgb<u8>>> + ConvertBuffer<Img<Rgba<u8>>>
        + ConvertBuffer<Img<Luma<u16>>> + ConvertBuffer<Img<LumaA<u16>>> + ConvertBuffer<Img<Rgb<u16>>> + ConvertBuffer<Img<Rgba<u16>>>
        + ConvertBuffer<Img<Rgb<f32>>> + ConvertBuffer<Img<Rgba<f32>>> + ConvertBuffer<Img<Luma<f32>>> + ConvertBuffer<Img<LumaA<f32>>>,
{
    let (i, _) = make::<P>(w, h, 0);
    let d = P::wrap(i.clone());
    merge(1);
    macro_rules! go {
        ($q:ty, $to:ident, $into:ident) => {{
            let want = each_pixel::<P, $q>(&i);
            let t = d.$to();
            ck!(t.dimensions() == (w, h) && same(t.as_raw(), &want));
            let t = d.$into();
            ck!(t.dimensions() == (w, h) && same(t.as_raw(), &want));
        }};
        ($q:ty, $to:ident) => {{
            let want = each_pixel::<P, $q>(&i);
            let t = d.$to();
            ck!(t.dimensions() == (w, h) && same(t.as_raw(), &want));
        }};
    }
    match to {
        0 => go!(Luma<u8>, to_luma8, into_luma8),
        1 => go!(LumaA<u8>, to_luma_alpha8, into_luma_alpha8),
        2 => go!(Rgb<u8>, to_rgb8, into_rgb8),
        3 => go!(Rgba<u8>, to_rgba8, into_rgba8),
        4 => go!(Luma<u16>, to_luma16, into_luma16),
        5 => go!(LumaA<u16>, to_luma_alpha16, into_luma_alpha16),
        6 => go!(Rgb<u16>, to_rgb16, into_rgb16),
        7 => go!(Rgba<u16>, to_rgba16, into_rgba16),
        8 => go!(Rgb<f32>, to_rgb32f, into_rgb32f),
        9 => go!(Rgba<f32>, to_rgba32f, into_rgba32f),
        10 => go!(Luma<f32>, to_luma32f),
        _ => go!(LumaA<f32>, to_luma_alpha32f),
    }
    reach(0);
}
/// params: variant, target, w, h
#[no_mangle]
#[inline(never)]
pub extern "C" fn dyn_convert() {
    by_pixel!(param(0), conv, param(1), param(2) as u32, param(3) as u32)
}
/// Put and blend through the generic interface: params: variant, 1: blend
#[no_mangle]
#[inline(never)]
pub extern "C" fn dyn_put() {
    by_pixel!(param(0), put, param(0), param(1))
}
fn put<P: Dyn>(k: usize, blend: usize)
where
    P::Subpixel: Sub,
    Img<Luma<u8>>: ConvertBuffer<Img<P>>,
    Img<LumaA<u8>>: ConvertBuffer<Img<P>>,
    Img<Rgb<u8>>: ConvertBuffer<Img<P>>,
    Img<Rgba<u8>>: ConvertBuffer<Img<P>>,
{
    let (w, h) = (2, 2);
    let (mut i, v) = make::<P>(w, h, 0);
    let mut p = Rgba(bytes::<4>());
    let n = P::CHANNEL_COUNT as usize;
    if blend == 1 && (n == 2 || n == 4) {
        // the blend of two symbolic alphas is decided elsewhere
        p.0[3] = [0, 255, 128][each(0, if k < 4 || k > 7 { 2 } else { 1 }) as usize];
        for q in i.pixels_mut() {
            q.channels_mut()[n - 1] = P::Subpixel::DEFAULT_MAX_VALUE;
        }
    }
    let v = if blend == 1 { i.as_raw().clone() } else { v };
    let mut d = P::wrap(i.clone());
    let (x, y) = (each(0, 1), each(0, 1));
    // same channels first, then the sample type
    let mut one: RgbaImage = ImageBuffer::new(1, 1);
    one.put_pixel(0, 0, p);
    let q: Img<P> = match P::CHANNEL_COUNT {
        1 => { let c = ConvertBuffer::<Img<Luma<u8>>>::convert(&one); ConvertBuffer::<Img<P>>::convert(&c) }
        2 => { let c = ConvertBuffer::<Img<LumaA<u8>>>::convert(&one); ConvertBuffer::<Img<P>>::convert(&c) }
        3 => { let c = ConvertBuffer::<Img<Rgb<u8>>>::convert(&one); ConvertBuffer::<Img<P>>::convert(&c) }
        _ => ConvertBuffer::<Img<P>>::convert(&one),
    };
    let mut want = *q.get_pixel(0, 0);
    if blend == 1 {
        let mut b = *i.get_pixel(x, y);
        b.blend(&want);
        want = b;
        d.blend_pixel(x, y, p);
    } else {
        d.put_pixel(x, y, p);
    }
    let r = P::unwrap(&d).unwrap();
    for yy in 0..h {
        for xx in 0..w {
            if (xx, yy) == (x, y) {
                ck!(same(r.get_pixel(xx, yy).channels(), want.channels()));
            } else {
                ck!(same(r.get_pixel(xx, yy).channels(), at(&v, w, P::CHANNEL_COUNT as usize, xx, yy)));
            }
        }
    }
    reach(0);
}
/// Grey images of every variant; params: variant, w, h, the free channel
#[no_mangle]
#[inline(never)]
pub extern "C" fn dyn_grey() {
    let (w, h) = (param(1) as u32, param(2) as u32);
    macro_rules! go {
        ($p:ty, $q:ty, $f:expr) => {{
            let i = free::<$p>(w, h, param(3));
            let g = <$p as Dyn>::wrap(i.clone()).grayscale();
            let g = <$q as Dyn>::unwrap(&g).unwrap();
            ck!(g.dimensions() == (w, h));
            for y in 0..h {
                for x in 0..w {
                    let want = $f(*i.get_pixel(x, y));
                    ck!(same(g.get_pixel(x, y).channels(), want.channels()));
                }
            }
        }};
    }
    match param(0) {
        0 => go!(Luma<u8>, Luma<u8>, |p: Luma<u8>| p),
        1 => go!(LumaA<u8>, LumaA<u8>, |p: LumaA<u8>| p),
        2 => go!(Rgb<u8>, Luma<u8>, |p: Rgb<u8>| p.to_luma()),
        3 => go!(Rgba<u8>, LumaA<u8>, |p: Rgba<u8>| LumaA([p.to_luma().0[0], p.0[3]])),
        4 => go!(Luma<u16>, Luma<u16>, |p: Luma<u16>| p),
        5 => go!(LumaA<u16>, LumaA<u16>, |p: LumaA<u16>| p),
        6 => go!(Rgb<u16>, Luma<u16>, |p: Rgb<u16>| p.to_luma()),
        7 => go!(Rgba<u16>, LumaA<u16>, |p: Rgba<u16>| LumaA([p.to_luma().0[0], p.0[3]])),
        8 => go!(Rgb<f32>, Rgb<f32>, |p: Rgb<f32>| { let l = p.to_luma().0[0]; Rgb([l, l, l]) }),
        _ => go!(Rgba<f32>, Rgba<f32>, |p: Rgba<f32>| { let l = p.to_luma().0[0]; Rgba([l, l, l, p.0[3]]) }),
    }
    reach(0);
}
/// Writing in a lossless format and reading back; params: format, variant, w, h, extra samples in the container, 1: through an encoder
#[no_mangle]
#[inline(never)]
pub extern "C" fn dyn_write() {
    by_pixel!(param(1), write, param(0), param(1), param(2) as u32, param(3) as u32, param(4), param(5))
}
fn write<P: Dyn>(f: usize, k: usize, w: u32, h: u32, extra: usize, enc: usize)
where
    P::Subpixel: Sub,
{
    let f = [ImageFormat::Tiff, ImageFormat::Farbfeld, ImageFormat::Tga, ImageFormat::Pnm, ImageFormat::Bmp, ImageFormat::Qoi][f];
    let (i, v) = make::<P>(w, h, extra);
    let d = P::wrap(i);
    let mut out = Cursor::new(vec![]);
    if enc == 1 {
        match f {
            ImageFormat::Tiff => d.write_with_encoder(codecs::tiff::TiffEncoder::new(&mut out)).unwrap(),
            ImageFormat::Farbfeld => d.write_with_encoder(codecs::farbfeld::FarbfeldEncoder::new(&mut out)).unwrap(),
            _ => d.write_with_encoder(codecs::tga::TgaEncoder::new(&mut out)).unwrap(),
        }
    } else {
        d.write_to(&mut out, f).unwrap();
    }
    let out = out.into_inner();
    let r = load_from_memory_with_format(&out, f).unwrap();
    ck!(r.color() == COLORS[k] && r.dimensions() == (w, h));
    ck!(same(needed(P::unwrap(&r).unwrap()), &v));
    reach(0);
}
/// Loading: the decoder's bytes become the image of the decoder's colour type; param: variant
struct Fake {
    c: ColorType,
    b: Vec<u8>,
    d: (u32, u32),
}
impl ImageDecoder for Fake {
    fn dimensions(&self) -> (u32, u32) {
        self.d
    }
    fn color_type(&self) -> ColorType {
        self.c
    }
    fn read_image(self, buf: &mut [u8]) -> ImageResult<()> {
        buf.copy_from_slice(&self.b);
        Ok(())
    }
    fn read_image_boxed(self: Box<Self>, buf: &mut [u8]) -> ImageResult<()> {
        (*self).read_image(buf)
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn dyn_load() {
    let c = COLORS[param(0)];
    let d = (param(1) as u32, param(2) as u32);
    let b = vec((d.0 * d.1) as usize * c.bytes_per_pixel() as usize);
    let r = DynamicImage::from_decoder(Fake { c, b: b.clone(), d }).unwrap();
    ck!(r.color() == c && r.dimensions() == d);
    ckeq!(r.as_bytes(), b);
    reach(0);
}
/// Whole-image operations do what the function of the same name does to the variant's own buffer; params: variant, operation, w, h, free channel
#[no_mangle]
#[inline(never)]
pub extern "C" fn dyn_ops() {
    by_pixel!(param(0), ops, param(1), param(2) as u32, param(3) as u32, param(4))
}
fn ops<P: Dyn + 'static>(op: usize, w: u32, h: u32, ch: usize)
where
    P::Subpixel: Sub + 'static,
{
    let i = if ch == 9 {
        let mut i = fixed::<P>(w, h);
        let s = <P::Subpixel as Sub>::any(1)[0];
        i.get_pixel_mut(w / 2, h / 2).channels_mut()[0] = s;
        i
    } else {
        free::<P>(w, h, ch)
    };
    let d = P::wrap(i.clone());
    merge(1);
    let mut m = d.clone();
    let mut b = i.clone();
    use imageops::FilterType::*;
    let (got, want) = match op {
        0 => (d.fliph(), imageops::flip_horizontal(&i)),
        1 => (d.flipv(), imageops::flip_vertical(&i)),
        2 => (d.rotate90(), imageops::rotate90(&i)),
        3 => (d.rotate180(), imageops::rotate180(&i)),
        4 => (d.rotate270(), imageops::rotate270(&i)),
        5 | 6 => {
            let (x, y, cw, chh) = (each(0, 3), each(0, 3), each(0, 3), each(0, 3));
            let want = imageops::crop_imm(&i, x, y, cw, chh).to_image();
            if op == 5 { (d.crop_imm(x, y, cw, chh), want) } else { (m.crop(x, y, cw, chh), want) }
        }
        7 => (d.brighten(35), imageops::brighten(&i, 35)),
        8 => (d.adjust_contrast(-20.0), imageops::contrast(&i, -20.0)),
        9 => (d.huerotate(75), imageops::huerotate(&i, 75)),
        10 => (d.resize_exact(w + 1, 2, Nearest), imageops::resize(&i, w + 1, 2, Nearest)),
        11 => (d.resize_exact(2, h + 1, Triangle), imageops::resize(&i, 2, h + 1, Triangle)),
        12 => (d.thumbnail_exact(1, 2), P::thumb(&i, 1, 2)),
        13 => (d.blur(0.7), imageops::blur(&i, 0.7)),
        14 => (d.unsharpen(0.7, 3), imageops::unsharpen(&i, 0.7, 3)),
        15 => {
            let k = [0.1, 0.2, 0.1, 0.0, 0.3, 0.1, -0.2, 0.1, 0.3];
            (d.filter3x3(&k), imageops::filter3x3(&i, &k))
        }
        16 => (d.resize(2, 9, Nearest), { let (a, b) = if (w, h) == (4, 2) { (2, 1) } else { (2, 2) }; imageops::resize(&i, a, b, Nearest) }),
        17 => (d.resize_to_fill(1, 2, Nearest), {
            // both sides at least as asked for, then the middle
            let (a, b) = if (w, h) == (4, 2) { (4, 2) } else { (2, 2) };
            let r = imageops::resize(&i, a, b, Nearest);
            imageops::crop_imm(&r, (a - 1) / 2, (b - 2) / 2, 1, 2).to_image()
        }),
        18 => {
            m.invert();
            imageops::invert(&mut b);
            (m, b)
        }
        _ => (d.fast_blur(1.0), imageops::fast_blur(&i, 1.0)),
    };
    ck!(P::unwrap(&got).is_some());
    ck!(got.dimensions() == want.dimensions());
    ck!(same(needed(P::unwrap(&got).unwrap()), needed(&want)));
    reach(0);
}
harnesses!(dyn_ops, dyn_basic, dyn_convert, dyn_put, dyn_grey, dyn_write, dyn_load);
