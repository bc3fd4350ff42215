"""The explorations that decide each property."""
from vlib import Job as J

PROPS = {}
U8, U8A, RGB, RGBA, L16, LA16, RGB16, RGBA16, RGBF, RGBAF = range(10)
ALL = range(10)
M32 = (1 << 32) - 1
M64 = (1 << 64) - 1


def prop(pid, bin, bounds, jobs, assumptions=(), note=""):
    PROPS[pid] = dict(bin=bin, bounds=bounds, jobs=list(jobs), assumptions=list(assumptions), note=note)


# ------------------------------------------------------------------ P01
j = []
for k in ALL:
    if k in (RGB, RGB16, RGBF):
        j += [J("buf_fits", [k, n, w]) for n in (0, 40) for w in (0, 1, 2, 13, 14, 1 << 16, 1 << 31, (1 << 32) - 1)]
    else:
        j += [J("buf_fits", [k, n, 0]) for n in (0, 1, 40)]
    for a in range(6):
        j += [J("buf_address", [k, w, h, e, a], reach=3) for (w, h, e) in ((3, 4, 0), (5, 2, 7), (1, 1, 3))]
    j += [J("buf_construct", [k, w, h]) for (w, h) in ((3, 2), (1, 1), (0, 4), (4, 0), (0, 0), (17, 5), (300, 2))]
# too small containers can never be accepted with length 0 unless the image is empty
for x in j:
    if x.fn == "buf_fits":
        x.reach = 2 if x.params[2] > x.params[1] else 1
prop("P01", "core", "images up to 5x4 with all coordinates (u32 x u32), all dimensions u32 x u32 against containers of 0, 1 and 40 "
     "samples (three-channel types: 8 widths x all heights), constructors at 7 sizes up to 300 wide, all ten pixel types", j)

# ------------------------------------------------------------------ P02
j = []
for k in ALL:
    j += [J("iter_forward", [k, w, h, e]) for (w, h, e) in ((3, 2, 0), (0, 4, 0), (4, 0, 3), (0, 0, 2), (1, 1, 1), (7, 5, 2))]
for k in (U8, RGB, RGBA16):
    j += [J("iter_both", [k, w, h, e, i]) for i in range(4) for (w, h, e) in ((2, 3, 1), (0, 3, 1), (1, 5, 0), (3, 0, 2), (5, 1, 0), (2, 2, 0))]
    j += [J("iter_forward", [k, 130, 3, 0])]
prop("P02", "core", "images of 0..7 pixels per side plus 130x3, all pixel values, every interleaving of next/next_back for up to 6 items", j)

# ------------------------------------------------------------------ P03
j = [J("layout_index", [0, *d], reach=1) for d in ((3, 4, 5, 2, 3, 4), (4, M32, M32, 3, M32 - 1, M32 - 1), (255, 65536, 3, 254, 1000, 1), (1, 1, 1, 0, 0, 0))]
j += [J("layout_index", [1, *s], reach=3) for s in ((1, 3, 300), (300, 1, 65537), (M64, (1 << 32) + 1, M32), (0, 0, 7))]
j += [J("layout_min", [0, *d]) for d in ((2, 3, 3), (3, 2, 1), (255, 65537, M32), (4, 1, 1), (2, 0, 7))]
j += [J("layout_min", [0, 3, 4, 5], tier="thorough", time=3000, query_timeout=1500)]
j += [J("layout_min", [1, *s]) for s in ((1, 4, 1024), (0, (1 << 63) - 1, (1 << 32) + 3))]
j += [J("layout_alias", [*d], reach=3) for d in ((3, 4, 5), (1, 9, 1), (2, 3, 2), (4, 2, 2), (1, 1, 6), (3, 1, 2), (1, 3, 2), (2, 3, 1), (4, 1, 5))]
j += [J("layout_alias", [*d], reach=3, tier="thorough", time=3000) for d in ((4, 6, 5), (3, 9, 4), (1, 17, 6))]
j += [J("layout_forms", [*d], reach=r) for d, r in (((3, 4, 5), 7), ((1, 4, 1), 7), ((4, 1, 3), 7), ((2, 0, 3), 0), ((255, 1000, 3), 7))]
for k in (0, 1, 2, 3):
    for p in (0, 1, 2):
        for d in ((20, 2, 3), (9, 3, 1)) if k < 3 else ((24, 2, 3), (12, 3, 1)):
            j += [J("flat_view", [k, *d, p], reach=15 if p != 2 or k == 0 else 1)]
    j += [J("flat_view", [k, 6, 0, 3, p], reach=0) for p in (0, 2)]
j += [J("flat_mono", [])]
prop("P03", "flat", "offsets: any strides with given coordinates and any coordinates with given strides; aliasing: any strides for extents up to 3x4x5; "
     "views: any strides, all coordinates, up to 3x2 pixels over 20 samples with four pixel types", j)

# ------------------------------------------------------------------ P04
j = []
for k in (U8, RGB, RGBA, LA16, RGBF):
    j += [J("view_rect", [k, w, h, a], reach=6 if w == 0 else 7) for a in (0, 1) for (w, h) in ((3, 3), (0, 2), (4, 2))]
    j += [J("crop_rect", [k, w, h, a]) for a in (0, 1) for (w, h) in ((3, 3), (0, 2), (2, 4))]
j += [J("view_outside", [3, 4, a]) for a in range(4)]
prop("P04", "core", "every u32 offset and size against images up to 4x4 (inside rectangles one by one), all pixel values", j)

# ------------------------------------------------------------------ P05
j = [J("overlay_bounds", [])]
for k in ALL:
    j += [J("overlay_at", [k, *d, 0], reach=r) for (d, r) in
          (((3, 3, 2, 2), 3), ((2, 2, 4, 1), 3), ((1, 4, 3, 6), 3), ((3, 3, 0, 2), 2), ((0, 3, 2, 2), 2))]
for k in (U8, RGB, L16, RGB16, RGBF):
    j += [J("overlay_at", [k, *d, 1], reach=3) for d in ((3, 3, 2, 2), (2, 2, 4, 1))]
    j += [J("tile_all", [k, *d]) for d in ((5, 4, 2, 3), (3, 3, 4, 5), (4, 4, 2, 2), (7, 1, 3, 1))]
j += [J("overlay_at", [RGBA, *d, 2], reach=15) for d in ((2, 2, 2, 1), (2, 2, 1, 1), (3, 2, 1, 2))]
j += [J("overlay_at", [U8, 300, 1, 5, 1, 0], reach=3)]
prop("P05", "core", "every i64 x i64 offset for images up to 4x6 and 300x1; overlay with opaque/transparent top pixels for RGBA, any pixels "
     "for types without alpha; overlay_bounds for all u32 sizes and offsets", j)

# ------------------------------------------------------------------ P06
j = []
for k in ALL:
    j += [J("affine_all", [k, w, h]) for (w, h) in ((5, 4), (4, 5), (3, 3), (2, 2), (1, 1), (1, 6), (6, 1), (0, 3), (3, 0), (17, 9))]
    j += [J("orientation_apply", [k, w, h]) for (w, h) in ((4, 3), (3, 3), (1, 2), (2, 4), (5, 1))]
for k in (U8, RGB, RGBA16):
    j += [J("affine_view", [k, w, h, o]) for o in range(3) for (w, h) in ((5, 3), (4, 2), (1, 1), (3, 4))]
j += [J("affine_all", [RGB, 65, 33])]
prop("P06", "core", "ten sizes (empty to 17x9, 65x33 for RGB), all pixel values of all ten pixel types, all eight orientations", j)

# ------------------------------------------------------------------ P07
j = []
for k in (U8, RGB, RGBA, LA16, RGBAF):
    j += [J("copy_from_at", [k, *d, 0], reach=r) for (d, r) in
          (((4, 4, 2, 2), 3), ((3, 3, 3, 3), 3), ((2, 3, 3, 1), 2), ((3, 2, 0, 0), 3), ((5, 2, 1, 2), 3), ((0, 2, 0, 1), 3))]
    j += [J("copy_from_at", [k, *d, 1], reach=r) for (d, r) in (((4, 4, 2, 2), 3), ((5, 4, 1, 2), 3))]
    j += [J("copy_within_at", [k, *d], reach=3) for d in ((3, 3, 0), (3, 3, 1), (4, 2, 0), (2, 4, 0), (1, 1, 0))]
j += [J("copy_within_at", [RGB, 5, 1, v], reach=3) for v in (0, 1)]
prop("P07", "core", "every u32 offset and rectangle against destinations up to 5x4, all pixel values", j,
     ["copy_within offsets lie inside the image (it asserts that)"])

# ------------------------------------------------------------------ P08
T16 = dict(table_bits=16)
j = [J("sample_conv", [n], reach=r, **T16) for n, r in ((0, 0), (1, 0), (2, 0), (3, 0), (4, 3), (7, 0), (8, 0), (10, 1))]
j += [J("sample_conv", [5, k]) for k in range(9)]
j += [J("sample_conv", [n, k]) for n in (6, 9) for k in range(7, 17)]
j += [J("sample_conv", [11, k, i, i + 16], **T16) for k in range(7) for i in range(0, 128, 16)]
for a in ALL:
    for b in ALL:
        if a < RGBF:
            j += [J("pixel_conv", [a, b, w, h], reach=0) for (w, h) in ((1, 1), (3, 2), (0, 5))]
        else:
            j += [J("pixel_conv", [a, b, 1, 1, c], reach=0) for c in range(4 if a == RGBAF else 3)]
    j += [J("pixel_methods", [a], reach=0, query_timeout=300)]
j += [J("luma_bounds", [0], reach=0, query_timeout=300), J("luma_bounds", [2], reach=0, **T16)]
j += [J("luma_bounds", [1, v], reach=0, **T16) for v in (0, 1, 2, 9999, 10000, 32767, 32768, 65534, 65535)]
prop("P08", "color", "sample conversions: all u8, u16 and f32 values (rounding to nearest in f32->u16 by exponent); pixels: all 100 pairs of pixel types, "
     "images 1x1, 3x2 and empty, all integer samples (float sources: one channel free at a time, within [-2, 2])", j)

# ------------------------------------------------------------------ P10
j = [J("blend_ends", [k, o]) for k in ALL for o in (0, 1)]
al = (0, 1, 2, 77, 127, 128, 200, 254, 255)
j += [J("blend_range", [k, da, sa], reach=0, **T16) for k in (0, 1) for da in al for sa in al]
j += [J("blend_range", [k, da, sa], reach=0, tier="thorough", **T16) for k in (0, 1) for da in range(0, 256, 5) for sa in range(3, 256, 7)]
j += [J("blend_channels", [da, sa], reach=0, **T16) for da, sa in ((0, 9), (255, 100), (128, 128), (1, 254), (3, 1))]
j += [J("blend_alpha", [k], reach=0) for k in (0, 1)]
prop("P10", "color", "opaque and transparent source: all pixels of all ten types; resulting alpha: all pairs of alphas; resulting colour: "
     "all pairs of 8-bit samples for 81 pairs of alphas (Rgba8 and LumaA8)", j)

# ------------------------------------------------------------------ P11
j = []
for k in ALL:
    j += [J("color_invert", [k, w, h], reach=0) for (w, h) in ((1, 1), (3, 2), (0, 4))]
    j += [J("color_hue", [k, w, h, a + 100000], reach=0) for (w, h, a) in ((1, 1, 0), (1, 1, 77), (1, 1, -30), (0, 3, 5))]
    j += [J("color_grey", [k, w, h], reach=0) for (w, h) in ((1, 1), (3, 1), (0, 2)) if k != RGBA16 or w == 0]
    if k < RGBF:
        j += [J("color_brighten", [k, w, h], reach=0) for (w, h) in ((1, 1), (0, 4))]
        j += [J("color_contrast", [k, 1, 1, c], reach=0) for c in (0, 100500, 99000, 100000 + 12345) if c or k not in (RGB, RGBA, RGB16, RGBA16)]
j += [J("color_grey", [RGBA16, 1, 1, c], reach=0, **T16) for c in (1, 2, 3, 4)]
for (w, h) in ((2, 2), (1, 3), (3, 1), (0, 2), (2, 0), (2, 1), (1, 1)):
    j += [J("color_dither", [0, w, h], reach=0, query_timeout=300)]
j += [J("color_dither", [1, w, h], reach=0, query_timeout=300) for (w, h) in ((1, 1), (2, 1), (1, 2), (0, 1))]
j += [J("color_index", [w, h], reach=0) for (w, h) in ((1, 1), (3, 2), (0, 2))]
prop("P11", "color", "all pixel values of all ten types at up to 3x2 pixels; every brighten amount (i32); contrast: every finite amount for the panic-freedom and "
     "definition; hue rotation by 4 angles; dithering of every image up to 2x2, 1x3, 3x1", j)

# ------------------------------------------------------------------ P14
prop("P14", "bmp", "BMP encode->decode: every pixel value at the listed sizes",
     [J("bmp_roundtrip", [w, h, c]) for c in (0, 1, 2, 3) for (w, h) in ((1, 1), (2, 3), (5, 2), (7, 2), (64, 3))]
     + [J("bmp_palette", [*d, n, a], cand=1100) for a in (0, 1) for n in (1, 5, 256) for d in ((3, 2), (4, 1))])

# ------------------------------------------------------------------ P12
j = [J("resize_dims", [f]) for f in (0, 1)]
j += [J("resize_small", [f, w, h, M32], query_timeout=300) for f in (0, 1) for (w, h) in ((1, 1), (2, 1), (1, 4), (4, 8))]
j += [J("resize_small", [f, w, h, m], query_timeout=300) for f in (0, 1) for (w, h, m) in
      ((100, 75, 63), (640, 1, 63), (1, 50000, 63), (65536, 256, 65535))]
j += [J("resize_small", [0, M32, M32 - 1, 31], query_timeout=300)]
j += [J("resize_small", [f, w, h, 255], time=3000, query_timeout=1500, tier="thorough", partial=True) for f in (0, 1)
      for (w, h) in ((7, 3), (3, 5), (1920, 1080), (1, 3))]
prop("P12", "misc", "never panics and at least 1x1 for all u32 arguments; the size claims for source sizes 1x1, 2x1, 1x4, 4x8 with every u32 "
     "request, and 100x75, 640x1, 1x50000, 65536x256, (2^32-1)x(2^32-2) with requests up to 31..65535", j)

# ------------------------------------------------------------------ P13
j = [J("smp_resize", [k, f, *d]) for f in range(5) for k, d in ((0, (5, 4, 3, 7)), (1, (4, 5, 6, 2)), (2, (3, 4, 2, 2)), (3, (4, 3, 5, 6)), (4, (4, 4, 4, 4)))]
j += [J("smp_resize", [0, f, *d]) for f in range(5) for d in ((1, 1, 3, 2), (2, 7, 1, 1), (9, 2, 4, 3), (3, 3, 10, 1))]
j += [J("smp_resize", [k, f, *d], tier="thorough") for f in range(5) for k in range(4) for d in ((6, 5, 13, 4), (11, 7, 3, 3), (3, 8, 7, 17), (16, 2, 5, 3))]
j += [J("smp_constant", [k, o, *d]) for o in range(6) for k, d in ((0, (4, 3, 6, 5)), (1, (4, 3, 2, 5)), (2, (2, 3, 7, 5)), (3, (5, 3, 3, 7)), (0, (70, 3, 9, 2)), (0, (3, 3, 70, 2)))]
j += [J("smp_constant", [k, o, 4, 3, s, t]) for k in (0, 1) for o, t in ((6, 0), (7, 0), (8, 0), (8, 5)) for s in (2, 8, 12, 31, 80)] + [J("smp_constant", [k, 9, 4, 3, 0, 0]) for k in (0, 1, 2, 3)]
j += [J("smp_empty", [o]) for o in range(10)]
j += [J("smp_blur", [k, s, 5, 4]) for k in (0, 1, 2, 3) for s in (30, 60, 120, 310)] + [J("smp_sigma", [3, 3]), J("smp_sigma", [4, 1])]
j += [J("smp_fast_blur", [12, 5, 4, 1, 3, 3]), J("smp_fast_blur", [20, 3, 5, 3, 3, 5]), J("smp_fast_blur", [25, 4, 3, 5, 5, 5])]
j += [J("smp_filter", [k, 4, 4, f]) for k in (0, 1, 2, 3) for f in range(3)] + [J("smp_filter", [0, *d, 0]) for d in ((1, 4), (5, 2), (3, 3))]
j += [J("smp_unsharpen", [s, t, 4, 3]) for s, t in ((8, 0), (12, 3), (20, 20))]
j += [J("smp_thumb_blocks", [k, *d]) for k in (0, 1, 2, 3, 4) for d in ((2, 2, 2, 2), (3, 2, 2, 1), (1, 3, 3, 2), (5, 1, 1, 3))]
j += [J("smp_thumb_partition", d) for d in ((7, 5, 3, 2), (16, 3, 14, 2), (5, 7, 4, 6), (13, 2, 11, 1), (2, 16, 2, 14))]
j += [J("smp_thumb_partition", [n, 1, m, 1], tier="thorough") for n in range(3, 41) for m in range(2, n)]
j += [J("smp_thumb_range", [k, *d]) for k in (0, 1, 2, 3) for d in ((7, 5, 3, 2), (2, 2, 4, 4), (5, 3, 2, 7))]
j += [J("smp_thumb_rising", [k, *d]) for k in (0, 2, 3) for d in ((3, 3, 9, 9), (3, 4, 7, 11), (5, 4, 7, 3), (7, 8, 5, 3))]
j += [J("smp_thumb_large", [257, 255]), J("smp_thumb_large", [300, 300])]
j += [J("smp_point", [f, 9, 9, 1, 4], reach=3) for f in (0, 2)] + [J("smp_edges", [f], reach=3) for f in range(4)] + [J("smp_value", [f, *d]) for f in (0, 1) for d in ((4, 3), (2, 5))]
prop("P13", "sample", "resize, blur, fast_blur, filter3x3, unsharpen, thumbnail: images of up to 9x7 (thorough 16x8; thumbnails 70x3, 300x300) with one free sample "
     "(256 values) at every position among fixed ones, of u8, u16 and f32; constant images of every colour of 256 values per sample; sigmas listed; "
     "nearest sampling: every size and every coordinate; bilinear: sizes and coordinates at the limits of f32, values at eighths of a pixel", j,
     ["fast_blur of samples wider than 8 bits is outside", "unsharpen of f32 samples is outside"])

# ------------------------------------------------------------------ P29
j = [J("limits_ops", [o, 0]) for o in (0, 1, 2, 4, 5, 6, 7)]
j += [J("limits_ops", [3, c], query_timeout=200) for c in (0, 1, 2, 3, 7, 9)]
j += [J("limits_vec", [c, m]) for c in ALL for m in (0, 1)]
j += [J("limits_decoder", [f, 3, 2], reach=15) for f in range(12)]
prop("P29", "misc", "budget arithmetic: every value of every limit, dimension and amount; decoder_to_vec: every size; decoders: one 3x2 file of each of "
     "12 formats with every width and height limit", j)

# ------------------------------------------------------------------ P30
j = [J("formats_guess", [n], reach=3 if n > 1 else 2) for n in range(0, 21)]
j += [J("formats_ext", [n, m], reach=3 if 2 <= n <= 4 else 2) for n in range(0, 7) for m in (0, 1) if n or not m]
mimelens = {10: 0}
for n in range(0, 27):
    j += [J("formats_mime", [n], reach=2)]
j += [J("formats_tables", [])]
prop("P30", "misc", "guess_format: every byte string of 0..20 bytes; extensions: every byte string of up to 6 bytes; MIME types: every ASCII string of up to 26 bytes; all 16 formats", j)

# ------------------------------------------------------------------ P31
j = [J("delay_ratio", [], reach=3), J("delay_cmp", [])]
j += [J("delay_to_duration", [d]) for d in (1, 2, 3, 7, 30, 100, 1000, 1001, 65537, 1 << 31, M32)]
j += [J("delay_from_duration", [0, s]) for s in (0, 1, 2, 77, 3600, 1000000, 4294966)]
j += [J("delay_from_duration", [1, ms]) for ms in (M32, M32 - 1, 1 << 31, (1 << 31) - 1, (1 << 31) - 2, 1431655765, 1200000000, 800000000)]
j += [J("delay_from_duration", [2, 0])]
prop("P31", "misc", "ratio round trip and ordering: all u32 values; to Duration: every numerator with 11 denominators; from Duration: every duration above the maximum, "
     "every nanosecond within 8 given milliseconds (from 8e8 ms up) and every whole millisecond within 7 given seconds", j)

# ------------------------------------------------------------------ P32
j = [J("exif_code", [], reach=3)]
j += [J("exif_chunk", [n], reach=3 if n >= 22 else 2) for n in (0, 1, 3, 4, 7, 8, 9, 10, 12, 16, 21, 22, 23, 28, 34, 46)]
j += [J("exif_chunk", [n], reach=3, tier="thorough", time=3000) for n in (58, 70, 94, 120)]
prop("P32", "misc", "all 256 codes; every chunk of 16 lengths from 0 to 46 bytes (up to three directory entries at any offset, both byte orders)", j)

# ------------------------------------------------------------------ P09
j = [J("dyn_basic", [k, w, h, e]) for k in ALL for (w, h, e) in ((2, 2, 0), (3, 1, 5), (0, 2, 1), (1, 1, 0))]
j += [J("dyn_convert", [k, t, w, h]) for k in ALL for t in range(12) for (w, h) in ((1, 1),)]
j += [J("dyn_convert", [k, t, 2, 2]) for k in (U8, RGBA, LA16) for t in (1, 3, 7, 9)]
j += [J("dyn_put", [k, b]) for k in ALL for b in (0, 1)]
j += [J("dyn_grey", [k, w, h, 0]) for k in ALL if k not in (RGB16, RGBA16) for (w, h) in ((1, 1), (2, 3) if k < RGBF else (2, 1))]
j += [J("dyn_grey", [k, 1, 1, c], **T16) for k in (RGB16, RGBA16) for c in (1, 2, 3)]
for op in range(20):
    for k in ALL:
        if k >= RGBF and op in (7, 9, 12, 14):
            continue
        j.append(J("dyn_ops", [k, op, *((4, 2) if op % 2 or op == 16 else (3, 3)), 0 if op in (0, 1, 2, 3, 4, 5, 6, 10, 16, 17, 18) else 9]))
FMT = {0: (U8, RGB, RGBA, L16, RGB16, RGBA16), 1: (RGBA16,), 2: (U8, U8A, RGB, RGBA), 3: (U8, RGB), 4: (RGB, RGBA), 5: (RGB, RGBA)}
j += [J("dyn_write", [f, k, *p]) for f in FMT for k in FMT[f] for p in ((2, 2, 0, 0), (3, 1, 4, 0)) if f != 5]
j += [J("dyn_write", [5, k, *p], **T16) for k in FMT[5] for p in ((1, 1, 0, 0),)]
j += [J("dyn_write", [f, k, 2, 1, 2, 1]) for f in (0, 1, 2) for k in FMT[f]]
j += [J("dyn_load", [k, w, h]) for k in ALL for (w, h) in ((2, 3), (1, 1), (0, 3))]
prop("P09", "dynimg", "all ten variants, every sample value: accessors and whole-buffer views at up to 3x2, all twelve conversion targets at 1x1 and 2x2, pixel put/blend at every coordinate of 2x2 "
     "(blend: 3 alphas over opaque), grayscale at up to 2x3 (16-bit RGB: 1x1 with one free channel), the whole-image operations at 3x3 and 4x2 (filters: one free sample), six lossless formats at 2x2 and 3x1", j)

# ------------------------------------------------------------------ P15
j = [J("tga_roundtrip", [w, h, c, 0]) for c in range(4) for (w, h) in ((1, 1), (3, 2), (5, 3), (300, 2))]
j += [J("tga_roundtrip", [*p], reach=1) for p in ((3, 3, 0, 1), (3, 3, 1, 1), (5, 2, 2, 1), (3, 2, 3, 1), (1, 4, 2, 1), (2, 3, 3, 1))]
j += [J("tga_runs", [*p], reach=1) for p in ((0, 0, 3, 2), (2, 1, 130, 0), (3, 1, 128, 1), (1, 2, 127, 1), (0, 127, 3, 1), (2, 126, 2, 3))]
j += [J("tga_roundtrip", [*p], reach=1, tier="thorough", time=3000) for p in ((4, 4, 0, 1), (5, 3, 1, 1), (5, 3, 3, 1))]
prop("P15", "tga", "all pixel values: uncompressed at sizes up to 300x2; run-length coded at 3x3, 5x2 and 3x2 (every run structure) and runs of 127..132 pixels with symbolic neighbours", j)

# ------------------------------------------------------------------ P21
j = [J("tga_header", [], reach=3)]
j += [J("tga_decode", [*p], reach=7) for p in
      ((2, 24, 2, 2, 13, 0), (2, 32, 2, 2, 17, 0), (2, 255, 2, 2, 17, 0), (10, 24, 2, 1, 9, 0), (10, 32, 1, 2, 10, 0), (11, 8, 2, 2, 9, 0), (11, 16, 2, 2, 9, 0),
       (1, 8, 2, 1, 16, 1), (1, 16, 2, 1, 16, 2), (9, 8, 2, 1, 10, 2), (3, 8, 2, 1, 4, 1), (3, 255, 2, 1, 4, 1))]
j += [J("tga_decode", [255, 255, 2, 1, 4, 0], reach=2)]
prop("P21", "tga", "every byte of the 18 header bytes for opening; pixel data: every file of the given image type with symbolic orientation, map and pixel bytes (4..17 data bytes, 2..4 pixels), "
     "every truncation", j)

# ------------------------------------------------------------------ P16
j = [J("pnm_roundtrip", [*p], reach=1) for p in ((0, 3, 2, 0), (0, 10, 1, 0), (1, 3, 2, 0), (1, 9, 2, 0), (1, 17, 1, 0), (2, 2, 2, 0), (2, 40, 1, 3), (2, 40, 1, 4), (3, 3, 2, 0), (4, 2, 1, 0),
      (5, 2, 1, 0), (6, 2, 1, 0), (7, 2, 1, 0), (8, 2, 1, 0), (9, 2, 1, 0), (3, 70, 3, 0))]
j += [J("pnm_chosen", [3, 100, 2, 1, 0], reach=3), J("pnm_chosen", [3, 255, 2, 1, 0], reach=1), J("pnm_chosen", [3, 1, 2, 2, 0], reach=3)]
j += [J("pnm_chosen", [k, m, 2, 1, x], reach=1 if m == 65535 or m > 254 and not x else 3) for k in (3, 5, 10) for m in (100, 255, 256, 300, 65535) for x in (0, 1)]
j += [J("pnm_chosen", [3, m, 2, 1, 2], reach=1 if m == 65535 else 3) for m in (100, 255, 256, 65535)]
prop("P16", "pnm", "every sample value at sizes up to 70x3 for binary and 40 samples for ASCII (digit counts given), all subtypes and PAM tuple types", j)

# ------------------------------------------------------------------ P22
j = [J("pnm_magic", [], reach=3)]
j += [J("pnm_raster", [*p], reach=3) for p in ((0, 1, 2, 1, 4), (2, 255, 2, 1, 6), (2, 999, 2, 1, 6), (9, 1, 2, 2, 4))]
j += [J("pnm_raster", [*p], reach=1) for p in ((1, 1, 9, 2, 4), (3, 100, 2, 1, 2), (6, 300, 2, 1, 4), (10, 300, 2, 1, 4), (11, 255, 1, 1, 3))]
j += [J("pnm_raster", [5, 40000, 1, 1, 6], reach=1, **T16)]
j += [J("pnm_any", [*p], reach=2) for p in ((1, 4), (2, 4), (3, 5), (4, 4), (5, 6), (6, 6), (7, 7))]
j += [J("pnm_header", [*p], reach=1) for p in ((0, 5), (1, 4), (2, 3))]
j += [J("pnm_pam", [0, 3, 0], reach=3), J("pnm_pam", [1, 5, 2], reach=3), J("pnm_pam", [2, 5, 4], reach=3)]
prop("P22", "pnm", "every raster of the listed subtypes (up to 6 bytes, binary and ASCII) with given headers; every 3..5-byte header text after each magic; PAM headers with symbolic numbers and tuple type text", j)

# ------------------------------------------------------------------ P17
j = [J("ff_roundtrip", p) for p in ((3, 2), (1, 1), (0, 3), (3, 0), (17, 3))]
j += [J("qoi_roundtrip", [1, 1, c, 0]) for c in (0, 1)] + [J("qoi_roundtrip", [2, 1, c, 0]) for c in (0, 1)]
j += [J("qoi_roundtrip", p) for p in ((3, 1, 1, 1), (2, 2, 0, 1), (2, 2, 1, 1), (5, 1, 0, 1), (1, 4, 1, 1))]
j += [J("qoi_roundtrip", p, tier="thorough", time=3000, query_timeout=600) for p in ((3, 1, 0, 0), (2, 1, 1, 0), (3, 2, 1, 2))]
j += [J("qoi_runs", p) for p in ((0, 1, 5), (1, 60, 65))]
j += [J("tiff_roundtrip", [*d, k]) for k in range(6) for d in ((1, 1), (3, 2), (40, 3))]
prop("P17", "simple", "every pixel value: farbfeld up to 17x3, TIFF up to 40x3, QOI at 1x1 and 2x1 with all channels free, up to 2x2 and 5x1 with one free channel, runs of 1..5 and 60..65 pixels", j)

# ------------------------------------------------------------------ P18
j = [J("hdr_rgbe", [c, x, lo, lo + 31 if lo + 31 < 255 else 255], **T16) for lo in range(1, 256, 32) for c, x in ((0, 0), (1, 128), (2, 77))]
j += [J("hdr_precision", [lo, lo + 31 if lo < 224 else 254, m], **T16) for lo in range(0, 255, 32) for m in (0, 127)]
j += [J("hdr_special")]
j += [J("hdr_roundtrip", p) for p in ((3, 2, 0, 0), (7, 3, 1, 0), (1, 9, 3, 2), (8, 1, 1, 0), (8, 1, 0, 0), (8, 1, 2, 0), (9, 1, 3, 2), (8, 2, 1, 2), (0, 3, 0, 0), (3, 0, 0, 0))]
j += [J("hdr_runs", p) for p in ((0, 8, 250, 2, 1), (1, 8, 250, 3, 3), (2, 8, 250, 2, 1), (1, 0, 10, 130, 3), (1, 3, 140, 126, 3), (0, 1, 3, 255, 1))]
j += [J("hdr_wide", [w]) for w in (32767, 32768, 40000)]
prop("P18", "hdr", "every normalised RGBE pixel with one constant component; every f32 with the top 16 mantissa bits free (all exponents); every run structure of one component for scanlines of up to 9 pixels, runs of up to 260 pixels, "
     "scanlines of 32767, 32768 and 40000 pixels", j)

# ------------------------------------------------------------------ P23
j = [J("hdr_decode", p, reach=3, **T16) for p in ((1, 1, 4), (2, 1, 8), (2, 1, 12), (7, 1, 8))]
j += [J("hdr_decode", p, reach=r) for p, r in (((0, 3, 0), 1), ((3, 0, 0), 1), ((1, 1, 3), 2))]
j += [J("hdr_old", [w, h, n], reach=3) for w, h, n in ((3, 2, 4), (4, 1, 4), (9, 1, 4), (300, 1, 3))]
j += [J("hdr_component", [w, c, n], reach=3) for w, c, n in ((8, 0, 4), (8, 1, 5), (9, 2, 4), (9, 3, 4), (130, 1, 4), (254, 0, 4))]
j += [J("hdr_markers", [n], reach=3 if n > 1 else 1) for n in (1, 2, 8, 9, 12)]
j += [J("hdr_text", [n, s, m], reach=r) for n, s, m, r in ((3, 1, 0, 3), (3, 0, 1, 2), (2, 0, 0, 3), (3, 1, 2, 2), (4, 1, 1, 2))]
j += [J("hdr_dims", p, reach=r) for p, r in (((0, 0, 1, 1), 1), ((42949672, 1, 2, 1), 3), ((4294967295, 4294967, 0, 3), 2), ((42949672949, 1, 1, 0), 2), ((1537228672, 1, 1, 1), 2), ((1, 429496729, 0, 1), 3))]
prop("P23", "hdr", "rasters of up to 12 arbitrary bytes, old run-length markers and per-component coding (4..6 arbitrary bytes of one component) for widths up to 300; 2..4 arbitrary header bytes; dimensions with 1..3 free digits", j)

# ------------------------------------------------------------------ P24
j = [J("ff_header", [n], reach=r) for n, r in ((0, 15), (1, 15), (8, 3), (9, 2), (24, 2))]
j += [J("ff_decode", p, reach=r) for p, r in (((2, 1, 16), 1), ((2, 1, 15), 2), ((3, 2, 60), 1), ((0, 5, 0), 1), ((1, 2, 7), 2), ((1, 1, 9), 1))]
j += [J("qoi_header", [n], reach=3 if n == 0 else 2) for n in (0, 1, 6, 14)]
j += [J("qoi_decode", p, reach=3) for p in ((3, 1, 1, 4, 1), (4, 2, 1, 2, 1), (3, 2, 1, 2, 1), (4, 1, 1, 12, 0))]
j += [J("qoi_decode", p, reach=1, tier="thorough", time=3000) for p in ((4, 2, 1, 4, 1), (3, 2, 1, 3, 1), (4, 3, 1, 4, 0))]
prop("P24", "simple", "every farbfeld header (16 bytes) with 0..8 bytes of pixels, every pixel byte at up to 3x2; every QOI header; QOI data of 2..12 arbitrary bytes", j)

# ------------------------------------------------------------------ P20
C = dict(cand=1100)
j = [J("bmp_kinds", [hs, b, 0, 3, 2, fl, 0, gap, 0], **C) for hs in (40, 124) for b in (16, 24, 32) for fl, gap in ((0, 5), (1, 0), (2, 0), (3, 0), (4, 3))]
j += [J("bmp_kinds", [hs, b, 0, w, 2, fl, u, 0, 0], **C) for hs in (40, 52) for b, w, u in ((1, 9, 0), (1, 33, 2), (2, 5, 3), (4, 3, 0), (4, 9, 5), (8, 3, 0), (8, 5, 7)) for fl in (0, 1, 2, 4, 7)]
j += [J("bmp_kinds", [12, b, 0, w, 2, fl, 0, 0, 0], **C) for b, w in ((1, 9), (4, 3), (8, 3), (24, 3)) for fl in (0, 2, 4)]
j += [J("bmp_kinds", [hs, b, 3, w, 2, fl, 0, 0, 0, m], **C) for hs in (40, 52, 56, 108) for b, w, ms in ((16, 3, 4), (32, 2, 6)) for m in range(ms) for fl in (0, 3)]
j += [J("bmp_kinds", [hs, b, c, 3, 2, fl, 0, 0, less, 0], reach=2, **C) for hs, b, c in ((40, 24, 0), (40, 1, 0), (12, 8, 0), (56, 32, 3), (40, 16, 0)) for fl in (0, 1) for less in (1, 2, 7)]
j += [J("bmp_rle", [k, w, h, n, fl], reach=3, **C) for k in (1, 2) for w, h, n, fl in ((3, 2, 7, 0), (2, 3, 7, 0), (3, 2, 6, 4), (5, 1, 6, 0))]
j += [J("bmp_rle", [k, w, h, n, fl], reach=3, time=850, tier="thorough", **C) for k in (1, 2) for w, h, n, fl in ((5, 3, 9, 0), (2, 3, 9, 0), (4, 2, 9, 4), (1, 4, 10, 0))]
j += [J("bmp_masks", [b, c], reach=3) for b in (16, 32) for c in (0, 1, 2, 3)]
j += [J("bmp_header", [hs, 14 + max(hs, 28), 0], reach=3) for hs in (12, 40, 52, 56, 108, 124)] + [J("bmp_header", [40, 40, 1], reach=3), J("bmp_header", [12, 20, 1], reach=3)]
j += [J("bmp_header", [0, n, 0], reach=2) for n in (0, 1, 2, 13, 17, 18)]
prop("P20", "bmp", "files of every header size (12, 40, 52, 56, 108, 124), bit depth and compression of up to 33x2 pixels with free palette, pixels and unused fields; "
     "run-length streams of any 6-7 (thorough: 9-10) bytes over images of 2x3 to 5x1; every contiguous mask and every mask one bit off that; every header of the known sizes", j,
     ["images stored from the top taller than 65535 are not judged"])

# ------------------------------------------------------------------ P25
j = [J("dds_blocks", [k, *d, m, 0]) for k in range(3) for d, m in (((1, 1), 0), ((2, 1), 1), ((2, 2), 2), ((1, 3), 1))]
j += [J("dds_blocks", [k, 2, 1, 1, 0]) for k in (3, 4, 5)] + [J("dds_blocks", [k, 2, 2, 1, m]) for k in range(3) for m in (1, 8)]
j += [J("dds_header", [n, m], reach=r) for n, m, r in ((0, 0, 2), (3, 0, 2), (127, 0, 2), (128, 0, 7), (147, 0, 7), (148, 16383, 7), (160, 40, 7), (192, 8, 7))]
j += [J("dds_blocks", [k, 3, 2, 0, 0], tier="thorough") for k in range(3)] + [J("dds_header", [n, 8], reach=7, tier="thorough") for n in (136, 208, 276)]
prop("P25", "dds", "every block of DXT1, DXT3 and DXT5 (64 and 128 bits) at every place of images up to 2x2 and 1x3 blocks; every file of 0, 3, 127, 128, 147 bytes; every "
     "file of 148 to 192 bytes with sizes up to 16383, 40, 8", j)

# ------------------------------------------------------------------ P35
j = [J("bmp_rect", [w, h, c, e], reach=3) for (w, h) in ((2, 2), (3, 1)) for c in (0, 1, 2) for e in (0, 2)]
j += [J("bmp_rect", [3, 2, c, 1], reach=3, tier="thorough") for c in (0, 1, 2)]
prop("P35", "bmp", "two rectangles in a row, any position and size, from BMP images of 2x2, 3x1 (thorough 3x2)", j)

# ------------------------------------------------------------------ P33
j = [J("gif_frames", p) for p in ((2, 2, 1, 0), (3, 2, 2, 1021, 0), (3, 2, 2, 32, 0), (2, 2, 2, 0, 1111), (3, 2, 3, 1111, 32, 21), (1, 1, 4, 11, 11, 11, 11), (3, 3, 3, 33, 1111, 121), (0, 2, 1, 11), (2, 0, 1, 21))]
j += [J("apng_frames", p) for p in ((1, 1, 3, 0, 1), (2, 1, 4, 0, 1), (2, 1, 4, 0, 2, 0, 1011), (2, 1, 4, 0, 3, 0, 1011, 21), (2, 1, 4, 1, 3, 1011, 21, 11), (3, 1, 2, 1, 3, 31, 1021, 2011), (2, 1, 1, 0, 4, 0, 1011, 11, 11),
      (2, 1, 3, 0, 4, 0, 11, 11, 1011), (2, 2, 2, 1, 2, 0, 0), (3, 2, 1, 0, 3, 0, 0, 1022), (3, 2, 1, 1, 3, 32, 0, 21))]
j += [J("gif_frames", p, tier="thorough", time=1500) for p in ((2, 2, 3, 22, 0, 1111), (3, 2, 4, 1111, 21, 32, 2021), (3, 3, 2, 0, 1122))]
j += [J("apng_frames", p, tier="thorough", time=1500) for p in ((3, 2, 1, 0, 4, 0, 0, 1022, 22), (3, 1, 2, 1, 3, 31, 0, 0), (2, 2, 2, 0, 3, 0, 0, 0))]
prop("P33", "anim", "GIF: up to 4 frames on canvases up to 3x3 with any position (also outside the canvas), size, disposal method, transparent index and palette colour; APNG: up to 4 frames on canvases up to 3x2, "
     "L8, La8, Rgb8, Rgba8, any rectangle, disposal and blend operation and colour, alpha 0, 255 or 100, with and without separate default image; any delay", j,
     ["image data are valid streams: the LZW codes of a GIF are fixed and its colours free, APNG data are stored deflate blocks"])

# ------------------------------------------------------------------ P26
j = [J("ico_dir", [n, c], reach=r, **C) for n, c, r in ((0, 0, 2), (1, 0, 7), (2, 0, 7), (3, 0, 7), (4, 0, 7), (2, 1, 2), (2, 40, 2), (2, 85, 2), (2, 88, 2), (1, 45, 2))]
j += [J("ico_bitmap", [w, h, k, 0, 0, 0], **C) for w, h, k in ((2, 2, 32), (3, 2, 24), (3, 2, 16), (3, 2, 8), (3, 2, 4), (9, 2, 1), (33, 2, 32), (8, 3, 24), (32, 1, 8), (3, 2, 108))]
j += [J("ico_bitmap", p, reach=r, **C) for p, r in (((3, 1, 108, 1, 0, 0), 1), ((2, 2, 24, 1, 0, 0), 1), ((2, 2, 24, 1, 8, 0), 1), ((2, 2, 32, 4, 0, 0), 1), ((2, 2, 24, 2, 0, 0), 2), ((2, 2, 24, 3, 0, 0), 2), ((2, 2, 24, 0, 1, 0), 2),
      ((2, 2, 24, 1, 9, 0), 2), ((2, 2, 24, 0, 0, 1), 2), ((2, 2, 24, 0, 0, 2), 2), ((2, 2, 24, 0, 0, 3), 2))]
j += [J("ico_png", p, reach=r, **C) for p, r in (((1, 1, 6, 0, 0, 0), 1), ((1, 1, 6, 1, 0, 0), 2), ((1, 1, 6, 0, 1, 0), 2), ((1, 1, 6, 0, 0, 1), 2), ((1, 1, 4, 0, 0, 0), 2), ((1, 1, 2, 0, 0, 0), 2), ((1, 1, 0, 0, 0, 0), 2))]
j += [J("ico_header", p, reach=15, **C) for p in ((32, 0, 16, 2), (24, 0, 20, 2), (8, 1, 24, 2), (16, 3, 30, 2), (1, 0, 20, 2))]
j += [J("ico_any", [n, e], reach=r, **C) for n, e, r in ((0, 1, 1), (5, 0, 1), (21, 1, 1), (22, 1, 3), (46, 1, 3), (40, 2, 3), (54, 2, 3))]
j += [J("ico_bitmap", p, tier="thorough", **C) for p in ((65, 2, 24, 0, 0, 0), (5, 5, 8, 0, 0, 0), (4, 3, 108, 0, 0, 0))] + [J("ico_png", [2, 1, 6, 0, 0, 0], tier="thorough", **C), J("ico_header", [4, 2, 30, 2], reach=15, tier="thorough", **C),
      J("ico_dir", [6, 0], reach=7, tier="thorough", **C), J("ico_any", [66, 1], reach=3, tier="thorough", **C)]
prop("P26", "ico", "every directory of up to 4 entries (free sizes, planes and depths) over images of different sizes; bitmaps of 1, 4, 8 (also run-length), 16, 24, 32 bits up to 33x2 with every mask, palette and pixel; recorded lengths "
     "with, without and short of the mask; embedded PNG of 1x1 of each 8-bit kind; every 40-byte bitmap header over images up to 2x2; every 0 to 54 bytes with one or two entries", j,
     ["PNG data are stored deflate blocks"])

# ------------------------------------------------------------------ P34
SUP = {0: (0, 1, 2, 3), 1: (0, 1, 2, 3), 2: (0, 3), 3: (7,), 4: (8,), 5: (0, 1, 2, 3, 10), 6: (0, 10), 7: (0,), 8: (2,), 9: (0, 10), 10: (0,), 11: (2,), 12: (0, 1, 2, 3, 10), 13: (0, 2), 14: (0, 1, 2, 3), 15: (2, 3), 16: (0, 2, 3, 4, 6, 7), 17: tuple(range(8)),
       18: tuple(range(8)), 19: (2, 3)}
LAZY = (14, 15, 16, 18, 19)
j = []
for e, cs in SUP.items():
    for c in range(24):
        ok = c in cs
        j += [J("enc_small", [e, c], reach=10 if ok and c != 10 else 14 if ok else 2, tier="quick" if ok or (c + e) % 4 == 0 else "thorough", **C)]
        if ok and c != 10 or (c + e) % 6 == 1:
            for w, h in ((0, 2), (4, 0)) if (e, c) != (19, 3) else ():
                j += [J("enc_sizes", [e, c, w, h], reach=0 if e == 17 and c >= 4 else 2 if ok and 3 <= e <= 12 else 0 if e in (16, 18) else 3 if ok and not e in LAZY else 1, **C)]
            if not ok or 4 <= e <= 12:
                j += [J("enc_sizes", [e, c, 0, 0], reach=2 if ok else 0 if e in (16, 18) else 1, **C)]
for c, w, h in ((0, 0, 4097), (1, 65537, 0), (2, 0, 40001), (3, 0, 32769), (2, 1 << 31, 0), (3, 0, 1 << 31)):
    j += [J("enc_sizes", [0, c, w, h], reach=1 if (1 << 31) in (w, h) else 3, **C)]
j += [J("enc_icon", [], reach=7, **C)] + [J("enc_palette", p, **C) for p in ((0, 0, 2, 1), (1, 0, 2, 1), (256, 0, 2, 1), (257, 0, 2, 1), (257, 1, 0, 3), (16, 2, 1, 1), (300, 1, 1, 2))]
prop("P34", "enc", "all 20 encoders and PNM subtypes with all 24 colour types: sizes up to 2x2 with every length around the right one; one free side (any u32, HDR and PNM: 13 numbers of all decimal lengths) with the other 1, 3 or larger and any length up to 2^63 of a "
     "buffer that may not be touched, up to the header; icons of every size; palettes of 0 to 300 colours", j,
     ["the contents of the small buffers are fixed; TIFF, ICO and GIF are only given wrong lengths or sizes beyond their headers when a side is free"])

# ------------------------------------------------------------------ P27
j = [J("jpeg_fdct", [g, 0, 64], **C) for g in (0, 1, 2, 3)] + [J("jpeg_fdct2", [3, a, b]) for a, b in ((0, 63), (5, 6), (8, 48), (27, 36), (7, 56))]
j += [J("jpeg_fdct_extreme", [0, 64], **C), J("jpeg_fdct_free", [])]
j += [J("jpeg_ycbcr", [7]), J("jpeg_quality", [0, 255], **C), J("jpeg_sizes", [0]), J("jpeg_sizes", [1], **C)]
j += [J("jpeg_extras", [n]) for n in (0, 1, 65519, 65520, 131039)] + [J("jpeg_types", [k]) for k in range(14)]
j += [J("jpeg_file", p, **C) for p in ((1, 1, 0, 75, 1, 0, 0), (1, 1, 0, 0, 1, 0, 0), (1, 1, 2, 255, 1, 0, 0), (8, 8, 0, 50, 1, 9, 0), (8, 8, 0, 30, 3, 63, 0), (16, 9, 2, 60, 1, 280, 0), (8, 8, 1, 75, 1, 3, 0), (3, 9, 3, 85, 1, 100, 0),
      (17, 3, 2, 20, 1, 20, 0), (5, 12, 3, 75, 2, 7, 0), (9, 9, 1, 50, 1, 0, 0), (8, 8, 0, 75, 1, 3, 0))]
j += [J("jpeg_entropy", [l, 1, 1, k], **C) for l in (0, 1) for k in (1, 2, 15, 16, 17, 33, 49, 62, 63)] + [J("jpeg_entropy", [l, 2, 0], **C) for l in (0, 1)]
j += [J("jpeg_entropy", p, tier="thorough", time=1500, **C) for p in ((1, 1, 2, 1, 63), (0, 1, 2, 16, 50), (1, 2, 1, 0), (0, 2, 1, 105))] + [J("jpeg_file", p, tier="thorough", time=1500, **C) for p in ((8, 8, 0, 95, 1, 0, 0), (10, 2, 1, 40, 3, 55, 0), (8, 8, 1, 90, 1, 3, 0))]
prop("P27", "jpeg", "transform: all 64 samples free (no overflow, within 8 eighths of a unit), colour conversion: every pixel; every quality 0 to 255; every size with a side of zero or over 65535, sizes up to 9x17; entropy coding: one block with every "
     "DC and one AC coefficient, two blocks with every DC; files up to 17x12 with one free byte, each pixel kind; ICC profiles of up to 131039 bytes; every density", j)

# ------------------------------------------------------------------ P28
j = [J("yuv_exact", [8, 3, m, f, k, (m + k + f) % 4], **T16) for m in range(5) for f in (0, 1) for k in (7, 3, 5, 6)]
j += [J("yuv_exact", [d, 3, m, f, k, 4], tier="quick" if (m + f + d // 2) % 2 else "thorough", **T16) for d in (10, 12) for m in range(5) for f in (0, 1) for k in (1, 2, 4)]
j += [J("yuv_exact", [d, 3, 5, f, k, 4 if k != 7 else 0], **T16) for d in (8, 10, 12) for f in (0, 1) for k in (7, 1, 2, 4) if (d == 8) == (k == 7)]
j += [J("yuv_exact", [d, 0, d // 2 - 4, f, 1, 0], **T16) for d in (8, 10, 12) for f in (0, 1)]
j += [J("yuv_siting", [d, l, m, f, w, h, p], **T16) for d in (8, 10, 12) for l in (0, 1, 2, 3) for m, f, w, h, p in ((0, 1, 3, 3, 1), (1, 0, 4, 2, 0))]
j += [J("yuv_siting", [d, 3, 5, f, 3, 2, 1], **T16) for d in (8, 10, 12) for f in (0, 1)]
j += [J("yuv_siting", p, **T16) for p in ((8, 1, 0, 1, 1, 1, 0), (8, 1, 0, 0, 1, 4, 2), (8, 2, 2, 0, 1, 2, 1), (10, 1, 3, 0, 5, 1, 1), (12, 2, 4, 0, 5, 2, 0))]
j += [J("yuv_sizes", [d, l, 0, 1, w, h], reach=3) for d in (8, 10, 12) for l, w, h in ((0, 3, 2), (1, 3, 3), (2, 2, 2), (3, 2, 2))]
j += [J("yuv_sizes", [8, 3, 5, 0, 2, 2], reach=3)]
j += [J("yuv_siting", [d, l, m, f, 6, 5, 1], tier="thorough", **T16) for d in (8, 10, 12) for l in (1, 2, 3) for m in (0, 3) for f in (0, 1)]
prop("P28", "yuv", "8 bits: every two samples at four settings of the third, red and blue over all three, every matrix and both ranges; 10 and 12 bits: every value of one sample at 16 settings of the others; siting: every layout, sizes up to 5x4 (thorough 6x5), padded rows; "
     "every plane length up to a row too long, five output lengths", j,
     ["src/codecs/avif/yuv.rs is compiled on its own, the AV1 decoder that calls it is not installed here: alpha, the choice of the matrix and the hand-over of planes are outside"])

# ------------------------------------------------------------------ P37
j = [J("tga_truncated", [*p], reach=3, bin="tga") for p in ((2, 2, 2, 0), (2, 2, 2, 1), (3, 2, 0, 1))]
j += [J("pnm_truncated", [*p], reach=3, bin="pnm") for p in ((2, 2, 2), (5, 2, 1), (0, 2, 1))]
j += [J("ff_truncated", p, reach=3, bin="simple") for p in ((2, 1), (1, 3))]
j += [J("hdr_truncated", p, reach=1, bin="hdr") for p in ((2, 2), (8, 1), (9, 1))]
j += [J("bmp_truncated", p, reach=3, bin="bmp") for p in ((2, 2, 1, 0), (3, 1, 2, 0), (5, 1, 0, 0))] + [J("bmp_truncated", [5, 1, 0, o], reach=0, bin="bmp") for o in (200, 400, 600, 800, 1000)]
prop("P37", "tga", "every cut position and pixel value of files of up to 3x2 pixels", j)

NOT_APPLICABLE = {
    "P36": "the parallel iterators hand work to rayon's thread pool; the executor models one thread, so schedules are out of its reach",
}
