#![cfg_attr(rustfmt, rustfmt_skip)]
//! P25 DDS with DXT1, DXT3, DXT5 blocks.
use hx::*;
use image::codecs::dds::DdsDecoder;
use image::*;

fn header(w: u32, h: u32, kind: usize) -> Vec<u8> {
    let mut f = b"DDS ".to_vec();
    f.extend(124u32.to_le_bytes());
    f.extend(0x1007u32.to_le_bytes());
    f.extend(h.to_le_bytes());
    f.extend(w.to_le_bytes());
    f.extend(vec(12 + 44));
    f.extend(32u32.to_le_bytes());
    f.extend(4u32.to_le_bytes());
    f.extend([b"DXT1", b"DXT3", b"DXT5", b"DX10", b"DX10", b"DX10"][kind]);
    f.extend(vec(20 + 8 + 12));
    if kind > 2 {
        f.extend([70 + 3 * (kind as u32 - 3), 3, 0, 1, 0].map(|x| x.to_le_bytes()).concat());
    }
    f
}
/// The colours of a block by definition: 16 pixels of RGB.
fn colors(b: &[u8], three: bool) -> [[u8; 3]; 16] {
    let c0 = b[0] as u32 | (b[1] as u32) << 8;
    let c1 = b[2] as u32 | (b[3] as u32) << 8;
    let full = |c: u32| [(c >> 11) * 255 / 31, ((c >> 5) & 63) * 255 / 63, (c & 31) * 255 / 31];
    let (a, z) = (full(c0), full(c1));
    let mut t = [[0u8; 3]; 4];
    for c in 0..3 {
        t[0][c] = a[c] as u8;
        t[1][c] = z[c] as u8;
        if !three || c0 > c1 {
            t[2][c] = ((2 * a[c] + z[c] + 1) / 3) as u8;
            t[3][c] = ((a[c] + 2 * z[c] + 1) / 3) as u8;
        } else {
            t[2][c] = ((a[c] + z[c] + 1) / 2) as u8;
        }
    }
    let mut out = [[0; 3]; 16];
    for i in 0..16 {
        out[i] = t[((b[4 + i / 4] >> (2 * (i % 4))) & 3) as usize];
    }
    out
}
fn alphas(b: &[u8], kind: usize) -> [u8; 16] {
    let mut t = [b[0], b[1], 0, 0, 0, 0, 0, 255];
    let (a, z) = (b[0] as u32, b[1] as u32);
    for k in 2..8 {
        if a > z {
            t[k as usize] = (((8 - k) * a + (k - 1) * z) / 7) as u8;
        } else if k < 6 {
            t[k as usize] = (((6 - k) * a + (k - 1) * z) / 5) as u8;
        }
    }
    let mut out = [255; 16];
    for i in 0..16 {
        if kind == 1 {
            out[i] = ((b[i / 2] >> (4 * (i % 2))) & 15) * 17;
        } else if kind == 2 {
            let mut k = 0;
            for j in 0..3 {
                let bit = 3 * i + j;
                k |= ((b[2 + bit / 8] >> (bit % 8)) & 1) << j;
            }
            out[i] = t[k as usize];
        }
    }
    out
}
/// Free blocks; params: kind (0 to 2 DXT1, 3, 5; 3 to 5 the same by DX10 header), blocks per row, rows of blocks, what is free of one block (0 all, 1 ends, 2 indices), bytes missing at the end
#[no_mangle]
#[inline(never)]
pub extern "C" fn dds_blocks() {
    let (kind, bw, bh) = (param(0) % 3, param(1), param(2));
    let mut f = header(4 * bw as u32, 4 * bh as u32, param(0));
    let start = f.len();
    let n = if kind == 0 { 8 } else { 16 };
    let free = each(0, (bw * bh) as u8 - 1) as usize;
    for b in 0..bw * bh {
        if b == free {
            let mut v = vec(n);
            let o = n - 8;
            if param(3) == 1 {
                // all four in each row, but for the alphas
                v[o + 4..].fill(0xe4);
                if n == 16 {
                    v[2..8].copy_from_slice(&[0x88, 0xc6, 0xfa, 0x77, 0x39, 0x05]);
                }
            } else if param(3) == 2 {
                v[o..o + 4].copy_from_slice(&[0x34, 0xc2, 0x7a, 0x15]);
                if n == 16 && kind == 2 {
                    v[..2].copy_from_slice(&[0x34, 0xc2]);
                }
            }
            f.extend(v);
        } else {
            f.extend((0..n).map(|i| (37 * i + 101 * b + 13) as u8));
        }
    }
    f.truncate(f.len() - param(4));
    let d = DdsDecoder::new(&f[..]).unwrap();
    ck!(d.dimensions() == (4 * bw as u32, 4 * bh as u32));
    let ch = if kind == 0 { 3 } else { 4 };
    ck!(d.color_type() == if kind == 0 { ColorType::Rgb8 } else { ColorType::Rgba8 });
    ck!(d.total_bytes() == (16 * bw * bh * ch) as u64);
    let mut out = vec![any_u8(); 16 * bw * bh * ch];
    merge(1);
    let r = d.read_image(&mut out);
    if param(4) > 0 {
        ck!(r.is_err());
        reach(0);
        return;
    }
    r.unwrap();
    observe(&out);
    for b in 0..bw * bh {
        let e = &f[start + b * n..][..n];
        let c = colors(&e[n - 8..], kind == 0);
        let a = alphas(e, kind);
        for i in 0..16 {
            let p = ((b / bw * 4 + i / 4) * 4 * bw + b % bw * 4 + i % 4) * ch;
            for k in 0..3 {
                ck!(out[p + k] == c[i][k]);
            }
            if ch == 4 {
                ck!(out[p + 3] == a[i]);
            }
        }
    }
    reach(0);
}
/// Any bytes; params: length, greatest width and height (0: any)
#[no_mangle]
#[inline(never)]
pub extern "C" fn dds_header() {
    let f = vec(param(0));
    let u = |i: usize| u32::from_le_bytes([f[i], f[i + 1], f[i + 2], f[i + 3]]);
    let len = f.len();
    if param(1) > 0 && len >= 20 {
        assume(u(12) <= param(1) as u32 && u(16) <= param(1) as u32);
    }
    alloc_mark();
    let r = DdsDecoder::new(&f[..]);
    ck!(alloc_peak() < 10_000);
    let sound = len >= 128 && &f[..4] == b"DDS " && u(4) == 124 && u(8) & 0x1007 == 0x1007 && u(8) & !0x008a_100f == 0 && u(76) == 32 && u(80) & 4 != 0;
    let dx10 = sound && &f[84..88] == b"DX10";
    let kind = if !sound { 9 }
        else if &f[84..88] == b"DXT1" { 0 }
        else if &f[84..88] == b"DXT3" { 1 }
        else if &f[84..88] == b"DXT5" { 2 }
        else if dx10 && len >= 148 && u(128) >= 70 && u(128) <= 78 && u(132) >= 2 && u(132) <= 4 && (u(136) == 0 || u(136) == 4) && (u(132) != 4 || u(140) == 1) && u(144) <= 4 { (u(128) - 70) / 3 }
        else { 9 };
    match r {
        Ok(d) => {
            ck!(kind < 9);
            let (w, h) = (u(16), u(12));
            ck!(w % 4 == 0 && h % 4 == 0);
            ck!(d.dimensions() == (w, h));
            ck!(d.color_type() == if kind == 0 { ColorType::Rgb8 } else { ColorType::Rgba8 });
            ck!(d.total_bytes() == w as u64 * h as u64 * if kind == 0 { 3 } else { 4 });
            let rest = (len - if dx10 { 148 } else { 128 }) as u64;
            let need = (w / 4) as u64 * (h / 4) as u64 * if kind == 0 { 8 } else { 16 };
            if w <= 8 && h <= 8 {
                let n = conc(d.total_bytes()) as usize;
                let mut b = vec![0; n];
                ck!(d.read_image(&mut b).is_ok() == (need <= rest));
                reach(2);
            }
            reach(0);
        }
        Err(_) => {
            ck!(kind == 9 || u(16) % 4 != 0 || u(12) % 4 != 0 || u(16) as u128 * u(12) as u128 * if kind == 0 { 3 } else { 4 } > u64::MAX as u128);
            reach(1);
        }
    }
}
harnesses!(dds_blocks, dds_header);
