//! PNG files with stored data and matching check sums.
/// Append a PNG chunk.
pub fn chunk(f: &mut Vec<u8>, kind: &[u8; 4], data: &[u8]) {
    f.extend((data.len() as u32).to_be_bytes());
    f.extend(kind);
    f.extend(data);
    // in the same pieces as the decoder, so that the two values are the same expression
    let mut c = crc32fast::Hasher::new();
    c.update(kind);
    if kind == b"fdAT" {
        c.update(&data[..4]);
        c.update(&data[4..]);
    } else {
        c.update(data);
    }
    f.extend(c.finalize().to_be_bytes());
}
/// Uncompressed zlib stream of unfiltered rows.
pub fn stored(rows: &[u8], stride: usize) -> Vec<u8> {
    let mut d = Vec::new();
    for r in rows.chunks(stride) {
        d.push(0);
        d.extend(r);
    }
    let mut z = vec![0x78, 1, 1];
    z.extend((d.len() as u16).to_le_bytes());
    z.extend((!(d.len() as u16)).to_le_bytes());
    z.extend(d);
    z.extend([0; 4]);
    z
}
/// A still image; color is the PNG colour type.
pub fn still(w: u32, h: u32, color: u8, depth: u8, rows: &[u8]) -> Vec<u8> {
    let mut f = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut d = [w.to_be_bytes(), h.to_be_bytes()].concat();
    d.extend([depth, color, 0, 0, 0]);
    chunk(&mut f, b"IHDR", &d);
    if !rows.is_empty() {
        chunk(&mut f, b"IDAT", &stored(rows, rows.len() / h as usize));
    }
    chunk(&mut f, b"IEND", &[]);
    f
}
