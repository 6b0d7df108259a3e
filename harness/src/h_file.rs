//! P27 a whole file: bytes -> metadata (through the cache) -> tile -> pixels
use crate::rt::*;
use async_tiff::decoder::DecoderRegistry;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::TypedArray;

fn numbers(tag: u16, v: &[u64], wide: bool, big: bool, be: bool, tail: &mut Vec<u8>, tail_at: u64) -> Entry {
    let (typ, size) = if !wide { (3, 2) } else if big { (16, 8) } else { (4, 4) };
    let mut raw = vec![];
    for x in v {
        put(&mut raw, *x, size, be);
    }
    let mut field = raw.clone();
    if raw.len() > off_size(big) {
        field = vec![];
        put(&mut field, tail_at + tail.len() as u64, off_size(big), be);
        tail.extend_from_slice(&raw);
    }
    Entry { tag, typ, count: v.len() as u64, field }
}

struct Image {
    w: u64,
    h: u64,
    tw: u64,
    th: u64,
    spp: u64,
    planar: bool,
    size: usize,
    predictor: u16,
    /// stored bytes of tile (band, y, x) in file order
    tiles: Vec<Vec<u8>>,
}
impl Image {
    fn grid(&self) -> (u64, u64) {
        ((self.w + self.tw - 1) / self.tw, (self.h + self.th - 1) / self.th)
    }
    /// what a tile decodes to, in the order of the array
    fn want(&self, x: u64, y: u64, be: bool) -> Vec<u64> {
        let (nx, ny) = self.grid();
        let (bands, n) = if self.planar { (self.spp, 1) } else { (1, self.spp) };
        let mask = if self.size == 8 { u64::MAX } else { (1 << (8 * self.size)) - 1 };
        let mut out = vec![];
        for b in 0..bands {
            let t = &self.tiles[((b * ny + y) * nx + x) as usize];
            if self.predictor == 3 {
                let per = (self.tw * n) as usize;
                for row in t.chunks(per * self.size) {
                    let mut r = row.to_vec();
                    for i in n as usize..r.len() {
                        r[i] = r[i].wrapping_add(r[i - n as usize]);
                    }
                    for i in 0..per {
                        out.push((0..self.size).fold(0, |v, p| v << 8 | r[p * per + i] as u64));
                    }
                }
                continue;
            }
            for row in 0..self.th {
                let mut sum = vec![0u64; n as usize];
                for col in 0..self.tw {
                    for k in 0..n {
                        let i = (((row * self.tw + col) * n + k) as usize) * self.size;
                        let v = get(&t[i..i + self.size], be);
                        sum[k as usize] = if self.predictor == 2 { sum[k as usize].wrapping_add(v) & mask } else { v };
                        out.push(sum[k as usize]);
                    }
                }
            }
        }
        out
    }
}
fn flat(a: &TypedArray) -> Vec<u64> {
    match a {
        TypedArray::UInt8(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt16(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::Int16(v) => v.iter().map(|x| *x as u16 as u64).collect(),
        TypedArray::UInt32(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::Float32(v) => v.iter().map(|x| x.to_bits() as u64).collect(),
        TypedArray::Float64(v) => v.iter().map(|x| x.to_bits()).collect(),
        _ => vec![],
    }
}

/// P27: two directories (image and overview) in any layout; all tiles of both
#[no_mangle]
pub extern "C" fn h27_file() {
    let big = flag("bigtiff");
    let be = flag("big_endian");
    let planar = flag("planar");
    let spp = 1 + choice(by_tier(2, 3), "samples") as u64;
    let kinds: &[(u16, usize)] = if thorough() { &[(1, 1), (1, 2), (2, 2), (1, 4), (3, 4), (3, 8)] } else { &[(1, 1), (2, 2), (3, 4)] };
    let (format, size) = pick(kinds, "type");
    let predictor = 1 + choice(if format == 3 { 3 } else { 2 }, "predictor") as u16;
    // an image of several tiles, the last ones over its edge, and an overview that fills its only
    // tile or is smaller than it
    let sizes: &[[(u64, u64, u64, u64); 2]] = if thorough() {
        &[[(3, 3, 2, 2), (2, 2, 2, 2)], [(5, 3, 3, 2), (1, 1, 4, 3)], [(2, 9, 4, 2), (3, 1, 3, 3)]]
    } else {
        &[[(3, 2, 2, 1), (2, 1, 2, 1)], [(5, 3, 3, 2), (1, 1, 4, 3)]]
    };
    let sizes = pick(sizes, "sizes");
    let mut images = vec![];
    for (w, h, tw, th) in sizes {
        let mut im = Image { w, h, tw, th, spp, planar, size, predictor, tiles: vec![] };
        let (nx, ny) = im.grid();
        let per = (im.tw * im.th) as usize * size * if planar { 1 } else { spp as usize };
        for _ in 0..nx * ny * if planar { spp } else { 1 } {
            im.tiles.push(sym_vec(per, "tile"));
        }
        images.push(im);
    }
    // layout: header, [directories first | data first], tiles of one image in reverse order
    let data_first = flag("data_first");
    let mut file = vec![0u8; 16];
    let mut heads = vec![];
    let place = |file: &mut Vec<u8>, im: &Image| -> Vec<u64> {
        let mut at = vec![0; im.tiles.len()];
        for i in (0..im.tiles.len()).rev() {
            at[i] = file.len() as u64;
            file.extend_from_slice(&im.tiles[i]);
        }
        at
    };
    let mut offsets = vec![];
    let n = 12usize;
    let dir_len = count_size(big) + n * entry_size(big) + off_size(big);
    let tail_len = 500;
    if data_first {
        for im in &images {
            offsets.push(place(&mut file, im));
        }
        for _ in 0..2 {
            heads.push(file.len() as u64);
            file.resize(file.len() + dir_len + tail_len, 0xCC);
        }
    } else {
        for _ in 0..2 {
            heads.push(file.len() as u64);
            file.resize(file.len() + dir_len + tail_len, 0xCC);
        }
        for im in &images {
            offsets.push(place(&mut file, im));
        }
    }
    // the overview's directory may lie before the image's
    if flag("swapped") {
        heads.swap(0, 1);
    }
    let mut head = if be { b"MM".to_vec() } else { b"II".to_vec() };
    put(&mut head, if big { 43 } else { 42 }, 2, be);
    if big {
        put(&mut head, 8, 2, be);
        put(&mut head, 0, 2, be);
    }
    put(&mut head, heads[0], off_size(big), be);
    file[..head.len()].copy_from_slice(&head);
    for i in 0..2 {
        let im = &images[i];
        let tail_at = heads[i] + dir_len as u64;
        let mut tail = vec![];
        let per = im.tiles[0].len() as u64;
        let mut s = |tag, v: &[u64], wide| numbers(tag, v, wide, big, be, &mut tail, tail_at);
        let e = vec![
            s(256, &[im.w], false),
            s(257, &[im.h], true),
            s(258, &vec![8 * size as u64; spp as usize], false),
            s(262, &[1], false),
            s(277, &[spp], false),
            s(284, &[if planar { 2 } else { 1 }], false),
            s(317, &[predictor as u64], false),
            s(322, &[im.tw], false),
            s(323, &[im.th], true),
            s(324, &offsets[i], true),
            s(325, &vec![per; im.tiles.len()], false),
            s(339, &vec![format as u64; spp as usize], false),
        ];
        check(e.len() == n && tail.len() <= tail_len, "harness: layout");
        let d = put_ifd(&e, if i == 0 { heads[1] } else { 0 }, big, be);
        let at = heads[i] as usize;
        file[at..at + d.len()].copy_from_slice(&d);
        file[tail_at as usize..tail_at as usize + tail.len()].copy_from_slice(&tail);
    }
    let mut f = SparseFile::of(file);
    f.truncate = true;
    let tiff = block_on(async {
        if flag("cache") {
            let c = ReadaheadMetadataCache::new(f.clone()).with_initial_size(pick(&[16u64, 4096], "initial"));
            let mut m = TiffMetadataReader::try_open(&c).await?;
            m.read(&c).await
        } else {
            let mut m = TiffMetadataReader::try_open(&f).await?;
            m.read(&f).await
        }
    });
    let tiff = match tiff {
        Ok(t) => t,
        Err(_) => return check(false, "P27: a well-formed file was not read"),
    };
    check(tiff.ifds().len() == 2, "P27: wrong number of images");
    let reg = DecoderRegistry::default();
    for (im, d) in images.iter().zip(tiff.ifds()) {
        let (nx, ny) = im.grid();
        check(d.tile_count() == Some((nx as usize, ny as usize)), "P27: wrong number of tiles");
        let xy: Vec<(usize, usize)> = (0..nx * ny).map(|i| ((i % nx) as usize, (i / nx) as usize)).collect();
        let tiles = match block_on(d.fetch_tiles(&xy, &f)) {
            Ok(t) => t,
            Err(_) => return check(false, "P27: tiles were not fetched"),
        };
        check(tiles.len() == xy.len(), "P27: wrong number of tiles");
        for (t, (x, y)) in tiles.into_iter().zip(xy) {
            let want = im.want(x as u64, y as u64, be);
            let a = match t.decode(&reg) {
                Ok(a) => a,
                Err(_) => return check(false, "P27: a tile was not decoded"),
            };
            let (tw, th, n) = (im.tw as usize, im.th as usize, spp as usize);
            check(a.shape() == if planar { [n, th, tw] } else { [th, tw, n] }, "P27: wrong shape");
            let got = flat(a.data());
            check(got.len() == want.len() && got.iter().zip(&want).fold(true, |r, (a, b)| r & (a == b)), "P27: other pixels than the file holds");
            let raw: &[u8] = a.data().as_ref();
            observe(raw, "pixels");
        }
    }
    cover(if big { "bigtiff" } else { "classic" });
    cover(if planar { "planar" } else { "chunky" });
}
