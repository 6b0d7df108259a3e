//! P11 tile addressing, P12 fetching tiles
use crate::rt::*;
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::reader::{AsyncFileReader, Endianness};
use async_tiff::tags::Tag;
use async_tiff::{CompressedBytes, ImageFileDirectory, TagValue, Tile, TileByteRange, TilesByteRanges};
use bytes::Bytes;
use std::collections::HashMap;
use std::ops::Range;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

pub type Tags = HashMap<Tag, TagValue>;

/// a tiled image; offsets and byte counts as given
pub fn tiled(w: u32, h: u32, tw: u32, th: u32, spp: u16, planar: bool, offsets: &[u64], counts: &[u64]) -> Tags {
    let list = |v: &[u64]| TagValue::List(v.iter().map(|x| TagValue::UnsignedBig(*x)).collect());
    let mut m = HashMap::new();
    m.insert(Tag::ImageWidth, TagValue::Unsigned(w));
    m.insert(Tag::ImageLength, TagValue::Unsigned(h));
    m.insert(Tag::BitsPerSample, TagValue::List((0..spp.max(1)).map(|_| TagValue::Short(8)).collect()));
    m.insert(Tag::PhotometricInterpretation, TagValue::Short(1));
    m.insert(Tag::SamplesPerPixel, TagValue::Short(spp));
    m.insert(Tag::PlanarConfiguration, TagValue::Short(if planar { 2 } else { 1 }));
    m.insert(Tag::TileWidth, TagValue::Unsigned(tw));
    m.insert(Tag::TileLength, TagValue::Unsigned(th));
    m.insert(Tag::TileOffsets, list(offsets));
    m.insert(Tag::TileByteCounts, list(counts));
    m
}
pub fn ifd(m: Tags, e: Endianness) -> ImageFileDirectory {
    match ImageFileDirectory::from_tags(m, e) {
        Ok(d) => d,
        Err(_) => {
            check(false, "a well-formed directory was rejected");
            assume(false);
            loop {}
        }
    }
}

/// P11: number of tiles in each direction
#[no_mangle]
pub extern "C" fn h11_count() {
    let across = flag("across");
    // division by a power of two for every image size; other tile sizes around their multiples
    let (n, t) = if flag("small") {
        let (n, t) = (sym_u8("size") as u32, sym_u8("tile") as u32 & if thorough() { 63 } else { 15 });
        assume(n < 64 && t > 0);
        (n, t)
    } else if flag("power_of_two") {
        let k = if thorough() { choice(32, "log2_tile") } else { pick(&[0, 4, 8, 31], "log2_tile") };
        (sym_u32("size"), 1u32 << k)
    } else {
        let t = pick(&[3u32, 7, 240, 1000, 65535, 65537, u32::MAX], "tile");
        let k = pick(&[0u32, 1, 2, 3, 255, 4097, 65535, 613566756], "multiple");
        let d = sym_u8("delta") as u32 & 3; // 0..=3
        let n = (k as u64 * t as u64 + d as u64).wrapping_sub(1);
        assume(n <= u32::MAX as u64);
        (each(n) as u32, t)
    };
    let (w, h, tw, th) = if across { (n, 5, t, 2) } else { (5, n, 2, t) };
    let d = ifd(tiled(w, h, tw, th, 1, false, &[0], &[0]), Endianness::LittleEndian);
    let want = ((n as u64 + t as u64 - 1) / t as u64) as usize;
    let want = if across { (want, 3) } else { (3, want) };
    match d.tile_count() {
        Some(c) => check(c == want, "P11: tile_count is not the rounded-up quotient"),
        None => check(false, "P11: no tile count for a tiled image"),
    }
    cover(if across { "across" } else { "down" });
}

#[derive(Clone)]
struct Grid {
    d: ImageFileDirectory,
    nx: u64,
    ny: u64,
    bands: u64,
    planar: bool,
    offsets: Vec<u64>,
    counts: Vec<u64>,
}
impl Grid {
    /// what the byte ranges of a tile must be: None where there is no such tile
    fn want(&self, x: u64, y: u64) -> Option<Vec<Range<u64>>> {
        if x >= self.nx || y >= self.ny {
            return None;
        }
        let bands = if self.planar { self.bands } else { 1 };
        let mut out = vec![];
        for b in 0..bands {
            let i = (b * self.ny + y) * self.nx + x;
            if i >= self.offsets.len() as u64 || i >= self.counts.len() as u64 {
                return None;
            }
            let i = each(i) as usize;
            let (o, c) = (self.offsets[i], self.counts[i]);
            out.push(o..o.checked_add(c)?);
        }
        Some(out)
    }
}

/// any small grid with any offsets; tables complete, short or too long
fn grid(short_tables: bool, max_bands: usize) -> Grid {
    let (tw, th) = pick(&[(16u32, 16u32), (3, 2), (1, 1)], "tile_size");
    let (nx, ny) = if thorough() { (1 + choice(4, "nx") as u64, 1 + choice(3, "ny") as u64) } else { pick(&[(1u64, 1u64), (2, 1), (1, 3), (3, 2)], "grid") };
    // the image ends somewhere in the last tile
    let size = |n: u64, t: u32, name| {
        let cut = each(sym_u8(name) as u64 % 4);
        assume(cut < t as u64);
        (n * t as u64 - cut) as u32
    };
    let (w, h) = (size(nx, tw, "cut_x"), size(ny, th, "cut_y"));
    let planar = flag("planar");
    let bands = 1 + choice(max_bands, "bands") as u64;
    let full = (nx * ny * if planar { bands } else { 1 }) as usize;
    let (a, b) = if short_tables { pick(&[(0i64, 0i64), (-1, 0), (0, -1), (1, 1)], "tables") } else { (0, 0) };
    let table = |d: i64, name| (0..full as i64 + d).map(|_| sym_u64(name)).collect::<Vec<_>>();
    let (offsets, counts) = (table(a, "offset"), table(b, "byte_count"));
    let d = ifd(tiled(w, h, tw, th, bands as u16, planar, &offsets, &counts), endian("endian"));
    Grid { d, nx, ny, bands, planar, offsets, counts }
}

fn ranges_of(t: &TileByteRange) -> (bool, Vec<Range<u64>>) {
    match t {
        TileByteRange::Chunky(r) => (false, vec![r.clone()]),
        TileByteRange::Planar(v) => (true, v.clone()),
    }
}
fn same(a: &[Range<u64>], b: &[Range<u64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x.start == y.start) & (x.end == y.end))
}

/// P11: any x and y
#[no_mangle]
pub extern "C" fn h11_range() {
    let g = grid(true, by_tier(2, 3));
    let (mut x, mut y) = (sym_u64("x"), sym_u64("y"));
    if x <= g.nx {
        x = each(x);
    }
    if y <= g.ny {
        y = each(y);
    }
    let got = g.d.tile_byte_range(x as usize, y as usize);
    let want = g.want(x, y);
    match (&got, &want) {
        (Some(got), Some(want)) => {
            let (p, r) = ranges_of(got);
            check(p == g.planar, "P11: chunky and planar mixed up");
            check(same(&r, want), "P11: wrong byte range of a tile");
            observe_u64(r[0].start, "start");
            cover(if p { "planar" } else { "chunky" });
        }
        (None, None) => cover("no such tile"),
        (Some(_), None) => check(false, "P11: a byte range for a tile that does not exist"),
        (None, Some(_)) => check(false, "P11: no byte range for an existing tile"),
    }
    check(g.d.tile_count() == Some((g.nx as usize, g.ny as usize)), "P11: wrong tile count");
}

/// P11: large grids; the tables are numbers but for the tile asked for
#[no_mangle]
pub extern "C" fn h11_large() {
    let (nx, ny) = pick(if thorough() { &[(300u64, 1u64), (257, 2), (1, 300), (16, 17), (256, 256), (70000, 1), (1, 66000), (33000, 2)][..] } else { &[(300, 1), (257, 2), (1, 300), (16, 17), (66000, 1), (1, 66000)] }, "grid");
    let planar = flag("planar");
    let bands = if planar && nx * ny < 1000 { pick(&[1u64, 3, 5], "bands") } else { 1 };
    let full = (nx * ny * bands) as usize;
    let x = pick(&[0, 1, nx / 2, 255, 256, nx - 1, nx, 65536 + 1], "x");
    let y = pick(&[0, ny / 2, 255, 256, ny - 1, ny, 65536 + 1], "y");
    let mut offsets: Vec<u64> = (0..full as u64).map(|i| 1000 + 10 * i).collect();
    let mut counts: Vec<u64> = (0..full as u64).map(|i| 1 + i % 7).collect();
    if x < nx && y < ny {
        for b in 0..bands {
            let i = ((b * ny + y) * nx + x) as usize;
            offsets[i] = sym_u64("offset");
            counts[i] = sym_u64("byte_count");
        }
    }
    let d = ifd(tiled(nx as u32 * 16 - 3, ny as u32 * 16 - 15, 16, 16, bands as u16, planar, &offsets, &counts), Endianness::LittleEndian);
    let g = Grid { d, nx, ny, bands, planar, offsets, counts };
    check(g.d.tile_count() == Some((nx as usize, ny as usize)), "P11: wrong tile count");
    match (g.d.tile_byte_range(x as usize, y as usize), g.want(x, y)) {
        (Some(got), Some(want)) => {
            let (p, r) = ranges_of(&got);
            check(p == planar && same(&r, &want), "P11: wrong byte range of a tile of a large grid");
            cover("tile");
        }
        (None, None) => cover("no such tile"),
        _ => check(false, "P11: a tile of a large grid exists or not as it should not"),
    }
}

/// P11: a list of tiles is the tiles one by one
#[no_mangle]
pub extern "C" fn h11_list() {
    let g = grid(false, 2);
    let k = choice(by_tier(3, 4), "tiles");
    let xy: Vec<(usize, usize)> = (0..k).map(|_| (each(sym_u8("x") as u64 & 3) as usize, each(sym_u8("y") as u64 & 3) as usize)).collect();
    let mut want = Some(vec![]);
    for (x, y) in &xy {
        match (&mut want, g.want(*x as u64, *y as u64)) {
            (Some(v), Some(r)) => v.push(r),
            _ => want = None,
        }
    }
    match (g.d.tiles_byte_ranges(&xy), want) {
        (Some(TilesByteRanges::Chunky(r)), Some(w)) => {
            check(!g.planar, "P11: chunky and planar mixed up");
            let w: Vec<Range<u64>> = w.into_iter().flatten().collect();
            check(same(&r, &w), "P11: wrong byte ranges of a list of tiles");
            cover("chunky");
        }
        (Some(TilesByteRanges::Planar(r)), Some(w)) => {
            check(g.planar, "P11: chunky and planar mixed up");
            check(r.len() == w.len() && r.iter().zip(&w).fold(true, |a, (x, y)| a & same(x, y)), "P11: wrong byte ranges of a list of tiles");
            cover("planar");
        }
        (None, None) => cover("no such tile"),
        _ => check(false, "P11: a list of tiles and its tiles differ in whether they exist"),
    }
}

/// P11: images without tiles have no tile ranges
#[no_mangle]
pub extern "C" fn h11_untiled() {
    let mut m = tiled(10, 10, 4, 4, 1, flag("planar"), &[1; 9], &[2; 9]);
    let gone = choice(6, "missing");
    match gone {
        0 => drop(m.remove(&Tag::TileWidth)),
        1 => drop(m.remove(&Tag::TileLength)),
        2 => drop(m.remove(&Tag::TileOffsets)),
        3 => drop(m.remove(&Tag::TileByteCounts)),
        4 => drop(m.insert(Tag::TileWidth, TagValue::Short(0))),
        _ => drop(m.insert(Tag::TileLength, TagValue::Short(0))),
    }
    let d = ifd(m, Endianness::BigEndian);
    let (x, y) = (sym_u64("x") as usize, sym_u64("y") as usize);
    check(d.tile_byte_range(x, y).is_none(), "P11: a byte range in an image without tiles");
    check(d.tiles_byte_ranges(&[(x, y)]).is_none(), "P11: byte ranges in an image without tiles");
    check(gone == 2 || gone == 3 || d.tile_count().is_none(), "P11: a tile count for an image without tiles");
    let f = SparseFile::new();
    check(block_on(d.fetch_tile(x, y, &f)).is_err(), "P11: a tile was fetched from an image without tiles");
    check(f.requests().is_empty(), "P11: bytes were requested for a tile that does not exist");
    cover("untiled");
}

/// answers each request with its own range written out
#[derive(Debug, Default, Clone)]
pub struct Marker {
    log: Arc<Mutex<Vec<Range<u64>>>>,
    calls: Arc<AtomicUsize>,
    fail_at: Option<usize>,
    pend: usize,
}
fn mark(r: &Range<u64>) -> Vec<u8> {
    let mut v = r.start.to_le_bytes().to_vec();
    v.extend_from_slice(&r.end.to_le_bytes());
    v
}
#[async_trait::async_trait]
impl AsyncFileReader for Marker {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let n = self.calls.fetch_add(1, Relaxed);
        self.log.lock().unwrap().push(r.clone());
        pend(self.pend).await;
        if self.fail_at == Some(n) {
            return Err(AsyncTiffError::EndOfFile(5, 5));
        }
        Ok(mark(&r).into())
    }
}
/// the same with a batch request of its own
#[derive(Debug, Default, Clone)]
pub struct BatchMarker(Marker);
#[async_trait::async_trait]
impl AsyncFileReader for BatchMarker {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.get_bytes(r).await
    }
    async fn get_byte_ranges(&self, ranges: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        let mut out = vec![];
        // answered back to front, to be in order all the same
        for r in ranges.into_iter().rev() {
            out.push(self.0.get_bytes(r).await?);
        }
        out.reverse();
        Ok(out)
    }
}

fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
}
fn holds(t: &Tile, x: usize, y: usize, planar: bool, want: &[Range<u64>]) {
    check(t.x() == x && t.y() == y, "P12: a tile with other coordinates than asked for");
    match t.compressed_bytes() {
        CompressedBytes::Chunky(b) => {
            check(!planar, "P12: chunky and planar mixed up");
            check(want.len() == 1 && eq(b, &mark(&want[0])), "P12: a tile holds the bytes of another range");
            observe(b, "tile");
        }
        CompressedBytes::Planar(v) => {
            check(planar, "P12: chunky and planar mixed up");
            check(v.len() == want.len(), "P12: wrong number of bands");
            for (b, w) in v.iter().zip(want) {
                check(eq(b, &mark(w)), "P12: a band holds the bytes of another range");
                observe(b, "band");
            }
        }
    }
}

/// P12: long lists
#[no_mangle]
pub extern "C" fn h12_long() {
    let (nx, ny) = (5u64, 4u64);
    let planar = flag("planar");
    let bands = pick(&[1u64, 3, 4], "bands");
    let full = (nx * ny * if planar { bands } else { 1 }) as usize;
    // adjacent tiles, tiles with gaps, tiles back to front, any places
    let how = choice(4, "layout");
    let size = 100 * full as u64;
    let offsets: Vec<u64> = (0..full as u64).map(|i| match how {
        0 => 500 + 100 * i,
        1 => 500 + 130 * i,
        2 => 500 + size - 100 * i,
        _ => sym_u64("offset"),
    }).collect();
    let counts: Vec<u64> = (0..full as u64).map(|i| if how == 3 { sym_u64("byte_count") } else if how == 0 || how == 2 { 100 } else { i % 100 }).collect();
    if how == 3 {
        for (o, c) in offsets.iter().zip(&counts) {
            assume(*o < 1 << 62 && *c < 1 << 62);
        }
    }
    let d = ifd(tiled(nx as u32 * 4, ny as u32 * 4, 4, 4, bands as u16, planar, &offsets, &counts), Endianness::LittleEndian);
    let g = Grid { d, nx, ny, bands, planar, offsets, counts };
    let k = pick(if thorough() { &[3usize, 4, 5, 8, 9, 16, 17, 20, 33, 70][..] } else { &[3, 4, 8, 9, 17, 33] }, "tiles");
    // in order, back to front, with repeated tiles
    let order = choice(4, "order");
    let xy: Vec<(usize, usize)> = (0..k).map(|i| match order {
        0 => i % 20,
        1 => 19 - i % 20,
        2 => i * 7 % 20,
        _ => i / 2 % 20,
    }).map(|i| (i % 5, i / 5)).collect();
    let want: Vec<Vec<Range<u64>>> = xy.iter().map(|(x, y)| g.want(*x as u64, *y as u64).unwrap()).collect();
    let r = Marker::default();
    let got = if flag("batch") { block_on(g.d.fetch_tiles(&xy, &BatchMarker(r.clone()))) } else { block_on(g.d.fetch_tiles(&xy, &r)) };
    let t = match got {
        Ok(t) => t,
        Err(_) => return check(false, "P12: fetching existing tiles failed"),
    };
    check(t.len() == k, "P12: not as many tiles as asked for");
    for i in 0..k {
        holds(&t[i], xy[i].0, xy[i].1, planar, &want[i]);
    }
    let log = r.log.lock().unwrap();
    check(log.len() == want.iter().map(|w| w.len()).sum::<usize>(), "P12: more or fewer requests than bands");
    cover(if planar { "planar" } else { "chunky" });
}

/// P12: tiles of large grids, one by one and in a list
#[no_mangle]
pub extern "C" fn h12_large() {
    let (nx, ny) = pick(&[(300u64, 2u64), (2, 300), (66000, 1), (1, 66000)], "grid");
    let planar = nx * ny < 1000 && flag("planar");
    let bands = if planar { 3 } else { 1 };
    let full = nx * ny * bands;
    let offsets: Vec<u64> = (0..full).map(|i| 1000 + 10 * i).collect();
    let counts: Vec<u64> = (0..full).map(|i| 1 + i % 7).collect();
    let d = ifd(tiled(nx as u32 * 16, ny as u32 * 16, 16, 16, bands as u16, planar, &offsets, &counts), Endianness::LittleEndian);
    let g = Grid { d, nx, ny, bands, planar, offsets, counts };
    let near = [0u64, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65999];
    let at = |n: u64, name: &str| if n > 2 { near[choice(near.iter().filter(|x| **x < n).count(), name)] } else { choice(n as usize, name) as u64 };
    let (x, y) = (at(nx, "x") as usize, at(ny, "y") as usize);
    let want = g.want(x as u64, y as u64).unwrap();
    let r = Marker::default();
    if flag("one") {
        match block_on(g.d.fetch_tile(x, y, &r)) {
            Ok(t) => holds(&t, x, y, planar, &want),
            Err(_) => return check(false, "P12: fetching existing tiles failed"),
        }
        return cover("one");
    }
    match block_on(g.d.fetch_tiles(&[(0, 0), (x, y)], &r)) {
        Ok(t) => {
            check(t.len() == 2, "P12: not as many tiles as asked for");
            holds(&t[0], 0, 0, planar, &g.want(0, 0).unwrap());
            holds(&t[1], x, y, planar, &want);
        }
        Err(_) => return check(false, "P12: fetching existing tiles failed"),
    }
    cover("list");
}

/// P12: lists of tiles, also empty, with duplicates, outside the grid, with failing requests
#[no_mangle]
pub extern "C" fn h12_fetch() {
    let (nx, ny) = pick(&[(2u64, 2u64), (3, 1)], "grid");
    let planar = flag("planar");
    let bands = 1 + choice(by_tier(2, 3), "bands") as u64;
    let full = (nx * ny * if planar { bands } else { 1 }) as usize;
    let offsets: Vec<u64> = (0..full).map(|_| sym_u64("offset")).collect();
    let counts: Vec<u64> = (0..full).map(|_| sym_u64("byte_count")).collect();
    let mut m = tiled(nx as u32 * 4, ny as u32 * 4, 4, 4, bands as u16, planar, &offsets, &counts);
    let comp = pick(&[1u16, 5, 8, 50000], "compression");
    m.insert(Tag::Compression, TagValue::Short(comp));
    let tables = sym_vec(2, "jpeg_tables");
    if flag("has_tables") {
        m.insert(Tag::JPEGTables, TagValue::List(tables.iter().map(|b| TagValue::Byte(*b)).collect()));
    }
    let d = ifd(m.clone(), Endianness::LittleEndian);
    let g = Grid { d, nx, ny, bands, planar, offsets, counts };
    let k = choice(by_tier(3, 4), "tiles");
    let xy: Vec<(usize, usize)> = (0..k).map(|_| (each(sym_u8("x") as u64 & 3) as usize, each(sym_u8("y") as u64 & 1) as usize)).collect();
    let mut want = Some(vec![]);
    for (x, y) in &xy {
        match (&mut want, g.want(*x as u64, *y as u64)) {
            (Some(v), Some(r)) => v.push(r),
            _ => want = None,
        }
    }
    let requests = want.as_ref().map_or(0, |w| w.iter().map(|r| r.len()).sum::<usize>());
    let fail = choice(3, "failing_request");
    let r = Marker { fail_at: if fail == 0 { None } else { Some(fail - 1) }, pend: choice(2, "pending"), ..Default::default() };
    let fails = fail > 0 && fail - 1 < requests;
    let batch = flag("batch");
    let got = if batch { block_on(g.d.fetch_tiles(&xy, &BatchMarker(r.clone()))) } else { block_on(g.d.fetch_tiles(&xy, &r)) };
    let log = r.log.lock().unwrap().clone();
    match (got, want) {
        (Ok(t), Some(w)) => {
            check(!fails, "P12: a failed request was swallowed");
            check(t.len() == k, "P12: not as many tiles as asked for");
            for i in 0..k.min(t.len()) {
                holds(&t[i], xy[i].0, xy[i].1, planar, &w[i]);
                check(t[i].compression_method().to_u16() == comp && t[i].photometric_interpretation().to_u16() == 1, "P12: a tile does not carry its directory's compression");
                check(t[i].jpeg_tables().is_some() == m.contains_key(&Tag::JPEGTables), "P12: JPEG tables lost");
                if let Some(b) = t[i].jpeg_tables() {
                    check(eq(b, &tables), "P12: other JPEG tables");
                }
            }
            // exactly the bytes of these tiles were asked for
            let all: Vec<Range<u64>> = w.into_iter().flatten().collect();
            check(log.len() == all.len(), "P12: more or fewer requests than bands");
            for l in &log {
                check(all.iter().fold(false, |r, a| r | ((a.start == l.start) & (a.end == l.end))), "P12: bytes outside the tiles were requested");
            }
            cover(if k == 0 { "empty" } else if planar { "planar" } else { "chunky" });
        }
        (Err(_), Some(_)) => {
            check(fails, "P12: fetching existing tiles failed");
            cover("failed request");
        }
        (Err(_), None) => {
            check(log.is_empty(), "P12: bytes were requested although a tile does not exist");
            cover("no such tile");
        }
        (Ok(_), None) => check(false, "P12: a tile that does not exist was fetched"),
    }
}

/// P12: one tile
#[no_mangle]
pub extern "C" fn h12_one() {
    let g = grid(true, by_tier(2, 3));
    let (x, y) = (each(sym_u8("x") as u64 & 3), each(sym_u8("y") as u64 & 3));
    let want = g.want(x, y);
    let fail = choice(3, "failing_request");
    let r = Marker { fail_at: if fail == 0 { None } else { Some(fail - 1) }, pend: choice(2, "pending"), ..Default::default() };
    let got = block_on(g.d.fetch_tile(x as usize, y as usize, &r));
    let log = r.log.lock().unwrap().clone();
    match (got, want) {
        (Ok(t), Some(w)) => {
            check(fail == 0 || fail > w.len(), "P12: a failed request was swallowed");
            holds(&t, x as usize, y as usize, g.planar, &w);
            check(same(&log, &w), "P12: other requests than the tile's ranges");
            cover(if g.planar { "planar" } else { "chunky" });
        }
        (Err(_), Some(w)) => {
            check(fail > 0 && fail <= w.len(), "P12: fetching an existing tile failed");
            cover("failed request");
        }
        (Err(_), None) => {
            check(log.is_empty(), "P12: bytes were requested although the tile does not exist");
            cover("no such tile");
        }
        (Ok(_), None) => check(false, "P12: a tile that does not exist was fetched"),
    }
}
