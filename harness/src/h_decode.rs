//! P13 byte order and types, P14 horizontal predictor, P15 float predictor, P16 shapes and types,
//! P17 bit masks, P18 registry, P19 malformed tile data, P22 ndarray, P26 codecs
use crate::h_tile::{ifd, tiled, Tags};
use crate::rt::*;
use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::ndarray::NdArray;
use async_tiff::reader::{AsyncFileReader, Endianness};
use async_tiff::tags::{Compression, PhotometricInterpretation, Tag};
use async_tiff::{Array, DataType, TagValue, Tile, TypedArray};
use bytes::Bytes;
use std::ops::Range;
use std::sync::{Arc, Mutex};

/// serves band `i` for the request starting at 1000 * i
#[derive(Debug)]
struct Bands(Vec<Vec<u8>>);
#[async_trait::async_trait]
impl AsyncFileReader for Bands {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        Ok(Bytes::copy_from_slice(&self.0[(r.start / 1000) as usize]))
    }
}
fn shorts(v: &[u16]) -> TagValue {
    TagValue::List(v.iter().map(|x| TagValue::Short(*x)).collect())
}
pub struct Spec {
    pub w: u32,
    pub h: u32,
    pub spp: u16,
    pub planar: bool,
    pub bits: Vec<u16>,
    pub format: Vec<u16>,
    pub predictor: u16,
    pub compression: u16,
    /// 0: the tile is the image; 1: it is the last one of an image of 2 x 2 tiles that ends one pixel
    /// into it; 2: the image is smaller than it
    pub edge: usize,
    pub e: Endianness,
}
impl Spec {
    pub fn tags(&self) -> Tags {
        let n = if self.planar { self.spp.max(1) as u64 } else { 1 };
        // other tiles lie where nothing is served
        let k = if self.edge == 1 { 4 } else { 1 };
        let offs: Vec<u64> = (0..n * k).map(|i| if i % k == k - 1 { i / k * 1000 } else { 90000 }).collect();
        let (w, h) = match self.edge {
            0 => (self.w, self.h),
            1 => (self.w + 1, self.h + 1),
            _ => (1, (self.h + 1) / 2),
        };
        let mut m = tiled(w, h, self.w, self.h, self.spp, self.planar, &offs, &vec![1; offs.len()]);
        m.insert(Tag::BitsPerSample, shorts(&self.bits));
        if !self.format.is_empty() {
            m.insert(Tag::SampleFormat, shorts(&self.format));
        }
        m.insert(Tag::Predictor, TagValue::Short(self.predictor));
        m.insert(Tag::Compression, TagValue::Short(self.compression));
        m
    }
    /// the only tile of an image of exactly one tile, holding `bands`
    pub fn tile(&self, m: Tags, bands: Vec<Vec<u8>>) -> Tile {
        match block_on(ifd(m, self.e).fetch_tile(self.edge % 2, self.edge % 2, &Bands(bands))) {
            Ok(t) => t,
            Err(_) => {
                check(false, "the only tile could not be fetched");
                assume(false);
                loop {}
            }
        }
    }
    fn decode(&self, bands: Vec<Vec<u8>>) -> AsyncTiffResult<Array> {
        let t = self.tile(self.tags(), bands);
        t.decode(&DecoderRegistry::default())
    }
    fn shape(&self) -> [usize; 3] {
        let (w, h, n) = (self.w as usize, self.h as usize, self.spp as usize);
        if self.planar {
            [n, h, w]
        } else {
            [h, w, n]
        }
    }
}

/// (sample format, bits, type)
const KINDS: [(u16, u16, DataType); 10] = [
    (1, 8, DataType::UInt8), (1, 16, DataType::UInt16), (1, 32, DataType::UInt32), (1, 64, DataType::UInt64),
    (2, 8, DataType::Int8), (2, 16, DataType::Int16), (2, 32, DataType::Int32), (2, 64, DataType::Int64),
    (3, 32, DataType::Float32), (3, 64, DataType::Float64),
];
fn bits_of(a: &TypedArray) -> (DataType, Vec<u64>) {
    match a {
        TypedArray::Bool(v) => (DataType::Bool, v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt8(v) => (DataType::UInt8, v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt16(v) => (DataType::UInt16, v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt32(v) => (DataType::UInt32, v.iter().map(|x| *x as u64).collect()),
        TypedArray::UInt64(v) => (DataType::UInt64, v.clone()),
        TypedArray::Int8(v) => (DataType::Int8, v.iter().map(|x| *x as u8 as u64).collect()),
        TypedArray::Int16(v) => (DataType::Int16, v.iter().map(|x| *x as u16 as u64).collect()),
        TypedArray::Int32(v) => (DataType::Int32, v.iter().map(|x| *x as u32 as u64).collect()),
        TypedArray::Int64(v) => (DataType::Int64, v.iter().map(|x| *x as u64).collect()),
        TypedArray::Float32(v) => (DataType::Float32, v.iter().map(|x| x.to_bits() as u64).collect()),
        TypedArray::Float64(v) => (DataType::Float64, v.iter().map(|x| x.to_bits()).collect()),
    }
}
fn same(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
}
/// everything observable of an array
fn expect(a: &Array, s: &Spec, t: DataType, want: &[u64], msg: &str) {
    check(a.shape() == s.shape(), "P16: wrong shape");
    check(a.data_type() == Some(t), "P16: wrong data type");
    let (k, got) = bits_of(a.data());
    check(k == t, "P16: the array holds another type than it says");
    check(same(&got, want), msg);
    check(a.data().len() == want.len() && a.data().is_empty() == want.is_empty(), "P16: wrong length");
    let raw: &[u8] = a.data().as_ref();
    let mut flat = vec![];
    for x in want {
        put(&mut flat, *x, t.size(), cfg!(target_endian = "big"));
    }
    check(raw.len() == flat.len() && raw.iter().zip(&flat).fold(true, |r, (x, y)| r & (x == y)), "P16: the raw bytes are not the elements");
    observe(raw, "pixels");
    cover(match t {
        DataType::Bool => "Bool",
        DataType::UInt8 => "UInt8",
        DataType::UInt16 => "UInt16",
        DataType::UInt32 => "UInt32",
        DataType::UInt64 => "UInt64",
        DataType::Int8 => "Int8",
        DataType::Int16 => "Int16",
        DataType::Int32 => "Int32",
        DataType::Int64 => "Int64",
        DataType::Float32 => "Float32",
        DataType::Float64 => "Float64",
    });
}

fn spec(kinds: &[(u16, u16, DataType)], sizes: &[(u32, u32)], predictor: u16) -> (Spec, DataType) {
    let (f, b, t) = pick(kinds, "type");
    let (w, h) = pick(sizes, "size");
    let spp = pick(if thorough() { &[1u16, 2, 3, 4, 5][..] } else { &[1, 2, 3, 4] }, "samples");
    let edge = if w < 9 && w * h > 3 { choice(3, "edge") } else { 0 };
    (Spec { w, h, spp, planar: flag("planar"), bits: vec![b; spp as usize], format: vec![f; spp as usize], predictor, compression: 1, edge, e: endian("endian") }, t)
}
impl Spec {
    fn size(&self) -> usize {
        self.bits[0] as usize / 8
    }
    /// bytes of one band's tile
    fn band_len(&self) -> usize {
        self.w as usize * self.h as usize * self.size() * if self.planar { 1 } else { self.spp as usize }
    }
    fn bands(&self) -> usize {
        if self.planar {
            self.spp as usize
        } else {
            1
        }
    }
    fn symbolic(&self) -> Vec<Vec<u8>> {
        (0..self.bands()).map(|_| some_sym(self.band_len())).collect()
    }
}
/// bytes: any up to 200 of them; of more, any at the ends and around places where counters of
/// 8, 12, 13 and 16 bits would end, and a fixed pattern elsewhere
fn some_sym(n: usize) -> Vec<u8> {
    if n <= 200 {
        return sym_vec(n, "band");
    }
    let mut v: Vec<u8> = (0..n).map(|i| if i % 61 == 0 { (i / 61 * 7 + 1) as u8 } else { 0 }).collect();
    for (at, k) in [(0, 10), (250, 10), (4090, 10), (8190, 10), (65530, 10), (n / 2, 10), (n - 10, 10)] {
        if at + k <= n {
            v[at..at + k].copy_from_slice(&sym_vec(k, "bytes"));
        }
    }
    v
}
/// long rows and large tiles
fn wide(kinds: &[(u16, u16, DataType)], predictor: u16) -> (Spec, DataType) {
    let (f, b, t) = pick(kinds, "type");
    let (w, h) = pick(if thorough() { &[(300u32, 2u32), (4100, 1), (2, 300), (129, 65), (66000, 1), (1025, 70)][..] } else { &[(300, 2), (4100, 1), (2, 300), (129, 33)] }, "size");
    let spp = pick(&[1u16, 3], "samples");
    (Spec { w, h, spp, planar: spp > 1 && flag("planar"), bits: vec![b; spp as usize], format: vec![f; spp as usize], predictor, compression: 1, edge: 0, e: endian("endian") }, t)
}
const SIZES_Q: [(u32, u32); 7] = [(1, 1), (3, 1), (1, 2), (3, 2), (5, 3), (17, 1), (9, 2)];
const SIZES_T: [(u32, u32); 11] = [(1, 1), (3, 1), (1, 2), (3, 2), (5, 3), (9, 2), (17, 1), (2, 4), (8, 9), (33, 2), (64, 1)];

/// P13: without predictor the samples are the stored numbers in the file's byte order
#[no_mangle]
pub extern "C" fn h13_plain() {
    let (s, t) = spec(&KINDS, if thorough() { &SIZES_T[..] } else { &SIZES_Q }, 1);
    check_h13(s, t)
}
#[no_mangle]
pub extern "C" fn h13_wide() {
    let (s, t) = wide(&KINDS, 1);
    check_h13(s, t)
}
fn check_h13(s: Spec, t: DataType) {
    let bands = s.symbolic();
    let mut want = vec![];
    for b in &bands {
        for c in b.chunks(s.size()) {
            want.push(get(c, is_be(s.e)));
        }
    }
    match s.decode(bands) {
        Ok(a) => expect(&a, &s, t, &want, "P13: decoded samples differ from the stored numbers"),
        Err(_) => check(false, "P13: a well-formed tile was not decoded"),
    }
}

/// P14: horizontal differencing: each sample is the sum of the differences up to it
#[no_mangle]
pub extern "C" fn h14_hdiff() {
    let (s, t) = spec(&KINDS, if thorough() { &SIZES_T[..] } else { &SIZES_Q }, 2);
    check_h14(s, t)
}
#[no_mangle]
pub extern "C" fn h14_wide() {
    let (s, t) = wide(&[KINDS[0], KINDS[1], KINDS[2], KINDS[3], KINDS[5], KINDS[8]], 2);
    check_h14(s, t)
}
fn check_h14(s: Spec, t: DataType) {
    let bands = s.symbolic();
    let n = if s.planar { 1 } else { s.spp as usize };
    let add = |a: u64, b: u64| match s.bits[0] {
        8 => (a as u8).wrapping_add(b as u8) as u64,
        16 => (a as u16).wrapping_add(b as u16) as u64,
        32 => (a as u32).wrapping_add(b as u32) as u64,
        _ => a.wrapping_add(b),
    };
    let mut want = vec![];
    for b in &bands {
        for row in 0..s.h as usize {
            let mut sum = vec![0u64; n];
            for col in 0..s.w as usize {
                for k in 0..n {
                    let i = ((row * s.w as usize + col) * n + k) * s.size();
                    sum[k] = add(sum[k], get(&b[i..i + s.size()], is_be(s.e)));
                    want.push(sum[k]);
                }
            }
        }
    }
    match s.decode(bands) {
        Ok(a) => expect(&a, &s, t, &want, "P14: decoded samples are not the sums of the differences"),
        Err(_) => check(false, "P14: a well-formed tile was not decoded"),
    }
}

/// P15: floating point predictor: byte planes, most significant first, bytewise differences
#[no_mangle]
pub extern "C" fn h15_float() {
    let (s, t) = spec(&KINDS[8..], if thorough() { &SIZES_T[..] } else { &SIZES_Q }, 3);
    check_h15(s, t)
}
#[no_mangle]
pub extern "C" fn h15_wide() {
    let (s, t) = wide(&KINDS[8..], 3);
    check_h15(s, t)
}
fn check_h15(s: Spec, t: DataType) {
    let bands = s.symbolic();
    let n = if s.planar { 1 } else { s.spp as usize };
    let per_row = s.w as usize * n;
    let mut want = vec![];
    for b in &bands {
        for row in b.chunks(per_row * s.size()) {
            let mut r = row.to_vec();
            for i in n..r.len() {
                r[i] = r[i].wrapping_add(r[i - n]);
            }
            for i in 0..per_row {
                let mut v = 0u64;
                for plane in 0..s.size() {
                    v = v << 8 | r[plane * per_row + i] as u64;
                }
                want.push(v);
            }
        }
    }
    match s.decode(bands) {
        Ok(a) => expect(&a, &s, t, &want, "P15: decoded floats differ from the predicted ones"),
        Err(_) => check(false, "P15: a well-formed tile was not decoded"),
    }
}

/// P16: the type is decided by sample format and bits, equal for all samples; anything else has
/// no type. Data that does not fill the shape is an error.
#[no_mangle]
pub extern "C" fn h16_types() {
    let spp = 1 + choice(by_tier(4, 5), "samples") as u16;
    let mut s = Spec { w: 1, h: 1, spp, planar: false, bits: vec![], format: vec![], predictor: 1, compression: 1, edge: 0, e: Endianness::LittleEndian };
    // one value of each per sample, or one for all of them, or no format (which means unsigned)
    let (nb, nf) = pick(&[(spp, spp), (spp, 0), (spp, 1), (1, spp), (1, 0)], "values");
    for _ in 0..nb {
        s.bits.push(sym_u16("bits"));
    }
    for _ in 0..nf {
        s.format.push(sym_u16("format"));
    }
    let n = spp as usize;
    let len = if spp < 3 { choice(18, "length") } else { pick(&[0, 1, n, n + 1, 2 * n, 4 * n, 8 * n], "length") };
    let (f, b) = (s.format.first().copied().unwrap_or(1), s.bits[0]);
    let equal = s.format.iter().fold(true, |r, x| r & (*x == f)) & s.bits.iter().fold(true, |r, x| r & (*x == b));
    let known = KINDS.iter().find(|k| k.0 == f && k.1 == b).map(|k| k.2);
    let known = if f == 1 && b == 1 { Some(DataType::Bool) } else { known };
    let want = if equal { known } else { None };
    let data = sym_vec(len, "data");
    let fits = match want {
        Some(DataType::Bool) => len >= 1,
        Some(t) => len == t.size() * spp as usize,
        None => len == spp as usize,
    };
    if spp == 2 && nf != spp {
        s.e = endian("endian");
    }
    match s.decode(vec![data.clone()]) {
        Ok(a) => {
            check(fits, "P16: data of the wrong length gave an array");
            check(a.data_type() == want, "P16: wrong data type");
            check(a.shape() == [1, 1, spp as usize], "P16: wrong shape");
            check(bits_of(a.data()).0 == want.unwrap_or(DataType::UInt8), "P16: the array holds another type than it says");
            check(a.data().len() == spp as usize, "P16: wrong number of elements");
            cover(if want.is_some() { "typed" } else { "untyped" });
        }
        Err(_) => {
            check(!fits, "P16: data of the right length was rejected");
            cover("rejected");
        }
    }
}

/// P16: any decoded length other than the shape's is an error, whatever the shape
#[no_mangle]
pub extern "C" fn h16_length() {
    let (f, b, t) = pick(&KINDS, "type");
    let (w, h) = pick(&[(1u32, 1u32), (3, 1), (1, 2), (3, 2), (300, 1), (70, 60)], "size");
    let spp = 1 + choice(2, "samples") as u16;
    let s = Spec { w, h, spp, planar: flag("planar"), bits: vec![b; spp as usize], format: vec![f; spp as usize], predictor: if t == DataType::Float64 { 1 } else { pick(&[1, 2], "predictor") }, compression: 1, edge: 0, e: endian("endian") };
    let delta = pick(&[-8i64, -4, -2, -1, 0, 1, 2, 4, 8], "delta");
    let mut bands = s.symbolic();
    let last = bands.len() - 1;
    let n = bands[last].len() as i64 + delta;
    assume(n >= 0);
    bands[last].resize(n as usize, 7);
    match s.decode(bands) {
        Ok(a) => {
            check(delta == 0, "P16: data of the wrong length gave an array");
            check(a.shape() == s.shape() && a.data().len() == (w * h) as usize * spp as usize, "P16: wrong shape");
            cover("fits");
        }
        Err(_) => {
            check(delta != 0, "P16: data of the right length was rejected");
            cover("rejected");
        }
    }
}

/// P17: one bit per pixel, most significant first
#[no_mangle]
pub extern "C" fn h17_mask() {
    let (w, h) = pick(if thorough() { &[(8u32, 1u32), (16, 1), (8, 3), (16, 2), (32, 2), (40, 5), (256, 2), (512, 40), (4104, 2), (66000, 2)][..] } else { &[(8, 1), (16, 1), (8, 2), (24, 3), (64, 2), (512, 40), (4104, 2)] }, "size");
    let spp = 1 + choice(3, "samples") as u16;
    let s = Spec { w, h, spp, planar: flag("planar"), bits: vec![1; spp as usize], format: vec![1; spp as usize], predictor: 1, compression: 1, edge: 0, e: endian("endian") };
    let n = (w * h) as usize / 8 * if s.planar { 1 } else { spp as usize };
    let mut bands: Vec<Vec<u8>> = (0..s.bands()).map(|_| some_sym(n)).collect();
    let mut want = vec![];
    for b in &bands {
        for byte in b {
            for k in 0..8 {
                want.push((*byte >> (7 - k) & 1) as u64);
            }
        }
    }
    let short = flag("short");
    if short {
        bands.last_mut().unwrap().pop();
    }
    match s.decode(bands) {
        Ok(a) => {
            check(!short, "P17: a bit mask with missing bytes gave an array");
            expect(&a, &s, DataType::Bool, &want, "P17: decoded mask differs from the stored bits");
        }
        Err(_) => check(short, "P17: a well-formed bit mask was not decoded"),
    }
}

/// P28: bytes in, elements out, bytes back
#[no_mangle]
pub extern "C" fn h28_typed() {
    let mut types: Vec<Option<DataType>> = KINDS.iter().map(|k| Some(k.2)).collect();
    types.push(Some(DataType::Bool));
    types.push(None);
    let t = types[choice(types.len(), "type")];
    let n = if thorough() { choice(133, "bytes") } else { pick(&[4096usize, 66000, 66001, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 40, 63, 64, 72, 128], "bytes") };
    let n = if n >= 130 && thorough() { [4096, 66000, 66001][n - 130] } else { n };
    let data = some_sym(n);
    let size = t.map_or(1, |t| t.size());
    let want_size = match t {
        None | Some(DataType::Bool) | Some(DataType::UInt8) | Some(DataType::Int8) => 1,
        Some(DataType::UInt16) | Some(DataType::Int16) => 2,
        Some(DataType::UInt32) | Some(DataType::Int32) | Some(DataType::Float32) => 4,
        _ => 8,
    };
    check(size == want_size, "P28: wrong size of a data type");
    let mut given = Vec::with_capacity(n + choice(2, "spare"));
    given.extend_from_slice(&data);
    match TypedArray::try_new(given, t) {
        Ok(a) => {
            check(n % want_size == 0 && t != Some(DataType::Bool), "P28: bytes that are no whole elements gave an array");
            let (k, got) = bits_of(&a);
            check(k == t.unwrap_or(DataType::UInt8), "P28: elements of another type");
            let want: Vec<u64> = data.chunks(want_size).map(|c| get(c, cfg!(target_endian = "big"))).collect();
            check(same(&got, &want), "P28: elements are not the bytes given");
            check(a.len() == n / want_size && a.is_empty() == (n == 0), "P28: wrong length");
            let raw: &[u8] = a.as_ref();
            check(raw.len() == n && raw.iter().zip(&data).fold(true, |r, (x, y)| r & (x == y)), "P28: the bytes are not those given");
            observe(raw, "bytes");
            cover("array");
        }
        Err(_) => {
            check(n % want_size != 0 || t == Some(DataType::Bool), "P28: whole elements were refused");
            cover("refused");
        }
    }
}

/// P22: the ndarray is the array
#[no_mangle]
pub extern "C" fn h22_ndarray() {
    let mut kinds = KINDS.to_vec();
    kinds.push((1, 1, DataType::Bool));
    kinds.push((3, 16, DataType::UInt8)); // no type
    let (mut s, t) = spec(&kinds, &[(3, 2), (1, 1), (2, 3), (7, 5)], 1);
    let untyped = s.format[0] == 3 && s.bits[0] == 16;
    let len = if t == DataType::Bool {
        s.w = 8;
        s.w as usize * s.h as usize / 8 * if s.planar { 1 } else { s.spp as usize }
    } else if untyped {
        s.band_len() / 2
    } else {
        s.band_len()
    };
    let bands = (0..s.bands()).map(|_| sym_vec(len, "band")).collect();
    let a = match s.decode(bands) {
        Ok(a) => a,
        Err(_) => return check(false, "P22: a well-formed tile was not decoded"),
    };
    let (k, flat) = bits_of(a.data());
    let shape = a.shape();
    let (data, sh, ty) = a.clone().into_inner();
    check(sh == shape && ty == a.data_type() && same(&bits_of(&data).1, &flat), "P22: into_inner changes the array");
    macro_rules! view {
        ($x:expr, $t:expr, $f:expr) => {{
            let x = $x;
            check(k == $t, "P22: ndarray of another type");
            check(x.shape() == &shape[..], "P22: ndarray of another shape");
            let f = $f;
            for i in 0..shape[0] {
                for j in 0..shape[1] {
                    for l in 0..shape[2] {
                        check(f(x[[i, j, l]]) == flat[(i * shape[1] + j) * shape[2] + l], "P22: an element at another place");
                    }
                }
            }
            cover("converted");
        }};
    }
    match NdArray::try_from(a) {
        Err(_) => {
            check(untyped, "P22: a typed array was not converted");
            cover("untyped");
        }
        Ok(_) if untyped => check(false, "P22: an array without type was converted"),
        Ok(NdArray::Bool(x)) => view!(x, DataType::Bool, |v: bool| v as u64),
        Ok(NdArray::Uint8(x)) => view!(x, DataType::UInt8, |v: u8| v as u64),
        Ok(NdArray::Uint16(x)) => view!(x, DataType::UInt16, |v: u16| v as u64),
        Ok(NdArray::Uint32(x)) => view!(x, DataType::UInt32, |v: u32| v as u64),
        Ok(NdArray::Uint64(x)) => view!(x, DataType::UInt64, |v: u64| v),
        Ok(NdArray::Int8(x)) => view!(x, DataType::Int8, |v: i8| v as u8 as u64),
        Ok(NdArray::Int16(x)) => view!(x, DataType::Int16, |v: i16| v as u16 as u64),
        Ok(NdArray::Int32(x)) => view!(x, DataType::Int32, |v: i32| v as u32 as u64),
        Ok(NdArray::Int64(x)) => view!(x, DataType::Int64, |v: i64| v as u64),
        Ok(NdArray::Float32(x)) => view!(x, DataType::Float32, |v: f32| v.to_bits() as u64),
        Ok(NdArray::Float64(x)) => view!(x, DataType::Float64, |v: f64| v.to_bits()),
    }
}

// ---- registry
#[derive(Debug, Clone, Default, PartialEq)]
struct Call {
    who: u8,
    buffer: Vec<u8>,
    photometric: u16,
    tables: Option<Vec<u8>>,
    samples: u16,
    bits: u16,
    lerc: Option<Vec<u32>>,
}
#[derive(Debug, Clone)]
struct Recorder {
    who: u8,
    fail: Option<usize>,
    out: Vec<Vec<u8>>,
    calls: Arc<Mutex<Vec<Call>>>,
}
impl Decoder for Recorder {
    fn decode_tile(&self, buffer: Bytes, p: PhotometricInterpretation, t: Option<&[u8]>, s: u16, b: u16, l: Option<&[u32]>) -> AsyncTiffResult<Vec<u8>> {
        let mut c = self.calls.lock().unwrap();
        let n = c.len();
        c.push(Call { who: self.who, buffer: buffer.to_vec(), photometric: p.to_u16(), tables: t.map(|t| t.to_vec()), samples: s, bits: b, lerc: l.map(|l| l.to_vec()) });
        if self.fail == Some(n) {
            return Err(AsyncTiffError::EndOfFile(9, 9));
        }
        Ok(self.out[n.min(self.out.len() - 1)].clone())
    }
}

/// P18: the decoder registered for the tile's compression gets the tile's parameters, once per
/// band; its bytes are used; its errors come back; without one decoding fails
#[no_mangle]
pub extern "C" fn h18_registry() {
    let codes = [1u16, 5, 7, 8, 32946, 34712, 34887, 34925, 50000, 50001, 2, 60000];
    let code = pick(&codes, "compression");
    let spp = 1 + choice(2, "samples") as u16;
    let planar = flag("planar");
    let s = Spec { w: 1, h: 1, spp, planar, bits: vec![8; spp as usize], format: vec![1; spp as usize], predictor: 1, compression: code, edge: 0, e: endian("endian") };
    let mut m = s.tags();
    let photo = pick(&[0u16, 1, 2, 3, 4, 5, 6, 8], "photometric");
    m.insert(Tag::PhotometricInterpretation, TagValue::Short(photo));
    let (n_tables, n_lerc) = pick(&[(0usize, 0usize), (2, 0), (0, 2), (2, 2), (1, 1), (5, 3), (300, 0), (0, 1)], "tables");
    let (has_tables, has_lerc) = (n_tables > 0, n_lerc > 0);
    let tables = sym_vec(n_tables, "tables");
    let lerc: Vec<u32> = (0..n_lerc).map(|_| sym_u32("lerc")).collect();
    let list = |mut v: Vec<TagValue>| if v.len() == 1 { v.remove(0) } else { TagValue::List(v) };
    if has_tables {
        m.insert(Tag::JPEGTables, list(tables.iter().map(|b| TagValue::Byte(*b)).collect()));
    }
    if has_lerc {
        m.insert(Tag::LercParameters, list(lerc.iter().map(|b| TagValue::Unsigned(*b)).collect()));
    }
    let bands: Vec<Vec<u8>> = (0..s.bands()).map(|_| sym_vec(2, "band")).collect();
    let tile = s.tile(m, bands.clone());
    check(tile.compression_method().to_u16() == code && tile.photometric_interpretation().to_u16() == photo, "P18: the tile names another compression");
    let calls: Arc<Mutex<Vec<Call>>> = Default::default();
    let out: Vec<Vec<u8>> = (0..s.bands()).map(|_| sym_vec(if planar { 1 } else { spp as usize }, "decoded")).collect();
    let fail = choice(3, "failing_call");
    let rec = |who| Recorder { who, fail: if fail == 0 { None } else { Some(fail - 1) }, out: out.clone(), calls: calls.clone() };
    let mut reg = if flag("default") { DecoderRegistry::default() } else { DecoderRegistry::empty() };
    let registered = flag("registered");
    if registered {
        reg.as_mut().insert(Compression::from_u16_exhaustive(code), Box::new(rec(1)));
    } else {
        reg.as_mut().remove(&Compression::from_u16_exhaustive(code));
    }
    // decoders of other methods must stay out of it
    for other in [8u16, 50000, 60001] {
        if other != code {
            reg.as_mut().insert(Compression::from_u16_exhaustive(other), Box::new(rec(2)));
        }
    }
    let got = tile.decode(&reg);
    let calls = calls.lock().unwrap();
    let fails = fail > 0 && fail - 1 < s.bands();
    match got {
        Ok(a) => {
            check(registered && !fails, "P18: decoded although the decoder failed or there is none");
            check(calls.len() == s.bands(), "P18: not one call per band");
            for (c, b) in calls.iter().zip(&bands) {
                check(c.who == 1, "P18: another method's decoder was used");
                check(c.buffer.len() == 2 && c.buffer[0] == b[0] && c.buffer[1] == b[1], "P18: the decoder got other bytes");
                check(c.photometric == photo, "P18: the decoder got another photometric interpretation");
                check(c.samples == if planar { 1 } else { spp } && c.bits == 8, "P18: the decoder got other sample parameters");
                check(c.tables.is_some() == has_tables && c.lerc.is_some() == has_lerc, "P18: JPEG tables or LERC parameters lost");
                if let Some(t) = &c.tables {
                    check(t.len() == n_tables && t.iter().zip(&tables).fold(true, |r, (a, b)| r & (a == b)), "P18: other JPEG tables");
                }
                if let Some(l) = &c.lerc {
                    check(l.len() == n_lerc && l.iter().zip(&lerc).fold(true, |r, (a, b)| r & (a == b)), "P18: other LERC parameters");
                }
            }
            let want: Vec<u64> = out.iter().flatten().map(|x| *x as u64).collect();
            check(same(&bits_of(a.data()).1, &want), "P18: the decoder's bytes were not used as they are");
            cover(if planar { "planar" } else { "chunky" });
        }
        Err(_) => {
            check(!registered || fails, "P18: decoding failed although the decoder did not");
            check(registered || calls.is_empty(), "P18: another method's decoder was used");
            cover(if registered { "decoder failed" } else { "no decoder" });
        }
    }
}

/// P18: what the default registry holds
#[no_mangle]
pub extern "C" fn h18_default() {
    let code = each(sym_u16("compression") as u64 % 16) as usize;
    let codes = [1u16, 5, 7, 8, 32946, 50000, 2, 3, 4, 6, 0, 32773, 34712, 34887, 50001, 60000];
    let r = DecoderRegistry::default();
    let c = Compression::from_u16_exhaustive(codes[code]);
    check(r.as_ref().contains_key(&c) == (code < 6), "P18: the default registry does not hold the documented methods");
    check(DecoderRegistry::empty().as_ref().is_empty(), "P18: the empty registry is not empty");
    cover(if code < 6 { "there" } else { "not there" });
}

/// P19: whatever a decoder returns, with whatever parameters: an array or an error
#[no_mangle]
pub extern "C" fn h19_any() {
    let len = pick(if thorough() { &[0usize, 1, 2, 3, 5, 8, 9, 16][..] } else { &[0, 3, 8] }, "length");
    let planar = flag("planar");
    const EXTREME: [u32; 3] = [1, 3, u32::MAX];
    // one factor is any number, the others are extreme
    let spp = if planar { choice(3, "samples") as u16 } else { pick(&[0u16, 1, 3, 300], "samples") };
    let free = choice(3, "free");
    // small numbers one by one, all larger ones together
    let few = |v: u64, k: u64| if v <= k { each(v) } else { v };
    let bits = if free == 2 { few(sym_u16("bits") as u64, 72) as u16 } else { pick(if thorough() { &[0u16, 1, 2, 8, 9, 16, 24, 32, 33, 64, 65, 65535][..] } else { &[0, 1, 8, 16, 32, 64, 65] }, "bits") };
    let small = if bits == 1 { 16 * len as u64 } else if free == 0 { 16 } else { 0 };
    let w = if free == 0 { few(sym_u32("width") as u64, small) as u32 } else { pick(&EXTREME, "width") };
    let h = if free == 1 { few(sym_u32("height") as u64, small) as u32 } else { pick(&EXTREME, "height") };
    assume(w > 0 && h > 0);
    let s = Spec { w, h, spp: if planar { spp } else { 1 }, planar, bits: vec![bits], format: vec![pick(if thorough() { &[1u16, 2, 3, 9][..] } else if free == 2 { &[1] } else { &[1, 3] }, "format")], predictor: pick(&[1u16, 2, 3], "predictor"), compression: 60000, edge: 0, e: endian("endian") };
    let n = if planar { spp as usize } else { 1 };
    // one tile; the tables are concrete
    let mut m = s.tags();
    m.insert(Tag::SamplesPerPixel, TagValue::Short(spp));
    m.insert(Tag::ImageWidth, TagValue::Unsigned(1));
    m.insert(Tag::ImageLength, TagValue::Unsigned(1));
    m.insert(Tag::BitsPerSample, TagValue::Short(bits));
    let t = s.tile(m, vec![vec![1]; n.max(1)]);
    let mut reg = DecoderRegistry::empty();
    let rec = Recorder { who: 1, fail: None, out: vec![sym_vec(len, "decoded")], calls: Default::default() };
    reg.as_mut().insert(Compression::from_u16_exhaustive(60000), Box::new(rec));
    match t.decode(&reg) {
        Ok(a) => {
            let sh = a.shape();
            check(a.data().len() == sh[0].wrapping_mul(sh[1]).wrapping_mul(sh[2]), "P19: an array whose data does not fill its shape");
            let (x, y, z) = if planar { (spp as usize, h as usize, w as usize) } else { (h as usize, w as usize, spp as usize) };
            check(sh == [x, y, z], "P19: wrong shape");
            cover("array");
        }
        Err(_) => cover("error"),
    }
}
