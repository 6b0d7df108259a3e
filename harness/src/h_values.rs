//! P06 conversions of tag values, P24 code tables
use crate::rt::*;
use async_tiff::tags::*;
use async_tiff::TagValue;

/// the numbers a value stands for, with the family they belong to
#[derive(Clone, Copy, PartialEq)]
enum Fam {
    Unsigned,
    Signed,
    F32,
    F64,
    Other,
}
/// variants 0..=16 (everything except List), payload from symbolic bytes
fn variant(k: usize) -> (TagValue, Fam, Vec<i128>) {
    variant_of(k, sym_u64("a"))
}
fn variant_of(k: usize, a: u64) -> (TagValue, Fam, Vec<i128>) {
    let b = || sym_u64("b");
    let u = Fam::Unsigned;
    let s = Fam::Signed;
    match k {
        0 => (TagValue::Byte(a as u8), u, vec![a as u8 as i128]),
        1 => (TagValue::Short(a as u16), u, vec![a as u16 as i128]),
        2 => (TagValue::Unsigned(a as u32), u, vec![a as u32 as i128]),
        3 => (TagValue::UnsignedBig(a), u, vec![a as i128]),
        4 => (TagValue::Ifd(a as u32), u, vec![a as u32 as i128]),
        5 => (TagValue::IfdBig(a), u, vec![a as i128]),
        6 => (TagValue::SignedByte(a as i8), s, vec![a as i8 as i128]),
        7 => (TagValue::SignedShort(a as i16), s, vec![a as i16 as i128]),
        8 => (TagValue::Signed(a as i32), s, vec![a as i32 as i128]),
        9 => (TagValue::SignedBig(a as i64), s, vec![a as i64 as i128]),
        10 => (TagValue::Float(f32::from_bits(a as u32)), Fam::F32, vec![a as u32 as i128]),
        11 => (TagValue::Double(f64::from_bits(a)), Fam::F64, vec![a as i128]),
        12 => {
            let b = b();
            (TagValue::Rational(a as u32, b as u32), Fam::Other, vec![a as u32 as i128, b as u32 as i128])
        }
        13 => {
            let b = b();
            (TagValue::SRational(a as i32, b as i32), Fam::Other, vec![a as i32 as i128, b as i32 as i128])
        }
        14 => {
            let b = b();
            (TagValue::RationalBig(a, b), Fam::Other, vec![a as i128, b as i128])
        }
        15 => {
            let b = b();
            (TagValue::SRationalBig(a as i64, b as i64), Fam::Other, vec![a as i64 as i128, b as i64 as i128])
        }
        _ => {
            let c = (a as u8) & 0x7f;
            (TagValue::Ascii(String::from_utf8(vec![c]).unwrap()), Fam::Other, vec![c as i128])
        }
    }
}
const NV: usize = 17;

fn judge(r: Result<i128, ()>, fam: Fam, want: Fam, x: &[i128], lo: i128, hi: i128, must: bool) {
    match r {
        Ok(v) => {
            check(x.len() == 1 && v == x[0], "P06: a conversion changed the number");
            check(fam == want, "P06: a conversion between kinds of number");
            cover("converted");
        }
        Err(_) => {
            let fits = fam == want && x.len() == 1 && x[0] >= lo && x[0] <= hi;
            check(!(fits && must), "P06: a number that fits was refused");
            cover("refused");
        }
    }
}

/// P06: every scalar conversion of every variant
#[no_mangle]
pub extern "C" fn h06_scalar() {
    let k = choice(NV, "variant");
    let (v, fam, x) = variant(k);
    let m = |e| {
        let _ = e;
    };
    use Fam::*;
    match choice(11, "conversion") {
        0 => judge(v.into_u8().map(|v| v as i128).map_err(m), fam, Unsigned, &x, 0, u8::MAX as i128, k == 0),
        1 => judge(v.into_u16().map(|v| v as i128).map_err(m), fam, Unsigned, &x, 0, u16::MAX as i128, k <= 3),
        2 => judge(v.into_u32().map(|v| v as i128).map_err(m), fam, Unsigned, &x, 0, u32::MAX as i128, true),
        3 => judge(v.into_u64().map(|v| v as i128).map_err(m), fam, Unsigned, &x, 0, u64::MAX as i128, true),
        4 => judge(v.into_i8().map(|v| v as i128).map_err(m), fam, Signed, &x, i8::MIN as i128, i8::MAX as i128, k == 6),
        5 => judge(v.into_i16().map(|v| v as i128).map_err(m), fam, Signed, &x, i16::MIN as i128, i16::MAX as i128, true),
        6 => judge(v.into_i32().map(|v| v as i128).map_err(m), fam, Signed, &x, i32::MIN as i128, i32::MAX as i128, true),
        7 => judge(v.into_i64().map(|v| v as i128).map_err(m), fam, Signed, &x, i64::MIN as i128, i64::MAX as i128, true),
        8 => judge(v.into_f32().map(|v| v.to_bits() as i128).map_err(m), fam, F32, &x, 0, i128::MAX, true),
        9 => judge(v.into_f64().map(|v| v.to_bits() as i128).map_err(m), fam, F64, &x, 0, i128::MAX, true),
        _ => match v.into_string() {
            Ok(s) => check(k == 16 && s.len() == 1 && s.as_bytes()[0] as i128 == x[0], "P06: wrong string"),
            Err(_) => check(k != 16, "P06: a string was refused"),
        },
    }
}

/// P06: every list conversion, of single values and of lists of up to N values of mixed variants
#[no_mangle]
pub extern "C" fn h06_list() {
    // 0: a bare value instead of a list
    let n = pick(if thorough() { &[0usize, 1, 2, 3, 5, 17, 300][..] } else { &[0, 1, 2, 5, 17, 300] }, "values");
    let conv = choice(8, "conversion");
    let mut all: Vec<i128> = vec![];
    let mut fams = vec![];
    let mut kinds = vec![];
    let v = if n == 0 {
        let k = choice(NV, "variant");
        kinds.push(k);
        let (v, f, x) = variant(k);
        fams.push(f);
        all = x;
        v
    } else {
        let mut l = vec![];
        for i in 0..n {
            // variants of every family; the full mix in the thorough tier
            // long lists are of one kind but for the last value
            let k = if i == 0 { choice(NV, "variant") } else if n > 3 && i + 1 < n { kinds[0] } else { pick(&[0, 2, 5, 8, 11, 13], "variant") };
            kinds.push(k);
            let (v, f, x) = if n > 3 && i > 0 && i + 1 < n { variant_of(k, i as u64 & 127) } else { variant(k) };
            l.push(v);
            fams.push(f);
            all.extend(x);
        }
        TagValue::List(l)
    };
    let (got, want, lo, hi): (Result<Vec<i128>, ()>, Fam, i128, i128) = match conv {
        0 => (v.into_u8_vec().map(|v| v.iter().map(|x| *x as i128).collect()).map_err(|_| ()), Fam::Unsigned, 0, u8::MAX as i128),
        1 => (v.into_u16_vec().map(|v| v.iter().map(|x| *x as i128).collect()).map_err(|_| ()), Fam::Unsigned, 0, u16::MAX as i128),
        2 => (v.into_u32_vec().map(|v| v.iter().map(|x| *x as i128).collect()).map_err(|_| ()), Fam::Unsigned, 0, u32::MAX as i128),
        3 => (v.into_u64_vec().map(|v| v.iter().map(|x| *x as i128).collect()).map_err(|_| ()), Fam::Unsigned, 0, u64::MAX as i128),
        4 => (v.into_i32_vec().map(|v| v.iter().map(|x| *x as i128).collect()).map_err(|_| ()), Fam::Signed, i32::MIN as i128, i32::MAX as i128),
        5 => (v.into_i64_vec().map(|v| v.iter().map(|x| *x as i128).collect()).map_err(|_| ()), Fam::Signed, i64::MIN as i128, i64::MAX as i128),
        6 => (v.into_f32_vec().map(|v| v.iter().map(|x| x.to_bits() as i128).collect()).map_err(|_| ()), Fam::F32, 0, i128::MAX),
        _ => (v.into_f64_vec().map(|v| v.iter().map(|x| x.to_bits() as i128).collect()).map_err(|_| ()), Fam::F64, 0, i128::MAX),
    };
    match got {
        Ok(o) => {
            check(o.len() == all.len(), "P06: a list conversion changed the number of values");
            check(o.iter().zip(&all).fold(true, |r, (a, b)| r & (a == b)), "P06: a list conversion changed or reordered values");
            cover("list converted");
        }
        Err(_) => {
            let mut fits = fams.iter().all(|f| *f == want);
            for x in &all {
                fits &= *x >= lo && *x <= hi;
            }
            // bytes are not narrowed from wider integers, nor short integers from offsets
            let refusable = match conv {
                0 => kinds.iter().any(|k| *k != 0),
                1 => kinds.iter().any(|k| *k > 3),
                _ => false,
            };
            check(!fits || refusable, "P06: a list that fits was refused");
            cover("list refused");
        }
    }
}

macro_rules! table {
    ($name:ident, $e:ident, $x:expr, $($v:ident = $c:expr),* $(,)?) => {{
        // forward: the documented code names the documented variant, and back
        $( check($e::from_u16($c) == Some($e::$v), concat!("P24: code of ", stringify!($e), "::", stringify!($v)));
           check($e::$v.to_u16() == $c, concat!("P24: to_u16 of ", stringify!($e), "::", stringify!($v))); )*
        // any code: known exactly if listed, and round trips
        let x: u16 = $x;
        let listed = false $( || x == $c )*;
        match $e::from_u16(x) {
            Some(v) => { check(listed, concat!("P24: unlisted code accepted as ", stringify!($e))); check(v.to_u16() == x, concat!("P24: round trip of ", stringify!($e))); cover(concat!("known ", stringify!($e))); }
            None => { check(!listed, concat!("P24: listed code refused as ", stringify!($e))); cover(concat!("unknown ", stringify!($e))); }
        }
    }};
}
macro_rules! exhaustive {
    ($e:ident, $x:expr) => {{
        let x: u16 = $x;
        let v = $e::from_u16_exhaustive(x);
        check(v.to_u16() == x, concat!("P24: exhaustive round trip of ", stringify!($e)));
        check($e::from_u16(x).unwrap_or($e::Unknown(x)) == v, concat!("P24: exhaustive and plain disagree for ", stringify!($e)));
    }};
}

/// P24: codes of all enumerations, for every 16-bit code
#[no_mangle]
pub extern "C" fn h24_codes() {
    let x = sym_u16("code");
    match choice(9, "enum") {
        0 => {
            table!(tag, Tag, x, Artist = 315, BitsPerSample = 258, CellLength = 265, CellWidth = 264, ColorMap = 320, Compression = 259, Copyright = 33432,
                DateTime = 306, ExtraSamples = 338, FillOrder = 266, FreeByteCounts = 289, FreeOffsets = 288, GrayResponseCurve = 291, GrayResponseUnit = 290,
                HostComputer = 316, ImageDescription = 270, ImageLength = 257, ImageWidth = 256, Make = 271, MaxSampleValue = 281, MinSampleValue = 280,
                Model = 272, NewSubfileType = 254, Orientation = 274, PhotometricInterpretation = 262, PlanarConfiguration = 284, ResolutionUnit = 296,
                RowsPerStrip = 278, SamplesPerPixel = 277, Software = 305, StripByteCounts = 279, StripOffsets = 273, SubfileType = 255, Threshholding = 263,
                XResolution = 282, YResolution = 283, Predictor = 317, TileWidth = 322, TileLength = 323, TileOffsets = 324, TileByteCounts = 325,
                SampleFormat = 339, SMinSampleValue = 340, SMaxSampleValue = 341, JPEGTables = 347, ModelPixelScale = 33550, ModelTransformation = 34264,
                ModelTiepoint = 33922, GeoKeyDirectory = 34735, GeoDoubleParams = 34736, GeoAsciiParams = 34737, GdalNodata = 42113, GdalMetadata = 42112,
                LercParameters = 50674);
            exhaustive!(Tag, x);
        }
        1 => table!(t, Type, x, BYTE = 1, ASCII = 2, SHORT = 3, LONG = 4, RATIONAL = 5, SBYTE = 6, UNDEFINED = 7, SSHORT = 8, SLONG = 9, SRATIONAL = 10,
            FLOAT = 11, DOUBLE = 12, IFD = 13, LONG8 = 16, SLONG8 = 17, IFD8 = 18),
        2 => {
            table!(c, Compression, x, None = 1, Huffman = 2, Fax3 = 3, Fax4 = 4, LZW = 5, JPEG = 6, ModernJPEG = 7, Deflate = 8, OldDeflate = 32946,
                PackBits = 32773, LERC = 34887, LZMA = 34925, WebP = 50001, JPEG2k = 34712, ZSTD = 50000);
            exhaustive!(Compression, x);
        }
        3 => table!(e, ExtraSamples, x, Unspecified = 0, AssociatedAlpha = 1, UnassociatedAlpha = 2),
        4 => table!(p, PhotometricInterpretation, x, WhiteIsZero = 0, BlackIsZero = 1, RGB = 2, RGBPalette = 3, TransparencyMask = 4, CMYK = 5, YCbCr = 6, CIELab = 8),
        5 => table!(p, PlanarConfiguration, x, Chunky = 1, Planar = 2),
        6 => table!(p, Predictor, x, None = 1, Horizontal = 2, FloatingPoint = 3),
        7 => table!(r, ResolutionUnit, x, None = 1, Inch = 2, Centimeter = 3),
        _ => {
            table!(s, SampleFormat, x, Uint = 1, Int = 2, Float = 3, Void = 4);
            exhaustive!(SampleFormat, x);
        }
    }
}
