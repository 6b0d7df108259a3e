//! P04 tags to directory fields, P05 geo keys, P23 header size
use crate::rt::*;
use async_tiff::geo::GeoKeyDirectory;
use async_tiff::tags::*;
use async_tiff::{ImageFileDirectory, TagValue, TIFF};
use std::collections::HashMap;

/// what an accessor says, as numbers
type Seen = Option<Vec<u64>>;

fn text(s: Option<&str>) -> Seen {
    s.map(|s| s.bytes().map(|b| b as u64).collect())
}
fn nums<T: Copy>(s: Option<&[T]>, f: fn(T) -> u64) -> Seen {
    s.map(|s| s.iter().map(|x| f(*x)).collect())
}
fn bits(x: f64) -> u64 {
    x.to_bits()
}

/// every accessor of a directory, keyed by its tag code
pub fn view(d: &ImageFileDirectory) -> Vec<(u16, Seen)> {
    let one = |v: u64| Some(vec![v]);
    let opt = |v: Option<u64>| v.map(|v| vec![v]);
    vec![
        (254, opt(d.new_subfile_type().map(|v| v as u64))),
        (256, one(d.image_width() as u64)),
        (257, one(d.image_height() as u64)),
        (258, nums(Some(d.bits_per_sample()), |v| v as u64)),
        (259, one(d.compression().to_u16() as u64)),
        (262, one(d.photometric_interpretation().to_u16() as u64)),
        (269, text(d.document_name())),
        (270, text(d.image_description())),
        (273, nums(d.strip_offsets(), |v| v)),
        (274, opt(d.orientation().map(|v| v as u64))),
        (277, one(d.samples_per_pixel() as u64)),
        (278, opt(d.rows_per_strip().map(|v| v as u64))),
        (279, nums(d.strip_byte_counts(), |v| v)),
        (280, nums(d.min_sample_value(), |v| v as u64)),
        (281, nums(d.max_sample_value(), |v| v as u64)),
        (282, opt(d.x_resolution().map(bits))),
        (283, opt(d.y_resolution().map(bits))),
        (284, one(d.planar_configuration().to_u16() as u64)),
        (296, opt(d.resolution_unit().map(|v| v.to_u16() as u64))),
        (305, text(d.software())),
        (306, text(d.date_time())),
        (315, text(d.artist())),
        (316, text(d.host_computer())),
        (317, opt(d.predictor().map(|v| v.to_u16() as u64))),
        (320, nums(d.colormap().map(|c| &c[..]), |v| v as u64)),
        (322, opt(d.tile_width().map(|v| v as u64))),
        (323, opt(d.tile_height().map(|v| v as u64))),
        (324, nums(d.tile_offsets(), |v| v)),
        (325, nums(d.tile_byte_counts(), |v| v)),
        (338, nums(d.extra_samples(), |v| v.to_u16() as u64)),
        (339, nums(Some(d.sample_format()), |v| v.to_u16() as u64)),
        (347, nums(d.jpeg_tables(), |v| v as u64)),
        (33432, text(d.copyright())),
        (33550, nums(d.model_pixel_scale(), bits)),
        (33922, nums(d.model_tiepoint(), bits)),
        (34264, nums(d.model_transformation(), bits)),
        (42112, text(d.gdal_metadata())),
        (42113, text(d.gdal_nodata())),
        (50674, nums(d.lerc_parameters(), |v| v as u64)),
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    U16,
    U32,
    U16s,
    U32s,
    U64s,
    U8s,
    F64s,
    Text,
    Ratio,
    Code,
    Codes,
}
/// the tags with an accessor and what they hold
const TAGS: [(u16, K); 39] = [
    (254, K::U32), (256, K::U32), (257, K::U32), (258, K::U16s), (259, K::Code), (262, K::Code), (269, K::Text), (270, K::Text), (273, K::U64s), (274, K::U16),
    (277, K::U16), (278, K::U32), (279, K::U64s), (280, K::U16s), (281, K::U16s), (282, K::Ratio), (283, K::Ratio), (284, K::Code), (296, K::Code),
    (305, K::Text), (306, K::Text), (315, K::Text), (316, K::Text), (317, K::Code), (320, K::U16s), (322, K::U32), (323, K::U32), (324, K::U64s), (325, K::U64s),
    (338, K::Codes), (339, K::Codes), (347, K::U8s), (33432, K::Text), (33550, K::F64s), (33922, K::F64s), (34264, K::F64s), (42112, K::Text), (42113, K::Text), (50674, K::U32s),
];

/// is the code one this tag may hold? (unknown compression and sample formats are kept as such)
fn code_ok(tag: u16, c: u16) -> bool {
    match tag {
        262 => c <= 6 || c == 8,
        284 => c == 1 || c == 2,
        317 => c >= 1 && c <= 3,
        338 => c <= 2,
        _ => true,
    }
}

/// a value for a tag: `w` chooses how wide integers are written, `n` how many values
fn value(tag: u16, k: K, w: usize, n: usize) -> (TagValue, Seen, bool) {
    let mut ok = true;
    let mut out = vec![];
    let mut vals = vec![];
    let count = match k {
        K::U16 | K::U32 | K::Ratio | K::Code | K::Text => 1,
        _ => n,
    };
    for i in 0..count {
        let (v, x) = match k {
            K::Text => {
                let c = sym_vec(n, "text");
                for b in &c {
                    assume(*b < 128);
                }
                out.extend(c.iter().map(|b| *b as u64));
                let s = unsafe { String::from_utf8_unchecked(c) };
                return (TagValue::Ascii(s), Some(out), true);
            }
            K::U8s => {
                let b = sym_u8("byte");
                (TagValue::Byte(b), b as u64)
            }
            K::F64s => {
                let b = sym_u64("double");
                (TagValue::Double(f64::from_bits(b)), b)
            }
            K::Ratio => {
                let (a, b) = (sym_u32("num"), sym_u32("den"));
                (TagValue::Rational(a, b), (a as f64 / b as f64).to_bits())
            }
            _ => {
                let x = match k {
                    K::U16 | K::U16s => sym_u16("short") as u64,
                    K::Code | K::Codes => {
                        // in long lists some codes are fixed
                        let c = if n > 4 && i != n / 2 && i + 1 < n { 1 + (i % 2) as u16 } else { sym_u16("code") };
                        ok &= code_ok(tag, c);
                        c as u64
                    }
                    K::U32 | K::U32s => {
                        if w == 0 {
                            sym_u16("short") as u64
                        } else {
                            sym_u32("long") as u64
                        }
                    }
                    _ => match w {
                        0 => sym_u16("short") as u64,
                        1 => sym_u32("long") as u64,
                        _ => sym_u64("long8"),
                    },
                };
                let v = match w {
                    0 => TagValue::Short(x as u16),
                    1 => TagValue::Unsigned(x as u32),
                    _ => TagValue::UnsignedBig(x),
                };
                (v, x)
            }
        };
        vals.push(v);
        out.push(x);
    }
    let v = if count == 1 { vals.pop().unwrap() } else { TagValue::List(vals) };
    (v, Some(out), ok)
}

pub fn required(m: &mut HashMap<Tag, TagValue>) {
    m.insert(Tag::ImageWidth, TagValue::Unsigned(640));
    m.insert(Tag::ImageLength, TagValue::Short(480));
    m.insert(Tag::BitsPerSample, TagValue::List(vec![TagValue::Short(8), TagValue::Short(16)]));
    m.insert(Tag::PhotometricInterpretation, TagValue::Short(2));
    m.insert(Tag::SamplesPerPixel, TagValue::Short(2));
}
fn defaults(tag: u16) -> Seen {
    match tag {
        256 => Some(vec![640]),
        257 => Some(vec![480]),
        258 => Some(vec![8, 16]),
        259 => Some(vec![1]),
        262 => Some(vec![2]),
        277 => Some(vec![2]),
        284 => Some(vec![1]),
        339 => Some(vec![1, 1]),
        _ => None,
    }
}
fn same(a: &Seen, b: &Seen) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y)),
        _ => false,
    }
}
fn tag(c: u16) -> Tag {
    Tag::from_u16_exhaustive(c)
}

/// P04: each tag alone, any value in every accepted width
#[no_mangle]
pub extern "C" fn h04_one() {
    let e = endian("endian");
    let (t, k) = TAGS[choice(TAGS.len(), "tag")];
    let w = match k {
        K::U16 | K::U16s | K::Code | K::Codes | K::U32 | K::U32s | K::U64s => choice(3, "width"),
        _ => 0,
    };
    let n = match k {
        K::U16 | K::U32 | K::Ratio | K::Code => 1,
        _ => pick(if thorough() { &[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 257, 1030, 4100][..] } else { &[0, 1, 2, 3, 4, 5, 8, 9, 17, 65, 257, 1030] }, "values"),
    };
    // one SHORT is only read as such
    let w = if n == 1 && matches!(k, K::U16s | K::Codes) { 0 } else { w };
    let mut m = HashMap::new();
    required(&mut m);
    let (v, want, ok) = if t == 277 {
        // also sets how many sample formats there are by default
        let n = pick(&[0u16, 1, 2, 3, 4, 5, 9, 256, 300], "samples");
        (if w == 0 { TagValue::Short(n) } else { TagValue::Unsigned(n as u32) }, Some(vec![n as u64]), true)
    } else {
        value(t, k, w, n)
    };
    m.insert(tag(t), v);
    let must_fail = t == 258 && n == 0;
    let d = match ImageFileDirectory::from_tags(m, e) {
        Ok(d) => d,
        Err(_) => {
            // 8-bit bytes and bit lists cannot be written in wider types
            check(!ok || must_fail, "P04: a valid tag value was rejected");
            cover("rejected");
            return;
        }
    };
    check(ok, "P04: an unknown code was accepted");
    check(!must_fail, "P04: an empty BitsPerSample was accepted");
    for (c, got) in view(&d) {
        if c == t {
            if t == 296 {
                // an unknown resolution unit is none
                let x = want.as_ref().unwrap()[0];
                let known = x >= 1 && x <= 3;
                check(if known { same(&got, &want) } else { got.is_none() }, "P04: wrong resolution unit");
            } else {
                check(same(&got, &want), "P04: a field does not hold the value of its tag");
            }
        } else if t == 277 && c == 339 {
            let n = want.as_ref().unwrap()[0] as usize;
            check(same(&got, &Some(vec![1; n])), "P04: wrong default sample format");
        } else {
            check(same(&got, &defaults(c)), "P04: a tag changed another field or a default is wrong");
        }
    }
    check(d.other_tags().is_empty(), "P04: a known tag ended up in other_tags");
    check(d.geo_key_directory().is_none(), "P04: geo keys from nowhere");
    if let Some(w) = &want {
        for x in w {
            observe_u64(*x, "value");
        }
    }
    cover("accepted");
}

fn code(c: u16, n: usize) -> (TagValue, Seen, bool) {
    let v = if n == 1 { TagValue::Short(c) } else { TagValue::List((0..n).map(|_| TagValue::Short(c)).collect()) };
    (v, Some(vec![c as u64; n]), true)
}
const OTHER: [u16; 10] = [255, 263, 264, 266, 271, 290, 340, 65000, 1, 700];

/// P04: all tags at once
#[no_mangle]
pub extern "C" fn h04_all() {
    let e = endian("endian");
    let n = pick(&[1usize, 2, 3, 5], "values");
    let mut m = HashMap::new();
    let mut want = vec![];
    for (t, k) in TAGS {
        let (v, s, ok) = match t {
            277 => (TagValue::Short(4), Some(vec![4]), true),
            // the codes themselves are h04_one's and P24's business
            259 => code(5, 1),
            262 => code(6, 1),
            284 => code(2, 1),
            296 => code(3, 1),
            317 => code(2, 1),
            338 => code(1, n),
            339 => code(3, n),
            _ => value(t, k, if k == K::U16s { 0 } else { 1 }, n),
        };
        check(ok, "harness: code out of range");
        m.insert(tag(t), v);
        want.push((t, s));
    }
    let mut other = vec![];
    for t in OTHER {
        let x = sym_u32("other");
        m.insert(tag(t), TagValue::Unsigned(x));
        other.push(x);
    }
    let d = match ImageFileDirectory::from_tags(m, e) {
        Ok(d) => d,
        Err(_) => return check(false, "P04: a directory with all tags was rejected"),
    };
    for ((c, got), (t, w)) in view(&d).iter().zip(&want) {
        check(c == t && same(got, w), "P04: fields mixed up between tags");
    }
    check(d.other_tags().len() == OTHER.len(), "P04: wrong number of other tags");
    for (i, t) in OTHER.iter().enumerate() {
        check(d.other_tags().get(&tag(*t)) == Some(&TagValue::Unsigned(other[i])), "P04: an unrecognised tag is lost or changed");
    }
    cover("all tags");
}

/// P04: unrecognised tags are kept whatever their value, alone or many of them
#[no_mangle]
pub extern "C" fn h04_other() {
    let e = endian("endian");
    let values = [
        TagValue::List(vec![]),
        TagValue::Ascii(String::new()),
        TagValue::Ascii("a|b c".to_string()),
        TagValue::Byte(sym_u8("byte")),
        TagValue::SignedByte(sym_u8("byte") as i8),
        TagValue::Short(sym_u16("short")),
        TagValue::SignedShort(sym_u16("short") as i16),
        TagValue::Unsigned(sym_u32("long")),
        TagValue::Signed(sym_u32("long") as i32),
        TagValue::UnsignedBig(sym_u64("long8")),
        TagValue::SignedBig(sym_u64("long8") as i64),
        TagValue::Ifd(sym_u32("ifd")),
        TagValue::IfdBig(sym_u64("ifd8")),
        TagValue::Rational(sym_u32("num"), sym_u32("den")),
        TagValue::SRational(sym_u32("num") as i32, sym_u32("den") as i32),
        TagValue::Float(-1.5),
        TagValue::Double(1e300),
        TagValue::List(vec![TagValue::Byte(sym_u8("item")); 20]),
        TagValue::List(vec![TagValue::Double(0.25), TagValue::Double(-0.25)]),
    ];
    let first = pick(&OTHER, "tag");
    let n = pick(&[1usize, 2, 40, 300], "tags");
    let k = choice(values.len(), "value");
    let mut m = HashMap::new();
    required(&mut m);
    let code = |i: usize| if i == 0 { first } else { 60000 + i as u16 };
    for i in 0..n {
        m.insert(tag(code(i)), values[(k + i) % values.len()].clone());
    }
    let d = match ImageFileDirectory::from_tags(m, e) {
        Ok(d) => d,
        Err(_) => return check(false, "P04: a directory with unrecognised tags was rejected"),
    };
    check(d.other_tags().len() == n, "P04: wrong number of other tags");
    for i in 0..n {
        check(d.other_tags().get(&tag(code(i))) == Some(&values[(k + i) % values.len()]), "P04: an unrecognised tag is lost or changed");
    }
    cover("other");
}

/// P04: a missing or mistyped required tag is an error
#[no_mangle]
pub extern "C" fn h04_missing() {
    let mut m = HashMap::new();
    required(&mut m);
    let t = pick(&[0u16, 256, 257, 258, 262, 277], "missing");
    let how = choice(2, "how");
    if t != 0 {
        if how == 0 {
            m.remove(&tag(t));
        } else {
            m.insert(tag(t), TagValue::Double(f64::from_bits(sym_u64("double"))));
        }
    }
    let r = ImageFileDirectory::from_tags(m, endian("endian"));
    check(r.is_ok() == (t == 0), "P04: a directory without a required tag was accepted, or a complete one rejected");
    cover(if t == 0 { "complete" } else { "missing" });
}

// ---------------------------------------------------------------- geo keys
fn geo_view(g: &GeoKeyDirectory) -> Vec<(u16, Seen)> {
    let s = |v: Option<u16>| v.map(|v| vec![v as u64]);
    let f = |v: Option<f64>| v.map(|v| vec![v.to_bits()]);
    let t = |v: &Option<String>| text(v.as_deref());
    vec![
        (1024, s(g.model_type)), (1025, s(g.raster_type)), (1026, t(&g.citation)),
        (2048, s(g.geographic_type)), (2049, t(&g.geog_citation)), (2050, s(g.geog_geodetic_datum)), (2051, s(g.geog_prime_meridian)), (2052, s(g.geog_linear_units)),
        (2053, f(g.geog_linear_unit_size)), (2054, s(g.geog_angular_units)), (2055, f(g.geog_angular_unit_size)), (2056, s(g.geog_ellipsoid)),
        (2057, f(g.geog_semi_major_axis)), (2058, f(g.geog_semi_minor_axis)), (2059, f(g.geog_inv_flattening)), (2060, s(g.geog_azimuth_units)), (2061, f(g.geog_prime_meridian_long)),
        (3072, s(g.projected_type)), (3073, t(&g.proj_citation)), (3074, s(g.projection)), (3075, s(g.proj_coord_trans)), (3076, s(g.proj_linear_units)),
        (3077, f(g.proj_linear_unit_size)), (3078, f(g.proj_std_parallel1)), (3079, f(g.proj_std_parallel2)), (3080, f(g.proj_nat_origin_long)), (3081, f(g.proj_nat_origin_lat)),
        (3082, f(g.proj_false_easting)), (3083, f(g.proj_false_northing)), (3084, f(g.proj_false_origin_long)), (3085, f(g.proj_false_origin_lat)),
        (3086, f(g.proj_false_origin_easting)), (3087, f(g.proj_false_origin_northing)), (3088, f(g.proj_center_long)), (3089, f(g.proj_center_lat)),
        (3090, f(g.proj_center_easting)), (3091, f(g.proj_center_northing)), (3092, f(g.proj_scale_at_nat_origin)), (3093, f(g.proj_scale_at_center)),
        (3094, f(g.proj_azimuth_angle)), (3095, f(g.proj_straight_vert_pole_long)),
        (4096, s(g.vertical)), (4097, t(&g.vertical_citation)), (4098, s(g.vertical_datum)), (4099, s(g.vertical_units)),
    ]
}
fn geo_kind(key: u16) -> u8 {
    match key {
        1026 | 2049 | 3073 | 4097 => 2,
        2053 | 2055 | 2057..=2059 | 2061 | 3077..=3095 => 1,
        _ => 0,
    }
}
const GEO: [u16; 45] = [
    1024, 1025, 1026, 2048, 2049, 2050, 2051, 2052, 2053, 2054, 2055, 2056, 2057, 2058, 2059, 2060, 2061, 3072, 3073, 3074, 3075, 3076, 3077, 3078, 3079, 3080,
    3081, 3082, 3083, 3084, 3085, 3086, 3087, 3088, 3089, 3090, 3091, 3092, 3093, 3094, 3095, 4096, 4097, 4098, 4099,
];
fn shorts(v: &[u16]) -> TagValue {
    TagValue::List(v.iter().map(|x| TagValue::Short(*x)).collect())
}

/// P05: one key of every kind at every place of the parameter tables, plus one fixed key, in
/// either order, behind an unknown key
#[no_mangle]
pub extern "C" fn h05_key() {
    let key = GEO[choice(GEO.len(), "key")];
    let kind = geo_kind(key);
    // tables of a few values, of one, and long ones read at their end
    let n = pick(&[by_tier(3, 5), 1, 301], "table");
    let place = |k: usize, name: &str| if n == 301 { pick(&[0, 255, 256, 300], name).min(k - 1) } else { choice(k, name) };
    let doubles: Vec<u64> = (0..n).map(|_| sym_u64("double")).collect();
    let ascii = sym_vec(n, "ascii");
    for b in &ascii {
        assume(*b >= 1 && *b < 128);
    }
    let (entry, want): ([u16; 4], Seen) = match kind {
        0 => {
            let v = sym_u16("value");
            ([key, 0, 1, v], Some(vec![v as u64]))
        }
        1 => {
            let o = place(n, "offset");
            ([key, 34736, 1, o as u16], Some(vec![doubles[o]]))
        }
        _ => {
            let o = place(n + 1, "offset");
            let c = place(n + 1 - o, "count");
            let mut s: Vec<u64> = ascii[o..o + c].iter().map(|b| *b as u64).collect();
            if c > 0 && ascii[o + c - 1] == b'|' {
                s.pop();
                cover("terminator removed");
            }
            ([key, 34737, c as u16, o as u16], Some(s))
        }
    };
    let fixed = sym_u16("fixed");
    let fkey = if key == 3076 { 1025 } else { 3076 };
    let other = [fkey, 0, 1, fixed];
    let unknown = [5000, 0, 1, 77];
    let mut dir = vec![1, 1, sym_u16("minor"), 3];
    let seq = match choice(3, "order") {
        0 => [entry, other, unknown],
        1 => [unknown, other, entry],
        _ => [other, unknown, entry],
    };
    for e in seq {
        dir.extend_from_slice(&e);
    }
    let mut m = HashMap::new();
    required(&mut m);
    m.insert(Tag::GeoKeyDirectory, shorts(&dir));
    let mut params: Vec<TagValue> = doubles.iter().map(|d| TagValue::Double(f64::from_bits(*d))).collect();
    // one value alone is read as such, not as a list
    m.insert(Tag::GeoDoubleParams, if n == 1 { params.pop().unwrap() } else { TagValue::List(params) });
    m.insert(Tag::GeoAsciiParams, TagValue::Ascii(unsafe { String::from_utf8_unchecked(ascii) }));
    let d = match ImageFileDirectory::from_tags(m, endian("endian")) {
        Ok(d) => d,
        Err(_) => return check(false, "P05: a valid geo key directory was rejected"),
    };
    let g = match d.geo_key_directory() {
        Some(g) => g,
        None => return check(false, "P05: geo keys lost"),
    };
    for (k, got) in geo_view(g) {
        if k == key {
            check(same(&got, &want), "P05: wrong value of a geo key");
        } else if k == fkey {
            check(same(&got, &Some(vec![fixed as u64])), "P05: wrong value of a second geo key");
        } else {
            check(got.is_none(), "P05: a geo key nobody wrote");
        }
    }
    let p = if key == 3072 || key == 2048 { Some(want.unwrap()[0] as u16) } else { None };
    check(g.epsg_code() == p, "P05: wrong EPSG code");
    check(d.other_tags().is_empty(), "P05: geo tags left in other_tags");
    cover(match kind {
        0 => "short key",
        1 => "double key",
        _ => "ascii key",
    });
}

/// P05: all keys at once, each with its own value; EPSG prefers the projected code
#[no_mangle]
pub extern "C" fn h05_all() {
    let skip = pick(&[0u16, 3072, 2048], "absent");
    let mut dir = vec![1, 1, 0, 0];
    // unknown keys in front
    for k in 0..pick(&[0u16, 3, 100], "unknown") {
        dir[3] += 1;
        dir.extend_from_slice(&[5000 + k, 0, 1, k]);
    }
    let (mut doubles, mut ascii) = (vec![], vec![]);
    let mut want = vec![];
    for key in GEO {
        if key == skip {
            want.push((key, None));
            continue;
        }
        dir[3] += 1;
        match geo_kind(key) {
            0 => {
                let v = sym_u16("short");
                dir.extend_from_slice(&[key, 0, 1, v]);
                want.push((key, Some(vec![v as u64])));
            }
            1 => {
                let v = sym_u64("double");
                dir.extend_from_slice(&[key, 34736, 1, doubles.len() as u16]);
                doubles.push(TagValue::Double(f64::from_bits(v)));
                want.push((key, Some(vec![v])));
            }
            _ => {
                let c = sym_u8("char");
                assume(c >= 1 && c < 128 && c != b'|');
                dir.extend_from_slice(&[key, 34737, 2, ascii.len() as u16]);
                ascii.extend_from_slice(&[c, b'|']);
                want.push((key, Some(vec![c as u64])));
            }
        }
    }
    let mut m = HashMap::new();
    required(&mut m);
    m.insert(Tag::GeoKeyDirectory, shorts(&dir));
    m.insert(Tag::GeoDoubleParams, TagValue::List(doubles));
    m.insert(Tag::GeoAsciiParams, TagValue::Ascii(unsafe { String::from_utf8_unchecked(ascii) }));
    let d = match ImageFileDirectory::from_tags(m, endian("endian")) {
        Ok(d) => d,
        Err(_) => return check(false, "P05: a directory with all geo keys was rejected"),
    };
    let g = d.geo_key_directory().unwrap();
    for ((k, got), (w, x)) in geo_view(g).iter().zip(&want) {
        check(k == w && same(got, x), "P05: geo keys mixed up");
    }
    let at = |k: u16| want.iter().find(|w| w.0 == k).unwrap().1.clone().map(|v| v[0] as u16);
    check(g.epsg_code() == at(3072).or(at(2048)), "P05: EPSG code does not prefer the projected CRS");
    cover("all keys");
}

/// P05/P07: any directory contents: an answer or an error
#[no_mangle]
pub extern "C" fn h05_malformed() {
    let len = choice(by_tier(10, 14), "shorts");
    let mut dir: Vec<u16> = (0..len).map(|_| sym_u16("short")).collect();
    // keys and locations out of a list, so that every kind meets every place
    if len >= 8 {
        dir[4] = pick(&[1024u16, 2057, 3073, 5000], "key");
        dir[5] = pick(&[0u16, 34735, 34736, 34737, 9], "location");
    }
    if len >= 12 {
        dir[8] = pick(&[1025u16, 1024], "key");
        dir[9] = 0;
    }
    if len >= 4 {
        // more keys than there are entries is an error however many they are
        dir[3] = pick(&[0u16, 1, 2, 3, 65535], "keys");
    }
    let mut m = HashMap::new();
    required(&mut m);
    m.insert(Tag::GeoKeyDirectory, shorts(&dir));
    let nd = choice(3, "doubles");
    if nd > 0 {
        m.insert(Tag::GeoDoubleParams, TagValue::List((1..nd).map(|_| TagValue::Double(1.5)).collect()));
    }
    let na = choice(3, "ascii");
    if na > 0 {
        m.insert(Tag::GeoAsciiParams, TagValue::Ascii(if na == 1 { String::new() } else { "a\u{e9}|".to_string() }));
    }
    let r = ImageFileDirectory::from_tags(m, endian("endian"));
    let header_ok = len >= 4 && dir[0] == 1 && dir[1] == 1;
    match r {
        Ok(d) => {
            check(header_ok && len / 4 >= 1 + dir[3] as usize, "P05: a geo key directory with a bad header or missing entries was accepted");
            if dir[3] >= 1 && dir[4] == 2057 {
                let g = d.geo_key_directory().unwrap();
                if let Some(v) = g.geog_semi_major_axis {
                    check(v == 1.5 && dir[5] == 34736 && dir[7] == 0 && dir[6] == 1, "P05: a value from outside the parameter table");
                }
            }
            cover("accepted");
        }
        Err(_) => cover("rejected"),
    }
}

/// P23: the smallest offset of any tile or strip, zero (absent) ones aside
#[no_mangle]
pub extern "C" fn h23_header_size() {
    let shapes: &[&[(usize, usize)]] = if thorough() {
        &[&[(1, 0)], &[(0, 2)], &[(2, 1)], &[(1, 0), (1, 0)], &[(0, 1), (2, 0)], &[(1, 1), (0, 1)], &[(0, 0), (3, 0)], &[(1, 0), (0, 1), (1, 0)]]
    } else {
        &[&[(1, 0)], &[(0, 2)], &[(1, 1)], &[(1, 0), (1, 0)], &[(0, 1), (1, 0)], &[(0, 0), (0, 2)], &[(2, 1)], &[(1, 0), (0, 1), (1, 0)]]
    };
    let shape = shapes[choice(shapes.len(), "shape")];
    let n = shape.len();
    let e = endian("endian");
    let mut ifds = vec![];
    let mut all = vec![];
    let mut some = false;
    for (tiles, strips) in shape {
        let mut m = HashMap::new();
        required(&mut m);
        for (t, k) in [(Tag::TileOffsets, *tiles), (Tag::StripOffsets, *strips)] {
            if k == 0 {
                continue;
            }
            let mut l = vec![];
            for _ in 0..k {
                let o = sym_u64("offset");
                some |= o != 0;
                all.push(o);
                l.push(TagValue::UnsignedBig(o));
            }
            m.insert(t, TagValue::List(l));
        }
        ifds.push(ImageFileDirectory::from_tags(m, e).unwrap());
    }
    // without any offset it is documented to panic
    assume(some);
    let t = TIFF::new(ifds, e);
    let got = t.header_byte_size();
    check(got != 0 && all.iter().fold(false, |r, o| r | (*o == got)), "P23: header_byte_size is no offset of any tile or strip");
    check(all.iter().fold(true, |r, o| r & ((*o == 0) | (*o >= got))), "P23: header_byte_size is not the smallest non-zero offset");
    check(t.endianness() == e && t.ifds().len() == n, "P23: TIFF does not hold what it was given");
    observe_u64(got, "size");
    cover("size");
}
