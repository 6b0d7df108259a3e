//! P01 header, P02 tag values, P03 IFD chain
use crate::rt::*;
use async_tiff::metadata::{ImageFileDirectoryReader, TiffMetadataReader};
use async_tiff::reader::Endianness;
use async_tiff::tags::Tag;
use async_tiff::TagValue;

/// P01: any first 16 bytes, any file length up to 16
#[no_mangle]
pub extern "C" fn h01_header() {
    let b = sym_vec(16, "header");
    let n = choice(17, "file_length");
    let f = SparseFile::of(b[..n].to_vec());
    let r = block_on(TiffMetadataReader::try_open(&f));
    let le = n >= 2 && b[0] == b'I' && b[1] == b'I';
    let be = n >= 2 && b[0] == b'M' && b[1] == b'M';
    let g = |i: usize, l: usize| get(&b[i..i + l], be);
    let classic = n >= 8 && g(2, 2) == 42;
    let big = n >= 16 && g(2, 2) == 43 && g(4, 2) == 8 && g(6, 2) == 0;
    let valid = (le || be) && (classic || big);
    match r {
        Ok(m) => {
            check(valid, "P01: a header that is not a TIFF header was accepted");
            check((m.endianness() == Endianness::BigEndian) == be, "P01: wrong byte order");
            check(m.bigtiff() == big, "P01: wrong classic/BigTIFF flag");
            check(m.has_next_ifd(), "P01: no IFD announced");
            let want = if big { g(8, 8) } else { g(4, 4) };
            check(m.next_ifd_offset() == Some(want), "P01: wrong first IFD offset");
            observe_u64(want, "first_ifd");
            cover(if big { "bigtiff" } else { "classic" });
            cover(if be { "big endian" } else { "little endian" });
        }
        Err(_) => {
            check(!valid, "P01: a valid TIFF header was rejected");
            cover("rejected");
        }
    }
    for r in f.requests() {
        check(r.end <= 16 && r.start <= r.end, "P01: header parsing read outside the header");
    }
}

const TYPES: [(u16, usize); 16] = [
    (1, 1), (2, 1), (3, 2), (4, 4), (5, 8), (6, 1), (7, 1), (8, 2), (9, 4), (10, 8), (11, 4), (12, 8), (13, 4), (16, 8), (17, 8), (18, 8),
];

/// does `v` hold the value encoded by the bytes `b` of type `t`?
fn scalar_is(v: &TagValue, t: u16, b: &[u8], be: bool) -> bool {
    let u = |b: &[u8]| get(b, be);
    match (t, v) {
        (1, TagValue::Byte(x)) | (7, TagValue::Byte(x)) => *x == b[0],
        (6, TagValue::SignedByte(x)) => *x as u8 == b[0],
        (3, TagValue::Short(x)) => *x as u64 == u(b),
        (8, TagValue::SignedShort(x)) => *x as u16 as u64 == u(b),
        (4, TagValue::Unsigned(x)) => *x as u64 == u(b),
        (9, TagValue::Signed(x)) => *x as u32 as u64 == u(b),
        (13, TagValue::Ifd(x)) => *x as u64 == u(b),
        (11, TagValue::Float(x)) => x.to_bits() as u64 == u(b),
        (12, TagValue::Double(x)) => x.to_bits() == u(b),
        (5, TagValue::Rational(n, d)) => *n as u64 == u(&b[..4]) && *d as u64 == u(&b[4..]),
        (10, TagValue::SRational(n, d)) => *n as u32 as u64 == u(&b[..4]) && *d as u32 as u64 == u(&b[4..]),
        (16, TagValue::UnsignedBig(x)) => *x == u(b),
        (17, TagValue::SignedBig(x)) => *x as u64 == u(b),
        (18, TagValue::IfdBig(x)) => *x == u(b),
        _ => false,
    }
}

fn values(counts: &[usize], kinds: &[(u16, usize)], any_index: bool) {
    let (typ, size) = pick(kinds, "type");
    let n = pick(counts, "count");
    let big = flag("bigtiff");
    let e = endian("endian");
    let be = is_be(e);
    let raw = if typ == 2 {
        // a terminated string: `k` characters, then NULs
        let k = choice(n.max(1), "string_length");
        let mut b = sym_vec(k, "value");
        for c in &b {
            assume(*c >= 1 && *c <= 127);
        }
        b.resize(n, 0);
        b
    } else {
        sym_vec(n * size, "value")
    };
    let inline = raw.len() <= off_size(big);
    // where things are: the directory and the value, anywhere in the file
    let ifd = sym_u64("ifd_offset");
    let idx = if any_index { sym_u16("index") as u64 & if thorough() { 0xffff } else { 0x3ff } } else { pick(&[0, 3], "index") };
    let total = if big { sym_u64("entries") } else { sym_u16("entries") as u64 };
    assume(idx < total && idx < 1 << 40 && ifd < 1 << 61);
    let at = if big { sym_u64("value_offset") } else { sym_u32("value_offset") as u64 };
    assume(at < 1 << 62);
    let tag = if any_index { 270 } else { pick(&[270u16, 0xABCD], "tag") };
    let mut field = Vec::new();
    if inline {
        field = raw.clone();
        let pad = sym_vec(off_size(big) - raw.len(), "padding");
        field.extend_from_slice(&pad);
    } else {
        put(&mut field, at, off_size(big), be);
    }
    let mut ent = Vec::new();
    put_entry(&mut ent, &Entry { tag, typ, count: n as u64, field }, big, be);
    // bytes behind the entry exist in a real file (the next entry or the next-IFD pointer)
    ent.extend_from_slice(&[0xEE; 8]);
    let mut head = Vec::new();
    put(&mut head, total, count_size(big), be);
    let epos = ifd + count_size(big) as u64 + entry_size(big) as u64 * idx;
    let mut f = SparseFile::new();
    f.add(epos, ent);
    let val = raw.clone();
    if !inline {
        // the value lies outside the entry
        assume(at >= epos + 40 || at + 16 + val.len() as u64 <= epos);
        f.add(at, val);
    }
    let mut fh = SparseFile::new();
    fh.add(ifd, head);
    let got = block_on(async {
        let r = ImageFileDirectoryReader::open(&fh, ifd, big, e).await?;
        r.read_tag(&f, idx).await
    });
    let (t, v) = match got {
        Ok(x) => x,
        Err(_) => {
            check(false, "P02: a well-formed entry was not read");
            return;
        }
    };
    check(t.to_u16() == tag, "P02: wrong tag");
    cover(match (inline, big) {
        (true, false) => "inline classic",
        (true, true) => "inline big",
        (false, false) => "offset classic",
        (false, true) => "offset big",
    });
    if n == 0 {
        check(matches!(&v, TagValue::List(l) if l.is_empty()), "P02: a count of zero is not the empty list");
        return;
    }
    if typ == 2 {
        let end = raw.iter().position(|c| *c == 0).unwrap();
        match &v {
            TagValue::Ascii(s) => {
                check(s.as_bytes() == &raw[..end], "P02: wrong string");
                observe(s.as_bytes(), "string");
            }
            _ => check(false, "P02: ASCII did not give a string"),
        }
        return;
    }
    if n == 1 {
        check(scalar_is(&v, typ, &raw, be), "P02: wrong value");
    } else {
        match &v {
            TagValue::List(l) => {
                check(l.len() == n, "P02: wrong number of values");
                for i in 0..n {
                    check(scalar_is(&l[i], typ, &raw[i * size..(i + 1) * size], be), "P02: wrong value in a list");
                }
            }
            _ => check(false, "P02: several values did not give a list"),
        }
    }
    observe(&raw, "value");
}

/// P02: all types, both layouts, both byte orders, inline and at any offset
#[no_mangle]
pub extern "C" fn h02_values() {
    if thorough() {
        values(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17], &TYPES, false)
    } else {
        values(&[0, 1, 2, 3, 4, 5, 8, 9], &TYPES, false)
    }
}

/// P02: any entry of a directory with any number of entries
#[no_mangle]
pub extern "C" fn h02_index() {
    values(&[1, 3], &[(3, 2), (4, 4)], true)
}

/// P02: long lists and texts, every recognised tag
#[no_mangle]
pub extern "C" fn h02_long() {
    let big = flag("bigtiff");
    let e = endian("endian");
    let be = is_be(e);
    let (code, typ, size, n) = if flag("tags") {
        // every recognised tag (and two others) with a few values
        let code = pick(&ALL_TAGS, "tag");
        let (typ, size) = pick(&[(2u16, 1usize), (3, 2), (4, 4)], "type");
        (code, typ, size, pick(&[2usize, 6], "count"))
    } else {
        const ALL: [(u16, usize); 16] = [(1, 1), (2, 1), (3, 2), (4, 4), (5, 8), (12, 8), (16, 8), (6, 1), (7, 1), (8, 2), (9, 4), (10, 8), (11, 4), (13, 4), (17, 8), (18, 8)];
        let n = pick(if thorough() { &[15usize, 16, 31, 33, 64, 127, 128, 255, 256, 257, 511, 513, 1024, 4097, 16385, 33000, 65537][..] } else { &[16, 33, 64, 129, 256, 1025, 33000] }, "count");
        // sizes that only image data tables have
        let (typ, size) = if n > 1025 { pick(if thorough() { &ALL[..7] } else { &ALL }, "type") } else if n > 257 { pick(&ALL[..7], "type") } else { pick(&ALL, "type") };
        (42112, typ, size, n)
    };
    let mut raw = if n <= 1025 {
        sym_vec(n * size, "value")
    } else {
        // some of the bytes are any
        let mut v: Vec<u8> = (0..n * size).map(|i| 1 + (i ^ (i >> 8)) as u8 % 127).collect();
        for at in [0, 4096 * size - 32, 16384 * size - 16, n * size - 32].into_iter().filter(|a| a + 32 <= n * size) {
            fill(&mut v[at..at + 32], "value");
        }
        v
    };
    if typ == 2 {
        for c in &raw {
            assume(*c >= 1 && *c <= 127);
        }
        raw[n - 1] = 0;
    }
    let mut ent = Vec::new();
    let inline = raw.len() <= off_size(big);
    let mut field = Vec::new();
    if inline {
        field = raw.clone();
        field.resize(off_size(big), 0);
    } else {
        put(&mut field, 5000, off_size(big), be);
    }
    put(&mut ent, 1, count_size(big), be);
    put_entry(&mut ent, &Entry { tag: code, typ, count: n as u64, field }, big, be);
    ent.extend_from_slice(&[0; 8]);
    let mut f = SparseFile::new();
    f.add(200, ent);
    f.add(5000, raw.clone());
    let got = block_on(async {
        let r = ImageFileDirectoryReader::open(&f, 200, big, e).await?;
        r.read_tag(&f, 0).await
    });
    let (t, v) = match got {
        Ok(x) => x,
        Err(_) => return check(false, "P02: a well-formed entry was not read"),
    };
    check(t.to_u16() == code, "P02: wrong tag");
    match &v {
        TagValue::Ascii(s) => check(typ == 2 && s.as_bytes() == &raw[..n - 1], "P02: wrong string"),
        TagValue::List(l) => {
            check(typ != 2 && l.len() == n, "P02: wrong number of values");
            check(l.iter().zip(raw.chunks(size)).fold(true, |r, (v, b)| r & scalar_is(v, typ, b, be)), "P02: wrong value in a list");
        }
        _ => check(false, "P02: several values did not give a list"),
    }
    cover(if inline { "short" } else { "long" });
}
const ALL_TAGS: [u16; 56] = [
    254, 255, 256, 257, 258, 259, 262, 263, 264, 265, 266, 270, 271, 272, 273, 274, 277, 278, 279, 280, 281, 282, 283, 284, 288, 289, 290, 291, 296, 305, 306, 315, 316, 317, 320, 322, 323, 324, 325, 338, 339,
    340, 341, 347, 33432, 33550, 33922, 34264, 34735, 34736, 34737, 42112, 42113, 50674, 269, 65000,
];

fn minimal(w: u32, h: u32, be: bool) -> Vec<Entry> {
    vec![long(256, w, be), long(257, h, be), short(258, 8, be), short(262, 1, be), short(277, 1, be)]
}

/// P03: chains of up to N directories at arbitrary offsets, ending or looping back anywhere
#[no_mangle]
pub extern "C" fn h03_chain() {
    let big = flag("bigtiff");
    let e = endian("endian");
    let be = is_be(e);
    let n = 1 + choice(by_tier(3, 4), "directories");
    let mut off = Vec::new();
    let mut w = Vec::new();
    for i in 0..n {
        let o = if big { sym_u64("offset") } else { sym_u32("offset") as u64 };
        assume(o >= 16 && o < 1 << 62);
        for p in 0..i {
            let q: u64 = off[p];
            // directories do not overlap
            assume(o >= q + 200 || o + 200 <= q);
        }
        off.push(o);
        w.push(sym_u32("width"));
    }
    // where the last directory points: nowhere or back to directory k
    let back = choice(n + 1, "last_next");
    let mut f = SparseFile::new();
    let mut head = Vec::new();
    head.extend_from_slice(if be { b"MM" } else { b"II" });
    put(&mut head, if big { 43 } else { 42 }, 2, be);
    if big {
        put(&mut head, 8, 2, be);
        put(&mut head, 0, 2, be);
    }
    put(&mut head, off[0], off_size(big), be);
    f.add(0, head);
    for i in 0..n {
        let next = if i + 1 < n {
            off[i + 1]
        } else if back == n {
            0
        } else {
            off[back]
        };
        f.add(off[i], put_ifd(&minimal(w[i], 1, be), next, big, be));
    }
    let mut m = match block_on(TiffMetadataReader::try_open(&f)) {
        Ok(m) => m,
        Err(_) => return check(false, "P03: header rejected"),
    };
    let all = flag("read_all");
    if all {
        match block_on(m.read(&f)) {
            Ok(t) => {
                check(back == n, "P03: a chain with a cycle was read to an end");
                check(t.ifds().len() == n, "P03: wrong number of directories");
                check(t.endianness() == e, "P03: wrong byte order of the TIFF");
                for i in 0..n {
                    check(t.ifds()[i].image_width() == w[i], "P03: directories out of order or mixed up");
                }
                check(!m.has_next_ifd() && m.next_ifd_offset().is_none(), "P03: a next directory after the last");
                cover("read all");
            }
            Err(_) => {
                check(back != n, "P03: a well-formed chain was rejected");
                cover("cycle reported by read");
            }
        }
        return;
    }
    for i in 0..n {
        check(m.has_next_ifd(), "P03: chain ends early");
        check(m.next_ifd_offset() == Some(off[i]), "P03: wrong next offset");
        match block_on(m.read_next_ifd(&f)) {
            Ok(Some(d)) => {
                check(d.image_width() == w[i], "P03: wrong directory");
                check(d.image_height() == 1 && d.bits_per_sample() == [8] && d.samples_per_pixel() == 1, "P03: wrong fields");
            }
            _ => return check(false, "P03: directory not read"),
        }
    }
    match block_on(m.read_next_ifd(&f)) {
        Ok(None) => {
            check(back == n, "P03: cycle taken for the end");
            check(!m.has_next_ifd(), "P03: has_next_ifd after the end");
            cover("end");
        }
        Ok(Some(_)) => check(false, "P03: a directory was returned twice"),
        Err(_) => {
            check(back != n, "P03: error at the end of the chain");
            cover("cycle");
        }
    }
}

/// P03: one request fails; asking again goes on as if it had not
#[no_mangle]
pub extern "C" fn h03_retry() {
    let big = flag("bigtiff");
    let be = true;
    let w0 = sym_u32("width0");
    let w1 = sym_u32("width1");
    let mut f = SparseFile::new();
    let (o0, o1) = (1000u64, 64u64);
    f.add(o0, put_ifd(&minimal(w0, 1, be), o1, big, be));
    f.add(o1, put_ifd(&minimal(w1, 2, be), 0, big, be));
    let mut head = b"MM".to_vec();
    put(&mut head, if big { 43 } else { 42 }, 2, be);
    if big {
        put(&mut head, 8, 2, be);
        put(&mut head, 0, 2, be);
    }
    put(&mut head, o0, off_size(big), be);
    f.add(0, head);
    let mut m = match block_on(TiffMetadataReader::try_open(&f)) {
        Ok(m) => m,
        Err(_) => return check(false, "P03: header rejected"),
    };
    let used = f.calls.load(std::sync::atomic::Ordering::Relaxed);
    let at = choice(60, "failing_request");
    f.fail_at = Some(used + at);
    let mut errors = 0;
    for i in 0..2 {
        let mut r = block_on(m.read_next_ifd(&f));
        if r.is_err() {
            errors += 1;
            check(m.next_ifd_offset() == Some(if i == 0 { o0 } else { o1 }), "P03: a failed read moved on");
            r = block_on(m.read_next_ifd(&f));
        }
        match r {
            Ok(Some(d)) => check(d.image_width() == if i == 0 { w0 } else { w1 } && d.image_height() == i + 1, "P03: wrong directory after a retry"),
            _ => return check(false, "P03: retry failed"),
        }
    }
    check(errors <= 1, "P03: one failing request gave two errors");
    check(!m.has_next_ifd(), "P03: chain does not end");
    if errors == 1 {
        cover("failed and retried");
    } else {
        cover("no request failed");
    }
}

/// P03: long chains, and directories with many entries
#[no_mangle]
pub extern "C" fn h03_long() {
    let big = flag("bigtiff");
    let e = endian("endian");
    let be = is_be(e);
    let n = pick(if thorough() { &[5usize, 9, 17, 33, 70, 257][..] } else { &[5, 9, 17, 33, 257] }, "directories");
    let back = if n <= 33 { pick(&[n, 0, 1, n / 2, n - 1], "last_next") } else { pick(&[n, n / 2], "last_next") };
    let down = n > 5 && flag("descending");
    let how = pick(&[0, 1, 2], "call"); // one by one, all, or as a TIFF
    // every third directory has entries nobody knows
    let extra = if n <= 5 { pick(&[0usize, 300, 1100], "unknown_entries") } else { 0 };
    let step = 300 + 20 * extra as u64;
    let at = |i: usize| 64 + step * if down { n - 1 - i } else { i } as u64;
    let mut f = SparseFile::new();
    let mut head = Vec::new();
    head.extend_from_slice(if be { b"MM" } else { b"II" });
    put(&mut head, if big { 43 } else { 42 }, 2, be);
    if big {
        put(&mut head, 8, 2, be);
        put(&mut head, 0, 2, be);
    }
    put(&mut head, at(0), off_size(big), be);
    f.add(0, head);
    let mut w = Vec::new();
    for i in 0..n {
        let next = if i + 1 < n { at(i + 1) } else if back == n { 0 } else { at(back) };
        w.push(sym_u32("width"));
        let mut entries = minimal(w[i], 1, be);
        if i % 3 == 1 {
            for k in 0..extra {
                entries.push(short(50800 + k as u16, k as u16, be));
            }
        }
        f.add(at(i), put_ifd(&entries, next, big, be));
    }
    let mut m = match block_on(TiffMetadataReader::try_open(&f)) {
        Ok(m) => m,
        Err(_) => return check(false, "P03: header rejected"),
    };
    if how > 0 {
        let got = block_on(async {
            if how == 1 {
                m.read_all_ifds(&f).await
            } else {
                m.read(&f).await.map(|t| t.ifds().to_vec())
            }
        });
        match got {
            Ok(all) => {
                check(back == n, "P03: a long chain that loops was accepted");
                check(all.len() == n, "P03: wrong number of directories in a long chain");
                check(!m.has_next_ifd(), "P03: a directory behind the end of a long chain");
                for (i, d) in all.iter().enumerate() {
                    check(d.image_width() == w[i], "P03: a long chain out of order");
                }
            }
            Err(_) => check(back < n, "P03: a long chain was refused"),
        }
        return cover("whole");
    }
    let mut seen = vec![];
    let end = loop {
        if seen.len() > n {
            break false;
        }
        match block_on(m.read_next_ifd(&f)) {
            Ok(Some(d)) => seen.push(d),
            Ok(None) => break true,
            Err(_) => break false,
        }
    };
    check(end == (back == n), "P03: the end of a long chain is not its end");
    check(seen.len() == n, "P03: wrong number of directories in a long chain");
    for i in 0..n {
        check(seen[i].image_width() == w[i], "P03: a long chain out of order");
        check(seen[i].other_tags().len() == if i % 3 == 1 { extra } else { 0 }, "P03: entries lost in a long directory");
    }
    cover(if end { "end" } else { "cycle" });
}

/// P03: the offset of the next directory follows any number of entries
#[no_mangle]
pub extern "C" fn h03_next() {
    let big = flag("bigtiff");
    let e = endian("endian");
    let be = is_be(e);
    let at = if big { sym_u64("offset") } else { sym_u32("offset") as u64 };
    let n = if big { sym_u64("entries") } else { sym_u16("entries") as u64 };
    assume(at < 1 << 60 && n < 1 << 20);
    let next = if big { sym_u64("next") } else { sym_u32("next") as u64 };
    let mut head = vec![];
    put(&mut head, n, count_size(big), be);
    let mut tail = vec![];
    put(&mut tail, next, off_size(big), be);
    let mut f = SparseFile::new();
    f.add(at, head);
    let mut g = SparseFile::new();
    g.add(at + count_size(big) as u64 + n * entry_size(big) as u64, tail);
    let got = block_on(async {
        let r = ImageFileDirectoryReader::open(&f, at, big, e).await?;
        r.finish(&g).await
    });
    match got {
        Ok(v) => check(v == if next == 0 { None } else { Some(next) }, "P03: another next directory than the file names"),
        Err(_) => check(false, "P03: the offset of the next directory was not read"),
    }
    cover(if next == 0 { "last" } else { "next" });
}

pub fn tag(code: u16) -> Tag {
    Tag::from_u16_exhaustive(code)
}
