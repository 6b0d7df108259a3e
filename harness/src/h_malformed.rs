//! P07 malformed metadata: directories or an error
use crate::rt::*;
use async_tiff::metadata::TiffMetadataReader;

fn header(first: u64, big: bool, be: bool) -> Vec<u8> {
    let mut h = Vec::new();
    h.extend_from_slice(if be { b"MM" } else { b"II" });
    put(&mut h, if big { 43 } else { 42 }, 2, be);
    if big {
        put(&mut h, 8, 2, be);
        put(&mut h, 0, 2, be);
    }
    put(&mut h, first, off_size(big), be);
    h
}
fn base(be: bool) -> Vec<Entry> {
    vec![long(256, 7, be), long(257, 9, be), short(258, 8, be), short(262, 1, be), short(277, 1, be)]
}
const ALL: [u16; 46] = [
    254, 256, 257, 258, 259, 262, 269, 270, 273, 274, 277, 278, 279, 280, 281, 282, 283, 284, 296, 305, 306, 315, 316, 317, 320, 322, 323, 324, 325, 338, 339, 347, 33432,
    33550, 33922, 34264, 42112, 42113, 50674, 34735, 34736, 34737, 255, 0, 700, 65535,
];
const FEW: [u16; 16] = [256, 258, 259, 262, 270, 277, 282, 284, 317, 324, 338, 347, 33550, 34735, 34736, 34737];

/// P07: one entry with any type, count and value, for every tag, next to the required ones
#[no_mangle]
pub extern "C" fn h07_entry() {
    let big = flag("bigtiff");
    let e = flag("big_endian");
    let t = if thorough() { pick(&ALL, "tag") } else { pick(&FEW, "tag") };
    entry(big, e, t, if thorough() { &[0, 1, 2, 3, 5, 9] } else { &[0, 1, 2, 5] });
}
/// P07: the same for the remaining tags
#[no_mangle]
pub extern "C" fn h07_tags() {
    let big = flag("bigtiff");
    let t = pick(&ALL, "tag");
    entry(big, false, t, &[0, 1, 3]);
}

fn entry(big: bool, be: bool, tag: u16, counts: &[u64]) {
    let typ = sym_u16("type");
    // small counts one by one; all others, up to the largest, together
    let k = choice(counts.len() + 1, "count_class");
    let count = if k < counts.len() {
        counts[k]
    } else {
        let c = if big { sym_u64("count") } else { sym_u32("count") as u64 };
        assume(c > 1000);
        c
    };
    let mut d = base(be);
    d.retain(|x| x.tag != tag);
    let n = d.len() + 1;
    let ifd = 16u64;
    let end = ifd + (count_size(big) + n * entry_size(big) + off_size(big)) as u64;
    let room = by_tier(10, 18) as u64;
    // the value field: any bytes, which point nowhere, or a place in the file
    let field = match choice(3, "value_at") {
        // a number of samples is also how many formats there are
        0 if tag == 277 => {
            let mut f = vec![];
            put(&mut f, pick(&[0u64, 1, 300, 65535], "samples"), 2, be);
            f.resize(off_size(big), 0);
            f
        }
        0 => sym_vec(off_size(big), "value"),
        w => {
            let at = match w {
                1 => end,
                _ => end + room - 1,
            };
            let mut f = vec![];
            put(&mut f, at, off_size(big), be);
            f
        }
    };
    if k >= counts.len() || count as usize * 8 > off_size(big) {
        // such a value may be an offset: of nothing in the file, unless it is one of the above
        let v = get(&field, be);
        assume(v > end + room || v == end || v == end + room - 1);
    } else if count == 1 && !big {
        // eight-byte values of classic files lie elsewhere
        let v = get(&field, be);
        assume(typ < 5 || v > end + room || v == end || v == end + room - 1);
    }
    d.push(Entry { tag, typ, count, field });
    let mut data = header(ifd, big, be);
    data.resize(ifd as usize, 0);
    data.extend_from_slice(&put_ifd(&d, 0, big, be));
    // text is looked at byte by byte: a few free bytes, then fixed ones
    let mut v = vec![0x41u8; room as usize];
    v[room as usize - 2] = 0;
    fill(&mut v[..by_tier(2, 3)], "values");
    data.extend_from_slice(&v);
    let mut f = SparseFile::of(data);
    f.truncate = flag("short_answers");
    run(&f);
}

fn run(f: &SparseFile) {
    let r = block_on(async {
        let mut m = TiffMetadataReader::try_open(f).await?;
        m.read(f).await
    });
    match r {
        Ok(t) => {
            check(t.ifds().len() == 1, "P07: another number of directories");
            cover("read");
        }
        Err(_) => cover("error"),
    }
}

/// P07: any number of entries at any place in a file that ends soon
#[no_mangle]
pub extern "C" fn h07_directory() {
    let big = flag("bigtiff");
    let be = flag("big_endian");
    let first = if big { sym_u64("first") } else { sym_u32("first") as u64 };
    let count = if big { sym_u64("entries") } else { sym_u16("entries") as u64 };
    let next = if big { sym_u64("next") } else { sym_u32("next") as u64 };
    let n = choice(3, "entries_there");
    let mut d = vec![];
    put(&mut d, count, count_size(big), be);
    for e in base(be).iter().take(n) {
        put_entry(&mut d, e, big, be);
    }
    put(&mut d, next, off_size(big), be);
    let keep = d.len().saturating_sub(choice(9, "cut"));
    d.truncate(keep);
    let mut f = SparseFile::new();
    f.add(0, header(first, big, be));
    assume(first >= 16 && first.checked_add(200).is_some() || first > u64::MAX - 4);
    f.truncate = flag("short_answers");
    f.add(first, d);
    let mut m = match block_on(TiffMetadataReader::try_open(&f)) {
        Ok(m) => m,
        Err(_) => return check(false, "P07: header rejected"),
    };
    // five required tags never fit
    check(block_on(m.read_next_ifd(&f)).is_err(), "P07: a directory without its required tags was read");
    check(m.next_ifd_offset() == Some(first), "P07: a failed read moved on");
    cover("error");
}

/// P07: a complete file cut at any length, read from a source that reports the end or gives less
#[no_mangle]
pub extern "C" fn h07_cut() {
    let big = flag("bigtiff");
    let be = flag("big_endian");
    let ifd = 16u64;
    let n = 9;
    let end = ifd + (count_size(big) + n * entry_size(big) + off_size(big)) as u64;
    let at = |o: u64| {
        let mut f = vec![];
        put(&mut f, end + o, off_size(big), be);
        f
    };
    let mut d = base(be);
    d.push(Entry { tag: 270, typ: 2, count: 10, field: at(0) });
    d.push(Entry { tag: 282, typ: 5, count: 1, field: if big { sym_vec(8, "resolution") } else { at(10) } });
    d.push(Entry { tag: 324, typ: if big { 16 } else { 4 }, count: 3, field: at(18) });
    d.push(Entry { tag: 33550, typ: 12, count: 3, field: at(42) });
    let mut data = header(ifd, big, be);
    data.resize(ifd as usize, 0);
    data.extend_from_slice(&put_ifd(&d, 0, big, be));
    data.extend_from_slice(b"some text\0");
    data.extend_from_slice(&sym_vec(56, "values"));
    let full = data.len();
    let keep = 128 * choice(3, "length_high") + choice(128, "length");
    assume(keep <= full);
    data.truncate(keep);
    let mut f = SparseFile::of(data);
    f.truncate = flag("short_answers");
    let r = block_on(async {
        let mut m = TiffMetadataReader::try_open(&f).await?;
        m.read(&f).await
    });
    match r {
        Ok(t) => {
            check(keep == full, "P07: a cut file was read");
            check(t.ifds()[0].image_description() == Some("some text"), "P07: wrong text");
            cover("complete");
        }
        Err(_) => {
            check(keep < full, "P07: a complete file was rejected");
            cover("cut");
        }
    }
}

/// P29: reading the metadata asks for metadata only, wherever it lies between image data
#[no_mangle]
pub extern "C" fn h29_only() {
    let big = flag("bigtiff");
    let be = flag("big_endian");
    // pieces of the file in any of these orders, with image data between them
    let order: [usize; 6] = pick(&[[0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [2, 0, 4, 1, 5, 3]], "order");
    let gap = pick(&[64u64, 0], "gap");
    let dir = (count_size(big) + 7 * entry_size(big) + off_size(big)) as u64;
    let text = pick(&[40u64, 2], "text");
    // first directory, its text, its doubles, second directory, its text, its offsets
    let len = [dir, text, 24, dir, text, 12 * off_size(big) as u64];
    let mut at = [0u64; 6];
    let mut end = 16 + gap;
    for i in order {
        at[i] = end;
        end += len[i] + gap;
    }
    let place = |i: usize, raw: &[u8]| {
        let mut f = raw.to_vec();
        if raw.len() > off_size(big) {
            f.clear();
            put(&mut f, at[i], off_size(big), be);
        }
        f
    };
    let mut data = sym_vec(end as usize, "file");
    let mut texts = vec![];
    for _ in [1, 4] {
        let mut t = sym_vec(text as usize - 1, "text");
        for c in &t {
            assume(*c >= 1 && *c <= 127);
        }
        t.push(0);
        texts.push(t);
    }
    let doubles = sym_vec(24, "doubles");
    let mut offsets = vec![];
    for _ in 0..12 {
        put(&mut offsets, 99, off_size(big), be);
    }
    let mut d0 = base(be);
    d0.push(Entry { tag: 270, typ: 2, count: text, field: place(1, &texts[0]) });
    d0.push(Entry { tag: 33550, typ: 12, count: 3, field: place(2, &doubles) });
    let mut d1 = base(be);
    d1.push(Entry { tag: 305, typ: 2, count: text, field: place(4, &texts[1]) });
    d1.push(Entry { tag: 324, typ: if big { 16 } else { 4 }, count: 12, field: place(5, &offsets) });
    let parts = [put_ifd(&d0, at[3], big, be), texts[0].clone(), doubles, put_ifd(&d1, 0, big, be), texts[1].clone(), offsets];
    let mut allowed = vec![0..if big { 16u64 } else { 8 }];
    for i in order {
        data[at[i] as usize..(at[i] + len[i]) as usize].copy_from_slice(&parts[i]);
        // a text that fits its entry lies nowhere else
        if !((i == 1 || i == 4) && text as usize <= off_size(big)) {
            match allowed.last_mut() {
                Some(l) if l.end == at[i] => l.end = at[i] + len[i],
                _ => allowed.push(at[i]..at[i] + len[i]),
            }
        }
    }
    let h = header(at[0], big, be);
    data[..h.len()].copy_from_slice(&h);
    let f = SparseFile::of(data);
    let r = block_on(async {
        let mut m = TiffMetadataReader::try_open(&f).await?;
        m.read(&f).await
    });
    match r {
        Ok(t) => check(t.ifds().len() == 2 && t.ifds()[0].image_description().map(|s| s.len() as u64) == Some(text - 1) && t.ifds()[1].tile_offsets().map(|o| o.len()) == Some(12), "P29: the directories were not read"),
        Err(_) => return check(false, "P29: a well-formed file was rejected"),
    }
    for q in f.requests() {
        check(q.start >= q.end || allowed.iter().any(|a| a.start <= q.start && q.end <= a.end), "P29: bytes that are no metadata were requested");
    }
    cover(if text == 2 { "text in the entry" } else { "text elsewhere" });
}

/// P29: an entry of any type and count asks for its own values only
#[no_mangle]
pub extern "C" fn h29_types() {
    let big = flag("bigtiff");
    let be = flag("big_endian");
    let (typ, size) = pick(&[(1u16, 1u64), (2, 1), (3, 2), (4, 4), (5, 8), (6, 1), (7, 1), (8, 2), (9, 4), (10, 8), (11, 4), (12, 8), (13, 4), (16, 8), (17, 8), (18, 8)], "type");
    let count = pick(if thorough() { &[0u64, 1, 2, 3, 4, 5, 7, 8, 9, 15, 17, 31, 33, 127, 255, 1001][..] } else { &[0, 1, 2, 3, 5, 8, 9, 17, 41, 255] }, "count");
    let (o, n) = (off_size(big) as u64, count * size);
    let dir = (count_size(big) + 6 * entry_size(big) + off_size(big)) as u64;
    let first = flag("values_first");
    let (at, values) = if first { (40 + n + 32, 40) } else { (40, 40 + dir + 32) };
    let mut raw = sym_vec(n as usize, "values");
    if typ == 2 && n > 0 {
        for c in &raw {
            assume(*c >= 1 && *c <= 127);
        }
        raw[n as usize - 1] = 0;
    }
    let mut field = raw.clone();
    if n > o {
        field.clear();
        put(&mut field, values, o as usize, be);
    }
    let mut d = base(be);
    d.push(Entry { tag: pick(&[65000u16, 270], "tag"), typ, count, field });
    assume(d[5].tag != 270 || typ == 2 && count > 0);
    let mut data = sym_vec((40 + dir + n + 64) as usize, "file");
    let h = header(at, big, be);
    data[..h.len()].copy_from_slice(&h);
    let ifd = put_ifd(&d, 0, big, be);
    data[at as usize..(at + dir) as usize].copy_from_slice(&ifd);
    if n > o {
        data[values as usize..(values + n) as usize].copy_from_slice(&raw);
    }
    let f = SparseFile::of(data);
    let r = block_on(async {
        let mut m = TiffMetadataReader::try_open(&f).await?;
        m.read(&f).await
    });
    check(matches!(&r, Ok(t) if t.ifds().len() == 1), "P29: a well-formed file was rejected");
    for q in f.requests() {
        let inside = |a: u64, b: u64| a <= q.start && q.end <= b;
        check(q.start >= q.end || inside(0, if big { 16 } else { 8 }) || inside(at, at + dir) || n > o && inside(values, values + n), "P29: bytes that are no metadata were requested");
    }
    cover(if n > o { "values elsewhere" } else { "values in the entry" });
}
