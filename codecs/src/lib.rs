//! P25 codecs: what async-tiff adds around the codec libraries. The libraries themselves are
//! replaced by stand-ins (stubs/) that record what they are given and produce what the harness says.
#![allow(clippy::all)]
#[allow(dead_code)]
#[path = "../../harness/src/rt.rs"]
mod rt;
use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::tags::{Compression, PhotometricInterpretation as P};
use rt::*;
use vstub::State;

fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
}
fn decode(code: u16, buf: &[u8], p: P, tables: Option<&[u8]>, spp: u16, bits: u16, lerc: Option<&[u32]>) -> (Result<Vec<u8>, ()>, State) {
    let reg = DecoderRegistry::default();
    let d: &Box<dyn Decoder> = match reg.as_ref().get(&Compression::from_u16_exhaustive(code)) {
        Some(d) => d,
        None => {
            check(false, "P25: no decoder for a supported compression");
            return (Err(()), vstub::take());
        }
    };
    let r = d.decode_tile(buf.to_vec().into(), p, tables, spp, bits, lerc).map_err(|_| ());
    (r, vstub::take())
}
fn out(n: usize) -> Vec<u8> {
    sym_vec(n, "decoded")
}

/// P25: the stream codecs: all of the input goes in, all of the output comes out, errors are errors
#[no_mangle]
pub extern "C" fn h25_stream() {
    let (code, name) = pick(&[(8u16, "zlib"), (32946, "zlib"), (50000, "zstd"), (34925, "xz")], "codec");
    let input = sym_vec(if thorough() { choice(6, "compressed_length") } else { pick(&[0, 1, 3, 40], "compressed_length") }, "compressed");
    // lengths around the sizes a reader's buffers grow by
    let n = pick(if thorough() { &[0usize, 1, 2, 5, 31, 32, 33, 64, 200, 5000, 9000, 70000][..] } else { &[0, 1, 3, 32, 33, 100, 9000, 70000] }, "decoded_length");
    let mut output = vec![0x55; n];
    fill(&mut output[..n.min(4)], "decoded");
    if n > 4 {
        fill(&mut output[n - 1..], "last");
    }
    let fail = choice(4, "failing_read");
    let fail_read = if fail == 0 { None } else { Some(fail - 1) };
    let refuse = name == "zstd" && flag("refuse");
    vstub::set(State { output: output.clone(), piece: if n > 1000 { 0 } else { choice(3, "piece") }, fail_read, fail: refuse, ..Default::default() });
    let (r, s) = decode(code, &input, P::BlackIsZero, None, 1, 8, None);
    let failed = refuse || fail_read.map_or(false, |f| f < s.reads);
    match r {
        Ok(v) => {
            check(!failed, "P25: an error of the codec was swallowed");
            check(s.codecs[..] == [name], "P25: another codec was used");
            check(eq(&s.input[0], &input), "P25: the codec got other bytes than the tile holds");
            check(eq(&v, &output), "P25: not all of what the codec produced");
            cover("decoded");
        }
        Err(_) => {
            check(failed, "P25: an error although the codec had none");
            cover("failed");
        }
    }
}

/// P25: LZW as TIFF writes it: most significant bit first, 8 bits, early size switch
#[no_mangle]
pub extern "C" fn h25_lzw() {
    let input = sym_vec(choice(by_tier(4, 6), "compressed_length"), "compressed");
    let output = sym_vec(pick(if thorough() { &[0usize, 1, 2, 5, 31, 32, 33, 64, 200, 9000, 70000][..] } else { &[0, 1, 3, 33, 9000] }, "decoded_length"), "decoded");
    let fail = flag("fail");
    vstub::set(State { output: output.clone(), fail, ..Default::default() });
    let (r, s) = decode(5, &input, P::BlackIsZero, None, 1, 8, None);
    match r {
        Ok(v) => {
            check(!fail, "P25: an error of the codec was swallowed");
            check(s.codecs[..] == ["lzw"], "P25: another codec was used");
            check(eq(&s.input[0], &input), "P25: the codec got other bytes than the tile holds");
            check(eq(&v, &output), "P25: not all of what the codec produced");
            cover("decoded");
        }
        Err(_) => {
            check(fail, "P25: an error although the codec had none");
            cover("failed");
        }
    }
}

/// P25: LERC inside nothing, deflate or zstd, of every number type
#[no_mangle]
pub extern "C" fn h25_lerc() {
    let input = sym_vec(3, "compressed");
    let wrapper = choice(5, "parameters");
    let first = sym_u32("version");
    let params = [first, match wrapper {
        1 => 1,
        2 => 2,
        _ => 0,
    }, sym_u32("third"), sym_u32("fourth")];
    let params: Option<&[u32]> = match wrapper {
        3 => None,
        4 => Some(&params[..1]),
        _ => Some(&params[..pick(&[2, 3, 4], "count")]),
    };
    let unpacked = if wrapper == 1 || wrapper == 2 { sym_vec(2, "unpacked") } else { vec![] };
    let kind = choice(9, "type") as u32;
    let sizes = [1usize, 1, 2, 2, 4, 4, 4, 8, 1];
    let values = pick(if thorough() { &[0usize, 1, 2, 3, 9, 300][..] } else { &[0, 1, 2, 9] }, "values");
    let output = out(values * sizes[kind as usize]);
    let mut dims = [0u32; 5];
    for d in &mut dims {
        *d = sym_u32("dims");
    }
    let fail = flag("fail");
    let fail_decode = flag("fail_decode");
    vstub::set(State { output: output.clone(), inner: unpacked.clone(), kind, dims, fail, fail_read: if fail_decode { Some(99) } else { None }, ..Default::default() });
    let (r, s) = decode(34887, &input, P::BlackIsZero, None, 1, 8 * sizes[kind as usize] as u16, params);
    match r {
        Ok(v) => {
            check(!fail && !fail_decode && kind < 8, "P25: an error of the codec was swallowed");
            let blob = if wrapper == 1 || wrapper == 2 {
                check(s.codecs[0] == if wrapper == 1 { "zlib" } else { "zstd" }, "P25: LERC data unpacked with another codec");
                check(eq(&s.input[0], &input), "P25: the codec got other bytes than the tile holds");
                &unpacked
            } else {
                check(s.codecs[0] == "lerc info" || s.codecs[0] == "lerc", "P25: plain LERC data was unpacked");
                &input
            };
            let last = s.codecs.len() - 1;
            check(s.codecs[last] == "lerc" && eq(&s.input[last], blob), "P25: LERC got other bytes");
            check(s.asked == Some((kind, dims)), "P25: LERC data read as another type or size than it says");
            check(eq(&v, &output), "P25: other numbers than LERC produced");
            cover("lerc decoded");
        }
        Err(_) => {
            check(fail || fail_decode || kind == 8, "P25: an error although the codec had none");
            cover("lerc failed");
        }
    }
}

/// P25: WebP: the pixels, with an opaque alpha where the codec left one out
#[no_mangle]
pub extern "C" fn h25_webp() {
    let input = sym_vec(2, "compressed");
    let pixels = pick(if thorough() { &[0usize, 1, 2, 3, 4, 17, 1000][..] } else { &[0, 1, 2, 4, 12, 17, 256] }, "pixels");
    let layout = pick(&[3usize, 4], "layout");
    let output = out(pixels * layout);
    let spp = sym_u16("samples");
    let bits = sym_u16("bits");
    let fail = flag("fail");
    vstub::set(State { output: output.clone(), kind: layout as u32, dims: [pixels as u32, 1, 0, 0, 0], fail, ..Default::default() });
    let (r, s) = decode(50001, &input, P::RGB, None, spp, bits, None);
    match r {
        Ok(v) => {
            check(!fail, "P25: an error of the codec was swallowed");
            check(s.codecs[..] == ["webp"] && eq(&s.input[0], &input), "P25: the codec got other bytes than the tile holds");
            let mut want = vec![];
            if layout == 3 && spp == 4 && bits == 8 {
                for c in output.chunks(3) {
                    want.extend_from_slice(c);
                    want.push(255);
                }
                cover("alpha added");
            } else {
                want = output;
                cover("as it is");
            }
            check(eq(&v, &want), "P25: other pixels than WebP produced");
        }
        Err(_) => {
            check(fail, "P25: an error although the codec had none");
            cover("webp failed");
        }
    }
}

/// P25: JPEG 2000 in all pixel layouts of 8 and 16 bits
#[no_mangle]
pub extern "C" fn h25_jpeg2k() {
    let input = sym_vec(2, "compressed");
    let kind = choice(8, "layout");
    let output = out(pick(if thorough() { &[0usize, 1, 2, 3, 9, 300][..] } else { &[0, 1, 2, 4, 9, 256] }, "values") * if kind >= 4 { 2 } else { 1 });
    let fail = flag("fail");
    let fail_pixels = flag("fail_pixels");
    vstub::set(State { output: output.clone(), kind: kind as u32, fail, fail_read: if fail_pixels { Some(0) } else { None }, ..Default::default() });
    let (r, s) = decode(34712, &input, P::RGB, None, 1, if kind >= 4 { 16 } else { 8 }, None);
    match r {
        Ok(v) => {
            check(!fail && !fail_pixels, "P25: an error of the codec was swallowed");
            check(s.codecs[..] == ["jpeg2k"] && eq(&s.input[0], &input), "P25: the codec got other bytes than the tile holds");
            check(s.asked.is_none(), "P25: JPEG 2000 decoded at a lower resolution or quality");
            check(eq(&v, &output), "P25: other pixels than JPEG 2000 produced");
            cover(if kind >= 4 { "16 bits" } else { "8 bits" });
        }
        Err(_) => {
            check(fail || fail_pixels, "P25: an error although the codec had none");
            cover("jpeg2k failed");
        }
    }
}

/// P25: JPEG: shared tables go in front, one start and one end marker stay; the colours are
/// converted as the photometric interpretation says
#[no_mangle]
pub extern "C" fn h25_jpeg() {
    let n = choice(by_tier(5, 7), "compressed_length");
    let input = sym_vec(n, "compressed");
    let t = choice(by_tier(6, 8), "tables_length"); // 0: no tables; else one less
    let tables = sym_vec(t.saturating_sub(1), "tables");
    let (photo, transform) = pick(&[(0u16, Some(0u8)), (1, Some(0)), (2, Some(3)), (3, None), (4, Some(0)), (5, Some(5)), (6, Some(4)), (8, None)], "photometric");
    let output = out(2);
    let fail = flag("fail");
    vstub::set(State { output: output.clone(), fail, ..Default::default() });
    let (r, s) = decode(7, &input, P::from_u16(photo).unwrap(), if t == 0 { None } else { Some(&tables[..]) }, 3, 8, None);
    let broken = t > 0 && (n < 2 || t - 1 < 2);
    match r {
        Ok(v) => {
            check(!fail && !broken && transform.is_some(), "P25: an error of the codec was swallowed");
            check(s.codecs[..] == ["jpeg"], "P25: another codec was used");
            if t == 0 {
                check(eq(&s.input[0], &input), "P25: the codec got other bytes than the tile holds");
            } else {
                let mut want = tables[..t - 3].to_vec();
                want.extend_from_slice(&input[2..]);
                check(eq(&s.input[0], &want), "P25: JPEG tables and data not joined as documented");
            }
            check(s.color == transform, "P25: colours are converted another way than the photometric interpretation says");
            check(eq(&v, &output), "P25: other pixels than JPEG produced");
            cover(if t == 0 { "no tables" } else { "tables" });
        }
        Err(_) => {
            check(fail || broken || transform.is_none(), "P25: an error although the codec had none");
            cover("jpeg failed");
        }
    }
}
