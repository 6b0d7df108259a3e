//! P26: the reader over HTTP. reqwest is replaced by a stand-in (../codecs/stubs/reqwest) that plays
//! the server.
#![allow(clippy::all)]
#[allow(dead_code)]
#[path = "../../harness/src/rt.rs"]
mod rt;
use async_tiff::reader::{AsyncFileReader, ReqwestReader};
use rt::*;
use vstub::State;

fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
}

/// P26: over HTTP a range gives exactly the resource's bytes, whatever the server does
#[no_mangle]
pub extern "C" fn h26_http() {
    real_formatting();
    let base = pick(if thorough() { &[0u64, 7, 96, 997, 65533, 999_999_998, (1 << 32) - 3, 10_000_000_000_000_000_000 - 2, u64::MAX - 9][..] } else { &[0, 7, 997, (1 << 32) - 3, u64::MAX - 9] }, "base");
    let resource = sym_vec(4, "resource");
    let (s, n) = (sym_u8("start") as u64, sym_u8("length") as u64);
    let most = by_tier(4, 6) as u64;
    assume(s <= 5);
    assume(n <= most);
    // the last byte of the largest number cannot be in a half-open range
    assume(s + n <= 9);
    let (start, end) = (base + s, base + s + n);
    let status = pick(&[206u16, 200, 404, 416, 500, 403], "status");
    assume(status != 200 || base < 1000);
    let (fail_send, fail_body) = (flag("fail_send"), flag("fail_body"));
    vstub::set(State { output: resource.clone(), base, status, fail_send, fail_body, pending: [choice(2, "pending"), choice(2, "pending")], ..Default::default() });
    let url = "http://host/a.tif";
    let r = ReqwestReader::new(reqwest::Client::new(), reqwest::Url::parse(url).unwrap());
    let list = flag("list");
    let got = if list {
        let other = base + 1..base + 3;
        match block_on(r.get_byte_ranges(vec![other, start..end])) {
            Ok(v) => {
                check(v.len() == 2 && eq(&v[0], &resource[1..3]), "P26: a list of ranges gives other bytes");
                Ok(v[1].clone())
            }
            Err(_) => Err(()),
        }
    } else {
        block_on(r.get_bytes(start..end)).map_err(|_| ())
    };
    let st = vstub::take();
    check(st.requests.iter().all(|r| r.0 == "GET" && r.1 == url), "P26: another resource was requested");
    let asked = !st.requests.is_empty();
    check(st.requests.len() <= 1 + list as usize, "P26: more than one request for a range");
    match got {
        Ok(v) => {
            check(!asked || status <= 206 && !fail_send && !fail_body, "P26: a failed request gave bytes");
            let (a, b) = (s.min(4) as usize, (s + n).min(4) as usize);
            check(eq(&v, &resource[a..b]), "P26: other bytes than the resource holds");
            cover(if status == 200 { "range ignored" } else if n == 0 { "empty" } else { "bytes" });
        }
        Err(_) => {
            // an error is due when the request fails or asks for nothing that is there
            check(status != 206 || fail_send || fail_body || n == 0 || s >= 4, "P26: an error although the server answered");
            cover("error");
        }
    }
}

/// P26: large resources and ranges
#[no_mangle]
pub extern "C" fn h26_large() {
    real_formatting();
    let len = pick(&[100_000usize, 70_000], "size");
    let mut resource: Vec<u8> = (0..len).map(|i| (i * 7 + i / 251) as u8).collect();
    for at in [0, 4094, 8190, 65534, len - 6] {
        let b = sym_vec(6, "resource");
        resource[at..at + 6].copy_from_slice(&b);
    }
    let (start, end) = pick(&[(0, len), (1, 65537), (4095, 8193), (len - 10, len + 10), (40000, len - 1), (65535, 65536), (len - 1, len)], "range");
    let status = pick(&[206u16, 200, 503], "status");
    vstub::set(State { output: resource.clone(), status, ..Default::default() });
    let url = "http://host/b.tif";
    let r = ReqwestReader::new(reqwest::Client::new(), reqwest::Url::parse(url).unwrap());
    let got = block_on(r.get_bytes(start as u64..end as u64));
    let st = vstub::take();
    check(st.requests.len() == 1 && st.requests[0].1 == url, "P26: not one request for a range");
    match got {
        Ok(v) => {
            check(status <= 206, "P26: a failed request gave bytes");
            check(eq(&v, &resource[start..end.min(len)]), "P26: other bytes than the resource holds");
            observe(&v[..v.len().min(16)], "bytes");
            cover("bytes");
        }
        Err(_) => {
            check(status > 206, "P26: an error although the server answered");
            cover("error");
        }
    }
}
