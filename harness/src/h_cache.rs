//! P08 cache transparency, P09 what the cache requests, P10 faults, cancellation, concurrency
use crate::rt::*;
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use bytes::Bytes;
use std::future::Future;
use std::ops::Range;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// the file below the cache: ends are cut at the end of the file, as object stores do
#[derive(Debug)]
struct Inner {
    data: Vec<u8>,
    log: Arc<Mutex<Vec<Range<u64>>>>,
    calls: Arc<AtomicUsize>,
    fail_at: Option<usize>,
    /// how many of the next calls fail
    failing: Arc<AtomicUsize>,
    pend: usize,
}
impl Inner {
    fn new(data: &[u8]) -> Self {
        Inner { data: data.to_vec(), log: Default::default(), calls: Default::default(), fail_at: None, failing: Default::default(), pend: 0 }
    }
}
#[async_trait::async_trait]
impl MetadataFetch for Inner {
    async fn fetch(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let n = self.calls.fetch_add(1, Relaxed);
        self.log.lock().unwrap().push(r.clone());
        pend(self.pend).await;
        if self.fail_at == Some(n) {
            return Err(AsyncTiffError::EndOfFile(3, 3));
        }
        let left = self.failing.load(Relaxed);
        if left > 0 {
            self.failing.store(left - 1, Relaxed);
            return Err(AsyncTiffError::EndOfFile(3, 3));
        }
        let len = self.data.len() as u64;
        if r.start >= len {
            return Ok(Bytes::new());
        }
        let e = each(if r.end < len { r.end } else { len }).max(r.start);
        Ok(Bytes::copy_from_slice(&self.data[r.start as usize..e as usize]))
    }
}

/// a symbolic range inside 0..n
fn any_range(n: usize, name: &str) -> Range<u64> {
    let (s, e) = (sym_u8(name) as u64, sym_u8(name) as u64);
    assume(s <= e && e <= n as u64);
    each(s)..each(e)
}
fn bytes_of(d: &[u8], r: &Range<u64>) -> Vec<u8> {
    let s = (r.start as usize).min(d.len());
    let e = (r.end as usize).min(d.len()).max(s);
    d[s..e].to_vec()
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
}
fn multiplier(name: &str) -> f64 {
    pick(&[2.0, 1.0, 0.4, 0.0, -3.0, f64::NAN, 1e300, 0.5], name)
}

/// P08: any sequence of requests gets the file's bytes
#[no_mangle]
pub extern "C" fn h08_sequence() {
    sequence(true, false)
}
/// P09: any sequence of requests is turned into the documented requests
#[no_mangle]
pub extern "C" fn h09_requests() {
    sequence(false, true)
}
fn sequence(p08: bool, p09: bool) {
    let n = by_tier(5, 7);
    let reqs = by_tier(3, 3);
    let data = sym_vec(n, "file");
    let inner = Inner::new(&data);
    let (log, calls) = (inner.log.clone(), inner.calls.clone());
    let initial = sym_u64("initial");
    let mult = if thorough() { multiplier("multiplier") } else { pick(&[2.0, 0.4, f64::NAN, 1e300], "multiplier") };
    let c = ReadaheadMetadataCache::new(inner).with_initial_size(initial).with_multiplier(mult);
    let mut have = 0u64; // bytes the cache holds
    for _ in 0..reqs {
        let r = any_range(n, "range");
        let before = calls.load(Relaxed);
        let got = block_on(c.fetch(r.clone()));
        match got {
            Ok(b) => {
                check(!p08 || eq(&b, &bytes_of(&data, &r)), "P08: the cache returned other bytes than the file holds");
                observe(&b, "bytes");
            }
            Err(_) => check(!p08, "P08: a request inside the file failed"),
        }
        if !p09 {
            cover("request");
            continue;
        }
        let l = log.lock().unwrap();
        if r.end <= have {
            check(calls.load(Relaxed) == before, "P09: cached bytes were requested again");
            cover("hit");
        } else {
            check(calls.load(Relaxed) == before + 1, "P09: not exactly one request for missing bytes");
            let q = l.last().unwrap();
            check(q.start == have, "P09: a request does not continue where the cache ends");
            let grow = if have == 0 { initial } else { (have as f64 * mult).round() as u64 };
            let need = r.end - have;
            check(q.end == have.saturating_add(if grow > need { grow } else { need }), "P09: wrong size of a readahead request");
            have = each(q.end.min(n as u64));
            cover("miss");
        }
    }
}

/// P08: many small requests in one cache
#[no_mangle]
pub extern "C" fn h08_many() {
    many(true, false)
}
/// P09: the same
#[no_mangle]
pub extern "C" fn h09_many() {
    many(false, true)
}
fn many(p08: bool, p09: bool) {
    let n = 12;
    let data = sym_vec(n, "file");
    let inner = Inner::new(&data);
    let log = inner.log.clone();
    let initial = pick(&[0u64, 1, 3], "initial");
    let mult = pick(&[2.0, 1.0, 0.4, 0.0], "multiplier");
    let c = ReadaheadMetadataCache::new(inner).with_initial_size(initial).with_multiplier(mult);
    let mut have = 0u64;
    for i in 0..by_tier(6, 8) as u64 {
        // mostly forwards, now and then back to the start or far ahead
        let r = pick(&[i..i + 1, i..i + 3, 0..i + 1, 2 * i..2 * i + 1].map(|r| (r.start, r.end)), "request");
        let r = r.0.min(n as u64)..r.1.min(n as u64);
        let before = log.lock().unwrap().len();
        match block_on(c.fetch(r.clone())) {
            Ok(b) => check(!p08 || eq(&b, &bytes_of(&data, &r)), "P08: the cache returned other bytes than the file holds"),
            Err(_) => check(!p08, "P08: a request inside the file failed"),
        }
        if p09 {
            have = asked(&log, before, have, &r, initial, mult, n as u64);
        }
    }
    cover("many");
}
/// P09: what a request asks of the file below; the bytes held afterwards
fn asked(log: &Mutex<Vec<Range<u64>>>, before: usize, have: u64, r: &Range<u64>, initial: u64, mult: f64, n: u64) -> u64 {
    let l = log.lock().unwrap();
    if r.end <= have {
        check(l.len() == before, "P09: cached bytes were requested again");
        return have;
    }
    check(l.len() == before + 1, "P09: not exactly one request for missing bytes");
    let q = l.last().unwrap();
    check(q.start == have, "P09: a request does not continue where the cache ends");
    let grow = if have == 0 { initial } else { (have as f64 * mult).round() as u64 };
    let need = r.end - have;
    check(q.end == have.saturating_add(if grow > need { grow } else { need }), "P09: wrong size of a readahead request");
    q.end.min(n)
}

/// P08: the default configuration on a file of many readahead steps
#[no_mangle]
pub extern "C" fn h08_default() {
    default_sizes(true, false)
}
/// P09: the same
#[no_mangle]
pub extern "C" fn h09_default() {
    default_sizes(false, true)
}
fn default_sizes(p08: bool, p09: bool) {
    const K: u64 = 32 * 1024;
    let n = 110_000usize;
    let mut data = vec![0u8; n];
    for i in 0..n {
        data[i] = (i ^ (i >> 8)) as u8;
    }
    // some of the bytes around the steps are any
    for at in [0, K - 2, 3 * K - 2, 50_000] {
        fill(&mut data[at as usize..at as usize + 4], "file");
    }
    let inner = Inner::new(&data);
    let log = inner.log.clone();
    let c = ReadaheadMetadataCache::new(inner);
    let all = [(0u64, 16u64), (8, 40), (K - 8, K), (K - 8, K + 1), (K, K + 2), (50_000, 90_000), (3 * K - 4, 3 * K + 2), (n as u64 - 10, n as u64), (0, n as u64)];
    let mut have = 0;
    for i in 0..3 {
        let (a, b) = if i == 2 && !thorough() { pick(&all[4..7], "request") } else { pick(&all, "request") };
        let r = a..b;
        let before = log.lock().unwrap().len();
        match block_on(c.fetch(r.clone())) {
            Ok(b) => check(!p08 || (b.len() as u64 == r.end - r.start && &b[..] == &data[r.start as usize..r.end as usize]), "P08: the cache returned other bytes than the file holds"),
            Err(_) => check(!p08, "P08: a request inside the file failed"),
        }
        if p09 {
            have = asked(&log, before, have, &r, K, 2.0, n as u64);
        }
    }
    cover("default");
}

/// P08: a cache of many blocks, then any range of them
#[no_mangle]
pub extern "C" fn h08_blocks() {
    let n = by_tier(40, 70);
    let data = sym_vec(n, "file");
    let step = pick(&[1u64, 2, 3], "block");
    let c = ReadaheadMetadataCache::new(Inner::new(&data)).with_initial_size(step).with_multiplier(0.0);
    let mut at = 0;
    while at < n as u64 {
        let r = at..(at + step).min(n as u64);
        match block_on(c.fetch(r.clone())) {
            Ok(b) => check(eq(&b, &bytes_of(&data, &r)), "P08: the cache returned other bytes than the file holds"),
            Err(_) => return check(false, "P08: a request inside the file failed"),
        }
        at += step;
    }
    let r = any_range(n, "range");
    match block_on(c.fetch(r.clone())) {
        Ok(b) => check(eq(&b, &bytes_of(&data, &r)), "P08: the cache returned other bytes than the file holds"),
        Err(_) => check(false, "P08: a request inside the file failed"),
    }
    cover("blocks");
}

/// P08: requests reaching behind the end of the file: an error or what there is
#[no_mangle]
pub extern "C" fn h08_eof() {
    let n = by_tier(3, 4);
    let data = sym_vec(n, "file");
    let inner = Inner::new(&data);
    let initial = pick(&[0u64, 1, 2, 8, u64::MAX], "initial");
    let c = ReadaheadMetadataCache::new(inner).with_initial_size(initial).with_multiplier(pick(&[2.0, 0.0, 1e300], "multiplier"));
    for _ in 0..by_tier(2, 3) {
        let (mut s, mut e) = (sym_u64("start"), sym_u64("end"));
        assume(s <= e);
        if s <= n as u64 {
            s = each(s);
        }
        if e <= n as u64 {
            e = each(e);
        }
        match block_on(c.fetch(s..e)) {
            Ok(b) => {
                check(eq(&b, &bytes_of(&data, &(s..e))), "P08: bytes that are not in the file, or some are missing");
                cover("answered");
            }
            Err(_) => {
                check(e > n as u64, "P08: a request inside the file failed");
                cover("error");
            }
        }
    }
}

/// P10: a failing request below leaves the cache as it was; the same request works later
#[no_mangle]
pub extern "C" fn h10_fault() {
    let n = by_tier(4, 5);
    let data = sym_vec(n, "file");
    let mut inner = Inner::new(&data);
    let fail = choice(3, "failing_call");
    inner.fail_at = Some(fail);
    let (log, calls) = (inner.log.clone(), inner.calls.clone());
    let c = ReadaheadMetadataCache::new(inner).with_initial_size(pick(&[0u64, 1, 2, 3], "initial")).with_multiplier(pick(&[2.0, 0.5], "multiplier"));
    let mut failed = 0;
    for _ in 0..3 {
        let r = any_range(n, "range");
        let before = calls.load(Relaxed);
        let mut got = block_on(c.fetch(r.clone()));
        if got.is_err() {
            failed += 1;
            check(before == fail && calls.load(Relaxed) == fail + 1, "P10: an error although no request failed");
            let first = log.lock().unwrap().last().unwrap().clone();
            got = block_on(c.fetch(r.clone()));
            check(*log.lock().unwrap().last().unwrap() == first, "P10: the retry asks for something else");
        }
        match got {
            Ok(b) => check(eq(&b, &bytes_of(&data, &r)), "P10: wrong bytes after a failed request"),
            Err(_) => return check(false, "P10: the retry failed"),
        }
    }
    check(failed <= 1, "P10: one failure reported twice");
    check((failed == 1) == (calls.load(Relaxed) > fail), "P10: a failed request was swallowed");
    cover(if failed == 1 { "failed" } else { "not reached" });
}

/// P10: a long history in which every call below may fail, several times in a row
#[no_mangle]
pub extern "C" fn h10_history() {
    let n = by_tier(14, 20) as u64;
    let data = sym_vec(n as usize, "file");
    let inner = Inner::new(&data);
    let (log, failing) = (inner.log.clone(), inner.failing.clone());
    let step = pick(&[1u64, 2], "block");
    let c = ReadaheadMetadataCache::new(inner).with_initial_size(step).with_multiplier(0.0);
    let mut budget = by_tier(5, 6);
    for i in 0..n / step {
        // the next bytes, or everything up to there
        let r = if i % 3 == 2 { 0..(i + 1) * step } else { i * step..(i + 1) * step };
        let times = if budget > 0 { pick(&[0usize, 1, 5], "failures").min(budget) } else { 0 };
        budget -= times;
        failing.store(times, Relaxed);
        for k in 0..times {
            check(block_on(c.fetch(r.clone())).is_err(), "P10: a failed request was swallowed");
            check(*log.lock().unwrap().last().unwrap() == (i * step..(i + 1) * step), "P10: the retry asks for something else");
            if i > 0 && k == 0 {
                // what is cached is still answered
                match block_on(c.fetch(0..i * step)) {
                    Ok(b) => check(eq(&b, &data[..(i * step) as usize]), "P10: wrong bytes after a failed request"),
                    Err(_) => return check(false, "P10: cached bytes are refused after a failed request"),
                }
            }
        }
        match block_on(c.fetch(r.clone())) {
            Ok(b) => check(eq(&b, &bytes_of(&data, &r)), "P10: wrong bytes after a failed request"),
            Err(_) => return check(false, "P10: an error although no request failed"),
        }
    }
    match block_on(c.fetch(0..n)) {
        Ok(b) => check(eq(&b, &data), "P10: wrong bytes after a failed request"),
        Err(_) => return check(false, "P10: an error although no request failed"),
    }
    cover("history");
}

/// P10: three tasks on one cache, polled in any order, one call failing or none, one task dropped or none
#[no_mangle]
pub extern "C" fn h10_three() {
    let n = 6u64;
    let data = sym_vec(n as usize, "file");
    let mut inner = Inner::new(&data);
    inner.pend = 1;
    let fail = choice(by_tier(3, 4), "failing_call"); // 0: none
    inner.fail_at = fail.checked_sub(1);
    let calls = inner.calls.clone();
    let c = ReadaheadMetadataCache::new(inner).with_initial_size(pick(&[1u64, 2], "initial")).with_multiplier(0.5);
    let rs: Vec<Range<u64>> = (0..3).map(|_| pick(&[(0u64, 2u64), (1, 4), (0, 6)], "range")).map(|(a, b)| a..b).collect();
    let mut fs: Vec<_> = rs.iter().map(|r| Some(Box::pin(c.fetch(r.clone())))).collect();
    let mut cx = Context::from_waker(Waker::noop());
    let cancel = choice(by_tier(3, 5), "cancel_at"); // 0: never
    let mut failed = 0;
    for step in 1.. {
        let open: Vec<usize> = (0..3).filter(|i| fs[*i].is_some()).collect();
        if open.is_empty() {
            break;
        }
        if step > 24 {
            return check(false, "P10: tasks block each other for ever");
        }
        let k = if step < by_tier(6, 8) { pick(&open, "poll") } else { open[step % open.len()] };
        if step == cancel {
            fs[k] = None;
            cover("cancelled");
            continue;
        }
        if let Poll::Ready(x) = fs[k].as_mut().unwrap().as_mut().poll(&mut cx) {
            fs[k] = None;
            match x {
                Ok(x) => check(eq(&x, &bytes_of(&data, &rs[k])), "P10: wrong bytes with three tasks"),
                Err(_) => failed += 1,
            }
        }
    }
    check(failed <= (fail > 0 && calls.load(Relaxed) >= fail) as usize, "P10: an error although no request failed");
    check(failed == 1 || cancel > 0 || fail == 0 || calls.load(Relaxed) < fail, "P10: a failed request was swallowed");
    let last = block_on(c.fetch(0..n));
    let last = if last.is_err() && failed == 0 { block_on(c.fetch(0..n)) } else { last };
    match last {
        Ok(x) => check(eq(&x, &data), "P10: wrong bytes after three tasks"),
        Err(_) => check(false, "P10: a request failed after three tasks"),
    }
    cover("three");
}

/// P10: two tasks on one cache, polled in any order, the first possibly dropped half-way
#[no_mangle]
pub extern "C" fn h10_interleave() {
    let n = by_tier(4, 4);
    let data = sym_vec(n, "file");
    let mut inner = Inner::new(&data);
    inner.pend = choice(by_tier(2, 3), "pending");
    let (log, calls) = (inner.log.clone(), inner.calls.clone());
    let c = ReadaheadMetadataCache::new(inner).with_initial_size(pick(&[0u64, 1, 2], "initial"));
    let (a, b) = (any_range(n, "range_a"), any_range(n, "range_b"));
    let mut fa = Some(Box::pin(c.fetch(a.clone())));
    let mut fb = Some(Box::pin(c.fetch(b.clone())));
    let mut cx = Context::from_waker(Waker::noop());
    let mut steps = 0;
    let cancel = choice(by_tier(4, 6), "cancel_at"); // 0: never
    while fa.is_some() || fb.is_some() {
        steps += 1;
        if steps > 16 {
            return check(false, "P10: tasks block each other for ever");
        }
        if steps == cancel && fa.is_some() {
            fa = None;
            cover("cancelled");
            continue;
        }
        let first = if fa.is_some() && fb.is_some() && steps < by_tier(6, 8) { !flag("poll_b") } else { fa.is_some() && (fb.is_none() || steps % 2 == 0) };
        let (f, r) = if first { (&mut fa, &a) } else { (&mut fb, &b) };
        if let Poll::Ready(x) = f.as_mut().unwrap().as_mut().poll(&mut cx) {
            *f = None;
            match x {
                Ok(x) => check(eq(&x, &bytes_of(&data, r)), "P10: wrong bytes with two tasks"),
                Err(_) => return check(false, "P10: a request failed with two tasks"),
            }
            cover("answered");
        }
    }
    let r = 0..n as u64;
    match block_on(c.fetch(r.clone())) {
        Ok(x) => check(eq(&x, &data), "P10: wrong bytes after two tasks"),
        Err(_) => return check(false, "P10: a request failed after two tasks"),
    }
    // bytes are requested in order and none twice, except where a cancelled request is repeated
    let l = log.lock().unwrap();
    let mut end = 0;
    for q in l.iter() {
        check(q.start <= end, "P10: a gap between requests");
        if cancel == 0 {
            check(q.start == end, "P10: bytes requested twice");
        }
        end = q.end.min(n as u64);
    }
    check(calls.load(Relaxed) <= 4, "P10: too many requests");
}
