//! What harnesses are written with: symbolic inputs, assumptions, assertions, and a sparse
//! in-memory file that stands for the reader below async-tiff.
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::reader::{AsyncFileReader, Endianness};
use bytes::Bytes;
use std::future::Future;
use std::ops::Range;
use std::pin::pin;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

extern "C" {
    fn vsym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vsym_choice(n: u64, name: *const u8, nl: usize) -> u64;
    fn vsym_assume(c: bool);
    fn vsym_assert(c: bool, msg: *const u8, nl: usize);
    fn vsym_cover(msg: *const u8, nl: usize);
    fn vsym_observe(p: *const u8, n: usize, name: *const u8, nl: usize);
    fn vsym_tier() -> u64;
    fn vsym_concretize(v: u64) -> u64;
    fn vsym_fmt(on: bool);
}

pub fn tier() -> u64 {
    unsafe { vsym_tier() }
}
pub fn thorough() -> bool {
    tier() > 0
}
/// q in the quick tier, t in the thorough tier
pub fn by_tier(q: usize, t: usize) -> usize {
    if thorough() {
        t
    } else {
        q
    }
}
pub fn fill(b: &mut [u8], name: &str) {
    if !b.is_empty() {
        unsafe { vsym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
}
pub fn sym_vec(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(&mut v, name);
    v
}
pub fn sym_u8(name: &str) -> u8 {
    let mut b = [0; 1];
    fill(&mut b, name);
    b[0]
}
pub fn sym_u16(name: &str) -> u16 {
    let mut b = [0; 2];
    fill(&mut b, name);
    u16::from_le_bytes(b)
}
pub fn sym_u32(name: &str) -> u32 {
    let mut b = [0; 4];
    fill(&mut b, name);
    u32::from_le_bytes(b)
}
pub fn sym_u64(name: &str) -> u64 {
    let mut b = [0; 8];
    fill(&mut b, name);
    u64::from_le_bytes(b)
}
/// one of 0..n, one path each
pub fn choice(n: usize, name: &str) -> usize {
    unsafe { vsym_choice(n as u64, name.as_ptr(), name.len()) as usize }
}
pub fn flag(name: &str) -> bool {
    choice(2, name) == 1
}
pub fn pick<T: Copy>(xs: &[T], name: &str) -> T {
    xs[choice(xs.len(), name)]
}
/// the same value; the solver lists its feasible values and each continues on a path of its own
pub fn each(v: u64) -> u64 {
    unsafe { vsym_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { vsym_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { vsym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &str) {
    unsafe { vsym_cover(msg.as_ptr(), msg.len()) }
}
pub fn observe(b: &[u8], name: &str) {
    unsafe { vsym_observe(b.as_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn observe_u64(v: u64, name: &str) {
    observe(&v.to_le_bytes(), name)
}

/// from here on execute formatting instead of producing empty text
#[allow(dead_code)]
pub fn real_formatting() {
    unsafe { vsym_fmt(true) }
}

pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..64 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future still pending after 64 polls")
}

/// a future that is pending `n` times
pub async fn pend(n: usize) {
    let mut k = n;
    std::future::poll_fn(move |cx| {
        if k == 0 {
            Poll::Ready(())
        } else {
            k -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

pub fn endian(name: &str) -> Endianness {
    if flag(name) {
        Endianness::BigEndian
    } else {
        Endianness::LittleEndian
    }
}
pub fn is_be(e: Endianness) -> bool {
    matches!(e, Endianness::BigEndian)
}

// ---- byte order, written independently of the code under test
pub fn put(out: &mut Vec<u8>, v: u64, n: usize, be: bool) {
    for i in 0..n {
        let k = if be { n - 1 - i } else { i };
        out.push((v >> (8 * k)) as u8);
    }
}
pub fn get(b: &[u8], be: bool) -> u64 {
    let mut v = 0u64;
    for i in 0..b.len() {
        let k = if be { b.len() - 1 - i } else { i };
        v |= (b[i] as u64) << (8 * k);
    }
    v
}

/// A file of which only some regions exist. Requests inside one region give its bytes, anything
/// else is an error. Every request is logged.
#[derive(Debug, Default, Clone)]
pub struct SparseFile {
    pub regions: Vec<(u64, Vec<u8>)>,
    pub log: Arc<Mutex<Vec<Range<u64>>>>,
    pub calls: Arc<AtomicUsize>,
    /// call number (from 0) that fails
    pub fail_at: Option<usize>,
    /// serve a request that starts in a region but ends behind it with what there is
    pub truncate: bool,
    /// region of the previous hit, tried first
    pub last: Arc<AtomicUsize>,
}

impl SparseFile {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn of(data: Vec<u8>) -> Self {
        let mut s = Self::default();
        s.regions.push((0, data));
        s
    }
    pub fn add(&mut self, base: u64, data: Vec<u8>) {
        self.regions.push((base, data));
    }
    pub fn requests(&self) -> Vec<Range<u64>> {
        self.log.lock().unwrap().clone()
    }
    pub fn serve(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        let n = self.calls.fetch_add(1, Relaxed);
        self.log.lock().unwrap().push(r.clone());
        if self.fail_at == Some(n) {
            return Err(AsyncTiffError::EndOfFile(7, 7));
        }
        if r.end < r.start {
            return Err(AsyncTiffError::EndOfFile(1, 0));
        }
        let want = r.end - r.start;
        let first = self.last.load(Relaxed);
        for k in 0..self.regions.len() {
            let i = if k == 0 {
                first
            } else if k <= first {
                k - 1
            } else {
                k
            };
            let (base, data) = &self.regions[i];
            let off = r.start.wrapping_sub(*base);
            let len = data.len() as u64;
            if off <= len {
                let left = len - off;
                if want <= left {
                    self.last.store(i, Relaxed);
                    let (off, want) = (off as usize, want as usize);
                    return Ok(Bytes::copy_from_slice(&data[off..off + want]));
                }
                if self.truncate && left > 0 {
                    return Ok(Bytes::copy_from_slice(&data[off as usize..]));
                }
            }
        }
        Err(AsyncTiffError::EndOfFile(want, 0))
    }
}

#[async_trait::async_trait]
impl AsyncFileReader for SparseFile {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.serve(range)
    }
}

// ---- building IFDs
/// one directory entry, value field given as bytes
pub struct Entry {
    pub tag: u16,
    pub typ: u16,
    pub count: u64,
    pub field: Vec<u8>,
}
pub fn entry_size(big: bool) -> usize {
    if big {
        20
    } else {
        12
    }
}
pub fn count_size(big: bool) -> usize {
    if big {
        8
    } else {
        2
    }
}
pub fn off_size(big: bool) -> usize {
    if big {
        8
    } else {
        4
    }
}
pub fn put_entry(out: &mut Vec<u8>, e: &Entry, big: bool, be: bool) {
    put(out, e.tag as u64, 2, be);
    put(out, e.typ as u64, 2, be);
    put(out, e.count, off_size(big), be);
    let mut f = e.field.clone();
    f.resize(off_size(big), 0);
    out.extend_from_slice(&f);
}
pub fn put_ifd(entries: &[Entry], next: u64, big: bool, be: bool) -> Vec<u8> {
    let mut o = Vec::new();
    put(&mut o, entries.len() as u64, count_size(big), be);
    for e in entries {
        put_entry(&mut o, e, big, be);
    }
    put(&mut o, next, off_size(big), be);
    o
}
/// SHORT entry with one value
pub fn short(tag: u16, v: u16, be: bool) -> Entry {
    let mut field = Vec::new();
    put(&mut field, v as u64, 2, be);
    Entry { tag, typ: 3, count: 1, field }
}
/// LONG entry with one value
pub fn long(tag: u16, v: u32, be: bool) -> Entry {
    let mut field = Vec::new();
    put(&mut field, v as u64, 4, be);
    Entry { tag, typ: 4, count: 1, field }
}
