//! P20 TokioReader, P21 the other readers
use crate::rt::*;
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::{AsyncFileReader, ObjectReader, TokioReader};
use bytes::Bytes;
use futures::stream::{BoxStream, StreamExt};
use object_store::path::Path;
use object_store::*;
use std::future::Future;
use std::io::{Error, ErrorKind, SeekFrom};
use std::ops::Range;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
}

/// A file as tokio sees one: any poll may be pending or give fewer bytes than asked for, as the
/// schedule says.
#[derive(Debug)]
struct Disk {
    data: Vec<u8>,
    pos: u64,
    seeking: Option<u64>,
    /// polls that may still be pending
    pend: usize,
    /// reads that may still be short
    short: usize,
    /// no read gives more
    most: usize,
    /// read or seek (counted together) that fails
    fail_at: Option<usize>,
    ops: Arc<AtomicUsize>,
}
impl Disk {
    fn new(data: &[u8]) -> Self {
        Disk { data: data.to_vec(), pos: 0, seeking: None, pend: 0, short: 0, most: usize::MAX, fail_at: None, ops: Default::default() }
    }
    fn pending(&mut self) -> bool {
        if self.pend > 0 && flag("pending") {
            self.pend -= 1;
            return true;
        }
        false
    }
    fn fails(&mut self) -> bool {
        Some(self.ops.fetch_add(1, Relaxed)) == self.fail_at
    }
}
impl AsyncRead for Disk {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.pending() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.fails() {
            return Poll::Ready(Err(Error::from(ErrorKind::Other)));
        }
        let at = self.pos.min(self.data.len() as u64) as usize;
        let mut n = buf.remaining().min(self.data.len() - at).min(self.most);
        if self.short > 0 && n > 1 {
            self.short -= 1;
            n = 1 + choice(n, "read");
        }
        buf.put_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for Disk {
    fn start_seek(mut self: Pin<&mut Self>, p: SeekFrom) -> std::io::Result<()> {
        if self.seeking.is_some() {
            return Err(Error::from(ErrorKind::Other));
        }
        if self.fails() {
            return Err(Error::from(ErrorKind::Other));
        }
        let to = match p {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if to < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.seeking = Some(to as u64);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        if let Some(p) = self.seeking {
            if self.pending() {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            self.pos = p;
            self.seeking = None;
        }
        Poll::Ready(Ok(self.pos))
    }
}
fn any_range(n: usize, name: &str) -> Range<u64> {
    let (s, e) = (sym_u8(name) as u64, sym_u8(name) as u64);
    assume(s <= e && e <= n as u64);
    each(s)..each(e)
}
fn judge(got: AsyncTiffResult<Bytes>, data: &[u8], r: &Range<u64>) {
    match got {
        Ok(b) => {
            if r.start == r.end {
                return check(b.is_empty(), "P20: bytes for an empty range");
            }
            check(r.end <= data.len() as u64, "P20: bytes from behind the end of the file");
            check(eq(&b, &data[r.start as usize..r.end as usize]), "P20: other bytes than the range holds");
            observe(&b, "bytes");
            cover("bytes");
        }
        Err(_) => {
            check(r.end > data.len() as u64, "P20: a range inside the file could not be read");
            cover("end of file");
        }
    }
}

/// P20: any sequence of ranges, also reaching behind the end, under any read schedule
#[no_mangle]
pub extern "C" fn h20_sequence() {
    let n = by_tier(4, 5);
    let data = sym_vec(n, "file");
    let mut d = Disk::new(&data);
    d.pend = by_tier(1, 2);
    d.short = by_tier(2, 3);
    let r = TokioReader::new(d);
    for _ in 0..2 {
        let q = any_range(n + 2, "range");
        judge(block_on(r.get_bytes(q.clone())), &data, &q);
    }
}

/// P20: a large file, read in pieces
#[no_mangle]
pub extern "C" fn h20_large() {
    let n = 150_000usize;
    let mut data = vec![0u8; n];
    for i in 0..n {
        data[i] = (i ^ (i >> 8)) as u8;
    }
    for at in [0usize, 8190, 65534, 131070] {
        fill(&mut data[at..at + 4], "file");
    }
    let mut d = Disk::new(&data);
    // reads give at most this many bytes
    d.most = pick(&[n, 4096, 8191, 65536], "most");
    d.pend = 1;
    let r = TokioReader::new(d);
    let all = [(0u64, 10u64), (8188, 8196), (0, 8193), (65530, 65540), (3, 65540), (70_000, 140_000), (0, 150_000), (149_999, 150_000), (1, 150_001)];
    for _ in 0..2 {
        let (a, b) = pick(&all, "range");
        match block_on(r.get_bytes(a..b)) {
            Ok(v) => {
                check(b <= n as u64 && v.len() as u64 == b - a && &v[..] == &data[a as usize..b as usize], "P20: other bytes than a long range holds");
                cover("bytes");
            }
            Err(_) => {
                check(b > n as u64, "P20: a long range inside the file could not be read");
                cover("end of file");
            }
        }
    }
}

/// P20: a range with an end anywhere up to 2^64 is an error, not memory for it
#[no_mangle]
pub extern "C" fn h20_far() {
    let data = sym_vec(3, "file");
    let r = TokioReader::new(Disk::new(&data));
    let (s, e) = (sym_u64("start"), sym_u64("end"));
    assume(s <= e && e > 3);
    match block_on(r.get_bytes(s..e)) {
        Ok(_) => check(s == e, "P20: bytes from behind the end of the file"),
        Err(_) => cover("error"),
    }
    let q = any_range(3, "range");
    judge(block_on(r.get_bytes(q.clone())), &data, &q);
}

/// P20: lists of ranges come back in order
#[no_mangle]
pub extern "C" fn h20_ranges() {
    let n = 3;
    let data = sym_vec(n, "file");
    let mut d = Disk::new(&data);
    d.short = 1;
    let r = TokioReader::new(d);
    let k = choice(by_tier(3, 4), "ranges");
    let qs: Vec<_> = (0..k).map(|_| any_range(n + 1, "range")).collect();
    assume(qs.iter().all(|q| q.start <= n as u64));
    let inside = qs.iter().all(|q| q.end <= n as u64);
    match block_on(r.get_byte_ranges(qs.clone())) {
        Ok(v) => {
            check(inside && v.len() == k, "P20: not one answer per range");
            for (b, q) in v.iter().zip(&qs) {
                check(eq(b, &data[q.start as usize..q.end as usize]), "P20: other bytes than the range holds");
            }
            cover("bytes");
        }
        Err(_) => {
            check(!inside, "P20: ranges inside the file could not be read");
            cover("end of file");
        }
    }
}

/// P20: a read or seek that fails is reported, and the next request is right again
#[no_mangle]
pub extern "C" fn h20_fault() {
    let n = 3;
    let data = sym_vec(n, "file");
    let mut d = Disk::new(&data);
    d.short = 2;
    let fail = choice(5, "failing_operation");
    d.fail_at = Some(fail);
    let ops = d.ops.clone();
    let r = TokioReader::new(d);
    let q = any_range(n, "range");
    let before = block_on(r.get_bytes(q.clone()));
    if ops.load(Relaxed) > fail {
        check(before.is_err(), "P20: a failed read was not reported");
        cover("failed");
    } else {
        judge(before, &data, &q);
    }
    ops.store(9, Relaxed);
    let q = any_range(n, "range");
    judge(block_on(r.get_bytes(q.clone())), &data, &q);
}

/// P20: two tasks on one reader in any order, the first possibly dropped half-way
#[no_mangle]
pub extern "C" fn h20_interleave() {
    let n = by_tier(3, 4);
    let data = sym_vec(n, "file");
    let mut d = Disk::new(&data);
    d.pend = by_tier(3, 4);
    d.short = by_tier(1, 2);
    let r = TokioReader::new(d);
    let (a, b) = (any_range(n, "range_a"), any_range(n, "range_b"));
    let mut fa = Some(r.get_bytes(a.clone()));
    let mut fb = Some(r.get_bytes(b.clone()));
    let mut cx = Context::from_waker(Waker::noop());
    let mut steps = 0;
    let cancel = choice(4, "cancel_at"); // 0: never
    while fa.is_some() || fb.is_some() {
        steps += 1;
        if steps > 20 {
            return check(false, "P20: tasks block each other for ever");
        }
        if steps == cancel && fa.is_some() {
            fa = None;
            cover("cancelled");
            continue;
        }
        let first = if fa.is_some() && fb.is_some() && steps < by_tier(5, 7) { !flag("poll_b") } else { fa.is_some() && (fb.is_none() || steps % 2 == 0) };
        let (f, q) = if first { (&mut fa, &a) } else { (&mut fb, &b) };
        if let Poll::Ready(x) = f.as_mut().unwrap().as_mut().poll(&mut cx) {
            *f = None;
            judge(x, &data, q);
        }
    }
    let q = 0..n as u64;
    judge(block_on(r.get_bytes(q.clone())), &data, &q);
}

// ---- P21

/// logs what it is asked; the answer to a range names it
#[derive(Debug, Clone)]
struct Log {
    one: Arc<Mutex<Vec<Range<u64>>>>,
    many: Arc<Mutex<Vec<Vec<Range<u64>>>>>,
    fail_at: Option<usize>,
}
impl Log {
    fn new() -> Self {
        Log { one: Default::default(), many: Default::default(), fail_at: None }
    }
}
fn name(r: &Range<u64>, salt: u8) -> Vec<u8> {
    let mut v = r.start.to_le_bytes().to_vec();
    v.extend_from_slice(&r.end.to_le_bytes());
    v.push(salt);
    v
}
#[async_trait::async_trait]
impl AsyncFileReader for Log {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        pend(1).await;
        let n = self.one.lock().unwrap().len();
        self.one.lock().unwrap().push(r.clone());
        if self.fail_at == Some(n) {
            return Err(AsyncTiffError::EndOfFile(n as u64, 77));
        }
        Ok(name(&r, 1).into())
    }
}
/// the same with its own way to get many ranges
#[derive(Debug, Clone)]
struct Batch(Log);
#[async_trait::async_trait]
impl AsyncFileReader for Batch {
    async fn get_bytes(&self, r: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.get_bytes(r).await
    }
    async fn get_byte_ranges(&self, r: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        self.0.many.lock().unwrap().push(r.clone());
        if self.0.fail_at.is_some() {
            return Err(AsyncTiffError::EndOfFile(1, 77));
        }
        Ok(r.iter().map(|r| name(r, 2).into()).collect())
    }
}
fn wrap(r: impl AsyncFileReader, how: usize) -> Box<dyn AsyncFileReader> {
    match how {
        0 => Box::new(r),
        1 => Box::new(Box::new(r) as Box<dyn AsyncFileReader>),
        _ => Box::new(Arc::new(r) as Arc<dyn AsyncFileReader>),
    }
}

/// P21: a reader behind a Box or Arc, and the list request built from single requests
#[no_mangle]
pub extern "C" fn h21_delegate() {
    let how = choice(3, "wrapper");
    let batch = flag("own_list");
    let mut log = Log::new();
    let k = pick(if thorough() { &[0usize, 1, 2, 3, 4, 9, 17, 33][..] } else { &[0, 1, 2, 3, 9, 33] }, "ranges");
    let fail = choice(k + 2, "failing_call");
    if fail > 0 {
        log.fail_at = Some(fail - 1);
    }
    let r = if batch { wrap(Batch(log.clone()), how) } else { wrap(log.clone(), how) };
    let qs: Vec<Range<u64>> = (0..k).map(|_| sym_u64("start")..sym_u64("end")).collect();
    let got = block_on(r.get_byte_ranges(qs.clone()));
    let (one, many) = (log.one.lock().unwrap().clone(), log.many.lock().unwrap().clone());
    let fails = if batch { fail > 0 } else { fail > 0 && fail - 1 < k };
    if batch {
        check(one.is_empty() && many.len() == 1 && many[0].len() == k, "P21: the reader's own list request was not used");
        for (x, y) in many[0].iter().zip(&qs) {
            check(x == y, "P21: other ranges were requested");
        }
    } else {
        check(if fails { one.len() >= fail && one.len() <= k } else { one.len() == k }, "P21: not one request per range");
        for (x, y) in one.iter().zip(&qs) {
            check(x == y, "P21: other ranges were requested");
        }
    }
    match got {
        Ok(v) => {
            check(!fails && v.len() == k, "P21: not one answer per range");
            for (b, q) in v.iter().zip(&qs) {
                check(eq(b, &name(q, if batch { 2 } else { 1 })), "P21: answers in another order");
            }
            cover("answered");
        }
        Err(e) => {
            check(fails && matches!(e, AsyncTiffError::EndOfFile(_, 77)), "P21: an error of its own");
            cover("failed");
        }
    }
    // single requests, also for metadata
    let q = sym_u64("start")..sym_u64("end");
    let n = log.one.lock().unwrap().len();
    let got = if flag("metadata") { block_on(r.fetch(q.clone())) } else { block_on(r.get_bytes(q.clone())) };
    let one = log.one.lock().unwrap().clone();
    check(one.len() == n + 1 && one[n] == q, "P21: a single request asks for something else");
    match got {
        Ok(b) => check(log.fail_at != Some(n) && eq(&b, &name(&q, 1)), "P21: other bytes"),
        Err(_) => check(log.fail_at == Some(n), "P21: an error of its own"),
    }
}

/// an object store with one object, given out in chunks
#[derive(Debug)]
struct Store {
    path: Path,
    /// the object's bytes from here on are `data`
    base: u64,
    data: Vec<u8>,
    chunk: usize,
    fail: bool,
    log: Arc<Mutex<Vec<Range<u64>>>>,
}
impl std::fmt::Display for Store {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
fn no<T>() -> Result<T> {
    Err(object_store::Error::NotImplemented { operation: String::new(), implementer: String::new() })
}
#[async_trait::async_trait]
impl ObjectStore for Store {
    async fn put_opts(&self, _: &Path, _: PutPayload, _: PutOptions) -> Result<PutResult> {
        no()
    }
    async fn put_multipart_opts(&self, _: &Path, _: PutMultipartOptions) -> Result<Box<dyn MultipartUpload>> {
        no()
    }
    async fn get_opts(&self, p: &Path, o: GetOptions) -> Result<GetResult> {
        let range = match &o.range {
            Some(GetRange::Bounded(r)) => r.clone(),
            _ => return no(),
        };
        self.log.lock().unwrap().push(range.clone());
        if self.fail || p.as_ref() != self.path.as_ref() || range.end > self.base + self.data.len() as u64 {
            return no();
        }
        let data = self.data[(range.start - self.base) as usize..(range.end - self.base) as usize].to_vec();
        let parts: Vec<Result<Bytes>> = data.chunks(self.chunk).map(|c| Ok(Bytes::copy_from_slice(c))).collect();
        let meta = ObjectMeta { location: p.clone(), last_modified: Default::default(), size: self.base + self.data.len() as u64, e_tag: None, version: None };
        Ok(GetResult { payload: GetResultPayload::Stream(futures::stream::iter(parts).boxed()), meta, range, attributes: Default::default(), extensions: Default::default() })
    }
    fn delete_stream(&self, _: BoxStream<'static, Result<Path>>) -> BoxStream<'static, Result<Path>> {
        futures::stream::empty().boxed()
    }
    fn list(&self, _: Option<&Path>) -> BoxStream<'static, Result<ObjectMeta>> {
        futures::stream::empty().boxed()
    }
    async fn list_with_delimiter(&self, _: Option<&Path>) -> Result<ListResult> {
        no()
    }
    async fn copy_opts(&self, _: &Path, _: &Path, _: CopyOptions) -> Result<()> {
        no()
    }
}

/// P21: an object of a store
#[no_mangle]
pub extern "C" fn h21_object() {
    let n = by_tier(4, 5);
    let data = sym_vec(n, "object");
    let log: Arc<Mutex<Vec<Range<u64>>>> = Default::default();
    let fail = flag("fail");
    let base = pick(&[0u64, (1 << 32) - 2, 1 << 53, (1 << 63) - 20], "base");
    let s = Store { path: Path::from("a/b.tif"), base, data: data.clone(), chunk: 1 + choice(2, "chunk"), fail, log: log.clone() };
    let r = ObjectReader::new(Arc::new(s), Path::from("a/b.tif"));
    let k = choice(by_tier(3, 4), "ranges");
    let at = |q: &Range<u64>| base + q.start..base + q.end;
    if k == 0 {
        let q = any_range(n + 1, "range");
        let got = if flag("metadata") { block_on(r.fetch(at(&q))) } else { block_on(r.get_bytes(at(&q))) };
        check(log.lock().unwrap()[..] == [at(&q)], "P21: another range was requested from the store");
        match got {
            Ok(b) => {
                check(!fail && q.end <= n as u64, "P21: bytes the store did not give");
                check(eq(&b, &data[q.start as usize..q.end as usize]), "P21: other bytes than the object's");
                cover("bytes");
            }
            Err(_) => {
                check(fail || q.end > n as u64, "P21: an error the store did not give");
                cover("error");
            }
        }
    } else {
        let qs: Vec<_> = (0..k).map(|_| any_range(n + 1, "range")).collect();
        objects(&r, base, &data, &qs, !fail);
    }
}
fn objects(r: &ObjectReader, base: u64, data: &[u8], qs: &[Range<u64>], works: bool) {
    let inside = works && qs.iter().all(|q| q.end <= data.len() as u64);
    match block_on(r.get_byte_ranges(qs.iter().map(|q| base + q.start..base + q.end).collect())) {
        Ok(v) => {
            check(inside && v.len() == qs.len(), "P21: not one answer per range");
            for (b, q) in v.iter().zip(qs) {
                check(eq(b, &data[q.start as usize..q.end as usize]), "P21: other bytes than the object's");
            }
            cover("list");
        }
        Err(_) => {
            check(!inside, "P21: an error the store did not give");
            cover("list error");
        }
    }
}
/// P21: long lists of ranges of a large object, in any order, some far apart, equal or overlapping
#[no_mangle]
pub extern "C" fn h21_objects() {
    const N: usize = 3000;
    let mut data: Vec<u8> = (0..N).map(|i| (i ^ (i >> 7)) as u8).collect();
    for i in [0, 250, 1000, N - 10] {
        data[i..i + 10].copy_from_slice(&sym_vec(10, "object"));
    }
    let base = pick(&[0u64, (1 << 32) - 500], "base");
    let s = Store { path: Path::from("a/b.tif"), base, data: data.clone(), chunk: pick(&[7usize, 300, N], "chunk"), fail: false, log: Default::default() };
    let r = ObjectReader::new(Arc::new(s), Path::from("a/b.tif"));
    let k = pick(&[1usize, 5, 11, 17, 40], "ranges");
    let (mul, len) = (pick(&[1u64, 37, 1009, 2999], "step"), pick(&[1u64, 30, 270], "length"));
    let qs: Vec<_> = (0..k as u64).map(|i| i * mul % 2700).map(|a| a..a + len + a % 3).collect();
    objects(&r, base, &data, &qs, true);
}
