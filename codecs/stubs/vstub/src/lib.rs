//! What the stand-ins for the codec libraries share: the harness says what the codec produces, the
//! stand-in records what it was given.
use std::io::{Error, ErrorKind, Read, Result};
use std::sync::{Mutex, MutexGuard};

#[derive(Default)]
pub struct State {
    /// what codec `n` (counted by creation) produces
    pub output: Vec<u8>,
    pub inner: Vec<u8>,
    /// read that fails, counted from 0
    pub fail_read: Option<usize>,
    /// the codec itself refuses
    pub fail: bool,
    /// bytes given per read: first piece, then the rest
    pub piece: usize,
    /// kind of number / layout / type of the output
    pub kind: u32,
    pub dims: [u32; 5],
    // the server: what it answers, and how often each step is pending first
    /// 206: serves ranges; 200: always sends the whole resource; else an error with this status
    pub status: u16,
    /// the resource is `base` unimportant bytes and then `output`
    pub base: u64,
    pub fail_send: bool,
    pub fail_body: bool,
    pub pending: [usize; 2],
    // recorded
    /// method, address, headers (lower-case names)
    pub requests: Vec<(String, String, Vec<(String, Vec<u8>)>)>,
    pub codecs: Vec<&'static str>,
    pub input: Vec<Vec<u8>>,
    pub reads: usize,
    pub color: Option<u8>,
    pub asked: Option<(u32, [u32; 5])>,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);

pub fn set(s: State) {
    *STATE.lock().unwrap() = Some(s);
}
pub fn take() -> State {
    STATE.lock().unwrap().take().unwrap()
}
pub struct G(MutexGuard<'static, Option<State>>);
impl std::ops::Deref for G {
    type Target = State;
    fn deref(&self) -> &State {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for G {
    fn deref_mut(&mut self) -> &mut State {
        self.0.as_mut().unwrap()
    }
}
pub fn state() -> G {
    G(STATE.lock().unwrap())
}
pub fn given(codec: &'static str, input: Vec<u8>) {
    let mut s = state();
    s.codecs.push(codec);
    s.input.push(input);
}
pub fn refused() -> Error {
    Error::from(ErrorKind::InvalidData)
}

/// a codec that is read from: takes all of its input at the first read
pub struct Reader<R> {
    codec: &'static str,
    from: R,
    out: Option<Vec<u8>>,
    at: usize,
    n: usize,
}
impl<R: Read> Reader<R> {
    pub fn new(codec: &'static str, from: R) -> Self {
        Reader { codec, from, out: None, at: 0, n: 0 }
    }
    pub fn get_ref(&self) -> &R {
        &self.from
    }
    pub fn into_inner(self) -> R {
        self.from
    }
}
impl<R: Read> Read for Reader<R> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.out.is_none() {
            let mut input = Vec::new();
            self.from.read_to_end(&mut input)?;
            given(self.codec, input);
            let mut s = state();
            // the last codec of a chain produces `output`, one before it `inner`
            let o = if s.codecs.len() == 1 && !s.inner.is_empty() { s.inner.clone() } else { s.output.clone() };
            s.reads = 0;
            self.out = Some(o);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut s = state();
        let fail = s.fail_read == Some(self.n);
        s.reads += 1;
        let piece = s.piece;
        drop(s);
        self.n += 1;
        if fail {
            return Err(refused());
        }
        let out = self.out.as_ref().unwrap();
        let mut k = (out.len() - self.at).min(buf.len());
        if self.n == 1 && piece > 0 {
            k = k.min(piece);
        }
        buf[..k].copy_from_slice(&out[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

/// a future that is pending `n` times
pub async fn pend(n: usize) {
    let mut k = n;
    std::future::poll_fn(move |cx| {
        if k == 0 {
            std::task::Poll::Ready(())
        } else {
            k -= 1;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    })
    .await
}

/// the two numbers of `bytes=A-B`; None if it is anything else, or the last byte lies before the first
pub fn parse_range(v: &[u8]) -> Option<(u64, u64)> {
    let v = v.strip_prefix(b"bytes=")?;
    let mut n = [0u64; 2];
    let mut i = 0;
    let mut digits = 0;
    for c in v {
        if *c == b'-' && i == 0 && digits > 0 {
            i = 1;
            digits = 0;
        } else if c.is_ascii_digit() {
            n[i] = n[i].checked_mul(10)?.checked_add((*c - b'0') as u64)?;
            digits += 1;
        } else {
            return None;
        }
    }
    if i == 1 && digits > 0 && n[0] <= n[1] {
        Some((n[0], n[1]))
    } else {
        None
    }
}
/// what a server that keeps to RFC 9110 answers
pub fn serve(method: &str, headers: &[(String, Vec<u8>)]) -> (u16, Vec<u8>, Option<(u64, u64, u64)>) {
    let s = state();
    if s.status != 200 && s.status != 206 {
        return (s.status, b"no".to_vec(), None);
    }
    let mut whole = vec![0xee; if s.base < 1000 { s.base as usize } else { 1000 }];
    whole.extend_from_slice(&s.output);
    let mut ranges = headers.iter().filter(|h| h.0 == "range");
    let range = match (s.status, ranges.next(), ranges.next()) {
        (206, Some(h), None) if method == "GET" => parse_range(&h.1),
        _ => None,
    };
    let Some((a, b)) = range else {
        return (200, whole, None);
    };
    let len = s.base + s.output.len() as u64;
    if a >= len {
        return (416, b"no".to_vec(), None);
    }
    let b = b.min(len - 1);
    if a < s.base {
        return (206, b"the bytes before".to_vec(), Some((a, b, len)));
    }
    (206, s.output[(a - s.base) as usize..=(b - s.base) as usize].to_vec(), Some((a, b, len)))
}
