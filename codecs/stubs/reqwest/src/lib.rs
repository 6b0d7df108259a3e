//! Stand-in for reqwest: records the request, answers as the harness says.
use bytes::Bytes;
use std::fmt;

#[derive(Debug)]
pub struct Error {
    status: Option<StatusCode>,
}
impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        self.status
    }
    pub fn is_status(&self) -> bool {
        self.status.is_some()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("request failed")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NO_CONTENT: StatusCode = StatusCode(204);
    pub const PARTIAL_CONTENT: StatusCode = StatusCode(206);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub const RANGE_NOT_SATISFIABLE: StatusCode = StatusCode(416);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        self.0 >= 200 && self.0 < 300
    }
    pub fn is_informational(&self) -> bool {
        self.0 >= 100 && self.0 < 200
    }
    pub fn is_redirection(&self) -> bool {
        self.0 >= 300 && self.0 < 400
    }
    pub fn is_client_error(&self) -> bool {
        self.0 >= 400 && self.0 < 500
    }
    pub fn is_server_error(&self) -> bool {
        self.0 >= 500 && self.0 < 600
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl PartialEq<u16> for StatusCode {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Url(String);
impl Url {
    pub fn parse(s: &str) -> std::result::Result<Url, fmt::Error> {
        Ok(Url(s.into()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for Url {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Url {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
pub trait IntoUrl {
    fn url(self) -> String;
}
impl IntoUrl for Url {
    fn url(self) -> String {
        self.0
    }
}
impl IntoUrl for &str {
    fn url(self) -> String {
        self.into()
    }
}
impl IntoUrl for &String {
    fn url(self) -> String {
        self.clone()
    }
}
impl IntoUrl for String {
    fn url(self) -> String {
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Method(&'static str);
impl Method {
    pub const GET: Method = Method("GET");
    pub const HEAD: Method = Method("HEAD");
    pub const POST: Method = Method("POST");
}

pub mod header {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct HeaderName(pub(crate) String);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct HeaderValue(pub(crate) Vec<u8>);
    impl HeaderValue {
        pub fn from_str(s: &str) -> Result<Self, InvalidHeaderValue> {
            Ok(HeaderValue(s.into()))
        }
        pub fn from_static(s: &'static str) -> Self {
            HeaderValue(s.into())
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn to_str(&self) -> Result<&str, InvalidHeaderValue> {
            std::str::from_utf8(&self.0).map_err(|_| InvalidHeaderValue)
        }
    }
    #[derive(Debug)]
    pub struct InvalidHeaderValue;
    impl std::fmt::Display for InvalidHeaderValue {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("invalid header value")
        }
    }
    impl std::error::Error for InvalidHeaderValue {}
    pub struct Name(pub(crate) &'static str);
    pub const RANGE: Name = Name("range");
    pub const ACCEPT: Name = Name("accept");
    pub const ACCEPT_ENCODING: Name = Name("accept-encoding");
    pub const IF_RANGE: Name = Name("if-range");
    pub const CONTENT_RANGE: Name = Name("content-range");
    pub const CONTENT_LENGTH: Name = Name("content-length");
    pub trait IntoName {
        fn name(self) -> String;
    }
    impl IntoName for Name {
        fn name(self) -> String {
            self.0.into()
        }
    }
    impl IntoName for HeaderName {
        fn name(self) -> String {
            self.0
        }
    }
    impl IntoName for &str {
        fn name(self) -> String {
            self.to_ascii_lowercase()
        }
    }
    pub trait IntoValue {
        fn value(self) -> Vec<u8>;
    }
    impl IntoValue for &str {
        fn value(self) -> Vec<u8> {
            self.into()
        }
    }
    impl IntoValue for String {
        fn value(self) -> Vec<u8> {
            self.into()
        }
    }
    impl IntoValue for &String {
        fn value(self) -> Vec<u8> {
            self.as_bytes().into()
        }
    }
    impl IntoValue for HeaderValue {
        fn value(self) -> Vec<u8> {
            self.0
        }
    }
    #[derive(Clone, Debug, Default)]
    pub struct HeaderMap(pub(crate) Vec<(String, HeaderValue)>);
    impl HeaderMap {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn get(&self, k: impl IntoName) -> Option<&HeaderValue> {
            let k = k.name();
            self.0.iter().find(|x| x.0 == k).map(|x| &x.1)
        }
        pub fn contains_key(&self, k: impl IntoName) -> bool {
            self.get(k).is_some()
        }
        pub fn insert(&mut self, k: impl IntoName, v: HeaderValue) {
            let k = k.name();
            self.0.retain(|x| x.0 != k);
            self.0.push((k, v));
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Client
    }
    pub fn get(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request(Method::GET, u)
    }
    pub fn head(&self, u: impl IntoUrl) -> RequestBuilder {
        self.request(Method::HEAD, u)
    }
    pub fn request(&self, m: Method, u: impl IntoUrl) -> RequestBuilder {
        RequestBuilder { method: m.0, url: u.url(), headers: vec![] }
    }
}
pub struct RequestBuilder {
    method: &'static str,
    url: String,
    headers: Vec<(String, Vec<u8>)>,
}
impl RequestBuilder {
    pub fn header(mut self, k: impl header::IntoName, v: impl header::IntoValue) -> Self {
        self.headers.push((k.name(), v.value()));
        self
    }
    pub fn headers(mut self, h: header::HeaderMap) -> Self {
        for (k, v) in h.0 {
            self.headers.retain(|x| x.0 != k);
            self.headers.push((k, v.0));
        }
        self
    }
    pub async fn send(self) -> Result<Response> {
        let n = vstub::state().pending[0];
        vstub::pend(n).await;
        let (status, body, part) = vstub::serve(self.method, &self.headers);
        let mut s = vstub::state();
        s.requests.push((self.method.into(), self.url, self.headers));
        if s.fail_send {
            return Err(Error { status: None });
        }
        Ok(Response { status: StatusCode(status), body, part, headers: Default::default() })
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    body: Vec<u8>,
    part: Option<(u64, u64, u64)>,
    headers: std::sync::OnceLock<header::HeaderMap>,
}
impl Response {
    pub fn headers(&self) -> &header::HeaderMap {
        self.headers.get_or_init(|| {
            let mut h = header::HeaderMap::new();
            h.insert("content-length", header::HeaderValue(self.body.len().to_string().into()));
            if let Some((a, b, len)) = self.part {
                h.insert("content-range", header::HeaderValue(format!("bytes {a}-{b}/{len}").into()));
            }
            h
        })
    }
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.body.len() as u64)
    }
    pub fn error_for_status(self) -> Result<Response> {
        if self.status.0 >= 400 && self.status.0 < 600 {
            return Err(Error { status: Some(self.status) });
        }
        Ok(self)
    }
    pub fn error_for_status_ref(&self) -> Result<&Response> {
        if self.status.0 >= 400 && self.status.0 < 600 {
            return Err(Error { status: Some(self.status) });
        }
        Ok(self)
    }
    pub async fn bytes(self) -> Result<Bytes> {
        let n = vstub::state().pending[1];
        vstub::pend(n).await;
        let s = vstub::state();
        if s.fail_body {
            return Err(Error { status: None });
        }
        Ok(self.body.into())
    }
}
