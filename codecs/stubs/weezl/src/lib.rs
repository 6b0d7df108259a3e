use std::fmt;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BitOrder {
    Msb,
    Lsb,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum LzwStatus {
    Ok,
    NoProgress,
    Done,
}
#[derive(Debug, Clone, Copy)]
pub enum LzwError {
    InvalidCode,
}
impl fmt::Display for LzwError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid code in LZW stream")
    }
}
impl std::error::Error for LzwError {}
pub struct BufferResult {
    pub consumed_in: usize,
    pub consumed_out: usize,
    pub status: Result<LzwStatus, LzwError>,
}
pub struct VectorResult {
    pub consumed_in: usize,
    pub consumed_out: usize,
    pub status: Result<LzwStatus, LzwError>,
}
pub struct StreamResult {
    pub bytes_read: usize,
    pub bytes_written: usize,
    pub status: std::io::Result<()>,
}
pub mod decode {
    use super::*;
    pub struct Configuration(bool, BitOrder, u8);
    impl Configuration {
        pub fn new(order: BitOrder, size: u8) -> Self {
            Configuration(false, order, size)
        }
        pub fn with_tiff_size_switch(order: BitOrder, size: u8) -> Self {
            Configuration(true, order, size)
        }
        pub fn with_yield_on_full_buffer(self, _: bool) -> Self {
            self
        }
        pub fn build(self) -> Decoder {
            Decoder { c: self, at: None }
        }
    }
    pub struct Decoder {
        c: Configuration,
        at: Option<usize>,
    }
    impl Decoder {
        pub fn new(order: BitOrder, size: u8) -> Self {
            Configuration::new(order, size).build()
        }
        pub fn with_tiff_size_switch(order: BitOrder, size: u8) -> Self {
            Configuration::with_tiff_size_switch(order, size).build()
        }
        fn take(&mut self, data: &[u8]) {
            let tiff = self.c.0 && self.c.1 == BitOrder::Msb && self.c.2 == 8;
            vstub::given(if tiff { "lzw" } else { "another kind of LZW" }, data.to_vec());
            self.at = Some(0);
        }
        pub fn decode(&mut self, data: &[u8]) -> Result<Vec<u8>, LzwError> {
            self.take(data);
            let s = vstub::state();
            if s.fail {
                return Err(LzwError::InvalidCode);
            }
            Ok(s.output.clone())
        }
        pub fn decode_bytes(&mut self, inp: &[u8], out: &mut [u8]) -> BufferResult {
            let mut consumed_in = 0;
            if self.at.is_none() {
                self.take(inp);
                consumed_in = inp.len();
            }
            let s = vstub::state();
            let at = self.at.unwrap();
            let k = out.len().min(s.output.len() - at);
            out[..k].copy_from_slice(&s.output[at..at + k]);
            self.at = Some(at + k);
            let status = if s.fail {
                Err(LzwError::InvalidCode)
            } else if at + k == s.output.len() {
                Ok(LzwStatus::Done)
            } else {
                Ok(LzwStatus::Ok)
            };
            BufferResult { consumed_in, consumed_out: k, status }
        }
        pub fn has_ended(&self) -> bool {
            self.at == Some(vstub::state().output.len())
        }
        pub fn reset(&mut self) {
            self.at = None;
        }
        pub fn into_vec<'a>(&'a mut self, vec: &'a mut Vec<u8>) -> IntoVec<'a> {
            IntoVec(self, vec)
        }
        pub fn into_stream<W: std::io::Write>(&mut self, w: W) -> IntoStream<'_, W> {
            IntoStream(self, w)
        }
    }
    pub struct IntoVec<'a>(&'a mut Decoder, &'a mut Vec<u8>);
    impl IntoVec<'_> {
        pub fn decode(&mut self, read: &[u8]) -> VectorResult {
            match self.0.decode(read) {
                Ok(v) => {
                    self.1.extend_from_slice(&v);
                    VectorResult { consumed_in: read.len(), consumed_out: v.len(), status: Ok(LzwStatus::Done) }
                }
                Err(e) => VectorResult { consumed_in: 0, consumed_out: 0, status: Err(e) },
            }
        }
        pub fn decode_all(mut self, read: &[u8]) -> VectorResult {
            self.decode(read)
        }
    }
    pub struct IntoStream<'a, W>(&'a mut Decoder, W);
    impl<W: std::io::Write> IntoStream<'_, W> {
        pub fn decode(&mut self, mut read: impl std::io::BufRead) -> StreamResult {
            let mut data = vec![];
            let status = match read.read_to_end(&mut data) {
                Ok(_) => match self.0.decode(&data) {
                    Ok(v) => self.1.write_all(&v),
                    Err(_) => Err(vstub::refused()),
                },
                Err(e) => Err(e),
            };
            StreamResult { bytes_read: data.len(), bytes_written: 0, status }
        }
        pub fn decode_all(mut self, read: impl std::io::BufRead) -> StreamResult {
            self.decode(read)
        }
    }
}
