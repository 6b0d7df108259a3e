pub mod stream {
    pub mod read {
        use std::io::{BufRead, BufReader, Read, Result};
        use std::marker::PhantomData;
        pub struct Decoder<'a, R>(vstub::Reader<R>, PhantomData<&'a ()>);
        impl<R: Read> Decoder<'static, BufReader<R>> {
            pub fn new(r: R) -> Result<Self> {
                Self::with_buffer(BufReader::with_capacity(64, r))
            }
        }
        impl<R: BufRead> Decoder<'static, R> {
            pub fn with_buffer(r: R) -> Result<Self> {
                if vstub::state().fail {
                    return Err(vstub::refused());
                }
                Ok(Decoder(vstub::Reader::new("zstd", r), PhantomData))
            }
        }
        impl<'a, R> Decoder<'a, R> {
            pub fn single_frame(self) -> Self {
                self
            }
        }
        impl<'a, R: BufRead> Read for Decoder<'a, R> {
            fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
                self.0.read(buf)
            }
        }
    }
    pub use read::Decoder;
    pub fn decode_all<R: std::io::Read>(r: R) -> std::io::Result<Vec<u8>> {
        use std::io::Read;
        let mut v = Vec::new();
        read::Decoder::new(r)?.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn copy_decode<R: std::io::Read, W: std::io::Write>(r: R, mut w: W) -> std::io::Result<()> {
        w.write_all(&decode_all(r)?)
    }
}
pub use stream::{copy_decode, decode_all, Decoder};
