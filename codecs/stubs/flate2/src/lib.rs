macro_rules! decoder {
    ($name:ident, $bound:path, $codec:expr) => {
        pub struct $name<R>(vstub::Reader<R>);
        impl<R: $bound> $name<R> {
            pub fn new(r: R) -> Self {
                $name(vstub::Reader::new($codec, r))
            }
            pub fn get_ref(&self) -> &R {
                self.0.get_ref()
            }
            pub fn into_inner(self) -> R {
                self.0.into_inner()
            }
        }
        impl<R: $bound> std::io::Read for $name<R> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                std::io::Read::read(&mut self.0, buf)
            }
        }
    };
}
pub mod bufread {
    decoder!(ZlibDecoder, std::io::BufRead, "zlib");
    decoder!(DeflateDecoder, std::io::BufRead, "raw deflate");
    decoder!(GzDecoder, std::io::BufRead, "gzip");
}
pub mod read {
    decoder!(ZlibDecoder, std::io::Read, "zlib");
    decoder!(DeflateDecoder, std::io::Read, "raw deflate");
    decoder!(GzDecoder, std::io::Read, "gzip");
}
