pub mod error {
    #[derive(Debug)]
    pub enum Error {
        UnsupportedComponentsError(u32),
        CodecError(String),
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T, E = Error> = std::result::Result<T, E>;
}
use error::*;
#[derive(Default, Clone)]
pub struct DecodeParameters;
impl DecodeParameters {
    pub fn new() -> Self {
        Self
    }
    pub fn reduce(self, _: u32) -> Self {
        vstub::state().asked = Some((999, [0; 5]));
        self
    }
    pub fn strict(self, _: bool) -> Self {
        self
    }
    pub fn layers(self, _: u32) -> Self {
        vstub::state().asked = Some((999, [0; 5]));
        self
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ImageFormat {
    L8,
    La8,
    Rgb8,
    Rgba8,
    L16,
    La16,
    Rgb16,
    Rgba16,
}
#[derive(Debug, Clone)]
pub enum ImagePixelData {
    L8(Vec<u8>),
    La8(Vec<u8>),
    Rgb8(Vec<u8>),
    Rgba8(Vec<u8>),
    L16(Vec<u16>),
    La16(Vec<u16>),
    Rgb16(Vec<u16>),
    Rgba16(Vec<u16>),
}
#[derive(Debug, Clone)]
pub struct ImageData {
    pub width: u32,
    pub height: u32,
    pub format: ImageFormat,
    pub data: ImagePixelData,
}
pub struct Image;
impl Image {
    pub fn from_bytes(buf: &[u8]) -> Result<Self> {
        Self::from_bytes_with(buf, DecodeParameters)
    }
    pub fn from_bytes_with(buf: &[u8], _: DecodeParameters) -> Result<Self> {
        vstub::given("jpeg2k", buf.to_vec());
        if vstub::state().fail {
            return Err(Error::CodecError(String::new()));
        }
        Ok(Image)
    }
    pub fn get_pixels(&self, _alpha_default: Option<u32>) -> Result<ImageData> {
        let s = vstub::state();
        if s.fail_read.is_some() {
            return Err(Error::UnsupportedComponentsError(9));
        }
        let b = s.output.clone();
        let w = || s.output.chunks_exact(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect::<Vec<u16>>();
        let (format, data) = match s.kind {
            0 => (ImageFormat::L8, ImagePixelData::L8(b)),
            1 => (ImageFormat::La8, ImagePixelData::La8(b)),
            2 => (ImageFormat::Rgb8, ImagePixelData::Rgb8(b)),
            3 => (ImageFormat::Rgba8, ImagePixelData::Rgba8(b)),
            4 => (ImageFormat::L16, ImagePixelData::L16(w())),
            5 => (ImageFormat::La16, ImagePixelData::La16(w())),
            6 => (ImageFormat::Rgb16, ImagePixelData::Rgb16(w())),
            _ => (ImageFormat::Rgba16, ImagePixelData::Rgba16(w())),
        };
        Ok(ImageData { width: s.dims[0], height: s.dims[1], format, data })
    }
}
