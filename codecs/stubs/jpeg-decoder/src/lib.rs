use std::io::Read;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ColorTransform {
    None,
    Unknown,
    Grayscale,
    RGB,
    YCbCr,
    CMYK,
    YCCK,
    JcsBgYcc,
    JcsBgRgb,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum UnsupportedFeature {
    Hierarchical,
    ArithmeticEntropyCoding,
    SamplePrecision(u8),
    ComponentCount(u8),
    DNL,
    SubsamplingRatio,
    NonIntegerSubsamplingRatio,
    ColorTransform(ColorTransform),
}
#[derive(Debug)]
pub enum Error {
    Format(String),
    Unsupported(UnsupportedFeature),
    Io(std::io::Error),
    Internal(Box<dyn std::error::Error + Send + Sync + 'static>),
}
impl std::fmt::Display for Error {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PixelFormat {
    L8,
    L16,
    RGB24,
    CMYK32,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct ImageInfo {
    pub width: u16,
    pub height: u16,
    pub pixel_format: PixelFormat,
}
pub struct Decoder<R> {
    r: R,
}
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Self {
        Decoder { r }
    }
    pub fn set_color_transform(&mut self, t: ColorTransform) {
        vstub::state().color = Some(t as u8);
    }
    pub fn set_max_decoding_buffer_size(&mut self, _: usize) {}
    pub fn decode(&mut self) -> Result<Vec<u8>, Error> {
        let mut v = Vec::new();
        self.r.read_to_end(&mut v)?;
        vstub::given("jpeg", v);
        let s = vstub::state();
        if s.fail {
            return Err(Error::Format(String::new()));
        }
        Ok(s.output.clone())
    }
}
