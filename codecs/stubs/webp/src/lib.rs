pub struct Decoder<'a> {
    data: &'a [u8],
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PixelLayout {
    Rgb,
    Rgba,
}
impl PixelLayout {
    pub fn is_alpha(self) -> bool {
        self == PixelLayout::Rgba
    }
    pub fn bytes_per_pixel(self) -> u8 {
        if self.is_alpha() {
            4
        } else {
            3
        }
    }
}
pub struct WebPImage {
    data: Vec<u8>,
    layout: PixelLayout,
    width: u32,
    height: u32,
}
impl WebPImage {
    pub fn width(&self) -> u32 {
        self.width
    }
    pub fn height(&self) -> u32 {
        self.height
    }
    pub fn is_alpha(&self) -> bool {
        self.layout.is_alpha()
    }
    pub fn layout(&self) -> PixelLayout {
        self.layout
    }
}
impl std::ops::Deref for WebPImage {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.data
    }
}
impl<'a> Decoder<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Self { data }
    }
    pub fn decode(&self) -> Option<WebPImage> {
        vstub::given("webp", self.data.to_vec());
        let s = vstub::state();
        if s.fail {
            return None;
        }
        Some(WebPImage { data: s.output.clone(), layout: if s.kind == 4 { PixelLayout::Rgba } else { PixelLayout::Rgb }, width: s.dims[0], height: s.dims[1] })
    }
}
