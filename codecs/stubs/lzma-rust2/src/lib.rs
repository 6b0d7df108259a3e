use std::io::Read;
pub struct XzReader<R>(vstub::Reader<R>);
impl<R: Read> XzReader<R> {
    pub fn new(r: R, _allow_multiple_streams: bool) -> Self {
        XzReader(vstub::Reader::new("xz", r))
    }
}
impl<R: Read> Read for XzReader<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buf)
    }
}
