use std::fmt::{Debug, Display};
#[derive(Debug, Clone, Copy)]
pub struct BlobInfo {
    pub version: u32,
    pub data_type: u32,
    pub depth: u32,
    pub width: u32,
    pub height: u32,
    pub bands: u32,
    pub valid_pixel_count: u32,
    pub blob_size: u32,
    pub masks: u32,
    pub uses_nodata: u32,
}
#[derive(Debug)]
pub enum LercError {
    InvalidArgument,
    UnknownStatus(u32),
}
impl Display for LercError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for LercError {}
pub trait LercDataType: Default + Clone + Copy + PartialEq + Debug + Display {
    const LERC_TYPE: u32;
}
macro_rules! ty {
    ($($t:ty = $n:expr),*) => { $( impl LercDataType for $t { const LERC_TYPE: u32 = $n; } )* };
}
ty!(i8 = 0, u8 = 1, i16 = 2, u16 = 3, i32 = 4, u32 = 5, f32 = 6, f64 = 7);

pub fn get_blob_info(blob: &[u8]) -> Result<BlobInfo, LercError> {
    vstub::given("lerc info", blob.to_vec());
    let s = vstub::state();
    if s.fail {
        return Err(LercError::InvalidArgument);
    }
    Ok(BlobInfo { version: 6, data_type: s.kind, depth: s.dims[2], width: s.dims[0], height: s.dims[1], bands: s.dims[3], valid_pixel_count: 0, blob_size: blob.len() as u32, masks: s.dims[4], uses_nodata: 0 })
}
pub fn decode<T: LercDataType>(blob: &[u8], width: usize, height: usize, depth: usize, n_bands: usize, n_masks: usize) -> Result<(Vec<T>, Option<Vec<u8>>), LercError> {
    vstub::given("lerc", blob.to_vec());
    let mut s = vstub::state();
    s.asked = Some((T::LERC_TYPE, [width as u32, height as u32, depth as u32, n_bands as u32, n_masks as u32]));
    if s.fail_read.is_some() || s.output.len() % std::mem::size_of::<T>() != 0 {
        return Err(LercError::UnknownStatus(1));
    }
    let n = s.output.len() / std::mem::size_of::<T>();
    let mut v = vec![T::default(); n];
    unsafe { std::ptr::copy_nonoverlapping(s.output.as_ptr(), v.as_mut_ptr() as *mut u8, s.output.len()) };
    Ok((v, if n_masks > 0 { Some(vec![0; 1]) } else { None }))
}
