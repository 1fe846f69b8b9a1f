//! Stand-in for `qrcode`: keeps the text.
use std::marker::PhantomData;
pub struct QrCode(Vec<u8>);
#[derive(Debug)]
pub struct QrError;
impl std::fmt::Display for QrError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("data too long") }
}
pub struct Renderer<P>(Vec<u8>, PhantomData<P>);
impl QrCode {
    pub fn new<D: AsRef<[u8]>>(data: D) -> Result<Self, QrError> { Ok(Self(data.as_ref().to_vec())) }
    pub fn render<P>(&self) -> Renderer<P> { Renderer(self.0.clone(), PhantomData) }
}
impl<P> Renderer<P> {
    pub fn build(&self) -> image::TextImage { image::TextImage(self.0.clone()) }
}
