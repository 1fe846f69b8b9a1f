//! Stand-in for `image`: an "image" is the text it was drawn from, and its
//! "PNG encoding" is that text's bytes, so a driver can read back what was
//! drawn.
use std::io::{self, Write};
#[derive(Clone, Copy, Debug)]
pub struct Luma<T>(pub [T; 1]);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ImageFormat { Png }
#[derive(Clone, Debug)]
pub struct TextImage(pub Vec<u8>);
impl TextImage {
    pub fn write_to<W: Write>(&self, w: &mut W, _: ImageFormat) -> io::Result<()> { w.write_all(&self.0) }
}
