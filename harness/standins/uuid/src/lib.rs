//! Stand-in for `uuid`: version 4 only.
use std::fmt;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Uuid(u128);
impl Uuid {
    pub fn new_v4() -> Self {
        let r = fastrand::u128(..);
        Self((r & !(0xf << 76) & !(0x3 << 62)) | (0x4 << 76) | (0x2 << 62))
    }
}
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let h = format!("{:032x}", self.0);
        write!(f, "{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
    }
}
