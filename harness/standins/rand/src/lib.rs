//! Stand-in for the part of `rand` used in the repository.
//!
//! `set_i32_script` lets a driver dictate the next integers (to force digest id
//! collisions and extreme values); otherwise values come from `fastrand`.
use std::cell::RefCell;
use std::collections::VecDeque;

thread_local!(static I32S: RefCell<VecDeque<i32>> = const { RefCell::new(VecDeque::new()) });

pub fn set_i32_script(values: &[i32]) {
    I32S.with(|s| *s.borrow_mut() = values.iter().copied().collect());
}

pub trait Sample: Sized {
    fn sample() -> Self;
}
macro_rules! ints { ($($t:ident)*) => { $(impl Sample for $t {
    fn sample() -> Self { I32S.with(|s| s.borrow_mut().pop_front()).map_or_else(|| fastrand::$t(..), |v| v as $t) }
})* } }
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
impl Sample for bool { fn sample() -> Self { fastrand::bool() } }
impl<const N: usize> Sample for [u8; N] {
    fn sample() -> Self {
        let mut a = [0; N];
        for b in &mut a { *b = fastrand::u8(..); }
        a
    }
}
pub trait RngCore {}
pub trait Rng: RngCore {
    fn gen<T: Sample>(&mut self) -> T { T::sample() }
    fn fill(&mut self, dest: &mut [u8]) { for b in dest { *b = fastrand::u8(..); } }
    fn gen_range(&mut self, r: std::ops::Range<i32>) -> i32 { fastrand::i32(r) }
}
impl<R: RngCore> Rng for R {}
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {}
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T: Sample>() -> T { T::sample() }
