//! Stand-in for `tracing`: events are type-checked and dropped.
pub use tracing_attributes_standin::instrument;

#[doc(hidden)]
#[macro_export]
macro_rules! __event {
    ($($t:tt)*) => {{}};
}
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { $crate::__event!($($t)*) }; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { $crate::__event!($($t)*) }; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { $crate::__event!($($t)*) }; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => { $crate::__event!($($t)*) }; }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { $crate::__event!($($t)*) }; }
