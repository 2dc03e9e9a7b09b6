//! Stand-in for the `log` facade (absent from the offline registry of this toolchain): formats nothing.
#[macro_export]
macro_rules! error { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[macro_export]
macro_rules! info { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[macro_export]
macro_rules! trace { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
