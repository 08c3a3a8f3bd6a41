//! stands in for std while the derive is expanded: `cfg!` and `format!` stay visible as calls
#![no_std]
pub use core::*;
#[macro_export] macro_rules! cfg { ($($t:tt)*) => { __vx_cfg(stringify!($($t)*)) } }
#[macro_export] macro_rules! format { ($($t:tt)*) => { __vx_format($($t)*) } }
