#![no_std]
extern crate vxstd as std;
macro_rules! panic { ($($t:tt)*) => { __vx_panic($($t)*) } }
macro_rules! unimplemented { ($($t:tt)*) => { __vx_unreached($($t)*) } }
macro_rules! unreachable { ($($t:tt)*) => { __vx_unreached($($t)*) } }
macro_rules! todo { ($($t:tt)*) => { __vx_unreached($($t)*) } }
macro_rules! format { ($($t:tt)*) => { __vx_format($($t)*) } }
