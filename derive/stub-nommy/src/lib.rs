//! stands in for nommy while the derive is expanded: `eyre!` and `bail!` stay visible as calls
pub use nommy_derive::Parse;
pub mod eyre { pub use crate::eyre; pub use crate::bail; pub struct Report; pub type Result<T> = core::result::Result<T, Report>; pub trait WrapErr {} }
#[macro_export] macro_rules! eyre { ($($t:tt)*) => { __vx_eyre($($t)*) } }
#[macro_export] macro_rules! bail { ($($t:tt)*) => { return Err(__vx_eyre($($t)*)) } }
