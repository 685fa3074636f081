//! syn with its entry points for compiler token streams taking proc_macro2's ones, which exist at run time.
pub use real::*;
pub fn parse<T: real::parse::Parse>(t: proc_macro2::TokenStream) -> real::Result<T> { real::parse2(t) }
#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => { match $crate::parse::<$ty>($t) { Ok(d) => d, Err(e) => return e.to_compile_error() } };
    ($t:ident) => { match $crate::parse($t) { Ok(d) => d, Err(e) => return e.to_compile_error() } };
}
