//! syn without its dependency on the compiler's token streams.
pub use real::*;
pub fn parse<T: real::parse::Parse>(t: proc_macro2::TokenStream) -> real::Result<T> { real::parse2(t) }
#[doc(hidden)]
pub fn parse_by<P: real::parse::Parser>(p: P, t: proc_macro2::TokenStream) -> real::Result<P::Output> { p.parse2(t) }
#[macro_export]
macro_rules! parse_macro_input {
    ($t:ident as $ty:ty) => { match $crate::parse::<$ty>($t) { Ok(v) => v, Err(e) => return ::core::convert::From::from(e.to_compile_error()) } };
    ($t:ident with $p:path) => { match $crate::parse_by($p, $t) { Ok(v) => v, Err(e) => return ::core::convert::From::from(e.to_compile_error()) } };
    ($t:ident) => { $crate::parse_macro_input!($t as _) };
}
