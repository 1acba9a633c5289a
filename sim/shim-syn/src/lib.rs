//! syn, with the few entry points that speak the compiler's TokenStream speaking proc_macro2's instead.
pub use real_syn::*;

pub fn parse<T: real_syn::parse::Parse>(tokens: proc_macro2::TokenStream) -> real_syn::Result<T> {
    real_syn::parse2(tokens)
}

pub mod parse {
    pub use real_syn::parse::*;
}

#[doc(hidden)]
pub mod __sim {
    pub use proc_macro2::TokenStream;
    pub use real_syn::parse::Parser;
    pub use real_syn::parse2;
    pub fn with<T>(p: impl FnOnce(real_syn::parse::ParseStream) -> real_syn::Result<T>, t: TokenStream) -> real_syn::Result<T> {
        Parser::parse2(p, t)
    }
}

#[macro_export]
macro_rules! parse_macro_input {
    ($tokens:ident as $ty:ty) => {
        match $crate::__sim::parse2::<$ty>($tokens) {
            Ok(data) => data,
            Err(err) => return $crate::__sim::TokenStream::from(err.to_compile_error()),
        }
    };
    ($tokens:ident with $parser:path) => {
        match $crate::__sim::with($parser, $tokens) {
            Ok(data) => data,
            Err(err) => return $crate::__sim::TokenStream::from(err.to_compile_error()),
        }
    };
    ($tokens:ident) => {
        $crate::parse_macro_input!($tokens as _)
    };
}
