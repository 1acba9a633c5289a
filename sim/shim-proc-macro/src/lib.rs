//! `proc_macro` as a plain library: proc_macro2's implementation outside a compiler.
pub use proc_macro2::*;
