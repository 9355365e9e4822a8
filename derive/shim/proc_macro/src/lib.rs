//! The compiler's `proc_macro` outside of the compiler.
#![no_std]
pub use proc_macro2::*;
