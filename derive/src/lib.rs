//! C30: the derive macro, run on token streams of definitions with symbolic names.
#[path = "../../harness/src/sym.rs"]
#[allow(dead_code)]
pub mod sym;
pub mod c30;
pub static HARNESSES: &[(&str, extern "C" fn())] = &[("h_c30_shapes", c30::h_c30_shapes), ("h_c30_params", c30::h_c30_params), ("h_c30_names", c30::h_c30_names)];
