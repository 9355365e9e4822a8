use std::sync::Arc;
/// One byte of a value: concrete, byte `1` of symbolic expression `0`, or uninitialised.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { C(u8), S(u32, u8), U }
/// A register value.
#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    U,
    Agg(Arc<Vec<Val>>),
    M(Arc<Vec<B>>),
    W(Arc<u128>),
}
