//! Histories: initial worlds and operations, chosen symbolically.
use crate::sym::*;
use crate::world::*;

// operation codes
pub const MK_A: u8 = 0;
pub const MK_BA: u8 = 1;
pub const MK_ODZA: u8 = 2;
pub const MK_CD: u8 = 3;
pub const MK_Z: u8 = 4;
pub const MK_DYA: u8 = 5;
pub const DESTROY: u8 = 10;
pub const ADD_A: u8 = 20;
pub const ADD_B: u8 = 21;
pub const ADD_C: u8 = 22;
pub const ADD_Z: u8 = 23;
pub const ADD_O: u8 = 24;
pub const ADD_D: u8 = 25;
pub const ADD_Y: u8 = 26;
pub const DEL_A: u8 = 30;
pub const DEL_B: u8 = 31;
pub const DEL_C: u8 = 32;
pub const DEL_Z: u8 = 33;
pub const DEL_O: u8 = 34;
pub const DEL_D: u8 = 35;
pub const DEL_Y: u8 = 36;
pub const RM_A: u8 = 40;
pub const RM_AB: u8 = 41;
pub const RM_BAD: u8 = 42;
pub const RM_AZDO: u8 = 43;
pub const RM_DC: u8 = 44;
pub const RM_DYA: u8 = 45;
pub const RM_Z: u8 = 46;
pub const WR_A: u8 = 50;
pub const WR_B: u8 = 51;
pub const WR_D: u8 = 52;
pub const WR_DA: u8 = 53;
pub const WR_BA: u8 = 54;
pub const WR_O: u8 = 55;

pub const ALL: &[u8] = &[MK_A, MK_BA, MK_ODZA, MK_CD, MK_Z, MK_DYA, DESTROY, ADD_A, ADD_B, ADD_C, ADD_Z, ADD_O, ADD_D, ADD_Y, DEL_A, DEL_B, DEL_C, DEL_Z, DEL_O, DEL_D, DEL_Y, RM_A, RM_AB, RM_BAD, RM_AZDO, RM_DC, RM_DYA, RM_Z, WR_A, WR_B, WR_D, WR_DA, WR_BA, WR_O];
/// operations changing which rows exist where
pub const MOVES: &[u8] = &[MK_BA, DESTROY, ADD_D, ADD_C, DEL_B, DEL_D, RM_AB, RM_BAD];

pub fn apply<const N: usize>(w: &mut World<N>, o: u8, t: usize) {
    match o {
        MK_A => { w.create::<A>(); }
        MK_BA => { w.create::<(B, A)>(); }
        MK_ODZA => { w.create::<(O, D, Z, A)>(); }
        MK_CD => { w.create::<(C, D)>(); }
        MK_Z => { w.create::<Z>(); }
        MK_DYA => { w.create::<(D, Y, A)>(); }
        DESTROY => w.destroy(t),
        ADD_A => w.add::<A>(t),
        ADD_B => w.add::<B>(t),
        ADD_C => w.add::<C>(t),
        ADD_Z => w.add::<Z>(t),
        ADD_O => w.add::<O>(t),
        ADD_D => w.add::<D>(t),
        ADD_Y => w.add::<Y>(t),
        DEL_A => w.del::<A>(t),
        DEL_B => w.del::<B>(t),
        DEL_C => w.del::<C>(t),
        DEL_Z => w.del::<Z>(t),
        DEL_O => w.del::<O>(t),
        DEL_D => w.del::<D>(t),
        DEL_Y => w.del::<Y>(t),
        RM_A => w.remove::<A>(t),
        RM_AB => w.remove::<(A, B)>(t),
        RM_BAD => w.remove::<(B, A, D)>(t),
        RM_AZDO => w.remove::<(A, Z, D, O)>(t),
        RM_DC => w.remove::<(D, C)>(t),
        RM_DYA => w.remove::<(D, Y, A)>(t),
        RM_Z => w.remove::<Z>(t),
        WR_A => w.write::<A>(t),
        WR_B => w.write::<B>(t),
        WR_D => w.write::<D>(t),
        WR_DA => w.write_group::<(D, A)>(t),
        WR_BA => w.write_group::<(B, A)>(t),
        WR_O => w.write::<O>(t),
        _ => check(false, "harness: unknown operation"),
    }
}
/// One arbitrary operation of the set on an arbitrary (live or dead) entity.
pub fn op<const N: usize>(w: &mut World<N>, set: &[u8]) -> u8 {
    let o = set[pick(set.len() as u32) as usize];
    if o < DESTROY { apply(w, o, 0); return o; }
    assume(w.n > 0);
    let t = pick(w.n as u32) as usize;
    apply(w, o, t);
    o
}
pub const PREFIXES: u32 = 5;
/// Initial worlds: empty; one storage shared by several entities; all kinds of components; reused slots; storages reached by component changes.
pub fn prefix<const N: usize>(w: &mut World<N>, p: u32) {
    match p {
        0 => {}
        1 => { w.create::<(A, B)>(); w.create::<(A, B)>(); w.create::<(D, B, A)>(); w.create::<(A, B)>(); }
        2 => { w.create::<(O, D, Z, A)>(); w.create::<(C, D)>(); w.create::<Z>(); w.create::<(A, Z, D, O)>(); }
        3 => { w.create::<(D, A)>(); w.create::<(D, A)>(); w.create::<(A, D)>(); w.destroy(1); w.create::<(D, Y, A)>(); w.destroy(0); }
        _ => { w.create::<A>(); w.add::<D>(0); w.create::<(B, A)>(); w.create::<(B, A)>(); w.del::<B>(1); w.add::<D>(1); w.add::<Y>(2); w.del::<B>(2); }
    }
}
