//! Worlds with many storages and with tuples of every arity.
use crate::iter::*;
use crate::sym::*;
use crate::wide::*;
use crate::world::*;
use shard_ecs::*;

group!(W0; W0 a); group!(W1; W1 a); group!(W2; W2 a); group!(W3; W3 a); group!(W4; W4 a); group!(W5; W5 a); group!(W6; W6 a); group!(W7; W7 a);
group!(W8; W8 a); group!(W9; W9 a); group!(W10; W10 a); group!(W11; W11 a); group!(W12; W12 a); group!(W13; W13 a); group!(W14; W14 a);
macro_rules! alias { ($($n:ident: $($T:ident $x:ident),+;)*) => { $( pub type $n = ($($T),+); group!($n; $($T $x),+); )* } }
alias! {
    G2: W7 a, W2 b;
    G3: W7 a, W2 b, W12 c;
    G4: W7 a, W2 b, W12 c, W0 d;
    G5: W7 a, W2 b, W12 c, W0 d, W9 e;
    G6: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f;
    G7: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g;
    G8: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g, W1 h;
    G9: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g, W1 h, W10 i;
    G10: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g, W1 h, W10 i, W3 j;
    G11: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g, W1 h, W10 i, W3 j, W8 k;
    G12: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g, W1 h, W10 i, W3 j, W8 k, W5 l;
    G13: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g, W1 h, W10 i, W3 j, W8 k, W5 l, W11 m;
    G14: W7 a, W2 b, W12 c, W0 d, W9 e, W4 f, W13 g, W1 h, W10 i, W3 j, W8 k, W5 l, W11 m, W6 n;
    // the same sets, reversed
    R2: W2 a, W7 b;
    R3: W12 c, W2 a, W7 b;
    R4: W0 d, W12 c, W2 a, W7 b;
    R5: W9 e, W0 d, W12 c, W2 a, W7 b;
    R6: W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R7: W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R8: W1 h, W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R9: W10 i, W1 h, W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R10: W3 j, W10 i, W1 h, W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R11: W8 k, W3 j, W10 i, W1 h, W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R12: W5 l, W8 k, W3 j, W10 i, W1 h, W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R13: W11 m, W5 l, W8 k, W3 j, W10 i, W1 h, W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    R14: W6 n, W11 m, W5 l, W8 k, W3 j, W10 i, W1 h, W13 g, W4 f, W9 e, W0 d, W12 c, W2 a, W7 b;
    // groups queried in worlds with many storages
    Q3: W2 a, W0 b, W7 c;
    Q4: W8 a, W1 b, W6 c, W3 d;
}
/// What is done with the tuples of one arity: one order to create, the other to query.
pub trait Arity { fn run<G: Grp, R: Grp, const N: usize>(w: &mut World<N>); }
pub fn arities<X: Arity, const N: usize>(w: &mut World<N>) {
    match pick(14) {
        0 => X::run::<W9, W9, N>(w),
        1 => X::run::<G2, R2, N>(w),
        2 => X::run::<R3, G3, N>(w),
        3 => X::run::<G4, R4, N>(w),
        4 => X::run::<R5, G5, N>(w),
        5 => X::run::<G6, R6, N>(w),
        6 => X::run::<R7, G7, N>(w),
        7 => X::run::<G8, R8, N>(w),
        8 => X::run::<R9, G9, N>(w),
        9 => X::run::<G10, R10, N>(w),
        10 => X::run::<R11, G11, N>(w),
        11 => X::run::<G12, R12, N>(w),
        12 => X::run::<R13, G13, N>(w),
        _ => X::run::<G14, R14, N>(w),
    }
}
/// two entities of the group in both orders, another one with all or all but one of 14 types
pub fn arity_world<G: Grp, R: Grp, const N: usize>(w: &mut World<N>) {
    w.create::<G>();
    let t = w.create::<G14>();
    w.create::<R>();
    w.del::<W7>(t);
    w.create::<W3>();
}

macro_rules! with { ($i:expr, $T:ident => $b:expr) => { match $i {
    0 => { type $T = W0; $b } 1 => { type $T = W1; $b } 2 => { type $T = W2; $b } 3 => { type $T = W3; $b } 4 => { type $T = W4; $b }
    5 => { type $T = W5; $b } 6 => { type $T = W6; $b } 7 => { type $T = W7; $b } _ => { type $T = W8; $b } } } }
pub const SETS: u32 = 300;
/// One entity in each of 300 storages (each set of 9 types other than the omitted ones, in an order rotated by `from`),
/// the sets obtained by adding types one after the other, from below or from above.
pub fn many<const N: usize>(w: &mut World<N>, from: u32) {
    for i in 0..SETS {
        let m = (i + from) % 511 + 1;
        let up = i % 2 == 0;
        let mut t = usize::MAX;
        for j in 0..9 {
            let b = if up { j } else { 8 - j };
            if m >> b & 1 == 1 { with!(b, T => if t == usize::MAX { t = w.create::<T>(); } else { w.add::<T>(t); }); }
        }
    }
}
/// the position of the set m (of bits 0..9) in the order of `many`
pub fn rotation(m: u32, position: u32) -> u32 { (m + 511 - 1 - position) % 511 }
/// storage positions around the limits of narrow integers
pub const SPOTS: [u32; 8] = [0, 1, 127, 128, 254, 255, 256, 299];
pub const Q3M: u32 = 1 << 2 | 1 << 0 | 1 << 7;
pub const Q4M: u32 = 1 << 8 | 1 << 1 | 1 << 6 | 1 << 3;
/// A world of 300 storages with the set of Q3 or Q4 in any of the spots, and the number of that entity.
pub fn many_at<const N: usize>(w: &mut World<N>, q3: bool) -> usize {
    let p = SPOTS[pick(8) as usize];
    many(w, rotation(if q3 { Q3M } else { Q4M }, p));
    p as usize
}
/// any change of component sets of the entity, one of its neighbours or the newest one
pub fn many_step<const N: usize>(w: &mut World<N>, t: usize) {
    let t = [t, (t + 1) % SETS as usize, SETS as usize - 1][pick(3) as usize];
    match pick(8) {
        0 => w.add::<W14>(t),
        1 => w.add::<W2>(t),
        2 => w.add::<W8>(t),
        3 => w.del::<W0>(t),
        4 => w.del::<W8>(t),
        5 => w.destroy(t),
        6 => { w.create::<Q3>(); w.create::<Q4>(); }
        _ => { w.add::<W14>(t); w.del::<W14>(t); }
    }
}
pub fn many_queries<const N: usize>(w: &mut World<N>, variant: u32) {
    let f = Filt::odd([1 << NB | 1 << (NB + 8), 0x7f << NB][pick(2) as usize]);
    match pick(3) {
        0 => matching::<Q3, N>(w, variant, &f),
        1 => matching::<W8, N>(w, variant, &f),
        _ => matching::<W14, N>(w, variant, &f),
    }
}
/// values and component sets of the entities near t and at the spots
pub fn check_near<const N: usize>(w: &World<N>, t: usize) {
    for k in 0..w.n { if k + 2 >= t && k <= t + 2 || k < 2 || k == 255 || k == 256 || k + 3 >= w.n { w.check_wide(k); w.check_group::<Q3>(k); w.check_group::<Q4>(k); } else { w.check_one::<W3>(k); } }
}
