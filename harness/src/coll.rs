//! Component sets whose internal identifiers (hashes) coincide: {K0, K1} with {K2, K3}, {K5, K6} with {K4},
//! {K8} with {K8, K9}, and {K0, K1, W13} with {K2, K3, W13}.
use crate::iter::*;
use crate::sym::*;
use crate::wide::*;
use crate::world::*;
use shard_ecs::*;

pub type KA = (K0, K1);
pub type KB = (K3, K2);
pub type KP = (K6, K5);
/// nested: one of the sets contains the other
pub type KN = (K9, K8);
type KNX = (K8, K7, K9);
/// two sets with a component in common
pub type KAW = (W13, K1, K0);
pub type KBW = (K3, W13, K2);
type KAX = (K1, K7, K0);
type KBX = (K7, K2, K3);
type KPX = (K5, K7, K6);
type K4X = (K7, K4);
group! { K0; K0 a } group! { K1; K1 a } group! { K2; K2 a } group! { K3; K3 a } group! { K4; K4 a } group! { K5; K5 a } group! { K6; K6 a } group! { K7; K7 a }
group! { KA; K0 a, K1 b }
group! { KB; K3 a, K2 b }
group! { KP; K6 a, K5 b }
group! { K8; K8 a } group! { K9; K9 a }
group! { KN; K9 a, K8 b }
group! { KNX; K8 a, K7 b, K9 c }
group! { KAW; W13 a, K1 b, K0 c }
group! { KBW; K3 a, W13 b, K2 c }
group! { KAX; K1 a, K7 b, K0 c }
group! { KBX; K7 a, K2 b, K3 c }
group! { KPX; K5 a, K7 b, K6 c }
group! { K4X; K7 a, K4 b }

/// the identifiers do coincide
pub fn identical() {
    let id = |d: &archetype_descriptor::ArchetypeDescriptor| d.archetype_id();
    use component_group::ComponentGroup;
    log((id(<KA as ComponentGroup>::DESCRIPTOR.archetype()) == id(<KB as ComponentGroup>::DESCRIPTOR.archetype())) as u64);
    log((id(<KAW as ComponentGroup>::DESCRIPTOR.archetype()) == id(<KBW as ComponentGroup>::DESCRIPTOR.archetype())) as u64);
    log((id(<KN as ComponentGroup>::DESCRIPTOR.archetype()) == id(<K8 as ComponentGroup>::DESCRIPTOR.archetype())) as u64);
    log((id(<KP as ComponentGroup>::DESCRIPTOR.archetype()) == id(<K4 as ComponentGroup>::DESCRIPTOR.archetype())) as u64);
}
/// an entity with the set, obtained in one of three ways
macro_rules! obtain { ($w:expr, $all:ty; $more:ty, $extra:ident; $less:ident, $last:ident) => { match pick(3) {
    0 => $w.create::<$all>(),
    1 => { let t = $w.create::<$less>(); $w.add::<$last>(t); t }
    _ => { let t = $w.create::<$more>(); $w.del::<$extra>(t); t }
} } }
pub fn ka<const N: usize>(w: &mut World<N>) -> usize { obtain!(w, KA; KAX, K7; K1, K0) }
pub fn kb<const N: usize>(w: &mut World<N>) -> usize { obtain!(w, KB; KBX, K7; K2, K3) }
pub fn kp<const N: usize>(w: &mut World<N>) -> usize { obtain!(w, KP; KPX, K7; K5, K6) }
pub fn k4<const N: usize>(w: &mut World<N>) -> usize { match pick(2) { 0 => w.create::<K4>(), _ => { let t = w.create::<K4X>(); w.del::<K7>(t); t } } }
pub fn kn<const N: usize>(w: &mut World<N>) -> usize { match pick(4) { 0 => w.create::<KN>(), 1 => { let t = w.create::<K8>(); w.add::<K9>(t); t } 2 => { let t = w.create::<K9>(); w.add::<K8>(t); t } _ => { let t = w.create::<KNX>(); w.del::<K7>(t); t } } }
pub fn k8<const N: usize>(w: &mut World<N>) -> usize { match pick(2) { 0 => w.create::<K8>(), _ => { let t = w.create::<KN>(); w.del::<K9>(t); t } } }
pub fn kaw<const N: usize>(w: &mut World<N>) -> usize { match pick(2) { 0 => w.create::<KAW>(), _ => { let t = w.create::<KA>(); w.add::<W13>(t); t } } }
pub fn kbw<const N: usize>(w: &mut World<N>) -> usize { match pick(2) { 0 => w.create::<KBW>(), _ => { let t = w.create::<KB>(); w.add::<W13>(t); t } } }
/// up to four entities of colliding sets, in any order; sometimes one of the two sets has no entities, or none any more
pub fn world<const N: usize>(w: &mut World<N>) -> u32 {
    let k = pick(4);
    if k == 2 {
        match pick(3) {
            0 => { kn(w); k8(w); w.create::<KN>(); w.create::<K8>(); }
            1 => { k8(w); let t = kn(w); if pick(2) == 0 { w.destroy(t); } }
            _ => { kn(w); }
        }
    } else if k == 3 {
        match pick(3) {
            0 => { kaw(w); kbw(w); w.create::<KAW>(); w.create::<KBW>(); }
            1 => { kbw(w); let t = kaw(w); if pick(2) == 0 { w.destroy(t); } }
            _ => { kaw(w); }
        }
    } else if k == 0 {
        match pick(3) {
            0 => { ka(w); kb(w); w.create::<KA>(); w.create::<KB>(); }
            1 => { kb(w); w.create::<KB>(); let t = ka(w); if pick(2) == 0 { w.destroy(t); } }
            _ => { ka(w); w.create::<KA>(); }
        }
    } else {
        match pick(3) {
            0 => { kp(w); k4(w); w.create::<KP>(); w.create::<K4>(); }
            1 => { k4(w); w.create::<K4>(); let t = kp(w); if pick(2) == 0 { w.destroy(t); } }
            _ => { kp(w); w.create::<KP>(); }
        }
    }
    k
}
pub fn check<const N: usize>(w: &World<N>) {
    for t in 0..w.n {
        w.check_coll(t);
        if w.resolve(t) != t { continue; }
        w.check_group::<KA>(t); w.check_group::<KB>(t); w.check_group::<KP>(t); w.check_group::<KAX>(t); w.check_group::<KBX>(t); w.check_group::<KPX>(t); w.check_group::<K4X>(t); w.check_group::<KN>(t); w.check_group::<KAW>(t); w.check_group::<KBW>(t);
    }
    w.check_enumeration();
}
/// any operation on any entity of a world of kind k
pub fn step<const N: usize>(w: &mut World<N>, k: u32) {
    let t = pick(w.n as u32) as usize;
    match pick(5) { 0 => return w.destroy(t), 1 => return remove(w, t, k), 2 => return w.add::<K7>(t), 3 => return write(w, t, k), _ => () }
    match k {
        0 => match pick(6) { 0 => { w.create::<KA>(); } 1 => { w.create::<KB>(); } 2 => w.add::<K0>(t), 3 => w.del::<K0>(t), 4 => w.del::<K2>(t), _ => { let u = w.create::<K2>(); w.add::<K3>(u); } },
        1 => match pick(5) { 0 => { w.create::<KP>(); } 1 => { w.create::<K4>(); } 2 => w.add::<K6>(t), 3 => w.del::<K5>(t), _ => { let u = w.create::<K5>(); w.add::<K6>(u); } },
        2 => match pick(6) { 0 => { w.create::<KN>(); } 1 => { w.create::<K8>(); } 2 => w.add::<K9>(t), 3 => w.del::<K9>(t), 4 => w.add::<K8>(t), _ => w.del::<K8>(t) },
        _ => match pick(6) { 0 => { w.create::<KAW>(); } 1 => { w.create::<KBW>(); } 2 => w.add::<W13>(t), 3 => w.del::<W13>(t), 4 => w.del::<K0>(t), _ => w.del::<K2>(t) },
    }
}
pub fn remove<const N: usize>(w: &mut World<N>, t: usize, k: u32) { match k {
    0 => match pick(4) { 0 => w.remove::<KA>(t), 1 => w.remove::<KB>(t), 2 => w.remove::<KAX>(t), _ => w.remove::<K0>(t) },
    1 => match pick(3) { 0 => w.remove::<KP>(t), 1 => w.remove::<K4>(t), _ => w.remove::<KPX>(t) },
    2 => match pick(3) { 0 => w.remove::<KN>(t), 1 => w.remove::<K8>(t), _ => w.remove::<K9>(t) },
    _ => match pick(3) { 0 => w.remove::<KAW>(t), 1 => w.remove::<KBW>(t), _ => w.remove::<KA>(t) },
} }
pub fn write<const N: usize>(w: &mut World<N>, t: usize, k: u32) { match k {
    0 => match pick(4) { 0 => w.write::<K0>(t), 1 => w.write::<K2>(t), 2 => w.write_group::<KA>(t), _ => w.write_group::<KB>(t) },
    1 => match pick(2) { 0 => w.write_group::<KP>(t), _ => w.write::<K4>(t) },
    2 => match pick(2) { 0 => w.write::<K8>(t), _ => w.write_group::<KN>(t) },
    _ => match pick(3) { 0 => w.write::<W13>(t), 1 => w.write_group::<KAW>(t), _ => w.write_group::<KBW>(t) },
} }
pub fn all_matching<const N: usize>(w: &mut World<N>, k: u32, variant: u32) {
    let f = if variant >= 4 { Filt::any() } else { Filt::all() };
    match k {
        0 => match pick(3) { 0 => matching::<KA, N>(w, variant, &f), 1 => matching::<KB, N>(w, variant, &f), _ => matching::<K1, N>(w, variant, &f) },
        1 => match pick(2) { 0 => matching::<KP, N>(w, variant, &f), _ => matching::<K4, N>(w, variant, &f) },
        2 => match pick(2) { 0 => matching::<K8, N>(w, variant, &f), _ => matching::<KN, N>(w, variant, &f) },
        _ => match pick(3) { 0 => matching::<KA, N>(w, variant, &f), 1 => matching::<KBW, N>(w, variant, &f), _ => matching::<W13, N>(w, variant, &f) },
    }
}
pub fn all_exact<const N: usize>(w: &mut World<N>, k: u32, variant: u32) {
    match k {
        0 => match pick(4) { 0 => exact::<KA, N>(w, variant), 1 => exact::<KB, N>(w, variant), 2 => exact::<KAX, N>(w, variant), _ => exact::<K2, N>(w, variant) },
        1 => match pick(2) { 0 => exact::<KP, N>(w, variant), _ => exact::<K4, N>(w, variant) },
        2 => match pick(2) { 0 => exact::<K8, N>(w, variant), _ => exact::<KN, N>(w, variant) },
        _ => match pick(3) { 0 => exact::<KAW, N>(w, variant), 1 => exact::<KBW, N>(w, variant), _ => exact::<KA, N>(w, variant) },
    }
}
