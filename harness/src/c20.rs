use crate::big::*;
use crate::hist::*;
use crate::iter::*;
use crate::sym::*;
use crate::wide::*;
use crate::world::*;
use shard_ecs::Entity;

/// The largest number of entities alive at once so far bounds all slot numbers.
struct Peak(usize);
impl Peak {
    /// all entities of the world were just created, some were destroyed since: at most so many were alive at once
    fn all<const N: usize>(&mut self, w: &World<N>) {
        self.0 = self.0.max(w.n);
        for k in 0..w.n { check((w.e[k].h.index() as usize) < self.0, "the slot number of a new entity is below the largest number of entities alive at once"); }
    }
    fn see<const N: usize>(&mut self, w: &World<N>, from: usize) {
        let mut live = 0;
        for k in 0..from { live += w.e[k].live as usize; }
        self.0 = self.0.max(live);
        for k in from..w.n {
            live += w.e[k].live as usize;
            self.0 = self.0.max(live);
            check((w.e[k].h.index() as usize) < self.0, "the slot number of a new entity is below the largest number of entities alive at once");
        }
    }
}
fn slots(n: u32) {
    let mut w = World::<12>::new();
    let mut p = Peak(0);
    for _ in 0..pick(4) { w.create::<A>(); p.see(&w, w.n - 1); }
    for _ in 0..n {
        let from = w.n;
        op(&mut w, &[MK_A, MK_BA, DESTROY, RM_A, ADD_B, DEL_A, RM_AB]);
        p.see(&w, from);
    }
    w.check_enumeration();
    reach(0);
    w.finish();
}
/// any sequence of operations creating and removing entities: vacant slots are used before new ones
#[no_mangle]
pub extern "C" fn h_c20_slots() { slots(4) }
#[no_mangle]
pub extern "C" fn h_c20_slots6() { slots(5) }

/// A history repeated 14 times, ending without entities each time.
fn rounds(ops: &[u8], n: usize) {
    let mut w = World::<12>::new();
    let start = pick(PREFIXES);
    let mut o = [(0, 0); 3];
    for i in 0..n { o[i] = (ops[pick(ops.len() as u32) as usize], pick(4) as usize); }
    let way = pick(2);
    let mut p = Peak(0);
    let mut limit = 0;
    for r in 0..14 {
        prefix(&mut w, start);
        p.all(&w);
        for i in 0..n { let from = w.n; if o[i].0 < DESTROY || o[i].1 < w.n { apply(&mut w, o[i].0, o[i].1); } p.see(&w, from); }
        for t in 0..w.n { let t = if way == 0 { t } else { w.n - 1 - t }; if w.e[t].live { w.destroy(t); } }
        w.n = 0;
        if r == 1 { limit = held(); }
        if r > 1 { check(held() <= limit, "repeating a history does not increase the memory held"); }
    }
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c20_rounds() { rounds(&[MK_BA, MK_DYA, DESTROY, ADD_A, ADD_C, ADD_Z, ADD_D, DEL_A, DEL_B, DEL_D, RM_A, RM_AB, RM_BAD, RM_DYA, RM_AZDO], 1) }
#[no_mangle]
pub extern "C" fn h_c20_rounds2() { rounds(&[MK_BA, DESTROY, ADD_C, ADD_D, DEL_B, DEL_A, RM_AB, RM_DYA], 2) }

/// observing holds on to no memory
#[no_mangle]
pub extern "C" fn h_c20_idle() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    let b = held();
    match pick(10) {
        0 => w.check_all(),
        1 => w.check_groups(),
        2 => w.check_enumeration(),
        3 => matching::<A, 9>(&mut w, 0, &Filt::all()),
        4 => matching::<(B, A), 9>(&mut w, 3, &Filt::all()),
        5 => matching::<(D, A), 9>(&mut w, 5, &Filt::any()),
        6 => matching::<(B, A), 9>(&mut w, 7, &Filt::any()),
        7 => exact::<(A, B), 9>(&mut w, 0),
        8 => exact::<(D, A), 9>(&mut w, 3),
        _ => { let f = w.forge(); w.check_entity(f); }
    }
    check(held() == b, "queries, iterations and enumerations hold on to no memory");
    reach(0);
    w.finish();
}
/// operations rejected because of the handle, or because the component is there already or is missing, hold on to no memory
#[no_mangle]
pub extern "C" fn h_c20_rejected() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    let t = if w.n == 0 || pick(2) == 0 { w.forge() } else { pick(w.n as u32) as usize };
    let b = held();
    let before = w.e[w.resolve(t)];
    let o = [DESTROY, ADD_A, ADD_B, ADD_C, ADD_Z, ADD_D, ADD_Y, DEL_A, DEL_B, DEL_C, DEL_D, DEL_Y, RM_A, RM_AB, RM_BAD, RM_AZDO, RM_DYA, RM_Z][pick(18) as usize];
    apply(&mut w, o, t);
    let after = w.e[t];
    assume(!before.live || (after.live && after.mask == before.mask));
    // the last component cannot be removed, every other rejection is decided before a storage is set up
    check(held() == b, "a rejected operation holds on to no memory");
    reach(0);
    w.finish();
}
/// storages of many rows, emptied in part or completely and filled again
#[no_mangle]
pub extern "C" fn h_c20_rows() {
    let mut w = Big::new();
    let empty = { let x = held(); w.create(0); let b = held() - x; w.destroy(0); w.n = 0; b };
    let base = held();
    let n = [1, 127, 128, 129, 256, 257, 1025, 5000][pick(8) as usize];
    w.fill(n);
    // a row has 12 bytes of components, a handle and a record
    check(held() <= base + empty + 65536 + 4 * n as u64 * (12 + 4 + 8), "memory is proportional to the number of entities");
    let mut limit = held();
    let (from, k) = match pick(4) { 0 => (0, n), 1 => (n / 2, n - n / 2), 2 => (n - 1, 1), _ => (0, 1) };
    let way = pick(2);
    for r in 0..6 {
        for i in from..from + k { if way == 0 { w.destroy(i) } else { w.remove(i) } }
        w.n = from;
        let top = n;
        for i in from..from + k { w.n = i; w.create(r); check((w.h[i].index() as usize) < n, "the slot number of a new entity is below the largest number of entities alive at once"); }
        w.n = top;
        if r == 0 { limit = limit.max(held()); }
        check(held() <= limit, "repeating a history does not increase the memory held");
    }
    w.check_enumeration();
    reach(0);
}
/// an entity moving back and forth between storages that are full, or nearly
#[no_mangle]
pub extern "C" fn h_c20_moves() {
    let mut w = Big::new();
    let n = [1, 127, 128, 129][pick(4) as usize];
    w.fill(n);
    let t = w.n - 1;
    let other = [0, 127, 128][pick(3) as usize];
    for i in 0..other { let k = w.create(i); w.add(k); }
    let mut limit = 0;
    for r in 0..300 {
        check(w.r.add_component(w.h[t], C([1, 2, 3])).is_ok(), "adding succeeds");
        check(w.r.remove_component::<C>(w.h[t]).is_ok(), "removing succeeds");
        if r == 0 { limit = held(); }
        check(held() <= limit, "repeating a history does not increase the memory held");
    }
    w.check_enumeration();
    reach(0);
}
/// one slot used again and again, beyond all its versions, beside others
#[no_mangle]
pub extern "C" fn h_c20_cycles() {
    let mut w = World::<6>::new();
    let others = pick(3);
    for _ in 0..others { w.create::<A>(); }
    let k = 1 + pick(2);
    let mut limit = 0;
    for r in 0..600u32 {
        let mut h = [Entity::INVALID; 2];
        for i in 0..k { match w.r.create_entity((B(r as u64), A(r))) { Ok(x) => h[i as usize] = x, Err(_) => check(false, "creation succeeds") } check(h[i as usize].index() < others + k, "the slot number of a new entity is below the largest number of entities alive at once"); }
        for i in 0..k { check(w.r.destroy_entity(h[i as usize]), "a live handle is accepted"); }
        if r == 0 { limit = held(); }
        check(held() <= limit, "repeating a history does not increase the memory held");
    }
    reach(0);
    w.finish();
}
/// hundreds of storages, all used again
#[no_mangle]
pub extern "C" fn h_c20_many() {
    let mut w = World::<310>::new();
    let from = [0, 211][pick(2) as usize];
    let way = pick(2);
    let mut limit = 0;
    let mut p = Peak(0);
    for r in 0..4 {
        crate::sets::many(&mut w, from);
        p.all(&w);
        if pick(2) == 1 { w.add::<W14>(17); w.del::<W14>(17); }
        for t in 0..w.n { if way == 0 || r % 2 == 0 { w.destroy(t) } else { w.destroy(w.n - 1 - t) } }
        w.n = 0;
        if r == 1 { w.create::<W14>(); w.add::<W3>(0); w.destroy(0); w.n = 0; limit = held() + 65536; }
        if r > 1 { check(held() <= limit, "repeating a history does not increase the memory held"); }
    }
    reach(0);
    w.finish();
}
/// sets whose internal identifiers coincide
#[no_mangle]
pub extern "C" fn h_c20_coll() {
    use crate::coll::{KA, KAW, KB, KBW, KN, KP};
    let mut w = World::<8>::new();
    let k = pick(4);
    let mut limit = 0;
    for r in 0..12 {
        if k == 0 { w.create::<KA>(); w.create::<KB>(); w.create::<KA>(); w.add::<K7>(0); } else if k == 2 { w.create::<K8>(); w.create::<KN>(); w.create::<K8>(); w.add::<K9>(0); w.del::<K9>(1); } else if k == 3 { w.create::<KAW>(); w.create::<KBW>(); w.create::<KA>(); w.add::<W13>(2); } else { w.create::<KP>(); w.create::<K4>(); w.create::<KP>(); w.add::<K7>(1); w.del::<K7>(1); }
        for t in 0..3 { w.destroy(t); }
        w.n = 0;
        if r == 0 { limit = held(); }
        check(held() <= limit, "repeating a history does not increase the memory held");
    }
    reach(0);
    w.finish();
}
