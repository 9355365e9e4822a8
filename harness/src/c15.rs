use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::archetype::Archetype;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_descriptor::*;
use shard_ecs::*;

const MAX: u32 = 0xFF_FFFF;
fn eh(i: u32) -> Entity { unsafe { Entity::new_unchecked(i, 0) } }
/// The register itself, a few entities below its limit: any sequence of creations and destructions.
#[no_mangle]
pub extern "C" fn h_c15_register() { register(4) }
#[no_mangle]
pub extern "C" fn h_c15_register5() { register(5) }
fn register(steps: u32) {
    let below = pick(4);
    let mut n = MAX - below;
    let mut r = EntityRegistry::verif_with_live_entities(n as usize);
    let mut live = [true; 8]; // the slots looked at
    let slots = [0, 1, 255, 65536, 8_388_608, n - 2, n - 1];
    let mut extra = [Entity::INVALID; 12];
    let mut x = 0;
    for _ in 0..steps {
        if pick(2) == 0 {
            check(r.can_register_new_entity() == (n < MAX), "the register knows whether it is full");
            match r.create_entity(IndexInArchetype::new(5).unwrap(), ArchetypeIndex::new(3).unwrap()) {
                Some(h) => {
                    check(n < MAX, "no entity is registered beyond the limit");
                    check(h.is_valid() && h.index() < MAX, "handles are valid");
                    for k in 0..7 { check(!live[k] || h != eh(slots[k]), "handles are distinct"); }
                    for k in 0..x { check(extra[k] != h, "handles are distinct"); }
                    extra[x] = h;
                    x += 1;
                    n += 1;
                }
                None => check(n == MAX, "creation succeeds below the limit"),
            }
        } else {
            let k = pick(8) as usize;
            if k < 7 { check(r.destroy_entity(eh(slots[k])) == live[k], "live entities can be destroyed"); if live[k] { n -= 1; live[k] = false; } }
            else if x > 0 { check(r.destroy_entity(extra[x - 1]), "live entities can be destroyed"); x -= 1; n -= 1; }
        }
    }
    for k in 0..7 { check(r.entity_entry(eh(slots[k])).is_some() == live[k], "all other entities stay as they are"); }
    for k in 0..x { check(r.entity_entry(extra[k]).is_some_and(|e| e.archetype_index() == 3 && e.index_in_archetype().value() == 5), "created entities are registered"); }
    core::mem::forget(r);
    reach(0);
}
/// A registry with n entities of set G, of which the first, a middle and the last have known values.
struct Full { r: Registry, h: [Entity; 3], v: [[u64; NC]; 3], live: [bool; 3], n: u32 }
fn full<G: Grp>(n: u32, other: Option<u32>) -> Full { full_with::<G, (A, C, D)>(n, other) }
/// other: the number of them in another set K instead
fn full_with<G: Grp, K: Grp>(n: u32, other: Option<u32>) -> Full {
    let mut e = EntityRegistry::verif_with_live_entities(n as usize);
    let mut a = ArchetypeRegistry::default();
    let (mut h, mut v) = ([Entity::INVALID; 3], [[0; NC]; 3]);
    let rows = n - other.unwrap_or(0);
    {
        let (i, s) = match a.find_or_create_archetype(G::DESCRIPTOR.archetype()) { Some(x) => x, None => { check(false, "a storage is created"); loop {} } };
        check(i == 0, "harness: first storage");
        unsafe { s.verif_grow(rows) };
        check(s.len() == rows && s.capacity() >= rows && s.capacity() <= MAX, "a storage grows up to the limit");
        for (k, row) in [0, rows / 2, rows - 1].into_iter().enumerate() {
            G::fresh_all(&mut v[k]);
            h[k] = eh(row);
            unsafe { s.write_entity_unchecked(row, h[k], G::make(&v[k])) };
            match e.entity_entry_mut(h[k]) { Some(x) => x.set_index_in_archetype(IndexInArchetype::new(row).unwrap()), None => check(false, "live handles are accepted") }
        }
    }
    if let Some(o) = other { if let Some((_, s)) = a.find_or_create_archetype(K::DESCRIPTOR.archetype()) { unsafe { s.verif_grow(o) } } }
    Full { r: Registry::verif_from_parts(e, a), h, v, live: [true; 3], n }
}
impl Full {
    fn verify<G: Grp>(&self) {
        for k in 0..3 {
            match self.r.get_components::<G>(self.h[k]) { Some(c) => check(self.live[k] && G::same_ref(c, &self.v[k]), "existing entities stay intact"), None => check(!self.live[k], "existing entities stay intact") }
        }
    }
    /// creation fails exactly at the limit, handing the components back
    fn create<G: Grp>(&mut self) -> Option<(Entity, [u64; NC])> {
        let mut v = [0; NC];
        G::fresh_all(&mut v);
        let g = G::make(&v);
        let s = g.serial();
        match self.r.create_entity(g) {
            Ok(h) => {
                check(self.n < MAX, "no entity is created beyond the limit");
                self.n += 1;
                check(h.is_valid(), "handles are valid");
                for k in 0..3 { check(!self.live[k] || self.h[k] != h, "handles are distinct"); }
                match self.r.get_components::<G>(h) { Some(c) => check(G::same_ref(c, &v), "a created entity has its values"), None => check(false, "a created entity has its components") }
                Some((h, v))
            }
            Err(g) => { check(self.n == MAX, "creation succeeds below the limit"); check(g.same(&v) && g.serial() == s, "a failed creation hands the components back"); reach(1); None }
        }
    }
    fn destroy(&mut self, k: usize) { check(self.r.destroy_entity(self.h[k]) == self.live[k], "live entities can be destroyed"); if self.live[k] { self.live[k] = false; self.n -= 1; } }
    fn remove<G: Grp>(&mut self, k: usize) {
        match self.r.remove_entity::<G>(self.h[k]) { Some(g) => { check(self.live[k] && g.same(&self.v[k]), "live entities can be removed"); self.live[k] = false; self.n -= 1; } None => check(!self.live[k], "live entities can be removed") }
    }
}
fn limit<G: Grp>() {
    let below = pick(3);
    let mut f = full::<G>(MAX - below, None);
    for _ in 0..below { check(f.create::<G>().is_some(), "creation succeeds below the limit"); f.verify::<G>(); }
    if pick(2) == 0 { f.create::<G>(); } else { f.create::<(A, B)>(); }
    f.verify::<G>();
    let k = pick(3) as usize;
    if pick(2) == 0 { f.destroy(k) } else { f.remove::<G>(k) }
    f.verify::<G>();
    let c = match pick(3) { 0 => f.create::<G>(), 1 => f.create::<(A, B)>(), _ => f.create::<Z>() };
    f.verify::<G>();
    check(f.create::<G>().is_none() && f.create::<(A, B)>().is_none() && f.create::<C>().is_none(), "no entity is created beyond the limit");
    if let Some((h, _)) = c { check(f.r.destroy_entity(h), "a created entity can be destroyed"); f.n -= 1; check(f.create::<(A, B)>().is_some(), "destroying makes room"); }
    f.verify::<G>();
    core::mem::forget(f);
    reach(0);
}
/// the registry at its limit
#[no_mangle]
pub extern "C" fn h_c15_limit() { match pick(4) { 0 => limit::<A>(), 1 => limit::<(D, B, A)>(), 2 => limit::<(O, D, Z, A)>(), _ => limit::<Z>() } }
/// component changes at the limit: all entities but one in the other set
#[no_mangle]
pub extern "C" fn h_c15_moves() {
    let o = [0, 1, MAX - 5, MAX / 2, MAX - 4][pick(5) as usize];
    let mut f = full_with::<(A, B), (D, B, A)>(MAX - pick(2), Some(o));
    let k = pick(3) as usize;
    let v = any_u32();
    match pick(4) {
        0 => { check(f.r.add_component(f.h[k], D::mk(v as u64)).is_ok(), "components can be added at the limit"); check(f.r.get_component::<D>(f.h[k]).is_some_and(|d| d.rd() == v as u64), "an added component has its value"); }
        1 => { check(f.r.add_component(f.h[k], C::mk(v as u64)).is_ok(), "components can be added at the limit"); check(f.r.remove_component::<C>(f.h[k]).is_ok_and(|c| c.rd() == v as u64 & 0xff_ffff), "components can be removed at the limit"); }
        2 => { check(f.r.add_component(f.h[k], D::mk(v as u64)).is_ok() && f.r.remove_component::<D>(f.h[k]).is_ok_and(|d| d.rd() == v as u64), "components can be added and removed at the limit"); }
        _ => { check(f.r.add_component(f.h[k], A(v)).is_err_and(|a| a.0 == v), "a failed add hands the component back"); }
    }
    f.verify::<(A, B)>();
    while f.n < MAX { check(f.create::<(A, B)>().is_some(), "creation succeeds below the limit"); }
    check(f.create::<(A, B)>().is_none(), "no entity is created beyond the limit");
    f.destroy(k);
    f.verify::<(A, B)>();
    check(f.create::<(D, B, A)>().is_some(), "destroying makes room");
    f.verify::<(A, B)>();
    core::mem::forget(f);
    reach(0);
}
/// growing at every power of two up to the limit, through the registry
#[no_mangle]
pub extern "C" fn h_c15_growth() {
    let n = 128u32 << pick(17);
    let n = n - pick(2);
    match pick(3) {
        0 => { let mut f = full::<A>(n, None); for _ in 0..2 { f.create::<A>(); f.verify::<A>(); } core::mem::forget(f); }
        1 => { let mut f = full::<(D, B, A)>(n, None); for _ in 0..2 { f.create::<(B, A, D)>(); f.verify::<(D, B, A)>(); } core::mem::forget(f); }
        _ => {
            // the other set grows by component changes
            let mut f = full_with::<(A, B), (D, B, A)>(n + 3, Some(n));
            for k in 0..3 { check(f.r.add_component(f.h[k], D::mk(k as u64)).is_ok(), "components can be added at any length"); f.verify::<(A, B)>(); }
            for k in 0..3 { check(f.r.get_component::<D>(f.h[k]).is_some_and(|d| d.rd() == k as u64), "an added component has its value"); }
            core::mem::forget(f);
        }
    }
    reach(0);
}
/// a storage of any of the given capacities grows when full, up to the limit
#[no_mangle]
pub extern "C" fn h_c15_storage() {
    let c = [0, 1, 2, 127, 128, 129, 65535, 65536, 0x7f_ffff, 0x80_0000, 0x80_0001, 0xff_fffd, 0xff_fffe][pick(13) as usize];
    let mut a = Archetype::with_capacity(<(B, A)>::DESCRIPTOR.archetype(), c);
    check(a.capacity() == c, "a storage has the requested capacity");
    let mut v = [0; NC];
    <(B, A)>::fresh_all(&mut v);
    unsafe {
        a.verif_grow(c);
        if c > 0 { for i in [0, c / 2, c - 1] { a.write_entity_unchecked(i, eh(i), <(B, A)>::make(&v)); } }
        for j in 0..2 {
            if c + j == MAX { break; }
            let i = a.push_entity_unchecked(eh(c + j), <(B, A)>::make(&v));
            check(i == c + j && a.len() == c + j + 1 && a.capacity() >= a.len() && a.capacity() <= MAX, "a storage grows when full, up to the limit");
            check(<(B, A)>::same_ref(a.get_fuzzy_components_unchecked::<(B, A)>(i), &v) && a.entities()[i as usize] == eh(c + j), "a new row has its values");
        }
        if c > 0 { for i in [0, c / 2, c - 1] { check(<(B, A)>::same_ref(a.get_fuzzy_components_unchecked::<(B, A)>(i), &v) && a.entities()[i as usize] == eh(i), "growth preserves rows"); } }
    }
    core::mem::forget(a);
    reach(0);
}
unsafe fn nop(_: *mut u8, _: usize) {}
fn desc(id: u16) -> ComponentDescriptor { ComponentDescriptor::new(ComponentTypeId::from_u16(id), 0, 1, nop) }
/// the number of storages at its limit
#[no_mangle]
pub extern "C" fn h_c15_sets() {
    const LIMIT: u32 = 65534;
    let mut a = ArchetypeRegistry::default();
    // (A,B), (A), (A, D) exist, (A, C) and (B) do not; the ids of the world's components are not used otherwise
    let mut count = 0u32;
    for d in [<(A, B)>::DESCRIPTOR.archetype(), <A as ComponentGroup>::DESCRIPTOR.archetype(), <(A, D)>::DESCRIPTOR.archetype()] { check(a.find_or_create_archetype(d).is_some(), "storages are created below the limit"); count += 1; }
    let used = [<A as Component>::ID.into_u16(), <B as Component>::ID.into_u16(), <C as Component>::ID.into_u16(), <D as Component>::ID.into_u16()];
    let mut id = 0;
    while count < LIMIT - 2 {
        if id != used[0] && id != used[1] && id != used[2] && id != used[3] {
            let d: shard_ecs::archetype_descriptor::ArchetypeDescriptor = desc(id).into();
            match a.find_or_create_archetype(&d) { Some((i, _)) => check(i as u32 == count, "storages are created below the limit"), None => { check(false, "storages are created below the limit"); return; } }
            count += 1;
        }
        id += 1;
    }
    // two more, by descriptors of two types
    for k in 0..2 { let d = ComponentGroupDescriptor::new(&[desc(7), desc(9 + k)]).archetype().clone(); check(a.find_or_create_archetype(&d).is_some(), "storages are created below the limit"); count += 1; }
    check(count == LIMIT, "harness: count");
    let (va, vb, vc) = (any_u32(), any_u64(), any_u32());
    let mut r = Registry::verif_from_parts(EntityRegistry::default(), a);
    let mk = |r: &mut Registry| match r.create_entity((A(va), B(vb))) { Ok(h) => h, Err(_) => { check(false, "creation succeeds in existing storages"); Entity::INVALID } };
    let h = mk(&mut r);
    match pick(8) {
        0 => match r.create_entity((C::mk(vc as u64), A(va))) { Ok(_) => check(false, "no storage is created beyond the limit"), Err((c, a)) => check(c.rd() == vc as u64 & 0xff_ffff && a.0 == va, "a failed creation hands the components back") },
        1 => match r.create_entity(D::mk(vc as u64)) { Ok(_) => check(false, "no storage is created beyond the limit"), Err(d) => check(d.rd() == vc as u64, "a failed creation hands the components back") },
        2 => match r.add_component(h, D::mk(vc as u64)) { Ok(_) => check(false, "no storage is created beyond the limit"), Err(d) => check(d.rd() == vc as u64, "a failed add hands the component back") },
        3 => check(r.remove_component::<A>(h).is_err(), "no storage is created beyond the limit"),
        4 => { check(r.remove_component::<B>(h).is_ok_and(|b| b.0 == vb), "components are removed within existing storages"); check(r.add_component(h, B(vb)).is_ok(), "components are added within existing storages"); }
        5 => { check(r.remove_component::<B>(h).is_ok(), "components are removed within existing storages"); check(r.add_component(h, D::mk(vc as u64)).is_ok() && r.get_component::<D>(h).is_some_and(|d| d.rd() == vc as u64) && r.remove_component::<D>(h).is_ok() && r.add_component(h, B(vb)).is_ok(), "components are added within existing storages"); }
        6 => { let g = mk(&mut r); check(g != h && r.destroy_entity(g), "creation succeeds in existing storages"); let g = mk(&mut r); check(g != h, "creation succeeds in existing storages"); }
        _ => match r.create_entity((C::mk(1), D::mk(vc as u64), A(va))) { Ok(_) => check(false, "no storage is created beyond the limit"), Err((_, d, a)) => check(d.rd() == vc as u64 && a.0 == va, "a failed creation hands the components back") },
    }
    check(r.get_components::<(B, A)>(h).is_some_and(|(b, a)| b.0 == vb && a.0 == va), "existing entities stay intact");
    core::mem::forget(r);
    reach(0);
}
/// below the limits, no history makes a creation fail
#[no_mangle]
pub extern "C" fn h_c15_hist() {
    let mut w = World::<12>::new();
    prefix(&mut w, pick(PREFIXES));
    for _ in 0..2 { op(&mut w, &[DESTROY, RM_A, RM_BAD, DEL_A, ADD_D]); }
    for _ in 0..w.n - w.live() + 1 { w.create::<(D, Y, A)>(); }
    w.create::<(A, B)>();
    w.check_all();
    w.check_enumeration();
    reach(0);
    w.finish();
}
/// at the limit, destroying and creating keeps working past a version wrap-around
#[no_mangle]
pub extern "C" fn h_c15_recycle() {
    let mut f = full::<A>(MAX, None);
    let k = pick(3) as usize;
    f.destroy(k);
    for _ in 0..300 {
        match f.create::<A>() { Some((h, _)) => { check(f.create::<A>().is_none(), "no entity is created beyond the limit"); check(f.r.destroy_entity(h), "live entities can be destroyed"); f.n -= 1; } None => check(false, "destroying makes room") }
    }
    f.verify::<A>();
    core::mem::forget(f);
    reach(0);
}
