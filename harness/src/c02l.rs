use crate::sym::*;
use shard_ecs::*;

/// slots with large numbers
#[no_mangle]
pub extern "C" fn h_c02_large() {
    let max = EntityRegistry::MAX_ENTITY_COUNT;
    let n = [257, 65537, 8_388_609, max - 2][pick(4) as usize];
    let mut r = EntityRegistry::verif_with_live_entities(n);
    let mk = |r: &mut EntityRegistry| r.create_entity(IndexInArchetype::default(), ArchetypeIndex::new(7).unwrap());
    let i = [0, 255, 256, 65535, 65536, 8_388_607, 8_388_608, n as u32 - 1][pick(8) as usize];
    assume((i as usize) < n);
    let h = unsafe { Entity::new_unchecked(i, 0) };
    check(r.entity_entry(h).is_some(), "live handles are accepted");
    let a = mk(&mut r);
    check(a == Some(unsafe { Entity::new_unchecked(n as u32, 0) }) || a.is_some_and(|a| a.is_valid() && a.index() as usize >= n), "a new slot is used while none is free");
    check(r.destroy_entity(h), "live handles are accepted");
    check(r.entity_entry(h).is_none() && !r.destroy_entity(h), "destroyed handles are rejected");
    match mk(&mut r) {
        Some(b) => {
            check(Some(b) != a && b != h && b.is_valid(), "live handles are distinct");
            check(r.entity_entry(b).is_some_and(|e| e.archetype_index() == 7), "new handles are accepted");
            check(r.entity_entry(h).is_none(), "destroyed handles stay rejected");
            check(r.destroy_entity(b) && r.entity_entry(b).is_none(), "destroyed handles are rejected");
        }
        None => check(false, "creation succeeds below the limit"),
    }
    if let Some(a) = a { check(r.entity_entry(a).is_some_and(|e| e.archetype_index() == 7), "live handles are accepted"); }
    core::mem::forget(r);
    reach(0);
}
