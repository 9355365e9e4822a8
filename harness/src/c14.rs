use crate::sym::*;
use shard_ecs::*;

struct Model { v: u8, r: u32, a: u16 }
fn verify(e: &EntityEntry, m: &Model) {
    check(e.version() == m.v, "a record returns the version last stored");
    check(e.index_in_archetype().value() == m.r, "a record returns the row last stored");
    check(e.archetype_index() == m.a, "a record returns the archetype number last stored");
    check(e.is_valid() == (m.a != u16::MAX), "a record is vacant exactly if marked vacant");
}
fn change(e: &mut EntityEntry, m: &mut Model) {
    match pick(4) {
        0 => { m.v = any_u8(); e.set_version(m.v); }
        1 => { m.r = any(24) as u32; e.set_index_in_archetype(unsafe { IndexInArchetype::new_unchecked(m.r) }); }
        2 => { m.a = any_u16(); e.set_archetype_index(m.a); }
        _ => { m.r = any(24) as u32; m.a = u16::MAX; unsafe { e.invalidate(m.r) }; }
    }
}
/// any sequence of four changes with any values
#[no_mangle]
pub extern "C" fn h_c14_record() {
    let mut e = EntityEntry::default();
    let mut m = Model { v: 0, r: 0, a: 0 };
    verify(&e, &m);
    for _ in 0..4 { change(&mut e, &mut m); verify(&e, &m); }
    let c = e.clone();
    verify(&c, &m);
    reach(0);
}
/// neighbouring records do not influence each other
#[no_mangle]
pub extern "C" fn h_c14_array() {
    let mut e = [EntityEntry::default(), EntityEntry::default(), EntityEntry::default()];
    let mut m = [Model { v: 0, r: 0, a: 0 }, Model { v: 0, r: 0, a: 0 }, Model { v: 0, r: 0, a: 0 }];
    for _ in 0..3 { let k = pick(3) as usize; change(&mut e[k], &mut m[k]); for k in 0..3 { verify(&e[k], &m[k]); } }
    reach(0);
}
/// rows
#[no_mangle]
pub extern "C" fn h_c14_row() {
    let v = any_u32();
    match IndexInArchetype::new(v) {
        Some(i) => { check(v < IndexInArchetype::INVALID_VALUE && v < 0xFF_FFFF, "rows are accepted only below the maximum"); check(i.value() == v, "a row returns its value"); let b = IndexInArchetype::from_bytes(i.to_bytes()); check(b.value() == v && b == i, "a row round-trips through its bytes"); reach(0); }
        None => { check(v >= IndexInArchetype::INVALID_VALUE && v >= 0xFF_FFFF, "rows below the maximum are accepted"); reach(1); }
    }
    let b = [any_u8(), any_u8(), any_u8()];
    let i = IndexInArchetype::from_bytes(b);
    check(i.value() < 1 << 24, "three bytes make a 24-bit row");
    check(i.to_bytes() == b, "bytes round-trip through a row");
    let w = any(24) as u32;
    let u = unsafe { IndexInArchetype::new_unchecked(w) };
    check(IndexInArchetype::from_bytes(u.to_bytes()).value() == w, "a 24-bit link round-trips through its bytes");
    check((u == i) == (w == i.value()) && (u < i) == (w < i.value()), "rows compare by value");
    check(IndexInArchetype::default().value() == 0, "the default row is the first");
}
/// archetype numbers
#[no_mangle]
pub extern "C" fn h_c14_archetype() {
    let v = any_u16();
    match ArchetypeIndex::new(v) {
        Some(i) => { check(v != ArchetypeIndex::INVALID_VALUE && v < u16::MAX, "archetype numbers are accepted only below the maximum"); check(i.value() == v, "an archetype number returns its value"); reach(0); }
        None => { check(v == u16::MAX, "archetype numbers below the maximum are accepted"); reach(1); }
    }
}
