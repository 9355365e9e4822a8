use crate::sym::*;
use shard_ecs::*;

/// every index below 2^24 and every version
#[no_mangle]
pub extern "C" fn h_c13_pack() {
    let (i, v) = (any(24) as u32, any_u8());
    let e = unsafe { Entity::new_unchecked(i, v) };
    check(e.index() == i, "a handle returns the index it was built from");
    check(e.version() == v, "a handle returns the version it was built from");
    let f = unsafe { Entity::from_raw(e.raw()) };
    check(f == e && f.index() == i && f.version() == v && f.raw() == e.raw(), "the raw value round-trips");
    let (j, w) = (any(24) as u32, any_u8());
    let g = unsafe { Entity::new_unchecked(j, w) };
    check((g == e) == (i == j && v == w), "handles are equal exactly if index and version are");
    check((g.raw() == e.raw()) == (i == j && v == w), "raw values are equal exactly if index and version are");
    check(e.is_valid() == !(i == 0xFF_FFFF && v == 0xFF), "only maximum index and version is the invalid handle");
    reach(0);
}
/// any sequence of setters
#[no_mangle]
pub extern "C" fn h_c13_set() {
    let (mut i, mut v) = (any(24) as u32, any_u8());
    let mut e = unsafe { Entity::new_unchecked(i, v) };
    for _ in 0..3 {
        if pick(2) == 0 { i = any(24) as u32; unsafe { e.set_index(i) }; } else { v = any_u8(); e.set_version(v); }
        check(e.index() == i, "setting the version leaves the index unchanged, setting the index stores it");
        check(e.version() == v, "setting the index leaves the version unchanged, setting the version stores it");
        check(e == unsafe { Entity::new_unchecked(i, v) }, "a handle is determined by index and version");
    }
    reach(0);
}
#[no_mangle]
pub extern "C" fn h_c13_raw() {
    let r = any_u32();
    let e = unsafe { Entity::from_raw(r) };
    check(e.raw() == r, "the raw value round-trips");
    check(e.index() < 1 << 24, "the index of a handle is below 2^24");
    check(unsafe { Entity::new_unchecked(e.index(), e.version()) } == e, "index and version determine the handle");
    check(e.is_valid() == (e != Entity::INVALID) && e.is_valid() == (r != Entity::invalid().raw()), "validity means being different from the invalid handle");
    check(Entity::INVALID == Entity::invalid() && Entity::default() == Entity::INVALID && !Entity::INVALID.is_valid(), "the invalid handle is invalid");
    check(Entity::INVALID.index() == 0xFF_FFFF && Entity::INVALID.version() == 0xFF, "the invalid handle has maximum index and version");
    let c = e;
    check(c == e && !(c != e), "copies are equal");
    reach(0);
}
