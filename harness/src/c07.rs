use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::Entity;

/// any sequence of five creations, destructions and removals
#[no_mangle]
pub extern "C" fn h_c07_churn() {
    let mut w = World::<8>::new();
    let start = pick(3);
    for _ in 0..start { w.create::<A>(); }
    for _ in 0..4 { op(&mut w, &[MK_A, DESTROY, RM_A]); }
    w.check_enumeration();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c07_churn6() {
    let mut w = World::<10>::new();
    for _ in 0..3 { w.create::<A>(); }
    for _ in 0..6 { op(&mut w, &[MK_A, DESTROY]); }
    w.check_enumeration();
    reach(0);
    w.finish();
}
/// component changes and any other operation
#[no_mangle]
pub extern "C" fn h_c07_hist2() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    op(&mut w, &[MK_BA, DESTROY, ADD_D, ADD_C, DEL_B, DEL_D, RM_AB, RM_BAD, RM_DYA, WR_A]);
    w.check_enumeration();
    reach(0);
    w.finish();
}
/// many entities, any range destroyed, any number created again
#[no_mangle]
pub extern "C" fn h_c07_many() {
    const N: usize = 70;
    let mut w = World::<140>::new();
    for _ in 0..N { w.create::<A>(); }
    let from = pick(N as u32) as usize;
    let len = [1, 2, 7, N][pick(4) as usize];
    for t in from..(from + len).min(N) { if pick_order(t) { w.destroy(t); } else { w.remove::<A>(t); } }
    let again = [0, 1, 2, 70][pick(4) as usize];
    for _ in 0..again { w.create::<(B, A)>(); }
    w.check_enumeration();
    reach(0);
    w.finish();
}
fn pick_order(t: usize) -> bool { t % 3 != 0 }
/// a slot whose version wraps around
#[no_mangle]
pub extern "C" fn h_c07_wrap() {
    let mut w = World::<4>::new();
    w.create::<A>();
    let n = [127, 128, 254, 255, 256, 257][pick(6) as usize];
    let keep = pick(2) == 1;
    let mut last = Entity::INVALID;
    for i in 0..n {
        last = match w.r.create_entity(A(i)) { Ok(h) => h, Err(_) => { check(false, "creation succeeds"); return; } };
        let mut seen = 0;
        for h in w.r.iter_entities() { check(h == last || h == w.e[0].h, "only live handles are enumerated"); seen += 1; }
        check(seen == 2, "all live handles are enumerated");
        if i + 1 < n || !keep { check(w.r.destroy_entity(last), "a live handle is accepted"); }
    }
    let mut seen = 0;
    for h in w.r.iter_entities() { check(h == w.e[0].h || (keep && h == last), "only live handles are enumerated"); seen += 1; }
    check(seen == 1 + keep as u32, "all live handles are enumerated");
    reach(0);
    w.finish();
}
/// more entities than 16 bits count
#[no_mangle]
pub extern "C" fn h_c07_big() {
    let mut w = crate::big::Big::new();
    w.fill([257, 1025, 65536, 65537][pick(4) as usize]);
    let k = w.spot();
    match pick(4) { 0 => w.step(k), 1 => { let n = w.n; for i in n - 200..n { w.destroy(i) } } 2 => { for i in 0..w.n { if i % 256 != 7 { w.destroy(i) } } w.create(0); } _ => { w.destroy(k); w.create(0); w.create(1); } }
    w.check_enumeration();
    reach(0);
}
/// enumeration through any adaptor: counted, stepped, bounded, resumed
#[no_mangle]
pub extern "C" fn h_c07_adaptors() {
    let mut w = World::<10>::new();
    for _ in 0..pick(5) { w.create::<A>(); }
    for _ in 0..3 { op(&mut w, &[MK_A, DESTROY]); }
    w.check_enumeration();
    let mut hs = [Entity::INVALID; 10];
    let mut n = 0;
    for h in w.r.iter_entities() { hs[n] = h; n += 1; }
    check(w.r.iter_entities().count() == n, "counting agrees with stepping");
    check(w.r.iter_entities().last() == if n > 0 { Some(hs[n - 1]) } else { None }, "the last element agrees with stepping");
    check(w.r.iter_entities().fold(0, |k, h| { check(k < n && h == hs[k], "folding agrees with stepping"); k + 1 }) == n, "folding agrees with stepping");
    let k = pick(n as u32 + 2) as usize;
    let mut it = w.r.iter_entities();
    let (lo, hi) = it.size_hint();
    check(lo <= n && hi.is_none_or(|x| x >= n), "size bounds hold");
    check(it.nth(k) == if k < n { Some(hs[k]) } else { None }, "skipping agrees with stepping");
    let rest = n.saturating_sub(k + 1);
    let (lo, hi) = it.size_hint();
    check(lo <= rest && hi.is_none_or(|x| x >= rest), "size bounds hold");
    for j in k + 1..n { check(it.next() == Some(hs[j]), "stepping continues after skipping"); }
    check(it.next().is_none() && it.next().is_none(), "a finished enumeration stays finished");
    drop(it);
    let mut it = w.r.iter_entities();
    let mut seen = 0;
    for _ in 0..n / 2 { check(it.next() == Some(hs[seen]), "enumeration is repeatable"); seen += 1; }
    check(it.all(|h| { let ok = h == hs[seen]; seen += 1; ok }) && seen == n, "internal iteration agrees with stepping");
    reach(0);
    drop(it);
    w.finish();
}
