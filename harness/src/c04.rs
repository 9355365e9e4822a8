use crate::hist::*;
use crate::sym::*;
use crate::wide::*;
use crate::world::*;

const SETS: &[u8] = &[ADD_A, ADD_B, ADD_C, ADD_Z, ADD_O, ADD_D, ADD_Y, DEL_A, DEL_B, DEL_C, DEL_Z, DEL_O, DEL_D, DEL_Y, DESTROY, MK_BA];

/// two changes of component sets of any entities, including failing ones
#[no_mangle]
pub extern "C" fn h_c04_hist2() {
    let mut w = World::<8>::new();
    prefix(&mut w, 1 + pick(PREFIXES - 1));
    op(&mut w, SETS);
    op(&mut w, &[ADD_A, ADD_B, ADD_D, ADD_Z, DEL_A, DEL_B, DEL_D, DEL_Z, DESTROY]);
    w.check_all();
    w.check_groups();
    reach(0);
    w.finish();
}
/// one change, everything observable compared
#[no_mangle]
pub extern "C" fn h_c04_hist1() {
    let mut w = World::<9>::new();
    prefix(&mut w, 1 + pick(PREFIXES - 1));
    w.forge();
    op(&mut w, SETS);
    w.check_state();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c04_hist3() {
    let mut w = World::<8>::new();
    prefix(&mut w, 1 + pick(PREFIXES - 1));
    for _ in 0..3 { op(&mut w, &[ADD_A, ADD_B, ADD_D, DEL_A, DEL_B, DEL_D, ADD_Z, DEL_Z]); }
    w.check_all();
    w.check_groups();
    reach(0);
    w.finish();
}
/// every component removed and added at the maximum of 14
#[no_mangle]
pub extern "C" fn h_c04_wide() {
    let mut w = Wide::new();
    let a = w.all();
    let b = w.thirteen();
    let i = pick(15) as usize;
    let j = pick(15) as usize;
    match pick(4) {
        0 => { w.del(a, i); w.add(a, j); }
        1 => { w.add(b, i); w.add(b, j); }
        2 => { w.add(b, 13); w.del(b, i); w.del(b, j); }
        _ => { w.add(a, i); w.del(a, j); w.add(a, i); }
    }
    w.check_all();
    w.check_exact();
    reach(0);
}
/// a set built up from one component to 14 and taken apart again, in an arbitrary rotation of the types
#[no_mangle]
pub extern "C" fn h_c04_ladder() {
    let mut w = Wide::new();
    let other = w.mix();
    let t = w.one();
    let s = pick(14) as usize;
    let step = [1, 3, 5, 13][pick(4) as usize];
    for k in 0..14 { w.add(t, (s + k * step) % 14); if k == 5 || k == 13 { w.check_all(); } }
    w.add(t, 14);
    w.check_all();
    w.check_exact();
    for k in 0..14 { w.del(t, (5 + s + k * step) % 14); if k == 6 { w.check_all(); } }
    w.check_all();
    w.destroy(other);
    w.check_exact();
    reach(0);
}
/// 300 storages
#[no_mangle]
pub extern "C" fn h_c04_many() {
    let mut w = World::<304>::new();
    let t = crate::sets::many_at(&mut w, pick(2) == 0);
    crate::sets::many_step(&mut w, t);
    if pick(2) == 1 { w.add::<W12>(t); w.del::<W8>(t); }
    crate::sets::check_near(&w, t);
    crate::iter::matching::<W8, 304>(&mut w, 1, &crate::iter::Filt::all());
    reach(0);
    w.finish();
}
/// component sets whose hashes coincide: any operation
#[no_mangle]
pub extern "C" fn h_c04_coll() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    crate::coll::step(&mut w, kind);
    crate::coll::check(&w);
    w.check_ledger();
    reach(0);
    w.finish();
}
