use crate::hist::*;
use crate::sym::*;
use crate::wide::*;
use crate::world::*;

fn verify<const N: usize>(w: &World<N>) { w.check_all(); w.check_groups(); }

/// any initial world, two arbitrary operations
#[no_mangle]
pub extern "C" fn h_c01_hist2() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    op(&mut w, ALL);
    verify(&w);
    reach(0);
    w.finish();
}
/// one arbitrary operation
#[no_mangle]
pub extern "C" fn h_c01_hist1() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, ALL);
    verify(&w);
    reach(0);
    w.finish();
}
/// three operations that move rows, on entities sharing storages
#[no_mangle]
pub extern "C" fn h_c01_moves3() {
    let mut w = World::<8>::new();
    prefix(&mut w, 1);
    op(&mut w, &[MK_BA, DESTROY, ADD_D, DEL_B]);
    op(&mut w, &[DESTROY, ADD_D, DEL_B, DEL_D, RM_AB]);
    op(&mut w, &[MK_BA, DESTROY, ADD_D, ADD_B, WR_A]);
    verify(&w);
    reach(0);
    w.finish();
}
/// thorough: three arbitrary operations
#[no_mangle]
pub extern "C" fn h_c01_hist3() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    op(&mut w, MOVES);
    op(&mut w, ALL);
    verify(&w);
    reach(0);
    w.finish();
}
/// thorough: four row-moving operations
#[no_mangle]
pub extern "C" fn h_c01_moves4() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(2) * 2 + 1);
    for _ in 0..4 { op(&mut w, &[MK_BA, DESTROY, ADD_D, DEL_B, DEL_A]); }
    verify(&w);
    reach(0);
    w.finish();
}
/// storage growth: two storages just below the growth boundary, then operations across it
#[no_mangle]
pub extern "C" fn h_c01_growth() {
    let mut w = World::<270>::new();
    let (x, y) = match pick(3) { 0 => (126, 0), 1 => (127, 3), _ => (2, 127) };
    for _ in 0..x { w.create::<(D, B, A)>(); }
    for _ in 0..y { w.create::<(B, A)>(); }
    for _ in 0..2 {
        match pick(5) {
            0 => { w.create::<(B, A, D)>(); }
            1 => { w.create::<(A, B)>(); }
            2 => w.add::<D>(x),
            3 => w.del::<D>(1),
            _ => w.destroy(0),
        }
    }
    w.check_all();
    reach(0);
    w.finish();
}
/// growth beyond the second boundary, with zero-sized, odd-sized and over-aligned components
#[no_mangle]
pub extern "C" fn h_c01_growth2() {
    let mut w = World::<270>::new();
    for k in 0..257 { if k < 129 { w.create::<(O, D, Z, A)>(); } else { w.create::<(A, Z, D, O)>(); } }
    w.del::<Z>(200);
    w.add::<C>(0);
    w.destroy(128);
    w.check_all();
    reach(0);
    w.finish();
}
/// 14-component entities
#[no_mangle]
pub extern "C" fn h_c01_wide() {
    let mut w = Wide::new();
    let a = w.all();
    let b = w.mix();
    let c = w.thirteen();
    match pick(4) {
        0 => w.add(c, 13),
        1 => w.del(pick(2) as usize, pick(14) as usize),
        2 => w.write_mix(a),
        _ => w.remove_rev(a),
    }
    if pick(2) == 0 { w.del(b, 7); w.add(b, 7); }
    w.check_all();
    reach(0);
}
/// tuples of every arity: created in one order, read and written in another
struct Values;
impl crate::sets::Arity for Values {
    fn run<G: Grp, R: Grp, const N: usize>(w: &mut World<N>) {
        crate::sets::arity_world::<G, R, N>(w);
        for t in 0..w.n { w.check_wide(t); w.check_group::<G>(t); w.check_group::<R>(t); }
        let t = pick(3) as usize;
        match pick(3) { 0 => w.write_group::<R>(t), 1 => w.write_group::<G>(t), _ => { w.add::<W14>(t); w.del::<W14>(t); } }
        for t in 0..w.n { w.check_wide(t); w.check_group::<G>(t); w.check_group::<R>(t); }
    }
}
#[no_mangle]
pub extern "C" fn h_c01_arity() {
    let mut w = World::<8>::new();
    crate::sets::arities::<Values, 8>(&mut w);
    reach(0);
    w.finish();
}
/// two registries in turns, moved in between
#[no_mangle]
pub extern "C" fn h_c01_two() {
    let mut w = World::<9>::new();
    let mut v = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    prefix(&mut v, [0, 4][pick(2) as usize]);
    op(&mut w, MOVES);
    core::mem::swap(&mut w.r, &mut v.r);
    core::mem::swap(&mut w.e, &mut v.e);
    core::mem::swap(&mut w.n, &mut v.n);
    op(&mut w, &[MK_BA, ADD_A, DEL_B, RM_AB]);
    let mut r = Box::new(core::mem::take(&mut v.r));
    core::mem::swap(&mut *r, &mut v.r);
    drop(r);
    op(&mut v, &[MK_DYA, ADD_C, DEL_A, DESTROY]);
    verify(&w);
    verify(&v);
    drop(core::mem::take(&mut v.r));
    verify(&w);
    reach(0);
    w.finish();
}
/// 300 storages
#[no_mangle]
pub extern "C" fn h_c01_many() {
    let mut w = World::<304>::new();
    let t = crate::sets::many_at(&mut w, pick(2) == 0);
    crate::sets::many_step(&mut w, t);
    w.write_group::<crate::sets::Q3>(t);
    w.write::<W8>((t + 1) % 300);
    crate::sets::check_near(&w, t);
    reach(0);
    w.finish();
}
/// storages of 257 and 65537 rows
#[no_mangle]
pub extern "C" fn h_c01_big() {
    let mut w = crate::big::Big::new();
    w.fill([257, 65537][pick(2) as usize]);
    let k = w.spot();
    w.step(k);
    w.check_values();
    reach(0);
}
/// values written through mutable iteration
#[no_mangle]
pub extern "C" fn h_c01_iterate() {
    let mut w = World::<8>::new();
    prefix(&mut w, 1 + pick(PREFIXES - 1));
    let f = crate::iter::Filt::odd(MA | MZ);
    match pick(4) {
        0 => { let x = pick(2); crate::iter::matching::<(D, A), 8>(&mut w, 2 + pick(2) + 4 * x, &f_or_all(1 - x, f)) }
        1 => crate::iter::matching::<(Z, D), 8>(&mut w, 2 + pick(2), &crate::iter::Filt::all()),
        2 => crate::iter::exact::<(B, A), 8>(&mut w, 2 + pick(2)),
        _ => crate::iter::exact::<(D, Y, A), 8>(&mut w, 2 + pick(2)),
    }
    verify(&w);
    reach(0);
    w.finish();
}
fn f_or_all(all: u32, f: crate::iter::Filt) -> crate::iter::Filt { if all == 1 { crate::iter::Filt::all() } else { f } }
#[no_mangle]
pub extern "C" fn h_c01_layouts() { crate::lay::layouts() }
#[no_mangle]
pub extern "C" fn h_c01_pairs() { crate::lay::pairs() }
#[no_mangle]
pub extern "C" fn h_c01_laygrow() { crate::lay::growth() }
/// component sets whose hashes coincide: any operation, then any write
#[no_mangle]
pub extern "C" fn h_c01_coll() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    crate::coll::step(&mut w, kind);
    let t = pick(w.n as u32) as usize;
    crate::coll::write(&mut w, t, kind);
    crate::coll::check(&w);
    w.check_ledger();
    reach(0);
    w.finish();
}
