use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::*;

const DROPS: &[u8] = &[MK_CD, MK_DYA, MK_ODZA, DESTROY, ADD_D, ADD_Y, ADD_A, DEL_A, DEL_D, DEL_Y, DEL_C, RM_BAD, RM_DC, RM_DYA, RM_AZDO, WR_D];

fn start<const N: usize>(w: &mut World<N>) {
    match pick(4) {
        0 => { w.create::<(D, A)>(); w.create::<(A, D)>(); w.create::<(D, Y, A)>(); }
        1 => { w.create::<(D, C)>(); w.create::<(Y, D)>(); w.create::<D>(); w.add::<Y>(2); }
        2 => { w.create::<(O, D, Z, A)>(); w.create::<(A, Z, D, O)>(); w.create::<(A, Y)>(); w.add::<D>(2); }
        _ => { w.create::<(D, Y, A)>(); w.create::<(D, Y, A)>(); w.create::<(D, Y, A)>(); w.destroy(1); w.create::<(D, C)>(); }
    }
}
/// two operations of any kind, registry dropped afterwards
#[no_mangle]
pub extern "C" fn h_c03_hist2() {
    let mut w = World::<8>::new();
    start(&mut w);
    w.check_ledger();
    op(&mut w, DROPS);
    w.check_ledger();
    op(&mut w, DROPS);
    w.check_ledger();
    for t in 0..w.n { w.check_one::<D>(t); }
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c03_hist1() {
    let mut w = World::<8>::new();
    start(&mut w);
    op(&mut w, ALL);
    w.check_ledger();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c03_hist3() {
    let mut w = World::<8>::new();
    start(&mut w);
    for _ in 0..3 { op(&mut w, DROPS); w.check_ledger(); }
    reach(0);
    w.finish();
}
/// failing operations hand their arguments back: duplicate groups, dead and forged handles, full entities
#[no_mangle]
pub extern "C" fn h_c03_fail() {
    let mut w = World::<8>::new();
    start(&mut w);
    let v = any_u32() as u64;
    match pick(3) {
        0 => match w.r.create_entity((D::mk(v), A(1), D::mk(v ^ 1))) {
            Ok(_) => check(false, "an invalid group is not created"),
            Err((x, a, y)) => { check(x.rd() == v && a.0 == 1 && y.rd() == v ^ 1 && x.serial != y.serial, "a failed creation hands the components back"); }
        },
        1 => match w.r.create_entity((Y, Y)) { Ok(_) => check(false, "an invalid group is not created"), Err((a, b)) => { core::mem::forget((a, b)); } },
        _ => { let t = w.forge(); w.add::<D>(t); w.add::<Y>(t); w.remove::<(D, Y, A)>(t); w.del::<D>(t); }
    }
    w.check_ledger();
    reach(0);
    w.finish();
}
/// storage growth moves values without dropping or duplicating them
#[no_mangle]
pub extern "C" fn h_c03_growth() {
    let mut w = World::<140>::new();
    for _ in 0..127 { w.create::<(D, Y, A)>(); }
    w.create::<(D, A)>();
    for _ in 0..2 { match pick(4) { 0 => { w.create::<(D, Y, A)>(); } 1 => w.add::<Y>(127), 2 => w.del::<Y>(5), _ => w.destroy(126) } }
    w.check_ledger();
    reach(0);
    w.finish();
}
/// values replaced or read through references and iteration are not dropped by the registry
#[no_mangle]
pub extern "C" fn h_c03_iterate() {
    let mut w = World::<8>::new();
    start(&mut w);
    crate::iter::matching::<D, 8>(&mut w, pick(4), &crate::iter::Filt::all());
    crate::iter::matching::<(Y, D), 8>(&mut w, pick(4), &crate::iter::Filt::all());
    crate::iter::exact::<(D, Y, A), 8>(&mut w, pick(4));
    w.write_group::<(D, A)>(0);
    w.check_ledger();
    reach(0);
    w.finish();
}
/// tuples of every arity
struct Fates;
impl crate::sets::Arity for Fates {
    fn run<G: Grp, R: Grp, const N: usize>(w: &mut World<N>) {
        crate::sets::arity_world::<G, R, N>(w);
        w.check_ledger();
        let t = pick(4) as usize;
        match pick(5) { 0 => w.remove::<R>(t), 1 => w.destroy(t), 2 => w.write_group::<R>(t), 3 => { w.add::<crate::wide::W14>(t); w.remove::<G>(t); } _ => { w.del::<crate::wide::W7>(t); w.add::<crate::wide::W7>(t); } }
        w.check_ledger();
    }
}
#[no_mangle]
pub extern "C" fn h_c03_arity() {
    let mut w = World::<8>::new();
    crate::sets::arities::<Fates, 8>(&mut w);
    reach(0);
    w.finish();
}
/// 300 storages
#[no_mangle]
pub extern "C" fn h_c03_many() {
    let mut w = World::<304>::new();
    let t = crate::sets::many_at(&mut w, pick(2) == 0);
    crate::sets::many_step(&mut w, t);
    w.check_ledger();
    reach(0);
    w.finish();
}
/// component sets whose hashes coincide: any operation, then any removal
#[no_mangle]
pub extern "C" fn h_c03_coll() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    crate::coll::step(&mut w, kind);
    let t = pick(w.n as u32) as usize;
    crate::coll::remove(&mut w, t, kind);
    w.check_ledger();
    reach(0);
    w.finish();
}
