use crate::hist::*;
use crate::iter::*;
use crate::sym::*;
use crate::wide::*;
use crate::world::*;

fn any_group<const N: usize>(w: &mut World<N>, variant: u32) {
    match pick(12) {
        0 => exact::<A, N>(w, variant),
        1 => exact::<(A, B), N>(w, variant),
        2 => exact::<(B, A), N>(w, variant),
        3 => exact::<(B, A, D), N>(w, variant),
        4 => exact::<(D, B, A), N>(w, variant),
        5 => exact::<(D, A), N>(w, variant),
        6 => exact::<(A, D), N>(w, variant),
        7 => exact::<(A, Z, D, O), N>(w, variant),
        8 => exact::<Z, N>(w, variant | 1),
        9 => exact::<(C, D), N>(w, variant),
        10 => exact::<(D, Y, A), N>(w, variant),
        _ => exact::<(B, Z, A, D, O, C), N>(w, variant),
    }
}
/// any world, any operation, any exact iteration
#[no_mangle]
pub extern "C" fn h_c06_hist1() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, &[MK_BA, MK_ODZA, DESTROY, ADD_B, ADD_C, ADD_D, ADD_Y, DEL_A, DEL_B, DEL_D, DEL_Y, DEL_Z]);
    any_group(&mut w, pick(4));
    w.check_all();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c06_hist2() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    op(&mut w, &[DESTROY, ADD_B, ADD_D, DEL_A, DEL_B, DEL_D]);
    any_group(&mut w, 1 + 2 * pick(2));
    w.check_all();
    reach(0);
    w.finish();
}
/// the same set reached by creation and by all orders of adding and removing
#[no_mangle]
pub extern "C" fn h_c06_paths() {
    let mut w = World::<8>::new();
    w.create::<(B, A, D)>();
    // build {A, B, D} from one of its components, through any order, with detours
    let first = pick(3);
    let t = match first { 0 => w.create::<A>(), 1 => w.create::<B>(), _ => w.create::<D>() };
    if pick(2) == 1 { w.add::<Z>(t); }
    let order = pick(6);
    for k in 0..3 {
        match ([0, 0x012, 0x021, 0x102, 0x120, 0x201, 0x210][order as usize + 1] >> (4 * k)) & 3 { 0 => w.add::<A>(t), 1 => w.add::<B>(t), _ => w.add::<D>(t) }
    }
    w.del::<Z>(t);
    let u = w.create::<(B, Z, A, D, O, C)>();
    if pick(2) == 0 { w.del::<O>(u); w.del::<C>(u); w.del::<Z>(u); } else { w.del::<Z>(u); w.del::<C>(u); w.del::<O>(u); }
    check(w.e[0].mask == w.e[t].mask && w.e[t].mask == w.e[u].mask, "harness: all three sets are equal");
    match pick(3) { 0 => exact::<(A, B, D), 8>(&mut w, pick(4)), 1 => exact::<(D, B, A), 8>(&mut w, pick(4)), _ => exact::<(B, A, D), 8>(&mut w, pick(4)) }
    exact::<(A, B), 8>(&mut w, 1);
    exact::<A, 8>(&mut w, 1);
    w.check_all();
    reach(0);
    w.finish();
}
/// 14 components
#[no_mangle]
pub extern "C" fn h_c06_wide() {
    let mut w = Wide::new();
    w.all();
    let b = w.thirteen();
    let c = w.mix();
    let i = pick(14) as usize;
    match pick(3) { 0 => w.add(b, 13), 1 => { w.del(c, i); w.check_exact(); w.add(c, i); } _ => { w.del(c, i); w.destroy(b); } }
    w.check_exact();
    reach(0);
}
#[no_mangle]
pub extern "C" fn h_c06_growth() {
    let mut w = World::<140>::new();
    for _ in 0..127 { w.create::<(B, A)>(); }
    match pick(3) { 0 => { w.create::<(A, B)>(); w.create::<(A, B)>(); } 1 => { w.destroy(0); } _ => { w.add::<D>(3); w.create::<A>(); w.add::<B>(128 - 1); } }
    exact::<(A, B), 140>(&mut w, pick(4));
    w.check_all();
    reach(0);
    w.finish();
}
/// 300 storages
#[no_mangle]
pub extern "C" fn h_c06_many() {
    let mut w = World::<304>::new();
    let q3 = pick(2) == 0;
    let t = crate::sets::many_at(&mut w, q3);
    crate::sets::many_step(&mut w, t);
    if q3 { exact::<crate::sets::Q3, 304>(&mut w, pick(4)) } else { exact::<crate::sets::Q4, 304>(&mut w, pick(4)) }
    exact::<W5, 304>(&mut w, 1);
    crate::sets::check_near(&w, t);
    reach(0);
    w.finish();
}
/// tuples of every arity
struct Rows;
impl crate::sets::Arity for Rows {
    fn run<G: Grp, R: Grp, const N: usize>(w: &mut World<N>) {
        crate::sets::arity_world::<G, R, N>(w);
        match pick(3) { 0 => {} 1 => w.destroy(0), _ => w.add::<W14>(2) }
        exact::<R, N>(w, pick(4));
        exact::<G, N>(w, 1);
    }
}
#[no_mangle]
pub extern "C" fn h_c06_arity() {
    let mut w = World::<8>::new();
    crate::sets::arities::<Rows, 8>(&mut w);
    reach(0);
    w.finish();
}
/// storages of 257 and 65537 rows
#[no_mangle]
pub extern "C" fn h_c06_big() {
    let mut w = crate::big::Big::new();
    w.fill([257, 65537][pick(2) as usize]);
    let k = w.spot();
    w.step(k);
    w.check_iteration(8 + pick(4));
    reach(0);
}
/// component sets whose hashes coincide: any exact iteration
#[no_mangle]
pub extern "C" fn h_c06_coll() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    let v = if pick(2) == 0 { crate::coll::step(&mut w, kind); [1, 3][pick(2) as usize] } else { pick(4) };
    crate::coll::all_exact(&mut w, kind, v);
    crate::coll::check(&w);
    w.check_ledger();
    reach(0);
    w.finish();
}
