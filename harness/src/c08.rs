use crate::hist::*;
use crate::sym::*;
use crate::wide::*;
use crate::world::*;

macro_rules! invalid { ($w:expr, $t:expr, $g:ty) => {{ let t = $w.resolve($t); match $w.r.remove_entity::<$g>($w.e[t].h) { Some(g) => { core::mem::forget(g); check(false, "removal by a group naming a type twice fails"); } None => {} } }}; }

fn remove_any<const N: usize>(w: &mut World<N>, t: usize) {
    match pick(20) {
        0 => w.remove::<A>(t),
        1 => w.remove::<(A, B)>(t),
        2 => w.remove::<(B, A)>(t),
        3 => w.remove::<(B, A, D)>(t),
        4 => w.remove::<(D, B, A)>(t),
        5 => w.remove::<(D, A)>(t),
        6 => w.remove::<(A, Z, D, O)>(t),
        7 => w.remove::<Z>(t),
        8 => w.remove::<(D, C)>(t),
        9 => w.remove::<(D, Y, A)>(t),
        10 => w.remove::<(B, Z, A, D, O, C)>(t),
        11 => w.remove::<(C, A)>(t),
        12 => w.remove::<(Z, A)>(t),
        13 => w.remove::<(A, B, C)>(t),
        14 => w.remove::<(B, C, D)>(t),
        15 => w.remove::<(D, C, B, A)>(t),
        16 => invalid!(w, t, (A, A)),
        17 => invalid!(w, t, (B, A, B)),
        18 => invalid!(w, t, (D, Y, A, D)),
        _ => w.remove::<D>(t),
    }
}
/// any world, any operation, removal by any group of any entity
#[no_mangle]
pub extern "C" fn h_c08_hist1() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, &[MK_BA, DESTROY, ADD_B, ADD_D, DEL_B, DEL_D]);
    let t = pick(w.n as u32) as usize;
    remove_any(&mut w, t);
    w.check_all();
    w.check_enumeration();
    w.check_ledger();
    reach(0);
    w.finish();
}
/// removal in a fixed world, everything observable compared; any handle value
#[no_mangle]
pub extern "C" fn h_c08_state() {
    let mut w = World::<9>::new();
    prefix(&mut w, 1 + pick(PREFIXES - 1));
    w.forge();
    let t = pick(w.n as u32) as usize;
    remove_any(&mut w, t);
    w.check_state();
    w.check_ledger();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c08_twice() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    w.create::<(A, B)>();
    let t = pick(w.n as u32) as usize;
    remove_any(&mut w, t);
    w.create::<(D, A)>();
    let t = pick(w.n as u32) as usize;
    remove_any(&mut w, t);
    w.check_all();
    w.check_enumeration();
    w.check_ledger();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c08_wide() {
    let mut w = Wide::new();
    let a = w.all();
    let b = w.mix();
    let c = w.thirteen();
    match pick(4) { 0 => {} 1 => w.add(c, 13), 2 => w.del(a, pick(14) as usize), _ => w.destroy(b) }
    w.remove_rev(pick(3) as usize);
    w.check_all();
    w.check_exact();
    reach(0);
}
/// tuples of every arity: any of the entities removed, by an exactly matching, smaller or larger group
struct Removal;
impl crate::sets::Arity for Removal {
    fn run<G: Grp, R: Grp, const N: usize>(w: &mut World<N>) {
        crate::sets::arity_world::<G, R, N>(w);
        match pick(4) { 0 => w.add::<W14>(0), 1 => w.add::<W7>(1), 2 => w.del::<W7>(2), _ => {} }
        let t = pick(4) as usize;
        w.remove::<R>(t);
        for t in 0..w.n { w.check_wide(t); w.check_group::<G>(t); }
        w.remove::<G>(pick(4) as usize);
        w.check_ledger();
        w.check_enumeration();
    }
}
#[no_mangle]
pub extern "C" fn h_c08_arity() {
    let mut w = World::<8>::new();
    crate::sets::arities::<Removal, 8>(&mut w);
    reach(0);
    w.finish();
}
/// 300 storages
#[no_mangle]
pub extern "C" fn h_c08_many() {
    let mut w = World::<304>::new();
    let q3 = pick(2) == 0;
    let t = crate::sets::many_at(&mut w, q3);
    crate::sets::many_step(&mut w, t);
    let u = [t, 299, 300][pick(3) as usize].min(w.n - 1);
    if pick(2) == 0 { w.remove::<crate::sets::Q3>(u) } else { w.remove::<crate::sets::Q4>(u) }
    crate::sets::check_near(&w, t);
    w.check_ledger();
    reach(0);
    w.finish();
}
/// storages of 257 and 65537 rows
#[no_mangle]
pub extern "C" fn h_c08_big() {
    let mut w = crate::big::Big::new();
    w.fill([257, 65537][pick(2) as usize]);
    let (k, j) = (w.spot(), w.spot());
    w.remove(k);
    w.remove(j);
    w.check_values();
    reach(0);
}
/// component sets whose hashes coincide: any two removals
#[no_mangle]
pub extern "C" fn h_c08_coll() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    for _ in 0..2 { let t = pick(w.n as u32) as usize; crate::coll::remove(&mut w, t, kind); }
    crate::coll::check(&w);
    w.check_ledger();
    reach(0);
    w.finish();
}
