use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::*;

struct Doom<'a> { r: &'a mut Registry, h: Entity, ok: bool }
extern "C-unwind" fn doom(p: *mut u8) { let x = unsafe { &mut *(p as *mut Doom) }; x.ok = x.r.destroy_entity(x.h); }
struct Leak { d: u32, y: u32 }
/// Destroys entity t while its k-th destructor panics: the entity is gone either way, its values are dropped at most once.
fn destroy<const N: usize>(w: &mut World<N>, t: usize, k: u32, l: &mut Leak) -> bool {
    let t = w.resolve(t);
    let e = w.e[t];
    let y = y_live();
    arm(k);
    let mut x = Doom { r: &mut w.r, h: e.h, ok: false };
    let r = catch(doom, &mut x as *mut _ as *mut u8);
    let ok = x.ok;
    arm(0);
    if !e.live { check(r == 0 && !ok, "dead handles are rejected"); return false; }
    check(r != 2, "the registry does not panic by itself");
    w.e[t].live = false;
    let own = (e.mask & MY != 0) as u32;
    if r == 0 {
        check(ok, "live handles are accepted");
        if e.mask & MD != 0 { check(ledger(e.serial) == 2, "destroying an entity drops its components"); }
        check(y_live() + own == y, "destroying an entity drops exactly its own components");
    } else {
        // values not dropped because of the panic are lost
        if e.mask & MD != 0 && ledger(e.serial) == 1 { l.d += 1; }
        check(y_live() + own >= y && y_live() <= y, "destroying an entity drops only its own components");
        l.y += y_live() + own - y;
        reach(1);
    }
    r == 1
}
/// stored values are alive, others are not, except those lost
fn ledgers<const N: usize>(w: &World<N>, l: &Leak) {
    let (mut d, mut y) = (0, 0);
    for k in 0..w.n {
        if w.e[k].live && w.e[k].mask & MD != 0 { d += 1; check(ledger(w.e[k].serial) == 1, "stored values are not dropped while the registry lives"); }
        if w.e[k].live && w.e[k].mask & MY != 0 { y += 1; }
    }
    let mut a = 0;
    for s in 0..ledger_next() { if ledger(s) == 1 { a += 1; } }
    check(a == d + l.d, "no value of another entity is lost");
    check(y_live() == y + l.y, "no zero-sized value of another entity is lost");
}
struct End { r: Option<Registry> }
extern "C-unwind" fn end(p: *mut u8) { let x = unsafe { &mut *(p as *mut End) }; let r = x.r.take(); drop(r); }
/// Drops the registry, possibly with a panicking destructor: nothing is dropped twice.
fn finish<const N: usize>(w: World<N>, l: &Leak, k: u32) {
    let World { r, e, n } = w;
    arm(k);
    let u = catch(end, &mut End { r: Some(r) } as *mut _ as *mut u8);
    arm(0);
    check(u != 2, "the registry does not panic by itself");
    if u == 0 {
        for k in 0..n { if e[k].live && e[k].mask & MD != 0 { check(ledger(e[k].serial) == 2, "dropping the registry drops the stored values"); } }
        check(y_live() == l.y, "dropping the registry drops the stored zero-sized values");
    } else { reach(2); }
}
fn start<const N: usize>(w: &mut World<N>) {
    match pick(5) {
        0 => { w.create::<(D, A)>(); w.create::<(A, D)>(); w.create::<(D, A)>(); w.create::<(D, Y, A)>(); }
        1 => { w.create::<(D, Y, A)>(); w.create::<(D, Y, A)>(); w.create::<(D, Y, A)>(); w.create::<(Y, D)>(); }
        2 => { w.create::<(O, D, Z, A)>(); w.create::<(A, Z, D, O)>(); w.create::<(A, Y)>(); w.add::<D>(2); }
        3 => { w.create::<Y>(); w.create::<D>(); w.create::<Y>(); w.create::<D>(); w.destroy(0); }
        _ => { w.create::<(D, C)>(); w.create::<A>(); w.create::<(D, C)>(); w.add::<D>(1); w.create::<(A, D)>(); w.destroy(0); }
    }
}
const NEXT_OPS: &[u8] = &[MK_BA, MK_CD, MK_ODZA, MK_DYA, DESTROY, ADD_D, ADD_Y, ADD_C, DEL_D, DEL_Y, DEL_A, RM_BAD, RM_DC, RM_DYA, RM_AZDO, WR_D, WR_DA];
/// any entity destroyed with any of its destructors panicking, then any operation on any handle, then the registry dropped with or without a panic
#[no_mangle]
pub extern "C" fn h_c19_destroy() {
    let mut w = World::<9>::new();
    let mut l = Leak { d: 0, y: 0 };
    start(&mut w);
    let t = pick(w.n as u32) as usize;
    destroy(&mut w, t, 1 + pick(2), &mut l);
    w.check_state();
    ledgers(&w, &l);
    op(&mut w, NEXT_OPS);
    w.check_all();
    w.check_enumeration();
    ledgers(&w, &l);
    reach(0);
    finish(w, &l, 0);
}
/// an operation, a panic, another panic
#[no_mangle]
pub extern "C" fn h_c19_twice() {
    let mut w = World::<9>::new();
    let mut l = Leak { d: 0, y: 0 };
    start(&mut w);
    op(&mut w, &[MK_DYA, ADD_D, DEL_A, DESTROY, ADD_Y]);
    for _ in 0..2 { let t = pick(w.n as u32) as usize; destroy(&mut w, t, 1 + pick(2), &mut l); w.check_all(); ledgers(&w, &l); }
    w.check_enumeration();
    w.check_rows();
    // slots and rows are reused
    w.create::<(D, Y, A)>();
    w.create::<(D, A)>();
    w.check_all();
    w.check_enumeration();
    ledgers(&w, &l);
    reach(0);
    finish(w, &l, 0);
}
/// the panicking entity's handle, and any other handle value, in every operation
#[no_mangle]
pub extern "C" fn h_c19_handle() {
    let mut w = World::<9>::new();
    let mut l = Leak { d: 0, y: 0 };
    start(&mut w);
    let t = pick(w.n as u32) as usize;
    assume(destroy(&mut w, t, 1, &mut l));
    if pick(2) == 1 { w.create::<(D, A)>(); }
    let f = w.forge();
    let o = [DESTROY, ADD_D, ADD_C, DEL_D, DEL_A, RM_DYA, RM_BAD, WR_D, WR_DA][pick(9) as usize];
    apply(&mut w, o, if pick(2) == 0 { t } else { f });
    w.check_all();
    w.check_groups();
    ledgers(&w, &l);
    reach(0);
    finish(w, &l, 0);
}
/// the registry dropped while a destructor panics
#[no_mangle]
pub extern "C" fn h_c19_drop() {
    let mut w = World::<9>::new();
    let mut l = Leak { d: 0, y: 0 };
    start(&mut w);
    op(&mut w, NEXT_OPS);
    if pick(2) == 1 { let t = pick(w.n as u32) as usize; destroy(&mut w, t, 1, &mut l); }
    reach(0);
    finish(w, &l, 1 + pick(6));
}
struct Out<'a> { a: &'a mut shard_ecs::archetype::Archetype, i: u32 }
extern "C-unwind" fn out(p: *mut u8) { let x = unsafe { &mut *(p as *mut Out) }; unsafe { x.a.swap_drop_unchecked(x.i); } }
/// a storage used directly
#[no_mangle]
pub extern "C" fn h_c19_archetype() {
    use shard_ecs::archetype::Archetype;
    let mut a = Archetype::with_capacity(<(D, Y, A)>::DESCRIPTOR.archetype(), 4);
    let n = 1 + pick(4);
    let mut rows = [(0u32, 0u64, 0u32); 4];
    for k in 0..n {
        let (h, mut v) = (any_u32(), [0; NC]);
        <(D, Y, A)>::fresh_all(&mut v);
        let g = <(D, Y, A)>::make(&v);
        rows[k as usize] = (h, v[5], g.serial());
        unsafe { a.push_entity_unchecked(Entity::from_raw(h), g); }
    }
    let mut n = n as usize;
    for _ in 0..2 {
        if n == 0 { break; }
        let i = pick(n as u32) as usize;
        arm(1 + pick(3));
        let r = catch(out, &mut Out { a: &mut a, i: i as u32 } as *mut _ as *mut u8);
        arm(0);
        check(r != 2, "the storage does not panic by itself");
        if r == 1 { reach(1); }
        n -= 1;
        rows[i] = rows[n];
        check(a.len() as usize == n && a.entities().len() == n, "the row is gone");
        for k in 0..n { check(a.entities()[k].raw() == rows[k].0 && unsafe { a.get_component_unchecked::<D>(k as u32) }.rd() == rows[k].1 && ledger(rows[k].2) == 1, "all other rows are untouched"); }
    }
    drop(a);
    for k in 0..n { check(ledger(rows[k].2) == 2, "dropping the storage drops its rows"); }
    reach(0);
}
