use crate::hist::*;
use crate::sym::*;
use crate::world::*;

struct Try<'a, const N: usize> { w: &'a mut World<N>, o: u8, t: usize }
extern "C-unwind" fn try_op<const N: usize>(p: *mut u8) { let t = unsafe { &mut *(p as *mut Try<N>) }; apply(t.w, t.o, t.t); }
/// The k-th allocation during operation o fails: the operation completes, or panics having changed nothing, or the process aborts.
fn faulty<const N: usize>(w: &mut World<N>, o: u8, t: usize, k: u32) {
    let before = (w.e, w.n);
    fail_alloc(k);
    let mut x = Try { w, o, t };
    let r = catch(try_op::<N>, &mut x as *mut _ as *mut u8);
    fail_alloc(u32::MAX);
    if r != 0 { check(r == 2, "harness: only the crate panics"); (w.e, w.n) = before; reach(1); } else { reach(0); }
}
const OPS: &[u8] = &[MK_A, MK_BA, MK_ODZA, MK_CD, MK_Z, MK_DYA, DESTROY, ADD_A, ADD_B, ADD_C, ADD_Z, ADD_O, ADD_D, ADD_Y, DEL_A, DEL_B, DEL_D, DEL_Y, RM_AB, RM_DYA];
fn faulty_op<const N: usize>(w: &mut World<N>, ops: &[u8], kmax: u32) {
    let o = ops[pick(ops.len() as u32) as usize];
    if o >= DESTROY { assume(w.n > 0); }
    let t = if o >= DESTROY { pick(w.n as u32) as usize } else { 0 };
    faulty(w, o, t, pick(kmax));
}
/// any operation with any allocation failing, then any operation, then the registry is dropped
#[no_mangle]
pub extern "C" fn h_c32_op() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    faulty_op(&mut w, OPS, 8);
    w.check_all();
    w.check_enumeration();
    op(&mut w, MOVES);
    w.check_state();
    w.check_ledger();
    w.finish();
}
/// two failures in a row
#[no_mangle]
pub extern "C" fn h_c32_twice() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    faulty_op(&mut w, MOVES, 6);
    faulty_op(&mut w, OPS, 6);
    w.check_all();
    w.check_enumeration();
    w.check_ledger();
    w.finish();
}
/// storages at their capacity: growing fails at any of its allocations
#[no_mangle]
pub extern "C" fn h_c32_growth() {
    let mut w = World::<140>::new();
    let n = 127 + pick(2);
    for _ in 0..n { w.create::<(O, D, Z, A)>(); }
    for _ in 0..2 { w.create::<(D, Z, A)>(); }
    for _ in 0..2 { w.create::<(O, D, Z, B, A)>(); }
    let o = pick(4);
    let t = match o { 1 => n + pick(2), 2 => n + 2 + pick(2), 3 => pick(2) * (n - 1), _ => 0 } as usize;
    faulty(&mut w, [MK_ODZA, ADD_O, DEL_B, ADD_B][o as usize], t, pick(8));
    for k in [0, 1, 5, 126, 127, 128, 129, 130, 131] { if k < w.n { w.check_entity(k); } }
    w.check_enumeration();
    apply(&mut w, [MK_ODZA, ADD_O, DEL_B, ADD_B][o as usize], t);
    for k in [0, 1, 5, 126, 127, 128, 129, 130, 131] { if k < w.n { w.check_entity(k); } }
    w.check_ledger();
    w.finish();
}
/// a fresh registry
#[no_mangle]
pub extern "C" fn h_c32_new() {
    fail_alloc(pick(20));
    let mut w = World::<2>::new();
    fail_alloc(u32::MAX);
    w.create::<(A, B)>();
    w.check_all();
    reach(0);
    w.finish();
}
struct Raw<'a> { a: &'a mut Option<shard_ecs::archetype::Archetype>, d: &'a shard_ecs::archetype_descriptor::ArchetypeDescriptor, cap: u32 }
extern "C-unwind" fn make(p: *mut u8) { let x = unsafe { &mut *(p as *mut Raw) }; *x.a = Some(shard_ecs::archetype::Archetype::with_capacity(x.d, x.cap)); }
extern "C-unwind" fn push(p: *mut u8) { let x = unsafe { &mut *(p as *mut Raw) }; unsafe { x.a.as_mut().unwrap().push_uninitialized_entity(); } }
/// a storage used directly: creation and growth
#[no_mangle]
pub extern "C" fn h_c32_archetype() {
    use crate::desc::*;
    let d = build(&Set::of(&[Item { id: 9, size: 3, align: 1, h: 0 }, Item { id: 4, size: 16, align: 16, h: 1 }, Item { id: 7, size: 0, align: 1, h: 0 }]));
    let cap = [0, 1, 2, 3, 128][pick(5) as usize];
    let mut a = None;
    fail_alloc(pick(5));
    let r = catch(make, &mut Raw { a: &mut a, d: &d, cap } as *mut _ as *mut u8);
    fail_alloc(u32::MAX);
    if r != 0 { check(r == 2 && a.is_none(), "a failed allocation leads to a panic"); reach(1); return; }
    check(a.as_ref().unwrap().capacity() == cap, "a storage has the requested capacity");
    for _ in 0..cap { unsafe { a.as_mut().unwrap().push_uninitialized_entity(); } }
    fail_alloc(pick(5));
    let r = catch(push, &mut Raw { a: &mut a, d: &d, cap } as *mut _ as *mut u8);
    fail_alloc(u32::MAX);
    let b = a.as_ref().unwrap();
    if r != 0 { check(r == 2, "a failed allocation leads to a panic"); check(b.len() == cap && b.capacity() == cap, "a failed growth leaves the storage as it was"); reach(1); } else { check(b.len() == cap + 1 && b.capacity() > cap, "a storage grows"); reach(0); }
    // without rows nothing is left to be destroyed
    let b = a.as_mut().unwrap();
    while b.len() > 0 { unsafe { b.decrement_len_unchecked(); } }
    drop(a);
}
