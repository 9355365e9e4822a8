use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::archetype::Archetype;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_descriptor::*;
use shard_ecs::*;

#[no_mangle]
pub extern "C" fn h_c12_layouts() { crate::lay::layouts() }
#[no_mangle]
pub extern "C" fn h_c12_pairs() { crate::lay::pairs() }
#[no_mangle]
pub extern "C" fn h_c12_growth() { crate::lay::growth() }
/// any operation in any initial world, any iteration, then dropped
#[no_mangle]
pub extern "C" fn h_c12_hist1() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, ALL);
    match pick(7) {
        0 => w.check_state(),
        1 => crate::iter::matching::<(D, A), 9>(&mut w, pick(8), &crate::iter::Filt::all()),
        2 => crate::iter::matching::<(A, Z, D, O), 9>(&mut w, pick(8), &crate::iter::Filt::all()),
        3 => crate::iter::exact::<(A, B), 9>(&mut w, pick(4)),
        4 => crate::iter::exact::<(D, Y, A), 9>(&mut w, pick(4)),
        5 => { let t = w.forge(); let o = MOVES[pick(MOVES.len() as u32) as usize]; apply(&mut w, o, t); }
        _ => {}
    }
    reach(0);
    w.finish();
}
/// two operations in any initial world, dropped at any point
#[no_mangle]
pub extern "C" fn h_c12_hist2() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, ALL);
    op(&mut w, ALL);
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c12_hist3() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    for _ in 0..3 { op(&mut w, MOVES); }
    w.check_all();
    reach(0);
    w.finish();
}
/// everything destroyed, registry used again
#[no_mangle]
pub extern "C" fn h_c12_empty() {
    let mut w = World::<14>::new();
    prefix(&mut w, pick(PREFIXES));
    for t in 0..w.n { w.destroy(t); }
    w.check_rows();
    crate::iter::exact::<(A, B), 14>(&mut w, pick(4));
    w.check_enumeration();
    op(&mut w, &[MK_A, MK_BA, MK_ODZA, MK_CD, MK_Z, MK_DYA, DESTROY]);
    op(&mut w, &[ADD_A, ADD_D, DEL_A, DEL_D, DESTROY, RM_BAD]);
    w.check_all();
    reach(0);
    w.finish();
}
/// handles of one registry used in another
#[no_mangle]
pub extern "C" fn h_c12_foreign() {
    let mut a = Registry::default();
    let mut last = Entity::INVALID;
    let k = [1, 3, 200][pick(3) as usize];
    for i in 0..k { if let Ok(h) = a.create_entity((A(i), B(i as u64))) { last = h; } }
    if pick(2) == 1 { a.destroy_entity(last); if let Ok(h) = a.create_entity(A(7)) { last = h; } }
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    let mut own = false;
    for t in 0..w.n { own |= w.e[t].live && w.e[t].h == last; }
    if !own {
        check(!w.r.has_component::<A>(last) && w.r.get_component::<A>(last).is_none() && w.r.get_components::<(A, B)>(last).is_none() && w.r.get_component_mut::<B>(last).is_none(), "foreign handles are not accepted");
        check(w.r.add_component(last, C::mk(1)).is_err() && w.r.remove_component::<A>(last).is_err() && w.r.remove_entity::<(A, B)>(last).is_none() && !w.r.destroy_entity(last), "foreign handles are not accepted");
        reach(1);
    }
    w.check_all();
    reach(0);
    w.finish();
}
unsafe fn nop(_: *mut u8, _: usize) {}
fn desc(id: u16, size: u16, align: u16) -> ComponentDescriptor { ComponentDescriptor::new(ComponentTypeId::from_u16(id), size, align, nop) }
/// storages for run-time descriptors of any layout and capacity
#[no_mangle]
pub extern "C" fn h_c12_raw() {
    let l = [(0, 1), (1, 1), (3, 1), (64, 64), (0, 4096), (32768, 32768), (65535, 1), (24, 8)];
    let (x, y) = (l[pick(8) as usize], l[pick(8) as usize]);
    let d = ComponentGroupDescriptor::new(&[desc(9, x.0, x.1), desc(4, y.0, y.1)]).archetype().clone();
    let cap = [0, 1, 2, 127, 128, 0xFF_FFFF, 0x100_0000, u32::MAX][pick(8) as usize];
    // the engine does not model allocations beyond a few GB
    assume(cap > 0xFF_FFFF || cap as u64 * (x.0 as u64).max(y.0 as u64) < 1 << 30);
    let mut a = Archetype::with_capacity(&d, cap);
    check(a.capacity() == if cap > 0xFF_FFFF { 0 } else { cap }, "a storage has the requested capacity");
    check(a.entities().is_empty() && a.len() == 0 && a.is_full() == (a.capacity() == 0), "a new storage is empty");
    let n = if cap < 200 { cap + 1 } else { 2 };
    for k in 0..n { unsafe { let i = a.push_uninitialized_entity(); check(i == k, "pushing appends"); } check(a.len() == k + 1 && a.capacity() >= a.len(), "a storage has room for its rows"); }
    unsafe { a.decrement_len_unchecked(); }
    drop(a);
    let e = Archetype::new(&d);
    check(e.capacity() > 0 && e.len() == 0, "the default storage has room");
    reach(0);
}
/// the storage table accessed with any source number
#[no_mangle]
pub extern "C" fn h_c12_source() {
    let mut r = ArchetypeRegistry::default();
    let d: ArchetypeDescriptor = desc(9, 4, 4).into();
    let n = pick(4);
    for k in 0..n { let e = ComponentGroupDescriptor::new(&[desc(9, 4, 4), desc(20 + k as u16, 8, 8)]).archetype().clone(); check(r.find_or_create_archetype(&e).is_some(), "a storage is created"); }
    let s = any_u16();
    let id = [9, 20, 21, 50][pick(4) as usize];
    match pick(3) {
        0 => match r.find_or_create_archetype_adding_component(s, &desc(id, 4, 4)) {
            Some((x, i, y)) => { check((s as u32) < n, "only existing storages are sources"); check(x.descriptor().len() == 2 && y.descriptor().len() == 3 && i as u32 == n, "the destination is a new storage"); reach(1); }
            None => check(s as u32 >= n || id == 9 || id as u32 == 20 + s as u32, "adding an absent type succeeds"),
        },
        1 => match r.find_or_create_archetype_removing_component(s, &desc(id, 4, 4)) {
            Some((x, _, y)) => { check((s as u32) < n, "only existing storages are sources"); check(x.descriptor().len() == 2 && y.descriptor().len() == 1, "the destination has one type less"); reach(1); }
            None => check(s as u32 >= n || !(id == 9 || id as u32 == 20 + s as u32), "removing a present type succeeds"),
        },
        _ => { check(r.find_archetype(&d).is_none() && r.find_archetype_mut(&d).is_none(), "no storage exists for a set never used"); }
    }
    reach(0);
}
/// tuples of every arity, every access
struct Accesses;
impl crate::sets::Arity for Accesses {
    fn run<G: Grp, R: Grp, const N: usize>(w: &mut World<N>) {
        crate::sets::arity_world::<G, R, N>(w);
        let t = pick(3) as usize;
        match pick(7) {
            0 => w.remove::<R>(t),
            1 => w.destroy(t),
            2 => w.write_group::<R>(t),
            3 => crate::iter::matching::<R, N>(w, pick(8), &crate::iter::Filt::all()),
            4 => crate::iter::exact::<R, N>(w, pick(4)),
            5 => { w.add::<crate::wide::W14>(t); w.del::<crate::wide::W7>(t); }
            _ => { w.check_group::<R>(t); w.create::<R>(); w.remove::<G>(3); }
        }
        w.check_group::<G>(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c12_arity() {
    let mut w = World::<8>::new();
    crate::sets::arities::<Accesses, 8>(&mut w);
    reach(0);
    w.finish();
}
/// 300 storages
#[no_mangle]
pub extern "C" fn h_c12_many() {
    let mut w = World::<304>::new();
    let t = crate::sets::many_at(&mut w, true);
    crate::sets::many_step(&mut w, t);
    match pick(3) { 0 => crate::iter::matching::<crate::sets::Q3, 304>(&mut w, 4 + pick(4), &crate::iter::Filt::odd(0x7f << NB)), 1 => crate::iter::exact::<crate::sets::Q3, 304>(&mut w, pick(4)), _ => { w.add::<crate::wide::W14>(t); w.destroy(t); } }
    reach(0);
    w.finish();
}
/// more rows than 16 bits count
#[no_mangle]
pub extern "C" fn h_c12_big() {
    let mut w = crate::big::Big::new();
    w.fill([257, 65537][pick(2) as usize]);
    let k = w.spot();
    w.step(k);
    w.check_iteration([1, 3, 7, 11][pick(4) as usize]);
    reach(0);
}
/// component sets whose hashes coincide: any operation, access through any group, any removal
#[no_mangle]
pub extern "C" fn h_c12_coll() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    crate::coll::step(&mut w, kind);
    crate::coll::check(&w);
    let t = pick(w.n as u32) as usize;
    crate::coll::remove(&mut w, t, kind);
    w.check_ledger();
    reach(0);
    w.finish();
}
/// storages of several GB: the first and the last rows
fn huge<T: crate::lay::Lay, U: crate::lay::Lay>() where (T, U): ComponentGroup {
    let cap = [0xFF_FFFF, 0x80_0000, 0x10_0001][pick(3) as usize];
    let mut a = Archetype::with_capacity(<(T, U) as ComponentGroup>::DESCRIPTOR.archetype(), cap);
    check(a.capacity() == cap, "a storage has the requested capacity");
    let v = [any_u16(), any_u16(), any_u16()];
    let at = [0, cap / 2, cap - 1];
    unsafe {
        for k in 0..3 { a.write_single_component_unchecked(at[k], T::mk(v[k])); a.write_single_component_unchecked(at[k], U::mk(v[2 - k])); }
        for k in 0..3 {
            check(a.get_component_unchecked::<T>(at[k]).rd() == crate::lay::val::<T>(v[k]), "values are those last written");
            check(a.get_component_unchecked_mut::<U>(at[k]).rd() == crate::lay::val::<U>(v[2 - k]), "values are those last written");
            let _ = a.get_fuzzy_components_unchecked::<(T, U)>(at[k]);
        }
        drop(a.read_component_unchecked::<T>(at[2]));
    }
    drop(a);
    reach(0);
}
#[no_mangle]
pub extern "C" fn h_c12_huge() {
    use crate::lay::*;
    match pick(4) { 0 => huge::<L255, L8A>(), 1 => huge::<L256, L1>(), 2 => huge::<L257, LZ64>(), _ => huge::<L300, L256>() }
}
