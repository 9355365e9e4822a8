use crate::hist::*;
use crate::iter::mask_of;
use crate::sym::*;
use crate::world::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;
use std::marker::PhantomData;

// what the compiler derived for a type
trait Not { const SEND: bool = false; const SYNC: bool = false; }
struct Snd<T>(PhantomData<T>);
struct Syn<T>(PhantomData<T>);
impl<T> Not for Snd<T> {}
impl<T> Not for Syn<T> {}
impl<T: Send> Snd<T> { const SEND: bool = true; }
impl<T: Sync> Syn<T> { const SYNC: bool = true; }
/// what holds of every component type (decided where the type is unknown)
fn component<C: Component>() -> (bool, bool) { (Snd::<C>::SEND, Syn::<C>::SYNC) }

fn rows<G: Grp>(r: &Registry, kind: u32) -> usize {
    let f = |d: &ArchetypeDescriptor| mask_of(d) & MB == 0;
    let mut n = 0;
    match kind {
        0 => for s in r.iter_components_matching::<G>() { n += G::len0(&s); },
        1 => for (h, _) in r.iter_entity_components_matching::<G>() { n += h.len(); },
        2 => for s in r.iter_filtered_components_matching::<G, _>(f) { n += G::len0(&s); },
        3 => for (h, _) in r.iter_filtered_entity_components_matching::<G, _>(f) { n += h.len(); },
        4 => n = G::len0(&r.iter_components_exact::<G>()),
        _ => n = r.iter_entity_components_exact::<G>().0.len(),
    }
    n
}
fn query<C: Cp>(r: &Registry, e: Entity) -> u64 {
    let has = r.has_component::<C>(e);
    let v = r.get_component::<C>(e).map(|c| c.rd());
    check(v.is_some() == has, "queries agree on every thread");
    v.unwrap_or(0)
}
fn queries<G: ComponentGroup>(r: &Registry, e: Entity) { check(r.has_components::<G>(e) == r.get_components::<G>(e).is_some(), "queries agree on every thread"); }
pub const OBSERVATIONS: u32 = 8;
/// one of the operations on a shared registry
fn observe<const N: usize>(w: &World<N>, e: Entity, k: u32, i: u32) {
    let r = &w.r;
    match k {
        0 => { query::<A>(r, e); query::<B>(r, e); query::<C>(r, e); query::<Z>(r, e); query::<O>(r, e); query::<D>(r, e); query::<Y>(r, e); }
        1 => { queries::<(A, B)>(r, e); queries::<(B, A, D)>(r, e); queries::<(D, Y, A)>(r, e); queries::<(Z, C)>(r, e); queries::<(A, Z, D, O)>(r, e); queries::<A>(r, e); queries::<(A, A)>(r, e); }
        2 => check(r.iter_entities().count() == w.live(), "enumeration is the same on every thread"),
        3 => { rows::<A>(r, i); }
        4 => { rows::<(D, A)>(r, i); rows::<(A, D)>(r, i); }
        5 => { rows::<(B, A)>(r, i); rows::<(Z, A)>(r, i); }
        6 => { rows::<(A, Z, D, O)>(r, i); rows::<Y>(r, i); }
        _ => { // everything once more, after an earlier look at something else
            queries::<(B, A)>(r, e);
            rows::<A>(r, 1);
            query::<A>(r, e);
            for t in 0..w.n { query::<A>(r, w.e[t].h); query::<D>(r, w.e[t].h); queries::<(D, A)>(r, w.e[t].h); }
            rows::<(B, A)>(r, 1);
            for t in 0..w.n { query::<B>(r, w.e[t].h); }
        }
    }
}
fn shared<const N: usize>(w: &World<N>) {
    let k = pick(OBSERVATIONS);
    let i = if (3..7).contains(&k) { pick(6) } else { 0 };
    let e = if k < 2 || k == 7 { match pick(w.n as u32 + 2) as usize { t if t < w.n => w.e[t].h, t if t == w.n => Entity::INVALID, _ => unsafe { Entity::from_raw(any_u32()) } } } else { Entity::INVALID };
    concurrently(&w.r as *const Registry as *const u8, std::mem::size_of::<Registry>(), &|| observe(w, e, k, i));
}
/// any shared operation on two threads at once, in every world an operation leads to
#[no_mangle]
pub extern "C" fn h_c31_shared() {
    check(Snd::<Registry>::SEND, "a registry may be moved to another thread");
    check(Syn::<Registry>::SYNC, "a registry may be shared between threads");
    check(component::<A>().0, "components of a registry that is moved to another thread may be moved");
    check(component::<A>().1, "components of a registry that is shared between threads may be shared");
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    if pick(2) == 0 { op(&mut w, ALL); }
    shared(&w);
    w.check_all();
    reach(0);
    w.finish();
}
/// shared operations on wide and colliding component sets, and in the presence of many storages
#[no_mangle]
pub extern "C" fn h_c31_sets() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    let t = pick(w.n as u32) as usize;
    let i = pick(6);
    use crate::coll::*;
    use crate::wide::*;
    let g = if kind < 2 { pick(5) } else { 5 + pick(2) };
    concurrently(&w.r as *const Registry as *const u8, std::mem::size_of::<Registry>(), &|| {
        let e = w.e[t].h;
        match g {
            0 => { queries::<KA>(&w.r, e); queries::<KB>(&w.r, e); query::<K0>(&w.r, e); query::<K2>(&w.r, e); }
            1 => { queries::<KP>(&w.r, e); query::<K4>(&w.r, e); query::<K5>(&w.r, e); }
            2 => { rows::<KA>(&w.r, i); rows::<KB>(&w.r, i); }
            3 => { rows::<KP>(&w.r, i); rows::<K4>(&w.r, i); }
            5 => { queries::<KN>(&w.r, e); query::<K8>(&w.r, e); rows::<K8>(&w.r, i); rows::<KN>(&w.r, i); }
            6 => { queries::<KAW>(&w.r, e); query::<W13>(&w.r, e); rows::<KBW>(&w.r, i); rows::<KA>(&w.r, i); }
            _ => { rows::<K0>(&w.r, i); query::<K0>(&w.r, e); rows::<KA>(&w.r, i); query::<K1>(&w.r, e); }
        }
    });
    crate::coll::check(&w);
    reach(0);
    w.finish();
}
/// shared operations on storages of many rows
#[no_mangle]
pub extern "C" fn h_c31_rows() {
    let mut w = World::<140>::new();
    let n = [1, 64, 127, 130][pick(4) as usize];
    for _ in 0..n { w.create_with::<(A, B)>([7; NC]); }
    if pick(2) == 0 { w.destroy(0); w.create::<(D, A)>(); }
    shared(&w);
    reach(0);
    w.finish();
}
/// a registry used on one thread, then on another, at any point of any history
#[no_mangle]
pub extern "C" fn h_c31_moved() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    let w = on_another_thread(w, &mut |w: &mut World<9>| { op(w, ALL); w.check_state(); });
    w.check_all();
    w.check_enumeration();
    w.check_ledger();
    reach(0);
    w.finish();
}
/// made on one thread, dropped on another
#[no_mangle]
pub extern "C" fn h_c31_dropped() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, ALL);
    let mut o = Some(w);
    on_another_thread((), &mut |_: &mut ()| o.take().unwrap().finish());
    reach(0);
}
/// two registries used by two threads have nothing in common
#[no_mangle]
pub extern "C" fn h_c31_separate() {
    let (p, s, t) = (pick(3), pick(12), pick(3) as usize);
    let u = pick(12);
    separately(&|| {
        let mut r = Registry::default();
        let mut h = [Entity::INVALID; 3];
        match p {
            0 => for k in 0..3 { h[k] = r.create_entity((A(k as u32), B(1))).ok().unwrap(); },
            1 => { h[0] = r.create_entity((O(1), C([1; 3]))).ok().unwrap(); h[1] = r.create_entity(Z).ok().unwrap(); h[2] = r.create_entity((B(2), A(2))).ok().unwrap(); }
            _ => { h[0] = r.create_entity(A(1)).ok().unwrap(); h[1] = r.create_entity((B(2), A(2))).ok().unwrap(); let _ = r.add_component(h[0], C([1; 3])); r.destroy_entity(h[1]); h[2] = r.create_entity((Z, A(1), B(1))).ok().unwrap(); }
        }
        for o in [s, u] {
            let e = h[t];
            match o {
                0 => { r.destroy_entity(e); }
                1 => { let _ = r.add_component(e, C([2; 3])); }
                2 => { let _ = r.remove_component::<A>(e); }
                3 => { r.remove_entity::<(B, A)>(e); }
                4 => if let Some(a) = r.get_component_mut::<A>(e) { a.0 += 1 },
                5 => if let Some((a, b)) = r.get_components_mut::<(A, B)>(e) { a.0 += 1; b.0 += 1 },
                6 => for a in r.iter_components_matching_mut::<A>() { for a in a { a.0 += 1 } },
                7 => for (_, (a, b)) in r.iter_filtered_entity_components_matching_mut::<(A, B), _>(|d| d.len() == 2) { for a in a { a.0 += 1 } for b in b { b.0 += 1 } },
                8 => for b in r.iter_components_exact_mut::<(A, B)>().1 { b.0 += 1 },
                9 => { let _ = r.create_entity((C([1; 3]), Z, A(1))); let _ = r.create_entity((A(1), A(2))); }
                10 => { check(r.iter_entities().count() <= 4, "enumeration is the same on every thread"); for (h, _) in r.iter_entity_components_matching::<(B, A)>() { check(h.len() <= 4, "iteration is the same on every thread"); } }
                _ => { let _ = r.has_component::<A>(e); let _ = r.get_components::<(B, A)>(e); }
            }
        }
    });
    reach(0);
}
/// the slices of a mutable iteration never overlap: handed to different threads, they are disjoint
#[no_mangle]
pub extern "C" fn h_c31_chunks() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, ALL);
    let mut c = [(0usize, 0usize); 64];
    let mut n = 0;
    macro_rules! add { ($s:expr) => { if std::mem::size_of_val($s) > 0 { c[n] = ($s.as_ptr() as usize, std::mem::size_of_val($s)); n += 1; } } }
    match pick(6) {
        0 => for a in w.r.iter_components_matching_mut::<A>() { add!(a); },
        1 => for (h, (d, a)) in w.r.iter_entity_components_matching_mut::<(D, A)>() { add!(h); add!(d); add!(a); },
        2 => for (b, a) in w.r.iter_components_matching_mut::<(B, A)>() { add!(a); add!(b); },
        3 => for (h, (a, o, z, d)) in w.r.iter_filtered_entity_components_matching_mut::<(A, O, Z, D), _>(|_| true) { add!(h); add!(a); add!(o); add!(z); add!(d); },
        4 => { let (h, (a, b)) = w.r.iter_entity_components_exact_mut::<(A, B)>(); add!(h); add!(a); add!(b); }
        _ => for (h, d) in w.r.iter_filtered_entity_components_matching_mut::<D, _>(|_| true) { add!(h); add!(d); },
    }
    for i in 0..n { for j in 0..i { check(c[i].0 + c[i].1 <= c[j].0 || c[j].0 + c[j].1 <= c[i].0, "slices handed out together are disjoint"); } }
    reach(0);
    w.finish();
}
