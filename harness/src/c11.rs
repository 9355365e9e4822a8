use crate::desc::*;
use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::*;

fn it(id: u16) -> Item { Item { id, size: id % 5, align: 1, h: id as usize } }
fn any_item() -> Item { let i = Item::any(0); Item { size: 4, align: 4, ..i } }
fn same(a: &Set, b: &Set) -> bool { let mut r = a.n == b.n; for k in 0..a.n { r &= b.has(a.x[k].id); } r }
/// A register of archetypes and its model: the set stored under each index.
struct Reg<const N: usize> { r: ArchetypeRegistry, s: [Set; N], n: usize }
const ONE: &str = "a component set is stored under exactly one index";
const OWN: &str = "an archetype stores exactly the component set it was requested for";
impl<const N: usize> Reg<N> {
    fn new() -> Self { Reg { r: ArchetypeRegistry::default(), s: [Set::empty(); N], n: 0 } }
    fn known(&self, s: &Set) -> Option<usize> { for k in 0..self.n { if same(&self.s[k], s) { return Some(k); } } None }
    /// the register answered that set s lives at index ix
    fn answer(&mut self, s: &Set, ix: usize) {
        match self.known(s) {
            Some(k) => check(ix == k, ONE),
            None => { check(ix == self.n, "a new component set gets a storage of its own"); self.s[self.n] = *s; self.n += 1; }
        }
        s.check(self.r[ix as u16].descriptor());
    }
    fn request(&mut self, s: &Set, d: &ArchetypeDescriptor) {
        let known = self.known(s).is_some();
        check(self.r.find_archetype(d).is_some() == known, "a storage is found exactly if it was created before");
        check(self.r.find_archetype_mut(d).is_some() == known, "a storage is found exactly if it was created before");
        match self.r.find_or_create_archetype(d) {
            Some((ix, a)) => { s.check(a.descriptor()); self.answer(s, ix as usize); }
            None => check(false, "a storage for a valid set can be created"),
        }
        match self.r.find_archetype(d) { Some(a) => s.check(a.descriptor()), None => check(false, "a created storage is found") }
    }
    fn get(&mut self, v: &[u16]) -> usize { let mut s = Set::empty(); for k in v { s = s.with(it(*k)); } let d = build(&s); self.request(&s, &d); self.known(&s).unwrap_or(0) }
    fn plus(&mut self, src: usize, i: Item) {
        let old = self.s[src];
        let can = !old.has(i.id) && old.n < 14;
        let r = self.r.find_or_create_archetype_adding_component(src as u16, &i.desc()).map(|(a, ix, b)| { old.check(a.descriptor()); let s = old.with(i); s.check(b.descriptor()); ix });
        check(r.is_some() == can, "a storage is derived by adding exactly if the type is absent and fits");
        if let Some(ix) = r { self.answer(&old.with(i), ix as usize); }
    }
    fn minus(&mut self, src: usize, i: Item) {
        let old = self.s[src];
        let can = old.has(i.id) && old.n > 1;
        let r = self.r.find_or_create_archetype_removing_component(src as u16, &i.desc()).map(|(a, ix, b)| { old.check(a.descriptor()); old.without(i.id).check(b.descriptor()); ix });
        check(r.is_some() == can, "a storage is derived by removing exactly if the type is present and not the last");
        if let Some(ix) = r { self.answer(&old.without(i.id), ix as usize); }
    }
    /// everything created is still found where it was
    fn verify(&mut self) {
        for k in 0..self.n {
            let s = self.s[k];
            s.check(self.r[k as u16].descriptor());
            let d = build(&s);
            match self.r.find_or_create_archetype(&d) { Some((ix, _)) => check(ix as usize == k, ONE), None => check(false, "a created storage is found") }
        }
    }
}
fn any_set(n: usize) -> Set { let mut s = Set::empty(); for _ in 0..n { s = s.with(any_item()); } assume(s.distinct()); s }
/// k-th set of the sizes given, in any order
fn sets(v: &[usize]) {
    let mut g = Reg::<6>::new();
    for n in v { let s = any_set(*n); let d = build(&s); g.request(&s, &d); }
    g.verify();
    log(g.n as u64);
    reach(0);
}
/// three sets of two types each, any ids
#[no_mangle]
pub extern "C" fn h_c11_pairs() { sets(&[2, 2, 2]); }
/// singles and pairs
#[no_mangle]
pub extern "C" fn h_c11_mixed() { sets([&[1, 2, 1, 2][..], &[2, 1, 2], &[1, 1, 1, 1], &[3, 2, 1]][pick(4) as usize]); }
#[no_mangle]
pub extern "C" fn h_c11_triples() { sets([&[3, 3][..], &[2, 3, 2]][pick(2) as usize]); }
/// adding to and removing from any two sets any types
fn derived(v: &[usize], steps: usize) {
    let mut g = Reg::<6>::new();
    for n in v { let s = any_set(*n); let d = build(&s); g.request(&s, &d); }
    for _ in 0..steps {
        let src = pick(g.n as u32) as usize;
        let i = any_item();
        if pick(2) == 0 { g.plus(src, i); } else { g.minus(src, i); }
    }
    g.verify();
    check(g.r.find_or_create_archetype_adding_component(g.n as u16, &it(1).desc()).is_none(), "an index without archetype is rejected");
    check(g.r.find_or_create_archetype_removing_component(g.n as u16, &it(1).desc()).is_none(), "an index without archetype is rejected");
    reach(0);
}
#[no_mangle]
pub extern "C" fn h_c11_derived() { derived([&[1, 2][..], &[2], &[3], &[2, 2]][pick(4) as usize], 1); }
#[no_mangle]
pub extern "C" fn h_c11_derived2() { derived([&[1][..], &[2]][pick(2) as usize], 2); }

/// sets whose real hashes collide
const PAIRS: [[[u16; 2]; 2]; 3] = [[[1291, 1295], [1234, 60486]], [[1291, 1302], [1234, 61053]], [[1291, 1305], [1234, 64628]]];
/// colliding sets requested, derived by adding and by removing, in any order
#[no_mangle]
pub extern "C" fn h_c11_collide() {
    let [a, b] = PAIRS[pick(3) as usize];
    let mut g = Reg::<8>::new();
    if pick(2) == 1 { g.get(&[5, 9]); }
    for _ in 0..4 {
        let s = if pick(2) == 0 { a } else { b };
        match pick(3) {
            0 => { g.get(&[s[0], s[1]]); }
            1 => { let k = g.get(&[s[0]]); g.plus(k, it(s[1])); }
            _ => { let k = g.get(&[s[1], 77, s[0]]); g.minus(k, it(77)); }
        }
    }
    g.verify();
    reach(0);
}
/// a set whose hash is the reserved value
#[no_mangle]
pub extern "C" fn h_c11_reserved() {
    let x = [1025, 1116, 54130];
    let r = pick(3) as usize;
    let mut g = Reg::<6>::new();
    if pick(2) == 0 { g.get(&[x[r], x[(r + 1) % 3], x[(r + 2) % 3]]); }
    let k = g.get(&[x[r], x[(r + 2) % 3]]);
    g.plus(k, it(x[(r + 1) % 3]));
    g.get(&[x[2], x[0], x[1]]);
    let k = g.get(&[x[2], x[0], x[1]]);
    g.plus(k, it(3));
    g.minus(k, it(x[1]));
    g.verify();
    reach(0);
}
/// many single-type sets created in several orders, then any type requested
fn singles<const N: usize>(mul: usize) {
    let mut r = ArchetypeRegistry::default();
    let id = |k: usize| ((k * mul) % 1021 * 64) as u16;
    let one = |i: u16| -> ArchetypeDescriptor { (&it(i).desc()).into() };
    for k in 0..N {
        let d: ArchetypeDescriptor = Item { id: id(k), size: 0, align: 1, h: 0 }.desc().into();
        match r.find_or_create_archetype(&d) { Some((ix, _)) => check(ix as usize == k, "a new component set gets a storage of its own"), None => check(false, "a storage for a valid set can be created") }
    }
    let x = any_u16();
    assume(x != u16::MAX);
    let d: ArchetypeDescriptor = Item { id: x, size: 0, align: 1, h: 0 }.desc().into();
    let found = r.find_archetype(&d).is_some();
    match r.find_or_create_archetype(&d) {
        Some((ix, a)) => {
            let ix = ix as usize;
            check(found == (ix < N), "a storage is found exactly if it was created before");
            if ix < N { check(id(ix) == x, OWN); } else {
                let mut new = true;
                for k in 0..N { new &= id(k) != x; }
                check(new && ix == N, ONE);
            }
            check(a.descriptor().components()[0].component_type_id().into_u16() == x && a.descriptor().len() == 1, OWN);
        }
        None => check(false, "a storage for a valid set can be created"),
    }
    for j in 0..8 { let k = j * (N / 8);
    match r.find_or_create_archetype(&one(id(k))) { Some((ix, _)) => check(ix as usize == k, ONE), None => check(false, "a created storage is found") } }
    reach(0);
}
#[no_mangle]
pub extern "C" fn h_c11_many() { match pick(4) { 0 => singles::<130>(1), 1 => singles::<130>(1020), 2 => singles::<300>(7), _ => singles::<66>(510) } }
/// many two-type sets, every one requested again
#[no_mangle]
pub extern "C" fn h_c11_manypairs() {
    let (n, m) = [(12, 1), (12, 5), (19, 7)][pick(3) as usize];
    let id = |k: usize| (k * m % n * 331 + 17) as u16;
    let mut r = ArchetypeRegistry::default();
    let mut c = 0;
    for round in 0..2 {
        c = if round == 0 { 0 } else { c };
        let mut k = 0;
        for i in 0..n { for j in 0..i {
            let d = build(&Set::of(&[Item { id: id(i), size: 0, align: 1, h: 0 }, Item { id: id(j), size: 0, align: 1, h: 0 }]));
            check(r.find_archetype(&d).is_some() == (round == 1), "a storage is found exactly if it was created before");
            match r.find_or_create_archetype(&d) { Some((ix, a)) => { check(ix == k, ONE); check(a.descriptor().contains_subset(&d) && a.descriptor().len() == 2, OWN); } None => check(false, "a storage for a valid set can be created") }
            k += 1;
        } }
    }
    reach(0);
}

/// a component with a chosen id
struct K<const I: u16>(u16);
impl<const I: u16> Component for K<I> { const NAME: &'static str = "K"; const ID: ComponentTypeId = ComponentTypeId::from_u16(I); }
type KA = (K<1291>, K<1295>);
type KB = (K<60486>, K<1234>);
/// entities with colliding component sets, however obtained, keep their own components
#[no_mangle]
pub extern "C" fn h_c11_entities() {
    let mut r = Registry::default();
    let (x, y) = (any_u16(), any_u16());
    let mut e = [Entity::INVALID; 3];
    let order = pick(3) as usize;
    for k in 0..3 {
        let (x, y) = (x ^ (k as u16) << 8, y ^ (k as u16) << 8);
        let h = if (k + order) % 3 == 0 {
            match pick(3) {
                0 => r.create_entity((K::<1295>(y), K::<1291>(x))).ok(),
                1 => { let h = r.create_entity(K::<1291>(x)).ok(); if let Some(h) = h { check(r.add_component(h, K::<1295>(y)).is_ok(), "a component can be added"); } h }
                _ => { let h = r.create_entity((K::<1291>(x), K::<8>(0), K::<1295>(y))).ok(); if let Some(h) = h { check(r.remove_component::<K<8>>(h).is_ok(), "a component can be removed"); } h }
            }
        } else {
            match pick(3) {
                0 => r.create_entity((K::<1234>(x), K::<60486>(y))).ok(),
                1 => { let h = r.create_entity(K::<60486>(y)).ok(); if let Some(h) = h { check(r.add_component(h, K::<1234>(x)).is_ok(), "a component can be added"); } h }
                _ => { let h = r.create_entity((K::<1234>(x), K::<60486>(y), K::<8>(0))).ok(); if let Some(h) = h { check(r.remove_component::<K<8>>(h).is_ok(), "a component can be removed"); } h }
            }
        };
        match h { Some(h) => e[k] = h, None => check(false, "an entity can be created") }
    }
    let s = "different component sets never share storage";
    let mut n = [0, 0];
    for k in 0..3 {
        let (x, y) = (x ^ (k as u16) << 8, y ^ (k as u16) << 8);
        let first = (k + order) % 3 == 0;
        n[!first as usize] += 1;
        check(r.has_components::<KA>(e[k]) == first && r.has_components::<KB>(e[k]) == !first, s);
        check(match r.get_components::<KA>(e[k]) { Some((a, b)) => first && a.0 == x && b.0 == y, None => !first }, s);
        check(match r.get_components::<KB>(e[k]) { Some((a, b)) => !first && a.0 == y && b.0 == x, None => first }, s);
    }
    let (mut p, mut q) = (0, 0);
    for (es, (a, b)) in r.iter_entity_components_matching::<KA>() { check(es.len() == a.len() && a.len() == b.len(), s); for h in es { check(r.has_component::<K<1291>>(*h), s); } p += es.len(); }
    { let (es, (a, b)) = r.iter_entity_components_exact::<KB>(); check(es.len() == a.len() && a.len() == b.len(), s); for h in es { check(r.has_component::<K<1234>>(*h), s); } q += es.len(); }
    check(p == n[0] && q == n[1], s);
    check(match r.remove_entity::<KB>(e[0]) { Some(_) => order % 3 != 0, None => order % 3 == 0 }, s);
    check(match r.remove_entity::<KA>(e[1]) { Some(_) => (1 + order) % 3 == 0, None => (1 + order) % 3 != 0 }, s);
    reach(0);
}
/// live entities with the same set are all in one chunk, those with different sets in different ones
fn grouping<const N: usize>(w: &World<N>) {
    let mut at = [0usize; N];
    let mut c = 0;
    macro_rules! walk { ($($T:ident)*) => { $( for (es, _) in w.r.iter_entity_components_matching::<$T>() {
        c += 1;
        for h in es { let k = w.index_of(*h); if at[k] == 0 { at[k] = c; } }
        for h in es { let k = w.index_of(*h); let f = w.index_of(es[0]); check(w.e[k].mask == w.e[f].mask, "different component sets never share storage"); }
        for k in 0..w.n { if w.e[k].live && es.len() > 0 && w.e[k].mask == w.e[w.index_of(es[0])].mask { let mut hit = false; for h in es { hit |= *h == w.e[k].h; } check(hit, ONE); } }
    } )* }; }
    walk!(A B C Z O D Y);
}
#[no_mangle]
pub extern "C" fn h_c11_hist2() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    op(&mut w, ALL);
    grouping(&w);
    reach(0);
    core::mem::forget(w);
}
#[no_mangle]
pub extern "C" fn h_c11_hist3() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    op(&mut w, MOVES);
    op(&mut w, ALL);
    grouping(&w);
    reach(0);
    core::mem::forget(w);
}
/// every order of building up and taking down a set of four types meets the same storages
#[no_mangle]
pub extern "C" fn h_c11_orders() {
    let ids = [[300u16, 200, 100, 400], [1291, 1295, 60486, 1234]][pick(2) as usize];
    let mut g = Reg::<16>::new();
    for _ in 0..2 {
        let mut left = [0, 1, 2, 3];
        let mut at = usize::MAX;
        for n in 0..4 {
            let c = pick(4 - n as u32) as usize;
            let i = left[c];
            left[c] = left[3 - n];
            if at == usize::MAX { at = g.get(&[ids[i]]); } else { let s = g.s[at].with(it(ids[i])); g.plus(at, it(ids[i])); at = match g.known(&s) { Some(k) => k, None => { check(false, ONE); 0 } }; }
        }
    }
    let full = g.get(&[ids[3], ids[1], ids[0], ids[2]]);
    g.minus(full, it(ids[pick(4) as usize]));
    g.verify();
    reach(0);
}
