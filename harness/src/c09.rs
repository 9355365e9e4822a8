use crate::desc::*;
use crate::sym::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;

/// adds or removes type i, following the model
fn step(d: &mut ArchetypeDescriptor, s: &mut Set, add: bool, i: Item) {
    if add {
        match d.add_component(&i.desc()) {
            Some(n) => { check(!s.has(i.id) && s.n < 14, "adding succeeds only if the type is absent and there are fewer than 14"); *s = s.with(i); *d = n; }
            None => check(s.has(i.id) || s.n == 14, "adding succeeds if the type is absent and there are fewer than 14"),
        }
    } else {
        match d.remove_component(ComponentTypeId::from_u16(i.id)) {
            Some(n) => { check(s.has(i.id) && s.n > 1, "removing succeeds only if the type is present and not the last"); *s = s.without(i.id); *d = n; }
            None => check(!s.has(i.id) || s.n == 1, "removing succeeds if the type is present and not the last"),
        }
    }
}
fn start(n: usize) -> (ArchetypeDescriptor, Set) {
    let mut s = Set::empty();
    for k in 0..n { s = s.with(Item::any(k)); }
    assume(s.distinct());
    let d = if n == 1 && pick(2) == 0 { s.x[0].desc().into() } else { build(&s) };
    (d, s)
}
fn history(n: usize, steps: usize) {
    let (mut d, mut s) = start(n);
    s.check(&d);
    for k in 0..steps {
        let add = pick(2) == 1;
        // a type already seen keeps its size, alignment and destructor
        let i = Item::any(n + k);
        let before = d.clone();
        let (n0, old) = (s.n, s);
        step(&mut d, &mut s, add, i);
        s.check(&d);
        if s.n == n0 { check(equal(&d, &before), "a failing step leaves the descriptor as it was"); }
        old.check(&before);
    }
    check(equal(&d, &build(&s)) && equal(&d, &build_by_adding(&s)), "descriptors of the same set are equal however obtained");
    reach(0);
}
/// any one or two types, two steps with any types
#[no_mangle]
pub extern "C" fn h_c09_hist2() { history(1 + pick(2) as usize, 2); }
/// any one to three types, one step with any type
#[no_mangle]
pub extern "C" fn h_c09_hist1() { history(1 + pick(3) as usize, 1); }
#[no_mangle]
pub extern "C" fn h_c09_hist3() { history(1, 3); }
#[no_mangle]
pub extern "C" fn h_c09_hist4() { history(3, 2); }
/// inclusion and exclusion of any two sets of up to three types
#[no_mangle]
pub extern "C" fn h_c09_relations() {
    let (a, b) = (1 + pick(3) as usize, 1 + pick(3) as usize);
    let (d, s) = start(a);
    let (e, t) = start(b);
    let (mut sub, mut none) = (true, true);
    for k in 0..t.n { let h = s.has(t.x[k].id); sub &= h; none &= !h; }
    check(d.contains_subset(&e) == sub, "contains_subset is set inclusion");
    check(d.excludes_subset(&e) == none, "excludes_subset is disjointness");
    reach(0);
}
struct Probe;
impl Component for Probe { const NAME: &'static str = "probe"; const ID: ComponentTypeId = ComponentTypeId::from_u16(777); }
struct Low;
impl Component for Low { const NAME: &'static str = "low"; const ID: ComponentTypeId = ComponentTypeId::from_u16(0); }
struct Named(#[allow(dead_code)] u32);
impl Component for Named { const NAME: &'static str = "named"; }
/// membership by type and adding by type
#[no_mangle]
pub extern "C" fn h_c09_member() {
    let (d, s) = start(1 + pick(3) as usize);
    check(d.has_component::<Probe>() == s.has(777), "has_component is membership");
    check(d.has_component::<Low>() == s.has(0), "has_component is membership");
    check(d.has_component::<Named>() == s.has(Named::ID.into_u16()), "has_component is membership");
    match d.add_component_from::<Named>() {
        Some(e) => { check(!s.has(Named::ID.into_u16()), "adding a present type fails"); check(e.has_component::<Named>() && e.len() == d.len() + 1, "adding by type adds that type"); for c in e.components() { if c.component_type_id() == Named::ID { check(c.size() == 4 && c.align() == 4, "an added type has its own size and alignment"); } } check(e.contains_subset(&d), "adding keeps the other types"); }
        None => check(s.has(Named::ID.into_u16()), "adding an absent type succeeds"),
    }
    reach(0);
}
/// spread-out ids with gaps of every kind
const IDS: [u16; 15] = [0, 1, 255, 256, 257, 4095, 4096, 32767, 32768, 40000, 65279, 65280, 65533, 65534, 300];
/// 13 or 14 types, any type added or removed
#[no_mangle]
pub extern "C" fn h_c09_full() {
    let n = 13 + pick(2) as usize;
    let rot = pick(3) as usize * 5;
    let mut s = Set::empty();
    for k in 0..n { s = s.with(Item { id: IDS[(k * 4 + rot) % 15], size: 3 * k as u16 + 1, align: 1 << (k % 7), h: k }); }
    let mut d = if pick(2) == 0 { build(&s) } else { build_by_adding(&s) };
    s.check(&d);
    let o = pick(3);
    let i = Item::any(1);
    step(&mut d, &mut s, o != 0, Item { size: 9, align: 4, ..i });
    s.check(&d);
    step(&mut d, &mut s, o != 1, Item { id: IDS[pick(15) as usize], size: 5, align: 8, h: 0 });
    s.check(&d);
    check(equal(&d, &build_by_adding(&s)), "descriptors of the same set are equal however obtained");
    if s.n >= 13 { check(equal(&d, &build(&s)), "descriptors of the same set are equal however obtained"); }
    reach(0);
}
/// every way of growing to 14 types and shrinking to one again
#[no_mangle]
pub extern "C" fn h_c09_ladder() {
    let (r, step_by) = (pick(15) as usize, [1, 2, 4, 7, 11, 13, 14][pick(7) as usize]);
    let it = |k: usize| Item { id: IDS[(r + k * step_by) % 15], size: k as u16, align: 1 << (k % 5), h: k };
    let mut s = Set::of(&[it(0)]);
    let mut d = build(&s);
    for k in 1..15 { step(&mut d, &mut s, true, it(k)); s.check(&d); check(equal(&d, &build_by_adding(&s)), "descriptors of the same set are equal however obtained"); }
    for k in 0..15 { step(&mut d, &mut s, false, it((k * 4 + 3) % 15)); s.check(&d); check(equal(&d, &build_by_adding(&s)), "descriptors of the same set are equal however obtained"); }
    check(s.n == 1, "harness");
    reach(0);
}
/// 14-type sets: inclusion and exclusion against any one or two types
#[no_mangle]
pub extern "C" fn h_c09_relations_full() {
    let mut s = Set::empty();
    let n = 13 + pick(2) as usize;
    for k in 0..n { s = s.with(Item { id: IDS[(k * 7) % 15], size: 1, align: 1, h: 0 }); }
    let d = build(&s);
    let (e, t) = start(1 + pick(2) as usize);
    let (mut sub, mut none) = (true, true);
    for k in 0..t.n { let h = s.has(t.x[k].id); sub &= h; none &= !h; }
    check(d.contains_subset(&e) == sub, "contains_subset is set inclusion");
    check(d.excludes_subset(&e) == none && e.excludes_subset(&d) == none, "excludes_subset is disjointness");
    check(!e.contains_subset(&d), "a larger set is not included in a smaller one");
    let f = build(&s.without(s.x[pick(13) as usize].id).with(Item { id: 12345, size: 1, align: 1, h: 0 }));
    check(!d.contains_subset(&f), "a set with other types is not included");
    reach(0);
}
/// sets whose hash is the value reserved for "no archetype" (and sets one type away from them)
pub const RESERVED: [[u16; 4]; 2] = [[1025, 1116, 54130, 7], [43, 1010, 2032, 35995]];
#[no_mangle]
pub extern "C" fn h_c09_reserved() {
    let (w, n) = [(0, 3), (1, 4)][pick(2) as usize];
    let r = pick(4) as usize;
    let mut s = Set::empty();
    for k in 0..n { s = s.with(Item::with_id(RESERVED[w][(k + r) % n], k)); }
    let d = build(&s);
    s.check(&d);
    check(equal(&d, &build_by_adding(&s)), "descriptors of the same set are equal however obtained");
    let extra = Item::with_id(65000, 1);
    let (mut e, mut t) = (d.clone(), s);
    step(&mut e, &mut t, true, extra);
    t.check(&e);
    step(&mut e, &mut t, false, if pick(2) == 0 { extra } else { s.x[0] });
    t.check(&e);
    check(equal(&e, &build(&t)), "descriptors of the same set are equal however obtained");
    check(d.contains_subset(&d) && e.len() < d.len() || e.contains_subset(&d) == t.has(s.x[0].id), "contains_subset is set inclusion");
    reach(0);
}
