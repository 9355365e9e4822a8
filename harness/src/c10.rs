use crate::desc::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::*;

/// g describes the tuple of items x
fn verify(g: &ComponentGroupDescriptor, x: &[Item], valid: bool) {
    let n = x.len();
    check(g.is_valid() == valid, "a group is valid exactly if it has 1 to 14 distinct types");
    if !valid { return; }
    check(g.len() as usize == n && g.archetype().len() as usize == n, "a group has as many types as the tuple");
    Set::of(x).check(g.archetype());
    for t in 0..n as u8 {
        let s = g.unsorted_to_sorted(t);
        check((s as usize) < n, "maps stay within the tuple");
        check(g.sorted_to_unsorted(s) == t, "the maps are inverse to each other");
        check(x[t as usize].is(&g.archetype().components()[s as usize]), "a tuple position is mapped to its own type");
        let u = g.sorted_to_unsorted(t);
        check((u as usize) < n, "maps stay within the tuple");
        check(g.unsorted_to_sorted(u) == t, "the maps are inverse to each other");
    }
}
macro_rules! group { ($n:literal, $x:expr) => {{ let x = $x; let a: [ComponentDescriptor; $n] = core::array::from_fn(|k| x[k].desc()); ComponentGroupDescriptor::new(&a) }}; }
macro_rules! any_ids { ($n:literal, $perm:expr) => {{
    let x: [Item; $n] = core::array::from_fn(|k| Item::any(k));
    let g = group!($n, &x);
    let distinct = Set::of(&x).distinct();
    verify(&g, &x, distinct);
    let p: [usize; $n] = $perm;
    let y: [Item; $n] = core::array::from_fn(|k| x[p[k]]);
    let h = group!($n, &y);
    verify(&h, &y, distinct);
    if distinct { check(equal(g.archetype(), h.archetype()), "a group's set does not depend on the order of its types"); reach(0); } else { reach(1); }
}}; }
const P3: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
/// any one to three types, all permutations, repetitions included
#[no_mangle]
pub extern "C" fn h_c10_any3() {
    match pick(3) {
        0 => { let x = [Item::any(1)]; verify(&group!(1, &x), &x, true); }
        1 => any_ids!(2, [1, 0]),
        _ => any_ids!(3, P3[pick(6) as usize]),
    }
}
/// any four types
#[no_mangle]
pub extern "C" fn h_c10_any4() { any_ids!(4, [[3, 2, 1, 0], [1, 2, 3, 0], [2, 0, 3, 1], [1, 0, 3, 2]][pick(4) as usize]) }
#[no_mangle]
pub extern "C" fn h_c10_any5() { any_ids!(5, [[4, 3, 2, 1, 0], [1, 2, 3, 4, 0], [2, 0, 4, 1, 3]][pick(3) as usize]) }
const IDS: [u16; 16] = [0, 1, 255, 256, 257, 4095, 4096, 32767, 32768, 40000, 65279, 65280, 65533, 65534, 300, 301];
macro_rules! one_any { ($n:literal) => {{
    let (m, r) = ([1, 5, 7, 15][pick(4) as usize], 5);
    let at = [0, 1, $n / 2, $n - 1][pick(4) as usize];
    let x: [Item; $n] = core::array::from_fn(|k| if k == at { Item::any(k) } else { Item { id: IDS[(k * m + r) % 16], size: 7 * k as u16, align: 1 << (k % 9), h: k } });
    let distinct = Set::of(&x).distinct();
    let g = group!($n, &x);
    verify(&g, &x, distinct && $n <= 14);
    let y: [Item; $n] = core::array::from_fn(|k| x[$n - 1 - k]);
    let h = group!($n, &y);
    if distinct && $n <= 14 { check(equal(g.archetype(), h.archetype()), "a group's set does not depend on the order of its types"); verify(&h, &y, true); reach(0); } else { reach(1); }
}}; }
/// 7, 13, 14 and 15 types in many orders, one of them arbitrary
#[no_mangle]
pub extern "C" fn h_c10_wide() { match pick(3) { 0 => one_any!(13), 1 => one_any!(14), _ => one_any!(15) } }
#[no_mangle]
pub extern "C" fn h_c10_mid() { match pick(4) { 0 => one_any!(6), 1 => one_any!(7), 2 => one_any!(10), _ => one_any!(8) } }
/// no types, too many types
#[no_mangle]
pub extern "C" fn h_c10_limits() {
    let none: [ComponentDescriptor; 0] = [];
    check(!ComponentGroupDescriptor::new(&none).is_valid(), "a group without types is invalid");
    let x: [Item; 16] = core::array::from_fn(|k| Item { id: IDS[k], size: 1, align: 1, h: 0 });
    check(!group!(15, &x).is_valid(), "a group of 15 types is invalid");
    check(!group!(16, &x).is_valid(), "a group of 16 types is invalid");
    check(group!(14, &x).is_valid(), "a group of 14 types is valid");
    check(!ComponentGroupDescriptor::INVALID.is_valid(), "the invalid group is invalid");
    reach(0);
}
/// the destructor of c is that of T
fn drops<T: Cp>(c: &ComponentDescriptor) -> bool {
    let (n, y) = (ledger_next(), y_live());
    let mut x = core::mem::ManuallyDrop::new(T::mk(5));
    unsafe { (c.fns.drop_handler)(&mut x as *mut _ as *mut u8, 1) };
    y_live() == y && ledger_next() == n + (T::M == MD) as u32 && (T::M != MD || ledger(n) == 2)
}
fn alike(a: &archetype_descriptor::ArchetypeDescriptor, b: &archetype_descriptor::ArchetypeDescriptor) -> bool {
    let mut r = a.archetype_id() == b.archetype_id() && a.len() == b.len();
    if r { for k in 0..a.len() as usize { let (x, y) = (&a.components()[k], &b.components()[k]); r &= x.component_type_id() == y.component_type_id() && x.size() == y.size() && x.align() == y.align(); } }
    r
}
macro_rules! tuple { ($($T:ident),+) => {{
    let g = <($($T,)+) as Probe>::group();
    let drops: &[fn(&ComponentDescriptor) -> bool] = &[$(drops::<$T>),+];
    let ids = [$(<$T as Component>::ID),+];
    let sizes = [$(core::mem::size_of::<$T>()),+];
    let aligns = [$(core::mem::align_of::<$T>()),+];
    check(g.is_valid() && g.len() as usize == ids.len(), "a tuple of distinct types is a valid group");
    for t in 0..ids.len() {
        let c = &g.archetype().components()[g.unsorted_to_sorted(t as u8) as usize];
        check(c.component_type_id() == ids[t] && c.size() as usize == sizes[t] && c.align() as usize == aligns[t] && drops[t](c), "a tuple position is mapped to its own type");
        check(g.sorted_to_unsorted(g.unsorted_to_sorted(t as u8)) as usize == t, "the maps are inverse to each other");
    }
    g
}}; }
trait Probe { fn group() -> &'static ComponentGroupDescriptor; }
macro_rules! probe { ($($T:ident),+) => { impl Probe for ($($T,)+) { fn group() -> &'static ComponentGroupDescriptor { &<($($T),+) as ComponentGroup>::DESCRIPTOR } } }; }
probe!(A, B); probe!(B, A); probe!(A, B, D); probe!(D, A, B); probe!(O, D, Z, A); probe!(Z, A, D, O); probe!(B, Z, A, D, O, C); probe!(C, O, D, A, Z, B); probe!(A, A); probe!(D, B, D); probe!(Z, Z, Z);
use crate::wide::*;
probe!(W7, W2); probe!(W2, W7);
probe!(W7, W2, W12); probe!(W12, W2, W7);
probe!(W7, W2, W12, W0); probe!(W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9); probe!(W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4); probe!(W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13); probe!(W13, W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13, W1); probe!(W1, W13, W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13, W1, W10); probe!(W10, W1, W13, W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3); probe!(W3, W10, W1, W13, W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8); probe!(W8, W3, W10, W1, W13, W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8, W5); probe!(W5, W8, W3, W10, W1, W13, W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8, W5, W11); probe!(W11, W5, W8, W3, W10, W1, W13, W4, W9, W0, W12, W2, W7);
probe!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8, W5, W11, W6); probe!(W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11, W12, W13);
/// descriptors of tuple types of every arity
#[no_mangle]
pub extern "C" fn h_c10_arity() {
    let s = "a group's set does not depend on the order of its types";
    match pick(13) {
        0 => check(alike(tuple!(W7, W2).archetype(), tuple!(W2, W7).archetype()), s),
        1 => check(alike(tuple!(W7, W2, W12).archetype(), tuple!(W12, W2, W7).archetype()), s),
        2 => check(alike(tuple!(W7, W2, W12, W0).archetype(), tuple!(W0, W12, W2, W7).archetype()), s),
        3 => check(alike(tuple!(W7, W2, W12, W0, W9).archetype(), tuple!(W9, W0, W12, W2, W7).archetype()), s),
        4 => check(alike(tuple!(W7, W2, W12, W0, W9, W4).archetype(), tuple!(W4, W9, W0, W12, W2, W7).archetype()), s),
        5 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13).archetype(), tuple!(W13, W4, W9, W0, W12, W2, W7).archetype()), s),
        6 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13, W1).archetype(), tuple!(W1, W13, W4, W9, W0, W12, W2, W7).archetype()), s),
        7 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13, W1, W10).archetype(), tuple!(W10, W1, W13, W4, W9, W0, W12, W2, W7).archetype()), s),
        8 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3).archetype(), tuple!(W3, W10, W1, W13, W4, W9, W0, W12, W2, W7).archetype()), s),
        9 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8).archetype(), tuple!(W8, W3, W10, W1, W13, W4, W9, W0, W12, W2, W7).archetype()), s),
        10 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8, W5).archetype(), tuple!(W5, W8, W3, W10, W1, W13, W4, W9, W0, W12, W2, W7).archetype()), s),
        11 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8, W5, W11).archetype(), tuple!(W11, W5, W8, W3, W10, W1, W13, W4, W9, W0, W12, W2, W7).archetype()), s),
        12 => check(alike(tuple!(W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8, W5, W11, W6).archetype(), tuple!(W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11, W12, W13).archetype()), s),
        _ => {}
    }
    reach(0);
}
/// descriptors of tuple types
#[no_mangle]
pub extern "C" fn h_c10_tuples() {
    let s = "a group's set does not depend on the order of its types";
    check(alike(tuple!(A, B).archetype(), tuple!(B, A).archetype()), s);
    check(alike(tuple!(A, B, D).archetype(), tuple!(D, A, B).archetype()), s);
    check(alike(tuple!(O, D, Z, A).archetype(), tuple!(Z, A, D, O).archetype()), s);
    check(alike(tuple!(B, Z, A, D, O, C).archetype(), tuple!(C, O, D, A, Z, B).archetype()), s);
    check(!<(A, A)>::group().is_valid() && !<(D, B, D)>::group().is_valid() && !<(Z, Z, Z)>::group().is_valid(), "a tuple naming a type twice is invalid");
    check(<A as ComponentGroup>::DESCRIPTOR.is_valid() && <A as ComponentGroup>::DESCRIPTOR.archetype().has_component::<A>(), "a single type is a valid group");
    reach(0);
}
