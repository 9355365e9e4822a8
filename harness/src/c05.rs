use shard_ecs::*;
use crate::hist::*;
use crate::iter::*;
use crate::sym::*;
use crate::world::*;

fn any_group<const N: usize>(w: &mut World<N>, variant: u32, f: &Filt) {
    match pick(10) {
        0 => matching::<A, N>(w, variant, f),
        1 => matching::<(A, B), N>(w, variant, f),
        2 => matching::<(B, A, D), N>(w, variant, f),
        3 => matching::<(D, A), N>(w, variant, f),
        4 => matching::<(Z, D), N>(w, variant, f),
        5 => matching::<(C, D), N>(w, variant, f),
        6 => matching::<(O, A), N>(w, variant, f),
        7 => matching::<Z, N>(w, variant | 1, f),
        8 => matching::<(D, Y, A), N>(w, variant, f),
        _ => matching::<(B, Z, A, D, O, C), N>(w, variant, f),
    }
}
/// a richer world: five storages sharing components, some of them emptied again
fn rich<const N: usize>(w: &mut World<N>) {
    w.create::<A>();
    w.create::<(A, B)>();
    w.create::<(B, A, D)>();
    w.create::<(D, Y, A)>();
    w.create::<(B, Z, A, D, O, C)>();
    w.create::<(B, A)>();
    w.create::<(C, A)>();
    w.destroy(6);
}
/// any world, any operation, any unfiltered iteration
#[no_mangle]
pub extern "C" fn h_c05_plain() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    any_group(&mut w, pick(4), &Filt::all());
    w.check_all();
    reach(0);
    w.finish();
}
/// any predicate on component sets as filter
#[no_mangle]
pub extern "C" fn h_c05_filter() {
    let mut w = World::<10>::new();
    rich(&mut w);
    any_group(&mut w, 4 + pick(4), &Filt::any());
    w.check_all();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c05_filter_hist() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, &[MK_BA, DESTROY, ADD_D, DEL_A]);
    let f = Filt::any();
    match pick(3) { 0 => matching::<A, 8>(&mut w, 4 + pick(4), &f), 1 => matching::<(D, A), 8>(&mut w, 4 + pick(4), &f), _ => matching::<(C, D), 8>(&mut w, 4 + pick(4), &f) }
    w.check_all();
    reach(0);
    w.finish();
}
/// all variants one after the other on the same world, writing through the mutable ones
#[no_mangle]
pub extern "C" fn h_c05_rich() {
    let mut w = World::<10>::new();
    rich(&mut w);
    op(&mut w, &[DESTROY, ADD_D, ADD_Z, DEL_A, DEL_B]);
    any_group(&mut w, pick(8), &Filt::all());
    any_group(&mut w, 3, &Filt::all());
    w.check_all();
    reach(0);
    w.finish();
}
#[no_mangle]
pub extern "C" fn h_c05_hist2() {
    let mut w = World::<8>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, MOVES);
    op(&mut w, MOVES);
    any_group(&mut w, pick(4), &Filt::all());
    w.check_all();
    reach(0);
    w.finish();
}
/// more rows than one initial allocation
#[no_mangle]
pub extern "C" fn h_c05_growth() {
    let mut w = World::<140>::new();
    for _ in 0..127 { w.create::<(B, A)>(); }
    w.create::<(B, A, D)>();
    match pick(3) { 0 => { w.create::<(A, B)>(); w.create::<(A, B)>(); } 1 => { w.destroy(0); } _ => { w.add::<D>(3); w.create::<A>(); } }
    matching::<(A, B), 140>(&mut w, pick(8), &Filt::all());
    w.check_all();
    reach(0);
    w.finish();
}
/// 300 storages, any variant, filters on component sets
#[no_mangle]
pub extern "C" fn h_c05_many() {
    let mut w = World::<304>::new();
    let t = crate::sets::many_at(&mut w, pick(2) == 0);
    match pick(3) { 0 => w.add::<crate::wide::W14>(t), 1 => w.destroy((t + 1) % 300), _ => { w.create::<crate::sets::Q3>(); } }
    match pick(2) {
        0 => { let f = Filt::all(); match pick(3) { 0 => matching::<crate::sets::Q3, 304>(&mut w, pick(4), &f), 1 => matching::<crate::sets::Q4, 304>(&mut w, pick(4), &f), _ => matching::<crate::wide::W8, 304>(&mut w, pick(4), &f) } }
        _ => crate::sets::many_queries(&mut w, 4 + pick(4)),
    }
    crate::sets::check_near(&w, t);
    reach(0);
    w.finish();
}
/// tuples of every arity
struct Rows;
impl crate::sets::Arity for Rows {
    fn run<G: Grp, R: Grp, const N: usize>(w: &mut World<N>) {
        crate::sets::arity_world::<G, R, N>(w);
        match pick(3) { 0 => {} 1 => w.destroy(0), _ => w.add::<crate::wide::W14>(2) }
        matching::<R, N>(w, pick(8), &Filt::all());
        matching::<G, N>(w, 1, &Filt::all());
    }
}
#[no_mangle]
pub extern "C" fn h_c05_arity() {
    let mut w = World::<8>::new();
    crate::sets::arities::<Rows, 8>(&mut w);
    reach(0);
    w.finish();
}
/// storages of 257 and 65537 rows
#[no_mangle]
pub extern "C" fn h_c05_big() {
    let mut w = crate::big::Big::new();
    w.fill([257, 65537][pick(2) as usize]);
    let k = w.spot();
    w.step(k);
    w.check_iteration(pick(8));
    reach(0);
}
/// component sets whose hashes coincide: any iteration
#[no_mangle]
pub extern "C" fn h_c05_coll() {
    let mut w = World::<7>::new();
    let kind = crate::coll::world(&mut w);
    let v = if pick(2) == 0 { crate::coll::step(&mut w, kind); [3, 5][pick(2) as usize] } else { pick(8) };
    crate::coll::all_matching(&mut w, kind, v);
    if v == 3 { crate::coll::check(&w); }
    w.check_ledger();
    reach(0);
    w.finish();
}
/// iteration through any adaptor: counted, stepped, bounded, resumed
fn adaptors<G: Grp, const N: usize>(w: &mut World<N>, variant: u32) {
    // chunks, in order, as stepping yields them
    let mut c = [(0usize, Entity::INVALID); 16];
    let mut n = 0;
    let f = |d: &shard_ecs::archetype_descriptor::ArchetypeDescriptor| mask_of(d) & MB == 0;
    for (h, _) in w.r.iter_entity_components_matching::<G>() { c[n] = (h.len(), if h.is_empty() { Entity::INVALID } else { h[0] }); n += 1; }
    let mut d = [(0usize, Entity::INVALID); 16];
    let mut m = 0;
    for (h, _) in w.r.iter_filtered_entity_components_matching::<G, _>(f) { d[m] = (h.len(), if h.is_empty() { Entity::INVALID } else { h[0] }); m += 1; }
    let k = pick(4) as usize;
    macro_rules! run { ($c:expr, $n:expr, $it:expr, $x:ident => $len:expr, $first:expr) => {{
        check($it.count() == $n, "counting agrees with stepping");
        check($it.fold(0, |k, $x| { check(k < $n && $len == $c[k].0, "folding agrees with stepping"); k + 1 }) == $n, "folding agrees with stepping");
        let mut it = $it;
        let (lo, hi) = it.size_hint();
        check(lo <= $n && hi.is_none_or(|x| x >= $n), "size bounds hold");
        match it.nth(k) { Some($x) => check(k < $n && $len == $c[k].0 && $first.is_none_or(|h: Entity| h == $c[k].1), "skipping agrees with stepping"), None => check(k >= $n, "skipping agrees with stepping") }
        let rest = $n.saturating_sub(k + 1);
        let (lo, hi) = it.size_hint();
        check(lo <= rest && hi.is_none_or(|x| x >= rest), "size bounds hold");
        for j in k + 1..$n { match it.next() { Some($x) => check($len == $c[j].0 && $first.is_none_or(|h: Entity| h == $c[j].1), "stepping continues after skipping"), None => check(false, "stepping continues after skipping") } }
        check(it.next().is_none(), "a finished iteration stays finished");
        drop(it);
        match $it.last() { Some($x) => check($n > 0 && $len == $c[$n - 1].0 && $first.is_none_or(|h: Entity| h == $c[$n - 1].1), "the last element agrees with stepping"), None => check($n == 0, "the last element agrees with stepping") }
    }}; }
    let none: fn() -> Option<Entity> = || None;
    let head = |h: &[Entity]| Some(if h.is_empty() { Entity::INVALID } else { h[0] });
    match variant {
        0 => run!(c, n, w.r.iter_components_matching::<G>(), x => G::len0(&x), none()),
        1 => run!(c, n, w.r.iter_entity_components_matching::<G>(), x => x.0.len(), head(x.0)),
        2 => run!(c, n, w.r.iter_components_matching_mut::<G>(), x => G::len0_mut(&x), none()),
        3 => run!(c, n, w.r.iter_entity_components_matching_mut::<G>(), x => x.0.len(), head(x.0)),
        4 => run!(d, m, w.r.iter_filtered_components_matching::<G, _>(f), x => G::len0(&x), none()),
        5 => run!(d, m, w.r.iter_filtered_entity_components_matching::<G, _>(f), x => x.0.len(), head(x.0)),
        6 => run!(d, m, w.r.iter_filtered_components_matching_mut::<G, _>(f), x => G::len0_mut(&x), none()),
        _ => run!(d, m, w.r.iter_filtered_entity_components_matching_mut::<G, _>(f), x => x.0.len(), head(x.0)),
    }
}
#[no_mangle]
pub extern "C" fn h_c05_adaptors() {
    let mut w = World::<10>::new();
    rich(&mut w);
    match pick(3) { 0 => {} 1 => w.destroy(0), _ => { w.del::<B>(1); } }
    let v = pick(8);
    match pick(3) { 0 => adaptors::<A, 10>(&mut w, v), 1 => adaptors::<(D, A), 10>(&mut w, v), _ => adaptors::<(Z, D), 10>(&mut w, v) }
    w.check_all();
    reach(0);
    w.finish();
}
