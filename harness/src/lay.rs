//! Components of every layout.
use crate::sym::*;
use shard_ecs::*;

/// a component of any layout: the first and last byte carry a value, the bytes in between depend on it
pub trait Lay: Component { fn sweep(r: &mut Registry) -> usize; fn mk(v: u16) -> Self; fn rd(&self) -> u16; fn put(&mut self, v: u16); const BYTES: usize = core::mem::size_of::<Self>(); }
pub fn val<T: Lay>(v: u16) -> u16 { match T::BYTES { 0 => 0, 1 => v & 0xff, _ => v } }
/// the inner bytes that carry the value too: all of small components, some of large ones
fn after(i: usize, n: usize) -> usize { if n > 320 && i > 66 && i + 577 < n { i + 509 } else { i + 1 } }
macro_rules! layouts { ($($T:ident $n:literal $al:literal $id:literal;)*) => { $(
    #[repr(align($al))]
    pub struct $T(pub [u8; $n]);
    impl Component for $T { const NAME: &'static str = stringify!($T); const ID: ComponentTypeId = ComponentTypeId::from_u16($id); }
    impl Lay for $T {
        fn sweep(r: &mut Registry) -> usize {
            let mut rows = 0;
            for s in r.iter_components_matching_mut::<$T>() { rows += s.len(); for x in s { let v = x.rd(); x.put(v); } }
            let mut again = 0;
            for (e, s) in r.iter_entity_components_matching::<$T>() { again += s.len(); check(e.len() == s.len(), "slices have equal lengths"); for x in s { log(x.rd() as u64); } }
            check(rows == again, "iterations agree");
            rows
        }
        fn mk(v: u16) -> Self { let mut x = $T([0; $n]); x.put(v); x }
        #[allow(unconditional_panic)]
        fn rd(&self) -> u16 {
            check(self as *const Self as usize % $al == 0, "references are aligned");
            let mut ok = true;
            let mut i = 1;
            while i + 1 < $n { ok &= self.0[i] == self.0[0] ^ (i as u8).wrapping_mul(3); i = after(i, $n); }
            check(ok, "every byte of a component is preserved");
            if $n == 0 { 0 } else if $n == 1 { self.0[0] as u16 } else { self.0[0] as u16 | (self.0[$n - 1] as u16) << 8 }
        }
        #[allow(unconditional_panic)]
        fn put(&mut self, v: u16) {
            let mut i = 1;
            while i + 1 < $n { self.0[i] = v as u8 ^ (i as u8).wrapping_mul(3); i = after(i, $n); }
            if $n > 0 { self.0[0] = v as u8; } if $n > 1 { self.0[$n - 1] = (v >> 8) as u8; } }
    }
)* } }
layouts! { L0 0 1 900; L1 1 1 901; L3 3 1 902; L7 7 1 903; L2A 2 2 904; L8A 8 8 905; L16A 16 16 906; LZ64 0 64 907; L4K 4096 4096 908; L255 255 1 909; L32K 32768 32768 910; LMAX 65535 1 911; LMAX2 65534 2 912; L300 300 4 913; LZ32K 0 32768 914; L12 12 4 915; L128 128 128 916; L256 256 1 917; L257 257 1 918; }

/// Every operation on entities with one component T or two components T, U.
pub fn layout<T: Lay, U: Lay>(n: usize) where (T, U): ComponentGroup, (U, T): ComponentGroup, T: ComponentGroup, U: ComponentGroup
{
    let mut r = Registry::default();
    let mut h = [Entity::INVALID; 130];
    let (a, b, c) = (any_u16(), any_u16(), any_u16());
    for k in 0..n {
        let x = if k + 1 == n { a } else { k as u16 };
        h[k] = match r.create_entity(T::mk(x)) { Ok(h) => h, Err(_) => { check(false, "creation succeeds"); return; } };
    }
    let p = [0, n / 2, n - 1][pick(3) as usize];
    let last = n - 1;
    let of = |k: usize| val::<T>(if k == last { a } else { k as u16 });
    check(r.add_component(h[p], U::mk(b)).is_ok(), "adding succeeds");
    check(r.get_component::<U>(h[p]).is_some_and(|x| x.rd() == val::<U>(b)) && r.get_component::<T>(h[p]).is_some_and(|x| x.rd() == of(p)), "values are those last written");
    check(r.get_component::<U>(h[last]).is_some() == (p == last), "components are present as added");
    for k in [0, last, last / 2, last.saturating_sub(1)] { check(r.get_component::<T>(h[k]).is_some_and(|x| x.rd() == of(k)), "values are those last written"); }
    match pick(6) {
        0 => { if let Some(x) = r.get_component_mut::<U>(h[p]) { x.put(c); } check(r.get_component::<U>(h[p]).is_some_and(|x| x.rd() == val::<U>(c)), "values are those last written"); }
        1 => { check(core::mem::size_of::<T>() != usize::MAX && r.remove_component::<T>(h[p]).is_ok_and(|x| x.rd() == of(p)), "removing succeeds"); }
        2 => { check(r.remove_component::<U>(h[p]).is_ok_and(|x| x.rd() == val::<U>(b)), "removing succeeds"); check(r.get_component::<T>(h[p]).is_some_and(|x| x.rd() == of(p)), "values are those last written"); }
        3 => { check(r.remove_entity::<T>(h[p]).is_none(), "removing an entity needs all its components"); }
        4 => { check(r.destroy_entity(h[p]) && !r.destroy_entity(h[p]), "destroying succeeds"); }
        _ => { check(r.create_entity(U::mk(c)).is_ok(), "creation succeeds"); check(r.destroy_entity(h[0]), "destroying succeeds"); }
    }
    let rows = T::sweep(&mut r) + U::sweep(&mut r);
    check(rows >= n - 1, "iteration visits the rows");
    log(rows as u64);
    reach(0);
}
/// two components at once, in both tuple orders
pub fn pair<T: Lay, U: Lay>()
where (T, U): ComponentGroup, (U, T): ComponentGroup, T: ComponentGroup, U: ComponentGroup,
    for<'a> (T, U): ComponentGroup<RefTuple<'a> = (&'a T, &'a U), SliceMutRefTuple<'a> = (&'a mut [T], &'a mut [U])>,
{
    let mut r = Registry::default();
    let (a, b, c, d) = (any_u16(), any_u16(), any_u16(), any_u16());
    let mk = |r: &mut Registry, x: u16, y: u16| { if let Ok(h) = r.create_entity((T::mk(x), U::mk(y))) { h } else { check(false, "creation succeeds"); Entity::INVALID } };
    let h = mk(&mut r, a, b);
    let g = match r.create_entity((U::mk(d), T::mk(c))) { Ok(h) => h, Err(_) => { check(false, "creation succeeds"); return; } };
    let ok = |r: &Registry, h: Entity, x: u16, y: u16| match r.get_components::<(T, U)>(h) { Some((p, q)) => p.rd() == val::<T>(x) && q.rd() == val::<U>(y), None => false };
    check(ok(&r, h, a, b) && ok(&r, g, c, d), "values are those last written");
    for (s, t) in r.iter_components_matching_mut::<(T, U)>() { check(s.len() == 2 && t.len() == 2, "both rows are visited"); s[0].put(c); t[1].put(a); }
    check(ok(&r, h, c, b) && ok(&r, g, c, a), "values are those last written");
    match pick(4) {
        0 => { check(r.destroy_entity(h), "destroying succeeds"); }
        1 => match r.remove_entity::<(U, T)>(h) { Some((y, x)) => check(x.rd() == val::<T>(c) && y.rd() == val::<U>(b), "values are those last written"), None => check(false, "removing an entity succeeds") },
        2 => { check(r.remove_component::<T>(h).is_ok_and(|x| x.rd() == val::<T>(c)), "removing succeeds"); }
        _ => { check(r.remove_component::<U>(h).is_ok_and(|x| x.rd() == val::<U>(b)), "removing succeeds"); }
    }
    check(ok(&r, g, c, a), "values are those last written");
    let i = mk(&mut r, d, d);
    check(ok(&r, i, d, d) && ok(&r, g, c, a), "values are those last written");
    reach(0);
}
/// component layouts: sizes 0 to 65535, alignments 1 to 32768, alone and paired
pub fn layouts() {
    let n = [1, 2, 3][pick(3) as usize];
    match pick(12) {
        0 => layout::<L0, L1>(n),
        1 => layout::<L1, LMAX>(n),
        2 => layout::<LMAX, L0>(n),
        3 => layout::<LZ64, L3>(n),
        4 => layout::<L4K, L7>(n),
        5 => layout::<L32K, LZ32K>(n),
        6 => layout::<LZ32K, LZ64>(n),
        7 => layout::<L255, L256>(n),
        8 => layout::<L257, L2A>(n),
        9 => layout::<LMAX2, L300>(n),
        10 => layout::<L12, L128>(n),
        _ => layout::<L16A, L8A>(n),
    }
}
pub fn pairs() {
    match pick(12) {
        0 => pair::<L0, L1>(),
        1 => pair::<L1, LMAX>(),
        2 => pair::<LMAX, L0>(),
        3 => pair::<LZ64, L3>(),
        4 => pair::<L4K, L7>(),
        5 => pair::<L32K, LZ32K>(),
        6 => pair::<LZ32K, LZ64>(),
        7 => pair::<L255, L256>(),
        8 => pair::<L257, L2A>(),
        9 => pair::<LMAX2, L300>(),
        10 => pair::<L12, L128>(),
        _ => pair::<L16A, L8A>(),
    }
}
/// growth with different layouts
pub fn growth() {
    match pick(8) {
        0 => layout::<L0, L1>(129),
        1 => layout::<L3, LZ64>(129),
        2 => layout::<L7, L2A>(129),
        3 => layout::<LZ64, L0>(129),
        4 => layout::<L128, L12>(129),
        5 => layout::<L300, L3>(129),
        6 => layout::<L4K, L7>(129),
        _ => layout::<LMAX, L1>(129),
    }
}

use shard_ecs::archetype::Archetype;
/// a storage of two component types: swapping, moving to the end, removing and copying rows
fn store<T: Lay, U: Lay>() where (T, U): ComponentGroup, T: ComponentGroup, U: ComponentGroup {
    let mut a = Archetype::with_capacity(<(T, U)>::DESCRIPTOR.archetype(), [0, 2, 4][pick(3) as usize]);
    let mut rows = [(0u32, 0u16, 0u16); 4];
    let mut n = 3;
    for k in 0..3 { rows[k] = (any_u32(), any_u16(), any_u16()); check(unsafe { a.push_entity_unchecked(Entity::from_raw(rows[k].0), (T::mk(rows[k].1), U::mk(rows[k].2))) } as usize == k, "pushing appends"); }
    let i = pick(3) as usize;
    match pick(6) {
        0 => { let j = (i + 1 + pick(2) as usize) % 3; unsafe { a.swap_entities(i as u32, j as u32) }; rows.swap(i, j); }
        1 => { unsafe { a.swap_to_last_unchecked(i as u32) }; rows.swap(i, 2); }
        2 => { unsafe { a.swap_drop_unchecked(i as u32) }; rows[i] = rows[2]; n = 2; }
        3 => {
            let ((t, u), moved) = unsafe { a.swap_remove_unchecked::<(T, U)>(i as u32) };
            check(moved == (i != 2), "removal reports whether the last row was moved");
            check(t.rd() == val::<T>(rows[i].1) && u.rd() == val::<U>(rows[i].2), "removal returns the row's values");
            rows[i] = rows[2];
            n = 2;
        }
        4 => {
            let mut d = Archetype::with_capacity(<U as ComponentGroup>::DESCRIPTOR.archetype(), 2);
            for k in 0..2 { unsafe { d.push_entity_unchecked(Entity::from_raw(7 + k), U::mk(9 + k as u16)) }; }
            unsafe { Archetype::copy_common_components_between_archetypes_unchecked(&a, i as u32, &mut d, 1) };
            unsafe { check(d.get_component_unchecked::<U>(0).rd() == val::<U>(9) && d.get_component_unchecked::<U>(1).rd() == val::<U>(rows[i].2), "copying transfers exactly the shared types of the row"); }
            check(d.entities()[0].raw() == 7 && d.len() == 2, "copying leaves other rows untouched");
        }
        _ => { let v = any_u16(); unsafe { a.get_component_unchecked_mut::<T>(i as u32) }.put(v); rows[i].1 = v; rows[3] = (any_u32(), v ^ 1, v ^ 2); check(unsafe { a.push_entity_unchecked(Entity::from_raw(rows[3].0), (T::mk(rows[3].1), U::mk(rows[3].2))) } == 3, "pushing appends"); n = 4; }
    }
    check(a.len() == n && a.entities().len() == n as usize && a.capacity() >= n, "the length is the number of rows");
    for k in 0..n as usize {
        check(a.entities()[k].raw() == rows[k].0, "a row keeps its handle");
        unsafe { check(a.get_component_unchecked::<T>(k as u32).rd() == val::<T>(rows[k].1) && a.get_component_unchecked::<U>(k as u32).rd() == val::<U>(rows[k].2), "a component has the value last written to its row"); }
    }
    reach(0);
}
pub fn stores() {
    match pick(12) {
        0 => store::<L0, L1>(),
        1 => store::<L1, LMAX>(),
        2 => store::<LMAX, L0>(),
        3 => store::<LZ64, L3>(),
        4 => store::<L4K, L7>(),
        5 => store::<L32K, LZ32K>(),
        6 => store::<LZ32K, LZ64>(),
        7 => store::<L255, L256>(),
        8 => store::<L257, L2A>(),
        9 => store::<LMAX2, L300>(),
        10 => store::<L12, L128>(),
        _ => store::<L16A, L8A>(),
    }
}
