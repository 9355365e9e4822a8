//! A small world of component types, a reference model of the registry, and model-checked operations.
use crate::sym::*;
use shard_ecs::*;

/// component types of the small world; the wide types follow
pub const NB: usize = 7;
pub const NC: usize = NB + crate::wide::NW;
pub const MA: u32 = 1;
pub const MB: u32 = 2;
pub const MC: u32 = 4;
pub const MZ: u32 = 8;
pub const MO: u32 = 16;
pub const MD: u32 = 32;
pub const MY: u32 = 64;

/// A component of the world: index, payload width and conversions.
pub trait Cp: Component {
    const IX: usize;
    const BITS: u32;
    fn mk(v: u64) -> Self;
    fn rd(&self) -> u64;
    fn put(&mut self, v: u64);
    const M: u32 = 1 << Self::IX;
}

/// 4-byte component
pub struct A(pub u32);
impl Component for A { const NAME: &'static str = "A"; const ID: ComponentTypeId = ComponentTypeId::from_u16(300); }
impl Cp for A { const IX: usize = 0; const BITS: u32 = 32; fn mk(v: u64) -> Self { A(v as u32) } fn rd(&self) -> u64 { self.0 as u64 } fn put(&mut self, v: u64) { self.0 = v as u32 } }
/// 8-byte component
pub struct B(pub u64);
impl Component for B { const NAME: &'static str = "B"; const ID: ComponentTypeId = ComponentTypeId::from_u16(200); }
impl Cp for B { const IX: usize = 1; const BITS: u32 = 64; fn mk(v: u64) -> Self { B(v) } fn rd(&self) -> u64 { self.0 } fn put(&mut self, v: u64) { self.0 = v } }
/// odd-sized, byte-aligned component with a name-derived id
pub struct C(pub [u8; 3]);
impl Component for C { const NAME: &'static str = "odd-sized"; }
impl Cp for C { const IX: usize = 2; const BITS: u32 = 24; fn mk(v: u64) -> Self { C([v as u8, (v >> 8) as u8, (v >> 16) as u8]) } fn rd(&self) -> u64 { self.0[0] as u64 | (self.0[1] as u64) << 8 | (self.0[2] as u64) << 16 } fn put(&mut self, v: u64) { *self = C::mk(v) } }
/// zero-sized component
pub struct Z;
impl Component for Z { const NAME: &'static str = "Z"; const ID: ComponentTypeId = ComponentTypeId::from_u16(100); }
impl Cp for Z { const IX: usize = 3; const BITS: u32 = 0; fn mk(_: u64) -> Self { Z } fn rd(&self) -> u64 { 0 } fn put(&mut self, _: u64) {} }
/// over-aligned component
#[repr(align(64))]
pub struct O(pub u16);
impl Component for O { const NAME: &'static str = "over-aligned"; }
impl Cp for O { const IX: usize = 4; const BITS: u32 = 16; fn mk(v: u64) -> Self { O(v as u16) } fn rd(&self) -> u64 { check(self as *const O as usize % 64 == 0, "reference to an over-aligned component is aligned"); self.0 as u64 } fn put(&mut self, v: u64) { self.0 = v as u16 } }
/// component with a destructor and a heap allocation; every value carries a serial number whose fate is tracked
pub struct D { pub serial: u32, pub val: Box<u32> }
impl Component for D { const NAME: &'static str = "D"; const ID: ComponentTypeId = ComponentTypeId::from_u16(400); }
impl Cp for D { const IX: usize = 5; const BITS: u32 = 32;
    fn mk(v: u64) -> Self { let serial = unsafe { NEXT }; unsafe { NEXT += 1; LEDGER[serial as usize] = 1; } D { serial, val: Box::new(v as u32) } }
    fn rd(&self) -> u64 { check(unsafe { LEDGER[self.serial as usize] } == 1, "a value that is read has not been dropped"); *self.val as u64 }
    fn put(&mut self, v: u64) { *self.val = v as u32 } }
impl Drop for D { fn drop(&mut self) { unsafe { check(LEDGER[self.serial as usize] == 1, "a value is dropped at most once"); LEDGER[self.serial as usize] = 2; } fuse(); } }
/// zero-sized component with a destructor
pub struct Y;
impl Component for Y { const NAME: &'static str = "Y"; const ID: ComponentTypeId = ComponentTypeId::from_u16(50); }
impl Cp for Y { const IX: usize = 6; const BITS: u32 = 0; fn mk(_: u64) -> Self { unsafe { YBORN += 1; } Y } fn rd(&self) -> u64 { 0 } fn put(&mut self, _: u64) {} }
impl Drop for Y { fn drop(&mut self) { unsafe { check(YDEAD < YBORN, "a zero-sized value is dropped at most once"); YDEAD += 1; } fuse(); } }
/// The k-th destructor call from now panics (0: none).
pub fn arm(k: u32) { unsafe { FUSE = k } }
pub fn armed() -> bool { unsafe { FUSE != 0 } }
static mut FUSE: u32 = 0;
fn fuse() { unsafe { if FUSE != 0 { FUSE -= 1; if FUSE == 0 { unwind() } } } }
static mut YBORN: u32 = 0;
static mut YDEAD: u32 = 0;
pub fn y_live() -> u32 { unsafe { YBORN - YDEAD } }
pub const LMAX: usize = 700;
static mut NEXT: u32 = 0;
static mut LEDGER: [u8; LMAX] = [0; LMAX]; // 0 unborn, 1 live, 2 dropped
pub fn ledger_next() -> u32 { unsafe { NEXT } }
pub fn ledger(s: u32) -> u8 { unsafe { LEDGER[s as usize] } }

pub fn fresh<T: Cp>() -> u64 { if T::BITS == 0 { 0 } else { any(T::BITS) } }

#[derive(Clone, Copy)]
pub struct Ent { pub h: Entity, pub live: bool, pub mask: u32, pub val: [u64; NC], pub serial: u32 }

pub struct World<const N: usize> { pub r: Registry, pub e: [Ent; N], pub n: usize }

/// Uniform access to the groups used in the harnesses.
pub trait Grp: ComponentGroup {
    const MASK: u32;
    /// builds the tuple from values, returns serial of D if present
    fn make(v: &[u64; NC]) -> Self;
    fn serial(&self) -> u32;
    /// owned tuple holds the values v in its own positions
    fn same(&self, v: &[u64; NC]) -> bool;
    fn same_ref(r: Self::RefTuple<'_>, v: &[u64; NC]) -> bool;
    fn same_mut(r: &Self::MutRefTuple<'_>, v: &[u64; NC]) -> bool;
    fn put_all(r: Self::MutRefTuple<'_>, v: &[u64; NC]);
    /// lengths of all slices equal l
    fn lens(s: &Self::SliceRefTuple<'_>, l: usize) -> bool;
    fn lens_mut(s: &Self::SliceMutRefTuple<'_>, l: usize) -> bool;
    fn len0(s: &Self::SliceRefTuple<'_>) -> usize;
    fn len0_mut(s: &Self::SliceMutRefTuple<'_>) -> usize;
    /// row i of the slices equals v / lies at the addresses a
    fn row(s: &Self::SliceRefTuple<'_>, i: usize, v: &[u64; NC]) -> bool;
    fn row_mut(s: &Self::SliceMutRefTuple<'_>, i: usize, v: &[u64; NC]) -> bool;
    fn row_at(s: &Self::SliceRefTuple<'_>, i: usize, a: &[usize; NC]) -> bool;
    fn row_at_mut(s: &Self::SliceMutRefTuple<'_>, i: usize, a: &[usize; NC]) -> bool;
    fn row_put(s: &mut Self::SliceMutRefTuple<'_>, i: usize, v: &[u64; NC]);
    fn fresh_all(v: &mut [u64; NC]);
    /// addresses of the components of an entity
    fn addrs(r: &Registry, e: Entity, a: &mut [usize; NC]) -> bool;
}

#[macro_export]
macro_rules! first { ($x:expr $(, $r:expr)*) => { $x }; }
#[macro_export]
macro_rules! group {
    ($g:ty; $($T:ident $x:ident),+) => {
        impl Grp for $g {
            const MASK: u32 = 0 $(| <$T as Cp>::M)+;
            fn make(v: &[u64; NC]) -> Self { ($(<$T as Cp>::mk(v[<$T as Cp>::IX])),+) }
            #[allow(unused_parens, unused_variables)]
            fn serial(&self) -> u32 { let ($($x),+) = self; let mut s = u32::MAX; $( if <$T as Cp>::IX == 5 { s = unsafe { (*($x as *const $T as *const D)).serial }; } )+ s }
            #[allow(unused_parens)]
            fn same(&self, v: &[u64; NC]) -> bool { let ($($x),+) = self; true $(& ($x.rd() == v[<$T as Cp>::IX]))+ }
            #[allow(unused_parens)]
            fn same_ref(r: Self::RefTuple<'_>, v: &[u64; NC]) -> bool { let ($($x),+) = r; true $(& ($x.rd() == v[<$T as Cp>::IX]))+ }
            #[allow(unused_parens)]
            fn same_mut(r: &Self::MutRefTuple<'_>, v: &[u64; NC]) -> bool { let ($($x),+) = r; true $(& ($x.rd() == v[<$T as Cp>::IX]))+ }
            #[allow(unused_parens)]
            fn put_all(r: Self::MutRefTuple<'_>, v: &[u64; NC]) { let ($($x),+) = r; $($x.put(v[<$T as Cp>::IX]);)+ }
            #[allow(unused_parens)]
            fn lens(s: &Self::SliceRefTuple<'_>, l: usize) -> bool { let ($($x),+) = s; true $(& ($x.len() == l))+ }
            #[allow(unused_parens)]
            fn lens_mut(s: &Self::SliceMutRefTuple<'_>, l: usize) -> bool { let ($($x),+) = s; true $(& ($x.len() == l))+ }
            #[allow(unused_parens, unused_variables)]
            fn len0(s: &Self::SliceRefTuple<'_>) -> usize { let ($($x),+) = s; first!($($x.len()),+) }
            #[allow(unused_parens, unused_variables)]
            fn len0_mut(s: &Self::SliceMutRefTuple<'_>) -> usize { let ($($x),+) = s; first!($($x.len()),+) }
            #[allow(unused_parens)]
            fn row(s: &Self::SliceRefTuple<'_>, i: usize, v: &[u64; NC]) -> bool { let ($($x),+) = s; true $(& ($x[i].rd() == v[<$T as Cp>::IX]))+ }
            #[allow(unused_parens)]
            fn row_mut(s: &Self::SliceMutRefTuple<'_>, i: usize, v: &[u64; NC]) -> bool { let ($($x),+) = s; true $(& ($x[i].rd() == v[<$T as Cp>::IX]))+ }
            #[allow(unused_parens)]
            fn row_at(s: &Self::SliceRefTuple<'_>, i: usize, a: &[usize; NC]) -> bool { let ($($x),+) = s; true $(& (<$T as Cp>::BITS == 0 || &$x[i] as *const $T as usize == a[<$T as Cp>::IX]))+ }
            #[allow(unused_parens)]
            fn row_at_mut(s: &Self::SliceMutRefTuple<'_>, i: usize, a: &[usize; NC]) -> bool { let ($($x),+) = s; true $(& (<$T as Cp>::BITS == 0 || &$x[i] as *const $T as usize == a[<$T as Cp>::IX]))+ }
            #[allow(unused_parens)]
            fn row_put(s: &mut Self::SliceMutRefTuple<'_>, i: usize, v: &[u64; NC]) { let ($($x),+) = s; $($x[i].put(v[<$T as Cp>::IX]);)+ }
            fn fresh_all(v: &mut [u64; NC]) { $(v[<$T as Cp>::IX] = fresh::<$T>();)+ }
            fn addrs(r: &Registry, e: Entity, a: &mut [usize; NC]) -> bool { true $(& match r.get_component::<$T>(e) { Some(p) => { a[<$T as Cp>::IX] = p as *const $T as usize; true } None => false })+ }
        }
    };
}
group!(A; A a);
group!(B; B a);
group!(C; C a);
group!(Z; Z a);
group!(O; O a);
group!(D; D a);
group!(Y; Y a);
group!((A, Y); A a, Y b);
group!((Y, D); Y a, D b);
group!((D, Y, A); D a, Y b, A c);
group!((Z, A); Z a, A b);
group!((A, C); A a, C b);
group!((D, C); D a, C b);
group!((D, Z); D a, Z b);
group!((A, B, D); A a, B b, D c);
group!((A, B); A a, B b);
group!((B, A); B a, A b);
group!((D, B, A); D a, B b, A c);
group!((B, A, D); B a, A b, D c);
group!((A, D); A a, D b);
group!((D, A); D a, A b);
group!((Z, C); Z a, C b);
group!((C, A); C a, A b);
group!((C, D); C a, D b);
group!((A, C, D); A a, C b, D c);
group!((A, B, C); A a, B b, C c);
group!((B, C, D); B a, C b, D c);
group!((A, Z); A a, Z b);
group!((Z, D); Z a, D b);
group!((Z, B, A); Z a, B b, A c);
group!((O, D, Z, A); O a, D b, Z c, A d);
group!((A, Z, D, O); A a, Z b, D c, O d);
group!((O, A); O a, A b);
group!((D, Z, A); D a, Z b, A c);
group!((O, D, Z, B, A); O a, D b, Z c, B d, A e);
group!((D, C, B, A); D a, C b, B c, A d);
group!((B, Z, A, D, O, C); B a, Z b, A c, D d, O e, C f);


pub const DEAD: Ent = Ent { h: Entity::INVALID, live: false, mask: 0, val: [0; NC], serial: u32::MAX };

impl<const N: usize> World<N> {
    pub fn new() -> Self { World { r: Registry::default(), e: [DEAD; N], n: 0 } }

    /// Creates an entity with fresh arbitrary component values.
    pub fn create<G: Grp>(&mut self) -> usize {
        let mut v = [0; NC];
        G::fresh_all(&mut v);
        self.create_with::<G>(v)
    }
    pub fn create_with<G: Grp>(&mut self, v: [u64; NC]) -> usize {
        let g = G::make(&v);
        let serial = g.serial();
        let h = match self.r.create_entity(g) { Ok(h) => h, Err(_) => { check(false, "creating an entity of distinct component types succeeds"); loop {} } };
        check(h.is_valid(), "creation returns a valid handle");
        log(h.raw() as u64);
        for k in 0..self.n { check(!self.e[k].live || self.e[k].h != h, "a new handle differs from all live handles"); }
        self.e[self.n] = Ent { h, live: true, mask: G::MASK, val: v, serial };
        self.n += 1;
        self.n - 1
    }
    /// Adds an arbitrary handle value that is not the handle of a live entity.
    pub fn forge(&mut self) -> usize {
        let h = unsafe { Entity::from_raw(any_u32()) };
        for k in 0..self.n { assume(!self.e[k].live || self.e[k].h != h); }
        self.e[self.n] = Ent { h, ..DEAD };
        self.n += 1;
        self.n - 1
    }
    /// The newest entity identified by the handle of entity t: a dead handle may have been issued again.
    pub fn resolve(&self, t: usize) -> usize {
        if self.e[t].live { return t; }
        for k in 0..self.n { if self.e[k].live && self.e[k].h == self.e[t].h { return k; } }
        t
    }

    pub fn destroy(&mut self, t: usize) {
        let t = self.resolve(t);
        let e = self.e[t];
        let y = y_live();
        let ok = self.r.destroy_entity(e.h);
        check(ok == e.live, "destroy succeeds exactly for live handles");
        if e.live {
            self.e[t].live = false;
            if e.mask & MD != 0 { check(ledger(e.serial) == 2, "destroying an entity drops its components"); }
        }
        check(y_live() == y - (e.live && e.mask & MY != 0) as u32, "destroying an entity drops exactly its own components");
    }
    pub fn remove<G: Grp>(&mut self, t: usize) {
        let t = self.resolve(t);
        let e = self.e[t];
        let y = y_live();
        match self.r.remove_entity::<G>(e.h) {
            Some(g) => {
                check(e.live && e.mask == G::MASK, "remove_entity succeeds only for a live handle with exactly the group's components");
                check(g.same(&e.val), "remove_entity returns the current values");
                if e.mask & MD != 0 { check(ledger(e.serial) == 1 && g.serial() == e.serial, "remove_entity hands the values back undropped"); }
                check(y_live() == y, "remove_entity drops nothing");
                self.e[t].live = false;
                drop(g);
                if e.mask & MD != 0 { check(ledger(e.serial) == 2, "a removed value is dropped by its new owner"); }
            }
            None => { check(!(e.live && e.mask == G::MASK), "remove_entity succeeds for a live handle with exactly the group's components"); check(y_live() == y, "a failed remove_entity drops nothing"); }
        }
    }
    pub fn add<T: Cp + Grp>(&mut self, t: usize) {
        let t = self.resolve(t);
        let e = self.e[t];
        let v = fresh::<T>();
        let c = <T as Cp>::mk(v);
        let s = c.serial();
        let y = y_live();
        match self.r.add_component(e.h, c) {
            Ok(()) => {
                check(e.live && e.mask & T::M == 0 && e.mask.count_ones() < 14, "add_component succeeds only on live entities lacking the component");
                self.e[t].mask |= T::M;
                self.e[t].val[T::IX] = v;
                if T::M == MD { self.e[t].serial = s; check(ledger(s) == 1, "an added value is not dropped"); }
                check(y_live() == y, "adding a component drops nothing");
            }
            Err(c) => {
                check(!(e.live && e.mask & T::M == 0 && e.mask.count_ones() < 14), "add_component succeeds on live entities lacking the component");
                check(c.rd() == v, "a failed add_component hands the value back");
                if T::M == MD { check(ledger(s) == 1 && c.serial() == s, "a failed add_component hands the value back undropped"); }
                check(y_live() == y, "a failed add_component drops nothing");
            }
        }
    }
    pub fn del<T: Cp + Grp>(&mut self, t: usize) {
        let t = self.resolve(t);
        let e = self.e[t];
        let can = e.live && e.mask & T::M != 0 && e.mask != T::M;
        let y = y_live();
        match self.r.remove_component::<T>(e.h) {
            Ok(c) => {
                check(can, "remove_component succeeds only if the component is present and not the last one");
                check(c.rd() == e.val[T::IX], "remove_component yields the current value");
                if T::M == MD { check(ledger(e.serial) == 1 && c.serial() == e.serial, "remove_component hands the value back undropped"); }
                check(y_live() == y, "remove_component drops nothing");
                self.e[t].mask &= !T::M;
            }
            Err(()) => { check(!can, "remove_component succeeds if the component is present and not the last one"); check(y_live() == y, "a failed remove_component drops nothing"); }
        }
    }
    pub fn write<T: Cp>(&mut self, t: usize) {
        let t = self.resolve(t);
        let e = self.e[t];
        let v = fresh::<T>();
        match self.r.get_component_mut::<T>(e.h) {
            Some(c) => {
                check(e.live && e.mask & T::M != 0, "get_component_mut answers only for present components of live entities");
                check(c.rd() == e.val[T::IX], "get_component_mut shows the current value");
                c.put(v);
                self.e[t].val[T::IX] = v;
            }
            None => check(!(e.live && e.mask & T::M != 0), "get_component_mut answers for present components of live entities"),
        }
    }
    pub fn write_group<G: Grp>(&mut self, t: usize) {
        let t = self.resolve(t);
        let e = self.e[t];
        let mut v = e.val;
        G::fresh_all(&mut v);
        match self.r.get_components_mut::<G>(e.h) {
            Some(c) => {
                check(e.live && e.mask & G::MASK == G::MASK, "get_components_mut answers only for live entities with all components");
                check(G::same_mut(&c, &e.val), "get_components_mut shows the current values in tuple order");
                G::put_all(c, &v);
                self.e[t].val = v;
            }
            None => check(!(e.live && e.mask & G::MASK == G::MASK), "get_components_mut answers for live entities with all components"),
        }
    }
    // ---------- verification against the model ----------
    pub fn check_one<T: Cp>(&self, t: usize) {
        let e = &self.e[t];
        let has = e.live && e.mask & T::M != 0;
        check(self.r.has_component::<T>(e.h) == has, "has_component answers by the component set");
        match self.r.get_component::<T>(e.h) {
            Some(c) => { check(has, "get_component answers only for present components of live entities"); let v = c.rd(); check(v == e.val[T::IX], "get_component returns the most recently written value"); log(v); }
            None => check(!has, "get_component answers for present components of live entities"),
        }
    }
    pub fn check_group<G: Grp>(&self, t: usize) {
        let e = &self.e[t];
        let has = e.live && e.mask & G::MASK == G::MASK;
        check(self.r.has_components::<G>(e.h) == has, "has_components answers by the component set");
        match self.r.get_components::<G>(e.h) {
            Some(c) => { check(has, "get_components answers only for live entities with all components"); check(G::same_ref(c, &e.val), "get_components returns the current values in tuple order"); }
            None => check(!has, "get_components answers for live entities with all components"),
        }
    }
    pub fn check_entity(&self, t: usize) {
        if self.resolve(t) != t { return; }
        self.check_one::<A>(t);
        self.check_one::<B>(t);
        self.check_one::<C>(t);
        self.check_one::<Z>(t);
        self.check_one::<O>(t);
        self.check_one::<D>(t);
        self.check_one::<Y>(t);
    }
    /// the wide component types
    pub fn check_wide(&self, t: usize) {
        if self.resolve(t) != t { return; }
        macro_rules! f { ($k:literal $T:ident) => { self.check_one::<crate::wide::$T>(t); } }
        crate::each_w!(f);
        f!(14 W14);
    }
    /// the types of sets with coinciding hashes
    pub fn check_coll(&self, t: usize) {
        if self.resolve(t) != t { return; }
        macro_rules! f { ($($T:ident)*) => { $( self.check_one::<crate::wide::$T>(t); )* } }
        f!(K0 K1 K2 K3 K4 K5 K6 K7 K8 K9 W13);
    }
    pub fn check_all(&self) { for t in 0..self.n { self.check_entity(t); } }
    pub fn check_groups(&self) { for t in 0..self.n { self.check_groups_of(t); } }
    pub fn check_groups_of(&self, t: usize) {
        if self.resolve(t) != t { return; }
        self.check_group::<(A, B)>(t);
        self.check_group::<(B, A, D)>(t);
        self.check_group::<(D, A)>(t);
        self.check_group::<(Z, C)>(t);
        self.check_group::<(A, Z, D, O)>(t);
        self.check_group::<(D, Y, A)>(t);
        self.check_group::<(B, Z, A, D, O, C)>(t);
    }
    pub fn live(&self) -> usize { let mut c = 0; for k in 0..self.n { c += self.e[k].live as usize; } c }
    pub fn index_of(&self, h: Entity) -> usize { index_of(&self.e[..self.n], h) }
    pub fn check_enumeration(&self) {
        let mut seen = [false; N];
        let mut n = 0;
        for h in self.r.iter_entities() {
            let k = self.index_of(h);
            check(!seen[k], "enumeration yields each live handle once");
            check(h.raw() == self.e[k].h.raw(), "enumeration yields the very handle that creation returned");
            seen[k] = true;
            n += 1;
        }
        check(n == self.live(), "enumeration yields every live handle");
        for k in 0..self.n { check(seen[k] == self.e[k].live, "enumeration yields exactly the live handles"); }
    }
    /// Whole observable state: components, groups, enumeration, iteration.
    pub fn check_state(&mut self) {
        self.check_all();
        self.check_groups();
        self.check_enumeration();
        self.check_rows();
    }
    /// Matching iteration over single component types with handles.
    pub fn check_rows(&mut self) {
        crate::iter::matching::<A, N>(self, 1, &crate::iter::Filt::all());
        crate::iter::matching::<B, N>(self, 1, &crate::iter::Filt::all());
        crate::iter::matching::<C, N>(self, 1, &crate::iter::Filt::all());
        crate::iter::matching::<Z, N>(self, 1, &crate::iter::Filt::all());
        crate::iter::matching::<D, N>(self, 1, &crate::iter::Filt::all());
    }
    /// No value is dropped while stored, none is alive that is neither stored nor handed back.
    pub fn check_ledger(&self) {
        let (mut d, mut y) = (0, 0);
        for k in 0..self.n {
            if self.e[k].live && self.e[k].mask & MD != 0 { d += 1; check(ledger(self.e[k].serial) == 1, "stored values are not dropped while the registry lives"); }
            if self.e[k].live && self.e[k].mask & MY != 0 { y += 1; }
        }
        let mut a = 0;
        for s in 0..ledger_next() { if ledger(s) == 1 { a += 1; } }
        check(a == d, "every value that is no longer stored has been dropped or handed back");
        check(y_live() == y, "every zero-sized value that is no longer stored has been dropped or handed back");
        for i in 0..crate::wide::NW {
            let (mut n, mut s) = (0, 0u64);
            for k in 0..self.n { if self.e[k].live && self.e[k].mask >> (NB + i) & 1 != 0 { n += 1; s = s.wrapping_add(self.e[k].val[NB + i]); } }
            check(unsafe { crate::wide::WLIVE[i] == n && crate::wide::WSUM[i] == s }, "exactly the values that are no longer stored have been dropped or handed back");
        }
    }
    /// Drops the registry and checks the fate of every tracked value and every allocation.
    pub fn finish(self) {
        let World { r, e, n } = self;
        for k in 0..n { if e[k].live && e[k].mask & MD != 0 { check(ledger(e[k].serial) == 1, "stored values are not dropped while the registry lives"); } }
        drop(r);
        for s in 0..ledger_next() { check(ledger(s) == 2, "every value is dropped or handed back by the time the registry is dropped"); }
        check(y_live() == 0, "every zero-sized value is dropped or handed back by the time the registry is dropped");
        for i in 0..crate::wide::NW { check(unsafe { crate::wide::WLIVE[i] } == 0, "every value is dropped or handed back by the time the registry is dropped"); }
    }
}
pub fn index_of(e: &[Ent], h: Entity) -> usize {
    for k in 0..e.len() { if e[k].live && e[k].h == h { return k; } }
    check(false, "only live handles are yielded");
    0
}
