//! Entities with up to 14 components of mixed sizes, with ids out of tuple order.
use crate::sym::*;
use crate::world::*;
use shard_ecs::*;

pub const NW: usize = 25;
/// live values of every wide type, and their sum
pub static mut WLIVE: [u32; NW] = [0; NW];
pub static mut WSUM: [u64; NW] = [0; NW];
macro_rules! wide { ($($T:ident $k:literal $t:ty, $bits:expr, $id:expr, $al:expr;)*) => { $(
    #[repr(align($al))]
    pub struct $T(pub $t);
    impl Component for $T { const NAME: &'static str = stringify!($T); const ID: ComponentTypeId = ComponentTypeId::from_u16($id); }
    impl Cp for $T { const IX: usize = NB + $k; const BITS: u32 = $bits;
        fn mk(v: u64) -> Self { unsafe { WLIVE[$k] += 1; WSUM[$k] = WSUM[$k].wrapping_add(v as $t as u64); } $T(v as $t) }
        fn rd(&self) -> u64 { self.0 as u64 }
        fn put(&mut self, v: u64) { unsafe { WSUM[$k] = WSUM[$k].wrapping_sub(self.0 as u64).wrapping_add(v as $t as u64); } self.0 = v as $t } }
    impl Drop for $T { fn drop(&mut self) { unsafe { check(WLIVE[$k] > 0, "a value is dropped at most once"); WLIVE[$k] -= 1; WSUM[$k] = WSUM[$k].wrapping_sub(self.0 as u64); } } }
)* } }
wide! { W0 0 u8, 8, 700, 1; W1 1 u64, 64, 20, 8; W2 2 u16, 16, 65000, 2; W3 3 u32, 32, 5, 4; W4 4 u8, 8, 301, 1; W5 5 u64, 64, 256, 8; W6 6 u16, 16, 255, 32;
        W7 7 u32, 32, 1, 4; W8 8 u8, 8, 0, 1; W9 9 u16, 16, 32768, 2; W10 10 u64, 64, 513, 16; W11 11 u32, 32, 401, 4; W12 12 u8, 8, 39, 1; W13 13 u16, 16, 65534, 2; W14 14 u32, 32, 7777, 4;
        K0 15 u16, 16, 1291, 2; K1 16 u64, 64, 1295, 8; K2 17 u8, 8, 1234, 1; K3 18 u32, 32, 60486, 4; K4 19 u16, 16, 15230, 2; K5 20 u8, 8, 2002, 1; K6 21 u32, 32, 9189, 16; K7 22 u8, 8, 9, 1; K8 23 u32, 32, 32013, 4; K9 24 u64, 64, 19538, 8; }
pub type All = (W0, W1, W2, W3, W4, W5, W6, W7, W8, W9, W10, W11, W12, W13);
pub type Rev = (W13, W12, W11, W10, W9, W8, W7, W6, W5, W4, W3, W2, W1, W0);
pub type Mix = (W7, W2, W12, W0, W9, W4, W13, W1, W10, W3, W8, W5, W11, W6);
pub type Thirteen = (W1, W0, W2, W4, W3, W5, W6, W12, W7, W8, W10, W9, W11);

#[macro_export]
macro_rules! each_w { ($m:ident) => { $m!(0 W0); $m!(1 W1); $m!(2 W2); $m!(3 W3); $m!(4 W4); $m!(5 W5); $m!(6 W6); $m!(7 W7); $m!(8 W8); $m!(9 W9); $m!(10 W10); $m!(11 W11); $m!(12 W12); $m!(13 W13); } }

#[derive(Clone, Copy)]
pub struct WEnt { pub h: Entity, pub live: bool, pub mask: u32, pub v: [u64; 15] }
pub struct Wide { pub r: Registry, pub e: [WEnt; 4], pub n: usize }

macro_rules! tuple { ($v:expr; $($T:ident $i:expr),*) => { ($($T::mk($v[$i])),*) } }
macro_rules! tuple_ok { ($c:expr, $v:expr; $($p:ident $i:expr),*) => {{ let ($($p),*) = $c; true $(& ($p.rd() == $v[$i]))* }} }

impl Wide {
    pub fn new() -> Self { Wide { r: Registry::default(), e: [WEnt { h: Entity::INVALID, live: false, mask: 0, v: [0; 15] }; 4], n: 0 } }
    fn fresh() -> [u64; 15] { let mut v = [0; 15]; macro_rules! f { ($i:expr, $T:ident) => { v[$i] = any(<$T as Cp>::BITS); }; ($i:literal $T:ident) => { v[$i] = any(<$T as Cp>::BITS); } } each_w!(f); v }
    fn put(&mut self, h: Option<Entity>, mask: u32, v: [u64; 15]) -> usize {
        match h { Some(h) => { self.e[self.n] = WEnt { h, live: true, mask, v }; self.n += 1; } None => check(false, "creating an entity of up to 14 distinct component types succeeds") }
        self.n - 1
    }
    pub fn all(&mut self) -> usize { let v = Self::fresh(); let g: All = tuple!(v; W0 0, W1 1, W2 2, W3 3, W4 4, W5 5, W6 6, W7 7, W8 8, W9 9, W10 10, W11 11, W12 12, W13 13); let h = self.r.create_entity(g).ok(); self.put(h, 0x3fff, v) }
    pub fn mix(&mut self) -> usize { let v = Self::fresh(); let g: Mix = tuple!(v; W7 7, W2 2, W12 12, W0 0, W9 9, W4 4, W13 13, W1 1, W10 10, W3 3, W8 8, W5 5, W11 11, W6 6); let h = self.r.create_entity(g).ok(); self.put(h, 0x3fff, v) }
    pub fn thirteen(&mut self) -> usize { let v = Self::fresh(); let g: Thirteen = tuple!(v; W1 1, W0 0, W2 2, W4 4, W3 3, W5 5, W6 6, W12 12, W7 7, W8 8, W10 10, W9 9, W11 11); let h = self.r.create_entity(g).ok(); self.put(h, 0x1fff, v) }
    pub fn one(&mut self) -> usize { let v = Self::fresh(); let h = self.r.create_entity(W5::mk(v[5])).ok(); self.put(h, 1 << 5, v) }
    pub fn add(&mut self, t: usize, i: usize) {
        let e = self.e[t];
        let can = e.live && e.mask >> i & 1 == 0 && e.mask.count_ones() < 14;
        macro_rules! f { ($k:literal $T:ident) => { if i == $k {
            let v = any(<$T as Cp>::BITS);
            match self.r.add_component(e.h, <$T as Cp>::mk(v)) {
                Ok(()) => { check(can, "adding succeeds only if live, absent and below 14 components"); self.e[t].mask |= 1 << i; self.e[t].v[i] = v; }
                Err(c) => { check(!can, "adding succeeds if live, absent and below 14 components"); check(c.rd() == v, "a failed add hands the value back"); }
            }
        } } }
        each_w!(f);
        f!(14 W14);
    }
    pub fn del(&mut self, t: usize, i: usize) {
        let e = self.e[t];
        let can = e.live && e.mask >> i & 1 == 1 && e.mask.count_ones() > 1;
        macro_rules! f { ($k:literal $T:ident) => { if i == $k {
            match self.r.remove_component::<$T>(e.h) {
                Ok(c) => { check(can, "removing succeeds only if live, present and not the last component"); check(c.rd() == e.v[i], "removing yields the current value"); self.e[t].mask &= !(1 << i); }
                Err(()) => check(!can, "removing succeeds if live, present and not the last component"),
            }
        } } }
        each_w!(f);
        f!(14 W14);
    }
    pub fn destroy(&mut self, t: usize) { let l = self.e[t].live; check(self.r.destroy_entity(self.e[t].h) == l, "destroying succeeds exactly for live handles"); self.e[t].live = false; }
    /// removes by a full tuple
    pub fn remove_rev(&mut self, t: usize) {
        let e = self.e[t];
        match self.r.remove_entity::<Rev>(e.h) {
            Some(g) => {
                check(e.live && e.mask == 0x3fff, "removal by tuple only on an exact match");
                check(tuple_ok!(&g, e.v; m 13, l 12, k 11, j 10, i 9, h 8, g 7, f 6, e5 5, d 4, c 3, b 2, a 1, z 0), "removal yields the values in tuple order");
                self.e[t].live = false;
            }
            None => check(!(e.live && e.mask == 0x3fff), "removal by tuple on an exact match"),
        }
    }
    pub fn write_mix(&mut self, t: usize) {
        let e = self.e[t];
        if let Some(c) = self.r.get_components_mut::<(W6, W1, W13, W8)>(e.h) {
            let v = Self::fresh();
            c.0.put(v[6]); c.1.put(v[1]); c.2.put(v[13]); c.3.put(v[8]);
            for i in [6, 1, 13, 8] { self.e[t].v[i] = v[i]; }
            check(e.live && e.mask & 0x2142 == 0x2142, "tuple access only if all components are present");
        } else { check(!(e.live && e.mask & 0x2142 == 0x2142), "tuple access if all components are present"); }
    }
    pub fn check_all(&self) {
        for t in 0..self.n {
            let e = self.e[t];
            macro_rules! f { ($k:literal $T:ident) => {
                let has = e.live && e.mask >> $k & 1 == 1;
                check(self.r.has_component::<$T>(e.h) == has, "has_component answers by the component set");
                match self.r.get_component::<$T>(e.h) { Some(c) => { check(has, "get_component answers by the component set"); check(c.rd() == e.v[$k], "get_component returns the most recently written value"); } None => check(!has, "get_component answers by the component set") }
            } }
            each_w!(f);
            f!(14 W14);
            let full = e.live && e.mask == 0x3fff;
            check(self.r.has_components::<Mix>(e.h) == full, "has_components answers by the component set");
            match self.r.get_components::<Rev>(e.h) {
                Some(g) => { check(full, "get_components answers by the component set"); check(tuple_ok!(g, e.v; m 13, l 12, k 11, j 10, i 9, h 8, g 7, f 6, e5 5, d 4, c 3, b 2, a 1, z 0), "get_components returns the current values in tuple order"); }
                None => check(!full, "get_components answers by the component set"),
            }
            match self.r.get_components::<(W13, W3, W10)>(e.h) {
                Some((a, b, c)) => { check(e.live && e.mask & 0x2408 == 0x2408, "get_components answers by the component set"); check(a.rd() == e.v[13] && b.rd() == e.v[3] && c.rd() == e.v[10], "get_components returns the current values in tuple order"); }
                None => check(!(e.live && e.mask & 0x2408 == 0x2408), "get_components answers by the component set"),
            }
        }
    }
    pub fn check_exact(&mut self) {
        let (hs, s) = self.r.iter_entity_components_exact::<Mix>();
        let mut want = 0;
        for t in 0..self.n { if self.e[t].live && self.e[t].mask == 0x3fff { want += 1; } }
        check(hs.len() == want && s.0.len() == want && s.13.len() == want, "exact iteration yields all entities of the component set");
        for i in 0..hs.len() {
            let mut k = self.n;
            for t in 0..self.n { if self.e[t].live && self.e[t].h == hs[i] { k = t; } }
            check(k < self.n, "only live handles are yielded");
            let v = self.e[k].v;
            check(s.0[i].rd() == v[7] && s.1[i].rd() == v[2] && s.2[i].rd() == v[12] && s.3[i].rd() == v[0] && s.4[i].rd() == v[9] && s.5[i].rd() == v[4] && s.6[i].rd() == v[13], "values at the position of the handle");
            check(s.7[i].rd() == v[1] && s.8[i].rd() == v[10] && s.9[i].rd() == v[3] && s.10[i].rd() == v[8] && s.11[i].rd() == v[5] && s.12[i].rd() == v[11] && s.13[i].rd() == v[6], "values at the position of the handle");
        }
    }
}
