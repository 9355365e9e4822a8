//! A registry with tens of thousands of entities, and a light model of it.
use crate::sym::*;
use crate::world::*;
use shard_ecs::*;

pub const M: usize = 66000;
/// component sets an entity can have here: (A, B), (A, B, C), A, or none (dead)
pub const AB: u8 = 0;
pub const ABC: u8 = 1;
pub const JA: u8 = 2;
pub const GONE: u8 = 3;
/// entity k carries A(k), B(val\[k\]) and C(k % 2^24)
pub struct Big { pub r: Registry, pub n: usize, pub h: [Entity; M], pub val: [u64; M], pub kind: [u8; M] }
impl Big {
    pub fn new() -> Self { Big { r: Registry::default(), n: 0, h: [Entity::INVALID; M], val: [0; M], kind: [GONE; M] } }
    pub fn create(&mut self, v: u64) -> usize {
        let k = self.n;
        let h = if k % 2 == 0 { self.r.create_entity((A(k as u32), B(v))).ok() } else { self.r.create_entity((B(v), A(k as u32))).ok() };
        match h { Some(h) => self.h[k] = h, None => check(false, "creation succeeds") }
        self.val[k] = v;
        self.kind[k] = AB;
        self.n += 1;
        k
    }
    pub fn fill(&mut self, n: usize) { for k in 0..n { self.create(0x1_0000_0000 * (k as u64 % 7) + k as u64); } }
    pub fn destroy(&mut self, k: usize) { check(self.r.destroy_entity(self.h[k]) == (self.kind[k] != GONE), "destroying succeeds exactly for live handles"); self.kind[k] = GONE; }
    pub fn remove(&mut self, k: usize) {
        match self.r.remove_entity::<(B, A)>(self.h[k]) {
            Some((b, a)) => { check(self.kind[k] == AB, "removal by tuple only on an exact match"); check(a.0 == k as u32 && b.0 == self.val[k], "removal yields the current values"); self.kind[k] = GONE; }
            None => check(self.kind[k] != AB, "removal by tuple on an exact match"),
        }
    }
    pub fn add(&mut self, k: usize) {
        match self.r.add_component(self.h[k], C::mk(k as u64)) { Ok(()) => { check(self.kind[k] == AB || self.kind[k] == JA, "adding an absent component"); self.kind[k] = ABC; } Err(_) => check(self.kind[k] != AB, "adding succeeds") }
    }
    pub fn del(&mut self, k: usize) {
        match self.r.remove_component::<B>(self.h[k]) { Ok(b) => { check(self.kind[k] == AB, "removing a present component"); check(b.0 == self.val[k], "removing yields the current value"); self.kind[k] = JA; } Err(()) => check(self.kind[k] != AB, "removing succeeds") }
    }
    pub fn write(&mut self, k: usize, v: u64) {
        match self.r.get_components_mut::<(B, A)>(self.h[k]) { Some((b, _)) => { check(self.kind[k] < JA, "components are accessible by the component set"); b.0 = v; self.val[k] = v; } None => check(self.kind[k] >= JA, "components are accessible") }
    }
    pub fn step(&mut self, k: usize) {
        let v = any_u64();
        match pick(6) { 0 => self.destroy(k), 1 => self.remove(k), 2 => self.add(k), 3 => self.del(k), 4 => self.write(k, v), _ => { self.create(v); } }
    }
    /// the first, last and an entity in between
    pub fn spot(&self) -> usize { let n = self.n; [0, n - 1, n - 256][pick(3) as usize] }
    pub fn check_values(&self) {
        for k in 0..self.n {
            let s = self.kind[k];
            check(self.r.get_component::<A>(self.h[k]).is_some_and(|a| a.0 == k as u32) == (s != GONE), "get_component returns the most recently written value");
            check(self.r.get_component::<B>(self.h[k]).is_some_and(|b| b.0 == self.val[k]) == (s < JA), "get_component returns the most recently written value");
            check(self.r.has_component::<C>(self.h[k]) == (s == ABC), "has_component answers by the component set");
        }
        for k in [0, self.n / 2, self.n - 1] { match self.r.get_components::<(C, A)>(self.h[k]) { Some((c, a)) => check(self.kind[k] == ABC && c.rd() == k as u64 & 0xFF_FFFF && a.0 == k as u32, "get_components returns the current values"), None => check(self.kind[k] != ABC, "get_components answers by the component set") } }
    }
    pub fn check_enumeration(&self) {
        let (mut n, mut live) = (0, 0);
        let mut seen = [false; M];
        // the slot numbers of live handles are distinct
        let mut at = [usize::MAX; M];
        for k in 0..self.n { if self.kind[k] != GONE { live += 1; let i = self.h[k].index() as usize; check(i < M && at[i] == usize::MAX, "live handles are distinct"); at[i] = k; } }
        for h in self.r.iter_entities() {
            let i = h.index() as usize;
            check(i < M && at[i] != usize::MAX && self.h[at[i]] == h, "only live handles are enumerated");
            check(!seen[i], "every live handle is enumerated once");
            seen[i] = true;
            n += 1;
        }
        check(n == live, "every live handle is enumerated");
    }
    fn row(&self, seen: &mut [bool; M], h: Option<Entity>, a: u32, b: u64) {
        let k = a as usize;
        check(k < self.n && self.kind[k] < JA && !seen[k], "every row is that of a matching entity not visited before");
        seen[k] = true;
        check(b == self.val[k], "iteration yields the current values");
        if let Some(h) = h { check(h == self.h[k], "the handle belongs to the row"); }
    }
    /// variants: bit 0 with handles, bit 1 mutable, bit 2 filtered, bit 3 exact
    pub fn check_iteration(&mut self, variant: u32) {
        let mut seen = [false; M];
        let exact = variant & 8 != 0;
        let mut rows = 0;
        let mut m = Registry::default();
        core::mem::swap(&mut self.r, &mut m);
        let f = |d: &archetype_descriptor::ArchetypeDescriptor| d.len() < 4;
        macro_rules! plain { ($a:expr, $b:expr) => {{ check($a.len() == $b.len(), "slices have equal lengths"); rows += $a.len(); for i in 0..$a.len() { self.row(&mut seen, None, $a[i].0, $b[i].0); } }} }
        macro_rules! with { ($e:expr, $a:expr, $b:expr) => {{ check($a.len() == $b.len() && $e.len() == $a.len(), "slices have equal lengths"); rows += $a.len(); for i in 0..$a.len() { self.row(&mut seen, Some($e[i]), $a[i].0, $b[i].0); } }} }
        match variant {
            0 => for (b, a) in m.iter_components_matching::<(B, A)>() { plain!(a, b) },
            1 => for (e, (a, b)) in m.iter_entity_components_matching::<(A, B)>() { with!(e, a, b) },
            2 => for (b, a) in m.iter_components_matching_mut::<(B, A)>() { plain!(a, b) },
            3 => for (e, (a, b)) in m.iter_entity_components_matching_mut::<(A, B)>() { with!(e, a, b) },
            4 => for (b, a) in m.iter_filtered_components_matching::<(B, A), _>(f) { plain!(a, b) },
            5 => for (e, (a, b)) in m.iter_filtered_entity_components_matching::<(A, B), _>(f) { with!(e, a, b) },
            6 => for (b, a) in m.iter_filtered_components_matching_mut::<(B, A), _>(f) { plain!(a, b) },
            7 => for (e, (a, b)) in m.iter_filtered_entity_components_matching_mut::<(A, B), _>(f) { with!(e, a, b) },
            8 => { let (b, a) = m.iter_components_exact::<(B, A)>(); plain!(a, b) }
            9 => { let (e, (b, a)) = m.iter_entity_components_exact::<(B, A)>(); with!(e, a, b) }
            10 => { let (a, b) = m.iter_components_exact_mut::<(A, B)>(); plain!(a, b) }
            _ => { let (e, (b, a)) = m.iter_entity_components_exact_mut::<(B, A)>(); with!(e, a, b) }
        }
        core::mem::swap(&mut self.r, &mut m);
        let mut want = 0;
        for k in 0..self.n { want += (if exact { self.kind[k] == AB } else { self.kind[k] < JA }) as usize; }
        check(rows == want, "iteration visits exactly the matching entities");
    }
}
