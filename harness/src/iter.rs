//! All iteration variants, checked against the model.
use crate::sym::*;
use crate::world::*;
use core::cell::Cell;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::*;

/// Component mask of a descriptor, read from its component ids.
pub fn mask_of(d: &ArchetypeDescriptor) -> u32 {
    let mut m = 0;
    for c in d.components() {
        let id = c.component_type_id();
        if id == <A as Component>::ID { m |= MA }
        if id == <B as Component>::ID { m |= MB }
        if id == <C as Component>::ID { m |= MC }
        if id == <Z as Component>::ID { m |= MZ }
        if id == <O as Component>::ID { m |= MO }
        if id == <D as Component>::ID { m |= MD }
        if id == <Y as Component>::ID { m |= MY }
        macro_rules! f { ($k:literal $T:ident) => { if id == <crate::wide::$T as Component>::ID { m |= 1 << (NB + $k) } } }
        crate::each_w!(f);
        f!(14 W14); f!(15 K0); f!(16 K1); f!(17 K2); f!(18 K3); f!(19 K4); f!(20 K5); f!(21 K6); f!(22 K7); f!(23 K8); f!(24 K9);
    }
    m
}
/// A predicate on component sets: all of them, those with an odd number of the given types, or an arbitrary one (one symbolic
/// bit for every set it is asked about).
pub struct Filt { kind: u32, table: [Cell<u64>; 64] }
impl Filt {
    pub fn all() -> Self { Filt { kind: 0, table: [const { Cell::new(0) }; 64] } }
    pub fn odd(m: u32) -> Self { Filt { kind: m, table: [const { Cell::new(0) }; 64] } }
    pub fn any() -> Self { Filt { kind: u32::MAX, table: [const { Cell::new(0) }; 64] } }
    pub fn ok(&self, m: u32) -> bool {
        if self.kind == 0 { return true; }
        if self.kind != u32::MAX { return (m & self.kind).count_ones() & 1 == 1; }
        let mut i = 0;
        while self.table[i].get() != 0 { if self.table[i].get() >> 1 == m as u64 { return self.table[i].get() & 1 == 1; } i += 1; }
        let b = split(any(1) as u32);
        self.table[i].set((m as u64) << 1 | b as u64);
        b == 1
    }
}

struct Track<'x, const N: usize> { e: &'x [Ent; N], n: usize, addr: &'x [[usize; NC]; N], seen: [bool; N], rows: usize, mask: u32, exact: bool }
impl<'x, const N: usize> Track<'x, N> {
    fn wanted(&self, k: usize) -> bool { let e = &self.e[k]; e.live && if self.exact { e.mask == self.mask } else { e.mask & self.mask == self.mask } }
    fn visit(&mut self, k: usize) {
        check(self.wanted(k), "iteration visits only matching entities");
        check(!self.seen[k], "iteration visits an entity at most once");
        self.seen[k] = true;
        self.rows += 1;
    }
    /// entity of an anonymous row, identified by its address
    fn find(&self, at: impl Fn(&[usize; NC]) -> bool) -> Option<usize> {
        for k in 0..self.n { if self.wanted(k) && !self.seen[k] && at(&self.addr[k]) { return Some(k); } }
        None
    }
    fn chunk<G: Grp>(&mut self, es: Option<&[Entity]>, s: &G::SliceRefTuple<'_>) {
        let len = match es { Some(x) => x.len(), None => G::len0(s) };
        check(G::lens(s, len), "all slices of a chunk have equal length");
        for i in 0..len {
            let k = match es { Some(x) => index_of(&self.e[..self.n], x[i]), None => match self.find(|a| G::row_at(s, i, a)) { Some(k) => k, None => { check(false, "every visited row is that of a matching entity not visited before"); return; } } };
            self.visit(k);
            check(G::row_at(s, i, &self.addr[k]), "every position of a chunk is the storage of one and the same entity");
            check(G::row(s, i, &self.e[k].val), "iteration yields the current values in tuple order");
        }
    }
    fn chunk_mut<G: Grp>(&mut self, es: Option<&[Entity]>, s: &mut G::SliceMutRefTuple<'_>, new: &mut [Ent; N]) {
        let len = match es { Some(x) => x.len(), None => G::len0_mut(s) };
        check(G::lens_mut(s, len), "all slices of a chunk have equal length");
        for i in 0..len {
            let k = match es { Some(x) => index_of(&self.e[..self.n], x[i]), None => match self.find(|a| G::row_at_mut(s, i, a)) { Some(k) => k, None => { check(false, "every visited row is that of a matching entity not visited before"); return; } } };
            self.visit(k);
            check(G::row_at_mut(s, i, &self.addr[k]), "every position of a chunk is the storage of one and the same entity");
            check(G::row_mut(s, i, &self.e[k].val), "iteration yields the current values in tuple order");
            G::fresh_all(&mut new[k].val);
            G::row_put(s, i, &new[k].val);
        }
    }
    fn complete(&self, f: &Filt) {
        let mut want = 0;
        for k in 0..self.n { if self.wanted(k) && f.ok(self.e[k].mask) { want += 1; check(self.seen[k], "iteration visits every matching entity"); } }
        check(self.rows == want, "iteration visits exactly the matching entities");
    }
}

fn addresses<G: Grp, const N: usize>(w: &World<N>) -> [[usize; NC]; N] {
    let mut a = [[0; NC]; N];
    for k in 0..w.n { if w.e[k].live && w.e[k].mask & G::MASK == G::MASK { check(G::addrs(&w.r, w.e[k].h, &mut a[k]), "components of a live entity are accessible"); } }
    a
}
const MAXC: usize = 330;

/// variant: bit 0 with handles, bit 1 mutable, bit 2 filtered
pub fn matching<G: Grp, const N: usize>(w: &mut World<N>, variant: u32, f: &Filt) {
    let addr = addresses::<G, N>(w);
    let e = w.e;
    let mut new = e;
    let n = w.n;
    let mut t = Track { e: &e, n, addr: &addr, seen: [false; N], rows: 0, mask: G::MASK, exact: false };
    let fc = |d: &ArchetypeDescriptor| f.ok(mask_of(d));
    macro_rules! shared { ($it:expr, $x:ident => $es:expr, $s:expr) => {{ let mut it = $it; while let Some($x) = it.next() { t.chunk::<G>($es, $s); } check(it.next().is_none(), "a finished iteration stays finished"); }}; }
    macro_rules! mutable { ($it:expr, $x:ident => $es:expr, $s:expr) => {{
        let mut c = [const { None }; MAXC];
        let mut k = 0;
        let mut it = $it;
        while let Some(x) = it.next() { check(k < MAXC, "number of chunks"); c[k] = Some(x); k += 1; }
        check(it.next().is_none(), "a finished iteration stays finished");
        drop(it);
        for $x in c[..k].iter_mut().flatten() { t.chunk_mut::<G>($es, $s, &mut new); }
    }}; }
    match variant {
        0 => shared!(w.r.iter_components_matching::<G>(), x => None, &x),
        1 => shared!(w.r.iter_entity_components_matching::<G>(), x => Some(x.0), &x.1),
        2 => mutable!(w.r.iter_components_matching_mut::<G>(), x => None, x),
        3 => mutable!(w.r.iter_entity_components_matching_mut::<G>(), x => Some(x.0), &mut x.1),
        4 => shared!(w.r.iter_filtered_components_matching::<G, _>(fc), x => None, &x),
        5 => shared!(w.r.iter_filtered_entity_components_matching::<G, _>(fc), x => Some(x.0), &x.1),
        6 => mutable!(w.r.iter_filtered_components_matching_mut::<G, _>(fc), x => None, x),
        _ => mutable!(w.r.iter_filtered_entity_components_matching_mut::<G, _>(fc), x => Some(x.0), &mut x.1),
    }
    t.complete(f);
    w.e = new;
}
/// variant: bit 0 with handles, bit 1 mutable
pub fn exact<G: Grp, const N: usize>(w: &mut World<N>, variant: u32) {
    let addr = addresses::<G, N>(w);
    let e = w.e;
    let mut new = e;
    let n = w.n;
    let mut t = Track { e: &e, n, addr: &addr, seen: [false; N], rows: 0, mask: G::MASK, exact: true };
    match variant {
        0 => { let s = w.r.iter_components_exact::<G>(); t.chunk::<G>(None, &s); }
        1 => { let (h, s) = w.r.iter_entity_components_exact::<G>(); t.chunk::<G>(Some(h), &s); }
        2 => { let mut s = w.r.iter_components_exact_mut::<G>(); t.chunk_mut::<G>(None, &mut s, &mut new); }
        _ => { let (h, mut s) = w.r.iter_entity_components_exact_mut::<G>(); t.chunk_mut::<G>(Some(h), &mut s, &mut new); }
    }
    t.complete(&Filt::all());
    w.e = new;
}
