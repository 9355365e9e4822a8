use crate::sym::*;
use crate::sets::*;
use crate::wide::*;
use crate::world::*;
use shard_ecs::archetype::Archetype;
use shard_ecs::*;

#[derive(Clone, Copy)]
pub struct Row { pub h: u32, pub v: [u64; NC], pub serial: u32 }
const NONE: Row = Row { h: 0, v: [0; NC], serial: u32::MAX };
/// A storage of group G and its model: a sequence of rows.
pub struct Store<G: Grp, const N: usize> { pub a: Archetype, pub rows: [Row; N], pub n: usize, g: core::marker::PhantomData<G> }

impl<G: Grp, const N: usize> Store<G, N> {
    pub fn new(cap: u32) -> Self {
        let a = Archetype::with_capacity(G::DESCRIPTOR.archetype(), cap);
        check(a.len() == 0 && a.capacity() == if cap > MAX { 0 } else { cap }, "a storage starts empty with the requested capacity");
        Store { a, rows: [NONE; N], n: 0, g: core::marker::PhantomData }
    }
    fn fresh() -> (Row, G) {
        let mut r = NONE;
        r.h = any_u32();
        G::fresh_all(&mut r.v);
        let g = G::make(&r.v);
        r.serial = g.serial();
        (r, g)
    }
    pub fn push(&mut self) {
        let (r, g) = Self::fresh();
        let i = unsafe { self.a.push_entity_unchecked(Entity::from_raw(r.h), g) };
        check(i as usize == self.n, "pushing appends");
        self.rows[self.n] = r;
        self.n += 1;
    }
    pub fn push_raw(&mut self) {
        let (r, g) = Self::fresh();
        let i = unsafe { self.a.push_uninitialized_entity() };
        check(i as usize == self.n, "pushing appends");
        unsafe { self.a.write_entity_unchecked(i, Entity::from_raw(r.h), g) };
        self.rows[self.n] = r;
        self.n += 1;
    }
    fn alive(&self, i: usize, st: u8) { if G::MASK & MD != 0 { check(ledger(self.rows[i].serial) == st, "values are dropped exactly when their row is dropped"); } }
    fn out(&mut self, i: usize) { self.rows[i] = self.rows[self.n - 1]; self.n -= 1; }
    pub fn swap_drop(&mut self, i: usize) {
        let y = y_live();
        let moved = unsafe { self.a.swap_drop_unchecked(i as u32) };
        check(moved == (i + 1 != self.n), "removal reports whether the last row was moved");
        self.alive(i, 2);
        check(y_live() + (G::MASK & MY != 0) as u32 == y, "exactly the row's own values are dropped");
        self.out(i);
    }
    pub fn swap_remove(&mut self, i: usize) {
        let y = y_live();
        let (g, moved) = unsafe { self.a.swap_remove_unchecked::<G>(i as u32) };
        check(moved == (i + 1 != self.n), "removal reports whether the last row was moved");
        check(g.same(&self.rows[i].v) && g.serial() == self.rows[i].serial, "removal returns the row's values");
        self.alive(i, 1);
        check(y_live() == y, "removal drops nothing");
        drop(g);
        self.out(i);
    }
    pub fn swap_to_last(&mut self, i: usize) {
        let moved = unsafe { self.a.swap_to_last_unchecked(i as u32) };
        check(moved == (i + 1 != self.n), "moving a row to the end reports whether a move happened");
        self.rows.swap(i, self.n - 1);
    }
    pub fn swap(&mut self, i: usize, j: usize) { unsafe { self.a.swap_entities(i as u32, j as u32) }; self.rows.swap(i, j); }
    /// takes the values out, shrinks by hand
    pub fn take_last(&mut self) {
        let i = self.n - 1;
        let g: G = unsafe { self.a.read_components_exact_unchecked::<G>(i as u32) };
        check(g.same(&self.rows[i].v) && g.serial() == self.rows[i].serial, "reading a row yields its values");
        unsafe { self.a.decrement_len_unchecked() };
        self.n -= 1;
        drop(g);
    }
    /// replaces a whole row
    pub fn rewrite(&mut self, i: usize) {
        let old: G = unsafe { self.a.read_components_exact_unchecked::<G>(i as u32) };
        let (r, g) = Self::fresh();
        unsafe { self.a.write_entity_unchecked(i as u32, Entity::from_raw(r.h), g) };
        self.alive(i, 1);
        check(old.same(&self.rows[i].v), "values read before are independent of the row");
        drop(old);
        self.rows[i] = r;
    }
    /// replaces one component
    pub fn rewrite_one<T: Cp + Grp>(&mut self, i: usize) {
        if G::MASK & T::M == 0 { return; }
        let old: T = unsafe { self.a.read_component_unchecked::<T>(i as u32) };
        check(old.rd() == self.rows[i].v[T::IX], "reading a component yields its value");
        let v = fresh::<T>();
        let c = <T as Cp>::mk(v);
        let s = c.serial();
        unsafe { self.a.write_single_component_unchecked::<T>(i as u32, c) };
        drop(old);
        self.rows[i].v[T::IX] = v;
        if T::M == MD { self.rows[i].serial = s; }
    }
    /// writes through references
    pub fn put<T: Cp>(&mut self, i: usize) {
        if G::MASK & T::M == 0 { return; }
        let v = fresh::<T>();
        let r = unsafe { self.a.get_component_unchecked_mut::<T>(i as u32) };
        check(r.rd() == self.rows[i].v[T::IX], "a mutable reference shows the value");
        r.put(v);
        self.rows[i].v[T::IX] = v;
    }
    pub fn put_group(&mut self, i: usize) {
        let mut v = self.rows[i].v;
        G::fresh_all(&mut v);
        let r = unsafe { self.a.get_fuzzy_components_unchecked_mut::<G>(i as u32) };
        check(G::same_mut(&r, &self.rows[i].v), "mutable references show the values");
        G::put_all(r, &v);
        self.rows[i].v = v;
    }
    pub fn put_handle(&mut self, i: usize) {
        let h = any_u32();
        check(self.a.entities_mut().len() == self.n, "one handle per row");
        self.a.entities_mut()[i] = unsafe { Entity::from_raw(h) };
        self.rows[i].h = h;
    }
    fn one<T: Cp>(&self, i: usize) {
        if G::MASK & T::M == 0 { return; }
        let r = unsafe { self.a.get_component_unchecked::<T>(i as u32) };
        check(r.rd() == self.rows[i].v[T::IX], "a component has the value last written to its row");
    }
    pub fn check_len(&self) {
        check(self.a.len() as usize == self.n && self.a.entities().len() == self.n, "the length is the number of rows");
        check(self.a.capacity() >= self.a.len(), "capacity is never below the length");
        check(self.a.is_full() == (self.a.len() == self.a.capacity()), "a storage is full when all capacity is used");
    }
    pub fn check_row(&self, i: usize) {
        check(self.a.entities()[i].raw() == self.rows[i].h, "a row keeps its handle");
        self.one::<A>(i);
        self.one::<B>(i);
        self.one::<C>(i);
        self.one::<Z>(i);
        self.one::<O>(i);
        self.one::<D>(i);
        self.one::<Y>(i);
        self.alive(i, 1);
    }
    pub fn check(&mut self) {
        self.check_len();
        for i in 0..self.n { self.check_row(i); }
        let n = self.n;
        unsafe {
            { let s = self.a.get_slices_unchecked_exact::<G>();
            check(G::lens(&s, n), "slices have one element per row");
            for i in 0..n { check(G::row(&s, i, &self.rows[i].v), "slices show every row"); } }
            { let (h, s) = self.a.get_entity_fuzzy_slices_unchecked::<G>();
            check(G::lens(&s, n) && h.len() == n, "slices have one element per row");
            for i in 0..n { check(G::row(&s, i, &self.rows[i].v) && h[i].raw() == self.rows[i].h, "slices show every row"); } }
            { let s = self.a.get_slices_unchecked_exact_mut::<G>();
            check(G::lens_mut(&s, n), "slices have one element per row");
            for i in 0..n { check(G::row_mut(&s, i, &self.rows[i].v), "slices show every row"); } }
            { let (h, s) = self.a.get_entity_fuzzy_slices_unchecked_mut::<G>();
            check(G::lens_mut(&s, n) && h.len() == n, "slices have one element per row");
            for i in 0..n { check(G::row_mut(&s, i, &self.rows[i].v) && h[i].raw() == self.rows[i].h, "slices show every row"); } }
            for i in 0..n { check(G::same_ref(self.a.get_fuzzy_components_unchecked::<G>(i as u32), &self.rows[i].v), "references show the row"); }
        }
    }
    pub fn finish(self) {
        let Store { a, rows, n, .. } = self;
        drop(a);
        if G::MASK & MD != 0 { for i in 0..n { check(ledger(rows[i].serial) == 2, "dropping a storage drops its rows"); } }
        for s in 0..ledger_next() { check(ledger(s) == 2, "every value is dropped or handed back"); }
        check(y_live() == 0, "every zero-sized value is dropped or handed back");
    }
    /// an arbitrary operation on arbitrary rows
    pub fn step(&mut self) {
        let o = pick(if self.n < 2 { if self.n == 0 { 2 } else { 12 } } else { 13 });
        if o == 0 { return self.push(); }
        if o == 1 { return self.push_raw(); }
        if o == 4 { return self.take_last(); }
        let i = pick(self.n as u32) as usize;
        match o {
            2 => self.swap_drop(i),
            3 => self.swap_remove(i),
            5 => self.swap_to_last(i),
            6 => self.rewrite(i),
            7 => { self.rewrite_one::<A>(i); self.rewrite_one::<O>(i); self.rewrite_one::<D>(i); }
            8 => { self.rewrite_one::<B>(i); self.rewrite_one::<C>(i); self.rewrite_one::<Z>(i); self.rewrite_one::<Y>(i); }
            9 => { self.put::<A>(i); self.put::<C>(i); self.put::<D>(i); self.put::<O>(i); }
            10 => self.put_group(i),
            11 => self.put_handle(i),
            _ => { let j = pick(self.n as u32) as usize; assume(i != j); self.swap(i, j); }
        }
    }
}
const MAX: u32 = 0xFF_FFFF;
/// any operations on a storage of a few rows, from several capacities
fn history<G: Grp>(caps: &[u32], rows: u32, steps: u32) {
    let mut s = Store::<G, 12>::new(caps[pick(caps.len() as u32) as usize]);
    for _ in 0..pick(rows + 1) { s.push(); }
    s.check();
    for _ in 0..steps { s.step(); s.check_len(); }
    s.check();
    reach(0);
    s.finish();
}
#[no_mangle]
pub extern "C" fn h_c18_hist2() {
    match pick(4) {
        0 => history::<(D, B, A)>(&[0, 2, 4], 4, 2),
        1 => history::<(O, D, Z, A)>(&[0, 1, 3], 4, 2),
        2 => history::<(A, C, D)>(&[0, 2, 3], 3, 2),
        _ => history::<(D, Y, A)>(&[1, 4], 4, 2),
    }
}
fn small(rows: u32, steps: u32) {
    match pick(4) {
        0 => history::<A>(&[0, 1, 2, MAX + 1, u32::MAX], rows, steps),
        1 => history::<Z>(&[0, 1, 2, MAX + 1], rows, steps),
        2 => history::<Y>(&[0, 1, 2], rows, steps),
        _ => history::<O>(&[0, 1, 2], rows, steps),
    }
}
#[no_mangle]
pub extern "C" fn h_c18_small() { small(3, 2) }
#[no_mangle]
pub extern "C" fn h_c18_small3() { small(3, 3) }
#[no_mangle]
pub extern "C" fn h_c18_hist3() {
    match pick(3) {
        0 => history::<(D, B, A)>(&[0, 2, 4], 4, 3),
        1 => history::<(O, D, Z, A)>(&[1, 3], 4, 3),
        _ => history::<(D, Y, A)>(&[1, 4], 4, 3),
    }
}
/// growth from capacity 0, 1, 3, 5 and 128 over several doublings preserves every row
#[no_mangle]
pub extern "C" fn h_c18_growth() {
    let cap = [0, 1, 3, 5, 128][pick(5) as usize];
    let k = match cap { 0 | 128 => 260, 5 => 41, 3 => 25, _ => 17 };
    let mut s = Store::<(O, D, Z, A), 300>::new(cap);
    let mut c = s.a.capacity();
    for i in 0..k {
        s.push();
        s.check_len();
        if s.a.capacity() != c { check(s.a.capacity() > c && i == c, "a storage grows only when it is full"); c = s.a.capacity(); for j in 0..=i as usize { s.check_row(j); } }
    }
    let i = pick(3);
    let i = [0, k / 2, k - 1][i as usize] as usize;
    if pick(2) == 0 { s.swap_drop(i) } else { s.swap_remove(i) }
    s.check();
    reach(0);
    s.finish();
}
/// copying the shared component types between two storages
fn copies<G: Grp, K: Grp>() {
    let mut s = Store::<G, 4>::new([2, 4][pick(2) as usize]);
    let mut d = Store::<K, 6>::new([1, 3, 4][pick(3) as usize]);
    for _ in 0..1 + pick(3) { s.push(); }
    for _ in 0..1 + pick(2) { d.push(); }
    let i = pick(s.n as u32) as usize;
    let j = pick(d.n as u32 + 1) as usize;
    // the row's destination: one that exists, whose old values are taken out, or a new one
    let mut old = None;
    if j == d.n { let (r, g) = Store::<K, 6>::fresh(); unsafe { let x = d.a.push_uninitialized_entity(); d.a.write_entity_unchecked(x, Entity::from_raw(r.h), g); } d.rows[d.n] = r; d.n += 1; }
    if (G::MASK & K::MASK) & (MD | MY) != 0 { old = Some(unsafe { d.a.read_components_exact_unchecked::<K>(j as u32) }); }
    unsafe { Archetype::copy_common_components_between_archetypes_unchecked(&s.a, i as u32, &mut d.a, j as u32) };
    for c in 0..NC { if (G::MASK & K::MASK) >> c & 1 != 0 { d.rows[j].v[c] = s.rows[i].v[c]; } }
    let before = d.rows[j].serial;
    if G::MASK & K::MASK & MD != 0 { d.rows[j].serial = s.rows[i].serial; check(ledger(before) == 1 && ledger(s.rows[i].serial) == 1, "copying drops nothing"); }
    s.check();
    d.check();
    // the shared values now exist twice: forget those of the source row
    if G::MASK & K::MASK & (MD | MY) != 0 {
        let g: (G, bool) = unsafe { s.a.swap_remove_unchecked::<G>(i as u32) };
        s.rows[i] = s.rows[s.n - 1];
        s.n -= 1;
        core::mem::forget(g);
        s.check();
    }
    reach(0);
    drop(old);
    core::mem::forget((s, d));
}
#[no_mangle]
pub extern "C" fn h_c18_copy() {
    match pick(19) {
        0 => copies::<(A, B), (D, B, A)>(),
        1 => copies::<(D, B, A), (A, B)>(),
        2 => copies::<(O, D, Z, A), (A, D)>(),
        3 => copies::<(A, D), (A, Z, D, O)>(),
        4 => copies::<(A, C), (B, A)>(),
        5 => copies::<(Z, C), (A, B)>(),
        6 => copies::<(O, A), (O, A)>(),
        7 => copies::<(D, Y, A), (Y, D)>(),
        8 => copies::<(B, Z, A, D, O, C), (D, C)>(),
        9 => copies::<(D, C), (B, Z, A, D, O, C)>(),
        10 => copies::<(B, Z, A, D, O, C), D>(),
        11 => copies::<C, (B, Z, A, D, O, C)>(),
        12 => copies::<(B, Z, A, D, O, C), (O, A)>(),
        13 => copies::<G14, R3>(),
        14 => copies::<R2, G14>(),
        15 => copies::<G14, W3>(),
        16 => copies::<G9, R6>(),
        17 => copies::<R5, G12>(),
        _ => copies::<G14, G14>(),
    }
}
/// components of any layout
#[no_mangle]
pub extern "C" fn h_c18_layouts() { crate::lay::stores() }
/// more rows than 16 bits count, capacity growing to 131072
#[no_mangle]
pub extern "C" fn h_c18_big() {
    let n = [257, 65537][pick(2) as usize] as u32;
    let mut a = Archetype::with_capacity(<(A, B)>::DESCRIPTOR.archetype(), [1, 128][pick(2) as usize]);
    let of = |k: u32| (k.wrapping_mul(77), A(k), B(k as u64 * 0x1_0001_0001));
    for k in 0..n { let (h, x, y) = of(k); check(unsafe { a.push_entity_unchecked(Entity::from_raw(h), (x, y)) } == k, "pushing appends"); }
    let i = [0, 1, 255, 256, n - 2, n - 1][pick(6) as usize];
    let j = if i == n - 256 { 3 } else { n - 256 };
    let mut len = n;
    // which row of the original sequence is where
    let mut at = [(0u32, 0u32); 3];
    match pick(5) {
        0 => { check(unsafe { a.swap_drop_unchecked(i) } == (i != n - 1), "removal reports whether the last row was moved"); len -= 1; at[0] = (i, n - 1); }
        1 => { let ((y, x), m) = unsafe { a.swap_remove_unchecked::<(B, A)>(i) }; let o = of(i); check(x.0 == o.1 .0 && y.0 == o.2 .0 && m == (i != n - 1), "removal returns the row's values"); len -= 1; at[0] = (i, n - 1); }
        2 => { unsafe { a.swap_to_last_unchecked(i) }; at = [(i, n - 1), (n - 1, i), (n - 1, i)]; }
        3 => { unsafe { a.swap_entities(i, j) }; at = [(i, j), (j, i), (j, i)]; }
        _ => { let x = any_u32(); unsafe { a.get_component_unchecked_mut::<A>(i) }.0 = x; check(unsafe { a.get_component_unchecked::<A>(i) }.0 == x, "a component has the value last written to its row"); unsafe { a.get_component_unchecked_mut::<A>(i) }.0 = i; at[0] = (i, i); }
    }
    if at[1] == (0, 0) { at[1] = at[0]; at[2] = at[0]; }
    check(a.len() == len && a.entities().len() == len as usize && a.capacity() >= len, "the length is the number of rows");
    let (es, (s, t)) = unsafe { a.get_entity_fuzzy_slices_unchecked::<(A, B)>() };
    check(s.len() == len as usize && t.len() == len as usize && es.len() == len as usize, "slices have one element per row");
    for k in 0..len {
        let mut w = k;
        for (p, q) in at { if p == k { w = q; } }
        let (h, x, y) = of(w);
        check(es[k as usize].raw() == h && s[k as usize].0 == x.0 && t[k as usize].0 == y.0, "every row is untouched or at its new place");
    }
    reach(0);
}
