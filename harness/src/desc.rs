//! Run-time component descriptors with arbitrary ids, sizes, alignments and destructors, and a reference model of sets of them.
use crate::sym::*;
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::component_descriptor::*;
use shard_ecs::*;

unsafe fn h0(p: *mut u8, n: usize) { if n > 0 { *p = 10 + n as u8; } }
unsafe fn h1(p: *mut u8, n: usize) { if n > 0 { *p = 20 + n as u8; } }
pub fn handler(k: usize) -> unsafe fn(*mut u8, usize) { if k & 1 == 0 { h0 } else { h1 } }
/// the destructor behaves as destructor k
pub fn is_handler(f: unsafe fn(*mut u8, usize), k: usize) -> bool { let mut b = 0u8; unsafe { f(&mut b, 3) }; b == if k & 1 == 0 { 13 } else { 23 } }
#[derive(Clone, Copy)]
pub struct Item { pub id: u16, pub size: u16, pub align: u16, pub h: usize }
impl Item {
    /// an arbitrary valid id, arbitrary size and alignment
    pub fn any(h: usize) -> Item { let id = any_u16(); assume(id != u16::MAX); Item { id, size: any_u16(), align: any_u16(), h } }
    pub fn with_id(id: u16, h: usize) -> Item { Item { id, size: any_u16(), align: any_u16(), h } }
    pub fn desc(&self) -> ComponentDescriptor { ComponentDescriptor::new(ComponentTypeId::from_u16(self.id), self.size, self.align, handler(self.h)) }
    pub fn is(&self, d: &ComponentDescriptor) -> bool { (d.component_type_id().into_u16() == self.id) & (d.size() == self.size) & (d.align() == self.align) & is_handler(d.fns.drop_handler, self.h) }
}
/// A mathematical set of component types.
#[derive(Clone, Copy)]
pub struct Set { pub x: [Item; 15], pub n: usize }
impl Set {
    pub fn empty() -> Set { Set { x: [Item { id: 0, size: 0, align: 0, h: 0 }; 15], n: 0 } }
    pub fn of(v: &[Item]) -> Set { let mut s = Set::empty(); for i in v { s.x[s.n] = *i; s.n += 1; } s }
    pub fn has(&self, id: u16) -> bool { let mut r = false; for k in 0..self.n { r |= self.x[k].id == id; } r }
    pub fn with(&self, i: Item) -> Set { let mut s = *self; s.x[s.n] = i; s.n += 1; s }
    pub fn without(&self, id: u16) -> Set { let mut s = Set::empty(); for k in 0..self.n { if self.x[k].id != id { s.x[s.n] = self.x[k]; s.n += 1; } } s }
    pub fn distinct(&self) -> bool { let mut r = true; for i in 0..self.n { for j in 0..i { r &= self.x[i].id != self.x[j].id; } } r }
    /// d represents exactly this set
    pub fn check(&self, d: &ArchetypeDescriptor) {
        check(d.is_valid(), "a descriptor of a non-empty set is valid");
        check(d.len() as usize == self.n && d.components().len() == self.n, "a descriptor has exactly the set's number of types");
        for k in 0..self.n {
            let mut hit = false;
            for c in d.components() { hit |= self.x[k].is(c); }
            check(hit, "every type of the set is in the descriptor with its own size, alignment and destructor");
        }
    }
}
pub fn equal(a: &ArchetypeDescriptor, b: &ArchetypeDescriptor) -> bool {
    let mut r = a.archetype_id().into_u32() == b.archetype_id().into_u32() && a.len() == b.len();
    if a.len() != b.len() { return false; }
    for k in 0..a.len() as usize {
        let (x, y) = (&a.components()[k], &b.components()[k]);
        r &= (x.component_type_id().into_u16() == y.component_type_id().into_u16()) & (x.size() == y.size()) & (x.align() == y.align()) & { let (mut p, mut q) = (0u8, 0u8); unsafe { (x.fns.drop_handler)(&mut p, 3); (y.fns.drop_handler)(&mut q, 3); } p == q };
    }
    r
}
/// Descriptor of a set, built by the group constructor from the set's own order.
pub fn build(s: &Set) -> ArchetypeDescriptor {
    let x = &s.x;
    match s.n {
        1 => ComponentGroupDescriptor::new(&[x[0].desc()]).archetype().clone(),
        2 => ComponentGroupDescriptor::new(&[x[0].desc(), x[1].desc()]).archetype().clone(),
        3 => ComponentGroupDescriptor::new(&[x[0].desc(), x[1].desc(), x[2].desc()]).archetype().clone(),
        4 => ComponentGroupDescriptor::new(&[x[0].desc(), x[1].desc(), x[2].desc(), x[3].desc()]).archetype().clone(),
        5 => ComponentGroupDescriptor::new(&[x[0].desc(), x[1].desc(), x[2].desc(), x[3].desc(), x[4].desc()]).archetype().clone(),
        13 => { let a: [ComponentDescriptor; 13] = core::array::from_fn(|k| x[k].desc()); ComponentGroupDescriptor::new(&a).archetype().clone() }
        14 => { let a: [ComponentDescriptor; 14] = core::array::from_fn(|k| x[k].desc()); ComponentGroupDescriptor::new(&a).archetype().clone() }
        _ => { check(false, "harness: size"); ArchetypeDescriptor::INVALID }
    }
}
/// Descriptor of a set, built by adding its types one by one, last first.
pub fn build_by_adding(s: &Set) -> ArchetypeDescriptor {
    let mut d: ArchetypeDescriptor = (&s.x[s.n - 1].desc()).into();
    for k in (0..s.n - 1).rev() { d = match d.add_component(&s.x[k].desc()) { Some(d) => d, None => { check(false, "adding an absent type below the maximum succeeds"); return d; } }; }
    d
}
