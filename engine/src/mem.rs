//! Byte-granular copy-on-write memory: concrete / symbolic / uninitialised bytes.
use crate::val::B;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PS: u64 = 4096;

#[derive(Clone)]
pub struct Page { pub data: Vec<u8>, pub init: Vec<u64>, pub sym: BTreeMap<u16, (u32, u8)> }
impl Page {
    fn new(n: usize, zero: bool) -> Page { Page { data: vec![0; n], init: vec![if zero { u64::MAX } else { 0 }; (n + 63) / 64], sym: BTreeMap::new() } }
    #[inline]
    fn is_init(&self, i: usize) -> bool { self.init[i >> 6] >> (i & 63) & 1 != 0 }
    #[inline]
    fn set_init(&mut self, i: usize, n: usize, v: bool) {
        let (w, s) = (i >> 6, i & 63);
        if s + n <= 64 {
            let m = if n == 64 { u64::MAX } else { ((1u64 << n) - 1) << s };
            if v { self.init[w] |= m } else { self.init[w] &= !m }
        } else {
            for k in i..i + n { if v { self.init[k >> 6] |= 1 << (k & 63) } else { self.init[k >> 6] &= !(1 << (k & 63)) } }
        }
    }
    #[inline]
    fn all_init(&self, i: usize, n: usize) -> bool {
        let (w, s) = (i >> 6, i & 63);
        if s + n <= 64 { let m = if n == 64 { u64::MAX } else { ((1u64 << n) - 1) << s }; self.init[w] & m == m }
        else { (i..i + n).all(|k| self.is_init(k)) }
    }
    fn get(&self, i: usize) -> B {
        if !self.is_init(i) { return B::U; }
        if !self.sym.is_empty() { if let Some(&(e, k)) = self.sym.get(&(i as u16)) { return B::S(e, k); } }
        B::C(self.data[i])
    }
    fn set(&mut self, i: usize, b: B) {
        if !self.sym.is_empty() { self.sym.remove(&(i as u16)); }
        match b {
            B::C(v) => { self.data[i] = v; self.set_init(i, 1, true); }
            B::S(e, k) => { self.sym.insert(i as u16, (e, k)); self.set_init(i, 1, true); }
            B::U => self.set_init(i, 1, false),
        }
    }
}

thread_local! { static ZERO: Rc<Page> = Rc::new(Page::new(PS as usize, true)); }
#[derive(Clone)]
pub enum Pages { One(Option<Rc<Page>>), Many(Vec<Option<Rc<Page>>>) }

#[derive(Clone)]
pub struct Obj { pub size: u64, pub align: u64, pub off: u64, pages: Pages, pub zero: bool, pub ro: bool, pub id: u32 }

impl Obj {
    pub fn new(size: u64, align: u64, zero: bool, id: u32) -> Obj {
        let pages = if size <= PS { Pages::One(None) } else { Pages::Many(vec![None; ((size + PS - 1) / PS) as usize]) };
        Obj { size, align, off: crate::ir::obj_off(align), pages, zero, ro: false, id }
    }
    #[inline]
    fn page(&self, i: u64) -> Option<&Page> {
        match &self.pages { Pages::One(p) => p.as_deref(), Pages::Many(v) => v[i as usize].as_deref() }
    }
    #[inline]
    fn page_mut(&mut self, i: u64) -> &mut Page {
        let n = (self.size - i * PS).min(PS) as usize;
        let zero = self.zero;
        let p = match &mut self.pages { Pages::One(p) => p, Pages::Many(v) => &mut v[i as usize] };
        Rc::make_mut(p.get_or_insert_with(|| Rc::new(Page::new(n, zero))))
    }
    /// fast path: n <= 8 concrete initialised bytes within a page
    #[inline]
    pub fn read_c(&self, off: u64, n: usize) -> Option<u64> {
        let (p, o) = (off / PS, (off % PS) as usize);
        if o + n > PS as usize { return None; }
        match self.page(p) {
            None => if self.zero { Some(0) } else { None },
            Some(pg) => {
                if !pg.all_init(o, n) { return None; }
                if !pg.sym.is_empty() && pg.sym.range(o as u16..(o + n) as u16).next().is_some() { return None; }
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&pg.data[o..o + n]);
                Some(u64::from_le_bytes(b))
            }
        }
    }
    #[inline]
    pub fn write_c(&mut self, off: u64, n: usize, v: u64) {
        let (p, o) = (off / PS, (off % PS) as usize);
        if o + n > PS as usize { for i in 0..n { self.set(off + i as u64, B::C((v >> (8 * i)) as u8)); } return; }
        let pg = self.page_mut(p);
        if !pg.sym.is_empty() { for i in o..o + n { pg.sym.remove(&(i as u16)); } }
        pg.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        pg.set_init(o, n, true);
    }
    pub fn get(&self, off: u64) -> B {
        match self.page(off / PS) { None => if self.zero { B::C(0) } else { B::U }, Some(p) => p.get((off % PS) as usize) }
    }
    pub fn set(&mut self, off: u64, b: B) {
        if self.page(off / PS).is_none() { match b { B::U if !self.zero => return, B::C(0) if self.zero => return, _ => {} } }
        self.page_mut(off / PS).set((off % PS) as usize, b)
    }
    pub fn read(&self, off: u64, n: u64) -> Vec<B> { (off..off + n).map(|o| self.get(o)).collect() }
    pub fn write(&mut self, off: u64, bs: &[B]) { for (i, b) in bs.iter().enumerate() { self.set(off + i as u64, *b); } }
    pub fn fill(&mut self, off: u64, n: u64, b: B) {
        let mut o = off;
        while o < off + n {
            // whole untouched/complete pages
            if o % PS == 0 && off + n - o >= PS.min(self.size - o) {
                let i = o / PS;
                if (b == B::U && !self.zero) || (b == B::C(0) && self.zero) {
                    match &mut self.pages { Pages::One(p) => *p = None, Pages::Many(v) => v[i as usize] = None }
                    o += PS.min(self.size - o);
                    continue;
                }
            }
            self.set(o, b);
            o += 1;
        }
    }
    /// Copies n bytes from src (may be a snapshot of self).
    pub fn copy_from(&mut self, doff: u64, src: &Obj, soff: u64, n: u64) {
        let mut i = 0;
        while i < n {
            let (s, d) = (soff + i, doff + i);
            // share whole pages
            if s % PS == 0 && d % PS == 0 && n - i >= PS && self.zero == src.zero {
                if let (Pages::Many(sv), Pages::Many(dv)) = (&src.pages, &mut self.pages) {
                    let (si, di) = ((s / PS) as usize, (d / PS) as usize);
                    if (src.size - s >= PS) && (self.size - d >= PS) {
                        dv[di] = sv[si].clone();
                        i += PS;
                        continue;
                    }
                }
            }
            let k = (PS - s % PS).min(PS - d % PS).min(n - i);
            // untouched zero pages
            if k == PS && src.zero && !self.zero && src.page(s / PS).is_none() {
                if let Pages::Many(dv) = &mut self.pages { dv[(d / PS) as usize] = Some(ZERO.with(|z| z.clone())); i += k; continue; }
            }
            match src.page(s / PS) {
                None => { self.fill(d, k, if src.zero { B::C(0) } else { B::U }); }
                Some(sp) => {
                    let so = (s % PS) as usize;
                    let kk = k as usize;
                    let dp = self.page_mut(d / PS);
                    let dof = (d % PS) as usize;
                    if sp.sym.is_empty() && dp.sym.is_empty() {
                        dp.data[dof..dof + kk].copy_from_slice(&sp.data[so..so + kk]);
                        let mut j = 0;
                        while j < kk {
                            // runs of up to 64
                            let m = (kk - j).min(64);
                            if sp.all_init(so + j, m) { dp.set_init(dof + j, m, true); }
                            else { for q in 0..m { let b = sp.is_init(so + j + q); dp.set_init(dof + j + q, 1, b); } }
                            j += m;
                        }
                    } else { for j in 0..kk { dp.set(dof + j, sp.get(so + j)); } }
                }
            }
            i += k;
        }
    }
    /// realloc: same content up to min(size), pages shared
    pub fn resized(&self, size: u64, id: u32) -> Obj {
        let mut o = Obj::new(size, self.align, false, id);
        if !self.zero && self.size > PS && size > PS && size >= self.size && self.size % PS == 0 {
            if let (Pages::Many(sv), Pages::Many(dv)) = (&self.pages, &mut o.pages) { for (i, p) in sv.iter().enumerate() { dv[i] = p.clone(); } return o; }
        }
        o.copy_from(0, self, 0, self.size.min(size));
        o
    }
}

/// Chunked persistent vector of heap objects.
#[derive(Clone, Default)]
pub struct Heap { chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>, pub len: u32, pub live: u32 }
const CH: usize = 128;
impl Heap {
    pub fn push(&mut self, o: Obj) -> u32 {
        let id = self.len;
        if id as usize % CH == 0 { self.chunks.push(Rc::new(Vec::with_capacity(CH))); }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Some(Rc::new(o)));
        self.len += 1;
        self.live += 1;
        id
    }
    #[inline]
    pub fn get(&self, i: u32) -> Option<&Rc<Obj>> { self.chunks.get(i as usize / CH)?.get(i as usize % CH)?.as_ref() }
    #[inline]
    pub fn get_mut(&mut self, i: u32) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(i as usize / CH)?);
        c.get_mut(i as usize % CH)?.as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, i: u32) { Rc::make_mut(&mut self.chunks[i as usize / CH])[i as usize % CH] = None; self.live -= 1; }
    pub fn iter_live(&self) -> impl Iterator<Item = (u32, &Rc<Obj>)> { self.chunks.iter().enumerate().flat_map(|(c, v)| v.iter().enumerate().filter_map(move |(i, o)| o.as_ref().map(|o| ((c * CH + i) as u32, o)))) }
}
