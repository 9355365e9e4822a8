//! Symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use crate::val::{Val, B};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Frame {
    pub func: u32,
    pub ret_pc: u32, // pc of the call instruction in the caller
    pub rbase: u32,
    pub sbase: u32,
    pub catch: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum LogV { C(u64), S(E) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub pc: u32,
    pub heap: Heap,
    pub globals: Rc<Vec<Option<Rc<Obj>>>>,
    pub stack: Vec<Rc<Obj>>,
    pub gens: Vec<u16>,
    pub cons: Vec<E>,
    pub known: Rc<HashSet<E>>,
    pub model: Rc<Model>,
    pub inputs: Vec<(E, u8)>, // variable / constant expression, tag (0 any, 1 choose)
    pub log: Vec<LogV>,
    pub reach: u64,
    pub steps: u64,
    pub unwinding: u32,
    pub catch_depth: u32,
    pub alloc_fail_in: Option<u64>,
    pub alloc_failed: bool,
    pub leak_ok: bool,
    pub decisions: u32,
    pub seq: u64,
    pub uf_calls: Rc<Vec<(u32, Vec<E>, E)>>,
    /// memory that other threads may be using now: (start, end) of a range, heap objects below a number; statics always
    pub shared: Option<(u64, u64, u32)>,
    /// allocations of more than 4 GB: number, further numbers taken
    pub huge: Rc<Vec<(u32, u32)>>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done(&'static str),
    Violation(String, String),
    Unsupported(String),
}
type X<T> = Result<T, Stop>;

fn ub<T>(k: &str, m: impl Into<String>) -> X<T> { Err(Stop::Violation(k.to_string(), m.into())) }
fn uns<T>(m: impl Into<String>) -> X<T> { Err(Stop::Unsupported(m.into())) }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub completed: u64, pub assumed_away: u64, pub aborted: u64, pub steps: u64, pub forks: u64,
    pub checks_concrete: u64, pub checks_symbolic: u64, pub ub_checks_symbolic: u64, pub concretised: u64, pub max_inputs: u64, pub max_decisions: u64,
    pub mem_ops: u64,
}

pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<u64>, pub trace: String, pub log: Vec<u64> }
pub struct Sample { pub hash: u64, pub inputs: Vec<u64>, pub log: Vec<u64>, pub reach: u64, pub pc: String }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub x: Exprs,
    pub solver: Solver,
    pub pending: Vec<State>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub executed: Vec<bool>,
    pub reach: u64,
    pub nvars: u32,
    pub max_samples: usize,
    pub max_steps: u64,
    pub seed: u64,
    pub trace: bool,
    pub deadline: Option<Instant>,
    memo: HashMap<E, u64>,
    memo_model: *const Model,
    pub incomplete: bool,
    pub check_ids: BTreeMap<String, (u64, u64)>,
    pub max_violations: usize,
    pub leaks_ignored: bool,
    /// functions replaced by an uninterpreted (but functionally consistent) function of their byte slice
    pub uf: HashSet<u32>,
    /// values the uninterpreted functions are assumed not to take
    pub uf_not: Vec<u64>,
    nuf: u32,
}

/// numbers of the variables standing for results of uninterpreted functions
pub const UF_BASE: u32 = 1 << 24;
pub fn hash64(mut h: u64, v: u64) -> u64 { h ^= v; h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15); h ^= h >> 32; h = h.wrapping_mul(0xD6E8_FEB8_6659_FD93); h ^ (h >> 29) }

enum ObjRef { Heap(u32), Stack(usize), Global(u32) }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, solver: Solver) -> Self {
        Exec {
            m, x: Exprs::default(), solver, pending: vec![], stats: Stats::default(), violations: vec![], errors: vec![], samples: vec![],
            executed: vec![false; m.funcs.len()], reach: 0, nvars: 0, max_samples: 64, max_steps: 3_000_000_000, seed: 1, trace: false, deadline: None,
            memo: HashMap::new(), memo_model: std::ptr::null(), incomplete: false, check_ids: BTreeMap::new(), max_violations: 3, leaks_ignored: false, uf: HashSet::new(), uf_not: vec![], nuf: 0,
        }
    }

    /// In a forked child: counters and findings belong to the parent.
    pub fn after_fork(&mut self) {
        self.solver.after_fork();
        self.stats = Stats::default();
        self.violations.clear();
        self.errors.clear();
        self.samples.clear();
        self.check_ids.clear();
        self.reach = 0;
        self.executed.iter_mut().for_each(|b| *b = false);
    }
    pub fn initial(&mut self, entry: u32) -> State {
        let globals = self.m.globals.iter().enumerate().map(|(i, g)| {
            let mut o = Obj::new(g.size, g.align, true, GLOBAL_BASE as u32 + i as u32);
            for (k, b) in g.bytes.iter().enumerate() { if *b != 0 { o.set(k as u64, B::C(*b)); } }
            for (off, n) in &g.undef { o.fill(*off, *n, B::U); }
            o.ro = g.constant;
            Some(Rc::new(o))
        }).collect();
        let f = &self.m.funcs[entry as usize];
        State {
            frames: vec![Frame { func: entry, ret_pc: 0, rbase: 0, sbase: 0, catch: false }], regs: vec![Val::U; f.nregs as usize], pc: 0,
            heap: Heap::default(), globals: Rc::new(globals), stack: vec![], gens: vec![], cons: vec![], known: Rc::new(HashSet::new()), model: Rc::new(Model::new()),
            inputs: vec![], log: vec![], reach: 0, steps: 0, unwinding: 0, catch_depth: 0, alloc_fail_in: None, alloc_failed: false, leak_ok: false, decisions: 0, seq: 0, uf_calls: Rc::new(vec![]), shared: None, huge: Rc::new(vec![]),
        }
    }

    // ---------- solver interface ----------
    fn eval(&mut self, st: &State, e: E) -> u64 {
        if let Some(v) = self.x.cv(e) { return v; }
        let p = Rc::as_ptr(&st.model);
        if p != self.memo_model || self.memo.len() > 100_000 { self.memo.clear(); self.memo_model = p; }
        let mut memo = std::mem::take(&mut self.memo);
        let v = self.x.eval(e, &st.model, &mut memo);
        self.memo = memo;
        v
    }
    fn forget_memo(&mut self) { self.memo.clear(); self.memo_model = std::ptr::null(); }
    /// Constraints transitively sharing variables with e.
    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        let mut vars: HashSet<u32> = self.x.free(e).iter().copied().collect();
        let mut rest: Vec<E> = st.cons.clone();
        let mut out = vec![];
        loop {
            let mut changed = false;
            let mut keep = vec![];
            for c in rest {
                let fv = self.x.free(c);
                if fv.iter().any(|v| vars.contains(v)) { for v in fv.iter() { if vars.insert(*v) { changed = true; } } out.push(c); } else { keep.push(c); }
            }
            rest = keep;
            if !changed || rest.is_empty() { break; }
        }
        out
    }
    /// Is path ∧ e satisfiable?  Returns a full model if so.
    fn sat(&mut self, st: &State, e: E) -> X<Option<Rc<Model>>> {
        if let Some(v) = self.x.cv(e) { return Ok(if v != 0 { Some(st.model.clone()) } else { None }); }
        if st.known.contains(&e) { return Ok(Some(st.model.clone())); }
        let ne = self.x.not(e);
        if st.known.contains(&ne) { return Ok(None); }
        let mut q = self.slice(st, e);
        q.push(e);
        let vars: HashSet<u32> = q.iter().flat_map(|c| self.x.free(*c).iter().copied().collect::<Vec<_>>()).collect();
        match self.solver.check(&mut self.x, &q) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut full: Model = (*st.model).clone();
                for v in vars { full.insert(v, m.get(&v).copied().unwrap_or(0)); }
                // sanity: the model must satisfy the query
                let mut memo = HashMap::new();
                for c in &q { if self.x.eval(*c, &full, &mut memo) == 0 { return uns("solver model does not satisfy the query"); } }
                Ok(Some(Rc::new(full)))
            }
            Res::Unknown(s) => uns(format!("solver: {}", s)),
        }
    }
    fn assume(&mut self, st: &mut State, e: E) {
        if self.x.cv(e).is_some() || st.known.contains(&e) { return; }
        st.cons.push(e);
        Rc::make_mut(&mut st.known).insert(e);
    }
    fn note_known(&mut self, st: &mut State, e: E) { if self.x.cv(e).is_none() && !st.known.contains(&e) { Rc::make_mut(&mut st.known).insert(e); } }
    fn fork(&mut self, st: &State, e: E, model: Rc<Model>) {
        let mut s = st.clone();
        s.model = model;
        s.decisions += 1;
        self.assume(&mut s, e);
        self.stats.forks += 1;
        if self.trace { if let Some(f) = st.frames.last() { eprintln!("FORK {} caller {}", self.m.funcs[f.func as usize].name, st.frames.iter().rev().nth(1).map_or("", |g| &self.m.funcs[g.func as usize].name)); } }
        self.pending.push(s);
    }
    /// Decide a width-1 condition, forking when both sides are feasible. The state must not have been modified by the current instruction.
    fn branch(&mut self, st: &mut State, e: E) -> X<bool> {
        if let Some(v) = self.x.cv(e) { return Ok(v != 0); }
        if st.known.contains(&e) { return Ok(true); }
        let ne = self.x.not(e);
        if st.known.contains(&ne) { return Ok(false); }
        let v = self.eval(st, e) != 0;
        let (this, other) = if v { (e, ne) } else { (ne, e) };
        match self.sat(st, other)? {
            None => self.note_known(st, this),
            Some(m) => { self.fork(st, other, m); st.decisions += 1; self.assume(st, this); }
        }
        Ok(v)
    }
    /// Concrete value of an expression: other feasible values are explored in forked states.
    fn conc_e(&mut self, st: &mut State, e: E) -> X<u64> {
        if let Some(v) = self.x.cv(e) { return Ok(v); }
        let v = self.eval(st, e);
        let w = self.x.w(e);
        let k = self.x.konst(v, w);
        let eq = self.x.eq(e, k);
        if self.x.cv(eq) == Some(1) || st.known.contains(&eq) { return Ok(v); }
        let ne = self.x.not(eq);
        self.stats.concretised += 1;
        match self.sat(st, ne)? {
            None => self.note_known(st, eq),
            Some(m) => { self.fork(st, ne, m); st.decisions += 1; self.assume(st, eq); }
        }
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val, what: &str) -> X<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => self.conc_e(st, *e),
            Val::U | Val::M(_) => ub("uninit", format!("{} depends on uninitialised memory", what)),
            Val::W(x) if **x <= u64::MAX as u128 => Ok(**x as u64),
            v => uns(format!("concretise {:?}", v)),
        }
    }
    /// Reports a violation if cond can be false on this path.
    fn must(&mut self, st: &mut State, cond: E, kind: &str, msg: &str) -> X<()> {
        if let Some(v) = self.x.cv(cond) { return if v != 0 { Ok(()) } else { ub(kind, msg) }; }
        if st.known.contains(&cond) { return Ok(()); }
        self.stats.ub_checks_symbolic += 1;
        let n = self.x.not(cond);
        match self.sat(st, n)? {
            None => { self.note_known(st, cond); Ok(()) }
            Some(m) => { st.model = m; self.forget_memo(); self.assume(st, n); ub(kind, msg) }
        }
    }

    // ---------- values ----------
    #[inline(always)]
    fn v(&self, st: &State, o: Opd) -> Val {
        if o & CONST_BIT != 0 { self.m.consts[(o & !CONST_BIT) as usize].clone() } else { st.regs[(st.frames.last().unwrap().rbase + o) as usize].clone() }
    }
    #[inline(always)]
    fn set(&self, st: &mut State, dst: u32, v: Val) { if dst != NOREG { let b = st.frames.last().unwrap().rbase; st.regs[(b + dst) as usize] = v; } }
    fn sv(&self, e: E) -> Val { match self.x.cv(e) { Some(v) => Val::C(v), None => Val::S(e) } }
    fn ex(&mut self, v: &Val, w: u32) -> X<Option<E>> {
        Ok(match v {
            Val::C(x) => Some(self.x.konst(*x, w)),
            Val::S(e) => { if self.x.w(*e) != w { return uns(format!("width {} vs {}", self.x.w(*e), w)); } Some(*e) }
            Val::U | Val::M(_) => None,
            v => return uns(format!("expr of {:?} at width {}", v, w)),
        })
    }
    fn to_bytes(&mut self, v: &Val, n: u64, w: u32) -> X<Vec<B>> {
        Ok(match v {
            Val::C(x) => (0..n).map(|i| B::C(if i < 8 { (x >> (8 * i)) as u8 } else { 0 })).collect(),
            Val::W(x) => (0..n).map(|i| B::C((**x >> (8 * i)) as u8)).collect(),
            Val::U => vec![B::U; n as usize],
            Val::M(b) => { let mut b = (**b).clone(); b.resize(n as usize, B::C(0)); b }
            Val::S(e) => {
                let mut e = *e;
                if w % 8 != 0 { e = self.x.zext(e, ((w + 7) / 8) * 8); }
                (0..n).map(|i| self.byte(e, i as u8)).collect()
            }
            v => return uns(format!("bytes of {:?}", v)),
        })
    }
    fn byte(&mut self, e: E, i: u8) -> B {
        if self.x.w(e) == 8 { return match self.x.cv(e) { Some(v) => B::C(v as u8), None => B::S(e, 0) }; }
        let b = self.x.extract(e, 8 * i as u32, 8);
        match self.x.cv(b) { Some(v) => B::C(v as u8), None => B::S(e, i) }
    }
    fn from_bytes(&mut self, bs: &[B], w: u32) -> X<Val> {
        if bs.iter().all(|b| matches!(b, B::U)) { return Ok(Val::U); }
        if bs.iter().any(|b| matches!(b, B::U)) { return Ok(Val::M(Arc::new(bs.to_vec()))); }
        if bs.iter().all(|b| matches!(b, B::C(_))) {
            let mut x: u128 = 0;
            for (i, b) in bs.iter().enumerate() { if let B::C(v) = b { x |= (*v as u128) << (8 * i); } }
            if w > 64 { return Ok(Val::W(Arc::new(x))); }
            return Ok(Val::C(x as u64 & mask(w)));
        }
        if w > 64 { return Ok(Val::M(Arc::new(bs.to_vec()))); }
        // whole expression?
        if let B::S(e, 0) = bs[0] {
            if self.x.w(e) == 8 * bs.len() as u32 && bs.iter().enumerate().all(|(i, b)| *b == B::S(e, i as u8)) {
                let r = if w % 8 != 0 { self.x.extract(e, 0, w) } else { e };
                return Ok(self.sv(r));
            }
        }
        let mut acc: Option<E> = None;
        for b in bs {
            let e = match b { B::C(v) => self.x.konst(*v as u64, 8), B::S(e, i) => self.x.extract(*e, 8 * *i as u32, 8), B::U => unreachable!() };
            acc = Some(match acc { None => e, Some(l) => self.x.concat(e, l) });
        }
        let mut e = acc.unwrap();
        if w % 8 != 0 { e = self.x.extract(e, 0, w); }
        Ok(self.sv(e))
    }
    /// byte view of a mixed/any value of width w (multiple of 8)
    fn bv(&mut self, v: &Val, w: u32) -> X<Vec<B>> { self.to_bytes(v, (w as u64 + 7) / 8, w) }

    // ---------- memory ----------
    fn locate(&self, st: &State, addr: u64, n: u64, write: bool) -> X<(ObjRef, u64)> {
        let id = addr >> 32;
        let mut lo = addr & 0xffff_ffff;
        let (r, o): (ObjRef, &Rc<Obj>) = if id >= STACK_BASE {
            let k = id - STACK_BASE;
            let (slot, gen) = ((k & 0x3fff) as usize, (k >> 14) as u16);
            match st.stack.get(slot) {
                Some(o) if st.gens[slot] == gen => (ObjRef::Stack(slot), o),
                _ => return ub("mem", format!("access to dead stack memory {:#x}", addr)),
            }
        } else if id >= HEAP_BASE {
            let k = (id - HEAP_BASE) as u32;
            match st.heap.get(k) {
                Some(o) => (ObjRef::Heap(k), o),
                None => match st.huge.iter().find(|(b, m)| *b < k && k - b <= *m && st.heap.get(*b).is_some()) {
                    Some((b, _)) => { lo += ((k - b) as u64) << 32; (ObjRef::Heap(*b), st.heap.get(*b).unwrap()) }
                    None => return ub("mem", if k < st.heap.len { format!("use after free (allocation #{})", k) } else { format!("wild pointer {:#x}", addr) }),
                },
            }
        } else if id >= GLOBAL_BASE && id < GLOBAL_BASE + self.m.globals.len() as u64 {
            let k = (id - GLOBAL_BASE) as u32;
            (ObjRef::Global(k), st.globals[k as usize].as_ref().unwrap())
        } else if id == 0 {
            return ub("mem", if addr < 4096 { format!("access of {} bytes through null/dangling pointer {:#x}", n, addr) } else { format!("wild pointer {:#x}", addr) });
        } else { return ub("mem", format!("wild pointer {:#x}", addr)); };
        if lo < o.off || lo - o.off + n > o.size {
            return ub("mem", format!("out-of-bounds {} of {} bytes at offset {} of an allocation of {} bytes", if write { "write" } else { "read" }, n, lo as i64 - o.off as i64, o.size));
        }
        if write {
            if o.ro { return ub("mem", "write to constant memory"); }
            if st.shared.is_some() { self.race(st, &r, addr)?; }
        }
        Ok((r, lo - o.off))
    }
    /// an unsynchronised write to memory another thread may be accessing
    #[cold]
    fn race(&self, st: &State, r: &ObjRef, addr: u64) -> X<()> {
        let (lo, hi, heap) = st.shared.unwrap();
        match r {
            ObjRef::Global(g) => { let g = &self.m.globals[*g as usize]; if !g.tls && !g.own { return ub("race", format!("write to the static {} while other threads may be using it", Self::demangle(&g.name))); } }
            ObjRef::Heap(k) => if *k < heap { return ub("race", "write to shared memory while other threads may be reading it"); },
            ObjRef::Stack(_) => {}
        }
        if addr >= lo && addr < hi { return ub("race", "write to a shared registry while other threads may be reading it"); }
        Ok(())
    }
    #[inline]
    fn obj<'a>(&self, st: &'a State, r: &ObjRef) -> &'a Rc<Obj> {
        match r { ObjRef::Heap(k) => st.heap.get(*k).unwrap(), ObjRef::Stack(s) => &st.stack[*s], ObjRef::Global(g) => st.globals[*g as usize].as_ref().unwrap() }
    }
    #[inline]
    fn obj_mut<'a>(&self, st: &'a mut State, r: &ObjRef) -> &'a mut Obj {
        match r {
            ObjRef::Heap(k) => st.heap.get_mut(*k).unwrap(),
            ObjRef::Stack(s) => Rc::make_mut(&mut st.stack[*s]),
            ObjRef::Global(g) => Rc::make_mut(Rc::make_mut(&mut st.globals)[*g as usize].as_mut().unwrap()),
        }
    }
    fn load(&mut self, st: &State, addr: u64, ty: &LTy) -> X<Val> {
        match ty {
            LTy::Int(w) => {
                let n = ((*w + 7) / 8) as u64;
                let (r, off) = self.locate(st, addr, n, false)?;
                let o = self.obj(st, &r);
                if n <= 8 { if let Some(v) = o.read_c(off, n as usize) { return Ok(Val::C(v & mask(*w))); } }
                let bs = o.read(off, n);
                self.from_bytes(&bs, *w)
            }
            LTy::Agg(fs, size) => {
                if *size > 0 { self.locate(st, addr, *size, false)?; }
                let mut v = Vec::with_capacity(fs.len());
                for (o, t) in fs.iter() { v.push(self.load(st, addr + o, t)?); }
                Ok(Val::Agg(Arc::new(v)))
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &LTy, v: &Val) -> X<()> {
        match ty {
            LTy::Int(w) => {
                let n = ((*w + 7) / 8) as u64;
                let (r, off) = self.locate(st, addr, n, true)?;
                if let (Val::C(x), true) = (v, n <= 8) { self.obj_mut(st, &r).write_c(off, n as usize, *x); return Ok(()); }
                let bs = self.to_bytes(v, n, *w)?;
                self.obj_mut(st, &r).write(off, &bs);
                Ok(())
            }
            LTy::Agg(fs, size) => {
                if *size > 0 { self.locate(st, addr, *size, true)?; }
                match v {
                    Val::Agg(vs) => { for (i, (o, t)) in fs.iter().enumerate() { self.store(st, addr + o, t, &vs[i])?; } }
                    Val::U => { for (o, t) in fs.iter() { self.store(st, addr + o, t, &Val::U)?; } }
                    v => return uns(format!("aggregate store of {:?}", v)),
                }
                Ok(())
            }
        }
    }
    fn lsize(ty: &LTy) -> u64 { match ty { LTy::Int(w) => (*w as u64 + 7) / 8, LTy::Agg(_, s) => *s } }
    pub fn read_bytes(&self, st: &State, addr: u64, n: u64) -> X<Vec<B>> {
        if n == 0 { return Ok(vec![]); }
        let (r, off) = self.locate(st, addr, n, false)?;
        Ok(self.obj(st, &r).read(off, n))
    }
    fn read_str(&self, st: &State, p: &Val, n: &Val) -> Option<String> {
        if let (Val::C(p), Val::C(n)) = (p, n) {
            if *n > 400 { return None; }
            let bs = self.read_bytes(st, *p, *n).ok()?;
            let mut v = vec![];
            for b in bs { if let B::C(c) = b { v.push(c) } else { return None; } }
            String::from_utf8(v).ok()
        } else { None }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64, mv: bool) -> X<()> {
        if n == 0 { return Ok(()); }
        self.stats.mem_ops += 1;
        let (sr, so) = self.locate(st, s, n, false)?;
        let (dr, dof) = self.locate(st, d, n, true)?;
        if !mv && d != s && (d >> 32) == (s >> 32) && d < s + n && s < d + n { return ub("mem", "overlapping memcpy (copy_nonoverlapping on overlapping regions)"); }
        if n <= 8 {
            if let Some(v) = self.obj(st, &sr).read_c(so, n as usize) { self.obj_mut(st, &dr).write_c(dof, n as usize, v); return Ok(()); }
        }
        let src = self.obj(st, &sr).clone();
        self.obj_mut(st, &dr).copy_from(dof, &src, so, n);
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> X<u64> {
        if size == 0 { return ub("alloc", "zero-size allocation"); }
        if !align.is_power_of_two() { return ub("alloc", format!("allocation with alignment {}", align)); }
        if size > i64::MAX as u64 - (align - 1) { return ub("alloc", format!("allocation size {} overflows isize", size)); }
        if size > 0x4_0000_0000 || align > 0x1000_0000 { return uns(format!("allocation of {} bytes (align {})", size, align)); }
        if let Some(k) = st.alloc_fail_in {
            if k == 0 { st.alloc_fail_in = None; st.alloc_failed = true; return Ok(0); }
            st.alloc_fail_in = Some(k - 1);
        }
        let id = HEAP_BASE + st.heap.len as u64;
        let o = Obj::new(size, align, zero, id as u32);
        let off = o.off;
        let k = st.heap.push(o);
        let more = ((off + size) >> 32) as u32;
        for _ in 0..more { let j = st.heap.push(Obj::new(1, 1, false, 0)); st.heap.free(j); }
        if more > 0 { Rc::make_mut(&mut st.huge).push((k, more)); }
        Ok((id << 32) + off)
    }
    fn heap_at(&self, st: &State, addr: u64) -> X<(u32, Rc<Obj>)> {
        let id = addr >> 32;
        if id < HEAP_BASE || id >= STACK_BASE { return ub("alloc", format!("(de)allocation of a pointer not from the allocator: {:#x}", addr)); }
        let k = (id - HEAP_BASE) as u32;
        match st.heap.get(k) {
            None => ub("alloc", "double free / free of a dead allocation"),
            Some(o) => {
                if let Some((_, _, n)) = st.shared { if k < n { return ub("race", "(de)allocation of shared memory while other threads may be reading it"); } }
                if addr & 0xffff_ffff != o.off { return ub("alloc", "(de)allocation through an interior pointer"); } Ok((k, o.clone())) }
        }
    }
    fn dealloc(&mut self, st: &mut State, addr: u64, size: u64, align: u64) -> X<()> {
        let (k, o) = self.heap_at(st, addr)?;
        if o.size != size || o.align != align { return ub("alloc", format!("deallocation with layout size={} align={}, allocated with size={} align={}", size, align, o.size, o.align)); }
        st.heap.free(k);
        Ok(())
    }

    // ---------- control ----------
    fn take_edge(&mut self, st: &mut State, e: u32) {
        let f = &self.m.funcs[st.frames.last().unwrap().func as usize];
        let ed = &f.edges[e as usize];
        match ed.copies.len() {
            0 => {}
            1 => { let v = self.v(st, ed.copies[0].1); self.set(st, ed.copies[0].0, v); }
            _ => { let vs: Vec<Val> = ed.copies.iter().map(|c| self.v(st, c.1)).collect(); for (c, v) in ed.copies.iter().zip(vs) { self.set(st, c.0, v); } }
        }
        st.pc = ed.target;
    }
    fn pop_frame(&mut self, st: &mut State) -> Frame {
        let fr = st.frames.pop().unwrap();
        st.regs.truncate(fr.rbase as usize);
        for i in fr.sbase as usize..st.stack.len() { st.gens[i] = st.gens[i].wrapping_add(1); }
        st.stack.truncate(fr.sbase as usize);
        fr
    }
    fn finish_call(&mut self, st: &mut State, fr: &Frame, ret: Val) {
        // caller frame is on top; its pc of the call is fr.ret_pc
        let f = &self.m.funcs[st.frames.last().unwrap().func as usize];
        let ci = match &f.code[fr.ret_pc as usize] { Inst::Call(c) => c, _ => unreachable!() };
        let (dst, normal) = (ci.dst, ci.normal);
        self.set(st, dst, ret);
        if normal != NOREG { self.take_edge(st, normal); } else { st.pc = fr.ret_pc + 1; }
    }
    fn enter(&mut self, st: &mut State, f: u32, args: &[Val], catch: bool) -> X<()> {
        let fun = &self.m.funcs[f as usize];
        if !fun.has_body { return uns(format!("call of external function {}", fun.name)); }
        if st.frames.len() > 3000 { return ub("stack", format!("stack overflow (recursion) in {}", fun.name)); }
        self.executed[f as usize] = true;
        let rbase = st.regs.len() as u32;
        st.regs.resize(rbase as usize + fun.nregs as usize, Val::U);
        for (i, a) in args.iter().enumerate().take(fun.nparams as usize) { st.regs[rbase as usize + i] = a.clone(); }
        st.frames.push(Frame { func: f, ret_pc: st.pc, rbase, sbase: st.stack.len() as u32, catch });
        st.pc = 0;
        Ok(())
    }
    fn unwind(&mut self, st: &mut State, code: u64) -> X<()> {
        // current top frame: the frame in which the panic was raised or resumed; look for a handler in callers (and in the raising frame's own invoke)
        st.unwinding = code as u32;
        // 1. top frame: the call instruction at st.pc
        let mut pc = st.pc;
        loop {
            let fr = match st.frames.last() { Some(f) => f.clone(), None => return uns("unwound past the entry") };
            let f = &self.m.funcs[fr.func as usize];
            if let Inst::Call(c) = &f.code[pc as usize] { if c.unwind != NOREG { let u = c.unwind; self.take_edge(st, u); return Ok(()); } }
            let popped = self.pop_frame(st);
            if st.frames.is_empty() { return uns("unwound past the entry"); }
            if popped.catch {
                st.unwinding = 0;
                st.catch_depth -= 1;
                self.finish_call(st, &popped, Val::C(code));
                return Ok(());
            }
            pc = popped.ret_pc;
        }
    }
    fn demangle(n: &str) -> String {
        // legacy/v0 approximate: keep identifiers
        let mut out = vec![];
        let b = n.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
                let mut j = i;
                while j < b.len() && b[j].is_ascii_digit() { j += 1; }
                if let Ok(k) = n[i..j].parse::<usize>() { let s = if b.get(j) == Some(&b'_') && k > 0 && !(j + k > b.len()) && !b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { j + 1 } else { j };
                    if k >= 2 && s + k <= b.len() && (b[s].is_ascii_alphabetic() || b[s] == b'_') { out.push(n[s..s + k].to_string()); i = s + k; continue; } }
                i = j;
            } else { i += 1; }
        }
        out.retain(|s| !(s.len() == 17 && s.starts_with('h')));
        if out.is_empty() { n.to_string() } else { out.join("::") }
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut v: Vec<String> = st.frames.iter().rev().take(25).map(|f| Self::demangle(&self.m.funcs[f.func as usize].name)).collect();
        v.dedup();
        v.join(" <- ")
    }
    fn panic_msg(&self, st: &State, name: &str, args: &[Val]) -> String {
        let mut s = String::new();
        for i in 0..args.len().saturating_sub(1) { if let Some(t) = self.read_str(st, &args[i], &args[i + 1]) { if !t.is_empty() && t.chars().all(|c| !c.is_control()) { s = t; break; } } }
        // Location { file: &str, line, col } is the last pointer argument
        let mut loc = String::new();
        if let Some(Val::C(p)) = args.last() {
            let rd = |a: u64, n: u64| -> Option<u64> { let b = self.read_bytes(st, a, n).ok()?; let mut v = 0; for (i, x) in b.iter().enumerate() { if let B::C(c) = x { v |= (*c as u64) << (8 * i) } else { return None; } } Some(v) };
            if let (Some(f), Some(n), Some(l)) = (rd(*p, 8), rd(p + 8, 8), rd(p + 16, 4)) { for k in [n, n.wrapping_sub(1)] { if let Some(t) = self.read_str(st, &Val::C(f), &Val::C(k)) { loc = format!("{}:{}", t.trim_end_matches('\0'), l); break; } } }
        }
        format!("panic via {} {} {}", Self::demangle(name), s, loc)
    }

    // ---------- run ----------
    pub fn inputs_of(&mut self, st: &State) -> Vec<u64> { self.forget_memo(); let v: Vec<(E, u8)> = st.inputs.clone(); let r = v.iter().map(|(e, _)| self.eval(st, *e)).collect(); self.forget_memo(); r }
    fn log_of(&mut self, st: &State) -> Vec<u64> { self.forget_memo(); let r = st.log.clone().iter().map(|l| match l { LogV::C(v) => *v, LogV::S(e) => self.eval(st, *e) }).collect(); self.forget_memo(); r }
    /// Replace model values of weakly constrained inputs with pseudo-random ones that still satisfy the path condition.
    fn diversify(&mut self, st: &mut State) {
        let mut m = (*st.model).clone();
        let inputs = st.inputs.clone();
        let mut h = self.seed;
        for (k, (e, _)) in inputs.iter().enumerate() {
            let n = self.x.n(*e);
            if n.op != Op::Var { continue; }
            h = hash64(h, k as u64 + 1);
            let old = m.get(&n.a).copied();
            let cs: Vec<E> = st.cons.iter().copied().filter(|c| self.x.free(*c).contains(&n.a)).collect();
            m.insert(n.a, h & mask(n.w as u32));
            let mut memo = HashMap::new();
            if !cs.iter().all(|c| self.x.eval(*c, &m, &mut memo) != 0) { match old { Some(o) => { m.insert(n.a, o); } None => { m.remove(&n.a); } } }
        }
        st.model = Rc::new(m);
        self.forget_memo();
    }
    fn end_path(&mut self, mut st: State, stop: Stop) {
        self.stats.paths += 1;
        self.stats.steps += st.steps;
        self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len() as u64);
        self.stats.max_decisions = self.stats.max_decisions.max(st.decisions as u64);
        match stop {
            Stop::Done(k) => {
                match k { "assume" => { self.stats.assumed_away += 1; return; } "abort" => self.stats.aborted += 1, _ => self.stats.completed += 1 }
                let fresh = st.reach & !self.reach != 0;
                self.reach |= st.reach;
                let mut h = self.seed;
                for i in self.inputs_of(&st) { h = hash64(h, i); }
                let full = self.samples.len() >= self.max_samples;
                if !full || fresh || self.samples.iter().map(|s| s.hash).max().unwrap_or(0) > h {
                    self.diversify(&mut st);
                    let inputs = self.inputs_of(&st);
                    let log = self.log_of(&st);
                    let pc = if k == "abort" { "abort".to_string() } else { format!("constraints={} steps={}", st.cons.len(), st.steps) };
                    if full { if let Some(i) = self.samples.iter().enumerate().max_by_key(|(_, s)| s.hash).map(|x| x.0) { self.samples.swap_remove(i); } }
                    self.samples.push(Sample { hash: if fresh { 0 } else { h }, inputs, log, reach: st.reach, pc });
                }
            }
            Stop::Violation(kind, msg) => {
                let inputs = self.inputs_of(&st);
                let log = self.log_of(&st);
                let trace = self.backtrace(&st);
                self.violations.push(Violation { kind, msg, inputs, trace, log });
            }
            Stop::Unsupported(m) => {
                let t = self.backtrace(&st);
                self.errors.push(format!("{} [{}]", m, t));
            }
        }
    }
    /// Runs one state to its end; forked siblings are left in `pending`.
    pub fn run_state(&mut self, mut st: State, donate: &mut dyn FnMut(&mut Exec<'m>) -> bool) {
        self.forget_memo();
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xfff == 0 {
                if let Some(d) = self.deadline { if Instant::now() > d { self.incomplete = true; self.stats.steps += st.steps; return; } }
                if !self.pending.is_empty() && donate(self) { return; }
                if st.steps > self.max_steps { self.end_path(st, Stop::Violation("hang".into(), "step limit exceeded (non-termination?)".into())); return; }
            }
            if let Err(s) = self.step(&mut st) { self.end_path(st, s); return; }
        }
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        st.steps += 1;
        let m = self.m;
        let fi = st.frames.last().unwrap().func;
        let f = &m.funcs[fi as usize];
        match &f.code[st.pc as usize] {
            Inst::Bin { op, w, flags, a, b, dst } => {
                let (a, b) = (self.v(st, *a), self.v(st, *b));
                let r = self.binop(st, *op, *w, *flags, &a, &b)?;
                self.set(st, *dst, r);
                st.pc += 1;
            }
            Inst::Icmp { p, w, a, b, dst } => {
                let (a, b) = (self.v(st, *a), self.v(st, *b));
                let r = match (&a, &b) {
                    (Val::C(x), Val::C(y)) => Val::C(icmp(*p, *w, *x, *y) as u64),
                    (Val::W(x), Val::W(y)) => Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, _ => return uns("signed 128-bit compare") } as u64),
                    (Val::M(x), _) | (_, Val::M(x)) if *w > 64 && !x.iter().any(|b| *b == B::U) && matches!(p, Pred::Eq | Pred::Ne) => {
                        let n = (*w / 8) as usize;
                        let (p1, p2) = (self.to_bytes(&a, n as u64, *w)?, self.to_bytes(&b, n as u64, *w)?);
                        let mut acc = self.x.konst(1, 1);
                        for i in (0..n).step_by(8) {
                            let (l, r) = (self.from_bytes(&p1[i..i + 8], 64)?, self.from_bytes(&p2[i..i + 8], 64)?);
                            match (self.ex(&l, 64)?, self.ex(&r, 64)?) { (Some(l), Some(r)) => { let e = self.x.eq(l, r); acc = self.x.bin(BinOp::And, acc, e); } _ => return uns("mixed compare") }
                        }
                        if *p == Pred::Ne { acc = self.x.not(acc); }
                        self.sv(acc)
                    }
                    (Val::M(x), _) | (_, Val::M(x)) if *w == 128 && !x.iter().any(|b| *b == B::U) && matches!(p, Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) => {
                        let (u, v) = (self.to_bytes(&a, 16, 128)?, self.to_bytes(&b, 16, 128)?);
                        let (u, v) = if matches!(p, Pred::Ugt | Pred::Uge) { (v, u) } else { (u, v) };
                        let mut h = |s: &mut Self, b: &[B]| -> X<E> { let v = s.from_bytes(b, 64)?; s.ex(&v, 64)?.ok_or_else(|| Stop::Unsupported("wide compare".into())) };
                        let (ul, uh, vl, vh) = (h(self, &u[..8])?, h(self, &u[8..])?, h(self, &v[..8])?, h(self, &v[8..])?);
                        let (lt, eq) = (self.x.cmp(Pred::Ult, uh, vh), self.x.eq(uh, vh));
                        let lo = self.x.cmp(if matches!(p, Pred::Ult | Pred::Ugt) { Pred::Ult } else { Pred::Ule }, ul, vl);
                        let t = self.x.bin(BinOp::And, eq, lo);
                        let r = self.x.bin(BinOp::Or, lt, t);
                        self.sv(r)
                    }
                    _ => match (self.ex(&a, *w)?, self.ex(&b, *w)?) { (Some(x), Some(y)) => { let e = self.x.cmp(*p, x, y); self.sv(e) } _ => Val::U },
                };
                self.set(st, *dst, r);
                st.pc += 1;
            }
            Inst::Cast { op, from, to, nuw, a, dst } => {
                let a = self.v(st, *a);
                let r = self.cast(st, *op, *from, *to, *nuw, a)?;
                self.set(st, *dst, r);
                st.pc += 1;
            }
            Inst::Load { ty, p, align, dst } => {
                let pv = self.v(st, *p);
                let p = self.conc(st, &pv, "load address")?;
                if p & (*align as u64 - 1) != 0 { return ub("mem", format!("misaligned load (alignment {} required)", align)); }
                if p >> 32 == 0 && Self::lsize(ty) == 0 { let v = match ty { LTy::Agg(..) => Val::Agg(Arc::new(vec![])), _ => Val::U }; self.set(st, *dst, v); st.pc += 1; return Ok(()); }
                let v = self.load(st, p, ty)?;
                self.set(st, *dst, v);
                st.pc += 1;
            }
            Inst::Store { ty, v, p, align } => {
                let pv = self.v(st, *p);
                let p = self.conc(st, &pv, "store address")?;
                if p & (*align as u64 - 1) != 0 { return ub("mem", format!("misaligned store (alignment {} required)", align)); }
                let v = self.v(st, *v);
                self.store(st, p, ty, &v)?;
                st.pc += 1;
            }
            Inst::Gep { base, off, idx, dst } => {
                let b = self.v(st, *base);
                if idx.is_empty() {
                    let r = match b { Val::C(x) => Val::C(x.wrapping_add(*off as u64)), Val::S(e) => { let k = self.x.konst(*off as u64, 64); let r = self.x.bin(BinOp::Add, e, k); self.sv(r) } Val::U => Val::U, _ => return uns("gep base") };
                    self.set(st, *dst, r);
                    st.pc += 1;
                    return Ok(());
                }
                let mut conc = match b { Val::C(x) => Some(x.wrapping_add(*off as u64)), _ => None };
                if let Some(mut acc) = conc {
                    for (o, w, s) in idx { match self.v(st, *o) { Val::C(x) => acc = acc.wrapping_add((sext(x, *w)).wrapping_mul(*s) as u64), _ => { conc = None; break; } } }
                    if conc.is_some() { self.set(st, *dst, Val::C(acc)); st.pc += 1; return Ok(()); }
                }
                let mut acc = match self.ex(&b, 64)? { Some(e) => e, None => { self.set(st, *dst, Val::U); st.pc += 1; return Ok(()); } };
                let k = self.x.konst(*off as u64, 64);
                acc = self.x.bin(BinOp::Add, acc, k);
                for (o, w, s) in idx {
                    let v = self.v(st, *o);
                    let e = match self.ex(&v, *w)? { Some(e) => e, None => { self.set(st, *dst, Val::U); st.pc += 1; return Ok(()); } };
                    let e = self.x.sext(e, 64);
                    let k = self.x.konst(*s as u64, 64);
                    let t = self.x.bin(BinOp::Mul, e, k);
                    acc = self.x.bin(BinOp::Add, acc, t);
                }
                let r = self.sv(acc);
                self.set(st, *dst, r);
                st.pc += 1;
            }
            Inst::Alloca { size, align, dst } => {
                let slot = st.stack.len();
                if slot >= 0x3fff { return ub("stack", "too many live stack objects"); }
                if st.gens.len() <= slot { st.gens.push(0); }
                let id = STACK_BASE + ((st.gens[slot] as u64) << 14) + slot as u64;
                let o = Obj::new(*size, *align as u64, false, id as u32);
                let a = (id << 32) + o.off;
                st.stack.push(Rc::new(o));
                self.set(st, *dst, Val::C(a));
                st.pc += 1;
            }
            Inst::Select { c, a, b, w, dst } => {
                let c = self.v(st, *c);
                let (av, bv) = (self.v(st, *a), self.v(st, *b));
                let r = match c {
                    Val::C(x) => if x & 1 != 0 { av } else { bv },
                    Val::S(e) => {
                        // a choice between two positions ends up in an address: decided right here
                        let position = *w == 64 && matches!((&av, &bv), (Val::C(x), Val::C(y)) if x != y);
                        let mergeable = !position && *w > 0 && *w <= 64 && matches!(av, Val::C(_) | Val::S(_)) && matches!(bv, Val::C(_) | Val::S(_));
                        if mergeable { let (x, y) = (self.ex(&av, *w)?.unwrap(), self.ex(&bv, *w)?.unwrap()); let r = self.x.ite(e, x, y); self.sv(r) }
                        else if self.branch(st, e)? { av } else { bv }
                    }
                    Val::U | Val::M(_) => Val::U,
                    v => return uns(format!("select on {:?}", v)),
                };
                self.set(st, *dst, r);
                st.pc += 1;
            }
            Inst::Extract { a, path, dst } => {
                let mut v = self.v(st, *a);
                for i in path { v = match v { Val::Agg(x) => x[*i as usize].clone(), Val::U => Val::U, v => return uns(format!("extractvalue of {:?}", v)) }; }
                self.set(st, *dst, v);
                st.pc += 1;
            }
            Inst::Insert { a, v, path, dst, shape } => {
                let mut base = self.v(st, *a);
                if matches!(base, Val::U) { base = m.fill_of(shape, &Val::U).map_err(Stop::Unsupported)?; }
                let v = self.v(st, *v);
                fn ins(b: &Val, path: &[u32], v: Val) -> Option<Val> {
                    if path.is_empty() { return Some(v); }
                    match b { Val::Agg(x) => { let mut x = (**x).clone(); x[path[0] as usize] = ins(&x[path[0] as usize].clone(), &path[1..], v)?; Some(Val::Agg(Arc::new(x))) } _ => None }
                }
                let r = match ins(&base, path, v) { Some(r) => r, None => return uns("insertvalue") };
                self.set(st, *dst, r);
                st.pc += 1;
            }
            Inst::Atomic { p } => {
                if st.shared.is_some() {
                    let pv = self.v(st, *p);
                    let p = self.conc(st, &pv, "atomic address")?;
                    let (r, _) = self.locate(st, p, 1, false)?;
                    if self.race(st, &r, p).is_err() { return uns("atomic change of memory that other threads may be using"); }
                }
                st.pc += 1;
            }
            Inst::Freeze { a, dst } => {
                let v = match self.v(st, *a) { Val::U => Val::C(0), Val::M(b) => { let b: Vec<B> = b.iter().map(|x| if *x == B::U { B::C(0) } else { *x }).collect(); let w = 8 * b.len() as u32; self.from_bytes(&b, w)? } v => v };
                self.set(st, *dst, v);
                st.pc += 1;
            }
            Inst::Call(ci) => return self.call(st, ci),
            Inst::Br { e } => { self.take_edge(st, *e); }
            Inst::CondBr { c, t, f } => {
                let cv = self.v(st, *c);
                let b = match cv { Val::C(x) => x & 1 != 0, Val::S(e) => self.branch(st, e)?, _ => return ub("uninit", "branch depends on uninitialised memory") };
                self.take_edge(st, if b { *t } else { *f });
            }
            Inst::Switch { v, w, cases, default } => {
                let v = self.v(st, *v);
                match v {
                    Val::C(x) => { let e = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*default); self.take_edge(st, e); }
                    Val::S(e) => {
                        // decide case by case
                        for (k, edge) in cases {
                            let kk = self.x.konst(*k, *w);
                            let eq = self.x.eq(e, kk);
                            if self.branch(st, eq)? { self.take_edge(st, *edge); return Ok(()); }
                        }
                        self.take_edge(st, *default);
                    }
                    Val::W(x) => { let e = cases.iter().find(|c| c.0 as u128 == *x).map(|c| c.1).unwrap_or(*default); self.take_edge(st, e); }
                    _ => return ub("uninit", "switch depends on uninitialised memory"),
                }
            }
            Inst::Ret { v } => {
                let r = match v { Some(o) => self.v(st, *o), None => Val::U };
                if st.frames.len() == 1 {
                    if st.heap.live > 0 && !st.leak_ok && !self.leaks_ignored {
                        let l: Vec<String> = st.heap.iter_live().take(4).map(|(i, o)| format!("#{} ({} bytes)", i, o.size)).collect();
                        return ub("leak", format!("{} allocation(s) never released: {}", st.heap.live, l.join(", ")));
                    }
                    return Err(Stop::Done("end"));
                }
                let fr = self.pop_frame(st);
                if fr.catch { st.catch_depth -= 1; self.finish_call(st, &fr, Val::C(0)); } else { self.finish_call(st, &fr, r); }
            }
            Inst::Unreachable => return ub("unreachable", "reached code the compiler was told is unreachable"),
            Inst::LandingPad { dst } => { self.set(st, *dst, Val::Agg(Arc::new(vec![Val::C(st.unwinding as u64), Val::C(0)]))); st.pc += 1; }
            Inst::Resume { .. } => {
                let code = st.unwinding as u64;
                let popped = self.pop_frame(st);
                if popped.catch { st.unwinding = 0; st.catch_depth -= 1; self.finish_call(st, &popped, Val::C(code)); return Ok(()); }
                if st.frames.is_empty() { return uns("unwound past the entry"); }
                st.pc = popped.ret_pc;
                return self.unwind(st, code);
            }
            Inst::Unsupported(s) => return uns(format!("instruction: {}", s)),
        }
        Ok(())
    }

    fn binop(&mut self, st: &mut State, op: BinOp, w: u32, flags: u8, a: &Val, b: &Val) -> X<Val> {
        use BinOp::*;
        match (a, b) {
            (Val::C(x), Val::C(y)) => {
                let (x, y) = (*x, *y);
                if flags != 0 && w <= 64 && overflows(op, w, flags, x, y) { return ub("overflow", format!("arithmetic overflow in an operation marked non-overflowing ({:?} {} {})", op, x, y)); }
                match cbin(op, w, x, y) { Some(v) => Ok(Val::C(v)), None => ub("div", format!("{:?} by {}", op, y)) }
            }
            (Val::W(_), _) | (_, Val::W(_)) if w > 64 && !matches!(a, Val::M(_)) && !matches!(b, Val::M(_)) => {
                let g = |v: &Val| match v { Val::W(x) => Some(**x), Val::C(x) => Some(*x as u128), _ => None };
                let (x, y) = match (g(a), g(b)) { (Some(x), Some(y)) => (x, y), _ => return uns("symbolic arithmetic wider than 64 bits") };
                let r = match op { Add => x.wrapping_add(y), Sub => x.wrapping_sub(y), Mul => x.wrapping_mul(y), UDiv if y != 0 => x / y, URem if y != 0 => x % y, Shl => x << (y & 127), LShr => x >> (y & 127), And => x & y, Or => x | y, Xor => x ^ y, _ => return uns("128-bit op") };
                Ok(Val::W(Arc::new(r)))
            }
            _ => {
                if w == 128 && matches!(op, Shl | LShr) && matches!(b, Val::M(_)) {
                    // two halves
                    let (x, y) = (self.bv(a, w)?, self.bv(b, w)?);
                    if x.iter().chain(&y).any(|b| *b == B::U) { return Ok(Val::U); }
                    let mut h = |s: &mut Self, b: &[B]| -> X<E> { let v = s.from_bytes(b, 64)?; s.ex(&v, 64)?.ok_or_else(|| Stop::Unsupported("wide shift".into())) };
                    let (lo, hi, n, top) = (h(self, &x[..8])?, h(self, &x[8..])?, h(self, &y[..8])?, h(self, &y[8..])?);
                    let (z, k64, k128) = (self.x.konst(0, 64), self.x.konst(64, 64), self.x.konst(128, 64));
                    let (c1, c2) = (self.x.eq(top, z), self.x.cmp(Pred::Ult, n, k128));
                    let ok = self.x.bin(And, c1, c2);
                    self.must(st, ok, "shift", "shift amount out of range")?;
                    let (lo, hi) = if op == LShr { (hi, lo) } else { (lo, hi) };
                    // towards hi: near = lo << n, far = hi << n | lo >> (64 - n); shifts of 64 or more give 0
                    let back = if op == Shl { LShr } else { Shl };
                    let small = self.x.cmp(Pred::Ult, n, k64);
                    let zero = self.x.eq(n, z);
                    let k63 = self.x.konst(63, 64);
                    let m = self.x.bin(And, n, k63);
                    let inv0 = self.x.bin(Sub, k64, m);
                    let inv = self.x.bin(And, inv0, k63);
                    let (a1, a2, a3, a4) = (self.x.bin(op, lo, m), self.x.bin(op, hi, m), self.x.bin(back, lo, inv), self.x.bin(op, lo, m));
                    let near = self.x.ite(small, a1, z);
                    let mix = self.x.bin(Or, a2, a3);
                    let f1 = self.x.ite(zero, hi, mix);
                    let far = self.x.ite(small, f1, a4);
                    let (l, r) = if op == Shl { (near, far) } else { (far, near) };
                    let mut out: Vec<B> = (0..8).map(|i| self.byte(l, i)).collect();
                    for i in 0..8 { out.push(self.byte(r, i)); }
                    return self.from_bytes(&out, 128);
                }
                if matches!(a, Val::M(_)) || matches!(b, Val::M(_)) { return self.mixed(op, w, a, b); }
                if w > 64 { return uns("symbolic arithmetic wider than 64 bits"); }
                if op == Or || op == And {
                    // shortcuts with uninit operands stay poison
                }
                let (x, y) = match (self.ex(a, w)?, self.ex(b, w)?) { (Some(x), Some(y)) => (x, y), _ => return Ok(Val::U) };
                if matches!(op, UDiv | URem | SDiv | SRem) { let z = self.x.konst(0, w); let e = self.x.eq(y, z); let ne = self.x.not(e); self.must(st, ne, "div", "division by zero")?; }
                if matches!(op, Shl | LShr | AShr) { let k = self.x.konst(w as u64, w); let ok = if mask(w) < w as u64 { self.x.konst(1, 1) } else { self.x.cmp(Pred::Ult, y, k) }; self.must(st, ok, "shift", "shift amount out of range")?; }
                if flags != 0 && matches!(op, Add | Sub | Mul) && w <= 32 {
                    // overflow impossible?
                    let ok = self.no_overflow(op, w, flags, x, y);
                    self.must(st, ok, "overflow", "arithmetic overflow in an operation marked non-overflowing")?;
                } else if flags & 1 != 0 && matches!(op, Add | Sub) {
                    let ok = if op == Sub { self.x.cmp(Pred::Uge, x, y) } else { let s = self.x.bin(Add, x, y); self.x.cmp(Pred::Uge, s, x) };
                    self.must(st, ok, "overflow", "arithmetic overflow in an operation marked non-overflowing")?;
                }
                let r = self.x.bin(op, x, y);
                Ok(self.sv(r))
            }
        }
    }
    fn no_overflow(&mut self, op: BinOp, w: u32, flags: u8, x: E, y: E) -> E {
        let mut ok = self.x.konst(1, 1);
        let w2 = (2 * w).min(64);
        if flags & 1 != 0 { let (a, b) = (self.x.zext(x, w2), self.x.zext(y, w2)); let r = self.x.bin(op, a, b); let n = self.x.bin(op, x, y); let n = self.x.zext(n, w2); let e = self.x.eq(r, n); ok = self.x.bin(BinOp::And, ok, e); }
        if flags & 2 != 0 { let (a, b) = (self.x.sext(x, w2), self.x.sext(y, w2)); let r = self.x.bin(op, a, b); let n = self.x.bin(op, x, y); let n = self.x.sext(n, w2); let e = self.x.eq(r, n); ok = self.x.bin(BinOp::And, ok, e); }
        ok
    }
    /// byte-wise logic on partially initialised values
    fn mixed(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
        use BinOp::*;
        if w % 8 != 0 { return Ok(Val::U); }
        let (x, y) = (self.bv(a, w)?, self.bv(b, w)?);
        let n = x.len();
        let out: Vec<B> = match op {
            And | Or | Xor => (0..n).map(|i| match (op, x[i], y[i]) {
                (And, B::C(0), _) | (And, _, B::C(0)) => B::C(0),
                (And, B::C(255), o) | (And, o, B::C(255)) => o,
                (Or | Xor, B::C(0), o) | (Or | Xor, o, B::C(0)) => o,
                (_, B::C(p), B::C(q)) => B::C(match op { And => p & q, Or => p | q, _ => p ^ q }),
                (_, B::U, _) | (_, _, B::U) => B::U,
                (_, p, q) => {
                    let g = |s: &mut Self, b: B| match b { B::C(v) => s.x.konst(v as u64, 8), B::S(e, i) => s.x.extract(e, 8 * i as u32, 8), B::U => unreachable!() };
                    let (p, q) = (g(self, p), g(self, q));
                    let e = self.x.bin(op, p, q);
                    self.byte(e, 0)
                }
            }).collect(),
            Shl | LShr => {
                let s = match b { Val::C(s) => *s, _ => return Ok(Val::U) };
                if s % 8 != 0 { return Ok(Val::U); }
                let k = (s / 8) as usize;
                (0..n).map(|i| if op == LShr { if i + k < n { x[i + k] } else { B::C(0) } } else if i >= k { x[i - k] } else { B::C(0) }).collect()
            }
            _ => return Ok(Val::U),
        };
        self.from_bytes(&out, w)
    }
    fn cast(&mut self, st: &mut State, op: CastOp, from: u32, to: u32, nuw: bool, a: Val) -> X<Val> {
        Ok(match a {
            Val::C(x) => match op {
                CastOp::Trunc => { if nuw && x & !mask(to) != 0 { return ub("trunc", "value out of the range its type allows (invalid bool/enum?)"); } Val::C(x & mask(to)) }
                CastOp::ZExt => if to > 64 { Val::W(Arc::new(x as u128)) } else { Val::C(x) },
                CastOp::SExt => if to > 64 { Val::W(Arc::new(sext(x, from) as i128 as u128)) } else { Val::C(sext(x, from) as u64 & mask(to)) },
                CastOp::Bits => Val::C(x),
            },
            Val::S(e) => match op {
                CastOp::Trunc => {
                    if nuw { let hi = self.x.extract(e, to, from - to); let z = self.x.konst(0, from - to); let ok = self.x.eq(hi, z); self.must(st, ok, "trunc", "value out of the range its type allows (invalid bool/enum?)")?; }
                    let r = self.x.extract(e, 0, to); self.sv(r)
                }
                CastOp::ZExt => { if to > 64 { let mut b = self.bv(&Val::S(e), from)?; b.resize((to / 8) as usize, B::C(0)); return Ok(Val::M(Arc::new(b))); } let r = self.x.zext(e, to); self.sv(r) }
                CastOp::SExt => { if to > 64 { return uns("sext to 128"); } let r = self.x.sext(e, to); self.sv(r) }
                CastOp::Bits => Val::S(e),
            },
            Val::W(x) => match op { CastOp::Trunc => if to <= 64 { Val::C(*x as u64 & mask(to)) } else { Val::W(x) }, CastOp::Bits => Val::W(x), _ => return uns("widening 128") },
            Val::U => Val::U,
            Val::M(b) => match op {
                CastOp::Trunc if to % 8 == 0 => { let n = (to / 8) as usize; self.from_bytes(&b[..n], to)? }
                CastOp::Trunc => { if b[0] == B::U { Val::U } else { let v = self.from_bytes(&b[..1], 8)?; return self.cast(st, CastOp::Trunc, 8, to, false, v); } }
                CastOp::ZExt => { let mut b = (*b).clone(); b.resize((to as usize + 7) / 8, B::C(0)); Val::M(Arc::new(b)) }
                CastOp::Bits => Val::M(b),
                _ => Val::U,
            },
            v => return uns(format!("cast of {:?}", v)),
        })
    }

    fn call(&mut self, st: &mut State, ci: &CallI) -> X<()> {
        let fid = match ci.callee {
            Callee::Fn(f) => f,
            Callee::Ind(o) => {
                let v = self.v(st, o);
                let a = self.conc(st, &v, "function pointer")?;
                match addr_func(a) { Some(f) if (f as usize) < self.m.funcs.len() => f, _ => return ub("mem", format!("call through invalid function pointer {:#x}", a)) }
            }
        };
        let fun = &self.m.funcs[fid as usize];
        if fun.intrinsic == Intr::Normal {
            if self.uf.contains(&fid) {
                if let Some(r) = self.uninterpreted(st, fid, ci)? {
                    self.set(st, ci.dst, r);
                    if ci.normal != NOREG { self.take_edge(st, ci.normal); } else { st.pc += 1; }
                    return Ok(());
                }
            }
            if !fun.has_body { return uns(format!("call of external function {}", fun.name)); }
            // fast path without collecting into a Vec
            let mut buf: Vec<Val> = Vec::with_capacity(ci.args.len());
            for a in &ci.args { buf.push(self.v(st, *a)); }
            for (i, size, align) in &ci.byval {
                let src = self.conc(st, &buf[*i].clone(), "byval pointer")?;
                // copy into a fresh caller-owned stack object
                let slot = st.stack.len();
                if st.gens.len() <= slot { st.gens.push(0); }
                let id = STACK_BASE + ((st.gens[slot] as u64) << 14) + slot as u64;
                let o = Obj::new(*size, *align, false, id as u32);
                let a = (id << 32) + o.off;
                st.stack.push(Rc::new(o));
                self.memcpy(st, a, src, *size, false)?;
                buf[*i] = Val::C(a);
            }
            return self.enter(st, fid, &buf, false);
        }
        let args: Vec<Val> = ci.args.iter().map(|a| self.v(st, *a)).collect();
        let r = self.intrinsic(st, fid, fun.intrinsic, &args, ci)?;
        if let Some(r) = r {
            self.set(st, ci.dst, r);
            if ci.normal != NOREG { self.take_edge(st, ci.normal); } else { st.pc += 1; }
        }
        Ok(())
    }

    /// hash(ptr, len, Option<usize>) -> u32 over symbolic bytes: an unknown value that is equal for equal bytes.
    fn uninterpreted(&mut self, st: &mut State, fid: u32, ci: &CallI) -> X<Option<Val>> {
        let a: Vec<Val> = ci.args.iter().map(|a| self.v(st, *a)).collect();
        if ci.retw != 32 { return Ok(None); }
        let (p, n) = match a[..] {
            [Val::C(p), Val::C(n), Val::C(0), _] => (p, n),
            [Val::C(p), Val::C(n), Val::C(1), Val::C(l)] => (p, if l <= n && l > 0 { l } else { n }),
            _ => return Ok(None),
        };
        if n == 0 || n > 64 { return Ok(None); }
        let bytes = self.read_bytes(st, p, n)?;
        if bytes.iter().all(|b| matches!(b, B::C(_))) { return Ok(None); }
        let mut es = vec![];
        for b in bytes { es.push(match b { B::C(v) => self.x.konst(v as u64, 8), B::S(e, i) => self.x.extract(e, 8 * i as u32, 8), B::U => return Ok(None) }); }
        let calls = st.uf_calls.clone();
        for (f, bs, r) in calls.iter() { if *f == fid && *bs == es { return Ok(Some(Val::S(*r))); } }
        let vi = UF_BASE + calls.len() as u32;
        self.nuf = self.nuf.max(calls.len() as u32 + 1);
        let r = self.x.var(vi, 32);
        let mut value = hash64(0x5eed, vi as u64) & 0x7fff_ffff;
        let mut cs = vec![];
        for v in self.uf_not.clone() { let k = self.x.konst(v, 32); let e = self.x.eq(r, k); cs.push(self.x.not(e)); }
        for (f, bs, s) in calls.iter() {
            if *f != fid || bs.len() != es.len() { continue; }
            let mut same = self.x.konst(1, 1);
            for (x, y) in bs.iter().zip(&es) { let q = self.x.eq(*x, *y); same = self.x.bin(BinOp::And, same, q); }
            if self.x.cv(same) == Some(0) { continue; }
            if self.eval(st, same) != 0 { value = self.eval(st, *s); }
            let (differ, eq) = (self.x.not(same), self.x.eq(r, *s));
            cs.push(self.x.bin(BinOp::Or, differ, eq));
        }
        self.forget_memo();
        let mut m = (*st.model).clone();
        m.insert(vi, value);
        st.model = Rc::new(m);
        for c in cs { self.assume(st, c); }
        Rc::make_mut(&mut st.uf_calls).push((fid, es, r));
        Ok(Some(Val::S(r)))
    }

    /// Some(value): falls through; None: control was transferred.
    fn intrinsic(&mut self, st: &mut State, fid: u32, it: Intr, a: &[Val], ci: &CallI) -> X<Option<Val>> {
        use Intr::*;
        let w = ci.retw;
        Ok(Some(match it {
            Memcpy | Memmove => {
                let (d, s, n) = (self.conc(st, &a[0], "memcpy destination")?, self.conc(st, &a[1], "memcpy source")?, self.conc(st, &a[2], "memcpy length")?);
                self.memcpy(st, d, s, n, it == Memmove)?;
                Val::C(d)
            }
            Memset => {
                let (d, n) = (self.conc(st, &a[0], "memset destination")?, self.conc(st, &a[2], "memset length")?);
                if n > 0 {
                    let b = match &a[1] { Val::C(x) => B::C(*x as u8), Val::U => B::U, Val::S(e) => { let b = self.x.extract(*e, 0, 8); self.byte(b, 0) } _ => return uns("memset") };
                    let (r, off) = self.locate(st, d, n, true)?;
                    self.obj_mut(st, &r).fill(off, n, b);
                }
                Val::C(d)
            }
            Memcmp | Bcmp => {
                let (p, q, n) = (self.conc(st, &a[0], "memcmp")?, self.conc(st, &a[1], "memcmp")?, self.conc(st, &a[2], "memcmp length")?);
                let (x, y) = (self.read_bytes(st, p, n)?, self.read_bytes(st, q, n)?);
                let mut acc = self.x.konst(0, 32);
                let (neg, pos) = (self.x.konst(0xffff_ffff, 32), self.x.konst(1, 32));
                for i in (0..n as usize).rev() {
                    let g = |s: &mut Self, b: B| match b { B::C(v) => Some(s.x.konst(v as u64, 8)), B::S(e, i) => Some(s.x.extract(e, 8 * i as u32, 8)), B::U => None };
                    let (u, v) = match (g(self, x[i]), g(self, y[i])) { (Some(u), Some(v)) => (u, v), _ => return ub("uninit", "memcmp on uninitialised memory") };
                    let eq = self.x.eq(u, v);
                    let lt = self.x.cmp(Pred::Ult, u, v);
                    let d = self.x.ite(lt, neg, pos);
                    acc = self.x.ite(eq, acc, d);
                }
                self.sv(acc)
            }
            Ctpop | Ctlz | Cttz | Bswap | BitReverse => {
                if let (Bswap, Val::S(e)) = (it, &a[0]) {
                    let n = w / 8;
                    let mut acc = self.x.extract(*e, 0, 8);
                    for i in 1..n { let b = self.x.extract(*e, 8 * i, 8); acc = self.x.concat(acc, b); }
                    return Ok(Some(self.sv(acc)));
                }
                if let Val::U = a[0] { return Ok(Some(Val::U)); }
                let aw = if w == 0 { 64 } else { w };
                let x = self.conc(st, &a[0], "bit count operand")? & mask(aw);
                match it {
                    Ctpop => Val::C(x.count_ones() as u64),
                    Ctlz => { if x == 0 && matches!(a.get(1), Some(Val::C(1))) { Val::U } else { Val::C((x.leading_zeros() - (64 - aw)) as u64) } }
                    Cttz => { if x == 0 { if matches!(a.get(1), Some(Val::C(1))) { Val::U } else { Val::C(aw as u64) } } else { Val::C(x.trailing_zeros() as u64) } }
                    Bswap => Val::C(x.swap_bytes() >> (64 - aw)),
                    _ => Val::C(x.reverse_bits() >> (64 - aw)),
                }
            }
            IsConstant => Val::C(0),
            Ucmp | Scmp => {
                // result width w, operand width from the callee name
                let name = &self.m.funcs[fid as usize].name;
                let ow: u32 = name.rsplit(".i").next().and_then(|s| s.parse().ok()).unwrap_or(64);
                match (self.ex(&a[0], ow)?, self.ex(&a[1], ow)?) {
                    (Some(x), Some(y)) => {
                        let lt = self.x.cmp(if it == Ucmp { Pred::Ult } else { Pred::Slt }, x, y);
                        let eq = self.x.eq(x, y);
                        let (n, z, p) = (self.x.konst(u64::MAX, w), self.x.konst(0, w), self.x.konst(1, w));
                        let r = self.x.ite(lt, n, p);
                        let r = self.x.ite(eq, z, r);
                        self.sv(r)
                    }
                    _ => Val::U,
                }
            }
            UMulO | UAddO | USubO | SMulO | SAddO | SSubO => {
                let name = &self.m.funcs[fid as usize].name;
                let ow: u32 = name.rsplit(".i").next().and_then(|s| s.parse().ok()).unwrap_or(64);
                let signed = matches!(it, SMulO | SAddO | SSubO);
                let op = match it { UMulO | SMulO => BinOp::Mul, UAddO | SAddO => BinOp::Add, _ => BinOp::Sub };
                match (&a[0], &a[1]) {
                    (Val::C(x), Val::C(y)) => { let o = overflows(op, ow, if signed { 2 } else { 1 }, *x, *y); Val::Agg(Arc::new(vec![Val::C(cbin(op, ow, *x, *y).unwrap()), Val::C(o as u64)])) }
                    (Val::W(_), _) | (_, Val::W(_)) => return uns("128-bit overflow arithmetic"),
                    _ => match (self.ex(&a[0], ow)?, self.ex(&a[1], ow)?) {
                        (Some(x), Some(y)) => {
                            let r = self.x.bin(op, x, y);
                            let o = match (op, signed) {
                                (BinOp::Add, false) => self.x.cmp(Pred::Ult, r, x),
                                (BinOp::Sub, false) => self.x.cmp(Pred::Ult, x, y),
                                (BinOp::Add, true) => { // sign(x)==sign(y) && sign(r)!=sign(x)
                                    let (sx, sy, sr) = (self.x.extract(x, ow - 1, 1), self.x.extract(y, ow - 1, 1), self.x.extract(r, ow - 1, 1));
                                    let e = self.x.eq(sx, sy); let d = self.x.eq(sr, sx); let d = self.x.not(d); self.x.bin(BinOp::And, e, d)
                                }
                                (BinOp::Sub, true) => { let (sx, sy, sr) = (self.x.extract(x, ow - 1, 1), self.x.extract(y, ow - 1, 1), self.x.extract(r, ow - 1, 1)); let e = self.x.eq(sx, sy); let e = self.x.not(e); let d = self.x.eq(sr, sx); let d = self.x.not(d); self.x.bin(BinOp::And, e, d) }
                                _ => {
                                    if ow <= 32 { let ok = self.no_overflow(op, ow, if signed { 2 } else { 1 }, x, y); self.x.not(ok) }
                                    else {
                                        let (p, q) = if self.x.cv(x).is_some() { (y, x) } else { (x, y) };
                                        match self.x.cv(q) {
                                            Some(0) => self.x.konst(0, 1),
                                            Some(k) if !signed => { let l = self.x.konst(u64::MAX / k, ow); self.x.cmp(Pred::Ugt, p, l) }
                                            _ => { // concretise one operand
                                                let k = self.conc_e(st, q)?;
                                                if signed { return uns("signed symbolic multiplication overflow"); }
                                                if k == 0 { self.x.konst(0, 1) } else { let l = self.x.konst(u64::MAX / k, ow); self.x.cmp(Pred::Ugt, p, l) }
                                            }
                                        }
                                    }
                                }
                            };
                            let (r, o) = (self.sv(r), self.sv(o));
                            Val::Agg(Arc::new(vec![r, o]))
                        }
                        _ => Val::Agg(Arc::new(vec![Val::U, Val::U])),
                    },
                }
            }
            UMin | UMax | SMin | SMax => {
                match (self.ex(&a[0], w)?, self.ex(&a[1], w)?) {
                    (Some(x), Some(y)) => { let c = self.x.cmp(match it { UMin | UMax => Pred::Ult, _ => Pred::Slt }, x, y); let r = if matches!(it, UMin | SMin) { self.x.ite(c, x, y) } else { self.x.ite(c, y, x) }; self.sv(r) }
                    _ => Val::U,
                }
            }
            USubSat | UAddSat => {
                match (self.ex(&a[0], w)?, self.ex(&a[1], w)?) {
                    (Some(x), Some(y)) => {
                        let r = if it == USubSat { let c = self.x.cmp(Pred::Ult, x, y); let z = self.x.konst(0, w); let d = self.x.bin(BinOp::Sub, x, y); self.x.ite(c, z, d) }
                        else { let s = self.x.bin(BinOp::Add, x, y); let c = self.x.cmp(Pred::Ult, s, x); let z = self.x.konst(u64::MAX, w); self.x.ite(c, z, s) };
                        self.sv(r)
                    }
                    _ => Val::U,
                }
            }
            Abs => match self.ex(&a[0], w)? { Some(x) => { let z = self.x.konst(0, w); let n = self.x.bin(BinOp::Sub, z, x); let c = self.x.cmp(Pred::Slt, x, z); let r = self.x.ite(c, n, x); self.sv(r) } None => Val::U },
            Fshl | Fshr => {
                let s = self.conc(st, &a[2], "funnel shift")? % w as u64;
                let (hi, lo) = match (self.ex(&a[0], w)?, self.ex(&a[1], w)?) { (Some(x), Some(y)) => (x, y), _ => return Ok(Some(Val::U)) };
                let l = if it == Fshl { s } else { (w as u64 - s) % w as u64 };
                let r = if s == 0 { if it == Fshl { hi } else { lo } } else {
                    let k1 = self.x.konst(l, w); let k2 = self.x.konst(w as u64 - l, w);
                    let p = self.x.bin(BinOp::Shl, hi, k1); let q = self.x.bin(BinOp::LShr, lo, k2);
                    self.x.bin(BinOp::Or, p, q)
                };
                self.sv(r)
            }
            Nop | NoShim => Val::U,
            Expect => a[0].clone(),
            ThreadLocalAddr => a[0].clone(),
            Assume => {
                match &a[0] { Val::C(0) => return ub("assume", "an assumption handed to the optimiser is false"), Val::S(e) => { let e = *e; self.must(st, e, "assume", "an assumption handed to the optimiser can be false")?; } _ => {} }
                Val::U
            }
            Trap => { if st.alloc_failed { return Err(Stop::Done("abort")); } return ub("abort", "trap / abort"); }
            Alloc | AllocZeroed => {
                let (s, al) = (self.conc(st, &a[0], "allocation size")?, self.conc(st, &a[1], "allocation alignment")?);
                Val::C(self.alloc(st, s, al, it == AllocZeroed)?)
            }
            KeyCreate => { let p = self.conc(st, &a[0], "key pointer")?; self.store(st, p, &LTy::Int(32), &Val::C(1))?; Val::C(0) }
            Zero => Val::C(0),
            Malloc => { let s = self.conc(st, &a[0], "allocation size")?; Val::C(self.alloc(st, s.max(1), 16, false)?) }
            Free => {
                let p = self.conc(st, &a[0], "free pointer")?;
                if p != 0 { let (s, al) = { let (_, o) = self.heap_at(st, p)?; (o.size, o.align) }; self.dealloc(st, p, s, al)?; }
                Val::U
            }
            Realloc => {
                let (p, os, al, ns) = (self.conc(st, &a[0], "realloc pointer")?, self.conc(st, &a[1], "realloc size")?, self.conc(st, &a[2], "realloc alignment")?, self.conc(st, &a[3], "realloc size")?);
                let (k, o) = self.heap_at(st, p)?;
                if o.size != os || o.align != al { return ub("alloc", format!("realloc with layout size={} align={}, allocated with size={} align={}", os, al, o.size, o.align)); }
                if ns == 0 { return ub("alloc", "realloc to size zero"); }
                if ns > i64::MAX as u64 - (al - 1) { return ub("alloc", "realloc size overflows isize"); }
                if ns > 0xE000_0000 { return uns(format!("allocation of {} bytes", ns)); }
                if let Some(c) = st.alloc_fail_in { if c == 0 { st.alloc_fail_in = None; st.alloc_failed = true; return Ok(Some(Val::C(0))); } st.alloc_fail_in = Some(c - 1); }
                let id = HEAP_BASE + st.heap.len as u64;
                let n = o.resized(ns, id as u32);
                let off = n.off;
                st.heap.push(n);
                st.heap.free(k);
                Val::C((id << 32) + off)
            }
            Dealloc => {
                let (p, s, al) = (self.conc(st, &a[0], "dealloc pointer")?, self.conc(st, &a[1], "dealloc size")?, self.conc(st, &a[2], "dealloc alignment")?);
                self.dealloc(st, p, s, al)?;
                Val::U
            }
            Panic => {
                let name = self.m.funcs[fid as usize].name.clone();
                if st.alloc_failed && (name.contains("handle_alloc_error") || name.contains("handle_error") || name.contains("alloc_error")) { return Err(Stop::Done("abort")); }
                let msg = self.panic_msg(st, &name, a);
                if st.unwinding != 0 { return ub("abort", format!("panic while unwinding: {}", msg)); }
                if name.contains("nounwind") || name.contains("cannot_unwind") || name.contains("in_cleanup") { return ub("abort", msg); }
                if st.catch_depth > 0 { self.unwind(st, 2)?; return Ok(None); }
                return ub("panic", msg);
            }
            SymAny | SymChoose => {
                let bits;
                let e;
                if it == SymAny {
                    bits = self.conc(st, &a[0], "bits")? as u32;
                    let vi = self.nvars_next(st); e = self.x.var(vi, bits);
                    st.inputs.push((e, 0));
                    let r = self.x.zext(e, 64);
                    self.sv(r)
                } else {
                    let n = self.conc(st, &a[0], "choose")?;
                    if n <= 1 { let k = self.x.konst(0, 32); st.inputs.push((k, 1)); Val::C(0) } else {
                        bits = 64 - (n - 1).leading_zeros();
                        let vi = self.nvars_next(st); e = self.x.var(vi, bits);
                        st.inputs.push((e, 1));
                        if n < (1 << bits) { let k = self.x.konst(n, bits); let c = self.x.cmp(Pred::Ult, e, k); self.assume(st, c); }
                        let r = self.x.zext(e, 32);
                        self.sv(r)
                    }
                }
            }
            SymAssume => {
                match &a[0] {
                    Val::C(x) => { if x & 1 == 0 { return Err(Stop::Done("assume")); } }
                    Val::S(e) => {
                        let e = *e;
                        if self.eval(st, e) == 0 {
                            match self.sat(st, e)? { None => return Err(Stop::Done("assume")), Some(m) => { st.model = m; self.forget_memo(); } }
                        }
                        self.assume(st, e);
                    }
                    _ => return ub("uninit", "assume on uninitialised value"),
                }
                Val::U
            }
            SymCheck => {
                let msg = self.read_str(st, &a[1], &a[2]).unwrap_or_default();
                let ent = self.check_ids.entry(msg.clone()).or_default();
                ent.0 += 1;
                match &a[0] {
                    Val::C(x) => { self.stats.checks_concrete += 1; if x & 1 == 0 { return ub("check", msg); } }
                    Val::S(e) => {
                        ent.1 += 1;
                        self.stats.checks_symbolic += 1;
                        let e = *e;
                        if !st.known.contains(&e) {
                            let ne = self.x.not(e);
                            match self.sat(st, ne)? {
                                None => self.note_known(st, e),
                                Some(m) => { st.model = m; self.forget_memo(); self.assume(st, ne); return ub("check", msg); }
                            }
                        }
                    }
                    _ => return ub("uninit", format!("checked value depends on uninitialised memory: {}", msg)),
                }
                Val::U
            }
            SymLog => {
                match &a[0] { Val::C(x) => st.log.push(LogV::C(*x)), Val::S(e) => st.log.push(LogV::S(*e)), _ => return ub("uninit", "observed value depends on uninitialised memory") }
                Val::U
            }
            SymReach => { let k = self.conc(st, &a[0], "reach")?; st.reach |= 1 << k; Val::U }
            SymEnd => return Err(Stop::Done("end")),
            SymUnwind => { if st.unwinding != 0 { return ub("abort", "panic while unwinding"); } if st.catch_depth == 0 { return ub("panic", "harness panic outside catch"); } self.unwind(st, 1)?; return Ok(None); }
            SymCatch => {
                let f = self.conc(st, &a[0], "catch function")?;
                let f = match addr_func(f) { Some(f) => f, None => return uns("sym_catch target") };
                st.catch_depth += 1;
                self.enter(st, f, &a[1..2], true)?;
                return Ok(None);
            }
            SymFailAlloc => { let k = self.conc(st, &a[0], "alloc failure point")?; st.alloc_fail_in = if k == u32::MAX as u64 { None } else { Some(k) }; Val::U }
            SymIsSym => Val::C(1),
            SymNative => Val::C(0),
            SymShared => { // mode 0: not shared; 1: the range and everything allocated so far is shared; 2: statics only
                let (p, n, mode) = (self.conc(st, &a[0], "shared pointer")?, self.conc(st, &a[1], "shared length")?, self.conc(st, &a[2], "sharing mode")?);
                st.shared = match mode { 0 => None, 1 => Some((p, p + n, st.heap.len)), _ => Some((0, 0, 0)) };
                Val::U
            }
            SymMigrate => { // the next instructions run on a fresh thread
                for i in 0..self.m.globals.len() {
                    let g = &self.m.globals[i];
                    if !g.tls { continue; }
                    let mut o = Obj::new(g.size, g.align, true, GLOBAL_BASE as u32 + i as u32);
                    for (k, b) in g.bytes.iter().enumerate() { if *b != 0 { o.set(k as u64, B::C(*b)); } }
                    Rc::make_mut(&mut st.globals)[i] = Some(Rc::new(o));
                }
                Val::U
            }
            SymLive => Val::C(st.heap.iter_live().map(|(_, o)| o.size as u64).sum()),
            SymExpectPanic => { st.leak_ok = true; Val::U }
            SymFork => { // concretise: returns a concrete value, forking over all feasible ones
                Val::C(self.conc(st, &a[0], "fork")?)
            }
            SymSparse | Normal => return uns(format!("intrinsic {:?} {}", it, self.m.funcs[fid as usize].name)),
        }))
    }
    /// Variables are numbered by input position so that paths sharing a prefix share variables.
    fn nvars_next(&mut self, st: &State) -> u32 { let n = st.inputs.len() as u32; self.nvars = self.nvars.max(n + 1); n }
}

fn icmp(p: Pred, w: u32, x: u64, y: u64) -> bool {
    let (sx, sy) = (sext(x, w), sext(y, w));
    match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy }
}
fn overflows(op: BinOp, w: u32, flags: u8, x: u64, y: u64) -> bool {
    let (ux, uy) = (x as i128, y as i128);
    let (sx, sy) = (sext(x, w) as i128, sext(y, w) as i128);
    let um = mask(w) as i128;
    let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
    let mut o = false;
    if flags & 1 != 0 {
        let r = match op { BinOp::Add => ux + uy, BinOp::Sub => ux - uy, BinOp::Mul => { return mulo(x, y, w) || (flags & 2 != 0 && { let r = sx.checked_mul(sy); r.map_or(true, |r| r < smin || r > smax) }); } BinOp::Shl => if y < 64 { ((x as u128) << y) as i128 } else { 0 }, _ => 0 };
        o |= r < 0 || r > um;
    }
    if flags & 2 != 0 {
        let r = match op { BinOp::Add => sx + sy, BinOp::Sub => sx - sy, BinOp::Mul => sx * sy, _ => 0 };
        o |= r < smin || r > smax;
    }
    o
}
fn mulo(x: u64, y: u64, w: u32) -> bool { (x as u128) * (y as u128) > mask(w) as u128 }
