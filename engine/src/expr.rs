//! Hash-consed bit-vector expressions (width <= 64) with a light simplifier.
use crate::ir::{mask, sext, BinOp, Pred};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Const, Var, Bin(BinOp), Eq, Ult, Ule, Slt, Sle, Not, Ite, ZExt, SExt, Extract, Concat }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: E, pub b: E, pub c: E, pub k: u64 }

#[derive(Default)]
pub struct Exprs { pub nodes: Vec<Node>, map: HashMap<Node, E>, extracts: HashMap<(E, u32, u32), E>, vars: HashMap<E, Rc<Vec<u32>>> }

pub type Model = HashMap<u32, u64>;

impl Exprs {
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as u32;
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn konst(&mut self, v: u64, w: u32) -> E { self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn var(&mut self, i: u32, w: u32) -> E { self.mk(Node { op: Op::Var, w: w as u8, a: i, b: 0, c: 0, k: 0 }) }
    pub fn cv(&self, e: E) -> Option<u64> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }

    pub fn not(&mut self, e: E) -> E {
        let n = self.n(e);
        match n.op {
            Op::Const => self.konst(n.k ^ 1, 1),
            Op::Not => n.a,
            _ => self.mk(Node { op: Op::Not, w: 1, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(v) = self.cv(c) { return if v != 0 { a } else { b }; }
        let cn = self.n(c);
        if cn.op == Op::Not { return self.ite(cn.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) { (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return self.not(c), _ => {} }
        }
        self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w { return e; }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => { let (a, b) = (self.zext(n.b, w), self.zext(n.c, w)); self.ite(n.a, a, b) }
            _ => self.mk(Node { op: Op::ZExt, w: w as u8, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w as u32 == w { return e; }
        match n.op {
            Op::Const => self.konst(sext(n.k, n.w as u32) as u64, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::SExt, w: w as u8, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    /// bits lo..lo+w
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        if let Some(&r) = self.extracts.get(&(e, lo, w)) { return r; }
        let r = self.extract_new(e, lo, w);
        if matches!(self.nodes[e as usize].op, Op::Ite | Op::Bin(_) | Op::Concat) { self.extracts.insert((e, lo, w), r); }
        r
    }
    fn extract_new(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        let nw = n.w as u32;
        if lo == 0 && w == nw { return e; }
        match n.op {
            Op::Const => self.konst(n.k >> lo, w),
            Op::Extract => self.extract(n.a, lo + n.k as u32, w),
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw { return self.konst(0, w); }
                if lo + w <= aw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, aw - lo);
                self.zext(x, w)
            }
            Op::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw { return self.extract(n.b, lo, w); }
                if lo >= bw { return self.extract(n.a, lo - bw, w); }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, lo + w - bw);
                self.concat(h, l)
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() || lo == 0 && w == 1 { let (a, b) = (self.extract(n.b, lo, w), self.extract(n.c, lo, w)); return self.ite(n.a, a, b); }
                self.mk(Node { op: Op::Extract, w: w as u8, a: e, b: 0, c: 0, k: lo as u64 })
            }
            Op::Bin(o @ (BinOp::And | BinOp::Or | BinOp::Xor)) => { let (a, b) = (self.extract(n.a, lo, w), self.extract(n.b, lo, w)); self.bin(o, a, b) }
            Op::Bin(o @ (BinOp::Add | BinOp::Sub | BinOp::Mul)) if lo == 0 && (o != BinOp::Mul || w >= 32) => { let (a, b) = (self.extract(n.a, 0, w), self.extract(n.b, 0, w)); self.bin(o, a, b) }
            Op::Bin(BinOp::LShr) if self.cv(n.b).is_some() => {
                let s = self.cv(n.b).unwrap() as u32;
                if s >= nw || lo + s >= nw { return self.konst(0, w); }
                if lo + s + w <= nw { return self.extract(n.a, lo + s, w); }
                let x = self.extract(n.a, lo + s, nw - lo - s);
                self.zext(x, w)
            }
            Op::Bin(BinOp::Shl) if self.cv(n.b).is_some() => {
                let s = self.cv(n.b).unwrap() as u32;
                if s >= nw || lo + w <= s { return self.konst(0, w); }
                if lo >= s { return self.extract(n.a, lo - s, w); }
                self.mk(Node { op: Op::Extract, w: w as u8, a: e, b: 0, c: 0, k: lo as u64 })
            }
            _ => self.mk(Node { op: Op::Extract, w: w as u8, a: e, b: 0, c: 0, k: lo as u64 }),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w as u32 + ln.w as u32;
        if let (Op::Const, Op::Const) = (hn.op, ln.op) { return self.konst(hn.k << ln.w | ln.k, w); }
        if hn.op == Op::Const && hn.k == 0 { return self.zext(l, w); }
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.k == ln.k + ln.w as u64 { return self.extract(hn.a, ln.k as u32, w); }
        self.mk(Node { op: Op::Concat, w: w as u8, a: h, b: l, c: 0, k: 0 })
    }
    pub fn bin(&mut self, op: BinOp, a: E, b: E) -> E {
        use BinOp::*;
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { if let Some(v) = cbin(op, w, x, y) { return self.konst(v, w); } }
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        if matches!(op, Add | Mul | And | Or | Xor) && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ca, &mut cb); }
        let m = mask(w);
        match (op, cb) {
            (Add | Sub | Or | Xor | Shl | LShr | AShr, Some(0)) => return a,
            (Mul | UDiv, Some(1)) => return a,
            (Mul | And, Some(0)) => return self.konst(0, w),
            (And, Some(y)) if y == m => return a,
            (Or, Some(y)) if y == m => return self.konst(m, w),
            (Xor, Some(1)) if w == 1 => return self.not(a),
            (Shl | LShr, Some(s)) if s >= w as u64 => return self.konst(0, w),
            (Sub, Some(y)) => { let k = self.konst(0u64.wrapping_sub(y), w); return self.bin(Add, a, k); }
            (Add, Some(y)) => { let n = self.n(a); if n.op == Op::Bin(Add) { if let Some(x) = self.cv(n.b) { let k = self.konst(x.wrapping_add(y), w); return self.bin(Add, n.a, k); } } }
            (Mul, Some(y)) if self.n(a).op == Op::Bin(Mul) && self.cv(self.n(a).b).is_some() => { let n = self.n(a); let k = self.konst(self.cv(n.b).unwrap().wrapping_mul(y), w); return self.bin(Mul, n.a, k); }
            (UDiv, Some(y)) if y.is_power_of_two() => { let k = self.konst(y.trailing_zeros() as u64, w); return self.bin(LShr, a, k); }
            (URem, Some(y)) if y.is_power_of_two() => { let k = self.konst(y - 1, w); return self.bin(And, a, k); }
            (And, Some(y)) if (y + 1).is_power_of_two() => { let bits = y.count_ones(); let x = self.extract(a, 0, bits); return self.zext(x, w); }
            (LShr, Some(s)) => {
                let x = self.extract(a, s as u32, w - s as u32);
                return self.zext(x, w);
            }
            (Shl, Some(s)) => {
                let x = self.extract(a, 0, w - s as u32);
                let z = self.konst(0, s as u32);
                return self.concat(x, z);
            }
            _ => {}
        }
        if a == b { match op { Sub | Xor => return self.konst(0, w), And | Or => return a, _ => {} } }
        // (x << k) | zext(y) with y narrower than k : concat
        if matches!(op, Or | Add | Xor) {
            for (p, q) in [(a, b), (b, a)] {
                let pn = self.n(p);
                let qn = self.n(q);
                if pn.op == Op::Concat && self.cv(pn.b) == Some(0) {
                    let lw = self.w(pn.b);
                    if qn.op == Op::ZExt && self.w(qn.a) <= lw { let l = self.zext(qn.a, lw); return self.concat(pn.a, l); }
                    if qn.op == Op::Const && qn.k <= mask(lw) { let l = self.konst(qn.k, lw); return self.concat(pn.a, l); }
                }
                if pn.op == Op::ZExt && qn.op == Op::ZExt {
                    let (xn, xw) = (self.n(pn.a), self.w(pn.a));
                    if xn.op == Op::Concat && self.cv(xn.b) == Some(0) && self.w(qn.a) <= self.w(xn.b) {
                        let l = self.zext(qn.a, self.w(xn.b)); let c = self.concat(xn.a, l); let _ = xw; return self.zext(c, w);
                    }
                }
            }
        }
        self.mk(Node { op: Op::Bin(op), w: w as u8, a, b, c: 0, k: 0 })
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        use Pred::*;
        match p {
            Eq => self.eq(a, b),
            Ne => { let e = self.eq(a, b); self.not(e) }
            Ult => self.rel(Op::Ult, a, b),
            Ule => self.rel(Op::Ule, a, b),
            Ugt => self.rel(Op::Ult, b, a),
            Uge => self.rel(Op::Ule, b, a),
            Slt => self.rel(Op::Slt, a, b),
            Sle => self.rel(Op::Sle, a, b),
            Sgt => self.rel(Op::Slt, b, a),
            Sge => self.rel(Op::Sle, b, a),
        }
    }
    fn rel(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match op { Op::Ult => x < y, Op::Ule => x <= y, Op::Slt => sx < sy, _ => sx <= sy };
            return self.konst(r as u64, 1);
        }
        if a == b { return self.konst(matches!(op, Op::Ule | Op::Sle) as u64, 1); }
        match op {
            Op::Ult => {
                if self.cv(b) == Some(0) { return self.konst(0, 1); }
                if self.cv(b) == Some(1) { let z = self.konst(0, w); return self.eq(a, z); }
                if self.cv(a) == Some(mask(w)) { return self.konst(0, 1); }
                let n = self.n(a);
                if n.op == Op::ZExt { if let Some(y) = self.cv(b) { let aw = self.w(n.a); if y > mask(aw) { return self.konst(1, 1); } let k = self.konst(y, aw); return self.rel(op, n.a, k); } }
                let n = self.n(b);
                if n.op == Op::ZExt { if let Some(x) = self.cv(a) { let bw = self.w(n.a); if x >= mask(bw) { return self.konst(0, 1); } let k = self.konst(x, bw); return self.rel(op, k, n.a); } }
                self.mk(Node { op, w: 1, a, b, c: 0, k: 0 })
            }
            Op::Ule => { let e = self.rel(Op::Ult, b, a); self.not(e) }
            Op::Sle => { let e = self.rel(Op::Slt, b, a); self.not(e) }
            _ => self.mk(Node { op, w: 1, a, b, c: 0, k: 0 }),
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.konst(1, 1); }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst((x == y) as u64, 1); }
        let (a, b, cb) = if ca.is_some() || (cb.is_none() && a > b) { (b, a, ca) } else { (a, b, cb) };
        let w = self.w(a);
        if let Some(y) = cb {
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            let n = self.n(a);
            match n.op {
                Op::ZExt => { let aw = self.w(n.a); if y > mask(aw) { return self.konst(0, 1); } let k = self.konst(y, aw); return self.eq(n.a, k); }
                Op::Ite => {
                    if let (Some(p), Some(q)) = (self.cv(n.b), self.cv(n.c)) {
                        return match (p == y, q == y) { (true, true) => self.konst(1, 1), (true, false) => n.a, (false, true) => self.not(n.a), _ => self.konst(0, 1) };
                    }
                }
                Op::Bin(BinOp::Xor) if self.cv(n.b).is_some() => { let k = self.konst(y ^ self.cv(n.b).unwrap(), w); return self.eq(n.a, k); }
                Op::Bin(BinOp::Mul) if self.cv(n.b).is_some_and(|k| k & 1 == 1) => { let k = self.konst(y.wrapping_mul(inverse(self.cv(n.b).unwrap())), w); return self.eq(n.a, k); }
                Op::Bin(BinOp::Add) => { if let Some(x) = self.cv(n.b) { let k = self.konst(y.wrapping_sub(x), w); return self.eq(n.a, k); } }
                Op::Concat => { if let Some(l) = self.cv(n.b) { let lw = self.w(n.b); if y & mask(lw) != l { return self.konst(0, 1); } let k = self.konst(y >> lw, w - lw); return self.eq(n.a, k); } }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::Bin(BinOp::Mul) && nb.op == na.op && na.b == nb.b && self.cv(na.b).is_some_and(|k| k & 1 == 1) { return self.eq(na.a, nb.a); }
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.eq(na.a, nb.a); }
        }
        self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }
    /// Evaluates under the model; variables absent from the model are zero.
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u64>) -> u64 {
        let n = self.nodes[e as usize];
        match n.op { Op::Const => return n.k, Op::Var => return m.get(&n.a).copied().unwrap_or(0) & mask(n.w as u32), _ => {} }
        if let Some(&v) = memo.get(&e) { return v; }
        let w = n.w as u32;
        let v = match n.op {
            Op::Not => self.eval(n.a, m, memo) ^ 1,
            Op::Ite => if self.eval(n.a, m, memo) != 0 { self.eval(n.b, m, memo) } else { self.eval(n.c, m, memo) },
            Op::ZExt => self.eval(n.a, m, memo),
            Op::SExt => sext(self.eval(n.a, m, memo), self.w(n.a)) as u64 & mask(w),
            Op::Extract => (self.eval(n.a, m, memo) >> n.k) & mask(w),
            Op::Concat => (self.eval(n.a, m, memo) << self.w(n.b)) | self.eval(n.b, m, memo),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo));
                let ow = self.w(n.a);
                let (sx, sy) = (sext(x, ow), sext(y, ow));
                (match n.op { Op::Eq => x == y, Op::Ult => x < y, Op::Ule => x <= y, Op::Slt => sx < sy, _ => sx <= sy }) as u64
            }
            Op::Bin(o) => { let (x, y) = (self.eval(n.a, m, memo), self.eval(n.b, m, memo)); sbin(o, w, x, y) }
            _ => unreachable!(),
        };
        memo.insert(e, v);
        v
    }
    pub fn free(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&e) { return v.clone(); }
        let n = self.n(e);
        let kids: Vec<E> = match n.op {
            Op::Const => vec![], Op::Var => { let r = Rc::new(vec![n.a]); self.vars.insert(e, r.clone()); return r; }
            Op::Ite => vec![n.a, n.b, n.c],
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => vec![n.a],
            _ => vec![n.a, n.b],
        };
        let mut v: Vec<u32> = vec![];
        for k in kids { v.extend(self.free(k).iter()); }
        v.sort(); v.dedup();
        let r = Rc::new(v);
        self.vars.insert(e, r.clone());
        r
    }
}

/// Inverse of an odd number modulo 2^64 (and hence modulo every smaller power of two).
fn inverse(k: u64) -> u64 { let mut x = k; for _ in 0..6 { x = x.wrapping_mul(2u64.wrapping_sub(k.wrapping_mul(x))); } x }

/// LLVM semantics on concrete values; None for division by zero / oversized shift.
pub fn cbin(op: BinOp, w: u32, x: u64, y: u64) -> Option<u64> {
    use BinOp::*;
    let m = mask(w);
    let (sx, sy) = (sext(x, w), sext(y, w));
    Some(m & match op {
        Add => x.wrapping_add(y), Sub => x.wrapping_sub(y), Mul => x.wrapping_mul(y),
        UDiv => { if y == 0 { return None; } x / y }
        URem => { if y == 0 { return None; } x % y }
        SDiv => { if y == 0 { return None; } sx.wrapping_div(sy) as u64 }
        SRem => { if y == 0 { return None; } sx.wrapping_rem(sy) as u64 }
        Shl => { if y >= w as u64 { return None; } x << y }
        LShr => { if y >= w as u64 { return None; } x >> y }
        AShr => { if y >= w as u64 { return None; } (sx >> y) as u64 }
        And => x & y, Or => x | y, Xor => x ^ y,
    })
}
/// SMT-LIB semantics (total).
pub fn sbin(op: BinOp, w: u32, x: u64, y: u64) -> u64 {
    use BinOp::*;
    match cbin(op, w, x, y) {
        Some(v) => v,
        None => match op { UDiv => mask(w), URem | SRem => x, SDiv => if sext(x, w) < 0 { 1 } else { mask(w) }, AShr => if sext(x, w) < 0 { mask(w) } else { 0 }, _ => 0 },
    }
}
