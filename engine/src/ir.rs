//! Parser for the subset of textual LLVM IR rustc emits, decoded into a compact register code.
use crate::val::Val;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Other(String),
    Struct(bool, Vec<Ty>),
    Array(u64, Box<Ty>),
    Named(String),
}

pub type Opd = u32;
pub const CONST_BIT: u32 = 1 << 31;
pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Bits }

#[derive(Clone, Debug)]
pub enum LTy { Int(u32), Agg(Arc<Vec<(u64, LTy)>>, u64) } // load/store type: int width, or aggregate (offset, ty), size

#[derive(Debug)]
pub struct CallI { pub dst: u32, pub callee: Callee, pub args: Vec<Opd>, pub normal: u32, pub unwind: u32, pub byval: Vec<(usize, u64, u64)>, pub retw: u32 }
#[derive(Clone, Copy, Debug)]
pub enum Callee { Fn(u32), Ind(Opd) }

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, flags: u8, a: Opd, b: Opd, dst: u32 }, // flags: 1 nuw, 2 nsw
    Icmp { p: Pred, w: u32, a: Opd, b: Opd, dst: u32 },
    Cast { op: CastOp, from: u32, to: u32, nuw: bool, a: Opd, dst: u32 },
    Load { ty: LTy, p: Opd, align: u32, dst: u32 },
    Store { ty: LTy, v: Opd, p: Opd, align: u32 },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u32, i64)>, dst: u32 },
    Alloca { size: u64, align: u32, dst: u32 },
    Select { c: Opd, a: Opd, b: Opd, w: u32, dst: u32 },
    Extract { a: Opd, path: Vec<u32>, dst: u32 },
    Insert { a: Opd, v: Opd, path: Vec<u32>, dst: u32, shape: Arc<Ty> },
    Freeze { a: Opd, dst: u32 },
    Call(Box<CallI>),
    Br { e: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, cases: Vec<(u64, u32)>, default: u32 },
    Ret { v: Option<Opd> },
    Unreachable,
    /// an atomic read-modify-write of p follows
    Atomic { p: Opd },
    LandingPad { dst: u32 },
    Resume { v: Opd },
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Edge { pub target: u32, pub copies: Vec<(u32, Opd)>, pub block: u32 }

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub blocks: Vec<u32>,
    pub has_body: bool,
    pub intrinsic: Intr,
    pub sret: Vec<(usize, u64)>,
    pub unparsed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Intr {
    Malloc, Free, KeyCreate, Zero,
    #[default] Normal,
    Memcpy, Memmove, Memset, Ctpop, Ctlz, Cttz, IsConstant, Ucmp, Scmp,
    UMulO, UAddO, USubO, SMulO, SAddO, SSubO, UMin, UMax, SMin, SMax, USubSat, UAddSat, Abs, Bswap, Fshl, Fshr, BitReverse,
    Nop, Assume, Expect, Trap, ThreadLocalAddr,
    Alloc, AllocZeroed, Realloc, Dealloc, NoShim,
    Panic, Memcmp, Bcmp,
    SymAny, SymChoose, SymAssume, SymCheck, SymLog, SymReach, SymEnd, SymUnwind, SymCatch, SymFailAlloc, SymIsSym, SymLive, SymSparse, SymExpectPanic, SymFork, SymShared, SymMigrate, SymNative,
}

pub struct Global { pub name: String, pub size: u64, pub align: u64, pub bytes: Vec<u8>, pub undef: Vec<(u64, u64)>, pub relocs: Vec<(u64, RelocT, i64)>, pub constant: bool, pub tls: bool, pub own: bool }
#[derive(Clone, Debug)]
pub enum RelocT { Fn(u32), Global(u32) }

pub const GLOBAL_BASE: u64 = 1;
pub const FUNC_ID: u64 = 1 << 20;
pub const HEAP_BASE: u64 = 1 << 24;
pub const STACK_BASE: u64 = 1 << 30;
pub const OBJ_OFF: u64 = 0x10_0000;

pub fn func_addr(f: u32) -> u64 { (FUNC_ID << 32) + 16 + 16 * f as u64 }
pub fn addr_func(a: u64) -> Option<u32> {
    if a >> 32 == FUNC_ID && (a & 0xffff_ffff) >= 16 && a % 16 == 0 { Some((((a & 0xffff_ffff) - 16) / 16) as u32) } else { None }
}
pub fn obj_off(align: u64) -> u64 { if align >= OBJ_OFF { align } else { OBJ_OFF + align } }

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub consts: Vec<Val>,
    cmap: HashMap<(u64, u8), u32>,
}

// ---------- tokenizer ----------
#[derive(Clone, Debug, PartialEq)]
enum T { W(String), L(String), G(String), Num(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), Meta(String), Attr(String), Dots }

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => { i += 1; }
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (st, e) = lex_str(b, i + 2);
                    name = String::from_utf8_lossy(&st).to_string();
                    i = e;
                } else {
                    let st = i + 1;
                    i += 1;
                    while i < b.len() && isid(b[i]) { i += 1; }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => { let (st, e) = lex_str(b, i + 1); out.push(T::Str(st)); i = e; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let (st, e) = lex_str(b, i + 2); out.push(T::CStr(st)); i = e; }
            b'!' => { let st = i; i += 1; while i < b.len() && isid(b[i]) { i += 1; } out.push(T::Meta(s[st..i].to_string())); }
            b'#' => { let st = i; i += 1; while i < b.len() && isid(b[i]) { i += 1; } out.push(T::Attr(s[st..i].to_string())); }
            b'.' if s[i..].starts_with("...") => { out.push(T::Dots); i += 3; }
            b'-' | b'0'..=b'9' => { let st = i; i += 1; while i < b.len() && (isid(b[i]) || b[i] == b'+') { i += 1; } out.push(T::Num(s[st..i].to_string())); }
            _ if c.is_ascii_alphabetic() || c == b'_' => { let st = i; while i < b.len() && isid(b[i]) { i += 1; } out.push(T::W(s[st..i].to_string())); }
            _ => { out.push(T::P(c as char)); i += 1; }
        }
    }
    out
}
fn lex_str(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    let mut v = vec![];
    while i < b.len() && b[i] != b'"' {
        if b[i] == b'\\' && i + 2 < b.len() && (b[i + 1] as char).is_ascii_hexdigit() && (b[i + 2] as char).is_ascii_hexdigit() {
            v.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
        else { v.push(b[i]); i += 1; }
    }
    (v, i + 1)
}

struct P<'a> { t: &'a [T], i: usize }
type R<X> = Result<X, String>;
impl<'a> P<'a> {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn peek2(&self) -> Option<&T> { self.t.get(self.i + 1) }
    fn next(&mut self) -> R<&'a T> { let r = self.t.get(self.i).ok_or("eol".to_string()); self.i += 1; r }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&T::P(c)) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(T::W(x)) if x == w) }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) -> R<()> { if self.eatp(c) { Ok(()) } else { Err(format!("expected {} at {:?} in {:?}", c, self.peek(), &self.t[..self.t.len().min(14)])) } }
    fn word(&mut self) -> R<String> { match self.next()? { T::W(w) => Ok(w.clone()), t => Err(format!("expected word, got {:?}", t)) } }
    fn num(&mut self) -> R<u64> { match self.next()? { T::Num(n) => n.parse::<u64>().map_err(|e| e.to_string()), t => Err(format!("expected num, got {:?}", t)) } }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(T::L(_)) => true,
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::W(w)) => is_type_word(w),
            _ => false,
        }
    }
    fn skip_balanced(&mut self) -> R<()> {
        self.exp('(')?;
        let mut d = 1;
        while d > 0 { match self.next()? { T::P('(') => d += 1, T::P(')') => d -= 1, _ => {} } }
        Ok(())
    }
    /// skips parameter / return attributes; returns sret/byval type if any
    fn skip_attrs(&mut self) -> R<Option<(String, Ty)>> {
        let mut special = None;
        loop {
            match self.peek() {
                Some(T::W(w)) if !is_type_word(w) && !is_const_word(w) => {
                    let w = w.clone();
                    self.i += 1;
                    if w == "align" && matches!(self.peek(), Some(T::Num(_))) { self.i += 1; continue; }
                    if self.isp('(') {
                        if w == "sret" || w == "byval" {
                            self.i += 1;
                            let t = self.ty()?;
                            self.exp(')')?;
                            special = Some((w, t));
                        } else { self.skip_balanced()?; }
                    }
                }
                Some(T::Str(_)) => { self.i += 1; if self.eatp('=') { self.i += 1; } }
                Some(T::Attr(_)) => { self.i += 1; }
                _ => return Ok(special),
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => { if self.isw("addrspace") { self.i += 1; self.skip_balanced()?; } Ty::Ptr }
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other(w.clone()),
            },
            T::L(n) => Ty::Named(n.clone()),
            T::P('{') => { let v = self.tylist('}')?; Ty::Struct(false, v) }
            T::P('[') => { let n = self.num()?; self.eatw("x"); let e = self.ty()?; self.exp(']')?; Ty::Array(n, Box::new(e)) }
            T::P('<') => {
                if self.eatp('{') { let v = self.tylist('}')?; self.exp('>')?; Ty::Struct(true, v) }
                else { let mut s = String::from("vec"); while !self.isp('>') { s += &format!("{:?}", self.next()?); } self.exp('>')?; Ty::Other(s) }
            }
            t => return Err(format!("type? {:?} in {:?}", t, &self.t[..self.t.len().min(14)])),
        };
        // function type suffix: ty (args)
        Ok(t)
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatp(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eatp(',') { continue; } self.exp(end)?; return Ok(v); }
    }
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_const_word(w: &str) -> bool {
    matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "add" | "sub" | "none" | "splat" | "asm" | "trunc" | "xor" | "mul")
}

pub fn round_up(a: u64, b: u64) -> u64 { (a + b - 1) / b * b }

impl Module {
    pub fn resolve<'a>(&'a self, t: &'a Ty) -> R<&'a Ty> {
        let mut t = t;
        while let Ty::Named(n) = t { t = self.types.get(n).ok_or(format!("unknown type {}", n))?; }
        Ok(t)
    }
    pub fn size_align(&self, t: &Ty) -> R<(u64, u64)> {
        Ok(match self.resolve(t)? {
            Ty::Int(w) => { let bytes = ((*w as u64) + 7) / 8; let a = bytes.next_power_of_two().min(16); (round_up(bytes, a), a) }
            Ty::Ptr => (8, 8),
            Ty::Struct(packed, v) => {
                let (mut o, mut al) = (0, 1);
                for e in v { let (s, a) = self.size_align(e)?; let a = if *packed { 1 } else { a }; o = round_up(o, a) + s; al = al.max(a); }
                (round_up(o, al), al)
            }
            Ty::Array(n, e) => { let (s, a) = self.size_align(e)?; (s * n, a) }
            Ty::Other(s) if s == "float" => (4, 4),
            Ty::Other(s) if s == "double" => (8, 8),
            t => return Err(format!("size of {:?}", t)),
        })
    }
    pub fn field(&self, t: &Ty, i: u64) -> R<(u64, Ty)> {
        match self.resolve(t)? {
            Ty::Struct(packed, v) => {
                let mut o = 0;
                for (k, e) in v.iter().enumerate() {
                    let (s, a) = self.size_align(e)?;
                    let a = if *packed { 1 } else { a };
                    o = round_up(o, a);
                    if k as u64 == i { return Ok((o, e.clone())); }
                    o += s;
                }
                Err("field index".into())
            }
            Ty::Array(_, e) => Ok((self.size_align(e)?.0 * i, (**e).clone())),
            t => Err(format!("field of {:?}", t)),
        }
    }
    pub fn lty(&self, t: &Ty) -> R<LTy> {
        Ok(match self.resolve(t)? {
            Ty::Int(w) => LTy::Int(*w),
            Ty::Ptr => LTy::Int(64),
            Ty::Struct(..) | Ty::Array(..) => {
                let n = match self.resolve(t)? { Ty::Struct(_, v) => v.len() as u64, Ty::Array(n, _) => *n, _ => 0 };
                let mut v = vec![];
                for i in 0..n { let (o, ft) = self.field(t, i)?; v.push((o, self.lty(&ft)?)); }
                LTy::Agg(Arc::new(v), self.size_align(t)?.0)
            }
            t => return Err(format!("lty {:?}", t)),
        })
    }
    pub fn width(&self, t: &Ty) -> R<u32> {
        match self.resolve(t)? { Ty::Int(w) => Ok(*w), Ty::Ptr => Ok(64), Ty::Struct(..) | Ty::Array(..) => Ok(0), t => Err(format!("width of {:?}", t)) }
    }
    pub fn konst(&mut self, v: Val) -> Opd {
        let key = match &v { Val::C(x) => Some((*x, 0u8)), Val::U => Some((0, 1)), _ => None };
        if let Some(k) = key { if let Some(&i) = self.cmap.get(&k) { return i | CONST_BIT; } }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        if let Some(k) = key { self.cmap.insert(k, i); }
        i | CONST_BIT
    }
    pub fn func_id(&mut self, name: &str) -> u32 {
        if let Some(&f) = self.fmap.get(name) { return f; }
        let i = self.funcs.len() as u32;
        self.funcs.push(Func { name: name.to_string(), intrinsic: classify(name), ..Default::default() });
        self.fmap.insert(name.to_string(), i);
        i
    }
    /// address-like constant for symbol; offsets apply
    fn sym(&mut self, cx: &Cx, name: &str) -> R<Val> {
        let g = cx.globals.get(name).copied().or_else(|| self.gmap.get(name).copied());
        if let Some(g) = g { return Ok(Val::C(self.global_addr(g))); }
        let f = cx.funcs.get(name).copied();
        let f = match f { Some(f) => f, None => self.func_id(name) };
        Ok(Val::C(func_addr(f)))
    }
    pub fn global_addr(&self, g: u32) -> u64 { ((GLOBAL_BASE + g as u64) << 32) + obj_off(self.globals[g as usize].align) }

    /// constant of type t (no register references)
    fn cval(&mut self, cx: &Cx, p: &mut P, t: &Ty) -> R<Val> {
        let rt = self.resolve(t)?.clone();
        match p.next()? {
            T::Num(n) => {
                let w = self.width(&rt)?;
                let v: i128 = n.parse::<i128>().map_err(|e| format!("{} {}", n, e))?;
                if w > 64 { return Ok(Val::W(Arc::new(v as u128 & if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }))); }
                Ok(Val::C((v as u64) & mask(w)))
            }
            T::W(w) => match w.as_str() {
                "true" => Ok(Val::C(1)),
                "false" => Ok(Val::C(0)),
                "null" => Ok(Val::C(0)),
                "undef" | "poison" => Ok(self.undef_of(&rt)?),
                "zeroinitializer" => self.zero_of(&rt),
                "none" => Ok(Val::C(0)),
                "getelementptr" => {
                    while !p.isp('(') { p.next()?; }
                    p.exp('(')?;
                    let et = p.ty()?;
                    p.exp(',')?;
                    let bt = p.ty()?;
                    let base = self.cval(cx, p, &bt)?;
                    let mut off = 0i64;
                    let mut cur = et;
                    let mut first = true;
                    while p.eatp(',') {
                        let it = p.ty()?;
                        let iw = self.width(&it)?;
                        let iv = match self.cval(cx, p, &it)? { Val::C(v) => sext(v, iw), _ => return Err("gep const idx".into()) };
                        if first { off += iv * self.size_align(&cur)?.0 as i64; first = false; }
                        else { let (o, ft) = self.field(&cur, iv as u64)?; off += o as i64; cur = ft; }
                    }
                    p.exp(')')?;
                    match base { Val::C(b) => Ok(Val::C((b as i64).wrapping_add(off) as u64)), _ => Err("gep const base".into()) }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    p.exp('(')?;
                    let ft = p.ty()?;
                    let v = self.cval(cx, p, &ft)?;
                    if !p.eatw("to") { return Err("cast const".into()); }
                    let tt = p.ty()?;
                    p.exp(')')?;
                    let w = self.width(&tt)?;
                    Ok(match v { Val::C(x) => Val::C(x & mask(w)), v => v })
                }
                "add" | "sub" | "xor" | "mul" => {
                    let op = w.clone();
                    while !p.isp('(') { p.next()?; }
                    p.exp('(')?;
                    let t1 = p.ty()?; let a = self.cval(cx, p, &t1)?; p.exp(',')?;
                    let t2 = p.ty()?; let b = self.cval(cx, p, &t2)?; p.exp(')')?;
                    let w = self.width(&t1)?;
                    match (a, b) { (Val::C(a), Val::C(b)) => Ok(Val::C(mask(w) & match op.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b })), _ => Err("const binop".into()) }
                }
                _ => Err(format!("const {}", w)),
            },
            T::G(n) => { let n = n.clone(); self.sym(cx, &n) }
            T::CStr(s) => Ok(Val::Agg(Arc::new(s.iter().map(|b| Val::C(*b as u64)).collect()))),
            T::P('{') => { let v = self.cagg(cx, p, '}')?; Ok(v) }
            T::P('[') => { let v = self.cagg(cx, p, ']')?; Ok(v) }
            T::P('<') => { p.exp('{')?; let v = self.cagg(cx, p, '}')?; p.exp('>')?; Ok(v) }
            t => Err(format!("const token {:?}", t)),
        }
    }
    fn cagg(&mut self, cx: &Cx, p: &mut P, end: char) -> R<Val> {
        let mut v = vec![];
        if !p.eatp(end) {
            loop { let t = p.ty()?; v.push(self.cval(cx, p, &t)?); if p.eatp(',') { continue; } p.exp(end)?; break; }
        }
        Ok(Val::Agg(Arc::new(v)))
    }
    fn undef_of(&self, t: &Ty) -> R<Val> { self.fill_of(t, &Val::U) }
    fn zero_of(&self, t: &Ty) -> R<Val> { self.fill_of(t, &Val::C(0)) }
    pub fn fill_of(&self, t: &Ty, f: &Val) -> R<Val> {
        Ok(match self.resolve(t)? {
            Ty::Struct(_, v) => Val::Agg(Arc::new(v.iter().map(|e| self.fill_of(e, f)).collect::<R<Vec<_>>>()?)),
            Ty::Array(n, e) => { let x = self.fill_of(e, f)?; Val::Agg(Arc::new(vec![x; *n as usize])) }
            Ty::Int(w) if *w > 64 => match f { Val::C(x) => Val::W(Arc::new(*x as u128)), v => v.clone() },
            _ => f.clone(),
        })
    }
}

pub fn mask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sext(v: u64, w: u32) -> i64 { if w >= 64 || w == 0 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

#[derive(Default)]
struct Cx { globals: HashMap<String, u32>, funcs: HashMap<String, u32> }

fn classify(name: &str) -> Intr {
    use Intr::*;
    if let Some(r) = name.strip_prefix("llvm.") {
        let base: &str = r;
        let is = |p: &str| base.starts_with(p);
        return if is("memcpy") { Memcpy } else if is("memmove") { Memmove } else if is("memset") { Memset }
        else if is("ctpop") { Ctpop } else if is("ctlz") { Ctlz } else if is("cttz") { Cttz } else if is("is.constant") { IsConstant }
        else if is("ucmp") { Ucmp } else if is("scmp") { Scmp }
        else if is("umul.with.overflow") { UMulO } else if is("uadd.with.overflow") { UAddO } else if is("usub.with.overflow") { USubO }
        else if is("smul.with.overflow") { SMulO } else if is("sadd.with.overflow") { SAddO } else if is("ssub.with.overflow") { SSubO }
        else if is("umin") { UMin } else if is("umax") { UMax } else if is("smin") { SMin } else if is("smax") { SMax }
        else if is("usub.sat") { USubSat } else if is("uadd.sat") { UAddSat } else if is("abs") { Abs } else if is("bswap") { Bswap } else if is("bitreverse") { BitReverse }
        else if is("fshl") { Fshl } else if is("fshr") { Fshr }
        else if is("lifetime") || is("experimental.noalias") || is("dbg") || is("donothing") || is("x86.sse2.pause") || is("x86.sse2.lfence") || is("x86.sse2.mfence") || is("prefetch") || is("invariant") || is("sideeffect") { Nop }
        else if is("assume") { Assume } else if is("expect") { Expect } else if is("trap") || is("ubsantrap") || is("debugtrap") { Trap }
        else if is("threadlocal.address") { ThreadLocalAddr }
        else { Normal };
    }
    match name {
        "sym_any" => return SymAny, "sym_choose" => return SymChoose, "sym_assume" => return SymAssume, "sym_check" => return SymCheck,
        "sym_log" => return SymLog, "sym_reach" => return SymReach, "sym_end" => return SymEnd, "sym_unwind" => return SymUnwind,
        "sym_catch" => return SymCatch, "sym_fail_alloc" => return SymFailAlloc, "sym_is_symbolic" => return SymIsSym, "sym_live" => return SymLive, "sym_shared" => return SymShared, "sym_migrate" => return SymMigrate, "sym_native" => return SymNative,
        "sym_sparse" => return SymSparse, "sym_expect_panic" => return SymExpectPanic, "sym_fork" => return SymFork,
        "pthread_key_create" => return KeyCreate, "pthread_setspecific" | "pthread_key_delete" => return Zero, "malloc" => return Malloc, "free" => return Free, "__cxa_thread_atexit_impl" => return Nop, "memcmp" => return Memcmp, "bcmp" => return Bcmp, "memcpy" => return Memcpy, "memmove" => return Memmove, "memset" => return Memset,
        _ => {}
    }
    if name.contains("___rustc") {
        if name.ends_with("___rust_alloc") { return Alloc; }
        if name.ends_with("___rust_alloc_zeroed") { return AllocZeroed; }
        if name.ends_with("___rust_realloc") { return Realloc; }
        if name.ends_with("___rust_dealloc") { return Dealloc; }
        if name.contains("no_alloc_shim") { return NoShim; }
    }
    Normal
}

/// External (body-less) functions that are panic entry points.
pub fn is_panic_name(n: &str) -> bool {
    ["panicking", "unwrap_failed", "expect_failed", "slice_index_fail", "handle_error", "handle_alloc_error", "assert_failed", "panic", "_fail", "begin_panic", "capacity_overflow", "alloc_error"]
        .iter().any(|p| n.contains(p))
}

/// The same where the standard library is part of the IR.
fn is_panic_body(n: &str) -> bool {
    ["4core9panicking", "unwrap_failed", "expect_failed", "slice_index_fail", "handle_alloc_error", "capacity_overflow", "begin_panic", "panic_access_error", "slice_error_fail", "rust_begin_unwind"].iter().any(|p| n.contains(p))
        && (n.contains("4core") || n.contains("5alloc") || n.contains("3std"))
}

pub fn load_modules(paths: &[String]) -> R<Module> {
    let mut m = Module::default();
    let mut texts = vec![];
    for p in paths { texts.push(std::fs::read_to_string(p).map_err(|e| format!("{}: {}", p, e))?); }
    let mut cxs: Vec<Cx> = vec![];
    let mut globdefs: Vec<(usize, u32, Vec<T>, usize, Ty)> = vec![];
    // pass 1: types (renamed per module only if they clash), globals, function names
    for (mi, text) in texts.iter().enumerate() {
        let mut cx = Cx::default();
        for line in text.lines() {
            let b = line.as_bytes();
            if b.is_empty() { continue; }
            if b[0] == b'%' {
                let toks = lex(line);
                if let (Some(T::L(n)), Some(T::P('=')), Some(T::W(w))) = (toks.get(0), toks.get(1), toks.get(2)) {
                    if w == "type" {
                        let mut p = P { t: &toks, i: 3 };
                        if p.isw("opaque") { continue; }
                        let t = p.ty()?;
                        if let Some(old) = m.types.get(n) { if *old != t { return Err(format!("type clash {}", n)); } }
                        m.types.insert(n.clone(), t);
                    }
                }
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let local = line.starts_with("define internal ") || line.starts_with("define private ");
                let toks = lex(line);
                if let Some(T::G(n)) = toks.iter().find(|t| matches!(t, T::G(_))) {
                    let f = if local { let u = format!("{}#{}", n, mi); let f = m.func_id(&u); m.funcs[f as usize].intrinsic = classify(n); f } else { m.func_id(n) };
                    cx.funcs.insert(n.clone(), f);
                }
            }
        }
        cxs.push(cx);
    }
    for (mi, text) in texts.iter().enumerate() {
        for line in text.lines() {
            if !line.starts_with('@') { continue; }
            let toks = lex(line);
            let name = match &toks[0] { T::G(n) => n.clone(), _ => continue };
            let mut p = P { t: &toks, i: 2 };
            let mut private = false;
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            let mut tls = false;
            loop {
                match p.peek() {
                    Some(T::W(w)) if w == "global" => { p.i += 1; break; }
                    Some(T::W(w)) if w == "constant" => { constant = true; p.i += 1; break; }
                    Some(T::W(w)) if w == "alias" => { alias = true; p.i += 1; break; }
                    Some(T::W(w)) => { if w == "thread_local" { tls = true; } if w == "private" || w == "internal" { private = true; } if w == "external" || w == "extern_weak" { external = true; } p.i += 1; if p.isp('(') { p.skip_balanced()?; } }
                    _ => { p.i += 1; if p.i > toks.len() { return Err(format!("global {}", line)); } }
                }
            }
            if alias {
                // @a = alias T, ptr @b
                if let Some(T::G(target)) = toks.iter().rev().find(|t| matches!(t, T::G(_))) {
                    if let Some(&f) = cxs[mi].funcs.get(target) { cxs[mi].funcs.insert(name.clone(), f); if !private { m.fmap.insert(name.clone(), f); } }
                }
                continue;
            }
            let t = p.ty()?;
            let (size, mut align) = m.size_align(&t)?;
            for k in p.i..toks.len() {
                if let (T::W(w), Some(T::Num(n))) = (&toks[k], toks.get(k + 1)) { if w == "align" && k > 0 && toks[k - 1] == T::P(',') { align = n.parse().unwrap_or(align); } }
            }
            if external { continue; }
            if !private { if m.gmap.contains_key(&name) { cxs[mi].globals.insert(name.clone(), m.gmap[&name]); continue; } }
            let id = m.globals.len() as u32;
            m.globals.push(Global { name: name.clone(), size, align, bytes: vec![0; size as usize], undef: vec![], relocs: vec![], constant, tls, own: name.contains("harness") });
            if private { cxs[mi].globals.insert(name, id); } else { m.gmap.insert(name, id); }
            let pi = p.i;
            globdefs.push((mi, id, toks, pi, t));
        }
    }
    for (mi, id, toks, pi, t) in &globdefs {
        let mut p = P { t: toks, i: *pi };
        let cx = std::mem::take(&mut cxs[*mi]);
        let v = m.cval(&cx, &mut p, t);
        cxs[*mi] = cx;
        let v = v.map_err(|e| format!("global {}: {}", m.globals[*id as usize].name, e))?;
        let mut bytes = vec![0u8; m.globals[*id as usize].size as usize];
        let mut undef = vec![];
        place(&m, t, &v, 0, &mut bytes, &mut undef)?;
        let g = &mut m.globals[*id as usize];
        g.bytes = bytes;
        g.undef = undef;
    }
    // pass 2: bodies
    for (mi, text) in texts.iter().enumerate() {
        let mut lines = text.lines();
        while let Some(line) = lines.next() {
            if !line.starts_with("define ") { continue; }
            let mut body: Vec<&str> = vec![];
            for l in lines.by_ref() { if l == "}" { break; } body.push(l); }
            let cx = std::mem::take(&mut cxs[mi]);
            let r = m.func(&cx, line, &body);
            cxs[mi] = cx;
            // a function that cannot be read is one without a body: calling it is reported
            let _ = r;
        }
    }
    // classify panics
    for f in m.funcs.iter_mut() {
        if f.intrinsic == Intr::Normal && if f.has_body { is_panic_body(&f.name) } else { is_panic_name(&f.name) } { f.intrinsic = Intr::Panic; }
    }
    Ok(m)
}

fn place(m: &Module, t: &Ty, v: &Val, off: u64, bytes: &mut [u8], undef: &mut Vec<(u64, u64)>) -> R<()> {
    match (m.resolve(t)?, v) {
        (Ty::Struct(_, fs), Val::Agg(vs)) => { for i in 0..fs.len() { let (o, ft) = m.field(t, i as u64)?; place(m, &ft, &vs[i], off + o, bytes, undef)?; } }
        (Ty::Array(_, e), Val::Agg(vs)) => { let s = m.size_align(e)?.0; for (i, x) in vs.iter().enumerate() { place(m, e, x, off + s * i as u64, bytes, undef)?; } }
        (t, Val::C(x)) => { let n = ((m.width(t)? + 7) / 8) as usize; bytes[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (t, Val::W(x)) => { let n = ((m.width(t)? + 7) / 8) as usize; bytes[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (t, Val::U) => { undef.push((off, m.size_align(t)?.0)); }
        (t, v) => return Err(format!("place {:?} {:?}", t, v)),
    }
    Ok(())
}

struct FB<'m> { m: &'m mut Module, cx: &'m Cx, regs: HashMap<String, u32>, code: Vec<Inst>, edges: Vec<Edge>, blocks: HashMap<String, u32>, cur: u32, edge_names: Vec<(u32, String)> }

impl<'m> FB<'m> {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn val(&mut self, p: &mut P, t: &Ty) -> R<Opd> {
        if let Some(T::L(n)) = p.peek() { let n = n.clone(); p.i += 1; return Ok(self.reg(&n)); }
        let v = self.m.cval(self.cx, p, t)?;
        Ok(self.m.konst(v))
    }
    fn tv(&mut self, p: &mut P) -> R<(Ty, Opd)> { let t = p.ty()?; p.skip_attrs()?; let v = self.val(p, &t)?; Ok((t, v)) }
    fn edge(&mut self, label: &str) -> u32 { let e = self.edges.len() as u32; self.edges.push(Edge { target: 0, copies: vec![], block: self.cur }); self.edge_names.push((e, label.to_string())); e }
    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.eatw("label") { return Err("label".into()); }
        match p.next()? { T::L(n) => { let n = n.clone(); Ok(self.edge(&n)) } t => Err(format!("label {:?}", t)) }
    }
    fn align(p: &mut P) -> R<u32> {
        while p.eatp(',') { if p.eatw("align") { return Ok(p.num()? as u32); } p.next()?; }
        Ok(1)
    }
}

impl Module {
    fn func(&mut self, cx: &Cx, head: &str, body: &[&str]) -> R<()> {
        let toks = lex(head);
        let k = toks.iter().position(|t| matches!(t, T::G(_))).ok_or("no name")?;
        let name = match &toks[k] { T::G(n) => n.clone(), _ => unreachable!() };
        let fid = *cx.funcs.get(&name).ok_or("fn id")?;
        if self.funcs[fid as usize].has_body { return Ok(()); } // linkonce duplicate
        let mut p = P { t: &toks, i: k + 1 };
        p.exp('(')?;
        let mut fb = FB { m: self, cx, regs: HashMap::new(), code: vec![], edges: vec![], blocks: HashMap::new(), cur: 0, edge_names: vec![] };
        let mut nparams = 0;
        if !p.eatp(')') {
            loop {
                if p.peek() == Some(&T::Dots) { p.i += 1; p.exp(')')?; break; }
                p.ty()?;
                p.skip_attrs()?;
                let pk = p.peek().cloned(); let n = match pk { Some(T::L(n)) => { p.i += 1; n } _ => format!("{}", nparams) };
                fb.reg(&n);
                nparams += 1;
                if p.eatp(',') { continue; }
                p.exp(')')?;
                break;
            }
        }
        // gather logical lines (switch / landingpad / invoke span lines)
        let mut lines: Vec<String> = vec![];
        for l in body {
            let lt = l.trim_start();
            if lt.is_empty() || lt.starts_with(';') || lt.starts_with("#dbg") { continue; }
            if let Some(last) = lines.last_mut() {
                let opens = last.contains(" switch ") && last.contains('[') && !last.trim_end().ends_with(']') && !last.contains(" ]");
                let is_cont = l.starts_with("      ") && (lt.starts_with("to label") || lt.starts_with("cleanup") || lt.starts_with("catch ") || lt.starts_with("filter "));
                if opens || is_cont { last.push(' '); last.push_str(strip_comment(lt)); continue; }
            }
            lines.push(strip_comment(l).to_string());
        }
        let mut bstarts: Vec<u32> = vec![];
        let mut phis: HashMap<u32, Vec<(u32, Vec<(Opd, String)>)>> = HashMap::new(); // block -> (dst, [(val,label)])
        let mut bnames: Vec<String> = vec![];
        let mut first = true;
        for l in &lines {
            let is_label = !l.starts_with(' ') ;
            if is_label {
                let name = { let s = l.trim_end().trim_end_matches(':'); let s = if let Some(x) = l.find(':') { if l.starts_with('"') { &l[..l.rfind("\":").map(|i| i + 1).unwrap_or(x)] } else { &l[..x] } } else { s }; if s.starts_with('"') { String::from_utf8_lossy(&lex_str(s.as_bytes(), 1).0).to_string() } else { s.to_string() } };
                let b = bstarts.len() as u32;
                bstarts.push(fb.code.len() as u32);
                fb.blocks.insert(name.clone(), b);
                bnames.push(name);
                fb.cur = b;
                first = false;
                continue;
            }
            if first {
                bstarts.push(0);
                let name = format!("{}", nparams);
                fb.blocks.insert(name.clone(), 0);
                bnames.push(name);
                fb.cur = 0;
                first = false;
            }
            let toks = lex(l);
            let mut p = P { t: &toks, i: 0 };
            let mut dst = NOREG;
            if let (Some(T::L(n)), Some(T::P('='))) = (toks.get(0), toks.get(1)) { dst = fb.reg(n); p.i = 2; }
            if p.isw("phi") {
                p.i += 1;
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.exp('[')?;
                    let v = fb.val(&mut p, &t)?;
                    p.exp(',')?;
                    let lb = match p.next()? { T::L(n) => n.clone(), t => return Err(format!("phi {:?}", t)) };
                    p.exp(']')?;
                    inc.push((v, lb));
                    if !(p.isp(',') && p.peek2() == Some(&T::P('['))) { break; }
                    p.i += 1;
                }
                phis.entry(fb.cur).or_default().push((dst, inc));
                continue;
            }
            let save = fb.code.len();
            match fb.inst(&mut p, dst) {
                Ok(()) => {}
                Err(e) => { fb.code.truncate(save); fb.code.push(Inst::Unsupported(format!("{} :: {}", e, l.trim()))); }
            }
        }
        for (e, label) in std::mem::take(&mut fb.edge_names) {
            let tb = *fb.blocks.get(&label).ok_or(format!("label {} in {}", label, name))?;
            let src = fb.edges[e as usize].block;
            let srcname = bnames[src as usize].clone();
            let mut copies = vec![];
            if let Some(ps) = phis.get(&tb) {
                for (d, inc) in ps { let v = inc.iter().find(|(_, l)| *l == srcname).ok_or(format!("phi edge {}", srcname))?.0; copies.push((*d, v)); }
            }
            let ed = &mut fb.edges[e as usize];
            ed.target = bstarts[tb as usize];
            ed.block = tb;
            ed.copies = copies;
        }
        let FB { regs, code, edges, .. } = fb;
        let f = &mut self.funcs[fid as usize];
        f.nparams = nparams;
        f.nregs = regs.len() as u32;
        f.code = code;
        f.edges = edges;
        f.blocks = bstarts;
        f.has_body = true;
        if f.name.starts_with("sym_") { /* harness-provided */ } else { f.intrinsic = Intr::Normal; }
        Ok(())
    }
}

fn strip_comment(l: &str) -> &str {
    // comments start with ';' outside of quotes
    let mut q = false;
    for (i, c) in l.bytes().enumerate() { if c == b'"' { q = !q; } if c == b';' && !q { return &l[..i]; } }
    l
}

impl<'m> FB<'m> {
    fn inst(&mut self, p: &mut P, dst: u32) -> R<()> {
        let op = p.word()?;
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let mut flags = 0;
                loop { if p.eatw("nuw") { flags |= 1 } else if p.eatw("nsw") { flags |= 2 } else if p.eatw("exact") || p.eatw("disjoint") {} else { break; } }
                let t = p.ty()?;
                let w = self.m.width(&t)?;
                let a = self.val(p, &t)?;
                p.exp(',')?;
                let b = self.val(p, &t)?;
                use BinOp::*;
                let op = match op.as_str() { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "sdiv" => SDiv, "urem" => URem, "srem" => SRem, "shl" => Shl, "lshr" => LShr, "ashr" => AShr, "and" => And, "or" => Or, _ => Xor };
                self.code.push(Inst::Bin { op, w, flags, a, b, dst });
            }
            "icmp" => {
                p.eatw("samesign");
                let pr = p.word()?;
                use Pred::*;
                let pr = match pr.as_str() { "eq" => Eq, "ne" => Ne, "ult" => Ult, "ule" => Ule, "ugt" => Ugt, "uge" => Uge, "slt" => Slt, "sle" => Sle, "sgt" => Sgt, "sge" => Sge, x => return Err(format!("pred {}", x)) };
                let t = p.ty()?;
                let w = self.m.width(&t)?;
                let a = self.val(p, &t)?;
                p.exp(',')?;
                let b = self.val(p, &t)?;
                self.code.push(Inst::Icmp { p: pr, w, a, b, dst });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                let mut nuw = false;
                loop { if p.eatw("nuw") { nuw = true } else if p.eatw("nsw") || p.eatw("nneg") {} else { break; } }
                let (t, a) = self.tv(p)?;
                if !p.eatw("to") { return Err("cast".into()); }
                let tt = p.ty()?;
                let (from, to) = (self.m.width(&t)?, self.m.width(&tt)?);
                let op = match op.as_str() { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, _ => if to < from { CastOp::Trunc } else if to > from { CastOp::ZExt } else { CastOp::Bits } };
                self.code.push(Inst::Cast { op, from, to, nuw, a, dst });
            }
            "load" => {
                p.eatw("atomic"); p.eatw("volatile");
                let t = p.ty()?;
                p.exp(',')?;
                let (_, a) = self.tv(p)?;
                let mut align = 1;
                while let Some(tk) = p.peek() { if matches!(tk, T::W(w) if w == "align") { p.i += 1; align = p.num()? as u32; } else { p.i += 1; } }
                let ty = self.m.lty(&t)?;
                self.code.push(Inst::Load { ty, p: a, align, dst });
            }
            "store" => {
                p.eatw("atomic"); p.eatw("volatile");
                let (t, v) = self.tv(p)?;
                p.exp(',')?;
                let (_, a) = self.tv(p)?;
                let mut align = 1;
                while let Some(tk) = p.peek() { if matches!(tk, T::W(w) if w == "align") { p.i += 1; align = p.num()? as u32; } else { p.i += 1; } }
                let ty = self.m.lty(&t)?;
                self.code.push(Inst::Store { ty, v, p: a, align });
            }
            // the engine runs one thread at a time: an atomic access is an access
            "atomicrmw" => {
                p.eatw("volatile");
                let op = match p.next()? { T::W(w) => w.clone(), t => return Err(format!("atomicrmw {:?}", t)) };
                let (_, a) = self.tv(p)?;
                p.exp(',')?;
                let (t, v) = self.tv(p)?;
                let w = self.m.width(&t)?;
                let ty = self.m.lty(&t)?;
                let align = (w / 8).max(1);
                let k = self.code.len();
                let old = if dst == NOREG { self.reg(&format!("$at{}", k)) } else { dst };
                self.code.push(Inst::Atomic { p: a });
                self.code.push(Inst::Load { ty: ty.clone(), p: a, align, dst: old });
                let new = self.reg(&format!("$an{}", k));
                let bop = match op.as_str() { "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor), "xchg" => None, o => return Err(format!("atomicrmw {}", o)) };
                let new = match bop { Some(op) => { self.code.push(Inst::Bin { op, w, flags: 0, a: old, b: v, dst: new }); new } None => v };
                self.code.push(Inst::Store { ty, v: new, p: a, align });
            }
            "cmpxchg" => {
                p.eatw("weak"); p.eatw("volatile");
                let (_, a) = self.tv(p)?;
                p.exp(',')?;
                let (t, c) = self.tv(p)?;
                p.exp(',')?;
                let (_, n) = self.tv(p)?;
                let w = self.m.width(&t)?;
                let ty = self.m.lty(&t)?;
                let align = (w / 8).max(1);
                let k = self.code.len();
                let (old, eq, new, r1) = (self.reg(&format!("$co{}", k)), self.reg(&format!("$ce{}", k)), self.reg(&format!("$cn{}", k)), self.reg(&format!("$cr{}", k)));
                self.code.push(Inst::Atomic { p: a });
                self.code.push(Inst::Load { ty: ty.clone(), p: a, align, dst: old });
                self.code.push(Inst::Icmp { p: Pred::Eq, w, a: old, b: c, dst: eq });
                self.code.push(Inst::Select { c: eq, a: n, b: old, w, dst: new });
                self.code.push(Inst::Store { ty, v: new, p: a, align });
                let shape = Arc::new(Ty::Struct(false, vec![t, Ty::Int(1)]));
                let u = self.m.konst(Val::U);
                self.code.push(Inst::Insert { a: u, v: old, path: vec![0], dst: r1, shape: shape.clone() });
                if dst != NOREG { self.code.push(Inst::Insert { a: r1, v: eq, path: vec![1], dst, shape }); }
            }
            "fence" => {}
            "getelementptr" => {
                loop { if p.eatw("inbounds") || p.eatw("nuw") || p.eatw("nusw") {} else if p.isw("inrange") { p.i += 1; p.skip_balanced()?; } else { break; } }
                let et = p.ty()?;
                p.exp(',')?;
                let (_, base) = self.tv(p)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while p.isp(',') && !matches!(p.peek2(), Some(T::Meta(_))) {
                    p.i += 1;
                    let (it, iv) = self.tv(p)?;
                    let iw = self.m.width(&it)?;
                    let cst = if iv & CONST_BIT != 0 { match self.m.consts[(iv & !CONST_BIT) as usize] { Val::C(v) => Some(sext(v, iw)), _ => None } } else { None };
                    let scale;
                    if first { scale = self.m.size_align(&cur)?.0 as i64; first = false; }
                    else {
                        match self.m.resolve(&cur)?.clone() {
                            Ty::Struct(..) => { let c = cst.ok_or("struct idx")?; let (o, ft) = self.m.field(&cur, c as u64)?; off += o as i64; cur = ft; continue; }
                            Ty::Array(_, e) => { scale = self.m.size_align(&e)?.0 as i64; cur = *e; }
                            t => return Err(format!("gep into {:?}", t)),
                        }
                    }
                    match cst { Some(c) => off += c * scale, None => idx.push((iv, iw, scale)) }
                }
                self.code.push(Inst::Gep { base, off, idx, dst });
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty()?;
                let (mut size, mut align) = self.m.size_align(&t)?;
                while p.eatp(',') {
                    if p.eatw("align") { align = p.num()?; }
                    else if p.is_type_start() { let (_, v) = self.tv(p)?; if v & CONST_BIT != 0 { if let Val::C(n) = self.m.consts[(v & !CONST_BIT) as usize] { size *= n; } } else { return Err("dyn alloca".into()); } }
                    else { p.next()?; }
                }
                self.code.push(Inst::Alloca { size, align: align as u32, dst });
            }
            "select" => {
                let (_, c) = self.tv(p)?;
                p.exp(',')?;
                let (t, a) = self.tv(p)?;
                p.exp(',')?;
                let (_, b) = self.tv(p)?;
                let w = self.m.width(&t)?;
                self.code.push(Inst::Select { c, a, b, w, dst });
            }
            "extractvalue" => {
                let (_, a) = self.tv(p)?;
                let mut path = vec![];
                while p.eatp(',') { if matches!(p.peek(), Some(T::Num(_))) { path.push(p.num()? as u32); } else { break; } }
                self.code.push(Inst::Extract { a, path, dst });
            }
            "insertvalue" => {
                let (t, a) = self.tv(p)?;
                p.exp(',')?;
                let (_, v) = self.tv(p)?;
                let mut path = vec![];
                while p.eatp(',') { if matches!(p.peek(), Some(T::Num(_))) { path.push(p.num()? as u32); } else { break; } }
                self.code.push(Inst::Insert { a, v, path, dst, shape: Arc::new(t) });
            }
            "freeze" => { let (_, a) = self.tv(p)?; self.code.push(Inst::Freeze { a, dst }); }
            "tail" | "musttail" | "notail" => { return self.inst(p, dst); }
            "call" | "invoke" => {
                let invoke = op == "invoke";
                p.skip_attrs()?;
                let rt = p.ty()?;
                if p.isp('(') { p.skip_balanced()?; }
                p.skip_attrs()?;
                let callee = match p.next()? {
                    T::G(n) => { let n = n.clone(); let f = match self.cx.funcs.get(&n) { Some(&f) => f, None => self.m.func_id(&n) }; Callee::Fn(f) }
                    T::L(n) => { let n = n.clone(); Callee::Ind(self.reg(&n)) }
                    T::W(w) if w == "asm" => {
                        // An empty template with no outputs emits no instruction (core::hint::black_box): a no-op. Anything else is refused.
                        while p.eatw("sideeffect") || p.eatw("alignstack") || p.eatw("inteldialect") || p.eatw("unwind") {}
                        let empty = matches!(p.next()?, T::Str(s) if s.is_empty());
                        p.exp(',')?;
                        let noout = matches!(p.next()?, T::Str(s) if !s.contains(&b'='));
                        if !empty || !noout || !matches!(rt, Ty::Void) { return Err("inline asm".into()); }
                        if invoke {
                            while !p.isw("to") { p.next()?; }
                            p.i += 1;
                            let e = self.label(p)?;
                            self.code.push(Inst::Br { e });
                        }
                        return Ok(());
                    }
                    T::W(w) if w == "inttoptr" || w == "getelementptr" => { return Err("const callee".into()) }
                    t => return Err(format!("callee {:?}", t)),
                };
                p.exp('(')?;
                let mut args = vec![];
                let mut byval = vec![];
                if !p.eatp(')') {
                    loop {
                        if p.isw("metadata") { p.i += 1; p.next()?; if p.isp('(') { p.skip_balanced()?; } args.push(self.m.konst(Val::C(0))); }
                        else {
                            let t = p.ty()?;
                            if let Some((w, bt)) = p.skip_attrs()? { if w == "byval" { let (s, a) = self.m.size_align(&bt)?; byval.push((args.len(), s, a)); } }
                            let v = self.val(p, &t)?;
                            args.push(v);
                        }
                        if p.eatp(',') { continue; }
                        p.exp(')')?;
                        break;
                    }
                }
                let (mut normal, mut unwind) = (NOREG, NOREG);
                if invoke {
                    while !p.isw("to") { p.next()?; }
                    p.i += 1;
                    normal = self.label(p)?;
                    if !p.eatw("unwind") { return Err("unwind".into()); }
                    unwind = self.label(p)?;
                }
                let retw = match rt { Ty::Void => 0, ref t => self.m.width(t).unwrap_or(0) };
                let dst = if matches!(rt, Ty::Void) { NOREG } else { dst };
                self.code.push(Inst::Call(Box::new(CallI { dst, callee, args, normal, unwind, byval, retw })));
            }
            "br" => {
                if p.isw("label") { let e = self.label(p)?; self.code.push(Inst::Br { e }); }
                else { let (_, c) = self.tv(p)?; p.exp(',')?; let t = self.label(p)?; p.exp(',')?; let f = self.label(p)?; self.code.push(Inst::CondBr { c, t, f }); }
            }
            "switch" => {
                let (t, v) = self.tv(p)?;
                let w = self.m.width(&t)?;
                p.exp(',')?;
                let default = self.label(p)?;
                p.exp('[')?;
                let mut cases = vec![];
                while !p.eatp(']') {
                    let (_, c) = self.tv(p)?;
                    p.exp(',')?;
                    let l = self.label(p)?;
                    match self.m.consts[(c & !CONST_BIT) as usize] { Val::C(x) => cases.push((x, l)), _ => return Err("case".into()) }
                }
                self.code.push(Inst::Switch { v, w, cases, default });
            }
            "ret" => {
                if p.isw("void") { self.code.push(Inst::Ret { v: None }); }
                else { let (_, v) = self.tv(p)?; self.code.push(Inst::Ret { v: Some(v) }); }
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            "landingpad" => self.code.push(Inst::LandingPad { dst }),
            "resume" => { let (_, v) = self.tv(p)?; self.code.push(Inst::Resume { v }); }
            "fence" => {}
            _ => return Err(format!("opcode {}", op)),
        }
        Ok(())
    }
}
