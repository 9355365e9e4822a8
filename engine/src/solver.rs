//! SMT-LIB2 front end to an external solver process (z3 -in), one per worker.
use crate::expr::*;
use crate::ir::BinOp;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub enum Res { Sat(Model), Unsat, Unknown(String) }

pub struct Solver {
    cmd: Vec<String>,
    proc: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    defined: HashSet<E>,
    vars: HashSet<(u32, u8)>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: Duration,
    pub max_time: Duration,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u64)>>>,
    timeout_ms: u64,
    second: Option<Box<Solver>>,
    pub crosschecked: u64,
    hard: HashMap<E, bool>,
}

impl Solver {
    pub fn new(cmd: Vec<String>, timeout_ms: u64) -> Self {
        Solver { cmd, proc: None, defined: HashSet::new(), vars: HashSet::new(), queries: 0, sat: 0, unsat: 0, cache_hits: 0, time: Duration::ZERO, max_time: Duration::ZERO, cache: HashMap::new(), timeout_ms, second: None, crosschecked: 0, hard: HashMap::new() }
    }
    pub fn with_second(mut self, cmd: Vec<String>) -> Self { self.second = Some(Box::new(Solver::new(cmd, self.timeout_ms))); self }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.proc = Some((c, i, o));
        self.defined.clear();
        self.vars.clear();
        let z3 = self.cmd[0].contains("z3");
        let mut s = String::new();
        s += "(set-option :print-success false)\n(set-option :produce-models true)\n";
        if z3 { s += &format!("(set-option :timeout {})\n", self.timeout_ms); }
        s += "(set-logic QF_BV)\n";
        self.proc.as_mut().unwrap().1.write_all(s.as_bytes()).unwrap();
    }
    fn name(x: &Exprs, e: E) -> String {
        let n = x.nodes[e as usize];
        match n.op { Op::Const => format!("(_ bv{} {})", n.k, n.w), Op::Var => format!("v{}_{}", n.a, n.w), _ => format!("e{}", e) }
    }
    fn define(&mut self, x: &Exprs, e: E, out: &mut String) {
        let n = x.nodes[e as usize];
        match n.op {
            Op::Const => return,
            Op::Var => { if self.vars.insert((n.a, n.w)) { out.push_str(&format!("(declare-const v{}_{} (_ BitVec {}))\n", n.a, n.w, n.w)); } return; }
            _ => {}
        }
        if self.defined.contains(&e) { return; }
        let kids: Vec<E> = match n.op { Op::Ite => vec![n.a, n.b, n.c], Op::Not | Op::ZExt | Op::SExt | Op::Extract => vec![n.a], _ => vec![n.a, n.b] };
        for k in &kids { self.define(x, *k, out); }
        self.defined.insert(e);
        let nm = |e| Self::name(x, e);
        let boolean = |s: String| format!("(ite {} #b1 #b0)", s);
        let t = match n.op {
            Op::Not => format!("(bvnot {})", nm(n.a)),
            Op::Ite => format!("(ite (= {} #b1) {} {})", nm(n.a), nm(n.b), nm(n.c)),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w as u32 - x.w(n.a), nm(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w as u32 - x.w(n.a), nm(n.a)),
            Op::Extract => format!("((_ extract {} {}) {})", n.k + n.w as u64 - 1, n.k, nm(n.a)),
            Op::Concat => format!("(concat {} {})", nm(n.a), nm(n.b)),
            Op::Eq => boolean(format!("(= {} {})", nm(n.a), nm(n.b))),
            Op::Ult => boolean(format!("(bvult {} {})", nm(n.a), nm(n.b))),
            Op::Ule => boolean(format!("(bvule {} {})", nm(n.a), nm(n.b))),
            Op::Slt => boolean(format!("(bvslt {} {})", nm(n.a), nm(n.b))),
            Op::Sle => boolean(format!("(bvsle {} {})", nm(n.a), nm(n.b))),
            Op::Bin(o) => {
                let s = match o { BinOp::Add => "bvadd", BinOp::Sub => "bvsub", BinOp::Mul => "bvmul", BinOp::UDiv => "bvudiv", BinOp::SDiv => "bvsdiv", BinOp::URem => "bvurem", BinOp::SRem => "bvsrem", BinOp::Shl => "bvshl", BinOp::LShr => "bvlshr", BinOp::AShr => "bvashr", BinOp::And => "bvand", BinOp::Or => "bvor", BinOp::Xor => "bvxor" };
                format!("({} {} {})", s, nm(n.a), nm(n.b))
            }
            _ => unreachable!(),
        };
        out.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", e, n.w, t));
    }
    /// All constraints are boolean (width 1) expressions.
    pub fn check(&mut self, x: &mut Exprs, cs: &[E]) -> Res {
        let mut key = cs.to_vec();
        key.sort(); key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r { None => Res::Unsat, Some(m) => Res::Sat(m.iter().copied().collect()) };
        }
        let t0 = Instant::now();
        // constraints with multiplications are expensive: they are added only if a model of the others violates them
        let (hard, easy): (Vec<E>, Vec<E>) = key.iter().partition(|c| self.hard(x, **c));
        let r = if hard.is_empty() { self.run(x, &key) } else if easy.is_empty() {
            match self.guess(x, &key, &Model::new()) { Some(m) => Res::Sat(m), None => self.run(x, &key) }
        } else {
            match self.run(x, &easy) {
                Res::Unsat => Res::Unsat,
                Res::Sat(mut m) => {
                    let mut memo = HashMap::new();
                    if hard.iter().all(|c| x.eval(*c, &m, &mut memo) != 0) {
                        for c in &hard { for v in x.free(*c).iter() { m.entry(*v).or_insert(0); } }
                        Res::Sat(m)
                    } else if let Some(m) = self.guess(x, &key, &m) { Res::Sat(m) } else { self.run(x, &key) }
                }
                Res::Unknown(_) => self.run(x, &key),
            }
        };
        let dt = t0.elapsed();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        self.queries += 1;
        match &r {
            Res::Sat(m) => { self.sat += 1; self.cache.insert(key.clone(), Some(m.iter().map(|(a, b)| (*a, *b)).collect())); }
            Res::Unsat => { self.unsat += 1; self.cache.insert(key.clone(), None); }
            _ => {}
        }
        if let Some(s2) = &mut self.second {
            let r2 = s2.run(x, &key);
            match (&r, &r2) {
                (Res::Sat(_), Res::Sat(_)) | (Res::Unsat, Res::Unsat) => self.crosschecked += 1,
                (_, Res::Unknown(_)) => {}
                _ => return Res::Unknown("solver disagreement".into()),
            }
        }
        r
    }
    /// A satisfying assignment among a few arbitrary ones, verified by evaluation; finding none means nothing.
    fn guess(&mut self, x: &mut Exprs, key: &[E], base: &Model) -> Option<Model> {
        let mut vars: Vec<u32> = key.iter().flat_map(|c| x.free(*c).to_vec()).collect();
        vars.sort(); vars.dedup();
        for round in 0..8u64 {
            let mut m = base.clone();
            for v in &vars {
                let mut z = (*v as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(round.wrapping_mul(0xd1342543de82ef95));
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z ^= z >> 27;
                // first every variable, then only some of them
                if round < 4 || z & 3 == 0 { m.insert(*v, z >> 8); } else { m.entry(*v).or_insert(0); }
            }
            let mut memo = HashMap::new();
            if key.iter().all(|c| x.eval(*c, &m, &mut memo) != 0) { return Some(m); }
        }
        None
    }
    fn hard(&mut self, x: &Exprs, e: E) -> bool {
        if let Some(b) = self.hard.get(&e) { return *b; }
        let n = x.nodes[e as usize];
        let kids: Vec<E> = match n.op { Op::Const | Op::Var => vec![], Op::Ite => vec![n.a, n.b, n.c], Op::Not | Op::ZExt | Op::SExt | Op::Extract => vec![n.a], _ => vec![n.a, n.b] };
        let b = matches!(n.op, Op::Bin(BinOp::Mul | BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem)) || kids.iter().any(|k| self.hard(x, *k));
        self.hard.insert(e, b);
        b
    }
    fn run(&mut self, x: &mut Exprs, key: &[E]) -> Res {
        if self.defined.len() > 300_000 { self.kill(); }
        if self.proc.is_none() { self.start(); }
        let mut s = String::new();
        for c in key { self.define(x, *c, &mut s); }
        s += "(push 1)\n";
        let mut vars: Vec<u32> = vec![];
        for c in key { s += &format!("(assert (= {} #b1))\n", Self::name(x, *c)); vars.extend(x.free(*c).iter()); }
        vars.sort(); vars.dedup();
        s += "(check-sat)\n";
        let ws: HashMap<u32, Vec<u8>> = { let mut h: HashMap<u32, Vec<u8>> = HashMap::new(); for c in key { collect(x, *c, &mut h, &mut HashSet::new()); } h };
        let r = self.talk(&s, 1);
        let out = match r { Ok(o) => o, Err(e) => { self.kill(); return Res::Unknown(e); } };
        let ans = out[0].trim().to_string();
        let res = match ans.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                let mut m = Model::new();
                if !vars.is_empty() {
                    let mut q = String::from("(get-value (");
                    let mut n = 0;
                    for (v, wl) in &ws { for w in wl { q += &format!("v{}_{} ", v, w); n += 1; } }
                    q += "))\n(echo \"done\")\n";
                    let _ = n;
                    match self.talk_until(&q, "done") {
                        Ok(txt) => {
                            if txt.contains("(error") { self.kill(); return Res::Unknown(txt); }
                            parse_values(&txt, &mut m);
                        }
                        Err(e) => { self.kill(); return Res::Unknown(e); }
                    }
                }
                Res::Sat(m)
            }
            o => { let o = o.to_string(); if o.contains("(error") { self.kill(); } return self.pop_unknown(o); }
        };
        if self.send("(pop 1)\n").is_err() { self.kill(); }
        res
    }
    fn pop_unknown(&mut self, o: String) -> Res { if self.proc.is_some() { let _ = self.send("(pop 1)\n"); } Res::Unknown(o) }
    fn send(&mut self, s: &str) -> Result<(), String> { let p = self.proc.as_mut().ok_or("dead")?; p.1.write_all(s.as_bytes()).map_err(|e| e.to_string())?; p.1.flush().map_err(|e| e.to_string()) }
    fn talk(&mut self, s: &str, lines: usize) -> Result<Vec<String>, String> {
        self.send(s)?;
        let p = self.proc.as_mut().ok_or("dead")?;
        let mut v = vec![];
        for _ in 0..lines { let mut l = String::new(); if p.2.read_line(&mut l).map_err(|e| e.to_string())? == 0 { return Err("solver eof".into()); } v.push(l); }
        Ok(v)
    }
    fn talk_until(&mut self, s: &str, end: &str) -> Result<String, String> {
        self.send(s)?;
        let p = self.proc.as_mut().ok_or("dead")?;
        let mut v = String::new();
        loop { let mut l = String::new(); if p.2.read_line(&mut l).map_err(|e| e.to_string())? == 0 { return Err("solver eof".into()); } if l.trim().trim_matches('"') == end { return Ok(v); } v += &l; }
    }
    /// In a forked child: forget the parent's solver process without touching it.
    pub fn after_fork(&mut self) {
        if let Some(p) = self.proc.take() { std::mem::forget(p); }
        self.queries = 0; self.sat = 0; self.unsat = 0; self.cache_hits = 0; self.time = Duration::ZERO; self.max_time = Duration::ZERO; self.crosschecked = 0;
        if let Some(s) = &mut self.second { s.after_fork(); }
    }
    fn kill(&mut self) { if let Some((mut c, _, _)) = self.proc.take() { let _ = c.kill(); let _ = c.wait(); } }
}
impl Drop for Solver { fn drop(&mut self) { self.kill(); } }

fn collect(x: &Exprs, e: E, h: &mut HashMap<u32, Vec<u8>>, seen: &mut HashSet<E>) {
    if !seen.insert(e) { return; }
    let n = x.nodes[e as usize];
    match n.op {
        Op::Const => {}
        Op::Var => { let v = h.entry(n.a).or_default(); if !v.contains(&n.w) { v.push(n.w); } }
        Op::Ite => { collect(x, n.a, h, seen); collect(x, n.b, h, seen); collect(x, n.c, h, seen); }
        Op::Not | Op::ZExt | Op::SExt | Op::Extract => collect(x, n.a, h, seen),
        _ => { collect(x, n.a, h, seen); collect(x, n.b, h, seen); }
    }
}
fn parse_values(t: &str, m: &mut Model) {
    // ((v0_32 #x00000000) (v1_1 #b0))
    let toks: Vec<&str> = t.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(r) = toks[i].strip_prefix('v') {
            let id: u32 = r.split('_').next().unwrap().parse().unwrap();
            let (v, adv) = match toks.get(i + 1) {
                Some(x) if x.starts_with("#x") => (u64::from_str_radix(&x[2..], 16).unwrap(), 2),
                Some(x) if x.starts_with("#b") => (u64::from_str_radix(&x[2..], 2).unwrap(), 2),
                Some(&"_") => (toks[i + 2].trim_start_matches("bv").parse().unwrap(), 4),
                _ => { i += 1; continue; }
            };
            m.insert(id, v);
            i += adv;
        } else { i += 1; }
    }
}
