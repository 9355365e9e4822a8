mod exec; mod expr; mod ir; mod mem; mod solver; mod val;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn prctl(op: i32, ...) -> i32;
}

struct Shared { tokens: AtomicI64, stop: AtomicU64, procs: AtomicU64, violations: AtomicU64 }

fn fail(m: &str) -> ! { eprintln!("shardsym: {}", m); std::process::exit(2) }

fn main() {
    let mut irs = vec![];
    let mut entries: Vec<String> = vec![];
    let mut jobs = 8i64;
    let mut timeout = 600.0f64;
    let mut out = String::from("/tmp/shardsym-out");
    let mut samples = 16usize;
    let mut seed = 1u64;
    let mut max_steps = 2_000_000_000u64;
    let mut solver_cmd = "z3 -in -smt2".to_string();
    let mut second: Option<String> = None;
    let mut solver_timeout = 20_000u64;
    let mut max_viol = 3u64;
    let mut list = false;
    let mut trace = false;
    let mut leaks_ignored = false;
    let mut uf: Vec<String> = vec![];
    let mut uf_not: Vec<u64> = vec![];
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let mut nx = || args.next().unwrap_or_else(|| fail("missing argument"));
        match a.as_str() {
            "--ir" => irs.push(nx()),
            "--harness" => entries.push(nx()),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--timeout" => timeout = nx().parse().unwrap(),
            "--out" => out = nx(),
            "--samples" => samples = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--max-steps" => max_steps = nx().parse().unwrap(),
            "--solver" => solver_cmd = nx(),
            "--second-solver" => second = Some(nx()),
            "--solver-timeout" => solver_timeout = nx().parse().unwrap(),
            "--uf" => uf.push(nx()),
            "--uf-not" => uf_not.push(nx().parse().unwrap()),
            "--max-violations" => max_viol = nx().parse().unwrap(),
            "--ignore-leaks" => leaks_ignored = true,
            "--list" => list = true,
            "--trace" => trace = true,
            _ => fail(&format!("unknown argument {}", a)),
        }
    }
    let m = match ir::load_modules(&irs) { Ok(m) => Box::leak(Box::new(m)), Err(e) => fail(&e) };
    if list { for f in &m.funcs { println!("{} body={} {:?}", f.name, f.has_body, f.intrinsic); } return; }
    std::fs::create_dir_all(&out).ok();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(timeout);
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.tokens.store(jobs - 1, SeqCst);
    let split = |s: &str| s.split_whitespace().map(String::from).collect::<Vec<_>>();
    let mut s = solver::Solver::new(split(&solver_cmd), solver_timeout);
    if let Some(c) = second { s = s.with_second(split(&c)); }
    let mut ex = Exec::new(m, s);
    ex.max_samples = samples;
    ex.leaks_ignored = leaks_ignored;
    ex.uf_not = uf_not;
    for (i, f) in m.funcs.iter().enumerate() { if f.has_body && uf.iter().any(|u| f.name.contains(u.as_str())) { ex.uf.insert(i as u32); } }
    ex.seed = seed;
    ex.trace = trace;
    ex.max_steps = max_steps;
    ex.deadline = Some(deadline);
    if entries.len() != 1 { fail("exactly one --harness"); }
    let f = match m.fmap.get(&entries[0]) { Some(f) if m.funcs[*f as usize].has_body => *f, _ => fail(&format!("no harness {}", entries[0])) };
    ex.executed[f as usize] = true;
    let init = ex.initial(f);
    let mut w = Worker { ex, sh, out, child: false, kids: vec![], t_start: Instant::now(), last_fork: Instant::now(), max_viol, seen: 0 };
    w.ex.pending.push(init);
    w.work();
}

struct Worker { ex: Exec<'static>, sh: &'static Shared, out: String, child: bool, kids: Vec<i32>, t_start: Instant, last_fork: Instant, max_viol: u64, seen: u64 }

impl Worker {
    fn work(&mut self) -> ! {
        loop {
            if self.sh.stop.load(SeqCst) != 0 { break; }
            let st = match self.ex.pending.pop() { Some(s) => s, None => break };
            // run_state calls back for donation; a donated child continues in this same loop with only the donated state
            let sh = self.sh;
            let kids: *mut Vec<i32> = &mut self.kids;
            let childp: *mut bool = &mut self.child;
            let last: *mut Instant = &mut self.last_fork;
            let tstart: *mut Instant = &mut self.t_start;
            let mut became_child = false;
            {
                let bc = &mut became_child;
                let mut donate = |ex: &mut Exec<'static>| unsafe {
                    if *bc || ex.pending.len() < 1 || sh.tokens.load(SeqCst) <= 0 { return false; }
                    if (*last).elapsed() < Duration::from_millis(3) { return false; }
                    if sh.tokens.fetch_sub(1, SeqCst) <= 0 { sh.tokens.fetch_add(1, SeqCst); return false; }
                    *last = Instant::now();
                    let pid = fork();
                    if pid < 0 { sh.tokens.fetch_add(1, SeqCst); return false; }
                    if pid == 0 {
                        prctl(1, 9); // die with parent
                        *bc = true;
                        *childp = true;
                        (*kids).clear();
                        *tstart = Instant::now();
                        *last = Instant::now();
                        ex.after_fork();
                        let st = ex.pending.remove(0);
                        ex.pending.clear();
                        ex.pending.push(st);
                        return true;
                    }
                    (*kids).push(pid);
                    ex.pending.remove(0);
                    false
                };
                self.ex.run_state(st, &mut donate);
            }
            let n = self.ex.violations.len() as u64;
            // a donated child starts with none
            self.seen = self.seen.min(n);
            if n > self.seen { let new = n - self.seen; self.seen = n; if self.sh.violations.fetch_add(new, SeqCst) + new >= self.max_viol { self.sh.stop.store(1, SeqCst); } }
            if !self.ex.errors.is_empty() { self.sh.stop.store(1, SeqCst); }
        }
        let bad = self.finish();
        if self.child { self.sh.tokens.fetch_add(1, SeqCst); }
        let mut code = bad;
        for k in &self.kids { let mut s = 0; let r = unsafe { waitpid(*k, &mut s, 0) }; if r != *k || s != 0 { if s != 0 && (s & 0x7f) != 0 || (s >> 8) & 0xff == 3 { code = 3; } } }
        if code == 3 { let _ = std::fs::write(format!("{}/crash-{}", self.out, unsafe { getpid() }), "worker died"); }
        unsafe { _exit(if self.child { code } else { code }) }
    }
    fn finish(&mut self) -> i32 {
        let ex = &mut self.ex;
        let path = format!("{}/{}.res", self.out, unsafe { getpid() });
        let mut o = String::new();
        let s = &ex.stats;
        for (k, v) in [("paths", s.paths), ("completed", s.completed), ("assumed_away", s.assumed_away), ("aborted", s.aborted), ("steps", s.steps), ("forks", s.forks),
            ("checks_concrete", s.checks_concrete), ("checks_symbolic", s.checks_symbolic), ("ub_checks_symbolic", s.ub_checks_symbolic), ("concretised", s.concretised), ("mem_copies", s.mem_ops),
            ("queries", ex.solver.queries), ("sat", ex.solver.sat), ("unsat", ex.solver.unsat), ("query_cache_hits", ex.solver.cache_hits), ("solver_us", ex.solver.time.as_micros() as u64), ("crosschecked", ex.solver.crosschecked)] { o += &format!("N {} {}\n", k, v); }
        o += &format!("MAX inputs {}\nMAX decisions {}\nMAX solver_max_us {}\nMAX exprs {}\n", s.max_inputs, s.max_decisions, ex.solver.max_time.as_micros(), ex.x.nodes.len());
        if self.ex.incomplete || (!self.ex.pending.is_empty()) { o += "INCOMPLETE\n"; }
        let ex = &mut self.ex;
        for (i, b) in ex.executed.iter().enumerate() { if *b { o += &format!("F {}\n", ex.m.funcs[i].name); } }
        o += &format!("REACH {}\n", ex.reach);
        for (k, v) in &ex.check_ids { o += &format!("C {} {} {}\n", v.0, v.1, k.replace('\n', " ")); }
        let j = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        for s in &ex.samples { o += &format!("S {}\t{}\t{}\t{}\t{}\n", s.hash, s.reach, j(&s.inputs), j(&s.log), s.pc); }
        for v in &ex.violations { o += &format!("V {}\t{}\t{}\t{}\t{}\n", v.kind, v.msg.replace(['\n', '\t'], " "), j(&v.inputs), j(&v.log), v.trace.replace(['\n', '\t'], " ")); }
        for e in &ex.errors { o += &format!("E {}\n", e.replace('\n', " ")); }
        let mut f = match std::fs::File::create(&path) { Ok(f) => f, Err(_) => return 3 };
        if f.write_all(o.as_bytes()).is_err() { return 3; }
        0
    }
}
