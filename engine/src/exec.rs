//! Symbolic interpreter: depth-first path exploration over register code, several workers.
use crate::mem::*;
use crate::num;
use crate::term::*;
use crate::wasm::{op, Module, K};
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Frame { pub f: u32, pub pc: u32, pub base: u32 }

#[derive(Clone)]
pub struct State {
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub globals: Vec<V>,
    pub cond: Vec<T>,
    pub model: Vec<u64>,
    pub draws: Vec<(u8, u8)>, // kind, width
    pub emits: Vec<V>,
    pub steps: u64,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub threads: usize,
    pub max_steps: u64,
    pub max_depth: usize,
    pub time: Duration,
    pub max_viol: usize,
    pub samples: usize,
    pub query_ms: u64,
    pub seed: u64,
}

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub msg: String, pub draws: Vec<u64>, pub stack: Vec<String> }
pub struct Sample { pub draws: Vec<u64>, pub emits: Vec<u8> }

#[derive(Clone)]
enum Cached { Sat(Arc<Vec<(u32, u64)>>), Unsat }

const SHARDS: usize = 64;

#[derive(Default)]
pub struct Stats {
    pub paths: AtomicU64, pub pruned: AtomicU64, pub forks: AtomicU64, pub steps: AtomicU64,
    pub queries: AtomicU64, pub sat: AtomicU64, pub unsat: AtomicU64, pub unknown: AtomicU64,
    pub hits: AtomicU64, pub solver_us: AtomicU64, pub asserts: AtomicU64, pub maxdepth: AtomicU64,
}

pub struct Shared {
    pub m: Module,
    pub cfg: Cfg,
    pub builtin: Vec<u8>,
    pub host: Vec<Host>,
    cache: Vec<Mutex<HashMap<u128, Cached>>>,
    queue: Mutex<Vec<Box<State>>>,
    cv: Condvar,
    idle: AtomicUsize,
    pub stop: AtomicBool,
    pub st: Stats,
    pub viols: Mutex<Vec<Viol>>,
    pub incomplete: Mutex<BTreeMap<String, u64>>,
    pub covers: Mutex<BTreeMap<String, u64>>,
    pub known: Mutex<BTreeMap<String, (u64, Vec<u64>)>>,
    pub samples: Mutex<Vec<Sample>>,
    pub funcs: Mutex<HashSet<u32>>,
    pub forksites: Mutex<HashMap<u32, u64>>,
    start: Instant,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Host { Steps, Byte, U32, U64, Choice, Assume, Assert, Fail, Cover, Known, Emit, Param, Concretize, Log, Done, Unknown }

pub const BI_MEMCMP: u8 = 1;
pub const BI_MEMCPY: u8 = 2;
pub const BI_MEMSET: u8 = 3;
pub const BI_PANIC: u8 = 4;
pub const BI_BCMP: u8 = 5;

impl Shared {
    pub fn new(m: Module, cfg: Cfg) -> Shared {
        let builtin = m.funcs.iter().map(|f| match f.name.as_str() {
            "memcmp" => BI_MEMCMP, "bcmp" => BI_BCMP,
            "memcpy" | "memmove" => BI_MEMCPY, "memset" => BI_MEMSET,
            n if n.contains("rust_begin_unwind") => BI_PANIC,
            _ => 0,
        }).collect();
        let host = m.imports.iter().map(|(a, b, _)| if a != "sym" { Host::Unknown } else { match b.as_str() {
            "sym_byte" => Host::Byte, "sym_u32" => Host::U32, "sym_u64" => Host::U64, "sym_choice" => Host::Choice,
            "sym_assume" => Host::Assume, "sym_assert" => Host::Assert, "sym_fail" => Host::Fail, "sym_cover" => Host::Cover,
            "sym_known" => Host::Known, "sym_emit" => Host::Emit, "sym_param" => Host::Param, "sym_concretize" => Host::Concretize,
            "sym_log" => Host::Log, "sym_done" => Host::Done, "sym_steps" => Host::Steps, _ => Host::Unknown } }).collect();
        Shared {
            m, cfg, builtin, host, cache: (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect(),
            queue: Mutex::new(vec![]), cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false),
            st: Stats::default(), viols: Mutex::new(vec![]), incomplete: Default::default(), covers: Default::default(), known: Default::default(),
            samples: Default::default(), funcs: Default::default(), forksites: Default::default(), start: Instant::now(),
        }
    }
    pub fn initial(&self, export: &str) -> Result<State, String> {
        let (k, fi) = *self.m.exports.get(export).ok_or_else(|| format!("no export {export}"))?;
        if k != 0 { return Err("export is not a function".into()); }
        let mut mem = Mem::new(self.m.mem_min * 65536);
        for (o, d) in &self.m.data { mem.write(*o, d); }
        let f = &self.m.funcs[fi as usize];
        let mut regs = vec![V::C(0); f.nregs as usize];
        for r in regs.iter_mut() { *r = V::C(0); }
        Ok(State { regs, frames: vec![Frame { f: fi, pc: 0, base: 0 }], mem, globals: self.m.globals.iter().map(|g| V::C(*g)).collect(),
            cond: vec![], model: vec![], draws: vec![], emits: vec![], steps: 0 })
    }
    fn note(&self, why: String) { *self.incomplete.lock().unwrap().entry(why).or_insert(0) += 1; }
}

pub fn explore(sh: &Shared, init: State) {
    sh.queue.lock().unwrap().push(Box::new(init));
    std::thread::scope(|s| {
        for _ in 0..sh.cfg.threads {
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
                let mut w = Worker::new(sh);
                w.work();
                w.flush();
            }).unwrap();
        }
    });
}

enum End { Path, Pruned, Stop }
enum Br { Only(bool), Both(bool, Vec<(u32, u64)>), Unknown }

struct Worker<'a> {
    sh: &'a Shared,
    m: &'a Module,
    z: Z3,
    local: Vec<Box<State>>,
    seen: Vec<bool>,
    hits: u64, forks: u64, paths: u64, pruned: u64, asserts: u64, steps: u64, maxdepth: u64,
    sites: HashMap<u32, u64>,
    covered: HashMap<String, u64>,
}

impl<'a> Worker<'a> {
    fn new(sh: &'a Shared) -> Self {
        Worker { sh, m: &sh.m, z: Z3::new(sh.cfg.query_ms), local: vec![], seen: vec![false; sh.m.funcs.len()], hits: 0, forks: 0, paths: 0, pruned: 0, asserts: 0, steps: 0, maxdepth: 0, sites: HashMap::new(), covered: HashMap::new() }
    }
    fn flush(&mut self) {
        let s = &self.sh.st;
        s.paths.fetch_add(self.paths, Relaxed); s.pruned.fetch_add(self.pruned, Relaxed); s.forks.fetch_add(self.forks, Relaxed);
        s.steps.fetch_add(self.steps, Relaxed); s.queries.fetch_add(self.z.queries, Relaxed); s.sat.fetch_add(self.z.sat, Relaxed);
        s.unsat.fetch_add(self.z.unsat, Relaxed); s.unknown.fetch_add(self.z.unknown, Relaxed); s.hits.fetch_add(self.hits, Relaxed);
        s.solver_us.fetch_add(self.z.time.as_micros() as u64, Relaxed); s.asserts.fetch_add(self.asserts, Relaxed);
        s.maxdepth.fetch_max(self.maxdepth, Relaxed);
        let mut f = self.sh.funcs.lock().unwrap();
        for (i, b) in self.seen.iter().enumerate() { if *b { f.insert(i as u32); } }
        let mut g = self.sh.forksites.lock().unwrap();
        for (k, v) in &self.sites { *g.entry(*k).or_insert(0) += v; }
        let mut c = self.sh.covers.lock().unwrap();
        for (k, v) in &self.covered { *c.entry(k.clone()).or_insert(0) += v; }
    }
    fn work(&mut self) {
        loop {
            let mut st = match self.local.pop() { Some(s) => s, None => match self.take() { Some(s) => s, None => return } };
            if self.sh.stop.load(Relaxed) { return; }
            if self.sh.start.elapsed() > self.sh.cfg.time { self.sh.note("time limit".into()); self.halt(); return; }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run(&mut st)));
            match r {
                Ok(End::Path) => { self.paths += 1; self.sample(&st); }
                Ok(End::Pruned) => self.pruned += 1,
                Ok(End::Stop) => {}
                Err(_) => { let s = self.stack(&st); self.sh.note(format!("engine error at {}", s.first().cloned().unwrap_or_default())); self.halt(); }
            }
        }
    }
    fn halt(&self) { self.sh.stop.store(true, Relaxed); self.sh.cv.notify_all(); }
    fn take(&mut self) -> Option<Box<State>> {
        let mut q = self.sh.queue.lock().unwrap();
        self.sh.idle.fetch_add(1, SeqCst);
        loop {
            if self.sh.stop.load(Relaxed) { self.sh.cv.notify_all(); return None; }
            if let Some(s) = q.pop() { self.sh.idle.fetch_sub(1, SeqCst); return Some(s); }
            if self.sh.idle.load(SeqCst) == self.sh.cfg.threads { self.sh.cv.notify_all(); return None; }
            q = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
        }
    }
    fn push(&mut self, st: Box<State>) {
        self.forks += 1;
        self.local.push(st);
        if self.sh.idle.load(Relaxed) > 0 && self.local.len() > 1 {
            let mut q = self.sh.queue.lock().unwrap();
            if q.len() < self.sh.cfg.threads {
                q.push(self.local.remove(0));
                self.sh.cv.notify_one();
            }
        }
    }
    fn sample(&mut self, st: &State) {
        let lim = self.sh.cfg.samples;
        if lim == 0 { return; }
        // reservoir keyed by a hash so that the kept paths spread over the whole exploration
        let n = self.paths;
        let h = (n.wrapping_mul(0x9E3779B97F4A7C15) ^ self.sh.cfg.seed).wrapping_mul(0xD1B54A32D192ED03) >> 20;
        let k = (h % n) as usize;
        if n > lim as u64 && k >= lim { return; }
        let draws = self.draws(st);
        let emits: Vec<u8> = st.emits.iter().map(|v| match v { V::C(c) => *c as u8, V::S(t) => eval(t, &st.model) as u8 }).collect();
        let mut g = self.sh.samples.lock().unwrap();
        if g.len() < lim { g.push(Sample { draws, emits }); } else if k < lim { g[k] = Sample { draws, emits }; }
    }
    fn draws(&self, st: &State) -> Vec<u64> {
        (0..st.draws.len()).map(|i| st.model.get(i).copied().unwrap_or(0)).collect()
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(40).map(|f| format!("{:#}", rustc_demangle::demangle(&self.m.funcs[f.f as usize].name))).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        let v = Viol { kind: kind.into(), msg, draws: self.draws(st), stack: self.stack(st) };
        let mut g = self.sh.viols.lock().unwrap();
        if g.iter().any(|x| x.kind == v.kind && x.msg == v.msg) && g.len() > 2 { return; }
        g.push(v);
        if g.len() >= self.sh.cfg.max_viol { drop(g); self.halt(); }
    }

    // ---- solver front end -------------------------------------------------
    /// Is `cond(st) && c` satisfiable? None on unknown.
    fn feasible(&mut self, st: &State, c: &T) -> Option<Option<Arc<Vec<(u32, u64)>>>> {
        let mut mask = c.m;
        let n = st.cond.len();
        let mut inn = vec![false; n];
        loop {
            let mut ch = false;
            for i in 0..n {
                if !inn[i] && mand(&st.cond[i].m, &mask) { inn[i] = true; if mor_in(&mut mask, &st.cond[i].m) { ch = true; } }
            }
            if !ch { break; }
        }
        let mut key = hmix(c.h, 77);
        let mut cs = vec![c.clone()];
        for i in 0..n { if inn[i] { key = key.wrapping_add(hmix(st.cond[i].h, 77)); cs.push(st.cond[i].clone()); } }
        // the same question about other variables has the same answer
        let canon = cs.iter().fold(0u32, |a, t| a.saturating_add(t.sz)) <= 800;
        let mut vars: Vec<u32> = vec![];
        if canon {
            key = 0xC0;
            for t in &cs { key = hmix(key, shape(t, &mut vars)); }
        }
        let out = |m: &Arc<Vec<(u32, u64)>>, vars: &[u32]| if canon { Arc::new(m.iter().map(|(i, v)| (vars[*i as usize], *v)).collect()) } else { m.clone() };
        let shard = &self.sh.cache[(key >> 100) as usize % SHARDS];
        if let Some(r) = shard.lock().unwrap().get(&key) {
            self.hits += 1;
            return Some(match r { Cached::Sat(m) => Some(out(m, &vars)), Cached::Unsat => None });
        }
        match self.z.check(&cs) {
            Res::Sat(m) => {
                let k = if canon { m.iter().map(|(i, v)| (vars.iter().position(|x| x == i).unwrap() as u32, *v)).collect() } else { m.clone() };
                shard.lock().unwrap().insert(key, Cached::Sat(Arc::new(k)));
                Some(Some(Arc::new(m)))
            }
            Res::Unsat => { shard.lock().unwrap().insert(key, Cached::Unsat); Some(None) }
            Res::Unknown => None,
        }
    }
    fn branch(&mut self, st: &State, c: &T) -> Br {
        let v = eval(c, &st.model) == 1;
        let other = if v { not(&V::S(c.clone())) } else { V::S(c.clone()) };
        let V::S(o) = other else { return Br::Only(v) };
        match self.feasible(st, &o) {
            None => Br::Unknown,
            Some(None) => Br::Only(v),
            Some(Some(m)) => Br::Both(v, m.to_vec()),
        }
    }
    fn add(&self, st: &mut State, c: &V) {
        if let V::S(t) = c {
            if let Op::Bin(B::And, x, y) = &t.op {
                let (x, y) = (V::S(x.clone()), V::S(y.clone()));
                self.add(st, &x);
                self.add(st, &y);
                return;
            }
            if let Op::Not(n) = &t.op {
                if let Op::Bin(B::Or, x, y) = &n.op {
                    let (x, y) = (not(&V::S(x.clone())), not(&V::S(y.clone())));
                    self.add(st, &x);
                    self.add(st, &y);
                    return;
                }
            }
            if !st.cond.iter().any(|x| x.h == t.h) { st.cond.push(t.clone()); }
        }
    }
    fn setm(st: &mut State, m: &[(u32, u64)]) {
        for (i, v) in m {
            let i = *i as usize;
            if st.model.len() <= i { st.model.resize(i + 1, 0); }
            st.model[i] = *v;
        }
    }
    /// Decide a branch; pushes the other side (after `fix`) when both are feasible.
    fn decide(&mut self, st: &mut State, c: &V, fix: impl Fn(&mut State, bool)) -> Result<bool, End> {
        let t = match c { V::C(k) => return Ok(*k & 1 == 1), V::S(t) => t.clone() };
        match self.branch(st, &t) {
            Br::Only(v) => Ok(v),
            Br::Unknown => { self.sh.note("solver: unknown".into()); Err(End::Stop) }
            Br::Both(v, m) => {
                let mut o = Box::new(st.clone());
                let (pc, nc) = (V::S(t.clone()), not(&V::S(t)));
                self.add(&mut o, if v { &nc } else { &pc });
                Self::setm(&mut o, &m);
                fix(&mut o, !v);
                *self.sites.entry(st.frames.last().unwrap().f).or_insert(0) += 1;
                self.push(o);
                self.add(st, if v { &pc } else { &nc });
                Ok(v)
            }
        }
    }
    /// Every feasible value of `t` (with a model for each); the first is the current model's.
    fn values(&mut self, st: &State, t: &T, limit: usize) -> Option<Vec<(u64, Vec<(u32, u64)>)>> {
        let v0 = eval(t, &st.model);
        let mut out = vec![(v0, vec![])];
        let mut tmp = st.clone_cond();
        let mut last = v0;
        loop {
            let ne = not(&bin(B::Eq, &V::S(t.clone()), &V::C(last), t.w));
            match &ne {
                V::C(0) => return Some(out),
                V::C(_) => {}
                V::S(n) => tmp.cond.push(n.clone()),
            }
            let q = match &ne { V::S(n) => n.clone(), _ => unreachable!() };
            match self.feasible(&tmp, &q) {
                None => return None,
                Some(None) => return Some(out),
                Some(Some(m)) => {
                    // value under the extended model
                    let mut mm = st.model.clone();
                    for (i, v) in m.iter() { let i = *i as usize; if mm.len() <= i { mm.resize(i + 1, 0); } mm[i] = *v; }
                    last = eval(t, &mm);
                    out.push((last, m.to_vec()));
                    if out.len() > limit { return None; }
                }
            }
        }
    }
    /// Split on the value of a register; the current instruction is executed again on every side.
    fn split(&mut self, st: &mut State, reg: usize, w: u8) -> Result<(), End> {
        let t = match &st.regs[reg] { V::S(t) => t.clone(), _ => return Ok(()) };
        let _ = w;
        let vs = match self.values(st, &t, 4096) { Some(v) => v, None => { self.sh.note(format!("value split failed in {}", self.stack(st)[0])); return Err(End::Stop); } };
        for (v, m) in vs[1..].iter() {
            let mut o = Box::new(st.clone());
            let e = bin(B::Eq, &V::S(t.clone()), &V::C(*v), t.w);
            self.add(&mut o, &e);
            Self::setm(&mut o, m);
            o.regs[reg] = V::C(*v);
            *self.sites.entry(st.frames.last().unwrap().f).or_insert(0) += 1;
            self.push(o);
        }
        if vs.len() > 1 { let e = bin(B::Eq, &V::S(t.clone()), &V::C(vs[0].0), t.w); self.add(st, &e); }
        st.regs[reg] = V::C(vs[0].0);
        Ok(())
    }

    // ---- interpreter ------------------------------------------------------
    fn run(&mut self, st: &mut State) -> End {
        let start_steps = st.steps;
        let r = self.go(st);
        self.steps += st.steps - start_steps;
        r
    }
    fn go(&mut self, st: &mut State) -> End {
        let m = self.m;
        let mut tick = 0u32;
        'frame: loop {
            let fr = *st.frames.last().unwrap();
            let f = &m.funcs[fr.f as usize];
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            macro_rules! at { ($o:expr) => { base + $o as usize } }
            macro_rules! cv { ($o:expr) => {{ let o = $o; if o & K != 0 { Some(f.consts[(o & !K) as usize]) } else { match &st.regs[base + o as usize] { V::C(c) => Some(*c), _ => None } } }} }
            macro_rules! vv { ($o:expr) => {{ let o = $o; if o & K != 0 { V::C(f.consts[(o & !K) as usize]) } else { st.regs[base + o as usize].clone() } }} }
            macro_rules! save { ($p:expr) => { st.frames.last_mut().unwrap().pc = $p as u32 } }
            // concretise an operand by splitting, then run the instruction again
            macro_rules! resplit { ($o:expr, $w:expr) => {{ save!(pc - 1); if let Err(e) = self.split(st, base + $o as usize, $w) { return e; } pc -= 1; continue; }} }
            macro_rules! trap { ($k:expr, $($a:tt)*) => {{ save!(pc - 1); self.violation(st, $k, format!($($a)*)); return End::Stop; }} }
            loop {
                let i = f.code[pc];
                pc += 1;
                st.steps += 1;
                tick += 1;
                if tick >= 1 << 16 {
                    tick = 0;
                    if self.sh.stop.load(Relaxed) { return End::Stop; }
                    if self.sh.start.elapsed() > self.sh.cfg.time { self.sh.note("time limit".into()); self.halt(); return End::Stop; }
                    if st.steps > self.sh.cfg.max_steps { trap!("hang", "more than {} instructions on one path", self.sh.cfg.max_steps); }
                }
                match i.op {
                    0x45..=0xC4 | 0x300..=0x307 => {
                        let a = cv!(i.a);
                        let b = cv!(i.b);
                        let un = i.op < 0x100 && crate::wasm::is_unary(i.op as u8) || i.op >= 0x300;
                        if let (Some(x), true) = (a, b.is_some() || un) {
                            match num::concrete(i.op, x, b.unwrap_or(0)) {
                                Ok(v) => st.regs[at!(i.d)] = V::C(v),
                                Err(e) => trap!("trap", "{e}"),
                            }
                        } else {
                            let (x, y) = (vv!(i.a), if un { V::C(0) } else { vv!(i.b) });
                            if matches!(i.op, 0x6D..=0x70 | 0x7F..=0x82) {
                                let w = if i.op < 0x79 { 32 } else { 64 };
                                let z = bin(B::Eq, &y, &V::C(0), w);
                                if !matches!(z, V::C(0)) {
                                    // division: the zero divisor becomes a separate side that re-executes concretely
                                    save!(pc - 1);
                                    let rb = base + i.b as usize;
                                    match self.decide(st, &z, |s, v| if v { s.regs[rb] = V::C(0) }) {
                                        Err(e) => return e,
                                        Ok(true) => trap!("trap", "division by zero"),
                                        Ok(false) => {}
                                    }
                                }
                            }
                            match num::symbolic(i.op, &x, &y) {
                                // positions of bits are positions of bytes in words; they are told apart here
                                // rather than at each place that would use the unsettled length
                                Some(v @ V::S(_)) if matches!(i.op, 0x67 | 0x68 | 0x79 | 0x7A) => {
                                    st.regs[at!(i.d)] = v;
                                    save!(pc);
                                    if let Err(e) = self.split(st, base + i.d as usize, 64) { return e; }
                                }
                                Some(v) => st.regs[at!(i.d)] = v,
                                None => {
                                    if a.is_none() && (i.op != 0x77 && i.op != 0x78 && i.op != 0x89 && i.op != 0x8A) { resplit!(i.a, 64) }
                                    if b.is_none() && !un { resplit!(i.b, 64) }
                                    resplit!(i.a, 64)
                                }
                            }
                        }
                    }
                    op::MOV => { let v = vv!(i.a); st.regs[at!(i.d)] = v; }
                    0x28..=0x35 => {
                        let (n, sg, w) = ldinfo(i.op);
                        match cv!(i.a) {
                            Some(a) => {
                                let a = a.wrapping_add(i.x);
                                if !st.mem.ok(a, n as u64) { trap!("trap", "out of bounds load at {a:#x}"); }
                                let v = match st.mem.load_c(a, n) {
                                    Some(c) => V::C(if sg { (sx(c, 8 * n as u8) as u64) & wmask(w) } else { c }),
                                    None => { let v = st.mem.load(a, n); if sg { sext(&v, 8 * n as u8, w) } else { zext(&v, 8 * n as u8, w) } }
                                };
                                st.regs[at!(i.d)] = v;
                            }
                            None => {
                                let V::S(t) = vv!(i.a) else { unreachable!() };
                                save!(pc - 1);
                                let vs = match self.values(st, &t, 2048) { Some(v) => v, None => { self.sh.note(format!("symbolic load with too many targets in {}", self.stack(st)[0])); return End::Stop; } };
                                let mut groups: Vec<(V, Vec<u64>)> = vec![];
                                for (a, _) in &vs {
                                    let p = a.wrapping_add(i.x);
                                    if !st.mem.ok(p, n as u64) { trap!("trap", "out of bounds load at {p:#x}"); }
                                    let v = st.mem.load(p, n);
                                    let v = if sg { sext(&v, 8 * n as u8, w) } else { zext(&v, 8 * n as u8, w) };
                                    match groups.iter_mut().find(|g| match (&g.0, &v) { (V::C(x), V::C(y)) => x == y, (V::S(x), V::S(y)) => same(x, y), _ => false }) {
                                        Some(g) => g.1.push(*a),
                                        None => groups.push((v, vec![*a])),
                                    }
                                }
                                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                                let mut r = groups[0].0.clone();
                                for (v, addrs) in &groups[1..] {
                                    let mut c = V::C(0);
                                    for a in addrs { c = or1(&c, &bin(B::Eq, &V::S(t.clone()), &V::C(*a), t.w)); }
                                    r = ite(&c, v, &r, w);
                                }
                                st.regs[at!(i.d)] = r;
                            }
                        }
                    }
                    0x36..=0x3E => {
                        let n = match i.op { 0x36 | 0x38 | 0x3E => 4, 0x37 | 0x39 => 8, 0x3A | 0x3C => 1, _ => 2 };
                        let a = match cv!(i.a) { Some(a) => a.wrapping_add(i.x), None => resplit!(i.a, 64) };
                        if !st.mem.ok(a, n) { trap!("trap", "out of bounds store at {a:#x}"); }
                        let v = match vv!(i.b) {
                            V::C(c) => V::C(c),
                            V::S(t) => { let w = t.w; let v = V::S(t); if w as u64 > 8 * n { extract(&v, w, 0, 8 * n as u8) } else { v } }
                        };
                        st.mem.store(a, n as usize, &v);
                    }
                    op::BR => pc = i.x as usize,
                    op::BRIF | op::BRIFN => {
                        let neg = i.op == op::BRIFN;
                        match cv!(i.a) {
                            Some(c) => if (c as u32 != 0) != neg { pc = i.x as usize },
                            None => {
                                let c = not(&bin(B::Eq, &vv!(i.a), &V::C(0), 32));
                                let c = if neg { not(&c) } else { c };
                                let (tk, nt) = (i.x as u32, pc as u32);
                                save!(pc);
                                match self.decide(st, &c, |s, v| s.frames.last_mut().unwrap().pc = if v { tk } else { nt }) {
                                    Err(e) => return e,
                                    Ok(true) => pc = i.x as usize,
                                    Ok(false) => {}
                                }
                            }
                        }
                    }
                    op::BRTABLE => {
                        let t = &f.tables[i.x as usize];
                        match cv!(i.a) {
                            Some(c) => { let c = c as u32 as usize; pc = t[c.min(t.len() - 1)] as usize; }
                            None => {
                                let x = vv!(i.a);
                                let def = t[t.len() - 1];
                                let mut groups: Vec<(u32, V)> = vec![];
                                let mut any = V::C(0);
                                for (j, tg) in t[..t.len() - 1].iter().enumerate() {
                                    if *tg == def { continue; }
                                    let e = bin(B::Eq, &x, &V::C(j as u64), 32);
                                    any = or1(&any, &e);
                                    match groups.iter_mut().find(|g| g.0 == *tg) { Some(g) => g.1 = or1(&g.1, &e), None => groups.push((*tg, e)) }
                                }
                                groups.push((def, not(&any)));
                                save!(pc);
                                let mut cur = None;
                                for (tg, c) in groups {
                                    match &c {
                                        V::C(0) => continue,
                                        V::C(_) => { cur = Some((tg, c)); }
                                        V::S(ct) => {
                                            if eval(ct, &st.model) == 1 { cur = Some((tg, c)); continue; }
                                            match self.feasible(st, ct) {
                                                None => { self.sh.note("solver: unknown".into()); return End::Stop; }
                                                Some(None) => {}
                                                Some(Some(md)) => {
                                                    let mut o = Box::new(st.clone());
                                                    self.add(&mut o, &c);
                                                    Self::setm(&mut o, &md);
                                                    o.frames.last_mut().unwrap().pc = tg;
                                                    *self.sites.entry(fr.f).or_insert(0) += 1;
                                                    self.push(o);
                                                }
                                            }
                                        }
                                    }
                                }
                                let (tg, c) = cur.expect("no current br_table target");
                                self.add(st, &c);
                                pc = tg as usize;
                            }
                        }
                    }
                    op::SELECT => {
                        match cv!(i.x as u32) {
                            Some(c) => { let v = if c as u32 != 0 { vv!(i.a) } else { vv!(i.b) }; st.regs[at!(i.d)] = v; }
                            None => {
                                let c = not(&bin(B::Eq, &vv!(i.x as u32), &V::C(0), 32));
                                let (x, y) = (vv!(i.a), vv!(i.b));
                                let eq = match (&x, &y) { (V::C(p), V::C(q)) => p == q, (V::S(p), V::S(q)) => same(p, q), _ => false };
                                if eq { st.regs[at!(i.d)] = x; continue; }
                                let w = match (&x, &y) { (V::S(t), _) | (_, V::S(t)) => t.w, (V::C(p), V::C(q)) => if *p <= 0xffff && *q <= 0xffff { 32 } else { 64 } };
                                // small selections become terms; pointer-like ones split the path
                                let small = match (&x, &y) { (V::C(p), V::C(q)) => *p <= 0xffff && *q <= 0xffff, _ => w <= 32 };
                                if small && w <= 32 && !matches!((&x, &y), (V::C(_), V::C(_))) {
                                    st.regs[at!(i.d)] = ite(&c, &x, &y, 32);
                                    continue;
                                }
                                // both concrete: the width of the result is not recorded in wasm's untyped select
                                if small && matches!((&x, &y), (V::C(_), V::C(_))) && sel32(f, pc, i.d) {
                                    st.regs[at!(i.d)] = ite(&c, &x, &y, 32);
                                    continue;
                                }
                                let d = at!(i.d);
                                let npc = pc as u32;
                                save!(pc);
                                let (x2, y2) = (x.clone(), y.clone());
                                match self.decide(st, &c, move |s, v| { s.frames.last_mut().unwrap().pc = npc; s.regs[d] = if v { x2.clone() } else { y2.clone() }; }) {
                                    Err(e) => return e,
                                    Ok(v) => st.regs[d] = if v { x } else { y },
                                }
                            }
                        }
                    }
                    op::CALL | op::CALLI => {
                        let callee = if i.op == op::CALL { i.x as u32 } else {
                            let ix = match cv!(i.a) { Some(c) => c, None => resplit!(i.a, 32) };
                            match m.table.get(ix as usize).copied().flatten() {
                                Some(c) => { if m.types[m.funcs[c as usize].ty] != m.types[i.x as usize] { trap!("trap", "indirect call type mismatch"); } c }
                                None => trap!("trap", "indirect call to null"),
                            }
                        };
                        self.seen[callee as usize] = true;
                        let bi = self.sh.builtin[callee as usize];
                        let cb = base + i.d as usize;
                        if bi != 0 {
                            if bi == BI_PANIC {
                                save!(pc);
                                let loc = panic_loc(st, cb);
                                st.frames.push(Frame { f: callee, pc: 0, base: cb as u32 });
                                self.violation(st, "panic", loc);
                                return End::Stop;
                            }
                            let mut sp = None;
                            for k in 0..3 { if matches!(st.regs[cb + k], V::S(_)) && !(bi == BI_MEMSET && k == 1) { sp = Some(i.d + k as u32); } }
                            if let Some(s) = sp { resplit!(s, 64) }
                            let a = st.regs[cb].c().unwrap();
                            let n = st.regs[cb + 2].c().unwrap();
                            let b = if bi == BI_MEMSET { 0 } else { st.regs[cb + 1].c().unwrap() };
                            if !st.mem.ok(a, n) || bi != BI_MEMSET && !st.mem.ok(b, n) { if n > 0 { trap!("trap", "out of bounds memory access"); } }
                            match bi {
                                BI_MEMCPY => { st.steps += n / 8; st.mem.copy(a, b, n) }
                                BI_MEMSET => { let v = match &st.regs[cb + 1] { V::C(c) => V::C(*c & 0xff), V::S(t) => extract(&V::S(t.clone()), t.w, 0, 8) }; st.mem.fill(a, &v, n) }
                                _ => { st.steps += n / 8; st.regs[cb] = memcmp(&st.mem, a, b, n, bi == BI_BCMP); }
                            }
                            continue;
                        }
                        if (callee as usize) < m.imports.len() { // indirect call of an import
                            save!(pc);
                            if let Err(e) = self.hostcall(st, callee as usize, cb) { return e; }
                            continue;
                        }
                        let g = &m.funcs[callee as usize];
                        save!(pc);
                        let need = cb + g.nregs as usize;
                        if st.regs.len() < need { st.regs.resize(need, V::C(0)); }
                        for r in cb + g.np as usize..cb + g.nlocals as usize { st.regs[r] = V::C(0); }
                        st.frames.push(Frame { f: callee, pc: 0, base: cb as u32 });
                        if st.frames.len() as u64 > self.maxdepth { self.maxdepth = st.frames.len() as u64; }
                        if st.frames.len() > self.sh.cfg.max_depth { self.violation(st, "hang", format!("call depth over {}", self.sh.cfg.max_depth)); return End::Stop; }
                        continue 'frame;
                    }
                    op::HOST => {
                        save!(pc);
                        let k = i.x as usize;
                        if !matches!(self.sh.host[k], Host::Assume) {
                            let first = if matches!(self.sh.host[k], Host::Assert) { 1 } else { 0 };
                            // scalar arguments must be concrete (concretize itself splits)
                            let np = m.types[m.imports[k].2].p.len();
                            let mut sp = None;
                            for j in first..np { if matches!(st.regs[base + i.d as usize + j], V::S(_)) { sp = Some(i.d + j as u32); } }
                            if let Some(s) = sp { resplit!(s, 64) }
                        }
                        if let Err(e) = self.hostcall(st, k, base + i.d as usize) { return e; }
                    }
                    op::RET => {
                        for k in 0..i.x as usize { let v = st.regs[base + i.d as usize + k].clone(); st.regs[base + k] = v; }
                        st.frames.pop();
                        match st.frames.last() {
                            None => return End::Path,
                            Some(p) => {
                                let keep = p.base as usize + m.funcs[p.f as usize].nregs as usize;
                                let keep = keep.max(base + i.x as usize);
                                st.regs.resize(keep, V::C(0));
                            }
                        }
                        continue 'frame;
                    }
                    op::GGET => { let v = st.globals[i.x as usize].clone(); st.regs[at!(i.d)] = v; }
                    op::GSET => { let v = vv!(i.a); st.globals[i.x as usize] = v; }
                    op::MSIZE => st.regs[at!(i.d)] = V::C(st.mem.size >> 16),
                    op::MGROW => {
                        let n = match cv!(i.a) { Some(n) => n, None => resplit!(i.a, 64) };
                        let old = st.mem.size >> 16;
                        if old + n > 4096 { save!(pc - 1); self.violation(st, "hang", "memory limit of 256 MiB".into()); return End::Stop; }
                        st.mem.grow(n << 16);
                        st.regs[at!(i.d)] = V::C(old);
                    }
                    op::MCOPY => {
                        let d = match cv!(i.d) { Some(n) => n, None => resplit!(i.d, 64) };
                        let s = match cv!(i.a) { Some(n) => n, None => resplit!(i.a, 64) };
                        let n = match cv!(i.b) { Some(n) => n, None => resplit!(i.b, 64) };
                        if !st.mem.ok(d, n) || !st.mem.ok(s, n) { trap!("trap", "out of bounds memory.copy"); }
                        st.steps += n / 8;
                        st.mem.copy(d, s, n);
                    }
                    op::MFILL => {
                        let d = match cv!(i.d) { Some(n) => n, None => resplit!(i.d, 64) };
                        let n = match cv!(i.b) { Some(n) => n, None => resplit!(i.b, 64) };
                        if !st.mem.ok(d, n) { trap!("trap", "out of bounds memory.fill"); }
                        let v = match vv!(i.a) { V::C(c) => V::C(c & 0xff), V::S(t) => { let w = t.w; extract(&V::S(t), w, 0, 8) } };
                        st.mem.fill(d, &v, n);
                    }
                    op::TRAP => trap!("trap", "unreachable executed"),
                    o => panic!("op {o:#x}"),
                }
            }
        }
    }

    fn newvar(&mut self, st: &mut State, kind: u8, w: u8, init: u64) -> V {
        let id = st.draws.len();
        st.draws.push((kind, w));
        if st.model.len() <= id { st.model.resize(id + 1, 0); }
        st.model[id] = init;
        V::S(var(id as u32, w))
    }
    fn text(&self, st: &State, p: u64, n: u64) -> String {
        let b: Vec<u8> = (0..n.min(4096)).map(|i| match st.mem.byte(p + i) { V::C(c) => c as u8, V::S(t) => eval(&t, &st.model) as u8 }).collect();
        String::from_utf8_lossy(&b).into_owned()
    }
    fn ptrlen(&self, st: &State, r: usize) -> (u64, u64) {
        (st.regs[r].c().expect("symbolic pointer to host"), st.regs[r + 1].c().expect("symbolic length to host"))
    }
    fn hostcall(&mut self, st: &mut State, k: usize, r: usize) -> Result<(), End> {
        match self.sh.host[k] {
            Host::Byte => {
                let (lo, hi) = (st.regs[r].c().unwrap() as u32 as u64, st.regs[r + 1].c().unwrap() as u32 as u64);
                let v = self.newvar(st, 0, 8, lo);
                if lo > 0 { let c = not(&bin(B::Ult, &v, &V::C(lo), 8)); self.add(st, &c); }
                if hi < 255 { let c = not(&bin(B::Ult, &V::C(hi), &v, 8)); self.add(st, &c); }
                st.regs[r] = zext(&v, 8, 32);
            }
            Host::U32 => { st.regs[r] = self.newvar(st, 1, 32, 0); }
            Host::U64 => { st.regs[r] = self.newvar(st, 2, 64, 0); }
            Host::Choice => {
                let n = st.regs[r].c().unwrap() as u32 as u64;
                let v = self.newvar(st, 3, 8, 0);
                assert!(n > 0 && n <= 256);
                if n < 256 { let c = bin(B::Ult, &v, &V::C(n), 8); self.add(st, &c); }
                st.regs[r] = zext(&v, 8, 32);
            }
            Host::Concretize => {} // argument was split before the call
            Host::Assume => {
                let c = not(&bin(B::Eq, &st.regs[r], &V::C(0), 32));
                match &c {
                    V::C(0) => return Err(End::Pruned),
                    V::C(_) => {}
                    V::S(t) => {
                        if eval(t, &st.model) != 1 {
                            match self.feasible(st, t) {
                                None => { self.sh.note("solver: unknown".into()); return Err(End::Stop); }
                                Some(None) => return Err(End::Pruned),
                                Some(Some(m)) => Self::setm(st, &m),
                            }
                        }
                        self.add(st, &c);
                    }
                }
            }
            Host::Assert => {
                self.asserts += 1;
                let c = not(&bin(B::Eq, &st.regs[r], &V::C(0), 32));
                let (p, n) = self.ptrlen(st, r + 1);
                match &c {
                    V::C(0) => { let s = self.text(st, p, n); self.violation(st, "assert", s); return Err(End::Stop); }
                    V::C(_) => {}
                    V::S(t) => {
                        match self.branch(st, t) {
                            Br::Unknown => { self.sh.note("solver: unknown".into()); return Err(End::Stop); }
                            Br::Only(true) => {}
                            Br::Only(false) => { let s = self.text(st, p, n); self.violation(st, "assert", s); return Err(End::Stop); }
                            Br::Both(true, m) => {
                                let mut o = st.clone();
                                Self::setm(&mut o, &m);
                                let s = self.text(&o, p, n);
                                self.violation(&o, "assert", s);
                                self.add(st, &c);
                            }
                            Br::Both(false, m) => {
                                let s = self.text(st, p, n);
                                self.violation(st, "assert", s);
                                Self::setm(st, &m);
                                self.add(st, &c);
                            }
                        }
                    }
                }
            }
            Host::Fail => { self.asserts += 1; let (p, n) = self.ptrlen(st, r); let s = self.text(st, p, n); self.violation(st, "fail", s); return Err(End::Stop); }
            Host::Cover => { let (p, n) = self.ptrlen(st, r); let s = self.text(st, p, n); *self.covered.entry(s).or_insert(0) += 1; }
            Host::Known => {
                let (p, n) = self.ptrlen(st, r);
                let s = self.text(st, p, n);
                let d = self.draws(st);
                let mut g = self.sh.known.lock().unwrap();
                let e = g.entry(s).or_insert((0, d));
                e.0 += 1;
            }
            Host::Emit => { let (p, n) = self.ptrlen(st, r); for i in 0..n { let b = st.mem.byte(p + i); st.emits.push(b); } }
            Host::Steps => { st.regs[r] = V::C(st.steps); }
            Host::Param => { let i = st.regs[r].c().unwrap() as usize; st.regs[r] = V::C(self.sh.cfg.params.get(i).copied().unwrap_or(0)); }
            Host::Log => { let (p, n) = self.ptrlen(st, r); let s = self.text(st, p, n); eprintln!("[log] {s}"); }
            Host::Done => { return Err(End::Path); }
            Host::Unknown => { let (a, b, _) = &self.m.imports[k]; self.sh.note(format!("unmodelled import {a}.{b}")); return Err(End::Stop); }
        }
        Ok(())
    }
}

impl State {
    fn clone_cond(&self) -> State {
        State { regs: vec![], frames: vec![], mem: Mem { pages: vec![], size: 0 }, globals: vec![], cond: self.cond.clone(), model: vec![], draws: vec![], emits: vec![], steps: 0 }
    }
}

fn ldinfo(o: u16) -> (usize, bool, u8) {
    match o {
        0x28 | 0x2A => (4, false, 32), 0x29 | 0x2B => (8, false, 64),
        0x2C => (1, true, 32), 0x2D => (1, false, 32), 0x2E => (2, true, 32), 0x2F => (2, false, 32),
        0x30 => (1, true, 64), 0x31 => (1, false, 64), 0x32 => (2, true, 64), 0x33 => (2, false, 64),
        0x34 => (4, true, 64), _ => (4, false, 64),
    }
}
/// Whether the result of a select of two small constants is consumed as a 32-bit value by the
/// next instruction that reads it (looked up conservatively in straight-line code).
fn sel32(f: &crate::wasm::Func, mut pc: usize, d: u32) -> bool {
    for _ in 0..6 {
        let Some(i) = f.code.get(pc) else { return false };
        pc += 1;
        match i.op {
            0x36 | 0x3A | 0x3B if i.b == d => return true,
            0x45..=0x4F | 0x67..=0x78 | 0xAC | 0xAD | 0xC0 | 0xC1 if i.a == d || i.b == d => return true,
            op::BRIF | op::BRIFN if i.a == d => return true,
            0x28..=0x3E | 0x45..=0xC4 | op::MOV => {
                if i.a == d || (i.b == d && i.op >= 0x36) { return false; }
                if crate::wasm::writes_d(i.op) && i.d == d { return false; }
            }
            _ => return false,
        }
    }
    false
}
fn memcmp(mem: &Mem, a: u64, b: u64, n: u64, eq_only: bool) -> V {
    let mut diff = V::C(0); // 1 when different
    let mut pairs = vec![];
    for i in 0..n {
        let (x, y) = (mem.byte(a + i), mem.byte(b + i));
        match (&x, &y) {
            (V::C(p), V::C(q)) => {
                if p == q { continue; }
                if eq_only { return V::C(1); }
                pairs.push((x, y));
                break;
            }
            (V::S(p), V::S(q)) if same(p, q) => continue,
            _ => {}
        }
        pairs.push((x, y));
    }
    if eq_only {
        for (x, y) in &pairs { diff = or1(&diff, &not(&bin(B::Eq, x, y, 8))); }
        return zext(&diff, 1, 32);
    }
    let mut r = V::C(0);
    for (x, y) in pairs.iter().rev() {
        let lt = bin(B::Ult, x, y, 8);
        let gt = bin(B::Ult, y, x, 8);
        r = ite(&lt, &V::C(0xFFFF_FFFF), &ite(&gt, &V::C(1), &r, 32), 32);
    }
    r
}
fn panic_loc(st: &State, r: usize) -> String {
    let rd = |a: u64, n: usize| -> u64 { if st.mem.ok(a, n as u64) { st.mem.load(a, n).c().unwrap_or(0) } else { 0 } };
    let Some(info) = st.regs[r].c() else { return "panic".into() };
    for off in [8u64, 0, 16] {
        let l = rd(info + off, 8);
        if l == 0 { continue; }
        let (p, n, line, col) = (rd(l, 8), rd(l + 8, 8), rd(l + 16, 4), rd(l + 20, 4));
        if n > 0 && n < 512 && line > 0 && line < 1_000_000 && col < 10_000 {
            let s: Vec<u8> = (0..n).map(|i| rd(p + i, 1) as u8).collect();
            if let Ok(s) = String::from_utf8(s) { if s.contains(".rs") { return format!("{}:{line}:{col}", s.trim_end_matches('\0')); } }
        }
    }
    "panic".into()
}
