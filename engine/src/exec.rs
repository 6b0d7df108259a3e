//! Symbolic executor over the parsed IR.
use crate::expr::{self, *};
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub enum Data { C(Vec<u8>), M(Vec<u32>) }
const SB: u32 = 256; // symbolic byte = SB + Eid
#[derive(Clone)]
pub struct Obj { pub data: Data, pub size: u64, pub sym: Option<Eid>, pub ro: bool }
impl Obj {
    fn phys(&self) -> usize { match &self.data { Data::C(v) => v.len(), Data::M(v) => v.len() } }
    fn byte(&self, i: usize) -> u32 { match &self.data { Data::C(v) => *v.get(i).unwrap_or(&0) as u32, Data::M(v) => *v.get(i).unwrap_or(&0) } }
    fn grow(&mut self, n: usize) { match &mut self.data { Data::C(v) => if v.len() < n { v.resize(n, 0) }, Data::M(v) => if v.len() < n { v.resize(n, 0) } } }
    fn set(&mut self, i: usize, b: u32) {
        if b >= SB { if let Data::C(v) = &self.data { self.data = Data::M(v.iter().map(|&x| x as u32).collect()) } }
        match &mut self.data { Data::C(v) => v[i] = b as u8, Data::M(v) => v[i] = b }
    }
}
fn byte_e(b: u32) -> Eid { if b < SB { konst(b as u128, 8) } else { b - SB } }
fn e_byte(e: Eid) -> u32 { match kval(e) { Some(k) => k as u32, None => e + SB } }

const CH: usize = 64;
#[derive(Clone)]
pub struct Mem { ch: Vec<Rc<Vec<Option<Rc<Obj>>>>>, pub next: u64 }
impl Mem {
    fn new() -> Mem { Mem { ch: vec![], next: 1 } }
    #[inline]
    fn get(&self, id: u64) -> Option<&Obj> { self.ch.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_deref()) }
    #[inline]
    fn get_mut(&mut self, id: u64) -> Option<&mut Obj> { self.ch.get_mut(id as usize / CH).and_then(|c| Rc::make_mut(c)[id as usize % CH].as_mut().map(Rc::make_mut)) }
    fn put(&mut self, id: u64, o: Obj) {
        let c = id as usize / CH;
        while self.ch.len() <= c { self.ch.push(Rc::new(vec![None; CH])) }
        Rc::make_mut(&mut self.ch[c])[id as usize % CH] = Some(Rc::new(o));
    }
    fn alloc(&mut self, size: u64, sym: Option<Eid>) -> u64 {
        let id = self.next; self.next += 1;
        self.put(id, Obj { data: Data::C(vec![0; if sym.is_some() { 0 } else { size as usize }]), size, sym, ro: false });
        id << 32
    }
    fn free(&mut self, id: u64) -> bool { let c = id as usize / CH; if self.get(id).is_none() { return false } Rc::make_mut(&mut self.ch[c])[id as usize % CH] = None; true }
}

#[derive(Clone)]
pub struct Frame { f: Rc<Func>, blk: u32, ip: u32, regs: Vec<Val>, allocas: Vec<u64> }
impl Frame {
    #[inline(always)]
    fn get(&self, o: O) -> &Val { if o >= 0 { &self.regs[o as usize] } else { &self.f.consts[!o as usize] } }
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>, mem: Mem, cons: Vec<Eid>, model: Rc<Vec<u64>>, steps: u64, forks: u32,
    inputs: Rc<Vec<(Rc<str>, Vec<Eid>)>>, obs: Vec<(Rc<str>, Vec<u32>)>, covers: Vec<Rc<str>>, h: usize, fmt: bool,
}
pub enum Stop { Done, Killed, Viol(String, String), Redo }
type Rz<X> = Result<X, Stop>;

#[derive(Default)]
pub struct Stats { pub paths: u64, pub killed: u64, pub steps: u64, pub queries: u64, pub sat: u64, pub unsat: u64, pub cache: u64, pub fastmodel: u64, pub solver_s: f64, pub forks: u64, pub maxq_s: f64, pub asserts: u64, pub sym_asserts: u64, pub simp: u64, pub cert: u64, pub cert_q: u64, pub cert_fp: u64, pub cert_left: u64, pub cert_s: f64 }

pub struct Engine {
    pub m: Module, pub z3: Z3, pub st: Stats, work: Vec<State>, stubs: HashMap<u32, Stub>,
    cache: HashMap<(Vec<Eid>, Eid), Option<Vec<(u32, u64)>>>, last_model: Rc<Vec<u64>>,
    pub varw: Vec<u32>, varcache: HashMap<(Rc<str>, usize, usize), Eid>, recent: Vec<Vec<(u32, u64)>>,
    pub funcs: HashSet<u32>, pub covers: BTreeMap<(usize, String), u64>, pub hpaths: HashMap<usize, u64>,
    pub viols: BTreeSet<String>, pub out: String, pub harness: Vec<String>, pub deadline: Instant, pub incomplete: Option<String>,
    pub step_limit: u64, pub alloc_limit: u64, pub samples: Vec<String>, pub max_samples: usize, pub tier: u64, pub prof: Option<HashMap<Rc<str>, (u64, u64)>>,
    pub tok_r: i32, pub tok_w: i32, pub children: Vec<i32>, pub last_split: Instant, last_poll: Instant, pub is_child: bool, pub t0: Instant, pub verbose: bool, slowq: f64, nviol: usize, pub max_viol: usize, sample_ctr: HashMap<usize, u64>, pub start_n: HashMap<usize, u32>,
    pub hstat: BTreeMap<usize, (u64, u64, u64)>,
    simps: HashMap<(Vec<Eid>, Eid), Eid>, simp_pending: Vec<(Vec<Eid>, Eid, Eid)>, pub certify: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Stub { Alloc, AllocZ, Dealloc, Realloc, Nop, Panic, FmtWrite, RandKeys }

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn read(fd: i32, b: *mut u8, n: usize) -> isize; fn write(fd: i32, b: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; fn getpid() -> i32; }

impl Engine {
    pub fn new(m: Module, z3: Z3) -> Engine {
        let mut stubs = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            let n: &str = &f.name; let d: &str = &f.dem;
            let s = if n.ends_with("___rust_alloc") || n.ends_with("___rdl_alloc") { Stub::Alloc }
                else if n.ends_with("___rust_alloc_zeroed") || n.ends_with("___rdl_alloc_zeroed") { Stub::AllocZ }
                else if n.ends_with("___rust_dealloc") || n.ends_with("___rdl_dealloc") { Stub::Dealloc }
                else if n.ends_with("___rust_realloc") || n.ends_with("___rdl_realloc") { Stub::Realloc }
                else if n.contains("__rust_no_alloc_shim_is_unstable") { Stub::Nop }
                else if n.ends_with("rust_begin_unwind") || d.starts_with("core::panicking::") || d.starts_with("std::panicking::") || d == "std::process::abort" || d == "alloc::alloc::handle_alloc_error" || d == "alloc::raw_vec::handle_error" || d == "alloc::raw_vec::capacity_overflow" { Stub::Panic }
                else if d == "core::fmt::write" || d.starts_with("core::fmt::write ") { Stub::FmtWrite }
                else if d.contains("hashmap_random_keys") { Stub::RandKeys }
                else { continue };
            stubs.insert(i as u32, s);
        }
        let lm = Rc::new(vec![]);
        Engine { m, z3, st: Stats::default(), work: vec![], stubs, cache: HashMap::new(), last_model: lm, varw: vec![], varcache: HashMap::new(), recent: vec![], funcs: HashSet::new(), covers: BTreeMap::new(), hpaths: HashMap::new(),
            viols: BTreeSet::new(), out: String::new(), harness: vec![], deadline: Instant::now(), incomplete: None, step_limit: 20_000_000, alloc_limit: 1 << 31, samples: vec![], max_samples: 20, tier: 0, prof: None,
            tok_r: -1, tok_w: -1, children: vec![], last_split: Instant::now(), last_poll: Instant::now(), is_child: false, t0: Instant::now(), verbose: false, slowq: std::env::var("VSLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0), nviol: 0, max_viol: 8, sample_ctr: HashMap::new(), start_n: HashMap::new(), hstat: BTreeMap::new(), simps: HashMap::new(), simp_pending: vec![], certify: true }
    }
    pub fn start(&mut self, h: &str) -> Result<(), String> {
        let fid = *self.m.fmap.get(h).ok_or(format!("no harness {h}"))?;
        let hi = self.harness.len(); self.harness.push(h.to_string());
        let mut mem = Mem::new();
        for (i, g) in self.m.globals.iter().enumerate() {
            let init = g.init.clone().unwrap();
            mem.put(i as u64 + 1, Obj { size: init.len() as u64, data: Data::C(init), sym: None, ro: g.ro });
        }
        mem.next = self.m.globals.len() as u64 + 1;
        let f = self.m.func(fid);
        self.funcs.insert(fid);
        let fr = Frame { regs: vec![Val::I(0); f.nreg as usize], f, blk: 0, ip: 0, allocas: vec![] };
        self.work.push(State { frames: vec![Rc::new(fr)], mem, cons: vec![], model: Rc::new(vec![]), steps: 0, forks: 0, inputs: Rc::new(vec![]), obs: vec![], covers: vec![], h: hi, fmt: false });
        Ok(())
    }

    // ---------------- solver ----------------
    fn ev(&mut self, e: Eid, m: &Rc<Vec<u64>>) -> u128 {
        if !Rc::ptr_eq(m, &self.last_model) { self.last_model = m.clone(); p().gen += 1; }
        expr::eval(e, m)
    }
    fn slice(&self, cons: &[Eid], c: Eid) -> Vec<Eid> {
        let q = p();
        let mut vs = q.vset[c as usize];
        let mut inn = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for (i, &k) in cons.iter().enumerate() {
                if !inn[i] { let kv = q.vset[k as usize]; if q.vs_inter(vs, kv) { inn[i] = true; ch = true; vs = q.vs_union(vs, kv) } }
            }
            if !ch { break }
        }
        let mut v: Vec<Eid> = cons.iter().zip(&inn).filter(|x| *x.1).map(|x| *x.0).collect();
        v.sort_unstable(); v.dedup(); v
    }
    /// a model of cons && c, given that `model` satisfies cons; None when infeasible
    fn solve(&mut self, cons: &[Eid], model: &Rc<Vec<u64>>, c: Eid) -> Option<Rc<Vec<u64>>> {
        if let Some(k) = kval(c) { return if k != 0 { Some(model.clone()) } else { None } }
        if self.ev(c, model) != 0 { self.st.fastmodel += 1; return Some(model.clone()) }
        let nc = not(c);
        if cons.contains(&nc) { return None }
        let c0 = c;
        let c = self.simp(cons, c);
        if let Some(k) = kval(c) { if k != 0 { self.fatal(&format!("simplification contradicts the model: {}", show(c0, 8))) } return None }
        if self.late() { self.note_incomplete("deadline reached"); return None }
        let sl = self.slice(cons, c);
        let key = (sl, c);
        if let Some(r) = self.cache.get(&key) { self.st.cache += 1; let r = r.clone(); return r.map(|a| self.overlay(model, &a)) }
        // recent models
        for i in (0..self.recent.len()).rev() {
            let a = self.recent[i].clone();
            let m = self.overlay(model, &a);
            if self.ev(c, &m) != 0 { let mut ok = true; for &k in &key.0 { if self.ev(k, &m) == 0 { ok = false; break } } if ok {
                // restrict to the slice's variables is not needed: other constraints may break, so verify them
                let mut all = true; for &k in cons { if self.ev(k, &m) == 0 { all = false; break } }
                if all { self.st.fastmodel += 1; return Some(m) } } }
        }
        self.maybe_split(1);
        let q = p();
        let mut vs = q.vset[c as usize];
        for &k in &key.0 { vs = q.vs_union(vs, q.vset[k as usize]) }
        let mut vars = vec![];
        for (wi, &word) in q.vsets[vs as usize].iter().enumerate() { for b in 0..64 { if word >> b & 1 == 1 { let v = (wi * 64 + b) as u32; vars.push((v, self.varw[v as usize])) } } }
        let mut cs = key.0.clone(); cs.push(c);
        let t = Instant::now();
        let r = self.z3.check(&cs, &vars);
        let dt = t.elapsed().as_secs_f64();
        if dt > 0.25 { self.z3.reset_next() }
        self.st.solver_s += dt; self.st.queries += 1; if dt > self.st.maxq_s { self.st.maxq_s = dt }
        if self.verbose && dt > self.slowq { eprintln!("[slow query {dt:.3}s] fp={} cons={} {}", cs.iter().any(|&e| p().hasfp[e as usize]), cs.len(), show(c, 7)); for &k in &key.0 { eprintln!("      {}", show(k, 7)) } }
        match r {
            Res::Sat(a) => {
                self.st.sat += 1;
                let m = self.overlay(model, &a);
                if !cs.iter().any(|&e| p().hasfp[e as usize]) { for &k in &cs { if self.ev(k, &m) == 0 { self.fatal(&format!("solver model does not satisfy the expression it was asked about: {}", show(k, 8))) } } }
                self.recent.push(a.clone()); if self.recent.len() > 12 { self.recent.remove(0); }
                self.cache.insert(key, Some(a));
                Some(m)
            }
            Res::Unsat => { self.st.unsat += 1; self.cache.insert(key, None); None }
            Res::Unknown => { self.note_incomplete("solver gave up on a query"); None }
        }
    }
    fn overlay(&self, m: &Rc<Vec<u64>>, a: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut v = (**m).clone();
        for &(i, x) in a { if v.len() <= i as usize { v.resize(i as usize + 1, 0) } v[i as usize] = x }
        Rc::new(v)
    }
    fn fatal(&mut self, s: &str) -> ! { eprintln!("ENGINE-ERROR: {s}"); let _ = std::fs::write(format!("{}/error-{}", self.out, unsafe { getpid() }), s); unsafe { _exit(70) } }
    pub fn note_incomplete(&mut self, s: &str) { if self.verbose { eprintln!("incomplete: {s}") } if self.incomplete.is_none() { self.incomplete = Some(s.to_string()) } }

    /// c, simplified by what the path's constraints say directly
    fn simp(&mut self, cons: &[Eid], c: Eid) -> Eid {
        if kval(c).is_some() || cons.is_empty() { return c }
        cert_in();
        let r = Facts::of(cons).simp(c);
        cert_pop();
        if r != c {
            self.st.simp += 1;
            let k = (self.slice(cons, c), c);
            if !self.simps.contains_key(&k) { self.simps.insert(k.clone(), r); self.simp_pending.push((k.0, c, r)) }
        }
        r
    }
    /// constrain st with c (must be feasible); returns false if infeasible
    fn assume(&mut self, st: &mut State, c: Eid) -> bool {
        let c = self.simp(&st.cons, c);
        match self.solve(&st.cons, &st.model.clone(), c) { Some(m) => { if kval(c).is_none() { st.cons.push(c) } st.model = m; true } None => false }
    }
    /// Fork on c: st keeps the side its model satisfies; the other side (if feasible) is returned as a state clone.
    fn split(&mut self, st: &mut State, c: Eid) -> (bool, Option<State>) {
        if let Some(k) = kval(c) { return (k != 0, None) }
        let c = self.simp(&st.cons, c);
        if let Some(k) = kval(c) { return (k != 0, None) }
        let nc = not(c);
        if st.cons.contains(&c) { return (true, None) }
        if st.cons.contains(&nc) { return (false, None) }
        let v = self.ev(c, &st.model.clone()) != 0;
        let (keep, other) = if v { (c, nc) } else { (nc, c) };
        let om = self.solve(&st.cons, &st.model.clone(), other);
        let o = om.map(|m| { let mut o = st.clone(); o.cons.push(other); o.model = m; o.forks += 1; self.st.forks += 1; o });
        if o.is_some() {
            if let Some(pr) = &mut self.prof { let k = st.frames.last().unwrap().f.dem.clone(); pr.entry(k).or_default().1 += 1 }
            st.cons.push(keep);
        }
        (v, o)
    }
    /// concretise an expression by forking over its feasible values (the others re-execute the instruction)
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> Rz<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::E(e) => {
                let e = self.simp(&st.cons, *e);
                let x = self.ev(e, &st.model.clone()) as u64;
                let c = eq(e, konst(x as u128, w));
                let (t, o) = self.split(st, c);
                debug_assert!(t);
                if let Some(o) = o { self.work.push(o) }
                Ok(x)
            }
            _ => panic!("conc agg"),
        }
    }

    // ---------------- memory ----------------
    fn viol<X>(&self, k: &str, m: String) -> Rz<X> { Err(Stop::Viol(k.into(), m)) }
    fn check(&mut self, st: &mut State, a: u64, n: u64, wr: bool) -> Rz<(u64, usize)> {
        let id = a >> 32; let off = a & 0xffff_ffff;
        match st.mem.get(id) {
            Some(o) => {
                if let Some(s) = o.sym {
                    let need = konst((off + n) as u128, 64);
                    let ok = ule(need, s);
                    if off + n > o.size { return self.viol("memory", format!("out of bounds access {a:#x}+{n}")) }
                    let (t, other) = self.split(st, ok);
                    if let Some(o) = other { self.work.push(o) }
                    if !t { return self.viol("memory", format!("access beyond symbolic allocation size {a:#x}+{n}")) }
                    let ob = st.mem.get_mut(id).unwrap();
                    ob.grow((off + n) as usize);
                    return Ok((id, off as usize));
                }
                if off + n > o.size { return self.viol("memory", format!("out of bounds access {a:#x}+{n} (object size {})", o.size)) }
                if wr && o.ro { return self.viol("memory", format!("write to constant {a:#x}")) }
                Ok((id, off as usize))
            }
            None => self.viol("memory", format!("access to invalid address {a:#x}+{n} {}", if wr { "write" } else { "read" })),
        }
    }
    /// resolve a symbolic address to one object (forking when it may lie elsewhere)
    fn resolve(&mut self, st: &mut State, e: Eid, n: u64) -> Rz<(u64, Eid)> {
        let a = self.ev(e, &st.model.clone()) as u64;
        let id = a >> 32;
        let Some(o) = st.mem.get(id) else { return self.viol("memory", format!("access to invalid symbolic address (e.g. {a:#x})")) };
        let (size, osym) = (o.size, o.sym);
        if size < n { return self.viol("memory", format!("out of bounds symbolic access (e.g. {a:#x}+{n})")) }
        let off = bin(Op::Sub, e, konst((id << 32) as u128, 64));
        let ok = ule(off, konst((size - n) as u128, 64));
        let (t, other) = self.split(st, ok);
        if let Some(o) = other { self.work.push(o) }
        if !t { return self.viol("memory", format!("out of bounds symbolic access (e.g. {a:#x}+{n})")) }
        if osym.is_some() { // concretise the offset
            let x = self.conc(st, &Val::E(e), 64)?;
            self.check(st, x, n, false)?;
            return Ok((id, konst((x & 0xffff_ffff) as u128, 64)));
        }
        Ok((id, off))
    }
    fn candidates(&mut self, st: &State, off: Eid, size: u64, n: u64) -> Vec<u64> {
        let t = tz(off).min(12); let step = 1u64 << t;
        let (lo, hi) = rng(off);
        let mut lo = lo.next_multiple_of(step); let mut hi = hi.min(size - n);
        if (hi.saturating_sub(lo)) / step > 64 {
            // narrow with the solver (binary search on the upper bound and the lower bound)
            let model = st.model.clone();
            let cur = self.ev(off, &model) as u64;
            let (mut a, mut b) = (cur, hi);
            while a < b { let mid = a + (b - a) / 2; let c = ult(konst(mid as u128, 64), off); match self.solve(&st.cons, &model, c) { Some(m) => { a = (self.ev(off, &m) as u64).max(mid + 1) } None => b = mid } }
            hi = a.max(cur);
            let (mut a, mut b) = (lo, cur);
            while a < b { let mid = a + (b - a) / 2; let c = ule(off, konst(mid as u128, 64)); match self.solve(&st.cons, &model, c) { Some(m) => { b = (self.ev(off, &m) as u64).min(mid) } None => a = mid + 1 } }
            lo = b.min(cur).next_multiple_of(step);
        }
        let mut v = vec![]; let mut x = lo; while x <= hi { v.push(x); x += step } v
    }
    fn mux(off: Eid, cands: &[u64], f: &dyn Fn(u64) -> Eid) -> Eid {
        if cands.len() == 1 { return f(cands[0]) }
        let mid = cands.len() / 2;
        let (l, r) = (Self::mux(off, &cands[..mid], f), Self::mux(off, &cands[mid..], f));
        if l == r { return l }
        let c = ult(off, konst(cands[mid] as u128, 64));
        ite(c, l, r)
    }
    fn read_bytes(&mut self, st: &mut State, addr: &Val, n: u64) -> Rz<Vec<u32>> {
        match addr {
            Val::I(a) => { let (id, off) = self.check(st, *a, n, false)?; let o = st.mem.get(id).unwrap(); Ok((0..n as usize).map(|i| o.byte(off + i)).collect()) }
            Val::E(e) => {
                let (id, off) = self.resolve(st, *e, n)?;
                let size = st.mem.get(id).unwrap().size;
                if let Some(k) = kval(off) { let o = st.mem.get(id).unwrap(); return Ok((0..n as usize).map(|i| o.byte(k as usize + i)).collect()) }
                let c = self.candidates(st, off, size, n);
                if c.len() > 4096 { let x = self.conc(st, addr, 64)?; return self.read_bytes(st, &Val::I(x), n) }
                let o = st.mem.get(id).unwrap();
                Ok((0..n).map(|i| e_byte(Self::mux(off, &c, &|k| byte_e(o.byte((k + i) as usize))))).collect())
            }
            _ => panic!(),
        }
    }
    fn write_bytes(&mut self, st: &mut State, addr: &Val, bs: &[u32]) -> Rz<()> {
        let n = bs.len() as u64;
        match addr {
            Val::I(a) => { let (id, off) = self.check(st, *a, n, true)?; let o = st.mem.get_mut(id).unwrap(); for (i, b) in bs.iter().enumerate() { o.set(off + i, *b) } Ok(()) }
            Val::E(e) => {
                let (id, off) = self.resolve(st, *e, n)?;
                let (size, ro) = { let o = st.mem.get(id).unwrap(); (o.size, o.ro) };
                if ro { return self.viol("memory", "symbolic write to constant".into()) }
                if let Some(k) = kval(off) { return self.write_bytes(st, &Val::I((id << 32) + k as u64), bs) }
                let c = self.candidates(st, off, size, n);
                if c.len() > 512 { let x = self.conc(st, addr, 64)?; return self.write_bytes(st, &Val::I(x), bs) }
                let o = st.mem.get_mut(id).unwrap();
                let mut nv: BTreeMap<usize, u32> = BTreeMap::new();
                for &k in &c { let hit = eq(off, konst(k as u128, 64)); for (i, b) in bs.iter().enumerate() { let at = k as usize + i; let old = *nv.get(&at).unwrap_or(&o.byte(at)); nv.insert(at, e_byte(ite(hit, byte_e(*b), byte_e(old)))); } }
                for (at, b) in nv { o.set(at, b) }
                Ok(())
            }
            _ => panic!(),
        }
    }
    fn load(&mut self, st: &mut State, addr: &Val, ty: Ty) -> Rz<Val> {
        let k = &self.m.ty.k[ty as usize];
        let w = match k { TyK::Int(w) => *w, TyK::F32 => 32, TyK::F64 | TyK::Ptr => 64, _ => 0 };
        if w > 0 {
            let n = w.div_ceil(8) as u64;
            if let (Val::I(a), true) = (addr, w <= 64) {
                let id = a >> 32; let off = (a & 0xffff_ffff) as usize;
                if let Some(Obj { data: Data::C(v), sym: None, .. }) = st.mem.get(id) {
                    if let Some(s) = v.get(off..off + n as usize) { let mut b = [0u8; 8]; b[..n as usize].copy_from_slice(s); return Ok(Val::I(u64::from_le_bytes(b) & m64(w))) }
                }
            }
            let bs = self.read_bytes(st, addr, n)?;
            return Ok(Self::from_bytes(&bs, w));
        }
        match k.clone() {
            TyK::Arr(n, t) | TyK::Vec(n, t) => {
                if let (TyK::Int(1), TyK::Vec(..)) = (&self.m.ty.k[t as usize], &k) {
                    let bs = self.read_bytes(st, addr, n.div_ceil(8))?;
                    let x = Self::from_bytes(&bs, n as u32);
                    let e = to_e(&x, n as u32);
                    return Ok(Val::Agg(Rc::new((0..n as u32).map(|i| from_e(extract(e, i, 1))).collect())));
                }
                let s = self.m.ty.size(t); let mut v = vec![];
                for i in 0..n { let a = self.addi(addr, i * s); v.push(self.load(st, &a, t)?) }
                Ok(Val::Agg(Rc::new(v)))
            }
            TyK::Struct(fs, _) => { let offs = self.m.ty.offs(ty); let mut v = vec![]; for (i, f) in fs.iter().enumerate() { let a = self.addi(addr, offs[i]); v.push(self.load(st, &a, *f)?) } Ok(Val::Agg(Rc::new(v))) }
            k => panic!("load {k:?}"),
        }
    }
    fn from_bytes(bs: &[u32], w: u32) -> Val {
        if w <= 64 && bs.iter().all(|b| *b < SB) { let mut x = 0u64; for (i, b) in bs.iter().enumerate() { x |= (*b as u64) << (8 * i) } return Val::I(x & m64(w)) }
        let mut e = byte_e(bs[0]);
        // build from the most significant end so that adjacent extracts merge
        for b in &bs[1..] { e = concat(byte_e(*b), e) }
        if bs.len() as u32 * 8 > w { e = extract(e, 0, w) }
        from_e(e)
    }
    fn addi(&self, a: &Val, k: u64) -> Val { match a { Val::I(x) => Val::I(x.wrapping_add(k)), Val::E(e) => from_e(bin(Op::Add, *e, konst(k as u128, 64))), _ => panic!() } }
    fn to_bytes(&self, v: &Val, w: u32) -> Vec<u32> {
        let n = w.div_ceil(8);
        match v {
            Val::I(x) => (0..n).map(|i| ((x >> (8 * i)) & 255) as u32).collect(),
            Val::E(e) => { let e = if n * 8 > w { zext(*e, n * 8) } else { *e }; (0..n).map(|i| e_byte(extract(e, 8 * i, 8))).collect() }
            _ => panic!(),
        }
    }
    fn store(&mut self, st: &mut State, addr: &Val, v: &Val, ty: Ty) -> Rz<()> {
        let k = &self.m.ty.k[ty as usize];
        let w = match k { TyK::Int(w) => *w, TyK::F32 => 32, TyK::F64 | TyK::Ptr => 64, _ => 0 };
        if w > 0 {
            let n = w.div_ceil(8) as usize;
            if let (Val::I(a), Val::I(x), true) = (addr, v, w <= 64) {
                let id = a >> 32; let off = (a & 0xffff_ffff) as usize;
                if let Some(Obj { data: Data::C(d), sym: None, ro: false, .. }) = st.mem.get_mut(id) { if let Some(s) = d.get_mut(off..off + n) { s.copy_from_slice(&x.to_le_bytes()[..n]); return Ok(()) } }
            }
            let bs = self.to_bytes(v, w);
            return self.write_bytes(st, addr, &bs);
        }
        let Val::Agg(vs) = v else { panic!("store agg") };
        match k.clone() {
            TyK::Vec(n, t) if matches!(self.m.ty.k[t as usize], TyK::Int(1)) => {
                // packed, element 0 in the lowest bit
                let mut e = to_e(&vs[0], 1);
                for x in &vs[1..] { e = concat(to_e(x, 1), e) }
                let n = n as u32; let e = if n % 8 != 0 { zext(e, n.div_ceil(8) * 8) } else { e };
                let bs = self.to_bytes(&from_e(e), n.div_ceil(8) * 8);
                return self.write_bytes(st, addr, &bs);
            }
            TyK::Arr(_, t) | TyK::Vec(_, t) => { let s = self.m.ty.size(t); for (i, x) in vs.iter().enumerate() { let a = self.addi(addr, i as u64 * s); self.store(st, &a, x, t)? } }
            TyK::Struct(fs, _) => { let offs = self.m.ty.offs(ty); for (i, f) in fs.iter().enumerate() { let a = self.addi(addr, offs[i]); self.store(st, &a, &vs[i], *f)? } }
            k => panic!("store {k:?}"),
        }
        Ok(())
    }
    fn do_alloc(&mut self, st: &mut State, size: &Val) -> Rz<u64> {
        match size {
            Val::I(s) => { if *s > self.alloc_limit { return self.viol("alloc", format!("allocation of {s} bytes requested")) } Ok(st.mem.alloc(*s, None)) }
            Val::E(e) => {
                let ok = ule(*e, konst(self.alloc_limit as u128, 64));
                let (t, o) = self.split(st, ok);
                if let Some(o) = o { self.work.push(o) }
                if !t { return self.viol("alloc", format!("allocation beyond {} bytes requested", self.alloc_limit)) }
                // single feasible value?
                let x = self.ev(*e, &st.model.clone());
                let ne = not(eq(*e, konst(x, 64)));
                if self.solve(&st.cons, &st.model.clone(), ne).is_none() { return Ok(st.mem.alloc(x as u64, None)) }
                Ok(st.mem.alloc(umax(*e).min(self.alloc_limit), Some(*e)))
            }
            _ => panic!(),
        }
    }
    fn do_free(&mut self, st: &mut State, p: u64) -> Rz<()> { if p == 0 { return Ok(()) } if p & 0xffff_ffff != 0 || !st.mem.free(p >> 32) { return self.viol("memory", format!("invalid free of {p:#x}")) } Ok(()) }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Rz<()> {
        if n == 0 { return Ok(()) }
        let (sid, so) = self.check(st, s, n, false)?;
        let (did, dof) = self.check(st, d, n, true)?;
        let n = n as usize;
        let src = st.mem.get(sid).unwrap();
        if let Data::C(v) = &src.data {
            let b = v[so..so + n].to_vec();
            let o = st.mem.get_mut(did).unwrap();
            match &mut o.data { Data::C(t) => t[dof..dof + n].copy_from_slice(&b), Data::M(t) => for i in 0..n { t[dof + i] = b[i] as u32 } }
        } else {
            let b: Vec<u32> = (0..n).map(|i| src.byte(so + i)).collect();
            let o = st.mem.get_mut(did).unwrap();
            for i in 0..n { o.set(dof + i, b[i]) }
        }
        Ok(())
    }

    // ---------------- main loop ----------------
    pub fn run(&mut self) {
        while let Some(mut s) = self.work.pop() {
            let steps0 = self.st.steps;
            let r = self.run_state(&mut s);
            let _ = steps0;
            let h = s.h;
            { let e = self.hstat.entry(h).or_default(); e.0 += 1; e.1 = e.1.max(s.steps); e.2 = e.2.max(s.cons.len() as u64); }
            match r {
                Stop::Done => {
                    self.st.paths += 1; *self.hpaths.entry(h).or_default() += 1;
                    for c in &s.covers { *self.covers.entry((h, c.to_string())).or_default() += 1 }
                    let n = self.sample_ctr.entry(h).or_default(); *n += 1;
                    if n.is_power_of_two() || (*n % 97 == 0) { if self.samples.len() < self.max_samples { let t = self.sample(&s); self.samples.push(t) } }
                }
                Stop::Killed => self.st.killed += 1,
                Stop::Viol(k, m) => { self.st.paths += 1; *self.hpaths.entry(h).or_default() += 1; self.report(&s, &k, &m) }
                Stop::Redo => unreachable!(),
            }
            if self.nviol >= self.max_viol { self.note_incomplete("stopped after enough violations"); self.work.clear(); break }
            if self.late() { if !self.work.is_empty() { let n = self.work.len(); self.note_incomplete(&format!("deadline with {n} states pending")); } self.work.clear(); break }
            self.maybe_split(2);
        }
    }
    /// hand the older half of the pending states to a new worker process, if one is free
    fn maybe_split(&mut self, min: usize) {
        if self.tok_r < 0 || self.work.len() < min || self.last_split.elapsed().as_millis() < 25 { return }
        self.last_split = Instant::now();
        let mut b = [0u8];
        if unsafe { read(self.tok_r, b.as_mut_ptr(), 1) } != 1 { return }
        let half = self.work.len() / 2;
        let pid = unsafe { fork() };
        if pid == 0 {
            self.work.truncate(half.max(1));
            self.is_child = true; self.children.clear();
            self.st = Stats::default(); self.samples.clear(); self.max_samples = 4; self.covers.clear(); self.hpaths.clear(); self.sample_ctr.clear(); self.hstat.clear(); cert().pending.clear(); self.simp_pending.clear();
            if let Some(p) = &mut self.prof { p.clear() }
            self.run();
            self.finish();
        } else if pid > 0 { self.work.drain(..half.max(1)); self.children.push(pid) }
        else { unsafe { write(self.tok_w, b.as_ptr(), 1); } }
    }
    /// Put the rewrites made during the run to the solver: each must be an equality for all values.
    fn certify(&mut self) {
        let t = Instant::now();
        let mut jobs: Vec<(Vec<Eid>, Eid, Eid)> = vec![];
        let mut todo: Vec<(Eid, Eid)> = vec![];
        for (n, r) in std::mem::take(&mut cert().pending) { let e = plain(n); if p().hasfp[e as usize] || p().hasfp[r as usize] { self.st.cert_fp += 1 } else { todo.push((e, r)) } }
        for (cs, c, r) in std::mem::take(&mut self.simp_pending) { jobs.push((cs, c, r)) }
        if self.verbose { eprintln!("certify: {} rewrites, {} path simplifications", todo.len(), jobs.len()) }
        // terms that both sides share are any value first; what that cannot show is asked in full
        let gen: Vec<Option<(Eid, Eid)>> = todo.iter().map(|x| generalise(x.0, x.1)).collect();
        for i in (0..todo.len()).step_by(64) {
            let k = (i + 64).min(todo.len());
            if self.late() { self.st.cert_left += (k - i) as u64; continue }
            let ch: Vec<(Eid, Eid)> = (i..k).map(|j| gen[j].unwrap_or(todo[j])).collect();
            self.st.cert_q += 1;
            if self.z3.valid(&[], &ch) == Res::Unsat { self.st.cert += ch.len() as u64; continue }
            for j in i..k {
                if self.late() { self.st.cert_left += 1; continue }
                let mut r = Res::Unknown;
                if let Some(g) = gen[j] { self.st.cert_q += 1; r = self.z3.valid(&[], &[g]) }
                if r != Res::Unsat { self.st.cert_q += 1; r = self.z3.valid(&[], &[todo[j]]) }
                match r { Res::Unsat => self.st.cert += 1, Res::Unknown => self.st.cert_left += 1, Res::Sat(_) => { let x = todo[j]; self.fatal(&format!("rewrite refuted: {} is not {}", show(x.0, 6), show(x.1, 6))) } }
            }
        }
        let t1 = t.elapsed();
        for (cs, c, r) in jobs {
            if self.late() { self.st.cert_left += 1; continue }
            if cs.iter().chain([&c]).any(|&e| p().hasfp[e as usize]) { self.st.cert_fp += 1; continue }
            self.st.cert_q += 1;
            match self.z3.valid(&cs, &[(c, r)]) { Res::Unsat => self.st.cert += 1, Res::Unknown => self.st.cert_left += 1, Res::Sat(_) => self.fatal(&format!("path simplification refuted: {} is not {}", show(c, 6), show(r, 6))) }
        }
        if self.verbose { eprintln!("certify: {:?} {:?}", t1, t.elapsed() - t1) }
        self.st.cert_s += t.elapsed().as_secs_f64();
    }
    pub fn finish(&mut self) -> ! {
        if self.certify && self.nviol == 0 { self.certify() }
        self.write_part();
        unsafe {
            if self.is_child { let b = [1u8]; write(self.tok_w, b.as_ptr(), 1); }
            let mut bad = false;
            for c in std::mem::take(&mut self.children) { let mut s = 0; waitpid(c, &mut s, 0); if s != 0 { bad = true } }
            if bad { let _ = std::fs::write(format!("{}/error-child-{}", self.out, getpid()), "a worker ended abnormally"); _exit(71) }
            _exit(0)
        }
    }
    fn write_part(&mut self) {
        let s = &self.st;
        let mut j = String::from("{");
        j += &format!("\"paths\":{},\"killed\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache\":{},\"fastmodel\":{},\"solver_s\":{:.3},\"maxq_s\":{:.3},\"forks\":{},\"asserts\":{},\"sym_asserts\":{},\"nodes\":{},\"wall\":{:.2},", s.paths, s.killed, s.steps, s.queries, s.sat, s.unsat, s.cache, s.fastmodel, s.solver_s, s.maxq_s, s.forks, s.asserts, s.sym_asserts, p().nodes.len(), self.t0.elapsed().as_secs_f64());
        j += &format!("\"cert\":{},\"cert_q\":{},\"cert_fp\":{},\"cert_left\":{},\"cert_s\":{:.3},", s.cert, s.cert_q, s.cert_fp, s.cert_left, s.cert_s);
        j += &format!("\"incomplete\":{},\"z3\":{},", match &self.incomplete { Some(x) => jstr(x), None => "null".into() }, jstr(&format!("{} ({})", self.z3.version, self.z3.lib)));
        let mut fs: Vec<String> = self.funcs.iter().map(|f| jstr(&self.m.funcs[*f as usize].dem)).collect(); fs.sort();
        j += &format!("\"functions\":[{}],", fs.join(","));
        j += &format!("\"covers\":[{}],", self.covers.iter().map(|((h, c), n)| format!("[{},{},{n}]", jstr(&self.harness[*h]), jstr(c))).collect::<Vec<_>>().join(","));
        j += &format!("\"hpaths\":{{{}}},", self.hpaths.iter().map(|(h, n)| format!("{}:{n}", jstr(&self.harness[*h]))).collect::<Vec<_>>().join(","));
        j += &format!("\"hstat\":{{{}}},", self.hstat.iter().map(|(h, n)| format!("{}:[{},{},{}]", jstr(&self.harness[*h]), n.0, n.1, n.2)).collect::<Vec<_>>().join(","));
        j += &format!("\"samples\":[{}]", self.samples.join(","));
        if let Some(pr) = &self.prof { let mut v: Vec<_> = pr.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1 .1)); j += &format!(",\"prof\":[{}]", v.iter().take(40).map(|(n, c)| format!("[{},{},{}]", jstr(n), c.0, c.1)).collect::<Vec<_>>().join(",")) }
        j.push('}');
        std::fs::write(format!("{}/part-{}.json", self.out, unsafe { getpid() }), j).unwrap();
    }
    fn inputs_json(&mut self, s: &State) -> String {
        let mut out = vec![];
        for (n, es) in s.inputs.iter() { let hex: String = es.iter().map(|&e| format!("{:02x}", self.ev(e, &s.model.clone()))).collect(); out.push(format!("[{},\"{}\"]", jstr(n), hex)) }
        format!("[{}]", out.join(","))
    }
    fn sample(&mut self, s: &State) -> String {
        let mut obs = vec![];
        for (n, bs) in &s.obs { let hex: String = bs.iter().map(|&b| format!("{:02x}", self.ev(byte_e(b), &s.model.clone()))).collect(); obs.push(format!("[{},\"{}\"]", jstr(n), hex)) }
        format!("{{\"harness\":{},\"inputs\":{},\"obs\":[{}],\"covers\":[{}],\"steps\":{}}}", jstr(&self.harness[s.h]), self.inputs_json(s), obs.join(","), s.covers.iter().map(|c| jstr(c)).collect::<Vec<_>>().join(","), s.steps)
    }
    /// past the time limit, or told by the driver (which has reproduced a counterexample) to stop
    fn late(&mut self) -> bool {
        let n = Instant::now();
        if n > self.deadline { return true }
        if n.duration_since(self.last_poll).as_millis() > 500 {
            self.last_poll = n;
            if std::path::Path::new(&format!("{}/stop", self.out)).exists() { self.deadline = n; return true }
        }
        false
    }
    fn report(&mut self, s: &State, kind: &str, msg: &str) {
        let key = format!("{}|{}|{}", self.harness[s.h], kind, if kind == "assert" { msg.to_string() } else { msg.chars().take(160).collect() });
        if !self.viols.insert(key.clone()) { return }
        self.nviol += 1;
        let stack: Vec<String> = s.frames.iter().rev().take(12).map(|f| jstr(&f.f.dem)).collect();
        let j = format!("{{\"harness\":{},\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}],\"tier\":{}}}", jstr(&self.harness[s.h]), jstr(kind), jstr(msg), self.inputs_json(s), stack.join(","), self.tier);
        if self.verbose { eprintln!("VIOL {kind} {msg}\n  {}", stack.join("\n  ")) }
        let f = format!("{}/viol-{}-{}.json", self.out, unsafe { getpid() }, self.nviol);
        std::fs::write(format!("{f}.tmp"), j).unwrap();
        std::fs::rename(format!("{f}.tmp"), f).unwrap();
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        let mut chk = 0u32;
        loop {
            chk += 1;
            if chk & 0xfff == 0 {
                if self.late() { self.note_incomplete("deadline inside a path"); return Stop::Killed }
            }
            if st.steps > self.step_limit { return Stop::Viol("steps".into(), format!("path exceeds {} executed instructions (non-termination?)", self.step_limit)) }
            match self.step_block(st) { Ok(()) => {} Err(Stop::Redo) => {} Err(e) => return e }
        }
    }
    fn jump(&mut self, fr: &mut Frame, to: u32) {
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let from = fr.blk;
            let inc = &b.inc.iter().find(|x| x.0 == from).expect("phi pred").1;
            if inc.len() == 1 { let v = fr.get(inc[0]).clone(); fr.regs[b.phis[0].0 as usize] = v; }
            else { let vs: Vec<Val> = inc.iter().map(|&o| fr.get(o).clone()).collect(); for (v, (r, _)) in vs.into_iter().zip(&b.phis) { fr.regs[*r as usize] = v } }
        }
        fr.blk = to; fr.ip = 0;
    }
    /// executes instructions of the top frame until control leaves straight-line code
    fn step_block(&mut self, st: &mut State) -> Rz<()> {
        let f = st.frames.last().unwrap().f.clone();
        loop {
            let (blk, ip) = { let fr = st.frames.last().unwrap(); (fr.blk, fr.ip) };
            let ins = &f.blocks[blk as usize].ins[ip as usize];
            st.steps += 1; self.st.steps += 1;
            macro_rules! fr { () => { Rc::make_mut(st.frames.last_mut().unwrap()) } }
            macro_rules! g { ($o:expr) => { st.frames.last().unwrap().get($o) } }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = fr!(); fr.regs[$d as usize] = v; fr.ip += 1; }} }
            match ins {
                Ins::Bin { op, w, a, b, d, n } => {
                    let r = if *n > 0 { self.vec2(g!(*a), g!(*b), *n, &|x, y| Self::binop(*op, x, y, *w)) } else {
                        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { if let Val::I(0) = g!(*b) { return self.viol("ub", "division by zero".into()) } }
                        Self::binop(*op, g!(*a), g!(*b), *w) };
                    set!(*d, r)
                }
                Ins::Icmp { p, w, a, b, d, n } => { let r = if *n > 0 { self.vec2(g!(*a), g!(*b), *n, &|x, y| Self::icmp(*p, x, y, *w)) } else { Self::icmp(*p, g!(*a), g!(*b), *w) }; set!(*d, r) }
                Ins::FBin { op, a, b, d, w, n } => { let fb = |x: &Val, y: &Val| from_e(fbin(*op, to_e(x, *w), to_e(y, *w))); let r = if *n > 0 { self.vec2(g!(*a), g!(*b), *n, &fb) } else { fb(g!(*a), g!(*b)) }; set!(*d, r) }
                Ins::FNeg { a, d, w } => { let x = to_e(g!(*a), *w); let r = from_e(bin(Op::Xor, x, konst(1u128 << (w - 1), *w))); set!(*d, r) }
                Ins::Fcmp { p, w, a, b, d } => { let (x, y) = (to_e(g!(*a), *w), to_e(g!(*b), *w)); let r = from_e(Self::fcmp(p, x, y)); set!(*d, r) }
                Ins::Cast { c, fw, tw, a, d, fty, tty } => { let v = g!(*a).clone(); let r = self.cast(*c, *fw, *tw, &v, *fty, *tty); set!(*d, r) }
                Ins::Select { c, a, b, d, ty, vc } => {
                    let cv = g!(*c).clone();
                    let r = match (&cv, vc) {
                        (Val::I(x), _) => g!(if *x != 0 { *a } else { *b }).clone(),
                        (Val::E(e), _) => { let (x, y) = (g!(*a).clone(), g!(*b).clone()); self.sel(*e, &x, &y, *ty) }
                        (Val::Agg(cs), _) => { let (Val::Agg(x), Val::Agg(y)) = (g!(*a), g!(*b)) else { panic!() }; let (_, et) = self.m.ty.elem(*ty).unwrap(); let mut v = vec![]; for i in 0..cs.len() { v.push(match &cs[i] { Val::I(k) => if *k != 0 { x[i].clone() } else { y[i].clone() }, Val::E(e) => self.sel(*e, &x[i], &y[i], et), _ => panic!() }) } Val::Agg(Rc::new(v)) }
                    };
                    set!(*d, r)
                }
                Ins::Copy { a, d } => { let v = g!(*a).clone(); set!(*d, v) }
                Ins::Nop => { fr!().ip += 1 }
                Ins::Alloca { size, n, d } => {
                    let k = match n { Some(o) => { let v = g!(*o).clone(); self.conc(st, &v, 64)? } None => 1 };
                    let a = st.mem.alloc(size * k, None); let fr = fr!(); fr.allocas.push(a >> 32); fr.regs[*d as usize] = Val::I(a); fr.ip += 1;
                }
                Ins::Load { ty, p, d } => { let a = g!(*p).clone(); let v = self.load(st, &a, *ty)?; set!(*d, v) }
                Ins::Store { ty, v, p } => { let a = g!(*p).clone(); let v = g!(*v).clone(); self.store(st, &a, &v, *ty)?; fr!().ip += 1 }
                Ins::Gep { base, off, idx, d } => {
                    let fr = st.frames.last().unwrap();
                    let mut acc = fr.get(*base).clone(); let mut k = *off;
                    let mut sym: Option<Eid> = None;
                    for (o, w, sc) in idx { match fr.get(*o) { Val::I(x) => k = k.wrapping_add((sx(*x as u128, *w) as u64).wrapping_mul(*sc)), Val::E(e) => { let x = if *w < 64 { sext(*e, 64) } else { *e }; let x = bin(Op::Mul, x, konst(*sc as u128, 64)); sym = Some(match sym { None => x, Some(s) => bin(Op::Add, s, x) }) } _ => panic!("vector gep") } }
                    acc = match (acc, sym) { (Val::I(b), None) => Val::I(b.wrapping_add(k)), (Val::I(b), Some(s)) => from_e(bin(Op::Add, s, konst(b.wrapping_add(k) as u128, 64))), (Val::E(b), None) => from_e(bin(Op::Add, b, konst(k as u128, 64))), (Val::E(b), Some(s)) => { let t = bin(Op::Add, b, s); from_e(bin(Op::Add, t, konst(k as u128, 64))) } _ => panic!() };
                    set!(*d, acc)
                }
                Ins::ExtractV { a, idx, d } => { let mut v = g!(*a).clone(); for i in idx { v = match &v { Val::Agg(x) => x[*i as usize].clone(), _ => panic!("extractvalue") } } set!(*d, v) }
                Ins::InsertV { a, b, idx, d } => { let mut v = g!(*a).clone(); let nv = g!(*b).clone(); Self::insert(&mut v, idx, nv); set!(*d, v) }
                Ins::ExtractE { a, i, d } => { let iv = g!(*i).clone(); let k = self.conc(st, &iv, 64)?; let v = match g!(*a) { Val::Agg(x) => x[k as usize].clone(), _ => panic!() }; set!(*d, v) }
                Ins::InsertE { a, b, i, d } => { let iv = g!(*i).clone(); let k = self.conc(st, &iv, 64)?; let mut v = g!(*a).clone(); let nv = g!(*b).clone(); Self::insert(&mut v, &[k as u32], nv); set!(*d, v) }
                Ins::Shuffle { a, b, mask, d, na } => { let (Val::Agg(x), Val::Agg(y)) = (g!(*a), g!(*b)) else { panic!() }; let v = mask.iter().map(|m| match m { None => x[0].clone(), Some(i) if i < na => x[*i as usize].clone(), Some(i) => y[(*i - na) as usize].clone() }).collect(); set!(*d, Val::Agg(Rc::new(v))) }
                Ins::Rmw { op, p, v, ty, d } => {
                    let a = g!(*p).clone(); let v = g!(*v).clone(); let w = self.m.ty.bits(*ty);
                    let old = self.load(st, &a, *ty)?;
                    let nv = match &**op { "add" => Self::binop(Op::Add, &old, &v, w), "sub" => Self::binop(Op::Sub, &old, &v, w), "and" => Self::binop(Op::And, &old, &v, w), "or" => Self::binop(Op::Or, &old, &v, w), "xor" => Self::binop(Op::Xor, &old, &v, w), "xchg" => v, "umax" => { let c = Self::icmp(Pred::Ugt, &old, &v, w); self.sel(to_e(&c, 1), &old, &v, *ty) } "umin" => { let c = Self::icmp(Pred::Ult, &old, &v, w); self.sel(to_e(&c, 1), &old, &v, *ty) } "nand" => { let x = Self::binop(Op::And, &old, &v, w); Self::binop(Op::Xor, &x, &Val::I(m64(w)), w) } o => panic!("rmw {o}") };
                    self.store(st, &a, &nv, *ty)?; set!(*d, old)
                }
                Ins::CmpXchg { p, c, n, ty, d } => {
                    let a = g!(*p).clone(); let (cv, nv) = (g!(*c).clone(), g!(*n).clone()); let w = self.m.ty.bits(*ty);
                    let old = self.load(st, &a, *ty)?; let ok = Self::icmp(Pred::Eq, &old, &cv, w);
                    let wv = match &ok { Val::I(0) => old.clone(), Val::I(_) => nv, Val::E(e) => self.sel(*e, &nv, &old, *ty), _ => panic!() };
                    self.store(st, &a, &wv, *ty)?; set!(*d, Val::Agg(Rc::new(vec![old, ok])))
                }
                Ins::Br(t) => { let mut fr = st.frames.pop().unwrap(); self.jump(Rc::make_mut(&mut fr), *t); st.frames.push(fr); return Ok(()) }
                Ins::CondBr(c, t, e) => {
                    let cv = g!(*c).clone();
                    let take = match cv {
                        Val::I(x) => x != 0,
                        Val::E(c) => { let (v, o) = self.split(st, c); if let Some(mut o) = o { self.jump(Rc::make_mut(o.frames.last_mut().unwrap()), if v { *e } else { *t }); self.work.push(o) } v }
                        _ => panic!(),
                    };
                    let mut fr = st.frames.pop().unwrap(); self.jump(Rc::make_mut(&mut fr), if take { *t } else { *e }); st.frames.push(fr);
                    return Ok(());
                }
                Ins::Switch { w, v, cases, def } => {
                    let sv = g!(*v).clone();
                    let to = match sv {
                        Val::I(x) => cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def),
                        Val::E(e) => {
                            // group case values by target
                            let mut tg: Vec<(u32, Eid)> = vec![]; let mut any = fls();
                            for (k, l) in cases { let c = eq(e, konst(*k as u128, *w)); any = bin(Op::Or, any, c); if *l == *def { continue } match tg.iter_mut().find(|t| t.0 == *l) { Some(t) => t.1 = bin(Op::Or, t.1, c), None => tg.push((*l, c)) } }
                            // default = none of the cases that go elsewhere
                            let mut nd = fls(); for t in &tg { nd = bin(Op::Or, nd, t.1) }
                            tg.push((*def, not(nd))); let _ = any;
                            let model = st.model.clone();
                            let mut chosen = None; let mut others = vec![];
                            for (l, c) in tg { if kval(c) == Some(0) { continue } if chosen.is_none() && self.ev(c, &model) != 0 { chosen = Some((l, c)) } else { others.push((l, c)) } }
                            let (l, c) = chosen.unwrap();
                            let mut forked = false;
                            let others: Vec<(u32, Eid)> = others.into_iter().map(|(l, c)| (l, self.simp(&st.cons, c))).collect();
                            for (ol, oc) in others { if let Some(m) = self.solve(&st.cons, &model, oc) { let mut o = st.clone(); o.cons.push(oc); o.model = m; o.forks += 1; self.st.forks += 1; forked = true; self.jump(Rc::make_mut(o.frames.last_mut().unwrap()), ol); self.work.push(o) } }
                            if forked { st.cons.push(c); if let Some(pr) = &mut self.prof { let k = st.frames.last().unwrap().f.dem.clone(); pr.entry(k).or_default().1 += 1 } }
                            l
                        }
                        _ => panic!(),
                    };
                    let mut fr = st.frames.pop().unwrap(); self.jump(Rc::make_mut(&mut fr), to); st.frames.push(fr);
                    return Ok(());
                }
                Ins::Ret(o) => {
                    let v = o.map(|o| g!(o).clone());
                    let fr = st.frames.pop().unwrap();
                    for a in &fr.allocas { st.mem.free(*a); }
                    if st.frames.is_empty() { return Err(Stop::Done) }
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    let f = fr.f.clone();
                    if let Ins::Call { d, .. } = &f.blocks[fr.blk as usize].ins[fr.ip as usize] { if let (Some(d), Some(v)) = (d, v) { fr.regs[*d as usize] = v } } else { panic!("ret to non-call") }
                    fr.ip += 1;
                    return Ok(());
                }
                Ins::Unreachable => return self.viol("ub", "unreachable instruction reached".into()),
                Ins::Call { f: callee, args, d, ret } => {
                    let mut tgt: Option<u32> = None; let mut ext: Option<Rc<str>> = None;
                    match callee {
                        Callee::Fn(i) => tgt = Some(*i),
                        Callee::Ext(n) => ext = Some(n.clone()),
                        Callee::Asm(s) => { // cpuid and compiler barriers
                            let r = self.m.zero(*ret);
                            if !(s.trim().is_empty() || s.contains("cpuid") || s.contains("pause") || s.contains("xgetbv")) { return self.viol("unsupported", format!("inline asm {s}")) }
                            let fr = fr!(); if let Some(d) = d { fr.regs[*d as usize] = r } fr.ip += 1; continue }
                        Callee::Ind(o) => {
                            let v = g!(*o).clone(); let a = self.conc(st, &v, 64)?; let id = (a >> 32).wrapping_sub(FBASE);
                            if a & 0xffff_ffff != 0 || id as usize >= self.m.funcs.len() { return self.viol("memory", format!("call through invalid function pointer {a:#x}")) }
                            if self.m.funcs[id as usize].body.is_some() { tgt = Some(id as u32) } else { ext = Some(self.m.funcs[id as usize].name.clone()) }
                        }
                    }
                    if let Some(t) = tgt {
                        if let Some(&s) = self.stubs.get(&t).filter(|s| !(st.fmt && matches!(s, Stub::FmtWrite))) {
                            let av: Vec<Val> = args.iter().map(|a| g!(a.0).clone()).collect();
                            let r = self.stub(st, s, &av, t)?;
                            let fr = fr!(); if let (Some(d), Some(r)) = (d, r) { fr.regs[*d as usize] = r } fr.ip += 1; continue;
                        }
                        let nf = self.m.func(t);
                        self.funcs.insert(t);
                        if let Some(pr) = &mut self.prof { pr.entry(nf.dem.clone()).or_default().0 += 1 }
                        let mut regs = vec![Val::I(0); nf.nreg as usize];
                        let fr = st.frames.last().unwrap();
                        for (i, r) in nf.params.iter().enumerate() { regs[*r as usize] = fr.get(args[i].0).clone() }
                        if st.frames.len() > 2000 { return self.viol("steps", "call depth above 2000 (unbounded recursion?)".into()) }
                        st.frames.push(Rc::new(Frame { f: nf, blk: 0, ip: 0, regs, allocas: vec![] }));
                        return Ok(());
                    }
                    let av: Vec<Val> = args.iter().map(|a| g!(a.0).clone()).collect();
                    let name = ext.unwrap();
                    let tys: Vec<Ty> = args.iter().map(|a| a.1).collect();
                    let r = self.ext(st, &name, &av, &tys, *ret)?;
                    let fr = fr!(); if let (Some(d), Some(r)) = (d, r) { fr.regs[*d as usize] = r } fr.ip += 1;
                }
            }
        }
    }
    fn insert(v: &mut Val, idx: &[u32], nv: Val) { let Val::Agg(a) = v else { panic!("insert") }; let a = Rc::make_mut(a); if idx.len() == 1 { a[idx[0] as usize] = nv } else { Self::insert(&mut a[idx[0] as usize], &idx[1..], nv) } }
    fn vec2(&self, a: &Val, b: &Val, n: u32, f: &dyn Fn(&Val, &Val) -> Val) -> Val { let (Val::Agg(x), Val::Agg(y)) = (a, b) else { panic!("vec2") }; Val::Agg(Rc::new((0..n as usize).map(|i| f(&x[i], &y[i])).collect())) }
    #[inline]
    fn binop(op: Op, a: &Val, b: &Val, w: u32) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op { Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y), Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                Op::UDiv => x / y, Op::URem => x % y,
                Op::Shl => if y >= w as u64 { 0 } else { x << y }, Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                _ => fold(op, w, w, 0, x as u128, y as u128, 0) as u64 };
            return Val::I(r & m64(w));
        }
        from_e(bin(op, to_e(a, w), to_e(b, w)))
    }
    #[inline]
    fn icmp(p: Pred, a: &Val, b: &Val, w: u32) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y); let s = |v: u64| sx(v as u128, w) as i64;
            return Val::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y) } as u64);
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        from_e(match p { Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)), Pred::Ugt => ult(y, x), Pred::Uge => not(ult(x, y)), Pred::Ult => ult(x, y), Pred::Ule => not(ult(y, x)), Pred::Sgt => slt(y, x), Pred::Sge => not(slt(x, y)), Pred::Slt => slt(x, y), Pred::Sle => not(slt(y, x)) })
    }
    fn fcmp(pr: &str, x: Eid, y: Eid) -> Eid {
        let un = || fbin(Op::FUno, x, y);
        match pr {
            "oeq" => fbin(Op::FOEq, x, y), "olt" => fbin(Op::FOLt, x, y), "ole" => fbin(Op::FOLe, x, y), "ogt" => fbin(Op::FOLt, y, x), "oge" => fbin(Op::FOLe, y, x),
            "one" => { let e = fbin(Op::FOEq, x, y); let u = un(); not(bin(Op::Or, e, u)) } "ord" => not(un()), "uno" => un(),
            "ueq" => bin(Op::Or, fbin(Op::FOEq, x, y), un()), "une" => not(fbin(Op::FOEq, x, y)), "ult" => not(fbin(Op::FOLe, y, x)), "ule" => not(fbin(Op::FOLt, y, x)), "ugt" => not(fbin(Op::FOLe, x, y)), "uge" => not(fbin(Op::FOLt, x, y)),
            "true" => tru(), _ => fls(),
        }
    }
    fn sel(&self, c: Eid, a: &Val, b: &Val, ty: Ty) -> Val {
        match &self.m.ty.k[ty as usize] {
            TyK::Arr(_, t) | TyK::Vec(_, t) => { let (Val::Agg(x), Val::Agg(y)) = (a, b) else { panic!() }; Val::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.sel(c, p, q, *t)).collect())) }
            TyK::Struct(fs, _) => { let (Val::Agg(x), Val::Agg(y)) = (a, b) else { panic!() }; Val::Agg(Rc::new((0..fs.len()).map(|i| self.sel(c, &x[i], &y[i], fs[i])).collect())) }
            _ => { let w = self.m.ty.bits(ty); from_e(ite(c, to_e(a, w), to_e(b, w))) }
        }
    }
    fn cast(&self, c: Cast, fw: u32, tw: u32, v: &Val, fty: Ty, tty: Ty) -> Val {
        if let (Val::Agg(a), Some((_, fe)), Some((_, te))) = (v, self.m.ty.elem(fty), self.m.ty.elem(tty)) {
            if c != Cast::BitCast { let (x, y) = (self.m.ty.bits(fe), self.m.ty.bits(te)); return Val::Agg(Rc::new(a.iter().map(|z| self.cast(c, x, y, z, fe, te)).collect())) }
        }
        match c {
            Cast::Trunc => match v { Val::I(x) => Val::I(x & m64(tw)), Val::E(e) => from_e(extract(*e, 0, tw)), _ => panic!() },
            Cast::ZExt => match v { Val::I(x) if tw <= 64 => Val::I(*x), _ => { let e = to_e(v, fw); from_e(zext(e, tw)) } },
            Cast::SExt => match v { Val::I(x) if tw <= 64 => Val::I(sx(*x as u128, fw) as u64 & m64(tw)), _ => { let e = to_e(v, fw); from_e(sext(e, tw)) } },
            Cast::BitCast => {
                let bits = |t: Ty| match self.m.ty.elem(t) { Some((n, e)) => n as u32 * self.m.ty.bits(e), None => self.m.ty.bits(t) };
                let w = bits(fty);
                match (self.m.ty.elem(fty), self.m.ty.elem(tty)) {
                    (None, None) => v.clone(),
                    (f, t) => {
                        let e = match f { Some(_) => to_e(v, w), None => to_e(v, w) };
                        match t { None => from_e(e), Some((n, te)) => { let ew = self.m.ty.bits(te); Val::Agg(Rc::new((0..n as u32).map(|i| from_e(extract(e, i * ew, ew))).collect())) } }
                    }
                }
            }
            Cast::F(op) => { let e = to_e(v, fw); from_e(un(op, e, tw)) }
        }
    }
    fn stub(&mut self, st: &mut State, s: Stub, a: &[Val], t: u32) -> Rz<Option<Val>> {
        Ok(match s {
            Stub::Alloc | Stub::AllocZ => Some(Val::I(self.do_alloc(st, &a[0])?)),
            Stub::Dealloc => { let p = self.conc(st, &a[0], 64)?; self.do_free(st, p)?; None }
            Stub::Realloc => { let p = self.conc(st, &a[0], 64)?; Some(Val::I(self.do_realloc(st, p, &a[3])?)) }
            Stub::Nop => None,
            Stub::Panic => return self.viol("panic", self.m.funcs[t as usize].dem.to_string() + &self.panic_info(st, a)),
            Stub::FmtWrite => Some(Val::I(0)),
            Stub::RandKeys => Some(Val::Agg(Rc::new(vec![Val::I(0x0123_4567_89ab_cdef), Val::I(0xfedc_ba98_7654_3210)]))),
        })
    }
    /// readable location: the last argument of the panic entry points is usually &Location { file, line, col }
    fn panic_info(&self, st: &State, a: &[Val]) -> String {
        for v in a.iter().rev() {
            if let Val::I(x) = v {
                let rd = |off: u64, n: usize| -> Option<u64> { let o = st.mem.get((x + off) >> 32)?; let at = ((x + off) & 0xffff_ffff) as usize; if let Data::C(d) = &o.data { let s = d.get(at..at + n)?; let mut b = [0u8; 8]; b[..n].copy_from_slice(s); Some(u64::from_le_bytes(b)) } else { None } };
                if let (Some(fp), Some(fl), Some(line)) = (rd(0, 8), rd(8, 8), rd(16, 4)) {
                    if fl > 0 && fl < 300 { if let Some(o) = st.mem.get(fp >> 32) { if let Data::C(d) = &o.data { let at = (fp & 0xffff_ffff) as usize; if let Some(s) = d.get(at..at + fl as usize) { if let Ok(s) = std::str::from_utf8(s) { return format!(" at {s}:{line}") } } } } }
                }
            }
        }
        for f in st.frames.iter().rev() { if f.f.dem.contains("async_tiff") || f.f.dem.contains("vharness") { return format!(" in {}", f.f.dem) } }
        String::new()
    }
    fn do_realloc(&mut self, st: &mut State, p: u64, size: &Val) -> Rz<u64> {
        let n = self.do_alloc(st, size)?;
        let old = match st.mem.get(p >> 32) { Some(o) => o.clone(), None => return self.viol("memory", format!("realloc of {p:#x}")) };
        let o = st.mem.get_mut(n >> 32).unwrap();
        let k = old.phys().min(if o.sym.is_some() { old.phys() } else { o.size as usize });
        o.grow(k);
        for i in 0..k { let b = old.byte(i); o.set(i, b) }
        self.do_free(st, p)?;
        Ok(n)
    }
    fn newvars(&mut self, st: &State, name: &str, n: usize) -> Vec<Eid> {
        let occ = st.inputs.iter().filter(|x| &*x.0 == name).count();
        let nm: Rc<str> = name.into();
        (0..n).map(|i| { let k = (nm.clone(), occ, i); if let Some(&e) = self.varcache.get(&k) { return e } let e = var(8); self.varw.push(8); self.varcache.insert(k, e); e }).collect()
    }
    fn cstr(&mut self, st: &mut State, p: &Val, n: &Val) -> Rz<String> { let n = self.conc(st, n, 64)?; let p = Val::I(self.conc(st, p, 64)?); let b = self.read_bytes(st, &p, n)?; Ok(String::from_utf8_lossy(&b.iter().map(|x| *x as u8).collect::<Vec<_>>()).into_owned()) }
    fn ext(&mut self, st: &mut State, name: &str, a: &[Val], tys: &[Ty], ret: Ty) -> Rz<Option<Val>> {
        let w0 = if tys.is_empty() { 0 } else { self.m.ty.bits(tys[0]) };
        let i64v = |x: u64| Ok(Some(Val::I(x)));
        if let Some(r) = name.strip_prefix("llvm.") {
            if let (Some(Val::Agg(_)), Some((n, et))) = (a.first(), tys.first().and_then(|t| self.m.ty.elem(*t))) {
                if !r.starts_with("vector") && self.m.ty.elem(ret).is_some() { // element-wise
                    let (_, rt) = self.m.ty.elem(ret).unwrap();
                    let nm = name.to_string(); let mut out = vec![];
                    for i in 0..n as usize { let av: Vec<Val> = a.iter().map(|x| match x { Val::Agg(v) => v[i].clone(), o => o.clone() }).collect(); let ts: Vec<Ty> = tys.iter().map(|t| if self.m.ty.elem(*t).is_some() { et } else { *t }).collect(); out.push(self.ext(st, &nm, &av, &ts, rt)?.unwrap()) }
                    return Ok(Some(Val::Agg(Rc::new(out))));
                }
            }
            let base = r.split('.').next().unwrap();
            match base {
                "lifetime" | "assume" | "experimental" | "dbg" | "prefetch" | "sideeffect" | "donothing" | "invariant" | "x86" if !r.starts_with("x86.") || r.contains("pause") => return Ok(None),
                "trap" | "debugtrap" | "ubsantrap" => return self.viol("panic", "llvm.trap (abort)".into()),
                "threadlocal" => return Ok(Some(a[0].clone())),
                "expect" | "launder" | "strip" | "ssa" | "annotation" | "ptrmask" => return Ok(Some(a[0].clone())),
                "is" if r.starts_with("is.constant") => return i64v(0),
                "memcpy" | "memmove" => { let n = self.conc(st, &a[2], 64)?; if n == 0 { return Ok(None) } let d = self.conc(st, &a[0], 64)?; let s = self.conc(st, &a[1], 64)?; self.memcpy(st, d, s, n)?; return Ok(None) }
                "memset" => { let n = self.conc(st, &a[2], 64)?; if n == 0 { return Ok(None) } let d = self.conc(st, &a[0], 64)?; self.check(st, d, n, true)?; let b = e_byte(to_e(&a[1], 8)); let bs = vec![b; n as usize]; self.write_bytes(st, &Val::I(d), &bs)?; return Ok(None) }
                "umax" | "umin" | "smax" | "smin" => {
                    let c = Self::icmp(match base { "umax" => Pred::Ugt, "umin" => Pred::Ult, "smax" => Pred::Sgt, _ => Pred::Slt }, &a[0], &a[1], w0);
                    return Ok(Some(match c { Val::I(x) => if x != 0 { a[0].clone() } else { a[1].clone() }, Val::E(e) => from_e(ite(e, to_e(&a[0], w0), to_e(&a[1], w0))), _ => panic!() }));
                }
                "abs" => { let x = to_e(&a[0], w0); let neg = bin(Op::Sub, konst(0, w0), x); let s = slt(x, konst(0, w0)); return Ok(Some(from_e(ite(s, neg, x)))) }
                "ucmp" | "scmp" => { let rw = self.m.ty.bits(ret); let (l, g) = (Self::icmp(if base == "ucmp" { Pred::Ult } else { Pred::Slt }, &a[0], &a[1], w0), Self::icmp(if base == "ucmp" { Pred::Ugt } else { Pred::Sgt }, &a[0], &a[1], w0)); let e = ite(to_e(&l, 1), konst(mask(rw), rw), ite(to_e(&g, 1), konst(1, rw), konst(0, rw))); return Ok(Some(from_e(e))) }
                "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if r.contains("with.overflow") => {
                    let (x, y) = (to_e(&a[0], w0), to_e(&a[1], w0));
                    let (res, ov) = Self::ovf(base, x, y, w0);
                    return Ok(Some(Val::Agg(Rc::new(vec![from_e(res), from_e(ov)]))));
                }
                "uadd" | "usub" | "sadd" | "ssub" if r.contains("sat") => {
                    let (x, y) = (to_e(&a[0], w0), to_e(&a[1], w0));
                    let (res, ov) = Self::ovf(base, x, y, w0);
                    let lim = match base { "uadd" => konst(mask(w0), w0), "usub" => konst(0, w0), _ => { let s = slt(x, konst(0, w0)); ite(s, konst(1u128 << (w0 - 1), w0), konst(mask(w0 - 1), w0)) } };
                    return Ok(Some(from_e(ite(ov, lim, res))));
                }
                "ctpop" => { if let Val::I(x) = a[0] { return i64v(x.count_ones() as u64) } let x = to_e(&a[0], w0); let mut s = konst(0, w0); for i in 0..w0 { let b = zext(extract(x, i, 1), w0); s = bin(Op::Add, s, b) } return Ok(Some(from_e(s))) }
                "ctlz" | "cttz" => {
                    if let Val::I(x) = a[0] { return i64v(if x == 0 { w0 as u64 } else if base == "cttz" { x.trailing_zeros() as u64 } else { (x.leading_zeros() - (64 - w0)) as u64 }) }
                    let x = to_e(&a[0], w0); let mut r = konst(w0 as u128, w0);
                    for i in 0..w0 { // last assignment wins = most significant scan position
                        let bit = if base == "cttz" { w0 - 1 - i } else { i };
                        let cnt = if base == "cttz" { bit } else { w0 - 1 - bit };
                        let b = extract(x, bit, 1); r = ite(b, konst(cnt as u128, w0), r)
                    }
                    return Ok(Some(from_e(r)));
                }
                "bswap" => { let x = to_e(&a[0], w0); let n = w0 / 8; let mut r = extract(x, 0, 8); for i in 1..n { let b = extract(x, 8 * i, 8); r = concat(r, b) } return Ok(Some(from_e(r))) }
                "bitreverse" => { let x = to_e(&a[0], w0); let mut r = extract(x, 0, 1); for i in 1..w0 { let b = extract(x, i, 1); r = concat(r, b) } return Ok(Some(from_e(r))) }
                "fshl" | "fshr" => {
                    let (x, y) = (to_e(&a[0], w0), to_e(&a[1], w0));
                    if let Val::I(k) = a[2] { let k = (k % w0 as u64) as u32; let c = concat(x, y); let lo = if base == "fshl" { w0 - k } else { k }; return Ok(Some(from_e(extract(c, lo, w0)))) }
                    let c = concat(x, y); let k = bin(Op::URem, to_e(&a[2], w0), konst(w0 as u128, w0)); let k2 = zext(k, 2 * w0);
                    let r = if base == "fshl" { extract(bin(Op::Shl, c, k2), w0, w0) } else { extract(bin(Op::LShr, c, k2), 0, w0) };
                    return Ok(Some(from_e(r)));
                }
                "fabs" => { let x = to_e(&a[0], w0); return Ok(Some(from_e(bin(Op::And, x, konst(mask(w0 - 1), w0))))) }
                "ceil" | "floor" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" | "sqrt" => { let op = match base { "ceil" => Op::FCeil, "floor" => Op::FFloor, "trunc" => Op::FTrunc, "round" => Op::FRound, "sqrt" => Op::FSqrt, _ => Op::FRoundEven }; let x = to_e(&a[0], w0); return Ok(Some(from_e(un(op, x, w0)))) }
                "fptoui" => { let x = to_e(&a[0], w0); return Ok(Some(from_e(un(Op::FPToUI, x, self.m.ty.bits(ret))))) }
                "fptosi" => { let x = to_e(&a[0], w0); return Ok(Some(from_e(un(Op::FPToSI, x, self.m.ty.bits(ret))))) }
                "vector" if r.starts_with("vector.reduce.") => {
                    let k = r.split('.').nth(2).unwrap(); let Val::Agg(v) = &a[0] else { panic!() }; let ew = self.m.ty.bits(self.m.ty.elem(tys[0]).unwrap().1);
                    let op = match k { "or" => Op::Or, "and" => Op::And, "xor" => Op::Xor, "add" => Op::Add, "mul" => Op::Mul, _ => return self.viol("unsupported", name.into()) };
                    let mut acc = v[0].clone(); for x in &v[1..] { acc = Self::binop(op, &acc, x, ew) } return Ok(Some(acc));
                }
                _ => return self.viol("unsupported", format!("intrinsic {name}")),
            }
        }
        match name {
            "memcpy" | "memmove" => { let n = self.conc(st, &a[2], 64)?; let d = self.conc(st, &a[0], 64)?; let s = self.conc(st, &a[1], 64)?; self.memcpy(st, d, s, n)?; i64v(d) }
            "memset" => { let n = self.conc(st, &a[2], 64)?; let d = self.conc(st, &a[0], 64)?; if n > 0 { self.check(st, d, n, true)?; let b = e_byte(extract(to_e(&a[1], 32), 0, 8)); let bs = vec![b; n as usize]; self.write_bytes(st, &Val::I(d), &bs)?; } i64v(d) }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 { return i64v(0) }
                let x = self.read_bytes(st, &a[0], n)?; let y = self.read_bytes(st, &a[1], n)?;
                let mut r = konst(0, 32);
                if name == "bcmp" { let mut same = tru(); for i in 0..n as usize { let e = eq(byte_e(x[i]), byte_e(y[i])); same = bin(Op::And, same, e) } r = ite(same, r, konst(1, 32)) }
                else { for i in (0..n as usize).rev() { let (p, q) = (byte_e(x[i]), byte_e(y[i])); let e = eq(p, q); let l = ult(p, q); let d = ite(l, konst(mask(32), 32), konst(1, 32)); r = ite(e, r, d) } }
                Ok(Some(from_e(r)))
            }
            "strlen" => { let p = self.conc(st, &a[0], 64)?; let mut n = 0; loop { let b = self.read_bytes(st, &Val::I(p + n), 1)?[0]; let v = if b < SB { b as u64 } else { self.conc(st, &Val::E(b - SB), 8)? }; if v == 0 { return i64v(n) } n += 1 } }
            "malloc" => { let r = self.do_alloc(st, &a[0])?; i64v(r) }
            "calloc" => { let n = Self::binop(Op::Mul, &a[0], &a[1], 64); let r = self.do_alloc(st, &n)?; i64v(r) }
            "realloc" => { let p = self.conc(st, &a[0], 64)?; let r = if p == 0 { self.do_alloc(st, &a[1])? } else { self.do_realloc(st, p, &a[1])? }; i64v(r) }
            "free" => { let p = self.conc(st, &a[0], 64)?; self.do_free(st, p)?; Ok(None) }
            "posix_memalign" => { let r = self.do_alloc(st, &a[2])?; self.write_bytes(st, &a[0], &(0..8).map(|i| ((r >> (8 * i)) & 255) as u32).collect::<Vec<_>>())?; i64v(0) }
            "abort" | "_exit" | "exit" => self.viol("panic", format!("{name} called")),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => i64v(0),
            "getenv" => i64v(0),
            "write" => Ok(Some(a[2].clone())),
            "gettid" | "getpid" => i64v(1),
            "ceil" | "floor" | "trunc" | "round" | "rint" | "sqrt" | "ceilf" | "floorf" | "truncf" | "roundf" => { let op = match name.trim_end_matches('f') { "ceil" => Op::FCeil, "floor" => Op::FFloor, "trunc" => Op::FTrunc, "round" => Op::FRound, "sqrt" => Op::FSqrt, _ => Op::FRoundEven }; let x = to_e(&a[0], w0); Ok(Some(from_e(un(op, x, w0)))) }
            "syscall" => { let nr = a[0].k().unwrap_or(0); if nr == 318 { let n = self.conc(st, &a[2], 64)?; self.write_bytes(st, &a[1], &(0..n).map(|i| (i as u32 * 37 + 11) & 255).collect::<Vec<_>>())?; return i64v(n) } self.viol("unsupported", format!("syscall {nr}")) }
            "getrandom" => { let n = self.conc(st, &a[1], 64)?; self.write_bytes(st, &a[0], &(0..n).map(|i| (i as u32 * 37 + 11) & 255).collect::<Vec<_>>())?; i64v(n) }
            // ---- harness interface ----
            "vsym_bytes" => {
                let n = a[1].k().expect("concrete length"); let nm = self.cstr(st, &a[2], &a[3])?;
                let vs = self.newvars(st, &nm, n as usize);
                let bs: Vec<u32> = vs.iter().map(|&e| e_byte(e)).collect();
                if n > 0 { self.write_bytes(st, &a[0], &bs)?; }
                Rc::make_mut(&mut st.inputs).push((nm.as_str().into(), vs));
                Ok(None)
            }
            "vsym_choice" => { // (n, name, nlen) -> concrete value < n, one path per value
                let n = a[0].k().expect("concrete choice bound"); let nm = self.cstr(st, &a[1], &a[2])?;
                assert!(n >= 1 && n <= 256);
                let vs = self.newvars(st, &nm, 1);
                Rc::make_mut(&mut st.inputs).push((nm.as_str().into(), vs.clone()));
                let mkm = |e: &Engine, m: &Rc<Vec<u64>>, k: u64| e.overlay(m, &[(node(vs[0]).a, k)]);
                let f = st.frames.last().unwrap().f.clone();
                let (blk, ip) = { let fr = st.frames.last().unwrap(); (fr.blk, fr.ip) };
                let d = if let Ins::Call { d, .. } = &f.blocks[blk as usize].ins[ip as usize] { *d } else { None };
                for k in (1..n).rev() {
                    let mut o = st.clone(); o.cons.push(eq(vs[0], konst(k as u128, 8))); o.model = mkm(self, &st.model, k); o.forks += 1; self.st.forks += 1;
                    let fr = Rc::make_mut(o.frames.last_mut().unwrap()); if let Some(d) = d { fr.regs[d as usize] = Val::I(k) } fr.ip += 1;
                    self.work.push(o);
                }
                st.cons.push(eq(vs[0], konst(0, 8))); st.model = mkm(self, &st.model, 0);
                i64v(0)
            }
            "vsym_concretize" => { let v = self.conc(st, &a[0], 64)?; i64v(v) }
            "vsym_is_symbolic" => i64v(matches!(a[0], Val::E(_)) as u64),
            "vsym_assume" => { let c = extract(to_e(&a[0], w0), 0, 1); if self.assume(st, c) { Ok(None) } else { Err(Stop::Killed) } }
            "vsym_assert" => {
                let c = extract(to_e(&a[0], w0), 0, 1);
                self.st.asserts += 1;
                let msg = self.cstr(st, &a[1], &a[2])?;
                if kval(c).is_none() { self.st.sym_asserts += 1 }
                let nc = not(c);
                if let Some(m) = self.solve(&st.cons, &st.model.clone(), nc) {
                    let mut o = st.clone(); o.cons.push(nc); o.model = m;
                    self.report(&o, "assert", &msg);
                    if self.assume(st, c) { return Ok(None) } else { return Err(Stop::Killed) }
                }
                Ok(None)
            }
            "vsym_cover" => { let msg = self.cstr(st, &a[0], &a[1])?; st.covers.push(msg.as_str().into()); Ok(None) }
            "vsym_observe" => { let n = self.conc(st, &a[1], 64)?; let bs = if n > 0 { self.read_bytes(st, &a[0], n)? } else { vec![] }; let nm = self.cstr(st, &a[2], &a[3])?; st.obs.push((nm.as_str().into(), bs)); Ok(None) }
            "vsym_fmt" => { st.fmt = extract(to_e(&a[0], w0), 0, 1) == tru(); Ok(None) }
            "vsym_tier" => i64v(self.tier),
            "vsym_debug" => { if self.verbose { let m = self.cstr(st, &a[0], &a[1])?; eprintln!("DBG {m} {}", match &a[2] { Val::I(x) => format!("{x:#x}"), Val::E(e) => show(*e, 5), _ => "agg".into() }); } Ok(None) }
            _ => self.viol("unsupported", format!("external function {name}")),
        }
    }
    fn ovf(base: &str, x: Eid, y: Eid, w: u32) -> (Eid, Eid) {
        match base {
            "uadd" => { let r = bin(Op::Add, x, y); let o = if w <= 64 && umax(x) as u128 + umax(y) as u128 <= mask(w) { if kval(r).is_none() { claim(Node { op: Op::Ult, w: 1, a: r, b: x, c: 0 }, fls()) } fls() } else { ult(r, x) }; (r, o) }
            "usub" => (bin(Op::Sub, x, y), ult(x, y)),
            "umul" => {
                let r = bin(Op::Mul, x, y);
                if w <= 64 && umax(x) as u128 * umax(y) as u128 <= mask(w) { if kval(x).is_none() || kval(y).is_none() { claim_umul(x, y, w, fls()) } return (r, fls()) }
                let (k, v) = if let Some(k) = kval(y) { (Some(k), x) } else if let Some(k) = kval(x) { (Some(k), y) } else { (None, x) };
                if let Some(k) = k { let o = if k == 0 { fls() } else { ult(konst(mask(w) / k, w), v) }; if kval(v).is_none() { claim_umul(x, y, w, o) } return (r, o) }
                let (a, b) = (zext(x, 2 * w), zext(y, 2 * w)); let m = bin(Op::Mul, a, b); let hi = extract(m, w, w); (r, not(eq(hi, konst(0, w))))
            }
            "sadd" | "ssub" => { let (a, b) = (sext(x, w + 1), sext(y, w + 1)); let op = if base == "sadd" { Op::Add } else { Op::Sub }; let m = bin(op, a, b); let r = bin(op, x, y); let o = not(eq(m, sext(r, w + 1))); (r, o) }
            "smul" => { let (a, b) = (sext(x, 2 * w), sext(y, 2 * w)); let m = bin(Op::Mul, a, b); let r = bin(Op::Mul, x, y); (r, not(eq(m, sext(r, 2 * w)))) }
            _ => panic!("{base}"),
        }
    }
}
pub fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o.push('"'); o }
