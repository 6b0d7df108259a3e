//! Hash-consed bit-vector (and IEEE float) expression DAG with simplification.
use std::collections::HashMap;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Eq, Ult, Slt, Ite,
    FAdd, FSub, FMul, FDiv, FRem, FOEq, FOLt, FOLe, FUno,
    UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc,
    FCeil, FFloor, FTrunc, FRound, FRoundEven, FSqrt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Eid, Fx>,
    pub consts: Vec<u128>,
    cmap: HashMap<(u128, u16), Eid, Fx>,
    pub rng: Vec<(u64, u64)>,
    pub vset: Vec<u32>,
    pub vsets: Vec<Box<[u64]>>,
    vsmap: HashMap<Box<[u64]>, u32>,
    vsun: HashMap<(u32, u32), u32, Fx>,
    pub hasfp: Vec<bool>,
    pub nvars: u32,
    // evaluation memo
    tzc: Vec<u16>,
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    pub gen: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x9E37_79B9_7F4A_7C15) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}

static mut POOL: *mut Pool = std::ptr::null_mut();
#[inline(always)]
pub fn p() -> &'static mut Pool { unsafe { &mut *POOL } }
pub fn init() {
    let mut q = Pool {
        nodes: vec![], map: HashMap::default(), consts: vec![], cmap: HashMap::default(), rng: vec![],
        vset: vec![], vsets: vec![], vsmap: HashMap::new(), vsun: HashMap::default(), hasfp: vec![], nvars: 0,
        ev_gen: vec![], ev_val: vec![], gen: 0, tzc: vec![],
    };
    q.vsets.push(Box::new([]));
    q.vsmap.insert(Box::new([]), 0);
    unsafe { POOL = Box::into_raw(Box::new(q)) }
}

#[inline(always)]
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline(always)]
pub fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w == 0 { 0 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn width(e: Eid) -> u32 { p().nodes[e as usize].w as u32 }
#[inline]
pub fn node(e: Eid) -> Node { p().nodes[e as usize] }
#[inline]
pub fn kval(e: Eid) -> Option<u128> { let q = p(); let n = q.nodes[e as usize]; if n.op == Const { Some(q.consts[n.a as usize]) } else { None } }
pub fn umax(e: Eid) -> u64 { p().rng[e as usize].1 }
pub fn umin(e: Eid) -> u64 { p().rng[e as usize].0 }
pub fn rng(e: Eid) -> (u64, u64) { p().rng[e as usize] }

pub fn konst(v: u128, w: u32) -> Eid {
    let v = v & mask(w);
    let q = p();
    if let Some(&e) = q.cmap.get(&(v, w as u16)) { return e }
    let id = q.nodes.len() as u32;
    q.consts.push(v);
    q.nodes.push(Node { op: Const, w: w as u16, a: (q.consts.len() - 1) as u32, b: 0, c: 0 });
    q.rng.push(if w <= 64 { (v as u64, v as u64) } else { (0, u64::MAX) });
    q.vset.push(0);
    q.hasfp.push(false);
    q.cmap.insert((v, w as u16), id);
    id
}
pub fn var(w: u32) -> Eid {
    let q = p();
    let id = q.nodes.len() as u32;
    let v = q.nvars; q.nvars += 1;
    q.nodes.push(Node { op: Var, w: w as u16, a: v, b: 0, c: 0 });
    q.rng.push(if w <= 64 { (0, m64(w)) } else { (0, u64::MAX) });
    let mut bs = vec![0u64; (v / 64 + 1) as usize];
    bs[(v / 64) as usize] |= 1 << (v % 64);
    let s = q.intern_vs(bs);
    q.vset.push(s);
    q.hasfp.push(false);
    id
}
impl Pool {
    fn intern_vs(&mut self, mut b: Vec<u64>) -> u32 {
        while b.last() == Some(&0) { b.pop(); }
        let b: Box<[u64]> = b.into_boxed_slice();
        if let Some(&i) = self.vsmap.get(&b) { return i }
        let i = self.vsets.len() as u32;
        self.vsets.push(b.clone());
        self.vsmap.insert(b, i);
        i
    }
    pub fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a }
        if a == 0 { return b }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.vsun.get(&k) { return r }
        let (x, y) = (&self.vsets[a as usize], &self.vsets[b as usize]);
        let n = x.len().max(y.len());
        let v: Vec<u64> = (0..n).map(|i| x.get(i).unwrap_or(&0) | y.get(i).unwrap_or(&0)).collect();
        let r = self.intern_vs(v);
        self.vsun.insert(k, r);
        r
    }
    pub fn vs_inter(&self, a: u32, b: u32) -> bool {
        let (x, y) = (&self.vsets[a as usize], &self.vsets[b as usize]);
        x.iter().zip(y.iter()).any(|(p, q)| p & q != 0)
    }
}

pub fn arity(op: Op) -> usize {
    match op {
        Const | Var => 0,
        Extract | ZExt | SExt | UIToFP | SIToFP | FPToUI | FPToSI | FPExt | FPTrunc | FCeil | FFloor | FTrunc | FRound | FRoundEven | FSqrt => 1,
        Ite => 3,
        _ => 2,
    }
}
pub fn is_fp(op: Op) -> bool { (op as u8) >= (FAdd as u8) }

fn raw(op: Op, w: u32, a: u32, b: u32, c: u32) -> Eid {
    let n = Node { op, w: w as u16, a, b, c };
    let q = p();
    if let Some(&e) = q.map.get(&n) { return e }
    let id = q.nodes.len() as u32;
    let ar = arity(op);
    let mut vs = 0; let mut fp = is_fp(op);
    if ar >= 1 { vs = q.vset[a as usize]; fp |= q.hasfp[a as usize]; }
    if ar >= 2 { vs = q.vs_union(vs, q.vset[b as usize]); fp |= q.hasfp[b as usize]; }
    if ar >= 3 { vs = q.vs_union(vs, q.vset[c as usize]); fp |= q.hasfp[c as usize]; }
    q.nodes.push(n);
    let r = range_of(&n);
    q.rng.push(r);
    q.vset.push(vs);
    q.hasfp.push(fp);
    q.map.insert(n, id);
    id
}

fn range_of(n: &Node) -> (u64, u64) {
    let w = n.w as u32;
    if w > 64 { return (0, u64::MAX) }
    let full = (0, m64(w));
    let wa = if arity(n.op) >= 1 { width(n.a) } else { 0 };
    if wa > 64 { return full }
    match n.op {
        ZExt => rng(n.a),
        Extract => { let (lo, hi) = rng(n.a); let s = n.b; if s >= 64 { return full }
            let (l, h) = (lo >> s, hi >> s); if h <= m64(w) { (l, h) } else { full } }
        Concat => { let wb = width(n.b); if wb > 64 { return full } let (l1, h1) = rng(n.a); let (l2, h2) = rng(n.b); ((l1 << wb) | l2, (h1 << wb) | h2) }
        Ite => { let (l1, h1) = rng(n.b); let (l2, h2) = rng(n.c); (l1.min(l2), h1.max(h2)) }
        And => (0, umax(n.a).min(umax(n.b))),
        Or => { let h = umax(n.a) | umax(n.b); let h = if h == 0 { 0 } else { u64::MAX >> h.leading_zeros() }; (umin(n.a).max(umin(n.b)), h) }
        Xor => { let h = umax(n.a) | umax(n.b); let h = if h == 0 { 0 } else { u64::MAX >> h.leading_zeros() }; (0, h) }
        Add => { let (l1, h1) = rng(n.a); let (l2, h2) = rng(n.b);
            let h = h1 as u128 + h2 as u128; let l = l1 as u128 + l2 as u128;
            if h <= m64(w) as u128 { (l as u64, h as u64) }
            else if l > m64(w) as u128 { let m = m64(w) as u128 + 1; ((l - m) as u64, (h - m) as u64) }
            else { full } }
        Sub => { let (l1, h1) = rng(n.a); let (l2, h2) = rng(n.b); if l1 >= h2 { (l1 - h2, h1 - l2) } else { full } }
        Mul => { let (l1, h1) = rng(n.a); let (l2, h2) = rng(n.b); let h = h1 as u128 * h2 as u128; if h <= m64(w) as u128 { (l1 * l2, h as u64) } else { full } }
        UDiv => { let (l1, h1) = rng(n.a); let (l2, h2) = rng(n.b); if l2 == 0 { full } else { (l1 / h2, h1 / l2) } }
        URem => { let (l2, h2) = rng(n.b); if l2 == 0 { full } else { (0, (h2 - 1).min(umax(n.a))) } }
        LShr => (0, umax(n.a)),
        _ => full,
    }
}

// ---------- concrete semantics (shared by folding and model evaluation) ----------
pub fn fold(op: Op, w: u32, wa: u32, lo: u32, a: u128, b: u128, c: u128) -> u128 {
    let r: u128 = match op {
        Add => a.wrapping_add(b), Sub => a.wrapping_sub(b), Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { u128::MAX } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { u128::MAX } } else { x.wrapping_div(y) as u128 } }
        SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        And => a & b, Or => a | b, Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let s = b.min(w as u128 - 1); (sx(a, w) >> s) as u128 }
        Concat => (a << (w - wa)) | b,
        Extract => a >> lo,
        ZExt => a,
        SExt => sx(a, wa) as u128,
        Eq => (a == b) as u128, Ult => (a < b) as u128, Slt => (sx(a, wa) < sx(b, wa)) as u128,
        Ite => if a != 0 { b } else { c },
        FAdd | FSub | FMul | FDiv | FRem => if w == 32 {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            (match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y }).to_bits() as u128
        } else {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            (match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => x % y }).to_bits() as u128
        },
        FOEq | FOLt | FOLe | FUno => {
            let (x, y) = if wa == 32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a as u64), f64::from_bits(b as u64)) };
            (match op { FOEq => x == y, FOLt => x < y, FOLe => x <= y, _ => x.is_nan() || y.is_nan() }) as u128
        }
        UIToFP => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        SIToFP => { let s = sx(a, wa); if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        FPToUI => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; let v = x as u128; v.min(mask(w)) }
        FPToSI => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; let v = x as i128; v.clamp(-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) as u128 }
        FPExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        FPTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        FCeil | FFloor | FTrunc | FRound | FRoundEven | FSqrt => if w == 32 {
            let x = f32::from_bits(a as u32);
            (match op { FCeil => x.ceil(), FFloor => x.floor(), FTrunc => x.trunc(), FRound => x.round(), FRoundEven => x.round_ties_even(), _ => x.sqrt() }).to_bits() as u128
        } else {
            let x = f64::from_bits(a as u64);
            (match op { FCeil => x.ceil(), FFloor => x.floor(), FTrunc => x.trunc(), FRound => x.round(), FRoundEven => x.round_ties_even(), _ => x.sqrt() }).to_bits() as u128
        },
        Const | Var => unreachable!(),
    };
    r & mask(w)
}

/// Evaluate `e` under the model (value per variable index).
pub fn eval(e: Eid, model: &[u64]) -> u128 {
    let q = p();
    if q.ev_gen.len() < q.nodes.len() { let n = q.nodes.len() + 4096; q.ev_gen.resize(n, 0); q.ev_val.resize(n, 0); }
    let mut st: Vec<Eid> = vec![e];
    while let Some(&t) = st.last() {
        let ti = t as usize;
        if q.ev_gen[ti] == q.gen { st.pop(); continue }
        let n = q.nodes[ti];
        let v = match n.op {
            Const => q.consts[n.a as usize],
            Var => (*model.get(n.a as usize).unwrap_or(&0)) as u128,
            Ite => {
                if q.ev_gen[n.a as usize] != q.gen { st.push(n.a); continue }
                let br = if q.ev_val[n.a as usize] != 0 { n.b } else { n.c };
                if q.ev_gen[br as usize] != q.gen { st.push(br); continue }
                q.ev_val[br as usize]
            }
            _ => {
                let ar = arity(n.op);
                let mut ok = true;
                if q.ev_gen[n.a as usize] != q.gen { st.push(n.a); ok = false }
                if ar >= 2 && q.ev_gen[n.b as usize] != q.gen { st.push(n.b); ok = false }
                if !ok { continue }
                let a = q.ev_val[n.a as usize];
                let b = if ar >= 2 { q.ev_val[n.b as usize] } else { 0 };
                fold(n.op, n.w as u32, q.nodes[n.a as usize].w as u32, n.b, a, b, 0)
            }
        };
        q.ev_val[ti] = v; q.ev_gen[ti] = q.gen;
        st.pop();
    }
    q.ev_val[e as usize]
}

// ---------- certification of rewrites ----------
/// Every rewrite the constructors below make is an equality of terms that holds for all values of
/// the variables.  The outermost ones are recorded here and put to the solver at the end of the run.
pub struct Cert { depth: u32, seen: std::collections::HashSet<Node, Fx>, pub pending: Vec<(Node, Eid)> }
static mut CERT: Cert = Cert { depth: 0, seen: std::collections::HashSet::with_hasher(Fx), pending: vec![] };
#[allow(static_mut_refs)]
#[inline(always)]
pub fn cert() -> &'static mut Cert { unsafe { &mut CERT } }
#[inline(always)]
pub fn cert_in() { cert().depth += 1 }
#[inline(always)]
pub fn cert_pop() { cert().depth -= 1 }
#[inline(always)]
fn cert_out(k: (Op, u32, u32, u32, u32), r: Eid) {
    let c = cert();
    c.depth -= 1;
    if c.depth > 0 { return }
    let n = Node { op: k.0, w: k.1 as u16, a: k.2, b: k.3, c: k.4 };
    let m = node(r);
    if m == n || (m.op == n.op && m.w == n.w && m.a == n.b && m.b == n.a && matches!(n.op, Add | Mul | And | Or | Xor | Eq)) { return }
    if r == n.a && matches!(n.op, ZExt | SExt | Extract) && m.w == n.w { return }
    let ar = arity(n.op);
    if kval(n.a).is_some() && (ar < 2 || kval(n.b).is_some()) && (ar < 3 || kval(n.c).is_some()) { return }
    if c.seen.insert(n) { c.pending.push((n, r)) }
}
/// a claim of equality made outside the constructors
pub fn claim(n: Node, r: Eid) { if cert().seen.insert(n) { cert().pending.push((n, r)) } }
/// x * y does not overflow w bits exactly when `o` is false
pub fn claim_umul(x: Eid, y: Eid, w: u32, o: Eid) {
    if !cert().seen.insert(Node { op: Mul, w: 2 * w as u16, a: x, b: y, c: 1 }) { return }
    let d = 2 * w as u16;
    let (a, b) = (plain(Node { op: ZExt, w: d, a: x, b: 0, c: 0 }), plain(Node { op: ZExt, w: d, a: y, b: 0, c: 0 }));
    let m = plain(Node { op: Mul, w: d, a, b, c: 0 });
    cert().pending.push((Node { op: Ult, w: 1, a: konst(mask(w), 2 * w), b: m, c: 0 }, o));
}
/// the node itself, not rewritten and not shared
pub fn plain(n: Node) -> Eid {
    let q = p();
    let id = q.nodes.len() as u32;
    let ar = arity(n.op);
    let mut vs = q.vset[n.a as usize]; let mut fp = is_fp(n.op) || q.hasfp[n.a as usize];
    if ar >= 2 { vs = q.vs_union(vs, q.vset[n.b as usize]); fp |= q.hasfp[n.b as usize] }
    if ar >= 3 { vs = q.vs_union(vs, q.vset[n.c as usize]); fp |= q.hasfp[n.c as usize] }
    q.nodes.push(n); q.rng.push((0, u64::MAX)); q.vset.push(vs); q.hasfp.push(fp);
    id
}

/// The same equality with the largest terms that occur on both sides replaced by variables of
/// their own: if this holds for all their values, the equality holds.
pub fn generalise(x: Eid, y: Eid) -> Option<(Eid, Eid)> {
    fn reach(e: Eid, seen: &mut std::collections::HashSet<Eid>) -> bool {
        let mut st = vec![e];
        while let Some(e) = st.pop() {
            if kval(e).is_some() || !seen.insert(e) { continue }
            if seen.len() > 4000 { return false }
            let n = node(e); let ar = arity(n.op);
            if ar > 0 { st.push(n.a) } if ar > 1 { st.push(n.b) } if ar > 2 { st.push(n.c) }
        }
        true
    }
    let (mut sx, mut sy) = (Default::default(), Default::default());
    if !reach(x, &mut sx) || !reach(y, &mut sy) { return None }
    fn copy(e: Eid, sx: &std::collections::HashSet<Eid>, sy: &std::collections::HashSet<Eid>, m: &mut HashMap<Eid, Eid>) -> Eid {
        if kval(e).is_some() { return e }
        if let Some(&r) = m.get(&e) { return r }
        let mut n = node(e);
        let r = if n.op == Var { e } else if sx.contains(&e) && sy.contains(&e) {
            let q = p();
            let id = q.nodes.len() as u32;
            q.nodes.push(Node { op: Var, w: n.w, a: 0x4000_0000 + e, b: 0, c: 0 }); q.rng.push((0, u64::MAX)); let vs = q.vset[e as usize]; q.vset.push(vs); q.hasfp.push(false);
            id
        } else {
            let ar = arity(n.op);
            if ar > 0 { n.a = copy(n.a, sx, sy, m) } if ar > 1 { n.b = copy(n.b, sx, sy, m) } if ar > 2 { n.c = copy(n.c, sx, sy, m) }
            plain(n)
        };
        m.insert(e, r);
        r
    }
    let mut m = HashMap::new();
    Some((copy(x, &sx, &sy, &mut m), copy(y, &sx, &sy, &mut m)))
}

// ---------- smart constructors ----------
pub fn tru() -> Eid { konst(1, 1) }
pub fn fls() -> Eid { konst(0, 1) }
pub fn not(a: Eid) -> Eid { let w = width(a); bin(Xor, a, konst(u128::MAX, w)) }
pub fn is_not(a: Eid) -> Option<Eid> { let n = node(a); if n.op == Xor && kval(n.b) == Some(mask(n.w as u32)) { Some(n.a) } else { None } }

fn leaves(e: Eid, lim: &mut i32) -> bool {
    let n = node(e);
    if n.op == Const { *lim -= 1; return *lim >= 0 }
    if n.op == Ite { return leaves(n.b, lim) && leaves(n.c, lim) }
    false
}
fn ite_const(e: Eid) -> bool { node(e).op == Ite && leaves(e, &mut 24) }
fn push1(e: Eid, f: &dyn Fn(Eid) -> Eid) -> Eid {
    let n = node(e);
    if n.op == Ite { let (t, g) = (push1(n.b, f), push1(n.c, f)); ite(n.a, t, g) } else { f(e) }
}

pub fn extract(e: Eid, lo: u32, w: u32) -> Eid { cert_in(); let r = extract_r(e, lo, w); cert_out((Extract, w, e, lo, 0), r); r }
fn extract_r(e: Eid, lo: u32, w: u32) -> Eid {
    let n = node(e);
    let ew = n.w as u32;
    debug_assert!(lo + w <= ew, "extract {lo} {w} of {ew}");
    if lo == 0 && w == ew { return e }
    if let Some(k) = kval(e) { return konst(k >> lo, w) }
    match n.op {
        Extract => return extract(n.a, n.b + lo, w),
        Concat => {
            let wl = width(n.b);
            if lo + w <= wl { return extract(n.b, lo, w) }
            if lo >= wl { return extract(n.a, lo - wl, w) }
            let l = extract(n.b, lo, wl - lo);
            let h = extract(n.a, 0, lo + w - wl);
            return concat(h, l);
        }
        ZExt => {
            let wx = width(n.a);
            if lo + w <= wx { return extract(n.a, lo, w) }
            if lo >= wx { return konst(0, w) }
            let x = extract(n.a, lo, wx - lo);
            return zext(x, w);
        }
        SExt => { let wx = width(n.a); if lo + w <= wx { return extract(n.a, lo, w) } 
            if lo < wx { let x = extract(n.a, lo, wx - lo); return sext(x, w) } }
        And | Or | Xor => {
            if kval(n.b).is_some() || node(n.a).op == ZExt || node(n.b).op == ZExt || node(n.a).op == Concat || node(n.b).op == Concat || w == 1 {
                let (a, b) = (extract(n.a, lo, w), extract(n.b, lo, w)); return bin(n.op, a, b) }
        }
        Add | Sub | Mul if lo == 0 => {
            let f = |x: Eid| matches!(node(x).op, ZExt | Const | SExt);
            if f(n.a) && f(n.b) { let (a, b) = (extract(n.a, 0, w), extract(n.b, 0, w)); return bin(n.op, a, b) }
        }
        Ite if ite_const(e) => return push1(e, &|x| extract(x, lo, w)),
        _ => {}
    }
    if lo == 0 && ew <= 64 && w >= 1 && umax(e) == 0 { return konst(0, w) }
    raw(Extract, w, e, lo, 0)
}
fn try_merge(h: Eid, l: Eid) -> Option<Eid> {
    if let (Some(a), Some(b)) = (kval(h), kval(l)) { return Some(konst((a << width(l)) | b, width(h) + width(l))) }
    let (hn, ln) = (node(h), node(l));
    if hn.op == Extract && ln.op == Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 {
        return Some(extract(hn.a, ln.b, (hn.w + ln.w) as u32));
    }
    None
}
pub fn concat(h: Eid, l: Eid) -> Eid { cert_in(); let r = concat_r(h, l); cert_out((Concat, width(h) + width(l), h, l, 0), r); r }
fn concat_r(h: Eid, l: Eid) -> Eid {
    let (wh, wl) = (width(h), width(l));
    let w = wh + wl;
    if let Some(m) = try_merge(h, l) { return m }
    if kval(h) == Some(0) { return zext(l, w) }
    let hn = node(h);
    if hn.op == ZExt { let c = concat(hn.a, l); return zext(c, w) }
    if hn.op == Concat { let r = concat(hn.b, l); return concat(hn.a, r) }
    let ln = node(l);
    if ln.op == Concat { if let Some(m) = try_merge(h, ln.a) { return concat(m, ln.b) } }
    if ln.op == ZExt { let z = konst(0, wl - width(ln.a)); if let Some(m) = try_merge(h, z) { if node(m).op == Const { return raw(Concat, w, m, ln.a, 0) } } }
    if hn.op == Ite && ln.op == Ite && hn.a == ln.a { let (t, f) = (concat(hn.b, ln.b), concat(hn.c, ln.c)); return ite(hn.a, t, f) }
    raw(Concat, w, h, l, 0)
}
pub fn zext(e: Eid, w: u32) -> Eid { cert_in(); let r = zext_r(e, w); cert_out((ZExt, w, e, 0, 0), r); r }
fn zext_r(e: Eid, w: u32) -> Eid {
    let n = node(e);
    if n.w as u32 == w { return e }
    if let Some(k) = kval(e) { return konst(k, w) }
    if n.op == ZExt { return zext(n.a, w) }
    if ite_const(e) { return push1(e, &|x| zext(x, w)) }
    raw(ZExt, w, e, 0, 0)
}
pub fn sext(e: Eid, w: u32) -> Eid { cert_in(); let r = sext_r(e, w); cert_out((SExt, w, e, 0, 0), r); r }
fn sext_r(e: Eid, w: u32) -> Eid {
    let n = node(e);
    if n.w as u32 == w { return e }
    if let Some(k) = kval(e) { return konst(sx(k, n.w as u32) as u128, w) }
    if n.op == ZExt { return zext(n.a, w) }
    if n.op == SExt { return sext(n.a, w) }
    if n.w == 1 { return ite(e, konst(u128::MAX, w), konst(0, w)) }
    if ite_const(e) { return push1(e, &|x| sext(x, w)) }
    if n.w <= 64 && umax(e) < 1u64 << (n.w - 1) { return zext(e, w) }
    raw(SExt, w, e, 0, 0)
}
pub fn ite(c: Eid, t: Eid, f: Eid) -> Eid { cert_in(); let r = ite_r(c, t, f); cert_out((Ite, width(t), c, t, f), r); r }
fn ite_r(c: Eid, t: Eid, f: Eid) -> Eid {
    if let Some(k) = kval(c) { return if k != 0 { t } else { f } }
    if t == f { return t }
    if let Some(x) = is_not(c) { return ite(x, f, t) }
    let w = width(t);
    if w == 1 {
        match (kval(t), kval(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return bin(Or, c, f),
            (_, Some(0)) => return bin(And, c, t),
            (Some(0), _) => { let nc = not(c); return bin(And, nc, f) }
            (_, Some(1)) => { let nc = not(c); return bin(Or, nc, t) }
            _ => {}
        }
    }
    let tn = node(t); let fnn = node(f);
    if tn.op == Ite && tn.a == c { return ite(c, tn.b, f) }
    if fnn.op == Ite && fnn.a == c { return ite(c, t, fnn.c) }
    if fnn.op == Ite && fnn.b == t { let d = bin(Or, c, fnn.a); return ite(d, t, fnn.c) }
    if tn.op == Ite && tn.c == f { let d = bin(And, c, tn.a); return ite(d, tn.b, f) }
    if tn.op == ZExt && fnn.op == ZExt && width(tn.a) == width(fnn.a) { let x = ite(c, tn.a, fnn.a); return zext(x, w) }
    raw(Ite, w, c, t, f)
}
pub fn tz(e: Eid) -> u32 {
    let n = node(e);
    if matches!(n.op, Add | Sub | Or | Xor | Mul | Ite | And) {
        let q = p();
        if q.tzc.len() <= e as usize { q.tzc.resize(q.nodes.len().max(e as usize + 1), u16::MAX) }
        if q.tzc[e as usize] != u16::MAX { return q.tzc[e as usize] as u32 }
        let r = tz1(e, n);
        p().tzc[e as usize] = r as u16;
        return r
    }
    tz1(e, n)
}
fn tz1(e: Eid, n: Node) -> u32 {
    match n.op {
        Const => { let k = kval(e).unwrap(); if k == 0 { n.w as u32 } else { k.trailing_zeros() } }
        Concat => { let t = tz(n.b); if t == width(n.b) { t + tz(n.a) } else { t } }
        ZExt => { let t = tz(n.a); if t == width(n.a) { n.w as u32 } else { t } }
        Add | Sub | Or | Xor => tz(n.a).min(tz(n.b)),
        Mul => (tz(n.a) + tz(n.b)).min(n.w as u32),
        Ite => tz(n.b).min(tz(n.c)),
        And => tz(n.a).max(tz(n.b)),
        _ => 0,
    }
}
fn run_mask(m: u128) -> Option<(u32, u32)> {
    if m == 0 { return None }
    let lo = m.trailing_zeros(); let s = m >> lo; let n = (!s).trailing_zeros().min(128 - lo);
    if s == mask(n) { Some((lo, n)) } else { None }
}
pub fn bin(op: Op, a: Eid, b: Eid) -> Eid { cert_in(); let r = bin_r(op, a, b); cert_out((op, if matches!(op, Eq | Ult | Slt) { 1 } else { width(a) }, a, b, 0), r); r }
fn bin_r(op: Op, a: Eid, b: Eid) -> Eid {
    let (mut a, mut b) = (a, b);
    let w = width(a);
    debug_assert_eq!(w, width(b), "{op:?}");
    let (mut ka, mut kb) = (kval(a), kval(b));
    if let (Some(x), Some(y)) = (ka, kb) { return konst(fold(op, w, w, 0, x, y, 0), if matches!(op, Eq | Ult | Slt) { 1 } else { w }) }
    if ka.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq) { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ka, &mut kb); }
    if ka.is_none() && kb.is_none() && matches!(op, Add | Mul | And | Or | Xor | Eq) && a > b { std::mem::swap(&mut a, &mut b); }
    let (an, bn) = (node(a), node(b));
    // const pushed through a small constant-leaved ite
    if kb.is_some() && ite_const(a) && !matches!(op, Eq) { return push1(a, &|x| bin(op, x, b)) }
    if ka.is_some() && ite_const(b) && !matches!(op, Eq) { return push1(b, &|x| bin(op, a, x)) }
    match op {
        Add => {
            if let Some(k) = kb {
                if k == 0 { return a }
                if an.op == Add { if let Some(k2) = kval(an.b) { let c = konst(k.wrapping_add(k2), w); return bin(Add, an.a, c) } }
                if an.op == Sub { if let Some(k2) = kval(an.a) { let c = konst(k.wrapping_add(k2), w); return bin(Sub, c, an.b) } }
                // zext(x + c1) + c2 with no wrap
            } else {
                if an.op == Add && kval(an.b).is_some() { let s = bin(Add, an.a, b); return bin(Add, s, an.b) }
                if bn.op == Add && kval(bn.b).is_some() { let s = bin(Add, a, bn.a); return bin(Add, s, bn.b) }
                if an.op == Sub && an.b == b { return an.a }
                if bn.op == Sub && bn.b == a { return bn.a }
                if bn.op == Sub && kval(bn.a).is_some() { let s = bin(Sub, a, bn.b); return bin(Add, s, bn.a) }
                if an.op == Sub && kval(an.a).is_some() { let s = bin(Sub, b, an.b); return bin(Add, s, an.a) }
                if w == 1 { return bin(Xor, a, b) }
            }
        }
        Sub => {
            if a == b { return konst(0, w) }
            if let Some(k) = kb { let c = konst(k.wrapping_neg(), w); return bin(Add, a, c) }
            if an.op == Add {
                if an.a == b { return an.b }
                if an.b == b { return an.a }
                if let Some(k) = kval(an.b) { let s = bin(Sub, an.a, b); let c = konst(k, w); return bin(Add, s, c) }
            }
            if bn.op == Add {
                if bn.a == a { let z = konst(0, w); return bin(Sub, z, bn.b) }
                if let Some(k) = kval(bn.b) { let s = bin(Sub, a, bn.a); let c = konst(k.wrapping_neg(), w); return bin(Add, s, c) }
            }
            if an.op == Sub && an.a == b { let z = konst(0, w); return bin(Sub, z, an.b) }
            if bn.op == Sub && bn.a == a { return bn.b }
        }
        Mul => if let Some(k) = kb {
            if k == 0 { return b }
            if k == 1 { return a }
            if k.is_power_of_two() { return shl_c(a, k.trailing_zeros()) }
            if an.op == Mul { if let Some(k2) = kval(an.b) { let c = konst(k.wrapping_mul(k2), w); return bin(Mul, an.a, c) } }
        },
        // small constant numerator: by cases of the divisor (division by zero as in SMT-LIB)
        UDiv | URem if w <= 64 && kb.is_none() && ka.is_some_and(|k| k <= 16) => {
            let k = ka.unwrap();
            let mut r = konst(if op == UDiv { 0 } else { k }, w);
            for y in (0..=k).rev() {
                let v = if y == 0 { if op == UDiv { mask(w) } else { k } } else if op == UDiv { k / y } else { k % y };
                let (v, yy) = (konst(v, w), konst(y, w));
                let c = eq(b, yy);
                r = ite(c, v, r);
            }
            return r
        }
        UDiv => if let Some(k) = kb {
            if k == 1 { return a }
            if k.is_power_of_two() { return lshr_c(a, k.trailing_zeros()) }
            if w <= 64 && (umax(a) as u128) < k { return konst(0, w) }
            if an.op == Mul && kval(an.b) == kb && w <= 64 && (umax(an.a) as u128) * k <= mask(w) { return an.a }
            if an.op == ZExt && k <= mask(width(an.a)) { let kk = konst(k, width(an.a)); let q = bin(UDiv, an.a, kk); return zext(q, w) }
        } else if an.op == ZExt && bn.op == ZExt && width(an.a) == width(bn.a) && umin(bn.a) > 0 { let q = bin(UDiv, an.a, bn.a); return zext(q, w) },
        URem => if let Some(k) = kb {
            if k == 1 { return konst(0, w) }
            if k.is_power_of_two() { let m = konst(k - 1, w); return bin(And, a, m) }
            if w <= 64 && (umax(a) as u128) < k { return a }
            if an.op == ZExt && k <= mask(width(an.a)) { let kk = konst(k, width(an.a)); let q = bin(URem, an.a, kk); return zext(q, w) }
        } else if an.op == ZExt && bn.op == ZExt && width(an.a) == width(bn.a) && umin(bn.a) > 0 { let q = bin(URem, an.a, bn.a); return zext(q, w) },
        SDiv => if let Some(k) = kb { if k == 1 { return a } 
            if w <= 64 && umax(a) < 1 << (w - 1) && k < 1 << (w - 1) { return bin(UDiv, a, b) } },
        SRem => if let Some(k) = kb { if w <= 64 && umax(a) < 1 << (w - 1) && k < 1 << (w - 1) { return bin(URem, a, b) } },
        And => {
            if a == b { return a }
            if let Some(k) = kb {
                if k == 0 { return b }
                if k == mask(w) { return a }
                if an.op == And { if let Some(k2) = kval(an.b) { let c = konst(k & k2, w); return bin(And, an.a, c) } }
                if let Some((lo, n)) = run_mask(k) {
                    let x = extract(a, lo, n);
                    let x = if lo > 0 { let z = konst(0, lo); concat(x, z) } else { x };
                    return zext(x, w);
                }
                if an.op == ZExt { let wx = width(an.a); let kk = konst(k, wx); let x = bin(And, an.a, kk); return zext(x, w) }
            } else {
                if is_not(a) == Some(b) || is_not(b) == Some(a) { return konst(0, w) }
                if an.op == ZExt && bn.op == ZExt && width(an.a) == width(bn.a) { let x = bin(And, an.a, bn.a); return zext(x, w) }
                if w == 1 {
                    if an.op == And && (an.a == b || an.b == b) { return a }
                    if bn.op == And && (bn.a == a || bn.b == a) { return b }
                }
            }
        }
        Or => {
            if a == b { return a }
            if let Some(k) = kb {
                if k == 0 { return a }
                if k == mask(w) { return b }
                if an.op == Or { if let Some(k2) = kval(an.b) { let c = konst(k | k2, w); return bin(Or, an.a, c) } }
            } else {
                if is_not(a) == Some(b) || is_not(b) == Some(a) { return konst(mask(w), w) }
                if w == 1 {
                    if an.op == Or && (an.a == b || an.b == b) { return a }
                    if bn.op == Or && (bn.a == a || bn.b == a) { return b }
                }
            }
            if w > 1 {
                for (x, y) in [(a, b), (b, a)] {
                    let t = tz(x);
                    if t > 0 && t < w && w <= 64 && umax(y) <= m64(t) {
                        let h = extract(x, t, w - t); let l = extract(y, 0, t); return concat(h, l);
                    }
                }
                if an.op == ZExt && bn.op == ZExt && width(an.a) == width(bn.a) { let x = bin(Or, an.a, bn.a); return zext(x, w) }
                if an.op == ZExt && bn.op == ZExt { 
                    let (wa, wb) = (width(an.a), width(bn.a)); let m = wa.max(wb);
                    let (x, y) = (zext(an.a, m), zext(bn.a, m)); let z = bin(Or, x, y); return zext(z, w) }
            }
        }
        Xor => {
            if a == b { return konst(0, w) }
            if let Some(k) = kb {
                if k == 0 { return a }
                if an.op == Xor { if let Some(k2) = kval(an.b) { let c = konst(k ^ k2, w); return bin(Xor, an.a, c) } }
                if w > 1 && an.op == ZExt && k <= mask(width(an.a)) { let kk = konst(k, width(an.a)); let x = bin(Xor, an.a, kk); return zext(x, w) }
            } else if an.op == ZExt && bn.op == ZExt && width(an.a) == width(bn.a) { let x = bin(Xor, an.a, bn.a); return zext(x, w) }
        }
        Shl => if let Some(k) = kb { return if k >= w as u128 { konst(0, w) } else { shl_c(a, k as u32) } } else if ka == Some(0) { return a },
        LShr => if let Some(k) = kb { return if k >= w as u128 { konst(0, w) } else { lshr_c(a, k as u32) } } else if ka == Some(0) { return a },
        AShr => if let Some(k) = kb {
            let k = k.min(w as u128 - 1) as u32;
            if k == 0 { return a }
            let x = extract(a, k, w - k); return sext(x, w);
        },
        Eq => return eq(a, b),
        Ult => return ult(a, b),
        Slt => return slt(a, b),
        _ => {}
    }
    raw(op, w, a, b, 0)
}
fn shl_c(a: Eid, k: u32) -> Eid { if k == 0 { return a } let w = width(a); if k >= w { return konst(0, w) } let x = extract(a, 0, w - k); let z = konst(0, k); concat(x, z) }
fn lshr_c(a: Eid, k: u32) -> Eid { if k == 0 { return a } let w = width(a); if k >= w { return konst(0, w) } let x = extract(a, k, w - k); zext(x, w) }

pub fn eq(a: Eid, b: Eid) -> Eid { cert_in(); let r = eq_r(a, b); cert_out((Eq, 1, a, b, 0), r); r }
fn eq_r(a: Eid, b: Eid) -> Eid {
    if a == b { return tru() }
    let (a, b) = if kval(a).is_some() { (b, a) } else { (a, b) };
    let w = width(a);
    let an = node(a); let bn = node(b);
    if w <= 64 { let ((l1, h1), (l2, h2)) = (rng(a), rng(b)); if h1 < l2 || h2 < l1 { return fls() } }
    if let Some(k) = kval(b) {
        if let Some(x) = kval(a) { return konst((x == k) as u128, 1) }
        if w == 1 { return if k == 1 { a } else { not(a) } }
        match an.op {
            ZExt => { let wx = width(an.a); return if k <= mask(wx) { let kk = konst(k, wx); eq(an.a, kk) } else { fls() } }
            SExt => { let wx = width(an.a); return if sx(k & mask(wx), wx) as u128 & mask(w) == k { let kk = konst(k, wx); eq(an.a, kk) } else { fls() } }
            Concat => { let wl = width(an.b); let kh = konst(k >> wl, width(an.a)); let kl = konst(k, wl); let x = eq(an.a, kh); if kval(x) == Some(0) { return x } let y = eq(an.b, kl); return bin(And, x, y) }
            Add => if let Some(k2) = kval(an.b) { let kk = konst(k.wrapping_sub(k2), w); return eq(an.a, kk) },
            Mul if w <= 64 => if let Some(c) = kval(an.b) { if c > 0 && (umax(an.a) as u128) * c <= mask(w) { if k % c != 0 { return fls() } let kk = konst(k / c, w); return eq(an.a, kk) } },
            Sub => { if let Some(k2) = kval(an.a) { let kk = konst(k2.wrapping_sub(k), w); return eq(an.b, kk) } if k == 0 { return eq(an.a, an.b) } }
            Xor => { if let Some(k2) = kval(an.b) { let kk = konst(k ^ k2, w); return eq(an.a, kk) } if k == 0 { return eq(an.a, an.b) } }
            Ite => {
                let (kt, kf) = (kval(an.b), kval(an.c));
                if kt.is_some() || kf.is_some() || leaves(a, &mut 64) {
                    let t = eq(an.b, b); let f = eq(an.c, b); return ite(an.a, t, f);
                }
            }
            And => if let Some(k2) = kval(an.b) { if k & !k2 != 0 { return fls() } },
            Or => { if let Some(k2) = kval(an.b) { if k2 & !k != 0 { return fls() } } if k == 0 { let x = eq(an.a, b); let y = eq(an.b, b); return bin(And, x, y) } }
            _ => {}
        }
    } else {
        if w == 1 { let x = bin(Xor, a, b); return not(x) }
        if an.op == ZExt && bn.op == ZExt {
            let (wa, wb) = (width(an.a), width(bn.a)); let m = wa.max(wb);
            let (x, y) = (zext(an.a, m), zext(bn.a, m)); return eq(x, y);
        }
        if an.op == SExt && bn.op == SExt && width(an.a) == width(bn.a) { return eq(an.a, bn.a) }
        if an.op == Concat && bn.op == Concat && width(an.b) == width(bn.b) { let x = eq(an.a, bn.a); let y = eq(an.b, bn.b); return bin(And, x, y) }
        if an.op == Add && bn.op == Add && an.b == bn.b { return eq(an.a, bn.a) }
        if an.op == Add && an.a == b { let z = konst(0, w); return eq(an.b, z) }
        if bn.op == Add && bn.a == a { let z = konst(0, w); return eq(bn.b, z) }
        if an.op == Ite && bn.op == Ite && an.a == bn.a { let x = eq(an.b, bn.b); let y = eq(an.c, bn.c); return ite(an.a, x, y) }
        if an.op == Ite && (an.b == b || an.c == b) { let x = eq(an.b, b); let y = eq(an.c, b); return ite(an.a, x, y) }
        if bn.op == Ite && (bn.b == a || bn.c == a) { let x = eq(bn.b, a); let y = eq(bn.c, a); return ite(bn.a, x, y) }
    }
    let (x, y) = if kval(b).is_none() && a > b { (b, a) } else { (a, b) };
    raw(Eq, 1, x, y, 0)
}
pub fn ult(a: Eid, b: Eid) -> Eid { cert_in(); let r = ult_r(a, b); cert_out((Ult, 1, a, b, 0), r); r }
fn ult_r(a: Eid, b: Eid) -> Eid {
    if a == b { return fls() }
    let w = width(a);
    if let (Some(x), Some(y)) = (kval(a), kval(b)) { return konst((x < y) as u128, 1) }
    if w <= 64 { let ((l1, h1), (l2, h2)) = (rng(a), rng(b)); if h1 < l2 { return tru() } if l1 >= h2 { return fls() } }
    let (an, bn) = (node(a), node(b));
    if w == 1 { let na = not(a); return bin(And, na, b) }
    if let Some(k) = kval(a) {
        if bn.op == Mul && w <= 64 { if let Some(c) = kval(bn.b) { if c > 0 && (umax(bn.a) as u128) * c <= mask(w) { let kk = konst(k / c, w); return ult(kk, bn.a) } } }
    }
    if let Some(k) = kval(b) {
        if k == 0 { return fls() }
        if k == 1 { let z = konst(0, w); return eq(a, z) }
        if k == mask(w) { let e = eq(a, b); return not(e) }
        if an.op == ZExt { let wx = width(an.a); if k > mask(wx) { return tru() } let kk = konst(k, wx); return ult(an.a, kk) }
        // x * c < k without overflow
        if an.op == Mul && w <= 64 { if let Some(c) = kval(an.b) { if c > 0 && (umax(an.a) as u128) * c <= mask(w) { let kk = konst(k.div_ceil(c), w); return ult(an.a, kk) } } }
        if an.op == Concat { // pow2 boundary: high part must be below
            let wl = width(an.b);
            if k & mask(wl) == 0 { let kk = konst(k >> wl, w - wl); return ult(an.a, kk) }
        }
        if ite_const(a) { return push1(a, &|x| ult(x, b)) }
    }
    if let Some(k) = kval(a) {
        if k == 0 { let z = konst(0, w); let e = eq(b, z); return not(e) }
        if k == mask(w) { return fls() }
        if bn.op == ZExt { let wx = width(bn.a); if k >= mask(wx) { return fls() } let kk = konst(k, wx); return ult(kk, bn.a) }
        if bn.op == Concat {
            let wl = width(bn.b);
            if k & mask(wl) == mask(wl) { let kk = konst(k >> wl, w - wl); return ult(kk, bn.a) }
        }
        if ite_const(b) { return push1(b, &|x| ult(a, x)) }
        // k < b  <=>  !(b < k+1)
        let kk = konst(k + 1, w); let u = ult(b, kk); return not(u);
    }
    if an.op == ZExt && bn.op == ZExt { let m = width(an.a).max(width(bn.a)); let (x, y) = (zext(an.a, m), zext(bn.a, m)); return ult(x, y) }
    raw(Ult, 1, a, b, 0)
}
pub fn ule(a: Eid, b: Eid) -> Eid { let u = ult(b, a); not(u) }
pub fn slt(a: Eid, b: Eid) -> Eid { cert_in(); let r = slt_r(a, b); cert_out((Slt, 1, a, b, 0), r); r }
fn slt_r(a: Eid, b: Eid) -> Eid {
    if a == b { return fls() }
    let w = width(a);
    if let (Some(x), Some(y)) = (kval(a), kval(b)) { return konst((sx(x, w) < sx(y, w)) as u128, 1) }
    if w == 1 { let nb = not(b); return bin(And, a, nb) }
    if w <= 64 {
        let h = 1u64 << (w - 1);
        let ((l1, h1), (l2, h2)) = (rng(a), rng(b));
        let (an, ap, bn, bp) = (l1 >= h, h1 < h, l2 >= h, h2 < h);
        if (ap && bp) || (an && bn) { return ult(a, b) }
        if an && bp { return tru() }
        if ap && bn { return fls() }
    }
    if kval(b) == Some(0) { return extract(a, w - 1, 1) }
    if let Some(k) = kval(a) { if k == mask(w) { let s = extract(b, w - 1, 1); return not(s) } }
    if kval(b).is_some() && ite_const(a) { return push1(a, &|x| slt(x, b)) }
    if kval(a).is_some() && ite_const(b) { return push1(b, &|x| slt(a, x)) }
    raw(Slt, 1, a, b, 0)
}
/// unary / conversion with result width w
pub fn un(op: Op, a: Eid, w: u32) -> Eid { cert_in(); let r = un_r(op, a, w); cert_out((op, w, a, 0, 0), r); r }
fn un_r(op: Op, a: Eid, w: u32) -> Eid {
    match op { ZExt => return zext(a, w), SExt => return sext(a, w), _ => {} }
    if let Some(k) = kval(a) { return konst(fold(op, w, width(a), 0, k, 0, 0), w) }
    if ite_const(a) { return push1(a, &|x| un(op, x, w)) }
    // ceil(u_a / u_b) as unsigned, both converted from <=32-bit integers to f64: exact integer
    // ceiling division.  |a/b - n| >= 1/b for every integer n != a/b, while the rounding error
    // of the f64 quotient is < 2^-20/b, so ceil/floor/trunc of the rounded quotient are exact.
    if op == FPToUI {
        let n = node(a);
        if matches!(n.op, FCeil | FFloor | FTrunc) {
            let d = node(n.a);
            if d.op == FDiv && d.w == 64 {
                if let (Some(x), Some(y)) = (int_of_fp(d.a), int_of_fp(d.b)) {
                    let z = konst(0, 64); let one = konst(1, 64);
                    let y0 = eq(y, z); let x0 = eq(x, z);
                    let ys = ite(y0, one, y);
                    let q = bin(UDiv, x, ys);
                    let r = if n.op == FCeil { let m = bin(URem, x, ys); let mz = eq(m, z); let q1 = bin(Add, q, one); ite(mz, q, q1) } else { q };
                    let inf = ite(x0, z, konst(mask(64), 64));
                    let r = ite(y0, inf, r);
                    if w == 64 { return r }
                    let big = konst(mask(w), 64);
                    let ov = ult(big, r);
                    let t = if w < 64 { extract(r, 0, w) } else { zext(r, w) };
                    return if w < 64 { let m = konst(mask(w), w); ite(ov, m, t) } else { t };
                }
            }
        }
        if let Some(x) = int_of_fp(a) { if node(a).w == 64 {
            if w == 64 { return x }
            if w < 64 { let big = konst(mask(w), 64); let ov = ult(big, x); let t = extract(x, 0, w); let m = konst(mask(w), w); return ite(ov, m, t) }
        } }
    }
    raw(op, w, a, 0, 0)
}
fn int_of_fp(e: Eid) -> Option<Eid> {
    let n = node(e);
    if n.w != 64 { return None }
    if n.op == UIToFP { let s = n.a; let ws = width(s); if ws <= 32 || (ws <= 64 && umax(s) <= u32::MAX as u64) { return Some(if ws <= 64 { zext(s, 64) } else { return None }) } }
    if let Some(k) = kval(e) { let f = f64::from_bits(k as u64); if f >= 0.0 && f.fract() == 0.0 && f <= u32::MAX as f64 && !(f == 0.0 && f.is_sign_negative()) { return Some(konst(f as u128, 64)) } }
    None
}
pub fn fbin(op: Op, a: Eid, b: Eid) -> Eid { cert_in(); let r = fbin_r(op, a, b); cert_out((op, if matches!(op, FOEq | FOLt | FOLe | FUno) { 1 } else { width(a) }, a, b, 0), r); r }
fn fbin_r(op: Op, a: Eid, b: Eid) -> Eid {
    let w = width(a);
    let rw = if matches!(op, FOEq | FOLt | FOLe | FUno) { 1 } else { w };
    if let (Some(x), Some(y)) = (kval(a), kval(b)) { return konst(fold(op, rw, w, 0, x, y, 0), rw) }
    raw(op, rw, a, b, 0)
}

pub fn show(e: Eid, depth: u32) -> String {
    let n = node(e);
    match n.op {
        Const => format!("{:#x}:{}", kval(e).unwrap(), n.w),
        Var => format!("v{}", n.a),
        _ if depth == 0 => format!("#{e}"),
        Extract => format!("(ext {} {}+{})", show(n.a, depth - 1), n.b, n.w),
        _ => match arity(n.op) {
            1 => format!("({:?}{} {})", n.op, n.w, show(n.a, depth - 1)),
            2 => format!("({:?} {} {})", n.op, show(n.a, depth - 1), show(n.b, depth - 1)),
            _ => format!("({:?} {} {} {})", n.op, show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        },
    }
}

// ---------- simplification under path constraints ----------
/// What the constraints of a path say directly: terms equal to constants and ranges of terms.
#[derive(Default)]
pub struct Facts { eqs: HashMap<Eid, Eid, Fx>, iv: HashMap<Eid, (u64, u64), Fx> }
impl Facts {
    pub fn of(cons: &[Eid]) -> Facts { let mut f = Facts::default(); for &c in cons { f.add(c) } f }
    fn lo(&mut self, e: Eid, k: u64) { let r = self.iv.entry(e).or_insert(rng(e)); if k > r.0 { r.0 = k } }
    fn hi(&mut self, e: Eid, k: u64) { let r = self.iv.entry(e).or_insert(rng(e)); if k < r.1 { r.1 = k } }
    fn add(&mut self, c: Eid) {
        if kval(c).is_some() { return }
        let n = node(c);
        self.eqs.insert(c, tru());
        if let Some(x) = is_not(c) {
            self.eqs.insert(x, fls());
            let m = node(x);
            if m.op == Ult && width(m.a) <= 64 {
                if let Some(k) = kval(m.b) { self.lo(m.a, k as u64) }
                if let Some(k) = kval(m.a) { self.hi(m.b, k as u64) }
            }
            if m.op == Or && m.w == 1 { let (a, b) = (not(m.a), not(m.b)); self.add(a); self.add(b) }
            return
        }
        match n.op {
            Eq => { if kval(n.b).is_some() { self.eqs.insert(n.a, n.b); } else if kval(n.a).is_some() { self.eqs.insert(n.b, n.a); } }
            Ult if width(n.a) <= 64 => {
                if let Some(k) = kval(n.b) { if k > 0 { self.hi(n.a, k as u64 - 1) } }
                if let Some(k) = kval(n.a) { if (k as u64) < u64::MAX { self.lo(n.b, k as u64 + 1) } }
            }
            And if n.w == 1 => { self.add(n.a); self.add(n.b) }
            _ => {}
        }
    }
    fn range(&self, e: Eid) -> (u64, u64) {
        let s = rng(e);
        if let Some(&(a, b)) = self.iv.get(&e) { return (a.max(s.0), b.min(s.1)) }
        let n = node(e);
        if n.op == ZExt && width(n.a) <= 64 { let t = self.range(n.a); return (t.0.max(s.0), t.1.min(s.1)) }
        s
    }
    /// an equivalent of `e` on this path (unchanged when the term is too large)
    pub fn simp(&self, e: Eid) -> Eid {
        let mut memo: HashMap<Eid, Eid, Fx> = HashMap::default();
        let mut budget = 1500;
        self.go(e, &mut memo, &mut budget).unwrap_or(e)
    }
    fn go(&self, e: Eid, memo: &mut HashMap<Eid, Eid, Fx>, budget: &mut i32) -> Option<Eid> {
        if kval(e).is_some() { return Some(e) }
        if let Some(&k) = self.eqs.get(&e) { return Some(k) }
        if let Some(&r) = memo.get(&e) { return Some(r) }
        *budget -= 1;
        if *budget < 0 { return None }
        let n = node(e);
        let w = n.w as u32;
        let r = match n.op {
            Const | Var => e,
            Ite => {
                let c = self.go(n.a, memo, budget)?;
                match kval(c) { Some(k) => self.go(if k != 0 { n.b } else { n.c }, memo, budget)?, None => { let t = self.go(n.b, memo, budget)?; let f = self.go(n.c, memo, budget)?; if (c, t, f) == (n.a, n.b, n.c) { e } else { ite(c, t, f) } } }
            }
            Extract => { let a = self.go(n.a, memo, budget)?; if a == n.a { e } else { extract(a, n.b, w) } }
            op if arity(op) == 1 => { let a = self.go(n.a, memo, budget)?; if a == n.a { e } else { un(op, a, w) } }
            op => {
                let a = self.go(n.a, memo, budget)?; let b = self.go(n.b, memo, budget)?;
                let dec = if width(a) <= 64 { match op {
                    Ult => { let (x, y) = (self.range(a), self.range(b)); if x.1 < y.0 { Some(tru()) } else if x.0 >= y.1 { Some(fls()) } else { None } }
                    Eq => { let (x, y) = (self.range(a), self.range(b)); if x.1 < y.0 || y.1 < x.0 { Some(fls()) } else { None } }
                    _ => None,
                } } else { None };
                if let Some(d) = dec { d } else if (a, b) == (n.a, n.b) { e } else {
                    match op { Concat => concat(a, b), Eq => eq(a, b), Ult => ult(a, b), Slt => slt(a, b), op if is_fp(op) => fbin(op, a, b), op => bin(op, a, b) }
                }
            }
        };
        memo.insert(e, r);
        Some(if let Some(&k) = self.eqs.get(&r) { k } else { r })
    }
}
