//! Parser for textual LLVM IR (the subset rustc emits), producing a compact executable form.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { I(u64), E(Eid), Agg(Rc<Vec<Val>>) }
impl Val { pub fn k(&self) -> Option<u64> { if let Val::I(x) = self { Some(*x) } else { None } } }
pub fn from_e(e: Eid) -> Val { let n = node(e); if n.op == Op::Const && n.w <= 64 { Val::I(kval(e).unwrap() as u64) } else { Val::E(e) } }
pub fn to_e(v: &Val, w: u32) -> Eid { match v { Val::I(x) => konst(*x as u128, w), Val::E(e) => *e, Val::Agg(a) => { // vector bits
    let mut r: Option<Eid> = None; let ew = w / a.len() as u32; for x in a.iter() { let e = to_e(x, ew); r = Some(match r { None => e, Some(l) => concat(e, l) }) } r.unwrap() } } }

pub type Ty = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK { Void, Int(u32), F32, F64, Ptr, Arr(u64, Ty), Vec(u64, Ty), Struct(Vec<Ty>, bool), Other }

#[derive(Default)]
pub struct Types { pub k: Vec<TyK>, m: HashMap<TyK, Ty>, lay: Vec<(u64, u64)>, offs: Vec<Rc<Vec<u64>>> }
impl Types {
    pub fn get(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.m.get(&k) { return t }
        let al = |x: u64, a: u64| x.div_ceil(a) * a;
        let mut offs = vec![];
        let lay = match &k {
            TyK::Void | TyK::Other => (0, 1),
            TyK::Int(w) => { let s = match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => al((*w as u64).div_ceil(8), 16) }; (s, s.min(16)) }
            TyK::F32 => (4, 4), TyK::F64 | TyK::Ptr => (8, 8),
            TyK::Arr(n, t) => { let (s, a) = self.lay[*t as usize]; (s * n, a) }
            TyK::Vec(n, t) => { let s = if let TyK::Int(1) = self.k[*t as usize] { n.div_ceil(8) } else { self.lay[*t as usize].0 * n }; (s.next_power_of_two(), s.next_power_of_two()) }
            TyK::Struct(fs, packed) => {
                let (mut o, mut a) = (0u64, 1u64);
                for f in fs { let (s, fa) = self.lay[*f as usize]; let fa = if *packed { 1 } else { fa }; o = al(o, fa); offs.push(o); o += s; a = a.max(fa); }
                (al(o, a), a)
            }
        };
        let id = self.k.len() as Ty;
        self.k.push(k.clone()); self.lay.push(lay); self.offs.push(Rc::new(offs)); self.m.insert(k, id);
        id
    }
    pub fn size(&self, t: Ty) -> u64 { self.lay[t as usize].0 }
    pub fn offs(&self, t: Ty) -> Rc<Vec<u64>> { self.offs[t as usize].clone() }
    /// scalar bit width (ints, floats, pointers), 0 otherwise
    pub fn bits(&self, t: Ty) -> u32 { match &self.k[t as usize] { TyK::Int(w) => *w, TyK::F32 => 32, TyK::F64 | TyK::Ptr => 64, _ => 0 } }
    pub fn elem(&self, t: Ty) -> Option<(u64, Ty)> { match &self.k[t as usize] { TyK::Vec(n, e) => Some((*n, *e)), _ => None } }
}

pub type O = i32; // >=0 register, <0 constant !x
pub type R = u32;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(Rc<str>), Ind(O), Asm(Rc<str>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, BitCast, F(Op) }
#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Op, w: u32, a: O, b: O, d: R, n: u32 },
    FBin { op: Op, a: O, b: O, d: R, w: u32, n: u32 },
    FNeg { a: O, d: R, w: u32 },
    Icmp { p: Pred, w: u32, a: O, b: O, d: R, n: u32 },
    Fcmp { p: Rc<str>, w: u32, a: O, b: O, d: R },
    Cast { c: Cast, fw: u32, tw: u32, a: O, d: R, fty: Ty, tty: Ty },
    Select { c: O, a: O, b: O, d: R, ty: Ty, vc: bool },
    Alloca { size: u64, n: Option<O>, d: R },
    Load { ty: Ty, p: O, d: R },
    Store { ty: Ty, v: O, p: O },
    Gep { base: O, off: u64, idx: Vec<(O, u32, u64)>, d: R },
    Call { f: Callee, args: Vec<(O, Ty)>, d: Option<R>, ret: Ty },
    ExtractV { a: O, idx: Vec<u32>, d: R },
    InsertV { a: O, b: O, idx: Vec<u32>, d: R },
    ExtractE { a: O, i: O, d: R },
    InsertE { a: O, b: O, i: O, d: R },
    Shuffle { a: O, b: O, mask: Vec<Option<u32>>, d: R, na: u32 },
    Rmw { op: Rc<str>, p: O, v: O, ty: Ty, d: R },
    CmpXchg { p: O, c: O, n: O, ty: Ty, d: R },
    Nop,
    Copy { a: O, d: R },
    Br(u32), CondBr(O, u32, u32), Switch { w: u32, v: O, cases: Vec<(u64, u32)>, def: u32 }, Ret(Option<O>), Unreachable,
}
pub struct Block { pub phis: Vec<(R, Ty)>, pub inc: Vec<(u32, Vec<O>)>, pub ins: Vec<Ins> }
pub struct Func { pub id: u32, pub name: Rc<str>, pub dem: Rc<str>, pub params: Vec<R>, pub nreg: u32, pub consts: Vec<Val>, pub blocks: Vec<Block>, pub ret: Ty }
pub struct FDecl { pub name: Rc<str>, pub dem: Rc<str>, pub header: usize, pub body: Option<(usize, usize)>, pub parsed: Option<Rc<Func>> }
pub struct GDecl { pub name: Rc<str>, pub ro: bool, pub ty: Ty, pub init: Option<Vec<u8>>, pub size: u64 }

pub const FBASE: u64 = 0x2000_0000;
pub struct Module {
    text: &'static str, lines: Vec<(usize, usize)>,
    pub ty: Types, pub funcs: Vec<FDecl>, pub fmap: HashMap<Rc<str>, u32>, pub globals: Vec<GDecl>, pub gmap: HashMap<Rc<str>, u64>, alias: HashMap<Rc<str>, Rc<str>>,
}

#[derive(Clone, Debug, PartialEq)]
enum T { Id(&'static str), Loc(&'static str), Glob(&'static str), Num(&'static str), Str(Vec<u8>), P(char), Meta, Attr }

fn lex(s: &'static str, stop_meta: bool) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0; let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => { i += 1 }
            b';' => { // comment to end of line
                while i < b.len() && b[i] != b'\n' { i += 1 } }
            b'%' | b'@' => {
                let (st, en);
                if b.get(i + 1) == Some(&b'"') { st = i + 2; let mut j = st; while b[j] != b'"' { j += 1 } en = j; i = j + 1; }
                else { st = i + 1; let mut j = st; while j < b.len() && idc(b[j]) { j += 1 } en = j; i = j; }
                out.push(if c == b'%' { T::Loc(&s[st..en]) } else { T::Glob(&s[st..en]) });
            }
            b'"' => { let (v, n) = lstr(&b[i + 1..]); out.push(T::Str(v)); i += n + 2; }
            b'!' => { if stop_meta && out.last() == Some(&T::P(',')) { out.pop(); break }
                i += 1; while i < b.len() && (idc(b[i])) { i += 1 }
                if i < b.len() && b[i] == b'{' { while i < b.len() && b[i] != b'}' { i += 1 } i += 1 }
                out.push(T::Meta) }
            b'#' => { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1 } out.push(T::Attr) }
            b'0'..=b'9' | b'-' => { let st = i; i += 1; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e'))) { i += 1 } out.push(T::Num(&s[st..i])) }
            b'.' if s[i..].starts_with("...") => { i += 3; out.push(T::Id("...")) }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                if c == b'c' && b.get(i + 1) == Some(&b'"') { let (v, n) = lstr(&b[i + 2..]); out.push(T::Str(v)); i += n + 3; continue }
                let st = i; while i < b.len() && idc(b[i]) { i += 1 }
                out.push(T::Id(&s[st..i]))
            }
            _ => { out.push(T::P(c as char)); i += 1 }
        }
    }
    out
}
fn lstr(b: &[u8]) -> (Vec<u8>, usize) {
    let mut v = vec![]; let mut i = 0;
    while b[i] != b'"' {
        if b[i] == b'\\' { if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue } let h = |c: u8| (c as char).to_digit(16).unwrap() as u8; v.push(h(b[i + 1]) * 16 + h(b[i + 2])); i += 3 } else { v.push(b[i]); i += 1 }
    }
    (v, i)
}

struct Cur<'a> { t: &'a [T], i: usize }
impl<'a> Cur<'a> {
    fn peek(&self) -> Option<&'a T> { self.t.get(self.i) }
    fn next(&mut self) -> &'a T { let t = &self.t[self.i]; self.i += 1; t }
    fn is(&self, c: char) -> bool { matches!(self.peek(), Some(T::P(x)) if *x == c) }
    fn eat(&mut self, c: char) -> bool { if self.is(c) { self.i += 1; true } else { false } }
    fn expect(&mut self, c: char) { if !self.eat(c) { panic!("expected {c:?} at {} in {:?}", self.i, self.t) } }
    fn eat_id(&mut self, s: &str) -> bool { if matches!(self.peek(), Some(T::Id(x)) if *x == s) { self.i += 1; true } else { false } }
    fn id(&self) -> Option<&'static str> { if let Some(T::Id(x)) = self.peek() { Some(x) } else { None } }
    fn skip_paren(&mut self) { self.expect('('); let mut d = 1; while d > 0 { match self.next() { T::P('(') => d += 1, T::P(')') => d -= 1, _ => {} } } }
}
fn is_value_start(t: &T) -> bool {
    match t {
        T::Loc(_) | T::Glob(_) | T::Num(_) | T::Str(_) | T::Meta => true,
        T::P('[') | T::P('{') | T::P('<') => true,
        T::Id(s) => matches!(*s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "inttoptr" | "ptrtoint" | "getelementptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "asm" | "splat" | "addrspacecast" | "ptrtoaddr"),
        _ => false,
    }
}
fn skip_attrs(c: &mut Cur) {
    loop {
        match c.peek() {
            Some(t) if is_value_start(t) => return,
            Some(T::Id("align")) => { c.i += 1; if c.is('(') { c.skip_paren() } else { c.i += 1 } }
            Some(T::Id(_)) => { c.i += 1; if c.is('(') { c.skip_paren() } }
            Some(T::Str(_)) => { c.i += 1; if c.eat('=') { c.i += 1 } }
            Some(T::Attr) => c.i += 1,
            _ => return,
        }
    }
}
fn is_type_start(s: &str) -> bool { matches!(s, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "label" | "token" | "bfloat" | "fp128") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())) }

pub enum Kon { V(Val), Reg(&'static str) }

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut lines = vec![]; let mut st = 0;
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push((st, i)); st = i + 1 } }
        if st < text.len() { lines.push((st, text.len())) }
        let mut m = Module { text, lines, ty: Types::default(), funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), alias: HashMap::new() };
        m.ty.get(TyK::Void);
        let mut dem: &'static str = ""; let mut glines = vec![];
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i);
            if let Some(r) = l.strip_prefix("; ") { if !r.starts_with("Function Attrs") && !r.starts_with("ModuleID") { dem = r } }
            else if l.starts_with("define ") || l.starts_with("declare ") {
                let name = fname(l);
                let id = m.funcs.len() as u32;
                let mut body = None; let hdr = i;
                if l.starts_with("define ") { let s = i + 1; while m.line(i) != "}" { i += 1 } body = Some((s, i)); }
                let nm: Rc<str> = name.into();
                let d: Rc<str> = if dem.is_empty() { nm.clone() } else { dem.into() };
                m.funcs.push(FDecl { name: nm.clone(), dem: d, header: hdr, body, parsed: None });
                m.fmap.insert(nm, id); dem = "";
            } else if l.starts_with('@') { glines.push(i); dem = "" }
            else if l.is_empty() { dem = "" }
            i += 1;
        }
        // first pass: names, types and addresses of globals
        let mut defs = vec![];
        for gi in glines {
            let toks: &'static [T] = Box::leak(lex(m.line(gi), true).into_boxed_slice());
            let mut c = Cur { t: toks, i: 0 };
            let name: Rc<str> = if let T::Glob(n) = c.next() { (*n).into() } else { panic!() };
            c.expect('=');
            let mut ro = false; let mut ext = false; let mut al = false;
            loop { match c.next() { T::Id("constant") => { ro = true; break } T::Id("global") => break, T::Id("alias") => { al = true; break } T::Id("external") | T::Id("extern_weak") => ext = true, T::P('(') => { c.i -= 1; c.skip_paren() } _ => {} } }
            let ty = m.ptype(&mut c);
            if al { c.expect(','); let _ = m.ptype(&mut c); if let T::Glob(n) = c.next() { m.alias.insert(name, (*n).into()); } continue }
            let size = m.ty.size(ty);
            let id = m.globals.len() as u64 + 1;
            m.globals.push(GDecl { name: name.clone(), ro, ty, init: None, size });
            m.gmap.insert(name, id << 32);
            defs.push((id as usize - 1, toks, c.i, ext));
        }
        for (gi, toks, pos, ext) in defs {
            let ty = m.globals[gi].ty; let sz = m.globals[gi].size as usize;
            let mut buf = vec![0u8; sz];
            if !ext { let mut c = Cur { t: toks, i: pos }; m.init_bytes(&mut c, ty, &mut buf, 0); }
            m.globals[gi].init = Some(buf);
        }
        m
    }
    pub fn line(&self, i: usize) -> &'static str { let (a, b) = self.lines[i]; &self.text[a..b] }
    pub fn faddr(&self, n: &str) -> Option<u64> { self.fmap.get(n).map(|&i| (FBASE + i as u64) << 32) }
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(&a) = self.gmap.get(n) { return a }
        if let Some(a) = self.faddr(n) { return a }
        if let Some(t) = self.alias.get(n) { let t = t.clone(); return self.addr_of(&t) }
        panic!("unknown global @{n}")
    }
    fn ptype(&mut self, c: &mut Cur) -> Ty {
        let k = match c.next() {
            T::Id(s) => match *s { "ptr" => TyK::Ptr, "void" => TyK::Void, "float" => TyK::F32, "double" => TyK::F64,
                "metadata" | "label" | "token" | "half" | "bfloat" | "fp128" | "x86_fp80" => TyK::Other,
                s if s.starts_with('i') => TyK::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s} in {:?}", c.t))), s => panic!("type {s} in {:?}", c.t) },
            T::P('[') => { let n = self.num(c); assert!(c.eat_id("x")); let t = self.ptype(c); c.expect(']'); TyK::Arr(n, t) }
            T::P('{') => { let mut v = vec![]; if !c.eat('}') { loop { v.push(self.ptype(c)); if c.eat('}') { break } c.expect(',') } } TyK::Struct(v, false) }
            T::P('<') => if c.eat('{') { let mut v = vec![]; if !c.eat('}') { loop { v.push(self.ptype(c)); if c.eat('}') { break } c.expect(',') } } c.expect('>'); TyK::Struct(v, true) }
                else { let n = self.num(c); assert!(c.eat_id("x")); let t = self.ptype(c); c.expect('>'); TyK::Vec(n, t) },
            t => panic!("type tok {t:?} at {} in {:?}", c.i, c.t),
        };
        if c.is('(') && matches!(k, TyK::Ptr) && false { }
        self.ty.get(k)
    }
    fn num(&self, c: &mut Cur) -> u64 { match c.next() { T::Num(s) => s.parse::<i128>().unwrap() as u64, t => panic!("num {t:?}") } }

    /// constant of type ty
    fn pconst(&mut self, c: &mut Cur, ty: Ty) -> Val {
        let k = self.ty.k[ty as usize].clone();
        match c.next() {
            T::Num(s) => match k {
                TyK::Int(w) => { if let Some(h) = s.strip_prefix("0x") { let v = u128::from_str_radix(h, 16).unwrap(); return from_e(konst(v, w)) }
                    let v: u128 = if s.starts_with('-') { s.parse::<i128>().unwrap() as u128 } else { s.parse::<u128>().unwrap() }; from_e(konst(v, w)) }
                TyK::F64 => Val::I(if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }),
                TyK::F32 => { let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() }; Val::I((d as f32).to_bits() as u64) }
                _ => panic!("num const of {k:?}"),
            },
            T::Id("true") => Val::I(1), T::Id("false") => Val::I(0),
            T::Id("null") => Val::I(0),
            T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") | T::Id("none") => self.zero(ty),
            T::Id(s) if s.starts_with("f0x") => { let v = u64::from_str_radix(&s[3..], 16).unwrap(); Val::I(v) }
            T::Id(s @ ("nan" | "pnan" | "inf" | "pinf" | "ninf" | "qnan")) => { let d = match *s { "inf" | "pinf" => f64::INFINITY, "ninf" => f64::NEG_INFINITY, _ => f64::NAN }; if matches!(k, TyK::F32) { Val::I((d as f32).to_bits() as u64) } else { Val::I(d.to_bits()) } }
            T::P('+') => self.pconst(c, ty),
            T::Glob(n) => Val::I(self.addr_of(n)),
            T::Id("splat") => { c.expect('('); let t = self.ptype(c); let v = self.pconst(c, t); c.expect(')'); let n = self.ty.elem(ty).unwrap().0; Val::Agg(Rc::new(vec![v; n as usize])) }
            T::Id(s @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast")) => { let _ = s; c.expect('('); let t = self.ptype(c); let v = self.pconst(c, t); assert!(c.eat_id("to")); let t2 = self.ptype(c); c.expect(')'); let w = self.ty.bits(t2); match v { Val::I(x) => Val::I(x & m64(w)), v => v } }
            T::Id("getelementptr") => {
                while c.id().is_some_and(|s| matches!(s, "inbounds" | "nuw" | "nusw" | "inrange")) { let r = c.id() == Some("inrange"); c.i += 1; if r && c.is('(') { c.skip_paren() } }
                c.expect('('); let t = self.ptype(c); c.expect(','); let pt = self.ptype(c); let base = self.pconst(c, pt).k().unwrap();
                let mut off = 0u64; let mut cur = t; let mut first = true;
                while c.eat(',') { let _ = c.eat_id("inrange"); let it = self.ptype(c); let w = self.ty.bits(it); let v = self.pconst(c, it).k().unwrap(); let v = sx(v as u128, w) as u64; off = off.wrapping_add(self.gep_step(&mut cur, &mut first, v)); }
                c.expect(')'); Val::I(base.wrapping_add(off))
            }
            T::Id(s @ ("add" | "sub" | "xor")) => {
                while c.id().is_some_and(|s| matches!(s, "nsw" | "nuw")) { c.i += 1 }
                c.expect('('); let t = self.ptype(c); let a = self.pconst(c, t).k().unwrap(); c.expect(','); let t2 = self.ptype(c); let b = self.pconst(c, t2).k().unwrap(); c.expect(')');
                let w = self.ty.bits(t); Val::I(match *s { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & m64(w))
            }
            T::Str(v) => Val::Agg(Rc::new(v.iter().map(|&b| Val::I(b as u64)).collect())),
            T::P('<') => { let pk = c.eat('{'); let end = if pk { '}' } else { '>' }; let mut v = vec![]; if !c.is(end) { loop { let t = self.ptype(c); v.push(self.pconst(c, t)); if !c.eat(',') { break } } } c.expect(end); if pk { c.expect('>') } Val::Agg(Rc::new(v)) }
            T::P('[') => { let mut v = vec![]; if !c.is(']') { loop { let t = self.ptype(c); v.push(self.pconst(c, t)); if !c.eat(',') { break } } } c.expect(']'); Val::Agg(Rc::new(v)) }
            T::P('{') => { let mut v = vec![]; if !c.is('}') { loop { let t = self.ptype(c); v.push(self.pconst(c, t)); if !c.eat(',') { break } } } c.expect('}'); Val::Agg(Rc::new(v)) }
            t => panic!("const {t:?} of {k:?} in {:?}", c.t),
        }
    }
    pub fn zero(&mut self, ty: Ty) -> Val {
        match self.ty.k[ty as usize].clone() {
            TyK::Arr(n, t) | TyK::Vec(n, t) => { let z = self.zero(t); Val::Agg(Rc::new(vec![z; n as usize])) }
            TyK::Struct(fs, _) => { let v = fs.iter().map(|&f| self.zero(f)).collect(); Val::Agg(Rc::new(v)) }
            TyK::Int(w) if w > 64 => from_e(konst(0, w)),
            _ => Val::I(0),
        }
    }
    fn gep_step(&self, cur: &mut Ty, first: &mut bool, v: u64) -> u64 {
        if *first { *first = false; return v.wrapping_mul(self.ty.size(*cur)) }
        match self.ty.k[*cur as usize].clone() {
            TyK::Arr(_, t) | TyK::Vec(_, t) => { *cur = t; v.wrapping_mul(self.ty.size(t)) }
            TyK::Struct(fs, _) => { let o = self.ty.offs(*cur)[v as usize]; *cur = fs[v as usize]; o }
            k => panic!("gep into {k:?}"),
        }
    }
    fn init_bytes(&mut self, c: &mut Cur, ty: Ty, buf: &mut [u8], at: usize) {
        let k = self.ty.k[ty as usize].clone();
        match (&k, c.peek()) {
            (_, Some(T::Id("zeroinitializer" | "undef" | "poison"))) => { c.i += 1 }
            (TyK::Arr(..), Some(T::Str(s))) => { c.i += 1; buf[at..at + s.len()].copy_from_slice(s) }
            (TyK::Arr(_, _), Some(T::P('['))) => { c.i += 1; let mut o = at; if !c.is(']') { loop { let t = self.ptype(c); self.init_bytes(c, t, buf, o); o += self.ty.size(t) as usize; if !c.eat(',') { break } } } c.expect(']') }
            (TyK::Struct(_, pk), _) => { if *pk { c.expect('<') } c.expect('{'); let offs = self.ty.offs(ty); let mut i = 0; if !c.is('}') { loop { let t = self.ptype(c); self.init_bytes(c, t, buf, at + offs[i] as usize); i += 1; if !c.eat(',') { break } } } c.expect('}'); if *pk { c.expect('>') } }
            _ => { let v = self.pconst(c, ty); self.put(&v, ty, buf, at) }
        }
    }
    fn put(&self, v: &Val, ty: Ty, buf: &mut [u8], at: usize) {
        match (v, self.ty.k[ty as usize].clone()) {
            (Val::Agg(a), TyK::Arr(_, t) | TyK::Vec(_, t)) => for (i, x) in a.iter().enumerate() { self.put(x, t, buf, at + i * self.ty.size(t) as usize) },
            (Val::I(x), _) => { let n = self.ty.size(ty) as usize; buf[at..at + n].copy_from_slice(&x.to_le_bytes()[..n]) }
            (Val::E(e), _) => { let x = kval(*e).unwrap(); let n = self.ty.size(ty) as usize; buf[at..at + n].copy_from_slice(&x.to_le_bytes()[..n]) }
            _ => panic!("put"),
        }
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].parsed { return f.clone() }
        let f = Rc::new(self.parse_func(id));
        self.funcs[id as usize].parsed = Some(f.clone());
        f
    }
    fn parse_func(&mut self, id: u32) -> Func {
        let hdr = self.line(self.funcs[id as usize].header);
        let (s, e) = self.funcs[id as usize].body.expect("no body");
        let toks = lex(hdr, true);
        let mut c = Cur { t: &toks, i: 1 };
        // skip linkage etc up to the return type
        loop { match c.peek().unwrap() { T::Id(s) if is_type_start(s) => break, T::P('{') | T::P('[') | T::P('<') => break, T::Id("align") => { c.i += 2 } T::Id(_) => { c.i += 1; if c.is('(') { c.skip_paren() } } t => panic!("hdr {t:?}") } }
        let ret = self.ptype(&mut c);
        c.i += 1; c.expect('(');
        let mut b = FB { regs: HashMap::new(), consts: vec![], cmap: HashMap::new() };
        let mut params = vec![]; let mut unnamed = 0;
        if !c.is(')') { loop { if c.eat_id("...") { break } let _ = self.ptype(&mut c); skip_attrs(&mut c); if let Some(T::Loc(n)) = c.peek() { c.i += 1; if n.bytes().all(|x| x.is_ascii_digit()) { unnamed += 1 } params.push(b.reg(n)) } if !c.eat(',') { break } } }
        // blocks: first find labels
        let mut labels: HashMap<&'static str, u32> = HashMap::new();
        let mut blines: Vec<Vec<usize>> = vec![];
        for i in s..e {
            let l = self.line(i);
            if l.is_empty() { continue }
            if !l.starts_with(' ') && !l.starts_with(';') {
                let lab = if let Some(q) = l.strip_prefix('"') { &q[..q.find('"').unwrap()] } else { &l[..l.find(':').unwrap()] };
                labels.insert(lab, blines.len() as u32); blines.push(vec![]); continue
            }
            if l.starts_with(';') || l.trim_start().starts_with(';') { continue }
            if blines.is_empty() { let nm: &'static str = Box::leak(format!("{unnamed}").into_boxed_str()); labels.insert(nm, 0); blines.push(vec![]) }
            blines.last_mut().unwrap().push(i);
        }
        let mut blocks = vec![];
        for bl in &blines {
            let mut blk = Block { phis: vec![], inc: vec![], ins: vec![] };
            let mut j = 0;
            while j < bl.len() {
                let mut txt = self.line(bl[j]).trim_start();
                j += 1;
                // multi-line instructions
                if txt.starts_with("switch ") && !txt.contains(']') { let st = self.lines[bl[j - 1]].0; while !self.line(bl[j]).trim_start().starts_with(']') { j += 1 } let en = self.lines[bl[j]].1; j += 1; txt = &self.text[st..en]; txt = txt.trim_start(); }
                else if txt.contains("invoke ") && (txt.starts_with("invoke") || txt.contains("= invoke")) { let st = self.lines[bl[j - 1]].0; let en = self.lines[bl[j]].1; j += 1; txt = self.text[st..en].trim_start(); }
                else if txt.contains("= landingpad") { while j < bl.len() && (self.line(bl[j]).trim_start().starts_with("cleanup") || self.line(bl[j]).trim_start().starts_with("catch") || self.line(bl[j]).trim_start().starts_with("filter")) { j += 1 } blk.ins.push(Ins::Unreachable); continue }
                self.parse_ins(txt, &mut b, &labels, &mut blk);
            }
            blocks.push(blk);
        }
        Func { id, name: self.funcs[id as usize].name.clone(), dem: self.funcs[id as usize].dem.clone(), params, nreg: b.regs.len() as u32, consts: b.consts, blocks, ret }
    }
    fn oper(&mut self, c: &mut Cur, b: &mut FB, ty: Ty) -> O {
        if let Some(T::Loc(n)) = c.peek() { c.i += 1; return b.reg(n) as O }
        let v = self.pconst(c, ty);
        b.konst(v)
    }
    fn tyop(&mut self, c: &mut Cur, b: &mut FB) -> (Ty, O) { let t = self.ptype(c); skip_attrs(c); let o = self.oper(c, b, t); (t, o) }
    fn parse_ins(&mut self, txt: &'static str, b: &mut FB, labels: &HashMap<&'static str, u32>, blk: &mut Block) {
        let toks = lex(txt, !txt.starts_with("switch") && !txt.contains("invoke "));
        let mut c = Cur { t: &toks, i: 0 };
        let mut d: Option<R> = None;
        if let (Some(T::Loc(n)), Some(T::P('='))) = (toks.first(), toks.get(1)) { d = Some(b.reg(n)); c.i = 2 }
        let lab = |c: &mut Cur| -> u32 { assert!(c.eat_id("label")); if let T::Loc(n) = c.next() { labels[n] } else { panic!() } };
        let mut op = c.id().unwrap_or_else(|| panic!("ins {txt}")); c.i += 1;
        if matches!(op, "tail" | "musttail" | "notail") { op = c.id().unwrap(); c.i += 1 }
        let skipf = |c: &mut Cur| while c.id().is_some_and(|s| matches!(s, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "inbounds" | "nusw")) { c.i += 1 };
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                skipf(&mut c); let (t, a) = self.tyop(&mut c, b); c.expect(','); let bb = self.oper(&mut c, b, t);
                let (n, et) = self.ty.elem(t).unwrap_or((0, t));
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                Ins::Bin { op: o, w: self.ty.bits(et), a, b: bb, d: d.unwrap(), n: n as u32 }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skipf(&mut c); let (t, a) = self.tyop(&mut c, b); c.expect(','); let bb = self.oper(&mut c, b, t);
                let (n, et) = self.ty.elem(t).unwrap_or((0, t));
                let o = match op { "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, _ => Op::FRem };
                Ins::FBin { op: o, a, b: bb, d: d.unwrap(), w: self.ty.bits(et), n: n as u32 }
            }
            "fneg" => { skipf(&mut c); let (t, a) = self.tyop(&mut c, b); Ins::FNeg { a, d: d.unwrap(), w: self.ty.bits(t) } }
            "icmp" => {
                skipf(&mut c);
                let p = match c.id().unwrap() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, s => panic!("{s}") }; c.i += 1;
                let (t, a) = self.tyop(&mut c, b); c.expect(','); let bb = self.oper(&mut c, b, t);
                let (n, et) = self.ty.elem(t).unwrap_or((0, t));
                Ins::Icmp { p, w: self.ty.bits(et), a, b: bb, d: d.unwrap(), n: n as u32 }
            }
            "fcmp" => { skipf(&mut c); let p: Rc<str> = c.id().unwrap().into(); c.i += 1; let (t, a) = self.tyop(&mut c, b); c.expect(','); let bb = self.oper(&mut c, b, t); Ins::Fcmp { p, w: self.ty.bits(t), a, b: bb, d: d.unwrap() } }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                skipf(&mut c); let (t, a) = self.tyop(&mut c, b); assert!(c.eat_id("to"), "{txt}"); let t2 = self.ptype(&mut c);
                let (fw, tw) = (self.ty.bits(t), self.ty.bits(t2));
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" => Cast::BitCast,
                    "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => if fw > tw { Cast::Trunc } else { Cast::ZExt },
                    "fptoui" => Cast::F(Op::FPToUI), "fptosi" => Cast::F(Op::FPToSI), "uitofp" => Cast::F(Op::UIToFP), "sitofp" => Cast::F(Op::SIToFP), "fpext" => Cast::F(Op::FPExt), _ => Cast::F(Op::FPTrunc) };
                Ins::Cast { c: k, fw, tw, a, d: d.unwrap(), fty: t, tty: t2 }
            }
            "select" => { skipf(&mut c); let (ct, cc) = self.tyop(&mut c, b); c.expect(','); let (t, a) = self.tyop(&mut c, b); c.expect(','); let (_, bb) = self.tyop(&mut c, b); Ins::Select { c: cc, a, b: bb, d: d.unwrap(), ty: t, vc: self.ty.elem(ct).is_some() } }
            "freeze" => { let (_, a) = self.tyop(&mut c, b); Ins::Copy { a, d: d.unwrap() } }
            "alloca" => { let t = self.ptype(&mut c); let mut n = None; if c.eat(',') { if c.id() != Some("align") { let (_, o) = self.tyop(&mut c, b); n = Some(o) } } Ins::Alloca { size: self.ty.size(t), n, d: d.unwrap() } }
            "load" => { let _ = c.eat_id("atomic"); skipf(&mut c); let t = self.ptype(&mut c); c.expect(','); let (_, p) = self.tyop(&mut c, b); Ins::Load { ty: t, p, d: d.unwrap() } }
            "store" => { let _ = c.eat_id("atomic"); skipf(&mut c); let (t, v) = self.tyop(&mut c, b); c.expect(','); let (_, p) = self.tyop(&mut c, b); Ins::Store { ty: t, v, p } }
            "getelementptr" => {
                skipf(&mut c); let t = self.ptype(&mut c); c.expect(','); let (_, base) = self.tyop(&mut c, b);
                let mut cur = t; let mut first = true; let mut off = 0u64; let mut idx = vec![];
                while c.eat(',') {
                    let (it, o) = self.tyop(&mut c, b); let w = self.ty.bits(it);
                    if o < 0 { if let Val::I(v) = &b.consts[!o as usize] { let v = sx(*v as u128, w) as u64; off = off.wrapping_add(self.gep_step(&mut cur, &mut first, v)); continue } panic!("gep const") }
                    let sc = if first { first = false; self.ty.size(cur) } else { match self.ty.k[cur as usize].clone() { TyK::Arr(_, t) | TyK::Vec(_, t) => { cur = t; self.ty.size(t) } k => panic!("gep {k:?}") } };
                    idx.push((o, w, sc));
                }
                Ins::Gep { base, off, idx, d: d.unwrap() }
            }
            "phi" => {
                skipf(&mut c); let t = self.ptype(&mut c);
                let pi = blk.phis.len(); blk.phis.push((d.unwrap(), t));
                loop {
                    c.expect('['); let o = self.oper(&mut c, b, t); c.expect(','); let pl = if let T::Loc(n) = c.next() { labels[n] } else { panic!() }; c.expect(']');
                    let e = match blk.inc.iter_mut().position(|x| x.0 == pl) { Some(i) => i, None => { blk.inc.push((pl, vec![])); blk.inc.len() - 1 } };
                    if blk.inc[e].1.len() == pi { blk.inc[e].1.push(o) }
                    if !c.eat(',') { break }
                }
                return;
            }
            "call" | "invoke" => {
                let mut retattr = 0;
                loop { match c.peek().unwrap() { T::Id(s) if is_type_start(s) => break, T::P('{') | T::P('[') | T::P('<') => break, T::Id("align") => c.i += 2, T::Id(_) => { c.i += 1; if c.is('(') { c.skip_paren() } } t => panic!("call {t:?} {txt}") } retattr += 1; if retattr > 40 { panic!() } }
                let ret = self.ptype(&mut c);
                if c.is('(') { c.skip_paren() }
                let f = match c.next() {
                    T::Glob(n) => { let mut nm: &str = n; let t; if let Some(a) = self.alias.get(*n) { t = a.clone(); nm = &t; } match self.fmap.get(nm) { Some(&i) if self.funcs[i as usize].body.is_some() => Callee::Fn(i), _ => Callee::Ext(nm.into()) } }
                    T::Loc(n) => Callee::Ind(b.reg(n) as O),
                    T::Id("asm") => { let mut s = String::new(); loop { match c.peek() { Some(T::P('(')) => break, Some(T::Str(v)) => { if s.is_empty() { s = String::from_utf8_lossy(v).into_owned(); if s.is_empty() { s = " ".into() } } c.i += 1 } _ => c.i += 1 } } Callee::Asm(s.into()) }
                    T::Id("inttoptr") => { c.i -= 1; let t = self.ty.get(TyK::Ptr); let v = self.pconst(&mut c, t); Callee::Ind(b.konst(v)) }
                    t => panic!("callee {t:?} {txt}"),
                };
                c.expect('(');
                let mut args = vec![];
                if !c.is(')') { loop {
                    let t = self.ptype(&mut c);
                    if matches!(self.ty.k[t as usize], TyK::Other) { // metadata
                        let mut dd = 0; loop { match c.peek() { Some(T::P('(')) => { dd += 1; c.i += 1 } Some(T::P(')')) if dd == 0 => break, Some(T::P(')')) => { dd -= 1; c.i += 1 } Some(T::P(',')) if dd == 0 => break, None => break, _ => c.i += 1 } }
                        let z = b.konst(Val::I(0)); args.push((z, t));
                    } else { skip_attrs(&mut c); let o = self.oper(&mut c, b, t); args.push((o, t)); }
                    if !c.eat(',') { break }
                } }
                c.expect(')');
                blk.ins.push(Ins::Call { f, args, d: if matches!(self.ty.k[ret as usize], TyK::Void) { None } else { d }, ret });
                if op == "invoke" { while c.id() != Some("to") { c.i += 1 } c.i += 1; let l = lab(&mut c); blk.ins.push(Ins::Br(l)) }
                return;
            }
            "extractvalue" => { let (_, a) = self.tyop(&mut c, b); let mut idx = vec![]; while c.eat(',') { idx.push(self.num(&mut c) as u32) } Ins::ExtractV { a, idx, d: d.unwrap() } }
            "insertvalue" => { let (_, a) = self.tyop(&mut c, b); c.expect(','); let (_, v) = self.tyop(&mut c, b); let mut idx = vec![]; while c.eat(',') { idx.push(self.num(&mut c) as u32) } Ins::InsertV { a, b: v, idx, d: d.unwrap() } }
            "extractelement" => { let (_, a) = self.tyop(&mut c, b); c.expect(','); let (_, i) = self.tyop(&mut c, b); Ins::ExtractE { a, i, d: d.unwrap() } }
            "insertelement" => { let (_, a) = self.tyop(&mut c, b); c.expect(','); let (_, v) = self.tyop(&mut c, b); c.expect(','); let (_, i) = self.tyop(&mut c, b); Ins::InsertE { a, b: v, i, d: d.unwrap() } }
            "shufflevector" => {
                let (t, a) = self.tyop(&mut c, b); c.expect(','); let (_, bb) = self.tyop(&mut c, b); c.expect(','); let mt = self.ptype(&mut c);
                let na = self.ty.elem(t).unwrap().0 as u32; let nm = self.ty.elem(mt).unwrap().0;
                let mask = if c.eat('<') { let mut v = vec![]; loop { let t = self.ptype(&mut c); if c.eat_id("poison") || c.eat_id("undef") { v.push(None) } else { v.push(Some(self.pconst(&mut c, t).k().unwrap() as u32)) } if !c.eat(',') { break } } v } else { match self.pconst(&mut c, mt) { Val::Agg(v) => v.iter().map(|x| Some(x.k().unwrap() as u32)).collect(), _ => vec![Some(0); nm as usize] } };
                Ins::Shuffle { a, b: bb, mask, d: d.unwrap(), na }
            }
            "atomicrmw" => { skipf(&mut c); let o: Rc<str> = c.id().unwrap().into(); c.i += 1; let (_, p) = self.tyop(&mut c, b); c.expect(','); let (t, v) = self.tyop(&mut c, b); Ins::Rmw { op: o, p, v, ty: t, d: d.unwrap() } }
            "cmpxchg" => { let _ = c.eat_id("weak"); skipf(&mut c); let (_, p) = self.tyop(&mut c, b); c.expect(','); let (t, cv) = self.tyop(&mut c, b); c.expect(','); let (_, nv) = self.tyop(&mut c, b); Ins::CmpXchg { p, c: cv, n: nv, ty: t, d: d.unwrap() } }
            "fence" => Ins::Nop,
            "br" => if c.id() == Some("label") { Ins::Br(lab(&mut c)) } else { let (_, o) = self.tyop(&mut c, b); c.expect(','); let t = lab(&mut c); c.expect(','); let f = lab(&mut c); Ins::CondBr(o, t, f) },
            "switch" => {
                let (t, v) = self.tyop(&mut c, b); c.expect(','); let def = lab(&mut c); c.expect('['); let mut cases = vec![];
                while !c.is(']') { let t2 = self.ptype(&mut c); let k = self.pconst(&mut c, t2); c.expect(','); let l = lab(&mut c); match k { Val::I(k) => cases.push((k, l)), _ => panic!("wide switch") } }
                Ins::Switch { w: self.ty.bits(t), v, cases, def }
            }
            "ret" => { if c.eat_id("void") { Ins::Ret(None) } else { let (_, o) = self.tyop(&mut c, b); Ins::Ret(Some(o)) } }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Unreachable,
            _ => panic!("unsupported instruction: {txt}"),
        };
        blk.ins.push(ins);
    }
}
struct FB { regs: HashMap<&'static str, u32>, consts: Vec<Val>, cmap: HashMap<u64, O> }
impl FB {
    fn reg(&mut self, n: &'static str) -> R { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn konst(&mut self, v: Val) -> O {
        if let Val::I(x) = v { if let Some(&o) = self.cmap.get(&x) { return o } let o = !(self.consts.len() as i32); self.consts.push(v); self.cmap.insert(x, o); return o }
        self.consts.push(v); !((self.consts.len() - 1) as i32)
    }
}
fn fname(l: &str) -> &str {
    let i = l.find('@').unwrap() + 1;
    if l[i..].starts_with('"') { let r = &l[i + 1..]; &r[..r.find('"').unwrap()] } else { let r = &l[i..]; &r[..r.find('(').unwrap()] }
}
