//! Minimal binding to libz3 (loaded with dlopen) and the translation of expressions.
use crate::expr::{self, *};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

extern "C" { fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void; fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void; }

type P = *mut c_void;
macro_rules! api {
    ($($name:ident ( $($t:ty),* ) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $(pub $name: unsafe extern "C" fn($($t),*) -> $r,)* }
        impl Api { unsafe fn load(h: *mut c_void) -> Api { Api { $($name: {
            let s = CString::new(concat!("Z3_", stringify!($name))).unwrap();
            let f = dlsym(h, s.as_ptr());
            assert!(!f.is_null(), "missing symbol Z3_{}", stringify!($name));
            std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) -> $r>(f)
        },)* } } }
    };
}
api! {
    mk_config() -> P;
    set_param_value(P, *const c_char, *const c_char) -> ();
    mk_context_rc(P) -> P;
    set_error_handler(P, Option<unsafe extern "C" fn(P, c_int)>) -> ();
    get_error_code(P) -> c_int;
    inc_ref(P, P) -> ();
    dec_ref(P, P) -> ();
    mk_bv_sort(P, c_uint) -> P;
    mk_bool_sort(P) -> P;
    mk_string_symbol(P, *const c_char) -> P;
    mk_const(P, P, P) -> P;
    mk_unsigned_int64(P, u64, P) -> P;
    mk_true(P) -> P; mk_false(P) -> P;
    mk_not(P, P) -> P; mk_eq(P, P, P) -> P; mk_ite(P, P, P, P) -> P; mk_implies(P, P, P) -> P; mk_xor(P, P, P) -> P;
    mk_and(P, c_uint, *const P) -> P; mk_or(P, c_uint, *const P) -> P;
    mk_bvnot(P, P) -> P; mk_bvand(P, P, P) -> P; mk_bvor(P, P, P) -> P; mk_bvxor(P, P, P) -> P;
    mk_bvadd(P, P, P) -> P; mk_bvsub(P, P, P) -> P; mk_bvmul(P, P, P) -> P;
    mk_bvudiv(P, P, P) -> P; mk_bvsdiv(P, P, P) -> P; mk_bvurem(P, P, P) -> P; mk_bvsrem(P, P, P) -> P;
    mk_bvult(P, P, P) -> P; mk_bvslt(P, P, P) -> P;
    mk_concat(P, P, P) -> P; mk_extract(P, c_uint, c_uint, P) -> P; mk_sign_ext(P, c_uint, P) -> P; mk_zero_ext(P, c_uint, P) -> P;
    mk_bvshl(P, P, P) -> P; mk_bvlshr(P, P, P) -> P; mk_bvashr(P, P, P) -> P;
    mk_solver_for_logic(P, P) -> P; mk_simple_solver(P) -> P; mk_solver(P) -> P;
    solver_inc_ref(P, P) -> (); solver_dec_ref(P, P) -> ();
    solver_assert(P, P, P) -> (); solver_check_assumptions(P, P, c_uint, *const P) -> c_int;
    solver_get_model(P, P) -> P; model_inc_ref(P, P) -> (); model_dec_ref(P, P) -> ();
    model_eval(P, P, P, bool, *mut P) -> bool;
    get_numeral_uint64(P, P, *mut u64) -> bool;
    solver_set_params(P, P, P) -> (); mk_params(P) -> P; params_inc_ref(P, P) -> (); params_set_uint(P, P, P, c_uint) -> ();
    mk_fpa_sort_32(P) -> P; mk_fpa_sort_64(P) -> P;
    mk_fpa_rne(P) -> P; mk_fpa_rna(P) -> P; mk_fpa_rtp(P) -> P; mk_fpa_rtn(P) -> P; mk_fpa_rtz(P) -> P;
    mk_fpa_to_fp_bv(P, P, P) -> P; mk_fpa_to_fp_float(P, P, P, P) -> P; mk_fpa_to_fp_signed(P, P, P, P) -> P; mk_fpa_to_fp_unsigned(P, P, P, P) -> P;
    mk_fpa_to_ubv(P, P, P, c_uint) -> P; mk_fpa_to_sbv(P, P, P, c_uint) -> P; mk_fpa_to_ieee_bv(P, P) -> P;
    mk_fpa_add(P, P, P, P) -> P; mk_fpa_sub(P, P, P, P) -> P; mk_fpa_mul(P, P, P, P) -> P; mk_fpa_div(P, P, P, P) -> P; mk_fpa_rem(P, P, P) -> P;
    mk_fpa_sqrt(P, P, P) -> P; mk_fpa_round_to_integral(P, P, P) -> P;
    mk_fpa_eq(P, P, P) -> P; mk_fpa_lt(P, P, P) -> P; mk_fpa_leq(P, P, P) -> P; mk_fpa_is_nan(P, P) -> P;
    mk_fpa_is_negative(P, P) -> P; mk_fpa_numeral_double(P, f64, P) -> P;
    get_full_version() -> *const c_char;
}

pub struct Z3 {
    a: Api, c: P, bv: HashMap<Eid, P, Fx>, bl: HashMap<Eid, P, Fx>, fp: HashMap<Eid, P, Fx>, vars: HashMap<u32, P>,
    solver: P, ind: HashMap<Eid, P, Fx>, ind_n: usize, s32: P, s64: P,
    pub rlimit: u32, fresh: bool, simple: u32, pub lib: String, pub version: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

unsafe extern "C" fn onerr(_c: P, e: c_int) { eprintln!("z3 error code {e}"); std::process::exit(70); }

impl Z3 {
    pub fn new(libs: &[String]) -> Z3 {
        unsafe {
            let mut h = std::ptr::null_mut(); let mut used = String::new();
            for l in libs { let s = CString::new(l.as_str()).unwrap(); h = dlopen(s.as_ptr(), 2); if !h.is_null() { used = l.clone(); break } }
            assert!(!h.is_null(), "libz3 not found in {libs:?}");
            let a = Api::load(h);
            let cfg = (a.mk_config)();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            (a.set_param_value)(cfg, k.as_ptr(), v.as_ptr());
            let c = (a.mk_context_rc)(cfg);
            (a.set_error_handler)(c, Some(onerr));
            let s32 = (a.mk_fpa_sort_32)(c); (a.inc_ref)(c, s32);
            let s64 = (a.mk_fpa_sort_64)(c); (a.inc_ref)(c, s64);
            let version = std::ffi::CStr::from_ptr((a.get_full_version)()).to_string_lossy().into_owned();
            Z3 { a, c, bv: HashMap::default(), bl: HashMap::default(), fp: HashMap::default(), vars: HashMap::new(), solver: std::ptr::null_mut(), ind: HashMap::default(), ind_n: 0, s32, s64, rlimit: 60_000_000, fresh: std::env::var("VINCR").is_err(), simple: std::env::var("VSIMPLE").ok().and_then(|v| v.parse().ok()).unwrap_or(200_000), lib: used, version }
        }
    }
    /// drop the incremental solver before the next query (it has become slow)
    pub fn reset_next(&mut self) { self.ind_n = usize::MAX }
    unsafe fn keep(&self, p: P) -> P { (self.a.inc_ref)(self.c, p); p }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        if w <= 64 { let s = (self.a.mk_bv_sort)(self.c, w); (self.a.inc_ref)(self.c, s); let n = (self.a.mk_unsigned_int64)(self.c, v as u64, s); self.keep(n) }
        else { let h = self.num(v >> 64, w - 64); let l = self.num(v & mask(64), 64); let r = (self.a.mk_concat)(self.c, h, l); self.keep(r) }
    }
    /// boolean ast for a 1-bit expression
    unsafe fn tbool(&mut self, e: Eid) -> P {
        if let Some(&x) = self.bl.get(&e) { return x }
        let n = node(e); let c = self.c;
        let r = match n.op {
            Op::Const => if kval(e) == Some(1) { (self.a.mk_true)(c) } else { (self.a.mk_false)(c) },
            Op::Eq => { if width(n.a) == 1 { let (x, y) = (self.tbool(n.a), self.tbool(n.b)); (self.a.mk_eq)(c, x, y) } else { let (x, y) = (self.tbv(n.a), self.tbv(n.b)); (self.a.mk_eq)(c, x, y) } }
            Op::Ult => { let (x, y) = (self.tbv(n.a), self.tbv(n.b)); (self.a.mk_bvult)(c, x, y) }
            Op::Slt => { let (x, y) = (self.tbv(n.a), self.tbv(n.b)); (self.a.mk_bvslt)(c, x, y) }
            Op::And => { let v = [self.tbool(n.a), self.tbool(n.b)]; (self.a.mk_and)(c, 2, v.as_ptr()) }
            Op::Or => { let v = [self.tbool(n.a), self.tbool(n.b)]; (self.a.mk_or)(c, 2, v.as_ptr()) }
            Op::Xor => if let Some(x) = is_not(e) { let t = self.tbool(x); (self.a.mk_not)(c, t) } else { let (x, y) = (self.tbool(n.a), self.tbool(n.b)); (self.a.mk_xor)(c, x, y) },
            Op::Ite => { let (x, y, z) = (self.tbool(n.a), self.tbool(n.b), self.tbool(n.c)); (self.a.mk_ite)(c, x, y, z) }
            Op::FOEq => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); (self.a.mk_fpa_eq)(c, x, y) }
            Op::FOLt => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); (self.a.mk_fpa_lt)(c, x, y) }
            Op::FOLe => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); (self.a.mk_fpa_leq)(c, x, y) }
            Op::FUno => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); let v = [(self.a.mk_fpa_is_nan)(c, x), (self.a.mk_fpa_is_nan)(c, y)]; self.keep(v[0]); self.keep(v[1]); (self.a.mk_or)(c, 2, v.as_ptr()) }
            _ => { let b = self.tbv(e); let one = self.num(1, 1); (self.a.mk_eq)(c, b, one) }
        };
        self.keep(r);
        self.bl.insert(e, r);
        r
    }
    unsafe fn sort_of(&self, w: u32) -> P { if w == 32 { self.s32 } else { self.s64 } }
    unsafe fn tfp(&mut self, e: Eid) -> P {
        if let Some(&x) = self.fp.get(&e) { return x }
        let n = node(e); let c = self.c; let w = n.w as u32; let s = self.sort_of(w);
        let rne = (self.a.mk_fpa_rne)(c); self.keep(rne);
        let r = match n.op {
            Op::FAdd => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); (self.a.mk_fpa_add)(c, rne, x, y) }
            Op::FSub => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); (self.a.mk_fpa_sub)(c, rne, x, y) }
            Op::FMul => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); (self.a.mk_fpa_mul)(c, rne, x, y) }
            Op::FDiv => { let (x, y) = (self.tfp(n.a), self.tfp(n.b)); (self.a.mk_fpa_div)(c, rne, x, y) }
            Op::FSqrt => { let x = self.tfp(n.a); (self.a.mk_fpa_sqrt)(c, rne, x) }
            Op::FCeil | Op::FFloor | Op::FTrunc | Op::FRound | Op::FRoundEven => {
                let x = self.tfp(n.a);
                let rm = match n.op { Op::FCeil => (self.a.mk_fpa_rtp)(c), Op::FFloor => (self.a.mk_fpa_rtn)(c), Op::FTrunc => (self.a.mk_fpa_rtz)(c), Op::FRound => (self.a.mk_fpa_rna)(c), _ => rne };
                self.keep(rm);
                (self.a.mk_fpa_round_to_integral)(c, rm, x)
            }
            Op::UIToFP => { let x = self.tbv(n.a); (self.a.mk_fpa_to_fp_unsigned)(c, rne, x, s) }
            Op::SIToFP => { let x = self.tbv(n.a); (self.a.mk_fpa_to_fp_signed)(c, rne, x, s) }
            Op::FPExt | Op::FPTrunc => { let x = self.tfp(n.a); (self.a.mk_fpa_to_fp_float)(c, rne, x, s) }
            Op::Ite => { let (x, y, z) = (self.tbool(n.a), self.tfp(n.b), self.tfp(n.c)); (self.a.mk_ite)(c, x, y, z) }
            _ => { let x = self.tbv(e); (self.a.mk_fpa_to_fp_bv)(c, x, s) }
        };
        self.keep(r);
        self.fp.insert(e, r);
        r
    }
    unsafe fn tbv(&mut self, e: Eid) -> P {
        if let Some(&x) = self.bv.get(&e) { return x }
        let n = node(e); let c = self.c; let w = n.w as u32;
        let r = match n.op {
            Op::Const => self.num(kval(e).unwrap(), w),
            Op::Var => self.var(n.a, w),
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                let (x, y) = (self.tbv(n.a), self.tbv(n.b));
                let f = match n.op { Op::Add => self.a.mk_bvadd, Op::Sub => self.a.mk_bvsub, Op::Mul => self.a.mk_bvmul, Op::UDiv => self.a.mk_bvudiv, Op::SDiv => self.a.mk_bvsdiv, Op::URem => self.a.mk_bvurem, Op::SRem => self.a.mk_bvsrem, Op::Shl => self.a.mk_bvshl, Op::LShr => self.a.mk_bvlshr, Op::AShr => self.a.mk_bvashr, _ => self.a.mk_concat };
                f(c, x, y)
            }
            Op::And | Op::Or | Op::Xor if w > 1 => {
                let (x, y) = (self.tbv(n.a), self.tbv(n.b));
                let f = match n.op { Op::And => self.a.mk_bvand, Op::Or => self.a.mk_bvor, _ => self.a.mk_bvxor };
                f(c, x, y)
            }
            Op::Extract => { let x = self.tbv(n.a); (self.a.mk_extract)(c, n.b + w - 1, n.b, x) }
            Op::ZExt => { let x = self.tbv(n.a); (self.a.mk_zero_ext)(c, w - width(n.a), x) }
            Op::SExt => { let x = self.tbv(n.a); (self.a.mk_sign_ext)(c, w - width(n.a), x) }
            Op::Ite if w > 1 => { let (x, y, z) = (self.tbool(n.a), self.tbv(n.b), self.tbv(n.c)); (self.a.mk_ite)(c, x, y, z) }
            Op::FPToUI | Op::FPToSI => {
                // saturating conversion
                let x = self.tfp(n.a); let s = self.sort_of(width(n.a));
                let rtz = (self.a.mk_fpa_rtz)(c); self.keep(rtz);
                let sg = n.op == Op::FPToSI;
                let (lo, hi): (f64, f64) = if sg { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let lof = (self.a.mk_fpa_numeral_double)(c, lo, s); self.keep(lof);
                let hif = (self.a.mk_fpa_numeral_double)(c, hi, s); self.keep(hif);
                let conv = if sg { (self.a.mk_fpa_to_sbv)(c, rtz, x, w) } else { (self.a.mk_fpa_to_ubv)(c, rtz, x, w) }; self.keep(conv);
                let (lov, hiv) = if sg { (self.num(1u128 << (w - 1), w), self.num(mask(w - 1), w)) } else { (self.num(0, w), self.num(mask(w), w)) };
                let ge = (self.a.mk_fpa_leq)(c, hif, x); self.keep(ge);
                let le = (self.a.mk_fpa_leq)(c, x, lof); self.keep(le);
                let nan = (self.a.mk_fpa_is_nan)(c, x); self.keep(nan);
                let z = self.num(0, w);
                let i1 = (self.a.mk_ite)(c, le, lov, conv); self.keep(i1);
                let i2 = (self.a.mk_ite)(c, ge, hiv, i1); self.keep(i2);
                (self.a.mk_ite)(c, nan, z, i2)
            }
            _ if is_fp(n.op) && w > 1 => { let x = self.tfp(e); (self.a.mk_fpa_to_ieee_bv)(c, x) }
            _ => { // 1-bit boolean-valued
                let b = self.tbool(e); let (o, z) = (self.num(1, 1), self.num(0, 1)); (self.a.mk_ite)(c, b, o, z)
            }
        };
        self.keep(r);
        self.bv.insert(e, r);
        r
    }
    unsafe fn var(&mut self, v: u32, w: u32) -> P {
        if let Some(&x) = self.vars.get(&v) { return x }
        let s = CString::new(format!("v{v}")).unwrap();
        let sym = (self.a.mk_string_symbol)(self.c, s.as_ptr());
        let sort = (self.a.mk_bv_sort)(self.c, w); self.keep(sort);
        let x = (self.a.mk_const)(self.c, sym, sort); self.keep(x);
        self.vars.insert(v, x);
        x
    }
    unsafe fn set_timeout(&self, s: P, limit: u32) {
        let p = (self.a.mk_params)(self.c); (self.a.params_inc_ref)(self.c, p);
        let k = CString::new("rlimit").unwrap();
        let sym = (self.a.mk_string_symbol)(self.c, k.as_ptr());
        (self.a.params_set_uint)(self.c, p, sym, limit);
        (self.a.solver_set_params)(self.c, s, p);
    }
    pub fn check(&mut self, cs: &[Eid], vars: &[(u32, u32)]) -> Res {
        unsafe {
            let fp = cs.iter().any(|&e| expr::p().hasfp[e as usize]);
            if fp { return self.check_fresh(cs, vars, "") }
            if cs.len() <= 3 || self.fresh {
                // the plain core starts faster; the bit-blasting tactic is better on what is hard
                if self.simple > 0 { let t = std::time::Instant::now(); let rr = self.check_fresh(cs, vars, "simple"); if std::env::var("VDBG").is_ok() { eprintln!("simple {} cs={} {:?}", match &rr { Res::Unknown => "unk", Res::Sat(_) => "sat", _ => "unsat" }, cs.len(), t.elapsed()) } match rr { Res::Unknown => {} r => return r } }
                return self.check_fresh(cs, vars, "QF_BV")
            }
            if self.solver.is_null() || self.ind_n > 600 {
                if !self.solver.is_null() { (self.a.solver_dec_ref)(self.c, self.solver) }
                let k = CString::new("QF_BV").unwrap();
                let sym = (self.a.mk_string_symbol)(self.c, k.as_ptr());
                self.solver = (self.a.mk_solver_for_logic)(self.c, sym);
                (self.a.solver_inc_ref)(self.c, self.solver);
                self.set_timeout(self.solver, self.rlimit);
                self.ind.clear(); self.ind_n = 0;
            }
            let mut asm: Vec<P> = vec![];
            for &e in cs {
                let i = match self.ind.get(&e) { Some(&x) => x, None => {
                    let s = CString::new(format!("i{e}")).unwrap();
                    let sym = (self.a.mk_string_symbol)(self.c, s.as_ptr());
                    let so = (self.a.mk_bool_sort)(self.c); self.keep(so);
                    let x = (self.a.mk_const)(self.c, sym, so); self.keep(x);
                    let b = self.tbool(e);
                    let im = (self.a.mk_implies)(self.c, x, b); self.keep(im);
                    (self.a.solver_assert)(self.c, self.solver, im);
                    self.ind.insert(e, x); self.ind_n += 1;
                    x
                } };
                asm.push(i);
            }
            let r = (self.a.solver_check_assumptions)(self.c, self.solver, asm.len() as c_uint, asm.as_ptr());
            match r { 1 => self.model(self.solver, vars), -1 => Res::Unsat, _ => { 
                // retry in a fresh solver, then give up
                let r = self.check_fresh(cs, vars, "QF_BV"); (self.a.solver_dec_ref)(self.c, self.solver); self.solver = std::ptr::null_mut(); r } }
        }
    }
    /// Unsat when every pair is equal for all values satisfying `cs`
    pub fn valid(&mut self, cs: &[Eid], eqs: &[(Eid, Eid)]) -> Res {
        unsafe {
            let c = self.c;
            let mut ds = vec![];
            for &(x, y) in eqs {
                let (a, b) = if width(x) == 1 { (self.tbool(x), self.tbool(y)) } else { (self.tbv(x), self.tbv(y)) };
                let e = (self.a.mk_eq)(c, a, b); self.keep(e);
                ds.push(self.keep((self.a.mk_not)(c, e)));
            }
            let d = self.keep((self.a.mk_or)(c, ds.len() as c_uint, ds.as_ptr()));
            for logic in ["simple", "QF_BV"] {
                let s = if logic == "simple" { (self.a.mk_simple_solver)(c) } else { let k = CString::new(logic).unwrap(); let sym = (self.a.mk_string_symbol)(c, k.as_ptr()); (self.a.mk_solver_for_logic)(c, sym) };
                (self.a.solver_inc_ref)(c, s);
                self.set_timeout(s, if logic == "simple" { self.simple } else { self.rlimit });
                for &e in cs { let b = self.tbool(e); (self.a.solver_assert)(c, s, b); }
                (self.a.solver_assert)(c, s, d);
                let r = (self.a.solver_check_assumptions)(c, s, 0, std::ptr::null());
                (self.a.solver_dec_ref)(c, s);
                match r { 1 => return Res::Sat(vec![]), -1 => return Res::Unsat, _ => {} }
            }
            Res::Unknown
        }
    }
    unsafe fn check_fresh(&mut self, cs: &[Eid], vars: &[(u32, u32)], logic: &str) -> Res {
        let s = if logic == "simple" { (self.a.mk_simple_solver)(self.c) } else if logic.is_empty() { (self.a.mk_solver)(self.c) } else { let k = CString::new(logic).unwrap(); let sym = (self.a.mk_string_symbol)(self.c, k.as_ptr()); (self.a.mk_solver_for_logic)(self.c, sym) };
        (self.a.solver_inc_ref)(self.c, s);
        self.set_timeout(s, if logic == "simple" { self.simple } else { self.rlimit });
        for &e in cs { let b = self.tbool(e); (self.a.solver_assert)(self.c, s, b); }
        let r = (self.a.solver_check_assumptions)(self.c, s, 0, std::ptr::null());
        let out = match r { 1 => self.model(s, vars), -1 => Res::Unsat, _ => Res::Unknown };
        (self.a.solver_dec_ref)(self.c, s);
        out
    }
    unsafe fn model(&mut self, s: P, vars: &[(u32, u32)]) -> Res {
        let m = (self.a.solver_get_model)(self.c, s);
        (self.a.model_inc_ref)(self.c, m);
        let mut out = vec![];
        for &(v, w) in vars {
            let x = self.var(v, w);
            let mut r: P = std::ptr::null_mut();
            if (self.a.model_eval)(self.c, m, x, true, &mut r) {
                self.keep(r);
                let mut u = 0u64;
                (self.a.get_numeral_uint64)(self.c, r, &mut u);
                (self.a.dec_ref)(self.c, r);
                out.push((v, u));
            }
        }
        (self.a.model_dec_ref)(self.c, m);
        Res::Sat(out)
    }
}
