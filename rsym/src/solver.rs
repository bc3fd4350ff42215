//! SMT back end: libz3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, k: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, k: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, rm: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = Z3_get_error_msg(c, e);
        eprintln!("z3 error {e}: {}", CStr::from_ptr(m).to_string_lossy());
    }
    std::process::exit(9);
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub fallback: u64,
}

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s_bv: P,
    s_fp: P,
    ast: HashMap<E, P, Fx>,  // bit-vector (or, for width 1, bv1) form
    bast: HashMap<E, P, Fx>, // boolean form of width-1 expressions
    fast: HashMap<E, P, Fx>, // floating-point form
    pub stats: Stats,
    recent: Vec<Model>,
    cache: HashMap<Vec<E>, Option<Model>>,
    next_model: u64,
    pub timeout_ms: u32,
    pub deadline: Option<Instant>,
    mux: HashMap<(u32, usize, usize, E, u32), P, Fx>,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mk = |n: &str| {
                let s = CString::new(n).unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, s.as_ptr()));
                Z3_solver_inc_ref(c, s);
                s
            };
            let s_bv = mk("QF_BV");
            let s_fp = mk("QF_FPBV");
            let _ = Z3_set_param_value;
            Solver {
                c,
                s_bv,
                s_fp,
                ast: HashMap::default(),
                bast: HashMap::default(),
                fast: HashMap::default(),
                stats: Stats::default(),
                recent: vec![],
                cache: HashMap::new(),
                next_model: 1,
                timeout_ms: 60_000,
                deadline: None,
                mux: HashMap::default(),
            }
        }
    }
    pub fn fresh_model(&mut self, v: Vec<u8>) -> Model {
        self.next_model += 1;
        Model { id: self.next_model, v: Rc::new(v) }
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(format!("{v}")).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.c, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.c, 11, 53)
            }
        }
    }

    /// Translate all sub-expressions bottom-up.
    fn prepare(&mut self, p: &mut Pool, e: E) {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.ast.contains_key(&x) || self.bast.contains_key(&x) || self.fast.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = p.n[x as usize];
            let mut ready = true;
            for &k in kids(&n).iter().flatten() {
                if !(self.ast.contains_key(&k) || self.bast.contains_key(&k) || self.fast.contains_key(&k)) {
                    st.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            self.build(p, x, &n);
        }
    }
    fn bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.ast.get(&e) {
            return a;
        }
        let r = unsafe {
            if let Some(&f) = self.fast.get(&e) {
                Z3_mk_fpa_to_ieee_bv(self.c, f)
            } else {
                let b = self.bast[&e];
                Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1))
            }
        };
        let _ = p;
        self.keep(r);
        self.ast.insert(e, r);
        r
    }
    fn bool(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.bast.get(&e) {
            return a;
        }
        let a = self.bv(p, e);
        let r = unsafe { Z3_mk_eq(self.c, a, self.num(1, 1)) };
        self.keep(r);
        self.bast.insert(e, r);
        r
    }
    fn fp(&mut self, p: &Pool, e: E) -> P {
        if let Some(&a) = self.fast.get(&e) {
            return a;
        }
        let w = p.w(e);
        let a = self.bv(p, e);
        let r = unsafe { Z3_mk_fpa_to_fp_bv(self.c, a, self.fsort(w)) };
        self.keep(r);
        self.fast.insert(e, r);
        r
    }
    fn build(&mut self, p: &mut Pool, e: E, n: &Node) {
        let c = self.c;
        let w = n.w as u32;
        unsafe {
            macro_rules! bvs {
                ($f:ident) => {{
                    let a = self.bv(p, n.a);
                    let b = self.bv(p, n.b);
                    $f(c, a, b)
                }};
            }
            enum K {
                Bv(P),
                Bo(P),
                Fp(P),
            }
            let r = match n.op {
                Op::Const => K::Bv(self.num(n.k, w)),
                Op::Var => {
                    let s = CString::new(format!("b{}", n.k)).unwrap();
                    K::Bv(Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, 8)))
                }
                Op::Add => K::Bv(bvs!(Z3_mk_bvadd)),
                Op::Sub => K::Bv(bvs!(Z3_mk_bvsub)),
                Op::Mul => K::Bv(bvs!(Z3_mk_bvmul)),
                Op::UDiv => K::Bv(bvs!(Z3_mk_bvudiv)),
                Op::SDiv => K::Bv(bvs!(Z3_mk_bvsdiv)),
                Op::URem => K::Bv(bvs!(Z3_mk_bvurem)),
                Op::SRem => K::Bv(bvs!(Z3_mk_bvsrem)),
                Op::And if w == 1 => {
                    let v = [self.bool(p, n.a), self.bool(p, n.b)];
                    let na = [Z3_mk_not(c, v[0]), Z3_mk_not(c, v[1])];
                    K::Bo(Z3_mk_not(c, Z3_mk_or(c, 2, na.as_ptr())))
                }
                Op::Or if w == 1 => {
                    let v = [self.bool(p, n.a), self.bool(p, n.b)];
                    K::Bo(Z3_mk_or(c, 2, v.as_ptr()))
                }
                Op::Xor if w == 1 && p.is_c(n.b) == Some(1) => {
                    let a = self.bool(p, n.a);
                    K::Bo(Z3_mk_not(c, a))
                }
                Op::And => K::Bv(bvs!(Z3_mk_bvand)),
                Op::Or => K::Bv(bvs!(Z3_mk_bvor)),
                Op::Xor => K::Bv(bvs!(Z3_mk_bvxor)),
                Op::Shl => K::Bv(bvs!(Z3_mk_bvshl)),
                Op::LShr => K::Bv(bvs!(Z3_mk_bvlshr)),
                Op::AShr => K::Bv(bvs!(Z3_mk_bvashr)),
                Op::Eq => K::Bo(bvs!(Z3_mk_eq)),
                Op::Ult => K::Bo(bvs!(Z3_mk_bvult)),
                Op::Ule => K::Bo(bvs!(Z3_mk_bvule)),
                Op::Slt => K::Bo(bvs!(Z3_mk_bvslt)),
                Op::Sle => K::Bo(bvs!(Z3_mk_bvsle)),
                Op::Ite => {
                    let cc = self.bool(p, n.a);
                    if w == 1 {
                        let (a, b) = (self.bool(p, n.b), self.bool(p, n.c));
                        K::Bo(Z3_mk_ite(c, cc, a, b))
                    } else if (w == 32 || w == 64) && (self.fast.contains_key(&n.b) || self.fast.contains_key(&n.c)) {
                        let (a, b) = (self.fp(p, n.b), self.fp(p, n.c));
                        K::Fp(Z3_mk_ite(c, cc, a, b))
                    } else {
                        let (a, b) = (self.bv(p, n.b), self.bv(p, n.c));
                        K::Bv(Z3_mk_ite(c, cc, a, b))
                    }
                }
                Op::Concat => K::Bv(bvs!(Z3_mk_concat)),
                Op::Extract => {
                    let a = self.bv(p, n.a);
                    K::Bv(Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a))
                }
                Op::ZExt => {
                    let a = self.bv(p, n.a);
                    K::Bv(Z3_mk_zero_ext(c, w - p.w(n.a), a))
                }
                Op::SExt => {
                    let a = self.bv(p, n.a);
                    K::Bv(Z3_mk_sign_ext(c, w - p.w(n.a), a))
                }
                Op::Table => {
                    let t = p.tables[n.k as usize].clone();
                    let iw = p.w(n.a);
                    let idx = self.bv(p, n.a);
                    let (lo, hi) = p.range(n.a);
                    // only the low bits can be set in an index below the table's end
                    let top = (hi as usize).min(t.len() - 1);
                    let bits = (usize::BITS - top.leading_zeros()).min(iw);
                    K::Bv(self.muxtree(n.k as u32, n.a, &t, idx, iw, w, 0, lo as usize, hi as usize, bits))
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(p, n.a), self.fp(p, n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    K::Fp(match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    })
                }
                Op::FRem => {
                    // C fmod has no SMT-LIB counterpart: unconstrained is unsound, so refuse
                    eprintln!("rsym: symbolic frem is not supported");
                    std::process::exit(8);
                }
                Op::FEq | Op::FLt | Op::FLe => {
                    let (a, b) = (self.fp(p, n.a), self.fp(p, n.b));
                    K::Bo(match n.op {
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        _ => Z3_mk_fpa_leq(c, a, b),
                    })
                }
                Op::FUno => {
                    let (a, b) = (self.fp(p, n.a), self.fp(p, n.b));
                    let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)];
                    K::Bo(Z3_mk_or(c, 2, v.as_ptr()))
                }
                Op::FExt | Op::FTrunc => {
                    let a = self.fp(p, n.a);
                    K::Fp(Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fsort(w)))
                }
                Op::UToF => {
                    let a = self.bv(p, n.a);
                    K::Fp(Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fsort(w)))
                }
                Op::SToF => {
                    let a = self.bv(p, n.a);
                    K::Fp(Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fsort(w)))
                }
                Op::FToU | Op::FToS => {
                    // saturating conversion
                    let a = self.fp(p, n.a);
                    let fs = self.fsort(p.w(n.a));
                    let rne = Z3_mk_fpa_rne(c);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let signed = n.op == Op::FToS;
                    let (lo, hi) = if signed { (1u128 << (w - 1), mask(w) >> 1) } else { (0, mask(w)) };
                    let lov = self.num(lo, w);
                    let hiv = self.num(hi, w);
                    let ww = w + 2;
                    let (lof, hif) = if signed {
                        (
                            Z3_mk_fpa_to_fp_signed(c, rne, lov, fs),
                            // 2^(w-1) exactly
                            Z3_mk_fpa_to_fp_unsigned(c, rne, self.num(1u128 << (w - 1), ww), fs),
                        )
                    } else {
                        (Z3_mk_fpa_to_fp_unsigned(c, rne, lov, fs), Z3_mk_fpa_to_fp_unsigned(c, rne, self.num(1u128 << w, ww), fs))
                    };
                    let cv = if signed { Z3_mk_fpa_to_sbv(c, rtz, a, w) } else { Z3_mk_fpa_to_ubv(c, rtz, a, w) };
                    let z = self.num(0, w);
                    // value v: nan -> 0 ; v <= lo -> lo ; v >= 2^k -> hi
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hif, a), hiv, cv);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, a, lof), lov, r);
                    K::Bv(Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, a), z, r))
                }
                Op::FSqrt => {
                    let a = self.fp(p, n.a);
                    K::Fp(Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a))
                }
                Op::FRnd => {
                    let a = self.fp(p, n.a);
                    let rm = match n.k as u8 {
                        0 => Z3_mk_fpa_rtn(c),
                        1 => Z3_mk_fpa_rtp(c),
                        2 => Z3_mk_fpa_rtz(c),
                        3 => Z3_mk_fpa_rna(c),
                        _ => Z3_mk_fpa_rne(c),
                    };
                    K::Fp(Z3_mk_fpa_round_to_integral(c, rm, a))
                }
                Op::FFma => {
                    let (a, b, d) = (self.fp(p, n.a), self.fp(p, n.b), self.fp(p, n.c));
                    K::Fp(Z3_mk_fpa_fma(c, Z3_mk_fpa_rne(c), a, b, d))
                }
            };
            match r {
                K::Bv(a) => {
                    self.keep(a);
                    self.ast.insert(e, a);
                }
                K::Bo(a) => {
                    self.keep(a);
                    self.bast.insert(e, a);
                }
                K::Fp(a) => {
                    self.keep(a);
                    self.fast.insert(e, a);
                }
            }
        }
    }
    /// Balanced multiplexer over the index bits, sharing equal halves.
    fn muxtree(&mut self, tid: u32, ie: E, t: &Rc<Vec<u64>>, idx: P, iw: u32, w: u32, base: usize, lo: usize, hi: usize, bits: u32) -> P {
        let len = 1usize << bits;
        let (a, b) = (base.max(lo), (base + len - 1).min(hi).min(t.len() - 1));
        if a > b {
            // unreachable index range: any value will do
            return self.num(t[lo.min(t.len() - 1)] as u128, w);
        }
        if t[a..=b].iter().all(|&x| x == t[a]) {
            return self.num(t[a] as u128, w);
        }
        if let Some(&p) = self.mux.get(&(tid, base, len, ie, w)) {
            return p;
        }
        let h = bits - 1;
        let x = self.muxtree(tid, ie, t, idx, iw, w, base, lo, hi, h);
        let y = self.muxtree(tid, ie, t, idx, iw, w, base + (1 << h), lo, hi, h);
        let r = unsafe {
            if x == y {
                x
            } else {
                let bit = Z3_mk_extract(self.c, h, h, idx);
                let cnd = Z3_mk_eq(self.c, bit, self.num(1, 1));
                Z3_mk_ite(self.c, cnd, y, x)
            }
        };
        self.keep(r);
        self.mux.insert((tid, base, len, ie, w), r);
        r
    }

    /// Is the conjunction satisfiable? `base` supplies values for variables outside the query.
    pub fn check(&mut self, p: &mut Pool, cons: &[E], base: &Model) -> Res {
        let mut key: Vec<E> = vec![];
        for &e in cons {
            match p.is_c(e) {
                Some(0) => return Res::Unsat,
                Some(_) => {}
                None => key.push(e),
            }
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return Res::Sat(base.clone());
        }
        if let Some(r) = self.cache.get(&key).cloned() {
            self.stats.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(self.merge(p, &key, &m, base)),
                None => Res::Unsat,
            };
        }
        // cached models
        for i in (0..self.recent.len()).rev() {
            let m = self.recent[i].clone();
            if key.iter().all(|&e| p.eval(e, &m) == 1) {
                self.stats.model_hits += 1;
                self.cache.insert(key.clone(), Some(m.clone()));
                return Res::Sat(self.merge(p, &key, &m, base));
            }
        }
        let t0 = Instant::now();
        let mut fp = false;
        for &e in &key {
            fp |= p.i[e as usize].fp;
            self.prepare(p, e);
        }
        let s = if fp { self.s_fp } else { self.s_bv };
        let r = unsafe {
            Z3_solver_reset(self.c, s);
            let mut to = self.timeout_ms;
            if let Some(d) = self.deadline {
                let left = d.saturating_duration_since(Instant::now()).as_millis() as u32;
                to = to.min(left.max(1));
            }
            let pr = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, pr);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, pr, Z3_mk_string_symbol(self.c, k.as_ptr()), to);
            Z3_solver_set_params(self.c, s, pr);
            for &e in &key {
                let b = self.bool(p, e);
                Z3_solver_assert(self.c, s, b);
            }
            if let Ok(d) = std::env::var("RSYM_DUMP") {
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{d}/q{}.smt2", self.stats.queries), format!("{t}\n(check-sat)\n"));
            }
            Z3_solver_check(self.c, s)
        };
        let out = match r {
            1 => {
                let mut v = (*base.v).clone();
                let nv = p.nvars as usize;
                if v.len() < nv {
                    v.resize(nv, 0);
                }
                unsafe {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vars = vec![];
                    for &e in &key {
                        vars.extend(p.sup_list(e));
                    }
                    vars.sort_unstable();
                    vars.dedup();
                    for k in vars {
                        let ve = p.var(k);
                        self.prepare(p, ve);
                        let a = self.ast[&ve];
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            let mut x = 0u64;
                            Z3_get_numeral_uint64(self.c, o, &mut x);
                            v[k as usize] = x as u8;
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                let m = self.fresh_model(v);
                // the model must satisfy the query under our own evaluation too
                for &e in &key {
                    if p.eval(e, &m) != 1 {
                        eprintln!("rsym: solver model does not satisfy the query (encoding mismatch)");
                        self.stats.unknown += 1;
                        let dt = t0.elapsed().as_secs_f64();
                        self.stats.secs += dt;
                        return Res::Unknown;
                    }
                }
                self.stats.sat += 1;
                if self.recent.len() >= 24 {
                    self.recent.remove(0);
                }
                self.recent.push(m.clone());
                self.cache.insert(key, Some(m.clone()));
                Res::Sat(m)
            }
            -1 => {
                self.stats.unsat += 1;
                self.cache.insert(key, None);
                Res::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Res::Unknown
            }
        };
        self.stats.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        out
    }
    /// Values of the query's variables from `m`, everything else from `base`.
    fn merge(&mut self, p: &Pool, key: &[E], m: &Model, base: &Model) -> Model {
        let mut v = (*base.v).clone();
        let nv = p.nvars as usize;
        if v.len() < nv {
            v.resize(nv, 0);
        }
        for &e in key {
            for k in p.sup_list(e) {
                v[k as usize] = m.v.get(k as usize).copied().unwrap_or(0);
            }
        }
        self.fresh_model(v)
    }
}
