//! Lowering of parsed IR into the executable form.
use crate::expr::*;
use crate::ll::{self, Bin, Callee, Cast, FBin, Module, Pred, Ty, Val, I};
use crate::mem::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    C(u64),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(u64),
    V(V),
}

#[derive(Clone, Debug)]
pub struct Ed {
    pub pc: u32,
    pub blk: u32,
    pub moves: Rc<Vec<(u32, O)>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Nop,
    Assume,
    Memcpy,
    Memmove,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UShlSat,
    FShl,
    FShr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
    UCmp,
    SCmp,
    Expect,
    IsConst,
    IsFpClass,
    TlAddr,
    Trap,
    FAbs,
    FSqrt,
    FFloor,
    FCeil,
    FTruncI,
    FRound,
    FRoundEven,
    FMa,
    FMulAdd,
    FMin,
    FMax,
    FCopysign,
    FPow,
    FPowi,
    FExp,
    FExp2,
    FLog,
    FLog2,
    FLog10,
    FSin,
    FCos,
    FToUSat,
    FToSSat,
    LoadRel,
    VReduce(u8), // 0 add 1 or 2 and 3 umax 4 umin 5 xor 6 mul
    PtrMask,
    Bcmp,
    Memcmp,
    Strlen,
    Malloc,
    Calloc,
    GetRandom,
    Realloc,
    Free,
    PosixMemalign,
    Abort,
    Panic,
    Oom,
    Zero, // returns 0, no effect
    RBytes,
    RAssume,
    RAssert,
    RParam,
    RConc,
    RExpect,
    RReach,
    RObserve,
    RIsSym,
    RAllocPeak,
    RAllocMark,
    RMerge,
    RFail,
    Cpuid,
    Errno,
    Getenv,
    Sysconf,
    Write,
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Tgt {
    Fn(u32),
    Ptr(O),
    B(B, Rc<str>),
}

#[derive(Clone, Debug)]
pub enum L {
    Bin(Bin, u32, u32, O, O),
    BinV(Bin, u32, u32, O, O), // elementwise, w = element width
    FBin(FBin, u32, u32, O, O, bool),
    FNeg(u32, u32, O, bool),
    ICmp(Pred, u32, u32, O, O, bool),
    FCmp(Rc<str>, u32, u32, O, O, bool),
    Cast(Cast, u32, u32, u32, O, bool),
    Bitcast(Ty, Ty, u32, O),
    Select(u32, O, O, O, Ty, bool),
    Load(Ty, u32, O, u32, u32), // scalar width bits (0 = aggregate), bytes
    Store(Ty, O, O, u32, u32),
    Alloca(u32, u64, Option<O>),
    Gep(u32, O, u64, Rc<Vec<(O, u32, u64)>>), // base, const offset, (index, idx width, scale)
    GepV(u32, Ty, O, u64, Rc<Vec<(O, u32, u64)>>),
    Call(Option<u32>, Tgt, Rc<Vec<(Ty, O)>>, Ty),
    Invoke(Option<u32>, Tgt, Rc<Vec<(Ty, O)>>, Ty, Ed),
    Extract(u32, O, Rc<Vec<u64>>),
    Insert(u32, O, O, Rc<Vec<u64>>),
    ExtractEl(u32, O, O),
    InsertEl(u32, O, O, O),
    Shuffle(u32, O, O, Rc<Vec<u64>>),
    Mov(u32, O),
    Rmw(Rc<str>, Ty, u32, O, O),
    CmpXchg(Ty, u32, O, O, O),
    Nop,
    Br(Ed),
    CondBr(O, Ed, Ed, u32), // join block or MAX
    Switch(u32, O, Ed, Rc<Vec<(u64, Ed)>>, u32),
    Ret(Option<O>),
    Unreachable,
}

pub struct Func {
    pub name: String,
    pub short: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub code: Vec<L>,
    pub blk: Vec<u32>,  // pc of each block
    pub regw: Vec<u32>, // width of scalar registers (0: aggregate or unknown)
    pub is_fmt: bool,
}

pub struct Prog {
    pub m: Module,
    pub gaddr: HashMap<String, u32>, // global name -> id
    pub gnames: Vec<String>,
    pub gobj: Vec<Option<Rc<Obj>>>,
    /// targets of the entries of tables of differences
    pub rels: Vec<u64>,
    pub fid: HashMap<String, u32>,
    pub fnames: Vec<String>,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub hooks: HashMap<String, B>,
}

pub fn demangle(n: &str) -> String {
    // crude v0 / legacy readable form: keep identifier segments
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = if n.starts_with("_R") { 2 } else { return n.to_string() };
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) && b[i] != b'0' {
            // disambiguators like s_ / Cs<base62>_ contain digits too: check the identifier fits
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let mut k = j;
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if l > 0 && l < 80 && k + l <= b.len() {
                let id = &n[k..k + l];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && id.as_bytes()[0].is_ascii_alphabetic() | (id.as_bytes()[0] == b'_') {
                    out.push(id.to_string());
                    i = k + l;
                    continue;
                }
            }
        }
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate disambiguator
            let mut j = i + 2;
            while j < b.len() && b[j] != b'_' {
                j += 1;
            }
            i = j + 1;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

impl Prog {
    pub fn new(m: Module) -> Prog {
        let mut p = Prog {
            m,
            gaddr: HashMap::new(),
            gnames: vec![],
            gobj: vec![],
            rels: vec![],
            fid: HashMap::new(),
            fnames: vec![],
            funcs: vec![],
            hooks: HashMap::new(),
        };
        let mut names: Vec<String> = p.m.globals.keys().cloned().collect();
        names.sort();
        for n in names {
            p.gaddr.insert(n.clone(), ID_GLOBAL + p.gnames.len() as u32);
            p.gnames.push(n);
            p.gobj.push(None);
        }
        let mut f: Vec<String> = p.m.fns.keys().cloned().collect();
        f.sort();
        for n in f {
            p.fid.insert(n.clone(), p.fnames.len() as u32);
            p.fnames.push(n);
            p.funcs.push(None);
        }
        p
    }
    fn fn_addr(&mut self, name: &str) -> u64 {
        let id = match self.fid.get(name) {
            Some(&i) => i,
            None => {
                let i = self.fnames.len() as u32;
                self.fid.insert(name.to_string(), i);
                self.fnames.push(name.to_string());
                self.funcs.push(None);
                i
            }
        };
        ((ID_FN as u64) << 32) + BASE + 16 * id as u64
    }
    pub fn sym_addr(&mut self, name: &str) -> u64 {
        if let Some(a) = self.m.aliases.get(name).cloned() {
            return self.sym_addr(&a);
        }
        if let Some(&g) = self.gaddr.get(name) {
            return ((g as u64) << 32) + BASE;
        }
        self.fn_addr(name)
    }
    pub fn global(&mut self, id: u32) -> Option<Rc<Obj>> {
        let i = id.checked_sub(ID_GLOBAL)? as usize;
        if i >= self.gobj.len() {
            return None;
        }
        if let Some(o) = &self.gobj[i] {
            return Some(o.clone());
        }
        let (ty, v, c) = self.m.global(&self.gnames[i].clone());
        let mut o = Obj::new(ty.size() as usize, 0);
        o.konst = c;
        self.write_const(&mut o, 0, &ty, &v);
        let r = Rc::new(o);
        self.gobj[i] = Some(r.clone());
        Some(r)
    }
    fn write_const(&mut self, o: &mut Obj, off: u64, ty: &Ty, v: &Val) {
        match v {
            Val::Zero | Val::Undef | Val::Null => {}
            Val::Bytes(b) => o.data[off as usize..off as usize + b.len()].copy_from_slice(b),
            Val::Agg(es) => {
                for (i, (t, e)) in es.iter().enumerate() {
                    let fo = ty.field_off(i as u64);
                    self.write_const(o, off + fo, t, e);
                }
            }
            Val::Splat(b) => {
                for i in 0..ty.count() {
                    let fo = ty.field_off(i);
                    self.write_const(o, off + fo, &b.0, &b.1);
                }
            }
            // an entry of a table of differences: objects are too far apart for these, keep the number of the target
            Val::CastC("trunc", tv, t) if t.bits() == 32 && matches!(&tv.1, Val::BinC("sub", a, b) if ptr_int(&a.1) && ptr_int(&b.1)) => {
                let Val::BinC(_, a, _) = &tv.1 else { unreachable!() };
                let x = self.cval(&a.0, &a.1) as u64;
                self.rels.push(x);
                let k = self.rels.len() as u32 - 1;
                o.data[off as usize..off as usize + 4].copy_from_slice(&k.to_le_bytes());
            }
            _ => {
                let n = ty.store_size() as usize;
                let x = self.cval(ty, v);
                o.data[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }
    /// Constant scalar value.
    pub fn cval(&mut self, ty: &Ty, v: &Val) -> u128 {
        let w = ty.bits().clamp(1, 128);
        match v {
            Val::Int(x, _) => (*x as u128) & mask(w),
            Val::Big(x) => *x,
            Val::FloatBits(x) => *x as u128,
            Val::Null | Val::Undef | Val::Zero => 0,
            Val::Global(n) => self.sym_addr(&n.clone()) as u128,
            Val::GepC(t, base, ix) => {
                let b = self.cval(&base.0, &base.1) as u64;
                let mut off = 0i64;
                let mut cur = (**t).clone();
                for (k, (it, iv)) in ix.iter().enumerate() {
                    let i = sext(self.cval(it, iv), it.bits()) as i64;
                    if k == 0 {
                        off = off.wrapping_add(i.wrapping_mul(cur.size() as i64));
                    } else {
                        off = off.wrapping_add(cur.field_off(i as u64) as i64);
                        cur = cur.elem(if matches!(cur, Ty::Struct(..)) { i as u64 } else { 0 });
                    }
                }
                b.wrapping_add(off as u64) as u128
            }
            Val::CastC(_, tv, t) => self.cval(&tv.0, &tv.1) & mask(t.bits()),
            Val::BinC(o, a, b) => {
                let x = self.cval(&a.0, &a.1);
                let y = self.cval(&b.0, &b.1);
                (match *o {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "xor" => x ^ y,
                    _ => x << y,
                }) & mask(w)
            }
            _ => panic!("scalar constant {v:?}"),
        }
    }
    pub fn zero(&self, ty: &Ty, p: &mut Pool) -> V {
        match ty {
            Ty::Struct(ts, _) => V::A(Rc::new(ts.iter().map(|t| self.zero(t, p)).collect())),
            Ty::Arr(n, t) => {
                let z = self.zero(t, p);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Vec(n, t) => {
                let z = self.zero(t, p);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Int(w) if *w > 64 => V::S(p.c(0, *w)),
            _ => V::C(0),
        }
    }
    fn cv(&mut self, ty: &Ty, v: &Val, p: &mut Pool) -> V {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => match v {
                Val::Agg(es) => V::A(Rc::new(es.iter().map(|(t, e)| self.cv(t, e, p)).collect())),
                Val::Splat(b) => {
                    let x = self.cv(&b.0, &b.1, p);
                    V::A(Rc::new(vec![x; ty.count() as usize]))
                }
                Val::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
                _ => self.zero(ty, p),
            },
            Ty::Int(w) if *w > 64 => {
                let x = self.cval(ty, v);
                V::S(p.c(x, *w))
            }
            Ty::Meta | Ty::Void | Ty::Label | Ty::Other(_) => V::C(0),
            _ => V::C(self.cval(ty, v) as u64),
        }
    }
    fn op(&mut self, ty: &Ty, v: &Val, p: &mut Pool) -> O {
        match v {
            Val::Reg(r) => O::R(*r),
            _ => match self.cv(ty, v, p) {
                V::C(x) => O::C(x),
                x => O::V(x),
            },
        }
    }

    pub fn builtin(&self, n: &str) -> Option<B> {
        if let Some(x) = n.strip_prefix("llvm.") {
            let base: Vec<&str> = x.split('.').collect();
            let two = if base.len() > 1 { format!("{}.{}", base[0], base[1]) } else { base[0].to_string() };
            let three = if base.len() > 2 { format!("{two}.{}", base[2]) } else { two.clone() };
            return Some(match base[0] {
                "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "annotation" => B::Nop,
                "sideeffect" | "x86" => B::Zero,
                "assume" => B::Assume,
                "memcpy" => B::Memcpy,
                "memmove" => B::Memmove,
                "memset" => B::Memset,
                "umax" => B::UMax,
                "umin" => B::UMin,
                "smax" => B::SMax,
                "smin" => B::SMin,
                "uadd" if two == "uadd.sat" => B::UAddSat,
                "usub" if two == "usub.sat" => B::USubSat,
                "sadd" if two == "sadd.sat" => B::SAddSat,
                "ssub" if two == "ssub.sat" => B::SSubSat,
                "ushl" if two == "ushl.sat" => B::UShlSat,
                "uadd" if three == "uadd.with.overflow" => B::UAddO,
                "usub" if three == "usub.with.overflow" => B::USubO,
                "umul" if three == "umul.with.overflow" => B::UMulO,
                "sadd" if three == "sadd.with.overflow" => B::SAddO,
                "ssub" if three == "ssub.with.overflow" => B::SSubO,
                "smul" if three == "smul.with.overflow" => B::SMulO,
                "fshl" => B::FShl,
                "fshr" => B::FShr,
                "ctlz" => B::Ctlz,
                "cttz" => B::Cttz,
                "ctpop" => B::Ctpop,
                "bswap" => B::Bswap,
                "bitreverse" => B::Bitrev,
                "abs" => B::Abs,
                "ucmp" => B::UCmp,
                "scmp" => B::SCmp,
                "expect" => B::Expect,
                "is" if two == "is.fpclass" => B::IsFpClass,
                "is" => B::IsConst,
                "threadlocal" => B::TlAddr,
                "trap" | "ubsantrap" | "debugtrap" => B::Trap,
                "fabs" => B::FAbs,
                "sqrt" => B::FSqrt,
                "floor" => B::FFloor,
                "ceil" => B::FCeil,
                "trunc" => B::FTruncI,
                "round" => B::FRound,
                "roundeven" | "rint" | "nearbyint" => B::FRoundEven,
                "fma" => B::FMa,
                "fmuladd" => B::FMulAdd,
                "minnum" | "minimumnum" => B::FMin,
                "maxnum" | "maximumnum" => B::FMax,
                "copysign" => B::FCopysign,
                "pow" => B::FPow,
                "powi" => B::FPowi,
                "exp" => B::FExp,
                "exp2" => B::FExp2,
                "log" => B::FLog,
                "log2" => B::FLog2,
                "log10" => B::FLog10,
                "sin" => B::FSin,
                "cos" => B::FCos,
                "fptoui" => B::FToUSat,
                "fptosi" => B::FToSSat,
                "load" => B::LoadRel,
                "ptrmask" => B::PtrMask,
                "vector" => match base.get(2).copied().unwrap_or("") {
                    "add" => B::VReduce(0),
                    "or" => B::VReduce(1),
                    "and" => B::VReduce(2),
                    "umax" => B::VReduce(3),
                    "umin" => B::VReduce(4),
                    "xor" => B::VReduce(5),
                    "mul" => B::VReduce(6),
                    _ => B::Unknown,
                },
                _ => B::Unknown,
            });
        }
        Some(match n {
            "bcmp" => B::Bcmp,
            "memcmp" => B::Memcmp,
            "memcpy" => B::Memcpy,
            "memmove" => B::Memmove,
            "memset" => B::Memset,
            "strlen" => B::Strlen,
            "getrandom" => B::GetRandom,
            "malloc" => B::Malloc,
            "calloc" => B::Calloc,
            "realloc" => B::Realloc,
            "free" => B::Free,
            "posix_memalign" => B::PosixMemalign,
            "abort" => B::Abort,
            "rsym_bytes" => B::RBytes,
            "rsym_assume" => B::RAssume,
            "rsym_assert" => B::RAssert,
            "rsym_param" => B::RParam,
            "rsym_concretize" => B::RConc,
            "rsym_expect_panic" => B::RExpect,
            "rsym_reach" => B::RReach,
            "rsym_observe" => B::RObserve,
            "rsym_is_sym" => B::RIsSym,
            "rsym_alloc_peak" => B::RAllocPeak,
            "rsym_alloc_mark" => B::RAllocMark,
            "rsym_merge" => B::RMerge,
            "rsym_fail" => B::RFail,
            "powf" => B::FPow,
            "pow" => B::FPow,
            "expf" | "exp" => B::FExp,
            "exp2f" | "exp2" => B::FExp2,
            "logf" | "log" => B::FLog,
            "log2f" | "log2" => B::FLog2,
            "log10f" | "log10" => B::FLog10,
            "sinf" | "sin" => B::FSin,
            "cosf" | "cos" => B::FCos,
            "sqrtf" | "sqrt" => B::FSqrt,
            "floorf" | "floor" => B::FFloor,
            "ceilf" | "ceil" => B::FCeil,
            "truncf" | "trunc" => B::FTruncI,
            "roundf" | "round" => B::FRound,
            "fmaf" | "fma" => B::FMa,
            "__errno_location" => B::Errno,
            "getenv" => B::Getenv,
            "sysconf" => B::Sysconf,
            "write" | "writev" => B::Write,
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" => B::Zero,
            _ => return None,
        })
    }

    pub fn target(&mut self, name: &str) -> Tgt {
        let name = &self.m.aliases.get(name).cloned().unwrap_or_else(|| name.to_string());
        if let Some(b) = self.hooks.get(name) {
            return Tgt::B(*b, name.as_str().into());
        }
        let has = |s: &str| name.contains(s);
        if has("4core9panicking") && !has("10AssertKind") {
            return Tgt::B(B::Panic, name.as_str().into());
        }
        if has("3std9panicking") && (has("11begin_panic") || has("13begin_panic_h") || has("10rust_panic") || has("19begin_panic_handler")) {
            return Tgt::B(B::Panic, name.as_str().into());
        }
        if has("18handle_alloc_error") || has("17rust_oom") || has("8rust_oom") {
            return Tgt::B(B::Oom, name.as_str().into());
        }
        if self.m.fns.contains_key(name) {
            // our models of byte comparison are exact and much cheaper than library code
            if let Some(b) = self.builtin(name) {
                if !name.starts_with("rsym_") || true {
                    return Tgt::B(b, name.as_str().into());
                }
            }
            return Tgt::Fn(self.fid[name]);
        }
        match self.builtin(name) {
            Some(b) => Tgt::B(b, name.as_str().into()),
            None => Tgt::B(B::Unknown, name.as_str().into()),
        }
    }

    pub fn func(&mut self, id: u32, p: &mut Pool) -> Option<Rc<Func>> {
        if let Some(f) = &self.funcs[id as usize] {
            return Some(f.clone());
        }
        let name = self.fnames[id as usize].clone();
        if !self.m.fns.contains_key(&name) {
            return None;
        }
        let pf = self.m.parse_fn(&name);
        let f = Rc::new(self.lower(pf, p));
        self.funcs[id as usize] = Some(f.clone());
        Some(f)
    }

    fn lower(&mut self, pf: ll::PFn, p: &mut Pool) -> Func {
        let nb = pf.blocks.len();
        let mut blk = vec![0u32; nb];
        let mut n = 0;
        for (i, b) in pf.blocks.iter().enumerate() {
            blk[i] = n;
            n += b.len() as u32;
        }
        let ipd = ipdoms(&pf);
        let mut code = Vec::with_capacity(n as usize);
        for (bi, b) in pf.blocks.iter().enumerate() {
            for i in b {
                let l = self.lower_i(i, &blk, ipd[bi], p);
                code.push(l);
            }
        }
        let mut regw = vec![0u32; pf.nregs as usize];
        fn setw(r: &mut [u32], d: u32, t: &Ty) {
            r[d as usize] = match t {
                Ty::Int(w) => *w,
                Ty::Ptr | Ty::F64 => 64,
                Ty::F32 => 32,
                Ty::F16 => 16,
                _ => 0,
            };
        }
        for (t, r) in &pf.params {
            setw(&mut regw, *r, t);
        }
        for b in &pf.blocks {
            for i in b {
                match i {
                    I::Bin(_, t, d, ..) | I::FBin(_, t, d, ..) | I::FNeg(t, d, _) | I::Cast(_, _, t, d, _) => setw(&mut regw, *d, t),
                    I::ICmp(_, t, d, ..) => setw(&mut regw, *d, if matches!(t, Ty::Vec(..)) { t } else { &Ty::Int(1) }),
                    I::FCmp(_, t, d, ..) => setw(&mut regw, *d, if matches!(t, Ty::Vec(..)) { t } else { &Ty::Int(1) }),
                    I::Select(t, d, ..) | I::Load(t, d, _) | I::Freeze(t, d, _) => setw(&mut regw, *d, t),
                    I::Alloca(_, d, _) | I::Gep(_, d, ..) => regw[*d as usize] = 64,
                    I::Call(t, Some(d), ..) | I::Invoke(t, Some(d), ..) => setw(&mut regw, *d, t),
                    I::ExtractEl(t, d, ..) => setw(&mut regw, *d, &t.elem(0)),
                    I::Extract(t, d, _, path) => {
                        let mut t = t.clone();
                        for k in path {
                            t = t.elem(*k);
                        }
                        setw(&mut regw, *d, &t)
                    }
                    I::AtomicRmw(_, t, d, ..) => setw(&mut regw, *d, t),
                    _ => {}
                }
                let mut em = |e: &ll::Edge| {
                    for (d, t, _) in &e.moves {
                        setw(&mut regw, *d, t);
                    }
                };
                match i {
                    I::Br(e) => em(e),
                    I::CondBr(_, a, b) => {
                        em(a);
                        em(b);
                    }
                    I::Switch(_, _, d, cs) => {
                        em(d);
                        for c in cs {
                            em(&c.1);
                        }
                    }
                    I::Invoke(.., e) => em(e),
                    _ => {}
                }
            }
        }
        let name = pf.name;
        Func {
            short: demangle(&name),
            is_fmt: name.contains("5alloc3fmt6format12format_inner"),
            name,
            params: pf.params.iter().map(|x| x.1).collect(),
            nregs: pf.nregs,
            code,
            blk,
            regw,
        }
    }

    fn ed(&mut self, e: &ll::Edge, blk: &[u32], p: &mut Pool) -> Ed {
        let moves = e.moves.iter().map(|(d, t, v)| (*d, self.op(t, v, p))).collect();
        Ed { pc: blk[e.to as usize], blk: e.to, moves: Rc::new(moves) }
    }

    fn lower_i(&mut self, i: &I, blk: &[u32], ipd: u32, p: &mut Pool) -> L {
        let vecinfo = |t: &Ty| match t {
            Ty::Vec(_, e) => (e.bits(), true),
            t => (t.bits(), false),
        };
        match i {
            I::Bin(b, t, d, x, y) => {
                let (w, v) = vecinfo(t);
                let (x, y) = (self.op(t, x, p), self.op(t, y, p));
                if v {
                    L::BinV(*b, w, *d, x, y)
                } else {
                    L::Bin(*b, w, *d, x, y)
                }
            }
            I::FBin(b, t, d, x, y) => {
                let (w, v) = vecinfo(t);
                L::FBin(*b, w, *d, self.op(t, x, p), self.op(t, y, p), v)
            }
            I::FNeg(t, d, x) => {
                let (w, v) = vecinfo(t);
                L::FNeg(w, *d, self.op(t, x, p), v)
            }
            I::ICmp(pr, t, d, x, y) => {
                let (w, v) = vecinfo(t);
                L::ICmp(*pr, w, *d, self.op(t, x, p), self.op(t, y, p), v)
            }
            I::FCmp(pr, t, d, x, y) => {
                let (w, v) = vecinfo(t);
                L::FCmp(pr.as_str().into(), w, *d, self.op(t, x, p), self.op(t, y, p), v)
            }
            I::Cast(c, t, t2, d, v) => {
                let o = self.op(t, v, p);
                let (w, ve) = vecinfo(t);
                let (w2, ve2) = vecinfo(t2);
                if *c == Cast::Bit && (ve || ve2) {
                    return L::Bitcast(t.clone(), t2.clone(), *d, o);
                }
                L::Cast(*c, w, w2, *d, o, ve)
            }
            I::Select(t, d, c, a, b) => {
                let cv = matches!(c.0, Ty::Vec(..));
                L::Select(*d, self.op(&c.0, &c.1, p), self.op(t, a, p), self.op(t, b, p), t.clone(), cv)
            }
            I::Load(t, d, a) => {
                let (w, n) = scalar(t);
                L::Load(t.clone(), *d, self.op(&Ty::Ptr, a, p), w, n)
            }
            I::Store(t, v, a) => {
                let (w, n) = scalar(t);
                L::Store(t.clone(), self.op(t, v, p), self.op(&Ty::Ptr, a, p), w, n)
            }
            I::Alloca(t, d, n) => {
                let o = n.as_ref().map(|(t, v)| self.op(t, v, p));
                L::Alloca(*d, t.size(), o)
            }
            I::Gep(t, d, base, ix) => {
                let b = self.op(&base.0, &base.1, p);
                let mut off = 0u64;
                let mut v = vec![];
                let mut cur = t.clone();
                for (k, (it, iv)) in ix.iter().enumerate() {
                    let iw = it.bits();
                    let o = self.op(it, iv, p);
                    if k == 0 {
                        let s = cur.size();
                        match o {
                            O::C(x) => off = off.wrapping_add((sext(x as u128, iw) as u64).wrapping_mul(s)),
                            o => v.push((o, iw, s)),
                        }
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let x = match o {
                                    O::C(x) => x,
                                    _ => panic!("struct gep index"),
                                };
                                off = off.wrapping_add(cur.field_off(x));
                                cur = cur.elem(x);
                            }
                            _ => {
                                let e = cur.elem(0);
                                let s = e.size();
                                match o {
                                    O::C(x) => off = off.wrapping_add((sext(x as u128, iw) as u64).wrapping_mul(s)),
                                    o => v.push((o, iw, s)),
                                }
                                cur = e;
                            }
                        }
                    }
                }
                if matches!(base.0, Ty::Vec(..)) || ix.iter().any(|(t, _)| matches!(t, Ty::Vec(..))) {
                    panic!("vector gep");
                }
                L::Gep(*d, b, off, Rc::new(v))
            }
            I::Call(t, d, c, a) => {
                let (tgt, args) = self.callee(c, a, p);
                L::Call(*d, tgt, args, t.clone())
            }
            I::Invoke(t, d, c, a, e) => {
                let (tgt, args) = self.callee(c, a, p);
                let ed = self.ed(e, blk, p);
                L::Invoke(*d, tgt, args, t.clone(), ed)
            }
            I::Extract(t, d, v, path) => L::Extract(*d, self.op(t, v, p), Rc::new(path.clone())),
            I::Insert(t, d, v, e, path) => {
                L::Insert(*d, self.op(t, v, p), self.op(&e.0, &e.1, p), Rc::new(path.clone()))
            }
            I::ExtractEl(t, d, v, i) => L::ExtractEl(*d, self.op(t, v, p), self.op(&i.0, &i.1, p)),
            I::InsertEl(t, d, v, e, i) => {
                L::InsertEl(*d, self.op(t, v, p), self.op(&t.elem(0), e, p), self.op(&i.0, &i.1, p))
            }
            I::Shuffle(t, d, a, b, mt, m) => {
                let mv = self.cv(mt, m, p);
                let idx = match mv {
                    V::A(v) => v.iter().map(|x| if let V::C(c) = x { *c } else { 0 }).collect(),
                    _ => vec![],
                };
                L::Shuffle(*d, self.op(t, a, p), self.op(t, b, p), Rc::new(idx))
            }
            I::Freeze(t, d, v) => L::Mov(*d, self.op(t, v, p)),
            I::AtomicRmw(o, t, d, a, v) => L::Rmw(o.as_str().into(), t.clone(), *d, self.op(&Ty::Ptr, a, p), self.op(t, v, p)),
            I::CmpXchg(t, d, a, c, n) => {
                L::CmpXchg(t.clone(), *d, self.op(&Ty::Ptr, a, p), self.op(t, c, p), self.op(t, n, p))
            }
            I::Nop => L::Nop,
            I::Br(e) => L::Br(self.ed(e, blk, p)),
            I::CondBr(c, a, b) => {
                let c = self.op(&Ty::Int(1), c, p);
                L::CondBr(c, self.ed(a, blk, p), self.ed(b, blk, p), ipd)
            }
            I::Switch(t, v, def, cs) => {
                let w = t.bits();
                let o = self.op(t, v, p);
                let d = self.ed(def, blk, p);
                let c: Vec<(u64, Ed)> = cs.iter().map(|(v, e)| (self.cval(t, v) as u64, self.ed(e, blk, p))).collect();
                L::Switch(w, o, d, Rc::new(c), ipd)
            }
            I::Ret(t, v) => L::Ret(v.as_ref().map(|v| self.op(t, v, p))),
            I::Unreachable | I::LandingPad => L::Unreachable,
        }
    }
    fn callee(&mut self, c: &Callee, a: &[(Ty, Val)], p: &mut Pool) -> (Tgt, Rc<Vec<(Ty, O)>>) {
        let args: Vec<(Ty, O)> = a.iter().map(|(t, v)| (t.clone(), self.op(t, v, p))).collect();
        let t = match c {
            Callee::Fn(n) => self.target(n),
            Callee::Ptr(v) => Tgt::Ptr(self.op(&Ty::Ptr, v, p)),
            Callee::Asm(s) => {
                if s.contains("cpuid") || s.contains("xgetbv") {
                    Tgt::B(B::Cpuid, s.as_str().into())
                } else if s.trim().is_empty() {
                    Tgt::B(B::Zero, s.as_str().into())
                } else {
                    Tgt::B(B::Unknown, format!("asm {s}").as_str().into())
                }
            }
        };
        (t, Rc::new(args))
    }
}

/// The integer of a constant address.
fn ptr_int(v: &Val) -> bool {
    matches!(v, Val::CastC("bit", tv, t) if t.bits() == 64 && matches!(tv.1, Val::Global(_) | Val::GepC(..)))
}
fn scalar(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Int(w) => (*w, (*w + 7) / 8),
        Ty::Ptr | Ty::F64 => (64, 8),
        Ty::F32 => (32, 4),
        Ty::F16 => (16, 2),
        _ => (0, 0),
    }
}

/// Immediate post-dominator of every block (u32::MAX when none), ignoring blocks that cannot
/// return (those ending in `unreachable`).
fn ipdoms(pf: &ll::PFn) -> Vec<u32> {
    let n = pf.blocks.len();
    let succ: Vec<Vec<usize>> = pf
        .blocks
        .iter()
        .map(|b| match b.last() {
            Some(I::Br(e)) => vec![e.to as usize],
            Some(I::CondBr(_, a, b)) => vec![a.to as usize, b.to as usize],
            Some(I::Switch(_, _, d, cs)) => {
                let mut v = vec![d.to as usize];
                v.extend(cs.iter().map(|c| c.1.to as usize));
                v
            }
            Some(I::Invoke(.., e)) => vec![e.to as usize],
            _ => vec![],
        })
        .collect();
    // blocks that reach a return
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, s) in succ.iter().enumerate() {
        for &t in s {
            pred[t].push(i);
        }
    }
    let mut live = vec![false; n];
    let mut st: Vec<usize> = vec![];
    for i in 0..n {
        if let Some(I::Ret(..)) = pf.blocks[i].last() {
            live[i] = true;
            st.push(i);
        }
    }
    while let Some(x) = st.pop() {
        for &q in &pred[x] {
            if !live[q] {
                live[q] = true;
                st.push(q);
            }
        }
    }
    // iterative post-dominator computation with virtual exit n (Cooper-Harvey-Kennedy)
    let exit = n;
    let mut order: Vec<usize> = vec![];
    {
        // postorder on reversed graph from exit
        let mut seen = vec![false; n + 1];
        let mut stack: Vec<(usize, usize)> = vec![];
        seen[exit] = true;
        let exits: Vec<usize> = (0..n).filter(|&i| live[i] && matches!(pf.blocks[i].last(), Some(I::Ret(..)))).collect();
        stack.push((exit, 0));
        while let Some((x, k)) = stack.pop() {
            let ch: &Vec<usize> = if x == exit { &exits } else { &pred[x] };
            if k < ch.len() {
                stack.push((x, k + 1));
                let y = ch[k];
                if live[y] && !seen[y] {
                    seen[y] = true;
                    stack.push((y, 0));
                }
            } else {
                order.push(x);
            }
        }
        order.reverse();
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &x) in order.iter().enumerate() {
        num[x] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().skip(1) {
            let mut nd = usize::MAX;
            let mut ss: Vec<usize> = succ[x].iter().copied().filter(|&s| live[s]).collect();
            if matches!(pf.blocks[x].last(), Some(I::Ret(..))) {
                ss.push(exit);
            }
            for s in ss {
                if idom[s] == usize::MAX {
                    continue;
                }
                nd = if nd == usize::MAX {
                    s
                } else {
                    let (mut a, mut b) = (nd, s);
                    while a != b {
                        while num[a] > num[b] {
                            a = idom[a];
                        }
                        while num[b] > num[a] {
                            b = idom[b];
                        }
                    }
                    a
                };
            }
            if nd != idom[x] {
                idom[x] = nd;
                changed = true;
            }
        }
    }
    (0..n)
        .map(|i| if idom[i] == usize::MAX || idom[i] == exit { u32::MAX } else { idom[i] as u32 })
        .collect()
}

/// Registers live at the entry of every block (its phi destinations included).
pub fn liveness(f: &Func) -> Vec<Vec<bool>> {
    let nb = f.blk.len();
    let nr = f.nregs as usize;
    let end = |b: usize| if b + 1 < nb { f.blk[b + 1] as usize } else { f.code.len() };
    fn uo(o: &O, s: &mut [bool]) {
        if let O::R(r) = o {
            s[*r as usize] = true;
        }
    }
    let edge = |e: &Ed, live: &[Vec<bool>], s: &mut Vec<bool>| {
        let mut t = live[e.blk as usize].clone();
        for (d, _) in e.moves.iter() {
            t[*d as usize] = false;
        }
        for (_, o) in e.moves.iter() {
            uo(o, &mut t);
        }
        for (i, x) in t.iter().enumerate() {
            if *x {
                s[i] = true;
            }
        }
    };
    let mut live = vec![vec![false; nr]; nb];
    let mut changed = true;
    while changed {
        changed = false;
        for b in (0..nb).rev() {
            let mut s = vec![false; nr];
            for pc in (f.blk[b] as usize..end(b)).rev() {
                macro_rules! d {
                    ($d:expr) => {
                        s[*$d as usize] = false
                    };
                }
                match &f.code[pc] {
                    L::Bin(_, _, d, x, y) | L::BinV(_, _, d, x, y) => {
                        d!(d);
                        uo(x, &mut s);
                        uo(y, &mut s);
                    }
                    L::FBin(_, _, d, x, y, _) | L::ICmp(_, _, d, x, y, _) | L::FCmp(_, _, d, x, y, _) => {
                        d!(d);
                        uo(x, &mut s);
                        uo(y, &mut s);
                    }
                    L::FNeg(_, d, x, _) | L::Cast(_, _, _, d, x, _) | L::Bitcast(_, _, d, x) | L::Mov(d, x) => {
                        d!(d);
                        uo(x, &mut s);
                    }
                    L::Select(d, c, x, y, _, _) => {
                        d!(d);
                        uo(c, &mut s);
                        uo(x, &mut s);
                        uo(y, &mut s);
                    }
                    L::Load(_, d, a, _, _) => {
                        d!(d);
                        uo(a, &mut s);
                    }
                    L::Store(_, v, a, _, _) => {
                        uo(v, &mut s);
                        uo(a, &mut s);
                    }
                    L::Alloca(d, _, n) => {
                        d!(d);
                        if let Some(n) = n {
                            uo(n, &mut s);
                        }
                    }
                    L::Gep(d, b, _, ix) | L::GepV(d, _, b, _, ix) => {
                        d!(d);
                        uo(b, &mut s);
                        for (o, _, _) in ix.iter() {
                            uo(o, &mut s);
                        }
                    }
                    L::Call(d, t, a, _) => {
                        if let Some(d) = d {
                            d!(d);
                        }
                        if let Tgt::Ptr(o) = t {
                            uo(o, &mut s);
                        }
                        for (_, o) in a.iter() {
                            uo(o, &mut s);
                        }
                    }
                    L::Invoke(d, t, a, _, e) => {
                        edge(e, &live, &mut s);
                        if let Some(d) = d {
                            d!(d);
                        }
                        if let Tgt::Ptr(o) = t {
                            uo(o, &mut s);
                        }
                        for (_, o) in a.iter() {
                            uo(o, &mut s);
                        }
                    }
                    L::Extract(d, v, _) => {
                        d!(d);
                        uo(v, &mut s);
                    }
                    L::Insert(d, v, e, _) | L::ExtractEl(d, v, e) | L::Shuffle(d, v, e, _) => {
                        d!(d);
                        uo(v, &mut s);
                        uo(e, &mut s);
                    }
                    L::InsertEl(d, v, e, i) => {
                        d!(d);
                        uo(v, &mut s);
                        uo(e, &mut s);
                        uo(i, &mut s);
                    }
                    L::Rmw(_, _, d, a, v) => {
                        d!(d);
                        uo(a, &mut s);
                        uo(v, &mut s);
                    }
                    L::CmpXchg(_, d, a, c, n) => {
                        d!(d);
                        uo(a, &mut s);
                        uo(c, &mut s);
                        uo(n, &mut s);
                    }
                    L::Nop | L::Unreachable => {}
                    L::Br(e) => edge(e, &live, &mut s),
                    L::CondBr(c, a, b, _) => {
                        edge(a, &live, &mut s);
                        edge(b, &live, &mut s);
                        uo(c, &mut s);
                    }
                    L::Switch(_, v, d, cs, _) => {
                        edge(d, &live, &mut s);
                        for (_, e) in cs.iter() {
                            edge(e, &live, &mut s);
                        }
                        uo(v, &mut s);
                    }
                    L::Ret(o) => {
                        if let Some(o) = o {
                            uo(o, &mut s);
                        }
                    }
                }
            }
            if s != live[b] {
                live[b] = s;
                changed = true;
            }
        }
    }
    live
}
