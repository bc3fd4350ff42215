//! The symbolic executor.
use crate::expr::*;
use crate::ll::{Bin, Cast, FBin, Pred, Ty};
use crate::lower::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fid: u32,
    pub pc: u32,
    pub regs: Vec<V>,
    pub sbase: u32,
}

/// Equalities known on a path (expression -> constant), with a rewriting memo.
pub struct Eqs {
    pub map: HashMap<E, u128, Fx>,
    pub memo: std::cell::RefCell<HashMap<E, E, Fx>>,
    pub sup: Vec<u64>,
}
impl Eqs {
    fn empty() -> Rc<Eqs> {
        Rc::new(Eqs { map: HashMap::default(), memo: Default::default(), sup: vec![] })
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub stack: Chunked,
    pub heap: Chunked,
    pub globals: Rc<HashMap<u32, Rc<Obj>>>,
    pub cons: Vec<E>,
    pub model: Model,
    pub eqs: Rc<Eqs>,
    pub nbytes: u32,
    pub expect_panic: bool,
    pub merge: u32,
    pub alloc_cur: u64,
    pub alloc_peak: u64,
    pub reach: u128,
    pub obs: Rc<Vec<(u8, E)>>,
    pub steps: u64,
    pub fmt_bail: u32,
}

#[derive(Clone, Copy, PartialEq)]
pub struct Stop {
    depth: usize,
    pc: u32,
}

/// Why an instruction did not complete normally.
pub enum X {
    /// the current state ended (already recorded)
    End,
    /// re-execute the same instruction (state changed)
    Again,
}
type R<T> = Result<T, X>;

#[derive(Clone)]
pub struct Viol {
    pub sig: String,
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
    pub count: u64,
}

#[derive(Clone)]
pub struct Sample {
    pub outcome: String,
    pub input: Vec<u8>,
    pub obs: Vec<u8>,
    pub reach: u128,
}

pub struct Lim {
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_alloc: u64,
    pub max_cand: u64,
    pub samples: usize,
    pub deadline: Option<Instant>,
    pub max_inputs: u32,
}

pub struct Exec {
    pub p: Pool,
    pub pr: Prog,
    pub s: Solver,
    pub work: Vec<State>,
    pub lim: Lim,
    pub params: Vec<u64>,
    pub viols: BTreeMap<String, Viol>,
    pub outcomes: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub nsamp: BTreeMap<(String, u128), u32>,
    pub reach: u128,
    pub paths: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub fnsteps: HashMap<u32, u64>,
    pub prof: HashMap<(u32, u32), u64>,
    pub live: HashMap<(u32, u32), Rc<Vec<bool>>>,
    pub asserts: u64,
    pub assert_const: u64,
    pub stopall: bool,
    /// sums stored to memory, by their bytes
    joined: HashMap<[E; 8], E>,
    pub verbose: bool,
    pub trace: bool,
}

fn bin_c(op: Bin, w: u32, x: u64, y: u64) -> Option<u64> {
    let m = mask(w) as u64;
    let sx = |v: u64| sext(v as u128, w) as i64;
    Some(match op {
        Bin::Add => x.wrapping_add(y) & m,
        Bin::Sub => x.wrapping_sub(y) & m,
        Bin::Mul => x.wrapping_mul(y) & m,
        Bin::UDiv => x.checked_div(y)?,
        Bin::URem => x.checked_rem(y)?,
        Bin::SDiv => {
            if y == 0 {
                return None;
            }
            (sx(x).wrapping_div(sx(y)) as u64) & m
        }
        Bin::SRem => {
            if y == 0 {
                return None;
            }
            (sx(x).wrapping_rem(sx(y)) as u64) & m
        }
        Bin::And => x & y,
        Bin::Or => x | y,
        Bin::Xor => x ^ y,
        Bin::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
        Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
        Bin::AShr => {
            let s = y.min(w as u64 - 1);
            ((sx(x) >> s) as u64) & m
        }
    })
}
fn cmp_c(pr: Pred, w: u32, x: u64, y: u64) -> bool {
    let sx = |v: u64| sext(v as u128, w) as i64;
    match pr {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sx(x) < sx(y),
        Pred::Sle => sx(x) <= sx(y),
        Pred::Sgt => sx(x) > sx(y),
        Pred::Sge => sx(x) >= sx(y),
    }
}
fn fbin_c(op: FBin, w: u32, x: u64, y: u64) -> u64 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op {
            FBin::Add => a + b,
            FBin::Sub => a - b,
            FBin::Mul => a * b,
            FBin::Div => a / b,
            FBin::Rem => a % b,
        })
        .to_bits() as u64
    } else {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        (match op {
            FBin::Add => a + b,
            FBin::Sub => a - b,
            FBin::Mul => a * b,
            FBin::Div => a / b,
            FBin::Rem => a % b,
        })
        .to_bits()
    }
}

impl Exec {
    pub fn new(pr: Prog, lim: Lim, params: Vec<u64>) -> Exec {
        Exec {
            p: Pool::new(),
            pr,
            s: Solver::new(),
            work: vec![],
            lim,
            params,
            viols: BTreeMap::new(),
            outcomes: BTreeMap::new(),
            incomplete: BTreeMap::new(),
            samples: vec![],
            nsamp: BTreeMap::new(),
            reach: 0,
            paths: 0,
            forks: 0,
            merges: 0,
            steps: 0,
            fnsteps: HashMap::new(),
            prof: HashMap::new(),
            live: HashMap::new(),
            asserts: 0,
            assert_const: 0,
            stopall: false,
            joined: HashMap::new(),
            verbose: std::env::var("RSYM_V").is_ok(),
            trace: std::env::var("RSYM_TRACE").is_ok(),
        }
    }

    // ---------- values ----------
    #[inline]
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.p.c(*x as u128, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate where a scalar is expected"),
        }
    }
    #[inline]
    fn v(&self, e: E) -> V {
        if self.p.w(e) <= 64 {
            if let Some(k) = self.p.is_c(e) {
                return V::C(k as u64);
            }
        }
        V::S(e)
    }
    #[inline]
    fn o(&self, st: &State, o: &O) -> V {
        match o {
            O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            O::C(x) => V::C(*x),
            O::V(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    // ---------- path facts ----------
    pub fn subst(&mut self, st: &State, e: E) -> E {
        let eqs = st.eqs.clone();
        if eqs.map.is_empty() {
            return e;
        }
        if !self.overlaps(e, &eqs.sup) {
            return e;
        }
        let mut memo = eqs.memo.borrow_mut();
        self.subst_in(e, &eqs, &mut memo)
    }
    fn overlaps(&self, e: E, s: &[u64]) -> bool {
        let x = &self.p.sups[self.p.i[e as usize].sup as usize];
        x.iter().zip(s.iter()).any(|(a, b)| a & b != 0)
    }
    fn subst_in(&mut self, e: E, eqs: &Eqs, memo: &mut HashMap<E, E, Fx>) -> E {
        // iterative post-order rewriting
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            if let Some(&k) = eqs.map.get(&x) {
                let w = self.p.w(x);
                let c = self.p.c(k, w);
                memo.insert(x, c);
                stack.pop();
                continue;
            }
            if !self.overlaps(x, &eqs.sup) {
                memo.insert(x, x);
                stack.pop();
                continue;
            }
            let n = self.p.n[x as usize];
            let ks = kids(&n);
            let mut ready = true;
            for &k in ks.iter().flatten() {
                if !memo.contains_key(&k) {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            let g = |i: usize| ks[i].map(|k| memo[&k]);
            let (a, b, c) = (g(0), g(1), g(2));
            let changed = (0..3).any(|i| ks[i].map_or(false, |k| memo[&k] != k));
            let r = if !changed { x } else { self.rebuild(&n, a.unwrap_or(0), b.unwrap_or(0), c.unwrap_or(0)) };
            let r = match eqs.map.get(&r) {
                Some(&k) => {
                    let w = self.p.w(r);
                    self.p.c(k, w)
                }
                None => r,
            };
            memo.insert(x, r);
        }
        memo[&e]
    }
    fn rebuild(&mut self, n: &Node, a: E, b: E, c: E) -> E {
        let p = &mut self.p;
        let w = n.w as u32;
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Add => p.add(a, b),
            Op::Sub => p.sub(a, b),
            Op::Mul => p.mul(a, b),
            Op::UDiv => p.udiv(a, b),
            Op::URem => p.urem(a, b),
            Op::SDiv => p.sdiv(a, b),
            Op::SRem => p.srem(a, b),
            Op::And => p.and(a, b),
            Op::Or => p.or(a, b),
            Op::Xor => p.xor(a, b),
            Op::Shl => p.shl(a, b),
            Op::LShr => p.lshr(a, b),
            Op::AShr => p.ashr(a, b),
            Op::Eq => p.eq(a, b),
            Op::Ult => p.ult(a, b),
            Op::Ule => p.ule(a, b),
            Op::Slt => p.slt(a, b),
            Op::Sle => p.sle(a, b),
            Op::Ite => p.ite(a, b, c),
            Op::Concat => p.concat(a, b),
            Op::Extract => p.extract(a, n.k as u32, w),
            Op::ZExt => p.zext(a, w),
            Op::SExt => p.sext(a, w),
            Op::Table => {
                let t = p.tables[n.k as usize].clone();
                p.table(a, (*t).clone(), w)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => p.fbin(n.op, a, b),
            Op::FEq | Op::FLt | Op::FLe | Op::FUno => p.fcmp(n.op, a, b),
            Op::FFma => p.fma(a, b, c),
            _ => p.fun(n.op, a, w, n.k),
        }
    }
    /// Record a constraint and what it pins down.
    fn assume(&mut self, st: &mut State, e: E) {
        if self.p.is_c(e) == Some(1) {
            return;
        }
        st.cons.push(e);
        // collect equalities
        let mut new: Vec<(E, u128)> = vec![];
        let mut todo = vec![(e, true)];
        while let Some((x, val)) = todo.pop() {
            if self.p.is_c(x).is_some() {
                continue;
            }
            let n = self.p.n[x as usize];
            new.push((x, val as u128));
            if let Some(y) = self.p.is_not(x) {
                todo.push((y, !val));
                continue;
            }
            match n.op {
                Op::And if val && n.w == 1 => {
                    todo.push((n.a, true));
                    todo.push((n.b, true));
                }
                Op::Or if !val && n.w == 1 => {
                    todo.push((n.a, false));
                    todo.push((n.b, false));
                }
                Op::Eq if val => {
                    let (k, y) = if let Some(k) = self.p.is_c(n.a) {
                        (k, n.b)
                    } else if let Some(k) = self.p.is_c(n.b) {
                        (k, n.a)
                    } else {
                        continue;
                    };
                    self.pin(y, k, &mut new);
                }
                _ => {}
            }
        }
        let mut map = st.eqs.map.clone();
        let mut sup = st.eqs.sup.clone();
        let mut grew = false;
        for (x, k) in new {
            if map.insert(x, k).is_none() {
                grew = true;
                let s = self.p.sup(x);
                if sup.len() < s.len() {
                    sup.resize(s.len(), 0);
                }
                for (i, b) in s.iter().enumerate() {
                    sup[i] |= b;
                }
            }
        }
        if grew {
            st.eqs = Rc::new(Eqs { map, memo: Default::default(), sup });
        }
    }
    fn pin(&mut self, y: E, k: u128, new: &mut Vec<(E, u128)>) {
        let n = self.p.n[y as usize];
        if n.op == Op::Const {
            return;
        }
        new.push((y, k));
        match n.op {
            Op::Concat => {
                let bw = self.p.w(n.b);
                self.pin(n.a, k >> bw, new);
                self.pin(n.b, k & mask(bw), new);
            }
            Op::ZExt => {
                let aw = self.p.w(n.a);
                self.pin(n.a, k & mask(aw), new);
            }
            Op::SExt => {
                let aw = self.p.w(n.a);
                self.pin(n.a, k & mask(aw), new);
            }
            Op::Add => {
                if let Some(c) = self.p.is_c(n.a) {
                    self.pin(n.b, k.wrapping_sub(c) & mask(n.w as u32), new);
                } else if let Some(c) = self.p.is_c(n.b) {
                    self.pin(n.a, k.wrapping_sub(c) & mask(n.w as u32), new);
                }
            }
            _ => {}
        }
    }

    /// Can `e` hold on this path? Only the constraints sharing inputs with it matter, because the
    /// state's model already satisfies the others.
    fn feasible(&mut self, st: &State, e: E) -> Res {
        if let Some(k) = self.p.is_c(e) {
            return if k == 1 { Res::Sat(st.model.clone()) } else { Res::Unsat };
        }
        let mut sup: Vec<u64> = (*self.p.sup(e)).clone();
        let mut used = vec![false; st.cons.len()];
        let mut q = vec![e];
        loop {
            let mut grew = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cs = &self.p.sups[self.p.i[c as usize].sup as usize];
                if cs.iter().zip(sup.iter()).any(|(a, b)| a & b != 0) {
                    used[i] = true;
                    grew = true;
                    if sup.len() < cs.len() {
                        sup.resize(cs.len(), 0);
                    }
                    for (k, b) in cs.iter().enumerate() {
                        sup[k] |= b;
                    }
                    q.push(c);
                }
            }
            if !grew {
                break;
            }
        }
        self.s.deadline = self.lim.deadline;
        self.s.check(&mut self.p, &q, &st.model)
    }

    /// Decide a condition; forks when both sides are possible (the other side is queued as a state
    /// that re-executes the current instruction). Returns the side this state takes.
    fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        let e0 = e;
        let e = self.subst(st, e);
        if self.trace {
            eprintln!("  decide {} => {}", self.p.show(e0, 9), self.p.show(e, 9));
        }
        let e = self.tab1(e);
        if let Some(k) = self.p.is_c(e) {
            return Ok(k == 1);
        }
        let t = self.p.eval(e, &st.model) == 1;
        let ne = self.p.not(e);
        let (mine, other) = if t { (e, ne) } else { (ne, e) };
        match self.feasible(st, other) {
            Res::Unsat => {
                // implied: remember it so that later occurrences fold
                self.note(st, mine);
                Ok(t)
            }
            Res::Sat(m) => {
                if self.bail_fmt(st) {
                    return Err(X::Again);
                }
                self.forks += 1;
                if let Some(f) = st.frames.last() {
                    *self.prof.entry((f.fid, f.pc)).or_insert(0) += 1;
                }
                let mut s2 = st.clone();
                s2.model = m;
                self.assume(&mut s2, other);
                self.work.push(s2);
                self.assume(st, mine);
                Ok(t)
            }
            Res::Unknown => {
                self.note_incomplete("solver-unknown");
                self.assume(st, mine);
                Ok(t)
            }
        }
    }
    /// A condition on a single input byte, as an exact table when its form is not already simple.
    fn tab1(&mut self, e: E) -> E {
        if self.p.sup_count(e) != 1 {
            return e;
        }
        let n = self.p.n[e as usize];
        let simple = |p: &Pool, x: E| matches!(p.n[x as usize].op, Op::Var | Op::Const | Op::Table);
        if matches!(n.op, Op::Table | Op::Extract) || (matches!(n.op, Op::Eq | Op::Ult | Op::Ule) && simple(&self.p, n.a) && simple(&self.p, n.b)) {
            return e;
        }
        if let Some(y) = self.p.is_not(e) {
            let t = self.tab1(y);
            return self.p.not(t);
        }
        let t = self.p.force_table(e);
        if self.p.is_c(t).is_some() {
            t
        } else {
            e
        }
    }
    /// Add an implied fact to the rewriting map (no new constraint).
    fn note(&mut self, st: &mut State, e: E) {
        let n = st.cons.len();
        self.assume(st, e);
        st.cons.truncate(n);
    }
    fn note_incomplete(&mut self, why: &str) {
        if self.verbose {
            eprintln!("incomplete: {why}");
        }
        *self.incomplete.entry(why.to_string()).or_insert(0) += 1;
    }
    /// A symbolic decision inside `format!`: error messages are not part of any property, so the
    /// formatting call returns an empty string instead of enumerating digit strings.
    fn bail_fmt(&mut self, st: &mut State) -> bool {
        let k = match st.frames.iter().rposition(|f| f.f.is_fmt) {
            Some(k) if k > 0 => k,
            _ => return false,
        };
        // String { cap, ptr, len } is returned through the first argument
        let out = st.frames[k].regs[st.frames[k].f.params[0] as usize].clone();
        let sb = st.frames[k].sbase;
        st.frames.truncate(k);
        st.stack.truncate(sb as usize);
        if let V::C(a) = out {
            for (i, x) in [0u64, 1, 0].iter().enumerate() {
                let _ = self.store_n(st, a + 8 * i as u64, *x, 8);
            }
        }
        st.fmt_bail += 1;
        // resume after the call
        let f = st.frames.last_mut().unwrap();
        match &f.f.code[f.pc as usize] {
            L::Invoke(..) => {
                let code = f.f.clone();
                if let L::Invoke(_, _, _, _, ed) = &code.code[f.pc as usize] {
                    let ed = ed.clone();
                    self.jump(st, &ed);
                }
            }
            _ => f.pc += 1,
        }
        true
    }
    /// Make a value concrete by forking over its feasible values.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::A(_) => panic!("concretize aggregate"),
            V::S(e) => {
                let e = self.subst(st, *e);
                if let Some(k) = self.p.is_c(e) {
                    return Ok(k as u64);
                }
                let k = self.p.eval(e, &st.model);
                let c = self.p.c(k, w);
                let eq = self.p.eq(e, c);
                self.decide(st, eq)?;
                Ok(k as u64)
            }
        }
    }

    // ---------- memory ----------
    fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> Option<Rc<Obj>> {
        if id >= ID_HEAP {
            st.heap.get((id - ID_HEAP) as usize).cloned()
        } else if id >= ID_STACK {
            st.stack.get((id - ID_STACK) as usize).cloned()
        } else if id >= ID_GLOBAL {
            if let Some(o) = st.globals.get(&id) {
                return Some(o.clone());
            }
            self.pr.global(id)
        } else {
            None
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= ID_HEAP {
            st.heap.get_mut((id - ID_HEAP) as usize)
        } else if id >= ID_STACK {
            st.stack.get_mut((id - ID_STACK) as usize)
        } else if id >= ID_GLOBAL {
            if !st.globals.contains_key(&id) {
                let o = self.pr.global(id)?;
                let m = Rc::make_mut(&mut st.globals);
                m.insert(id, o);
            }
            let m = Rc::make_mut(&mut st.globals);
            m.get_mut(&id).map(Rc::make_mut)
        } else {
            None
        }
    }
    fn memerr<T>(&mut self, st: &mut State, what: &str, addr: u64, n: u64) -> R<T> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as i64 - BASE as i64;
        let d = match self.obj(st, id) {
            Some(o) => format!("{what} of {n} bytes at offset {off} of an object of {} bytes", o.size),
            None if id >= ID_HEAP && ((id - ID_HEAP) as usize) < st.heap.len() => format!("{what} of {n} bytes in a freed allocation"),
            None => format!("{what} of {n} bytes at invalid address {addr:#x}"),
        };
        self.violation(st, "memory", what, &d);
        Err(X::End)
    }
    #[inline]
    fn chk(&mut self, st: &mut State, addr: u64, n: u64, what: &str) -> R<(u32, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE);
        let size = if id >= ID_HEAP {
            st.heap.get((id - ID_HEAP) as usize).map(|o| o.size)
        } else if id >= ID_STACK {
            st.stack.get((id - ID_STACK) as usize).map(|o| o.size)
        } else {
            self.obj(st, id).map(|o| o.size)
        };
        match size {
            Some(s) if off <= s as u64 && off + n <= s as u64 => Ok((id, off as usize)),
            _ => self.memerr(st, what, addr, n),
        }
    }
    fn obj_load(&mut self, o: &Obj, off: usize, n: usize, w: u32) -> V {
        if !o.any_sym(off, n) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let x = u128::from_le_bytes(b) & mask(w);
            if w <= 64 {
                return V::C(x as u64);
            }
            return V::S(self.p.c(x, w));
        }
        let mut key = [0; 8];
        if (2..=8).contains(&n) && !self.joined.is_empty() {
            for k in 0..n {
                key[k] = match o.get(off + k) {
                    Ok(c) => self.p.c(c as u128, 8),
                    Err(e) => e,
                };
            }
            if let Some(&e) = self.joined.get(&key) {
                let r = self.p.extract(e, 0, w);
                return self.v(r);
            }
        }
        let mut r: Option<E> = None;
        for k in (0..n).rev() {
            let b = match o.get(off + k) {
                Ok(c) => self.p.c(c as u128, 8),
                Err(e) => e,
            };
            r = Some(match r {
                None => b,
                Some(x) => self.p.concat(x, b),
            });
        }
        let mut r = r.unwrap();
        if self.p.w(r) > w {
            r = self.p.extract(r, 0, w);
        }
        self.v(r)
    }
    fn load_c(&mut self, st: &mut State, addr: u64, n: usize, w: u32) -> R<V> {
        let (id, off) = self.chk(st, addr, n as u64, "read")?;
        let o = self.obj(st, id).unwrap();
        Ok(self.obj_load(&o, off, n, w))
    }
    fn store_n(&mut self, st: &mut State, addr: u64, x: u64, n: usize) -> R<()> {
        self.store_c(st, addr, &V::C(x), n, n as u32 * 8)
    }
    fn store_c(&mut self, st: &mut State, addr: u64, v: &V, n: usize, w: u32) -> R<()> {
        let (id, off) = self.chk(st, addr, n as u64, "write")?;
        if id < ID_STACK {
            if self.obj(st, id).map_or(false, |o| o.konst) {
                return self.memerr(st, "write to constant", addr, n as u64);
            }
        }
        match v {
            V::C(x) => {
                let o = self.obj_mut(st, id).unwrap();
                let b = x.to_le_bytes();
                if o.nsym == 0 && n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    for k in 0..n {
                        o.set_c(off + k, *b.get(k).unwrap_or(&0));
                    }
                }
            }
            V::S(e) => {
                let bytes = self.split(*e, n, w);
                // sums are remembered whole, so that loading gives them back as they were
                if (2..=8).contains(&n) && w as usize == 8 * n && self.p.is_sum(*e) {
                    let mut key = [0; 8];
                    for (k, b) in bytes.iter().enumerate() {
                        key[k] = match b {
                            Ok(c) => self.p.c(*c as u128, 8),
                            Err(e) => *e,
                        };
                    }
                    self.joined.insert(key, *e);
                }
                let o = self.obj_mut(st, id).unwrap();
                for (k, b) in bytes.iter().enumerate() {
                    match b {
                        Ok(c) => o.set_c(off + k, *c),
                        Err(e) => o.set_s(off + k, *e),
                    }
                }
            }
            V::A(_) => panic!("store aggregate"),
        }
        Ok(())
    }
    /// Little-endian bytes of a scalar.
    fn split(&mut self, e: E, n: usize, w: u32) -> Vec<Result<u8, E>> {
        let e = if (w as usize) < 8 * n { self.p.zext(e, 8 * n as u32) } else { e };
        (0..n)
            .map(|k| {
                let b = self.p.extract(e, 8 * k as u32, 8);
                match self.p.is_c(b) {
                    Some(c) => Ok(c as u8),
                    None => Err(b),
                }
            })
            .collect()
    }
    /// Pin a symbolic address to one object: (id, symbolic offset).
    fn resolve(&mut self, st: &mut State, e: E, n: u64, what: &str) -> R<(u32, E)> {
        let a = self.p.eval(e, &st.model) as u64;
        let id = (a >> 32) as u32;
        let size = match self.obj(st, id) {
            Some(o) => o.size as u64,
            None => {
                return self.memerr(st, what, a, n);
            }
        };
        if n > size || (a & 0xffff_ffff).wrapping_sub(BASE) > size - n {
            return self.memerr(st, what, a, n);
        }
        let base = self.p.c(((id as u128) << 32) + BASE as u128, 64);
        let off = self.p.sub(e, base);
        let lim = self.p.c((size - n) as u128, 64);
        let ok = self.p.ule(off, lim);
        // decide takes this model's (in-bounds) side; the other side re-executes and fails there
        let t = self.decide(st, ok)?;
        debug_assert!(t);
        Ok((id, off))
    }
    /// Candidate offsets: (first, last, step).
    fn cands(&mut self, st: &mut State, off: E, max: u64) -> R<(u64, u64, u64)> {
        let off = self.subst(st, off);
        if self.p.sup_count(off) == 1 {
            let sid = self.p.i[off as usize].sup;
            let f: Vec<E> = st.cons.iter().copied().filter(|&c| self.p.i[c as usize].sup == sid).collect();
            if let Some(v) = self.p.byte_values(off, &f) {
                let mut o: Vec<u64> = v.iter().map(|x| x.1 as u64).filter(|&x| x <= max).collect();
                o.sort_unstable();
                o.dedup();
                if !o.is_empty() {
                    let lo = o[0];
                    let mut g = 0u64;
                    for x in &o {
                        let (mut a, mut b) = (g, *x);
                        while b != 0 {
                            (a, b) = (b, a % b);
                        }
                        g = a;
                    }
                    return Ok((lo, *o.last().unwrap(), g.max(1)));
                }
            }
        }
        let (lo, hi) = self.p.range(off);
        let kz = self.p.i[off as usize].kz;
        let step = 1u64 << kz.trailing_ones().min(12);
        let (mut lo, mut hi) = (lo, hi.min(max));
        lo = (lo + step - 1) / step * step;
        hi = hi / step * step;
        if hi < lo {
            hi = lo;
        }
        if (hi - lo) / step > 64 {
            // tighten with the solver (binary search on the upper bound)
            let cur = self.p.eval(off, &st.model) as u64;
            let (mut a, mut b) = (cur, hi); // max in [a,b]
            while a < b && (b - lo) / step > 16 {
                let mid = a + (b - a) / 2;
                let c = self.p.c(mid as u128, 64);
                let gt = self.p.ult(c, off);
                match self.feasible(st, gt) {
                    Res::Sat(m) => {
                        let x = self.p.eval(off, &m) as u64;
                        a = x.max(mid + 1).min(b);
                    }
                    Res::Unsat => b = mid,
                    Res::Unknown => break,
                }
            }
            hi = b;
            let (mut a, mut b) = (lo, cur);
            while a < b && (hi - a) / step > 16 {
                let mid = a + (b - a) / 2;
                let c = self.p.c(mid as u128, 64);
                let le = self.p.ule(off, c);
                match self.feasible(st, le) {
                    Res::Sat(m) => {
                        let x = self.p.eval(off, &m) as u64;
                        b = x.min(mid).max(a);
                    }
                    Res::Unsat => a = mid + 1,
                    Res::Unknown => break,
                }
            }
            lo = (a + step - 1) / step * step;
            hi = hi / step * step;
        }
        Ok((lo, hi, step))
    }
    fn load_s(&mut self, st: &mut State, e: E, n: usize, w: u32) -> R<V> {
        let e = self.subst(st, e);
        if let Some(a) = self.p.is_c(e) {
            return self.load_c(st, a as u64, n, w);
        }
        let (id, off) = self.resolve(st, e, n as u64, "read")?;
        let o = self.obj(st, id).unwrap();
        let max = o.size as u64 - n as u64;
        let (lo, hi, step) = self.cands(st, off, max)?;
        let cnt = (hi - lo) / step + 1;
        let off = self.subst(st, off);
        if cnt > self.lim.max_cand.max(if o.nsym == 0 { 1 << 16 } else { 0 }) {
            let a = self.conc(st, &V::S(e), 64)?;
            return self.load_c(st, a, n, w);
        }
        let all_c = o.nsym == 0 || !o.any_sym(lo as usize, (hi - lo) as usize + n);
        if all_c && w <= 64 {
            let mut t = vec![0u64; (hi / step) as usize + 1];
            let mut k = lo;
            while k <= hi {
                if let V::C(x) = self.obj_load(&o, k as usize, n, w) {
                    t[(k / step) as usize] = x;
                }
                k += step;
            }
            let mut idx = off;
            if step > 1 {
                let s = self.p.c(step as u128, 64);
                idx = self.p.udiv(off, s);
            }
            // entries below `lo` are never selected; give them the value at lo
            let f = t[(lo / step) as usize];
            for x in t.iter_mut().take((lo / step) as usize) {
                *x = f;
            }
            let r = self.p.table(idx, t, w);
            return Ok(self.v(r));
        }
        let mut k = hi;
        let last = self.obj_load(&o, k as usize, n, w);
        let mut r = self.e(&last, w);
        while k > lo {
            k -= step;
            let x = self.obj_load(&o, k as usize, n, w);
            let x = self.e(&x, w);
            let kc = self.p.c(k as u128, 64);
            let c = self.p.eq(off, kc);
            r = self.p.ite(c, x, r);
        }
        Ok(self.v(r))
    }
    fn store_s(&mut self, st: &mut State, e: E, v: &V, n: usize, w: u32) -> R<()> {
        let e = self.subst(st, e);
        if let Some(a) = self.p.is_c(e) {
            return self.store_c(st, a as u64, v, n, w);
        }
        let (id, off) = self.resolve(st, e, n as u64, "write")?;
        let (size, konst) = {
            let o = self.obj(st, id).unwrap();
            (o.size as u64, o.konst)
        };
        if konst {
            return self.memerr(st, "write to constant", (id as u64) << 32, n as u64);
        }
        let (lo, hi, step) = self.cands(st, off, size - n as u64)?;
        let cnt = (hi - lo) / step + 1;
        if cnt > self.lim.max_cand {
            let a = self.conc(st, &V::S(e), 64)?;
            return self.store_c(st, a, v, n, w);
        }
        let off = self.subst(st, off);
        let ve = self.e(v, w);
        let bytes = self.split(ve, n, w);
        let mut k = lo;
        while k <= hi {
            let kc = self.p.c(k as u128, 64);
            let c = self.p.eq(off, kc);
            for j in 0..n {
                let o = self.obj(st, id).unwrap();
                let old = match o.get(k as usize + j) {
                    Ok(c) => self.p.c(c as u128, 8),
                    Err(e) => e,
                };
                let new = match bytes[j] {
                    Ok(c) => self.p.c(c as u128, 8),
                    Err(e) => e,
                };
                drop(o);
                let r = self.p.ite(c, new, old);
                let isc = self.p.is_c(r);
                let o = self.obj_mut(st, id).unwrap();
                match isc {
                    Some(x) => o.set_c(k as usize + j, x as u8),
                    None => o.set_s(k as usize + j, r),
                }
            }
            k += step;
        }
        Ok(())
    }
    fn addk(&mut self, a: &V, k: u64) -> V {
        match a {
            V::C(x) => V::C(x.wrapping_add(k)),
            V::S(e) => {
                if k == 0 {
                    return a.clone();
                }
                let c = self.p.c(k as u128, 64);
                let r = self.p.add(*e, c);
                self.v(r)
            }
            V::A(_) => panic!("address aggregate"),
        }
    }
    fn load(&mut self, st: &mut State, a: &V, ty: &Ty, w: u32, n: u32) -> R<V> {
        if w == 0 {
            return match ty {
                Ty::Struct(ts, _) => {
                    let mut v = vec![];
                    for (i, t) in ts.iter().enumerate() {
                        let x = self.addk(a, ty.field_off(i as u64));
                        v.push(self.load_t(st, &x, t)?);
                    }
                    Ok(V::A(Rc::new(v)))
                }
                Ty::Arr(c, t) => {
                    let mut v = vec![];
                    for i in 0..*c {
                        let x = self.addk(a, i * t.size());
                        v.push(self.load_t(st, &x, t)?);
                    }
                    Ok(V::A(Rc::new(v)))
                }
                Ty::Vec(c, t) => {
                    let eb = t.bits();
                    if eb % 8 != 0 {
                        // packed bit vector
                        let tot = c * eb;
                        let x = self.load_t(st, a, &Ty::Int(tot))?;
                        let x = self.e(&x, tot);
                        let mut v = vec![];
                        for i in 0..*c {
                            let b = self.p.extract(x, i * eb, eb);
                            v.push(self.v(b));
                        }
                        return Ok(V::A(Rc::new(v)));
                    }
                    let mut v = vec![];
                    for i in 0..*c {
                        let x = self.addk(a, i as u64 * (eb as u64 / 8));
                        v.push(self.load_t(st, &x, t)?);
                    }
                    Ok(V::A(Rc::new(v)))
                }
                _ => panic!("load of {ty:?}"),
            };
        }
        match a {
            V::C(x) => self.load_c(st, *x, n as usize, w),
            V::S(e) => self.load_s(st, *e, n as usize, w),
            V::A(_) => panic!("load address"),
        }
    }
    fn load_t(&mut self, st: &mut State, a: &V, t: &Ty) -> R<V> {
        let (w, n) = scalar_of(t);
        self.load(st, a, t, w, n)
    }
    fn store(&mut self, st: &mut State, a: &V, v: &V, ty: &Ty, w: u32, n: u32) -> R<()> {
        if w == 0 {
            let vs = match v {
                V::A(x) => x.clone(),
                _ => panic!("store {ty:?}"),
            };
            if let Ty::Vec(c, t) = ty {
                let eb = t.bits();
                if eb % 8 != 0 {
                    let x = self.pack(&vs, eb);
                    let tot = c * eb;
                    let x = self.v(x);
                    return self.store(st, a, &x, &Ty::Int(tot), tot, (tot + 7) / 8);
                }
            }
            for (i, x) in vs.iter().enumerate() {
                let t = ty.elem(i as u64);
                let b = self.addk(a, ty.field_off(i as u64));
                let (w, n) = scalar_of(&t);
                self.store(st, &b, x, &t, w, n)?;
            }
            return Ok(());
        }
        match a {
            V::C(x) => self.store_c(st, *x, v, n as usize, w),
            V::S(e) => self.store_s(st, *e, v, n as usize, w),
            V::A(_) => panic!("store address"),
        }
    }
    fn pack(&mut self, vs: &[V], eb: u32) -> E {
        let mut r: Option<E> = None;
        for x in vs.iter().rev() {
            let e = self.e(x, eb);
            r = Some(match r {
                None => e,
                Some(h) => self.p.concat(h, e),
            });
        }
        r.unwrap()
    }
    pub fn alloc_heap(&mut self, st: &mut State, size: u64) -> u64 {
        let i = st.heap.push(Rc::new(Obj::new(size as usize, 0)));
        st.alloc_cur += size;
        st.alloc_peak = st.alloc_peak.max(st.alloc_cur);
        ((ID_HEAP as u64 + i as u64) << 32) + BASE
    }
    fn mem_bytes(&mut self, st: &mut State, addr: u64, n: usize, what: &str) -> R<Vec<Result<u8, E>>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.chk(st, addr, n as u64, what)?;
        let o = self.obj(st, id).unwrap();
        Ok((0..n).map(|k| o.get(off + k)).collect())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.chk(st, s, n, "read")?;
        let (di, d_o) = self.chk(st, d, n, "write")?;
        let n = n as usize;
        let src = self.obj(st, si).unwrap();
        if di < ID_STACK && self.obj(st, di).map_or(false, |o| o.konst) {
            return self.memerr(st, "write to constant", d, n as u64);
        }
        let src_sym = src.any_sym(so, n);
        if !src_sym {
            let data: Vec<u8> = src.data[so..so + n].to_vec();
            drop(src);
            let o = self.obj_mut(st, di).unwrap();
            if o.nsym == 0 {
                o.data[d_o..d_o + n].copy_from_slice(&data);
            } else {
                for (k, x) in data.iter().enumerate() {
                    o.set_c(d_o + k, *x);
                }
            }
        } else {
            let v: Vec<Result<u8, E>> = (0..n).map(|k| src.get(so + k)).collect();
            drop(src);
            let o = self.obj_mut(st, di).unwrap();
            for (k, x) in v.iter().enumerate() {
                match x {
                    Ok(c) => o.set_c(d_o + k, *c),
                    Err(e) => o.set_s(d_o + k, *e),
                }
            }
        }
        Ok(())
    }

    // ---------- outcomes ----------
    fn input(&self, st: &State) -> Vec<u8> {
        (0..st.nbytes as usize).map(|k| st.model.v.get(k).copied().unwrap_or(0)).collect()
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.short.clone()).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, site: &str, msg: &str) {
        let sig = if kind == "memory" || kind == "ub" || kind == "hang" {
            let f = st.frames.iter().rev().find(|f| f.f.name.contains("5image")).map(|f| f.f.short.clone()).unwrap_or_default();
            format!("{kind}:{site}:{f}")
        } else {
            format!("{kind}:{site}")
        };
        let input = self.input(st);
        let stack = self.stack_names(st);
        if self.verbose {
            eprintln!("VIOL {sig} {msg} {stack:?}");
        }
        let c = self.viols.entry(sig.clone()).or_insert(Viol { sig, kind: kind.into(), msg: msg.into(), input, stack, count: 0 });
        c.count += 1;
        *self.outcomes.entry(format!("violation:{kind}")).or_insert(0) += 1;
        self.paths += 1;
    }
    fn finish(&mut self, st: &State, outcome: &str) {
        self.paths += 1;
        *self.outcomes.entry(outcome.to_string()).or_insert(0) += 1;
        self.reach |= st.reach;
        if st.fmt_bail > 0 {
            *self.outcomes.entry("(paths with a skipped error-message format)".into()).or_insert(0) += 1;
        }
        if outcome == "done" || outcome == "expected-panic" {
            let k = self.nsamp.entry((outcome.to_string(), st.reach)).or_insert(0);
            if *k < 4 && self.samples.len() < self.lim.samples {
                *k += 1;
                let mut obs = vec![];
                for &(c, e) in st.obs.iter() {
                    obs.push(if e == 0 { c } else { self.p.eval(e, &st.model) as u8 });
                }
                let input = self.input(st);
                self.samples.push(Sample { outcome: outcome.into(), input, obs, reach: st.reach });
            }
        }
    }
    fn unsupported<T>(&mut self, st: &State, what: &str) -> R<T> {
        let w = format!("unsupported: {what} in {}", st.frames.last().map(|f| f.f.short.clone()).unwrap_or_default());
        self.note_incomplete(&w);
        self.paths += 1;
        *self.outcomes.entry("unsupported".into()).or_insert(0) += 1;
        Err(X::End)
    }

    // ---------- control ----------
    #[inline]
    fn jump(&self, st: &mut State, ed: &Ed) {
        let f = st.frames.last_mut().unwrap();
        f.pc = ed.pc;
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = &ed.moves[0];
                let v = match o {
                    O::R(r) => f.regs[*r as usize].clone(),
                    O::C(x) => V::C(*x),
                    O::V(v) => v.clone(),
                };
                f.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<V> = ed
                    .moves
                    .iter()
                    .map(|(_, o)| match o {
                        O::R(r) => f.regs[*r as usize].clone(),
                        O::C(x) => V::C(*x),
                        O::V(v) => v.clone(),
                    })
                    .collect();
                for ((d, _), v) in ed.moves.iter().zip(vals) {
                    f.regs[*d as usize] = v;
                }
            }
        }
    }
    pub fn push_frame(&mut self, st: &mut State, fid: u32, args: Vec<V>) -> R<()> {
        if st.frames.len() > 400 {
            return self.unsupported(st, "call depth");
        }
        let f = match self.pr.func(fid, &mut self.p) {
            Some(f) => f,
            None => {
                let n = self.pr.fnames[fid as usize].clone();
                return self.unsupported(st, &format!("call of external {n}"));
            }
        };
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (r, a) in f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        *self.fnsteps.entry(fid).or_insert(0) += 1;
        st.frames.push(Frame { f, fid, pc: 0, regs, sbase: st.stack.len() as u32 });
        Ok(())
    }

    pub fn initial(&mut self, fid: u32) -> State {
        let mut st = State {
            frames: vec![],
            stack: Chunked::default(),
            heap: Chunked::default(),
            globals: Rc::new(HashMap::new()),
            cons: vec![],
            model: self.s.fresh_model(vec![]),
            eqs: Eqs::empty(),
            nbytes: 0,
            expect_panic: false,
            merge: 0,
            alloc_cur: 0,
            alloc_peak: 0,
            reach: 0,
            obs: Rc::new(vec![]),
            steps: 0,
            fmt_bail: 0,
        };
        // heap object 0 is never used, so that a heap address is never the first id
        st.heap.push(Rc::new(Obj::new(0, 0)));
        let _ = self.push_frame(&mut st, fid, vec![]);
        st
    }

    pub fn explore(&mut self, st: State) {
        self.run(vec![st], None);
    }
    fn over(&mut self) -> bool {
        if self.stopall {
            return true;
        }
        if let Some(d) = self.lim.deadline {
            if Instant::now() >= d {
                self.note_incomplete("deadline");
                self.stopall = true;
                return true;
            }
        }
        if self.paths >= self.lim.max_paths {
            self.note_incomplete("path-limit");
            self.stopall = true;
            return true;
        }
        false
    }

    /// Run states until they end or (with a stop point) reach it.
    fn run(&mut self, init: Vec<State>, stop: Option<Stop>) -> Vec<State> {
        let base = self.work.len();
        self.work.extend(init);
        let mut out = vec![];
        while self.work.len() > base {
            if self.over() {
                let left = (self.work.len() - base) as u64;
                self.work.truncate(base);
                *self.outcomes.entry("abandoned".into()).or_insert(0) += left;
                break;
            }
            let mut st = self.work.pop().unwrap();
            loop {
                if let Some(s) = stop {
                    if st.frames.len() == s.depth && st.frames.last().unwrap().pc == s.pc {
                        out.push(st);
                        break;
                    }
                }
                match self.step(&mut st, stop) {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(X::Again) => {}
                    Err(X::End) => break,
                }
                if st.frames.is_empty() {
                    self.finish(&st, "done");
                    break;
                }
                if st.steps & 0xfffff == 0 && self.over() {
                    *self.outcomes.entry("abandoned".into()).or_insert(0) += 1;
                    break;
                }
            }
        }
        out
    }

    /// Symbolic two-way branch with merging: explore both arms to the join and merge there.
    fn branch_merge(&mut self, st: &mut State, c: E, a: &Ed, b: &Ed, join: u32) -> R<bool> {
        // (c is not constant and both sides are feasible is established here)
        let t = self.p.eval(c, &st.model) == 1;
        let nc = self.p.not(c);
        let (mine, other) = if t { (c, nc) } else { (nc, c) };
        let m = match self.feasible(st, other) {
            Res::Unsat => {
                self.note(st, mine);
                self.jump(st, if t { a } else { b });
                return Ok(true);
            }
            Res::Unknown => {
                self.note_incomplete("solver-unknown");
                self.assume(st, mine);
                self.jump(st, if t { a } else { b });
                return Ok(true);
            }
            Res::Sat(m) => m,
        };
        if self.bail_fmt(st) {
            return Err(X::Again);
        }
        self.forks += 1;
        if let Some(f) = st.frames.last() {
            *self.prof.entry((f.fid, f.pc)).or_insert(0) += 1;
        }
        let ncons = st.cons.len();
        let eqs0 = st.eqs.clone();
        let depth = st.frames.len();
        let jpc = st.frames.last().unwrap().f.blk[join as usize];
        let mut s1 = st.clone();
        let mut s2 = st.clone();
        self.assume(&mut s1, mine);
        self.jump(&mut s1, if t { a } else { b });
        self.assume(&mut s2, other);
        s2.model = m;
        self.jump(&mut s2, if t { b } else { a });
        let stop = Some(Stop { depth, pc: jpc });
        let mut res = self.run(vec![s1], stop);
        res.extend(self.run(vec![s2], stop));
        // merge
        let live = self.live_in(st.frames.last().unwrap().fid, join);
        let mut merged: Vec<State> = vec![];
        for s in res {
            let mut s = Some(s);
            for g in merged.iter_mut() {
                if let Some(r) = self.try_merge(g, s.as_ref().unwrap(), ncons, &eqs0, &live) {
                    *g = r;
                    s = None;
                    self.merges += 1;
                    break;
                }
            }
            if let Some(s) = s {
                merged.push(s);
            }
        }
        self.work.extend(merged);
        Ok(false)
    }

    fn live_in(&mut self, fid: u32, blk: u32) -> Rc<Vec<bool>> {
        if let Some(l) = self.live.get(&(fid, blk)) {
            return l.clone();
        }
        let f = self.pr.func(fid, &mut self.p).unwrap();
        let all = crate::lower::liveness(&f);
        for (i, l) in all.into_iter().enumerate() {
            self.live.insert((fid, i as u32), Rc::new(l));
        }
        self.live[&(fid, blk)].clone()
    }

    fn conj(&mut self, es: &[E]) -> E {
        let mut r = self.p.c(1, 1);
        for &e in es {
            r = self.p.and(r, e);
        }
        r
    }

    fn try_merge(&mut self, a: &State, b: &State, ncons: usize, eqs0: &Rc<Eqs>, live: &[bool]) -> Option<State> {
        if a.frames.len() != b.frames.len()
            || a.nbytes != b.nbytes
            || a.expect_panic != b.expect_panic
            || a.merge != b.merge
            || a.stack.len() != b.stack.len()
            || a.heap.len() != b.heap.len()
            || a.obs.len() != b.obs.len()
            || !Rc::ptr_eq(&a.globals, &b.globals)
        {
            return None;
        }
        let n = a.frames.len();
        for i in 0..n {
            if a.frames[i].pc != b.frames[i].pc || a.frames[i].fid != b.frames[i].fid {
                return None;
            }
        }
        // registers of outer frames cannot differ (arms run in or above this frame)
        let ca: Vec<E> = a.cons[ncons..].to_vec();
        let cb: Vec<E> = b.cons[ncons..].to_vec();
        let pa = self.conj(&ca);
        let pb = self.conj(&cb);
        // distinguishing condition: the arms are mutually exclusive, so pa decides
        let mut out = a.clone();
        let fa = &a.frames[n - 1];
        let fb = &b.frames[n - 1];
        for r in 0..fa.regs.len() {
            if !live[r] {
                continue;
            }
            let (x, y) = (&fa.regs[r], &fb.regs[r]);
            if x == y {
                continue;
            }
            let v = self.merge_v(pa, x, y, fa.f.regw[r])?;
            out.frames[n - 1].regs[r] = v;
        }
        if *a.obs != *b.obs {
            return None;
        }
        for heap in [false, true] {
            let (ma, mb) = if heap { (&a.heap, &b.heap) } else { (&a.stack, &b.stack) };
            for c in 0..ma.chunks() {
                if ma.same_chunk(mb, c) {
                    continue;
                }
                for k in c * Chunked::chunk_len()..((c + 1) * Chunked::chunk_len()).min(ma.len()) {
                    match (ma.get(k), mb.get(k)) {
                        (None, None) => {}
                        (Some(x), Some(y)) => {
                            if Rc::ptr_eq(x, y) {
                                continue;
                            }
                            if x.size != y.size {
                                return None;
                            }
                            let (x, y) = (x.clone(), y.clone());
                            let mut o = (*x).clone();
                            let mut changed = false;
                            let mut diff_conc_run = 0;
                            for i in 0..x.size as usize {
                                let (u, v) = (x.get(i), y.get(i));
                                if u == v {
                                    continue;
                                }
                                // concrete machine words that differ are most likely pointers, lengths
                                // or positions: keep such states apart
                                if u.is_ok() && v.is_ok() && self.wordish(&x, &y, i) {
                                    if out.merge < 2 {
                                        return None;
                                    }
                                    diff_conc_run += 1;
                                }
                                let ue = match u {
                                    Ok(c) => self.p.c(c as u128, 8),
                                    Err(e) => e,
                                };
                                let ve = match v {
                                    Ok(c) => self.p.c(c as u128, 8),
                                    Err(e) => e,
                                };
                                let r = self.p.ite(pa, ue, ve);
                                match self.p.is_c(r) {
                                    Some(c) => o.set_c(i, c as u8),
                                    None => o.set_s(i, r),
                                }
                                changed = true;
                            }
                            let _ = diff_conc_run;
                            if changed {
                                if heap {
                                    out.heap.set(k, Rc::new(o));
                                } else {
                                    out.stack.set(k, Rc::new(o));
                                }
                            }
                        }
                        _ => return None,
                    }
                }
            }
        }
        out.cons.truncate(ncons);
        let or = self.p.or(pa, pb);
        out.eqs = eqs0.clone();
        if self.p.is_c(or) != Some(1) {
            self.assume(&mut out, or);
        }
        out.steps = a.steps.max(b.steps);
        out.alloc_cur = a.alloc_cur.max(b.alloc_cur);
        out.alloc_peak = a.alloc_peak.max(b.alloc_peak);
        out.reach = a.reach | b.reach;
        Some(out)
    }
    /// Does byte i belong to an 8-aligned word that is concrete in both and looks like a pointer
    /// or a length (differs, upper half equal to an object id or all zero)?
    fn wordish(&self, x: &Obj, y: &Obj, i: usize) -> bool {
        let w = i / 8 * 8;
        if w + 8 > x.size as usize {
            return false;
        }
        if x.any_sym(w, 8) || y.any_sym(w, 8) {
            return false;
        }
        let g = |o: &Obj| u64::from_le_bytes(o.data[w..w + 8].try_into().unwrap());
        let (a, b) = (g(x), g(y));
        let hi = |v: u64| (v >> 32) as u32;
        let ptr = |v: u64| hi(v) >= ID_GLOBAL && (v & 0xffff_ffff) >= BASE;
        if ptr(a) || ptr(b) {
            return true;
        }
        false
    }
    fn merge_v(&mut self, c: E, x: &V, y: &V, w: u32) -> Option<V> {
        if x == y {
            return Some(x.clone());
        }
        match (x, y) {
            (V::A(a), V::A(b)) if a.len() == b.len() => {
                let mut r = vec![];
                for (u, v) in a.iter().zip(b.iter()) {
                    r.push(self.merge_v(c, u, v, 0)?);
                }
                Some(V::A(Rc::new(r)))
            }
            (V::S(a), V::S(b)) if self.p.w(*a) == self.p.w(*b) => {
                let r = self.p.ite(c, *a, *b);
                Some(self.v(r))
            }
            (V::S(a), V::C(k)) => {
                let w = self.p.w(*a);
                let k = self.p.c(*k as u128, w);
                let r = self.p.ite(c, *a, k);
                Some(self.v(r))
            }
            (V::C(k), V::S(a)) => {
                let w = self.p.w(*a);
                let k = self.p.c(*k as u128, w);
                let r = self.p.ite(c, k, *a);
                Some(self.v(r))
            }
            (V::C(a), V::C(b)) => {
                if w == 0 {
                    return None;
                }
                let ptr = |v: u64| (v >> 32) as u32 >= ID_GLOBAL && (v & 0xffff_ffff) >= BASE;
                if ptr(*a) || ptr(*b) {
                    return None;
                }
                let ka = self.p.c(*a as u128, w);
                let kb = self.p.c(*b as u128, w);
                let r = self.p.ite(c, ka, kb);
                Some(self.v(r))
            }
            _ => None,
        }
    }

    /// Execute one instruction. Ok(true): continue; Ok(false): the state has been handed over.
    fn step(&mut self, st: &mut State, _stop: Option<Stop>) -> R<bool> {
        self.steps += 1;
        st.steps += 1;
        if st.steps > self.lim.max_steps {
            self.violation(st, "hang", "step-limit", &format!("more than {} instructions on one path", self.lim.max_steps));
            return Err(X::End);
        }
        let (f, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.pc)
        };
        if self.trace {
            eprintln!("{}:{} {:?}", f.short, pc, f.code[pc as usize]);
        }
        match &f.code[pc as usize] {
            L::Bin(op, w, d, a, b) => {
                let (x, y) = (self.o(st, a), self.o(st, b));
                let r = self.bin(st, *op, *w, &x, &y)?;
                self.set(st, *d, r);
            }
            L::BinV(op, w, d, a, b) => {
                let (x, y) = (self.o(st, a), self.o(st, b));
                let (x, y) = (vec_of(&x), vec_of(&y));
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.bin(st, *op, *w, p, q)?);
                }
                self.set(st, *d, V::A(Rc::new(v)));
            }
            L::FBin(op, w, d, a, b, vec) => {
                let (x, y) = (self.o(st, a), self.o(st, b));
                let r = self.lanes2(*vec, &x, &y, |s, p, q| s.fbin(*op, *w, p, q));
                self.set(st, *d, r);
            }
            L::FNeg(w, d, a, vec) => {
                let x = self.o(st, a);
                let r = self.lanes2(*vec, &x, &x, |s, p, _| match p {
                    V::C(k) => V::C(k ^ (1u64 << (w - 1))),
                    p => {
                        let e = s.e(p, *w);
                        let m = s.p.c(1u128 << (w - 1), *w);
                        let r = s.p.xor(e, m);
                        s.v(r)
                    }
                });
                self.set(st, *d, r);
            }
            L::ICmp(pr, w, d, a, b, vec) => {
                let (x, y) = (self.o(st, a), self.o(st, b));
                let r = self.lanes2(*vec, &x, &y, |s, p, q| s.icmp(*pr, *w, p, q));
                self.set(st, *d, r);
            }
            L::FCmp(pr, w, d, a, b, vec) => {
                let (x, y) = (self.o(st, a), self.o(st, b));
                let r = self.lanes2(*vec, &x, &y, |s, p, q| s.fcmp(pr, *w, p, q));
                self.set(st, *d, r);
            }
            L::Cast(c, w, w2, d, a, vec) => {
                let x = self.o(st, a);
                let r = self.lanes2(*vec, &x, &x, |s, p, _| s.cast(*c, *w, *w2, p));
                self.set(st, *d, r);
            }
            L::Bitcast(t1, t2, d, a) => {
                let x = self.o(st, a);
                let r = self.bitcast(t1, t2, &x);
                self.set(st, *d, r);
            }
            L::Select(d, c, a, b, ty, cv) => {
                let cnd = self.o(st, c);
                let (x, y) = (self.o(st, a), self.o(st, b));
                let r = if *cv {
                    let (cs, xs, ys) = (vec_of(&cnd), vec_of(&x), vec_of(&y));
                    let et = ty.elem(0);
                    let v = (0..cs.len()).map(|i| self.select(&cs[i], &xs[i], &ys[i], &et)).collect();
                    V::A(Rc::new(v))
                } else {
                    // a choice between two pointers is followed separately
                    if let (V::S(e), V::C(p), V::C(q)) = (&cnd, &x, &y) {
                        if *ty == Ty::Ptr && p != q {
                            let t = self.decide(st, *e)?;
                            V::C(if t { *p } else { *q })
                        } else {
                            self.select(&cnd, &x, &y, ty)
                        }
                    } else {
                        self.select(&cnd, &x, &y, ty)
                    }
                };
                self.set(st, *d, r);
            }
            L::Load(ty, d, a, w, n) => {
                let x = self.o(st, a);
                let r = self.load(st, &x, ty, *w, *n)?;
                self.set(st, *d, r);
            }
            L::Store(ty, v, a, w, n) => {
                let x = self.o(st, a);
                let y = self.o(st, v);
                self.store(st, &x, &y, ty, *w, *n)?;
            }
            L::Alloca(d, size, n) => {
                let mut s = *size;
                if let Some(o) = n {
                    let v = self.o(st, o);
                    let c = self.conc(st, &v, 64)?;
                    s *= c;
                }
                if st.stack.len() > 500_000 {
                    return self.unsupported(st, "stack objects");
                }
                let i = st.stack.push(Rc::new(Obj::new(s as usize, 0)));
                self.set(st, *d, V::C(((ID_STACK as u64 + i as u64) << 32) + BASE));
            }
            L::Gep(d, base, off, ix) => {
                let b = self.o(st, base);
                let mut cst = *off;
                let mut sym: Option<E> = None;
                for (o, iw, scale) in ix.iter() {
                    match self.o(st, o) {
                        V::C(x) => cst = cst.wrapping_add((sext(x as u128, *iw) as u64).wrapping_mul(*scale)),
                        V::S(e) => {
                            let e = if *iw < 64 { self.p.sext(e, 64) } else { e };
                            let sc = self.p.c(*scale as u128, 64);
                            let t = self.p.mul(e, sc);
                            sym = Some(match sym {
                                None => t,
                                Some(s) => self.p.add(s, t),
                            });
                        }
                        V::A(_) => panic!("vector gep"),
                    }
                }
                let r = match (b, sym) {
                    (V::C(x), None) => V::C(x.wrapping_add(cst)),
                    (b, s) => {
                        let mut e = self.e(&b, 64);
                        if let Some(s) = s {
                            e = self.p.add(e, s);
                        }
                        let c = self.p.c(cst as u128, 64);
                        let r = self.p.add(e, c);
                        self.v(r)
                    }
                };
                self.set(st, *d, r);
            }
            L::GepV(..) => return self.unsupported(st, "vector gep"),
            L::Call(d, t, args, ty) => return self.call(st, *d, t, args, ty, None),
            L::Invoke(d, t, args, ty, ed) => return self.call(st, *d, t, args, ty, Some(ed)),
            L::Extract(d, v, path) => {
                let mut x = self.o(st, v);
                for i in path.iter() {
                    x = vec_of(&x)[*i as usize].clone();
                }
                self.set(st, *d, x);
            }
            L::Insert(d, v, e, path) => {
                let x = self.o(st, v);
                let y = self.o(st, e);
                let r = insert(&x, y, path);
                self.set(st, *d, r);
            }
            L::ExtractEl(d, v, i) => {
                let x = self.o(st, v);
                let k = self.o(st, i);
                let k = self.conc(st, &k, 64)?;
                let r = vec_of(&x).get(k as usize).cloned().unwrap_or(V::C(0));
                self.set(st, *d, r);
            }
            L::InsertEl(d, v, e, i) => {
                let x = self.o(st, v);
                let y = self.o(st, e);
                let k = self.o(st, i);
                let k = self.conc(st, &k, 64)?;
                let mut v = (*vec_of(&x)).clone();
                if (k as usize) < v.len() {
                    v[k as usize] = y;
                }
                self.set(st, *d, V::A(Rc::new(v)));
            }
            L::Shuffle(d, a, b, m) => {
                let (x, y) = (self.o(st, a), self.o(st, b));
                let (x, y) = (vec_of(&x), vec_of(&y));
                let v = m
                    .iter()
                    .map(|&i| {
                        let i = i as usize;
                        if i < x.len() {
                            x[i].clone()
                        } else {
                            y.get(i - x.len()).cloned().unwrap_or(V::C(0))
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(v)));
            }
            L::Mov(d, o) => {
                let v = self.o(st, o);
                self.set(st, *d, v);
            }
            L::Rmw(op, ty, d, a, v) => {
                let (w, n) = scalar_of(ty);
                let addr = self.o(st, a);
                let old = self.load(st, &addr, ty, w, n)?;
                let x = self.o(st, v);
                let new = match &**op {
                    "xchg" => x,
                    "add" => self.bin(st, Bin::Add, w, &old, &x)?,
                    "sub" => self.bin(st, Bin::Sub, w, &old, &x)?,
                    "and" => self.bin(st, Bin::And, w, &old, &x)?,
                    "or" => self.bin(st, Bin::Or, w, &old, &x)?,
                    "xor" => self.bin(st, Bin::Xor, w, &old, &x)?,
                    o => {
                        let m = format!("atomicrmw {o}");
                        return self.unsupported(st, &m);
                    }
                };
                self.store(st, &addr, &new, ty, w, n)?;
                self.set(st, *d, old);
            }
            L::CmpXchg(ty, d, a, c, n) => {
                let (w, nb) = scalar_of(ty);
                let addr = self.o(st, a);
                let old = self.load(st, &addr, ty, w, nb)?;
                let cv = self.o(st, c);
                let nv = self.o(st, n);
                let eq = self.icmp(Pred::Eq, w, &old, &cv);
                let t = match eq {
                    V::C(k) => k == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => unreachable!(),
                };
                if t {
                    self.store(st, &addr, &nv, ty, w, nb)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(t as u64)])));
            }
            L::Nop => {}
            L::Br(ed) => {
                self.jump(st, ed);
                return Ok(true);
            }
            L::CondBr(c, a, b, join) => {
                match self.o(st, c) {
                    V::C(k) => self.jump(st, if k & 1 == 1 { a } else { b }),
                    V::S(e) => {
                        let e = self.subst(st, e);
                        if let Some(k) = self.p.is_c(e) {
                            self.jump(st, if k == 1 { a } else { b });
                            return Ok(true);
                        }
                        if st.merge > 0 && *join != u32::MAX {
                            return self.branch_merge(st, e, a, b, *join);
                        }
                        let t = self.decide(st, e)?;
                        self.jump(st, if t { a } else { b });
                    }
                    V::A(_) => panic!(),
                }
                return Ok(true);
            }
            L::Switch(w, v, def, cases, join) => {
                let x = self.o(st, v);
                match x {
                    V::C(k) => {
                        let ed = cases.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(def);
                        self.jump(st, ed);
                    }
                    V::S(e) => {
                        let e = self.subst(st, e);
                        if let Some(k) = self.p.is_c(e) {
                            let ed = cases.iter().find(|c| c.0 == k as u64).map(|c| &c.1).unwrap_or(def);
                            self.jump(st, ed);
                            return Ok(true);
                        }
                        // group the cases by target
                        if self.trace {
                            eprintln!("  switch {}", self.p.show(e, 9));
                        }
                        let cur = self.p.eval(e, &st.model) as u64;
                        let mine = cases.iter().find(|c| c.0 == cur).map(|c| &c.1).unwrap_or(def);
                        let (mp, mm) = (mine.pc, mine.moves.clone());
                        let isdef = Rc::ptr_eq(&mm, &def.moves) && mp == def.pc;
                        let same = |ed: &Ed| ed.pc == mp && (Rc::ptr_eq(&ed.moves, &mm) || (ed.moves.is_empty() && mm.is_empty()));
                        let mut cond = self.p.c(0, 1);
                        if isdef {
                            let mut any = self.p.c(0, 1);
                            for (k, ed) in cases.iter() {
                                if !same(ed) {
                                    let c = self.p.c(*k as u128, *w);
                                    let q = self.p.eq(e, c);
                                    any = self.p.or(any, q);
                                }
                            }
                            cond = self.p.not(any);
                        } else {
                            for (k, ed) in cases.iter() {
                                if same(ed) {
                                    let c = self.p.c(*k as u128, *w);
                                    let q = self.p.eq(e, c);
                                    cond = self.p.or(cond, q);
                                }
                            }
                        }
                        if st.merge > 0 && *join != u32::MAX {
                            // the two-way merge needs an edge for "not this target": not available,
                            // so switches fork
                        }
                        let t = self.decide(st, cond)?;
                        if t {
                            self.jump(st, mine);
                        } else {
                            // implied by the other side: re-evaluate
                            return Err(X::Again);
                        }
                    }
                    V::A(_) => panic!(),
                }
                return Ok(true);
            }
            L::Ret(o) => {
                let v = o.as_ref().map(|o| self.o(st, o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.sbase as usize);
                let caller = match st.frames.last() {
                    Some(c) => c,
                    None => return Ok(true),
                };
                let cf = caller.f.clone();
                match &cf.code[caller.pc as usize] {
                    L::Call(d, ..) => {
                        if let (Some(d), Some(v)) = (d, v) {
                            self.set(st, *d, v);
                        }
                        st.frames.last_mut().unwrap().pc += 1;
                    }
                    L::Invoke(d, _, _, _, ed) => {
                        if let (Some(d), Some(v)) = (d, v) {
                            self.set(st, *d, v);
                        }
                        self.jump(st, ed);
                    }
                    _ => unreachable!(),
                }
                return Ok(true);
            }
            L::Unreachable => {
                self.violation(st, "ub", "unreachable", "reached an `unreachable` instruction");
                return Err(X::End);
            }
        }
        st.frames.last_mut().unwrap().pc += 1;
        Ok(true)
    }

    // ---------- scalar operations ----------
    fn lanes2(&mut self, vec: bool, x: &V, y: &V, mut f: impl FnMut(&mut Exec, &V, &V) -> V) -> V {
        if !vec {
            return f(self, x, y);
        }
        let (a, b) = (vec_of(x), vec_of(y));
        let v = a.iter().zip(b.iter()).map(|(p, q)| f(self, p, q)).collect();
        V::A(Rc::new(v))
    }
    fn bin(&mut self, st: &mut State, op: Bin, w: u32, x: &V, y: &V) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                return match bin_c(op, w, *a, *b) {
                    Some(r) => Ok(V::C(r)),
                    None => {
                        self.violation(st, "ub", "division", "division by zero");
                        Err(X::End)
                    }
                };
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match op {
            Bin::Add => self.p.add(a, b),
            Bin::Sub => self.p.sub(a, b),
            Bin::Mul => self.p.mul(a, b),
            Bin::And => self.p.and(a, b),
            Bin::Or => self.p.or(a, b),
            Bin::Xor => self.p.xor(a, b),
            Bin::Shl => self.p.shl(a, b),
            Bin::LShr => self.p.lshr(a, b),
            Bin::AShr => self.p.ashr(a, b),
            _ => {
                let b = self.subst(st, b);
                let z = self.p.c(0, w);
                let isz = self.p.eq(b, z);
                if self.p.is_c(isz) != Some(0) {
                    let bad = self.decide(st, isz)?;
                    if bad {
                        self.violation(st, "ub", "division", "division by zero");
                        return Err(X::End);
                    }
                }
                match op {
                    Bin::UDiv => self.p.udiv(a, b),
                    Bin::URem => self.p.urem(a, b),
                    Bin::SDiv => self.p.sdiv(a, b),
                    _ => self.p.srem(a, b),
                }
            }
        };
        Ok(self.v(r))
    }
    fn fbin(&mut self, op: FBin, w: u32, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            return V::C(fbin_c(op, w, *a, *b));
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let o = match op {
            FBin::Add => Op::FAdd,
            FBin::Sub => Op::FSub,
            FBin::Mul => Op::FMul,
            FBin::Div => Op::FDiv,
            FBin::Rem => Op::FRem,
        };
        let r = self.p.fbin(o, a, b);
        self.v(r)
    }
    fn icmp(&mut self, pr: Pred, w: u32, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            if w <= 64 {
                return V::C(cmp_c(pr, w, *a, *b) as u64);
            }
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let p = &mut self.p;
        let r = match pr {
            Pred::Eq => p.eq(a, b),
            Pred::Ne => {
                let r = p.eq(a, b);
                p.not(r)
            }
            Pred::Ult => p.ult(a, b),
            Pred::Ule => p.ule(a, b),
            Pred::Ugt => p.ult(b, a),
            Pred::Uge => p.ule(b, a),
            Pred::Slt => p.slt(a, b),
            Pred::Sle => p.sle(a, b),
            Pred::Sgt => p.slt(b, a),
            Pred::Sge => p.sle(b, a),
        };
        self.v(r)
    }
    fn fcmp(&mut self, pr: &str, w: u32, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (fval(*a as u128, w), fval(*b as u128, w));
            let u = a.is_nan() || b.is_nan();
            let r = match pr {
                "oeq" => a == b,
                "ogt" => a > b,
                "oge" => a >= b,
                "olt" => a < b,
                "ole" => a <= b,
                "one" => !u && a != b,
                "ord" => !u,
                "ueq" => u || a == b,
                "ugt" => u || a > b,
                "uge" => u || a >= b,
                "ult" => u || a < b,
                "ule" => u || a <= b,
                "une" => u || a != b,
                "uno" => u,
                "true" => true,
                _ => false,
            };
            return V::C(r as u64);
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = self.fcmp_e(pr, a, b);
        self.v(r)
    }
    fn fcmp_e(&mut self, pr: &str, a: E, b: E) -> E {
        let p = &mut self.p;
        match pr {
            "oeq" => p.fcmp(Op::FEq, a, b),
            "ogt" => p.fcmp(Op::FLt, b, a),
            "oge" => p.fcmp(Op::FLe, b, a),
            "olt" => p.fcmp(Op::FLt, a, b),
            "ole" => p.fcmp(Op::FLe, a, b),
            "uno" => p.fcmp(Op::FUno, a, b),
            "ord" => {
                let u = p.fcmp(Op::FUno, a, b);
                p.not(u)
            }
            "une" => {
                let r = p.fcmp(Op::FEq, a, b);
                p.not(r)
            }
            "ugt" => {
                let r = p.fcmp(Op::FLe, a, b);
                p.not(r)
            }
            "uge" => {
                let r = p.fcmp(Op::FLt, a, b);
                p.not(r)
            }
            "ult" => {
                let r = p.fcmp(Op::FLe, b, a);
                p.not(r)
            }
            "ule" => {
                let r = p.fcmp(Op::FLt, b, a);
                p.not(r)
            }
            "ueq" => {
                let u = p.fcmp(Op::FUno, a, b);
                let r = p.fcmp(Op::FEq, a, b);
                p.or(u, r)
            }
            "one" => {
                let u = p.fcmp(Op::FUno, a, b);
                let r = p.fcmp(Op::FEq, a, b);
                let x = p.or(u, r);
                p.not(x)
            }
            "true" => p.c(1, 1),
            _ => p.c(0, 1),
        }
    }
    fn cast(&mut self, c: Cast, w: u32, w2: u32, x: &V) -> V {
        if let V::C(a) = x {
            let a = *a;
            if w2 <= 64 {
                return V::C(match c {
                    Cast::Trunc => a & mask(w2) as u64,
                    Cast::ZExt | Cast::Bit => a & mask(w2) as u64,
                    Cast::SExt => (sext(a as u128, w) as u64) & mask(w2) as u64,
                    Cast::UiToFp => {
                        if w2 == 32 {
                            (a as f32).to_bits() as u64
                        } else {
                            (a as f64).to_bits()
                        }
                    }
                    Cast::SiToFp => {
                        let s = sext(a as u128, w) as i64;
                        if w2 == 32 {
                            (s as f32).to_bits() as u64
                        } else {
                            (s as f64).to_bits()
                        }
                    }
                    Cast::FpTrunc => (f64::from_bits(a) as f32).to_bits() as u64,
                    Cast::FpExt => (f32::from_bits(a as u32) as f64).to_bits(),
                    Cast::FpToUi | Cast::FpToSi => {
                        let e = self.p.c(a as u128, w);
                        let r = self.p.fun(if c == Cast::FpToUi { Op::FToU } else { Op::FToS }, e, w2, 0);
                        return self.v(r);
                    }
                });
            }
        }
        let e = self.e(x, w);
        let p = &mut self.p;
        let r = match c {
            Cast::Trunc => p.extract(e, 0, w2),
            Cast::ZExt => p.zext(e, w2),
            Cast::Bit => {
                if w == w2 {
                    e
                } else if w < w2 {
                    p.zext(e, w2)
                } else {
                    p.extract(e, 0, w2)
                }
            }
            Cast::SExt => p.sext(e, w2),
            Cast::UiToFp => p.fun(Op::UToF, e, w2, 0),
            Cast::SiToFp => p.fun(Op::SToF, e, w2, 0),
            Cast::FpTrunc => p.fun(Op::FTrunc, e, w2, 0),
            Cast::FpExt => p.fun(Op::FExt, e, w2, 0),
            Cast::FpToUi => p.fun(Op::FToU, e, w2, 0),
            Cast::FpToSi => p.fun(Op::FToS, e, w2, 0),
        };
        self.v(r)
    }
    fn bitcast(&mut self, t1: &Ty, t2: &Ty, x: &V) -> V {
        let e = match t1 {
            Ty::Vec(_, t) => {
                let vs = vec_of(x);
                self.pack(&vs, t.bits())
            }
            t => self.e(x, t.bits()),
        };
        match t2 {
            Ty::Vec(n, t) => {
                let eb = t.bits();
                let v = (0..*n)
                    .map(|i| {
                        let b = self.p.extract(e, i * eb, eb);
                        self.v(b)
                    })
                    .collect();
                V::A(Rc::new(v))
            }
            _ => self.v(e),
        }
    }
    fn select(&mut self, c: &V, x: &V, y: &V, ty: &Ty) -> V {
        match c {
            V::C(k) => {
                if k & 1 == 1 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            V::S(e) => {
                if x == y {
                    return x.clone();
                }
                if let (V::A(a), V::A(b)) = (x, y) {
                    let v = a.iter().zip(b.iter()).enumerate().map(|(i, (p, q))| self.select(c, p, q, &ty.elem(i as u64))).collect();
                    return V::A(Rc::new(v));
                }
                let w = ty.bits();
                let (a, b) = (self.e(x, w), self.e(y, w));
                let r = self.p.ite(*e, a, b);
                self.v(r)
            }
            V::A(_) => panic!(),
        }
    }

    // ---------- calls ----------
    fn call(&mut self, st: &mut State, d: Option<u32>, t: &Tgt, args: &Rc<Vec<(Ty, O)>>, ty: &Ty, ed: Option<&Ed>) -> R<bool> {
        let (mut fid, mut bi) = (None, None);
        match t {
            Tgt::Fn(i) => fid = Some(*i),
            Tgt::B(b, n) => bi = Some((*b, n.clone())),
            Tgt::Ptr(o) => {
                let v = self.o(st, o);
                let a = self.conc(st, &v, 64)?;
                if (a >> 32) as u32 != ID_FN {
                    return self.memerr(st, "call", a, 1);
                }
                let i = ((a & 0xffff_ffff) - BASE) / 16;
                let n = self.pr.fnames[i as usize].clone();
                match self.pr.target(&n) {
                    Tgt::Fn(i) => fid = Some(i),
                    Tgt::B(b, n) => bi = Some((b, n)),
                    Tgt::Ptr(_) => unreachable!(),
                }
            }
        }
        let av: Vec<V> = args.iter().map(|(_, o)| self.o(st, o)).collect();
        if let Some(i) = fid {
            self.push_frame(st, i, av)?;
            return Ok(true);
        }
        let (b, n) = bi.unwrap();
        let r = self.builtin(st, b, &n, &av, args, ty)?;
        if let (Some(d), Some(r)) = (d, r) {
            self.set(st, d, r);
        }
        match ed {
            Some(ed) => self.jump(st, ed),
            None => st.frames.last_mut().unwrap().pc += 1,
        }
        Ok(true)
    }

    fn panic_site(&mut self, st: &mut State, av: &[V], name: &str) -> (String, String) {
        let mut site = String::from("?");
        for v in av.iter().rev() {
            if let V::C(a) = v {
                if let Some(s) = self.read_loc(st, *a) {
                    site = s;
                    break;
                }
            }
        }
        let short = demangle(name);
        let mut msg = short.rsplit("::").next().unwrap_or("").to_string();
        // core::panicking::panic(&str, &Location)
        if msg == "panic" || msg.starts_with("panic_str") || msg == "panic_display" || msg.starts_with("panic_nounwind") {
            if let (Some(V::C(p)), Some(V::C(l))) = (av.first(), av.get(1)) {
                if *l < 4096 {
                    if let Ok(b) = self.mem_bytes_quiet(st, *p, *l as usize) {
                        msg = String::from_utf8_lossy(&b).into_owned();
                    }
                }
            }
        }
        (site, msg)
    }
    fn mem_bytes_quiet(&mut self, st: &State, addr: u64, n: usize) -> Result<Vec<u8>, ()> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(BASE) as usize;
        let o = self.obj(st, id).ok_or(())?;
        if off > o.size as usize || n > o.size as usize - off {
            return Err(());
        }
        (off..off + n).map(|k| o.get(k).map_err(|_| ())).collect()
    }
    fn read_loc(&mut self, st: &State, a: u64) -> Option<String> {
        let b = self.mem_bytes_quiet(st, a, 24).ok()?;
        let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        let (p, l) = (g(0), g(8));
        let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
        if l == 0 || l > 400 {
            return None;
        }
        let s = self.mem_bytes_quiet(st, p, l as usize).ok()?;
        let s = String::from_utf8(s).ok()?;
        if !s.ends_with(".rs") {
            return None;
        }
        let s = s.rsplit("/registry/src/").next().unwrap().to_string();
        let s = match s.find("/library/") {
            Some(i) if s.starts_with("/rustc") => s[i + 1..].to_string(),
            _ => s,
        };
        Some(format!("{s}:{line}"))
    }

    fn fun1(&mut self, v: &V, w: u32, name: &str, f: impl Fn(f64) -> f64, f32f: impl Fn(f32) -> f32, st: &State) -> R<V> {
        let g = |x: u64| -> u64 {
            if w == 32 {
                f32f(f32::from_bits(x as u32)).to_bits() as u64
            } else {
                f(f64::from_bits(x)).to_bits()
            }
        };
        match v {
            V::C(x) => Ok(V::C(g(*x))),
            V::S(e) => {
                let e = self.subst(st, *e);
                match self.p.tabulate(&[e], w, |a| g(a[0] as u64)) {
                    Some(r) => Ok(self.v(r)),
                    None => self.unsupported(st, name),
                }
            }
            _ => panic!(),
        }
    }
    fn int1(&mut self, st: &State, v: &V, w: u32, ty: &Ty, name: &str, f: impl Fn(u64) -> u64 + Copy) -> R<V> {
        if let V::A(a) = v {
            let et = ty.elem(0);
            let mut r = vec![];
            for x in a.iter() {
                r.push(self.int1(st, x, et.bits(), &et, name, f)?);
            }
            return Ok(V::A(Rc::new(r)));
        }
        match v {
            V::C(x) => Ok(V::C(f(*x))),
            V::S(e) => {
                let e = self.subst(st, *e);
                if w <= 64 {
                    if let Some(k) = self.p.is_c(e) {
                        return Ok(V::C(f(k as u64)));
                    }
                    if let Some(r) = self.p.tabulate(&[e], w, |a| f(a[0] as u64)) {
                        return Ok(self.v(r));
                    }
                }
                // bit-level definition
                let r = match name {
                    "ctlz" | "cttz" => {
                        let mut r = self.p.c(w as u128, w);
                        for k in 0..w {
                            let bit = if name == "ctlz" { k } else { w - 1 - k };
                            let b = self.p.extract(e, bit, 1);
                            let n = if name == "ctlz" { w - 1 - k } else { bit };
                            let c = self.p.c(n as u128, w);
                            r = self.p.ite(b, c, r);
                        }
                        r
                    }
                    "ctpop" => {
                        let mut r = self.p.c(0, w);
                        for k in 0..w {
                            let b = self.p.extract(e, k, 1);
                            let z = if w > 1 { self.p.zext(b, w) } else { b };
                            r = self.p.add(r, z);
                        }
                        r
                    }
                    "bswap" => {
                        let mut r = self.p.extract(e, 0, 8);
                        for k in 1..w / 8 {
                            let b = self.p.extract(e, 8 * k, 8);
                            r = self.p.concat(r, b);
                        }
                        r
                    }
                    _ => {
                        let mut r = self.p.extract(e, 0, 1);
                        for k in 1..w {
                            let b = self.p.extract(e, k, 1);
                            r = self.p.concat(r, b);
                        }
                        r
                    }
                };
                Ok(self.v(r))
            }
            _ => panic!(),
        }
    }
    fn minmax(&mut self, k: u8, w: u32, x: &V, y: &V) -> V {
        // 0 umax 1 umin 2 smax 3 smin
        let pr = match k {
            0 => Pred::Ugt,
            1 => Pred::Ult,
            2 => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.icmp(pr, w, x, y);
        self.select(&c, x, y, &Ty::Int(w))
    }
    fn overflow(&mut self, b: B, w: u32, x: &V, y: &V) -> (V, V) {
        if let (V::C(a), V::C(c)) = (x, y) {
            if w <= 64 {
                let (a, c) = (*a as u128, *c as u128);
                let (sa, sc) = (sext(a, w), sext(c, w));
                let m = mask(w);
                let (r, o) = match b {
                    B::UAddO => (a + c, a + c > m),
                    B::USubO => (a.wrapping_sub(c), a < c),
                    B::UMulO => (a * c, a * c > m),
                    B::SAddO => ((sa + sc) as u128, sext((sa + sc) as u128 & m, w) != sa + sc),
                    B::SSubO => ((sa - sc) as u128, sext((sa - sc) as u128 & m, w) != sa - sc),
                    _ => ((sa * sc) as u128, sext((sa * sc) as u128 & m, w) != sa * sc),
                };
                return (V::C((r & m) as u64), V::C(o as u64));
            }
        }
        let (a, c) = (self.e(x, w), self.e(y, w));
        let p = &mut self.p;
        if w <= 64 && matches!(b, B::SAddO | B::SSubO | B::SMulO) {
            let ((al, ah), (cl, ch)) = (p.srange(a), p.srange(c));
            let (al, ah, cl, ch) = (al as i128, ah as i128, cl as i128, ch as i128);
            let (lo, hi) = match b {
                B::SAddO => (al + cl, ah + ch),
                B::SSubO => (al - ch, ah - cl),
                _ => {
                    let q = [al * cl, al * ch, ah * cl, ah * ch];
                    (*q.iter().min().unwrap(), *q.iter().max().unwrap())
                }
            };
            let fits = |lo: i128, hi: i128| lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1);
            let k = if b == B::SAddO { 1 } else { -1 };
            let r = if fits(lo, hi) {
                Some((lo, hi))
            } else if b == B::SMulO {
                p.aff_mul(a, c)
            } else {
                p.aff_range(a, c, k)
            };
            if r.map_or(false, |x| fits(x.0, x.1)) {
                let r = match b {
                    B::SAddO => p.add(a, c),
                    B::SSubO => p.sub(a, c),
                    _ => p.mul(a, c),
                };
                let z = p.c(0, 1);
                return (self.v(r), self.v(z));
            }
        }
        let (r, o) = match b {
            B::UAddO => {
                let r = p.add(a, c);
                let ((_, ha), (_, hc)) = (p.range(a), p.range(c));
                let o = if w <= 64 && (ha as u128 + hc as u128) <= mask(w) {
                    p.c(0, 1)
                } else if let Some(k) = p.is_c(c) {
                    // a + k overflows iff a > MAX - k
                    let lim = p.c(mask(w) - k, w);
                    p.ult(lim, a)
                } else if let Some(k) = p.is_c(a) {
                    let lim = p.c(mask(w) - k, w);
                    p.ult(lim, c)
                } else {
                    p.ult(r, a)
                };
                (r, o)
            }
            B::USubO => (p.sub(a, c), p.ult(a, c)),
            B::UMulO => {
                let mut r = p.mul(a, c);
                let ((_, ha), (_, hc)) = (p.range(a), p.range(c));
                let o = if w <= 64 && (ha as u128 * hc as u128) <= mask(w) {
                    p.c(0, 1)
                } else if let (None, Some(k)) | (Some(k), None) = (p.is_c(a), p.is_c(c)) {
                    let v = if p.is_c(a).is_some() { c } else { a };
                    if k == 0 {
                        p.c(0, 1)
                    } else {
                        let lim = p.c(mask(w) / k, w);
                        p.ult(lim, v)
                    }
                } else if w <= 64 {
                    let (za, zc) = (p.zext(a, 2 * w), p.zext(c, 2 * w));
                    let m = p.mul(za, zc);
                    let h = p.extract(m, w, w);
                    // one multiplier for the product and its overflow
                    r = p.extract(m, 0, w);
                    let z = p.c(0, w);
                    let e = p.eq(h, z);
                    p.not(e)
                } else {
                    // 128-bit: overflow iff c != 0 and r / c != a
                    let z = p.c(0, w);
                    let nz = p.eq(c, z);
                    let q = p.udiv(r, c);
                    let e = p.eq(q, a);
                    let x = p.or(nz, e);
                    p.not(x)
                };
                (r, o)
            }
            B::SAddO | B::SSubO => {
                let (sa, sc) = if w < 128 { (p.sext(a, w + 1), p.sext(c, w + 1)) } else { (a, c) };
                let wide = if b == B::SAddO { p.add(sa, sc) } else { p.sub(sa, sc) };
                let r = if b == B::SAddO { p.add(a, c) } else { p.sub(a, c) };
                // overflow iff the wide sign differs from the narrow sign
                let s1 = p.extract(wide, w, 1);
                let s0 = p.extract(wide, w - 1, 1);
                let e = p.eq(s1, s0);
                (r, p.not(e))
            }
            _ => {
                let r = p.mul(a, c);
                let (sa, sc) = (p.sext(a, 2 * w), p.sext(c, 2 * w));
                let m = p.mul(sa, sc);
                let back = p.sext(r, 2 * w);
                let e = p.eq(m, back);
                (r, p.not(e))
            }
        };
        (self.v(r), self.v(o))
    }
    fn fminmax(&mut self, min: bool, w: u32, x: &V, y: &V) -> V {
        let un_x = self.fcmp("uno", w, x, x);
        let un_y = self.fcmp("uno", w, y, y);
        let lt = if min { self.fcmp("olt", w, y, x) } else { self.fcmp("ogt", w, y, x) };
        // x is NaN -> y ; y is NaN -> x ; y < x (min) -> y ; else x
        let t = Ty::Int(w);
        let a = self.select(&lt, y, x, &t);
        let b = self.select(&un_y, x, &a, &t);
        self.select(&un_x, y, &b, &t)
    }

    fn builtin(&mut self, st: &mut State, b: B, name: &Rc<str>, av: &[V], args: &Rc<Vec<(Ty, O)>>, ty: &Ty) -> R<Option<V>> {
        let w0 = args.first().map(|a| match &a.0 {
            Ty::Vec(_, t) => t.bits(),
            t => t.bits(),
        }).unwrap_or(64);
        let isv = args.first().map_or(false, |a| matches!(a.0, Ty::Vec(..)));
        Ok(match b {
            B::Nop | B::Expect if b == B::Nop => None,
            B::Nop => None,
            B::Zero => {
                if *ty == Ty::Void {
                    None
                } else {
                    Some(self.pr.zero(ty, &mut self.p))
                }
            }
            B::Expect => Some(av[0].clone()),
            B::Assume => {
                // llvm.assume: a compiler-derived fact; when it is false the program has undefined
                // behaviour
                if let V::C(0) = av[0] {
                    self.violation(st, "ub", "assume", "llvm.assume(false)");
                    return Err(X::End);
                }
                None
            }
            B::IsConst => Some(V::C(0)),
            B::IsFpClass => {
                let V::C(cls) = av[1] else { return self.unsupported(st, "is.fpclass with a symbolic class") };
                Some(self.lanes2(isv, &av[0], &av[0], |s, x, _| {
                    // sign, exponent field and fraction decide the class
                    let (ew, fw) = if w0 == 32 { (8, 23) } else { (11, 52) };
                    let e = s.e(x, w0);
                    let m = s.p.c(mask(w0) >> 1, w0);
                    let mag = s.p.and(e, m);
                    let inf = s.p.c(mask(ew) << fw, w0);
                    let quiet = s.p.c((mask(ew) << fw) | 1 << (fw - 1), w0);
                    let norm = s.p.c(1u128 << fw, w0);
                    let zero = s.p.c(0, w0);
                    let neg = s.p.extract(e, w0 - 1, 1);
                    let pos = s.p.not(neg);
                    let below = |s: &mut Self, a, b| s.p.ult(a, b);
                    let isz = s.p.eq(mag, zero);
                    let isi = s.p.eq(mag, inf);
                    let sub = { let a = below(s, mag, norm); let b = s.p.not(isz); s.p.and(a, b) };
                    let nor = { let a = below(s, mag, norm); let a = s.p.not(a); let b = below(s, mag, inf); s.p.and(a, b) };
                    let qn = { let a = below(s, mag, quiet); s.p.not(a) };
                    let sn = { let a = below(s, inf, mag); let b = s.p.not(qn); s.p.and(a, b) };
                    let mut r = s.p.c(0, 1);
                    for (bit, c, sg) in [(0, sn, None), (1, qn, None), (2, isi, Some(neg)), (3, nor, Some(neg)), (4, sub, Some(neg)), (5, isz, Some(neg)),
                        (6, isz, Some(pos)), (7, sub, Some(pos)), (8, nor, Some(pos)), (9, isi, Some(pos))] {
                        if cls >> bit & 1 == 1 {
                            let k = match sg { Some(g) => s.p.and(c, g), None => c };
                            r = s.p.or(r, k);
                        }
                    }
                    s.v(r)
                }))
            }
            B::TlAddr => Some(av[0].clone()),
            B::LoadRel => {
                let off = { let a = self.addv(av[0].clone(), av[1].clone()); self.load_t(st, &a, &Ty::Int(32))? };
                let k = self.conc(st, &off, 32)? as usize;
                match self.pr.rels.get(k) {
                    Some(&x) => Some(V::C(x)),
                    None => return self.unsupported(st, "load.relative"),
                }
            }
            B::Memcpy | B::Memmove => {
                let n = self.conc(st, &av[2], 64)?;
                let r = av[0].clone();
                if n > 0 {
                    let sd = matches!(av[0], V::S(_));
                    let ss = matches!(av[1], V::S(_));
                    if n <= 16 && (sd || ss) {
                        // small copies through symbolic pointers go by value
                        let mut vals = vec![];
                        let mut k = 0;
                        while k < n {
                            let c = if n - k >= 8 { 8 } else if n - k >= 4 { 4 } else if n - k >= 2 { 2 } else { 1 };
                            let a = self.addk(&av[1], k);
                            let x = match &a {
                                V::C(a) => self.load_c(st, *a, c as usize, c as u32 * 8)?,
                                V::S(e) => self.load_s(st, *e, c as usize, c as u32 * 8)?,
                                _ => unreachable!(),
                            };
                            vals.push((k, c, x));
                            k += c;
                        }
                        for (k, c, x) in vals {
                            let a = self.addk(&av[0], k);
                            match &a {
                                V::C(a) => self.store_c(st, *a, &x, c as usize, c as u32 * 8)?,
                                V::S(e) => self.store_s(st, *e, &x, c as usize, c as u32 * 8)?,
                                _ => unreachable!(),
                            }
                        }
                    } else {
                        let d = self.conc(st, &av[0], 64)?;
                        let s = self.conc(st, &av[1], 64)?;
                        self.copy(st, d, s, n)?;
                    }
                }
                if *ty == Ty::Void {
                    None
                } else {
                    Some(r)
                }
            }
            B::Memset => {
                let n = self.conc(st, &av[2], 64)?;
                if n > 0 {
                    let d = self.conc(st, &av[0], 64)?;
                    let (id, off) = self.chk(st, d, n, "write")?;
                    let val = match &av[1] {
                        V::S(e) => {
                            let b = self.p.extract(*e, 0, 8);
                            self.v(b)
                        }
                        v => v.clone(),
                    };
                    if id < ID_STACK && self.obj(st, id).map_or(false, |o| o.konst) {
                        return self.memerr(st, "write to constant", d, n);
                    }
                    let o = self.obj_mut(st, id).unwrap();
                    match val {
                        V::C(c) => {
                            if o.nsym == 0 {
                                o.data[off..off + n as usize].fill(c as u8);
                            } else {
                                for k in 0..n as usize {
                                    o.set_c(off + k, c as u8);
                                }
                            }
                        }
                        V::S(e) => {
                            for k in 0..n as usize {
                                o.set_s(off + k, e);
                            }
                        }
                        _ => unreachable!(),
                    }
                }
                if *ty == Ty::Void {
                    None
                } else {
                    Some(av[0].clone())
                }
            }
            B::UMax | B::UMin | B::SMax | B::SMin => {
                let k = match b {
                    B::UMax => 0,
                    B::UMin => 1,
                    B::SMax => 2,
                    _ => 3,
                };
                Some(self.lanes2(isv, &av[0], &av[1], |s, x, y| s.minmax(k, w0, x, y)))
            }
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                // use path facts to keep the overflow condition small
                let (x, y) = (self.sv(st, &av[0]), self.sv(st, &av[1]));
                let (r, o) = self.overflow(b, w0, &x, &y);
                Some(V::A(Rc::new(vec![r, o])))
            }
            B::UAddSat | B::USubSat | B::SAddSat | B::SSubSat => Some(self.lanes2(isv, &av[0], &av[1], |s, x, y| {
                let o = match b {
                    B::UAddSat => B::UAddO,
                    B::USubSat => B::USubO,
                    B::SAddSat => B::SAddO,
                    _ => B::SSubO,
                };
                let (r, ov) = s.overflow(o, w0, x, y);
                let t = Ty::Int(w0);
                match b {
                    B::UAddSat => s.select(&ov, &V::C(mask(w0.min(64)) as u64), &r, &t),
                    B::USubSat => s.select(&ov, &V::C(0), &r, &t),
                    _ => {
                        let neg = s.icmp(Pred::Slt, w0, x, &V::C(0));
                        let lo = V::C(1u64 << (w0 - 1));
                        let hi = V::C((mask(w0) >> 1) as u64);
                        let sat = s.select(&neg, &lo, &hi, &t);
                        s.select(&ov, &sat, &r, &t)
                    }
                }
            })),
            B::UShlSat => return self.unsupported(st, name),
            B::FShl | B::FShr => {
                if isv {
                    return self.unsupported(st, name);
                }
                let w = w0;
                let (hi, lo) = (self.e(&av[0], w), self.e(&av[1], w));
                let sh = self.e(&av[2], w);
                let wc = self.p.c(w as u128, w);
                let s = self.p.urem(sh, wc);
                let p = &mut self.p;
                let r = if let Some(k) = p.is_c(s) {
                    let k = k as u32;
                    let k = if b == B::FShl { k } else { w - k };
                    // concat(hi,lo) << k, upper half
                    if k == 0 {
                        hi
                    } else if k == w {
                        lo
                    } else {
                        let h = p.extract(hi, 0, w - k);
                        let l = p.extract(lo, w - k, k);
                        p.concat(h, l)
                    }
                } else {
                    let inv = p.sub(wc, s);
                    let z = p.c(0, w);
                    let isz = p.eq(s, z);
                    if b == B::FShl {
                        let x = p.shl(hi, s);
                        let y = p.lshr(lo, inv);
                        let o = p.or(x, y);
                        p.ite(isz, hi, o)
                    } else {
                        let x = p.shl(hi, inv);
                        let y = p.lshr(lo, s);
                        let o = p.or(x, y);
                        p.ite(isz, lo, o)
                    }
                };
                Some(self.v(r))
            }
            B::Ctlz => {
                let w = w0;
                Some(self.int1(st, &av[0], w, ty, "ctlz", |x| if x == 0 { w as u64 } else { (x.leading_zeros() - (64 - w)) as u64 })?)
            }
            B::Cttz => {
                let w = w0;
                Some(self.int1(st, &av[0], w, ty, "cttz", |x| if x == 0 { w as u64 } else { x.trailing_zeros() as u64 })?)
            }
            B::Ctpop => Some(self.int1(st, &av[0], w0, ty, "ctpop", |x| x.count_ones() as u64)?),
            B::Bswap => {
                let w = w0;
                Some(self.int1(st, &av[0], w, ty, "bswap", |x| x.swap_bytes() >> (64 - w))?)
            }
            B::Bitrev => {
                let w = w0;
                Some(self.int1(st, &av[0], w, ty, "bitrev", |x| x.reverse_bits() >> (64 - w))?)
            }
            B::Abs => {
                let w = w0;
                Some(self.lanes2(isv, &av[0], &av[0], |s, x, _| {
                    if let V::C(k) = x {
                        return V::C((sext(*k as u128, w).unsigned_abs() & mask(w)) as u64);
                    }
                    let e = s.e(x, w);
                    let z = s.p.c(0, w);
                    let neg = s.p.slt(e, z);
                    let m = s.p.sub(z, e);
                    let r = s.p.ite(neg, m, e);
                    s.v(r)
                }))
            }
            B::UCmp | B::SCmp => {
                let (lt, gt) = if b == B::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w0, &av[0], &av[1]);
                let g = self.icmp(gt, w0, &av[0], &av[1]);
                let rw = ty.bits();
                let x = self.select(&g, &V::C(1), &V::C(0), ty);
                Some(self.select(&l, &V::C(mask(rw) as u64), &x, ty))
            }
            B::Trap | B::Abort => {
                self.violation(st, "abort", name, "abort");
                return Err(X::End);
            }
            B::FAbs => Some(self.lanes2(isv, &av[0], &av[0], |s, x, _| {
                if let V::C(k) = x {
                    return V::C(k & (mask(w0) as u64 >> 1));
                }
                let e = s.e(x, w0);
                let m = s.p.c(mask(w0) >> 1, w0);
                let r = s.p.and(e, m);
                s.v(r)
            })),
            B::FSqrt => Some(self.lanes2(isv, &av[0], &av[0], |s, x, _| {
                let e = s.e(x, w0);
                let r = s.p.fun(Op::FSqrt, e, w0, 0);
                s.v(r)
            })),
            B::FFloor | B::FCeil | B::FTruncI | B::FRound | B::FRoundEven => {
                let k = match b {
                    B::FFloor => 0,
                    B::FCeil => 1,
                    B::FTruncI => 2,
                    B::FRound => 3,
                    _ => 4,
                };
                Some(self.lanes2(isv, &av[0], &av[0], |s, x, _| {
                    let e = s.e(x, w0);
                    let r = s.p.fun(Op::FRnd, e, w0, k);
                    s.v(r)
                }))
            }
            B::FMa => {
                let (x, y, z) = (self.e(&av[0], w0), self.e(&av[1], w0), self.e(&av[2], w0));
                let r = self.p.fma(x, y, z);
                Some(self.v(r))
            }
            B::FMulAdd => {
                let m = self.fbin(FBin::Mul, w0, &av[0], &av[1]);
                Some(self.fbin(FBin::Add, w0, &m, &av[2]))
            }
            B::FMin | B::FMax => Some(self.lanes2(isv, &av[0], &av[1], |s, x, y| s.fminmax(b == B::FMin, w0, x, y))),
            B::FCopysign => Some(self.lanes2(isv, &av[0], &av[1], |s, x, y| {
                let (x, y) = (s.e(x, w0), s.e(y, w0));
                let lo = s.p.extract(x, 0, w0 - 1);
                let sg = s.p.extract(y, w0 - 1, 1);
                let r = s.p.concat(sg, lo);
                s.v(r)
            })),
            B::FPow => {
                match (&av[0], &av[1]) {
                    (V::C(x), V::C(y)) => Some(V::C(if w0 == 32 {
                        f32::from_bits(*x as u32).powf(f32::from_bits(*y as u32)).to_bits() as u64
                    } else {
                        f64::from_bits(*x).powf(f64::from_bits(*y)).to_bits()
                    })),
                    _ => {
                        let (x, y) = (self.e(&av[0], w0), self.e(&av[1], w0));
                        match self.p.tabulate(&[x, y], w0, |a| {
                            if w0 == 32 {
                                f32::from_bits(a[0] as u32).powf(f32::from_bits(a[1] as u32)).to_bits() as u64
                            } else {
                                f64::from_bits(a[0] as u64).powf(f64::from_bits(a[1] as u64)).to_bits()
                            }
                        }) {
                            Some(r) => Some(self.v(r)),
                            None => return self.unsupported(st, "symbolic pow"),
                        }
                    }
                }
            }
            B::FPowi => {
                let k = self.conc(st, &av[1], 32)?;
                let k = k as u32 as i32;
                Some(self.fun1(&av[0], w0, "powi", |x| x.powi(k), |x| x.powi(k), st)?)
            }
            B::FExp => Some(self.fun1(&av[0], w0, "exp", f64::exp, f32::exp, st)?),
            B::FExp2 => Some(self.fun1(&av[0], w0, "exp2", f64::exp2, f32::exp2, st)?),
            B::FLog => Some(self.fun1(&av[0], w0, "log", f64::ln, f32::ln, st)?),
            B::FLog2 => Some(self.fun1(&av[0], w0, "log2", f64::log2, f32::log2, st)?),
            B::FLog10 => Some(self.fun1(&av[0], w0, "log10", f64::log10, f32::log10, st)?),
            B::FSin => Some(self.fun1(&av[0], w0, "sin", f64::sin, f32::sin, st)?),
            B::FCos => Some(self.fun1(&av[0], w0, "cos", f64::cos, f32::cos, st)?),
            B::FToUSat | B::FToSSat => {
                let (rw, rv) = match ty {
                    Ty::Vec(_, t) => (t.bits(), true),
                    t => (t.bits(), false),
                };
                let op = if b == B::FToUSat { Op::FToU } else { Op::FToS };
                Some(self.lanes2(rv, &av[0], &av[0], |s, x, _| {
                    let e = s.e(x, w0);
                    let r = s.p.fun(op, e, rw, 0);
                    s.v(r)
                }))
            }
            B::VReduce(k) => {
                let v = vec_of(&av[0]);
                let mut r = v[0].clone();
                for x in v[1..].iter() {
                    r = match k {
                        0 => self.bin(st, Bin::Add, w0, &r, x)?,
                        1 => self.bin(st, Bin::Or, w0, &r, x)?,
                        2 => self.bin(st, Bin::And, w0, &r, x)?,
                        3 => self.minmax(0, w0, &r, x),
                        4 => self.minmax(1, w0, &r, x),
                        5 => self.bin(st, Bin::Xor, w0, &r, x)?,
                        _ => self.bin(st, Bin::Mul, w0, &r, x)?,
                    };
                }
                Some(r)
            }
            B::PtrMask => Some(self.bin(st, Bin::And, 64, &av[0], &av[1])?),
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, &av[2], 64)? as usize;
                let x = self.conc(st, &av[0], 64)?;
                let y = self.conc(st, &av[1], 64)?;
                let xs = self.mem_bytes(st, x, n, "read")?;
                let ys = self.mem_bytes(st, y, n, "read")?;
                if xs.iter().chain(ys.iter()).all(|b| b.is_ok()) {
                    let o = xs.iter().map(|b| b.unwrap()).cmp(ys.iter().map(|b| b.unwrap()));
                    return Ok(Some(V::C(match o {
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    })));
                }
                let mut ce = vec![];
                for (a, b) in xs.iter().zip(ys.iter()) {
                    let f = |s: &mut Exec, v: &Result<u8, E>| match v {
                        Ok(c) => s.p.c(*c as u128, 8),
                        Err(e) => *e,
                    };
                    let (p, q) = (f(self, a), f(self, b));
                    ce.push((p, q));
                }
                let z = self.p.c(0, 32);
                let one = self.p.c(1, 32);
                let m1 = self.p.c(0xffff_ffff, 32);
                let r = if b == B::Bcmp {
                    let mut all = self.p.c(1, 1);
                    for (p, q) in ce {
                        let e = self.p.eq(p, q);
                        all = self.p.and(all, e);
                    }
                    self.p.ite(all, z, one)
                } else {
                    let mut r = z;
                    for (p, q) in ce.into_iter().rev() {
                        let e = self.p.eq(p, q);
                        let l = self.p.ult(p, q);
                        let d = self.p.ite(l, m1, one);
                        r = self.p.ite(e, r, d);
                    }
                    r
                };
                Some(self.v(r))
            }
            B::Strlen => {
                let a = self.conc(st, &av[0], 64)?;
                let mut n = 0;
                loop {
                    let x = self.load_c(st, a + n, 1, 8)?;
                    let x = self.conc(st, &x, 8)?;
                    if x == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(V::C(n))
            }
            B::GetRandom => {
                // hash keys: any fixed value (results must not depend on them)
                let a = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)?;
                for i in 0..n {
                    self.store_n(st, a + i, (i * 0x9d + 0x35) & 0xff, 1)?;
                }
                Some(V::C(n))
            }
            B::Malloc | B::Calloc => {
                let size = if b == B::Calloc {
                    let (r, _) = self.overflow(B::UMulO, 64, &av[0], &av[1]);
                    r
                } else {
                    av[0].clone()
                };
                let n = match self.alloc_size(st, &size)? {
                    Some(n) => n,
                    None => return Ok(Some(V::C(0))),
                };
                Some(V::C(self.alloc_heap(st, n)))
            }
            B::PosixMemalign => {
                let p = self.conc(st, &av[0], 64)?;
                let n = match self.alloc_size(st, &av[2])? {
                    Some(n) => n,
                    None => return Ok(Some(V::C(12))),
                };
                let a = self.alloc_heap(st, n);
                self.store_n(st, p, a, 8)?;
                Some(V::C(0))
            }
            B::Realloc => {
                let p = self.conc(st, &av[0], 64)?;
                let n = match self.alloc_size(st, &av[1])? {
                    Some(n) => n,
                    None => return Ok(Some(V::C(0))),
                };
                let id = (p >> 32) as u32;
                if id < ID_HEAP || (p & 0xffff_ffff) != BASE || st.heap.get((id - ID_HEAP) as usize).is_none() {
                    return self.memerr(st, "realloc", p, 0);
                }
                let old = st.heap.take((id - ID_HEAP) as usize).unwrap();
                st.alloc_cur = st.alloc_cur.saturating_sub(old.size as u64);
                let mut o = Obj::new(n as usize, 0);
                let m = (n as usize).min(old.size as usize);
                o.data[..m].copy_from_slice(&old.data[..m]);
                if old.nsym != 0 {
                    for k in 0..m {
                        if old.sym[k] != 0 {
                            o.set_s(k, old.sym[k]);
                        }
                    }
                }
                let i = st.heap.push(Rc::new(o));
                st.alloc_cur += n;
                st.alloc_peak = st.alloc_peak.max(st.alloc_cur);
                Some(V::C(((ID_HEAP as u64 + i as u64) << 32) + BASE))
            }
            B::Free => {
                let p = self.conc(st, &av[0], 64)?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    if id < ID_HEAP || (p & 0xffff_ffff) != BASE || st.heap.get((id - ID_HEAP) as usize).is_none() {
                        return self.memerr(st, "free", p, 0);
                    }
                    let old = st.heap.take((id - ID_HEAP) as usize).unwrap();
                    st.alloc_cur = st.alloc_cur.saturating_sub(old.size as u64);
                }
                None
            }
            B::Panic => {
                if st.expect_panic {
                    self.finish(st, "expected-panic");
                    return Err(X::End);
                }
                let (site, msg) = self.panic_site(st, av, name);
                self.violation(st, "panic", &site, &msg);
                return Err(X::End);
            }
            B::Oom => {
                self.finish(st, "allocation-failure");
                return Err(X::End);
            }
            B::RBytes => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)?;
                if st.nbytes as u64 + n > self.lim.max_inputs as u64 {
                    return self.unsupported(st, "too many symbolic bytes");
                }
                if n > 0 {
                    let (id, off) = self.chk(st, p, n, "write")?;
                    let base = st.nbytes;
                    let es: Vec<E> = (0..n as u32).map(|k| self.p.var(base + k)).collect();
                    st.nbytes += n as u32;
                    let o = self.obj_mut(st, id).unwrap();
                    for (k, e) in es.iter().enumerate() {
                        o.set_s(off + k, *e);
                    }
                }
                None
            }
            B::RAssume => {
                match self.sv(st, &av[0]) {
                    V::C(k) => {
                        if k & 1 == 0 {
                            self.finish(st, "assumed-away");
                            return Err(X::End);
                        }
                    }
                    V::S(e) => {
                        let e = if self.p.w(e) > 1 { self.p.extract(e, 0, 1) } else { e };
                        let e = self.subst(st, e);
                        if self.p.eval(e, &st.model) == 1 {
                            self.assume(st, e);
                        } else {
                            match self.feasible(st, e) {
                                Res::Sat(m) => {
                                    st.model = m;
                                    self.assume(st, e);
                                }
                                Res::Unsat => {
                                    self.finish(st, "assumed-away");
                                    return Err(X::End);
                                }
                                Res::Unknown => {
                                    self.note_incomplete("solver-unknown");
                                    return Err(X::End);
                                }
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                None
            }
            B::RAssert => {
                let id = self.conc(st, &av[1], 32)?;
                self.asserts += 1;
                let site = format!("{id}");
                match self.sv(st, &av[0]) {
                    V::C(k) => {
                        self.assert_const += 1;
                        if k & 1 == 0 {
                            self.violation(st, "assert", &site, "assertion does not hold");
                            return Err(X::End);
                        }
                    }
                    V::S(e) => {
                        let e = if self.p.w(e) > 1 { self.p.extract(e, 0, 1) } else { e };
                        let e = self.subst(st, e);
                        let e = self.tab1(e);
                        if self.p.is_c(e) == Some(1) {
                            self.assert_const += 1;
                            return Ok(None);
                        }
                        if self.trace {
                            eprintln!("  assert {} {}", self.p.show(e, 14), self.p.show_aff(e));
                        }
                        let ne = self.p.not(e);
                        if self.p.eval(e, &st.model) == 1 {
                            match self.feasible(st, ne) {
                                Res::Unsat => self.note(st, e),
                                Res::Unknown => {
                                    self.note_incomplete("solver-unknown-assert");
                                    self.assume(st, e);
                                }
                                Res::Sat(m) => {
                                    let mut s2 = st.clone();
                                    s2.model = m;
                                    self.violation(&s2, "assert", &site, "assertion does not hold");
                                    self.assume(st, e);
                                }
                            }
                        } else {
                            self.violation(&st.clone(), "assert", &site, "assertion does not hold");
                            match self.feasible(st, e) {
                                Res::Sat(m) => {
                                    st.model = m;
                                    self.assume(st, e);
                                }
                                _ => return Err(X::End),
                            }
                        }
                    }
                    _ => unreachable!(),
                }
                None
            }
            B::RParam => {
                let i = self.conc(st, &av[0], 32)? as usize;
                Some(V::C(self.params.get(i).copied().unwrap_or(0)))
            }
            B::RConc => Some(V::C(self.conc(st, &av[0], 64)?)),
            B::RExpect => {
                let k = self.conc(st, &av[0], 1)?;
                st.expect_panic = k & 1 == 1;
                None
            }
            B::RReach => {
                let k = self.conc(st, &av[0], 32)?;
                st.reach |= 1u128 << (k & 127);
                None
            }
            B::RObserve => {
                let p = self.conc(st, &av[0], 64)?;
                let n = self.conc(st, &av[1], 64)?;
                let bs = self.mem_bytes(st, p, n as usize, "read")?;
                let o = Rc::make_mut(&mut st.obs);
                for b in bs {
                    o.push(match b {
                        Ok(c) => (c, 0),
                        Err(e) => (0, e),
                    });
                }
                None
            }
            B::RIsSym => Some(V::C(1)),
            B::RAllocPeak => Some(V::C(st.alloc_peak)),
            B::RAllocMark => {
                st.alloc_cur = 0;
                st.alloc_peak = 0;
                None
            }
            B::RMerge => {
                let k = self.conc(st, &av[0], 32)?;
                st.merge = k as u32;
                None
            }
            B::RFail => {
                let id = self.conc(st, &av[0], 32)?;
                self.asserts += 1;
                self.violation(st, "assert", &format!("{id}"), "unreachable point of the harness reached");
                return Err(X::End);
            }
            B::Cpuid => Some(self.pr.zero(ty, &mut self.p)),
            B::Errno => Some(V::C(0)),
            B::Getenv => Some(V::C(0)),
            B::Sysconf => Some(V::C(4096)),
            B::Write => Some(V::C(0)),
            B::Unknown => return self.unsupported(st, &format!("external {name}")),
        })
    }
    fn sv(&mut self, st: &State, v: &V) -> V {
        match v {
            V::S(e) => {
                let e = self.subst(st, *e);
                self.v(e)
            }
            v => v.clone(),
        }
    }
    fn addv(&mut self, a: V, b: V) -> V {
        match (&a, &b) {
            (V::C(x), V::C(y)) => V::C(x.wrapping_add(*y)),
            _ => {
                let (x, y) = (self.e(&a, 64), self.e(&b, 64));
                let r = self.p.add(x, y);
                self.v(r)
            }
        }
    }
    /// Concrete allocation size; None when it is above the modelled memory (the allocation fails).
    fn alloc_size(&mut self, st: &mut State, v: &V) -> R<Option<u64>> {
        let v = self.sv(st, v);
        match v {
            V::C(n) => Ok(if n > self.lim.max_alloc { None } else { Some(n) }),
            V::S(e) => {
                let lim = self.p.c(self.lim.max_alloc as u128, 64);
                let big = self.p.ult(lim, e);
                if self.decide(st, big)? {
                    return Ok(None);
                }
                Ok(Some(self.conc(st, &V::S(e), 64)?))
            }
            _ => unreachable!(),
        }
    }
}

fn scalar_of(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Int(w) => (*w, (*w + 7) / 8),
        Ty::Ptr | Ty::F64 => (64, 8),
        Ty::F32 => (32, 4),
        Ty::F16 => (16, 2),
        _ => (0, 0),
    }
}
fn vec_of(v: &V) -> Rc<Vec<V>> {
    match v {
        V::A(x) => x.clone(),
        _ => panic!("scalar where an aggregate is expected"),
    }
}
fn insert(x: &V, y: V, path: &[u64]) -> V {
    if path.is_empty() {
        return y;
    }
    let mut v = (*vec_of(x)).clone();
    v[path[0] as usize] = insert(&v[path[0] as usize], y, &path[1..]);
    V::A(Rc::new(v))
}
