//! Hash-consed bit-vector / floating-point expressions over symbolic input bytes,
//! with simplification, value ranges, known-zero bits and variable supports.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
    Table,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FEq,
    FLt,
    FLe,
    FUno,
    FExt,
    FTrunc,
    UToF,
    SToF,
    FToU,
    FToS,
    FSqrt,
    FRnd,
    FFma,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u64,
    pub hi: u64,
    pub kz: u64,
    pub sup: u32,
    pub fp: bool, // contains an FP operation
    pub slo: i64, // as signed, up to 64 bits
    pub shi: i64,
}

#[derive(Clone, Copy, Debug)]
pub struct FInfo {
    pub lo: f64,
    pub hi: f64,
    pub no_neg_zero: bool,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn m64(w: u32) -> u64 {
    mask(w.min(64)) as u64
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub type Sup = Rc<Vec<u64>>;

pub struct Pool {
    pub n: Vec<Node>,
    pub i: Vec<Info>,
    map: HashMap<Node, E, Fx>,
    pub sups: Vec<Sup>,
    supmap: HashMap<Vec<u64>, u32>,
    supun: HashMap<(u32, u32), u32, Fx>,
    pub finfo: HashMap<E, FInfo, Fx>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tabmap: HashMap<Rc<Vec<u64>>, u32>,
    pub nvars: u32,
    pub var_ids: Vec<E>,
    // evaluation memo
    stamp: Vec<u32>,
    val: Vec<u128>,
    pub cur_stamp: u32,
    stamp_model: u64,
    tabled: HashMap<E, E, Fx>,
    pub table_bits: u32,
    affs: HashMap<E, Rc<Aff>, Fx>,
}

/// A signed value as (sum of coefficient times leaf + something in lo..=hi) / 2^s.
pub struct Aff {
    s: u32,
    t: Vec<(E, i128)>,
    lo: i128,
    hi: i128,
    /// range of the value, an integer
    min: i128,
    max: i128,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}

/// An assignment of the symbolic input bytes.
#[derive(Clone)]
pub struct Model {
    pub id: u64,
    pub v: Rc<Vec<u8>>,
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            n: vec![],
            i: vec![],
            map: HashMap::default(),
            sups: vec![],
            supmap: HashMap::new(),
            supun: HashMap::default(),
            finfo: HashMap::default(),
            tables: vec![],
            tabmap: HashMap::new(),
            nvars: 0,
            var_ids: vec![],
            stamp: vec![],
            val: vec![],
            cur_stamp: 1,
            stamp_model: u64::MAX,
            tabled: HashMap::default(),
            table_bits: 8,
            affs: HashMap::default(),
        };
        p.intern_sup(vec![]);
        p.c(0, 1); // node 0 stands for "no expression" in memory
        p
    }
    fn intern_sup(&mut self, mut v: Vec<u64>) -> u32 {
        while v.last() == Some(&0) {
            v.pop();
        }
        if let Some(&i) = self.supmap.get(&v) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(Rc::new(v.clone()));
        self.supmap.insert(v, i);
        i
    }
    fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(&r) = self.supun.get(&k) {
            return r;
        }
        let (x, y) = (self.sups[a as usize].clone(), self.sups[b as usize].clone());
        let n = x.len().max(y.len());
        let mut v = vec![0; n];
        for i in 0..n {
            v[i] = x.get(i).copied().unwrap_or(0) | y.get(i).copied().unwrap_or(0);
        }
        let r = self.intern_sup(v);
        self.supun.insert(k, r);
        r
    }
    pub fn sup(&self, e: E) -> Sup {
        self.sups[self.i[e as usize].sup as usize].clone()
    }
    pub fn sup_count(&self, e: E) -> u32 {
        self.sups[self.i[e as usize].sup as usize].iter().map(|x| x.count_ones()).sum()
    }
    pub fn sup_list(&self, e: E) -> Vec<u32> {
        let s = self.sup(e);
        let mut v = vec![];
        for (i, w) in s.iter().enumerate() {
            for b in 0..64 {
                if w >> b & 1 == 1 {
                    v.push(i as u32 * 64 + b);
                }
            }
        }
        v
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    #[inline]
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn range(&self, e: E) -> (u64, u64) {
        let i = &self.i[e as usize];
        (i.lo, i.hi)
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn new_var(&mut self) -> E {
        let k = self.nvars;
        self.nvars += 1;
        let e = self.mk(Op::Var, 8, 0, 0, 0, k as u128);
        self.var_ids.push(e);
        e
    }
    pub fn var(&mut self, k: u32) -> E {
        while self.nvars <= k {
            self.new_var();
        }
        self.var_ids[k as usize]
    }

    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        debug_assert!(w >= 1 && w <= 128);
        let node = Node { op, w: w as u8, a, b, c, k };
        if let Some(&e) = self.map.get(&node) {
            return e;
        }
        let e = self.n.len() as E;
        let info = self.info(&node);
        self.n.push(node);
        self.i.push(info);
        self.map.insert(node, e);
        if is_fpish(op) || op == Op::Ite || op == Op::Const {
            if let Some(f) = self.finfo_of(&node) {
                self.finfo.insert(e, f);
            }
        }
        e
    }

    fn info(&mut self, n: &Node) -> Info {
        let w = n.w as u32;
        let full = m64(w);
        let g = |s: &Self, e: E| s.i[e as usize];
        let (mut lo, mut hi, mut kz) = (0u64, if w > 64 { u64::MAX } else { full }, 0u64);
        let mut sup = 0;
        let mut fp = false;
        let narrow = w <= 64;
        match n.op {
            Op::Const => {
                if narrow {
                    lo = n.k as u64;
                    hi = lo;
                    kz = !lo & full;
                }
            }
            Op::Var => {
                let k = n.k as usize;
                let mut v = vec![0; k / 64 + 1];
                v[k / 64] = 1 << (k % 64);
                sup = self.intern_sup(v);
            }
            _ => {
                let kids = kids(n);
                for &x in kids.iter().flatten() {
                    let s = g(self, x);
                    sup = self.sup_union(sup, s.sup);
                    fp |= s.fp;
                }
                if is_fp_op(n.op) {
                    fp = true;
                }
            }
        }
        if narrow {
            let aw = if n.op == Op::Const || n.op == Op::Var { w } else { self.w(n.a) };
            let a = if n.op == Op::Const || n.op == Op::Var { Info { lo: 0, hi: 0, kz: 0, sup: 0, fp: false, slo: 0, shi: 0 } } else { g(self, n.a) };
            let an = aw <= 64;
            match n.op {
                Op::Add if an => {
                    let b = g(self, n.b);
                    if let Some(s) = a.hi.checked_add(b.hi) {
                        if s <= full {
                            lo = a.lo + b.lo;
                            hi = s;
                        }
                    }
                    let tz = (!a.kz).trailing_zeros().min((!b.kz).trailing_zeros()).min(w);
                    kz = m64(tz);
                    if tz == 0 {
                        kz = 0;
                    }
                }
                Op::Sub if an => {
                    let b = g(self, n.b);
                    if a.lo >= b.hi {
                        lo = a.lo - b.hi;
                        hi = a.hi - b.lo;
                    }
                    let tz = (!a.kz).trailing_zeros().min((!b.kz).trailing_zeros()).min(w);
                    kz = if tz == 0 { 0 } else { m64(tz) };
                }
                Op::Mul if an => {
                    let b = g(self, n.b);
                    if let Some(s) = a.hi.checked_mul(b.hi) {
                        if s <= full {
                            lo = a.lo * b.lo;
                            hi = s;
                        }
                    }
                    let tz = ((!a.kz).trailing_zeros() + (!b.kz).trailing_zeros()).min(w);
                    kz = if tz == 0 { 0 } else { m64(tz) };
                }
                Op::UDiv if an => {
                    let b = g(self, n.b);
                    if b.lo > 0 {
                        lo = a.lo / b.hi;
                        hi = a.hi / b.lo;
                    }
                }
                Op::URem if an => {
                    let b = g(self, n.b);
                    if b.lo > 0 {
                        if a.hi < b.lo {
                            lo = a.lo;
                            hi = a.hi;
                        } else {
                            hi = a.hi.min(b.hi - 1);
                        }
                    }
                }
                Op::And if an => {
                    let b = g(self, n.b);
                    kz = a.kz | b.kz;
                    hi = a.hi.min(b.hi);
                }
                Op::Or if an => {
                    let b = g(self, n.b);
                    kz = a.kz & b.kz;
                    lo = a.lo.max(b.lo);
                }
                Op::Xor if an => {
                    let b = g(self, n.b);
                    kz = a.kz & b.kz;
                }
                Op::Shl if an => {
                    if let Some(k) = self.is_c(n.b) {
                        let k = k as u32;
                        if k < w {
                            kz = ((a.kz << k) | ((1u64 << k) - 1)) & full;
                            if a.hi <= full >> k {
                                lo = a.lo << k;
                                hi = a.hi << k;
                            }
                        }
                    }
                }
                Op::LShr if an => {
                    if let Some(k) = self.is_c(n.b) {
                        let k = k as u32;
                        if k < w {
                            kz = (a.kz >> k) | (full & !(full >> k));
                            lo = a.lo >> k;
                            hi = a.hi >> k;
                        }
                    } else {
                        hi = a.hi;
                    }
                }
                Op::Ite => {
                    let (b, c) = (g(self, n.b), g(self, n.c));
                    lo = b.lo.min(c.lo);
                    hi = b.hi.max(c.hi);
                    kz = b.kz & c.kz;
                    // clamp shapes
                    let cn = self.n[n.a as usize];
                    if cn.op == Op::Ult || cn.op == Op::Ule {
                        // ite(x < K, x, e) etc.
                        let (x, y) = (cn.a, cn.b);
                        let mut b2 = b;
                        let mut c2 = c;
                        if n.b == x {
                            b2.hi = b2.hi.min(g(self, y).hi);
                        }
                        if n.b == y {
                            b2.lo = b2.lo.max(g(self, x).lo);
                        }
                        if n.c == x {
                            c2.lo = c2.lo.max(g(self, y).lo);
                        }
                        if n.c == y {
                            c2.hi = c2.hi.min(g(self, x).hi);
                        }
                        if b2.lo <= b2.hi && c2.lo <= c2.hi {
                            lo = b2.lo.min(c2.lo);
                            hi = b2.hi.max(c2.hi);
                        }
                    }
                }
                Op::Concat => {
                    let b = g(self, n.b);
                    let bw = self.w(n.b);
                    lo = (a.lo << bw) | b.lo;
                    hi = (a.hi << bw) | b.hi;
                    kz = (a.kz << bw) | b.kz;
                }
                Op::Extract => {
                    let l = n.k as u32;
                    if an {
                        kz = (a.kz >> l) & full;
                        if a.hi >> l <= full {
                            lo = a.lo >> l;
                            hi = a.hi >> l;
                        }
                    }
                }
                Op::ZExt => {
                    if an {
                        lo = a.lo;
                        hi = a.hi;
                        kz = a.kz | (full & !m64(aw));
                    }
                }
                Op::SExt => {
                    if an && a.hi < 1u64 << (aw - 1) {
                        lo = a.lo;
                        hi = a.hi;
                        kz = a.kz | (full & !m64(aw));
                    }
                }
                Op::Table => {
                    let t = &self.tables[n.k as usize];
                    let (l, h) = (a.lo as usize, (a.hi as usize).min(t.len() - 1));
                    lo = u64::MAX;
                    hi = 0;
                    kz = full;
                    for &x in &t[l.min(h)..=h] {
                        lo = lo.min(x);
                        hi = hi.max(x);
                        kz &= !x;
                    }
                }
                Op::FToU => {
                    if let Some(f) = self.finfo.get(&n.a) {
                        lo = if f.lo <= 0.0 { 0 } else { (f.lo as u64).min(full) };
                        hi = if f.hi <= 0.0 { 0 } else { (f.hi as u64).min(full) };
                    }
                }
                Op::FToS => {
                    if let Some(f) = self.finfo.get(&n.a) {
                        if f.lo >= 0.0 {
                            let mx = (full >> 1) as u64;
                            lo = (f.lo as u64).min(mx);
                            hi = (f.hi as u64).min(mx);
                        }
                    }
                }
                _ => {}
            }
            kz &= full;
            hi = hi.min(full & !kz);
            if hi < full {
                let bl = 64 - hi.leading_zeros();
                kz |= full & !m64x(bl);
            }
            if lo > hi {
                lo = 0; // contradictory facts cannot happen; be safe
            }
        }
        let (mut slo, mut shi) = (i64::MIN, i64::MAX);
        if narrow {
            (slo, shi) = self.signed_of(n, lo, hi);
            // the sign is known: refine the unsigned range
            if slo >= 0 {
                lo = lo.max(slo as u64);
                hi = hi.min(shi as u64);
            } else if shi < 0 {
                lo = lo.max(slo as u64 & full);
                hi = hi.min(shi as u64 & full);
            }
        }
        Info { lo, hi, kz, sup, fp, slo, shi }
    }
    /// The value as a signed number, from the unsigned range and from the signed ranges of the operands.
    fn signed_of(&self, n: &Node, lo: u64, hi: u64) -> (i64, i64) {
        let w = n.w as u32;
        let sx = |v: u64| sext(v as u128, w) as i64;
        let (min, max) = (sx(1u64 << (w - 1)), (m64(w) >> 1) as i64);
        let top = 1u64 << (w - 1);
        let (ulo, uhi) = if hi < top || lo >= top { (sx(lo), sx(hi)) } else { (min, max) };
        let r = |e: E| {
            let i = self.i[e as usize];
            (i.slo as i128, i.shi as i128)
        };
        let nar = |e: E| self.w(e) <= 64;
        let c = |e: E| self.is_c(e).map(|k| k as u32);
        let s: Option<(i128, i128)> = match n.op {
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                Some((a.0 + b.0, a.1 + b.1))
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                Some((a.0 - b.1, a.1 - b.0))
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                let p = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                Some((*p.iter().min().unwrap(), *p.iter().max().unwrap()))
            }
            Op::Shl => match c(n.b) {
                Some(k) if k < w => Some((r(n.a).0 << k, r(n.a).1 << k)),
                _ => None,
            },
            Op::AShr => match c(n.b) {
                Some(k) if k < w => Some((r(n.a).0 >> k, r(n.a).1 >> k)),
                _ => None,
            },
            Op::SExt if nar(n.a) => Some(r(n.a)),
            Op::Extract if n.k == 0 && nar(n.a) => Some(r(n.a)),
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                Some((a.0.min(b.0), a.1.max(b.1)))
            }
            _ => None,
        };
        match s {
            Some((a, b)) if a >= min as i128 && b <= max as i128 => {
                let (x, y) = (ulo.max(a as i64), uhi.min(b as i64));
                if x <= y { (x, y) } else { (ulo, uhi) }
            }
            _ => (ulo, uhi),
        }
    }
    fn aff_done(&self, s: u32, t: Vec<(E, i128)>, lo: i128, hi: i128) -> Option<Aff> {
        const LIM: i128 = 1 << 120;
        let (mut a, mut b) = (lo, hi);
        for &(e, c) in &t {
            let (l, h) = self.srange(e);
            let (x, y) = (c.checked_mul(l as i128)?, c.checked_mul(h as i128)?);
            a = a.checked_add(x.min(y))?;
            b = b.checked_add(x.max(y))?;
        }
        if s > 90 || t.len() > 200 || a < -LIM || b > LIM || lo < -LIM || hi > LIM {
            return None;
        }
        // the value is an integer
        Some(Aff { s, t, lo, hi, min: -((-a) >> s), max: b >> s })
    }
    fn aff_sum(&self, a: &Aff, b: &Aff, k: i128) -> Option<Aff> {
        let s = a.s.max(b.s);
        let (fa, fb) = (1i128 << (s - a.s), k.checked_mul(1i128 << (s - b.s))?);
        let mut t = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            let x = a.t.get(i).map_or(E::MAX, |x| x.0);
            let y = b.t.get(j).map_or(E::MAX, |x| x.0);
            let e = x.min(y);
            let mut c = 0i128;
            if x == e {
                c = a.t[i].1.checked_mul(fa)?;
                i += 1;
            }
            if y == e {
                c = c.checked_add(b.t[j].1.checked_mul(fb)?)?;
                j += 1;
            }
            if c != 0 {
                t.push((e, c));
            }
        }
        let (p, q) = (b.lo.checked_mul(fb)?, b.hi.checked_mul(fb)?);
        let lo = a.lo.checked_mul(fa)?.checked_add(p.min(q))?;
        let hi = a.hi.checked_mul(fa)?.checked_add(p.max(q))?;
        let mut r = self.aff_done(s, t, lo, hi)?;
        let (p, q) = (b.min.checked_mul(k)?, b.max.checked_mul(k)?);
        r.min = r.min.max(a.min.checked_add(p.min(q))?);
        r.max = r.max.min(a.max.checked_add(p.max(q))?);
        Some(r)
    }
    fn aff_scale(&self, a: &Aff, k: i128) -> Option<Aff> {
        let t = a.t.iter().map(|&(e, c)| Some((e, c.checked_mul(k)?))).collect::<Option<Vec<_>>>()?;
        let (p, q) = (a.lo.checked_mul(k)?, a.hi.checked_mul(k)?);
        let mut r = self.aff_done(a.s, if k == 0 { vec![] } else { t }, p.min(q), p.max(q))?;
        let (p, q) = (a.min.checked_mul(k)?, a.max.checked_mul(k)?);
        r.min = r.min.max(p.min(q));
        r.max = r.max.min(p.max(q));
        Some(r)
    }
    /// floor(a / 2^k)
    fn aff_shr(&self, a: &Aff, k: u32) -> Option<Aff> {
        let drop = (1i128 << k).checked_sub(1)?.checked_mul(1i128.checked_shl(a.s)?)?;
        let mut r = self.aff_done(a.s + k, a.t.clone(), a.lo.checked_sub(drop)?, a.hi)?;
        r.min = r.min.max(a.min >> k);
        r.max = r.max.min(a.max >> k);
        Some(r)
    }
    fn aff(&mut self, e: E, depth: u32) -> Rc<Aff> {
        if let Some(a) = self.affs.get(&e) {
            return a.clone();
        }
        let a = if depth > 1500 { None } else { self.aff_of(e, depth) };
        let (l, h) = self.srange(e);
        let a = Rc::new(match a {
            Some(a) => a,
            None if l == h => Aff { s: 0, t: vec![], lo: l as i128, hi: l as i128, min: l as i128, max: l as i128 },
            None => Aff { s: 0, t: vec![(e, 1)], lo: 0, hi: 0, min: l as i128, max: h as i128 },
        });
        if depth <= 1500 {
            self.affs.insert(e, a.clone());
        }
        a
    }
    fn aff_of(&mut self, e: E, depth: u32) -> Option<Aff> {
        let n = self.n[e as usize];
        let w = n.w as u32;
        if w > 64 || w == 1 {
            return None;
        }
        let d = depth + 1;
        let r = match n.op {
            Op::Add | Op::Sub => {
                let (a, b) = (self.aff(n.a, d), self.aff(n.b, d));
                self.aff_sum(&a, &b, if n.op == Op::Add { 1 } else { -1 })?
            }
            Op::Mul => {
                let (k, x) = match (self.is_c(n.a), self.is_c(n.b)) {
                    (Some(k), _) => (k, n.b),
                    (_, Some(k)) => (k, n.a),
                    _ => return None,
                };
                let a = self.aff(x, d);
                self.aff_scale(&a, sext(k, w))?
            }
            Op::Shl => {
                let k = self.is_c(n.b)?;
                if k >= w as u128 {
                    return None;
                }
                let a = self.aff(n.a, d);
                self.aff_scale(&a, 1i128 << k)?
            }
            Op::AShr | Op::LShr => {
                let k = self.is_c(n.b)?;
                if k >= w as u128 {
                    return None;
                }
                let a = self.aff(n.a, d);
                if n.op == Op::LShr && a.min < 0 {
                    return None;
                }
                self.aff_shr(&a, k as u32)?
            }
            Op::Concat => {
                let k = self.is_c(n.b)?;
                let bw = self.w(n.b);
                let a = self.aff(n.a, d);
                let a = self.aff_scale(&a, 1i128 << bw)?;
                let k = (k as i128).checked_mul(1i128 << a.s)?;
                self.aff_done(a.s, a.t.clone(), a.lo.checked_add(k)?, a.hi.checked_add(k)?)?
            }
            Op::ZExt if self.n[n.a as usize].op == Op::Concat && self.is_c(self.n[n.a as usize].b).is_some() => {
                let m = self.n[n.a as usize];
                let k = self.is_c(m.b)? as i128;
                let bw = self.w(m.b);
                let z = self.zext(m.a, 64.min(w.max(self.w(m.a) + 1)));
                let a = self.aff(z, d);
                if a.min < 0 {
                    return None;
                }
                let a = self.aff_scale(&a, 1i128 << bw)?;
                let k = k.checked_mul(1i128 << a.s)?;
                self.aff_done(a.s, a.t.clone(), a.lo.checked_add(k)?, a.hi.checked_add(k)?)?
            }
            Op::SExt | Op::ZExt | Op::Extract => {
                // the bits of x from l on
                let (x, l, ew) = {
                    let m = self.n[n.a as usize];
                    if n.op == Op::Extract {
                        (n.a, n.k as u32, w)
                    } else if m.op == Op::Extract {
                        (m.a, m.k as u32, m.w as u32)
                    } else {
                        (n.a, 0, m.w as u32)
                    }
                };
                if self.w(x) > 64 {
                    return None;
                }
                let a = self.aff(x, d);
                let a = if l == 0 { Aff { s: a.s, t: a.t.clone(), lo: a.lo, hi: a.hi, min: a.min, max: a.max } } else { self.aff_shr(&a, l)? };
                // nothing is cut off; a shifted negative number keeps its sign only where the top bit is kept
                let (min, max) = if n.op == Op::ZExt { (0, mask(ew) as i128) } else { (-(1i128 << (ew - 1)), (1i128 << (ew - 1)) - 1) };
                if a.min < min || a.max > max {
                    // the sum may wrap and come back
                    if let Some(a) = self.aff_mod(x, l + ew, n.op == Op::ZExt, d) {
                        return if l == 0 { Some(a) } else { self.aff_shr(&a, l) };
                    }
                    if n.op == Op::ZExt && w < 64 {
                        // one leaf for every width
                        let z = self.zext(n.a, 64);
                        let z = self.aff(z, d);
                        return Some(Aff { s: z.s, t: z.t.clone(), lo: z.lo, hi: z.hi, min: z.min, max: z.max });
                    }
                    return None;
                }
                a
            }
            Op::Or if self.disjoint(n.a, n.b) => {
                let (a, b) = (self.aff(n.a, d), self.aff(n.b, d));
                self.aff_sum(&a, &b, 1)?
            }
            _ => return None,
        };
        // no wrap in this width
        if r.min < -(1i128 << (w - 1)) || r.max >= 1i128 << (w - 1) {
            return self.aff_mod(e, w, false, d);
        }
        Some(r)
    }
    fn disjoint(&self, a: E, b: E) -> bool {
        let w = self.w(a);
        w <= 64 && (self.i[a as usize].kz | self.i[b as usize].kz) & m64(w) == m64(w)
    }
    /// The lowest m bits of e as a linear form that stays in range, whatever wraps on the way.
    fn aff_mod(&mut self, e: E, m: u32, unsigned: bool, depth: u32) -> Option<Aff> {
        if m > 64 {
            return None;
        }
        let mut t: Vec<(E, i128)> = vec![];
        let mut k = 0i128;
        let mut budget = 400;
        self.lin_mod(e, 1, &mut t, &mut k, &mut budget, depth)?;
        t.sort();
        let half = 1i128 << (m - 1);
        let red = |x: i128| ((x.wrapping_add(half)) & ((1i128 << m) - 1)) - half;
        let mut u: Vec<(E, i128)> = vec![];
        for (e, c) in t {
            match u.last_mut() {
                Some(l) if l.0 == e => l.1 = l.1.wrapping_add(c),
                _ => u.push((e, c)),
            }
        }
        for x in u.iter_mut() {
            x.1 = red(x.1);
        }
        u.retain(|x| x.1 != 0);
        let k = red(k);
        // the constant may be any representative
        for k in [k, k + 2 * half, k - 2 * half] {
            let a = self.aff_done(0, u.clone(), k, k)?;
            let (lo, hi) = if unsigned { (0, 2 * half - 1) } else { (-half, half - 1) };
            if a.min >= lo && a.max <= hi {
                return Some(a);
            }
        }
        None
    }
    fn lin_mod(&mut self, e: E, f: i128, t: &mut Vec<(E, i128)>, k: &mut i128, budget: &mut u32, depth: u32) -> Option<()> {
        *budget = budget.checked_sub(1)?;
        let n = self.n[e as usize];
        let w = n.w as u32;
        if w > 64 || depth > 1400 {
            return None;
        }
        let d = depth + 1;
        match n.op {
            Op::Const => *k = k.wrapping_add(f.wrapping_mul(n.k as i128)),
            Op::Add => {
                self.lin_mod(n.a, f, t, k, budget, d)?;
                self.lin_mod(n.b, f, t, k, budget, d)?;
            }
            Op::Sub => {
                self.lin_mod(n.a, f, t, k, budget, d)?;
                self.lin_mod(n.b, f.wrapping_neg(), t, k, budget, d)?;
            }
            Op::Or if self.disjoint(n.a, n.b) => {
                self.lin_mod(n.a, f, t, k, budget, d)?;
                self.lin_mod(n.b, f, t, k, budget, d)?;
            }
            Op::Mul if self.is_c(n.a).is_some() => {
                let c = self.is_c(n.a).unwrap();
                self.lin_mod(n.b, f.wrapping_mul(sext(c, w)), t, k, budget, d)?;
            }
            Op::Mul if self.is_c(n.b).is_some() => {
                let c = self.is_c(n.b).unwrap();
                self.lin_mod(n.a, f.wrapping_mul(sext(c, w)), t, k, budget, d)?;
            }
            Op::Shl if self.is_c(n.b).map_or(false, |c| c < w as u128) => {
                let c = self.is_c(n.b).unwrap();
                self.lin_mod(n.a, f.wrapping_mul(1i128 << c), t, k, budget, d)?;
            }
            Op::Concat if self.is_c(n.b).is_some() => {
                let c = self.is_c(n.b).unwrap();
                *k = k.wrapping_add(f.wrapping_mul(c as i128));
                let bw = self.w(n.b);
                self.lin_mod(n.a, f.wrapping_mul(1i128 << bw), t, k, budget, d)?;
            }
            _ => {
                let a = self.aff(e, d);
                if a.s != 0 || a.lo != a.hi {
                    return None;
                }
                for &(x, c) in &a.t {
                    t.push((x, f.wrapping_mul(c)));
                }
                *k = k.wrapping_add(f.wrapping_mul(a.lo));
            }
        }
        Some(())
    }
    /// Range of a + k b as signed numbers, without wrapping.
    pub fn aff_range(&mut self, a: E, b: E, k: i128) -> Option<(i128, i128)> {
        if self.w(a) > 64 || self.w(a) == 1 {
            return None;
        }
        let (x, y) = (self.aff(a, 0), self.aff(b, 0));
        let s = self.aff_sum(&x, &y, k)?;
        Some((s.min, s.max))
    }
    /// Range of a times a constant.
    pub fn aff_mul(&mut self, a: E, b: E) -> Option<(i128, i128)> {
        let (k, x) = match (self.is_c(a), self.is_c(b)) {
            (Some(k), _) => (k, b),
            (_, Some(k)) => (k, a),
            _ => return None,
        };
        let w = self.w(a);
        if w > 64 || w == 1 {
            return None;
        }
        let x = self.aff(x, 0);
        let r = self.aff_scale(&x, sext(k, w))?;
        Some((r.min, r.max))
    }
    /// Unsigned comparisons settled by linear forms.
    fn aff_ucmp(&mut self, a: E, b: E, strict: bool) -> Option<bool> {
        if self.w(a) > 64 || self.w(a) == 1 {
            return None;
        }
        let (x, y) = (self.aff(a, 0), self.aff(b, 0));
        if y.min >= 0 && x.max < 0 {
            return Some(false);
        }
        if x.min >= 0 && y.max < 0 {
            return Some(true);
        }
        if !(x.min >= 0 && y.min >= 0) {
            return None;
        }
        let d = self.aff_sum(&x, &y, -1)?;
        if d.max < 0 || !strict && d.max == 0 {
            Some(true)
        } else if d.min > 0 || strict && d.min == 0 {
            Some(false)
        } else {
            None
        }
    }
    pub fn show_aff(&mut self, e: E) -> String {
        let n = self.n[e as usize];
        let mut r = String::new();
        if matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
            for x in [n.a, n.b] {
                let a = self.aff(x, 0);
                r += &format!(" [s {} lo {} hi {} min {} max {}:", a.s, a.lo, a.hi, a.min, a.max);
                for &(e, c) in a.t.iter().take(8) {
                    r += &format!(" {c}*{}{:?}", self.show(e, 2), self.srange(e));
                }
                r += "]";
            }
        }
        r
    }
    pub fn is_sum(&self, e: E) -> bool {
        let n = self.n[e as usize];
        match n.op {
            Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::SExt | Op::AShr => true,
            Op::Concat => self.is_c(n.b).is_some() && self.is_sum(n.a),
            _ => false,
        }
    }
    pub fn srange(&self, e: E) -> (i64, i64) {
        let i = self.i[e as usize];
        (i.slo, i.shi)
    }
    /// Signed comparisons the ranges settle.
    fn scmp(&self, a: E, b: E, strict: bool) -> Option<bool> {
        if self.w(a) > 64 {
            return None;
        }
        let (a, b) = (self.srange(a), self.srange(b));
        if strict {
            if a.1 < b.0 { Some(true) } else if a.0 >= b.1 { Some(false) } else { None }
        } else if a.1 <= b.0 {
            Some(true)
        } else if a.0 > b.1 {
            Some(false)
        } else {
            None
        }
    }

    fn fget(&mut self, e: E) -> Option<FInfo> {
        self.finfo.get(&e).copied()
    }
    fn finfo_of(&mut self, n: &Node) -> Option<FInfo> {
        let w = n.w as u32;
        let r32 = |x: f64| if w == 32 { x as f32 as f64 } else { x };
        let ok = |f: FInfo| {
            if f.lo.is_finite() && f.hi.is_finite() {
                Some(f)
            } else {
                None
            }
        };
        match n.op {
            Op::Const if w == 32 || w == 64 => {
                let v = fval(n.k, w);
                if v.is_finite() {
                    Some(FInfo { lo: v, hi: v, no_neg_zero: !(v == 0.0 && v.is_sign_negative()) })
                } else {
                    None
                }
            }
            Op::UToF => {
                let i = self.i[n.a as usize];
                if self.w(n.a) > 64 {
                    return None;
                }
                let cv = |x: u64| if w == 32 { x as f32 as f64 } else { x as f64 };
                ok(FInfo { lo: cv(i.lo), hi: cv(i.hi), no_neg_zero: true })
            }
            Op::SToF => {
                let i = self.i[n.a as usize];
                let aw = self.w(n.a);
                if aw > 64 {
                    return None;
                }
                let cv = |x: i64| if w == 32 { x as f32 as f64 } else { x as f64 };
                let (l, h) = if i.hi < 1u64 << (aw - 1) {
                    (i.lo as i64, i.hi as i64)
                } else {
                    ((-1i64) << (aw - 1), ((1u64 << (aw - 1)) - 1) as i64)
                };
                ok(FInfo { lo: cv(l), hi: cv(h), no_neg_zero: true })
            }
            Op::FAdd => {
                let (a, b) = (self.fget(n.a)?, self.fget(n.b)?);
                ok(FInfo { lo: r32(a.lo + b.lo), hi: r32(a.hi + b.hi), no_neg_zero: a.no_neg_zero || b.no_neg_zero })
            }
            Op::FSub => {
                let (a, b) = (self.fget(n.a)?, self.fget(n.b)?);
                ok(FInfo { lo: r32(a.lo - b.hi), hi: r32(a.hi - b.lo), no_neg_zero: a.no_neg_zero })
            }
            Op::FMul | Op::FDiv => {
                let (a, b) = (self.fget(n.a)?, self.fget(n.b)?);
                if n.op == Op::FDiv && b.lo <= 0.0 && b.hi >= 0.0 {
                    return None;
                }
                let f = |x: f64, y: f64| r32(if n.op == Op::FMul { x * y } else { x / y });
                let c = [f(a.lo, b.lo), f(a.lo, b.hi), f(a.hi, b.lo), f(a.hi, b.hi)];
                let lo = c.iter().copied().fold(f64::INFINITY, f64::min);
                let hi = c.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                ok(FInfo { lo, hi, no_neg_zero: a.lo >= 0.0 && b.lo >= 0.0 && a.no_neg_zero && b.no_neg_zero })
            }
            Op::FExt => self.fget(n.a),
            Op::FTrunc => {
                let a = self.fget(n.a)?;
                ok(FInfo { lo: a.lo as f32 as f64, hi: a.hi as f32 as f64, no_neg_zero: a.no_neg_zero && a.lo >= 0.0 })
            }
            Op::FSqrt => {
                let a = self.fget(n.a)?;
                if a.lo < 0.0 {
                    return None;
                }
                ok(FInfo { lo: r32(a.lo.sqrt()), hi: r32(a.hi.sqrt()), no_neg_zero: a.no_neg_zero })
            }
            Op::FRnd => {
                let a = self.fget(n.a)?;
                ok(FInfo { lo: frnd(a.lo, n.k as u8), hi: frnd(a.hi, n.k as u8), no_neg_zero: a.no_neg_zero && a.lo >= 0.0 })
            }
            Op::Ite if w == 32 || w == 64 => {
                let (mut b, mut c) = (self.fget(n.b)?, self.fget(n.c)?);
                let cn = self.n[n.a as usize];
                if cn.op == Op::FLt || cn.op == Op::FLe {
                    // operands are known non-NaN when the refined side is
                    let (x, y) = (cn.a, cn.b);
                    if let (Some(fx), Some(fy)) = (self.fget(x), self.fget(y)) {
                        if n.b == x {
                            b.hi = b.hi.min(fy.hi);
                        }
                        if n.b == y {
                            b.lo = b.lo.max(fx.lo);
                        }
                        if n.c == x {
                            c.lo = c.lo.max(fy.lo);
                        }
                        if n.c == y {
                            c.hi = c.hi.min(fx.hi);
                        }
                    }
                }
                Some(FInfo { lo: b.lo.min(c.lo), hi: b.hi.max(c.hi), no_neg_zero: b.no_neg_zero && c.no_neg_zero })
            }
            _ => None,
        }
    }

    // ---------- evaluation ----------
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if let Some(k) = self.is_c(e) {
            return k;
        }
        if self.stamp_model != m.id {
            self.stamp_model = m.id;
            self.cur_stamp += 1;
        }
        self.eval_in(e, &m.v.clone())
    }
    fn eval_in(&mut self, e: E, vars: &[u8]) -> u128 {
        if self.stamp.len() < self.n.len() {
            let l = self.n.len() + 1024;
            self.stamp.resize(l, 0);
            self.val.resize(l, 0);
        }
        let cs = self.cur_stamp;
        if self.stamp[e as usize] == cs {
            return self.val[e as usize];
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            let xi = x as usize;
            if self.stamp[xi] == cs {
                st.pop();
                continue;
            }
            let n = self.n[xi];
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => vars.get(n.k as usize).copied().unwrap_or(0) as u128,
                _ => {
                    let ks = kids(&n);
                    let mut ready = true;
                    for &k in ks.iter().flatten() {
                        if self.stamp[k as usize] != cs {
                            st.push(k);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let a = self.val[n.a as usize];
                    let b = if ks[1].is_some() { self.val[n.b as usize] } else { 0 };
                    let c = if ks[2].is_some() { self.val[n.c as usize] } else { 0 };
                    let aw = self.w(n.a);
                    let bw = if ks[1].is_some() { self.w(n.b) } else { 0 };
                    self.apply(&n, a, b, c, aw, bw)
                }
            };
            self.stamp[xi] = cs;
            self.val[xi] = v;
            st.pop();
        }
        self.val[e as usize]
    }
    /// Apply an operator to concrete operand values.
    fn apply(&self, n: &Node, a: u128, b: u128, c: u128, aw: u32, bw: u32) -> u128 {
        let w = n.w as u32;
        let mk = mask(w);
        let bl = |x: bool| x as u128;
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Add => a.wrapping_add(b) & mk,
            Op::Sub => a.wrapping_sub(b) & mk,
            Op::Mul => a.wrapping_mul(b) & mk,
            Op::UDiv => if b == 0 { mk } else { a / b },
            Op::URem => if b == 0 { a } else { a % b },
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 { 1 } else { mk }
                } else {
                    (x.wrapping_div(y) as u128) & mk
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 { a } else { (x.wrapping_rem(y) as u128) & mk }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => if b >= w as u128 { 0 } else { (a << b) & mk },
            Op::LShr => if b >= w as u128 { 0 } else { a >> b },
            Op::AShr => {
                let x = sext(a, w);
                let s = b.min(127) as u32;
                ((x >> s.min(w.max(1) - 1)) as u128) & mk
            }
            Op::Eq => bl(a == b),
            Op::Ult => bl(a < b),
            Op::Ule => bl(a <= b),
            Op::Slt => bl(sext(a, aw) < sext(b, aw)),
            Op::Sle => bl(sext(a, aw) <= sext(b, aw)),
            Op::Ite => if a != 0 { b } else { c },
            Op::Concat => (a << bw) | b,
            Op::Extract => (a >> n.k) & mk,
            Op::ZExt => a,
            Op::SExt => (sext(a, aw) as u128) & mk,
            Op::Table => {
                let t = &self.tables[n.k as usize];
                t.get(a as usize).copied().unwrap_or(0) as u128
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                if w == 32 {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    let r = match n.op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        Op::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                } else {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    let r = match n.op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        Op::FDiv => x / y,
                        _ => x % y,
                    };
                    r.to_bits() as u128
                }
            }
            Op::FEq => bl(fval(a, aw) == fval(b, aw)),
            Op::FLt => bl(fval(a, aw) < fval(b, aw)),
            Op::FLe => bl(fval(a, aw) <= fval(b, aw)),
            Op::FUno => bl(fval(a, aw).is_nan() || fval(b, aw).is_nan()),
            Op::FExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
            Op::FTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
            Op::UToF => {
                if w == 32 {
                    (a as f32).to_bits() as u128
                } else {
                    (a as f64).to_bits() as u128
                }
            }
            Op::SToF => {
                let x = sext(a, aw);
                if w == 32 {
                    (x as f32).to_bits() as u128
                } else {
                    (x as f64).to_bits() as u128
                }
            }
            Op::FToU => {
                let x = fval(a, aw);
                if x.is_nan() || x <= 0.0 { 0 } else { (x as u128).min(mk) }
            }
            Op::FToS => {
                let x = fval(a, aw);
                if x.is_nan() {
                    0
                } else {
                    let mx = (mk >> 1) as i128;
                    ((x as i128).clamp(-mx - 1, mx) as u128) & mk
                }
            }
            Op::FSqrt => {
                if w == 32 {
                    f32::from_bits(a as u32).sqrt().to_bits() as u128
                } else {
                    f64::from_bits(a as u64).sqrt().to_bits() as u128
                }
            }
            Op::FRnd => {
                if w == 32 {
                    (frnd(f32::from_bits(a as u32) as f64, n.k as u8) as f32).to_bits() as u128
                } else {
                    frnd(f64::from_bits(a as u64), n.k as u8).to_bits() as u128
                }
            }
            Op::FFma => {
                if w == 32 {
                    f32::from_bits(a as u32).mul_add(f32::from_bits(b as u32), f32::from_bits(c as u32)).to_bits() as u128
                } else {
                    f64::from_bits(a as u64).mul_add(f64::from_bits(b as u64), f64::from_bits(c as u64)).to_bits() as u128
                }
            }
        }
    }

    // ---------- constructors ----------
    fn fold(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> Option<E> {
        let n = Node { op, w: w as u8, a, b, c, k };
        let ks = kids(&n);
        let va = self.is_c(a)?;
        let vb = match ks[1] {
            Some(x) => self.is_c(x)?,
            None => 0,
        };
        let vc = match ks[2] {
            Some(x) => self.is_c(x)?,
            None => 0,
        };
        let bw = if ks[1].is_some() { self.w(b) } else { 0 };
        let r = self.apply(&n, va, vb, vc, self.w(a), bw);
        Some(self.c(r, w))
    }

    pub fn add(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Add, w, a, b, 0, 0) {
            return r;
        }
        if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return a;
            }
            let n = self.n[a as usize];
            if n.op == Op::Add {
                if let Some(k2) = self.is_c(n.b) {
                    let c = self.c(k.wrapping_add(k2), w);
                    return self.add(n.a, c);
                }
            }
            if n.op == Op::Sub {
                if let Some(k2) = self.is_c(n.a) {
                    // (k2 - x) + k
                    let c = self.c(k.wrapping_add(k2), w);
                    return self.sub(c, n.b);
                }
            }
            if n.op == Op::Ite && w > 1 {
                if self.is_c(n.b).is_some() && self.is_c(n.c).is_some() {
                    let x = self.add(n.b, b);
                    let y = self.add(n.c, b);
                    return self.ite(n.a, x, y);
                }
            }
            // adding zero-extended value with no overflow: keep as is
        } else {
            // (x + k) + y -> (x + y) + k
            let n = self.n[a as usize];
            if n.op == Op::Add {
                if self.is_c(n.b).is_some() {
                    let s = self.add(n.a, b);
                    return self.add(s, n.b);
                }
            }
            let n = self.n[b as usize];
            if n.op == Op::Add {
                if self.is_c(n.b).is_some() {
                    let s = self.add(a, n.a);
                    return self.add(s, n.b);
                }
            }
            // (x - y) + y -> x
            let n = self.n[a as usize];
            if n.op == Op::Sub && n.b == b {
                return n.a;
            }
            let n = self.n[b as usize];
            if n.op == Op::Sub && n.b == a {
                return n.a;
            }
            // disjoint bits -> or
            if w <= 64 {
                let (x, y) = (self.i[a as usize].kz, self.i[b as usize].kz);
                if x | y == m64(w) {
                    return self.or(a, b);
                }
            }
        }
        if w == 1 {
            return self.xor(a, b);
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Sub, w, a, b, 0, 0) {
            return r;
        }
        if a == b {
            return self.c(0, w);
        }
        if let Some(k) = self.is_c(b) {
            let c = self.c(k.wrapping_neg(), w);
            return self.add(a, c);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let n = self.n[a as usize];
        if n.op == Op::Add {
            if n.a == b {
                return n.b;
            }
            if n.b == b {
                return n.a;
            }
            if self.is_c(n.b).is_some() {
                let s = self.sub(n.a, b);
                return self.add(s, n.b);
            }
        }
        let m = self.n[b as usize];
        if m.op == Op::Add {
            if let Some(k) = self.is_c(m.b) {
                let s = self.sub(a, m.a);
                let c = self.c(k.wrapping_neg(), w);
                return self.add(s, c);
            }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Mul, w, a, b, 0, 0) {
            return r;
        }
        if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.c(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            let n = self.n[a as usize];
            if n.op == Op::Mul {
                if let Some(k2) = self.is_c(n.b) {
                    let c = self.c(k.wrapping_mul(k2), w);
                    return self.mul(n.a, c);
                }
            }
        }
        if w == 1 {
            return self.and(a, b);
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::UDiv, w, a, b, 0, 0) {
            return r;
        }
        if let Some(k) = self.is_c(b) {
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.c(k.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
            if w <= 64 && (self.i[a as usize].hi as u128) < k {
                return self.c(0, w);
            }
            if let Some((aa, bb, nw)) = self.narrow2(a, b, w) {
                let r = self.udiv(aa, bb);
                let _ = nw;
                return self.zext(r, w);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    fn narrow2(&mut self, a: E, b: E, w: u32) -> Option<(E, E, u32)> {
        if w > 64 || w <= 8 {
            return None;
        }
        let h = self.i[a as usize].hi.max(self.i[b as usize].hi);
        let need = (64 - h.leading_zeros()).max(1);
        let nw = need; // exact width keeps the encoding small
        if nw + 4 > w {
            return None;
        }
        let x = self.extract(a, 0, nw);
        let y = self.extract(b, 0, nw);
        Some((x, y, nw))
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::URem, w, a, b, 0, 0) {
            return r;
        }
        if let Some(k) = self.is_c(b) {
            if k == 1 {
                return self.c(0, w);
            }
            if k.is_power_of_two() {
                let m = self.c(k - 1, w);
                return self.and(a, m);
            }
            if w <= 64 && k != 0 && (self.i[a as usize].hi as u128) < k {
                return a;
            }
            if let Some((aa, bb, _)) = self.narrow2(a, b, w) {
                let r = self.urem(aa, bb);
                return self.zext(r, w);
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::SDiv, w, a, b, 0, 0) {
            return r;
        }
        if w <= 64 {
            let s = 1u64 << (w - 1);
            if self.i[a as usize].hi < s && self.i[b as usize].hi < s {
                return self.udiv(a, b);
            }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::SRem, w, a, b, 0, 0) {
            return r;
        }
        if w <= 64 {
            let s = 1u64 << (w - 1);
            if self.i[a as usize].hi < s && self.i[b as usize].hi < s {
                return self.urem(a, b);
            }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn and(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::And, w, a, b, 0, 0) {
            return r;
        }
        if a == b {
            return a;
        }
        if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return b;
            }
            if k == mask(w) {
                return a;
            }
            if w <= 64 && !(k as u64) & m64(w) & !self.i[a as usize].kz == 0 {
                return a; // cleared bits are already zero
            }
            let n = self.n[a as usize];
            if n.op == Op::And {
                if let Some(k2) = self.is_c(n.b) {
                    let c = self.c(k & k2, w);
                    return self.and(n.a, c);
                }
            }
            // low mask -> zext(extract)
            if (k + 1).is_power_of_two() {
                let nb = k.trailing_ones();
                let x = self.extract(a, 0, nb);
                return self.zext(x, w);
            }
            // contiguous mask
            let tz = k.trailing_zeros();
            let ones = (k >> tz).trailing_ones();
            if k >> tz == mask(ones) && w <= 128 {
                let x = self.extract(a, tz, ones);
                let y = self.zext(x, w - tz);
                let z = self.c(0, tz);
                return self.concat(y, z);
            }
            if n.op == Op::Ite && self.is_c(n.b).is_some() && self.is_c(n.c).is_some() {
                let x = self.and(n.b, b);
                let y = self.and(n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        if w == 1 {
            if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                return self.c(0, 1);
            }
            // absorption: a & (a & x)
            let n = self.n[b as usize];
            if n.op == Op::And && (n.a == a || n.b == a) {
                return b;
            }
            let n = self.n[a as usize];
            if n.op == Op::And && (n.a == b || n.b == b) {
                return a;
            }
        }
        if w <= 64 && self.i[a as usize].kz | self.i[b as usize].kz == m64(w) {
            return self.c(0, w);
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    /// Debug rendering.
    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => format!("{:#x}", self.is_c(e).unwrap()),
            Op::Var => format!("v{}", n.k),
            _ if d == 0 => "..".into(),
            o => {
                let mut r = format!("({o:?}:{}", n.w);
                for c in kids(n).into_iter().flatten() {
                    r += " ";
                    r += &self.show(c, d - 1);
                }
                r + ")"
            }
        }
    }
    pub fn is_not(&self, a: E) -> Option<E> {
        let n = &self.n[a as usize];
        if n.op == Op::Xor && self.is_c(n.b) == Some(mask(n.w as u32)) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn or(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Or, w, a, b, 0, 0) {
            return r;
        }
        if a == b {
            return a;
        }
        if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return a;
            }
            if k == mask(w) {
                return b;
            }
        }
        if w == 1 {
            if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
                return self.c(1, 1);
            }
        }
        if w > 1 && w <= 64 {
            // byte-wise disjoint operands become a concatenation
            let (x, y) = (self.i[a as usize].kz, self.i[b as usize].kz);
            if x | y == m64(w) && w > 8 {
                if let Some(r) = self.disjoint_concat(a, b, w) {
                    return r;
                }
            }
        } else if w > 64 {
            if let Some(r) = self.wide_concat(a, b, w) {
                return r;
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    /// or of values occupying disjoint contiguous bit ranges
    fn disjoint_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // find the split point such that one operand is zero below it and the other above it
        let (za, zb) = (self.i[a as usize].kz, self.i[b as usize].kz);
        let f = m64(w);
        let (ua, ub) = (!za & f, !zb & f);
        if ua == 0 {
            return Some(b);
        }
        if ub == 0 {
            return Some(a);
        }
        let (hi, lo, ulo, uhi) = if ua.trailing_zeros() > 63 - ub.leading_zeros() {
            (a, b, ub, ua)
        } else if ub.trailing_zeros() > 63 - ua.leading_zeros() {
            (b, a, ua, ub)
        } else {
            return None;
        };
        let _ = ulo;
        let s = uhi.trailing_zeros();
        let x = self.extract(hi, s, w - s);
        let y = self.extract(lo, 0, s);
        Some(self.concat(x, y))
    }
    fn wide_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // concat(x, 0^k) | zext(y) where width(y) <= k
        let n = self.n[a as usize];
        let m = self.n[b as usize];
        let tryit = |s: &mut Self, n: Node, m: Node| -> Option<E> {
            if n.op == Op::Concat && s.is_c(n.b) == Some(0) {
                let k = s.w(n.b);
                if m.op == Op::ZExt && s.w(m.a) <= k {
                    let y = s.zext(m.a, k);
                    return Some(s.concat(n.a, y));
                }
            }
            None
        };
        if let Some(r) = tryit(self, n, m) {
            return Some(r);
        }
        if let Some(r) = tryit(self, m, n) {
            return Some(r);
        }
        let _ = w;
        None
    }
    pub fn xor(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Xor, w, a, b, 0, 0) {
            return r;
        }
        if a == b {
            return self.c(0, w);
        }
        if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return a;
            }
            let n = self.n[a as usize];
            if n.op == Op::Xor {
                if let Some(k2) = self.is_c(n.b) {
                    let c = self.c(k ^ k2, w);
                    return self.xor(n.a, c);
                }
            }
            if w == 1 {
                // not of comparisons
                match n.op {
                    Op::Ult => return self.ule(n.b, n.a),
                    Op::Ule => return self.ult(n.b, n.a),
                    Op::Slt => return self.sle(n.b, n.a),
                    Op::Sle => return self.slt(n.b, n.a),
                    _ => {}
                }
            }
            if n.op == Op::Ite && self.is_c(n.b).is_some() && self.is_c(n.c).is_some() {
                let x = self.xor(n.b, b);
                let y = self.xor(n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(mask(w), w);
        self.xor(a, m)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Shl, w, a, b, 0, 0) {
            return r;
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            let x = self.extract(a, 0, w - k);
            let z = self.c(0, k);
            return self.concat(x, z);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::LShr, w, a, b, 0, 0) {
            return r;
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::AShr, w, a, b, 0, 0) {
            return r;
        }
        if let Some(k) = self.is_c(b) {
            if k == 0 {
                return a;
            }
            let k = (k as u32).min(w - 1);
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        if w <= 64 && self.i[a as usize].hi < 1u64 << (w - 1) {
            // sign bit clear; shifts beyond width give 0 in both
            return self.lshr(a, b);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        if let Some(r) = self.fold(Op::Eq, 1, a, b, 0, 0) {
            return r;
        }
        let w = self.w(a);
        if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if w <= 64 {
            let (x, y) = (self.i[a as usize], self.i[b as usize]);
            if x.hi < y.lo || y.hi < x.lo {
                return self.c(0, 1);
            }
        }
        if w == 1 {
            if let Some(k) = self.is_c(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let n = self.n[a as usize];
        if let Some(k) = self.is_c(b) {
            if w <= 64 && (k as u64) & self.i[a as usize].kz != 0 {
                return self.c(0, 1);
            }
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k > mask(iw) {
                        return self.c(0, 1);
                    }
                    let c = self.c(k, iw);
                    return self.eq(n.a, c);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let kk = k & mask(iw);
                    if (sext(kk, iw) as u128) & mask(w) != k {
                        return self.c(0, 1);
                    }
                    let c = self.c(kk, iw);
                    return self.eq(n.a, c);
                }
                Op::Concat => {
                    let bw = self.w(n.b);
                    let aw = self.w(n.a);
                    let ch = self.c(k >> bw, aw);
                    let cl = self.c(k & mask(bw), bw);
                    let x = self.eq(n.a, ch);
                    let y = self.eq(n.b, cl);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(k2) = self.is_c(n.b) {
                        let c = self.c(k.wrapping_sub(k2), w);
                        return self.eq(n.a, c);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.is_c(n.b) {
                        let c = self.c(k ^ k2, w);
                        return self.eq(n.a, c);
                    }
                }
                Op::Ite => {
                    let (t, f) = (n.b, n.c);
                    if self.is_c(t).is_some() || self.is_c(f).is_some() {
                        let x = self.eq(t, b);
                        let y = self.eq(f, b);
                        return self.ite(n.a, x, y);
                    }
                }
                Op::Sub if k == 0 => return self.eq(n.a, n.b),
                _ => {}
            }
        } else {
            let m = self.n[b as usize];
            if n.op == Op::ZExt && m.op == Op::ZExt {
                let (wa, wb) = (self.w(n.a), self.w(m.a));
                let mw = wa.max(wb);
                if mw < w {
                    let x = self.zext(n.a, mw);
                    let y = self.zext(m.a, mw);
                    return self.eq(x, y);
                }
            }
            if n.op == Op::Concat && m.op == Op::Concat && self.w(n.b) == self.w(m.b) {
                let x = self.eq(n.a, m.a);
                let y = self.eq(n.b, m.b);
                return self.and(x, y);
            }
            if n.op == Op::SExt && m.op == Op::SExt && self.w(n.a) == self.w(m.a) {
                return self.eq(n.a, m.a);
            }
            if n.op == Op::Add && m.op == Op::Add && n.b == m.b {
                return self.eq(n.a, m.a);
            }
            if n.op == Op::Concat && w <= 64 || m.op == Op::Concat && w <= 64 {
                let (cn, o) = if n.op == Op::Concat { (n, b) } else { (m, a) };
                let on = self.n[o as usize];
                if on.op == Op::ZExt || on.op == Op::Concat {
                    let bw = self.w(cn.b);
                    let h = self.extract(o, bw, w - bw);
                    let l = self.extract(o, 0, bw);
                    let x = self.eq(cn.a, h);
                    let y = self.eq(cn.b, l);
                    return self.and(x, y);
                }
            }
        }
        // x / k == y  <=>  y * k <= x < (y + 1) * k
        let (qa, qb) = (self.quotient(a), self.quotient(b));
        if qa.is_some() != qb.is_some() && w <= 64 {
            let ((x, k), o) = if let Some(q) = qa { (q, b) } else { (qb.unwrap(), a) };
            if self.is_c(o) == Some(0) {
                let kc = self.c(k, self.w(x));
                return self.ult(x, kc);
            }
            let l = self.ult(a, b);
            let g = self.ult(b, a);
            let (l, g) = (self.not(l), self.not(g));
            return self.and(l, g);
        }
        let r = self.mk(Op::Eq, 1, a, b, 0, 0);
        self.maybe_table(r)
    }
    /// e == zext/trunc of x / k without loss
    fn quotient(&self, e: E) -> Option<(E, u128)> {
        let mut n = self.n[e as usize];
        loop {
            match n.op {
                Op::ZExt => n = self.n[n.a as usize],
                Op::Extract if n.k == 0 && self.w(n.a) <= 64 && (self.i[n.a as usize].hi as u128) <= mask(n.w as u32) => n = self.n[n.a as usize],
                Op::UDiv => {
                    let k = self.is_c(n.b)?;
                    return if k > 1 && n.w <= 64 && !self.i[n.a as usize].fp { Some((n.a, k)) } else { None };
                }
                _ => return None,
            }
        }
    }
    /// a < b with a quotient by a constant on one side, without the division
    fn ult_quotient(&mut self, a: E, b: E) -> Option<E> {
        let qa = self.quotient(a);
        let qb = self.quotient(b);
        if qa.is_some() == qb.is_some() {
            return None;
        }
        let w = self.w(a);
        if let Some((x, k)) = qa {
            // x / k < b  <=>  x < b * k
            let bits = 128 - k.leading_zeros();
            let ww = (w + bits).max(self.w(x));
            if ww > 128 {
                return None;
            }
            let (x, b) = (self.zext(x, ww), self.zext(b, ww));
            let kc = self.c(k, ww);
            let m = self.mul(b, kc);
            Some(self.ult(x, m))
        } else {
            // a < x / k  <=>  (a + 1) * k <= x
            let (x, k) = qb.unwrap();
            let bits = 128 - k.leading_zeros();
            let ww = (w + bits + 1).max(self.w(x));
            if ww > 128 {
                return None;
            }
            let (x, a) = (self.zext(x, ww), self.zext(a, ww));
            let (kc, one) = (self.c(k, ww), self.c(1, ww));
            let a1 = self.add(a, one);
            let m = self.mul(a1, kc);
            let l = self.ult(x, m);
            Some(self.not(l))
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        if let Some(r) = self.fold(Op::Ult, 1, a, b, 0, 0) {
            return r;
        }
        let w = self.w(a);
        if w <= 64 {
            let (x, y) = (self.i[a as usize], self.i[b as usize]);
            if x.hi < y.lo {
                return self.c(1, 1);
            }
            if x.lo >= y.hi {
                return self.c(0, 1);
            }
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if self.is_c(b) == Some(1) {
            let z = self.c(0, w);
            return self.eq(a, z);
        }
        if self.is_c(a) == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if let Some((x, y)) = self.cmp_narrow(a, b, w) {
            return self.ult(x, y);
        }
        if let Some(r) = self.cmp_ite(a, b, Op::Ult) {
            return r;
        }
        if let Some(r) = self.ult_quotient(a, b) {
            return r;
        }
        if let Some(r) = self.aff_ucmp(a, b, true) {
            return self.c(r as u128, 1);
        }
        let r = self.mk(Op::Ult, 1, a, b, 0, 0);
        self.maybe_table(r)
    }
    fn cmp_ite(&mut self, a: E, b: E, op: Op) -> Option<E> {
        let (n, m) = (self.n[a as usize], self.n[b as usize]);
        let go = |s: &mut Self, x: E, y: E| match op {
            Op::Ult => s.ult(x, y),
            Op::Ule => s.ule(x, y),
            Op::Slt => s.slt(x, y),
            _ => s.sle(x, y),
        };
        if n.op == Op::Ite && self.is_c(b).is_some() && (self.is_c(n.b).is_some() || self.is_c(n.c).is_some()) {
            let x = go(self, n.b, b);
            let y = go(self, n.c, b);
            return Some(self.ite(n.a, x, y));
        }
        if m.op == Op::Ite && self.is_c(a).is_some() && (self.is_c(m.b).is_some() || self.is_c(m.c).is_some()) {
            let x = go(self, a, m.b);
            let y = go(self, a, m.c);
            return Some(self.ite(m.a, x, y));
        }
        None
    }
    fn cmp_narrow(&mut self, a: E, b: E, w: u32) -> Option<(E, E)> {
        let (n, m) = (self.n[a as usize], self.n[b as usize]);
        let core = |s: &Self, n: &Node, e: E| -> Option<u32> {
            if n.op == Op::ZExt {
                Some(s.w(n.a))
            } else if let Some(k) = s.is_c(e) {
                Some((128 - k.leading_zeros()).max(1))
            } else {
                None
            }
        };
        if n.op != Op::ZExt && m.op != Op::ZExt {
            return None;
        }
        let x = core(self, &n, a)?;
        let y = core(self, &m, b)?;
        let nw = x.max(y);
        if nw >= w {
            return None;
        }
        let xa = self.extract(a, 0, nw);
        let xb = self.extract(b, 0, nw);
        Some((xa, xb))
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        if let Some(r) = self.fold(Op::Ule, 1, a, b, 0, 0) {
            return r;
        }
        let w = self.w(a);
        if w <= 64 {
            let (x, y) = (self.i[a as usize], self.i[b as usize]);
            if x.hi <= y.lo {
                return self.c(1, 1);
            }
            if x.lo > y.hi {
                return self.c(0, 1);
            }
        }
        if w == 1 {
            let na = self.not(a);
            return self.or(na, b);
        }
        if let Some(k) = self.is_c(b) {
            // a <= k  ->  a < k+1
            if k < mask(w) {
                let c = self.c(k + 1, w);
                return self.ult(a, c);
            }
        }
        if let Some(k) = self.is_c(a) {
            if k > 0 {
                let c = self.c(k - 1, w);
                return self.ult(c, b);
            }
        }
        if let Some((x, y)) = self.cmp_narrow(a, b, w) {
            return self.ule(x, y);
        }
        if let Some(r) = self.cmp_ite(a, b, Op::Ule) {
            return r;
        }
        if self.quotient(a).is_some() != self.quotient(b).is_some() {
            let l = self.ult(b, a);
            return self.not(l);
        }
        if let Some(r) = self.aff_ucmp(a, b, false) {
            return self.c(r as u128, 1);
        }
        let r = self.mk(Op::Ule, 1, a, b, 0, 0);
        self.maybe_table(r)
    }
    fn signs(&self, a: E, b: E, w: u32) -> Option<(bool, bool)> {
        if w > 64 {
            return None;
        }
        let s = 1u64 << (w - 1);
        let f = |e: E| {
            let i = self.i[e as usize];
            if i.hi < s {
                Some(false)
            } else if i.lo >= s {
                Some(true)
            } else {
                None
            }
        };
        Some((f(a)?, f(b)?))
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(0, 1);
        }
        if let Some(r) = self.fold(Op::Slt, 1, a, b, 0, 0) {
            return r;
        }
        if let Some(r) = self.scmp(a, b, true) {
            return self.c(r as u128, 1);
        }
        let w = self.w(a);
        match self.signs(a, b, w) {
            Some((x, y)) if x == y => return self.ult(a, b),
            Some((x, _)) => return self.c(x as u128, 1),
            None => {}
        }
        let (n, m) = (self.n[a as usize], self.n[b as usize]);
        if n.op == Op::SExt && m.op == Op::SExt && self.w(n.a) == self.w(m.a) {
            return self.slt(n.a, m.a);
        }
        if let Some(r) = self.cmp_ite(a, b, Op::Slt) {
            return r;
        }
        if let Some(x) = self.aff_range(a, b, -1) {
            if x.1 < 0 {
                return self.c(1, 1);
            }
            if x.0 >= 0 {
                return self.c(0, 1);
            }
        }
        let r = self.mk(Op::Slt, 1, a, b, 0, 0);
        self.maybe_table(r)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.c(1, 1);
        }
        if let Some(r) = self.fold(Op::Sle, 1, a, b, 0, 0) {
            return r;
        }
        if let Some(r) = self.scmp(a, b, false) {
            return self.c(r as u128, 1);
        }
        let w = self.w(a);
        match self.signs(a, b, w) {
            Some((x, y)) if x == y => return self.ule(a, b),
            Some((x, _)) => return self.c(x as u128, 1),
            None => {}
        }
        let (n, m) = (self.n[a as usize], self.n[b as usize]);
        if n.op == Op::SExt && m.op == Op::SExt && self.w(n.a) == self.w(m.a) {
            return self.sle(n.a, m.a);
        }
        if let Some(r) = self.cmp_ite(a, b, Op::Sle) {
            return r;
        }
        if let Some(x) = self.aff_range(a, b, -1) {
            if x.1 <= 0 {
                return self.c(1, 1);
            }
            if x.0 > 0 {
                return self.c(0, 1);
            }
        }
        let r = self.mk(Op::Sle, 1, a, b, 0, 0);
        self.maybe_table(r)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.is_c(c) {
            return if k != 0 { t } else { f };
        }
        if t == f {
            return t;
        }
        let w = self.w(t);
        if let Some(x) = self.is_not(c) {
            return self.ite(x, f, t);
        }
        if w == 1 {
            match (self.is_c(t), self.is_c(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, f);
                }
                (None, Some(0)) => return self.and(c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, t);
                }
                _ => {}
            }
        }
        let (tn, fnn) = (self.n[t as usize], self.n[f as usize]);
        if tn.op == Op::Ite && tn.a == c {
            return self.ite(c, tn.b, f);
        }
        if fnn.op == Op::Ite && fnn.a == c {
            return self.ite(c, t, fnn.c);
        }
        // ite(x==k, k, x) -> x
        let cn = self.n[c as usize];
        if cn.op == Op::Eq && ((cn.a == f && cn.b == t) || (cn.a == t && cn.b == f)) {
            return f;
        }
        // push zext out
        if tn.op == Op::ZExt && fnn.op == Op::ZExt && self.w(tn.a) == self.w(fnn.a) {
            let x = self.ite(c, tn.a, fnn.a);
            return self.zext(x, w);
        }
        if tn.op == Op::ZExt && self.is_c(f).is_some() {
            let iw = self.w(tn.a);
            let k = self.is_c(f).unwrap();
            if k <= mask(iw) {
                let cc = self.c(k, iw);
                let x = self.ite(c, tn.a, cc);
                return self.zext(x, w);
            }
        }
        if fnn.op == Op::ZExt && self.is_c(t).is_some() {
            let iw = self.w(fnn.a);
            let k = self.is_c(t).unwrap();
            if k <= mask(iw) {
                let cc = self.c(k, iw);
                let x = self.ite(c, cc, fnn.a);
                return self.zext(x, w);
            }
        }
        if w > 1 {
            if let (Some(0), Some(1)) = (self.is_c(f), self.is_c(t)) {
                return self.zext(c, w);
            }
            if let (Some(1), Some(0)) = (self.is_c(f), self.is_c(t)) {
                let n = self.not(c);
                return self.zext(n, w);
            }
        }
        self.mk(Op::Ite, w, c, t, f, 0)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (aw, bw) = (self.w(a), self.w(b));
        let w = aw + bw;
        debug_assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.c((x << bw) | y, w);
        }
        if self.is_c(a) == Some(0) {
            return self.zext(b, w);
        }
        let (n, m) = (self.n[a as usize], self.n[b as usize]);
        if n.op == Op::Extract && m.op == Op::Extract && n.a == m.a && n.k as u32 == m.k as u32 + bw {
            return self.extract(n.a, m.k as u32, w);
        }
        // concat(extract(x,lo..), x) where x narrower handled above; low part being whole value
        if n.op == Op::Extract && n.a == b && n.k as u32 == bw {
            return self.extract(n.a, 0, w);
        }
        if m.op == Op::Concat {
            // left-associate merges: concat(a, concat(p,q)) with a,p adjacent extracts
            let p = self.n[m.a as usize];
            if n.op == Op::Extract && p.op == Op::Extract && n.a == p.a && n.k as u32 == p.k as u32 + p.w as u32 {
                let x = self.extract(n.a, p.k as u32, aw + p.w as u32);
                return self.concat(x, m.b);
            }
            // both constant-free: normalise to left association
            let x = self.concat(a, m.a);
            return self.concat(x, m.b);
        }
        if n.op == Op::Concat {
            let q = self.n[n.b as usize];
            if q.op == Op::Extract && m.op == Op::Extract && q.a == m.a && q.k as u32 == m.k as u32 + bw {
                let x = self.extract(m.a, m.k as u32, q.w as u32 + bw);
                return self.concat(n.a, x);
            }
            if let (Some(x), Some(y)) = (self.is_c(n.b), self.is_c(b)) {
                let qw = self.w(n.b);
                let c = self.c((x << bw) | y, qw + bw);
                return self.concat(n.a, c);
            }
        }
        if n.op == Op::ZExt {
            let x = self.concat(n.a, b);
            return self.zext(x, w);
        }
        if n.op == Op::Ite && m.op == Op::Ite && n.a == m.a {
            let x = self.concat(n.b, m.b);
            let y = self.concat(n.c, m.c);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w >= 1, "extract {lo}+{w} of {aw}");
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(k) = self.is_c(a) {
            return self.c(k >> lo, w);
        }
        if aw <= 64 {
            let need = m64(w) << lo;
            if self.i[a as usize].kz & need == need {
                return self.c(0, w);
            }
        }
        let n = self.n[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.k as u32 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Concat => {
                let bw = self.w(n.b);
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                let x = self.extract(n.a, 0, lo + w - bw);
                let y = self.extract(n.b, lo, bw - lo);
                return self.concat(x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Ite => {
                // only when it simplifies something
                let (t, f) = (self.n[n.b as usize].op, self.n[n.c as usize].op);
                let easy = |o: Op| matches!(o, Op::Const | Op::ZExt | Op::Concat | Op::Ite | Op::Extract | Op::SExt);
                if easy(t) && easy(f) || easy(t) && aw <= 64 || easy(f) && aw <= 64 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits only depend on low bits
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            Op::Table => {
                let t = self.tables[n.k as usize].clone();
                let nt: Vec<u64> = t.iter().map(|x| (x >> lo) & m64(w)).collect();
                return self.table(n.a, nt, w);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(w > aw);
        if let Some(k) = self.is_c(a) {
            return self.c(k, w);
        }
        let n = self.n[a as usize];
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(k) = self.is_c(a) {
            return self.c(sext(k, aw) as u128, w);
        }
        if aw <= 64 && self.i[a as usize].hi < 1u64 << (aw - 1) {
            return self.zext(a, w);
        }
        let n = self.n[a as usize];
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    /// `entries[idx]`; the index must be proved in range by the caller.
    pub fn table(&mut self, idx: E, entries: Vec<u64>, w: u32) -> E {
        let (l, h) = self.range(idx);
        let h = (h as usize).min(entries.len() - 1);
        let l = (l as usize).min(h);
        if entries[l..=h].iter().all(|&x| x == entries[l]) {
            return self.c(entries[l] as u128, w);
        }
        if entries.iter().enumerate().skip(l).take(h - l + 1).all(|(i, &x)| x == i as u64) {
            let iw = self.w(idx);
            return if iw <= w { self.zext(idx, w) } else { self.extract(idx, 0, w) };
        }
        let r = Rc::new(entries);
        let k = match self.tabmap.get(&r) {
            Some(&k) => k,
            None => {
                let k = self.tables.len() as u32;
                self.tables.push(r.clone());
                self.tabmap.insert(r, k);
                k
            }
        };
        if let Some(i) = self.is_c(idx) {
            let v = self.tables[k as usize][i as usize];
            return self.c(v as u128, w);
        }
        // canonical index width
        let n = self.n[idx as usize];
        let idx = if n.op == Op::ZExt { n.a } else { idx };
        let direct = self.n[idx as usize].op == Op::Var;
        let r = self.mk(Op::Table, w, idx, 0, 0, k as u128);
        // a table indexed by a function of one input byte is a table of that byte
        if !direct && self.sup_count(idx) == 1 {
            return self.force_table(r);
        }
        r
    }
    /// All values of an expression of one input byte, with the byte's value.
    pub fn byte_values(&mut self, e: E, filter: &[E]) -> Option<Vec<(u8, u128)>> {
        if self.sup_count(e) != 1 {
            return None;
        }
        let v = self.sup_list(e)[0] as usize;
        let mut vals = vec![0u8; v + 1];
        let mut out = vec![];
        for x in 0..=255u8 {
            vals[v] = x;
            self.cur_stamp += 1;
            if filter.iter().all(|&f| self.eval_in(f, &vals) == 1) {
                out.push((x, self.eval_in(e, &vals)));
            }
        }
        self.cur_stamp += 1;
        self.stamp_model = u64::MAX;
        Some(out)
    }

    /// An integer function of one or two input bytes that goes through floating point is
    /// replaced by its exact table.
    fn maybe_table(&mut self, e: E) -> E {
        let i = self.i[e as usize];
        if !i.fp || self.w(e) > 64 {
            return e;
        }
        self.force_table(e)
    }
    pub fn force_table(&mut self, e: E) -> E {
        let cnt = self.sup_count(e);
        if cnt == 0 || cnt * 8 > self.table_bits {
            return e;
        }
        if let Some(&t) = self.tabled.get(&e) {
            return t;
        }
        let vars = self.sup_list(e);
        let total = 1usize << (8 * cnt);
        let mut vals = vec![0u8; *vars.last().unwrap() as usize + 1];
        let mut out = Vec::with_capacity(total);
        for x in 0..total {
            for (j, &v) in vars.iter().enumerate() {
                vals[v as usize] = (x >> (8 * j)) as u8;
            }
            self.cur_stamp += 1;
            out.push(self.eval_in(e, &vals) as u64);
        }
        self.cur_stamp += 1;
        self.stamp_model = u64::MAX;
        let mut idx = self.var_ids[vars[0] as usize];
        for &v in &vars[1..] {
            let b = self.var_ids[v as usize];
            idx = self.concat(b, idx);
        }
        let w = self.w(e);
        let t = self.table(idx, out, w);
        self.tabled.insert(e, t);
        t
    }

    /// Exact table of a function of expressions that depend on one input byte.
    pub fn tabulate(&mut self, args: &[E], w: u32, f: impl Fn(&[u128]) -> u64) -> Option<E> {
        let mut vars: Vec<u32> = vec![];
        for &a in args {
            vars.extend(self.sup_list(a));
        }
        vars.sort_unstable();
        vars.dedup();
        if vars.is_empty() {
            let v: Vec<u128> = args.iter().map(|&a| self.is_c(a)).collect::<Option<Vec<_>>>()?;
            let r = f(&v);
            return Some(self.c(r as u128, w));
        }
        if vars.len() as u32 * 8 > self.table_bits.max(8) {
            return None;
        }
        let total = 1usize << (8 * vars.len());
        let mut vals = vec![0u8; *vars.last().unwrap() as usize + 1];
        let mut out = Vec::with_capacity(total);
        for x in 0..total {
            for (j, &v) in vars.iter().enumerate() {
                vals[v as usize] = (x >> (8 * j)) as u8;
            }
            self.cur_stamp += 1;
            let av: Vec<u128> = args.iter().map(|&a| self.eval_in(a, &vals)).collect();
            out.push(f(&av));
        }
        self.cur_stamp += 1;
        self.stamp_model = u64::MAX;
        let mut idx = self.var_ids[vars[0] as usize];
        for &v in &vars[1..] {
            let b = self.var_ids[v as usize];
            idx = self.concat(b, idx);
        }
        Some(self.table(idx, out, w))
    }

    // ---------- floating point ----------
    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(op, w, a, b, 0, 0) {
            return r;
        }
        let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
        let (fa, fb) = (self.fget(a), self.fget(b));
        match op {
            Op::FMul => {
                if self.is_c(a) == Some(one) {
                    return b;
                }
                if self.is_c(b) == Some(one) {
                    return a;
                }
                for (x, y) in [(a, fb), (b, fa)] {
                    if self.is_c(x) == Some(0) {
                        if let Some(f) = y {
                            if f.lo >= 0.0 && f.no_neg_zero {
                                return x;
                            }
                        }
                    }
                }
            }
            Op::FDiv => {
                if self.is_c(b) == Some(one) {
                    return a;
                }
            }
            Op::FAdd => {
                for (x, y, f) in [(a, b, fb), (b, a, fa)] {
                    if self.is_c(x) == Some(0) {
                        if let Some(f) = f {
                            if f.no_neg_zero {
                                return y;
                            }
                        }
                    }
                    if self.is_c(x) == Some(1u128 << (w - 1)) {
                        return y;
                    }
                }
            }
            Op::FSub => {
                if self.is_c(b) == Some(0) {
                    return a;
                }
            }
            _ => {}
        }
        // commutative normalisation
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul) && a > b { (b, a) } else { (a, b) };
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn fun(&mut self, op: Op, a: E, w: u32, k: u128) -> E {
        if let Some(r) = self.fold(op, w, a, 0, 0, k) {
            return r;
        }
        match op {
            Op::FToU | Op::FToS => {
                // int -> float -> int round trips are exact when the value fits the mantissa
                let n = self.n[a as usize];
                let mant = if self.w(a) == 32 { 24 } else { 53 };
                let mut src = n;
                if n.op == Op::FExt {
                    src = self.n[n.a as usize];
                }
                let mant = if n.op == Op::FExt { 24 } else { mant };
                if src.op == Op::UToF && self.w(src.a) <= 64 {
                    let hi = self.i[src.a as usize].hi;
                    if hi < 1u64 << mant {
                        let lim = if op == Op::FToU { mask(w) } else { mask(w) >> 1 };
                        if hi as u128 <= lim {
                            let iw = self.w(src.a);
                            return if iw >= w { self.extract(src.a, 0, w) } else { self.zext(src.a, w) };
                        }
                    }
                }
                let r = self.mk(op, w, a, 0, 0, k);
                return self.maybe_table(r);
            }
            Op::FTrunc => {
                let n = self.n[a as usize];
                if n.op == Op::FExt {
                    return n.a;
                }
            }
            Op::SToF => {
                let aw = self.w(a);
                if aw <= 64 && self.i[a as usize].hi < 1u64 << (aw - 1) {
                    return self.fun(Op::UToF, a, w, 0);
                }
            }
            Op::UToF => {
                let n = self.n[a as usize];
                if n.op == Op::ZExt {
                    return self.fun(Op::UToF, n.a, w, 0);
                }
            }
            Op::FRnd => {
                let n = self.n[a as usize];
                if n.op == Op::UToF || n.op == Op::SToF || n.op == Op::FRnd {
                    return a;
                }
            }
            _ => {}
        }
        self.mk(op, w, a, 0, 0, k)
    }
    pub fn fma(&mut self, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::FFma, w, a, b, c, 0) {
            return r;
        }
        self.mk(Op::FFma, w, a, b, c, 0)
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        if let Some(r) = self.fold(op, 1, a, b, 0, 0) {
            return r;
        }
        let w = self.w(a);
        // comparing with a constant NaN
        for x in [a, b] {
            if let Some(k) = self.is_c(x) {
                if fval(k, w).is_nan() {
                    return self.c((op == Op::FUno) as u128, 1);
                }
            }
        }
        if let (Some(x), Some(y)) = (self.fget(a), self.fget(b)) {
            match op {
                Op::FUno => return self.c(0, 1),
                Op::FLt => {
                    if x.hi < y.lo {
                        return self.c(1, 1);
                    }
                    if x.lo >= y.hi {
                        return self.c(0, 1);
                    }
                }
                Op::FLe => {
                    if x.hi <= y.lo {
                        return self.c(1, 1);
                    }
                    if x.lo > y.hi {
                        return self.c(0, 1);
                    }
                }
                Op::FEq => {
                    if x.hi < y.lo || y.hi < x.lo {
                        return self.c(0, 1);
                    }
                    if a == b {
                        return self.c(1, 1);
                    }
                }
                _ => {}
            }
        }
        if op == Op::FUno {
            let fa = self.fget(a).is_some();
            let fb = self.fget(b).is_some();
            if fa && !fb && a != b {
                return self.fcmp(Op::FUno, b, b);
            }
            if fb && !fa && a != b {
                return self.fcmp(Op::FUno, a, a);
            }
        }
        let r = self.mk(op, 1, a, b, 0, 0);
        self.maybe_table(r)
    }
}

fn m64x(w: u32) -> u64 {
    if w == 0 {
        0
    } else {
        m64(w)
    }
}

pub fn fval(k: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(k as u32) as f64
    } else {
        f64::from_bits(k as u64)
    }
}
pub fn frnd(x: f64, mode: u8) -> f64 {
    match mode {
        0 => x.floor(),
        1 => x.ceil(),
        2 => x.trunc(),
        3 => x.round(),
        _ => x.round_ties_even(),
    }
}

pub fn is_fp_op(o: Op) -> bool {
    o as u8 >= Op::FAdd as u8
}
fn is_fpish(o: Op) -> bool {
    is_fp_op(o)
}

pub fn kids(n: &Node) -> [Option<E>; 3] {
    match n.op {
        Op::Const | Op::Var => [None; 3],
        Op::Extract | Op::ZExt | Op::SExt | Op::Table | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS
        | Op::FSqrt | Op::FRnd => [Some(n.a), None, None],
        Op::Ite | Op::FFma => [Some(n.a), Some(n.b), Some(n.c)],
        _ => [Some(n.a), Some(n.b), None],
    }
}
