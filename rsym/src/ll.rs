//! Reader for textual LLVM IR (opaque pointers, as rustc's `--emit=llvm-ir` writes it).
//! Functions are indexed on load and parsed only when they are first executed.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F16,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Other(String),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                65..=128 => 16,
                w => (w as u64 + 63) / 64 * 8,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    /// Bytes a store of this type touches.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Vec(..) => self.size().min(16),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::F16 => 16,
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vec(_, t) => i * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Void,
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Ty::Struct(ts, _) => ts.len() as u64,
            Ty::Arr(n, _) => *n,
            Ty::Vec(n, _) => *n as u64,
            _ => 0,
        }
    }
}

pub fn align_up(x: u64, a: u64) -> u64 {
    if a == 0 {
        x
    } else {
        (x + a - 1) / a * a
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(String),
    Global(String),
    Int(&'a str),
    Float(&'a str),
    Id(&'a str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Dots,
    Meta,
    Attr,
    Nl,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub i: usize,
    pub cur: Tok<'a>,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        let mut l = Lex { s, i: 0, cur: Tok::Eof };
        l.next();
        l
    }
    fn string(&mut self) -> Vec<u8> {
        // self.i at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            let c = self.s[self.i];
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                    v.push(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2]));
                    self.i += 3;
                }
            } else {
                v.push(c);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    pub fn next(&mut self) -> Tok<'a> {
        let t = self.lex();
        std::mem::replace(&mut self.cur, t)
    }
    fn lex(&mut self) -> Tok<'a> {
        let s = self.s;
        loop {
            if self.i >= s.len() {
                return Tok::Eof;
            }
            let c = s[self.i];
            match c {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b'/' if s.get(self.i + 1) == Some(&b'*') => {
                    self.i += 2;
                    while self.i + 1 < s.len() && !(s[self.i] == b'*' && s[self.i + 1] == b'/') {
                        self.i += 1;
                    }
                    self.i += 2;
                }
                b';' => {
                    while self.i < s.len() && s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'\n' => {
                    self.i += 1;
                    return Tok::Nl;
                }
                b'%' | b'@' => {
                    self.i += 1;
                    let name = if self.i < s.len() && s[self.i] == b'"' {
                        String::from_utf8_lossy(&self.string()).into_owned()
                    } else {
                        let st = self.i;
                        while self.i < s.len() && idc(s[self.i]) {
                            self.i += 1;
                        }
                        String::from_utf8_lossy(&s[st..self.i]).into_owned()
                    };
                    return if c == b'%' { Tok::Local(name) } else { Tok::Global(name) };
                }
                b'"' => {
                    let v = self.string();
                    return Tok::Str(v);
                }
                b'!' => {
                    self.i += 1;
                    if self.i < s.len() && s[self.i] == b'"' {
                        self.string();
                        return Tok::Meta;
                    }
                    while self.i < s.len() && idc(s[self.i]) {
                        self.i += 1;
                    }
                    return Tok::Meta;
                }
                b'#' => {
                    self.i += 1;
                    while self.i < s.len() && idc(s[self.i]) {
                        self.i += 1;
                    }
                    return Tok::Attr;
                }
                b'.' if s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    return Tok::Dots;
                }
                b'c' if self.i + 1 < s.len() && s[self.i + 1] == b'"' => {
                    self.i += 1;
                    let v = self.string();
                    return Tok::CStr(v);
                }
                b'0'..=b'9' | b'-' | b'+' => {
                    let st = self.i;
                    self.i += 1;
                    let mut fl = false;
                    while self.i < s.len() {
                        let d = s[self.i];
                        if d.is_ascii_digit() {
                        } else if d == b'.' {
                            fl = true;
                        } else if (d == b'+' || d == b'-') && matches!(s[self.i - 1], b'e' | b'E') {
                        } else if d.is_ascii_alphabetic() {
                            fl = true;
                        } else {
                            break;
                        }
                        self.i += 1;
                    }
                    let t = std::str::from_utf8(&s[st..self.i]).unwrap();
                    return if fl { Tok::Float(t) } else { Tok::Int(t) };
                }
                _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => {
                    let st = self.i;
                    while self.i < s.len() && idc(s[self.i]) {
                        self.i += 1;
                    }
                    let t = std::str::from_utf8(&s[st..self.i]).unwrap();
                    if t.starts_with("f0x") || t.starts_with("u0x") || t.starts_with("s0x") {
                        return Tok::Float(t);
                    }
                    return Tok::Id(t);
                }
                _ => {
                    self.i += 1;
                    return Tok::P(c);
                }
            }
        }
    }
    pub fn is_p(&self, c: u8) -> bool {
        self.cur == Tok::P(c)
    }
    pub fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    pub fn is_id(&self, w: &str) -> bool {
        matches!(&self.cur, Tok::Id(x) if *x == w)
    }
    pub fn eat_id(&mut self, w: &str) -> bool {
        if self.is_id(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn skip_nl(&mut self) {
        while self.cur == Tok::Nl {
            self.next();
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(160);
        let b = (self.i + 80).min(self.s.len());
        panic!(
            "IR parse: {m}, at {:?}: ...{}<<HERE>>{}",
            self.cur,
            String::from_utf8_lossy(&self.s[a..self.i]),
            String::from_utf8_lossy(&self.s[self.i..b])
        );
    }
    /// Skip a balanced group starting at the current opening punctuation.
    pub fn skip_group(&mut self) {
        let mut d = 0i32;
        loop {
            match self.cur {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') | Tok::P(b'>') => d -= 1,
                Tok::Eof => self.fail("unbalanced"),
                _ => {}
            }
            self.next();
            if d == 0 {
                return;
            }
        }
    }
    pub fn skip_line(&mut self) {
        while self.cur != Tok::Nl && self.cur != Tok::Eof {
            self.next();
        }
    }
    pub fn is_type_start(&self) -> bool {
        match &self.cur {
            Tok::Id(w) => is_type_word(w),
            Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self, named: &HashMap<String, Ty>) -> Ty {
        match self.next() {
            Tok::Id(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_id("addrspace") {
                        self.next();
                        self.skip_group();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" => Ty::F16,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ => {
                    if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse::<u32>().ok()) {
                        Ty::Int(n)
                    } else {
                        Ty::Other(w.to_string())
                    }
                }
            },
            Tok::Local(n) => named.get(&n).cloned().unwrap_or(Ty::Other(n)),
            Tok::P(b'{') => {
                let ts = self.ty_list(b'}', named);
                Ty::Struct(ts, false)
            }
            Tok::P(b'[') => {
                let n = self.int_u64();
                if !self.eat_id("x") {
                    self.fail("array type");
                }
                let t = self.ty(named);
                self.exp_p(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') {
                    let ts = self.ty_list(b'}', named);
                    self.exp_p(b'>');
                    Ty::Struct(ts, true)
                } else {
                    let n = self.int_u64();
                    if !self.eat_id("x") {
                        self.fail("vector type");
                    }
                    let t = self.ty(named);
                    self.exp_p(b'>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            t => self.fail(&format!("type expected, got {t:?}")),
        }
    }
    fn ty_list(&mut self, end: u8, named: &HashMap<String, Ty>) -> Vec<Ty> {
        let mut ts = vec![];
        if self.eat_p(end) {
            return ts;
        }
        loop {
            ts.push(self.ty(named));
            if self.eat_p(end) {
                return ts;
            }
            self.exp_p(b',');
        }
    }
    pub fn int_u64(&mut self) -> u64 {
        match self.next() {
            Tok::Int(t) => t.parse::<i128>().unwrap() as u64,
            t => self.fail(&format!("int expected, got {t:?}")),
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "bfloat"
    ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

/// Constant or register operand, before lowering.
#[derive(Clone, Debug)]
pub enum Val {
    Reg(u32),
    Int(i128, bool), // value, was-bool-literal
    Big(u128),
    FloatBits(u64),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Val)>),
    Splat(Box<(Ty, Val)>),
    Bytes(Vec<u8>),
    GepC(Box<Ty>, Box<(Ty, Val)>, Vec<(Ty, Val)>),
    CastC(&'static str, Box<(Ty, Val)>, Box<Ty>),
    BinC(&'static str, Box<(Ty, Val)>, Box<(Ty, Val)>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FBin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    Bit, // ptrtoint/inttoptr/bitcast
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(String),
    Ptr(Val),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, u32, Val, Val),
    FBin(FBin, Ty, u32, Val, Val),
    FNeg(Ty, u32, Val),
    ICmp(Pred, Ty, u32, Val, Val),
    FCmp(String, Ty, u32, Val, Val),
    Cast(Cast, Ty, Ty, u32, Val),
    Select(Ty, u32, (Ty, Val), Val, Val),
    Load(Ty, u32, Val),
    Store(Ty, Val, Val),
    Alloca(Ty, u32, Option<(Ty, Val)>),
    Gep(Ty, u32, (Ty, Val), Vec<(Ty, Val)>),
    Call(Ty, Option<u32>, Callee, Vec<(Ty, Val)>),
    Extract(Ty, u32, Val, Vec<u64>),
    Insert(Ty, u32, Val, (Ty, Val), Vec<u64>),
    ExtractEl(Ty, u32, Val, (Ty, Val)),
    InsertEl(Ty, u32, Val, Val, (Ty, Val)),
    Shuffle(Ty, u32, Val, Val, Ty, Val),
    Freeze(Ty, u32, Val),
    AtomicRmw(String, Ty, u32, Val, Val),
    CmpXchg(Ty, u32, Val, Val, Val),
    Nop,
    // terminators
    Br(Edge),
    CondBr(Val, Edge, Edge),
    Switch(Ty, Val, Edge, Vec<(Val, Edge)>),
    Ret(Ty, Option<Val>),
    Unreachable,
    /// call with continuation edge (normal destination of an invoke)
    Invoke(Ty, Option<u32>, Callee, Vec<(Ty, Val)>, Edge),
    LandingPad,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub moves: Vec<(u32, Ty, Val)>,
}

pub struct RawFn {
    pub start: usize,
    pub end: usize,
}
pub struct RawGlobal {
    pub start: usize,
    pub end: usize,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub named: HashMap<String, Ty>,
    pub fns: HashMap<String, RawFn>,
    pub globals: HashMap<String, RawGlobal>,
    pub aliases: HashMap<String, String>,
}

pub struct PFn {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Vec<I>>,
    pub ret: Ty,
}

impl Module {
    pub fn load(path: &str) -> std::io::Result<Module> {
        let text = Rc::new(std::fs::read(path)?);
        let mut m = Module {
            text: text.clone(),
            named: HashMap::new(),
            fns: HashMap::new(),
            globals: HashMap::new(),
            aliases: HashMap::new(),
        };
        let t = &text[..];
        let mut i = 0;
        while i < t.len() {
            let e = t[i..].iter().position(|&c| c == b'\n').map_or(t.len(), |p| i + p);
            let line = &t[i..e];
            if line.starts_with(b"define ") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut lx = Lex::new(&line[at..]);
                let name = match lx.next() {
                    Tok::Global(n) => n,
                    _ => panic!("define name"),
                };
                // body ends at a line that is exactly "}"
                let mut j = e + 1;
                loop {
                    let e2 = t[j..].iter().position(|&c| c == b'\n').map_or(t.len(), |p| j + p);
                    if &t[j..e2] == b"}" {
                        m.fns.insert(name, RawFn { start: i, end: e2 });
                        i = e2 + 1;
                        break;
                    }
                    j = e2 + 1;
                }
                continue;
            } else if line.starts_with(b"@") {
                let mut lx = Lex::new(line);
                let name = match lx.next() {
                    Tok::Global(n) => n,
                    _ => unreachable!(),
                };
                let mut is_alias = false;
                // linkage words
                {
                    let mut l2 = Lex::new(line);
                    let mut n = 0;
                    while l2.cur != Tok::Eof && n < 14 {
                        if l2.is_id("alias") {
                            is_alias = true;
                        }
                        if l2.is_id("global") || l2.is_id("constant") {
                            break;
                        }
                        l2.next();
                        n += 1;
                    }
                }
                if is_alias {
                    // @a = ... alias TY, ptr @b
                    let mut l2 = Lex::new(line);
                    l2.next();
                    let mut tgt = None;
                    while l2.cur != Tok::Eof {
                        if let Tok::Global(g) = &l2.cur {
                            tgt = Some(g.clone());
                        }
                        l2.next();
                    }
                    if let Some(g) = tgt {
                        m.aliases.insert(name, g);
                    }
                } else {
                    m.globals.insert(name, RawGlobal { start: i, end: e });
                }
            } else if line.starts_with(b"%") {
                let mut lx = Lex::new(line);
                if let Tok::Local(n) = lx.next() {
                    if lx.eat_p(b'=') && lx.eat_id("type") && !lx.is_id("opaque") {
                        let ty = lx.ty(&m.named.clone());
                        m.named.insert(n, ty);
                    }
                }
            }
            i = e + 1;
        }
        Ok(m)
    }

    /// Parse a global's definition: (type, initialiser, is_const).
    pub fn global(&self, name: &str) -> (Ty, Val, bool) {
        let g = &self.globals[name];
        let text = self.text.clone();
        let mut lx = Lex::new(&text[g.start..g.end]);
        lx.next();
        lx.exp_p(b'=');
        let mut external = false;
        loop {
            if lx.is_id("global") || lx.is_id("constant") {
                break;
            }
            match &lx.cur {
                Tok::Id(w) => {
                    if *w == "external" || *w == "extern_weak" {
                        external = true;
                    }
                    lx.next();
                    if lx.is_p(b'(') {
                        lx.skip_group();
                    }
                }
                _ => lx.fail("global linkage"),
            }
        }
        let c = lx.is_id("constant");
        lx.next();
        let ty = lx.ty(&self.named);
        if external {
            return (ty, Val::Zero, c);
        }
        let mut p = FnP { m: self, regs: HashMap::new(), lx };
        let v = p.val(&ty);
        (ty, v, c)
    }

    pub fn parse_fn(&self, name: &str) -> PFn {
        let f = &self.fns[name];
        let text = self.text.clone();
        let lx = Lex::new(&text[f.start..f.end]);
        let mut p = FnP { m: self, regs: HashMap::new(), lx };
        p.function(name)
    }
}

struct FnP<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    lx: Lex<'a>,
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr"
            | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "add" | "sub" | "mul" | "xor" | "trunc" | "asm" | "shl"
    )
}

impl<'a> FnP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn ty(&mut self) -> Ty {
        self.lx.ty(&self.m.named)
    }
    fn skip_attrs(&mut self) {
        loop {
            match &self.lx.cur {
                Tok::Id(w) if !is_value_word(w) && !is_type_word(w) => {
                    let w = *w;
                    self.lx.next();
                    if self.lx.is_p(b'(') {
                        self.lx.skip_group();
                    } else if w == "align" {
                        if let Tok::Int(_) = self.lx.cur {
                            self.lx.next();
                        }
                    }
                }
                Tok::Str(_) => {
                    self.lx.next();
                    if self.lx.eat_p(b'=') {
                        self.lx.next();
                    }
                }
                Tok::Attr => {
                    self.lx.next();
                }
                _ => return,
            }
        }
    }
    fn tyval(&mut self) -> (Ty, Val) {
        let t = self.ty();
        self.skip_attrs();
        if t == Ty::Meta {
            // metadata operand: skip to , or )
            loop {
                match self.lx.cur {
                    Tok::P(b',') | Tok::P(b')') => break,
                    Tok::P(b'(') | Tok::P(b'{') => self.lx.skip_group(),
                    _ => {
                        self.lx.next();
                    }
                }
            }
            return (t, Val::Undef);
        }
        let v = self.val(&t);
        (t, v)
    }
    fn val(&mut self, ty: &Ty) -> Val {
        let t = self.lx.next();
        match t {
            Tok::Local(n) => Val::Reg(self.reg(&n)),
            Tok::Global(n) => Val::Global(n),
            Tok::Int(s) => match ty {
                Ty::F32 | Ty::F64 | Ty::F16 => Val::FloatBits(float_bits(s, ty)),
                _ => match s.parse::<i128>() {
                    Ok(v) => Val::Int(v, false),
                    Err(_) => Val::Big(s.parse::<u128>().unwrap_or_else(|_| panic!("big int {s}"))),
                },
            },
            Tok::Float(s) => Val::FloatBits(float_bits(s, ty)),
            Tok::Str(b) | Tok::CStr(b) => Val::Bytes(b),
            Tok::P(b'{') => Val::Agg(self.agg(b'}')),
            Tok::P(b'[') => Val::Agg(self.agg(b']')),
            Tok::P(b'<') => {
                if self.lx.eat_p(b'{') {
                    let v = self.agg(b'}');
                    self.lx.exp_p(b'>');
                    Val::Agg(v)
                } else {
                    Val::Agg(self.agg(b'>'))
                }
            }
            Tok::Id(w) => match w {
                "true" => Val::Int(1, true),
                "false" => Val::Int(0, true),
                "null" | "none" => Val::Null,
                "undef" | "poison" => Val::Undef,
                "zeroinitializer" => Val::Zero,
                "splat" => {
                    self.lx.exp_p(b'(');
                    let tv = self.tyval();
                    self.lx.exp_p(b')');
                    Val::Splat(Box::new(tv))
                }
                "getelementptr" => {
                    while !self.lx.is_p(b'(') {
                        self.lx.next();
                    }
                    // may be inrange(..) first
                    loop {
                        // lookahead: "(" followed by type
                        let save = self.lx.i;
                        let cur = self.lx.cur.clone();
                        self.lx.next();
                        if self.lx.is_type_start() {
                            break;
                        }
                        self.lx.i = save;
                        self.lx.cur = cur;
                        self.lx.skip_group();
                        while !self.lx.is_p(b'(') {
                            self.lx.next();
                        }
                    }
                    let t = self.ty();
                    self.lx.exp_p(b',');
                    let base = self.tyval();
                    let mut ix = vec![];
                    while self.lx.eat_p(b',') {
                        ix.push(self.tyval());
                    }
                    self.lx.exp_p(b')');
                    Val::GepC(Box::new(t), Box::new(base), ix)
                }
                "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" => {
                    self.lx.exp_p(b'(');
                    let tv = self.tyval();
                    if !self.lx.eat_id("to") {
                        self.lx.fail("to");
                    }
                    let t = self.ty();
                    self.lx.exp_p(b')');
                    Val::CastC(if w == "trunc" { "trunc" } else { "bit" }, Box::new(tv), Box::new(t))
                }
                "add" | "sub" | "mul" | "xor" | "shl" => {
                    while !self.lx.is_p(b'(') {
                        self.lx.next();
                    }
                    self.lx.next();
                    let a = self.tyval();
                    self.lx.exp_p(b',');
                    let b = self.tyval();
                    self.lx.exp_p(b')');
                    let o = match w {
                        "add" => "add",
                        "sub" => "sub",
                        "mul" => "mul",
                        "xor" => "xor",
                        _ => "shl",
                    };
                    Val::BinC(o, Box::new(a), Box::new(b))
                }
                _ => self.lx.fail(&format!("value word {w}")),
            },
            t => self.lx.fail(&format!("value expected, got {t:?}")),
        }
    }
    fn agg(&mut self, end: u8) -> Vec<(Ty, Val)> {
        let mut v = vec![];
        if self.lx.eat_p(end) {
            return v;
        }
        loop {
            v.push(self.tyval());
            if self.lx.eat_p(end) {
                return v;
            }
            self.lx.exp_p(b',');
        }
    }

    fn function(&mut self, name: &str) -> PFn {
        // header: define ... RET @name(params) ... {
        let lx = &mut self.lx;
        lx.next(); // define
        let mut ret = Ty::Void;
        loop {
            if let Tok::Global(_) = lx.cur {
                lx.next();
                break;
            }
            if lx.is_type_start() {
                ret = lx.ty(&self.m.named);
            } else {
                lx.next();
                if lx.is_p(b'(') {
                    lx.skip_group();
                }
            }
        }
        lx.exp_p(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !self.lx.eat_p(b')') {
            loop {
                if self.lx.cur == Tok::Dots {
                    self.lx.next();
                    self.lx.exp_p(b')');
                    break;
                }
                let t = self.ty();
                self.skip_attrs();
                let n = match self.lx.cur.clone() {
                    Tok::Local(n) => {
                        self.lx.next();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        n
                    }
                    _ => {
                        unnamed += 1;
                        format!("{}", unnamed - 1)
                    }
                };
                let r = self.reg(&n);
                params.push((t, r));
                if self.lx.eat_p(b')') {
                    break;
                }
                self.lx.exp_p(b',');
            }
        }
        // up to '{' at end of line
        let mut prev_brace = false;
        loop {
            match self.lx.cur {
                Tok::P(b'{') => {
                    prev_brace = true;
                    self.lx.next();
                }
                Tok::Nl if prev_brace => break,
                Tok::Eof => self.lx.fail("no body"),
                _ => {
                    prev_brace = false;
                    self.lx.next();
                }
            }
        }
        self.lx.skip_nl();
        // blocks
        struct RB {
            name: String,
            insts: Vec<I>,
            phis: Vec<(u32, Ty, Vec<(Val, String)>)>,
        }
        let mut blocks: Vec<RB> = vec![];
        let mut bnames: HashMap<String, u32> = HashMap::new();
        // edges are created with name; resolved after
        let mut edge_names: Vec<String> = vec![];
        let mut first = true;
        loop {
            self.lx.skip_nl();
            if self.lx.cur == Tok::Eof || self.lx.is_p(b'}') {
                break;
            }
            // label?
            if let Some(lbl) = self.label() {
                bnames.insert(lbl.clone(), blocks.len() as u32);
                blocks.push(RB { name: lbl, insts: vec![], phis: vec![] });
                first = false;
                continue;
            }
            if first {
                let lbl = format!("{unnamed}");
                bnames.insert(lbl.clone(), 0);
                blocks.push(RB { name: lbl, insts: vec![], phis: vec![] });
                first = false;
            }
            // instruction
            let mut dst = None;
            if let Tok::Local(n) = self.lx.cur.clone() {
                self.lx.next();
                self.lx.exp_p(b'=');
                dst = Some(self.reg(&n));
            }
            if self.lx.is_id("phi") {
                self.lx.next();
                while let Tok::Id(w) = &self.lx.cur {
                    if is_type_word(w) {
                        break;
                    }
                    self.lx.next();
                }
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.lx.exp_p(b'[');
                    let v = self.val(&t);
                    self.lx.exp_p(b',');
                    let l = match self.lx.next() {
                        Tok::Local(n) => n,
                        _ => self.lx.fail("phi label"),
                    };
                    self.lx.exp_p(b']');
                    inc.push((v, l));
                    if self.lx.is_p(b',') {
                        // another entry or metadata
                        let save = self.lx.i;
                        let cur = self.lx.cur.clone();
                        self.lx.next();
                        if self.lx.is_p(b'[') {
                            continue;
                        }
                        self.lx.i = save;
                        self.lx.cur = cur;
                    }
                    break;
                }
                blocks.last_mut().unwrap().phis.push((dst.unwrap(), t, inc));
                self.lx.skip_line();
                continue;
            }
            let inst = self.inst(dst, &mut edge_names);
            blocks.last_mut().unwrap().insts.push(inst);
        }
        // resolve edges
        let phis: Vec<Vec<(u32, Ty, HashMap<String, Val>)>> = blocks
            .iter()
            .map(|b| {
                b.phis
                    .iter()
                    .map(|(d, t, inc)| (*d, t.clone(), inc.iter().map(|(v, l)| (l.clone(), v.clone())).collect()))
                    .collect()
            })
            .collect();
        let fix = |e: &mut Edge, from: &str, en: &Vec<String>| {
            let to = *bnames.get(&en[e.to as usize]).unwrap_or_else(|| panic!("label {} in {name}", en[e.to as usize]));
            e.to = to;
            e.moves = phis[to as usize]
                .iter()
                .map(|(d, t, m)| {
                    (*d, t.clone(), m.get(from).unwrap_or_else(|| panic!("phi edge from {from} in {name}")).clone())
                })
                .collect();
        };
        let mut out = vec![];
        for b in blocks.iter_mut() {
            let from = b.name.clone();
            if let Some(t) = b.insts.last_mut() {
                match t {
                    I::Br(e) => fix(e, &from, &edge_names),
                    I::CondBr(_, a, c) => {
                        fix(a, &from, &edge_names);
                        fix(c, &from, &edge_names);
                    }
                    I::Switch(_, _, d, cs) => {
                        fix(d, &from, &edge_names);
                        for (_, e) in cs {
                            fix(e, &from, &edge_names);
                        }
                    }
                    I::Invoke(.., e) => fix(e, &from, &edge_names),
                    _ => {}
                }
            }
            out.push(std::mem::take(&mut b.insts));
        }
        PFn { name: name.to_string(), params, nregs: self.regs.len() as u32, blocks: out, ret }
    }

    fn label(&mut self) -> Option<String> {
        // A label is ident/int/string followed immediately by ':'
        let save = self.lx.i;
        let cur = self.lx.cur.clone();
        let n = match &cur {
            Tok::Id(w) => w.to_string(),
            Tok::Int(w) => w.to_string(),
            Tok::Float(w) => w.to_string(),
            Tok::Str(s) => String::from_utf8_lossy(s).into_owned(),
            _ => return None,
        };
        self.lx.next();
        if self.lx.eat_p(b':') {
            self.lx.skip_line();
            return Some(n);
        }
        self.lx.i = save;
        self.lx.cur = cur;
        None
    }

    fn edge(&mut self, en: &mut Vec<String>) -> Edge {
        // label %x
        if !self.lx.eat_id("label") {
            self.lx.fail("label");
        }
        match self.lx.next() {
            Tok::Local(n) => {
                en.push(n);
                Edge { to: en.len() as u32 - 1, moves: vec![] }
            }
            _ => self.lx.fail("label name"),
        }
    }

    fn skip_flags(&mut self) {
        while let Tok::Id(w) = &self.lx.cur {
            if is_type_word(w) || is_value_word(w) {
                break;
            }
            self.lx.next();
            if self.lx.is_p(b'(') {
                self.lx.skip_group();
            }
        }
    }

    fn call(&mut self) -> (Ty, Callee, Vec<(Ty, Val)>) {
        // after "call"/"invoke": flags, cc, attrs, type
        loop {
            match &self.lx.cur {
                Tok::Id(w) if is_type_word(w) => break,
                Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') | Tok::Local(_) => break,
                Tok::Id(w) => {
                    let w = *w;
                    self.lx.next();
                    if self.lx.is_p(b'(') {
                        self.lx.skip_group();
                    } else if w == "align" || w == "cc" {
                        if let Tok::Int(_) = self.lx.cur {
                            self.lx.next();
                        }
                    }
                }
                _ => self.lx.fail("call prefix"),
            }
        }
        let ret = self.ty();
        if self.lx.is_p(b'(') {
            self.lx.skip_group(); // function type
        }
        let callee = match self.lx.next() {
            Tok::Global(n) => Callee::Fn(n),
            Tok::Local(n) => Callee::Ptr(Val::Reg(self.reg(&n))),
            Tok::Id("asm") => {
                while let Tok::Id(_) = self.lx.cur {
                    self.lx.next();
                }
                let s = match self.lx.next() {
                    Tok::Str(s) => String::from_utf8_lossy(&s).into_owned(),
                    _ => self.lx.fail("asm"),
                };
                self.lx.exp_p(b',');
                self.lx.next();
                Callee::Asm(s)
            }
            Tok::Id("null") => Callee::Ptr(Val::Null),
            Tok::Id("undef") | Tok::Id("poison") => Callee::Ptr(Val::Null),
            Tok::Id("inttoptr") => {
                self.lx.exp_p(b'(');
                let tv = self.tyval();
                self.lx.eat_id("to");
                self.ty();
                self.lx.exp_p(b')');
                Callee::Ptr(tv.1)
            }
            t => self.lx.fail(&format!("callee {t:?}")),
        };
        self.lx.exp_p(b'(');
        let mut args = vec![];
        if !self.lx.eat_p(b')') {
            loop {
                args.push(self.tyval());
                if self.lx.eat_p(b')') {
                    break;
                }
                self.lx.exp_p(b',');
            }
        }
        (ret, callee, args)
    }

    fn inst(&mut self, dst: Option<u32>, en: &mut Vec<String>) -> I {
        let op = match self.lx.next() {
            Tok::Id(w) => w,
            t => self.lx.fail(&format!("opcode {t:?}")),
        };
        let d = dst.unwrap_or(0);
        let bin = |b: Bin| Some(b);
        let b = match op {
            "add" => bin(Bin::Add),
            "sub" => bin(Bin::Sub),
            "mul" => bin(Bin::Mul),
            "udiv" => bin(Bin::UDiv),
            "sdiv" => bin(Bin::SDiv),
            "urem" => bin(Bin::URem),
            "srem" => bin(Bin::SRem),
            "and" => bin(Bin::And),
            "or" => bin(Bin::Or),
            "xor" => bin(Bin::Xor),
            "shl" => bin(Bin::Shl),
            "lshr" => bin(Bin::LShr),
            "ashr" => bin(Bin::AShr),
            _ => None,
        };
        if let Some(b) = b {
            self.skip_flags();
            let t = self.ty();
            let x = self.val(&t);
            self.lx.exp_p(b',');
            let y = self.val(&t);
            self.lx.skip_line();
            return I::Bin(b, t, d, x, y);
        }
        let fb = match op {
            "fadd" => Some(FBin::Add),
            "fsub" => Some(FBin::Sub),
            "fmul" => Some(FBin::Mul),
            "fdiv" => Some(FBin::Div),
            "frem" => Some(FBin::Rem),
            _ => None,
        };
        if let Some(b) = fb {
            self.skip_flags();
            let t = self.ty();
            let x = self.val(&t);
            self.lx.exp_p(b',');
            let y = self.val(&t);
            self.lx.skip_line();
            return I::FBin(b, t, d, x, y);
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptrunc" => Some(Cast::FpTrunc),
            "fpext" => Some(Cast::FpExt),
            "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => Some(Cast::Bit),
            _ => None,
        };
        if let Some(c) = cast {
            self.skip_flags();
            let (t, v) = self.tyval();
            if !self.lx.eat_id("to") {
                self.lx.fail("to");
            }
            let t2 = self.ty();
            self.lx.skip_line();
            return I::Cast(c, t, t2, d, v);
        }
        let r = match op {
            "fneg" => {
                self.skip_flags();
                let (t, v) = self.tyval();
                I::FNeg(t, d, v)
            }
            "icmp" => {
                self.eat_word("samesign");
                let p = match self.lx.next() {
                    Tok::Id(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => self.lx.fail("pred"),
                    },
                    _ => self.lx.fail("pred"),
                };
                let t = self.ty();
                let x = self.val(&t);
                self.lx.exp_p(b',');
                let y = self.val(&t);
                I::ICmp(p, t, d, x, y)
            }
            "fcmp" => {
                let fm = ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
                let p = loop {
                    match self.lx.next() {
                        Tok::Id(w) if fm.contains(&w) => continue,
                        Tok::Id(w) => break w.to_string(),
                        _ => self.lx.fail("fpred"),
                    }
                };
                let t = self.ty();
                let x = self.val(&t);
                self.lx.exp_p(b',');
                let y = self.val(&t);
                I::FCmp(p, t, d, x, y)
            }
            "select" => {
                self.skip_flags();
                let c = self.tyval();
                self.lx.exp_p(b',');
                let (t, a) = self.tyval();
                self.lx.exp_p(b',');
                let (_, b) = self.tyval();
                I::Select(t, d, c, a, b)
            }
            "load" => {
                self.eat_word("atomic");
                self.eat_word("volatile");
                let t = self.ty();
                self.lx.exp_p(b',');
                let (_, p) = self.tyval();
                I::Load(t, d, p)
            }
            "store" => {
                self.eat_word("atomic");
                self.eat_word("volatile");
                let (t, v) = self.tyval();
                self.lx.exp_p(b',');
                let (_, p) = self.tyval();
                I::Store(t, v, p)
            }
            "alloca" => {
                self.eat_word("inalloca");
                let t = self.ty();
                let mut n = None;
                if self.lx.eat_p(b',') && self.lx.is_type_start() {
                    n = Some(self.tyval());
                }
                I::Alloca(t, d, n)
            }
            "getelementptr" => {
                self.skip_flags();
                let t = self.ty();
                self.lx.exp_p(b',');
                let base = self.tyval();
                let mut ix = vec![];
                while self.lx.is_p(b',') {
                    let save = self.lx.i;
                    let cur = self.lx.cur.clone();
                    self.lx.next();
                    if !self.lx.is_type_start() {
                        self.lx.i = save;
                        self.lx.cur = cur;
                        break;
                    }
                    ix.push(self.tyval());
                }
                I::Gep(t, d, base, ix)
            }
            "tail" | "musttail" | "notail" => {
                if !self.lx.eat_id("call") {
                    self.lx.fail("call");
                }
                let (t, c, a) = self.call();
                I::Call(t, dst, c, a)
            }
            "call" => {
                let (t, c, a) = self.call();
                I::Call(t, dst, c, a)
            }
            "invoke" => {
                let (t, c, a) = self.call();
                // skip attributes until "to"
                while !self.lx.is_id("to") {
                    self.lx.next();
                }
                self.lx.next();
                let e = self.edge(en);
                while !self.lx.is_id("unwind") {
                    self.lx.next();
                }
                I::Invoke(t, dst, c, a, e)
            }
            "landingpad" => {
                self.lx.skip_line();
                loop {
                    let save = self.lx.i;
                    let cur = self.lx.cur.clone();
                    self.lx.skip_nl();
                    if self.lx.is_id("cleanup") || self.lx.is_id("catch") || self.lx.is_id("filter") {
                        self.lx.skip_line();
                        continue;
                    }
                    self.lx.i = save;
                    self.lx.cur = cur;
                    break;
                }
                I::LandingPad
            }
            "resume" => I::LandingPad,
            "extractvalue" => {
                let (t, v) = self.tyval();
                let p = self.path();
                I::Extract(t, d, v, p)
            }
            "insertvalue" => {
                let (t, v) = self.tyval();
                self.lx.exp_p(b',');
                let e = self.tyval();
                let p = self.path();
                I::Insert(t, d, v, e, p)
            }
            "extractelement" => {
                let (t, v) = self.tyval();
                self.lx.exp_p(b',');
                let i = self.tyval();
                I::ExtractEl(t, d, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tyval();
                self.lx.exp_p(b',');
                let (_, e) = self.tyval();
                self.lx.exp_p(b',');
                let i = self.tyval();
                I::InsertEl(t, d, v, e, i)
            }
            "shufflevector" => {
                let (t, v) = self.tyval();
                self.lx.exp_p(b',');
                let (_, w) = self.tyval();
                self.lx.exp_p(b',');
                let (mt, m) = self.tyval();
                I::Shuffle(t, d, v, w, mt, m)
            }
            "freeze" => {
                let (t, v) = self.tyval();
                I::Freeze(t, d, v)
            }
            "fence" => I::Nop,
            "atomicrmw" => {
                self.eat_word("volatile");
                let o = match self.lx.next() {
                    Tok::Id(w) => w.to_string(),
                    _ => self.lx.fail("rmw"),
                };
                let (_, p) = self.tyval();
                self.lx.exp_p(b',');
                let (t, v) = self.tyval();
                I::AtomicRmw(o, t, d, p, v)
            }
            "cmpxchg" => {
                self.eat_word("weak");
                self.eat_word("volatile");
                let (_, p) = self.tyval();
                self.lx.exp_p(b',');
                let (t, c) = self.tyval();
                self.lx.exp_p(b',');
                let (_, n) = self.tyval();
                I::CmpXchg(t, d, p, c, n)
            }
            "br" => {
                if self.lx.is_id("label") {
                    I::Br(self.edge(en))
                } else {
                    let (_, c) = self.tyval();
                    self.lx.exp_p(b',');
                    let a = self.edge(en);
                    self.lx.exp_p(b',');
                    let b = self.edge(en);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.lx.exp_p(b',');
                let def = self.edge(en);
                self.lx.exp_p(b'[');
                let mut cs = vec![];
                loop {
                    self.lx.skip_nl();
                    if self.lx.eat_p(b']') {
                        break;
                    }
                    let (_, cv) = self.tyval();
                    self.lx.exp_p(b',');
                    let e = self.edge(en);
                    cs.push((cv, e));
                }
                I::Switch(t, v, def, cs)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    I::Ret(t, None)
                } else {
                    let v = self.val(&t);
                    I::Ret(t, Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            _ => self.lx.fail(&format!("unknown opcode {op}")),
        };
        self.lx.skip_line();
        r
    }
    fn eat_word(&mut self, w: &str) {
        self.lx.eat_id(w);
    }
    fn path(&mut self) -> Vec<u64> {
        let mut p = vec![];
        while self.lx.is_p(b',') {
            let save = self.lx.i;
            let cur = self.lx.cur.clone();
            self.lx.next();
            if let Tok::Int(_) = self.lx.cur {
                p.push(self.lx.int_u64());
            } else {
                self.lx.i = save;
                self.lx.cur = cur;
                break;
            }
        }
        p
    }
}

fn float_bits(s: &str, ty: &Ty) -> u64 {
    let hexd = |h: &str| u64::from_str_radix(h, 16).unwrap();
    if let Some(h) = s.strip_prefix("f0x") {
        return hexd(h);
    }
    if let Some(h) = s.strip_prefix("0xH") {
        return hexd(h);
    }
    if let Some(h) = s.strip_prefix("0x") {
        let b = hexd(h);
        return match ty {
            Ty::F32 => (f64::from_bits(b) as f32).to_bits() as u64,
            _ => b,
        };
    }
    let v64: f64;
    let v32: f32;
    match s {
        "+qnan" | "qnan" => {
            v64 = f64::NAN;
            v32 = f32::NAN;
        }
        "-qnan" => {
            v64 = -f64::NAN;
            v32 = -f32::NAN;
        }
        "+inf" | "inf" => {
            v64 = f64::INFINITY;
            v32 = f32::INFINITY;
        }
        "-inf" => {
            v64 = f64::NEG_INFINITY;
            v32 = f32::NEG_INFINITY;
        }
        _ => {
            v64 = s.parse().unwrap_or_else(|_| panic!("float literal {s}"));
            v32 = s.parse().unwrap();
        }
    }
    match ty {
        Ty::F32 => v32.to_bits() as u64,
        _ => v64.to_bits(),
    }
}
