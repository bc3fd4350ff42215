//! Object-based memory: address = object id << 32 | (BASE + offset).
use crate::expr::E;
use std::rc::Rc;

pub const BASE: u64 = 0x10000;
/// object-id spaces
pub const ID_FN: u32 = 0x1; // one object holding all function addresses
pub const ID_GLOBAL: u32 = 0x100;
pub const ID_STACK: u32 = 0x2000_0000;
pub const ID_HEAP: u32 = 0x4000_0000;

#[derive(Clone)]
pub struct Obj {
    pub size: u32,
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one entry per byte (0 = concrete)
    pub nsym: u32,
    pub konst: bool,
}
impl Obj {
    pub fn new(size: usize, fill: u8) -> Obj {
        Obj { size: size as u32, data: vec![fill; size], sym: vec![], nsym: 0, konst: false }
    }
    #[inline]
    pub fn any_sym(&self, off: usize, n: usize) -> bool {
        self.nsym != 0 && self.sym[off..off + n].iter().any(|&e| e != 0)
    }
    #[inline]
    pub fn set_c(&mut self, off: usize, v: u8) {
        self.data[off] = v;
        if self.nsym != 0 && self.sym[off] != 0 {
            self.sym[off] = 0;
            self.nsym -= 1;
        }
    }
    pub fn set_s(&mut self, off: usize, e: E) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.size as usize];
        }
        if self.sym[off] == 0 {
            self.nsym += 1;
        }
        self.sym[off] = e;
    }
    #[inline]
    pub fn get(&self, off: usize) -> Result<u8, E> {
        if self.nsym != 0 && self.sym[off] != 0 {
            Err(self.sym[off])
        } else {
            Ok(self.data[off])
        }
    }
}

const CH: usize = 64;
/// Copy-on-write vector of objects in chunks, so that cloning a state is cheap.
#[derive(Clone, Default)]
pub struct Chunked {
    ch: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    len: usize,
}
impl Chunked {
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn push(&mut self, o: Rc<Obj>) -> usize {
        if self.len % CH == 0 {
            self.ch.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.ch.last_mut().unwrap()).push(Some(o));
        self.len += 1;
        self.len - 1
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        if i >= self.len {
            return None;
        }
        self.ch[i / CH][i % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        if i >= self.len {
            return None;
        }
        Rc::make_mut(&mut self.ch[i / CH])[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn take(&mut self, i: usize) -> Option<Rc<Obj>> {
        if i >= self.len {
            return None;
        }
        Rc::make_mut(&mut self.ch[i / CH])[i % CH].take()
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len > n {
            let c = (self.len - 1) / CH;
            let keep = if c * CH >= n { 0 } else { n - c * CH };
            if keep == 0 {
                self.ch.pop();
                self.len = c * CH;
            } else {
                Rc::make_mut(&mut self.ch[c]).truncate(keep);
                self.len = n;
            }
        }
    }
    /// Chunk identity comparison for merging.
    pub fn same_chunk(&self, o: &Chunked, c: usize) -> bool {
        Rc::ptr_eq(&self.ch[c], &o.ch[c])
    }
    pub fn chunks(&self) -> usize {
        self.ch.len()
    }
    pub fn chunk_len() -> usize {
        CH
    }
    pub fn set(&mut self, i: usize, o: Rc<Obj>) {
        Rc::make_mut(&mut self.ch[i / CH])[i % CH] = Some(o);
    }
}
