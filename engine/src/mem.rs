//! Byte-addressed memory: objects at `index << 36`, copy-on-write between states.

use std::rc::Rc;

pub const SHIFT: u32 = crate::ir::OBJ_SHIFT;
const CH: usize = 128;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    /// symbolic size (term), when the allocation size is not a constant
    pub ssize: u32,
    pub data: Vec<u8>,
    /// symbolic bytes, parallel to `data` (0 = concrete); empty when none
    pub sym: Vec<u32>,
    pub readonly: bool,
    pub heap: bool,
}

pub type Slot = Option<Rc<Obj>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Slot>>>,
    next: usize,
    pub heap_live: u64,
}

impl Mem {
    pub fn new() -> Self {
        let mut m = Mem { chunks: Vec::new(), next: 0, heap_live: 0 };
        m.push(None); // object 0 is never valid
        m
    }
    fn push(&mut self, s: Slot) -> usize {
        let i = self.next;
        self.next += 1;
        if i / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut self.chunks[i / CH]).push(s);
        i
    }
    pub fn alloc(&mut self, size: u64, ssize: u32, readonly: bool, heap: bool) -> u64 {
        let i = self.push(Some(Rc::new(Obj { size, ssize, data: Vec::new(), sym: Vec::new(), readonly, heap })));
        if heap {
            self.heap_live += 1;
        }
        (i as u64) << SHIFT
    }
    #[inline]
    pub fn obj(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    #[inline]
    pub fn obj_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i / CH)?;
        let s = Rc::make_mut(c).get_mut(i % CH)?.as_mut()?;
        Some(Rc::make_mut(s))
    }
    pub fn free(&mut self, i: usize) {
        let c = Rc::make_mut(&mut self.chunks[i / CH]);
        if let Some(o) = &c[i % CH] {
            if o.heap {
                self.heap_live -= 1;
            }
        }
        c[i % CH] = None;
    }
    pub fn count(&self) -> usize {
        self.next
    }
}

impl Obj {
    pub fn ensure(&mut self, n: usize) {
        if self.data.len() < n {
            self.data.resize(n, 0);
            if !self.sym.is_empty() {
                self.sym.resize(n, 0);
            }
        }
    }
    #[inline]
    pub fn byte(&self, o: usize) -> (u8, u32) {
        let d = self.data.get(o).copied().unwrap_or(0);
        let s = self.sym.get(o).copied().unwrap_or(0);
        (d, s)
    }
    pub fn set(&mut self, o: usize, d: u8, s: u32) {
        self.ensure(o + 1);
        if s != 0 && self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
        self.data[o] = d;
        if !self.sym.is_empty() {
            self.sym[o] = s;
        }
    }
}
