//! Object memory: address = object id << 32 | offset; byte-level symbolic contents, copy on write.
use crate::expr::E;
use std::rc::Rc;

pub const UNDEF: E = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Const,
    Global,
    Stack,
    Heap,  // rust allocator
    CHeap, // malloc
}

#[derive(Clone)]
pub struct Obj {
    pub kind: Kind,
    pub align: u64,
    pub bytes: Vec<u8>,
    /// empty when every byte is concrete and defined; else one entry per byte (0 = concrete)
    pub sym: Vec<E>,
    /// made by the bookkeeping of the models
    pub own: bool,
}
impl Obj {
    pub fn new(kind: Kind, size: usize, align: u64, undef: bool) -> Obj {
        Obj { kind, align, bytes: vec![0; size], sym: if undef && size > 0 { vec![UNDEF; size] } else { vec![] }, own: false }
    }
    pub fn size(&self) -> usize {
        self.bytes.len()
    }
    #[inline]
    pub fn symof(&self, i: usize) -> E {
        if self.sym.is_empty() {
            0
        } else {
            self.sym[i]
        }
    }
    pub fn all_concrete(&self, o: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[o..o + n].iter().all(|&x| x == 0)
    }
    pub fn set_sym(&mut self, i: usize, e: E) {
        if self.sym.is_empty() {
            if e == 0 {
                return;
            }
            self.sym = vec![0; self.bytes.len()];
        }
        self.sym[i] = e;
    }
    pub fn put_concrete(&mut self, o: usize, v: u128, n: usize) {
        for i in 0..n {
            self.bytes[o + i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 };
        }
        if !self.sym.is_empty() {
            for i in 0..n {
                self.sym[o + i] = 0;
            }
        }
    }
}

const CH: usize = 64;
#[derive(Clone)]
struct Chunk {
    o: Vec<Slot>,
}
#[derive(Clone)]
pub enum Slot {
    Empty,
    Dead(Kind),
    Live(Rc<Obj>),
}

#[derive(Clone)]
pub struct Mem {
    ch: Vec<Rc<Chunk>>,
    pub next: u64,
    pub live_heap: u64,
}
impl Mem {
    pub fn new(first_dyn: u64) -> Mem {
        Mem { ch: vec![], next: first_dyn, live_heap: 0 }
    }
    pub fn get(&self, id: u64) -> &Slot {
        let c = (id as usize) / CH;
        if c < self.ch.len() {
            &self.ch[c].o[id as usize % CH]
        } else {
            &Slot::Empty
        }
    }
    pub fn set(&mut self, id: u64, s: Slot) {
        let c = (id as usize) / CH;
        if c >= self.ch.len() {
            let e = Rc::new(Chunk { o: vec![Slot::Empty; CH] });
            while self.ch.len() <= c {
                self.ch.push(e.clone());
            }
        }
        Rc::make_mut(&mut self.ch[c]).o[id as usize % CH] = s;
    }
    pub fn obj_mut(&mut self, id: u64) -> &mut Obj {
        let c = (id as usize) / CH;
        match &mut Rc::make_mut(&mut self.ch[c]).o[id as usize % CH] {
            Slot::Live(o) => Rc::make_mut(o),
            _ => panic!("obj_mut"),
        }
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        if o.kind == Kind::Heap || o.kind == Kind::CHeap {
            self.live_heap += 1;
        }
        self.set(id, Slot::Live(Rc::new(o)));
        id
    }
    pub fn kill(&mut self, id: u64, k: Kind) {
        if k == Kind::Heap || k == Kind::CHeap {
            self.live_heap -= 1;
        }
        self.set(id, Slot::Dead(k));
    }
    pub fn live_heap_objs(&self) -> Vec<(u64, usize)> {
        let mut v = vec![];
        for (ci, c) in self.ch.iter().enumerate() {
            for (i, s) in c.o.iter().enumerate() {
                if let Slot::Live(o) = s {
                    if o.kind == Kind::Heap {
                        v.push(((ci * CH + i) as u64, o.size()));
                    }
                }
            }
        }
        v
    }
}
