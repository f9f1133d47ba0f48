//! Object memory with per-byte symbolic overlays; copy-on-write between forked states.
use crate::val::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SB {
    pub e: E, // expression, u32::MAX = concrete
    pub i: u8, // byte index within the expression
}
pub const CONC: SB = SB { e: u32::MAX, i: 0 };

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OKind {
    Global,
    Const,
    Stack,
    Heap,
    Mmap,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<SB>>,
    pub kind: OKind,
}
impl Obj {
    pub fn new(n: usize, kind: OKind) -> Obj {
        Obj { data: vec![0; n], sym: None, kind }
    }
    pub fn set_sym(&mut self, off: usize, n: usize, e: E) {
        let len = self.data.len();
        let s = self.sym.get_or_insert_with(|| vec![CONC; len]);
        for i in 0..n {
            s[off + i] = SB { e, i: i as u8 };
        }
    }
    pub fn set_conc(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            s[off..off + n].fill(CONC);
        }
    }
}
const CH: usize = 64;
#[derive(Clone)]
struct Chunk {
    o: [Option<Rc<Obj>>; CH],
}
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Rc<Vec<u32>>,
    n: u32,
}
pub const OBJ_SHIFT: u32 = 32;
pub fn addr_of(id: u32) -> u64 {
    ((id as u64 + 1) << OBJ_SHIFT) + 0
}
pub fn split(a: u64) -> (u32, u64) {
    // objects start at multiples of 2^32; small negative offsets fall into the previous object's
    // range and are reported as out of bounds
    (((a >> OBJ_SHIFT) as u32).wrapping_sub(1), a & 0xffff_ffff)
}
impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], free: Rc::new(vec![]), n: 0 }
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = if let Some(_) = self.free.last() {
            Rc::make_mut(&mut self.free).pop().unwrap()
        } else {
            let id = self.n;
            self.n += 1;
            if id as usize / CH >= self.chunks.len() {
                self.chunks.push(Rc::new(Chunk { o: [const { None }; CH] }));
            }
            id
        };
        Rc::make_mut(&mut self.chunks[id as usize / CH]).o[id as usize % CH] = Some(Rc::new(o));
        id
    }
    pub fn free(&mut self, id: u32) {
        Rc::make_mut(&mut self.chunks[id as usize / CH]).o[id as usize % CH] = None;
        Rc::make_mut(&mut self.free).push(id);
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?.o[id as usize % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let o = Rc::make_mut(c).o[id as usize % CH].as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn count(&self) -> u32 {
        self.n - self.free.len() as u32
    }
}
