//! Lowering of LLVM bitcode (read through the LLVM C API) into a compact register IR.
use crate::ffi::*;
use crate::val::Val;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    F32,
    F64,
    Ptr,
    Vec(u32, Box<Ty>),
    Agg(Rc<AggTy>),
    Other,
}
#[derive(Debug, PartialEq)]
pub struct AggTy {
    pub elems: Vec<(u64, Ty)>,
    pub size: u64,
}
impl Ty {
    /// width in bits of a scalar
    pub fn w(&self) -> u32 {
        match self {
            Ty::I(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn lanes(&self) -> Option<u32> {
        if let Ty::Vec(n, _) = self {
            Some(*n)
        } else {
            None
        }
    }
    pub fn scalar(&self) -> &Ty {
        if let Ty::Vec(_, t) = self {
            t
        } else {
            self
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self.scalar(), Ty::F32 | Ty::F64)
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::I(w) => ((*w + 7) / 8) as u64,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => {
                if **t == Ty::I(1) {
                    ((*n + 7) / 8) as u64
                } else {
                    *n as u64 * t.store_size()
                }
            }
            Ty::Agg(a) => a.size,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FBin {
    Add, Sub, Mul, Div, Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, Bit,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IPred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opnd),
    Asm(String),
}

#[derive(Debug)]
pub enum K {
    Bin(Bin, Ty, Opnd, Opnd),
    FBin(FBin, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    ICmp(IPred, Ty, Opnd, Opnd),
    FCmp(u8, Ty, Opnd, Opnd),
    Cast(Cast, Ty, Ty, Opnd),
    Select(Ty, Opnd, Opnd, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, i64, u32)>),
    Alloca(u64, u64, Opnd),
    Extract(Opnd, Vec<u32>),
    Insert(Ty, Opnd, Opnd, Vec<u32>),
    ExtractEl(Ty, Opnd, Opnd),
    InsertEl(Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Ty, Opnd, Opnd, Vec<i32>),
    Call(Callee, Vec<(Ty, Opnd)>, Ty, Option<u32>, Option<u32>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u64, u32)>, u32),
    Ret(Option<Opnd>),
    Unreachable,
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Rmw(i32, Ty, Opnd, Opnd),
    Nop,
    Mov(Opnd),
    LandingPad,
    Resume(Opnd),
    Unsup(String),
}

pub const NOREG: u32 = u32::MAX;

#[derive(Debug)]
pub struct Inst {
    pub dst: u32,
    pub k: K,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub idx: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninsts: usize,
}

pub struct FnDecl {
    pub name: String,
    pub v: P,
    pub defined: bool,
    pub body: Option<Rc<Func>>,
    pub model: Option<u32>,
    pub weak: bool,
}

pub struct Module {
    pub td: P,
    pub m: P,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    fn_by_ptr: HashMap<usize, u32>,
    /// address of every global variable / alias
    pub gaddr: HashMap<usize, u64>,
    pub gvars: Vec<GVar>,
    tycache: HashMap<usize, Ty>,
}
pub struct GVar {
    pub name: String,
    pub v: P,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub init: P,
}

pub const FN_BASE: u64 = 1 << 62;
pub const FN_STEP: u64 = 16;

unsafe fn vname(v: P) -> String {
    let mut n = 0usize;
    let p = LLVMGetValueName2(v, &mut n);
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
}
pub unsafe fn vstr(v: P) -> String {
    let p = LLVMPrintValueToString(v);
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

impl Module {
    pub fn load(path: &str) -> Module {
        unsafe {
            let ctx = LLVMContextCreate();
            let mut buf = std::ptr::null_mut();
            let mut msg = std::ptr::null_mut();
            let cp = CString::new(path).unwrap();
            if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 {
                panic!("cannot read {path}");
            }
            let mut m = std::ptr::null_mut();
            if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 {
                panic!("cannot parse {path}");
            }
            let td = LLVMGetModuleDataLayout(m);
            let mut md = Module {
                td,
                m,
                fns: vec![],
                fn_by_name: HashMap::new(),
                fn_by_ptr: HashMap::new(),
                gaddr: HashMap::new(),
                gvars: vec![],
                tycache: HashMap::new(),
            };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let name = vname(f);
                let idx = md.fns.len() as u32;
                md.fn_by_name.insert(name.clone(), idx);
                md.fn_by_ptr.insert(f as usize, idx);
                let weak = LLVMGetLinkage(f) == 12; // ExternalWeak
                md.fns.push(FnDecl { name, v: f, defined: LLVMIsDeclaration(f) == 0, body: None, model: None, weak });
                f = LLVMGetNextFunction(f);
            }
            let mut g = LLVMGetFirstGlobal(m);
            while !g.is_null() {
                let t = LLVMGlobalGetValueType(g);
                let kind = LLVMGetTypeKind(t);
                let size = if kind == 0 { 0 } else { LLVMABISizeOfType(td, t) };
                let align = LLVMABIAlignmentOfType(td, t) as u64;
                let init = if LLVMIsDeclaration(g) == 0 { LLVMGetInitializer(g) } else { std::ptr::null_mut() };
                md.gvars.push(GVar { name: vname(g), v: g, size, align, constant: LLVMIsGlobalConstant(g) != 0, init });
                g = LLVMGetNextGlobal(g);
            }
            md
        }
    }

    pub fn fn_addr(&self, idx: u32) -> u64 {
        if self.fns[idx as usize].weak && !self.fns[idx as usize].defined {
            return 0;
        }
        FN_BASE + idx as u64 * FN_STEP
    }
    pub fn addr_fn(&self, a: u64) -> Option<u32> {
        if a >= FN_BASE && (a - FN_BASE) % FN_STEP == 0 && (a - FN_BASE) / FN_STEP < self.fns.len() as u64 {
            Some(((a - FN_BASE) / FN_STEP) as u32)
        } else {
            None
        }
    }

    pub fn ty(&mut self, t: P) -> Ty {
        if let Some(x) = self.tycache.get(&(t as usize)) {
            return x.clone();
        }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::I(LLVMGetIntTypeWidth(t)),
                12 => Ty::Ptr,
                13 => {
                    let e = LLVMGetElementType(t);
                    Ty::Vec(LLVMGetVectorSize(t), Box::new(self.ty(e)))
                }
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let e = LLVMStructGetTypeAtIndex(t, i);
                        v.push((LLVMOffsetOfElement(self.td, t, i), self.ty(e)));
                    }
                    Ty::Agg(Rc::new(AggTy { elems: v, size: LLVMABISizeOfType(self.td, t) }))
                }
                11 => {
                    let e = LLVMGetElementType(t);
                    let n = LLVMGetArrayLength2(t);
                    let es = LLVMABISizeOfType(self.td, e);
                    if n > 4096 {
                        Ty::Other
                    } else {
                        let et = self.ty(e);
                        Ty::Agg(Rc::new(AggTy { elems: (0..n).map(|i| (i * es, et.clone())).collect(), size: n * es }))
                    }
                }
                _ => Ty::Other,
            }
        };
        self.tycache.insert(t as usize, r.clone());
        r
    }

    unsafe fn const_int(&mut self, v: P, w: u32) -> Val {
        if w <= 64 {
            Val::I(LLVMConstIntGetZExtValue(v))
        } else {
            let s = vstr(v);
            let d = s.rsplit(' ').next().unwrap();
            let x: u128 = if let Some(n) = d.strip_prefix('-') {
                (n.parse::<u128>().unwrap()).wrapping_neg()
            } else {
                d.parse().unwrap()
            };
            let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            Val::big(x & m)
        }
    }

    /// Evaluate a constant to a value
    pub fn cval(&mut self, v: P) -> Val {
        unsafe {
            let t = self.ty(LLVMTypeOf(v));
            match LLVMGetValueKind(v) {
                18 => {
                    if let Ty::Vec(n, e) = &t {
                        let x = self.const_int(v, e.w());
                        return Val::A(Rc::new(vec![x; *n as usize]));
                    }
                    self.const_int(v, t.w())
                }
                20 => {
                    let mut l = 0;
                    let d = LLVMConstRealGetDouble(v, &mut l);
                    let one = |t: &Ty| match t {
                        Ty::F32 => Val::I((d as f32).to_bits() as u64),
                        _ => Val::I(d.to_bits()),
                    };
                    if let Ty::Vec(n, e) = &t {
                        return Val::A(Rc::new(vec![one(e); *n as usize]));
                    }
                    one(&t)
                }
                21 => Val::I(0),
                14 | 26 => Self::zero(&t, true),
                15 => Self::zero(&t, false),
                5 => {
                    let i = self.fn_by_ptr[&(v as usize)];
                    Val::I(self.fn_addr(i))
                }
                8 => Val::I(*self.gaddr.get(&(v as usize)).unwrap_or_else(|| panic!("no address for global {}", vname(v)))),
                6 => {
                    let a = LLVMAliasGetAliasee(v);
                    self.cval(a)
                }
                11 | 12 | 13 | 16 | 17 => {
                    let n = match &t {
                        Ty::Vec(n, _) => *n as usize,
                        Ty::Agg(a) => a.elems.len(),
                        _ => panic!("const aggregate of type {t:?}"),
                    };
                    let mut o = vec![];
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        o.push(self.cval(e));
                    }
                    Val::A(Rc::new(o))
                }
                10 => match LLVMGetConstOpcode(v) {
                    29 => {
                        let (b, off, terms) = self.gep_parts(v);
                        let b = self.cval(b).i();
                        let mut a = b.wrapping_add(off as u64);
                        for (x, s, w) in terms {
                            let x = self.cval(x).i();
                            let x = crate::val::sext64(x, w);
                            a = a.wrapping_add((x.wrapping_mul(s)) as u64);
                        }
                        Val::I(a)
                    }
                    39 | 40 | 41 | 69 => {
                        let o = LLVMGetOperand(v, 0);
                        self.cval(o)
                    }
                    30 => {
                        let o = LLVMGetOperand(v, 0);
                        let x = self.cval(o).i();
                        Val::I(x & crate::val::mask64(t.w()))
                    }
                    8 => {
                        let x = self.cval(LLVMGetOperand(v, 0)).i();
                        let y = self.cval(LLVMGetOperand(v, 1)).i();
                        Val::I(x.wrapping_add(y) & crate::val::mask64(t.w()))
                    }
                    10 => {
                        let x = self.cval(LLVMGetOperand(v, 0)).i();
                        let y = self.cval(LLVMGetOperand(v, 1)).i();
                        Val::I(x.wrapping_sub(y) & crate::val::mask64(t.w()))
                    }
                    o => panic!("constant expression opcode {o}: {}", vstr(v)),
                },
                k => panic!("constant kind {k}: {}", vstr(v)),
            }
        }
    }

    pub fn zero(t: &Ty, _undef: bool) -> Val {
        match t {
            Ty::Vec(n, e) => Val::A(Rc::new(vec![Self::zero(e, _undef); *n as usize])),
            Ty::Agg(a) => Val::A(Rc::new(a.elems.iter().map(|(_, e)| Self::zero(e, _undef)).collect())),
            Ty::I(w) if *w > 64 => Val::big(0),
            _ => Val::I(0),
        }
    }

    /// Write the bytes of a constant initialiser
    pub fn init_bytes(&mut self, v: P, out: &mut [u8]) {
        unsafe {
            let pt = LLVMTypeOf(v);
            match LLVMGetValueKind(v) {
                14 | 15 | 26 | 21 => {}
                16 => {
                    let mut n = 0usize;
                    let p = LLVMGetRawDataValues(v, &mut n);
                    out[..n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
                }
                12 => {
                    let n = LLVMCountStructElementTypes(pt);
                    for i in 0..n {
                        let off = LLVMOffsetOfElement(self.td, pt, i) as usize;
                        let e = LLVMGetAggregateElement(v, i);
                        self.init_bytes(e, &mut out[off..]);
                    }
                }
                11 => {
                    let n = LLVMGetArrayLength2(pt);
                    let es = LLVMABISizeOfType(self.td, LLVMGetElementType(pt)) as usize;
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        self.init_bytes(e, &mut out[i as usize * es..]);
                    }
                }
                _ => {
                    let t = self.ty(pt);
                    let x = self.cval(v);
                    fn put(t: &Ty, x: &Val, out: &mut [u8]) {
                        match (t, x) {
                            (Ty::Vec(_, e), Val::A(xs)) => {
                                let s = e.store_size() as usize;
                                for (i, x) in xs.iter().enumerate() {
                                    put(e, x, &mut out[i * s..]);
                                }
                            }
                            _ => {
                                let n = t.store_size() as usize;
                                let b = x.u128().to_le_bytes();
                                out[..n].copy_from_slice(&b[..n]);
                            }
                        }
                    }
                    put(&t, &x, out);
                }
            }
        }
    }

    unsafe fn gep_parts(&mut self, v: P) -> (P, i64, Vec<(P, i64, u32)>) {
        let base = LLVMGetOperand(v, 0);
        let n = LLVMGetNumOperands(v);
        let mut t = LLVMGetGEPSourceElementType(v);
        let mut off = 0i64;
        let mut terms = vec![];
        for i in 1..n {
            let ix = LLVMGetOperand(v, i as u32);
            let ixw = {
                let tt = LLVMTypeOf(ix);
                let tt = self.ty(tt);
                tt.scalar().w()
            };
            let isc = LLVMGetValueKind(ix) == 18;
            if i == 1 {
                let s = LLVMABISizeOfType(self.td, t) as i64;
                if isc {
                    off = off.wrapping_add(crate::val::sext64(LLVMConstIntGetZExtValue(ix), ixw).wrapping_mul(s));
                } else {
                    terms.push((ix, s, ixw));
                }
                continue;
            }
            match LLVMGetTypeKind(t) {
                10 => {
                    let k = LLVMConstIntGetZExtValue(ix) as u32;
                    off += LLVMOffsetOfElement(self.td, t, k) as i64;
                    t = LLVMStructGetTypeAtIndex(t, k);
                }
                _ => {
                    t = LLVMGetElementType(t);
                    let s = LLVMABISizeOfType(self.td, t) as i64;
                    if isc {
                        off = off.wrapping_add(crate::val::sext64(LLVMConstIntGetZExtValue(ix), ixw).wrapping_mul(s));
                    } else {
                        terms.push((ix, s, ixw));
                    }
                }
            }
        }
        (base, off, terms)
    }

    pub fn body(&mut self, idx: u32) -> Rc<Func> {
        if let Some(b) = &self.fns[idx as usize].body {
            return b.clone();
        }
        let f = Rc::new(self.lower(idx));
        self.fns[idx as usize].body = Some(f.clone());
        f
    }

    fn lower(&mut self, idx: u32) -> Func {
        unsafe {
            let f = self.fns[idx as usize].v;
            let mut regs: HashMap<usize, u32> = HashMap::new();
            let mut bbs: HashMap<usize, u32> = HashMap::new();
            let np = LLVMCountParams(f);
            let mut nr = 0u32;
            for i in 0..np {
                regs.insert(LLVMGetParam(f, i) as usize, nr);
                nr += 1;
            }
            let mut b = LLVMGetFirstBasicBlock(f);
            let mut nb = 0;
            let mut ninsts = 0;
            while !b.is_null() {
                bbs.insert(b as usize, nb);
                nb += 1;
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 {
                        regs.insert(i as usize, nr);
                        nr += 1;
                    }
                    ninsts += 1;
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut blocks = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                let mut blk = Block::default();
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let dst = regs.get(&(i as usize)).copied().unwrap_or(NOREG);
                    if LLVMGetInstructionOpcode(i) == 44 {
                        let n = LLVMCountIncoming(i);
                        let mut inc = vec![];
                        for k in 0..n {
                            let v = LLVMGetIncomingValue(i, k);
                            let bb = bbs[&(LLVMGetIncomingBlock(i, k) as usize)];
                            inc.push((bb, self.opnd(v, &regs)));
                        }
                        blk.phis.push((dst, inc));
                    } else {
                        let k = self.lower_inst(i, &regs, &bbs);
                        blk.insts.push(Inst { dst, k });
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(blk);
                b = LLVMGetNextBasicBlock(b);
            }
            Func { idx, nparams: np, nregs: nr, blocks, ninsts }
        }
    }

    unsafe fn opnd(&mut self, v: P, regs: &HashMap<usize, u32>) -> Opnd {
        if let Some(r) = regs.get(&(v as usize)) {
            return Opnd::R(*r);
        }
        match LLVMGetValueKind(v) {
            23 => Opnd::C(Val::I(0)), // metadata
            _ => Opnd::C(self.cval(v)),
        }
    }

    unsafe fn lower_inst(&mut self, i: P, regs: &HashMap<usize, u32>, bbs: &HashMap<usize, u32>) -> K {
        let op = LLVMGetInstructionOpcode(i);
        let rt = LLVMTypeOf(i);
        macro_rules! o {
            ($n:expr) => {{
                let x = LLVMGetOperand(i, $n);
                self.opnd(x, regs)
            }};
        }
        macro_rules! oty {
            ($n:expr) => {{
                let x = LLVMTypeOf(LLVMGetOperand(i, $n));
                self.ty(x)
            }};
        }
        let bin = |k: Bin, s: &mut Self| {
            let t = s.ty(rt);
            let a = s.opnd(LLVMGetOperand(i, 0), regs);
            let b = s.opnd(LLVMGetOperand(i, 1), regs);
            K::Bin(k, t, a, b)
        };
        let fbin = |k: FBin, s: &mut Self| {
            let t = s.ty(rt);
            let a = s.opnd(LLVMGetOperand(i, 0), regs);
            let b = s.opnd(LLVMGetOperand(i, 1), regs);
            K::FBin(k, t, a, b)
        };
        let cast = |k: Cast, s: &mut Self| {
            let t = s.ty(rt);
            let f = LLVMTypeOf(LLVMGetOperand(i, 0));
            let f = s.ty(f);
            let a = s.opnd(LLVMGetOperand(i, 0), regs);
            K::Cast(k, f, t, a)
        };
        match op {
            1 => {
                if LLVMGetNumOperands(i) == 0 {
                    K::Ret(None)
                } else {
                    K::Ret(Some(o!(0)))
                }
            }
            70 => K::Br(bbs[&(LLVMGetSuccessor(i, 0) as usize)]),
            71 => {
                let c = LLVMGetCondition(i);
                let c = self.opnd(c, regs);
                K::CondBr(c, bbs[&(LLVMGetSuccessor(i, 0) as usize)], bbs[&(LLVMGetSuccessor(i, 1) as usize)])
            }
            2 => {
                if LLVMGetNumSuccessors(i) == 1 {
                    K::Br(bbs[&(LLVMGetSuccessor(i, 0) as usize)])
                } else {
                    let c = LLVMGetCondition(i);
                    let c = self.opnd(c, regs);
                    K::CondBr(c, bbs[&(LLVMGetSuccessor(i, 0) as usize)], bbs[&(LLVMGetSuccessor(i, 1) as usize)])
                }
            }
            3 => {
                let n = LLVMGetNumSuccessors(i);
                let def = bbs[&(LLVMGetSuccessor(i, 0) as usize)];
                let t = oty!(0);
                let mut cs = vec![];
                for k in 1..n {
                    let cv = LLVMGetSwitchCaseValue(i, k);
                    let cv = self.cval(cv);
                    cs.push((cv.i(), bbs[&(LLVMGetSuccessor(i, k) as usize)]));
                }
                K::Switch(o!(0), t.w(), cs, def)
            }
            7 => K::Unreachable,
            66 => K::FNeg(self.ty(rt), o!(0)),
            8 => bin(Bin::Add, self),
            10 => bin(Bin::Sub, self),
            12 => bin(Bin::Mul, self),
            14 => bin(Bin::UDiv, self),
            15 => bin(Bin::SDiv, self),
            17 => bin(Bin::URem, self),
            18 => bin(Bin::SRem, self),
            20 => bin(Bin::Shl, self),
            21 => bin(Bin::LShr, self),
            22 => bin(Bin::AShr, self),
            23 => bin(Bin::And, self),
            24 => bin(Bin::Or, self),
            25 => bin(Bin::Xor, self),
            9 => fbin(FBin::Add, self),
            11 => fbin(FBin::Sub, self),
            13 => fbin(FBin::Mul, self),
            16 => fbin(FBin::Div, self),
            19 => fbin(FBin::Rem, self),
            26 => {
                let t = LLVMGetAllocatedType(i);
                let s = LLVMABISizeOfType(self.td, t);
                let al = LLVMABIAlignmentOfType(self.td, t) as u64;
                K::Alloca(s, al, o!(0))
            }
            27 => K::Load(self.ty(rt), o!(0)),
            28 => {
                let t = oty!(0);
                K::Store(t, o!(0), o!(1))
            }
            29 => {
                let (b, off, terms) = self.gep_parts(i);
                let b = self.opnd(b, regs);
                let mut ts = vec![];
                for (x, s, w) in terms {
                    ts.push((self.opnd(x, regs), s, w));
                }
                if let Ty::Vec(..) = self.ty(rt) {
                    return K::Unsup("vector gep".into());
                }
                K::Gep(b, off, ts)
            }
            30 => cast(Cast::Trunc, self),
            31 => cast(Cast::ZExt, self),
            32 => cast(Cast::SExt, self),
            33 => cast(Cast::FPToUI, self),
            34 => cast(Cast::FPToSI, self),
            35 => cast(Cast::UIToFP, self),
            36 => cast(Cast::SIToFP, self),
            37 => cast(Cast::FPTrunc, self),
            38 => cast(Cast::FPExt, self),
            39 | 40 | 69 => {
                // ptrtoint / inttoptr / ptrtoaddr
                let t = self.ty(rt);
                let f = oty!(0);
                if t.w() < f.w() {
                    K::Cast(Cast::Trunc, f, t, o!(0))
                } else if t.w() > f.w() {
                    K::Cast(Cast::ZExt, f, t, o!(0))
                } else {
                    K::Mov(o!(0))
                }
            }
            41 | 60 => cast(Cast::Bit, self),
            42 => {
                let p = match LLVMGetICmpPredicate(i) {
                    32 => IPred::Eq,
                    33 => IPred::Ne,
                    34 => IPred::Ugt,
                    35 => IPred::Uge,
                    36 => IPred::Ult,
                    37 => IPred::Ule,
                    38 => IPred::Sgt,
                    39 => IPred::Sge,
                    40 => IPred::Slt,
                    41 => IPred::Sle,
                    x => panic!("icmp pred {x}"),
                };
                let t = oty!(0);
                K::ICmp(p, t, o!(0), o!(1))
            }
            43 => {
                let t = oty!(0);
                K::FCmp(LLVMGetFCmpPredicate(i) as u8, t, o!(0), o!(1))
            }
            45 | 5 => {
                let n = LLVMGetNumArgOperands(i);
                let cv = LLVMGetCalledValue(i);
                let rty = self.ty(rt);
                let (norm, unw) = if op == 5 {
                    (
                        Some(bbs[&(LLVMGetSuccessor(i, 0) as usize)]),
                        Some(bbs[&(LLVMGetSuccessor(i, 1) as usize)]),
                    )
                } else {
                    (None, None)
                };
                let callee = match LLVMGetValueKind(cv) {
                    24 => {
                        let mut l = 0usize;
                        let p = LLVMGetInlineAsmAsmString(cv, &mut l);
                        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned();
                        Callee::Asm(s)
                    }
                    5 => Callee::Fn(self.fn_by_ptr[&(cv as usize)]),
                    6 => {
                        let a = LLVMAliasGetAliasee(cv);
                        if LLVMGetValueKind(a) == 5 {
                            Callee::Fn(self.fn_by_ptr[&(a as usize)])
                        } else {
                            Callee::Ptr(self.opnd(cv, regs))
                        }
                    }
                    _ => Callee::Ptr(self.opnd(cv, regs)),
                };
                if let Callee::Fn(ix) = &callee {
                    let nm = &self.fns[*ix as usize].name;
                    if nm.starts_with("llvm.dbg.")
                        || nm.starts_with("llvm.lifetime.")
                        || nm.starts_with("llvm.experimental.noalias")
                        || nm == "llvm.assume"
                        || nm == "llvm.donothing"
                        || nm.starts_with("llvm.prefetch")
                        || nm.starts_with("llvm.invariant")
                    {
                        return K::Nop;
                    }
                }
                let mut args = vec![];
                for k in 0..n {
                    let a = LLVMGetOperand(i, k);
                    let t = LLVMTypeOf(a);
                    args.push((self.ty(t), self.opnd(a, regs)));
                }
                K::Call(callee, args, rty, norm, unw)
            }
            46 => {
                let t = self.ty(rt);
                K::Select(t, o!(0), o!(1), o!(2))
            }
            50 => {
                let t = oty!(0);
                K::ExtractEl(t, o!(0), o!(1))
            }
            51 => {
                let t = oty!(0);
                K::InsertEl(t, o!(0), o!(1), o!(2))
            }
            52 => {
                let t = oty!(0);
                let n = LLVMGetNumMaskElements(i);
                let m = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                K::Shuffle(t.lanes().unwrap(), t.scalar().clone(), o!(0), o!(1), m)
            }
            53 => {
                let n = LLVMGetNumIndices(i);
                let p = LLVMGetIndices(i);
                K::Extract(o!(0), (0..n).map(|k| *p.add(k as usize)).collect())
            }
            54 => {
                let n = LLVMGetNumIndices(i);
                let p = LLVMGetIndices(i);
                let t = self.ty(rt);
                K::Insert(t, o!(0), o!(1), (0..n).map(|k| *p.add(k as usize)).collect())
            }
            68 => K::Mov(o!(0)),
            55 => K::Nop,
            56 => {
                let t = oty!(1);
                K::CmpXchg(t, o!(0), o!(1), o!(2))
            }
            57 => {
                let t = oty!(1);
                K::Rmw(LLVMGetAtomicRMWBinOp(i), t, o!(0), o!(1))
            }
            58 => K::Resume(o!(0)),
            59 => K::LandingPad,
            _ => K::Unsup(format!("opcode {op}: {}", vstr(i))),
        }
    }
}
