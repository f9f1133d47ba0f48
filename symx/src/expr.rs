//! Hash-consed expression DAG with a simplifier, known-bits analysis, single-variable truth sets
//! and a concrete evaluator.
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    // bit vectors (w >= 1; w == 1 doubles as Bool)
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Concat,  // a = high, b = low
    Extract, // k = low bit, w = width
    ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
    Tab, // a = index expr depending on one byte variable, k = table number
    // floating point (w == 0)
    FConst, FVar, FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FIte, FMin, FMax,
    FFloor, FCeil, FTrunc, FRound, FUn, // FUn: uninterpreted function number k of a (and b)
    FRem,
    SI2F, UI2F, B2F,
    // fp -> bool / bv
    FEq, FLt, FLe, FNan,
    F2B, F2SI, F2UI,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Debug, PartialEq)]
pub enum VarKind {
    /// integer of the given width in lo..=hi (unsigned)
    Int { w: u32, lo: u64, hi: u64 },
    /// byte from a set
    Byte([u64; 4]),
    /// k/den, lo <= k <= hi, as double
    Grid { lo: i64, hi: i64, den: i64 },
    /// any 64-bit pattern as double, minus the excluded class (no NaN/inf if finite)
    AnyF64 { finite: bool },
}
pub struct Var {
    pub name: String,
    pub kind: VarKind,
    pub e: E,
}

pub const MULTI: u32 = u32::MAX;
pub type Set = [u64; 4];
pub fn set_has(s: &Set, b: u8) -> bool {
    s[(b >> 6) as usize] >> (b & 63) & 1 != 0
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn set_first(a: &Set) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FpMode {
    Real,
    Ieee,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    hc: HashMap<Node, E>,
    pub kz: Vec<u64>,
    pub sv: Vec<u32>,
    pub vars: Vec<Var>,
    pub var_by_name: HashMap<String, u32>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tab_hc: HashMap<Rc<Vec<u64>>, u32>,
    truth: HashMap<E, Set>,
    pub mode: FpMode,
}

/// concrete result of evaluating an expression
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CV {
    B(u128),
    F(f64),
    R(Rat),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Rat {
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128;
        let (mut n, mut d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 {
            n = n.checked_neg()?;
            d = d.checked_neg()?;
        }
        if n.unsigned_abs() >> 100 != 0 || d >> 100 != 0 {
            return None;
        }
        Some(Rat { n, d })
    }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == 0. {
            return Rat::new(0, 1);
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = if e == 0 { (b & ((1 << 52) - 1)) << 1 } else { (b & ((1 << 52) - 1)) | 1 << 52 };
        let mut e = e - 1075;
        let mut m = m as i128;
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
        if x < 0. {
            m = -m;
        }
        if e >= 0 {
            if e > 46 {
                return None;
            }
            Rat::new(m << e, 1)
        } else {
            if -e > 99 {
                return None;
            }
            Rat::new(m, 1i128 << -e)
        }
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    fn cmp(self, o: Rat) -> Option<std::cmp::Ordering> {
        // reduce through gcd of denominators to limit overflow
        let g = gcd(self.d as u128, o.d as u128) as i128;
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Some(a.cmp(&b))
    }
    fn add(self, o: Rat) -> Option<Rat> {
        let g = gcd(self.d as u128, o.d as u128) as i128;
        let a = self.n.checked_mul(o.d / g)?;
        let b = o.n.checked_mul(self.d / g)?;
        Rat::new(a.checked_add(b)?, self.d.checked_mul(o.d / g)?)
    }
    fn mul(self, o: Rat) -> Option<Rat> {
        let g1 = (gcd(self.n.unsigned_abs(), o.d as u128) as i128).max(1);
        let g2 = (gcd(o.n.unsigned_abs(), self.d as u128) as i128).max(1);
        Rat::new((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)
    }
}

pub type Assign = HashMap<u32, CV>;
pub struct Model {
    pub vals: Assign,
    memo: std::cell::RefCell<HashMap<E, Option<CV>>>,
}
impl Model {
    pub fn new(vals: Assign) -> Model {
        Model { vals, memo: Default::default() }
    }
}

impl Ctx {
    pub fn new(mode: FpMode) -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            hc: HashMap::new(),
            kz: vec![],
            sv: vec![],
            vars: vec![],
            var_by_name: HashMap::new(),
            tables: vec![],
            tab_hc: HashMap::new(),
            truth: HashMap::new(),
            mode,
        };
        c.cst(0, 1);
        c.cst(1, 1);
        c
    }
    pub const F: E = 0;
    pub const T: E = 1;

    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn is_fc(&self, e: E) -> Option<f64> {
        let n = &self.nodes[e as usize];
        if n.op == Op::FConst {
            Some(f64::from_bits(n.k as u64))
        } else {
            None
        }
    }
    /// no variables below
    pub fn ground(&self, e: E) -> bool {
        self.sv[e as usize] == 0
    }

    fn intern(&mut self, n: Node) -> E {
        if let Some(e) = self.hc.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as E;
        let (kz, sv) = self.meta(&n);
        self.kz.push(kz);
        self.sv.push(sv);
        self.hc.insert(n.clone(), id);
        self.nodes.push(n);
        id
    }
    fn kids(n: &Node) -> usize {
        use Op::*;
        match n.op {
            Const | Var | FConst | FVar => 0,
            Extract | ZExt | SExt | Tab | FNeg | FAbs | FSqrt | FFloor | FCeil | FTrunc | FRound | SI2F | UI2F | B2F | FNan | F2B
            | F2SI | F2UI => 1,
            Ite | FIte => 3,
            _ => 2,
        }
    }
    pub fn children(&self, e: E) -> Vec<E> {
        let n = self.n(e);
        let k = Self::kids(n);
        [n.a, n.b, n.c][..k].to_vec()
    }
    fn meta(&self, n: &Node) -> (u64, u32) {
        use Op::*;
        let m = mask64(n.w as u32);
        let kids = Self::kids(n);
        let mut sv = 0u32;
        for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
            if i >= kids {
                break;
            }
            let s = self.sv[*x as usize];
            if s != 0 {
                sv = if sv == 0 || sv == s { s } else { MULTI };
            }
        }
        let kz = |e: E| self.kz[e as usize];
        let z = match n.op {
            Const => !(n.k as u64),
            Var => {
                sv = n.k as u32 + 1;
                match &self.vars[n.k as usize].kind {
                    VarKind::Byte(s) => {
                        let mut any = 0u64;
                        for b in 0..=255u8 {
                            if set_has(s, b) {
                                any |= b as u64
                            }
                        }
                        !any
                    }
                    VarKind::Int { hi, .. } => {
                        if *hi == 0 {
                            u64::MAX
                        } else {
                            let b = 64 - hi.leading_zeros();
                            !mask64(b)
                        }
                    }
                    _ => 0,
                }
            }
            FVar => {
                sv = n.k as u32 + 1;
                0
            }
            And => kz(n.a) | kz(n.b),
            Or | Xor => kz(n.a) & kz(n.b),
            ZExt => kz(n.a),
            Extract if n.k < 64 => {
                let x = kz(n.a) >> n.k;
                if n.k > 0 && self.nodes[n.a as usize].w > 64 {
                    x & mask64(64 - n.k as u32)
                } else {
                    x | if n.k > 0 { !(u64::MAX >> n.k) } else { 0 }
                }
            }
            Concat => {
                let lw = self.w(n.b);
                if lw < 64 {
                    (kz(n.b) & mask64(lw)) | kz(n.a).wrapping_shl(lw)
                } else {
                    kz(n.b)
                }
            }
            Ite => kz(n.b) & kz(n.c),
            Shl => match self.is_c(n.b) {
                Some(s) if s < 64 => (kz(n.a) << s) | mask64(s as u32),
                _ => 0,
            },
            LShr => match self.is_c(n.b) {
                Some(s) if s < 64 && n.w <= 64 => (kz(n.a) >> s) | !(u64::MAX >> s),
                _ => 0,
            },
            Add => {
                let (a, b) = (!kz(n.a) & m, !kz(n.b) & m);
                match a.checked_add(b) {
                    Some(s) if s <= m && n.w <= 64 => {
                        let bits = 64 - s.leading_zeros();
                        !mask64(bits)
                    }
                    _ => 0,
                }
            }
            Mul => {
                let (a, b) = (!kz(n.a) & m, !kz(n.b) & m);
                match a.checked_mul(b) {
                    Some(s) if s <= m && n.w <= 64 => {
                        let bits = 64 - s.leading_zeros();
                        !mask64(bits)
                    }
                    _ => 0,
                }
            }
            UDiv | URem if n.w <= 64 => {
                let a = !kz(n.a) & m;
                let bits = 64 - a.leading_zeros();
                if n.op == URem {
                    if let Some(c) = self.is_c(n.b) {
                        if c > 0 {
                            let c = c as u64 - 1;
                            !mask64((64 - c.leading_zeros()).min(bits))
                        } else {
                            0
                        }
                    } else {
                        0
                    }
                } else if self.is_c(n.b).map_or(false, |c| c != 0) {
                    !mask64(bits)
                } else {
                    0
                }
            }
            Tab => {
                let t = &self.tables[n.k as usize];
                let mut any = 0;
                for x in t.iter() {
                    any |= x
                }
                !any
            }
            _ => 0,
        };
        (if n.w == 0 || n.w > 64 { if n.w > 64 { z } else { 0 } } else { z | !m }, sv)
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w: w as u16, a, b, c, k };
        let e = self.intern(n);
        // whole value known?
        if w >= 1 && w <= 64 && op != Op::Const {
            if self.kz[e as usize] == u64::MAX {
                return self.cst(0, w);
            }
        }
        e
    }
    pub fn cst(&mut self, k: u128, w: u32) -> E {
        self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask128(w) })
    }
    pub fn fcst(&mut self, x: f64) -> E {
        self.intern(Node { op: Op::FConst, w: 0, a: 0, b: 0, c: 0, k: x.to_bits() as u128 })
    }
    pub fn boolc(&self, b: bool) -> E {
        b as E
    }
    pub fn var(&mut self, name: &str, kind: VarKind) -> E {
        if let Some(i) = self.var_by_name.get(name) {
            let v = &self.vars[*i as usize];
            assert!(v.kind == kind, "variable {name} redeclared with a different domain");
            return v.e;
        }
        let i = self.vars.len() as u32;
        let (op, w) = match &kind {
            VarKind::Int { w, .. } => (Op::Var, *w),
            VarKind::Byte(_) => (Op::Var, 8),
            _ => (Op::FVar, 0),
        };
        self.vars.push(Var { name: name.to_string(), kind, e: 0 });
        self.var_by_name.insert(name.to_string(), i);
        let e = self.intern(Node { op, w: w as u16, a: 0, b: 0, c: 0, k: i as u128 });
        self.vars[i as usize].e = e;
        e
    }

    // ---------- bit vectors ----------
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if w == 1 {
            let n = self.n(a).clone();
            match n.op {
                Op::Const => return self.boolc(n.k == 0),
                Op::Xor if self.is_c(n.b) == Some(1) => return n.a,
                Op::Ult => return self.ule(n.b, n.a),
                Op::Ule => return self.ult(n.b, n.a),
                Op::Slt => return self.sle(n.b, n.a),
                Op::Sle => return self.slt(n.b, n.a),
                Op::FLt if self.mode == FpMode::Real => return self.fle(n.b, n.a),
                Op::FLe if self.mode == FpMode::Real => return self.flt(n.b, n.a),
                _ => {}
            }
            return self.mk(Op::Xor, 1, a, Self::T, 0, 0);
        }
        let m = self.cst(mask128(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }

    pub fn fold_bin(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
        use Op::*;
        let m = mask128(w);
        Some(
            m & match op {
                Add => a.wrapping_add(b),
                Sub => a.wrapping_sub(b),
                Mul => a.wrapping_mul(b),
                And => a & b,
                Or => a | b,
                Xor => a ^ b,
                UDiv => {
                    if b == 0 {
                        return None;
                    }
                    a / b
                }
                URem => {
                    if b == 0 {
                        return None;
                    }
                    a % b
                }
                SDiv => {
                    if b == 0 {
                        return None;
                    }
                    sext128(a, w).wrapping_div(sext128(b, w)) as u128
                }
                SRem => {
                    if b == 0 {
                        return None;
                    }
                    sext128(a, w).wrapping_rem(sext128(b, w)) as u128
                }
                Shl => {
                    if b >= w as u128 {
                        0
                    } else {
                        a << b
                    }
                }
                LShr => {
                    if b >= w as u128 {
                        0
                    } else {
                        a >> b
                    }
                }
                AShr => {
                    let s = sext128(a, w);
                    if b >= w as u128 {
                        (s >> 127) as u128
                    } else {
                        (s >> b) as u128
                    }
                }
                _ => return None,
            },
        )
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let m = mask128(w);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            if let Some(r) = Self::fold_bin(op, w, x, y) {
                return self.cst(r, w);
            }
        }
        if matches!(op, Add | Mul | And | Or | Xor) {
            if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let cb = self.is_c(b);
        let na = self.n(a).clone();
        match (op, cb) {
            (Add | Sub | Or | Xor | Shl | LShr | AShr, Some(0)) => return a,
            (Mul | And, Some(0)) => return b,
            (Mul | UDiv | SDiv, Some(1)) => return a,
            (URem, Some(1)) => return self.cst(0, w),
            (And, Some(k)) if k == m => return a,
            (Or, Some(k)) if k == m => return b,
            _ => {}
        }
        if a == b {
            match op {
                Sub | Xor => return self.cst(0, w),
                And | Or => return a,
                _ => {}
            }
        }
        match op {
            Xor if w == 1 && cb == Some(1) => return self.not(a),
            Sub if cb.is_some() => {
                let k = self.cst(cb.unwrap().wrapping_neg() & m, w);
                return self.bin(Add, a, k);
            }
            Add if cb.is_some() && na.op == Add => {
                if let Some(k2) = self.is_c(na.b) {
                    let k = self.cst(k2.wrapping_add(cb.unwrap()), w);
                    return self.bin(Add, na.a, k);
                }
            }
            Add => {
                let nb = self.n(b).clone();
                // (x - y) + y = x
                if na.op == Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Sub && nb.b == a {
                    return nb.a;
                }
                if na.op == Add && cb.is_none() {
                    if let Some(_) = self.is_c(na.b) {
                        let s = self.bin(Add, na.a, b);
                        return self.bin(Add, s, na.b);
                    }
                }
                if nb.op == Add {
                    if let Some(_) = self.is_c(nb.b) {
                        let s = self.bin(Add, a, nb.a);
                        return self.bin(Add, s, nb.b);
                    }
                }
            }
            Sub => {
                let nb = self.n(b).clone();
                if na.op == Add && na.a == b {
                    return na.b;
                }
                if na.op == Add && na.b == b {
                    return na.a;
                }
                if na.op == Add && nb.op == Add && na.a == nb.a {
                    return self.bin(Sub, na.b, nb.b);
                }
                if nb.op == Add && nb.a == a {
                    let z = self.cst(0, w);
                    return self.bin(Sub, z, nb.b);
                }
            }
            And if cb.is_some() && w <= 64 => {
                let k = cb.unwrap() as u64;
                let live = !self.kz[a as usize] & mask64(w);
                if k & live == live {
                    return a;
                }
                if k & live == 0 {
                    return self.cst(0, w);
                }
                if na.op == And {
                    if let Some(k2) = self.is_c(na.b) {
                        let kk = self.cst(k2 & cb.unwrap(), w);
                        return self.bin(And, na.a, kk);
                    }
                }
                if na.op == Concat || na.op == ZExt {
                    // low mask selects the low part
                    let lw = if na.op == Concat { self.w(na.b) } else { self.w(na.a) };
                    let low = if na.op == Concat { na.b } else { na.a };
                    if k <= mask64(lw) {
                        let kk = self.cst(k as u128, lw);
                        let x = self.bin(And, low, kk);
                        return self.zext(x, w);
                    }
                }
                // contiguous mask -> extract
                if k != 0 && (k & k.wrapping_add(1)) == 0 && matches!(na.op, LShr) {
                    let bits = 64 - k.leading_zeros();
                    let x = self.extract(a, 0, bits);
                    return self.zext(x, w);
                }
            }
            Or if w > 1 && w <= 64 => {
                // disjoint halves -> concat, when one side is a shifted zero-extension
                let nb = self.n(b).clone();
                for (x, y, ny) in [(a, b, &nb), (b, a, &na)] {
                    if ny.op == Shl {
                        if let Some(s) = self.is_c(ny.b) {
                            let s = s as u32;
                            if s > 0 && s < w && (!self.kz[x as usize] & mask64(w)) >> s == 0 {
                                let lo = self.extract(x, 0, s);
                                let hi = self.extract(y, s, w - s);
                                return self.concat(hi, lo);
                            }
                        }
                    }
                    if ny.op == Concat && self.is_c(ny.b) == Some(0) {
                        let s = self.w(ny.b);
                        if (!self.kz[x as usize] & mask64(w)) >> s == 0 {
                            let lo = self.extract(x, 0, s);
                            return self.concat(ny.a, lo);
                        }
                    }
                }
            }
            Shl if cb.is_some() => {
                let s = cb.unwrap();
                if s >= w as u128 {
                    return self.cst(0, w);
                }
                let x = self.extract(a, 0, w - s as u32);
                let z = self.cst(0, s as u32);
                return self.concat(x, z);
            }
            LShr if cb.is_some() => {
                let s = cb.unwrap();
                if s >= w as u128 {
                    return self.cst(0, w);
                }
                let x = self.extract(a, s as u32, w - s as u32);
                return self.zext(x, w);
            }
            UDiv if cb.is_some() && cb.unwrap().is_power_of_two() => {
                let s = self.cst(cb.unwrap().trailing_zeros() as u128, w);
                return self.bin(LShr, a, s);
            }
            URem if cb.is_some() && cb.unwrap().is_power_of_two() => {
                let s = self.cst(cb.unwrap() - 1, w);
                return self.bin(And, a, s);
            }
            _ => {}
        }
        if w == 1 {
            // boolean absorption
            if op == And || op == Or {
                let nb = self.n(b).clone();
                if na.op == Xor && self.is_c(na.b) == Some(1) && na.a == b
                    || nb.op == Xor && self.is_c(nb.b) == Some(1) && nb.a == a
                {
                    return self.boolc(op == Or);
                }
                if nb.op == op && (nb.a == a || nb.b == a) {
                    return b;
                }
                if na.op == op && (na.a == b || na.b == b) {
                    return a;
                }
            }
        }
        // push into ite with constant leaves
        if let Some(_) = cb {
            if na.op == Ite && self.is_c(na.b).is_some() && self.is_c(na.c).is_some() {
                let x = self.bin(op, na.b, b);
                let y = self.bin(op, na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        self.mk(op, w, a, b, 0, 0)
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.is_c(hi), self.is_c(lo)) {
            return self.cst(a << wl | b, w);
        }
        if self.is_c(hi) == Some(0) {
            return self.zext(lo, w);
        }
        let (nh, nl) = (self.n(hi).clone(), self.n(lo).clone());
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + wl as u128 {
            return self.extract(nh.a, nl.k as u32, w);
        }
        if nh.op == Op::Extract && nh.k == wl as u128 && nh.a == lo {
            // extract of x above lo = x truncated? cannot happen (widths differ)
        }
        if nl.op == Op::Concat {
            let n2 = self.n(nl.a).clone();
            if nh.op == Op::Extract && n2.op == Op::Extract && nh.a == n2.a && nh.k == n2.k + n2.w as u128 {
                let x = self.extract(nh.a, n2.k as u32, wh + n2.w as u32);
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            let wi = self.w(nh.a);
            let x = self.concat(nh.a, lo);
            let _ = wi;
            return self.zext(x, w);
        }
        if nh.op == Op::Concat {
            // right-assoc canonical form: concat(concat(a,b),c) -> concat(a, concat(b,c))
            let x = self.concat(nh.b, lo);
            return self.concat(nh.a, x);
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if wa == 0 {
            let b = self.f2b(a);
            return self.extract(b, lo, w);
        }
        debug_assert!(lo + w <= wa && w > 0);
        if lo == 0 && w == wa {
            return a;
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.cst(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_c(n.b).is_some() || w == 1 {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.is_c(n.b).is_some() || self.is_c(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::F2B if lo == 63 && w == 1 && self.mode == FpMode::Real => {
                let z = self.fcst(0.);
                return self.flt(n.a, z);
            }
            _ => {}
        }
        // upper bits known zero
        if lo < 64 && wa <= 64 {
            let live = (!self.kz[a as usize] & mask64(wa)) >> lo & mask64(w);
            if live == 0 {
                return self.cst(0, w);
            }
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.cst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.is_c(n.b).is_some() && self.is_c(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n(a).clone();
        match n.op {
            Op::Const => return self.cst(sext128(n.k, wa) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            _ => {}
        }
        if wa <= 64 && self.kz[a as usize] >> (wa - 1) & 1 != 0 {
            return self.zext(a, w);
        }
        if wa == 1 {
            let t = self.cst(mask128(w), w);
            let f = self.cst(0, w);
            return self.ite(a, t, f);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_c(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 0 || self.w(b) == 0 {
            return self.fite(c, a, b);
        }
        let nc = self.n(c).clone();
        if nc.op == Op::Xor && self.is_c(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == Op::F2B && nb.op == Op::F2B {
            let x = self.fite(c, na.a, nb.a);
            return self.f2b(x);
        }
        if (na.op == Op::F2B || nb.op == Op::F2B) && w == 64 && (na.op == Op::Const || nb.op == Op::Const) {
            let x = self.b2f(a);
            let y = self.b2f(b);
            let x = self.fite(c, x, y);
            return self.f2b(x);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b {
            return Self::T;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.boolc(x == y);
        }
        if self.is_c(a).is_some() || (self.is_c(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let na = self.n(a).clone();
        if let Some(k) = self.is_c(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            if w <= 64 && (k as u64) & self.kz[a as usize] != 0 {
                return Self::F;
            }
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if k >> wi != 0 {
                        return Self::F;
                    }
                    let kk = self.cst(k, wi);
                    return self.eq(na.a, kk);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let kk = self.cst(k, wi);
                    if sext128(k & mask128(wi), wi) as u128 & mask128(w) != k {
                        return Self::F;
                    }
                    return self.eq(na.a, kk);
                }
                Op::Add => {
                    if let Some(k2) = self.is_c(na.b) {
                        let kk = self.cst(k.wrapping_sub(k2), w);
                        return self.eq(na.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.is_c(na.b) {
                        let kk = self.cst(k ^ k2, w);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Sub if k == 0 => return self.eq(na.a, na.b),
                Op::Or if k == 0 => {
                    let x = self.eq(na.a, b);
                    let y = self.eq(na.b, b);
                    return self.and(x, y);
                }
                Op::Ite => {
                    let (x, y) = (self.is_c(na.b), self.is_c(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.cst(k >> wl, w - wl);
                    let kl = self.cst(k, wl);
                    let x = self.eq(na.a, kh);
                    if x == Self::F {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                _ => {}
            }
        } else {
            let nb = self.n(b).clone();
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                return self.eq(na.b, nb.b);
            }
            if na.op == Op::Add && na.a == b {
                let z = self.cst(0, w);
                return self.eq(na.b, z);
            }
            if nb.op == Op::Add && nb.a == a {
                let z = self.cst(0, w);
                return self.eq(nb.b, z);
            }
            if na.op == Op::F2B && nb.op == Op::F2B && self.mode == FpMode::Real {
                return self.feq(na.a, nb.a);
            }
        }
        if na.op == Op::F2B && self.mode == FpMode::Real {
            let y = self.b2f(b);
            return self.feq(na.a, y);
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return Self::F;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.boolc(x < y);
        }
        if self.is_c(b) == Some(0) {
            return Self::F;
        }
        if w <= 64 {
            let m = mask64(w);
            if let Some(k) = self.is_c(b) {
                if ((!self.kz[a as usize]) & m) < k as u64 {
                    return Self::T;
                }
                if k == 1 {
                    let z = self.cst(0, w);
                    return self.eq(a, z);
                }
            }
            if let Some(k) = self.is_c(a) {
                if ((!self.kz[b as usize]) & m) <= k as u64 {
                    return Self::F;
                }
                if k == 0 {
                    let e = self.eq(b, a);
                    return self.not(e);
                }
            }
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        if na.op == Op::ZExt {
            if let Some(k) = self.is_c(b) {
                let wi = self.w(na.a);
                let kk = self.cst(k, wi);
                return self.ult(na.a, kk); // k fits, otherwise caught by known bits
            }
        }
        if nb.op == Op::ZExt {
            if let Some(k) = self.is_c(a) {
                let wi = self.w(nb.a);
                let kk = self.cst(k, wi);
                return self.ult(kk, nb.a);
            }
        }
        if na.op == Op::Ite && self.is_c(b).is_some() && (self.is_c(na.b).is_some() || self.is_c(na.c).is_some()) {
            let p = self.ult(na.b, b);
            let q = self.ult(na.c, b);
            return self.ite(na.a, p, q);
        }
        if nb.op == Op::Ite && self.is_c(a).is_some() && (self.is_c(nb.b).is_some() || self.is_c(nb.c).is_some()) {
            let p = self.ult(a, nb.b);
            let q = self.ult(a, nb.c);
            return self.ite(nb.a, p, q);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return Self::T;
        }
        if let Some(x) = self.is_c(a) {
            if x == 0 {
                return Self::T;
            }
            let w = self.w(a);
            let k = self.cst(x - 1, w);
            return self.ult(k, b);
        }
        if let Some(x) = self.is_c(b) {
            let w = self.w(a);
            if x == mask128(w) {
                return Self::T;
            }
            let k = self.cst(x + 1, w);
            return self.ult(a, k);
        }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return Self::F;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) {
            return self.boolc(sext128(x, w) < sext128(y, w));
        }
        if w <= 64 {
            let s = 1u64 << (w - 1);
            let nn = |c: &Self, e: E| c.kz[e as usize] & s != 0; // known non-negative
            if nn(self, a) && nn(self, b) {
                return self.ult(a, b);
            }
            if let Some(k) = self.is_c(b) {
                if k == 0 {
                    return self.extract(a, w - 1, 1);
                }
                if nn(self, a) && sext128(k, w) < 0 {
                    return Self::F;
                }
            }
            if let Some(k) = self.is_c(a) {
                if nn(self, b) && sext128(k, w) < 0 {
                    return Self::T;
                }
                if k as u64 == mask64(w) {
                    // -1 < b  <=>  b >= 0
                    let x = self.extract(b, w - 1, 1);
                    return self.not(x);
                }
            }
        }
        let (na, nb) = (self.n(a).clone(), self.n(b).clone());
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        if na.op == Op::Ite && self.is_c(b).is_some() && (self.is_c(na.b).is_some() || self.is_c(na.c).is_some()) {
            let p = self.slt(na.b, b);
            let q = self.slt(na.c, b);
            return self.ite(na.a, p, q);
        }
        if nb.op == Op::Ite && self.is_c(a).is_some() && (self.is_c(nb.b).is_some() || self.is_c(nb.c).is_some()) {
            let p = self.slt(a, nb.b);
            let q = self.slt(a, nb.c);
            return self.ite(nb.a, p, q);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return Self::T;
        }
        if let Some(y) = self.is_c(b) {
            if y != mask128(w) >> 1 {
                let k = self.cst(y.wrapping_add(1), w);
                return self.slt(a, k);
            } else {
                return Self::T;
            }
        }
        if let Some(x) = self.is_c(a) {
            if x != 1u128 << (w - 1) {
                let k = self.cst(x.wrapping_sub(1), w);
                return self.slt(k, b);
            } else {
                return Self::T;
            }
        }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }
    pub fn table(&mut self, idx: E, t: Vec<u64>, w: u32) -> E {
        let t = Rc::new(t);
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(t[0] as u128, w);
        }
        let k = if let Some(k) = self.tab_hc.get(&t) {
            *k
        } else {
            let k = self.tables.len() as u32;
            self.tables.push(t.clone());
            self.tab_hc.insert(t, k);
            k
        };
        self.mk(Op::Tab, w, idx, 0, 0, k as u128)
    }

    // ---------- floating point ----------
    pub fn b2f(&mut self, a: E) -> E {
        let n = self.n(a).clone();
        if n.w == 0 {
            return a;
        }
        debug_assert_eq!(n.w, 64);
        let sign = 1u128 << 63;
        match n.op {
            Op::Const => self.fcst(f64::from_bits(n.k as u64)),
            Op::F2B => n.a,
            Op::Xor if self.is_c(n.b) == Some(sign) => {
                let x = self.b2f(n.a);
                self.fneg(x)
            }
            Op::And if self.is_c(n.b) == Some(sign - 1) => {
                let x = self.b2f(n.a);
                self.fabs(x)
            }
            Op::Or if self.is_c(n.b) == Some(sign) => {
                let x = self.b2f(n.a);
                let x = self.fabs(x);
                self.fneg(x)
            }
            Op::Ite => {
                let x = self.b2f(n.b);
                let y = self.b2f(n.c);
                self.fite(n.a, x, y)
            }
            Op::ZExt if self.w(n.a) == 63 => {
                let m = self.n(n.a).clone();
                if m.op == Op::Extract && m.k == 0 && self.w(m.a) == 64 {
                    let x = self.b2f(m.a);
                    return self.fabs(x);
                }
                self.mk(Op::B2F, 0, a, 0, 0, 0)
            }
            _ => self.mk(Op::B2F, 0, a, 0, 0, 0),
        }
    }
    pub fn f2b(&mut self, a: E) -> E {
        let n = self.n(a).clone();
        if n.w != 0 {
            return a;
        }
        match n.op {
            Op::FConst => return self.cst(n.k, 64),
            Op::B2F => return n.a,
            _ => {}
        }
        if self.ground(a) {
            if let Some(x) = self.eval_ieee(a) {
                return self.cst(x.to_bits() as u128, 64);
            }
        }
        self.mk(Op::F2B, 64, a, 0, 0, 0)
    }
    fn eval_ieee(&self, a: E) -> Option<f64> {
        let m = Model::new(HashMap::new());
        match self.eval_m(a, &m, FpMode::Ieee) {
            Some(CV::F(x)) => Some(x),
            _ => None,
        }
    }
    pub fn fneg(&mut self, a: E) -> E {
        if let Some(x) = self.is_fc(a) {
            return self.fcst(-x);
        }
        let n = self.n(a).clone();
        match n.op {
            Op::FNeg => return n.a,
            Op::FSub if self.mode == FpMode::Real => return self.fbin(Op::FSub, n.b, n.a),
            _ => {}
        }
        self.mk(Op::FNeg, 0, a, 0, 0, 0)
    }
    pub fn fabs(&mut self, a: E) -> E {
        if let Some(x) = self.is_fc(a) {
            return self.fcst(x.abs());
        }
        let n = self.n(a).clone();
        match n.op {
            Op::FNeg => return self.fabs(n.a),
            Op::FAbs | Op::FSqrt => return a,
            Op::FSub if n.a > n.b => {
                // |a-b| = |b-a| exactly
                let x = self.mk(Op::FSub, 0, n.b, n.a, 0, 0);
                return self.mk(Op::FAbs, 0, x, 0, 0, 0);
            }
            _ => {}
        }
        self.mk(Op::FAbs, 0, a, 0, 0, 0)
    }
    pub fn fun1(&mut self, op: Op, a: E) -> E {
        if let Some(x) = self.is_fc(a) {
            let r = match op {
                Op::FSqrt => x.sqrt(),
                Op::FFloor => x.floor(),
                Op::FCeil => x.ceil(),
                Op::FTrunc => x.trunc(),
                Op::FRound => x.round_ties_even(),
                _ => unreachable!(),
            };
            return self.fcst(r);
        }
        if op == Op::FSqrt && self.mode == FpMode::Real {
            let n = self.n(a).clone();
            if n.op == Op::FMul && n.a == n.b {
                // sqrt(x*x) = |x|: exact for doubles whose square is exact (grid values)
                return self.fabs(n.a);
            }
        }
        self.mk(op, 0, a, 0, 0, 0)
    }
    pub fn ufun(&mut self, k: u32, a: E, b: E) -> E {
        self.mk(Op::FUn, 0, a, b, 0, k as u128)
    }
    fn small_int(x: f64) -> bool {
        x.fract() == 0. && x.abs() <= 4096.
    }
    pub fn fbin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let real = self.mode == FpMode::Real;
        if let (Some(x), Some(y)) = (self.is_fc(a), self.is_fc(b)) {
            let r = match op {
                FAdd => x + y,
                FSub => x - y,
                FMul => x * y,
                FDiv => x / y,
                FRem => x % y,
                FMin => x.min(y),
                FMax => x.max(y),
                _ => unreachable!(),
            };
            if real && op == FDiv && Self::small_int(x) && Self::small_int(y) && y != 0. && r * y == x && {
                // exact?
                let q = Rat::from_f64(r);
                let e = Rat::new(x as i128, y as i128);
                q != e
            } {
                return self.mk(FDiv, 0, a, b, 0, 0);
            }
            return self.fcst(r);
        }
        if matches!(op, FAdd | FMul | FMin | FMax) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        // exact identities
        for (x, y, right) in [(a, b, true), (b, a, false)] {
            if let Some(k) = self.is_fc(y) {
                match op {
                    FAdd if k == 0. && (real || k.is_sign_negative()) => return x,
                    FSub if right && k == 0. && (real || k.is_sign_positive()) => return x,
                    FMul if k == 1. => return x,
                    FMul if real && k == 0. => return self.fcst(0.),
                    FDiv if right && k == 1. => return x,
                    FDiv if !right && real && k == 0. => return self.fcst(0.),
                    FMul if k == -1. => return self.fneg(x),
                    FSub if !right && real && k == 0. => return self.fneg(x),
                    _ => {}
                }
                if real && !k.is_finite() {
                    match op {
                        FMin => return if k > 0. { x } else { y },
                        FMax => return if k > 0. { y } else { x },
                        FAdd => return y,
                        FSub if right => return self.fcst(-k),
                        FSub => return y,
                        _ => {}
                    }
                }
            }
        }
        match op {
            FMin | FMax if a == b => return a,
            FSub if a == b && real => return self.fcst(0.),
            FMul => {
                let (na, nb) = (self.n(a).clone(), self.n(b).clone());
                if na.op == FNeg && nb.op == FNeg {
                    return self.fbin(FMul, na.a, nb.a);
                }
                if a == b {
                    if na.op == FAbs {
                        return self.fbin(FMul, na.a, na.a);
                    }
                    // (x-y)^2 = (y-x)^2 exactly
                    if na.op == FSub && na.a > na.b {
                        let x = self.mk(FSub, 0, na.b, na.a, 0, 0);
                        return self.mk(FMul, 0, x, x, 0, 0);
                    }
                    if na.op == FSqrt && real {
                        return na.a;
                    }
                }
            }
            FAdd => {
                let (na, nb) = (self.n(a).clone(), self.n(b).clone());
                if nb.op == FNeg {
                    return self.fbin(FSub, a, nb.a);
                }
                if na.op == FNeg {
                    return self.fbin(FSub, b, na.a);
                }
            }
            FSub => {
                let nb = self.n(b).clone();
                if nb.op == FNeg {
                    return self.fbin(FAdd, a, nb.a);
                }
            }
            _ => {}
        }
        self.mk(op, 0, a, b, 0, 0)
    }
    pub fn fite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_c(c) {
            return if k != 0 { a } else { b };
        }
        let a = self.b2f(a);
        let b = self.b2f(b);
        if a == b {
            return a;
        }
        let n = self.n(c).clone();
        if n.op == Op::Xor && self.is_c(n.b) == Some(1) {
            return self.fite(n.a, b, a);
        }
        self.mk(Op::FIte, 0, c, a, b, 0)
    }
    fn ground_rat(&self, e: E) -> Option<Rat> {
        if !self.ground(e) {
            return None;
        }
        let m = Model::new(HashMap::new());
        match self.eval_m(e, &m, FpMode::Real) {
            Some(CV::R(r)) => Some(r),
            _ => None,
        }
    }
    pub fn feq(&mut self, mut a: E, mut b: E) -> E {
        if let (Some(x), Some(y)) = (self.is_fc(a), self.is_fc(b)) {
            return self.boolc(x == y);
        }
        let real = self.mode == FpMode::Real;
        if real {
            if a == b {
                return Self::T;
            }
            for y in [a, b] {
                if let Some(k) = self.is_fc(y) {
                    if !k.is_finite() {
                        return Self::F;
                    }
                }
            }
            if let (Some(x), Some(y)) = (self.ground_rat(a), self.ground_rat(b)) {
                return self.boolc(x == y);
            }
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::FEq, 1, a, b, 0, 0)
    }
    fn fcmp_pre(&mut self, a: E, b: E, strict: bool) -> Option<E> {
        if let (Some(x), Some(y)) = (self.is_fc(a), self.is_fc(b)) {
            return Some(self.boolc(if strict { x < y } else { x <= y }));
        }
        if self.mode == FpMode::Real {
            if a == b {
                return Some(self.boolc(!strict));
            }
            if let Some(k) = self.is_fc(a) {
                if k.is_nan() || k == f64::INFINITY {
                    return Some(Self::F);
                }
                if k == f64::NEG_INFINITY {
                    return Some(Self::T);
                }
            }
            if let Some(k) = self.is_fc(b) {
                if k.is_nan() || k == f64::NEG_INFINITY {
                    return Some(Self::F);
                }
                if k == f64::INFINITY {
                    return Some(Self::T);
                }
            }
            if let (Some(x), Some(y)) = (self.ground_rat(a), self.ground_rat(b)) {
                let o = x.cmp(y)?;
                return Some(self.boolc(if strict { o.is_lt() } else { o.is_le() }));
            }
            // sign facts
            let nonneg = |c: &Self, e: E| {
                let n = c.n(e);
                matches!(n.op, Op::FAbs | Op::FSqrt) || (n.op == Op::FMul && n.a == n.b)
            };
            if strict && self.is_fc(b) == Some(0.) && nonneg(self, a) {
                return Some(Self::F);
            }
            if !strict && self.is_fc(a) == Some(0.) && nonneg(self, b) {
                return Some(Self::T);
            }
        }
        None
    }
    pub fn flt(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.fcmp_pre(a, b, true) {
            return r;
        }
        self.mk(Op::FLt, 1, a, b, 0, 0)
    }
    pub fn fle(&mut self, a: E, b: E) -> E {
        if let Some(r) = self.fcmp_pre(a, b, false) {
            return r;
        }
        self.mk(Op::FLe, 1, a, b, 0, 0)
    }
    pub fn fnan(&mut self, a: E) -> E {
        if let Some(x) = self.is_fc(a) {
            return self.boolc(x.is_nan());
        }
        if self.mode == FpMode::Real {
            return Self::F;
        }
        self.mk(Op::FNan, 1, a, 0, 0, 0)
    }
    pub fn i2f(&mut self, a: E, signed: bool) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_c(a) {
            return self.fcst(if signed { sext128(k, w) as f64 } else { k as f64 });
        }
        self.mk(if signed { Op::SI2F } else { Op::UI2F }, 0, a, 0, 0, 0)
    }
    pub fn f2i(&mut self, a: E, w: u32, signed: bool) -> E {
        let n = self.n(a).clone();
        match n.op {
            Op::FConst => {
                let x = f64::from_bits(n.k as u64);
                let k = if signed { x as i128 as u128 } else { x as u128 };
                return self.cst(k, w);
            }
            Op::SI2F if signed && self.w(n.a) <= 53 => return self.sext(n.a, w.max(self.w(n.a))),
            Op::UI2F if self.w(n.a) <= 53 => return self.zext(n.a, w.max(self.w(n.a))),
            _ => {}
        }
        self.mk(if signed { Op::F2SI } else { Op::F2UI }, w, a, 0, 0, 0)
    }

    // ---------- evaluation ----------
    pub fn eval(&self, e: E, m: &Model) -> Option<CV> {
        self.eval_m(e, m, self.mode)
    }
    pub fn eval_m(&self, e: E, m: &Model, mode: FpMode) -> Option<CV> {
        // iterative post-order to avoid deep recursion
        if let Some(v) = m.memo.borrow().get(&e) {
            return *v;
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if m.memo.borrow().contains_key(&x) {
                st.pop();
                continue;
            }
            let n = &self.nodes[x as usize];
            let mut ready = true;
            for (i, k) in [n.a, n.b, n.c].iter().enumerate() {
                if i < Self::kids(n) && !m.memo.borrow().contains_key(k) {
                    st.push(*k);
                    ready = false;
                }
            }
            if ready {
                let v = self.eval1(n, m, mode);
                m.memo.borrow_mut().insert(x, v);
                st.pop();
            }
        }
        let r = m.memo.borrow()[&e];
        r
    }
    fn eval1(&self, n: &Node, m: &Model, mode: FpMode) -> Option<CV> {
        use Op::*;
        let memo = m.memo.borrow();
        let g = |e: E| -> Option<CV> { memo[&e] };
        let gb = |e: E| -> Option<u128> {
            match g(e)? {
                CV::B(x) => Some(x),
                _ => None,
            }
        };
        let w = n.w as u32;
        let real = mode == FpMode::Real;
        let fout = |x: f64| -> Option<CV> {
            if real {
                Some(CV::R(Rat::from_f64(x)?))
            } else {
                Some(CV::F(x))
            }
        };
        macro_rules! b {
            ($x:expr) => {
                Some(CV::B($x as u128 & mask128(w)))
            };
        }
        match n.op {
            Const => b!(n.k),
            Var | FVar => Some(m.vals.get(&(n.k as u32)).copied().unwrap_or_else(|| crate::exec::default_of(self, n.k as u32))),
            Add | Sub | Mul | And | Or | Xor | UDiv | SDiv | URem | SRem | Shl | LShr | AShr => {
                let r = Self::fold_bin(n.op, w, gb(n.a)?, gb(n.b)?)?;
                b!(r)
            }
            Concat => b!(gb(n.a)? << self.w(n.b) | gb(n.b)?),
            Extract => b!(gb(n.a)? >> n.k),
            ZExt => b!(gb(n.a)?),
            SExt => b!(sext128(gb(n.a)?, self.w(n.a))),
            Ite | FIte => {
                if gb(n.a)? != 0 {
                    g(n.b)
                } else {
                    g(n.c)
                }
            }
            Eq => b!(gb(n.a)? == gb(n.b)?),
            Ult => b!(gb(n.a)? < gb(n.b)?),
            Ule => b!(gb(n.a)? <= gb(n.b)?),
            Slt | Sle => {
                let wa = self.w(n.a);
                let (x, y) = (sext128(gb(n.a)?, wa), sext128(gb(n.b)?, wa));
                b!(if n.op == Slt { x < y } else { x <= y })
            }
            Tab => {
                let i = gb(n.a)? as usize;
                b!(*self.tables[n.k as usize].get(i)?)
            }
            FConst => fout(f64::from_bits(n.k as u64)),
            FAdd | FSub | FMul | FDiv | FMin | FMax | FRem => match (g(n.a)?, g(n.b)?) {
                (CV::R(x), CV::R(y)) => Some(CV::R(match n.op {
                    FAdd => x.add(y)?,
                    FSub => x.add(Rat { n: -y.n, d: y.d })?,
                    FMul => x.mul(y)?,
                    FDiv => {
                        if y.n == 0 {
                            return None;
                        }
                        x.mul(Rat::new(y.d, y.n)?)?
                    }
                    FMin => {
                        if x.cmp(y)?.is_le() {
                            x
                        } else {
                            y
                        }
                    }
                    FMax => {
                        if x.cmp(y)?.is_ge() {
                            x
                        } else {
                            y
                        }
                    }
                    _ => return None,
                })),
                (CV::F(x), CV::F(y)) => Some(CV::F(match n.op {
                    FAdd => x + y,
                    FSub => x - y,
                    FMul => x * y,
                    FDiv => x / y,
                    FMin => x.min(y),
                    FMax => x.max(y),
                    _ => x % y,
                })),
                _ => None,
            },
            FNeg => match g(n.a)? {
                CV::R(x) => Some(CV::R(Rat { n: -x.n, d: x.d })),
                CV::F(x) => Some(CV::F(-x)),
                _ => None,
            },
            FAbs => match g(n.a)? {
                CV::R(x) => Some(CV::R(Rat { n: x.n.abs(), d: x.d })),
                CV::F(x) => Some(CV::F(x.abs())),
                _ => None,
            },
            FSqrt => match g(n.a)? {
                CV::R(x) => {
                    let s = |v: i128| -> Option<i128> {
                        if v < 0 {
                            return None;
                        }
                        let r = (v as f64).sqrt().round() as i128;
                        for c in [r - 1, r, r + 1] {
                            if c >= 0 && c.checked_mul(c) == Some(v) {
                                return Some(c);
                            }
                        }
                        None
                    };
                    Some(CV::R(Rat::new(s(x.n)?, s(x.d)?)?))
                }
                CV::F(x) => Some(CV::F(x.sqrt())),
                _ => None,
            },
            FFloor | FCeil | FTrunc | FRound => match g(n.a)? {
                CV::R(x) => {
                    let fl = x.n.div_euclid(x.d);
                    let r = match n.op {
                        FFloor => fl,
                        FCeil => -((-x.n).div_euclid(x.d)),
                        FTrunc => x.n / x.d,
                        _ => return None,
                    };
                    Some(CV::R(Rat::new(r, 1)?))
                }
                CV::F(x) => Some(CV::F(match n.op {
                    FFloor => x.floor(),
                    FCeil => x.ceil(),
                    FTrunc => x.trunc(),
                    _ => x.round_ties_even(),
                })),
                _ => None,
            },
            FUn => None,
            SI2F => {
                let x = sext128(gb(n.a)?, self.w(n.a));
                if real {
                    Some(CV::R(Rat::new(x, 1)?))
                } else {
                    Some(CV::F(x as f64))
                }
            }
            UI2F => {
                let x = gb(n.a)?;
                if real {
                    Some(CV::R(Rat::new(x as i128, 1)?))
                } else {
                    Some(CV::F(x as f64))
                }
            }
            B2F => fout(f64::from_bits(gb(n.a)? as u64)),
            FEq | FLt | FLe => {
                let r = match (g(n.a)?, g(n.b)?) {
                    (CV::R(x), CV::R(y)) => {
                        let o = x.cmp(y)?;
                        match n.op {
                            FEq => o.is_eq(),
                            FLt => o.is_lt(),
                            _ => o.is_le(),
                        }
                    }
                    (CV::F(x), CV::F(y)) => match n.op {
                        FEq => x == y,
                        FLt => x < y,
                        _ => x <= y,
                    },
                    _ => return None,
                };
                b!(r)
            }
            FNan => match g(n.a)? {
                CV::F(x) => b!(x.is_nan()),
                CV::R(_) => b!(false),
                _ => None,
            },
            F2B => match g(n.a)? {
                CV::F(x) => b!(x.to_bits()),
                CV::R(x) => {
                    let f = x.to_f64();
                    b!(f.to_bits())
                }
                _ => None,
            },
            F2SI => match g(n.a)? {
                CV::F(x) => b!(x as i128),
                CV::R(x) => b!(x.n / x.d),
                _ => None,
            },
            F2UI => match g(n.a)? {
                CV::F(x) => b!(x as u128),
                CV::R(x) => b!((x.n / x.d).max(0)),
                _ => None,
            },
        }
    }

    /// the byte variable a condition depends on, if it depends on exactly one byte variable
    pub fn byte_var(&self, e: E) -> Option<u32> {
        let s = self.sv[e as usize];
        if s == 0 || s == MULTI {
            return None;
        }
        match self.vars[s as usize - 1].kind {
            VarKind::Byte(_) => Some(s - 1),
            VarKind::Int { w: _, lo: _, hi } if hi <= 255 => Some(s - 1),
            _ => None,
        }
    }
    pub fn init_domain(&self, v: u32) -> Set {
        match &self.vars[v as usize].kind {
            VarKind::Byte(s) => *s,
            VarKind::Int { lo, hi, .. } => {
                let mut s = [0u64; 4];
                for b in *lo..=*hi {
                    s[(b >> 6) as usize] |= 1 << (b & 63);
                }
                s
            }
            _ => unreachable!(),
        }
    }
    /// values of the single byte variable for which the boolean expression is true
    pub fn truth_set(&mut self, e: E) -> Option<Set> {
        if let Some(s) = self.truth.get(&e) {
            return Some(*s);
        }
        let v = self.byte_var(e)?;
        let dom = self.init_domain(v);
        let mut s = [0u64; 4];
        for b in 0..=255u8 {
            if !set_has(&dom, b) {
                continue;
            }
            let mut a = HashMap::new();
            a.insert(v, CV::B(b as u128));
            let m = Model::new(a);
            match self.eval(e, &m)? {
                CV::B(x) => {
                    if x != 0 {
                        s[(b >> 6) as usize] |= 1 << (b & 63);
                    }
                }
                _ => return None,
            }
        }
        self.truth.insert(e, s);
        Some(s)
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "…".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::FConst => format!("{}", f64::from_bits(n.k as u64)),
            Op::Var | Op::FVar => self.vars[n.k as usize].name.clone(),
            _ => {
                let k = self.children(e).iter().map(|x| self.show(*x, depth - 1)).collect::<Vec<_>>().join(" ");
                format!("({:?}{} {})", n.op, if n.op == Op::Extract { format!("[{}+{}]", n.k, n.w) } else { String::new() }, k)
            }
        }
    }
}
