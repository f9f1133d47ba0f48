//! Translation of expressions to Z3 and incremental checking.
use crate::expr::*;
use crate::ffi::*;
use crate::val::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::time::Instant;

pub enum Res {
    Sat(Assign),
    Unsat,
    Unknown(String),
}

pub struct Solver {
    c: P,
    s: P,
    cache: Vec<P>,
    var_done: usize,
    base: Vec<P>,
    nbase: usize,
    stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub maxq_us: u64,
    dom_lits: HashMap<(u32, Set), P>,
    varast: Vec<P>,
    bool_s: P,
    int_s: P,
    real_s: P,
    fp_s: P,
    rne: P,
    pub log: Option<std::fs::File>,
    pub timeout_ms: u32,
    fresh: u64,
    nz: bool,
}

extern "C" fn errh(_c: P, e: i32) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(errh));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, c"timeout".as_ptr()), timeout_ms);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, c"random_seed".as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            let fp_s = Z3_mk_fpa_sort_64(c);
            Solver {
                c,
                s,
                cache: vec![],
                var_done: 0,
                base: vec![],
                nbase: 0,
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time_us: 0,
                maxq_us: 0,
                dom_lits: HashMap::new(),
                varast: vec![],
                bool_s: Z3_mk_bool_sort(c),
                int_s: Z3_mk_int_sort(c),
                real_s: Z3_mk_real_sort(c),
                fp_s,
                rne: Z3_mk_fpa_rne(c),
                log: None,
                timeout_ms,
                fresh: 0,
                nz: false,
            }
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    unsafe fn bv(&self, w: u32) -> P {
        Z3_mk_bv_sort(self.c, w)
    }
    unsafe fn num(&self, s: &str, sort: P) -> P {
        let cs = CString::new(s).unwrap();
        Z3_mk_numeral(self.c, cs.as_ptr(), sort)
    }
    unsafe fn konst(&self, name: &str, sort: P) -> P {
        let cs = CString::new(name).unwrap();
        Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs.as_ptr()), sort)
    }
    unsafe fn and(&self, v: &[P]) -> P {
        Z3_mk_and(self.c, v.len() as u32, v.as_ptr())
    }
    unsafe fn or(&self, v: &[P]) -> P {
        Z3_mk_or(self.c, v.len() as u32, v.as_ptr())
    }

    fn sync_vars(&mut self, cx: &Ctx) {
        unsafe {
            while self.var_done < cx.vars.len() {
                let v = &cx.vars[self.var_done];
                let c = self.c;
                let a = match &v.kind {
                    VarKind::Int { w, lo, hi } => {
                        let s = self.bv(*w);
                        let a = self.konst(&v.name, s);
                        Z3_inc_ref(c, a);
                        if *lo > 0 {
                            let k = Z3_mk_unsigned_int64(c, *lo, s);
                            self.base.push(Z3_mk_bvule(c, k, a));
                        }
                        if *hi < mask64(*w) {
                            let k = Z3_mk_unsigned_int64(c, *hi, s);
                            self.base.push(Z3_mk_bvule(c, a, k));
                        }
                        a
                    }
                    VarKind::Byte(set) => {
                        let s = self.bv(8);
                        let a = self.konst(&v.name, s);
                        Z3_inc_ref(c, a);
                        if *set != [u64::MAX; 4] {
                            let m = self.member(a, set);
                            self.base.push(m);
                        }
                        a
                    }
                    VarKind::Grid { lo, hi, .. } => {
                        let a = self.konst(&v.name, self.int_s);
                        Z3_inc_ref(c, a);
                        let l = Z3_mk_int64(c, *lo, self.int_s);
                        let h = Z3_mk_int64(c, *hi, self.int_s);
                        self.base.push(Z3_mk_le(c, l, a));
                        self.base.push(Z3_mk_le(c, a, h));
                        a
                    }
                    VarKind::AnyF64 { finite } => {
                        let s = self.bv(64);
                        let a = self.konst(&v.name, s);
                        Z3_inc_ref(c, a);
                        if *finite {
                            let e = Z3_mk_extract(c, 62, 52, a);
                            let k = Z3_mk_unsigned_int64(c, 0x7ff, self.bv(11));
                            self.base.push(Z3_mk_not(c, Z3_mk_eq(c, e, k)));
                        }
                        a
                    }
                };
                self.varast.push(a);
                self.var_done += 1;
            }
        }
    }
    unsafe fn member(&self, a: P, set: &Set) -> P {
        let c = self.c;
        let s = self.bv(8);
        let mut ors = vec![];
        let mut b = 0u32;
        while b < 256 {
            if set_has(set, b as u8) {
                let st = b;
                while b < 255 && set_has(set, (b + 1) as u8) {
                    b += 1;
                }
                let l = Z3_mk_unsigned_int64(c, st as u64, s);
                if st == b {
                    ors.push(Z3_mk_eq(c, a, l));
                } else {
                    let h = Z3_mk_unsigned_int64(c, b as u64, s);
                    ors.push(self.and(&[Z3_mk_bvule(c, l, a), Z3_mk_bvule(c, a, h)]));
                }
            }
            b += 1;
        }
        if ors.len() == 1 {
            ors[0]
        } else {
            self.or(&ors)
        }
    }

    pub fn tr(&mut self, cx: &Ctx, e: E) -> P {
        self.sync_vars(cx);
        if self.cache.len() < cx.nodes.len() {
            self.cache.resize(cx.nodes.len(), std::ptr::null_mut());
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if !self.cache[x as usize].is_null() {
                st.pop();
                continue;
            }
            let mut ready = true;
            for k in cx.children(x) {
                if self.cache[k as usize].is_null() {
                    st.push(k);
                    ready = false;
                }
            }
            if ready {
                unsafe {
                    let a = self.tr1(cx, x);
                    Z3_inc_ref(self.c, a);
                    self.cache[x as usize] = a;
                }
                st.pop();
            }
        }
        self.cache[e as usize]
    }
    unsafe fn real_num(&mut self, x: f64) -> P {
        if x.is_nan() {
            self.fresh += 1;
            return self.konst(&format!("nan!{}", self.fresh), self.real_s);
        }
        let s = if x.is_infinite() {
            let mut s = String::from(if x > 0. { "1" } else { "-1" });
            s.push_str(&"0".repeat(330));
            s
        } else {
            // exact decimal expansion
            let mut s = format!("{:.1100}", x);
            while s.ends_with('0') {
                s.pop();
            }
            if s.ends_with('.') {
                s.push('0');
            }
            s
        };
        self.num(&s, self.real_s)
    }
    unsafe fn tr1(&mut self, cx: &Ctx, e: E) -> P {
        use Op::*;
        let c = self.c;
        let n = cx.n(e).clone();
        let w = n.w as u32;
        let real = cx.mode == FpMode::Real;
        let k = |x: E| self.cache[x as usize];
        let b2bv = |s: &Self, x: E| -> P {
            // expression as a bit vector even if Bool
            let a = s.cache[x as usize];
            if cx.w(x) == 1 {
                let sb = s.bv(1);
                Z3_mk_ite(c, a, Z3_mk_unsigned_int64(c, 1, sb), Z3_mk_unsigned_int64(c, 0, sb))
            } else {
                a
            }
        };
        let tobool = |s: &Self, a: P| -> P {
            let sb = s.bv(1);
            Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, sb))
        };
        match n.op {
            Const => {
                if w == 1 {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.num(&n.k.to_string(), self.bv(w))
                }
            }
            Var => {
                let a = self.varast[n.k as usize];
                if w == 1 {
                    tobool(self, a)
                } else {
                    a
                }
            }
            And | Or | Xor if w == 1 => {
                let v = [k(n.a), k(n.b)];
                match n.op {
                    And => self.and(&v),
                    Or => self.or(&v),
                    _ => {
                        if cx.is_c(n.b) == Some(1) {
                            Z3_mk_not(c, v[0])
                        } else {
                            Z3_mk_xor(c, v[0], v[1])
                        }
                    }
                }
            }
            Add | Sub | Mul | UDiv | SDiv | URem | SRem | Shl | LShr | AShr | And | Or | Xor => {
                let (a, b) = (b2bv(self, n.a), b2bv(self, n.b));
                let r = match n.op {
                    Add => Z3_mk_bvadd(c, a, b),
                    Sub => Z3_mk_bvsub(c, a, b),
                    Mul => Z3_mk_bvmul(c, a, b),
                    UDiv => Z3_mk_bvudiv(c, a, b),
                    SDiv => Z3_mk_bvsdiv(c, a, b),
                    URem => Z3_mk_bvurem(c, a, b),
                    SRem => Z3_mk_bvsrem(c, a, b),
                    Shl => Z3_mk_bvshl(c, a, b),
                    LShr => Z3_mk_bvlshr(c, a, b),
                    AShr => Z3_mk_bvashr(c, a, b),
                    And => Z3_mk_bvand(c, a, b),
                    Or => Z3_mk_bvor(c, a, b),
                    _ => Z3_mk_bvxor(c, a, b),
                };
                if w == 1 {
                    tobool(self, r)
                } else {
                    r
                }
            }
            Concat => Z3_mk_concat(c, b2bv(self, n.a), b2bv(self, n.b)),
            Extract => {
                let r = Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, b2bv(self, n.a));
                if w == 1 {
                    tobool(self, r)
                } else {
                    r
                }
            }
            ZExt => Z3_mk_zero_ext(c, w - cx.w(n.a), b2bv(self, n.a)),
            SExt => Z3_mk_sign_ext(c, w - cx.w(n.a), b2bv(self, n.a)),
            Ite | FIte => Z3_mk_ite(c, k(n.a), k(n.b), k(n.c)),
            Eq => Z3_mk_eq(c, k(n.a), k(n.b)),
            Ult => Z3_mk_bvult(c, b2bv(self, n.a), b2bv(self, n.b)),
            Ule => Z3_mk_bvule(c, b2bv(self, n.a), b2bv(self, n.b)),
            Slt => Z3_mk_bvslt(c, b2bv(self, n.a), b2bv(self, n.b)),
            Sle => Z3_mk_bvsle(c, b2bv(self, n.a), b2bv(self, n.b)),
            Tab => {
                let t = cx.tables[n.k as usize].clone();
                let ix = b2bv(self, n.a);
                let wi = cx.w(n.a);
                // group by value; most frequent value is the default
                let mut groups: Vec<(u64, Vec<u64>)> = vec![];
                for (i, v) in t.iter().enumerate() {
                    match groups.iter_mut().find(|g| g.0 == *v) {
                        Some(g) => g.1.push(i as u64),
                        None => groups.push((*v, vec![i as u64])),
                    }
                }
                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                let mkv = |s: &Self, v: u64| {
                    if w == 1 {
                        if v != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        Z3_mk_unsigned_int64(c, v, s.bv(w))
                    }
                };
                let mut r = mkv(self, groups[0].0);
                for g in &groups[1..] {
                    let ors: Vec<P> = g.1.iter().map(|i| Z3_mk_eq(c, ix, Z3_mk_unsigned_int64(c, *i, self.bv(wi)))).collect();
                    let cond = if ors.len() == 1 { ors[0] } else { self.or(&ors) };
                    r = Z3_mk_ite(c, cond, mkv(self, g.0), r);
                }
                r
            }
            FConst => {
                let x = f64::from_bits(n.k as u64);
                if real {
                    self.real_num(x)
                } else {
                    let b = Z3_mk_unsigned_int64(c, n.k as u64, self.bv(64));
                    Z3_mk_fpa_to_fp_bv(c, b, self.fp_s)
                }
            }
            FVar => {
                let a = self.varast[n.k as usize];
                match &cx.vars[n.k as usize].kind {
                    VarKind::Grid { den, lo, hi } => {
                        if real {
                            let r = Z3_mk_int2real(c, a);
                            if *den == 1 {
                                r
                            } else {
                                let d = self.num(&format!("1/{den}"), self.real_s);
                                let v = [r, d];
                                Z3_mk_mul(c, 2, v.as_ptr())
                            }
                        } else {
                            // Ieee: integer -> signed bv -> fp, divided by the denominator
                            let bits = 64 - lo.unsigned_abs().max(hi.unsigned_abs()).leading_zeros() + 1;
                            let b = Z3_mk_int2bv(c, bits, a);
                            let f = Z3_mk_fpa_to_fp_signed(c, self.rne, b, self.fp_s);
                            if *den == 1 {
                                f
                            } else {
                                let d = Z3_mk_unsigned_int64(c, (*den as f64).to_bits(), self.bv(64));
                                let d = Z3_mk_fpa_to_fp_bv(c, d, self.fp_s);
                                Z3_mk_fpa_div(c, self.rne, f, d)
                            }
                        }
                    }
                    _ => Z3_mk_fpa_to_fp_bv(c, a, self.fp_s),
                }
            }
            FAdd | FSub | FMul | FDiv | FRem | FMin | FMax => {
                let (a, b) = (k(n.a), k(n.b));
                let v = [a, b];
                if real {
                    match n.op {
                        FAdd => Z3_mk_add(c, 2, v.as_ptr()),
                        FSub => Z3_mk_sub(c, 2, v.as_ptr()),
                        FMul => Z3_mk_mul(c, 2, v.as_ptr()),
                        FDiv => Z3_mk_div(c, a, b),
                        FMin => Z3_mk_ite(c, Z3_mk_le(c, a, b), a, b),
                        FMax => Z3_mk_ite(c, Z3_mk_le(c, b, a), a, b),
                        _ => {
                            self.fresh += 1;
                            self.konst(&format!("rem!{}", self.fresh), self.real_s)
                        }
                    }
                } else {
                    match n.op {
                        FAdd => Z3_mk_fpa_add(c, self.rne, a, b),
                        FSub => Z3_mk_fpa_sub(c, self.rne, a, b),
                        FMul => Z3_mk_fpa_mul(c, self.rne, a, b),
                        FDiv => Z3_mk_fpa_div(c, self.rne, a, b),
                        FMin => Z3_mk_ite(c, Z3_mk_fpa_leq(c, a, b), a, Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, b), a, b)),
                        FMax => Z3_mk_ite(c, Z3_mk_fpa_leq(c, b, a), a, Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, b), a, b)),
                        _ => {
                            self.fresh += 1;
                            self.konst(&format!("rem!{}", self.fresh), self.fp_s)
                        }
                    }
                }
            }
            FNeg => {
                if real {
                    Z3_mk_unary_minus(c, k(n.a))
                } else {
                    Z3_mk_fpa_neg(c, k(n.a))
                }
            }
            FAbs => {
                let a = k(n.a);
                if real {
                    let z = self.num("0", self.real_s);
                    Z3_mk_ite(c, Z3_mk_lt(c, a, z), Z3_mk_unary_minus(c, a), a)
                } else {
                    Z3_mk_fpa_abs(c, a)
                }
            }
            FSqrt => {
                let a = k(n.a);
                if real {
                    let s = self.konst(&format!("sqrt!{e}"), self.real_s);
                    let z = self.num("0", self.real_s);
                    let v = [s, s];
                    let sq = Z3_mk_mul(c, 2, v.as_ptr());
                    self.base.push(Z3_mk_le(c, z, s));
                    let neg = Z3_mk_lt(c, a, z);
                    self.base.push(self.or(&[neg, Z3_mk_eq(c, sq, a)]));
                    self.nz = true;
                    s
                } else {
                    Z3_mk_fpa_sqrt(c, self.rne, a)
                }
            }
            FFloor | FCeil | FTrunc | FRound => {
                let a = k(n.a);
                if real {
                    let fl = |x: P| Z3_mk_int2real(c, Z3_mk_real2int(c, x));
                    let neg = |x: P| Z3_mk_unary_minus(c, x);
                    let z = self.num("0", self.real_s);
                    match n.op {
                        FFloor => fl(a),
                        FCeil => neg(fl(neg(a))),
                        FTrunc => Z3_mk_ite(c, Z3_mk_lt(c, a, z), neg(fl(neg(a))), fl(a)),
                        _ => {
                            let h = self.num("1/2", self.real_s);
                            let v = [a, h];
                            fl(Z3_mk_add(c, 2, v.as_ptr()))
                        }
                    }
                } else {
                    let rm = match n.op {
                        FFloor => Z3_mk_fpa_rtn(c),
                        FCeil => Z3_mk_fpa_rtp(c),
                        FTrunc => Z3_mk_fpa_rtz(c),
                        _ => self.rne,
                    };
                    Z3_mk_fpa_round_to_integral(c, rm, a)
                }
            }
            FUn => {
                let s = if real { self.real_s } else { self.fp_s };
                self.konst(&format!("fun!{e}"), s)
            }
            SI2F | UI2F => {
                let a = b2bv(self, n.a);
                if real {
                    Z3_mk_int2real(c, Z3_mk_bv2int(c, a, n.op == SI2F))
                } else if n.op == SI2F {
                    Z3_mk_fpa_to_fp_signed(c, self.rne, a, self.fp_s)
                } else {
                    Z3_mk_fpa_to_fp_unsigned(c, self.rne, a, self.fp_s)
                }
            }
            B2F => {
                if real {
                    // opaque real for an arbitrary bit pattern
                    self.konst(&format!("b2f!{e}"), self.real_s)
                } else {
                    Z3_mk_fpa_to_fp_bv(c, k(n.a), self.fp_s)
                }
            }
            FEq | FLt | FLe => {
                let (a, b) = (k(n.a), k(n.b));
                if real {
                    match n.op {
                        FEq => Z3_mk_eq(c, a, b),
                        FLt => Z3_mk_lt(c, a, b),
                        _ => Z3_mk_le(c, a, b),
                    }
                } else {
                    match n.op {
                        FEq => Z3_mk_fpa_eq(c, a, b),
                        FLt => Z3_mk_fpa_lt(c, a, b),
                        _ => Z3_mk_fpa_leq(c, a, b),
                    }
                }
            }
            FNan => {
                if real {
                    Z3_mk_false(c)
                } else {
                    Z3_mk_fpa_is_nan(c, k(n.a))
                }
            }
            F2B => {
                if real {
                    let s = self.bv(64);
                    self.konst(&format!("f2b!{e}"), s)
                } else {
                    Z3_mk_fpa_to_ieee_bv(c, k(n.a))
                }
            }
            F2SI | F2UI => {
                let a = k(n.a);
                if real {
                    // truncation towards zero
                    let z = self.num("0", self.real_s);
                    let neg = |x: P| Z3_mk_unary_minus(c, x);
                    let i = Z3_mk_ite(
                        c,
                        Z3_mk_lt(c, a, z),
                        neg(Z3_mk_real2int(c, neg(a))),
                        Z3_mk_real2int(c, a),
                    );
                    Z3_mk_int2bv(c, w, i)
                } else if n.op == F2SI {
                    Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, w)
                } else {
                    Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, w)
                }
            }
        }
    }

    fn dom_lit(&mut self, cx: &Ctx, v: u32, set: &Set) -> P {
        self.sync_vars(cx);
        if let Some(p) = self.dom_lits.get(&(v, *set)) {
            return *p;
        }
        unsafe {
            let c = self.c;
            let a = self.varast[v as usize];
            let a8 = match cx.vars[v as usize].kind {
                VarKind::Int { w, .. } if w > 8 => Z3_mk_extract(c, 7, 0, a),
                VarKind::Int { w, .. } if w < 8 => Z3_mk_zero_ext(c, 8 - w, a),
                _ => a,
            };
            let m = self.member(a8, set);
            Z3_inc_ref(c, m);
            self.dom_lits.insert((v, *set), m);
            m
        }
    }

    /// Is pc /\ doms /\ extra satisfiable?
    pub fn check(&mut self, cx: &Ctx, pc: &[E], doms: &[(u32, Set)], extra: &[E]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        unsafe {
            let c = self.c;
            let ex: Vec<P> = extra.iter().map(|e| self.tr(cx, *e)).collect();
            let asm: Vec<P> = doms.iter().map(|(v, s)| self.dom_lit(cx, *v, s)).collect();
            let tpc: Vec<P> = pc.iter().map(|e| self.tr(cx, *e)).collect();
            self.sync_vars(cx);
            for b in &self.base[self.nbase..] {
                Z3_inc_ref(c, *b);
            }
            if self.nbase < self.base.len() {
                // new base facts: rebuild
                if !self.stack.is_empty() {
                    Z3_solver_pop(c, self.s, self.stack.len() as u32);
                    self.stack.clear();
                }
                for b in &self.base[self.nbase..] {
                    Z3_solver_assert(c, self.s, *b);
                }
                self.nbase = self.base.len();
            }
            let mut common = 0;
            while common < self.stack.len() && common < pc.len() && self.stack[common] == pc[common] {
                common += 1;
            }
            if self.stack.len() > common {
                Z3_solver_pop(c, self.s, (self.stack.len() - common) as u32);
                self.stack.truncate(common);
            }
            for i in common..pc.len() {
                Z3_solver_push(c, self.s);
                Z3_solver_assert(c, self.s, tpc[i]);
                self.stack.push(pc[i]);
            }
            Z3_solver_push(c, self.s);
            for e in asm.iter().chain(&ex) {
                Z3_solver_assert(c, self.s, *e);
            }
            let r = Z3_solver_check(c, self.s);
            let out = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = Assign::new();
                    for (i, v) in cx.vars.iter().enumerate() {
                        if i >= self.varast.len() {
                            break;
                        }
                        let mut o = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, self.varast[i], true, &mut o) {
                            continue;
                        }
                        Z3_inc_ref(c, o);
                        let cv = match &v.kind {
                            VarKind::Int { .. } | VarKind::Byte(_) => {
                                let mut x = 0u64;
                                Z3_get_numeral_uint64(c, o, &mut x);
                                CV::B(x as u128)
                            }
                            VarKind::Grid { den, .. } => {
                                let mut x = 0i64;
                                Z3_get_numeral_int64(c, o, &mut x);
                                if cx.mode == FpMode::Real {
                                    CV::R(Rat::new(x as i128, *den as i128).unwrap())
                                } else {
                                    CV::F(x as f64 / *den as f64)
                                }
                            }
                            VarKind::AnyF64 { .. } => {
                                let mut x = 0u64;
                                Z3_get_numeral_uint64(c, o, &mut x);
                                CV::F(f64::from_bits(x))
                            }
                        };
                        vals.insert(i as u32, cv);
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(vals)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(c, self.s)).to_string_lossy().into_owned())
                }
            };
            Z3_solver_pop(c, self.s, 1);
            let us = t0.elapsed().as_micros() as u64;
            self.time_us += us;
            self.maxq_us = self.maxq_us.max(us);
            out
        }
    }
}
