//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: u32,
    pub norm: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum LogV {
    U(Val),
    F(Val),
    Bytes(Vec<Val>),
}

/// One open or stored file
#[derive(Clone)]
pub struct FileObj {
    pub data: Obj,
}
#[derive(Clone, Default)]
pub struct Env {
    pub files: BTreeMap<Vec<u8>, Rc<FileObj>>,
    pub fds: BTreeMap<i32, (Vec<u8>, u64, u32)>, // path, position, flags
    pub dirs: HashSet<Vec<u8>>,
    pub next_fd: i32,
    pub limit: Option<u64>,
    /// symbolic limit, and whether it has been reached
    pub limit_e: Option<E>,
    pub full: bool,
    pub errno: u32,
    pub counters: HashMap<String, u32>,
    pub clock: u64,
    pub tsd: HashMap<u32, u64>,
    pub hooks: HashMap<String, u64>,
    pub ok_panic: bool,
    pub ok_exit: bool,
    pub texts: Vec<E>,
}

/// A suspended thread
#[derive(Clone)]
pub struct Susp {
    pub stack: Vec<Rc<Frame>>,
    pub fr: Frame,
}
/// Threads of the code under test. They run one at a time; which one is decided by the harness (vx_resume), and they
/// stop where they call vx_yield, block or end.
#[derive(Clone, Default)]
pub struct Threads {
    pub v: Vec<Option<Susp>>,
    /// the running one, and the suspended harness with the destination of the pending vx_resume
    pub cur: Option<usize>,
    pub main: Option<(Susp, u32, Option<u32>)>,
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Rc<Frame>>,
    pub fr: Frame,
    pub thr: Rc<Threads>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub dom: Rc<HashMap<u32, Set>>,
    pub ent: Rc<HashSet<u32>>,
    pub known: Rc<HashMap<E, bool>>,
    pub model: Rc<Model>,
    pub logs: Vec<(String, LogV)>,
    pub covers: Rc<Vec<String>>,
    pub env: Rc<Env>,
    pub insns: u64,
    pub checks: u32,
    pub depth: u32,
}

#[derive(Debug, Clone)]
pub enum End {
    Return,
    Panic(String),
    Assume,
    Violation(String),
    Exit(i32),
    Unsup(String),
    Limit(String),
}

#[derive(Clone, Debug)]
pub struct PathEnd {
    pub end: End,
    pub vals: Vec<(String, String)>,
    pub logs: Vec<(String, String)>,
    pub covers: Vec<String>,
    pub insns: u64,
    pub trace: Vec<String>,
    pub nvars: usize,
    pub checks: u32,
    pub ok_panic: bool,
    pub ok_exit: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub insns: u64,
    pub checks_proved: u64,
    pub checks_conc: u64,
    pub inconclusive: u64,
    pub decide_dom: u64,
    pub decide_model: u64,
}

pub enum Stop {
    End(End),
}
pub type R<T> = Result<T, Stop>;

pub struct Engine {
    pub md: Module,
    pub cx: Ctx,
    pub sol: Solver,
    pub pending: Vec<State>,
    pub st: Stats,
    pub covers: HashMap<String, u64>,
    pub funcs_run: HashSet<u32>,
    pub errno_obj: u32,
    pub max_insns: u64,
    pub varset: HashMap<E, Rc<Vec<u32>>>,
    pub deadline: Option<Instant>,
    pub incomplete: Vec<String>,
    pub trace_calls: bool,
    pub asm_seen: HashSet<String>,
    pub models_used: HashSet<String>,
    pub hot: HashMap<u32, u64>,
    pub forkpts: HashMap<String, u64>,
    pub proflog: bool,
    pub prefix_memo: HashMap<u32, bool>,
    pub violations: Vec<PathEnd>,
    pub check_ids: HashMap<String, u64>,
}

pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::End(End::Unsup(s.into())))
}

impl Engine {
    pub fn new(path: &str, mode: FpMode, timeout_ms: u32) -> (Engine, Mem) {
        let mut md = Module::load(path);
        let mut mem = Mem::new();
        // allocate globals
        for i in 0..md.gvars.len() {
            let g = &md.gvars[i];
            let o = Obj::new(g.size as usize, if g.constant { OKind::Const } else { OKind::Global });
            let id = mem.alloc(o);
            let a = if g.init.is_null() && g.size == 0 { 0 } else { addr_of(id) };
            md.gaddr.insert(g.v as usize, a);
        }
        for i in 0..md.gvars.len() {
            let init = md.gvars[i].init;
            if init.is_null() {
                continue;
            }
            let a = md.gaddr[&(md.gvars[i].v as usize)];
            let mut buf = vec![0u8; md.gvars[i].size as usize];
            md.init_bytes(init, &mut buf);
            mem.get_mut(split(a).0).unwrap().data = buf;
        }
        let errno_obj = mem.alloc(Obj::new(4, OKind::Global));
        crate::models::bind(&mut md);
        (
            Engine {
                md,
                cx: Ctx::new(mode),
                sol: Solver::new(timeout_ms),
                pending: vec![],
                st: Stats::default(),
                covers: HashMap::new(),
                funcs_run: HashSet::new(),
                errno_obj,
                max_insns: 400_000_000,
                varset: HashMap::new(),
                deadline: None,
                incomplete: vec![],
                trace_calls: false,
                asm_seen: HashSet::new(),
                models_used: HashSet::new(),
                hot: HashMap::new(),
                forkpts: HashMap::new(),
                proflog: std::env::var("SYMX_PROF").is_ok(),
                prefix_memo: HashMap::new(),
                violations: vec![],
                check_ids: HashMap::new(),
            },
            mem,
        )
    }

    pub fn initial(&mut self, entry: &str, args: &[u64], mem: Mem) -> State {
        let f = *self.md.fn_by_name.get(entry).unwrap_or_else(|| panic!("no function {entry}"));
        let body = self.md.body(f);
        self.funcs_run.insert(f);
        let mut regs = vec![Val::I(0); body.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            regs[i] = Val::I(*a);
        }
        State {
            stack: vec![],
            fr: Frame { f: body, bb: 0, pc: 0, regs, allocas: vec![], dst: NOREG, norm: None },
            thr: Rc::new(Threads::default()),
            mem,
            pc: vec![],
            dom: Rc::new(HashMap::new()),
            ent: Rc::new(HashSet::new()),
            known: Rc::new(HashMap::new()),
            model: Rc::new(Model::new(HashMap::new())),
            logs: vec![],
            covers: Rc::new(vec![]),
            env: Rc::new(Env { next_fd: 3, clock: 1_000_000_000, ..Default::default() }),
            insns: 0,
            checks: 0,
            depth: 0,
        }
    }

    // ---------------- constraint handling ----------------
    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.varset.get(&e) {
            return v.clone();
        }
        let mut seen = HashSet::new();
        let mut out = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if self.cx.sv[x as usize] == 0 {
                continue;
            }
            let n = self.cx.n(x);
            if n.op == Op::Var || n.op == Op::FVar {
                out.push(n.k as u32);
            }
            st.extend(self.cx.children(x));
        }
        out.sort();
        let r = Rc::new(out);
        self.varset.insert(e, r.clone());
        r
    }
    fn doms_for(&mut self, s: &State, e: &[E]) -> Vec<(u32, Set)> {
        let mut vs: HashSet<u32> = s.ent.iter().copied().collect();
        for x in e {
            vs.extend(self.vars_of(*x).iter());
        }
        let mut o: Vec<(u32, Set)> = vs.iter().filter_map(|v| s.dom.get(v).map(|d| (*v, *d))).collect();
        o.sort();
        o
    }
    pub fn query(&mut self, s: &State, e: &[E]) -> Res {
        let d = self.doms_for(s, e);
        let t = self.sol.time_us;
        let r = self.sol.check(&self.cx, &s.pc, &d, e);
        if self.proflog {
            let dt = self.sol.time_us - t;
            if dt > 300_000 {
                eprintln!("slow query {} ms: {} ({})", dt / 1000, e.iter().map(|x| self.cx.show(*x, 7)).collect::<Vec<_>>().join(" & "), match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
                if dt > 3_000_000 { for p in &s.pc { eprintln!("    pc {}", self.cx.show(*p, 9)); } }
            }
        }
        match r {
            Res::Sat(mut vals) => {
                // variables outside the query keep the values the path already has for them
                let mut vs: HashSet<u32> = s.ent.iter().copied().collect();
                for x in e {
                    vs.extend(self.vars_of(*x).iter());
                }
                for v in 0..self.cx.vars.len() as u32 {
                    if !vs.contains(&v) {
                        match s.model.vals.get(&v) {
                            Some(c) => {
                                vals.insert(v, *c);
                            }
                            None => {
                                vals.remove(&v);
                            }
                        }
                    }
                }
                Res::Sat(vals)
            }
            r => r,
        }
    }
    pub fn default_val(&self, v: u32) -> CV {
        default_of(&self.cx, v)
    }
    /// add a fact known to be satisfied by the state's model
    pub fn add(&mut self, s: &mut State, c: E) {
        if self.cx.is_c(c).is_some() {
            return;
        }
        let n = self.cx.n(c).clone();
        if n.op == Op::And && n.w == 1 {
            self.add(s, n.a);
            self.add(s, n.b);
            return;
        }
        if let Some(v) = self.cx.byte_var(c) {
            if let Some(t) = self.cx.truth_set(c) {
                let cur = s.dom.get(&v).copied().unwrap_or_else(|| self.cx.init_domain(v));
                let nd = set_and(&cur, &t);
                if nd != cur {
                    Rc::make_mut(&mut s.dom).insert(v, nd);
                }
                return;
            }
        }
        s.pc.push(c);
        let vs = self.vars_of(c);
        let ent = Rc::make_mut(&mut s.ent);
        for v in vs.iter() {
            ent.insert(*v);
        }
        Rc::make_mut(&mut s.known).insert(c, true);
        let nc = self.cx.not(c);
        Rc::make_mut(&mut s.known).insert(nc, false);
    }
    fn with_model(&self, s: &mut State, vals: Assign) {
        s.model = Rc::new(Model::new(vals));
    }
    /// Decide a branch. If both outcomes are feasible the other one is queued as a copy of the state
    /// *at the current instruction*; callers must not have side effects before deciding.
    pub fn decide(&mut self, s: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.cx.is_c(c) {
            return Ok(k != 0);
        }
        if let Some(b) = s.known.get(&c) {
            return Ok(*b);
        }
        let nc = self.cx.not(c);
        if let Some(v) = self.cx.byte_var(c) {
            if let Some(t) = self.cx.truth_set(c) {
                let cur = s.dom.get(&v).copied().unwrap_or_else(|| self.cx.init_domain(v));
                let yes = set_and(&cur, &t);
                let no = set_and(&cur, &set_not(&t));
                if set_empty(&no) {
                    return Ok(true);
                }
                if set_empty(&yes) {
                    return Ok(false);
                }
                if !s.ent.contains(&v) {
                    // unconstrained otherwise: both sides are feasible
                    self.st.decide_dom += 1;
                    let mv = s.model.vals.get(&v).copied().unwrap_or_else(|| self.default_val(v));
                    let side = match mv {
                        CV::B(x) => set_has(&t, x as u8),
                        _ => unreachable!(),
                    };
                    let mut o = self.fork_at(s);
                    let od = if side { no } else { yes };
                    Rc::make_mut(&mut o.dom).insert(v, od);
                    let mut vals = o.model.vals.clone();
                    vals.insert(v, CV::B(set_first(&od) as u128));
                    self.with_model(&mut o, vals);
                    self.push_pending(o);
                    Rc::make_mut(&mut s.dom).insert(v, if side { yes } else { no });
                    return Ok(side);
                }
            }
        }
        let side = match self.eval_state(s, c) {
            Some(b) => Some(b),
            None => None,
        };
        match side {
            Some(b) => {
                let other = if b { nc } else { c };
                let same = if b { c } else { nc };
                self.st.decide_model += 1;
                match self.query(s, &[other]) {
                    Res::Unsat => {
                        let k = Rc::make_mut(&mut s.known);
                        k.insert(c, b);
                        k.insert(nc, !b);
                        Ok(b)
                    }
                    Res::Sat(vals) => {
                        let mut o = self.fork_at(s);
                        self.with_model(&mut o, vals);
                        self.add(&mut o, other);
                        self.push_pending(o);
                        self.add(s, same);
                        Ok(b)
                    }
                    Res::Unknown(r) => {
                        self.st.inconclusive += 1;
                        self.note(format!("solver unknown at a branch ({r})"));
                        // keep both: over-approximate feasibility
                        let mut o = self.fork_at(s);
                        self.add(&mut o, other);
                        self.push_pending(o);
                        self.add(s, same);
                        Ok(b)
                    }
                }
            }
            None => {
                let a = self.query(s, &[c]);
                let b = self.query(s, &[nc]);
                match (a, b) {
                    (Res::Unsat, Res::Unsat) => Err(Stop::End(End::Assume)),
                    (Res::Unsat, _) => {
                        let k = Rc::make_mut(&mut s.known);
                        k.insert(c, false);
                        k.insert(nc, true);
                        Ok(false)
                    }
                    (_, Res::Unsat) => {
                        let k = Rc::make_mut(&mut s.known);
                        k.insert(c, true);
                        k.insert(nc, false);
                        Ok(true)
                    }
                    (ra, rb) => {
                        let mut o = self.fork_at(s);
                        match rb {
                            Res::Sat(v) => self.with_model(&mut o, v),
                            Res::Unknown(r) => {
                                self.st.inconclusive += 1;
                                self.note(format!("solver unknown at a branch ({r})"))
                            }
                            _ => {}
                        }
                        self.add(&mut o, nc);
                        self.push_pending(o);
                        match ra {
                            Res::Sat(v) => self.with_model(s, v),
                            Res::Unknown(r) => {
                                self.st.inconclusive += 1;
                                self.note(format!("solver unknown at a branch ({r})"))
                            }
                            _ => {}
                        }
                        self.add(s, c);
                        Ok(true)
                    }
                }
            }
        }
    }
    pub fn note(&mut self, s: String) {
        if self.incomplete.len() < 20 && !self.incomplete.contains(&s) {
            self.incomplete.push(s);
        }
    }
    fn fork_at(&mut self, s: &State) -> State {
        self.st.forks += 1;
        if self.proflog {
            let mut n = self.md.fns[s.fr.f.idx as usize].name.clone();
            n = format!("{}:{}:{}", demangle(&n), s.fr.bb, s.fr.pc);
            *self.forkpts.entry(n).or_insert(0) += 1;
        }
        let mut o = s.clone();
        o.depth += 1;
        o
    }
    fn push_pending(&mut self, s: State) {
        self.pending.push(s);
    }
    pub fn eval_state(&self, s: &State, e: E) -> Option<bool> {
        match self.cx.eval(e, &s.model) {
            Some(CV::B(x)) => Some(x != 0),
            _ => None,
        }
    }
    pub fn assume(&mut self, s: &mut State, c: E) -> R<()> {
        if let Some(k) = self.cx.is_c(c) {
            return if k != 0 { Ok(()) } else { Err(Stop::End(End::Assume)) };
        }
        if let Some(b) = s.known.get(&c) {
            return if *b { Ok(()) } else { Err(Stop::End(End::Assume)) };
        }
        if let Some(v) = self.cx.byte_var(c) {
            if let Some(t) = self.cx.truth_set(c) {
                let cur = s.dom.get(&v).copied().unwrap_or_else(|| self.cx.init_domain(v));
                let yes = set_and(&cur, &t);
                if set_empty(&yes) {
                    return Err(Stop::End(End::Assume));
                }
                if !s.ent.contains(&v) {
                    if yes != cur {
                        Rc::make_mut(&mut s.dom).insert(v, yes);
                        let mv = s.model.vals.get(&v).copied().unwrap_or_else(|| self.default_val(v));
                        if let CV::B(x) = mv {
                            if !set_has(&yes, x as u8) {
                                let mut vals = s.model.vals.clone();
                                vals.insert(v, CV::B(set_first(&yes) as u128));
                                self.with_model(s, vals);
                            }
                        }
                    }
                    return Ok(());
                }
            }
        }
        if self.eval_state(s, c) != Some(true) {
            match self.query(s, &[c]) {
                Res::Unsat => return Err(Stop::End(End::Assume)),
                Res::Sat(v) => self.with_model(s, v),
                Res::Unknown(r) => {
                    self.st.inconclusive += 1;
                    self.note(format!("solver unknown at an assumption ({r})"));
                }
            }
        }
        self.add(s, c);
        Ok(())
    }
    /// pick a feasible concrete value, queueing the remaining values
    pub fn concretize(&mut self, s: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::E(e) => {
                let e = if self.cx.w(*e) == 0 { self.cx.f2b(*e) } else { *e };
                if let Some(k) = self.cx.is_c(e) {
                    return Ok(k as u64);
                }
                let _ = w;
                let mut tries = 0;
                loop {
                    tries += 1;
                    if tries > 4 {
                        return unsup("cannot concretise an expression");
                    }
                    let k = match self.cx.eval(e, &s.model) {
                        Some(CV::B(x)) => x,
                        _ => {
                            // refine the model with the solver
                            match self.query(s, &[]) {
                                Res::Sat(v) => self.with_model(s, v),
                                _ => return unsup("cannot evaluate an expression to concretise"),
                            }
                            match self.cx.eval(e, &s.model) {
                                Some(CV::B(x)) => x,
                                _ => return unsup(format!("cannot concretise {}", self.cx.show(e, 4))),
                            }
                        }
                    };
                    let ww = self.cx.w(e);
                    let kc = self.cx.cst(k, ww);
                    let c = self.cx.eq(e, kc);
                    if self.decide(s, c)? {
                        return Ok(k as u64);
                    }
                }
            }
            Val::A(_) => unsup("concretise aggregate"),
        }
    }

    // ---------------- values ----------------
    #[inline]
    pub fn get(&self, s: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => s.fr.regs[*r as usize].clone(),
            Opnd::C(v) => v.clone(),
        }
    }
    /// expression of a scalar integer/pointer value
    pub fn ex(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.cx.cst(*x as u128, w),
            Val::W(x) => self.cx.cst(**x, w),
            Val::E(e) => {
                if self.cx.w(*e) == 0 {
                    self.cx.f2b(*e)
                } else {
                    *e
                }
            }
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    /// expression of a double value
    pub fn fx(&mut self, v: &Val) -> E {
        match v {
            Val::I(x) => self.cx.fcst(f64::from_bits(*x)),
            Val::E(e) => {
                if self.cx.w(*e) == 0 {
                    *e
                } else {
                    self.cx.b2f(*e)
                }
            }
            _ => panic!("bad float value {v:?}"),
        }
    }
    pub fn val(&self, e: E) -> Val {
        let n = self.cx.n(e);
        match n.op {
            Op::Const => Val::from_w(n.k, n.w as u32),
            Op::FConst => Val::I(n.k as u64),
            _ => Val::E(e),
        }
    }

    // ---------------- memory ----------------
    pub fn resolve<'a>(&self, s: &'a State, a: u64, n: u64) -> R<(u32, usize, &'a Rc<Obj>)> {
        let (id, off) = split(a);
        match s.mem.get(id) {
            Some(o) => {
                if off + n <= o.data.len() as u64 {
                    Ok((id, off as usize, o))
                } else {
                    unsup(format!("out-of-bounds access: object of {} bytes, offset {off}, {n} bytes", o.data.len()))
                }
            }
            None => unsup(format!("access to invalid address {a:#x} ({n} bytes)")),
        }
    }
    pub fn load_scalar(&mut self, s: &State, a: u64, ty: &Ty) -> R<Val> {
        let w = ty.w();
        let n = ty.store_size();
        let (_, off, o) = self.resolve(s, a, n)?;
        if o.sym.is_none() {
            return Ok(Self::load_conc(o, off, n as usize, w));
        }
        let o = o.clone();
        Ok(self.load_from(&o, off, n as usize, w))
    }
    fn load_conc(o: &Obj, off: usize, n: usize, w: u32) -> Val {
        if n == 8 {
            return Val::I(u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap()) & mask64(w));
        }
        let mut x = 0u128;
        for i in (0..n).rev() {
            x = x << 8 | o.data[off + i] as u128;
        }
        Val::from_w(x, w)
    }
    pub fn load_from(&mut self, o: &Obj, off: usize, n: usize, w: u32) -> Val {
        let sy = match &o.sym {
            Some(x) if x[off..off + n].iter().any(|b| b.e != u32::MAX) => x,
            _ => return Self::load_conc(o, off, n, w),
        };
        let first = sy[off];
        if first.e != u32::MAX && first.i == 0 && (1..n).all(|i| sy[off + i] == SB { e: first.e, i: i as u8 }) {
            let we = self.cx.w(first.e);
            let we8 = if we == 0 { 64 } else { we };
            if we8 == n as u32 * 8 {
                if w == we8 {
                    return Val::E(first.e);
                }
                let x = self.cx.trunc(first.e, w);
                return self.val(x);
            }
        }
        let mut acc: Option<E> = None;
        for i in (0..n).rev() {
            let b = self.byte_of(o, off + i);
            acc = Some(match acc {
                None => b,
                Some(h) => self.cx.concat(h, b),
            });
        }
        let x = self.cx.trunc(acc.unwrap(), w);
        self.val(x)
    }
    pub fn byte_of(&mut self, o: &Obj, off: usize) -> E {
        match &o.sym {
            Some(sy) if sy[off].e != u32::MAX => {
                let b = sy[off];
                let e = if self.cx.w(b.e) == 0 { self.cx.f2b(b.e) } else { b.e };
                self.cx.extract(e, b.i as u32 * 8, 8)
            }
            _ => self.cx.cst(o.data[off] as u128, 8),
        }
    }
    pub fn store_scalar(&mut self, s: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        let n = ty.store_size() as usize;
        let (id, off) = split(a);
        let o = match s.mem.get_mut(id) {
            Some(o) => o,
            None => return unsup(format!("store to invalid address {a:#x}")),
        };
        let off = off as usize;
        if off + n > o.data.len() {
            return unsup(format!("out-of-bounds store: object of {} bytes, offset {off}, {n} bytes", o.data.len()));
        }
        if o.kind == OKind::Const {
            return unsup("store to constant memory");
        }
        match v {
            Val::I(x) => {
                if n <= 8 {
                    let b = x.to_le_bytes();
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + n].fill(0);
                    o.data[off..off + 8].copy_from_slice(&x.to_le_bytes());
                }
                o.set_conc(off, n);
            }
            Val::W(x) => {
                let b = x.to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                o.set_conc(off, n);
            }
            Val::E(e) => {
                let mut e = *e;
                let we = self.cx.w(e);
                if we != 0 && we != n as u32 * 8 {
                    e = self.cx.zext(e, n as u32 * 8);
                }
                o.set_sym(off, n, e);
            }
            Val::A(_) => return unsup("store aggregate as scalar"),
        }
        Ok(())
    }
    pub fn load(&mut self, s: &State, a: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Vec(n, e) => {
                if **e == Ty::I(1) {
                    let w = *n;
                    let x = self.load_scalar(s, a, &Ty::I(w))?;
                    let mut v = vec![];
                    for i in 0..w {
                        v.push(match &x {
                            Val::E(e) => {
                                let b = self.cx.extract(*e, i, 1);
                                self.val(b)
                            }
                            _ => Val::I((x.u128() >> i) as u64 & 1),
                        });
                    }
                    return Ok(Val::A(Rc::new(v)));
                }
                let sz = e.store_size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 {
                    v.push(self.load_scalar(s, a + i * sz, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Agg(g) => {
                let mut v = vec![];
                for (off, t) in &g.elems {
                    v.push(self.load(s, a + off, t)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Other | Ty::Void => unsup("load of an unsupported type"),
            _ => self.load_scalar(s, a, ty),
        }
    }
    pub fn store(&mut self, s: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        match ty {
            Ty::Vec(n, e) => {
                if **e == Ty::I(1) {
                    let x = self.bitcast(&Ty::Vec(*n, e.clone()), &Ty::I(*n), v)?;
                    return self.store_scalar(s, a, &Ty::I(*n), &x);
                }
                let sz = e.store_size();
                if let Val::A(xs) = v {
                    for (i, x) in xs.iter().enumerate() {
                        self.store_scalar(s, a + i as u64 * sz, e, x)?;
                    }
                    Ok(())
                } else {
                    unsup("store non-vector as vector")
                }
            }
            Ty::Agg(g) => {
                if let Val::A(xs) = v {
                    for ((off, t), x) in g.elems.iter().zip(xs.iter()) {
                        self.store(s, a + off, t, x)?;
                    }
                    Ok(())
                } else {
                    unsup("store non-aggregate as aggregate")
                }
            }
            Ty::Other | Ty::Void => unsup("store of an unsupported type"),
            _ => self.store_scalar(s, a, ty, v),
        }
    }
    pub fn copy_bytes(&mut self, s: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (_, so, o) = self.resolve(s, src, n)?;
        let (so, n) = (so, n as usize);
        let data = o.data[so..so + n].to_vec();
        let sy = o.sym.as_ref().filter(|v| v[so..so + n].iter().any(|b| b.e != u32::MAX)).map(|v| v[so..so + n].to_vec());
        self.put_bytes(s, dst, &data, sy.as_deref())
    }
    pub fn put_bytes(&mut self, s: &mut State, dst: u64, data: &[u8], sy: Option<&[SB]>) -> R<()> {
        let n = data.len();
        if n == 0 {
            return Ok(());
        }
        let (id, off) = split(dst);
        let off = off as usize;
        let o = match s.mem.get_mut(id) {
            Some(o) => o,
            None => return unsup(format!("copy to invalid address {dst:#x}")),
        };
        if off + n > o.data.len() {
            return unsup(format!("out-of-bounds copy: object of {} bytes, offset {off}, {n} bytes", o.data.len()));
        }
        if o.kind == OKind::Const {
            return unsup("copy to constant memory");
        }
        o.data[off..off + n].copy_from_slice(data);
        match sy {
            Some(v) => {
                let len = o.data.len();
                let t = o.sym.get_or_insert_with(|| vec![CONC; len]);
                t[off..off + n].copy_from_slice(v);
            }
            None => o.set_conc(off, n),
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, s: &State, a: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (_, off, o) = self.resolve(s, a, n)?;
        let o = o.clone();
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let e = match &o.sym {
                Some(sy) if sy[off + i].e != u32::MAX => {
                    let e = self.byte_of(&o, off + i);
                    self.val(e)
                }
                _ => Val::I(o.data[off + i] as u64),
            };
            v.push(e);
        }
        Ok(v)
    }
    pub fn read_conc(&mut self, s: &State, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (_, off, o) = self.resolve(s, a, n)?;
        if let Some(sy) = &o.sym {
            if sy[off..off + n as usize].iter().any(|b| b.e != u32::MAX) {
                return unsup("symbolic bytes where concrete ones are needed");
            }
        }
        Ok(o.data[off..off + n as usize].to_vec())
    }
    pub fn cstr(&mut self, s: &State, a: u64) -> R<Vec<u8>> {
        let (_, off, o) = self.resolve(s, a, 1)?;
        let o = o.clone();
        let mut v = vec![];
        for i in off..o.data.len() {
            if let Some(sy) = &o.sym {
                if sy[i].e != u32::MAX {
                    return unsup("symbolic C string");
                }
            }
            if o.data[i] == 0 {
                return Ok(v);
            }
            v.push(o.data[i]);
        }
        unsup("unterminated C string")
    }
    pub fn heap(&mut self, s: &mut State, n: u64, kind: OKind) -> R<u64> {
        if n > 1 << 31 {
            return unsup(format!("allocation of {n} bytes"));
        }
        let id = s.mem.alloc(Obj::new(n as usize, kind));
        Ok(addr_of(id))
    }

    // ---------------- instruction semantics ----------------
    pub fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let m = mask64(w);
                let (x, y) = (*x, *y);
                let r = match op {
                    Bin::Add => x.wrapping_add(y),
                    Bin::Sub => x.wrapping_sub(y),
                    Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y,
                    Bin::Or => x | y,
                    Bin::Xor => x ^ y,
                    Bin::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Bin::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bin::AShr => (sext64(x, w) >> y.min(63)) as u64,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                        if y == 0 {
                            return unsup("division by zero");
                        }
                        match op {
                            Bin::UDiv => x / y,
                            Bin::URem => x % y,
                            Bin::SDiv => sext64(x, w).wrapping_div(sext64(y, w)) as u64,
                            _ => sext64(x, w).wrapping_rem(sext64(y, w)) as u64,
                        }
                    }
                };
                return Ok(Val::I(r & m));
            }
        }
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
        };
        if a.is_conc() && b.is_conc() {
            return match Ctx::fold_bin(o, w, a.u128(), b.u128()) {
                Some(r) => Ok(Val::from_w(r, w)),
                None => unsup("division by zero"),
            };
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.cx.bin(o, x, y);
        Ok(self.val(e))
    }
    fn lanewise2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> R<Val>) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(f(self, p, q)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => f(self, a, b),
        }
    }
    fn fbin_conc(op: FBin, f32_: bool, x: u64, y: u64) -> u64 {
        if f32_ {
            let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            (match op {
                FBin::Add => a + b,
                FBin::Sub => a - b,
                FBin::Mul => a * b,
                FBin::Div => a / b,
                FBin::Rem => a % b,
            })
            .to_bits() as u64
        } else {
            let (a, b) = (f64::from_bits(x), f64::from_bits(y));
            (match op {
                FBin::Add => a + b,
                FBin::Sub => a - b,
                FBin::Mul => a * b,
                FBin::Div => a / b,
                FBin::Rem => a % b,
            })
            .to_bits()
        }
    }
    pub fn fbin(&mut self, op: FBin, f32_: bool, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if !(op == FBin::Div && !f32_ && self.cx.mode == FpMode::Real) {
                return Ok(Val::I(Self::fbin_conc(op, f32_, *x, *y)));
            }
        } else if f32_ {
            return unsup("symbolic f32");
        }
        let (x, y) = (self.fx(a), self.fx(b));
        let o = match op {
            FBin::Add => Op::FAdd,
            FBin::Sub => Op::FSub,
            FBin::Mul => Op::FMul,
            FBin::Div => Op::FDiv,
            FBin::Rem => Op::FRem,
        };
        let e = self.cx.fbin(o, x, y);
        Ok(self.val(e))
    }
    /// the quotient if the divisor vanishes
    fn div_zero(&mut self, s: &mut State, p: &Val, q: &Val) -> R<Option<Val>> {
        let (x, y) = (self.fx(p), self.fx(q));
        let zero = self.cx.fcst(0.);
        let c = self.cx.feq(y, zero);
        if !self.decide(s, c)? {
            return Ok(None);
        }
        let c = self.cx.feq(x, zero);
        let r = if self.decide(s, c)? {
            f64::NAN
        } else {
            let c = self.cx.flt(x, zero);
            if self.decide(s, c)? {
                f64::NEG_INFINITY
            } else {
                f64::INFINITY
            }
        };
        Ok(Some(Val::I(r.to_bits())))
    }
    pub fn icmp(&mut self, p: IPred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                IPred::Eq => x == y,
                IPred::Ne => x != y,
                IPred::Ugt => x > y,
                IPred::Uge => x >= y,
                IPred::Ult => x < y,
                IPred::Ule => x <= y,
                IPred::Sgt => sext64(x, w) > sext64(y, w),
                IPred::Sge => sext64(x, w) >= sext64(y, w),
                IPred::Slt => sext64(x, w) < sext64(y, w),
                IPred::Sle => sext64(x, w) <= sext64(y, w),
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let c = &mut self.cx;
        let e = match p {
            IPred::Eq => c.eq(x, y),
            IPred::Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            IPred::Ugt => c.ult(y, x),
            IPred::Uge => c.ule(y, x),
            IPred::Ult => c.ult(x, y),
            IPred::Ule => c.ule(x, y),
            IPred::Sgt => c.slt(y, x),
            IPred::Sge => c.sle(y, x),
            IPred::Slt => c.slt(x, y),
            IPred::Sle => c.sle(x, y),
        };
        self.val(e)
    }
    pub fn fcmp(&mut self, p: u8, f32_: bool, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = if f32_ {
                (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64)
            } else {
                (f64::from_bits(*x), f64::from_bits(*y))
            };
            let uno = x.is_nan() || y.is_nan();
            let bits = p & 7;
            let r = (bits & 1 != 0 && x == y) || (bits & 2 != 0 && x > y) || (bits & 4 != 0 && x < y);
            return Ok(Val::I((r || (p & 8 != 0 && uno)) as u64));
        }
        if f32_ {
            return unsup("symbolic f32");
        }
        let (x, y) = (self.fx(a), self.fx(b));
        let c = &mut self.cx;
        // ordered part
        let bits = p & 7;
        let ord = match bits {
            0 => Ctx::F,
            1 => c.feq(x, y),
            2 => c.flt(y, x),
            3 => c.fle(y, x),
            4 => c.flt(x, y),
            5 => c.fle(x, y),
            6 => {
                let (l, g) = (c.flt(x, y), c.flt(y, x));
                c.or(l, g)
            }
            _ => {
                let (l, g) = (c.fnan(x), c.fnan(y));
                let u = c.or(l, g);
                c.not(u)
            }
        };
        let e = if p & 8 != 0 && c.mode == FpMode::Ieee {
            // unordered variants as negations of ordered ones where possible
            match bits {
                0 | 7 => {
                    let (l, g) = (c.fnan(x), c.fnan(y));
                    let u = c.or(l, g);
                    c.or(u, ord)
                }
                1 => {
                    // ueq = not (lt or gt)
                    let (l, g) = (c.flt(x, y), c.flt(y, x));
                    let o = c.or(l, g);
                    c.not(o)
                }
                2 => {
                    let o = c.fle(x, y);
                    c.not(o)
                }
                3 => {
                    let o = c.flt(x, y);
                    c.not(o)
                }
                4 => {
                    let o = c.fle(y, x);
                    c.not(o)
                }
                5 => {
                    let o = c.flt(y, x);
                    c.not(o)
                }
                _ => {
                    let o = c.feq(x, y);
                    c.not(o)
                }
            }
        } else if bits == 6 && c.mode == FpMode::Real {
            let o = c.feq(x, y);
            c.not(o)
        } else {
            ord
        };
        Ok(self.val(e))
    }
    pub fn bitcast(&mut self, f: &Ty, t: &Ty, v: &Val) -> R<Val> {
        match (f, t) {
            (Ty::Vec(..), Ty::Vec(..)) | (Ty::Vec(..), _) | (_, Ty::Vec(..)) => {
                // through a flat bit vector
                let flat: Val = match (f, v) {
                    (Ty::Vec(_, e), Val::A(xs)) => {
                        let w = e.w();
                        if xs.iter().all(|x| x.is_conc()) && w as usize * xs.len() <= 128 {
                            let mut acc = 0u128;
                            for (i, x) in xs.iter().enumerate() {
                                acc |= x.u128() << (i as u32 * w);
                            }
                            Val::from_w(acc, w * xs.len() as u32)
                        } else {
                            if w as usize * xs.len() > 128 {
                                return self.bitcast_wide(f, t, v);
                            }
                            let mut acc: Option<E> = None;
                            for x in xs.iter().rev() {
                                let b = self.ex(x, w);
                                acc = Some(match acc {
                                    None => b,
                                    Some(h) => self.cx.concat(h, b),
                                });
                            }
                            self.val(acc.unwrap())
                        }
                    }
                    _ => v.clone(),
                };
                match t {
                    Ty::Vec(n, e) => {
                        let w = e.w();
                        let mut o = vec![];
                        for i in 0..*n {
                            o.push(match &flat {
                                Val::E(x) => {
                                    let b = self.cx.extract(*x, i * w, w);
                                    self.val(b)
                                }
                                _ => Val::from_w(flat.u128() >> (i * w), w),
                            });
                        }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => Ok(flat),
                }
            }
            _ => Ok(v.clone()),
        }
    }
    fn bitcast_wide(&mut self, f: &Ty, t: &Ty, v: &Val) -> R<Val> {
        // vectors wider than 128 bits with lane sizes that are multiples of 8
        let (Ty::Vec(_, fe), Ty::Vec(tn, te), Val::A(xs)) = (f, t, v) else {
            return unsup("wide bitcast");
        };
        let (fw, tw) = (fe.w(), te.w());
        let mut bytes: Vec<E> = vec![];
        for x in xs.iter() {
            let e = self.ex(x, fw);
            for i in 0..fw / 8 {
                bytes.push(self.cx.extract(e, i * 8, 8));
            }
        }
        let k = (tw / 8) as usize;
        let mut o = vec![];
        for i in 0..*tn as usize {
            let mut acc = bytes[i * k];
            for j in 1..k {
                acc = self.cx.concat(bytes[i * k + j], acc);
            }
            o.push(self.val(acc));
        }
        Ok(Val::A(Rc::new(o)))
    }
    fn cast1(&mut self, k: Cast, f: &Ty, t: &Ty, v: &Val) -> R<Val> {
        let (fw, tw) = (f.w(), t.w());
        match k {
            Cast::Trunc => match v {
                Val::E(_) => {
                    let e = self.ex(v, fw);
                    let x = self.cx.trunc(e, tw);
                    Ok(self.val(x))
                }
                _ => Ok(Val::from_w(v.u128(), tw)),
            },
            Cast::ZExt => match v {
                Val::E(_) => {
                    let e = self.ex(v, fw);
                    let x = self.cx.zext(e, tw);
                    Ok(self.val(x))
                }
                _ => Ok(Val::from_w(v.u128(), tw)),
            },
            Cast::SExt => match v {
                Val::E(_) => {
                    let e = self.ex(v, fw);
                    let x = self.cx.sext(e, tw);
                    Ok(self.val(x))
                }
                _ => Ok(Val::from_w(sext128(v.u128(), fw) as u128, tw)),
            },
            Cast::UIToFP | Cast::SIToFP => {
                let sg = k == Cast::SIToFP;
                match v {
                    Val::E(_) => {
                        if *t == Ty::F32 {
                            return unsup("symbolic f32");
                        }
                        let e = self.ex(v, fw);
                        let x = self.cx.i2f(e, sg);
                        Ok(self.val(x))
                    }
                    _ => {
                        let x = v.u128();
                        Ok(if *t == Ty::F32 {
                            let r = if sg { sext128(x, fw) as f32 } else { x as f32 };
                            Val::I(r.to_bits() as u64)
                        } else {
                            let r = if sg { sext128(x, fw) as f64 } else { x as f64 };
                            Val::I(r.to_bits())
                        })
                    }
                }
            }
            Cast::FPToSI | Cast::FPToUI => {
                let sg = k == Cast::FPToSI;
                match v {
                    Val::E(_) => {
                        let e = self.fx(v);
                        let x = self.cx.f2i(e, tw, sg);
                        Ok(self.val(x))
                    }
                    _ => {
                        let x = if *f == Ty::F32 { f32::from_bits(v.i() as u32) as f64 } else { f64::from_bits(v.i()) };
                        Ok(Val::from_w(if sg { x as i128 as u128 } else { x as u128 }, tw))
                    }
                }
            }
            Cast::FPExt => match v {
                Val::I(x) => Ok(Val::I((f32::from_bits(*x as u32) as f64).to_bits())),
                _ => unsup("symbolic f32"),
            },
            Cast::FPTrunc => match v {
                Val::I(x) => Ok(Val::I((f64::from_bits(*x) as f32).to_bits() as u64)),
                _ => unsup("symbolic f32"),
            },
            Cast::Bit => self.bitcast(f, t, v),
        }
    }
    pub fn select(&mut self, ty: &Ty, c: &Val, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::I(x) => Ok(if *x & 1 != 0 { a.clone() } else { b.clone() }),
            Val::A(cs) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { return unsup("vector select") };
                let et = ty.scalar().clone();
                let mut o = vec![];
                for i in 0..cs.len() {
                    o.push(self.select(&et, &cs[i], &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            Val::E(ce) => match ty {
                Ty::Vec(_, e) => {
                    let (Val::A(x), Val::A(y)) = (a, b) else { return unsup("vector select") };
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.select(e, c, &x[i], &y[i])?);
                    }
                    Ok(Val::A(Rc::new(o)))
                }
                Ty::Agg(g) => {
                    let (Val::A(x), Val::A(y)) = (a, b) else { return unsup("aggregate select") };
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.select(&g.elems[i].1, c, &x[i], &y[i])?);
                    }
                    Ok(Val::A(Rc::new(o)))
                }
                Ty::F64 => {
                    let (x, y) = (self.fx(a), self.fx(b));
                    // min / max idioms
                    let n = self.cx.n(*ce).clone();
                    let _ = n;
                    let e = self.cx.fite(*ce, x, y);
                    Ok(self.val(e))
                }
                _ => {
                    let w = ty.w();
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let e = self.cx.ite(*ce, x, y);
                    Ok(self.val(e))
                }
            },
            _ => unsup("select condition"),
        }
    }

    /// Address operand: concrete, or a table-like load handled by the caller
    pub fn addr(&mut self, s: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(a) => Ok(*a),
            Val::E(_) => self.concretize(s, v, 64),
            _ => unsup("bad address"),
        }
    }

    fn load_sym_addr(&mut self, s: &mut State, e: E, ty: &Ty) -> R<Option<Val>> {
        // single byte variable: build a table over its 256 values
        if self.cx.byte_var(e).is_none() || matches!(ty, Ty::Vec(..) | Ty::Agg(_)) || ty.w() > 64 {
            return Ok(None);
        }
        let v = self.cx.byte_var(e).unwrap();
        let dom = s.dom.get(&v).copied().unwrap_or_else(|| self.cx.init_domain(v));
        let n = ty.store_size();
        let mut t = vec![0u64; 256];
        let mut last = None;
        let mut obj = None;
        for b in 0..256usize {
            if !set_has(&dom, b as u8) {
                continue;
            }
            let mut a = HashMap::new();
            a.insert(v, CV::B(b as u128));
            let m = Model::new(a);
            let Some(CV::B(x)) = self.cx.eval(e, &m) else { return Ok(None) };
            let (id, off) = split(x as u64);
            if obj.is_some() && obj != Some(id) {
                return Ok(None);
            }
            obj = Some(id);
            let Some(o) = s.mem.get(id) else { return Ok(None) };
            if off + n > o.data.len() as u64 {
                return Ok(None);
            }
            if let Some(sy) = &o.sym {
                if sy[off as usize..(off + n) as usize].iter().any(|x| x.e != u32::MAX) {
                    return Ok(None);
                }
            }
            let x = Self::load_conc(o, off as usize, n as usize, ty.w()).i();
            t[b] = x;
            last = Some(x);
        }
        let Some(l) = last else { return Ok(None) };
        for b in 0..256usize {
            if !set_has(&dom, b as u8) {
                t[b] = l;
            }
        }
        let ve = self.cx.vars[v as usize].e;
        if self.cx.w(ve) > 8 {
            t.truncate(256);
        }
        let r = self.cx.table(ve, t, ty.w());
        Ok(Some(self.val(r)))
    }

    #[inline]
    fn jump(&mut self, s: &mut State, to: u32) {
        let f = s.fr.f.clone();
        let blk = &f.blocks[to as usize];
        if !blk.phis.is_empty() {
            let from = s.fr.bb;
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = self.get(s, o);
                s.fr.regs[*d as usize] = v;
            } else {
                let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
                let pos = blk.phis[0].1.iter().position(|x| x.0 == from).expect("phi");
                for (d, inc) in &blk.phis {
                    let o = if inc[pos].0 == from { &inc[pos].1 } else { &inc.iter().find(|x| x.0 == from).unwrap().1 };
                    vals.push((*d, self.get(s, o)));
                }
                for (d, v) in vals {
                    s.fr.regs[d as usize] = v;
                }
            }
        }
        s.fr.bb = to;
        s.fr.pc = 0;
    }

    pub fn set(s: &mut State, dst: u32, v: Val) {
        if dst != NOREG {
            s.fr.regs[dst as usize] = v;
        }
    }

    pub fn enter(&mut self, s: &mut State, f: u32, args: Vec<Val>, dst: u32, norm: Option<u32>) -> R<()> {
        if s.stack.len() > 4000 {
            return Err(Stop::End(End::Limit("call depth 4000".into())));
        }
        let body = self.md.body(f);
        self.funcs_run.insert(f);
        if self.proflog {
            *self.hot.entry(f).or_insert(0) += body.ninsts as u64;
        }
        if self.trace_calls {
            eprintln!("{}{}", " ".repeat(s.stack.len()), demangle(&self.md.fns[f as usize].name));
        }
        let mut regs = vec![Val::I(0); body.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < body.nparams as usize {
                regs[i] = a;
            }
        }
        let nf = Frame { f: body, bb: 0, pc: 0, regs, allocas: vec![], dst, norm };
        let old = std::mem::replace(&mut s.fr, nf);
        s.stack.push(Rc::new(old));
        Ok(())
    }
    /// return from the current frame
    pub fn ret(&mut self, s: &mut State, v: Option<Val>) -> R<()> {
        for a in std::mem::take(&mut s.fr.allocas) {
            s.mem.free(a);
        }
        match s.stack.pop() {
            None if s.thr.cur.is_some() => {
                self.leave_thread(s, None, 0);
                Ok(())
            }
            None => Err(Stop::End(End::Return)),
            Some(f) => {
                let (dst, norm) = (s.fr.dst, s.fr.norm);
                s.fr = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
                if let Some(v) = v {
                    Self::set(s, dst, v);
                }
                match norm {
                    Some(bb) => self.jump(s, bb),
                    None => s.fr.pc += 1,
                }
                Ok(())
            }
        }
    }
    /// a new thread, which does not run yet
    pub fn spawn(&mut self, s: &mut State, f: u32, arg: Val) -> usize {
        let body = self.md.body(f);
        self.funcs_run.insert(f);
        let mut regs = vec![Val::I(0); body.nregs as usize];
        regs[0] = arg;
        let fr = Frame { f: body, bb: 0, pc: 0, regs, allocas: vec![], dst: NOREG, norm: None };
        let t = Rc::make_mut(&mut s.thr);
        t.v.push(Some(Susp { stack: vec![], fr }));
        t.v.len() - 1
    }
    pub fn resume(&mut self, s: &mut State, id: usize, dst: u32, norm: Option<u32>) -> R<()> {
        let t = Rc::make_mut(&mut s.thr);
        if t.cur.is_some() {
            return unsup("vx_resume within a thread");
        }
        let Some(n) = t.v.get_mut(id).and_then(|x| x.take()) else { return unsup("vx_resume of a finished thread") };
        t.cur = Some(id);
        let m = Susp { stack: std::mem::replace(&mut s.stack, n.stack), fr: std::mem::replace(&mut s.fr, n.fr) };
        t.main = Some((m, dst, norm));
        Ok(())
    }
    /// back to the harness: the running thread is suspended (or done)
    pub fn leave_thread(&mut self, s: &mut State, keep: Option<()>, code: u64) {
        let t = Rc::make_mut(&mut s.thr);
        let (m, dst, norm) = t.main.take().unwrap();
        let old = Susp { stack: std::mem::replace(&mut s.stack, m.stack), fr: std::mem::replace(&mut s.fr, m.fr) };
        let id = t.cur.take().unwrap();
        if keep.is_some() {
            t.v[id] = Some(old);
        }
        self.finish_call(s, dst, norm, Val::I(code));
    }
    /// after a modelled call: store the result and continue
    pub fn finish_call(&mut self, s: &mut State, dst: u32, norm: Option<u32>, v: Val) {
        Self::set(s, dst, v);
        match norm {
            Some(bb) => self.jump(s, bb),
            None => s.fr.pc += 1,
        }
    }

    pub fn step(&mut self, s: &mut State) -> R<()> {
        let f = s.fr.f.clone();
        // run within this frame until control leaves it
        loop {
            s.insns += 1;
            if s.insns & 0xffff == 0 {
                if s.insns > self.max_insns {
                    return Err(Stop::End(End::Limit(format!("{} instructions on one path", self.max_insns))));
                }
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        return Err(Stop::End(End::Limit("time".into())));
                    }
                }
            }
            let inst = &f.blocks[s.fr.bb as usize].insts[s.fr.pc as usize];
            let dst = inst.dst;
            match &inst.k {
                K::Bin(op, ty, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let v = match ty {
                        Ty::Vec(_, e) => {
                            let w = e.w();
                            self.lanewise2(&x, &y, &mut |me, p, q| me.bin(*op, w, p, q))?
                        }
                        _ => {
                            if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                                if let Val::E(e) = &y {
                                    let z = self.cx.cst(0, ty.w());
                                    let c = self.cx.eq(*e, z);
                                    if self.decide(s, c)? {
                                        return unsup("division by zero");
                                    }
                                }
                            }
                            self.bin(*op, ty.w(), &x, &y)?
                        }
                    };
                    s.fr.regs[dst as usize] = v;
                }
                K::FBin(op, ty, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let f32_ = *ty.scalar() == Ty::F32;
                    let div = *op == FBin::Div && !f32_ && self.cx.mode == FpMode::Real;
                    let v = self.lanewise2(&x, &y, &mut |me, p, q| {
                        if let (true, false) = (div, matches!(q, Val::I(_))) {
                            if let Some(v) = me.div_zero(s, p, q)? {
                                return Ok(v);
                            }
                        }
                        me.fbin(*op, f32_, p, q)
                    })?;
                    s.fr.regs[dst as usize] = v;
                }
                K::FNeg(ty, a) => {
                    let x = self.get(s, a);
                    let f32_ = *ty.scalar() == Ty::F32;
                    let v = self.map1(&x, &mut |me, p| match p {
                        Val::I(b) => Ok(Val::I(if f32_ { b ^ (1 << 31) } else { b ^ (1 << 63) })),
                        _ => {
                            let e = me.fx(p);
                            let r = me.cx.fneg(e);
                            Ok(me.val(r))
                        }
                    })?;
                    s.fr.regs[dst as usize] = v;
                }
                K::ICmp(p, ty, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let w = ty.scalar().w();
                    let v = match (&x, &y) {
                        (Val::A(_), Val::A(_)) => self.lanewise2(&x, &y, &mut |me, m, n| Ok(me.icmp(*p, w, m, n)))?,
                        _ => self.icmp(*p, w, &x, &y),
                    };
                    s.fr.regs[dst as usize] = v;
                }
                K::FCmp(p, ty, a, b) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let f32_ = *ty.scalar() == Ty::F32;
                    let v = self.lanewise2(&x, &y, &mut |me, m, n| me.fcmp(*p, f32_, m, n))?;
                    s.fr.regs[dst as usize] = v;
                }
                K::Cast(k, ft, tt, a) => {
                    let x = self.get(s, a);
                    let v = if *k == Cast::Bit {
                        self.bitcast(ft, tt, &x)?
                    } else {
                        let (fe, te) = (ft.scalar(), tt.scalar());
                        self.map1(&x, &mut |me, p| me.cast1(*k, fe, te, p))?
                    };
                    s.fr.regs[dst as usize] = v;
                }
                K::Select(ty, c, a, b) => {
                    let cv = self.get(s, c);
                    let v = match &cv {
                        Val::I(x) => self.get(s, if *x & 1 != 0 { a } else { b }),
                        _ => {
                            let (x, y) = (self.get(s, a), self.get(s, b));
                            self.select(ty, &cv, &x, &y)?
                        }
                    };
                    s.fr.regs[dst as usize] = v;
                }
                K::Load(ty, p) => {
                    let pv = self.get(s, p);
                    let v = match &pv {
                        Val::I(a) => self.load(s, *a, ty)?,
                        Val::E(e) => match self.load_sym_addr(s, *e, ty)? {
                            Some(v) => v,
                            None => {
                                let a = self.addr(s, &pv)?;
                                self.load(s, a, ty)?
                            }
                        },
                        _ => return unsup("load address"),
                    };
                    s.fr.regs[dst as usize] = v;
                }
                K::Store(ty, v, p) => {
                    let pv = self.get(s, p);
                    let a = match &pv {
                        Val::I(a) => *a,
                        _ => self.addr(s, &pv)?,
                    };
                    let x = self.get(s, v);
                    self.store(s, a, ty, &x)?;
                }
                K::Gep(b, off, terms) => {
                    let bv = self.get(s, b);
                    let mut conc = 0i64;
                    let mut sym: Option<E> = None;
                    let mut ok = true;
                    if let Val::I(x) = bv {
                        conc = x as i64;
                    } else if let Val::E(_) = bv {
                        sym = Some(self.ex(&bv, 64));
                    } else {
                        ok = false;
                    }
                    if !ok {
                        return unsup("gep base");
                    }
                    conc = conc.wrapping_add(*off);
                    for (t, sc, w) in terms {
                        match self.get(s, t) {
                            Val::I(x) => conc = conc.wrapping_add(sext64(x, *w).wrapping_mul(*sc)),
                            v @ Val::E(_) => {
                                let e = self.ex(&v, *w);
                                let e = if *w < 64 { self.cx.sext(e, 64) } else { e };
                                let k = self.cx.cst(*sc as u64 as u128, 64);
                                let m = self.cx.bin(Op::Mul, e, k);
                                sym = Some(match sym {
                                    None => m,
                                    Some(p) => self.cx.bin(Op::Add, p, m),
                                });
                            }
                            _ => return unsup("gep index"),
                        }
                    }
                    let v = match sym {
                        None => Val::I(conc as u64),
                        Some(e) => {
                            let k = self.cx.cst(conc as u64 as u128, 64);
                            let r = self.cx.bin(Op::Add, e, k);
                            self.val(r)
                        }
                    };
                    s.fr.regs[dst as usize] = v;
                }
                K::Alloca(sz, _al, n) => {
                    let k = match self.get(s, n) {
                        Val::I(x) => x,
                        _ => return unsup("symbolic alloca size"),
                    };
                    let id = s.mem.alloc(Obj::new((sz * k) as usize, OKind::Stack));
                    s.fr.allocas.push(id);
                    s.fr.regs[dst as usize] = Val::I(addr_of(id));
                }
                K::Extract(a, ix) => {
                    let v = match a {
                        Opnd::R(r) => {
                            let mut v = &s.fr.regs[*r as usize];
                            for i in ix {
                                match v {
                                    Val::A(x) => v = &x[*i as usize],
                                    _ => return unsup("extractvalue"),
                                }
                            }
                            v.clone()
                        }
                        Opnd::C(c) => {
                            let mut v = c;
                            for i in ix {
                                match v {
                                    Val::A(x) => v = &x[*i as usize],
                                    _ => return unsup("extractvalue"),
                                }
                            }
                            v.clone()
                        }
                    };
                    s.fr.regs[dst as usize] = v;
                }
                K::Insert(_, a, v, ix) => {
                    fn ins(a: &Val, v: Val, ix: &[u32]) -> Option<Val> {
                        let Val::A(x) = a else { return None };
                        let mut y = (**x).clone();
                        if ix.len() == 1 {
                            y[ix[0] as usize] = v;
                        } else {
                            y[ix[0] as usize] = ins(&x[ix[0] as usize], v, &ix[1..])?;
                        }
                        Some(Val::A(Rc::new(y)))
                    }
                    let (x, y) = (self.get(s, a), self.get(s, v));
                    match ins(&x, y, ix) {
                        Some(r) => s.fr.regs[dst as usize] = r,
                        None => return unsup("insertvalue"),
                    }
                }
                K::ExtractEl(_, a, i) => {
                    let (x, i) = (self.get(s, a), self.get(s, i));
                    let k = self.concretize(s, &i, 64)?;
                    match x {
                        Val::A(xs) => s.fr.regs[dst as usize] = xs[k as usize].clone(),
                        _ => return unsup("extractelement"),
                    }
                }
                K::InsertEl(_, a, v, i) => {
                    let (x, y, i) = (self.get(s, a), self.get(s, v), self.get(s, i));
                    let k = self.concretize(s, &i, 64)?;
                    match x {
                        Val::A(xs) => {
                            let mut z = (*xs).clone();
                            z[k as usize] = y;
                            s.fr.regs[dst as usize] = Val::A(Rc::new(z));
                        }
                        _ => return unsup("insertelement"),
                    }
                }
                K::Shuffle(n, et, a, b, m) => {
                    let (x, y) = (self.get(s, a), self.get(s, b));
                    let (Val::A(xs), Val::A(ys)) = (&x, &y) else { return unsup("shufflevector") };
                    let mut o = Vec::with_capacity(m.len());
                    for k in m {
                        o.push(if *k < 0 {
                            Module::zero(et, true)
                        } else if (*k as u32) < *n {
                            xs[*k as usize].clone()
                        } else {
                            ys[(*k as u32 - n) as usize].clone()
                        });
                    }
                    s.fr.regs[dst as usize] = Val::A(Rc::new(o));
                }
                K::Call(callee, args, rty, norm, _unw) => {
                    let target = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Ptr(p) => {
                            let pv = self.get(s, p);
                            let a = self.addr(s, &pv)?;
                            match self.md.addr_fn(a) {
                                Some(i) => i,
                                None => return unsup(format!("call through invalid pointer {a:#x}")),
                            }
                        }
                        Callee::Asm(t) => {
                            let av: Vec<Val> = args.iter().map(|(_, o)| self.get(s, o)).collect();
                            let v = self.asm(s, t, args, &av, rty)?;
                            self.finish_call(s, dst, *norm, v);
                            if norm.is_some() {
                                continue;
                            }
                            continue;
                        }
                    };
                    let mut av = Vec::with_capacity(args.len());
                    for (_, o) in args {
                        av.push(self.get(s, o));
                    }
                    let d = &self.md.fns[target as usize];
                    if let Some(mid) = d.model {
                        let r = crate::models::call(self, s, mid, target, &av, args, rty)?;
                        match r {
                            crate::models::Out::Val(v) => {
                                self.finish_call(s, dst, *norm, v);
                                continue;
                            }
                            crate::models::Out::Enter(f, a) => {
                                return self.enter(s, f, a, dst, *norm);
                            }
                            crate::models::Out::Inline => {}
                            crate::models::Out::Resume(id) => return self.resume(s, id, dst, *norm),
                            crate::models::Out::Yield(code, v) => {
                                if let Some(v) = v {
                                    self.finish_call(s, dst, *norm, v);
                                }
                                self.leave_thread(s, Some(()), code);
                                return Ok(());
                            }
                        }
                    }
                    if !self.md.fns[target as usize].defined {
                        return unsup(format!("call of unmodelled external function {}", demangle(&self.md.fns[target as usize].name)));
                    }
                    return self.enter(s, target, av, dst, *norm);
                }
                K::Br(b) => {
                    self.jump(s, *b);
                    continue;
                }
                K::CondBr(c, t, e) => {
                    let b = match self.get(s, c) {
                        Val::I(x) => x & 1 != 0,
                        Val::E(x) => self.decide(s, x)?,
                        _ => return unsup("branch condition"),
                    };
                    self.jump(s, if b { *t } else { *e });
                    continue;
                }
                K::Switch(v, w, cases, def) => {
                    let x = self.get(s, v);
                    let to = match &x {
                        Val::I(k) => cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*def),
                        Val::E(_) => {
                            let e = self.ex(&x, *w);
                            let mut to = *def;
                            for (k, bb) in cases {
                                let kc = self.cx.cst(*k as u128, *w);
                                let c = self.cx.eq(e, kc);
                                if self.decide(s, c)? {
                                    to = *bb;
                                    break;
                                }
                            }
                            to
                        }
                        _ => return unsup("switch value"),
                    };
                    self.jump(s, to);
                    continue;
                }
                K::Ret(v) => {
                    let r = v.as_ref().map(|o| self.get(s, o));
                    return self.ret(s, r);
                }
                K::Unreachable => return unsup("reached 'unreachable'"),
                K::CmpXchg(ty, p, c, n) => {
                    let pv = self.get(s, p);
                    let a = self.addr(s, &pv)?;
                    let old = self.load(s, a, ty)?;
                    let (cv, nv) = (self.get(s, c), self.get(s, n));
                    let eq = self.icmp(IPred::Eq, ty.w(), &old, &cv);
                    let b = match eq {
                        Val::I(x) => x != 0,
                        Val::E(e) => self.decide(s, e)?,
                        _ => unreachable!(),
                    };
                    if b {
                        self.store(s, a, ty, &nv)?;
                    }
                    s.fr.regs[dst as usize] = Val::A(Rc::new(vec![old, Val::I(b as u64)]));
                }
                K::Rmw(op, ty, p, v) => {
                    let pv = self.get(s, p);
                    let a = self.addr(s, &pv)?;
                    let old = self.load(s, a, ty)?;
                    let x = self.get(s, v);
                    let w = ty.w();
                    let n = match op {
                        0 => x,
                        1 => self.bin(Bin::Add, w, &old, &x)?,
                        2 => self.bin(Bin::Sub, w, &old, &x)?,
                        3 => self.bin(Bin::And, w, &old, &x)?,
                        5 => self.bin(Bin::Or, w, &old, &x)?,
                        6 => self.bin(Bin::Xor, w, &old, &x)?,
                        7..=10 => {
                            let p = [IPred::Sgt, IPred::Slt, IPred::Ugt, IPred::Ult][*op as usize - 7];
                            let c = self.icmp(p, w, &old, &x);
                            self.select(ty, &c, &old, &x)?
                        }
                        _ => return unsup(format!("atomicrmw {op}")),
                    };
                    self.store(s, a, ty, &n)?;
                    s.fr.regs[dst as usize] = old;
                }
                K::Nop => {}
                K::Mov(a) => {
                    let v = self.get(s, a);
                    s.fr.regs[dst as usize] = v;
                }
                K::LandingPad | K::Resume(_) => return unsup("unwinding"),
                K::Unsup(t) => return unsup(t.clone()),
            }
            s.fr.pc += 1;
        }
    }
    pub fn map1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Self, &Val) -> R<Val>) -> R<Val> {
        match a {
            Val::A(x) => {
                let mut o = Vec::with_capacity(x.len());
                for p in x.iter() {
                    o.push(f(self, p)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => f(self, a),
        }
    }
    fn asm(&mut self, s: &mut State, t: &str, args: &[(Ty, Opnd)], av: &[Val], rty: &Ty) -> R<Val> {
        if t.trim().is_empty() {
            return Ok(match rty {
                Ty::Void => Val::I(0),
                _ => av.first().cloned().unwrap_or(Val::I(0)),
            });
        }
        self.asm_seen.insert(t.replace('\n', "; "));
        if t.contains("cmpxchg") {
            // "=&{ax},r(ptr),r(new),0(expected)" — value before the exchange is returned
            let a = self.addr(s, &av[0])?;
            let ty = args[1].0.clone();
            let old = self.load(s, a, &ty)?;
            let eq = self.icmp(IPred::Eq, ty.w(), &old, &av[2]);
            let b = match eq {
                Val::I(x) => x != 0,
                Val::E(e) => self.decide(s, e)?,
                _ => unreachable!(),
            };
            if b {
                self.store(s, a, &ty, &av[1])?;
            }
            return Ok(old);
        }
        if t.contains("xadd") {
            let a = self.addr(s, &av[0])?;
            let ty = args[1].0.clone();
            let old = self.load(s, a, &ty)?;
            let n = self.bin(Bin::Add, ty.w(), &old, &av[1])?;
            self.store(s, a, &ty, &n)?;
            return Ok(old);
        }
        if t.contains("cpuid") || t.contains("xgetbv") {
            return Ok(Module::zero(rty, false));
        }
        if t.contains("pause") || t.contains("nop") {
            return Ok(Val::I(0));
        }
        unsup(format!("inline asm {t:?}"))
    }

    // ---------------- driver ----------------
    /// run one state to its end (forks go to self.pending)
    pub fn run_state(&mut self, mut s: State) -> (State, End) {
        let mut n = 0u64;
        let start = s.insns;
        let end = loop {
            match self.step(&mut s) {
                Ok(()) => {}
                Err(Stop::End(e)) => break e,
            }
            n += 1;
            if n & 0x3ff == 0 {
                if s.insns > self.max_insns {
                    break End::Limit(format!("{} instructions on one path", self.max_insns));
                }
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        break End::Limit("time".into());
                    }
                }
            }
        };
        self.st.insns += s.insns - start;
        (s, end)
    }
    pub fn backtrace(&self, s: &State) -> Vec<String> {
        let mut v = vec![];
        v.push(format!("{}", demangle(&self.md.fns[s.fr.f.idx as usize].name)));
        for f in s.stack.iter().rev() {
            v.push(demangle(&self.md.fns[f.f.idx as usize].name));
        }
        v
    }
    fn fmt_cv(&self, v: u32, c: CV) -> String {
        match c {
            CV::B(x) => format!("{x}"),
            CV::F(x) => match &self.cx.vars[v as usize].kind {
                VarKind::Grid { den, .. } => format!("{}", (x * *den as f64).round() as i64),
                _ => format!("{:#x}", x.to_bits()),
            },
            CV::R(r) => match &self.cx.vars[v as usize].kind {
                VarKind::Grid { den, .. } => {
                    let k = r.n * (*den as i128) / r.d;
                    format!("{k}")
                }
                _ => format!("{:#x}", r.to_f64().to_bits()),
            },
        }
    }
    pub fn model_vals(&self, s: &State) -> Vec<(String, String)> {
        let mut o = vec![];
        for (i, v) in self.cx.vars.iter().enumerate() {
            let c = s.model.vals.get(&(i as u32)).copied().unwrap_or_else(|| self.default_val(i as u32));
            o.push((v.name.clone(), self.fmt_cv(i as u32, c)));
        }
        o
    }
    fn fmt_val(&mut self, s: &State, v: &Val, float: bool) -> String {
        match v {
            Val::I(x) => {
                if float {
                    format!("f{:e}", f64::from_bits(*x))
                } else {
                    format!("{x}")
                }
            }
            Val::W(x) => format!("{x}"),
            Val::E(e) => match self.cx.eval(*e, &s.model) {
                Some(CV::B(x)) => {
                    if float {
                        format!("f{:e}", f64::from_bits(x as u64))
                    } else {
                        format!("{x}")
                    }
                }
                Some(CV::F(x)) => {
                    if float {
                        format!("f{:e}", x)
                    } else {
                        format!("{}", x.to_bits())
                    }
                }
                Some(CV::R(r)) => format!("f{:e}", r.to_f64()),
                None => "?".into(),
            },
            Val::A(_) => "agg".into(),
        }
    }
    pub fn path_end(&mut self, s: &State, end: End) -> PathEnd {
        let logs = s.logs.clone();
        let mut lo = vec![];
        for (t, v) in &logs {
            let x = match v {
                LogV::U(v) => self.fmt_val(s, v, false),
                LogV::F(v) => self.fmt_val(s, v, true),
                LogV::Bytes(b) => {
                    let mut h = String::from("x");
                    for v in b {
                        let t = self.fmt_val(s, v, false);
                        match t.parse::<u8>() {
                            Ok(b) => h.push_str(&format!("{b:02x}")),
                            Err(_) => h.push_str("??"),
                        }
                    }
                    h
                }
            };
            lo.push((t.clone(), x));
        }
        PathEnd {
            trace: if matches!(end, End::Return | End::Assume) { vec![] } else { self.backtrace(s) },
            end,
            vals: self.model_vals(s),
            logs: lo,
            covers: (*s.covers).clone(),
            insns: s.insns,
            nvars: self.cx.vars.len(),
            checks: s.checks,
            ok_panic: s.env.ok_panic,
            ok_exit: s.env.ok_exit,
        }
    }
}

pub fn default_of(cx: &Ctx, v: u32) -> CV {
    match &cx.vars[v as usize].kind {
        VarKind::Byte(s) => CV::B(set_first(s) as u128),
        VarKind::Int { lo, .. } => CV::B(*lo as u128),
        VarKind::Grid { lo, hi, den } => {
            let k = if *lo <= 0 && *hi >= 0 { 0 } else { *lo };
            if cx.mode == FpMode::Real {
                CV::R(Rat::new(k as i128, *den as i128).unwrap())
            } else {
                CV::F(k as f64 / *den as f64)
            }
        }
        VarKind::AnyF64 { .. } => CV::F(0.),
    }
}

/// crude demangler for Rust v0 / legacy names: keeps the identifier path
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    if !s.starts_with("_R") && !s.starts_with("_ZN") {
        return s.to_string();
    }
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' && !(i > 0 && (b[i - 1] == b'_' && s.starts_with("_R") && false)) {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if n > 0 && st + n <= b.len() && b[st..st + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' || *c == b'$') {
                out.push(&s[st..st + n]);
                i = st + n;
                continue;
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / back reference: skip base-62 number
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}
