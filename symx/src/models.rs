//! Models of everything outside the bitcode: the harness API, LLVM intrinsics, the allocator, panics,
//! a small libc with an in-memory file system.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::Res;
use crate::val::*;
use std::rc::Rc;

pub enum Out {
    Val(Val),
    #[allow(dead_code)]
    Enter(u32, Vec<Val>),
    #[allow(dead_code)]
    Inline,
    Resume(usize),
    /// what vx_resume returns, and what the call in the thread returns (nothing: it is repeated)
    Yield(u64, Option<Val>),
}
pub struct A<'a> {
    pub v: &'a [Val],
    pub t: &'a [(Ty, Opnd)],
    pub r: &'a Ty,
    pub name: String,
}
type MF = fn(&mut Engine, &mut State, &A) -> R<Val>;

const Z: Val = Val::I(0);

/// name patterns: "x" exact symbol, "x*" symbol prefix, "=a::b" demangled path, "~x" allocator shim suffix
static TABLE: &[(&str, MF)] = &[
    // harness API
    ("vx_int", vx_int),
    ("vx_pick", vx_pick),
    ("vx_byte", vx_byte),
    ("vx_grid", vx_grid),
    ("vx_any_f64", vx_any_f64),
    ("vx_assume", vx_assume),
    ("vx_check", vx_check),
    ("vx_close", vx_close),
    ("vx_cover", vx_cover),
    ("vx_log_u64", vx_log_u64),
    ("vx_log_f64", vx_log_f64),
    ("vx_log_bytes", vx_log_bytes),
    ("vx_file_limit", vx_file_limit),
    ("vx_ok_panic", vx_ok_panic),
    ("vx_spawn", vx_spawn),
    ("vx_resume", nop),
    ("vx_yield", nop),
    ("vx_native", nop),
    ("vx_block", nop),
    ("vx_ok_exit", vx_ok_exit),
    ("vx_conc_u64", vx_conc_u64),
    ("vx_conc_f64", vx_conc_u64),
    ("vx_conc_bytes", vx_conc_bytes),
    ("vx_cases", vx_cases),
    ("vx_and", vx_and),
    ("vx_or", vx_or),
    ("vx_put_file", vx_put_file),
    ("vx_get_file", vx_get_file),
    ("vx_print", vx_print),
    ("vx_text", vx_text),
    ("vx_untext", vx_untext),
    ("vx_unsupported", vx_unsupported),
    ("=core::fmt::float::float_to_decimal_display", one),
    ("=core::fmt::float::Display::fmt", one),
    ("=core::num::imp::dec2flt::dec2flt", one),
    ("=core::num::float_parse::str::traits::FromStr::from_str", one),
    // allocator
    ("~__rust_alloc", rust_alloc),
    ("~__rust_alloc_zeroed", rust_alloc),
    ("~__rust_dealloc", rust_dealloc),
    ("~__rust_realloc", rust_realloc),
    ("~__rust_no_alloc_shim_is_unstable_v2", nop),
    ("malloc", c_malloc),
    ("calloc", c_calloc),
    ("free", c_free),
    ("realloc", c_realloc),
    ("posix_memalign", c_posix_memalign),
    ("mmap64", c_mmap),
    ("mmap", c_mmap),
    ("munmap", zero),
    ("mprotect", zero),
    // panics
    ("=core::panicking::panic_fmt", panic_fmt),
    ("=core::panicking::panic_nounwind_fmt", panic_fmt),
    ("=core::panicking::panic_nounwind", panic_plain),
    ("=std::rt::begin_panic", panic_plain),
    ("=std::panicking::begin_panic", panic_plain),
    ("=std::panicking::rust_panic_with_hook", panic_plain),
    ("~rust_begin_unwind", panic_plain),
    ("=alloc::alloc::handle_alloc_error", panic_plain),
    ("=std::process::abort", panic_plain),
    ("abort", panic_plain),
    ("__assert_fail", panic_plain),
    ("llvm.trap", panic_plain),
    ("llvm.ubsantrap", panic_plain),
    ("exit", c_exit),
    ("_exit", c_exit),
    // memory
    ("llvm.memcpy*", memcpy),
    ("llvm.memmove*", memcpy),
    ("llvm.memset*", memset),
    ("memcpy", memcpy_ret),
    ("memmove", memcpy_ret),
    ("memset", memset_ret),
    ("bcmp", bcmp),
    ("memcmp", memcmp),
    ("memchr", c_memchr),
    ("memrchr", c_memrchr),
    ("strlen", strlen),
    ("=core::slice::memchr::memchr_aligned", core_memchr),
    ("=core::slice::memchr::memrchr", core_memrchr),
    ("=memchr::arch::x86_64::memchr::memchr_raw", mc_memchr),
    ("=memchr::arch::x86_64::memchr::memchr2_raw", mc_memchr),
    ("=memchr::arch::x86_64::memchr::memchr3_raw", mc_memchr),
    ("=memchr::arch::x86_64::memchr::memrchr_raw", mc_memrchr),
    ("=memchr::memchr::memchr_raw", mc_memchr),
    ("=memchr::memchr::memchr2_raw", mc_memchr),
    ("=memchr::memchr::memchr3_raw", mc_memchr),
    ("=memchr::memchr::memrchr_raw", mc_memrchr),
    // integer intrinsics
    ("llvm.umin*", umin),
    ("llvm.umax*", umax),
    ("llvm.smin*", smin),
    ("llvm.smax*", smax),
    ("llvm.abs*", iabs),
    ("llvm.usub.sat*", usub_sat),
    ("llvm.uadd.sat*", uadd_sat),
    ("llvm.ssub.sat*", ssub_sat),
    ("llvm.sadd.sat*", sadd_sat),
    ("llvm.umul.with.overflow*", umulo),
    ("llvm.uadd.with.overflow*", uaddo),
    ("llvm.usub.with.overflow*", usubo),
    ("llvm.smul.with.overflow*", smulo),
    ("llvm.sadd.with.overflow*", saddo),
    ("llvm.ssub.with.overflow*", ssubo),
    ("llvm.ucmp*", ucmp),
    ("llvm.scmp*", scmp),
    ("llvm.ctlz*", ctlz),
    ("llvm.cttz*", cttz),
    ("llvm.ctpop*", ctpop),
    ("llvm.bswap*", bswap),
    ("llvm.bitreverse*", bitreverse),
    ("llvm.fshl*", fshl),
    ("llvm.fshr*", fshr),
    ("llvm.vector.reduce.or*", reduce_or),
    ("llvm.vector.reduce.and*", reduce_and),
    ("llvm.vector.reduce.add*", reduce_add),
    ("llvm.is.constant*", zero),
    ("llvm.expect*", first),
    ("llvm.threadlocal.address*", first),
    ("llvm.launder*", first),
    ("llvm.strip.invariant*", first),
    ("llvm.ptrmask*", ptrmask),
    ("llvm.objectsize*", all_ones),
    ("llvm.x86.sse2.pause", nop),
    ("llvm.stacksave*", zero),
    ("llvm.stackrestore*", nop),
    ("llvm.va_start*", nop),
    ("llvm.va_end*", nop),
    // floating point intrinsics
    ("llvm.sqrt*", fsqrt),
    ("llvm.fabs*", ffabs),
    ("llvm.floor*", ffloor),
    ("llvm.ceil*", fceil),
    ("llvm.trunc*", ftrunc),
    ("llvm.rint*", fround_even),
    ("llvm.nearbyint*", fround_even),
    ("llvm.roundeven*", fround_even),
    ("llvm.round*", fround_away),
    ("llvm.minnum*", fmin),
    ("llvm.maxnum*", fmax),
    ("llvm.minimumnum*", fmin),
    ("llvm.maximumnum*", fmax),
    ("llvm.copysign*", copysign),
    ("llvm.fma*", ffma),
    ("llvm.fmuladd*", ffma),
    ("llvm.pow.*", fpow),
    ("llvm.powi*", fpowi),
    ("llvm.exp.*", fun_exp),
    ("llvm.log.*", fun_log),
    ("llvm.log2*", fun_log2),
    ("llvm.log10*", fun_log10),
    ("llvm.sin*", fun_sin),
    ("llvm.cos*", fun_cos),
    ("pow", fpow),
    ("exp", fun_exp),
    ("log", fun_log),
    ("log2", fun_log2),
    ("log10", fun_log10),
    ("sin", fun_sin),
    ("cos", fun_cos),
    ("tan", fun_tan),
    ("atan", fun_atan),
    ("atan2", fun_atan2),
    ("hypot", fun_hypot),
    ("asinh", fun_asinh),
    ("cbrt", fun_cbrt),
    ("sinh", fun_sinh),
    ("cosh", fun_cosh),
    ("tanh", fun_tanh),
    ("acos", fun_acos),
    ("asin", fun_asin),
    ("log1p", fun_log1p),
    ("expm1", fun_expm1),
    ("fmod", ffmod),
    ("llvm.fptosi.sat*", fptosi_sat),
    ("llvm.fptoui.sat*", fptoui_sat),
    ("llvm.is.fpclass*", is_fpclass),
    // libc
    ("__errno_location", errno_location),
    ("__xpg_strerror_r", strerror_r),
    ("open64", c_open),
    ("open", c_open),
    ("read", c_read),
    ("write", c_write),
    ("writev", c_writev),
    ("close", c_close),
    ("lseek64", c_lseek),
    ("lseek", c_lseek),
    ("fstat64", c_fstat),
    ("stat64", c_stat),
    ("lstat64", c_stat),
    ("fsync", zero),
    ("fdatasync", zero),
    ("ftruncate64", c_ftruncate),
    ("unlink", c_unlink),
    ("mkdir", c_mkdir),
    ("rename", c_rename),
    ("realpath", c_realpath),
    ("getcwd", c_getcwd),
    ("readlink", c_readlink),
    ("getenv", zero),
    ("isatty", zero),
    ("ioctl", minus1),
    ("fcntl", c_fcntl),
    ("fcntl64", c_fcntl),
    ("sysconf", c_sysconf),
    ("getpid", one),
    ("gettid", one),
    ("getauxval", zero),
    ("clock_gettime", clock_gettime),
    ("gettimeofday", clock_gettime),
    ("time", c_time),
    ("sched_yield", blocking),
    ("nanosleep", zero),
    ("clock_nanosleep", zero),
    ("usleep", zero),
    ("syscall", c_syscall),
    ("getrandom", c_getrandom),
    ("pthread_key_create", pthread_key_create),
    ("pthread_key_delete", zero),
    ("pthread_setspecific", pthread_setspecific),
    ("pthread_getspecific", pthread_getspecific),
    ("pthread_self", one),
    ("pthread_mutex_*", zero),
    ("pthread_cond_wait", blocking),
    ("pthread_cond_timedwait", blocking),
    ("pthread_cond_*", zero),
    ("pthread_condattr_*", zero),
    ("pthread_mutexattr_*", zero),
    ("sched_getaffinity", minus1),
    ("sigaction", zero),
    ("signal", zero),
    ("dl_iterate_phdr", zero),
    ("_Unwind_Backtrace", zero),
    ("poll", zero),
];

pub fn bind(md: &mut Module) {
    for i in 0..md.fns.len() {
        let f = &md.fns[i];
        let name = f.name.clone();
        let mut dm: Option<String> = None;
        for (k, (p, _)) in TABLE.iter().enumerate() {
            let hit = if let Some(d) = p.strip_prefix('=') {
                if !name.starts_with("_R") && !name.starts_with("_ZN") {
                    false
                } else {
                    let x = dm.get_or_insert_with(|| {
                        let d = demangle(&name);
                        match d.rsplit_once("::h") {
                            Some((a, h)) if h.len() == 16 && h.bytes().all(|b| b.is_ascii_hexdigit()) => a.to_string(),
                            _ => d,
                        }
                    });
                    x == d
                }
            } else if let Some(d) = p.strip_prefix('~') {
                name.ends_with(d) && (name == *d || name.contains("___rustc"))
            } else if let Some(d) = p.strip_suffix('*') {
                name.starts_with(d)
            } else {
                name == *p
            };
            if hit {
                md.fns[i].model = Some(k as u32);
                break;
            }
        }
    }
}
pub fn model_name(k: u32) -> &'static str {
    TABLE[k as usize].0
}

pub fn call(eng: &mut Engine, s: &mut State, mid: u32, target: u32, av: &[Val], args: &[(Ty, Opnd)], rty: &Ty) -> R<Out> {
    let (pat, f) = TABLE[mid as usize];
    if !eng.models_used.contains(pat) {
        eng.models_used.insert(pat.to_string());
    }
    let a = A { v: av, t: args, r: rty, name: if pat.ends_with('*') || pat.starts_with('=') { eng.md.fns[target as usize].name.clone() } else { pat.to_string() } };
    if pat.ends_with("::float_to_decimal_display") {
        // text of a symbolic number: an opaque token
        if a.name.contains("displayd") {
            let p = num(eng, s, &a.v[1])?;
            if let Val::E(_) = eng.load_scalar(s, p, &Ty::F64)? {
                return stub(eng, "vx_stub_fmt", av);
            }
        }
        return Ok(Out::Inline);
    }
    if pat.ends_with("float::Display::fmt") {
        if a.name.contains("floatd") {
            let p = num(eng, s, &a.v[0])?;
            if let Val::E(_) = eng.load_scalar(s, p, &Ty::F64)? {
                return stub(eng, "vx_stub_fmt", &[av[1].clone(), av[0].clone()]);
            }
        }
        return Ok(Out::Inline);
    }
    if pat.ends_with("::dec2flt") || pat.ends_with("FromStr::from_str") {
        if (a.name.contains("dec2fltd") || a.name.contains("float_parsed")) && !s.env.texts.is_empty() && av.len() >= 2 {
            let k = av.len() - 2;
            if text_lookup(eng, s, &av[k], &av[k + 1])?.is_some() {
                return stub(eng, "vx_stub_parse", av);
            }
        }
        return Ok(Out::Inline);
    }
    match pat {
        "vx_resume" => return Ok(Out::Resume(num(eng, s, &av[0])? as usize)),
        "vx_yield" if s.thr.cur.is_some() => return Ok(Out::Yield(1, Some(Val::I(1)))),
        "vx_block" if s.thr.cur.is_some() => return Ok(Out::Yield(2, Some(Z))),
        "sched_yield" if s.thr.cur.is_some() => return Ok(Out::Yield(2, Some(Z))),
        "syscall" if s.thr.cur.is_some() && num(eng, s, &av[0])? == 202 => {
            let op = num(eng, s, &av[2])? & 0x7f;
            if op == 0 || op == 9 {
                let p = num(eng, s, &av[1])?;
                let x = eng.load_scalar(s, p, &Ty::I(32))?;
                if num(eng, s, &x)? as u32 == num(eng, s, &av[3])? as u32 {
                    return Ok(Out::Yield(2, None));
                }
                return Ok(Out::Val(neg_errno(eng, s, 11, rty)?));
            }
        }
        _ => {}
    }
    Ok(Out::Val(f(eng, s, &a)?))
}
/// (function, argument) -> thread
fn vx_spawn(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = num(eng, s, &a.v[0])?;
    match eng.md.addr_fn(p) {
        Some(f) => Ok(Val::I(eng.spawn(s, f, a.v[1].clone()) as u64)),
        None => unsup("vx_spawn"),
    }
}
fn stub(eng: &mut Engine, name: &str, av: &[Val]) -> R<Out> {
    match eng.md.fns.iter().position(|f| f.name == name && f.defined) {
        Some(f) => Ok(Out::Enter(f as u32, av.to_vec())),
        None => unsup(format!("text of a symbolic number without {name}")),
    }
}
const TOKEN: &str = "87654321.";
fn text_lookup(eng: &mut Engine, s: &mut State, p: &Val, n: &Val) -> R<Option<E>> {
    let n = num(eng, s, n)?;
    if n != TOKEN.len() as u64 + 6 {
        return Ok(None);
    }
    let p = num(eng, s, p)?;
    let mut t = vec![];
    for b in eng.read_bytes(s, p, n)? {
        match b {
            Val::I(x) => t.push(x as u8),
            _ => return Ok(None),
        }
    }
    let t = String::from_utf8_lossy(&t);
    let Some(k) = t.strip_prefix(TOKEN).and_then(|k| k.parse::<usize>().ok()) else { return Ok(None) };
    Ok(s.env.texts.get(k).copied())
}
/// (x, buffer) -> length: token for a symbolic number
fn vx_text(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let x = eng.fx(&a.v[0]);
    let k = match s.env.texts.iter().position(|e| *e == x) {
        Some(k) => k,
        None => {
            Rc::make_mut(&mut s.env).texts.push(x);
            s.env.texts.len() - 1
        }
    };
    let t = format!("{TOKEN}{k:06}");
    let p = num(eng, s, &a.v[1])?;
    eng.put_bytes(s, p, t.as_bytes(), None)?;
    Ok(Val::I(t.len() as u64))
}
/// (text, length) -> the number with this token
fn vx_untext(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    match text_lookup(eng, s, &a.v[0], &a.v[1])? {
        Some(e) => Ok(Val::E(e)),
        None => unsup("no such token"),
    }
}
fn vx_unsupported(_: &mut Engine, _: &mut State, _: &A) -> R<Val> {
    unsup("declared by the harness")
}

// ---------- helpers ----------
fn nop(_: &mut Engine, _: &mut State, _: &A) -> R<Val> {
    Ok(Z)
}
fn zero(_: &mut Engine, _: &mut State, _: &A) -> R<Val> {
    Ok(Z)
}
fn one(_: &mut Engine, _: &mut State, _: &A) -> R<Val> {
    Ok(Val::I(1))
}
fn minus1(_: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    Ok(Val::I(mask64(a.r.w())))
}
fn all_ones(_: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    Ok(Val::I(mask64(a.r.w())))
}
fn first(_: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    Ok(a.v[0].clone())
}
fn num(eng: &mut Engine, s: &mut State, v: &Val) -> R<u64> {
    eng.concretize(s, v, 64)
}
fn neg_errno(eng: &mut Engine, s: &mut State, e: u32, r: &Ty) -> R<Val> {
    s.mem.get_mut(eng.errno_obj).unwrap().data = e.to_le_bytes().to_vec();
    Ok(Val::I(mask64(r.w())))
}
fn tag(eng: &mut Engine, s: &mut State, a: &A) -> R<String> {
    let p = num(eng, s, &a.v[0])?;
    let n = num(eng, s, &a.v[1])?;
    let b = eng.read_conc(s, p, n)?;
    Ok(String::from_utf8_lossy(&b).into_owned())
}
fn var_name(s: &State, t: &str) -> String {
    let k = s.env.counters.get(t).copied().unwrap_or(0);
    if k == 0 {
        t.to_string()
    } else {
        format!("{t}#{k}")
    }
}
fn bump(s: &mut State, t: &str) {
    *Rc::make_mut(&mut s.env).counters.entry(t.to_string()).or_insert(0) += 1;
}

// ---------- harness API ----------
fn vx_int(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    let (lo, hi) = (num(eng, s, &a.v[2])?, num(eng, s, &a.v[3])?);
    let n = var_name(s, &t);
    bump(s, &t);
    let e = eng.cx.var(&n, VarKind::Int { w: 64, lo, hi });
    Ok(eng.val(e))
}
fn vx_pick(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    let (lo, hi) = (num(eng, s, &a.v[2])?, num(eng, s, &a.v[3])?);
    let n = var_name(s, &t);
    let e = eng.cx.var(&n, VarKind::Int { w: 64, lo, hi });
    let k = eng.concretize(s, &Val::E(e), 64)?;
    bump(s, &t);
    Ok(Val::I(k))
}
fn vx_byte(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    let (p, n) = (num(eng, s, &a.v[2])?, num(eng, s, &a.v[3])?);
    let set = eng.read_conc(s, p, n)?;
    let mut b = [0u64; 4];
    for x in set {
        b[(x >> 6) as usize] |= 1 << (x & 63);
    }
    let n = var_name(s, &t);
    bump(s, &t);
    let e = eng.cx.var(&n, VarKind::Byte(b));
    Ok(eng.val(e))
}
fn vx_grid(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    let (lo, hi, den) = (num(eng, s, &a.v[2])? as i64, num(eng, s, &a.v[3])? as i64, num(eng, s, &a.v[4])? as i64);
    let n = var_name(s, &t);
    bump(s, &t);
    if lo == hi {
        return Ok(Val::I((lo as f64 / den as f64).to_bits()));
    }
    let e = eng.cx.var(&n, VarKind::Grid { lo, hi, den });
    Ok(eng.val(e))
}
fn vx_any_f64(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    let fin = num(eng, s, &a.v[2])? & 1 != 0;
    let n = var_name(s, &t);
    bump(s, &t);
    let e = eng.cx.var(&n, VarKind::AnyF64 { finite: fin });
    Ok(eng.val(e))
}
fn boolex(eng: &mut Engine, v: &Val, t: &Ty) -> E {
    let w = t.w();
    let e = eng.ex(v, w);
    if w == 1 {
        e
    } else {
        let z = eng.cx.cst(0, w);
        let q = eng.cx.eq(e, z);
        eng.cx.not(q)
    }
}
fn vx_assume(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let c = boolex(eng, &a.v[0], &a.t[0].0);
    eng.assume(s, c)?;
    Ok(Z)
}
fn vx_check(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[1])?, num(eng, s, &a.v[2])?);
    let id = String::from_utf8_lossy(&eng.read_conc(s, p, n)?).into_owned();
    let c = boolex(eng, &a.v[0], &a.t[0].0);
    s.checks += 1;
    *eng.check_ids.entry(id.clone()).or_insert(0) += 1;
    if let Some(k) = eng.cx.is_c(c) {
        if k != 0 {
            eng.st.checks_conc += 1;
            return Ok(Z);
        }
        return Err(Stop::End(End::Violation(id)));
    }
    if s.known.get(&c) == Some(&true) {
        eng.st.checks_conc += 1;
        return Ok(Z);
    }
    let nc = eng.cx.not(c);
    let vals = if eng.eval_state(s, c) == Some(false) {
        Some(s.model.clone())
    } else {
        match eng.query(s, &[nc]) {
            Res::Unsat => None,
            Res::Sat(v) => Some(Rc::new(Model::new(v))),
            Res::Unknown(r) => {
                eng.st.inconclusive += 1;
                eng.note(format!("solver unknown on check {id} ({r})"));
                eng.assume(s, c)?;
                return Ok(Z);
            }
        }
    };
    match vals {
        None => {
            eng.st.checks_proved += 1;
            let k = Rc::make_mut(&mut s.known);
            k.insert(c, true);
            k.insert(nc, false);
        }
        Some(m) => {
            let mut o = s.clone();
            o.model = m;
            let pe = eng.path_end(&o, End::Violation(id));
            eng.violations.push(pe);
            eng.assume(s, c)?;
        }
    }
    Ok(Z)
}
/// exact equality symbolically, equality up to rounding in a native replay
fn vx_close(eng: &mut Engine, _s: &mut State, a: &A) -> R<Val> {
    let (x, y) = (eng.fx(&a.v[0]), eng.fx(&a.v[1]));
    let e = eng.cx.feq(x, y);
    let w = a.r.w();
    let e = if w > 1 { eng.cx.zext(e, w) } else { e };
    Ok(eng.val(e))
}
fn vx_and(eng: &mut Engine, _s: &mut State, a: &A) -> R<Val> {
    let (x, y) = (boolex(eng, &a.v[0], &a.t[0].0), boolex(eng, &a.v[1], &a.t[1].0));
    let e = eng.cx.and(x, y);
    let w = a.r.w();
    let e = if w > 1 { eng.cx.zext(e, w) } else { e };
    Ok(eng.val(e))
}
fn vx_or(eng: &mut Engine, _s: &mut State, a: &A) -> R<Val> {
    let (x, y) = (boolex(eng, &a.v[0], &a.t[0].0), boolex(eng, &a.v[1], &a.t[1].0));
    let e = eng.cx.or(x, y);
    let w = a.r.w();
    let e = if w > 1 { eng.cx.zext(e, w) } else { e };
    Ok(eng.val(e))
}
fn vx_cover(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    if !s.covers.contains(&t) {
        Rc::make_mut(&mut s.covers).push(t);
    }
    Ok(Z)
}
fn vx_print(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    eprintln!("[vx] {t}");
    Ok(Z)
}
fn vx_log_u64(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    s.logs.push((t, LogV::U(a.v[2].clone())));
    Ok(Z)
}
fn vx_log_f64(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    s.logs.push((t, LogV::F(a.v[2].clone())));
    Ok(Z)
}
fn vx_log_bytes(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let t = tag(eng, s, a)?;
    let (p, n) = (num(eng, s, &a.v[2])?, num(eng, s, &a.v[3])?);
    let b = eng.read_bytes(s, p, n)?;
    s.logs.push((t, LogV::Bytes(b)));
    Ok(Z)
}
fn vx_file_limit(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let env = Rc::make_mut(&mut s.env);
    env.limit = None;
    env.limit_e = None;
    env.full = false;
    match &a.v[0] {
        Val::E(e) => env.limit_e = Some(*e),
        v => {
            let n = num(eng, s, v)?;
            Rc::make_mut(&mut s.env).limit = if n == u64::MAX { None } else { Some(n) };
        }
    }
    Ok(Z)
}
fn vx_ok_exit(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[0])?;
    Rc::make_mut(&mut s.env).ok_exit = n & 1 != 0;
    Ok(Z)
}
fn vx_ok_panic(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[0])?;
    Rc::make_mut(&mut s.env).ok_panic = n & 1 != 0;
    Ok(Z)
}
/// fork over all values of an expression
fn vx_conc_u64(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    Ok(Val::I(num(eng, s, &a.v[0])?))
}
fn vx_conc_bytes(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[1])?);
    let b = eng.read_bytes(s, p, n)?;
    for (i, v) in b.iter().enumerate() {
        if !v.is_conc() {
            let k = eng.concretize(s, v, 8)?;
            eng.store_scalar(s, p + i as u64, &Ty::I(8), &Val::I(k))?;
        }
    }
    Ok(Z)
}
fn vx_cases(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    // fork on a condition, returning it concretely
    let c = boolex(eng, &a.v[0], &a.t[0].0);
    let b = eng.decide(s, c)?;
    Ok(Val::I(b as u64))
}
/// direct access to the in-memory file system: (path, len, data, n)
fn vx_put_file(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[1])?);
    let path = eng.read_conc(s, p, n)?;
    let (d, m) = (num(eng, s, &a.v[2])?, num(eng, s, &a.v[3])?);
    let mut o = Obj::new(m as usize, OKind::Heap);
    if m > 0 {
        let (_, off, src) = eng.resolve(s, d, m)?;
        o.data.copy_from_slice(&src.data[off..off + m as usize]);
        if let Some(sy) = &src.sym {
            o.sym = Some(sy[off..off + m as usize].to_vec());
        }
    }
    Rc::make_mut(&mut s.env).files.insert(norm(&path), Rc::new(FileObj { data: o }));
    Ok(Z)
}
/// (path, len, buf, cap) -> length, or u64::MAX if there is no such file
fn vx_get_file(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[1])?);
    let path = norm(&eng.read_conc(s, p, n)?);
    let (d, m) = (num(eng, s, &a.v[2])?, num(eng, s, &a.v[3])?);
    let Some(f) = s.env.files.get(&path).cloned() else { return Ok(Val::I(u64::MAX)) };
    let k = f.data.data.len().min(m as usize);
    eng.put_bytes(s, d, &f.data.data[..k], f.data.sym.as_ref().map(|x| &x[..k]))?;
    Ok(Val::I(f.data.data.len() as u64))
}

// ---------- allocator ----------
fn rust_alloc(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[0])?;
    Ok(Val::I(eng.heap(s, n, OKind::Heap)?))
}
fn rust_dealloc(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = num(eng, s, &a.v[0])?;
    free_at(eng, s, p)?;
    Ok(Z)
}
fn free_at(eng: &mut Engine, s: &mut State, p: u64) -> R<()> {
    if p == 0 {
        return Ok(());
    }
    let (_, off, _) = eng.resolve(s, p, 0)?;
    let (id, _) = split(p);
    if off != 0 || s.mem.get(id).map(|o| o.kind) != Some(OKind::Heap) {
        return unsup("invalid free");
    }
    s.mem.free(id);
    Ok(())
}
fn realloc_at(eng: &mut Engine, s: &mut State, p: u64, n: u64) -> R<Val> {
    if p == 0 {
        return Ok(Val::I(eng.heap(s, n, OKind::Heap)?));
    }
    let (_, _, o) = eng.resolve(s, p, 0)?;
    let keep = (o.data.len() as u64).min(n);
    let q = eng.heap(s, n, OKind::Heap)?;
    eng.copy_bytes(s, q, p, keep)?;
    free_at(eng, s, p)?;
    Ok(Val::I(q))
}
fn rust_realloc(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = num(eng, s, &a.v[0])?;
    let n = num(eng, s, &a.v[3])?;
    realloc_at(eng, s, p, n)
}
fn c_malloc(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    rust_alloc(eng, s, a)
}
fn c_calloc(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[0])?;
    let m = num(eng, s, &a.v[1])?;
    Ok(Val::I(eng.heap(s, n * m, OKind::Heap)?))
}
fn c_free(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    rust_dealloc(eng, s, a)
}
fn c_realloc(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = num(eng, s, &a.v[0])?;
    let n = num(eng, s, &a.v[1])?;
    realloc_at(eng, s, p, n)
}
fn c_posix_memalign(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let out = num(eng, s, &a.v[0])?;
    let n = num(eng, s, &a.v[2])?;
    let q = eng.heap(s, n, OKind::Heap)?;
    eng.store_scalar(s, out, &Ty::Ptr, &Val::I(q))?;
    Ok(Z)
}
fn c_mmap(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[1])?;
    let fd = num(eng, s, &a.v[4])? as i32;
    if fd != -1 {
        return Ok(Val::I(u64::MAX));
    }
    Ok(Val::I(eng.heap(s, n, OKind::Mmap)?))
}

// ---------- panics ----------
fn panic_fmt(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let mut msg = String::from("panic");
    if let Some(Val::I(p)) = a.v.last() {
        let loc = (|| -> R<String> {
            let f = eng.load_scalar(s, *p, &Ty::Ptr)?.i();
            let n = eng.load_scalar(s, *p + 8, &Ty::I(64))?.i();
            let l = eng.load_scalar(s, *p + 16, &Ty::I(32))?.i();
            let b = eng.read_conc(s, f, n)?;
            Ok(format!("{}:{l}", String::from_utf8_lossy(&b)))
        })();
        if let Ok(l) = loc {
            msg = format!("panic at {l}");
        }
    }
    // static message text, if the arguments are a plain string
    Err(Stop::End(End::Panic(msg)))
}
fn panic_plain(_: &mut Engine, _s: &mut State, a: &A) -> R<Val> {
    Err(Stop::End(End::Panic(format!("panic ({})", demangle(&a.name)))))
}
fn c_exit(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[0])?;
    if !s.env.ok_exit {
        return Err(Stop::End(End::Violation(format!("exit with status {}", n as i32))));
    }
    Err(Stop::End(End::Exit(n as i32)))
}
fn blocking(_: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    Err(Stop::End(End::Panic(format!("deadlock: the only thread blocks in {}", a.name))))
}

// ---------- memory ----------
fn memcpy(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[2])?;
    let (d, p) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[1])?);
    eng.copy_bytes(s, d, p, n)?;
    Ok(Z)
}
fn memcpy_ret(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    memcpy(eng, s, a)?;
    Ok(a.v[0].clone())
}
fn memset(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[2])? as usize;
    let d = num(eng, s, &a.v[0])?;
    match &a.v[1] {
        Val::E(e) => {
            let mut e = *e;
            if eng.cx.w(e) > 8 {
                e = eng.cx.trunc(e, 8);
            }
            let sb = vec![SB { e, i: 0 }; n];
            eng.put_bytes(s, d, &vec![0; n], Some(&sb))?;
        }
        v => eng.put_bytes(s, d, &vec![v.i() as u8; n], None)?,
    }
    Ok(Z)
}
fn memset_ret(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    memset(eng, s, a)?;
    Ok(a.v[0].clone())
}
fn two(eng: &mut Engine, s: &mut State, a: &A) -> R<(Vec<Val>, Vec<Val>)> {
    let n = num(eng, s, &a.v[2])?;
    let (p, q) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[1])?);
    Ok((eng.read_bytes(s, p, n)?, eng.read_bytes(s, q, n)?))
}
fn bcmp(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (x, y) = two(eng, s, a)?;
    let mut acc = Ctx::T;
    // a concrete difference decides at once
    for (p, q) in x.iter().zip(&y) {
        if let (Val::I(p), Val::I(q)) = (p, q) {
            if p != q {
                return Ok(Val::I(1));
            }
        }
    }
    for (p, q) in x.iter().zip(&y) {
        if let (Val::I(_), Val::I(_)) = (p, q) {
            continue;
        }
        let (p, q) = (eng.ex(p, 8), eng.ex(q, 8));
        let c = eng.cx.eq(p, q);
        acc = eng.cx.and(acc, c);
    }
    let ne = eng.cx.not(acc);
    let e = eng.cx.zext(ne, 32);
    Ok(eng.val(e))
}
fn memcmp(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (x, y) = two(eng, s, a)?;
    let mut r = eng.cx.cst(0, 32);
    let mut start = x.len();
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        match (p, q) {
            (Val::I(p), Val::I(q)) if p == q => {}
            (Val::I(p), Val::I(q)) => {
                r = eng.cx.cst(if p < q { u128::MAX } else { 1 }, 32);
                start = i;
                break;
            }
            _ => {}
        }
    }
    for i in (0..start).rev() {
        if let (Val::I(_), Val::I(_)) = (&x[i], &y[i]) {
            continue;
        }
        let (p, q) = (eng.ex(&x[i], 8), eng.ex(&y[i], 8));
        let c = eng.cx.eq(p, q);
        let lt = eng.cx.ult(p, q);
        let m = eng.cx.cst(u128::MAX, 32);
        let o = eng.cx.cst(1, 32);
        let d = eng.cx.ite(lt, m, o);
        r = eng.cx.ite(c, r, d);
    }
    Ok(eng.val(r))
}
/// first index whose byte is in the needle list (forks on symbolic bytes)
fn find(eng: &mut Engine, s: &mut State, hay: &[Val], needles: &[Val], rev: bool) -> R<Option<usize>> {
    let n = hay.len();
    for j in 0..n {
        let i = if rev { n - 1 - j } else { j };
        let mut acc = Ctx::F;
        for nd in needles {
            match (&hay[i], nd) {
                (Val::I(p), Val::I(q)) => {
                    if p == q {
                        acc = Ctx::T;
                        break;
                    }
                }
                (p, q) => {
                    let (p, q) = (eng.ex(p, 8), eng.ex(q, 8));
                    let c = eng.cx.eq(p, q);
                    acc = eng.cx.or(acc, c);
                }
            }
        }
        if acc == Ctx::F {
            continue;
        }
        if acc == Ctx::T || eng.decide(s, acc)? {
            return Ok(Some(i));
        }
    }
    Ok(None)
}
fn byte_arg(eng: &mut Engine, v: &Val) -> Val {
    match v {
        Val::I(x) => Val::I(x & 0xff),
        Val::E(e) => {
            let e = if eng.cx.w(*e) > 8 { eng.cx.trunc(*e, 8) } else { *e };
            eng.val(e)
        }
        _ => v.clone(),
    }
}
fn c_memchr(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[2])?);
    let h = eng.read_bytes(s, p, n)?;
    let b = byte_arg(eng, &a.v[1]);
    Ok(Val::I(find(eng, s, &h, &[b], false)?.map_or(0, |i| p + i as u64)))
}
fn c_memrchr(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[2])?);
    let h = eng.read_bytes(s, p, n)?;
    let b = byte_arg(eng, &a.v[1]);
    Ok(Val::I(find(eng, s, &h, &[b], true)?.map_or(0, |i| p + i as u64)))
}
fn opt_idx(a: &A, r: Option<usize>) -> R<Val> {
    match a.r {
        Ty::Agg(_) => Ok(Val::A(Rc::new(match r {
            Some(i) => vec![Val::I(1), Val::I(i as u64)],
            None => vec![Z, Z],
        }))),
        _ => unsup("memchr: unexpected return type"),
    }
}
fn core_memchr(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[1])?, num(eng, s, &a.v[2])?);
    let h = eng.read_bytes(s, p, n)?;
    let b = byte_arg(eng, &a.v[0]);
    let r = find(eng, s, &h, &[b], false)?;
    opt_idx(a, r)
}
fn core_memrchr(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[1])?, num(eng, s, &a.v[2])?);
    let h = eng.read_bytes(s, p, n)?;
    let b = byte_arg(eng, &a.v[0]);
    let r = find(eng, s, &h, &[b], true)?;
    opt_idx(a, r)
}
fn mc(eng: &mut Engine, s: &mut State, a: &A, rev: bool) -> R<Val> {
    let k = a.v.len();
    let (p, q) = (num(eng, s, &a.v[k - 2])?, num(eng, s, &a.v[k - 1])?);
    let h = if q > p { eng.read_bytes(s, p, q - p)? } else { vec![] };
    let nd: Vec<Val> = a.v[..k - 2].iter().map(|v| byte_arg(eng, v)).collect();
    let r = find(eng, s, &h, &nd, rev)?;
    match a.r {
        Ty::Agg(_) => Ok(Val::A(Rc::new(match r {
            Some(i) => vec![Val::I(1), Val::I(p + i as u64)],
            None => vec![Z, Z],
        }))),
        _ => Ok(Val::I(r.map_or(0, |i| p + i as u64))),
    }
}
fn mc_memchr(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    mc(eng, s, a, false)
}
fn mc_memrchr(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    mc(eng, s, a, true)
}
fn strlen(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = num(eng, s, &a.v[0])?;
    let (_, off, o) = eng.resolve(s, p, 1)?;
    let n = o.data.len() - off;
    let h = eng.read_bytes(s, p, n as u64)?;
    match find(eng, s, &h, &[Z], false)? {
        Some(i) => Ok(Val::I(i as u64)),
        None => unsup("strlen: unterminated string"),
    }
}

// ---------- integer intrinsics ----------
fn lanes2(eng: &mut Engine, a: &A, f: &mut dyn FnMut(&mut Engine, u32, &Val, &Val) -> R<Val>) -> R<Val> {
    let w = a.t[0].0.scalar().w();
    match (&a.v[0], &a.v[1]) {
        (Val::A(x), Val::A(y)) => {
            let mut o = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                o.push(f(eng, w, p, q)?);
            }
            Ok(Val::A(Rc::new(o)))
        }
        (x, y) => f(eng, w, x, y),
    }
}
fn pick2(eng: &mut Engine, w: u32, p: IPred, x: &Val, y: &Val) -> R<Val> {
    let c = eng.icmp(p, w, x, y);
    eng.select(&Ty::I(w), &c, x, y)
}
fn umin(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes2(eng, a, &mut |e, w, x, y| pick2(e, w, IPred::Ult, x, y))
}
fn umax(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes2(eng, a, &mut |e, w, x, y| pick2(e, w, IPred::Ugt, x, y))
}
fn smin(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes2(eng, a, &mut |e, w, x, y| pick2(e, w, IPred::Slt, x, y))
}
fn smax(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes2(eng, a, &mut |e, w, x, y| pick2(e, w, IPred::Sgt, x, y))
}
fn iabs(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    let w = a.t[0].0.scalar().w();
    let x = a.v[0].clone();
    let n = eng.bin(Bin::Sub, w, &Z, &x)?;
    let c = eng.icmp(IPred::Slt, w, &x, &Z);
    eng.select(&Ty::I(w), &c, &n, &x)
}
fn usub_sat(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes2(eng, a, &mut |e, w, x, y| {
        let d = e.bin(Bin::Sub, w, x, y)?;
        let c = e.icmp(IPred::Ult, w, x, y);
        e.select(&Ty::I(w), &c, &Z, &d)
    })
}
fn uadd_sat(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes2(eng, a, &mut |e, w, x, y| {
        let d = e.bin(Bin::Add, w, x, y)?;
        let c = e.icmp(IPred::Ult, w, &d, x);
        e.select(&Ty::I(w), &c, &Val::I(mask64(w)), &d)
    })
}
fn sat_s(eng: &mut Engine, a: &A, op: Bin) -> R<Val> {
    lanes2(eng, a, &mut |e, w, x, y| {
        if !x.is_conc() || !y.is_conc() || w > 64 {
            return unsup("symbolic signed saturation");
        }
        let (p, q) = (sext64(x.i(), w) as i128, sext64(y.i(), w) as i128);
        let r = if op == Bin::Add { p + q } else { p - q };
        let hi = (1i128 << (w - 1)) - 1;
        let _ = &e;
        Ok(Val::I(r.clamp(-hi - 1, hi) as u64 & mask64(w)))
    })
}
fn ssub_sat(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    sat_s(eng, a, Bin::Sub)
}
fn sadd_sat(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    sat_s(eng, a, Bin::Add)
}
fn ovf(eng: &mut Engine, a: &A, op: Op, signed: bool) -> R<Val> {
    let w = a.t[0].0.w();
    if matches!(a.v[0], Val::A(_)) {
        return unsup("vector overflow intrinsic");
    }
    if a.v[0].is_conc() && a.v[1].is_conc() && w <= 64 {
        let (x, y) = (a.v[0].i(), a.v[1].i());
        let (r, o);
        if signed {
            let (p, q) = (sext64(x, w) as i128, sext64(y, w) as i128);
            let t = match op {
                Op::Add => p + q,
                Op::Sub => p - q,
                _ => p * q,
            };
            let hi = (1i128 << (w - 1)) - 1;
            o = t > hi || t < -hi - 1;
            r = t as u64 & mask64(w);
        } else {
            let (p, q) = (x as i128, y as i128);
            let t = match op {
                Op::Add => p + q,
                Op::Sub => p - q,
                _ => ((x as u128) * (y as u128)) as i128,
            };
            o = t < 0 || (t as u128) > mask64(w) as u128;
            r = t as u64 & mask64(w);
        }
        return Ok(Val::A(Rc::new(vec![Val::I(r), Val::I(o as u64)])));
    }
    let (x, y) = (eng.ex(&a.v[0], w), eng.ex(&a.v[1], w));
    let r = eng.cx.bin(op, x, y);
    let o = match (op, signed) {
        (Op::Add, false) => eng.cx.ult(r, x),
        (Op::Sub, false) => eng.cx.ult(x, y),
        _ => {
            let ww = if op == Op::Mul { 2 * w } else { w + 1 };
            if ww > 128 {
                return unsup("wide overflow intrinsic");
            }
            let (p, q) = if signed { (eng.cx.sext(x, ww), eng.cx.sext(y, ww)) } else { (eng.cx.zext(x, ww), eng.cx.zext(y, ww)) };
            let t = eng.cx.bin(op, p, q);
            let b = if signed { eng.cx.sext(r, ww) } else { eng.cx.zext(r, ww) };
            let q = eng.cx.eq(t, b);
            eng.cx.not(q)
        }
    };
    let (r, o) = (eng.val(r), eng.val(o));
    Ok(Val::A(Rc::new(vec![r, o])))
}
fn umulo(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    ovf(e, a, Op::Mul, false)
}
fn uaddo(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    ovf(e, a, Op::Add, false)
}
fn usubo(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    ovf(e, a, Op::Sub, false)
}
fn smulo(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    ovf(e, a, Op::Mul, true)
}
fn saddo(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    ovf(e, a, Op::Add, true)
}
fn ssubo(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    ovf(e, a, Op::Sub, true)
}
fn cmp3(eng: &mut Engine, a: &A, lt: IPred) -> R<Val> {
    let rw = a.r.scalar().w();
    lanes2(eng, a, &mut |e, w, x, y| {
        let l = e.icmp(lt, w, x, y);
        let q = e.icmp(IPred::Eq, w, x, y);
        let g = e.select(&Ty::I(rw), &q, &Z, &Val::I(1))?;
        e.select(&Ty::I(rw), &l, &Val::I(mask64(rw)), &g)
    })
}
fn ucmp(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    cmp3(e, a, IPred::Ult)
}
fn scmp(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    cmp3(e, a, IPred::Slt)
}
fn lanes1(eng: &mut Engine, a: &A, f: &mut dyn FnMut(&mut Engine, u32, &Val) -> R<Val>) -> R<Val> {
    let w = a.t[0].0.scalar().w();
    match &a.v[0] {
        Val::A(x) => {
            let mut o = vec![];
            for p in x.iter() {
                o.push(f(eng, w, p)?);
            }
            Ok(Val::A(Rc::new(o)))
        }
        x => f(eng, w, x),
    }
}
fn bits_table(eng: &mut Engine, w: u32, x: &Val, f: fn(u128, u32) -> u128) -> R<Option<Val>> {
    if x.is_conc() {
        return Ok(Some(Val::from_w(f(x.u128(), w), w)));
    }
    let _ = eng;
    Ok(None)
}
fn ctlz(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes1(eng, a, &mut |e, w, x| {
        if let Some(v) = bits_table(e, w, x, |x, w| (x.leading_zeros() - (128 - w)) as u128)? {
            return Ok(v);
        }
        let xe = e.ex(x, w);
        let mut r = e.cx.cst(w as u128, w);
        for i in 0..w {
            let b = e.cx.extract(xe, i, 1);
            let k = e.cx.cst((w - 1 - i) as u128, w);
            r = e.cx.ite(b, k, r);
        }
        Ok(e.val(r))
    })
}
fn cttz(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes1(eng, a, &mut |e, w, x| {
        if let Some(v) = bits_table(e, w, x, |x, w| (x.trailing_zeros() as u128).min(w as u128))? {
            return Ok(v);
        }
        let xe = e.ex(x, w);
        let mut r = e.cx.cst(w as u128, w);
        for i in (0..w).rev() {
            let b = e.cx.extract(xe, i, 1);
            let k = e.cx.cst(i as u128, w);
            r = e.cx.ite(b, k, r);
        }
        Ok(e.val(r))
    })
}
fn ctpop(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes1(eng, a, &mut |e, w, x| {
        if let Some(v) = bits_table(e, w, x, |x, _| x.count_ones() as u128)? {
            return Ok(v);
        }
        let xe = e.ex(x, w);
        let mut r = e.cx.cst(0, w);
        for i in 0..w {
            let b = e.cx.extract(xe, i, 1);
            let z = e.cx.zext(b, w);
            r = e.cx.bin(Op::Add, r, z);
        }
        Ok(e.val(r))
    })
}
fn bswap(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes1(eng, a, &mut |e, w, x| {
        if let Some(v) = bits_table(e, w, x, |x, w| x.swap_bytes() >> (128 - w))? {
            return Ok(v);
        }
        let xe = e.ex(x, w);
        let mut r = e.cx.extract(xe, 0, 8);
        for i in 1..w / 8 {
            let b = e.cx.extract(xe, i * 8, 8);
            r = e.cx.concat(r, b);
        }
        Ok(e.val(r))
    })
}
fn bitreverse(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes1(eng, a, &mut |e, w, x| match bits_table(e, w, x, |x, w| x.reverse_bits() >> (128 - w))? {
        Some(v) => Ok(v),
        None => unsup("symbolic bitreverse"),
    })
}
fn fsh(eng: &mut Engine, s: &mut State, a: &A, left: bool) -> R<Val> {
    let w = a.t[0].0.scalar().w();
    if matches!(a.v[0], Val::A(_)) {
        // lane-wise with constant amounts
        let (Val::A(x), Val::A(y), Val::A(z)) = (&a.v[0], &a.v[1], &a.v[2]) else { return unsup("vector funnel shift") };
        let mut o = vec![];
        for i in 0..x.len() {
            let k = num(eng, s, &z[i])? % w as u64;
            o.push(fsh1(eng, w, &x[i], &y[i], k, left)?);
        }
        return Ok(Val::A(Rc::new(o)));
    }
    let k = (num(eng, s, &a.v[2])? % w as u64) as u64;
    fsh1(eng, w, &a.v[0], &a.v[1], k, left)
}
fn fsh1(eng: &mut Engine, w: u32, x: &Val, y: &Val, k: u64, left: bool) -> R<Val> {
    if k == 0 {
        return Ok(if left { x.clone() } else { y.clone() });
    }
    let (l, r) = if left { (k, w as u64 - k) } else { (w as u64 - k, k) };
    let hi = eng.bin(Bin::Shl, w, x, &Val::I(l))?;
    let lo = eng.bin(Bin::LShr, w, y, &Val::I(r))?;
    eng.bin(Bin::Or, w, &hi, &lo)
}
fn fshl(e: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    fsh(e, s, a, true)
}
fn fshr(e: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    fsh(e, s, a, false)
}
fn reduce(eng: &mut Engine, a: &A, op: Bin) -> R<Val> {
    let w = a.t[0].0.scalar().w();
    let Val::A(x) = &a.v[0] else { return unsup("reduce") };
    let mut r = x[0].clone();
    for y in &x[1..] {
        r = eng.bin(op, w, &r, y)?;
    }
    Ok(r)
}
fn reduce_or(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    reduce(e, a, Bin::Or)
}
fn reduce_and(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    reduce(e, a, Bin::And)
}
fn reduce_add(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    reduce(e, a, Bin::Add)
}
fn ptrmask(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    e.bin(Bin::And, 64, &a.v[0], &a.v[1])
}

// ---------- floating point ----------
fn f1(eng: &mut Engine, a: &A, op: Op, f: fn(f64) -> f64, f32f: fn(f32) -> f32) -> R<Val> {
    let f32_ = *a.t[0].0.scalar() == Ty::F32;
    lanes1(eng, a, &mut |e, _, x| match x {
        Val::I(b) => Ok(Val::I(if f32_ { f32f(f32::from_bits(*b as u32)).to_bits() as u64 } else { f(f64::from_bits(*b)).to_bits() })),
        _ if f32_ => unsup("symbolic f32"),
        _ => {
            let x = e.fx(x);
            let r = e.cx.fun1(op, x);
            Ok(e.val(r))
        }
    })
}
fn fsqrt(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f1(e, a, Op::FSqrt, f64::sqrt, f32::sqrt)
}
fn ffabs(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    let f32_ = *a.t[0].0.scalar() == Ty::F32;
    lanes1(eng, a, &mut |e, _, x| match x {
        Val::I(b) => Ok(Val::I(if f32_ { b & 0x7fff_ffff } else { b & (u64::MAX >> 1) })),
        _ => {
            let x = e.fx(x);
            let r = e.cx.fabs(x);
            Ok(e.val(r))
        }
    })
}
fn ffloor(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f1(e, a, Op::FFloor, f64::floor, f32::floor)
}
fn fceil(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f1(e, a, Op::FCeil, f64::ceil, f32::ceil)
}
fn ftrunc(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f1(e, a, Op::FTrunc, f64::trunc, f32::trunc)
}
fn fround_even(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f1(e, a, Op::FRound, f64::round_ties_even, f32::round_ties_even)
}
fn fround_away(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    lanes1(eng, a, &mut |e, _, x| match x {
        Val::I(b) => Ok(Val::I(f64::from_bits(*b).round().to_bits())),
        _ => {
            // trunc(x + copysign(1/2, x)) (exact over the reals)
            let x = e.fx(x);
            let z = e.cx.fcst(0.);
            let h = e.cx.fcst(0.5);
            let c = e.cx.flt(x, z);
            let p = e.cx.fbin(Op::FAdd, x, h);
            let m = e.cx.fbin(Op::FSub, x, h);
            let p = e.cx.fun1(Op::FTrunc, p);
            let m = e.cx.fun1(Op::FTrunc, m);
            let r = e.cx.fite(c, m, p);
            Ok(e.val(r))
        }
    })
}
fn f2(eng: &mut Engine, a: &A, op: Op, f: fn(f64, f64) -> f64) -> R<Val> {
    let f32_ = *a.t[0].0.scalar() == Ty::F32;
    lanes2(eng, a, &mut |e, _, x, y| match (x, y) {
        (Val::I(p), Val::I(q)) => {
            if f32_ {
                Ok(Val::I((f(f32::from_bits(*p as u32) as f64, f32::from_bits(*q as u32) as f64) as f32).to_bits() as u64))
            } else {
                Ok(Val::I(f(f64::from_bits(*p), f64::from_bits(*q)).to_bits()))
            }
        }
        _ => {
            let (p, q) = (e.fx(x), e.fx(y));
            let r = e.cx.fbin(op, p, q);
            Ok(e.val(r))
        }
    })
}
fn fmin(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f2(e, a, Op::FMin, f64::min)
}
fn fmax(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f2(e, a, Op::FMax, f64::max)
}
fn ffmod(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    f2(e, a, Op::FRem, |x, y| x % y)
}
fn copysign(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    match (&a.v[0], &a.v[1]) {
        (Val::I(p), Val::I(q)) if a.t[0].0 == Ty::F64 => Ok(Val::I(f64::from_bits(*p).copysign(f64::from_bits(*q)).to_bits())),
        (x, Val::I(q)) if a.t[0].0 == Ty::F64 => {
            let x = eng.fx(x);
            let x = eng.cx.fabs(x);
            let r = if f64::from_bits(*q).is_sign_negative() { eng.cx.fneg(x) } else { x };
            Ok(eng.val(r))
        }
        (x, y) if a.t[0].0 == Ty::F64 && eng.cx.mode == FpMode::Real => {
            let x = eng.fx(x);
            let x = eng.cx.fabs(x);
            let n = eng.cx.fneg(x);
            let y = eng.fx(y);
            let z = eng.cx.fcst(0.);
            let c = eng.cx.flt(y, z);
            let r = eng.cx.fite(c, n, x);
            Ok(eng.val(r))
        }
        _ => unsup("symbolic copysign"),
    }
}
fn ffma(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    if a.v.iter().all(|v| matches!(v, Val::I(_))) && a.t[0].0 == Ty::F64 {
        let f = |i: usize| f64::from_bits(a.v[i].i());
        return Ok(Val::I(f(0).mul_add(f(1), f(2)).to_bits()));
    }
    if eng.cx.mode == FpMode::Real && a.t[0].0 == Ty::F64 {
        let (x, y, z) = (eng.fx(&a.v[0]), eng.fx(&a.v[1]), eng.fx(&a.v[2]));
        let m = eng.cx.fbin(Op::FMul, x, y);
        let r = eng.cx.fbin(Op::FAdd, m, z);
        return Ok(eng.val(r));
    }
    unsup("symbolic fma")
}
fn un(eng: &mut Engine, a: &A, k: u32, f: fn(f64) -> f64) -> R<Val> {
    match &a.v[0] {
        Val::I(b) => Ok(Val::I(f(f64::from_bits(*b)).to_bits())),
        x => {
            let x = eng.fx(x);
            let z = eng.cx.fcst(0.);
            let r = eng.cx.ufun(k, x, z);
            Ok(eng.val(r))
        }
    }
}
fn un2(eng: &mut Engine, a: &A, k: u32, f: fn(f64, f64) -> f64) -> R<Val> {
    match (&a.v[0], &a.v[1]) {
        (Val::I(p), Val::I(q)) => Ok(Val::I(f(f64::from_bits(*p), f64::from_bits(*q)).to_bits())),
        (x, y) => {
            let (x, y) = (eng.fx(x), eng.fx(y));
            let r = eng.cx.ufun(k, x, y);
            Ok(eng.val(r))
        }
    }
}
macro_rules! ufn {
    ($($n:ident $k:expr, $f:expr;)*) => { $(fn $n(e: &mut Engine, _: &mut State, a: &A) -> R<Val> { un(e, a, $k, $f) })* };
}
ufn! {
    fun_exp 1, f64::exp; fun_log 2, f64::ln; fun_log2 3, f64::log2; fun_log10 4, f64::log10; fun_sin 5, f64::sin;
    fun_cos 6, f64::cos; fun_tan 7, f64::tan; fun_atan 8, f64::atan; fun_asinh 9, f64::asinh; fun_cbrt 10, f64::cbrt;
    fun_sinh 11, f64::sinh; fun_cosh 12, f64::cosh; fun_tanh 13, f64::tanh; fun_acos 14, f64::acos; fun_asin 15, f64::asin;
    fun_log1p 16, f64::ln_1p; fun_expm1 17, f64::exp_m1;
}
fn fun_atan2(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    un2(e, a, 20, f64::atan2)
}
fn fun_hypot(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    un2(e, a, 21, f64::hypot)
}
fn fpow(eng: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    if let Val::I(q) = &a.v[1] {
        let p = f64::from_bits(*q);
        if p == 2. || p == 1. {
            let x = eng.fx(&a.v[0]);
            let r = if p == 2. { eng.cx.fbin(Op::FMul, x, x) } else { x };
            if !matches!(&a.v[0], Val::I(_)) {
                return Ok(eng.val(r));
            }
        }
        if p == 0.5 && !matches!(&a.v[0], Val::I(_)) && eng.cx.mode == FpMode::Real {
            let x = eng.fx(&a.v[0]);
            let r = eng.cx.fun1(Op::FSqrt, x);
            return Ok(eng.val(r));
        }
    }
    un2(eng, a, 22, f64::powf)
}
fn fpowi(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let k = num(eng, s, &a.v[1])? as u32 as i32;
    match &a.v[0] {
        Val::I(b) => Ok(Val::I(f64::from_bits(*b).powi(k).to_bits())),
        x => {
            let x = eng.fx(x);
            let mut r = eng.cx.fcst(1.);
            for _ in 0..k.unsigned_abs() {
                r = eng.cx.fbin(Op::FMul, r, x);
            }
            if k < 0 {
                let o = eng.cx.fcst(1.);
                r = eng.cx.fbin(Op::FDiv, o, r);
            }
            Ok(eng.val(r))
        }
    }
}
fn fpto_sat(eng: &mut Engine, a: &A, signed: bool) -> R<Val> {
    let w = a.r.scalar().w();
    let f32_ = *a.t[0].0.scalar() == Ty::F32;
    lanes1(eng, a, &mut |e, _, x| match x {
        Val::I(b) => {
            let f = if f32_ { f32::from_bits(*b as u32) as f64 } else { f64::from_bits(*b) };
            if signed {
                let hi = (1i128 << (w - 1)) - 1;
                Ok(Val::from_w((f as i128).clamp(-hi - 1, hi) as u128, w))
            } else {
                Ok(Val::from_w((f as u128).min(mask128(w)), w))
            }
        }
        _ => {
            let xe = e.fx(x);
            let (lo, hi) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0., 2f64.powi(w as i32)) };
            let (lov, hiv) = if signed { (1u128 << (w - 1), mask128(w - 1)) } else { (0, mask128(w)) };
            let r = e.cx.f2i(xe, w, signed);
            let (lo, hi) = (e.cx.fcst(lo), e.cx.fcst(hi));
            let (lov, hiv) = (e.cx.cst(lov, w), e.cx.cst(hiv, w));
            let c = e.cx.fle(xe, lo);
            let d = e.cx.fle(hi, xe);
            let r = e.cx.ite(d, hiv, r);
            let r = e.cx.ite(c, lov, r);
            let nan = e.cx.fnan(xe);
            let z = e.cx.cst(0, w);
            let r = e.cx.ite(nan, z, r);
            Ok(e.val(r))
        }
    })
}
fn fptosi_sat(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    fpto_sat(e, a, true)
}
fn fptoui_sat(e: &mut Engine, _: &mut State, a: &A) -> R<Val> {
    fpto_sat(e, a, false)
}
fn is_fpclass(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let m = num(eng, s, &a.v[1])?;
    match &a.v[0] {
        Val::I(b) => {
            let x = f64::from_bits(*b);
            use std::num::FpCategory::*;
            let neg = x.is_sign_negative();
            let bit = match x.classify() {
                Nan => {
                    return Ok(Val::I((m & 3 != 0) as u64));
                }
                Infinite => if neg { 2 } else { 9 },
                Normal => if neg { 3 } else { 8 },
                Subnormal => if neg { 4 } else { 7 },
                Zero => if neg { 5 } else { 6 },
            };
            Ok(Val::I(m >> bit & 1))
        }
        x => {
            const NAN: u64 = 3;
            const INF: u64 = 0x204;
            const FIN: u64 = 0x1f8;
            const ZERO: u64 = 0x60;
            const NONZERO: u64 = 0x198;
            let x = eng.fx(x);
            let mut left = m;
            let mut e = eng.cx.boolc(false);
            for c in [FIN, NAN, INF, ZERO, NONZERO] {
                if left & c != c {
                    continue;
                }
                left &= !c;
                let a = eng.cx.fabs(x);
                let inf = eng.cx.fcst(f64::INFINITY);
                let t = match c {
                    NAN => eng.cx.fnan(x),
                    INF => eng.cx.feq(a, inf),
                    FIN => eng.cx.flt(a, inf),
                    NONZERO => {
                        let z = eng.cx.fcst(0.);
                        let (f, p) = (eng.cx.flt(a, inf), eng.cx.flt(z, a));
                        eng.cx.and(f, p)
                    }
                    _ => {
                        let z = eng.cx.fcst(0.);
                        eng.cx.feq(x, z)
                    }
                };
                e = eng.cx.or(e, t);
            }
            if left == 0 {
                return Ok(eng.val(e));
            }
            unsup("symbolic is.fpclass")
        }
    }
}

// ---------- libc ----------
fn errno_location(eng: &mut Engine, _: &mut State, _: &A) -> R<Val> {
    Ok(Val::I(addr_of(eng.errno_obj)))
}
fn strerror_r(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, n) = (num(eng, s, &a.v[1])?, num(eng, s, &a.v[2])?);
    let m = b"error\0";
    if n >= m.len() as u64 {
        eng.put_bytes(s, p, m, None)?;
    }
    Ok(Z)
}
pub fn norm(p: &[u8]) -> Vec<u8> {
    if !p.starts_with(b"/") {
        return norm(&[b"/w/", p].concat());
    }
    let mut v: Vec<&[u8]> = vec![];
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                v.pop();
            }
            _ => v.push(c),
        }
    }
    let r = v.join(&b'/');
    {
        // absolute paths live under the virtual working directory "/w"
        if let Some(x) = r.strip_prefix(b"w/") {
            return x.to_vec();
        }
        if r == b"w" {
            return vec![];
        }
        let mut q = b"/".to_vec();
        q.extend(r);
        q
    }
}
fn path_arg(eng: &mut Engine, s: &mut State, v: &Val) -> R<Vec<u8>> {
    let p = num(eng, s, v)?;
    let b = eng.cstr(s, p)?;
    Ok(norm(&b))
}
fn parent_ok(s: &State, p: &[u8]) -> bool {
    match p.iter().rposition(|b| *b == b'/') {
        Some(0) => false,
        Some(i) => s.env.dirs.contains(&p[..i]),
        None => true,
    }
}
fn is_dir(s: &State, p: &[u8]) -> bool {
    p.is_empty() || p == b"/" || s.env.dirs.contains(p)
}
fn c_open(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = path_arg(eng, s, &a.v[0])?;
    let fl = num(eng, s, &a.v[1])? as u32;
    let (creat, excl, trunc) = (fl & 0x40 != 0, fl & 0x80 != 0, fl & 0x200 != 0);
    if is_dir(s, &p) {
        if fl & 3 != 0 {
            return neg_errno(eng, s, 21, a.r);
        }
    } else if s.env.files.contains_key(&p) {
        if creat && excl {
            return neg_errno(eng, s, 17, a.r);
        }
        if trunc && fl & 3 != 0 {
            Rc::make_mut(&mut s.env).files.insert(p.clone(), Rc::new(FileObj { data: Obj::new(0, OKind::Heap) }));
        }
    } else {
        if !creat || !parent_ok(s, &p) {
            return neg_errno(eng, s, 2, a.r);
        }
        Rc::make_mut(&mut s.env).files.insert(p.clone(), Rc::new(FileObj { data: Obj::new(0, OKind::Heap) }));
    }
    let env = Rc::make_mut(&mut s.env);
    let fd = env.next_fd;
    env.next_fd += 1;
    env.fds.insert(fd, (p, 0, fl));
    Ok(Val::I(fd as u64))
}
fn fd_arg(eng: &mut Engine, s: &mut State, v: &Val) -> R<i32> {
    Ok(num(eng, s, v)? as u32 as i32)
}
fn c_read(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let fd = fd_arg(eng, s, &a.v[0])?;
    let buf = num(eng, s, &a.v[1])?;
    let n = num(eng, s, &a.v[2])?;
    let Some((p, pos, fl)) = s.env.fds.get(&fd).cloned() else {
        return if fd == 0 { Ok(Z) } else { neg_errno(eng, s, 9, a.r) };
    };
    if fl & 3 == 1 {
        return neg_errno(eng, s, 9, a.r);
    }
    let Some(f) = s.env.files.get(&p).cloned() else { return neg_errno(eng, s, 21, a.r) };
    let len = f.data.data.len() as u64;
    let k = len.saturating_sub(pos).min(n);
    if k > 0 {
        let r = pos as usize..(pos + k) as usize;
        eng.put_bytes(s, buf, &f.data.data[r.clone()], f.data.sym.as_ref().map(|x| &x[r]))?;
        Rc::make_mut(&mut s.env).fds.get_mut(&fd).unwrap().1 += k;
    }
    Ok(Val::I(k))
}
fn do_write(eng: &mut Engine, s: &mut State, fd: i32, buf: u64, n: u64) -> R<Result<u64, u32>> {
    if fd == 2 {
        return Ok(Ok(n));
    }
    if fd == 1 && !s.env.fds.contains_key(&1) {
        let env = Rc::make_mut(&mut s.env);
        env.files.insert(b"<stdout>".to_vec(), Rc::new(FileObj { data: Obj::new(0, OKind::Heap) }));
        env.fds.insert(1, (b"<stdout>".to_vec(), 0, 1));
    }
    let Some((p, mut pos, fl)) = s.env.fds.get(&fd).cloned() else { return Ok(Err(9)) };
    if fl & 3 == 0 {
        return Ok(Err(9));
    }
    if !s.env.files.contains_key(&p) {
        // unlinked while open: data goes nowhere
        return Ok(Ok(n));
    }
    let len = s.env.files[&p].data.data.len() as u64;
    if fl & 0x400 != 0 {
        pos = len;
    }
    let mut k = n;
    if fd != 1 {
        if let Some(l) = s.env.limit {
            if pos >= l && n > 0 {
                return Ok(Err(27));
            }
            k = k.min(l - pos.min(l));
        }
        if let Some(l) = s.env.limit_e {
            if n > 0 {
                // of a write that does not fit either one half is written or nothing at all; all that follow fail
                let e = eng.cx.cst((pos + n) as u128, 64);
                let c = eng.cx.ule(e, l);
                if s.env.full {
                    return Ok(Err(27));
                }
                if !eng.decide(s, c)? {
                    let e = eng.cx.cst((pos + n / 2) as u128, 64);
                    let c = eng.cx.eq(e, l);
                    // decisions come before any side effects
                    let half = n > 1 && eng.decide(s, c)?;
                    Rc::make_mut(&mut s.env).full = true;
                    if !half {
                        return Ok(Err(27));
                    }
                    k = n / 2;
                }
            }
        }
    }
    if k > 0 {
        let (_, off, o) = eng.resolve(s, buf, k)?;
        let src = o.clone();
        let env = Rc::make_mut(&mut s.env);
        let f = Rc::make_mut(env.files.get_mut(&p).unwrap());
        let end = (pos + k) as usize;
        if f.data.data.len() < end {
            f.data.data.resize(end, 0);
            if let Some(sy) = &mut f.data.sym {
                sy.resize(end, CONC);
            }
        }
        let r = off..off + k as usize;
        f.data.data[pos as usize..end].copy_from_slice(&src.data[r.clone()]);
        match &src.sym {
            Some(sy) if sy[r.clone()].iter().any(|x| x.e != u32::MAX) => {
                let l = f.data.data.len();
                f.data.sym.get_or_insert_with(|| vec![CONC; l])[pos as usize..end].copy_from_slice(&sy[r]);
            }
            _ => f.data.set_conc(pos as usize, k as usize),
        }
        env.fds.get_mut(&fd).unwrap().1 = pos + k;
    }
    Ok(Ok(k))
}
fn c_write(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let fd = fd_arg(eng, s, &a.v[0])?;
    let buf = num(eng, s, &a.v[1])?;
    let n = num(eng, s, &a.v[2])?;
    match do_write(eng, s, fd, buf, n)? {
        Ok(k) => Ok(Val::I(k)),
        Err(e) => neg_errno(eng, s, e, a.r),
    }
}
fn c_writev(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let fd = fd_arg(eng, s, &a.v[0])?;
    let iov = num(eng, s, &a.v[1])?;
    let n = num(eng, s, &a.v[2])?;
    let mut parts = vec![];
    for i in 0..n {
        let b = eng.load_scalar(s, iov + 16 * i, &Ty::Ptr)?;
        let l = eng.load_scalar(s, iov + 16 * i + 8, &Ty::I(64))?;
        parts.push((num(eng, s, &b)?, num(eng, s, &l)?));
    }
    let mut tot = 0;
    for (b, l) in parts {
        if l == 0 {
            continue;
        }
        match do_write(eng, s, fd, b, l)? {
            Ok(k) => {
                tot += k;
                // with a symbolic limit the next part would be a decision after a side effect
                if k < l || s.env.limit_e.is_some() {
                    break;
                }
            }
            Err(e) => {
                if tot == 0 {
                    return neg_errno(eng, s, e, a.r);
                }
                break;
            }
        }
    }
    Ok(Val::I(tot))
}
fn c_close(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let fd = fd_arg(eng, s, &a.v[0])?;
    Rc::make_mut(&mut s.env).fds.remove(&fd);
    Ok(Z)
}
fn c_lseek(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let fd = fd_arg(eng, s, &a.v[0])?;
    let off = num(eng, s, &a.v[1])? as i64;
    let wh = num(eng, s, &a.v[2])?;
    let Some((p, pos, _)) = s.env.fds.get(&fd).cloned() else { return neg_errno(eng, s, 9, a.r) };
    let len = s.env.files.get(&p).map_or(0, |f| f.data.data.len() as i64);
    let n = match wh {
        0 => off,
        1 => pos as i64 + off,
        _ => len + off,
    };
    if n < 0 {
        return neg_errno(eng, s, 22, a.r);
    }
    Rc::make_mut(&mut s.env).fds.get_mut(&fd).unwrap().1 = n as u64;
    Ok(Val::I(n as u64))
}
fn put_stat(eng: &mut Engine, s: &mut State, p: &[u8], buf: u64) -> R<bool> {
    let (mode, size) = if is_dir(s, p) {
        (0o040755u32, 4096u64)
    } else if let Some(f) = s.env.files.get(p) {
        (0o100644, f.data.data.len() as u64)
    } else {
        return Ok(false);
    };
    let mut b = vec![0u8; 144];
    let ino = p.iter().fold(7u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64));
    b[8..16].copy_from_slice(&ino.to_le_bytes());
    b[16..24].copy_from_slice(&1u64.to_le_bytes());
    b[24..28].copy_from_slice(&mode.to_le_bytes());
    b[48..56].copy_from_slice(&size.to_le_bytes());
    b[56..64].copy_from_slice(&4096u64.to_le_bytes());
    eng.put_bytes(s, buf, &b, None)?;
    Ok(true)
}
fn c_fstat(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let fd = fd_arg(eng, s, &a.v[0])?;
    let buf = num(eng, s, &a.v[1])?;
    let Some((p, _, _)) = s.env.fds.get(&fd).cloned() else { return neg_errno(eng, s, 9, a.r) };
    if put_stat(eng, s, &p, buf)? {
        Ok(Z)
    } else {
        neg_errno(eng, s, 2, a.r)
    }
}
fn c_stat(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = path_arg(eng, s, &a.v[0])?;
    let buf = num(eng, s, &a.v[1])?;
    if put_stat(eng, s, &p, buf)? {
        Ok(Z)
    } else {
        neg_errno(eng, s, 2, a.r)
    }
}
fn c_ftruncate(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let fd = fd_arg(eng, s, &a.v[0])?;
    let n = num(eng, s, &a.v[1])? as usize;
    let Some((p, _, _)) = s.env.fds.get(&fd).cloned() else { return neg_errno(eng, s, 9, a.r) };
    let env = Rc::make_mut(&mut s.env);
    if let Some(f) = env.files.get_mut(&p) {
        let f = Rc::make_mut(f);
        f.data.data.resize(n, 0);
        if let Some(sy) = &mut f.data.sym {
            sy.resize(n, CONC);
        }
    }
    Ok(Z)
}
fn c_unlink(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = path_arg(eng, s, &a.v[0])?;
    if Rc::make_mut(&mut s.env).files.remove(&p).is_some() {
        Ok(Z)
    } else {
        neg_errno(eng, s, 2, a.r)
    }
}
fn c_mkdir(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = path_arg(eng, s, &a.v[0])?;
    if is_dir(s, &p) || s.env.files.contains_key(&p) {
        return neg_errno(eng, s, 17, a.r);
    }
    if !parent_ok(s, &p) {
        return neg_errno(eng, s, 2, a.r);
    }
    Rc::make_mut(&mut s.env).dirs.insert(p);
    Ok(Z)
}
fn c_rename(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = path_arg(eng, s, &a.v[0])?;
    let q = path_arg(eng, s, &a.v[1])?;
    let env = Rc::make_mut(&mut s.env);
    match env.files.remove(&p) {
        Some(f) => {
            env.files.insert(q, f);
            Ok(Z)
        }
        None => neg_errno(eng, s, 2, a.r),
    }
}
fn c_realpath(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = path_arg(eng, s, &a.v[0])?;
    if !is_dir(s, &p) && !s.env.files.contains_key(&p) {
        neg_errno(eng, s, 2, &Ty::I(32))?;
        return Ok(Z);
    }
    let mut full = if p.starts_with(b"/") { vec![] } else { b"/w".to_vec() };
    if !p.is_empty() {
        if !p.starts_with(b"/") {
            full.push(b'/');
        }
        full.extend(&p);
    }
    full.push(0);
    let d = num(eng, s, &a.v[1])?;
    let d = if d == 0 { eng.heap(s, full.len() as u64, OKind::Heap)? } else { d };
    eng.put_bytes(s, d, &full, None)?;
    Ok(Val::I(d))
}
fn c_getcwd(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let d = num(eng, s, &a.v[0])?;
    eng.put_bytes(s, d, b"/w\0", None)?;
    Ok(Val::I(d))
}
fn c_readlink(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    neg_errno(eng, s, 2, a.r)
}
fn c_fcntl(_: &mut Engine, _: &mut State, _: &A) -> R<Val> {
    Ok(Z)
}
fn c_sysconf(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[0])?;
    Ok(Val::I(match n {
        30 => 4096,
        84 => 1,
        83 => 1,
        _ => mask64(64),
    }))
}
fn clock_gettime(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = num(eng, s, &a.v[1])?;
    let env = Rc::make_mut(&mut s.env);
    env.clock += 1_000_000;
    let c = env.clock;
    eng.store_scalar(s, p, &Ty::I(64), &Val::I(c / 1_000_000_000))?;
    eng.store_scalar(s, p + 8, &Ty::I(64), &Val::I(c % 1_000_000_000))?;
    Ok(Z)
}
fn c_time(_: &mut Engine, _: &mut State, _: &A) -> R<Val> {
    Ok(Val::I(1_700_000_000))
}
fn c_syscall(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let n = num(eng, s, &a.v[0])?;
    match n {
        202 => {
            // futex
            let op = num(eng, s, &a.v[2])? & 0x7f;
            if op == 0 || op == 9 {
                return Err(Stop::End(End::Panic("deadlock: the only thread waits on a futex".into())));
            }
            Ok(Z)
        }
        318 => {
            let (p, l) = (num(eng, s, &a.v[1])?, num(eng, s, &a.v[2])?);
            let b: Vec<u8> = (0..l).map(|i| (i as u8).wrapping_mul(37).wrapping_add(11)).collect();
            eng.put_bytes(s, p, &b, None)?;
            Ok(Val::I(l))
        }
        186 => Ok(Val::I(1)),
        332 => neg_errno(eng, s, 38, a.r),
        _ => unsup(format!("system call {n}")),
    }
}
fn c_getrandom(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let (p, l) = (num(eng, s, &a.v[0])?, num(eng, s, &a.v[1])?);
    let b: Vec<u8> = (0..l).map(|i| (i as u8).wrapping_mul(37).wrapping_add(11)).collect();
    eng.put_bytes(s, p, &b, None)?;
    Ok(Val::I(l))
}
fn pthread_key_create(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let p = num(eng, s, &a.v[0])?;
    let env = Rc::make_mut(&mut s.env);
    let k = env.tsd.len() as u32 + 1;
    env.tsd.insert(k, 0);
    eng.store_scalar(s, p, &Ty::I(32), &Val::I(k as u64))?;
    Ok(Z)
}
fn pthread_setspecific(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let k = num(eng, s, &a.v[0])? as u32;
    let v = num(eng, s, &a.v[1])?;
    Rc::make_mut(&mut s.env).tsd.insert(k, v);
    Ok(Z)
}
fn pthread_getspecific(eng: &mut Engine, s: &mut State, a: &A) -> R<Val> {
    let k = num(eng, s, &a.v[0])? as u32;
    Ok(Val::I(s.env.tsd.get(&k).copied().unwrap_or(0)))
}
