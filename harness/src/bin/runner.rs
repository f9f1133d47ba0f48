//! Native execution of a harness on concrete values: `runner ENTRY ARGS REPLAYFILE`.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::{Condvar, Mutex};

struct St {
    vals: HashMap<String, String>,
    count: HashMap<String, u32>,
    ok_panic: bool,
}
static ST: Mutex<Option<St>> = Mutex::new(None);
thread_local! { static X: RefCell<u8> = const { RefCell::new(0) }; }

fn s<'a>(p: *const u8, n: usize) -> &'a [u8] {
    unsafe { std::slice::from_raw_parts(p, n) }
}
fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(s(p, n)).into_owned()
}
fn next(t: &str) -> Option<String> {
    let mut g = ST.lock().unwrap();
    let g = g.as_mut().unwrap();
    let k = g.count.entry(t.to_string()).or_insert(0);
    let name = if *k == 0 { t.to_string() } else { format!("{t}#{k}") };
    *k += 1;
    g.vals.get(&name).cloned()
}
#[no_mangle]
extern "C" fn vx_int(p: *const u8, n: usize, lo: u64, hi: u64) -> u64 {
    let _ = hi;
    next(&st(p, n)).map(|x| x.parse::<u64>().unwrap()).unwrap_or(lo)
}
#[no_mangle]
extern "C" fn vx_pick(p: *const u8, n: usize, lo: u64, hi: u64) -> u64 {
    vx_int(p, n, lo, hi)
}
#[no_mangle]
extern "C" fn vx_byte(p: *const u8, n: usize, set: *const u8, m: usize) -> u8 {
    next(&st(p, n)).map(|x| x.parse::<u8>().unwrap()).unwrap_or(*s(set, m).iter().min().unwrap())
}
#[no_mangle]
extern "C" fn vx_grid(p: *const u8, n: usize, lo: i64, hi: i64, den: i64) -> f64 {
    let k = next(&st(p, n)).map(|x| x.parse::<i64>().unwrap()).unwrap_or(if lo <= 0 && hi >= 0 { 0 } else { lo });
    k as f64 / den as f64
}
#[no_mangle]
extern "C" fn vx_any_f64(p: *const u8, n: usize, _fin: u64) -> f64 {
    next(&st(p, n)).map(|x| f64::from_bits(u64::from_str_radix(x.trim_start_matches("0x"), 16).unwrap())).unwrap_or(0.)
}
#[no_mangle]
extern "C" fn vx_assume(c: bool) {
    if !c {
        println!("ASSUME-FAIL");
        std::process::exit(0);
    }
}
#[no_mangle]
extern "C" fn vx_check(c: bool, p: *const u8, n: usize) {
    if !c {
        println!("CHECK-FAIL {}", st(p, n));
    }
}
#[no_mangle]
extern "C" fn vx_close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1. + a.abs().max(b.abs()))
}
#[no_mangle]
extern "C" fn vx_and(a: bool, b: bool) -> bool {
    a & b
}
#[no_mangle]
extern "C" fn vx_or(a: bool, b: bool) -> bool {
    a | b
}
#[no_mangle]
extern "C" fn vx_cover(p: *const u8, n: usize) {
    println!("COVER {}", st(p, n));
}
#[no_mangle]
extern "C" fn vx_log_u64(p: *const u8, n: usize, v: u64) {
    println!("LOG {} {v}", st(p, n));
}
#[no_mangle]
extern "C" fn vx_log_f64(p: *const u8, n: usize, v: f64) {
    println!("LOG {} {:e}", st(p, n), v);
}
#[no_mangle]
extern "C" fn vx_log_bytes(p: *const u8, n: usize, q: *const u8, m: usize) {
    let h: String = s(q, m).iter().map(|b| format!("{b:02x}")).collect();
    println!("LOG {} x{h}", st(p, n));
}
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
#[no_mangle]
extern "C" fn vx_file_limit(n: u64) {
    // the runner's own output goes to a pipe, which RLIMIT_FSIZE does not concern
    unsafe {
        signal(25, 1);
        setrlimit(1, &RLimit { cur: n, max: u64::MAX });
    }
}
static EXIT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}
extern "C" fn at_exit() {
    if EXIT.load(std::sync::atomic::Ordering::SeqCst) {
        println!("EXITOK");
    }
}
#[no_mangle]
extern "C" fn vx_ok_exit(n: u64) {
    EXIT.store(n & 1 != 0, std::sync::atomic::Ordering::SeqCst);
}
#[no_mangle]
extern "C" fn vx_ok_panic(n: u64) {
    ST.lock().unwrap().as_mut().unwrap().ok_panic = n & 1 != 0;
}
#[no_mangle]
extern "C" fn vx_conc_u64(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn vx_conc_bytes(_: *mut u8, _: usize) {}
#[no_mangle]
extern "C" fn vx_cases(c: bool) -> u64 {
    c as u64
}
#[no_mangle]
extern "C" fn vx_put_file(p: *const u8, n: usize, q: *const u8, m: usize) {
    std::fs::write(st(p, n), s(q, m)).unwrap();
}
#[no_mangle]
extern "C" fn vx_get_file(p: *const u8, n: usize, q: *mut u8, m: usize) -> u64 {
    match std::fs::read(st(p, n)) {
        Ok(d) => {
            let k = d.len().min(m);
            unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), q, k) };
            d.len() as u64
        }
        Err(_) => u64::MAX,
    }
}
#[no_mangle]
extern "C" fn vx_text(_: f64, _: *mut u8) -> usize {
    unreachable!()
}
#[no_mangle]
extern "C" fn vx_untext(_: *const u8, _: usize) -> f64 {
    unreachable!()
}
#[no_mangle]
extern "C" fn vx_unsupported() {
    unreachable!()
}
#[no_mangle]
extern "C" fn vx_print(p: *const u8, n: usize) {
    eprintln!("{}", st(p, n));
}

/// threads that run one at a time
struct Baton {
    /// who may run (None: the harness)
    turn: Option<u64>,
    /// what vx_resume returns
    res: u64,
    n: u64,
}
static BATON: Mutex<Baton> = Mutex::new(Baton { turn: None, res: 0, n: 0 });
static COND: Condvar = Condvar::new();
thread_local! { static ME: Cell<Option<u64>> = const { Cell::new(None) }; }

fn wait_turn(me: Option<u64>) {
    let mut g = BATON.lock().unwrap();
    while g.turn != me {
        g = COND.wait(g).unwrap();
    }
}
fn give(to: Option<u64>, res: u64) {
    let mut g = BATON.lock().unwrap();
    g.turn = to;
    g.res = res;
    COND.notify_all();
}
#[no_mangle]
extern "C" fn vx_spawn(f: extern "C" fn(*mut u8), p: *mut u8) -> u64 {
    let id = {
        let mut g = BATON.lock().unwrap();
        g.n += 1;
        g.n - 1
    };
    let p = p as usize;
    std::thread::spawn(move || {
        ME.set(Some(id));
        wait_turn(Some(id));
        f(p as *mut u8);
        give(None, 0);
    });
    id
}
#[no_mangle]
extern "C" fn vx_resume(t: u64) -> u64 {
    give(Some(t), 0);
    wait_turn(None);
    BATON.lock().unwrap().res
}
fn back(res: u64) -> u64 {
    match ME.get() {
        None => 0,
        me => {
            give(None, res);
            wait_turn(me);
            1
        }
    }
}
#[no_mangle]
extern "C" fn vx_native() -> u64 {
    1
}
#[no_mangle]
extern "C" fn vx_yield() -> u64 {
    back(1)
}
#[no_mangle]
extern "C" fn vx_block() -> u64 {
    back(2)
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let (entry, args, file) = (&av[1], &av[2], &av[3]);
    let args: Vec<u64> = args.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let mut vals = HashMap::new();
    for l in std::fs::read_to_string(file).unwrap().lines() {
        if let Some((a, b)) = l.rsplit_once(' ') {
            vals.insert(a.to_string(), b.to_string());
        }
    }
    *ST.lock().unwrap() = Some(St { vals, count: HashMap::new(), ok_panic: false });
    unsafe {
        atexit(at_exit);
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().unwrap();
        let ok = ST.lock().map(|g| g.as_ref().unwrap().ok_panic).unwrap_or(false);
        println!("{} {}:{}", if ok { "OKPANIC" } else { "PANIC" }, l.file(), l.line());
        eprintln!("{i}");
        EXIT.store(false, std::sync::atomic::Ordering::SeqCst);
        std::process::exit(0);
    }));
    let f = harness::ENTRIES.iter().find(|e| e.0 == entry).unwrap_or_else(|| panic!("no entry {entry}"));
    let a = |i: usize| args.get(i).copied().unwrap_or(0);
    (f.1)(a(0), a(1), a(2), a(3));
    EXIT.store(false, std::sync::atomic::Ordering::SeqCst);
    println!("DONE");
}
