//! The interface between the harnesses and whoever runs them: the symbolic executor (which models these
//! functions) or the native runner (which defines them and reads the values from a replay file).
mod sys {
    extern "C" {
        pub fn vx_int(p: *const u8, n: usize, lo: u64, hi: u64) -> u64;
        pub fn vx_pick(p: *const u8, n: usize, lo: u64, hi: u64) -> u64;
        pub fn vx_byte(p: *const u8, n: usize, set: *const u8, m: usize) -> u8;
        pub fn vx_grid(p: *const u8, n: usize, lo: i64, hi: i64, den: i64) -> f64;
        pub fn vx_any_f64(p: *const u8, n: usize, finite: u64) -> f64;
        pub fn vx_assume(c: bool);
        pub fn vx_check(c: bool, p: *const u8, n: usize);
        pub fn vx_close(a: f64, b: f64) -> bool;
        pub fn vx_cover(p: *const u8, n: usize);
        pub fn vx_log_u64(p: *const u8, n: usize, v: u64);
        pub fn vx_log_f64(p: *const u8, n: usize, v: f64);
        pub fn vx_log_bytes(p: *const u8, n: usize, q: *const u8, m: usize);
        pub fn vx_file_limit(n: u64);
        pub fn vx_ok_panic(n: u64);
        pub fn vx_ok_exit(n: u64);
        pub fn vx_conc_u64(v: u64) -> u64;
        pub fn vx_conc_bytes(p: *mut u8, n: usize);
        pub fn vx_cases(c: bool) -> u64;
        pub fn vx_and(a: bool, b: bool) -> bool;
        pub fn vx_or(a: bool, b: bool) -> bool;
        pub fn vx_put_file(p: *const u8, n: usize, q: *const u8, m: usize);
        pub fn vx_get_file(p: *const u8, n: usize, q: *mut u8, m: usize) -> u64;
        pub fn vx_print(p: *const u8, n: usize);
        pub fn vx_text(x: f64, p: *mut u8) -> usize;
        pub fn vx_untext(p: *const u8, n: usize) -> f64;
        pub fn vx_unsupported();
        pub fn vx_spawn(f: extern "C" fn(*mut u8), p: *mut u8) -> u64;
        pub fn vx_resume(t: u64) -> u64;
        pub fn vx_yield() -> u64;
        pub fn vx_native() -> u64;
    }
}
use noisy_float::prelude::*;

/// an integer in lo..=hi
pub fn int(t: &str, lo: u64, hi: u64) -> u64 {
    unsafe { sys::vx_int(t.as_ptr(), t.len(), lo, hi) }
}
/// an integer in lo..=hi, one path per value
pub fn pick(t: &str, lo: u64, hi: u64) -> usize {
    unsafe { sys::vx_pick(t.as_ptr(), t.len(), lo, hi) as usize }
}
pub fn flag(t: &str) -> bool {
    pick(t, 0, 1) == 1
}
pub fn byte(t: &str, set: &[u8]) -> u8 {
    unsafe { sys::vx_byte(t.as_ptr(), t.len(), set.as_ptr(), set.len()) }
}
/// k/den for an integer k in lo..=hi
pub fn grid(t: &str, lo: i64, hi: i64, den: i64) -> f64 {
    unsafe { sys::vx_grid(t.as_ptr(), t.len(), lo, hi, den) }
}
pub fn grid_n(t: &str, lo: i64, hi: i64, den: i64) -> N64 {
    n64(grid(t, lo, hi, den))
}
pub fn any_f64(t: &str, finite: bool) -> f64 {
    unsafe { sys::vx_any_f64(t.as_ptr(), t.len(), finite as u64) }
}
pub fn assume(c: bool) {
    unsafe { sys::vx_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, id: &str) {
    unsafe { sys::vx_check(c, id.as_ptr(), id.len()) }
}
/// equality (over the reals, or up to rounding in a native run)
pub fn close(a: f64, b: f64) -> bool {
    unsafe { sys::vx_close(a, b) }
}
/// equality up to rounding of numbers that are not large, also if some of them are constant
pub fn near(a: f64, b: f64) -> bool {
    and(a - b < 1e-6, b - a < 1e-6)
}

/// equality of numbers that have only been written, read, or rescaled
pub fn alike(a: f64, b: f64) -> bool {
    if unsafe { sys::vx_native() } != 0 {
        a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
    } else {
        close(a, b)
    }
}
pub fn and(a: bool, b: bool) -> bool {
    unsafe { sys::vx_and(a, b) }
}
pub fn or(a: bool, b: bool) -> bool {
    unsafe { sys::vx_or(a, b) }
}
pub fn cover(t: &str) {
    unsafe { sys::vx_cover(t.as_ptr(), t.len()) }
}
pub fn log(t: &str, v: u64) {
    unsafe { sys::vx_log_u64(t.as_ptr(), t.len(), v) }
}
pub fn log_f(t: &str, v: f64) {
    unsafe { sys::vx_log_f64(t.as_ptr(), t.len(), v) }
}
pub fn log_b(t: &str, v: &[u8]) {
    unsafe { sys::vx_log_bytes(t.as_ptr(), t.len(), v.as_ptr(), v.len()) }
}
/// files cannot grow beyond this size
pub fn file_limit(n: u64) {
    unsafe { sys::vx_file_limit(n) }
}
/// may the following code panic?
pub fn ok_panic(b: bool) {
    unsafe { sys::vx_ok_panic(b as u64) }
}
/// may the following code end the program?
pub fn ok_exit(b: bool) {
    unsafe { sys::vx_ok_exit(b as u64) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sys::vx_conc_u64(v) }
}
pub fn conc_bytes(v: &mut [u8]) {
    unsafe { sys::vx_conc_bytes(v.as_mut_ptr(), v.len()) }
}
/// fork on a condition
pub fn cases(c: bool) -> bool {
    unsafe { sys::vx_cases(c) != 0 }
}
pub fn put_file(p: &str, d: &[u8]) {
    unsafe { sys::vx_put_file(p.as_ptr(), p.len(), d.as_ptr(), d.len()) }
}
pub fn get_file(p: &str) -> Option<Vec<u8>> {
    let n = unsafe { sys::vx_get_file(p.as_ptr(), p.len(), core::ptr::NonNull::dangling().as_ptr(), 0) };
    if n == u64::MAX {
        return None;
    }
    let mut v = vec![0u8; n as usize];
    unsafe { sys::vx_get_file(p.as_ptr(), p.len(), v.as_mut_ptr(), v.len()) };
    Some(v)
}
pub fn print(t: &str) {
    unsafe { sys::vx_print(t.as_ptr(), t.len()) }
}
/// one worker thread for all parallel iterators: the calling one
struct Quiet;
impl log::Log for Quiet {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}
/// with reports
pub fn init_log() {
    init();
    // the default of the programs: what is reported is computed, but not written
    let _ = log::set_logger(&Quiet);
    log::set_max_level(log::LevelFilter::Info);
}
pub fn init() {
    init_pool(true)
}
/// for harnesses with threads of their own, which cannot stand in for the threads of the pool when run natively
pub fn init_threads() {
    init_pool(unsafe { sys::vx_native() } == 0)
}
fn init_pool(current: bool) {
    if !current {
        let _ = rayon::ThreadPoolBuilder::new().num_threads(1).build_global();
        return;
    }
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global();
}
/// replaces the formatting of numbers that are symbolic: an opaque text, which parses to the number it came from
#[no_mangle]
pub fn vx_stub_fmt(f: &mut std::fmt::Formatter<'_>, x: &f64) -> std::fmt::Result {
    if f.precision().is_some() || f.width().is_some() || f.sign_plus() {
        unsafe { sys::vx_unsupported() }
    }
    let mut b = [0u8; 40];
    let n = unsafe { sys::vx_text(*x, b.as_mut_ptr()) };
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b[..n]) })
}
#[no_mangle]
pub fn vx_stub_parse(s: &str) -> Result<f64, std::num::ParseFloatError> {
    Ok(unsafe { sys::vx_untext(s.as_ptr(), s.len()) })
}

/// a point where the scheduler may switch to another thread
pub fn yield_now() {
    unsafe { sys::vx_yield() };
}
extern "C" fn thread(p: *mut u8) {
    let f = unsafe { &mut *(p as *mut &mut dyn FnMut()) };
    f()
}
/// Run functions in a thread each, with at most `switches` switches away from a thread that could go on.
/// Threads run one at a time; they can be interrupted where they call yield_now and where they acquire a lock.
pub fn run_threads(mut fs: Vec<&mut dyn FnMut()>, switches: usize) {
    let n = fs.len();
    let ts: Vec<u64> = fs.iter_mut().map(|f| unsafe { sys::vx_spawn(thread, f as *mut &mut dyn FnMut() as *mut u8) }).collect();
    let mut left = switches;
    let mut done = vec![false; n];
    let mut blocked = vec![false; n];
    let mut cur = pick("first thread", 0, n as u64 - 1);
    // another thread that can run
    let other = |cur: usize, done: &[bool], blocked: &[bool]| {
        let o: Vec<usize> = (0..n).filter(|&t| t != cur && !done[t] && !blocked[t]).collect();
        match o.len() {
            0 => None,
            1 => Some(o[0]),
            k => Some(o[pick("thread", 0, k as u64 - 1)]),
        }
    };
    loop {
        match unsafe { sys::vx_resume(ts[cur]) } {
            0 => {
                done[cur] = true;
                blocked.fill(false);
                match other(cur, &done, &blocked) {
                    None => return,
                    Some(t) => cur = t,
                }
            }
            1 => {
                blocked.fill(false);
                if left > 0 && (0..n).any(|t| t != cur && !done[t]) && flag("switch") {
                    left -= 1;
                    cur = other(cur, &done, &blocked).unwrap();
                }
            }
            _ => {
                blocked[cur] = true;
                match other(cur, &done, &blocked) {
                    None => {
                        check(false, "deadlock of the threads");
                        ok_exit(true);
                        std::process::exit(0)
                    }
                    Some(t) => cur = t,
                }
            }
        }
    }
}
