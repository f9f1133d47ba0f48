//! Addition to parking_lot 0.12.5: inside a thread of a harness, acquiring a lock is a scheduling point, and a
//! thread that has to wait gives control back to the scheduler of the harness.
extern "C" {
    fn vx_yield() -> u64;
    fn vx_block() -> u64;
}
/// whether the lock was acquired within a thread of a harness
#[inline(never)]
pub fn acquire(now: impl Fn() -> bool) -> bool {
    if unsafe { vx_yield() } == 0 {
        return false;
    }
    while !now() {
        unsafe { vx_block() };
    }
    true
}
#[inline(never)]
pub fn point() {
    unsafe { vx_yield() };
}
