//! Lets the harness vary what `std::thread::available_parallelism` reports to the code under test.
use std::sync::atomic::{AtomicUsize, Ordering};
static CPUS: AtomicUsize = AtomicUsize::new(0);
pub fn set_parallelism(n: usize) {
    CPUS.store(n, Ordering::SeqCst)
}
/// Takes precedence over libc's: the standard library counts the bits it sets.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, size: usize, mask: *mut u8) -> i32 {
    let n = match CPUS.load(Ordering::SeqCst) {
        0 => 4,
        n => n,
    };
    for i in 0..size {
        *mask.add(i) = 0;
    }
    for k in 0..n.min(size * 8) {
        *mask.add(k / 8) |= 1 << (k % 8);
    }
    0
}
