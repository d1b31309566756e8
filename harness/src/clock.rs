//! Virtual monotonic clock: this binary's own `clock_gettime`, so that `Instant::now()` inside the
//! engine is under the control of the running case (per thread; 0 = real time).
use std::cell::Cell;
use std::time::{Duration, Instant};

thread_local! { static V: Cell<i64> = const { Cell::new(0) }; }

#[repr(C)]
pub struct Ts { s: i64, n: i64 }
extern "C" { fn syscall(num: i64, ...) -> i64; }
#[cfg(target_arch = "x86_64")]
const SYS: i64 = 228;
#[cfg(target_arch = "aarch64")]
const SYS: i64 = 113;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    if id == 1 {
        let v = V.try_with(|v| v.get()).unwrap_or(0);
        if v != 0 {
            (*t).s = v / 1_000_000_000;
            (*t).n = v % 1_000_000_000;
            return 0;
        }
    }
    syscall(SYS, id as i64, t) as i32
}

/// Starts virtual time for this thread.
pub fn start() -> Instant {
    V.with(|v| v.set(1_000_000_000_000_000));
    let a = Instant::now();
    advance(Duration::from_nanos(5));
    assert!(Instant::now() - a == Duration::from_nanos(5), "virtual clock not in effect");
    Instant::now()
}
pub fn advance(d: Duration) { V.with(|v| v.set(v.get() + d.as_nanos() as i64)); }
/// Moves to `t` (never backwards).
pub fn goto(t: Instant) { let n = Instant::now(); if t > n { advance(t - n); } }
pub fn real() { V.with(|v| v.set(0)); }
