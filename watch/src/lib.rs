//! The memory-access seam.  On a *watched* machine the crate under test is compiled so that each of
//! its loads and stores calls one of the functions below before it happens.  While the simulator is
//! inside a library call, they decide whether that access is allowed:
//!
//! * the input arena: only the bytes of the slice the library was given, and only for reading;
//! * the arena around a hasher object: only the bytes of the object;
//! * the stack: not the red zones the compiler leaves between local variables (tracked in `Shadow`).
//!
//! Nothing here is instrumented itself.
#![allow(clippy::missing_safety_doc)]

use core::ptr::{addr_of, addr_of_mut};

#[cfg(unix)]
mod native;

/// an area of memory of which only a part may be touched by the library
#[derive(Clone, Copy)]
struct Area {
    lo: usize,
    hi: usize,
    ok_lo: usize,
    ok_hi: usize,
    writable: bool,
}

const MAX: usize = 256;
static mut AREAS: [Area; MAX] = [Area { lo: 0, hi: 0, ok_lo: 0, ok_hi: 0, writable: false }; MAX];
static mut N: usize = 0;
static mut ARMED: bool = false;
static mut TRACK: bool = false;
static mut ACCESSES: u64 = 0;
thread_local! {
    static STEP: core::cell::Cell<bool> = const { core::cell::Cell::new(false) };
}
static mut ON_STEP: Option<fn(usize, bool, bool) -> bool> = None;
static mut REPORT: Option<fn(&Bad)> = None;

/// an access that is not allowed
pub struct Bad {
    pub write: bool,
    pub size: usize,
    /// "input", "object" or "stack"
    pub area: &'static str,
    /// relative to the first byte that may be touched
    pub offset: isize,
    pub allowed: usize,
}

/// call `f` for each access that is not allowed
#[inline(never)]
pub fn on_bad(f: fn(&Bad)) {
    unsafe { REPORT = Some(f) }
}

#[inline(never)]
pub fn track(on: bool) {
    unsafe { TRACK = on }
}

/// call `f` before each access while stepping is on (where, a store?, a writable static?); it says
/// whether stepping stays on
#[inline(never)]
pub fn on_step(f: fn(usize, bool, bool) -> bool) {
    unsafe { ON_STEP = Some(f) }
}

#[inline(never)]
pub fn step(on: bool) {
    STEP.with(|s| s.set(on))
}

/// the library is entered (`true`) or left
#[inline(never)]
pub fn arm(on: bool) {
    unsafe { ARMED = on && TRACK }
}

#[inline(never)]
pub fn accesses() -> u64 {
    unsafe { ACCESSES }
}

/// of [lo, hi) only [ok_lo, ok_hi) may be touched
#[inline(never)]
pub fn area(lo: usize, hi: usize, ok_lo: usize, ok_hi: usize, writable: bool) {
    unsafe {
        let a = &mut *addr_of_mut!(AREAS);
        let x = Area { lo, hi, ok_lo, ok_hi, writable };
        for i in 0..N {
            if a[i].lo == lo && a[i].writable == writable {
                a[i] = x;
                return;
            }
        }
        if N < MAX {
            a[N] = x;
            N += 1;
        }
    }
}

#[inline(never)]
pub fn forget(lo: usize) {
    unsafe {
        let a = &mut *addr_of_mut!(AREAS);
        for i in 0..N {
            if a[i].lo == lo {
                a[i] = a[N - 1];
                N -= 1;
                return;
            }
        }
    }
}

#[inline]
pub(crate) unsafe fn seen(p: usize, n: usize, write: bool) {
    if STEP.with(|s| s.get()) {
        stepped(p, write);
    }
    if !ARMED {
        return;
    }
    // (what follows may itself be watched)
    ARMED = false;
    if check(p, n, write) {
        ARMED = true;
    }
}

#[inline(never)]
unsafe fn check(p: usize, n: usize, write: bool) -> bool {
    ACCESSES += 1;
    let e = p.wrapping_add(n);
    let a = &*addr_of!(AREAS);
    for x in &a[..N] {
        if p < x.hi && e > x.lo && (p < x.ok_lo || e > x.ok_hi || (write && !x.writable)) {
            bad(Bad {
                write,
                size: n,
                area: if x.writable { "object" } else { "input" },
                offset: p.wrapping_sub(x.ok_lo) as isize,
                allowed: x.ok_hi - x.ok_lo,
            });
            return false;
        }
    }
    #[cfg(unix)]
    if let Some(s) = native::red_zone(p, e) {
        bad(Bad { write, size: n, area: "stack", offset: 0, allowed: s as usize });
        return false;
    }
    true
}

#[inline(never)]
unsafe fn stepped(p: usize, write: bool) {
    STEP.with(|s| s.set(false));
    #[cfg(all(target_os = "linux", unix))]
    let shared = {
        extern "C" {
            static __data_start: u8;
            static _end: u8;
        }
        (addr_of!(__data_start) as usize..addr_of!(_end) as usize).contains(&p)
    };
    #[cfg(not(all(target_os = "linux", unix)))]
    let shared = p == 0;
    if let Some(f) = ON_STEP {
        let on = f(p, write, shared);
        STEP.with(|s| s.set(on));
    }
}

#[cold]
unsafe fn bad(b: Bad) {
    if let Some(f) = REPORT {
        f(&b)
    }
}

/// WebAssembly: `sim/watch.mjs` puts a call of one of these in front of each access
#[cfg(target_family = "wasm")]
#[no_mangle]
pub unsafe extern "C" fn hw_seen(p: usize, info: u32) {
    seen(p, (info >> 1) as usize, info & 1 != 0)
}
#[cfg(target_family = "wasm")]
#[no_mangle]
pub unsafe extern "C" fn hw_seen_n(p: usize, n: usize, write: u32) {
    if n > 0 {
        seen(p, n, write != 0)
    }
}
