//! The control block of a run: what the simulated process reports to the simulator outside it.
//! On unix it lives in a shared mapping so that it survives the death of the process it describes.

use std::cell::Cell;
use std::sync::atomic::{compiler_fence, AtomicPtr, Ordering::*};

pub const MSG: usize = 3072;
pub const COV_BYTES: usize = 1 << 16;
pub const MAX_SESS: usize = 64;
pub const NCOUNT: usize = 32;

#[repr(C)]
pub struct Ctl {
    pub digest: u64,
    pub xdigest: u64,
    pub nobs: u64,
    pub checks: u64,
    pub sig: u64,
    pub cur_step: u32,
    pub in_lib: u32,
    pub done: u32,
    pub viol: u32,
    pub harness: u32,
    pub panicked_in_lib: u32,
    pub crash_sig: u32,
    pub crash_in_lib: u32,
    pub crash_addr: u64,
    pub msg_len: u32,
    pub what_len: u32,
    pub what: [u8; 64],
    pub msg: [u8; MSG],
    pub sess: [u64; MAX_SESS],
    pub count: [u64; NCOUNT],
    pub nontrivial: u32,
    pub switches: u32,
    pub instrs: u64,
    pub inconclusive: u32,
    /// memory accesses checked on a watched machine
    pub watched: u64,
    pub cov: [u8; COV_BYTES],
    pub obs_len: u32,
    /// observation log kept for diffing (first few hundred observations)
    pub obs: [ObsRec; 512],
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct ObsRec {
    pub step: u32,
    pub sess: u16,
    pub what: u16,
    pub val: u64,
}

static CTL: AtomicPtr<Ctl> = AtomicPtr::new(core::ptr::null_mut());

#[cfg(miri)]
thread_local! {
    /// under Miri sessions run on freely interleaved threads: each has a control block of its own
    static LOCAL: Cell<*mut Ctl> = const { Cell::new(core::ptr::null_mut()) };
}

#[cfg(miri)]
pub fn with_local<R>(f: impl FnOnce() -> R) -> (R, Box<Ctl>) {
    let b: Box<Ctl> = unsafe {
        let p = std::alloc::alloc_zeroed(std::alloc::Layout::new::<Ctl>()) as *mut Ctl;
        Box::from_raw(p)
    };
    let p = Box::into_raw(b);
    LOCAL.with(|l| l.set(p));
    let r = f();
    LOCAL.with(|l| l.set(core::ptr::null_mut()));
    (r, unsafe { Box::from_raw(p) })
}

#[allow(clippy::mut_from_ref)]
pub fn ctl() -> &'static mut Ctl {
    #[cfg(miri)]
    {
        let p = LOCAL.with(|l| l.get());
        if !p.is_null() {
            return unsafe { &mut *p };
        }
    }
    let p = CTL.load(Relaxed);
    if p.is_null() {
        // single-process use (wasm, Miri): a leaked heap block
        let l = std::alloc::Layout::new::<Ctl>();
        let q = unsafe { std::alloc::alloc_zeroed(l) } as *mut Ctl;
        CTL.store(q, Relaxed);
        return unsafe { &mut *q };
    }
    unsafe { &mut *p }
}

pub fn set_ctl(p: *mut Ctl) {
    CTL.store(p, SeqCst);
}

pub fn reset() {
    let p = ctl() as *mut Ctl;
    unsafe { core::ptr::write_bytes(p as *mut u8, 0, core::mem::size_of::<Ctl>()) };
}

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    pub static SESS: Cell<u16> = const { Cell::new(0) };
}

pub fn in_lib() -> bool {
    IN_LIB.with(|c| c.get()) != 0
}

/// allocations made by a panic in flight are not the library's
pub fn quiet() -> bool {
    QUIET.with(|c| c.get()) != 0
}
pub fn set_quiet() {
    QUIET.with(|c| c.set(1));
}

/// Every call into the code under test goes through here: it marks the thread as being inside the
/// library, so that a panic, a signal or an allocation is attributed to the right side.
#[inline(always)]
pub fn lib<R>(what: &'static str, f: impl FnOnce() -> R) -> R {
    enter(what);
    let r = f();
    leave();
    r
}

#[inline(never)]
fn enter(what: &'static str) {
    let c = ctl();
    let n = what.len().min(64);
    c.what[..n].copy_from_slice(&what.as_bytes()[..n]);
    c.what_len = n as u32;
    c.in_lib = 1;
    IN_LIB.with(|c| c.set(1));
    compiler_fence(SeqCst);
    #[cfg(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch")))]
    crate::tf::lib_enter();
    #[cfg(feature = "watch")]
    hwwatch::arm(true);
}

#[inline(never)]
fn leave() {
    #[cfg(feature = "watch")]
    hwwatch::step(false);
    #[cfg(feature = "watch")]
    hwwatch::arm(false);
    #[cfg(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch")))]
    crate::tf::lib_leave();
    compiler_fence(SeqCst);
    IN_LIB.with(|c| c.set(0));
    ctl().in_lib = 0;
}

pub fn set_msg(s: &str) {
    let c = ctl();
    let n = s.len().min(MSG);
    c.msg[..n].copy_from_slice(&s.as_bytes()[..n]);
    c.msg_len = n as u32;
}

pub fn msg() -> String {
    let c = ctl();
    String::from_utf8_lossy(&c.msg[..c.msg_len as usize]).into_owned()
}
pub fn what() -> String {
    let c = ctl();
    String::from_utf8_lossy(&c.what[..c.what_len as usize]).into_owned()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        #[cfg(feature = "watch")]
        hwwatch::arm(false);
        let lib = in_lib();
        set_quiet();
        #[cfg(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch")))]
        crate::tf::lib_leave();
        let c = ctl();
        if lib {
            c.panicked_in_lib = 1;
        } else {
            c.harness = 1;
        }
        let s = format!("panic: {}", info).replace('\n', " ");
        set_msg(&s);
        if cfg!(miri) {
            eprintln!("{}", s);
        }
    }));
}

#[inline]
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    let mut it = b.chunks_exact(8);
    for w in it.by_ref() {
        h = crate::rng::mix(h, u64::from_le_bytes(w.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    crate::rng::mix(h ^ (b.len() as u64) << 1, u64::from_le_bytes(last))
}

/// Record one observable result.  `x`: also part of the digest compared between machines.
pub fn obs(what: u16, x: bool, b: &[u8]) {
    let c = ctl();
    let sess = SESS.with(|s| s.get());
    let v = hash_bytes(what as u64 + 1, b);
    // sessions may run in any interleaving: the run digest is per session, combined at the end
    let si = sess as usize % MAX_SESS;
    c.sess[si] = crate::rng::mix(c.sess[si], v);
    if x {
        c.xdigest = crate::rng::mix(c.xdigest, v);
    }
    c.digest = crate::rng::mix(c.digest, v);
    c.nobs += 1;
    let n = c.obs_len as usize;
    if n < c.obs.len() {
        c.obs[n] = ObsRec { step: c.cur_step, sess, what, val: v };
        c.obs_len += 1;
    }
}

pub fn cover(cell: u64) {
    let h = crate::rng::mix(cell, 0x1234_5678) as usize;
    let c = ctl();
    c.cov[(h >> 3) % COV_BYTES] |= 1 << (h & 7);
}

// counters
pub const K_STEPS: usize = 0;
pub const K_SKIPPED: usize = 1;
pub const K_BYTES: usize = 2;
pub const K_CHECKS: usize = 3;
pub const K_ALLOC_IN_LIB: usize = 4;
pub const K_ALLOC_SIZE: usize = 5;
pub const K_LIBCALLS: usize = 6;

pub fn count(k: usize, n: u64) {
    ctl().count[k] += n;
}
