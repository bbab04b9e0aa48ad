//! The few system interfaces the simulator itself needs (declared by hand: no dependencies).
#![allow(non_camel_case_types)]

use core::ffi::{c_char, c_int, c_long, c_uint, c_ulong, c_void};

extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, prot: c_int, flags: c_int, fd: c_int, off: isize) -> *mut c_void;
    pub fn munmap(a: *mut c_void, l: usize) -> c_int;
    pub fn mprotect(a: *mut c_void, l: usize, prot: c_int) -> c_int;
    pub fn fork() -> c_int;
    pub fn waitpid(p: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn sigaction(sig: c_int, act: *const Sigaction, old: *mut Sigaction) -> c_int;
    pub fn setitimer(which: c_int, new: *const [c_long; 4], old: *mut [c_long; 4]) -> c_int;
    pub fn personality(p: c_ulong) -> c_int;
    pub fn execv(path: *const c_char, argv: *const *const c_char) -> c_int;
    pub fn prctl(op: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int;
    pub fn syscall(n: c_long, ...) -> c_long;
    pub fn alarm(s: c_uint) -> c_uint;
}

#[repr(C)]
pub struct Sigaction {
    pub handler: usize,
    pub mask: [u8; 128],
    pub flags: c_int,
    pub restorer: usize,
}

pub const SA_SIGINFO: c_int = 4;
pub const SA_ONSTACK: c_int = 0x0800_0000;
pub const SA_NODEFER: c_int = 0x4000_0000;
pub const SIGILL: c_int = 4;
pub const SIGTRAP: c_int = 5;
pub const SIGABRT: c_int = 6;
pub const SIGBUS: c_int = 7;
pub const SIGFPE: c_int = 8;
pub const SIGSEGV: c_int = 11;
pub const SIGVTALRM: c_int = 26;

pub fn on_signal(sig: c_int, f: usize, flags: c_int) {
    let a = Sigaction { handler: f, mask: [0; 128], flags, restorer: 0 };
    unsafe {
        sigaction(sig, &a, core::ptr::null_mut());
    }
}

const PAGE: usize = 4096;
const GUARD: usize = 16 * PAGE;

/// `n` (a multiple of the page size) writable bytes with unmapped pages on both sides
pub fn guarded(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(core::ptr::null_mut(), n + 2 * GUARD, 0, 0x2 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap");
        let q = (p as *mut u8).add(GUARD);
        assert!(mprotect(q as *mut c_void, n, 3) == 0, "mprotect");
        q
    }
}

pub fn unguard(p: *mut u8, n: usize) {
    unsafe {
        munmap(p.sub(GUARD) as *mut c_void, n + 2 * GUARD);
    }
}

/// a read-only mapping of zero bytes that costs (almost) no memory
pub fn zeros(n: usize) -> Option<*const u8> {
    unsafe {
        let p = mmap(core::ptr::null_mut(), n, 1, 0x2 | 0x20 | 0x4000, -1, 0);
        if p as isize == -1 {
            None
        } else {
            Some(p as *const u8)
        }
    }
}

pub fn unmap(p: *const u8, n: usize) {
    unsafe {
        munmap(p as *mut c_void, n);
    }
}

pub fn shared(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(core::ptr::null_mut(), n, 3, 0x1 | 0x20, -1, 0);
        assert!(p as isize != -1, "mmap shared");
        p as *mut u8
    }
}

extern "C" fn fatal(sig: c_int, info: *const u8, _uc: *mut c_void) {
    let c = crate::ctl::ctl();
    c.crash_sig = sig as u32;
    c.crash_in_lib = crate::ctl::in_lib() as u32;
    let off = if cfg!(target_pointer_width = "64") { 16 } else { 12 };
    c.crash_addr = unsafe { core::ptr::read_unaligned(info.add(off) as *const usize) } as u64;
    unsafe { _exit(12) }
}

pub fn install_fatal() {
    for s in [SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV, SIGVTALRM] {
        on_signal(s, fatal as *const () as usize, SA_SIGINFO | SA_ONSTACK | SA_NODEFER);
    }
}

/// limits of one simulated run: user CPU seconds (exceeding it means the library makes no
/// progress) and wall seconds (exceeding it is the harness's problem)
pub fn limits(cpu_s: i64, wall_s: u32) {
    unsafe {
        let v: [c_long; 4] = [0, 0, cpu_s as c_long, 0];
        setitimer(1, &v, core::ptr::null_mut());
        alarm(wall_s);
    }
}

/// Re-execute this process with address-space randomisation off, so that a replay sees the same
/// addresses.
pub fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: c_ulong = 0x0004_0000;
    if std::env::var_os("HWSIM_FIXED").is_some() {
        return;
    }
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur < 0 || personality(cur as c_ulong | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
    }
    std::env::set_var("HWSIM_FIXED", "1");
    let Ok(exe) = std::env::current_exe() else { return };
    let args: Vec<std::ffi::CString> = std::env::args()
        .map(|a| std::ffi::CString::new(a).unwrap())
        .collect();
    let mut ptrs: Vec<*const c_char> = args.iter().map(|a| a.as_ptr()).collect();
    ptrs.push(core::ptr::null());
    let path = std::ffi::CString::new(exe.to_str().unwrap()).unwrap();
    unsafe {
        execv(path.as_ptr(), ptrs.as_ptr());
    }
}

/// `n` bytes of fresh memory, taken from the system only as far as it is used (0: there is none)
#[cfg(feature = "watch")]
pub fn reserve(n: usize) -> usize {
    let p = unsafe { mmap(core::ptr::null_mut(), n, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
    if p as isize == -1 {
        0
    } else {
        p as usize
    }
}
