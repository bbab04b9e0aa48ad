//! The calls made by instrumented code, and the shadow of the stack.

use crate::seen;
use core::ffi::{c_int, c_void};

extern "C" {
    fn mmap(a: *mut c_void, l: usize, prot: c_int, flags: c_int, fd: c_int, off: isize) -> *mut c_void;
    fn abort() -> !;
}

// ---------------------------------------------------------------------------------------------
// the stack: one shadow byte for eight bytes (0: all may be touched, 1..7: that many, else: none)

const SPAN: usize = if cfg!(target_pointer_width = "64") { 64 << 30 } else { 1 << 30 };

#[no_mangle]
pub static mut __asan_shadow_memory_dynamic_address: usize = 0;
static mut S_LO: usize = 0;
static mut S_HI: usize = 0;

#[no_mangle]
pub unsafe extern "C" fn __asan_init() {
    if __asan_shadow_memory_dynamic_address != 0 {
        return;
    }
    let here = 0u8;
    let sp = &here as *const u8 as usize;
    let lo = sp.saturating_sub(SPAN) & !0xffff;
    let hi = sp.saturating_add(if cfg!(target_pointer_width = "64") { SPAN } else { 64 << 20 }) & !0xffff;
    // private, anonymous, without reserving memory for it
    let p = mmap(core::ptr::null_mut(), (hi - lo) >> 3, 3, 0x2 | 0x20 | 0x4000, -1, 0);
    if p as isize == -1 {
        abort();
    }
    __asan_shadow_memory_dynamic_address = (p as usize).wrapping_sub(lo >> 3);
    S_LO = lo;
    S_HI = hi;
}

#[no_mangle]
pub extern "C" fn __asan_version_mismatch_check_v8() {}

/// before a call that does not return (unwinding): the frames above are given up
#[no_mangle]
pub unsafe extern "C" fn __asan_handle_no_return() {
    let here = 0u8;
    let sp = &here as *const u8 as usize;
    if S_LO <= sp && sp < S_HI {
        let top = (sp + (8 << 20)).min(S_HI);
        let base = __asan_shadow_memory_dynamic_address;
        // only where something was poisoned: shadow pages never touched stay untouched
        let mut s = base.wrapping_add(sp >> 3);
        let e = base.wrapping_add(top >> 3);
        while s < e {
            let p = s as *mut u8;
            if *p != 0 {
                *p = 0;
            }
            s += 1;
        }
    }
}

#[inline]
unsafe fn set_shadow(a: usize, n: usize, v: u8) {
    core::ptr::write_bytes(a as *mut u8, v, n);
}

macro_rules! set_shadow {
    ($($name:ident $v:expr),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize, n: usize) { set_shadow(a, n, $v) }
    )*};
}
set_shadow!(__asan_set_shadow_00 0, __asan_set_shadow_01 1, __asan_set_shadow_02 2, __asan_set_shadow_03 3,
    __asan_set_shadow_04 4, __asan_set_shadow_05 5, __asan_set_shadow_06 6, __asan_set_shadow_07 7,
    __asan_set_shadow_f1 0xf1, __asan_set_shadow_f2 0xf2, __asan_set_shadow_f3 0xf3,
    __asan_set_shadow_f5 0xf5, __asan_set_shadow_f8 0xf8);

#[no_mangle]
pub unsafe extern "C" fn __asan_alloca_poison(_a: usize, _n: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __asan_allocas_unpoison(_a: usize, _b: usize) {}

/// does [p, e) touch memory between two variables?
pub(crate) unsafe fn red_zone(p: usize, e: usize) -> Option<u8> {
    if p >= S_LO && e <= S_HI && e > p {
        let base = __asan_shadow_memory_dynamic_address;
        let mut g = p & !7;
        while g < e {
            let s = *((base.wrapping_add(g >> 3)) as *const u8);
            // the last byte of this granule that is touched
            let last = (e - g).min(8) - 1;
            if s != 0 && (s >= 8 || last >= s as usize) {
                return Some(s);
            }
            g += 8;
        }
    }
    None
}

macro_rules! hooks {
    ($($load:ident $store:ident $eload:ident $estore:ident $n:expr),*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $load(p: usize) { seen(p, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: usize) { seen(p, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $eload(p: usize, _e: u32) { seen(p, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $estore(p: usize, _e: u32) { seen(p, $n, true) }
    )*};
}
hooks!(__asan_load1 __asan_store1 __asan_exp_load1 __asan_exp_store1 1,
    __asan_load2 __asan_store2 __asan_exp_load2 __asan_exp_store2 2,
    __asan_load4 __asan_store4 __asan_exp_load4 __asan_exp_store4 4,
    __asan_load8 __asan_store8 __asan_exp_load8 __asan_exp_store8 8,
    __asan_load16 __asan_store16 __asan_exp_load16 __asan_exp_store16 16);

#[no_mangle]
pub unsafe extern "C" fn __asan_loadN(p: usize, n: usize) {
    seen(p, n, false)
}
#[no_mangle]
pub unsafe extern "C" fn __asan_storeN(p: usize, n: usize) {
    seen(p, n, true)
}
#[no_mangle]
pub unsafe extern "C" fn __asan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n > 0 {
        seen(s as usize, n, false);
        seen(d as usize, n, true);
        core::ptr::copy(s, d, n);
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __asan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    __asan_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __asan_memset(d: *mut u8, c: c_int, n: usize) -> *mut u8 {
    if n > 0 {
        seen(d as usize, n, true);
        core::ptr::write_bytes(d, c as u8, n);
    }
    d
}
