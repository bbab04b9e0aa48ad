//! The memory seam: where inputs and hasher objects are placed, what surrounds them, and what the
//! heap does.
//!
//! Inputs and objects can be put flush against unmapped pages, at any alignment, between
//! neighbours filled from a salt; the bytes of an input are overwritten as soon as the call that
//! was given them returns.

use crate::ctl::{self, ctl, K_ALLOC_IN_LIB, K_ALLOC_SIZE};
use crate::rng::mix;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

/// 0: ignore, 1: count allocations made inside the library, 2: also refuse them
pub static ALLOC_MODE: AtomicU32 = AtomicU32::new(0);

pub struct SimAlloc;

#[inline]
fn seam(size: usize) -> bool {
    let m = ALLOC_MODE.load(Relaxed);
    if m != 0 && ctl::in_lib() && !ctl::quiet() {
        let c = ctl();
        c.count[K_ALLOC_IN_LIB] += 1;
        c.count[K_ALLOC_SIZE] = size as u64;
        return m == 2;
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if seam(l.size()) {
            return core::ptr::null_mut();
        }
        #[cfg(all(unix, feature = "watch"))]
        if let Some(p) = crate::tf::own_block(l) {
            return p;
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if seam(l.size()) {
            return core::ptr::null_mut();
        }
        // (fresh from the system, never used before)
        #[cfg(all(unix, feature = "watch"))]
        if let Some(p) = crate::tf::own_block(l) {
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        #[cfg(all(unix, feature = "watch"))]
        if crate::tf::is_own(p) {
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if seam(n) {
            return core::ptr::null_mut();
        }
        #[cfg(all(unix, feature = "watch"))]
        if crate::tf::is_own(p) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

#[derive(Clone, Copy, Debug)]
pub struct Place {
    /// guard-page placement and salted neighbours (C09)
    pub hard: bool,
    pub salt: u64,
}

const PAD: usize = 256;

/// The input window.
pub struct Window {
    #[cfg(all(unix, not(miri)))]
    base: *mut u8,
    #[cfg(all(unix, not(miri)))]
    cap: usize,
    #[cfg(target_family = "wasm")]
    grown: usize,
    buf: Vec<u8>,
    held: Option<(*mut u8, usize)>,
}

#[cfg(all(unix, not(miri)))]
const WIN: usize = 3 << 19; // 1.5 MiB

impl Default for Window {
    fn default() -> Self {
        Self::new()
    }
}

impl Window {
    pub fn new() -> Window {
        Window {
            #[cfg(all(unix, not(miri)))]
            base: core::ptr::null_mut(),
            #[cfg(all(unix, not(miri)))]
            cap: 0,
            #[cfg(target_family = "wasm")]
            grown: 0,
            buf: Vec::new(),
            held: None,
        }
    }

    /// Put `data` somewhere; the slice is valid until the next `put` or `release`.
    pub fn put(&mut self, data: &[u8], al: u8, pl: Place, step: u64) -> &'static [u8] {
        #[cfg(feature = "watch")]
        let old = self.buf.as_ptr() as usize;
        let d = self.put_there(data, al, pl, step);
        #[cfg(feature = "watch")]
        {
            let p = d.as_ptr() as usize;
            if old != self.buf.as_ptr() as usize {
                hwwatch::forget(old);
            }
            // between calls, and outside of what a call is given, nothing of it may be touched
            let (lo, hi) = self.arena(p);
            hwwatch::area(lo, hi, p, p + d.len(), false);
        }
        d
    }

    /// the area of memory `p` was put into
    #[cfg(feature = "watch")]
    fn arena(&self, p: usize) -> (usize, usize) {
        let b = self.buf.as_ptr() as usize;
        if b <= p && p < b + self.buf.len() {
            return (b, b + self.buf.len());
        }
        #[cfg(unix)]
        return (self.base as usize, self.base as usize + self.cap);
        #[cfg(target_family = "wasm")]
        return ((self.grown - 2) << 16, self.grown << 16);
    }

    fn put_there(&mut self, data: &[u8], al: u8, pl: Place, step: u64) -> &'static [u8] {
        let al = (al as usize) & 63;
        #[cfg(all(unix, not(miri)))]
        {
            if pl.hard && data.len() + 8192 <= WIN {
                if self.base.is_null() {
                    self.base = crate::sys::guarded(WIN);
                    self.cap = WIN;
                }
                let h = mix(pl.salt.wrapping_mul(77), step);
                let off = if pl.salt == 0 {
                    4096 + al
                } else {
                    match h % 4 {
                        0 | 1 => self.cap - data.len(), // ends at an unmapped page
                        2 => 0,                         // starts after an unmapped page
                        _ => 4096 + (h >> 8) as usize % 64,
                    }
                };
                unsafe {
                    let p = self.base.add(off);
                    let lo = off.min(PAD);
                    let hi = (self.cap - off - data.len()).min(PAD);
                    salted(p.sub(lo), lo, mix(h, 1));
                    salted(p.add(data.len()), hi, mix(h, 2));
                    core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
                    self.held = Some((p, data.len()));
                    return core::slice::from_raw_parts(p, data.len());
                }
            }
        }
        #[cfg(target_family = "wasm")]
        {
            if pl.hard && pl.salt != 0 && mix(pl.salt, step) % 4 < 2 && data.len() <= 1 << 16 {
                // the last bytes of linear memory: one past them traps
                use core::arch::wasm32::{memory_grow, memory_size};
                let pages = memory_size(0);
                if pages != self.grown {
                    #[cfg(feature = "watch")]
                    hwwatch::forget(self.grown.wrapping_sub(2) << 16);
                    if memory_grow(0, 2) == usize::MAX {
                        panic!("memory.grow");
                    }
                    self.grown = pages + 2;
                }
                unsafe {
                    let end = (self.grown << 16) as *mut u8;
                    let p = end.wrapping_sub(data.len());
                    salted(p.wrapping_sub(PAD), PAD, mix(pl.salt, step));
                    core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
                    self.held = Some((p, data.len()));
                    return core::slice::from_raw_parts(p, data.len());
                }
            }
        }
        #[cfg(miri)]
        {
            // an allocation that ends exactly where the data ends
            self.buf = Vec::with_capacity(al + data.len());
            self.buf.resize(al, 0xa5);
            self.buf.extend_from_slice(data);
            let p = unsafe { self.buf.as_mut_ptr().add(al) };
            self.held = Some((p, data.len()));
            let _ = (pl, step, mix(0, 0), PAD);
            return unsafe { core::slice::from_raw_parts(p, data.len()) };
        }
        #[cfg(not(miri))]
        {
            let need = data.len() + 64 + 2 * PAD;
            if self.buf.len() < need {
                self.buf.resize(need.max(8192), 0);
            }
            let b = self.buf.as_mut_ptr();
            let base = b as usize + PAD;
            let start = (base + 63) & !63;
            let al = if pl.hard { (al + pl.salt as usize * 13) & 63 } else { al };
            let off = start + al - b as usize;
            unsafe {
                let p = b.add(off.min(self.buf.len() - PAD - data.len()));
                if pl.hard {
                    salted(p.sub(PAD), PAD, mix(pl.salt, step));
                    salted(p.add(data.len()), PAD.min(64), mix(pl.salt, step + 1));
                }
                core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
                self.held = Some((p, data.len()));
                core::slice::from_raw_parts(p, data.len())
            }
        }
    }

    /// The caller's buffer is reused as soon as the call returns: overwrite it.
    pub fn release(&mut self) {
        if let Some((p, n)) = self.held.take() {
            #[cfg(feature = "watch")]
            {
                let (lo, hi) = self.arena(p as usize);
                hwwatch::area(lo, hi, p as usize, p as usize, false);
            }
            unsafe { core::ptr::write_bytes(p, 0xd5, n) };
        }
    }
}

impl Drop for Window {
    fn drop(&mut self) {
        #[cfg(feature = "watch")]
        {
            hwwatch::forget(self.buf.as_ptr() as usize);
            #[cfg(unix)]
            hwwatch::forget(self.base as usize);
        }
        #[cfg(all(unix, not(miri)))]
        if !self.base.is_null() {
            crate::sys::unguard(self.base, self.cap);
        }
    }
}

unsafe fn salted(p: *mut u8, n: usize, salt: u64) {
    let mut i = 0;
    let mut x = salt;
    while i < n {
        if i & 7 == 0 {
            x = x.rotate_left(13).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(salt);
        }
        *p.add(i) = (x >> ((i & 7) * 8)) as u8;
        i += 1;
    }
}

/// A block holding one hasher object.
pub struct Block {
    pub ptr: *mut u8,
    size: usize,
    layout: Layout,
    alloc: *mut u8,
    guarded: usize,
}

impl Block {
    pub fn new(l: Layout, pl: Place, n: u64) -> Block {
        let b = Block::somewhere(l, pl, n);
        #[cfg(feature = "watch")]
        {
            let (a, p) = (b.alloc as usize, b.ptr as usize);
            let len = if b.guarded > 0 { b.guarded } else { b.layout.size() };
            hwwatch::area(a, a + len, p, p + b.size, true);
        }
        b
    }

    fn somewhere(l: Layout, pl: Place, n: u64) -> Block {
        #[cfg(all(unix, not(miri)))]
        if pl.hard && pl.salt != 0 {
            let h = mix(pl.salt.wrapping_mul(131), n);
            let cap = 4096;
            let base = crate::sys::guarded(cap);
            let off = match h % 3 {
                0 | 1 => cap - l.size(),
                _ => 0,
            } & !(l.align() - 1);
            unsafe {
                salted(base, cap, h);
                return Block {
                    ptr: base.add(off),
                    size: l.size(),
                    layout: l,
                    alloc: base,
                    guarded: cap,
                };
            }
        }
        let _ = n;
        let pad = if cfg!(miri) { 0 } else { 64 };
        let layout =
            Layout::from_size_align(l.size() + 2 * pad, l.align().max(if cfg!(miri) { 1 } else { 64 }))
                .unwrap();
        unsafe {
            let a = std::alloc::alloc(layout);
            // any address the type's alignment allows, not only well aligned ones
            let shift = if pad > 0 { (n as usize * l.align()) % 64 } else { 0 };
            if !cfg!(miri) {
                core::ptr::write_bytes(a, 0x5a ^ pl.salt as u8, layout.size());
            }
            Block { ptr: a.add(pad.min(shift)), size: l.size(), layout, alloc: a, guarded: 0 }
        }
    }
}

impl Drop for Block {
    fn drop(&mut self) {
        #[cfg(feature = "watch")]
        hwwatch::forget(self.alloc as usize);
        unsafe {
            if !cfg!(miri) {
                core::ptr::write_bytes(self.ptr, 0xdd, self.size);
            }
            if self.guarded > 0 {
                #[cfg(all(unix, not(miri)))]
                crate::sys::unguard(self.alloc, self.guarded);
            } else {
                std::alloc::dealloc(self.alloc, self.layout);
            }
        }
    }
}

/// Leave a known pattern where the library's next stack frame will be.
#[inline(never)]
pub fn paint_stack(salt: u64) {
    if cfg!(miri) {
        return;
    }
    let mut a = [0u64; 512];
    let mut x = salt | 1;
    for v in a.iter_mut() {
        x = x.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(17);
        *v = x;
    }
    std::hint::black_box(&mut a);
}
