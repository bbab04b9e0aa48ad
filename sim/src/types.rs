//! The hasher types of the machine this simulator was compiled for, behind one numbering.
//!
//! slot 0: portable; slot 1: SSE / NEON / Wasm; slot 2: AVX / NEON / Wasm; slot 3: dispatcher.
//! A slot whose type does not exist on the machine (or whose CPU feature is absent) is portable.

pub const SLOTS: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    Portable,
    #[cfg(target_arch = "x86_64")]
    Sse,
    #[cfg(target_arch = "x86_64")]
    Avx,
    #[cfg(target_arch = "aarch64")]
    Neon,
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    Wasm,
    Dispatch,
}

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Portable => "PortableHash",
            #[cfg(target_arch = "x86_64")]
            Kind::Sse => "SseHash",
            #[cfg(target_arch = "x86_64")]
            Kind::Avx => "AvxHash",
            #[cfg(target_arch = "aarch64")]
            Kind::Neon => "NeonHash",
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            Kind::Wasm => "WasmHash",
            Kind::Dispatch => "HighwayHasher",
        }
    }
}

/// What this CPU (or the emulated CPU model) offers, from CPUID directly and not through the
/// standard library's detection, so that it is independent of what the code under test consults.
#[derive(Clone, Copy, Debug, Default)]
pub struct Cpu {
    pub sse41: bool,
    pub avx2: bool,
}

#[cfg(all(target_arch = "x86_64", not(miri)))]
pub fn cpu() -> Cpu {
    use core::arch::x86_64::{__cpuid, __cpuid_count};
    #[allow(unused_unsafe)]
    unsafe {
        let max = __cpuid(0).eax;
        if max < 1 {
            return Cpu::default();
        }
        let l1 = __cpuid(1);
        let sse41 = l1.ecx & (1 << 19) != 0;
        let osxsave = l1.ecx & (1 << 27) != 0;
        let avx = l1.ecx & (1 << 28) != 0;
        let mut avx2 = false;
        if max >= 7 && osxsave && avx {
            let (lo, _hi): (u32, u32);
            core::arch::asm!("xgetbv", in("ecx") 0, out("eax") lo, out("edx") _hi);
            if lo & 6 == 6 {
                avx2 = __cpuid_count(7, 0).ebx & (1 << 5) != 0;
            }
        }
        Cpu { sse41, avx2 }
    }
}

#[cfg(all(target_arch = "x86_64", miri))]
pub fn cpu() -> Cpu {
    Cpu { sse41: cfg!(target_feature = "sse4.1"), avx2: cfg!(target_feature = "avx2") }
}

#[cfg(not(target_arch = "x86_64"))]
pub fn cpu() -> Cpu {
    Cpu::default()
}

pub fn kind_of(slot: u8) -> Kind {
    match slot % SLOTS {
        0 => Kind::Portable,
        3 => Kind::Dispatch,
        #[cfg(target_arch = "x86_64")]
        1 => {
            if cached().sse41 {
                Kind::Sse
            } else {
                Kind::Portable
            }
        }
        #[cfg(target_arch = "x86_64")]
        2 => {
            if cached().avx2 {
                Kind::Avx
            } else {
                Kind::Portable
            }
        }
        #[cfg(target_arch = "aarch64")]
        _ => Kind::Neon,
        #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
        _ => Kind::Wasm,
        #[cfg(not(any(
            target_arch = "aarch64",
            all(target_family = "wasm", target_feature = "simd128")
        )))]
        _ => Kind::Portable,
    }
}

#[cfg(target_arch = "x86_64")]
fn cached() -> Cpu {
    use std::sync::atomic::{AtomicU8, Ordering::Relaxed};
    static C: AtomicU8 = AtomicU8::new(0);
    let v = C.load(Relaxed);
    if v == 0 {
        let c = cpu();
        C.store(1 | (c.sse41 as u8) << 1 | (c.avx2 as u8) << 2, Relaxed);
        return c;
    }
    Cpu { sse41: v & 2 != 0, avx2: v & 4 != 0 }
}

/// run `$e` with `$T` bound to the concrete hasher type of `$k`
#[macro_export]
macro_rules! on_kind {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            $crate::types::Kind::Portable => {
                type $T = highway::PortableHash;
                $e
            }
            #[cfg(target_arch = "x86_64")]
            $crate::types::Kind::Sse => {
                type $T = highway::SseHash;
                $e
            }
            #[cfg(target_arch = "x86_64")]
            $crate::types::Kind::Avx => {
                type $T = highway::AvxHash;
                $e
            }
            #[cfg(target_arch = "aarch64")]
            $crate::types::Kind::Neon => {
                type $T = $crate::types::NeonShim;
                $e
            }
            #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
            $crate::types::Kind::Wasm => {
                type $T = highway::WasmHash;
                $e
            }
            $crate::types::Kind::Dispatch => {
                type $T = highway::HighwayHasher;
                $e
            }
        }
    };
}

use highway::{HighwayHasher, Key, PortableHash};

/// Construction differs between the types (infallible, optional, unsafe); this evens it out.
pub trait Make: Sized {
    fn make(key: [u64; 4], force: bool) -> Option<Self>;
    fn load(ck: [u8; 164], force: bool) -> Option<Self>;
}

impl Make for PortableHash {
    fn make(key: [u64; 4], _f: bool) -> Option<Self> {
        Some(PortableHash::new(Key(key)))
    }
    fn load(ck: [u8; 164], _f: bool) -> Option<Self> {
        Some(PortableHash::from_checkpoint(ck))
    }
}

impl Make for HighwayHasher {
    fn make(key: [u64; 4], _f: bool) -> Option<Self> {
        Some(HighwayHasher::new(Key(key)))
    }
    fn load(ck: [u8; 164], _f: bool) -> Option<Self> {
        Some(HighwayHasher::from_checkpoint(ck))
    }
}

#[cfg(all(target_family = "wasm", target_feature = "simd128"))]
impl Make for highway::WasmHash {
    fn make(key: [u64; 4], _f: bool) -> Option<Self> {
        Some(highway::WasmHash::new(Key(key)))
    }
    fn load(ck: [u8; 164], _f: bool) -> Option<Self> {
        Some(highway::WasmHash::from_checkpoint(ck))
    }
}

/// `NeonHash` has no std adapters of its own; this supplies trivial ones so that every type can be
/// driven alike.  Everything else is the type itself.
#[cfg(target_arch = "aarch64")]
mod neon {
    use super::*;
    use highway::{HighwayHash, NeonHash};

    #[derive(Clone, Debug, Default)]
    #[repr(transparent)]
    pub struct NeonShim(pub NeonHash);

    impl HighwayHash for NeonShim {
        fn append(&mut self, data: &[u8]) {
            self.0.append(data)
        }
        fn finalize64(self) -> u64 {
            self.0.finalize64()
        }
        fn finalize128(self) -> [u64; 2] {
            self.0.finalize128()
        }
        fn finalize256(self) -> [u64; 4] {
            self.0.finalize256()
        }
        fn checkpoint(&self) -> [u8; 164] {
            self.0.checkpoint()
        }
        fn hash64(self, data: &[u8]) -> u64 {
            self.0.hash64(data)
        }
        fn hash128(self, data: &[u8]) -> [u64; 2] {
            self.0.hash128(data)
        }
        fn hash256(self, data: &[u8]) -> [u64; 4] {
            self.0.hash256(data)
        }
    }
    impl std::hash::Hasher for NeonShim {
        fn write(&mut self, bytes: &[u8]) {
            self.0.append(bytes)
        }
        fn finish(&self) -> u64 {
            self.0.clone().finalize64()
        }
    }
    #[cfg(feature = "hwstd")]
    impl std::io::Write for NeonShim {
        fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
            self.0.append(bytes);
            Ok(bytes.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl Make for NeonShim {
        fn make(key: [u64; 4], _f: bool) -> Option<Self> {
            Some(NeonShim(unsafe { NeonHash::force_new(Key(key)) }))
        }
        fn load(ck: [u8; 164], _f: bool) -> Option<Self> {
            Some(NeonShim(unsafe { NeonHash::force_from_checkpoint(ck) }))
        }
    }
}
#[cfg(target_arch = "aarch64")]
pub use neon::NeonShim;

#[cfg(target_arch = "x86_64")]
mod x86 {
    use super::*;
    use highway::{AvxHash, SseHash};
    // slots 1 and 2 are only mapped to these types when the CPU has the feature, which is what
    // makes the force constructors legitimate to call
    impl Make for SseHash {
        fn make(key: [u64; 4], force: bool) -> Option<Self> {
            if force || !cfg!(feature = "hwstd") {
                return Some(unsafe { SseHash::force_new(Key(key)) });
            }
            SseHash::new(Key(key)).or_else(|| Some(unsafe { SseHash::force_new(Key(key)) }))
        }
        fn load(ck: [u8; 164], force: bool) -> Option<Self> {
            if force || !cfg!(feature = "hwstd") {
                return Some(unsafe { SseHash::force_from_checkpoint(ck) });
            }
            SseHash::from_checkpoint(ck)
                .or_else(|| Some(unsafe { SseHash::force_from_checkpoint(ck) }))
        }
    }
    impl Make for AvxHash {
        fn make(key: [u64; 4], force: bool) -> Option<Self> {
            if force || !cfg!(feature = "hwstd") {
                return Some(unsafe { AvxHash::force_new(Key(key)) });
            }
            AvxHash::new(Key(key)).or_else(|| Some(unsafe { AvxHash::force_new(Key(key)) }))
        }
        fn load(ck: [u8; 164], force: bool) -> Option<Self> {
            if force || !cfg!(feature = "hwstd") {
                return Some(unsafe { AvxHash::force_from_checkpoint(ck) });
            }
            AvxHash::from_checkpoint(ck)
                .or_else(|| Some(unsafe { AvxHash::force_from_checkpoint(ck) }))
        }
    }
}
