//! A program with neither std nor a global allocator that uses every operation of the crate.  It
//! links only if the crate needs no allocator.
#![no_std]

use core::fmt::{self, Write};
use core::hash::{BuildHasher, Hasher};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

struct Sink(u64);
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.wrapping_add(s.len() as u64);
        Ok(())
    }
}

fn some<T: HighwayHash + Clone + fmt::Debug>(mk: impl Fn() -> T, d: &[u8]) -> u64 {
    let mut h = mk();
    h.append(d);
    let mut s = Sink(0);
    let _ = write!(s, "{:?} {:#?}", h, h);
    let c = h.checkpoint();
    let g = h.clone();
    let mut x = s.0 ^ c[0] as u64;
    x ^= h.finalize64();
    x ^= g.clone().finalize128()[1];
    x ^= g.finalize256()[3];
    x ^= mk().hash64(d);
    x ^= mk().hash128(d)[0];
    x ^ mk().hash256(d)[2]
}

fn all<T: HighwayHash + Hasher + Clone + fmt::Debug>(mk: impl Fn() -> T, d: &[u8]) -> u64 {
    let mut h = mk();
    Hasher::write(&mut h, d);
    h.write_u8(1);
    h.write_u32(2);
    h.write_u128(3);
    Hasher::finish(&h) ^ some(mk, d)
}

/// # Safety
/// `p` is valid for `n` bytes
#[no_mangle]
pub unsafe extern "C" fn freestanding(p: *const u8, n: usize) -> u64 {
    let d = core::slice::from_raw_parts(p, n);
    let k = Key([1, 2, 3, 4]);
    let mut x = all(|| PortableHash::new(k), d) ^ all(|| HighwayHasher::new(k), d);
    x ^= all(PortableHash::default, d) ^ all(HighwayHasher::default, d);
    let c = PortableHash::new(k).checkpoint();
    x ^= all(|| PortableHash::from_checkpoint(c), d) ^ all(|| HighwayHasher::from_checkpoint(c), d);
    let b = HighwayBuildHasher::new(k);
    x ^= all(|| b.build_hasher(), d) ^ b.hash_one(n);
    #[cfg(target_arch = "x86_64")]
    {
        use highway::{AvxHash, SseHash};
        if let (Some(s), Some(a)) = (SseHash::new(k), AvxHash::new(k)) {
            x ^= all(|| s.clone(), d) ^ all(|| a.clone(), d);
        }
        if let (Some(s), Some(a)) = (SseHash::from_checkpoint(c), AvxHash::from_checkpoint(c)) {
            x ^= all(|| s.clone(), d) ^ all(|| a.clone(), d);
        }
    }
    #[cfg(target_arch = "aarch64")]
    {
        use highway::NeonHash;
        x ^= some(|| NeonHash::force_new(k), d) ^ some(|| NeonHash::force_from_checkpoint(c), d);
        x ^= some(NeonHash::default, d);
    }
    #[cfg(all(target_family = "wasm", target_feature = "simd128"))]
    {
        use highway::WasmHash;
        x ^= all(|| WasmHash::new(k), d) ^ all(|| WasmHash::from_checkpoint(c), d);
        x ^= all(WasmHash::default, d);
    }
    x
}
