//! HighwayHash as its authors specify it, over the whole input at once: the executable reference
//! the portable hasher must refine.  Written from the specification (and its C rendering), without
//! buffering, without tricks, and without any code of the crate.

struct State {
    v0: [u64; 4],
    v1: [u64; 4],
    mul0: [u64; 4],
    mul1: [u64; 4],
}

/// result byte i of the zipper merge is byte ZIP[i] of (low lane, high lane)
const ZIP: [usize; 16] = [3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7];

fn zipper_merge(v: &[u64; 4]) -> [u64; 4] {
    let mut out = [0u64; 4];
    for half in 0..2 {
        let from = (v[2 * half + 1] as u128) << 64 | v[2 * half] as u128;
        let mut to = 0u128;
        for (i, &z) in ZIP.iter().enumerate() {
            to |= (from >> (8 * z) & 0xff) << (8 * i);
        }
        out[2 * half] = to as u64;
        out[2 * half + 1] = (to >> 64) as u64;
    }
    out
}

fn swap32(x: u64) -> u64 {
    x << 32 | x >> 32
}

impl State {
    fn new(key: [u64; 4]) -> State {
        let mul0 = [0xdbe6_d5d5_fe4c_ce2f, 0xa409_3822_299f_31d0, 0x1319_8a2e_0370_7344, 0x243f_6a88_85a3_08d3];
        let mul1 = [0x3bd3_9e10_cb0e_f593, 0xc0ac_f169_b5f1_8a8c, 0xbe54_66cf_34e9_0c6c, 0x4528_21e6_38d0_1377];
        let mut s = State { v0: mul0, v1: mul1, mul0, mul1 };
        for i in 0..4 {
            s.v0[i] ^= key[i];
            s.v1[i] ^= swap32(key[i]);
        }
        s
    }

    fn round(&mut self, lanes: [u64; 4]) {
        for i in 0..4 {
            self.v1[i] = self.v1[i].wrapping_add(self.mul0[i]).wrapping_add(lanes[i]);
            self.mul0[i] ^= (self.v1[i] & 0xffff_ffff) * (self.v0[i] >> 32);
            self.v0[i] = self.v0[i].wrapping_add(self.mul1[i]);
            self.mul1[i] ^= (self.v0[i] & 0xffff_ffff) * (self.v1[i] >> 32);
        }
        let z = zipper_merge(&self.v1);
        for i in 0..4 {
            self.v0[i] = self.v0[i].wrapping_add(z[i]);
        }
        let z = zipper_merge(&self.v0);
        for i in 0..4 {
            self.v1[i] = self.v1[i].wrapping_add(z[i]);
        }
    }

    fn packet(&mut self, p: &[u8; 32]) {
        let mut lanes = [0u64; 4];
        for (i, &b) in p.iter().enumerate() {
            lanes[i / 8] |= (b as u64) << (8 * (i % 8));
        }
        self.round(lanes);
    }

    /// the last `n` bytes of the input, 0 < n < 32
    fn remainder(&mut self, r: &[u8]) {
        let n = r.len();
        for i in 0..4 {
            self.v0[i] = self.v0[i].wrapping_add((n as u64) << 32 | n as u64);
            let (lo, hi) = (self.v1[i] as u32, (self.v1[i] >> 32) as u32);
            self.v1[i] = lo.rotate_left(n as u32) as u64 | (hi.rotate_left(n as u32) as u64) << 32;
        }
        let mut p = [0u8; 32];
        let whole = n - n % 4;
        p[..whole].copy_from_slice(&r[..whole]);
        if n >= 16 {
            p[28..].copy_from_slice(&r[n - 4..]);
        } else if n % 4 != 0 {
            p[16] = r[whole];
            p[17] = r[whole + n % 4 / 2];
            p[18] = r[n - 1];
        }
        self.packet(&p);
    }

    fn finish(&mut self, rounds: usize) {
        for _ in 0..rounds {
            let v = self.v0;
            self.round([swap32(v[2]), swap32(v[3]), swap32(v[0]), swap32(v[1])]);
        }
    }
}

/// a 256-bit number modulo x^128 + x^2 + x
fn reduce(a3: u64, a2: u64, a1: u64, a0: u64) -> [u64; 2] {
    let high = (a3 as u128) << 64 & (0x3fff_ffff_ffff_ffffu128 << 64) | a2 as u128;
    let low = (a1 as u128) << 64 | a0 as u128;
    let m = low ^ high << 1 ^ high << 2;
    [m as u64, (m >> 64) as u64]
}

/// width 0: 64 bit, 1: 128 bit, 2: 256 bit
pub fn hash(key: [u64; 4], data: &[u8], width: u8) -> [u64; 4] {
    hash_parts(key, &[data], width)
}

pub fn hash_parts(key: [u64; 4], parts: &[&[u8]], width: u8) -> [u64; 4] {
    let mut s = State::new(key);
    let (mut p, mut n) = ([0u8; 32], 0);
    for part in parts {
        let mut rest = *part;
        while !rest.is_empty() {
            if n == 0 && rest.len() >= 32 {
                let (now, then) = rest.split_at(32);
                s.packet(now.try_into().unwrap());
                rest = then;
                continue;
            }
            p[n] = rest[0];
            rest = &rest[1..];
            n += 1;
            if n == 32 {
                s.packet(&p);
                n = 0;
            }
        }
    }
    if n > 0 {
        s.remainder(&p[..n]);
    }
    match width % 3 {
        0 => {
            s.finish(4);
            let r = s.v0[0].wrapping_add(s.v1[0]).wrapping_add(s.mul0[0]).wrapping_add(s.mul1[0]);
            [r, 0, 0, 0]
        }
        1 => {
            s.finish(6);
            let f = |i: usize| {
                s.v0[i].wrapping_add(s.mul0[i]).wrapping_add(s.v1[i + 2]).wrapping_add(s.mul1[i + 2])
            };
            [f(0), f(1), 0, 0]
        }
        _ => {
            s.finish(10);
            let a = |i: usize| s.v0[i].wrapping_add(s.mul0[i]);
            let b = |i: usize| s.v1[i].wrapping_add(s.mul1[i]);
            let lo = reduce(b(1), b(0), a(1), a(0));
            let hi = reduce(b(3), b(2), a(3), a(2));
            [lo[0], lo[1], hi[0], hi[1]]
        }
    }
}

/// the published results; false: the reference itself is wrong on this machine
pub fn self_test() -> bool {
    use crate::vectors::*;
    let mut key = [0u64; 4];
    let data: Vec<u8> = (0..=255).collect();
    for i in 0..32 {
        key[i / 8] |= (i as u64) << (8 * (i % 8));
    }
    V64.iter().enumerate().all(|(n, v)| hash(key, &data[..n], 0)[0] == *v)
        && V128.iter().enumerate().all(|(n, v)| hash(key, &data[..n], 1)[..2] == v[..])
        && V256.iter().enumerate().all(|(n, v)| hash(key, &data[..n], 2) == *v)
        && hash([0; 4], &[], 0)[0] == 0x7035_DA75_B9D5_4469
}
