//! The explicit trace of one simulated run: a flat list of library-level steps, each stamped with
//! the simulated time and the simulated cause.  A trace is complete: executing it needs no seed,
//! and any subsequence of its steps is executable (steps whose referents are missing are skipped),
//! which is what makes delta debugging of schedules and faults possible.

use crate::rng::{mix, splitmix, Rng};
use std::borrow::Cow;
use std::fmt::Write as _;

macro_rules! ops {
    ($($v:ident = $s:expr),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum Op { $($v),* }
        impl Op {
            pub const ALL: &'static [Op] = &[$(Op::$v),*];
            pub fn name(self) -> &'static str { match self { $(Op::$v => $s),* } }
            pub fn parse(s: &str) -> Option<Op> { match s { $($s => Some(Op::$v),)* _ => None } }
        }
    };
}

ops! {
    New = "new",            // o slot arg(ctor: 0 new, 1 default, 2 force) key
    Build = "build",        // p: builder id, key, arg(1: BuildHasher default)
    BNew = "bnew",          // o from builder p
    Append = "append",      // o dk ds off len via arg al
    Ckpt = "ckpt",          // o -> checkpoint p
    Restore = "restore",    // o slot from checkpoint p, arg 1: force
    Corrupt = "corrupt",    // checkpoint o := mutated copy of checkpoint p (arg, off)
    Clone = "clone",        // o := clone of p
    CloneFrom = "clonefrom",// o.clone_from(p)
    Finish = "finish",      // o
    Debug = "debug",        // o arg(0 {:?}, 1 {:#?}, 2 failing sink after len bytes)
    Flush = "flush",        // o io flush
    Final = "final",        // o w
    Probe = "probe",        // full oracle on a live object
    Move = "move",          // relocate o
    Drop = "drop",          // o lost (crash, shutdown)
    OneShot = "oneshot",    // slot key dk ds off len w
    HashOne = "hashone",    // p builder, arg kind, ds seed
    Map = "map",            // p builder, ds seed, len operations
    Churn = "churn",        // slot key len instances ds
    Drip = "drip",          // o dk ds off len arg: very many very small appends
    Share = "share",        // o len threads arg seed: observers of one hasher on several threads at once
    Giant = "giant",        // o len: zero bytes mapped copy-on-write, via
}

/// a schedule entry for this session number is not a hand-over but an interrupt: a handler that
/// hashes something of its own runs on the interrupted thread's stack
pub const NESTED: u16 = 0xfffe;

pub const DK_RAND: u8 = 0;
/// content that steers a hasher with the key `steer_key(seed)` into extreme states
pub const DK_STEER: u8 = 100;
pub const DK_KINDS: u64 = 9;

#[derive(Clone, Debug)]
pub struct Step {
    pub t: u64,
    pub s: u16,
    pub op: Op,
    pub o: u32,
    pub p: u32,
    pub slot: u8,
    pub w: u8,
    pub via: u8,
    pub al: u8,
    pub dk: u8,
    pub ds: u64,
    pub off: u64,
    pub len: u64,
    pub arg: u64,
    pub key: [u64; 4],
    pub why: Cow<'static, str>,
}

impl Step {
    pub fn new(op: Op) -> Step {
        Step {
            t: 0,
            s: 0,
            op,
            o: 0,
            p: 0,
            slot: 0,
            w: 0,
            via: 0,
            al: 0,
            dk: 0,
            ds: 0,
            off: 0,
            len: 0,
            arg: 0,
            key: [0; 4],
            why: Cow::Borrowed(""),
        }
    }

    pub fn print(&self, out: &mut String) {
        let _ = write!(out, "step {} t={} s={}", self.op.name(), self.t, self.s);
        let f: [(&str, u64); 10] = [
            ("o", self.o as u64),
            ("p", self.p as u64),
            ("slot", self.slot as u64),
            ("w", self.w as u64),
            ("via", self.via as u64),
            ("al", self.al as u64),
            ("dk", self.dk as u64),
            ("off", self.off),
            ("len", self.len),
            ("arg", self.arg),
        ];
        for (n, v) in f {
            if v != 0 {
                let _ = write!(out, " {}={}", n, v);
            }
        }
        if self.ds != 0 {
            let _ = write!(out, " ds={:x}", self.ds);
        }
        if self.key != [0; 4] {
            let k = self.key;
            let _ = write!(out, " key={:x},{:x},{:x},{:x}", k[0], k[1], k[2], k[3]);
        }
        if !self.why.is_empty() {
            let _ = write!(out, " why={}", self.why);
        }
        out.push('\n');
    }

    fn parse(line: &str) -> Result<Step, String> {
        let mut it = line.split_ascii_whitespace();
        let name = it.next().ok_or("empty step")?;
        let mut st = Step::new(Op::parse(name).ok_or_else(|| format!("unknown op {}", name))?);
        for kv in it {
            let (k, v) = kv.split_once('=').ok_or_else(|| format!("bad field {}", kv))?;
            let dec = || v.parse::<u64>().map_err(|e| format!("{}: {}", kv, e));
            match k {
                "t" => st.t = dec()?,
                "s" => st.s = dec()? as u16,
                "o" => st.o = dec()? as u32,
                "p" => st.p = dec()? as u32,
                "slot" => st.slot = dec()? as u8,
                "w" => st.w = dec()? as u8,
                "via" => st.via = dec()? as u8,
                "al" => st.al = dec()? as u8,
                "dk" => st.dk = dec()? as u8,
                "off" => st.off = dec()?,
                "len" => st.len = dec()?,
                "arg" => st.arg = dec()?,
                "ds" => st.ds = u64::from_str_radix(v, 16).map_err(|e| format!("{}: {}", kv, e))?,
                "key" => {
                    for (i, w) in v.split(',').enumerate().take(4) {
                        st.key[i] =
                            u64::from_str_radix(w, 16).map_err(|e| format!("{}: {}", kv, e))?;
                    }
                }
                "why" => st.why = Cow::Owned(v.to_string()),
                _ => return Err(format!("unknown field {}", k)),
            }
        }
        Ok(st)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// how the sessions of this run are carried: 0 = one thread; k > 0 = k real threads passing a
    /// baton at operation boundaries; "tf" adds preemption at machine-instruction granularity
    pub threads: u32,
    pub tf: bool,
    /// (session, instruction quota) pairs for tf
    pub sched: Vec<(u16, u64)>,
    /// simulated nanoseconds covered
    pub sim_ns: u64,
    /// injected-fault counts by kind
    pub faults: Vec<(&'static str, u64)>,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn print(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "hwsim 1");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        let _ = writeln!(s, "threads {}", self.threads);
        if self.tf {
            let _ = writeln!(s, "tf 1");
        }
        for (a, b) in &self.sched {
            let _ = writeln!(s, "sched {} {}", a, b);
        }
        for st in &self.steps {
            st.print(&mut s);
        }
        let _ = writeln!(s, "end");
        s
    }

    /// identifies the schedule: which operations, in which order, on what, of which size
    pub fn signature(&self) -> u64 {
        let mut h = 0u64;
        for s in &self.steps {
            h = mix(h, (s.op as u64) << 32 ^ s.len << 12 ^ (s.slot as u64) << 8 ^ s.via as u64);
            h = mix(h, (s.o as u64) << 32 ^ s.p as u64 ^ (s.s as u64) << 48);
        }
        for (a, b) in &self.sched {
            h = mix(h, (*a as u64) << 48 ^ b);
        }
        h
    }

    pub fn parse_many(text: &str) -> Result<Vec<Plan>, String> {
        let mut v = Vec::new();
        let mut cur: Option<Plan> = None;
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            if line == "hwsim 1" {
                cur = Some(Plan::default());
                continue;
            }
            let Some(p) = cur.as_mut() else {
                return Err(format!("line outside a plan: {}", line));
            };
            if line == "end" {
                v.push(cur.take().unwrap());
                continue;
            }
            let (k, rest) = line.split_once(' ').unwrap_or((line, ""));
            let n = || rest.parse::<u64>().map_err(|e| format!("{}: {}", line, e));
            match k {
                "prop" => p.prop = rest.to_string(),
                "seed" => p.seed = n()?,
                "threads" => p.threads = n()? as u32,
                "tf" => p.tf = n()? != 0,
                "sched" => {
                    let (a, b) = rest.split_once(' ').ok_or("bad sched")?;
                    p.sched.push((
                        a.parse().map_err(|_| "bad sched")?,
                        b.parse().map_err(|_| "bad sched")?,
                    ));
                }
                "step" => p.steps.push(Step::parse(rest)?),
                _ => return Err(format!("unknown line: {}", line)),
            }
        }
        if cur.is_some() {
            return Err("plan without end".into());
        }
        Ok(v)
    }
}

/// The bytes of a simulated stream: byte `i` is a pure function of (kind, seed, i).
pub fn fill(kind: u8, seed: u64, off: u64, out: &mut [u8]) {
    match kind {
        1 => out.fill(0),
        2 => out.fill(0xff),
        3 => {
            for (i, b) in out.iter_mut().enumerate() {
                *b = (off + i as u64).wrapping_add(seed) as u8;
            }
        }
        4 => out.fill(0x80),
        5 | 6 | 7 | 0 | 8 => {
            let mut i = 0usize;
            while i < out.len() {
                let pos = off + i as u64;
                let word = pos / 8;
                let mut x = seed ^ word.wrapping_mul(0xd134_2543_de82_ef95);
                let v = match kind {
                    0 => splitmix(&mut x),
                    5 => {
                        const W: [u64; 8] = [
                            0,
                            u64::MAX,
                            1 << 63,
                            0xffff_ffff,
                            0xffff_ffff_0000_0000,
                            1,
                            0x8000_0000_8000_0000,
                            0x7fff_ffff_ffff_ffff,
                        ];
                        W[(splitmix(&mut x) & 7) as usize]
                    }
                    6 => {
                        let r = splitmix(&mut x);
                        if r & 7 == 0 {
                            0xffu64 << (r >> 8 & 56)
                        } else {
                            0
                        }
                    }
                    7 => {
                        let mut y = seed ^ (word & 3);
                        splitmix(&mut y)
                    }
                    _ => {
                        // printable text
                        let r = splitmix(&mut x);
                        let mut b = r.to_le_bytes();
                        for c in b.iter_mut() {
                            *c = b'a' + (*c % 26);
                        }
                        u64::from_le_bytes(b)
                    }
                };
                let b = v.to_le_bytes();
                let start = (pos % 8) as usize;
                let n = (8 - start).min(out.len() - i);
                out[i..i + n].copy_from_slice(&b[start..start + n]);
                i += n;
            }
        }
        DK_STEER => {
            let head = steer_packets(seed);
            for (i, b) in out.iter_mut().enumerate() {
                let pos = off + i as u64;
                *b = match head.get(pos as usize) {
                    Some(x) => *x,
                    None => {
                        let mut x = seed ^ (pos / 8).wrapping_mul(0xd134_2543_de82_ef95);
                        (splitmix(&mut x) >> (pos % 8 * 8)) as u8
                    }
                };
            }
        }
        _ => out.fill(kind),
    }
}

/// A lane value at or near a carry, sign or width boundary.
pub fn extreme(r: &mut Rng) -> u64 {
    match r.below(16) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << 63,
        3 => 0xffff_ffff,
        4 => 0xffff_ffff_0000_0000,
        5 => u64::MAX - r.below(64),
        6 => 0xffff_ffff - r.below(64),
        7 => (0xffff_ffff - r.below(40)) << 32 | r.below(1 << 32),
        8 => (r.next() << 32) | (0xffff_ffff - r.below(40)),
        9 => (0xffff_ffff - r.below(40)) << 32 | (0xffff_ffff - r.below(40)),
        10 => 0x7fff_ffff_ffff_ffff - r.below(2),
        11 => 0x8000_0000_8000_0000,
        12 => 0x7fff_ffff_7fff_ffff,
        13 => 1 << r.below(64),
        14 => !(1 << r.below(64)),
        _ => r.next(),
    }
}

/// The key of a steered stream: some lanes of v0 or v1 start at extreme values.
pub fn steer_key(seed: u64) -> [u64; 4] {
    let mut r = Rng::new(mix(seed, 0x6b65_79));
    let mut k = [0; 4];
    let v1 = r.chance(1, 2);
    for i in 0..4 {
        k[i] = if v1 { (extreme(&mut r) ^ INIT1[i]).rotate_left(32) } else { extreme(&mut r) ^ INIT0[i] };
    }
    k
}

const STEER_PACKETS: usize = 20;

/// A model of the state is kept only to choose the next packet so that lanes of v0 or v1 reach
/// chosen values; nothing is ever compared with it.
fn steer_packets(seed: u64) -> [u8; 32 * STEER_PACKETS] {
    const ZIP: [usize; 16] = [3, 12, 2, 5, 14, 1, 15, 0, 11, 4, 10, 13, 9, 6, 8, 7];
    fn zip(v: &[u64; 4]) -> [u64; 4] {
        let mut o = [0u64; 4];
        for h in 0..2 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&v[2 * h].to_le_bytes());
            b[8..].copy_from_slice(&v[2 * h + 1].to_le_bytes());
            for (i, z) in ZIP.iter().enumerate() {
                o[2 * h + i / 8] |= (b[*z] as u64) << (i % 8 * 8);
            }
        }
        o
    }
    fn unzip(v: &[u64; 4]) -> [u64; 4] {
        let mut o = [0u64; 4];
        for h in 0..2 {
            for (i, z) in ZIP.iter().enumerate() {
                let b = v[2 * h + i / 8] >> (i % 8 * 8) & 0xff;
                o[2 * h + z / 8] |= b << (z % 8 * 8);
            }
        }
        o
    }
    let k = steer_key(seed);
    let mut r = Rng::new(mix(seed, 0x7374_6565));
    let (mut v0, mut v1, mut m0, mut m1) = ([0u64; 4], [0u64; 4], INIT0, INIT1);
    for i in 0..4 {
        v0[i] = INIT0[i] ^ k[i];
        v1[i] = INIT1[i] ^ k[i].rotate_left(32);
    }
    let mut out = [0u8; 32 * STEER_PACKETS];
    for chunk in out.chunks_exact_mut(32) {
        let mut t = [0u64; 4];
        match r.below(3) {
            0 => {
                // v0 after the update
                for i in 0..4 {
                    t[i] = extreme(&mut r).wrapping_sub(v0[i]).wrapping_sub(m1[i]);
                }
                t = unzip(&t);
            }
            1 => {
                // v1 at the first multiplication
                for x in t.iter_mut() {
                    *x = extreme(&mut r);
                }
            }
            _ => {
                // the packet itself
                for i in 0..4 {
                    t[i] = extreme(&mut r).wrapping_add(v1[i]).wrapping_add(m0[i]);
                }
            }
        }
        for i in 0..4 {
            let p = t[i].wrapping_sub(v1[i]).wrapping_sub(m0[i]);
            chunk[8 * i..8 * i + 8].copy_from_slice(&p.to_le_bytes());
            v1[i] = t[i];
            m0[i] ^= (v1[i] & 0xffff_ffff).wrapping_mul(v0[i] >> 32);
            v0[i] = v0[i].wrapping_add(m1[i]);
            m1[i] ^= (v0[i] & 0xffff_ffff).wrapping_mul(v1[i] >> 32);
        }
        let z = zip(&v1);
        for i in 0..4 {
            v0[i] = v0[i].wrapping_add(z[i]);
        }
        let z = zip(&v0);
        for i in 0..4 {
            v1[i] = v1[i].wrapping_add(z[i]);
        }
    }
    out
}

pub fn bytes(kind: u8, seed: u64, off: u64, len: u64) -> Vec<u8> {
    let mut v = vec![0u8; len as usize];
    fill(kind, seed, off, &mut v);
    v
}

pub const INIT0: [u64; 4] = [
    0xdbe6_d5d5_fe4c_ce2f,
    0xa409_3822_299f_31d0,
    0x1319_8a2e_0370_7344,
    0x243f_6a88_85a3_08d3,
];
pub const INIT1: [u64; 4] = [
    0x3bd3_9e10_cb0e_f593,
    0xc0ac_f169_b5f1_8a8c,
    0xbe54_66cf_34e9_0c6c,
    0x4528_21e6_38d0_1377,
];

pub fn gen_key(r: &mut Rng) -> [u64; 4] {
    match r.below(14) {
        0 => [0; 4],
        1 => [u64::MAX; 4],
        2 => INIT0,
        3 => INIT1.map(|x| x.rotate_left(32)),
        4 => [1, 2, 3, 4],
        5 => {
            let mut k = [0; 4];
            k[r.below(4) as usize] = 1 << r.below(64);
            k
        }
        6 => {
            let a = r.next();
            [a; 4]
        }
        7 | 8 => steer_key(r.next()),
        _ => [r.next(), r.next(), r.next(), r.next()],
    }
}

/// interesting buffer lengths
pub fn gen_len(r: &mut Rng) -> u64 {
    match r.below(20) {
        0 => 0,
        1 => 1,
        2..=5 => r.range(1, 31),
        6 => 32,
        7 => *r.pick(&[31, 33, 47, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129]),
        8..=10 => r.range(1, 100),
        11 => 32 * r.range(1, 16),
        12 => 32 * r.range(1, 16) + 31,
        13 => 32 * r.range(1, 16) + 1,
        14..=16 => r.range(100, 600),
        17 => r.range(600, 5000),
        18 if r.chance(1, 8) => (1u64 << r.range(12, 17)) + r.below(68) - 34,
        18 => *r.pick(&[255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]),
        _ => r.range(1, 300),
    }
}
