//! Executes the steps of a trace against the real library and checks the property's oracle.
//!
//! Oracles are relative to the property being decided: streaming invariance compares a type with
//! itself, checkpoint transparency compares with the uninterrupted stream of the originating type,
//! observer neutrality compares with the same calls minus the observers, and so on; so that a
//! defect of one property is not reported under another that still holds.

use crate::ctl::{self, count, cover, ctl, lib, obs, K_BYTES, K_CHECKS, K_SKIPPED, K_STEPS};
use crate::mem::{paint_stack, Block, Place, Window};
use crate::model;
use crate::on_kind;
use crate::plan::{self, Op, Plan, Step};
use crate::rng::{mix, Rng};
use crate::types::{cpu, kind_of, Kind, Make, SLOTS};
use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key, PortableHash};
use std::alloc::Layout;
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Write as _};
use std::hash::{BuildHasher, Hash, Hasher};

#[cfg(feature = "hwstd")]
pub trait H: HighwayHash + Hasher + Clone + Debug + Default + Make + std::io::Write {}
#[cfg(feature = "hwstd")]
impl<T: HighwayHash + Hasher + Clone + Debug + Default + Make + std::io::Write> H for T {}
#[cfg(not(feature = "hwstd"))]
pub trait H: HighwayHash + Hasher + Clone + Debug + Default + Make {}
#[cfg(not(feature = "hwstd"))]
impl<T: HighwayHash + Hasher + Clone + Debug + Default + Make> H for T {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    C03,
    C04,
    C05,
    C06,
    C08,
    C09,
    C10,
    C11,
    C12,
    C13,
    C14,
    C15,
    C17,
    C18,
    C02,
    C07,
    C01,
}

impl Prop {
    pub fn parse(s: &str) -> Option<Prop> {
        Some(match s {
            "C03" => Prop::C03,
            "C04" => Prop::C04,
            "C05" => Prop::C05,
            "C06" => Prop::C06,
            "C08" => Prop::C08,
            "C09" => Prop::C09,
            "C10" => Prop::C10,
            "C11" => Prop::C11,
            "C12" => Prop::C12,
            "C13" => Prop::C13,
            "C14" => Prop::C14,
            "C15" => Prop::C15,
            "C17" => Prop::C17,
            "C18" => Prop::C18,
            "C02" => Prop::C02,
            "C07" => Prop::C07,
            "C01" => Prop::C01,
            _ => return None,
        })
    }
    pub fn name(self) -> &'static str {
        match self {
            Prop::C03 => "C03",
            Prop::C04 => "C04",
            Prop::C05 => "C05",
            Prop::C06 => "C06",
            Prop::C08 => "C08",
            Prop::C09 => "C09",
            Prop::C10 => "C10",
            Prop::C11 => "C11",
            Prop::C12 => "C12",
            Prop::C13 => "C13",
            Prop::C14 => "C14",
            Prop::C15 => "C15",
            Prop::C17 => "C17",
            Prop::C18 => "C18",
            Prop::C02 => "C02",
            Prop::C07 => "C07",
            Prop::C01 => "C01",
        }
    }
}

pub const VIA_APPEND: u8 = 0;
pub const VIA_HASHER: u8 = 1;
pub const VIA_WRITE: u8 = 2;
pub const VIA_WRITE_ALL: u8 = 3;
pub const VIA_VECTORED: u8 = 4;
pub const VIA_COPY: u8 = 5;
pub const VIA_INTS: u8 = 6;
pub const VIA_DYN: u8 = 7;
pub const VIA_SLICE: u8 = 8;
pub const VIA_BUFW: u8 = 9;
pub const VIAS: u64 = 10;
/// the last bytes of a stream, given to the consuming helpers `hash64`, `hash128` and `hash256`
pub const VIA_ONESHOT: u8 = 200;

/// What observation a record in the log is.
pub const O_CKPT: u16 = 1;
pub const O_FINISH: u16 = 2;
pub const O_FINAL: u16 = 3;
pub const O_DEBUG: u16 = 4;
pub const O_WRITE: u16 = 5;
pub const O_HASHONE: u16 = 6;
pub const O_MAP: u16 = 7;
pub const O_ONESHOT: u16 = 8;
pub const O_CHURN: u16 = 9;
pub const O_SELECT: u16 = 10;
pub const O_SHARE: u16 = 11;

pub struct Viol {
    pub oracle: &'static str,
    pub msg: String,
}
type R<T> = Result<T, Viol>;

fn viol<T>(oracle: &'static str, msg: String) -> R<T> {
    Err(Viol { oracle, msg })
}

#[derive(Clone, Copy)]
struct Call {
    via: u8,
    arg: u64,
    start: usize,
    len: usize,
}

#[derive(Clone, Copy)]
enum Root {
    Fresh { ctor: u8, key: [u64; 4] },
    Raw { ck: [u8; 164] },
}

/// The executable reference model of one hasher: how it came to be and every byte it was given.
#[derive(Clone)]
struct Model {
    /// the uninterrupted origin (before any checkpoint/restore hop)
    root: Root,
    root_kind: Kind,
    calls: Vec<Call>,
    concat: Vec<u8>,
    /// the last restore, if any, and the calls since
    base: Root,
    base_calls: usize,
    hops: u32,
    observed: u32,
    /// consumed bytes are exactly those of `concat` from a fresh hasher with this key
    empties: u32,
}

#[derive(Clone)]
struct Ck {
    bytes: [u8; 164],
    model: Option<Model>,
}

struct Live {
    kind: Kind,
    /// the type it was asked to be (which machine has which is another matter)
    slot: u8,
    blk: Block,
    model: Model,
    /// C11: the same hasher on every other backend, driven in lockstep
    group: Vec<Live>,
}

impl Live {
    #[allow(clippy::mut_from_ref)]
    unsafe fn get<T>(&self) -> &mut T {
        &mut *(self.blk.ptr as *mut T)
    }
}

pub struct Shared<'a> {
    /// builders handed to every session of a run
    pub builders: &'a BTreeMap<u32, (HighwayBuildHasher, [u64; 4])>,
}

pub struct Exec<'a> {
    prop: Prop,
    place: Place,
    objs: BTreeMap<u32, Live>,
    cks: BTreeMap<u32, Ck>,
    own_builders: BTreeMap<u32, (HighwayBuildHasher, [u64; 4])>,
    shared: Option<Shared<'a>>,
    /// C14: logical state -> checkpoint bytes
    registry: BTreeMap<u64, ([u8; 164], String)>,
    win: Window,
    step: usize,
    nblk: u64,
    leak_budget: u32,
}

#[inline(never)]
fn fin<T: H>(h: T, w: u8) -> [u64; 4] {
    match w % 3 {
        0 => [lib("finalize64", || h.finalize64()), 0, 0, 0],
        1 => {
            let r = lib("finalize128", || h.finalize128());
            [r[0], r[1], 0, 0]
        }
        _ => lib("finalize256", || h.finalize256()),
    }
}

fn wname(w: u8) -> &'static str {
    ["hash64", "hash128", "hash256"][w as usize % 3]
}

fn ck_of<T: H>(h: &T) -> [u8; 164] {
    lib("checkpoint", || h.checkpoint())
}

fn words(v: &[u64; 4]) -> [u8; 32] {
    let mut b = [0u8; 32];
    for (i, x) in v.iter().enumerate() {
        b[8 * i..8 * i + 8].copy_from_slice(&x.to_le_bytes());
    }
    b
}

fn make<T: H>(root: &Root) -> Option<T> {
    match root {
        Root::Fresh { ctor: 1, .. } => Some(lib("default", T::default)),
        Root::Fresh { ctor, key } => lib("new", || T::make(*key, *ctor == 2)),
        Root::Raw { ck } => lib("from_checkpoint", || T::load(*ck, false)),
    }
}

/// A bounded formatter sink that fails after `left` bytes.
pub struct Sink {
    pub buf: Vec<u8>,
    pub cap: usize,
    pub n: usize,
    pub left: usize,
    /// a sink that is itself using hashers while it is being written to
    pub reenter: Option<HighwayHasher>,
}
impl Sink {
    pub fn new(cap: usize, left: usize) -> Sink {
        Sink { buf: vec![0; cap], cap, n: 0, left, reenter: None }
    }
    fn text(&self) -> &[u8] {
        &self.buf[..self.n.min(self.cap)]
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        // (under the interpreter, once is enough)
        if let Some(h) = self.reenter.as_mut().filter(|_| !cfg!(miri) || self.n == 0) {
            HighwayHash::append(h, s.as_bytes());
            let _ = Hasher::finish(h);
            let mut p = PortableHash::new(Key([self.n as u64; 4]));
            HighwayHash::append(&mut p, s.as_bytes());
            let _ = (p.checkpoint(), p.finalize128());
        }
        for &b in s.as_bytes() {
            if self.n < self.cap {
                self.buf[self.n] = b;
            }
            self.n += 1;
        }
        Ok(())
    }
}

fn debug_text<T: Debug>(h: &T) -> Vec<u8> {
    let mut s = Sink::new(8192, usize::MAX);
    let _ = lib("debug", || write!(s, "{:?}", h));
    s.text().to_vec()
}

/// One observation of a hasher that several threads are looking at.
#[derive(Clone, Copy, Debug)]
struct Look {
    what: u8,
    w: u8,
    len: usize,
}

fn look<T: H>(h: &T, script: &[Look]) -> u64 {
    let mut acc = 0;
    for l in script {
        acc = match l.what {
            0 => mix(acc, lib("finish", || Hasher::finish(h))),
            1 => ctl::hash_bytes(acc, &ck_of(h)),
            2 => {
                let mut c = lib("clone", || h.clone());
                lib("append", || HighwayHash::append(&mut c, &[0x5a; 70][..l.len]));
                ctl::hash_bytes(acc, &words(&fin::<T>(c, l.w)))
            }
            _ => ctl::hash_bytes(acc, &debug_text(h)),
        };
    }
    acc
}

struct SyncRef<T>(*const T);
unsafe impl<T> Sync for SyncRef<T> {}
impl<T> SyncRef<T> {
    fn get(&self) -> *const T {
        self.0
    }
}

struct IsSync<T>(core::marker::PhantomData<T>);
impl<T: Sync> IsSync<T> {
    const V: bool = true;
}
#[allow(dead_code)] // (while every hasher may be shared)
trait NotSync {
    const V: bool = false;
}
impl<T> NotSync for IsSync<T> {}

/// `f` of every script, each on a thread of its own: interleaved at machine instructions as
/// `sched` says where there is the means, by the interpreter's seeded scheduler under Miri, one
/// after the other elsewhere
#[allow(unused_variables)]
fn at_once(scripts: &[Vec<Look>], sched: &[(u16, u64)], f: &(dyn Fn(&[Look]) -> u64 + Sync)) -> Vec<u64> {
    #[cfg(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch")))]
    {
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        let out: Vec<AtomicU64> = scripts.iter().map(|_| AtomicU64::new(0)).collect();
        let sess = ctl::SESS.with(|s| s.get());
        let stats = crate::tf::run(scripts.len(), sched, 2_000_000, &|i| {
            ctl::SESS.with(|s| s.set(sess));
            out[i].store(f(&scripts[i]), SeqCst);
        });
        let c = ctl();
        c.instrs = stats.instrs;
        c.switches = stats.midop as u32;
        c.sig = stats.sig;
        out.iter().map(|x| x.load(SeqCst)).collect()
    }
    #[cfg(miri)]
    {
        std::thread::scope(|sc| {
            let hs: Vec<_> = scripts.iter().map(|s| sc.spawn(move || ctl::with_local(|| f(s)).0)).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
        })
    }
    #[cfg(not(any(miri, all(unix, any(target_arch = "x86_64", feature = "watch")))))]
    {
        scripts.iter().map(|s| f(s)).collect()
    }
}

/// Reader over `data` that is short, interrupted, and fails part-way once.
#[cfg(feature = "hwstd")]
struct FaultyRead<'a> {
    data: &'a [u8],
    pos: usize,
    r: Rng,
    fail_at: usize,
}

#[cfg(feature = "hwstd")]
impl std::io::Read for FaultyRead<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.r.chance(1, 5) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.pos >= self.fail_at {
            self.fail_at = usize::MAX;
            return Err(std::io::ErrorKind::ConnectionReset.into());
        }
        let left = self.data.len() - self.pos;
        let want = match self.r.below(4) {
            0 => 1,
            1 => self.r.range(1, 40) as usize,
            2 => self.r.range(1, 700) as usize,
            _ => out.len(),
        };
        let n = left.min(want).min(out.len());
        out[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Supply `data` to the hasher through one of the public routes.  `strict` asks the io adapters to
/// behave as C12 demands; otherwise they only have to follow the io contract.
fn feed<T: H>(h: &mut T, data: &[u8], via: u8, arg: u64, strict: bool) -> R<()> {
    match via {
        VIA_HASHER => lib("Hasher::write", || Hasher::write(h, data)),
        VIA_DYN => {
            let d: &mut dyn Hasher = h;
            lib("dyn Hasher::write", || d.write(data))
        }
        VIA_SLICE => lib("hash_slice", || u8::hash_slice(data, h)),
        VIA_INTS => {
            let mut r = Rng::new(arg);
            let mut d = data;
            while !d.is_empty() {
                let n = 1usize << r.below(5);
                if d.len() < n {
                    lib("write_u8", || h.write_u8(d[0]));
                    d = &d[1..];
                    continue;
                }
                let (a, b) = d.split_at(n);
                let signed = r.chance(1, 2);
                macro_rules! w {
                    ($u:ty, $wu:ident, $i:ty, $wi:ident) => {
                        if signed {
                            let v = <$i>::from_ne_bytes(a.try_into().unwrap());
                            lib(stringify!($wi), || h.$wi(v))
                        } else {
                            let v = <$u>::from_ne_bytes(a.try_into().unwrap());
                            lib(stringify!($wu), || h.$wu(v))
                        }
                    };
                }
                match n {
                    1 => w!(u8, write_u8, i8, write_i8),
                    2 => w!(u16, write_u16, i16, write_i16),
                    4 if cfg!(target_pointer_width = "32") && r.chance(1, 2) => {
                        let v = u32::from_ne_bytes(a.try_into().unwrap());
                        if signed {
                            lib("write_isize", || h.write_isize(v as isize))
                        } else {
                            lib("write_usize", || h.write_usize(v as usize))
                        }
                    }
                    4 => w!(u32, write_u32, i32, write_i32),
                    8 if cfg!(target_pointer_width = "64") && r.chance(1, 2) => {
                        let v = u64::from_ne_bytes(a.try_into().unwrap());
                        if signed {
                            lib("write_isize", || h.write_isize(v as isize))
                        } else {
                            lib("write_usize", || h.write_usize(v as usize))
                        }
                    }
                    8 => w!(u64, write_u64, i64, write_i64),
                    _ => w!(u128, write_u128, i128, write_i128),
                }
                d = b;
            }
        }
        #[cfg(feature = "hwstd")]
        VIA_WRITE | VIA_WRITE_ALL | VIA_VECTORED | VIA_COPY | VIA_BUFW => {
            return feed_io(h, data, via, arg, strict)
        }
        _ => lib("append", || HighwayHash::append(h, data)),
    }
    let _ = strict;
    Ok(())
}

#[cfg(feature = "hwstd")]
fn feed_io<T: H>(h: &mut T, data: &[u8], via: u8, arg: u64, strict: bool) -> R<()> {
    use std::io::{self, Write};
    let bad = |r: &dyn Debug, n: usize| -> R<()> {
        viol("io-write", format!("io::Write on {} bytes returned {:?}", n, r))
    };
    match via {
        VIA_WRITE => {
            let mut d = data;
            loop {
                let r = lib("io::Write::write", || Write::write(h, d));
                match r {
                    Ok(n) if n == d.len() => return Ok(()),
                    Ok(n) if !strict && n > 0 && n < d.len() => d = &d[n..],
                    Err(e) if !strict && e.kind() == io::ErrorKind::Interrupted => {}
                    r => return bad(&r, d.len()),
                }
            }
        }
        VIA_WRITE_ALL => {
            let text = if arg % 4 == 2 { std::str::from_utf8(data).ok() } else { None };
            let r = match (arg % 4, text) {
                (0, _) => {
                    let d: &mut dyn Write = h;
                    lib("dyn io::Write::write_all", || d.write_all(data))
                }
                (1, _) => lib("io::Write::by_ref", || h.by_ref().write_all(data)),
                (_, Some(t)) => {
                    let mut m = (arg >> 8) as usize % (t.len() + 1);
                    while !t.is_char_boundary(m) {
                        m -= 1;
                    }
                    lib("io::Write::write_fmt", || write!(h, "{}{}", &t[..m], &t[m..]))
                }
                _ => lib("io::Write::write_all", || h.write_all(data)),
            };
            if r.is_err() {
                return bad(&r, data.len());
            }
        }
        VIA_VECTORED => {
            let mut r = Rng::new(arg);
            let mut d = data;
            loop {
                let cut = |r: &mut Rng, d: &[u8]| r.below(d.len() as u64 + 1) as usize;
                let (a, rest) = d.split_at(cut(&mut r, d));
                let (b, c) = rest.split_at(cut(&mut r, rest));
                let bufs = [
                    io::IoSlice::new(a),
                    io::IoSlice::new(b),
                    io::IoSlice::new(&[]),
                    io::IoSlice::new(c),
                ];
                let res = lib("io::Write::write_vectored", || h.write_vectored(&bufs));
                match res {
                    Ok(n) if n <= d.len() && (n > 0 || d.is_empty()) => {
                        d = &d[n..];
                        if d.is_empty() {
                            return Ok(());
                        }
                    }
                    res => return bad(&res, d.len()),
                }
            }
        }
        VIA_COPY => {
            let mut r = Rng::new(arg);
            let fail_at = if r.chance(1, 2) {
                r.below(data.len() as u64 + 1) as usize
            } else {
                usize::MAX
            };
            let mut rd = FaultyRead { data, pos: 0, r, fail_at };
            // an error from the reader stops the copy; what was read until then must have been
            // consumed, and the copy is resumed where the reader stands
            for _ in 0..4 {
                let res = lib("io::copy", || io::copy(&mut rd, h));
                match res {
                    Ok(_) => break,
                    Err(e) if e.kind() == io::ErrorKind::ConnectionReset => continue,
                    Err(e) => return bad(&Err::<u64, _>(e), data.len()),
                }
            }
            if rd.pos != data.len() {
                return bad(&rd.pos, data.len());
            }
        }
        _ => {
            let mut r = Rng::new(arg);
            let mut bw = io::BufWriter::with_capacity(r.range(1, 100) as usize, &mut *h);
            let mut d = data;
            while !d.is_empty() {
                let n = (r.range(1, 120) as usize).min(d.len());
                let res = lib("BufWriter::write_all", || bw.write_all(&d[..n]));
                if res.is_err() {
                    return bad(&res, n);
                }
                d = &d[n..];
                if r.chance(1, 6) {
                    let res = lib("BufWriter::flush", || bw.flush());
                    if res.is_err() {
                        return bad(&res, n);
                    }
                }
            }
            let res = lib("BufWriter::flush", || bw.flush());
            if res.is_err() {
                return bad(&res, data.len());
            }
        }
    }
    Ok(())
}

/// Collects exactly the bytes a value feeds to a hasher.
#[derive(Default)]
struct Recorder(Vec<u8>);
impl Hasher for Recorder {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}

#[derive(Hash, Clone, PartialEq, Eq, Debug)]
enum Val {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I64(i64),
    Us(usize),
    Str(String),
    Bytes(Vec<u8>),
    Tup(u8, u64, String),
    Opt(Option<Box<Val>>),
    List(Vec<String>),
    Unit,
    Bool(bool),
    Ch(char),
    Shorts(Vec<u16>),
    Words([u32; 5]),
    Longs(Vec<i64>),
    Wide(Box<[u128]>),
    Nest(Vec<Vec<u8>>),
    Ip(std::net::IpAddr),
    Span(core::time::Duration),
    Res(Result<u8, String>),
}

fn gen_val(r: &mut Rng, depth: u32) -> Val {
    let s = |r: &mut Rng| {
        let n = plan::gen_len(r).min(300);
        String::from_utf8(plan::bytes(8, r.next(), 0, n)).unwrap()
    };
    match r.below(23) {
        0 => Val::U8(r.next() as u8),
        1 => Val::U16(r.next() as u16),
        2 => Val::U32(r.next() as u32),
        3 => Val::U64(r.next()),
        4 => Val::U128((r.next() as u128) << 64 | r.next() as u128),
        5 => Val::I64(r.next() as i64),
        6 => Val::Us(r.next() as usize),
        7 => Val::Str(s(r)),
        8 => {
            let n = plan::gen_len(r).min(700);
            Val::Bytes(plan::bytes(0, r.next(), 0, n))
        }
        9 => Val::Tup(r.next() as u8, r.next(), s(r)),
        10 => Val::Opt(if depth > 2 || r.chance(1, 3) {
            None
        } else {
            Some(Box::new(gen_val(r, depth + 1)))
        }),
        11 => {
            let n = r.below(6);
            Val::List((0..n).map(|_| s(r)).collect())
        }
        12 => Val::Unit,
        13 => Val::Bool(r.chance(1, 2)),
        14 => Val::Shorts((0..r.below(40)).map(|_| r.next() as u16).collect()),
        15 => Val::Words([r.next() as u32, 0, 1, u32::MAX, r.next() as u32]),
        16 => Val::Longs((0..r.below(20)).map(|_| r.next() as i64).collect()),
        17 => Val::Wide((0..r.below(9)).map(|_| (r.next() as u128) << 64 | r.next() as u128).collect()),
        18 => Val::Nest((0..r.below(5)).map(|_| {
            let n = r.below(70);
            plan::bytes(0, r.next(), 0, n)
        }).collect()),
        19 => Val::Ip(if r.chance(1, 2) {
            std::net::IpAddr::V4((r.next() as u32).into())
        } else {
            std::net::IpAddr::V6(((r.next() as u128) << 64 | r.next() as u128).into())
        }),
        20 => Val::Span(core::time::Duration::new(r.next(), r.below(1_000_000_000) as u32)),
        21 => Val::Res(if r.chance(1, 2) { Ok(r.next() as u8) } else { Err(s(r)) }),
        _ => Val::Ch((b'a' + r.below(26) as u8) as char),
    }
}

impl<'a> Exec<'a> {
    pub fn new(prop: Prop, salt: u64, shared: Option<Shared<'a>>) -> Exec<'a> {
        Exec {
            prop,
            place: Place { hard: prop == Prop::C09, salt },
            objs: BTreeMap::new(),
            cks: BTreeMap::new(),
            own_builders: BTreeMap::new(),
            shared,
            registry: BTreeMap::new(),
            win: Window::new(),
            step: 0,
            nblk: 0,
            leak_budget: 3,
        }
    }

    fn kind(&self, slot: u8) -> Kind {
        match self.prop {
            // these are about the portable hasher
            Prop::C01 | Prop::C17 => Kind::Portable,
            _ => kind_of(slot),
        }
    }

    fn builder(&self, p: u32) -> Option<&(HighwayBuildHasher, [u64; 4])> {
        if let Some(s) = &self.shared {
            return s.builders.get(&p);
        }
        self.own_builders.get(&p)
    }

    fn place_obj<T: H>(&mut self, h: T, kind: Kind, model: Model) -> Live {
        self.nblk += 1;
        let blk = Block::new(Layout::new::<T>(), self.place, self.nblk);
        unsafe { core::ptr::write(blk.ptr as *mut T, h) };
        Live { kind, slot: 255, blk, model, group: Vec::new() }
    }

    fn fresh_model(kind: Kind, root: Root) -> Model {
        Model {
            root,
            root_kind: kind,
            calls: Vec::new(),
            concat: Vec::new(),
            base: root,
            base_calls: 0,
            hops: 0,
            observed: 0,
            empties: 0,
        }
    }

    fn paint(&self) {
        if self.place.hard {
            paint_stack(mix(self.place.salt, self.step as u64));
        }
    }

    fn check(&self) {
        count(K_CHECKS, 1);
    }

    // ---- twins -------------------------------------------------------------------------------

    /// replay calls[from..] of the model on top of `root`, with the same chunks through `append`
    /// (`same_via`: through the same routes)
    fn twin<T: H>(&self, root: &Root, m: &Model, from: usize, same_via: bool) -> Option<T> {
        self.twin_to(root, m, from, m.calls.len(), same_via)
    }

    fn twin_to<T: H>(&self, root: &Root, m: &Model, from: usize, to: usize, same_via: bool) -> Option<T> {
        let mut h: T = make(root)?;
        for c in &m.calls[from..to] {
            let d = &m.concat[c.start..c.start + c.len];
            let via = if same_via { c.via } else { VIA_APPEND };
            if feed(&mut h, d, via, c.arg, false).is_err() {
                lib("append", || HighwayHash::append(&mut h, d));
            }
        }
        Some(h)
    }

    fn twin_fin(&self, kind: Kind, root: &Root, m: &Model, from: usize, via: bool, w: u8) -> Option<[u64; 4]> {
        // another type's twin of a default-constructed dispatcher is built with the default key:
        // what that type's own Default gives is not what is being asked (see DESIGN.md, C07)
        let keyed;
        let root = match root {
            Root::Fresh { ctor: 1, .. } if kind != m.root_kind => {
                keyed = Root::Fresh { ctor: 0, key: [0; 4] };
                &keyed
            }
            r => r,
        };
        // a history that ended in a consuming one-shot helper is replayed so: whether that is the
        // same as append and finalize is for C05 to say
        match m.calls[from..].last() {
            Some(c) if c.via == VIA_ONESHOT => {
                let d = &m.concat[c.start..c.start + c.len];
                on_kind!(kind, T => {
                    Some(oneshot::<T>(self.twin_to::<T>(root, m, from, m.calls.len() - 1, via)?, d, w))
                })
            }
            _ => on_kind!(kind, T => Some(fin::<T>(self.twin::<T>(root, m, from, via)?, w))),
        }
    }

    fn eq(&self, oracle: &'static str, a: &[u64; 4], b: &[u64; 4], m: &Model, ctx: String) -> R<()> {
        self.check();
        if a != b {
            return viol(
                oracle,
                format!(
                    "{}: got {:016x?} expected {:016x?} after {} bytes in {} calls, {} hops",
                    ctx,
                    a,
                    b,
                    m.concat.len(),
                    m.calls.len(),
                    m.hops
                ),
            );
        }
        Ok(())
    }

    // ---- the oracle on the final (or probed) value of one object -------------------------------

    /// `got`: the value the object itself produced at width w
    fn judge(&mut self, l: &Live, w: u8, got: &[u64; 4]) -> R<()> {
        let m = &l.model;
        let k = l.kind;
        match self.prop {
            Prop::C05 => {
                if let Root::Fresh { .. } = m.root {
                    let one = on_kind!(k, T => {
                        make::<T>(&m.root).map(|h| oneshot::<T>(h, &m.concat, w))
                    });
                    if let Some(one) = one {
                        self.eq("streaming", got, &one, m, format!("{} {} streamed vs one call", k.name(), wname(w)))?;
                    }
                    // and through the same routes for the other two widths
                    for w2 in 0..3u8 {
                        if w2 != w % 3 && (m.concat.len() < 3000) {
                            let a = self.twin_fin(k, &m.root, m, 0, true, w2);
                            let b = on_kind!(k, T => {
                                make::<T>(&m.root).map(|h| oneshot::<T>(h, &m.concat, w2))
                            });
                            if let (Some(a), Some(b)) = (a, b) {
                                self.eq("streaming", &a, &b, m, format!("{} {} streamed vs one call", k.name(), wname(w2)))?;
                            }
                        }
                    }
                }
            }
            Prop::C01 => {
                if let (Root::Fresh { ctor: 0 | 2, key }, 0) = (m.root, m.hops) {
                    self.eq("specification", got, &model::hash(key, &m.concat, w), m, format!(
                        "{} {} vs the specification, key {:x?}", k.name(), wname(w), key))?;
                    for w2 in 0..3u8 {
                        if w2 != w && m.concat.len() < 3000 {
                            if let Some(a) = self.twin_fin(k, &m.root, m, 0, true, w2) {
                                self.eq("specification", &a, &model::hash(key, &m.concat, w2), m, format!(
                                    "{} {} vs the specification, key {:x?}", k.name(), wname(w2), key))?;
                            }
                        }
                    }
                }
            }
            Prop::C06 => {
                if m.hops > 0 {
                    if let Some(e) = self.twin_fin(m.root_kind, &m.root, m, 0, true, w) {
                        self.eq("transparent", got, &e, m, format!(
                            "{} {} after restore vs uninterrupted {}", k.name(), wname(w), m.root_kind.name()))?;
                    }
                }
            }
            Prop::C02 | Prop::C03 | Prop::C04 | Prop::C10 | Prop::C17 => {
                if let Some(e) = self.twin_fin(Kind::Portable, &m.root, m, 0, false, w) {
                    let oracle = match self.prop {
                        Prop::C10 => "same-results-as-portable",
                        _ => "equals-portable",
                    };
                    self.eq(oracle, got, &e, m, format!("{} {} vs portable", k.name(), wname(w)))?;
                }
            }
            Prop::C12 => {
                if let Some(e) = self.twin_fin(k, &m.base, m, m.base_calls, false, w) {
                    self.eq("adapter", got, &e, m, format!("{} {} vs append of the same bytes", k.name(), wname(w)))?;
                }
            }
            Prop::C13 => {
                if let Some(e) = self.twin_fin(k, &m.base, m, m.base_calls, true, w) {
                    self.eq("observer", got, &e, m, format!(
                        "{} {} vs the same calls without {} observers", k.name(), wname(w), m.observed))?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// C11: laws of a restored hasher, checked against itself
    fn laws(&mut self, l: &Live, w: u8, got: Option<&[u64; 4]>, cut: u64) -> R<()> {
        let m = &l.model;
        let k = l.kind;
        let Root::Raw { ck } = m.base else { return Ok(()) };
        let tail: &[u8] = m
            .calls
            .get(m.base_calls)
            .map(|c| &m.concat[c.start..])
            .unwrap_or(&[]);
        on_kind!(k, T => {
            let one = {
                let Some(mut h) = make::<T>(&m.base) else { return Ok(()) };
                lib("append", || HighwayHash::append(&mut h, tail));
                fin::<T>(h, w)
            };
            let got = match got {
                Some(g) => *g,
                None => match self.twin_fin(k, &m.base, m, m.base_calls, true, w) {
                    Some(v) => v,
                    None => return Ok(()),
                },
            };
            self.eq("restored-streaming", &got, &one, m, format!(
                "{} {} of a restored hasher: streamed vs one append", k.name(), wname(w)))?;
            // own checkpoint restores transparently at a cut
            let ncalls = m.calls.len() - m.base_calls;
            let at = m.base_calls + (cut % (ncalls as u64 + 1)) as usize;
            let mut h: T = match make(&m.base) { Some(h) => h, None => return Ok(()) };
            for c in &m.calls[m.base_calls..at] {
                lib("append", || HighwayHash::append(&mut h, &m.concat[c.start..c.start + c.len]));
            }
            let c2 = ck_of(&h);
            let to = kind_of((cut >> 8) as u8);
            let r2 = on_kind!(to, U => {
                match make::<U>(&Root::Raw { ck: c2 }) {
                    Some(mut g) => {
                        for c in &m.calls[at..] {
                            lib("append", || HighwayHash::append(&mut g, &m.concat[c.start..c.start + c.len]));
                        }
                        Some(fin::<U>(g, w))
                    }
                    None => None,
                }
            });
            if let Some(r2) = r2 {
                self.eq("restored-checkpoint", &r2, &got, m, format!(
                    "{} {} of a restored hasher: checkpointed onto {} vs not", k.name(), wname(w), to.name()))?;
            }
            // an empty append changes nothing
            let (mut a, b) = match (make::<T>(&m.base), make::<T>(&m.base)) {
                (Some(a), Some(b)) => (a, b),
                _ => return Ok(()),
            };
            lib("append", || HighwayHash::append(&mut a, &[]));
            let (ca, cb) = (ck_of(&a), ck_of(&b));
            self.check();
            if ca != cb {
                return viol("restored-empty-append", format!(
                    "{}: an empty append changed the checkpoint of a hasher restored with length field {}",
                    k.name(), u32::from_le_bytes([ck[160], ck[161], ck[162], ck[163]])));
            }
            let (fa, fb) = (fin::<T>(a, w), fin::<T>(b, w));
            self.eq("restored-empty-append", &fa, &fb, m, format!(
                "{} {}: empty append after restore vs none", k.name(), wname(w)))?;
        });
        Ok(())
    }

    fn all_members<'b>(l: &'b Live) -> impl Iterator<Item = &'b Live> {
        std::iter::once(l).chain(l.group.iter())
    }

    /// C14: two hashers that consumed the same stream produce the same checkpoint
    fn canonical(&mut self, l: &Live, ck: &[u8; 164]) -> R<()> {
        let m = &l.model;
        let Root::Fresh { ctor, key } = m.root else { return Ok(()) };
        if ctor == 1 && m.root_kind != Kind::Dispatch {
            return Ok(());
        }
        let key = if ctor == 1 { [0; 4] } else { key };
        let id = {
            let mut h = ctl::hash_bytes(m.concat.len() as u64, &m.concat);
            for k in key {
                h = mix(h, k);
            }
            h
        };
        let desc = format!("{} in {} calls, {} hops", l.kind.name(), m.calls.len(), m.hops);
        let diff = |a: &[u8; 164], b: &[u8; 164]| (0..164).filter(|&i| a[i] != b[i]).collect::<Vec<_>>();
        self.check();
        match self.registry.get(&id) {
            Some((prev, d2)) => {
                if prev != ck {
                    return viol("canonical", format!(
                        "two hashers of the same {} bytes have different checkpoints (bytes {:?} differ): {} / {}",
                        m.concat.len(), diff(prev, ck), desc, d2));
                }
            }
            None => {
                self.registry.insert(id, (*ck, desc.clone()));
            }
        }
        // against the one-call history on every backend
        for s in 0..SLOTS {
            let k2 = kind_of(s);
            let c2 = on_kind!(k2, T => {
                make::<T>(&Root::Fresh { ctor: 0, key }).map(|mut h| {
                    lib("append", || HighwayHash::append(&mut h, &m.concat));
                    ck_of(&h)
                })
            });
            self.check();
            if let Some(c2) = c2 {
                if c2 != *ck {
                    return viol("canonical", format!(
                        "checkpoint of {} differs from that of {} given the same {} bytes in one call (bytes {:?})",
                        desc, k2.name(), m.concat.len(), diff(&c2, ck)));
                }
            }
            let c3 = on_kind!(k2, T => make::<T>(&Root::Raw { ck: *ck }).map(|h| ck_of(&h)));
            self.check();
            if let Some(c3) = c3 {
                if c3 != *ck {
                    return viol("idempotent", format!(
                        "restoring the checkpoint of {} on {} and checkpointing again changes bytes {:?}",
                        desc, k2.name(), diff(&c3, ck)));
                }
            }
        }
        // no absorbed input: the same history over independent random contents; a position of the
        // checkpoint that equals a position of the absorbed part of the stream in every one of
        // them holds that input byte (chance: 2^-96 per pair)
        if self.leak_budget > 0 && m.concat.len() >= 32 && m.concat.len() <= 3000 {
            self.leak_budget -= 1;
            const N: u64 = 12;
            let absorbed = m.concat.len() & !31;
            let mut cand: Vec<u16> = Vec::new(); // pairs (p, q) packed
            let qs: Vec<usize> = if absorbed <= 192 {
                (0..absorbed).collect()
            } else {
                (0..64).chain(absorbed - 128..absorbed).collect()
            };
            for v in 0..N {
                let data = plan::bytes(0, mix(id, v), 0, m.concat.len() as u64);
                let c = self.replay_ck(l, &data);
                let Some(c) = c else { return Ok(()) };
                if v == 0 {
                    for p in 0..164u16 {
                        for (qi, &q) in qs.iter().enumerate() {
                            if c[p as usize] == data[q] {
                                cand.push(p << 8 | qi as u16);
                            }
                        }
                    }
                } else {
                    cand.retain(|&x| c[(x >> 8) as usize] == data[qs[(x & 255) as usize]]);
                }
                if cand.is_empty() {
                    break;
                }
            }
            self.check();
            if !cand.is_empty() {
                let (p, q) = (cand[0] >> 8, qs[(cand[0] & 255) as usize]);
                return viol("absorbed-input-leak", format!(
                    "checkpoint byte {} of {} holds input byte {} of a stream of which {} bytes have been absorbed ({} such positions)",
                    p, desc, q, absorbed, cand.len()));
            }
        }
        Ok(())
    }

    /// the checkpoint after the same chunking over other contents
    fn replay_ck(&self, l: &Live, data: &[u8]) -> Option<[u8; 164]> {
        let m = &l.model;
        on_kind!(l.kind, T => {
            let mut h = make::<T>(&Root::Fresh { ctor: 0, key: [1, 2, 3, 4] })?;
            for c in &m.calls {
                let _ = feed(&mut h, &data[c.start..c.start + c.len], c.via, c.arg, false);
            }
            Some(ck_of(&h))
        })
    }

    // ---- C10 ---------------------------------------------------------------------------------

    /// which backend does this dispatcher hold?  None if its Debug form does not say.
    fn selection(text: &[u8]) -> Option<&'static str> {
        let t = String::from_utf8_lossy(text);
        let mut found = None;
        for n in ["PortableHash", "SseHash", "AvxHash", "NeonHash", "WasmHash"] {
            if t.contains(n) {
                if found.is_some() {
                    return None;
                }
                found = Some(n);
            }
        }
        found
    }

    fn permitted(sel: &str) -> bool {
        let c = cpu();
        let std = cfg!(feature = "hwstd");
        match sel {
            "PortableHash" => true,
            "SseHash" => {
                cfg!(all(target_arch = "x86_64", target_feature = "sse4.1")) || (std && c.sse41)
            }
            "AvxHash" => cfg!(all(target_arch = "x86_64", target_feature = "avx2")) || (std && c.avx2),
            "NeonHash" => cfg!(all(target_arch = "aarch64", target_feature = "neon")),
            "WasmHash" => cfg!(all(target_family = "wasm", target_feature = "simd128")),
            _ => false,
        }
    }

    fn check_selection(&self, l: &Live, how: &str) -> R<()> {
        if self.prop != Prop::C10 || l.kind != Kind::Dispatch {
            return Ok(());
        }
        let h = unsafe { l.get::<HighwayHasher>() };
        let text = debug_text(h);
        let base = debug_text(&lib("new", || HighwayHasher::new(Key([9, 8, 7, 6]))));
        let (Some(a), Some(b)) = (Self::selection(&text), Self::selection(&base)) else {
            ctl().inconclusive += 1;
            return Ok(());
        };
        self.check();
        obs(O_SELECT, false, a.as_bytes());
        cover(mix(0x5e1, mix(a.len() as u64 + a.as_bytes()[0] as u64, how.len() as u64)));
        if a != b {
            return viol("same-selection", format!("{} selects {} but new selects {}", how, a, b));
        }
        if !Self::permitted(a) {
            return viol("permitted", format!(
                "{} selects {}; compile-time sse4.1={} avx2={}, std={}, cpu={:?}",
                how, a,
                cfg!(target_feature = "sse4.1"), cfg!(target_feature = "avx2"),
                cfg!(feature = "hwstd"), cpu()));
        }
        Ok(())
    }

    #[cfg(target_arch = "x86_64")]
    fn check_ctors(&self, key: [u64; 4], ck: [u8; 164]) -> R<()> {
        use highway::{AvxHash, SseHash};
        let c = cpu();
        let sse = c.sse41 || (!cfg!(feature = "hwstd") && cfg!(target_feature = "sse4.1"));
        let avx = c.avx2 || (!cfg!(feature = "hwstd") && cfg!(target_feature = "avx2"));
        let t: [(&str, bool, bool); 4] = [
            ("SseHash::new", lib("SseHash::new", || SseHash::new(Key(key)).is_some()), sse),
            ("AvxHash::new", lib("AvxHash::new", || AvxHash::new(Key(key)).is_some()), avx),
            (
                "SseHash::from_checkpoint",
                lib("SseHash::from_checkpoint", || SseHash::from_checkpoint(ck).is_some()),
                sse,
            ),
            (
                "AvxHash::from_checkpoint",
                lib("AvxHash::from_checkpoint", || AvxHash::from_checkpoint(ck).is_some()),
                avx,
            ),
        ];
        for (n, some, ok) in t {
            self.check();
            cover(mix(0x5e2, n.len() as u64 * 2 + some as u64));
            if some && !ok {
                return viol("constructor", format!(
                    "{} returned a hasher although the feature is not detected (cpu={:?}, std={})",
                    n, c, cfg!(feature = "hwstd")));
            }
        }
        Ok(())
    }
    #[cfg(not(target_arch = "x86_64"))]
    fn check_ctors(&self, _key: [u64; 4], _ck: [u8; 164]) -> R<()> {
        Ok(())
    }

    // ---- steps -------------------------------------------------------------------------------

    pub fn run_step(&mut self, i: usize, st: &Step) -> R<()> {
        self.step = i;
        ctl().cur_step = i as u32;
        count(K_STEPS, 1);
        match self.do_step(st)? {
            true => {}
            false => count(K_SKIPPED, 1),
        }
        if self.prop == Prop::C18 && ctl().count[ctl::K_ALLOC_IN_LIB] > 0 {
            return viol("no-alloc", format!(
                "{} heap allocation(s) (last {} bytes) inside {}",
                ctl().count[ctl::K_ALLOC_IN_LIB], ctl().count[ctl::K_ALLOC_SIZE], ctl::what()));
        }
        Ok(())
    }

    fn new_obj(&mut self, o: u32, kind: Kind, root: Root) -> R<bool> {
        let model = Self::fresh_model(kind, root);
        self.paint();
        let live = on_kind!(kind, T => {
            match make::<T>(&root) {
                Some(h) => self.place_obj(h, kind, model),
                None => return Ok(false),
            }
        });
        self.objs.insert(o, live);
        Ok(true)
    }

    /// C07: a default-constructed hasher is accompanied, call by call, by one of its type that was
    /// constructed with the zero key, and by the default of every other type of the machine
    fn zero_key_group(&mut self, o: u32) -> R<()> {
        if self.prop != Prop::C07 {
            return Ok(());
        }
        let Some(mut l) = self.objs.remove(&o) else { return Ok(()) };
        let mut kinds = vec![l.kind];
        for s in 0..SLOTS {
            if !kinds.contains(&kind_of(s)) {
                kinds.push(kind_of(s));
            }
        }
        for (i, k) in kinds.into_iter().enumerate() {
            let root = Root::Fresh { ctor: (i > 0) as u8, key: [0; 4] };
            let g = on_kind!(k, T => make::<T>(&root).map(|h| self.place_obj(h, k, Self::fresh_model(k, root))));
            match g {
                Some(g) => l.group.push(g),
                None if i == 0 => break,
                None => (),
            }
        }
        let r = self.same_as_group(&l);
        self.objs.insert(o, l);
        r
    }

    /// C07: everything that can be seen of a default-constructed hasher is what can be seen of the
    /// zero-key one
    fn same_as_group(&self, l: &Live) -> R<()> {
        if self.prop != Prop::C07 {
            return Ok(());
        }
        let Some(g) = l.group.first() else { return Ok(()) };
        on_kind!(l.kind, T => {
            let (a, b) = unsafe { (l.get::<T>(), g.get::<T>()) };
            self.check();
            let (ca, cb) = (ck_of(a), ck_of(b));
            if ca != cb {
                return viol("default-is-zero-key", format!(
                    "checkpoints of {}::default() and of the one with the zero key differ after the same {} bytes",
                    l.kind.name(), l.model.concat.len()));
            }
            if debug_text(a) != debug_text(b) {
                return viol("default-is-zero-key", format!(
                    "the Debug form of {}::default() differs from that of the one with the zero key after the same {} bytes",
                    l.kind.name(), l.model.concat.len()));
            }
        });
        Ok(())
    }

    /// how the hashers of a group relate
    fn group_oracle(&self) -> (&'static str, &'static str) {
        match self.prop {
            Prop::C07 => ("default-is-zero-key", "constructed by default (or with the zero key)"),
            _ => ("restored-backend-independent", "restored from the same bytes"),
        }
    }

    fn do_step(&mut self, st: &Step) -> R<bool> {
        match st.op {
            Op::New => {
                let kind = self.kind(st.slot);
                let mut ctor = (st.arg % 3) as u8;
                // a type's Default is only comparable with itself (see DESIGN.md, C07)
                if ctor == 1
                    && kind != Kind::Dispatch
                    && !matches!(self.prop, Prop::C05 | Prop::C07 | Prop::C08 | Prop::C09 | Prop::C12 | Prop::C13 | Prop::C15 | Prop::C18)
                {
                    ctor = 0;
                }
                let key = if ctor == 1 { [0; 4] } else { st.key };
                if !self.new_obj(st.o, kind, Root::Fresh { ctor, key })? {
                    return Ok(false);
                }
                cover(mix(1, mix(kind as u64, ctor as u64)));
                if ctor == 1 {
                    self.zero_key_group(st.o)?;
                }
                self.objs.get_mut(&st.o).unwrap().slot = st.slot;
                let l = &self.objs[&st.o];
                self.check_selection(l, if ctor == 1 { "default" } else { "new" })?;
                if self.prop == Prop::C10 {
                    let ck = on_kind!(l.kind, T => ck_of(unsafe { l.get::<T>() }));
                    self.check_ctors(st.key, ck)?;
                }
                Ok(true)
            }
            Op::Build => {
                if self.shared.is_some() {
                    return Ok(true); // created up front for all sessions
                }
                let (b, k) = make_builder(st);
                self.own_builders.insert(st.p, (b, k));
                Ok(true)
            }
            Op::BNew => {
                let Some((b, key)) = self.builder(st.p) else { return Ok(false) };
                let key = *key;
                let h = lib("build_hasher", || b.build_hasher());
                let model = Self::fresh_model(Kind::Dispatch, Root::Fresh { ctor: 0, key });
                if self.prop == Prop::C12 {
                    // indistinguishable from the dispatcher constructed with the key
                    let n = lib("new", || HighwayHasher::new(Key(key)));
                    self.check();
                    if debug_text(&h) != debug_text(&n) || ck_of(&h) != ck_of(&n) {
                        return viol("builder", format!(
                            "a hasher from HighwayBuildHasher differs from HighwayHasher::new with the same key {:x?}", key));
                    }
                }
                let mut l = self.place_obj(h, Kind::Dispatch, model);
                l.slot = 3;
                self.check_selection(&l, "build_hasher")?;
                self.objs.insert(st.o, l);
                if key == [0; 4] {
                    self.zero_key_group(st.o)?;
                }
                cover(2);
                Ok(true)
            }
            Op::Append => self.append(st),
            Op::Drip => self.drip(st),
            Op::Share => self.share(st),
            Op::Giant => self.giant(st),
            Op::Ckpt => {
                let Some(l) = self.objs.get(&st.o) else { return Ok(false) };
                self.paint();
                let ck = on_kind!(l.kind, T => ck_of(unsafe { l.get::<T>() }));
                obs(O_CKPT, true, &ck);
                cover(mix(3, mix(l.kind as u64, (l.model.concat.len() % 32) as u64)));
                self.same_as_group(l)?;
                for g in &l.group {
                    let c2 = on_kind!(g.kind, T => ck_of(unsafe { g.get::<T>() }));
                    self.check();
                    if c2 != ck && self.prop == Prop::C11 {
                        return viol("restored-backend-independent", format!(
                            "checkpoints of hashers restored from the same bytes differ between {} and {} after {} bytes",
                            l.kind.name(), g.kind.name(), l.model.concat.len()));
                    }
                }
                let mut l = self.objs.remove(&st.o).unwrap();
                l.model.observed += 1;
                let r = self.after_ckpt(&l, &ck);
                let ckr = Ck { bytes: ck, model: Some(l.model.clone()) };
                self.objs.insert(st.o, l);
                self.cks.insert(st.p, ckr);
                r?;
                Ok(true)
            }
            Op::Corrupt => {
                let src = self.cks.get(&st.p).map(|c| c.bytes).unwrap_or([0; 164]);
                let alt = self.cks.values().next_back().map(|c| c.bytes).unwrap_or([0xff; 164]);
                let bytes = corrupt(src, alt, st);
                self.cks.insert(st.o, Ck { bytes, model: None });
                cover(mix(4, st.arg % 16));
                Ok(true)
            }
            Op::Restore => self.restore(st),
            Op::Clone => self.clone_op(st),
            Op::CloneFrom => self.clone_from_op(st),
            Op::Finish => {
                let Some(mut l) = self.objs.remove(&st.o) else { return Ok(false) };
                self.paint();
                let r = self.finish_op(&l);
                l.model.observed += 1;
                self.objs.insert(st.o, l);
                r?;
                Ok(true)
            }
            Op::Debug => {
                let Some(l) = self.objs.get_mut(&st.o) else { return Ok(false) };
                l.model.observed += 1;
                let l = &self.objs[&st.o];
                self.paint();
                on_kind!(l.kind, T => {
                    let h = unsafe { l.get::<T>() };
                    let mut s = Sink::new(16384, if st.arg == 2 { st.len as usize } else { usize::MAX });
                    if st.arg == 3 {
                        s.reenter = Some(HighwayHasher::new(Key(st.key)));
                    }
                    let ok = match st.arg {
                        1 => lib("debug", || write!(s, "{:#?}", h)).is_ok(),
                        4 => lib("debug", || write!(s, "{:x?}", h)).is_ok(),
                        5 => lib("debug", || write!(s, "{:#X?}", h)).is_ok(),
                        6 => lib("debug", || write!(s, "{:<30.2?}", h)).is_ok(),
                        _ => lib("debug", || write!(s, "{:?}", h)).is_ok(),
                    };
                    obs(O_DEBUG, false, s.text());
                    obs(O_DEBUG, false, &[ok as u8]);
                });
                cover(mix(5, mix(l.kind as u64, st.arg)));
                self.same_as_group(&self.objs[&st.o])?;
                self.check_selection(&self.objs[&st.o], "live")?;
                Ok(true)
            }
            Op::Flush => {
                let Some(l) = self.objs.get(&st.o) else { return Ok(false) };
                #[cfg(feature = "hwstd")]
                on_kind!(l.kind, T => {
                    let h = unsafe { l.get::<T>() };
                    let r = lib("flush", || std::io::Write::flush(h));
                    self.check();
                    if r.is_err() && self.prop == Prop::C12 {
                        return viol("io-flush", format!("flush failed: {:?}", r));
                    }
                });
                let _ = l;
                Ok(true)
            }
            Op::Final => {
                let Some(l) = self.objs.remove(&st.o) else { return Ok(false) };
                self.final_op(l, st)?;
                Ok(true)
            }
            Op::Probe => {
                let Some(l) = self.objs.remove(&st.o) else { return Ok(false) };
                let r = self.probe(&l, st);
                self.objs.insert(st.o, l);
                r?;
                Ok(true)
            }
            Op::Move => {
                let Some(mut l) = self.objs.remove(&st.o) else { return Ok(false) };
                self.nblk += 1;
                on_kind!(l.kind, T => {
                    let b = Block::new(Layout::new::<T>(), self.place, self.nblk);
                    unsafe { core::ptr::copy_nonoverlapping(l.blk.ptr as *const T, b.ptr as *mut T, 1) };
                    l.blk = b;
                });
                self.objs.insert(st.o, l);
                Ok(true)
            }
            Op::Drop => {
                let Some(l) = self.objs.remove(&st.o) else { return Ok(false) };
                drop_live(l);
                Ok(true)
            }
            Op::OneShot => {
                let kind = self.kind(st.slot);
                let root = Root::Fresh { ctor: 0, key: st.key };
                let raw = plan::bytes(st.dk, st.ds, st.off, st.len.min(1 << 21));
                let d = self.win.put(&raw, st.al, self.place, self.step as u64);
                self.paint();
                let r = on_kind!(kind, T => make::<T>(&root).map(|h| oneshot::<T>(h, d, st.w)));
                self.win.release();
                let Some(r) = r else { return Ok(false) };
                obs(O_ONESHOT, true, &words(&r));
                cover(mix(6, mix(kind as u64, lenclass(st.len))));
                if matches!(self.prop, Prop::C02 | Prop::C03 | Prop::C04 | Prop::C10 | Prop::C17) {
                    let e = oneshot(lib("new", || PortableHash::new(Key(st.key))), &raw, st.w);
                    self.check();
                    if r != e {
                        return viol("equals-portable", format!(
                            "{} {} of {} bytes in one shot: {:016x?}, portable {:016x?}",
                            kind.name(), wname(st.w), raw.len(), r, e));
                    }
                }
                if self.prop == Prop::C01 {
                    let e = model::hash(st.key, &raw, st.w);
                    self.check();
                    if r != e {
                        return viol("specification", format!(
                            "{} {} of {} bytes in one shot, key {:x?}: {:016x?}, specified {:016x?}",
                            kind.name(), wname(st.w), raw.len(), st.key, r, e));
                    }
                }
                if self.prop == Prop::C05 {
                    // the one-shot helper against a split in two
                    let cut = (st.arg % (st.len + 1)) as usize;
                    let e = on_kind!(kind, T => make::<T>(&root).map(|mut h| {
                        let cut = cut.min(raw.len());
                        lib("append", || HighwayHash::append(&mut h, &raw[..cut]));
                        lib("append", || HighwayHash::append(&mut h, &raw[cut..]));
                        fin::<T>(h, st.w)
                    }));
                    self.check();
                    if e != Some(r) {
                        return viol("streaming", format!(
                            "{} {} of {} bytes: one shot {:016x?}, split at {} {:016x?}",
                            kind.name(), wname(st.w), raw.len(), r, cut, e));
                    }
                }
                Ok(true)
            }
            Op::HashOne => self.hash_one(st),
            Op::Map => self.map(st),
            Op::Churn => self.churn(st),
        }
    }

    fn append(&mut self, st: &Step) -> R<bool> {
        let len = st.len.min(1 << 21);
        let Some(mut l) = self.objs.remove(&st.o) else { return Ok(false) };
        let mut raw = vec![0u8; len as usize];
        plan::fill(st.dk, st.ds, st.off, &mut raw);
        let mut via = st.via;
        if cfg!(target_endian = "big") && via == VIA_INTS {
            via = VIA_APPEND;
        }
        let pend = l.model.concat.len() % 32;
        cover(mix(mix(7, (l.kind as u64) << 8 | via as u64), (pend as u64) << 32 | lenclass(len)));
        if pend != 0 && len > 0 {
            ctl().nontrivial = 1;
        }
        count(K_BYTES, len);
        let strict = self.prop == Prop::C12;
        let mut res = Ok(());
        let pl = self.place;
        let step = self.step as u64;
        {
            let n = 1 + l.group.len();
            for gi in 0..n {
                let m: &mut Live = if gi == 0 { &mut l } else { &mut l.group[gi - 1] };
                // the address independence oracle also varies where each chunk of a call lies
                let d = self.win.put(&raw, st.al, pl, step);
                if pl.hard {
                    paint_stack(mix(pl.salt, step));
                }
                let r = on_kind!(m.kind, T => {
                    let h = unsafe { m.get::<T>() };
                    feed::<T>(h, d, via, st.arg, strict)
                });
                self.win.release();
                if let Err(v) = r {
                    res = Err(v);
                    break;
                }
                let start = m.model.concat.len();
                m.model.concat.extend_from_slice(&raw);
                m.model.calls.push(Call { via, arg: st.arg, start, len: raw.len() });
                if raw.is_empty() {
                    m.model.empties += 1;
                }
            }
        }
        if via >= VIA_WRITE {
            obs(O_WRITE, false, &[res.is_ok() as u8]);
        }
        self.objs.insert(st.o, l);
        match res {
            Ok(()) => Ok(true),
            // only the adapter property has something to say about a refused write
            Err(v) if strict => Err(v),
            Err(_) => {
                ctl().inconclusive += 1;
                let l = self.objs.remove(&st.o).unwrap();
                drop_live(l);
                Ok(true)
            }
        }
    }

    /// thousands of calls on one hasher, a few bytes each
    fn drip(&mut self, st: &Step) -> R<bool> {
        let mut r = Rng::new(st.arg);
        let top = match st.w {
            1 => 1,
            _ => [1, 3, 9, 40][r.below(4) as usize],
        };
        let mut one = st.clone();
        one.op = Op::Append;
        let end = st.off + st.len.min(if cfg!(miri) { 200 } else { 1 << 17 });
        while one.off < end {
            one.len = r.below(top + 1).min(end - one.off);
            if one.len == 0 && r.chance(1, 2) {
                one.len = 1;
            }
            if !self.append(&one)? {
                return Ok(false);
            }
            one.off += one.len;
            if !self.objs.contains_key(&st.o) {
                break;
            }
        }
        Ok(true)
    }

    /// observers of one and the same hasher on several threads at once
    fn share(&mut self, st: &Step) -> R<bool> {
        let Some(mut l) = self.objs.remove(&st.o) else { return Ok(false) };
        let n = st.len.clamp(2, 5) as usize;
        let mut r = Rng::new(st.arg);
        let scripts: Vec<Vec<Look>> = (0..n)
            .map(|_| (0..r.range(1, 4)).map(|_| Look { what: *r.pick(&[0, 0, 1, 1, 1, 2, 2, 2, 3]), w: r.below(3) as u8, len: r.below(70) as usize }).collect())
            .collect();
        let sched: Vec<(u16, u64)> = match r.below(3) {
            0 => (0..r.range(1, 5)).map(|_| (r.below(n as u64) as u16, r.range(1, 2500))).collect(),
            1 => (0..r.range(4, 30)).map(|_| (r.below(n as u64) as u16, r.range(1, 400))).collect(),
            _ => (0..r.range(10, 80)).map(|_| (r.below(n as u64) as u16, 1 << r.below(7) | r.below(4))).collect(),
        };
        let m = &l.model;
        let res = on_kind!(l.kind, T => {
            #[allow(unused_imports)]
            use self::NotSync as _;
            match self.twin::<T>(&m.base, m, m.base_calls, true) {
                // a hasher that may not be shared between threads is not
                Some(alone) if IsSync::<T>::V => {
                    let want: Vec<u64> = scripts.iter().map(|s| look(&alone, s)).collect();
                    let h = SyncRef(unsafe { l.get::<T>() } as *const T);
                    let got = at_once(&scripts, &sched, &|s| look(unsafe { &*h.get() }, s));
                    Some((want, got))
                }
                _ => None,
            }
        });
        let Some((want, got)) = res else {
            self.objs.insert(st.o, l);
            return Ok(false);
        };
        l.model.observed += scripts.iter().map(|s| s.len() as u32).sum::<u32>();
        cover(mix(15, mix(l.kind as u64, (l.model.concat.len() % 32) as u64)));
        self.check();
        let k = l.kind;
        self.objs.insert(st.o, l);
        if ctl().panicked_in_lib != 0 {
            return Ok(true);
        }
        for (i, (a, b)) in want.iter().zip(got.iter()).enumerate() {
            obs(O_SHARE, true, &b.to_le_bytes());
            if a != b {
                return viol("shared-observers", format!(
                    "{}: thread {} of {} that only look at one hasher sees other results than one that is alone ({:?})",
                    k.name(), i, n, scripts[i]));
            }
        }
        Ok(true)
    }

    #[cfg(all(unix, not(miri)))]
    fn giant(&mut self, st: &Step) -> R<bool> {
        let Some(mut l) = self.objs.remove(&st.o) else { return Ok(false) };
        let n = st.len as usize;
        let Some(p) = crate::sys::zeros(n) else { return Ok(false) };
        let d = unsafe { core::slice::from_raw_parts(p, n) };
        // the same bytes in pieces, from the same state; for C02 and C03 by the portable hasher
        let other = if matches!(self.prop, Prop::C02 | Prop::C03) { Kind::Portable } else { l.kind };
        let mut split = if !matches!(self.prop, Prop::C02 | Prop::C03 | Prop::C05 | Prop::C12) {
            None
        } else {
            let ck = on_kind!(l.kind, T => ck_of(unsafe { l.get::<T>() }));
            on_kind!(other, T => {
                make::<T>(&Root::Raw { ck }).map(|mut h| {
                    for c in d.chunks((1 << 30) - 5) {
                        lib("append", || HighwayHash::append(&mut h, c));
                    }
                    ck_of(&h)
                })
            })
        };
        let prop = self.prop;
        let r = on_kind!(l.kind, T => {
            let h = unsafe { l.get::<T>() };
            feed::<T>(h, d, st.via, st.arg, prop == Prop::C12)
        });
        let ck = on_kind!(l.kind, T => ck_of(unsafe { l.get::<T>() }));
        let f = on_kind!(l.kind, T => fin::<T>(unsafe { core::ptr::read(l.blk.ptr as *const T) }, st.w));
        let f2 = split.take().and_then(|ck2| {
            on_kind!(other, T => make::<T>(&Root::Raw { ck: ck2 }).map(|h| fin::<T>(h, st.w)))
        });
        let spec = match l.model.root {
            Root::Fresh { ctor: 0, key } if self.prop == Prop::C01 => {
                Some(model::hash_parts(key, &[&l.model.concat, d], st.w))
            }
            _ => None,
        };
        crate::sys::unmap(p, n);
        obs(O_CKPT, true, &ck);
        obs(O_FINAL, true, &words(&f));
        let e = match (self.prop, r) {
            (Prop::C12, Err(v)) => Err(v),
            _ => Ok(()),
        };
        l.model.empties += 0;
        drop_live(l);
        e?;
        self.check();
        if spec.is_some() && spec != Some(f) {
            return viol("specification", format!("{} bytes in one call: {:x?}, specified {:x?}", n, f, spec));
        }
        if matches!(self.prop, Prop::C02 | Prop::C03 | Prop::C05 | Prop::C12) && f2 != Some(f) {
            return viol(if matches!(self.prop, Prop::C02 | Prop::C03) { "equals-portable" } else { "streaming" }, format!("{} bytes through route {} vs in pieces: {:x?} / {:x?}", n, st.via, f, f2));
        }
        Ok(true)
    }
    #[cfg(not(all(unix, not(miri))))]
    fn giant(&mut self, _st: &Step) -> R<bool> {
        Ok(false)
    }

    fn after_ckpt(&mut self, l: &Live, ck: &[u8; 164]) -> R<()> {
        match self.prop {
            Prop::C14 => self.canonical(l, ck)?,
            Prop::C06 | Prop::C03 | Prop::C04 => {
                // restore at this cut on every backend
                let m = &l.model;
                let w = (self.step % 3) as u8;
                let portable = self.prop != Prop::C06;
                let want = if portable {
                    self.twin_fin(Kind::Portable, &m.root, m, 0, false, w)
                } else {
                    self.twin_fin(m.root_kind, &m.root, m, 0, true, w)
                };
                let Some(want) = want else { return Ok(()) };
                for s in 0..SLOTS {
                    let k = kind_of(s);
                    if s > 0 && k == Kind::Portable {
                        continue;
                    }
                    let got = on_kind!(k, T => make::<T>(&Root::Raw { ck: *ck }).map(|h| fin::<T>(h, w)));
                    if let Some(got) = got {
                        self.eq(if portable { "interchangeable" } else { "transparent" }, &got, &want, m, format!(
                            "{} {} restored from the checkpoint of {}", k.name(), wname(w), l.kind.name()))?;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn restore(&mut self, st: &Step) -> R<bool> {
        let Some(ck) = self.cks.get(&st.p).cloned() else { return Ok(false) };
        let kind = self.kind(st.slot);
        let root = Root::Raw { ck: ck.bytes };
        let mut model = match ck.model {
            // the property's statement reaches through the hop only for these
            Some(m) => {
                let mut m = m;
                m.base = root;
                m.base_calls = m.calls.len();
                m.hops += 1;
                m
            }
            None => Self::fresh_model(kind, root),
        };
        if self.prop == Prop::C11 {
            // whatever the bytes are, they are the root
            model = Self::fresh_model(kind, root);
        }
        cover(mix(8, mix(kind as u64, (model.hops.min(6) as u64) << 8 | u64::from(ck.bytes[160]))));
        ctl().nontrivial = 1;
        self.paint();
        let force = st.arg == 1;
        let mut live = on_kind!(kind, T => {
            match lib("from_checkpoint", || T::load(ck.bytes, force)) {
                Some(h) => self.place_obj(h, kind, model.clone()),
                None => return Ok(false),
            }
        });
        live.slot = st.slot;
        if self.prop == Prop::C11 {
            let mut seen = vec![kind];
            for s in 0..SLOTS {
                let k = kind_of(s);
                if seen.contains(&k) {
                    continue;
                }
                seen.push(k);
                let g = on_kind!(k, T => {
                    match lib("from_checkpoint", || T::load(ck.bytes, false)) {
                        Some(h) => Some(self.place_obj(h, k, Self::fresh_model(k, root))),
                        None => None,
                    }
                });
                if let Some(g) = g {
                    live.group.push(g);
                }
            }
        }
        if self.prop == Prop::C10 {
            self.check_ctors([1, 2, 3, 4], ck.bytes)?;
        }
        self.check_selection(&live, "from_checkpoint")?;
        if self.prop == Prop::C11 {
            self.laws(&live, (self.step % 3) as u8, None, self.step as u64)?;
        }
        self.objs.insert(st.o, live);
        Ok(true)
    }

    fn clone_op(&mut self, st: &Step) -> R<bool> {
        let Some(src) = self.objs.remove(&st.p) else { return Ok(false) };
        self.paint();
        let mut model = src.model.clone();
        model.observed += 1;
        let mut live = on_kind!(src.kind, T => {
            let h = lib("clone", || unsafe { src.get::<T>() }.clone());
            self.place_obj(h, src.kind, model)
        });
        live.slot = src.slot;
        cover(mix(9, mix(src.kind as u64, (src.model.concat.len() % 32) as u64)));
        for g in &src.group {
            let m = g.model.clone();
            let c = on_kind!(g.kind, T => {
                let h = lib("clone", || unsafe { g.get::<T>() }.clone());
                self.place_obj(h, g.kind, m)
            });
            live.group.push(c);
        }
        let r = self.clone_equal(&src, &live);
        let r2 = self.check_selection(&live, "clone");
        self.objs.insert(st.p, src);
        self.objs.insert(st.o, live);
        r?;
        r2?;
        Ok(true)
    }

    fn clone_from_op(&mut self, st: &Step) -> R<bool> {
        if st.o == st.p {
            return Ok(false);
        }
        let Some(src) = self.objs.remove(&st.p) else { return Ok(false) };
        let Some(mut dst) = self.objs.remove(&st.o) else {
            self.objs.insert(st.p, src);
            return Ok(false);
        };
        let mut done = false;
        let mut r = Ok(());
        if dst.slot == src.slot && dst.kind == src.kind && dst.group.len() == src.group.len() {
            done = true;
            on_kind!(src.kind, T => {
                let (a, b) = unsafe { (dst.get::<T>(), src.get::<T>()) };
                lib("clone_from", || a.clone_from(b));
            });
            for (a, b) in dst.group.iter_mut().zip(src.group.iter()) {
                if a.kind != b.kind {
                    done = false;
                    break;
                }
                on_kind!(b.kind, T => {
                    let (x, y) = unsafe { (a.get::<T>(), b.get::<T>()) };
                    lib("clone_from", || x.clone_from(y));
                });
                a.model = b.model.clone();
            }
            dst.model = src.model.clone();
            r = self.clone_equal(&src, &dst);
            if r.is_ok() {
                r = self.check_selection(&dst, "clone_from");
            }
        }
        self.objs.insert(st.p, src);
        if done {
            self.objs.insert(st.o, dst);
        } else {
            drop_live(dst);
        }
        r?;
        Ok(done)
    }

    fn clone_equal(&self, a: &Live, b: &Live) -> R<()> {
        if self.prop != Prop::C13 {
            return Ok(());
        }
        on_kind!(a.kind, T => {
            let (x, y) = unsafe { (a.get::<T>(), b.get::<T>()) };
            self.check();
            if ck_of(x) != ck_of(y) {
                return viol("clone-identical", format!("{}: checkpoint of a clone differs from the original's", a.kind.name()));
            }
            if lib("finish", || Hasher::finish(x)) != lib("finish", || Hasher::finish(y)) {
                return viol("clone-identical", format!("{}: finish of a clone differs from the original's", a.kind.name()));
            }
            if debug_text(x) != debug_text(y) {
                return viol("clone-identical", format!("{}: Debug of a clone differs from the original's", a.kind.name()));
            }
        });
        Ok(())
    }

    fn finish_op(&mut self, l: &Live) -> R<()> {
        let v = on_kind!(l.kind, T => lib("finish", || Hasher::finish(unsafe { l.get::<T>() })));
        obs(O_FINISH, true, &v.to_le_bytes());
        cover(mix(10, mix(l.kind as u64, (l.model.concat.len() % 32) as u64)));
        for g in &l.group {
            let v2 = on_kind!(g.kind, T => lib("finish", || Hasher::finish(unsafe { g.get::<T>() })));
            self.check();
            if v2 != v {
                let (o, what) = self.group_oracle();
                return viol(o, format!("finish differs between {} and {} {}", l.kind.name(), g.kind.name(), what));
            }
        }
        let m = &l.model;
        let got = [v, 0, 0, 0];
        match self.prop {
            Prop::C12 => {
                if let Some(e) = self.twin_fin(l.kind, &m.base, m, m.base_calls, false, 0) {
                    self.eq("finish", &got, &e, m, format!("{} finish vs hash64 of the bytes so far", l.kind.name()))?;
                }
                let v2 = on_kind!(l.kind, T => {
                    let d: &dyn Hasher = unsafe { l.get::<T>() };
                    lib("finish", || d.finish())
                });
                self.check();
                if v2 != v {
                    return viol("finish", format!("{}: finish called twice: {:x} then {:x}", l.kind.name(), v, v2));
                }
            }
            Prop::C13 => {
                if let Some(e) = self.twin_fin(l.kind, &m.base, m, m.base_calls, true, 0) {
                    self.eq("observer", &got, &e, m, format!("{} finish vs rebuild without observers", l.kind.name()))?;
                }
            }
            Prop::C01 => {
                if let (Root::Fresh { ctor: 0 | 2, key }, 0) = (m.root, m.hops) {
                    self.eq("specification", &got, &model::hash(key, &m.concat, 0), m, format!(
                        "{} finish vs the specification, key {:x?}", l.kind.name(), key))?;
                }
            }
            Prop::C06 if m.hops > 0 => {
                if let Some(e) = self.twin_fin(m.root_kind, &m.root, m, 0, true, 0) {
                    self.eq("transparent", &got, &e, m, format!("{} finish after restore", l.kind.name()))?;
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn final_op(&mut self, mut l: Live, st: &Step) -> R<()> {
        let w = st.w % 3;
        // the stream may end in a one-shot call that takes its last bytes
        let tail = (st.via == VIA_ONESHOT).then(|| plan::bytes(st.dk, st.ds, st.off, st.len.min(1 << 21)));
        let (pl, step) = (self.place, self.step as u64);
        let win = &mut self.win;
        let mut consume = |l: &Live| {
            let d = tail.as_ref().map(|t| win.put(t, st.al, pl, step));
            if pl.hard {
                paint_stack(mix(pl.salt, step));
            }
            let v = on_kind!(l.kind, T => {
                let h = unsafe { core::ptr::read(l.blk.ptr as *const T) };
                match d {
                    Some(d) => oneshot::<T>(h, d, w),
                    None => fin::<T>(h, w),
                }
            });
            if d.is_some() {
                win.release();
            }
            v
        };
        let got = consume(&l);
        let others: Vec<[u64; 4]> = l.group.iter().map(&mut consume).collect();
        obs(O_FINAL, true, &words(&got));
        cover(mix(11, mix(l.kind as u64, (l.model.concat.len() % 32) as u64 * 4 + w as u64)));
        if let Some(t) = &tail {
            count(K_BYTES, t.len() as u64);
            cover(mix(12, mix(l.kind as u64, (l.model.concat.len() % 32) as u64 * 100 + lenclass(t.len() as u64))));
            for i in 0..1 + l.group.len() {
                let m = if i == 0 { &mut l.model } else { &mut l.group[i - 1].model };
                let start = m.concat.len();
                m.concat.extend_from_slice(t);
                m.calls.push(Call { via: VIA_ONESHOT, arg: 0, start, len: t.len() });
            }
        }
        for (g, g2) in l.group.iter().zip(others) {
            let (o, what) = self.group_oracle();
            self.eq(o, &g2, &got, &l.model, format!(
                "{} of {} vs {} {}", wname(w), g.kind.name(), l.kind.name(), what))?;
        }
        if self.prop == Prop::C11 {
            self.laws(&l, w, Some(&got), st.arg)?;
            for g in &l.group {
                self.laws(g, w, None, st.arg)?;
            }
        }
        self.judge(&l, w, &got)
    }

    fn probe(&mut self, l: &Live, st: &Step) -> R<()> {
        match self.prop {
            Prop::C05 => {
                if l.model.concat.len() < 20_000 {
                    let got = self.twin_fin(l.kind, &l.model.root, &l.model, 0, true, st.w);
                    if let Some(got) = got {
                        self.judge(l, st.w, &got)?;
                    }
                }
            }
            Prop::C11 => {
                for m in Self::all_members(l) {
                    self.laws(m, st.w, None, st.arg)?;
                }
            }
            Prop::C14 => {
                let ck = on_kind!(l.kind, T => ck_of(unsafe { l.get::<T>() }));
                self.canonical(l, &ck)?;
            }
            Prop::C06 | Prop::C03 | Prop::C04 => {
                let ck = on_kind!(l.kind, T => ck_of(unsafe { l.get::<T>() }));
                self.after_ckpt(l, &ck)?;
            }
            Prop::C07 => {
                self.same_as_group(l)?;
                self.finish_op(l)?;
            }
            Prop::C13 => {
                // every observer once more, then the results of what they left behind
                on_kind!(l.kind, T => {
                    let h = unsafe { l.get::<T>() };
                    let (c1, f1, d1) = (ck_of(h), lib("finish", || Hasher::finish(h)), debug_text(h));
                    let c = lib("clone", || h.clone());
                    let (c2, f2, d2) = (ck_of(h), lib("finish", || Hasher::finish(h)), debug_text(h));
                    self.check();
                    if c1 != c2 || f1 != f2 || d1 != d2 {
                        return viol("observer", format!("{}: observing a hasher changed what the next observation sees", l.kind.name()));
                    }
                    let r = fin::<T>(c, st.w);
                    if let Some(e) = self.twin_fin(l.kind, &l.model.base, &l.model, l.model.base_calls, true, st.w) {
                        self.eq("clone-identical", &r, &e, &l.model, format!("{} {} of a clone vs the original's calls", l.kind.name(), wname(st.w)))?;
                    }
                });
            }
            _ => {
                let v = on_kind!(l.kind, T => lib("finish", || Hasher::finish(unsafe { l.get::<T>() })));
                obs(O_FINISH, true, &v.to_le_bytes());
            }
        }
        Ok(())
    }

    fn hash_one(&mut self, st: &Step) -> R<bool> {
        let Some((b, key)) = self.builder(st.p) else { return Ok(false) };
        let key = *key;
        let mut r = Rng::new(st.ds);
        let v = gen_val(&mut r, 0);
        let x = lib("hash_one", || b.hash_one(&v));
        obs(O_HASHONE, cfg!(target_endian = "little"), &x.to_le_bytes());
        cover(mix(12, st.arg % 16));
        if self.prop == Prop::C12 {
            let b2 = HighwayBuildHasher::new(Key(key));
            let y = lib("hash_one", || b2.hash_one(&v));
            let mut rec = Recorder::default();
            v.hash(&mut rec);
            let mut h = lib("new", || HighwayHasher::new(Key(key)));
            lib("append", || HighwayHash::append(&mut h, &rec.0));
            let z = lib("finalize64", || h.finalize64());
            self.check();
            if x != y {
                return viol("builder", format!("hash_one differs between two builders with the same key: {:x} {:x} for {:?}", x, y, v));
            }
            if x != z {
                return viol("builder", format!("hash_one is {:x}, the hash of the bytes the value feeds is {:x}: {:?}", x, z, v));
            }
        }
        Ok(true)
    }

    fn map(&mut self, st: &Step) -> R<bool> {
        let Some((_, key)) = self.builder(st.p) else { return Ok(false) };
        let key = *key;
        let mut r = Rng::new(st.ds);
        let n = st.len.min(400);
        let mut m: std::collections::HashMap<Val, u64, HighwayBuildHasher> =
            std::collections::HashMap::with_hasher(HighwayBuildHasher::new(Key(key)));
        let mut m2: std::collections::HashMap<u64, u64, std::hash::BuildHasherDefault<HighwayHasher>> =
            Default::default();
        let mut model: Vec<(Val, u64)> = Vec::new();
        let mut model2: BTreeMap<u64, u64> = BTreeMap::new();
        let mut pool: Vec<Val> = Vec::new();
        let mut digest = 0u64;
        // a panic in there is the hasher's; an allocation is the map's
        let bracket = self.prop != Prop::C18;
        macro_rules! in_map {
            ($e:expr) => {
                if bracket { lib("HashMap", || $e) } else { $e }
            };
        }
        for i in 0..n {
            let v = if pool.is_empty() || r.chance(1, 3) {
                let v = gen_val(&mut r, 0);
                pool.push(v.clone());
                v
            } else {
                r.pick(&pool).clone()
            };
            let pos = model.iter().position(|(k, _)| *k == v);
            let (got, want) = match r.below(3) {
                0 => {
                    let g = in_map!(m.insert(v.clone(), i));
                    let w = match pos {
                        Some(p) => Some(std::mem::replace(&mut model[p].1, i)),
                        None => {
                            model.push((v, i));
                            None
                        }
                    };
                    (g, w)
                }
                1 => (in_map!(m.remove(&v)), pos.map(|p| model.swap_remove(p).1)),
                _ => (in_map!(m.get(&v).copied()), pos.map(|p| model[p].1)),
            };
            let k = r.below(n + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            let (g2, w2) = match r.below(3) {
                0 => (in_map!(m2.insert(k, i)), model2.insert(k, i)),
                1 => (in_map!(m2.remove(&k)), model2.remove(&k)),
                _ => (in_map!(m2.get(&k).copied()), model2.get(&k).copied()),
            };
            digest = mix(digest, got.map(|x| x + 1).unwrap_or(0) ^ g2.map(|x| x + 1).unwrap_or(0) << 20);
            self.check();
            if self.prop == Prop::C12 && (got != want || g2 != w2) {
                return viol("collection", format!(
                    "HashMap operation {} returned {:?}/{:?}, the model {:?}/{:?}", i, got, g2, want, w2));
            }
        }
        obs(O_MAP, true, &digest.to_le_bytes());
        cover(13);
        Ok(true)
    }

    /// many short-lived instances, several alive at once
    fn churn(&mut self, st: &Step) -> R<bool> {
        let kind = self.kind(st.slot);
        // more than 2^16 of them at times: counters, tables and generations that wrap around
        let n = st.len.min(if cfg!(any(miri, feature = "watch")) { 3000 } else { 140_000 });
        let mut r = Rng::new(st.ds);
        let mut acc = 0u64;
        on_kind!(kind, T => {
            let mut alive: Vec<T> = Vec::with_capacity(8);
            let raw = plan::bytes(0, st.ds, 0, 96);
            for i in 0..n {
                #[cfg(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch")))]
                crate::tf::CALM.with(|c| c.set(i > 64 && i + 64 < n));
                let key = [st.key[0].wrapping_add(i), st.key[1], st.key[2], st.key[3]];
                let Some(h) = make::<T>(&Root::Fresh { ctor: 0, key }) else { return Ok(false) };
                if alive.len() >= 8 {
                    let j = r.below(8) as usize;
                    let old = alive.swap_remove(j);
                    acc = mix(acc, fin::<T>(old, 0)[0]);
                }
                alive.push(h);
                let j = r.below(alive.len() as u64) as usize;
                let a = r.below(64) as usize;
                let b = r.below(33) as usize;
                lib("append", || HighwayHash::append(&mut alive[j], &raw[a..a + b.min(96 - a)]));
                if st.arg == 1 {
                    // every operation that could count
                    let ck = ck_of(&alive[j]);
                    let Some(g) = make::<T>(&Root::Raw { ck }) else { return Ok(false) };
                    let g2 = lib("clone", || g.clone());
                    acc = mix(acc, fin::<T>(g, 0)[0]);
                    alive[j] = g2;
                }
            }
            for h in alive {
                acc = mix(acc, fin::<T>(h, 0)[0]);
            }
        });
        obs(O_CHURN, true, &acc.to_le_bytes());
        cover(mix(14, kind as u64));
        Ok(true)
    }
}

impl Drop for Exec<'_> {
    fn drop(&mut self) {
        let objs = std::mem::take(&mut self.objs);
        for (_, l) in objs {
            drop_live(l);
        }
    }
}

fn drop_live(mut l: Live) {
    for g in std::mem::take(&mut l.group) {
        drop_live(g);
    }
    on_kind!(l.kind, T => unsafe { core::ptr::drop_in_place(l.blk.ptr as *mut T) });
}

fn oneshot<T: H>(h: T, d: &[u8], w: u8) -> [u64; 4] {
    match w % 3 {
        0 => [lib("hash64", || h.hash64(d)), 0, 0, 0],
        1 => {
            let r = lib("hash128", || h.hash128(d));
            [r[0], r[1], 0, 0]
        }
        _ => lib("hash256", || h.hash256(d)),
    }
}

pub fn make_builder(st: &Step) -> (HighwayBuildHasher, [u64; 4]) {
    if st.arg == 1 {
        (lib("HighwayBuildHasher::default", HighwayBuildHasher::default), [0; 4])
    } else {
        (lib("HighwayBuildHasher::new", || HighwayBuildHasher::new(Key(st.key))), st.key)
    }
}

pub fn lenclass(len: u64) -> u64 {
    if len < 100 {
        len
    } else if len < 1024 {
        100 + len % 32
    } else {
        200 + (64 - len.leading_zeros()) as u64
    }
}

/// What a faulty disk or wire did to a checkpoint.
fn corrupt(src: [u8; 164], alt: [u8; 164], st: &Step) -> [u8; 164] {
    let mut b = src;
    let mut r = Rng::new(st.ds);
    let lenf = |b: &mut [u8; 164], v: u32| b[160..164].copy_from_slice(&v.to_le_bytes());
    match st.arg % 13 {
        0 => {
            // bit flips
            for _ in 0..1 + st.off % 4 {
                let i = r.below(164 * 8) as usize;
                b[i / 8] ^= 1 << (i % 8);
            }
        }
        1 => {
            // torn write: a prefix of the new version over an old one
            let n = (st.off % 165) as usize;
            b[n..].copy_from_slice(&alt[n..]);
        }
        2 => {
            // lost tail: zeros after a prefix
            let n = (st.off % 165) as usize;
            b[n..].fill(0);
        }
        3 => lenf(&mut b, 32),
        4 => lenf(&mut b, (st.off % 70) as u32),
        5 => lenf(&mut b, r.next() as u32),
        6 => lenf(
            &mut b,
            *r.pick(&[0x8000_0000, u32::MAX, 33, 64, 31, 0x1_0000, 0x100, 0x1f00_0000, 0x20, 63, 0x7fff_ffff, 0xffff_ff01]),
        ),
        7 => {
            // unrelated bytes
            plan::fill(0, st.ds, 0, &mut b);
            lenf(&mut b, (st.off % 33) as u32);
        }
        8 => plan::fill((st.off % plan::DK_KINDS) as u8, st.ds, 0, &mut b),
        9 => {
            // misplaced sector
            let n = (st.off % 164) as usize;
            b.rotate_left(n);
        }
        10 => {
            // a run of 0xff (erased flash)
            let a = r.below(164) as usize;
            let n = r.range(1, 64) as usize;
            for x in b.iter_mut().skip(a).take(n) {
                *x = 0xff;
            }
        }
        11 => {
            // some lanes overwritten by boundary values
            for i in 0..16 {
                if r.chance(1, 2) {
                    let x = plan::extreme(&mut r);
                    b[8 * i..8 * i + 8].copy_from_slice(&x.to_le_bytes());
                }
            }
            if r.chance(1, 2) {
                lenf(&mut b, (st.off % 32) as u32);
            }
        }
        _ => {
            // stale bytes after the pending ones
            let n = u32::from_le_bytes([b[160], b[161], b[162], b[163]]).min(32) as usize;
            let mut s = [0u8; 32];
            plan::fill(0, st.ds, 0, &mut s);
            b[128 + n..160].copy_from_slice(&s[n..]);
        }
    }
    b
}

/// Execute a whole plan on this thread (or the plan's threads), recording into the control block.
/// `only`: restrict to one session.
pub fn run_plan(pl: &Plan, salt: u64, only: Option<u16>) {
    // what lies on the stack lies elsewhere in each placement, modulo 32 and 64 as well
    match salt % 4 {
        0 => displaced::<16>(&mut || run_plan_here(pl, salt, only)),
        1 => displaced::<32>(&mut || run_plan_here(pl, salt, only)),
        2 => displaced::<48>(&mut || run_plan_here(pl, salt, only)),
        _ => displaced::<64>(&mut || run_plan_here(pl, salt, only)),
    }
}

#[inline(never)]
fn displaced<const N: usize>(f: &mut dyn FnMut()) {
    let mut a = [0u8; N];
    std::hint::black_box(&mut a);
    f();
    std::hint::black_box(&mut a);
}

fn run_plan_here(pl: &Plan, salt: u64, only: Option<u16>) {
    let Some(prop) = Prop::parse(&pl.prop) else {
        ctl().harness = 1;
        ctl::set_msg("unknown property");
        return;
    };
    crate::mem::ALLOC_MODE.store(
        match (prop, pl.seed % 3) {
            (Prop::C18, 0) => 2,
            (Prop::C18, _) => 1,
            _ => 0,
        },
        std::sync::atomic::Ordering::Relaxed,
    );
    #[cfg(feature = "watch")]
    {
        hwwatch::on_bad(bad_access);
        hwwatch::track(matches!(prop, Prop::C09 | Prop::C11));
    }
    let c = ctl();
    if prop != Prop::C15 && !pl.tf {
        let mut ex = Exec::new(prop, salt, None);
        for (i, st) in pl.steps.iter().enumerate() {
            if let Err(v) = ex.run_step(i, st) {
                record(&v, i, st);
                return;
            }
        }
        drop(ex);
        #[cfg(feature = "watch")]
        {
            c.watched = hwwatch::accesses();
        }
        c.done = 1;
        return;
    }
    // isolation: sessions with private objects, shared builders
    let mut builders = BTreeMap::new();
    for st in &pl.steps {
        if st.op == Op::Build {
            builders.insert(st.p, make_builder(st));
        }
    }
    let mut sessions: Vec<u16> = pl.steps.iter().filter(|s| s.op != Op::Build).map(|s| s.s).collect();
    sessions.sort_unstable();
    sessions.dedup();
    if let Some(o) = only {
        sessions.retain(|&s| s == o);
    }
    if sessions.len() > 1 {
        c.nontrivial = 1;
    }
    let place_of = |_s: u16| salt;
    let run_sessions_serial = |sess: &[u16]| {
        let mut exs: BTreeMap<u16, Exec> = sess
            .iter()
            .map(|&s| (s, Exec::new(prop, place_of(s), Some(Shared { builders: &builders }))))
            .collect();
        for (i, st) in pl.steps.iter().enumerate() {
            if st.op == Op::Build {
                continue;
            }
            let Some(ex) = exs.get_mut(&st.s) else { continue };
            ctl::SESS.with(|s| s.set(st.s));
            if let Err(v) = ex.run_step(i, st) {
                record(&v, i, st);
                return false;
            }
        }
        true
    };
    #[cfg(all(unix, not(miri)))]
    {
        if pl.tf && cfg!(any(target_arch = "x86_64", feature = "watch")) && only.is_none() && sessions.len() > 1 {
            #[cfg(any(target_arch = "x86_64", feature = "watch"))]
            {
                let ss = &sessions;
                let b = &builders;
                let map: Vec<(u16, u64)> = pl
                    .sched
                    .iter()
                    .filter_map(|(s, q)| {
                        if *s == plan::NESTED {
                            return Some((*s, *q));
                        }
                        ss.iter().position(|x| x == s).map(|p| (p as u16, *q))
                    })
                    .collect();
                let stats = crate::tf::run(sessions.len().min(crate::tf::MAXT), &map, if prop == Prop::C15 { 2_000_000 } else { 60_000 }, &|idx| {
                    let sid = ss[idx];
                    ctl::SESS.with(|s| s.set(sid));
                    let mut ex = Exec::new(prop, salt, Some(Shared { builders: b }));
                    for (i, st) in pl.steps.iter().enumerate() {
                        if st.s == sid && st.op != Op::Build {
                            if let Err(v) = ex.run_step(i, st) {
                                record(&v, i, st);
                                break;
                            }
                        }
                    }
                });
                c.instrs = stats.instrs;
                c.switches = stats.midop as u32;
                c.sig = stats.sig;
                c.done = 1;
                return;
            }
        }
        if pl.threads > 1 && only.is_none() {
            // real threads, baton handed over at step boundaries in plan order
            use std::sync::{Condvar, Mutex};
            let k = pl.threads.min(16) as u16;
            let turn = (Mutex::new(0usize), Condvar::new());
            let (turn, ss, b) = (&turn, &sessions, &builders);
            std::thread::scope(|sc| {
                for th in 0..k {
                    sc.spawn(move || {
                        let mine: Vec<u16> = ss.iter().copied().filter(|s| s % k == th).collect();
                        let mut exs: BTreeMap<u16, Exec> = BTreeMap::new();
                        for (i, st) in pl.steps.iter().enumerate() {
                            if st.op == Op::Build || !ss.contains(&st.s) {
                                if th == 0 {
                                    let mut g = turn.0.lock().unwrap();
                                    while *g != i {
                                        g = turn.1.wait(g).unwrap();
                                    }
                                    *g = i + 1;
                                    turn.1.notify_all();
                                }
                                continue;
                            }
                            if !mine.contains(&st.s) {
                                continue;
                            }
                            let mut g = turn.0.lock().unwrap();
                            while *g != i {
                                g = turn.1.wait(g).unwrap();
                            }
                            let ex = exs.entry(st.s).or_insert_with(|| {
                                Exec::new(prop, salt, Some(Shared { builders: b }))
                            });
                            ctl::SESS.with(|s| s.set(st.s));
                            if ctl().viol == 0 {
                                if let Err(v) = ex.run_step(i, st) {
                                    record(&v, i, st);
                                }
                            }
                            *g = i + 1;
                            turn.1.notify_all();
                        }
                    });
                }
            });
            c.done = 1;
            return;
        }
    }
    #[cfg(miri)]
    if sessions.len() > 1 && only.is_none() {
        // one thread per session, interleaved by the interpreter's seeded scheduler, which also
        // reports data races
        let b = &builders;
        let blocks: Vec<(u16, Box<ctl::Ctl>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = sessions
                .iter()
                .map(|&sid| {
                    sc.spawn(move || {
                        let (_, blk) = ctl::with_local(|| {
                            ctl::SESS.with(|s| s.set(sid));
                            let mut ex = Exec::new(prop, salt, Some(Shared { builders: b }));
                            for (i, st) in pl.steps.iter().enumerate() {
                                if st.s == sid && st.op != Op::Build {
                                    if let Err(v) = ex.run_step(i, st) {
                                        record(&v, i, st);
                                        break;
                                    }
                                }
                            }
                        });
                        (sid, blk)
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().ok()).collect()
        });
        for (sid, k) in blocks {
            let i = sid as usize % ctl::MAX_SESS;
            c.sess[i] = k.sess[i];
            c.nobs += k.nobs;
            for (a, b) in c.count.iter_mut().zip(k.count.iter()) {
                *a += *b;
            }
            if k.viol != 0 && c.viol == 0 {
                c.viol = k.viol;
                c.msg = k.msg;
                c.msg_len = k.msg_len;
            }
        }
        c.done = 1;
        return;
    }
    if run_sessions_serial(&sessions) {
        c.done = 1;
    }
}

/// the library is about to touch memory it was not given
#[cfg(feature = "watch")]
fn bad_access(b: &hwwatch::Bad) {
    let c = ctl();
    c.viol = 1;
    let what = match b.area {
        "input" if b.allowed == 0 => "an input after the call it was given to, or outside of an empty one".into(),
        "stack" => "of the stack, reaching between two local variables".to_string(),
        a => format!("at offset {} of an {} of {} bytes", b.offset, a, b.allowed),
    };
    ctl::set_msg(&format!(
        "memory-access|step {} in {}: {} {} bytes {}",
        c.cur_step,
        ctl::what(),
        if b.write { "writes" } else { "reads" },
        b.size,
        what
    ));
    #[cfg(unix)]
    unsafe {
        crate::sys::_exit(13)
    }
    #[cfg(target_family = "wasm")]
    core::arch::wasm32::unreachable()
}

pub fn record(v: &Viol, i: usize, st: &Step) {
    let c = ctl();
    if c.viol != 0 {
        return;
    }
    c.viol = 1;
    let mut s = String::new();
    st.print(&mut s);
    ctl::set_msg(&format!("{}|step {}: {} [{}]", v.oracle, i, v.msg, s.trim()));
}
