//! The scheduler that interleaves threads inside library calls.
//!
//! Each session runs on its own OS thread; exactly one thread holds the baton at any time.  While a
//! thread is inside the library it runs with the processor's trap flag set, so a SIGTRAP arrives
//! after every instruction; the handler counts instructions against the quota of the current entry
//! of the plan's schedule and hands the baton over when it is used up.  The interleaving is
//! therefore a function of the schedule alone, down to the single instruction.
//!
//! On a watched machine (see `hwwatch`; aarch64 has no trap flag under an emulator) the unit is the
//! memory access instead of the instruction, and entries of the schedule also say (quota modulo 4)
//! what happens at an access to a writable static, or to a word that several threads have used and one
//! has written: 1 ends the entry there; 3 parks the thread until
//! another one is about to make such an access as well, and then they take turns for a while.
//!
//! Blocking is kept under control too: a futex wait, sched_yield or PAUSE inside the library is
//! turned into a hand-over (watched machine: a thread found asleep inside the library is passed over
//! until it wakes up).

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

pub const MAXT: usize = 16;
const NOBODY: u32 = 0xffff;

static ACTIVE: AtomicU32 = AtomicU32::new(0);
static TURN: AtomicU32 = AtomicU32::new(NOBODY);
static NT: AtomicUsize = AtomicUsize::new(0);
static QUOTA: AtomicU64 = AtomicU64::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static SCHED: AtomicUsize = AtomicUsize::new(0);
static SCHED_LEN: AtomicUsize = AtomicUsize::new(0);
static INSTRS: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static MIDOP_SWITCHES: AtomicU64 = AtomicU64::new(0);
static NESTEDS: AtomicU64 = AtomicU64::new(0);
static SIG: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static DONE: [AtomicU32; MAXT] = [Z; MAXT];
static MID: [AtomicU32; MAXT] = [Z; MAXT];
static STUCK: [AtomicU32; MAXT] = [Z; MAXT];
static MODE: AtomicU32 = AtomicU32::new(0);
/// parked until so many accesses were made (0: not parked)
static PARKED: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
/// shared accesses left of a meeting, each of which ends the entry
static MEETING: AtomicU32 = AtomicU32::new(0);
#[cfg(feature = "watch")]
static TID: [AtomicU32; MAXT] = [Z; MAXT];
/// waits for the baton (and for nothing else)
static WAITING: [AtomicU32; MAXT] = [Z; MAXT];

/// instructions after which a run stops being stepped
static CAP: AtomicU64 = AtomicU64::new(2_000_000);
const RR: u64 = if cfg!(feature = "watch") { 3_000 } else { 50_000 };

thread_local! {
    /// in the middle of a very long step: no hand-overs while nobody else is inside the library
    pub static CALM: Cell<bool> = const { Cell::new(false) };
    static ME: Cell<u32> = const { Cell::new(NOBODY) };
}

#[cfg(feature = "watch")]
fn set_tf() {
    hwwatch::step(true);
}
#[cfg(feature = "watch")]
fn clear_tf() {
    hwwatch::step(false);
}
#[cfg(not(feature = "watch"))]
#[inline(always)]
fn set_tf() {
    unsafe {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
#[cfg(not(feature = "watch"))]
#[inline(always)]
fn clear_tf() {
    unsafe {
        core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}

#[inline(always)]
pub fn lib_enter() {
    if ACTIVE.load(SeqCst) != 0 {
        enter_slow();
    }
}

#[inline(never)]
fn enter_slow() {
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return;
    }
    #[cfg(feature = "watch")]
    back(me);
    MID[me as usize].store(1, SeqCst);
    if !free_run(me) {
        set_tf();
    }
}

/// nothing left to decide: the schedule is used up and no other session is inside the library
fn free_run(me: u32) -> bool {
    if cfg!(feature = "watch") || INSTRS.load(SeqCst) >= CAP.load(SeqCst) {
        return INSTRS.load(SeqCst) >= CAP.load(SeqCst);
    }
    (CALM.with(|c| c.get()) || POS.load(SeqCst) >= SCHED_LEN.load(SeqCst))
        && (0..NT.load(SeqCst))
            .all(|i| i as u32 == me || MID[i].load(SeqCst) == 0 || DONE[i].load(SeqCst) != 0)
}

#[inline(always)]
pub fn lib_leave() {
    if ACTIVE.load(SeqCst) != 0 {
        leave_slow();
    }
}

#[inline(never)]
fn leave_slow() {
    clear_tf();
    let me = ME.with(|m| m.get());
    if me != NOBODY {
        #[cfg(feature = "watch")]
        back(me);
        MID[me as usize].store(0, SeqCst);
    }
}

/// a thread that was passed over while it slept waits for its turn as soon as it is awake
#[cfg(feature = "watch")]
fn back(me: u32) {
    if STUCK[me as usize].load(SeqCst) != 0 {
        wait_turn(me);
    }
}

/// What session threads allocate: each has memory of its own, never used twice, so that it does not
/// depend on how fast other threads start and end which blocks are shared (see `met_before`).
#[cfg(feature = "watch")]
const OWN: usize = 64 << 20;
#[cfg(feature = "watch")]
static OWN_BASE: AtomicUsize = AtomicUsize::new(0);
#[cfg(feature = "watch")]
static OWN_USED: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];

#[cfg(feature = "watch")]
pub fn own_block(l: std::alloc::Layout) -> Option<*mut u8> {
    if ACTIVE.load(SeqCst) == 0 {
        return None;
    }
    let me = ME.try_with(|m| m.get()).unwrap_or(NOBODY) as usize;
    let base = OWN_BASE.load(SeqCst);
    if me >= MAXT || base == 0 {
        return None;
    }
    let at = (OWN_USED[me].load(SeqCst) + l.align() - 1) & !(l.align() - 1);
    if at + l.size() > OWN {
        return None;
    }
    OWN_USED[me].store(at + l.size().max(1), SeqCst);
    Some((base + me * OWN + at) as *mut u8)
}

#[cfg(feature = "watch")]
pub fn is_own(p: *mut u8) -> bool {
    let base = OWN_BASE.load(SeqCst);
    base != 0 && (base..base + MAXT * OWN).contains(&(p as usize))
}

/// has more than one thread used this word, one of them for writing?
#[cfg(feature = "watch")]
fn met_before(word: usize, me: u32, write: bool) -> bool {
    const N: usize = 1 << 15;
    // word << 16 | shared << 15 | written << 14 | thread; which words are known must not depend on
    // where they are, so none is ever replaced
    static SEEN: [AtomicU64; N] = [const { AtomicU64::new(0) }; N];
    static USED: AtomicUsize = AtomicUsize::new(0);
    let id = (word as u64) << 16;
    let mut is = me as u64 | (write as u64) << 14;
    let mut i = crate::rng::mix(word as u64, 5) as usize;
    let e = loop {
        let e = &SEEN[i % N];
        let was = e.load(SeqCst);
        if was & !0xffff == id {
            is |= was & 0xc000;
            if (was as u32 & 0x3fff) != me && is & 0x4000 != 0 {
                is |= 0x8000;
            }
            break e;
        }
        if was == 0 {
            if USED.load(SeqCst) > N * 3 / 4 {
                return false;
            }
            USED.fetch_add(1, SeqCst);
            break e;
        }
        i = i.wrapping_add(1);
    };
    e.store(id | is, SeqCst);
    is & 0x8000 != 0
}

/// before each memory access of the library; -> go on announcing them?
#[cfg(feature = "watch")]
fn on_access(at: usize, write: bool, is_static: bool) -> bool {
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return false;
    }
    back(me);
    let n = INSTRS.fetch_add(1, SeqCst);
    if n >= CAP.load(SeqCst) {
        return false;
    }
    let q = QUOTA.load(SeqCst);
    if q > 0 {
        QUOTA.store(q - 1, SeqCst);
    }
    let mut end = q <= 1;
    if is_static || met_before(at >> 3, me, write) {
        let nt = NT.load(SeqCst);
        if (0..nt).any(|i| i != me as usize && PARKED[i].load(SeqCst) != 0) {
            for p in &PARKED[..nt] {
                p.store(0, SeqCst);
            }
            MEETING.store(24, SeqCst);
        }
        let m = MEETING.load(SeqCst);
        if m > 0 {
            MEETING.store(m - 1, SeqCst);
            end = true;
        } else if MODE.load(SeqCst) == 3 {
            // not for ever: the other might come only after this one's next access
            let d = 1 << (crate::rng::mix(n, SIG.load(SeqCst)) % 14);
            PARKED[me as usize].store(n + d, SeqCst);
            end = true;
        } else {
            end |= MODE.load(SeqCst) == 1;
        }
    }
    if end {
        MIDOP_SWITCHES.fetch_add(1, SeqCst);
        hand_over(me);
        return !free_run(me);
    }
    true
}

#[cfg(not(feature = "watch"))]
extern "C" fn on_trap(_sig: i32, _info: *const u8, uc: *mut core::ffi::c_void) {
    let me = ME.with(|m| m.get());
    if me == NOBODY {
        return;
    }
    let n = INSTRS.fetch_add(1, SeqCst);
    let regs = unsafe { (uc as *mut u8).add(40) as *mut i64 };
    const RAX: usize = 13;
    const RSI: usize = 9;
    const RIP: usize = 16;
    const EFL: usize = 17;
    unsafe {
        let ip = *regs.add(RIP) as *const u8;
        let mut yields = false;
        let b0 = *ip;
        if b0 == 0x0f && *ip.add(1) == 0x05 {
            let nr = *regs.add(RAX);
            let fop = *regs.add(RSI) & 0x7f;
            if nr == 24 || (nr == 202 && (fop == 0 || fop == 9)) {
                *regs.add(RIP) += 2;
                *regs.add(RAX) = if nr == 24 { 0 } else { -11 };
                yields = true;
            }
        } else if b0 == 0xf3 && *ip.add(1) == 0x90 {
            yields = true;
        }
        if n >= CAP.load(SeqCst) {
            *regs.add(EFL) &= !0x100;
            return;
        }
        let q = QUOTA.load(SeqCst);
        if q > 0 {
            QUOTA.store(q - 1, SeqCst);
        }
        if q <= 1 || yields {
            MIDOP_SWITCHES.fetch_add(1, SeqCst);
            hand_over(me);
            if free_run(me) {
                *regs.add(EFL) &= !0x100;
            }
        }
    }
}

#[cfg(feature = "watch")]
fn futex(op: i64, val: u32) {
    let nr = if cfg!(target_arch = "aarch64") { 98 } else { 202 };
    unsafe {
        crate::sys::syscall(nr, TURN.as_ptr(), op as core::ffi::c_long, val as core::ffi::c_long, 0usize, 0usize, 0usize);
    }
}
#[cfg(not(feature = "watch"))]
fn futex(op: i64, val: u32) {
    unsafe {
        let _r: i64;
        core::arch::asm!("syscall", inlateout("rax") 202i64 => _r, in("rdi") TURN.as_ptr(),
            in("rsi") op, in("rdx") val as u64, in("r10") 0u64, in("r8") 0u64, in("r9") 0u64,
            lateout("rcx") _, lateout("r11") _);
    }
}

/// an interrupt handler that uses hashers itself
#[inline(never)]
fn nested(k: u64) {
    use highway::{HighwayBuildHasher, HighwayHash, HighwayHasher, Key};
    use std::hash::{BuildHasher, Hasher};
    const D: [u8; 75] = [0xc3; 75];
    let key = Key([k, 1, k << 32, !k]);
    let mut h = if k & 1 == 0 {
        HighwayHasher::new(key)
    } else {
        HighwayBuildHasher::new(key).build_hasher()
    };
    h.append(&D[..(k as usize * 11) % 75]);
    let _ = std::hint::black_box(Hasher::finish(&h));
    let c = HighwayHasher::from_checkpoint(h.checkpoint());
    h.append(&D[..(k as usize * 7) % 75]);
    std::hint::black_box((h.finalize256(), c.finalize64()));
    NESTEDS.fetch_add(1, SeqCst);
}

fn parked(i: usize) -> bool {
    PARKED[i].load(SeqCst) > INSTRS.load(SeqCst)
}

/// choose who runs next and with what quota
fn next(me: u32) -> Option<(u32, u64)> {
    let nt = NT.load(SeqCst);
    #[cfg(feature = "watch")]
    settle(nt);
    let sched = unsafe {
        core::slice::from_raw_parts(SCHED.load(SeqCst) as *const (u16, u64), SCHED_LEN.load(SeqCst))
    };
    loop {
        let p = POS.load(SeqCst);
        if p >= sched.len() {
            break;
        }
        POS.store(p + 1, SeqCst);
        let (s, q) = sched[p];
        if s == crate::plan::NESTED {
            nested(q);
            continue;
        }
        let s = s as usize;
        if s < nt && DONE[s].load(SeqCst) == 0 && STUCK[s].load(SeqCst) == 0 && !parked(s) {
            PARKED[s].store(0, SeqCst);
            MODE.store(q as u32 & 3, SeqCst);
            return Some((s as u32, q.max(1)));
        }
    }
    // schedule used up: whoever is inside an operation first, in rotation; who is parked, last
    MODE.store(3, SeqCst);
    for pass in 0..3 {
        for d in 1..=nt {
            let i = (me as usize % nt.max(1) + d) % nt;
            if DONE[i].load(SeqCst) == 0
                && STUCK[i].load(SeqCst) == 0
                && (pass == 2 || !parked(i))
                && (pass > 0 || MID[i].load(SeqCst) != 0)
            {
                PARKED[i].store(0, SeqCst);
                return Some((i as u32, if MEETING.load(SeqCst) > 0 { 64 } else { RR }));
            }
        }
    }
    None
}

fn hand_over(me: u32) {
    let Some((n, q)) = next(me) else {
        TURN.store(NOBODY, SeqCst);
        futex(129, i32::MAX as u32);
        return;
    };
    QUOTA.store(q, SeqCst);
    if n == me {
        return;
    }
    SWITCHES.fetch_add(1, SeqCst);
    let at = INSTRS.load(SeqCst);
    SIG.store(crate::rng::mix(SIG.load(SeqCst) ^ at, n as u64), SeqCst);
    TURN.store(n, SeqCst);
    futex(129, i32::MAX as u32);
    wait_turn(me);
}

fn wait_turn(me: u32) {
    WAITING[me as usize].store(1, SeqCst);
    loop {
        let t = TURN.load(SeqCst);
        if t == me || DONE[me as usize].load(SeqCst) != 0 {
            break;
        }
        futex(128, t);
    }
    WAITING[me as usize].store(0, SeqCst);
}

#[cfg(feature = "watch")]
fn gettid() -> u32 {
    let nr = if cfg!(target_arch = "aarch64") { 178 } else { 186 };
    unsafe { crate::sys::syscall(nr) as u32 }
}

/// does this thread sleep, but not for want of the baton?
#[cfg(feature = "watch")]
fn asleep(i: usize) -> bool {
    let st = std::fs::read_to_string(format!("/proc/self/task/{}/stat", TID[i].load(SeqCst)));
    let s = st.is_ok_and(|s| s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S')));
    s && WAITING[i].load(SeqCst) == 0
}

/// Those who were passed over while they slept: who was woken since then takes part again.  (A thread
/// that was woken is not yet where it will wait for the baton; what is decided must not depend on
/// how fast it gets there.)
#[cfg(feature = "watch")]
fn settle(nt: usize) {
    for i in 0..nt {
        let mut sure = 0;
        while STUCK[i].load(SeqCst) != 0 {
            if WAITING[i].load(SeqCst) != 0 {
                STUCK[i].store(0, SeqCst);
            } else if asleep(i) {
                sure += 1;
                if sure > 2 {
                    break;
                }
            } else {
                sure = 0;
                std::thread::yield_now();
            }
        }
    }
}

/// Who holds the baton and sleeps inside the library waits for another thread (a lock, a one-time
/// initialisation): the baton goes to somebody else.  All of them asleep: no progress.
#[cfg(feature = "watch")]
fn pass_over_sleepers(n: usize) {
    let (mut last, mut same, mut dead) = ((0, 0, 0), 0, 0);
    while (0..n).any(|i| DONE[i].load(SeqCst) == 0) {
        std::thread::sleep(std::time::Duration::from_millis(3));
        let t = TURN.load(SeqCst);
        let now = (t, INSTRS.load(SeqCst), POS.load(SeqCst));
        same = if now == last { same + 1 } else { 0 };
        last = now;
        if t == NOBODY {
            // somebody who slept may be awake again
            if let Some((i, q)) = next(0) {
                QUOTA.store(q, SeqCst);
                TURN.store(i, SeqCst);
                futex(129, i32::MAX as u32);
                dead = 0;
            } else {
                dead += 1;
                if dead > 3000 {
                    let c = crate::ctl::ctl();
                    (c.crash_sig, c.crash_in_lib) = (crate::sys::SIGVTALRM as u32, 1);
                    unsafe { crate::sys::_exit(12) }
                }
            }
            continue;
        }
        if same < 5 || t as usize >= n || MID[t as usize].load(SeqCst) == 0 {
            continue;
        }
        if asleep(t as usize) && TURN.load(SeqCst) == t && INSTRS.load(SeqCst) == now.1 {
            STUCK[t as usize].store(1, SeqCst);
            let nx = next(t);
            if let Some((_, q)) = nx {
                QUOTA.store(q, SeqCst);
                SWITCHES.fetch_add(1, SeqCst);
            }
            TURN.store(nx.map_or(NOBODY, |x| x.0), SeqCst);
            futex(129, i32::MAX as u32);
        }
    }
}

pub struct Stats {
    pub instrs: u64,
    pub switches: u64,
    pub midop: u64,
    pub sig: u64,
}

/// Run the sessions `f(0) .. f(n-1)`, one thread each, under `sched`.
pub fn run(n: usize, sched: &[(u16, u64)], cap: u64, f: &(dyn Fn(usize) + Sync)) -> Stats {
    CAP.store(cap, SeqCst);
    assert!(n <= MAXT && n > 0);
    #[cfg(feature = "watch")]
    {
        hwwatch::on_step(on_access);
        if OWN_BASE.load(SeqCst) == 0 {
            OWN_BASE.store(crate::sys::reserve(MAXT * OWN), SeqCst);
        }
    }
    #[cfg(not(feature = "watch"))]
    crate::sys::on_signal(
        crate::sys::SIGTRAP,
        on_trap as *const () as usize,
        crate::sys::SA_SIGINFO,
    );
    if sched.iter().any(|x| x.0 == crate::plan::NESTED) {
        // a handler must not find a one-time initialisation half done: nobody may wait for the
        // thread he interrupted
        nested(0);
        nested(1);
    }
    NT.store(n, SeqCst);
    POS.store(0, SeqCst);
    SCHED.store(sched.as_ptr() as usize, SeqCst);
    SCHED_LEN.store(sched.len(), SeqCst);
    for i in 0..n {
        DONE[i].store(0, SeqCst);
        MID[i].store(0, SeqCst);
        STUCK[i].store(0, SeqCst);
        WAITING[i].store(0, SeqCst);
        PARKED[i].store(0, SeqCst);
    }
    MODE.store(0, SeqCst);
    MEETING.store(0, SeqCst);
    ACTIVE.store(1, SeqCst);
    std::thread::scope(|sc| {
        for i in 0..n {
            sc.spawn(move || {
                ME.with(|m| m.set(i as u32));
                #[cfg(feature = "watch")]
                TID[i].store(gettid(), SeqCst);
                wait_turn(i as u32);
                // (a panic is on record already; the others still get their turn)
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)));
                #[cfg(feature = "watch")]
                back(i as u32);
                DONE[i].store(1, SeqCst);
                ME.with(|m| m.set(NOBODY));
                if let Some((nx, q)) = next(i as u32) {
                    QUOTA.store(q, SeqCst);
                    SWITCHES.fetch_add(1, SeqCst);
                    TURN.store(nx, SeqCst);
                } else {
                    TURN.store(NOBODY, SeqCst);
                }
                futex(129, i32::MAX as u32);
            });
        }
        let (first, q) = next(0).unwrap();
        QUOTA.store(q, SeqCst);
        TURN.store(first, SeqCst);
        futex(129, i32::MAX as u32);
        #[cfg(feature = "watch")]
        pass_over_sleepers(n);
    });
    ACTIVE.store(0, SeqCst);
    Stats {
        instrs: INSTRS.load(SeqCst),
        switches: SWITCHES.load(SeqCst),
        midop: MIDOP_SWITCHES.load(SeqCst),
        sig: SIG.load(SeqCst),
    }
}
