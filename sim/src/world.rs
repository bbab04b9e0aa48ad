//! The simulated deployment that decides what happens to the hashers, when, and what goes wrong.
//!
//! A digest service: clients stream byte streams over a faulty network to worker nodes; a worker
//! feeds what it reads to a hasher, writes checkpoints to a faulty disk, crashes and restarts from
//! what was durable, and has its streams migrated to other workers (whose hashers are of another
//! type).  Observers poll, clone and format the live hashers.  It is a discrete-event simulation
//! driven by one seeded generator; its outcome is a flat `Plan`.  Nothing flows back from the
//! library into the world, so the plan is complete before the library is called.

use crate::exec::{Prop, VIAS, VIA_ONESHOT};
use crate::plan::{gen_key, gen_len, steer_key, Op, Plan, Step, DK_KINDS, DK_RAND, DK_STEER};
use crate::rng::{mix, Rng};
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub const MS: u64 = 1_000_000;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Ev {
    Send(usize, u32),
    Arrive { f: usize, epoch: u32, off: u64, len: u64 },
    Read(usize, u32),
    Ckpt(usize),
    Fsync { f: usize, epoch: u32, ck: u32, off: u64 },
    Crash(usize),
    Restart(usize),
    Migrate(usize),
    Observe(usize),
    Ambient,
    Partition(usize),
    Heal(usize),
    Stall(usize),
    Resume(usize),
    FaultsStop,
}

/// swarm switches: which kinds of trouble this run has
#[derive(Clone, Debug, Default)]
struct Cfg {
    drop: u64,
    dup: u64,
    reorder: bool,
    partition: bool,
    stall: bool,
    crash: bool,
    migrate: bool,
    zombie: bool,
    ckpt: bool,
    cut_align: bool,
    disk: bool,
    torn_used: bool,
    observe: bool,
    clone: bool,
    ambient: bool,
    empties: bool,
    replicas: bool,
    vias: Vec<u8>,
    default_ctor: bool,
    all_default: bool,
    builder: bool,
    probes: bool,
    hugechunk: bool,
    drip: bool,
    slots: Vec<u8>,
    max_total: u64,
    nstreams: u64,
}

struct Node {
    slot: u8,
    up: bool,
    part: bool,
    stalled: bool,
}

struct Flow {
    stream: usize,
    node: usize,
    epoch: u32,
    obj: Option<u32>,
    recv: u64,
    avail: u64,
    sent: u64,
    total: u64,
    ooo: BTreeMap<u64, u64>,
    durable: Vec<(u64, u32)>,
    done: bool,
    last_finish: bool,
    via: u8,
    zombies: Vec<u32>,
    read_scheduled: bool,
    mtu: u64,
    readbuf: u64,
    sess: u16,
}

#[derive(Clone)]
struct Stream {
    key: [u64; 4],
    dk: u8,
    ds: u64,
    total: u64,
    ctor: u8,
}

pub struct World {
    r: Rng,
    cfg: Cfg,
    prop: Prop,
    now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    nodes: Vec<Node>,
    flows: Vec<Flow>,
    streams: Vec<Stream>,
    cuts: Vec<Vec<u64>>,
    steps: Vec<Step>,
    next_obj: u32,
    next_ck: u32,
    faults_on: bool,
    faults: BTreeMap<&'static str, u64>,
    builders: u32,
    finished: usize,
    /// the longest last record
    top: u64,
    marathon: bool,
}

/// a machine's limits on what is worth generating (emulated machines get smaller worlds)
#[derive(Clone, Copy)]
pub struct Scale {
    pub max_total: u64,
    pub huge: u64,
    /// how many runs in a thousand have streams of up to `huge` bytes
    pub hugepm: u64,
    /// stop generating after this many steps
    pub max_steps: usize,
    /// whether threads can be interleaved inside operations
    pub threads: bool,
}

impl World {
    fn at(&mut self, dt: u64, e: Ev) {
        self.seq += 1;
        self.heap.push(Reverse((self.now + dt, self.seq, e)));
    }
    fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    fn emit(&mut self, sess: u16, why: &'static str, mut s: Step) {
        s.t = self.now;
        s.s = sess;
        s.why = Cow::Borrowed(why);
        self.steps.push(s);
    }
    fn chance(&mut self, n: u64, d: u64) -> bool {
        self.r.chance(n, d)
    }
    fn latency(&mut self) -> u64 {
        match self.r.below(10) {
            0..=5 => self.r.range(50_000, 300_000),
            6..=8 => self.r.range(300_000, 3 * MS),
            _ => self.r.range(3 * MS, 40 * MS),
        }
    }

    fn start_obj(&mut self, f: usize, why: &'static str) {
        let o = self.next_obj;
        self.next_obj += 1;
        let st = self.streams[self.flows[f].stream].clone();
        let slot = self.nodes[self.flows[f].node].slot;
        let sess = self.flows[f].sess;
        let mut s;
        if self.cfg.builder && slot == 3 && self.builders > 0 && st.ctor == 9 {
            s = Step::new(Op::BNew);
            s.p = self.flows[f].stream as u32 % self.builders;
        } else {
            s = Step::new(Op::New);
            s.slot = slot;
            s.arg = (st.ctor % 3) as u64;
            s.key = st.key;
        }
        s.o = o;
        self.emit(sess, why, s);
        let fl = &mut self.flows[f];
        fl.obj = Some(o);
        fl.recv = 0;
    }

    fn node_ok(&self, n: usize) -> bool {
        self.nodes[n].up && !self.nodes[n].part
    }

    fn feed(&mut self, f: usize, len: u64, why: &'static str) {
        let st = self.streams[self.flows[f].stream].clone();
        let Some(o) = self.flows[f].obj else { return };
        // a stream that arrives byte by byte
        let drip = self.cfg.drip && len > 40 && len < 20_000 && self.chance(1, 3);
        let mut s = Step::new(if drip { Op::Drip } else { Op::Append });
        s.o = o;
        s.dk = st.dk;
        s.ds = st.ds;
        s.off = self.flows[f].recv;
        s.len = len;
        s.via = if self.chance(1, 4) {
            let v = self.cfg.vias.clone();
            *self.r.pick(&v)
        } else {
            self.flows[f].via
        };
        s.arg = self.r.next() >> 32;
        s.al = self.r.below(64) as u8;
        let sess = self.flows[f].sess;
        self.emit(sess, why, s);
        self.flows[f].recv += len;
    }

    fn take_ckpt(&mut self, f: usize, why: &'static str) -> Option<u32> {
        let o = self.flows[f].obj?;
        let c = self.next_ck;
        self.next_ck += 1;
        let mut s = Step::new(Op::Ckpt);
        s.o = o;
        s.p = c;
        let sess = self.flows[f].sess;
        self.emit(sess, why, s);
        Some(c)
    }

    fn lose_obj(&mut self, f: usize, why: &'static str) {
        if let Some(o) = self.flows[f].obj.take() {
            let mut s = Step::new(Op::Drop);
            s.o = o;
            let sess = self.flows[f].sess;
            self.emit(sess, why, s);
        }
    }

    /// the connection is gone: what was in flight or buffered is lost, the client starts again
    /// from `off`
    fn reconnect(&mut self, f: usize, off: u64) {
        let fl = &mut self.flows[f];
        fl.epoch += 1;
        fl.recv = off;
        fl.avail = off;
        fl.sent = off;
        fl.ooo.clear();
        fl.read_scheduled = false;
        let e = fl.epoch;
        let d = self.latency();
        self.at(d, Ev::Send(f, e));
        if self.flows[f].total == off {
            self.sched_read(f);
        }
    }

    fn sched_read(&mut self, f: usize) {
        if !self.flows[f].read_scheduled {
            self.flows[f].read_scheduled = true;
            let e = self.flows[f].epoch;
            let d = if self.chance(1, 3) { self.r.range(1, 10) * MS } else { self.r.range(1_000, 200_000) };
            self.at(d, Ev::Read(f, e));
        }
    }

    fn corrupted(&mut self, sess: u16, from: u32) -> u32 {
        let c = self.next_ck;
        self.next_ck += 1;
        let mut s = Step::new(Op::Corrupt);
        s.o = c;
        s.p = from;
        s.arg = self.r.below(13);
        s.off = self.r.next() >> 40;
        s.ds = self.r.next();
        let kind = ["bitflip", "torn", "losttail", "len32", "lensmall", "lenrandom", "lenspecial", "garbage", "pattern", "misplaced", "erased", "extremelanes", "staletail"][s.arg as usize];
        self.fault(kind);
        self.emit(sess, kind, s);
        c
    }

    fn recover(&mut self, f: usize, why: &'static str) {
        // newest durable version that passes the (simulated) integrity check
        let sess = self.flows[f].sess;
        loop {
            let Some((off, ck)) = self.flows[f].durable.last().copied() else {
                self.start_obj(f, why);
                self.reconnect(f, 0);
                return;
            };
            let bad = self.cfg.disk && self.faults_on && self.chance(1, 6);
            let mut use_ck = ck;
            if bad || (self.cfg.torn_used && self.chance(2, 3)) {
                if self.cfg.torn_used {
                    use_ck = self.corrupted(sess, ck);
                } else {
                    self.fault("disk-unreadable-version");
                    self.flows[f].durable.pop();
                    continue;
                }
            }
            let o = self.next_obj;
            self.next_obj += 1;
            let mut s = Step::new(Op::Restore);
            s.o = o;
            s.p = use_ck;
            s.slot = self.nodes[self.flows[f].node].slot;
            s.arg = self.r.below(2);
            self.emit(sess, why, s);
            self.flows[f].obj = Some(o);
            self.reconnect(f, off);
            return;
        }
    }

    fn observe(&mut self, f: usize) {
        let Some(o) = self.flows[f].obj else { return };
        let sess = self.flows[f].sess;
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let k = self.r.below(12);
            match k {
                0..=2 => {
                    let mut s = Step::new(Op::Finish);
                    s.o = o;
                    self.emit(sess, "poll", s);
                }
                3 => {
                    let mut s = Step::new(Op::Debug);
                    s.o = o;
                    s.arg = self.r.below(7);
                    s.len = self.r.below(200);
                    if s.arg == 2 {
                        self.fault("sink-failure");
                    }
                    self.emit(sess, "log", s);
                }
                4 | 5 => {
                    self.take_ckpt(f, "poll");
                }
                6 | 7 if self.cfg.clone => {
                    let c = self.next_obj;
                    self.next_obj += 1;
                    let mut s = Step::new(Op::Clone);
                    s.o = c;
                    s.p = o;
                    self.emit(sess, "fork", s);
                    self.flows[f].zombies.push(c);
                    if self.chance(1, 3) {
                        // the copy becomes the primary
                        self.flows[f].zombies.pop();
                        self.flows[f].zombies.push(o);
                        self.flows[f].obj = Some(c);
                        return;
                    }
                }
                8 if self.cfg.probes => {
                    let mut s = Step::new(Op::Probe);
                    s.o = o;
                    s.w = self.r.below(3) as u8;
                    s.arg = self.r.next() >> 40;
                    self.emit(sess, "audit", s);
                }
                9 => {
                    let mut s = Step::new(Op::Move);
                    s.o = o;
                    self.emit(sess, "move", s);
                }
                10 => {
                    let mut s = Step::new(Op::Flush);
                    s.o = o;
                    self.emit(sess, "flush", s);
                }
                11 if self.cfg.clone && !self.flows[f].zombies.is_empty() => {
                    let z = self.flows[f].zombies.clone();
                    let z = *self.r.pick(&z);
                    let mut s = Step::new(Op::CloneFrom);
                    s.o = z;
                    s.p = o;
                    self.emit(sess, "resync", s);
                }
                _ => {
                    let mut s = Step::new(Op::Finish);
                    s.o = o;
                    self.emit(sess, "poll", s);
                }
            }
        }
        self.touch_zombies(f);
    }

    /// instances left behind by forks and migrations go on receiving other data
    fn touch_zombies(&mut self, f: usize) {
        let zs = self.flows[f].zombies.clone();
        let sess = self.flows[f].sess;
        for z in zs {
            if self.chance(1, 2) {
                let mut s = Step::new(Op::Append);
                s.o = z;
                s.dk = DK_RAND;
                s.ds = self.r.next();
                s.len = gen_len(&mut self.r).min(200);
                let v = self.cfg.vias.clone();
                s.via = *self.r.pick(&v);
                s.arg = self.r.next() >> 32;
                s.al = self.r.below(64) as u8;
                self.emit(sess, "zombie", s);
            }
            if self.chance(1, 8) {
                let mut s = Step::new(Op::Final);
                s.o = z;
                s.w = self.r.below(3) as u8;
                s.arg = self.r.next() >> 40;
                if self.chance(1, 4) {
                    s.ds = self.r.next();
                    self.last_record(&mut s);
                }
                self.emit(sess, "zombie-end", s);
                self.flows[f].zombies.retain(|&x| x != z);
            }
        }
    }

    fn ambient(&mut self) {
        let sess = (self.flows.len() as u64 + self.r.below(2)) as u16;
        let k = self.r.below(if self.cfg.builder { 8 } else { 4 });
        let nslot = self.cfg.slots.clone();
        match k {
            0..=2 => {
                let mut s = Step::new(Op::OneShot);
                s.slot = *self.r.pick(&nslot);
                s.key = gen_key(&mut self.r);
                s.dk = if self.chance(1, 2) { DK_RAND } else { self.r.below(DK_KINDS) as u8 };
                s.ds = self.r.next();
                if self.chance(1, 4) {
                    s.dk = DK_STEER;
                    s.key = steer_key(s.ds);
                }
                s.len = gen_len(&mut self.r).min(self.cfg.max_total);
                s.w = self.r.below(3) as u8;
                s.al = self.r.below(64) as u8;
                s.arg = self.r.next() >> 40;
                self.emit(sess, "request", s);
            }
            3 => {
                let mut s = Step::new(Op::Churn);
                s.slot = *self.r.pick(&nslot);
                s.key = gen_key(&mut self.r);
                s.len = if self.chance(1, 40) { 3000.min(self.cfg.max_total) } else { self.r.range(2, 40).min(self.cfg.max_total / 10 + 1) };
                s.ds = self.r.next();
                if s.ds % 512 == 5 && self.cfg.max_total >= 2000 {
                    s.len = 66_000 + (s.ds >> 8) % 6_000;
                    s.arg = 1;
                }
                self.emit(sess, "churn", s);
            }
            4..=6 => {
                let mut s = Step::new(Op::HashOne);
                s.p = self.r.below(self.builders.max(1) as u64) as u32;
                s.ds = self.r.next();
                self.emit(sess, "lookup", s);
            }
            _ => {
                let mut s = Step::new(Op::Map);
                s.p = self.r.below(self.builders.max(1) as u64) as u32;
                s.ds = self.r.next();
                s.len = self.r.range(3, 60).min(self.cfg.max_total / 10);
                self.emit(sess, "collection", s);
            }
        }
    }

    fn finish(&mut self, f: usize) {
        let Some(o) = self.flows[f].obj.take() else { return };
        let sess = self.flows[f].sess;
        if self.cfg.observe && self.flows[f].last_finish {
            let mut s = Step::new(Op::Finish);
            s.o = o;
            self.emit(sess, "poll", s);
        }
        if self.marathon && self.chance(1, 300) {
            // a client that goes on for very long, a byte at a time
            let st = &self.streams[self.flows[f].stream];
            let mut s = Step::new(Op::Drip);
            s.o = o;
            (s.dk, s.ds, s.off) = (st.dk, st.ds, self.flows[f].recv);
            s.len = self.r.range(66_000, 80_000);
            s.w = 1;
            s.via = self.flows[f].via;
            s.arg = self.r.next() >> 32;
            s.al = self.r.below(64) as u8;
            self.fault("slow-client");
            self.flows[f].recv += s.len;
            self.emit(sess, "byte-by-byte", s);
        }
        let mut s = Step::new(Op::Final);
        s.o = o;
        s.w = self.r.below(3) as u8;
        s.arg = self.r.next() >> 40;
        if self.chance(1, 4) {
            // a last record, hashed by the consuming one-shot helper
            let st = &self.streams[self.flows[f].stream];
            (s.dk, s.ds, s.off) = (st.dk, st.ds, self.flows[f].recv);
            self.last_record(&mut s);
        }
        self.emit(sess, "complete", s);
        for z in std::mem::take(&mut self.flows[f].zombies) {
            let mut s = Step::new(Op::Final);
            s.o = z;
            s.w = self.r.below(3) as u8;
            s.arg = self.r.next() >> 40;
            self.emit(sess, "zombie-end", s);
        }
        self.flows[f].done = true;
        self.finished += 1;
    }

    fn last_record(&mut self, s: &mut Step) {
        s.via = VIA_ONESHOT;
        s.len = if self.chance(1, 8) { 0 } else { gen_len(&mut self.r).min(self.top) };
        s.al = self.r.below(64) as u8;
    }

    fn handle(&mut self, e: Ev) {
        match e {
            Ev::Send(f, ep) => {
                let fl = &self.flows[f];
                if fl.done || fl.epoch != ep || fl.sent >= fl.total {
                    return;
                }
                let off = fl.sent;
                let left = fl.total - off;
                let n = match self.r.below(6) {
                    0 => 1,
                    1 => self.r.range(1, 33),
                    2 => 32,
                    _ => self.flows[f].mtu,
                }
                .min(left)
                .max(1);
                self.flows[f].sent += n;
                let mut d = self.latency();
                if !self.cfg.reorder {
                    d = 100_000;
                }
                // loss and retransmission
                while self.faults_on && self.cfg.drop > 0 && self.chance(self.cfg.drop, 100) {
                    self.fault("net-drop");
                    d += 30 * MS;
                }
                if d > 3 * MS {
                    self.fault("net-delay");
                }
                self.at(d, Ev::Arrive { f, epoch: ep, off, len: n });
                if self.faults_on && self.cfg.dup > 0 && self.chance(self.cfg.dup, 100) {
                    self.fault("net-dup");
                    let d2 = d + self.latency();
                    // a duplicate may be resegmented
                    let cutat = self.r.below(n) + 1;
                    self.at(d2, Ev::Arrive { f, epoch: ep, off, len: cutat });
                }
                let gap = match self.r.below(8) {
                    0 => self.r.range(1, 20) * MS,
                    1..=3 => 1_000,
                    _ => self.r.range(10_000, 400_000),
                };
                self.at(gap, Ev::Send(f, ep));
            }
            Ev::Arrive { f, epoch, off, len } => {
                let fl = &self.flows[f];
                if fl.done {
                    return;
                }
                if fl.epoch != epoch {
                    self.fault("net-stale");
                    return;
                }
                if !self.node_ok(fl.node) {
                    self.fault("net-unreachable");
                    self.at(30 * MS, Ev::Arrive { f, epoch, off, len });
                    return;
                }
                let avail = fl.avail;
                if off + len <= avail {
                    return; // duplicate
                }
                if off > avail {
                    self.fault("net-reorder");
                    let e = self.flows[f].ooo.entry(off).or_insert(0);
                    *e = (*e).max(len);
                    return;
                }
                self.flows[f].avail = off + len;
                // drain the reorder buffer
                loop {
                    let a = self.flows[f].avail;
                    let nx = self.flows[f].ooo.iter().next().map(|(&o, &l)| (o, l));
                    match nx {
                        Some((o, l)) if o <= a => {
                            self.flows[f].ooo.remove(&o);
                            self.flows[f].avail = a.max(o + l);
                        }
                        _ => break,
                    }
                }
                self.sched_read(f);
            }
            Ev::Read(f, ep) => {
                if self.flows[f].done || self.flows[f].epoch != ep {
                    return;
                }
                let n = self.flows[f].node;
                if !self.nodes[n].up {
                    return;
                }
                self.flows[f].read_scheduled = false;
                if self.nodes[n].stalled {
                    self.flows[f].read_scheduled = true;
                    self.at(5 * MS, Ev::Read(f, ep));
                    return;
                }
                if self.flows[f].obj.is_none() {
                    return;
                }
                if self.cfg.empties && self.chance(1, 6) {
                    self.fault("spurious-wakeup");
                    self.feed(f, 0, "spurious-wakeup");
                }
                let mut budget = self.r.range(1, 6);
                while budget > 0 {
                    budget -= 1;
                    let (recv, avail) = (self.flows[f].recv, self.flows[f].avail);
                    if recv >= avail {
                        break;
                    }
                    let mut len = (avail - recv).min(self.flows[f].readbuf);
                    if self.chance(1, 8) && len > 1 {
                        self.fault("short-read");
                        len = self.r.range(1, len);
                    }
                    // a checkpoint offset shared by all replicas of the stream
                    let cut = self.cuts[self.flows[f].stream].iter().copied().find(|&c| c > recv && c <= recv + len);
                    if let Some(c) = cut {
                        len = c - recv;
                    }
                    self.feed(f, len, "deliver");
                    if cut.is_some() && self.cfg.cut_align {
                        if let Some(ck) = self.take_ckpt(f, "barrier") {
                            let off = self.flows[f].recv;
                            self.after_take(f, ck, off);
                        }
                    }
                }
                if self.flows[f].recv >= self.flows[f].total {
                    self.finish(f);
                } else if self.flows[f].recv < self.flows[f].avail {
                    self.sched_read(f);
                }
            }
            Ev::Ckpt(f) => {
                if self.flows[f].done {
                    return;
                }
                let n = self.flows[f].node;
                if self.nodes[n].up && !self.nodes[n].stalled {
                    if let Some(c) = self.take_ckpt(f, "periodic") {
                        let off = self.flows[f].recv;
                        self.after_take(f, c, off);
                    }
                }
                let d = self.r.range(1, 20) * MS;
                self.at(d, Ev::Ckpt(f));
            }
            Ev::Fsync { f, epoch, ck, off } => {
                let _ = epoch;
                if self.flows[f].done {
                    return;
                }
                self.flows[f].durable.push((off, ck));
                if self.flows[f].durable.len() > 4 {
                    self.flows[f].durable.remove(0);
                }
            }
            Ev::Crash(n) => {
                if !self.faults_on || !self.nodes[n].up {
                    return;
                }
                self.fault("crash");
                self.nodes[n].up = false;
                for f in 0..self.flows.len() {
                    if self.flows[f].node == n && !self.flows[f].done {
                        self.lose_obj(f, "crash");
                        for z in std::mem::take(&mut self.flows[f].zombies) {
                            let mut s = Step::new(Op::Drop);
                            s.o = z;
                            let sess = self.flows[f].sess;
                            self.emit(sess, "crash", s);
                        }
                        self.flows[f].epoch += 1;
                        self.flows[f].read_scheduled = false;
                    }
                }
                let d = self.r.range(1, 80) * MS;
                self.at(d, Ev::Restart(n));
                let d = self.r.range(20, 300) * MS;
                self.at(d, Ev::Crash(n));
            }
            Ev::Restart(n) => {
                self.nodes[n].up = true;
                // the node may come back as a different machine
                if self.cfg.migrate && self.chance(1, 2) {
                    let v = self.cfg.slots.clone();
                    self.nodes[n].slot = *self.r.pick(&v);
                    self.fault("replaced-node");
                }
                for f in 0..self.flows.len() {
                    if self.flows[f].node == n && !self.flows[f].done {
                        self.recover(f, "restart");
                    }
                }
            }
            Ev::Migrate(f) => {
                if self.flows[f].done || !self.faults_on {
                    return;
                }
                let d = self.r.range(2, 40) * MS;
                self.at(d, Ev::Migrate(f));
                let n = self.flows[f].node;
                let to = self.r.below(self.nodes.len() as u64) as usize;
                if !self.node_ok(n) || !self.node_ok(to) || self.flows[f].obj.is_none() {
                    return;
                }
                let Some(mut ck) = self.take_ckpt(f, "migrate") else { return };
                self.fault("migrate");
                let sess = self.flows[f].sess;
                let old = self.flows[f].obj.take();
                if self.cfg.torn_used && self.chance(1, 2) {
                    ck = self.corrupted(sess, ck);
                }
                let o = self.next_obj;
                self.next_obj += 1;
                let mut s = Step::new(Op::Restore);
                s.o = o;
                s.p = ck;
                s.slot = self.nodes[to].slot;
                s.arg = self.r.below(2);
                self.emit(sess, "migrate", s);
                self.flows[f].obj = Some(o);
                self.flows[f].node = to;
                if let Some(old) = old {
                    if self.cfg.zombie && self.chance(1, 3) {
                        self.fault("zombie");
                        self.flows[f].zombies.push(old);
                    } else {
                        let mut s = Step::new(Op::Drop);
                        s.o = old;
                        self.emit(sess, "migrate", s);
                    }
                }
                let off = self.flows[f].recv;
                if self.chance(1, 2) {
                    self.reconnect(f, off);
                } else {
                    // the connection moves with the stream
                    self.sched_read(f);
                }
                self.touch_zombies(f);
            }
            Ev::Observe(f) => {
                if self.flows[f].done {
                    return;
                }
                if self.nodes[self.flows[f].node].up {
                    self.observe(f);
                }
                let d = self.r.range(1, 15) * MS;
                self.at(d, Ev::Observe(f));
            }
            Ev::Ambient => {
                self.ambient();
                if self.finished < self.flows.len() {
                    let d = self.r.range(1, 30) * MS;
                    self.at(d, Ev::Ambient);
                }
            }
            Ev::Partition(n) => {
                if self.faults_on {
                    self.fault("partition");
                    self.nodes[n].part = true;
                    let d = self.r.range(5, 100) * MS;
                    self.at(d, Ev::Heal(n));
                }
            }
            Ev::Heal(n) => {
                self.nodes[n].part = false;
                let d = self.r.range(20, 200) * MS;
                self.at(d, Ev::Partition(n));
            }
            Ev::Stall(n) => {
                if self.faults_on {
                    self.fault("stall");
                    self.nodes[n].stalled = true;
                    let d = self.r.range(2, 60) * MS;
                    self.at(d, Ev::Resume(n));
                }
            }
            Ev::Resume(n) => {
                self.nodes[n].stalled = false;
                let d = self.r.range(10, 200) * MS;
                self.at(d, Ev::Stall(n));
            }
            Ev::FaultsStop => {
                self.faults_on = false;
            }
        }
    }

    fn after_take(&mut self, f: usize, ck: u32, off: u64) {
        if !self.cfg.ckpt {
            return;
        }
        if self.cfg.disk && self.faults_on {
            match self.r.below(12) {
                0 => {
                    self.fault("disk-enospc");
                    return;
                }
                1 => {
                    self.fault("disk-lost-write");
                    return;
                }
                2 => {
                    self.fault("disk-slow");
                    let epoch = self.flows[f].epoch;
                    let d = self.r.range(20, 200) * MS;
                    self.at(d, Ev::Fsync { f, epoch, ck, off });
                    return;
                }
                _ => {}
            }
        }
        let epoch = self.flows[f].epoch;
        let d = self.r.range(100_000, 4 * MS);
        self.at(d, Ev::Fsync { f, epoch, ck, off });
    }
}

fn config(prop: Prop, r: &mut Rng, sc: Scale) -> Cfg {
    let most = if sc.max_steps < 100 { 1 } else { 3 };
    let mut c = Cfg { max_total: sc.max_total, nstreams: r.range(1, most), ..Cfg::default() };
    let huge = sc.huge > 0 && r.chance(sc.hugepm, 1000);
    // swarm: independent switches
    let mut sw = |n: u64| r.chance(n, 100);
    c.drop = if sw(50) { 15 } else { 0 };
    c.dup = if sw(40) { 20 } else { 0 };
    c.reorder = sw(60);
    c.partition = sw(25);
    c.stall = sw(35);
    c.empties = sw(45);
    c.disk = sw(50);
    c.crash = sw(55);
    c.migrate = sw(60);
    c.zombie = sw(40);
    c.ckpt = sw(75);
    c.cut_align = sw(50);
    c.observe = sw(40);
    c.clone = sw(50);
    c.ambient = sw(20);
    c.replicas = sw(30);
    c.probes = sw(70);
    c.default_ctor = sw(15);
    c.builder = sw(30);
    c.hugechunk = huge;
    c.drip = sw(12);
    c.slots = vec![0, 1, 2, 3];
    if sw(25) {
        let k = r.below(4) as u8;
        c.slots = vec![k];
    }
    let mut sw = |n: u64| r.chance(n, 100);
    c.vias = if sw(40) { vec![0] } else { (0..VIAS as u8).collect() };
    match prop {
        Prop::C05 => {
            c.crash = false;
            c.migrate = false;
            c.ckpt = false;
            c.cut_align = false;
            c.observe = false;
            c.ambient = sw(30);
            c.builder = false;
        }
        Prop::C06 => {
            c.ckpt = true;
            c.crash = c.crash || !c.migrate;
            c.default_ctor = false;
            c.builder = false;
            c.clone = false;
        }
        Prop::C02 => {
            c.vias = vec![0];
            c.slots = vec![1, 2, 3];
            c.crash = false;
            c.migrate = false;
            c.ckpt = false;
            c.default_ctor = false;
            c.builder = false;
            c.clone = false;
            c.ambient = sw(60);
        }
        Prop::C01 => {
            c.slots = vec![0];
            c.crash = false;
            c.migrate = false;
            c.ckpt = false;
            c.default_ctor = false;
            c.builder = false;
            c.ambient = sw(70);
            c.zombie = sw(20);
        }
        Prop::C07 => {
            c.default_ctor = true;
            c.all_default = true;
            c.builder = sw(30);
            c.observe = true;
            c.probes = true;
        }
        Prop::C03 | Prop::C04 => {
            c.vias = vec![0];
            c.slots = vec![0, 1, 3, 1];
            c.default_ctor = false;
            c.builder = false;
            c.clone = false;
            c.ambient = sw(50);
        }
        Prop::C17 => {
            c.vias = vec![0];
            c.slots = vec![0];
            c.default_ctor = false;
            c.builder = false;
            c.migrate = true;
            c.ambient = sw(50);
            c.observe = true;
            c.torn_used = sw(20);
        }
        Prop::C08 | Prop::C18 => {
            c.torn_used = sw(40);
            c.ambient = sw(50);
        }
        Prop::C09 => {
            c.ambient = sw(60);
            c.torn_used = sw(25);
        }
        Prop::C10 => {
            c.vias = vec![0];
            c.slots = if sw(60) { vec![3] } else { vec![3, 0, 1, 2, 3] };
            c.default_ctor = sw(50);
            c.builder = true;
            c.observe = true;
            c.clone = true;
            c.ambient = sw(50);
            c.migrate = true;
        }
        Prop::C11 => {
            c.torn_used = true;
            c.ckpt = true;
            c.crash = true;
            c.migrate = sw(70);
            c.vias = vec![0, 0, 0, 1, 2];
            c.observe = sw(70);
            c.builder = false;
            c.empties = sw(70);
        }
        Prop::C12 => {
            c.vias = (1..VIAS as u8).collect();
            c.builder = true;
            c.ambient = true;
            c.observe = true;
            c.clone = false;
            c.crash = sw(20);
            c.migrate = sw(20);
        }
        Prop::C13 => {
            c.observe = true;
            c.clone = true;
            c.probes = true;
        }
        Prop::C14 => {
            c.cut_align = true;
            c.replicas = sw(70);
            c.default_ctor = false;
            c.builder = false;
            c.observe = sw(50);
            c.probes = true;
        }
        Prop::C15 => {
            c.ambient = sw(60);
            c.builder = sw(60);
            c.observe = sw(70);
        }
    }
    c
}

pub fn generate(prop: Prop, seed: u64, sc: Scale) -> Plan {
    if prop == Prop::C01 && seed % 64 == 0 {
        assert!(crate::model::self_test(), "the reference model does not give the published results");
    }
    let mut r = Rng::new(mix(seed, prop as u64 + 1));
    if prop == Prop::C15 && (seed % 4 != 0 || cfg!(miri)) {
        if cfg!(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch"))) {
            return small_sessions(seed, &mut r, true);
        }
        if seed % 4 == 1 || cfg!(miri) {
            return small_sessions(seed, &mut r, false);
        }
    }
    // the same for properties that a race could break on a single hasher's way (a cached processor
    // detection, a builder used by several threads)
    let every = match prop {
        Prop::C10 => 128,
        Prop::C02 | Prop::C06 | Prop::C07 | Prop::C12 => 512,
        _ => 0,
    };
    if cfg!(all(unix, not(miri), any(target_arch = "x86_64", feature = "watch")))
        && sc.threads
        && every > 0
        && seed % every == 9
    {
        let mut p = small_sessions(seed, &mut r, true);
        p.prop = prop.name().into();
        return p;
    }
    let mut cfg = config(prop, &mut r, sc);
    if prop == Prop::C15 {
        cfg.nstreams = r.range(2, 6);
    }
    let nn = r.range(2, 4) as usize;
    let nodes = (0..nn)
        .map(|_| Node { slot: *r.pick(&cfg.slots), up: true, part: false, stalled: false })
        .collect();
    let mut streams = Vec::new();
    let mut cuts = Vec::new();
    for _ in 0..cfg.nstreams {
        let total = match r.below(20) {
            0 => gen_len(&mut r),
            1..=12 => gen_len(&mut r) + gen_len(&mut r) % 200,
            13..=16 => r.range(200, 2500),
            17 | 18 => r.range(2500, 9000),
            _ => r.range(9000, 70_000),
        }
        .min(cfg.max_total);
        let total = if cfg.hugechunk && sc.huge > 0 { r.range(sc.huge / 4, sc.huge) } else { total };
        let ctor = match r.below(8) {
            0..=2 | 6 | 7 if cfg.all_default => 1,
            0 if cfg.default_ctor => 1,
            1 | 2 => 2,
            3..=5 if cfg.builder => 9,
            _ => 0,
        };
        let ds = r.next();
        let steer = r.chance(1, 6);
        streams.push(Stream {
            key: if steer { steer_key(ds) } else { gen_key(&mut r) },
            dk: match r.below(3) {
                _ if steer => DK_STEER,
                0 => r.below(DK_KINDS) as u8,
                _ => DK_RAND,
            },
            ds,
            total,
            ctor,
        });
        let mut cs: Vec<u64> = Vec::new();
        if cfg.cut_align {
            for _ in 0..r.range(1, 5) {
                let mut x = r.below(total + 1);
                if r.chance(1, 3) {
                    x = x / 32 * 32;
                }
                if x > 0 {
                    cs.push(x);
                }
            }
            cs.sort_unstable();
            cs.dedup();
        }
        cuts.push(cs);
    }
    let mut w = World {
        prop,
        now: 0,
        seq: 0,
        heap: BinaryHeap::new(),
        nodes,
        flows: Vec::new(),
        streams,
        cuts,
        steps: Vec::new(),
        next_obj: 1,
        next_ck: 1,
        faults_on: true,
        faults: BTreeMap::new(),
        builders: 0,
        finished: 0,
        top: sc.max_total,
        marathon: sc.huge >= 2_000_000,
        r,
        cfg,
    };
    if w.cfg.builder {
        w.builders = w.r.range(1, 3) as u32;
        for b in 0..w.builders {
            let mut s = Step::new(Op::Build);
            s.p = b;
            s.arg = w.r.below(6) / 5;
            s.key = gen_key(&mut w.r);
            w.emit(0, "setup", s);
        }
    }
    for si in 0..w.streams.len() {
        let reps = if w.cfg.replicas { w.r.range(2, 3) } else { 1 };
        for _ in 0..reps {
            let v = w.cfg.vias.clone();
            let via = *w.r.pick(&v);
            let total = w.streams[si].total;
            let big = total > 200_000;
            let mtu = if big { total } else { *w.r.pick(&[1, 7, 16, 32, 33, 64, 100, 536, 1460, 9000, 65_536]) };
            let mtu = mtu.max(total / 60 + 1);
            let readbuf = if big && w.chance(1, 2) {
                total
            } else {
                *w.r.pick(&[1, 3, 16, 31, 32, 33, 64, 100, 4096, 8192, 65_536, 1 << 20])
            };
            let readbuf = readbuf.max(total / 80 + 1);
            let node = w.r.below(w.nodes.len() as u64) as usize;
            let f = w.flows.len();
            let last_finish = w.chance(1, 2);
            w.flows.push(Flow {
                stream: si,
                node,
                epoch: 0,
                obj: None,
                recv: 0,
                avail: 0,
                sent: 0,
                total,
                ooo: BTreeMap::new(),
                durable: Vec::new(),
                done: false,
                last_finish,
                via,
                zombies: Vec::new(),
                read_scheduled: false,
                mtu,
                readbuf,
                sess: f as u16,
            });
            w.start_obj(f, "connect");
            let d = w.r.range(0, 3 * MS);
            w.at(d, Ev::Send(f, 0));
            if total == 0 {
                w.sched_read(f);
            }
            if w.cfg.ckpt {
                let d = w.r.range(1, 12) * MS;
                w.at(d, Ev::Ckpt(f));
            }
            if w.cfg.migrate {
                let d = w.r.range(1, 30) * MS;
                w.at(d, Ev::Migrate(f));
            }
            if w.cfg.observe {
                let d = w.r.range(1, 8) * MS;
                w.at(d, Ev::Observe(f));
            }
        }
    }
    for n in 0..w.nodes.len() {
        if w.cfg.crash {
            let d = w.r.range(1, 60) * MS;
            w.at(d, Ev::Crash(n));
        }
        if w.cfg.partition {
            let d = w.r.range(1, 100) * MS;
            w.at(d, Ev::Partition(n));
        }
        if w.cfg.stall {
            let d = w.r.range(1, 60) * MS;
            w.at(d, Ev::Stall(n));
        }
    }
    if w.cfg.ambient {
        w.at(MS, Ev::Ambient);
        w.at(2 * MS, Ev::Ambient);
    }
    // faults stop eventually; from then on every stream must complete
    let stop = w.r.range(20, 400) * MS;
    w.at(stop, Ev::FaultsStop);
    let mut n = 0;
    while let Some(Reverse((t, _, e))) = w.heap.pop() {
        w.now = t;
        n += 1;
        if w.finished == w.flows.len() || n > 20_000 || w.steps.len() > sc.max_steps {
            break;
        }
        w.handle(e);
    }
    // whatever is still live is shut down in an orderly way
    for f in 0..w.flows.len() {
        if !w.flows[f].done {
            w.finish(f);
        }
    }
    // observers on several threads at once, somewhere along the way
    if prop == Prop::C13 && (w.r.chance(1, if cfg!(feature = "watch") { 8 } else { 40 }) || cfg!(miri)) {
        for _ in 0..w.r.range(1, 2) {
            let at: Vec<usize> = (0..w.steps.len()).filter(|&i| w.steps[i].op == Op::Append).collect();
            if at.is_empty() {
                break;
            }
            let i = *w.r.pick(&at);
            let mut st = Step::new(Op::Share);
            (st.t, st.s, st.o) = (w.steps[i].t, w.steps[i].s, w.steps[i].o);
            st.len = w.r.range(2, 5);
            st.arg = w.r.next();
            st.why = "watchers".into();
            w.steps.insert(i + 1, st);
        }
    }
    let _ = w.prop;
    Plan {
        prop: prop.name().to_string(),
        seed,
        threads: if prop == Prop::C15 { [0, 0, 2, 3, 5][w.r.below(5) as usize] } else { 0 },
        tf: false,
        sched: Vec::new(),
        sim_ns: w.now,
        faults: w.faults.into_iter().collect(),
        steps: w.steps,
    }
}

/// A few sessions with few operations each, for interleaving at machine-instruction granularity.
fn small_sessions(seed: u64, r: &mut Rng, tf: bool) -> Plan {
    let ns = if !cfg!(miri) && r.chance(1, 25) { r.range(6, 16) } else { r.range(2, 5) } as u16;
    let mut steps = Vec::new();
    let nb = r.range(1, 2) as u32;
    for b in 0..nb {
        let mut s = Step::new(Op::Build);
        s.p = b;
        s.key = gen_key(r);
        steps.push(s);
    }
    let same = r.chance(1, 3); // all sessions do alike, from the same builder
    let common = gen_key(r);
    // operations that all sessions keep doing, so that they meet inside of them
    let pet = if r.chance(1, 2) { [r.range(1, 13), r.range(6, 13)] } else { [0, 0] };
    let mut per: Vec<Vec<Step>> = Vec::new();
    for s in 0..ns {
        let mut v: Vec<Step> = Vec::new();
        let mut objs: Vec<u32> = Vec::new();
        let nops = r.range(3, 9);
        let mut next = 1;
        let mut nextck = 1;
        let mut off = 0;
        let ds = r.next();
        for i in 0..nops {
            let k = if i == 0 || objs.is_empty() {
                0
            } else if pet[0] > 0 && r.chance(2, 3) {
                *r.pick(&pet)
            } else {
                r.range(1, 13)
            };
            let mut st;
            match k {
                0 | 13 => {
                    let o = next;
                    next += 1;
                    if same || r.chance(1, 2) {
                        st = Step::new(Op::BNew);
                        st.p = if same { 0 } else { r.below(nb as u64) as u32 };
                    } else {
                        st = Step::new(Op::New);
                        st.slot = r.below(4) as u8;
                        st.key = if r.chance(1, 2) { common } else { gen_key(r) };
                        st.arg = r.below(3);
                    }
                    st.o = o;
                    objs.push(o);
                }
                1..=5 => {
                    st = Step::new(Op::Append);
                    st.o = *r.pick(&objs);
                    st.dk = 0;
                    st.ds = ds;
                    st.off = off;
                    st.len = match r.below(6) {
                        0 => r.below(8),
                        1..=3 => r.range(1, 70),
                        4 => *r.pick(&[31, 32, 33, 64]),
                        _ => r.range(70, 200),
                    };
                    off += st.len;
                    st.via = *r.pick(&[0, 0, 0, 1, 2]);
                    st.al = r.below(64) as u8;
                }
                6 | 7 => {
                    st = Step::new(Op::Finish);
                    st.o = *r.pick(&objs);
                }
                8 => {
                    st = Step::new(Op::Ckpt);
                    st.o = *r.pick(&objs);
                    st.p = nextck;
                    nextck += 1;
                }
                9 => {
                    if nextck == 1 {
                        st = Step::new(Op::Finish);
                        st.o = *r.pick(&objs);
                    } else {
                        st = Step::new(Op::Restore);
                        st.o = next;
                        st.p = r.range(1, nextck as u64 - 1) as u32;
                        st.slot = r.below(4) as u8;
                        objs.push(next);
                        next += 1;
                    }
                }
                10 => {
                    st = Step::new(Op::Clone);
                    st.p = *r.pick(&objs);
                    st.o = next;
                    objs.push(next);
                    next += 1;
                }
                11 => {
                    st = Step::new(Op::HashOne);
                    st.p = r.below(nb as u64) as u32;
                    st.ds = r.next();
                }
                _ => {
                    let j = r.below(objs.len() as u64) as usize;
                    st = Step::new(Op::Final);
                    st.o = objs.swap_remove(j);
                    st.w = r.below(3) as u8;
                    if r.chance(1, 3) {
                        st.via = VIA_ONESHOT;
                        st.ds = ds;
                        st.off = off;
                        st.len = r.below(100);
                        st.al = r.below(64) as u8;
                    }
                }
            }
            st.s = s;
            v.push(st);
        }
        for o in objs {
            let mut st = Step::new(Op::Final);
            st.o = o;
            st.w = r.below(3) as u8;
            st.s = s;
            v.push(st);
        }
        per.push(v);
    }
    let mut rc = Rng::new(seed ^ 0x6368_7572_6e00);
    if !cfg!(miri) && rc.chance(1, 100) {
        let mut st = Step::new(Op::Churn);
        st.s = rc.below(ns as u64) as u16;
        st.slot = rc.below(4) as u8;
        st.key = gen_key(&mut rc);
        st.len = 66_000 + rc.below(6_000);
        st.arg = 1;
        st.ds = rc.next();
        let v = &mut per[st.s as usize];
        let at = rc.below(v.len() as u64 + 1) as usize;
        v.insert(at, st);
    }
    // plan order: a random interleaving (used as such when not stepping instructions)
    let mut pos = vec![0usize; ns as usize];
    loop {
        let open: Vec<usize> = (0..ns as usize).filter(|&i| pos[i] < per[i].len()).collect();
        if open.is_empty() {
            break;
        }
        let i = *r.pick(&open);
        let n = r.range(1, 3);
        for _ in 0..n {
            if pos[i] < per[i].len() {
                let mut s = per[i][pos[i]].clone();
                s.t = steps.len() as u64 * 1000;
                steps.push(s);
                pos[i] += 1;
            }
        }
    }
    let mut sched = Vec::new();
    if tf {
        let style = r.below(6);
        let nested = r.chance(1, 3);
        let n = match style {
            0 => r.range(1, 4),
            1 => r.range(4, 20),
            2 => r.range(20, 80),
            3 => r.range(40, 160),
            4 => r.range(4, 16),
            _ => r.range(2, 10),
        };
        for _ in 0..n {
            let q = match style {
                0 => r.range(1, 6000),
                1 => r.range(1, 1500),
                2 => r.range(1, 60),
                3 => 1 << r.below(9) | r.below(4),
                4 => r.range(100, 3000) | 3,
                _ => 1 << r.below(13) | r.below(4),
            };
            sched.push((r.below(ns as u64) as u16, q));
            if nested && r.chance(1, 2) {
                sched.push((crate::plan::NESTED, r.below(8)));
            }
        }
    }
    let t = steps.len() as u64 * 1000;
    Plan {
        prop: "C15".into(),
        seed,
        threads: if tf { ns as u32 } else { [0, ns as u32][r.below(2) as usize] },
        tf,
        sched,
        sim_ns: t,
        faults: Vec::new(),
        steps,
    }
}
