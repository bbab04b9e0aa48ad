//! The native simulator: generates worlds, executes each in a fresh process, reports.

use hwsim::ctl::{self, Ctl, COV_BYTES, MAX_SESS};
use hwsim::exec::{run_plan, Prop};
use hwsim::plan::Plan;
use hwsim::world::{generate, Scale};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone)]
struct Outcome {
    /// None: ran to the end; otherwise (oracle, message)
    viol: Option<(String, String)>,
    harness: Option<String>,
    digest: u64,
    xdigest: u64,
    sess: [u64; MAX_SESS],
    obs: Vec<(u32, u16, u16, u64)>,
}

#[derive(Default)]
struct Stats {
    runs: u64,
    processes: u64,
    steps: u64,
    skipped: u64,
    checks: u64,
    bytes: u64,
    obs: u64,
    sim_ns: u64,
    nontrivial: u64,
    inconclusive: u64,
    tf_runs: u64,
    tf_instrs: u64,
    tf_switches: u64,
    faults: BTreeMap<String, u64>,
    cov: Vec<u8>,
    sigs: HashSet<u64>,
    inter: HashSet<u64>,
    allocs: u64,
    watched: u64,
}

fn capture(c: &Ctl) -> Outcome {
    Outcome {
        viol: None,
        harness: None,
        digest: c.digest,
        xdigest: c.xdigest,
        sess: c.sess,
        obs: c.obs[..c.obs_len as usize].iter().map(|o| (o.step, o.sess, o.what, o.val)).collect(),
    }
}

fn tally(c: &Ctl, st: &mut Stats) {
    st.processes += 1;
    st.steps += c.count[ctl::K_STEPS];
    st.skipped += c.count[ctl::K_SKIPPED];
    st.checks += c.count[ctl::K_CHECKS];
    st.bytes += c.count[ctl::K_BYTES];
    st.allocs += c.count[ctl::K_ALLOC_IN_LIB];
    st.obs += c.nobs;
    st.watched += c.watched;
    st.inconclusive += c.inconclusive as u64;
    if st.cov.is_empty() {
        st.cov = vec![0; COV_BYTES];
    }
    if !cfg!(miri) {
        for (a, b) in st.cov.iter_mut().zip(c.cov.iter()) {
            *a |= *b;
        }
    }
    if c.instrs > 0 {
        st.tf_runs += 1;
        st.tf_instrs += c.instrs;
        st.tf_switches += c.switches as u64;
        st.inter.insert(c.sig);
    }
}

fn split_msg(m: &str) -> (String, String) {
    match m.split_once('|') {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => ("unknown".into(), m.to_string()),
    }
}

/// Interpret what a finished (or dead) run left in the control block.
fn outcome(c: &Ctl, died: Option<String>) -> Outcome {
    let mut o = capture(c);
    let at = format!("step {} in {}", c.cur_step, ctl::what());
    if c.viol != 0 {
        o.viol = Some(split_msg(&ctl::msg()));
    } else if c.panicked_in_lib != 0 {
        o.viol = Some(("panic".into(), format!("{}: {}", at, ctl::msg())));
    } else if c.harness != 0 {
        o.harness = Some(ctl::msg());
    } else if c.crash_sig != 0 {
        let name = match c.crash_sig {
            4 => "SIGILL",
            6 => "SIGABRT",
            7 => "SIGBUS",
            8 => "SIGFPE",
            11 => "SIGSEGV",
            26 => "no progress within the CPU limit",
            _ => "signal",
        };
        let m = format!("{}: {} (address {:#x})", at, name, c.crash_addr);
        if c.crash_in_lib != 0 {
            let k = if c.crash_sig == 26 { "no-progress" } else { "fault" };
            o.viol = Some((k.into(), m));
        } else {
            o.harness = Some(m);
        }
    } else if let Some(d) = died {
        o.harness = Some(format!("{} at {}", d, at));
    } else if c.done == 0 {
        o.harness = Some(format!("run ended early at {}", at));
    }
    o
}

#[cfg(all(unix, not(miri)))]
mod host {
    use super::*;
    use hwsim::sys;

    /// One run in a fresh process.
    pub fn run(pl: &Plan, salt: u64, only: Option<u16>, st: &mut Stats) -> Outcome {
        ctl::reset();
        let cpu = if pl.steps.iter().any(|s| s.op == hwsim::plan::Op::Giant) { 240 } else { 20 };
        unsafe {
            let pid = sys::fork();
            if pid == 0 {
                sys::prctl(1, 9, 0, 0, 0); // die with the parent
                sys::install_fatal();
                sys::limits(cpu, 300);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    run_plan(pl, salt, only);
                }));
                sys::_exit(if r.is_err() { 3 } else { 0 });
            }
            assert!(pid > 0, "fork failed");
            let mut status = 0;
            let r = sys::waitpid(pid, &mut status, 0);
            assert!(r == pid);
            let died = if status == 0 { None } else { Some(format!("wait status {:#x}", status)) };
            let c = ctl::ctl();
            tally(c, st);
            outcome(c, died)
        }
    }

    /// An emulator translates code as it runs and forgets it with the process: run a few worlds
    /// here, so that the processes of the runs inherit the translation.  Whether they can be run
    /// safely is found out in a child first.
    pub fn warm(prop: Prop, sc: Scale, n: u64) {
        for i in 0..n {
            let pl = generate(prop, 0x3a9_0000 + i, Scale { max_total: sc.max_total.min(2000), ..sc });
            let o = run(&pl, 1, None, &mut Stats::default());
            if o.viol.is_some() || o.harness.is_some() {
                return;
            }
            run_plan(&pl, 1, None);
        }
    }

    pub fn init() {
        let p = sys::shared(std::mem::size_of::<Ctl>()) as *mut Ctl;
        ctl::set_ctl(p);
    }
}

#[cfg(not(all(unix, not(miri))))]
mod host {
    use super::*;
    /// No processes here: in place.
    pub fn run(pl: &Plan, salt: u64, only: Option<u16>, st: &mut Stats) -> Outcome {
        ctl::reset();
        run_plan(pl, salt, only);
        let c = ctl::ctl();
        tally(c, st);
        outcome(c, None)
    }
    pub fn init() {}
    pub fn warm(_p: Prop, _s: Scale, _n: u64) {}
}

/// first observation in which two runs differ
fn first_diff(a: &Outcome, b: &Outcome, sess: Option<u16>) -> String {
    let f = |o: &Outcome| -> Vec<(u32, u16, u64)> {
        o.obs
            .iter()
            .filter(|x| sess.map(|s| s == x.1).unwrap_or(true))
            .map(|x| (x.0, x.2, x.3))
            .collect()
    };
    let (x, y) = (f(a), f(b));
    for (p, q) in x.iter().zip(y.iter()) {
        if p != q {
            return format!("first difference at step {} (observation kind {})", p.0, p.1);
        }
    }
    format!("logs of {} and {} observations", x.len(), y.len())
}

/// Decide one plan: as many executions as the property's oracle needs.
fn evaluate(pl: &Plan, st: &mut Stats) -> Outcome {
    let base = host::run(pl, 0, None, st);
    if base.viol.is_some() || base.harness.is_some() {
        return base;
    }
    let mut out = base.clone();
    match pl.prop.as_str() {
        // the interpreter places things at addresses of its own choosing
        "C09" if !cfg!(miri) => {
            for salt in 1..4 {
                let o = host::run(pl, salt, None, st);
                if o.viol.is_some() || o.harness.is_some() {
                    return o;
                }
                if o.digest != base.digest {
                    out.viol = Some((
                        "address-independence".into(),
                        format!(
                            "step 0: results differ when inputs and hashers are placed elsewhere (placement {}): {}",
                            salt,
                            first_diff(&base, &o, None)
                        ),
                    ));
                    return out;
                }
            }
        }
        "C12" => {
            let o = host::run(pl, 1, None, st);
            if o.viol.is_some() || o.harness.is_some() {
                return o;
            }
            if o.digest != base.digest {
                out.viol = Some((
                    "across-processes".into(),
                    format!("step 0: two processes disagree: {}", first_diff(&base, &o, None)),
                ));
            }
        }
        "C15" => {
            let mut s: Vec<u16> = pl
                .steps
                .iter()
                .filter(|s| s.op != hwsim::plan::Op::Build)
                .map(|s| s.s)
                .collect();
            s.sort_unstable();
            s.dedup();
            for x in s {
                let o = host::run(pl, 0, Some(x), st);
                if o.viol.is_some() || o.harness.is_some() {
                    return o;
                }
                st.checks += 1;
                if o.sess[x as usize % MAX_SESS] != base.sess[x as usize % MAX_SESS] {
                    out.viol = Some((
                        "isolation".into(),
                        format!(
                            "step 0: session {} obtains other results when it runs alone: {}",
                            x,
                            first_diff(&base, &o, Some(x))
                        ),
                    ));
                    return out;
                }
            }
        }
        _ => {}
    }
    out
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn print_stats(st: &Stats) {
    let cov: Vec<String> = st
        .cov[..if cfg!(miri) { 0 } else { st.cov.len() }]
        .chunks(8)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            format!("{:x}", u64::from_le_bytes(b))
        })
        .collect();
    let faults: Vec<String> =
        st.faults.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let sigs: Vec<String> = st.sigs.iter().map(|s| format!("{:x}", s)).collect();
    println!(
        "stats {{\"runs\":{},\"processes\":{},\"steps\":{},\"skipped\":{},\"checks\":{},\"bytes\":{},\"obs\":{},\"sim_ns\":{},\"nontrivial\":{},\"inconclusive\":{},\"tf_runs\":{},\"tf_instrs\":{},\"tf_switches\":{},\"tf_interleavings\":{},\"allocs\":{},\"watched\":{},\"faults\":{{{}}},\"sigs\":\"{}\",\"cov\":\"{}\"}}",
        st.runs, st.processes, st.steps, st.skipped, st.checks, st.bytes, st.obs, st.sim_ns, st.nontrivial,
        st.inconclusive, st.tf_runs, st.tf_instrs, st.tf_switches, st.inter.len(), st.allocs, st.watched,
        faults.join(","), sigs.join(","), cov.join(","),
    );
}

fn main() {
    #[cfg(all(unix, not(miri)))]
    hwsim::sys::fixed_addresses();
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| -> Option<String> {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned())
    };
    let num = |n: &str, d: u64| -> u64 { arg(n).and_then(|s| s.parse().ok()).unwrap_or(d) };
    let sc = Scale {
        max_total: num("--max", 70_000),
        huge: num("--huge", 0),
        hugepm: num("--hugepm", 40),
        max_steps: num("--steps", 600) as usize,
        threads: num("--threads", 1) != 0,
    };
    host::init();
    ctl::install_panic_hook();
    let prop = arg("--prop").and_then(|p| Prop::parse(&p));
    match args.get(1).map(|s| s.as_str()) {
        Some("info") => {
            println!(
                "kinds {:?} cpu {:?} hwstd {} sse4.1 {} avx2 {} debug_assertions {}",
                (0..4).map(|s| hwsim::types::kind_of(s).name()).collect::<Vec<_>>(),
                hwsim::types::cpu(),
                cfg!(feature = "hwstd"),
                cfg!(target_feature = "sse4.1"),
                cfg!(target_feature = "avx2"),
                cfg!(debug_assertions),
            );
        }
        Some("gen") => {
            let seed = num("--seed", 1);
            print!("{}", generate(prop.expect("--prop"), seed, sc).print());
        }
        Some("batch") => {
            let prop = prop.expect("--prop");
            let from = num("--from", 0);
            let n = num("--n", 100);
            let digests = args.iter().any(|a| a == "--digests");
            let mut st = Stats::default();
            let t0 = std::time::Instant::now();
            let limit = num("--secs", 100_000);
            host::warm(prop, sc, num("--warm", 0));
            for seed in from..from + n {
                if !cfg!(miri) && t0.elapsed().as_secs() >= limit {
                    break;
                }
                let pl = generate(prop, seed, sc);
                if args.iter().any(|a| a == "-v") {
                    eprintln!("seed {} steps {}", seed, pl.steps.len());
                }
                st.runs += 1;
                st.sim_ns += pl.sim_ns;
                for (k, v) in &pl.faults {
                    *st.faults.entry(k.to_string()).or_insert(0) += v;
                }
                let o = evaluate(&pl, &mut st);
                if ctl::ctl().nontrivial != 0 {
                    st.nontrivial += 1;
                    st.sigs.insert(pl.signature() >> 16);
                }
                if digests {
                    println!("digest {} {:x} {:x}", seed, o.digest, o.xdigest);
                }
                if let Some(h) = o.harness {
                    println!("HARNESS seed={} {}", seed, h);
                    break;
                }
                if let Some((k, m)) = o.viol {
                    println!("VIOL seed={} oracle={} msg={}", seed, k, m);
                    break;
                }
            }
            print_stats(&st);
        }
        Some("exec") => {
            let text = std::fs::read_to_string(arg("--file").expect("--file")).expect("read plan");
            let plans = match Plan::parse_many(&text) {
                Ok(p) => p,
                Err(e) => {
                    println!("verdict 0 harness cannot parse the plan: {}", e);
                    std::process::exit(2);
                }
            };
            let verbose = args.iter().any(|a| a == "-v");
            if let Some(p) = plans.first().and_then(|p| Prop::parse(&p.prop)) {
                host::warm(p, sc, num("--warm", 0));
            }
            let mut st = Stats::default();
            for (i, pl) in plans.iter().enumerate() {
                let o = evaluate(pl, &mut st);
                if verbose {
                    for (s, ss, w, v) in &o.obs {
                        println!("obs step={} s={} kind={} {:016x}", s, ss, w, v);
                    }
                }
                let d = format!("{:x}", o.digest);
                match (&o.viol, &o.harness) {
                    (Some((k, m)), _) => println!("verdict {} viol {} {} {}", i, k, d, m),
                    (_, Some(h)) => println!("verdict {} harness {}", i, h),
                    _ => println!("verdict {} ok {} {:x}", i, d, o.xdigest),
                }
            }
        }
        _ => {
            eprintln!("usage: hwsim info|gen|batch|exec ...");
            std::process::exit(2);
        }
    }
}
