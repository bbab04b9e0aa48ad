//! The simulator as a WebAssembly machine: `host.mjs` instantiates the module afresh for every run.

use crate::ctl::{self, ctl};
use crate::exec::{run_plan, Prop};
use crate::plan::{Op, Plan};
use crate::world::{generate, Scale};
use std::fmt::Write as _;

static mut PLAN: Option<Plan> = None;
static mut TEXT: Vec<u8> = Vec::new();

#[allow(static_mut_refs)]
fn text() -> &'static mut Vec<u8> {
    unsafe { &mut TEXT }
}
#[allow(static_mut_refs)]
fn plan() -> &'static mut Option<Plan> {
    unsafe { &mut PLAN }
}

fn put(s: String) -> u32 {
    *text() = s.into_bytes();
    text().len() as u32
}

#[no_mangle]
pub extern "C" fn hw_init() {
    ctl::reset();
    ctl::install_panic_hook();
}

#[no_mangle]
pub extern "C" fn hw_buf(n: u32) -> *mut u8 {
    let t = text();
    t.resize(t.len().max(n as usize), 0);
    t.as_mut_ptr()
}

/// generate the world of a seed; `prop` is the number in the property's name
#[no_mangle]
pub extern "C" fn hw_gen(prop: u32, seed: u64, max: u64, huge: u64, hugepm: u32, steps: u32) -> u32 {
    let Some(p) = Prop::parse(&format!("C{:02}", prop)) else { return 1 };
    *plan() = Some(generate(p, seed, Scale { max_total: max, huge, hugepm: hugepm as u64, max_steps: steps as usize, threads: false }));
    0
}

/// parse the first plan in the text buffer
#[no_mangle]
pub extern "C" fn hw_parse(n: u32) -> u32 {
    let s = String::from_utf8_lossy(&text()[..n as usize]).into_owned();
    match Plan::parse_many(&s) {
        Ok(mut v) if !v.is_empty() => {
            *plan() = Some(v.remove(0));
            0
        }
        Ok(_) => 1,
        Err(e) => {
            ctl::set_msg(&e);
            1
        }
    }
}

#[no_mangle]
pub extern "C" fn hw_run(salt: u64, only: i32) {
    if let Some(p) = plan().as_ref() {
        run_plan(p, salt, if only < 0 { None } else { Some(only as u16) });
    }
}

/// print the plan into the text buffer
#[no_mangle]
pub extern "C" fn hw_print() -> u32 {
    let s = plan().as_ref().map(|p| p.print()).unwrap_or_default();
    put(s)
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// what the run left behind, as JSON
#[no_mangle]
pub extern "C" fn hw_report() -> u32 {
    let c = ctl();
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"viol\":{},\"panic\":{},\"harness\":{},\"done\":{},\"in_lib\":{},\"step\":{},\"what\":\"{}\",\"msg\":\"{}\",\"digest\":\"{:x}\",\"xdigest\":\"{:x}\",\"nobs\":{},\"nontrivial\":{},\"inconclusive\":{},\"watched\":{}",
        c.viol, c.panicked_in_lib, c.harness, c.done, c.in_lib, c.cur_step,
        esc(&ctl::what()), esc(&ctl::msg()), c.digest, c.xdigest, c.nobs, c.nontrivial, c.inconclusive, c.watched
    );
    let _ = write!(s, ",\"count\":[");
    for (i, v) in c.count.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, v);
    }
    let _ = write!(s, "],\"sess\":[");
    for (i, v) in c.sess.iter().enumerate() {
        let _ = write!(s, "{}\"{:x}\"", if i > 0 { "," } else { "" }, v);
    }
    s.push(']');
    if let Some(p) = plan().as_ref() {
        let mut ss: Vec<u16> = p.steps.iter().filter(|s| s.op != Op::Build).map(|s| s.s).collect();
        ss.sort_unstable();
        ss.dedup();
        let f: Vec<String> = p.faults.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let _ = write!(
            s,
            ",\"prop\":\"{}\",\"seed\":{},\"steps\":{},\"sim_ns\":{},\"sessions\":{:?},\"faults\":{{{}}},\"sig\":\"{:x}\"",
            p.prop,
            p.seed,
            p.steps.len(),
            p.sim_ns,
            ss,
            f.join(","),
            p.signature()
        );
    }
    s.push('}');
    put(s)
}

#[no_mangle]
pub extern "C" fn hw_obs() -> u32 {
    let c = ctl();
    let mut s = String::new();
    for o in &c.obs[..c.obs_len as usize] {
        let _ = writeln!(s, "obs step={} s={} kind={} {:016x}", o.step, o.sess, o.what, o.val);
    }
    put(s)
}

#[no_mangle]
pub extern "C" fn hw_cov() -> *const u8 {
    ctl().cov.as_ptr()
}

#[no_mangle]
pub extern "C" fn hw_info() -> u32 {
    put(format!(
        "kinds {:?} hwstd {} simd128 {} debug_assertions {}",
        (0..4).map(|s| crate::types::kind_of(s).name()).collect::<Vec<_>>(),
        cfg!(feature = "hwstd"),
        cfg!(target_feature = "simd128"),
        cfg!(debug_assertions)
    ))
}
