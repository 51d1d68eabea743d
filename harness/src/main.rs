#![allow(dead_code, static_mut_refs)]
//! Simulation harness: runs property scenarios, one forked process per seed, under the deterministic simulator.
mod gen;
mod model;
mod scen;
mod sim;

use serde_json::{json, Value};
use sim::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn vsim_attach(s: *mut Shared);
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub rng: Rng,
    pub sh: &'static mut Shared,
    pub fd: i32,
    pub drop: BTreeSet<u32>,
    pub thorough: bool,
    pub verbose: bool,
    pub bin_dir: String,
    pub scratch: String,
}

static mut PANIC_BUF: [u8; 1024] = [0; 1024];
static mut PANIC_LEN: usize = 0;
static mut RAW: *mut Shared = std::ptr::null_mut();

pub fn first_panic() -> Option<String> {
    unsafe {
        if PANIC_LEN == 0 {
            None
        } else {
            Some(String::from_utf8_lossy(&PANIC_BUF[..PANIC_LEN]).into_owned())
        }
    }
}
pub fn clear_panic() {
    unsafe { PANIC_LEN = 0 }
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Ok,
    Skip,
    Truncated,
    Fail(String),
}

impl Outcome {
    fn class(&self) -> String {
        match self {
            Outcome::Fail(m) => m.split(':').next().unwrap_or("").to_string(),
            o => format!("{:?}", o),
        }
    }
}

/// run one simulated execution in a forked child
fn run_one(prop: &str, seed: u64, sh: &'static mut Shared, fd: i32, drop: &BTreeSet<u32>, replay: Option<&[TraceEntry]>, opts: &Opts) -> (Outcome, &'static mut Shared) {
    sh.reset();
    sh.ntrace_in = 0;
    sh.ntrace_out = 0;
    if let Some(tr) = replay {
        sh.replay = 1;
        sh.ntrace_in = tr.len() as u64;
        sh.trace_in[..tr.len()].copy_from_slice(tr);
    }
    let scratch = format!("{}/{}-{}", opts.scratch, prop, seed);
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::setpgid(0, 0);
            if !opts.verbose {
                let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                libc::dup2(n, 1);
                libc::dup2(n, 2);
            }
            let raw: *mut Shared = sh;
            RAW = raw;
            std::panic::set_hook(Box::new(|info| {
                if PANIC_LEN == 0 {
                    let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = info.payload().downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "?".into()
                    };
                    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                    let s = format!("{} at {}", m, loc);
                    let n = s.len().min(1000);
                    PANIC_BUF[..n].copy_from_slice(&s.as_bytes()[..n]);
                    PANIC_LEN = n;
                    if !RAW.is_null() {
                        set_cstr(&mut (*RAW).msg, &format!("panic: {}", s));
                    }
                    if std::env::var_os("VSIM_BT").is_some() {
                        eprintln!("{}\n{}", s, std::backtrace::Backtrace::force_capture());
                    }
                }
            }));
            let mut ctx = Ctx {
                prop: prop.to_string(),
                seed,
                rng: Rng::new(seed),
                sh: &mut *raw,
                fd,
                drop: drop.clone(),
                thorough: opts.thorough,
                verbose: opts.verbose,
                bin_dir: opts.bin_dir.clone(),
                scratch: scratch.clone(),
            };
            let r = catch_unwind(AssertUnwindSafe(|| scen::run(prop, &mut ctx)));
            nopreempt(true);
            let done = |st: u32, m: &str| -> ! {
                if (*raw).status != ST_RUNNING && (*raw).status != ST_OK && (*raw).status != ST_DONE_CLIENTS && (*raw).status != ST_CRASHED {
                    libc::_exit(0)
                }
                (*raw).status = ST_RUNNING;
                (*raw).msg[0] = 0;
                attach_if_needed(raw);
                finish(st, m)
            };
            match r {
                Ok(Ok(())) => done(ST_OK, ""),
                Ok(Err(m)) if m == "skip" => done(ST_SKIP, ""),
                Ok(Err(m)) => done(ST_VIOLATION, &m),
                Err(_) => done(ST_PANIC, &format!("panic: {}", first_panic().unwrap_or_default())),
            }
        }
        // parent: bounded wait
        let mut status = 0;
        let t0 = std::time::Instant::now();
        let mut timed_out = false;
        let mut spin = 0;
        loop {
            let r = libc::waitpid(pid, &mut status, libc::WNOHANG);
            if r == pid {
                break;
            }
            spin += 1;
            let us = if spin < 50 { 100 } else { 1000 };
            libc::usleep(us);
            if t0.elapsed().as_secs_f64() > opts.real_timeout {
                timed_out = true;
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
                break;
            }
        }
        libc::kill(-pid, libc::SIGKILL);
        let _ = std::fs::remove_dir_all(&scratch);
        let out = if timed_out {
            Outcome::Fail(format!("hang: run exceeded {} s of real time", opts.real_timeout))
        } else {
            match sh.status {
                ST_OK => Outcome::Ok,
                ST_SKIP => Outcome::Skip,
                ST_TRACEFULL => Outcome::Truncated,
                ST_RUNNING => {
                    if libc::WIFSIGNALED(status) {
                        Outcome::Fail(format!("abort: process ended by signal {}; first panic: {}", libc::WTERMSIG(status), cstr(&sh.msg)))
                    } else {
                        Outcome::Fail(format!("exit: process exited with code {} before the scenario finished", libc::WEXITSTATUS(status)))
                    }
                }
                ST_DEADLOCK => Outcome::Fail(cstr(&sh.msg)),
                _ => Outcome::Fail(cstr(&sh.msg)),
            }
        };
        (out, sh)
    }
}

unsafe fn attach_if_needed(raw: *mut Shared) {
    vsim_attach(raw);
}

#[derive(Clone)]
struct Opts {
    thorough: bool,
    verbose: bool,
    real_timeout: f64,
    bin_dir: String,
    scratch: String,
}

fn trace_json(tr: &[TraceEntry]) -> Value {
    Value::Array(tr.iter().map(|t| json!([t.kind, t.key, t.fk, t.val])).collect())
}
fn trace_from(v: &Value) -> Vec<TraceEntry> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|e| TraceEntry {
            kind: e[0].as_u64().unwrap() as u32,
            key: e[1].as_u64().unwrap(),
            fk: e[2].as_u64().unwrap() as u32,
            val: e[3].as_i64().unwrap(),
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut m = BTreeMap::new();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let mut i = 2;
    while i + 1 < args.len() {
        m.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| m.get(k).cloned().unwrap_or_else(|| d.to_string());
    let opts = Opts {
        thorough: get("tier", "quick") == "thorough",
        verbose: get("verbose", "0") == "1",
        real_timeout: get("real-timeout", "60").parse().unwrap(),
        bin_dir: get("bin-dir", ""),
        scratch: get("scratch", "/tmp/vsim-scratch"),
    };
    let prop = get("prop", "");
    let (mut sh, fd) = alloc_shared();
    unsafe { vsim_attach(sh) };
    let _ = std::fs::create_dir_all(&opts.scratch);
    let _ = std::env::set_current_dir(&opts.scratch);
    match cmd.as_str() {
        "batch" => {
            let base: u64 = get("seed", "1").parse().unwrap();
            let start: u64 = get("start", "0").parse().unwrap();
            let stride: u64 = get("stride", "1").parse().unwrap();
            let count: u64 = get("count", "10").parse().unwrap();
            let max_secs: f64 = get("max-secs", "100000").parse().unwrap();
            let max_viol: u64 = get("max-violations", "1").parse().unwrap();
            let dump = get("dump-hashes", "0") == "1";
            let t0 = std::time::Instant::now();
            let (mut runs, mut skips, mut trunc, mut nviol) = (0u64, 0u64, 0u64, 0u64);
            let mut agg: BTreeMap<String, u64> = BTreeMap::new();
            let mut opp = [0u64; NFAULT];
            let mut hit = [0u64; NFAULT];
            let mut user = [0u64; 32];
            let mut scheds = BTreeSet::new();
            let mut samples = vec![];
            let mut nontrivial = 0u64;
            let mut idx = start;
            let mut done = 0;
            while done < count {
                if t0.elapsed().as_secs_f64() > max_secs {
                    break;
                }
                let seed = mix(base, idx);
                let (o, s) = run_one(&prop, seed, sh, fd, &BTreeSet::new(), None, &opts);
                sh = s;
                runs += 1;
                done += 1;
                idx += stride;
                if dump {
                    println!("{}", json!({"hash": [idx - stride, seed, format!("{:016x}", sh.event_hash), format!("{:016x}", sh.sched_hash), sh.steps, format!("{:?}", o)]}));
                }
                for (k, v) in [
                    ("steps", sh.steps),
                    ("switches", sh.switches),
                    ("preemptions", sh.preemptions),
                    ("futex_waits", sh.futex_waits),
                    ("threads", sh.threads),
                    ("timer_jumps", sh.timer_jumps),
                    ("clock_reads", sh.clock_reads),
                    ("vtime_us", sh.vtime_ns / 1000),
                ] {
                    *agg.entry(k.into()).or_default() += v;
                }
                for k in 0..NFAULT {
                    opp[k] += sh.fault_opp[k];
                    hit[k] += sh.fault_hit[k];
                }
                for k in 0..32 {
                    user[k] += sh.user[k];
                }
                let faults: u64 = sh.fault_hit.iter().sum();
                if scheds.insert(sh.event_hash) && (sh.switches > 2 || faults > 0) && o == Outcome::Ok {
                    nontrivial += 1;
                    if samples.len() < 2 {
                        samples.push(json!({"seed": seed, "threads": sh.threads, "steps": sh.steps, "context_switches": sh.switches, "preemptions": sh.preemptions, "faults_injected": faults, "virtual_ms": sh.vtime_ns / 1_000_000, "event_hash": format!("{:016x}", sh.event_hash), "probes": &sh.user[..8], "outcome": "held"}));
                    }
                }
                match o {
                    Outcome::Ok => {}
                    Outcome::Skip => skips += 1,
                    Outcome::Truncated => trunc += 1,
                    Outcome::Fail(ref msg) => {
                        nviol += 1;
                        println!("{}", json!({"violation": {"seed": seed, "index": idx - stride, "msg": msg, "class": o.class()}}));
                        if nviol >= max_viol {
                            break;
                        }
                    }
                }
            }
            println!(
                "{}",
                json!({"summary": {"runs": runs, "skips": skips, "truncated": trunc, "violations": nviol, "nontrivial": nontrivial, "agg": agg,
                "fault_opp": opp.to_vec(), "fault_hit": hit.to_vec(), "user": user.to_vec(),
                "hashes": scheds.iter().map(|h| format!("{:016x}", h)).collect::<Vec<_>>(), "samples": samples, "wall_s": t0.elapsed().as_secs_f64()}})
            );
        }
        "one" => {
            let seed: u64 = get("seed", "1").parse().unwrap();
            let (o, s) = run_one(&prop, seed, sh, fd, &BTreeSet::new(), None, &opts);
            println!("outcome {:?}", o);
            println!(
                "policy {} slice {:.0} atom {:.0} steps {} switches {} preempt {} threads {} vtime_ms {} trace {} hash {:016x} user {:?}",
                s.policy, s.mean_slice, s.mean_atomic, s.steps, s.switches, s.preemptions, s.threads, s.vtime_ns / 1000000, s.ntrace_out, s.event_hash, s.user
            );
            for k in 0..FAULT_NAMES.len() {
                if s.fault_opp[k] > 0 {
                    println!("  fault {} opp {} hit {}", FAULT_NAMES[k], s.fault_opp[k], s.fault_hit[k]);
                }
            }
            if opts.verbose {
                println!("{}", cstr(&s.log[..]));
            }
        }
        "min" => {
            let seed: u64 = get("seed", "1").parse().unwrap();
            let out = get("out", "/tmp/replay.json");
            let secs: f64 = get("max-secs", "60").parse().unwrap();
            let (o, s) = run_one(&prop, seed, sh, fd, &BTreeSet::new(), None, &opts);
            sh = s;
            if !matches!(o, Outcome::Fail(_)) {
                println!("{}", json!({"error": format!("seed {} does not fail: {:?}", seed, o)}));
                std::process::exit(3);
            }
            let class = o.class();
            let orig: Vec<TraceEntry> = sh.trace_out[..sh.ntrace_out as usize].to_vec();
            let (o2, s) = run_one(&prop, seed, sh, fd, &BTreeSet::new(), Some(&orig), &opts);
            sh = s;
            let replays = o2 == o;
            let mut best = orig.clone();
            let mut drop = BTreeSet::new();
            let mut last = o2.clone();
            let t0 = std::time::Instant::now();
            let mut tries = 0u64;
            if replays {
                // ddmin over trace entries; then over workload operations
                let mut chunk = best.len();
                while chunk >= 1 && t0.elapsed().as_secs_f64() < secs && !best.is_empty() {
                    let mut pos = 0;
                    let mut any = false;
                    while pos < best.len() && t0.elapsed().as_secs_f64() < secs {
                        let end = (pos + chunk).min(best.len());
                        let mut cand = best[..pos].to_vec();
                        cand.extend_from_slice(&best[end..]);
                        let (oc, s) = run_one(&prop, seed, sh, fd, &drop, Some(&cand), &opts);
                        sh = s;
                        tries += 1;
                        if matches!(oc, Outcome::Fail(_)) && oc.class() == class {
                            best = cand;
                            last = oc;
                            any = true;
                        } else {
                            pos = end;
                        }
                    }
                    if chunk == 1 && !any {
                        break;
                    }
                    chunk = if chunk == 1 { 1 } else { (chunk + 1) / 2 };
                }
                for k in 0..64u32 {
                    if t0.elapsed().as_secs_f64() > secs * 1.5 {
                        break;
                    }
                    let mut d = drop.clone();
                    d.insert(k);
                    let (oc, s) = run_one(&prop, seed, sh, fd, &d, Some(&best), &opts);
                    sh = s;
                    tries += 1;
                    if matches!(oc, Outcome::Fail(_)) && oc.class() == class {
                        drop = d;
                        last = oc;
                    }
                }
            }
            let msg = if let Outcome::Fail(m) = &last { m.clone() } else { String::new() };
            let (of, s) = run_one(&prop, seed, sh, fd, &drop, Some(&best), &opts);
            sh = s;
            let _ = &sh;
            let v = json!({"property": prop, "seed": seed, "class": class, "message": msg, "original_message": format!("{:?}", o),
                "tier": if opts.thorough {"thorough"} else {"quick"},
                "replays_exactly": replays && of == last, "minimised": {"from": orig.len(), "to": best.len(), "tries": tries, "dropped_ops": drop.iter().collect::<Vec<_>>()},
                "trace_format": "[kind(1 preempt,2 choice at block/yield,3 futex waiter,4 fault), key(step or counter), fault kind, value]",
                "drop": drop.iter().collect::<Vec<_>>(), "trace": trace_json(&best), "final_event_hash": format!("{:016x}", sh.event_hash)});
            std::fs::write(&out, serde_json::to_string(&v).unwrap()).unwrap();
            println!("{}", json!({"written": out, "class": class, "message": msg, "from": orig.len(), "to": best.len(), "replays": replays && of == last}));
        }
        "replay" => {
            let f = get("file", "");
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
            let tr = trace_from(&v["trace"]);
            let drop: BTreeSet<u32> = v["drop"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let mut opts = opts.clone();
            opts.thorough = v["tier"] == "thorough";
            let (o, s) = run_one(v["property"].as_str().unwrap(), v["seed"].as_u64().unwrap(), sh, fd, &drop, Some(&tr), &opts);
            let hash = format!("{:016x}", s.event_hash);
            println!("{}", json!({"outcome": format!("{:?}", o), "class": o.class(), "failed": matches!(o, Outcome::Fail(_)), "same_message": o == Outcome::Fail(v["message"].as_str().unwrap_or("").into()), "event_hash": hash, "same_hash": v["final_event_hash"] == hash}));
            if opts.verbose {
                println!("{}", cstr(&s.log[..]));
            }
        }
        _ => {
            eprintln!("usage: vharness batch|one|min|replay");
            std::process::exit(2);
        }
    }
}

pub fn mix(base: u64, idx: u64) -> u64 {
    let mut r = Rng::new(base.wrapping_mul(0x1000193).wrapping_add(idx));
    r.next() >> 16
}
