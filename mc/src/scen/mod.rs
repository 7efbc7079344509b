//! Scenarios and the job lists of the properties.
use crate::explore::Job;
use crate::rt::*;
use crate::world::*;
#[allow(unused)]
use crate::world::settle;
use serde_json::{json, Value};

pub mod attach;
pub mod client;
pub mod config;
pub mod daemons;
pub mod faults;
pub mod hist;
pub mod motd;
pub mod real;
pub mod sess;
pub mod start;
pub mod stream;

pub fn o_none() -> Opts {
    Opts { switch: false, stall_q: false, stall_t: 0, kinds: 0, groups: 0, block_choice: false, inject: false }
}
/// pre-emptions, choices at blocking points, stalls until quiescence
pub fn o_all() -> Opts {
    Opts { switch: true, stall_q: true, stall_t: 0, kinds: !0, groups: !0, block_choice: true, inject: true }
}
/// only the placement of injected events
pub fn o_inj() -> Opts {
    Opts { kinds: !0, groups: !0, inject: true, ..o_none() }
}

pub fn job(prop: &str, scen: &str, param: Value, opts: Opts, bound: u32) -> Job {
    Job { prop: prop.into(), scen: scen.into(), param, opts, bound, crash: false, step_limit: 400_000 }
}

pub fn run(scen: &str, p: &Value, phase: u32) {
    let (m, f) = scen.split_once('.').unwrap_or((scen, ""));
    match m {
        "attach" => attach::run(f, p),
        "client" => client::run(f, p),
        "config" => config::run(f, p),
        "daemon" => daemons::run(f, p),
        "faults" => faults::run(f, p),
        "hist" => hist::run(f, p),
        "motd" => motd::run(f, p),
        "real" => real::run(f, p),
        "sess" => sess::run(f, p),
        "start" => start::run(f, p),
        "stream" => stream::run(f, p),
        _ => panic!("unknown scenario {scen}"),
    }
    let _ = phase;
}

pub fn jobs(prop: &str, tier: &str) -> Vec<Job> {
    let deep = tier == "thorough";
    let mut v = vec![];
    attach::jobs(prop, deep, &mut v);
    client::jobs(prop, deep, &mut v);
    config::jobs(prop, deep, &mut v);
    daemons::jobs(prop, deep, &mut v);
    faults::jobs(prop, deep, &mut v);
    hist::jobs(prop, deep, &mut v);
    motd::jobs(prop, deep, &mut v);
    real::jobs(prop, deep, &mut v);
    sess::jobs(prop, deep, &mut v);
    start::jobs(prop, deep, &mut v);
    stream::jobs(prop, deep, &mut v);
    v
}
pub fn rule(p: &str) -> String {
    let how = match p {
        "P05" | "P15" | "P17" | "P18" | "P19" | "P20" | "P22" | "P28" | "P29" => "every combination of the listed inputs, configurations or histories within the bounds is run through the real code, those with concurrency under every schedule within the deviation bound",
        "P30" => "every kind of request is run once per call of the daemon that can fail for lack of a resource, with that call (and none or all of those after it) failing",
        "P21" => "every schedule within the deviation bound and every crash point (each file-system or process effect of a daemon) of every scenario is run",
        _ => "every schedule of every scenario and parameter combination within the deviation bound is run; injected events (requests, exits, hang-ups) take place at every scheduling point of their window",
    };
    format!("{how}; an execution counts as distinct and non-trivial when scenario, parameters and what was observed differ")
}
pub fn assumptions() -> Vec<String> {
    [
        "the libc-level stand-ins of mc/src/rt.rs for threads, time, processes, signals and file locks behave as the kernel does",
        "threads interact at intercepted calls only (locks, channels, files, sockets, time): interleavings between plain memory accesses are not explored",
        "behaviour needing more deviations from the default schedule, longer histories or larger inputs than the bounds is alike",
    ]
    .map(|x| x.to_string())
    .to_vec()
}
pub fn s(p: &Value, k: &str) -> String {
    p[k].as_str().unwrap_or("").to_string()
}
pub fn u(p: &Value, k: &str) -> u64 {
    p[k].as_u64().unwrap_or(0)
}
