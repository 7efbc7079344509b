#![allow(clippy::missing_safety_doc)]
#![allow(static_mut_refs)]
mod explore;
mod rt;
mod scen;
mod wire;
mod world;

use explore::{run_once, Ctx, Job};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::time::Instant;

fn opts_json(o: &rt::Opts) -> Value {
    json!({"switch": o.switch, "stall_q": o.stall_q, "stall_t": o.stall_t, "kinds": o.kinds, "groups": o.groups, "block_choice": o.block_choice, "inject": o.inject})
}
fn opts_from(v: &Value) -> rt::Opts {
    rt::Opts {
        switch: v["switch"].as_bool().unwrap(),
        stall_q: v["stall_q"].as_bool().unwrap(),
        stall_t: v["stall_t"].as_u64().unwrap(),
        kinds: v["kinds"].as_u64().unwrap(),
        groups: v["groups"].as_u64().unwrap() as u32,
        block_choice: v["block_choice"].as_bool().unwrap(),
        inject: v["inject"].as_bool().unwrap_or(false),
    }
}

/// known-findings.txt: `known: property=<id> sig=<signature> -- text` lines
fn load_known(base: &Path) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(base.join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let (p, rest) = r.split_once(' ').unwrap_or((r, ""));
                if let Some(rest) = rest.trim().strip_prefix("sig=") {
                    let (sig, text) = rest.split_once(" -- ").unwrap_or((rest, ""));
                    v.push((p.to_string(), sig.trim().to_string(), text.trim().to_string()));
                }
            }
        }
    }
    v
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.to_str().unwrap().starts_with("/tmp/shpool-mc.") {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}
fn scratch() -> Scratch {
    let p = PathBuf::from(format!("/tmp/shpool-mc.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    Scratch(p)
}

fn main() {
    rt::find_exit_guard();
    let a: Vec<String> = std::env::args().collect();
    let base = PathBuf::from(std::env::var("MC_BASE").unwrap_or("/verif".into()));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let prop = a[2].clone();
            let code = check(&prop, &tier, &base);
            std::process::exit(code);
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let job = Job {
                prop: v["property"].as_str().unwrap().into(),
                scen: v["scenario"].as_str().unwrap().into(),
                param: v["param"].clone(),
                opts: opts_from(&v["opts"]),
                bound: 0,
                crash: v["crash"].as_bool().unwrap_or(false),
                step_limit: v["step_limit"].as_u64().unwrap_or(400_000),
            };
            let sparse: Vec<(u32, u8)> = serde_json::from_value(v["deviations"].clone()).unwrap();
            let s = scratch();
            let cx = Ctx { shm: rt::map_shm(), states: None, dir: s.0.join("w0") };
            let r = run_once(&cx, &job, &sparse, v["crash_at"].as_u64().unwrap_or(0), true);
            println!("{}", r.log);
            println!("status={} msg={} out={}", r.status, r.msg, r.out);
            drop(s);
            std::process::exit(if r.status == rt::ST_OK { 0 } else { 1 });
        }
        Some("one") => {
            // one <prop> <scenario> <json param>: run the default schedule, print the log
            let param: Value = serde_json::from_str(a.get(4).map(|s| s.as_str()).unwrap_or("{}")).unwrap();
            let job = Job {
                prop: a[2].clone(),
                scen: a[3].clone(),
                param,
                opts: scen::o_all(),
                bound: 0,
                crash: std::env::var("MC_CRASH").is_ok(),
                step_limit: 60_000_000,
            };
            let s = scratch();
            let cx = Ctx { shm: rt::map_shm(), states: None, dir: s.0.join("w0") };
            explore::pin(0);
            let t = Instant::now();
            let ca = std::env::var("MC_CRASH").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            let r = run_once(&cx, &job, &[], ca, std::env::var("MC_QUIET").is_err());
            println!("{}", r.log);
            println!(
                "status={} msg={} out={} points={} steps={} vtime={}ms real={:?} crash_points={}",
                r.status, r.msg, r.out, r.trace.len(), r.steps, r.vtime / 1_000_000, t.elapsed(), r.crash_points
            );
        }
        Some("jobs") => {
            for j in scen::jobs(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")) {
                println!("{} {} bound={} crash={}", j.scen, j.param, j.bound, j.crash);
            }
        }
        _ => {
            eprintln!("usage: shpool-mc check <property> | replay <file> | one <prop> <scenario> <param>");
            std::process::exit(2);
        }
    }
}

fn write_replay(base: &Path, job: &Job, f: &explore::Found) -> PathBuf {
    let dir = base.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = explore::fnv(format!("{}{}{:?}{}", job.scen, job.param, f.sparse, f.msg).as_bytes());
    let p = dir.join(format!("{}-{:08x}.json", job.prop, h as u32));
    let v = json!({
        "property": job.prop, "scenario": job.scen, "param": job.param, "opts": opts_json(&job.opts),
        "crash": job.crash, "crash_at": f.crash_at, "deviations": f.sparse, "message": f.msg, "step_limit": job.step_limit,
        "how": "/verif/mc/run.sh replay <this file> re-executes the schedule against /repo and prints the full event log",
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn check(prop: &str, tier: &str, base: &Path) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let known_all = load_known(base);
    let known: Vec<(String, String)> = known_all.iter().map(|k| (k.0.clone(), k.1.clone())).collect();
    let mut jobs = scen::jobs(prop, tier);
    if let Ok(only) = std::env::var("MC_ONLY") {
        jobs.retain(|j| format!("{} {}", j.scen, j.param).contains(&only));
    }
    if jobs.is_empty() {
        eprintln!("no such property {prop}");
        return 2;
    }
    let budget: f64 = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 400.0 } else { 6.0 * 3600.0 });
    let s = scratch();
    let (mut tot, mut found) = explore::explore(&jobs, budget, &known, &s.0);
    found.sort_by_key(|f| (f.sparse.len(), f.job, f.sparse.clone()));
    let mut code = 0;
    let mut confirmed = None;
    let mut unconfirmed: Vec<String> = vec![];
    let cx = Ctx { shm: rt::map_shm(), states: None, dir: s.0.join("confirm") };
    for f in found.iter() {
        let job = &jobs[f.job];
        let mut f = f.clone();
        // shrink: drop deviations that are not needed
        let mut i = 0;
        while i < f.sparse.len() {
            let mut sp = f.sparse.clone();
            sp.remove(i);
            let r = run_once(&cx, job, &sp, f.crash_at, false);
            if r.status == rt::ST_VIOLATION && explore::signature(&r.msg) == explore::signature(&f.msg) {
                f.sparse = sp;
                f.msg = r.msg;
            } else {
                i += 1;
            }
        }
        // a violation counts once the same schedule shows it again; one which
        // never does (a machine so loaded that an execution looked hung, say)
        // is reported in the evidence and on stderr, but is no verdict
        if f.msg.starts_with("hang:") {
            // slow to show: once more is enough
            explore::HANG_ONCE.store(true, std::sync::atomic::Ordering::Relaxed);
            let again = run_once(&cx, job, &f.sparse, f.crash_at, false);
            explore::HANG_ONCE.store(false, std::sync::atomic::Ordering::Relaxed);
            if again.status == rt::ST_VIOLATION {
                confirmed = Some(f);
                break;
            }
        }
        let seen = (0..4).filter(|_| run_once(&cx, job, &f.sparse, f.crash_at, false).status == rt::ST_VIOLATION).take(2).count();
        if seen == 2 {
            confirmed = Some(f);
            break;
        }
        eprintln!("UNCONFIRMED (seen once, then {seen} of 4 times): {}", f.msg);
        unconfirmed.push(f.msg.clone());
    }
    // replay determinism of the baseline runs: same schedule, same trace
    let mut validated = 0u64;
    let mut nondet = vec![];
    let mut seen = std::collections::HashSet::new();
    for j in jobs.iter() {
        if seen.insert(j.scen.clone()) && confirmed.is_none() && seen.len() <= 12 {
            let same = (0..3).any(|_| {
                let a = run_once(&cx, j, &[], 0, false);
                let b = run_once(&cx, j, &[], 0, false);
                a.trace == b.trace && a.out == b.out
            });
            if same {
                validated += 1;
            } else {
                nondet.push(j.scen.clone());
            }
        }
    }
    for n in &nondet {
        eprintln!("note: scenario {n} is not deterministic under replay");
    }
    if let Some(f) = &confirmed {
        let p = write_replay(base, &jobs[f.job], f);
        println!("{}", f.msg);
        println!(
            "  scenario {} {} deviations {:?}",
            jobs[f.job].scen, jobs[f.job].param, f.sparse
        );
        println!("VIOLATION property={prop} replay={}", p.display());
        code = 1;
    }
    for (sig, (n, msg)) in &tot.known {
        let text = known_all
            .iter()
            .find(|k| k.0 == prop && &k.1 == sig)
            .map(|k| k.2.clone())
            .unwrap_or_default();
        println!("KNOWN-FINDING: property={prop} {sig} {text} (seen in {n} executions; e.g. {})", msg.replace('\n', " "));
    }
    if code == 0 && !tot.errors.is_empty() {
        for e in &tot.errors {
            eprintln!("ERROR {e}");
        }
        code = 3;
    }
    let rule = scen::rule(prop);
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.states, "transitions": tot.steps,
            "traces_validated_against_impl": tot.execs,
            "evaluations": tot.execs, "distinct_nontrivial": tot.outcomes.len(),
            "rule": rule,
            "samples": tot.samples,
            "scheduling_points": tot.points, "deepest_schedule": tot.maxdepth,
            "jobs": jobs.len(), "executions_by_scenario": tot.by_scen,
            "max_deviation_bound": jobs.iter().map(|j| j.bound).max().unwrap_or(0),
            "baselines_replayed_identically": validated,
            "virtual_ms_simulated": tot.vtime_ms,
            "slowest_execution_ms": tot.slowest_ms, "slowest_execution": tot.slowest,
            "jobs_cut_by_time_budget": tot.truncated_jobs,
            "unconfirmed": unconfirmed, "not_deterministic_under_replay": nondet,
            "exhaustive": !tot.truncated && code == 0 && unconfirmed.is_empty() && nondet.is_empty(),
        },
        "assumptions": scen::assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(base.join("evidence"));
    let _ = std::fs::write(
        base.join("evidence").join(format!("{prop}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    );
    println!(
        "{prop} {tier}: {} executions ({} jobs), {} scheduling points, {} distinct states, {} distinct outcomes, {:.1}s{}",
        tot.execs, jobs.len(), tot.points, tot.states, tot.outcomes.len(), t0.elapsed().as_secs_f64(),
        if tot.truncated { " [time budget reached]" } else { "" }
    );
    drop(s);
    code
}
