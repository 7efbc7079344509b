//! Stateless exploration: one forked process per execution, depth-first over
//! deviation sets up to a bound, partitioned over worker processes.
use crate::rt::{self, Opts, Shm};
use crate::scen;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone)]
pub struct Job {
    pub prop: String,
    pub scen: String,
    pub param: Value,
    pub opts: Opts,
    pub bound: u32,
    /// scenario has a crash phase: enumerate every crash point of phase one
    pub crash: bool,
    pub step_limit: u64,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub job: usize,
    pub sparse: Vec<(u32, u8)>,
    pub crash_at: u64,
    pub msg: String,
}

#[derive(Default, Debug)]
pub struct Totals {
    pub execs: u64,
    pub steps: u64,
    pub points: u64,
    pub states: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub truncated: bool,
    pub errors: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub maxdepth: u64,
    pub vtime_ms: u64,
    pub by_scen: BTreeMap<String, u64>,
    pub truncated_jobs: u64,
    pub slowest_ms: u64,
    pub slowest: String,
}

#[derive(Clone, Debug)]
pub struct RunRes {
    pub status: u32,
    pub msg: String,
    pub out: String,
    pub trace: Vec<(u8, u8, u8)>,
    pub steps: u64,
    pub vtime: u64,
    pub crash_points: u64,
    pub log: String,
}

pub fn wipe(dir: &Path) {
    // only ever a scratch directory this program made
    assert!(dir.to_str().unwrap().starts_with("/tmp/shpool-mc."));
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
}

fn child_setup(dir: &Path, stdout: Option<&Path>) {
    unsafe {
        std::env::set_current_dir(dir).unwrap();
        let _ = crate::rt::WORK_DIR.set(dir.to_string_lossy().to_string());
        std::env::set_var("HOME", dir.join("home"));
        std::env::set_var("XDG_RUNTIME_DIR", dir.join("run"));
        for v in [
            "XDG_CONFIG_HOME", "XDG_CONFIG_DIR", "XDG_CONFIG_DIRS", "SHPOOL_SESSION_NAME", "SHPOOL_SESSION_DIR",
            "SSH_AUTH_SOCK", "DISPLAY", "LISTEN_FDS", "LISTEN_PID", "SHPOOL_TEST__OVERRIDE_VERSION",
        ] {
            std::env::remove_var(v);
        }
        std::env::set_var("TERM", "xterm");
        std::env::set_var("TZ", "UTC");
        std::env::set_var("TMPDIR", &dir);
        std::env::set_var("USER", "mc");
        std::env::remove_var("RUST_BACKTRACE");
        std::fs::create_dir_all(dir.join("home")).unwrap();
        std::fs::create_dir_all(dir.join("run")).unwrap();
        let target = stdout.unwrap_or(Path::new("/dev/null"));
        let c = std::ffi::CString::new(target.to_str().unwrap()).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_APPEND, 0o600);
        for t in [1, 2] {
            libc::syscall(libc::SYS_dup2, fd as usize, t, 0, 0, 0, 0);
        }
        let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR, 0);
        libc::syscall(libc::SYS_dup2, n as usize, 0, 0, 0, 0, 0);
        for f in 3..64usize {
            libc::syscall(libc::SYS_close, f, 0, 0, 0, 0, 0);
        }
        // the others are the checker's own: no business of simulated programs
        for f in 64..1024usize {
            libc::syscall(libc::SYS_fcntl, f, libc::F_SETFD as usize, libc::FD_CLOEXEC as usize, 0, 0, 0);
        }
        // grow the descriptor table while single-threaded: growing it later
        // costs an RCU grace period
        let h = libc::syscall(libc::SYS_fcntl, 0usize, libc::F_DUPFD as usize, 1000usize, 0, 0, 0);
        libc::syscall(libc::SYS_close, h as usize, 0, 0, 0, 0, 0);
        // real-time watchdog
        // watchdogs: one for spinning, by processor time, and one for being stuck
        for (which, secs) in [(libc::ITIMER_PROF, 60), (libc::ITIMER_REAL, 120)] {
            let it = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
            };
            libc::syscall(libc::SYS_setitimer, which as usize, &it as *const _ as usize, 0, 0, 0, 0);
        }
        libc::syscall(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as usize, 9, 0, 0, 0, 0);
    }
}

/// Pin the calling process to one of the processors it may use: exactly one
/// thread runs at a time, so hand-overs are cheapest on a single processor.
pub fn pin(n: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let sz = std::mem::size_of::<libc::cpu_set_t>();
        if rt::sysn(libc::SYS_sched_getaffinity, &[0, sz as u64, &mut set as *mut _ as u64]) <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[n % cpus.len()], &mut one);
        rt::sysn(libc::SYS_sched_setaffinity, &[0, sz as u64, &one as *const _ as u64]);
    }
}

pub struct Ctx {
    pub shm: *mut Shm,
    pub states: Option<*mut u64>,
    pub dir: PathBuf,
}

/// set when a hang need not be tried again
pub static HANG_ONCE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn run_once(cx: &Ctx, job: &Job, sparse: &[(u32, u8)], crash_at: u64, verbose: bool) -> RunRes {
    let mut phase = if job.crash { 1 } else { 0 };
    wipe(&cx.dir);
    let mut res;
    loop {
        res = run_phase(cx, job, sparse, crash_at, verbose, phase);
        if phase == 1 && (res.status == rt::ST_PHASE || res.status == rt::ST_OK) {
            let pts = res.crash_points;
            let log1 = res.log.clone();
            let what = res.msg.clone();
            let r2 = run_phase(cx, job, &[], crash_at, verbose, 2);
            let mut r = r2;
            r.crash_points = pts;
            r.trace = res.trace.clone();
            r.steps += res.steps;
            r.log = format!("{log1}\n---- process killed at point {crash_at} ({what}); new process ----\n{}", r.log);
            if r.status == rt::ST_VIOLATION {
                r.msg = format!("{} [after a crash just before effect #{crash_at} ({what})]", r.msg);
            }
            res = r;
        }
        phase = 0;
        if phase == 0 {
            break;
        }
    }
    res
}

fn run_phase(cx: &Ctx, job: &Job, sparse: &[(u32, u8)], crash_at: u64, verbose: bool, phase: u32) -> RunRes {
    for attempt in 0..3 {
        unsafe {
            (*cx.shm).status = rt::ST_NONE;
            (*cx.shm).trace_len = 0;
            (*cx.shm).log_len = 0;
            (*cx.shm).out_len = 0;
            (*cx.shm).msg_len = 0;
            (*cx.shm).steps = 0;
            (*cx.shm).crash_points = 0;
        }
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let errf = std::env::var("MC_STDERR").ok().map(PathBuf::from);
            child_setup(&cx.dir, errf.as_deref());
            rt::init(rt::Init {
                sparse: sparse.to_vec(),
                opts: job.opts,
                shm: cx.shm,
                states: cx.states,
                verbose,
                crash_at: if phase == 1 { crash_at } else { 0 },
                step_limit: job.step_limit,
                prop: job.prop.clone(),
            });
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                scen::run(&job.scen, &job.param, phase)
            }));
            match r {
                Ok(()) => rt::finish(rt::ST_OK, ""),
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    rt::finish(rt::ST_ERROR, &format!("harness panic: {m} {:?}", rt::rt().panics))
                }
            }
        }
        let mut st = 0i32;
        loop {
            let r = rt::sysn(libc::SYS_wait4, &[pid as u64, &mut st as *mut _ as u64, 0, 0]);
            if r == pid as i64 || r != -(libc::EINTR as i64) {
                break;
            }
        }
        let shm = unsafe { &*cx.shm };
        let mut status = shm.status;
        let mut msg = String::from_utf8_lossy(&shm.msg[..shm.msg_len as usize]).to_string();
        if status == rt::ST_NONE {
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            if sig == libc::SIGKILL && attempt < 2 {
                continue; // out of memory killer or the like
            }
            if sig == libc::SIGALRM || sig == libc::SIGPROF {
                if attempt < 1 && !HANG_ONCE.load(Ordering::Relaxed) {
                    continue;
                }
                status = rt::ST_VIOLATION;
                msg = "hang: the process under test spins without ever reaching a scheduling point".into();
            } else {
                status = rt::ST_VIOLATION;
                msg = format!("crash: the process under test died (wait status {st:#x}, signal {sig})");
            }
        }
        return RunRes {
            status,
            msg,
            out: String::from_utf8_lossy(&shm.out[..shm.out_len as usize]).to_string(),
            trace: shm.trace[..shm.trace_len as usize].to_vec(),
            steps: shm.steps,
            vtime: shm.vtime_ns,
            crash_points: shm.crash_points,
            log: String::from_utf8_lossy(&shm.log[..shm.log_len as usize]).to_string(),
        };
    }
    unreachable!()
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// The part of a violation message that identifies what failed.
pub fn signature(m: &str) -> String {
    m.split(':').next().unwrap_or("").trim().to_string()
}

struct W<'a> {
    cx: Ctx,
    jobs: &'a [Job],
    deadline: Instant,
    known: &'a [(String, String)],
    out: Totals,
    found: Vec<Found>,
    stop: *const AtomicU64,
}

impl<'a> W<'a> {
    fn timed(&mut self, ji: usize, sparse: &[(u32, u8)], crash_at: u64) -> RunRes {
        let t = Instant::now();
        let r = run_once(&self.cx, &self.jobs[ji], sparse, crash_at, false);
        let ms = t.elapsed().as_millis() as u64;
        if ms > self.out.slowest_ms {
            self.out.slowest_ms = ms;
            self.out.slowest = format!("{} {} {sparse:?} {crash_at}", self.jobs[ji].scen, self.jobs[ji].param);
        }
        r
    }
    fn record(&mut self, ji: usize, sparse: &[(u32, u8)], crash_at: u64, r: &RunRes) -> bool {
        let job = &self.jobs[ji];
        self.out.execs += 1;
        self.out.steps += r.steps;
        self.out.points += r.trace.len() as u64;
        self.out.maxdepth = self.out.maxdepth.max(r.trace.len() as u64);
        self.out.vtime_ms += r.vtime / 1_000_000;
        *self.out.by_scen.entry(job.scen.clone()).or_default() += 1;
        let key = fnv(format!("{}|{}|{}", job.scen, job.param, r.out).as_bytes());
        if self.out.outcomes.insert(key) && self.out.samples.len() < 6 {
            self.out.samples.push(json!({
                "scenario": job.scen, "param": job.param, "deviations": sparse, "crash_at": crash_at,
                "scheduling_points": r.trace.len(), "steps": r.steps, "outcome": r.out.chars().take(400).collect::<String>()
            }));
        }
        match r.status {
            rt::ST_OK | rt::ST_PRUNED => true,
            rt::ST_VIOLATION => {
                let sig = signature(&r.msg);
                if self.known.iter().any(|(p, s)| *p == job.prop && *s == sig) {
                    let e = self.out.known.entry(sig).or_insert((0, r.msg.clone()));
                    e.0 += 1;
                    return true;
                }
                if std::env::var("MC_ALL").is_ok() {
                    let k = format!("{} {}", job.scen, sig);
                    let e = self.out.known.entry(k).or_insert((0, format!("{} :: {} {:?} {}", r.msg, job.param, sparse, crash_at)));
                    e.0 += 1;
                    return true;
                }
                self.found.push(Found { job: ji, sparse: sparse.to_vec(), crash_at, msg: r.msg.clone() });
                unsafe { (*self.stop).store(1, Ordering::Relaxed) };
                false
            }
            _ => {
                if self.out.errors.len() < 10 {
                    self.out.errors.push(format!("{} {} {:?}: {}", job.scen, job.param, sparse, r.msg));
                }
                if std::env::var("MC_ALL").is_ok() {
                    return true;
                }
                unsafe { (*self.stop).store(1, Ordering::Relaxed) };
                false
            }
        }
    }
    fn over(&mut self) -> bool {
        if unsafe { (*self.stop).load(Ordering::Relaxed) } != 0 {
            return true;
        }
        if Instant::now() > self.deadline {
            self.out.truncated = true;
            return true;
        }
        false
    }
    fn task(&mut self, ji: usize, slice: u64, nslices: u64) {
        if self.over() {
            self.out.truncated_jobs += 1;
            return;
        }
        let jobs = self.jobs;
        let job = &jobs[ji];
        let r = self.timed(ji, &[], 0);
        if slice == 0 {
            if !self.record(ji, &[], 0, &r) {
                return;
            }
        } else if r.status != rt::ST_OK {
            let _ = self.record(ji, &[], 0, &r);
            return;
        }
        if job.crash {
            // every crash point of the first phase, in order
            for k in 1..=r.crash_points {
                if k % nslices != slice {
                    continue;
                }
                if self.over() {
                    return;
                }
                let rr = self.timed(ji, &[], k);
                if !self.record(ji, &[], k, &rr) {
                    return;
                }
            }
            return;
        }
        if job.bound == 0 {
            return;
        }
        let mut idx = 0u64;
        for pos in 0..r.trace.len() {
            for alt in 1..r.trace[pos].0 {
                idx += 1;
                if idx % nslices != slice {
                    continue;
                }
                if !self.dfs(ji, vec![(pos as u32, alt)]) {
                    return;
                }
            }
        }
    }
    fn dfs(&mut self, ji: usize, sparse: Vec<(u32, u8)>) -> bool {
        if self.over() {
            return false;
        }
        let jobs = self.jobs;
        let job = &jobs[ji];
        let r = self.timed(ji, &sparse, 0);
        if !self.record(ji, &sparse, 0, &r) {
            return false;
        }
        if (sparse.len() as u32) < job.bound {
            let from = sparse.last().unwrap().0 as usize + 1;
            for pos in from..r.trace.len() {
                for alt in 1..r.trace[pos].0 {
                    let mut s = sparse.clone();
                    s.push((pos as u32, alt));
                    if !self.dfs(ji, s) {
                        return false;
                    }
                }
            }
        }
        true
    }
}

pub fn explore(
    jobs: &[Job],
    budget_s: f64,
    known: &[(String, String)],
    root: &Path,
) -> (Totals, Vec<Found>) {
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let states = rt::map_states();
    // shared task counter + stop flag
    let ctl = rt::sysn(
        libc::SYS_mmap,
        &[0, 4096, (libc::PROT_READ | libc::PROT_WRITE) as u64, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as u64, u64::MAX, 0],
    ) as *mut AtomicU64;
    let next = unsafe { &*ctl };
    let stop = unsafe { ctl.add(1) };
    // tasks
    let mut tasks: Vec<(usize, u64, u64)> = vec![];
    for (i, j) in jobs.iter().enumerate() {
        let n = if j.bound == 0 && !j.crash { 1 } else if j.bound >= 2 { 64 } else { 8 };
        for s in 0..n {
            tasks.push((i, s, n));
        }
    }
    let deadline = Instant::now() + std::time::Duration::from_secs_f64(budget_s);
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::syscall(libc::SYS_prctl, libc::PR_SET_PDEATHSIG as usize, 9, 0, 0, 0, 0) };
            pin(w);
            let dir = root.join(format!("w{w}"));
            let mut wk = W {
                cx: Ctx { shm: rt::map_shm(), states: Some(states), dir },
                jobs,
                deadline,
                known,
                out: Totals::default(),
                found: vec![],
                stop,
            };
            loop {
                let t = next.fetch_add(1, Ordering::Relaxed) as usize;
                if t >= tasks.len() {
                    break;
                }
                let (ji, s, n) = tasks[t];
                wk.task(ji, s, n);
            }
            let o = &wk.out;
            let v = json!({
                "execs": o.execs, "steps": o.steps, "points": o.points,
                "outcomes": o.outcomes.iter().collect::<Vec<_>>(), "samples": o.samples, "truncated": o.truncated,
                "errors": o.errors, "known": o.known.iter().map(|(k,v)| json!([k, v.0, v.1])).collect::<Vec<_>>(),
                "maxdepth": o.maxdepth, "vtime_ms": o.vtime_ms, "by_scen": o.by_scen, "truncated_jobs": o.truncated_jobs, "slowest_ms": o.slowest_ms, "slowest": o.slowest,
                "found": wk.found.iter().map(|f| json!([f.job, f.sparse, f.crash_at, f.msg])).collect::<Vec<_>>(),
            });
            let mut f = std::fs::File::create(root.join(format!("w{w}.json"))).unwrap();
            f.write_all(v.to_string().as_bytes()).unwrap();
            drop(f);
            rt::sysn(libc::SYS_exit_group, &[0]);
        }
        pids.push(pid);
    }
    let mut tot = Totals::default();
    let mut found = vec![];
    for (w, p) in pids.iter().enumerate() {
        let mut st = 0i32;
        rt::sysn(libc::SYS_wait4, &[*p as u64, &mut st as *mut _ as u64, 0, 0]);
        match std::fs::read_to_string(root.join(format!("w{w}.json"))) {
            Ok(s) => {
                let v: Value = serde_json::from_str(&s).unwrap();
                tot.execs += v["execs"].as_u64().unwrap();
                tot.steps += v["steps"].as_u64().unwrap();
                tot.points += v["points"].as_u64().unwrap();
                tot.vtime_ms += v["vtime_ms"].as_u64().unwrap();
                tot.truncated_jobs += v["truncated_jobs"].as_u64().unwrap();
                if v["slowest_ms"].as_u64().unwrap() > tot.slowest_ms {
                    tot.slowest_ms = v["slowest_ms"].as_u64().unwrap();
                    tot.slowest = v["slowest"].as_str().unwrap().to_string();
                }
                tot.maxdepth = tot.maxdepth.max(v["maxdepth"].as_u64().unwrap());
                for x in v["outcomes"].as_array().unwrap() {
                    tot.outcomes.insert(x.as_u64().unwrap());
                }
                for (i, x) in v["samples"].as_array().unwrap().iter().enumerate() {
                    if i < 2 {
                        tot.samples.push(x.clone());
                    }
                }
                tot.truncated |= v["truncated"].as_bool().unwrap();
                for x in v["errors"].as_array().unwrap() {
                    tot.errors.push(x.as_str().unwrap().to_string());
                }
                for x in v["known"].as_array().unwrap() {
                    let e = tot
                        .known
                        .entry(x[0].as_str().unwrap().to_string())
                        .or_insert((0, x[2].as_str().unwrap().to_string()));
                    e.0 += x[1].as_u64().unwrap();
                }
                for (k, x) in v["by_scen"].as_object().unwrap() {
                    *tot.by_scen.entry(k.clone()).or_default() += x.as_u64().unwrap();
                }
                for x in v["found"].as_array().unwrap() {
                    found.push(Found {
                        job: x[0].as_u64().unwrap() as usize,
                        sparse: serde_json::from_value(x[1].clone()).unwrap(),
                        crash_at: x[2].as_u64().unwrap(),
                        msg: x[3].as_str().unwrap().to_string(),
                    });
                }
            }
            Err(e) => tot.errors.push(format!("worker {w} died: {st:#x} {e}")),
        }
    }
    for i in 0..rt::STATE_TAB {
        if unsafe { *states.add(i) } != 0 {
            tot.states += 1;
        }
    }
    rt::sysn(libc::SYS_munmap, &[states as u64, (rt::STATE_TAB * 8) as u64]);
    (tot, found)
}
