//! Controlled runtime: every thread of the process under test (the real
//! shpool daemon / client code plus the scripted peers) runs under one baton.
//! The libc entry points that can block, observe time, talk to another thread
//! or touch a child process are defined *here*, so that the statically linked
//! Rust code of shpool, std and all its dependencies resolves to them.
//!
//! * exactly one thread runs at a time; the scheduler picks who,
//! * a blocking call becomes a scheduler wait (readiness is asked from the
//!   kernel with a zero-timeout ppoll, futexes are emulated),
//! * clocks are virtual and only advance when nothing can run,
//! * pseudo terminals are socketpairs, forked shells are virtual processes
//!   (the forked child really runs up to its exec, which is recorded).

use std::arch::asm;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, AtomicBool, AtomicU32, AtomicUsize, Ordering};

use libc::{c_char, c_int, c_long, c_void, pid_t, size_t, ssize_t};

// ---------------------------------------------------------------- raw syscalls
#[inline]
pub unsafe fn sys6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
macro_rules! fail_if {
    ($what:expr, $errno:expr) => {
        if let Some(e) = fault($what, $errno) {
            set_errno(e);
            return -1;
        }
    };
}
macro_rules! sys {
    ($n:expr $(,$a:expr)*) => { sysn($n as i64, &[$($a as u64),*]) };
}
#[inline]
pub fn sysn(n: i64, a: &[u64]) -> i64 {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    unsafe { sys6(n, g(0), g(1), g(2), g(3), g(4), g(5)) }
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- shared memory
pub const MAX_TRACE: usize = 120_000;
pub const SHM_LOG: usize = 1 << 20;
pub const STATE_TAB: usize = 1 << 22;

pub const ST_NONE: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_ERROR: u32 = 3; // harness error / divergence
pub const ST_PRUNED: u32 = 4;
pub const ST_PHASE: u32 = 5; // process "crashed" at the requested crash point

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub trace_len: u32,
    pub steps: u64,
    pub outcome: u64,
    pub vtime_ns: u64,
    pub crash_points: u64,
    pub msg_len: u32,
    pub out_len: u32,
    pub msg: [u8; 8192],
    pub out: [u8; 65536],
    /// (number of options, chosen option, step kind)
    pub trace: [(u8, u8, u8); MAX_TRACE],
    pub exec_len: u32,
    pub exec: [u8; 1 << 18],
    pub log_len: u32,
    pub log: [u8; SHM_LOG],
}

// ---------------------------------------------------------------- scheduler data
#[derive(Clone, Debug)]
pub enum Cond {
    None,
    Futex(usize),
    Fds(Vec<(i32, i16)>),
    Sleep,
    Join(usize),
    Pid(pid_t),
    Never,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stall {
    No,
    /// runs only when no other thread can run
    Quiesce,
    /// additionally lets virtual time pass up to this instant
    Until(u64),
}

pub struct Thr {
    pub gate: Box<AtomicU32>,
    pub cond: Cond,
    pub woken: bool,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub finished: bool,
    pub stall: Stall,
    /// an event that may be injected at any scheduling point
    pub inj: bool,
    /// locks (of parking_lot) it holds
    pub held: u32,
    pub last: u64,
    pub steps: u64,
    pub group: u32,
    pub pth: u64,
    pub name: String,
    pub lastop: u64,
}

#[derive(Clone, Debug)]
pub struct ExecReport {
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub cwd: String,
    pub path: String,
    /// inherited descriptors that survive the exec: (fd, description)
    pub fds: Vec<(i32, String)>,
    pub noecho: bool,
    pub umask: u32,
    /// bit masks of blocked and ignored signals
    pub sigs: (u64, u64),
    pub raw_exit: Option<i32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum HupPolicy {
    Die,
    Ignore,
    /// dies this many ns after the SIGHUP
    Delay(u64),
}

pub struct VProc {
    pub pid: pid_t,
    pub tty: usize,
    pub status: Option<i32>, // raw wait status once dead
    pub reaped: bool,
    pub signals: Vec<(u64, i32)>,
    pub signals_after_reap: Vec<i32>,
    pub hup: HupPolicy,
    pub die_at: Option<(u64, i32)>,
    /// death leaves the tty open (a background process still holds it)
    pub tty_survives: bool,
    pub comm: String,
    pub exec: Option<ExecReport>,
    pub born: u64,
    pub died: Option<u64>,
}

pub struct VTty {
    pub slave: i32, // -1 once closed
    pub slave_ino: u64,
    pub master_ino: u64,
    pub winsz: (u16, u16, u16, u16),
    pub winsz_log: Vec<(u64, u16, u16)>,
    pub echo: bool,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub switch: bool,  // alternatives "switch to thread t"
    pub stall_q: bool, // alternative "stall until quiescence"
    pub stall_t: u64,  // alternative "stall for this many ns" (0 = off)
    pub kinds: u64,    // bit mask of step kinds at which alternatives are recorded
    pub groups: u32,   // only threads of these groups may be deviated
    pub block_choice: bool, // alternatives when the running thread blocks
    pub inject: bool,       // alternative "run a pending injected event now"
}
pub const K_START: u8 = 0;
pub const K_LOCK: u8 = 1;
pub const K_TRYLOCK: u8 = 2;
pub const K_CHAN: u8 = 3;
pub const K_SEL: u8 = 4;
pub const K_IO_R: u8 = 5;
pub const K_IO_W: u8 = 6;
pub const K_POLL: u8 = 7;
pub const K_FUTEX: u8 = 8;
pub const K_SLEEP: u8 = 9;
pub const K_CONN: u8 = 10;
pub const K_CLOSE: u8 = 11;
pub const K_PROC: u8 = 12;
pub const K_SPAWN: u8 = 13;
pub const K_YIELD: u8 = 14;
pub const K_EXIT: u8 = 15;
pub const K_BLOCK: u8 = 16;
pub const K_USER: u8 = 17;
pub const K_FS: u8 = 18;
pub const K_WAKE: u8 = 19;
pub const K_UNLOCK: u8 = 20;
pub const K_ACQUIRED: u8 = 21;
pub const KIND_NAMES: [&str; 24] = [
    "start", "lock", "trylock", "chan", "select", "read", "write", "poll", "futex", "sleep", "conn",
    "close", "proc", "spawn", "yield", "exit", "block", "user", "fs", "wake", "unlock", "", "", "",
];

pub struct Rt {
    pub thr: Vec<Thr>,
    /// unfinished threads
    pub live: Vec<usize>,
    pub cur: usize,
    pub now: u64,
    pub step: u64,
    pub choices: Vec<u8>,
    pub sparse: Vec<(u32, u8)>,
    pub trace_on: bool,
    pub opts: Opts,
    pub shm: *mut Shm,
    pub procs: BTreeMap<pid_t, VProc>,
    pub ttys: Vec<VTty>,
    pub next_pid: pid_t,
    pub last_tty: HashMap<usize, usize>,
    pub exits: Vec<(usize, i32)>, // (thread, code) of intercepted process exits
    pub verbose: bool,
    pub since_time: u64,
    pub futile_yields: u32,
    pub rng: u64,
    pub crash_at: u64,
    pub crash_count: u64,
    pub crash_groups: u32,
    pub panics: Vec<String>,
    pub step_limit: u64,
    pub frag: HashMap<u64, usize>, // inode -> max bytes per read
    pub conns: Vec<(u32, u64)>,    // (group, socket inode) of connections made by simulated processes
    pub states: Option<*mut u64>,
    pub new_states: u64,
    pub prop: String,
    pub sigs: HashMap<u64, usize>,
    /// stands in for /etc/environment
    pub etc_environment: Option<String>,
    /// directory standing in for /etc where shpool's own files are concerned
    pub etc_dir: Option<String>,
    /// descriptors opened by simulated daemon processes: (group, descriptor, inode)
    pub pfds: Vec<(u32, i32, u64)>,
    /// groups whose environment asks them to daemonize
    pub autovar: Vec<u32>,
    /// how each started daemon process ended: (group, exit status)
    pub ended: Vec<(u32, i32)>,
    pub next_group: u32,
    /// a crash point kills only the process that reaches it
    pub crash_kill: bool,
    pub crashed: Option<(u32, String)>,
    /// resource failures: from the `fault_at`th call (0: none) on, `fault_len` calls
    pub fault_at: u64,
    pub fault_len: u64,
    /// 0: any, else a set of 1 threads, 2 processes, 4 descriptors, 8 disk
    pub fault_class: u64,
    pub fault_count: u64,
    pub faults: Vec<String>,
    /// daemon started by the program: its arguments
    pub on_spawn: Option<fn(u32, Vec<String>)>,
    /// only this process sees the signal being raised
    pub raise_to: u32,
    /// group of the next thread created
    pub spawn_group: u32,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static CHILD: AtomicBool = AtomicBool::new(false);
static CHILD_TTY: AtomicUsize = AtomicUsize::new(usize::MAX);
static mut RT: *mut Rt = std::ptr::null_mut();
static mut SHM: *mut Shm = std::ptr::null_mut();

thread_local! {
    static TID: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
#[inline]
pub fn managed() -> bool {
    ACTIVE.load(Ordering::Relaxed)
        && !CHILD.load(Ordering::Relaxed)
        && TID.with(|t| t.get()) != usize::MAX
}
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
pub fn now_ns() -> u64 {
    rt().now
}
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
const REAL_BASE: u64 = 1_700_000_000 * SEC;
const MONO_BASE: u64 = 1_000 * SEC;

pub fn map_shm() -> *mut Shm {
    let p = sys!(
        libc::SYS_mmap,
        0,
        std::mem::size_of::<Shm>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1i64,
        0
    );
    assert!(p > 0, "mmap shm {p}");
    p as *mut Shm
}
pub fn map_states() -> *mut u64 {
    let p = sys!(
        libc::SYS_mmap,
        0,
        STATE_TAB * 8,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1i64,
        0
    );
    assert!(p > 0, "mmap states {p}");
    p as *mut u64
}

fn note_state(tab: *mut u64, h: u64) -> bool {
    let h = if h == 0 { 1 } else { h };
    let mut i = (h as usize) & (STATE_TAB - 1);
    for _ in 0..64 {
        let slot = unsafe { &*(tab.add(i) as *const std::sync::atomic::AtomicU64) };
        let v = slot.load(Ordering::Relaxed);
        if v == h {
            return false;
        }
        if v == 0 && slot.compare_exchange(0, h, Ordering::Relaxed, Ordering::Relaxed).is_ok() {
            return true;
        }
        if slot.load(Ordering::Relaxed) == h {
            return false;
        }
        i = (i + 1) & (STATE_TAB - 1);
    }
    false
}
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x ^ (x >> 27)
}

pub struct Init {
    pub sparse: Vec<(u32, u8)>,
    pub opts: Opts,
    pub shm: *mut Shm,
    pub states: Option<*mut u64>,
    pub verbose: bool,
    pub crash_at: u64,
    pub step_limit: u64,
    pub prop: String,
}

/// Turn the calling (only) thread of this freshly forked process into managed
/// thread 0.
pub fn init(i: Init) {
    let r = Box::new(Rt {
        thr: vec![Thr {
            gate: Box::new(AtomicU32::new(0)),
            cond: Cond::None,
            woken: false,
            deadline: None,
            timed_out: false,
            finished: false,
            stall: Stall::No,
            inj: false,
            held: 0,
            last: 0,
            steps: 0,
            group: 1,
            pth: unsafe { libc::pthread_self() } as u64,
            name: "main".into(),
            lastop: 0,
        }],
        cur: 0,
        now: 0,
        step: 0,
        choices: vec![],
        sparse: i.sparse,
        trace_on: false,
        opts: i.opts,
        shm: i.shm,
        procs: BTreeMap::new(),
        ttys: vec![],
        next_pid: 4_000_001,
        last_tty: HashMap::new(),
        exits: vec![],
        conns: vec![],
        verbose: i.verbose,
        since_time: 0,
        futile_yields: 0,
        rng: 0x1234567,
        crash_at: i.crash_at,
        crash_count: 0,
        crash_groups: u32::MAX,
        live: vec![0],
        panics: vec![],
        step_limit: i.step_limit,
        frag: HashMap::new(),
        states: i.states,
        new_states: 0,
        prop: i.prop,
        sigs: HashMap::new(),
        etc_environment: None,
        etc_dir: None,
        pfds: vec![],
        autovar: vec![],
        ended: vec![],
        next_group: G_PROC,
        crash_kill: false,
        fault_at: 0,
        fault_len: 0,
        fault_class: 0,
        fault_count: 0,
        faults: vec![],
        crashed: None,
        on_spawn: None,
        raise_to: 0,
        spawn_group: 0,
    });
    unsafe {
        RT = Box::into_raw(r);
        SHM = i.shm;
        (*SHM).status = ST_NONE;
        (*SHM).trace_len = 0;
        (*SHM).steps = 0;
        (*SHM).msg_len = 0;
        (*SHM).out_len = 0;
        (*SHM).outcome = 0;
        (*SHM).log_len = 0;
    }
    TID.with(|t| t.set(0));
    // learn the real pthread_create before becoming active
    unsafe {
        let _ = real_pthread_create();
        let _ = real_pthread_join();
        let _ = real_fork();
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        if managed() {
            let r = rt();
            let t = tid();
            let g = r.thr[t].group;
            if g != 1 || !msg.contains("MC-STOP") {
                logln(&format!("PANIC [{}:{}] {}", t, r.thr[t].name, msg));
            }
            r.panics.push(format!("[group {g} thread {}] {msg}", r.thr[t].name));
        }
    }));
    ACTIVE.store(true, Ordering::SeqCst);
}

pub fn logln(s: &str) {
    if unsafe { RT.is_null() } {
        return;
    }
    let r = rt();
    if !r.verbose {
        return;
    }
    let shm = unsafe { &mut *r.shm };
    let line = format!("{:>9.3}ms {}\n", r.now as f64 / 1e6, s);
    let b = line.as_bytes();
    let l = shm.log_len as usize;
    if l + b.len() < SHM_LOG {
        shm.log[l..l + b.len()].copy_from_slice(b);
        shm.log_len += b.len() as u32;
    }
}

pub fn finish(status: u32, msg: &str) -> ! {
    let r = rt();
    let shm = unsafe { &mut *r.shm };
    if shm.status == ST_NONE {
        let b = msg.as_bytes();
        let n = b.len().min(shm.msg.len());
        shm.msg[..n].copy_from_slice(&b[..n]);
        shm.msg_len = n as u32;
        shm.steps = r.step;
        shm.vtime_ns = r.now;
        shm.crash_points = r.crash_count;
        // a deviation that was never reached means the replay diverged
        if status != ST_ERROR && status != ST_PHASE {
            if let Some((p, _)) = r.sparse.last() {
                if *p >= shm.trace_len && status == ST_OK {
                    let m = b"DIVERGED: recorded deviation beyond the end of the trace";
                    shm.msg[..m.len()].copy_from_slice(m);
                    shm.msg_len = m.len() as u32;
                    shm.status = ST_ERROR;
                    unsafe { sys6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0) };
                }
            }
        }
        shm.status = status;
    }
    unsafe { sys6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0) };
    unreachable!()
}
pub fn violation(msg: &str) -> ! {
    logln(&format!("VIOLATION {msg}"));
    finish(ST_VIOLATION, msg)
}
pub fn set_output(b: &[u8]) {
    let shm = unsafe { &mut *rt().shm };
    let n = b.len().min(shm.out.len());
    shm.out[..n].copy_from_slice(&b[..n]);
    shm.out_len = n as u32;
}

// ---------------------------------------------------------------- scheduling
fn gate_wait(g: &AtomicU32) {
    loop {
        if g.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        sys!(libc::SYS_futex, g.as_ptr(), libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0, 0);
    }
}
fn gate_open(g: &AtomicU32) {
    g.store(1, Ordering::Release);
    sys!(libc::SYS_futex, g.as_ptr(), libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
}

fn fill_enabled(r: &mut Rt, en: &mut Vec<usize>) {
    en.clear();
    // one ppoll for everything
    let mut pfds: Vec<libc::pollfd> = Vec::new();
    let mut owner: Vec<usize> = Vec::new();
    for i in r.live.iter().copied() {
        let t = &r.thr[i];
        if let Cond::Fds(v) = &t.cond {
            for (fd, ev) in v {
                pfds.push(libc::pollfd { fd: *fd, events: *ev, revents: 0 });
                owner.push(i);
            }
        }
    }
    let mut fd_ready = vec![];
    if !pfds.is_empty() {
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        let n = sys!(libc::SYS_ppoll, pfds.as_mut_ptr(), pfds.len(), &ts as *const _, 0, 0);
        if n > 0 {
            for (p, o) in pfds.iter().zip(&owner) {
                if p.revents != 0 {
                    fd_ready.push(*o);
                }
            }
        }
    }
    for k in 0..r.live.len() {
        let i = r.live[k];
        let ok = match &r.thr[i].cond {
            Cond::None => true,
            Cond::Futex(_) => r.thr[i].woken,
            Cond::Fds(_) => fd_ready.contains(&i),
            Cond::Sleep => false,
            Cond::Join(t) => r.thr[*t].finished,
            Cond::Pid(p) => {
                if *p == -1 {
                    r.procs.values().any(|p| p.status.is_some() && !p.reaped)
                } else {
                    r.procs.get(p).map(|p| p.status.is_some()).unwrap_or(true)
                }
            }
            Cond::Never => false,
        };
        let expired = r.thr[i].deadline.map(|d| d <= r.now).unwrap_or(false);
        if ok || expired {
            r.thr[i].timed_out = !ok && expired;
            en.push(i);
        }
    }
}

fn state_hash(r: &Rt, kind: u8) -> u64 {
    let mut h = mix(0xabcdef, kind as u64);
    h = mix(h, r.cur as u64);
    for t in r.thr.iter() {
        h = mix(h, t.steps);
        h = mix(h, t.lastop);
        h = mix(h, t.finished as u64);
    }
    h
}

/// Core: the current thread's `cond`/`deadline` are set; pick who runs next.
/// `yielding`: the current thread could continue (a pure scheduling point).
fn reschedule(kind: u8, yielding: bool) {
    let r = rt();
    let me = r.cur;
    debug_assert_eq!(me, tid());
    r.step += 1;
    r.since_time += 1;
    r.thr[me].steps += 1;
    r.thr[me].lastop = mix(r.thr[me].lastop, kind as u64);
    if r.step > r.step_limit || r.since_time > 60_000 {
        let who: Vec<String> = r
            .thr
            .iter()
            .filter(|t| !t.finished)
            .map(|t| format!("{}:{:?}", t.name, t.cond))
            .collect();
        violation(&format!(
            "no progress: step limit reached (step {}, {} steps without time passing, now {}ms): {}",
            r.step,
            r.since_time,
            r.now / MS,
            who.join(", ")
        ));
    }
    let mut en: Vec<usize> = vec![];
    loop {
        // virtual deaths that are due
        let due: Vec<pid_t> = r
            .procs
            .values()
            .filter(|p| p.status.is_none() && p.die_at.map(|d| d.0 <= r.now).unwrap_or(false))
            .map(|p| p.pid)
            .collect();
        for p in due {
            let st = r.procs[&p].die_at.unwrap().1;
            proc_die(p, st);
        }
        fill_enabled(r, &mut en);
        // stalls
        for k in 0..r.live.len() {
            let i = r.live[k];
            if let Stall::Until(t) = r.thr[i].stall {
                if t <= r.now {
                    r.thr[i].stall = Stall::No;
                }
            }
        }
        let act: Vec<usize> = en.iter().copied().filter(|i| r.thr[*i].stall == Stall::No).collect();
        if act.is_empty() {
            // release a quiescence-stalled thread first
            if let Some(i) = en
                .iter()
                .copied()
                .filter(|i| r.thr[*i].stall == Stall::Quiesce)
                .min_by_key(|i| (!r.thr[*i].inj, *i))
            {
                r.thr[i].stall = Stall::No;
                continue;
            }
            // advance time
            let mut next: Option<u64> = None;
            for i in r.live.iter().copied() {
                let t = &r.thr[i];
                let mut c = None;
                match t.stall {
                    Stall::Until(u) => c = Some(if en.contains(&i) { u } else { t.deadline.map(|d| d.max(u)).unwrap_or(u64::MAX) }),
                    _ => {
                        if let Some(d) = t.deadline {
                            c = Some(d)
                        }
                    }
                }
                if let Some(c) = c {
                    if c != u64::MAX {
                        next = Some(next.map_or(c, |n: u64| n.min(c)));
                    }
                }
            }
            for p in r.procs.values() {
                if p.status.is_none() {
                    if let Some((d, _)) = p.die_at {
                        next = Some(next.map_or(d, |n: u64| n.min(d)));
                    }
                }
            }
            match next {
                Some(t) => {
                    r.now = r.now.max(t);
                    r.since_time = 0;
                    continue;
                }
                None => {
                    let who: Vec<String> = r
                        .thr
                        .iter()
                        .filter(|t| !t.finished)
                        .map(|t| format!("{}:{:?}", t.name, t.cond))
                        .collect();
                    violation(&format!("deadlock: no thread can ever run again: {}", who.join(", ")));
                }
            }
        }
        // options
        let lru = |set: &[usize], r: &Rt| -> usize {
            *set.iter().min_by_key(|i| (r.thr[**i].last, **i)).unwrap()
        };
        let me_ok = yielding && act.contains(&me) && kind != K_YIELD;
        // (thread, stall to apply to me)
        let mut opt: Vec<(usize, Stall)> = vec![];
        let record = r.trace_on
            && (r.opts.kinds >> kind) & 1 == 1
            && (r.opts.groups >> r.thr[me].group) & 1 == 1;
        if me_ok {
            opt.push((me, Stall::No));
            if record && act.len() > 1 {
                let others: Vec<usize> = act.iter().copied().filter(|x| *x != me).collect();
                let d = lru(&others, r);
                if r.opts.stall_q {
                    opt.push((d, Stall::Quiesce));
                }
                if r.opts.stall_t > 0 {
                    opt.push((d, Stall::Until(r.now + r.opts.stall_t)));
                }
                if r.opts.switch {
                    for t in others {
                        opt.push((t, Stall::No));
                    }
                }
            } else if record && r.opts.stall_t > 0 && r.opts.stall_q {
                // nobody else can run right now, but time may pass
                opt.push((usize::MAX, Stall::Until(r.now + r.opts.stall_t)));
            }
        } else {
            let cand: Vec<usize> = if kind == K_YIELD && act.len() > 1 {
                act.iter().copied().filter(|x| *x != me).collect()
            } else {
                act.clone()
            };
            let d = lru(&cand, r);
            opt.push((d, Stall::No));
            if record && r.opts.block_choice {
                for t in cand {
                    if t != d {
                        opt.push((t, Stall::No));
                    }
                }
            }
        }
        if record && r.opts.inject {
            for i in en.iter().copied() {
                if r.thr[i].inj && r.thr[i].stall != Stall::No && i != me {
                    opt.push((i, Stall::No));
                }
            }
        }
        let mut ch = 0usize;
        if opt.len() > 1 {
            let shm = unsafe { &mut *r.shm };
            let pos = shm.trace_len as usize;
            if pos >= MAX_TRACE {
                finish(ST_ERROR, "trace too long");
            }
            if let Some((_, c)) = r.sparse.iter().find(|(p, _)| *p as usize == pos) {
                ch = *c as usize;
                if ch >= opt.len() {
                    finish(ST_ERROR, &format!("DIVERGED: option {} of {} at point {}", ch, opt.len(), pos));
                }
            }
            shm.trace[pos] = (opt.len().min(255) as u8, ch as u8, kind);
            shm.trace_len += 1;
            if ch != 0 {
                let (t, s) = opt[ch];
                logln(&format!(
                    "*** deviation at point {pos} ({}): thread {} [{}] -> {} {:?}",
                    KIND_NAMES[kind as usize],
                    me,
                    r.thr[me].name,
                    if t == usize::MAX { "time".into() } else { format!("{} [{}]", t, r.thr[t].name) },
                    s
                ));
            }
            if let Some(tab) = r.states {
                if note_state(tab, state_hash(r, kind)) {
                    r.new_states += 1;
                }
            }
        }
        let (t, s) = opt[ch];
        if s != Stall::No {
            r.thr[me].stall = s;
        }
        if t == usize::MAX {
            continue; // me stalled, nobody else enabled: recompute (time advances)
        }
        r.thr[t].last = r.step;
        r.thr[t].stall = Stall::No;
        if t == me {
            r.thr[me].cond = Cond::None;
            return;
        }
        r.thr[t].cond = Cond::None;
        r.cur = t;
        // after the baton is passed on, nothing of `r` may be touched here
        let g: *const AtomicU32 = &*r.thr[me].gate;
        let fin = r.thr[me].finished;
        let tg: *const AtomicU32 = &*r.thr[t].gate;
        gate_open(unsafe { &*tg });
        if !fin {
            gate_wait(unsafe { &*g });
        }
        return;
    }
}

pub fn yield_point(kind: u8) {
    if !managed() {
        return;
    }
    reschedule(kind, true);
}
/// Block on a condition; true = satisfied, false = timed out.
pub fn block_on(kind: u8, c: Cond, deadline: Option<u64>) -> bool {
    let r = rt();
    let me = r.cur;
    r.thr[me].cond = c;
    r.thr[me].deadline = deadline;
    r.thr[me].woken = false;
    r.thr[me].timed_out = false;
    if r.verbose {
        let s = format!("  [{}:{}] blocks {:?}", me, r.thr[me].name, r.thr[me].cond);
        logln(&s);
    }
    reschedule(kind, false);
    let r = rt();
    let to = r.thr[me].timed_out;
    r.thr[me].deadline = None;
    r.thr[me].cond = Cond::None;
    r.thr[me].timed_out = false;
    !to
}
/// Let everybody else run until nobody can make progress without time passing.
pub fn settle() {
    let r = rt();
    let me = r.cur;
    r.thr[me].stall = Stall::Quiesce;
    reschedule(K_USER, true);
}
/// The calling thread becomes a pending event: it continues at whatever
/// recorded scheduling point the explorer picks, and by default at the first
/// quiescence (`within` = 0) or once `within` ns have passed.
pub fn injectable(within: u64) {
    let r = rt();
    let me = r.cur;
    r.thr[me].inj = true;
    r.thr[me].stall = if within == 0 { Stall::Quiesce } else { Stall::Until(r.now + within) };
    reschedule(K_USER, true);
    let me = tid();
    rt().thr[me].inj = false;
}
pub fn sleep_ns(ns: u64) {
    let d = rt().now.saturating_add(ns);
    block_on(K_SLEEP, Cond::Sleep, Some(d));
}

#[no_mangle]
pub extern "C" fn mc_yield_hook(kind: u32, _addr: usize) {
    if !managed() {
        return;
    }
    let r = rt();
    let me = r.cur;
    match kind as u8 {
        K_ACQUIRED => r.thr[me].held += 1,
        // letting go of one lock while holding another is seen by those who
        // only try to get the other
        K_UNLOCK => {
            r.thr[me].held = r.thr[me].held.saturating_sub(1);
            if r.thr[me].held > 0 && !std::thread::panicking() {
                yield_point(K_UNLOCK);
            }
        }
        k => yield_point(k),
    }
}

// ---------------------------------------------------------------- threads
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    f: StartFn,
    a: *mut c_void,
    tid: usize,
}
extern "C" {
    fn __cxa_thread_atexit_impl(f: extern "C" fn(*mut c_void), o: *mut c_void, d: *mut c_void) -> c_int;
    static __dso_handle: u8;
}
extern "C" fn thread_finish(o: *mut c_void) {
    let _ = o;
    if CHILD.load(Ordering::Relaxed) {
        return;
    }
    let me = tid();
    let r = rt();
    r.thr[me].finished = true;
    r.live.retain(|x| *x != me);
    r.thr[me].cond = Cond::None;
    if r.verbose {
        let s = format!("  [{}:{}] thread exits", me, r.thr[me].name);
        logln(&s);
    }
    reschedule(K_EXIT, false);
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    TID.with(|x| x.set(t.tid));
    let g: *const AtomicU32 = &*rt().thr[t.tid].gate;
    gate_wait(unsafe { &*g });
    unsafe {
        __cxa_thread_atexit_impl(
            thread_finish,
            std::ptr::null_mut(),
            &__dso_handle as *const u8 as *mut c_void,
        );
    }
    let (f, a) = (t.f, t.a);
    drop(t);
    f(a)
}

unsafe fn real(name: &[u8]) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    p
}
type PtCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const c_void, StartFn, *mut c_void) -> c_int;
unsafe fn real_pthread_create() -> PtCreate {
    static P: AtomicUsize = AtomicUsize::new(0);
    let mut v = P.load(Ordering::Relaxed);
    if v == 0 {
        v = real(b"pthread_create\0") as usize;
        P.store(v, Ordering::Relaxed);
    }
    std::mem::transmute(v)
}
unsafe fn real_pthread_join() -> unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int {
    static P: AtomicUsize = AtomicUsize::new(0);
    let mut v = P.load(Ordering::Relaxed);
    if v == 0 {
        v = real(b"pthread_join\0") as usize;
        P.store(v, Ordering::Relaxed);
    }
    std::mem::transmute(v)
}
unsafe fn real_fork() -> unsafe extern "C" fn() -> pid_t {
    static P: AtomicUsize = AtomicUsize::new(0);
    let mut v = P.load(Ordering::Relaxed);
    if v == 0 {
        v = real(b"fork\0") as usize;
        P.store(v, Ordering::Relaxed);
    }
    std::mem::transmute(v)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const c_void,
    f: StartFn,
    a: *mut c_void,
) -> c_int {
    let rc = real_pthread_create();
    if !managed() {
        return rc(out, attr, f, a);
    }
    if let Some(e) = fault("thread", libc::EAGAIN) {
        return e;
    }
    let r = rt();
    let id = r.thr.len();
    let group = if r.spawn_group != 0 { std::mem::take(&mut r.spawn_group) } else { r.thr[r.cur].group };
    let name = r.thr[r.cur].name.clone();
    r.thr.push(Thr {
        gate: Box::new(AtomicU32::new(0)),
        cond: Cond::None,
        woken: false,
        deadline: None,
        timed_out: false,
        finished: false,
        stall: Stall::No,
        inj: false,
        held: 0,
        last: r.step,
        steps: 0,
        group,
        pth: 0,
        name: if name.contains('>') { format!("{}>{}", name.split('>').next().unwrap(), id) } else { format!("{name}>{id}") },
        lastop: mix(77, id as u64),
    });
    r.live.push(id);
    let t = Box::new(Tramp { f, a, tid: id });
    let res = rc(out, attr, tramp, Box::into_raw(t) as *mut c_void);
    if res != 0 {
        finish(ST_ERROR, &format!("pthread_create failed {res}"));
    }
    rt().thr[id].pth = *out as u64;
    yield_point(K_SPAWN);
    res
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    if managed() {
        let r = rt();
        if let Some(i) = r.thr.iter().rposition(|x| x.pth == t as u64) {
            if !r.thr[i].finished {
                block_on(K_BLOCK, Cond::Join(i), None);
            }
        }
    }
    real_pthread_join()(t, v)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_setname_np(_t: libc::pthread_t, name: *const c_char) -> c_int {
    if managed() {
        let r = rt();
        let c = r.cur;
        let base = r.thr[c].name.split('>').next().unwrap().to_string();
        r.thr[c].name =
            format!("{base}>{c}.{}", std::ffi::CStr::from_ptr(name).to_string_lossy());
    }
    0
}

pub fn set_group(g: u32, name: &str) {
    let r = rt();
    let c = r.cur;
    r.thr[c].group = g;
    r.thr[c].name = name.to_string();
}

// ---------------------------------------------------------------- time
fn virt_clock(clk: c_int) -> u64 {
    let n = rt().now;
    match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => REAL_BASE + n,
        _ => MONO_BASE + n,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if !ACTIVE.load(Ordering::Relaxed) || clk == libc::CLOCK_PROCESS_CPUTIME_ID || clk == libc::CLOCK_THREAD_CPUTIME_ID {
        return ret(sys!(libc::SYS_clock_gettime, clk, ts)) as c_int;
    }
    let v = virt_clock(clk);
    (*ts).tv_sec = (v / SEC) as i64;
    (*ts).tv_nsec = (v % SEC) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !managed() {
        return ret(sys!(libc::SYS_nanosleep, req, rem)) as c_int;
    }
    sleep_ns((*req).tv_sec as u64 * SEC + (*req).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if !managed() {
        let r = sys!(libc::SYS_clock_nanosleep, clk, flags, req, rem);
        return -r as c_int;
    }
    let v = ((*req).tv_sec as u64).saturating_mul(SEC).saturating_add((*req).tv_nsec as u64);
    let ns = if flags & 1 != 0 { v.saturating_sub(virt_clock(clk)) } else { v };
    sleep_ns(ns);
    0
}
#[no_mangle]
pub extern "C" fn sched_yield() -> c_int {
    if managed() {
        let r = rt();
        r.futile_yields += 1;
        if r.futile_yields % 64 == 0 {
            // a pure spin: let a little time pass so timed conditions can move
            sleep_ns(MS);
        } else {
            reschedule(K_YIELD, true);
        }
    }
    0
}

// ---------------------------------------------------------------- futex & syscall()
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if managed() {
        if n == libc::SYS_futex {
            return futex(a, b as i32, c as u32, d as *const libc::timespec, e, f as u32);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b, c as u32) as c_long;
        }
    }
    ret(sys6(n, a as u64, b as u64, c as u64, d as u64, e as u64, f as u64))
}
unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const libc::timespec, _a2: usize, _v3: u32) -> c_long {
    let cmd = op & 0x7f & !libc::FUTEX_CLOCK_REALTIME;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let cur = (*(addr as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let dl = if ts.is_null() {
                None
            } else {
                let v = ((*ts).tv_sec as u64).saturating_mul(SEC).saturating_add((*ts).tv_nsec as u64);
                Some(if cmd == libc::FUTEX_WAIT {
                    rt().now.saturating_add(v)
                } else {
                    let base =
                        if op & libc::FUTEX_CLOCK_REALTIME != 0 { REAL_BASE } else { MONO_BASE };
                    v.saturating_sub(base)
                })
            };
            if block_on(K_BLOCK, Cond::Futex(addr), dl) {
                0
            } else {
                set_errno(libc::ETIMEDOUT);
                -1
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let r = rt();
            let mut n = 0;
            for t in r.thr.iter_mut() {
                if n >= val as i32 as i64 {
                    break;
                }
                if let Cond::Futex(x) = t.cond {
                    if x == addr && !t.woken && !t.finished {
                        t.woken = true;
                        n += 1;
                    }
                }
            }
            if n > 0 {
                yield_point(K_WAKE);
            }
            n
        }
        _ => finish(ST_ERROR, &format!("unsupported futex op {op:x}")),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: u32) -> ssize_t {
    if !managed() {
        return ret(sys!(libc::SYS_getrandom, p, n, fl)) as ssize_t;
    }
    let r = rt();
    for i in 0..n {
        r.rng ^= r.rng << 13;
        r.rng ^= r.rng >> 7;
        r.rng ^= r.rng << 17;
        *(p as *mut u8).add(i) = r.rng as u8;
    }
    n as ssize_t
}

// ---------------------------------------------------------------- descriptors
pub fn fd_ino(fd: i32) -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if sys!(libc::SYS_fstat, fd, &mut st as *mut _) < 0 {
            return 0;
        }
        st.st_ino
    }
}
fn is_sock(fd: i32) -> bool {
    let mut v: c_int = 0;
    let mut l: u32 = 4;
    sys!(libc::SYS_getsockopt, fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut v as *mut _, &mut l as *mut _) == 0
}
fn is_nonblock(fd: i32) -> bool {
    sys!(libc::SYS_fcntl, fd, libc::F_GETFL) & libc::O_NONBLOCK as i64 != 0
}
fn sock_timeout(fd: i32, which: c_int) -> Option<u64> {
    let mut tv = libc::timeval { tv_sec: 0, tv_usec: 0 };
    let mut l: u32 = 16;
    if sys!(libc::SYS_getsockopt, fd, libc::SOL_SOCKET, which, &mut tv as *mut _, &mut l as *mut _) != 0 {
        return None;
    }
    let ns = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * 1000;
    if ns == 0 {
        None
    } else {
        Some(ns)
    }
}
pub fn poll_now(fd: i32, ev: i16) -> i16 {
    let mut p = libc::pollfd { fd, events: ev, revents: 0 };
    let ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    sys!(libc::SYS_ppoll, &mut p as *mut _, 1, &ts as *const _, 0, 0);
    p.revents
}
pub fn pending_bytes(fd: i32) -> i32 {
    let mut n: c_int = 0;
    sys!(libc::SYS_ioctl, fd, libc::FIONREAD, &mut n as *mut _);
    n
}
fn tty_of_master(fd: i32) -> Option<usize> {
    if rt().ttys.is_empty() {
        return None;
    }
    let ino = fd_ino(fd);
    rt().ttys.iter().position(|t| t.master_ino == ino)
}
fn sock_inodes_note(fd: i32, what: &str, n: i64) {
    if rt().verbose {
        let r = rt();
        let s = format!("  [{}:{}] {what}(fd {fd}) = {n}", r.cur, r.thr[r.cur].name);
        logln(&s);
    }
}

unsafe fn do_read(fd: c_int, mut raw: impl FnMut(usize) -> i64, len: usize, flags: c_int) -> ssize_t {
    if !managed() || !is_sock(fd) {
        return ret(raw(len)) as ssize_t;
    }
    yield_point(K_IO_R);
    let dont = flags & libc::MSG_DONTWAIT != 0 || is_nonblock(fd);
    if poll_now(fd, libc::POLLIN) == 0 && !dont {
        let dl = sock_timeout(fd, libc::SO_RCVTIMEO).map(|t| rt().now + t);
        if !block_on(K_BLOCK, Cond::Fds(vec![(fd, libc::POLLIN)]), dl) {
            sock_inodes_note(fd, "read-timeout", -11);
            set_errno(libc::EAGAIN);
            return -1;
        }
    }
    let mut n = len;
    if !rt().frag.is_empty() {
        if let Some(m) = rt().frag.get(&fd_ino(fd)) {
            n = n.min(*m);
        }
    }
    let tty = tty_of_master(fd);
    let r = raw(n);
    if let Some(t) = tty {
        let _ = t;
        if r == 0 && len > 0 {
            sock_inodes_note(fd, "read-pty-eio", 0);
            set_errno(libc::EIO);
            return -1;
        }
    }
    sock_inodes_note(fd, "read", r);
    ret(r) as ssize_t
}
unsafe fn do_write(fd: c_int, buf: *const u8, len: usize, flags: c_int, to: (*const c_void, u32)) -> ssize_t {
    // sockets only
    yield_point(K_IO_W);
    let dont = flags & libc::MSG_DONTWAIT != 0 || is_nonblock(fd);
    let tty = tty_of_master(fd);
    let dl = sock_timeout(fd, libc::SO_SNDTIMEO).map(|t| rt().now + t);
    let mut done = 0usize;
    loop {
        let r = sys!(
            libc::SYS_sendto,
            fd,
            buf.add(done),
            len - done,
            flags | libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL,
            to.0,
            to.1
        );
        if r >= 0 {
            done += r as usize;
            if done >= len || dont {
                break;
            }
            if r > 0 {
                continue;
            }
        } else if r != -(libc::EAGAIN as i64) || dont {
            if done > 0 {
                break;
            }
            sock_inodes_note(fd, "write", r);
            if tty.is_some() && r == -(libc::EPIPE as i64) {
                return ret(-(libc::EIO as i64)) as ssize_t;
            }
            return ret(r) as ssize_t;
        }
        if !block_on(K_BLOCK, Cond::Fds(vec![(fd, libc::POLLOUT)]), dl) {
            if done > 0 {
                break;
            }
            sock_inodes_note(fd, "write-timeout", -11);
            set_errno(libc::EAGAIN);
            return -1;
        }
    }
    sock_inodes_note(fd, "write", done as i64);
    done as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if n == 0 {
        // unlike recv, never waits
        return ret(sys!(libc::SYS_read, fd, b, n)) as ssize_t;
    }
    do_read(fd, |l| sys!(libc::SYS_read, fd, b, l), n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, fl: c_int) -> ssize_t {
    do_read(fd, |l| sys!(libc::SYS_recvfrom, fd, b, l, fl, 0, 0), n, fl)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, fl: c_int, a: *mut c_void, al: *mut c_void) -> ssize_t {
    do_read(fd, |l| sys!(libc::SYS_recvfrom, fd, b, l, fl, a, al), n, fl)
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut c_void, fl: c_int) -> ssize_t {
    do_read(fd, |_| sys!(libc::SYS_recvmsg, fd, m, fl), 1, fl)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    do_read(fd, |_| sys!(libc::SYS_readv, fd, iov, n), 1, 0)
}
fn is_reg(fd: c_int) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        sys!(libc::SYS_fstat, fd, &mut st as *mut _) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if !managed() || !is_sock(fd) {
        // (a daemon cut off holding the log's lock would take it along into
        // other simulated processes)
        if managed() && fd > 2 && !(group_now() >= G_PROC && is_log(fd)) {
            crash_point("write");
        }
        if managed() && fd > 2 && !is_log(fd) && is_reg(fd) {
            fail_if!("write", libc::ENOSPC);
        }
        return ret(sys!(libc::SYS_write, fd, b, n)) as ssize_t;
    }
    do_write(fd, b as *const u8, n, 0, (std::ptr::null(), 0))
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if !managed() || !is_sock(fd) {
        return ret(sys!(libc::SYS_sendto, fd, b, n, fl, 0, 0)) as ssize_t;
    }
    do_write(fd, b as *const u8, n, fl, (std::ptr::null(), 0))
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, fl: c_int, a: *const c_void, al: u32) -> ssize_t {
    if !managed() || !is_sock(fd) {
        return ret(sys!(libc::SYS_sendto, fd, b, n, fl, a, al)) as ssize_t;
    }
    do_write(fd, b as *const u8, n, fl, (a, al))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !managed() || !is_sock(fd) {
        return ret(sys!(libc::SYS_writev, fd, iov, n)) as ssize_t;
    }
    // flatten: same byte stream, and a socket may accept any prefix
    let mut v = vec![];
    for i in 0..n as usize {
        let io = &*iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
    }
    do_write(fd, v.as_ptr(), v.len(), 0, (std::ptr::null(), 0))
}

unsafe fn do_poll(fds: *mut libc::pollfd, n: u64, timeout: Option<u64>) -> c_int {
    yield_point(K_POLL);
    let sl = std::slice::from_raw_parts_mut(fds, n as usize);
    let ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let mut r = sys!(libc::SYS_ppoll, fds, n, &ts as *const _, 0, 0);
    if r == 0 && timeout != Some(0) {
        let dl = timeout.map(|t| rt().now.saturating_add(t));
        let v: Vec<(i32, i16)> = sl.iter().filter(|p| p.fd >= 0).map(|p| (p.fd, p.events)).collect();
        if v.is_empty() {
            block_on(K_BLOCK, Cond::Sleep, dl);
        } else {
            block_on(K_BLOCK, Cond::Fds(v), dl);
        }
        r = sys!(libc::SYS_ppoll, fds, n, &ts as *const _, 0, 0);
    }
    // pty semantics: once the slave side is closed, POLLIN is reported only
    // while unread output remains
    for p in sl.iter_mut() {
        if p.revents & libc::POLLHUP != 0 && tty_of_master(p.fd).is_some() {
            if pending_bytes(p.fd) == 0 {
                p.revents &= !(libc::POLLIN | libc::POLLRDHUP | libc::POLLRDNORM);
            }
            p.revents &= !libc::POLLOUT;
            logln(&format!("  poll pty fd {} revents {:x}", p.fd, p.revents));
        }
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: u64, timeout: c_int) -> c_int {
    if !managed() {
        return ret(sys!(libc::SYS_poll, fds, n, timeout)) as c_int;
    }
    do_poll(fds, n, if timeout < 0 { None } else { Some(timeout as u64 * MS) })
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut libc::pollfd, n: u64, t: *const libc::timespec, m: *const c_void) -> c_int {
    if !managed() {
        return ret(sys!(libc::SYS_ppoll, fds, n, t, m, 8)) as c_int;
    }
    do_poll(fds, n, if t.is_null() { None } else { Some((*t).tv_sec as u64 * SEC + (*t).tv_nsec as u64) })
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut c_void, max: c_int, timeout: c_int) -> c_int {
    if !managed() {
        return ret(sys!(libc::SYS_epoll_wait, ep, ev, max, timeout)) as c_int;
    }
    yield_point(K_POLL);
    let mut r = sys!(libc::SYS_epoll_wait, ep, ev, max, 0);
    if r == 0 && timeout != 0 {
        let dl = if timeout < 0 { None } else { Some(rt().now + timeout as u64 * MS) };
        block_on(K_BLOCK, Cond::Fds(vec![(ep, libc::POLLIN)]), dl);
        r = sys!(libc::SYS_epoll_wait, ep, ev, max, 0);
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut c_void, l: *mut c_void, fl: c_int) -> c_int {
    if managed() {
        yield_point(K_CONN);
        if poll_now(fd, libc::POLLIN) == 0 && !is_nonblock(fd) {
            block_on(K_BLOCK, Cond::Fds(vec![(fd, libc::POLLIN)]), None);
        }
        fail_if!("accept", libc::EMFILE);
        let r = sys!(libc::SYS_accept4, fd, a, l, fl);
        sock_inodes_note(fd, "accept", r);
        own(r);
        return ret(r) as c_int;
    }
    ret(sys!(libc::SYS_accept4, fd, a, l, fl)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut c_void, l: *mut c_void) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const c_void, l: u32) -> c_int {
    if managed() {
        yield_point(K_CONN);
        loop {
            // a full backlog would block: emulate by retrying non-blockingly
            let fl = sys!(libc::SYS_fcntl, fd, libc::F_GETFL);
            sys!(libc::SYS_fcntl, fd, libc::F_SETFL, fl | libc::O_NONBLOCK as i64);
            let r = sys!(libc::SYS_connect, fd, a, l);
            sys!(libc::SYS_fcntl, fd, libc::F_SETFL, fl);
            if r == -(libc::EAGAIN as i64) && fl & libc::O_NONBLOCK as i64 == 0 {
                sleep_ns(MS);
                continue;
            }
            sock_inodes_note(fd, "connect", r);
            if r == 0 {
                let g = rt().thr[rt().cur].group;
                if g >= 4 {
                    let ino = fd_ino(fd);
                    rt().conns.push((g, ino));
                }
            }
            return ret(r) as c_int;
        }
    }
    ret(sys!(libc::SYS_connect, fd, a, l)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if managed() {
        yield_point(K_CLOSE);
    }
    let r = sys!(libc::SYS_shutdown, fd, how);
    if managed() {
        sock_inodes_note(fd, "shutdown", r);
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if managed() && is_sock(fd) {
        yield_point(K_CLOSE);
        sock_inodes_note(fd, "close", 0);
        let ino = fd_ino(fd);
        if let Some(tty) = rt().ttys.iter().position(|t| t.master_ino == ino) {
            rt().pfds.retain(|x| x.1 != fd);
            let r = ret(sys!(libc::SYS_close, fd)) as c_int;
            if !(3..1000).any(|f| is_sock(f) && fd_ino(f) == ino) {
                tty_hangup(tty);
            }
            return r;
        }
    }
    if managed() && !rt().pfds.is_empty() {
        rt().pfds.retain(|x| x.1 != fd);
    }
    ret(sys!(libc::SYS_close, fd)) as c_int
}
/// Nobody has the master side of a terminal anymore: like the kernel, tell
/// the session leader on it.
fn tty_hangup(tty: usize) {
    let on_it: Vec<pid_t> = rt().procs.values().filter(|p| p.status.is_none() && p.tty == tty).map(|p| p.pid).collect();
    for pid in on_it {
        logln(&format!("  the terminal of virtual process {pid} is gone"));
        proc_signal(pid, libc::SIGHUP);
    }
}
pub static FORGING: AtomicBool = AtomicBool::new(false);
const FORGE_PREFIX: &str = "mcforge.";
/// Connect to a socket as if running under another user id.
pub fn connect_as(path: &std::path::Path, uid: u32) -> i64 {
    static N: AtomicUsize = AtomicUsize::new(0);
    FORGING.store(true, Ordering::Relaxed);
    let fd = sys!(libc::SYS_socket, libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
    let hi = sys!(libc::SYS_fcntl, fd, libc::F_DUPFD_CLOEXEC, 300);
    sys!(libc::SYS_close, fd);
    let mut a: libc::sockaddr_un = unsafe { std::mem::zeroed() };
    a.sun_family = libc::AF_UNIX as u16;
    let name = format!("{FORGE_PREFIX}{uid}.{}.{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    for (i, c) in name.bytes().enumerate() {
        a.sun_path[i + 1] = c as c_char;
    }
    let r = sys!(libc::SYS_bind, hi, &a as *const _, 2 + 1 + name.len());
    if r != 0 {
        return r;
    }
    let mut b: libc::sockaddr_un = unsafe { std::mem::zeroed() };
    b.sun_family = libc::AF_UNIX as u16;
    let pb = path.as_os_str().as_encoded_bytes();
    for (i, c) in pb.iter().enumerate() {
        b.sun_path[i] = *c as c_char;
    }
    let r = sys!(libc::SYS_connect, hi, &b as *const _, 2 + pb.len() + 1);
    if r != 0 {
        sys!(libc::SYS_close, hi);
        return r;
    }
    hi
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, v: *mut c_void, l: *mut u32) -> c_int {
    let r = sys!(libc::SYS_getsockopt, fd, lvl, name, v, l);
    if managed() && lvl == libc::SOL_SOCKET && name == libc::SO_PEERCRED && r == 0 && FORGING.load(Ordering::Relaxed) {
        // a peer bound to our marker address plays another user
        let mut b = [0u8; 110];
        let mut n = b.len() as u32;
        if sys!(libc::SYS_getpeername, fd, b.as_mut_ptr(), &mut n as *mut u32) == 0 && n > 3 {
            if let Some(rest) = b[3..n as usize].strip_prefix(FORGE_PREFIX.as_bytes()) {
                let s = String::from_utf8_lossy(rest).to_string();
                if let Some(u) = s.split('.').next().and_then(|x| x.parse().ok()) {
                    (*(v as *mut libc::ucred)).uid = u;
                    (*(v as *mut libc::ucred)).gid = u;
                }
            }
        }
    }
    ret(r) as c_int
}

// ---------------------------------------------------------------- virtual ptys and processes
const TTY_DIR: &str = "/dev/mcpts/";
unsafe fn open_common(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if ACTIVE.load(Ordering::Relaxed) {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        if CHILD.load(Ordering::Relaxed) {
            if let Ok(s) = std::str::from_utf8(p) {
                if let Some(n) = s.strip_prefix(TTY_DIR) {
                    if let Ok(i) = n.parse::<usize>() {
                        return ret(sys!(libc::SYS_dup, rt().ttys[i].slave)) as c_int;
                    }
                }
            }
        } else if managed() {
            fail_if!("open", libc::EMFILE);
            if p == b"/etc/environment" {
                if let Some(f) = &rt().etc_environment {
                    let c = std::ffi::CString::new(f.clone()).unwrap();
                    return ret(sys!(libc::SYS_open, c.as_ptr(), flags, mode)) as c_int;
                }
            }
            if REAL_INOTIFY.load(Ordering::Relaxed) && p.ends_with(b"/config.toml") {
                yield_point(K_FS);
            }
            if let Some(c) = in_etc(p) {
                return ret(sys!(libc::SYS_open, c.as_ptr(), flags, mode)) as c_int;
            }
            if p == b"/dev/ptmx" {
                yield_point(K_PROC);
                let mut sv = [0i32; 2];
                let cl = if flags & libc::O_CLOEXEC != 0 { libc::SOCK_CLOEXEC } else { 0 };
                let r = sys!(libc::SYS_socketpair, libc::AF_UNIX, libc::SOCK_STREAM | cl, 0, sv.as_mut_ptr());
                if r < 0 {
                    return ret(r) as c_int;
                }
                // park the slave end on a high descriptor, close-on-exec
                let hi = sys!(libc::SYS_fcntl, sv[1], libc::F_DUPFD_CLOEXEC, 500);
                sys!(libc::SYS_close, sv[1]);
                let rr = rt();
                let idx = rr.ttys.len();
                rr.ttys.push(VTty {
                    slave: hi as i32,
                    slave_ino: fd_ino(hi as i32),
                    master_ino: fd_ino(sv[0]),
                    winsz: (0, 0, 0, 0),
                    winsz_log: vec![],
                    echo: true,
                });
                rr.last_tty.insert(rr.cur, idx);
                own(sv[0] as i64);
                return sv[0];
            }
            if flags & libc::O_CREAT != 0 || flags & libc::O_TRUNC != 0 {
                yield_point(K_FS);
                crash_point("open-create");
            }
            if p.starts_with(b"/proc/400") {
                // /proc of a virtual process
                if let Ok(s) = std::str::from_utf8(p) {
                    if let Some(pid) = s.split('/').nth(2).and_then(|x| x.parse::<pid_t>().ok()) {
                        if let Some(pr) = rt().procs.get(&pid) {
                            if s.ends_with("/comm") {
                                let fd = sys!(libc::SYS_memfd_create, b"comm\0".as_ptr(), libc::MFD_CLOEXEC);
                                let c = format!("{}\n", pr.comm);
                                sys!(libc::SYS_write, fd, c.as_ptr(), c.len());
                                sys!(libc::SYS_lseek, fd, 0, 0);
                                return fd as c_int;
                            }
                        }
                    }
                }
            }
        }
    }
    let r = sys!(libc::SYS_open, path, flags, mode);
    if managed() {
        own(r);
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_common(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn grantpt(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlockpt(_fd: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn ptsname_r(fd: c_int, buf: *mut c_char, n: size_t) -> c_int {
    let Some(i) = tty_of_master(fd) else { return libc::ENOTTY };
    let s = format!("{TTY_DIR}{i}\0");
    if s.len() > n {
        return libc::ERANGE;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, buf, s.len());
    0
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    let child = CHILD.load(Ordering::Relaxed);
    if child || (managed() && is_sock(fd)) {
        *t = std::mem::zeroed();
        (*t).c_lflag = libc::ECHO | libc::ICANON | libc::ISIG;
        return 0;
    }
    ret(sys!(libc::SYS_ioctl, fd, libc::TCGETS, t)) as c_int
}
static CHILD_NOECHO: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, _a: c_int, t: *const libc::termios) -> c_int {
    if CHILD.load(Ordering::Relaxed) {
        if (*t).c_lflag & libc::ECHO == 0 {
            CHILD_NOECHO.store(true, Ordering::Relaxed);
        }
        return 0;
    }
    if managed() && is_sock(fd) {
        return 0;
    }
    set_errno(libc::ENOTTY);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_void) -> c_int {
    if managed() && (req == libc::TIOCSWINSZ || req == libc::TIOCGWINSZ) {
        if let Some(i) = tty_of_master(fd) {
            yield_point(K_PROC);
            let ws = &mut *(arg as *mut libc::winsize);
            let r = rt();
            if req == libc::TIOCSWINSZ {
                r.ttys[i].winsz = (ws.ws_row, ws.ws_col, ws.ws_xpixel, ws.ws_ypixel);
                let n = r.now;
                r.ttys[i].winsz_log.push((n, ws.ws_row, ws.ws_col));
                logln(&format!("  tty{} winsize {:?}", i, rt().ttys[i].winsz));
            } else {
                let w = r.ttys[i].winsz;
                ws.ws_row = w.0;
                ws.ws_col = w.1;
                ws.ws_xpixel = w.2;
                ws.ws_ypixel = w.3;
            }
            return 0;
        }
        if req == libc::TIOCGWINSZ {
            if let Some(w) = crate::rt::CLIENT_WINSZ.get() {
                let ws = &mut *(arg as *mut libc::winsize);
                ws.ws_row = w.0;
                ws.ws_col = w.1;
                ws.ws_xpixel = 0;
                ws.ws_ypixel = 0;
                if let Some(n) = crate::rt::WINCH_NEXT.get() {
                    crate::rt::WINCH_NEXT.set(None);
                    crate::rt::winch(n.0, n.1);
                }
                return 0;
            }
        }
    }
    ret(sys!(libc::SYS_ioctl, fd, req, arg)) as c_int
}
/// window size reported for the (non-tty) stdio of in-process clients
pub struct WinCell(std::cell::Cell<Option<(u16, u16)>>);
unsafe impl Sync for WinCell {}
impl WinCell {
    pub fn get(&self) -> Option<(u16, u16)> {
        self.0.get()
    }
    pub fn set(&self, v: Option<(u16, u16)>) {
        self.0.set(v)
    }
}
pub static CLIENT_WINSZ: WinCell = WinCell(std::cell::Cell::new(None));
/// the terminal of the clients becomes this right after its size was asked for
pub static WINCH_NEXT: WinCell = WinCell(std::cell::Cell::new(None));
/// deliver a real signal to this process, handled on the calling thread
pub fn raise_here(sig: i32) {
    let pid = sysn(libc::SYS_getpid, &[]);
    let tid = sysn(libc::SYS_gettid, &[]);
    sysn(libc::SYS_tgkill, &[pid as u64, tid as u64, sig as u64]);
}
/// the terminal of the clients changes its size
pub fn winch(rows: u16, cols: u16) {
    CLIENT_WINSZ.set(Some((rows, cols)));
    raise_here(libc::SIGWINCH);
}
pub static STDIO_TTY: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if managed() && STDIO_TTY.load(Ordering::Relaxed) && (0..3).contains(&fd) {
        return 1;
    }
    let mut t: [u8; 64] = [0; 64];
    if sys!(libc::SYS_ioctl, fd, libc::TCGETS, t.as_mut_ptr()) == 0 {
        1
    } else {
        set_errno(libc::ENOTTY);
        0
    }
}

#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    let f = real_fork();
    if !managed() {
        return f();
    }
    yield_point(K_PROC);
    crash_point("fork");
    if group_now() >= G_PROC && !rt().last_tty.contains_key(&rt().cur) {
        return daemonize_fork();
    }
    fail_if!("fork", libc::EAGAIN);
    let r = rt();
    let tty = r.last_tty.get(&r.cur).copied().unwrap_or(usize::MAX);
    (*r.shm).exec_len = 0;
    CHILD_NOECHO.store(false, Ordering::Relaxed);
    let p = f();
    if p == 0 {
        CHILD.store(true, Ordering::SeqCst);
        CHILD_TTY.store(tty, Ordering::SeqCst);
        return 0;
    }
    if p < 0 {
        return p;
    }
    let mut st: c_int = 0;
    sys!(libc::SYS_wait4, p, &mut st as *mut _, 0, 0);
    let shm = &mut *r.shm;
    let exec = parse_exec(&shm.exec[..shm.exec_len as usize]);
    let pid = r.next_pid;
    r.next_pid += 1;
    let now = r.now;
    let comm = exec
        .as_ref()
        .map(|e| e.path.rsplit('/').next().unwrap_or("").to_string())
        .unwrap_or_default();
    let has = exec.is_some();
    r.procs.insert(
        pid,
        VProc {
            pid,
            tty,
            status: None,
            reaped: false,
            signals: vec![],
            signals_after_reap: vec![],
            hup: HupPolicy::Die,
            die_at: None,
            tty_survives: false,
            comm,
            exec,
            born: now,
            died: None,
        },
    );
    logln(&format!("  fork -> virtual pid {pid} tty {tty} exec={has}"));
    if !has {
        // the child exited without reaching exec
        proc_die(pid, st);
    }
    pid
}
fn parse_exec(b: &[u8]) -> Option<ExecReport> {
    if b.is_empty() {
        return None;
    }
    let v: serde_json::Value = serde_json::from_slice(b).ok()?;
    let bytes = |v: &serde_json::Value| -> Vec<u8> {
        v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default()
    };
    Some(ExecReport {
        argv: v["argv"].as_array()?.iter().map(bytes).collect(),
        env: v["env"]
            .as_array()?
            .iter()
            .map(|e| {
                let b = bytes(e);
                let p = b.iter().position(|c| *c == b'=').unwrap_or(b.len());
                (b[..p].to_vec(), b[(p + 1).min(b.len())..].to_vec())
            })
            .collect(),
        cwd: v["cwd"].as_str()?.to_string(),
        path: v["path"].as_str()?.to_string(),
        fds: v["fds"]
            .as_array()?
            .iter()
            .map(|x| (x[0].as_i64().unwrap() as i32, x[1].as_str().unwrap().to_string()))
            .collect(),
        noecho: v["noecho"].as_bool()?,
        umask: v["umask"].as_u64()? as u32,
        sigs: (v["sigs"][0].as_u64()?, v["sigs"][1].as_u64()?),
        raw_exit: None,
    })
}
/// signals blocked and ignored by this process
pub fn sig_masks() -> (u64, u64) {
    let st = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let f = |k: &str| st.lines().find_map(|l| l.strip_prefix(k)).and_then(|x| u64::from_str_radix(x.trim(), 16).ok()).unwrap_or(0);
    (f("SigBlk:"), f("SigIgn:"))
}
unsafe fn do_exec(path: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    let list = |mut p: *const *const c_char| -> Vec<Vec<u8>> {
        let mut v = vec![];
        if p.is_null() {
            return v;
        }
        while !(*p).is_null() {
            v.push(std::ffi::CStr::from_ptr(*p).to_bytes().to_vec());
            p = p.add(1);
        }
        v
    };
    let path = std::ffi::CStr::from_ptr(path).to_string_lossy().to_string();
    // resolve like execvp would, so that a missing program still fails
    if path.contains('/') {
        let c = std::ffi::CString::new(path.clone()).unwrap();
        let r = sys!(libc::SYS_access, c.as_ptr(), libc::X_OK);
        if r < 0 {
            return ret(r) as c_int;
        }
    } else {
        let envv = list(envp);
        let pv = envv
            .iter()
            .find(|e| e.starts_with(b"PATH="))
            .map(|e| String::from_utf8_lossy(&e[5..]).to_string())
            .unwrap_or("/bin:/usr/bin".into());
        let mut ok = false;
        for d in pv.split(':') {
            if let Ok(c) = std::ffi::CString::new(format!("{d}/{path}")) {
                if sys!(libc::SYS_access, c.as_ptr(), libc::X_OK) == 0 {
                    ok = true;
                    break;
                }
            }
        }
        if !ok && !path.starts_with("mc-") {
            return ret(-(libc::ENOENT as i64)) as c_int;
        }
    }
    let mut fds = vec![];
    for fd in 0..900 {
        let fl = sys!(libc::SYS_fcntl, fd, libc::F_GETFD);
        if fl >= 0 && fl & libc::FD_CLOEXEC as i64 == 0 {
            let ino = fd_ino(fd);
            let r = rt();
            let mut d = String::new();
            for (i, t) in r.ttys.iter().enumerate() {
                if t.master_ino == ino {
                    d = format!("master{i}");
                }
                if t.slave >= 0 && t.slave_ino == ino {
                    d = format!("slave{i}");
                }
            }
            if d.is_empty() {
                d = std::fs::read_link(format!("/proc/self/fd/{fd}"))
                    .map(|p| p.to_string_lossy().to_string())
                    .unwrap_or_default();
            }
            fds.push((fd, d));
        }
    }
    let cwd = std::env::current_dir().map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
    let v = serde_json::json!({
        "argv": list(argv), "env": list(envp), "cwd": cwd, "path": path, "fds": fds,
        "noecho": CHILD_NOECHO.load(Ordering::Relaxed), "umask": sys!(libc::SYS_umask, 0), "sigs": sig_masks(),
    });
    let b = serde_json::to_vec(&v).unwrap();
    let shm = &mut *SHM;
    let n = b.len().min(shm.exec.len());
    shm.exec[..n].copy_from_slice(&b[..n]);
    shm.exec_len = n as u32;
    sys6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    -1
}
extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn execvp(path: *const c_char, argv: *const *const c_char) -> c_int {
    if CHILD.load(Ordering::Relaxed) {
        return do_exec(path, argv, environ);
    }
    ret(sys!(libc::SYS_execve, path, argv, environ)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn execve(path: *const c_char, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    if CHILD.load(Ordering::Relaxed) {
        return do_exec(path, argv, envp);
    }
    ret(sys!(libc::SYS_execve, path, argv, envp)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if CHILD.load(Ordering::Relaxed) || !managed() {
        sys6(libc::SYS_exit_group, code as u64, 0, 0, 0, 0, 0);
        unreachable!()
    }
    let r = rt();
    logln(&format!("  process exit({code}) from thread {}", r.thr[r.cur].name));
    let c = r.cur;
    r.exits.push((c, code));
    forget_exit();
    let g = r.thr[c].group;
    if g >= G_PROC {
        end_proc(g, code & 0xff);
    } else if g >= 4 {
        kill_group(g);
    }
    loop {
        block_on(K_BLOCK, Cond::Never, None);
    }
}
/// std lets one thread of a process call exit and makes every other thread
/// that does so wait for ever. Simulated processes share this one, so the
/// record of who is exiting is cleared once an exit has been taken.
static EXIT_GUARD: AtomicU64 = AtomicU64::new(0);
static EXIT_GUARD_LEN: AtomicU64 = AtomicU64::new(0);
unsafe fn forget_exit() {
    let p = EXIT_GUARD.load(Ordering::Relaxed);
    if p != 0 {
        std::ptr::write_bytes(p as *mut u8, 0, EXIT_GUARD_LEN.load(Ordering::Relaxed) as usize);
    }
}
/// find std's record in our own symbol table (call before anything exits)
pub fn find_exit_guard() {
    let f = std::fs::read("/proc/self/exe").expect("own executable");
    let u16at = |o: usize| u16::from_le_bytes(f[o..o + 2].try_into().unwrap()) as usize;
    let u32at = |o: usize| u32::from_le_bytes(f[o..o + 4].try_into().unwrap()) as usize;
    let u64at = |o: usize| u64::from_le_bytes(f[o..o + 8].try_into().unwrap()) as usize;
    let (shoff, shsz, shnum) = (u64at(0x28), u16at(0x3a), u16at(0x3c));
    for i in 0..shnum {
        let sh = shoff + i * shsz;
        if u32at(sh + 4) != 2 {
            continue;
        }
        let (off, size, link, ent) = (u64at(sh + 0x18), u64at(sh + 0x20), u32at(sh + 0x28), u64at(sh + 0x38));
        let stroff = u64at(shoff + link * shsz + 0x18);
        let mut anchor = None;
        let mut guard = None;
        for k in 0..size / ent {
            let s = off + k * ent;
            let n = stroff + u32at(s);
            let len = f[n..].iter().position(|b| *b == 0).unwrap();
            let name = &f[n..n + len];
            if name == b"mc_anchor_symbol" {
                anchor = Some(u64at(s + 8));
            } else if name.windows(17).any(|w| w == b"EXITING_THREAD_ID") {
                guard = Some((u64at(s + 8), u64at(s + 16)));
            }
        }
        if let (Some(a), Some((g, len))) = (anchor, guard) {
            let bias = mc_anchor_symbol as usize - a;
            let p = bias + g;
            // a different layout of std would show here
            assert!(len <= 64 && unsafe { std::slice::from_raw_parts(p as *const u8, len) }.iter().all(|b| *b == 0));
            EXIT_GUARD.store(p as u64, Ordering::Relaxed);
            EXIT_GUARD_LEN.store(len as u64, Ordering::Relaxed);
            return;
        }
    }
    panic!("std's exit guard is not where it was");
}
#[no_mangle]
pub extern "C" fn mc_anchor_symbol() {}
/// all threads of a simulated process stop where they are, its connections end
pub fn kill_group(g: u32) {
    hang_up_group(g);
    let r = rt();
    for i in 0..r.thr.len() {
        if r.thr[i].group == g && i != r.cur && !r.thr[i].finished {
            r.thr[i].cond = Cond::Never;
            r.thr[i].deadline = None;
            r.thr[i].woken = false;
        }
    }
}
/// the connections of a simulated process end with it
pub fn hang_up_group(g: u32) {
    let inos: Vec<u64> = rt().conns.iter().filter(|c| c.0 == g).map(|c| c.1).collect();
    rt().conns.retain(|c| c.0 != g);
    if inos.is_empty() {
        return;
    }
    for fd in 3..1000 {
        if inos.contains(&fd_ino(fd)) {
            sys!(libc::SYS_shutdown, fd, libc::SHUT_RDWR);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    sys6(libc::SYS_exit_group, code as u64, 0, 0, 0, 0, 0);
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, st: *mut c_int, opts: c_int) -> pid_t {
    if PARENT_ROLE.load(Ordering::Relaxed) {
        if !st.is_null() {
            *st = 0;
        }
        return pid;
    }
    if !managed() {
        return ret(sys!(libc::SYS_wait4, pid, st, opts, 0)) as pid_t;
    }
    yield_point(K_PROC);
    let known = pid == -1 || rt().procs.contains_key(&pid);
    if !known {
        set_errno(libc::ECHILD);
        return -1;
    }
    loop {
        let r = rt();
        let cand = if pid == -1 {
            if !r.procs.values().any(|p| !p.reaped) {
                set_errno(libc::ECHILD);
                return -1;
            }
            r.procs.values().find(|p| p.status.is_some() && !p.reaped).map(|p| p.pid)
        } else {
            let p = &r.procs[&pid];
            if p.reaped {
                set_errno(libc::ECHILD);
                return -1;
            }
            p.status.map(|_| pid)
        };
        if let Some(p) = cand {
            let pr = r.procs.get_mut(&p).unwrap();
            pr.reaped = true;
            if !st.is_null() {
                *st = pr.status.unwrap();
            }
            logln(&format!("  waitpid reaped {p}"));
            return p;
        }
        if opts & libc::WNOHANG != 0 {
            return 0;
        }
        block_on(K_BLOCK, Cond::Pid(pid), None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitid(ty: libc::idtype_t, id: libc::id_t, si: *mut libc::siginfo_t, opts: c_int) -> c_int {
    if !managed() {
        return ret(sys!(libc::SYS_waitid, ty, id, si, opts, 0)) as c_int;
    }
    yield_point(K_PROC);
    let pid = id as pid_t;
    if ty != libc::P_PID || !rt().procs.contains_key(&pid) {
        set_errno(libc::ECHILD);
        return -1;
    }
    loop {
        let pr = rt().procs.get_mut(&pid).unwrap();
        if pr.reaped {
            set_errno(libc::ECHILD);
            return -1;
        }
        if let Some(st) = pr.status {
            if opts & libc::WNOWAIT == 0 {
                pr.reaped = true;
                logln(&format!("  waitid reaped {pid}"));
            }
            if !si.is_null() {
                std::ptr::write_bytes(si as *mut u8, 0, std::mem::size_of::<libc::siginfo_t>());
                let w = si as *mut i32;
                *w = libc::SIGCHLD;
                *w.add(2) = if libc::WIFEXITED(st) { libc::CLD_EXITED } else { libc::CLD_KILLED };
                *w.add(4) = pid;
                *w.add(6) = if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { libc::WTERMSIG(st) };
            }
            return 0;
        }
        if opts & libc::WNOHANG != 0 {
            return 0;
        }
        block_on(K_BLOCK, Cond::Pid(pid), None);
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if !managed() {
        return ret(sys!(libc::SYS_kill, pid, sig)) as c_int;
    }
    yield_point(K_PROC);
    let r = rt();
    let grp = pid < 0;
    let id = if grp { -pid } else { pid };
    if !r.procs.contains_key(&id) {
        // never let a stray signal reach a real process
        logln(&format!("  kill({pid},{sig}) of unknown process suppressed"));
        set_errno(libc::ESRCH);
        return -1;
    }
    logln(&format!("  kill({pid},{sig})"));
    let p = r.procs.get_mut(&id).unwrap();
    if p.reaped {
        p.signals_after_reap.push(sig);
        set_errno(libc::ESRCH);
        return -1;
    }
    if sig == 0 {
        return 0;
    }
    proc_signal(id, sig);
    0
}
/// What a virtual process does about a signal.
fn proc_signal(id: pid_t, sig: c_int) {
    let r = rt();
    let now = r.now;
    let p = r.procs.get_mut(&id).unwrap();
    p.signals.push((now, sig));
    if p.status.is_some() {
        return; // zombie
    }
    match sig {
        libc::SIGKILL => proc_die(id, 9),
        libc::SIGHUP => match p.hup {
            HupPolicy::Die => proc_die(id, 1),
            HupPolicy::Ignore => {}
            HupPolicy::Delay(d) => p.die_at = Some((now + d, 1)),
        },
        libc::SIGTERM | libc::SIGINT | libc::SIGQUIT => {} // interactive shells ignore these
        _ => {}
    }
}
/// A virtual process dies with the given raw wait status.
pub fn proc_die(pid: pid_t, status: i32) {
    let r = rt();
    let now = r.now;
    let p = r.procs.get_mut(&pid).unwrap();
    if p.status.is_some() {
        return;
    }
    p.status = Some(status);
    p.died = Some(now);
    let (tty, keep) = (p.tty, p.tty_survives);
    logln(&format!("  virtual process {pid} dies status {status:#x}"));
    if !keep && tty != usize::MAX {
        tty_close(tty);
    }
}
pub fn tty_close(tty: usize) {
    let s = rt().ttys[tty].slave;
    if s >= 0 {
        rt().ttys[tty].slave = -1;
        sys!(libc::SYS_close, s);
    }
}

// ---------------------------------------------------------------- simulated daemon processes
/// groups from here on are daemon processes with descriptors, a working
/// directory and an umask of their own
pub const G_PROC: u32 = 16;
/// this (real) process plays the parent of a daemonizing fork
static PARENT_ROLE: AtomicBool = AtomicBool::new(false);
fn group_now() -> u32 {
    let r = rt();
    r.thr[r.cur].group
}
fn own(fd: i64) {
    if fd >= 0 && group_now() >= G_PROC {
        let g = group_now();
        rt().pfds.push((g, fd as i32, fd_ino(fd as i32)));
    }
}
/// The process is gone: its threads stop, its descriptors are closed (with
/// them its locks), the shells on its terminals lose them.
pub fn end_proc(g: u32, status: i32) {
    let r = rt();
    if r.ended.iter().any(|x| x.0 == g) {
        return;
    }
    logln(&format!("  daemon process {g} is gone, status {status}"));
    r.ended.push((g, status));
    kill_group(g);
    let mine: Vec<(u32, i32, u64)> = r.pfds.iter().filter(|x| x.0 == g).copied().collect();
    r.pfds.retain(|x| x.0 != g);
    let mut socks = vec![];
    for (_, fd, ino) in mine {
        if fd_ino(fd) != ino {
            continue;
        }
        if is_sock(fd) {
            socks.push(ino);
        } else {
            sys!(libc::SYS_close, fd);
        }
    }
    for fd in 3..1000 {
        if is_sock(fd) && socks.contains(&fd_ino(fd)) {
            sys!(libc::SYS_shutdown, fd, libc::SHUT_RDWR);
            sys!(libc::SYS_close, fd);
        }
    }
    let hung: Vec<pid_t> = r
        .procs
        .values()
        .filter(|p| p.status.is_none() && p.tty != usize::MAX && p.hup == HupPolicy::Die && socks.contains(&r.ttys[p.tty].master_ino))
        .map(|p| p.pid)
        .collect();
    for p in hung {
        proc_die(p, 1);
    }
}
/// Only the calling thread lives on in the child of a fork; the parent's
/// part is played, at once, by a real process.
unsafe fn daemonize_fork() -> pid_t {
    let p = real_fork()();
    if p == 0 {
        CHILD.store(true, Ordering::SeqCst);
        PARENT_ROLE.store(true, Ordering::SeqCst);
        return 4_999_999;
    }
    if p < 0 {
        return p;
    }
    let mut st: c_int = 0;
    sys!(libc::SYS_wait4, p, &mut st as *mut _, 0, 0);
    logln(&format!("  daemonizing fork, the parent ended with {st:#x}"));
    let (g, me) = (group_now(), rt().cur);
    for i in 0..rt().thr.len() {
        let t = &mut rt().thr[i];
        if t.group == g && i != me && !t.finished {
            t.cond = Cond::Never;
            t.deadline = None;
            t.woken = false;
        }
    }
    0
}
const AUTOVAR: &[u8] = b"SHPOOL__INTERNAL__AUTODAEMONIZE";
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if n == AUTOVAR && managed() && group_now() >= G_PROC {
        let g = group_now();
        return if rt().autovar.contains(&g) { b"true\0".as_ptr() as *mut c_char } else { std::ptr::null_mut() };
    }
    extern "C" {
        static environ: *const *mut c_char;
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let kv = std::ffi::CStr::from_ptr(*e).to_bytes();
        if kv.len() > n.len() && kv[n.len()] == b'=' && &kv[..n.len()] == n {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(name: *const c_char) -> c_int {
    if managed() && group_now() >= G_PROC && std::ffi::CStr::from_ptr(name).to_bytes() == AUTOVAR {
        let g = group_now();
        rt().autovar.retain(|x| *x != g);
        return 0;
    }
    static P: AtomicUsize = AtomicUsize::new(0);
    let mut v = P.load(Ordering::Relaxed);
    if v == 0 {
        v = real(b"unsetenv\0") as usize;
        P.store(v, Ordering::Relaxed);
    }
    let f: unsafe extern "C" fn(*const c_char) -> c_int = std::mem::transmute(v);
    f(name)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut pid_t,
    path: *const c_char,
    fa: *const c_void,
    at: *const c_void,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if managed() && rt().on_spawn.is_some() {
        yield_point(K_PROC);
        crash_point("spawn");
        let list = |mut p: *const *mut c_char| {
            let mut v = vec![];
            while !p.is_null() && !(*p).is_null() {
                v.push(String::from_utf8_lossy(std::ffi::CStr::from_ptr(*p).to_bytes()).to_string());
                p = p.add(1);
            }
            v
        };
        let (args, env) = (list(argv), list(envp));
        let g = rt().next_group;
        rt().next_group += 1;
        if env.iter().any(|e| e == "SHPOOL__INTERNAL__AUTODAEMONIZE=true") {
            rt().autovar.push(g);
        }
        logln(&format!("  spawning {args:?} as process {g}"));
        rt().on_spawn.unwrap()(g, args);
        *pid = 4_900_000 + g as i32;
        return 0;
    }
    static P: AtomicUsize = AtomicUsize::new(0);
    let mut v = P.load(Ordering::Relaxed);
    if v == 0 {
        v = real(b"posix_spawnp\0") as usize;
        P.store(v, Ordering::Relaxed);
    }
    let f: unsafe extern "C" fn(*mut pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int =
        std::mem::transmute(v);
    f(pid, path, fa, at, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn setsid() -> pid_t {
    if managed() && group_now() >= G_PROC {
        return 4_900_000 + group_now() as i32;
    }
    ret(sys!(libc::SYS_setsid)) as pid_t
}
/// the root directory, as far as simulated daemons are concerned
pub fn root_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(WORK_DIR.get().unwrap()).join("rootdir")
}
/// the working directory of the real client processes, when it is not everybody's
pub static CLIENT_CWD: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, size: usize) -> *mut c_char {
    if managed() && (4..G_PROC).contains(&group_now()) && !buf.is_null() {
        if let Some(d) = CLIENT_CWD.lock().unwrap().as_ref() {
            if d.len() + 1 > size {
                *libc::__errno_location() = libc::ERANGE;
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, d.len());
            *buf.add(d.len()) = 0;
            return buf;
        }
    }
    if buf.is_null() {
        let n = 4096;
        let b = libc::malloc(n) as *mut c_char;
        if sys!(libc::SYS_getcwd, b, n) < 0 {
            libc::free(b as *mut c_void);
            return std::ptr::null_mut();
        }
        return b;
    }
    let r = sys!(libc::SYS_getcwd, buf, size);
    if r < 0 {
        ret(r);
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if managed() && group_now() >= G_PROC && std::ffi::CStr::from_ptr(p).to_bytes() == b"/" {
        let d = root_dir();
        let _ = std::fs::create_dir(&d);
        let c = std::ffi::CString::new(d.as_os_str().as_encoded_bytes()).unwrap();
        return ret(sys!(libc::SYS_chdir, c.as_ptr())) as c_int;
    }
    ret(sys!(libc::SYS_chdir, p)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup2(a: c_int, b: c_int) -> c_int {
    if managed() && group_now() >= G_PROC && (0..3).contains(&b) {
        return b;
    }
    ret(sys!(libc::SYS_dup2, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if managed() {
        fail_if!("socket", libc::EMFILE);
    }
    let r = sys!(libc::SYS_socket, d, t, p);
    if managed() {
        own(r);
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !managed() {
        return ret(sys!(libc::SYS_flock, fd, op)) as c_int;
    }
    yield_point(K_FS);
    crash_point("flock");
    loop {
        let r = sys!(libc::SYS_flock, fd, op | libc::LOCK_NB);
        if r == -(libc::EWOULDBLOCK as i64) && op & libc::LOCK_NB == 0 {
            sleep_ns(MS);
            continue;
        }
        return ret(r) as c_int;
    }
}
#[no_mangle]
pub extern "C" fn mc_signal_group() -> u32 {
    if managed() { group_now() } else { 0 }
}
#[no_mangle]
pub extern "C" fn mc_signal_for(g: u32) -> bool {
    !managed() || rt().raise_to == 0 || rt().raise_to == g
}
/// one log for all simulated processes will not do
#[no_mangle]
pub extern "C" fn mc_logging() -> bool {
    !(managed() && rt().on_spawn.is_some())
}
fn is_log(fd: i32) -> bool {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).map(|p| p.extension().map(|e| e == "log").unwrap_or(false)).unwrap_or(false)
}
/// a signal reaches one simulated process only
pub fn raise_to(g: u32, sig: i32) {
    rt().raise_to = g;
    raise_here(sig);
    rt().raise_to = 0;
}
/// the calling thread's process gets a working directory of its own
pub fn own_fs() {
    sysn(libc::SYS_unshare, &[libc::CLONE_FS as u64]);
}

// ---------------------------------------------------------------- filesystem effects (crash points)
pub fn crash_point(what: &str) {
    let r = rt();
    if (r.crash_groups >> r.thr[r.cur].group) & 1 == 0 {
        return;
    }
    r.crash_count += 1;
    if r.crash_at != 0 {
        logln(&format!("  crash point {} ({what})", r.crash_count));
        if r.crash_count == r.crash_at && r.crash_kill {
            let g = r.thr[r.cur].group;
            r.crashed = Some((g, what.to_string()));
            if g >= G_PROC {
                end_proc(g, 137);
            } else {
                let c = r.cur;
                r.exits.push((c, 137));
                kill_group(g);
            }
            loop {
                block_on(K_BLOCK, Cond::Never, None);
            }
        }
        if r.crash_count == r.crash_at {
            finish(ST_PHASE, what);
        }
    }
}
/// A call that needs something the system may run out of. Returns the error
/// if this one fails.
pub fn fault(what: &str, errno: c_int) -> Option<c_int> {
    let r = rt();
    if r.fault_at == 0 || r.thr[r.cur].group != crate::world::G_DAEMON {
        return None;
    }
    let class = match what {
        "thread" => 1,
        "fork" => 2,
        "accept" | "socket" | "open" | "dup" => 4,
        _ => 8,
    };
    if r.fault_class != 0 && r.fault_class & class == 0 {
        return None;
    }
    r.fault_count += 1;
    if r.fault_count < r.fault_at || r.fault_count - r.fault_at >= r.fault_len {
        return None;
    }
    let c = r.cur;
    logln(&format!("  call {} fails: {what} (errno {errno}) in {}", r.fault_count, rt().thr[c].name));
    rt().faults.push(what.to_string());
    Some(errno)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if managed() && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) {
        fail_if!("dup", libc::EMFILE);
    }
    ret(sys!(libc::SYS_fcntl, fd, cmd, arg)) as c_int
}
macro_rules! fs_wrap {
    ($name:ident, $nr:expr, $($a:ident : $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if managed() {
                yield_point(K_FS);
                crash_point(stringify!($name));
                if matches!(stringify!($name), "mkdir" | "symlink" | "rename") {
                    fail_if!(stringify!($name), libc::ENOSPC);
                }
            }
            ret(sys!($nr, $($a),*)) as c_int
        }
    };
}
fs_wrap!(unlink, libc::SYS_unlink, p: *const c_char);
fs_wrap!(mkdir, libc::SYS_mkdir, p: *const c_char, m: u32);
fs_wrap!(rmdir, libc::SYS_rmdir, p: *const c_char);
fs_wrap!(symlink, libc::SYS_symlink, a: *const c_char, b: *const c_char);
fs_wrap!(rename, libc::SYS_rename, a: *const c_char, b: *const c_char);
fs_wrap!(chmod, libc::SYS_chmod, a: *const c_char, m: u32);
fs_wrap!(bind, libc::SYS_bind, fd: c_int, a: *const c_void, l: u32);
fs_wrap!(listen, libc::SYS_listen, fd: c_int, n: c_int);

// ---------------------------------------------------------------- a stand-in for /etc/shpool
fn in_etc(p: &[u8]) -> Option<std::ffi::CString> {
    let d = rt().etc_dir.as_ref()?;
    let rest = p.strip_prefix(b"/etc")?;
    if rest.is_empty() || rest == b"/shpool" || rest.starts_with(b"/shpool/") {
        let mut v = d.clone().into_bytes();
        v.extend_from_slice(rest);
        return std::ffi::CString::new(v).ok();
    }
    None
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut c_void) -> c_int {
    if managed() && !path.is_null() {
        if let Some(c) = in_etc(std::ffi::CStr::from_ptr(path).to_bytes()) {
            return ret(sys!(libc::SYS_statx, fd, c.as_ptr(), flags, mask, out)) as c_int;
        }
    }
    ret(sys!(libc::SYS_statx, fd, path, flags, mask, out)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    let p = std::ffi::CStr::from_ptr(path);
    let c = if managed() { in_etc(p.to_bytes()) } else { None };
    let fd = sys!(libc::SYS_open, c.as_deref().unwrap_or(p).as_ptr(), libc::O_PATH | libc::O_CLOEXEC, 0);
    if fd < 0 {
        ret(fd);
        return std::ptr::null_mut();
    }
    let l = std::ffi::CString::new(format!("/proc/self/fd/{fd}")).unwrap();
    let mut buf = [0u8; libc::PATH_MAX as usize];
    let n = sys!(libc::SYS_readlink, l.as_ptr(), buf.as_mut_ptr(), buf.len() - 1);
    sys!(libc::SYS_close, fd);
    if n < 0 {
        ret(n);
        return std::ptr::null_mut();
    }
    let mut res = buf[..n as usize].to_vec();
    if managed() {
        if let Some(d) = &rt().etc_dir {
            if let Some(rest) = res.strip_prefix(d.as_bytes()) {
                if rest.is_empty() || rest[0] == b'/' {
                    res = [b"/etc", rest].concat();
                }
            }
        }
    }
    let o = if out.is_null() { libc::malloc(res.len() + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(res.as_ptr() as *const c_char, o, res.len());
    *o.add(res.len()) = 0;
    o
}

// ---------------------------------------------------------------- inotify
/// When off (the default) file watches are inert: real inotify instances are
/// costly to tear down and only the configuration-reload scenarios need them.
pub static REAL_INOTIFY: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub unsafe extern "C" fn inotify_init1(flags: c_int) -> c_int {
    if managed() && !REAL_INOTIFY.load(Ordering::Relaxed) {
        return ret(sys!(libc::SYS_eventfd2, 0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK)) as c_int;
    }
    ret(sys!(libc::SYS_inotify_init1, flags)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn inotify_add_watch(fd: c_int, p: *const c_char, mask: u32) -> c_int {
    if managed() && !REAL_INOTIFY.load(Ordering::Relaxed) {
        static N: AtomicUsize = AtomicUsize::new(1);
        return N.fetch_add(1, Ordering::Relaxed) as c_int;
    }
    if managed() {
        yield_point(K_FS);
        if let Some(c) = in_etc(std::ffi::CStr::from_ptr(p).to_bytes()) {
            return ret(sys!(libc::SYS_inotify_add_watch, fd, c.as_ptr(), mask)) as c_int;
        }
        // the directories above the scratch directory change whenever other
        // executions come and go: quiet stand-ins are watched in their place
        if let (Ok(s), Some(w)) = (std::ffi::CStr::from_ptr(p).to_str(), WORK_DIR.get()) {
            let s = s.trim_end_matches('/');
            if s.len() < w.len() && w.starts_with(s) && w.as_bytes()[s.len()] == b'/' && !p.is_null() && *p == b'/' as c_char {
                let n = s.matches('/').count();
                let mut c = std::ffi::CString::default();
                for d in [format!("{w}/above"), format!("{w}/above/{n}")] {
                    c = std::ffi::CString::new(d).unwrap();
                    sys!(libc::SYS_mkdirat, libc::AT_FDCWD, c.as_ptr(), 0o700);
                }
                return ret(sys!(libc::SYS_inotify_add_watch, fd, c.as_ptr(), mask)) as c_int;
            }
        }
    }
    ret(sys!(libc::SYS_inotify_add_watch, fd, p, mask)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn inotify_rm_watch(fd: c_int, wd: c_int) -> c_int {
    if managed() && !REAL_INOTIFY.load(Ordering::Relaxed) {
        return 0;
    }
    ret(sys!(libc::SYS_inotify_rm_watch, fd, wd)) as c_int
}

// ---------------------------------------------------------------- users
/// the scratch directory of this execution
pub static WORK_DIR: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub static PW_SHELL: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
/// The account database answers with a user living in the scratch directory.
#[no_mangle]
pub unsafe extern "C" fn getpwuid_r(
    uid: u32,
    pw: *mut libc::passwd,
    buf: *mut c_char,
    n: size_t,
    out: *mut *mut libc::passwd,
) -> c_int {
    let sh = PW_SHELL.lock().unwrap().clone().unwrap_or("/bin/bash".into());
    let home = WORK_DIR.get().map(|d| format!("{d}/home")).unwrap_or("/".into());
    let mut off = 0usize;
    let mut put = |s: &str| -> *mut c_char {
        let p = buf.add(off);
        std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, p, s.len());
        *p.add(s.len()) = 0;
        off += s.len() + 1;
        p
    };
    if sh.len() + home.len() + 16 > n {
        return libc::ERANGE;
    }
    *pw = std::mem::zeroed();
    (*pw).pw_name = put("mc");
    (*pw).pw_passwd = put("x");
    (*pw).pw_uid = uid;
    (*pw).pw_dir = put(&home);
    (*pw).pw_shell = put(&sh);
    (*pw).pw_gecos = put("");
    *out = pw;
    0
}
