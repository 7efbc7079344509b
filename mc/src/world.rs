//! Scenario-side helpers: start the real daemon in-process, talk the wire
//! protocol to it, play the shells.
use crate::rt::{self, rt, MS};
use crate::wire::*;
use clap::Parser;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const G_MAIN: u32 = 1;
pub const G_DAEMON: u32 = 2;
pub const G_CLIENT: u32 = 3;
pub const G_REALCLIENT: u32 = 4;

pub const BASE_CFG: &str = "prompt_prefix = \"\"\nnoread_etc_environment = true\nsession_restore_mode = \"simple\"\nshell = \"/bin/bash\"\n";

/// a violation of the property under check
pub fn fail(sig: &str, detail: impl std::fmt::Display) -> ! {
    rt::violation(&format!("{sig}: {detail}"))
}
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c { $crate::world::fail($sig, format!($($a)*)); }
    };
}
pub(crate) use ensure;

pub fn explore(on: bool) {
    rt().trace_on = on;
}
pub fn now_ms() -> u64 {
    rt::now_ns() / MS
}
pub fn sleep_ms(ms: u64) {
    rt::sleep_ns(ms * MS);
}
pub fn wait_until(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = rt::now_ns() + ms * MS;
    loop {
        if f() {
            return true;
        }
        if rt::now_ns() >= end {
            return false;
        }
        sleep_ms(5);
    }
}
pub fn settle() {
    rt::settle();
}
/// Run `f` as an event the explorer may place at any scheduling point; by
/// default it happens at the first quiescence (or `within_ms` later).
pub fn inject<T: Send + 'static>(
    name: &str,
    within_ms: u64,
    f: impl FnOnce() -> T + Send + 'static,
) -> std::thread::JoinHandle<T> {
    spawn(G_CLIENT, name, move || {
        rt::injectable(within_ms * MS);
        f()
    })
}
/// Every daemon-side panic is a defect.
pub fn no_panics() {
    for p in rt().panics.iter() {
        if !p.starts_with("[group 1]") && !p.starts_with("[group 3]") {
            fail("panic", format!("a thread of the program panicked: {}", p.replace('\n', " ")));
        }
    }
    for (t, code) in rt().exits.iter() {
        if rt().thr[*t].group == G_DAEMON {
            fail("daemon-exit", format!("the daemon process exited with status {code}"));
        }
    }
}
pub fn cwd() -> PathBuf {
    std::env::current_dir().unwrap()
}
pub fn cloexec(fd: i32) {
    rt::sysn(libc::SYS_fcntl, &[fd as u64, libc::F_SETFD as u64, libc::FD_CLOEXEC as u64]);
}
/// move harness sockets out of the low descriptor range so that they never
/// perturb the descriptors the daemon sees
pub fn hoist(s: UnixStream) -> UnixStream {
    let fd = s.into_raw_fd();
    let n = rt::sysn(libc::SYS_fcntl, &[fd as u64, libc::F_DUPFD_CLOEXEC as u64, 300]) as i32;
    rt::sysn(libc::SYS_close, &[fd as u64]);
    unsafe { UnixStream::from_raw_fd(n) }
}

#[derive(Clone)]
pub struct World {
    pub dir: PathBuf,
    pub sock: PathBuf,
    pub cfg: PathBuf,
}

pub fn spawn<T: Send + 'static>(
    group: u32,
    name: &str,
    f: impl FnOnce() -> T + Send + 'static,
) -> std::thread::JoinHandle<T> {
    let name = name.to_string();
    std::thread::spawn(move || {
        rt::set_group(group, &name);
        f()
    })
}

/// Run a real shpool command line in this process; returns the exit code.
pub fn run_shpool(args: &[String]) -> Result<(), String> {
    let mut v = vec!["shpool".to_string()];
    v.extend_from_slice(args);
    let a = libshpool::Args::try_parse_from(v).map_err(|e| e.to_string())?;
    unsafe { libshpool::run(a, None) }.map_err(|e| format!("{e:?}"))
}

impl World {
    pub fn prepare(cfg: &str) -> World {
        let dir = cwd();
        let sock = dir.join("run").join("shpool").join("shpool.socket");
        let cfgp = dir.join("config.toml");
        std::fs::write(&cfgp, cfg).unwrap();
        World { dir, sock, cfg: cfgp }
    }
    pub fn new(cfg: &str) -> World {
        let w = World::prepare(cfg);
        w.start_daemon();
        w
    }
    pub fn spawn_daemon(&self) {
        let args: Vec<String> =
            vec!["-c".into(), self.cfg.to_string_lossy().to_string(), "daemon".into()];
        spawn(G_DAEMON, "daemon", move || {
            let r = run_shpool(&args);
            rt::logln(&format!("daemon returned {r:?}"));
        });
    }
    pub fn start_daemon(&self) {
        self.spawn_daemon();
        if !wait_until(5000, || self.up()) {
            fail("daemon-start", "the daemon did not come up");
        }
        sleep_ms(20);
    }
    pub fn up(&self) -> bool {
        self.sock.exists() && UnixStream::connect(&self.sock).map(hoist).is_ok()
    }
    pub fn dial_raw(&self) -> Option<UnixStream> {
        UnixStream::connect(&self.sock).ok().map(hoist)
    }
    /// connect and read the version banner
    pub fn dial(&self) -> Option<UnixStream> {
        let mut s = self.dial_raw()?;
        s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        match dec::<VersionHeader>(&mut s) {
            Ok(_) => Some(s),
            Err(_) => None,
        }
    }
    pub fn request<T: for<'d> serde::Deserialize<'d>>(&self, h: &ConnectHeader, secs: u64) -> Result<T, String> {
        let mut s = self.dial().ok_or("could not connect")?;
        s.write_all(&enc(h)).map_err(|e| format!("write: {e:?}"))?;
        s.set_read_timeout(Some(Duration::from_secs(secs))).unwrap();
        dec::<T>(&mut s)
    }
    pub fn list(&self) -> Result<Vec<Sess>, String> {
        self.request::<ListReply>(&ConnectHeader::List, 10).map(|l| {
            let mut s = l.sessions;
            s.sort_by(|a, b| a.name.cmp(&b.name));
            s
        })
    }
    pub fn list_ok(&self) -> Vec<Sess> {
        match self.list() {
            Ok(l) => l,
            Err(e) => fail("list-unanswered", format!("list request got no reply within 10s: {e}")),
        }
    }
    pub fn kill(&self, names: &[&str]) -> Result<KillReply, String> {
        self.request(&ConnectHeader::Kill { sessions: names.iter().map(|s| s.to_string()).collect() }, 10)
    }
    pub fn detach(&self, names: &[&str]) -> Result<DetachReply, String> {
        self.request(&ConnectHeader::Detach { sessions: names.iter().map(|s| s.to_string()).collect() }, 10)
    }
    pub fn resize(&self, name: &str, rows: u16, cols: u16) -> Result<SessionMessageReply, String> {
        self.request(
            &ConnectHeader::SessionMessage {
                session_name: name.into(),
                payload: Payload::Resize { tty_size: TtySize { rows, cols, xpixel: 0, ypixel: 0 } },
            },
            10,
        )
    }
    pub fn set_var(&self, k: &str, v: Option<&str>) -> Result<Empty, String> {
        self.request(&ConnectHeader::ModifyVar { var: k.into(), val: v.map(|s| s.into()) }, 15)
    }
    pub fn get_vars(&self) -> Result<Vec<(String, String)>, String> {
        self.request::<MaybeSwitch>(&ConnectHeader::GetVars, 10).map(|m| {
            let mut v = m.vars;
            v.sort();
            v
        })
    }
    pub fn hdr(&self, name: &str) -> AttachHeader {
        AttachHeader {
            name: name.into(),
            name_template: name.into(),
            local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 },
            local_env: vec![("TERM".into(), "xterm".into())],
            ..Default::default()
        }
    }
    pub fn attach(&self, name: &str) -> (Client, AttachStatus) {
        self.attach_h(self.hdr(name))
    }
    pub fn attach_h(&self, h: AttachHeader) -> (Client, AttachStatus) {
        match self.try_attach(h) {
            Ok(r) => r,
            Err(e) => fail("attach-unanswered", format!("attach request got no reply: {e}")),
        }
    }
    pub fn try_attach(&self, h: AttachHeader) -> Result<(Client, AttachStatus), String> {
        let mut s = self.dial().ok_or("could not connect")?;
        s.write_all(&enc(&ConnectHeader::Attach(h))).map_err(|e| format!("write: {e:?}"))?;
        s.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
        let r: AttachReplyHeader = dec(&mut s)?;
        Ok((Client { s, exit: None, eof: false, data: vec![], switches: vec![], beats: 0, bad: None }, r.status))
    }
    /// attach a new session and return its virtual shell
    pub fn create(&self, name: &str) -> (Client, Sh) {
        self.create_h(self.hdr(name))
    }
    pub fn create_h(&self, h: AttachHeader) -> (Client, Sh) {
        let before: Vec<i32> = rt().procs.keys().copied().collect();
        let n = h.name.clone();
        let (c, st) = self.attach_h(h);
        ensure!(matches!(st, AttachStatus::Created { .. }), "create-refused", "creating session '{n}' was answered {st:?}");
        let pid = rt().procs.keys().copied().find(|p| !before.contains(p));
        match pid {
            Some(pid) => (c, Sh { pid }),
            None => fail("no-shell", format!("session '{n}' reported as created but no shell was started")),
        }
    }
}

pub struct Client {
    pub s: UnixStream,
    pub exit: Option<i32>,
    pub eof: bool,
    pub data: Vec<u8>,
    pub switches: Vec<MaybeSwitch>,
    pub beats: u32,
    pub bad: Option<String>,
}
impl Client {
    pub fn send(&mut self, b: &[u8]) -> bool {
        self.s.write_all(b).is_ok()
    }
    /// read one chunk; false when nothing came in time or the stream ended
    pub fn step(&mut self, ms: u64) -> bool {
        if self.eof || self.bad.is_some() {
            return false;
        }
        match read_chunk(&mut self.s, Duration::from_millis(ms)) {
            Chunk::Data(d) => {
                if self.exit.is_some() {
                    self.bad = Some("data after the exit status".into());
                }
                self.data.extend_from_slice(&d)
            }
            Chunk::Heartbeat => self.beats += 1,
            Chunk::Exit(i) => {
                if self.exit.is_some() {
                    // only the first one is ever looked at by clients
                    return true;
                }
                self.exit = Some(i)
            }
            Chunk::Switch(b) => match dec::<MaybeSwitch>(&mut &b[..]) {
                Ok(m) => self.switches.push(m),
                Err(e) => self.bad = Some(format!("undecodable switch payload {e}")),
            },
            Chunk::Eof => {
                self.eof = true;
                return false;
            }
            Chunk::Timeout => return false,
            Chunk::Bad(e) => {
                // a reset/pipe error is just the connection ending
                self.bad = Some(e);
                return false;
            }
        }
        true
    }
    /// keep reading until `f` holds or the time is up or the stream ended
    pub fn until(&mut self, ms: u64, mut f: impl FnMut(&Client) -> bool) -> bool {
        let end = rt::now_ns() + ms * MS;
        loop {
            if f(self) {
                return true;
            }
            if self.eof || self.bad.is_some() || rt::now_ns() >= end {
                return f(self);
            }
            let left = (end - rt::now_ns()).div_ceil(MS).max(1);
            self.step(left);
        }
    }
    pub fn drain_ms(&mut self, ms: u64) {
        self.until(ms, |_| false);
    }
    pub fn has(&self, pat: &[u8]) -> bool {
        find(&self.data, pat)
    }
    /// wait for the connection to end
    pub fn wait_end(&mut self, ms: u64) -> bool {
        self.until(ms, |c| c.eof || c.bad.is_some())
    }
    pub fn ended(&self) -> bool {
        self.eof || self.bad.is_some()
    }
}
pub fn find(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(300) {
        s.extend(std::ascii::escape_default(*c).map(|x| x as char));
    }
    if b.len() > 300 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

/// A virtual shell
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sh {
    pub pid: i32,
}
impl Sh {
    pub fn tty(&self) -> usize {
        rt().procs[&self.pid].tty
    }
    pub fn alive(&self) -> bool {
        rt().procs[&self.pid].status.is_none()
    }
    pub fn signals(&self) -> Vec<i32> {
        rt().procs[&self.pid].signals.iter().map(|x| x.1).collect()
    }
    pub fn slave(&self) -> i32 {
        rt().ttys[self.tty()].slave
    }
    /// shell writes to its terminal (blocking like a tty write)
    pub fn out(&self, b: &[u8]) -> bool {
        let fd = self.slave();
        if fd < 0 {
            return false;
        }
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
        f.write_all(b).is_ok()
    }
    /// output without a scheduling point
    pub fn out_now(&self, b: &[u8]) -> isize {
        rt::sysn(libc::SYS_sendto, &[self.slave() as u64, b.as_ptr() as u64, b.len() as u64, (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as u64, 0, 0]) as isize
    }
    /// everything typed at the shell so far that it has not read yet
    pub fn input(&self) -> Vec<u8> {
        let mut v = vec![];
        let fd = self.slave();
        if fd < 0 {
            return v;
        }
        let mut b = vec![0u8; 65536];
        loop {
            let n = rt::sysn(libc::SYS_recvfrom, &[fd as u64, b.as_mut_ptr() as u64, b.len() as u64, libc::MSG_DONTWAIT as u64, 0, 0]);
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        v
    }
    /// wait until the shell has received at least n bytes
    pub fn input_n(&self, n: usize, ms: u64) -> Vec<u8> {
        let mut v = self.input();
        let end = rt::now_ns() + ms * MS;
        while v.len() < n && rt::now_ns() < end {
            sleep_ms(2);
            v.extend(self.input());
        }
        v
    }
    pub fn exit(&self, code: i32) {
        rt::proc_die(self.pid, (code & 0xff) << 8);
    }
    pub fn killed_by(&self, sig: i32) {
        rt::proc_die(self.pid, sig);
    }
    pub fn winsz(&self) -> (u16, u16) {
        let w = rt().ttys[self.tty()].winsz;
        (w.0, w.1)
    }
    pub fn exec(&self) -> rt::ExecReport {
        rt().procs[&self.pid].exec.clone().unwrap()
    }
    /// the daemon gave up the terminal
    pub fn hungup(&self) -> bool {
        let fd = self.slave();
        fd >= 0 && rt::poll_now(fd, libc::POLLIN) & libc::POLLHUP != 0
    }
}
pub fn live_shells() -> Vec<Sh> {
    rt().procs.values().filter(|p| p.status.is_none()).map(|p| Sh { pid: p.pid }).collect()
}
pub fn all_shells() -> Vec<Sh> {
    rt().procs.values().map(|p| Sh { pid: p.pid }).collect()
}

/// Event subscriber: a thread collecting the lines of the events socket.
pub struct Events {
    pub lines: Arc<Mutex<Vec<(u64, String)>>>,
    pub raw: Arc<Mutex<Vec<u8>>>,
    pub ended: Arc<Mutex<bool>>,
}
pub fn events_sock(w: &World) -> PathBuf {
    w.sock.with_file_name("events.socket")
}
pub fn subscribe(w: &World) -> Events {
    let mut s = match UnixStream::connect(events_sock(w)) {
        Ok(s) => hoist(s),
        Err(e) => fail("events-connect", format!("cannot subscribe to events: {e}")),
    };
    let e = Events {
        lines: Arc::new(Mutex::new(vec![])),
        raw: Arc::new(Mutex::new(vec![])),
        ended: Arc::new(Mutex::new(false)),
    };
    let (l, r, d) = (e.lines.clone(), e.raw.clone(), e.ended.clone());
    spawn(G_CLIENT, "subscriber", move || {
        let mut buf = [0u8; 4096];
        let mut cur = vec![];
        loop {
            match s.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => {
                    r.lock().unwrap().extend_from_slice(&buf[..n]);
                    for b in &buf[..n] {
                        if *b == b'\n' {
                            let s = String::from_utf8_lossy(&cur).to_string();
                            l.lock().unwrap().push((rt::now_ns(), s));
                            cur.clear();
                        } else {
                            cur.push(*b);
                        }
                    }
                }
            }
        }
        *d.lock().unwrap() = true;
    });
    sleep_ms(30);
    e
}
impl Events {
    pub fn kinds(&self) -> Vec<String> {
        self.lines
            .lock()
            .unwrap()
            .iter()
            .map(|(_, l)| {
                let v: serde_json::Value = match serde_json::from_str(l) {
                    Ok(v) => v,
                    Err(e) => fail("event-not-json", format!("event line {l:?} is not JSON: {e}")),
                };
                match v["type"].as_str() {
                    Some(s) => s.trim_start_matches("session.").to_string(),
                    None => fail("event-no-type", format!("event line {l:?} has no type")),
                }
            })
            .collect()
    }
}

/// A connected socket pair whose ends are harness-owned
pub fn pair() -> (UnixStream, UnixStream) {
    let (a, b) = UnixStream::pair().unwrap();
    (hoist(a), hoist(b))
}
pub fn rawfd(s: &UnixStream) -> i32 {
    s.as_raw_fd()
}
/// limit how many bytes each read on the daemon side of a connection returns
pub fn peer_inode(s: &UnixStream) -> u64 {
    rt::fd_ino(s.as_raw_fd())
}
