//! The real command line client against scripted daemons: transparency of
//! attach (P18), durations and templates (P22), wire skew (P28), reporting of
//! the daemon's answers (P29).
use super::*;
use crate::rt;
use crate::wire::*;
use crate::world::settle;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    let b = if deep { 2 } else { 1 };
    let big = |mut j: Job| {
        j.step_limit = 60_000_000;
        j
    };
    match prop {
        "P18" => {
            for part in 0..16 {
                v.push(big(job(prop, "client.frames", json!({"part": part, "parts": 16, "len": if deep { 4 } else { 3 }}), o_none(), 0)));
            }
            for part in 0..4 {
                v.push(big(job(prop, "client.cut", json!({"part": part, "parts": 4}), o_none(), 0)));
            }
            for part in 0..4 {
                v.push(big(job(prop, "client.bad", json!({"part": part, "parts": 4}), o_none(), 0)));
            }
            for n in [1u64, 8191, 8192, 8193, 16383, 16384, 16385, 70000, 300000] {
                for slow in [false, true] {
                    v.push(big(job(prop, "client.stdin", json!({"n": n, "slow": slow}), o_none(), 0)));
                }
            }
            for n in [1u64, 16384, 50000, 200000] {
                for how in ["fast", "slow", "typing", "slow-typing", "nonblock"] {
                    v.push(big(job(prop, "client.stdout", json!({"n": n, "how": how}), o_none(), 0)));
                }
            }
            for how in ["exit", "eof", "eof-data", "both"] {
                v.push(job(prop, "client.race", json!({"how": how}), o_all(), b));
            }
        }
        "P22" => {
            let parts = if deep { 1200 } else { 96 };
            for part in 0..parts {
                v.push(big(job(prop, "client.durations", json!({"part": part, "parts": parts, "len": if deep { 5 } else { 4 }}), o_none(), 0)));
            }
            let parts = if deep { 1200 } else { 96 };
            for part in 0..parts {
                v.push(big(job(prop, "client.templates", json!({"part": part, "parts": parts, "len": if deep { 5 } else { 4 }}), o_none(), 0)));
            }
        }
        "P28" => {
            for part in 0..12 {
                v.push(big(job(prop, "client.replies", json!({"part": part, "parts": 12}), o_none(), 0)));
            }
            for part in 0..12 {
                v.push(big(job(prop, "client.requests", json!({"part": part, "parts": 12}), o_none(), 0)));
            }
            v.push(big(job(prop, "client.encodes", json!({}), o_none(), 0)));
            for part in 0..4 {
                v.push(big(job(prop, "client.versions", json!({"part": part, "parts": 4}), o_none(), 0)));
            }
        }
        "P29" => {
            for part in 0..12 {
                v.push(big(job(prop, "client.answers", json!({"part": part, "parts": 12}), o_none(), 0)));
            }
            for part in 0..4 {
                v.push(big(job(prop, "client.losses", json!({"part": part, "parts": 4}), o_none(), 0)));
            }
        }
        _ => {}
    }
}
pub fn run(f: &str, p: &Value) {
    match f {
        "frames" => frames(p),
        "cut" => cut(p),
        "bad" => bad(p),
        "stdin" => stdin(u(p, "n") as usize, p["slow"] == true),
        "stdout" => stdout(u(p, "n") as usize, &s(p, "how")),
        "race" => race(&s(p, "how")),
        "durations" => durations(p),
        "templates" => templates(p),
        "replies" => replies(p),
        "requests" => requests(p),
        "encodes" => encodes(),
        "versions" => versions(p),
        "answers" => answers(p),
        "losses" => losses(p),
        _ => panic!("unknown {f}"),
    }
}

// ------------------------------------------------------------ the client process
/// The terminal of the simulated client process: descriptors 0, 1 and 2.
pub struct Term {
    pub inp: UnixStream,
    pub out: UnixStream,
    pub got: Vec<u8>,
}
fn hi(s: UnixStream) -> UnixStream {
    let fd = s.into_raw_fd();
    let n = rt::sysn(libc::SYS_fcntl, &[fd as u64, libc::F_DUPFD_CLOEXEC as u64, 300]) as i32;
    rt::sysn(libc::SYS_close, &[fd as u64]);
    unsafe { UnixStream::from_raw_fd(n) }
}
impl Term {
    /// `sndbuf`: how much output fits before writes to stdout block
    pub fn new(sndbuf: u32) -> Term {
        let (ai, bi) = UnixStream::pair().unwrap();
        let (ao, bo) = UnixStream::pair().unwrap();
        rt::sysn(libc::SYS_dup2, &[bi.as_raw_fd() as u64, 0]);
        if sndbuf > 0 {
            rt::sysn(libc::SYS_setsockopt, &[bo.as_raw_fd() as u64, libc::SOL_SOCKET as u64, libc::SO_SNDBUF as u64, &sndbuf as *const _ as u64, 4]);
        }
        rt::sysn(libc::SYS_dup2, &[bo.as_raw_fd() as u64, 1]);
        let f = std::fs::OpenOptions::new().create(true).append(true).read(true).open("stderr.txt").unwrap();
        rt::sysn(libc::SYS_dup2, &[f.as_raw_fd() as u64, 2]);
        drop((bi, bo, f));
        Term { inp: hi(ai), out: hi(ao), got: vec![] }
    }
    /// take what has been printed so far
    pub fn pull(&mut self) {
        let mut b = vec![0u8; 65536];
        loop {
            let n = rt::sysn(libc::SYS_recvfrom, &[self.out.as_raw_fd() as u64, b.as_mut_ptr() as u64, b.len() as u64, libc::MSG_DONTWAIT as u64, 0, 0]);
            if n <= 0 {
                return;
            }
            self.got.extend_from_slice(&b[..n as usize]);
        }
    }
    pub fn take(&mut self) -> Vec<u8> {
        self.pull();
        std::mem::take(&mut self.got)
    }
    /// hand input to the client without ever blocking; returns what fit
    pub fn type_now(&self, b: &[u8]) -> usize {
        let n = rt::sysn(libc::SYS_sendto, &[self.inp.as_raw_fd() as u64, b.as_ptr() as u64, b.len() as u64, (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as u64, 0, 0]);
        n.max(0) as usize
    }
    pub fn eof(&self) {
        self.inp.shutdown(std::net::Shutdown::Write).ok();
    }
}
pub fn stderr_text() -> String {
    // without the lines of the log
    let t = String::from_utf8_lossy(&std::fs::read("stderr.txt").unwrap_or_default()).to_string();
    t.lines().filter(|l| !l.contains(" ThreadId(")).map(|l| format!("{l}\n")).collect()
}
pub fn stderr_clear() {
    let _ = std::fs::OpenOptions::new().write(true).truncate(true).open("stderr.txt");
}
pub struct Proc {
    pub group: u32,
    exits_from: usize,
    res: Arc<Mutex<Option<i32>>>,
    _h: std::thread::JoinHandle<()>,
}
/// start `shpool <args>` as a simulated process
pub fn shpool(group: u32, args: &[&str]) -> Proc {
    let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    let res = Arc::new(Mutex::new(None));
    let r2 = res.clone();
    let exits_from = rt().exits.len();
    let h = std::thread::spawn(move || {
        rt::set_group(group, "client");
        let r = std::panic::catch_unwind(|| run_shpool(&args));
        let _ = std::io::stdout().flush();
        rt::hang_up_group(group);
        *r2.lock().unwrap() = Some(match r {
            Ok(Ok(())) => 0,
            Ok(Err(e)) => {
                eprintln!("Error: {e}");
                1
            }
            Err(_) => 101,
        });
    });
    Proc { group, exits_from, res, _h: h }
}
impl Proc {
    pub fn status(&self) -> Option<i32> {
        if let Some(x) = rt().exits[self.exits_from..].iter().find(|x| rt().thr[x.0].group == self.group) {
            return Some(x.1 & 0xff);
        }
        *self.res.lock().unwrap()
    }
    pub fn wait(&self, ms: u64) -> Option<i32> {
        wait_until(ms, || self.status().is_some());
        self.status()
    }
    /// the process is killed: its connections end at once
    pub fn sigkill(&self) {
        rt().exits.push((rt().thr.iter().position(|t| t.group == self.group).unwrap(), 137));
        rt::kill_group(self.group);
    }
}

// ------------------------------------------------------------ the scripted daemon
pub struct Fake {
    pub l: UnixListener,
    pub version: String,
}
pub fn cfg_plain() -> World {
    World::prepare("prompt_prefix = \"\"\nnodaemonize = true\n")
}
pub fn args_of<'a>(w: &'a World, extra: &[&'a str]) -> Vec<String> {
    let mut v = vec!["-c".to_string(), w.cfg.to_string_lossy().to_string(), "--socket".to_string(), w.sock.to_string_lossy().to_string()];
    v.extend(extra.iter().map(|s| s.to_string()));
    v
}
pub fn start(w: &World, group: u32, extra: &[&str]) -> Proc {
    let a = args_of(w, extra);
    shpool(group, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>())
}
pub fn proto_version() -> String {
    shpool_protocol::VERSION.to_string()
}
impl Fake {
    pub fn new(w: &World) -> Fake {
        std::fs::create_dir_all(w.sock.parent().unwrap()).unwrap();
        let _ = std::fs::remove_file(&w.sock);
        Fake { l: UnixListener::bind(&w.sock).unwrap(), version: proto_version() }
    }
    pub fn pending(&self) -> bool {
        rt::poll_now(self.l.as_raw_fd(), libc::POLLIN) != 0
    }
    pub fn accept_raw(&self, ms: u64) -> Option<UnixStream> {
        if !wait_until(ms, || self.pending()) {
            return None;
        }
        Some(hi(self.l.accept().unwrap().0))
    }
    pub fn accept(&self, ms: u64) -> Option<UnixStream> {
        let mut s = self.accept_raw(ms)?;
        s.write_all(&enc(&VersionHeader { version: self.version.clone() })).ok();
        Some(s)
    }
    /// next request, or None if none comes or it cannot be decoded
    pub fn request(&self, ms: u64) -> Option<(UnixStream, ConnectHeader)> {
        let mut s = self.accept(ms)?;
        s.set_read_timeout(Some(Duration::from_millis(ms.max(1)))).unwrap();
        let h = dec::<ConnectHeader>(&mut s).ok()?;
        Some((s, h))
    }
    /// serve requests until the client attaches; answers GetVars
    pub fn attach(&self, vars: &[(String, String)]) -> Option<(UnixStream, AttachHeader)> {
        for _ in 0..4 {
            match self.request(3000)? {
                (mut s, ConnectHeader::GetVars) => {
                    s.write_all(&enc(&MaybeSwitch { switch_to: None, vars: vars.to_vec() })).ok()?;
                }
                (s, ConnectHeader::Attach(h)) => return Some((s, h)),
                _ => return None,
            }
        }
        None
    }
    pub fn attached(&self) -> (UnixStream, AttachHeader) {
        match self.attach(&[]) {
            Some((mut s, h)) => {
                s.write_all(&enc(&AttachReplyHeader { status: AttachStatus::Created { warnings: vec![] } })).unwrap();
                (s, h)
            }
            None => fail("no-attach", format!("the client does not send an attach request (stderr {})", stderr_text())),
        }
    }
}

// ------------------------------------------------------------ P18
fn frame_alphabet() -> Vec<(&'static str, Vec<u8>, Vec<u8>)> {
    let d = |b: &[u8]| chunk_bytes(&Chunk::Data(b.to_vec()));
    let sw = chunk_bytes(&Chunk::Switch(enc(&MaybeSwitch { switch_to: None, vars: vec![("v".into(), "1".into())] })));
    let big = super::stream::pattern(16384, 3);
    vec![
        ("ab", d(b"ab\r\n"), b"ab\r\n".to_vec()),
        ("esc", d(b"\x00\x01\x02\x03\x1b[31m\xff"), b"\x00\x01\x02\x03\x1b[31m\xff".to_vec()),
        ("empty", d(b""), vec![]),
        ("big", d(&big), big.clone()),
        ("beat", chunk_bytes(&Chunk::Heartbeat), vec![]),
        ("switch", sw, vec![]),
    ]
}
fn exits() -> [i32; 4] {
    [0, 1, 7, 255]
}
fn send_now(s: &UnixStream, b: &[u8]) -> bool {
    let mut off = 0;
    let end = now_ms() + 5000;
    while off < b.len() {
        let n = rt::sysn(libc::SYS_sendto, &[s.as_raw_fd() as u64, b[off..].as_ptr() as u64, (b.len() - off) as u64, (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as u64, 0, 0]);
        if n > 0 {
            off += n as usize;
        } else if n as i64 == -(libc::EAGAIN as i64) && now_ms() < end {
            sleep_ms(1);
        } else {
            return false;
        }
    }
    true
}
/// deliver `bytes` cut at the given points; the client runs dry at each
fn deliver(t: &mut Term, s: &UnixStream, bytes: &[u8], cuts: &[usize]) {
    let mut at = 0;
    for c in cuts.iter().copied().chain([bytes.len()]) {
        if c > at && c <= bytes.len() {
            send_now(s, &bytes[at..c]);
            settle();
            t.pull();
            at = c;
        }
    }
}
fn one_stream(w: &World, f: &Fake, bytes: &[u8], cuts: &[usize], out: &[u8], status: Option<i32>, what: &str) {
    let mut t = Term::new(0);
    let c = start(w, G_REALCLIENT, &["attach", "s"]);
    let (s, _) = f.attached();
    t.take();
    deliver(&mut t, &s, bytes, cuts);
    drop(s);
    match c.wait(3000) {
        None => fail("client-hang", format!("{what}: the attach command does not end")),
        Some(x) => {
            match status {
                Some(e) => ensure!(x == e, "status", "{what}: attach exited with {x}, the daemon reported {e}"),
                None => ensure!(x != 0 && x != 101, "status", "{what}: attach exited with {x} although the stream broke"),
            };
        }
    }
    let got = t.take();
    ensure!(got == out, "output", "{what}: printed {} expected {}", esc(&got), esc(out));
}
fn frames(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    rt().step_limit = 60_000_000;
    let al = frame_alphabet();
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 1..u(p, "len") {
        let mut n = vec![];
        for q in &last {
            for i in 0..al.len() {
                let mut r = q.clone();
                r.push(i);
                n.push(r);
            }
        }
        seqs.extend(n.iter().cloned());
        last = n;
    }
    let mut n = 0u64;
    for q in &seqs {
        if q.iter().filter(|i| **i == 3).count() > 1 {
            continue;
        }
        let ex = exits()[q.iter().sum::<usize>() % 4];
        let mut bytes = vec![];
        let mut out = vec![];
        let mut edges = vec![];
        for i in q {
            edges.push(bytes.len());
            bytes.extend_from_slice(&al[*i].1);
            out.extend_from_slice(&al[*i].2);
        }
        edges.push(bytes.len());
        bytes.extend_from_slice(&chunk_bytes(&Chunk::Exit(ex)));
        let what = format!("frames {:?} + exit {ex}", q.iter().map(|i| al[*i].0).collect::<Vec<_>>());
        // whole, every single cut (around the frame edges of big ones), bytewise
        let small = bytes.len() < 200;
        let mut cuts: Vec<Vec<usize>> = vec![vec![]];
        if small {
            cuts.extend((1..bytes.len()).map(|i| vec![i]));
            cuts.push((1..bytes.len()).collect());
        } else {
            for e in &edges {
                for d in [1usize, 2, 5, 6, 4096, 16384, 16388] {
                    if e + d < bytes.len() {
                        cuts.push(vec![e + d]);
                    }
                }
            }
            cuts.push((1..bytes.len()).step_by(1000).collect());
        }
        for c in cuts {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            one_stream(&w, &f, &bytes, &c, &out, Some(ex), &format!("{what} cut at {:?}", &c[..c.len().min(3)]));
        }
    }
    no_panics();
    set_output(format!("frames {n}").as_bytes());
}
/// the stream ends after every prefix
fn cut(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    rt().step_limit = 60_000_000;
    let al = frame_alphabet();
    let mut bytes = vec![];
    let mut ends = vec![];
    for i in [0usize, 4, 1, 5, 2, 0] {
        bytes.extend_from_slice(&al[i].1);
        ends.push((bytes.len(), al[i].2.clone()));
    }
    let whole = bytes.len();
    bytes.extend_from_slice(&chunk_bytes(&Chunk::Exit(0)));
    for k in 0..bytes.len() {
        if k as u64 % u(p, "parts") != u(p, "part") {
            continue;
        }
        let out: Vec<u8> = ends.iter().filter(|e| e.0 <= k).flat_map(|e| e.1.clone()).collect();
        one_stream(&w, &f, &bytes[..k], &[], &out, None, &format!("stream of {whole} bytes cut after {k}"));
    }
    no_panics();
    set_output(b"cut");
}
/// malformed and oversized frames
fn bad(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    rt().step_limit = 60_000_000;
    let pre = chunk_bytes(&Chunk::Data(b"good".to_vec()));
    let mut cases: Vec<(String, Vec<u8>)> = vec![];
    for k in 4..=255u8 {
        cases.push((format!("kind {k}"), vec![k, 0, 0, 0, 0]));
    }
    for kind in [0u8, 1, 3] {
        for len in [(64u32 << 20) + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff] {
            let mut b = vec![kind];
            b.extend_from_slice(&len.to_le_bytes());
            b.extend_from_slice(&vec![b'x'; 2000]);
            cases.push((format!("kind {kind} of length {len}"), b));
        }
    }
    for payload in [&b""[..], b"\xc1", b"\x80", b"\x81\xa4vars\x01", b"garbage"] {
        cases.push((format!("undecodable switch {}", esc(payload)), chunk_bytes(&Chunk::Switch(payload.to_vec()))));
    }
    for (i, (what, b)) in cases.iter().enumerate() {
        if i as u64 % u(p, "parts") != u(p, "part") {
            continue;
        }
        let mut t = Term::new(0);
        let c = start(&w, G_REALCLIENT, &["attach", "s"]);
        let (s, _) = f.attached();
        t.take();
        send_now(&s, &pre);
        send_now(&s, b);
        // the daemon keeps the connection open: the client has to notice
        match c.wait(3000) {
            None => fail("client-hang", format!("{what}: the attach command does not end")),
            Some(x) => ensure!(x != 0 && x != 101, "status", "{what}: attach exited with {x}"),
        }
        drop(s);
        let got = t.take();
        ensure!(got == b"good", "output", "{what}: printed {}", esc(&got));
    }
    no_panics();
    set_output(b"bad");
}
fn stdin(n: usize, slow: bool) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    rt().step_limit = 60_000_000;
    let data = super::stream::pattern(n, 11);
    for step in [n, 1.max(n / 3), 8192.min(n), 8191.min(n)] {
        let mut t = Term::new(0);
        let c = start(&w, G_REALCLIENT, &["attach", "s"]);
        let (mut s, _) = f.attached();
        let mut off = 0;
        let mut got = vec![];
        let end = now_ms() + 60_000;
        let mut buf = vec![0u8; 5000];
        while got.len() < n && now_ms() < end {
            if off < n {
                let to = (off + step).min(n);
                off += t.type_now(&data[off..to]);
            }
            sleep_ms(if slow { 120 } else { 3 });
            let want = if slow { 5000 } else { 1 << 30 };
            let mut taken = 0;
            while taken < want && rt::poll_now(s.as_raw_fd(), libc::POLLIN) & libc::POLLIN != 0 {
                match s.read(&mut buf) {
                    Ok(0) | Err(_) => fail("client-gone", format!("the client hung up after {} of {n} bytes", got.len())),
                    Ok(k) => {
                        got.extend_from_slice(&buf[..k]);
                        taken += k;
                    }
                }
            }
        }
        ensure!(got == data, "input", "stdin arrives altered: {}", super::stream::diff(&got, &data));
        send_now(&s, &chunk_bytes(&Chunk::Exit(5)));
        ensure!(c.wait(3000) == Some(5), "status", "attach ended with {:?} instead of 5", c.status());
        // input typed to the end of file is delivered before the client leaves
        let c = start(&w, G_REALCLIENT, &["attach", "s"]);
        let (mut s, _) = f.attached();
        let k = n.min(60_000);
        ensure!(t.type_now(&data[..k]) == k, "harness", "stdin full");
        t.eof();
        let mut got = vec![];
        s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        loop {
            match s.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(k) => got.extend_from_slice(&buf[..k]),
            }
        }
        ensure!(got == data[..k], "input-eof", "stdin before its end arrives altered: {}", super::stream::diff(&got, &data[..k]));
        ensure!(c.wait(3000).is_some(), "client-hang", "attach does not end after its stdin did");
        t.take();
    }
    no_panics();
    set_output(format!("{n}").as_bytes());
}
fn stdout(n: usize, how: &str) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    rt().step_limit = 60_000_000;
    let data = super::stream::pattern(n, 17);
    let slow = how.starts_with("slow") || how == "nonblock";
    let mut t = Term::new(if slow { 4096 } else { 0 });
    if how == "nonblock" {
        rt::sysn(libc::SYS_fcntl, &[1, libc::F_SETFL as u64, (libc::O_RDWR | libc::O_NONBLOCK) as u64]);
    }
    let c = start(&w, G_REALCLIENT, &["attach", "s"]);
    let (s, _) = f.attached();
    let mut bytes = vec![];
    for ch in data.chunks(16384) {
        bytes.extend_from_slice(&chunk_bytes(&Chunk::Data(ch.to_vec())));
        bytes.extend_from_slice(&chunk_bytes(&Chunk::Heartbeat));
    }
    bytes.extend_from_slice(&chunk_bytes(&Chunk::Exit(9)));
    let h = spawn(G_CLIENT, "fake-daemon", move || {
        let mut s = s;
        let ok = s.write_all(&bytes).is_ok();
        // like the real daemon: the connection ends with the session
        drop(s);
        ok
    });
    if how == "fast" {
        while t.got.len() < n && c.status().is_none() {
            t.pull();
            sleep_ms(1);
        }
    } else {
        let end = now_ms() + 4000 + n as u64 / 2;
        let mut last = usize::MAX;
        while now_ms() < end && (c.status().is_none() || t.got.len() != last) {
            last = t.got.len();
            if how.ends_with("typing") {
                t.type_now(b"k");
            }
            sleep_ms(if slow { 700 } else { 30 });
            if slow {
                let mut b = vec![0u8; 2048];
                let k = rt::sysn(libc::SYS_recvfrom, &[t.out.as_raw_fd() as u64, b.as_mut_ptr() as u64, b.len() as u64, libc::MSG_DONTWAIT as u64, 0, 0]);
                if k > 0 {
                    t.got.extend_from_slice(&b[..k as usize]);
                }
                // after a while the terminal catches up
                if t.got.len() > 8000 {
                    t.pull();
                }
            } else {
                t.pull();
            }
        }
    }
    let st = c.wait(5000);
    t.pull();
    let _ = h;
    ensure!(t.got == data, "output", "{n} bytes, {how}: the terminal got {}", super::stream::diff(&t.got, &data));
    ensure!(st == Some(9), "status", "{n} bytes, {how}: attach ended with {st:?}, the daemon reported 9");
    no_panics();
    set_output(format!("{n} {how}").as_bytes());
}
/// exit status, output and the end of stdin under every schedule
fn race(how: &str) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    let mut t = Term::new(0);
    let c = start(&w, G_REALCLIENT, &["attach", "s"]);
    let (s, _) = f.attached();
    sleep_ms(150);
    t.take();
    explore(true);
    t.type_now(b"in");
    if matches!(how, "eof" | "both") {
        t.eof();
    }
    if matches!(how, "eof-data") {
        t.eof();
        sleep_ms(20);
    }
    if how == "both" {
        sleep_ms(1);
    }
    send_now(&s, &chunk_bytes(&Chunk::Data(b"out".to_vec())));
    send_now(&s, &chunk_bytes(&Chunk::Exit(4)));
    let st = c.wait(3000);
    explore(false);
    sleep_ms(10);
    let got = t.take();
    set_output(format!("{st:?} {}", esc(&got)).as_bytes());
    match how {
        "exit" => {
            ensure!(st == Some(4), "status", "attach ended with {st:?}, the daemon reported 4");
            ensure!(got == b"out", "output", "printed {}", esc(&got));
        }
        // the end of stdin alone ends the command, but a status that is
        // already there wins
        _ => {
            ensure!(st == Some(4), "status", "attach ended with {st:?} after its stdin ended, the daemon had reported 4");
            ensure!(got == b"out", "output", "printed {}", esc(&got));
        }
    }
    no_panics();
}

// ------------------------------------------------------------ P22
fn strings(al: &[&str], n: usize) -> Vec<String> {
    let mut all = vec![];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut nx = vec![];
        for q in &last {
            for a in al {
                nx.push(format!("{q}{a}"));
            }
        }
        all.extend(nx.iter().cloned());
        last = nx;
    }
    all
}
/// what the documentation says a duration means
fn ref_duration(x: &str) -> Option<u64> {
    let num = |p: &str| -> Option<u128> {
        if p.is_empty() || p.trim_start_matches('0').len() > 30 || !p.bytes().all(|b| b.is_ascii_digit()) {
            None
        } else {
            format!("0{}", p.trim_start_matches('0')).parse::<u128>().ok()
        }
    };
    let v = if x.contains(':') {
        let parts: Vec<&str> = x.split(':').collect();
        if parts.len() > 4 {
            return None;
        }
        let mut sum = 0u128;
        for (p, m) in parts.iter().rev().zip([1u128, 60, 3600, 86400]) {
            sum += num(p)? * m;
        }
        sum
    } else {
        let (n, m) = if let Some(n) = x.strip_suffix('s') {
            (n, 1)
        } else if let Some(n) = x.strip_suffix('m') {
            (n, 60)
        } else if let Some(n) = x.strip_suffix('h') {
            (n, 3600)
        } else if let Some(n) = x.strip_suffix('d') {
            (n, 86400)
        } else {
            return None;
        };
        num(n)? * m
    };
    u64::try_from(v).ok()
}
/// run an attach command; its attach request if it sends one, else its status
fn probe(w: &World, f: &Fake, extra: &[&str], vars: &[(String, String)]) -> Result<AttachHeader, i32> {
    let c = start(w, G_REALCLIENT, extra);
    let end = now_ms() + 5000;
    while now_ms() < end {
        if let Some(st) = c.status() {
            return Err(st);
        }
        if f.pending() {
            match f.request(1000) {
                Some((mut s, ConnectHeader::GetVars)) => {
                    s.write_all(&enc(&MaybeSwitch { switch_to: None, vars: vars.to_vec() })).ok();
                }
                Some((mut s, ConnectHeader::Attach(h))) => {
                    s.write_all(&enc(&AttachReplyHeader { status: AttachStatus::Forbidden("enough".into()) })).ok();
                    c.wait(2000);
                    return Ok(h);
                }
                x => fail("unexpected-request", format!("{extra:?} sends {x:?}")),
            }
            continue;
        }
        sleep_ms(1);
    }
    fail("client-hang", format!("shpool {extra:?} neither attaches nor ends"))
}
fn durations(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    let _t = Term::new(0);
    rt().step_limit = 60_000_000;
    let al = ["0", "1", "9", ":", "s", "m", "d", "x", "-", "+", ".", " ", "\u{e9}"];
    let mut cases = strings(&al, u(p, "len") as usize);
    cases.push(String::new());
    for n in ["18446744073709551615", "18446744073709551616", "307445734561825860", "307445734561825861", "5124095576030431", "5124095576030432", "213503982334601", "213503982334602", "99999999999999999999999999", "0000000000000000000000000000000000000007"] {
        for u in ["s", "m", "h", "d"] {
            cases.push(format!("{n}{u}"));
        }
        cases.push(n.to_string());
        for t in ["{}:0", "0:{}", "{}:59", "0:0:{}", "{}:0:0", "{}:0:0:0", "1:{}:1", "{}:{}", "213503982334601:7:0:15", "213503982334601:7:0:16"] {
            cases.push(t.replace("{}", n));
        }
    }
    for h in ["5h", "5H", "12h", "1h1m", "\u{661}s", "\u{bd}h", "1\u{200b}s", "01:02:03:04", "1:1:1:1:1", ":::", "::", ":", "1:", "1::1", "1d ", "\t1d", "1_0s", "0x1s", "1e1s", "1:2s", "1s:2"] {
        cases.push(h.to_string());
    }
    let mut n = 0u64;
    for c in &cases {
        n += 1;
        if n % u(p, "parts") != u(p, "part") {
            continue;
        }
        let arg = format!("--ttl={c}");
        let exp = ref_duration(c);
        let got = probe(&w, &f, &["attach", &arg, "s"], &[]);
        match (&got, exp) {
            (Ok(h), Some(e)) => ensure!(h.ttl_secs == Some(e), "duration-value", "--ttl={c:?} is taken as {:?} seconds, documented meaning is {e}", h.ttl_secs),
            (Ok(h), None) => fail("duration-accepted", format!("--ttl={c:?} is not a documented duration but is taken as {:?} seconds", h.ttl_secs)),
            (Err(st), Some(e)) => fail("duration-refused", format!("--ttl={c:?} ({e} s) is refused with status {st}")),
            (Err(st), None) => ensure!(*st != 0 && *st != 101, "duration-status", "--ttl={c:?} ends with status {st}"),
        }
        no_panics();
    }
    set_output(format!("durations {n}").as_bytes());
}
fn ref_template(t: &str, vars: &[(String, String)]) -> Option<String> {
    let mut out = String::new();
    let ch: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        if ch[i] != '{' {
            out.push(ch[i]);
            i += 1;
            continue;
        }
        let mut j = i + 1;
        while j < ch.len() && ch[j] != '}' {
            j += 1;
        }
        if j == ch.len() || j == i + 1 {
            return None;
        }
        let name: String = ch[i + 1..j].iter().collect();
        if ch[i + 1].is_numeric() || !name.chars().all(|c| c.is_alphanumeric() || c == '_') {
            return None;
        }
        if let Some((_, v)) = vars.iter().find(|(k, _)| *k == name) {
            out.push_str(v);
        }
        i = j + 1;
    }
    Some(out)
}
fn templates(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    let _t = Term::new(0);
    rt().step_limit = 60_000_000;
    let vars: Vec<(String, String)> = [("a", "VA"), ("a1", "{a}"), ("_", "U"), ("b", ""), ("aa", "}{"), ("\u{e9}", "E")].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let al = ["{", "}", "a", "_", "1", "-", "\u{e9}"];
    let mut cases: Vec<(&str, String)> = vec![];
    for t in strings(&al, u(p, "len") as usize) {
        cases.push(("cmd", t));
    }
    for t in strings(&al, u(p, "len") as usize - 1) {
        cases.push(("name", t.clone()));
        cases.push(("dir", t.clone()));
        cases.push(("start-cmd", t));
    }
    for t in ["{a}{a1}", "x{a}y{b}z{a}", "{a b}", "{ a}", "{a}}", "{{a}}", "{a\n}", "{a}{", "a}b{a}", "{missing}x", "{aa}{a}", "{A}", "{a.b}"] {
        for k in ["cmd", "name", "dir", "start-cmd"] {
            cases.push((k, t.to_string()));
        }
    }
    let mut n = 0u64;
    for (k, t) in &cases {
        n += 1;
        if n % u(p, "parts") != u(p, "part") {
            continue;
        }
        let exp = ref_template(t, &vars);
        let arg = format!("--{k}={t}");
        let (got, field) = if *k == "name" {
            let g = probe(&w, &f, &["attach", "--", t], &vars);
            let fl = g.as_ref().ok().map(|h| Some(h.name.clone()));
            if let Ok(h) = &g {
                ensure!(h.name_template == *t, "template-source", "name template {t:?} is reported to the daemon as {:?}", h.name_template);
            }
            (g, fl)
        } else {
            let g = probe(&w, &f, &["attach", &arg, "s"], &vars);
            let fl = g.as_ref().ok().map(|h| match *k {
                "cmd" => h.cmd.clone(),
                "dir" => h.dir.clone(),
                _ => h.start_cmd.clone(),
            });
            (g, fl)
        };
        let named_badly = *k == "name" && exp.as_ref().is_some_and(|e| e.is_empty() || e.contains(char::is_whitespace) || e.contains('/') || e == "." || e == "..");
        match (&field, &exp) {
            (Some(g), Some(e)) => {
                ensure!(!named_badly, "bad-name-sent", "name template {t:?} expands to {e:?} and is still requested");
                ensure!(g.as_deref() == Some(e.as_str()), "template-value", "{k} template {t:?} expands to {g:?}, expected {e:?}");
            }
            (Some(g), None) => fail("template-accepted", format!("malformed {k} template {t:?} is accepted as {g:?}")),
            (None, Some(e)) => ensure!(named_badly, "template-refused", "{k} template {t:?} ({e:?}) is refused: {got:?}"),
            (None, None) => ensure!(matches!(&got, Err(x) if *x != 0 && *x != 101), "template-status", "malformed {k} template {t:?} ends with {got:?}"),
        }
        no_panics();
    }
    set_output(format!("templates {n}").as_bytes());
}

// ------------------------------------------------------------ P28 and P29
/// a daemon answer for a command and what the command has to report
struct Case {
    args: Vec<&'static str>,
    env: Option<&'static str>,
    /// the request expected, as JSON
    req: Value,
    /// the reply, as JSON
    reply: Value,
    fail: bool,
    /// words stderr must contain
    errs: Vec<&'static str>,
    out: Out,
}
#[derive(Clone)]
enum Out {
    Nothing,
    /// sessions: (name, status)
    Table(Vec<(&'static str, &'static str)>),
    Json(Value),
    Text(&'static str),
    Vars(Vec<(&'static str, &'static str)>),
}
fn sess(n: &str, st: &str, lc: Option<i64>, tmpl: &str) -> Value {
    json!({"name": n, "started_at_unix_ms": 1000, "last_connected_at_unix_ms": lc, "last_disconnected_at_unix_ms": lc.map(|x| x + 1),
           "status": st, "attachments": if st == "Attached" { json!([{"session_name_template": tmpl, "pid": 12}]) } else { json!([]) }})
}
fn cases() -> Vec<Case> {
    let mut v = vec![];
    let sets: Vec<Vec<(&str, &str)>> = vec![
        vec![],
        vec![("a", "Attached")],
        vec![("a", "Disconnected")],
        vec![("a", "Attached"), ("longer-name", "Disconnected")],
        vec![("b", "Disconnected"), ("a", "Disconnected"), ("\u{e9}t\u{e9}", "Attached")],
    ];
    for st in &sets {
        let reply = json!({"sessions": st.iter().map(|(n, x)| sess(n, x, if *x == "Attached" { None } else { Some(5) }, "{v}")).collect::<Vec<_>>()});
        v.push(Case {
            args: vec!["list"], env: None, req: json!("List"), reply: reply.clone(), fail: false, errs: vec![],
            out: Out::Table(st.iter().map(|(n, x)| (*n, if *x == "Attached" { "attached" } else { "disconnected" })).collect()),
        });
        v.push(Case { args: vec!["list", "--json"], env: Some("cur"), req: json!("List"), reply: reply.clone(), fail: false, errs: vec![], out: Out::Json(reply) });
    }
    for (cmd, kind) in [("kill", "Kill"), ("detach", "Detach")] {
        for (names, env) in [(vec!["a"], None), (vec!["a"], Some("cur")), (vec!["a", "b"], None), (vec!["a", "b", "c"], Some("cur")), (vec![], Some("cur")), (vec!["a", "a"], None)] {
            let want: Vec<&str> = if names.is_empty() { vec!["cur"] } else { names.clone() };
            let mut args = vec![cmd];
            args.extend(names.iter().copied());
            let uniq: Vec<&'static str> = want.iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            // every way of distributing the sessions over the answer's lists
            let kinds = if cmd == "kill" { 2usize } else { 3 };
            for code in 0..kinds.pow(uniq.len() as u32) {
                let mut nf: Vec<&'static str> = vec![];
                let mut na: Vec<&'static str> = vec![];
                let mut c = code;
                for n in &uniq {
                    match c % kinds {
                        1 => nf.push(n),
                        2 => na.push(n),
                        _ => {}
                    }
                    c /= kinds;
                }
                let reply = if cmd == "kill" { json!({"not_found_sessions": nf}) } else { json!({"not_found_sessions": nf, "not_attached_sessions": na}) };
                let bad = !nf.is_empty() || !na.is_empty();
                // when sessions were not found, those are named first
                let errs = if !nf.is_empty() { nf.clone() } else { na.clone() };
                v.push(Case { args: args.clone(), env, req: json!({kind: {"sessions": want}}), reply, fail: bad, errs, out: Out::Nothing });
            }
        }
    }
    let vsets: Vec<Vec<(&'static str, &'static str)>> = vec![vec![], vec![("x", "1")], vec![("x", "1"), ("y", "")], vec![("b", "z z"), ("a", "\u{e9}"), ("xx", "x")]];
    for vs in &vsets {
        let reply = json!({"switch_to": null, "vars": vs.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()});
        v.push(Case { args: vec!["var", "list"], env: None, req: json!("GetVars"), reply: reply.clone(), fail: false, errs: vec![], out: Out::Vars(vs.clone()) });
        let obj: serde_json::Map<String, Value> = vs.iter().map(|(a, b)| (a.to_string(), json!(b))).collect();
        v.push(Case { args: vec!["var", "list", "--json"], env: None, req: json!("GetVars"), reply: reply.clone(), fail: false, errs: vec![], out: Out::Json(Value::Object(obj)) });
        for q in ["x", "y", "a", "zz"] {
            let o = vs.iter().find(|x| x.0 == q).map(|x| x.1);
            let text = match o {
                Some("1") => Out::Text("1\n"),
                Some("") => Out::Text("\n"),
                Some("\u{e9}") => Out::Text("\u{e9}\n"),
                _ => Out::Nothing,
            };
            v.push(Case { args: vec!["var", "get", q], env: None, req: json!("GetVars"), reply: reply.clone(), fail: false, errs: vec![], out: text });
        }
    }
    for (k, val) in [("x", "1"), ("x", ""), ("workspace", "a b{c}")] {
        v.push(Case { args: vec!["var", "set", k, val], env: None, req: json!({"ModifyVar": {"var": k, "val": val}}), reply: json!({}), fail: false, errs: vec![], out: Out::Nothing });
    }
    v.push(Case { args: vec!["var", "unset", "x"], env: None, req: json!({"ModifyVar": {"var": "x", "val": null}}), reply: json!({}), fail: false, errs: vec![], out: Out::Nothing });
    for (a, l) in [("off", "Off"), ("error", "Error"), ("warn", "Warn"), ("info", "Info"), ("debug", "Debug"), ("trace", "Trace")] {
        v.push(Case { args: vec!["set-log-level", a], env: None, req: json!({"SetLogLevel": {"level": l}}), reply: json!({}), fail: false, errs: vec![], out: Out::Nothing });
    }
    v
}
fn pack(v: &Value) -> Vec<u8> {
    let mut b = vec![];
    serde::Serialize::serialize(v, &mut rmp_serde::Serializer::new(&mut b)).unwrap();
    b
}
fn unpack(r: &mut impl Read) -> Option<Value> {
    let mut d = rmp_serde::Deserializer::new(r);
    serde::Deserialize::deserialize(&mut d).ok()
}
fn set_env(e: Option<&str>) {
    match e {
        Some(x) => std::env::set_var("SHPOOL_SESSION_NAME", x),
        None => std::env::remove_var("SHPOOL_SESSION_NAME"),
    }
}
/// run a command against one scripted connection
struct Ran {
    status: i32,
    out: Vec<u8>,
    err: String,
    req: Option<Value>,
}
enum Lose {
    No,
    /// the daemon hangs up: at once, after part of the version, after the
    /// version, after the request, after k bytes of the reply
    AtOnce,
    MidVersion(usize),
    BeforeRequest,
    AfterRequest,
    MidReply(usize),
    Garbage,
}
fn ran(w: &World, f: &Fake, t: &mut Term, args: &[&str], version: &[u8], reply: &[u8], cuts: &[usize], lose: &Lose) -> Ran {
    t.take();
    stderr_clear();
    let c = start(w, G_REALCLIENT, args);
    let mut req = None;
    if let Some(mut s) = f.accept_raw(2000) {
        s.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        match lose {
            Lose::AtOnce => drop(s),
            Lose::MidVersion(k) => {
                send_now(&s, &version[..*k]);
                drop(s);
            }
            Lose::BeforeRequest => {
                send_now(&s, version);
                drop(s);
            }
            _ => {
                let mut at = 0;
                for k in cuts.iter().filter(|k| **k < version.len()).copied().chain([version.len()]) {
                    if k > at {
                        send_now(&s, &version[at..k]);
                        settle();
                        at = k;
                    }
                }
                req = unpack(&mut s);
                match lose {
                    Lose::AfterRequest => {}
                    Lose::MidReply(k) => {
                        send_now(&s, &reply[..*k]);
                    }
                    Lose::Garbage => {
                        send_now(&s, b"\xc1\xc1garbage");
                    }
                    _ => {
                        let mut at = 0;
                        let rc: Vec<usize> = cuts.iter().filter(|k| **k > version.len()).map(|k| k - version.len()).collect();
                        for k in rc.iter().copied().filter(|k| *k < reply.len()).chain([reply.len()]) {
                            if k > at {
                                send_now(&s, &reply[at..k]);
                                settle();
                                at = k;
                            }
                        }
                    }
                }
                drop(s);
            }
        }
    }
    let status = match c.wait(5000) {
        Some(x) => x,
        None => fail("client-hang", format!("shpool {args:?} does not end")),
    };
    settle();
    Ran { status, out: t.take(), err: stderr_text(), req }
}
fn check_case(c: &Case, r: &Ran, what: &str) {
    ensure!(r.req.as_ref() == Some(&c.req), "request", "{what}: shpool {:?} (session {:?}) requests {:?}, expected {}", c.args, c.env, r.req, c.req);
    ensure!((r.status != 0) == c.fail && r.status != 101, "status", "{what}: shpool {:?} exits with {} on reply {}", c.args, r.status, c.reply);
    for e in &c.errs {
        ensure!(r.err.split(|x: char| x.is_whitespace() || x == ':' || x == ',').any(|x| x == *e), "not-named", "{what}: shpool {:?} does not name '{e}' in {:?}", c.args, r.err);
    }
    let text = String::from_utf8_lossy(&r.out).to_string();
    let ok = match &c.out {
        Out::Nothing => text.is_empty(),
        Out::Text(t) => text == *t,
        Out::Table(rows) => {
            let got: Vec<(String, String)> = text.lines().skip(1).map(|l| {
                let (a, b) = l.split_once('\t').unwrap_or((l, ""));
                (a.trim().to_string(), b.trim().to_string())
            }).collect();
            text.ends_with('\n') && got == rows.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>()
        }
        Out::Vars(rows) => {
            let got: Vec<(String, String)> = text.lines().map(|l| {
                let (a, b) = l.split_once('\t').unwrap_or((l, "?"));
                (a.to_string(), b.to_string())
            }).collect();
            got == rows.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>()
        }
        Out::Json(v) => serde_json::from_str::<Value>(&text).is_ok_and(|g| g == *v),
    };
    ensure!(ok, "output", "{what}: shpool {:?} prints {:?} on reply {}", c.args, text, c.reply);
}
fn answers(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    let mut t = Term::new(0);
    rt().step_limit = 60_000_000;
    let ver = enc(&VersionHeader { version: proto_version() });
    let cs = cases();
    for (i, c) in cs.iter().enumerate() {
        if i as u64 % u(p, "parts") != u(p, "part") {
            continue;
        }
        set_env(c.env);
        let r = ran(&w, &f, &mut t, &c.args, &ver, &pack(&c.reply), &[], &Lose::No);
        check_case(c, &r, "plain");
        if !c.fail {
            ensure!(r.err.is_empty(), "noise", "shpool {:?} prints {:?} on stderr", c.args, r.err);
        }
    }
    // no session named, and not inside one
    if u(p, "part") == 0 {
        set_env(None);
        for cmd in ["kill", "detach"] {
            let r = ran(&w, &f, &mut t, &[cmd], &ver, b"", &[], &Lose::No);
            ensure!(r.req.is_none() && r.status != 0 && r.status != 101 && !r.err.is_empty(), "no-session", "shpool {cmd} outside of a session: status {} request {:?} stderr {:?}", r.status, r.req, r.err);
        }
        events_cmd(&w, &mut t);
    }
    no_panics();
    set_output(format!("answers {}", cs.len()).as_bytes());
}
/// `shpool events` copies the stream line by line and ends with it
fn events_cmd(w: &World, t: &mut Term) {
    let path = events_sock(w);
    let _ = std::fs::remove_file(&path);
    let l = UnixListener::bind(&path).unwrap();
    let lines: &[u8] = b"{\"type\":\"session.created\"}\n{\"type\":\"session.attached\"}\n{\"type\":\"x\",\"y\":\"\xc3\xa9\"}\n";
    for cut in 0..=lines.len() {
        t.take();
        let c = start(w, G_REALCLIENT, &["events"]);
        ensure!(wait_until(2000, || rt::poll_now(l.as_raw_fd(), libc::POLLIN) != 0), "events", "shpool events does not connect");
        let s = hi(l.accept().unwrap().0);
        send_now(&s, &lines[..cut]);
        settle();
        t.pull();
        let full = lines[..cut].iter().rposition(|b| *b == b'\n').map(|x| x + 1).unwrap_or(0);
        ensure!(t.got.starts_with(&lines[..full]), "events-late", "after {cut} bytes only {:?} is printed", esc(&t.got));
        send_now(&s, &lines[cut..]);
        drop(s);
        ensure!(c.wait(2000) == Some(0), "events", "shpool events ended with {:?}", c.status());
        settle();
        let got = t.take();
        ensure!(got == lines, "events", "shpool events printed {}", esc(&got));
    }
    let _ = std::fs::remove_file(&path);
    let c = start(w, G_REALCLIENT, &["events"]);
    ensure!(c.wait(2000).is_some_and(|x| x != 0 && x != 101), "events", "shpool events without a daemon ended with {:?}", c.status());
}
/// the daemon cannot be reached or is lost on the way
fn losses(p: &Value) {
    let w = cfg_plain();
    let mut t = Term::new(0);
    rt().step_limit = 60_000_000;
    let ver = enc(&VersionHeader { version: proto_version() });
    let cmds: Vec<Vec<&str>> = vec![vec!["list"], vec!["list", "--json"], vec!["kill", "a"], vec!["detach", "a"], vec!["var", "list"], vec!["var", "get", "x"], vec!["var", "set", "x", "1"], vec!["var", "unset", "x"], vec!["set-log-level", "info"]];
    set_env(None);
    let mut n = 0u64;
    for c in &cmds {
        let reply = match c[0] {
            "list" => pack(&json!({"sessions": [sess("a", "Attached", Some(4), "a")]})),
            "kill" => pack(&json!({"not_found_sessions": []})),
            "detach" => pack(&json!({"not_found_sessions": [], "not_attached_sessions": []})),
            "var" if c[1] == "list" || c[1] == "get" => pack(&json!({"switch_to": null, "vars": [["x", "1"]]})),
            _ => pack(&json!({})),
        };
        let mut ls = vec![Lose::AtOnce, Lose::BeforeRequest, Lose::AfterRequest, Lose::Garbage];
        ls.extend((1..ver.len()).map(Lose::MidVersion));
        ls.extend((0..reply.len()).map(Lose::MidReply));
        for l in ls {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            let f = Fake::new(&w);
            let r = ran(&w, &f, &mut t, c, &ver, &reply, &[], &l);
            ensure!(r.status != 0 && r.status != 101, "lost", "shpool {c:?} exits with {} although the daemon's answer was lost", r.status);
            ensure!(r.out.is_empty(), "lost-output", "shpool {c:?} prints {} without an answer", esc(&r.out));
        }
        // nobody listening: socket missing, and socket left behind
        for missing in [true, false] {
            let f = Fake::new(&w);
            if missing {
                let _ = std::fs::remove_file(&w.sock);
            }
            drop(f);
            stderr_clear();
            let pr = start(&w, G_REALCLIENT, c);
            let st = pr.wait(3000);
            ensure!(st.is_some_and(|x| x != 0 && x != 101), "lost", "shpool {c:?} without a daemon ends with {st:?}");
            ensure!(t.take().is_empty(), "lost-output", "shpool {c:?} prints without a daemon");
        }
    }
    no_panics();
    set_output(format!("losses {n}").as_bytes());
}
/// every reply under every cut, bytewise, with fields added and left out
fn replies(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    let mut t = Term::new(0);
    rt().step_limit = 60_000_000;
    let ver = enc(&VersionHeader { version: proto_version() });
    let mut n = 0u64;
    let pick: Vec<Case> = {
        // one representative per command and shape
        let mut seen = std::collections::BTreeMap::new();
        cases()
            .into_iter()
            .filter(|c| {
                let k = (c.args[..c.args.len().min(2)].to_vec().join(" "), c.fail, c.reply.to_string().len() > 60);
                let e: &mut usize = seen.entry(k).or_insert(0);
                *e += 1;
                *e <= 1
            })
            .collect()
    };
    for c in &pick {
        set_env(c.env);
        let reply = pack(&c.reply);
        let total = ver.len() + reply.len();
        let mut cuts: Vec<Vec<usize>> = (1..total).map(|k| vec![k]).collect();
        cuts.push((1..total).collect());
        for k in cuts {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            let r = ran(&w, &f, &mut t, &c.args, &ver, &reply, &k, &Lose::No);
            check_case(c, &r, &format!("reply cut at {:?}", &k[..k.len().min(2)]));
        }
        for (how, rv, lossy) in skews(&c.reply) {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            let r = ran(&w, &f, &mut t, &c.args, &ver, &pack(&rv), &[], &Lose::No);
            ensure!(r.status != 101, "status", "{how}: panics");
            if lossy {
                // an omitted field reads as its default; the rest must stand
                let ok = r.status == 0 || c.fail;
                ensure!(ok, "skew", "{how}: shpool {:?} exits with {} on {rv} ({})", c.args, r.status, r.err);
            } else {
                check_case(c, &r, &how);
            }
        }
        for (how, vv) in [("version header with more fields", json!({"version": proto_version(), "later": {"a": [1, 2]}})), ("version header with fields before", json!({"a": null, "version": proto_version()}))] {
            n += 1;
            if n % u(p, "parts") == u(p, "part") {
                let r = ran(&w, &f, &mut t, &c.args, &pack(&vv), &reply, &[], &Lose::No);
                check_case(c, &r, how);
            }
        }
    }
    no_panics();
    set_output(format!("replies {n}").as_bytes());
}
/// fields which may be left out: (path of the struct's key, field)
const OPTIONAL: &[&str] = &[
    "sessions", "not_found_sessions", "not_attached_sessions", "switch_to", "name", "started_at_unix_ms", "last_connected_at_unix_ms",
    "last_disconnected_at_unix_ms", "status", "attachments", "session_name_template", "pid", "level", "session_name", "tty_size",
    "name_template", "local_tty_size", "local_env", "ttl_secs", "cmd", "dir", "start_cmd", "val",
];
/// variants of a message with one field added to or one optional field
/// removed from each of its structs
fn skews(v: &Value) -> Vec<(String, Value, bool)> {
    let mut out = vec![];
    fn walk(v: &Value, tagged: bool, rebuild: &dyn Fn(Value) -> Value, out: &mut Vec<(String, Value, bool)>) {
        match v {
            Value::Object(m) => {
                // enum tags are single-key maps starting with a capital
                let is_tag = m.len() == 1 && m.keys().next().unwrap().chars().next().is_some_and(|c| c.is_uppercase());
                if !is_tag {
                    for extra in [json!(1), json!({"x": ["y"]}), Value::Null] {
                        let mut k = m.clone();
                        k.insert("zz_later_field".into(), extra);
                        out.push((format!("field added to {v}"), rebuild(Value::Object(k)), false));
                    }
                    for f in m.keys() {
                        if OPTIONAL.contains(&f.as_str()) {
                            let mut k = m.clone();
                            k.remove(f);
                            out.push((format!("field {f} left out of {v}"), rebuild(Value::Object(k)), true));
                        }
                    }
                }
                for (f, x) in m {
                    let (m2, f2) = (m.clone(), f.clone());
                    walk(x, false, &|n| {
                        let mut k = m2.clone();
                        k.insert(f2.clone(), n);
                        rebuild(Value::Object(k))
                    }, out);
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    let a2 = a.clone();
                    walk(x, false, &|n| {
                        let mut k = a2.clone();
                        k[i] = n;
                        rebuild(Value::Array(k))
                    }, out);
                }
            }
            _ => {}
        }
        let _ = tagged;
    }
    walk(v, false, &|n| n, &mut out);
    out
}
/// every request to the real daemon under every cut and with skewed fields
fn requests(p: &Value) {
    let w = World::new(BASE_CFG);
    rt().step_limit = 60_000_000;
    let (mut ca, _sa) = w.create("a");
    let (cb, _sb) = w.create("b");
    drop(cb);
    w.detach(&["b"]).ok();
    let ah = |n: &str| json!({"Attach": {"name": n, "name_template": n, "local_tty_size": {"rows": 31, "cols": 77, "xpixel": 1, "ypixel": 2},
        "local_env": [["TERM", "xterm"]], "ttl_secs": null, "cmd": null, "dir": null, "start_cmd": null}});
    let reqs: Vec<(Value, &str)> = vec![
        (json!("List"), "list"),
        (json!({"Kill": {"sessions": ["nope"]}}), "kill"),
        (json!({"Detach": {"sessions": ["nope", "b"]}}), "detach"),
        (json!({"SessionMessage": {"session_name": "a", "payload": {"Resize": {"tty_size": {"rows": 33, "cols": 44, "xpixel": 5, "ypixel": 6}}}}}), "resize"),
        (json!({"SessionMessage": {"session_name": "b", "payload": "Detach"}}), "msg-detach"),
        (json!({"SetLogLevel": {"level": "Info"}}), "level"),
        (json!("GetVars"), "vars"),
        (json!({"ModifyVar": {"var": "k", "val": "v"}}), "set"),
        (json!({"ModifyVar": {"var": "k", "val": null}}), "unset"),
        (ah("a"), "busy"),
        (ah("new"), "create"),
    ];
    let mut n = 0u64;
    let mut send = |bytes: &[u8], cuts: &[usize], kind: &str, how: &str, lossy: bool| {
        let s = w.dial().unwrap_or_else(|| fail("dial", format!("{how}: the daemon does not answer connections")));
        let mut at = 0;
        for k in cuts.iter().copied().chain([bytes.len()]) {
            if k > at {
                send_now(&s, &bytes[at..k]);
                settle();
                at = k;
            }
        }
        let mut s = s;
        s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        let r: Option<Value> = unpack(&mut s);
        let r = match r {
            Some(r) => r,
            None => fail("unanswered", format!("{how}: {kind} request gets no reply")),
        };
        if lossy {
            if kind == "create" {
                drop(s);
                let _ = w.kill(&["new", ""]);
            }
            return;
        }
        let ok = match kind {
            "list" => r["sessions"].as_array().is_some_and(|a| a.len() == 2),
            "kill" => r == json!({"not_found_sessions": ["nope"]}),
            "detach" => r == json!({"not_found_sessions": ["nope"], "not_attached_sessions": ["b"]}),
            "resize" => r == json!({"Resize": "Ok"}),
            "msg-detach" => r == json!({"Detach": "Ok"}),
            "level" | "set" | "unset" => r == json!({}),
            "vars" => r["vars"].is_array(),
            "busy" => r == json!({"status": "Busy"}),
            "create" => {
                let ok = r["status"]["Created"].is_object();
                let sz = live_shells().last().map(|s| rt().ttys[s.tty()].winsz);
                ensure!(sz == Some((31, 77, 1, 2)), "decode", "{how}: the new terminal is sized {sz:?}");
                drop(s);
                w.kill(&["new"]).unwrap_or_else(|e| fail("kill-unanswered", e));
                ok
            }
            _ => false,
        };
        ensure!(ok, "decode", "{how}: {kind} request answered {r}");
        let vars = w.get_vars().unwrap_or_else(|e| fail("vars-unanswered", e));
        match kind {
            "set" => ensure!(vars == [("k".to_string(), "v".to_string())], "decode", "{how}: variables are {vars:?}"),
            "unset" => ensure!(vars.is_empty(), "decode", "{how}: variables are {vars:?}"),
            "resize" => {
                let sh = all_shells()[0];
                let sz = rt().ttys[sh.tty()].winsz;
                ensure!(sz == (33, 44, 5, 6), "decode", "{how}: resized to {sz:?}");
                let _ = w.resize("a", 24, 80);
            }
            _ => {}
        }
    };
    for (v, kind) in &reqs {
        let bytes = pack(v);
        let mut cuts: Vec<Vec<usize>> = (1..bytes.len()).map(|k| vec![k]).collect();
        cuts.push((1..bytes.len()).collect());
        for c in cuts {
            n += 1;
            if n % u(p, "parts") != u(p, "part") && bytes.len() > 1 {
                continue;
            }
            send(&bytes, &c, kind, &format!("cut at {:?}", &c[..c.len().min(2)]), false);
            ca.drain_ms(1);
        }
        for (how, sv, lossy) in skews(v) {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            // without a name there is nothing to attach to
            if *kind == "create" && sv["Attach"]["name"].is_null() {
                continue;
            }
            let same = lossy && ["field name_template", "field local_env", "field ttl_secs", "field cmd", "field dir", "field start_cmd", "field val"].iter().any(|x| how.starts_with(x)) && *kind != "set";
            send(&pack(&sv), &[], kind, &how, lossy && !same);
            ca.drain_ms(1);
        }
    }
    ca.drain_ms(50);
    no_panics();
    set_output(format!("requests {n}").as_bytes());
}
/// what the real client encodes decodes to what was meant, attach included
fn encodes() {
    let w = cfg_plain();
    let f = Fake::new(&w);
    let _t = Term::new(0);
    rt().step_limit = 60_000_000;
    let long = "x".repeat(70000);
    for (args, chk) in [
        (vec!["attach", "n"], "plain"),
        (vec!["attach", "--ttl=90s", "-c", "prog a 'b c'", "-d", "/tmp", "-s", "cd /x", "n"], "all"),
        (vec!["attach", "-s", &long, "n"], "long"),
        (vec!["attach", "-d", ".", "n\u{e9}\u{4e2d}"], "uni"),
    ] {
        rt::CLIENT_WINSZ.set(Some((51, 132)));
        std::env::set_var("LANG", "xx\u{e9}");
        let h = match probe(&w, &f, &args, &[]) {
            Ok(h) => h,
            Err(st) => fail("no-attach", format!("shpool {} ends with {st}", args[0])),
        };
        ensure!(h.local_tty_size == TtySize { rows: 51, cols: 132, xpixel: 0, ypixel: 0 }, "encode", "terminal size sent as {:?}", h.local_tty_size);
        ensure!(h.local_env.iter().any(|(k, v)| k == "LANG" && v == "xx\u{e9}") && h.local_env.iter().any(|(k, v)| k == "TERM" && v == "xterm"), "encode", "environment sent as {:?}", h.local_env);
        let cwd = cwd().to_string_lossy().to_string();
        let ok = match chk {
            "plain" => h.name == "n" && h.ttl_secs.is_none() && h.cmd.is_none() && h.dir.is_none() && h.start_cmd.is_none(),
            "all" => h.name == "n" && h.ttl_secs == Some(90) && h.cmd.as_deref() == Some("prog a 'b c'") && h.dir.as_deref() == Some("/tmp") && h.start_cmd.as_deref() == Some("cd /x"),
            "long" => h.start_cmd.as_deref() == Some(long.as_str()),
            _ => h.name == "n\u{e9}\u{4e2d}" && h.dir.as_deref() == Some(cwd.as_str()),
        };
        ensure!(ok && h.name_template == h.name, "encode", "shpool attach ({chk}) sends {:?}", format!("{h:?}").chars().take(300).collect::<String>());
    }
    no_panics();
    set_output(b"encodes");
}
/// daemons announcing other versions
fn versions(p: &Value) {
    let w = cfg_plain();
    let f = Fake::new(&w);
    let mut t = Term::new(0);
    rt().step_limit = 60_000_000;
    let own = proto_version();
    let parts: Vec<i64> = own.split('.').map(|x| x.parse().unwrap_or(0)).collect();
    let (a, b, c) = (parts[0], parts[1], parts[2]);
    // (announced version, a warning is due: Some(bool) or don't care)
    let vs: Vec<(String, Option<bool>)> = vec![
        (own.clone(), Some(false)),
        (format!("{a}.{b}.{}", c + 1), None),
        (format!("{a}.{}.{c}", b + 1), Some(a == 0)),
        (format!("{a}.{}.{c}", b.max(1) - 1), Some(a == 0 && b > 0)),
        (format!("{}.{b}.{c}", a + 1), Some(true)),
        (format!("{}.0.0", a + 7), Some(true)),
        ("99999999999.1.1".into(), Some(true)),
        (format!("{own}-rc.1"), Some(true)),
        ("2".into(), Some(true)),
        ("1.2".into(), Some(true)),
        ("1.2.3.4".into(), Some(true)),
        ("".into(), Some(true)),
        ("unknown".into(), Some(true)),
        ("99999999999999999999.0.0".into(), Some(true)),
    ];
    let pick: Vec<Case> = cases().into_iter().filter(|c| c.args.len() > 1 || c.args[0] == "list").step_by(5).collect();
    let mut n = 0u64;
    for (v, warn) in &vs {
        let ver = enc(&VersionHeader { version: v.clone() });
        for c in &pick {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            set_env(c.env);
            let r = ran(&w, &f, &mut t, &c.args, &ver, &pack(&c.reply), &[], &Lose::No);
            check_case(c, &r, &format!("daemon of version {v:?}"));
            let warned = r.err.to_lowercase().contains("warn");
            if let Some(x) = warn {
                ensure!(warned == *x, "warning", "daemon of version {v:?}: stderr is {:?}", r.err);
            }
        }
        // attach asks for a confirmation and eats nothing but the answer
        n += 1;
        if n % u(p, "parts") != u(p, "part") {
            continue;
        }
        let mut t2 = Term::new(0);
        stderr_clear();
        let f2 = Fake { l: f.l.try_clone().unwrap(), version: v.clone() };
        let pr = start(&w, G_REALCLIENT, &["attach", "s"]);
        if let Some(mut s) = f2.accept(1000) {
            settle();
            let asked = stderr_text().contains("enter to continue");
            if let Some(x) = warn {
                ensure!(asked == *x, "warning", "daemon of version {v:?}: attach prints {:?}", stderr_text());
            }
            t2.type_now(b"\nTYPED");
            s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
            let q = dec::<ConnectHeader>(&mut s);
            ensure!(matches!(q, Ok(ConnectHeader::GetVars)), "version-attach", "daemon of version {v:?}: attach sends {q:?}");
            s.write_all(&enc(&MaybeSwitch { switch_to: None, vars: vec![] })).ok();
            drop(s);
            let (mut s, _) = f2.attached();
            let mut b = vec![0u8; 6];
            s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
            let want: &[u8] = if asked { b"TYPED" } else { b"\nTYPED" };
            let r = s.read_exact(&mut b[..want.len()]);
            ensure!(r.is_ok() && &b[..want.len()] == want, "version-input", "daemon of version {v:?}: typed input arrives as {} ({r:?})", esc(&b));
            send_now(&s, &chunk_bytes(&Chunk::Exit(0)));
            ensure!(pr.wait(3000) == Some(0), "status", "attach ends with {:?}", pr.status());
        } else {
            fail("version-attach", format!("attach to a daemon of version {v:?} ends with {:?}", pr.status()));
        }
        // restore the terminal used by the other commands
        t = Term::new(0);
    }
    no_panics();
    set_output(format!("versions {n}").as_bytes());
}
