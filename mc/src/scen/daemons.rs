//! Who serves a socket (P21): daemons starting at once, dying anywhere,
//! stopping, started by clients.
use super::client::{start, Proc, Term};
use super::*;
use crate::rt::{self, end_proc, G_PROC};
use crate::wire::*;
use std::os::unix::net::UnixStream;

const BIG: u64 = 60_000_000;
fn big(mut j: Job) -> Job {
    j.step_limit = BIG;
    j
}
/// deviations at effects other processes can see
fn o_fs(groups: u32) -> Opts {
    Opts { kinds: 1 << K_FS | 1 << K_CONN | 1 << K_PROC | 1 << K_CLOSE | 1 << K_SPAWN, groups, ..o_all() }
}
const LITTER: [&str; 4] = ["clean", "killed", "killed-auto", "stopped"];
const HOW: [&str; 2] = ["fg", "auto"];

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    if prop == "P19" {
        for how in HOW {
            for relative in [false, true] {
                v.push(big(job(prop, "daemon.reload", json!({"how": how, "relative": relative}), o_none(), 0)));
            }
        }
    }
    if prop == "P20" {
        for how in HOW {
            for mask in [0o022u32, 0o077, 0o002, 0] {
                v.push(big(job(prop, "daemon.shell", json!({"how": how, "mask": mask}), o_none(), 0)));
            }
        }
    }
    if prop != "P21" {
        return;
    }
    let b = if deep { 2 } else { 1 };
    let procs = !0u32 << G_PROC;
    for litter in LITTER {
        for (x, y) in [("fg", "fg"), ("fg", "auto"), ("auto", "fg"), ("auto", "auto")] {
            v.push(big(job(prop, "daemon.race", json!({"how": [x, y], "litter": litter, "crash": 0}), o_fs(procs), b)));
        }
    }
    if deep {
        for how in [["fg", "fg", "fg"], ["auto", "auto", "auto"], ["fg", "auto", "auto"]] {
            v.push(big(job(prop, "daemon.race", json!({"how": how, "litter": "killed-auto", "crash": 0}), o_fs(procs), 1)));
        }
    }
    // one of two starts dies on the way
    for litter in LITTER {
        for (x, y) in [("fg", "fg"), ("auto", "auto")] {
            for k in 1..=14u64 {
                let o = if deep { o_fs(procs) } else { o_none() };
                v.push(big(job(prop, "daemon.race", json!({"how": [x, y], "litter": litter, "crash": k}), o, deep as u32)));
            }
        }
    }
    // one life of a daemon, cut off before every effect
    for how in HOW {
        for next in ["fg", "auto", "client"] {
            for litter in LITTER {
                let mut j = big(job(prop, "daemon.life", json!({"how": how, "next": next, "litter": litter}), o_none(), 0));
                j.crash = true;
                v.push(j);
            }
        }
    }
    let cl = procs | 1 << 4 | 1 << 5 | 1 << 6;
    for litter in LITTER {
        for what in ["list", "attach", "events"] {
            v.push(big(job(prop, "daemon.clients", json!({"n": 2, "what": what, "litter": litter}), o_fs(cl), b)));
        }
        v.push(big(job(prop, "daemon.mixed", json!({"litter": litter}), o_fs(cl), b)));
    }
    if deep {
        v.push(big(job(prop, "daemon.clients", json!({"n": 3, "what": "attach", "litter": "killed-auto"}), o_fs(cl), 1)));
    }
    for how in HOW {
        for next in ["fg", "auto", "client"] {
            v.push(big(job(prop, "daemon.stop", json!({"how": how, "next": next}), o_fs(cl), b)));
        }
        for next in ["fg", "auto"] {
            v.push(big(job(prop, "daemon.lost", json!({"how": how, "next": next}), o_fs(procs), b)));
        }
    }
    v.push(big(job(prop, "daemon.switches", json!({}), o_none(), 0)));
    v.push(big(job(prop, "daemon.places", json!({}), o_none(), 0)));
}
pub fn run(f: &str, p: &Value) {
    rt().on_spawn = Some(boot);
    match f {
        "race" => race(p["how"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(), &s(p, "litter"), u(p, "crash")),
        "life" => life(&s(p, "how"), &s(p, "next"), &s(p, "litter")),
        "clients" => clients(u(p, "n") as u32, &s(p, "what"), &s(p, "litter")),
        "mixed" => mixed(&s(p, "litter")),
        "stop" => stop(&s(p, "how"), &s(p, "next")),
        "lost" => lost(&s(p, "how"), &s(p, "next")),
        "switches" => switches(),
        "reload" => reload(&s(p, "how"), p["relative"] == true),
        "shell" => shell(&s(p, "how"), u(p, "mask") as u32),
        "places" => places(),
        _ => panic!("unknown {f}"),
    }
}

// ------------------------------------------------------------ processes
/// a simulated `shpool` process with descriptors and a directory of its own
static AUTO: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(vec![]);
pub fn boot(g: u32, args: Vec<String>) {
    if rt().autovar.contains(&g) {
        AUTO.lock().unwrap().push(g);
    }
    rt().spawn_group = g;
    std::thread::spawn(move || {
        rt::set_group(g, &format!("daemon{g}"));
        rt::own_fs();
        let r = std::panic::catch_unwind(|| run_shpool(&args[1..]));
        rt::logln(&format!("daemon process {g}: {r:?}"));
        end_proc(g, match r {
            Ok(Ok(())) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 101,
        });
    });
}
fn launch(w: &World, how: &str) -> u32 {
    let g = rt().next_group;
    rt().next_group += 1;
    let mut args: Vec<String> = ["shpool", "--config-file", &w.cfg.to_string_lossy()].iter().map(|s| s.to_string()).collect();
    if how == "auto" {
        // the client that starts it has seen to this
        let _ = std::fs::create_dir_all(w.sock.parent().unwrap());
        rt().autovar.push(g);
        let log = w.sock.with_file_name("daemonized-shpool.log");
        args.extend(["--log-file", &log.to_string_lossy(), "--socket", &w.sock.to_string_lossy()].iter().map(|s| s.to_string()));
    }
    args.push("daemon".into());
    boot(g, args);
    g
}
fn ended(g: u32) -> Option<i32> {
    rt().ended.iter().find(|x| x.0 == g).map(|x| x.1)
}
fn alive() -> Vec<u32> {
    (G_PROC..rt().next_group).filter(|g| ended(*g).is_none()).collect()
}
fn pid_file(w: &World) -> std::path::PathBuf {
    w.sock.with_file_name("daemonized-shpool.pid")
}
fn wait_up(w: &World, ms: u64) -> bool {
    wait_until(ms, || w.up())
}
/// leave the directory as some earlier daemon left it
fn litter(w: &World, how: &str) {
    let stop = how == "stopped";
    let how = match how {
        "killed" => "fg",
        "killed-auto" | "stopped" => "auto",
        _ => return,
    };
    let keep = rt().crash_groups;
    rt().crash_groups = 0;
    let g = launch(w, how);
    ensure!(wait_up(w, 5000), "first-start", "a daemon started in an empty directory did not come up ({:?})", ended(g));
    sleep_ms(100);
    if stop {
        rt::raise_to(g, libc::SIGTERM);
        ensure!(wait_until(2000, || ended(g).is_some()), "stop", "the daemon did not stop");
    } else {
        end_proc(g, 137);
    }
    sleep_ms(50);
    rt().crash_groups = keep;
}
/// Exactly one daemon runs, it serves requests, sessions and events; then it
/// stops when told to, leaving nothing a next one trips over.
fn serves(w: &World, what: &str) -> u32 {
    explore(false);
    rt().crash_groups = 0;
    let a = alive();
    ensure!(a.len() == 1, "one-daemon", "{what}: {} daemons are running: {a:?}, ended: {:?}", a.len(), rt().ended);
    match w.list() {
        Ok(_) => {}
        Err(e) => fail("not-served", format!("{what}: the daemon that runs does not answer on the socket: {e} (ended: {:?})", rt().ended)),
    }
    let ev = match UnixStream::connect(events_sock(w)) {
        Ok(s) => {
            drop(s);
            subscribe(w)
        }
        Err(e) => fail("no-events", format!("{what}: events are not served: {e}")),
    };
    let (mut c, sh) = w.create("probe");
    sh.out(b"<probe>");
    ensure!(c.until(3000, |c| c.has(b"<probe>")), "session", "{what}: a new session's output did not arrive");
    sh.exit(0);
    ensure!(c.wait_end(8000), "session", "{what}: the end of the session was not reported");
    drop(c);
    sleep_ms(700);
    let k = ev.kinds();
    ensure!(k.iter().any(|x| x == "created") && k.iter().any(|x| x == "removed"), "no-events", "{what}: events received: {k:?}");
    let g = a[0];
    ensure!(alive() == a, "died", "{what}: the daemon died serving");
    g
}
/// stop the running daemon and see that a successor works
fn successor(w: &World, g: u32, next: &str, what: &str) {
    end_or_stop(w, g, what);
    let n = if next == "client" {
        let p = start(w, 12, &["list"]);
        ensure!(p.wait(9000) == Some(0), "next-start", "{what}: the next client's start of a daemon failed: {:?}", p.status());
        alive().first().copied().unwrap_or(0)
    } else {
        launch(w, next)
    };
    ensure!(wait_up(w, 7000), "next-start", "{what}: the next daemon did not come up: {:?}", ended(n));
    sleep_ms(50);
    serves(w, &format!("{what}, then the next one"));
}
fn end_or_stop(w: &World, g: u32, what: &str) {
    rt::raise_to(g, libc::SIGTERM);
    ensure!(wait_until(3000, || ended(g).is_some()), "stop", "{what}: the daemon did not stop when told to");
    ensure!(ended(g) == Some(0), "stop", "{what}: the daemon stopped with status {:?}", ended(g));
    let mut own = vec![w.sock.clone(), events_sock(w)];
    if AUTO.lock().unwrap().contains(&g) {
        own.push(pid_file(w));
    }
    for f in own {
        ensure!(!f.exists(), "left-behind", "{what}: the stopped daemon left {:?}", f.file_name().unwrap());
    }
}
fn finish(w: &World) {
    for p in rt().panics.iter() {
        if !p.starts_with("[group 1]") && !p.starts_with("[group 3]") {
            fail("panic", format!("a thread of the program panicked: {}", p.replace('\n', " ")));
        }
    }
    let _ = w;
    let mut e = rt().ended.clone();
    e.sort();
    set_output(format!("{e:?} {:?}", rt().crashed).as_bytes());
}

// ------------------------------------------------------------ scenarios
fn race(how: Vec<String>, lit: &str, crash: u64) {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    litter(&w, lit);
    let first = rt().next_group;
    if crash > 0 {
        rt().crash_kill = true;
        rt().crash_at = crash;
        rt().crash_count = 0;
        rt().crash_groups = 1 << first;
    }
    explore(true);
    for h in &how {
        launch(&w, h);
    }
    let n = how.len();
    wait_until(12000, || alive().len() <= 1 && (alive().is_empty() || w.up()));
    sleep_ms(100);
    explore(false);
    rt().crash_groups = 0;
    let what = format!("{how:?} in a {lit} directory, {:?}", rt().crashed);
    if alive().is_empty() && rt().crashed.is_some() {
        launch(&w, &how[0]);
        ensure!(wait_up(&w, 7000), "next-start", "{what}: the next daemon did not come up: {:?}", rt().ended);
        sleep_ms(50);
    }
    let g = serves(&w, &what);
    for l in first..first + n as u32 {
        ensure!(l == g || ended(l) != Some(0), "loser-status", "{what}: a start that lost ended with status 0");
    }
    // the daemonized winner's pid file is still its own
    if rt().crashed.is_none() {
        let auto = how[(g - first) as usize] == "auto";
        ensure!(!auto || pid_file(&w).exists(), "pid-file", "{what}: the pid file of the running daemon is gone");
    }
    successor(&w, g, &how[0], &what);
    finish(&w);
}
/// start, serve an attach, stop: cut off anywhere
fn life(how: &str, next: &str, lit: &str) {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    let at = std::mem::take(&mut rt().crash_at);
    litter(&w, lit);
    let first = rt().next_group;
    rt().crash_kill = true;
    rt().crash_at = if at == 0 { u64::MAX } else { at };
    rt().crash_count = 0;
    rt().crash_groups = 1 << first;
    let g = launch(&w, how);
    if wait_until(3000, || w.up() || ended(g).is_some()) && ended(g).is_none() {
        sleep_ms(50);
        if let Ok((mut c, _)) = w.try_attach(w.hdr("s")) {
            if let Some(sh) = live_shells().pop() {
                sh.out(b"hello");
                c.until(300, |c| c.has(b"hello"));
            }
            let mut h = w.hdr("t");
            h.local_env.push(("SSH_AUTH_SOCK".into(), "/x".into()));
            let _ = w.try_attach(h);
            drop(c);
            sleep_ms(300);
            let _ = w.kill(&["t"]);
        }
        if ended(g).is_none() {
            rt::raise_to(g, libc::SIGTERM);
            wait_until(2000, || ended(g).is_some());
        }
    }
    ensure!(ended(g).is_some(), "stop", "the daemon neither stopped nor died");
    rt().crash_groups = 0;
    rt().crash_at = 0;
    let what = format!("a daemon ({how}) in a {lit} directory that ended {:?}", rt().crashed);
    let n = if next == "client" {
        let p = start(&w, 4, &["list"]);
        ensure!(p.wait(9000) == Some(0), "next-start", "after {what}: a client found no service: {:?}", p.status());
        g
    } else {
        launch(&w, next)
    };
    ensure!(wait_up(&w, 7000), "next-start", "after {what}: the next daemon did not come up: {:?}", ended(n));
    sleep_ms(50);
    let g2 = serves(&w, &format!("after {what}"));
    end_or_stop(&w, g2, &format!("after {what}"));
    finish(&w);
}
fn ask(w: &World, group: u32, what: &str) -> Proc {
    match what {
        "list" => start(w, group, &["list"]),
        "attach" => start(w, group, &["attach", "-b", &format!("s{group}")]),
        "events" => start(w, group, &["events"]),
        _ => start(w, group, &["var", "set", &format!("v{group}"), "1"]),
    }
}
fn got(w: &World, p: &Proc, what: &str, ctx: &str) {
    match what {
        "events" => {
            sleep_ms(20);
            ensure!(p.status().is_none(), "client-unserved", "{ctx}: `shpool events` ended with status {:?}", p.status());
        }
        _ => ensure!(p.status() == Some(0), "client-unserved", "{ctx}: `shpool {what}` ended with status {:?}", p.status()),
    }
    let _ = w;
}
fn clients(n: u32, what: &str, lit: &str) {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    let _t = Term::new(0);
    litter(&w, lit);
    explore(true);
    let ps: Vec<Proc> = (0..n).map(|i| ask(&w, 4 + i, what)).collect();
    wait_until(9000, || alive().len() <= 1 && w.up() && (what == "events" || ps.iter().all(|p| p.status().is_some())));
    sleep_ms(100);
    explore(false);
    let ctx = format!("{n} clients at once in a {lit} directory");
    for p in &ps {
        got(&w, p, what, &ctx);
    }
    wait_until(6000, || alive().len() <= 1);
    if what == "attach" {
        let l: Vec<String> = w.list_ok().iter().map(|s| s.name.clone()).collect();
        let want: Vec<String> = (0..n).map(|i| format!("s{}", 4 + i)).collect();
        ensure!(l == want, "sessions", "{ctx}: the sessions are {l:?} instead of {want:?}");
        for s in live_shells() {
            s.exit(0);
        }
        sleep_ms(1000);
    }
    let g = serves(&w, &ctx);
    ensure!(pid_file(&w).exists(), "pid-file", "{ctx}: the pid file of the running daemon is gone");
    successor(&w, g, "auto", &ctx);
    finish(&w);
}
/// a daemon started by hand together with a client that finds none
fn mixed(lit: &str) {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    let _t = Term::new(0);
    litter(&w, lit);
    explore(true);
    launch(&w, "fg");
    let p = ask(&w, 4, "attach");
    wait_until(9000, || alive().len() <= 1 && w.up() && p.status().is_some());
    sleep_ms(100);
    explore(false);
    let ctx = format!("a daemon and a client at once in a {lit} directory");
    got(&w, &p, "attach", &ctx);
    wait_until(6000, || alive().len() <= 1);
    let l: Vec<String> = w.list_ok().iter().map(|s| s.name.clone()).collect();
    ensure!(l == ["s4"], "sessions", "{ctx}: the sessions are {l:?}");
    for s in live_shells() {
        s.exit(0);
    }
    sleep_ms(1000);
    let g = serves(&w, &ctx);
    successor(&w, g, "fg", &ctx);
    finish(&w);
}
/// a start while the running daemon stops
fn stop(how: &str, next: &str) {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    let _t = Term::new(0);
    let g = launch(&w, how);
    ensure!(wait_up(&w, 5000), "first-start", "a daemon started in an empty directory did not come up");
    sleep_ms(100);
    explore(true);
    let h = inject("sigterm", 300, move || rt::raise_to(g, libc::SIGTERM));
    let (p, n) = if next == "client" { (Some(ask(&w, 4, "list")), 0) } else { (None, launch(&w, next)) };
    h.join().unwrap();
    wait_until(9000, || ended(g).is_some() && p.as_ref().map(|p| p.status().is_some()).unwrap_or(true) && (n == 0 || ended(n).is_some() || w.up()));
    sleep_ms(200);
    explore(false);
    let ctx = format!("a start ({next}) while the daemon ({how}) stops");
    ensure!(ended(g) == Some(0), "stop", "{ctx}: the daemon ended with {:?}", ended(g));
    if let Some(p) = &p {
        // it found nobody and started one: then it has to be served
        if rt().next_group > g + 1 {
            got(&w, p, "list", &ctx);
        }
    }
    if alive().is_empty() {
        launch(&w, "auto");
        ensure!(wait_up(&w, 7000), "next-start", "{ctx}: the next daemon did not come up: {:?}", rt().ended);
        sleep_ms(50);
    }
    let g2 = serves(&w, &ctx);
    let _ = g2;
    finish(&w);
}
/// a second start leaves everything of the running daemon alone
fn lost(how: &str, next: &str) {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    let g = launch(&w, how);
    ensure!(wait_up(&w, 5000), "first-start", "a daemon started in an empty directory did not come up");
    sleep_ms(100);
    let ev = subscribe(&w);
    let (mut c, sh) = w.create("a");
    let files = |w: &World| {
        let mut v: Vec<(String, u64)> = std::fs::read_dir(w.sock.parent().unwrap())
            .unwrap()
            .map(|e| {
                let e = e.unwrap();
                use std::os::unix::fs::MetadataExt;
                (e.file_name().to_string_lossy().to_string(), e.metadata().unwrap().ino())
            })
            .filter(|x| x.0.ends_with(".socket") || x.0.ends_with(".pid"))
            .collect();
        v.sort();
        v
    };
    let before = files(&w);
    explore(true);
    let n = launch(&w, next);
    let w2 = w.clone();
    let other = spawn(G_CLIENT, "other", move || {
        let (c, sh2) = w2.create("b");
        (c, sh2)
    });
    wait_until(9000, || ended(n).is_some());
    explore(false);
    let (mut c2, sh2) = other.join().unwrap();
    let ctx = format!("a second start ({next}) beside a running daemon ({how})");
    ensure!(matches!(ended(n), Some(x) if x != 0), "loser-status", "{ctx}: it ended with {:?}", ended(n));
    let mut after = files(&w);
    if how == "fg" {
        after.retain(|x| !x.0.ends_with(".pid"));
    }
    ensure!(after == before, "damage", "{ctx}: the daemon's files were {before:?} and are {after:?}");
    for (c, sh) in [(&mut c, &sh), (&mut c2, &sh2)] {
        ensure!(sh.alive(), "damage", "{ctx}: a session's shell died");
        sh.out(b"<still here>");
        ensure!(c.until(3000, |c| c.has(b"<still here>")), "damage", "{ctx}: an attached client lost its session");
    }
    sh2.exit(0);
    c2.wait_end(8000);
    sh.exit(0);
    c.wait_end(8000);
    sleep_ms(700);
    let k = ev.kinds();
    ensure!(k.iter().filter(|x| *x == "created").count() == 2 && k.iter().filter(|x| *x == "removed").count() == 2, "damage", "{ctx}: the subscriber saw {k:?}");
    ensure!(serves(&w, &ctx) == g, "damage", "{ctx}: another daemon runs now");
    end_or_stop(&w, g, &ctx);
    finish(&w);
}
/// when a client starts a daemon, and when it does not
fn switches() {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    let _t = Term::new(0);
    let mut out = vec![];
    for nodaemonize in [None, Some(false), Some(true)] {
        for timeout in [None, Some(true)] {
            for flag in ["", "-d", "-D"] {
                let mut c = BASE_CFG.to_string();
                if let Some(x) = nodaemonize {
                    c.push_str(&format!("nodaemonize = {x}\n"));
                }
                if let Some(x) = timeout {
                    c.push_str(&format!("nodaemonize_timeout = {x}\n"));
                }
                std::fs::write(&w.cfg, &c).unwrap();
                let n = rt().next_group;
                let mut a = vec![];
                if !flag.is_empty() {
                    a.push(flag);
                }
                a.push("list");
                let p = start(&w, 4, &a);
                let st = p.wait(9000);
                let what = format!("nodaemonize {nodaemonize:?}, nodaemonize_timeout {timeout:?}, flag {flag:?}");
                let should = flag != "-D" && (flag == "-d" || nodaemonize != Some(true));
                let started = rt().next_group - n;
                ensure!(started == should as u32, "autostart", "{what}: {started} daemons were started");
                ensure!(st == Some(!should as i32), "autostart", "{what}: the client ended with {st:?}");
                if should {
                    end_proc(n, 137);
                }
                for f in [w.sock.clone(), events_sock(&w), pid_file(&w)] {
                    let _ = std::fs::remove_file(f);
                }
                out.push(should);
            }
        }
    }
    finish(&w);
}
/// a socket named in every way a path can be named
fn places() {
    let w = World::prepare(BASE_CFG);
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    let _t = Term::new(0);
    std::fs::create_dir_all("sub/dir").unwrap();
    std::os::unix::fs::symlink("sub", "link").unwrap();
    let abs = w.dir.join("abs.sock");
    for (i, path) in ["rel.sock", "./sub/rel.sock", "sub/../other.sock", "link/dir/a.sock", abs.to_str().unwrap()].iter().enumerate() {
        for cfg in ["config.toml", w.cfg.to_str().unwrap()] {
            let g = rt().next_group;
            let p = super::client::shpool(4, &["--config-file", cfg, "--socket", path, "list"]);
            let st = p.wait(9000);
            ensure!(st == Some(0), "client-unserved", "--socket {path}: `shpool list` ended with {st:?}");
            // another client, from the same place
            let p = super::client::shpool(5, &["--config-file", cfg, "--socket", path, "attach", "-b", "x"]);
            let st = p.wait(9000);
            ensure!(st == Some(0), "client-unserved", "--socket {path}: `shpool attach` ended with {st:?}");
            ensure!(alive() == [g], "one-daemon", "--socket {path}: running are {:?}", alive());
            ensure!(w.dir.join(path).exists(), "place", "--socket {path}: there is no socket there");
            end_proc(g, 137);
            let _ = std::fs::remove_file(w.dir.join(path));
            let _ = std::fs::remove_file(w.dir.join(path).with_file_name("events.socket"));
        }
        let _ = i;
    }
    let root: Vec<_> = std::fs::read_dir(rt::root_dir()).map(|d| d.map(|e| e.unwrap().file_name()).collect()).unwrap_or_default();
    ensure!(root.is_empty(), "place", "the daemons left {root:?} in the root directory");
    finish(&w);
}

/// A daemon uses the configuration on disk, however it was started and
/// wherever it runs (P19).
fn reload(how: &str, relative: bool) {
    let w = World::prepare(&format!("{BASE_CFG}[env]\nMARK = \"0\"\n"));
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    rt::REAL_INOTIFY.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut w2 = w.clone();
    if relative {
        w2.cfg = "config.toml".into();
    }
    let g = launch(&w2, how);
    ensure!(wait_up(&w, 5000), "first-start", "a daemon ({how}) did not come up: {:?}", ended(g));
    sleep_ms(50);
    for n in 0..4 {
        if n > 0 {
            let text = format!("{BASE_CFG}[env]\nMARK = \"{n}\"\n");
            match n {
                1 => std::fs::write(&w.cfg, &text).unwrap(),
                2 => {
                    std::fs::write("new.toml", &text).unwrap();
                    std::fs::rename("new.toml", &w.cfg).unwrap();
                }
                _ => {
                    std::fs::remove_file(&w.cfg).unwrap();
                    sleep_ms(300);
                    std::fs::write(&w.cfg, &text).unwrap();
                }
            }
            sleep_ms(600);
        }
        let (c, sh) = w.create(&format!("s{n}"));
        let mark = sh.exec().env.iter().find(|x| x.0 == b"MARK").map(|x| String::from_utf8_lossy(&x.1).to_string());
        ensure!(mark == Some(n.to_string()), "stale-config", "daemon started {how}, configuration given by a {} path: after {n} changes a session has MARK={mark:?}", if relative { "relative" } else { "absolute" });
        drop(c);
    }
    finish(&w);
}

/// What a shell inherits does not depend on how the daemon was started (P20).
fn shell(how: &str, mask: u32) {
    let w = World::prepare(&format!("{BASE_CFG}"));
    rt().step_limit = BIG;
    rt().crash_groups = 0;
    // (directories of the scenario are made before the mask applies)
    let _ = std::fs::create_dir_all(w.sock.parent().unwrap());
    let ign0 = rt::sig_masks().1;
    rt::sysn(libc::SYS_umask, &[mask as u64]);
    let g = launch(&w, how);
    ensure!(wait_up(&w, 5000), "first-start", "a daemon ({how}) did not come up: {:?}", ended(g));
    for (name, dir) in [("a", None), ("b", Some("/tmp"))] {
        let mut h = w.hdr(name);
        h.dir = dir.map(|d| d.to_string());
        let (c, sh) = w.create_h(h);
        let e = sh.exec();
        let what = format!("daemon started {how} under umask {mask:o}, shell of {name}");
        ensure!(e.umask == mask, "umask", "{what}: runs with umask {:o}", e.umask);
        ensure!(e.sigs.0 == 0, "signals", "{what}: runs with signals {:x} blocked", e.sigs.0);
        ensure!(e.sigs.1 & !ign0 & !(1 << (libc::SIGPIPE - 1)) == 0 && e.sigs.1 & 1 << (libc::SIGPIPE - 1) == 0, "signals", "{what}: runs with signals {:x} ignored", e.sigs.1);
        ensure!(!e.env.iter().any(|x| x.0.starts_with(b"SHPOOL__")), "environment", "{what}: internal variables leak");
        let want = dir.map(|d| d.to_string()).unwrap_or(w.dir.join("home").to_string_lossy().to_string());
        ensure!(e.cwd == want, "directory", "{what}: runs in {} instead of {want}", e.cwd);
        ensure!(e.fds.len() == 3 && e.fds.iter().all(|f| f.1.starts_with("slave")), "descriptors", "{what}: has {:?}", e.fds);
        drop(c);
    }
    finish(&w);
}
