//! Configuration files: layers, and changes while the daemon runs.
use super::*;
use crate::rt;
use crate::wire::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

const BIG: u64 = 4_000_000;
fn big(mut j: Job) -> Job {
    j.step_limit = BIG;
    j
}
pub fn run(f: &str, p: &Value) {
    match f {
        "watch" => watch(&s(p, "init"), &s(p, "ops"), p["rapid"].as_bool().unwrap_or(false)),
        "start" => start(&s(p, "init"), &s(p, "ops")),
        "places" => places(p["home"].as_str()),
        "merge" => merge(p),
        _ => panic!("unknown scenario config.{f}"),
    }
}

// ---------------------------------------------------------------- changing files

/// What is on disk, as far as the applicability of operations goes.
#[derive(Clone, Default, PartialEq)]
struct St {
    b: bool,
    /// 0 none, 1 a directory, 2 a link to one
    d: u8,
    /// 0 none, 1 a file, 2 a link to one
    f: u8,
    da: Option<(u8, u8)>,
    ba: Option<(u8, u8)>,
    sd: bool,
    sf: bool,
}
const OPS: &str = "wrvdmxyabpcistuSABWDXI";
const INITS: [&str; 6] = ["", "b", "bm", "bmw", "bms", "bS"];
impl St {
    fn step(&self, op: char, explicit: bool) -> Option<St> {
        let mut n = self.clone();
        match op {
            // the base directory
            '/' if !self.b => n.b = true,
            'w' | 'i' if self.d > 0 => n.f = self.f.max(1),
            'r' if self.d > 0 => n.f = 1,
            'v' if self.f == 1 => {}
            'd' if self.f > 0 => n.f = 0,
            'm' if self.d == 0 => (n.b, n.d, n.f) = (true, 1, 0),
            'x' if self.d > 0 => (n.d, n.f) = (0, 0),
            'y' if self.b => (n.b, n.d, n.f) = (false, 0, 0),
            'a' if self.d > 0 && self.da.is_none() => (n.da, n.d, n.f) = (Some((self.d, self.f)), 0, 0),
            'b' if self.b && self.d == 0 => {
                let (d, f) = self.da?;
                (n.d, n.f, n.da) = (d, f, None);
            }
            'p' if self.b => (n.d, n.f) = (1, 1),
            'c' if self.d == 0 => (n.b, n.d, n.f) = (true, 1, 1),
            's' if self.d > 0 => n.f = 2,
            't' | 'u' if self.f == 2 => {}
            'S' if self.b => (n.d, n.f) = (2, 1),
            'A' if self.b && self.ba.is_none() && self.da.is_none() => (n.ba, n.b, n.d, n.f) = (Some((self.d, self.f)), false, 0, 0),
            'B' if !self.b => {
                let (d, f) = self.ba?;
                (n.b, n.d, n.f, n.ba) = (true, d, f, None);
            }
            'W' if !explicit => (n.sd, n.sf) = (true, true),
            'I' if !explicit && self.sd => n.sf = true,
            'D' if self.sf => n.sf = false,
            'X' if self.sd => (n.sd, n.sf) = (false, false),
            _ => return None,
        }
        Some(n)
    }
}

/// a file in some other encoding
const NOT_TEXT: &[u8] = b"# BAD \xe4\nshell = \"mc-e9\"\n";

struct Disk {
    /// where the file to watch is: b/shpool/config.toml
    b: PathBuf,
    sys: PathBuf,
    explicit: bool,
    n: u32,
}
type Eff = (String, String, String);
impl Disk {
    fn d(&self) -> PathBuf {
        self.b.join("shpool")
    }
    fn f(&self) -> PathBuf {
        self.d().join("config.toml")
    }
    fn text(&mut self, tag: char) -> String {
        self.n += 1;
        let n = self.n;
        match tag {
            's' => format!("prompt_prefix = \"\"\nshell = \"mc-s{n}\"\ninitial_path = \"/s{n}\"\n# s{n}"),
            'e' => format!("prompt_prefix = \"\"\nshell = \"mc-e{n}\"\ninitial_path = \"/u{n}\"\n[env]\nU = \"u{n}\"\n# u{n}"),
            'u' => format!("initial_path = \"/u{n}\"\n[env]\nU = \"u{n}\"\n# u{n}"),
            _ => ["# BAD\nshell = [", "# BAD\nnorc = 3\n", "# BAD\nsession_restore_mode = \"some\"\n"][n as usize % 3].to_string(),
        }
    }
    fn user(&mut self) -> String {
        self.text(if self.explicit { 'e' } else { 'u' })
    }
    fn apply(&mut self, op: char) {
        use std::fs::*;
        use std::os::unix::fs::symlink;
        let (b, d, f) = (self.b.clone(), self.d(), self.f());
        let side = PathBuf::from("side");
        let _ = create_dir_all(&side);
        let k = self.n + 1000;
        match op {
            '/' => create_dir_all(&b).unwrap(),
            'w' => write(&f, self.user()).unwrap(),
            'i' => write(&f, self.text('b')).unwrap(),
            'j' => write(&f, NOT_TEXT).unwrap(),
            'r' => {
                write(d.join("config.toml.new"), self.user()).unwrap();
                rename(d.join("config.toml.new"), &f).unwrap();
            }
            'v' => {
                rename(&f, d.join("config.toml~")).unwrap();
                write(&f, self.user()).unwrap();
                remove_file(d.join("config.toml~")).unwrap();
            }
            'd' => remove_file(&f).unwrap(),
            'm' => create_dir_all(&d).unwrap(),
            'x' => match read_link(&d) {
                Ok(_) => remove_file(&d).unwrap(),
                Err(_) => remove_dir_all(&d).unwrap(),
            },
            'y' => remove_dir_all(&b).unwrap(),
            'a' => rename(&d, b.join("away")).unwrap(),
            'b' => rename(b.join("away"), &d).unwrap(),
            'p' => {
                let new = b.join(format!("new{k}"));
                create_dir(&new).unwrap();
                write(new.join("config.toml"), self.user()).unwrap();
                if d.symlink_metadata().is_ok() {
                    rename(&d, b.join(format!("old{k}"))).unwrap();
                }
                rename(&new, &d).unwrap();
            }
            'c' => {
                create_dir_all(&d).unwrap();
                write(&f, self.user()).unwrap();
            }
            's' => {
                let t = std::fs::canonicalize(&side).unwrap().join(format!("file{k}"));
                write(&t, self.user()).unwrap();
                symlink(&t, d.join("link.new")).unwrap();
                rename(d.join("link.new"), &f).unwrap();
            }
            't' => write(read_link(&f).unwrap(), self.user()).unwrap(),
            'u' => {
                write(side.join("new"), self.user()).unwrap();
                rename(side.join("new"), read_link(&f).unwrap()).unwrap();
            }
            'S' => {
                let t = std::fs::canonicalize(&side).unwrap().join(format!("dir{k}"));
                create_dir(&t).unwrap();
                write(t.join("config.toml"), self.user()).unwrap();
                if read_link(&d).is_err() && d.exists() {
                    remove_dir_all(&d).unwrap();
                }
                symlink(&t, b.join("link.new")).unwrap();
                rename(b.join("link.new"), &d).unwrap();
            }
            'A' => rename(&b, b.with_file_name("base.away")).unwrap(),
            'B' => rename(b.with_file_name("base.away"), &b).unwrap(),
            'W' => {
                create_dir_all(self.sys.parent().unwrap()).unwrap();
                write(self.sys.clone(), self.text('s')).unwrap();
            }
            'I' => write(self.sys.clone(), self.text('b')).unwrap(),
            'J' => write(self.sys.clone(), NOT_TEXT).unwrap(),
            'D' => remove_file(&self.sys).unwrap(),
            'X' => remove_dir_all(self.sys.parent().unwrap()).unwrap(),
            _ => panic!("op {op}"),
        }
    }
    /// what the files say: None when one of them is invalid
    fn effective(&self) -> Option<Eff> {
        let read = |p: &Path| std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).to_string());
        let (mut shell, mut u, mut path) = ("".to_string(), "".to_string(), "".to_string());
        let mut files = vec![read(&self.f())];
        if !self.explicit {
            files.insert(0, read(&self.sys));
        }
        for t in files.into_iter().flatten() {
            if t.contains("BAD") {
                return None;
            }
            // (a file caught between being truncated and written is empty)
            let Some((_, v)) = t.rsplit_once("# ") else { continue };
            path = format!("/{v}");
            if t.contains("shell") {
                shell = format!("mc-{}", t.split("mc-").nth(1).unwrap().split('"').next().unwrap());
            }
            if t.contains("[env]") {
                u = v.to_string();
            }
        }
        Some((shell, u, path))
    }
}

fn disk(explicit: bool) -> Disk {
    std::fs::write("etc-environment", "").unwrap();
    rt().etc_environment = Some("etc-environment".into());
    // a shell without prompt set-up
    *rt::PW_SHELL.lock().unwrap() = Some("mc-nu".into());
    let w = PathBuf::from(rt::WORK_DIR.get().unwrap());
    std::fs::create_dir_all(w.join("etc")).unwrap();
    rt().etc_dir = Some(w.join("etc").to_string_lossy().to_string());
    let b = if explicit { w.join("conf") } else { w.join("home/.config") };
    Disk { b, sys: w.join("etc/shpool/config.toml"), explicit, n: 0 }
}
fn launch(w: &World, explicit: Option<PathBuf>) {
    let mut a = vec!["daemon".to_string()];
    if let Some(f) = explicit {
        a = vec!["-c".into(), f.to_string_lossy().to_string(), "daemon".into()];
    }
    spawn(G_DAEMON, "daemon", move || {
        let r = run_shpool(&a);
        rt::logln(&format!("daemon returned {r:?}"));
    });
    if !wait_until(5000, || w.up()) {
        fail("daemon-start", "the daemon did not come up");
    }
    sleep_ms(20);
}
/// what the next session gets
fn probe(w: &World, name: &str) -> Eff {
    let (mut c, sh) = w.create(name);
    let e = sh.exec();
    let get = |k: &str| e.env.iter().find(|x| x.0 == k.as_bytes()).map(|x| String::from_utf8_lossy(&x.1).to_string()).unwrap_or_default();
    let path = get("PATH");
    let own = |s: &str, p: &str| if s.starts_with(p) { s.to_string() } else { String::new() };
    let r = (
        own(&e.path, "mc-").replace("mc-nu", ""),
        get("U"),
        if path.starts_with("/s") || path.starts_with("/u") && path.as_bytes().get(2).is_some_and(|c| c.is_ascii_digit()) { own(&path, "/") } else { String::new() },
    );
    sh.exit(0);
    ensure!(c.wait_end(8000), "end", "session {name} does not end");
    let path = r.2.clone();
    (r.0, r.1, if path.starts_with("/sbin") { String::new() } else { path })
}

fn watch(init: &str, ops: &str, rapid: bool) {
    rt::REAL_INOTIFY.store(true, std::sync::atomic::Ordering::Relaxed);
    let explicit = init.starts_with('e');
    let mut dk = disk(explicit);
    for c in init.trim_start_matches('e').chars() {
        dk.apply(if c == 'b' { '/' } else { c });
    }
    let w = World::prepare("");
    rt().step_limit = BIG;
    launch(&w, explicit.then(|| dk.f()));
    sleep_ms(300);
    let Some(mut good) = dk.effective() else { panic!("invalid at start") };
    let mut done = String::new();
    let mut seen = BTreeSet::new();
    let check = |dk: &Disk, good: &Eff, seen: &BTreeSet<Eff>, done: &str, name: &str| -> Eff {
        let got = probe(&w, name);
        match dk.effective() {
            Some(e) => ensure!(got == e, "stale", "the files started as {init:?}, then {done:?}: the next session uses {got:?} instead of {e:?}"),
            None => ensure!(
                &got == good || seen.contains(&got),
                "invalid",
                "the files started as {init:?}, then {done:?} (now invalid): the next session uses {got:?} instead of {good:?}"
            ),
        }
        got
    };
    if rapid {
        explore(true);
    }
    for c in ops.chars() {
        if !rapid {
            if let Some(e) = dk.effective() {
                good = e;
            }
        }
        dk.apply(c);
        done.push(c);
        if rapid {
            if let Some(e) = dk.effective() {
                seen.insert(e);
            }
        } else {
            sleep_ms(300);
        }
    }
    if rapid {
        sleep_ms(300);
        explore(false);
    }
    let got = check(&dk, &good, &seen, &done, "probe");
    rt::set_output(format!("{got:?}").as_bytes());
    no_panics();
}

/// the files change while the daemon starts
fn start(init: &str, ops: &str) {
    rt::REAL_INOTIFY.store(true, std::sync::atomic::Ordering::Relaxed);
    let explicit = init.starts_with('e');
    let mut dk = disk(explicit);
    for c in init.trim_start_matches('e').chars() {
        dk.apply(if c == 'b' { '/' } else { c });
    }
    let w = World::prepare("");
    rt().step_limit = BIG;
    explore(true);
    let o = ops.to_string();
    let f = dk.f();
    let h = inject("change", 40, move || {
        for c in o.chars() {
            dk.apply(c);
        }
        dk
    });
    launch(&w, explicit.then_some(f));
    let dk = h.join().unwrap();
    sleep_ms(300);
    explore(false);
    let got = probe(&w, "probe");
    let want = dk.effective().unwrap();
    ensure!(got == want, "stale", "the files started as {init:?}, {ops:?} happens while the daemon starts: the next session uses {got:?} instead of {want:?}");
    no_panics();
}

/// where the user's file is looked for
fn places(home: Option<&str>) {
    let mut dk = disk(false);
    dk.apply('W');
    let mut want = dk.effective().unwrap();
    dk.apply('c');
    let default = dk.effective().unwrap();
    let dir = cwd();
    dk.b = dir.join("xdg");
    dk.apply('c');
    match home {
        None => want = default,
        Some(h) => {
            let v = h.replace('@', dir.to_str().unwrap());
            std::env::set_var("XDG_CONFIG_HOME", &v);
            if v.is_empty() || !v.starts_with('/') {
                want = default;
            } else if h == "@/xdg" {
                want = dk.effective().unwrap();
            }
        }
    }
    let w = World::prepare("");
    launch(&w, None);
    let got = probe(&w, "probe");
    ensure!(got == want, "place", "XDG_CONFIG_HOME is {home:?}: the next session uses {got:?} instead of {want:?}");
    no_panics();
}

// ---------------------------------------------------------------- layers
/// every option with two values of it
const OPTIONS: [(&str, &str, &str); 18] = [
    ("norc", "true", "false"),
    ("noecho", "true", "false"),
    ("nosymlink_ssh_auth_sock", "true", "false"),
    ("noread_etc_environment", "true", "false"),
    ("shell", "\"/bin/bash\"", "\"/usr/bin/bash\""),
    ("env", "{E1 = \"e1\", E2 = \"e2\"}", "{E1 = \"other\", E3 = \"e3\"}"),
    ("default_dir", "\"/usr\"", "\"/bin\""),
    ("forward_env", "[\"FWD_A\"]", "[\"FWD_B\"]"),
    ("initial_path", "\"/a\"", "\"/b\""),
    ("session_restore_mode", "\"simple\"", "{lines = 50}"),
    ("session_restore_engine", "\"vt100\"", "\"vterm\""),
    ("output_spool_lines", "3", "6"),
    ("vt100_output_spool_width", "50", "60"),
    ("keybinding", "[{binding = \"Ctrl-a d\", action = \"detach\"}]", "[{binding = \"Ctrl-b d\", action = \"detach\"}, {binding = \"Ctrl-e\", action = \"detach\"}]"),
    ("prompt_prefix", "\"\"", "\"B:\""),
    ("motd", "\"dump\"", "\"never\""),
    ("motd_args", "[\"motd=motd.a\", \"motd_dir=none\"]", "[\"motd=motd.b\", \"motd_dir=none\"]"),
    ("var_default", "[{var = \"V\", value = \"1\"}]", "[{var = \"V\", value = \"2\"}, {var = \"W\", value = \"2\"}]"),
];
/// which layers set an option, and to which of its values
type Layers = [Option<bool>; 3];
fn file(opts: &[Layers], layer: usize) -> String {
    let mut t = String::new();
    for ((name, a, b), l) in OPTIONS.iter().zip(opts) {
        if let Some(second) = l[layer] {
            let v = if second { b } else { a }.replace("motd=", &format!("motd={}/", cwd().display()));
            t.push_str(&format!("{name} = {v}\n"));
        }
    }
    t
}
/// play a shell until the request it belongs to is answered
fn answer<T: Send + 'static>(h: std::thread::JoinHandle<T>, not: &[i32]) -> (T, Option<Sh>, Vec<u8>) {
    let (mut sh, mut got, mut done) = (None, vec![], 0);
    for _ in 0..4000 {
        if (h.is_finished() && done == 0 || done == 2) && sh.is_some() {
            break;
        }
        if h.is_finished() && done == 0 {
            done = 3;
        }
        if done > 3 {
            break;
        }
        if done == 3 {
            done = 4;
        }
        if sh.is_none() {
            sh = live_shells().into_iter().find(|s| !not.contains(&s.pid));
        }
        if let Some(sh) = sh {
            got.extend(sh.input());
            let asked = |w: &str| find(&got, format!("={w} ").as_bytes()) && got.ends_with(b"daemon\n");
            if done == 0 && asked("startup") {
                sh.out(b"SHPOOL_STARTUP_SENTINEL\r\n");
                done = 1;
            } else if done == 1 && asked("prompt") {
                sh.out(b"SHPOOL_PROMPT_SETUP_SENTINEL");
                done = 2;
            }
        }
        sleep_ms(5);
    }
    (h.join().unwrap(), sh, got)
}
/// everything about a daemon that options show in
fn observe(w: &World, group: u32, cfg: Option<&str>) -> Vec<(&'static str, String)> {
    let mut o = vec![];
    let text = |b: &[u8]| String::from_utf8_lossy(b).to_string();
    o.push(("variables", format!("{:?}", w.get_vars())));
    let dead: Vec<i32> = all_shells().iter().map(|s| s.pid).collect();
    let mut h = w.hdr("a");
    h.local_env.push(("SSH_AUTH_SOCK".into(), "/nowhere/agent".into()));
    let w2 = w.clone();
    let (r, sh, script) = answer(spawn(G_CLIENT, "attacher", move || w2.attach_h(h)), &dead);
    let (mut c, Some(sh)) = (r.0, sh) else { fail("no-shell", "no shell was started") };
    o.push(("set-up", text(&script)));
    let e = sh.exec();
    o.push(("command", format!("{} {:?} in {}", e.path, e.argv.iter().map(|a| text(a)).collect::<Vec<_>>(), e.cwd)));
    o.push(("environment", e.env.iter().map(|(k, v)| format!("{}={}\n", text(k), text(v))).collect()));
    o.push(("echo", format!("{}", e.noecho)));
    let agent = e.env.iter().find(|x| x.0 == b"SSH_AUTH_SOCK").map(|x| text(&x.1));
    o.push(("agent", format!("{:?}", agent.map(|a| std::fs::read_link(a).ok()))));
    sh.out(b"first\r\n");
    c.drain_ms(100);
    o.push(("first output", esc(&c.data)));
    for i in 0..120 {
        sh.out(format!("line {i} {}\r\n", "x".repeat(if i % 2 == 0 { 47 } else { 57 })).as_bytes());
    }
    c.drain_ms(300);
    let mut keys = vec![];
    for (i, k) in [b"\x01d" as &[u8], b"\x02d", b"\x05", b"\x00\x11"].into_iter().enumerate() {
        c.send(k);
        c.drain_ms(200);
        if c.ended() {
            keys.push(i);
            break;
        }
    }
    o.push(("keys", format!("{keys:?} {:?}", esc(&sh.input()))));
    if !c.ended() {
        drop(c);
        super::sess::wait_detached(w, "a", 3000);
    } else {
        super::sess::wait_detached(w, "a", 3000);
    }
    let (mut c, st) = w.attach("a");
    ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{st:?}");
    c.drain_ms(300);
    o.push(("restored", text(&c.data)));
    sh.exit(0);
    ensure!(c.wait_end(8000), "end", "the session does not end");
    // variables are forwarded by the client
    let dead: Vec<i32> = all_shells().iter().map(|s| s.pid).collect();
    let mut a = vec![];
    if let Some(c) = cfg {
        a.extend(["-c".to_string(), c.to_string()]);
    }
    a.extend(["--socket".into(), w.sock.display().to_string(), "attach".into(), "-b".into(), "b".into()]);
    let h = std::thread::spawn(move || {
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        rt::set_group(G_CLIENT, "starter");
        super::client::shpool(group, &a).wait(20_000)
    });
    let (r, sh, _) = answer(h, &dead);
    let Some(sh) = sh else { fail("no-shell", format!("attach -b ended with {r:?} without a shell")) };
    let f: Vec<String> = sh.exec().env.iter().filter(|x| x.0.starts_with(b"FWD_")).map(|(k, v)| format!("{}={}", text(k), text(v))).collect();
    o.push(("forwarded", format!("{r:?} {f:?} in {}", sh.exec().cwd)));
    let _ = w.kill(&["b"]);
    wait_until(2000, || !sh.alive());
    o
}
fn plain(s: &str) -> String {
    let mut parts: Vec<&str> = s.split('/').collect();
    parts.retain(|p| !((10..=16).contains(&p.len()) && p.bytes().all(|c| c.is_ascii_hexdigit())));
    parts.join("/")
}
/// The daemon configured by layers behaves exactly like one with a single file
/// saying what the layers amount to.
fn merge(p: &Value) {
    let opts: Vec<Layers> = (0..OPTIONS.len())
        .map(|i| {
            // a digit for each layer: 0 not set, 1 and 2 the values
            let t: Vec<u8> = p["opts"][i].as_str().unwrap().bytes().collect();
            [0, 1, 2].map(|l| if t[l] == b'0' { None } else { Some(t[l] == b'2') })
        })
        .collect();
    let explicit = p["explicit"].as_bool().unwrap_or(false);
    rt().step_limit = BIG;
    std::env::set_var("FWD_A", "fa");
    std::env::set_var("FWD_B", "fb");
    let dk = disk(false);
    *rt::PW_SHELL.lock().unwrap() = Some("/bin/sh".into());
    std::fs::write("etc-environment", "ETC=1\n").unwrap();
    std::fs::write("motd.a", "message a\n").unwrap();
    std::fs::write("motd.b", "message b\n").unwrap();
    let want: Vec<Layers> = opts
        .iter()
        .map(|l| [if explicit { l[2] } else { l[1].or(l[0]) }, None, None])
        .collect();
    std::fs::write("reference.toml", file(&want, 0)).unwrap();
    std::fs::create_dir_all(dk.sys.parent().unwrap()).unwrap();
    std::fs::create_dir_all(dk.d()).unwrap();
    let sys = file(&opts, 0);
    let user = file(&opts, 1);
    std::fs::write(&dk.sys, &sys).unwrap();
    std::fs::write(dk.f(), &user).unwrap();
    std::fs::write("explicit.toml", file(&opts, 2)).unwrap();

    let mut w = World::prepare("");
    let mut res = vec![];
    for (i, cfg) in [Some("reference.toml"), explicit.then_some("explicit.toml")].into_iter().enumerate() {
        w.sock = w.dir.join(format!("run/shpool/d{i}.sock"));
        std::fs::create_dir_all(w.sock.parent().unwrap()).unwrap();
        let mut a = vec![];
        if let Some(c) = cfg {
            a.extend(["-c".to_string(), c.to_string()]);
        }
        a.extend(["--socket".into(), w.sock.display().to_string(), "daemon".into()]);
        let _ = std::fs::remove_file(w.dir.join("run/shpool/events.socket"));
        spawn(G_DAEMON, "daemon", move || {
            let r = run_shpool(&a);
            rt::logln(&format!("daemon returned {r:?}"));
        });
        if !wait_until(5000, || w.up()) {
            fail("daemon-start", "the daemon did not come up");
        }
        sleep_ms(20);
        res.push(observe(&w, G_REALCLIENT + i as u32, cfg));
    }
    let mut all = String::new();
    for ((k, a), (_, b)) in res[0].iter().zip(&res[1]) {
        all.push_str(&format!("{k}: {}\n", plain(a)));
        // (the directory of a socket's sessions is named after it)
        let (a, b) = (plain(a), plain(b));
        ensure!(a == b, "merge", "the files say\n--- system\n{sys}--- user\n{user}--- explicit\n{}---\n{k} is\n{b}\ninstead of\n{a}", file(&opts, 2));
    }
    rt::set_output(all.as_bytes());
    no_panics();
}
fn merge_jobs(deep: bool, v: &mut Vec<Job>) {
    let n = OPTIONS.len();
    let mut push = |opts: Vec<String>, explicit: bool| {
        v.push(big(job("P19", "config.merge", json!({"opts": opts, "explicit": explicit}), o_none(), 0)));
    };
    // one option against backgrounds in which all the options show
    let shows = "111211111211111111";
    for back in ["none", "system", "user", "both"] {
        let bg: Vec<String> = shows
            .chars()
            .map(|c| {
                let other = if c == '1' { '2' } else { '1' };
                match back {
                    "none" => "000".to_string(),
                    "system" => format!("{c}00"),
                    "user" => format!("0{c}0"),
                    _ => format!("{other}{c}0"),
                }
            })
            .collect();
        push(bg.clone(), false);
        for i in 0..n {
            for x in ["000", "100", "200", "010", "020", "120", "210"] {
                if bg[i] != x {
                    let mut o = bg.clone();
                    o[i] = x.into();
                    push(o, false);
                }
            }
        }
    }
    // an explicit file hides the others
    for i in 0..n {
        for x in ["120", "121", "212", "001", "002"] {
            let mut o = vec![if x.ends_with('0') { "121" } else { "210" }.to_string(); n];
            o[i] = x.into();
            push(o, true);
        }
    }
    if deep {
        for i in 0..n {
            for j in 0..i {
                for x in ["100", "010", "210"] {
                    for y in ["200", "020", "120"] {
                        let mut o = vec!["000".to_string(); n];
                        o[i] = x.into();
                        o[j] = y.into();
                        push(o, false);
                    }
                }
            }
        }
    }
}

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    if prop != "P19" {
        return;
    }
    merge_jobs(deep, v);
    for h in [None, Some(""), Some("xdg"), Some("./xdg"), Some("@/xdg"), Some("@/nothing-there")] {
        v.push(job(prop, "config.places", json!({"home": h}), o_none(), 0));
    }
    let depth = if deep { 3 } else { 2 };
    for explicit in [false, true] {
        for init in INITS {
            for sys in [false, true] {
                if explicit && sys {
                    continue;
                }
                let i = format!("{}{}{init}", if explicit { "e" } else { "" }, if sys { "W" } else { "" });
                let mut st = St::default();
                for c in i.trim_start_matches('e').chars() {
                    st = st.step(if c == 'b' { '/' } else { c }, false).unwrap();
                }
                let mut all = vec![(String::new(), st)];
                let mut last = all.clone();
                for _ in 0..depth {
                    let mut next = vec![];
                    for (o, st) in &last {
                        for c in OPS.chars() {
                            if let Some(n) = st.step(c, explicit) {
                                next.push((format!("{o}{c}"), n));
                            }
                        }
                    }
                    all.extend(next.clone());
                    last = next;
                }
                // (a file in another encoding is just another invalid one)
                let odd: Vec<_> = all.iter().filter(|x| x.0.len() <= 2 && x.0.contains(['i', 'I'])).map(|x| (x.0.replace('i', "j").replace('I', "J"), x.1.clone())).collect();
                for (o, _) in all.into_iter().chain(odd) {
                    if !o.contains(['i', 'I', 'j', 'J']) && (o.len() == 1 || deep && o.len() == 2) {
                        v.push(job(prop, "config.start", json!({"init": i, "ops": o}), Opts { kinds: 1 << K_FS, groups: 1 << G_DAEMON, ..o_inj() }, 1));
                    }
                    v.push(job(prop, "config.watch", json!({"init": i, "ops": o}), o_none(), 0));
                    if o.len() <= 2 && !o.is_empty() {
                        v.push(job(prop, "config.watch", json!({"init": i, "ops": o, "rapid": true}), if deep { o_all() } else { Opts { kinds: 1 << K_FS, ..o_all() } }, if (o.len() == 1 && (!sys || o.contains(['W', 'I', 'J', 'D', 'X']))) || deep { 1 } else { 0 }));
                    }
                }
            }
        }
    }
}
