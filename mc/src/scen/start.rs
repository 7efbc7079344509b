//! How shells are started (P20): environment, command, directory, descriptors.
use super::attach::{attach_free, talks};
use super::client::{start, Term};
use super::sess::wait_detached;
use super::*;
use crate::rt;
use crate::wire::*;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;

const BIG: u64 = 60_000_000;
pub fn big(mut j: Job) -> Job {
    j.step_limit = BIG;
    j
}
/// the variables whose value several sources can provide
const VARS: [&str; 12] = [
    "TERM", "PATH", "HOME", "SHELL", "USER", "LANG", "DISPLAY", "SSH_AUTH_SOCK", "XDG_RUNTIME_DIR", "SHPOOL_SESSION_NAME", "SHPOOL_SESSION_DIR", "FOO",
];
const DEFAULT_PATH: &str = "/usr/bin:/bin:/usr/sbin:/sbin";

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    if prop != "P20" {
        return;
    }
    let b = if deep { 2 } else { 1 };
    // the state of each variable in the configuration is the same, or rotated
    for cfg in 0..3u64 {
        for rot in 0..if deep { 9u64 } else { 3 } {
            for how in 0..8u64 {
                if !deep && rot > 0 && how % 3 != rot % 3 {
                    continue;
                }
                v.push(big(job(prop, "start.env", json!({"cfg": cfg, "rot": rot, "how": how}), o_none(), 0)));
            }
        }
    }
    for what in ["values", "keys", "lines", "odd"] {
        v.push(big(job(prop, "start.etc", json!({"what": what, "deep": deep}), o_none(), 0)));
    }
    for n in 0..6u64 {
        for extra in ["none", "detached", "ended", "events", "requests", "pager", "reattached"] {
            v.push(big(job(prop, "start.fds", json!({"n": n, "extra": extra}), o_none(), 0)));
        }
    }
    for part in 0..4u64 {
        v.push(big(job(prop, "start.command", json!({"part": part, "parts": 4}), o_none(), 0)));
    }
    for part in 0..4u64 {
        v.push(big(job(prop, "start.flags", json!({"part": part, "parts": 4}), o_none(), 0)));
    }
    for depth in 1..=if deep { 5u64 } else { 4 } {
        let parts = 4u64.pow(depth as u32).div_ceil(16);
        for part in 0..parts {
            v.push(big(job(prop, "start.refresh", json!({"depth": depth, "link": true, "part": part, "parts": parts}), o_none(), 0)));
        }
    }
    v.push(big(job(prop, "start.refresh", json!({"depth": 2, "link": false, "part": 0, "parts": 1}), o_none(), 0)));
    v.push(big(job(prop, "start.litter", json!({}), o_none(), 0)));
    for k in if deep { 2..=4u64 } else { 2..=2 } {
        v.push(big(job(prop, "start.together", json!({"k": k}), o_all(), b)));
    }
    v.push(big(job(prop, "start.handover", json!({"force": false}), o_all(), b)));
    v.push(big(job(prop, "start.handover", json!({"force": true}), o_all(), b)));
}
pub fn run(f: &str, p: &Value) {
    match f {
        "env" => env(u(p, "cfg"), u(p, "rot"), u(p, "how")),
        "etc" => etc(&s(p, "what"), p["deep"] == true),
        "fds" => fds(u(p, "n"), &s(p, "extra")),
        "command" => command(p),
        "flags" => flags(p),
        "refresh" => refresh(u(p, "depth"), p["link"] == true, u(p, "part"), u(p, "parts")),
        "litter" => litter(),
        "together" => together(u(p, "k")),
        "handover" => handover(p["force"] == true),
        _ => panic!("unknown {f}"),
    }
}

fn toml(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
fn env_map(sh: &Sh) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for (k, v) in sh.exec().env {
        let k = String::from_utf8_lossy(&k).to_string();
        if m.insert(k.clone(), String::from_utf8_lossy(&v).to_string()).is_some() {
            fail("duplicate", format!("variable {k} is in the environment twice"));
        }
    }
    m
}
fn session_dir(w: &World, name: &str) -> std::path::PathBuf {
    w.dir.join("run").join("shpool").join("sessions").join(name)
}
/// what every shell gets before any other source has a say
fn base(w: &World, name: &str, initial: Option<&str>) -> BTreeMap<String, String> {
    let d = session_dir(w, name);
    let mut m = BTreeMap::new();
    let mut p = |k: &str, v: String| m.insert(k.to_string(), v);
    p("HOME", w.dir.join("home").to_string_lossy().to_string());
    p("PATH", initial.unwrap_or(DEFAULT_PATH).to_string());
    p("SHPOOL_SESSION_NAME", name.to_string());
    p("SHPOOL_SESSION_DIR", d.to_string_lossy().to_string());
    p("SHELL", "/bin/bash".into());
    p("USER", "mc".into());
    p("SSH_AUTH_SOCK", d.join("ssh-auth-sock.socket").to_string_lossy().to_string());
    p("XDG_RUNTIME_DIR", w.dir.join("run").to_string_lossy().to_string());
    m
}
fn same(got: &BTreeMap<String, String>, want: &BTreeMap<String, String>, what: &str) {
    if got == want {
        return;
    }
    let mut d = vec![];
    for k in got.keys().chain(want.keys()).collect::<std::collections::BTreeSet<_>>() {
        if got.get(k) != want.get(k) {
            d.push(format!("{k} is {:?} instead of {:?}", got.get(k), want.get(k)));
        }
    }
    fail("environment", format!("{what}: {}", d.join(", ")));
}
/// state of a source for a variable: 0 absent, 1 empty, 2 a value of its own
fn val(state: u64, src: &str, var: &str) -> Option<String> {
    match state {
        0 => None,
        1 => Some(String::new()),
        _ => Some(if var == "TERM" { ["xterm", "screen", "vt100"][["cfg", "client", "etc"].iter().position(|x| *x == src).unwrap()].to_string() } else { format!("/{src} of {var}") }),
    }
}
fn env(cfg: u64, rot: u64, how: u64) {
    let (noread, init, nolink) = (how & 1 != 0, how & 2 != 0, how & 4 != 0);
    let initial = "/initial/bin:/bin:/usr/bin";
    let mut c = format!("prompt_prefix = \"\"\nshell = \"/bin/bash\"\nsession_restore_mode = \"simple\"\nnoread_etc_environment = {noread}\nnosymlink_ssh_auth_sock = {nolink}\n");
    if init {
        c.push_str(&format!("initial_path = {}\n", toml(initial)));
    }
    c.push_str("[env]\n");
    let st = |base: u64, i: usize| (base + i as u64 * rot) % 3;
    for (i, v) in VARS.iter().enumerate() {
        if let Some(x) = val(st(cfg, i), "cfg", v) {
            c.push_str(&format!("{v} = {}\n", toml(&x)));
        }
    }
    rt().etc_environment = Some("etc-environment".into());
    let w = World::new(&c);
    rt().step_limit = BIG;
    for client in 0..3u64 {
        for etc in 0..3u64 {
            let mut h = w.hdr(&format!("s{client}{etc}"));
            h.local_env.clear();
            let mut e = String::new();
            for (i, v) in VARS.iter().enumerate() {
                if let Some(x) = val(st(client, i / 2), "client", v) {
                    h.local_env.push((v.to_string(), x));
                }
                if let Some(x) = val(st(etc, i / 3), "etc", v) {
                    e.push_str(&format!("{v}={x}\n"));
                }
            }
            std::fs::write("etc-environment", &e).unwrap();
            // the oracle
            let mut want = base(&w, &h.name, init.then_some(initial));
            for (i, v) in VARS.iter().enumerate() {
                if let Some(x) = val(st(cfg, i), "cfg", v) {
                    if !(*v == "TERM" && x.is_empty()) {
                        want.insert(v.to_string(), x);
                    }
                }
                if let Some(x) = val(st(client, i / 2), "client", v) {
                    match *v {
                        "SSH_AUTH_SOCK" => {}
                        // the configuration decides, an empty value means none at all
                        "TERM" => {
                            if st(cfg, i) == 0 {
                                want.insert(v.to_string(), x);
                            }
                        }
                        _ => {
                            want.insert(v.to_string(), x);
                        }
                    }
                }
                if !noread {
                    if let Some(x) = val(st(etc, i / 3), "etc", v) {
                        want.insert(v.to_string(), x);
                    }
                }
            }
            let sent = h.local_env.clone();
            let name = h.name.clone();
            let (cl, sh) = w.create_h(h);
            let what = format!("config {cfg}, client {client}, /etc/environment {etc}, rotation {rot}, options {how}");
            same(&env_map(&sh), &want, &what);
            check_files(&w, &name, &sent, !nolink, &what);
            sh.exit(0);
            drop(cl);
        }
    }
    no_panics();
    set_output(format!("{cfg} {rot}").as_bytes());
}
/// the forwarded environment and the agent link belong to this client
fn check_files(w: &World, name: &str, sent: &[(String, String)], link: bool, what: &str) {
    let f = session_dir(w, name).join("forward.env");
    let got = std::fs::read_to_string(&f).unwrap_or_else(|e| fail("forward.env", format!("{what}: {e}")));
    let want: Vec<String> = sent.iter().map(|(k, v)| format!("{k}={v}")).collect();
    let got: Vec<String> = if got.is_empty() { vec![] } else { got.trim_end_matches('\n').split('\n').map(|x| x.to_string()).collect() };
    ensure!(got == want, "forward.env", "{what}: contains {got:?} instead of {want:?}");
    let l = session_dir(w, name).join("ssh-auth-sock.socket");
    let to = std::fs::read_link(&l).ok().map(|p| p.to_string_lossy().to_string());
    let sock = sent.iter().find(|x| x.0 == "SSH_AUTH_SOCK").map(|x| x.1.clone());
    if !link {
        ensure!(to.is_none(), "agent-link", "{what}: there is a link to {to:?} although links are off");
    } else if let Some(s) = sock {
        if !s.is_empty() {
            ensure!(to.as_deref() == Some(&s), "agent-link", "{what}: leads to {to:?} instead of {s:?}");
        }
    }
}

// ------------------------------------------------------------ the system file
/// the documented (pam_env's) way to read a value
fn pam_value(v: &str) -> String {
    let lead = v.starts_with('\'') || v.starts_with('"');
    let mut s: &str = v;
    for q in ['\'', '"'] {
        s = s.strip_prefix(q).unwrap_or(s);
    }
    if lead {
        for q in ['\'', '"'] {
            s = s.strip_suffix(q).unwrap_or(s);
        }
    }
    s.to_string()
}
fn pam_line(l: &str) -> Option<(String, String)> {
    let l = l.trim();
    if l.is_empty() || l.starts_with('#') {
        return None;
    }
    let l = l.strip_prefix("export ").unwrap_or(l);
    let l = match l.find('#') {
        Some(i) => &l[..i],
        None => l,
    };
    let (k, v) = l.split_once('=')?;
    if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        return None;
    }
    Some((k.to_string(), pam_value(v)))
}
fn words(alpha: &[&str], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| alpha.iter().map(move |a| format!("{w}{a}"))).collect();
        all.extend(last.iter().cloned());
    }
    all
}
fn etc(what: &str, deep: bool) {
    rt().etc_environment = Some("etc-environment".into());
    let w = World::new("prompt_prefix = \"\"\nshell = \"/bin/bash\"\nsession_restore_mode = \"simple\"\n");
    rt().step_limit = BIG;
    let mut files: Vec<Vec<u8>> = vec![];
    match what {
        "values" => {
            // every short value
            let vs = words(&["a", "'", "\"", "#", " ", "="], if deep { 5 } else { 4 });
            for ch in vs.chunks(800) {
                files.push(ch.iter().enumerate().map(|(i, v)| format!("V{i}={v}\n")).collect::<String>().into_bytes());
            }
        }
        "keys" => {
            let ks = words(&["K", "_", "9", "-", " ", "#", "export "], if deep { 4 } else { 3 });
            for (i, k) in ks.iter().enumerate() {
                // one file each would take long: keys differ by their value only
                if i % 40 == 0 {
                    files.push(vec![]);
                }
                files.last_mut().unwrap().extend_from_slice(format!("{k}=v{i}\n").as_bytes());
            }
        }
        "lines" => {
            for pre in ["", " ", "\t", "export ", "export  ", "export\t", "exportX ", "#", " #", "=", "=="] {
                for end in ["\n", "", "\r\n", "\n\n", " \n", "\t \n", "#c\n", " # c\n"] {
                    files.push(format!("A=1\n{pre}B=2{end}").into_bytes());
                    files.push(format!("{pre}B=2{end}C=3\n").into_bytes());
                }
            }
            files.push(b"".to_vec());
            files.push(b"A=1\nA=2\nPATH=/p:/bin\nA=3\n".to_vec());
            files.push(format!("A={}\nB=1\n", "x".repeat(20_000)).into_bytes());
        }
        _ => {
            // bytes which are no text must not cost the shell or the other lines
            files.push(b"A=1\nB=caf\xe9\nC=3\n".to_vec());
            files.push(b"\xff\xfe\nC=3\n".to_vec());
            files.push(b"A=1\n# latin \xe4 comment\nC=3".to_vec());
        }
    }
    for (i, f) in files.iter().enumerate() {
        std::fs::write("etc-environment", f).unwrap();
        let mut h = w.hdr(&format!("s{i}"));
        h.local_env.clear();
        let mut want = base(&w, &h.name, None);
        let (c, sh) = w.create_h(h);
        let mut got = env_map(&sh);
        for l in f.split(|c| *c == b'\n') {
            match std::str::from_utf8(l) {
                Ok(l) => {
                    if let Some((k, v)) = pam_line(l) {
                        want.insert(k, v);
                    }
                }
                Err(_) => {
                    // whether and how such a variable is passed on is open
                    want.remove("B");
                    got.remove("B");
                }
            }
        }
        same(&got, &want, &format!("/etc/environment containing {}", esc(f)));
        sh.exit(0);
        drop(c);
    }
    if what == "odd" {
        // a missing one, a directory
        for i in 0..2 {
            let _ = std::fs::remove_file("etc-environment");
            if i == 1 {
                std::fs::create_dir("etc-environment").unwrap();
            }
            let mut h = w.hdr(&format!("x{i}"));
            h.local_env.clear();
            let want = base(&w, &h.name, None);
            let (_c, sh) = w.create_h(h);
            same(&env_map(&sh), &want, "no readable /etc/environment");
        }
    }
    no_panics();
    set_output(what.as_bytes());
}

// ------------------------------------------------------------ descriptors
fn only_own_tty(sh: &Sh, what: &str) {
    let t = sh.tty();
    let want: Vec<(i32, String)> = (0..3).map(|i| (i, format!("slave{t}"))).collect();
    let got = sh.exec().fds;
    ensure!(got == want, "descriptors", "{what}: the shell starts with descriptors {got:?}");
}
fn fds(n: u64, extra: &str) {
    let mut cfg = BASE_CFG.to_string();
    if extra == "pager" {
        cfg.push_str("motd = \"never\"\n");
    }
    let w = World::new(&cfg);
    rt().step_limit = BIG;
    let mut held = vec![];
    let mut conns = vec![];
    let mut evs = vec![];
    for i in 0..n {
        let name = format!("s{i}");
        let (mut c, sh) = w.create(&name);
        only_own_tty(&sh, &format!("{i} open sessions, {extra}"));
        ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
        match extra {
            "detached" => {
                drop(c);
                ensure!(wait_detached(&w, &name, 3000), "detach", "stays attached");
                continue;
            }
            "ended" if i % 2 == 0 => {
                sh.exit(0);
                c.wait_end(3000);
                continue;
            }
            "reattached" => {
                drop(c);
                ensure!(wait_detached(&w, &name, 3000), "detach", "stays attached");
                c = attach_free(&w, &name, 3000).0;
                ensure!(talks(&mut c, &sh, "u"), "talk", "session does not work");
            }
            "events" => evs.push(subscribe(&w)),
            "requests" => {
                for _ in 0..2 {
                    conns.push(w.dial_raw());
                    conns.push(w.dial());
                }
                sleep_ms(20);
            }
            _ => {}
        }
        held.push((c, sh));
    }
    let (mut c, sh) = w.create("last");
    only_own_tty(&sh, &format!("{n} open sessions, {extra}"));
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    for (c, sh) in held.iter_mut() {
        ensure!(talks(c, sh, "still"), "disturbed", "another session is disturbed");
    }
    no_panics();
    set_output(format!("{n} {extra}").as_bytes());
}

// ------------------------------------------------------------ command and directory
fn command(p: &Value) {
    std::fs::create_dir_all("some/dir with space").unwrap();
    let dir = cwd();
    let d1 = dir.join("some/dir with space").to_string_lossy().to_string();
    let mk = |name: &str| {
        std::fs::create_dir_all("bin").unwrap();
        let p = format!("bin/{name}");
        std::fs::write(&p, "#!/bin/sh\n").unwrap();
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        dir.join(p).to_string_lossy().to_string()
    };
    let (zsh, fish, odd) = (mk("zsh"), mk("fish"), mk("my shell"));
    let shells = ["/bin/bash", &zsh, &fish, &odd, "/bin/sh"];
    let cmds: &[(Option<&str>, &[&str])] = &[
        (None, &[]),
        (Some("/bin/echo"), &["/bin/echo"]),
        (Some("/bin/echo a b"), &["/bin/echo", "a", "b"]),
        (Some("/bin/echo 'a b' \"c d\" e\\ f"), &["/bin/echo", "a b", "c d", "e f"]),
        (Some("  /bin/echo   x  "), &["/bin/echo", "x"]),
        (Some("/bin/echo ''"), &["/bin/echo", ""]),
        (Some("/bin/echo $HOME *"), &["/bin/echo", "$HOME", "*"]),
        (Some("echo via-path"), &["echo", "via-path"]),
        (Some("/bin/echo -- --norc"), &["/bin/echo", "--", "--norc"]),
    ];
    let dirs = [None, Some("/"), Some(d1.as_str())];
    let mut i = 0;
    for shell in shells {
        for norc in [false, true] {
            i += 1;
            if i % u(p, "parts") != u(p, "part") {
                continue;
            }
            // (the daemon before is left without its files)
            let _ = std::fs::rename("run/shpool", format!("run/before{i}"));
            // one configuration after the other: the daemon reads it at its start
            let w = World::prepare(&format!("prompt_prefix = \"\"\nnoread_etc_environment = true\nsession_restore_mode = \"simple\"\nshell = {}\nnorc = {norc}\n", toml(shell)));
            w.start_daemon();
            rt().step_limit = BIG;
            for (ci, (cmd, argv)) in cmds.iter().enumerate() {
                for (di, d) in dirs.iter().enumerate().chain(dirs.iter().take(if cmd.is_none() { 3 } else { 0 }).map(|d| (9, d))) {
                    let mut h = w.hdr(&format!("s{ci}{di}"));
                    h.cmd = cmd.map(|x| x.to_string());
                    h.dir = d.map(|x| x.to_string());
                    let (c, sh) = if di == 9 {
                        // to run something in the shell first makes no difference to how it is started
                        h.start_cmd = Some("echo started".to_string());
                        let old: Vec<i32> = all_shells().iter().map(|x| x.pid).collect();
                        let w2 = w.clone();
                        spawn(G_CLIENT, "attacher", move || {
                            let _ = w2.try_attach(h);
                        });
                        (None, super::stream::wait_shell(&old))
                    } else {
                        let (c, sh) = w.create_h(h);
                        (Some(c), sh)
                    };
                    let e = sh.exec();
                    let got: Vec<String> = e.argv.iter().map(|a| String::from_utf8_lossy(a).to_string()).collect();
                    let what = format!("shell {shell} norc {norc} command {cmd:?} directory {d:?}");
                    let base = shell.rsplit('/').next().unwrap();
                    let mut want: Vec<String> = argv.iter().map(|x| x.to_string()).collect();
                    let mut path = argv.first().unwrap_or(&"").to_string();
                    if cmd.is_none() {
                        path = shell.to_string();
                        want.push(format!("-{base}"));
                        if norc {
                            match base {
                                "bash" => want.extend(["--norc".to_string(), "--noprofile".to_string()]),
                                "zsh" => want.push("--no-rcs".into()),
                                "fish" => want.push("--no-config".into()),
                                _ => {}
                            }
                        }
                    }
                    ensure!(got == want, "arguments", "{what}: {got:?} instead of {want:?}");
                    ensure!(e.path == path, "program", "{what}: runs {:?}", e.path);
                    let home = w.dir.join("home").to_string_lossy().to_string();
                    ensure!(e.cwd == d.unwrap_or(&home), "directory", "{what}: starts in {:?}", e.cwd);
                    sh.exit(0);
                    drop(c);
                    if di == 9 {
                        sleep_ms(1500);
                    }
                }
            }
            rt::kill_group(G_DAEMON);
        }
    }
    no_panics();
    set_output(b"command");
}
/// the options of the attach command and the configuration
fn flags(p: &Value) {
    for d in ["here", "there", "home"] {
        std::fs::create_dir_all(d).unwrap();
    }
    let base = cwd();
    let abs = |d: &str| base.join(d).to_string_lossy().to_string();
    let mut i = 0u64;
    let mut t = Term::new(0);
    for default_dir in [None, Some("$HOME"), Some("."), Some("there")] {
        for dir in [None, Some("."), Some("there"), Some("/")] {
            for cmd in [None, Some("/bin/echo 'x y'")] {
                for fwd in [false, true] {
                    i += 1;
                    if i % u(p, "parts") != u(p, "part") {
                        continue;
                    }
                    let mut c = "prompt_prefix = \"\"\nnoread_etc_environment = true\nsession_restore_mode = \"simple\"\nshell = \"/bin/bash\"\n".to_string();
                    let dd = default_dir.map(|x| if x == "there" { abs("there") } else { x.to_string() });
                    if let Some(d) = &dd {
                        c.push_str(&format!("default_dir = {}\n", toml(d)));
                    }
                    if fwd {
                        c.push_str("forward_env = [\"MC_ONE\", \"MC_NONE\", \"MC_EMPTY\", \"TERM\"]\n");
                    }
                    let w = World::prepare(&c);
                    w.start_daemon();
                    rt().step_limit = BIG;
                    // the environment the client runs in
                    let own = [("TERM", "xterm"), ("LANG", "C.x"), ("SSH_AUTH_SOCK", "/agent"), ("MC_ONE", "1 one"), ("MC_EMPTY", ""), ("MC_OTHER", "other")];
                    let rest: Vec<(String, String)> = std::env::vars().collect();
                    for k in ["DISPLAY", "MC_NONE"] {
                        std::env::remove_var(k);
                    }
                    for (k, v) in own {
                        std::env::set_var(k, v);
                    }
                    *rt::CLIENT_CWD.lock().unwrap() = Some(abs("here"));
                    let dflag = dir.map(|x| if x == "there" { abs("there") } else { x.to_string() });
                    let mut args: Vec<String> = vec!["attach".into()];
                    if let Some(d) = &dflag {
                        args.extend(["-d".into(), d.clone()]);
                    }
                    if let Some(c) = cmd {
                        args.extend(["-c".into(), c.into()]);
                    }
                    args.push("s".into());
                    let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                    let before = all_shells().len();
                    let pr = start(&w, G_REALCLIENT, &args);
                    let ok = wait_until(3000, || all_shells().len() > before);
                    *rt::CLIENT_CWD.lock().unwrap() = None;
                    let what = format!("default_dir {dd:?} directory {dflag:?} command {cmd:?} forward_env {fwd}");
                    ensure!(ok, "no-shell", "{what}: no shell is started ({:?})", pr.status());
                    let sh = *all_shells().last().unwrap();
                    let home = abs("home");
                    let want = match (dd.as_deref(), dflag.as_deref()) {
                        (_, Some(".")) => abs("here"),
                        (_, Some(d)) => d.to_string(),
                        (Some("."), None) => abs("here"),
                        (None | Some("$HOME"), None) => home,
                        (Some(d), None) => d.to_string(),
                    };
                    let e = sh.exec();
                    ensure!(e.cwd == want, "directory", "{what}: starts in {} instead of {want}", e.cwd);
                    let want: Vec<&str> = if cmd.is_some() { vec!["/bin/echo", "x y"] } else { vec!["-bash"] };
                    ensure!(e.argv.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>() == want, "arguments", "{what}: runs {:?}", e.argv);
                    // the environment: nothing but what is documented
                    let mut wante = self::base(&w, "s", None);
                    wante.insert("TERM".into(), "xterm".into());
                    wante.insert("LANG".into(), "C.x".into());
                    if fwd {
                        wante.insert("MC_ONE".into(), "1 one".into());
                        wante.insert("MC_EMPTY".into(), "".into());
                    }
                    same(&env_map(&sh), &wante, &what);
                    wait_until(2000, || session_dir(&w, "s").join("forward.env").exists());
                    sleep_ms(50);
                    let l = std::fs::read_link(session_dir(&w, "s").join("ssh-auth-sock.socket")).ok();
                    ensure!(l == Some("/agent".into()), "agent-link", "{what}: leads to {l:?}");
                    t.take();
                    sh.exit(0);
                    ensure!(pr.wait(3000) == Some(0), "status", "{what}: ends with {:?}", pr.status());
                    for (k, _) in own {
                        std::env::remove_var(k);
                    }
                    for (k, v) in rest {
                        std::env::set_var(k, v);
                    }
                    rt::kill_group(G_DAEMON);
                    let _ = std::fs::rename(abs("run/shpool"), abs(&format!("run/before{i}")));
                }
            }
        }
    }
    no_panics();
    set_output(b"flags");
}

// ------------------------------------------------------------ reattaching
fn envs(i: usize) -> Vec<(String, String)> {
    let p = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    match i {
        0 => p(&[("TERM", "xterm"), ("SSH_AUTH_SOCK", "/tmp/agent.1"), ("LANG", "C")]),
        1 => p(&[("SSH_AUTH_SOCK", "/tmp/agent.2"), ("DISPLAY", ":7"), ("X", "a=b c'd\"e")]),
        2 => p(&[("LANG", "de")]),
        _ => vec![],
    }
}
fn refresh(depth: u64, link: bool, part: u64, parts: u64) {
    let w = World::new(&format!("{BASE_CFG}nosymlink_ssh_auth_sock = {}\n", !link));
    rt().step_limit = BIG;
    let n = 4usize.pow(depth as u32);
    let mut total = 0;
    for seq in (0..n).filter(|s| *s as u64 % parts == part) {
        let name = format!("q{seq}");
        let mut x = seq;
        let mut sh0 = None;
        for d in 0..depth {
            let e = envs(x % 4);
            x /= 4;
            let mut h = w.hdr(&name);
            h.local_env = e.clone();
            let what = format!("attach {d} of sequence {seq} (depth {depth})");
            let (c, st) = w.attach_h(h);
            ensure!(matches!(st, AttachStatus::Created { .. } | AttachStatus::Attached { .. }), "attach", "{what}: answered {st:?}");
            ensure!(matches!(st, AttachStatus::Created { .. }) == (d == 0), "attach", "{what}: answered {st:?}");
            check_files(&w, &name, &e, link, &what);
            // a refused attach changes nothing
            let mut h = w.hdr(&name);
            h.local_env = envs((x + 1) % 4);
            let (_, st) = w.attach_h(h);
            ensure!(matches!(st, AttachStatus::Busy), "busy", "{what}: a second attach was answered {st:?}");
            check_files(&w, &name, &e, link, &format!("{what}, refused attach"));
            let sh = *live_shells().last().unwrap();
            ensure!(sh0.is_none() || sh0 == Some(sh), "shell", "{what}: another shell");
            sh0 = Some(sh);
            drop(c);
            ensure!(wait_detached(&w, &name, 3000), "detach", "stays attached");
            total += 1;
        }
        ensure!(w.kill(&[&name]).is_ok(), "kill", "no answer");
    }
    no_panics();
    set_output(format!("{total}").as_bytes());
}
/// things left in the way by an earlier daemon or somebody else
fn litter() {
    for kind in ["file", "dangling", "dir", "fulldir", "envdir", "mode", "envlink", "sessfile"] {
        for link in [true] {
            let d = std::path::Path::new("run/shpool/sessions/a");
            let _ = std::fs::remove_dir_all("run/shpool");
            std::fs::create_dir_all(d).unwrap();
            let l = d.join("ssh-auth-sock.socket");
            match kind {
                "file" => std::fs::write(&l, "x").unwrap(),
                "dangling" => std::os::unix::fs::symlink("/nowhere", &l).unwrap(),
                "dir" => std::fs::create_dir(&l).unwrap(),
                "fulldir" => {
                    std::fs::create_dir(&l).unwrap();
                    std::fs::write(l.join("x"), "y").unwrap();
                }
                "envdir" => std::fs::create_dir(d.join("forward.env")).unwrap(),
                "mode" => std::fs::set_permissions("run/shpool/sessions", std::fs::Permissions::from_mode(0o755)).unwrap(),
                "envlink" => std::fs::write(d.join("forward.env"), "LONG=".to_string() + &"x".repeat(5000)).unwrap(),
                _ => {
                    std::fs::remove_dir(d).unwrap();
                    std::fs::write(d, "not a directory").unwrap();
                }
            }
            let w = World::new(BASE_CFG);
            rt().step_limit = BIG;
            let mut h = w.hdr("a");
            h.local_env = envs(0);
            let (mut c, sh) = w.create_h(h);
            let what = format!("litter: {kind}");
            ensure!(talks(&mut c, &sh, "t"), "talk", "{what}: session does not work");
            if matches!(kind, "file" | "dangling" | "mode" | "envlink") {
                check_files(&w, "a", &envs(0), link, &what);
            }
            if kind == "mode" {
                let m = std::fs::metadata("run/shpool/sessions").unwrap().permissions().mode() & 0o777;
                ensure!(m == 0o700, "mode", "{what}: the sessions directory has mode {m:o}");
            }
            drop(c);
            ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
            let (mut c, _) = attach_free(&w, "a", 3000);
            ensure!(talks(&mut c, &sh, "u"), "talk", "{what}: session does not work after reattaching");
            sh.exit(0);
            c.wait_end(3000);
            rt::kill_group(G_DAEMON);
        }
    }
    no_panics();
    set_output(b"litter");
}
/// sessions created at the same time
fn together(k: u64) {
    let w = World::new(BASE_CFG);
    let (mut c0, sh0) = w.create("old");
    ensure!(talks(&mut c0, &sh0, "t"), "talk", "session does not work");
    explore(true);
    let hs: Vec<_> = (0..k)
        .map(|i| {
            let w2 = w.clone();
            spawn(G_CLIENT, "creator", move || {
                let mut h = w2.hdr(&format!("s{i}"));
                h.local_env = vec![("TERM".into(), "xterm".into()), ("MINE".into(), format!("{i}")), ("SSH_AUTH_SOCK".into(), format!("/agent.{i}"))];
                h.cmd = Some(format!("/bin/echo {i}"));
                h.dir = Some(if i % 2 == 0 { "/".into() } else { "/tmp".into() });
                let r = w2.attach_h(h);
                if !matches!(r.1, AttachStatus::Created { .. }) {
                    fail("create", format!("creating session s{i} was answered {:?}", r.1));
                }
                r.0
            })
        })
        .collect();
    let mut cs: Vec<Client> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    explore(false);
    let shells = live_shells();
    ensure!(shells.len() as u64 == k + 1, "shells", "{} shells for {} sessions", shells.len(), k + 1);
    for i in 0..k {
        let name = format!("s{i}");
        let mine: Vec<&Sh> = shells.iter().filter(|s| env_map(s).get("SHPOOL_SESSION_NAME") == Some(&name)).collect();
        ensure!(mine.len() == 1, "shells", "{} shells belong to session {name}", mine.len());
        let sh = mine[0];
        only_own_tty(sh, &format!("{k} sessions created at once"));
        let mut want = base(&w, &name, None);
        for (a, b) in [("TERM", "xterm".to_string()), ("MINE", i.to_string())] {
            want.insert(a.into(), b);
        }
        same(&env_map(sh), &want, &format!("{k} sessions created at once"));
        let e = sh.exec();
        ensure!(e.argv[1] == i.to_string().as_bytes() && e.cwd == if i % 2 == 0 { "/" } else { "/tmp" }, "mixed-up", "{name} runs {:?} in {}", e.argv, e.cwd);
        ensure!(talks(&mut cs[i as usize], sh, &format!("t{i}")), "mixed-up", "the terminal of {name} does not reach its shell");
        let l = std::fs::read_link(session_dir(&w, &name).join("ssh-auth-sock.socket")).ok();
        ensure!(l == Some(format!("/agent.{i}").into()), "agent-link", "{name}: leads to {l:?}");
    }
    ensure!(talks(&mut c0, &sh0, "still"), "disturbed", "another session is disturbed");
    no_panics();
    set_output(format!("{k}").as_bytes());
}
/// two clients come one after the other: the files are those of the last
fn handover(force: bool) {
    let w = World::new(BASE_CFG);
    let mut h = w.hdr("a");
    h.local_env = envs(0);
    let (c0, sh) = w.create_h(h);
    explore(true);
    let hs: Vec<_> = (1..3usize)
        .map(|i| {
            let w2 = w.clone();
            spawn(G_CLIENT, "attacher", move || {
                let mut last = None;
                for n in 0..40 {
                    let mut h = w2.hdr("a");
                    h.local_env = vec![("WHO".into(), format!("{i}")), ("SSH_AUTH_SOCK".into(), format!("/agent.{i}"))];
                    let (c, st) = w2.attach_h(h);
                    if matches!(st, AttachStatus::Attached { .. }) {
                        last = Some((rt::now_ns(), c));
                        break;
                    }
                    if force && n == 0 {
                        let _ = w2.detach(&["a"]);
                    }
                    sleep_ms(100);
                }
                last.map(|x| (i, x.1))
            })
        })
        .collect();
    if !force {
        drop(c0);
    } else {
        std::mem::forget(c0);
    }
    let rs: Vec<(usize, Client)> = hs.into_iter().filter_map(|h| h.join().unwrap()).collect();
    explore(false);
    ensure!(!rs.is_empty(), "nobody", "nobody got attached");
    // whoever is attached now
    let mut on = vec![];
    for (i, mut c) in rs {
        c.drain_ms(700);
        if !c.ended() {
            on.push((i, c));
        }
    }
    ensure!(on.len() <= 1, "both", "two terminals are attached");
    if let Some((i, mut c)) = on.pop() {
        sh.input();
        ensure!(talks(&mut c, &sh, "t"), "talk", "the terminal does not reach the shell");
        check_files(&w, "a", &[("WHO".into(), format!("{i}")), ("SSH_AUTH_SOCK".into(), format!("/agent.{i}"))], true, "after the attach");
    }
    no_panics();
    set_output(b"ok");
}
