//! The message of the day (P26): when it is due, that it is complete, and that
//! nothing which happens around the pager costs the session.
use super::attach::{attach_free, talks};
use super::client::{start, stderr_text, Term};
use super::real::term_talks;
use super::sess::wait_detached;
use super::*;
use crate::rt;
use crate::wire::*;

const BIG: u64 = 60_000_000;
fn big(mut j: Job) -> Job {
    j.step_limit = BIG;
    j
}
/// what the pager does until it is gone
const OUTCOMES: [&str; 10] = ["exit0", "exit1", "signal", "missing", "quiet", "talkative", "flood", "closetty", "stubborn", "late"];
/// what happens around it meanwhile
const AROUND: [&str; 15] = [
    "waits", "types", "resizes", "shrinks", "vanishes", "half", "noread", "kill", "detach", "msg-detach", "again", "shell-exits", "shell-talks", "vars", "twice",
];
const CONTENTS: [&str; 12] = ["empty", "missing", "line", "nonl", "lines", "blank", "utf8", "ansi", "16k", "200k", "dir", "invalid"];

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    if prop != "P26" {
        return;
    }
    let b = if deep { 2 } else { 1 };
    let depth = if deep { 5u64 } else { 4 };
    for mode in ["never", "none", "dump", "pager", "every"] {
        let parts = if mode == "pager" || mode == "every" { 4u64.pow(depth as u32) / 8 } else { 4u64.pow(depth as u32) / 32 };
        for part in 0..parts {
            v.push(big(job(prop, "motd.due", json!({"mode": mode, "depth": depth, "part": part, "parts": parts}), o_none(), 0)));
        }
    }
    for mode in ["dump", "pager"] {
        for c in CONTENTS {
            for prompt in [false, true] {
                v.push(big(job(prop, "motd.content", json!({"mode": mode, "content": c, "prompt": prompt}), o_none(), 0)));
            }
        }
    }
    for show in ["0s", "1s", "1m", "01:30", "106751991167300d", "99999999999999d", "bogus", ""] {
        v.push(big(job(prop, "motd.every", json!({"show": show}), o_none(), 0)));
    }
    for o in OUTCOMES {
        for a in AROUND {
            for re in [false, true] {
                let inj = deep || !re && matches!((o, a), ("late", _) | ("quiet", "detach" | "again" | "resizes") | ("talkative", "types" | "resizes" | "shell-talks") | ("closetty", "detach" | "vanishes" | "resizes") | ("stubborn", "detach" | "vanishes"));
                v.push(big(job(prop, "motd.pager", json!({"outcome": o, "around": a, "re": re}), if inj { o_inj() } else { o_none() }, if inj { 1 } else { 0 })));
            }
        }
    }
    for (o, a) in [
        ("exit0", "waits"),
        ("exit0", "resizes"),
        ("exit0", "vanishes"),
        ("exit0", "detach"),
        ("exit0", "kill"),
        ("exit0", "vars"),
        ("exit0", "shell-exits"),
        ("talkative", "types"),
        ("late", "vanishes"),
        ("missing", "resizes"),
    ] {
        for re in [false, true] {
            if deep || !re && !matches!(a, "vars" | "kill" | "shell-exits") && o != "late" {
                v.push(big(job(prop, "motd.pager", json!({"outcome": o, "around": a, "re": re}), o_all(), b)));
            }
        }
    }
    for a in ["waits", "types", "resizes", "force", "killed", "detach-key", "bg"] {
        v.push(big(job(prop, "motd.real", json!({"around": a}), o_none(), 0)));
        if deep || matches!(a, "resizes" | "force") {
            v.push(big(job(prop, "motd.real", json!({"around": a}), o_all(), 1)));
        }
    }
    for (i, _) in MODES.iter().enumerate().filter(|x| *x.1 != "bogus") {
        v.push(big(job(prop, "motd.live", json!({"from": i}), o_none(), 0)));
    }
    v.push(big(job(prop, "motd.several", json!({}), o_all(), b)));
}
pub fn run(f: &str, p: &Value) {
    match f {
        "due" => due(p),
        "content" => content(&s(p, "mode"), &s(p, "content"), p["prompt"] == true),
        "every" => every(&s(p, "show")),
        "pager" => pager(&s(p, "outcome"), &s(p, "around"), p["re"] == true),
        "real" => real(&s(p, "around")),
        "live" => live(u(p, "from") as usize),
        "several" => several(),
        _ => panic!("unknown {f}"),
    }
}

const MSG: &str = "message of the day\nsecond line\n";
pub fn motd_file() -> std::path::PathBuf {
    cwd().join("motd.txt")
}
pub fn mode_cfg(mode: &str, extra: &str) -> String {
    let f = motd_file();
    let m = match mode {
        "none" => String::new(),
        "never" | "dump" => format!("motd = \"{mode}\"\n"),
        "pager" => "[motd.pager]\nbin = \"mc-pager\"\n".into(),
        "missing" => "[motd.pager]\nbin = \"/nowhere/pager\"\n".into(),
        every => format!("[motd.pager]\nbin = \"mc-pager\"\nshow_every = \"{every}\"\n"),
    };
    let d = cwd().join("motd.d");
    format!("{BASE_CFG}{extra}motd_args = [\"motd={}\", \"motd_dir={}\"]\n{m}", f.display(), d.display())
}
pub fn is_pager(sh: &Sh) -> bool {
    rt().procs[&sh.pid].exec.as_ref().is_some_and(|e| e.path.ends_with("mc-pager"))
}
fn pagers() -> Vec<Sh> {
    live_shells().into_iter().filter(is_pager).collect()
}
fn real_shells() -> Vec<Sh> {
    live_shells().into_iter().filter(|x| !is_pager(x)).collect()
}
/// the pager of a new attachment
fn pager_up(ms: u64) -> Option<Sh> {
    let mut r = None;
    wait_until(ms, || {
        r = pagers().pop();
        r.is_some()
    });
    r
}
fn shown(pg: &Sh) -> (std::path::PathBuf, Option<Vec<u8>>) {
    use std::os::unix::ffi::OsStrExt;
    let a = pg.exec().argv;
    ensure!(a.len() == 2, "pager-args", "the pager is started with {} arguments", a.len());
    let p = std::path::PathBuf::from(std::ffi::OsStr::from_bytes(&a[1]));
    let b = std::fs::read(&p).ok();
    (p, b)
}
fn check_shown(pg: &Sh, want: &str) -> std::path::PathBuf {
    let (p, b) = shown(pg);
    match b {
        None => fail("no-content", format!("the file {p:?} given to the pager does not exist")),
        Some(b) => ensure!(b == want.as_bytes(), "content", "the pager is given {:?} instead of {:?}", esc(&b), esc(want.as_bytes())),
    }
    p
}
fn gone(p: &std::path::Path, ctx: &str) {
    ensure!(wait_until(3000, || !p.exists()), "litter", "{ctx}: the message file {p:?} stays behind");
}
fn no_strays(ctx: &str) {
    ensure!(wait_until(4000, || pagers().is_empty()), "pager-left", "{ctx}: the pager process stays behind");
    for p in rt().procs.values() {
        ensure!(p.signals_after_reap.is_empty(), "signal-after-reap", "{ctx}: signal {:?} sent to reaped process {}", p.signals_after_reap, p.pid);
        ensure!(p.status.is_none() || wait_until(2000, || rt().procs[&p.pid].reaped), "zombie", "{ctx}: process {} is never waited for", p.pid);
    }
}
fn use_pager(c: &mut Client, pg: &Sh, tok: &str) {
    let o = format!("page {tok};");
    let i = format!("key {tok};");
    ensure!(pg.out(o.as_bytes()), "pager-tty", "the pager has no terminal");
    ensure!(c.until(1500, |c| c.has(o.as_bytes())), "pager-output", "the output of the pager does not reach the terminal");
    ensure!(c.send(i.as_bytes()), "pager-input", "cannot type at the pager");
    let got = pg.input_n(i.len(), 1500);
    ensure!(got == i.as_bytes(), "pager-input", "the pager reads {:?} instead of {i:?}", esc(&got));
}
fn status(w: &World, name: &str) -> Option<Status> {
    w.list_ok().into_iter().find(|x| x.name == name).map(|x| x.status)
}

/// histories of attaching and waiting: when the message is shown
fn due(p: &Value) {
    let (mode, depth, part, parts) = (s(p, "mode"), u(p, "depth"), u(p, "part"), u(p, "parts"));
    std::fs::write(motd_file(), MSG).unwrap();
    const D: u64 = 10_000;
    let w = World::new(&mode_cfg(if mode == "every" { "10s" } else { &mode }, ""));
    rt().step_limit = BIG;
    let total = 4u64.pow(depth as u32);
    let mut n = 0;
    let mut last: Option<u64> = None;
    let mut cur: Option<(String, Client, Sh)> = None;
    let mut shows = 0;
    for k in (0..total).filter(|k| k % parts == part) {
        for i in 0..depth {
            let op = k / 4u64.pow(i as u32) % 4;
            match op {
                2 => sleep_ms(D * 2 / 5),
                3 => sleep_ms(D * 11 / 10),
                _ => {
                    let new = op == 0 || cur.is_none();
                    let at = now_ms();
                    // never decide this close to the boundary
                    if last.is_some_and(|l| at.abs_diff(l + D) < 300) {
                        sleep_ms(700);
                    }
                    let at = now_ms();
                    let ctx = format!("{mode}, history {k} step {i}, {}", if new { "new session" } else { "reattach" });
                    let (mut c, sh, name) = if new {
                        if let Some((name, c, sh)) = cur.take() {
                            // not too many sessions
                            drop(c);
                            sh.exit(0);
                            ensure!(wait_until(3000, || status(&w, &name) != Some(Status::Attached)), "detach", "{ctx}: stays attached");
                        }
                        n += 1;
                        let name = format!("s{n}");
                        let (c, sh) = w.create(&name);
                        (c, sh, name)
                    } else {
                        let (name, c, sh) = cur.take().unwrap();
                        drop(c);
                        ensure!(wait_detached(&w, &name, 3000), "detach", "{ctx}: stays attached");
                        let (c, st) = attach_free(&w, &name, 3000);
                        ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{ctx}: answered {st:?}");
                        (c, sh, name)
                    };
                    let is_due = match mode.as_str() {
                        "pager" => true,
                        "every" => last.is_none_or(|l| at >= l + D),
                        _ => false,
                    };
                    let pg = pager_up(if is_due { 1500 } else { 300 });
                    ensure!(is_due == pg.is_some(), "due", "{ctx}: the pager is {} although the message is {} (shown before: {:?} ms ago)", if is_due { "not started" } else { "started" }, if is_due { "due" } else { "not due" }, last.map(|l| at - l));
                    if let Some(pg) = pg {
                        last = Some(at);
                        shows += 1;
                        let f = check_shown(&pg, MSG);
                        use_pager(&mut c, &pg, "p");
                        pg.exit(0);
                        gone(&f, &ctx);
                    }
                    c.data.clear();
                    ensure!(talks(&mut c, &sh, "t"), "talk", "{ctx}: the session does not work");
                    let d = String::from_utf8_lossy(&c.data).replace('\r', "");
                    let dumped = d.contains("second line");
                    ensure!(dumped == (mode == "dump" && new), "due", "{ctx}: the message is {}shown inline: {d:?}", if dumped { "" } else { "not " });
                    if dumped {
                        shows += 1;
                        ensure!(d.starts_with(MSG), "order", "{ctx}: the message is not complete or not first: {d:?}");
                        ensure!(d.matches("second line").count() == 1, "due", "{ctx}: the message is repeated");
                        sleep_ms(50);
                        c.data.clear();
                        ensure!(talks(&mut c, &sh, "u"), "talk", "{ctx}: the session does not work");
                        ensure!(!find(&c.data, b"second line"), "due", "{ctx}: the message is shown again");
                    }
                    cur = Some((name, c, sh));
                }
            }
        }
    }
    no_strays(&mode);
    set_output(format!("{n} {shows}").as_bytes());
    no_panics();
}

/// (what is in the file, what the pager is to be given, what a terminal is to show)
fn text(kind: &str) -> (Vec<u8>, String, String) {
    let same = |s: String| (s.clone().into_bytes(), s.clone(), s);
    match kind {
        "empty" => same(String::new()),
        "line" => same("just one line\n".into()),
        "nonl" => same("no newline at the end".into()),
        "lines" => same((0..200).map(|i| format!("line {i} of it\n")).collect()),
        "blank" => same("\n\n  indented\n\n\ttab\n\n".into()),
        "utf8" => same("gr\u{fc}\u{df}e \u{2603} \u{1f600}\n\u{4f60}\u{597d}\n".into()),
        "ansi" => {
            let s = "\x1b[31mred\x1b[0m plain\nnext\n".to_string();
            (s.clone().into_bytes(), "red plain\nnext\n".into(), s)
        }
        "16k" => same((0..1500).map(|i| format!("{i:09}\n")).collect::<String>() + &"x".repeat(3000) + "\n"),
        "200k" => same((0..20000).map(|i| format!("{i:09}\n")).collect()),
        "invalid" => (b"bad \xff\xfe bytes\n".to_vec(), String::new(), String::new()),
        _ => (vec![], String::new(), String::new()),
    }
}
fn content(mode: &str, kind: &str, prompt: bool) {
    let (raw, paged, dumped) = text(kind);
    match kind {
        "missing" => {}
        "dir" => {
            // the parts of a directory, in the order of their names
            std::fs::create_dir_all(cwd().join("motd.d")).unwrap();
            std::fs::write(cwd().join("motd.d/20-b"), "second\n").unwrap();
            std::fs::write(cwd().join("motd.d/10-a"), "first\n").unwrap();
        }
        _ => std::fs::write(motd_file(), &raw).unwrap(),
    }
    let (paged, dumped) = if kind == "dir" { ("first\nsecond\n".to_string(), "first\nsecond\n".to_string()) } else { (paged, dumped) };
    let mut cfg = mode_cfg(mode, "");
    if prompt {
        cfg = cfg.replace("prompt_prefix = \"\"\n", "");
    }
    let w = World::new(&cfg);
    rt().step_limit = BIG;
    let ctx = format!("{mode}, content {kind}");
    let (mut c, sh) = if prompt {
        let w2 = w.clone();
        let h = spawn(G_CLIENT, "attacher", move || w2.attach("a"));
        let sh = super::stream::wait_shell(&[]);
        super::stream::read_cmd(&sh, "startup");
        sh.out(b"SHPOOL_STARTUP_SENTINEL\r\n");
        super::stream::read_cmd(&sh, "prompt");
        let c = h.join().unwrap().0;
        (c, sh)
    } else {
        w.create("a")
    };
    if mode == "pager" {
        match pager_up(1500) {
            Some(pg) => {
                ensure!(kind != "invalid", "content", "{ctx}: shown nevertheless");
                let f = check_shown(&pg, &paged);
                use_pager(&mut c, &pg, "k");
                pg.exit(0);
                gone(&f, &ctx);
            }
            None => ensure!(kind == "invalid", "due", "{ctx}: the pager is not started"),
        }
        c.data.clear();
    }
    if prompt {
        sh.out(b"echo of the setup\r\nSHPOOL_PROMPT_SETUP_SENTINELprompt> ");
    }
    sh.input();
    ensure!(c.send(b"go"), "talk", "{ctx}: cannot type");
    sh.input_n(2, 1000);
    sh.out(b"<first>");
    sleep_ms(20);
    sh.out(b"<second>");
    ensure!(c.until(4000, |c| c.has(b"<second>")), "talk", "{ctx}: the session does not work: {} {:?}", esc(&c.data), c.bad);
    let d = String::from_utf8_lossy(&c.data).to_string();
    let at = d.find(if prompt { "prompt> " } else { "<first>" });
    ensure!(at.is_some(), "lost", "{ctx}: the output of the session is incomplete: {}", esc(&c.data));
    let before = d[..at.unwrap()].replace('\r', "");
    if mode == "dump" {
        let b = before.trim_end_matches('\n').trim_start_matches("\n");
        let want = dumped.trim_end_matches('\n').trim_start_matches("\n");
        ensure!(b == want, "content", "{ctx}: the terminal shows {:?} instead of {:?} before the session's output", esc(b.as_bytes()), esc(want.as_bytes()));
        ensure!(before.matches('\n').count() >= dumped.trim_end_matches('\n').matches('\n').count(), "content", "{ctx}: lines are missing");
        // each line starts at the left border
        let raw = d[..at.unwrap()].as_bytes();
        for (i, x) in raw.iter().enumerate() {
            if *x == b'\n' {
                ensure!(raw.get(i + 1) == Some(&b'\r') || i > 0 && raw[i - 1] == b'\r', "content", "{ctx}: a line feed without carriage return");
            }
        }
    } else {
        ensure!(before.trim().is_empty(), "content", "{ctx}: the terminal shows {before:?} before the session's output");
    }
    c.data.clear();
    ensure!(talks(&mut c, &sh, "t"), "talk", "{ctx}: the session does not work afterwards");
    no_strays(&ctx);
    set_output(d.len().to_string().as_bytes());
    no_panics();
}

/// the interval as configured
fn every(show: &str) {
    std::fs::write(motd_file(), MSG).unwrap();
    let valid = !matches!(show, "bogus" | "");
    let w = World::prepare(&mode_cfg("pager", "").replace("bin = \"mc-pager\"\n", &format!("bin = \"mc-pager\"\nshow_every = \"{show}\"\n")));
    rt().step_limit = BIG;
    w.spawn_daemon();
    let up = wait_until(3000, || w.up());
    for p in rt().panics.iter() {
        fail("panic", format!("interval {show:?}: {p}"));
    }
    if !up {
        ensure!(!valid, "daemon-start", "interval {show:?}: the daemon does not start");
        set_output(b"refused");
        return;
    }
    let (mut c, sh) = w.create("a");
    let gap = match show {
        "0s" => 0,
        "1s" => 1000,
        "1m" => 60_000,
        "01:30" => 90_000u64,
        _ => u64::MAX / 4,
    };
    let Some(pg) = pager_up(1500) else { fail("due", format!("interval {show:?}: the first attach shows nothing")) };
    let first = now_ms();
    check_shown(&pg, MSG);
    pg.exit(0);
    ensure!(talks(&mut c, &sh, "t"), "talk", "interval {show:?}: the session does not work");
    for off in [gap / 2, gap.saturating_sub(400), gap + 400] {
        let off = off.min(7200_000);
        let at = first + off;
        if now_ms() + 300 < at {
            drop(c);
            ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
            sleep_ms(at - now_ms());
        } else {
            drop(c);
            ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
        }
        let due = now_ms() >= first + gap;
        let a = attach_free(&w, "a", 2000);
        c = a.0;
        let pg = pager_up(if due { 1500 } else { 300 });
        if now_ms().abs_diff(first + gap) > 100 || due {
            ensure!(due == pg.is_some(), "due", "interval {show:?}: {} ms after it was shown it is {}shown again", now_ms() - first, if due { "not " } else { "" });
        }
        if let Some(pg) = pg {
            pg.exit(0);
        }
        c.data.clear();
        ensure!(talks(&mut c, &sh, "t"), "talk", "interval {show:?}: the session does not work");
        if due {
            break;
        }
    }
    no_panics();
}

fn pager(outcome: &str, around: &str, re: bool) {
    std::fs::write(motd_file(), MSG).unwrap();
    let ctx = format!("pager {outcome}, {around}{}", if re { ", reattaching" } else { "" });
    let w = World::new(&mode_cfg(if outcome == "missing" { "missing" } else { "pager" }, ""));
    rt().step_limit = BIG;
    let (mut ob, shb) = w.create("other");
    if let Some(pg) = pager_up(if outcome == "missing" { 200 } else { 1500 }) {
        pg.exit(0);
    }
    ensure!(talks(&mut ob, &shb, "b"), "talk", "{ctx}: session does not work");
    let mut sh0 = None;
    if re {
        let (mut c, sh) = w.create("a");
        if let Some(pg) = pager_up(if outcome == "missing" { 200 } else { 1500 }) {
            pg.exit(0);
        }
        ensure!(talks(&mut c, &sh, "b"), "talk", "{ctx}: session does not work");
        drop(c);
        ensure!(wait_detached(&w, "a", 3000), "detach", "{ctx}: stays attached");
        sh0 = Some(sh);
    }
    let ev = subscribe(&w);
    let ending = matches!(around, "vanishes" | "half" | "detach" | "msg-detach");
    explore(true);
    let (c, sh) = match sh0 {
        Some(sh) => {
            let (c, st) = w.attach("a");
            ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{ctx}: answered {st:?}");
            (c, sh)
        }
        None => w.create("a"),
    };
    // what the pager does, from the first moment on
    let out = outcome.to_string();
    let flood = move |pg: Sh| {
        for _ in 0..75 {
            if !pg.out(&[b'#'; 4096]) {
                return;
            }
        }
        pg.out(b"<end>");
    };
    let acts = spawn(G_CLIENT, "pager", move || {
        if out == "missing" {
            return None;
        }
        let pg = pager_up(1500)?;
        let f = shown(&pg).0;
        match out.as_str() {
            "exit0" => pg.exit(0),
            "exit1" => pg.exit(1),
            "signal" => pg.killed_by(11),
            "quiet" => {
                sleep_ms(1500);
                pg.exit(0)
            }
            "talkative" => {
                for i in 0..5 {
                    pg.out(format!("page {i}\r\n").as_bytes());
                    sleep_ms(40);
                }
                pg.exit(0)
            }
            "flood" => {
                flood(pg);
                pg.exit(0)
            }
            "closetty" => {
                rt::tty_close(pg.tty());
                sleep_ms(2500);
            }
            "late" => {
                sleep_ms(700);
                pg.out(b"last page\r\n");
                pg.exit(0);
            }
            // never ends by itself
            _ => {
                sleep_ms(3000);
            }
        }
        Some((pg, f))
    });
    let mut c = Some(c);
    let mut size = (24, 80);
    let mut h = None;
    let mut killed = false;
    match around {
        "types" => {
            let s = c.as_ref().unwrap().s.try_clone().unwrap();
            h = Some(inject("type", 800, move || {
                use std::io::Write;
                let _ = (&s).write_all(b"qqq");
            }));
        }
        "resizes" | "shrinks" => {
            let w2 = w.clone();
            let to = if around == "resizes" { (50, 132) } else { (0, 0) };
            h = Some(inject("resize", 800, move || {
                let r = w2.resize("a", to.0, to.1);
                ensure!(r.is_ok(), "resize-unanswered", "a resize request gets no answer: {r:?}");
            }));
            if around == "resizes" {
                size = to;
            }
        }
        "twice" => {
            let w2 = w.clone();
            h = Some(inject("resize", 800, move || {
                w2.resize("a", 50, 132).ok();
                w2.resize("a", 20, 33).ok();
            }));
            size = (20, 33);
        }
        "vanishes" => {
            let x = c.take();
            h = Some(inject("vanish", 800, move || drop(x)));
        }
        "half" => {
            let s = c.as_ref().unwrap().s.try_clone().unwrap();
            h = Some(inject("half", 800, move || {
                s.shutdown(std::net::Shutdown::Write).ok();
            }));
        }
        "kill" => {
            let w2 = w.clone();
            killed = true;
            h = Some(inject("kill", 800, move || {
                let r = w2.kill(&["a"]);
                ensure!(r.as_ref().is_ok_and(|r| r.not_found_sessions.is_empty()), "kill-unanswered", "a kill request is answered {r:?}");
            }));
        }
        "detach" => {
            let w2 = w.clone();
            h = Some(inject("detach", 800, move || {
                // an attach takes a moment, but then the terminal has to go
                for _ in 0..8 {
                    match w2.detach(&["a"]) {
                        Err(e) => fail("detach-unanswered", e),
                        Ok(r) if r.not_attached_sessions.is_empty() && r.not_found_sessions.is_empty() => return,
                        Ok(_) => sleep_ms(100),
                    }
                }
                fail("detach-refused", "a session whose terminal shows the pager cannot be detached");
            }));
        }
        "msg-detach" => {
            let w2 = w.clone();
            h = Some(inject("detach", 800, move || {
                sleep_ms(300);
                let r: Result<SessionMessageReply, String> = w2.request(&ConnectHeader::SessionMessage { session_name: "a".into(), payload: Payload::Detach }, 10);
                ensure!(r.is_ok(), "detach-unanswered", "a detach message gets no answer: {r:?}");
            }));
        }
        "again" => {
            let w2 = w.clone();
            h = Some(inject("attach", 800, move || match w2.try_attach(w2.hdr("a")) {
                Ok((_, AttachStatus::Busy)) => {}
                r => fail("not-refused", format!("a second attach to a session in the pager is answered {:?}", r.map(|x| x.1))),
            }));
        }
        "shell-exits" => {
            killed = true;
            h = Some(inject("exit", 800, move || sh.exit(5)));
        }
        "shell-talks" => {
            h = Some(inject("shell", 800, move || {
                sh.out_now(b"<from the shell>");
            }));
        }
        "vars" => {
            let w2 = w.clone();
            h = Some(inject("var", 800, move || {
                let r = w2.set_var("v", Some("1"));
                ensure!(r.is_ok(), "var-unanswered", "setting a variable gets no answer: {r:?}");
            }));
        }
        _ => {}
    }
    // the daemon serves everyone else meanwhile
    if around != "noread" {
        if let Some(c) = c.as_mut() {
            c.drain_ms(900);
        }
    }
    sleep_ms(900);
    explore(false);
    ensure!(talks(&mut ob, &shb, "c"), "disturbed", "{ctx}: another session is disturbed");
    let l = w.list_ok();
    if around == "noread" {
        // still in the pager or past it, in any case attached
        ensure!(status(&w, "a") == Some(Status::Attached), "list", "{ctx}: listed as {l:?}");
    }
    if let Some(h) = h {
        h.join().unwrap();
    }
    if outcome == "stubborn" && !ending {
        ensure!(killed || status(&w, "a") == Some(Status::Attached), "list", "{ctx}: listed as {l:?} while the pager runs");
        let Some(pg) = pagers().pop() else { fail("pager-gone", format!("{ctx}: the pager was ended")) };
        pg.input();
        if around != "noread" {
            use_pager(c.as_mut().unwrap(), &pg, "still");
            if (size.0, size.1) != (24, 80) {
                ensure!(pg.winsz() == size, "size", "{ctx}: the terminal of the pager is {:?} instead of {size:?}", pg.winsz());
            }
        }
        pg.exit(0);
    }
    if let Some(c) = c.as_mut() {
        c.drain_ms(300);
    }
    let act = acts.join().unwrap();
    if let Some(c) = c.as_mut() {
        c.drain_ms(300);
    }
    if outcome == "missing" {
        sleep_ms(300);
    } else if act.is_none() {
        ensure!(ending || killed, "due", "{ctx}: the pager is not started");
    }
    no_strays(&ctx);
    if let Some((_, f)) = &act {
        gone(f, &ctx);
    }
    match around {
        "kill" | "shell-exits" => {
            let c = c.as_mut().unwrap();
            ensure!(c.wait_end(4000), "not-disconnected", "{ctx}: the terminal stays connected after the session has ended");
            if around == "shell-exits" {
                ensure!(c.exit == Some(5), "status", "{ctx}: the terminal gets status {:?}", c.exit);
            }
            sleep_ms(300);
            ensure!(status(&w, "a").is_none(), "list", "{ctx}: the ended session is listed: {:?}", w.list_ok());
        }
        "vanishes" | "half" | "detach" | "msg-detach" => {
            if let Some(c) = c.as_mut() {
                if around == "msg-detach" && matches!(outcome, "exit0" | "exit1" | "signal" | "missing") {
                    // may have come too early for either
                } else if around != "half" {
                    ensure!(c.wait_end(3000), "not-disconnected", "{ctx}: the terminal stays connected");
                    ensure!(c.exit == Some(0), "status", "{ctx}: the terminal gets status {:?}", c.exit);
                } else {
                    c.wait_end(3000);
                }
            }
            if !(around == "msg-detach" && !c.as_ref().unwrap().ended()) {
                ensure!(wait_detached(&w, "a", 3500), "still-attached", "{ctx}: the session stays attached: {:?}", w.list_ok());
            }
        }
        _ => {
            let c = c.as_mut().unwrap();
            if around == "noread" {
                c.drain_ms(1500);
            }
            ensure!(!c.ended(), "dropped", "{ctx}: the terminal is disconnected (status {:?} {:?})", c.exit, c.bad);
            if outcome == "flood" {
                ensure!(c.until(3000, |c| c.has(b"<end>")), "lost", "{ctx}: the output of the pager is incomplete ({} bytes)", c.data.len());
                ensure!(c.data.iter().filter(|x| **x == b'#').count() == 75 * 4096, "lost", "{ctx}: the output of the pager is incomplete");
            }
            if outcome == "late" {
                ensure!(c.has(b"last page"), "lost", "{ctx}: the last output of the pager is lost");
            }
            if around == "shell-talks" {
                // restore mode "simple": may be gone, but never inside the pager's screen
                if outcome == "late" {
                    let d = String::from_utf8_lossy(&c.data).to_string();
                    if let (Some(a), Some(b)) = (d.find("<from the shell>"), d.find("last page")) {
                        ensure!(a > b, "mixed", "{ctx}: output of the session in the pager: {d:?}");
                    }
                }
            }
            c.data.clear();
            sh.input();
            ensure!(talks(c, &sh, "after"), "talk", "{ctx}: the session does not work after the pager");
            if around != "shrinks" {
                ensure!(wait_until(800, || sh.winsz() == size), "size", "{ctx}: the terminal of the shell is {:?} instead of {size:?}", sh.winsz());
            }
            ensure!(status(&w, "a") == Some(Status::Attached), "list", "{ctx}: listed as {:?}", w.list_ok());
            if around == "vars" {
                ensure!(w.get_vars() == Ok(vec![("v".into(), "1".into())]), "vars", "{ctx}: the variable is not set");
            }
        }
    }
    if !killed {
        // and it can be attached again, with the message
        drop(c.take());
        ensure!(wait_detached(&w, "a", 3500), "still-attached", "{ctx}: the session stays attached: {:?}", w.list_ok());
        let (mut c, st) = attach_free(&w, "a", 1000);
        ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{ctx}: attaching again is answered {st:?}");
        if outcome != "missing" {
            let Some(pg) = pager_up(1500) else { fail("due", format!("{ctx}: attaching again shows nothing")) };
            let f = check_shown(&pg, MSG);
            use_pager(&mut c, &pg, "2");
            pg.exit(0);
            gone(&f, &ctx);
        }
        sh.input();
        c.data.clear();
        ensure!(talks(&mut c, &sh, "end"), "talk", "{ctx}: the session does not work when attached again");
    }
    let k = ev.kinds();
    set_output(format!("{:?}", k).as_bytes());
    let (mut att, mut bad) = (false, false);
    for x in k.iter() {
        match x.as_str() {
            "attached" => {
                bad |= att;
                att = true;
            }
            "detached" => {
                bad |= !att;
                att = false;
            }
            _ => {}
        }
    }
    ensure!(!bad, "events", "{ctx}: the events are {k:?}");
    no_strays(&ctx);
    no_panics();
}

/// the real attach command looking at the message
fn real(around: &str) {
    std::fs::write(motd_file(), MSG).unwrap();
    let w = World::new(&mode_cfg("pager", ""));
    rt().step_limit = BIG;
    let mut t = Term::new(0);
    explore(true);
    let ctx = format!("real client, {around}");
    let args: &[&str] = if around == "bg" { &["attach", "-b", "a"] } else { &["attach", "a"] };
    let c = start(&w, G_REALCLIENT, args);
    let Some(pg) = pager_up(3000) else { fail("due", format!("{ctx}: the pager is not started: {}", stderr_text())) };
    let f = check_shown(&pg, MSG);
    if around == "bg" {
        // the client goes away at once
        ensure!(c.wait(4000) == Some(0), "bg", "{ctx}: does not end: {:?} {}", c.status(), stderr_text());
        explore(false);
        ensure!(wait_detached(&w, "a", 4000), "still-attached", "{ctx}: stays attached");
        no_strays(&ctx);
        gone(&f, &ctx);
        ensure!(real_shells().len() == 1, "shell", "{ctx}: {} shells", real_shells().len());
        no_panics();
        return;
    }
    pg.out(b"page one");
    ensure!(wait_until(1500, || {
        t.pull();
        find(&t.got, b"page one")
    }), "pager-output", "{ctx}: the output of the pager does not reach the terminal");
    let mut rival = None;
    match around {
        "types" => {
            t.type_now(b"/search");
            ensure!(pg.input_n(7, 1000) == b"/search", "pager-input", "{ctx}: the pager does not get the keys");
        }
        "resizes" => {
            rt::winch(44, 111);
            ensure!(wait_until(2000, || pg.winsz() == (44, 111)), "size", "{ctx}: the terminal of the pager is {:?}", pg.winsz());
        }
        "force" => {
            let w2 = w.clone();
            rival = Some(spawn(G_CLIENT, "rival", move || {
                let r = w2.detach(&["a"]);
                ensure!(r.is_ok(), "detach-unanswered", "detach is not answered: {r:?}");
                attach_free(&w2, "a", 2000)
            }));
        }
        "killed" => c.sigkill(),
        "detach-key" => {
            t.type_now(b"\0\x11");
            sleep_ms(200);
            ensure!(pg.input() == b"\0\x11", "pager-input", "{ctx}: the pager does not get the keys");
        }
        _ => {}
    }
    let rival = rival.map(|h| h.join().unwrap());
    if around == "killed" || around == "force" {
        if let Some((mut rc, _)) = rival {
            ensure!(c.wait(2000) == Some(0), "not-disconnected", "{ctx}: the earlier client: {:?}", c.status());
            ensure!(wait_until(3000, || pagers().iter().any(|x| *x != pg)), "due", "{ctx}: nothing is shown to the new terminal");
            let Some(p2) = pagers().into_iter().find(|x| *x != pg) else { unreachable!() };
            explore(false);
            use_pager(&mut rc, &p2, "n");
            p2.exit(0);
            let sh = real_shells()[0];
            ensure!(talks(&mut rc, &sh, "r"), "talk", "{ctx}: the session does not work for the new terminal");
        }
        explore(false);
        if around == "killed" {
            ensure!(wait_detached(&w, "a", 4000), "still-attached", "{ctx}: stays attached");
        }
        no_strays(&ctx);
        gone(&f, &ctx);
        no_panics();
        return;
    }
    sleep_ms(100);
    pg.exit(0);
    wait_until(2000, || pagers().is_empty());
    sleep_ms(300);
    explore(false);
    gone(&f, &ctx);
    let sh = real_shells()[0];
    ensure!(c.status().is_none(), "ended", "{ctx}: the attach command ended with {:?}: {}", c.status(), stderr_text());
    t.take();
    ensure!(term_talks(&mut t, &sh, "go", 2000), "talk", "{ctx}: the session does not work");
    if around == "resizes" {
        ensure!(wait_until(1000, || sh.winsz() == (44, 111)), "size", "{ctx}: the terminal of the shell is {:?}", sh.winsz());
        rt::winch(20, 30);
        ensure!(wait_until(2000, || sh.winsz() == (20, 30)), "size", "{ctx}: the terminal of the shell is {:?}", sh.winsz());
    }
    sh.exit(9);
    ensure!(c.wait(3000) == Some(9), "status", "{ctx}: the attach command ends with {:?}", c.status());
    no_strays(&ctx);
    no_panics();
}

const MODES: [&str; 7] = ["none", "never", "dump", "pager", "10s", "1s", "bogus"];
/// the mode changes while the daemon runs and between the parts of an attach
fn live(from: usize) {
    std::fs::write(motd_file(), MSG).unwrap();
    rt::REAL_INOTIFY.store(true, std::sync::atomic::Ordering::Relaxed);
    let w = World::new(&mode_cfg(MODES[from], ""));
    rt().step_limit = BIG;
    let mut n = 0;
    let mut last: Option<u64> = None;
    let mut mode = MODES[from];
    let due = |mode: &str, last: Option<u64>| match mode {
        "none" | "never" | "dump" | "bogus" => false,
        "pager" => true,
        every => last.is_none_or(|l| {
            let at = l + every.trim_end_matches('s').parse::<u64>().unwrap() * 1000;
            // never decide this close to the boundary
            if now_ms().abs_diff(at) < 300 {
                sleep_ms(700);
            }
            now_ms() >= at
        }),
    };
    for to in MODES.into_iter().cycle().skip(from + 1).take(2 * MODES.len() + 2) {
        n += 1;
        let name = format!("s{n}");
        // a session without any output so far, created under the old mode
        let want = due(mode, last);
        let (mut c, sh) = w.create(&name);
        let mut first = pager_up(if want { 1500 } else { 300 });
        ensure!(first.is_some() == want, "due", "started in mode {}, now {mode}: the pager is {}started (shown before at {last:?})", MODES[from], if want { "not " } else { "" });
        if let Some(pg) = first.take() {
            last = Some(now_ms());
            pg.exit(0);
        }
        std::fs::write(w.dir.join("new.toml"), mode_cfg(to, "")).unwrap();
        std::fs::rename(w.dir.join("new.toml"), &w.cfg).unwrap();
        sleep_ms(2000);
        let ctx = format!("started in mode {}, mode {mode} changed to {to} with session {n} open", MODES[from]);
        mode = to;
        ensure!(talks(&mut c, &sh, "t"), "talk", "{ctx}: the session which was open does not work");
        let name2 = format!("t{n}");
        let want = due(to, last);
        let (mut c2, sh2) = w.create(&name2);
        let pg = pager_up(if want { 1500 } else { 300 });
        ensure!(pg.is_some() == want, "due", "{ctx}: {} pager is started (shown before at {last:?}, now {})", if want { "no" } else { "a" }, now_ms());
        if let Some(pg) = pg {
            last = Some(now_ms());
            check_shown(&pg, MSG);
            pg.exit(0);
        }
        c2.data.clear();
        ensure!(talks(&mut c2, &sh2, "t"), "talk", "{ctx}: the next session does not work");
        let d = find(&c2.data, b"second line");
        ensure!(d == (to == "dump"), "due", "{ctx}: the message is {}shown inline", if d { "" } else { "not " });
        for (mut c, sh, name) in [(c, sh, name), (c2, sh2, name2)] {
            sh.exit(0);
            ensure!(c.wait_end(3000), "end", "{ctx}: {name} does not end");
        }
    }
    no_strays("live");
    no_panics();
}

/// two terminals look at the message at the same time
fn several() {
    std::fs::write(motd_file(), MSG).unwrap();
    let w = World::new(&mode_cfg("pager", ""));
    rt().step_limit = BIG;
    explore(true);
    let mut hs = vec![];
    for i in 0..2 {
        let w = w.clone();
        hs.push(spawn(G_CLIENT, &format!("client{i}"), move || w.try_attach(w.hdr(&format!("s{i}")))));
    }
    let mut cs: Vec<Client> = hs
        .into_iter()
        .map(|h| match h.join().unwrap() {
            Ok((c, AttachStatus::Created { .. })) => c,
            Ok((_, st)) => fail("attach", format!("answered {st:?}")),
            Err(e) => fail("attach-unanswered", e),
        })
        .collect();
    ensure!(wait_until(2000, || pagers().len() == 2), "due", "{} pagers for two terminals", pagers().len());
    let ps = pagers();
    let files: Vec<_> = ps.iter().map(|p| check_shown(p, MSG)).collect();
    ensure!(files[0] != files[1], "shared-file", "two pagers are given the same file");
    for p in &ps {
        p.out(format!("pager {};", p.pid).as_bytes());
    }
    let w2 = w.clone();
    let r = w2.resize("s0", 30, 70);
    ensure!(matches!(r, Ok(SessionMessageReply::Resize(_))), "resize", "answered {r:?}");
    ps[0].exit(0);
    sleep_ms(300);
    explore(false);
    ensure!(!files[0].exists(), "litter", "the file stays");
    ensure!(ps[1].alive() && files[1].exists(), "crossed", "the other pager is disturbed");
    ps[1].exit(0);
    sleep_ms(300);
    let shells = real_shells();
    let mut seen = vec![];
    for (i, c) in cs.iter_mut().enumerate() {
        c.drain_ms(50);
        let d = String::from_utf8_lossy(&c.data).to_string();
        ensure!(d.matches("pager ").count() == 1, "crossed", "terminal {i} shows {d:?}");
        match super::attach::reached(c, &format!("c{i}")) {
            Some(sh) => {
                ensure!(!seen.contains(&sh), "crossed", "two terminals reach one shell");
                let want = if i == 0 { (30, 70) } else { (24, 80) };
                ensure!(sh.winsz() == want, "size", "terminal {i}: {:?} instead of {want:?}", sh.winsz());
                seen.push(sh);
            }
            None => fail("talk", format!("terminal {i} reaches no shell")),
        }
    }
    ensure!(shells.len() == 2, "shells", "{} shells", shells.len());
    no_strays("several");
    no_panics();
}
