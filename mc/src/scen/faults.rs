//! Running out of resources (P30): calls of the daemon which need a
//! descriptor, a thread, a process or disk space fail, from the k-th on, once
//! or for as long as the request takes; for every k.
use super::attach::talks;
use super::real::wait_slow;
use super::sess::{cfg_mode, wait_detached};
use super::*;
use crate::rt;
use crate::wire::*;

const OPS: [(&str, u64); 17] = [
    ("new", 48), ("new-ttl", 50), ("new-setup", 60), ("new-pager", 70), ("new-dump", 56), ("again", 40), ("again-pager", 56), ("stale", 56),
    ("detach", 24), ("kill", 24), ("list", 16), ("var", 16), ("resize", 16), ("exit", 12), ("hangup", 12), ("key", 12), ("events", 16),
];

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    if prop != "P30" {
        return;
    }
    for (op, n) in OPS {
        for k in 1..=n {
            for len in if deep { &[1u64, 2, 3, 5, 8, u64::MAX][..] } else { &[1, u64::MAX] } {
                let mut j = job(prop, "faults.op", json!({"op": op, "k": k, "len": len}), o_none(), 0);
                j.step_limit = 4_000_000;
                v.push(j);
            }
        }
        // one kind of thing is used up, from the k-th need of it on
        for class in [1u64, 2, 4, 8] {
            for k in 1..=if class == 4 { n / 2 } else { 12 } {
                for len in if deep { &[1u64, 2, u64::MAX][..] } else { &[u64::MAX] } {
                    let mut j = job(prop, "faults.op", json!({"op": op, "k": k, "len": len, "class": class}), o_none(), 0);
                    j.step_limit = 4_000_000;
                    v.push(j);
                }
            }
        }
    }
}
pub fn run(f: &str, p: &Value) {
    match f {
        "op" => op(p["op"].as_str().unwrap(), p["k"].as_u64().unwrap(), p["len"].as_u64().unwrap(), u(p, "class")),
        _ => panic!("unknown scenario faults.{f}"),
    }
}
fn timed_out(e: &str) -> bool {
    e.contains("WouldBlock") || e.contains("TimedOut")
}
/// plays the part of pagers and of shells that are asked to set up a prompt
fn bot(setup: bool, not: Vec<i32>) {
    spawn(G_CLIENT, "bot", move || {
        let mut seen = not;
        let mut acc: std::collections::BTreeMap<i32, (Vec<u8>, u32)> = Default::default();
        for _ in 0..5000 {
            for sh in live_shells() {
                if seen.contains(&sh.pid) {
                    continue;
                }
                if super::motd::is_pager(&sh) {
                    seen.push(sh.pid);
                    sh.out(b"the message");
                    sh.exit(0);
                } else if setup {
                    let a = acc.entry(sh.pid).or_default();
                    a.0.extend(sh.input());
                    let pat: &[u8] = if a.1 == 0 { b"=startup " } else { b"=prompt " };
                    if find(&a.0, pat) && a.0.ends_with(b"daemon\n") {
                        let mut o = std::mem::take(&mut a.0);
                        o.extend_from_slice(if a.1 == 0 { super::stream::S_START } else { super::stream::S_PROMPT }.as_bytes());
                        o.extend_from_slice(b"\r\n");
                        sh.out(&o);
                        a.1 += 1;
                        if a.1 == 2 {
                            seen.push(sh.pid);
                        }
                    }
                }
            }
            sleep_ms(20);
        }
    });
}
fn op(op: &str, k: u64, len: u64, class: u64) {
    let cfg = match op {
        "new-setup" => super::stream::cfg_prompt().to_string(),
        "new-pager" | "again-pager" => super::motd::mode_cfg("pager", ""),
        "new-dump" => super::motd::mode_cfg("dump", ""),
        _ => cfg_mode("simple"),
    };
    std::fs::write(super::motd::motd_file(), "message of the day\n").unwrap();
    let setup = op == "new-setup";
    let pager = op.ends_with("-pager");
    let w = World::new(&cfg);
    if setup || pager {
        bot(setup, vec![]);
    }
    // one attached session that has nothing to do with it, one detached, one
    // for the request
    let open = |name: &str| {
        let (mut c, sh) = w.create(name);
        sleep_ms(if setup || pager { 800 } else { 20 });
        c.drain_ms(2);
        ensure!(wait_slow(3000, || talks(&mut c, &sh, "t")), "talk", "session does not work");
        (c, sh)
    };
    let (mut by, bsh) = open("by");
    let (c1, sh1) = open("s1");
    drop(c1);
    ensure!(wait_detached(&w, "s1", 5000), "detach", "stays attached");
    let (mut c2, sh2) = open("s2");
    if op == "stale" {
        drop(std::mem::replace(&mut c2, open("s3").0));
        ensure!(wait_detached(&w, "s2", 5000), "detach", "stays attached");
        sh2.exit(3);
        sleep_ms(1000);
    }
    sleep_ms(700);
    let forks = all_shells().len();
    rt().fault_at = k;
    rt().fault_len = len;
    rt().fault_class = class;
    rt().fault_count = 0;
    let t0 = now_ms();
    // unanswered for long?
    let mut outcome = String::new();
    let mut got: Option<Client> = None;
    let mut att = |name: &str, ttl: Option<u64>| -> String {
        let mut h = w.hdr(name);
        h.ttl_secs = ttl;
        match w.try_attach(h) {
            Ok((c, st)) => {
                got = Some(c);
                match st {
                    AttachStatus::Attached { .. } => "attached".into(),
                    AttachStatus::Created { .. } => "created".into(),
                    AttachStatus::Busy => "busy".into(),
                    AttachStatus::Forbidden(_) => "forbidden".into(),
                    AttachStatus::UnexpectedError(_) => "error".into(),
                }
            }
            Err(e) if timed_out(&e) => "unanswered".into(),
            Err(_) => "closed".into(),
        }
    };
    fn ans<T: std::fmt::Debug>(r: Result<T, String>) -> String {
        match r {
            Ok(_) => "answered".into(),
            Err(e) if timed_out(&e) => "unanswered".into(),
            Err(_) => "closed".into(),
        }
    }
    let ctx = |o: &str| format!("{op}, from call {k} (class {class}) on {} fail(s) ({:?}): {o}", if len == u64::MAX { "all".to_string() } else { len.to_string() }, rt().faults.iter().take(6).collect::<Vec<_>>());
    // a lasting shortage ends after a while, else nobody would be answered
    if len == u64::MAX {
        spawn(G_CLIENT, "relief", || {
            sleep_ms(3000);
            rt().fault_at = 0;
        });
    }
    match op {
        "new" | "new-setup" | "new-pager" | "new-dump" => outcome = att("n", None),
        "new-ttl" => outcome = att("n", Some(6)),
        "again" | "again-pager" => outcome = att("s1", None),
        "stale" => outcome = att("s2", None),
        "detach" => outcome = ans(w.detach(&["s2"])),
        "kill" => outcome = ans(w.kill(&["s2"])),
        "list" => outcome = ans(w.list()),
        "var" => outcome = ans(w.set_var("a", Some("b"))),
        "resize" => outcome = ans(w.resize("s2", 30, 90)),
        "exit" => {
            sh2.out(b"last words;");
            sh2.exit(7);
            ensure!(c2.wait_end(8000), "exit-unseen", "{}", ctx("the client of the exited shell is not let go"));
            ensure!(c2.exit == Some(7) && c2.has(b"last words;"), "exit-status", "{}", ctx(&format!("the client gets {:?}", c2.exit)));
        }
        "hangup" => drop(std::mem::replace(&mut c2, Client { s: std::os::unix::net::UnixStream::pair().unwrap().0, exit: None, eof: false, data: vec![], switches: vec![], beats: 0, bad: None })),
        "key" => {
            c2.send(b"\x00\x11");
            ensure!(c2.wait_end(8000), "key", "{}", ctx("the binding does not detach"));
        }
        "events" => {
            let r = std::os::unix::net::UnixStream::connect(events_sock(&w)).map(hoist);
            sleep_ms(500);
            drop(r);
        }
        _ => unreachable!(),
    }
    ensure!(outcome != "unanswered", "unanswered", "{}", ctx("the request is left waiting"));
    let took = now_ms() - t0;
    ensure!(took < 9000, "slow", "{}", ctx(&format!("answered after {took} ms")));
    if let (Some(c), "attached" | "created") = (got.as_mut(), outcome.as_str()) {
        // what was promised works, or the connection ends
        let n = if op == "stale" { "s2" } else if op.starts_with("new") { "n" } else { "s1" };
        sleep_ms(1000);
        c.drain_ms(5);
        if !c.ended() {
            let ok = wait_slow(4000, || {
                c.drain_ms(1);
                c.ended() || super::attach::reached(c, "q").is_some()
            });
            ensure!(ok, "half-attached", "{}", ctx(&format!("the client is told '{outcome}' but does not reach {n}")));
        }
    }
    let n = rt().fault_count;
    sleep_ms(if len == u64::MAX { 3500 } else { 500 });
    rt().fault_at = 0;
    // the shortage is over
    ensure!(w.list().is_ok(), "daemon-gone", "{}", ctx("the daemon answers no more"));
    ensure!(bsh.alive() && !by.ended() && { by.drain_ms(5); talks(&mut by, &bsh, "w") }, "bystander", "{}", ctx("another attached session stops working"));
    ensure!(sh1.alive(), "lost", "{}", ctx("the shell of a detached session is gone"));
    drop(got.take());
    if op != "stale" {
        drop(c2);
        ensure!(wait_slow(4000, || w.list_ok().iter().all(|s| s.name != "s2" || s.status == Status::Disconnected)), "detach", "{}", ctx("the session stays attached without its client"));
    }
    let mut again = |name: &str| {
        let mut last = String::new();
        let ok = wait_slow(4000, || match w.try_attach(w.hdr(name)) {
            Ok((mut c, AttachStatus::Attached { .. } | AttachStatus::Created { .. })) => {
                sleep_ms(if pager || setup { 800 } else { 100 });
                c.drain_ms(2);
                let r = super::attach::reached(&mut c, "z").is_some();
                last = format!("no shell reached, ended {}", c.ended());
                r
            }
            Ok((_, st)) => {
                last = format!("{st:?}");
                false
            }
            Err(e) => {
                last = e;
                false
            }
        });
        ensure!(ok, "not-usable", "{}", ctx(&format!("afterwards '{name}' cannot be attached: {last}")));
    };
    again("s1");
    again("s2");
    again("n");
    if op == "hangup" || op == "detach" || op == "key" {
        ensure!(sh2.alive(), "lost", "{}", ctx("the shell of the detached session is gone"));
    }
    if op == "new-ttl" && outcome == "created" {
        sleep_ms(5000);
    }
    // nothing half-made stays
    let ok = wait_slow(4000, || {
        let l = w.list_ok();
        l.len() == live_shells().iter().filter(|s| !super::motd::is_pager(s)).count() && l.iter().all(|s| s.name == "by" || s.status == Status::Disconnected || s.name == "s3")
    });
    ensure!(ok, "left-over", "{}", ctx(&format!("{} live shells for sessions {:?}", live_shells().len(), w.list_ok().iter().map(|s| (s.name.clone(), format!("{:?}", s.status))).collect::<Vec<_>>())));
    let _ = forks;
    ensure!(wait_slow(3000, || rt().procs.values().all(|p| p.status.is_none() || p.reaped)), "zombie", "{}", ctx("an ended process is not waited for"));
    for (t, code) in rt().exits.iter() {
        ensure!(rt().thr[*t].group != G_DAEMON, "daemon-exit", "{}", ctx(&format!("the daemon exits with status {code}")));
    }
    rt::set_output(format!("{op} {class} {outcome} {} {:?}", n >= k, rt().faults.first()).as_bytes());
}
