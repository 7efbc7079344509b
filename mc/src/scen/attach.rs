//! Attaching: exclusivity, continuity, vanished clients (P01, P02, P27).
use super::*;
use crate::wire::*;

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    let b = if deep { 2 } else { 1 };
    match prop {
        "P01" => {
            for (st, n) in [("new", 2), ("detached", 2), ("attached", 2), ("exiting", 2), ("stale", 2), ("killing", 1), ("two", 2)] {
                v.push(job(prop, "attach.race", json!({"st": st, "n": n}), o_all(), b));
            }
            for st in ["new", "detached"] {
                v.push(job(prop, "attach.race", json!({"st": st, "n": 3}), o_all(), 1));
            }
        }
        _ => {}
    }
}

pub fn run(f: &str, p: &Value) {
    match f {
        "race" => race(&s(p, "st"), u(p, "n") as usize),
        _ => panic!("unknown {f}"),
    }
}

/// token exchange in both directions proves a client talks to a given shell
pub fn talks(c: &mut Client, sh: &Sh, tok: &str) -> bool {
    let o = format!("out-{tok};");
    let i = format!("in-{tok};");
    // input first: once the shell sees it the attachment is in place
    if !sh.alive() || !c.send(i.as_bytes()) {
        return false;
    }
    let got = sh.input_n(i.len(), 3000);
    find(&got, i.as_bytes()) && sh.out(o.as_bytes()) && c.until(3000, |c| c.has(o.as_bytes()))
}
/// which live shell does this attached client reach?
pub fn reached(c: &mut Client, tok: &str) -> Option<Sh> {
    c.drain_ms(1);
    let i = format!("in-{tok};");
    if !c.send(i.as_bytes()) {
        return None;
    }
    let end = now_ms() + 3000;
    let mut acc: std::collections::BTreeMap<i32, Vec<u8>> = Default::default();
    while now_ms() < end {
        for sh in live_shells() {
            let a = acc.entry(sh.pid).or_default();
            a.extend(sh.input());
            if find(a, i.as_bytes()) {
                let o = format!("out-{tok};");
                sh.out(o.as_bytes());
                ensure!(c.until(3000, |c| c.has(o.as_bytes())), "no-output", "a client whose input reaches shell {} does not get its output", sh.pid);
                return Some(sh);
            }
        }
        sleep_ms(5);
    }
    None
}
/// attach until the answer is not Busy
pub fn attach_free(w: &World, name: &str, ms: u64) -> (Client, AttachStatus) {
    let end = now_ms() + ms;
    loop {
        let (c, st) = w.attach(name);
        if !matches!(st, AttachStatus::Busy) {
            return (c, st);
        }
        ensure!(now_ms() < end, "still-busy", "session '{name}' still reported busy after {ms}ms although no terminal is attached");
        sleep_ms(20);
    }
}

fn race(st: &str, n: usize) {
    let w = World::new(BASE_CFG);
    let mut holder = None;
    let mut old = None;
    match st {
        "new" => {}
        "two" => {}
        "detached" | "stale" => {
            let (c, sh) = w.create("a");
            w.detach(&["a"]).unwrap();
            drop(c);
            sleep_ms(400);
            old = Some(sh);
            if st == "stale" {
                sh.exit(0);
                sleep_ms(200);
            }
        }
        "attached" | "exiting" | "killing" => {
            let (mut c, sh) = w.create("a");
            ensure!(talks(&mut c, &sh, "h"), "first-attach", "first attach does not work");
            old = Some(sh);
            holder = Some(c);
        }
        _ => panic!(),
    }
    explore(true);
    let mut hs = vec![];
    for i in 0..n {
        let w = w.clone();
        let name = if st == "two" && i == 1 { "b" } else { "a" };
        hs.push(spawn(G_CLIENT, &format!("client{i}"), move || w.try_attach(w.hdr(name))));
    }
    match st {
        "exiting" => old.unwrap().exit(3),
        "killing" => {
            let r = w.kill(&["a"]);
            ensure!(r.is_ok(), "kill-unanswered", "kill got no reply: {r:?}");
        }
        _ => {}
    }
    let mut rs = vec![];
    for h in hs {
        rs.push(h.join().unwrap());
    }
    explore(false);
    let mut created = 0;
    let mut attached = 0;
    let mut busy = 0;
    let mut winners = vec![];
    for (i, r) in rs.into_iter().enumerate() {
        match r {
            Ok((c, AttachStatus::Created { .. })) => {
                created += 1;
                winners.push((i, c));
            }
            Ok((c, AttachStatus::Attached { .. })) => {
                attached += 1;
                winners.push((i, c));
            }
            Ok((_, AttachStatus::Busy)) => busy += 1,
            Ok((_, x)) => fail("attach-error", format!("attach answered {x:?}")),
            Err(e) => fail("attach-unanswered", format!("attach request {i} got no reply: {e}")),
        }
    }
    set_output(format!("{created} {attached} {busy}").as_bytes());
    match st {
        "new" | "stale" => {
            ensure!(created == 1 && attached == 0, "winners", "{n} concurrent attaches to a {st} session: {created} created, {attached} attached, {busy} busy");
        }
        "two" => ensure!(created == 2, "winners", "attaches to two names: {created} created {busy} busy"),
        "detached" => ensure!(created == 0 && attached == 1, "winners", "{n} concurrent attaches to a detached session: {created} created, {attached} attached, {busy} busy"),
        "attached" => ensure!(busy == n, "winners", "{n} attaches to an attached session: {created} created, {attached} attached, {busy} busy"),
        "exiting" | "killing" => ensure!(created <= 1 && attached <= 1, "winners", "{created} created {attached} attached"),
        _ => {}
    }
    if st == "attached" {
        let mut c = holder.take().unwrap();
        ensure!(talks(&mut c, &old.unwrap(), "k"), "holder-disturbed", "a refused attach disturbed the attached terminal");
        winners.push((99, c));
    }
    sleep_ms(1500);
    // quiescent: each winner that is still connected talks to its own shell
    let mut shells = vec![];
    let mut nconn = 0;
    for (i, c) in winners.iter_mut() {
        c.drain_ms(5);
        if c.ended() {
            continue;
        }
        nconn += 1;
        match reached(c, &format!("w{i}")) {
            Some(sh) => {
                ensure!(!shells.contains(&sh), "shared-shell", "two attached terminals share one shell");
                shells.push(sh);
            }
            None => fail("dead-winner", format!("client {i} was told it is attached but reaches no shell")),
        }
    }
    if !matches!(st, "exiting" | "killing") {
        ensure!(nconn == winners.len(), "winner-dropped", "a client that was attached lost its connection");
    }
    let l = w.list_ok();
    ensure!(nconn <= if st == "two" { 2 } else { 1 }, "two-attached", "{nconn} terminals attached to one name");
    for sh in live_shells() {
        if !shells.contains(&sh) {
            // must be reachable by attaching to a listed, detached session
            let (mut c, a) = attach_free(&w, "a", 3000);
            ensure!(matches!(a, AttachStatus::Attached { .. }), "orphan-shell", "shell {} is alive but not reachable: attach says {a:?}, list {l:?}", sh.pid);
            match reached(&mut c, "probe") {
                Some(x) => ensure!(x == sh, "orphan-shell", "shell {} is alive but session 'a' is shell {}", sh.pid, x.pid),
                None => fail("orphan-shell", "attached but no shell answers"),
            }
            shells.push(sh);
        }
    }
    ensure!(live_shells().len() <= if st == "two" { 2 } else { 1 }, "two-shells", "{} live shells for one name", live_shells().len());
    if matches!(st, "new" | "detached" | "attached" | "stale" | "two") {
        ensure!(l.len() == live_shells().len(), "list", "list shows {} sessions for {} shells", l.len(), live_shells().len());
        for x in &l {
            ensure!(x.status == Status::Attached, "list", "session {} is listed as {:?}", x.name, x.status);
        }
    }
    no_panics();
}
