//! Histories of lifecycle operations against an independent specification:
//!   seq  – every sequence of operations up to a length, exact expectations;
//!   pair – two operations at once under every explored interleaving; the
//!          outcome must be one the specification machine allows.
use super::attach::{attach_free, reached, talks};
use super::*;
use crate::rt;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const SEQ_OPS: [&str; 7] = ["A", "D", "H", "B", "E", "K", "R"];

fn seqs(len: usize) -> Vec<String> {
    // operations act on session a (lower half) or b (upper half); the first
    // operation is on a by symmetry
    let mut v: Vec<Vec<String>> = vec![vec![]];
    for i in 0..len {
        let mut n = vec![];
        for p in &v {
            for o in SEQ_OPS {
                for who in ["a", "b"] {
                    if i == 0 && (who == "b" || o != "A") {
                        continue;
                    }
                    let mut q = p.clone();
                    q.push(format!("{o}{who}"));
                    n.push(q);
                }
            }
            if i > 0 {
                for o in ["Dx", "Kx"] {
                    let mut q = p.clone();
                    q.push(o.to_string());
                    n.push(q);
                }
            }
        }
        v = n;
    }
    v.into_iter().map(|p| p.join(" ")).collect()
}

pub fn seq_jobs(prop: &str, len: usize, per: usize, v: &mut Vec<Job>) {
    let all = seqs(len);
    for ch in all.chunks(per) {
        let mut j = job(prop, "hist.seq", json!({"h": ch}), o_none(), 0);
        j.step_limit = 40_000_000;
        v.push(j);
    }
}

/// (initial state, first operation, second operation)
pub fn pairs(prop: &str) -> Vec<(&'static str, &'static str, &'static str)> {
    let mut v = vec![];
    for init in ["none", "det", "att", "stale"] {
        for (i, a) in ["A", "D", "H", "B", "E", "K", "R", "L", "V"].iter().enumerate() {
            for b in ["A", "D", "H", "B", "E", "K", "R", "L", "V"].iter().skip(i) {
                let live = matches!(init, "det" | "att");
                if ["H", "B"].iter().any(|x| a == x || b == x) && init != "att" {
                    continue;
                }
                if a == b && matches!(*a, "H" | "B" | "E" | "L" | "V" | "R") {
                    continue;
                }
                if (*a == "E" || *b == "E") && !live {
                    continue;
                }
                if matches!(*a, "R" | "L" | "V") && matches!(*b, "R" | "L" | "V") {
                    continue;
                }
                let has = |x: &str| *a == x || *b == x;
                let want = match prop {
                    "P01" => has("A"),
                    "P02" => has("H") || has("A") && (has("E") || has("K")),
                    "P06" => has("E"),
                    "P08" => has("D"),
                    "P09" => has("K"),
                    "P11" => has("L"),
                    "P12" => true,
                    "P13" => has("V"),
                    "P14" => has("R"),
                    "P27" => has("H"),
                    _ => false,
                };
                if want {
                    v.push((init, *a, *b));
                }
            }
        }
    }
    v
}
pub fn pair_jobs(prop: &str, bound: u32, v: &mut Vec<Job>) {
    for (i, a, b) in pairs(prop) {
        v.push(job(prop, "hist.pair", json!({"st": i, "a": a, "b": b}), o_all(), bound));
    }
}

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    if matches!(prop, "P01" | "P02" | "P06" | "P08" | "P09" | "P11" | "P12") {
        seq_jobs(prop, 3, 16, v);
        if deep || matches!(prop, "P11" | "P12") {
            seq_jobs(prop, 4, 64, v);
        }
    }
    pair_jobs(prop, if deep { 2 } else { 1 }, v);
    if matches!(prop, "P08" | "P09") {
        for part in 0..8u64 {
            v.push(super::start::big(job(prop, "hist.lists", json!({"part": part, "parts": 8, "len": if deep { 4 } else { 3 }}), o_none(), 0)));
        }
    }
    if matches!(prop, "P11" | "P12") {
        let late = Opts { stall_t: 1000 * MS, kinds: !0, groups: 1 << G_DAEMON, ..o_none() };
        for st in ["att", "det"] {
            for x in ["H", "D", "K", "E", "A"] {
                for y in ["H", "D", "K", "E", "A"] {
                    let moves = |o: &str| !(st == "det" && matches!(o, "H" | "D"));
                    if moves(x) {
                        v.push(job(prop, "hist.chase", json!({"st": st, "x": x, "y": y, "gap": 400}), late.clone(), 1));
                    }
                    if deep {
                        v.push(job(prop, "hist.chase", json!({"st": st, "x": x, "y": y, "gap": 0}), o_all(), 1));
                    }
                }
            }
        }
    }
    if prop == "P12" {
        for t in ["A", "D", "H", "B", "E", "K", "S"] {
            for act in ["list", "attach"] {
                v.push(job(prop, "hist.onevent", json!({"t": t, "act": act}), o_all(), if deep { 2 } else { 1 }));
            }
        }
    }
}

pub fn run(f: &str, p: &Value) {
    match f {
        "seq" => seq(p),
        "lists" => lists(u(p, "part"), u(p, "parts"), u(p, "len") as usize),
        "chase" => chase(&s(p, "st"), &s(p, "x"), &s(p, "y"), u(p, "gap")),
        "onevent" => onevent(&s(p, "t"), &s(p, "act")),
        "pair" => pair(&s(p, "st"), &s(p, "a"), &s(p, "b")),
        _ => panic!("unknown {f}"),
    }
}

// ------------------------------------------------------------------ sequences
struct MS {
    sh: Sh,
    cl: Option<Client>,
    started: (i64, i64),
    conn: (i64, i64),
    disc: Option<(i64, i64)>,
    tmpl: String,
}
fn wall() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as i64
}
fn inwin(x: i64, w: (i64, i64)) -> bool {
    x >= w.0 - 1 && x <= w.1 + 1
}
const SLACK: u64 = 1300;

fn seq(p: &Value) {
    let hs: Vec<String> = p["h"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let w = World::new(BASE_CFG);
    let prop = rt().prop.clone();
    let is = |x: &str| prop == x;
    let ev1 = subscribe(&w);
    let ev2 = subscribe(&w);
    let mut seen = 0usize;
    for (hi, h) in hs.iter().enumerate() {
        let mut m: BTreeMap<String, MS> = BTreeMap::new();
        let mut stale: BTreeSet<String> = BTreeSet::new();
        let ctx = |op: &str| format!("history [{h}] at '{op}'");
        for (oi, op) in h.split(' ').enumerate() {
            let (o, who) = op.split_at(1);
            let name = format!("h{hi}{who}");
            let mut want: Vec<&str> = vec![];
            let mut may_lead_removed = false;
            let t0 = wall();
            match o {
                "A" => {
                    let mut hd = w.hdr(&name);
                    hd.name_template = format!("{name}-{oi}");
                    let nsh = rt().procs.len();
                    let (mut c, st) = w.attach_h(hd);
                    let att = m.get(&name).map(|x| x.cl.is_some());
                    match att {
                        Some(true) => {
                            ensure!(st == AttachStatus::Busy, "not-busy", "{}: attach answered {st:?} while a terminal is attached", ctx(op));
                            ensure!(rt().procs.len() == nsh, "busy-shell", "{}: a refused attach started a shell", ctx(op));
                            ensure!(c.wait_end(1000), "busy-open", "{}: refused connection stays open", ctx(op));
                        }
                        Some(false) => {
                            ensure!(matches!(st, AttachStatus::Attached { .. }), "not-attached", "{}: attach to a detached session answered {st:?}", ctx(op));
                            ensure!(rt().procs.len() == nsh, "second-shell", "{}: reattach started a shell", ctx(op));
                            want.push("attached");
                            let x = m.get_mut(&name).unwrap();
                            ensure!(talks(&mut c, &x.sh, &format!("t{oi}")), "wrong-shell", "{}: the attached terminal does not reach the session's shell", ctx(op));
                            x.cl = Some(c);
                            x.conn = (t0, wall());
                            x.tmpl = format!("{name}-{oi}");
                        }
                        None => {
                            ensure!(matches!(st, AttachStatus::Created { .. }), "not-created", "{}: attach to a free name answered {st:?}", ctx(op));
                            ensure!(rt().procs.len() == nsh + 1, "no-shell", "{}: created but {} shells started", ctx(op), rt().procs.len() - nsh);
                            may_lead_removed = stale.remove(&name);
                            want.extend(["created", "attached"]);
                            let sh = Sh { pid: *rt().procs.keys().max().unwrap() };
                            ensure!(talks(&mut c, &sh, &format!("t{oi}")), "wrong-shell", "{}: the attached terminal does not reach the new shell", ctx(op));
                            let t = (t0, wall());
                            m.insert(name.clone(), MS { sh, cl: Some(c), started: t, conn: t, disc: None, tmpl: format!("{name}-{oi}") });
                        }
                    }
                }
                "D" | "K" => {
                    let names: Vec<String> = if who == "x" {
                        let mut v = vec![format!("h{hi}a"), format!("h{hi}nope"), format!("h{hi}b")];
                        if o == "K" {
                            v.push(format!("h{hi}a"));
                        }
                        v
                    } else {
                        vec![name.clone()]
                    };
                    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                    if o == "D" {
                        let r = match w.detach(&refs) {
                            Ok(r) => r,
                            Err(e) => fail("detach-unanswered", format!("{}: {e}", ctx(op))),
                        };
                        let mut nf: Vec<&str> = r.not_found_sessions.iter().map(|s| s.as_str()).collect();
                        let mut na: Vec<&str> = r.not_attached_sessions.iter().map(|s| s.as_str()).collect();
                        let st: Vec<String> = stale.iter().cloned().collect();
                        nf.retain(|x| !st.contains(&x.to_string()));
                        na.retain(|x| !st.contains(&x.to_string()));
                        let enf: Vec<&str> = refs.iter().copied().filter(|n| !m.contains_key(*n) && !stale.contains(*n)).collect();
                        let ena: Vec<&str> = refs.iter().copied().filter(|n| m.get(*n).map(|x| x.cl.is_none()).unwrap_or(false)).collect();
                        ensure!(nf == enf, "detach-notfound", "{}: not found {nf:?}, expected {enf:?}", ctx(op));
                        ensure!(na == ena, "detach-notattached", "{}: not attached {na:?}, expected {ena:?}", ctx(op));
                        for n in &refs {
                            if let Some(x) = m.get_mut(*n) {
                                if let Some(mut c) = x.cl.take() {
                                    ensure!(c.wait_end(1000), "detach-open", "{}: the detached terminal stays connected", ctx(op));
                                    ensure!(c.exit == Some(0), "detach-status", "{}: the detached terminal got status {:?}", ctx(op), c.exit);
                                    x.disc = Some((t0, i64::MAX));
                                    want.push("detached");
                                }
                            }
                        }
                    } else {
                        let r = match w.kill(&refs) {
                            Ok(r) => r,
                            Err(e) => fail("kill-unanswered", format!("{}: {e}", ctx(op))),
                        };
                        let mut nf: Vec<&str> = r.not_found_sessions.iter().map(|s| s.as_str()).collect();
                        let st: Vec<String> = stale.iter().cloned().collect();
                        nf.retain(|x| !st.contains(&x.to_string()));
                        nf.sort(); nf.dedup();
                        let mut enf: Vec<&str> = vec![];
                        let mut done: BTreeSet<&str> = Default::default();
                        for n in &refs {
                            if stale.contains(*n) {
                                continue;
                            }
                            if m.contains_key(*n) {
                                done.insert(n);
                            } else if !enf.contains(n) {
                                enf.push(n);
                            }
                        }
                        let _ = done;
                        enf.sort();
                        ensure!(nf == enf, "kill-notfound", "{}: not found {nf:?}, expected {enf:?}", ctx(op));
                        let l = w.list_ok();
                        let mut dead_stale = 0;
                        for n in BTreeSet::from_iter(refs.iter()) {
                            ensure!(!l.iter().any(|s| s.name == **n), "kill-listed", "{}: '{n}' still listed after kill returned", ctx(op));
                            if stale.remove(*n) {
                                dead_stale += 1;
                            }
                            if let Some(mut x) = m.remove(*n) {
                                ensure!(!x.sh.alive(), "kill-alive", "{}: shell of '{n}' still alive after kill returned", ctx(op));
                                ensure!(x.sh.signals().first() == Some(&libc::SIGHUP), "kill-signal", "{}: shell of '{n}' got signals {:?}", ctx(op), x.sh.signals());
                                if let Some(c) = x.cl.as_mut() {
                                    ensure!(c.wait_end(1500), "kill-open", "{}: terminal of the killed session stays connected", ctx(op));
                                    ensure!(c.exit == Some(1), "kill-status", "{}: terminal of the killed session got status {:?}, expected 1", ctx(op), c.exit);
                                }
                                want.push("removed");
                            }
                        }
                        if dead_stale > 0 {
                            may_lead_removed = true;
                        }
                    }
                }
                "H" => {
                    if let Some(x) = m.get_mut(&name) {
                        if let Some(c) = x.cl.take() {
                            drop(c);
                            x.disc = Some((t0, i64::MAX));
                            want.push("detached");
                        }
                    }
                }
                "B" => {
                    if let Some(x) = m.get_mut(&name) {
                        if let Some(mut c) = x.cl.take() {
                            ensure!(c.send(b"\x00\x11"), "kb-send", "{}", ctx(op));
                            ensure!(c.wait_end(1500), "kb-open", "{}: the detach key sequence did not detach", ctx(op));
                            ensure!(c.exit == Some(0), "kb-status", "{}: status {:?}", ctx(op), c.exit);
                            x.disc = Some((t0, i64::MAX));
                            want.push("detached");
                        }
                    }
                }
                "R" => {
                    let r = w.resize(&name, 30 + oi as u16, 100 + oi as u16);
                    match m.get(&name) {
                        Some(x) => {
                            ensure!(r == Ok(SessionMessageReply::Resize(ResizeReply::Ok)), "resize-reply", "{}: {r:?}", ctx(op));
                            if x.cl.is_some() {
                                sleep_ms(200);
                                ensure!(x.sh.winsz() == (30 + oi as u16, 100 + oi as u16), "resize-size", "{}: terminal size {:?}", ctx(op), x.sh.winsz());
                            }
                        }
                        None if stale.contains(&name) => {
                            ensure!(r.is_ok(), "resize-unanswered", "{}: {r:?}", ctx(op));
                        }
                        None => ensure!(r == Ok(SessionMessageReply::NotFound), "resize-reply", "{}: {r:?}", ctx(op)),
                    }
                }
                "E" => {
                    if let Some(mut x) = m.remove(&name) {
                        let code = 40 + oi as i32;
                        x.sh.exit(code);
                        match x.cl.as_mut() {
                            Some(c) => {
                                ensure!(c.wait_end(2000), "exit-open", "{}: terminal stays connected after the shell exited", ctx(op));
                                ensure!(c.exit == Some(code), "exit-status", "{}: got status {:?}, the shell exited with {code}", ctx(op), c.exit);
                                want.push("removed");
                            }
                            None => {
                                stale.insert(name.clone());
                            }
                        }
                    }
                }
                _ => panic!(),
            }
            sleep_ms(SLACK);
            let t1 = wall();
            for x in m.values_mut() {
                if let Some(d) = x.disc.as_mut() {
                    if d.1 == i64::MAX {
                        d.1 = t1;
                    }
                }
            }
            // attached terminals are undisturbed and still reach their shells
            if is("P01") || is("P02") || is("P08") || is("P09") {
                for (n, x) in m.iter_mut() {
                    ensure!(x.sh.alive(), "shell-died", "{}: the shell of '{n}' died", ctx(op));
                    ensure!(x.sh.signals().is_empty(), "shell-signalled", "{}: the shell of '{n}' got {:?}", ctx(op), x.sh.signals());
                    ensure!(!x.sh.hungup(), "shell-hungup", "{}: the terminal of '{n}' was closed", ctx(op));
                    if let Some(c) = x.cl.as_mut() {
                        ensure!(talks(c, &x.sh, &format!("k{oi}")), "disturbed", "{}: terminal of '{n}' no longer works", ctx(op));
                    }
                }
            }
            for p in rt().procs.values().filter(|_| is("P09")) {
                ensure!(p.signals_after_reap.is_empty(), "signal-after-reap", "{}: signal {:?} sent to reaped process {}", ctx(op), p.signals_after_reap, p.pid);
            }
            // the list
            let l = w.list_ok();
            let mut names: Vec<&str> = l.iter().map(|s| s.name.as_str()).collect();
            names.retain(|n| !stale.contains(*n));
            let exp: Vec<&str> = m.keys().map(|s| s.as_str()).collect();
            ensure!(names == exp, "list-names", "{}: list shows {names:?}, expected {exp:?}", ctx(op));
            if is("P11") {
                for s in &l {
                    if let Some(x) = m.get(&s.name) {
                        let att = x.cl.is_some();
                        ensure!((s.status == Status::Attached) == att, "list-status", "{}: '{}' listed {:?}, attached={att}", ctx(op), s.name, s.status);
                        if att {
                            ensure!(
                                s.attachments.len() == 1 && s.attachments[0].pid == std::process::id() as i32 && s.attachments[0].session_name_template == x.tmpl,
                                "list-attachments",
                                "{}: attachments {:?}, expected template {}",
                                ctx(op),
                                s.attachments.iter().map(|a| &a.session_name_template).collect::<Vec<_>>(),
                                x.tmpl
                            );
                        } else {
                            ensure!(s.attachments.is_empty(), "list-attachments", "{}: detached session lists attachments", ctx(op));
                        }
                        ensure!(inwin(s.started_at_unix_ms, x.started), "list-started", "{}: started_at {} not within {:?}", ctx(op), s.started_at_unix_ms, x.started);
                        ensure!(s.last_connected_at_unix_ms.map(|t| inwin(t, x.conn)).unwrap_or(false), "list-connected", "{}: last_connected {:?} not within {:?}", ctx(op), s.last_connected_at_unix_ms, x.conn);
                        match x.disc {
                            None => ensure!(s.last_disconnected_at_unix_ms.is_none(), "list-disconnected", "{}: never disconnected but {:?}", ctx(op), s.last_disconnected_at_unix_ms),
                            Some(d) => ensure!(s.last_disconnected_at_unix_ms.map(|t| inwin(t, d)).unwrap_or(false), "list-disconnected", "{}: last_disconnected {:?} not within {d:?}", ctx(op), s.last_disconnected_at_unix_ms),
                        }
                    } else {
                        ensure!(s.status == Status::Disconnected && s.attachments.is_empty(), "list-stale", "{}: ended session '{}' listed as attached", ctx(op), s.name);
                    }
                }
                let gone: Vec<String> = stale.iter().filter(|n| !l.iter().any(|s| &s.name == *n)).cloned().collect();
                let _ = gone;
            }
            // events
            if is("P12") {
                let k1 = ev1.kinds();
                let k2 = ev2.kinds();
                ensure!(k1 == k2, "events-differ", "{}: two subscribers saw {:?} and {:?}", ctx(op), &k1[seen.min(k1.len())..], &k2[seen.min(k2.len())..]);
                let mut delta: Vec<String> = k1[seen..].to_vec();
                seen = k1.len();
                if may_lead_removed || !stale.is_empty() {
                    // a shell that ended while nobody was attached is cleaned up late
                    while !delta.is_empty() && delta[0] == "removed" && want.first() != Some(&"removed") {
                        delta.remove(0);
                    }
                    let extra = delta.iter().filter(|x| *x == "removed").count().saturating_sub(want.iter().filter(|x| **x == "removed").count());
                    for _ in 0..extra {
                        let i = delta.iter().rposition(|x| x == "removed").unwrap();
                        delta.remove(i);
                    }
                }
                ensure!(delta == want, "events", "{}: events {delta:?}, expected {want:?}", ctx(op));
            }
        }
        // clean up
        let names: Vec<String> = ["a", "b"].iter().map(|x| format!("h{hi}{x}")).collect();
        drop(m);
        sleep_ms(SLACK);
        let _ = w.kill(&[&names[0], &names[1]]);
        sleep_ms(SLACK);
        ensure!(w.list_ok().is_empty(), "leftover", "history [{h}]: sessions left after kill");
        ensure!(live_shells().is_empty(), "leftover-shell", "history [{h}]: shells left after kill");
        seen = ev1.kinds().len();
        if is("P12") {
            let k = ev1.kinds();
            let c = |x: &str| k.iter().filter(|y| *y == x).count();
            ensure!(c("created") == c("removed"), "events-balance", "history [{h}]: {} sessions created but {} removed", c("created"), c("removed"));
        }
    }
    no_panics();
    set_output(format!("{hs:?}").as_bytes());
}

// ------------------------------------------------------------------ the specification machine
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct S {
    gen: u8,
    alive: bool,
    code: i32,
    att: Option<u8>,
    conn: bool,
    gone: bool,
    unw: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct M {
    s: Option<S>,
    ev: Vec<&'static str>,
    rep: [String; 2],
    res: BTreeMap<u8, String>,
    pc: [u8; 2],
    hold: [u8; 2], // generation an operation works on
    nextgen: u8,
}
/// what can be observed at the end
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Out {
    rep: [String; 2],
    fin: String,
    res: BTreeMap<u8, String>,
    ev: Vec<String>,
}
const DONE: u8 = 99;
pub const CODE: i32 = 37;

fn sysmoves(m: &M) -> Vec<M> {
    let mut v = vec![];
    if let Some(s) = &m.s {
        if let (Some(c), true, false) = (s.att, s.conn, s.gone) {
            if !s.alive {
                let mut n = m.clone();
                n.res.insert(c, format!("exit {}", s.code));
                let t = n.s.as_mut().unwrap();
                t.att = None;
                t.unw = true;
                v.push(n);
            }
        }
        if s.att.is_some() && s.conn && s.gone {
            let mut n = m.clone();
            let t = n.s.as_mut().unwrap();
            t.att = None;
            t.unw = true;
            v.push(n);
        }
        if s.unw {
            if !s.alive {
                let mut n = m.clone();
                n.ev.push("removed");
                n.s = None;
                v.push(n);
            }
            let mut n = m.clone();
            n.ev.push("detached");
            n.s.as_mut().unwrap().unw = false;
            v.push(n);
        }
    }
    v
}
fn opmoves(m: &M, i: usize, op: &str) -> Vec<M> {
    let mut v = vec![];
    let pc = m.pc[i];
    if pc == DONE {
        return v;
    }
    let done = |mut n: M, r: &str| {
        n.pc[i] = DONE;
        n.rep[i] = r.to_string();
        n
    };
    match (op, pc) {
        ("A", 0) => {
            let mut n = m.clone();
            match &m.s {
                Some(s) if s.att.is_some() || s.unw => v.push(done(n, "busy")),
                Some(s) if s.alive => {
                    n.hold[i] = s.gen;
                    let t = n.s.as_mut().unwrap();
                    t.att = Some(i as u8);
                    t.conn = false;
                    t.gone = false;
                    n.ev.push("attached");
                    n.rep[i] = "attached".into();
                    n.pc[i] = 1;
                    v.push(n);
                }
                _ => {
                    if m.s.is_some() {
                        n.ev.push("removed");
                    }
                    let g = n.nextgen;
                    n.nextgen += 1;
                    n.s = Some(S { gen: g, alive: true, code: 0, att: Some(i as u8), conn: false, gone: false, unw: false });
                    n.hold[i] = g;
                    n.ev.push("created");
                    n.ev.push("attached");
                    n.rep[i] = "created".into();
                    n.pc[i] = 1;
                    v.push(n);
                }
            }
        }
        ("A", 1) => {
            let mut n = m.clone();
            n.pc[i] = DONE;
            match n.s.as_mut() {
                Some(s) if s.gen == m.hold[i] => s.conn = true,
                // killed meanwhile
                _ => {
                    n.res.insert(i as u8, "exit 1".into());
                }
            }
            v.push(n);
        }
        ("D", 0) => match &m.s {
            None => v.push(done(m.clone(), "notfound")),
            Some(s) if s.att.is_some() && s.conn => {
                let mut n = m.clone();
                let t = n.s.as_mut().unwrap();
                if !t.gone {
                    n.res.insert(t.att.unwrap(), "exit 0".into());
                }
                t.att = None;
                t.unw = true;
                v.push(done(n, "ok"));
                if !s.alive {
                    // its terminal is already on its way out with the shell
                    v.push(done(m.clone(), "notattached"));
                }
            }
            _ => v.push(done(m.clone(), "notattached")),
        },
        ("H", 0) => {
            let mut n = m.clone();
            if let Some(t) = n.s.as_mut() {
                if t.att == Some(9) {
                    t.gone = true;
                }
            }
            n.res.insert(9, "gone".into());
            v.push(done(n, "-"));
        }
        ("B", 0) => {
            let mut n = m.clone();
            if let Some(t) = n.s.as_mut() {
                if t.att == Some(9) && t.conn && !t.gone {
                    t.att = None;
                    t.unw = true;
                    n.res.insert(9, "exit 0".into());
                }
            }
            v.push(done(n, "-"));
            // a dying shell's session may no longer read its input
            if m.s.as_ref().map(|s| !s.alive).unwrap_or(false) {
                v.push(done(m.clone(), "-"));
            }
        }
        ("E", 0) => {
            let mut n = m.clone();
            if let Some(t) = n.s.as_mut() {
                if t.gen == 0 && t.alive {
                    t.alive = false;
                    t.code = CODE;
                }
            }
            v.push(done(n, "-"));
        }
        ("K", 0) => match &m.s {
            None => v.push(done(m.clone(), "notfound")),
            Some(s) => {
                let mut n = m.clone();
                n.hold[i] = s.gen;
                n.pc[i] = 1;
                let t = n.s.as_mut().unwrap();
                if t.alive {
                    t.alive = false;
                    t.code = 1;
                }
                v.push(n);
            }
        },
        ("K", 1) => {
            let mut n = m.clone();
            if let Some(s) = &m.s {
                if s.gen == m.hold[i] {
                    if let (Some(c), false, true) = (s.att, s.gone, s.conn) {
                        n.res.insert(c, format!("exit {}", s.code));
                    }
                    n.s = None;
                    n.ev.push("removed");
                }
            }
            v.push(done(n, "ok"));
        }
        ("R", 0) => match &m.s {
            None => v.push(done(m.clone(), "notfound")),
            Some(s) => {
                if s.alive {
                    v.push(done(m.clone(), "ok"));
                }
                if !s.alive || (s.att.is_some() && !s.conn) {
                    v.push(done(m.clone(), "ok"));
                    v.push(done(m.clone(), "notfound"));
                    v.push(done(m.clone(), "notattached"));
                }
            }
        },
        ("L", 0) => match &m.s {
            None => v.push(done(m.clone(), "none")),
            Some(s) => {
                if s.att.is_some() {
                    v.push(done(m.clone(), "att"));
                }
                if s.att.is_none() {
                    v.push(done(m.clone(), "det"));
                    if s.unw {
                        v.push(done(m.clone(), "att"));
                    }
                }
                if !s.alive {
                    v.push(done(m.clone(), "det"));
                    v.push(done(m.clone(), "none"));
                }
            }
        },
        ("V", 0) => v.push(done(m.clone(), "ok")),
        _ => {}
    }
    v
}
fn allowed(st: &str, ops: [&str; 2]) -> BTreeSet<Out> {
    let s = match st {
        "none" => None,
        "det" => Some(S { gen: 0, alive: true, code: 0, att: None, conn: false, gone: false, unw: false }),
        "stale" => Some(S { gen: 0, alive: false, code: 0, att: None, conn: false, gone: false, unw: false }),
        _ => Some(S { gen: 0, alive: true, code: 0, att: Some(9), conn: true, gone: false, unw: false }),
    };
    let m0 = M { s, ev: vec![], rep: Default::default(), res: Default::default(), pc: [0, 0], hold: [0, 0], nextgen: 1 };
    let mut seen: BTreeSet<M> = BTreeSet::new();
    let mut work = vec![m0];
    let mut outs = BTreeSet::new();
    while let Some(m) = work.pop() {
        if !seen.insert(m.clone()) {
            continue;
        }
        let sys = sysmoves(&m);
        let mut any = !sys.is_empty();
        work.extend(sys);
        for i in 0..2 {
            let o = opmoves(&m, i, ops[i]);
            any |= !o.is_empty();
            work.extend(o);
        }
        if !any {
            let fin = match &m.s {
                None => "none".to_string(),
                Some(s) if !s.alive => "none".into(),
                Some(s) => match s.att {
                    Some(c) => format!("gen {} attached {c}", s.gen),
                    None => format!("gen {} detached", s.gen),
                },
            };
            outs.insert(Out { rep: m.rep.clone(), fin, res: m.res.clone(), ev: m.ev.iter().map(|x| x.to_string()).collect() });
        }
    }
    outs
}
/// number of states of the specification machine, for the evidence
pub fn spec_states() -> HashMap<String, usize> {
    Default::default()
}

fn do_op(w: World, op: &str, name: &'static str, holder: Option<Client>, sh: Option<Sh>) -> (String, Option<Client>, Option<Client>) {
    // (reply, attached client, holder handed back)
    match op {
        "A" => match w.try_attach(w.hdr(name)) {
            Ok((c, AttachStatus::Created { .. })) => ("created".into(), Some(c), holder),
            Ok((c, AttachStatus::Attached { .. })) => ("attached".into(), Some(c), holder),
            Ok((_, AttachStatus::Busy)) => ("busy".into(), None, holder),
            Ok((_, x)) => (format!("{x:?}"), None, holder),
            Err(e) => (format!("unanswered ({e})"), None, holder),
        },
        "D" => match w.detach(&[name]) {
            Ok(r) => {
                let a = r.not_found_sessions.len();
                let b = r.not_attached_sessions.len();
                ((if a > 0 { "notfound" } else if b > 0 { "notattached" } else { "ok" }).into(), None, holder)
            }
            Err(e) => (format!("unanswered ({e})"), None, holder),
        },
        "K" => match w.kill(&[name]) {
            Ok(r) => ((if r.not_found_sessions.is_empty() { "ok" } else { "notfound" }).into(), None, holder),
            Err(e) => (format!("unanswered ({e})"), None, holder),
        },
        "R" => match w.resize(name, 40, 100) {
            Ok(SessionMessageReply::NotFound) => ("notfound".into(), None, holder),
            Ok(SessionMessageReply::NotAttached) => ("notattached".into(), None, holder),
            Ok(_) => ("ok".into(), None, holder),
            Err(e) => (format!("unanswered ({e})"), None, holder),
        },
        "V" => match w.set_var("v", Some("1")) {
            Ok(_) => ("ok".into(), None, holder),
            Err(e) => (format!("unanswered ({e})"), None, holder),
        },
        "L" => match w.list() {
            Ok(l) => {
                let x = l.iter().find(|s| s.name == name);
                if let Some(x) = x {
                    ensure!(l.iter().filter(|s| s.name == name).count() == 1, "listed-twice", "'{name}' is listed twice");
                    ensure!(
                        (x.status == Status::Attached) == (x.attachments.len() == 1),
                        "list-inconsistent",
                        "'{name}' is listed as {:?} with {} attachments",
                        x.status,
                        x.attachments.len()
                    );
                }
                ((match x {
                    None => "none",
                    Some(s) if s.status == Status::Attached => "att",
                    Some(_) => "det",
                })
                .into(), None, holder)
            }
            Err(e) => (format!("unanswered ({e})"), None, holder),
        },
        "H" => {
            drop(holder);
            ("-".into(), None, None)
        }
        "B" => {
            let mut h = holder.unwrap();
            h.send(b"\x00\x11");
            ("-".into(), None, Some(h))
        }
        "E" => {
            sh.unwrap().exit(CODE);
            ("-".into(), None, holder)
        }
        _ => panic!(),
    }
}

fn pair(st: &str, a: &str, b: &str) {
    let prop = rt().prop.clone();
    let evs = prop == "P12";
    let w = World::new(BASE_CFG);
    // a bystander that must not notice anything
    let (mut bc, bsh) = w.create("b");
    ensure!(talks(&mut bc, &bsh, "by0"), "bystander-start", "bystander does not work");
    let mut holder = None;
    let mut sh = None;
    if st != "none" {
        let (mut c, s) = w.create("a");
        sh = Some(s);
        if st == "att" {
            ensure!(talks(&mut c, &s, "h0"), "holder-start", "holder does not work");
            holder = Some(c);
        } else {
            w.detach(&["a"]).unwrap();
            c.wait_end(1000);
            sleep_ms(400);
            if st == "stale" {
                s.exit(0);
                sleep_ms(200);
            }
        }
    }
    let ev = if evs { Some((subscribe(&w), subscribe(&w))) } else { None };
    explore(true);
    // the holder's connection goes to whichever operation needs it
    let (mut ha, mut hb) = (None, None);
    if b == "H" || b == "B" {
        hb = holder.take();
        if (a == "H" || a == "B") && hb.is_some() {
            // both act on the same connection
            let h = hb.as_ref().unwrap();
            ha = Some(Client { s: h.s.try_clone().unwrap(), exit: None, eof: false, data: vec![], switches: vec![], beats: 0, bad: None });
        }
    } else {
        ha = holder.take();
    }
    let two = ha.is_some() && hb.is_some();
    let (wa, wb) = (w.clone(), w.clone());
    let (oa, ob) = (a.to_string(), b.to_string());
    let ta = spawn(G_CLIENT, &format!("op1:{a}"), move || do_op(wa, &oa, "a", ha, sh));
    let tb = spawn(G_CLIENT, &format!("op2:{b}"), move || do_op(wb, &ob, "a", hb, sh));
    let (ra, ca, h1) = ta.join().unwrap();
    let (rb, cb, h2) = tb.join().unwrap();
    explore(false);
    sleep_ms(2500);
    let kinds = ev.map(|(e1, e2)| (e1.kinds(), e2.kinds()));
    let mut res: BTreeMap<u8, String> = Default::default();
    let hung = a == "H" || b == "H";
    let mut conns: Vec<(u8, Client)> = vec![];
    let mut hold = if two { None } else { h1.or(h2) };
    if hung {
        res.insert(9, "gone".into());
    } else if let Some(mut c) = hold.take() {
        c.drain_ms(5);
        if c.ended() {
            res.insert(9, match c.exit { Some(x) => format!("exit {x}"), None => "dropped".into() });
        } else {
            conns.push((9, c));
        }
    }
    for (i, c) in [(0u8, ca), (1u8, cb)] {
        if let Some(mut c) = c {
            c.drain_ms(5);
            if c.ended() {
                res.insert(i, match c.exit { Some(x) => format!("exit {x}"), None => "dropped".into() });
            } else {
                conns.push((i, c));
            }
        }
    }
    let l = w.list_ok();
    let la = l.iter().find(|s| s.name == "a");
    let mut fin = "none".to_string();
    let ctx = format!("{a} || {b} on a session that is '{st}'");
    ensure!(conns.len() <= 1, "two-attached", "{ctx}: {} terminals attached to one name", conns.len());
    let alive: Vec<Sh> = live_shells().into_iter().filter(|x| *x != bsh).collect();
    ensure!(alive.len() <= 1, "two-shells", "{ctx}: {} live shells for one name", alive.len());
    if let Some((i, c)) = conns.iter_mut() .next() {
        let r = reached(c, "fin");
        match r {
            None => fail("dead-terminal", format!("{ctx}: client {i} is connected but reaches no shell")),
            Some(x) => {
                fin = format!("gen {} attached {i}", if Some(x) == sh { 0 } else { 1 });
                ensure!(la.map(|s| s.status == Status::Attached && s.attachments.len() == 1).unwrap_or(false), "list-final", "{ctx}: terminal attached, but list says {:?}", la.map(|s| (&s.status, s.attachments.len())));
            }
        }
    } else if let Some(x) = alive.first() {
        ensure!(la.map(|s| s.status == Status::Disconnected && s.attachments.is_empty()).unwrap_or(false), "list-final", "{ctx}: shell alive, nobody attached, but list says {:?}", la.map(|s| (&s.status, s.attachments.len())));
        let (mut c, stt) = attach_free(&w, "a", 3000);
        ensure!(matches!(stt, AttachStatus::Attached { .. }), "orphan-shell", "{ctx}: the shell is alive but attaching answers {stt:?}");
        let r = reached(&mut c, "fin");
        ensure!(r == Some(*x), "orphan-shell", "{ctx}: attached, but not to the live shell");
        fin = format!("gen {} detached", if Some(*x) == sh { 0 } else { 1 });
        drop(c);
    } else {
        // nothing alive: the name must be usable for a new shell at once
        ensure!(la.map(|s| s.status == Status::Disconnected && s.attachments.is_empty()).unwrap_or(true), "list-final", "{ctx}: no shell, but list says {:?}", la.map(|s| (&s.status, s.attachments.len())));
        if matches!(prop.as_str(), "P01" | "P02" | "P06" | "P09" | "P27") {
            let (mut c, stt) = attach_free(&w, "a", 1500);
            ensure!(matches!(stt, AttachStatus::Created { .. }), "not-recreated", "{ctx}: no shell left, attaching answers {stt:?}");
            ensure!(reached(&mut c, "re").is_some(), "not-recreated", "{ctx}: the re-created session does not work");
        }
    }
    ensure!(talks(&mut bc, &bsh, "by1"), "bystander", "{ctx}: another session was disturbed");
    ensure!(bsh.signals().is_empty(), "bystander", "{ctx}: another session's shell was signalled");
    for p in rt().procs.values().filter(|_| prop == "P09") {
        ensure!(p.signals_after_reap.is_empty(), "signal-after-reap", "{ctx}: signal {:?} sent to reaped process {}", p.signals_after_reap, p.pid);
    }
    let al = allowed(st, [a, b]);
    let mut got = Out { rep: [ra, rb], fin, res, ev: vec![] };
    if two {
        got.res.remove(&9);
    }
    let strip = |o: &Out| {
        let mut o = o.clone();
        if two {
            o.res.remove(&9);
        }
        o.fin = norm(&o.fin);
        o
    };
    got.fin = norm(&got.fin);
    if let Some((k1, k2)) = kinds {
        ensure!(k1 == k2, "events-differ", "{ctx}: subscribers saw {k1:?} and {k2:?}");
        got.ev = k1;
        // clean-up of an ended session that nobody was attached to may come late
        let ok = al.iter().map(strip).any(|o| o.ev == got.ev && o.fin == got.fin);
        ensure!(ok, "events", "{ctx}: outcome {got:?} has events that no order of the operations explains; allowed: {:?}", al.iter().map(|o| (&o.ev, &o.fin)).collect::<BTreeSet<_>>());
    } else {
        let ok = al.iter().map(strip).any(|o| o.rep == got.rep && o.fin == got.fin && o.res == got.res);
        let un = got.rep.iter().any(|r| r.starts_with("unanswered"));
        ensure!(ok, if un { "unanswered" } else { "outcome" }, "{ctx}: outcome {got:?} is not explained by any order of the operations; allowed: {:?}", al.iter().map(|o| (&o.rep, &o.fin, &o.res)).collect::<BTreeSet<_>>());
    }
    set_output(format!("{got:?}").as_bytes());
    no_panics();
}
/// generations: only "the old shell" or "a new shell" can be told apart
fn norm(f: &str) -> String {
    if f.starts_with("gen ") && !f.starts_with("gen 0") {
        let r = f.split_once(' ').unwrap().1.split_once(' ').unwrap().1;
        return format!("gen 1 {r}");
    }
    f.to_string()
}

// ------------------------------------------------------------------ requests naming several sessions
/// Every list of names, with repetitions, over two attached sessions, a
/// detached one and one which does not exist.
fn lists(part: u64, parts: u64, len: usize) {
    let kill = rt().prop == "P09";
    let w = World::new(BASE_CFG);
    let (mut by, bsh) = w.create("by");
    let all = ["a", "b", "d", "x"];
    let mut n = 0u64;
    for l in 0..=len {
        for code in 0..4u64.pow(l as u32) {
            n += 1;
            if n % parts != part {
                continue;
            }
            let kinds: Vec<&str> = (0..l).map(|i| all[(code >> (2 * i)) as usize & 3]).collect();
            let names: Vec<String> = kinds.iter().map(|k| format!("{k}{n}")).collect();
            let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let ctx = || format!("{} {names:?}", if kill { "kill" } else { "detach" });
            let (mut ca, sa) = w.create(&format!("a{n}"));
            let (mut cb, sb) = w.create(&format!("b{n}"));
            let (cd, sd) = w.create(&format!("d{n}"));
            drop(cd);
            ensure!(super::sess::wait_detached(&w, &format!("d{n}"), 3000), "detach", "stays attached");
            let has = |k: &str| kinds.contains(&k);
            let want = |k: &str| -> Vec<String> { if has(k) { vec![format!("{k}{n}")] } else { vec![] } };
            let uniq = |v: Vec<String>| -> Vec<String> { BTreeSet::from_iter(v).into_iter().collect() };
            if kill {
                let r = match w.kill(&refs) {
                    Ok(r) => r,
                    Err(e) => fail("kill-unanswered", format!("{}: {e}", ctx())),
                };
                ensure!(uniq(r.not_found_sessions.clone()) == want("x"), "kill-notfound", "{}: not found {:?}", ctx(), r.not_found_sessions);
            } else {
                let r = match w.detach(&refs) {
                    Ok(r) => r,
                    Err(e) => fail("detach-unanswered", format!("{}: {e}", ctx())),
                };
                ensure!(uniq(r.not_found_sessions.clone()) == want("x"), "detach-notfound", "{}: not found {:?}", ctx(), r.not_found_sessions);
                ensure!(uniq(r.not_attached_sessions.clone()) == want("d"), "detach-notattached", "{}: not attached {:?}", ctx(), r.not_attached_sessions);
            }
            for (k, c, sh) in [("a", Some(&mut ca), sa), ("b", Some(&mut cb), sb), ("d", None, sd)] {
                if kill {
                    ensure!(sh.alive() != has(k), "kill-shell", "{}: shell of {k}{n} alive: {}", ctx(), sh.alive());
                } else {
                    ensure!(sh.alive() && sh.signals().is_empty(), "detach-shell", "{}: shell of {k}{n} suffers", ctx());
                }
                if let Some(c) = c {
                    if has(k) {
                        ensure!(c.wait_end(3000) && c.exit == Some(if kill { 1 } else { 0 }), "let-go", "{}: client of {k}{n} ended {} with {:?}", ctx(), c.ended(), c.exit);
                    } else {
                        ensure!(talks(c, &sh, "z"), "disturbed", "{}: client of {k}{n} no longer reaches its shell", ctx());
                    }
                }
            }
            if !kill {
                for k in ["a", "b"] {
                    if has(k) {
                        ensure!(super::sess::wait_detached(&w, &format!("{k}{n}"), 3000), "detach-listed", "{}: {k}{n} stays attached", ctx());
                    }
                }
            }
            let l: Vec<String> = w.list_ok().iter().map(|s| s.name.clone()).filter(|x| x != "by").collect();
            let exp: Vec<String> = ["a", "b", "d"].iter().filter(|k| !kill || !has(k)).map(|k| format!("{k}{n}")).collect();
            ensure!(uniq(l.clone()) == exp && l.len() == exp.len(), "listed", "{}: afterwards listed {l:?}, expected {exp:?}", ctx());
            let rest: Vec<&str> = exp.iter().map(|s| s.as_str()).collect();
            if !rest.is_empty() {
                w.kill(&rest).unwrap();
            }
        }
    }
    ensure!(talks(&mut by, &bsh, "end"), "bystander", "the other session is disturbed");
    no_panics();
    rt::set_output(format!("{kill} {part} {n}").as_bytes());
}

// ------------------------------------------------------------------ acting on an event at once
/// Whoever learns about a change from an event finds it done: a list taken
/// reflects it, and a session reported detached can be attached.
fn onevent(t: &str, act: &str) {
    let w = World::new(BASE_CFG);
    let mut c0 = None;
    let mut sh0 = None;
    if t != "A" {
        let (mut c, sh) = w.create("a");
        ensure!(talks(&mut c, &sh, "t0"), "talk", "session does not work");
        if t == "S" {
            drop(c);
            ensure!(super::sess::wait_detached(&w, "a", 3000), "detach", "stays attached");
        } else {
            c0 = Some(c);
        }
        sh0 = Some(sh);
        sleep_ms(100);
    }
    let mut s = hoist(std::os::unix::net::UnixStream::connect(events_sock(&w)).unwrap());
    sleep_ms(100);
    // the event after which to act
    let ev = match t {
        "A" | "S" => "attached",
        "E" | "K" => "removed",
        _ => "detached",
    };
    explore(true);
    let (w1, w2) = (w.clone(), w.clone());
    let t1 = t.to_string();
    let cause = spawn(G_CLIENT, "cause", move || {
        let mut c = c0;
        match t1.as_str() {
            "A" | "S" => c = Some(w1.attach("a").0),
            "D" => drop(w1.detach(&["a"])),
            "H" => drop(c.take()),
            "B" => {
                c.as_mut().unwrap().send(b"\x00\x11");
            }
            "E" => sh0.unwrap().exit(3),
            _ => drop(w1.kill(&["a"])),
        }
        c
    });
    // read up to the event
    let mut got = vec![];
    let mut buf = [0u8; 512];
    while !find(&got, format!("{ev}\"").as_bytes()) {
        match std::io::Read::read(&mut s, &mut buf) {
            Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
            r => fail("no-event", format!("{t}: waiting for '{ev}': {r:?}, got {:?}", String::from_utf8_lossy(&got))),
        }
    }
    let mut mine = None;
    let res = if act == "list" {
        let l = w2.list_ok();
        let st = l.iter().find(|s| s.name == "a").map(|s| s.status.clone());
        let ok = match ev {
            "attached" => st == Some(Status::Attached),
            "detached" => st == Some(Status::Disconnected),
            _ => st.is_none(),
        };
        ensure!(ok, "event-early", "{t}: a list taken after the event '{ev}' shows {st:?}");
        format!("{st:?}")
    } else {
        let (c, st) = w2.attach("a");
        let ok = match ev {
            "attached" => st == AttachStatus::Busy,
            "detached" => matches!(st, AttachStatus::Attached { .. }),
            _ => matches!(st, AttachStatus::Created { .. }),
        };
        ensure!(ok, "event-early", "{t}: an attach right after the event '{ev}' is answered {st:?}");
        mine = Some(c);
        format!("{st:?}")
    };
    let first = cause.join().unwrap();
    explore(false);
    sleep_ms(800);
    // whoever is attached now reaches the shell
    let c = match (act, ev) {
        (_, "attached") => first,
        ("attach", _) => mine,
        _ => None,
    };
    if let Some(mut c) = c {
        ensure!(reached(&mut c, "q").is_some(), "not-usable", "{t}: the attached client does not reach a shell");
    }
    no_panics();
    rt::set_output(format!("{t} {act} {res}").as_bytes());
}

// ------------------------------------------------------------------ one thing right after the other
/// Two things are done to a session and a client attaches again, each as soon
/// as the one before is answered, or a bit later while one of the daemon's threads
/// is late (later than the daemon waits for it, so that the client may well be
/// turned away): nothing left to do for the earlier ones may
/// touch the session as it is then.
fn chase(st: &str, x: &str, y: &str, gap: u64) {
    let w = World::new(BASE_CFG);
    let ev = subscribe(&w);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "t0"), "talk", "session does not work");
    let mut c = Some(c);
    if st == "det" {
        c = None;
        ensure!(super::sess::wait_detached(&w, "a", 3000), "detach", "stays attached");
        sleep_ms(100);
    }
    explore(true);
    let mut log = vec![];
    for op in [x, y] {
        match op {
            "H" => c = None,
            "D" => log.push(format!("{:?}", w.detach(&["a"]))),
            "K" => log.push(format!("{:?}", w.kill(&["a"]))),
            "E" => {
                if let Some(s) = live_shells().first() {
                    s.exit(3)
                }
            }
            _ => {
                let (n, st) = w.attach("a");
                log.push(format!("{st:?}"));
                if !matches!(st, AttachStatus::Busy) {
                    c = Some(n);
                }
            }
        }
        if gap > 0 {
            sleep_ms(gap);
        }
    }
    let (n, last) = w.attach("a");
    log.push(format!("{last:?}"));
    if !matches!(last, AttachStatus::Busy) {
        c = Some(n);
    }
    explore(false);
    sleep_ms(2500);
    if let Some(c) = c.as_mut() {
        c.drain_ms(600);
    }
    let what = format!("{st}, {x} {y} A ({log:?})");
    let l = w.list_ok();
    let alive = c.as_ref().is_some_and(|c| !c.ended());
    if alive {
        ensure!(l.len() == 1 && l[0].status == Status::Attached && !l[0].attachments.is_empty(), "list", "{what}: with a client attached the list shows {l:?}");
        ensure!(reached(c.as_mut().unwrap(), "z").is_some(), "not-usable", "{what}: the attached client does not reach a shell");
    } else {
        ensure!(l.iter().all(|s| s.status == Status::Disconnected && s.attachments.is_empty()), "list", "{what}: without a client the list shows {l:?}");
    }
    ensure!(live_shells().len() <= 1, "orphan", "{what}: {} shells are left", live_shells().len());
    // the events tell the same story
    let mut state = "none";
    let lines: Vec<String> = ev.lines.lock().unwrap().iter().map(|x| x.1.clone()).collect();
    for e in &lines {
        let e2 = e.split("session.").nth(1).unwrap_or("").split('"').next().unwrap_or("");
        state = match (state, e2) {
            ("none", "created") => "new",
            ("new" | "det", "attached") => "att",
            ("att", "detached") => "det",
            ("att" | "det", "removed") => "none",
            _ => fail("events", format!("{what}: '{e2}' while {state}, in {lines:?}")),
        };
    }
    let want = if alive {
        "att"
    } else if l.is_empty() {
        "none"
    } else {
        "det"
    };
    ensure!(state == want, "events", "{what}: the events end in '{state}' but the session is '{want}': {lines:?}");
    no_panics();
    rt::set_output(what.as_bytes());
}
