//! The real attach command against the real daemon: forced attaches (P25) and
//! following variables (P23).
use super::attach::{attach_free, talks};
use super::client::{start, stderr_text, Proc, Term};
use super::sess::{cfg_mode, wait_detached};
use super::*;
use crate::rt;
use crate::wire::*;
use std::io::Write;

const BIG: u64 = 60_000_000;
fn big(mut j: Job) -> Job {
    j.step_limit = BIG;
    j
}
const HOLD: [&str; 14] = [
    "healthy", "output", "noread", "noread-big", "nowrite", "closed", "half", "leaving", "exiting", "none", "absent", "detaching", "resizing", "typing",
];
const SETS: &[&[(&str, &str)]] = &[
    &[("v", "2")],
    &[("v", "2"), ("v", "3")],
    &[("v", "2"), ("v", "1")],
    &[("v", "2"), ("v", "2")],
    &[("v", "2"), ("v", "1"), ("v", "2")],
    &[("v", "2"), ("v", "1"), ("v", "2"), ("v", "1")],
    &[("u", "9")],
    &[("u", "9"), ("v", "2"), ("u", "8")],
    &[("v", "")],
    &[("v", ""), ("v", "1")],
    &[("w", "x"), ("v", "1")],
];

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    let b = if deep { 2 } else { 1 };
    match prop {
        "P25" => {
            for h in HOLD {
                for how in ["force", "plain", "force-bg"] {
                    let inj = matches!(h, "leaving" | "exiting" | "detaching" | "resizing" | "typing");
                    let j = job(prop, "real.take", json!({"hold": h, "how": how}), if inj { o_inj() } else { o_none() }, if inj { 1 } else { 0 });
                    v.push(big(j));
                }
                for how in ["force", "plain"] {
                    if deep || matches!((h, how), ("healthy" | "leaving", _) | ("output" | "noread" | "exiting", "force")) {
                        v.push(big(job(prop, "real.take", json!({"hold": h, "how": how}), o_all(), b)));
                    }
                }
            }
            for h in if deep { &["healthy", "noread", "none"][..] } else { &["healthy"] } {
                v.push(big(job(prop, "real.rivals", json!({"hold": h}), o_all(), b)));
            }
        }
        "P23" => {
            for (i, _) in SETS.iter().enumerate() {
                for gap in [0u64, 20, 60, 110, 160, 300, 700] {
                    if SETS[i].len() == 1 && gap > 0 {
                        continue;
                    }
                    for typing in [false, true] {
                        v.push(big(job(prop, "real.follow", json!({"set": i, "gap": gap, "typing": typing}), o_none(), 0)));
                    }
                }
            }
            for n in [1u64, 1000, 16000, 17000, 40000, 300000] {
                v.push(big(job(prop, "real.bigvar", json!({"n": n}), o_none(), 0)));
            }
            for at in ["before", "dial", "attach"] {
                v.push(big(job(prop, "real.joining", json!({"at": at}), o_all(), b)));
            }
            for i in if deep { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10][..] } else { &[1, 2, 6, 8] } {
                v.push(big(job(prop, "real.follow", json!({"set": i, "gap": 0, "typing": true}), o_all(), b)));
            }
            for gap in if deep { &[20u64, 60, 110, 160, 200][..] } else { &[60] } {
                v.push(big(job(prop, "real.follow", json!({"set": 2, "gap": gap, "typing": false}), o_all(), b)));
            }
        }
        "P14" => {
            for how in WINCH {
                for n in [1u64, 2] {
                    v.push(big(job(prop, "real.winch", json!({"how": how, "n": n}), o_inj(), 1)));
                }
                if deep {
                    v.push(big(job(prop, "real.winch", json!({"how": how, "n": 1}), o_all(), 2)));
                    v.push(big(job(prop, "real.winch", json!({"how": how, "n": 3}), o_all(), 1)));
                }
                v.push(big(job(prop, "real.winch", json!({"how": how, "n": 0}), Opts { groups: 1 << G_REALCLIENT, inject: false, ..o_all() }, b)));
            }
        }
        _ => {}
    }
}
pub fn run(f: &str, p: &Value) {
    match f {
        "take" => take(&s(p, "hold"), &s(p, "how")),
        "rivals" => rivals(&s(p, "hold")),
        "follow" => follow(u(p, "set") as usize, u(p, "gap"), p["typing"] == true),
        "joining" => joining(&s(p, "at")),
        "winch" => winch(&s(p, "how"), u(p, "n")),
        "bigvar" => bigvar(u(p, "n") as usize),
        _ => panic!("unknown {f}"),
    }
}

pub fn wait_slow(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    for _ in 0..ms / 50 {
        if f() {
            return true;
        }
        sleep_ms(50);
    }
    f()
}
/// token exchange with the shell through the terminal of the attach command
pub fn term_talks(t: &mut Term, sh: &Sh, tok: &str, ms: u64) -> bool {
    let i = format!("in-{tok};");
    let o = format!("out-{tok};");
    if t.type_now(i.as_bytes()) != i.len() {
        return false;
    }
    let mut got = vec![];
    if !wait_until(ms, || {
        got.extend(sh.input());
        find(&got, i.as_bytes())
    }) {
        return false;
    }
    if !sh.out(o.as_bytes()) {
        return false;
    }
    wait_until(ms, || {
        t.pull();
        find(&t.got, o.as_bytes())
    })
}
fn attached_names(w: &World) -> Vec<String> {
    w.list_ok().into_iter().filter(|x| x.status == Status::Attached).map(|x| x.name).collect()
}

fn take(hold: &str, how: &str) {
    let w = World::new(&cfg_mode("simple"));
    rt().step_limit = BIG;
    let mut t = Term::new(0);
    let mut sh0 = None;
    let mut c0 = None;
    if hold != "absent" {
        let (mut c, sh) = w.create("a");
        ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
        sh0 = Some(sh);
        c0 = Some(c);
    }
    let (mut ob, shb) = w.create("b");
    ensure!(talks(&mut ob, &shb, "b"), "talk", "session does not work");
    match hold {
        "none" => {
            drop(c0.take());
            ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
        }
        "noread" | "noread-big" => {
            // the holder's connection fills up
            for _ in 0..if hold == "noread" { 100 } else { 400 } {
                sh0.unwrap().out_now(&[b'x'; 4096]);
                sleep_ms(1);
            }
            sleep_ms(300);
        }
        "nowrite" => {
            c0.as_ref().unwrap().s.shutdown(std::net::Shutdown::Read).ok();
        }
        _ => {}
    }
    sleep_ms(100);
    let flags: &[&str] = match how {
        "force" => &["attach", "-f", "a"],
        "force-bg" => &["attach", "-f", "-b", "a"],
        _ => &["attach", "a"],
    };
    explore(true);
    let mut h = None;
    match hold {
        "closed" => drop(c0.take()),
        "half" => {
            c0.as_ref().unwrap().s.shutdown(std::net::Shutdown::Write).ok();
        }
        "leaving" => {
            let c = c0.take();
            h = Some(inject("leave", 400, move || drop(c)));
        }
        "exiting" => {
            let sh = sh0.unwrap();
            h = Some(inject("exit", 400, move || sh.exit(7)));
        }
        "detaching" => {
            let w2 = w.clone();
            h = Some(inject("detach", 400, move || {
                w2.detach(&["a"]).ok();
            }));
        }
        "resizing" => {
            let w2 = w.clone();
            h = Some(inject("resize", 400, move || {
                w2.resize("a", 44, 99).ok();
            }));
        }
        "output" => {
            sh0.unwrap().out_now(b"some output\r\n");
        }
        "typing" => {
            let s = c0.as_ref().unwrap().s.try_clone().unwrap();
            h = Some(inject("type", 400, move || {
                let _ = (&s).write_all(b"typed by the holder");
            }));
        }
        _ => {}
    }
    let c = start(&w, G_REALCLIENT, flags);
    let quiet = wait_until(8000, || c.status().is_some() || c0.is_none() && false || attached_by_client(&w, how));
    if let Some(h) = h {
        h.join().unwrap();
    }
    explore(false);
    let _ = quiet;
    sleep_ms(700);
    let st = c.status();
    let err = stderr_text();
    let busy = err.contains("already has a terminal attached");
    let shells: Vec<Sh> = live_shells();
    let may_be_busy = !matches!(hold, "absent" | "none");
    // sh: the shell of session a
    let sh = shells.iter().copied().find(|x| *x != shb);
    let held = matches!(hold, "healthy" | "output" | "noread" | "noread-big" | "resizing" | "typing");
    let dead = hold == "exiting";
    if how == "plain" && may_be_busy && busy {
        ensure!(st == Some(0), "busy-status", "{hold}/{how}: a busy session ends the attach with {st:?}");
        if held {
            let c = c0.as_mut().unwrap();
            ensure!(!c.ended() && attached_names(&w) == ["a", "b"], "changed", "{hold}/{how}: a refused attach changed something: {:?}", w.list_ok());
            if !matches!(hold, "noread" | "noread-big" | "nowrite") {
                sh0.unwrap().input();
                ensure!(talks(c, &sh0.unwrap(), "still"), "changed", "{hold}/{how}: the holder of the session is disturbed by a refused attach");
            }
        }
    } else if how == "plain" && held {
        fail("not-refused", format!("{hold}/{how}: attach without force to a held session: status {st:?}, stderr {err:?}"));
    } else if st.is_some() && how != "force-bg" && !(dead && st == Some(7)) && !(hold == "detaching" && st == Some(0)) {
        fail("ended", format!("{hold}/{how}: the attach ended with {st:?}, stderr {err:?}"));
    } else if how == "force-bg" {
        ensure!(st == Some(0), "ended", "{hold}/{how}: the attach ended with {st:?}, stderr {err:?}");
        if !dead {
            ensure!(sh0.is_none() || sh == sh0, "shell", "{hold}/{how}: another shell than before: {shells:?}");
            ensure!(sh.is_some(), "shell", "{hold}/{how}: no shell");
            ensure!(wait_detached(&w, "a", 1000), "still-attached", "{hold}/{how}: session a stays attached: {:?}", w.list_ok());
            let (mut c2, _) = attach_free(&w, "a", 2000);
            sh.unwrap().input();
            ensure!(talks(&mut c2, &sh.unwrap(), "z"), "not-usable", "{hold}/{how}: the session does not work afterwards");
        }
    } else if st.is_none() {
        // attached: to the same shell, the holder is gone
        let Some(sh) = sh else { fail("shell", format!("{hold}/{how}: no shell is left, status {st:?}")) };
        if !dead {
            ensure!(sh0.is_none() || sh0 == Some(sh), "shell", "{hold}/{how}: attached to another shell than before");
        }
        if let Some(c) = c0.as_mut() {
            if hold != "nowrite" && hold != "half" {
                ensure!(c.wait_end(2000), "not-disconnected", "{hold}/{how}: the earlier terminal stays connected");
            }
            if matches!(hold, "healthy" | "output" | "resizing" | "typing") && how == "force" {
                ensure!(c.exit == Some(0), "holder-status", "{hold}/{how}: the earlier terminal gets status {:?}", c.exit);
            }
        }
        sh.input();
        ensure!(term_talks(&mut t, &sh, "mine", 3000), "not-attached", "{hold}/{how}: the new terminal does not reach the shell (status {:?}, stderr {})", c.status(), stderr_text());
        ensure!(attached_names(&w) == ["a", "b"], "list", "{hold}/{how}: listed {:?}", w.list_ok());
    }
    ensure!(talks(&mut ob, &shb, "c"), "disturbed", "another session is disturbed");
    set_output(format!("{st:?} {busy} {}", shells.len()).as_bytes());
    no_panics();
}
/// does the list show the terminal of the attach command?
fn attached_by_client(w: &World, how: &str) -> bool {
    // the holder's connection shows the same process, so look at the events instead
    let _ = how;
    rt().thr.iter().any(|t| t.group == G_REALCLIENT && t.name.contains('>') && !t.finished) && {
        let n = rt().thr.iter().filter(|t| t.group == G_REALCLIENT && !t.finished).count();
        let _ = w;
        n >= 4
    }
}

/// two forced attaches at once: one of them ends up attached
fn rivals(hold: &str) {
    let w = World::new(&cfg_mode("simple"));
    rt().step_limit = BIG;
    let mut t = Term::new(0);
    let (mut c0, sh) = w.create("a");
    ensure!(talks(&mut c0, &sh, "t"), "talk", "session does not work");
    let mut c0 = Some(c0);
    match hold {
        "none" => {
            drop(c0.take());
            ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
        }
        "noread" => {
            for _ in 0..100 {
                sh.out_now(&[b'x'; 4096]);
                sleep_ms(1);
            }
            sleep_ms(300);
        }
        _ => {}
    }
    explore(true);
    let c = start(&w, G_REALCLIENT, &["attach", "-f", "a"]);
    // the other one speaks the same protocol
    let w2 = w.clone();
    let rival = spawn(G_CLIENT, "rival", move || {
        let mut detached = false;
        for _ in 0..22 {
            let (c, st) = w2.attach("a");
            if !matches!(st, AttachStatus::Busy) {
                return Some((c, st));
            }
            if !detached {
                w2.detach(&["a"]).unwrap_or_else(|e| fail("detach-unanswered", e));
                detached = true;
            }
            sleep_ms(100);
        }
        None
    });
    let r = rival.join().unwrap();
    wait_until(4000, || c.status().is_some() || attached_by_client(&w, ""));
    explore(false);
    sleep_ms(4000);
    let st = c.status();
    let won = match r {
        Some((mut rc, a)) => {
            ensure!(matches!(a, AttachStatus::Attached { .. }), "rival", "the rival's attach was answered {a:?}");
            rc.drain_ms(10);
            sh.input();
            if st.is_none() && !rc.ended() {
                // both think they are attached: that cannot be
                let x = term_talks(&mut t, &sh, "x", 1000);
                fail("both", format!("two terminals are attached (client works: {x})"));
            }
            !rc.ended()
        }
        None => false,
    };
    ensure!(won || st.is_none(), "nobody", "two forced attaches left nobody attached (client status {st:?}, stderr {})", stderr_text());
    if st.is_none() {
        sh.input();
        ensure!(term_talks(&mut t, &sh, "mine", 3000), "not-attached", "the terminal does not reach the shell");
    }
    if let Some(c) = c0.as_mut() {
        ensure!(c.wait_end(2000), "not-disconnected", "the earlier terminal stays connected");
    }
    set_output(format!("{won} {st:?}").as_bytes());
    no_panics();
}

// ------------------------------------------------------------------ P23
fn name_of(vars: &[(String, String)]) -> String {
    let v = vars.iter().find(|x| x.0 == "v").map(|x| x.1.clone()).unwrap_or_default();
    format!("s-{v}")
}
fn sh_of(name: &str) -> Option<Sh> {
    live_shells().into_iter().find(|s| {
        s.exec().env.iter().any(|e| e.0 == b"SHPOOL_SESSION_NAME" && e.1 == name.as_bytes())
    })
}
fn follow(set: usize, gap: u64, typing: bool) {
    let w = World::new(&cfg_mode("simple"));
    rt().step_limit = BIG;
    let mut t = Term::new(0);
    ensure!(w.set_var("v", Some("1")).is_ok(), "var", "no answer");
    let (mut ob, shb) = w.create("b");
    ensure!(talks(&mut ob, &shb, "b"), "talk", "session does not work");
    let mut h = w.hdr("fix-7");
    h.name_template = "fix-{u}".into();
    w.set_var("u", Some("7")).ok();
    let (mut oc, shc) = w.create_h(h);
    ensure!(talks(&mut oc, &shc, "c"), "talk", "session does not work");
    let c = start(&w, G_REALCLIENT, &["attach", "s-{v}"]);
    ensure!(wait_until(3000, || sh_of("s-1").is_some()), "attach", "the client did not attach: {}", stderr_text());
    let sh1 = sh_of("s-1").unwrap();
    ensure!(term_talks(&mut t, &sh1, "one", 3000), "attach", "the client is not attached");
    sleep_ms(100);
    let mut typed = vec![];
    explore(true);
    for (i, (k, x)) in SETS[set].iter().enumerate() {
        if i > 0 {
            sleep_ms(gap);
        }
        if typing {
            let b = format!("<{i}>");
            t.type_now(b.as_bytes());
            typed.extend_from_slice(b.as_bytes());
        }
        let r = w.set_var(k, if x.is_empty() { None } else { Some(x) });
        ensure!(r.is_ok(), "unanswered", "changing a variable: {r:?}");
    }
    settle();
    let last = SETS[set].len() as u64;
    sleep_ms(1000 * last);
    explore(false);
    let vars = w.get_vars().unwrap_or_else(|e| fail("vars", e));
    let want = name_of(&vars);
    let what = format!("after {:?} with gaps of {gap} ms", SETS[set]);
    ensure!(c.status().is_none(), "ended", "{what}: the attach command ended with {:?}, stderr {}", c.status(), stderr_text());
    ensure!(wait_slow(5000, || on(&w, &want)), "wrong-session", "{what}: the client should be attached to {want}, listed: {:?}", w.list_ok());
    let Some(sh) = sh_of(&want) else { fail("no-shell", format!("{what}: session {want} has no shell")) };
    let mut inputs = vec![];
    for x in live_shells() {
        inputs.push((x, x.input()));
    }
    if typing {
        // every byte typed reached one of the sessions
        let mut all: Vec<u8> = inputs.iter().filter(|x| x.0 != shb && x.0 != shc).flat_map(|x| x.1.clone()).collect();
        all.sort();
        typed.sort();
        ensure!(all == typed, "lost-input", "{what}: typed {}, the sessions received {inputs:?}", esc(&typed));
    }
    ensure!(term_talks(&mut t, &sh, "end", 3000), "not-usable", "{what}: the client does not reach {want}");
    // the sessions it left are intact, nobody is left attached to them
    for x in w.list_ok() {
        if x.name.starts_with("s-") && x.name != want {
            ensure!(wait_detached(&w, &x.name, 2000), "still-attached", "{what}: {} is still attached", x.name);
        }
    }
    ensure!(sh1.alive() && w.list_ok().iter().any(|x| x.name == "s-1"), "left", "{what}: the session it left is gone");
    for (n, cl, sh) in [("b", &mut ob, shb), ("fix-7", &mut oc, shc)] {
        ensure!(!cl.ended() && talks(cl, &sh, "still"), "disturbed", "{what}: the terminal on {n} is disturbed");
    }
    // the others were told the final set
    if let Some(m) = ob.switches.last() {
        let mut m = m.vars.clone();
        m.sort();
        ensure!(m == vars, "told", "{what}: told {m:?}, final {vars:?}");
    }
    set_output(format!("{want} {}", live_shells().len()).as_bytes());
    no_panics();
}
fn on(w: &World, name: &str) -> bool {
    let l = w.list_ok();
    l.iter().all(|x| !x.name.starts_with("s-") || (x.status == Status::Attached) == (x.name == name)) && l.iter().any(|x| x.name == name)
}
/// a variable changes at any moment of an attach
fn joining(at: &str) {
    let w = World::new(&cfg_mode("simple"));
    rt().step_limit = BIG;
    let mut t = Term::new(0);
    ensure!(w.set_var("v", Some("1")).is_ok(), "var", "no answer");
    explore(true);
    let w2 = w.clone();
    let h = if at == "before" {
        spawn(G_CLIENT, "setter", move || w2.set_var("v", Some("2")))
    } else {
        inject("set", 500, move || w2.set_var("v", Some("2")))
    };
    let c: Proc = start(&w, G_REALCLIENT, &["attach", "s-{v}"]);
    let r = h.join().unwrap();
    sleep_ms(1000);
    if at == "attach" {
        let r = w.set_var("v", Some("3"));
        ensure!(r.is_ok(), "unanswered", "changing a variable: {r:?}");
        sleep_ms(1000);
    }
    explore(false);
    ensure!(r.is_ok(), "unanswered", "changing a variable: {r:?}");
    let want = name_of(&w.get_vars().unwrap_or_else(|e| fail("vars", e)));
    ensure!(c.status().is_none(), "ended", "the attach command ended with {:?}, stderr {}", c.status(), stderr_text());
    ensure!(wait_slow(5000, || on(&w, &want)), "wrong-session", "the client should be attached to {want}, listed: {:?}", w.list_ok());
    let Some(sh) = sh_of(&want) else { fail("no-shell", format!("session {want} has no shell")) };
    sh.input();
    ensure!(term_talks(&mut t, &sh, "end", 3000), "not-usable", "the client does not reach {want}");
    set_output(format!("{}", live_shells().len()).as_bytes());
    no_panics();
}
const WINCH: [&str; 5] = ["new", "re", "take", "follow", "follow-back"];
/// the user's terminal changes its size at any moment around an attach
fn winch(how: &str, n: u64) {
    let w = World::new(&cfg_mode("simple"));
    rt().step_limit = BIG;
    let mut t = Term::new(0);
    rt::CLIENT_WINSZ.set(Some((24, 80)));
    ensure!(w.set_var("v", Some("1")).is_ok(), "var", "no answer");
    let mut c0 = None;
    if matches!(how, "re" | "take") {
        let (c, _) = w.create("s-1");
        c0 = Some(c);
        if how == "re" {
            drop(c0.take());
            ensure!(wait_detached(&w, "s-1", 3000), "detach", "stays attached");
        }
    }
    if how == "follow-back" {
        drop(w.create("s-2").0);
        ensure!(wait_detached(&w, "s-2", 3000), "detach", "stays attached");
    }
    let follow = how.starts_with("follow");
    explore(!follow);
    let sizes: Vec<(u16, u16)> = (1..=n as u16).map(|i| (24 + i, 80 + i)).collect();
    let s2 = sizes.clone();
    // none at other moments: right after the client has read the size
    let asked = n == 0;
    let go = move || {
        for (r, c) in s2 {
            rt::winch(r, c);
            sleep_ms(10);
        }
    };
    if asked && !follow {
        rt::WINCH_NEXT.set(Some((25, 81)));
    }
    let (c, h);
    if follow {
        c = start(&w, G_REALCLIENT, &["attach", "s-{v}"]);
        ensure!(wait_slow(3000, || on(&w, "s-1")), "attach", "the client did not attach: {}", stderr_text());
        sleep_ms(300);
        explore(true);
        if asked {
            rt::WINCH_NEXT.set(Some((25, 81)));
        }
        h = inject("winch", 700, go);
        ensure!(w.set_var("v", Some("2")).is_ok(), "var", "no answer");
    } else {
        h = inject("winch", 700, go);
        c = start(&w, G_REALCLIENT, if how == "take" { &["attach", "-f", "s-{v}"] } else { &["attach", "s-{v}"] });
    }
    h.join().unwrap();
    sleep_ms(1500);
    explore(false);
    let name = if follow { "s-2" } else { "s-1" };
    let ctx = format!("{how}, the terminal becomes {sizes:?}");
    ensure!(c.status().is_none(), "ended", "{ctx}: the attach command ended with {:?}, stderr {}", c.status(), stderr_text());
    ensure!(wait_slow(3000, || on(&w, name)), "attach", "{ctx}: not attached: {:?}", w.list_ok());
    let Some(sh) = sh_of(name) else { fail("no-shell", format!("{ctx}: no shell")) };
    let want = if asked { (25, 81) } else { *sizes.last().unwrap() };
    ensure!(wait_until(1500, || sh.winsz() == want), "size", "{ctx}: the terminal of the shell stays at {:?}", sh.winsz());
    ensure!(term_talks(&mut t, &sh, "end", 3000), "not-usable", "{ctx}: the client does not reach the session");
    drop(c0);
    no_panics();
}
/// large variable sets
fn bigvar(n: usize) {
    let w = World::new(&cfg_mode("simple"));
    rt().step_limit = BIG;
    let mut t = Term::new(0);
    w.set_var("v", Some("1")).unwrap();
    let c = start(&w, G_REALCLIENT, &["attach", "s-{v}"]);
    ensure!(wait_until(3000, || sh_of("s-1").is_some()), "attach", "the client did not attach: {}", stderr_text());
    let sh1 = sh_of("s-1").unwrap();
    ensure!(term_talks(&mut t, &sh1, "one", 3000), "attach", "the client is not attached");
    let r = w.set_var("big", Some(&"x".repeat(n)));
    ensure!(r.is_ok(), "unanswered", "setting a variable to {n} bytes: {r:?}");
    sleep_ms(500);
    ensure!(c.status().is_none(), "ended", "a variable of {n} bytes ended the attach command: {:?}, stderr {}", c.status(), stderr_text());
    ensure!(term_talks(&mut t, &sh1, "two", 3000), "not-usable", "a variable of {n} bytes cut the client off");
    w.set_var("v", Some("2")).unwrap();
    ensure!(wait_slow(5000, || on(&w, "s-2")), "wrong-session", "with a variable of {n} bytes the client does not follow: {:?}, stderr {}", w.list_ok(), stderr_text());
    ensure!(term_talks(&mut t, &sh_of("s-2").unwrap(), "three", 3000), "not-usable", "the client does not reach s-2");
    no_panics();
}
