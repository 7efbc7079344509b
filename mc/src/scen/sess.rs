//! Single sessions under stress: exit status (P06), wedging (P07), times to
//! live (P10), variables (P13), terminal size (P14), foreign users (P16),
//! names (P17), vanished clients (P02, P27).
use super::attach::{attach_free, reached, talks};
use super::*;
use crate::rt;
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::time::Duration;

const BIG: u64 = 60_000_000;
fn big(mut j: Job) -> Job {
    j.step_limit = BIG;
    j
}
const CFGS: [&str; 3] = ["simple", "screen", "lines"];
pub fn cfg_mode(mode: &str) -> String {
    let m = match mode {
        "screen" => "\"screen\"".to_string(),
        "lines" => "{ lines = 5 }".to_string(),
        "vscreen" => "\"screen\"\nsession_restore_engine = \"vterm\"".to_string(),
        "vlines" => "{ lines = 5 }\nsession_restore_engine = \"vterm\"".to_string(),
        _ => "\"simple\"".to_string(),
    };
    format!("prompt_prefix = \"\"\nnoread_etc_environment = true\nshell = \"/bin/bash\"\nsession_restore_mode = {m}\n")
}

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    let b = if deep { 2 } else { 1 };
    match prop {
        "P06" => {
            for part in 0..8u64 {
                v.push(big(job(prop, "sess.codes", json!({"part": part, "parts": 8}), o_none(), 0)));
            }
            for how in ["fresh", "reattached", "output", "background", "reattaching", "resizing", "slow", "closed", "closed-late"] {
                v.push(job(prop, "sess.exit", json!({"how": how}), o_all(), b));
            }
        }
        "P07" => {
            let reqs = requests().len() as u64;
            for r in 0..reqs {
                for what in ["hang", "close", "half", "flip"] {
                    v.push(big(job(prop, "sess.partial", json!({"req": r, "what": what}), o_none(), 0)));
                }
            }
            for kind in ["noread", "nowrite", "halfclose", "reset", "flood", "events", "crowd", "pager-noread", "reply-noread", "typer"] {
                v.push(big(job(prop, "sess.stuck", json!({"kind": kind}), o_none(), 0)));
            }
            for kind in ["noread", "flood", "halfclose", "reset"] {
                for op in ["L", "D", "K", "R", "V", "A", "E"] {
                    v.push(job(prop, "sess.stuckop", json!({"kind": kind, "op": op}), o_all(), b));
                }
            }
        }
        "P10" => {
            for ttl in [0u64, 1, 2, 3, 29, 59, 60, 61, 100, 150] {
                v.push(big(job(prop, "sess.ttls", json!({"ttl": ttl}), o_none(), 0)));
            }
            for ttl in [3600u64, 3601, 7200] {
                if ttl == 3600 || deep {
                    v.push(big(job(prop, "sess.ttls", json!({"ttl": ttl, "idle": true}), o_none(), 0)));
                }
            }
            v.push(big(job(prop, "sess.ttlbig", json!({}), o_none(), 0)));
            for part in 0..48u64 {
                v.push(big(job(prop, "sess.ttlset", json!({"part": part, "parts": 48}), o_none(), 0)));
            }
            for (part, _) in TTLHIST.iter().enumerate() {
                v.push(big(job(prop, "sess.ttlhist", json!({"h": part}), o_none(), 0)));
            }
            for ev in ["exit", "kill", "attach", "detach", "hangup", "create", "list"] {
                for st in ["att", "det"] {
                    if st == "det" && matches!(ev, "detach" | "hangup") {
                        continue;
                    }
                    v.push(job(prop, "sess.ttlrace", json!({"ev": ev, "st": st}), o_all(), b));
                }
            }
        }
        "P13" => {
            for set in VARSETS.iter() {
                for who in ["attached", "none", "dead", "noread", "attaching"] {
                    if who != "attached" && set.len() > 2 && !deep {
                        continue;
                    }
                    v.push(job(prop, "sess.vars", json!({"ops": set, "who": who}), o_all(), b));
                }
            }
            for n in [1u64, 9, 10, 11, 12, 40] {
                for slow in [false, true] {
                    v.push(big(job(prop, "sess.varburst", json!({"n": n, "slow": slow}), o_none(), 0)));
                }
            }
        }
        "P14" => {
            for m in ["vscreen", "vlines"] {
                v.push(big(job(prop, "sess.sizes", json!({"mode": m, "part": 0, "parts": 1}), o_none(), 0)));
            }
            for m in CFGS {
                for part in 0..4u64 {
                    v.push(big(job(prop, "sess.sizes", json!({"mode": m, "part": part, "parts": 4}), o_none(), 0)));
                }
                if m == "simple" || deep && m != "lines" {
                    v.push(big(job(prop, "sess.sizes", json!({"mode": m, "part": 0, "parts": 1, "max": true}), o_none(), 0)));
                }
                for st in ["new", "re"] {
                    v.push(big(job(prop, "sess.early", json!({"mode": m, "st": st}), o_none(), 0)));
                    v.push(job(prop, "sess.resize", json!({"mode": m, "st": st, "n": 1}), o_all(), b));
                }
            }
            for st in ["new", "re", "att"] {
                for n in [2, 3] {
                    v.push(job(prop, "sess.resize", json!({"mode": "simple", "st": st, "n": n}), o_all(), if n == 3 { 1 } else { b }));
                }
            }
            for ev in ["output", "hangup", "detach", "exit", "kill", "noread"] {
                v.push(job(prop, "sess.resizeev", json!({"ev": ev}), o_all(), b));
            }
        }
        "P16" => {
            for r in 0..requests().len() as u64 + 1 {
                v.push(big(job(prop, "sess.foreign", json!({"req": r}), o_none(), 0)));
            }
            for r in ["attach", "kill", "detach", "var", "list"] {
                v.push(job(prop, "sess.foreignrace", json!({"req": r}), o_all(), b));
            }
        }
        "P17" => {
            for part in 0..16u64 {
                v.push(big(job(prop, "sess.names", json!({"part": part, "parts": 16, "len": if deep { 4 } else { 3 }}), o_none(), 0)));
            }
            v.push(big(job(prop, "sess.shared", json!({}), o_none(), 0)));
        }
        "P02" | "P27" => {
            for st in ["new", "re"] {
                for how in ["close", "half", "reset"] {
                    for pend in ["silent", "output", "input"] {
                        v.push(job(prop, "sess.vanish", json!({"st": st, "how": how, "pend": pend}), o_all(), b));
                    }
                }
            }
            if prop == "P02" {
                for st in ["attached", "detached"] {
                    for ev in ["none", "detach", "vanish", "resize", "var", "attach", "kill"] {
                        v.push(job(prop, "sess.closetty", json!({"st": st, "ev": ev}), o_all(), b));
                    }
                }
            }
            if prop == "P27" {
                for how in ["close", "half", "reset"] {
                    for pend in ["silent", "output", "flood", "input", "bursts"] {
                        for mode in CFGS {
                            v.push(big(job(prop, "sess.gone", json!({"how": how, "pend": pend, "mode": mode}), o_none(), 0)));
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
pub fn run(f: &str, p: &Value) {
    match f {
        "codes" => codes(p),
        "exit" => exit(&s(p, "how")),
        "partial" => partial(u(p, "req") as usize, &s(p, "what")),
        "stuck" => stuck(&s(p, "kind")),
        "stuckop" => stuckop(&s(p, "kind"), &s(p, "op")),
        "ttls" => ttls(u(p, "ttl"), p["idle"] == true),
        "ttlbig" => ttlbig(),
        "ttlset" => ttlset(p),
        "ttlhist" => ttlhist(u(p, "h") as usize),
        "ttlrace" => ttlrace(&s(p, "ev"), &s(p, "st")),
        "vars" => vars(p),
        "varburst" => varburst(u(p, "n") as usize, p["slow"] == true),
        "sizes" => sizes(p),
        "early" => early(&s(p, "mode"), &s(p, "st")),
        "resize" => resize(p),
        "resizeev" => resizeev(&s(p, "ev")),
        "foreign" => foreign(u(p, "req") as usize),
        "foreignrace" => foreignrace(&s(p, "req")),
        "names" => names(p),
        "shared" => shared(),
        "vanish" => vanish(p),
        "gone" => gone(p),
        "closetty" => closetty(&s(p, "st"), &s(p, "ev")),
        _ => panic!("unknown {f}"),
    }
}

/// one of every request
pub fn requests() -> Vec<(&'static str, ConnectHeader)> {
    let n = |x: &str| vec![x.to_string()];
    let mut h = AttachHeader {
        name: "a".into(),
        name_template: "a".into(),
        local_tty_size: TtySize { rows: 30, cols: 90, xpixel: 0, ypixel: 0 },
        local_env: vec![("TERM".into(), "xterm".into()), ("SSH_AUTH_SOCK".into(), "/tmp/foreign".into())],
        ..Default::default()
    };
    let re = h.clone();
    h.name = "fresh".into();
    h.name_template = "fresh".into();
    h.ttl_secs = Some(5);
    vec![
        ("attach-new", ConnectHeader::Attach(h)),
        ("attach", ConnectHeader::Attach(re)),
        ("list", ConnectHeader::List),
        ("resize", ConnectHeader::SessionMessage { session_name: "a".into(), payload: Payload::Resize { tty_size: TtySize { rows: 7, cols: 9, xpixel: 0, ypixel: 0 } } }),
        ("detach-msg", ConnectHeader::SessionMessage { session_name: "a".into(), payload: Payload::Detach }),
        ("detach", ConnectHeader::Detach { sessions: n("a") }),
        ("kill", ConnectHeader::Kill { sessions: n("a") }),
        ("log", ConnectHeader::SetLogLevel { level: "Trace".into() }),
        ("getvars", ConnectHeader::GetVars),
        ("setvar", ConnectHeader::ModifyVar { var: "v".into(), val: Some("foreign".into()) }),
        ("delvar", ConnectHeader::ModifyVar { var: "v".into(), val: None }),
    ]
}
fn wait_gone(w: &World, name: &str, ms: u64) -> bool {
    wait_until(ms, || !w.list_ok().iter().any(|x| x.name == name))
}
pub fn wait_detached(w: &World, name: &str, ms: u64) -> bool {
    wait_until(ms, || w.list_ok().iter().any(|x| x.name == name && x.status == Status::Disconnected))
}

// ------------------------------------------------------------------ P06
fn codes(p: &Value) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let mut n = 0;
    for code in 0..256 + 64 {
        if code as u64 % u(p, "parts") != u(p, "part") {
            continue;
        }
        if matches!(code, 288 | 289) {
            continue; // no such signals
        }
        for re in [false, true] {
            let (mut c, sh) = w.create("a");
            if re {
                ensure!(w.detach(&["a"]).is_ok(), "detach", "no answer");
                ensure!(c.until(2000, |c| c.exit.is_some()) && c.exit == Some(0), "detach-status", "a detached client receives exit status {:?}", c.exit);
                let (c2, st) = attach_free(&w, "a", 2000);
                ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "reattach answered {st:?}");
                c = c2;
            }
            ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
            let want = if code < 256 {
                sh.exit(code);
                code
            } else {
                let sig = code - 256 + 1;
                sh.killed_by(sig);
                1
            };
            ensure!(c.wait_end(3000), "no-end", "the connection stays open after the shell exited ({code}, reattached {re})");
            ensure!(c.exit == Some(want), "status", "shell ended with {code} (256+ is a signal), the client received {:?}, reattached {re}", c.exit);
            // usable at once
            n += 1;
            ensure!(w.list_ok().iter().all(|x| x.name != "a") || wait_gone(&w, "a", 300), "listed", "the session is still listed after its shell's exit was reported");
        }
    }
    set_output(format!("{n}").as_bytes());
    no_panics();
}
fn exit(how: &str) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    if how != "fresh" {
        ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    }
    if matches!(how, "reattached" | "reattaching") {
        w.detach(&["a"]).unwrap_or_else(|e| fail("detach-unanswered", e));
        c.wait_end(2000);
        wait_detached(&w, "a", 3000);
    }
    if how == "background" {
        rt().procs.get_mut(&sh.pid).unwrap().tty_survives = true;
    }
    if how == "reattached" {
        let (c2, st) = attach_free(&w, "a", 2000);
        ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "reattach answered {st:?}");
        c = c2;
        ensure!(talks(&mut c, &sh, "u"), "talk", "session does not work");
    }
    if how == "closed-late" {
        // a shell which has given up its terminal for a while
        rt::tty_close(sh.tty());
        sleep_ms(3000);
    }
    explore(true);
    let output = how == "output";
    let closed = how == "closed";
    let dying = inject("shell-exit", 200, move || {
        if output {
            sh.out_now(b"last words\r\n");
        }
        if closed {
            rt::tty_close(sh.tty());
            sleep_ms(1000);
        }
        sh.exit(42)
    });
    let mut other = None;
    let mut fresh = false;
    match how {
        "reattaching" => {
            let (c2, st) = w.attach("a");
            fresh = matches!(st, AttachStatus::Created { .. });
            ensure!(!matches!(st, AttachStatus::Busy), "busy", "attach to a detached session answered Busy");
            c = c2;
        }
        "resizing" => {
            let w2 = w.clone();
            other = Some(spawn(G_CLIENT, "resizer", move || w2.resize("a", 10, 10)));
        }
        _ => {}
    }
    if how == "slow" {
        sleep_ms(800);
    }
    dying.join().unwrap();
    explore(false);
    if let Some(o) = other {
        let r = o.join().unwrap();
        ensure!(r.is_ok(), "resize-unanswered", "resize during the exit: {r:?}");
    }
    if fresh {
        // the old shell was gone already: this is a new one and must work
        ensure!(reached(&mut c, "new").is_some(), "new-shell", "the replacement session does not work");
        set_output(b"fresh");
    } else {
        let end = c.wait_end(if how == "background" { 9000 } else { 4000 });
        ensure!(end, "no-end", "{how}: the connection stays open after the shell exited");
        ensure!(c.exit == Some(42), "status", "{how}: the client received exit status {:?} instead of 42", c.exit);
        if how == "output" {
            ensure!(c.has(b"last words"), "lost-output", "output before the exit is lost: {}", esc(&c.data));
        }
        ensure!(wait_gone(&w, "a", 500), "listed", "the session is still listed after its shell's exit was reported");
        let (mut c2, st) = w.attach("a");
        ensure!(matches!(st, AttachStatus::Created { .. }), "not-created", "attach after the exit answered {st:?}");
        ensure!(reached(&mut c2, "again").is_some(), "new-shell", "the new session does not work");
        set_output(b"ok");
    }
    no_panics();
}

// ------------------------------------------------------------------ P07
/// every well-formed request is still answered in time
fn healthy(w: &World, what: &str) {
    let t0 = now_ms();
    let l = w.list();
    ensure!(l.is_ok(), "list-unanswered", "{what}: a list request gets no answer: {l:?}");
    let (mut c, st) = w.attach("probe");
    ensure!(matches!(st, AttachStatus::Created { .. }), "create-refused", "{what}: creating another session answered {st:?}");
    let Some(sh) = reached(&mut c, "probe") else { fail("probe-dead", format!("{what}: a new session does not work")) };
    ensure!(w.set_var("probe", Some("1")).is_ok(), "var-unanswered", "{what}: changing a variable gets no answer");
    ensure!(w.get_vars().is_ok_and(|v| v.contains(&("probe".into(), "1".into()))), "vars", "{what}: the variable is not set");
    let r = w.resize("probe", 11, 22);
    ensure!(matches!(r, Ok(SessionMessageReply::Resize(_))), "resize", "{what}: resize answered {r:?}");
    let r = w.detach(&["probe"]);
    ensure!(matches!(&r, Ok(d) if d.not_found_sessions.is_empty() && d.not_attached_sessions.is_empty()), "detach", "{what}: detach answered {r:?}");
    ensure!(c.until(2000, |c| c.ended()), "detach-end", "{what}: the detached terminal stays connected");
    let (mut c, st) = attach_free(w, "probe", 3000);
    ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{what}: reattach answered {st:?}");
    ensure!(talks(&mut c, &sh, "again"), "reattach-dead", "{what}: the reattached session does not work");
    let r = w.kill(&["probe"]);
    ensure!(matches!(&r, Ok(d) if d.not_found_sessions.is_empty()), "kill", "{what}: kill answered {r:?}");
    ensure!(!sh.alive(), "kill-alive", "{what}: the killed shell is alive");
    let dt = now_ms() - t0;
    ensure!(dt < 8000, "slow", "{what}: ordinary requests took {dt} ms");
    no_panics();
}
/// an idle daemon must not burn the processor
fn idle(what: &str) {
    let s0 = rt().step;
    sleep_ms(4000);
    let d = rt().step - s0;
    ensure!(d < 20_000, "spin", "{what}: {d} steps in 4 s without anything to do");
}
fn partial(r: usize, what: &str) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let (mut c, sh) = w.create("keep");
    let (_ca, sha) = w.create("a");
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    let (name, req) = &requests()[r];
    let full = enc(req);
    let mut held = vec![];
    let flips = [0x00u8, 0xff, 0xdd, 0xdf, 0xc6, 0xdb, 0x80, 0x90, 0xa0, 0xc1];
    let mut n = 0;
    // hold on to at most a few at a time
    for k in 0..full.len() {
        let muts: Vec<Vec<u8>> = if what == "flip" {
            flips.iter().filter(|f| **f != full[k]).map(|f| {
                let mut v = full.clone();
                v[k] = *f;
                v
            }).collect()
        } else {
            vec![full[..k].to_vec()]
        };
        for m in muts {
            n += 1;
            let Some(mut s) = (if k % 2 == 0 { w.dial() } else { w.dial_raw() }) else { fail("dial", format!("cannot connect any more after {n} partial requests")) };
            let _ = s.write_all(&m);
            match what {
                "hang" | "flip" => held.push(s),
                "close" => drop(s),
                _ => {
                    s.shutdown(std::net::Shutdown::Write).ok();
                    held.push(s);
                }
            }
            if held.len() > 4 {
                sleep_ms(300);
                held.clear();
            }
        }
        if what != "flip" || k % 16 == 0 {
            // the daemon answers within its ordinary time although a request is unfinished
            ensure!(w.list().is_ok(), "list-unanswered", "{name} cut after {k}: list gets no answer");
        }
        no_panics();
    }
    held.clear();
    sleep_ms(500);
    ensure!(talks(&mut c, &sh, "z"), "disturbed", "{name} {what}: an uninvolved session does not work any more");
    if what != "flip" {
        ensure!(sha.alive(), "collateral", "{name} {what}: a truncated request took effect");
    }
    healthy(&w, &format!("{name} {what}"));
    idle(&format!("{name} {what}"));
    set_output(format!("{n}").as_bytes());
}
/// a client that makes trouble on session "a"; returns what must stay open
fn trouble(w: &World, kind: &str) -> (Vec<Client>, Option<Sh>, Vec<std::os::unix::net::UnixStream>) {
    let mut cl = vec![];
    let mut raw = vec![];
    let mut shell = None;
    match kind {
        "noread" | "nowrite" | "halfclose" | "reset" | "flood" | "typer" => {
            let (mut c, sh) = w.create("a");
            shell = Some(sh);
            ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
            match kind {
                "noread" => {
                    for _ in 0..4000 {
                        if sh.out_now(&[b'x'; 4096]) < 0 {
                            sleep_ms(1);
                        }
                    }
                }
                "flood" => {
                    spawn(G_CLIENT, "flood", move || {
                        for _ in 0..40000 {
                            if !sh.alive() {
                                break;
                            }
                            if sh.out_now(&[b'y'; 8192]) < 0 {
                                sleep_ms(5);
                            }
                        }
                    });
                    sleep_ms(400);
                }
                "typer" => {
                    // a shell that does not read its input
                    for _ in 0..600 {
                        let b = [b'q'; 4096];
                        rt::sysn(libc::SYS_sendto, &[rawfd(&c.s) as u64, b.as_ptr() as u64, b.len() as u64, (libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) as u64, 0, 0]);
                        sleep_ms(1);
                    }
                }
                "halfclose" => {
                    c.s.shutdown(std::net::Shutdown::Write).ok();
                }
                "reset" => {
                    // closed with unread data pending
                    sh.out(b"unread");
                    sleep_ms(10);
                }
                _ => {}
            }
            if kind != "reset" {
                cl.push(c);
            }
        }
        "events" => {
            for _ in 0..3 {
                raw.push(std::os::unix::net::UnixStream::connect(events_sock(w)).unwrap());
            }
        }
        "crowd" => {
            for i in 0..40 {
                let s = if i % 2 == 0 { w.dial() } else { w.dial_raw() };
                raw.push(s.unwrap());
            }
        }
        "reply-noread" => {
            for (n, r) in requests() {
                if !n.starts_with("attach") && n != "kill" {
                    let mut s = w.dial_raw().unwrap();
                    let _ = s.write_all(&enc(&r));
                    raw.push(s);
                }
            }
        }
        "pager-noread" => {
            let mut s = w.dial().unwrap();
            let _ = s.write_all(&enc(&ConnectHeader::Attach(w.hdr("p"))));
            raw.push(s);
            sleep_ms(200);
            if let Some(sh) = live_shells().last() {
                for _ in 0..200 {
                    sh.out_now(&[b'z'; 4096]);
                    sleep_ms(1);
                }
            }
        }
        _ => panic!("{kind}"),
    }
    (cl, shell, raw)
}
fn stuck(kind: &str) {
    let cfg = if kind == "pager-noread" {
        format!("{BASE_CFG}motd_args = []\n[motd.pager]\nbin = \"less\"\n")
    } else {
        BASE_CFG.to_string()
    };
    let w = World::prepare(&cfg);
    rt().step_limit = BIG;
    w.start_daemon();
    let t = trouble(&w, kind);
    let w2 = w.clone();
    if kind == "pager-noread" {
        // the pager occupies every attach; requests and lists still work
        for _ in 0..5 {
            ensure!(w2.list().is_ok(), "list-unanswered", "{kind}: list gets no answer");
            ensure!(w2.set_var("x", Some("1")).is_ok(), "var-unanswered", "{kind}: var gets no answer");
            let r = w2.detach(&["p", "zz"]);
            ensure!(r.is_ok(), "detach-unanswered", "{kind}: detach gets no answer");
            let r = w2.resize("p", 3, 4);
            ensure!(r.is_ok(), "resize-unanswered", "{kind}: resize gets no answer: {r:?}");
            sleep_ms(700);
        }
        let r = w2.kill(&["p"]);
        ensure!(r.is_ok(), "kill-unanswered", "{kind}: kill gets no answer");
        drop(t);
        no_panics();
        return;
    }
    healthy(&w, kind);
    if kind == "events" {
        for i in 0..120 {
            let n = format!("e{i}");
            let (c, _) = w.create(&n);
            drop(c);
            ensure!(w.kill(&[&n]).is_ok(), "kill", "kill gets no answer");
        }
        healthy(&w, kind);
    }
    if !matches!(kind, "flood") {
        idle(kind);
    }
    // the troublesome session itself can be taken away
    if let Some(sh) = t.1 {
        let r = w.detach(&["a"]);
        ensure!(r.is_ok(), "detach-unanswered", "{kind}: detaching the troublesome client gets no answer");
        let (mut c, st) = attach_free(&w, "a", 8000);
        ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{kind}: reattach answered {st:?}");
        if kind != "flood" && kind != "typer" {
            ensure!(talks(&mut c, &sh, "back"), "reattach-dead", "{kind}: the session does not work any more");
        }
        let r = w.kill(&["a"]);
        ensure!(r.is_ok() && !sh.alive(), "kill", "{kind}: the session cannot be killed: {r:?}");
    }
    drop(t);
    healthy(&w, kind);
    set_output(kind.as_bytes());
}
fn stuckop(kind: &str, op: &str) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let t = trouble(&w, kind);
    let sh = t.1.unwrap();
    let (mut c2, sh2) = w.create("b");
    ensure!(talks(&mut c2, &sh2, "b"), "talk", "another session does not work");
    explore(true);
    let t0 = now_ms();
    match op {
        "L" => {
            w.list_ok();
        }
        "D" => {
            let r = w.detach(&["a", "b"]);
            ensure!(matches!(&r, Ok(d) if d.not_found_sessions.is_empty()), "detach", "{kind}: detach answered {r:?}");
        }
        "K" => {
            let r = w.kill(&["a"]);
            ensure!(matches!(&r, Ok(_)) && !sh.alive(), "kill", "{kind}: kill answered {r:?}, shell alive {}", sh.alive());
        }
        "R" => {
            for n in ["a", "b"] {
                let r = w.resize(n, 5, 6);
                ensure!(r.is_ok(), "resize", "{kind}: resize of {n} answered {r:?}");
            }
        }
        "V" => {
            let r = w.set_var("k", Some("v"));
            ensure!(r.is_ok(), "var", "{kind}: var change answered {r:?}");
        }
        "A" => {
            let (_, st) = w.attach("a");
            ensure!(!matches!(st, AttachStatus::Created { .. }), "second-shell", "{kind}: attach answered {st:?}");
        }
        "E" => {
            sh.exit(3);
            sleep_ms(100);
            w.list_ok();
        }
        _ => {}
    }
    let dt = now_ms() - t0;
    explore(false);
    ensure!(dt < 4000, "slow", "{kind}/{op}: took {dt} ms");
    if op != "D" {
        ensure!(talks(&mut c2, &sh2, "c"), "disturbed", "{kind}/{op}: another session does not work any more");
    }
    let _ = w.list_ok();
    let (mut c3, st) = w.attach("fresh");
    ensure!(matches!(st, AttachStatus::Created { .. }) && reached(&mut c3, "f").is_some(), "create", "{kind}/{op}: a new session answered {st:?}");
    set_output(format!("{op}").as_bytes());
    drop(t);
    no_panics();
}

// ------------------------------------------------------------------ P10
const KILL_SLACK: u64 = 1500;
fn ttl_create(w: &World, name: &str, ttl: Option<u64>) -> (Client, Sh, u64, u64) {
    let mut h = w.hdr(name);
    h.ttl_secs = ttl;
    let t0 = now_ms();
    let (c, sh) = w.create_h(h);
    (c, sh, t0, now_ms())
}
fn listed(w: &World, name: &str) -> bool {
    w.list_ok().iter().any(|x| x.name == name)
}
fn ttls(ttl: u64, idle: bool) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
        for att in [true, false] {
            if idle && att {
                continue;
            }
            for hup in [true, false] {
                if idle && !hup {
                    continue;
                }
                let (mut c, sh, t0, t1) = ttl_create(&w, "a", Some(ttl));
                if !hup {
                    rt().procs.get_mut(&sh.pid).unwrap().hup = rt::HupPolicy::Ignore;
                }
                let mut c = if att { Some(c) } else {
                    w.detach(&["a"]).ok();
                    c.wait_end(1000);
                    None
                };
                let what = format!("ttl {ttl} attached {att}");
                let end = t0 + ttl * 1000;
                // still there just before
                if end > now_ms() + 50 {
                    sleep_ms(end - now_ms() - 40);
                    ensure!(sh.alive() && sh.signals().is_empty(), "early", "{what}: ended {} ms before its time", end - now_ms());
                    ensure!(listed(&w, "a"), "early", "{what}: unlisted before its time");
                }
                let due = t1 + ttl * 1000 + KILL_SLACK;
                if due > now_ms() {
                    sleep_ms(due - now_ms());
                }
                ensure!(!sh.alive(), "late", "{what}: the shell still lives {KILL_SLACK} ms after its time");
                ensure!(!listed(&w, "a"), "late", "{what}: still listed {KILL_SLACK} ms after its time");
                if let Some(c) = c.as_mut() {
                    ensure!(c.wait_end(2000), "connected", "{what}: the terminal stays connected after the session ended");
                }
            }
        }
    no_panics();
}
fn ttlbig() {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    for ttl in [u64::MAX, u64::MAX - 1, u64::MAX / 2, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 62, u32::MAX as u64, 1 << 33] {
        let (_c, sh, ..) = ttl_create(&w, "big", Some(ttl));
        sleep_ms(600_000);
        ensure!(sh.alive() && listed(&w, "big"), "early", "ttl {ttl} ended a session after 600 s");
        ensure!(w.kill(&["big"]).is_ok(), "kill", "no answer");
        no_panics();
    }
    // the reaper still works
    let (_c, sh, ..) = ttl_create(&w, "last", Some(1));
    sleep_ms(1000 + KILL_SLACK);
    ensure!(!sh.alive() && !listed(&w, "last"), "late", "a session with a time to live is not ended after ones with very long times");
    no_panics();
}
/// every assignment of times to live to four sessions
fn ttlset(p: &Value) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let ts = [Some(1u64), Some(2), Some(4), Some(7), None, Some(u64::MAX)];
    let mut n = 0u64;
    for i in 0..ts.len().pow(4) {
        if (i as u64) % u(p, "parts") != u(p, "part") {
            continue;
        }
        let mut x = i;
        let mut ss = vec![];
        for k in 0..4 {
            let t = ts[x % ts.len()];
            x /= ts.len();
            let name = format!("s{k}");
            let (c, sh, t0, t1) = ttl_create(&w, &name, t);
            let c = if (i + k) % 2 == 0 {
                drop(c);
                None
            } else {
                Some(c)
            };
            ss.push((name, t, c, sh, t0, t1));
            sleep_ms([0, 300, 0, 700][k]);
        }
        for at in 0..11u64 {
            let l = w.list_ok();
            let now = now_ms();
            for (name, t, _, sh, t0, t1) in &ss {
                let there = l.iter().any(|x| x.name == *name);
                match t {
                    Some(t) if *t < 100 => {
                        if now < t0 + t * 1000 {
                            ensure!(sh.alive() && there, "early", "{name} with ttl {t} of {:?} gone after {} ms", ss.iter().map(|x| x.1).collect::<Vec<_>>(), now - t0);
                        }
                        if now > t1 + t * 1000 + KILL_SLACK {
                            ensure!(!sh.alive() && !there, "late", "{name} with ttl {t} of {:?} still there after {} ms", ss.iter().map(|x| x.1).collect::<Vec<_>>(), now - t0);
                        }
                    }
                    _ => ensure!(sh.alive() && there, "innocent", "{name} without an expiring ttl ended, among {:?}", ss.iter().map(|x| x.1).collect::<Vec<_>>()),
                }
            }
            if at < 10 {
                sleep_ms(990);
            }
        }
        let names: Vec<String> = ss.iter().map(|x| x.0.clone()).collect();
        w.kill(&names.iter().map(|s| s.as_str()).collect::<Vec<_>>()).unwrap_or_else(|e| fail("kill-unanswered", e));
        n += 1;
    }
    no_panics();
    set_output(format!("{n}").as_bytes());
}
/// c:<ttl or -> create, x exit, k kill, d detach, r reattach (which repeats the ttl), w<n> wait n/10 s
const TTLHIST: &[&str] = &[
    "c3 x w5 c- w60", "c3 k w5 c- w60", "c3 x w5 c9 w50 w60", "c3 k w5 c9 w50 w60", "c9 k w5 c2 w10 w40 c- w90",
    "c3 d w5 r50 w50", "c- d w5 r2 w60", "c3 x c3 w20 w30", "c3 k c3 k c3 k c- w60", "c2 w40 c- w30 k c5 w30 w40",
    "c3 d x w5 c- w60", "c3 d x w5 c9 w40 w70", "c3 d w35 c- w60", "c5 d w2 r1 w2 d r1 w30 w40", "c1 w30 c1 w30 c1 w30 c- w50",
    "c2 x w21 c- w30", "c2 k w19 c- w30", "c4 d w5 x w5 c4 w32 w30",
];
fn ttlhist(h: usize) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let ev = subscribe(&w);
    let mut cur: Option<(Sh, Option<Client>, Option<u64>, u64, u64, bool)> = None; // shell, client, ttl, t0, t1, exited while detached
    let what = TTLHIST[h];
    let mut want_removed = 0;
    let arg = |x: &str| x[1..].parse::<u64>().ok();
    for op in what.split(' ') {
        // sessions whose time is over are gone
        if let Some((sh, _, Some(t), _, t1, dead)) = &cur {
            if now_ms() > t1 + t * 1000 + KILL_SLACK {
                ensure!(!sh.alive() && !listed(&w, "a"), "late", "{what}: session with ttl {t} is still there");
                let _ = dead;
                want_removed += 1;
                cur = None;
            }
        }
        match &op[..1] {
            "c" => {
                // (creating it anew takes the end of the one before)
                if cur.is_some() {
                    want_removed += 1;
                }
                let (c, sh, t0, t1) = ttl_create(&w, "a", arg(op));
                cur = Some((sh, Some(c), arg(op), t0, t1, false));
            }
            "x" => {
                let x = cur.as_mut().unwrap();
                x.0.exit(0);
                sleep_ms(400);
                if x.1.is_none() {
                    x.5 = true;
                } else {
                    want_removed += 1;
                    cur = None;
                }
            }
            "k" => {
                ensure!(w.kill(&["a"]).is_ok(), "kill", "no answer");
                want_removed += 1;
                cur = None;
            }
            "d" => {
                ensure!(w.detach(&["a"]).is_ok(), "detach", "no answer");
                let x = cur.as_mut().unwrap();
                x.1.take().unwrap().wait_end(1000);
                wait_detached(&w, "a", 3000);
            }
            "r" => {
                let mut hd = w.hdr("a");
                hd.ttl_secs = arg(op);
                let (c, st) = w.attach_h(hd);
                ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{what}: reattach answered {st:?}");
                cur.as_mut().unwrap().1 = Some(c);
            }
            _ => sleep_ms(arg(op).unwrap() * 100),
        }
        if let Some((sh, _, t, t0, _, dead)) = &cur {
            let over = t.is_some_and(|t| now_ms() >= t0 + t * 1000);
            if !over && !*dead {
                ensure!(sh.alive(), "early", "{what}: after {op}: the session's shell was ended (ttl {t:?}, age {} ms)", now_ms() - t0);
                ensure!(listed(&w, "a"), "early", "{what}: after {op}: the session is not listed (ttl {t:?}, age {} ms)", now_ms() - t0);
            }
        }
    }
    if let Some((sh, _, Some(t), _, t1, _)) = &cur {
        if now_ms() > t1 + t * 1000 + KILL_SLACK {
            ensure!(!sh.alive() && !listed(&w, "a"), "late", "{what}: session with ttl {t} is still there");
            want_removed += 1;
        }
    }
    let k = ev.kinds();
    let removed = k.iter().filter(|x| *x == "removed").count();
    ensure!(removed == want_removed, "events", "{what}: {removed} removed events, expected {want_removed}: {k:?}");
    no_panics();
    set_output(format!("{k:?}").as_bytes());
}
/// something happens to the session at the very moment its time expires
fn ttlrace(ev: &str, st: &str) {
    let w = World::new(BASE_CFG);
    let (mut c, sh, t0, t1) = ttl_create(&w, "a", Some(3));
    let (mut cb, shb, ..) = ttl_create(&w, "b", Some(30));
    ensure!(talks(&mut c, &sh, "a") && talks(&mut cb, &shb, "b"), "talk", "sessions do not work");
    let mut c = if st == "det" {
        w.detach(&["a"]).ok();
        c.wait_end(1000);
        None
    } else {
        Some(c)
    };
    sleep_ms(t1 + 3000 - now_ms() - 20);
    let mut sub = None;
    explore(true);
    let w2 = w.clone();
    let mut cc = if ev == "hangup" { c.take() } else { None };
    let ev2 = ev.to_string();
    let h = inject("event", 40, move || {
        let w = w2;
        match ev2.as_str() {
            "exit" => {
                sh.exit(5);
                None
            }
            "kill" => {
                let r = w.kill(&["a"]);
                ensure!(r.is_ok(), "kill-unanswered", "{r:?}");
                None
            }
            "attach" => w.try_attach(w.hdr("a")).ok(),
            "detach" => {
                let r = w.detach(&["a"]);
                ensure!(r.is_ok(), "detach-unanswered", "{r:?}");
                None
            }
            "hangup" => {
                cc.take();
                None
            }
            "create" => {
                let mut h = w.hdr("n");
                h.ttl_secs = Some(1);
                w.try_attach(h).ok()
            }
            _ => {
                w.list_ok();
                None
            }
        }
    });
    sleep_ms(60);
    let r = h.join().unwrap();
    explore(false);
    sleep_ms((t1 + 3000 + KILL_SLACK + 500).saturating_sub(now_ms()));
    ensure!(!sh.alive(), "late", "{ev}: the shell still lives after its time");
    ensure!(sh.signals().len() <= 3 && rt().procs[&sh.pid].signals_after_reap.is_empty(), "stray-signal", "{ev}: a reaped process was signalled");
    match (ev, r) {
        ("attach", Some((mut c, AttachStatus::Created { .. }))) => {
            sub = reached(&mut c, "new");
            ensure!(sub.is_some(), "innocent", "{ev}: the new session under the name does not work");
            ensure!(listed(&w, "a"), "innocent", "{ev}: the new session under the name is not listed");
        }
        ("create", Some((_, st))) => {
            ensure!(matches!(st, AttachStatus::Created { .. }), "create", "creating answered {st:?}");
            ensure!(!listed(&w, "n"), "late", "a session registered while another expired is still there");
        }
        _ => ensure!(!listed(&w, "a"), "late", "{ev}: still listed after its time"),
    }
    let _ = (t0, sub, c);
    ensure!(talks(&mut cb, &shb, "z"), "innocent", "{ev}: another session with a longer time to live does not work");
    no_panics();
    set_output(ev.as_bytes());
}

// ------------------------------------------------------------------ P13
/// concurrent programs: threads separated by '|'; s<k><v> set, d<k> delete, g get
const VARSETS: &[&str] = &["sa1|sa2", "sa1|da", "sa1|sb2", "sa1 sb1|sb2 sa2", "sa1 g|sa2 g", "sa1 sa2|g g", "sa1|da|sa2", "da|sb1 g"];
fn vars(p: &Value) {
    let w = World::new(&format!("{BASE_CFG}var_default = [ {{ var = \"a\", value = \"0\" }} ]\n"));
    let who = s(p, "who");
    let (mut c, sh) = w.create("x");
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    let (mut c2, sh2) = w.create("y");
    ensure!(talks(&mut c2, &sh2, "t"), "talk", "session does not work");
    match who.as_str() {
        "none" => {
            w.detach(&["x"]).ok();
            c.wait_end(1000);
        }
        "dead" => {
            w.detach(&["x"]).ok();
            c.wait_end(1000);
            sh.exit(0);
            sleep_ms(300);
        }
        "noread" => {
            for _ in 0..600 {
                sh.out_now(&[b'x'; 4096]);
            }
            sleep_ms(300);
        }
        "attaching" => {
            w.detach(&["x"]).ok();
            c.wait_end(1000);
            wait_detached(&w, "x", 3000);
        }
        _ => {}
    }
    let prog: Vec<Vec<String>> = s(p, "ops").split('|').map(|t| t.split(' ').map(|x| x.to_string()).collect()).collect();
    explore(true);
    let mut hs = vec![];
    for (i, t) in prog.iter().enumerate() {
        let (w, t) = (w.clone(), t.clone());
        hs.push(spawn(G_CLIENT, &format!("var{i}"), move || {
            let mut log: Vec<(String, u64, u64, Option<Vec<(String, String)>>)> = vec![];
            for op in t {
                let t0 = rt().step;
                let r = match &op[..1] {
                    "s" => w.set_var(&op[1..2], Some(&op[2..])).map(|_| None),
                    "d" => w.set_var(&op[1..2], None).map(|_| None),
                    _ => w.get_vars().map(Some),
                };
                match r {
                    Ok(x) => log.push((op, t0, rt().step, x)),
                    Err(e) => fail("unanswered", format!("variable request {op} got no answer: {e}")),
                }
            }
            log
        }));
    }
    let mut late = None;
    if who == "attaching" {
        let mut h = w.hdr("x");
        h.name_template = "x{a}{b}".into();
        // the name this template had under some variables
        late = Some(w.attach_h(h));
    }
    let logs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    explore(false);
    let fin = w.get_vars().unwrap_or_else(|e| fail("unanswered", e));
    // linearizable: some interleaving explains reads and the final value
    let mut ops: Vec<(usize, &(String, u64, u64, Option<Vec<(String, String)>>))> = vec![];
    for (i, l) in logs.iter().enumerate() {
        for o in l {
            ops.push((i, o));
        }
    }
    let mut sets: BTreeSet<Vec<(String, String)>> = BTreeSet::new();
    fn lin(ops: &[(usize, &(String, u64, u64, Option<Vec<(String, String)>>))], done: &mut Vec<bool>, m: &BTreeMap<String, String>, fin: &[(String, String)], all: &mut BTreeSet<Vec<(String, String)>>) -> bool {
        let cur: Vec<(String, String)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        if done.iter().all(|d| *d) {
            let ok = cur == fin;
            return ok;
        }
        for i in 0..ops.len() {
            if done[i] || (0..ops.len()).any(|j| !done[j] && j != i && ops[j].1 .2 < ops[i].1 .1) {
                continue;
            }
            // program order within a thread
            if (0..i).any(|j| !done[j] && ops[j].0 == ops[i].0) {
                continue;
            }
            let o = ops[i].1;
            let mut m2 = m.clone();
            match &o.0[..1] {
                "s" => {
                    m2.insert(o.0[1..2].to_string(), o.0[2..].to_string());
                }
                "d" => {
                    m2.remove(&o.0[1..2]);
                }
                _ => {
                    if o.3.as_ref() != Some(&cur) {
                        continue;
                    }
                }
            }
            done[i] = true;
            let r = lin(ops, done, &m2, fin, all);
            done[i] = false;
            if r {
                all.insert(m2.into_iter().collect());
                return true;
            }
        }
        false
    }
    let init: BTreeMap<String, String> = [("a".to_string(), "0".to_string())].into();
    ensure!(lin(&ops, &mut vec![false; ops.len()], &init, &fin, &mut sets), "not-linearizable", "no order of {:?} explains the answers and the final variables {fin:?}", logs);
    // attached clients are told the final set last
    let told = |c: &mut Client, n: &str| {
        c.drain_ms(1500);
        ensure!(!c.ended(), "disturbed", "client of {n} was disconnected by a variable change");
        match c.switches.last() {
            Some(m) => {
                let mut v = m.vars.clone();
                v.sort();
                ensure!(v == fin, "last-set", "the last set told to the client of {n} is {v:?}, the variables are {fin:?}");
            }
            None => {
                if prog.iter().flatten().any(|o| &o[..1] != "g") {
                    fail("not-told", format!("the client of {n} was not told about the change"));
                }
            }
        }
    };
    told(&mut c2, "y");
    match who.as_str() {
        "attached" | "noread" => {
            told(&mut c, "x");
        }
        "attaching" => {
            let (mut c, st) = late.unwrap();
            ensure!(matches!(st, AttachStatus::Attached { .. }), "attach", "attach answered {st:?}");
            told(&mut c, "x");
        }
        _ => {}
    }
    no_panics();
    set_output(format!("{fin:?}").as_bytes());
}
/// many changes in a row, read late or promptly
fn varburst(n: usize, slow: bool) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let (mut c, sh) = w.create("x");
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    for i in 0..n {
        w.set_var("k", Some(&format!("{i}"))).unwrap_or_else(|e| fail("unanswered", format!("change {i}: {e}")));
        if i % 3 == 0 {
            w.set_var("gone", if i % 2 == 0 { Some("1") } else { None }).unwrap_or_else(|e| fail("unanswered", format!("change {i}: {e}")));
        }
        if !slow {
            c.drain_ms(3);
        }
    }
    let fin = w.get_vars().unwrap_or_else(|e| fail("unanswered", e));
    c.drain_ms(1500);
    let mut v = c.switches.last().map(|m| m.vars.clone()).unwrap_or_default();
    v.sort();
    ensure!(v == fin, "last-set", "after {n} changes the client's last set is {v:?}, the variables are {fin:?}");
    // never goes backwards
    let ks: Vec<i64> = c.switches.iter().filter_map(|m| m.vars.iter().find(|x| x.0 == "k")).filter_map(|x| x.1.parse().ok()).collect();
    ensure!(ks.windows(2).all(|w| w[0] <= w[1]), "order", "sets are told out of order: {ks:?}");
    ensure!(talks(&mut c, &sh, "z"), "disturbed", "session does not work after {n} changes");
    no_panics();
}

// ------------------------------------------------------------------ P14
fn size(rows: u16, cols: u16) -> TtySize {
    TtySize { rows, cols, xpixel: 0, ypixel: 0 }
}
fn full_winsz(sh: &Sh) -> (u16, u16, u16, u16) {
    rt().ttys[sh.tty()].winsz
}
fn settled(sh: &Sh, want: &TtySize, ms: u64) -> bool {
    let x = (want.rows, want.cols, want.xpixel, want.ypixel);
    wait_until(ms, || full_winsz(sh) == x) && {
        sleep_ms(200);
        full_winsz(sh) == x
    }
}
fn size_list() -> Vec<TtySize> {
    let mut v = vec![];
    for r in [0u16, 1, 2, 24, 255, 256, 65534, 65535] {
        for c in [0u16, 1, 80, 257, 65534, 65535] {
            // a grid of more than a few million cells is only a question of memory
            let (x, y) = if (r as u32 + c as u32 % 7) % 2 == 0 { (0, 0) } else { (65535, 1) };
            v.push(TtySize { rows: r, cols: c, xpixel: x, ypixel: y });
        }
    }
    v
}
fn sizes(p: &Value) {
    let mode = s(p, "mode");
    let w = World::new(&cfg_mode(&mode));
    rt().step_limit = BIG;
    let mut n = 0;
    let max = p["max"] == true;
    let list = if max { vec![TtySize { rows: u16::MAX, cols: u16::MAX, xpixel: u16::MAX, ypixel: u16::MAX }] } else { size_list() };
    for (i, z) in list.into_iter().enumerate() {
        if i as u64 % u(p, "parts") != u(p, "part") {
            continue;
        }
        // the emulators fill in every row eagerly (up to some GB)
        if mode != "simple" && z.rows > 2000 && !max {
            continue;
        }
        n += 1;
        let what = format!("{mode} {z:?}");
        // as the size of the first attach
        let mut h = w.hdr("a");
        h.local_tty_size = z.clone();
        let (mut c, sh) = w.create_h(h.clone());
        ensure!(settled(&sh, &z, 1000), "first", "{what}: after the first attach the terminal has {:?}", full_winsz(&sh));
        ensure!(talks(&mut c, &sh, "t"), "talk", "{what}: session does not work");
        // as a resize, from another size
        let r = w.resize("a", 25, 81);
        ensure!(matches!(r, Ok(SessionMessageReply::Resize(_))), "resize", "{what}: resize answered {r:?}");
        ensure!(settled(&sh, &size(25, 81), 1000), "resize", "{what}: after a resize to 25x81 the terminal has {:?}", full_winsz(&sh));
        let r: Result<SessionMessageReply, String> = w.request(&ConnectHeader::SessionMessage { session_name: "a".into(), payload: Payload::Resize { tty_size: z.clone() } }, 10);
        ensure!(matches!(r, Ok(SessionMessageReply::Resize(_))), "resize", "{what}: resize answered {r:?}");
        ensure!(settled(&sh, &z, 1000), "resize", "{what}: after the resize the terminal has {:?}", full_winsz(&sh));
        ensure!(talks(&mut c, &sh, "u"), "talk", "{what}: session does not work after a resize");
        let r = w.resize("a", 26, 82);
        ensure!(r.is_ok(), "resize", "{what}: {r:?}");
        // as the size of a reattach
        w.detach(&["a"]).unwrap_or_else(|e| fail("detach-unanswered", e));
        c.wait_end(1000);
        ensure!(wait_detached(&w, "a", 3000), "detach", "{what}: stays attached");
        let (mut c, st) = w.attach_h(h);
        ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{what}: reattach answered {st:?}");
        ensure!(settled(&sh, &z, 1000), "reattach", "{what}: after the reattach the terminal has {:?}", full_winsz(&sh));
        ensure!(talks(&mut c, &sh, "v"), "talk", "{what}: session does not work after the reattach");
        // for a session nobody is attached to the request is still answered
        drop(c);
        ensure!(wait_detached(&w, "a", 3000), "detach", "{what}: stays attached");
        let r = w.resize("a", 27, 83);
        ensure!(r.is_ok(), "unanswered", "{what}: resize of a detached session: {r:?}");
        let r = w.resize("nope", 27, 83);
        ensure!(matches!(r, Ok(SessionMessageReply::NotFound)), "not-found", "{what}: resize of an unknown session: {r:?}");
        ensure!(w.kill(&["a"]).is_ok(), "kill", "no answer");
        no_panics();
    }
    set_output(format!("{n}").as_bytes());
}
/// a size change reported any number of milliseconds after attaching
fn early(mode: &str, st: &str) {
    let w = World::new(&cfg_mode(mode));
    rt().step_limit = BIG;
    for d in (0..80u64).chain([90, 99, 100, 101, 110, 150, 200, 299, 300, 301, 499, 500, 501]) {
        let (mut c, sh) = w.create("a");
        if st == "re" {
            ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
            drop(c);
            ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
            let mut h = w.hdr("a");
            h.local_tty_size = size(30, 90);
            let (c2, st) = w.attach_h(h);
            ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "reattach answered {st:?}");
            c = c2;
        }
        sleep_ms(d);
        let r = w.resize("a", 40, 100);
        ensure!(matches!(r, Ok(SessionMessageReply::Resize(_))), "resize", "resize {d} ms after attaching answered {r:?}");
        ensure!(settled(&sh, &size(40, 100), 1000), "size", "{mode}/{st}: resized to 40x100 {d} ms after attaching, the terminal has {:?}", full_winsz(&sh));
        // and a second one right behind
        w.resize("a", 41, 101).ok();
        let r = w.resize("a", 42, 102);
        ensure!(matches!(r, Ok(SessionMessageReply::Resize(_))), "resize", "resize answered {r:?}");
        ensure!(settled(&sh, &size(42, 102), 1000), "size", "{mode}/{st}: resized to 42x102, the terminal has {:?}", full_winsz(&sh));
        ensure!(talks(&mut c, &sh, "v"), "talk", "session does not work");
        ensure!(w.kill(&["a"]).is_ok(), "kill", "no answer");
    }
    no_panics();
}
fn resize(p: &Value) {
    let (mode, st, n) = (s(p, "mode"), s(p, "st"), u(p, "n"));
    let w = World::new(&cfg_mode(&mode));
    let mut sh0 = None;
    let mut c0 = None;
    if st != "new" {
        let (mut c, sh) = w.create("a");
        ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
        sh0 = Some(sh);
        if st == "re" {
            drop(c);
            ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
        } else {
            c0 = Some(c);
        }
    }
    explore(true);
    let mut c = match c0 {
        Some(c) => c,
        None => {
            let mut h = w.hdr("a");
            h.local_tty_size = size(30, 90);
            w.attach_h(h).0
        }
    };
    let sh = sh0.or(live_shells().first().copied()).unwrap();
    let mut hs = vec![];
    for i in 0..n {
        let w = w.clone();
        hs.push(spawn(G_CLIENT, &format!("resizer{i}"), move || {
            let t0 = rt().step;
            let r = w.resize("a", 40 + i as u16, 100);
            (r, t0, rt().step, i)
        }));
    }
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    explore(false);
    for r in &rs {
        ensure!(matches!(r.0, Ok(SessionMessageReply::Resize(_)) | Ok(SessionMessageReply::NotAttached)), "unanswered", "resize answered {:?}", r.0);
    }
    // the last acknowledged one (any of those no other one comes after), or the attach's own
    let acked: Vec<_> = rs.iter().filter(|r| matches!(r.0, Ok(SessionMessageReply::Resize(_)))).collect();
    let cand: Vec<u16> = if acked.is_empty() {
        vec![if st == "att" { 24 } else { 30 }]
    } else {
        acked.iter().filter(|a| !acked.iter().any(|b| b.1 > a.2)).map(|a| 40 + a.3 as u16).collect()
    };
    sleep_ms(800);
    let got = sh.winsz();
    set_output(format!("{got:?} {}", acked.len()).as_bytes());
    ensure!(cand.contains(&got.0), "size", "{mode}/{st}: the terminal ends up with {got:?}, acknowledged were {cand:?} rows");
    ensure!(acked.len() == rs.len() || st != "att", "refused", "a resize of an attached session was not accepted: {rs:?}");
    ensure!(talks(&mut c, &sh, "v"), "disturbed", "session does not work after the resizes");
    no_panics();
}
fn resizeev(ev: &str) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    if ev == "noread" {
        for _ in 0..400 {
            sh.out_now(&[b'x'; 4096]);
        }
        sleep_ms(400);
    }
    explore(true);
    let w2 = w.clone();
    let ev2 = ev.to_string();
    let cs = c.s.try_clone().unwrap();
    let h = inject("event", 300, move || match ev2.as_str() {
        "output" => {
            sh.out(&[b'o'; 3000]);
        }
        "hangup" => {
            cs.shutdown(std::net::Shutdown::Both).ok();
        }
        "detach" => {
            w2.detach(&["a"]).unwrap_or_else(|e| fail("detach-unanswered", e));
        }
        "exit" => sh.exit(9),
        "kill" => {
            w2.kill(&["a"]).unwrap_or_else(|e| fail("kill-unanswered", e));
        }
        _ => {}
    });
    let r1 = w.resize("a", 50, 100);
    let r2 = w.resize("a", 51, 101);
    h.join().unwrap();
    explore(false);
    for r in [&r1, &r2] {
        match r {
            Err(e) => fail("unanswered", format!("{ev}: resize got no answer: {e}")),
            Ok(SessionMessageReply::NotFound) if !matches!(ev, "exit" | "kill") => fail("not-found", format!("{ev}: resize of an existing session answered NotFound")),
            _ => {}
        }
    }
    set_output(format!("{r1:?} {r2:?}").as_bytes());
    if matches!(ev, "output" | "noread") {
        ensure!(ev == "noread" || matches!(r2, Ok(SessionMessageReply::Resize(_))), "refused", "resize answered {r2:?}");
        if ev == "noread" {
            // reads again
            c.drain_ms(3000);
        }
        sleep_ms(500);
        let want = match (&r1, &r2) {
            (_, Ok(SessionMessageReply::Resize(_))) => (51, 101),
            (Ok(SessionMessageReply::Resize(_)), _) => (50, 100),
            _ => sh.winsz(),
        };
        ensure!(sh.winsz() == want, "size", "{ev}: terminal has {:?} instead of {want:?}", sh.winsz());
        ensure!(talks(&mut c, &sh, "v"), "disturbed", "{ev}: session does not work after the resize");
    }
    if matches!(ev, "hangup" | "detach") {
        let (mut c, st) = attach_free(&w, "a", 4000);
        ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{ev}: reattach answered {st:?}");
        sleep_ms(300);
        ensure!(sh.winsz() == (24, 80), "size", "{ev}: after the reattach the terminal has {:?}", sh.winsz());
        ensure!(talks(&mut c, &sh, "v"), "disturbed", "{ev}: session does not work after the resize");
    }
    no_panics();
}

// ------------------------------------------------------------------ P16
fn tree(dir: &std::path::Path) -> BTreeMap<String, String> {
    fn walk(d: &std::path::Path, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let m = std::fs::symlink_metadata(&p).unwrap();
            let desc = if m.is_dir() {
                "dir".to_string()
            } else if m.file_type().is_symlink() {
                format!("link {:?}", std::fs::read_link(&p))
            } else if m.is_file() {
                format!("file {:?}", std::fs::read(&p).unwrap_or_default())
            } else {
                "other".to_string()
            };
            out.insert(p.to_string_lossy().to_string(), desc);
            if m.is_dir() {
                walk(&p, out);
            }
        }
    }
    let mut v = BTreeMap::new();
    walk(dir, &mut v);
    v
}
fn snapshot(w: &World, shells: &[Sh]) -> String {
    let l: Vec<_> = w.list_ok().into_iter().map(|x| format!("{} {:?} {:?} {} {:?} {:?}", x.name, x.status, x.attachments, x.started_at_unix_ms, x.last_connected_at_unix_ms, x.last_disconnected_at_unix_ms)).collect();
    let mut v = w.get_vars().unwrap_or_default();
    v.sort();
    let sh: Vec<_> = shells.iter().map(|s| format!("{} {} {:?} {:?}", s.pid, s.alive(), full_winsz(s), s.signals())).collect();
    let t = tree(&w.dir.join("run"));
    let lvl = tracing::level_filters::LevelFilter::current();
    format!("{l:?} {v:?} {sh:?} {} procs {t:?} level {lvl}", rt().procs.len())
}
/// dial as another user
fn dial_as(w: &World, uid: u32) -> std::os::unix::net::UnixStream {
    connect_as(&w.sock, uid).unwrap_or_else(|| fail("dial", "cannot connect"))
}
fn connect_as(p: &std::path::Path, uid: u32) -> Option<std::os::unix::net::UnixStream> {
    use std::os::fd::FromRawFd;
    let fd = rt::connect_as(p, uid);
    if fd < 0 {
        return None;
    }
    Some(unsafe { std::os::unix::net::UnixStream::from_raw_fd(fd as i32) })
}
fn read_all(s: &mut std::os::unix::net::UnixStream, ms: u64) -> (Vec<u8>, bool) {
    s.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let mut v = vec![];
    let mut b = [0u8; 4096];
    loop {
        match s.read(&mut b) {
            Ok(0) => return (v, true),
            Ok(n) => v.extend_from_slice(&b[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return (v, false),
            Err(_) => return (v, true),
        }
    }
}
fn refused(reply: &[u8], req: &str) {
    let mut r = reply;
    let v = dec::<VersionHeader>(&mut r);
    ensure!(v.is_ok_and(|v| v.version == super::client::proto_version()), "banner", "{req}: a foreign connection reads {}", esc(reply));
    if r.is_empty() {
        return;
    }
    let st = dec::<AttachReplyHeader>(&mut r);
    match st {
        Ok(AttachReplyHeader { status: AttachStatus::Forbidden(m) }) if r.is_empty() => {
            for word in ["keep", "secret", "/run/", "shpool.socket"] {
                ensure!(!m.contains(word), "leak", "{req}: the refusal tells {m:?}");
            }
        }
        x => fail("leak", format!("{req}: a foreign connection reads {x:?} then {}", esc(r))),
    }
}
fn foreign(r: usize) {
    let w = World::new(&format!("{BASE_CFG}var_default = [ {{ var = \"v\", value = \"secret\" }} ]\n"));
    rt().step_limit = BIG;
    for state in ["none", "attached", "detached"] {
        let mut cl = None;
        let mut shells = vec![];
        if state != "none" {
            let (mut c, sh) = w.create("a");
            ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
            sleep_ms(200);
            shells.push(sh);
            if state == "attached" {
                cl = Some(c);
            } else {
                drop(c);
                ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
            }
        }
        let ev = subscribe(&w);
        for uid in [1u32, 65534, u32::MAX, 4242] {
            let before = snapshot(&w, &shells);
            let (name, bytes) = match requests().get(r) {
                Some((n, q)) => (n.to_string(), enc(q)),
                None => ("nothing".to_string(), vec![]),
            };
            let n = bytes.len();
            // whole, split, and with trailing input
            for (split, trail) in [(n, false), (n / 2, false), (1.min(n), true), (n, true)] {
                let mut s = dial_as(&w, uid);
                let _ = s.write_all(&bytes[..split]);
                if split < n {
                    sleep_ms(20);
                    let _ = s.write_all(&bytes[split..]);
                }
                if trail {
                    let _ = s.write_all(b"typed\r\n");
                    sleep_ms(5);
                    let _ = s.write_all(&enc(&ConnectHeader::Kill { sessions: vec!["a".into()] }));
                }
                let (reply, end) = read_all(&mut s, 1500);
                let what = format!("{name} as uid {uid} on a {state} session");
                refused(&reply, &what);
                ensure!(end, "open", "{what}: the connection stays open");
                drop(s);
                let after = snapshot(&w, &shells);
                ensure!(before == after, "effect", "{what} changed something: before {before} after {after}");
                for sh in &shells {
                    ensure!(sh.input().is_empty(), "effect", "{what}: input reached the shell");
                }
            }
        }
        // the events socket tells a foreign user nothing
        let es = connect_as(&events_sock(&w), 4242);
        let n0 = ev.kinds().len();
        let (c, _) = w.create("keep");
        drop(c);
        w.kill(&["keep"]).ok();
        sleep_ms(300);
        ensure!(ev.kinds().len() > n0, "events", "a legitimate subscriber gets no events");
        ensure!(n0 == 0, "events", "events were published for foreign requests: {:?}", ev.kinds());
        if let Some(mut es) = es {
            let (b, _) = read_all(&mut es, 500);
            ensure!(b.is_empty(), "events-leak", "a foreign user reads events: {}", esc(&b));
        }
        if let Some(mut c) = cl {
            ensure!(talks(&mut c, &shells[0], "z"), "disturbed", "the attached terminal does not work any more");
        }
        w.kill(&["a"]).ok();
        sleep_ms(100);
    }
    no_panics();
}
fn foreignrace(r: &str) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    sleep_ms(100);
    let req = match r {
        "attach" => requests()[1].1.clone(),
        "kill" => requests()[6].1.clone(),
        "detach" => requests()[5].1.clone(),
        "var" => requests()[9].1.clone(),
        _ => requests()[2].1.clone(),
    };
    explore(true);
    // own and foreign connections at the same moment
    let mut f = dial_as(&w, 999);
    let w2 = w.clone();
    let own = spawn(G_CLIENT, "own", move || w2.list());
    let _ = f.write_all(&enc(&req));
    let l = own.join().unwrap();
    let (reply, end) = read_all(&mut f, 1500);
    explore(false);
    ensure!(l.is_ok_and(|l| l.len() == 1), "own", "the user's own request failed");
    refused(&reply, r);
    ensure!(end, "open", "the connection stays open");
    ensure!(talks(&mut c, &sh, "z"), "disturbed", "the attached terminal does not work any more");
    ensure!(w.get_vars().is_ok_and(|v| v.is_empty()), "effect", "a variable was changed");
    ensure!(w.list_ok().len() == 1 && rt().procs.len() == 1, "effect", "a session was created");
    set_output(format!("{}", reply.len()).as_bytes());
    no_panics();
}

// ------------------------------------------------------------------ P17
fn name_list(len: usize) -> Vec<String> {
    let al = ["a", ".", "/", " ", "\t", "\n", "\u{a0}", "\u{2028}", "-", "~", "$", "*", "\u{e9}"];
    let mut v = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..len {
        let mut n = vec![];
        for p in &last {
            for a in al {
                n.push(format!("{p}{a}"));
            }
        }
        v.extend(n.iter().cloned());
        last = n;
    }
    for x in ["..", "...", "../x", "a/../b", "/etc", "..a", "a..", ".a", "\0", "a\0b", "a\rb", "a\u{b}b", "a\u{c}b", "\u{85}", "\u{3000}", "a\u{1680}", "\u{200b}", "shpool.socket", "sessions", "A", "a\u{301}", "%2e%2e", "..\\", "\u{ff0f}", "{v}", "a;b", "'", "\"", "`id`"] {
        v.push(x.to_string());
    }
    for n in [254, 255, 256, 300, 4096] {
        v.push("n".repeat(n));
        v.push("\u{e9}".repeat(n / 2));
    }
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
fn must_refuse(n: &str) -> bool {
    n.is_empty() || n == "." || n == ".." || n.contains('/') || n.chars().any(|c| c.is_whitespace())
}
fn names(p: &Value) {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let all = name_list(u(p, "len") as usize);
    // something that must never be touched
    let outside = w.dir.join("run").join("shpool");
    std::fs::create_dir_all(outside.join("sessions")).unwrap();
    let mut n = 0;
    for (i, name) in all.iter().enumerate() {
        if i as u64 % u(p, "parts") != u(p, "part") {
            continue;
        }
        n += 1;
        let before = tree(&w.dir.join("run"));
        let procs = rt().procs.len();
        let mut h = w.hdr(name);
        h.local_env.push(("SSH_AUTH_SOCK".into(), "/nowhere/agent".into()));
        let shown = esc(&name.as_bytes()[..name.len().min(40)]);
        let (c, st) = match w.try_attach(h) {
            Ok(x) => x,
            Err(e) => fail("attach-unanswered", format!("attach to {shown:?} gets no reply: {e}")),
        };
        sleep_ms(60);
        let after = tree(&w.dir.join("run"));
        match &st {
            AttachStatus::UnexpectedError(_) | AttachStatus::Forbidden(_) | AttachStatus::Busy => {
                ensure!(rt().procs.len() == procs, "started", "name {shown:?} was refused but a shell was started");
                ensure!(before == after, "touched", "name {shown:?} was refused but files changed: {:?}", diff_tree(&before, &after));
                ensure!(must_refuse(name) || name.contains('\0') || name.len() > 200, "refused", "the ordinary name {shown:?} is refused: {st:?}");
            }
            _ => {
                ensure!(!must_refuse(name), "accepted", "name {shown:?} is accepted");
                let own = outside.join("sessions").join(name);
                let own = own.to_string_lossy().to_string();
                for (f, d) in diff_tree(&before, &after) {
                    let ok = f == own && d.contains("dir") || f.starts_with(&format!("{own}/")) && !f[own.len() + 1..].contains("..");
                    ensure!(ok, "outside", "attaching to {shown:?} changed {f} ({d})");
                }
                if name.len() < 200 && !name.contains('\0') {
                    ensure!(after.contains_key(&format!("{own}/forward.env")), "no-env", "attaching to {shown:?} left no environment file");
                    let env = &live_shells().last().map(|s| s.exec().env).unwrap_or_default();
                    let dir = env.iter().find(|e| e.0 == b"SHPOOL_SESSION_DIR").map(|e| String::from_utf8_lossy(&e.1).to_string());
                    ensure!(dir.as_deref() == Some(own.as_str()), "dir-var", "{shown:?}: SHPOOL_SESSION_DIR is {dir:?}");
                }
            }
        }
        // the other requests never touch files
        let mid = tree(&w.dir.join("run"));
        let r = w.resize(name, 3, 3);
        ensure!(r.is_ok(), "unanswered", "resize of {shown:?}: {r:?}");
        ensure!(w.detach(&[name]).is_ok(), "unanswered", "detach of {shown:?}");
        drop(c);
        ensure!(w.kill(&[name]).is_ok(), "unanswered", "kill of {shown:?}");
        ensure!(mid == tree(&w.dir.join("run")), "touched", "requests for {shown:?} changed files");
        let l = w.list_ok();
        ensure!(l.is_empty(), "left", "sessions left after killing {shown:?}: {l:?}");
    }
    set_output(format!("{n}").as_bytes());
    no_panics();
}
fn diff_tree(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<(String, String)> {
    let mut v = vec![];
    for (k, x) in b {
        match a.get(k) {
            Some(y) if x == y => {}
            Some(_) => v.push((k.clone(), format!("changed to {x}"))),
            None => v.push((k.clone(), format!("new {x}"))),
        }
    }
    for k in a.keys() {
        if !b.contains_key(k) {
            v.push((k.clone(), "removed".into()));
        }
    }
    v
}
/// sessions of different names at the same time never share anything
fn shared() {
    let w = World::new(BASE_CFG);
    rt().step_limit = BIG;
    let names = ["a", "A", "a.", ".a", "..a", "a..", "...", "a-b", "a_b", "ab", "\u{e9}", "e\u{301}", "~", "$HOME", "*", "a\\b", "sessions", "ssh-auth-sock.socket", "forward.env"];
    let mut cs = vec![];
    for (i, n) in names.iter().enumerate() {
        let mut h = w.hdr(n);
        h.local_env.push(("SSH_AUTH_SOCK".into(), format!("/agent/{i}")));
        h.local_env.push(("WHO".into(), format!("{i}")));
        cs.push(w.create_h(h));
    }
    sleep_ms(100);
    let base = w.dir.join("run/shpool/sessions");
    for (i, n) in names.iter().enumerate() {
        let d = base.join(n);
        let env = std::fs::read_to_string(d.join("forward.env")).unwrap_or_default();
        ensure!(env.lines().any(|l| l == format!("WHO={i}")), "shared", "{n:?}: environment file holds {env:?}");
        let l = std::fs::read_link(d.join("ssh-auth-sock.socket"));
        ensure!(l.as_ref().is_ok_and(|l| l.to_str() == Some(&format!("/agent/{i}"))), "shared", "{n:?}: agent link points to {l:?}");
    }
    // refreshing one leaves the others alone
    let before = tree(&base);
    drop(cs.remove(0));
    ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
    let mut h = w.hdr("a");
    h.local_env.push(("SSH_AUTH_SOCK".into(), "/agent/new".into()));
    let (_c, _) = w.attach_h(h);
    sleep_ms(100);
    for (f, d) in diff_tree(&before, &tree(&base)) {
        ensure!(f.starts_with(&format!("{}/", base.join("a").display())), "shared", "attaching to 'a' changed {f} ({d})");
    }
    no_panics();
}

// ------------------------------------------------------------------ P02, P27
fn vanish(p: &Value) {
    let (st, how, pend) = (s(p, "st"), s(p, "how"), s(p, "pend"));
    let w = World::new(BASE_CFG);
    let mut sh0 = None;
    if st == "re" {
        let (mut c, sh) = w.create("a");
        ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
        drop(c);
        ensure!(wait_detached(&w, "a", 3000), "detach", "stays attached");
        sh0 = Some(sh);
    }
    let (mut ob, shb) = w.create("b");
    ensure!(talks(&mut ob, &shb, "b"), "talk", "session does not work");
    let mut s = w.dial().unwrap_or_else(|| fail("dial", "cannot connect"));
    let s2 = s.try_clone().unwrap();
    explore(true);
    let how2 = how.clone();
    let h = inject("vanish", 400, move || match how2.as_str() {
        "half" => {
            s2.shutdown(std::net::Shutdown::Write).ok();
        }
        _ => {
            s2.shutdown(std::net::Shutdown::Both).ok();
        }
    });
    let sent = s.write_all(&enc(&ConnectHeader::Attach(w.hdr("a")))).is_ok();
    if pend == "input" && sent {
        let _ = s.write_all(b"typed");
    }
    if pend == "output" {
        if let Some(sh) = sh0 {
            sh.out(b"some output");
        }
    }
    h.join().unwrap();
    if how == "reset" {
        drop(s);
    }
    explore(false);
    // whatever stage it was in: at most one session, noticed in time, usable
    let free = wait_until(4000, || w.list_ok().iter().filter(|x| x.name == "a").all(|x| x.status == Status::Disconnected));
    ensure!(free, "still-attached", "{st}/{how}/{pend}: 4 s after the client vanished the session is listed as attached: {:?}", w.list_ok());
    let l = w.list_ok();
    if let Some(sh) = sh0 {
        ensure!(sh.alive() && l.iter().any(|x| x.name == "a"), "lost", "{st}/{how}/{pend}: the session is gone after its client vanished");
    }
    let (mut c, a) = attach_free(&w, "a", 3000);
    match (sh0, &a) {
        (Some(sh), AttachStatus::Attached { .. }) => ensure!(talks(&mut c, &sh, "back"), "not-usable", "{st}/{how}/{pend}: the next attach does not reach the shell"),
        (None, AttachStatus::Attached { .. } | AttachStatus::Created { .. }) => ensure!(reached(&mut c, "back").is_some_and(|x| x != shb), "not-usable", "{st}/{how}/{pend}: the next attach does not reach a shell"),
        _ => fail("lost", format!("{st}/{how}/{pend}: the next attach is answered {a:?}")),
    }
    ensure!(live_shells().len() == 2, "orphan", "{} shells live for two sessions", live_shells().len());
    ensure!(talks(&mut ob, &shb, "c"), "disturbed", "another session is disturbed");
    set_output(format!("{sent} {a:?}").as_bytes());
    no_panics();
}
/// a shell which has no terminal open any more is still the session's shell
fn closetty(st: &str, ev: &str) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    if st == "detached" {
        ensure!(w.detach(&["a"]).is_ok(), "detach", "no answer");
        c.wait_end(2000);
        wait_detached(&w, "a", 3000);
    }
    explore(true);
    let tty = sh.tty();
    let h = inject("close-tty", 700, move || rt::tty_close(tty));
    let mut attached = st == "attached";
    match ev {
        "detach" => {
            let r = w.detach(&["a"]);
            ensure!(r.is_ok(), "detach", "no answer: {r:?}");
            ensure!(!attached || c.until(2000, |c| c.exit.is_some()), "not-told", "{st}: the client was not told about being detached");
            ensure!(!attached || c.exit == Some(0), "detach-status", "{st}: the detached client received exit status {:?}", c.exit);
            attached = false;
        }
        "vanish" if attached => {
            c.s.shutdown(std::net::Shutdown::Both).ok();
            attached = false;
        }
        "resize" => {
            let r = w.resize("a", 11, 33);
            ensure!(r.is_ok(), "resize", "no answer: {r:?}");
        }
        "var" => {
            let r = w.set_var("v", Some("1"));
            ensure!(r.is_ok(), "var", "no answer: {r:?}");
        }
        "attach" if !attached => {
            let (c2, a) = w.attach("a");
            ensure!(matches!(a, AttachStatus::Attached { .. }), "lost", "attach to a detached session without terminal answers {a:?}");
            c = c2;
            attached = true;
        }
        _ => {}
    }
    h.join().unwrap();
    explore(false);
    sleep_ms(1500);
    ensure!(sh.alive() && sh.signals().is_empty(), "killed", "{st}/{ev}: the shell was sent {:?} for giving up its terminal", sh.signals());
    let l = w.list_ok();
    let want = if attached { Status::Attached } else { Status::Disconnected };
    ensure!(l.len() == 1 && l[0].status == want, "listed", "{st}/{ev}: listed as {l:?}");
    if ev == "kill" {
        ensure!(w.kill(&["a"]).is_ok(), "kill", "no answer");
        ensure!(!sh.alive(), "not-killed", "{st}: the shell lives on");
        ensure!(w.list_ok().is_empty(), "listed", "{st}: still listed after the kill");
    } else {
        if !attached {
            let (c2, a) = attach_free(&w, "a", 2000);
            ensure!(matches!(a, AttachStatus::Attached { .. }), "lost", "{st}/{ev}: the next attach answers {a:?}");
            c = c2;
            sleep_ms(700);
        }
        c.drain_ms(1500);
        ensure!(!c.ended() && c.beats > 0, "cut", "{st}/{ev}: the client is cut off or gets no heartbeats (ended {}, {} heartbeats)", c.ended(), c.beats);
        ensure!(sh.alive() && all_shells().len() == 1, "replaced", "{st}/{ev}: the session got another shell");
        sh.exit(42);
        ensure!(c.wait_end(4000), "no-end", "{st}/{ev}: the connection stays open after the shell exited");
        ensure!(c.exit == Some(42), "status", "{st}/{ev}: the client received exit status {:?} instead of 42", c.exit);
    }
    set_output(b"ok");
    no_panics();
}
/// an established attachment ends at any of many moments
fn gone(p: &Value) {
    let (how, pend, mode) = (s(p, "how"), s(p, "pend"), s(p, "mode"));
    let w = World::new(&cfg_mode(&mode));
    rt().step_limit = BIG;
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "t"), "talk", "session does not work");
    for d in [0u64, 1, 49, 50, 51, 100, 300, 450, 499, 500, 501, 550, 999, 1000, 3000, 60_000] {
        let what = format!("{how}/{pend}/{mode} after {d} ms");
        match pend.as_str() {
            "output" => {
                sh.out(b"pending output\r\n");
            }
            "flood" => {
                for _ in 0..300 {
                    sh.out_now(&[b'f'; 4096]);
                }
            }
            "input" => {
                c.send(b"typed");
            }
            "bursts" => {
                for _ in 0..5 {
                    sh.out_now(b"burst");
                    sleep_ms(30);
                }
            }
            _ => {}
        }
        c.drain_ms(if how == "reset" || pend == "flood" { 0 } else { d });
        if how == "reset" || pend == "flood" {
            sleep_ms(d.min(4000));
        }
        match how.as_str() {
            "half" => {
                c.s.shutdown(std::net::Shutdown::Write).ok();
            }
            "close" => {
                c.s.shutdown(std::net::Shutdown::Both).ok();
            }
            _ => {}
        }
        let keep = if how == "half" { Some(c) } else {
            drop(c);
            None
        };
        let t0 = now_ms();
        ensure!(wait_detached(&w, "a", 3000), "still-attached", "{what}: 3 s after the client went away the session is listed as attached");
        let took = now_ms() - t0;
        let l = w.list_ok();
        let _ = took;
        ensure!(l.len() == 1 && l[0].last_disconnected_at_unix_ms.is_some(), "record", "{what}: listed as {l:?}");
        let (c2, st) = w.attach("a");
        ensure!(matches!(st, AttachStatus::Attached { .. }), "reattach", "{what}: the next attach is answered {st:?}");
        c = c2;
        sh.input();
        ensure!(talks(&mut c, &sh, &format!("d{d}")), "not-usable", "{what}: the next attach does not reach the shell");
        drop(keep);
    }
    no_panics();
}
