//! The byte streams of an attachment: output (P03), input (P04), key bindings
//! (P05), restore on reattach (P15), prompt set-up (P24).
use super::*;
use super::attach::talks;
use crate::rt;
use crate::world::settle;
use crate::wire::*;

pub fn jobs(prop: &str, deep: bool, v: &mut Vec<Job>) {
    let b = if deep { 2 } else { 1 };
    match prop {
        "P03" => {
            // schedules: small pieces, everything that can happen in between
            for noise in ["", "var", "resize", "list", "beat", "detach-other"] {
                for exit in [false, true] {
                    v.push(job(prop, "stream.out", json!({"sizes": [3, 1, 5], "reader": "fast", "noise": noise, "exit": exit, "frag": 0}), o_all(), b));
                }
            }
            v.push(job(prop, "stream.out", json!({"sizes": [2, 40000, 3], "reader": "fast", "noise": "var", "exit": true, "frag": 0}), o_all(), 1));
            // sizes around every buffer boundary x readers x read fragmentation
            let sizes = [1usize, 2, 4095, 4096, 4097, 16383, 16384, 16385, 32768, 65535, 65536, 100_000, 400_000];
            for s in sizes {
                for reader in ["fast", "late", "pulse"] {
                    for exit in [false, true] {
                        v.push(job(prop, "stream.out", json!({"sizes": [s], "reader": reader, "noise": "", "exit": exit, "frag": 0}), o_none(), 0));
                        v.push(job(prop, "stream.out", json!({"sizes": [s, 1, s], "reader": reader, "noise": "var", "exit": exit, "frag": 0}), o_none(), 0));
                    }
                }
            }
            for frag in [1u64, 2, 3, 5, 7] {
                for reader in ["fast", "late"] {
                    v.push(job(prop, "stream.out", json!({"sizes": [700, 1, 2], "reader": reader, "noise": "var", "exit": true, "frag": frag}), o_none(), 0));
                }
            }
            // the end of the shell against the reader's pauses
            for size in [10u64, 300_000] {
                for pause in [100u64, 250, 450, 600, 1500, 4000] {
                    v.push(job(prop, "stream.out", json!({"sizes": [size], "reader": "pause", "pause": pause, "noise": "", "exit": true, "frag": 0}), o_none(), 0));
                    v.push(job(prop, "stream.out", json!({"sizes": [size], "reader": "pause", "pause": pause, "noise": "var", "exit": false, "frag": 0}), o_none(), 0));
                }
            }
            // everything one byte value can be
            v.push(job(prop, "stream.bytes", json!({}), o_none(), 0));
            for sts in [false, true] {
                v.push(job(prop, "stream.survivor", json!({"again": sts}), o_all(), 1));
            }
        }
        "P04" | "P05" => {
            // pairs of (bindings, alphabet); the codes are what terminals send
            let sets: Vec<(Value, Vec<u8>, usize)> = vec![
                (json!([["Ctrl-Space Ctrl-q", [0, 17], "noop"]]), vec![0, 17, b'x'], if deep { 7 } else { 5 }),
                (json!([["Ctrl-a b c", [1, b'b', b'c'], "noop"]]), vec![1, b'b', b'c', b'x'], if deep { 6 } else { 4 }),
                (json!([["a a b", [b'a', b'a', b'b'], "noop"], ["b c", [b'b', b'c'], "noop"]]), vec![b'a', b'b', b'c'], if deep { 7 } else { 5 }),
                (json!([["a b a c", [b'a', b'b', b'a', b'c'], "noop"]]), vec![b'a', b'b', b'c'], if deep { 7 } else { 5 }),
                (json!([["Ctrl-a", [1], "noop"], ["Ctrl-b Ctrl-b Ctrl-c", [2, 2, 3], "noop"]]), vec![1, 2, 3], if deep { 7 } else { 5 }),
                (json!([["Ctrl-x", [24], "noop"], ["Ctrl-y d", [25, b'd'], "noop"]]), vec![24, 25, b'd'], if deep { 6 } else { 4 }),
                (json!([["Ctrl-[ Ctrl-2", [27, 0], "noop"], ["Ctrl-Space x", [0, b'x'], "noop"]]), vec![27, 0, b'x'], if deep { 6 } else { 4 }),
            ];
            for (k, a, n) in &sets {
                for part in 0..4 {
                    v.push(job(prop, "stream.in", json!({"bind": k, "alpha": a, "len": n, "part": part, "parts": 4}), o_none(), 0));
                }
            }
            // detaching bindings: every string up to the length, every split, fresh attachment each
            let det = json!([["Ctrl-Space Ctrl-q", [0, 17], "detach"]]);
            for part in 0..4 {
                v.push(job(prop, "stream.in", json!({"bind": det, "alpha": [0, 17, b'x'], "len": if deep { 5 } else { 4 }, "part": part, "parts": 4}), o_none(), 0));
                v.push(job(prop, "stream.in", json!({"bind": [["Ctrl-a d", [1, b'd'], "detach"], ["Ctrl-a e", [1, b'e'], "noop"]], "alpha": [1, b'd', b'e'], "len": if deep { 5 } else { 4 }, "part": part, "parts": 4}), o_none(), 0));
            }
            // the default binding when none is configured
            v.push(job(prop, "stream.in", json!({"bind": null, "alpha": [0, 17, b'x'], "len": 3, "part": 0, "parts": 1}), o_none(), 0));
            if prop == "P04" {
                for size in [1u64, 16383, 16384, 16385, 40000, 200_000] {
                    for mode in ["plain", "tail", "stuck"] {
                        v.push(job(prop, "stream.bulk", json!({"size": size, "mode": mode}), o_none(), 0));
                    }
                }
                for ops in ["", "var", "resize", "out", "beat"] {
                    v.push(job(prop, "stream.typing", json!({"noise": ops}), o_all(), b));
                }
            } else {
                for (i, _) in KEYS.iter().enumerate() {
                    v.push(job(prop, "stream.key", json!({"i": i}), o_none(), 0));
                }
                let n = specs(if deep { 5 } else { 4 }).len();
                let step = 40;
                let mut i = 0;
                while i < n {
                    v.push(job(prop, "stream.spec", json!({"from": i, "to": (i + step).min(n), "len": if deep { 5 } else { 4 }}), o_none(), 0));
                    i += step;
                }
                for (i, _) in sets_pairs().iter().enumerate() {
                    v.push(job(prop, "stream.pair", json!({"i": i}), o_none(), 0));
                }
            }
        }
        "P15" => {
            let n = if deep { 3 } else { 2 };
            v.push(job(prop, "stream.restore", json!({"engine": "vt100", "mode": "lines", "depth": 2, "part": 0, "parts": 1, "only": [5, 6]}), o_none(), 0));
            v.push(job(prop, "stream.restore", json!({"engine": "vterm", "mode": "screen", "depth": 1, "part": 0, "parts": 1, "only": [2]}), o_none(), 0));
            v.push(job(prop, "stream.restore", json!({"engine": "vterm", "mode": "screen", "depth": 2, "part": 0, "parts": 1, "only": [5, 1], "grow": true}), o_none(), 0));
            v.push(job(prop, "stream.restore", json!({"engine": "vterm", "mode": "screen", "depth": 1, "part": 0, "parts": 1, "only": [5]}), o_none(), 0));
            for engine in ["vt100", "vterm"] {
                for want in [1u64, 2, 7, 8, 9, 20, 300, 1000, 65535] {
                    v.push(job(prop, "stream.lines", json!({"engine": engine, "want": want}), o_none(), 0));
                }
            }
            for engine in ["vt100", "vterm"] {
                for mode in ["screen", "lines", "simple"] {
                    let parts = if deep { 32 } else { 8 };
                    for part in 0..parts {
                        v.push(job(prop, "stream.restore", json!({"engine": engine, "mode": mode, "depth": n, "part": part, "parts": parts}), o_none(), 0));
                    }
                    // output racing with the reattach, every schedule
                    for how in ["detach", "hangup"] {
                        v.push(job(prop, "stream.reattach", json!({"engine": engine, "mode": mode, "how": how}), o_all(), b));
                    }
                }
            }
        }
        "P24" => {
            for frag in [0u64, 1, 2, 3, 5, 13] {
                for pre in 0..PRE.len() {
                    for post in 0..POST.len() {
                        v.push(job(prop, "stream.sentinel", json!({"frag": frag, "pre": pre, "post": post, "cut": -1}), o_none(), 0));
                    }
                }
            }
            // every split of the output around the sentinel into two reads
            for pre in [0usize, 1, 3] {
                for cut in 0..48 {
                    v.push(job(prop, "stream.sentinel", json!({"frag": 0, "pre": pre, "post": 1, "cut": cut}), o_none(), 0));
                }
            }
            v.push(job(prop, "stream.sentinel", json!({"frag": 0, "pre": 1, "post": 1, "cut": -1}), o_all(), b));
            for how in ["exit", "silent", "chatty", "cmd", "blank", "nu", "startcmd", "startcmd-blank"] {
                for frag in [0u64, 1, 3] {
                    v.push(job(prop, "stream.nosetup", json!({"how": how, "frag": frag}), o_none(), 0));
                }
            }
        }
        _ => {}
    }
}

pub fn run(f: &str, p: &Value) {
    match f {
        "out" => out(p),
        "bytes" => bytes(),
        "survivor" => survivor(p["again"].as_bool().unwrap()),
        "in" => input(p),
        "bulk" => bulk(u(p, "size") as usize, &s(p, "mode")),
        "typing" => typing(&s(p, "noise")),
        "key" => key(u(p, "i") as usize),
        "spec" => spec(u(p, "from") as usize, u(p, "to") as usize, u(p, "len") as usize),
        "pair" => pair_spec(u(p, "i") as usize),
        "restore" => restore(p),
        "lines" => lines(p),
        "reattach" => reattach(p),
        "sentinel" => sentinel(p),
        "nosetup" => nosetup(&s(p, "how"), u(p, "frag") as usize),
        _ => panic!("unknown {f}"),
    }
}

pub fn pattern(n: usize, seed: usize) -> Vec<u8> {
    // position dependent, so that loss, repetition and reordering all show
    (0..n).map(|i| (((i + seed * 7919) * 2654435761usize) >> 11) as u8).collect()
}
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!(
        "got {} bytes, expected {}; first difference at offset {k}: got {:?}, expected {:?}",
        got.len(),
        want.len(),
        esc(&got[k.min(got.len())..(k + 24).min(got.len())]),
        esc(&want[k.min(want.len())..(k + 24).min(want.len())])
    )
}
fn noise(w: &World, kind: &str, sh: Sh) -> Option<std::thread::JoinHandle<()>> {
    let w = w.clone();
    let kind = kind.to_string();
    if kind.is_empty() {
        return None;
    }
    Some(spawn(G_CLIENT, "noise", move || match kind.as_str() {
        "var" => {
            w.set_var("k", Some("1")).unwrap_or_else(|e| fail("var-unanswered", e));
        }
        "resize" => {
            w.resize("a", 30, 90).unwrap_or_else(|e| fail("resize-unanswered", e));
        }
        "list" => {
            w.list_ok();
        }
        "beat" => sleep_ms(1200),
        "out" => {
            sh.out(b"noise");
        }
        "detach-other" => {
            w.detach(&["b"]).unwrap_or_else(|e| fail("detach-unanswered", e));
        }
        _ => panic!(),
    }))
}

fn out(p: &Value) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "h"), "first-attach", "first attach does not work");
    let other = if s(p, "noise") == "detach-other" { Some(w.create("b")) } else { None };
    let base = c.data.len();
    let frag = u(p, "frag") as usize;
    if frag > 0 {
        let ino = rt().ttys[sh.tty()].master_ino;
        rt().frag.insert(ino, frag);
    }
    let sizes: Vec<usize> = p["sizes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let exit = p["exit"].as_bool().unwrap();
    let mut want = vec![];
    let pieces: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(i, n)| pattern(*n, i + 1)).collect();
    for x in &pieces {
        want.extend_from_slice(x);
    }
    explore(true);
    let nh = noise(&w, &s(p, "noise"), sh);
    let wh = spawn(G_CLIENT, "shell-writer", move || {
        for x in pieces {
            if !sh.out(&x) {
                return;
            }
        }
        if exit {
            sh.exit(7);
        }
    });
    let done = |c: &Client| c.data.len() >= base + want.len() && (!exit || c.exit.is_some());
    match s(p, "reader").as_str() {
        "fast" => {
            c.until(60_000, done);
        }
        "late" => {
            sleep_ms(3000);
            c.until(60_000, done);
        }
        "pause" => {
            sleep_ms(u(p, "pause"));
            c.until(60_000, done);
        }
        "pulse" => {
            let end = now_ms() + 120_000;
            while !done(&c) && !c.ended() && now_ms() < end {
                for _ in 0..4 {
                    c.step(50);
                }
                sleep_ms(350);
            }
        }
        _ => panic!(),
    }
    explore(false);
    if let Some(h) = nh {
        h.join().unwrap();
    }
    c.drain_ms(700);
    let got = c.data[base..].to_vec();
    if got != want {
        fail(
            if exit { "output-before-exit" } else { "output-corrupt" },
            format!("{} (exit {:?}, ended {:?} {:?})", diff(&got, &want), c.exit, c.eof, c.bad),
        );
    }
    if exit {
        ensure!(c.exit == Some(7), "exit-status", "the client got exit status {:?} instead of 7", c.exit);
        ensure!(c.wait_end(3000), "not-closed", "the connection stays open after the exit status");
    } else {
        ensure!(!c.ended() && c.exit.is_none(), "dropped", "the client lost its connection while attached (exit {:?} {:?})", c.exit, c.bad);
    }
    wh.join().unwrap();
    drop(other);
    no_panics();
    set_output(format!("{} {:?} {}", got.len(), c.exit, c.switches.len()).as_bytes());
}
fn bytes() {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "h"), "first-attach", "first attach does not work");
    // every pair of byte values in one stream, written in odd-sized pieces
    let mut want = c.data.clone();
    let mut all = vec![];
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            all.push(a);
            all.push(b);
        }
    }
    let mut i = 0;
    let mut n = 1;
    while i < all.len() {
        let e = (i + n).min(all.len());
        ensure!(sh.out(&all[i..e]), "write", "the terminal refused output");
        want.extend_from_slice(&all[i..e]);
        ensure!(c.until(5000, |c| c.data.len() >= want.len()), "stalled", "output stalls: {}", diff(&c.data, &want));
        i = e;
        n = n * 2 + 1;
        if n > 5000 {
            n = 1;
        }
    }
    ensure!(c.data == want, "output-corrupt", "{}", diff(&c.data, &want));
    no_panics();
}
/// a background process keeps the terminal open and writing after the shell exits
fn survivor(again: bool) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "h"), "first-attach", "first attach does not work");
    let base = c.data.len();
    rt().procs.get_mut(&sh.pid).unwrap().tty_survives = true;
    explore(true);
    sh.out(b"last words");
    sh.exit(9);
    if again {
        sh.out(b" and more");
    }
    ensure!(c.until(8000, |c| c.exit.is_some()), "no-exit-status", "no exit status within 8s although the shell exited");
    explore(false);
    ensure!(c.exit == Some(9), "exit-status", "exit status {:?}", c.exit);
    ensure!(c.data[base..].starts_with(b"last words"), "output-before-exit", "output written before the exit is missing: {}", esc(&c.data[base..]));
    no_panics();
}

// ------------------------------------------------------------------ input
/// reference: which bytes reach the shell, which are held back, what fires
struct Ref {
    binds: Vec<(Vec<u8>, bool)>, // codes, detach
    held: Vec<u8>,
    out: Vec<u8>,
    fired: usize,
    detached: bool,
}
impl Ref {
    fn new(binds: Vec<(Vec<u8>, bool)>) -> Ref {
        Ref { binds, held: vec![], out: vec![], fired: 0, detached: false }
    }
    fn feed(&mut self, b: u8) {
        if self.detached {
            return;
        }
        self.held.push(b);
        if let Some((k, d)) = self.binds.iter().find(|(k, _)| self.held.ends_with(k)) {
            let n = self.held.len() - k.len();
            self.out.extend_from_slice(&self.held[..n]);
            self.held.clear();
            self.fired += 1;
            self.detached = *d;
            return;
        }
        // keep the longest tail that is a proper prefix of a binding
        let mut keep = 0;
        for n in (1..=self.held.len()).rev() {
            let t = &self.held[self.held.len() - n..];
            if self.binds.iter().any(|(k, _)| k.len() > n && k.starts_with(t)) {
                keep = n;
                break;
            }
        }
        let n = self.held.len() - keep;
        self.out.extend(self.held.drain(..n));
    }
}
fn binds_of(p: &Value) -> Vec<(String, Vec<u8>, bool)> {
    if p["bind"].is_null() {
        return vec![("".into(), vec![0, 17], true)];
    }
    p["bind"]
        .as_array()
        .unwrap()
        .iter()
        .map(|b| {
            (
                b[0].as_str().unwrap().to_string(),
                b[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
                b[2] == "detach",
            )
        })
        .collect()
}
fn cfg_bind(b: &[(String, Vec<u8>, bool)]) -> String {
    let mut c = BASE_CFG.to_string();
    for (k, _, d) in b {
        if !k.is_empty() {
            c.push_str(&format!("\n[[keybinding]]\nbinding = {:?}\naction = \"{}\"\n", k, if *d { "detach" } else { "noop" }));
        }
    }
    c
}
fn strings(alpha: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..n {
        let mut nv = vec![];
        for x in &v {
            for a in alpha {
                let mut y = x.clone();
                y.push(*a);
                nv.push(y);
            }
        }
        all.extend(nv.iter().cloned());
        v = nv;
    }
    all
}
fn reattach_until(w: &World) -> Client {
    super::attach::attach_free(w, "a", 3000).0
}
/// all strings over the alphabet x all splits into reads, as one long stream
fn input(p: &Value) {
    let b = binds_of(p);
    let w = World::new(&cfg_bind(&b));
    let (mut c, sh) = w.create("a");
    rt().step_limit = 50_000_000;
    let alpha: Vec<u8> = p["alpha"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    let mut n = 0u64;
    let mut r = Ref::new(b.iter().map(|x| (x.1.clone(), x.2)).collect());
    let mut dets = 0;
    let has_detach = b.iter().any(|x| x.2);
    for st in strings(&alpha, u(p, "len") as usize) {
        for mask in 0..(1u32 << (st.len() - 1)) {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            let mut pieces: Vec<Vec<u8>> = vec![vec![]];
            for (i, ch) in st.iter().enumerate() {
                pieces.last_mut().unwrap().push(*ch);
                if i + 1 < st.len() && mask >> i & 1 == 1 {
                    pieces.push(vec![]);
                }
            }
            let mut got = vec![];
            let before = r.out.len();
            for pc in &pieces {
                if r.detached {
                    break;
                }
                for ch in pc {
                    r.feed(*ch);
                }
                if !c.send(pc) {
                    fail("input-refused", format!("typing {:?} (in reads {:?}): the connection is gone", esc(&st), pieces));
                }
                settle();
            }
            got.extend(sh.input());
            if got != r.out[before..] {
                // give it time before judging
                got.extend(sh.input_n((r.out.len() - before).saturating_sub(got.len()), 500));
            }
            ensure!(
                got == r.out[before..],
                "input-wrong",
                "typing {:?} in reads {:?} after {:?}: the shell got {:?}, expected {:?}",
                esc(&st),
                pieces.iter().map(|x| esc(x)).collect::<Vec<_>>(),
                esc(&r.out[before.saturating_sub(12)..before]),
                esc(&got),
                esc(&r.out[before..])
            );
            if r.detached {
                dets += 1;
                c.until(2000, |c| c.eof);
                ensure!(c.exit == Some(0) && c.ended(), "no-detach", "typing {:?} in reads {:?} did not detach (exit {:?} ended {})", esc(&st), pieces, c.exit, c.ended());
                ensure!(sh.alive(), "shell-died", "detaching killed the shell");
                c = reattach_until(&w);
                r.detached = false;
                r.held.clear();
            } else if has_detach {
                // still attached, and the partial match belongs to this attachment
                c.drain_ms(1);
                ensure!(!c.ended() && c.exit.is_none(), "false-detach", "typing {:?} in reads {:?} detached the client", esc(&st), pieces);
            }
        }
    }
    ensure!(r.fired > 0, "vacuous", "no binding ever fired");
    c.drain_ms(5);
    ensure!(!c.ended(), "dropped", "the client lost its connection");
    no_panics();
    set_output(format!("{n} {} {dets}", r.fired).as_bytes());
}
fn bulk(size: usize, mode: &str) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "h"), "first-attach", "first attach does not work");
    // no control characters, so that no binding can be involved
    let mut data: Vec<u8> = pattern(size, 3).iter().map(|b| 32 + b % 90).collect();
    let mut want = data.clone();
    if mode == "tail" {
        data.extend([0, 17]);
    }
    let d2 = data.clone();
    let mut s2 = c.s.try_clone().unwrap();
    let h = spawn(G_CLIENT, "typist", move || s2.write_all(&d2).is_ok());
    if mode == "stuck" {
        // the shell does not read for a while
        sleep_ms(4000);
    }
    let got = sh.input_n(want.len(), 20_000);
    want.truncate(want.len());
    ensure!(got == want, "input-lost", "{}", diff(&got, &want));
    ensure!(h.join().unwrap(), "input-refused", "the connection broke while typing");
    if mode == "tail" {
        ensure!(c.until(3000, |c| c.eof) && c.exit == Some(0), "no-detach", "the binding at the end did not detach");
    } else {
        ensure!(talks(&mut c, &sh, "k"), "unusable", "the attachment is not usable afterwards");
    }
    no_panics();
    set_output(format!("{size} {mode}").as_bytes());
}
use std::io::Write;
fn typing(nz: &str) {
    let w = World::new(BASE_CFG);
    let (mut c, sh) = w.create("a");
    ensure!(talks(&mut c, &sh, "h"), "first-attach", "first attach does not work");
    explore(true);
    let nh = noise(&w, nz, sh);
    for x in [&b"ab"[..], &[0u8][..], b"x", &[0, 1][..], b"end\n"] {
        ensure!(c.send(x), "input-refused", "the connection broke while typing");
    }
    let want = b"ab\x00x\x00\x01end\n";
    let got = sh.input_n(want.len(), 5000);
    explore(false);
    ensure!(got == want, "input-lost", "{}", diff(&got, want));
    if let Some(h) = nh {
        h.join().unwrap();
    }
    no_panics();
}

// ------------------------------------------------------------ key names
pub const KEYS: &[(&str, u8)] = &[
    ("a", b'a'), ("b", b'b'), ("m", b'm'), ("z", b'z'), ("0", b'0'), ("9", b'9'), ("Space", b' '),
    ("\\", b'\\'), ("[", b'['), ("]", b']'), ("@", b'@'), ("^", b'^'), ("_", b'_'), ("?", b'?'),
    ("Ctrl-Space", 0), ("Ctrl-@", 0), ("Ctrl-2", 0),
    ("Ctrl-a", 1), ("Ctrl-b", 2), ("Ctrl-c", 3), ("Ctrl-d", 4), ("Ctrl-e", 5), ("Ctrl-f", 6), ("Ctrl-g", 7),
    ("Ctrl-h", 8), ("Ctrl-i", 9), ("Ctrl-j", 10), ("Ctrl-k", 11), ("Ctrl-l", 12), ("Ctrl-m", 13), ("Ctrl-n", 14),
    ("Ctrl-o", 15), ("Ctrl-p", 16), ("Ctrl-q", 17), ("Ctrl-r", 18), ("Ctrl-s", 19), ("Ctrl-t", 20), ("Ctrl-u", 21),
    ("Ctrl-v", 22), ("Ctrl-w", 23), ("Ctrl-x", 24), ("Ctrl-y", 25), ("Ctrl-z", 26),
    ("Ctrl-[", 27), ("Ctrl-3", 27), ("Ctrl-\\", 28), ("Ctrl-4", 28), ("Ctrl-]", 29), ("Ctrl-5", 29),
    ("Ctrl-^", 30), ("Ctrl-6", 30), ("Ctrl-_", 31), ("Ctrl-7", 31), ("Ctrl-?", 127), ("Ctrl-8", 127),
];
/// what a chord denotes, from how terminals encode keys
fn code_of(ch: &str) -> Option<u8> {
    if let Some((_, c)) = KEYS.iter().find(|(k, _)| *k == ch) {
        return Some(*c);
    }
    let b = ch.as_bytes();
    if b.len() == 1 && (b[0].is_ascii_lowercase() || b[0].is_ascii_digit()) {
        return Some(b[0]);
    }
    None
}
fn key(i: usize) {
    let (k, code) = KEYS[i];
    let w = World::new(&cfg_bind(&[(k.to_string(), vec![code], false)]));
    rt().step_limit = 10_000_000;
    let (mut c, sh) = w.create("a");
    for b in 0..=255u8 {
        ensure!(c.send(&[b]), "input-refused", "typing {b:#x}: the connection is gone");
        settle();
        let got = sh.input();
        if b == code {
            ensure!(got.is_empty(), "wrong-code", "binding {k:?} does not fire on byte {b:#x}: the shell got {got:?}");
        } else {
            ensure!(got == [b], "wrong-code", "with binding {k:?} byte {b:#x} reached the shell as {got:?}");
        }
    }
    c.drain_ms(5);
    ensure!(!c.ended(), "dropped", "the client lost its connection");
    no_panics();
    set_output(k.as_bytes());
}
const TOKS: &[&str] = &["Ctrl", "-", " ", "a", "Space", "C", "[", "Z"];
fn specs(n: usize) -> Vec<String> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![String::new()];
    for _ in 0..n {
        let mut nv = vec![];
        for x in &v {
            for t in 0..TOKS.len() {
                let mut y = x.clone();
                y.push(t);
                nv.push(y);
            }
        }
        all.extend(nv.iter().map(|x| x.iter().map(|t| TOKS[*t]).collect::<String>()));
        v = nv;
    }
    let mut seen = std::collections::HashSet::new();
    all.retain(|x| seen.insert(x.clone()));
    all
}
/// The documented grammar: chords separated by blanks, keys of a chord joined
/// by dashes. None: malformed. Blanks around dashes and missing blanks
/// between keys are tolerated either way (`loose`).
fn parse_spec(sp: &str) -> (Option<Vec<u8>>, bool) {
    // tokenise: Ctrl, Space, single characters
    let mut toks: Vec<String> = vec![];
    let mut gaps: Vec<bool> = vec![];
    let mut rest = sp;
    let mut gap = false;
    while !rest.is_empty() {
        let ch = rest.chars().next().unwrap();
        if ch.is_whitespace() {
            gap = true;
            rest = &rest[1..];
            continue;
        }
        let t = if rest.starts_with("Ctrl") {
            "Ctrl"
        } else if rest.starts_with("Space") {
            "Space"
        } else if "-\\[]@^_?".contains(ch) || ch.is_ascii_lowercase() || ch.is_ascii_digit() {
            &rest[..1]
        } else {
            // not a key name; only "C" "trl" style splits could make sense of it
            return (None, sp.contains("C ") || sp.contains("S "));
        };
        toks.push(t.to_string());
        gaps.push(gap);
        gap = false;
        rest = &rest[t.len()..];
    }
    if toks.is_empty() {
        return (None, false);
    }
    let mut loose = false;
    let mut chords: Vec<Vec<String>> = vec![];
    let mut dash = true;
    let mut first = true;
    for (t, g) in toks.iter().zip(&gaps) {
        if t == "-" {
            if dash {
                return (None, false);
            }
            dash = true;
            loose |= *g;
        } else if dash && !first {
            chords.last_mut().unwrap().push(t.clone());
            dash = false;
            loose |= *g;
        } else {
            loose |= !first && !*g;
            chords.push(vec![t.clone()]);
            dash = false;
        }
        first = false;
    }
    if dash {
        return (None, false);
    }
    let mut codes = vec![];
    for c in chords {
        match code_of(&c.join("-")) {
            Some(x) => codes.push(x),
            None => return (None, false),
        }
    }
    (Some(codes), loose)
}
fn spec(from: usize, to: usize, len: usize) {
    // each specification gets a daemon of its own: run them as one process
    // tree is not possible, so one daemon and one config per name
    let all = specs(len);
    for sp in &all[from..to] {
        spec_one(&[sp.clone()], &[parse_spec(sp)]);
    }
}
fn spec_one(sp: &[String], want: &[(Option<Vec<u8>>, bool)]) {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    rt().step_limit = 50_000_000;
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = cwd().join(format!("d{n}"));
    std::fs::create_dir_all(&dir).unwrap();
    let mut cfg = BASE_CFG.to_string();
    for x in sp {
        cfg.push_str(&format!("\n[[keybinding]]\nbinding = {}\naction = \"noop\"\n", toml_str(x)));
    }
    let w = World { dir: dir.clone(), sock: dir.join("s"), cfg: dir.join("c.toml") };
    std::fs::write(&w.cfg, cfg).unwrap();
    let args: Vec<String> = vec!["-c".into(), w.cfg.to_string_lossy().to_string(), "--socket".into(), w.sock.to_string_lossy().to_string(), "daemon".into()];
    spawn(G_DAEMON, "daemon", move || {
        let r = run_shpool(&args);
        rt::logln(&format!("daemon returned {r:?}"));
    });
    if !wait_until(3000, || w.up()) {
        // the whole configuration was refused: a rejection too
        ensure!(want.iter().any(|x| x.0.is_none() || x.1), "rejected-valid", "binding {sp:?} is valid but the daemon refuses it");
        return;
    }
    let codes: Vec<u8> = match &want[0].0 {
        Some(c) => c.clone(),
        None => vec![],
    };
    let (mut c, sh) = w.create("a");
    c.drain_ms(400);
    let rejected = c.ended();
    let loose = want.iter().any(|x| x.1);
    if want.iter().any(|x| x.0.is_none()) {
        ensure!(rejected || loose, "accepted-malformed", "binding {sp:?} is malformed but silently accepted");
    } else if rejected {
        ensure!(loose, "rejected-valid", "binding {sp:?} is valid but rejected");
    } else {
        for wnt in want {
            let codes = wnt.0.clone().unwrap();
            c.send(b"\xfe");
            c.send(&codes);
            c.send(b"\xff");
            settle();
            let got = sh.input_n(2, 300);
            ensure!(got == [0xfe, 0xff], "wrong-meaning", "binding {sp:?} does not fire on {codes:?}: the shell got {got:?}");
        }
        let _ = codes;
    }
    no_panics();
    // the daemon of this case stays behind, idle
    c.s.shutdown(std::net::Shutdown::Both).ok();
    sh.exit(0);
}
fn toml_str(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
/// pairs of bindings: None = ambiguous
fn sets_pairs() -> Vec<(&'static str, &'static str, bool)> {
    vec![
        ("a", "b", true),
        ("Ctrl-a b", "Ctrl-a c", true),
        ("Ctrl-a b", "b Ctrl-a", true),
        ("Ctrl-2 a", "Ctrl-Space b", true),
        ("Ctrl-@ a", "Ctrl-2 b", true),
        ("Ctrl-3 a", "Ctrl-[ b", true),
        ("a a b", "b a a", true),
        ("Ctrl-a", "Ctrl-a b", false),
        ("Ctrl-a b", "Ctrl-a", false),
        ("a b c", "a b", false),
        ("Ctrl-2", "Ctrl-@ x", false),
    ]
}
fn pair_spec(i: usize) {
    let (a, b, ok) = sets_pairs()[i];
    let (pa, pb) = (parse_spec(a), parse_spec(b));
    ensure!(pa.0.is_some() && pb.0.is_some(), "harness", "bad pair");
    if ok {
        spec_one(&[a.into(), b.into()], &[pa, pb]);
    } else {
        // one is a prefix of the other: either refused, or both still work
        spec_one(&[a.into(), b.into()], &[(None, false), pb]);
    }
}

// ------------------------------------------------------------ restore
const PIECES: &[&str] = &[
    "hello\r\n",
    "\x1b[31mred\x1b[0m plain\r\n",
    "\x1b[5;10Hhere",
    "\x1b[2J\x1b[H",
    "\x1b[1mbold",
    "many\r\nlines\r\nof\r\ntext\r\nto\r\nscroll\r\nthe\r\nscreen\r\naway\r\nnow\r\n",
    "\u{e9}\u{4e2d}\u{1f600}",
    "over\rwr\x08x",
    "\x1b[?1049hALT\x1b[3;3Hx",
    "\x1b[7mrev\x1b[27m \x1b[44mblue bg\x1b[49m",
];
fn cfg_restore(engine: &str, mode: &str, width: u16) -> String {
    let m = match mode {
        "screen" => "session_restore_mode = \"screen\"".to_string(),
        "lines" => "session_restore_mode = { lines = 5 }".to_string(),
        _ => "session_restore_mode = \"simple\"".to_string(),
    };
    format!("prompt_prefix = \"\"\nnoread_etc_environment = true\nshell = \"/bin/bash\"\nvt100_output_spool_width = {width}\nsession_restore_engine = \"{engine}\"\n{m}\n")
}
fn grid(p: &shpool_vt100::Parser) -> Vec<String> {
    let (rows, cols) = p.screen().size();
    let mut v = vec![];
    for r in 0..rows {
        let mut l = String::new();
        for c in 0..cols {
            if let Some(cell) = p.screen().cell(r, c) {
                let ct = cell.contents();
                let ct = if ct.is_empty() { " ".to_string() } else { ct.to_string() };
                l.push_str(&ct);
                if ct != " " || cell.bgcolor() != shpool_vt100::Color::Default || cell.inverse() {
                    l.push_str(&format!("{{{:?}{:?}{}{}{}}}", cell.fgcolor(), cell.bgcolor(), cell.bold() as u8, cell.inverse() as u8, cell.underline() as u8).replace("DefaultDefault000", ""));
                }
            }
        }
        v.push(l.replace("{}", "").trim_end().to_string());
    }
    v
}
fn text(p: &shpool_vt100::Parser) -> Vec<String> {
    let (_, cols) = p.screen().size();
    p.screen().rows(0, cols).map(|s| s.trim_end().to_string()).collect()
}
static KNOWN_ONLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// all short histories of output pieces x where the client is absent
fn restore(p: &Value) {
    let (engine, mode) = (s(p, "engine"), s(p, "mode"));
    KNOWN_ONLY.store(!p["only"].is_null(), std::sync::atomic::Ordering::Relaxed);
    let (rows, cols) = (8u16, 30u16);
    let w = World::new(&cfg_restore(&engine, &mode, cols));
    rt().step_limit = 50_000_000;
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..u(p, "depth") {
        let mut nv = vec![];
        for x in &seqs {
            for i in 0..PIECES.len() {
                let mut y: Vec<usize> = x.clone();
                y.push(i);
                nv.push(y);
            }
        }
        all.extend(nv.iter().cloned());
        seqs = nv;
    }
    let mut n = 0;
    for (k, sq) in all.iter().enumerate() {
        let only = p["only"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>());
        if let Some(o) = &only {
            if o != sq {
                continue;
            }
        } else if engine == "vterm" && (sq.contains(&8) || sq.contains(&2) || (sq.contains(&6) && sq.contains(&7))) {
            // alternate screens are outside of what that crate models; cursor
            // addressing is a known finding with a job of its own; emulators
            // differ about overwriting half of a wide character
            continue;
        }
        for away in 0..=sq.len() {
            n += 1;
            if n % u(p, "parts") != u(p, "part") {
                continue;
            }
            let name = format!("s{k}-{away}");
            let mut h = w.hdr(&name);
            h.local_tty_size = TtySize { rows, cols, xpixel: 0, ypixel: 0 };
            let (mut c, sh) = w.create_h(h.clone());
            let mut rf = shpool_vt100::Parser::new(rows, cols, 200);
            let mut total = vec![];
            for (i, x) in sq.iter().enumerate() {
                if i == away {
                    w.detach(&[&name]).unwrap_or_else(|e| fail("detach-unanswered", e));
                    c.wait_end(1000);
                }
                sh.out(PIECES[*x].as_bytes());
                total.extend_from_slice(PIECES[*x].as_bytes());
                rf.process(PIECES[*x].as_bytes());
                settle();
                if i < away {
                    c.drain_ms(1);
                }
            }
            if away == sq.len() {
                w.detach(&[&name]).unwrap_or_else(|e| fail("detach-unanswered", e));
                c.wait_end(1000);
            }
            drop(c);
            // sized differently on return in half of the cases
            // (the vterm engine does not move the cursor when growing: known
            // finding, with a job of its own)
            let grow = if engine == "vterm" { p["grow"] == true } else { k % 2 == 1 };
            let nrows = if grow { rows + 3 } else { rows };
            h.local_tty_size.rows = nrows;
            let end = now_ms() + 3000;
            let mut c = loop {
                let (c, st) = w.attach_h(h.clone());
                if matches!(st, AttachStatus::Attached { .. }) {
                    break c;
                }
                ensure!(matches!(st, AttachStatus::Busy) && now_ms() < end, "attach", "reattach answered {st:?}");
                sleep_ms(20);
            };
            rf.screen_mut().set_size(nrows, cols);
            c.drain_ms(250);
            let what = format!("{engine}/{mode} after {:?} (absent from piece {away})", sq.iter().map(|i| PIECES[*i]).collect::<Vec<_>>());
            check_restore(&mode, &engine, &c.data, &rf, &total, nrows, cols, &what);
            // live output continues right behind it
            let at = c.data.len();
            ensure!(c.send(b"x") && !sh.input_n(1, 3000).is_empty(), "unusable", "input does not arrive after reattach");
            sh.out(b"LIVE\r\n");
            ensure!(c.until(3000, |c| c.data.len() >= at + 6) && &c.data[at..] == b"LIVE\r\n", "live", "{what}: live output arrives as {}", esc(&c.data[at..]));
            w.kill(&[&name]).unwrap_or_else(|e| fail("kill-unanswered", e));
            drop(c);
        }
    }
    no_panics();
    set_output(format!("{engine} {mode} {n}").as_bytes());
}
fn check_restore(mode: &str, engine: &str, data: &[u8], rf: &shpool_vt100::Parser, total: &[u8], rows: u16, cols: u16, what: &str) {
    match mode {
        "simple" => ensure!(data.is_empty(), "simple-restores", "{what}: {}", esc(data)),
        "screen" => {
            let mut t = shpool_vt100::Parser::new(rows, cols, 0);
            t.process(data);
            let (g, e) = if engine == "vt100" { (grid(&t), grid(rf)) } else { (text(&t), text(rf)) };
            // known finding: once the screen has scrolled, vterm restores lines
            // of scrollback in place of the blank rows at the bottom
            if engine == "vterm" && total.windows(6).any(|w| w == b"scroll") && e.last().is_some_and(|l| l.is_empty()) {
                if g != e && KNOWN_ONLY.load(std::sync::atomic::Ordering::Relaxed) {
                    fail(if rows > 8 { "vterm-grow" } else { "vterm-scrolled-blank" }, format!("{what}: restored {g:?}, expected {e:?}"));
                }
                return;
            }
            if g != e && KNOWN_ONLY.load(std::sync::atomic::Ordering::Relaxed) {
                fail(if rows > 8 { "vterm-grow" } else { "vterm-cursor-addressing" }, format!("{what}: restored {g:?}, expected {e:?}"));
            }
            ensure!(g == e, "screen-differs", "{what}: restored {:?}, expected {:?} (bytes {})", g, e, esc(data));
            ensure!(
                t.screen().cursor_position() == rf.screen().cursor_position(),
                "cursor-differs",
                "{what}: cursor restored at {:?}, expected {:?} (bytes {})",
                t.screen().cursor_position(),
                rf.screen().cursor_position(),
                esc(data)
            );
            if engine == "vt100" {
                let a = |p: &shpool_vt100::Parser| format!("{:?} {:?} {} {}", p.screen().fgcolor(), p.screen().bgcolor(), p.screen().bold(), p.screen().inverse());
                ensure!(a(&t) == a(rf), "attr-differs", "{what}: attributes {} expected {}", a(&t), a(rf));
            }
        }
        "lines" => {
            // plain histories only: cursor addressing has no notion of "last lines"
            let plain = !total.contains(&0x1b) && !total.contains(&8);
            if !plain {
                return;
            }
            let mut t = shpool_vt100::Parser::new(60, cols, 0);
            t.process(data);
            let got: Vec<String> = text(&t).into_iter().filter(|l| !l.is_empty()).collect();
            let mut f = shpool_vt100::Parser::new(200, cols, 0);
            f.process(total);
            let mut exp: Vec<String> = text(&f);
            let last = f.screen().cursor_position().0 as usize;
            exp.truncate(last + 1);
            let from = exp.len().saturating_sub(5);
            let e5: Vec<String> = exp[from..].iter().filter(|l| !l.is_empty()).cloned().collect();
            let from6 = exp.len().saturating_sub(6);
            let e6: Vec<String> = exp[from6..].iter().filter(|l| !l.is_empty()).cloned().collect();
            // known finding: a last line without a newline is left out
            let from_k = exp.len().saturating_sub(6);
            let ek: Vec<String> = exp[from_k..exp.len().max(1) - 1].iter().filter(|l| !l.is_empty()).cloned().collect();
            if engine == "vt100" && got == ek && !total.ends_with(b"\n") {
                if KNOWN_ONLY.load(std::sync::atomic::Ordering::Relaxed) {
                    fail("lines-without-current", format!("{what}: restored {got:?}, expected the last lines {e5:?}"));
                }
                return;
            }
            ensure!(got == e5 || got == e6, "lines-differ", "{what}: restored {got:?}, expected the last lines {e5:?} (bytes {})", esc(data));
        }
        _ => panic!(),
    }
}
/// as many lines as asked for, whatever the size of the terminal
fn lines(p: &Value) {
    let (engine, want) = (s(p, "engine"), u(p, "want") as usize);
    let cols = 30;
    let w = World::new(&cfg_restore(&engine, "simple", cols).replace("\"simple\"", &format!("{{ lines = {want} }}")).replace("noread_etc", "output_spool_lines = 400\nnoread_etc"));
    rt().step_limit = 50_000_000;
    for rows in [1u16, 3, 8] {
        for n in [1usize, 2, 3, 7, 8, 9, 15, 40, 350] {
            let name = format!("s{rows}-{n}");
            let mut h = w.hdr(&name);
            h.local_tty_size = TtySize { rows, cols, xpixel: 0, ypixel: 0 };
            let (mut c, sh) = w.create_h(h.clone());
            for i in 0..n {
                sh.out(format!("line {i} of it\r\n").as_bytes());
            }
            settle();
            c.drain_ms(50);
            w.detach(&[&name]).unwrap_or_else(|e| fail("detach-unanswered", e));
            c.wait_end(1000);
            drop(c);
            let end = now_ms() + 3000;
            let mut c = loop {
                let (c, st) = w.attach_h(h.clone());
                if matches!(st, AttachStatus::Attached { .. }) {
                    break c;
                }
                ensure!(matches!(st, AttachStatus::Busy) && now_ms() < end, "attach", "reattach answered {st:?}");
                sleep_ms(20);
            };
            c.drain_ms(250);
            let mut t = shpool_vt100::Parser::new(1000, cols, 0);
            t.process(&c.data);
            let got: Vec<String> = text(&t).into_iter().filter(|l| !l.is_empty()).collect();
            // the line of the cursor may count as one of them or not
            let exp = |k: usize| (n.saturating_sub(k)..n).map(|i| format!("line {i} of it")).collect::<Vec<_>>();
            ensure!(
                got == exp(want) || got == exp(want - 1),
                "lines-differ",
                "{engine}: {n} lines written to a terminal of {rows} rows, {want} lines to restore, got {} lines {:?} to {:?}",
                got.len(),
                got.first(),
                got.last()
            );
            w.kill(&[&name]).unwrap_or_else(|e| fail("kill-unanswered", e));
            drop(c);
        }
    }
    no_panics();
    set_output(format!("{engine} lines {want}").as_bytes());
}
/// output racing with detach and reattach
fn reattach(p: &Value) {
    let (engine, mode) = (s(p, "engine"), s(p, "mode"));
    let (rows, cols) = (10u16, 40u16);
    let w = World::new(&cfg_restore(&engine, &mode, cols));
    let mut h = w.hdr("a");
    h.local_tty_size = TtySize { rows, cols, xpixel: 0, ypixel: 0 };
    let (mut c, sh) = w.create_h(h.clone());
    ensure!(talks(&mut c, &sh, "h"), "first-attach", "first attach does not work");
    let mut total = c.data.clone();
    let line = |i: usize| format!("line {i:03}\r\n");
    sh.out(b"\r\n");
    total.extend_from_slice(b"\r\n");
    for i in 0..4 {
        sh.out(line(i).as_bytes());
        total.extend_from_slice(line(i).as_bytes());
    }
    settle();
    if s(p, "how") == "detach" {
        w.detach(&["a"]).unwrap_or_else(|e| fail("detach-unanswered", e));
        c.wait_end(1000);
    } else {
        c.s.shutdown(std::net::Shutdown::Both).ok();
    }
    drop(c);
    sleep_ms(1500);
    for i in 4..6 {
        sh.out(line(i).as_bytes());
        total.extend_from_slice(line(i).as_bytes());
    }
    settle();
    explore(true);
    let wh = spawn(G_CLIENT, "shell-writer", move || {
        for i in 6..10 {
            sh.out(line(i).as_bytes());
            sleep_ms(20);
        }
    });
    let (mut c, st) = w.attach_h(h);
    ensure!(matches!(st, AttachStatus::Attached { .. }), "attach", "reattach answered {st:?}");
    wh.join().unwrap();
    c.drain_ms(150);
    explore(false);
    for i in 6..10 {
        total.extend_from_slice(line(i).as_bytes());
    }
    c.drain_ms(400);
    let sdata = String::from_utf8_lossy(&c.data).to_string();
    let nums: Vec<usize> = sdata.match_indices("line ").filter_map(|(i, _)| sdata[i + 5..].get(..3).and_then(|x| x.parse().ok())).collect();
    set_output(format!("{nums:?}").as_bytes());
    // whatever was restored, the numbers form one gapless run up to the last line
    let ok = nums.windows(2).all(|w| w[1] == w[0] + 1) && (nums.last() == Some(&9) || mode == "simple");
    match mode.as_str() {
        "simple" => ensure!(nums.windows(2).all(|w| w[1] == w[0] + 1) && nums.iter().all(|n| *n >= 4), "gap", "lines seen after reattach: {nums:?}"),
        _ => {
            let ok2 = if mode == "screen" {
                let mut rf = shpool_vt100::Parser::new(rows, cols, 0);
                rf.process(&total);
                let mut t = shpool_vt100::Parser::new(rows, cols, 0);
                t.process(&c.data);
                text(&t) == text(&rf) && t.screen().cursor_position() == rf.screen().cursor_position()
            } else {
                nums.first().map(|f| *f <= 5).unwrap_or(false)
            };
            ensure!(ok && ok2, "gap", "{engine}/{mode}: lines seen after reattach: {nums:?} (bytes {})", esc(&c.data));
        }
    }
    no_panics();
}

// ------------------------------------------------------------ prompt set-up
const PRE: &[&str] = &["", "S", "SHPOOL_PROMPT_SETUP_SENTINE", "SHPOOL_SHPOOL_PROMPT_", "$ some echoed\r\n script text\r\nSSS"];
const POST: &[&str] = &["", "\r\n$ prompt", "SHPOOL_PROMPT_SETUP_SENTINEL again", "SHPOOL_STARTUP_SENTINEL"];
pub const S_START: &str = "SHPOOL_STARTUP_SENTINEL";
pub const S_PROMPT: &str = "SHPOOL_PROMPT_SETUP_SENTINEL";
pub fn cfg_prompt() -> &'static str {
    "prompt_prefix = \"P:\"\nnoread_etc_environment = true\nsession_restore_mode = \"simple\"\nshell = \"/bin/bash\"\n"
}
pub fn wait_shell(not: &[i32]) -> Sh {
    let mut sh = None;
    wait_until(5000, || {
        sh = live_shells().into_iter().find(|s| !not.contains(&s.pid));
        sh.is_some()
    });
    sh.unwrap_or_else(|| fail("no-shell", "no shell was started"))
}
pub fn read_cmd(sh: &Sh, what: &str) -> Vec<u8> {
    let mut v = vec![];
    let pat = format!("={what} ");
    let ok = wait_until(5000, || {
        v.extend(sh.input());
        find(&v, pat.as_bytes()) && v.ends_with(b"daemon\n")
    });
    ensure!(ok, "no-setup", "the shell was not asked to print its {what} marker; it got {}", esc(&v));
    v
}
fn sentinel(p: &Value) {
    let w = World::new(cfg_prompt());
    let (pre, post) = (PRE[u(p, "pre") as usize], POST[u(p, "post") as usize]);
    let frag = u(p, "frag") as usize;
    let w2 = w.clone();
    explore(true);
    let h = spawn(G_CLIENT, "attacher", move || w2.attach("a"));
    let sh = wait_shell(&[]);
    if frag > 0 {
        let ino = rt().ttys[sh.tty()].master_ino;
        rt().frag.insert(ino, frag);
    }
    let echo = read_cmd(&sh, "startup");
    sh.out(&echo);
    sh.out(pre.as_bytes());
    sh.out(S_START.as_bytes());
    sh.out(b"\r\n");
    let script = read_cmd(&sh, "prompt");
    sh.out(&script);
    let mut tail = vec![];
    tail.extend_from_slice(pre.as_bytes());
    tail.extend_from_slice(S_PROMPT.as_bytes());
    tail.extend_from_slice(post.as_bytes());
    let cut = p["cut"].as_i64().unwrap();
    let (mut c, st) = h.join().unwrap();
    ensure!(matches!(st, AttachStatus::Created { .. }), "create-refused", "{st:?}");
    if cut >= 0 {
        let k = (cut as usize).min(tail.len());
        sh.out(&tail[..k]);
        settle();
        sleep_ms(30);
        sh.out(&tail[k..]);
    } else {
        sh.out(&tail);
    }
    sleep_ms(100);
    sh.out(b"visible\r\n");
    let want = format!("{post}visible\r\n").into_bytes();
    c.until(4000, |c| c.data.len() >= want.len());
    explore(false);
    c.drain_ms(50);
    ensure!(c.data == want, "setup-output", "the terminal shows {:?}, expected {:?}", esc(&c.data), esc(&want));
    ensure!(talks(&mut c, &sh, "t"), "unusable", "the session is not usable after set-up");
    no_panics();
    set_output(format!("{pre}|{post}|{frag}").as_bytes());
}
/// set-up impossible, disabled or not wanted: everything is shown
fn nosetup(how: &str, frag: usize) {
    let cfg = match how {
        "blank" | "startcmd-blank" => BASE_CFG.to_string(),
        "nu" => {
            let nu = cwd().join("nu");
            std::fs::write(&nu, "#!/bin/sh\n").unwrap();
            std::fs::set_permissions(&nu, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
            cfg_prompt().replace("/bin/bash", nu.to_str().unwrap())
        }
        _ => cfg_prompt().to_string(),
    };
    let w = World::new(&cfg);
    let mut h = w.hdr("a");
    if how == "cmd" {
        h.cmd = Some("/bin/cat -A".into());
    }
    if how.starts_with("startcmd") {
        h.start_cmd = Some("echo started".into());
    }
    let w2 = w.clone();
    let ah = spawn(G_CLIENT, "attacher", move || {
        let mut s = w2.dial().unwrap_or_else(|| fail("connect", "cannot connect"));
        s.write_all(&enc(&ConnectHeader::Attach(h))).unwrap();
        s.set_read_timeout(Some(std::time::Duration::from_secs(300))).unwrap();
        let r: Result<AttachReplyHeader, String> = dec(&mut s);
        (s, r)
    });
    let sh = wait_shell(&[]);
    if frag > 0 {
        let ino = rt().ttys[sh.tty()].master_ino;
        rt().frag.insert(ino, frag);
    }
    let mut want: Vec<u8> = vec![];
    let mut exits = None;
    match how {
        "exit" => {
            want.extend_from_slice(b"This account is not available.\r\n");
            sh.out(&want);
            sh.exit(1);
            exits = Some(1);
        }
        "silent" => {
            // never answers; only after the daemon gave up there is output
            sleep_ms(100_000);
            want.extend_from_slice(b"finally\r\n");
            sh.out(&want);
        }
        "chatty" => {
            for i in 0..12 {
                let l = format!("still starting {i}\r\n");
                sh.out(l.as_bytes());
                want.extend_from_slice(l.as_bytes());
                sleep_ms(10_000);
            }
        }
        "startcmd" | "startcmd-blank" => {
            let _ = read_cmd(&sh, "startup");
            sh.out(S_START.as_bytes());
            let script = read_cmd(&sh, "prompt");
            ensure!(find(&script, b"\necho started\n"), "start-cmd", "the start command was not run: {}", esc(&script));
            sh.out(S_PROMPT.as_bytes());
            want.extend_from_slice(b"after\r\n");
            sh.out(&want);
        }
        _ => {
            want.extend_from_slice(b"first byte on\r\nSHPOOL_PROMPT_SETUP_SENTINEL\r\nshown\r\n");
            sh.out(&want);
        }
    }
    let (cs, r) = ah.join().unwrap();
    ensure!(r.is_ok(), "attach-unanswered", "attach got no reply: {r:?}");
    let mut c = Client { s: cs, exit: None, eof: false, data: vec![], switches: vec![], beats: 0, bad: None };
    c.until(5000, |c| c.data.len() >= want.len() && (exits.is_none() || c.exit.is_some()));
    c.drain_ms(100);
    ensure!(c.data == want, "output-hidden", "{how}: the terminal shows {:?}, expected {:?}", esc(&c.data), esc(&want));
    ensure!(c.exit == exits, "exit-status", "{how}: exit status {:?}, expected {exits:?}", c.exit);
    if !matches!(how, "exit") {
        let got = sh.input();
        if matches!(how, "cmd" | "blank" | "nu") {
            ensure!(got.is_empty(), "injected", "{how}: text was typed at the shell: {}", esc(&got));
        }
        ensure!(talks(&mut c, &sh, "t"), "unusable", "{how}: the session is not usable");
    }
    no_panics();
    set_output(how.as_bytes());
}
