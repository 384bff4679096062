//! Operations under chosen schedules, crashes and failures of system calls.
//! The preloaded shim does the choosing; here runs are set up and recorded.
use crate::ops::Exec;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, CString};
use std::io::{Read, Write};
use std::os::raw::{c_char, c_int};
use std::os::unix::io::FromRawFd;

fn sym(name: &str) -> *mut libc::c_void {
    let n = CString::new(name).unwrap();
    let f = unsafe { libc::dlsym(libc::RTLD_DEFAULT, n.as_ptr()) };
    if f.is_null() {
        panic!("harness: not preloaded: {}", name);
    }
    f
}
macro_rules! call {
    ($name:literal, ($($t:ty),*) -> $r:ty, $($a:expr),*) => {{
        let f: extern "C" fn($($t),*) -> $r = unsafe { std::mem::transmute(sym($name)) };
        f($($a),*)
    }};
}

fn init(root: &str) {
    call!("vp_init", (c_int) -> c_int, 0);
    let r = CString::new(root).unwrap();
    call!("vp_root", (*const c_char) -> (), r.as_ptr());
}
fn disturb(mode: i32, at: i32, part: i32, err: i32, persist: i32, kinds: i32, full: i32) {
    call!("vp_disturb", (c_int, c_int, c_int, c_int, c_int, c_int, c_int) -> (),
        mode, at, part, err, persist, kinds, full);
}
fn me(i: i32) {
    call!("vp_me", (c_int) -> c_int, i);
}
fn log(on: bool) {
    call!("vp_log", (c_int) -> (), on as c_int);
}
fn log_text() -> Vec<String> {
    let p = call!("vp_log_text", () -> *const c_char,);
    unsafe { CStr::from_ptr(p) }.to_string_lossy().lines().map(|l| l.to_owned()).collect()
}

/// Operations with "$D" replaced by a directory.
fn subst(v: &Value, dir: &str) -> Value {
    match v {
        Value::String(s) if s.starts_with("$D") => format!("{}{}", dir, &s[2..]).into(),
        Value::Array(a) => a.iter().map(|x| subst(x, dir)).collect::<Vec<_>>().into(),
        Value::Object(o) => {
            Value::Object(o.iter().map(|(k, x)| (k.clone(), subst(x, dir))).collect())
        }
        v => v.clone(),
    }
}
fn list(v: &Value, dir: &str) -> Vec<Value> {
    match v {
        Value::Null => vec![],
        v => subst(v, dir).as_array().expect("harness: list").clone(),
    }
}

fn setup(ex: &mut Exec, ops: &[Value]) {
    for o in ops {
        let r = ex.run(o);
        // what cannot be set up is the business of sequential histories
        if r["t"] != "ok" && o["may"] != true {
            eprintln!("harness: set-up: {} of {}", r, o);
            std::process::exit(3);
        }
    }
}

pub struct Dirs {
    root: String,
    n: u64,
}
impl Dirs {
    fn new(op: &Value) -> Dirs {
        Dirs { root: op["root"].as_str().expect("harness: root").into(), n: 0 }
    }
    fn fresh(&mut self) -> String {
        self.n += 1;
        let d = format!("{}/w{}", self.root, self.n);
        std::fs::create_dir_all(&d).expect("harness: directory");
        d
    }
    fn done(&self, d: &str) {
        let _ = std::fs::remove_dir_all(d);
    }
}

// --- schedules ------------------------------------------------------------------

struct Run {
    events: Vec<Value>,
    dec: Vec<(u8, u8, u8)>,
    end: i32,
}

fn script(sub: &mut Exec, t: usize, ops: &[Value]) -> Vec<Value> {
    let mut out = vec![];
    call!("vp_thread_start", (c_int) -> c_int, t as c_int);
    for (i, o) in ops.iter().enumerate() {
        let a = call!("vp_op_begin", (c_int) -> c_int, i as c_int);
        let r = sub.run(o);
        let b = call!("vp_op_end", (c_int) -> c_int, i as c_int);
        out.push(json!([t, i, a, b, r]));
    }
    call!("vp_thread_end", (c_int) -> c_int, t as c_int);
    out
}

fn scheduled(ex: &Exec, scripts: &[Vec<Value>], procs: bool, prefix: &[u8], rng: u64, rate: i32) -> Run {
    let n = scripts.len();
    call!("vp_sched", (*const u8, c_int, u64, c_int) -> (), prefix.as_ptr(), prefix.len() as c_int, rng, rate);
    call!("vp_begin", (c_int) -> c_int, n as c_int);
    let mut res: Vec<Value> = vec![];
    if procs {
        let mut kids = vec![];
        for (t, ops) in scripts.iter().enumerate() {
            let mut fd = [0 as c_int; 2];
            assert_eq!(unsafe { libc::pipe(fd.as_mut_ptr()) }, 0, "harness: pipe");
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                unsafe { libc::close(fd[0]) };
                let mut sub = ex.share();
                let out = script(&mut sub, t, ops);
                let mut f = unsafe { std::fs::File::from_raw_fd(fd[1]) };
                let _ = f.write_all(Value::from(out).to_string().as_bytes());
                drop(f);
                unsafe { libc::_exit(0) };
            }
            unsafe { libc::close(fd[1]) };
            kids.push((pid, fd[0]));
        }
        for (t, (pid, fd)) in kids.into_iter().enumerate() {
            let mut text = String::new();
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let _ = f.read_to_string(&mut text);
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            match serde_json::from_str::<Value>(&text) {
                Ok(v) => res.extend(v.as_array().unwrap().iter().cloned()),
                Err(_) => res.push(json!([t, -1, 1 << 29, (1 << 29) + 1, {"t": "panic", "v": "died"}])),
            }
        }
    } else {
        let joins: Vec<_> = scripts
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let mut sub = ex.share();
                let ops = ops.clone();
                std::thread::spawn(move || script(&mut sub, t, &ops))
            })
            .collect();
        for (t, j) in joins.into_iter().enumerate() {
            match j.join() {
                Ok(v) => res.extend(v),
                Err(_) => res.push(json!([t, -1, 1 << 29, (1 << 29) + 1, {"t": "panic", "v": "died"}])),
            }
        }
    }
    let end = call!("vp_end", (c_int) -> c_int, 0);
    let mut m = vec![0u8; 16384];
    let mut c = m.clone();
    let mut u = m.clone();
    let k = call!("vp_decisions", (*mut u8, *mut u8, *mut u8) -> c_int, m.as_mut_ptr(), c.as_mut_ptr(), u.as_mut_ptr()) as usize;
    // invocations and returns, in the order in which they happened
    let mut ev: Vec<(i64, Value)> = vec![];
    for r in res {
        ev.push((r[2].as_i64().unwrap(), json!(["inv", r[0], r[1]])));
        ev.push((r[3].as_i64().unwrap(), json!(["ret", r[0], r[1], r[4]])));
    }
    ev.sort_by_key(|e| e.0);
    Run {
        events: ev.into_iter().map(|e| e.1).collect(),
        dec: (0..k).map(|i| (m[i], c[i], u[i])).collect(),
        end,
    }
}

/// Runs scripts under many schedules: systematically with few preemptions,
/// then at random.  Returns the different histories.
pub fn explore(_ex: &mut Exec, op: &Value) -> Value {
    let mut dirs = Dirs::new(op);
    init(&dirs.root);
    call!("vp_piece", (c_int) -> (), op["piece"].as_i64().unwrap_or(0) as c_int);
    disturb(0, 0, 0, 0, 0, 0, -1);
    let bound = op["bound"].as_u64().unwrap_or(2) as usize;
    let max = op["max"].as_u64().unwrap_or(1000) as usize;
    let random = op["random"].as_u64().unwrap_or(0) as usize;
    let procs = op["procs"].as_bool().unwrap_or(false);
    let mut rng = op["seed"].as_u64().unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = move || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        rng
    };
    let deadline = std::time::Instant::now()
        + std::time::Duration::from_millis(op["ms"].as_u64().unwrap_or(600_000));
    // schedules to run, by number of preemptions
    let mut work: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    let fixed = op["sched"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<u8>>());
    work.insert(0, vec![fixed.clone().unwrap_or_default()]);
    let (mut runs, mut stolen, mut stuck, mut points, mut extra) = (0usize, 0usize, 0usize, 0usize, 0usize);
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut hists: Vec<Value> = vec![];
    let mut sysl: Vec<String> = vec![];
    let mut exhausted = false;
    loop {
        // both cost time, and more of them show no more
        let late = std::time::Instant::now() > deadline || stuck > 2 || stolen > 60;
        let level = work.keys().next().cloned();
        let (prefix, r, rate, systematic) = match level {
            Some(l) if runs < max && !late => {
                let v = work.get_mut(&l).unwrap();
                let k = (next() % v.len() as u64) as usize;
                let p = v.swap_remove(k);
                if v.is_empty() {
                    work.remove(&l);
                }
                (p, 0, 1, true)
            }
            _ => {
                if level.is_none() {
                    exhausted = true;
                }
                if fixed.is_some() || late || extra >= random || (exhausted && op["all"] == true) {
                    break;
                }
                extra += 1;
                (vec![], next(), [2, 3, 5, 9][(next() % 4) as usize], false)
            }
        };
        let dir = dirs.fresh();
        let mut sub = Exec::default();
        setup(&mut sub, &list(&op["setup"], &dir));
        let scripts: Vec<Vec<Value>> = op["scripts"]
            .as_array()
            .expect("harness: scripts")
            .iter()
            .map(|s| list(s, &dir))
            .collect();
        log(op["log"].as_bool().unwrap_or(false) && runs == 0);
        let run = scheduled(&sub, &scripts, procs, &prefix, r, rate);
        if op["log"].as_bool().unwrap_or(false) && runs == 0 {
            sysl = log_text();
        }
        log(false);
        runs += 1;
        stolen += (run.end == 1) as usize;
        stuck += (run.end == 2) as usize;
        points += run.dec.len();
        let fin: Vec<Value> = list(&op["after"], &dir).iter().map(|o| sub.run(o)).collect();
        dirs.done(&dir);
        if systematic && fixed.is_none() && run.end != 1 {
            let mut pre = 0;
            for (d, &(mask, chosen, cur)) in run.dec.iter().enumerate() {
                if d >= prefix.len() {
                    for alt in 0..8u8 {
                        if mask >> alt & 1 == 1 && alt != chosen {
                            let cost = pre + (cur != 255 && alt != cur) as usize;
                            if cost <= bound {
                                let mut p: Vec<u8> = run.dec[..d].iter().map(|x| x.1).collect();
                                p.push(alt);
                                work.entry(cost).or_default().push(p);
                            }
                        }
                    }
                }
                pre += (cur != 255 && chosen != cur) as usize;
            }
        }
        let h = json!({"ev": run.events, "dead": run.end == 2, "after": fin});
        let key = h.to_string();
        match seen.get(&key) {
            Some(&i) => {
                let n = hists[i]["n"].as_u64().unwrap() + 1;
                hists[i]["n"] = n.into();
            }
            None => {
                seen.insert(key, hists.len());
                let mut h = h;
                h["n"] = 1.into();
                h["sched"] = run.dec.iter().map(|d| d.1).collect::<Vec<_>>().into();
                hists.push(h);
            }
        }
    }
    json!({"t": "ok", "v": {"runs": runs, "exhausted": exhausted, "stolen": stolen,
        "points": points, "hists": hists, "log": sysl}})
}

// --- crashes and failures ---------------------------------------------------------

const CHANGE: i32 = 4 | 8 | 32 | 64 | 128 | 2048 | 4096;

/// Ends a process at every point of an operation.
pub fn crash(_ex: &mut Exec, op: &Value) -> Value {
    let mut dirs = Dirs::new(op);
    init(&dirs.root);
    call!("vp_piece", (c_int) -> (), op["piece"].as_i64().unwrap_or(0) as c_int);
    let parts: Vec<i32> = op["parts"].as_array().map_or(vec![0, 1, 2, 3], |a| {
        a.iter().map(|x| x.as_i64().unwrap() as i32).collect()
    });
    let mut out = vec![];
    let mut total = i32::MAX;
    let limit = op["limit"].as_i64().unwrap_or(400) as i32;
    let mut at = -1;
    while at < total.min(limit) {
        for &part in &parts {
            if at == -1 && part != parts[0] {
                continue;
            }
            let dir = dirs.fresh();
            let mut sub = Exec::default();
            setup(&mut sub, &list(&op["setup"], &dir));
            let what = subst(&op["do"], &dir);
            log(true);
            disturb(1, if at < 0 { i32::MAX } else { at }, part, 0, 0, CHANGE, -1);
            let pid = unsafe { libc::fork() };
            assert!(pid >= 0, "harness: fork");
            if pid == 0 {
                me(0);
                let r = sub.run(&what);
                unsafe { libc::_exit(if r["t"] == "ok" { 0 } else { 1 }) };
            }
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            let n = call!("vp_count", (c_int) -> c_int, 0);
            let fired = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 99;
            disturb(0, 0, 0, 0, 0, 0, -1);
            let calls = log_text();
            log(false);
            if at == -1 {
                total = n;
            }
            if fired || at == -1 {
                let fin: Vec<Value> = list(&op["after"], &dir).iter().map(|o| sub.run(o)).collect();
                out.push(json!({"at": at, "part": part, "fired": fired, "status": st,
                    "last": calls.last().cloned().unwrap_or_default(), "after": fin}));
            }
            dirs.done(&dir);
        }
        at += 1;
    }
    json!({"t": "ok", "v": {"points": total, "runs": out}})
}

/// Fails system calls of an operation, one after the other.
pub fn faults(_ex: &mut Exec, op: &Value) -> Value {
    let mut dirs = Dirs::new(op);
    init(&dirs.root);
    call!("vp_piece", (c_int) -> (), op["piece"].as_i64().unwrap_or(0) as c_int);
    let limit = op["limit"].as_i64().unwrap_or(300);
    let mut out = vec![];
    for v in op["variants"].as_array().expect("harness: variants") {
        let g = |k: &str, d: i64| v[k].as_i64().unwrap_or(d) as i32;
        let mut at = 0i64;
        loop {
            let dir = dirs.fresh();
            let mut sub = Exec::default();
            setup(&mut sub, &list(&op["setup"], &dir));
            let what = subst(&op["do"], &dir);
            log(true);
            let full = g("full", -1);
            disturb(2, if full >= 0 { i32::MAX } else { at as i32 }, g("part", 0), g("err", 5),
                g("persist", 0), g("kinds", CHANGE as i64), full);
            me(0);
            let r = sub.run(&what);
            me(-1);
            let fired = call!("vp_fired", (c_int) -> c_int, 0) == 1;
            let n = call!("vp_count", (c_int) -> c_int, 0) as i64;
            disturb(0, 0, 0, 0, 0, 0, -1);
            let calls = log_text();
            log(false);
            if fired {
                let fin: Vec<Value> = list(&op["after"], &dir).iter().map(|o| sub.run(o)).collect();
                out.push(json!({"at": at, "variant": v, "res": r,
                    "last": calls.last().cloned().unwrap_or_default(), "after": fin}));
            }
            dirs.done(&dir);
            at += 1;
            if full >= 0 || at > n || at > limit {
                break;
            }
        }
    }
    json!({"t": "ok", "v": {"runs": out}})
}

// --- what other software does --------------------------------------------------------

fn files(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).expect("harness: files") {
        let p = e.expect("harness: files").path();
        if p.is_dir() {
            files(&p, out);
        } else {
            out.push(p);
        }
    }
    out.sort();
}

/// Without the shim noticing.
fn quietly<R>(what: impl FnOnce() -> R) -> R {
    let q = unsafe { libc::dlsym(libc::RTLD_DEFAULT, b"vp_quiet\0".as_ptr() as *const c_char) };
    let quiet = |on: c_int| {
        if !q.is_null() {
            let f: extern "C" fn(c_int) -> c_int = unsafe { std::mem::transmute(q) };
            f(on);
        }
    };
    quiet(1);
    let r = what();
    quiet(0);
    r
}

/// Locks held by others, and looks at values without locks.
pub fn others(ex: &mut Exec, name: &str, op: &Value) -> Option<Result<Value, std::io::Error>> {
    use std::os::unix::io::AsRawFd;
    Some(match name {
        "lock" => (|| {
            use std::os::unix::fs::MetadataExt;
            let name = op["file"].as_str().expect("harness: file");
            let how = if op["ex"] == true { libc::LOCK_EX } else { libc::LOCK_SH };
            // of the file that is there, rather than of one that was
            let f = loop {
                let f = std::fs::File::open(name)?;
                if unsafe { libc::flock(f.as_raw_fd(), how) } != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                let same = quietly(|| {
                    Ok::<_, std::io::Error>(
                        std::fs::metadata(name)?.ino() == f.metadata()?.ino())
                });
                if let Ok(true) = same {
                    break f;
                }
            };
            ex.locks.insert(op["id"].as_u64().unwrap_or(0), f);
            Ok(json!(""))
        })(),
        "unlock" => {
            ex.locks.remove(&op["id"].as_u64().unwrap_or(0));
            Ok(json!(""))
        }
        "peek" => {
            // at one moment
            let r = quietly(|| std::fs::read(op["file"].as_str().expect("harness: file")));
            Ok(match r {
                Ok(b) => json!({"some": true, "hex": crate::elem::hexs(&b)}),
                Err(_) => json!({"some": false, "hex": ""}),
            })
        }
        "pause" => Ok(json!("")),
        "await" => {
            call!("vp_await", (c_int) -> c_int, op["who"].as_i64().expect("harness: who") as c_int);
            Ok(json!(""))
        }
        "probe" => {
            // the files that somebody holds a lock on
            let base = std::path::PathBuf::from(op["dir"].as_str().expect("harness: dir"));
            let mut all = vec![];
            if base.is_dir() {
                files(&base, &mut all);
            }
            let mut held = vec![];
            for p in all {
                if let Ok(f) = std::fs::File::open(&p) {
                    if unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) } != 0 {
                        held.push(p.strip_prefix(&base).unwrap().to_str().unwrap_or("?").to_owned());
                    }
                }
            }
            Ok(json!(held))
        }
        _ => return None,
    })
}
