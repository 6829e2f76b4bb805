//! Exhaustive-enumeration engine: runs every case of an indexed finite space in forked
//! workers, isolates crashes/hangs to the exact case, counts distinct states and transitions.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
const SET_BITS: usize = 24;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
    pub fn name(self) -> &'static str { self.pick("quick", "thorough") }
}

#[derive(Clone, Debug)]
pub struct Violation { pub key: String, pub detail: String }
pub type CaseResult = Result<(), Violation>;
pub fn viol<T>(key: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { key: key.into(), detail: detail.into() })
}

#[repr(C)]
struct Shared {
    transitions: AtomicU64,
    traces: AtomicU64,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    distinct: AtomicU64,
    overflow: AtomicU64,
    cur: [AtomicU64; WORKERS],      // index currently running (idx+1), 0 = none
    beat: [AtomicU64; WORKERS],     // heartbeat: cases finished
    counters: [AtomicU64; 32],
}
pub struct Stats { sh: *mut Shared, set: *mut AtomicU64 }
unsafe impl Sync for Stats {}
unsafe impl Send for Stats {}

fn shm<T>(len: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p as isize != -1);
        p as *mut T
    }
}
pub fn shm_bytes(len: usize) -> *mut u8 { shm::<u8>(len) }

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Stats {
    pub fn new() -> Self {
        Stats { sh: shm::<Shared>(std::mem::size_of::<Shared>()), set: shm::<AtomicU64>(8 << SET_BITS) }
    }
    fn s(&self) -> &Shared { unsafe { &*self.sh } }
    /// Record a (hashed) state; returns true if it had not been seen before by any worker.
    pub fn state(&self, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let mask = (1usize << SET_BITS) - 1;
        let mut i = (h.wrapping_mul(0x9E3779B97F4A7C15) >> 20) as usize & mask;
        for _ in 0..256 {
            let slot = unsafe { &*self.set.add(i) };
            match slot.compare_exchange(0, h, SeqCst, SeqCst) {
                Ok(_) => {
                    self.s().distinct.fetch_add(1, SeqCst);
                    return true;
                }
                Err(v) if v == h => return false,
                Err(_) => i = (i + 1) & mask,
            }
        }
        self.s().overflow.fetch_add(1, SeqCst);
        true
    }
    pub fn state_str(&self, s: &str) -> bool { self.state(fnv(s.as_bytes())) }
    pub fn transitions(&self, n: u64) { self.s().transitions.fetch_add(n, SeqCst); }
    pub fn traces(&self, n: u64) { self.s().traces.fetch_add(n, SeqCst); }
    pub fn nontrivial(&self, n: u64) { self.s().nontrivial.fetch_add(n, SeqCst); }
    pub fn count(&self, i: usize, n: u64) { self.s().counters[i].fetch_add(n, SeqCst); }
    pub fn counter(&self, i: usize) -> u64 { self.s().counters[i].load(SeqCst) }
    pub fn n_states(&self) -> u64 { self.s().distinct.load(SeqCst) }
}

/// One finite, indexed space of cases.
pub struct Space<'a> {
    pub name: &'static str,
    pub n: usize,
    pub rule: String,
    pub run: Box<dyn Fn(usize, &Stats) -> CaseResult + 'a>,
    pub describe: Box<dyn Fn(usize) -> String + 'a>,
    /// seconds a single case may take
    pub limit: u64,
}

pub struct Report {
    pub stats: Stats,
    pub violations: Vec<(String, usize, Violation)>, // (space, idx, violation)
    pub evals: u64,
    pub spaces: Vec<(String, usize, String, f64)>,
    pub samples: Vec<String>,
    pub errors: Vec<String>,
    pub start: Instant,
}
impl Report {
    pub fn new() -> Self {
        Report { stats: Stats::new(), violations: vec![], evals: 0, spaces: vec![], samples: vec![], errors: vec![], start: Instant::now() }
    }
    /// A new violation has been found and going on would not answer in time.
    pub fn enough(&self, prop: &str, tier: Tier) -> bool {
        let kn = known(prop);
        let fresh = self.violations.iter().filter(|(s, _, v)| !kn.iter().any(|k| k.0 == *s && k.1 == v.key)).collect::<Vec<_>>();
        fresh.iter().any(|f| f.2.key == "hang") || (tier == Tier::Quick && !fresh.is_empty() && self.start.elapsed().as_secs() > 300)
    }
}

thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let loc = info.location().map(|l| format!("{}", l.file().rsplit('/').next().unwrap_or(""))).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
    }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_one(sp: &Space, i: usize, st: &Stats) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| (sp.run)(i, st))) {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            viol("panic", format!("panicked: {m}"))
        }
    }
}

fn wr(fd: i32, sp: usize, i: usize, v: &Violation) {
    let _ = sp;
    let s = format!("{}\u{1}{}\u{1}{}\u{2}", i, v.key, v.detail.replace(['\u{1}', '\u{2}'], " "));
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 { break; }
        b = &b[n as usize..];
    }
}

const MAXV: u64 = 40; // violations reported per worker before it stops

pub fn run_space(rep: &mut Report, sp: &Space) {
    let t0 = Instant::now();
    let n = sp.n;
    let nw = WORKERS.min(n.max(1));
    if n > 0 {
        rep.samples.push(format!("[{}] case {}: {}", sp.name, n / 2, trunc(&(sp.describe)(n / 2), 600)));
    }
    let mut suspects: Vec<usize> = vec![];
    // Each worker owns indices i with i % nw == w; on crash it is restarted past the offending index.
    let mut next: Vec<usize> = (0..nw).collect();
    let mut restarts = 0;
    let mut limit = sp.limit;
    let st = &rep.stats;
    struct W { pid: i32, fd: i32, last_beat: u64, since: Instant, buf: Vec<u8>, done: bool }
    let spawn = |w: usize, from: usize| -> W {
        let mut fds = [0i32; 2];
        unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
        st.s().cur[w].store(0, SeqCst);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                if !verbose() {
                    let dn = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(dn, 2);
                }
            }
            let mut nv = 0;
            let mut i = from;
            // run on a big stack so that only real runaway recursion overflows
            let mut go = || {
                while i < n {
                    st.s().cur[w].store(i as u64 + 1, SeqCst);
                    if let Err(v) = run_one(sp, i, st) {
                        wr(fds[1], 0, i, &v);
                        nv += 1;
                    }
                    st.s().evals.fetch_add(1, SeqCst);
                    st.s().beat[w].fetch_add(1, SeqCst);
                    i += nw;
                    if nv >= MAXV { break; }
                }
            };
            go();
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        W { pid, fd: fds[0], last_beat: st.s().beat[w].load(SeqCst), since: Instant::now(), buf: vec![], done: false }
    };
    let mut found: Vec<(usize, Violation)> = vec![];
    loop {
    let mut hangs = 0;
    let mut ws: Vec<W> = (0..nw).map(|w| spawn(w, next[w])).collect();
    while ws.iter().any(|w| !w.done) {
        let mut pf: Vec<libc::pollfd> = ws.iter().map(|w| libc::pollfd { fd: if w.done { -1 } else { w.fd }, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 200) };
        for w in 0..nw {
            if ws[w].done { continue; }
            let mut eof = false;
            if pf[w].revents != 0 {
                let mut b = [0u8; 65536];
                let r = unsafe { libc::read(ws[w].fd, b.as_mut_ptr() as *mut _, b.len()) };
                if r > 0 { ws[w].buf.extend_from_slice(&b[..r as usize]); } else { eof = true; }
            }
            let beat = st.s().beat[w].load(SeqCst);
            if beat != ws[w].last_beat {
                ws[w].last_beat = beat;
                ws[w].since = Instant::now();
            }
            let hung = !eof && ws[w].since.elapsed() > Duration::from_secs(limit);
            if hung { unsafe { libc::kill(ws[w].pid, libc::SIGKILL) }; }
            if eof || hung {
                let mut status = 0;
                unsafe { libc::waitpid(ws[w].pid, &mut status, 0); }
                if hung {
                    let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(ws[w].fd) };
                    let mut rest = vec![]; let _ = f.read_to_end(&mut rest); ws[w].buf.extend(rest);
                } else { unsafe { libc::close(ws[w].fd) }; }
                let text = String::from_utf8_lossy(&ws[w].buf).into_owned();
                for rec in text.split('\u{2}').filter(|r| !r.is_empty()) {
                    let p: Vec<&str> = rec.split('\u{1}').collect();
                    if p.len() == 3 {
                        found.push((p[0].parse().unwrap_or(0), Violation { key: p[1].into(), detail: p[2].into() }));
                    }
                }
                let cur = st.s().cur[w].load(SeqCst) as usize;
                if status == 0 && !hung { ws[w].done = true; next[w] = n; continue; }
                restarts += 1;
                if cur == 0 || restarts > 24 {
                    ws[w].done = true;
                    if cur > 0 { suspects.push(cur - 1); }
                    continue;
                }
                suspects.push(cur - 1);
                next[w] = cur - 1 + nw;
                hangs += hung as u32;
                if hangs >= 2 { ws[w].done = true; } else { ws[w] = spawn(w, next[w]); }
            } else if hangs >= 2 {
                // stop everything: the hanging cases decide first
                unsafe { libc::kill(ws[w].pid, libc::SIGKILL); let mut s = 0; libc::waitpid(ws[w].pid, &mut s, 0); libc::close(ws[w].fd); }
                let cur = st.s().cur[w].load(SeqCst) as usize;
                if cur > 0 { next[w] = cur - 1; }
                for rec in String::from_utf8_lossy(&ws[w].buf).split('\u{2}').filter(|r| !r.is_empty()) {
                    let p: Vec<&str> = rec.split('\u{1}').collect();
                    if p.len() == 3 { found.push((p[0].parse().unwrap_or(0), Violation { key: p[1].into(), detail: p[2].into() })); }
                }
                ws[w].done = true;
            } else { continue; }
        }
    }
    // Re-run every suspect alone to confirm that the case itself is at fault.
    let mut hung = 0;
    for i in suspects.drain(..) {
        if hung > 0 { break; }
        match single(sp, i, st, sp.limit * 2) {
            Single::Ok => {}
            Single::Viol(v) => found.push((i, v)),
            Single::Crash(sig) => found.push((i, Violation { key: "crash".into(), detail: format!("process died with signal {sig}") })),
            Single::Hang => { hung += 1; found.push((i, Violation { key: "hang".into(), detail: format!("did not finish within {} s", sp.limit * 2) })) }
        }
    }
    if hangs < 2 || hung > 0 { break; }
    limit *= 3; // nothing wrong with those cases: the machine was slow, carry on where we stopped
    }
    found.sort_by_key(|f| f.0);
    for (i, v) in found {
        rep.violations.push((sp.name.to_string(), i, v));
    }
    rep.evals = st.s().evals.load(SeqCst);
    rep.spaces.push((sp.name.to_string(), n, sp.rule.clone(), t0.elapsed().as_secs_f64()));
}

pub enum Single { Ok, Viol(Violation), Crash(i32), Hang }
pub fn single(sp: &Space, i: usize, st: &Stats, limit: u64) -> Single {
    let mut fds = [0i32; 2];
    unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
        }
        if let Err(v) = run_one(sp, i, st) { wr(fds[1], 0, i, &v); }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let t = Instant::now();
    let mut buf = vec![];
    loop {
        let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        unsafe { libc::poll(&mut pf, 1, 200) };
        if pf.revents != 0 {
            let mut b = [0u8; 65536];
            let r = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) };
            if r > 0 { buf.extend_from_slice(&b[..r as usize]); continue; }
            break;
        }
        if t.elapsed().as_secs() > limit {
            unsafe { libc::kill(pid, libc::SIGKILL); let mut s = 0; libc::waitpid(pid, &mut s, 0); libc::close(fds[0]); }
            return Single::Hang;
        }
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0); libc::close(fds[0]); }
    let text = String::from_utf8_lossy(&buf).into_owned();
    if let Some(rec) = text.split('\u{2}').next() {
        let p: Vec<&str> = rec.split('\u{1}').collect();
        if p.len() == 3 { return Single::Viol(Violation { key: p[1].into(), detail: p[2].into() }); }
    }
    if status != 0 { return Single::Crash(status & 0x7f); }
    Single::Ok
}

pub fn verbose() -> bool { std::env::var_os("MC_VERBOSE").is_some() }
pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}…", &s[..e])
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Known findings: lines `known: property=<id> space=<space> key=<key> :: <text>`.
pub fn known(prop: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string("/verif/known_findings.txt") {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let (head, text) = r.split_once(" :: ").unwrap_or((r, ""));
                let f: BTreeMap<&str, &str> = head.splitn(3, ' ').filter_map(|x| x.split_once('=')).collect();
                if f.get("property") == Some(&prop) {
                    v.push((f.get("space").unwrap_or(&"").to_string(), f.get("key").unwrap_or(&"").to_string(), text.to_string()));
                }
            }
        }
    }
    v
}

/// Write evidence, print verdict, return the exit code.
pub fn finish(prop: &str, tier: Tier, mut rep: Report, assumptions: &[&str], spaces: &[Space]) -> i32 {
    let kn = known(prop);
    let mut used: Vec<usize> = vec![];
    let mut fresh: Vec<(String, usize, Violation)> = vec![];
    for (s, i, v) in rep.violations.drain(..) {
        if let Some(k) = kn.iter().position(|k| k.0 == s && k.1 == v.key) {
            if !used.contains(&k) {
                used.push(k);
                println!("KNOWN-FINDING: property={prop} {}", kn[k].2);
            }
        } else {
            fresh.push((s, i, v));
        }
    }
    let st = &rep.stats;
    let dir = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let states = st.n_states();
    let tr = st.s().transitions.load(SeqCst);
    let traces = st.s().traces.load(SeqCst);
    let mut j = String::new();
    j.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", js(prop), js(tier.name()), seed));
    j.push_str(&format!("  \"states\": {states},\n  \"transitions\": {tr},\n  \"traces_validated_against_impl\": {traces},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"exhaustive\": true,\n", rep.evals, st.s().nontrivial.load(SeqCst)));
    j.push_str("  \"rule\": ");
    let rule: Vec<String> = rep.spaces.iter().map(|(n, c, r, t)| format!("{n}: {c} cases in {t:.1}s ({r})")).collect();
    j.push_str(&js(&rule.join("; ")));
    j.push_str(",\n  \"samples\": [");
    j.push_str(&rep.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    j.push_str("]\n },\n");
    j.push_str(&format!(" \"assumptions\": [{}],\n", assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", rep.start.elapsed().as_secs_f64(), fresh.len()));
    std::fs::write(format!("{dir}/{prop}.json"), j).expect("evidence");
    for (n, c, _, t) in &rep.spaces {
        println!("{prop} space {n}: {c} cases, {t:.1}s");
    }
    println!("{prop} {}: states={states} transitions={tr} traces={traces} evaluations={} nontrivial={} wall={:.1}s", tier.name(), rep.evals, st.s().nontrivial.load(SeqCst), rep.start.elapsed().as_secs_f64());
    if st.s().overflow.load(SeqCst) > 0 { println!("note: state table saturated {} times (states is a lower bound on dedup)", st.s().overflow.load(SeqCst)); }
    if fresh.is_empty() && !rep.errors.is_empty() {
        for e in &rep.errors { eprintln!("ERROR {e}"); }
        return 2;
    }
    if fresh.is_empty() && (rep.evals == 0 || states == 0 || tr == 0) {
        eprintln!("ERROR vacuous exploration");
        return 2;
    }
    if fresh.is_empty() { return 0; }
    let _ = std::fs::create_dir_all(format!("{dir}/replay"));
    let mut seen = std::collections::HashSet::new();
    let mut k = 0;
    for (s, i, v) in &fresh {
        if !seen.insert((s.clone(), v.key.clone())) || k >= 10 { continue; }
        let path = format!("{dir}/replay/{prop}-{k}.txt");
        let d = spaces.iter().find(|x| x.name == s).map(|x| (x.describe)(*i)).unwrap_or_default();
        let mut f = std::fs::File::create(&path).expect("replay");
        let _ = writeln!(f, "property: {prop}\nspace: {s}\ncase: {i}\nkey: {}\n\nreplay: /verif/run.sh replay {prop} {} {s} {i}\n\n--- what failed ---\n{}\n\n--- case ---\n{d}", v.key, tier.name(), v.detail);
        println!("VIOLATION property={prop} replay={path}");
        println!("  space={s} case={i} key={} {}", v.key, trunc(&v.detail.replace('\n', " | "), 400));
        k += 1;
    }
    println!("{} violating cases in total", fresh.len());
    if std::env::var_os("MC_KEYS").is_some() {
        for (s, i, v) in &fresh { println!("KEY {s} {i} {} {}", v.key, trunc(&v.detail.replace('\n', " | "), 150)); }
    }
    1
}
