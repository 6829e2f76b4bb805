//! C15 (handler evidence and prompt tags), C16 (console I/O under every system-call behaviour) and
//! C17 (byte strings and the heap) on the real runtime library.
use crate::engine::*;
use crate::exec::{self, Arg};
use crate::gener::{Ch, explore};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use tribute_runtime as _;

#[repr(C)]
struct Bytes { ptr: *const u8, len: u64 }
#[repr(C)]
struct LineRes { tag: u32, code: i32, bytes: *mut Bytes, message: *mut Bytes }
unsafe extern "C" {
    fn __tribute_init();
    fn __tribute_next_tag() -> i32;
    fn __tribute_evidence_empty() -> *mut u8;
    fn __tribute_evidence_lookup(ev: *const u8, id: i32) -> i32;
    fn __tribute_evidence_lookup_tr(ev: *const u8, id: i32) -> *const u8;
    fn __tribute_evidence_lookup_handler(ev: *const u8, id: i32) -> *const u8;
    fn __tribute_evidence_extend(ev: *const u8, id: i32, tag: i32, tr: *const u8, h: *const u8) -> *mut u8;
    fn __tribute_io_write(b: *const Bytes, newline: u32);
    fn __tribute_bytes_print(b: *const Bytes);
    fn __tribute_print_newline();
    fn __tribute_print_int(v: i32);
    fn __tribute_print_nat(v: u32);
    fn __tribute_print_float(v: f64);
    fn __tribute_print_bytes(p: *const u8, n: u64);
    fn __tribute_io_read_line() -> *mut LineRes;
    fn __tribute_io_read_line_result_dealloc(r: *mut LineRes);
    fn __tribute_bytes_len(b: *const Bytes) -> u32;
    fn __tribute_bytes_range_equal(l: *const Bytes, ls: u32, r: *const Bytes, rs: u32, n: u32) -> u32;
    fn __tribute_bytes_concat(a: *const Bytes, b: *const Bytes) -> *mut Bytes;
    fn __tribute_bytes_slice_or_panic(b: *const Bytes, s: u32, e: u32) -> *mut Bytes;
    fn __tribute_alloc(n: u64) -> *mut u8;
    fn __tribute_dealloc(p: *mut u8, n: u64);
    fn __asan_init();
}

// ------------------------------------------------------------------ C15: evidence
const IDS: [i32; 9] = [i32::MIN, -7, -1, 0, 1, 2, 1_000_000_007, i32::MAX, 65_536];
type Model = BTreeMap<i32, (i32, usize, usize)>;
fn check_ev(ev: *const u8, m: &Model, hist: &str) -> CaseResult {
    for (id, (tag, tr, h)) in m {
        let g = unsafe { (__tribute_evidence_lookup(ev, *id), __tribute_evidence_lookup_tr(ev, *id) as usize, __tribute_evidence_lookup_handler(ev, *id) as usize) };
        if g != (*tag, *tr, *h) { return viol("lookup", format!("after {hist}: ability {id} should give (tag, tail-resumptive, handler) = {:?}, got {g:?}", (tag, tr, h))); }
    }
    Ok(())
}
/// A history: each step extends one of the evidences made so far.
fn ev_history(steps: &[(usize, i32)], st: &Stats) -> CaseResult {
    for mode in 0..4 { ev_history_tags(steps, mode, st)?; }
    Ok(())
}
/// The prompt tags ascend, descend, stay equal or jump around.
fn ev_history_tags(steps: &[(usize, i32)], mode: usize, st: &Stats) -> CaseResult {
    let mut evs: Vec<(*const u8, Model)> = vec![(unsafe { __tribute_evidence_empty() } as *const u8, Model::new())];
    let mut hist = String::from("empty");
    for (k, (from, id)) in steps.iter().enumerate() {
        let tag = match mode { 0 => k as i32 * 3 - 1, 1 => 100 - k as i32 * 3, 2 => 5, _ => [i32::MAX, 0, i32::MIN, 7, -1][k % 5] };
        let j = if mode % 2 == 0 { k } else { steps.len() - k };
        let (tr, h) = (if j % 3 == 1 { 0 } else { 0x1000 + j * 16 }, if j % 3 == 2 { 0 } else { 0x9000 + j * 16 });
        let (e, m) = &evs[*from];
        let n = unsafe { __tribute_evidence_extend(*e, *id, tag, tr as *const u8, h as *const u8) } as *const u8;
        let mut m2 = m.clone();
        m2.insert(*id, (tag, tr, h));
        hist += &format!("; e{} = extend(e{from}, {id}, {tag})", k + 1);
        evs.push((n, m2));
        for (e, m) in &evs { check_ev(*e, m, &hist)?; }
        st.transitions(1);
    }
    st.state_str(&format!("{mode}{:?}", evs.iter().map(|e| &e.1).collect::<Vec<_>>()));
    st.traces(1);
    Ok(())
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut v = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); v.push(q); } }
    v
}
// prompt tags: every interleaving of small per-thread scripts, each in a fresh process
fn interleavings(lens: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) { out.push(cur.clone()); return; }
        for t in 0..left.len() { if left[t] > 0 { left[t] -= 1; cur.push(t); go(left, cur, out); cur.pop(); left[t] += 1; } }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}
static HOLD: AtomicUsize = AtomicUsize::new(0); // 0 off, 1 armed, 2 inside key creation, 3 released
#[unsafe(no_mangle)]
pub extern "C" fn pthread_key_create(key: *mut u32, d: *mut libc::c_void) -> i32 {
    type F = extern "C" fn(*mut u32, *mut libc::c_void) -> i32;
    let f: F = unsafe { std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_key_create".as_ptr())) };
    if HOLD.compare_exchange(1, 2, SeqCst, SeqCst).is_ok() {
        while HOLD.load(SeqCst) != 3 { std::thread::yield_now(); }
    }
    f(key, d)
}
/// Run `f` in a child process; Err carries what it printed or how it died.
fn in_child(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    let mut fds = [0i32; 2];
    unsafe { libc::pipe(fds.as_mut_ptr()) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::alarm(10) };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| Err("panic".into()));
        if let Err(e) = &r { unsafe { libc::write(fds[1], e.as_ptr() as *const _, e.len()) }; }
        unsafe { libc::_exit(if r.is_ok() { 0 } else { 1 }) }
    }
    unsafe { libc::close(fds[1]) };
    let mut out = vec![];
    let mut b = [0u8; 4096];
    loop { let n = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) }; if n <= 0 { break; } out.extend_from_slice(&b[..n as usize]); }
    unsafe { libc::close(fds[0]) };
    let mut s = 0;
    unsafe { libc::waitpid(pid, &mut s, 0) };
    if s == 0 { Ok(()) } else if out.is_empty() { Err(format!("process died with status {s:#x}")) } else { Err(String::from_utf8_lossy(&out).into_owned()) }
}
/// Each thread's script is init, then tags; a tag is only drawn once some init has returned.
fn tag_case(order: &[usize], nt: usize, st: &Stats) -> CaseResult {
    let o = order.to_vec();
    let r = in_child(move || {
        use std::sync::mpsc::channel;
        let mut chans = vec![];
        for _ in 0..nt {
            let (tx, rx) = channel::<bool>();
            let (rtx, rrx) = channel::<i32>();
            std::thread::spawn(move || { while let Ok(init) = rx.recv() { let v = unsafe { if init { __tribute_init(); 0 } else { __tribute_next_tag() } }; let _ = rtx.send(v); } });
            chans.push((tx, rrx));
        }
        let mut done = vec![0usize; nt];
        let mut seen: Vec<Vec<i32>> = vec![vec![]; nt];
        for t in &o {
            chans[*t].0.send(done[*t] == 0).unwrap();
            let v = chans[*t].1.recv().map_err(|_| "runtime thread died".to_string())?;
            if done[*t] > 0 {
                if seen[*t].contains(&v) { return Err(format!("thread {t} was given prompt tag {v} twice (order {o:?})")); }
                seen[*t].push(v);
            }
            done[*t] += 1;
        }
        Ok(())
    });
    st.traces(1); st.transitions(order.len() as u64); st.nontrivial(1); st.state_str(&format!("{order:?}"));
    r.or_else(|e| viol("tags", e))
}
/// A second thread initialises while the first is still creating the shared key.
fn init_race(nt: usize, st: &Stats) -> CaseResult {
    st.traces(1); st.transitions(1); st.nontrivial(1); st.state_str(&format!("race{nt}"));
    in_child(move || {
        // armed from inside the first thread, so that only the runtime's own call is held
        let a = std::thread::spawn(|| unsafe { HOLD.store(1, SeqCst); __tribute_init(); __tribute_next_tag() });
        while HOLD.load(SeqCst) < 2 { if a.is_finished() { return Ok(()); } std::thread::yield_now(); }
        static EARLY: AtomicBool = AtomicBool::new(false);
        let bs: Vec<_> = (0..nt).map(|_| std::thread::spawn(|| unsafe { __tribute_init(); if HOLD.load(SeqCst) == 2 { EARLY.store(true, SeqCst); return vec![]; } (0..3).map(|_| __tribute_next_tag()).collect::<Vec<_>>() })).collect();
        std::thread::sleep(std::time::Duration::from_millis(30));
        HOLD.store(3, SeqCst);
        a.join().map_err(|_| "initialising thread panicked")?;
        for b in bs {
            let mut v = b.join().map_err(|_| "second initialising thread panicked")?;
            let n = v.len();
            v.sort(); v.dedup();
            if v.len() != n { return Err("a tag was repeated after racing initialisation".into()); }
        }
        if EARLY.load(SeqCst) { return Err("initialisation returned to one thread while another was still setting up the thread state".into()); }
        Ok(())
    }).or_else(|e| viol("init-race", e))
}
pub fn evidence_spaces(tier: Tier) -> Vec<Space<'static>> {
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    // insertion orders
    let n = if t { 9 } else { 8 };
    let ps = std::rc::Rc::new(perms(n));
    let p2 = ps.clone();
    v.push(Space { name: "orders", n: ps.len(), rule: format!("all insertion orders of {n} abilities (past the inline capacity), checking every evidence ever made after every step"),
        run: Box::new(move |i, st| { st.nontrivial(1); ev_history(&ps[i].iter().enumerate().map(|(k, x)| (k, IDS[*x])).collect::<Vec<_>>(), st) }), describe: Box::new(move |i| format!("{:?}", p2[i])), limit: 60 });
    // many abilities, in systematic orders
    let mx = if t { 80 } else { 40 };
    v.push(Space { name: "many", n: mx * 6, rule: format!("one to {mx} abilities inserted ascending, descending, rotated, interleaved and outside-in, then each replaced"),
        run: Box::new(move |i, st| {
            let (n, o) = (i / 6 + 1, i % 6);
            let id = |x: usize| (x as i32 - 20) * 7919;
            let seq: Vec<usize> = match o { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), 2 => (0..n).map(|x| (x + n / 2) % n).collect(), 3 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(), 4 => (0..n).map(|x| if x % 2 == 0 { x / 2 } else { n - 1 - x / 2 }).collect(), _ => (0..n).chain((0..n).rev()).collect() };
            st.nontrivial(1);
            ev_history(&seq.iter().enumerate().map(|(k, x)| (k, id(*x))).collect::<Vec<_>>(), st)
        }), describe: Box::new(move |i| format!("{} abilities, order {}", i / 6 + 1, i % 6)), limit: 60 });
    // branching histories with replacement
    let (d, k) = if t { (5usize, 5usize) } else { (4, 5) };
    let mut hs: Vec<Vec<(usize, i32)>> = vec![vec![]];
    for depth in 0..d { hs = hs.into_iter().flat_map(|h| (0..=depth).flat_map(move |f| { let h = h.clone(); (0..k).map(move |x| { let mut h = h.clone(); h.push((f, IDS[x + 1])); h }) })).collect(); }
    let hs = std::rc::Rc::new(hs);
    let h2 = hs.clone();
    v.push(Space { name: "histories", n: hs.len(), rule: format!("all histories of {d} extensions, each of any evidence made so far, over {k} abilities with shadowing"),
        run: Box::new(move |i, st| { st.nontrivial(1); ev_history(&hs[i], st) }), describe: Box::new(move |i| format!("{:?}", h2[i])), limit: 60 });
    let mut os: Vec<(usize, Vec<usize>)> = vec![];
    for l in [vec![6], vec![4, 4], if t { vec![4, 3, 3] } else { vec![3, 3, 2] }] { for o in interleavings(&l) { os.push((l.len(), o)); } }
    let os = std::rc::Rc::new(os);
    let o2 = os.clone();
    v.push(Space { name: "tags", n: os.len(), rule: "all interleavings of per-thread scripts (initialise, then draw prompt tags) over one to three threads, each in a fresh process".into(),
        run: Box::new(move |i, st| tag_case(&os[i].1, os[i].0, st)), describe: Box::new(move |i| format!("{:?}", o2[i])), limit: 60 });
    v.push(Space { name: "init-race", n: 3, rule: "one to three further threads initialise while the first is suspended inside key creation".into(),
        run: Box::new(move |i, st| init_race(i + 1, st)), describe: Box::new(move |i| format!("{} threads", i + 1)), limit: 60 });
    v
}

// ------------------------------------------------------------------ C16: console I/O
pub struct Io { pub on: bool, pub burst: usize, pub storm: usize, pub accept: usize, pub ch: *mut Ch, pub data: Vec<u8>, pub pos: usize, pub out: Vec<u8>, pub marks: Vec<usize>, pub reads: Vec<Ev>, pub wsafe: bool, pub wshort: usize, pub eintr: usize, pub fail: usize, pub eof: usize, pub maxk: usize, pub short: usize, pub events: Vec<Ev>, pub failed_at: Option<usize> }
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Got(usize), Eintr, Err(i32), Eof, Zero }
static mut IO: Io = Io { on: false, burst: 0, storm: 0, accept: 0, ch: std::ptr::null_mut(), data: vec![], pos: 0, out: vec![], marks: vec![], reads: vec![], wsafe: false, wshort: usize::MAX, eintr: 0, fail: 0, eof: 0, maxk: 0, short: 0, events: vec![], failed_at: None };
pub fn io() -> &'static mut Io { unsafe { &mut *(&raw mut IO) } }
fn set_errno(e: i32) -> isize { unsafe { *libc::__errno_location() = e }; -1 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize { exec::unguarded(|| unsafe { env_write(fd, b, n) }) }
unsafe fn env_write(fd: i32, b: *const u8, n: usize) -> isize {
    let s = io();
    if !s.on || fd != 1 {
        if s.on && fd == 2 { return n as isize; }
        return unsafe { libc::syscall(libc::SYS_write, fd, b, n) as isize };
    }
    if n == 0 { return 0; }
    let ch = unsafe { &mut *s.ch };
    if s.storm > 0 { s.storm -= 1; s.events.push(Ev::Eintr); return set_errno(libc::EINTR); }
    if s.accept > 0 {
        // fixed pattern: every count is followed by a burst of interruptions
        let k = n.min(s.accept);
        s.out.extend_from_slice(unsafe { std::slice::from_raw_parts(b, k) });
        s.marks.extend(std::iter::repeat_n(exec::obs_count(), k));
        s.events.push(Ev::Got(k));
        s.storm = s.burst;
        return k as isize;
    }
    let ks = n.min(if s.wshort > 0 { s.maxk } else { 1 });
    // accept all, or fewer; interrupted; hard error; zero
    let opts = ks + (s.eintr > 0) as usize + if s.wsafe { 0 } else { 2 * (s.fail > 0) as usize };
    let mut c = ch.pick(opts);
    if c < ks {
        let k = if c == 0 { n } else { s.wshort -= 1; c };
        s.out.extend_from_slice(unsafe { std::slice::from_raw_parts(b, k) });
        s.marks.extend(std::iter::repeat_n(exec::obs_count(), k));
        s.events.push(Ev::Got(k));
        return k as isize;
    }
    c -= ks;
    if s.eintr > 0 { if c == 0 { s.eintr -= 1; s.storm = s.burst; s.events.push(Ev::Eintr); return set_errno(libc::EINTR); } c -= 1; }
    s.fail -= 1;
    s.failed_at.get_or_insert(s.out.len());
    if c == 0 { s.events.push(Ev::Err(libc::EIO)); set_errno(libc::EIO) } else { s.events.push(Ev::Zero); 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize { exec::unguarded(|| { let r = unsafe { env_read(fd, b, n) }; let s = io(); if s.on && fd == 0 { if let Some(e) = s.events.last() { s.reads.push(e.clone()); } } r }) }
unsafe fn env_read(fd: i32, b: *mut u8, n: usize) -> isize {
    let s = io();
    if !s.on || fd != 0 { return unsafe { libc::syscall(libc::SYS_read, fd, b, n) as isize }; }
    let ch = unsafe { &mut *s.ch };
    let left = (s.data.len() - s.pos).min(n);
    if s.storm > 0 { s.storm -= 1; s.events.push(Ev::Eintr); return set_errno(libc::EINTR); }
    if s.accept > 0 {
        if left == 0 { s.events.push(Ev::Eof); return 0; }
        let k = left.min(s.accept);
        unsafe { std::ptr::copy_nonoverlapping(s.data[s.pos..].as_ptr(), b, k) };
        s.pos += k;
        s.events.push(Ev::Got(k));
        s.storm = s.burst;
        return k as isize;
    }
    let ks = left.min(if s.short > 0 { s.maxk } else { 1 });
    let opts = ks.max(1) + (s.eintr > 0) as usize + 2 * (s.fail > 0) as usize + (s.eof > 0 && left > 0) as usize;
    let mut c = ch.pick(opts);
    if c < ks.max(1) {
        if left == 0 { s.events.push(Ev::Eof); return 0; }
        let k = if c == 0 { left } else { s.short -= 1; c };
        unsafe { std::ptr::copy_nonoverlapping(s.data[s.pos..].as_ptr(), b, k) };
        // the rest of the caller's buffer is not the kernel's to touch, but its content is unspecified
        s.pos += k;
        s.events.push(Ev::Got(k));
        return k as isize;
    }
    c -= ks.max(1);
    if s.eintr > 0 { if c == 0 { s.eintr -= 1; s.storm = s.burst; s.events.push(Ev::Eintr); return set_errno(libc::EINTR); } c -= 1; }
    if s.fail > 0 { if c < 2 { s.fail -= 1; let e = [libc::EIO, libc::EAGAIN][c]; s.events.push(Ev::Err(e)); return set_errno(e); } c -= 2; }
    assert!(c == 0);
    s.eof -= 1;
    s.events.push(Ev::Eof);
    0
}
#[derive(Clone, Debug, PartialEq)]
pub enum Line { Line(Vec<u8>), Eof, BadEncoding, System(i32, Vec<u8>) }
/// What a sequence of read calls must produce, line by line.
pub fn line_model(data: &[u8], events: &[Ev]) -> Vec<Line> {
    let mut out = vec![];
    let mut pos = 0;
    let mut cur: Vec<u8> = vec![];
    let fin = |mut c: Vec<u8>, nl: bool| { if nl && c.last() == Some(&b'\r') { c.pop(); } if String::from_utf8(c.clone()).is_ok() { Line::Line(c) } else { Line::BadEncoding } };
    for e in events {
        match e {
            Ev::Got(k) => { for b in &data[pos..pos + k] { if *b == b'\n' { out.push(fin(std::mem::take(&mut cur), true)); } else { cur.push(*b); } } pos += k; }
            Ev::Eintr => {}
            Ev::Err(c) => { cur.clear(); out.push(Line::System(*c, b"stdin read failed".to_vec())); }
            Ev::Eof | Ev::Zero => if cur.is_empty() { out.push(Line::Eof) } else { out.push(fin(std::mem::take(&mut cur), false)) },
        }
    }
    out
}
unsafe fn take_bytes(b: *mut Bytes) -> Vec<u8> {
    unsafe {
        let v = if (*b).len == 0 { vec![] } else { std::slice::from_raw_parts((*b).ptr, (*b).len as usize).to_vec() };
        let hdr = (b as *const u32).sub(2);
        assert!(*hdr == 1, "fresh byte string has reference count {}", *hdr);
        __tribute_dealloc((*b).ptr as *mut u8, (*b).len);
        __tribute_dealloc((b as *mut u8).sub(8), 24);
        v
    }
}
pub fn read_line() -> Result<Line, String> {
    unsafe {
        let r = __tribute_io_read_line();
        if r.is_null() { return Err("null result".into()); }
        let l = match (*r).tag {
            0 => Line::Line(if (*r).bytes.is_null() { return Err("line result without bytes".into()) } else { take_bytes((*r).bytes) }),
            1 => Line::Eof,
            2 => Line::BadEncoding,
            3 => Line::System((*r).code, if (*r).message.is_null() { return Err("system error without message".into()) } else { take_bytes((*r).message) }),
            t => return Err(format!("unknown result tag {t}")),
        };
        __tribute_io_read_line_result_dealloc(r);
        Ok(l)
    }
}
/// All behaviours of the input descriptor over `data`, within the fault budgets.
fn read_case(data: &[u8], maxk: usize, short: usize, eintr: usize, fail: usize, eof: usize, st: &Stats) -> CaseResult { read_case_with(data, maxk, short, eintr, fail, eof, 0, 0, st) }
#[allow(clippy::too_many_arguments)]
fn read_case_with(data: &[u8], maxk: usize, short: usize, eintr: usize, fail: usize, eof: usize, burst: usize, accept: usize, st: &Stats) -> CaseResult {
    unsafe { __tribute_init() };
    let n = explore(|ch| {
        *io() = Io { on: true, burst, storm: 0, accept, ch: ch as *mut Ch, data: data.to_vec(), pos: 0, out: vec![], marks: vec![], reads: vec![], wsafe: false, wshort: usize::MAX, eintr, fail, eof, maxk, short, events: vec![], failed_at: None };
        let mut got: Vec<Line> = vec![];
        let mut bad = None;
        loop {
            match read_line() { Ok(l) => got.push(l), Err(e) => { bad = Some(e); break; } }
            if (io().pos == data.len() && got.last() == Some(&Line::Eof) && io().events.last() == Some(&Ev::Eof)) || got.len() > data.len() + 12 { break; }
        }
        io().on = false;
        let ev = std::mem::take(&mut io().events);
        st.transitions(ev.len() as u64);
        if let Some(e) = bad { return viol("read", format!("input {:?} with reads {ev:?}: {e}", String::from_utf8_lossy(data))); }
        let want = line_model(data, &ev);
        st.state_str(&format!("{data:?}{ev:?}"));
        if got != want { return viol("read", format!("input {data:?} with reads {ev:?}: expected {want:?}, got {got:?}")); }
        Ok(())
    })?;
    st.traces(n);
    st.nontrivial(1);
    Ok(())
}
#[derive(Clone, Debug)]
enum W { Io(Vec<u8>, u32), Print(Vec<u8>), Raw(Vec<u8>), Newline, Int(i32), Nat(u32), Float(u64) }
fn write_case(ops: &[W], maxk: usize, eintr: usize, fail: usize, st: &Stats) -> CaseResult { write_case_with(ops, maxk, eintr, fail, 0, 0, st) }
fn write_case_with(ops: &[W], maxk: usize, eintr: usize, fail: usize, burst: usize, accept: usize, st: &Stats) -> CaseResult {
    unsafe { __tribute_init() };
    let n = explore(|ch| {
        *io() = Io { on: true, burst, storm: 0, accept, ch: ch as *mut Ch, data: vec![], pos: 0, out: vec![], marks: vec![], reads: vec![], wsafe: false, wshort: usize::MAX, eintr, fail, eof: 0, maxk, short: 99, events: vec![], failed_at: None };
        let mut want: Vec<u8> = vec![];
        for o in ops {
            let from = io().out.len();
            let bs = |v: &Vec<u8>| Bytes { ptr: if v.is_empty() { std::ptr::null() } else { v.as_ptr() }, len: v.len() as u64 };
            let full: Vec<u8> = unsafe { match o {
                W::Io(v, nl) => { __tribute_io_write(&bs(v), *nl); let mut f = v.clone(); if *nl == 1 { f.push(b'\n'); } f }
                W::Print(v) => { __tribute_bytes_print(&bs(v)); v.clone() }
                W::Raw(v) => { __tribute_print_bytes(v.as_ptr(), v.len() as u64); v.clone() }
                W::Newline => { __tribute_print_newline(); b"\n".to_vec() }
                W::Int(i) => { __tribute_print_int(*i); format!("{i}\n").into_bytes() }
                W::Nat(i) => { __tribute_print_nat(*i); format!("{i}\n").into_bytes() }
                W::Float(b) => {
                    __tribute_print_float(f64::from_bits(*b));
                    let t = String::from_utf8_lossy(&io().out[from..]).into_owned();
                    if io().failed_at.is_some() { io().out[from..].to_vec() } else {
                        let x: f64 = t.strip_suffix('\n').and_then(|s| s.parse().ok()).unwrap_or(f64::from_bits(!b));
                        let ok = x.to_bits() == *b || (x.is_nan() && f64::from_bits(*b).is_nan());
                        if ok { t.into_bytes() } else { format!("<{}>\n", f64::from_bits(*b)).into_bytes() }
                    }
                }
            } };
            // a hard failure loses the rest of that message, never reorders or repeats
            if let Some(at) = io().failed_at.take() {
                let d = at - from;
                let got = io().out[from..].to_vec();
                let tail = &got[d.min(got.len())..];
                if got[..d] != full[..d] || !(tail.is_empty() || (tail == b"\n" && full.ends_with(b"\n"))) { io().on = false; return viol("write-failure", format!("{o:?} with writes {:?}: wrote {got:?}", io().events)); }
                want.extend_from_slice(&got);
            } else { want.extend_from_slice(&full); }
        }
        io().on = false;
        let ev = std::mem::take(&mut io().events);
        st.transitions(ev.len() as u64);
        st.state_str(&format!("{ops:?}{ev:?}"));
        if io().out != want { return viol("write", format!("{ops:?} with writes {ev:?}: expected {:?}, wrote {:?}", String::from_utf8_lossy(&want), String::from_utf8_lossy(&io().out))); }
        Ok(())
    })?;
    st.traces(n);
    st.nontrivial(1);
    Ok(())
}
pub fn io_spaces(tier: Tier) -> Vec<Space<'static>> {
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    const AL: [u8; 6] = [b'a', b'\n', b'\r', 0xC3, 0xA9, 0];
    let maxlen = if t { 5 } else { 4 };
    let mut ins: Vec<Vec<u8>> = vec![];
    for n in 0..=maxlen { for i in 0..6usize.pow(n as u32) { ins.push((0..n).map(|p| AL[i / 6usize.pow(p as u32) % 6]).collect()); } }
    let ins = std::rc::Rc::new(ins);
    let i2 = ins.clone();
    v.push(Space { name: "read", n: ins.len(), rule: format!("every input of at most {maxlen} bytes over letters, CR, LF, NUL and the two halves of a UTF-8 character; every chunking by the kernel, with up to one interruption, one failure (EIO or EAGAIN) and one premature end of file at any point"),
        run: Box::new(move |i, st| read_case(&ins[i], 5, 99, 1, 1, 1, st)), describe: Box::new(move |i| format!("{:?}", i2[i])), limit: 90 });
    // lines around the internal buffer size
    let mut big: Vec<(usize, &'static [u8], usize, bool)> = vec![];
    for k in [8189usize, 8190, 8191, 8192, 8193, 16383, 16384, 16385] { for e in [&b"\n"[..], b"\r\n", b"\r", b"\xC3\xA9\n", b""] { for m in [0usize, 1, 8192] { for nl in [false, true] { big.push((k, e, m, nl)); } } } }
    let big = std::rc::Rc::new(big);
    let mk = |b: &(usize, &[u8], usize, bool)| { let mut d = vec![b'x'; b.0]; d.extend_from_slice(b.1); d.extend(std::iter::repeat_n(b'y', b.2)); if b.3 { d.push(b'\n'); } d };
    let b2 = big.clone();
    v.push(Space { name: "read-long", n: big.len(), rule: "lines whose length is around one and two buffer sizes, with every terminator, followed by more input; the kernel returns full buffers, with up to two short counts of one or two bytes and one interruption at any point".into(),
        run: Box::new(move |i, st| read_case(&mk(&big[i]), 3, 2, 1, 0, 0, st)), describe: Box::new(move |i| format!("{:?}", b2[i])), limit: 90 });
    let mut ws: Vec<Vec<W>> = vec![];
    let ml = if t { 7 } else { 5 };
    for n in 0..=ml { let d: Vec<u8> = (0..n).map(|i| [b'a', 0, b'\n', 0xFF, b'b', b'c', b'd'][i]).collect(); for nl in [0, 1, 2] { ws.push(vec![W::Io(d.clone(), nl)]); } ws.push(vec![W::Print(d.clone())]); ws.push(vec![W::Raw(d)]); }
    ws.push(vec![W::Newline, W::Newline]);
    for a in [vec![b'a', b'b'], vec![]] { for na in [0, 1] { for b in [vec![b'c', b'd'], vec![]] { for nb in [0, 1] { ws.push(vec![W::Io(a.clone(), na), W::Io(b.clone(), nb), W::Io(vec![b'z'], 1)]); } } } }
    let ws = std::rc::Rc::new(ws);
    let w2 = ws.clone();
    v.push(Space { name: "write", n: ws.len(), rule: format!("every message length up to {ml} with and without newline and sequences of three messages; every pattern of short writes, with up to two interruptions and one failure (error or zero count) at any point"),
        run: Box::new(move |i, st| write_case(&ws[i], 8, 2, 1, st)), describe: Box::new(move |i| format!("{:?}", w2[i])), limit: 90 });
    // storms of interruptions at every point
    let bursts: &[usize] = if t { &[3, 9, 15, 16, 17, 31, 32, 33, 63, 64, 99, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 5000, 65536] } else { &[3, 15, 16, 17, 64, 100, 128, 256, 1000, 1024, 5000] };
    let msgs: Vec<W> = vec![W::Io(b"abc".to_vec(), 1), W::Io(vec![], 1), W::Print(b"abc".to_vec()), W::Raw(b"ab".to_vec()), W::Newline, W::Int(-12), W::Nat(34), W::Float(1.5f64.to_bits())];
    let nm = msgs.len() + 2;
    v.push(Space { name: "storm", n: bursts.len() * nm, rule: format!("every output function, and reading of two lines, with a run of {bursts:?} consecutive interruptions at every point and every pattern of short counts"),
        run: Box::new(move |i, st| match i % nm { m if m < msgs.len() => write_case_with(&[msgs[m].clone()], 3, 1, 0, bursts[i / nm], 0, st), m => read_case_with([&b"ab\nc"[..], b"\r\n\n"][m - msgs.len()], 2, 99, 1, 0, 0, bursts[i / nm], 0, st) }),
        describe: Box::new(move |i| format!("burst {} message {}", bursts[i / nm], i % nm)), limit: 90 });
    let sizes: &'static [usize] = &[1, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 20000];
    let acc: &'static [(usize, usize)] = &[(1, 0), (1, 1), (2, 3), (7, 0), (255, 1), (1024, 2), (4096, 1), (1 << 20, 0)];
    v.push(Space { name: "long", n: sizes.len() * acc.len() * 3, rule: format!("messages and input lines of {sizes:?} bytes moved by the kernel (count, interruptions after each) {acc:?} at a time"),
        run: Box::new(move |i, st| {
            let (n, (a, b)) = (sizes[i / 3 / acc.len()], acc[i / 3 % acc.len()]);
            let d: Vec<u8> = (0..n).map(|k| b'a' + (k % 23) as u8).collect();
            match i % 3 { 0 => write_case_with(&[W::Io(d, 1), W::Newline], 1, 0, 0, b, a, st), 1 => write_case_with(&[W::Print(d.clone()), W::Raw(d)], 1, 0, 0, b, a, st), _ => { let mut e = d.clone(); e.push(b'\n'); e.extend(d); read_case_with(&e, 1, 0, 0, 0, 0, b, a, st) } }
        }), describe: Box::new(move |i| format!("{} bytes {:?} kind {}", sizes[i / 3 / acc.len()], acc[i / 3 % acc.len()], i % 3)), limit: 90 });
    let mut ns: Vec<W> = vec![];
    for x in [0i32, 1, -1, 9, 10, -10, 99, 1234567, i32::MAX, i32::MIN] { ns.push(W::Int(x)); ns.push(W::Nat(x as u32)); }
    for f in [0.0f64, -0.0, 1.0, -1.5, 0.1, 1e21, 1e-7, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.141592653589793] { ns.push(W::Float(f.to_bits())); }
    let ns = std::rc::Rc::new(ns);
    let n2 = ns.clone();
    v.push(Space { name: "numbers", n: ns.len(), rule: "boundary integers, naturals and floats printed while the kernel accepts any prefix of each write, with up to one interruption".into(),
        run: Box::new(move |i, st| write_case(&[ns[i].clone()], 3, 1, 0, st)), describe: Box::new(move |i| format!("{:?}", n2[i])), limit: 90 });
    v
}

// ------------------------------------------------------------------ C17: byte strings and heap
#[derive(Clone, Debug)]
enum B { Concat(usize, usize), Slice(usize, u32, u32) }
struct Obj { p: *mut Bytes, v: Vec<u8>, rc: u32 }
fn mk_bytes(d: &[u8]) -> *mut Bytes {
    exec::guarded(|| unsafe {
        let buf = __tribute_alloc(d.len() as u64);
        if !d.is_empty() { std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len()); }
        let raw = __tribute_alloc(24);
        *(raw as *mut u32) = 1;
        *(raw as *mut u32).add(1) = 0;
        let b = raw.add(8) as *mut Bytes;
        (*b).ptr = buf;
        (*b).len = d.len() as u64;
        b
    })
}
fn seq_case(starts: &[&[u8]], depth: usize, st: &Stats, first: usize) -> CaseResult {
    let mut count = 0u64;
    explore(|ch: &mut Ch| -> CaseResult {
        exec::heap_reset();
        let mut os: Vec<Obj> = starts.iter().map(|s| Obj { p: mk_bytes(s), v: s.to_vec(), rc: 1 }).collect();
        let mut hist: Vec<B> = vec![];
        for step in 0..depth {
            let n = os.len();
            let which = if step == 0 { first % 2 } else { ch.pick(2) };
            let a = if step == 0 { first / 2 % n } else { ch.pick(n) };
            let op = if which == 0 { B::Concat(a, ch.pick(n)) } else {
                let l = os[a].v.len() as u32;
                let s = ch.pick(l as usize + 2) as u32;
                let e = *ch.of(&(0..=l + 1).chain([u32::MAX]).collect::<Vec<_>>());
                B::Slice(a, s, e)
            };
            hist.push(op.clone());
            let (r, want, bad) = match &op {
                B::Concat(a, b) => (exec::call_keep(__tribute_bytes_concat as *const () as usize, &[Arg::I(os[*a].p as u64), Arg::I(os[*b].p as u64)]), [os[*a].v.clone(), os[*b].v.clone()].concat(), false),
                B::Slice(a, s, e) => {
                    let bad = s > e || *e as usize > os[*a].v.len();
                    (exec::call_keep(__tribute_bytes_slice_or_panic as *const () as usize, &[Arg::I(os[*a].p as u64), Arg::I(*s as u64), Arg::I(*e as u64)]), if bad { vec![] } else { os[*a].v[*s as usize..*e as usize].to_vec() }, bad)
                }
            };
            st.transitions(1);
            if !r.heap_err.is_empty() { return viol("bytes-heap", format!("{hist:?}: {}", r.heap_err)); }
            if bad {
                if r.sig != libc::SIGABRT { return viol("bytes-bounds", format!("{hist:?} on {starts:?}: out-of-range slice ended with signal {} instead of stopping the program", r.sig)); }
            } else {
                if r.sig != 0 { return viol("bytes-crash", format!("{hist:?} on {starts:?}: signal {}", r.sig)); }
                let p = r.int as *mut Bytes;
                os.push(Obj { p, v: want, rc: 1 });
                if let B::Slice(a, ..) = op {
                    // a slice that shares its parent's storage keeps the parent alive
                    let (pp, pl) = unsafe { ((*os[a].p).ptr as usize, (*os[a].p).len as usize) };
                    let np = unsafe { (*p).ptr } as usize;
                    if np >= pp && np < pp + pl { os[a].rc += 1; } else { os[a].rc = unsafe { *(os[a].p as *const u32).sub(2) }; }
                }
            }
            for (i, o) in os.iter().enumerate() {
                let (got, rc, tag) = unsafe { (if (*o.p).len == 0 { vec![] } else { std::slice::from_raw_parts((*o.p).ptr, (*o.p).len as usize).to_vec() }, *(o.p as *const u32).sub(2), *(o.p as *const u32).sub(1)) };
                let len = unsafe { __tribute_bytes_len(o.p) };
                if got != o.v || len as usize != o.v.len() { return viol("bytes-content", format!("{hist:?} on {starts:?}: value {i} should be {:?}, is {got:?} (len {len})", o.v)); }
                if rc != o.rc || tag != 0 { return viol("bytes-header", format!("{hist:?} on {starts:?}: value {i} should have reference count {} and type index 0, has {rc} and {tag}", o.rc)); }
            }
            if bad { break; }
        }
        // ranges
        let k = os.len();
        for (i, a) in os.iter().enumerate().skip(k.saturating_sub(2)) { for (j, b) in os.iter().enumerate() {
            for s in 0..=a.v.len() as u32 + 1 { for u in 0..=b.v.len() as u32 + 1 { for l in (0..=a.v.len().max(b.v.len()) as u32 + 1).chain([u32::MAX]) {
                let want = match (a.v.get(s as usize..).and_then(|x| x.get(..l as usize)), b.v.get(u as usize..).and_then(|x| x.get(..l as usize))) { (Some(x), Some(y)) => (x == y) as u32, _ => 0 };
                for (x, y, m, n) in [(a.p, b.p, s, u), (b.p, a.p, u, s)] {
                    let g = unsafe { __tribute_bytes_range_equal(x, m, y, n, l) };
                    if g != want { return viol("bytes-range", format!("{hist:?} on {starts:?}: range_equal(v{i}, {s}, v{j}, {u}, {l}) should be {want}, is {g}")); }
                }
                st.traces(1);
            } } }
        } }
        st.state_str(&format!("{starts:?}{hist:?}"));
        count += 1;
        Ok(())
    })?;
    st.nontrivial(1);
    Ok(())
}
// allocator contract, plain and instrumented
static mut SC: (u64, i64, u8) = (0, 0, 0);
extern "C" fn asan_poke() -> u64 {
    unsafe {
        let (n, off, val) = SC;
        let p = __tribute_alloc(n);
        for i in 0..n as usize { *p.add(i) = i as u8; }
        *p.offset(off as isize) = val;
        __tribute_dealloc(p, n);
        1
    }
}
fn asan_case(n: u64, st: &Stats) -> CaseResult {
    asan_once();
    io().on = true; io().maxk = 1;
    for off in -32..n as i64 + 32 { for val in [0u8, 0xCC, 0xFD] {
        unsafe { SC = (n, off, val) };
        // the quarantine outlives a call, so this runs on the ordinary heap
        let r = exec::call_plain(asan_poke as *const () as usize, &[]);
        let bad = (off < 0 || off >= n as i64) && val != 0xCC;
        st.traces(1); st.transitions(1);
        if bad != (r.sig == libc::SIGABRT) || (!bad && r.sig != 0) { io().on = false; return viol("asan", format!("size {n}: writing {val:#x} at offset {off} {} (signal {})", if bad { "was not reported" } else { "was reported" }, r.sig)); }
    } }
    io().on = false;
    st.state_str(&format!("asan{n}")); st.nontrivial(1);
    Ok(())
}
fn asan_once() { static O: std::sync::Once = std::sync::Once::new(); O.call_once(|| unsafe { __asan_init() }); }
static mut DF: (u64, u64, usize, bool) = (0, 0, 0, false);
extern "C" fn asan_free_twice() -> u64 {
    unsafe {
        let (n, other, k, twice) = DF;
        let p = __tribute_alloc(n);
        std::ptr::write_bytes(p, 7, n as usize);
        __tribute_dealloc(p, n);
        for _ in 0..k { let q = __tribute_alloc(other); std::ptr::write_bytes(q, 9, other as usize); __tribute_dealloc(q, other); }
        let poisoned = std::slice::from_raw_parts(p, n as usize).iter().all(|b| *b == 0xFD);
        if twice { __tribute_dealloc(p, n); }
        poisoned as u64
    }
}
fn asan_free_case(n: u64, other: u64, k: usize, st: &Stats) -> CaseResult {
    asan_once();
    io().on = true; io().maxk = 1;
    for twice in [false, true] {
        unsafe { DF = (n, other, k, twice) };
        let r = exec::call_plain(asan_free_twice as *const () as usize, &[]);
        st.traces(1); st.transitions(k as u64 + 2);
        let bad = if twice { r.sig != libc::SIGABRT } else { r.sig != 0 || r.int != 1 };
        if bad { io().on = false; return viol("asan-free", format!("block of {n} bytes freed{}, with {k} blocks of {other} bytes freed since: {}", if twice { " twice" } else { "" }, if twice { format!("not reported (signal {})", r.sig) } else { format!("poisoned={} signal {}", r.int, r.sig) })); }
    }
    io().on = false;
    st.state_str(&format!("free{n},{other},{k}")); st.nontrivial(1);
    Ok(())
}
/// All allocate/free histories: live blocks are disjoint, aligned, keep their content, and nothing is left.
fn heap_case(sizes: &[u64], depth: usize, instrumented: bool, st: &Stats) -> CaseResult {
    if instrumented { asan_once(); }
    explore(|ch: &mut Ch| -> CaseResult {
        exec::heap_reset();
        let mut live: Vec<(usize, u64, u8)> = vec![];
        let mut h = vec![];
        for k in 0..depth {
            let c = ch.pick(sizes.len() + live.len());
            if c < sizes.len() {
                let n = sizes[c];
                let r = if instrumented { exec::call_plain(__tribute_alloc as *const () as usize, &[Arg::I(n)]) } else { exec::call_keep(__tribute_alloc as *const () as usize, &[Arg::I(n)]) };
                h.push(format!("alloc {n}"));
                let p = r.int as usize;
                if r.sig != 0 || (n == 0) != (p == 0) || p % 8 != 0 { return viol("alloc", format!("{h:?}: result {p:#x}, signal {}", r.sig)); }
                if n > 0 {
                    if live.iter().any(|(q, m, _)| p < q + *m as usize && *q < p + n as usize) { return viol("alloc-overlap", format!("{h:?}")); }
                    unsafe { std::ptr::write_bytes(p as *mut u8, k as u8 + 1, n as usize) };
                    live.push((p, n, k as u8 + 1));
                }
            } else {
                let (p, n, x) = live.remove(c - sizes.len());
                h.push(format!("free {n}"));
                let ok = unsafe { std::slice::from_raw_parts(p as *const u8, n as usize).iter().all(|b| *b == x) };
                if !ok { return viol("alloc-content", format!("{h:?}: block content changed")); }
                let r = if instrumented { exec::call_plain(__tribute_dealloc as *const () as usize, &[Arg::I(p as u64), Arg::I(n)]) } else { exec::call_keep(__tribute_dealloc as *const () as usize, &[Arg::I(p as u64), Arg::I(n)]) };
                if r.sig != 0 || !r.heap_err.is_empty() { return viol("free", format!("{h:?}: signal {} {}", r.sig, r.heap_err)); }
                if !instrumented && r.leaked.len() != live.len() { return viol("free", format!("{h:?}: {} blocks live, expected {}", r.leaked.len(), live.len())); }
            }
            st.transitions(1);
        }
        st.state_str(&h.join(";"));
        st.traces(1);
        Ok(())
    })?;
    st.nontrivial(1);
    Ok(())
}
pub fn bytes_spaces(tier: Tier) -> Vec<Space<'static>> {
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    const S: [&[&[u8]]; 4] = [&[b"", b"ab"], &[b"a\xFFa", b"\x00"], &[b"aa", b"aa"], &[b"abc", b""]];
    let d = if t { 3 } else { 2 };
    v.push(Space { name: "histories", n: S.len() * 4, rule: format!("all histories of {d} concatenations and slices with every in- and out-of-range bound, from four starting pairs; content, lengths, headers and every range comparison checked after each"),
        run: Box::new(move |i, st| seq_case(S[i / 4], d, st, i % 4)), describe: Box::new(move |i| format!("start {:?}, first operation {}", S[i / 4], i % 4)), limit: 800 });
    v.push(Space { name: "heap", n: 2, rule: "all allocate/free histories of length 7 over sizes 0, 1, 8, 24 and 4096, plain and instrumented".into(),
        run: Box::new(move |i, st| heap_case(&[0, 1, 24, 4096], if t { 7 } else { 6 }, i == 1, st)), describe: Box::new(move |i| format!("instrumented: {}", i == 1)), limit: 90 });
    let mut fs: Vec<(u64, u64, usize)> = vec![];
    for n in [1u64, 8, 24, 100, 4096] { for o in [1u64, 24, 4096, 65536] { for k in [0usize, 1, 2, 7, 64, 1000] { if (o + 64) * k as u64 + n + 64 <= 1 << 20 { fs.push((n, o, k)); } } } }
    let fs = std::rc::Rc::new(fs);
    let f2 = fs.clone();
    v.push(Space { name: "quarantine", n: fs.len(), rule: "instrumented allocator: freeing a block once or twice after any of several amounts of other frees within the quarantine budget".into(),
        run: Box::new(move |i, st| asan_free_case(fs[i].0, fs[i].1, fs[i].2, st)), describe: Box::new(move |i| format!("{:?}", f2[i])), limit: 90 });
    v.push(Space { name: "redzone", n: 24, rule: "instrumented allocator: one stray byte at every offset within 32 bytes of blocks of 1 to 24 bytes".into(),
        run: Box::new(move |i, st| asan_case(i as u64 + 1, st)), describe: Box::new(move |i| format!("size {}", i + 1)), limit: 90 });
    v
}
