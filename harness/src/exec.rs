//! Runs code emitted by the native backend inside this process: traps (SIGILL, SIGFPE, SIGSEGV,
//! SIGBUS, SIGABRT, timeout) end the call instead of the process, observations are recorded by
//! external functions, and while a call runs every heap allocation of the linked runtime comes
//! from a guard-page arena in which freed memory stays inaccessible.
#![allow(dead_code)]
use crate::elf;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

// ---------------------------------------------------------------- guarded heap
pub struct Guard;
static ON: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
const ARENA: usize = 1 << 30;
const PAGE: usize = 4096;
const MAXOBJ: usize = 1 << 16;
#[derive(Clone, Copy)]
struct Ob { start: usize, size: usize, page: usize, pages: usize, live: bool }
static mut OBS: [Ob; MAXOBJ] = [Ob { start: 0, size: 0, page: 0, pages: 0, live: false }; MAXOBJ];
static NOB: AtomicUsize = AtomicUsize::new(0);
static HEAP_ERR: AtomicUsize = AtomicUsize::new(0);
pub const ERR: [&str; 5] = ["", "freed memory that is not a live allocation (double or wild free)", "freed with a size different from the allocated one", "wrote into freed memory", "heap bound exceeded"];
fn err(k: usize) { let _ = HEAP_ERR.compare_exchange(0, k, SeqCst, SeqCst); }
fn arena() -> usize {
    let b = BASE.load(SeqCst);
    if b != 0 { return b; }
    let p = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) } as usize;
    BASE.store(p, SeqCst);
    p
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(SeqCst) { return unsafe { System.alloc(l) }; }
        let base = arena();
        let pages = l.size().max(1).div_ceil(PAGE);
        let n = NOB.load(SeqCst);
        let page = TOP.load(SeqCst);
        if n >= MAXOBJ || (page + pages + 1) * PAGE > ARENA { err(4); return std::ptr::null_mut(); }
        let p = base + page * PAGE;
        unsafe { libc::mprotect(p as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE) };
        // right-aligned so that overruns hit the next (inaccessible) page
        let start = (p + pages * PAGE - l.size()) & !(l.align().max(8) - 1);
        TOP.store(page + pages + 1, SeqCst);
        unsafe {
            std::ptr::write_bytes(start as *mut u8, 0xA5, l.size());
            OBS[n] = Ob { start, size: l.size(), page, pages, live: true };
        }
        NOB.store(n + 1, SeqCst);
        start as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BASE.load(SeqCst);
        let a = p as usize;
        if b == 0 || a < b || a >= b + ARENA { return if ON.load(SeqCst) { err(1) } else { unsafe { System.dealloc(p, l) } }; }
        for i in (0..NOB.load(SeqCst)).rev() {
            let o = unsafe { &mut OBS[i] };
            if o.start == a {
                if !o.live { err(1); return; }
                if o.size != l.size() { err(2); }
                o.live = false;
                unsafe { libc::mprotect((b + o.page * PAGE) as *mut _, o.pages * PAGE, libc::PROT_NONE) };
                return;
            }
        }
        err(1);
    }
}
#[global_allocator]
static HEAP: Guard = Guard;

pub fn heap_live() -> usize { (0..NOB.load(SeqCst)).filter(|i| unsafe { OBS[*i].live }).count() }
pub fn heap_allocs() -> usize { NOB.load(SeqCst) }
pub fn heap_live_sizes() -> Vec<usize> { (0..NOB.load(SeqCst)).filter(|i| unsafe { OBS[*i].live }).map(|i| unsafe { OBS[i].size }).collect() }
pub fn heap_reset() {
    let b = arena();
    let used = TOP.load(SeqCst) * PAGE;
    if used > 0 {
        unsafe {
            libc::madvise(b as *mut _, used, libc::MADV_DONTNEED);
            libc::mprotect(b as *mut _, used, libc::PROT_NONE);
        }
    }
    TOP.store(1, SeqCst);
    NOB.store(0, SeqCst);
    HEAP_ERR.store(0, SeqCst);
}
/// Run `f` with the guarded heap switched on (nothing allocated outside may be freed inside).
pub fn guarded<T>(f: impl FnOnce() -> T) -> T {
    ON.store(true, SeqCst);
    let r = f();
    ON.store(false, SeqCst);
    r
}

/// Run the environment's own code inside a guarded call.
pub fn unguarded<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.swap(false, SeqCst);
    let r = f();
    ON.store(was, SeqCst);
    r
}
pub fn obs_count() -> usize { NTR.load(SeqCst) }

// ---------------------------------------------------------------- observations
const MAXTR: usize = 8192;
static mut TR: [(u8, u64); MAXTR] = [(0, 0); MAXTR];
static NTR: AtomicUsize = AtomicUsize::new(0);
fn rec(k: u8, v: u64) {
    let n = NTR.load(SeqCst);
    if n < MAXTR { unsafe { TR[n] = (k, v) }; }
    NTR.store(n + 1, SeqCst);
    if n + 1 >= LIMIT.load(SeqCst) { unsafe { libc::raise(libc::SIGTRAP) }; }
}
static LIMIT: AtomicUsize = AtomicUsize::new(8000);
/// Stop a call once it has made this many observations.
pub fn limit(n: usize) { LIMIT.store(n, SeqCst) }
extern "C" fn obs_i8(x: u8) { rec(8, x as u64) }
extern "C" fn obs_i16(x: u16) { rec(16, x as u64) }
extern "C" fn obs_i32(x: u32) { rec(32, x as u64) }
extern "C" fn obs_i64(x: u64) { rec(64, x) }
extern "C" fn obs_i1(x: u32) { rec(1, x as u64) }
extern "C" fn obs_f64(x: f64) { rec(65, x.to_bits()) }
extern "C" fn obs_f32(x: f32) { rec(33, x.to_bits() as u64) }
static INPUT: AtomicUsize = AtomicUsize::new(0);
/// What `__in_i32` returns.
pub fn input(n: u32) { INPUT.store(n as usize, SeqCst) }
extern "C" fn in_i32() -> u32 { INPUT.load(SeqCst) as u32 }
extern "C" fn obs_nil() { rec(0, 0) }
pub fn fmt_obs(k: u8, v: u64) -> String {
    match k {
        0 => "nil:[nil]".into(),
        65 => format!("f64:[{}]", crate::interp::show(&crate::interp::V::F64(v))),
        33 => format!("f32:[{}]", crate::interp::show(&crate::interp::V::F32(v as u32))),
        w => format!("i{w}:[{v}:i{w}]"),
    }
}

// ---------------------------------------------------------------- calls with trap recovery
#[repr(C)]
struct CallCtx { ints: [u64; 6], floats: [u64; 8], ret_i: u64, ret_f: u64, rsp: u64, sig: u64 }
static mut CTX: CallCtx = CallCtx { ints: [0; 6], floats: [0; 8], ret_i: 0, ret_f: 0, rsp: 0, sig: 0 };
static ACTIVE: AtomicBool = AtomicBool::new(false);
std::arch::global_asm!(r#"
.globl mc_call
.globl mc_recover
mc_call:
  push rbp
  push rbx
  push r12
  push r13
  push r14
  push r15
  sub rsp, 8
  mov rbx, rsi
  mov [rsi+128], rsp
  mov r11, rdi
  movsd xmm0, [rbx+48]
  movsd xmm1, [rbx+56]
  movsd xmm2, [rbx+64]
  movsd xmm3, [rbx+72]
  movsd xmm4, [rbx+80]
  movsd xmm5, [rbx+88]
  movsd xmm6, [rbx+96]
  movsd xmm7, [rbx+104]
  mov rdi, [rbx]
  mov rsi, [rbx+8]
  mov rdx, [rbx+16]
  mov rcx, [rbx+24]
  mov r8, [rbx+32]
  mov r9, [rbx+40]
  call r11
  mov [rbx+112], rax
  movsd [rbx+120], xmm0
  xor eax, eax
  jmp 2f
mc_recover:
  mov eax, 1
2:
  add rsp, 8
  pop r15
  pop r14
  pop r13
  pop r12
  pop rbx
  pop rbp
  ret
"#);
unsafe extern "C" { fn mc_call(f: usize, ctx: *mut CallCtx) -> u32; fn mc_recover(); }
extern "C" fn on_sig(sig: i32, _i: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        if !ACTIVE.load(SeqCst) {
            libc::signal(sig, libc::SIG_DFL);
            libc::raise(sig);
            return;
        }
        let u = uc as *mut libc::ucontext_t;
        CTX.sig = sig as u64;
        (*u).uc_mcontext.gregs[libc::REG_RIP as usize] = mc_recover as *const () as i64;
        (*u).uc_mcontext.gregs[libc::REG_RSP as usize] = CTX.rsp as i64;
    }
}
static HANDLERS: AtomicBool = AtomicBool::new(false);
fn handlers() {
    if HANDLERS.swap(true, SeqCst) { return; }
    // the runtime's per-thread state must outlive the guarded heap of one call
    unsafe extern "C" { fn __tribute_init(); fn __tribute_next_tag() -> i32; }
    unsafe {
        __tribute_init();
        __tribute_next_tag();
        let sz = 1 << 16;
        let st = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for s in [libc::SIGILL, libc::SIGFPE, libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGALRM, libc::SIGTRAP] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_sig as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arg { I(u64), F(u64) }
#[derive(Clone, Debug)]
pub struct Ran {
    /// signal that ended the call, 0 if it returned
    pub sig: i32,
    pub int: u64,
    pub float: u64,
    pub trace: Vec<String>,
    pub heap_err: &'static str,
    pub allocs: usize,
    pub leaked: Vec<usize>,
}
/// Call emitted code. The heap monitor covers exactly the duration of the call.
pub fn call(f: usize, args: &[Arg]) -> Ran {
    heap_reset();
    call_keep(f, args)
}
/// The same, keeping what earlier calls allocated.
pub fn call_keep(f: usize, args: &[Arg]) -> Ran { call_on(f, args, true) }
/// The same on the ordinary heap.
pub fn call_plain(f: usize, args: &[Arg]) -> Ran { call_on(f, args, false) }
fn call_on(f: usize, args: &[Arg], guard: bool) -> Ran {
    handlers();
    NTR.store(0, SeqCst);
    unsafe {
        CTX = CallCtx { ints: [0; 6], floats: [0; 8], ret_i: 0, ret_f: 0, rsp: 0, sig: 0 };
        let (mut i, mut k) = (0, 0);
        for a in args {
            match a {
                Arg::I(v) => { CTX.ints[i] = *v; i += 1 }
                Arg::F(v) => { CTX.floats[k] = *v; k += 1 }
            }
        }
        let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 3, tv_usec: 0 } };
        let off = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 0, tv_usec: 0 } };
        libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
        ACTIVE.store(true, SeqCst);
        ON.store(guard, SeqCst);
        mc_call(f, &raw mut CTX);
        ON.store(false, SeqCst);
        ACTIVE.store(false, SeqCst);
        libc::setitimer(libc::ITIMER_REAL, &off, std::ptr::null_mut());
        let n = NTR.load(SeqCst).min(MAXTR);
        Ran {
            sig: CTX.sig as i32, int: CTX.ret_i, float: CTX.ret_f,
            trace: (0..n).map(|i| { let (k, v) = TR[i]; fmt_obs(k, v) }).collect(),
            heap_err: ERR[HEAP_ERR.load(SeqCst)],
            allocs: heap_allocs(), leaked: heap_live_sizes(),
        }
    }
}

// ---------------------------------------------------------------- linking
pub fn runtime_sym(n: &str) -> Option<usize> {
    use tribute_runtime as _;
    macro_rules! t { ($($f:ident),*) => { { unsafe extern "C" { $(fn $f();)* } match n { $(stringify!($f) => Some($f as *const () as usize),)* _ => None } } } }
    if let Some(k) = n.strip_prefix("__obs_") {
        return Some(match k { "i8" => obs_i8 as *const () as usize, "i16" => obs_i16 as *const () as usize, "i32" => obs_i32 as *const () as usize, "i64" => obs_i64 as *const () as usize, "i1" => obs_i1 as *const () as usize, "f64" => obs_f64 as *const () as usize, "f32" => obs_f32 as *const () as usize, "nil" => obs_nil as *const () as usize, _ => return None });
    }
    if n == "__in_i32" { return Some(in_i32 as *const () as usize); }
    t!(__tribute_init, __tribute_next_tag, __tribute_print_int, __tribute_print_nat, __tribute_print_float, __tribute_print_bytes, __tribute_print_newline, __tribute_bytes_print, __tribute_io_write, __tribute_io_read_line, __tribute_io_read_line_result_dealloc, __tribute_bytes_len, __tribute_bytes_range_equal, __tribute_bytes_concat, __tribute_bytes_slice_or_panic, __tribute_alloc, __tribute_dealloc, __tribute_evidence_empty, __tribute_evidence_lookup, __tribute_evidence_extend, __tribute_evidence_lookup_tr, __tribute_evidence_lookup_handler)
}
pub struct Native { img: elf::Image }
impl Native {
    pub fn load(obj: &[u8]) -> Result<Native, String> { Ok(Native { img: elf::load(obj, &runtime_sym)? }) }
    pub fn load_with(obj: &[u8], resolve: &dyn Fn(&str) -> Option<usize>) -> Result<Native, String> { Ok(Native { img: elf::load(obj, resolve)? }) }
    /// Address of a function by its IR name (its last path segment).
    pub fn sym(&self, f: &str) -> Option<usize> {
        if let Some(a) = self.img.syms.get(f) { return Some(*a); }
        let p = format!("_trb_{f}_h");
        let mut m = self.img.syms.iter().filter(|(k, _)| k.starts_with(&p) && k[p.len()..].chars().all(|c| c.is_ascii_hexdigit()));
        let r = m.next().map(|x| *x.1);
        if m.next().is_some() { return None; }
        r
    }
    pub fn call(&self, f: &str, args: &[Arg]) -> Result<Ran, String> {
        match self.sym(f) { Some(a) => Ok(call(a, args)), None => Err(format!("function {f} is not in the object")) }
    }
}
