//! C21: what a compiled program reads and writes on the console, on both targets, under every
//! behaviour of the host's read and write calls within the bounds.
use crate::engine::*;
use crate::exec;
use crate::gener::{self, Ch, explore};
use crate::pipe::{self, NativeOpts};
use crate::props::runtime::{self, Ev, Io, Line};
use crate::wexec::{self, Call};

const HEAD: &str = r#"  !"std::io::ReadLineResult" = adt.enum() {name = @"std::io::ReadLineResult", variants = [[@ReadLine, [core.bytes]], [@ReadEndOfFile, []], [@ReadInvalidEncoding, []], [@ReadSystem, [core.i32, core.bytes]]]}
  func.func @__obs_i32(%0: core.i32) -> core.nil attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__in_i32() -> core.i32 attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__tribute_bytes_concat(%0: core.bytes, %1: core.bytes) -> core.bytes attributes {abi = "C"} {
    func.unreachable
  }
  func.func @"std::io::__tribute_io_write"(%0: core.bytes, %1: core.i1) -> core.nil attributes {abi = "intrinsic"} {
    func.unreachable
  }
"#;
const READ: &str = r#"  func.func @"std::io::__tribute_io_read_line"() -> tribute_rt.anyref attributes {abi = "intrinsic"} {
    func.unreachable
  }
  func.func @tag(%r: tribute_rt.anyref) -> core.i32 {
    %a = adt.variant_is %r {tag = @ReadLine, type = !"std::io::ReadLineResult"} : core.i1
    %x = scf.if %a : core.i32 {
      %k = arith.const {value = 0} : core.i32
      scf.yield %k
    } {
      %b = adt.variant_is %r {tag = @ReadEndOfFile, type = !"std::io::ReadLineResult"} : core.i1
      %y = scf.if %b : core.i32 {
        %k1 = arith.const {value = 1} : core.i32
        scf.yield %k1
      } {
        %c = adt.variant_is %r {tag = @ReadInvalidEncoding, type = !"std::io::ReadLineResult"} : core.i1
        %z = scf.if %c : core.i32 {
          %k2 = arith.const {value = 2} : core.i32
          scf.yield %k2
        } {
          %k3 = arith.const {value = 3} : core.i32
          scf.yield %k3
        }
        scf.yield %z
      }
      scf.yield %y
    }
    func.return %x
  }
  func.func @show(%r: tribute_rt.anyref, %nl: core.i1) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %t = func.call %r {callee = @tag} : core.i32
    %o = func.call %t {callee = @__obs_i32} : core.nil
    %k0 = arith.const {value = 0} : core.i32
    %k3 = arith.const {value = 3} : core.i32
    %c0 = arith.cmpi %t, %k0 {predicate = @eq} : core.i1
    %c3 = arith.cmpi %t, %k3 {predicate = @eq} : core.i1
    %p = scf.if %c0 : core.nil {
      %l = adt.variant_cast %r {tag = @ReadLine, type = !"std::io::ReadLineResult"} : tribute_rt.anyref
      %b = adt.variant_get %l {field = 0, tag = @ReadLine, type = !"std::io::ReadLineResult"} : core.bytes
      %w = func.call %b, %nl {callee = @"std::io::__tribute_io_write"} : core.nil
      scf.yield %u
    } {
      scf.yield %u
    }
    %q = scf.if %c3 : core.nil {
      %l2 = adt.variant_cast %r {tag = @ReadSystem, type = !"std::io::ReadLineResult"} : tribute_rt.anyref
      %e = adt.variant_get %l2 {field = 0, tag = @ReadSystem, type = !"std::io::ReadLineResult"} : core.i32
      %o2 = func.call %e {callee = @__obs_i32} : core.nil
      %b2 = adt.variant_get %l2 {field = 1, tag = @ReadSystem, type = !"std::io::ReadLineResult"} : core.bytes
      %w2 = func.call %b2, %nl {callee = @"std::io::__tribute_io_write"} : core.nil
      scf.yield %u
    } {
      scf.yield %u
    }
    func.return %u
  }
  func.func @line(%r: tribute_rt.anyref) -> core.bytes {
    %t = func.call %r {callee = @tag} : core.i32
    %k0 = arith.const {value = 0} : core.i32
    %c0 = arith.cmpi %t, %k0 {predicate = @eq} : core.i1
    %p = scf.if %c0 : core.bytes {
      %l = adt.variant_cast %r {tag = @ReadLine, type = !"std::io::ReadLineResult"} : tribute_rt.anyref
      %b = adt.variant_get %l {field = 0, tag = @ReadLine, type = !"std::io::ReadLineResult"} : core.bytes
      scf.yield %b
    } {
      %d = adt.bytes_const {value = b"-"} : core.bytes
      scf.yield %d
    }
    func.return %p
  }
  func.func @drain(%nl: core.i1, %n: core.i32) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %r = func.call {callee = @"std::io::__tribute_io_read_line"} : tribute_rt.anyref
    %s = func.call %r, %nl {callee = @show} : core.nil
    %t = func.call %r {callee = @tag} : core.i32
    %k1 = arith.const {value = 1} : core.i32
    %k0 = arith.const {value = 0} : core.i32
    %m = arith.subi %n, %k1 : core.i32
    %c = arith.cmpi %t, %k1 {predicate = @ne} : core.i1
    %d = arith.cmpi %m, %k0 {predicate = @ne} : core.i1
    %e = arith.and %c, %d : core.i1
    %x = scf.if %e : core.nil {
      %q = func.call %nl, %m {callee = @drain} : core.nil
      scf.yield %u
    } {
      scf.yield %u
    }
    func.return %u
  }
"#;
const LITS: [&[u8]; 4] = [b"", b"a", b"xy\n", b"\xff\0"];
const DRAIN: usize = 5;
#[derive(Clone, Debug)]
enum S { Wr(usize, u8), WrCat(usize, usize, u8), Rd, Show(usize, u8), Cat(usize, usize, u8), Drain(u8), If(Vec<S>, Vec<S>) }
#[derive(Clone, Copy, PartialEq)]
enum M { Wr, WrCat, Rd, Show, Cat, Drain, If }
struct G<'a> { ch: &'a mut Ch, budget: usize, menu: &'a [M] }
impl G<'_> {
    /// `reads`: how many results are in scope
    fn stmts(&mut self, mut reads: usize, depth: usize) -> Option<Vec<S>> {
        let mut v = vec![];
        loop {
            if self.budget == 0 { return Some(v); }
            let k = self.ch.pick(self.menu.len() + 1);
            if k == 0 { return Some(v); }
            self.budget -= 1;
            let nl = |c: &mut Ch| c.pick(3) as u8;
            v.push(match self.menu[k - 1] {
                M::Wr => S::Wr(self.ch.pick(LITS.len()), nl(self.ch)),
                M::WrCat => S::WrCat(1 + self.ch.pick(3), 1 + self.ch.pick(3), self.ch.pick(2) as u8),
                M::Rd => { reads += 1; S::Rd }
                M::Show => { if reads == 0 { return None; } S::Show(self.ch.pick(reads.min(2)), nl(self.ch)) }
                M::Cat => { if reads == 0 { return None; } S::Cat(self.ch.pick(reads.min(2)), self.ch.pick(reads.min(2)), 1) }
                M::Drain => S::Drain(self.ch.pick(2) as u8),
                M::If => {
                    if depth == 0 { return None; }
                    let a = self.stmts(reads, depth - 1)?;
                    let b = self.stmts(reads, depth - 1)?;
                    if a.is_empty() && b.is_empty() { return None; }
                    S::If(a, b)
                }
            });
        }
    }
}
fn program(ch: &mut Ch, budget: usize, menu: &[M]) -> Option<Vec<S>> {
    let v = G { ch, budget, menu }.stmts(0, 1)?;
    if v.is_empty() { None } else { Some(v) }
}
fn blit(b: &[u8]) -> String { b.iter().map(|x| format!("\\x{x:02x}")).collect() }
fn emit(p: &[S], ind: usize, next: &mut usize, reads: &mut Vec<String>) -> String {
    let mut o = String::new();
    let pad = "  ".repeat(ind);
    for s in p {
        *next += 1;
        let n = *next;
        let nl = |k: &u8| ["%no", "%yes", "%c"][*k as usize];
        match s {
            S::Wr(l, k) => o += &format!("{pad}%b{n} = adt.bytes_const {{value = b\"{}\"}} : core.bytes\n{pad}%w{n} = func.call %b{n}, {} {{callee = @\"std::io::__tribute_io_write\"}} : core.nil\n", blit(LITS[*l]), nl(k)),
            S::WrCat(a, b, k) => o += &format!("{pad}%a{n} = adt.bytes_const {{value = b\"{}\"}} : core.bytes\n{pad}%b{n} = adt.bytes_const {{value = b\"{}\"}} : core.bytes\n{pad}%d{n} = func.call %a{n}, %b{n} {{callee = @__tribute_bytes_concat}} : core.bytes\n{pad}%w{n} = func.call %d{n}, {} {{callee = @\"std::io::__tribute_io_write\"}} : core.nil\n", blit(LITS[*a]), blit(LITS[*b]), nl(k)),
            S::Rd => { o += &format!("{pad}%r{n} = func.call {{callee = @\"std::io::__tribute_io_read_line\"}} : tribute_rt.anyref\n"); reads.push(format!("%r{n}")); }
            S::Show(v, k) => o += &format!("{pad}%s{n} = func.call {}, {} {{callee = @show}} : core.nil\n", reads[reads.len() - 1 - v], nl(k)),
            S::Cat(a, b, k) => o += &format!("{pad}%a{n} = func.call {} {{callee = @line}} : core.bytes\n{pad}%b{n} = func.call {} {{callee = @line}} : core.bytes\n{pad}%d{n} = func.call %a{n}, %b{n} {{callee = @__tribute_bytes_concat}} : core.bytes\n{pad}%w{n} = func.call %d{n}, {} {{callee = @\"std::io::__tribute_io_write\"}} : core.nil\n", reads[reads.len() - 1 - a], reads[reads.len() - 1 - b], nl(k)),
            S::Drain(k) => o += &format!("{pad}%k{n} = arith.const {{value = {DRAIN}}} : core.i32\n{pad}%s{n} = func.call {}, %k{n} {{callee = @drain}} : core.nil\n", nl(k)),
            S::If(a, b) => {
                let (ta, tb) = (emit(a, ind + 1, next, &mut reads.clone()), emit(b, ind + 1, next, &mut reads.clone()));
                o += &format!("{pad}%x{n} = scf.if %c : core.nil {{\n{ta}{pad}  scf.yield %u\n{pad}}} {{\n{tb}{pad}  scf.yield %u\n{pad}}}\n");
            }
        }
    }
    o
}
fn module(ps: &[Vec<S>], read: bool) -> String {
    let mut t = format!("core.module @m {{\n{HEAD}{}", if read { READ } else { "" });
    for (i, p) in ps.iter().enumerate() {
        t += &format!("  func.func @f{i}(%i: core.i32) -> core.nil {{\n    %u = arith.const {{value = unit}} : core.nil\n    %no = arith.const {{value = false}} : core.i1\n    %yes = arith.const {{value = true}} : core.i1\n    %z = arith.const {{value = 0}} : core.i32\n    %c = arith.cmpi %i, %z {{predicate = @ne}} : core.i1\n{}    func.return %u\n  }}\n", emit(p, 2, &mut 0, &mut vec![]));
    }
    t += "  func.func @main() -> core.nil {\n    %u = arith.const {value = unit} : core.nil\n    %n = func.call {callee = @__in_i32} : core.i32\n    %one = arith.const {value = 1} : core.i32\n    %i = arith.and %n, %one : core.i32\n    %p = arith.shru %n, %one : core.i32\n";
    for i in 0..ps.len() {
        t += &format!("    %k{i} = arith.const {{value = {i}}} : core.i32\n    %c{i} = arith.cmpi %p, %k{i} {{predicate = @eq}} : core.i1\n    %s{i} = scf.if %c{i} : core.nil {{\n      %q{i} = func.call %i {{callee = @f{i}}} : core.nil\n      scf.yield %u\n    }} {{\n      scf.yield %u\n    }}\n");
    }
    t += "    func.return %u\n  }\n}\n";
    t
}
#[derive(Clone, Debug, PartialEq)]
enum It { Obs(i32), Msg(Vec<u8>) }
/// The meaning of a program: what it observes and writes, given the results of its reads.
fn run(p: &[S], c: bool, lines: &[Line], at: &mut usize, reads: &mut Vec<Line>, out: &mut Vec<It>) {
    let nl = |k: &u8, mut b: Vec<u8>| { if [false, true, c][*k as usize] { b.push(b'\n'); } It::Msg(b) };
    let take = |at: &mut usize| { *at += 1; lines.get(*at - 1).cloned().unwrap_or(Line::Eof) };
    let line = |l: &Line| match l { Line::Line(b) => b.clone(), _ => b"-".to_vec() };
    let show = |l: &Line, k: &u8, out: &mut Vec<It>| match l {
        Line::Line(b) => { out.push(It::Obs(0)); out.push(nl(k, b.clone())); }
        Line::Eof => out.push(It::Obs(1)),
        Line::BadEncoding => out.push(It::Obs(2)),
        Line::System(e, m) => { out.push(It::Obs(3)); out.push(It::Obs(*e)); out.push(nl(k, m.clone())); }
    };
    for s in p {
        match s {
            S::Wr(l, k) => out.push(nl(k, LITS[*l].to_vec())),
            S::WrCat(a, b, k) => out.push(nl(k, [LITS[*a], LITS[*b]].concat())),
            S::Rd => { let l = take(at); reads.push(l); }
            S::Show(v, k) => show(&reads[reads.len() - 1 - v].clone(), k, out),
            S::Cat(a, b, k) => { let m = [line(&reads[reads.len() - 1 - a]), line(&reads[reads.len() - 1 - b])].concat(); out.push(nl(k, m)); }
            S::Drain(k) => for _ in 0..DRAIN { let l = take(at); show(&l, k, out); if l == Line::Eof { break; } },
            S::If(a, b) => run(if c { a } else { b }, c, lines, at, &mut reads.clone(), out),
        }
    }
}
/// Compare a run (observations, and the bytes written between them) with its meaning. `stops`: how many
/// bytes had been accepted when the host refused a write for good.
fn agree(want: &[It], obs: &[i32], bytes: &[u8], marks: &[usize], stops: &[usize]) -> Result<(), String> {
    let (mut o, mut b, mut f) = (0usize, 0usize, 0usize);
    for w in want {
        match w {
            It::Obs(x) => { if obs.get(o) != Some(x) { return Err(format!("observation {o} should be {x}, is {:?}", obs.get(o))); } o += 1; }
            It::Msg(m) => {
                let mut n = m.len();
                if f < stops.len() && stops[f] >= b && stops[f] < b + n { n = stops[f] - b; f += 1; }
                if bytes.get(b..b + n) != Some(&m[..n]) { return Err(format!("message {m:?} should appear at byte {b} of the output")); }
                if marks[b..b + n].iter().any(|x| *x != o) { return Err(format!("message {m:?} was not written between observations {} and {o}", o as i32 - 1)); }
                b += n;
            }
        }
    }
    if o != obs.len() { return Err(format!("{} unexpected observations", obs.len() - o)); }
    if b != bytes.len() { return Err(format!("unexpected output {:?}", &bytes[b..])); }
    Ok(())
}
#[derive(Clone, Copy)]
struct Env { maxk: usize, short: usize, eintr: usize, fail: usize, eof: usize, accept: usize, burst: usize }
fn native_case(ps: &[Vec<S>], inputs: &[&[u8]], envs: &[Env], policies: &[u32], st: &Stats) -> CaseResult {
    let text = module(ps, true);
    for &pol in policies {
        let n = match guard(|| pipe::compile_native(&text, NativeOpts::from_bits(pol)).and_then(|b| exec::Native::load(&b))) {
            Ok(Ok(n)) => n,
            Ok(Err(e)) => return viol("native:compile", format!("the native pipeline rejects the program: {e}\n{text}")),
            Err(e) => return viol("native:panic", format!("the native pipeline panics: {e}\n{text}")),
        };
        for (k, p) in ps.iter().enumerate() {
            for c in [false, true] {
                for data in inputs {
                    for e in envs {
                        let paths = explore(|ch| {
                            *runtime::io() = Io { on: true, burst: e.burst, storm: 0, accept: e.accept, ch: ch as *mut Ch, data: data.to_vec(), pos: 0, out: vec![], marks: vec![], reads: vec![], wsafe: true, wshort: e.short, eintr: e.eintr, fail: e.fail, eof: e.eof, maxk: e.maxk, short: e.short, events: vec![], failed_at: None };
                            // only reads fail for good here; the runtime's answer to refused writes is C16's subject
                            exec::input((k * 2 + c as usize) as u32);
                            let g = n.call("main", &[]);
                            exec::input(0);
                            let (ev, reads, out, marks) = { let s = runtime::io(); (std::mem::take(&mut s.events), std::mem::take(&mut s.reads), std::mem::take(&mut s.out), std::mem::take(&mut s.marks)) };
                            // leave no buffered input behind
                            { let s = runtime::io(); s.pos = s.data.len(); s.accept = 1; s.burst = 0; s.storm = 0; }
                            for _ in 0..64 { if runtime::read_line() == Ok(Line::Eof) { break; } }
                            runtime::io().on = false;
                            let g = match g { Ok(g) => g, Err(e) => return viol("native:symbol", e) };
                            st.transitions(ev.len() as u64 + 1);
                            st.state_str(&format!("{p:?}{c}{data:?}{ev:?}"));
                            let tell = || format!("native, policy {pol}, {p:?}, condition {c}, input {data:?}, host {ev:?}: ");
                            if g.sig != 0 { return viol("native:signal", format!("{}stopped by signal {}", tell(), g.sig)); }
                            if !g.heap_err.is_empty() { return viol("native:heap", format!("{}{}", tell(), g.heap_err)); }
                            let mut want = vec![];
                            run(p, c, &runtime::line_model(data, &reads), &mut 0, &mut vec![], &mut want);
                            let obs: Vec<i32> = g.trace.iter().map(|t| t.trim_start_matches("i32:[").trim_end_matches(":i32]").parse::<u32>().unwrap_or(u32::MAX) as i32).collect();
                            match agree(&want, &obs, &out, &marks, &[]) { Ok(()) => Ok(()), Err(e) => viol("native:console", format!("{}{e}; wrote {out:?}, observed {obs:?}", tell())) }
                        })?;
                        st.traces(paths);
                        st.nontrivial(1);
                    }
                }
            }
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- WebAssembly
fn wasm_case(ps: &[Vec<S>], scripts: &[Vec<i64>], st: &Stats) -> CaseResult {
    let text = crate::props::wasm::prepare(&module(ps, false), &(0..ps.len()).map(|i| format!("f{i}")).collect::<Vec<_>>());
    let b = wasm_compile(&text)?;
    let mut qs = vec![];
    for i in 0..ps.len() { for c in 0..2u64 { for s in scripts { qs.push(Call { f: format!("f{i}"), args: vec![crate::interp::V::I(c, 32)], limit: 8000, fresh: false, writes: s.clone() }); } } }
    let mut g = vec![];
    for part in qs.chunks(2000) {
        match wexec::run(&b, part) { Err(e) => panic!("{e}"), Ok(Err(e)) => return viol("wasm:invalid", format!("the emitted module is invalid: {e}\n{text}")), Ok(Ok(r)) => g.extend(r) }
    }
    let mut k = 0;
    for p in ps { for c in [false, true] {
        let mut want = vec![];
        run(p, c, &[], &mut 0, &mut vec![], &mut want);
        for s in scripts {
            let r = &g[k];
            k += 1;
            st.traces(1);
            st.transitions(r.trace.len() as u64 + 1);
            st.state_str(&format!("w{p:?}{c}{s:?}"));
            wasm_agree(&want, r, &format!("WebAssembly, {p:?}, condition {c}, host {s:?}"))?;
        }
        st.nontrivial(1);
    } }
    Ok(())
}
fn wasm_compile(text: &str) -> Result<Vec<u8>, Violation> {
    match guard(|| pipe::compile_wasm(text)) {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => viol("wasm:compile", format!("the WebAssembly pipeline rejects the program: {e}\n{text}")),
        Err(p) => viol("wasm:panic", format!("the WebAssembly pipeline panics: {p}\n{text}")),
    }
}
fn wasm_agree(want: &[It], r: &wexec::WRan, what: &str) -> CaseResult {
    if !r.end.starts_with('r') { return viol("wasm:end", format!("{what}: ended with {}", r.end)); }
    let (mut obs, mut marks, mut stops) = (vec![], vec![], vec![]);
    for t in &r.trace {
        if let Some(x) = t.strip_prefix("i32:[") { obs.push(x.trim_end_matches(":i32]").parse::<u32>().unwrap_or(u32::MAX) as i32); }
        else if let Some(x) = t.strip_prefix("w:") {
            let (fd, n) = x.split_once(':').unwrap();
            if fd != "1" { return viol("wasm:descriptor", format!("{what}: wrote to descriptor {fd}")); }
            let n: usize = n.parse().unwrap();
            if n == 0 { stops.push(marks.len()); }
            marks.extend(std::iter::repeat_n(obs.len(), n));
        } else if let Some(x) = t.strip_prefix("e:") { if x != "27" { stops.push(marks.len()); } }
    }
    if marks.len() != r.out.len() { return viol("wasm:harness", format!("{what}: {:?}", r.trace)); }
    match agree(want, &obs, &r.out, &marks, &stops) { Ok(()) => Ok(()), Err(e) => viol("wasm:console", format!("{what}: {e}; trace {:?}, wrote {} bytes {:?}", r.trace, r.out.len(), &r.out[..r.out.len().min(200)])) }
}
/// Long messages built by doubling, around the size of a memory page.
const BIG: &str = r#"  func.func @big(%n: core.i32) -> core.bytes {
    %z = arith.const {value = 0} : core.i32
    %one = arith.const {value = 1} : core.i32
    %c = arith.cmpi %n, %z {predicate = @eq} : core.i1
    %r = scf.if %c : core.bytes {
      %e = adt.bytes_const {value = b""} : core.bytes
      scf.yield %e
    } {
      %h = arith.shru %n, %one : core.i32
      %b = func.call %h {callee = @big} : core.bytes
      %k = arith.and %n, %one : core.i32
      %d = arith.cmpi %k, %one {predicate = @eq} : core.i1
      %q = scf.if %d : core.bytes {
        %w = adt.bytes_const {value = b"A"} : core.bytes
        %x = func.call %b, %w {callee = @__tribute_bytes_concat} : core.bytes
        %y = func.call %x, %b {callee = @__tribute_bytes_concat} : core.bytes
        scf.yield %y
      } {
        %w2 = adt.bytes_const {value = b"\xf0"} : core.bytes
        %h2 = arith.subi %h, %one : core.i32
        %b2 = func.call %h2 {callee = @big} : core.bytes
        %x2 = func.call %b, %b2 {callee = @__tribute_bytes_concat} : core.bytes
        %y2 = func.call %x2, %w2 {callee = @__tribute_bytes_concat} : core.bytes
        scf.yield %y2
      }
      scf.yield %q
    }
    func.return %r
  }
  func.func @put(%n: core.i32, %nl: core.i1) -> core.nil {
    %b = func.call %n {callee = @big} : core.bytes
    %w = func.call %b, %nl {callee = @"std::io::__tribute_io_write"} : core.nil
    func.return %w
  }
"#;
fn big_module(sizes: &[(u32, bool)]) -> String {
    let mut t = format!("core.module @m {{\n{HEAD}{BIG}");
    for (i, (n, nl)) in sizes.iter().enumerate() {
        t += &format!("  func.func @f{i}(%i: core.i32) -> core.nil {{\n    %n = arith.const {{value = {n}}} : core.i32\n    %nl = arith.const {{value = {nl}}} : core.i1\n    %h = adt.bytes_const {{value = b\"head{i}\"}} : core.bytes\n    %w0 = func.call %h, %nl {{callee = @\"std::io::__tribute_io_write\"}} : core.nil\n    %w = func.call %n, %nl {{callee = @put}} : core.nil\n    %w1 = func.call %h, %nl {{callee = @\"std::io::__tribute_io_write\"}} : core.nil\n    func.return %w1\n  }}\n");
    }
    t += "  func.func @main() -> core.nil {\n    %i = func.call {callee = @__in_i32} : core.i32\n";
    for i in 0..sizes.len() { t += &format!("    %k{i} = arith.const {{value = {}}} : core.i32\n    %c{i} = arith.cmpi %i, %k{i} {{predicate = @eq}} : core.i1\n    %s{i} = scf.if %c{i} : core.nil {{\n      %q{i} = func.call %i {{callee = @f{i}}} : core.nil\n      scf.yield %q{i}\n    }} {{\n      %u{i} = arith.const {{value = unit}} : core.nil\n      scf.yield %u{i}\n    }}\n", i * 2); }
    t += "    %u = arith.const {value = unit} : core.nil\n    func.return %u\n  }\n}\n";
    t
}
fn big_want(i: usize, n: u32, nl: bool) -> Vec<It> {
    // not periodic, so that a shifted or repeated part shows
    fn big(n: u32) -> Vec<u8> { if n == 0 { return vec![]; } let b = big(n >> 1); if n & 1 == 1 { [&b[..], b"A", &b].concat() } else { [&b[..], &big((n >> 1) - 1), b"\xf0"].concat() } }
    let f = |mut b: Vec<u8>| { if nl { b.push(b'\n'); } It::Msg(b) };
    let h = format!("head{i}").into_bytes();
    vec![f(h.clone()), f(big(n)), f(h)]
}
fn big_case(sizes: &[(u32, bool)], scripts: &[Vec<i64>], st: &Stats) -> CaseResult {
    let text = crate::props::wasm::prepare(&big_module(sizes), &(0..sizes.len()).map(|i| format!("f{i}")).collect::<Vec<_>>());
    let b = wasm_compile(&text)?;
    for (i, (n, nl)) in sizes.iter().enumerate() {
        let qs: Vec<Call> = scripts.iter().map(|s| Call { f: format!("f{i}"), args: vec![crate::interp::V::I(0, 32)], limit: 8000, fresh: s.is_empty(), writes: s.clone() }).collect();
        let g = match wexec::run(&b, &qs) { Err(e) => panic!("{e}"), Ok(Err(e)) => return viol("wasm:invalid", format!("the emitted module is invalid: {e}\n{text}")), Ok(Ok(g)) => g };
        for (s, r) in scripts.iter().zip(&g) {
            st.traces(1);
            st.transitions(r.trace.len() as u64);
            st.state_str(&format!("big{n}{nl}{s:?}"));
            wasm_agree(&big_want(i, *n, *nl), r, &format!("WebAssembly, {n} bytes, newline {nl}, host {s:?}"))?;
        }
        st.nontrivial(1);
    }
    Ok(())
}

pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    const INS: [&[u8]; 6] = [b"", b"a", b"p\nq\r\n", b"\n\xff\nz", b"\xc3\xa9\n\xc3", b"one\ntwo\nthree\n"];
    const CALM: [Env; 3] = [
        Env { maxk: 1, short: 0, eintr: 0, fail: 0, eof: 0, accept: 0, burst: 0 },
        Env { maxk: 1, short: 0, eintr: 0, fail: 0, eof: 0, accept: 1, burst: 1 },
        Env { maxk: 1, short: 0, eintr: 0, fail: 1, eof: 0, accept: 0, burst: 0 },
    ];
    const WILD: [Env; 2] = [
        Env { maxk: 3, short: 1, eintr: 1, fail: 1, eof: 0, accept: 0, burst: 0 },
        Env { maxk: 3, short: 2, eintr: 0, fail: 0, eof: 1, accept: 0, burst: 0 },
    ];
    const SHORT: [&[u8]; 4] = [b"", b"p\nq", b"\xc3\xa9\r\n", b"\n\xff\n"];
    let mut nat = |name: &'static str, rule: &str, budget: usize, menu: &'static [M], bt: usize, envs: &'static [Env], pols: &'static [u32], ins: &'static [&'static [u8]]| {
        let g = move |ch: &mut Ch| program(ch, budget, menu);
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        let get = move |cs: &[Box<[u8]>], i: usize| cs[i * bt..((i + 1) * bt).min(cs.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>();
        v.push(Space { name, n: cases.len().div_ceil(bt), rule: format!("native: {rule}; every program with at most {budget} statements, both values of its condition, {} inputs ({} programs)", ins.len(), cases.len()),
            run: Box::new(move |i, st| native_case(&get(&cases, i), ins, envs, pols, st)),
            describe: Box::new(move |i| format!("{:?}\n{}", get(&c2, i), module(&get(&c2, i), true))), limit: 120 });
    };
    nat("native-programs", "whole and byte-wise interrupted transfers, one failing read at any point", if t { 4 } else { 3 }, &[M::Wr, M::Rd, M::Show, M::Cat, M::Drain, M::If], 40, &CALM, if t { &[0, 7] } else { &[7] }, &INS);
    nat("native-schedules", "short transfers, an interruption and a failing read or an early end of file, each at any point", if t { 3 } else { 2 }, &[M::Wr, M::Rd, M::Show, M::Drain], 8, &WILD, &[7], &SHORT);
    let _ = nat;
    // every script of host answers: full, 1 byte, 2 bytes, nothing, interrupted, refused
    let all = |d: u32| {
        let mut scripts: Vec<Vec<i64>> = vec![];
        let al = [1_000_000i64, 1, 2, 0, -27, -29, -8];
        for n in 0..=d { for i in 0..7usize.pow(n) { scripts.push((0..n).map(|p| al[i / 7usize.pow(p) % 7]).collect()); } }
        // a trailing "accept everything" is the default
        scripts.retain(|s| s.last() != Some(&1_000_000));
        std::rc::Rc::new(scripts)
    };
    let few: Vec<Vec<i64>> = vec![vec![], vec![1; 40], [-27i64, 1].repeat(40)];
    for (name, budget, menu, sc) in [
        ("wasm-programs", if t { 4 } else { 3 }, &[M::Wr, M::WrCat, M::If][..], std::rc::Rc::new(few)),
        ("wasm-schedules", 1, &[M::Wr, M::WrCat][..], all(if t { 6 } else { 5 })),
        ("wasm-schedules-2", 2, &[M::Wr, M::WrCat][..], all(if t { 4 } else { 3 })),
    ] {
        let g = move |ch: &mut Ch| program(ch, budget, menu);
        let bt = if name == "wasm-programs" { 60 } else { 1 };
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        let get = move |cs: &[Box<[u8]>], i: usize| cs[i * bt..((i + 1) * bt).min(cs.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>();
        v.push(Space { name, n: cases.len().div_ceil(bt), rule: format!("WebAssembly: every program with at most {budget} statements under {} host scripts (accept all, one, two bytes or nothing; interrupted; refused) ({} programs)", sc.len(), cases.len()),
            run: Box::new(move |i, st| wasm_case(&get(&cases, i), &sc, st)),
            describe: Box::new(move |i| format!("{:?}\n{}", get(&c2, i), module(&get(&c2, i), false))), limit: 120 });
    }
    let mut sizes: Vec<(u32, bool)> = vec![];
    for base in if t { vec![65_536u32, 131_072, 196_608] } else { vec![65_536u32, 131_072] } { for d in 0..=40u32 { for nl in [false, true] { sizes.push((base + 3 - d, nl)); } } }
    let sizes = std::rc::Rc::new(sizes);
    let s2 = sizes.clone();
    let bs: Vec<Vec<i64>> = vec![vec![], vec![65_535, -27, 1, 65_536]];
    v.push(Space { name: "wasm-pages", n: sizes.len().div_ceil(4), rule: format!("WebAssembly: messages of every size around the memory-page boundaries, between two short ones ({} sizes), whole and in unequal parts", sizes.len()),
        run: Box::new(move |i, st| big_case(&sizes[i * 4..((i + 1) * 4).min(sizes.len())], &bs, st)), describe: Box::new(move |i| big_module(&s2[i * 4..((i + 1) * 4).min(s2.len())])), limit: 120 });
    v
}
