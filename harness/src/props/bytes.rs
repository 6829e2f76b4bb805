//! C13: byte strings and string literals through both production pipelines.
use crate::engine::*;
use crate::gener::{self, Ch};
use crate::pipe::{self, NativeOpts};
use crate::props::data::{native_case, wasm_case};
use crate::props::native::Ref;
use crate::wexec::{self, Call};
use crate::{exec, interp};

const TYPES: &str = r#"  !String = adt.enum() {name = @String, variants = [[@Leaf, [core.bytes]], [@Branch, [tribute_rt.anyref, tribute_rt.anyref, core.i32]]]}
  !F = closure.closure(core.func(tribute_rt.anyref, tribute_rt.anyref)) {tribute.calling_convention = 0, tribute.closure_environment_index = 0}
"#;
const EXTERNS: &str = r#"  func.func @__obs_i32(%0: core.i32) -> core.nil attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__in_i32() -> core.i32 attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__tribute_bytes_len(%0: core.bytes) -> core.i32 attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__tribute_bytes_concat(%0: core.bytes, %1: core.bytes) -> core.bytes attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__tribute_bytes_range_equal(%0: core.bytes, %1: core.i32, %2: core.bytes, %3: core.i32, %4: core.i32) -> core.i1 attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__bytes_get_or_panic(%0: core.bytes, %1: core.i32) -> core.i32 attributes {abi = "intrinsic"} {
    func.unreachable
  }
"#;
const SLICE: &str = r#"  func.func @__tribute_bytes_slice_or_panic(%0: core.bytes, %1: core.i32, %2: core.i32) -> core.bytes attributes {abi = "C"} {
    func.unreachable
  }
  func.func @slice(%b: core.bytes, %s: core.i32, %e: core.i32) -> core.bytes {
    %n = func.call %b {callee = @__tribute_bytes_len} : core.i32
    %s1 = func.call %s, %n {callee = @min} : core.i32
    %e1 = func.call %e, %n {callee = @min} : core.i32
    %c = arith.cmpi %e1, %s1 {predicate = @ult} : core.i1
    %e2 = scf.if %c : core.i32 {
      scf.yield %s1
    } {
      scf.yield %e1
    }
    %r = func.call %b, %s1, %e2 {callee = @__tribute_bytes_slice_or_panic} : core.bytes
    func.return %r
  }
"#;
const HELPERS: &str = r#"  func.func @min(%a: core.i32, %b: core.i32) -> core.i32 {
    %c = arith.cmpi %a, %b {predicate = @ult} : core.i1
    %r = scf.if %c : core.i32 {
      scf.yield %a
    } {
      scf.yield %b
    }
    func.return %r
  }
  func.func @from(%b: core.bytes, %i: core.i32) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %n = func.call %b {callee = @__tribute_bytes_len} : core.i32
    %c = arith.cmpi %i, %n {predicate = @ult} : core.i1
    %r = scf.if %c : core.nil {
      %x = func.call %b, %i {callee = @__bytes_get_or_panic} : core.i32
      %o = func.call %x {callee = @__obs_i32} : core.nil
      %one = arith.const {value = 1} : core.i32
      %j = arith.addi %i, %one : core.i32
      %q = func.call %b, %j {callee = @from} : core.nil
      scf.yield %u
    } {
      scf.yield %u
    }
    func.return %u
  }
  func.func @showb(%b: core.bytes) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %k = arith.const {value = -40} : core.i32
    %o = func.call %k {callee = @__obs_i32} : core.nil
    %n = func.call %b {callee = @__tribute_bytes_len} : core.i32
    %p = func.call %n {callee = @__obs_i32} : core.nil
    %z = arith.const {value = 0} : core.i32
    %q = func.call %b, %z {callee = @from} : core.nil
    func.return %u
  }
  func.func @shows(%s: tribute_rt.anyref) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %l = adt.variant_is %s {tag = @Leaf, type = !String} : core.i1
    %r = scf.if %l : core.nil {
      %k = arith.const {value = -41} : core.i32
      %o = func.call %k {callee = @__obs_i32} : core.nil
      %c = adt.variant_cast %s {tag = @Leaf, type = !String} : tribute_rt.anyref
      %b = adt.variant_get %c {field = 0, tag = @Leaf, type = !String} : core.bytes
      %p = func.call %b {callee = @showb} : core.nil
      scf.yield %u
    } {
      %k = arith.const {value = -42} : core.i32
      %o = func.call %k {callee = @__obs_i32} : core.nil
      %c = adt.variant_cast %s {tag = @Branch, type = !String} : tribute_rt.anyref
      %x = adt.variant_get %c {field = 0, tag = @Branch, type = !String} : tribute_rt.anyref
      %p = func.call %x {callee = @shows} : core.nil
      %y = adt.variant_get %c {field = 1, tag = @Branch, type = !String} : tribute_rt.anyref
      %q = func.call %y {callee = @shows} : core.nil
      %z = adt.variant_get %c {field = 2, tag = @Branch, type = !String} : core.i32
      %w = func.call %z {callee = @__obs_i32} : core.nil
      scf.yield %u
    }
    func.return %u
  }
  func.func @flat(%s: tribute_rt.anyref) -> core.bytes {
    %l = adt.variant_is %s {tag = @Leaf, type = !String} : core.i1
    %r = scf.if %l : core.bytes {
      %c = adt.variant_cast %s {tag = @Leaf, type = !String} : tribute_rt.anyref
      %b = adt.variant_get %c {field = 0, tag = @Leaf, type = !String} : core.bytes
      scf.yield %b
    } {
      %c = adt.variant_cast %s {tag = @Branch, type = !String} : tribute_rt.anyref
      %x = adt.variant_get %c {field = 0, tag = @Branch, type = !String} : tribute_rt.anyref
      %p = func.call %x {callee = @flat} : core.bytes
      %y = adt.variant_get %c {field = 1, tag = @Branch, type = !String} : tribute_rt.anyref
      %q = func.call %y {callee = @flat} : core.bytes
      %t = func.call %p, %q {callee = @__tribute_bytes_concat} : core.bytes
      scf.yield %t
    }
    func.return %r
  }
  func.func @eqat(%a: core.bytes, %i: core.i32, %b: core.bytes, %j: core.i32) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %n = func.call %a {callee = @__tribute_bytes_len} : core.i32
    %m = func.call %b {callee = @__tribute_bytes_len} : core.i32
    %c = arith.cmpi %i, %n {predicate = @ule} : core.i1
    %r = scf.if %c : core.nil {
      %d = arith.cmpi %j, %m {predicate = @ule} : core.i1
      %s = scf.if %d : core.nil {
        %n1 = arith.subi %n, %i : core.i32
        %m1 = arith.subi %m, %j : core.i32
        %k = func.call %n1, %m1 {callee = @min} : core.i32
        %e = func.call %a, %i, %b, %j, %k {callee = @__tribute_bytes_range_equal} : core.i1
        %v = scf.if %e : core.i32 {
          %t = arith.const {value = -51} : core.i32
          scf.yield %t
        } {
          %t = arith.const {value = -50} : core.i32
          scf.yield %t
        }
        %o = func.call %v {callee = @__obs_i32} : core.nil
        scf.yield %u
      } {
        scf.yield %u
      }
      scf.yield %u
    } {
      scf.yield %u
    }
    func.return %u
  }
  func.func @eq(%a: core.bytes, %b: core.bytes) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %z = arith.const {value = 0} : core.i32
    %o = arith.const {value = 1} : core.i32
    %p = func.call %a, %z, %b, %z {callee = @eqat} : core.nil
    %q = func.call %a, %o, %b, %z {callee = @eqat} : core.nil
    %r = func.call %a, %o, %b, %o {callee = @eqat} : core.nil
    func.return %u
  }
  func.func @apply(%f: !F, %x: tribute_rt.anyref) -> tribute_rt.anyref {
    %r = func.call_indirect %f, %x {tribute.calling_convention = 0} : tribute_rt.anyref
    func.return %r
  }
  func.func @pick(%c: core.i1, %x: core.bytes, %y: core.bytes) -> core.bytes {
    %r = scf.if %c : core.bytes {
      scf.yield %x
    } {
      scf.yield %y
    }
    func.return %r
  }
"#;
const LITS: [&str; 7] = ["", "a", "\\x00", "ab", "\\xff\\x80", "b", "aba"];
const STRS: [&str; 4] = ["", "a", "xy\\n", "é\\\"\\\\"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Lit, Cat, Sl, Leaf, Branch, Str, Flat, Eq, If, Bx, Lam, Pick }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kd { B, S }
type Var = (String, Kd);
struct G<'a> { ch: &'a mut Ch, out: String, next: usize, budget: usize, menu: &'a [St], lits: &'a [usize] }
impl G<'_> {
    fn l(&mut self, ind: usize, s: &str) { self.out.push_str(&"  ".repeat(ind)); self.out.push_str(s); self.out.push('\n'); }
    fn v(&mut self) -> String { self.next += 1; format!("%v{}", self.next) }
    fn arg(&mut self, sc: &[Var], k: Kd) -> Option<String> {
        let c: Vec<&Var> = sc.iter().rev().filter(|v| v.1 == k).take(2).collect();
        if c.is_empty() { return None; }
        Some(c[self.ch.pick(c.len())].0.clone())
    }
    fn show(&mut self, ind: usize, x: &Var) {
        let u = self.v();
        let f = if x.1 == Kd::B { "showb" } else { "shows" };
        self.l(ind, &format!("{u} = func.call {} {{callee = @{f}}} : core.nil", x.0));
    }
    fn stmts(&mut self, ind: usize, mut sc: Vec<Var>, depth: usize) -> Option<Vec<Var>> {
        const A: &str = "tribute_rt.anyref";
        loop {
            if self.budget == 0 { return Some(sc); }
            let k = self.ch.pick(self.menu.len() + 1);
            if k == 0 { return Some(sc); }
            self.budget -= 1;
            let r = self.v();
            match self.menu[k - 1] {
                St::Lit => { let t = LITS[*self.ch.of(self.lits)]; self.l(ind, &format!("{r} = adt.bytes_const {{value = b\"{t}\"}} : core.bytes")); sc.push((r, Kd::B)); }
                St::Str => { let t = *self.ch.of(&STRS); self.l(ind, &format!("{r} = adt.string_const {{value = \"{t}\"}} : {A}")); sc.push((r, Kd::S)); }
                St::Cat => { let (a, b) = (self.arg(&sc, Kd::B)?, self.arg(&sc, Kd::B)?); self.l(ind, &format!("{r} = func.call {a}, {b} {{callee = @__tribute_bytes_concat}} : core.bytes")); sc.push((r, Kd::B)); }
                St::Sl => {
                    let a = self.arg(&sc, Kd::B)?;
                    let (s, e) = *self.ch.of(&[(0, 1), (1, 2), (1, 9), (0, 0), (2, 1)]);
                    let (x, y) = (self.v(), self.v());
                    self.l(ind, &format!("{x} = arith.const {{value = {s}}} : core.i32"));
                    self.l(ind, &format!("{y} = arith.const {{value = {e}}} : core.i32"));
                    self.l(ind, &format!("{r} = func.call {a}, {x}, {y} {{callee = @slice}} : core.bytes"));
                    sc.push((r, Kd::B));
                }
                St::Leaf => { let a = self.arg(&sc, Kd::B)?; self.l(ind, &format!("{r} = adt.variant_new {a} {{tag = @Leaf, type = !String}} : {A}")); sc.push((r, Kd::S)); }
                St::Branch => {
                    let (a, b) = (self.arg(&sc, Kd::S)?, self.arg(&sc, Kd::S)?);
                    self.l(ind, &format!("{r} = adt.variant_new {a}, {b}, %i {{tag = @Branch, type = !String}} : {A}"));
                    sc.push((r, Kd::S));
                }
                St::Flat => { let a = self.arg(&sc, Kd::S)?; self.l(ind, &format!("{r} = func.call {a} {{callee = @flat}} : core.bytes")); sc.push((r, Kd::B)); }
                St::Eq => { let (a, b) = (self.arg(&sc, Kd::B)?, self.arg(&sc, Kd::B)?); self.l(ind, &format!("{r} = func.call {a}, {b} {{callee = @eq}} : core.nil")); }
                St::Bx => {
                    let a = self.arg(&sc, Kd::B)?;
                    let x = self.v();
                    self.l(ind, &format!("{x} = core.unrealized_conversion_cast {a} : {A}"));
                    self.l(ind, &format!("{r} = core.unrealized_conversion_cast {x} : core.bytes"));
                    sc.push((r, Kd::B));
                }
                St::Lam => {
                    // a closure over a byte string, called on a string
                    let (a, s) = (self.arg(&sc, Kd::B)?, self.arg(&sc, Kd::S)?);
                    let (f, x, y) = (self.v(), self.v(), self.v());
                    let z = self.v();
                    self.l(ind, &format!("{f} = closure.lambda({x}: {A}) -> {A} {{tribute.calling_convention = 0}} [{a}, %i] {{"));
                    self.l(ind + 1, &format!("{y} = adt.variant_new {a} {{tag = @Leaf, type = !String}} : {A}"));
                    self.l(ind + 1, &format!("{z} = adt.variant_new {x}, {y}, %i {{tag = @Branch, type = !String}} : {A}"));
                    self.l(ind + 1, &format!("func.return {z}"));
                    self.l(ind, "}");
                    self.l(ind, &format!("{r} = func.call {f}, {s} {{callee = @apply}} : {A}"));
                    sc.push((r, Kd::S));
                }
                St::Pick => { let (a, b) = (self.arg(&sc, Kd::B)?, self.arg(&sc, Kd::B)?); self.l(ind, &format!("{r} = func.call %c, {a}, {b} {{callee = @pick}} : core.bytes")); sc.push((r, Kd::B)); }
                St::If => {
                    if depth == 0 { return None; }
                    let kind = if self.ch.flag() { Kd::S } else { Kd::B };
                    self.l(ind, &format!("{r} = scf.if %c : {} {{", if kind == Kd::B { "core.bytes" } else { A }));
                    for side in 0..2 {
                        let s = self.stmts(ind + 1, sc.clone(), depth - 1)?;
                        let y = self.arg(&s, kind)?;
                        self.l(ind + 1, &format!("scf.yield {y}"));
                        self.l(ind, if side == 0 { "} {" } else { "}" });
                    }
                    sc.push((r, kind));
                }
            }
        }
    }
}
fn program(ch: &mut Ch, budget: usize, menu: &[St], lits: &[usize]) -> Option<String> {
    let mut g = G { ch, out: String::new(), next: 0, budget, menu, lits };
    g.l(2, "%u = arith.const {value = unit} : core.nil");
    g.l(2, "%b1 = arith.const {value = 1} : core.i32");
    g.l(2, "%b = arith.and %i, %b1 : core.i32");
    g.l(2, "%c = arith.cmpi %b, %b1 {predicate = @eq} : core.i1");
    let sc = g.stmts(2, vec![("%a".into(), Kd::B), ("%s".into(), Kd::S)], 2)?;
    let n = sc.len();
    g.show(2, &sc[n - 1].clone());
    if n > 3 { g.show(2, &sc[n - 2].clone()); }
    g.show(2, &sc[0].clone());
    g.l(2, "func.return %u");
    Some(g.out)
}
fn module(progs: &[String], slices: bool, inline: bool) -> String {
    let mut t = format!("core.module @m {{\n{TYPES}{EXTERNS}{HELPERS}{}", if slices { SLICE } else { "" });
    for (i, p) in progs.iter().enumerate() {
        t += &format!("  func.func @f{i}(%i: core.i32, %a: core.bytes, %s: tribute_rt.anyref) -> core.nil {{\n{p}  }}\n");
        t += &format!("  func.func @w{i}(%i: core.i32) -> core.nil {{\n    %u = arith.const {{value = unit}} : core.nil\n    %m0 = arith.const {{value = {}}} : core.i32\n", 1000 + i);
        for j in 0..16 { t += &format!("    %m{} = arith.xor %m{j}, %i : core.i32\n", j + 1); }
        t += "    %o = func.call %m16 {callee = @__obs_i32} : core.nil\n    %a = adt.bytes_const {value = b\"ab\"} : core.bytes\n    %b = adt.bytes_const {value = b\"q\\x80\"} : core.bytes\n    %s = adt.variant_new %b {tag = @Leaf, type = !String} : tribute_rt.anyref\n";
        for j in 0..if inline { 1 } else { 1 + i % 2 } { t += &format!("    %z{j} = func.call %i, %a, %s {{callee = @f{i}}} : core.nil\n"); }
        t += "    func.return %u\n  }\n";
    }
    t += "  func.func @main() -> core.nil {\n    %u = arith.const {value = unit} : core.nil\n    %i = func.call {callee = @__in_i32} : core.i32\n    %one = arith.const {value = 1} : core.i32\n    %j = arith.addi %i, %one : core.i32\n";
    for (r, v) in ["%i", "%j"].iter().enumerate() { for i in 0..progs.len() { t += &format!("    %r{r}_{i} = func.call {v} {{callee = @w{i}}} : core.nil\n"); } }
    t += "    func.return %u\n  }\n}\n";
    t
}

// ---------------------------------------------------------------- bounds
/// Accesses that may leave the string: each is a function that observes one result or stops.
#[derive(Clone, Debug)]
enum Acc { Get(Vec<u8>, u32), Cat(Vec<u8>, Vec<u8>, u32), SliceGet(Vec<u8>, u32, u32, u32), Slice2(Vec<u8>, u32, u32, u32, u32) }
fn lit(b: &[u8]) -> String { b.iter().map(|x| format!("\\x{x:02x}")).collect() }
impl Acc {
    fn body(&self) -> String {
        let k = |n: &str, v: u32| format!("    %{n} = arith.const {{value = {}}} : core.i32\n", v as i32);
        let b = |n: &str, v: &[u8]| format!("    %{n} = adt.bytes_const {{value = b\"{}\"}} : core.bytes\n", lit(v));
        let get = |n: &str| format!("    %x = func.call %{n}, %i {{callee = @__bytes_get_or_panic}} : core.i32\n    %o = func.call %x {{callee = @__obs_i32}} : core.nil\n");
        match self {
            Acc::Get(v, i) => b("a", v) + &k("i", *i) + &get("a"),
            Acc::Cat(v, w, i) => b("a", v) + &b("b", w) + &k("i", *i) + "    %c = func.call %a, %b {callee = @__tribute_bytes_concat} : core.bytes\n" + &get("c"),
            Acc::SliceGet(v, s, e, i) => b("a", v) + &k("s", *s) + &k("e", *e) + &k("i", *i) + "    %c = func.call %a, %s, %e {callee = @__tribute_bytes_slice_or_panic} : core.bytes\n" + &get("c"),
            Acc::Slice2(v, s, e, p, q) => b("a", v) + &k("s", *s) + &k("e", *e) + &k("p", *p) + &k("q", *q) + "    %c = func.call %a, %s, %e {callee = @__tribute_bytes_slice_or_panic} : core.bytes\n    %d = func.call %c, %p, %q {callee = @__tribute_bytes_slice_or_panic} : core.bytes\n    %n = func.call %d {callee = @showb} : core.nil\n",
        }
    }
}
fn accesses(t: bool, slices: bool) -> Vec<Acc> {
    let alpha: &[u8] = &[0x00, 0x41, 0x7f, 0x80, 0xff];
    let mut strs: Vec<Vec<u8>> = vec![vec![]];
    let mut cur = strs.clone();
    for _ in 0..if t { 3 } else { 2 } {
        cur = cur.iter().flat_map(|p| alpha.iter().map(move |x| { let mut v = p.clone(); v.push(*x); v })).collect();
        strs.extend(cur.clone());
    }
    let far = [0x7fff_ffffu32, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let mut v = vec![];
    for s in &strs {
        for i in (0..s.len() as u32 + 2).chain(far) { v.push(Acc::Get(s.clone(), i)); }
    }
    let short: Vec<&Vec<u8>> = strs.iter().filter(|s| s.len() <= 1).collect();
    for a in &short { for b in &short { for i in (0..3).chain(far) { v.push(Acc::Cat((*a).clone(), (*b).clone(), i)); } } }
    if slices {
        let s = vec![0x80, 0x41, 0xff, 0x07];
        let ends: Vec<u32> = (0..6).chain([0x8000_0000, 0xffff_ffff]).collect();
        for &a in &ends { for &b in &ends { for i in (0..5).chain([0xffff_ffff]) { v.push(Acc::SliceGet(s.clone(), a, b, i)); } } }
        for a in 0..4u32 { for b in a..5 { for &p in &ends { for &q in &ends { v.push(Acc::Slice2(s.clone(), a, b, p, q)); } } } }
    }
    v
}
fn acc_module(cs: &[Acc], slices: bool) -> String {
    let mut t = format!("core.module @m {{\n{TYPES}{EXTERNS}{HELPERS}{}", if slices { SLICE } else { "" });
    for (i, a) in cs.iter().enumerate() {
        t += &format!("  func.func @t{i}() -> core.nil {{\n    %u = arith.const {{value = unit}} : core.nil\n{}    func.return %u\n  }}\n", a.body());
    }
    t += "  func.func @main() -> core.nil {\n    %u = arith.const {value = unit} : core.nil\n    %i = func.call {callee = @__in_i32} : core.i32\n";
    for i in 0..cs.len() {
        t += &format!("    %k{i} = arith.const {{value = {i}}} : core.i32\n    %c{i} = arith.cmpi %i, %k{i} {{predicate = @eq}} : core.i1\n    %s{i} = scf.if %c{i} : core.nil {{\n      %q{i} = func.call {{callee = @t{i}}} : core.nil\n      scf.yield %u\n    }} {{\n      scf.yield %u\n    }}\n");
    }
    t += "    func.return %u\n  }\n}\n";
    t
}
fn want(r: &Ref, i: usize) -> Result<(Vec<String>, String), Violation> {
    interp::outcome_fuel(&r.c, r.m.op(), &format!("t{i}"), vec![], 100_000).map_err(|e| Violation { key: "generator".into(), detail: format!("reference: {e}") })
}
fn acc_native(cs: &[Acc], st: &Stats) -> CaseResult {
    let text = acc_module(cs, true);
    let r = Ref::new(&text)?;
    for p in [0, 7] {
        let n = match guard(|| pipe::compile_native(&text, NativeOpts::from_bits(p)).and_then(|b| exec::Native::load(&b))) {
            Ok(Ok(n)) => n,
            Ok(Err(e)) => return viol("bounds:compile", format!("the native pipeline rejects the program: {e}\n{text}")),
            Err(e) => return viol("bounds:panic", format!("the native pipeline panics: {e}\n{text}")),
        };
        for (i, a) in cs.iter().enumerate() {
            let w = want(&r, i)?;
            exec::input(i as u32);
            let g = n.call("main", &[]).map_err(|e| Violation { key: "bounds:symbol".into(), detail: e })?;
            exec::input(0);
            st.traces(1);
            st.transitions(1 + w.0.len() as u64);
            if !g.heap_err.is_empty() { return viol("bounds:heap", format!("{a:?}: {}", g.heap_err)); }
            // a bounds stop is a trap or an abort; a memory fault is not
            let end = match g.sig { 0 => "return nil", s if s == libc::SIGILL || s == libc::SIGABRT || s == libc::SIGTRAP => "trap", _ => "fault" };
            if g.trace != w.0 || end != w.1 { return viol(format!("bounds:native:{}", key(a)), format!("native {a:?}: expected {w:?}, got {:?} {end} (signal {})", g.trace, g.sig)); }
        }
    }
    Ok(())
}
fn key(a: &Acc) -> &'static str { match a { Acc::Get(..) => "get", Acc::Cat(..) => "concat", Acc::SliceGet(..) => "slice", Acc::Slice2(..) => "reslice" } }
fn acc_wasm(cs: &[Acc], st: &Stats) -> CaseResult {
    let text = acc_module(cs, false);
    let r = Ref::new(&text)?;
    let wt = crate::props::wasm::prepare(&text, &(0..cs.len()).map(|i| format!("t{i}")).collect::<Vec<_>>());
    let b = match guard(|| pipe::compile_wasm(&wt)) {
        Ok(Ok(n)) => n,
        Ok(Err(e)) => return viol("bounds:compile", format!("the WebAssembly pipeline rejects the program: {e}\n{wt}")),
        Err(p) => return viol("bounds:panic", format!("the WebAssembly pipeline panics: {p}\n{wt}")),
    };
    let qs: Vec<Call> = (0..cs.len()).map(|i| Call { f: format!("t{i}"), args: vec![], limit: 8000, fresh: true, writes: vec![] }).collect();
    let g = match wexec::run(&b, &qs) { Err(e) => panic!("{e}"), Ok(Err(e)) => return viol("bounds:invalid", format!("the emitted module is invalid: {e}\n{wt}")), Ok(Ok(g)) => g };
    for (i, a) in cs.iter().enumerate() {
        let w = want(&r, i)?;
        st.traces(1);
        st.transitions(1 + w.0.len() as u64);
        let end = if g[i].end.starts_with('r') { "return nil" } else if g[i].end.starts_with("trap") { "trap" } else { &g[i].end };
        if g[i].trace != w.0 || end != w.1 { return viol(format!("bounds:wasm:{}", key(a)), format!("WebAssembly {a:?}: expected {w:?}, got {:?} {end}", g[i].trace)); }
    }
    Ok(())
}

// ---------------------------------------------------------------- literal pools
const POOL: [&str; 9] = ["", "\\x00", "a", "ab", "abc", "b", "bc", "ab\\x00", "\\xff\\xfe"];
fn pool_prog(sel: &[usize], strs: bool) -> String {
    let mut o = String::from("    %u = arith.const {value = unit} : core.nil\n");
    for (i, k) in sel.iter().enumerate() {
        if strs && i % 2 == 1 && *k < 8 { o += &format!("    %p{i} = adt.string_const {{value = \"{}\"}} : tribute_rt.anyref\n    %q{i} = func.call %p{i} {{callee = @shows}} : core.nil\n", POOL[*k].replace("\\x00", "\\0")); }
        else { o += &format!("    %p{i} = adt.bytes_const {{value = b\"{}\"}} : core.bytes\n    %q{i} = func.call %p{i} {{callee = @showb}} : core.nil\n", POOL[*k]); }
    }
    o += "    func.return %u\n";
    o
}
fn subs_prog(whole: &str, subs: &[(String, bool)]) -> String {
    let mut o = String::from("    %u = arith.const {value = unit} : core.nil\n");
    let mut n = 0;
    // distinct first bytes keep the groups from sharing with each other
    for (j, (s, before)) in subs.iter().enumerate() {
        let w = whole.replace('a', &format!("{j}"));
        let s = s.replace('a', &format!("{j}"));
        for l in if *before { [s.as_str(), w.as_str()] } else { [w.as_str(), s.as_str()] } {
            o += &format!("    %p{n} = adt.bytes_const {{value = b\"{l}\"}} : core.bytes\n    %q{n} = func.call %p{n} {{callee = @showb}} : core.nil\n");
            n += 1;
        }
    }
    o += "    func.return %u\n";
    o
}
fn long_prog(n: usize) -> String {
    let s: String = (0..n).map(|i| format!("\\x{:02x}", (i * 7 + n) % 256)).collect();
    format!("    %u = arith.const {{value = unit}} : core.nil\n    %p = adt.bytes_const {{value = b\"{s}\"}} : core.bytes\n    %q = func.call %p {{callee = @showb}} : core.nil\n    func.return %u\n")
}

pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    use St::*;
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    let mut prog = |name: &'static str, rule: &str, budget: usize, menu: &'static [St], lits: &'static [usize], wasm: bool| {
        let g = move |ch: &mut Ch| program(ch, budget, menu, lits);
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        let bt = 40;
        let slices = menu.contains(&Sl);
        let text = move |cs: &[Box<[u8]>], i: usize| module(&cs[i * bt..((i + 1) * bt).min(cs.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>(), slices, wasm);
        v.push(Space { name, n: cases.len().div_ceil(bt), rule: format!("{rule}: every program with at most {budget} statements, {bt} to a module ({} programs)", cases.len()),
            run: Box::new(move |i, st| {
                let m = text(&cases, i);
                for k in &cases[i * bt..((i + 1) * bt).min(cases.len())] { st.state_str(&format!("{name}{k:?}")); st.nontrivial(1); }
                if wasm { wasm_case(&m, name, st) } else { native_case(&m, if t { &[0, 1, 2, 4, 7] } else { &[0, 7] }, name, st) }
            }),
            describe: Box::new(move |i| text(&c2, i)), limit: 90 });
    };
    let b = if t { 4 } else { 3 };
    prog("native-bytes", "native: literals, concatenation, slices, comparison", b, &[Lit, Cat, Sl, Eq], &[0, 3, 4], false);
    prog("native-strings", "native: byte strings inside enums, closures, boxes and conditionals", b, &[Str, Leaf, Branch, Flat, Cat, If, Bx, Lam, Pick], &[], false);
    prog("wasm-bytes", "WebAssembly: literals, concatenation, comparison", b, &[Lit, Cat, Eq, Pick], &[0, 1, 2, 3, 4, 5, 6], true);
    prog("wasm-strings", "WebAssembly: byte strings inside enums, closures, boxes and conditionals", b, &[Str, Leaf, Branch, Flat, Cat, If, Lam], &[], true);
    let _ = prog;
    for wasm in [false, true] {
        let cases = std::rc::Rc::new(accesses(t, !wasm));
        let c2 = cases.clone();
        let bt = 64;
        v.push(Space { name: if wasm { "wasm-bounds" } else { "native-bounds" }, n: cases.len().div_ceil(bt), rule: format!("every indexed access and nested slice inside and outside the bounds of every string up to length {} over five byte values ({} accesses)", if t { 3 } else { 2 }, cases.len()),
            run: Box::new(move |i, st| {
                let cs = &cases[i * bt..((i + 1) * bt).min(cases.len())];
                for c in cs { st.state_str(&format!("{wasm}{c:?}")); st.nontrivial(1); }
                if wasm { acc_wasm(cs, st) } else { acc_native(cs, st) }
            }),
            describe: Box::new(move |i| acc_module(&c2[i * bt..((i + 1) * bt).min(c2.len())], !wasm)), limit: 90 });
        // literal pools: every sequence of literals sharing prefixes, suffixes and duplicates
        let mut sel: Vec<Vec<usize>> = vec![];
        for a in 0..POOL.len() { for b in 0..POOL.len() { sel.push(vec![a, b]); for c in 0..POOL.len() { sel.push(vec![a, b, c]); } } }
        // every substring of one literal before and after it
        let whole = "abcdabxyz";
        let mut subs: Vec<(String, bool)> = vec![];
        for a in 0..whole.len() { for b in a + 1..=whole.len() { subs.push((whole[a..b].into(), true)); subs.push((whole[a..b].into(), false)); } }
        let lens: Vec<usize> = if t { (0..=520).collect() } else { vec![0, 1, 7, 8, 127, 128, 129, 255, 256, 257, 300] };
        let n = sel.len() + lens.len() + subs.len().div_ceil(9);
        let pt = move |i: usize| -> String { module(&[if i < sel.len() { pool_prog(&sel[i], i % 2 == 1) } else if i < sel.len() + lens.len() { long_prog(lens[i - sel.len()]) } else { subs_prog(whole, &subs[(i - sel.len() - lens.len()) * 9..((i - sel.len() - lens.len() + 1) * 9).min(subs.len())]) }], false, true).replace("%i: core.i32, %a: core.bytes, %s: tribute_rt.anyref", "%i: core.i32, %a: core.bytes, %s: tribute_rt.anyref") };
        let pt = std::rc::Rc::new(pt);
        let p2 = pt.clone();
        v.push(Space { name: if wasm { "wasm-literals" } else { "native-literals" }, n, rule: format!("every pool of two or three literals from {} (shared prefixes, suffixes, duplicates, NUL, non-UTF-8), as bytes and as strings, and long literals ({n} modules)", POOL.len()),
            run: Box::new(move |i, st| {
                let m = pt(i);
                st.state_str(&format!("lit{wasm}{i}"));
                st.nontrivial(1);
                if wasm { wasm_case(&m, "literals", st) } else { native_case(&m, &[7], "literals", st) }
            }),
            describe: Box::new(move |i| p2(i)), limit: 90 });
    }
    v
}
