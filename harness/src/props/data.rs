//! C10, C11, C12: programs over heap data (enums, structs, boxes, closures, lists, byte strings)
//! compiled by the full production pipelines and compared with the reference interpreter.
use crate::engine::*;
use crate::gener::{self, Ch};
use crate::pipe::{self, NativeOpts};
use crate::props::native::Ref;
use crate::wexec::{self, Call};
use crate::{exec, interp};

pub const TYPES: &str = r#"  !P = adt.struct() {fields = [[@a, core.i32], [@b, tribute_rt.anyref]], name = @P}
  !P_1 = adt.typeref() {name = @P}
  !F = closure.closure(core.func(tribute_rt.anyref, tribute_rt.anyref)) {tribute.calling_convention = 0, tribute.closure_environment_index = 0}
  !E = adt.enum() {name = @E, variants = [[@N, []], [@I, [core.i32]], [@B, [tribute_rt.anyref]], [@S, [tribute_rt.anyref]], [@R, [tribute_rt.anyref, tribute_rt.anyref]], [@Q, [core.i32, core.f64, tribute_rt.anyref]], [@T, [!P_1]], [@C, [!F]]]}
"#;
pub const HELPERS: &str = r#"  func.func @__obs_i32(%0: core.i32) -> core.nil attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__obs_f64(%0: core.f64) -> core.nil attributes {abi = "C"} {
    func.unreachable
  }
  func.func @__in_i32() -> core.i32 attributes {abi = "C"} {
    func.unreachable
  }
  func.func @show(%e: tribute_rt.anyref) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %is0 = adt.variant_is %e {tag = @N, type = !E} : core.i1
    %r0 = scf.if %is0 : core.nil {
      %k = arith.const {value = -10} : core.i32
      %o = func.call %k {callee = @__obs_i32} : core.nil
      scf.yield %u
    } {
      %is1 = adt.variant_is %e {tag = @I, type = !E} : core.i1
      %r1 = scf.if %is1 : core.nil {
        %k = arith.const {value = -11} : core.i32
        %o = func.call %k {callee = @__obs_i32} : core.nil
        %c = adt.variant_cast %e {tag = @I, type = !E} : tribute_rt.anyref
        %g = adt.variant_get %c {field = 0, tag = @I, type = !E} : core.i32
        %p = func.call %g {callee = @__obs_i32} : core.nil
        scf.yield %u
      } {
        %is2 = adt.variant_is %e {tag = @B, type = !E} : core.i1
        %r2 = scf.if %is2 : core.nil {
          %k = arith.const {value = -12} : core.i32
          %o = func.call %k {callee = @__obs_i32} : core.nil
          %c = adt.variant_cast %e {tag = @B, type = !E} : tribute_rt.anyref
          %g = adt.variant_get %c {field = 0, tag = @B, type = !E} : tribute_rt.anyref
          %i = core.unrealized_conversion_cast %g : core.i32
          %p = func.call %i {callee = @__obs_i32} : core.nil
          scf.yield %u
        } {
          %is3 = adt.variant_is %e {tag = @S, type = !E} : core.i1
          %r3 = scf.if %is3 : core.nil {
            %k = arith.const {value = -13} : core.i32
            %o = func.call %k {callee = @__obs_i32} : core.nil
            %c = adt.variant_cast %e {tag = @S, type = !E} : tribute_rt.anyref
            %g = adt.variant_get %c {field = 0, tag = @S, type = !E} : tribute_rt.anyref
            %p = func.call %g {callee = @show} : core.nil
            scf.yield %u
          } {
            %is4 = adt.variant_is %e {tag = @R, type = !E} : core.i1
            %r4 = scf.if %is4 : core.nil {
              %k = arith.const {value = -14} : core.i32
              %o = func.call %k {callee = @__obs_i32} : core.nil
              %c = adt.variant_cast %e {tag = @R, type = !E} : tribute_rt.anyref
              %g = adt.variant_get %c {field = 0, tag = @R, type = !E} : tribute_rt.anyref
              %p = func.call %g {callee = @show} : core.nil
              %h = adt.variant_get %c {field = 1, tag = @R, type = !E} : tribute_rt.anyref
              %q = func.call %h {callee = @show} : core.nil
              scf.yield %u
            } {
              %is5 = adt.variant_is %e {tag = @Q, type = !E} : core.i1
              %r5 = scf.if %is5 : core.nil {
              %k = arith.const {value = -15} : core.i32
              %o = func.call %k {callee = @__obs_i32} : core.nil
              %c = adt.variant_cast %e {tag = @Q, type = !E} : tribute_rt.anyref
              %g = adt.variant_get %c {field = 0, tag = @Q, type = !E} : core.i32
              %p = func.call %g {callee = @__obs_i32} : core.nil
              %h = adt.variant_get %c {field = 1, tag = @Q, type = !E} : core.f64
              %q = func.call %h {callee = @__obs_f64} : core.nil
              %j = adt.variant_get %c {field = 2, tag = @Q, type = !E} : tribute_rt.anyref
              %s = func.call %j {callee = @show} : core.nil
              scf.yield %u
              } {
                %is6 = adt.variant_is %e {tag = @T, type = !E} : core.i1
                %r6 = scf.if %is6 : core.nil {
                  %c = adt.variant_cast %e {tag = @T, type = !E} : tribute_rt.anyref
                  %g = adt.variant_get %c {field = 0, tag = @T, type = !E} : !P_1
                  %p = func.call %g {callee = @showp} : core.nil
                  scf.yield %u
                } {
                  %k = arith.const {value = -16} : core.i32
                  %o = func.call %k {callee = @__obs_i32} : core.nil
                  %c = adt.variant_cast %e {tag = @C, type = !E} : tribute_rt.anyref
                  %g = adt.variant_get %c {field = 0, tag = @C, type = !E} : !F
                  %n = adt.variant_new {tag = @N, type = !E} : tribute_rt.anyref
                  %p = func.call_indirect %g, %n {tribute.calling_convention = 0} : tribute_rt.anyref
                  %q = func.call %p {callee = @show} : core.nil
                  scf.yield %u
                }
                scf.yield %u
              }
              scf.yield %u
            }
            scf.yield %u
          }
          scf.yield %u
        }
        scf.yield %u
      }
      scf.yield %u
    }
    func.return %u
  }
  func.func @showp(%p: !P_1) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %k = arith.const {value = -20} : core.i32
    %o = func.call %k {callee = @__obs_i32} : core.nil
    %a = adt.struct_get %p {field = 0, type = !P} : core.i32
    %x = func.call %a {callee = @__obs_i32} : core.nil
    %b = adt.struct_get %p {field = 1, type = !P} : tribute_rt.anyref
    %y = func.call %b {callee = @show} : core.nil
    func.return %u
  }
  func.func @kid(%e: tribute_rt.anyref) -> tribute_rt.anyref {
    %s = adt.variant_is %e {tag = @S, type = !E} : core.i1
    %r = scf.if %s : tribute_rt.anyref {
      %c = adt.variant_cast %e {tag = @S, type = !E} : tribute_rt.anyref
      %g = adt.variant_get %c {field = 0, tag = @S, type = !E} : tribute_rt.anyref
      scf.yield %g
    } {
      %t = adt.variant_is %e {tag = @R, type = !E} : core.i1
      %q = scf.if %t : tribute_rt.anyref {
        %c = adt.variant_cast %e {tag = @R, type = !E} : tribute_rt.anyref
        %g = adt.variant_get %c {field = 1, tag = @R, type = !E} : tribute_rt.anyref
        scf.yield %g
      } {
        scf.yield %e
      }
      scf.yield %q
    }
    func.return %r
  }
  func.func @tag(%e: tribute_rt.anyref) -> core.i32 {
    %s = adt.variant_is %e {tag = @S, type = !E} : core.i1
    %r = scf.if %s : core.i32 {
      %k = arith.const {value = 3} : core.i32
      scf.yield %k
    } {
      %t = adt.variant_is %e {tag = @R, type = !E} : core.i1
      %x = scf.if %t : core.i32 {
        %one = arith.const {value = 1} : core.i32
        scf.yield %one
      } {
        %zero = arith.const {value = 0} : core.i32
        scf.yield %zero
      }
      scf.yield %x
    }
    func.return %r
  }
  func.func @depth(%e: tribute_rt.anyref) -> core.i32 {
    %one = arith.const {value = 1} : core.i32
    %s = adt.variant_is %e {tag = @S, type = !E} : core.i1
    %r = scf.if %s : core.i32 {
      %c = adt.variant_cast %e {tag = @S, type = !E} : tribute_rt.anyref
      %g = adt.variant_get %c {field = 0, tag = @S, type = !E} : tribute_rt.anyref
      %d = func.call %g {callee = @depth} : core.i32
      %x = arith.addi %d, %one : core.i32
      scf.yield %x
    } {
      scf.yield %one
    }
    func.return %r
  }
  func.func @id(%e: tribute_rt.anyref) -> tribute_rt.anyref {
    func.return %e
  }
  func.func @first(%x: tribute_rt.anyref, %y: tribute_rt.anyref) -> tribute_rt.anyref {
    func.return %x
  }
  func.func @wrap(%x: tribute_rt.anyref) -> tribute_rt.anyref {
    %r = adt.variant_new %x {tag = @S, type = !E} : tribute_rt.anyref
    func.return %r
  }
  func.func @twice(%x: tribute_rt.anyref) -> tribute_rt.anyref {
    %r = adt.variant_new %x, %x {tag = @R, type = !E} : tribute_rt.anyref
    func.return %r
  }
  func.func @back(%n: core.i32, %p: !P_1) -> !P_1 {
    %z = arith.const {value = 0} : core.i32
    %one = arith.const {value = 1} : core.i32
    %b = arith.cmpi %n, %z {predicate = @eq} : core.i1
    %r = scf.if %b : !P_1 {
      scf.yield %p
    } {
      %m = arith.subi %n, %one : core.i32
      %q = func.call %m, %p {callee = @back} : !P_1
      scf.yield %q
    }
    func.return %r
  }
  func.func @apply3(%i: core.i32, %e: tribute_rt.anyref, %f: !F, %g: !F) -> tribute_rt.anyref {
    %o = func.call %i {callee = @__obs_i32} : core.nil
    %r = func.call_indirect %f, %e {tribute.calling_convention = 0} : tribute_rt.anyref
    %s = func.call_indirect %g, %r {tribute.calling_convention = 0} : tribute_rt.anyref
    func.return %s
  }
  func.func @apply(%f: !F, %x: tribute_rt.anyref) -> tribute_rt.anyref {
    %r = func.call_indirect %f, %x {tribute.calling_convention = 0} : tribute_rt.anyref
    func.return %r
  }
  func.func @mkp(%i: core.i32, %x: tribute_rt.anyref) -> !P_1 {
    %r = adt.struct_new %i, %x {type = !P} : !P_1
    func.return %r
  }
  func.func @getp(%p: !P_1) -> tribute_rt.anyref {
    %r = adt.struct_get %p {field = 1, type = !P} : tribute_rt.anyref
    func.return %r
  }
"#;
/// Calling a closure read back from an enum field: rejected (loudly) by the WebAssembly backend.
const CLOSURE_FIELD: &str = r#"                  %c = adt.variant_cast %e {tag = @C, type = !E} : tribute_rt.anyref
                  %g = adt.variant_get %c {field = 0, tag = @C, type = !E} : !F
                  %n = adt.variant_new {tag = @N, type = !E} : tribute_rt.anyref
                  %p = func.call_indirect %g, %n {tribute.calling_convention = 0} : tribute_rt.anyref
                  %q = func.call %p {callee = @show} : core.nil
"#;
pub const LIST_HELPERS: &str = r#"  func.func @showl(%l: tribute_rt.anyref) -> core.nil {
    %u = arith.const {value = unit} : core.nil
    %m = list.is_empty %l {element_type = tribute_rt.anyref} : core.i1
    %r = scf.if %m : core.nil {
      %k = arith.const {value = -30} : core.i32
      %o = func.call %k {callee = @__obs_i32} : core.nil
      scf.yield %u
    } {
      %k = arith.const {value = -31} : core.i32
      %o = func.call %k {callee = @__obs_i32} : core.nil
      %h = list.head %l {element_type = tribute_rt.anyref} : tribute_rt.anyref
      %p = func.call %h {callee = @show} : core.nil
      %t = list.tail %l {element_type = tribute_rt.anyref} : tribute_rt.anyref
      %q = func.call %t {callee = @showl} : core.nil
      scf.yield %u
    }
    func.return %u
  }
"#;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Leaf, Bx, Wrap, Pair, Quad, Kid, Get, Call1, Call2, Show, Tag, Struct, Field, If, Loop, Lam, App, Cons, Head, Tail, Obs, Peek, HoldP, TakeP, HoldF, TakeF, LeafI, CallS, Lam2, App3, PFlow }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kd { E, P, L, F, T, C }
type Var = (String, Kd);

pub struct G<'a> { pub ch: &'a mut Ch, pub out: String, pub next: usize, pub budget: usize, pub menu: &'a [St], pub k: i32 }
impl G<'_> {
    fn l(&mut self, ind: usize, s: &str) { self.out.push_str(&"  ".repeat(ind)); self.out.push_str(s); self.out.push('\n'); }
    fn v(&mut self) -> String { self.next += 1; format!("%v{}", self.next) }
    /// One of the two newest values of the kind.
    fn arg(&mut self, sc: &[Var], k: Kd) -> Option<String> {
        let c: Vec<&Var> = sc.iter().rev().filter(|v| v.1 == k).take(2).collect();
        if c.is_empty() { return None; }
        Some(c[self.ch.pick(c.len())].0.clone())
    }
    fn int(&mut self, ind: usize) -> String { self.k += 1; let (v, k) = (self.v(), self.k); self.l(ind, &format!("{v} = arith.const {{value = {k}}} : core.i32")); v }
    fn show(&mut self, ind: usize, x: &Var, sc: &[Var]) {
        let u = self.v();
        match x.1 {
            Kd::E | Kd::T | Kd::C => self.l(ind, &format!("{u} = func.call {} {{callee = @show}} : core.nil", x.0)),
            Kd::P => self.l(ind, &format!("{u} = func.call {} {{callee = @showp}} : core.nil", x.0)),
            Kd::L => self.l(ind, &format!("{u} = func.call {} {{callee = @showl}} : core.nil", x.0)),
            Kd::F => {
                let e = sc.iter().find(|v| v.1 == Kd::E).unwrap().0.clone();
                let r = self.v();
                self.l(ind, &format!("{r} = func.call {}, {e} {{callee = @apply}} : tribute_rt.anyref", x.0));
                self.l(ind, &format!("{u} = func.call {r} {{callee = @show}} : core.nil"));
            }
        }
    }
    fn stmts(&mut self, ind: usize, mut sc: Vec<Var>, depth: usize) -> Option<Vec<Var>> {
        const A: &str = "tribute_rt.anyref";
        loop {
            if self.budget == 0 { return Some(sc); }
            let k = self.ch.pick(self.menu.len() + 1);
            if k == 0 { return Some(sc); }
            self.budget -= 1;
            match self.menu[k - 1] {
                St::Leaf => {
                    let r = self.v();
                    if self.ch.flag() { let i = self.int(ind); self.l(ind, &format!("{r} = adt.variant_new {i} {{tag = @I, type = !E}} : {A}")); }
                    else { self.l(ind, &format!("{r} = adt.variant_new {{tag = @N, type = !E}} : {A}")); }
                    sc.push((r, Kd::E));
                }
                St::LeafI => { let r = self.v(); let i = self.int(ind); self.l(ind, &format!("{r} = adt.variant_new {i} {{tag = @I, type = !E}} : {A}")); sc.push((r, Kd::E)); }
                St::CallS => { let f = *self.ch.of(&["id", "wrap", "twice"]); let a = self.arg(&sc, Kd::E)?; let r = self.v(); self.l(ind, &format!("{r} = func.call {a} {{callee = @{f}}} : {A}")); sc.push((r, Kd::E)); }
                St::Bx => {
                    let (b, r) = (self.v(), self.v());
                    let i = if self.ch.flag() { self.int(ind) } else { "%i".into() };
                    self.l(ind, &format!("{b} = core.unrealized_conversion_cast {i} : {A}"));
                    self.l(ind, &format!("{r} = adt.variant_new {b} {{tag = @B, type = !E}} : {A}"));
                    sc.push((r, Kd::E));
                }
                St::Wrap => { let a = self.arg(&sc, Kd::E)?; let r = self.v(); self.l(ind, &format!("{r} = adt.variant_new {a} {{tag = @S, type = !E}} : {A}")); sc.push((r, Kd::E)); }
                St::Pair => { let (a, b) = (self.arg(&sc, Kd::E)?, self.arg(&sc, Kd::E)?); let r = self.v(); self.l(ind, &format!("{r} = adt.variant_new {a}, {b} {{tag = @R, type = !E}} : {A}")); sc.push((r, Kd::E)); }
                St::Quad => {
                    let a = self.arg(&sc, Kd::E)?;
                    let (f, r) = (self.v(), self.v());
                    let i = self.int(ind);
                    self.l(ind, &format!("{f} = arith.const {{value = 2.5}} : core.f64"));
                    self.l(ind, &format!("{r} = adt.variant_new {i}, {f}, {a} {{tag = @Q, type = !E}} : {A}"));
                    sc.push((r, Kd::E));
                }
                St::Kid => {
                    // an in-place match: the child of S, otherwise the value itself or a fresh leaf
                    let a = self.arg(&sc, Kd::E)?;
                    let (t, r, c, g) = (self.v(), self.v(), self.v(), self.v());
                    self.l(ind, &format!("{t} = adt.variant_is {a} {{tag = @S, type = !E}} : core.i1"));
                    self.l(ind, &format!("{r} = scf.if {t} : {A} {{"));
                    self.l(ind + 1, &format!("{c} = adt.variant_cast {a} {{tag = @S, type = !E}} : {A}"));
                    self.l(ind + 1, &format!("{g} = adt.variant_get {c} {{field = 0, tag = @S, type = !E}} : {A}"));
                    self.l(ind + 1, &format!("scf.yield {g}"));
                    self.l(ind, "} {");
                    if self.ch.flag() { let n = self.v(); self.l(ind + 1, &format!("{n} = adt.variant_new {{tag = @N, type = !E}} : {A}")); self.l(ind + 1, &format!("scf.yield {n}")); }
                    else { self.l(ind + 1, &format!("scf.yield {a}")); }
                    self.l(ind, "}");
                    sc.push((r, Kd::E));
                }
                St::Get => {
                    // build a pair and read a component back
                    let (a, b) = (self.arg(&sc, Kd::E)?, self.arg(&sc, Kd::E)?);
                    let (p, c, r) = (self.v(), self.v(), self.v());
                    let f = self.ch.pick(2);
                    self.l(ind, &format!("{p} = adt.variant_new {a}, {b} {{tag = @R, type = !E}} : {A}"));
                    self.l(ind, &format!("{c} = adt.variant_cast {p} {{tag = @R, type = !E}} : {A}"));
                    self.l(ind, &format!("{r} = adt.variant_get {c} {{field = {f}, tag = @R, type = !E}} : {A}"));
                    sc.push((r, Kd::E));
                }
                St::Call1 => { let f = *self.ch.of(&["id", "wrap", "twice", "kid"]); let a = self.arg(&sc, Kd::E)?; let r = self.v(); self.l(ind, &format!("{r} = func.call {a} {{callee = @{f}}} : {A}")); sc.push((r, Kd::E)); }
                St::Call2 => { let (a, b) = (self.arg(&sc, Kd::E)?, self.arg(&sc, Kd::E)?); let r = self.v(); self.l(ind, &format!("{r} = func.call {a}, {b} {{callee = @first}} : {A}")); sc.push((r, Kd::E)); }
                St::Show => { let a = self.arg(&sc, Kd::E)?; self.show(ind, &(a, Kd::E), &sc); }
                St::Tag => { let f = *self.ch.of(&["tag", "depth"]); let a = self.arg(&sc, Kd::E)?; let (t, u) = (self.v(), self.v()); self.l(ind, &format!("{t} = func.call {a} {{callee = @{f}}} : core.i32")); self.l(ind, &format!("{u} = func.call {t} {{callee = @__obs_i32}} : core.nil")); }
                St::Obs => { let i = self.int(ind); let u = self.v(); self.l(ind, &format!("{u} = func.call {i} {{callee = @__obs_i32}} : core.nil")); }
                St::Struct => {
                    let a = self.arg(&sc, Kd::E)?;
                    let r = self.v();
                    if self.ch.flag() { self.l(ind, &format!("{r} = func.call %i, {a} {{callee = @mkp}} : !P_1")); }
                    else { let i = self.int(ind); self.l(ind, &format!("{r} = adt.struct_new {i}, {a} {{type = !P}} : !P_1")); }
                    sc.push((r, Kd::P));
                }
                St::Field => {
                    let a = self.arg(&sc, Kd::P)?;
                    let r = self.v();
                    if self.ch.flag() { self.l(ind, &format!("{r} = func.call {a} {{callee = @getp}} : {A}")); }
                    else { self.l(ind, &format!("{r} = adt.struct_get {a} {{field = 1, type = !P}} : {A}")); }
                    sc.push((r, Kd::E));
                }
                St::Peek => {
                    // read a grandchild's scalar with no call in between
                    let (x, w, c, g, h, n, u) = (self.v(), self.v(), self.v(), self.v(), self.v(), self.v(), self.v());
                    let keep = self.ch.pick(5);
                    let from = if keep == 4 { "%a".to_string() } else {
                        let i = self.int(ind);
                        self.l(ind, &format!("{x} = adt.variant_new {i} {{tag = @I, type = !E}} : {A}"));
                        self.l(ind, &format!("{w} = adt.variant_new {x} {{tag = @S, type = !E}} : {A}"));
                        w.clone()
                    };
                    self.l(ind, &format!("{c} = adt.variant_cast {from} {{tag = @S, type = !E}} : {A}"));
                    self.l(ind, &format!("{g} = adt.variant_get {c} {{field = 0, tag = @S, type = !E}} : {A}"));
                    self.l(ind, &format!("{h} = adt.variant_cast {g} {{tag = @I, type = !E}} : {A}"));
                    self.l(ind, &format!("{n} = adt.variant_get {h} {{field = 0, tag = @I, type = !E}} : core.i32"));
                    self.l(ind, &format!("{u} = func.call {n} {{callee = @__obs_i32}} : core.nil"));
                    match keep { 1 => sc.push((x, Kd::E)), 2 => sc.push((w, Kd::E)), 3 | 4 => sc.push((g, Kd::E)), _ => {} }
                }
                St::HoldP | St::HoldF => {
                    let p = self.menu[k - 1] == St::HoldP;
                    let a = self.arg(&sc, if p { Kd::P } else { Kd::F })?;
                    let r = self.v();
                    self.l(ind, &format!("{r} = adt.variant_new {a} {{tag = @{}, type = !E}} : {A}", if p { "T" } else { "C" }));
                    sc.push((r, if self.ch.flag() { Kd::E } else if p { Kd::T } else { Kd::C }));
                }
                St::TakeP | St::TakeF => {
                    let p = self.menu[k - 1] == St::TakeP;
                    let t = if p { "T" } else { "C" };
                    let a = self.arg(&sc, if p { Kd::T } else { Kd::C })?;
                    let (c, r) = (self.v(), self.v());
                    self.l(ind, &format!("{c} = adt.variant_cast {a} {{tag = @{t}, type = !E}} : {A}"));
                    self.l(ind, &format!("{r} = adt.variant_get {c} {{field = 0, tag = @{t}, type = !E}} : {}", if p { "!P_1" } else { "!F" }));
                    sc.push((r, if p { Kd::P } else { Kd::F }));
                }
                St::Lam => {
                    let a = self.arg(&sc, Kd::E)?;
                    let (f, x, r) = (self.v(), self.v(), self.v());
                    match self.ch.pick(4) {
                        0 => { self.l(ind, &format!("{f} = closure.lambda({x}: {A}) -> {A} {{tribute.calling_convention = 0}} [{a}] {{")); self.l(ind + 1, &format!("{r} = adt.variant_new {x}, {a} {{tag = @R, type = !E}} : {A}")); }
                        1 => { self.l(ind, &format!("{f} = closure.lambda({x}: {A}) -> {A} {{tribute.calling_convention = 0}} [{a}] {{")); self.l(ind + 1, &format!("{r} = func.call {a} {{callee = @kid}} : {A}")); }
                        2 => { self.l(ind, &format!("{f} = closure.lambda({x}: {A}) -> {A} {{tribute.calling_convention = 0}} [] {{")); self.l(ind + 1, &format!("{r} = adt.variant_new {x} {{tag = @S, type = !E}} : {A}")); }
                        _ => { let b = self.v(); self.l(ind, &format!("{f} = closure.lambda({x}: {A}) -> {A} {{tribute.calling_convention = 0}} [%i, {a}] {{")); self.l(ind + 1, &format!("{b} = adt.variant_new %i {{tag = @I, type = !E}} : {A}")); self.l(ind + 1, &format!("{r} = adt.variant_new {b}, {a} {{tag = @R, type = !E}} : {A}")); }
                    }
                    self.l(ind + 1, &format!("func.return {r}"));
                    self.l(ind, "}");
                    sc.push((f, Kd::F));
                }
                St::Lam2 => {
                    // closures made inside closures: siblings, chains and conditional ones
                    let a = self.arg(&sc, Kd::E)?;
                    let (f, x, g, y, h, z, r, s, w) = (self.v(), self.v(), self.v(), self.v(), self.v(), self.v(), self.v(), self.v(), self.v());
                    let lam = |f: &str, x: &str, caps: &str| format!("{f} = closure.lambda({x}: {A}) -> {A} {{tribute.calling_convention = 0}} [{caps}] {{");
                    let call = |r: &str, f: &str, x: &str| format!("{r} = func.call_indirect {f}, {x} {{tribute.calling_convention = 0}} : {A}");
                    let pair = |r: &str, x: &str, y: &str| format!("{r} = adt.variant_new {x}, {y} {{tag = @R, type = !E}} : {A}");
                    let lines: Vec<(usize, String)> = match self.ch.pick(6) {
                        5 => vec![(0, format!("{h} = adt.variant_new %i {{tag = @I, type = !E}} : {A}")), (0, lam(&f, &x, &format!("{a}, %i, {h}, {a}, %c, %a"))), (1, format!("{w} = adt.variant_new %i {{tag = @I, type = !E}} : {A}")), (1, pair(&g, &a, "%a")), (1, pair(&y, &w, &h)), (1, pair(&z, &g, &y)), (1, format!("{s} = scf.if %c : {A} {{")), (2, pair(&r, &z, &x)), (2, format!("scf.yield {r}")), (1, "} {".into()), (2, format!("scf.yield {z}")), (1, "}".into()), (1, format!("func.return {s}")), (0, "}".into())],
                        0 => vec![(0, lam(&f, &x, &a)), (1, lam(&g, &y, &a)), (2, pair(&r, &y, &a)), (2, format!("func.return {r}")), (1, "}".into()), (1, call(&s, &g, &x)), (1, format!("func.return {s}")), (0, "}".into())],
                        1 => vec![(0, lam(&f, &x, &format!("%i, {a}"))), (1, lam(&g, &y, &format!("{x}, {a}, %i"))), (2, format!("{w} = adt.variant_new %i {{tag = @I, type = !E}} : {A}")), (2, pair(&z, &w, &x)), (2, pair(&r, &z, &y)), (2, format!("func.return {r}")), (1, "}".into()), (1, call(&s, &g, &a)), (1, format!("func.return {s}")), (0, "}".into())],
                        2 => vec![(0, lam(&f, &x, "")), (1, lam(&g, &y, &x)), (2, pair(&r, &x, &y)), (2, format!("func.return {r}")), (1, "}".into()), (1, lam(&h, &z, &g)), (2, call(&w, &g, &z)), (2, format!("func.return {w}")), (1, "}".into()), (1, call(&s, &h, &x)), (1, format!("func.return {s}")), (0, "}".into())],
                        3 => vec![(0, lam(&f, &x, &format!("%c, {a}"))), (1, format!("{h} = scf.if %c : {A} {{")), (2, lam(&g, &y, &a)), (3, pair(&r, &a, &y)), (3, format!("func.return {r}")), (2, "}".into()), (2, call(&s, &g, &x)), (2, format!("scf.yield {s}")), (1, "} {".into()), (2, format!("scf.yield {x}")), (1, "}".into()), (1, format!("func.return {h}")), (0, "}".into())],
                        _ => vec![(0, lam(&f, &x, &a)), (1, lam(&g, &y, &format!("{x}, {a}"))), (2, lam(&h, &z, &format!("{y}, {a}"))), (3, pair(&r, &y, &z)), (3, format!("func.return {r}")), (2, "}".into()), (2, call(&s, &h, &x)), (2, format!("func.return {s}")), (1, "}".into()), (1, call(&w, &g, &a)), (1, format!("func.return {w}")), (0, "}".into())],
                    };
                    for (d, t) in lines { self.l(ind + d, &t); }
                    sc.push((f, Kd::F));
                }
                St::PFlow => {
                    // a struct passed through a conditional, a recursive function, a closure's environment or a loop
                    let p = self.arg(&sc, Kd::P)?;
                    let (r, q, x, y, z) = (self.v(), self.v(), self.v(), self.v(), self.v());
                    match self.ch.pick(4) {
                        0 => {
                            self.l(ind, &format!("{r} = scf.if %c : !P_1 {{"));
                            self.l(ind + 1, &format!("scf.yield {p}"));
                            self.l(ind, "} {");
                            self.l(ind + 1, &format!("{q} = func.call %i, %a {{callee = @mkp}} : !P_1"));
                            self.l(ind + 1, &format!("scf.yield {q}"));
                            self.l(ind, "}");
                            sc.push((r, Kd::P));
                        }
                        1 => { self.l(ind, &format!("{r} = func.call %b, {p} {{callee = @back}} : !P_1")); sc.push((r, Kd::P)); }
                        2 => {
                            self.l(ind, &format!("{r} = closure.lambda({x}: {A}) -> {A} {{tribute.calling_convention = 0}} [{p}] {{"));
                            self.l(ind + 1, &format!("{y} = adt.struct_get {p} {{field = 1, type = !P}} : {A}"));
                            self.l(ind + 1, &format!("{z} = adt.variant_new {y}, {x} {{tag = @R, type = !E}} : {A}"));
                            self.l(ind + 1, &format!("func.return {z}"));
                            self.l(ind, "}");
                            self.l(ind, &format!("{q} = func.call_indirect {r}, %a {{tribute.calling_convention = 0}} : {A}"));
                            sc.push((q, Kd::E));
                        }
                        _ => {
                            self.l(ind, &format!("{q} = adt.struct_get {p} {{field = 0, type = !P}} : core.i32"));
                            self.l(ind, &format!("{x} = func.call {q} {{callee = @__obs_i32}} : core.nil"));
                            self.l(ind, &format!("{y} = adt.struct_get {p} {{field = 1, type = !P}} : {A}"));
                            self.l(ind, &format!("{r} = adt.struct_new {q}, {y} {{type = !P}} : !P_1"));
                            sc.push((r, Kd::P));
                        }
                    }
                }
                St::App3 => {
                    let (f, g, a) = (self.arg(&sc, Kd::F)?, self.arg(&sc, Kd::F)?, self.arg(&sc, Kd::E)?);
                    let r = self.v();
                    self.l(ind, &format!("{r} = func.call %i, {a}, {f}, {g} {{callee = @apply3}} : {A}"));
                    sc.push((r, Kd::E));
                }
                St::App => {
                    let (f, a) = (self.arg(&sc, Kd::F)?, self.arg(&sc, Kd::E)?);
                    let r = self.v();
                    if self.ch.flag() { self.l(ind, &format!("{r} = func.call {f}, {a} {{callee = @apply}} : {A}")); }
                    else { self.l(ind, &format!("{r} = func.call_indirect {f}, {a} {{tribute.calling_convention = 0}} : {A}")); }
                    sc.push((r, Kd::E));
                }
                St::Cons => {
                    let a = self.arg(&sc, Kd::E)?;
                    let r = self.v();
                    let t = match self.arg(&sc, Kd::L) { Some(t) => t, None => { let t = self.v(); self.l(ind, &format!("{t} = list.empty {{element_type = {A}}} : {A}")); t } };
                    self.l(ind, &format!("{r} = list.prepend {a}, {t} {{element_type = {A}}} : {A}"));
                    sc.push((r, Kd::L));
                }
                St::Head | St::Tail => {
                    let tail = self.menu[k - 1] == St::Tail;
                    let a = self.arg(&sc, Kd::L)?;
                    let (t, r, h, n) = (self.v(), self.v(), self.v(), self.v());
                    self.l(ind, &format!("{t} = list.is_empty {a} {{element_type = {A}}} : core.i1"));
                    self.l(ind, &format!("{r} = scf.if {t} : {A} {{"));
                    if tail { self.l(ind + 1, &format!("scf.yield {a}")); }
                    else { self.l(ind + 1, &format!("{n} = adt.variant_new {{tag = @N, type = !E}} : {A}")); self.l(ind + 1, &format!("scf.yield {n}")); }
                    self.l(ind, "} {");
                    self.l(ind + 1, &format!("{h} = list.{} {a} {{element_type = {A}}} : {A}", if tail { "tail" } else { "head" }));
                    self.l(ind + 1, &format!("scf.yield {h}"));
                    self.l(ind, "}");
                    sc.push((r, if tail { Kd::L } else { Kd::E }));
                }
                St::If => {
                    if depth == 0 { return None; }
                    let r = self.v();
                    self.l(ind, &format!("{r} = scf.if %c : {A} {{"));
                    for side in 0..2 {
                        let s = self.stmts(ind + 1, sc.clone(), depth - 1)?;
                        let y = self.arg(&s, Kd::E)?;
                        self.l(ind + 1, &format!("scf.yield {y}"));
                        self.l(ind, if side == 0 { "} {" } else { "}" });
                    }
                    sc.push((r, Kd::E));
                }
                St::Loop => {
                    // run the body twice, threading one value through
                    if depth == 0 { return None; }
                    let a = self.arg(&sc, Kd::E)?;
                    let (z, r, n, x) = (self.v(), self.v(), self.v(), self.v());
                    let (two, c, d, one, m) = (self.v(), self.v(), self.v(), self.v(), self.v());
                    // the counter travels inside a struct-free encoding: nested loop of two values
                    self.l(ind, &format!("{z} = arith.const {{value = 0}} : core.i32"));
                    self.l(ind, &format!("{r} = scf.loop {z}, {a} : {A} {{"));
                    self.l(ind, &format!("^bb0({n}: core.i32, {x}: {A}):"));
                    self.l(ind + 1, &format!("{two} = arith.const {{value = 2}} : core.i32"));
                    self.l(ind + 1, &format!("{c} = arith.cmpi {n}, {two} {{predicate = @sge}} : core.i1"));
                    self.l(ind + 1, &format!("{d} = scf.if {c} : core.i32 {{"));
                    self.l(ind + 2, &format!("scf.break {x}"));
                    self.l(ind + 1, "} {");
                    self.l(ind + 2, &format!("scf.yield {n}"));
                    self.l(ind + 1, "}");
                    self.l(ind + 1, &format!("{one} = arith.const {{value = 1}} : core.i32"));
                    self.l(ind + 1, &format!("{m} = arith.addi {d}, {one} : core.i32"));
                    let mut s = sc.clone();
                    s.push((x, Kd::E));
                    let s = self.stmts(ind + 1, s, depth - 1)?;
                    let y = self.arg(&s, Kd::E)?;
                    self.l(ind + 1, &format!("scf.continue {m}, {y}"));
                    self.l(ind, "}");
                    sc.push((r, Kd::E));
                }
            }
        }
    }
}
/// The body of one test function `(%i: i32, %a: anyref)`.
pub fn program(ch: &mut Ch, budget: usize, menu: &[St]) -> Option<String> {
    let mut g = G { ch, out: String::new(), next: 0, budget, menu, k: 40 };
    g.l(2, "%u = arith.const {value = unit} : core.nil");
    g.l(2, "%b1 = arith.const {value = 1} : core.i32");
    g.l(2, "%b = arith.and %i, %b1 : core.i32");
    g.l(2, "%c = arith.cmpi %b, %b1 {predicate = @eq} : core.i1");
    let sc = g.stmts(2, vec![("%a".into(), Kd::E)], 2)?;
    if sc.len() < 2 && budget > 0 { return None; }
    // what is still live at the end: the newest value only, or the parameter as well
    let last = sc[sc.len() - 1].clone();
    g.show(2, &last, &sc);
    if sc.len() > 1 && g.ch.flag() { g.show(2, &sc[sc.len() - 2].clone(), &sc); }
    g.l(2, "func.return %u");
    Some(g.out)
}
/// Control-flow skeletons over two long-lived values: where their last uses fall is all that varies.
/// Statements: use a, use p, rebuild p, if, loop (twice around), conditional break.
struct Flow<'a> { ch: &'a mut Ch, out: String, next: usize, budget: usize, bit: usize, uses: usize }
impl Flow<'_> {
    fn l(&mut self, ind: usize, s: &str) { self.out.push_str(&"  ".repeat(ind)); self.out.push_str(s); self.out.push('\n'); }
    fn v(&mut self) -> String { self.next += 1; format!("%v{}", self.next) }
    /// A fresh condition: one bit of the input plus the innermost loop's counter.
    fn cond(&mut self, ind: usize, n: &Option<String>) -> String {
        let (a, m, b, c) = (self.v(), self.v(), self.v(), self.v());
        let k = 1 << (self.bit % 3);
        self.bit += 1;
        match n { Some(n) => self.l(ind, &format!("{a} = arith.addi %i, {n} : core.i32")), None => self.l(ind, &format!("{a} = arith.addi %i, %zero : core.i32")) }
        self.l(ind, &format!("{m} = arith.const {{value = {k}}} : core.i32"));
        self.l(ind, &format!("{b} = arith.and {a}, {m} : core.i32"));
        self.l(ind, &format!("{c} = arith.cmpi {b}, {m} {{predicate = @eq}} : core.i1"));
        c
    }
    fn stmts(&mut self, ind: usize, p: String, n: Option<String>, depth: usize, top: bool) -> Option<()> {
        let mut p = p;
        loop {
            if self.budget == 0 { return Some(()); }
            let k = self.ch.pick(7);
            if k == 0 { return Some(()); }
            self.budget -= 1;
            match k {
                1 | 2 => { self.uses += 1; let (t, u) = (self.v(), self.v()); let x = if k == 1 { "%a".to_string() } else { p.clone() }; self.l(ind, &format!("{t} = func.call {x} {{callee = @tag}} : core.i32")); self.l(ind, &format!("{u} = func.call {t} {{callee = @__obs_i32}} : core.nil")); }
                3 => { let q = self.v(); self.l(ind, &format!("{q} = adt.variant_new {p} {{tag = @S, type = !E}} : tribute_rt.anyref")); p = q; }
                4 => {
                    if depth == 0 { return None; }
                    let c = self.cond(ind, &n);
                    let r = self.v();
                    self.l(ind, &format!("{r} = scf.if {c} : core.nil {{"));
                    let b0 = self.budget;
                    self.stmts(ind + 1, p.clone(), n.clone(), depth - 1, false)?;
                    if b0 == self.budget { return None; }
                    self.l(ind + 1, "scf.yield %u");
                    self.l(ind, "} {");
                    self.stmts(ind + 1, p.clone(), n.clone(), depth - 1, false)?;
                    self.l(ind + 1, "scf.yield %u");
                    self.l(ind, "}");
                }
                5 => {
                    if depth == 0 { return None; }
                    let (z, r, n2, two, c, d, one, m) = (self.v(), self.v(), self.v(), self.v(), self.v(), self.v(), self.v(), self.v());
                    self.l(ind, &format!("{z} = arith.const {{value = 0}} : core.i32"));
                    self.l(ind, &format!("{r} = scf.loop {z} : core.i32 {{"));
                    self.l(ind, &format!("^bb0({n2}: core.i32):"));
                    self.l(ind + 1, &format!("{two} = arith.const {{value = 2}} : core.i32"));
                    self.l(ind + 1, &format!("{c} = arith.cmpi {n2}, {two} {{predicate = @sge}} : core.i1"));
                    self.l(ind + 1, &format!("{d} = scf.if {c} : core.i32 {{"));
                    self.l(ind + 2, &format!("scf.break {n2}"));
                    self.l(ind + 1, "} {");
                    self.l(ind + 2, &format!("scf.yield {n2}"));
                    self.l(ind + 1, "}");
                    self.l(ind + 1, &format!("{one} = arith.const {{value = 1}} : core.i32"));
                    self.l(ind + 1, &format!("{m} = arith.addi {d}, {one} : core.i32"));
                    let b0 = self.budget;
                    self.stmts(ind + 1, p.clone(), Some(n2), depth - 1, true)?;
                    if b0 == self.budget { return None; }
                    self.l(ind + 1, &format!("scf.continue {m}"));
                    self.l(ind, "}");
                }
                _ => {
                    // leave the loop early; only directly in a loop body
                    if !top { return None; }
                    let n1 = n.clone()?;
                    let c = self.cond(ind, &n);
                    let d = self.v();
                    self.l(ind, &format!("{d} = scf.if {c} : core.i32 {{"));
                    self.l(ind + 1, &format!("scf.break {n1}"));
                    self.l(ind, "} {");
                    self.l(ind + 1, &format!("scf.yield {n1}"));
                    self.l(ind, "}");
                }
            }
        }
    }
}
pub fn flow_program(ch: &mut Ch, budget: usize) -> Option<String> {
    let mut g = Flow { ch, out: String::new(), next: 0, budget, bit: 0, uses: 0 };
    g.l(2, "%u = arith.const {value = unit} : core.nil");
    g.l(2, "%zero = arith.const {value = 0} : core.i32");
    g.l(2, "%p = adt.variant_new %a, %a {tag = @R, type = !E} : tribute_rt.anyref");
    g.stmts(2, "%p".into(), None, 3, false)?;
    // straight-line programs are covered elsewhere
    if g.uses == 0 || !(g.out.contains("scf.if") || g.out.contains("scf.loop")) { return None; }
    g.l(2, "func.return %u");
    Some(g.out)
}
/// A module calling every program for an even and an odd input. Odd-numbered programs are called
/// twice with the same argument (so they stay real calls), even-numbered ones once (so they may be
/// inlined into their caller).
pub fn module(progs: &[String], lists: bool, wasm: bool) -> String { module_for(progs, lists, wasm, 2) }
pub fn module_for(progs: &[String], lists: bool, wasm: bool, inputs: usize) -> String {
    let helpers = if wasm { HELPERS.replace(CLOSURE_FIELD, "") } else { HELPERS.to_string() };
    let mut t = format!("core.module @m {{\n{TYPES}{helpers}{}", if lists { LIST_HELPERS } else { "" });
    for (i, p) in progs.iter().enumerate() {
        t += &format!("  func.func @f{i}(%i: core.i32, %a: tribute_rt.anyref) -> core.nil {{\n{p}  }}\n");
        t += &format!("  func.func @w{i}(%i: core.i32) -> core.nil {{\n    %u = arith.const {{value = unit}} : core.nil\n    %k = arith.const {{value = 7}} : core.i32\n    %m0 = arith.const {{value = {}}} : core.i32\n", 1000 + i);
        // enough operations that the inliner leaves it alone
        for j in 0..16 { t += &format!("    %m{} = arith.xor %m{j}, %i : core.i32\n", j + 1); }
        t += "    %o = func.call %m16 {callee = @__obs_i32} : core.nil\n";
        t += "    %x = adt.variant_new %k {tag = @I, type = !E} : tribute_rt.anyref\n    %y = adt.variant_new %x {tag = @S, type = !E} : tribute_rt.anyref\n";
        for j in 0..1 + i % 2 { t += &format!("    %z{j} = func.call %i, %y {{callee = @f{i}}} : core.nil\n"); }
        t += "    func.return %u\n  }\n";
    }
    t += "  func.func @main() -> core.nil {\n    %u = arith.const {value = unit} : core.nil\n    %i = func.call {callee = @__in_i32} : core.i32\n    %one = arith.const {value = 1} : core.i32\n    %j = arith.addi %i, %one : core.i32\n";
    let mut vs = vec!["%i".to_string(), "%j".to_string()];
    for k in 2..inputs { t += &format!("    %j{k} = arith.addi {}, %one : core.i32\n", vs[k - 1]); vs.push(format!("%j{k}")); }
    for (r, v) in vs.iter().enumerate() { for i in 0..progs.len() { t += &format!("    %r{r}_{i} = func.call {v} {{callee = @w{i}}} : core.nil\n"); } }
    t += "    func.return %u\n  }\n}\n";
    t
}
pub fn reference(text: &str) -> Result<(Vec<String>, String), Violation> {
    let r = Ref::new(text)?;
    interp::outcome_fuel(&r.c, r.m.op(), "main", vec![], 2_000_000).map_err(|e| Violation { key: "generator".into(), detail: format!("reference: {e}\n{text}") })
}
pub fn compile(text: &str, o: NativeOpts, key: &str) -> Result<exec::Native, Violation> {
    match guard(|| pipe::compile_native(text, o).and_then(|b| exec::Native::load(&b))) {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => viol(format!("{key}:compile"), format!("the native pipeline rejects the program: {e}\n{text}")),
        Err(p) => viol(format!("{key}:panic"), format!("the native pipeline panics: {p}\n{text}")),
    }
}
fn at(w: &[String], g: &[String]) -> String {
    let i = w.iter().zip(g).take_while(|(a, b)| a == b).count();
    let mark = w[..i.min(w.len())].iter().rev().find_map(|s| s.strip_prefix("i32:[").and_then(|s| s.strip_suffix(":i32]")).and_then(|s| s.parse::<i64>().ok()).filter(|x| (1000..2000).contains(x))).unwrap_or(1000) - 1000;
    format!("in @f{mark}: expected {:?}, got {:?}", &w[i.min(w.len())..(i + 6).min(w.len())], &g[i.min(g.len())..(i + 6).min(g.len())])
}
pub fn native_case(text: &str, policies: &[u32], key: &str, st: &Stats) -> CaseResult {
    let want = reference(text)?;
    for p in policies {
        let n = compile(text, NativeOpts::from_bits(*p), key)?;
        let r = n.call("main", &[]).map_err(|e| Violation { key: format!("{key}:symbol"), detail: e })?;
        st.traces(1);
        st.transitions(r.trace.len() as u64);
        let what = format!("policies borrowed={} temporary={} paired={}", p & 1, p >> 1 & 1, p >> 2 & 1);
        if !r.heap_err.is_empty() { return viol(format!("{key}:heap"), format!("{what}: {} {}\n{text}", r.heap_err, at(&want.0, &r.trace))); }
        if r.sig != 0 { return viol(format!("{key}:signal{}", r.sig), format!("{what}: native code ends with signal {} {}\n{text}", r.sig, at(&want.0, &r.trace))); }
        if (key == "reclaim" || key == "pairs") && !r.leaked.is_empty() { return viol(format!("{key}:leak"), format!("{what}: {} of {} objects never freed {}\n{text}", r.leaked.len(), r.allocs, at(&want.0, &want.0))); }
        if r.trace != want.0 { return viol(format!("{key}:differs"), format!("{what}: {}\n{text}", at(&want.0, &r.trace))); }
    }
    Ok(())
}
pub fn wasm_case(text: &str, key: &str, st: &Stats) -> CaseResult {
    let want = reference(text)?;
    let wt = crate::props::wasm::prepare(text, &[]);
    let b = match guard(|| pipe::compile_wasm(&wt)) {
        Ok(Ok(n)) => n,
        Ok(Err(e)) => return viol(format!("{key}:compile"), format!("the WebAssembly pipeline rejects the program: {e}\n{wt}")),
        Err(p) => return viol(format!("{key}:panic"), format!("the WebAssembly pipeline panics: {p}\n{wt}")),
    };
    let q = [Call { f: "main".into(), args: vec![], limit: 8000, fresh: true, writes: vec![] }];
    let g = match wexec::run(&b, &q) { Err(e) => panic!("{e}"), Ok(Err(e)) => return viol(format!("{key}:invalid"), format!("the emitted module is invalid: {e}\n{wt}")), Ok(Ok(g)) => g };
    st.traces(1);
    st.transitions(g[0].trace.len() as u64);
    if !g[0].end.starts_with('r') || g[0].trace != want.0 { return viol(format!("{key}:differs"), format!("WebAssembly ends with {:?} {}\n{wt}", g[0].end, at(&want.0, &g[0].trace))); }
    Ok(())
}
// ---------------------------------------------------------------- layouts
const FT: [&str; 6] = ["i32", "anyref", "i64", "f64", "i1", "f32"];
fn ft(k: usize) -> String { if k == 1 { "tribute_rt.anyref".into() } else { format!("core.{}", FT[k]) } }
/// Every field list of at most `n` fields over the first `k` field types.
fn field_lists(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n { let mut nx = vec![]; for l in &last { for j in 0..k { let mut m: Vec<usize> = l.clone(); m.push(j); nx.push(m); } } out.extend(nx.iter().cloned()); last = nx; }
    out
}
/// Define fresh values for the fields; returns (text, operands).
fn field_vals(tag: &str, fs: &[usize], seed: i64) -> (String, String) {
    let (mut t, mut ops) = (String::new(), vec![]);
    for (j, f) in fs.iter().enumerate() {
        let (v, k) = (format!("%{tag}{j}"), seed * 16 + j as i64 + 1);
        match f {
            1 => { t += &format!("    {v}i = arith.const {{value = {k}}} : core.i32\n    {v} = adt.variant_new {v}i {{tag = @I, type = !E}} : tribute_rt.anyref\n"); }
            2 => { t += &format!("    {v} = arith.const {{value = {}}} : core.i64\n", k * 0x1_0000_0001); }
            3 => { t += &format!("    {v} = arith.const {{value = {k}.5}} : core.f64\n"); }
            4 => { t += &format!("    {v}k = arith.const {{value = {}}} : core.i32\n    {v} = arith.cmpi {v}k, %one {{predicate = @eq}} : core.i1\n", k & 1); }
            5 => { t += &format!("    {v} = arith.const {{value = {k}.25}} : core.f32\n"); }
            _ => { t += &format!("    {v} = arith.const {{value = {}}} : core.i32\n", -k); }
        }
        ops.push(v);
    }
    (t, ops.join(", "))
}
fn field_obs(tag: &str, fs: &[usize], read: impl Fn(usize) -> String, ind: &str) -> String {
    fs.iter().enumerate().map(|(j, f)| {
        let v = format!("%{tag}g{j}");
        let show = match f { 1 => "show".into(), 4 => "obs_i1x".into(), _ => format!("__obs_{}", FT[*f]) };
        format!("{ind}{v} = {} : {}\n{ind}%{tag}o{j} = func.call {v} {{callee = @{show}}} : core.nil\n", read(j), ft(*f))
    }).collect()
}
/// One module: each case builds every variant of an enum (or one struct), then takes all of them apart.
fn layout_module(cases: &[(Vec<Vec<usize>>, bool)]) -> String {
    let mut ty = TYPES.to_string();
    let mut fs = String::new();
    for (c, (vs, is_struct)) in cases.iter().enumerate() {
        let list = |v: &Vec<usize>| v.iter().map(|f| ft(*f)).collect::<Vec<_>>().join(", ");
        let mut body = String::from("    %u = arith.const {value = unit} : core.nil\n    %one = arith.const {value = 1} : core.i32\n");
        body += &format!("    %m = arith.const {{value = {}}} : core.i32\n    %om = func.call %m {{callee = @__obs_i32}} : core.nil\n", 1000 + c);
        if *is_struct {
            ty += &format!("  !L{c} = adt.struct() {{fields = [{}], name = @L{c}}}\n  !L{c}_1 = adt.typeref() {{name = @L{c}}}\n", vs[0].iter().enumerate().map(|(j, f)| format!("[@f{j}, {}]", ft(*f))).collect::<Vec<_>>().join(", "));
            for k in 0..2 {
                let (t, ops) = field_vals(&format!("a{k}x"), &vs[0], 1 + k);
                body += &t;
                body += &format!("    %s{k} = adt.struct_new {ops}{}{{type = !L{c}}} : !L{c}_1\n", if ops.is_empty() { "" } else { " " });
            }
            // taken apart here, by a recursive function it is passed to, and again once returned
            for k in 0..2 { body += &field_obs(&format!("s{k}"), &vs[0], |j| format!("adt.struct_get %s{k} {{field = {j}, type = !L{c}}}"), "    "); }
            for k in 0..2 { body += &format!("    %t{k} = func.call %one, %s{k} {{callee = @o{c}}} : !L{c}_1\n"); }
            for k in 0..2 { body += &field_obs(&format!("t{k}"), &vs[0], |j| format!("adt.struct_get %t{k} {{field = {j}, type = !L{c}}}"), "    "); }
            let o = field_obs("e", &vs[0], |j| format!("adt.struct_get %e {{field = {j}, type = !L{c}}}"), "    ");
            fs += &format!("  func.func @o{c}(%n: core.i32, %e: !L{c}_1) -> !L{c}_1 {{\n{o}    %z = arith.const {{value = 0}} : core.i32\n    %one = arith.const {{value = 1}} : core.i32\n    %b = arith.cmpi %n, %z {{predicate = @eq}} : core.i1\n    %r = scf.if %b : !L{c}_1 {{\n      scf.yield %e\n    }} {{\n      %m = arith.subi %n, %one : core.i32\n      %q = func.call %m, %e {{callee = @o{c}}} : !L{c}_1\n      scf.yield %q\n    }}\n    func.return %r\n  }}\n");
        } else {
            ty += &format!("  !L{c} = adt.enum() {{name = @L{c}, variants = [{}]}}\n", vs.iter().enumerate().map(|(k, v)| format!("[@V{k}, [{}]]", list(v))).collect::<Vec<_>>().join(", "));
            for (k, v) in vs.iter().enumerate() {
                let (t, ops) = field_vals(&format!("a{k}x"), v, 1 + k as i64);
                body += &t;
                body += &format!("    %s{k} = adt.variant_new {ops}{}{{tag = @V{k}, type = !L{c}}} : tribute_rt.anyref\n", if ops.is_empty() { "" } else { " " });
            }
            for k in 0..vs.len() { body += &format!("    %r{k} = func.call %s{k} {{callee = @o{c}}} : core.nil\n"); }
            let mut o = String::from("    %u = arith.const {value = unit} : core.nil\n");
            for (k, v) in vs.iter().enumerate() {
                o += &format!("    %t{k} = adt.variant_is %e {{tag = @V{k}, type = !L{c}}} : core.i1\n    %q{k} = scf.if %t{k} : core.nil {{\n      %k{k} = arith.const {{value = {}}} : core.i32\n      %z{k} = func.call %k{k} {{callee = @__obs_i32}} : core.nil\n      %c{k} = adt.variant_cast %e {{tag = @V{k}, type = !L{c}}} : tribute_rt.anyref\n", -100 - k as i64);
                o += &field_obs(&format!("v{k}"), v, |j| format!("adt.variant_get %c{k} {{field = {j}, tag = @V{k}, type = !L{c}}}"), "      ");
                o += "      scf.yield %u\n    } {\n      scf.yield %u\n    }\n";
            }
            fs += &format!("  func.func @o{c}(%e: tribute_rt.anyref) -> core.nil {{\n{o}    func.return %u\n  }}\n");
        }
        fs += &format!("  func.func @l{c}() -> core.nil {{\n{body}    func.return %u\n  }}\n");
    }
    let mut t = format!("core.module @m {{\n{ty}{}", HELPERS.replace(CLOSURE_FIELD, ""));
    for n in ["i64", "f32"] { t += &format!("  func.func @__obs_{n}(%0: core.{n}) -> core.nil attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}\n"); }
    t += "  func.func @obs_i1x(%b: core.i1) -> core.nil {\n    %u = arith.const {value = unit} : core.nil\n    %r = scf.if %b : core.i32 {\n      %k = arith.const {value = -201} : core.i32\n      scf.yield %k\n    } {\n      %k = arith.const {value = -200} : core.i32\n      scf.yield %k\n    }\n    %o = func.call %r {callee = @__obs_i32} : core.nil\n    func.return %u\n  }\n";
    t += &fs;
    t += "  func.func @main() -> core.nil {\n    %u = arith.const {value = unit} : core.nil\n";
    for c in 0..cases.len() { t += &format!("    %r{c} = func.call {{callee = @l{c}}} : core.nil\n"); }
    t + "    func.return %u\n  }\n}\n"
}
fn layout_cases(thorough: bool) -> Vec<(Vec<Vec<usize>>, bool)> {
    let mut v = vec![];
    for s in field_lists(if thorough { 4 } else { 3 }, 6) { v.push((vec![s], true)); }
    let l = field_lists(2, 6);
    for a in &l { for b in &l { v.push((vec![a.clone(), b.clone()], false)); } }
    // one long variant before and after a short one, and three variants of different shapes
    for a in field_lists(3, if thorough { 6 } else { 4 }).into_iter().filter(|a| a.len() == 3) { for b in field_lists(if thorough { 2 } else { 1 }, 6) { v.push((vec![a.clone(), b.clone()], false)); v.push((vec![b, a.clone()], false)); } }
    let s = field_lists(1, if thorough { 6 } else { 4 });
    for a in &s { for b in &s { for c in &s { v.push((vec![a.clone(), b.clone(), c.clone()], false)); v.push((vec![a.clone(), b.clone(), vec![0, 1], c.clone()], false)); } } }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Mode { Native, Wasm, Rc, Reclaim }
fn build(tier: Tier, mode: Mode) -> Vec<Space<'static>> {
    use St::*;
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    if mode != Mode::Reclaim {
        // one compile of eight inputs per program: how values die along every path
        let budget = if t { 6 } else { 5 };
        let g = move |ch: &mut Ch| flow_program(ch, budget);
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        let bt = 40;
        let text = move |cs: &[Box<[u8]>], i: usize| module_for(&cs[i * bt..((i + 1) * bt).min(cs.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>(), false, mode == Mode::Wasm, 8);
        v.push(Space { name: "flow", n: cases.len().div_ceil(bt), rule: format!("two long-lived values used along conditionals, loops and early exits nested three deep: every program with at most {budget} statements, on all eight inputs, {bt} to a module ({} programs)", cases.len()),
            run: Box::new(move |i, st| {
                let m = text(&cases, i);
                for k in &cases[i * bt..((i + 1) * bt).min(cases.len())] { st.state_str(&format!("flow{k:?}")); st.nontrivial(1); }
                match mode { Mode::Native => native_case(&m, &[7], "flow", st), Mode::Wasm => wasm_case(&m, "flow", st), _ => native_case(&m, if t { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 7] }, "flow", st) }
            }),
            describe: Box::new(move |i| text(&c2, i)), limit: 90 });
    }
    if mode != Mode::Reclaim {
        let cases = std::rc::Rc::new(layout_cases(t));
        let c2 = cases.clone();
        let bt = 32;
        v.push(Space { name: "layout", n: cases.len().div_ceil(bt), rule: format!("every enum and struct shape over i32, i64, f32, f64, i1 and reference fields within the listed sizes, every variant built and taken apart, {bt} to a module ({} types)", cases.len()),
            run: Box::new(move |i, st| {
                let cs = &cases[i * bt..((i + 1) * bt).min(cases.len())];
                let m = layout_module(cs);
                for k in cs { st.state_str(&format!("layout{k:?}")); st.nontrivial(1); }
                match mode { Mode::Native => native_case(&m, &[7], "layout", st), Mode::Wasm => wasm_case(&m, "layout", st), _ => native_case(&m, &[0], "layout", st) }
            }),
            describe: Box::new(move |i| layout_module(&c2[i * bt..((i + 1) * bt).min(c2.len())])), limit: 90 });
    }
    let mut prog = |name: &'static str, rule: &str, budget: usize, menu: &'static [St]| {
        let lists = menu.contains(&Cons);
        // no WebAssembly lowering: lists, and loops carrying more than one value
        if mode == Mode::Wasm && (lists || menu.contains(&Loop) || menu.contains(&HoldF)) { return; }
        let g = move |ch: &mut Ch| program(ch, budget, menu);
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        let bt = 40;
        let text = move |cs: &[Box<[u8]>], i: usize| module(&cs[i * bt..((i + 1) * bt).min(cs.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>(), lists, mode == Mode::Wasm);
        let n = cases.len().div_ceil(bt);
        v.push(Space { name, n, rule: format!("{rule}: every program with at most {budget} statements and nesting depth 2, {bt} to a module ({} programs)", cases.len()),
            run: Box::new(move |i, st| {
                let m = text(&cases, i);
                for k in &cases[i * bt..((i + 1) * bt).min(cases.len())] { st.state_str(&format!("{name}{k:?}")); st.nontrivial(1); }
                match mode { Mode::Native => native_case(&m, &[7], name, st), Mode::Rc | Mode::Reclaim => native_case(&m, if t || budget < 3 { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 4] }, name, st), Mode::Wasm => wasm_case(&m, name, st) }
            }),
            describe: Box::new(move |i| text(&c2, i)), limit: 90 });
    };
    let b = if t { 4 } else { 3 };
    if mode == Mode::Reclaim {
        prog("pairs", "managed values in straight-line code, all eight RC policies", 2, &[LeafI, Wrap, Pair, Get, Call2, Peek, CallS, Quad, Show]);
        prog("reclaim", "managed values in straight-line code", b, &[LeafI, Wrap, Pair, Get, Call2, Peek, CallS, Quad, Show]);
        let _ = prog;
        return v;
    }
    if mode == Mode::Rc && !t {
        prog("all", "every kind of value, under all eight combinations of the RC policies", 2, &[Leaf, Wrap, Pair, Kid, Call1, Show, Bx, Quad, Get, Call2, Tag, If, Loop, Struct, Field, Lam, App, Cons, Head, Tail]);
    }
    prog("data", "enum values built, matched, passed and shown", b, &[Leaf, Wrap, Pair, Kid, Call1, Show]);
    prog("fields", "nested values with scalar, float and boxed fields", b, &[Bx, Quad, Get, Call2, Tag]);
    prog("branch", "values flowing through conditionals", b, &[If, Wrap, Kid, Call1]);
    prog("loop", "values carried around loops", b, &[Loop, If, Pair, Kid]);
    prog("struct", "structs and their fields", b, &[Struct, Field, Wrap, Call2, If]);
    prog("pflow", "structs passed through conditionals, calls and closures", b, &[Struct, PFlow, Field, If]);
    prog("closure", "closures capturing values", b, &[Lam, App, Wrap, If]);
    prog("nested", "closures made inside closures", if mode == Mode::Rc && !t { 2 } else { 3 }, &[Lam2, App, App3, Lam]);
    prog("hold", "structs and closures held by enum values", b, &[Struct, HoldP, TakeP, Field, Show]);
    prog("holdf", "closures held by enum values", b, &[Lam, HoldF, TakeF, App, Show]);
    prog("peek", "children read in place", b, &[Peek, Wrap, Get, If]);
    prog("list", "lists", b, &[Cons, Head, Tail, Wrap, If]);
    let _ = prog;
    v
}
pub fn native_spaces(tier: Tier) -> Vec<Space<'static>> { build(tier, Mode::Native) }
pub fn wasm_spaces(tier: Tier) -> Vec<Space<'static>> { build(tier, Mode::Wasm) }
pub fn rc_spaces(tier: Tier) -> Vec<Space<'static>> { build(tier, Mode::Rc) }

pub fn reclaim_spaces(tier: Tier) -> Vec<Space<'static>> { build(tier, Mode::Reclaim) }
