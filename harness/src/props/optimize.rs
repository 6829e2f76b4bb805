//! C04: the optimisation and control-flow lowering passes preserve behaviour.
use crate::engine::*;
use crate::gener::{self as gener, Ch};
use crate::interp::{self, V};
use trunk_ir::rewrite::Module;
use trunk_ir::transforms::{canonicalize, dce, global_dce, inline, scf_to_cf};
use trunk_ir::*;

pub const PRELUDE: &str = "  func.func @__obs_i32(%0: core.i32) -> core.nil attributes {abi = \"C\"} {\n    func.unreachable\n  }\n";

/// Bounded generator of structured programs.
pub struct G<'a> {
    pub ch: &'a mut Ch,
    pub out: String,
    pub next: usize,
    pub marks: i64,
    pub budget: usize,
    pub menu: &'a [St],
    /// helper functions callable from the body
    pub callees: &'a [&'a str],
    pub conds: &'a [&'a str],
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Add, If, Loop, Switch, Call, VoidIf }
impl G<'_> {
    fn line(&mut self, ind: usize, s: &str) { self.out.push_str(&" ".repeat(ind * 2)); self.out.push_str(s); self.out.push('\n'); }
    fn fresh(&mut self) -> String { self.next += 1; format!("%v{}", self.next) }
    pub fn mark(&mut self, ind: usize) {
        self.marks += 1;
        let (k, u) = (self.fresh(), self.fresh());
        let m = 100 + self.marks;
        self.line(ind, &format!("{k} = arith.const {{value = {m}}} : core.i32"));
        self.line(ind, &format!("{u} = func.call {k} {{callee = @__obs_i32}} : core.nil"));
    }
    fn obs(&mut self, ind: usize, v: &str) {
        let u = self.fresh();
        self.line(ind, &format!("{u} = func.call {v} {{callee = @__obs_i32}} : core.nil"));
    }
    /// Statements of a block; returns the visible i32 values, newest last.
    fn stmts(&mut self, ind: usize, mut sc: Vec<String>, looping: bool, depth: usize) -> Option<Vec<String>> {
        loop {
            if self.budget == 0 { return Some(sc); }
            let k = self.ch.pick(self.menu.len() + 1);
            if k == 0 { return Some(sc); }
            self.budget -= 1;
            let a = sc[sc.len() - 1].clone();
            let b = sc[sc.len().saturating_sub(2)].clone();
            match self.menu[k - 1] {
                St::Add => {
                    let (c, r) = (self.fresh(), self.fresh());
                    self.line(ind, &format!("{c} = arith.const {{value = 1}} : core.i32"));
                    let o = *self.ch.of(&["addi", "muli"]);
                    self.line(ind, &format!("{r} = arith.{o} {a}, {c} : core.i32"));
                    sc.push(r);
                }
                St::Call => {
                    let f = *self.ch.of(self.callees);
                    let r = self.fresh();
                    let v = if a != b && self.ch.flag() { b } else { a };
                    self.line(ind, &format!("{r} = func.call {v} {{callee = @{f}}} : core.i32"));
                    sc.push(r);
                }
                St::If => {
                    if depth == 0 { return None; }
                    let cond = self.cond(ind);
                    let r = self.fresh();
                    self.line(ind, &format!("{r} = scf.if {cond} : core.i32 {{"));
                    self.region(ind + 1, sc.clone(), looping, depth - 1)?;
                    self.line(ind, "} {");
                    self.region(ind + 1, sc.clone(), looping, depth - 1)?;
                    self.line(ind, "}");
                    sc.push(r);
                }
                St::VoidIf => {
                    if depth == 0 { return None; }
                    let cond = self.cond(ind);
                    let r = self.fresh();
                    self.line(ind, &format!("{r} = scf.if {cond} : core.nil {{"));
                    for side in 0..2 {
                        self.mark(ind + 1);
                        let s2 = self.stmts(ind + 1, sc.clone(), looping, depth - 1)?;
                        self.obs(ind + 1, &s2[s2.len() - 1].clone());
                        let n = self.fresh();
                        self.line(ind + 1, &format!("{n} = arith.const {{value = unit}} : core.nil"));
                        self.line(ind + 1, &format!("scf.yield {n}"));
                        self.line(ind, if side == 0 { "} {" } else { "}" });
                    }
                }
                St::Loop => {
                    if depth == 0 { return None; }
                    let (r, i) = (self.fresh(), self.fresh());
                    self.line(ind, &format!("{r} = scf.loop {a} : core.i32 {{"));
                    self.line(ind, &format!("^bb0({i}: core.i32):"));
                    // leave once the counter reaches 3, otherwise run the body
                    let (k, c) = (self.fresh(), self.fresh());
                    self.line(ind + 1, &format!("{k} = arith.const {{value = 3}} : core.i32"));
                    self.line(ind + 1, &format!("{c} = arith.cmpi {i}, {k} {{predicate = @sge}} : core.i1"));
                    let t = self.fresh();
                    self.line(ind + 1, &format!("{t} = scf.if {c} : core.i32 {{"));
                    self.line(ind + 2, &format!("scf.break {i}"));
                    self.line(ind + 1, "} {");
                    self.line(ind + 2, &format!("scf.yield {i}"));
                    self.line(ind + 1, "}");
                    let (one, nx) = (self.fresh(), self.fresh());
                    self.line(ind + 1, &format!("{one} = arith.const {{value = 1}} : core.i32"));
                    self.line(ind + 1, &format!("{nx} = arith.addi {t}, {one} : core.i32"));
                    let mut s = sc.clone();
                    s.push(nx.clone());
                    self.mark(ind + 1);
                    let s2 = self.stmts(ind + 1, s, true, depth - 1)?;
                    let v = s2[s2.len() - 1].clone();
                    match self.ch.pick(2) {
                        0 => self.line(ind + 1, &format!("scf.continue {nx}")),
                        _ => self.line(ind + 1, &format!("scf.break {v}")),
                    }
                    self.line(ind, "}");
                    sc.push(r);
                }
                St::Switch => {
                    if depth == 0 { return None; }
                    let shape = self.ch.pick(3);
                    self.line(ind, &format!("scf.switch {a} {{"));
                    let cases: &[i32] = match shape { 0 => &[0, 1], 1 => &[1], _ => &[] };
                    for c in cases {
                        self.line(ind + 1, &format!("scf.case {{value = {c}}} {{"));
                        self.sw_region(ind + 2, sc.clone(), looping, depth - 1)?;
                        self.line(ind + 1, "}");
                    }
                    if shape != 1 {
                        self.line(ind + 1, "scf.default {");
                        self.sw_region(ind + 2, sc.clone(), looping, depth - 1)?;
                        self.line(ind + 1, "}");
                    }
                    self.line(ind, "}");
                }
            }
        }
    }
    fn cond(&mut self, ind: usize) -> String {
        let c = *self.ch.of(self.conds);
        if c.starts_with('%') { return c.into(); }
        let k = self.fresh();
        self.line(ind, &format!("{k} = arith.const {{value = {c}}} : core.i1"));
        k
    }
    fn sw_region(&mut self, ind: usize, sc: Vec<String>, looping: bool, depth: usize) -> Option<()> {
        self.mark(ind);
        let s = self.stmts(ind, sc, looping, depth)?;
        let v = s[s.len() - 1].clone();
        self.obs(ind, &v);
        match self.ch.pick(if looping { 2 } else { 1 }) {
            0 => self.line(ind, "scf.yield"),
            _ => self.line(ind, &format!("scf.break {v}")),
        }
        Some(())
    }
    fn region(&mut self, ind: usize, sc: Vec<String>, looping: bool, depth: usize) -> Option<()> {
        self.mark(ind);
        let s = self.stmts(ind, sc, looping, depth)?;
        let v = s[s.len() - 1].clone();
        let w = s[s.len().saturating_sub(2)].clone();
        match self.ch.pick(if looping { 4 } else { 2 }) {
            0 => self.line(ind, &format!("scf.yield {v}")),
            1 => { if v == w { return None; } self.line(ind, &format!("scf.yield {w}")) }
            2 => self.line(ind, &format!("scf.break {v}")),
            _ => {
                // progress is guaranteed by the counter guard only when the counter grows
                let (k, n) = (self.fresh(), self.fresh());
                self.line(ind, &format!("{k} = arith.const {{value = 2}} : core.i32"));
                self.line(ind, &format!("{n} = arith.addi {v}, {k} : core.i32"));
                self.line(ind, &format!("scf.continue {n}"))
            }
        }
        Some(())
    }
    pub fn func(&mut self, name: &str, tail: bool) -> Option<()> {
        self.line(1, &format!("func.func @{name}(%c: core.i1, %d: core.i1, %x: core.i32) -> core.i32 {{"));
        let sc = self.stmts(2, vec!["%x".into()], false, 3)?;
        let v = sc[sc.len() - 1].clone();
        match if tail { self.ch.pick(1 + self.callees.len()) } else { 0 } {
            0 => self.line(2, &format!("func.return {v}")),
            k => { let f = self.callees[k - 1]; self.line(2, &format!("func.tail_call {v} {{callee = @{f}}}")) }
        }
        self.line(1, "}");
        Some(())
    }
}

/// Helper functions: a leaf, one with control flow, one that tail-calls, a tail-recursive one,
/// a recursive one and one that is also used as a value.
pub const HELPERS: &str = r#"  func.func @leaf(%x: core.i32) -> core.i32 {
    %k = arith.const {value = 7} : core.i32
    %r = arith.muli %x, %k : core.i32
    %u = func.call %r {callee = @__obs_i32} : core.nil
    func.return %r
  }
  func.func @branch(%x: core.i32) -> core.i32 {
    %k = arith.const {value = 1} : core.i32
    %c = arith.cmpi %x, %k {predicate = @sgt} : core.i1
    %r = scf.if %c : core.i32 {
      %u = func.call %x {callee = @__obs_i32} : core.nil
      %p = func.call %x {callee = @leaf} : core.i32
      scf.yield %p
    } {
      %q = arith.subi %k, %x : core.i32
      scf.yield %q
    }
    func.return %r
  }
  func.func @tailer(%x: core.i32) -> core.i32 {
    %k = arith.const {value = 2} : core.i32
    %r = arith.addi %x, %k : core.i32
    func.tail_call %r {callee = @branch}
  }
  func.func @down(%x: core.i32) -> core.i32 {
    %k = arith.const {value = 1} : core.i32
    %c = arith.cmpi %x, %k {predicate = @slt} : core.i1
    %u = func.call %x {callee = @__obs_i32} : core.nil
    %r = scf.if %c : core.i32 {
      scf.yield %x
    } {
      %y = arith.subi %x, %k : core.i32
      %z = func.call %y {callee = @down} : core.i32
      %w = arith.addi %z, %k : core.i32
      scf.yield %w
    }
    func.return %r
  }
  func.func @valued(%x: core.i32) -> core.i32 {
    %f = func.constant {func_ref = @leaf} : core.func(core.i32, core.i32)
    %r = func.call_indirect %f, %x : core.i32
    func.return %r
  }
"#;

pub fn program(ch: &mut Ch, budget: usize, menu: &[St], callees: &[&str], conds: &[&str], tail: bool) -> Option<String> {
    let mut g = G { ch, out: String::new(), next: 0, marks: 0, budget, menu, callees, conds };
    g.func("f", tail)?;
    Some(format!("core.module @m {{\n{PRELUDE}{HELPERS}{}}}\n", g.out))
}

pub fn parse(text: &str) -> Result<(IrContext, Module), Violation> {
    let mut c = IrContext::new();
    match trunk_ir::parser::parse_module(&mut c, text) {
        Ok(op) => { let m = Module::new(&c, op).unwrap(); Ok((c, m)) }
        Err(e) => Err(Violation { key: "generator".into(), detail: format!("generated program does not parse: {e:?}\n{text}") }),
    }
}

pub const PASSES: &[&str] = &["canonicalize", "dce", "inline", "inline0", "inline-big", "scf-to-cf", "global-dce", "all", "cleanup-first"];
pub fn apply(c: &mut IrContext, m: Module, p: &str) {
    let mut inl = |c: &mut IrContext, cfg: inline::InlineConfig| trunk_ir::analysis::AnalysisCache::scope(c, |c, a| { inline::inline_functions_with_config(c, m, cfg, a); });
    match p {
        "canonicalize" => { let _ = canonicalize::canonicalize(c, m); }
        "dce" => { dce::eliminate_dead_code(c, m, Default::default()); }
        "inline" => inl(c, Default::default()),
        "inline0" => inl(c, inline::InlineConfig { size_threshold: 0, always_inline_single_call_site: true, inline_across_func_constant: false }),
        "inline-big" => inl(c, inline::InlineConfig { size_threshold: 1000, always_inline_single_call_site: false, inline_across_func_constant: true }),
        "scf-to-cf" => scf_to_cf::lower_scf_to_cf(c, m),
        "global-dce" => { global_dce::eliminate_dead_functions_with_config(c, m, global_dce::GlobalDceConfig { extra_entry_points: vec!["f".to_string()], ..Default::default() }); }
        "all" => { for p in ["inline", "global-dce", "canonicalize", "dce", "scf-to-cf"] { apply(c, m, p) } }
        "cleanup-first" => { for p in ["canonicalize", "dce", "inline-big", "canonicalize", "scf-to-cf", "dce"] { apply(c, m, p) } }
        _ => unreachable!(),
    }
}

pub fn inputs() -> Vec<Vec<V>> {
    let mut v = vec![];
    for c in 0..2 { for d in 0..2 { for x in 0..3u64 { v.push(vec![V::I(c, 1), V::I(d, 1), V::I(x, 32)]); } } }
    v
}

/// The reference is cut off after 1500 steps and the transformed program after 8000; when the
/// reference was cut off, the two runs must agree on their common prefix of observations.
fn same(w: &(Vec<String>, String), g: &(Vec<String>, String)) -> bool {
    if w.1 == "diverge" { let n = w.0.len().min(g.0.len()); (g.0.len() >= w.0.len() || g.1 == "diverge") && w.0[..n] == g.0[..n] } else { w == g }
}

fn check_prog(text: &str, st: &Stats) -> CaseResult {
    let (c0, m0) = parse(text)?;
    let ins = inputs();
    let mut want = vec![];
    for i in &ins {
        match interp::outcome_fuel(&c0, m0.op(), "f", i.clone(), 1500) {
            Ok(o) => want.push(o),
            Err(e) => return viol("generator", format!("reference cannot run the program: {e}\n{text}")),
        }
    }
    for p in PASSES {
        let (mut c, m) = parse(text)?;
        apply(&mut c, m, p);
        st.transitions(1);
        let r = validation::validate_use_chains(&c, m);
        if !r.is_ok() { return viol(format!("{p}:use-chains"), format!("{}\n{text}", r.errors[0])); }
        let r = validation::validate_value_integrity(&c, m);
        if !r.is_ok() { return viol(format!("{p}:integrity"), format!("{}\n{text}", r.errors[0])); }
        if matches!(*p, "scf-to-cf" | "all" | "cleanup-first") {
            let t = printer::print_module(&c, m.op());
            if t.contains("scf.") { return viol(format!("{p}:residual"), format!("structured operations remain\n{t}")); }
        }
        for (i, w) in ins.iter().zip(&want) {
            match interp::outcome_fuel(&c, m.op(), "f", i.clone(), 8000) {
                Err(e) => return viol(format!("{p}:ill-formed"), format!("after {p}, f{i:?}: {e}\n{text}\n--- after\n{}", printer::print_module(&c, m.op()))),
                Ok(g) => if !same(w, &g) { return viol(format!("{p}:behaviour"), format!("{p} changes f{i:?}: expected {w:?}, got {g:?}\n{text}\n--- after\n{}", printer::print_module(&c, m.op()))) },
            }
            st.traces(1);
        }
    }
    if want.iter().any(|w| w.0.len() > 1) { st.nontrivial(1); }
    st.state_str(text);
    Ok(())
}

const INT_OPS: &[&str] = &["addi", "subi", "muli", "divsi", "divui", "remsi", "remui", "and", "or", "xor", "shl", "shr", "shru"];
fn consts(w: u32) -> Vec<i128> {
    let m = 1i128 << (w - 1);
    let mut v = vec![0, 1, -1, 2, -2, 3, 5, -7, m - 1, -m, -m + 1, m / 2];
    v.retain(|x| *x >= -m && *x < m);
    v.sort();
    v.dedup();
    v
}

/// One folding site: `a op b` where each side is a constant or a parameter, at every width.
fn fold_case(w: u32, op: &str, a: Option<i128>, b: Option<i128>, st: &Stats) -> CaseResult {
    let mut body = String::new();
    for (n, k) in [("a", a), ("b", b)] { if let Some(k) = k { body += &format!("    %{n}k = arith.const {{value = {k}}} : core.i{w}\n"); } }
    let an = if a.is_some() { "%ak" } else { "%x" };
    let bn = if b.is_some() { "%bk" } else { "%y" };
    let text = format!("core.module @m {{\n  func.func @f(%x: core.i{w}, %y: core.i{w}) -> core.i{w} {{\n{body}    %r = arith.{op} {an}, {bn} : core.i{w}\n    func.return %r\n  }}\n}}\n");
    let (c0, m0) = parse(&text)?;
    let (mut c1, m1) = parse(&text)?;
    apply(&mut c1, m1, "canonicalize");
    st.transitions(1);
    let xs = if a.is_some() { vec![0] } else { consts(w) };
    let ys = if b.is_some() { vec![0] } else { consts(w) };
    for x in &xs { for y in &ys {
        let args = vec![V::I(interp::mask(*x as u64, w), w), V::I(interp::mask(*y as u64, w), w)];
        let p = interp::outcome(&c0, m0.op(), "f", args.clone());
        let q = interp::outcome(&c1, m1.op(), "f", args.clone());
        st.traces(1);
        if p != q { return viol(format!("fold:{op}"), format!("folding changes f{args:?}: {p:?} -> {q:?}\n{text}\n{}", printer::print_module(&c1, m1.op()))); }
    } }
    st.nontrivial(1);
    st.state_str(&text);
    Ok(())
}
/// Chains of two operations sharing constants: r = (x op1 k1) op2 k2 and k2 op2 (k1 op1 x).
fn chain_case(op1: &str, op2: &str, k1: i128, k2: i128, shape: usize, st: &Stats) -> CaseResult {
    let (l1, r1) = if shape & 1 == 0 { ("%x", "%k1") } else { ("%k1", "%x") };
    let (l2, r2) = match shape >> 1 { 0 => ("%t", "%k2"), 1 => ("%k2", "%t"), _ => ("%t", "%t") };
    let text = format!("core.module @m {{\n  func.func @f(%x: core.i32) -> core.i32 {{\n    %k1 = arith.const {{value = {k1}}} : core.i32\n    %k2 = arith.const {{value = {k2}}} : core.i32\n    %t = arith.{op1} {l1}, {r1} : core.i32\n    %r = arith.{op2} {l2}, {r2} : core.i32\n    func.return %r\n  }}\n}}\n");
    let (c0, m0) = parse(&text)?;
    let (mut c1, m1) = parse(&text)?;
    apply(&mut c1, m1, "canonicalize");
    st.transitions(1);
    for x in consts(32) {
        let args = vec![V::I(interp::mask(x as u64, 32), 32)];
        let p = interp::outcome(&c0, m0.op(), "f", args.clone());
        let q = interp::outcome(&c1, m1.op(), "f", args.clone());
        st.traces(1);
        if p != q { return viol(format!("chain:{op1}:{op2}"), format!("folding changes f{args:?}: {p:?} -> {q:?}\n{text}\n{}", printer::print_module(&c1, m1.op()))); }
    }
    st.nontrivial(1);
    st.state_str(&text);
    Ok(())
}

/// Which pure operations dead-code removal may delete: an unused operation of every registered
/// kind next to a used one and an observable call; only the unused pure one may go.
fn dce_case(i: usize, st: &Stats) -> CaseResult {
    // (line producing %p, pure?)
    const OPS: &[(&str, bool)] = &[
        ("%p = arith.addi %x, %x : core.i32", true),
        ("%p = arith.const {value = 3} : core.i32", true),
        ("%p = arith.cmpi %x, %x {predicate = @eq} : core.i1", true),
        ("%p = func.constant {func_ref = @leaf} : core.func(core.i32, core.i32)", true),
        ("%p = func.call %x {callee = @leaf} : core.i32", false),
        ("%p = func.call %x {callee = @__obs_i32} : core.nil", false),
        ("%p = func.call_indirect %g, %x : core.i32", false),
        ("%p = scf.if %c : core.i32 {\n scf.yield %x\n } {\n %q = func.call %x {callee = @leaf} : core.i32\n scf.yield %q\n }", false),
        ("%p = scf.loop %x : core.i32 {\n ^bb0(%i: core.i32):\n %q = func.call %i {callee = @leaf} : core.i32\n scf.break %q\n }", false),
    ];
    let n = OPS.len();
    let (a, b, pos, wrap) = (i % n, (i / n) % n, (i / n / n) % 3, i / n / n / 3);
    let la = OPS[a].0.replace("%p", "%pa").replace("%q", "%qa").replace("%i:", "%ia:").replace("%i ", "%ia ");
    let lb = OPS[b].0.replace("%p", "%pb").replace("%q", "%qb").replace("%i:", "%ib:").replace("%i ", "%ib ");
    let use_a = if pos == 1 { Some("%pa") } else if pos == 2 { Some("%pb") } else { None };
    let ty = |k: usize| match k { 2 => "core.i1", 3 => "core.func(core.i32, core.i32)", 5 => "core.nil", _ => "core.i32" };
    // a used value is returned through a struct so that every type can be kept alive
    let (ret, rty) = match use_a { Some(v) => (v, ty(if pos == 1 { a } else { b })), None => ("%x", "core.i32") };
    let inner = format!("    %g = func.constant {{func_ref = @leaf}} : core.func(core.i32, core.i32)\n    {la}\n    {lb}\n");
    let text = if wrap == 0 {
        format!("core.module @m {{\n{PRELUDE}{HELPERS}  func.func @f(%c: core.i1, %d: core.i1, %x: core.i32) -> {rty} {{\n{inner}    func.return {ret}\n  }}\n}}\n")
    } else {
        format!("core.module @m {{\n{PRELUDE}{HELPERS}  func.func @f(%c: core.i1, %d: core.i1, %x: core.i32) -> {rty} {{\n    %w = scf.if %d : {rty} {{\n{inner}    scf.yield {ret}\n    }} {{\n    func.unreachable\n    }}\n    func.return %w\n  }}\n}}\n")
    };
    let text = if wrap == 1 { text.replace("    func.unreachable\n    }\n    func.return %w", "    scf.yield %alt\n    }\n    func.return %w").replace("    %w = scf.if", &format!("    {}\n    %w = scf.if", match rty { "core.i1" => "%alt = arith.const {value = true} : core.i1".to_string(), "core.nil" => "%alt = arith.const {value = unit} : core.nil".into(), "core.i32" => "%alt = arith.const {value = 9} : core.i32".into(), t => format!("%alt = func.constant {{func_ref = @down}} : {t}") })) } else { text };
    check_prog(&text, st)?;
    // completeness: no unused pure operation survives
    let (mut c, m) = parse(&text)?;
    apply(&mut c, m, "dce");
    let f = crate::props::optimize::find(&c, m, "f");
    let mut left = vec![];
    walk(&c, f, &mut |o| {
        let d = c.op(o);
        let nm = format!("{}.{}", d.dialect, d.name);
        if matches!(nm.as_str(), "arith.addi" | "arith.const" | "arith.cmpi" | "func.constant") && c.op_results(o).iter().all(|r| !c.has_uses(*r)) { left.push(nm); }
    });
    if !left.is_empty() { return viol("dce:incomplete", format!("unused {left:?} survive\n{}", printer::print_module(&c, m.op()))); }
    Ok(())
}
/// Dead-code removal under every budget: four pure operations spread over a chain of blocks or a
/// nested region, each using an earlier one or nothing, each observed or not.
fn dce_budget_case(i: usize, st: &Stats) -> CaseResult {
    use crate::ir::*;
    let mut k = i;
    let mut take = |n: usize| { let d = k % n; k /= n; d };
    let shape = take(3); // 0 one block, 1 a chain of blocks, 2 wrapped in a nested region
    let max = [0usize, 1, 2, 3, 7][take(5)];
    let recursive = take(2) == 0;
    let observed: Vec<bool> = (0..4).map(|_| take(2) == 1).collect();
    let dep: Vec<usize> = (1..4).map(|j| take(j + 1)).collect(); // 0 none, d uses op d-1
    let mut c = IrContext::new();
    let i32t = ty(&mut c, "core", "i32");
    let nil = ty(&mut c, "core", "nil");
    let body: Vec<BlockRef> = (0..if shape == 1 { 4 } else { 1 }).map(|_| block(&mut c, &[])).collect();
    let obs = block(&mut c, &[]);
    let mut ops: Vec<OpRef> = vec![];
    for j in 0..4 {
        let b = body[j.min(body.len() - 1)];
        let d = if j == 0 { 0 } else { dep[j - 1] };
        let o = if d == 0 { OpB::new("arith", "const").attr("value", Attribute::Int(j as i128)).res(&[i32t]).push(&mut c, b) } else { let v = c.op_results(ops[d - 1])[0]; OpB::new("arith", "addi").opnd(&[v, v]).res(&[i32t]).push(&mut c, b) };
        ops.push(o);
    }
    let end = if shape == 1 { obs } else { body[0] };
    for j in 0..4 { if observed[j] { let v = c.op_results(ops[j])[0]; OpB::new("t", "observe").opnd(&[v]).push(&mut c, end); } }
    let fin = |c: &mut IrContext, b: BlockRef| { let u = OpB::new("arith", "const").res(&[nil]).attr("value", Attribute::Unit).push(c, b); let u = c.op_results(u)[0]; OpB::new("func", "return").opnd(&[u]).push(c, b); };
    let r = match shape {
        1 => { let mut bs = body.clone(); bs.push(obs); for w in 0..4 { OpB::new("cf", "br").suc(&[bs[w + 1]]).push(&mut c, bs[w]); } fin(&mut c, obs); region(&mut c, &bs) }
        2 => { let inner = region(&mut c, &[body[0]]); let e = block(&mut c, &[]); OpB::new("t", "wrap").reg(inner).push(&mut c, e); fin(&mut c, e); region(&mut c, &[e]) }
        _ => { fin(&mut c, body[0]); region(&mut c, &[body[0]]) }
    };
    let f = func(&mut c, "f", nil, &[], r).build(&mut c);
    let mo = module(&mut c, "m", &[f]);
    let m = Module::new(&c, mo).expect("module");
    let mut live = observed.clone();
    for j in (1..4).rev() { if live[j] && dep[j - 1] > 0 { live[dep[j - 1] - 1] = true; } }
    let present = |c: &IrContext| -> Vec<bool> { let mut s = std::collections::HashSet::new(); walk(c, mo, &mut |o| { s.insert(o); }); ops.iter().map(|o| s.contains(o)).collect() };
    let res = dce::eliminate_dead_code(&mut c, m, dce::DceConfig { max_iterations: max, recursive });
    st.transitions(1);
    st.traces(1);
    st.state_str(&format!("{i}"));
    let now = present(&c);
    let gone = now.iter().filter(|x| !**x).count();
    let what = format!("shape {shape}, budget {max}, recursive {recursive}, observed {observed:?}, uses {dep:?}");
    for j in 0..4 { if live[j] && !now[j] { return viol("dce:removed-live", format!("operation {j} is used but was removed: {what}")); } }
    if res.removed_count != gone { return viol("dce:count", format!("reports {} removed, {gone} are gone: {what}", res.removed_count)); }
    let cap = if max == 0 { 100 } else { max };
    if res.iterations > cap || (!res.reached_fixpoint && res.iterations != cap) { return viol("dce:budget", format!("{} sweeps with a budget of {cap}, fixpoint {}: {what}", res.iterations, res.reached_fixpoint)); }
    if !recursive && gone != 0 { return viol("dce:recursive", format!("a non-recursive run over the module changed a function body: {what}")); }
    if recursive {
        if max == 0 && !res.reached_fixpoint { return viol("dce:fixpoint", format!("no fixpoint although unbounded: {what}")); }
        if res.reached_fixpoint { for j in 0..4 { if !live[j] && now[j] { return viol("dce:incomplete", format!("fixpoint reported, dead operation {j} left: {what}")); } } }
        if gone > 0 { st.nontrivial(1); }
    }
    let again = dce::eliminate_dead_code(&mut c, m, dce::DceConfig { max_iterations: 1, recursive });
    if res.reached_fixpoint && again.removed_count != 0 { return viol("dce:fixpoint", format!("fixpoint reported, another sweep removes {}: {what}", again.removed_count)); }
    let v = trunk_ir::validation::validate_all(&c, m);
    if !v.is_ok() { return viol("dce:invalid", format!("{v}: {what}")); }
    Ok(())
}
pub fn walk(c: &IrContext, op: OpRef, f: &mut dyn FnMut(OpRef)) {
    f(op);
    for r in &c.op(op).regions { for b in &c.region(*r).blocks { for o in &c.block(*b).ops { walk(c, *o, f); } } }
}
pub fn find(c: &IrContext, m: Module, name: &str) -> OpRef {
    m.ops(c).into_iter().find(|o| c.op(*o).attributes.get_symbol("sym_name").map(|s| s.to_string()) == Some(name.into())).unwrap()
}

/// How a condition may be written: a parameter, a literal, or one boolean operation or comparison over them.
fn conds() -> Vec<String> {
    let atoms = ["%c", "%d", "kt", "kf", "k0", "k1", "km"];
    let lit = |a: &str, n: &str| match a { "kt" => format!("%{n} = arith.const {{value = true}} : core.i1\n"), "kf" => format!("%{n} = arith.const {{value = false}} : core.i1\n"), "k0" => format!("%{n} = arith.const {{value = 0}} : core.i1\n"), "k1" => format!("%{n} = arith.const {{value = 1}} : core.i1\n"), "km" => format!("%{n} = arith.const {{value = -1}} : core.i1\n"), _ => String::new() };
    let name = |a: &str, n: &str| if a.starts_with('k') { format!("%{n}") } else { a.to_string() };
    let mut v = vec![];
    for a in atoms { v.push(format!("{}%id = arith.const {{value = 0}} : core.i32\n@{}", lit(a, "p"), name(a, "p"))); }
    for a in atoms { for b in atoms {
        for op in ["and", "or", "xor", "addi", "subi", "muli"] { v.push(format!("{}{}%q = arith.{op} {}, {} : core.i1\n@%q", lit(a, "p"), lit(b, "r"), name(a, "p"), name(b, "r"))); }
        for pr in ["eq", "ne"] { v.push(format!("{}{}%q = arith.cmpi {}, {} {{predicate = @{pr}}} : core.i1\n@%q", lit(a, "p"), lit(b, "r"), name(a, "p"), name(b, "r"))); }
    } }
    for x in [0i64, 1, -1, 2147483647, -2147483648] { for y in [0i64, 1, -1, 2147483647, -2147483648] { for pr in ["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"] {
        v.push(format!("%p = arith.const {{value = {x}}} : core.i32\n%r = arith.const {{value = {y}}} : core.i32\n%q = arith.cmpi %p, %r {{predicate = @{pr}}} : core.i1\n@%q"));
    } } }
    v
}
/// What is decided by the condition: a valued or unit conditional, one nested in itself, or a loop's exit.
const COND_SHAPES: &[&str] = &[
    "%w = scf.if @ : core.i32 {\n%m1 = arith.const {value = 11} : core.i32\n%o1 = func.call %m1 {callee = @__obs_i32} : core.nil\nscf.yield %m1\n} {\n%m2 = arith.const {value = 22} : core.i32\nscf.yield %m2\n}\n",
    "%un = arith.const {value = unit} : core.nil\n%w0 = scf.if @ : core.nil {\nscf.yield %un\n} {\n%o1 = func.call %x {callee = @__obs_i32} : core.nil\nscf.yield %un\n}\n%w = arith.addi %x, %x : core.i32\n",
    "%w = scf.if @ : core.i32 {\n%w1 = scf.if @ : core.i32 {\nscf.yield %x\n} {\n%m1 = arith.const {value = 11} : core.i32\n%o1 = func.call %m1 {callee = @__obs_i32} : core.nil\nscf.yield %m1\n}\nscf.yield %w1\n} {\n%w2 = scf.if @ : core.i32 {\n%m2 = arith.const {value = 22} : core.i32\n%o2 = func.call %m2 {callee = @__obs_i32} : core.nil\nscf.yield %m2\n} {\n%m3 = arith.const {value = 33} : core.i32\nscf.yield %m3\n}\nscf.yield %w2\n}\n",
    "%w = scf.loop %x : core.i32 {\n^bb0(%i: core.i32):\n%o1 = func.call %i {callee = @__obs_i32} : core.nil\n%w0 = scf.if @ : core.i32 {\nscf.break %i\n} {\nscf.yield %i\n}\n%k9 = arith.const {value = 1} : core.i32\n%j = arith.addi %w0, %k9 : core.i32\n%l = arith.const {value = 4} : core.i32\n%e = arith.cmpi %j, %l {predicate = @sge} : core.i1\n%w3 = scf.if %e : core.i32 {\nscf.break %j\n} {\nscf.yield %j\n}\nscf.continue %w3\n}\n",
];
fn cond_text(c: &str, s: usize) -> String {
    let (defs, name) = c.rsplit_once('@').unwrap();
    let body = COND_SHAPES[s].replace("if @", &format!("if {name}"));
    format!("core.module @m {{\n{PRELUDE}{HELPERS}  func.func @f(%c: core.i1, %d: core.i1, %x: core.i32) -> core.i32 {{\n{defs}{body}func.return %w\n  }}\n}}\n")
}
pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let mut v: Vec<Space> = vec![];
    let mut prog = |name: &'static str, rule: &str, budget: usize, menu: &'static [St], callees: &'static [&'static str], conds: &'static [&'static str], tail: bool| {
        let g = move |ch: &mut Ch| program(ch, budget, menu, callees, conds, tail);
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        v.push(Space {
            name, n: cases.len(), rule: format!("{rule}; every program with at most {budget} statements, nesting depth 3, all 12 inputs, {} pass schedules", PASSES.len()),
            run: Box::new(move |i, st| check_prog(&gener::replay(&cases[i], g), st)),
            describe: Box::new(move |i| gener::replay(&c2[i], g)), limit: 60,
        });
    };
    use St::*;
    let t = tier == Tier::Thorough;
    prog("if", "conditionals with constant and variable conditions, arithmetic", if t { 4 } else { 3 }, &[If, Add], &["leaf"], &["%c", "%d", "1", "0"], false);
    prog("loop", "loops with break/continue at every depth, conditionals", if t { 4 } else { 3 }, &[Loop, If, Add], &["leaf"], &["%c", "1"], false);
    prog("switch", "switches with and without default inside conditionals and loops", if t { 4 } else { 3 }, &[Switch, If, Loop], &["leaf"], &["%c"], false);
    prog("call", "direct, indirect, tail and recursive calls in conditionals", if t { 4 } else { 3 }, &[Call, If], &["leaf", "branch", "tailer", "down", "valued"], &["%c"], true);
    prog("void", "unit-valued conditionals, calls", if t { 4 } else { 3 }, &[VoidIf, Call, Add], &["branch", "leaf"], &["%c", "0"], true);
    let _ = prog;
    // constant folding
    let mut folds: Vec<(u32, &'static str, Option<i128>, Option<i128>)> = vec![];
    for w in [1u32, 8, 16, 32, 64] { for op in INT_OPS {
        if w == 1 && !matches!(*op, "and" | "or" | "xor" | "addi" | "subi" | "muli") { continue; }
        for a in consts(w) { for b in consts(w) { folds.push((w, op, Some(a), Some(b))); } folds.push((w, op, Some(a), None)); folds.push((w, op, None, Some(a))); }
    } }
    let f2 = folds.clone();
    v.push(Space { name: "fold", n: folds.len(), rule: "every integer operation at every width on every pair of boundary constants, and constant-parameter pairs over all boundary arguments".into(),
        run: Box::new(move |i, st| { let (w, o, a, b) = folds[i]; fold_case(w, o, a, b, st) }), describe: Box::new(move |i| format!("{:?}", f2[i])), limit: 30 });
    let mut ch: Vec<(&'static str, &'static str, i128, i128, usize)> = vec![];
    let ks: &[i128] = if t { &[0, 1, -1, 2, -2147483648, 2147483647] } else { &[0, 1, -1, -2147483648] };
    for a in INT_OPS { for b in INT_OPS { for k1 in ks { for k2 in ks { for s in 0..6 { ch.push((a, b, *k1, *k2, s)); } } } } }
    let ch2 = ch.clone();
    v.push(Space { name: "chain", n: ch.len(), rule: "every pair of chained integer operations over boundary constants in every operand order".into(),
        run: Box::new(move |i, st| { let (a, b, k, l, s) = ch[i]; chain_case(a, b, k, l, s, st) }), describe: Box::new(move |i| format!("{:?}", ch2[i])), limit: 30 });
    let cs = std::rc::Rc::new(conds());
    let cs2 = cs.clone();
    let k = COND_SHAPES.len();
    v.push(Space { name: "cond", n: cs.len() * k, rule: "conditions written as parameters, literals (true, false, 0, 1, -1) and every boolean operation or comparison over two of them, deciding a valued, unit or nested conditional or a loop's exit, under every pass schedule".into(),
        run: Box::new(move |i, st| check_prog(&cond_text(&cs[i / k], i % k), st)), describe: Box::new(move |i| cond_text(&cs2[i / k], i % k)), limit: 60 });
    v.push(Space { name: "dead", n: 9 * 9 * 3 * 2, rule: "every pair of pure and effectful operations, either or neither used, at top level and nested".into(), run: Box::new(dce_case), describe: Box::new(|i| format!("case {i}")), limit: 30 });
    v.push(Space { name: "dead-budget", n: 3 * 5 * 2 * 16 * 24, rule: "dead-code removal with every sweep budget and nesting option on every four-operation use graph, in one block, a chain of blocks and a nested region".into(), run: Box::new(dce_budget_case), describe: Box::new(|i| format!("case {i}")), limit: 30 });
    v
}
