//! C14: programs with ability operations and handlers, lowered in the shape the front end produces
//! (closures, legacy ability operations), compiled by the production native pipeline and executed;
//! compared with a direct-style definition of effect handlers.
use crate::engine::*;
use crate::gener::{self, Ch};
use crate::pipe::NativeOpts;
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

// ---------------------------------------------------------------- source language
#[derive(Clone, Debug)]
pub enum D { K(i32), V(usize), Add(Box<D>, Box<D>), Mul(Box<D>, Box<D>) }
#[derive(Clone, Debug)]
pub enum C {
    Ret(D),
    /// general operation of ability `.0`
    Perform(usize, usize, Vec<D>),
    /// tail-resumptive operation (declared `fn`)
    CallOp(usize, usize, Vec<D>),
    Call(usize, D),
    Resume(D),
    Handle(Box<H>),
    If(D, Box<C>, Box<C>),
    Let(Box<C>, Box<C>),
    Obs(D, Box<C>),
}
#[derive(Clone, Debug)]
pub struct H { pub body: C, pub done: Option<C>, pub arms: Vec<Arm> }
#[derive(Clone, Debug)]
pub struct Arm { pub ab: usize, pub op: usize, pub tail: bool, pub nargs: usize, pub body: C }
#[derive(Clone, Debug)]
pub struct Prog { pub fns: Vec<C>, pub main: H }

fn fmt(x: i32) -> String { format!("i32:[{}:i32]", x as u32) }
fn k(n: i32) -> D { D::K(n) }
fn v(n: usize) -> D { D::V(n) }
fn add(a: D, b: D) -> D { D::Add(Box::new(a), Box::new(b)) }
fn mul(a: D, b: D) -> D { D::Mul(Box::new(a), Box::new(b)) }
fn let_(a: C, b: C) -> C { C::Let(Box::new(a), Box::new(b)) }
fn obs(a: D, b: C) -> C { C::Obs(a, Box::new(b)) }

// ---------------------------------------------------------------- meaning
enum R { Val(i32), Op { ab: usize, op: usize, args: Vec<i32>, k: Box<dyn FnOnce(i32) -> R> } }
type Rez = Option<Rc<RefCell<Option<Box<dyn FnOnce(i32) -> R>>>>>;
#[derive(Clone)]
struct Env { vars: Rc<Vec<i32>>, rez: Rez }
#[derive(Clone)]
struct World { log: Rc<RefCell<Vec<String>>>, fns: Rc<Vec<C>> }

impl Env {
    fn with(&self, xs: &[i32]) -> Env { let mut v = (*self.vars).clone(); v.extend_from_slice(xs); Env { vars: Rc::new(v), rez: self.rez.clone() } }
    fn d(&self, d: &D) -> i32 {
        match d {
            D::K(n) => *n,
            D::V(i) => self.vars[*i],
            D::Add(a, b) => self.d(a).wrapping_add(self.d(b)),
            D::Mul(a, b) => self.d(a).wrapping_mul(self.d(b)),
        }
    }
}
fn bind(r: R, f: Box<dyn FnOnce(i32) -> R>) -> R {
    match r {
        R::Val(v) => f(v),
        R::Op { ab, op, args, k } => R::Op { ab, op, args, k: Box::new(move |v| bind(k(v), f)) },
    }
}
fn eval(w: &World, c: &C, e: &Env) -> R {
    match c {
        C::Ret(d) => R::Val(e.d(d)),
        C::Perform(ab, op, args) | C::CallOp(ab, op, args) =>
            R::Op { ab: *ab, op: *op, args: args.iter().map(|a| e.d(a)).collect(), k: Box::new(R::Val) },
        C::Call(f, d) => eval(w, &w.fns[*f].clone(), &Env { vars: Rc::new(vec![e.d(d)]), rez: None }),
        C::Resume(d) => { let f = e.rez.as_ref().unwrap().borrow_mut().take().expect("one-shot"); f(e.d(d)) }
        C::Handle(h) => { let r = eval(w, &h.body, &Env { vars: e.vars.clone(), rez: e.rez.clone() }); handle(w, h, e, r) }
        C::If(c, a, b) => if e.d(c) > 0 { eval(w, a, e) } else { eval(w, b, e) },
        C::Let(a, b) => { let (w2, b, e2) = (w.clone(), b.clone(), e.clone()); bind(eval(w, a, e), Box::new(move |x| eval(&w2, &b, &e2.with(&[x])))) }
        C::Obs(d, b) => { w.log.borrow_mut().push(fmt(e.d(d))); eval(w, b, e) }
    }
}
fn handle(w: &World, h: &H, e: &Env, r: R) -> R {
    match r {
        R::Val(x) => match &h.done { Some(d) => eval(w, d, &e.with(&[x])), None => R::Val(x) },
        R::Op { ab, op, args, k } => {
            let (w2, h2, e2) = (w.clone(), h.clone(), e.clone());
            let k2: Box<dyn FnOnce(i32) -> R> = Box::new(move |x| handle(&w2, &h2, &e2, k(x)));
            match h.arms.iter().find(|a| a.ab == ab && a.op == op) {
                Some(a) if a.tail => { let mut e3 = e.with(&args); e3.rez = None; bind(eval(w, &a.body, &e3), k2) }
                Some(a) => { let mut e3 = e.with(&args); e3.rez = Some(Rc::new(RefCell::new(Some(k2)))); eval(w, &a.body, &e3) }
                None => R::Op { ab, op, args, k: k2 },
            }
        }
    }
}
pub fn meaning(p: &Prog) -> Result<Vec<String>, String> {
    let w = World { log: Default::default(), fns: Rc::new(p.fns.clone()) };
    let e = Env { vars: Rc::new(vec![]), rez: None };
    let r = eval(&w, &p.main.body, &e);
    match handle(&w, &p.main, &e, r) {
        R::Val(x) => { let mut l = w.log.borrow().clone(); l.push(fmt(x)); Ok(l) }
        R::Op { ab, op, .. } => Err(format!("unhandled {ab}.{op}")),
    }
}

// ---------------------------------------------------------------- front-end shaped lowering
const ABN: [&str; 3] = ["State", "Exn", "Read"];
const OPN: [&str; 3] = ["get", "set", "ask"];
const ANY: &str = "tribute_rt.anyref";
const CL: &str = "closure.closure(core.func(tribute_rt.anyref, tribute_rt.anyref))";

struct Em { n: usize, tags: usize }
#[derive(Clone)]
struct Sc { vars: Vec<String>, owner: Option<String>, rez: Option<String>, ev: Option<String>, /// inside a tail-resumptive arm nested handles are closed as source values
    close: bool, base: usize }
/// a continuation or value: SSA name and whether it is typed as a closure already
#[derive(Clone)]
struct K { name: String, closure: bool }

fn direct(c: &C, close: bool) -> bool {
    match c {
        C::Ret(_) | C::CallOp(..) => true,
        C::Perform(..) | C::Call(..) | C::Resume(_) => false,
        C::Handle(_) => close,
        C::If(_, a, b) | C::Let(a, b) => direct(a, close) && direct(b, close),
        C::Obs(_, b) => direct(b, close),
    }
}
fn op_idx(ab: usize, op: usize) -> u32 {
    tribute_ir::dialect::ability::compute_op_idx(Some(trunk_ir::Symbol::from_dynamic(ABN[ab])), Some(trunk_ir::Symbol::from_dynamic(OPN[op])))
}
fn aref(ab: usize) -> String { format!("core.ability_ref() {{name = @{}}}", ABN[ab]) }

impl Em {
    fn f(&mut self) -> String { self.n += 1; format!("%x{}", self.n) }
    fn d(&mut self, o: &mut String, d: &D, s: &Sc) -> String {
        match d {
            D::V(i) => s.vars[*i].clone(),
            D::K(n) => { let r = self.f(); writeln!(o, "{r} = arith.const {{value = {n}}} : core.i32").unwrap(); r }
            D::Add(a, b) | D::Mul(a, b) => {
                let (x, y) = (self.d(o, a, s), self.d(o, b, s));
                let r = self.f();
                writeln!(o, "{r} = arith.{} {x}, {y} : core.i32", if matches!(d, D::Add(..)) { "addi" } else { "muli" }).unwrap();
                r
            }
        }
    }
    fn cast(&mut self, o: &mut String, x: &str, t: &str) -> String { let r = self.f(); writeln!(o, "{r} = core.unrealized_conversion_cast {x} : {t}").unwrap(); r }
    fn invoke_any(&mut self, o: &mut String, k: &K, x: &str) -> String {
        let kc = if k.closure { k.name.clone() } else { self.cast(o, &k.name, CL) };
        let r = self.f();
        writeln!(o, "{r} = func.call_indirect {kc}, {x} : {ANY}").unwrap();
        r
    }
    fn invoke(&mut self, o: &mut String, k: &K, x: &str) -> String {
        let kc = if k.closure { k.name.clone() } else { self.cast(o, &k.name, CL) };
        let a = self.cast(o, x, ANY);
        let r = self.f();
        writeln!(o, "{r} = func.call_indirect {kc}, {a} : {ANY}").unwrap();
        r
    }
    fn obs(&mut self, o: &mut String, x: &str) { let r = self.f(); writeln!(o, "{r} = func.call {x} {{callee = @__obs_i32}} : core.nil").unwrap(); }
    fn pack(&mut self, o: &mut String, args: &[D], s: &Sc) -> Vec<String> {
        let xs: Vec<String> = args.iter().map(|a| self.d(o, a, s)).collect();
        if xs.len() < 2 { return xs; }
        let ys: Vec<String> = xs.iter().map(|x| self.cast(o, x, ANY)).collect();
        let r = self.f();
        writeln!(o, "{r} = adt.struct_new {} {{type = !AT{}}} : {ANY}", ys.join(", "), ys.len()).unwrap();
        vec![r]
    }
    fn evidence(&mut self, o: &mut String, s: &Sc) -> String {
        if let Some(e) = &s.ev { return e.clone(); }
        let r = self.f();
        writeln!(o, "{r} = adt.ref_null {{type = !EV}} : !EV").unwrap();
        r
    }
    /// captures: values used in `body` and defined outside it
    fn captures(&self, body: &str, params: &[String], ev: &Option<String>) -> Vec<String> {
        let toks = |l: &str| -> Vec<String> {
            let mut v = Vec::new();
            let b = l.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if b[i] == b'%' {
                    let mut j = i + 1;
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') { j += 1 }
                    v.push(l[i..j].to_string());
                    i = j;
                } else { i += 1 }
            }
            v
        };
        let mut def: std::collections::HashSet<String> = params.iter().cloned().collect();
        for l in body.lines() {
            let l = l.trim_start();
            if l.starts_with('%') { if let Some(p) = l.find(" = ") { def.insert(l[..p].to_string()); } }
            if l.starts_with('^') { for t in toks(l) { def.insert(t); } }
            if let Some(p) = l.find("closure.lambda(") { let q = l[p..].find(')').unwrap(); for t in toks(&l[p..p + q]) { def.insert(t); } }
        }
        let mut out = Vec::new();
        for l in body.lines() { for t in toks(l) { if !def.contains(&t) && !out.contains(&t) && Some(&t) != ev.as_ref() { out.push(t) } } }
        out
    }
    fn lambda(&mut self, o: &mut String, params: &[(String, &str)], body: &str, ev: &Option<String>, force: &[String]) -> String {
        let names: Vec<String> = params.iter().map(|p| p.0.clone()).collect();
        let mut caps = self.captures(body, &names, ev);
        for f in force { if !caps.contains(f) { caps.push(f.clone()) } }
        let r = self.f();
        let ps: Vec<String> = params.iter().map(|(n, t)| format!("{n}: {t}")).collect();
        writeln!(o, "{r} = closure.lambda({}) -> {ANY} [{}] {{\n{body}}}", ps.join(", "), caps.join(", ")).unwrap();
        r
    }
    fn std_k(&mut self, o: &mut String, f: &str) -> K {
        let n = self.f();
        writeln!(o, "{n} = adt.ref_null {{type = {ANY}}} : {ANY}").unwrap();
        let r = self.f();
        writeln!(o, "{r} = closure.new {n} {{func_ref = @{f}}} : {CL}").unwrap();
        K { name: r, closure: true }
    }
    /// direct computation to an i32 value
    fn value(&mut self, o: &mut String, c: &C, s: &Sc) -> String {
        match c {
            C::Ret(d) => self.d(o, d, s),
            C::CallOp(ab, op, args) => {
                let xs = self.pack(o, args, s);
                let r = self.f();
                writeln!(o, "{r} = ability.legacy_call {} {{ability_ref = {}, op_name = @{}}} : {ANY}", xs.join(", "), aref(*ab), OPN[*op]).unwrap();
                self.cast(o, &r, "core.i32")
            }
            C::Obs(d, b) => { let x = self.d(o, d, s); self.obs(o, &x); self.value(o, b, s) }
            C::Let(a, b) => { let x = self.value(o, a, s); let mut s2 = s.clone(); s2.vars.push(x); self.value(o, b, &s2) }
            C::If(c, a, b) => {
                let x = self.cond(o, c, s);
                let (mut t, mut e) = (String::new(), String::new());
                let (tv, ev) = (self.value(&mut t, a, s), self.value(&mut e, b, s));
                let r = self.f();
                writeln!(o, "{r} = scf.if {x} : core.i32 {{\n{t}scf.yield {tv}\n}} {{\n{e}scf.yield {ev}\n}}").unwrap();
                r
            }
            C::Handle(h) => {
                let idk = self.std_k(o, "identity_dk");
                let r = self.handle(o, h, s, &idk);
                self.cast(o, &r, "core.i32")
            }
            _ => unreachable!(),
        }
    }
    fn cond(&mut self, o: &mut String, c: &D, s: &Sc) -> String {
        let x = self.d(o, c, s);
        let z = self.f();
        writeln!(o, "{z} = arith.const {{value = 0}} : core.i32").unwrap();
        let r = self.f();
        writeln!(o, "{r} = arith.cmpi {x}, {z} {{predicate = @sgt}} : core.i1").unwrap();
        r
    }
    /// computation continued by `kk`; returns the control answer
    fn comp(&mut self, o: &mut String, c: &C, s: &Sc, kk: &K) -> String {
        if direct(c, s.close) {
            let x = self.value(o, c, s);
            return self.invoke(o, kk, &x);
        }
        match c {
            C::Perform(ab, op, args) => {
                let xs = self.pack(o, args, s);
                let r = self.f();
                let mut all = vec![kk.name.clone()];
                all.extend(xs);
                writeln!(o, "{r} = ability.legacy_perform {} {{ability_ref = {}, op_name = @{}}} : {ANY}", all.join(", "), aref(*ab), OPN[*op]).unwrap();
                r
            }
            C::Call(f, d) => {
                let x = self.d(o, d, s);
                let ev = self.evidence(o, s);
                let r = self.f();
                writeln!(o, "{r} = func.call {ev}, {}, {x} {{callee = @f{}, tribute.calling_convention = 2}} : {ANY}", kk.name, f + s.base).unwrap();
                r
            }
            C::Resume(d) => self.resume(o, d, s, kk),
            C::Handle(h) => self.handle(o, h, s, kk),
            C::If(c, a, b) => {
                let x = self.cond(o, c, s);
                let (mut t, mut e) = (String::new(), String::new());
                let (tv, ev) = (self.comp(&mut t, a, s, kk), self.comp(&mut e, b, s, kk));
                let r = self.f();
                writeln!(o, "{r} = scf.if {x} : {ANY} {{\n{t}scf.yield {tv}\n}} {{\n{e}scf.yield {ev}\n}}").unwrap();
                r
            }
            C::Obs(d, b) => { let x = self.d(o, d, s); self.obs(o, &x); self.comp(o, b, s, kk) }
            C::Let(a, b) if direct(a, s.close) => { let x = self.value(o, a, s); let mut s2 = s.clone(); s2.vars.push(x); self.comp(o, b, &s2, kk) }
            C::Let(a, b) => {
                let next = self.continuation(o, b, s, kk);
                self.comp(o, a, s, &next)
            }
            _ => unreachable!(),
        }
    }
    fn continuation(&mut self, o: &mut String, rest: &C, s: &Sc, kk: &K) -> K {
        let p = self.f();
        let mut b = String::new();
        let x = self.cast(&mut b, &p, "core.i32");
        let mut s2 = s.clone();
        s2.vars.push(x);
        let r = self.comp(&mut b, rest, &s2, kk);
        writeln!(b, "func.return {r}").unwrap();
        let mut force = vec![kk.name.clone()];
        if let Some(w) = &s.owner { force.push(w.clone()) }
        K { name: self.lambda(o, &[(p, ANY)], &b, &s.ev, &force), closure: true }
    }
    fn resume(&mut self, o: &mut String, d: &D, s: &Sc, kk: &K) -> String {
        let x = self.d(o, d, s);
        let ans = self.invoke(o, &K { name: s.rez.clone().unwrap(), closure: false }, &x);
        let owner = s.owner.clone().unwrap();
        let is = self.f();
        writeln!(o, "{is} = adt.variant_is {ans} {{tag = @Normal, type = !CTL}} : core.i1").unwrap();
        let mut nb = String::new();
        let (c, p) = (self.f(), self.f());
        writeln!(nb, "{c} = adt.variant_cast {ans} {{tag = @Normal, type = !CTL}} : {ANY}\n{p} = adt.variant_get {c} {{field = 0, tag = @Normal, type = !CTL}} : {ANY}").unwrap();
        let pi = self.cast(&mut nb, &p, "core.i32");
        let after = self.invoke(&mut nb, kk, &pi);
        let (ec, ow, pl, m, rt, sel) = (self.f(), self.f(), self.f(), self.f(), self.f(), self.f());
        writeln!(nb, "{ec} = adt.variant_cast {after} {{tag = @Escape, type = !CTL}} : {ANY}
{ow} = adt.variant_get {ec} {{field = 0, tag = @Escape, type = !CTL}} : core.i32
{pl} = adt.variant_get {ec} {{field = 1, tag = @Escape, type = !CTL}} : {ANY}
{m} = arith.cmpi {ow}, {owner} {{predicate = @eq}} : core.i1
{sel} = scf.if {m} : {ANY} {{
{rt} = adt.variant_new {pl} {{tag = @Normal, type = !CTL}} : {ANY}
scf.yield {rt}
}} {{
scf.yield {after}
}}
scf.yield {sel}").unwrap();
        let r = self.f();
        writeln!(o, "{r} = scf.if {is} : {ANY} {{\n{nb}}} {{\nscf.yield {ans}\n}}").unwrap();
        r
    }
    fn arm_scope(&mut self, o: &mut String, a: &Arm, val: &str, s: &Sc) -> Sc {
        let mut s2 = s.clone();
        if a.nargs == 1 {
            s2.vars.push(self.cast(o, val, "core.i32"));
        } else {
            for i in 0..a.nargs {
                let g = self.f();
                writeln!(o, "{g} = adt.struct_get {val} {{field = {i}, type = !AT{}}} : {ANY}", a.nargs).unwrap();
                s2.vars.push(self.cast(o, &g, "core.i32"));
            }
        }
        s2
    }
    fn chain(&mut self, o: &mut String, arms: &[&Arm], idx: &str, mk: &mut dyn FnMut(&mut Em, &mut String, &Arm) -> String) -> String {
        let a = arms[0];
        let mut t = String::new();
        let tv = mk(self, &mut t, a);
        let r = self.f();
        if arms.len() == 1 {
            let c = self.f();
            writeln!(o, "{c} = arith.const {{value = true}} : core.i1").unwrap();
            writeln!(o, "{r} = scf.if {c} : {ANY} {{\n{t}scf.yield {tv}\n}} {{\nfunc.unreachable\n}}").unwrap();
        } else {
            let (x, c) = (self.f(), self.f());
            writeln!(o, "{x} = arith.const {{value = {}}} : core.i32\n{c} = arith.cmpi {idx}, {x} {{predicate = @eq}} : core.i1", op_idx(a.ab, a.op)).unwrap();
            let mut e = String::new();
            let ev = self.chain(&mut e, &arms[1..], idx, mk);
            writeln!(o, "{r} = scf.if {c} : {ANY} {{\n{t}scf.yield {tv}\n}} {{\n{e}scf.yield {ev}\n}}").unwrap();
        }
        r
    }
    fn handle(&mut self, o: &mut String, h: &H, s: &Sc, completion: &K) -> String {
        let tag = self.tags;
        self.tags += 1;
        // body closure, called with the Normal continuation
        let bk = self.f();
        let mut b = String::new();
        let mut sb = s.clone();
        sb.close = false;
        let r = self.comp(&mut b, &h.body, &sb, &K { name: bk.clone(), closure: false });
        writeln!(b, "func.return {r}").unwrap();
        let force: Vec<String> = s.owner.iter().cloned().collect();
        let bc = self.lambda(o, &[(bk, ANY)], &b, &s.ev, &force);
        let nk = self.std_k(o, "normal_dk");
        let by = self.f();
        writeln!(o, "{by} = func.call_indirect {bc}, {} : {ANY}", nk.name).unwrap();
        // dispatch regions
        let dv = self.f();
        let mut dn = String::new();
        let x = self.cast(&mut dn, &dv, "core.i32");
        let dr = match &h.done {
            Some(c) => { let mut s2 = s.clone(); s2.vars.push(x); self.comp(&mut dn, c, &s2, completion) }
            None => self.invoke(&mut dn, completion, &x),
        };
        let mut reg = format!("ability.done {{\n^d{tag}({dv}: {ANY}):\n{dn}scf.yield {dr}\n}}\n");
        for a in &h.arms {
            let (p, q) = (self.f(), self.f());
            writeln!(reg, "ability.{} {{ability_ref = {}, op_name = @{}}} {{\n^s{}({p}: {ANY}, {q}: {ANY}):\nscf.yield {q}\n}}", if a.tail { "yield" } else { "suspend" }, aref(a.ab), OPN[a.op], self.n).unwrap();
        }
        let evv = self.f();
        let mut es = String::new();
        let er = self.invoke_any(&mut es, completion, &evv);
        let esc = format!("^e{tag}({evv}: {ANY}):\n{es}scf.yield {er}\n");
        // handler_dispatch closure
        let (hk, ho, hi, hv) = (self.f(), self.f(), self.f(), self.f());
        let mut hb = String::new();
        let arms: Vec<&Arm> = h.arms.iter().collect();
        if arms.is_empty() {
            writeln!(hb, "func.unreachable").unwrap();
        } else {
            let (sk, so, sv, sc) = (hk.clone(), ho.clone(), hv.clone(), s.clone());
            let r = self.chain(&mut hb, &arms, &hi, &mut |em, t, a| {
                let mut s2 = sc.clone();
                s2.owner = Some(so.clone());
                if a.tail {
                    s2.close = true;
                    let s3 = em.arm_scope(t, a, &sv, &s2);
                    let idk = em.std_k(t, "identity_dk");
                    em.comp(t, &a.body, &s3, &idk)
                } else {
                    s2.rez = Some(sk.clone());
                    s2.close = false;
                    let s3 = em.arm_scope(t, a, &sv, &s2);
                    // escape continuation
                    let p = em.f();
                    let e = em.f();
                    let body = format!("{e} = adt.variant_new {so}, {p} {{tag = @Escape, type = !CTL}} : {ANY}\nfunc.return {e}\n");
                    let ek = em.lambda(t, &[(p, ANY)], &body, &s3.ev, &[]);
                    em.comp(t, &a.body, &s3, &K { name: ek, closure: true })
                }
            });
            writeln!(hb, "func.return {r}").unwrap();
        }
        let hf = self.lambda(o, &[(hk, ANY), (ho, "core.i32"), (hi, "core.i32"), (hv, ANY)], &hb, &s.ev, &[]);
        // tr_dispatch
        let tails: Vec<&Arm> = h.arms.iter().filter(|a| a.tail).collect();
        let tf = if tails.is_empty() {
            let r = self.f();
            writeln!(o, "{r} = arith.const {{value = 0}} : {ANY}").unwrap();
            r
        } else {
            let (ti, tv) = (self.f(), self.f());
            let mut tb = String::new();
            let (sv, sc) = (tv.clone(), s.clone());
            let r = self.chain(&mut tb, &tails, &ti, &mut |em, t, a| {
                let mut s2 = sc.clone();
                s2.close = true;
                let s3 = em.arm_scope(t, a, &sv, &s2);
                let idk = em.std_k(t, "identity_dk");
                em.comp(t, &a.body, &s3, &idk)
            });
            writeln!(tb, "func.return {r}").unwrap();
            self.lambda(o, &[(ti, "core.i32"), (tv, ANY)], &tb, &s.ev, &[])
        };
        let ow = self.f();
        writeln!(o, "{ow} = effect.fresh_prompt_tag : core.i32").unwrap();
        let r = self.f();
        writeln!(o, "{r} = ability.legacy_handle_dispatch {by}, {ow}, {hf}, {tf} {{result_type = {ANY}, tag = {tag}}} : {ANY} {{\n{reg}}} {{\n{esc}}}").unwrap();
        r
    }
}

pub fn emit(ps: &[Prog]) -> String {
    let mut em = Em { n: 0, tags: 0 };
    let mut o = String::from(r#"core.module @test {
  !EV = core.array(adt.struct() {fields = [[@ability_id, core.i32], [@prompt_tag, core.i32], [@tr_dispatch_fn, core.ptr], [@handler_dispatch, core.ptr]], name = @_Marker})
  !CTL = adt.enum() {name = @__tribute_cps_control, variants = [[@Normal, [tribute_rt.anyref]], [@Escape, [core.i32, tribute_rt.anyref]]]}
  !AT2 = adt.struct() {fields = [[@_0, tribute_rt.anyref], [@_1, tribute_rt.anyref]], name = @__ability_args_tuple}
  func.func @__obs_i32(%0: core.i32) -> core.nil attributes {abi = "C"} {
    func.unreachable
  }
  func.func @identity_dk(%0: !EV, %1: tribute_rt.anyref, %2: tribute_rt.anyref) -> tribute_rt.anyref {
    func.return %2
  }
  func.func @normal_dk(%0: !EV, %1: tribute_rt.anyref, %2: tribute_rt.anyref) -> tribute_rt.anyref {
    %3 = adt.variant_new %2 {tag = @Normal, type = !CTL} : tribute_rt.anyref
    func.return %3
  }
"#);
    let mut calls = String::new();
    for (j, p) in ps.iter().enumerate() {
        for (i, f) in p.fns.iter().enumerate() {
            let (ev, dk, x) = (em.f(), em.f(), em.f());
            let mut b = String::new();
            let s = Sc { vars: vec![x.clone()], owner: None, rez: None, ev: Some(ev.clone()), close: false, base: j * 10 };
            let r = em.comp(&mut b, f, &s, &K { name: dk.clone(), closure: false });
            writeln!(o, "func.func @f{}({ev}: !EV, {dk}: {ANY}, {x}: core.i32) -> {ANY} attributes {{tribute.calling_convention = 2}} {{\n{b}func.return {r}\n}}", i + j * 10).unwrap();
        }
        let mut b = String::new();
        let s = Sc { vars: vec![], owner: None, rez: None, ev: None, close: true, base: j * 10 };
        let r = em.value(&mut b, &C::Handle(Box::new(p.main.clone())), &s);
        em.obs(&mut b, &r);
        let u = em.f();
        writeln!(o, "func.func @p{j}() -> core.nil attributes {{tribute.calling_convention = 0}} {{\n{b}{u} = arith.const {{value = unit}} : core.nil\nfunc.return {u}\n}}").unwrap();
        let (m, n, q) = (em.f(), em.f(), em.f());
        writeln!(calls, "{m} = arith.const {{value = {}}} : core.i32\n{q} = func.call {m} {{callee = @__obs_i32}} : core.nil\n{n} = func.call {{callee = @p{j}, tribute.calling_convention = 0}} : core.nil", 1000 + j).unwrap();
    }
    let u = em.f();
    writeln!(o, "func.func @main() -> core.nil attributes {{tribute.calling_convention = 0}} {{\n{calls}{u} = arith.const {{value = unit}} : core.nil\nfunc.return {u}\n}}\n}}").unwrap();
    o
}

// ---------------------------------------------------------------- enumeration
#[derive(Clone, Copy, PartialEq)]
enum St { Get, Set, Abort, Ask, CallF, CallG, Inner, Cond, Obs }
#[derive(Clone, Copy)]
struct Cfg { budget: usize, menu: &'static [St], inner: &'static [&'static [usize]], hows: &'static [usize], dones: usize, depth: usize }

struct Gen { n: i32 }
impl Gen {
    fn c(&mut self) -> i32 { self.n += 1; self.n }
    /// fold every variable in scope into one value
    fn fin(vars: usize) -> D { (0..vars).fold(k(1), |a, i| add(mul(a, k(3)), v(i))) }
    fn arg(&mut self, vars: usize) -> D { let c = self.c(); if vars == 0 { k(c) } else { add(v(vars - 1), k(c)) } }
    fn stmts(&mut self, ch: &mut Ch, g: &Cfg, left: &mut usize, depth: usize, vars: usize) -> Option<C> {
        if *left == 0 { return Some(C::Ret(Self::fin(vars))); }
        let p = ch.pick(g.menu.len() + 1);
        if p == 0 { return Some(C::Ret(Self::fin(vars))); }
        *left -= 1;
        let st = g.menu[p - 1];
        if st == St::Obs {
            let a = self.arg(vars);
            return Some(obs(a, self.stmts(ch, g, left, depth, vars)?));
        }
        let rhs = match st {
            St::Get => C::Perform(0, 0, vec![self.arg(vars)]),
            St::Set => C::Perform(0, 1, vec![self.arg(vars), k(self.n * 7)]),
            St::Abort => C::Perform(1, 0, vec![self.arg(vars)]),
            St::Ask => C::CallOp(2, 2, vec![self.arg(vars)]),
            St::CallF => C::Call(0, self.arg(vars)),
            St::CallG => C::Call(1, self.arg(vars)),
            St::Cond => {
                // one branch performs, the other does not; both directions
                let a = self.arg(vars);
                let cnd = if ch.flag() { a.clone() } else { mul(a.clone(), k(-1)) };
                C::If(cnd, Box::new(C::Perform(0, 0, vec![a.clone()])), Box::new(C::Ret(add(a, k(50)))))
            }
            St::Inner => {
                if depth == 0 { return None; }
                let abs = *ch.of(g.inner);
                let body = self.stmts(ch, g, left, depth - 1, vars)?;
                C::Handle(Box::new(self.handler(ch, g, abs, body, vars)))
            }
            St::Obs => unreachable!(),
        };
        Some(let_(rhs, self.stmts(ch, g, left, depth, vars + 1)?))
    }
    fn arm_body(&mut self, how: usize, a: D, all: usize) -> C {
        let c = self.c();
        let _ = all;
        match how {
            0 => C::Resume(add(a, k(c))),
            // after the resumption returns, its answer is used
            1 => let_(C::Resume(add(a.clone(), k(c))), obs(v(all), C::Ret(add(mul(v(all), k(2)), a)))),
            2 => C::Ret(add(mul(a, k(5)), k(c))),
            3 => obs(a.clone(), C::If(add(a.clone(), k(-6)), Box::new(C::Ret(mul(a.clone(), k(11)))), Box::new(C::Resume(a)))),
            // the arm itself performs operations of other abilities
            4 => let_(C::CallOp(2, 2, vec![a.clone()]), C::Resume(add(v(all), a))),
            _ => let_(C::Perform(1, 0, vec![a.clone()]), C::Resume(add(v(all), a))),
        }
    }
    fn handler(&mut self, ch: &mut Ch, g: &Cfg, abs: &[usize], body: C, vars: usize) -> H {
        let mut arms = vec![];
        for &ab in abs {
            match ab {
                0 => {
                    let how = g.hows[ch.pick(g.hows.len())];
                    arms.push(Arm { ab, op: 0, tail: false, nargs: 1, body: self.arm_body(how, v(vars), vars + 1) });
                    if g.menu.contains(&St::Set) {
                        let how = g.hows[ch.pick(g.hows.len())];
                        arms.push(Arm { ab, op: 1, tail: false, nargs: 2, body: self.arm_body(how, add(mul(v(vars), k(2)), v(vars + 1)), vars + 2) });
                    }
                }
                1 => {
                    let how = 2 - ch.pick(2) * 2;
                    arms.push(Arm { ab, op: 0, tail: false, nargs: 1, body: self.arm_body(how, v(vars), vars + 1) });
                }
                _ => {
                    let c = self.c();
                    let b = C::Ret(add(mul(v(vars), k(2)), k(c)));
                    arms.push(Arm { ab, op: 2, tail: true, nargs: 1, body: if ch.flag() { obs(k(c), b) } else { b } });
                }
            }
        }
        let done = match ch.pick(g.dones) { 0 => None, 1 => Some(C::Ret(add(mul(v(vars), k(7)), k(1)))), 2 => Some(obs(add(v(vars), k(3)), C::Ret(v(vars)))), _ => Some(obs(v(vars), C::Ret(add(v(vars), k(2))))) };
        H { body, done, arms }
    }
}
fn uses(c: &C, out: &mut [bool; 3], fns: &mut [bool; 2]) {
    match c {
        C::Perform(a, ..) | C::CallOp(a, ..) => out[*a] = true,
        C::Call(f, _) => { fns[*f] = true; out[0] = true; if *f == 1 { out[1] = true } }
        C::If(_, a, b) | C::Let(a, b) => { uses(a, out, fns); uses(b, out, fns) }
        C::Obs(_, b) => uses(b, out, fns),
        C::Handle(h) => { uses(&h.body, out, fns); if let Some(d) = &h.done { uses(d, out, fns) } for a in &h.arms { uses(&a.body, out, fns) } }
        _ => {}
    }
}
fn program(ch: &mut Ch, g: &Cfg) -> Option<Prog> {
    let mut x = Gen { n: 0 };
    let mut left = g.budget;
    let body = x.stmts(ch, g, &mut left, g.depth, 0)?;
    if left != 0 && g.budget > 1 && matches!(body, C::Ret(_)) { return None; }
    let (mut u, mut fs) = ([false; 3], [false; 2]);
    uses(&body, &mut u, &mut fs);
    let abs: Vec<usize> = (0..3).filter(|i| u[*i] || *i == 0).collect();
    // f: performs get and adds; g: performs get, then calls f, then aborts when large
    let fns = vec![
        let_(C::Perform(0, 0, vec![add(v(0), k(100))]), C::Ret(add(v(1), v(0)))),
        let_(C::Perform(0, 0, vec![v(0)]), let_(C::Call(0, v(1)), let_(C::Perform(1, 0, vec![v(2)]), C::Ret(add(v(3), v(0)))))),
    ];
    let main = x.handler(ch, g, &abs, body, 0);
    Some(Prog { fns, main })
}

fn run_case(ps: &[Prog], key: &str, st: &Stats) -> CaseResult {
    let mut want = vec![];
    for (i, p) in ps.iter().enumerate() {
        want.push(fmt(1000 + i as i32));
        want.extend(meaning(p).map_err(|e| Violation { key: "generator".into(), detail: e })?);
    }
    let text = emit(ps);
    let at = |got: &[String]| {
        let same = want.iter().zip(got).take_while(|(a, b)| a == b).count();
        // the program that went wrong
        let which = want[..(same + 1).min(want.len())].iter().filter(|s| (1000..1000 + ps.len()).any(|i| **s == fmt(i as i32))).count().max(1) - 1;
        format!("expected {:?} got {:?}\nprogram {:?}\n{}", &want[same..(same + 5).min(want.len())], &got[same..(same + 5).min(got.len())], ps[which], emit(&ps[which..which + 1]))
    };
    let n = crate::props::data::compile(&text, NativeOpts::PROD, key)?;
    let r = n.call("main", &[]).map_err(|e| Violation { key: format!("{key}:symbol"), detail: e })?;
    st.traces(1);
    st.transitions(r.trace.len() as u64);
    if !r.heap_err.is_empty() || r.sig != 0 || r.trace != want {
        let kind = if !r.heap_err.is_empty() { "heap".to_string() } else if r.sig != 0 { format!("signal{}", r.sig) } else { "differs".into() };
        return viol(format!("{key}:{kind}"), format!("{} signal {}; {}", r.heap_err, r.sig, at(&r.trace)));
    }
    Ok(())
}
const BATCH: usize = 12;
/// An inner handler whose arms perform operations of the enclosing handlers.
fn arm_program(ch: &mut Ch, budget: usize) -> Option<Prog> {
    let g = Cfg { budget, menu: if budget > 2 { &[St::Get, St::Set, St::Ask, St::Abort] } else { &[St::Get, St::Ask, St::Abort] }, inner: &[], hows: &[0, 4, 5], dones: 2, depth: 0 };
    let mut x = Gen { n: 0 };
    let mut left = budget;
    let inner = x.stmts(ch, &g, &mut left, 0, 0)?;
    if matches!(inner, C::Ret(_)) { return None; }
    let mut h = x.handler(ch, &g, &[0], inner, 0);
    // the done arm may perform an enclosing operation too
    match ch.pick(3) { 0 => {}, 1 => h.done = Some(let_(C::Perform(1, 0, vec![v(0)]), C::Ret(add(v(1), v(0))))), _ => h.done = Some(let_(C::CallOp(2, 2, vec![v(0)]), C::Ret(add(v(1), v(0))))) }
    let body = let_(C::Handle(Box::new(h)), C::Ret(add(v(0), k(1))));
    let main = x.handler(ch, &g, &[1, 2], body, 0);
    Some(Prog { fns: vec![], main })
}
pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    use St::*;
    let t = tier == Tier::Thorough;
    let mut out: Vec<Space> = vec![];
    fn add<F: Fn(&mut Ch) -> Option<Prog> + Copy + 'static>(out: &mut Vec<Space<'static>>, name: &'static str, rule: &str, budget: usize, f: F) {
        let cases = Rc::new(gener::all(f));
        let c2 = cases.clone();
        let get = move |cs: &[Box<[u8]>], i: usize| cs[i * BATCH..((i + 1) * BATCH).min(cs.len())].iter().map(|s| gener::replay(s, f)).collect::<Vec<Prog>>();
        out.push(Space { name, n: cases.len().div_ceil(BATCH), rule: format!("{rule}: every program with at most {budget} statements ({} programs)", cases.len()),
            run: Box::new(move |i, st| { for c in &cases[i * BATCH..((i + 1) * BATCH).min(cases.len())] { st.state_str(&format!("{name}{c:?}")); st.nontrivial(1); } run_case(&get(&cases, i), name, st) }),
            describe: Box::new(move |i| { let ps = get(&c2, i); format!("{ps:#?}\n{}", emit(&ps)) }), limit: 90 });
    }
    let mut sp = |name, rule, g: Cfg| add(&mut out, name, rule, g.budget, move |ch: &mut Ch| program(ch, &g));
    let b = if t { 4 } else { 3 };
    sp("single", "one handler whose arms resume in tail position, abort, or decide at run time", Cfg { budget: b, menu: &[Get, Set, Abort, Ask, Obs], inner: &[], hows: if t { &[0, 2, 3] } else { &[0, 3] }, dones: if t { 4 } else { 3 }, depth: 0 });
    sp("nontail", "arms that use the answer of the resumption", Cfg { budget: b, menu: &[Get, Set, Ask, Obs], inner: &[], hows: &[0, 1], dones: 1, depth: 0 });
    sp("calls", "operations performed by called functions", Cfg { budget: b, menu: &[Get, CallF, CallG, Cond], inner: &[], hows: if t { &[0, 2, 3] } else { &[0, 3] }, dones: 2, depth: 0 });
    sp("nested", "nested handlers of the same and of other abilities", Cfg { budget: b, menu: &[Get, Abort, Inner], inner: &[&[0], &[1]], hows: &[0, 2], dones: if t { 2 } else { 1 }, depth: if t { 2 } else { 1 } });
    sp("nestedtr", "nested handlers with tail-resumptive operations", Cfg { budget: b, menu: &[Get, Ask, Inner], inner: &[&[0], &[2]], hows: &[0], dones: 2, depth: if t { 2 } else { 1 } });
    add(&mut out, "armfx", "handler arms and done arms that perform enclosing operations", if t { 3 } else { 2 }, move |ch: &mut Ch| arm_program(ch, if t { 3 } else { 2 }));
    out
}
