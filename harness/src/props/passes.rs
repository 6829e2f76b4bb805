//! C07: the pass manager runs exactly the registered schedule, stops at the first failure and
//! blames the right pass; cached analyses are never served stale after invalidation.
use crate::engine::*;
use crate::ir::*;
use std::cell::RefCell;
use std::rc::Rc;
use trunk_ir::analysis::{Analysis, AnalysisCache};
use trunk_ir::dialect::{core, func};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::*;
use trunk_ir::*;

fn digits(mut i: usize, base: usize, n: usize) -> Vec<usize> {
    (0..n).map(|_| { let d = i % base; i /= base; d }).collect()
}

type Log = Rc<RefCell<Vec<String>>>;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act { Ok, Err, Break, EraseSelf, EraseNext, Add }

#[derive(Clone, Debug)]
struct Cfg { root: Vec<Act>, a: Vec<(Act, usize)>, a_inner: bool, b: bool, c_mod: bool, ver: bool, inst: bool, a_ver: bool, a_inst: bool }

fn name_of(c: &IrContext, o: OpRef) -> String { c.op(o).attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_default() }
fn new_func(c: &mut IrContext, name: &str) -> OpRef {
    let nil = ty(c, "core", "nil");
    let b = block(c, &[]);
    OpB::new("func", "return").push(c, b);
    let r = region(c, &[b]);
    func(c, name, nil, &[], r).build(c)
}
fn act(c: &mut IrContext, a: Act, o: OpRef) -> PassRunResult {
    match a {
        Act::Ok => {}
        Act::Err => return Err("boom".into()),
        Act::Break => { c.op_mut(o).attributes.insert(sym("broken"), Attribute::Unit); }
        Act::EraseSelf => trunk_ir::rewrite::erase_op(c, o),
        Act::EraseNext => {
            // module target: erase its first op; function target: erase the following sibling
            let victim = match c.op(o).parent_block {
                Some(b) => { let ops = &c.block(b).ops; let p = ops.iter().position(|x| *x == o).unwrap(); ops.get(p + 1).copied() }
                None => { let r = c.op(o).regions[0]; c.block(c.region(r).blocks[0]).ops.first().copied() }
            };
            if let Some(v) = victim { trunk_ir::rewrite::erase_op(c, v); }
        }
        Act::Add => {
            let f = new_func(c, "fx");
            let b = match c.op(o).parent_block { Some(b) => b, None => { let r = c.op(o).regions[0]; c.region(r).blocks[0] } };
            c.push_op(b, f);
        }
    }
    Ok(())
}
struct P<T> { name: &'static str, act: Act, on: Option<&'static str>, log: Log, _t: std::marker::PhantomData<fn(T)> }
impl<T: DialectOp> Pass for P<T> {
    type Target = T;
    fn name(&self) -> &'static str { self.name }
    fn run(&mut self, c: &mut IrContext, t: T) -> PassRunResult {
        let n = name_of(c, t.op_ref());
        self.log.borrow_mut().push(format!("run {} {n}", self.name));
        if self.on.is_none_or(|x| x == n) { act(c, self.act, t.op_ref()) } else { Ok(()) }
    }
}
fn p<T>(name: &'static str, act: Act, on: Option<&'static str>, log: &Log) -> P<T> { P { name, act, on, log: log.clone(), _t: std::marker::PhantomData } }

const FN: [&str; 3] = ["f0", "f1", "f2"];

// ---- reference model: a tree of named nodes
#[derive(Clone, Debug)]
struct Node { name: String, is_mod: bool, kids: Vec<usize>, parent: Option<usize>, broken: bool }
struct Model { nodes: Vec<Node>, log: Vec<String> }
#[derive(Clone, Copy)]
struct Hooks { ver: Option<char>, inst: Option<char> }
enum Fail { Exec(&'static str), Verify(&'static str) }
impl Model {
    fn new() -> Self {
        let n = |name: &str, m: bool, p: Option<usize>| Node { name: name.into(), is_mod: m, kids: vec![], parent: p, broken: false };
        let mut s = Model { nodes: vec![n("m", true, None), n("f0", false, Some(0)), n("f1", false, Some(0)), n("N", true, Some(0)), n("f2", false, Some(3))], log: vec![] };
        s.nodes[0].kids = vec![1, 2, 3];
        s.nodes[3].kids = vec![4];
        s
    }
    fn in_tree(&self, mut x: usize) -> bool {
        while let Some(p) = self.nodes[x].parent { if !self.nodes[p].kids.contains(&x) { return false; } x = p; }
        x == 0
    }
    fn collect(&self, at: usize, mods: bool, out: &mut Vec<usize>) {
        if self.nodes[at].is_mod == mods { out.push(at); }
        for k in &self.nodes[at].kids { self.collect(*k, mods, out); }
    }
    fn erase(&mut self, x: usize) { if let Some(p) = self.nodes[x].parent { self.nodes[p].kids.retain(|k| *k != x); } }
    fn act(&mut self, a: Act, x: usize) -> bool {
        match a {
            Act::Ok => {}
            Act::Err => return false,
            Act::Break => self.nodes[x].broken = true,
            Act::EraseSelf => self.erase(x),
            Act::EraseNext => {
                let v = match self.nodes[x].parent { Some(p) => { let k = &self.nodes[p].kids; let i = k.iter().position(|y| *y == x).unwrap(); k.get(i + 1).copied() } None => self.nodes[x].kids.first().copied() };
                if let Some(v) = v { self.erase(v); }
            }
            Act::Add => {
                let p = self.nodes[x].parent.unwrap_or(x);
                let id = self.nodes.len();
                self.nodes.push(Node { name: "fx".into(), is_mod: false, kids: vec![], parent: Some(p), broken: false });
                self.nodes[p].kids.push(id);
            }
        }
        true
    }
    fn pass(&mut self, name: &'static str, a: Act, on: Option<&'static str>, x: usize, h: Hooks) -> Result<bool, Fail> {
        let n = self.nodes[x].name.clone();
        self.log.push(format!("run {name} {n}"));
        if on.is_none_or(|o| o == n) && !self.act(a, x) { return Err(Fail::Exec(name)); }
        if !self.in_tree(x) { return Ok(false); }
        if let Some(i) = h.inst { self.log.push(format!("inst{i} {name} {n}")); }
        if let Some(v) = h.ver {
            self.log.push(format!("verify{v} {n}"));
            if self.nodes[x].broken { return Err(Fail::Verify(name)); }
        }
        Ok(true)
    }
}
fn model(g: &Cfg) -> (Vec<String>, Option<(String, bool)>) {
    let mut m = Model::new();
    let h = Hooks { ver: g.ver.then_some('R'), inst: g.inst.then_some('R') };
    let run = |m: &mut Model| -> Result<(), Fail> {
        const RN: [&str; 2] = ["r0", "r1"];
        for (k, a) in g.root.iter().enumerate() { if !m.pass(RN[k], *a, None, 0, h)? { return Ok(()); } }
        // nested manager A over functions
        let ha = Hooks { ver: if g.a_ver { Some('A') } else { h.ver }, inst: if g.a_inst { Some('A') } else { h.inst } };
        let mut t = vec![];
        m.collect(0, false, &mut t);
        const AN: [&str; 2] = ["a0", "a1"];
        'next: for x in t {
            if !m.in_tree(x) { continue; }
            for (k, (a, on)) in g.a.iter().enumerate() { if !m.pass(AN[k], *a, Some(FN[*on]), x, ha)? { continue 'next; } }
            if g.a_inner { m.pass("ai", Act::Ok, None, x, ha)?; }
        }
        if g.b {
            let mut t = vec![];
            m.collect(0, false, &mut t);
            for x in t { m.pass("b0", Act::Ok, None, x, h)?; }
        }
        if g.c_mod {
            let mut t = vec![];
            m.collect(0, true, &mut t);
            for x in t {
                m.pass("c0", Act::Ok, None, x, h)?;
                let mut u = vec![];
                m.collect(x, false, &mut u);
                for y in u { m.pass("cf", Act::Ok, None, y, h)?; }
            }
        }
        Ok(())
    };
    let r = run(&mut m);
    (m.log, r.err().map(|f| match f { Fail::Exec(n) => (n.to_string(), true), Fail::Verify(n) => (n.to_string(), false) }))
}

fn run_pm(g: &Cfg, st: &Stats) -> CaseResult {
    let mut ctx = IrContext::new();
    let c = &mut ctx;
    let fs: Vec<OpRef> = FN.iter().map(|n| new_func(c, n)).collect();
    let nm = module(c, "N", &fs[2..]);
    let mo = module(c, "m", &[fs[0], fs[1], nm]);
    let log: Log = Default::default();
    let mut pm = PassManager::<core::Module>::new();
    fn hooks<T: DialectOp + 'static>(pm: &mut PassManager<T>, log: &Log, tag: char, ver: bool, inst: bool) {
        if ver {
            let l = log.clone();
            pm.with_verifier(move |c, o| { l.borrow_mut().push(format!("verify{tag} {}", name_of(c, o))); if c.op(o).attributes.contains_key("broken") { Err(VerifyError { message: "broken".into() }) } else { Ok(()) } });
        }
        if inst { let l = log.clone(); pm.with_instrumentation(move |c, n, o| l.borrow_mut().push(format!("inst{tag} {n} {}", name_of(c, o)))); }
    }
    hooks(&mut pm, &log, 'R', g.ver, g.inst);
    for (k, a) in g.root.iter().enumerate() { pm.add_pass(p::<core::Module>(["r0", "r1"][k], *a, None, &log)); }
    {
        let a = pm.nest::<func::Func>();
        hooks(a, &log, 'A', g.a_ver, g.a_inst);
        for (k, (x, on)) in g.a.iter().enumerate() { a.add_pass(p::<func::Func>(["a0", "a1"][k], *x, Some(FN[*on]), &log)); }
        if g.a_inner { a.nest::<func::Func>().add_pass(p::<func::Func>("ai", Act::Ok, None, &log)); }
    }
    if g.b { pm.nest::<func::Func>().add_pass(p::<func::Func>("b0", Act::Ok, None, &log)); }
    if g.c_mod {
        let m = pm.nest::<core::Module>();
        m.add_pass(p::<core::Module>("c0", Act::Ok, None, &log));
        m.nest::<func::Func>().add_pass(p::<func::Func>("cf", Act::Ok, None, &log));
    }
    let t = core::Module::from_op(c, mo).expect("module");
    let r = pm.run(c, t);
    let got_err = r.err().map(|e| (e.pass_name().to_string(), matches!(e.kind(), PassErrorKind::Execution(_))));
    let (want, want_err) = model(g);
    let got = log.borrow().clone();
    st.transitions(want.len() as u64);
    st.traces(1);
    st.state_str(&format!("{want:?}{want_err:?}"));
    if want_err.is_some() { st.nontrivial(1); }
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return viol("schedule", format!("event {k}: got {:?}, expected {:?}\nfull log {got:?}", got.get(k), want.get(k)));
    }
    if got_err != want_err { return viol("verdict", format!("result {got_err:?}, expected {want_err:?}")); }
    // the same manager must be reusable with the same meaning when it succeeded without edits
    Ok(())
}
fn cfgs(tier: Tier) -> Vec<Cfg> {
    let mut v = vec![];
    let ra = [Act::Ok, Act::Err, Act::Break, Act::EraseNext, Act::Add];
    let mut roots: Vec<Vec<Act>> = vec![vec![]];
    for a in ra { roots.push(vec![a]); for b in ra { roots.push(vec![a, b]); } }
    let mut fa: Vec<(Act, usize)> = vec![(Act::Ok, 0)];
    for a in [Act::Err, Act::Break, Act::EraseSelf, Act::EraseNext, Act::Add] { for t in 0..3 { fa.push((a, t)); } }
    let mut aa: Vec<Vec<(Act, usize)>> = vec![vec![]];
    for a in &fa { aa.push(vec![*a]); for b in &fa { aa.push(vec![*a, *b]); } }
    for r in &roots { for a in &aa { for k in 0..128usize {
        let bit = |n: usize| k >> n & 1 == 1;
        if tier == Tier::Quick && r.len() == 2 && a.len() == 2 && !matches!(k & 15, 0 | 15 | 5) { continue; }
        v.push(Cfg { root: r.clone(), a: a.clone(), ver: bit(0), inst: bit(1), a_ver: bit(2), a_inst: bit(3), a_inner: bit(4), b: bit(5), c_mod: bit(6) });
    } } }
    v
}

// ---------------------------------------------------------------- analysis cache
struct A1(usize); struct A2(usize);
fn count(c: &IrContext, o: OpRef) -> usize { let r = c.op(o).regions[0]; c.block(c.region(r).blocks[0]).ops.len() }
impl Analysis for A1 { fn compute(c: &IrContext, t: OpRef) -> Self { A1(count(c, t)) } }
impl Analysis for A2 { fn compute(c: &IrContext, t: OpRef) -> Self { A2(100 + count(c, t)) } }
const NOP: usize = 15;
fn opname(k: usize) -> String {
    match k { 0..=3 => format!("get A{} of m{}", k / 2 + 1, k % 2), 4..=7 => format!("peek A{} of m{}", (k - 4) / 2 + 1, k % 2), 8..=11 => format!("invalidate A{} of m{}", (k - 8) / 2 + 1, k % 2), 12 => "invalidate all of m0".into(), 13 => "clear".into(), _ => "edit m0 and m1".into() }
}
fn run_cache(i: usize, depth: usize, st: &Stats) -> CaseResult {
    run_cache_mode(i, depth, false, st)?;
    run_cache_mode(i, depth, true, st) // the caller keeps every analysis it was handed
}
fn run_cache_mode(i: usize, depth: usize, hold: bool, st: &Stats) -> CaseResult {
    let (mut h1, mut h2) = (vec![], vec![]);
    let mut c = IrContext::new();
    let m = [module(&mut c, "m0", &[]), module(&mut c, "m1", &[])];
    let mut am = AnalysisCache::new();
    let mut model: [Option<usize>; 4] = [None; 4];
    let mut ver = 0usize;
    let seq = digits(i, NOP, depth);
    for (s, k) in seq.iter().enumerate() {
        let bad = |w: String| viol("cache", format!("step {s} ({}): {w}; history {:?}", opname(*k), seq.iter().map(|k| opname(*k)).collect::<Vec<_>>()));
        let j = k % 4;
        match k {
            0..=3 => {
                let want = *model[j].get_or_insert(ver);
                let got = if j / 2 == 0 { let a = am.get::<A1>(&c, m[j % 2]); let g = a.0; if hold { h1.push((a, g)); } g } else { let a = am.get::<A2>(&c, m[j % 2]); let g = a.0; if hold { h2.push((a, g)); } g - 100 };
                if got != want { return bad(format!("returned version {got}, expected {want}")); }
            }
            4..=7 => {
                let got = if j / 2 == 0 { am.get_cached::<A1>(m[j % 2]).map(|x| x.0) } else { am.get_cached::<A2>(m[j % 2]).map(|x| x.0 - 100) };
                if got != model[j] { return bad(format!("peek gave {got:?}, expected {:?}", model[j])); }
            }
            8..=11 => { if j / 2 == 0 { am.invalidate::<A1>(m[j % 2]) } else { am.invalidate::<A2>(m[j % 2]) } model[j] = None; }
            12 => { am.invalidate_all(m[0]); model[0] = None; model[2] = None; }
            13 => { am.clear(); model = [None; 4]; }
            _ => {
                for x in m { let r = c.op(x).regions[0]; let b = c.region(r).blocks[0]; OpB::new("t", "op").push(&mut c, b); }
                ver += 1;
            }
        }
        if am.len() != model.iter().filter(|x| x.is_some()).count() || am.is_empty() != (am.len() == 0) { return bad(format!("holds {} entries, model {:?}", am.len(), model)); }
        st.transitions(1);
        if st.state_str(&format!("{model:?}{ver}")) { st.nontrivial(1); }
        if h1.iter().any(|(a, g)| a.0 != *g) || h2.iter().any(|(a, g)| a.0 != *g) { return bad("an analysis handed out earlier changed".into()); }
    }
    st.traces(1);
    Ok(())
}

pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let v = std::sync::Arc::new(cfgs(tier));
    let v2 = v.clone();
    let depth = tier.pick(5, 6);
    vec![
        Space { name: "schedule", n: v.len(), rule: "all pipelines of <=2 module passes and <=2 nested function passes (each succeeding, failing, breaking the IR, erasing its target or a sibling, or adding a function), with nested managers and every hook configuration".into(),
            run: Box::new(move |i, st| run_pm(&v[i], st)), describe: Box::new(move |i| format!("{:?}", v2[i])), limit: 20 },
        Space { name: "cache", n: NOP.pow(depth), rule: format!("all histories of {depth} cache operations over 2 analyses x 2 targets with edits in between"),
            run: Box::new(move |i, st| run_cache(i, depth as usize, st)), describe: Box::new(move |i| format!("{:?}", digits(i, NOP, depth as usize).into_iter().map(opname).collect::<Vec<_>>())), limit: 20 },
    ]
}
