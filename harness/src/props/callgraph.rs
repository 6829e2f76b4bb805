//! C06: whole-program function analyses and the two passes that delete or copy functions.
use crate::engine::*;
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use trunk_ir::analysis::AnalysisCache;
use trunk_ir::rewrite::Module;
use trunk_ir::transforms::call_graph::*;
use trunk_ir::transforms::global_dce::*;
use trunk_ir::transforms::inline::*;
use trunk_ir::validation::validate_all;
use trunk_ir::*;

fn digits(mut i: usize, base: usize, n: usize) -> Vec<usize> {
    (0..n).map(|_| { let d = i % base; i /= base; d }).collect()
}
const NAMES: [&str; 5] = ["main", "f", "g", "h", "k"];

/// What one function does with another.
#[derive(Clone, Copy, PartialEq, Debug)]
enum E { None, Call, Two, Tail, Const, Nested, NestedConst, LaterCall, LaterConst, LaterTail }

#[derive(Clone, Debug, Default)]
struct Prog { n: usize, edges: Vec<Vec<u8>>, kinds: Vec<u8>, abi: usize, decl: usize, export: usize, extra: usize, unnamed_main: bool, names: Vec<String>, nested_from: usize }
const KINDS: [E; 10] = [E::None, E::Call, E::Two, E::Tail, E::Const, E::Nested, E::NestedConst, E::LaterCall, E::LaterConst, E::LaterTail];
const ALL: [u8; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
impl E {
    fn calls(self) -> usize { match self { E::Call | E::Tail | E::Nested | E::LaterCall | E::LaterTail => 1, E::Two => 2, _ => 0 } }
    fn escapes(self) -> bool { matches!(self, E::Const | E::NestedConst | E::LaterConst) }
    fn later(self) -> bool { matches!(self, E::LaterCall | E::LaterConst | E::LaterTail) }
}

struct Built { m: OpRef, ops: Vec<OpRef> }

/// Every function: mark(i); references in callee order; return. A Tail edge is the terminator
/// instead of the return (only the first Tail edge of a function is emitted as a tail call, the rest as calls).
fn build(c: &mut IrContext, p: &Prog) -> Built {
    let nil = ty(c, "core", "nil");
    let ft = func_ty(c, nil, &[]);
    let mut ops = vec![];
    for a in 0..p.n {
        let e = block(c, &[]);
        OpB::new("t", "mark").attr("i", Attribute::Int(a as i128)).push(c, e);
        let mut tail = None;
        let mut later_tail = None;
        let multi = p.edges[a].iter().any(|k| KINDS[*k as usize].later());
        let (first, last) = if multi { (block(c, &[]), block(c, &[])) } else { (e, e) };
        if multi { OpB::new("t", "mark").attr("i", Attribute::Int(50 + a as i128)).push(c, last); }
        for b in 0..p.n {
            let callee = Attribute::Symbol(sym(&p.names[b]));
            let call = |c: &mut IrContext, blk: BlockRef| { OpB::new("func", "call").res(&[nil]).attr("callee", callee.clone()).push(c, blk); };
            let cnst = |c: &mut IrContext, blk: BlockRef| { OpB::new("func", "constant").res(&[ft]).attr("func_ref", callee.clone()).push(c, blk); };
            match KINDS[p.edges[a][b] as usize] {
                E::None => {}
                E::Call => call(c, e),
                E::Two => { call(c, e); call(c, e); }
                E::Tail => { if tail.is_none() { tail = Some(b); } else { call(c, e); } }
                E::Const => cnst(c, e),
                E::LaterCall => call(c, last),
                E::LaterConst => cnst(c, last),
                E::LaterTail => { if later_tail.is_none() { later_tail = Some(b); } else { call(c, last); } }
                k => {
                    let nb = block(c, &[]);
                    if k == E::Nested { call(c, nb); } else { cnst(c, nb); }
                    let r = region(c, &[nb]);
                    OpB::new("t", "wrap").reg(r).push(c, e);
                }
            }
        }
        let mut bs = vec![e];
        if multi {
            let i1 = ty(c, "core", "i1");
            let k = OpB::new("t", "pick").res(&[i1]).push(c, e);
            let k = c.op_results(k)[0];
            OpB::new("cf", "cond_br").opnd(&[k]).suc(&[first, last]).push(c, e);
            bs.push(first);
            bs.push(last);
        }
        for (blk, t) in [(first, tail), (last, later_tail)].into_iter().take(if multi { 2 } else { 1 }) {
            match t {
                Some(b) => { OpB::new("func", "tail_call").attr("callee", Attribute::Symbol(sym(&p.names[b]))).push(c, blk); }
                None => { let u = OpB::new("arith", "const").res(&[nil]).attr("value", Attribute::Unit).push(c, blk); let u = c.op_results(u)[0]; OpB::new("func", "return").opnd(&[u]).push(c, blk); }
            }
        }
        let r = region(c, &bs);
        let mut f = func(c, &p.names[a], nil, &[], r);
        if p.decl >> a & 1 == 1 { f.regions.clear(); }
        if p.abi >> a & 1 == 1 { f = f.attr("abi", Attribute::String("C".into())); }
        ops.push(f.build(c));
    }
    let mut top: Vec<OpRef> = ops[..p.nested_from.min(p.n)].to_vec();
    if p.nested_from < p.n { let nm = module(c, "N", &ops[p.nested_from..]); top.push(nm); }
    for a in 0..p.n { if p.export >> a & 1 == 1 { top.push(OpB::new("wasm", "export_func").attr("name", Attribute::String("e".into())).attr("func", Attribute::Symbol(sym(&p.names[a]))).build(c)); } }
    let m = module(c, "m", &top);
    Built { m, ops }
}
fn adj(p: &Prog) -> Vec<BTreeSet<usize>> {
    (0..p.n).map(|a| (0..p.n).filter(|b| p.decl >> a & 1 == 0 && KINDS[p.edges[a][*b] as usize] != E::None).collect()).collect()
}
fn closure(adj: &[BTreeSet<usize>]) -> Vec<Vec<bool>> {
    let n = adj.len();
    let mut r = vec![vec![false; n]; n];
    for a in 0..n { for b in &adj[a] { r[a][*b] = true; } }
    for k in 0..n { for a in 0..n { for b in 0..n { if r[a][k] && r[k][b] { r[a][b] = true; } } } }
    r
}
fn prog(n: usize) -> Prog {
    Prog { n, edges: vec![vec![0; n]; n], names: NAMES[..n].iter().map(|s| s.to_string()).collect(), nested_from: n, ..Default::default() }
}

fn check_graph(p: &Prog, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let b = build(&mut c, p);
    let m = Module::new(&c, b.m).expect("module");
    let g = build_call_graph(&c, m);
    let s: Vec<Symbol> = p.names.iter().map(|n| sym(n)).collect();
    let ad = adj(p);
    st.transitions(1);
    st.traces(1);
    st.state_str(&format!("{:?}{}", p.edges, p.decl));
    for a in 0..p.n {
        if g.func_ops.get(&s[a]) != Some(&b.ops[a]) { return viol("funcs", format!("function {} not recorded", p.names[a])); }
        let got: BTreeSet<String> = g.edges.get(&s[a]).map(|x| x.iter().map(|y| y.to_string()).collect()).unwrap_or_default();
        let want: BTreeSet<String> = ad[a].iter().map(|b| p.names[*b].clone()).collect();
        if got != want { return viol("edges", format!("{} -> {got:?}, expected {want:?}", p.names[a])); }
        let sites: usize = (0..p.n).filter(|x| p.decl >> x & 1 == 0).map(|x| KINDS[p.edges[x][a] as usize].calls()).sum();
        let got = g.call_site_count.get(&s[a]).copied().unwrap_or(0);
        if got != sites { return viol("sites", format!("{}: {got} call sites, expected {sites}", p.names[a])); }
        let cr = (0..p.n).any(|x| p.decl >> x & 1 == 0 && KINDS[p.edges[x][a] as usize].escapes());
        if g.has_constant_ref.contains(&s[a]) != cr { return viol("constref", format!("{}: escapes={}, expected {cr}", p.names[a], !cr)); }
    }
    if g.func_ops.len() != p.n { return viol("funcs", "extra functions"); }
    let cl = closure(&ad);
    let scc = tarjan_scc(&g);
    let rec = recursive_functions(&g);
    for a in 0..p.n {
        if rec.contains(&s[a]) != cl[a][a] { return viol("recursive", format!("{} recursive={}, expected {}", p.names[a], !cl[a][a], cl[a][a])); }
        if cl[a][a] { st.nontrivial(1); }
        for b in 0..p.n {
            let want = a == b || (cl[a][b] && cl[b][a]);
            if (scc.get(&s[a]).is_some() && scc.get(&s[a]) == scc.get(&s[b])) != want { return viol("scc", format!("{} and {} in one component: expected {want}", p.names[a], p.names[b])); }
        }
    }
    Ok(())
}

fn check_dce(p: &Prog, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let b = build(&mut c, p);
    let m = Module::new(&c, b.m).expect("module");
    let ad = adj(p);
    let mut live = vec![false; p.n];
    let mut w: Vec<usize> = vec![];
    for a in 0..p.n {
        if p.names[a] == "main" || p.names[a] == "_start" || p.abi >> a & 1 == 1 || p.export >> a & 1 == 1 || p.extra >> a & 1 == 1 { w.push(a); }
    }
    while let Some(a) = w.pop() { if live[a] { continue; } live[a] = true; w.extend(ad[a].iter()); }
    let before: Vec<String> = b.ops.iter().map(|o| canon(&c, *o)).collect();
    let cfg = GlobalDceConfig { extra_entry_points: (0..p.n).filter(|a| p.extra >> a & 1 == 1).map(|a| p.names[a].clone()).collect(), recursive: true };
    let r = if p.extra == 0 { eliminate_dead_functions(&mut c, m) } else { eliminate_dead_functions_with_config(&mut c, m, cfg) };
    st.transitions(1);
    st.traces(1);
    st.state_str(&format!("{:?}{}{}{}{}{:?}", p.edges, p.abi, p.export, p.extra, p.decl, p.names));
    // which functions are still in the module (walk everything)
    let mut present: Vec<OpRef> = vec![];
    fn walk(c: &IrContext, o: OpRef, out: &mut Vec<OpRef>) {
        for r in &c.op(o).regions { for bl in &c.region(*r).blocks { for x in &c.block(*bl).ops {
            if c.op(*x).dialect == sym("func") && c.op(*x).name == sym("func") { out.push(*x); } else { walk(c, *x, out); }
        } } }
    }
    walk(&c, b.m, &mut present);
    for a in 0..p.n {
        let here = present.contains(&b.ops[a]);
        if here != live[a] { return viol(if here { "kept-dead" } else { "removed-live" }, format!("function {} {} although it is {}reachable from the entry points", p.names[a], if here { "kept" } else { "removed" }, if live[a] { "" } else { "not " })); }
        if here && canon(&c, b.ops[a]) != before[a] { return viol("changed", format!("live function {} was modified: {}", p.names[a], diff(&before[a], &canon(&c, b.ops[a])))); }
    }
    if present.len() != live.iter().filter(|x| **x).count() { return viol("count", "module holds unexpected functions"); }
    let mut names: Vec<String> = r.removed_functions.iter().map(|x| x.to_string()).collect();
    names.sort();
    let mut want: Vec<String> = (0..p.n).filter(|a| !live[*a]).map(|a| p.names[a].clone()).collect();
    want.sort();
    if names != want || r.removed_count != want.len() { return viol("report", format!("reported removed {names:?}, expected {want:?}")); }
    if !want.is_empty() { st.nontrivial(1); }
    let v = validate_all(&c, m);
    if !v.is_ok() { return viol("invalid", format!("{v}")); }
    Ok(())
}

// ---------------------------------------------------------------- inlining, trace semantics
/// marks executed from function `f`, up to `fuel` steps
fn trace(c: &IrContext, fs: &HashMap<String, OpRef>, f: &str, pick: usize, fuel: &mut usize, out: &mut Vec<i128>) -> Result<(), String> {
    let Some(&op) = fs.get(f) else { out.push(-1); return Ok(()); };
    let Some(&r) = c.op(op).regions.first() else { out.push(-100 - f.len() as i128); return Ok(()); };
    let b = c.region(r).blocks[0];
    fn go(c: &IrContext, fs: &HashMap<String, OpRef>, b: BlockRef, pick: usize, fuel: &mut usize, out: &mut Vec<i128>) -> Result<bool, String> {
        for o in &c.block(b).ops {
            if *fuel == 0 { return Ok(false); }
            *fuel -= 1;
            let d = c.op(*o);
            let callee = || d.attributes.get_symbol("callee").map(|s| s.to_string()).unwrap_or_default();
            match format!("{}.{}", d.dialect, d.name).as_str() {
                "t.mark" => { if let Some(Attribute::Int(i)) = d.attributes.get("i") { out.push(*i); } }
                "func.call" => { trace(c, fs, &callee(), pick, fuel, out)?; if *fuel == 0 { return Ok(false); } }
                "func.tail_call" => { trace(c, fs, &callee(), pick, fuel, out)?; return Ok(false); }
                "func.return" => return Ok(true),
                "func.constant" | "arith.const" | "t.pick" => {}
                "cf.cond_br" => return go(c, fs, d.successors[pick], pick, fuel, out),
                "cf.br" => return go(c, fs, d.successors[0], pick, fuel, out),
                "t.wrap" => { let r = d.regions[0]; if *fuel == 0 { return Ok(false); } go(c, fs, c.region(r).blocks[0], pick, fuel, out)?; }
                x => return Err(format!("unexpected op {x}")),
            }
        }
        Ok(true)
    }
    go(c, fs, b, pick, fuel, out)?;
    Ok(())
}
fn funcs(c: &IrContext, m: OpRef) -> HashMap<String, OpRef> {
    let mut h = HashMap::new();
    for r in &c.op(m).regions { for bl in &c.region(*r).blocks { for x in &c.block(*bl).ops { if let Some(s) = c.op(*x).attributes.get_symbol("sym_name") { h.insert(s.to_string(), *x); } } } }
    h
}
fn check_inline(p: &Prog, cfg: InlineConfig, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let b = build(&mut c, p);
    let m = Module::new(&c, b.m).expect("module");
    let ad = adj(p);
    let cl = closure(&ad);
    let picks = if p.edges.iter().flatten().any(|k| KINDS[*k as usize].later()) { 2 } else { 1 };
    let mut before = BTreeMap::new();
    for a in 0..p.n {
        for pick in 0..picks {
            let mut o = vec![];
            let mut fuel = 300;
            trace(&c, &funcs(&c, b.m), &p.names[a], pick, &mut fuel, &mut o).map_err(|e| Violation { key: "harness".into(), detail: e })?;
            before.insert((a, pick), (o, fuel == 0));
        }
    }
    let res = guard(|| AnalysisCache::scope(&mut c, |c, am| inline_functions_with_config(c, m, cfg.clone(), am)));
    let res = match res { Ok(r) => r, Err(e) => return viol("panic", e) };
    st.transitions(1 + res.inlined_count as u64);
    st.traces(p.n as u64);
    st.state_str(&format!("{:?}{}{}{:?}", p.edges, p.abi, p.decl, cfg));
    if res.inlined_count > 0 { st.nontrivial(1); }
    let v = validate_all(&c, m);
    if !v.is_ok() { return viol("invalid", format!("{v}")); }
    let fs = funcs(&c, b.m);
    for a in 0..p.n {
        if fs.get(&p.names[a]) != Some(&b.ops[a]) { return viol("lost", format!("function {} disappeared", p.names[a])); }
        for pick in 0..picks {
        let (o0, cut) = &before[&(a, pick)];
        let mut o = vec![];
        let mut fuel = 300;
        trace(&c, &fs, &p.names[a], pick, &mut fuel, &mut o).map_err(|e| Violation { key: "shape".into(), detail: e })?;
        let n = o.len().min(o0.len());
        let same = if *cut || fuel == 0 { o[..n] == o0[..n] && (*cut && fuel == 0) } else { o == *o0 };
        if !same { return viol("effects", format!("running {} performs {:?}… after inlining, {:?}… before", p.names[a], &o[..o.len().min(20)], &o0[..o0.len().min(20)])); }
        }
    }
    // policy: copies are never made of recursive, external or escaping functions; what is left
    // over is only what the policy forbids
    let mut left: BTreeMap<usize, usize> = BTreeMap::new();
    fn calls(c: &IrContext, o: OpRef, out: &mut Vec<String>) {
        if c.op(o).dialect == sym("func") && (c.op(o).name == sym("call") || c.op(o).name == sym("tail_call")) { out.push(c.op(o).attributes.get_symbol("callee").unwrap().to_string()); }
        for r in &c.op(o).regions { for bl in &c.region(*r).blocks { for x in &c.block(*bl).ops { calls(c, *x, out); } } }
    }
    let mut cs = vec![];
    for o in &b.ops { calls(&c, *o, &mut cs); }
    for x in &cs { if let Some(i) = p.names.iter().position(|n| n == x) { *left.entry(i).or_default() += 1; } }
    let escapes = |a: usize| (0..p.n).any(|x| p.decl >> x & 1 == 0 && KINDS[p.edges[x][a] as usize].escapes());
    for a in 0..p.n {
        let forbidden = cl[a][a] || p.abi >> a & 1 == 1 || p.decl >> a & 1 == 1 || (escapes(a) && !cfg.inline_across_func_constant);
        let total: usize = (0..p.n).filter(|x| p.decl >> x & 1 == 0).map(|x| KINDS[p.edges[x][a] as usize].calls()).sum();
        let l = left.get(&a).copied().unwrap_or(0);
        if forbidden && l < total { return viol("policy", format!("a call to {} was inlined although it is recursive, external or escaping", p.names[a])); }
    }
    Ok(())
}

// ---------------------------------------------------------------- module paths
const PATHS: [&[&str]; 7] = [&[], &["N"], &["N", "N"], &["N", "M"], &["M"], &["N", "N", "N"], &["M", "N"]];
/// Functions spread over nested modules, known by their module path; they call each other by that name.
fn check_paths(i: usize, st: &Stats) -> CaseResult {
    let d = [i % 7, i / 7 % 7, i / 49 % 7, i / 343 % 2, i / 686 % 512];
    let mut ctx = IrContext::new();
    let c = &mut ctx;
    let nil = ty(c, "core", "nil");
    let leaf = ["f", "g", if d[3] == 0 { "h" } else { "f" }];
    let full: Vec<String> = (0..3).map(|k| { let mut p: Vec<&str> = PATHS[d[k]].to_vec(); p.push(leaf[k]); p.join("::") }).collect();
    st.transitions(1);
    if full[0] == full[2] { return Ok(()); }
    let mut fs = vec![];
    for a in 0..3 {
        let e = block(c, &[]);
        for b in 0..3 { if d[4] >> (a * 3 + b) & 1 == 1 { OpB::new("func", "call").res(&[nil]).attr("callee", Attribute::Symbol(sym(&full[b]))).push(c, e); } }
        OpB::new("func", "unreachable").push(c, e);
        let r = region(c, &[e]);
        fs.push(func(c, leaf[a], nil, &[], r).build(c));
    }
    fn tree(c: &mut IrContext, name: &str, at: &[&str], d: &[usize], fs: &[OpRef]) -> OpRef {
        let mut ops: Vec<OpRef> = (0..3).filter(|k| PATHS[d[*k]] == at).map(|k| fs[k]).collect();
        if at.len() < 3 { for n in ["N", "M"] {
            let mut sub = at.to_vec(); sub.push(n);
            if (0..3).any(|k| PATHS[d[k]].starts_with(&sub)) { let m = tree(c, n, &sub, d, fs); ops.push(m); }
        } }
        module(c, name, &ops)
    }
    let m = tree(c, "m", &[], &d, &fs);
    let m = Module::new(c, m).expect("module");
    let g = build_call_graph(c, m);
    st.traces(1);
    st.state_str(&format!("{d:?}"));
    let ad: Vec<BTreeSet<usize>> = (0..3).map(|a| (0..3).filter(|b| d[4] >> (a * 3 + b) & 1 == 1).collect()).collect();
    let cl = closure(&ad);
    let rec = recursive_functions(&g);
    for a in 0..3 {
        let s = sym(&full[a]);
        if g.func_ops.get(&s) != Some(&fs[a]) { return viol("paths:funcs", format!("{} is not recorded under its path", full[a])); }
        let got: BTreeSet<String> = g.edges.get(&s).map(|x| x.iter().map(|y| y.to_string()).collect()).unwrap_or_default();
        let want: BTreeSet<String> = ad[a].iter().map(|b| full[*b].clone()).collect();
        if got != want { return viol("paths:edges", format!("{} -> {got:?}, expected {want:?}", full[a])); }
        if rec.contains(&s) != cl[a][a] { return viol("paths:recursive", format!("{}: recursive={}, expected {}", full[a], !cl[a][a], cl[a][a])); }
        if cl[a][a] { st.nontrivial(1); }
    }
    Ok(())
}

fn edges_of(n: usize, i: usize, ks: &[u8]) -> Vec<Vec<u8>> {
    let d = digits(i, ks.len(), n * n);
    (0..n).map(|a| (0..n).map(|b| ks[d[a * n + b]]).collect()).collect()
}

pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let mut v: Vec<Space<'static>> = vec![];
    let mut add = |name: &'static str, n: usize, rule: &str, f: Box<dyn Fn(usize) -> Prog>, chk: Box<dyn Fn(&Prog, usize, &Stats) -> CaseResult>| {
        let f = std::rc::Rc::new(f);
        let f2 = f.clone();
        v.push(Space { name, n, rule: rule.into(), run: Box::new(move |i, st| chk(&f(i), i, st)), describe: Box::new(move |i| format!("{:?} (edge kinds 0 none,1 call,2 two calls,3 tail,4 function value,5 nested call,6 nested function value,7-9 call/function value/tail call in a later block)", f2(i))), limit: 20 });
    };
    let g4: Vec<u8> = vec![0, 1];
    let k3: Vec<u8> = tier.pick(vec![0, 1, 3, 4], vec![0, 1, 2, 3, 4]);
    let a = g4.clone();
    add("graph4", 1 << 16, "all directed graphs on 4 functions (call edges)", Box::new(move |i| { let mut p = prog(4); p.edges = edges_of(4, i, &a); p }), Box::new(|p, _, st| check_graph(p, st)));
    let a = k3.clone();
    let n3 = k3.len().pow(9);
    add("graph3", n3, "all 3-function programs, every ordered pair related by nothing, calls, a tail call or a function value", Box::new(move |i| { let mut p = prog(3); p.edges = edges_of(3, i, &a); p }), Box::new(|p, _, st| check_graph(p, st)));
    add("graph2", 10usize.pow(4) * 4, "all 2-function programs over all ten relations, each function possibly a declaration", Box::new(move |i| { let mut p = prog(2); p.edges = edges_of(2, i / 4, &ALL); p.decl = i % 4; p }), Box::new(|p, _, st| check_graph(p, st)));
    add("dce4", 1 << 16, "dead-function elimination on all directed graphs on main and 3 functions", Box::new(move |i| { let mut p = prog(4); p.edges = edges_of(4, i, &[0, 1]); p }), Box::new(|p, _, st| check_dce(p, st)));
    // roots: main absent; each function in turn abi / export / extra / named _start
    add("dce3roots", 512 * 512 * 11, "dead-function elimination on all 3-function graphs x every set of external, exported and extra entry points x naming", Box::new(move |i| {
        let mut p = prog(3);
        p.edges = edges_of(3, i % 512, &[0, 1]);
        let j = i / 512;
        p.abi = j & 7; p.export = j >> 3 & 7; p.extra = j >> 6 & 7;
        let nm = j >> 9;
        p.names = match nm { 0 => ["main", "f", "g"], 1 => ["e", "f", "g"], 2 => ["_start", "f", "g"], 3 => ["e", "main", "g"], 4 => ["e", "f", "_start"], 5 => ["main2", "N::f", "g"], 6 => ["N::main2", "_start2", "Main"], 7 => ["main", "_start", "g"], 8 => ["e", "ef", "fe"], 9 => ["main", "main::f", "f::main"], _ => ["f", "f::f", "f2"] }.iter().map(|s| s.to_string()).collect();
        p }), Box::new(move |p, i, st| { if tier == Tier::Quick && i % 512 % 7 != 0 && (p.abi & p.export != 0 || p.extra & p.export != 0) { return Ok(()); } check_dce(p, st) }));
    add("dce2", 10usize.pow(4) * 4 * 2, "dead-function elimination over all ten reference kinds, declarations, functions inside a nested module", Box::new(move |i| {
        let mut p = prog(3);
        let e = edges_of(2, i / 8, &ALL);
        p.edges[1][1] = e[0][0]; p.edges[1][2] = e[0][1]; p.edges[2][1] = e[1][0]; p.edges[0][1] = e[1][1];
        p.decl = (i & 3) << 1;
        p.names = ["main", "N::f", "N::g"].iter().map(|s| s.to_string()).collect();
        if i & 4 != 0 { p.nested_from = 1; }
        p }), Box::new(|p, _, st| check_dce(p, st)));
    let cfgs = |k: usize| InlineConfig { size_threshold: [16, 0, 3][k % 3], always_inline_single_call_site: k / 3 % 2 == 0, inline_across_func_constant: k / 6 % 2 == 1 };
    let a = g4;
    add("inline4", 1 << 16, "inlining with the default policy on all directed graphs on 4 functions", Box::new(move |i| { let mut p = prog(4); p.edges = edges_of(4, i, &a); p }), Box::new(|p, _, st| check_inline(p, InlineConfig::default(), st)));
    let ks: Vec<u8> = vec![0, 1, 3, 4];
    let nk = tier.pick(8usize, 9);
    let np = nk.pow(4);
    add("inline2", np * 4 * 4 * 12, "inlining on all 2-function programs called from main over all reference kinds x external/declared flags x every policy", Box::new(move |i| {
        let mut p = prog(3);
        let e = digits(i / 192, nk, 4);
        let kk = tier.pick([0u8, 1, 3, 4, 5, 7, 8, 9, 2], [0u8, 1, 2, 3, 4, 5, 7, 8, 9]);
        p.edges[0][1] = kk[e[0]]; p.edges[0][2] = kk[e[1]]; p.edges[1][2] = kk[e[2]]; p.edges[2][2] = kk[e[3]];
        p.abi = (i / 12 & 3) << 1; p.decl = (i / 48 & 3) << 1;
        p }), Box::new(move |p, i, st| check_inline(p, cfgs(i % 12), st)));
    let n = tier.pick(4usize.pow(8), 4usize.pow(9));
    add("inline3", n, "inlining on all 3-function programs, every ordered pair related by nothing, a call, a tail call or a function value", Box::new(move |i| { let mut p = prog(3); p.edges = edges_of(3, i, &ks); p }), Box::new(|p, _, st| check_inline(p, InlineConfig::default(), st)));
    let _ = add;
    v.push(Space { name: "paths", n: 686 * 512, rule: "call graph and recursion of 3 functions over every placement in nested modules (repeated module and function names included) x every call relation".into(),
        run: Box::new(check_paths), describe: Box::new(|i| format!("paths {:?} {:?} {:?} leaf {} calls {:09b}", PATHS[i % 7], PATHS[i / 7 % 7], PATHS[i / 49 % 7], i / 343 % 2, i / 686 % 512)), limit: 20 });
    v
}
