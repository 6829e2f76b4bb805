//! C09: emitted WebAssembly computes exactly what the IR says, for scalar code and calls.
use crate::engine::*;
use crate::gener;
use crate::interp::V;
use crate::pipe;
use crate::props::native::{self, OpCase, Ref};
use crate::props::optimize::{self, St};
use crate::wexec::{self, Call};
use trunk_ir::*;

/// The wasm form of a test module: observers are imports, tested functions are exports.
pub fn prepare(text: &str, exports: &[String]) -> String {
    let mut out = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        if let Some(r) = l.trim_start().strip_prefix("func.func @__obs_") {
            let name = &r[..r.find('(').unwrap()];
            let ty = r[r.find(": ").map(|i| i + 2).unwrap_or(0)..].split(')').next().unwrap();
            let ty = if name == "nil" { String::new() } else { format!(", {ty}") };
            out += &format!("  wasm.import_func {{module = @env, name = @__obs_{name}, sym_name = @__obs_{name}, type = core.func(core.nil{ty})}}\n");
            while lines.next().map(|x| x.trim() != "}").unwrap_or(false) {}
            continue;
        }
        if l.trim_start().starts_with("func.func @__in_i32") {
            out += "  wasm.import_func {module = @env, name = @__in_i32, sym_name = @__in_i32, type = core.func(core.i32)}\n";
            while lines.next().map(|x| x.trim() != "}").unwrap_or(false) {}
            continue;
        }
        out += l;
        out.push('\n');
    }
    let end = out.trim_end().rfind('}').unwrap();
    let ex: String = exports.iter().map(|e| format!("  wasm.export_func {{func = @{e}, name = \"{e}\"}}\n")).collect();
    out.insert_str(end, &ex);
    out
}
pub fn emit(text: &str) -> Result<Vec<u8>, String> {
    let mut c = IrContext::new();
    let m = pipe::parse(&mut c, text)?;
    pipe::emit_wasm(&mut c, m)
}
pub fn compile(text: &str, key: &str) -> Result<Vec<u8>, Violation> {
    match guard(|| emit(text)) {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => viol(format!("{key}:compile"), format!("the WebAssembly backend rejects the program: {e}\n{text}")),
        Err(p) => viol(format!("{key}:panic"), format!("the WebAssembly backend panics: {p}\n{text}")),
    }
}
pub fn check(text: &str, calls: &[(String, Vec<V>)], key: &str, st: &Stats) -> CaseResult {
    let mut names: Vec<String> = calls.iter().map(|c| c.0.clone()).collect();
    names.sort();
    names.dedup();
    let wt = prepare(text, &names);
    let b = compile(&wt, key)?;
    let r = Ref::new(text)?;
    let mut qs = vec![];
    let mut want = vec![];
    for (f, a) in calls {
        let w = r.run(f, a.clone())?;
        let cut = w.1 == "diverge";
        if cut && w.0.len() < 50 { continue; }
        qs.push(Call { f: f.clone(), args: a.clone(), limit: if cut { 50 } else { 8000 }, fresh: false, writes: vec![] });
        want.push((w, cut));
    }
    st.transitions(1);
    let got = match wexec::run(&b, &qs) {
        Err(e) => panic!("{e}"),
        Ok(Err(e)) => return viol(format!("{key}:invalid"), format!("the emitted module is invalid: {e}\n{wt}")),
        Ok(Ok(g)) => g,
    };
    for ((q, (w, cut)), g) in qs.iter().zip(&want).zip(&got) {
        let g = wexec::outcome(g, r.kind(&q.f));
        st.traces(1);
        if if *cut { g.0 != w.0 } else { g != *w } { return viol(native::call_key(key, &q.f, &q.args), format!("@{}{:?}: expected {w:?}, WebAssembly gives {g:?}\n{text}", q.f, q.args)); }
    }
    Ok(())
}
fn op_cases() -> Vec<OpCase> {
    native::op_cases().into_iter().filter(|k| ![k.src, k.dst].iter().any(|t| ["core.i8", "core.i16", "tribute_rt.float"].contains(t))).collect()
}
fn op_case(k: &OpCase, st: &Stats) -> CaseResult {
    let (t, fs) = native::op_text(k);
    let key = format!("{}{}:{}:{}", k.op, k.attrs.replace([' ', '{', '}', '='], ""), k.src, k.dst);
    let vs = native::vals(k.src);
    let mut calls = vec![];
    for (f, np) in &fs {
        st.state_str(&format!("{key}:{f}"));
        match np {
            0 => calls.push((f.clone(), vec![])),
            1 => for a in &vs { calls.push((f.clone(), vec![a.clone()])) },
            _ => for a in &vs { for b in &vs { calls.push((f.clone(), vec![a.clone(), b.clone()])) } },
        }
    }
    st.nontrivial(1);
    check(&t, &calls, &key, st)
}
fn flow_case(progs: &[String], st: &Stats) -> CaseResult {
    let t = native::batch(progs);
    let mut calls = vec![];
    for i in 0..progs.len() { for a in optimize::inputs() { calls.push((format!("f{i}"), a)); } }
    for p in progs { st.state_str(p); st.nontrivial(1); }
    check(&t, &calls, "flow", st)
}
fn abi_case(ps: &[usize], st: &Stats) -> CaseResult {
    let t = native::abi_text(ps, true);
    let mut calls = vec![];
    for f in native::abi_funcs(ps, true) { for x in [0u64, 5, 0xffff_fff0] { calls.push((f.clone(), vec![V::I(x, 32)])); } }
    st.state_str(&t);
    st.nontrivial(1);
    check(&t, &calls, "abi", st)
}
fn deep_case(a: usize, b: usize, st: &Stats) -> CaseResult {
    let t = native::deep_text(a, b, true);
    for k in 1..4u64 { check(&t, &[("f".into(), vec![V::I(k, 32)])], "deep", st)?; }
    let r = Ref::new(&t)?;
    let mut want = r.run("f", vec![V::I(1, 32)])?;
    *want.0.last_mut().unwrap() = format!("i64:[{}:i64]", 5 + native::DEEP * (native::DEEP + 1) / 2);
    let bytes = compile(&prepare(&t, &["f".to_string()]), "deep")?;
    let q = [Call { f: "f".into(), args: vec![V::I(native::DEEP, 32)], limit: 8000, fresh: false, writes: vec![] }];
    let g = match wexec::run(&bytes, &q) { Err(e) => panic!("{e}"), Ok(Err(e)) => return viol("deep:invalid", e), Ok(Ok(g)) => wexec::outcome(&g[0], r.kind("f")) };
    st.traces(1); st.transitions(native::DEEP * 2); st.nontrivial(1); st.state_str(&t);
    if g != want { return viol("deep", format!("{} chained tail calls: expected {want:?}, WebAssembly gives {g:?}\n{t}", native::DEEP)); }
    Ok(())
}
pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    let ops = std::rc::Rc::new(op_cases());
    let o2 = ops.clone();
    v.push(Space { name: "operations", n: ops.len(), rule: "every arithmetic, comparison and conversion operation at every supported type, over all pairs of boundary values, with parameter and constant operands in each position".into(),
        run: Box::new(move |i, st| op_case(&ops[i], st)), describe: Box::new(move |i| native::op_text(&o2[i]).0), limit: 60 });
    use St::*;
    let mut prog = |name: &'static str, rule: &str, budget: usize, menu: &'static [St], callees: &'static [&'static str], conds: &'static [&'static str], tail: bool| {
        let g = move |ch: &mut gener::Ch| optimize::program(ch, budget, menu, callees, conds, tail);
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        let bt = native::BATCH;
        v.push(Space { name, n: cases.len().div_ceil(bt), rule: format!("{rule}; every program with at most {budget} statements, nesting depth 3, compiled {bt} to a module, all 12 inputs"),
            run: Box::new(move |i, st| flow_case(&cases[i * bt..((i + 1) * bt).min(cases.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>(), st)),
            describe: Box::new(move |i| native::batch(&c2[i * bt..((i + 1) * bt).min(c2.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>())), limit: 90 });
    };
    let b = if t { 4 } else { 3 };
    prog("flow-if", "conditionals, arithmetic", b, &[If, Add], &["leaf"], &["%c", "%d"], false);
    prog("flow-loop", "loops with break/continue at every depth", b, &[Loop, If, Add], &["leaf"], &["%c"], false);
    prog("flow-call", "direct, indirect and recursive calls in conditionals", 3, &[Call, If], &["leaf", "branch", "tailer", "down", "valued"], &["%c"], false);
    prog("flow-void", "unit-valued conditionals", 3, &[VoidIf, Call, Add], &["branch", "leaf"], &["%c", "0"], false);
    let _ = prog;
    let lists = std::rc::Rc::new(native::abi_lists(t).into_iter().filter(|l| !l.contains(&3)).collect::<Vec<_>>());
    let l2 = lists.clone();
    v.push(Space { name: "abi", n: lists.len(), rule: "every parameter-type list up to the length bound over i32, i64, f64, nil, f32 and long lists, direct, indirect and tail calls, every result type".into(),
        run: Box::new(move |i, st| abi_case(&lists[i], st)), describe: Box::new(move |i| native::abi_text(&l2[i], true)), limit: 60 });
    let m = if t { 10 } else { 6 };
    v.push(Space { name: "deep", n: m * m, rule: format!("functions with every pair of parameter counts below {m} calling each other {} times in guaranteed tail position, directly and through function values", native::DEEP),
        run: Box::new(move |i, st| deep_case(i / m, i % m, st)), describe: Box::new(move |i| native::deep_text(i / m, i % m, true)), limit: 60 });
    v
}
