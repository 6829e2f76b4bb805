//! C08: native code computes exactly what the IR says, for scalar code and calls.
use crate::engine::*;
use crate::exec::{Arg, Native, Ran};
use crate::gener;
use crate::interp::{self, V};
use crate::pipe;
use crate::props::optimize::{self, St};
use trunk_ir::rewrite::Module;
use trunk_ir::*;

pub fn emit(text: &str) -> Result<Native, String> {
    let mut c = IrContext::new();
    let m = pipe::parse(&mut c, text)?;
    let obj = pipe::emit_native(&mut c, m, pipe::NativeOpts::PROD)?;
    Native::load(&obj)
}
pub fn to_arg(v: &V) -> Arg {
    match v {
        V::I(x, _) => Arg::I(*x),
        V::F32(x) => Arg::F(*x as u64),
        V::F64(x) => Arg::F(*x),
        _ => Arg::I(0),
    }
}
/// Shape of a result: what kind of value to read back.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { I(u32), F32, F64, Nil }
pub fn kind(c: &IrContext, f: OpRef) -> K {
    let t = c.op(f).attributes.get_type("type").expect("function type");
    let r = c.types.get(t).params[0];
    kind_of(c, r)
}
pub fn kind_of(c: &IrContext, r: TypeRef) -> K {
    if let Some(w) = interp::width(c, r) { return K::I(w); }
    match c.types.get(r).name.to_string().as_str() { "f32" => K::F32, "f64" | "float" => K::F64, _ => K::Nil }
}
pub fn outcome(r: &Ran, k: K) -> (Vec<String>, String) {
    let end = match r.sig {
        0 => {
            let v = match k {
                // i1 travels as a full 32-bit 0/1
                K::I(1) => V::I(r.int & 0xffff_ffff, 1),
                K::I(w) => V::I(interp::mask(r.int, w), w),
                K::F32 => V::F32(r.float as u32),
                K::F64 => V::F64(r.float),
                K::Nil => V::Nil,
            };
            format!("return {}", interp::show(&v))
        }
        14 => "diverge".into(),
        4 | 8 | 5 | 6 => "trap".into(),
        s => format!("signal {s}"),
    };
    (r.trace.clone(), end)
}
pub struct Ref { pub c: IrContext, pub m: Module }
impl Ref {
    pub fn new(text: &str) -> Result<Ref, Violation> { let (c, m) = optimize::parse(text)?; Ok(Ref { c, m }) }
    pub fn kind(&self, f: &str) -> K { kind(&self.c, optimize::find(&self.c, self.m, f)) }
    pub fn run(&self, f: &str, a: Vec<V>) -> Result<(Vec<String>, String), Violation> {
        interp::outcome(&self.c, self.m.op(), f, a).map_err(|e| Violation { key: "generator".into(), detail: format!("reference cannot run @{f}: {e}") })
    }
}
pub fn compile(text: &str, key: &str) -> Result<Native, Violation> {
    match guard(|| emit(text)) {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => viol(format!("{key}:compile"), format!("the native backend rejects the program: {e}\n{text}")),
        Err(p) => viol(format!("{key}:panic"), format!("the native backend panics: {p}\n{text}")),
    }
}
/// Violations of a single operation are identified by the failing call as well.
pub fn call_key(key: &str, f: &str, args: &[V]) -> String {
    if key.starts_with("arith.") { format!("{key}@{f}({})", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(",")) } else { key.to_string() }
}
pub fn compare(r: &Ref, n: &Native, f: &str, args: &[V], key: &str, text: &str, st: &Stats) -> CaseResult {
    let want = r.run(f, args.to_vec())?;
    // a run the reference cuts off is compared on its first 50 observations
    let cut = want.1 == "diverge";
    if cut && want.0.len() < 50 { return Ok(()); }
    crate::exec::limit(if cut { 50 } else { 8000 });
    let got = n.call(f, &args.iter().map(to_arg).collect::<Vec<_>>()).map_err(|e| Violation { key: format!("{key}:symbol"), detail: e })?;
    st.traces(1);
    if !got.heap_err.is_empty() { return viol(format!("{key}:heap"), format!("@{f}{args:?}: {}\n{text}", got.heap_err)); }
    let g = outcome(&got, r.kind(f));
    if if cut { g.0 != want.0 } else { g != want } { return viol(call_key(key, f, args), format!("@{f}{args:?}: expected {want:?}, native code gives {g:?}\n{text}")); }
    Ok(())
}

pub const BIN: &[&str] = &["addi", "subi", "muli", "divsi", "divui", "remsi", "remui", "and", "or", "xor", "shl", "shr", "shru"];
pub const CMP: &[&str] = &["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"];
pub const FBIN: &[&str] = &["addf", "subf", "mulf", "divf"];
pub const FCMP: &[&str] = &["oeq", "une", "olt", "ole", "ogt", "oge"];
pub fn ints(w: u32) -> Vec<u64> {
    let mut v: Vec<u64> = [0i128, 1, -1, 2, 3, 7, -7, 31, 32, 33, 63, 100, -128, 127, (1 << (w - 1)) - 1, -(1 << (w - 1)), -(1 << (w - 1)) + 1, 1 << (w - 2)].iter().map(|x| interp::mask(*x as u64, w)).collect();
    v.sort();
    v.dedup();
    v
}
pub fn floats() -> Vec<f64> {
    vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.9999999, 1.5, -1.5, 2.5, 3.0, -7.25, 2147483647.0, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5, -2147483649.0, 4294967295.0, 4294967295.5, 4294967296.0, 9007199254740993.0, 9.2233720368547748e18, 9223372036854775808.0, -9223372036854775808.0, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, 0.1]
}
pub fn vals(t: &str) -> Vec<V> {
    match t {
        "core.f64" | "tribute_rt.float" => floats().into_iter().map(|x| V::F64(x.to_bits())).collect(),
        "core.f32" => floats().into_iter().map(|x| V::F32((x as f32).to_bits())).collect(),
        "core.i1" | "tribute_rt.bool" => vec![V::I(0, 1), V::I(1, 1)],
        "tribute_rt.int" | "tribute_rt.nat" => ints(32).into_iter().map(|x| V::I(x, 32)).collect(),
        t => { let w: u32 = t[6..].parse().unwrap(); ints(w).into_iter().map(|x| V::I(x, w)).collect() }
    }
}
fn lit(v: &V) -> Option<String> {
    Some(match v { V::I(x, 1) => format!("{}", *x == 1), V::I(x, w) => format!("{}", interp::sext(*x, *w)), V::F64(b) => { let f = f64::from_bits(*b); if !f.is_finite() { return None; } let s = format!("{f}"); if s.contains('.') { s } else { s + ".0" } } _ => return None })
}

#[derive(Clone, Debug)]
pub struct OpCase { pub op: String, pub attrs: String, pub src: &'static str, pub dst: &'static str, pub arity: usize }
/// One operation as a family of functions: every mix of parameter and constant operands.
pub fn op_text(k: &OpCase) -> (String, Vec<(String, usize)>) {
    let mut t = String::from("core.module @m {\n");
    let mut fs = vec![];
    let OpCase { op, attrs, src, dst, arity } = k;
    let vs = vals(src);
    let mut add = |name: String, params: &[&str], pre: String, a: &str, b: &str| {
        let ps = params.iter().map(|p| format!("{p}: {src}")).collect::<Vec<_>>().join(", ");
        let ops = if *arity == 2 { format!("{a}, {b}") } else { a.to_string() };
        t += &format!("  func.func @{name}({ps}) -> {dst} {{\n{pre}    %r = {op} {ops}{attrs} : {dst}\n    func.return %r\n  }}\n");
        fs.push((name, params.len()));
    };
    if *arity == 2 {
        add("pp".into(), &["%a", "%b"], String::new(), "%a", "%b");
        add("aa".into(), &["%a"], String::new(), "%a", "%a");
    } else {
        add("pp".into(), &["%a"], String::new(), "%a", "");
    }
    for (i, v) in vs.iter().enumerate() {
        let Some(l) = lit(v) else { continue };
        let pre = format!("    %k = arith.const {{value = {l}}} : {src}\n");
        if *arity == 2 {
            add(format!("cp{i}"), &["%b"], pre.clone(), "%k", "%b");
            add(format!("pc{i}"), &["%a"], pre.clone(), "%a", "%k");
        } else {
            add(format!("cp{i}"), &[], pre, "%k", "");
        }
    }
    t.push_str("}\n");
    (t, fs)
}
pub fn op_cases() -> Vec<OpCase> {
    let mut v = vec![];
    let mut p = |op: &str, attrs: &str, src, dst, arity| v.push(OpCase { op: format!("arith.{op}"), attrs: attrs.into(), src, dst, arity });
    for t in ["core.i8", "core.i16", "core.i32", "core.i64", "tribute_rt.int", "tribute_rt.nat"] {
        for o in BIN { p(o, "", t, t, 2); }
        for c in CMP { p("cmpi", &format!(" {{predicate = @{c}}}"), t, "core.i1", 2); }
        p("negi", "", t, t, 1);
    }
    for o in ["and", "or", "xor"] { p(o, "", "core.i1", "core.i1", 2); }
    for c in ["eq", "ne"] { p("cmpi", &format!(" {{predicate = @{c}}}"), "core.i1", "core.i1", 2); }
    for t in ["core.f64", "tribute_rt.float", "core.f32"] {
        for o in FBIN { p(o, "", t, t, 2); }
        for c in FCMP { p("cmpf", &format!(" {{predicate = @{c}}}"), t, "core.i1", 2); }
        p("negf", "", t, t, 1);
    }
    const W: [&str; 4] = ["core.i8", "core.i16", "core.i32", "core.i64"];
    for (i, s) in W.iter().enumerate() { for (j, d) in W.iter().enumerate() {
        if i != j { p("cast", "", s, d, 1); }
        if i > j { p("trunc", "", s, d, 1); }
        if i < j { p("extend", "", s, d, 1); }
    } }
    for (s, d) in [("tribute_rt.int", "core.i64"), ("tribute_rt.nat", "core.i64"), ("core.f32", "core.f64")] { p("extend", "", s, d, 1); }
    for (s, d) in [("tribute_rt.int", "core.i64"), ("core.i64", "tribute_rt.int"), ("core.i64", "tribute_rt.nat"), ("core.i8", "tribute_rt.int")] { p("cast", "", s, d, 1); }
    for s in ["core.i32", "core.i64", "tribute_rt.int", "tribute_rt.nat"] { for d in ["core.f32", "core.f64"] { p("convert", "", s, d, 1); p("convert", "", d, s, 1); } }
    for s in ["core.f32", "core.f64"] { for d in ["core.i32", "core.i64", "tribute_rt.int"] { p("trunc", "", s, d, 1); } }
    p("convert", "", "tribute_rt.int", "tribute_rt.float", 1);
    p("convert", "", "tribute_rt.float", "tribute_rt.int", 1);
    p("convert", "", "tribute_rt.nat", "tribute_rt.float", 1);
    p("convert", "", "tribute_rt.float", "tribute_rt.nat", 1);
    p("convert", "", "core.f32", "core.f64", 1);
    p("convert", "", "core.f64", "core.f32", 1);
    v
}
fn op_case(k: &OpCase, st: &Stats) -> CaseResult {
    let (t, fs) = op_text(k);
    let key = format!("{}{}:{}:{}", k.op, k.attrs.replace([' ', '{', '}', '='], ""), k.src, k.dst);
    let n = compile(&t, &key)?;
    let r = Ref::new(&t)?;
    let vs = vals(k.src);
    for (f, np) in &fs {
        st.state_str(&format!("{key}:{f}"));
        match np {
            0 => compare(&r, &n, f, &[], &key, "", st)?,
            1 => for a in &vs { compare(&r, &n, f, &[a.clone()], &key, "", st)? },
            _ => for a in &vs { for b in &vs { compare(&r, &n, f, &[a.clone(), b.clone()], &key, "", st)? } },
        }
        st.transitions(1);
    }
    st.nontrivial(1);
    Ok(())
}

// ------------------------------------------------------------------ control flow
pub const BATCH: usize = 24;
/// Join programs that share helpers into one module with functions f0, f1, ...
pub fn batch(progs: &[String]) -> String {
    let head = format!("core.module @m {{\n{}{}", optimize::PRELUDE, optimize::HELPERS);
    let mut t = head.clone();
    for (i, p) in progs.iter().enumerate() {
        let body = &p[head.len()..p.rfind('}').unwrap()];
        t += &body.replace("func.func @f(", &format!("func.func @f{i}("));
    }
    // tail calls belong to the continuation-passing convention (space "tail")
    (t + "}\n").replace("func.tail_call %r {callee = @branch}", "%t = func.call %r {callee = @branch} : core.i32\n    func.return %t")
}
fn flow_case(progs: &[String], st: &Stats) -> CaseResult {
    let t = batch(progs);
    let n = compile(&t, "flow")?;
    let r = Ref::new(&t)?;
    st.transitions(1);
    for (i, p) in progs.iter().enumerate() {
        for a in optimize::inputs() { compare(&r, &n, &format!("f{i}"), &a, "flow", p, st)?; }
        st.state_str(p);
        st.nontrivial(1);
    }
    Ok(())
}

// ------------------------------------------------------------------ calls
pub const PT: &[&str] = &["core.i32", "core.i64", "core.f64", "core.i8", "core.nil", "core.f32"];
/// A callee that observes each parameter and returns one of them, a caller that passes distinct
/// values, directly and through a function value.
pub fn abi_text(ps: &[usize], tail: bool) -> String {
    let mut t = String::from("core.module @m {\n");
    for (n, ty) in [("i32", "core.i32"), ("i64", "core.i64"), ("f64", "core.f64"), ("i8", "core.i8"), ("f32", "core.f32")] {
        if !ps.iter().any(|p| PT[*p] == ty) { continue; }
        t += &format!("  func.func @__obs_{n}(%0: {ty}) -> core.nil attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}\n");
    }
    let pl = ps.iter().enumerate().map(|(i, p)| format!("%p{i}: {}", PT[*p])).collect::<Vec<_>>().join(", ");
    let pts = ps.iter().map(|p| PT[*p]).collect::<Vec<_>>();
    let mut rets: Vec<&str> = vec!["core.nil", "core.i32"];
    for p in &pts { if !rets.contains(p) { rets.push(p); } }
    let obs = ps.iter().enumerate().filter(|(_, p)| **p != 4).map(|(i, p)| format!("    %o{i} = func.call %p{i} {{callee = @__obs_{}}} : core.nil\n", &PT[*p][5..])).collect::<String>();
    for (j, rt) in rets.iter().enumerate() {
        // prefer the last parameter of that type
        let pick = pts.iter().rposition(|p| p == rt);
        let (pre, v) = match pick { Some(i) => (String::new(), format!("%p{i}")), None if *rt == "core.nil" => ("    %z = arith.const {value = unit} : core.nil\n".into(), "%z".to_string()), None => ("    %z = arith.const {value = 77} : core.i32\n".into(), "%z".into()) };
        t += &format!("  func.func @callee{j}({pl}) -> {rt} {{\n{obs}{pre}    func.return {v}\n  }}\n");
        let mut body = String::new();
        for (i, p) in ps.iter().enumerate() {
            let b = 11 * (i as i64 + 1);
            body += &match PT[*p] {
                "core.i32" => format!("    %k{i} = arith.const {{value = {}}} : core.i32\n    %a{i} = arith.addi %x, %k{i} : core.i32\n", -b),
                "core.i64" => format!("    %k{i} = arith.const {{value = {}}} : core.i64\n    %e{i} = arith.extend %x : core.i64\n    %a{i} = arith.addi %e{i}, %k{i} : core.i64\n", (b << 33) + b),
                "core.f64" => format!("    %k{i} = arith.const {{value = {b}.5}} : core.f64\n    %e{i} = arith.convert %x : core.f64\n    %a{i} = arith.addf %e{i}, %k{i} : core.f64\n"),
                "core.f32" => format!("    %k{i} = arith.const {{value = {b}}} : core.i32\n    %e{i} = arith.addi %x, %k{i} : core.i32\n    %a{i} = arith.convert %e{i} : core.f32\n"),
                "core.i8" => format!("    %k{i} = arith.const {{value = {}}} : core.i8\n    %e{i} = arith.trunc %x : core.i8\n    %a{i} = arith.addi %e{i}, %k{i} : core.i8\n", b % 100),
                _ => format!("    %a{i} = arith.const {{value = unit}} : core.nil\n"),
            };
        }
        let al = (0..ps.len()).map(|i| format!("%a{i}")).collect::<Vec<_>>().join(", ");
        let sp = if al.is_empty() { "" } else { " " };
        t += &format!("  func.func @direct{j}(%x: core.i32) -> {rt} {{\n{body}    %r = func.call{sp}{al} {{callee = @callee{j}}} : {rt}\n    func.return %r\n  }}\n");
        let ft = format!("core.func({})", std::iter::once(*rt).chain(pts.iter().copied()).collect::<Vec<_>>().join(", "));
        let al2 = if al.is_empty() { String::new() } else { format!(", {al}") };
        t += &format!("  func.func @indirect{j}(%x: core.i32) -> {rt} {{\n{body}    %g = func.constant {{func_ref = @callee{j}}} : {ft}\n    %r = func.call_indirect %g{al2} : {rt}\n    func.return %r\n  }}\n");
        if tail && *rt == "core.nil" {
            // continuation-passing convention: unit result, guaranteed tail calls
            let cc = "attributes {tribute.calling_convention = 2} ";
            t += &format!("  func.func @k{j}({pl}) -> core.nil {cc}{{\n{obs}{pre}    func.return {v}\n  }}\n");
            t += &format!("  func.func @t{j}(%x: core.i32) -> core.nil {cc}{{\n{body}    func.tail_call{sp}{al} {{callee = @k{j}}}\n  }}\n");
            t += &format!("  func.func @ti{j}(%x: core.i32) -> core.nil {cc}{{\n{body}    %g = func.constant {{func_ref = @k{j}}} : {ft}\n    func.tail_call_indirect %g{al2} {{func.indirect_call_signature = {ft}, tribute.calling_convention = 2}}\n  }}\n");
            t += &format!("  func.func @tail{j}(%x: core.i32) -> core.nil {{\n    %r = func.call %x {{callee = @t{j}}} : core.nil\n    func.return %r\n  }}\n");
            t += &format!("  func.func @tailind{j}(%x: core.i32) -> core.nil {{\n    %r = func.call %x {{callee = @ti{j}}} : core.nil\n    func.return %r\n  }}\n");
        }
    }
    t + "}\n"
}
pub fn abi_funcs(ps: &[usize], tail: bool) -> Vec<String> {
    let mut n = vec!["core.nil", "core.i32"];
    for p in ps { if !n.contains(&PT[*p]) { n.push(PT[*p]); } }
    let mut v = vec![];
    for j in 0..n.len() { v.push(format!("direct{j}")); v.push(format!("indirect{j}")); if tail && n[j] == "core.nil" { v.push(format!("tail{j}")); v.push(format!("tailind{j}")); } }
    v
}
fn abi_case(ps: &[usize], st: &Stats) -> CaseResult {
    let t = abi_text(ps, true);
    let n = compile(&t, "abi")?;
    let r = Ref::new(&t)?;
    for f in abi_funcs(ps, true) {
        for x in [0u64, 5, 0xffff_fff0] { compare(&r, &n, &f, &[V::I(x, 32)], "abi", &t, st)?; }
        st.transitions(1);
    }
    st.state_str(&t);
    st.nontrivial(1);
    Ok(())
}
pub fn abi_lists(t: bool) -> Vec<Vec<usize>> {
    let k = PT.len();
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for len in 1..=(if t { 4 } else { 3 }) { for i in 0..k.pow(len as u32) { v.push((0..len).map(|p| i / k.pow(p as u32) % k).collect()); } }
    // long lists: spill to the stack, every rotation of the type menu and uniform lists
    for n in [6usize, 7, 8, 9, 12] { for r in 0..k { v.push((0..n).map(|i| (i + r) % k).collect()); v.push(vec![r; n]); } }
    v
}

// ------------------------------------------------------------------ unbounded tail calls
pub const DEEP: u64 = 300_000;
/// `step` counts down through `hop`; every hop is a guaranteed tail call, one direct and one
/// through a function value, between functions with `a` and `b` extra parameters.
pub fn deep_text(a: usize, b: usize, wasm: bool) -> String {
    let ty = |i: usize| ["core.i64", "core.f64", "core.i32"][i % 3];
    let cc = "attributes {tribute.calling_convention = 2} ";
    let list = |n: usize| (0..n).map(|i| format!(", %p{i}: {}", ty(i))).collect::<String>();
    let tys = |n: usize| (0..n).map(|i| format!(", {}", ty(i))).collect::<String>();
    let ft = |n: usize| format!("core.func(core.nil, core.i32, core.i64{})", tys(n));
    let consts = |n: usize, m: usize, pre: &str| (0..n).map(|i| if i < m { String::new() } else { match ty(i) {
        "core.f64" => format!("    %{pre}{i} = arith.const {{value = {}.25}} : core.f64\n", i + 1),
        t => format!("    %{pre}{i} = arith.const {{value = {}}} : {t}\n", 1000 + i),
    } }).collect::<String>();
    let args = |n: usize, m: usize, pre: &str| (0..n).map(|i| if i < m { format!(", %p{i}") } else { format!(", %{pre}{i}") }).collect::<String>();
    let obs = (0..a).map(|i| format!("    %o{i} = func.call %p{i} {{callee = @__obs_{}}} : core.nil\n", &ty(i)[5..])).collect::<String>();
    let mut t = String::from("core.module @m {\n");
    for (n, k) in [("i64", "core.i64"), ("f64", "core.f64"), ("i32", "core.i32")] {
        t += &format!("  func.func @__obs_{n}(%0: {k}) -> core.nil attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}\n");
    }
    t += &format!("  func.func @done(%n: core.i32, %acc: core.i64{}) -> core.nil {cc}{{\n{obs}    %u = func.call %acc {{callee = @__obs_i64}} : core.nil\n    %z = arith.const {{value = unit}} : core.nil\n    func.return %z\n  }}\n", list(a));
    t += &format!("  func.func @hop(%n: core.i32, %acc: core.i64{}) -> core.nil {cc}{{\n{}    %z = arith.const {{value = 0}} : core.i32\n    %c = arith.cmpi %n, %z {{predicate = @eq}} : core.i1\n    %f = scf.if %c : {ft} {{\n      %g = func.constant {{func_ref = @done}} : {ft}\n      scf.yield %g\n    }} {{\n      %h = func.constant {{func_ref = @step}} : {ft}\n      scf.yield %h\n    }}\n    func.tail_call_indirect %f, %n, %acc{} {{func.indirect_call_signature = {ft}, tribute.calling_convention = 2}}\n  }}\n", list(b), consts(a, b, "q"), args(a, b, "q"), ft = if wasm { "core.i32".to_string() } else { ft(a) });
    t += &format!("  func.func @step(%n: core.i32, %acc: core.i64{}) -> core.nil {cc}{{\n{}    %one = arith.const {{value = 1}} : core.i32\n    %w = arith.extend %n : core.i64\n    %s = arith.addi %acc, %w : core.i64\n    %m = arith.subi %n, %one : core.i32\n    func.tail_call %m, %s{} {{callee = @hop}}\n  }}\n", list(a), consts(b, a, "r"), args(b, a, "r"));
    let zs = consts(a, 0, "s");
    t += &format!("  func.func @f(%n: core.i32) -> core.nil {{\n{zs}    %acc = arith.const {{value = 5}} : core.i64\n    %r = func.call %n, %acc{} {{callee = @step}} : core.nil\n    func.return %r\n  }}\n}}\n", args(a, 0, "s"));
    if wasm { t = t.replace(&format!("func.indirect_call_signature = core.i32"), &format!("func.indirect_call_signature = {}", ft(a))); }
    t
}
fn deep_case(a: usize, b: usize, st: &Stats) -> CaseResult {
    let t = deep_text(a, b, false);
    let n = compile(&t, "deep")?;
    let r = Ref::new(&t)?;
    for k in 1..4u64 { compare(&r, &n, "f", &[V::I(k, 32)], "deep", &t, st)?; }
    let small = r.run("f", vec![V::I(1, 32)])?;
    crate::exec::limit(8000);
    let got = n.call("f", &[to_arg(&V::I(DEEP, 32))]).map_err(|e| Violation { key: "deep:symbol".into(), detail: e })?;
    let g = outcome(&got, r.kind("f"));
    let mut want = small.clone();
    *want.0.last_mut().unwrap() = format!("i64:[{}:i64]", 5 + DEEP * (DEEP + 1) / 2);
    st.traces(1); st.transitions(DEEP * 2); st.nontrivial(1); st.state_str(&t);
    if g != want { return viol("deep", format!("{DEEP} chained tail calls: expected {want:?}, native code gives {g:?}\n{t}")); }
    Ok(())
}

pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let t = tier == Tier::Thorough;
    let mut v: Vec<Space> = vec![];
    let ops = std::rc::Rc::new(op_cases());
    let o2 = ops.clone();
    v.push(Space { name: "operations", n: ops.len(), rule: "every arithmetic, comparison and conversion operation at every type, over all pairs of boundary values, with parameter and constant operands in each position".into(),
        run: Box::new(move |i, st| op_case(&ops[i], st)), describe: Box::new(move |i| op_text(&o2[i]).0), limit: 60 });
    use St::*;
    let mut prog = |name: &'static str, rule: &str, budget: usize, menu: &'static [St], callees: &'static [&'static str], conds: &'static [&'static str], tail: bool| {
        let g = move |ch: &mut gener::Ch| optimize::program(ch, budget, menu, callees, conds, tail);
        let cases = std::rc::Rc::new(gener::all(g));
        let c2 = cases.clone();
        let n = cases.len().div_ceil(BATCH);
        v.push(Space { name, n, rule: format!("{rule}; every program with at most {budget} statements, nesting depth 3, compiled {BATCH} to a module, all 12 inputs"),
            run: Box::new(move |i, st| flow_case(&cases[i * BATCH..((i + 1) * BATCH).min(cases.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>(), st)),
            describe: Box::new(move |i| batch(&c2[i * BATCH..((i + 1) * BATCH).min(c2.len())].iter().map(|s| gener::replay(s, g)).collect::<Vec<_>>())), limit: 90 });
    };
    let b = if t { 4 } else { 3 };
    prog("flow-if", "conditionals, arithmetic", b, &[If, Add], &["leaf"], &["%c", "%d"], false);
    prog("flow-loop", "loops with break/continue at every depth", b, &[Loop, If, Add], &["leaf"], &["%c"], false);
    prog("flow-switch", "switches inside conditionals and loops", b, &[Switch, If, Loop], &["leaf"], &["%c"], false);
    prog("flow-call", "direct, indirect and recursive calls in conditionals", 3, &[Call, If], &["leaf", "branch", "tailer", "down", "valued"], &["%c"], false);
    prog("flow-void", "unit-valued conditionals", 3, &[VoidIf, Call, Add], &["branch", "leaf"], &["%c", "0"], false);
    let _ = prog;
    let lists = std::rc::Rc::new(abi_lists(t));
    let l2 = lists.clone();
    v.push(Space { name: "abi", n: lists.len(), rule: "every parameter-type list up to the length bound over i32, i64, f64, i8, nil, f32 and long lists that spill, direct, indirect and tail calls, every result type".into(),
        run: Box::new(move |i, st| abi_case(&lists[i], st)), describe: Box::new(move |i| abi_text(&l2[i], true)), limit: 60 });
    let m = if t { 14 } else { 9 };
    v.push(Space { name: "deep", n: m * m, rule: format!("functions with every pair of parameter counts below {m} calling each other {DEEP} times in guaranteed tail position, directly and through function values"),
        run: Box::new(move |i, st| deep_case(i / m, i % m, st)), describe: Box::new(move |i| deep_text(i / m, i % m, false)), limit: 60 });
    v
}
