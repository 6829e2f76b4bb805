//! C03: dialect conversion decides legality by its documented precedence, rewrites every
//! non-legal operation to the normal form its patterns define, never touches legal or opaque
//! code, and reports success exactly when nothing forbidden remains.
//! C20: unrealized-cast resolution and automatic type conversion.
use crate::engine::*;
use crate::ir::*;
use trunk_ir::rewrite::conversion_target::*;
use trunk_ir::rewrite::{Module, PatternApplicator, PatternRewriter, RewritePattern, TypeConverter};
use trunk_ir::*;

// ---------------------------------------------------------------- C03 / legality
#[derive(Clone, Copy, PartialEq, Debug)]
enum Dy { None, L, I, D, ByAttr }
const DY: [Dy; 5] = [Dy::None, Dy::L, Dy::I, Dy::D, Dy::ByAttr];
#[derive(Clone, Copy, PartialEq, Debug)]
enum St { None, L, I }
const ST: [St; 3] = [St::None, St::L, St::I];
#[derive(Clone, Copy, Debug)]
struct Cfg { od: Dy, os: St, rs: bool, rd: bool, dd: Dy, ds: St, un: Dy, yst: St }

fn by_attr(c: &IrContext, o: OpRef) -> LegalityDecision {
    match c.op(o).attributes.get("d") { Some(Attribute::Int(0)) => LegalityDecision::Legal, Some(Attribute::Int(1)) => LegalityDecision::Illegal, _ => LegalityDecision::Defer }
}
fn dec(d: Dy) -> impl Fn(&IrContext, OpRef) -> LegalityDecision + 'static {
    move |c, o| match d { Dy::L => LegalityDecision::Legal, Dy::I => LegalityDecision::Illegal, Dy::ByAttr => by_attr(c, o), _ => LegalityDecision::Defer }
}
fn target(g: Cfg) -> ConversionTarget {
    let mut t = ConversionTarget::new();
    if g.od != Dy::None { t.add_dynamic_op("a", "x", dec(g.od)); }
    match g.os { St::L => t.add_legal_op("a", "x"), St::I => t.add_illegal_op("a", "x"), _ => {} }
    if g.rs { t.add_recursive_legal_op("a", "x"); }
    if g.rd { t.add_recursive_dynamic_op("a", "x"); }
    if g.dd != Dy::None { t.add_dynamic_dialect("a", dec(g.dd)); }
    match g.ds { St::L => t.add_legal_dialect("a"), St::I => t.add_illegal_dialect("a"), _ => {} }
    if g.un != Dy::None { t.add_dynamic_unknown(dec(g.un)); }
    match g.yst { St::L => t.add_legal_op("b", "y"), St::I => t.add_illegal_op("b", "y"), _ => {} }
    t
}
fn spec_dyn(d: Dy, attr: i128) -> Option<bool> {
    match d { Dy::L => Some(true), Dy::I => Some(false), Dy::ByAttr => match attr { 0 => Some(true), 1 => Some(false), _ => None }, _ => None }
}
/// The documented precedence. None = unknown.
fn spec_legal(g: Cfg, d: &str, n: &str, attr: i128) -> Option<bool> {
    let is_x = d == "a" && n == "x";
    if is_x { if let Some(r) = spec_dyn(g.od, attr) { return Some(r); } match g.os { St::L => return Some(true), St::I => return Some(false), _ => {} } }
    if d == "b" && n == "y" { match g.yst { St::L => return Some(true), St::I => return Some(false), _ => {} } }
    if d == "a" { if let Some(r) = spec_dyn(g.dd, attr) { return Some(r); } match g.ds { St::L => return Some(true), St::I => return Some(false), _ => {} } }
    spec_dyn(g.un, attr)
}
fn spec_opaque(g: Cfg, d: &str, n: &str, attr: i128) -> bool {
    if !(d == "a" && n == "x") { return false; }
    (g.rd && spec_dyn(g.od, attr) == Some(true)) || (g.rs && spec_legal(g, d, n, attr) == Some(true))
}
fn cfgs() -> Vec<Cfg> {
    let mut v = vec![];
    for od in DY { for os in ST { for rs in [false, true] { for rd in [false, true] { for dd in DY { for ds in ST { for un in DY { for yst in ST {
        if rs && os != St::L { continue; }
        if rd && od == Dy::None { continue; }
        v.push(Cfg { od, os, rs, rd, dd, ds, un, yst });
    } } } } } } } }
    v
}
/// Nested op trees; (dialect, name, attr, children-per-region)
#[derive(Clone, Debug)]
struct T(&'static str, &'static str, i128, Vec<Vec<T>>);
fn trees() -> Vec<Vec<T>> {
    let x = |d, ch| T("a", "x", d, ch);
    let z = |d, ch| T("a", "z", d, ch);
    let y = |d, ch| T("b", "y", d, ch);
    vec![
        vec![x(0, vec![]), y(1, vec![]), z(2, vec![])],
        vec![x(0, vec![vec![y(1, vec![]), x(1, vec![vec![z(1, vec![])]])], vec![z(2, vec![])]])],
        vec![x(1, vec![vec![y(0, vec![vec![x(0, vec![vec![y(2, vec![])]])]])]]), x(2, vec![])],
        vec![y(2, vec![vec![x(2, vec![vec![z(0, vec![]), y(1, vec![])]])], vec![], vec![x(1, vec![])]]), z(1, vec![vec![x(0, vec![vec![y(0, vec![])]])]])],
        vec![z(0, vec![vec![x(0, vec![vec![x(1, vec![vec![x(2, vec![vec![y(1, vec![])]])]])]])]])],
    ]
}
fn build_tree(c: &mut IrContext, ts: &[T], b: BlockRef, out: &mut Vec<(OpRef, T, Vec<usize>)>, anc: &[usize]) {
    for t in ts {
        let mut ob = OpB::new(t.0, t.1).attr("d", Attribute::Int(t.2));
        let me = out.len();
        out.push((OpRef::from_u32_unchecked(), t.clone(), anc.to_vec()));
        let mut na = anc.to_vec();
        na.push(me);
        for (k, r) in t.3.iter().enumerate() {
            // alternate regions get their content split over two blocks
            let b1 = block(c, &[]);
            let mut bs = vec![b1];
            let h = if k % 2 == 1 { r.len() / 2 } else { r.len() };
            build_tree(c, &r[..h], b1, out, &na);
            if h < r.len() || k == 2 { let b2 = block(c, &[]); build_tree(c, &r[h..], b2, out, &na); bs.push(b2); }
            let rg = region(c, &bs);
            ob = ob.reg(rg);
        }
        let o = ob.push(c, b);
        out[me].0 = o;
    }
}
trait Dummy { fn from_u32_unchecked() -> Self; }
impl Dummy for OpRef { fn from_u32_unchecked() -> Self { use trunk_ir::refs::*; let _ = std::marker::PhantomData::<ValueRef>; dummy_op() } }
fn dummy_op() -> OpRef { let mut c = IrContext::new(); OpB::new("t", "t").build(&mut c) }

fn legality_case(g: Cfg, ti: usize, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let b = block(&mut c, &[]);
    let mut nodes = vec![];
    build_tree(&mut c, &trees()[ti], b, &mut nodes, &[]);
    let r = region(&mut c, &[b]);
    let t = target(g);
    let mut bits = format!("{ti}");
    for (o, n, anc) in &nodes {
        let want = match spec_legal(g, n.0, n.1, n.2) { Some(true) => LegalityCheck::Legal, Some(false) => LegalityCheck::Illegal, None => LegalityCheck::Unknown };
        let got = t.is_legal(&c, *o);
        st.transitions(1);
        if got != want { return viol(format!("legality {g:?}"), format!("{}.{} d={}: {got:?}, documented precedence gives {want:?}", n.0, n.1, n.2)); }
        if t.is_recursively_legal(&c, *o) != spec_opaque(g, n.0, n.1, n.2) { return viol(format!("opaque {g:?}"), format!("{}.{} d={} recursive legality", n.0, n.1, n.2)); }
        bits.push_str(&format!("{want:?}{}", anc.iter().any(|a| spec_opaque(g, nodes[*a].1.0, nodes[*a].1.1, nodes[*a].1.2))));
    }
    st.state_str(&bits);
    for mode in [ConversionMode::Partial, ConversionMode::Full] {
        let got: Vec<OpRef> = t.verify_mode(&c, r, mode).iter().map(|i| i.op).collect();
        let want: Vec<OpRef> = nodes.iter().filter(|(_, n, anc)| {
            if anc.iter().any(|a| { let p = &nodes[*a].1; spec_opaque(g, p.0, p.1, p.2) }) { return false; }
            let l = spec_legal(g, n.0, n.1, n.2);
            if mode == ConversionMode::Partial { l == Some(false) } else { l != Some(true) }
        }).map(|x| x.0).collect();
        let (mut a, mut bb) = (got.clone(), want.clone());
        a.sort(); bb.sort();
        st.transitions(1);
        if a != bb { return viol(format!("verify {g:?} {mode:?}"), format!("reported {got:?}, should report {want:?}")); }
    }
    st.traces(1);
    st.nontrivial(1);
    Ok(())
}

// ---------------------------------------------------------------- C03 / rule registration
#[derive(Clone, Copy, Debug, PartialEq)]
enum Reg { LD, ID, LO, IO, RL, RD, DO, DD, UN, LO2, RL2 }
const REGS: [Reg; 11] = [Reg::LD, Reg::ID, Reg::LO, Reg::IO, Reg::RL, Reg::RD, Reg::DO, Reg::DD, Reg::UN, Reg::LO2, Reg::RL2];
fn reg_case(i: usize, st: &Stats) -> CaseResult {
    let n = REGS.len();
    let seq = [REGS[i / n / n / n % n], REGS[i / n / n % n], REGS[i / n % n], REGS[i % n]];
    let mut done: Vec<Reg> = vec![];
    let mut t = ConversionTarget::new();
    for r in seq {
        let has = |x: Reg| done.contains(&x);
        let ok = !has(r) && match r { Reg::LD => !has(Reg::ID), Reg::ID => !has(Reg::LD), Reg::LO => !has(Reg::IO), Reg::IO => !has(Reg::LO), Reg::RL => has(Reg::LO), Reg::RD => has(Reg::DO), Reg::RL2 => has(Reg::LO2), _ => true };
        let got = guard(|| match r {
            Reg::LD => t.add_legal_dialect("a"), Reg::ID => t.add_illegal_dialect("a"), Reg::LO => t.add_legal_op("a", "x"), Reg::IO => t.add_illegal_op("a", "x"),
            Reg::RL => t.add_recursive_legal_op("a", "x"), Reg::RD => t.add_recursive_dynamic_op("a", "x"), Reg::DO => t.add_dynamic_op("a", "x", |_, _| LegalityDecision::Legal),
            Reg::DD => t.add_dynamic_dialect("a", |_, _| LegalityDecision::Legal), Reg::UN => t.add_dynamic_unknown(|_, _| LegalityDecision::Legal),
            Reg::LO2 => t.add_legal_op("b", "x"), Reg::RL2 => t.add_recursive_legal_op("b", "x"),
        }).is_ok();
        st.transitions(1);
        if got != ok { return viol(format!("register {r:?}"), format!("{seq:?}: {r:?} accepted={got}, contract says {ok}")); }
        if ok { done.push(r); } else { break; }
    }
    st.state_str(&format!("{done:?}"));
    st.traces(1);
    Ok(())
}

// ---------------------------------------------------------------- C03 / pattern application
/// What the pattern for one op kind does. Kinds are t.k0 .. t.k3.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rule { None, Rep(u8), Pre(u8, u8), Fwd, ModOp(u8), NoMut }
struct P { kind: u8, rule: Rule }
fn kname(k: u8) -> String { format!("k{k}") }
fn mk(c: &mut IrContext, k: u8, v: ValueRef) -> OpRef {
    let t = c.value_ty(v);
    OpB::new("t", &kname(k)).opnd(&[v]).res(&[t]).build(c)
}
impl RewritePattern for P {
    fn match_and_rewrite(&self, c: &mut IrContext, op: OpRef, rw: &mut PatternRewriter<'_>) -> bool {
        let d = c.op(op);
        if d.dialect != sym("t") || d.name.to_string() != kname(self.kind) { return false; }
        let v = c.op_operands(op)[0];
        match self.rule {
            Rule::None => false,
            Rule::NoMut => true,
            Rule::Rep(k) => { let n = mk(c, k, v); rw.replace_op(n); true }
            Rule::Pre(p, k) => { let a = mk(c, p, v); let av = c.op_result(a, 0); let n = mk(c, k, av); rw.insert_op(a); rw.replace_op(n); true }
            Rule::Fwd => { rw.erase_op(vec![v]); true }
            Rule::ModOp(k) => { let n = mk(c, k, v); rw.replace_op(n); let m = OpB::new("t", "mod").build(c); rw.add_module_op(m); true }
        }
    }
}
fn rules() -> Vec<Rule> {
    let mut v = vec![Rule::None, Rule::Fwd, Rule::NoMut];
    for k in 0..3 { v.push(Rule::Rep(k)); v.push(Rule::ModOp(k)); for p in 0..3 { v.push(Rule::Pre(p, k)); } }
    v
}
/// Normal form of a kind; None if it does not terminate. Each element also counts module ops added.
fn nf(k: u8, rs: &[Rule], legal: u8, depth: u32, mods: &mut u32) -> Option<Vec<u8>> {
    if depth > 6 { return None; }
    if k >= 3 || legal >> k & 1 == 1 { return Some(vec![k]); }
    match rs[k as usize] {
        Rule::None | Rule::NoMut => Some(vec![k]),
        Rule::Fwd => Some(vec![]),
        Rule::Rep(n) => nf(n, rs, legal, depth + 1, mods),
        Rule::ModOp(n) => { *mods += 1; nf(n, rs, legal, depth + 1, mods) }
        Rule::Pre(p, n) => { let mut a = nf(p, rs, legal, depth + 1, mods)?; a.extend(nf(n, rs, legal, depth + 1, mods)?); Some(a) }
    }
}
/// Node of the program: a chain of kinds; kind 4 = region op t.r (transparent), 5 = region op t.q (opaque when `opaque`).
fn programs() -> Vec<Vec<(u8, Vec<u8>)>> {
    let mut v = vec![];
    for a in 0..3u8 { for b in 0..3u8 { v.push(vec![(a, vec![]), (b, vec![])]); v.push(vec![(4, vec![a, b]), (a, vec![])]); v.push(vec![(b, vec![]), (5, vec![a, b])]); } }
    v.push(vec![(0, vec![]), (1, vec![]), (2, vec![]), (0, vec![])]);
    v.push(vec![(5, vec![0]), (4, vec![1, 2]), (0, vec![])]);
    v
}
fn shape_of(c: &IrContext, b: BlockRef, start: ValueRef) -> Result<Vec<(String, Vec<String>)>, String> {
    // the block must be a single dataflow chain from `start`
    let mut cur = start;
    let mut out = vec![];
    for o in &c.block(b).ops {
        let d = c.op(*o);
        let n = d.name.to_string();
        let opn = c.op_operands(*o);
        if opn != [cur] { return Err(format!("op t.{n} reads {opn:?}, expected the previous value {cur:?}")); }
        let mut inner = vec![];
        for r in &d.regions { for ib in &c.region(*r).blocks { inner.extend(shape_of(c, *ib, cur)?.into_iter().map(|x| x.0)); } }
        out.push((n, inner));
        if c.op_results(*o).is_empty() { continue; }
        cur = c.op_result(*o, 0);
    }
    Ok(out)
}
fn apply_case(rs: [Rule; 3], legal: u8, pi: usize, st: &Stats) -> CaseResult {
    let prog = &programs()[pi];
    for scope_func in [false, true] {
        let mut c = IrContext::new();
        let t = ty(&mut c, "core", "i32");
        let b = block(&mut c, &[t]);
        let start = c.block_arg(b, 0);
        let mut cur = start;
        for (k, inner) in prog {
            let o = if *k < 4 { mk(&mut c, *k, cur) } else {
                let ib = block(&mut c, &[]);
                let mut ic = cur;
                for i in inner { let o = mk(&mut c, *i, ic); c.push_op(ib, o); ic = c.op_result(o, 0); }
                let r = region(&mut c, &[ib]);
                OpB::new("t", if *k == 4 { "r" } else { "q" }).opnd(&[cur]).res(&[t]).reg(r).build(&mut c)
            };
            c.push_op(b, o);
            cur = c.op_result(o, 0);
        }
        OpB::new("t", "ret").opnd(&[cur]).push(&mut c, b);
        let r = region(&mut c, &[b]);
        let f = func(&mut c, "f", t, &[t], r).build(&mut c);
        let m = module(&mut c, "m", &[f]);
        let md = Module::new(&c, m).unwrap();
        // target: kinds in `legal` are legal, the other kinds illegal, q opaque, everything else unknown
        let mut tg = ConversionTarget::new();
        for k in 0..3u8 { if legal >> k & 1 == 1 { tg.add_legal_op("t", &kname(k)); } else { tg.add_illegal_op("t", &kname(k)); } }
        tg.add_legal_op("t", "q");
        tg.add_recursive_legal_op("t", "q");
        let mut app = PatternApplicator::new(TypeConverter::new()).with_target(tg);
        for k in 0..3u8 { if rs[k as usize] != Rule::None { app = app.add_pattern(P { kind: k, rule: rs[k as usize] }); } }
        // a diverging rule set is cut off early: expanding rules grow exponentially
        let diverges = prog.iter().any(|(k, i)| (*k < 4).then_some(*k).iter().chain(i.iter()).any(|k| nf(*k, &rs, legal, 0, &mut 0).is_none()));
        if diverges { app = app.with_max_iterations(3); }
        let label = format!("apply {rs:?} legal={legal:03b} prog={pi} func_scope={scope_func}");
        let res = if scope_func {
            let ff: trunk_ir::dialect::func::Func = trunk_ir::ops::DialectOp::from_op(&c, f).ok().unwrap();
            app.apply_partial_conversion(&mut c, ff, "b")
        } else { app.apply_partial_conversion(&mut c, md, "b") };
        st.transitions(1);
        let vr = trunk_ir::validation::validate_use_chains(&c, md);
        if !vr.is_ok() { return viol("usechain", format!("{label}: {:?}", vr.errors.first())); }
        let mut mods = 0;
        let mut want: Option<Vec<(String, Vec<String>)>> = Some(vec![]);
        for (k, inner) in prog {
            let w = match (&mut want, k) {
                (None, _) => None,
                (Some(w), 4) => { let mut iv = Some(vec![]); for i in inner { iv = match (iv, nf(*i, &rs, legal, 0, &mut mods)) { (Some(mut a), Some(x)) => { a.extend(x); Some(a) } _ => None }; } iv.map(|iv| { w.push(("r".to_string(), iv.iter().map(|x| kname(*x)).collect())); w.clone() }) }
                (Some(w), 5) => { w.push(("q".into(), inner.iter().map(|x| kname(*x)).collect())); Some(w.clone()) }
                (Some(w), k) => nf(*k, &rs, legal, 0, &mut mods).map(|x| { w.extend(x.iter().map(|k| (kname(*k), vec![]))); w.clone() }),
            };
            want = w;
        }
        let body = c.region(c.op(f).regions[0]).blocks[0];
        let got = match shape_of(&c, body, start) { Ok(g) => g, Err(e) => return viol("dataflow", format!("{label}: {e}")) };
        st.state_str(&format!("{got:?}"));
        // independent count of forbidden ops outside opaque code
        let bad = got.iter().flat_map(|(n, inner)| { let mut v = vec![n.clone()]; if n != "q" { v.extend(inner.clone()); } v }).filter(|n| n.len() == 2 && n.starts_with('k') && legal >> (n.as_bytes()[1] - b'0') & 1 == 0).count();
        match &res {
            Ok(_) if bad > 0 => return viol("accepts", format!("{label}: conversion reported success with {bad} illegal operations left")),
            Err(_) if bad == 0 => return viol("rejects", format!("{label}: conversion reported failure with no illegal operation left")),
            _ => {}
        }
        if let Some(w) = want {
            let mut w = w;
            w.push(("ret".into(), vec![]));
            if got != w { return viol("normalform", format!("{label}: got {got:?}, patterns define {w:?}")); }
            if let Ok(r) = &res { if !r.reached_fixpoint { return viol("fixpoint", format!("{label}: fixpoint not reported")); } }
            let mb = c.region(c.op(m).regions[0]).blocks[0];
            let extra = c.block(mb).ops.len() - 1;
            let wm = if scope_func { 0 } else { mods as usize };
            if extra != wm { return viol("modops", format!("{label}: {extra} module-level ops, expected {wm}")); }
            st.nontrivial(1);
        } else if let Ok(r) = &res {
            if r.reached_fixpoint { return viol("fixpoint", format!("{label}: a non-terminating rule set reported a fixpoint")); }
        }
        st.traces(1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C20 / type conversion and casts
/// Type universe t0..t3; conv maps ti -> tj (or nothing); mat says whether i -> j can be materialised.
fn tyn(c: &mut IrContext, k: usize) -> TypeRef { ty(c, "u", &format!("t{k}")) }
/// The conversion map as a list of conversion functions: one for the even types, one for the odd types and a
/// catch-all that must never be reached for a type one of the earlier functions answers for.
fn add_convs(tc: &mut TypeConverter, conv: [usize; 4], ts: &[TypeRef]) {
    for par in 0..2 {
        let tsc = ts.to_vec();
        tc.add_conversion(move |_, t| { let i = tsc.iter().position(|x| *x == t)?; if conv[i] == i || i % 2 != par { None } else { Some(tsc[conv[i]]) } });
    }
    let tsc = ts.to_vec();
    tc.add_conversion(move |_, t| { let i = tsc.iter().position(|x| *x == t)?; if conv[i] == i { None } else { Some(tsc[(conv[i] + 1) % 4]) } });
}
#[derive(Clone, Debug)]
struct Cast { chain: Vec<usize>, nest: usize, conv: [usize; 4], mat: u8, fan: usize }
fn casts(tier: Tier) -> Vec<Cast> {
    let mut v = vec![];
    let convs: Vec<[usize; 4]> = vec![[0, 1, 2, 3], [1, 1, 2, 3], [0, 1, 3, 3], [1, 1, 3, 3], [3, 3, 3, 3], [0, 0, 2, 2]];
    let len = tier.pick(3, 4);
    for n in 1..=len {
        for code in 0..4usize.pow(n as u32 + 1) {
            let mut r = code;
            let mut chain = vec![];
            for _ in 0..=n { chain.push(r % 4); r /= 4; }
            for nest in 0..9 { for conv in &convs { for mat in 0..4u8 { for fan in 0..2 {
                if n == len && (nest >= 2 || fan == 1) && tier == Tier::Quick { continue; }
                if nest >= 3 && n > 2 { continue; }
                v.push(Cast { chain: chain.clone(), nest, conv: *conv, mat, fan });
            } } } }
        }
    }
    v
}
fn can_mat(mat: u8, i: usize, j: usize) -> bool { match mat { 0 => true, 1 => false, 2 => i < j, _ => (i + j) % 2 == 1 } }
/// Within every block, an operand defined in the same block (or in a block around it) is defined earlier.
fn in_order(c: &IrContext, root: OpRef) -> Result<(), String> {
    fn go(c: &IrContext, o: OpRef, seen: &mut std::collections::HashSet<ValueRef>) -> Result<(), String> {
        for r in &c.op(o).regions { for b in &c.region(*r).blocks {
            seen.extend(c.block_args(*b));
            for o in &c.block(*b).ops {
                for v in c.op_operands(*o) { if !seen.contains(v) { return Err(format!("{} uses a value defined after it", c.op(*o).name)); } }
                go(c, *o, seen)?;
                seen.extend(c.op_results(*o));
            }
        } }
        Ok(())
    }
    go(c, root, &mut Default::default())
}
fn cast_case(k: &Cast, st: &Stats) -> CaseResult {
    use trunk_ir::conversion::resolve_unrealized_casts;
    use trunk_ir::rewrite::type_converter::MaterializeResult;
    let mut c = IrContext::new();
    let ts: Vec<TypeRef> = (0..4).map(|i| tyn(&mut c, i)).collect();
    let b = block(&mut c, &[ts[k.chain[0]]]);
    let mut cur = c.block_arg(b, 0);
    let start = cur;
    let mut tgt = b;
    let mut vals = vec![cur];
    if k.nest >= 3 { // the whole chain in one block of one region of an operation with three two-block regions
        let slot = k.nest - 3;
        let mut w = OpB::new("t", "wrap").opnd(&[cur]);
        for ri in 0..3 {
            let bs = [block(&mut c, &[]), block(&mut c, &[])];
            OpB::new("t", "br").suc(&[bs[1]]).push(&mut c, bs[0]);
            if ri == slot / 2 { tgt = bs[slot % 2]; if slot % 2 == 0 { let t = c.block(tgt).ops[0]; c.remove_op_from_block(tgt, t); } }
            w = w.reg(region(&mut c, &bs));
        }
        w.push(&mut c, b);
    }
    for (i, t) in k.chain[1..].iter().enumerate() {
        if k.nest == 1 && i == 1 || k.nest == 2 { // continue inside a nested region, using the outer value
            let ib = block(&mut c, &[]);
            let r = region(&mut c, &[ib]);
            OpB::new("t", "wrap").opnd(&[cur]).reg(r).push(&mut c, tgt);
            tgt = ib;
        }
        let o = OpB::new("core", "unrealized_conversion_cast").opnd(&[cur]).res(&[ts[*t]]).push(&mut c, tgt);
        cur = c.op_result(o, 0);
        vals.push(cur);
        if k.fan == 1 { OpB::new("t", "use").opnd(&[cur, start, cur]).push(&mut c, tgt); }
    }
    let fin = OpB::new("t", "use").opnd(&[cur, start]).push(&mut c, tgt);
    let r = region(&mut c, &[b]);
    let f = func(&mut c, "f", ts[0], &[ts[k.chain[0]]], r).build(&mut c);
    let m = module(&mut c, "m", &[f]);
    let md = Module::new(&c, m).unwrap();
    let mut tc = TypeConverter::new();
    add_convs(&mut tc, k.conv, &ts);
    let (mat, tsm) = (k.mat, ts.clone());
    tc.set_materializer(move |c, _l, v, from, to| {
        let i = tsm.iter().position(|x| *x == from)?; let j = tsm.iter().position(|x| *x == to)?;
        if !can_mat(mat, i, j) { return None; }
        // two ops, so that order of insertion matters
        let a = OpB::new("t", "mat").opnd(&[v]).res(&[from]).build(c);
        let av = c.op_result(a, 0);
        let bb = OpB::new("t", &format!("mat{i}{j}")).opnd(&[av]).res(&[to]).build(c);
        Some(MaterializeResult { value: c.op_result(bb, 0), ops: vec![a, bb] })
    });
    let res = resolve_unrealized_casts(&mut c, md, &tc);
    st.transitions(1);
    // expected: follow the chain
    let mut cur_t = k.chain[0];
    let mut want: Vec<String> = vec![];
    let (mut wr, mut wu) = (0, vec![]);
    for t in &k.chain[1..] {
        let to = k.conv[*t];
        if cur_t == to { wr += 1; }
        else if can_mat(k.mat, cur_t, to) { want.push("mat".into()); want.push(format!("mat{cur_t}{to}")); wr += 1; cur_t = to; }
        else { want.push("unrealized_conversion_cast".into()); wu.push((ts[cur_t], ts[to])); cur_t = *t; }
    }
    let label = format!("{k:?}");
    if res.resolved_count != wr { return viol("count", format!("{label}: resolved {} expected {wr}", res.resolved_count)); }
    let gu: Vec<(TypeRef, TypeRef)> = res.unresolved.iter().map(|u| (u.from_type, u.to_type)).collect();
    if gu != wu { return viol("unresolved", format!("{label}: unresolved {gu:?} expected {wu:?}")); }
    // dataflow of the final use, walked backwards
    let mut got = vec![];
    let mut v = c.op_operands(fin)[0];
    let mut guardn = 0;
    while let ValueDef::OpResult(o, _) = c.value_def(v) {
        if c.op(o).parent_block.is_none() { return viol("detached", format!("{label}: a used value is defined by an operation that is not in any block")); }
        got.push(c.op(o).name.to_string());
        v = c.op_operands(o)[0];
        guardn += 1;
        if guardn > 40 { return viol("cycle", label); }
    }
    got.reverse();
    if got != want || v != start { return viol("dataflow", format!("{label}: {got:?} expected {want:?}")); }
    if c.op_operands(fin)[1] != start { return viol("dataflow", format!("{label}: unrelated operand changed")); }
    let vr = trunk_ir::validation::validate_use_chains(&c, md);
    if !vr.is_ok() { return viol("usechain", format!("{label}: {:?}", vr.errors.first())); }
    let vr = trunk_ir::validation::validate_value_integrity(&c, md);
    if !vr.is_ok() { return viol("integrity", format!("{label}: {:?}", vr.errors.first())); }
    if let Err(e) = in_order(&c, m) { return viol("order", format!("{label}: {e}")); }
    st.state_str(&format!("{want:?}{}{}", k.nest, k.fan));
    st.traces(1);
    if !want.is_empty() { st.nontrivial(1); }
    Ok(())
}

/// Automatic type conversion + signature conversion on whole functions.
#[derive(Clone, Debug)]
struct Auto { params: Vec<usize>, ret: usize, conv: [usize; 4], legal: u8, blocks: usize, decl: bool, wasm: bool }
fn autos() -> Vec<Auto> {
    let mut v = vec![];
    let convs: Vec<[usize; 4]> = vec![[1, 1, 2, 3], [1, 1, 3, 3], [3, 3, 3, 3], [0, 1, 2, 3]];
    for np in 0..=2usize { for code in 0..4usize.pow(np as u32) { for ret in 0..4 { for conv in &convs { for legal in 0..4u8 { for blocks in 1..=2 { for decl in [false, true] { for wasm in [false, true] {
        if decl && (blocks > 1 || legal > 0) { continue; }
        let params = (0..np).map(|i| code / 4usize.pow(i as u32) % 4).collect();
        v.push(Auto { params, ret, conv: *conv, legal, blocks, decl, wasm });
    } } } } } } } }
    v
}
fn auto_case(k: &Auto, st: &Stats) -> CaseResult {
    use trunk_ir::rewrite::{FuncSignatureConversionPattern, WasmFuncSignatureConversionPattern};
    let mut c = IrContext::new();
    let ts: Vec<TypeRef> = (0..4).map(|i| tyn(&mut c, i)).collect();
    let pt: Vec<TypeRef> = k.params.iter().map(|p| ts[*p]).collect();
    let ft = func_ty(&mut c, ts[k.ret], &pt);
    let dial = if k.wasm { "wasm" } else { "func" };
    let mut fb = OpB::new(dial, "func").attr("sym_name", Attribute::Symbol(sym("f"))).attr("type", Attribute::Type(ft)).attr("abi", Attribute::String("C".into())).attr("extra", Attribute::Int(7));
    let mut users = vec![];
    if !k.decl {
        let b = block(&mut c, &pt);
        let args = c.block_args(b).to_vec();
        let mut bs = vec![b];
        let o = OpB::new("t", "mk").res(&[ts[k.ret]]).push(&mut c, b);
        let v = c.op_result(o, 0);
        let mut opn = args.clone();
        opn.push(v);
        // one legal and one non-legal user of everything
        users.push(OpB::new("l", "use").opnd(&opn).push(&mut c, b));
        users.push(OpB::new("t", "use").opnd(&opn).push(&mut c, b));
        if k.blocks == 2 {
            let b2 = block(&mut c, &[ts[k.ret]]);
            let a2 = c.block_arg(b2, 0);
            OpB::new("t", "br").suc(&[b2]).push(&mut c, b);
            users.push(OpB::new("t", "use").opnd(&[a2, v]).push(&mut c, b2));
            bs.push(b2);
        }
        let r = region(&mut c, &bs);
        fb = fb.reg(r);
    }
    let f = fb.build(&mut c);
    let m = module(&mut c, "m", &[f]);
    let md = Module::new(&c, m).unwrap();
    let mut tc = TypeConverter::new();
    add_convs(&mut tc, k.conv, &ts);
    let mut tg = ConversionTarget::new();
    if k.legal & 1 != 0 { tg.add_legal_dialect("l"); }
    if k.legal & 2 != 0 { tg.add_legal_op("t", "use"); }
    let before: Vec<Vec<ValueRef>> = users.iter().map(|u| c.op_operands(*u).to_vec()).collect();
    let before_ty: Vec<Vec<usize>> = before.iter().map(|vs| vs.iter().map(|v| ts.iter().position(|t| *t == c.value_ty(*v)).unwrap()).collect()).collect();
    let app = PatternApplicator::new(tc).with_target(tg).with_auto_type_conversion(true);
    let app = if k.wasm { app.add_pattern(WasmFuncSignatureConversionPattern) } else { app.add_pattern(FuncSignatureConversionPattern) };
    let res = app.apply_partial(&mut c, md);
    st.transitions(1);
    let label = format!("{k:?}");
    if !res.reached_fixpoint { return viol("fixpoint", label); }
    let mb = c.region(c.op(m).regions[0]).blocks[0];
    if c.block(mb).ops.len() != 1 { return viol("module", format!("{label}: {} top-level ops", c.block(mb).ops.len())); }
    let nf = c.block(mb).ops[0];
    let wp: Vec<TypeRef> = k.params.iter().map(|p| ts[k.conv[*p]]).collect();
    let wft = func_ty(&mut c, ts[k.conv[k.ret]], &wp);
    let d = c.op(nf);
    // with legal&2.. func itself is never legal here
    if d.attributes.get("type") != Some(&Attribute::Type(wft)) { return viol("signature", format!("{label}: function type {:?}", d.attributes.get("type").map(|a| attr_str(&c, a)))); }
    if d.attributes.get("sym_name") != Some(&Attribute::Symbol(sym("f"))) || d.attributes.get("abi") != Some(&Attribute::String("C".into())) || d.attributes.get("extra") != Some(&Attribute::Int(7)) { return viol("attrs", format!("{label}: function attributes lost")); }
    if d.dialect != sym(dial) { return viol("dialect", label); }
    if d.regions.len() != !k.decl as usize { return viol("body", format!("{label}: {} regions", d.regions.len())); }
    if !k.decl {
        for b in c.region(d.regions[0]).blocks.clone() {
            for a in c.block_args(b).to_vec() { let t = ts.iter().position(|t| *t == c.value_ty(a)).unwrap(); if k.conv[t] != t { return viol("blockarg", format!("{label}: block argument still has an unconverted type")); } }
        }
        let entry = c.region(d.regions[0]).blocks[0];
        let at: Vec<TypeRef> = c.block_args(entry).iter().map(|a| c.value_ty(*a)).collect();
        if at != wp { return viol("entry", format!("{label}: entry arguments do not match the signature")); }
        for (ui, u) in users.iter().enumerate() {
            let legal = if c.op(*u).dialect == sym("l") { k.legal & 1 != 0 } else { k.legal & 2 != 0 };
            for (i, v) in c.op_operands(*u).to_vec().into_iter().enumerate() {
                let (orig, _ot) = (before[ui][i], before_ty[ui][i]);
                let (is_cast, src) = match c.value_def(v) { ValueDef::OpResult(o, _) if c.op(o).name == sym("unrealized_conversion_cast") => (true, c.op_operands(o)[0]), _ => (false, v) };
                if src != orig { return viol("operand", format!("{label}: user {ui} operand {i} now reads a different value")); }
                let t = ts.iter().position(|t| *t == c.value_ty(orig)).unwrap();
                let need = !legal && k.conv[t] != t;
                if is_cast != need { return viol("cast", format!("{label}: user {ui} operand {i} cast={is_cast} needed={need}")); }
                if is_cast && c.value_ty(v) != ts[k.conv[t]] { return viol("casttype", format!("{label}: user {ui} operand {i}")); }
            }
        }
    }
    let vr = trunk_ir::validation::validate_use_chains(&c, md);
    if !vr.is_ok() { return viol("usechain", format!("{label}: {:?}", vr.errors.first())); }
    let vr = trunk_ir::validation::validate_value_integrity(&c, md);
    if !vr.is_ok() { return viol("integrity", format!("{label}: {:?}", vr.errors.first())); }
    st.state_str(&canon(&c, m));
    st.traces(1);
    st.nontrivial(1);
    Ok(())
}

/// A rewrite chain c0 -> c1 -> .. -> c<n> needs one sweep per step when the patterns are written one step at a time;
/// the driver must carry it through with its default settings, wherever the operation sits.
fn chain_case(i: usize, st: &Stats) -> CaseResult {
    let (n, place, scope_func, seed) = (1 + i % 9, i / 9 % 3, i / 27 % 2 == 1, i / 54 % 3);
    struct Step(usize);
    impl RewritePattern for Step {
        fn match_and_rewrite(&self, c: &mut IrContext, op: OpRef, rw: &mut PatternRewriter<'_>) -> bool {
            if c.op(op).dialect != sym("t") || c.op(op).name.to_string() != format!("c{}", self.0) { return false; }
            let v = c.op_operands(op)[0];
            let t = c.value_ty(v);
            let o = OpB::new("t", &format!("c{}", self.0 + 1)).opnd(&[v]).res(&[t]).build(c);
            rw.replace_op(o);
            true
        }
    }
    let mut c = IrContext::new();
    let t = ty(&mut c, "core", "i32");
    let b = block(&mut c, &[t]);
    let start = c.block_arg(b, 0);
    let mut tgt = b;
    for _ in 0..place {
        let ib = block(&mut c, &[]);
        let r = region(&mut c, &[ib]);
        OpB::new("t", "r").reg(r).push(&mut c, tgt);
        tgt = ib;
    }
    let x = OpB::new("t", "c0").opnd(&[start]).res(&[t]).push(&mut c, tgt);
    let xv = c.op_result(x, 0);
    let u = OpB::new("t", "use").opnd(&[xv]).push(&mut c, tgt);
    let r = region(&mut c, &[b]);
    let f = func(&mut c, "f", t, &[t], r).build(&mut c);
    let m = module(&mut c, "m", &[f]);
    let md = Module::new(&c, m).unwrap();
    let mut tg = ConversionTarget::new();
    for k in 0..n { tg.add_illegal_op("t", &format!("c{k}")); }
    tg.add_legal_op("t", &format!("c{n}"));
    let mut app = PatternApplicator::new(TypeConverter::new()).with_target(tg);
    // patterns registered in ascending, descending and rotated order
    let mut order: Vec<usize> = (0..n).collect();
    match seed { 1 => order.reverse(), 2 => order.rotate_left(n / 2), _ => {} }
    for k in order { app = app.add_pattern(Step(k)); }
    let res = if scope_func {
        let ff: trunk_ir::dialect::func::Func = trunk_ir::ops::DialectOp::from_op(&c, f).ok().unwrap();
        app.apply_partial_conversion(&mut c, ff, "b")
    } else { app.apply_partial_conversion(&mut c, md, "b") };
    st.transitions(n as u64);
    st.traces(1);
    st.nontrivial(1);
    st.state_str(&format!("{n}{place}{scope_func}"));
    let label = format!("chain of {n} rewrites, nesting {place}, func scope {scope_func}, order {seed}");
    match res { Err(e) => return viol("chain", format!("{label}: {e}")), Ok(r) if !r.reached_fixpoint => return viol("chainfix", format!("{label}: fixpoint not reported")), _ => {} }
    let v = c.op_operands(u)[0];
    match c.value_def(v) {
        ValueDef::OpResult(o, _) if c.op(o).name.to_string() == format!("c{n}") && c.op_operands(o) == [start] && c.op(o).parent_block == Some(tgt) => Ok(()),
        _ => viol("chainend", label),
    }
}
pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let cf: &'static [Cfg] = Box::leak(cfgs().into_boxed_slice());
    let nt = trees().len();
    let ru: &'static [Rule] = Box::leak(rules().into_boxed_slice());
    let np = programs().len();
    let nr = ru.len();
    let _ = tier;
    vec![
        Space { name: "legality", n: cf.len() * nt, limit: 30, rule: "every combination of operation/dialect/fallback rules (static, dynamic, deferring, attribute-dependent, recursive markers) on 5 nested operation trees, both verification modes, against the documented precedence".into(),
            run: Box::new(move |i, st| legality_case(cf[i / nt], i % nt, st)), describe: Box::new(move |i| format!("{:?} tree {:?}", cf[i / nt], trees()[i % nt])) },
        Space { name: "register", n: REGS.len().pow(4), limit: 30, rule: "every sequence of up to 4 rule registrations, including conflicting and premature ones".into(),
            run: Box::new(reg_case), describe: Box::new(|i| { let n = REGS.len(); format!("{:?}", [REGS[i / n / n / n % n], REGS[i / n / n % n], REGS[i / n % n], REGS[i % n]]) }) },
        Space { name: "chains", n: 9 * 3 * 2 * 3, limit: 30, rule: "every rewrite chain of 1 to 9 steps x nesting depth 0-2 x module/function scope x pattern order, with the driver's default settings".into(),
            run: Box::new(chain_case), describe: Box::new(|i| format!("chain of {} steps, nesting {}, func scope {}, pattern order {}", 1 + i % 9, i / 9 % 3, i / 27 % 2, i / 54 % 3)) },
        Space { name: "apply", n: nr * nr * nr * 8, limit: 60, rule: format!("every assignment of one of {nr} rewrite rules to each of 3 operation kinds x every legal/illegal assignment x {np} programs (nested and opaque regions) x module and function scope; result compared with the normal form the rules define"),
            run: Box::new(move |i, st| { let (l, r) = (i % 8, i / 8); let rs = [ru[r / nr / nr], ru[r / nr % nr], ru[r % nr]]; for p in 0..np { apply_case(rs, l as u8, p, st)?; } Ok(()) }),
            describe: Box::new(move |i| { let (l, r) = (i % 8, i / 8); format!("rules {:?} legal mask {l:03b}, all programs", [ru[r / nr / nr], ru[r / nr % nr], ru[r % nr]]) }) },
    ]
}
pub fn cast_spaces(tier: Tier) -> Vec<Space<'static>> {
    let ca: &'static [Cast] = Box::leak(casts(tier).into_boxed_slice());
    let au: &'static [Auto] = Box::leak(autos().into_boxed_slice());
    vec![
        Space { name: "casts", n: ca.len(), limit: 30, rule: "every chain of up to 3 (thorough 4) pending casts over 4 types x nesting x fan-out x 6 type conversions x 4 materialisation policies".into(), run: Box::new(move |i, st| cast_case(&ca[i], st)), describe: Box::new(move |i| format!("{:?}", ca[i])) },
        Space { name: "signature", n: au.len(), limit: 30, rule: "every function signature of up to 2 parameters over 4 types x conversions x legality of the users x 1-2 blocks x declaration/definition x func/wasm dialect".into(), run: Box::new(move |i, st| auto_case(&au[i], st)), describe: Box::new(move |i| format!("{:?}", au[i])) },
    ]
}
