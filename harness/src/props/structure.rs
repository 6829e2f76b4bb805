//! C05: dominance information is exact for every control-flow graph, and the IR validators
//! accept exactly the well-formed modules.
use crate::engine::*;
use crate::ir::*;
use trunk_ir::dominance::DominatorTree;
use trunk_ir::rewrite::Module;
use trunk_ir::validation::*;
use trunk_ir::*;

fn digits(mut i: usize, base: usize, n: usize) -> Vec<usize> {
    (0..n).map(|_| { let d = i % base; i /= base; d }).collect()
}

// ---------------------------------------------------------------- dominance
/// successor list number k over t targets: [], [a], [a,b]
fn succ_opt(k: usize, t: usize) -> Vec<usize> {
    if k == 0 { vec![] } else if k <= t { vec![k - 1] } else { let k = k - 1 - t; vec![k / t, k % t] }
}
fn n_opts(t: usize) -> usize { 1 + t + t * t }

fn reach(succ: &[Vec<usize>], n: usize, without: Option<usize>) -> Vec<bool> {
    let mut r = vec![false; n];
    if n == 0 || without == Some(0) { return r; }
    let mut w = vec![0];
    while let Some(b) = w.pop() {
        if r[b] { continue; }
        r[b] = true;
        for &s in &succ[b] { if s < n && Some(s) != without { w.push(s); } }
    }
    r
}

/// Sets of at most two successors per block; with `inner`, no branch back to the entry and no self-loop.
fn succ_sets(n: usize, inner: bool) -> Vec<Vec<Vec<usize>>> {
    (0..n).map(|b| {
        let t: Vec<usize> = (0..n).filter(|x| !inner || (*x != 0 && *x != b)).collect();
        let mut o = vec![vec![]];
        for (j, x) in t.iter().enumerate() { o.push(vec![*x]); for y in &t[j + 1..] { o.push(vec![*x, *y]); } }
        o
    }).collect()
}
fn pick_sets(o: &[Vec<Vec<usize>>], mut i: usize) -> Vec<Vec<usize>> { o.iter().map(|x| { let k = i % x.len(); i /= x.len(); x[k].clone() }).collect() }
fn run_dom(n: usize, outside: bool, i: usize, st: &Stats) -> CaseResult {
    let t = n + outside as usize;
    run_cfg(n, digits(i, n_opts(t), n).into_iter().map(|k| succ_opt(k, t)).collect(), st)
}
fn run_cfg(n: usize, succ: Vec<Vec<usize>>, st: &Stats) -> CaseResult {
    let mut ctx = IrContext::new();
    let c = &mut ctx;
    let bs: Vec<BlockRef> = (0..n + 1).map(|_| block(c, &[])).collect();
    let r = region(c, &bs[..n]);
    let _other = region(c, &bs[n..]);
    for b in 0..n {
        // an ordinary op first, so that the terminator is not the only op
        if b % 2 == 0 { OpB::new("t", "op").push(c, bs[b]); }
        match succ[b].len() {
            0 => { OpB::new("func", "return").push(c, bs[b]); }
            1 => { OpB::new("cf", "br").suc(&[bs[succ[b][0]]]).push(c, bs[b]); }
            _ => { OpB::new("cf", "cond_br").suc(&[bs[succ[b][0]], bs[succ[b][1]]]).push(c, bs[b]); }
        }
    }
    let d = DominatorTree::compute(c, r);
    st.transitions(n as u64 + 1);
    st.traces(1);
    let full = reach(&succ, n, None);
    let mut h = format!("{n}");
    if d.region() != r { return viol("region", "wrong region"); }
    if d.entry() != bs.first().copied().filter(|_| n > 0) { return viol("entry", "wrong entry"); }
    let leaves = succ.iter().flatten().any(|s| *s >= n);
    if d.is_valid() == leaves { return viol("valid", format!("is_valid={} with branch out of region={leaves}", d.is_valid())); }
    for b in 0..n {
        if d.is_reachable(bs[b]) != full[b] { return viol("reachable", format!("block {b}: is_reachable={} expected {}", d.is_reachable(bs[b]), full[b])); }
        let mut p: Vec<BlockRef> = d.predecessors(bs[b]).to_vec();
        let mut q: Vec<BlockRef> = vec![];
        for a in 0..n { for s in &succ[a] { if *s == b { q.push(bs[a]); } } }
        p.sort(); p.dedup(); q.sort(); q.dedup();
        if p != q { return viol("preds", format!("block {b}: predecessors {p:?} expected {q:?}")); }
        let mut p: Vec<BlockRef> = d.successors(bs[b]).to_vec();
        let mut q: Vec<BlockRef> = succ[b].iter().map(|s| bs[*s]).collect();
        p.sort(); p.dedup(); q.sort(); q.dedup();
        if p != q { return viol("succs", format!("block {b}: successors {p:?} expected {q:?}")); }
    }
    for a in 0..n {
        let cut = reach(&succ, n, Some(a));
        for b in 0..n {
            // a dominates reachable b iff every entry->b path passes through a
            let want = full[b] && full[a] && (a == b || !cut[b]);
            let got = d.dominates(bs[a], bs[b]);
            h.push(if want { '1' } else { '0' });
            if got != want { return viol("dominates", format!("dominates({a},{b})={got} expected {want}; successors {succ:?}")); }
        }
    }
    if st.state_str(&h) { st.nontrivial(1); }
    Ok(())
}

// ---------------------------------------------------------------- scope
/// A fixed region forest; every op has one operand slot, every op one result, every block one argument.
struct Forest { module: OpRef, ops: Vec<(OpRef, usize)>, vals: Vec<(ValueRef, usize)>, parent: Vec<Option<usize>>, in_func: Vec<bool> }

fn forest(c: &mut IrContext) -> Forest {
    let t = ty(c, "core", "i32");
    let mut f = Forest { module: OpRef::from_u32(0), ops: vec![], vals: vec![], parent: vec![], in_func: vec![] };
    // helper: region with blocks of [shape]; shape: list of blocks, block = list of ops, op = list of regions
    #[derive(Clone)]
    struct O(Vec<Vec<Vec<O>>>);
    fn leaf() -> O { O(vec![]) }
    fn build(c: &mut IrContext, t: TypeRef, shape: &[Vec<O>], parent: Option<usize>, f: &mut Forest) -> RegionRef {
        let id = f.parent.len();
        f.parent.push(parent);
        f.in_func.push(true);
        let bs: Vec<BlockRef> = shape.iter().map(|_| block(c, &[t])).collect();
        for (b, ops) in bs.iter().zip(shape) {
            f.vals.push((c.block_args(*b)[0], id));
            for o in ops {
                let regs: Vec<RegionRef> = o.0.iter().map(|r| build(c, t, r, Some(id), f)).collect();
                let mut ob = OpB::new("t", "op").res(&[t]);
                for r in regs { ob = ob.reg(r); }
                let op = ob.push(c, *b);
                f.vals.push((c.op_results(op)[0], id));
                f.ops.push((op, id));
            }
        }
        region(c, &bs)
    }
    let inner = || O(vec![vec![vec![leaf()]], vec![vec![leaf()], vec![]]]);
    let shape_f = vec![vec![leaf(), O(vec![vec![vec![inner(), leaf()]]])], vec![leaf()]];
    let shape_g = vec![vec![leaf(), inner()]];
    let rf = build(c, t, &shape_f, None, &mut f);
    let rg = build(c, t, &shape_g, None, &mut f);
    let rh = build(c, t, &[vec![leaf()]], None, &mut f);
    let ff = func(c, "f", t, &[t], rf).build(c);
    let gg = OpB::new("wasm", "func").attr("sym_name", Attribute::Symbol(sym("g"))).reg(rg).build(c);
    let hh = func(c, "h", t, &[t], rh).build(c);
    let nested = module(c, "n", &[hh]);
    f.module = module(c, "m", &[ff, gg, nested]);
    f
}
fn visible(f: &Forest, def: usize, at: usize) -> bool {
    let mut x = Some(at);
    while let Some(r) = x { if r == def { return true; } x = f.parent[r]; }
    false
}
fn scope_dims() -> (usize, usize) {
    let mut c = IrContext::new();
    let f = forest(&mut c);
    (f.ops.len(), f.vals.len())
}
fn run_scope(i: usize, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let f = forest(&mut c);
    let (no, nv) = (f.ops.len(), f.vals.len());
    let d = [i % no, i / no % nv, i / no / nv % no, i / no / nv / no % nv];
    let mut bad = 0;
    for k in [0, 2] {
        let (op, at) = f.ops[d[k]];
        let (v, def) = f.vals[d[k + 1]];
        c.push_op_operand(op, v);
        if !visible(&f, def, at) { bad += 1; }
    }
    st.transitions(1);
    st.traces(1);
    let m = Module::new(&c, f.module).expect("module");
    let r = validate_value_integrity(&c, m);
    st.state_str(&format!("{d:?}{bad}"));
    if bad > 0 { st.nontrivial(1); }
    if r.is_ok() != (bad == 0) || r.errors.len() != bad {
        return viol("scope", format!("{} invisible operands, validator reported {} errors: {r}", bad, r.errors.len()));
    }
    let r = validate_all(&c, m);
    if r.is_ok() != (bad == 0) { return viol("scope-all", format!("{bad} invisible operands, full validation says {r}")); }
    Ok(())
}

// ---------------------------------------------------------------- functions nested in other operations
/// A function (func/wasm) placed inside some other operation; one operation with one operand somewhere.
fn run_nested(i: usize, st: &Stats) -> CaseResult {
    let d = [i % 5, i / 5 % 2, i / 10 % 4, i / 40 % 7, i / 280 % 2];
    let mut ctx = IrContext::new();
    let c = &mut ctx;
    let t = ty(c, "core", "i32");
    // inner function: entry(arg) { res = t.def; t.box { t.use? }; t.use? }
    let ie = block(c, &[t]);
    let iarg = c.block_args(ie)[0];
    let idef = OpB::new("t", "def").res(&[t]).push(c, ie);
    let bb = block(c, &[t]);
    let barg = c.block_args(bb)[0];
    let u_box = OpB::new("t", "use").push(c, bb);
    let br = region(c, &[bb]);
    OpB::new("t", "box").reg(br).push(c, ie);
    let u_in = OpB::new("t", "use").push(c, ie);
    let ir = region(c, &[ie]);
    let mut inner = func(c, "inner", t, &[t], ir);
    if d[1] == 1 { inner.d = "wasm".into(); }
    let inner = inner.build(c);
    // container of the inner function
    let ce = block(c, &[t]);
    let carg = c.block_args(ce)[0];
    let cdef = OpB::new("t", "def").res(&[t]).push(c, ce);
    let u_cont = OpB::new("t", "use").push(c, ce);
    match d[0] {
        0 | 1 => c.push_op(ce, inner),
        2 => { let b = block(c, &[]); c.push_op(b, inner); let r = region(c, &[b]); OpB::new("t", "box").reg(r).push(c, ce); }
        3 => { let n = module(c, "n", &[inner]); c.push_op(ce, n); }
        _ => { let x = block(c, &[]); let b = block(c, &[]); c.push_op(b, inner); let r = region(c, &[x, b]); let x = block(c, &[]); let r0 = region(c, &[x]); OpB::new("t", "box").reg(r0).reg(r).push(c, ce); }
    }
    let cr = region(c, &[ce]);
    let outer = if d[0] == 0 { OpB::new("t", "box").reg(cr).build(c) } else { func(c, "outer", t, &[t], cr).build(c) };
    let (top, topv) = { let o = OpB::new("t", "def").res(&[t]).build(c); (o, c.op_results(o)[0]) };
    let m = if d[4] == 0 { module(c, "m", &[top, outer]) } else { let n = module(c, "k", &[outer]); module(c, "m", &[n, top]) };
    let user = [u_in, u_box, u_cont, u_in][d[2]];
    let idefv = c.op_results(idef)[0];
    let cdefv = c.op_results(cdef)[0];
    // value, and the scope it lives in: 0 module, 1 container, 2 inner function, 3 box in the inner function
    let (v, scope) = [(iarg, 2), (idefv, 2), (barg, 3), (carg, 1), (cdefv, 1), (topv, 0), (iarg, 2)][d[3]];
    c.push_op_operand(user, v);
    if d[2] == 3 { c.push_op_operand(u_in, idefv); }
    let bad = match d[2] {
        0 | 3 => scope != 2,
        1 => scope < 2,
        // an operation of a container that is not a function belongs to no function: nothing is checked
        _ => d[0] != 0 && scope != 1,
    };
    let m = Module::new(c, m).expect("module");
    let r = validate_value_integrity(c, m);
    st.transitions(1);
    st.traces(1);
    st.state_str(&format!("{d:?}"));
    if bad { st.nontrivial(1); }
    if r.is_ok() == bad { return viol("nested", format!("{d:?}: operand out of scope={bad}, validator says {r}")); }
    if validate_all(c, m).is_ok() && bad { return viol("nested-all", format!("{d:?}: full validation accepts an operand that is out of scope")); }
    Ok(())
}

// ---------------------------------------------------------------- use chains with detached users
fn run_chain(i: usize, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let f = forest(&mut c);
    let no = f.ops.len();
    // which op uses which in-scope value, and which op is detached afterwards
    let nv = f.vals.len();
    let d = [i % no, i / no % nv, i / no / nv % no, i / no / nv / no % 3];
    let (op, at) = f.ops[d[0]];
    let (v, def) = f.vals[d[1]];
    st.transitions(1);
    if !visible(&f, def, at) { return Ok(()); }
    c.push_op_operand(op, v);
    if d[3] == 1 { c.push_op_operand(op, v); }
    let det = f.ops[d[2]].0;
    if let Some(b) = c.op(det).parent_block { let _ = b; c.detach_op(det); }
    if d[3] == 2 { let b = block(&mut c, &[]); c.push_op(b, det); }
    // ops inside the detached subtree
    let inside = |c: &IrContext, x: OpRef| -> bool {
        let mut cur = Some(x);
        while let Some(o) = cur {
            if o == det { return true; }
            cur = c.op(o).parent_block.and_then(|b| c.block(b).parent_region).and_then(|r| c.region(r).parent_op);
        }
        false
    };
    let val_inside = match c.value_def(v) {
        ValueDef::OpResult(o, _) => inside(&c, o),
        ValueDef::BlockArg(b, _) => c.block(b).parent_region.and_then(|r| c.region(r).parent_op).is_some_and(|o| inside(&c, o)),
    };
    let user_inside = inside(&c, op);
    // inconsistent iff a value still in the module is recorded as used by an op that is not in it
    let want_bad = user_inside && !val_inside;
    let m = Module::new(&c, f.module).expect("module");
    let r = validate_use_chains(&c, m);
    st.traces(1);
    st.state_str(&format!("{d:?}"));
    if want_bad { st.nontrivial(1); }
    if r.is_ok() == want_bad { return viol("chain", format!("user detached={user_inside} value detached={val_inside} but validator says {r}")); }
    if validate_all(&c, m).is_ok() && want_bad { return viol("chain-all", "full validation accepts a stale use entry"); }
    Ok(())
}

// ---------------------------------------------------------------- operation verifiers
const PREDS: &[&str] = &["oeq", "une", "olt", "ole", "ogt", "oge", "one", "ueq", "ult", "uno", "ord", "slt", "eq", "", "OEQ", "oeq2"];
#[derive(Debug, Clone)]
enum Shape {
    Cmpf(usize),
    /// operands, then/else shapes, results, result type never?, wrapper depth
    If { opnds: usize, regs: Vec<RegS>, res: usize, never: bool, depth: usize },
    Loop { res: usize }, Switch { res: usize },
    Tci { callee: usize, args: Vec<usize>, res: usize },
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum RegS { NoBlock, TwoBlocks, Empty, Term(usize, usize) }
const TERMS: &[(&str, &str)] = &[("scf", "yield"), ("func", "tail_call"), ("func", "tail_call_indirect"), ("func", "unreachable"), ("ability", "perform"), ("ability", "handle_dispatch"), ("scf", "if"), ("scf", "switch"),
    ("func", "return"), ("scf", "loop"), ("func", "call"), ("t", "yield"), ("cf", "br"), ("scf", "break"), ("ability", "yield")];
fn shapes() -> Vec<Shape> {
    let mut v = vec![];
    for p in 0..PREDS.len() + 2 { v.push(Shape::Cmpf(p)); }
    let mut regs = vec![RegS::NoBlock, RegS::TwoBlocks, RegS::Empty, RegS::Term(0, 0), RegS::Term(0, 1), RegS::Term(0, 2)];
    for t in 1..TERMS.len() { regs.push(RegS::Term(t, 0)); }
    for depth in 0..2 { for opnds in 0..3 { for res in 0..3 { for never in [false, true] {
        v.push(Shape::If { opnds, regs: vec![], res, never, depth });
        for a in &regs {
            v.push(Shape::If { opnds, regs: vec![*a], res, never, depth });
            for b in &regs {
                v.push(Shape::If { opnds, regs: vec![*a, *b], res, never, depth });
            }
        }
        v.push(Shape::If { opnds, regs: vec![RegS::Term(0, res); 3], res, never, depth });
    } } } }
    for res in 0..4 { v.push(Shape::Loop { res }); v.push(Shape::Switch { res }); }
    for callee in 0..9 { for res in 0..2 { for n in 0..4usize { for k in 0..2usize.pow(n as u32) {
        v.push(Shape::Tci { callee, args: digits(k, 2, n), res });
    } } } }
    v
}
fn tail_ok(t: usize) -> bool { (1..=7).contains(&t) }
fn run_verif(shape: &Shape, st: &Stats) -> CaseResult {
    let mut ctx = IrContext::new();
    let c = &mut ctx;
    let i32t = ty(c, "core", "i32");
    let i1 = ty(c, "core", "i1");
    let never = ty(c, "core", "never");
    let ent = block(c, &[i32t, i1]);
    let (vi, vb) = (c.block_args(ent)[0], c.block_args(ent)[1]);
    let mut ok = true;
    match shape {
        Shape::Cmpf(p) => {
            let mut o = OpB::new("arith", "cmpf").opnd(&[vi, vi]).res(&[i1]);
            if *p < PREDS.len() { o = o.attr("predicate", Attribute::Symbol(sym(PREDS[*p]))); ok = *p < 6; }
            else if *p == PREDS.len() { ok = false; }
            else { o = o.attr("predicate", Attribute::Int(0)); ok = false; }
            o.push(c, ent);
        }
        Shape::Loop { res } => { OpB::new("scf", "loop").res(&vec![i32t; *res]).push(c, ent); ok = *res <= 1; }
        Shape::Switch { res } => { OpB::new("scf", "switch").opnd(&[vi]).res(&vec![i32t; *res]).push(c, ent); ok = *res == 0; }
        Shape::If { opnds, regs, res, never: nv, depth } => {
            let mut b = ent;
            for _ in 0..*depth {
                let nb = block(c, &[]);
                let r = region(c, &[nb]);
                OpB::new("t", "wrap").reg(r).push(c, b);
                b = nb;
            }
            let mut o = OpB::new("scf", "if").opnd(&vec![vb; *opnds]).res(&vec![if *nv { never } else { i32t }; *res]);
            ok = *opnds == 1 && regs.len() == 2;
            for r in regs {
                let rg = match r {
                    RegS::NoBlock => { ok = false; region(c, &[]) }
                    RegS::TwoBlocks => { ok = false; let x = block(c, &[]); let y = block(c, &[]); for z in [x, y] { OpB::new("scf", "yield").opnd(&vec![vi; *res]).push(c, z); } region(c, &[x, y]) }
                    RegS::Empty => { ok = false; let x = block(c, &[]); region(c, &[x]) }
                    RegS::Term(t, n) => {
                        let x = block(c, &[]);
                        OpB::new("t", "op").push(c, x);
                        match TERMS[*t] {
                            ("scf", "yield") => { if n != res { ok = false; } OpB::new("scf", "yield").opnd(&vec![vi; *n]).push(c, x); }
                            (d, m) => {
                                if !(tail_ok(*t) && *nv && *res == 1) { ok = false; }
                                let mut o = OpB::new(d, m);
                                if (d, m) == ("func", "tail_call_indirect") {
                                    let ft = func_ty(c, never, &[]);
                                    let cv = OpB::new("t", "fn").res(&[ft]).push(c, x);
                                    let cv = c.op_results(cv)[0];
                                    o = o.opnd(&[cv]);
                                }
                                if (d, m) == ("scf", "if") {
                                    o = o.opnd(&[vb]);
                                    for _ in 0..2 { let y = block(c, &[]); OpB::new("scf", "yield").push(c, y); let rr = region(c, &[y]); o = o.reg(rr); }
                                }
                                o.push(c, x);
                            }
                        }
                        region(c, &[x])
                    }
                };
                o = o.reg(rg);
            }
            o.push(c, b);
        }
        Shape::Tci { callee, args, res } => {
            let f0 = func_ty(c, never, &[]);
            let f1 = func_ty(c, never, &[i32t]);
            let f2 = func_ty(c, never, &[i1, i32t]);
            let fr = func_ty(c, i32t, &[i32t]);
            let clo = |c: &mut IrContext, ps: &[TypeRef]| c.types.intern(TypeDataBuilder::new(sym("closure"), sym("closure")).params(ps.iter().copied()).build());
            let bare = ty(c, "core", "func");
            let (t, sig): (Option<TypeRef>, Option<Vec<TypeRef>>) = match callee {
                0 => (None, None),
                1 => (Some(f0), Some(vec![])),
                2 => (Some(f1), Some(vec![i32t])),
                3 => (Some(f2), Some(vec![i1, i32t])),
                4 => (Some(fr), None),
                5 => (Some(i32t), None),
                6 => { let x = clo(c, &[f1]); (Some(x), Some(vec![i32t])) }
                7 => { let x = clo(c, &[f1, f1]); (Some(x), None) }
                _ => (Some(bare), None),
            };
            let mut o = OpB::new("func", "tail_call_indirect").res(&vec![i32t; *res]);
            let argv: Vec<ValueRef> = args.iter().map(|a| if *a == 0 { vi } else { vb }).collect();
            if let Some(t) = t {
                let f = OpB::new("t", "fn").res(&[t]).push(c, ent);
                let v = c.op_results(f)[0];
                o = o.opnd(&[v]);
            }
            o.opnd(&argv).push(c, ent);
            // without a callee value the first argument is the callee, and it is not a function
            ok = *res == 0 && sig.is_some_and(|s| s.len() == argv.len() && s.iter().zip(args).all(|(t, a)| *t == if *a == 0 { i32t } else { i1 }));
        }
    }
    let r = region(c, &[ent]);
    let f = func(c, "f", i32t, &[i32t, i1], r).build(c);
    let m = module(c, "m", &[f]);
    let m = Module::new(c, m).expect("module");
    st.transitions(1);
    st.traces(1);
    st.state_str(&format!("{shape:?}"));
    if !ok { st.nontrivial(1); }
    let got = validate_operation_verifiers(c, m);
    if got.is_ok() != ok { return viol("verifier", format!("{shape:?}: expected {}, validator says: {got}", if ok { "accept" } else { "reject" })); }
    let got = validate_all(c, m);
    if !ok && got.is_ok() { return viol("verifier-all", format!("{shape:?}: full validation accepts it")); }
    if ok && !got.is_ok() { return viol("verifier-all", format!("{shape:?}: full validation rejects it: {got}")); }
    Ok(())
}

// ---------------------------------------------------------------- call arity
fn run_arity(i: usize, st: &Stats) -> CaseResult {
    let d = [i % 4, i / 4 % 4, i / 16 % 2, i / 32 % 3, i / 96 % 3, i / 288 % 2, i / 576 % 2];
    let (params, args, tail, nest, dial, known) = (d[0], d[1], d[2] == 1, d[3], d[4], d[5] == 0);
    let mut ctx = IrContext::new();
    let c = &mut ctx;
    let t = ty(c, "core", "i32");
    let e = block(c, &vec![t; params]);
    OpB::new("func", "unreachable").push(c, e);
    let r = region(c, &[e]);
    let mut callee = func(c, "callee", t, &vec![t; params], r);
    callee.d = ["func", "wasm", "clif"][dial].into();
    if d[6] == 1 { callee.regions.clear(); }
    let callee = callee.build(c);
    let e = block(c, &[t]);
    let v = c.block_args(e)[0];
    let mut b = e;
    for _ in 0..nest { let nb = block(c, &[]); let r = region(c, &[nb]); OpB::new("t", "wrap").reg(r).push(c, b); b = nb; }
    let mut o = OpB::new("func", if tail { "tail_call" } else { "call" }).opnd(&vec![v; args]).attr("callee", Attribute::Symbol(sym(if known { "callee" } else { "other" })));
    if !tail { o = o.res(&[t]); }
    o.push(c, b);
    let r = region(c, &[e]);
    let caller = func(c, "caller", t, &[t], r).build(c);
    let m = module(c, "m", &[caller, callee]);
    let m = Module::new(c, m).expect("module");
    validate_call_arity(c, m);
    let want = known && params != args;
    let got = c.take_diagnostics().len();
    st.transitions(1);
    st.traces(1);
    st.state_str(&format!("{d:?}"));
    if want { st.nontrivial(1); }
    if (got > 0) != want || got > 1 { return viol("arity", format!("{d:?} params={params} args={args}: {got} warnings")); }
    Ok(())
}

pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let mut v = vec![];
    let mut dom = |name: &'static str, n: usize, outside: bool| {
        let t = n + outside as usize;
        v.push(Space { name, n: n_opts(t).pow(n as u32), rule: format!("all control-flow graphs with {n} blocks, each with every list of at most 2 successors{}", if outside { " including a block outside the region" } else { "" }),
            run: Box::new(move |i, st| run_dom(n, outside, i, st)),
            describe: Box::new(move |i| format!("successors {:?}", digits(i, n_opts(t), n).into_iter().map(|k| succ_opt(k, t)).collect::<Vec<_>>())), limit: 20 });
    };
    dom("dom0", 0, true);
    dom("dom1", 1, true);
    dom("dom2", 2, true);
    dom("dom3", 3, true);
    dom("dom4", 4, true);
    if tier == Tier::Thorough { dom("dom5", 5, false); }
    let _ = dom;
    for (name, n, inner) in [("dom5s", 5, false), ("dom6s", 6, true)] {
        let o = std::sync::Arc::new(succ_sets(n, inner));
        let o2 = o.clone();
        v.push(Space { name, n: o.iter().map(|x| x.len()).product(), rule: format!("all control-flow graphs with {n} blocks, each with every set of at most 2 successors{}", if inner { ", without self-loops and branches to the entry" } else { "" }),
            run: Box::new(move |i, st| run_cfg(n, pick_sets(&o, i), st)),
            describe: Box::new(move |i| format!("successors {:?}", pick_sets(&o2, i))), limit: 20 });
    }
    let (no, nv) = scope_dims();
    v.push(Space { name: "scope", n: no * nv * no * nv, rule: "every pair of (operation, value) operand insertions over a fixed forest of nested regions, two functions and a nested module".into(),
        run: Box::new(run_scope), describe: Box::new(move |i| format!("op {} uses value {}; op {} uses value {}", i % no, i / no % nv, i / no / nv % no, i / no / nv / no % nv)), limit: 20 });
    v.push(Space { name: "chain", n: no * nv * no * 3, rule: "every (user, value) pair with every detached operation, used once, twice, or re-attached elsewhere".into(),
        run: Box::new(run_chain), describe: Box::new(move |i| format!("op {} uses value {}; op {} detached, variant {}", i % no, i / no % nv, i / no / nv % no, i / no / nv / no % 3)), limit: 20 });
    v.push(Space { name: "nested", n: 560, rule: "a function inside another function, inside a non-function operation, a nested module or a second block, with every (user, value) pair across the boundaries".into(),
        run: Box::new(run_nested), describe: Box::new(|i| format!("case {i}: container {} user {} value {}", i % 5, i / 10 % 4, i / 40 % 7)), limit: 20 });
    let s = std::sync::Arc::new(shapes());
    let s2 = s.clone();
    v.push(Space { name: "verifiers", n: s.len(), rule: "all small shapes of comparisons, structured conditionals, loops, switches and indirect tail calls".into(),
        run: Box::new(move |i, st| run_verif(&s[i], st)), describe: Box::new(move |i| format!("{:?}", s2[i])), limit: 20 });
    v.push(Space { name: "arity", n: 1152, rule: "defined or declared callee x callee params 0..3 x args 0..3 x call kind x nesting x function dialect x known/unknown callee".into(),
        run: Box::new(run_arity), describe: Box::new(|i| format!("case {i}")), limit: 20 });
    v
}
