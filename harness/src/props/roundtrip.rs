//! C01: the textual IR format is lossless.
use crate::engine::*;
use crate::ir::*;
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::*;

/// Print `m`, parse it back into a fresh context and compare; then check that printing is a fixpoint.
fn roundtrip(ctx: &IrContext, m: OpRef, label: &str, st: &Stats) -> CaseResult {
    let before = canon(ctx, m);
    st.state_str(&before);
    let text = print_module(ctx, m);
    st.transitions(1);
    let mut c2 = IrContext::new();
    let m2 = match parse_module(&mut c2, &text) {
        Ok(m2) => m2,
        Err(e) => return viol(label, format!("printed text does not parse: {e:?}\n{text}")),
    };
    st.transitions(1);
    let after = canon(&c2, m2);
    if before != after {
        return viol(label, format!("parse(print(m)) differs from m:\n{}\ntext:\n{text}", diff(&before, &after)));
    }
    // A second trip (now with the aliases the parser registered) must be lossless as well.
    let text2 = print_module(&c2, m2);
    st.transitions(1);
    if text2 != text {
        let mut c3 = IrContext::new();
        match parse_module(&mut c3, &text2) {
            Ok(m3) if canon(&c3, m3) == before => {}
            Ok(m3) => return viol(label, format!("second round trip differs:\n{}\ntext:\n{text2}", diff(&before, &canon(&c3, m3)))),
            Err(e) => return viol(label, format!("reprinted text does not parse: {e:?}\n{text2}")),
        }
    }
    // The manual alias table is part of the text format as well.
    for (n, t) in ctx.type_aliases() {
        match c2.type_alias_by_name(*n) {
            Some(t2) if ty_str(&c2, t2) == ty_str(ctx, *t) => {}
            _ => return viol(label, format!("type alias {n} lost by the round trip:\n{text}")),
        }
    }
    st.traces(1);
    st.nontrivial(1);
    Ok(())
}

fn i32t(c: &mut IrContext) -> TypeRef { ty(c, "core", "i32") }

pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "main", "A_b9", "9", "9a", "_", "a b", "a.b", "a::b", "a\"b", "a\\b", "\\", "\"", "\\\"", "a\nb", "\t", "\r", "\0", "\u{1}", "\u{1f}", "\u{7f}", "\u{80}", "\u{9f}", "\u{e9}", "\u{3b1}", "\u{1F600}", "x\\x41", "\\n", "%0", "^bb0", "@s", "!t", "{}", "}", "{", "//c", "true", "unit", "loc(\"p\" 1:2)", "b\"x\"", "a=b", "a,b", "(", ")", " ", "\u{feff}", "\u{2028}", "\\u{41}", "a'b", "-", "+", "<lambda>", "f$1", "x\\", "\\\\\"\"", "=", "\" =", "q\"=r"]
        .iter().map(|s| s.to_string()).collect();
    // every single ASCII / Latin-1 character, alone and embedded
    for c in 0u32..=0xff {
        let ch = char::from_u32(c).unwrap();
        v.push(ch.to_string());
        v.push(format!("k{ch}z"));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}

fn scalars(_c: &mut IrContext) -> Vec<(String, Attribute)> {
    let mut v: Vec<(String, Attribute)> = vec![("unit".into(), Attribute::Unit), ("true".into(), Attribute::Bool(true)), ("false".into(), Attribute::Bool(false))];
    for i in [0i128, 1, -1, 42, 127, 128, -128, 255, 256, i32::MAX as i128, i32::MIN as i128, u32::MAX as i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1 << 64, -(1 << 64), i128::MAX, i128::MIN, i128::MIN + 1] {
        v.push((format!("int {i}"), Attribute::Int(i)));
    }
    for f in [0.0f64, -0.0, 1.0, -1.0, 0.5, 3.14, 1e15, 1e16, 1e17, 1e21, 1e22, 1e100, 1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e-7, 1e-10, -1e-300, 0.1, 1.0 / 3.0, 123456789.123456789, 9007199254740993.0, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        v.push((format!("float {f}"), Attribute::FloatBits(f.to_bits())));
    }
    v.push(("float nan payload".into(), Attribute::FloatBits(0x7ff8_0000_dead_beef)));
    for s in strings() {
        v.push((format!("string {s:?}"), Attribute::String(s.clone())));
        v.push((format!("symbol {s:?}"), Attribute::Symbol(sym(&s))));
        v.push((format!("bytes {s:?}"), Attribute::Bytes(s.clone().into_bytes().into())));
    }
    for b in 0..=255u8 {
        v.push((format!("byte {b}"), Attribute::Bytes(vec![b].into())));
        v.push((format!("bytepair {b}"), Attribute::Bytes(vec![b, b'0', b'a', b].into())));
    }
    v
}
fn type_attrs(c: &mut IrContext) -> Vec<(String, Attribute)> {
    types(c).into_iter().map(|(n, t)| (format!("type {n}"), Attribute::Type(t))).collect()
}
/// Attribute values: scalars, types, locations, lists (nested to depth 2).
fn attrs(c: &mut IrContext) -> Vec<(String, Attribute)> {
    let mut v = scalars(c);
    v.extend(type_attrs(c));
    for (p, a, b) in [("t", 0, 0), ("a b", 1, 2), ("x\"y", 0, 99999), ("", 3, 4), ("r", 9, 2)] {
        let pr = c.paths.intern(p.into());
        v.push((format!("loc {p:?}"), Attribute::Location(Location::new(pr, Span::new(a, b)))));
    }
    v.push(("list empty".into(), Attribute::List(vec![])));
    let base: Vec<(String, Attribute)> = v.iter().filter(|(n, _)| ["unit", "true", "int -1", "float 1", "string \"a\"", "symbol \"a b\"", "byte 10", "type core.i32", "type s()", "loc \"t\"", "list empty", "type fn", "type s(p)"].contains(&n.as_str())).cloned().collect();
    for (n, a) in &base {
        v.push((format!("list [{n}]"), Attribute::List(vec![a.clone()])));
        v.push((format!("list [[{n}]]"), Attribute::List(vec![Attribute::List(vec![a.clone()])])));
        for (n2, b) in &base {
            v.push((format!("list [{n},{n2}]"), Attribute::List(vec![a.clone(), b.clone()])));
            v.push((format!("list [{n},[{n2}]]"), Attribute::List(vec![a.clone(), Attribute::List(vec![b.clone(), a.clone()])])));
        }
    }
    v
}
/// Type trees up to depth 2, with and without attributes.
fn types(c: &mut IrContext) -> Vec<(String, TypeRef)> {
    let mut v: Vec<(String, TypeRef)> = vec![];
    for n in ["i1", "i8", "i32", "i64", "f64", "nil", "ptr", "bytes"] {
        let t = ty(c, "core", n);
        v.push((format!("core.{n}"), t));
    }
    let any = ty(c, "tribute_rt", "anyref");
    v.push(("anyref".into(), any));
    let i = ty(c, "core", "i32");
    let fnt = func_ty(c, i, &[any, i]);
    v.push(("fn".into(), fnt));
    for (n, d, m) in [("kwdialect true", "trueish", "t"), ("kwdialect false", "falsey", "t"), ("kwdialect unit", "units", "t"), ("kwdialect loc", "locs", "t"), ("kwdialect b", "b", "t")] {
        let t = ty(c, d, m);
        v.push((n.into(), t));
    }
    let mk = |c: &mut IrContext, d: &str, n: &str, ps: &[TypeRef], at: &[(&str, Attribute)]| {
        let mut b = TypeDataBuilder::new(sym(d), sym(n)).params(ps.iter().copied());
        for (k, a) in at { b = b.attr(sym(k), a.clone()); }
        c.types.intern(b.build())
    };
    let s0 = mk(c, "adt", "struct", &[], &[("name", Attribute::Symbol(sym("S")))]);
    v.push(("s()".into(), s0));
    let s1 = mk(c, "adt", "struct", &[i, any], &[("name", Attribute::Symbol(sym("P")))]);
    v.push(("s(p)".into(), s1));
    let s2 = mk(c, "adt", "struct", &[s0, fnt], &[("name", Attribute::Symbol(sym("a::b"))), ("fields", Attribute::List(vec![Attribute::List(vec![Attribute::Symbol(sym("x")), Attribute::Type(s1)])]))]);
    v.push(("s(nested)".into(), s2));
    let e = mk(c, "adt", "enum", &[], &[("name", Attribute::Symbol(sym("Option"))), ("variants", Attribute::List(vec![Attribute::List(vec![Attribute::Symbol(sym("Some")), Attribute::List(vec![Attribute::Type(any)])]), Attribute::List(vec![Attribute::Symbol(sym("None")), Attribute::List(vec![])])]))]);
    v.push(("enum".into(), e));
    let arr = mk(c, "core", "array", &[e], &[]);
    v.push(("array(enum)".into(), arr));
    let long = mk(c, "core", "tuple", &[arr, s2, e, fnt, arr], &[]);
    v.push(("tuple".into(), long));
    let f2 = func_ty(c, fnt, &[arr, fnt]);
    v.push(("fn(fn)".into(), f2));
    let f0 = func_ty(c, i, &[]);
    v.push(("fn()".into(), f0));
    for (k, a) in [("unit", Attribute::Unit), ("int", Attribute::Int(-3)), ("bool", Attribute::Bool(true)), ("float", Attribute::FloatBits(1.5f64.to_bits())), ("str", Attribute::String("q\"".into())), ("bytes", Attribute::Bytes(vec![0, 34, 92].into())), ("list", Attribute::List(vec![Attribute::Int(1), Attribute::Type(s1)]))] {
        let t = mk(c, "x", "t", &[], &[("k", a.clone())]);
        v.push((format!("x.t{{{k}}}"), t));
        let t = mk(c, "x", "t", &[i], &[("k.sub", a.clone()), ("z", Attribute::Unit)]);
        v.push((format!("x.t(i){{{k}}}"), t));
    }
    v
}

const POS: usize = 6;
fn attr_case(i: usize, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let al = attrs(&mut c);
    let (n, a) = al[i / POS].clone();
    let t = i32t(&mut c);
    let m = match i % POS {
        0 => { // on a generic op without results
            let b = block(&mut c, &[]);
            OpB::new("test", "op").attr("value", a).push(&mut c, b);
            OpB::new("func", "return").push(&mut c, b);
            let r = region(&mut c, &[b]);
            let f = func(&mut c, "f", t, &[], r).build(&mut c);
            module(&mut c, "m", &[f])
        }
        1 => { // between other attributes, on an op with operands, results and a region
            let b = block(&mut c, &[t]);
            let v = c.block_arg(b, 0);
            let ib = block(&mut c, &[]);
            OpB::new("test", "inner").opnd(&[v]).attr("z", a.clone()).push(&mut c, ib);
            let ir = region(&mut c, &[ib]);
            OpB::new("test", "op").opnd(&[v, v]).res(&[t]).attr("a", Attribute::Int(1)).attr("m.n", a).attr("z", Attribute::Unit).reg(ir).push(&mut c, b);
            let r = region(&mut c, &[b]);
            let f = func(&mut c, "f", t, &[t], r).build(&mut c);
            module(&mut c, "m", &[f])
        }
        2 => { // as an extra attribute of a function definition
            let b = block(&mut c, &[t]);
            OpB::new("func", "unreachable").push(&mut c, b);
            let r = region(&mut c, &[b]);
            let f = func(&mut c, "f", t, &[t], r).attr("abi", Attribute::String("C".into())).attr("extra", a).build(&mut c);
            module(&mut c, "m", &[f])
        }
        3 => { // inside a type
            let x = c.types.intern(TypeDataBuilder::new(sym("x"), sym("y")).param(t).attr(sym("k"), a).build());
            let b = block(&mut c, &[x]);
            OpB::new("test", "op").res(&[x, t]).push(&mut c, b);
            OpB::new("func", "unreachable").push(&mut c, b);
            let r = region(&mut c, &[b]);
            let f = func(&mut c, "f", x, &[x], r).build(&mut c);
            module(&mut c, "m", &[f])
        }
        4 => { // in a list attribute, directly at module level
            let o = OpB::new("test", "top").attr("l", Attribute::List(vec![a.clone(), Attribute::Int(0), a])).build(&mut c);
            module(&mut c, "m", &[o])
        }
        _ => { // on a bodyless declaration
            let ft = func_ty(&mut c, t, &[t, t]);
            let f = OpB::new("func", "func").attr("sym_name", Attribute::Symbol(sym("ext"))).attr("type", Attribute::Type(ft)).attr("abi", a).build(&mut c);
            module(&mut c, "m", &[f])
        }
    };
    roundtrip(&c, m, &n, st)
}

const SPOS: usize = 8;
fn sym_case(i: usize, st: &Stats) -> CaseResult {
    let names = strings();
    let s = &names[i / SPOS];
    let mut c = IrContext::new();
    let t = i32t(&mut c);
    let mut fname = "f".to_string();
    let mut mname = "m".to_string();
    let pos = i % SPOS;
    let b = block(&mut c, &[]);
    match pos {
        0 => fname = s.clone(),
        1 => mname = s.clone(),
        2 => { OpB::new("func", "call").attr("callee", Attribute::Symbol(sym(s))).res(&[t]).push(&mut c, b); }
        3 => { // manual type alias
            let x = c.types.intern(TypeDataBuilder::new(sym("x"), sym("y")).param(t).attr(sym("k"), Attribute::Unit).build());
            c.register_type_alias(sym(s), x);
            OpB::new("test", "op").res(&[x]).push(&mut c, b);
        }
        4 => { // dialect-provided alias hint (named struct used twice)
            let x = c.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym(s))).build());
            OpB::new("test", "op").res(&[x, x]).push(&mut c, b);
        }
        5 => { // two different structs with the same alias hint
            let x = c.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym(s))).build());
            let y = c.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).param(x).attr(sym("name"), Attribute::Symbol(sym(s))).build());
            OpB::new("test", "op").res(&[x, y, x, y]).push(&mut c, b);
        }
        6 => { // nested module name
            let o = OpB::new("test", "leaf").build(&mut c);
            let nm = module(&mut c, s, &[o]);
            let m = module(&mut c, "outer", &[nm]);
            return roundtrip(&c, m, &format!("nested module {s:?}"), st);
        }
        _ => { // tribute_control function
            OpB::new("tribute_control", "return").push(&mut c, b);
            let r = region(&mut c, &[b]);
            let ct = c.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("callable")).param(t).attr(sym("tribute.calling_convention"), Attribute::Int(0)).build());
            let f = OpB::new("tribute_control", "func").attr("sym_name", Attribute::Symbol(sym(s))).attr("type", Attribute::Type(ct)).reg(r).build(&mut c);
            let m = module(&mut c, "m", &[f]);
            return roundtrip(&c, m, &format!("tribute_control.func {s:?}"), st);
        }
    }
    OpB::new("func", "return").push(&mut c, b);
    let r = region(&mut c, &[b]);
    let f = func(&mut c, &fname, t, &[], r).build(&mut c);
    let m = module(&mut c, &mname, &[f]);
    let k = ["func name", "module name", "callee", "alias", "hint", "hint clash", "", ""][pos];
    roundtrip(&c, m, &format!("{k} {s:?}"), st)
}

/// Pairs of types used together, with every combination of manual aliases on them.
fn type_case(i: usize, st: &Stats) -> CaseResult {
    let mut c = IrContext::new();
    let tl = types(&mut c);
    let n = tl.len();
    let (x, y, al) = (i / 4 / n % n, i / 4 % n, i % 4);
    let (tx, ty_) = (tl[x].1, tl[y].1);
    if al & 1 != 0 { c.register_type_alias(sym("Zx"), tx); }
    if al & 2 != 0 { c.register_type_alias(sym("Ay"), ty_); }
    let b = block(&mut c, &[tx, ty_]);
    let v = c.block_arg(b, 1);
    let ib = block(&mut c, &[ty_, tx]);
    OpB::new("test", "y").opnd(&[v]).attr("t", Attribute::Type(tx)).push(&mut c, ib);
    let ir = region(&mut c, &[ib]);
    OpB::new("test", "op").opnd(&[v]).res(&[tx, ty_]).attr("type", Attribute::Type(ty_)).reg(ir).push(&mut c, b);
    OpB::new("func", "return").push(&mut c, b);
    let r = region(&mut c, &[b]);
    let f = func(&mut c, "f", tx, &[tx, ty_], r).build(&mut c);
    // a second function re-using both types (drives automatic aliases) and a declaration
    let b2 = block(&mut c, &[ty_]);
    OpB::new("test", "op").res(&[ty_, ty_, tx, tx]).push(&mut c, b2);
    let r2 = region(&mut c, &[b2]);
    let f2 = func(&mut c, "g", ty_, &[ty_], r2).build(&mut c);
    let ft = func_ty(&mut c, ty_, &[tx]);
    let f3 = OpB::new("func", "func").attr("sym_name", Attribute::Symbol(sym("ext"))).attr("type", Attribute::Type(ft)).attr("abi", Attribute::String("C".into())).build(&mut c);
    let m = module(&mut c, "m", &[f, f2, f3]);
    roundtrip(&c, m, &format!("types {} / {} aliases {al}", tl[x].0, tl[y].0), st)
}

#[derive(Clone, Debug)]
pub struct Shape { blocks: Vec<(usize, usize, usize)>, wrap: usize } // (args, body, term)
fn shapes(tier: Tier) -> Vec<Shape> {
    let mut v = vec![];
    let nbmax = 3usize;
    for nb in 1..=nbmax {
        let (amax, bmax): (usize, usize) = match (nb, tier) { (1, _) => (3, 8), (2, Tier::Quick) => (2, 6), (2, _) => (3, 8), (_, Tier::Quick) => (2, 3), (_, _) => (2, 5) };
        let terms: usize = 1 + 1 + nb + nb; // return, none/unreachable, br k, cond k,k+1
        let per = amax * bmax * terms;
        let total = per.pow(nb as u32);
        for k in 0..total {
            let mut r = k;
            let mut bl = vec![];
            for _ in 0..nb {
                let x = r % per;
                r /= per;
                bl.push((x % amax, x / amax % bmax, x / amax / bmax));
            }
            if nb == 3 && bl[1].0 == 1 && bl[2].0 == 1 && bl[0].0 == 1 && tier == Tier::Quick { continue; }
            for wrap in 0..(if nb == 3 { 1 } else { 3 }) {
                v.push(Shape { blocks: bl.clone(), wrap });
            }
        }
    }
    v
}
fn fill(c: &mut IrContext, blocks: &[BlockRef], sh: &[(usize, usize, usize)], outer: &[ValueRef]) {
    let t = i32t(c);
    let mut seen: Vec<ValueRef> = outer.to_vec();
    for (k, b) in blocks.iter().enumerate() {
        seen.extend_from_slice(&c.block_args(*b).to_vec());
        let first = seen.first().copied();
        let last = seen.last().copied();
        let add = |c: &mut IrContext, o: OpRef, seen: &mut Vec<ValueRef>| seen.extend_from_slice(&c.op_results(o).to_vec());
        match sh[k].1 {
            0 => {}
            1 => { let o = OpB::new("arith", "const").attr("value", Attribute::Int(k as i128)).res(&[t]).push(c, *b); add(c, o, &mut seen); }
            2 => {
                let o = OpB::new("arith", "const").attr("value", Attribute::Int(7)).res(&[t]).push(c, *b);
                let v = c.op_result(o, 0);
                add(c, o, &mut seen);
                let o = OpB::new("arith", "addi").opnd(&[first.unwrap_or(v), v]).res(&[t]).push(c, *b);
                add(c, o, &mut seen);
            }
            3 => { let o = OpB::new("test", "multi").opnd(&last.into_iter().collect::<Vec<_>>()).res(&[t, t, t]).push(c, *b); add(c, o, &mut seen);
                   let v = c.op_result(o, 2); OpB::new("test", "use").opnd(&[v, c.op_result(o, 0)]).push(c, *b); }
            4 => { // two regions, each with one labelled or unlabelled block
                let b1 = block(c, &[]);
                OpB::new("scf", "yield").opnd(&last.into_iter().collect::<Vec<_>>()).push(c, b1);
                let b2 = block(c, &[t, t]);
                let a = c.block_arg(b2, 1);
                OpB::new("scf", "yield").opnd(&[a]).push(c, b2);
                let (r1, r2) = (region(c, &[b1]), region(c, &[b2]));
                let o = OpB::new("test", "two").opnd(&first.into_iter().collect::<Vec<_>>()).res(&[t]).reg(r1).reg(r2).push(c, *b);
                add(c, o, &mut seen);
            }
            5 => { // region with two blocks and branches between them, nested region inside
                let b1 = block(c, &[]);
                let b2 = block(c, &[t]);
                let ib = block(c, &[]);
                let a = c.block_arg(b2, 0);
                OpB::new("test", "deep").opnd(&[a]).push(c, ib);
                let ir = region(c, &[ib]);
                let cst = OpB::new("arith", "const").attr("value", Attribute::Bool(true)).res(&[t]).push(c, b1);
                let cv = c.op_result(cst, 0);
                OpB::new("cf", "br").opnd(&[cv]).suc(&[b2]).push(c, b1);
                OpB::new("test", "nest").reg(ir).push(c, b2);
                OpB::new("cf", "br").suc(&[b1]).push(c, b2);
                let r = region(c, &[b1, b2]);
                OpB::new("test", "one").reg(r).push(c, *b);
            }
            6 => { // attributes and regions together, no results
                let ib = block(c, &[t]);
                OpB::new("test", "leaf").attr("x", Attribute::Unit).push(c, ib);
                let r = region(c, &[ib]);
                OpB::new("test", "r").attr("k", Attribute::Int(1)).reg(r).push(c, *b);
            }
            _ => { // region-carrying op with a parenthesised result type
                let ib = block(c, &[]);
                OpB::new("test", "leaf").push(c, ib);
                let r = region(c, &[ib]);
                let ft = func_ty(c, t, &[t]);
                let o = OpB::new("test", "r").res(&[ft]).reg(r).push(c, *b);
                let _ = add(c, o, &mut vec![]);
            }
        }
        let nb = blocks.len();
        let lastv: Vec<ValueRef> = seen.last().copied().into_iter().collect();
        match sh[k].2 {
            0 => { OpB::new("func", "return").opnd(&lastv).push(c, *b); }
            1 => { OpB::new("func", "unreachable").push(c, *b); }
            x if x < 2 + nb => { OpB::new("cf", "br").opnd(&lastv).suc(&[blocks[x - 2]]).push(c, *b); }
            x => { let j = x - 2 - nb; OpB::new("cf", "cond_br").opnd(&lastv).suc(&[blocks[j], blocks[(j + 1) % nb]]).push(c, *b); }
        }
    }
}
fn shape_module(sh: &Shape) -> (IrContext, OpRef) {
    let mut c = IrContext::new();
    let t = i32t(&mut c);
    let blocks: Vec<BlockRef> = sh.blocks.iter().map(|b| block(&mut c, &vec![t; b.0])).collect();
    let entry_args = vec![t; sh.blocks[0].0];
    let r = region(&mut c, &blocks);
    fill(&mut c, &blocks, &sh.blocks, &[]);
    let f = match sh.wrap {
        0 | 2 => func(&mut c, "f", t, &entry_args, r).build(&mut c),
        _ => { // closure-like op inside a function: region nested one level down
            let b = block(&mut c, &[]);
            OpB::new("test", "wrap").res(&[t]).reg(r).push(&mut c, b);
            let r2 = region(&mut c, &[b]);
            func(&mut c, "f", t, &[], r2).build(&mut c)
        }
    };
    let m = if sh.wrap == 2 {
        let b = block(&mut c, &[]);
        OpB::new("func", "unreachable").push(&mut c, b);
        let r = region(&mut c, &[b]);
        let g = func(&mut c, "g", t, &[], r).build(&mut c);
        let inner = module(&mut c, "inner", &[f]);
        module(&mut c, "m", &[g, inner])
    } else {
        module(&mut c, "m", &[f])
    };
    (c, m)
}

const CUSTOM: [usize; 8] = [4, 3, 3, 5, 4, 3, 5, 2];
fn custom_idx(mut i: usize) -> [usize; 8] {
    let mut o = [0; 8];
    for (k, n) in CUSTOM.iter().enumerate() { o[k] = i % n; i /= n; }
    o
}
/// Ops with a custom assembly format: kind × params × captures × attributes × result type × convention × body × nesting.
fn custom_module(ix: [usize; 8]) -> (IrContext, OpRef) {
    let [kind, np, nc, na, rt, conv, body, deep] = ix;
    let mut c = IrContext::new();
    let t = i32t(&mut c);
    let any = ty(&mut c, "tribute_rt", "anyref");
    let fnt = func_ty(&mut c, t, &[any]);
    let st = c.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym("S"))).build());
    let ret = [t, fnt, st, any][rt];
    let params: Vec<TypeRef> = [fnt, t][..np.min(2)].to_vec();
    let mk_body = |c: &mut IrContext, outer: &[ValueRef]| -> RegionRef {
        let mut blocks = vec![block(c, &params)];
        if body == 1 || body == 2 { blocks.push(block(c, &[t])); }
        let mut seen = outer.to_vec();
        seen.extend(c.block_args(blocks[0]).to_vec());
        let lastv: Vec<ValueRef> = seen.last().copied().into_iter().collect();
        match body {
            0 => { let o = OpB::new("arith", "const").attr("value", Attribute::Int(1)).res(&[t]).push(c, blocks[0]); let v = c.op_result(o, 0); OpB::new("func", "return").opnd(&[v]).opnd(&lastv).push(c, blocks[0]); }
            1 => { OpB::new("cf", "br").opnd(&lastv).suc(&[blocks[1]]).push(c, blocks[0]); let v = c.block_arg(blocks[1], 0); OpB::new("func", "return").opnd(&[v]).push(c, blocks[1]); }
            2 => { OpB::new("cf", "br").suc(&[blocks[0]]).push(c, blocks[0]); OpB::new("cf", "br").suc(&[blocks[0]]).push(c, blocks[1]); }
            3 => { OpB::new("cf", "br").opnd(&lastv).suc(&[blocks[0]]).push(c, blocks[0]); }
            _ => {}
        }
        region(c, &blocks)
    };
    let attrs: Vec<(String, Attribute)> = [("a", Attribute::Unit), ("x.y", Attribute::List(vec![Attribute::Type(fnt)])), ("abi", Attribute::String("C {".into()))].iter().take(na.min(3)).map(|(k, v)| (k.to_string(), v.clone())).chain(if na == 4 { vec![("tribute.calling_convention".to_string(), Attribute::Int(conv as i128))] } else { vec![] }).collect();
    let callable = |c: &mut IrContext| { let cv = conv as i128; c.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("callable")).param(ret).params(params.iter().copied()).attr(sym("tribute.calling_convention"), Attribute::Int(cv)).build()) };
    let with = |mut o: OpB, skip_conv: bool| { for (k, v) in &attrs { if skip_conv && k.starts_with("tribute.") { continue; } o = o.attr(k, v.clone()); } o };
    let mut tops = vec![];
    match kind {
        0 => { let r = mk_body(&mut c, &[]); tops.push(with(func(&mut c, "f", ret, &params, r), false).build(&mut c)); }
        1 => { let r = mk_body(&mut c, &[]); let ct = callable(&mut c); tops.push(with(OpB::new("tribute_control", "func").attr("sym_name", Attribute::Symbol(sym("g"))).attr("type", Attribute::Type(ct)), true).reg(r).build(&mut c)); }
        k => {
            // lambdas live inside a function with two arguments available for capture
            let b = block(&mut c, &[t, any]);
            let caps: Vec<ValueRef> = c.block_args(b)[..nc.min(2)].to_vec();
            let place = if deep == 1 { let ib = block(&mut c, &[]); let ir = region(&mut c, &[ib]); OpB::new("test", "wrap").reg(ir).push(&mut c, b); ib } else { b };
            let r = mk_body(&mut c, &caps);
            let o = if k == 2 {
                let ft = func_ty(&mut c, ret, &params);
                let ct = c.types.intern(TypeDataBuilder::new(sym("closure"), sym("closure")).param(ft).build());
                with(OpB::new("closure", "lambda").opnd(&caps).res(&[ct]).reg(r), false).push(&mut c, place)
            } else {
                let ct = callable(&mut c);
                with(OpB::new("tribute_control", "lambda").opnd(&caps).res(&[ct]).reg(r), true).push(&mut c, place)
            };
            let v = c.op_result(o, 0);
            OpB::new("test", "use").opnd(&[v]).push(&mut c, place);
            OpB::new("func", "return").push(&mut c, b);
            let r = region(&mut c, &[b]);
            tops.push(func(&mut c, "f", t, &[t, any], r).build(&mut c));
        }
    }
    if deep == 1 { let b = block(&mut c, &[]); OpB::new("func", "unreachable").push(&mut c, b); let r = region(&mut c, &[b]); tops.insert(0, func(&mut c, "first", t, &[], r).build(&mut c)); }
    let m = module(&mut c, "m", &tops);
    (c, m)
}

/// Interaction of hand-registered and automatically chosen alias names, in flat and nested modules.
const ALIAS: [usize; 7] = [5, 4, 3, 3, 3, 3, 3];
fn alias_case(i: usize, st: &Stats) -> CaseResult {
    let mut k = i;
    let mut nx = |n: usize| { let x = k % n; k /= n; x };
    let d: Vec<usize> = ALIAS.iter().map(|n| nx(*n)).collect();
    let mut c = IrContext::new();
    let prim: Vec<TypeRef> = ["i32", "i64", "f64"].iter().map(|n| ty(&mut c, "core", n)).collect();
    let ptr = ty(&mut c, "core", "ptr");
    let mk = |c: &mut IrContext, ps: &[TypeRef], name: Option<&str>, fields: &[(&str, TypeRef)]| {
        let mut b = TypeDataBuilder::new(sym(if name.is_some() { "adt" } else { "core" }), sym(if name.is_some() { "struct" } else { "tuple" })).params(ps.iter().copied());
        if let Some(n) = name {
            b = b.attr(sym("name"), Attribute::Symbol(sym(n)));
            let l: Vec<Attribute> = fields.iter().map(|(f, t)| Attribute::List(vec![Attribute::Symbol(sym(f)), Attribute::Type(*t)])).collect();
            b = b.attr(sym("fields"), Attribute::List(l));
        }
        c.types.intern(b.build())
    };
    let a = { let x = mk(&mut c, &prim, None, &[]); let y = mk(&mut c, &[prim[2], prim[1]], None, &[]); mk(&mut c, &[x, y, x], None, &[]) };
    let b = mk(&mut c, &[prim[0], a, prim[1]], None, &[]);
    let p = mk(&mut c, &[], Some("P"), &[("x", prim[0])]);
    let p2 = mk(&mut c, &[], Some("P"), &[("x", prim[0]), ("q", p), ("b", b)]);
    // hand-registered aliases, some with names the automatic scheme would choose
    match d[0] { 0 => {} 1 => c.register_type_alias(sym("t0"), ptr), 2 => c.register_type_alias(sym("t1"), ptr), 3 => c.register_type_alias(sym("P"), ptr), _ => c.register_type_alias(sym("P_1"), ptr) }
    match d[1] { 0 => {} 1 => c.register_type_alias(sym("zz"), a), 2 => c.register_type_alias(sym("aa"), p2), _ => c.register_type_alias(sym("t2"), b) }
    let counts = [(a, d[2]), (b, d[3]), (p, d[4]), (p2, d[5])];
    let mkf = |c: &mut IrContext, name: &str, rev: bool| {
        let bl = block(c, &[ptr]);
        let mut tl: Vec<TypeRef> = counts.iter().flat_map(|(t, n)| vec![*t; *n]).collect();
        if rev { tl.reverse(); }
        OpB::new("test", "op").res(&tl).push(c, bl);
        OpB::new("func", "return").push(c, bl);
        let r = region(c, &[bl]);
        func(c, name, ptr, &[ptr], r).build(c)
    };
    let m = match d[6] {
        0 => { let f = mkf(&mut c, "f", false); module(&mut c, "m", &[f]) }
        1 => { let f = mkf(&mut c, "f", false); let g = mkf(&mut c, "g", true); let inner = module(&mut c, "i", &[g]); module(&mut c, "m", &[f, inner]) }
        _ => { let f = mkf(&mut c, "f", true); let g = mkf(&mut c, "g", false); let inner = module(&mut c, "i", &[g]); module(&mut c, "m", &[inner, f]) }
    };
    roundtrip(&c, m, &format!("alias {d:?}"), st)
}

/// Many types asking for the same alias name, hand-registered names in the way, modules nested three deep.
const LADDER: [usize; 5] = [6, 4, 32, 3, 4];
fn ladder_case(i: usize, st: &Stats) -> CaseResult {
    let mut k = i;
    let d: Vec<usize> = LADDER.iter().map(|n| { let x = k % n; k /= n; x }).collect();
    let mut c = IrContext::new();
    let (i32_, ptr) = (i32t(&mut c), ty(&mut c, "core", "ptr"));
    let named = |c: &mut IrContext, n: &str, id: i128| c.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym(n))).attr(sym("id"), Attribute::Int(id)).build());
    let mut tl = vec![];
    for x in 0..d[0] { tl.push(named(&mut c, "P", x as i128)); }
    match d[3] { 1 => tl.push(named(&mut c, "P_1", 100)), 2 => { tl.insert(0, named(&mut c, "P_2", 100)); tl.push(named(&mut c, "t1", 101)); } _ => {} }
    for x in 0..d[1] { tl.push(c.types.intern(TypeDataBuilder::new(sym("core"), sym("tuple")).params([i32_, ptr, i32_, ptr, i32_]).attr(sym("id"), Attribute::Int(x as i128)).build())); }
    for (b, n) in ["t0", "t1", "t2", "P_1", "P_2"].iter().enumerate() {
        if d[2] >> b & 1 == 1 { let t = c.types.intern(TypeDataBuilder::new(sym("x"), sym("hand")).attr(sym("n"), Attribute::Int(b as i128)).build()); c.register_type_alias(sym(n), t); tl.push(t); }
    }
    let mkf = |c: &mut IrContext, name: &str, tl: &[TypeRef]| {
        let bl = block(c, tl);
        OpB::new("test", "op").res(tl).push(c, bl);
        let r = region(c, &[bl]);
        func(c, name, ptr, tl, r).build(c)
    };
    let rev: Vec<TypeRef> = tl.iter().rev().copied().collect();
    let half = tl[..tl.len() / 2].to_vec();
    let m = match d[4] {
        0 => { let f = mkf(&mut c, "f", &tl); module(&mut c, "m", &[f]) }
        1 => { // one type set per level, innermost first
            let a = mkf(&mut c, "a", &tl); let i3 = module(&mut c, "i3", &[a]);
            let b = mkf(&mut c, "b", &rev); let i2 = module(&mut c, "i2", &[i3, b]);
            let e = mkf(&mut c, "e", &half); let i1 = module(&mut c, "i1", &[i2, e]);
            let g = mkf(&mut c, "g", &tl); module(&mut c, "m", &[i1, g])
        }
        2 => { // siblings
            let a = mkf(&mut c, "a", &tl); let x = module(&mut c, "x", &[a]);
            let b = mkf(&mut c, "b", &rev); let y = module(&mut c, "y", &[b]);
            let o = module(&mut c, "o", &[x, y]);
            module(&mut c, "m", &[o])
        }
        _ => { // used once above, twice below
            let g = mkf(&mut c, "g", &half);
            let a = mkf(&mut c, "a", &tl); let x = module(&mut c, "x", &[a]);
            let y = module(&mut c, "y", &[x]); let z = mkf(&mut c, "z", &rev);
            module(&mut c, "m", &[g, y, z])
        }
    };
    roundtrip(&c, m, &format!("ladder {d:?}"), st)
}

/// Hand-registered aliases of four types: every acyclic reference pattern x every naming order x kind of reference.
fn dag_case(i: usize, st: &Stats) -> CaseResult {
    let (edges, kind, mut perm) = (i % 64, i / 64 % 4, i / 256);
    let mut names = vec!["a", "b", "c", "d"];
    let mut order = vec![];
    for n in (1..=4).rev() { order.push(names.remove(perm % n)); perm /= n; }
    let mut c = IrContext::new();
    let mut ts: Vec<TypeRef> = vec![];
    let mut e = edges;
    for k in 0..4usize {
        let mut b = TypeDataBuilder::new(sym("x"), sym("n")).attr(sym("id"), Attribute::Int(k as i128));
        let mut l = vec![];
        for t in ts.iter() {
            if e & 1 == 1 {
                match kind {
                    0 => b = b.param(*t),
                    1 => l.push(Attribute::Type(*t)),
                    2 => l.push(Attribute::List(vec![Attribute::Unit, Attribute::List(vec![Attribute::Symbol(sym("q")), Attribute::Type(*t)])])),
                    _ => { let w = c.types.intern(TypeDataBuilder::new(sym("y"), sym("w")).param(*t).build()); b = b.param(w); }
                }
            }
            e >>= 1;
        }
        if !l.is_empty() { b = b.attr(sym("l"), Attribute::List(l)); }
        ts.push(c.types.intern(b.build()));
    }
    for k in (0..4).rev() { c.register_type_alias(sym(order[k]), ts[k]); }
    let o = OpB::new("test", "top").attr("l", Attribute::List(ts.iter().map(|t| Attribute::Type(*t)).collect())).build(&mut c);
    let m = module(&mut c, "m", &[o]);
    roundtrip(&c, m, &format!("alias graph {edges:06b} kind {kind} order {order:?}"), st)
}

/// An operation with up to four regions of every kind, with and without results, attributes and operands.
fn regions_case(i: usize, st: &Stats) -> CaseResult {
    let (feat, mut k) = (i % 8, i / 8);
    let mut kinds = vec![];
    let mut n = 0usize;
    while k >= 4usize.pow(n as u32) { k -= 4usize.pow(n as u32); n += 1; }
    for _ in 0..n { kinds.push(k % 4); k /= 4; }
    let mut c = IrContext::new();
    let t = i32t(&mut c);
    let b = block(&mut c, &[t]);
    let a = c.block_arg(b, 0);
    let mut o = OpB::new("test", "multi");
    if feat & 1 != 0 { o = o.opnd(&[a]); }
    if feat & 2 != 0 { o = o.attr("k", Attribute::Int(1)); }
    if feat & 4 != 0 { o = o.res(&[t]); }
    for x in &kinds {
        let r = match x {
            0 => { let b = block(&mut c, &[]); region(&mut c, &[b]) }
            1 => { let b = block(&mut c, &[]); OpB::new("test", "leaf").opnd(&[a]).push(&mut c, b); region(&mut c, &[b]) }
            2 => { let b = block(&mut c, &[t]); let v = c.block_arg(b, 0); OpB::new("test", "leaf").opnd(&[v]).push(&mut c, b); region(&mut c, &[b]) }
            _ => { let b1 = block(&mut c, &[]); let b2 = block(&mut c, &[t]); OpB::new("cf", "br").opnd(&[a]).suc(&[b2]).push(&mut c, b1); let v = c.block_arg(b2, 0); OpB::new("test", "leaf").opnd(&[v]).push(&mut c, b2); region(&mut c, &[b1, b2]) }
        };
        o = o.reg(r);
    }
    o.push(&mut c, b);
    OpB::new("func", "return").push(&mut c, b);
    let r = region(&mut c, &[b]);
    let f = func(&mut c, "f", t, &[t], r).build(&mut c);
    let m = module(&mut c, "m", &[f]);
    roundtrip(&c, m, &format!("regions {kinds:?} features {feat:03b}"), st)
}

/// Every successor list of up to three entries on every operation of one- and two-block regions.
fn succ_lists(nb: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..3 {
        let mut next = vec![];
        for l in &last { for b in 0..nb { let mut x = l.clone(); x.push(b); next.push(x); } }
        v.extend(next.clone());
        last = next;
    }
    v
}
fn succ_n() -> usize { 2 * (succ_lists(1).len().pow(2) + succ_lists(2).len().pow(3)) }
fn succ_case(i: usize, st: &Stats) -> CaseResult {
    let (wrap, k) = (i % 2, i / 2);
    let one = succ_lists(1).len().pow(2);
    let (nb, k) = if k < one { (1, k) } else { (2, k - one) };
    let sl = succ_lists(nb);
    let mut c = IrContext::new();
    let t = i32t(&mut c);
    let bl: Vec<BlockRef> = (0..nb).map(|_| block(&mut c, &[])).collect();
    let pick = |j: usize| -> Vec<BlockRef> { sl[k / sl.len().pow(j as u32) % sl.len()].iter().map(|x| bl[*x]).collect() };
    OpB::new("test", "mid").suc(&pick(0)).push(&mut c, bl[0]);
    OpB::new("test", "end").suc(&pick(1)).push(&mut c, bl[0]);
    if nb == 2 { OpB::new("test", "end").suc(&pick(2)).push(&mut c, bl[1]); }
    let r = region(&mut c, &bl);
    let f = if wrap == 0 { func(&mut c, "f", t, &[], r).build(&mut c) } else {
        let b = block(&mut c, &[]);
        OpB::new("test", "wrap").reg(r).push(&mut c, b);
        let r2 = region(&mut c, &[b]);
        func(&mut c, "f", t, &[], r2).build(&mut c)
    };
    let m = module(&mut c, "m", &[f]);
    roundtrip(&c, m, "successor lists", st)
}

/// Attribute names.
const KEYS: [&str; 22] = ["a", "_", "_a", "a_", "A9", "a.b", "a._b", "_._", "a.b.c.d", "true", "false", "unit", "loc", "inf", "NaN", "b", "type", "name", "value", "effects", "bb0", "x0"];
fn key_case(i: usize, st: &Stats) -> CaseResult {
    let (k1, k2, pos) = (KEYS[i % 22], KEYS[i / 22 % 22], i / 484);
    let mut c = IrContext::new();
    let t = i32t(&mut c);
    let (a1, a2) = (Attribute::Int(1), Attribute::Symbol(sym("s")));
    let b = block(&mut c, &[]);
    match pos {
        0 => { OpB::new("test", "op").attr(k1, a1).attr(k2, a2).push(&mut c, b); }
        _ => { let x = c.types.intern(TypeDataBuilder::new(sym("x"), sym("y")).attr(sym(k1), a1).attr(sym(k2), a2).build()); OpB::new("test", "op").res(&[x]).push(&mut c, b); }
    }
    let r = region(&mut c, &[b]);
    let f = func(&mut c, "f", t, &[], r).build(&mut c);
    let m = module(&mut c, "m", &[f]);
    roundtrip(&c, m, &format!("attribute keys {k1} {k2} at {pos}"), st)
}

/// Degenerate-but-well-formed structures.
fn degenerate() -> Vec<(&'static str, fn() -> (IrContext, OpRef))> {
    vec![
        ("empty module", || { let mut c = IrContext::new(); let m = module(&mut c, "m", &[]); (c, m) }),
        ("nested empty module", || { let mut c = IrContext::new(); let i = module(&mut c, "i", &[]); let m = module(&mut c, "m", &[i]); (c, m) }),
        ("op with empty-block region", || { let mut c = IrContext::new(); let b = block(&mut c, &[]); let r = region(&mut c, &[b]); let o = OpB::new("test", "op").reg(r).build(&mut c); let m = module(&mut c, "m", &[o]); (c, m) }),
        ("op with attrs and empty-block region", || { let mut c = IrContext::new(); let b = block(&mut c, &[]); let r = region(&mut c, &[b]); let o = OpB::new("test", "op").attr("a", Attribute::Unit).reg(r).build(&mut c); let m = module(&mut c, "m", &[o]); (c, m) }),
        ("func with empty entry block", || { let mut c = IrContext::new(); let t = i32t(&mut c); let b = block(&mut c, &[]); let r = region(&mut c, &[b]); let f = func(&mut c, "f", t, &[], r).build(&mut c); let m = module(&mut c, "m", &[f]); (c, m) }),
        ("func with args and empty entry block", || { let mut c = IrContext::new(); let t = i32t(&mut c); let b = block(&mut c, &[t]); let r = region(&mut c, &[b]); let f = func(&mut c, "f", t, &[t], r).build(&mut c); let m = module(&mut c, "m", &[f]); (c, m) }),
        ("func declaration without body", || { let mut c = IrContext::new(); let t = i32t(&mut c); let ft = func_ty(&mut c, t, &[t]); let f = OpB::new("func", "func").attr("sym_name", Attribute::Symbol(sym("f"))).attr("type", Attribute::Type(ft)).build(&mut c); let m = module(&mut c, "m", &[f]); (c, m) }),
        ("region with empty second block", || { let mut c = IrContext::new(); let b = block(&mut c, &[]); let b2 = block(&mut c, &[]); OpB::new("cf", "br").suc(&[b2]).push(&mut c, b); let r = region(&mut c, &[b, b2]); let o = OpB::new("test", "op").reg(r).build(&mut c); let m = module(&mut c, "m", &[o]); (c, m) }),
    ]
}

pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let (na, nt, ns) = { let mut c = IrContext::new(); (attrs(&mut c).len(), types(&mut c).len(), strings().len()) };
    let sh: &'static [Shape] = Box::leak(shapes(tier).into_boxed_slice());
    let dg: &'static [(&'static str, fn() -> (IrContext, OpRef))] = Box::leak(degenerate().into_boxed_slice());
    vec![
        Space { name: "attr", n: na * POS, rule: "every attribute value of the catalogue (all scalar kinds at boundary values, every Latin-1 character in strings/symbols/bytes, types, locations, lists nested to depth 2) in every syntactic position".into(), run: Box::new(attr_case), describe: Box::new(|i| { let mut c = IrContext::new(); format!("attribute {:?} at position {}", attrs(&mut c)[i / POS].0, i % POS) }), limit: 20 },
        Space { name: "symbol", n: ns * SPOS, rule: "every name of the catalogue in every symbol position (function, module, callee, manual alias, alias hint, clashing alias hint, nested module, tribute_control function)".into(), run: Box::new(sym_case), describe: Box::new(|i| format!("name {:?} at position {}", strings()[i / SPOS], i % SPOS)), limit: 20 },
        Space { name: "type", n: nt * nt * 4, rule: "every ordered pair of catalogue types, used as parameter/result/attribute/block-argument types, under all four manual-alias assignments".into(), run: Box::new(type_case), describe: Box::new(move |i| format!("type pair {}", i)), limit: 20 },
        Space { name: "shape", n: sh.len(), rule: "all control-flow/region shapes with up to 3 blocks, block arguments, multi-result ops, nested regions and successors".into(), run: Box::new(move |i, st| { let (c, m) = shape_module(&sh[i]); roundtrip(&c, m, "shape", st) }), describe: Box::new(move |i| { let (c, m) = shape_module(&sh[i]); format!("{:?}\n{}", sh[i], print_module(&c, m)) }), limit: 20 },
        Space { name: "custom", n: CUSTOM.iter().product(), rule: "all four operations with a custom assembly format × parameters × captures × extra attributes × result type × calling convention × body shape × nesting".into(), run: Box::new(|i, st| { let (c, m) = custom_module(custom_idx(i)); roundtrip(&c, m, &format!("custom {:?}", custom_idx(i)), st) }), describe: Box::new(|i| { let (c, m) = custom_module(custom_idx(i)); format!("{:?}\n{}", custom_idx(i), print_module(&c, m)) }), limit: 20 },
        Space { name: "alias", n: ALIAS.iter().product(), rule: "hand-registered alias names that clash with automatic ones x hand aliases on complex types x 0-2 uses of four mutually nested complex types x flat/nested module order".into(), run: Box::new(alias_case), describe: Box::new(|i| format!("alias case {i}")), limit: 20 },
        Space { name: "ladder", n: LADDER.iter().product(), rule: "0-5 types asking for one alias name x 0-3 unnamed complex types x every subset of five hand-registered names in the way x types named like a suffixed or fallback alias x four module nestings up to depth 3".into(), run: Box::new(ladder_case), describe: Box::new(|i| format!("alias ladder {i}")), limit: 20 },
        Space { name: "alias-graph", n: 64 * 4 * 24, rule: "hand-registered aliases of four types: every acyclic reference pattern x reference through parameter, attribute, nested list or an unaliased wrapper x every naming order".into(), run: Box::new(dag_case), describe: Box::new(|i| format!("alias graph {i}")), limit: 20 },
        Space { name: "regions", n: 341 * 8, rule: "an operation with 0-4 regions of every kind (empty block, one op, block arguments, two blocks) x operands x attributes x results".into(), run: Box::new(regions_case), describe: Box::new(|i| format!("regions {i}")), limit: 20 },
        Space { name: "successors", n: succ_n(), rule: "every successor list of up to three entries on every operation (also non-final ones) of one- and two-block regions, as function body and nested".into(), run: Box::new(succ_case), describe: Box::new(|i| format!("successors {i}")), limit: 20 },
        Space { name: "keys", n: 22 * 22 * 2, rule: "every pair of attribute names of the catalogue on an operation and on a type".into(), run: Box::new(key_case), describe: Box::new(|i| format!("attribute keys {} {}", KEYS[i % 22], KEYS[i / 22 % 22])), limit: 20 },
        Space { name: "degenerate", n: dg.len(), rule: "empty modules, regions, blocks and bodyless declarations".into(), run: Box::new(move |i, st| { let (c, m) = (dg[i].1)(); roundtrip(&c, m, dg[i].0, st) }), describe: Box::new(move |i| dg[i].0.to_string()), limit: 20 },
    ]
}
