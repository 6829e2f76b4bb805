//! Printer-independent structural canonical form of IR (used as the equality oracle).
#![allow(dead_code)]
use std::collections::HashMap;
use std::fmt::Write;
use trunk_ir::*;

pub fn ty_str(ctx: &IrContext, t: TypeRef) -> String {
    let d = ctx.types.get(t);
    let mut s = format!("{}.{}", d.dialect, d.name);
    s.push('<');
    for p in &d.params {
        let _ = write!(s, "{};", ty_str(ctx, *p));
    }
    s.push('>');
    s.push_str(&attrs_str(ctx, &d.attrs));
    s
}
pub fn attrs_str(ctx: &IrContext, m: &AttributeMap) -> String {
    let mut v: Vec<String> = m.iter().map(|(k, a)| format!("{:?}={}", k.to_string(), attr_str(ctx, a))).collect();
    v.sort();
    format!("{{{}}}", v.join(","))
}
pub fn attr_str(ctx: &IrContext, a: &Attribute) -> String {
    match a {
        Attribute::Unit => "unit".into(),
        Attribute::Bool(b) => format!("bool:{b}"),
        Attribute::Int(i) => format!("int:{i}"),
        Attribute::FloatBits(b) => format!("f:{b:016x}"),
        Attribute::String(s) => format!("str:{s:?}"),
        Attribute::Bytes(b) => format!("bytes:{b:?}"),
        Attribute::Symbol(s) => format!("sym:{:?}", s.to_string()),
        Attribute::Type(t) => format!("ty:{}", ty_str(ctx, *t)),
        Attribute::List(l) => format!("[{}]", l.iter().map(|x| attr_str(ctx, x)).collect::<Vec<_>>().join("|")),
        Attribute::Location(l) => format!("loc:{:?}:{}:{}", ctx.paths.get(l.path), l.span.start, l.span.end),
    }
}

#[derive(Default)]
struct Num { v: HashMap<ValueRef, usize>, b: HashMap<BlockRef, usize> }

fn number(ctx: &IrContext, op: OpRef, n: &mut Num) {
    for r in ctx.op_results(op) {
        let k = n.v.len();
        n.v.insert(*r, k);
    }
    for r in &ctx.op(op).regions {
        for b in &ctx.region(*r).blocks {
            let k = n.b.len();
            n.b.insert(*b, k);
            for a in ctx.block_args(*b) {
                let k = n.v.len();
                n.v.insert(*a, k);
            }
            for o in &ctx.block(*b).ops {
                number(ctx, *o, n);
            }
        }
    }
}
fn put(ctx: &IrContext, op: OpRef, n: &Num, ind: usize, s: &mut String) {
    let d = ctx.op(op);
    let v = |x: &ValueRef| n.v.get(x).map(|k| format!("v{k}")).unwrap_or_else(|| "EXT".into());
    let res: Vec<String> = ctx.op_results(op).iter().map(|r| format!("{}:{}", v(r), ty_str(ctx, ctx.value_ty(*r)))).collect();
    let ops: Vec<String> = ctx.op_operands(op).iter().map(v).collect();
    let suc: Vec<String> = d.successors.iter().map(|b| n.b.get(b).map(|k| format!("b{k}")).unwrap_or_else(|| "EXT".into())).collect();
    let _ = writeln!(s, "{:ind$}({}) = {}.{} ({}) [{}] {}", "", res.join(","), d.dialect, d.name, ops.join(","), suc.join(","), attrs_str(ctx, &d.attributes));
    for r in &d.regions {
        let _ = writeln!(s, "{:ind$}region", "");
        for b in &ctx.region(*r).blocks {
            let a: Vec<String> = ctx.block_args(*b).iter().map(|x| format!("{}:{}", v(x), ty_str(ctx, ctx.value_ty(*x)))).collect();
            let _ = writeln!(s, "{:ind$}block b{} ({})", "", n.b[b], a.join(","));
            for o in &ctx.block(*b).ops {
                put(ctx, *o, n, ind + 1, s);
            }
        }
    }
}
pub fn canon(ctx: &IrContext, op: OpRef) -> String {
    let mut n = Num::default();
    number(ctx, op, &mut n);
    let mut s = String::new();
    put(ctx, op, &n, 0, &mut s);
    s
}
/// First differing line of two canonical forms.
pub fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("- {x}\n+ {y}");
        }
    }
    format!("line counts {} vs {}", a.lines().count(), b.lines().count())
}

pub fn loc(ctx: &mut IrContext) -> Location {
    let p = ctx.paths.intern("t".into());
    Location::new(p, Span::new(0, 0))
}
pub fn ty(ctx: &mut IrContext, d: &str, n: &str) -> TypeRef {
    ctx.types.intern(TypeDataBuilder::new(Symbol::from_dynamic(d), Symbol::from_dynamic(n)).build())
}
pub fn block(ctx: &mut IrContext, args: &[TypeRef]) -> BlockRef {
    let l = loc(ctx);
    ctx.create_block(BlockData { location: l, args: args.iter().map(|t| BlockArgData { ty: *t, attrs: Default::default() }).collect(), ops: Default::default(), parent_region: None })
}
pub fn region(ctx: &mut IrContext, blocks: &[BlockRef]) -> RegionRef {
    let l = loc(ctx);
    ctx.create_region(RegionData { location: l, blocks: blocks.iter().copied().collect(), parent_op: None })
}
#[derive(Default, Clone)]
pub struct OpB { pub d: String, pub n: String, pub operands: Vec<ValueRef>, pub results: Vec<TypeRef>, pub attrs: Vec<(String, Attribute)>, pub regions: Vec<RegionRef>, pub succ: Vec<BlockRef> }
impl OpB {
    pub fn new(d: &str, n: &str) -> Self { OpB { d: d.into(), n: n.into(), ..Default::default() } }
    pub fn opnd(mut self, v: &[ValueRef]) -> Self { self.operands.extend_from_slice(v); self }
    pub fn res(mut self, t: &[TypeRef]) -> Self { self.results.extend_from_slice(t); self }
    pub fn attr(mut self, k: &str, a: Attribute) -> Self { self.attrs.push((k.into(), a)); self }
    pub fn reg(mut self, r: RegionRef) -> Self { self.regions.push(r); self }
    pub fn suc(mut self, b: &[BlockRef]) -> Self { self.succ.extend_from_slice(b); self }
    pub fn build(self, ctx: &mut IrContext) -> OpRef {
        let l = loc(ctx);
        let mut b = OperationDataBuilder::new(l, Symbol::from_dynamic(&self.d), Symbol::from_dynamic(&self.n)).operands(self.operands).results(self.results);
        for (k, a) in self.attrs { b = b.attr(Symbol::from_dynamic(&k), a); }
        for r in self.regions { b = b.region(r); }
        for s in self.succ { b = b.successor(s); }
        let d = b.build(ctx);
        ctx.create_op(d)
    }
    pub fn push(self, ctx: &mut IrContext, b: BlockRef) -> OpRef {
        let o = self.build(ctx);
        ctx.push_op(b, o);
        o
    }
}
pub fn sym(s: &str) -> Symbol { Symbol::from_dynamic(s) }
pub fn module(ctx: &mut IrContext, name: &str, ops: &[OpRef]) -> OpRef {
    let b = block(ctx, &[]);
    for o in ops { ctx.push_op(b, *o); }
    let r = region(ctx, &[b]);
    OpB::new("core", "module").attr("sym_name", Attribute::Symbol(sym(name))).reg(r).build(ctx)
}
pub fn func_ty(ctx: &mut IrContext, ret: TypeRef, params: &[TypeRef]) -> TypeRef {
    ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("func")).param(ret).params(params.iter().copied()).build())
}
pub fn func(ctx: &mut IrContext, name: &str, ret: TypeRef, params: &[TypeRef], body: RegionRef) -> OpB {
    let t = func_ty(ctx, ret, params);
    OpB::new("func", "func").attr("sym_name", Attribute::Symbol(sym(name))).attr("type", Attribute::Type(t)).reg(body)
}
