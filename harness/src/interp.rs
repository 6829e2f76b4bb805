//! Reference interpreter: an explicit-state small-step machine over IR modules.
//! It is the specification side of the behavioural checks and uses none of the
//! passes or backends under test.
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::rc::Rc;
use trunk_ir::*;

#[derive(Clone)]
pub enum V {
    I(u64, u32),
    F32(u32),
    F64(u64),
    Nil,
    Null,
    Ref(Rc<Obj>),
    Fn(Symbol),
    Bytes(Rc<Vec<u8>>),
    Lam(Rc<Lam>),
    Closure(Symbol, Rc<V>),
    List(Option<Rc<(V, V)>>),
    Token(Rc<RefCell<Option<Vec<Frame>>>>),
}
pub struct Obj { pub ty: TypeRef, pub tag: Option<Symbol>, pub f: RefCell<Vec<V>> }
pub struct Lam { pub op: OpRef, pub env: Env }
type Env = Rc<RefCell<HashMap<ValueRef, V>>>;

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::I(v, w) => write!(f, "{v}:i{w}"),
            V::F32(b) => write!(f, "f32:{b:08x}"),
            V::F64(b) => write!(f, "f64:{b:016x}"),
            V::Nil => write!(f, "nil"),
            V::Null => write!(f, "null"),
            V::Ref(o) => write!(f, "{}{:?}", o.tag.map(|t| t.to_string()).unwrap_or_default(), o.f.borrow()),
            V::Fn(s) => write!(f, "@{s}"),
            V::Bytes(b) => write!(f, "{b:?}"),
            V::Lam(_) | V::Closure(..) => write!(f, "closure"),
            V::List(None) => write!(f, "[]"),
            V::List(Some(c)) => write!(f, "({:?} :: {:?})", c.0, c.1),
            V::Token(_) => write!(f, "token"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Stop { Trap(String), Fuel, Bad(String) }
fn bad<T>(s: impl Into<String>) -> Result<T, Stop> { Err(Stop::Bad(s.into())) }
fn trap<T>(s: impl Into<String>) -> Result<T, Stop> { Err(Stop::Trap(s.into())) }

#[derive(Clone, Debug)]
struct Pos { block: BlockRef, idx: usize, owner: Option<OpRef> }
#[derive(Clone)]
pub struct Frame { env: Env, ctl: Vec<Pos> }
impl fmt::Debug for Frame { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "frame{}", self.ctl.len()) } }

pub struct Machine<'a> {
    pub c: &'a IrContext,
    pub fns: HashMap<Symbol, OpRef>,
    pub trace: Vec<String>,
    pub fuel: u64,
    pub steps: u64,
    pub max_depth: usize,
    pub peak: usize,
    stack: Vec<Frame>,
}

pub fn mask(v: u64, w: u32) -> u64 { if w >= 64 { v } else { v & ((1u64 << w) - 1) } }
pub fn sext(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

/// Width of an integer type; None when the type is not an integer.
pub fn width(c: &IrContext, t: TypeRef) -> Option<u32> {
    let d = c.types.get(t);
    let n = d.name.to_string();
    match (d.dialect.to_string().as_str(), n.as_str()) {
        ("tribute_rt", "int") | ("tribute_rt", "nat") => Some(32),
        ("tribute_rt", "bool") | ("core", "bool") => Some(1),
        ("core", "int") | ("core", "nat") => Some(32),
        ("core", n) => n.strip_prefix('i').and_then(|x| x.parse().ok()),
        _ => None,
    }
}
fn unsigned(c: &IrContext, t: TypeRef) -> bool { let n = c.types.get(t).name.to_string(); n == "nat" || n == "bool" }
fn is_ty(c: &IrContext, t: TypeRef, d: &str, n: &str) -> bool { let x = c.types.get(t); x.dialect.to_string() == d && x.name.to_string() == n }

pub fn const_v(c: &IrContext, t: TypeRef, a: &Attribute) -> Result<V, Stop> {
    if let Some(w) = width(c, t) {
        return match a {
            Attribute::Int(v) => Ok(V::I(mask(*v as u64, w), w)),
            Attribute::Bool(b) => Ok(V::I(*b as u64, w)),
            _ => bad("const attr"),
        };
    }
    if is_ty(c, t, "core", "f32") { if let Attribute::FloatBits(b) = a { return Ok(V::F32(*b as u32)); } }
    if is_ty(c, t, "core", "f64") || is_ty(c, t, "tribute_rt", "float") { if let Attribute::FloatBits(b) = a { return Ok(V::F64(*b)); } }
    if is_ty(c, t, "core", "nil") { return Ok(V::Nil); }
    bad(format!("const of type {}", c.types.get(t).name))
}

pub fn int_bin(name: &str, a: u64, b: u64, w: u32) -> Result<u64, Stop> {
    let (sa, sb) = (sext(a, w), sext(b, w));
    let sh = (b % w as u64) as u32;
    let r = match name {
        "addi" => a.wrapping_add(b),
        "subi" => a.wrapping_sub(b),
        "muli" => a.wrapping_mul(b),
        "divsi" => {
            if sb == 0 { return trap("div0"); }
            if sb == -1 && sa == sext(1u64 << (w - 1), w) { return trap("overflow"); }
            (sa / sb) as u64
        }
        "remsi" => {
            if sb == 0 { return trap("rem0"); }
            if sb == -1 { 0 } else { (sa % sb) as u64 }
        }
        "divui" => { if b == 0 { return trap("div0"); } a / b }
        "remui" => { if b == 0 { return trap("rem0"); } a % b }
        "and" => a & b,
        "or" => a | b,
        "xor" => a ^ b,
        "shl" => a << sh,
        "shr" => (sa >> sh) as u64,
        "shru" => a >> sh,
        _ => return bad(format!("arith.{name}")),
    };
    Ok(mask(r, w))
}
pub fn cmp_int(p: &str, a: u64, b: u64, w: u32) -> Option<bool> {
    let (sa, sb) = (sext(a, w), sext(b, w));
    Some(match p { "eq" => a == b, "ne" => a != b, "slt" => sa < sb, "sle" => sa <= sb, "sgt" => sa > sb, "sge" => sa >= sb, "ult" => a < b, "ule" => a <= b, "ugt" => a > b, "uge" => a >= b, _ => return None })
}
pub fn cmp_f(p: &str, a: f64, b: f64) -> Option<bool> {
    Some(match p { "oeq" => a == b, "une" => a != b, "olt" => a < b, "ole" => a <= b, "ogt" => a > b, "oge" => a >= b, _ => return None })
}

impl<'a> Machine<'a> {
    pub fn new(c: &'a IrContext, module: OpRef) -> Self {
        let mut fns = HashMap::new();
        fn collect(c: &IrContext, op: OpRef, fns: &mut HashMap<Symbol, OpRef>) {
            for r in &c.op(op).regions { for b in &c.region(*r).blocks { for o in &c.block(*b).ops {
                let d = c.op(*o);
                let (dn, n) = (d.dialect.to_string(), d.name.to_string());
                if (dn == "func" || dn == "tribute_control") && n == "func" {
                    if let Some(s) = d.attributes.get_symbol("sym_name") { fns.insert(s, *o); }
                } else if dn == "core" && n == "module" { collect(c, *o, fns); }
            } } }
        }
        collect(c, module, &mut fns);
        Machine { c, fns, trace: vec![], fuel: 100_000, steps: 0, max_depth: 2000, peak: 0, stack: vec![] }
    }
    /// Run `f(args)` to completion; the observations end up in `trace`.
    pub fn run(&mut self, f: &str, args: Vec<V>) -> Result<V, Stop> {
        self.trace.clear();
        self.stack.clear();
        self.steps = 0;
        if let Some(v) = self.enter(sym(f), args)? { return Ok(v); }
        loop {
            if self.fuel <= self.steps { return Err(Stop::Fuel); }
            self.steps += 1;
            if self.stack.len() > self.max_depth { return Err(Stop::Fuel); }
            self.peak = self.peak.max(self.stack.len());
            if let Some(v) = self.step()? { return Ok(v); }
        }
    }
    /// Push an activation; Some(value) if the callee is external and has already finished.
    fn enter(&mut self, f: Symbol, args: Vec<V>) -> Result<Option<V>, Stop> {
        let Some(&op) = self.fns.get(&f) else { return bad(format!("no function @{f}")) };
        let d = self.c.op(op);
        if d.regions.is_empty() || d.attributes.contains_key("abi") {
            let n = f.to_string();
            if let Some(k) = n.strip_prefix("__obs_") {
                self.trace.push(format!("{k}:{:?}", args));
                return Ok(Some(V::Nil));
            }
            if n == "__in_i32" { return Ok(Some(V::I(0, 32))); }
            return self.bytes_op(&n, args).map(Some);
        }
        let b = self.c.region(d.regions[0]).blocks[0];
        self.push_body(b, args, Rc::new(RefCell::new(HashMap::new())))?;
        Ok(None)
    }
    /// Byte-string intrinsics on mathematical byte sequences.
    fn bytes_op(&mut self, n: &str, args: Vec<V>) -> Result<V, Stop> {
        let b = |i: usize| match args.get(i) { Some(V::Bytes(b)) => Ok(b.clone()), x => bad(format!("@{n}: not a byte string: {x:?}")) };
        let k = |i: usize| match args.get(i) { Some(V::I(x, _)) => Ok(*x as usize), x => bad(format!("@{n}: not an integer: {x:?}")) };
        Ok(match n {
            "__tribute_bytes_len" => V::I(b(0)?.len() as u64, 32),
            "__tribute_bytes_concat" => V::Bytes(Rc::new([&b(0)?[..], &b(1)?[..]].concat())),
            "__tribute_bytes_slice_or_panic" => match b(0)?.get(k(1)?..k(2)?) { Some(x) => V::Bytes(Rc::new(x.to_vec())), None => return trap("slice bounds") },
            "__tribute_bytes_range_equal" => {
                let (l, r) = (b(0)?, b(2)?);
                let same = match (l.get(k(1)?..k(1)? + k(4)?), r.get(k(3)?..k(3)? + k(4)?)) { (Some(x), Some(y)) => x == y, _ => false };
                V::I(same as u64, 1)
            }
            "__bytes_get_or_panic" => match b(0)?.get(k(1)?) { Some(x) => V::I(*x as u64, 32), None => return trap("index bounds") },
            _ => return bad(format!("external @{n}")),
        })
    }
    fn push_body(&mut self, b: BlockRef, args: Vec<V>, env: Env) -> Result<(), Stop> {
        let mut fr = Frame { env, ctl: vec![] };
        Self::bind_args(self.c, &mut fr, b, args)?;
        fr.ctl.push(Pos { block: b, idx: 0, owner: None });
        self.stack.push(fr);
        Ok(())
    }
    fn bind_args(c: &IrContext, fr: &mut Frame, b: BlockRef, args: Vec<V>) -> Result<(), Stop> {
        let ps = c.block_args(b);
        if ps.len() != args.len() { return bad(format!("block takes {} arguments, got {}", ps.len(), args.len())); }
        let mut e = fr.env.borrow_mut();
        for (p, a) in ps.iter().zip(args) { e.insert(*p, a); }
        Ok(())
    }
    fn top(&mut self) -> &mut Frame { self.stack.last_mut().unwrap() }
    fn get(&self, v: ValueRef) -> Result<V, Stop> {
        match self.stack.last().unwrap().env.borrow().get(&v) { Some(x) => Ok(x.clone()), None => bad("use of an undefined value") }
    }
    fn vals(&self, vs: &[ValueRef]) -> Result<Vec<V>, Stop> { vs.iter().map(|v| self.get(*v)).collect() }
    /// Bind the results of the current op of the top frame and advance past it.
    fn finish(&mut self, op: OpRef, vals: Vec<V>) -> Result<(), Stop> {
        let rs = self.c.op_results(op);
        let vals = if rs.len() == 1 && vals.is_empty() { vec![V::Nil] } else { vals };
        if vals.len() < rs.len() { return bad("result count"); }
        let fr = self.top();
        {
            let mut e = fr.env.borrow_mut();
            for (r, v) in rs.iter().zip(vals) { e.insert(*r, v); }
        }
        fr.ctl.last_mut().unwrap().idx += 1;
        Ok(())
    }
    fn ret(&mut self, vals: Vec<V>) -> Result<Option<V>, Stop> {
        self.stack.pop();
        let v = vals.into_iter().next().unwrap_or(V::Nil);
        if self.stack.is_empty() { return Ok(Some(v)); }
        let p = self.stack.last().unwrap().ctl.last().unwrap().clone();
        let op = self.c.block(p.block).ops[p.idx];
        self.finish(op, vec![v])?;
        Ok(None)
    }
    fn push_region(&mut self, r: RegionRef, owner: OpRef, args: Vec<V>) -> Result<(), Stop> {
        let c = self.c;
        let Some(&b) = c.region(r).blocks.first() else { return bad("empty region") };
        let fr = self.stack.last_mut().unwrap();
        Self::bind_args(c, fr, b, args)?;
        fr.ctl.push(Pos { block: b, idx: 0, owner: Some(owner) });
        Ok(())
    }
    fn call_value(&mut self, f: V, args: Vec<V>, op: OpRef, tail: bool) -> Result<Option<V>, Stop> {
        match f {
            V::Fn(s) => self.call(s, args, op, tail),
            V::Lam(l) => {
                let c = self.c;
                let b = c.region(c.op(l.op).regions[0]).blocks[0];
                if tail { self.stack.pop(); }
                self.push_body(b, args, Rc::new(RefCell::new(l.env.borrow().clone())))?;
                Ok(None)
            }
            V::Closure(s, env) => {
                // A source-level indirect call of a closure: the environment becomes the
                // leading argument when the target takes one more parameter.
                let mut a = args;
                a.insert(0, (*env).clone());
                self.call(s, a, op, tail)
            }
            x => bad(format!("call of {x:?}")),
        }
    }
    fn call(&mut self, f: Symbol, args: Vec<V>, op: OpRef, tail: bool) -> Result<Option<V>, Stop> {
        if tail {
            let ext = self.fns.get(&f).map(|o| self.c.op(*o).regions.is_empty() || self.c.op(*o).attributes.contains_key("abi")).unwrap_or(false);
            if ext { let v = self.enter(f, args)?.unwrap(); return self.ret(vec![v]); }
            self.stack.pop();
            self.enter(f, args)?;
            Ok(None)
        } else {
            if let Some(v) = self.enter(f, args)? { self.finish(op, vec![v])?; }
            Ok(None)
        }
    }

    fn step(&mut self) -> Result<Option<V>, Stop> {
        let c = self.c;
        let p = self.top().ctl.last().unwrap().clone();
        let Some(&op) = c.block(p.block).ops.get(p.idx) else { return bad("block without terminator") };
        let d = c.op(op);
        let dn = d.dialect.to_string();
        let n = d.name.to_string();
        let args = self.vals(c.op_operands(op))?;
        let rt = c.op_result_types(op).first().copied();
        let int = |v: &V| match v { V::I(x, w) => Ok((*x, *w)), x => bad(format!("{dn}.{n}: not an integer: {x:?}")) };
        match (dn.as_str(), n.as_str()) {
            ("arith", "const") => {
                let v = const_v(c, rt.unwrap(), d.attributes.get("value").unwrap_or(&Attribute::Unit))?;
                self.finish(op, vec![v])?;
            }
            ("arith", "addi" | "subi" | "muli" | "divsi" | "divui" | "remsi" | "remui" | "and" | "or" | "xor" | "shl" | "shr" | "shru") => {
                let ((a, w), (b, _)) = (int(&args[0])?, int(&args[1])?);
                let v = int_bin(&n, a, b, w)?;
                self.finish(op, vec![V::I(v, w)])?;
            }
            ("arith", "negi") => {
                let (a, w) = int(&args[0])?;
                self.finish(op, vec![V::I(mask(a.wrapping_neg(), w), w)])?;
            }
            ("arith", "addf" | "subf" | "mulf" | "divf") => {
                let v = match (&args[0], &args[1]) {
                    (V::F32(a), V::F32(b)) => { let (a, b) = (f32::from_bits(*a), f32::from_bits(*b)); V::F32(match n.as_str() { "addf" => a + b, "subf" => a - b, "mulf" => a * b, _ => a / b }.to_bits()) }
                    (V::F64(a), V::F64(b)) => { let (a, b) = (f64::from_bits(*a), f64::from_bits(*b)); V::F64(match n.as_str() { "addf" => a + b, "subf" => a - b, "mulf" => a * b, _ => a / b }.to_bits()) }
                    _ => return bad("float operands"),
                };
                self.finish(op, vec![v])?;
            }
            ("arith", "negf") => {
                let v = match &args[0] { V::F32(a) => V::F32(a ^ 0x8000_0000), V::F64(a) => V::F64(a ^ (1 << 63)), _ => return bad("negf") };
                self.finish(op, vec![v])?;
            }
            ("arith", "cmpi") => {
                let ((a, w), (b, _)) = (int(&args[0])?, int(&args[1])?);
                let pr = d.attributes.get_symbol("predicate").map(|s| s.to_string()).unwrap_or_default();
                let Some(r) = cmp_int(&pr, a, b, w) else { return bad("cmpi predicate") };
                let rw = width(c, rt.unwrap()).unwrap_or(1);
                self.finish(op, vec![V::I(r as u64, rw)])?;
            }
            ("arith", "cmpf") => {
                let (a, b) = match (&args[0], &args[1]) { (V::F32(a), V::F32(b)) => (f32::from_bits(*a) as f64, f32::from_bits(*b) as f64), (V::F64(a), V::F64(b)) => (f64::from_bits(*a), f64::from_bits(*b)), _ => return bad("cmpf") };
                let pr = d.attributes.get_symbol("predicate").map(|s| s.to_string()).unwrap_or_default();
                let Some(r) = cmp_f(&pr, a, b) else { return bad("cmpf predicate") };
                let rw = width(c, rt.unwrap()).unwrap_or(1);
                self.finish(op, vec![V::I(r as u64, rw)])?;
            }
            ("arith", "cast" | "trunc" | "extend" | "convert") => {
                let st = c.value_ty(c.op_operands(op)[0]);
                let v = self.conv(&n, &args[0], st, rt.unwrap())?;
                self.finish(op, vec![v])?;
            }
            ("core", "unrealized_conversion_cast") => self.finish(op, args)?,
            ("func", "func") => self.finish(op, vec![])?,
            ("func", "constant") => {
                let s = d.attributes.get_symbol("func_ref").unwrap();
                if !self.fns.contains_key(&s) { return bad(format!("constant of missing @{s}")); }
                self.finish(op, vec![V::Fn(s)])?
            }
            ("func", "call") | ("tribute_control", "call") => return self.call(d.attributes.get_symbol("callee").unwrap(), args, op, false),
            ("func", "tail_call") => return self.call(d.attributes.get_symbol("callee").unwrap(), args, op, true),
            ("func", "call_indirect" | "tail_call_indirect") | ("tribute_control", "call_indirect") => {
                let mut a = args.into_iter();
                let f = a.next().unwrap();
                return self.call_value(f, a.collect(), op, n == "tail_call_indirect");
            }
            ("func", "return") => return self.ret(args),
            ("func", "unreachable") => return trap("unreachable"),
            ("scf", "if") => {
                let (k, _) = int(&args[0])?;
                let r = d.regions[if k != 0 { 0 } else { 1 }];
                self.push_region(r, op, vec![])?;
            }
            ("scf", "loop") => self.push_region(d.regions[0], op, args)?,
            ("scf", "switch") => {
                let (k, w) = int(&args[0])?;
                let body = c.region(d.regions[0]).blocks[0];
                let mut chosen = None;
                for o in &c.block(body).ops {
                    let od = c.op(*o);
                    match od.name.to_string().as_str() {
                        "case" => {
                            let v = match od.attributes.get("value") { Some(Attribute::Int(v)) => mask(*v as u64, w), Some(Attribute::Bool(b)) => *b as u64, _ => return bad("case value") };
                            if v == k { chosen = Some(od.regions[0]); break; }
                        }
                        "default" => {}
                        _ => return bad("switch body"),
                    }
                }
                if chosen.is_none() {
                    for o in &c.block(body).ops { if c.op(*o).name.to_string() == "default" { chosen = Some(c.op(*o).regions[0]); } }
                }
                match chosen { Some(r) => self.push_region(r, op, vec![])?, None => self.finish(op, vec![])? }
            }
            ("scf", "yield") => {
                let Some(o) = p.owner else { return bad("yield outside a region") };
                let on = c.op(o).name.to_string();
                if c.op(o).dialect.to_string() != "scf" || on == "loop" { return bad("yield leaves the wrong construct"); }
                self.top().ctl.pop();
                self.finish(o, args)?;
            }
            ("scf", "continue" | "break") => {
                // leave enclosing ifs/switches up to the innermost loop
                loop {
                    let Some(q) = self.top().ctl.last().cloned() else { return bad("loop exit outside a loop") };
                    let Some(o) = q.owner else { return bad("loop exit outside a loop") };
                    let od = c.op(o);
                    if od.dialect.to_string() != "scf" { return bad("loop exit across a boundary"); }
                    self.top().ctl.pop();
                    if od.name.to_string() == "loop" {
                        if n == "break" { self.finish(o, args)?; } else { self.push_region(od.regions[0], o, args)?; }
                        break;
                    }
                }
            }
            ("cf", "br") => {
                let dest = d.successors[0];
                let fr = self.stack.last_mut().unwrap();
                Self::bind_args(c, fr, dest, args)?;
                let q = fr.ctl.last_mut().unwrap();
                q.block = dest;
                q.idx = 0;
            }
            ("cf", "cond_br") => {
                let (k, _) = int(&args[0])?;
                let dest = d.successors[if k != 0 { 0 } else { 1 }];
                let fr = self.stack.last_mut().unwrap();
                Self::bind_args(c, fr, dest, vec![])?;
                let q = fr.ctl.last_mut().unwrap();
                q.block = dest;
                q.idx = 0;
            }
            ("adt", "struct_new") => {
                let o = V::Ref(Rc::new(Obj { ty: d.attributes.get_type("type").unwrap(), tag: None, f: RefCell::new(args) }));
                self.finish(op, vec![o])?;
            }
            ("adt", "variant_new") => {
                let o = V::Ref(Rc::new(Obj { ty: d.attributes.get_type("type").unwrap(), tag: d.attributes.get_symbol("tag"), f: RefCell::new(args) }));
                self.finish(op, vec![o])?;
            }
            ("adt", "struct_get" | "variant_get") => {
                let V::Ref(o) = &args[0] else { return if matches!(args[0], V::Null) { trap("null") } else { bad(format!("get of {:?}", args[0])) } };
                if n == "variant_get" && d.attributes.get_symbol("tag") != o.tag { return bad("variant_get of another variant"); }
                let i = d.attributes.get_i128("field").unwrap() as usize;
                let v = match o.f.borrow().get(i) { Some(v) => v.clone(), None => return bad("field index") };
                self.finish(op, vec![v])?;
            }
            ("adt", "struct_set") => {
                let V::Ref(o) = &args[0] else { return trap("null") };
                let i = d.attributes.get_i128("field").unwrap() as usize;
                o.f.borrow_mut()[i] = args[1].clone();
                self.finish(op, vec![])?;
            }
            ("adt", "variant_is") => {
                let V::Ref(o) = &args[0] else { return bad("variant_is") };
                let r = d.attributes.get_symbol("tag") == o.tag;
                self.finish(op, vec![V::I(r as u64, 1)])?;
            }
            ("adt", "variant_cast") => {
                let V::Ref(o) = &args[0] else { return bad("variant_cast") };
                if d.attributes.get_symbol("tag") != o.tag { return bad("variant_cast to another variant"); }
                self.finish(op, vec![args[0].clone()])?;
            }
            ("adt", "ref_cast") => self.finish(op, args)?,
            ("adt", "ref_null") => self.finish(op, vec![V::Null])?,
            ("adt", "ref_is_null") => { let r = matches!(args[0], V::Null); self.finish(op, vec![V::I(r as u64, 1)])? }
            ("adt", "string_const") => {
                // a string literal is the leaf of the prelude's rope type
                let s = d.attributes.get_str("value").unwrap_or("").as_bytes().to_vec();
                let o = V::Ref(Rc::new(Obj { ty: rt.unwrap(), tag: Some(sym("Leaf")), f: RefCell::new(vec![V::Bytes(Rc::new(s))]) }));
                self.finish(op, vec![o])?
            }
            ("adt", "bytes_const") => {
                let b = match d.attributes.get("value") { Some(Attribute::Bytes(b)) => b.to_vec(), _ => return bad("bytes_const") };
                self.finish(op, vec![V::Bytes(Rc::new(b))])?
            }
            ("adt", "array_new") => {
                let o = V::Ref(Rc::new(Obj { ty: d.attributes.get_type("type").unwrap(), tag: None, f: RefCell::new(args) }));
                self.finish(op, vec![o])?;
            }
            ("adt", "array_get") => {
                let V::Ref(o) = &args[0] else { return trap("null") };
                let (i, _) = int(&args[1])?;
                let v = match o.f.borrow().get(i as usize) { Some(v) => v.clone(), None => return trap("bounds") };
                self.finish(op, vec![v])?;
            }
            ("adt", "array_set") => {
                let V::Ref(o) = &args[0] else { return trap("null") };
                let (i, _) = int(&args[1])?;
                match o.f.borrow_mut().get_mut(i as usize) { Some(s) => *s = args[2].clone(), None => return trap("bounds") };
                self.finish(op, vec![])?;
            }
            ("adt", "array_len") => {
                let V::Ref(o) = &args[0] else { return trap("null") };
                let l = o.f.borrow().len() as u64;
                self.finish(op, vec![V::I(l, width(c, rt.unwrap()).unwrap_or(32))])?;
            }
            ("list", "empty") => self.finish(op, vec![V::List(None)])?,
            ("list", "prepend") => self.finish(op, vec![V::List(Some(Rc::new((args[0].clone(), args[1].clone()))))])?,
            ("list", "is_empty") => { let V::List(l) = &args[0] else { return bad("list") }; let r = l.is_none(); self.finish(op, vec![V::I(r as u64, 1)])? }
            ("list", "head" | "tail") => {
                let V::List(l) = &args[0] else { return bad("list") };
                let Some(k) = l else { return trap("empty list") };
                let v = if n == "head" { k.0.clone() } else { k.1.clone() };
                self.finish(op, vec![v])?
            }
            ("closure", "lambda") | ("tribute_control", "lambda") => {
                let env = Rc::new(RefCell::new(self.top().env.borrow().clone()));
                self.finish(op, vec![V::Lam(Rc::new(Lam { op, env }))])?
            }
            ("closure", "new") => { let s = d.attributes.get_symbol("func_ref").unwrap(); self.finish(op, vec![V::Closure(s, Rc::new(args[0].clone()))])? }
            ("closure", "func") => { let V::Closure(s, _) = &args[0] else { return bad("closure.func") }; let s = *s; self.finish(op, vec![V::Fn(s)])? }
            ("closure", "env") => { let V::Closure(_, e) = &args[0] else { return bad("closure.env") }; let e = (**e).clone(); self.finish(op, vec![e])? }
            ("tribute_rt", "box_int" | "unbox_int" | "box_nat" | "unbox_nat" | "box_float" | "unbox_float" | "box_bool" | "unbox_bool") => self.finish(op, args)?,
            ("tribute_rt", "retain") => self.finish(op, args)?,
            ("tribute_rt", "release") => self.finish(op, vec![])?,
            ("tribute_control", "func_ref") => { let s = d.attributes.get_symbol("func_ref").unwrap(); self.finish(op, vec![V::Fn(s)])? }
            ("tribute_control", "return") => return self.ret(args),
            ("tribute_control", _) => return self.control(op, &n, args, p),
            _ => return bad(format!("unsupported {dn}.{n}")),
        }
        Ok(None)
    }

    fn conv(&self, n: &str, v: &V, st: TypeRef, dt: TypeRef) -> Result<V, Stop> {
        let c = self.c;
        if let Some(w) = width(c, dt) {
            return match v {
                V::I(a, sw) => Ok(V::I(mask(if w > *sw && n == "extend" && unsigned(c, st) { *a } else { sext(*a, *sw) as u64 }, w), w)),
                V::F32(_) | V::F64(_) => {
                    let f = match v { V::F32(b) => f32::from_bits(*b) as f64, V::F64(b) => f64::from_bits(*b), _ => unreachable!() };
                    let uns = unsigned(c, dt) && n == "convert";
                    let t = f.trunc();
                    let (lo, hi) = if uns { (0.0, 2f64.powi(w as i32)) } else { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) };
                    if t.is_nan() || t < lo || t >= hi { return trap("float out of range"); }
                    let x = if uns { t as u64 } else { t as i64 as u64 };
                    Ok(V::I(mask(x, w), w))
                }
                _ => bad("conversion"),
            };
        }
        let f32d = is_ty(c, dt, "core", "f32");
        Ok(match v {
            V::I(a, w) => {
                let uns = unsigned(c, st);
                match (f32d, uns) {
                    (true, true) => V::F32((*a as f32).to_bits()),
                    (true, false) => V::F32((sext(*a, *w) as f32).to_bits()),
                    (false, true) => V::F64((*a as f64).to_bits()),
                    (false, false) => V::F64((sext(*a, *w) as f64).to_bits()),
                }
            }
            V::F32(b) => if f32d { V::F32(*b) } else { V::F64((f32::from_bits(*b) as f64).to_bits()) },
            V::F64(b) => if f32d { V::F32((f64::from_bits(*b) as f32).to_bits()) } else { V::F64(*b) },
            _ => return bad("conversion"),
        })
    }

    fn control(&mut self, _op: OpRef, n: &str, _args: Vec<V>, _p: Pos) -> Result<Option<V>, Stop> { bad(format!("unsupported tribute_control.{n}")) }
}

fn sym(s: &str) -> Symbol { Symbol::from_dynamic(s) }

/// Canonical outcome of a run: observations followed by the result or the way it stopped.
pub fn outcome(c: &IrContext, m: OpRef, f: &str, args: Vec<V>) -> Result<(Vec<String>, String), String> {
    outcome_fuel(c, m, f, args, 20_000)
}
pub fn outcome_fuel(c: &IrContext, m: OpRef, f: &str, args: Vec<V>, fuel: u64) -> Result<(Vec<String>, String), String> {
    let mut k = Machine::new(c, m);
    k.fuel = fuel;
    let r = k.run(f, args);
    let end = match r {
        Ok(v) => format!("return {}", show(&v)),
        Err(Stop::Trap(_)) => "trap".into(),
        // where a diverging run is cut off depends on step counts: keep a common prefix only
        Err(Stop::Fuel) => { k.trace.truncate(50); "diverge".into() }
        Err(Stop::Bad(s)) => return Err(s),
    };
    Ok((k.trace, end))
}
/// Floats compare bitwise except that all NaNs are alike.
pub fn show(v: &V) -> String {
    match v {
        V::F32(b) if f32::from_bits(*b).is_nan() => "f32:nan".into(),
        V::F64(b) if f64::from_bits(*b).is_nan() => "f64:nan".into(),
        v => format!("{v:?}"),
    }
}
