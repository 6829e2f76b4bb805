//! C02: IR structure and use-def chains stay exact under every sequence of mutations.
//! Explicit-state exploration: every history of public mutation calls up to a depth, from several
//! seed modules, run in lock-step on the real `IrContext` and on an independent shadow model.
use crate::engine::*;
use crate::ir::*;
use std::collections::HashSet;
use trunk_ir::rewrite::helpers::{inline_region_blocks, split_block};
use trunk_ir::*;

#[derive(Clone, Debug, Default)]
struct SOp { operands: Vec<usize>, results: Vec<usize>, regions: Vec<usize>, succ: Vec<usize>, parent: Option<usize>, dead: bool, tag: u32, loc: usize }
#[derive(Clone, Debug, Default)]
struct SBlk { args: Vec<usize>, ops: Vec<usize>, parent: Option<usize>, dead: bool, loc: usize }
#[derive(Clone, Debug, Default)]
struct SReg { blocks: Vec<usize>, parent: Option<usize>, dead: bool, loc: usize }
#[derive(Clone, Debug, PartialEq)]
enum Def { Res(usize, usize), Arg(usize, usize) }
#[derive(Clone, Debug)]
struct SVal { def: Def, ty: u8, at: usize }
#[derive(Clone, Debug, Default)]
struct S { ops: Vec<SOp>, blks: Vec<SBlk>, regs: Vec<SReg>, vals: Vec<SVal>, next_tag: u32 }

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Create { operands: Vec<usize>, results: usize, region: bool },
    Push(usize, usize),
    InsBefore(usize, usize, usize),
    Detach(usize),
    RemoveFromBlock(usize, usize),
    Remove(usize),
    SetOperand(usize, usize, usize),
    PushOperand(usize, usize),
    RemOperand(usize, usize),
    Rauw(usize, usize),
    SetResTy(usize, usize, u8),
    AddArg(usize, u8),
    PreArg(usize, u8),
    SetArgTy(usize, usize, u8),
    DetachRegion(usize),
    Clone(usize, Option<(usize, usize)>),
    CloneInto(usize, usize),
    CloneRegion(usize),
    Split(usize, usize),
    InlineBlocks(usize, usize, Option<usize>),
}

impl S {
    fn new_vals(&mut self, n: usize, f: impl Fn(usize) -> Def, ty: u8) -> Vec<usize> {
        (0..n).map(|i| { let at = self.vals.len(); self.vals.push(SVal { def: f(i), ty, at }); at }).collect()
    }
    fn mk_op(&mut self, operands: Vec<usize>, nres: usize, regions: Vec<usize>, succ: Vec<usize>) -> usize {
        let o = self.ops.len();
        self.ops.push(SOp::default());
        let results = self.new_vals(nres, |i| Def::Res(o, i), 0);
        let tag = self.next_tag;
        self.next_tag += 1;
        for r in &regions { self.regs[*r].parent = Some(o); }
        self.ops[o] = SOp { operands, results, regions, succ, parent: None, dead: false, tag, loc: o };
        o
    }
    fn mk_blk(&mut self, nargs: usize) -> usize {
        let b = self.blks.len();
        self.blks.push(SBlk::default());
        self.blks[b].args = self.new_vals(nargs, |i| Def::Arg(b, i), 0);
        self.blks[b].loc = b;
        b
    }
    fn mk_reg(&mut self, blocks: Vec<usize>) -> usize {
        let r = self.regs.len();
        for b in &blocks { self.blks[*b].parent = Some(r); }
        self.regs.push(SReg { blocks, parent: None, dead: false, loc: r });
        r
    }
    fn subtree(&self, o: usize, ops: &mut Vec<usize>, blks: &mut Vec<usize>, regs: &mut Vec<usize>) {
        ops.push(o);
        for r in &self.ops[o].regions {
            regs.push(*r);
            for b in &self.regs[*r].blocks {
                blks.push(*b);
                for c in &self.blks[*b].ops { self.subtree(*c, ops, blks, regs); }
            }
        }
    }
    fn uses(&self, v: usize) -> Vec<(usize, usize)> {
        let mut u = vec![];
        for (o, op) in self.ops.iter().enumerate() {
            if op.dead { continue; }
            for (i, x) in op.operands.iter().enumerate() { if *x == v { u.push((o, i)); } }
        }
        u
    }
    fn val_dead(&self, v: usize) -> bool { match self.vals[v].def { Def::Res(o, _) => self.ops[o].dead, Def::Arg(b, _) => self.blks[b].dead } }
    /// Structural copy; every reference to something inside the copied tree is redirected, all others kept.
    fn clone_tree(&mut self, o: Option<usize>, rg: Option<usize>, pre: Option<(usize, usize)>) -> (Option<usize>, Option<usize>) {
        let (mut ops, mut blks, mut regs) = (vec![], vec![], vec![]);
        if let Some(o) = o { self.subtree(o, &mut ops, &mut blks, &mut regs); }
        if let Some(r) = rg {
            regs.push(r);
            for b in self.regs[r].blocks.clone() { blks.push(b); for c in self.blks[b].ops.clone() { self.subtree(c, &mut ops, &mut blks, &mut regs); } }
        }
        let (o0, b0, r0) = (self.ops.len(), self.blks.len(), self.regs.len());
        let mut vm: std::collections::HashMap<usize, usize> = pre.into_iter().collect();
        for (k, x) in ops.iter().enumerate() {
            let src = self.ops[*x].clone();
            let tys: Vec<u8> = src.results.iter().map(|v| self.vals[*v].ty).collect();
            let mut res = vec![];
            for (i, v) in src.results.iter().enumerate() { self.vals.push(SVal { def: Def::Res(o0 + k, i), ty: tys[i], at: 0 }); vm.insert(*v, self.vals.len() - 1); res.push(self.vals.len() - 1); }
            self.ops.push(SOp { operands: src.operands, results: res, regions: src.regions, succ: src.succ, parent: src.parent, dead: false, tag: src.tag, loc: src.loc });
        }
        for (k, x) in blks.iter().enumerate() {
            let src = self.blks[*x].clone();
            let mut args = vec![];
            for (i, v) in src.args.iter().enumerate() { let (t, at) = (self.vals[*v].ty, self.vals[*v].at); self.vals.push(SVal { def: Def::Arg(b0 + k, i), ty: t, at }); vm.insert(*v, self.vals.len() - 1); args.push(self.vals.len() - 1); }
            self.blks.push(SBlk { args, ops: src.ops, parent: src.parent, dead: false, loc: src.loc });
        }
        for x in &regs { let src = self.regs[*x].clone(); self.regs.push(SReg { blocks: src.blocks, parent: src.parent, dead: false, loc: src.loc }); }
        let mo = |x: usize| ops.iter().position(|y| *y == x).map(|k| o0 + k);
        let mb = |x: usize| blks.iter().position(|y| *y == x).map(|k| b0 + k);
        let mr = |x: usize| regs.iter().position(|y| *y == x).map(|k| r0 + k);
        for k in o0..self.ops.len() {
            let op = &mut self.ops[k];
            for v in op.operands.iter_mut() { if let Some(n) = vm.get(v) { *v = *n; } }
            for s in op.succ.iter_mut() { if let Some(n) = mb(*s) { *s = n; } }
            for r in op.regions.iter_mut() { *r = mr(*r).unwrap(); }
            op.parent = op.parent.and_then(mb);
        }
        for k in b0..self.blks.len() { let b = &mut self.blks[k]; for o in b.ops.iter_mut() { *o = mo(*o).unwrap(); } b.parent = b.parent.and_then(mr); }
        for k in r0..self.regs.len() { let r = &mut self.regs[k]; for b in r.blocks.iter_mut() { *b = mb(*b).unwrap(); } r.parent = r.parent.and_then(mo); }
        (o.and_then(mo), rg.and_then(mr))
    }
    /// Returns false if the call must be refused.
    fn apply(&mut self, a: &A) -> bool {
        match a {
            A::Create { operands, results, region } => {
                let regions = if *region { let b = self.mk_blk(1); vec![self.mk_reg(vec![b])] } else { vec![] };
                self.mk_op(operands.clone(), *results, regions, vec![]);
            }
            A::Push(b, o) => { if self.ops[*o].parent.is_some() { return false; } self.ops[*o].parent = Some(*b); self.blks[*b].ops.push(*o); }
            A::InsBefore(b, x, o) => {
                if self.ops[*o].parent.is_some() { return false; }
                let Some(p) = self.blks[*b].ops.iter().position(|y| y == x) else { return false };
                self.blks[*b].ops.insert(p, *o);
                self.ops[*o].parent = Some(*b);
            }
            A::Detach(o) => if let Some(b) = self.ops[*o].parent.take() { self.blks[b].ops.retain(|x| x != o); },
            A::RemoveFromBlock(b, o) => { self.blks[*b].ops.retain(|x| x != o); if self.ops[*o].parent == Some(*b) { self.ops[*o].parent = None; } }
            A::Remove(o) => {
                if self.ops[*o].parent.is_some() || self.ops[*o].results.iter().any(|v| !self.uses(*v).is_empty()) { return false; }
                let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
                self.subtree(*o, &mut a, &mut b, &mut c);
                for x in a { self.ops[x].dead = true; }
                for x in b { self.blks[x].dead = true; }
                for x in c { self.regs[x].dead = true; }
            }
            A::SetOperand(o, i, v) => self.ops[*o].operands[*i] = *v,
            A::PushOperand(o, v) => self.ops[*o].operands.push(*v),
            A::RemOperand(o, i) => { if *i >= self.ops[*o].operands.len() { return false; } self.ops[*o].operands.remove(*i); }
            A::Rauw(x, y) => for op in self.ops.iter_mut().filter(|o| !o.dead) { for v in op.operands.iter_mut() { if v == x { *v = *y; } } },
            A::SetResTy(o, i, t) => { let v = self.ops[*o].results[*i]; self.vals[v].ty = *t; }
            A::AddArg(b, t) => { let n = self.blks[*b].args.len(); let at = self.vals.len(); self.vals.push(SVal { def: Def::Arg(*b, n), ty: *t, at }); let v = self.vals.len() - 1; self.blks[*b].args.push(v); }
            A::PreArg(b, t) => {
                let at = self.vals.len();
                self.vals.push(SVal { def: Def::Arg(*b, 0), ty: *t, at });
                let v = self.vals.len() - 1;
                self.blks[*b].args.insert(0, v);
                for (i, x) in self.blks[*b].args.clone().into_iter().enumerate() { self.vals[x].def = Def::Arg(*b, i); }
            }
            A::SetArgTy(b, i, t) => { let v = self.blks[*b].args[*i]; self.vals[v].ty = *t; }
            A::DetachRegion(r) => if let Some(o) = self.regs[*r].parent.take() { self.ops[o].regions.retain(|x| x != r); },
            A::Clone(o, pre) => { self.clone_tree(Some(*o), None, *pre); }
            A::CloneInto(b, o) => { let (n, _) = self.clone_tree(Some(*o), None, None); let n = n.unwrap(); self.blks[*b].ops.push(n); self.ops[n].parent = Some(*b); }
            A::CloneRegion(r) => { self.clone_tree(None, Some(*r), None); }
            A::Split(b, o) => {
                let p = self.blks[*b].ops.iter().position(|x| x == o).unwrap();
                let tail = self.blks[*b].ops.split_off(p);
                let n = self.mk_blk(0);
                self.blks[n].loc = self.blks[*b].loc;
                for x in &tail { self.ops[*x].parent = Some(n); }
                self.blks[n].ops = tail;
                let r = self.blks[*b].parent.unwrap();
                self.blks[n].parent = Some(r);
                let q = self.regs[r].blocks.iter().position(|x| x == b).unwrap();
                self.regs[r].blocks.insert(q + 1, n);
            }
            A::InlineBlocks(s, d, before) => {
                let moved = std::mem::take(&mut self.regs[*s].blocks);
                for b in &moved { self.blks[*b].parent = Some(*d); }
                let p = before.map(|x| self.regs[*d].blocks.iter().position(|y| *y == x).unwrap()).unwrap_or(self.regs[*d].blocks.len());
                for (i, b) in moved.into_iter().enumerate() { self.regs[*d].blocks.insert(p + i, b); }
            }
        }
        true
    }
    fn inside(&self, o: usize, mut b: Option<usize>) -> bool {
        while let Some(x) = b {
            let Some(r) = self.blks[x].parent else { return false };
            let Some(p) = self.regs[r].parent else { return false };
            if p == o { return true; }
            b = self.ops[p].parent;
        }
        false
    }
    /// A branch may only be attached to a block of the region its targets are in.
    fn succ_ok(&self, o: usize, b: usize) -> bool { self.ops[o].succ.iter().all(|x| self.blks[*x].parent == self.blks[b].parent) }
    fn defined_in(&self, o: usize, v: usize) -> bool {
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        self.subtree(o, &mut a, &mut b, &mut c);
        match self.vals[v].def { Def::Res(x, _) => a.contains(&x), Def::Arg(x, _) => b.contains(&x) }
    }
    /// Every call enabled (or refusable) in this state, within the bounds.
    fn actions(&self, tier: Tier) -> Vec<A> {
        let mut v = vec![];
        let ops: Vec<usize> = (0..self.ops.len()).filter(|o| !self.ops[*o].dead).collect();
        let blks: Vec<usize> = (0..self.blks.len()).filter(|b| !self.blks[*b].dead).collect();
        let regs: Vec<usize> = (0..self.regs.len()).filter(|r| !self.regs[*r].dead).collect();
        let live: Vec<usize> = (0..self.vals.len()).filter(|x| !self.val_dead(*x)).collect();
        // value pool: the first two and the newest
        let mut pool: Vec<usize> = live.iter().copied().take(2).collect();
        if let Some(l) = live.last() { if !pool.contains(l) { pool.push(*l); } }
        if false && tier == Tier::Thorough && live.len() > 3 && !pool.contains(&live[2]) { pool.push(live[2]); }
        if ops.len() < 9 && pool.len() > 1 {
            v.push(A::Create { operands: vec![], results: 1, region: false });
            v.push(A::Create { operands: vec![pool[0], pool[0], *pool.last().unwrap()], results: 1, region: false });
            v.push(A::Create { operands: vec![pool[1]], results: 2, region: true });
        }
        for o in &ops {
            for b in &blks {
                if self.inside(*o, Some(*b)) || !self.succ_ok(*o, *b) { continue; }
                if self.ops[*o].parent.is_none() || Some(*b) == blks.first().copied() { v.push(A::Push(*b, *o)); }
                if let Some(x) = self.blks[*b].ops.first() { if self.ops[*o].parent.is_none() { v.push(A::InsBefore(*b, *x, *o)); if let Some(l) = self.blks[*b].ops.last() { if l != x { v.push(A::InsBefore(*b, *l, *o)); } } } }
            }
            if self.ops[*o].parent.is_some() { v.push(A::Detach(*o)); }
            if let Some(b) = blks.last() { v.push(A::RemoveFromBlock(*b, *o)); }
            v.push(A::Remove(*o));
            for i in 0..self.ops[*o].operands.len() {
                for x in &pool { v.push(A::SetOperand(*o, i, *x)); }
                v.push(A::RemOperand(*o, i));
            }
            if self.ops[*o].operands.len() < 4 { for x in &pool { v.push(A::PushOperand(*o, *x)); } }
            if !self.ops[*o].results.is_empty() { v.push(A::SetResTy(*o, self.ops[*o].results.len() - 1, 1)); }
            if ops.len() < 9 {
                v.push(A::Clone(*o, None));
                // a caller mapping is only meaningful for a value defined outside the cloned tree
                if pool.len() > 1 && !self.defined_in(*o, pool[0]) { v.push(A::Clone(*o, Some((pool[0], pool[1])))); }
                if let Some(b) = blks.first() { if self.succ_ok(*o, *b) { v.push(A::CloneInto(*b, *o)); } }
            }
        }
        for x in &live { for y in &pool { v.push(A::Rauw(*x, *y)); } }
        for b in &blks {
            if self.blks[*b].args.len() < 4 { v.push(A::AddArg(*b, 1)); v.push(A::PreArg(*b, 1)); }
            if !self.blks[*b].args.is_empty() { v.push(A::SetArgTy(*b, self.blks[*b].args.len() - 1, 1)); }
            if self.blks[*b].parent.is_some() && blks.len() < 6 { for o in &self.blks[*b].ops { v.push(A::Split(*b, *o)); } }
        }
        for r in &regs {
            if self.regs[*r].parent.is_some() { v.push(A::DetachRegion(*r)); }
            if ops.len() < 9 { v.push(A::CloneRegion(*r)); }
            for d in &regs {
                if r == d { continue; }
                // a region may not be moved into itself
                if let Some(o) = self.regs[*r].parent { if self.regs[*d].parent == Some(o) || self.regs[*d].parent.is_some_and(|p| self.inside(o, self.ops[p].parent)) { continue; } } else { continue; }
                v.push(A::InlineBlocks(*r, *d, None));
                if let Some(b) = self.regs[*d].blocks.first() { v.push(A::InlineBlocks(*r, *d, Some(*b))); }
                if let Some(b) = self.regs[*d].blocks.get(1) { v.push(A::InlineBlocks(*r, *d, Some(*b))); }
            }
        }
        v
    }
}

struct R { c: IrContext, ops: Vec<OpRef>, blks: Vec<BlockRef>, regs: Vec<RegionRef>, vals: Vec<ValueRef>, tys: [TypeRef; 2], l0: Location }
impl R {
    fn real_op(&mut self, operands: &[usize], nres: usize, regions: &[RegionRef], succ: &[BlockRef], tag: u32) -> OpRef {
        let t = self.tys[0];
        let opnd: Vec<ValueRef> = operands.iter().map(|v| self.vals[*v]).collect();
        let mut b = OpB::new("test", "op").opnd(&opnd).res(&vec![t; nres]).attr("tag", Attribute::Int(tag as i128)).suc(succ);
        for r in regions { b = b.reg(*r); }
        b.build(&mut self.c)
    }
    fn loc(&self, n: usize) -> Location { let mut l = self.l0; l.span = Span::new(n, n + 1); l }
    /// A freshly created block / region / operation gets its own source location (and argument attributes).
    fn new_blk(&mut self, n: usize) -> BlockRef {
        let (t, l, base) = (self.tys[0], self.loc(self.blks.len()), self.vals.len());
        let b = block(&mut self.c, &vec![t; n]);
        let d = self.c.block_mut(b);
        d.location = l;
        for (i, a) in d.args.iter_mut().enumerate() { a.attrs.insert(sym("n"), Attribute::Int((base + i) as i128)); }
        self.reg_blk(b);
        b
    }
    fn new_reg(&mut self, bl: &[BlockRef]) -> RegionRef {
        let l = self.loc(self.regs.len());
        let g = crate::ir::region(&mut self.c, bl);
        self.c.region_mut(g).location = l;
        self.regs.push(g);
        g
    }
    fn new_op(&mut self, o: OpRef) { let l = self.loc(self.ops.len()); self.c.op_mut(o).location = l; self.reg_op(o); }
    fn arg_data(&self, t: u8) -> BlockArgData { let mut attrs = AttributeMap::default(); attrs.insert(sym("n"), Attribute::Int(self.vals.len() as i128)); BlockArgData { ty: self.tys[t as usize], attrs } }
    fn reg_op(&mut self, o: OpRef) { self.ops.push(o); let r = self.c.op_results(o).to_vec(); self.vals.extend(r); }
    fn reg_blk(&mut self, b: BlockRef) { self.blks.push(b); let r = self.c.block_args(b).to_vec(); self.vals.extend(r); }
    /// Bind handles of a freshly cloned tree in the same order the shadow numbered them.
    fn adopt(&mut self, o: Option<OpRef>, r: Option<RegionRef>) {
        let (mut ops, mut blks, mut regs) = (vec![], vec![], vec![]);
        fn walk(c: &IrContext, o: OpRef, ops: &mut Vec<OpRef>, blks: &mut Vec<BlockRef>, regs: &mut Vec<RegionRef>) {
            ops.push(o);
            for r in &c.op(o).regions { regs.push(*r); for b in &c.region(*r).blocks { blks.push(*b); for x in &c.block(*b).ops { walk(c, *x, ops, blks, regs); } } }
        }
        if let Some(o) = o { walk(&self.c, o, &mut ops, &mut blks, &mut regs); }
        if let Some(r) = r { regs.push(r); for b in self.c.region(r).blocks.to_vec() { blks.push(b); for x in self.c.block(b).ops.to_vec() { walk(&self.c, x, &mut ops, &mut blks, &mut regs); } } }
        for o in ops { self.reg_op(o); }
        for b in blks { self.reg_blk(b); }
        self.regs.extend(regs);
    }
    fn apply(&mut self, s: &S, a: &A) {
        match a {
            A::Create { operands, results, region } => {
                let mut rs = vec![];
                if *region { let b = self.new_blk(1); rs.push(self.new_reg(&[b])); }
                let o = self.real_op(operands, *results, &rs, &[], s.next_tag);
                self.new_op(o);
            }
            A::Push(b, o) => self.c.push_op(self.blks[*b], self.ops[*o]),
            A::InsBefore(b, x, o) => self.c.insert_op_before(self.blks[*b], self.ops[*x], self.ops[*o]),
            A::Detach(o) => self.c.detach_op(self.ops[*o]),
            A::RemoveFromBlock(b, o) => self.c.remove_op_from_block(self.blks[*b], self.ops[*o]),
            A::Remove(o) => self.c.remove_op(self.ops[*o]),
            A::SetOperand(o, i, v) => self.c.set_op_operand(self.ops[*o], *i as u32, self.vals[*v]),
            A::PushOperand(o, v) => self.c.push_op_operand(self.ops[*o], self.vals[*v]),
            A::RemOperand(o, i) => self.c.remove_op_operand(self.ops[*o], *i as u32),
            A::Rauw(x, y) => self.c.replace_all_uses(self.vals[*x], self.vals[*y]),
            A::SetResTy(o, i, t) => self.c.set_op_result_type(self.ops[*o], *i as u32, self.tys[*t as usize]),
            A::AddArg(b, t) => { let v = self.c.add_block_arg(self.blks[*b], self.arg_data(*t)); self.vals.push(v); }
            A::PreArg(b, t) => { let v = self.c.prepend_block_arg(self.blks[*b], self.arg_data(*t)); self.vals.push(v); }
            A::SetArgTy(b, i, t) => self.c.set_block_arg_type(self.blks[*b], *i as u32, self.tys[*t as usize]),
            A::DetachRegion(r) => self.c.detach_region(self.regs[*r]),
            A::Clone(o, pre) => { let mut m = IrMapping::from_values(pre.iter().map(|(x, y)| (self.vals[*x], self.vals[*y]))); let n = self.c.clone_op(self.ops[*o], &mut m); self.adopt(Some(n), None); }
            A::CloneInto(b, o) => { let mut m = IrMapping::new(); let n = self.c.clone_op_into_block(self.blks[*b], self.ops[*o], &mut m); self.adopt(Some(n), None); }
            A::CloneRegion(r) => { let mut m = IrMapping::new(); let n = self.c.clone_region(self.regs[*r], &mut m); self.adopt(None, Some(n)); }
            A::Split(b, o) => { let n = split_block(&mut self.c, self.blks[*b], self.ops[*o]); self.reg_blk(n); }
            A::InlineBlocks(s_, d, before) => { inline_region_blocks(&mut self.c, self.regs[*s_], self.regs[*d], before.map(|b| self.blks[b])); }
        }
    }
    fn check(&self, s: &S) -> Result<u64, String> {
        if self.ops.len() != s.ops.len() || self.blks.len() != s.blks.len() || self.regs.len() != s.regs.len() || self.vals.len() != s.vals.len() {
            return Err(format!("entity counts differ: real {}/{}/{}/{} model {}/{}/{}/{}", self.ops.len(), self.blks.len(), self.regs.len(), self.vals.len(), s.ops.len(), s.blks.len(), s.regs.len(), s.vals.len()));
        }
        let mut h: Vec<u8> = vec![];
        let c = &self.c;
        for (i, o) in s.ops.iter().enumerate() {
            if o.dead { h.push(255); continue; }
            let r = self.ops[i];
            let ex: Vec<ValueRef> = o.operands.iter().map(|v| self.vals[*v]).collect();
            if c.op_operands(r) != ex { return Err(format!("operands of op#{i}: {:?} expected {ex:?}", c.op_operands(r))); }
            let ex: Vec<ValueRef> = o.results.iter().map(|v| self.vals[*v]).collect();
            if c.op_results(r) != ex { return Err(format!("results of op#{i}: {:?} expected {ex:?}", c.op_results(r))); }
            let ex: Vec<TypeRef> = o.results.iter().map(|v| self.tys[s.vals[*v].ty as usize]).collect();
            if c.op_result_types(r) != ex { return Err(format!("result types of op#{i}")); }
            if c.op(r).parent_block != o.parent.map(|b| self.blks[b]) { return Err(format!("parent block of op#{i}: {:?} expected {:?}", c.op(r).parent_block, o.parent.map(|b| self.blks[b]))); }
            let ex: Vec<RegionRef> = o.regions.iter().map(|x| self.regs[*x]).collect();
            if c.op(r).regions.as_slice() != ex { return Err(format!("regions of op#{i}")); }
            let ex: Vec<BlockRef> = o.succ.iter().map(|x| self.blks[*x]).collect();
            if c.op(r).successors.as_slice() != ex { return Err(format!("successors of op#{i}: {:?} expected {ex:?}", c.op(r).successors)); }
            if c.op(r).attributes.get("tag") != Some(&Attribute::Int(o.tag as i128)) { return Err(format!("attributes of op#{i}")); }
            if c.op(r).location != self.loc(o.loc) { return Err(format!("location of op#{i}")); }
            h.push(o.parent.map(|b| b as u8).unwrap_or(254));
            h.extend(o.operands.iter().map(|v| *v as u8)); h.push(253);
            h.extend(o.regions.iter().map(|v| *v as u8)); h.push(252);
        }
        for (i, b) in s.blks.iter().enumerate() {
            if b.dead { h.push(251); continue; }
            let r = self.blks[i];
            let ex: Vec<OpRef> = b.ops.iter().map(|x| self.ops[*x]).collect();
            if c.block(r).ops.as_slice() != ex { return Err(format!("ops of block#{i}: {:?} expected {ex:?}", c.block(r).ops)); }
            let ex: Vec<ValueRef> = b.args.iter().map(|x| self.vals[*x]).collect();
            if c.block_args(r) != ex { return Err(format!("args of block#{i}")); }
            if c.block(r).args.len() != ex.len() { return Err(format!("arg data of block#{i}")); }
            for (k, x) in b.args.iter().enumerate() {
                if c.block(r).args[k].attrs.get("n") != Some(&Attribute::Int(s.vals[*x].at as i128)) { return Err(format!("attributes of argument {k} of block#{i}")); }
            }
            if c.block(r).location != self.loc(b.loc) { return Err(format!("location of block#{i}")); }
            if c.block(r).parent_region != b.parent.map(|x| self.regs[x]) { return Err(format!("parent region of block#{i}")); }
            h.extend(b.ops.iter().map(|v| *v as u8)); h.push(250);
            h.extend(b.args.iter().map(|v| *v as u8)); h.push(b.parent.map(|x| x as u8).unwrap_or(249));
        }
        for (i, g) in s.regs.iter().enumerate() {
            if g.dead { h.push(248); continue; }
            let ex: Vec<BlockRef> = g.blocks.iter().map(|x| self.blks[*x]).collect();
            if c.region(self.regs[i]).blocks.as_slice() != ex { return Err(format!("blocks of region#{i}")); }
            if c.region(self.regs[i]).parent_op != g.parent.map(|x| self.ops[x]) { return Err(format!("parent op of region#{i}")); }
            if c.region(self.regs[i]).location != self.loc(g.loc) { return Err(format!("location of region#{i}")); }
            h.extend(g.blocks.iter().map(|v| *v as u8)); h.push(g.parent.map(|x| x as u8).unwrap_or(247));
        }
        for (i, v) in s.vals.iter().enumerate() {
            if s.val_dead(i) && s.uses(i).is_empty() { h.push(246); continue; }
            let r = self.vals[i];
            let ex = match v.def { Def::Res(o, k) => ValueDef::OpResult(self.ops[o], k as u32), Def::Arg(b, k) => ValueDef::BlockArg(self.blks[b], k as u32) };
            if c.value_def(r) != ex { return Err(format!("definition of value#{i}: {:?} expected {ex:?}", c.value_def(r))); }
            if c.value_ty(r) != self.tys[v.ty as usize] { return Err(format!("type of value#{i}")); }
            let mut got: Vec<(OpRef, u32)> = c.uses(r).iter().map(|u| (u.user, u.operand_index)).collect();
            for u in &got { h.push(self.ops.iter().position(|x| *x == u.0).map(|x| x as u8).unwrap_or(245)); h.push(u.1 as u8); }
            h.push(v.ty);
            let mut ex: Vec<(OpRef, u32)> = s.uses(i).into_iter().map(|(o, k)| (self.ops[o], k as u32)).collect();
            got.sort(); ex.sort();
            if got != ex { return Err(format!("uses of value#{i}: {got:?} expected {ex:?}")); }
            if c.has_uses(r) != !ex.is_empty() { return Err(format!("has_uses of value#{i}")); }
        }
        Ok(fnv(&h))
    }
}

fn world(k: usize) -> (S, R) {
    let mut c = IrContext::new();
    let tys = [ty(&mut c, "core", "i32"), ty(&mut c, "core", "f64")];
    let l0 = loc(&mut c);
    let mut r = R { c, l0, ops: vec![], blks: vec![], regs: vec![], vals: vec![], tys };
    let mut s = S::default();
    fn blk(s: &mut S, r: &mut R, n: usize) -> usize { r.new_blk(n); s.mk_blk(n) }
    fn op(s: &mut S, r: &mut R, b: Option<usize>, opnd: &[usize], nres: usize, regs: &[usize], succ: &[usize]) -> usize {
        let rr: Vec<RegionRef> = regs.iter().map(|x| r.regs[*x]).collect();
        let ss: Vec<BlockRef> = succ.iter().map(|x| r.blks[*x]).collect();
        let o = r.real_op(opnd, nres, &rr, &ss, s.next_tag);
        r.new_op(o);
        let k = s.mk_op(opnd.to_vec(), nres, regs.to_vec(), succ.to_vec());
        if let Some(b) = b { r.c.push_op(r.blks[b], o); s.ops[k].parent = Some(b); s.blks[b].ops.push(k); }
        k
    }
    fn reg(s: &mut S, r: &mut R, bl: &[usize]) -> usize { let bb: Vec<BlockRef> = bl.iter().map(|x| r.blks[*x]).collect(); r.new_reg(&bb); s.mk_reg(bl.to_vec()) }
    let res = |s: &S, o: usize, i: usize| s.ops[o].results[i];
    match k {
        0 => { // straight line plus second block
            let a = blk(&mut s, &mut r, 1);
            let b = blk(&mut s, &mut r, 0);
            let o0 = op(&mut s, &mut r, Some(a), &[], 1, &[], &[]);
            let v0 = res(&s, o0, 0);
            let o1 = op(&mut s, &mut r, Some(a), &[v0, 0], 1, &[], &[]);
            let v1 = res(&s, o1, 0);
            op(&mut s, &mut r, Some(a), &[v1, v0, v1], 0, &[], &[b]);
            op(&mut s, &mut r, Some(b), &[v0], 0, &[], &[]);
            let g = reg(&mut s, &mut r, &[a, b]);
            op(&mut s, &mut r, None, &[], 0, &[g], &[]);
        }
        1 => { // nested region using outer values
            let a = blk(&mut s, &mut r, 1);
            let ib = blk(&mut s, &mut r, 1);
            let o0 = op(&mut s, &mut r, Some(a), &[0], 1, &[], &[]);
            let v0 = res(&s, o0, 0);
            let i0 = op(&mut s, &mut r, Some(ib), &[v0, 1, v0], 1, &[], &[]);
            let iv = res(&s, i0, 0);
            op(&mut s, &mut r, Some(ib), &[iv], 0, &[], &[]);
            let ig = reg(&mut s, &mut r, &[ib]);
            let w = op(&mut s, &mut r, Some(a), &[v0], 1, &[ig], &[]);
            let wv = res(&s, w, 0);
            op(&mut s, &mut r, Some(a), &[wv, wv], 0, &[], &[]);
            let g = reg(&mut s, &mut r, &[a]);
            op(&mut s, &mut r, None, &[], 0, &[g], &[]);
        }
        2 => { // loop: blocks listed out of dominance order, branches in both directions
            let a = blk(&mut s, &mut r, 0);
            let late = blk(&mut s, &mut r, 1);
            let early = blk(&mut s, &mut r, 1);
            let o0 = op(&mut s, &mut r, Some(early), &[1], 1, &[], &[]);
            let v0 = res(&s, o0, 0);
            op(&mut s, &mut r, Some(late), &[v0, 0], 0, &[], &[early]);
            op(&mut s, &mut r, Some(early), &[v0], 0, &[], &[late, early]);
            op(&mut s, &mut r, Some(a), &[], 0, &[], &[early]);
            let g = reg(&mut s, &mut r, &[a, late, early]);
            op(&mut s, &mut r, None, &[], 0, &[g], &[]);
        }
        3 => { // three regions on one operation, a block with three arguments
            let a = blk(&mut s, &mut r, 3);
            let (x, y, z) = (blk(&mut s, &mut r, 0), blk(&mut s, &mut r, 0), blk(&mut s, &mut r, 0));
            op(&mut s, &mut r, Some(x), &[2], 0, &[], &[]);
            op(&mut s, &mut r, Some(z), &[0, 1], 0, &[], &[]);
            let (gx, gy, gz) = (reg(&mut s, &mut r, &[x]), reg(&mut s, &mut r, &[y]), reg(&mut s, &mut r, &[z]));
            op(&mut s, &mut r, Some(a), &[1], 1, &[gx, gy, gz], &[]);
        }
        _ => { // two sibling regions and a detached user
            let a = blk(&mut s, &mut r, 0);
            let x = blk(&mut s, &mut r, 0);
            let y = blk(&mut s, &mut r, 0);
            let y2 = blk(&mut s, &mut r, 1);
            let o0 = op(&mut s, &mut r, Some(a), &[], 2, &[], &[]);
            let (p, q) = (res(&s, o0, 0), res(&s, o0, 1));
            op(&mut s, &mut r, Some(x), &[p], 1, &[], &[]);
            op(&mut s, &mut r, Some(y), &[q, p], 0, &[], &[y2]);
            op(&mut s, &mut r, Some(y2), &[q], 0, &[], &[y]);
            let gx = reg(&mut s, &mut r, &[x]);
            let gy = reg(&mut s, &mut r, &[y, y2]);
            op(&mut s, &mut r, Some(a), &[q, q], 1, &[gx, gy], &[]);
            op(&mut s, &mut r, None, &[p, q, p], 1, &[], &[]);
        }
    }
    (s, r)
}

fn replay(k: usize, path: &[A]) -> Result<(S, R), String> {
    let (mut s, mut r) = world(k);
    for a in path { step(&mut s, &mut r, a).map_err(|e| format!("{a:?}: {e}"))?; }
    Ok((s, r))
}
fn step(s: &mut S, r: &mut R, a: &A) -> Result<u64, String> {
    let before = s.clone();
    let ok = s.apply(a);
    if !ok { *s = before.clone(); }
    let got = guard(|| r.apply(&before, a));
    match (ok, got) {
        (true, Err(p)) => return Err(format!("valid call panicked: {p}")),
        (false, Ok(())) => return Err("a call whose documented precondition is violated was accepted".into()),
        _ => {}
    }
    r.check(s)
}

const WORLDS: usize = 5;
pub fn spaces(tier: Tier) -> Vec<Space<'static>> {
    let mut starts: Vec<(usize, A)> = vec![];
    for k in 0..WORLDS { for a in world(k).0.actions(tier) { starts.push((k, a)); } }
    let st0: &'static [(usize, A)] = Box::leak(starts.into_boxed_slice());
    let depth = tier.pick(3, 4);
    vec![Space {
        name: "history", n: st0.len(), limit: tier.pick(200, 1800),
        rule: format!("every history of up to {depth} mutation calls (create, attach, insert, detach, remove, operand edits, replace-all-uses, block arguments, deep clones, block split, region inlining; refused calls included) from {WORLDS} seed modules, deduplicated by state; after each call every operand list, use list, definition, type, parent link, source location and argument attribute is compared with the model"),
        run: Box::new(move |i, st| {
            let (k, a0) = &st0[i];
            let mut seen: HashSet<u64> = HashSet::new();
            let fail = |path: &[A], e: String| -> CaseResult { viol(format!("{:?}", path.last()).split(['(', '{', ' ']).nth(1).unwrap_or("?").to_string() + if e.contains("uses") { "/uses" } else { "" }, format!("after {path:?}: {e}")) };
            let mut level: Vec<Vec<A>> = vec![vec![a0.clone()]];
            match replay(*k, &level[0]) { Err(e) => return fail(&level[0], e), Ok((s, r)) => { let h = r.check(&s).unwrap_or(0); seen.insert(h); st.state(h ^ (*k as u64) << 56); } }
            st.transitions(1);
            for d in 1..depth {
                let mut next = vec![];
                for p in &level {
                    let (s, _) = replay(*k, p).map_err(|e| Violation { key: "replay".into(), detail: e })?;
                    for a in s.actions(tier) {
                        let (mut s2, mut r2) = replay(*k, p).map_err(|e| Violation { key: "replay".into(), detail: e })?;
                        st.transitions(1);
                        match step(&mut s2, &mut r2, &a) {
                            Err(e) => { let mut q = p.clone(); q.push(a); return fail(&q, e); }
                            Ok(h) => {
                                if seen.insert(h) {
                                    st.state(h ^ (*k as u64) << 56);
                                    if d + 1 < depth { let mut q = p.clone(); q.push(a); next.push(q); }
                                }
                            }
                        }
                        st.traces(1);
                    }
                }
                level = next;
            }
            st.nontrivial(1);
            Ok(())
        }),
        describe: Box::new(move |i| format!("seed module {} first call {:?}, then every history up to depth {depth}", st0[i].0, st0[i].1)),
    }]
}
