//! Mirror of the production pipeline orchestration in /repo/src/pipeline.rs
//! (the root crate itself cannot be built offline). Each step calls the real pass.
#![allow(dead_code)]
use tribute_passes::native::rc_insertion::{BorrowedParameterPolicy, TemporaryBorrowPolicy};
use trunk_ir::context::IrContext;
use trunk_ir::dialect::core as core_dialect;
use trunk_ir::dialect::func as func_dialect;
use trunk_ir::conversion::resolve_unrealized_casts;
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::rewrite::Module;
use trunk_ir_cranelift_backend::passes::{
    adt_to_clif, arith_to_clif, cf_to_clif, func_to_clif, mem_to_clif,
};
use trunk_ir_cranelift_backend::{RodataEntry, emit_module_to_native};

pub type R<T> = Result<T, String>;
fn es<E: std::fmt::Display>(stage: &'static str) -> impl Fn(E) -> String {
    move |e| format!("{stage}: {e}")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NativeOpts {
    pub borrowed: bool,
    pub temporary: bool,
    pub paired: bool,
}
impl NativeOpts {
    pub const PROD: NativeOpts = NativeOpts { borrowed: true, temporary: true, paired: true };
    pub fn from_bits(b: u32) -> Self {
        NativeOpts { borrowed: b & 1 != 0, temporary: b & 2 != 0, paired: b & 4 != 0 }
    }
}

pub fn parse(ctx: &mut IrContext, text: &str) -> R<Module> {
    let op = trunk_ir::parser::parse_module(ctx, text).map_err(|e| format!("parse: {e:?}"))?;
    // the front end records which type string literals have
    let string = ctx.type_aliases().iter().find_map(|(a, t)| (*a == "String").then_some(*t));
    tribute_ir::metadata::WellKnownTypes { string }.attach(ctx, op);
    Module::new(ctx, op).ok_or_else(|| "parse: not a module".to_string())
}

pub fn core_module(ctx: &IrContext, m: Module) -> core_dialect::Module {
    core_dialect::Module::from_op(ctx, m.op()).expect("core.module")
}

/// Structural verifier used after every pass: use chains and value integrity.
pub fn verify(ctx: &IrContext, m: Module, stage: &str) -> R<()> {
    let r = trunk_ir::validation::validate_use_chains(ctx, m);
    if !r.is_ok() {
        return Err(format!("INVALID use-chain after {stage}: {}", r.errors[0]));
    }
    let r = trunk_ir::validation::validate_value_integrity(ctx, m);
    if !r.is_ok() {
        return Err(format!("INVALID value integrity after {stage}: {}", r.errors[0]));
    }
    Ok(())
}

fn install(pm: &mut PassManager) {
    pm.with_verifier(|ctx, op| {
        let Some(module) = enclosing_module(ctx, op) else { return Ok(()) };
        // whole-module validation after every function is quadratic: in big modules, only per module
        if op != module.op() && module.first_block(ctx).is_some_and(|b| ctx.block(b).ops.len() > 20) { return Ok(()); }
        let result = trunk_ir::validation::validate_use_chains(ctx, module);
        if result.is_ok() {
            return Ok(());
        }
        Err(trunk_ir::pass::VerifyError { message: format!("INVALID use-chain: {}", result.errors[0]) })
    });
}
fn enclosing_module(ctx: &IrContext, mut op: trunk_ir::OpRef) -> Option<Module> {
    loop {
        if let Some(module) = Module::new(ctx, op) {
            return Some(module);
        }
        let block = ctx.op(op).parent_block?;
        let region = ctx.block(block).parent_region?;
        op = ctx.region(region).parent_op?;
    }
}

pub fn shared(ctx: &mut IrContext, m: Module) -> R<()> {
    let cm = core_module(ctx, m);
    let mut pm = PassManager::new();
    pm.add_pass(tribute_passes::lower_closure_lambda::LowerClosureLambda)
        .add_pass(tribute_passes::intrinsic_to_arith::LowerIntrinsicToArith)
        .add_pass(tribute_passes::list_intrinsics::LowerListIntrinsics)
        .add_pass(tribute_passes::io_lowering::LowerIoIntrinsics)
        .add_pass(tribute_passes::closure_lower::PrepareClosureLowering);
    pm.nest::<func_dialect::Func>().add_pass(tribute_passes::closure_lower::LowerClosuresInFunc);
    install(&mut pm);
    pm.run(ctx, cm).map_err(es("shared.structural"))?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(tribute_passes::lower_ability_perform::LowerAbilityPerform)
        .add_pass(tribute_passes::tail_resumptive::ConvertTailResumptive);
    install(&mut pm);
    pm.run(ctx, cm).map_err(es("shared.ability"))?;
    let mut pm = PassManager::new();
    pm.add_pass(tribute_passes::resolve_evidence::ResolveEvidenceDispatch);
    install(&mut pm);
    pm.run(ctx, cm).map_err(es("shared.evidence"))?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(tribute_passes::lower_handle_dispatch::LowerHandleDispatch);
    install(&mut pm);
    pm.run(ctx, cm).map_err(es("shared.handle"))?;
    Ok(())
}

pub fn inline(ctx: &mut IrContext, m: Module) {
    trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, analyses| {
        trunk_ir::transforms::inline::inline_functions(ctx, m, analyses);
    });
}

fn target_abi(ctx: &mut IrContext, m: Module) -> R<()> {
    if tribute_passes::target_abi::has_root_entry_contract(ctx, m) {
        tribute_passes::target_abi::lower_cps_signatures_to_physical(ctx, m).map_err(es("target_abi"))?;
        tribute_passes::target_abi::compose_root_entry_bridge(ctx, m).map_err(es("root_bridge"))?;
    }
    Ok(())
}

pub fn cleanup(ctx: &mut IrContext, m: Module) -> R<()> {
    trunk_ir::transforms::global_dce::eliminate_dead_functions(ctx, m);
    let cm = core_module(ctx, m);
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(trunk_ir::transforms::canonicalize_pass())
        .add_pass(trunk_ir::transforms::dce_pass(trunk_ir::transforms::DceConfig::default()));
    install(&mut pm);
    pm.run(ctx, cm).map_err(es("cleanup"))?;
    let tc = tribute_passes::generic_type_converter(ctx);
    resolve_unrealized_casts(ctx, m, &tc);
    Ok(())
}

pub fn native_target(ctx: &mut IrContext, m: Module) -> R<()> {
    inline(ctx, m);
    target_abi(ctx, m)?;
    tribute_passes::native::evidence::prepare_native_evidence_runtime(ctx, m);
    let cm = core_module(ctx, m);
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>().add_pass(tribute_passes::native::evidence::LowerEvidenceToNative);
    install(&mut pm);
    pm.run(ctx, cm).map_err(es("native.evidence"))?;
    cleanup(ctx, m)
}

pub fn prepare_native(ctx: &mut IrContext, module: Module, sanitize: bool, o: NativeOpts) -> R<Vec<RodataEntry>> {
    use tribute_passes::native as n;
    n::entrypoint::generate_native_entrypoint(ctx, module, sanitize);
    let ca = n::const_to_native::analyze_consts(ctx, module);
    n::const_to_native::lower(ctx, module, &ca).map_err(es("const_to_native"))?;
    n::intrinsic_to_native::lower(ctx, module).map_err(es("intrinsic_to_native"))?;
    n::io::lower(ctx, module).map_err(es("native.io"))?;
    n::list::lower(ctx, module).map_err(es("native.list"))?;
    let cm = core_module(ctx, module);
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>().add_pass(trunk_ir::transforms::scf_to_cf_pass());
    install(&mut pm);
    pm.run(ctx, cm).map_err(es("scf_to_cf"))?;
    let tc = |ctx: &mut IrContext| n::type_converter::native_type_converter(ctx).0;
    let t = tc(ctx);
    let summaries = n::ownership_summary::compute_and_attach(ctx, module, &t).map_err(es("ownership"))?;
    func_to_clif::lower(ctx, module, t).map_err(es("func_to_clif"))?;
    let t = tc(ctx);
    cf_to_clif::lower(ctx, module, t).map_err(es("cf_to_clif"))?;
    let t = tc(ctx);
    let rtti_map = n::rtti::generate_rtti(ctx, module, &t);
    n::adt_rc_header::lower(ctx, module, t, &rtti_map.type_to_idx).map_err(es("adt_rc_header"))?;
    let t = tc(ctx);
    adt_to_clif::lower(ctx, module, t).map_err(es("adt_to_clif"))?;
    let t = tc(ctx);
    arith_to_clif::lower(ctx, module, t).map_err(es("arith_to_clif"))?;
    let t = tc(ctx);
    mem_to_clif::lower(ctx, module, t).map_err(es("mem_to_clif"))?;
    let t = tc(ctx);
    n::tribute_rt_to_clif::lower(ctx, module, t).map_err(es("tribute_rt_to_clif"))?;
    let dump = |ctx: &IrContext, s: &str| if std::env::var("MC_DUMP").as_deref() == Ok(s) { println!("=== {s}\n{}", trunk_ir::printer::print_module(ctx, module.op())) };
    dump(ctx, "prerc");
    n::rc_insertion::insert_rc_with_policies_and_trusted_summaries(
        ctx,
        module,
        if o.borrowed { BorrowedParameterPolicy::ElideProvenBorrowed } else { BorrowedParameterPolicy::Preserve },
        if o.temporary { TemporaryBorrowPolicy::ElideProvenFieldBorrows } else { TemporaryBorrowPolicy::Preserve },
        &summaries,
    )
    .map_err(es("rc_insertion"))?;
    dump(ctx, "rc");
    if o.paired {
        n::rc_optimization::eliminate_paired_rc(ctx, module);
    }
    dump(ctx, "rcopt");
    let t = tc(ctx);
    let r = resolve_unrealized_casts(ctx, module, &t);
    if !r.unresolved.is_empty() {
        return Err(format!("unresolved casts: {}", r.unresolved.len()));
    }
    n::rc_lowering::lower_rc(ctx, module);
    Ok(ca.rodata.iter().map(|(sym, data)| RodataEntry { symbol: *sym, data: data.clone() }).collect())
}

pub fn emit_native(ctx: &mut IrContext, module: Module, o: NativeOpts) -> R<Vec<u8>> {
    let rodata = prepare_native(ctx, module, false, o)?;
    emit_module_to_native(ctx, module, &rodata).map_err(es("emit_native"))
}

/// Full native compilation from (optionally tribute_control) IR text.
pub fn compile_native(text: &str, o: NativeOpts) -> R<Vec<u8>> {
    let mut ctx = IrContext::new();
    let m = parse(&mut ctx, text)?;
    front(&mut ctx, m)?;
    shared(&mut ctx, m)?;
    native_target(&mut ctx, m)?;
    emit_native(&mut ctx, m, o)
}

/// If the module is in direct-style `tribute_control` form, legalize it first.
pub fn front(ctx: &mut IrContext, m: Module) -> R<()> {
    let has = m.ops(ctx).into_iter().any(|op| ctx.op(op).dialect == trunk_ir::Symbol::new("tribute_control"));
    if has {
        let decls = declarations(ctx, m);
        tribute_passes::tribute_control_to_cps::tribute_control_to_cps(ctx, m, &decls).map_err(es("to_cps"))?;
    }
    Ok(())
}

pub fn wasm_target(ctx: &mut IrContext, m: Module) -> R<()> {
    inline(ctx, m);
    target_abi(ctx, m)?;
    cleanup(ctx, m)
}

pub fn emit_wasm(ctx: &mut IrContext, m: Module) -> R<Vec<u8>> {
    tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(es("lower_to_wasm"))?;
    let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
    let r = resolve_unrealized_casts(ctx, m, &tc);
    if !r.unresolved.is_empty() {
        return Err(format!("wasm unresolved casts: {}", r.unresolved.len()));
    }
    tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(es("finalize_wasm_gc"))?;
    let b = trunk_ir_wasm_backend::emit_module_to_wasm(ctx, m).map_err(es("emit_wasm"))?;
    Ok(b.bytes)
}

pub fn compile_wasm(text: &str) -> R<Vec<u8>> {
    let mut ctx = IrContext::new();
    let m = parse(&mut ctx, text)?;
    front(&mut ctx, m)?;
    shared(&mut ctx, m)?;
    wasm_target(&mut ctx, m)?;
    emit_wasm(&mut ctx, m)
}

/// Derive the source operation declarations from the performs and handlers of a module.
pub fn declarations(ctx: &IrContext, m: Module) -> Vec<tribute_ir::dialect::tribute_control::OperationDeclaration> {
    use tribute_ir::dialect::tribute_control as tc;
    let mut out: Vec<tc::OperationDeclaration> = Vec::new();
    fn visit(ctx: &IrContext, op: trunk_ir::OpRef, out: &mut Vec<tc::OperationDeclaration>) {
        let d = ctx.op(op);
        let mut add = |x: tc::OperationDeclaration| {
            if !out.contains(&x) {
                out.push(x)
            }
        };
        if let Ok(p) = tc::Perform::from_op(ctx, op) {
            let tys: Vec<_> = ctx.op_operands(op).iter().map(|v| ctx.value_ty(*v)).collect();
            let r = ctx.op_results(op).first().map(|v| ctx.value_ty(*v)).expect("perform result");
            add(tc::OperationDeclaration::new(p.ability_ref(ctx), p.op_name(ctx), p.operation_kind(ctx), tys, r));
        } else if let Ok(h) = tc::Handler::from_op(ctx, op) {
            let body = d.regions[0];
            let b = ctx.region(body).blocks[0];
            let kind = h.kind(ctx);
            let mut tys: Vec<_> = ctx.block_args(b).iter().map(|v| ctx.value_ty(*v)).collect();
            if let Some(&l) = tys.last() {
                if ctx.types.get(l).name == trunk_ir::Symbol::new("resume_token") {
                    tys.pop();
                }
            }
            add(tc::OperationDeclaration::new(h.ability_ref(ctx), h.op_name(ctx), kind, tys, h.operation_result_type(ctx)));
        }
        for r in ctx.op(op).regions.iter() {
            for b in ctx.region(*r).blocks.iter() {
                for o in ctx.block(*b).ops.iter() {
                    visit(ctx, *o, out)
                }
            }
        }
    }
    visit(ctx, m.op(), &mut out);
    out
}
