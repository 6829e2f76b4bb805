NA = []
PROPS = [
dict(id="C01", title="IR text format loses nothing",
 statement="Printing any well-formed IR module and parsing the text back yields a module with the same operations, operand and branch wiring, types, attributes, symbols and type aliases, and the text is always accepted by the parser. This holds for every attribute value, every name, every type (with and without hand-registered aliases) and every region/block shape, and printing the reparsed module loses nothing either.",
 over=["inputs","programs"], qtext="all modules whose definitions are listed before their uses: every attribute value, symbol, type and block/region shape in the enumerated grammar",
 why="The tests round-trip a few dozen hand-written modules; the defects live in combinations (a name with a quote as an alias, a NaN payload, an empty block, an alias name clash) that no sample visits.",
 files=["crates/trunk-ir/src/printer.rs","crates/trunk-ir/src/parser/raw.rs","crates/trunk-ir/src/parser/builder.rs","crates/trunk-ir/src/op_interface.rs","crates/tribute-ir/src/dialect/closure.rs"],
 mech=[("print_module","crates/trunk-ir/src/printer.rs"),("parse_module","crates/trunk-ir/src/parser/mod.rs")],
 technique="exhaustive enumeration of a bounded module grammar on the real printer and parser, structural oracle",
 note="Exhaustive within the stated grammar bounds; equality is decided by an independent structural canonical form, not by the printer."),
dict(id="C02", title="IR structure and use lists stay exact under every edit history",
 statement="After any sequence of IR edits (creating, attaching, moving, detaching, deleting, deep-cloning operations; editing operands, block arguments and regions; replacing a value everywhere; splitting and inlining blocks) every operation, block, region and value reports exactly the operands, users, parents, definitions and types those edits imply. A deep clone refers only to its own copies of anything inside the cloned tree, and edits whose documented precondition is violated are refused.",
 over=["histories"], qtext="all edit histories up to the depth bound from four seed modules, including refused calls",
 why="Tests exercise one edit at a time on fresh operations; stale use entries only appear after particular sequences on shared or repeated operands.",
 files=["crates/trunk-ir/src/context.rs","crates/trunk-ir/src/rewrite/helpers.rs","crates/trunk-ir/src/ir_mapping.rs"],
 mech=[("IrContext mutation API","crates/trunk-ir/src/context.rs"),("split_block / inline_region_blocks","crates/trunk-ir/src/rewrite/helpers.rs")],
 technique="explicit-state exploration of edit histories, lock-step with a reference model",
 note="All histories up to the depth bound are executed on the real context and compared with an independent shadow model after each call."),
dict(id="C03", title="Dialect conversion is decided by its rules and nothing else",
 statement="Whether an operation is legal follows the documented precedence (dynamic decisions for the operation, then static ones, then its dialect, then the fallback for unknown operations), and an operation marked opaque hides everything nested in it. Applying rewrite patterns leaves legal and opaque code untouched, rewrites everything else to the normal form the patterns define whatever the nesting and order, and a full conversion succeeds exactly when no forbidden operation remains.",
 over=["configurations","programs"], qtext="all legality configurations over the registration options, all small nested programs and all small pattern sets",
 why="Tests pin individual rules; wrong results need a particular overlap of rules, nesting and rewrite order.",
 files=["crates/trunk-ir/src/rewrite/conversion_target.rs","crates/trunk-ir/src/rewrite/applicator.rs","crates/trunk-ir/src/rewrite/rewriter.rs"],
 mech=[("ConversionTarget","crates/trunk-ir/src/rewrite/conversion_target.rs"),("PatternApplicator","crates/trunk-ir/src/rewrite/applicator.rs")],
 technique="exhaustive enumeration of configurations and small programs on the real conversion driver against a reference decision procedure",
 note="Every configuration and program within the bounds is run on the real driver."),
dict(id="C04", title="Optimisations and structured-control lowering preserve behaviour",
 statement="Canonicalisation, constant folding, dead-code elimination, inlining, dead-function removal and lowering of structured conditionals, loops and switches to plain branches, alone or combined in any of the supported orders, never change what a program does: the same observable calls with the same arguments in the same order, the same result, the same trap. Lowering leaves no structured operation behind, dead-code elimination leaves no unused pure operation behind, and the result is always well-formed IR.",
 over=["programs","inputs"], qtext="all programs of the enumerated statement grammar (nested conditionals, loops, switches, calls, recursion) up to the size bound, all inputs, all pass schedules; every folding site over boundary constants at every width",
 why="Tests look at the shape of the output on single examples; a miscompilation needs a particular nesting, constant or order of passes.",
 files=["crates/trunk-ir/src/transforms/canonicalize.rs","crates/trunk-ir/src/transforms/dce.rs","crates/trunk-ir/src/transforms/scf_to_cf.rs","crates/trunk-ir/src/transforms/inline.rs","crates/trunk-ir/src/transforms/global_dce.rs","crates/trunk-ir/src/dialect/arith.rs"],
 mech=[("canonicalize","crates/trunk-ir/src/transforms/canonicalize.rs"),("lower_scf_to_cf","crates/trunk-ir/src/transforms/scf_to_cf.rs"),("eliminate_dead_code","crates/trunk-ir/src/transforms/dce.rs")],
 technique="exhaustive enumeration of bounded programs, each executed before and after every pass schedule by an explicit-state reference interpreter",
 note="Every program of the grammar within the bound is transformed by the real passes and compared on every input."),
dict(id="C05", title="Dominance is exact and validators accept exactly well-formed IR",
 statement="For every control-flow graph the dominator analysis reports exactly which blocks are reachable, which block lies on every path to which other block, and whether a branch leaves the region. The validators accept a module if and only if every operand refers to a value visible from its position inside the same function, the recorded uses match the actual operands, and every structured conditional, loop, switch, float comparison, indirect tail call and direct call has the documented shape.",
 over=["programs"], qtext="all control-flow graphs up to the block bound and all placements of definitions and uses in a forest of nested regions",
 why="Tests check a handful of graphs and one malformed example per rule; a hole in a validator is only visible on the malformed shape nobody wrote down.",
 files=["crates/trunk-ir/src/dominance.rs","crates/trunk-ir/src/validation.rs"],
 mech=[("DominatorTree::compute","crates/trunk-ir/src/dominance.rs"),("validate_all","crates/trunk-ir/src/validation.rs")],
 technique="exhaustive enumeration of all small graphs and region shapes on the real analyses against path-based oracles",
 note="Graphs up to 4 blocks with every successor list (5 in thorough), 5 and 6 blocks in a reduced form, are covered completely."),
dict(id="C06", title="Call analysis, dead-function removal and inlining are exact",
 statement="The call graph records exactly the calls, tail calls and function values of every function, its recursive groups are exactly the mutually reachable functions, and dead-function removal deletes exactly the functions not reachable from an entry point (main, exports, externally callable functions, requested extras) and leaves the rest unchanged. Inlining terminates on every program, never copies recursive, external or escaping functions, and every function still performs the same sequence of effects.",
 over=["programs","configurations"], qtext="all call graphs over up to four functions with every reference kind, entry-point set and inlining policy within the bounds",
 why="Tests use chains and two-function cycles; wrong removals and runaway inlining come from particular combinations of cycles, function values and entry points.",
 files=["crates/trunk-ir/src/transforms/call_graph.rs","crates/trunk-ir/src/transforms/global_dce.rs","crates/trunk-ir/src/transforms/inline.rs"],
 mech=[("build_call_graph / tarjan_scc","crates/trunk-ir/src/transforms/call_graph.rs"),("eliminate_dead_functions","crates/trunk-ir/src/transforms/global_dce.rs"),("inline_functions","crates/trunk-ir/src/transforms/inline.rs")],
 technique="exhaustive enumeration of call graphs on the real passes against transitive-closure and effect-trace oracles",
 note="All graphs within the bounds are built as real modules and run through the real passes."),
dict(id="C07", title="The pass manager runs the registered schedule and blames the right pass",
 statement="Running a pipeline executes exactly the registered passes in registration order, nested passes once per matching operation still in the tree, with the post-pass hooks of the innermost manager that defines them. It stops at the first pass that fails or leaves the module broken and names that pass, never runs a pass on an erased operation, and a cached analysis is returned unchanged until it is invalidated and recomputed afterwards.",
 over=["histories","configurations","fault_sequences"], qtext="all small pipelines with every per-pass outcome and hook configuration, and all cache histories up to the depth bound",
 why="Tests register one or two well-behaved passes; what matters is the interplay of failure, erasure, nesting and hook inheritance.",
 files=["crates/trunk-ir/src/pass.rs","crates/trunk-ir/src/analysis.rs","crates/trunk-ir/src/walk.rs"],
 mech=[("PassManager::run","crates/trunk-ir/src/pass.rs"),("AnalysisCache","crates/trunk-ir/src/analysis.rs")],
 technique="explicit-state exploration of pipelines, fault placements and cache histories, lock-step with a reference model",
 note="Every pipeline and history within the bounds runs on the real manager and cache."),
dict(id="C08", title="Native code computes what the IR says",
 statement="The machine code emitted for a module returns the values, performs the observable calls in the order, and traps exactly where the IR semantics say, for every arithmetic, comparison, conversion and bitwise operation at every scalar type and value, every combination of structured control flow, every parameter and result signature, and direct, indirect and recursive calls. Guaranteed tail calls in the continuation-passing convention run in constant stack space however many are chained.",
 over=["inputs","programs"], qtext="all scalar operations over all pairs of boundary values, all structured programs and signatures up to the bounds",
 why="Tests assert on the text of lowered IR or on a few compiled programs; a wrong signedness, a swapped operand or a lost branch argument shows only at particular values, nestings or signatures.",
 files=["crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs","crates/trunk-ir-cranelift-backend/src/passes/func_to_clif.rs","crates/trunk-ir-cranelift-backend/src/passes/cf_to_clif.rs","crates/trunk-ir-cranelift-backend/src/function.rs","crates/trunk-ir-cranelift-backend/src/translate.rs","crates/trunk-ir/src/transforms/scf_to_cf.rs"],
 mech=[("arith_to_clif","crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs"),("scf_to_cf","crates/trunk-ir/src/transforms/scf_to_cf.rs")],
 technique="exhaustive enumeration of bounded programs and inputs, compiled by the real backend and executed, against a reference interpreter",
 note="Every enumerated program is compiled to an object file by the real pipeline, loaded into the process and called; traps are recovered from signals."),
dict(id="C09", title="WebAssembly computes what the IR says",
 statement="Every module the WebAssembly backend accepts becomes a valid WebAssembly module that returns the values, performs the observable calls in the order, and traps exactly where the IR semantics say, for every arithmetic, comparison, conversion and bitwise operation on 32- and 64-bit integers and floats, every nesting of conditionals and loops with their exits, every parameter and result signature, and direct, indirect and recursive calls. Integer and float code that the native backend compiles is not refused, and guaranteed tail calls run in constant stack space.",
 over=["inputs","programs"], qtext="all scalar operations over all pairs of boundary values, all structured programs and signatures up to the bounds",
 why="Tests look at the printed wasm dialect or check that bytes validate for a few programs; an invalid module or wrong branch depth needs a particular nesting or operation.",
 files=["crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs","crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs","crates/trunk-ir-wasm-backend/src/passes/func_to_wasm.rs","crates/trunk-ir-wasm-backend/src/emit.rs","crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs","crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs"],
 mech=[("arith_to_wasm","crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs"),("emit","crates/trunk-ir-wasm-backend/src/emit.rs")],
 technique="exhaustive enumeration of bounded programs and inputs, compiled by the real backend and executed in V8, against a reference interpreter",
 note="Every enumerated program is emitted by the real pipeline, validated and run by node's WebAssembly engine."),
dict(id="C10", title="Native code preserves the meaning of structured data",
 statement="For every program that builds, matches, projects, passes, returns, captures and stores enums, structs, boxed scalars, closures and lists, in any nesting of conditionals, loops and calls, the native executable produced by the full production pipeline (closure conversion, type-to-layout lowering, boxing, list lowering, reference counting, optimisation) performs the same observable calls with the same values in the same order as the IR semantics: a variant test is true exactly for the variant that was built, a field read returns what was stored, a closure sees the values it captured, and a list gives back its elements in order.",
 over=["programs","inputs"], qtext="all programs of the enumerated data grammar up to the statement bound and nesting depth, each on an even and an odd input, inlined and as real calls",
 why="Tests compare printed IR of single lowerings; a wrong tag, offset, capture slot or lost box is visible only in a program where two particular data constructs meet.",
 files=["crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs","crates/tribute-passes/src/native/adt_rc_header.rs","crates/tribute-passes/src/native/list.rs","crates/tribute-passes/src/closure_lower.rs","crates/tribute-passes/src/lower_closure_lambda.rs","crates/tribute-passes/src/boxing.rs","crates/tribute-passes/src/native/tribute_rt_to_clif.rs"],
 mech=[("emit_module_to_native","crates/trunk-ir-cranelift-backend/src/translate.rs"),("closure_lower","crates/tribute-passes/src/closure_lower.rs")],
 technique="exhaustive enumeration of bounded data programs, compiled by the full real pipeline and executed, against a reference interpreter",
 note="Every program of the grammar is compiled by the real native pipeline, loaded and run; the trace of observable calls is compared with the interpreter."),
dict(id="C11", title="WebAssembly preserves the meaning of structured data",
 statement="For every program that builds, matches, projects, passes, returns, captures and stores enums, structs, boxed scalars and closures, in any nesting of conditionals and calls, the WebAssembly module produced by the full production pipeline is valid and performs the same observable calls with the same values in the same order as the IR semantics: a variant test is true exactly for the variant that was built, a field read returns what was stored, and a closure sees the values it captured.",
 over=["programs","inputs"], qtext="all programs of the enumerated data grammar up to the statement bound and nesting depth, each on an even and an odd input, inlined and as real calls",
 why="Tests check that single lowerings print the expected operations; an invalid module, a failing cast or a wrong GC type index needs a particular combination of types in one module.",
 files=["crates/tribute-passes/src/wasm/lower.rs","crates/tribute-passes/src/wasm/type_converter.rs","crates/trunk-ir-wasm-backend/src/passes/adt_to_wasm.rs","crates/trunk-ir-wasm-backend/src/gc_types.rs","crates/trunk-ir-wasm-backend/src/emit/handlers/struct_handlers.rs","crates/tribute-passes/src/closure_lower.rs"],
 mech=[("lower_to_wasm","crates/tribute-passes/src/wasm/lower.rs"),("emit_module_to_wasm","crates/trunk-ir-wasm-backend/src/translate.rs")],
 technique="exhaustive enumeration of bounded data programs, compiled by the full real pipeline and executed in V8, against a reference interpreter",
 note="Every program of the grammar is compiled by the real wasm pipeline, validated and run by node; the trace of observable calls is compared with the interpreter."),
dict(id="C12", title="Reference counting never frees a value that is still needed",
 statement="In every program over enums, structs, boxes, closures and lists, native code never reads, writes or releases a heap value after its memory was freed, never frees a value twice and never writes outside an allocation, on every control-flow path, and this holds for each of the eight combinations of the reference-count optimisation policies (borrowed parameters, temporaries, paired operations); every combination gives the same observable behaviour.",
 over=["programs","inputs","configurations"], qtext="all programs of the enumerated data grammar up to the statement bound on both branch outcomes, times the optimisation policies",
 why="Tests count retain and release operations in printed IR; a premature release needs a value whose last use lies on one particular path while an alias of it lives on.",
 files=["crates/tribute-passes/src/native/rc_insertion.rs","crates/tribute-passes/src/native/rc_optimization.rs","crates/tribute-passes/src/native/rc_lowering.rs","crates/tribute-passes/src/native/ownership_summary.rs","crates/tribute-passes/src/native/rtti.rs","crates/tribute-rc/src/lib.rs","crates/tribute-runtime/src/lib.rs"],
 mech=[("insert_rc","crates/tribute-passes/src/native/rc_insertion.rs"),("eliminate_paired_rc","crates/tribute-passes/src/native/rc_optimization.rs")],
 technique="exhaustive enumeration of bounded data programs and policy combinations, executed natively on a monitored heap that poisons and never reuses freed blocks",
 note="Each program is compiled once per policy combination and run over a guard heap: access to freed memory faults, double frees and overruns are reported."),
dict(id="C13", title="Byte strings and literals mean the same on both targets",
 statement="In programs compiled by the full native and WebAssembly pipelines, every byte and string literal (empty, containing NUL or non-UTF-8 bytes, long, or sharing content with other literals) has exactly its source bytes, and length, indexing, concatenation, range comparison and (natively) slicing give the same result as on mathematical byte sequences, wherever the string has been stored, captured, boxed or passed. Indexing yields a value from 0 to 255, and an index or slice outside the string stops the program; it never yields other memory.",
 over=["programs","inputs"], qtext="all byte-string programs of the enumerated grammar up to the statement bound, all accesses inside and outside the bounds of all short strings, all small literal pools",
 why="Tests look at the lowered operations of one literal; a sign-extended byte, a missing bounds check or a wrong data-segment offset shows only for particular bytes, indices or literal combinations.",
 files=["crates/tribute-passes/src/native/const_to_native.rs","crates/tribute-passes/src/native/intrinsic_to_native.rs","crates/tribute-passes/src/wasm/const_to_wasm.rs","crates/tribute-passes/src/wasm/intrinsic_to_wasm.rs","crates/trunk-ir-wasm-backend/src/data_registry.rs","crates/tribute-runtime/src/lib.rs"],
 mech=[("analyze_consts","crates/tribute-passes/src/native/const_to_native.rs"),("BytesGetOrPanicPattern","crates/tribute-passes/src/native/intrinsic_to_native.rs"),("intrinsic_to_wasm","crates/tribute-passes/src/wasm/intrinsic_to_wasm.rs")],
 technique="exhaustive enumeration of bounded byte-string programs, literal pools and accesses, compiled and executed on both targets, against a byte-sequence model",
 note="Every program is compiled by the real pipelines and run natively over the monitored heap and in node."),
dict(id="C14", title="Ability operations reach the right handler with the right continuation",
 statement="In natively compiled programs with ability operations and handlers, every operation is answered by the innermost enclosing handler of its ability at the point where it is performed, with exactly its arguments; resuming continues the computation right after the operation with the given value, exactly once; a handler arm that does not resume ends the handled computation with the arm's value and skips the done arm; a tail-resumptive operation returns its arm's value to the caller; a computation that finishes normally passes its value through the done arm; and once a handled computation has ended, its handler no longer answers anything: the done arm, the code after it, and operations performed by handler arms belong to the enclosing handlers. This holds through function calls, branches, nested handlers of the same or different abilities, and arms or done arms that themselves perform operations, and no such program corrupts memory.",
 over=["programs","operation sequences"], qtext="all handler programs of the enumerated grammar up to the statement bound: every arm behaviour, done arm, nesting and order of operations",
 why="Tests compile single handlers and inspect the lowered form; a wrong evidence value, continuation or owner tag shows only for a particular nesting and order of operations.",
 files=["crates/tribute-passes/src/lower_ability_perform.rs","crates/tribute-passes/src/resolve_evidence.rs","crates/tribute-passes/src/lower_handle_dispatch.rs","crates/tribute-passes/src/tail_resumptive.rs","crates/tribute-passes/src/evidence.rs","crates/tribute-passes/src/closure_lower.rs","crates/tribute-passes/src/lower_closure_lambda.rs","crates/tribute-passes/src/native","crates/tribute-runtime/src/lib.rs"],
 mech=[("resolve_evidence_dispatch","crates/tribute-passes/src/resolve_evidence.rs"),("lower_handle_dispatch","crates/tribute-passes/src/lower_handle_dispatch.rs"),("__tribute_evidence_extend","crates/tribute-runtime/src/lib.rs")],
 technique="exhaustive enumeration of bounded effect-handler programs, compiled by the real native pipeline and executed, against a free-monad model of handlers",
 note="Every program is lowered to the IR shape the front end emits, compiled by the real passes and backend, and executed over the monitored heap; the model predicts the whole observation sequence."),
dict(id="C15", title="Handler evidence finds the handler most recently installed",
 statement="For every history of extending evidence, looking up any installed ability returns exactly the prompt tag, tail-resumptive function and handler of its most recent installation in that evidence, for every number of installed abilities, every insertion order and every ability identifier; extending an evidence never changes any evidence made earlier. Within a thread no prompt tag is ever given out twice, under every interleaving of threads, and initialising the runtime concurrently from several threads leaves every thread ready to use it when its initialisation returns.",
 over=["histories","schedules"], qtext="all insertion orders past the inline capacity, all branching extension histories, all interleavings of tag-drawing threads, and initialisation racing at key creation",
 why="Tests install a few abilities in one order on one thread; a wrong search or insertion shows only for particular orders and sizes, and a broken initialisation only in one schedule.",
 files=["crates/tribute-runtime/src/lib.rs","crates/tribute-runtime/src/tls.rs"],
 mech=[("__tribute_evidence_extend","crates/tribute-runtime/src/lib.rs"),("tls_init","crates/tribute-runtime/src/tls.rs")],
 technique="exhaustive enumeration of operation histories and thread interleavings on the real runtime against a map model",
 note="The real runtime library executes every enumerated history; schedules are forced through channels and by suspending a thread inside key creation."),
dict(id="C16", title="Console input and output survive every system call behaviour",
 statement="Whatever the kernel does with each read and write (short counts, interruptions, failures, early end of file), reading lines delivers exactly the lines of the input once each and in order, with LF and CRLF terminators removed and a lone CR kept, a final unterminated line delivered, invalid UTF-8 reported as such without losing the following lines, end of file and system errors reported with their code, and lines longer than the internal buffer intact. Writing delivers every byte exactly once and in order, and after a failed write nothing of that message is repeated or reordered. Integers are printed exactly in decimal, and floats so that reading them back gives the same number.",
 over=["inputs","fault schedules"], qtext="all inputs up to the bound over an alphabet of terminators, NUL and partial UTF-8, with every pattern of kernel results within the fault budgets",
 why="Tests script one or two kernel result patterns; lost or duplicated bytes need a short count or interruption at one particular point.",
 files=["crates/tribute-runtime/src/lib.rs"],
 mech=[("read_line_with","crates/tribute-runtime/src/lib.rs"),("write_all_with","crates/tribute-runtime/src/lib.rs")],
 technique="exhaustive exploration of all environment (system call) behaviours within fault budgets on the real runtime, against a line model",
 note="The read and write calls of the real runtime are answered by a scripted environment that enumerates every result."),
dict(id="C17", title="Byte strings and the heap keep their contents and bounds",
 statement="Concatenating, slicing and comparing byte strings gives the result of the same operation on mathematical byte sequences for every history of operations, including empty strings and slices of slices; an out-of-range slice stops the program and never returns memory outside the string; a range comparison that leaves either string is false. Inputs are never changed, every new string starts with its own reference and a slice keeps its parent alive. Live heap blocks never overlap, keep their content and are aligned, zero-sized requests take no block, and the checking allocator reports any stray write within its red zones and any second free of a quarantined block, and nothing else, and keeps freed memory poisoned while it is quarantined.",
 over=["histories","inputs"], qtext="all operation histories up to the depth from several starting strings with every bound, all allocation histories, every stray write offset",
 why="Tests slice and concatenate a few literals; an off-by-one needs a nested slice or a boundary index.",
 files=["crates/tribute-runtime/src/lib.rs","crates/tribute-runtime/src/asan.rs","crates/tribute-rc/src/lib.rs"],
 mech=[("__tribute_bytes_slice_or_panic","crates/tribute-runtime/src/lib.rs"),("__tribute_alloc","crates/tribute-runtime/src/lib.rs"),("asan","crates/tribute-runtime/src/asan.rs")],
 technique="exhaustive enumeration of operation histories on the real runtime over a monitored heap, against a byte-sequence model",
 note="Every history runs the real runtime functions with a guard heap that detects overruns and leaks."),
dict(id="C18", title="Straight-line native code gives back every object it allocates",
 statement="In every native program that builds, stores, projects, passes, returns, shares and drops enum values (with scalar, float and enum fields) in straight-line code and calls, every heap object has been freed exactly once when the program ends, with the size it was allocated with, however many owners it had and in whatever order they die, for each of the eight combinations of the reference-count optimisation policies. (Values that die on one side of a branch only, structs, closures, boxes and byte strings are outside this guarantee.)",
 over=["programs","configurations"], qtext="all straight-line programs of the enumerated grammar up to the statement bound, times the optimisation policies",
 why="A missing release shows nowhere in a program's output; tests count operations in printed IR for a few programs.",
 files=["crates/tribute-passes/src/native/rc_insertion.rs","crates/tribute-passes/src/native/rc_optimization.rs","crates/tribute-passes/src/native/rc_lowering.rs","crates/tribute-passes/src/native/ownership_summary.rs","crates/tribute-passes/src/native/rtti.rs","crates/tribute-runtime/src/lib.rs"],
 mech=[("insert_rc","crates/tribute-passes/src/native/rc_insertion.rs"),("release functions","crates/tribute-passes/src/native/rtti.rs")],
 technique="exhaustive enumeration of bounded straight-line data programs and policy combinations, executed natively on a heap that counts live objects",
 note="Each program is compiled once per policy combination and run; any object still live at the end is a violation."),
dict(id="C20", title="Pending type casts are resolved without losing a conversion",
 statement="After resolving pending casts no cast that the type rules can settle remains, every user of a cast sees a value of the type the cast promised, and the chain of conversions applied to a value is exactly the one the type rules prescribe; casts that cannot be settled are left in place and reported. Converting function signatures rewrites parameter, result and entry-argument types together and leaves every user consistent.",
 over=["programs","configurations"], qtext="all small cast chains and shared-use patterns over all rule sets, and all small function signatures",
 why="Tests resolve one cast at a time; dropped conversions need chains, shared operands or overlapping rules.",
 files=["crates/trunk-ir/src/conversion/resolve_unrealized_casts.rs","crates/trunk-ir/src/rewrite/type_converter.rs","crates/trunk-ir/src/rewrite/signature_conversion.rs"],
 mech=[("resolve_unrealized_casts","crates/trunk-ir/src/conversion/resolve_unrealized_casts.rs"),("TypeConverter","crates/trunk-ir/src/rewrite/type_converter.rs")],
 technique="exhaustive enumeration of cast graphs and conversion rules on the real passes against a reference resolver",
 note="Every cast graph within the bounds is resolved by the real pass and compared with the reference."),
dict(id="C21", title="Compiled programs read and write the console faithfully",
 statement="Every message a compiled program writes appears on standard output exactly once, complete, in program order relative to everything else the program does, followed by a newline exactly when one was asked for, on the native and the WebAssembly target alike, whatever the message length and however the host shortens or interrupts writes; a write the host refuses for good loses at most the rest of that message. On the native target each line read reaches the program as exactly one result (the line without its terminator, end of file, invalid encoding, or the system error with its code and message), in order, stays intact while later lines are read, and is never used after being freed.",
 over=["programs","inputs","fault_sequences"], qtext="all programs of the enumerated grammar (writes of literals and concatenations, reads, later uses of results, loops over the input, conditionals), all small inputs and all host answer sequences within the fault budgets, every message size around the memory-page boundaries",
 why="Tests look for the names of runtime calls in printed IR; nothing runs the generated copy and retry loops or the decoding of read results.",
 files=["crates/tribute-passes/src/io_lowering.rs","crates/tribute-passes/src/native/io.rs","crates/tribute-passes/src/wasm/io.rs","crates/tribute-runtime/src/lib.rs"],
 mech=[("LowerIoIntrinsics","crates/tribute-passes/src/io_lowering.rs"),("native read result decoding","crates/tribute-passes/src/native/io.rs"),("WASI write helper","crates/tribute-passes/src/wasm/io.rs")],
 technique="exhaustive enumeration of console programs and host behaviours on the emitted native and WebAssembly code, against a stream model",
 note="Programs go through the full pipelines; the read, write and fd_write calls of the result are answered by an environment that enumerates every script within the bounds."),
]
