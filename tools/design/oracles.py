O={
"C01":"Modules are built through the IR API from a grammar of attribute values (integers and floats at boundaries, NaN payloads, strings over an alphabet of quotes, escapes, controls and non-ASCII, byte strings, symbols, nested lists, types, locations), names, types with and without registered aliases, and block/region shapes with branches. Each is printed by the real printer, parsed by the real parser, printed again. Oracle: an independent structural canonical form (`ir.rs::canon`) of the two modules must be equal, including alias tables; acceptance by the parser is required. Modules whose definitions are printed after their uses (unordered blocks) are outside: the format reads top to bottom.",
"C02":"Explicit-state exploration of edit histories: every sequence up to the depth from several seed modules over the mutation API (create, push, insert, move, detach, remove, set/insert/remove operand, block arguments, regions, replace-all-uses, deep clone, split, inline). A shadow model (plain vectors) performs the same edit; after each call the complete observable state (operands, uses, parents, indices, definitions, types) is compared. Calls that violate a documented precondition must be refused (panic) and are explored as such.",
"C03":"All legality configurations over the registration options for operation, dialect and dynamic rules, all small nested programs, all small pattern sets, run by the real driver; oracle: a direct transcription of the documented precedence and a term-rewriting normal form. Full conversion must fail exactly when a forbidden operation remains.",
"C04":"Programs of a structured grammar with observable calls are enumerated; the reference interpreter runs each on all 12 inputs before and after each of nine pass schedules; traces, results and traps must agree. Folding: every operation at every width over boundary constants (and constant/parameter pairs). Dead code: every pair of pure/effectful operations, and every four-operation use graph under every sweep budget (nothing live removed, counts right, fixpoint claims true).",
"C05":"All control-flow graphs up to 4 blocks with every successor list (also to blocks outside the region), all 5-block graphs and 6-block graphs in a reduced form; oracle: dominance by path search (remove a block, test reachability). Validators: every placement of a definition and a use in a forest of nested regions and blocks, every single-field corruption of each checked operation shape; the expected verdict is computed from the definition of visibility / the documented shape.",
"C06":"All directed call graphs over four functions, all three-function programs over reference kinds, all two-function programs over ten kinds (call, two calls, tail call, function value, nested in a region, and each of them in a later block behind a branch), all sets of external, exported and extra entry points, eleven naming schemes (qualified, prefixes of each other, `main` look-alikes). Oracles: transitive closure; effect traces of every function before and after inlining along both branch directions.",
"C07":"All small pipelines (root passes, nested managers, function- and module-anchored passes) with every per-pass outcome (ok, error, leaves the module broken, erases itself or a sibling, adds an operation) and every placement of verifier and instrumentation hooks, plus all cache histories; oracle: a lock-step reference scheduler and cache.",
"C08":"Scalar operations at all types over all pairs of boundary values, as parameters and constants; structured programs; signatures; call chains. Compiled with the production native pipeline to an object file, loaded and called; traps are recovered from signals. Oracle: the reference interpreter. Deep tail-call chains run on a small stack.",
"C09":"The same spaces for WebAssembly, run in V8 (module validation included).",
"C10":"Grammar over enums, structs, boxed scalars, closures, lists; control-flow skeletons (`flow`), every small type layout (`layout`). Full production pipeline with reference counting and optimisation; oracle: the reference interpreter on the high-level IR (no layout, no reference counts).",
"C11":"The same programs (minus what is not lowered on this target) through the WebAssembly pipeline in V8.",
"C12":"The same programs, compiled once per reference-count policy combination, over a heap that never reuses blocks, makes freed blocks inaccessible, checks sizes and red zones: any use after free, double free, wrong-size free or overrun is a signal or a heap error.",
"C13":"Byte-string programs on both targets, all accesses inside and outside the bounds of all short strings, all small literal pools, every substring of a literal before and after it; oracle: byte sequences.",
"C14":"Handler programs over three abilities; oracle: a free-monad interpretation (operations as data, deep one-shot handlers) that predicts the whole observation sequence. The program is lowered in the shape the front end emits (`legacy_*` ability operations) and compiled natively.",
"C15":"All insertion orders of abilities past the inline capacity, all branching extension histories (each evidence is re-read after later extensions), all interleavings of tag-drawing threads forced through channels, and initialisation with a thread suspended inside key creation. Oracle: an association list; set of tags.",
"C16":"`read`/`write` of the runtime are interposed; the environment enumerates every result (every short count, EINTR, error codes, EOF) within fault budgets, for every input over an alphabet of terminators and partial UTF-8. Oracle: line splitter / byte stream model. Number printing: boundary values, read back.",
"C17":"All histories of concat/slice/compare from several starting strings with every bound; all allocation histories; the checking allocator with every stray write offset. Oracle: byte sequences; interval model of the heap.",
"C18":"Straight-line programs over enum values; after the run the heap must be empty, for every policy combination.",
"C20":"All cast chains and sharing patterns over all rule sets; all small signatures. Oracle: a reference resolver over the type rules.",
"C21":"Programs over write (literal, concatenation; newline constant or computed), read, use of earlier results, a recursive echo loop and conditionals, in the call form the front end emits, through the full pipelines. Native: the interposed `read`/`write` of C16 enumerate short counts, interruptions, read failures and early end of file at every point, over the guard heap. WebAssembly: `fd_write` answers from every script (all, one, two bytes, nothing, interrupted, refused). Oracle: a stream model; the order of writes relative to observable calls is part of it.",
}
