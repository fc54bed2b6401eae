NT = "The only test that builds here (test_half) never traces or evaluates an expression; the upstream suite samples a few values per operation."
prop("A01", "Compiled arithmetic computes each operation exactly, element by element",
 "Evaluating an arithmetic, comparison, bitwise or selection operation on arrays yields, for every element, exactly the value of that operation on the corresponding input elements: two's-complement wrap-around for integers, correctly rounded IEEE-754 results for floats (including NaN, infinities, subnormals and 16-bit floats). Operands of size one are broadcast. No other element, input or variable is affected.",
 "inputs programs", "every operation and element type, all bit patterns of all operand elements", NT,
 "src/llvm_eval.cpp src/op.cpp src/eval.cpp src/llvm_core.cpp src/llvm_ts.cpp src/strbuf.cpp",
 [("code generation per operation", "src/llvm_eval.cpp: jitc_llvm_render"), ("operation front end, half-precision upcasts", "src/op.cpp"), ("input/output staging and launch", "src/eval.cpp, src/llvm_ts.cpp")],
 ["contents of the evaluated array"])
prop("A02", "Constant folding gives exactly the value of the operation",
 "An operation whose operands are all literal constants is replaced by a constant with exactly the value (and type) the operation has for those operands, for every element type. Folding never crashes or raises an error on operands of a valid type.",
 "inputs", "every foldable operation and element type, all bit patterns of all literal operands", "Tests fold a handful of literals; a wrong fold at one bit pattern, type or boundary stays unseen.",
 "src/op.cpp src/var.cpp", [("literal evaluation", "src/op.cpp: jitc_eval_literal and the per-operation lambdas"), ("literal creation and value extraction", "src/var.cpp")], ["value of the resulting constant"])
prop("A03", "Algebraic simplification never changes the value of an expression",
 "When some operands are literals or identical (x*1, x+0, x&0, multiplications and divisions by powers of two, selections with a constant mask, comparisons of a variable with itself, ...) the expression may be simplified at trace time, and evaluating it still yields the value of the original operation for every value of the remaining operands. This holds in every combination of literal and array operands and operand sizes.",
 "inputs programs", "every operation, type and literal/array combination; special literal values; all bit patterns of the other operands", "The rewrites trigger for particular literals only, and are wrong for particular operand values only; tests do not sample the product.",
 "src/op.cpp", [("rewrites", "src/op.cpp: jitc_var_shift, jitc_var_mul, jitc_var_div, jitc_var_fma, jitc_var_select, ...")], ["contents of the evaluated array"])
prop("A04", "Conversions and reinterpretations give the C++ value, for literals and arrays",
 "Converting an array between any two element types yields, element by element, the value of the corresponding C++ conversion (integer wrap-around and sign extension, correctly rounded integer-to-float and float-to-float conversions, truncation toward zero, x != 0 for booleans, and rounding to an integer with floor/ceil/round/trunc before a conversion); reinterpreting casts preserve the bits and are refused for types of different size. Literals and chains of conversions give the same values as arrays.",
 "inputs programs", "every pair of element types, all bit patterns for which the conversion is defined", NT,
 "src/op.cpp src/llvm_eval.cpp include/drjit-core/half.h", [("conversion front end and folding", "src/op.cpp: jitc_var_cast"), ("code generation", "src/llvm_eval.cpp: jitc_llvm_render (Cast, Bitcast)")], ["contents of the converted array"])
prop("A05", "Composite expressions and common-subexpression reuse preserve values",
 "An expression built from several operations evaluates to the composition of the operations' values for every operand, however the simplifier rewrites combinations of them. Two nodes are merged by value numbering only when they denote the same value, type and size, also after intermediate variables have been freed, evaluated or created in another scope.",
 "programs inputs histories", "two-step expressions in every operand arrangement, all bit patterns; sequences of node creations and frees", NT,
 "src/op.cpp src/var.cpp src/eval.cpp", [("rewrites that look at operand nodes", "src/op.cpp"), ("value numbering cache", "src/var.cpp: jitc_var_new, jitc_var_free")], ["contents of the evaluated arrays"])
prop("H01", "Half-precision conversions round correctly for every bit pattern",
 "Converting between half and single precision (and, through it, to and from double precision, integers and booleans) gives the IEEE-754 value rounded to nearest even, with overflow to infinity, gradual underflow, NaN staying NaN and signs preserved; every half value survives a round trip exactly. Classification, limits, sign and helper functions of the half type agree with the value they describe.",
 "inputs", "all 2^16 half and all 2^32 single precision bit patterns, all integers", "test_half samples conversions of one direction; no test decides every rounding boundary or helper.",
 "include/drjit-core/half.h", [("conversion tables/bit tricks", "half.h: float32_to_float16, float16_to_float32")], ["value of the converted number"])
prop("H02", "Half-precision operators equal single-precision arithmetic rounded once",
 "Every arithmetic, comparison, compound-assignment, increment and negation operator of the half type, with a half, float, double or integer right-hand side, gives the result of performing the operation in single precision (or the promoted type) and rounding the result once to half precision. Comparisons follow IEEE-754, including NaN and signed zeros.",
 "inputs", "all bit patterns of both operands, every operator and operand type", "Tests use a few pairs of values.",
 "include/drjit-core/half.h", [("operators", "half.h")], ["value of the result"])
prop("H03", "The bundled vector, owning pointer and tuple behave like their std models",
 "Every sequence of operations on the bundled vector, unique pointer and tuple types leaves the contents, size and order that the corresponding standard container would have; every element or owned object is constructed and destroyed exactly once, nothing leaks, and no access leaves the container's storage, also for self-assignment, moves and growth.",
 "histories inputs", "all operation sequences up to the stated length, symbolic element values", "No test of these containers is built here; lifetime errors need particular operation sequences.",
 "include/drjit-core/nanostl.h", [("containers", "nanostl.h: vector, unique_ptr, tuple")], ["element values, sizes, constructor/destructor counts"])
prop("H04", "Bundled string and number formatting and hash functions are exact",
 "Every sequence of operations on the bundled string keeps exactly the characters of the std::string model, always NUL-terminated and inside its storage; converting any integer or pointer to text gives exactly its decimal/hexadecimal representation. Hash helpers return the same value for the same bytes.",
 "histories inputs", "all operation sequences up to the stated length with symbolic characters; every value of the formatted integer types", "No test covers these functions here; boundaries (digits, sign, buffer growth) are specific values.",
 "include/drjit-core/nanostl.h src/hash.h", [("string and formatting", "nanostl.h: string, to_string"), ("hashing", "src/hash.h")], ["characters and length of the string"])
prop("M01", "A gather returns exactly the addressed elements, and zero where masked",
 "Gathering from an array returns in every unmasked lane exactly the element addressed by that lane's index and zero in every masked lane, without accessing memory on behalf of masked lanes, whatever their index. This holds for every index type, for literal, symbolic-expression, pending, mapped and evaluated sources, for scalar and array masks, and for packet gathers, which return the consecutive components in order; sources are not modified.",
 "inputs programs", "all values of indices and masks; every form of source, index and mask", NT,
 "src/op.cpp src/llvm_eval.cpp src/llvm_packet.cpp", [("gather front end, literal/re-indexing shortcuts", "src/op.cpp: jitc_var_gather, jitc_var_gather_packet"), ("code generation", "src/llvm_eval.cpp, src/llvm_packet.cpp")], ["contents of the gathered array", "memory accesses"])
prop("M02", "A scatter writes exactly the addressed elements and never alters other arrays",
 "Scattering into an array writes exactly the elements addressed by unmasked lanes with those lanes' values (for colliding lanes, one of them) and leaves every other element as it was, including packet scatters of several components. Other references to the target, expressions built from it earlier and the scattered values keep their old contents.",
 "inputs programs histories", "all values of indices, masks and data; every form of target, index, mask and value", NT,
 "src/op.cpp src/llvm_eval.cpp src/llvm_packet.cpp src/var.cpp", [("scatter front end, copy on write", "src/op.cpp: jitc_var_scatter, jitc_var_scatter_packet"), ("code generation", "src/llvm_eval.cpp, src/llvm_packet.cpp")], ["contents of target and its other references"])
prop("M03", "Scatter-reductions and atomic updates lose and duplicate no contribution",
 "A scatter-reduction (add, min, max, and, or) combines every target element with exactly the contributions of the unmasked lanes that address it, each once, under every strategy (direct, local, conflict-free, expanded, automatic), also when several lanes collide and when earlier writes to the target are still pending. Atomic increments return distinct old values and add the number of lanes; exchange and compare-and-swap return the old element and write exactly the elements they should; masked lanes have no effect and return zero.",
 "inputs programs", "all values of masks and integer data, any collisions; every supported operation, type, strategy and target form", NT,
 "src/op.cpp src/llvm_scatter.cpp src/llvm_ts.cpp src/var.cpp", [("front end and strategy choice", "src/op.cpp: jitc_var_scatter, jitc_var_scatter_inc/exch/cas"), ("code generation", "src/llvm_scatter.cpp"), ("expansion and its reduction", "src/var.cpp: jitc_var_expand, src/llvm_ts.cpp: reduce_expanded")], ["contents of the target", "returned values"])
prop("A06", "Invalid operands are refused without side effects; scalars are broadcast",
 "An operation on operands of incompatible size or type, an out-of-range element access or another invalid call raises an error and leaves every variable (value, size, type, state, reference counts) and all later operations as they were; compatible calls are accepted: operands of size one are broadcast and operations on empty operands are empty. Operations never change the size, value or state of their operands.",
 "inputs programs", "every operation and every combination of operand forms; the listed kinds of invalid calls", "Tests exercise success paths; the combination of a simplification with an operand form that it mishandles is specific.",
 "src/op.cpp src/var.cpp src/api.cpp", [("operand checks", "src/op.cpp: jitc_var_check"), ("size handling of simplifications", "src/op.cpp: jitc_var_resize callers"), ("checks of individual entry points", "src/op.cpp, src/var.cpp")], ["errors raised", "contents, size and reference counts of operands"])
NTR = "Block boundaries, work unit boundaries, partial last blocks and thread schedules only coincide for particular sizes; no reduction test builds here."
prop("R01", "Reductions combine every element of a block exactly once",
 "Reducing an array or each of its blocks (sum, product, minimum, maximum, bitwise and/or) gives for every block, including a partial last one, the combination of exactly its elements, each counted once, with integer wrap-around. The result does not depend on the number of threads, on how work is partitioned or in which order the parts run, on the strategy used, or on whether the operand is a constant, pending expression, evaluated array or raw memory. The operand is left unchanged and nothing outside the output is written.",
 "inputs schedules", "all element values, block sizes that divide the size or not, thread counts, execution orders of the work units, forms of the operand", NTR,
 "src/llvm_red.h src/llvm_ts.cpp src/var.cpp src/init.cpp", [("block reduction and its two-level partition", "src/llvm_ts.cpp: LLVMThreadState::block_reduce"), ("kernels", "src/llvm_red.h"), ("front end, literal shortcuts, scatter strategy", "src/var.cpp: jitc_var_reduce, jitc_var_block_reduce")], ["contents of the reduced array", "memory around it"])
prop("R02", "Prefix reductions give each element the reduction of its predecessors",
 "A prefix reduction gives every element the combination of exactly the elements before it in its block (including itself if inclusive; after it if reversed), the identity for the first element of an exclusive one, with integer wrap-around and restarting at every block. This holds in place or out of place, for constants, pending expressions, arrays and raw memory, for any thread count, partition and execution order; nothing else is modified.",
 "inputs schedules", "all element values, both directions and inclusiveness, block sizes that divide the size or not, thread counts, execution orders", NTR,
 "src/llvm_red.h src/llvm_ts.cpp src/var.cpp", [("two-pass prefix reduction", "src/llvm_ts.cpp: LLVMThreadState::block_prefix_reduce"), ("literal shortcuts", "src/var.cpp: jitc_var_block_prefix_reduce")], ["contents of the result"])
prop("R03", "Compressing a mask returns exactly the active indices in order",
 "Compressing a boolean array returns the indices of exactly its true entries in increasing order and their number, and an empty array when there is none, for every mask, thread count and execution order of the parts, and leaves the mask as it was.",
 "inputs schedules", "all masks, thread counts, execution orders, forms of the mask", NTR,
 "src/llvm_ts.cpp src/var.cpp", [("two-pass compression", "src/llvm_ts.cpp: LLVMThreadState::compress"), ("literal masks", "src/var.cpp: jitc_var_compress")], ["contents and size of the index array"])
prop("R04", "Sorting permutations are valid, stable and describe the buckets",
 "The permutation computed from integer keys permutes each block of the array within itself, places its keys in increasing order and keeps equal keys in their original order; the reported number of non-empty buckets and the offset table (key, start, size) describe exactly the runs of equal keys. This holds for any thread count and execution order; only the outputs are written.",
 "inputs schedules", "all keys in range, block sizes that divide the size or not, thread counts, execution orders", NTR,
 "src/llvm_ts.cpp src/call.cpp", [("counting sort with per-thread histograms", "src/llvm_ts.cpp: LLVMThreadState::block_mkperm")], ["permutation and offsets"])
prop("R05", "Boolean any/all agree with the mask and modify nothing",
 "any() and all() of a boolean array (synchronous or as an array) return the disjunction and conjunction of exactly its elements for every array, form (constant, expression, view of a larger array, mapped memory), thread count and execution order. They modify neither the array nor the memory around it.",
 "inputs schedules", "all boolean arrays up to the bounds, in every form", NTR,
 "src/init.cpp src/var.cpp src/llvm_ts.cpp", [("reduction of packed booleans", "src/init.cpp: ThreadState::block_reduce_bool"), ("front end", "src/var.cpp: jitc_var_any, jitc_var_all")], ["returned booleans", "contents of the array and its parent"])
prop("R06", "Dot products and reductions of odd operands are well defined",
 "A dot product equals the sum of the element-wise products for every operand, form and broadcast of size-one operands, in the array's arithmetic. Reductions of undefined arrays return an array of the right size without touching unrelated memory, those of empty arrays are empty or the neutral boolean, and invalid block sizes, types and operations raise an error that leaves no variable behind.",
 "inputs programs", "all integer element values, every pair of operand forms; the listed odd operands", "Operand forms combine with strategy choices (fused, literal, pending) that tests do not enumerate.",
 "src/var.cpp src/llvm_ts.cpp", [("dot product", "src/var.cpp: jitc_var_reduce_dot"), ("kernel", "src/llvm_ts.cpp: LLVMThreadState::reduce_dot")], ["value of the result", "errors", "reference counts"])
prop("R07", "Bulk fills and copies write exactly the given range",
 "Filling memory writes the given 1, 2, 4 or 8 byte value to exactly the requested number of elements, copying moves exactly the requested bytes, synchronous or not, for every length and thread count; other element sizes are refused without writing anything.",
 "inputs schedules", "all byte values, lengths, element sizes, thread counts", "Boundaries of the split into work units are specific lengths.",
 "src/llvm_ts.cpp src/init.cpp src/api.cpp", [("fill and copy", "src/llvm_ts.cpp: LLVMThreadState::memset_async, memcpy, memcpy_async")], ["bytes in and around the range"])
prop("R08", "Batched matrix products are exact for every shape, layout and reduction",
 "A batched matrix product computes, for every batch, transpose combination, batch layout and summed-over batch dimension, the exact sum of products of its operands (in the arithmetic of the element type) and writes exactly the result matrices, for every thread count and execution order. Sizes that cross tile and panel boundaries, empty dimensions (zero results) and single rows or columns are no exception; invalid descriptions are refused without writing anything.",
 "inputs schedules", "all shapes up to the bounds, layouts, transpositions, thread counts and orders; exactly summable entries", "Tile, panel and work-unit remainders only occur for particular shapes.",
 "src/llvm_gemm.h src/llvm_ts.cpp src/api.cpp", [("packing, micro kernel and partition", "src/llvm_gemm.h")], ["contents of the result matrices", "memory around them"])
prop("M04", "Copies, views, reads and writes of arrays are exact and independent",
 "Copying, tiling, repeating, reversing, shrinking, resizing, migrating, evaluating, reading and writing single elements and obtaining the data pointer of an array give exactly the described values for every form the array can be in (literal, expression, pending or dirty, mapped, shared, view, undefined). A copy is independent of its source: writing to one never changes the other, expressions built from it, or other references.",
 "inputs histories", "all element values, all pairs of array form and operation", NT,
 "src/var.cpp src/api.cpp src/op.cpp", [("copies and views", "src/var.cpp: jitc_var_copy, jitc_var_shrink, jitc_var_data, jitc_var_migrate, jitc_var_resize"), ("element access", "src/var.cpp: jitc_var_read, jitc_var_write")], ["contents of every array involved"])
prop("M05", "Every history of operations equals its sequential execution",
 "Any sequence of evaluations, scatters, gathers, scatter-reductions, expressions, element reads and writes, copies, reductions and reference exchanges leaves every array with the contents it would have if each operation had been carried out at once in program order. When and whether evaluation happens is unobservable, and older handles keep the values they had.",
 "histories inputs", "all histories up to the stated length, all element values", "Errors of ordering need a specific sequence of operations with pending side effects.",
 "src/var.cpp src/op.cpp src/eval.cpp", [("dirty/pending state and copy on write", "src/var.cpp: jitc_var_schedule, jitc_var_eval; src/op.cpp: jitc_var_scatter"), ("grouping and ordering of kernels", "src/eval.cpp: jitc_eval")], ["contents of all arrays after each history"])
NTC = "Control flow is recorded as program structure; the combination of simplification, divergence and side effects is specific, and the loop tests are not built here."
prop("L01", "Symbolic loops compute what the per-lane sequential loop computes",
 "A recorded loop leaves every state variable in every lane with exactly the value obtained by running the loop body in that lane as long as its condition holds, and performs the body's side effects exactly once per active iteration and lane. Loop optimisation (removal of invariant, unused or duplicate state), nesting, zero iterations and divergent trip counts change nothing; refused or abandoned recordings leave no trace.",
 "inputs programs", "all data and per-lane trip counts up to the bound; all listed loop forms and state types", NTC,
 "src/loop.cpp src/llvm_eval.cpp src/eval.cpp", [("recording and optimisation", "src/loop.cpp: jitc_var_loop, jitc_var_loop_cond"), ("code generation", "src/llvm_eval.cpp: loop blocks and phi nodes")], ["loop results", "targets of side effects"])
prop("L02", "Symbolic conditionals execute exactly the branch chosen in each lane",
 "A recorded conditional yields in each lane the result of the branch its condition selects, and only lanes that select a branch perform that branch's side effects and memory reads. This holds for literal, scalar, evaluated and computed conditions, for results that are captured, literal, scalar or unchanged, for nesting with loops and conditionals, and when only some of the results are used or are used by several kernels.",
 "inputs programs", "all conditions per lane and all data; all listed forms", NTC,
 "src/cond.cpp src/llvm_eval.cpp src/eval.cpp", [("recording", "src/cond.cpp: jitc_var_cond_start, jitc_var_cond_append, jitc_var_cond_end"), ("code generation and register assignment", "src/llvm_eval.cpp, src/eval.cpp")], ["results", "targets of side effects"])
prop("L03", "Indirect calls run exactly the referenced instance's code in each lane",
 "A recorded call through an array of instance references gives every active lane the outputs that the function of the instance it references computes from that lane's inputs and from that instance's captured data, and zero for null references and masked lanes; side effects happen once per active lane. Merging of identical functions, hoisting of uniform results, getters, nesting with calls and loops, gaps in instance IDs and the optimisation flags change nothing.",
 "inputs programs", "all references, masks, inputs and captured data; all listed forms of call", "Dispatch tables, data offsets and merging depend on the set of instances and their captured data; the call tests are not built here.",
 "src/call.cpp src/llvm_eval.cpp src/eval.cpp src/registry.cpp", [("recording, merging and data layout", "src/call.cpp: jitc_var_call, jitc_var_call_analyze, jitc_var_call_assemble"), ("dispatch code", "src/llvm_eval.cpp, src/call.cpp: jitc_var_call_assemble_llvm")], ["outputs of the call", "targets of side effects"])
prop("L04", "Local arrays behave like one private array per lane",
 "A read of a local array (jit_array_*) returns, in every lane, what the operations leading to that array handle last wrote to the selected element in that lane. Writes never affect other handles, lanes or elements, masked writes change nothing, masked reads give zero, and the element type, literal, scalar or diverging offsets, evaluation in between, loops, conditionals, selections and scalar arrays change nothing. Out-of-range literal offsets and incompatible operands are refused.",
 "inputs programs histories", "all element values, offsets and masks; all histories of the listed operations within the bounds", "Copies are elided by a state machine over the schedule, so one access pattern can expose stale or shared storage that another hides.",
 "src/array.cpp src/llvm_array.cpp src/loop.cpp src/cond.cpp src/op.cpp", [("recording and copy elision", "src/array.cpp: jitc_array_read, jitc_array_write, jitc_process_array_op"), ("code generation", "src/llvm_array.cpp: jitc_llvm_render_array_*")], ["values read"])
prop("L05", "The mask stack disables exactly the masked-off lanes",
 "While a mask is on the mask stack (jit_var_mask_push), scatters, gathers, atomic operations, packet operations and local array writes act in exactly those lanes that are enabled by the top of the stack and by the operation's own mask, whatever form these masks have (evaluated, scalar, literal, computed, evaluated later, nested with jit_var_mask_apply) and also inside loops and conditionals; lanes beyond the end of an array never act. Masks are not modified, popping restores the previous state, and underflow or non-boolean masks are refused.",
 "inputs programs", "all masks, data and indices, all pairs of mask form and operation", "Whether a lane acts depends on the form of two masks and on the width of the operation; tests use one form.",
 "src/var.cpp src/op.cpp src/array.cpp", [("combining masks", "src/var.cpp: jitc_var_mask_apply, jitc_var_mask_default"), ("uses", "src/op.cpp: jitc_var_scatter, jitc_var_gather, jitc_var_scatter_inc, jitc_var_scatter_exch, jitc_var_scatter_cas")], ["targets of side effects", "gathered values of enabled lanes"])
prop("M06", "Allocations are disjoint, keep their contents and account for memory",
 "Every allocation (jit_malloc) is aligned, has at least the requested size, overlaps no other live allocation, and keeps its contents until it is released, also while released memory that queued work still uses is waiting to be reused. Copies and migrations (jit_malloc_migrate) carry the contents over in the order of the queue, the peak usage is never below the memory in use, and requests that cannot be satisfied raise an error without any other effect; memory that was released or is foreign is refused.",
 "histories inputs fault_sequences", "all histories of allocating, releasing, flushing, migrating and copying within the bounds, all contents, sizes and both extremes of when queued work runs; exhaustion at each attempt", "Reuse of memory in use, rounding and failures of the system allocator need a particular history or size.",
 "src/malloc.cpp src/malloc.h src/api.cpp", [("allocation cache and size classes", "src/malloc.cpp: jitc_malloc, jitc_free, jitc_flush_malloc_cache; src/malloc.h"), ("migration", "src/malloc.cpp: jitc_malloc_migrate")], ["contents of allocations", "statistics", "errors"])
prop("T01", "Variables live exactly as long as they are referenced",
 "A variable (and whatever it depends on) exists exactly as long as it is referenced by the user or needed by another live variable: its callback reports its release exactly once, at that time, and an evaluation it took part in once. Stashing reference counts never makes a write modify other references; replacing, removing or releasing inside callbacks, labels and prefixes, expired stashes and refused operations leave counts, labels and other variables as described.",
 "histories inputs", "all histories of creating, combining, dropping, aliasing and evaluating within the bounds, all data, all label bytes within the bounds", "The release of internal variables is a chain of counters; an error shows for one particular sharing or order only.",
 "src/var.cpp src/eval.cpp src/api.cpp", [("reference counting and release", "src/var.cpp: jitc_var_free, jitc_var_dec_ref, jitc_var_stash_ref"), ("callbacks", "src/eval.cpp: jitc_eval; src/var.cpp: jitc_var_set_callback"), ("labels", "src/var.cpp: jitc_var_set_label; src/api.cpp: jit_var_set_label, jit_prefix_push")], ["callbacks", "contents of the arrays", "labels"])
prop("T02", "The instance registry assigns unique identifiers and resolves them",
 "Every registered pointer gets an identifier that is positive, unique among the live instances of its domain and variant and stays the same until removal; looking it up by identifier or by pointer returns exactly what was registered, and null or zero for anything else. Identifiers of removed instances are reused smallest first, the bound returned for a domain covers all its identifiers, domains and variants do not affect each other, and double, null and unknown pointers are refused without effect.",
 "histories inputs", "all histories of registering, removing and clearing within the bounds, with up to 132 further instances; every identifier looked up", "Identifier reuse and table growth depend on the history of insertions and removals.",
 "src/registry.cpp", [("identifier assignment and reuse", "src/registry.cpp: jitc_registry_put, jitc_registry_remove"), ("lookup", "src/registry.cpp: jitc_registry_id, jitc_registry_ptr, jitc_registry_id_bound")], ["identifiers, pointers and domains returned"])
prop("T04", "When queued work runs cannot be observed, only its results can",
 "Work submitted asynchronously (kernels, reductions, copies, scatters, calls, replays of frozen functions) may run any time later, and in any order its dependencies permit: every result obtained after synchronising is the same as if it had been carried out at once. Memory, temporary data and callbacks used by queued work remain valid until it has run, host memory passed in is not read later than documented, and functions that return values wait for the work that produces them.",
 "schedules inputs", "all data; the schedules in which each task is delayed as long as its dependents allow, with several worker identities and orders of work units", "Tests run with a scheduler that is mostly ahead of the caller; missing waits and dependencies need a late worker.",
 "src/llvm_ts.cpp src/init.cpp src/util.cpp src/eval.cpp src/malloc.cpp src/var.cpp src/call.cpp src/record_ts.cpp", [("task submission and ordering", "src/llvm_ts.cpp: LLVMThreadState::launch, submit_cpu, enqueue_host_func; src/util.cpp"), ("waiting", "src/init.cpp: jitc_sync_thread; src/var.cpp: jitc_var_read, jitc_var_any")], ["values obtained after synchronising", "memory safety of queued work"])
prop("F01", "A replayed frozen function equals executing the function again",
 "Replaying a recorded function (jit_freeze_start/stop/replay) with other inputs yields exactly the outputs and side effects that executing the function again with these inputs would have, for inputs of the recorded and of other supported sizes, any number of times, with kernels and memory flushed in between, and leaves its inputs as they were. Functions that cannot be replayed are refused (when recorded or replayed) rather than giving other results; abandoned, discarded and refused recordings leave no trace.",
 "programs inputs histories", "all input values of each round, pairs of sizes within the bounds, all listed functions", "Dependence on recorded sizes, pointers or literals only shows when replaying with different ones; the freezing tests are not built here.",
 "src/record_ts.cpp src/record_ts.h src/api.cpp", [("recording", "src/record_ts.cpp: RecordThreadState"), ("replay", "src/record_ts.cpp: Recording::replay"), ("interface", "src/api.cpp: jit_freeze_start, jit_freeze_stop, jit_freeze_replay, jit_freeze_dry_run")], ["outputs of the replay", "contents of inputs and targets of side effects", "errors"])
NAR = "The code is %s, which is outside the configuration that builds here (%s) and whose result is only defined by a vendor compiler and GPU: neither an executable kernel nor a semantics of the target instruction set is available offline to encode. The backend-independent parts (tracing, evaluation, control flow) are decided with the LLVM backend."
prop("N01", "Generated CUDA/PTX kernels compute the same values as the LLVM kernels",
 "Kernels generated for the CUDA backend and its launch, reduction and memory routines compute for every input what the corresponding operations are documented to compute.",
 "inputs programs", "all programs and inputs", "No GPU in the test environment.", "src/cuda_eval.cpp src/cuda_ts.cpp", [("PTX generation", "src/cuda_eval.cpp"), ("launches", "src/cuda_ts.cpp")], ["contents of the arrays"], check=False, reason=NAR % ("a generator of PTX text and driver API calls", "libcuda is absent"))
prop("N02", "OptiX ray tracing calls return the driver's hit records per lane",
 "Ray tracing operations trace exactly the active lanes' rays and return the fields of the hit records of that lane.",
 "inputs programs", "all scenes and rays", "Needs an RTX driver.", "src/optix_core.cpp src/optix_api.cpp", [("pipeline", "src/optix_core.cpp")], ["hit records"], check=False, reason=NAR % ("a client of the OptiX library", "no OptiX"))
prop("N03", "Generated Metal kernels compute the same values as the LLVM kernels",
 "Kernels generated for the Metal backend compute for every input what the corresponding operations are documented to compute.",
 "inputs programs", "all programs and inputs", "Only available on macOS.", "src/metal_eval.cpp src/metal_ts.mm", [("MSL generation", "src/metal_eval.cpp")], ["contents of the arrays"], check=False, reason=NAR % ("a generator of Metal shading language source", "Apple frameworks are absent"))
