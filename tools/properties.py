TRUST = "Trusts the harness's recording host functions and the structural rendering of values; says nothing about inputs that were not generated."
prop("A01", "All execution paths give every program the same observable outcome",
 "For every program the compiler accepts, the tree interpreter, the mid-level interpreter and the optimized mid-level interpreter produce the same final value or the same source failure, call the host's functions in the same order with the same arguments, and leave the host's state the same. None of them crashes on an accepted program. Turning optimization on or choosing another execution path is therefore never observable, other than in time, memory and resource limits.",
 ["programs", "configurations"], "all accepted programs (all language features, standard-library use, host functions, user traits and types), each executed under the three execution configurations",
 "The tests run a fixed list of programs; every optimization pass and every lowering rule applies to unboundedly many combinations of language constructs, failure points and effects that no list samples.",
 ["src/eval.rs", "src/emit_mir.rs", "src/mir/interpreter.rs", "src/mir/pass/mod.rs", "src/mir/const_eval.rs"],
 [("lowering of elaborated HIR to MIR", "src/emit_mir.rs"), ("MIR optimization pipeline", "src/mir/pass/mod.rs"), ("compile-time evaluation", "src/mir/const_eval.rs"), ("MIR interpreter", "src/mir/interpreter.rs"), ("HIR interpreter", "src/eval.rs")],
 "differential runtime monitoring of three execution paths over recorded host-event traces",
 "Programs from a corpus of about 600 real snippets, recombined and mutated at token level with injected host calls, faults and unusual values; every accepted one is executed on all three paths and the recorded traces are compared. " + TRUST,
 observe=["value returned by an entry run", "source failure returned by an entry run", "calls to host functions", "host-backed properties"])
prop("A02", "Programs evaluate as the language defines",
 "Every accepted program computes what the language's rules give: strict left-to-right evaluation, the documented control flow of conditionals, matches, loops, breaks, returns and closures, arithmetic, and by-value semantics of every copy, capture and argument, on every execution path. Its calls to the host happen in the defined order, each exactly once, and the first failure stops it at the defined point with the defined kind of failure.",
 ["programs", "inputs"], "all well-typed programs over the core language (functions, closures, records, tuples, enums, arrays, options, loops, matches, early exits, failures, mutable arguments) and all their inputs",
 "Unit tests assert single results of single snippets; the rules must hold for every nesting of constructs, where order of evaluation, early exits and cleanup interact.",
 ["src/eval.rs", "src/emit_mir.rs", "src/mir/interpreter.rs", "src/types/type_inference/expr.rs", "src/hir/elaboration.rs"],
 [("evaluation of HIR nodes", "src/eval.rs"), ("lowering of control flow and drops", "src/emit_mir.rs"), ("drop and clone elaboration", "src/hir/elaboration.rs"), ("expression inference and desugaring", "src/types/type_inference/expr.rs")],
 "runtime monitoring of generated programs against an independent reference evaluator (event trace, result, host state)",
 "Well-typed programs are generated together with a reference evaluator written from the language documentation; the recorded host trace, the result or failure and the host's state are compared on all three execution paths. " + TRUST,
 observe=["value or failure of an entry run", "host function calls"])

prop("A04", "Every value is destroyed exactly once, and never used after",
 "On every execution path and for every way a program can go (normal completion, early return, break, continue, source failure at any point, unwinding through calls, closures and loops), every value that was created or cloned is destroyed exactly once, by the time the program has ended and its result has been discarded. No destroyed, moved-out or never-initialized value is ever read, cloned, updated or destroyed. User-defined clone and drop operations are run for exactly those values.",
 ["programs", "fault_sequences"], "all accepted programs creating values with user-defined clone and drop operations, held in locals, aggregates, arrays, closures and iterators, with failures raised at any point",
 "Ownership is decided by elaboration and lowering for each combination of construct, exit edge and failure point; tests sample a few, with values whose double destruction or leak has no visible effect.",
 ["src/hir/elaboration.rs", "src/emit_mir.rs", "src/eval.rs", "src/mir/interpreter.rs", "src/mir/pass/owned_arguments.rs"],
 [("drop elaboration", "src/hir/elaboration.rs"), ("cleanup pads and drop obligations", "src/emit_mir.rs"), ("frame unwinding", "src/eval.rs"), ("ownership-based optimization", "src/mir/pass/owned_arguments.rs")],
 "runtime monitoring with lifetime-tracked values: exactly-once destruction automaton per value over clone/use/drop events",
 "Generated programs place lifetime-tracked values (a user type whose clone, use and drop report to the host) in every kind of container and exit; the per-value automaton rejects double drops, uses after drop and leaks on all three execution paths. " + TRUST,
 observe=["clone, use and drop events of tracked values", "values alive after a run"])

prop("A06", "Collections and iterators behave as their mathematical models",
 "Over every history of operations, an array, a set or a map reports exactly the contents its model (a sequence, a finite set, a finite map) has: reads, lengths, membership, lookups, previous values, slices, sorting, concatenation and conversion agree with the model, elements keep their order where order is defined, and copies are independent of their origin. Iterator pipelines yield exactly the elements, in the order, that their definitions give. Equality and hashing of collections depend on contents only, never on the history that produced them.",
 ["histories", "inputs"], "all histories of collection operations over several element types (including ones with colliding and structured keys), and all pipelines of iterator adaptors over them",
 "Growth, wrap-around, rehashing, collision and aliasing behaviour depend on the whole history of a collection; unit tests sample short histories of one operation each.",
 ["src/std/prelude/array.fer", "src/std/prelude/array_type.fer", "src/std/prelude/hash_collections.fer", "src/std/array_type.rs", "src/std/buffer.rs"],
 [("hash table operations", "src/std/prelude/hash_collections.fer"), ("array operations and iterators", "src/std/prelude/array.fer"), ("growable array storage", "src/std/prelude/array_type.fer"), ("raw buffers", "src/std/buffer.rs")],
 "runtime monitoring of generated operation histories against reference collections (model-based online checker)",
 "Histories of operations on several live collections and their copies run in one program; every observation is compared with a reference sequence, set or map, on the three execution paths. " + TRUST,
 observe=["results of collection operations", "contents, equality and hash of collections"])

prop("A14", "Arithmetic gives the documented mathematical results",
 "For all operands, integer arithmetic is two's complement 64-bit arithmetic, floating point arithmetic is IEEE double arithmetic kept finite, comparisons are total orders, and bitwise operations, rounding, conversions and elementary functions give their documented results. Operations outside their domain (division or remainder by zero, logarithm or root of a negative number, and so on) end in the documented runtime failure, and never in a wrong value or a crash. Results do not depend on whether operands are literals, variables, parameters or run-time inputs, nor on the execution path.",
 ["inputs"], "all operand values, including the extremes of each type, and all nestings of operations over literals, variables and run-time inputs",
 "Overflow, sign, rounding and domain corner cases are a vanishing part of the operand space, and constant evaluation and compilation take different paths for them; unit tests sample a few friendly operands.",
 ["src/std/math.rs", "src/std/cast.rs", "src/std/prelude/core_impls.fer"],
 [("arithmetic primitives", "src/std/math.rs"), ("conversions", "src/std/cast.rs"), ("numeric literals", "src/parser/helpers.rs")],
 "runtime monitoring of generated arithmetic against a reference evaluation (online checker of results and failures)",
 "Generated programs evaluate nested arithmetic over extreme and ordinary operands; every value and failure is compared with the reference's, on the three execution paths. " + TRUST,
 observe=["values and failures of arithmetic expressions"])

prop("A03", "Inferred effects cover every effect a run has",
 "Whenever running a program or one of its functions reads host state, writes host state or fails, the effects inferred for it (read, write, fallible) include that effect, through direct and indirect calls, closures passed to generic functions, trait methods, iterators and record access. A function whose inferred effects are empty therefore never touches the host and never fails.",
 ["programs"], "all accepted programs that call effectful host functions and fallible operations from any expression position, directly or through closures, generic functions, trait implementations and iterator adaptors",
 "Effects flow through unification variables, trait outputs and late-solved constraints; which inclusion is dropped depends on the combination of constructs, and tests state the effects of a few hand-written signatures.",
 ["src/types/effects.rs", "src/types/type_inference/effect_solver.rs", "src/types/type_inference/unify.rs", "src/hir/emit_functions.rs", "src/hir/emit_expr.rs"],
 [("effect constraint solving", "src/types/type_inference/effect_solver.rs"), ("effects of expressions and functions", "src/types/type_inference/expr.rs")],
 "runtime monitoring: effects observed in the run (host event log, failures) against the inferred effects",
 "Every host access and failure of a run is recorded by the host functions and compared with the signature the compiler inferred. Effects that a run does not exercise are not judged: an inferred effect that never happens is allowed. " + TRUST,
 observe=["host reads and writes of each run", "language failures of each run", "inferred effect sets"])

prop("A09", "The stored standard library never changes what users see",
 "Whether the standard library is compiled from source or loaded from the stored file, every program text gets the same diagnostics, types, listings, run results and failure texts. Whatever the cache directory contains or does (absent, empty, cut, altered or foreign files, obstructed paths, failed writes, killed or concurrent writers), the start succeeds with the same behaviour, and a file under the final name is complete at every instant. A file stored by one start is used, not rewritten, by the next start of the same build.",
 ["crash points", "inputs"], "all contents and states of the cache directory, points at which a writer is killed, numbers of concurrent starts, and program texts",
 "Damage, killed writers and racing processes occur at arbitrary points, and anything the stored form leaves out shows only in the program texts that use it.",
 ["src/compiler/snapshot/cache.rs", "src/compiler/snapshot/std_snapshot.rs", "src/compiler/snapshot/envelope.rs", "src/compiler/snapshot/mod.rs", "src/std/mod.rs"],
 [("cache file publication and validation", "src/compiler/snapshot/cache.rs"), ("stored form of the standard library", "src/compiler/snapshot/std_snapshot.rs")],
 "runtime monitoring of cold and warm starts under injected storage faults (differential, file watcher)",
 "Processes are started on prepared, damaged and contended cache directories; the digest of their standard library and of probe programs must be the reference's, and a watcher samples the file under the final name. Program texts are answered by a process that compiled the library and by one that loaded it. Writers are killed at sampled delays, not at every instruction. " + TRUST,
 observe=["digest of the library in use after each start", "bytes under the final name while writers run", "answers to program texts of both kinds of process"], level="fault_enumeration")

prop("A12", "Equality, hashing and text of values follow their structure",
 "For values of every type (scalars, tuples, records, structs, enums, generic types, arrays, options, sets, maps, and types with their own equality), equality holds exactly when the values have the same structure and equal parts, inequality is its negation, and equal values have equal hashes and find each other in sets, maps and arrays. Their text is their documented rendering, built from their parts. All this is the same whether the type is known at the call or reached through a generic function.",
 ["inputs"], "all types built from scalars, products, sums, collections, generic declarations and types with a custom equality, and all pairs of equal, nearly equal or different values of them",
 "The implementations are derived by the compiler separately for each type, so their correctness is a statement about an unbounded family of generated functions; unit tests look at a handful of types.",
 ["src/std/value.rs", "src/std/product_value_deriver.rs", "src/std/hash.rs", "src/std/prelude/hash_collections.fer"],
 [("derivation of value implementations", "src/std/value.rs"), ("hashing", "src/std/hash.rs")],
 "runtime monitoring of generated types and values against structural equality and rendering (online checker)",
 "Generated declarations and pairs of values; equality, hashes, lookups and text observed at run time are compared with a reference computed on the values' structure, on the three execution paths. " + TRUST,
 observe=["results of comparisons, hashes, lookups and text conversion"])

prop("A13", "Serialization round-trips and refuses malformed or mismatched data",
 "For every value of a serializable type, encoding to a data value, to JSON or to data text gives the documented form, and decoding it at the same type gives back an equal value. Decoding any text whatsoever either gives the value that its documented grammar and the expected type determine, or ends in a runtime failure; it never gives another value.",
 ["inputs"], "all serializable types (products, sums, options, arrays, sets, maps, generic declarations), their values, and all JSON and data texts, well-formed or corrupted",
 "Encoders and decoders are derived per type and the set of hostile texts is unbounded; unit tests try one text per feature.",
 ["src/std/serde.rs", "src/std/json.rs", "src/std/data_text.rs", "src/std/prelude/serde_impl.fer", "src/std/prelude/json.fer", "src/std/prelude/data_text.fer"],
 [("derived serialization", "src/std/serde.rs"), ("data text parser", "src/std/data_text.rs"), ("JSON reader", "src/std/json.rs"), ("codecs", "src/std/prelude/serde_impl.fer")],
 "runtime monitoring of round trips and of decoding hostile text against reference encoders, parsers and decoders (online checker)",
 "Generated types and values are encoded and decoded; valid, restyled, structurally changed and corrupted texts are decoded and the outcome compared with a reference parser and type-directed decoder. " + TRUST,
 observe=["encoded text", "decoded values", "failures of decoding"])

prop("A15", "Strings are normalized values measured in user-perceived characters",
 "For all strings, every operation (literals, interpolation, appending, concatenation, slicing, replacement, trimming, case mapping, searching, splitting, iteration, comparison, hashing, parsing of numbers and booleans) gives its documented result on canonically composed text, where lengths, positions and pieces count user-perceived characters. The result of any operation is itself in canonical composition, so canonically equivalent texts are equal however they were built. A string is a value: changing one, in place or in a loop, never changes another that was copied, stored or captured from it.",
 ["inputs"], "all texts, including combining marks, jamo, emoji sequences, line ends and characters whose case mapping changes length, all positions, and all sequences of operations that build and change strings",
 "Joining two texts can compose, cluster or split characters across the boundary, and strings share storage until they are changed; both show only on particular characters and histories, of which unit tests have a few.",
 ["src/std/string.rs", "src/desugar/format_string.rs", "src/mir/pass/string_accumulate.rs", "src/parser/escapes.rs"],
 [("string operations", "src/std/string.rs"), ("interpolation", "src/desugar/format_string.rs"), ("in-place accumulation", "src/mir/pass/string_accumulate.rs")],
 "runtime monitoring of generated text programs against a Unicode reference (online checker)",
 "Generated programs build, change, copy, cut, search and compare strings over an alphabet of combining, clustering and case-changing characters; every result is compared with the reference's, on the three execution paths. " + TRUST,
 observe=["text, lengths, positions, comparisons and pieces of strings"])

prop("A07", "Every run is stopped within its resource limits, at a clean point",
 "Every run of accepted code under a limit on executed work ends: it either gives exactly the outcome it has without the limit or is stopped with a sandbox violation that no program code can intercept, and a run that loops, iterates or recurses without end is always stopped. What a stopped run has done until then is a prefix of what the unlimited run does, and nothing of the program runs after the stop. Raising a limit never turns a completed run into a stopped one, the point of the stop is the same every time, and the session remains usable.",
 ["programs", "configurations"], "all accepted programs, terminating or not, all values of the limits on work, cells and call depth, and the three execution paths",
 "A missing check in one loop shape, iterator or optimization lets hostile code run forever; whether that happens depends on the program's control flow after lowering and optimization, of which unit tests have a few shapes.",
 ["src/eval.rs", "src/emit_mir.rs", "src/mir/interpreter.rs", "src/hir/elaboration.rs"],
 [("insertion of work and depth checks", "src/hir/elaboration.rs"), ("limits in the tree interpreter", "src/eval.rs"), ("limits in the MIR interpreter", "src/mir/interpreter.rs")],
 "runtime monitoring of limited runs against unlimited ones (prefix checker over host traces, bounded-rate monitor, process monitor)",
 "Generated endless programs must be stopped under several limits with traces that are prefixes of each other; finite programs under random limits must give their unlimited outcome or a prefix of its trace. " + TRUST,
 observe=["outcome of a run under limits", "host calls made before a stop"])

prop("A08", "Any text gets an answer whose positions lie inside it",
 "For any text whatsoever, compiling it ends either in acceptance or in at least one diagnostic, and never in a crash or an endless compilation. Every position reported (diagnostics, type annotations) lies inside the text it speaks about, on a character boundary and with its start not after its end, and the same text gets the same answer when asked again. An error placed behind a correct program is reported at the place where it is, and the compiler goes on working normally after any rejected text.",
 ["inputs", "histories"], "all texts, valid, damaged, truncated, with undeclared names, deeply nested or random, in any order in one long-lived compiler session, in both position encodings",
 "The space of wrong programs is unbounded, editors submit each intermediate keystroke, and a crash or a wrong position needs a particular combination of errors and multi-byte characters; unit tests check one message per kind of error.",
 ["src/ide/compiler.rs", "src/ide/annotations.rs", "src/parser/mod.rs", "src/types/type_inference/expr.rs"],
 [("editor service", "src/ide/compiler.rs"), ("error reporting", "src/compiler/diagnostics.rs"), ("parsing with recovery", "src/parser/mod.rs"), ("type inference", "src/types/type_inference/expr.rs")],
 "runtime monitoring of the compiler under hostile text (crash, hang and position monitors; planted-error oracle; recovery probe)",
 "Mutated, damaged, truncated, glued, nested and random texts go through one long-lived session per worker; each answer is checked for form and position, repeated, and followed by a known program. " + TRUST,
 observe=["acceptance or diagnostics of a text", "positions of diagnostics and type annotations"])

prop("A10", "A module offered as current equals one compiled afresh",
 "After any history of compiling and revising modules of a session, a module that the session offers as current behaves exactly as in a fresh session that is given only the present sources, and is never one that the fresh session would reject. A module whose dependency changed incompatibly, disappeared, became private or broke is not offered as current until it compiles again, and compiling everything anew makes current everything that a fresh session accepts. A source's version changes exactly when its text does, and every compilation gets a higher revision.",
 ["histories"], "all histories of compilations and source updates of a few modules that use each other's functions, generic functions, types, traits and mutable-argument functions, with changed signatures, layouts, bodies, visibility, missing items and errors",
 "What must be recompiled, relinked or marked out of date depends on the whole history of revisions and on what was built and run between them; unit tests follow short fixed histories.",
 ["src/compiler/pipeline.rs", "src/compiler/session.rs", "src/compiler/artifacts.rs", "src/module/mod.rs"],
 [("recompilation and staleness", "src/compiler/pipeline.rs"), ("module table", "src/module/mod.rs")],
 "runtime monitoring of session histories against a fresh session (differential history checker)",
 "Random histories over two to five modules; at random points each current module is run on the execution paths and compared with a fresh session compiled from the present sources. " + TRUST,
 observe=["outcome and host calls of current modules", "whether a module is offered as current", "source versions and revisions"])

prop("A17", "Matching and destructuring select and bind what the value is",
 "For every value and every accepted match, exactly the first arm whose pattern fits the value runs, its names are bound to exactly the parts of the value as it was when it was matched, and no other arm has any effect; destructuring in let and for binds each name to the corresponding part. A match that leaves a value uncovered, and a pattern that names a variant, field or number of parts that the type does not have, is rejected at compile time.",
 ["programs", "inputs"], "all types built from variants, tuples, records and literals, all their values, and all sequences of patterns over them, complete or not",
 "Selection, exhaustiveness and binding are computed per combination of type and arms, with layouts differing between paths; unit tests match a handful of types with friendly patterns.",
 ["src/hir/match.rs", "src/desugar/patterns.rs", "src/types/type_inference/expr.rs", "src/emit_mir.rs"],
 [("matches", "src/hir/match.rs"), ("destructuring patterns", "src/desugar/patterns.rs")],
 "runtime monitoring of generated matches against a reference matcher (online checker of selected arm, bindings and effects)",
 "Generated types, values and patterns, with scrutinees that have effects or change inside the arm; selected arms and bindings are compared with a reference on the three execution paths; faulty matches must be rejected. " + TRUST,
 observe=["selected arms and bound values", "rejection of incomplete or ill-formed patterns"])
prop("A16", "What is not declared mutable never changes; writers never overlap",
 "In an accepted program, a value reached through a name that is not declared mutable (a let, loop, pattern or capture binding, a parameter passed by value) never changes during the life of that name, however long the chain of functions, closures, generic code and trait methods that writes, and a legal write changes exactly the place written. A program that would write through an immutable name, or that passes two overlapping places of one variable as mutable arguments of one call, is rejected, while disjoint places are accepted and value arguments are snapshots taken before the call.",
 ["programs", "inputs"], "all chains of functions, closures, generic functions, traits and implementations through which a place can be passed, all place paths and all binding forms",
 "Mutability is inferred through constraints between functions that do not know each other and overlap is decided on paths with literal and computed steps; unit tests check single steps of the chain.",
 ["src/types/type_inference/expr.rs", "src/types/mutability.rs", "src/hir/borrow_checker.rs", "src/hir/elaboration.rs"],
 [("overlap of mutable arguments", "src/hir/borrow_checker.rs"), ("mutability inference", "src/types/mutability.rs")],
 "runtime monitoring of generated write chains against a reference model of places (online checker of all observed values, and of rejection)",
 "Generated declarations and chains of writers over records, tuples, arrays and structs; every name is shown after every write and compared with a reference on the three execution paths; each program that writes an immutable name or overlaps mutable arguments must be rejected. " + TRUST,
 observe=["values of all names after each write", "rejection of writes to immutable names and of overlapping mutable arguments"])
prop("A05", "A program is accepted only when every use fits its type",
 "A program in which a value of one type stands where another type is required (argument, result, branch, element, field, payload, callback, captured or generic position, operator, constraint, pattern, declaration), or whose use has another shape than the thing used, is rejected at compile time with an error and never runs, however the value and the requirement are connected. The same program with a value of the required type is accepted and gives the same value on every execution path.",
 ["programs"], "all types, all positions that require a type, and all constructs that carry a value or a requirement to them",
 "Acceptance is decided by constraint solving over the whole program, where a dropped, reordered or too lenient constraint shows only for some combination of construct, type and position; tests hold a list of single errors.",
 ["src/types/type_inference/unify.rs", "src/types/type_inference/expr.rs", "src/hir/elaboration.rs", "src/types/trait_solver.rs"],
 [("unification", "src/types/type_inference/unify.rs"), ("expression typing", "src/types/type_inference/expr.rs")],
 "runtime monitoring of pairs of generated programs, one right and one wrong by construction (oracle on acceptance and on the value observed at run time)",
 "Values of generated types, carried through random constructs to a position that requires their type; the twin has a value of another type. The right program must be accepted and show the value on the three execution paths, the wrong one must be rejected with an error. " + TRUST,
 observe=["acceptance of right programs and their values", "rejection of wrong programs"])
