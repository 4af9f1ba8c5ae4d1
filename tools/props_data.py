def q(over, text): return {"over": over, "text": text}
def a(files, *mech): return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
PROPS = []
def P(id, title, statement, quant, why, anchors, technique, note, level="exploration"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=quant, why_tests_cant=why,
                      anchors=anchors, technique=technique, note=note, level=level))

REF = "differential runtime oracle: compiled programs executed and compared with a reference evaluator of the language"

P("C01", "Field and boolean expressions compute the documented values",
  "For every program over field elements and booleans, a successful execution returns exactly what the language defines "
  "for the given inputs: arithmetic modulo the curve's prime, division by a non-zero value, powers, comparisons of the canonical "
  "representatives, lazy conditionals and assignments. An execution that has a defined result is not rejected.",
  q(["programs", "inputs"], "all programs over field and bool, all inputs, all six curves"),
  "Tests fix a few dozen programs and inputs; the interaction of constant folding, definition inlining and flattening depends on the program's shape.",
  a(["zokrates_codegen/src/lib.rs", "zokrates_analysis/src/propagation.rs", "zokrates_interpreter/src/lib.rs"],
    ("flattening of expressions to constraints", "zokrates_codegen/src/lib.rs"), ("constant propagation", "zokrates_analysis/src/propagation.rs")),
  REF, "Random well-typed programs and edge-heavy inputs; each run's outputs and witness are judged by an independent evaluator. Sampling, not exhaustive.")
P("C02", "Unsigned integers follow exact modular arithmetic at every width",
  "For u8, u16, u32 and u64, every operator (wrapping addition, subtraction, multiplication, division, remainder, bitwise operators, shifts, "
  "comparisons) returns the exact result modulo two to the width, in any combination and nesting. A defined execution never fails.",
  q(["programs", "inputs"], "all programs over unsigned integers and bool, all operand values, all curves"),
  "The compiler delays range reduction and caches bit decompositions across expressions; whether a result is reduced depends on the whole program.",
  a(["zokrates_analysis/src/uint_optimizer.rs", "zokrates_codegen/src/lib.rs", "zokrates_analysis/src/propagation.rs"],
    ("delayed range reduction", "zokrates_analysis/src/uint_optimizer.rs"), ("bit decomposition cache", "zokrates_codegen/src/lib.rs")),
  REF, "As C01, for unsigned integers.")
P("C03", "Arrays, structs, tuples, functions and loops have value semantics",
  "Reads, writes, slices, spreads, nested updates, constant and input-dependent indices of arrays, structs and tuples, calls of generic functions, "
  "shadowed and mutable variables, loops and constants return what a direct evaluation of the source returns. "
  "Assigning one variable never changes another.",
  q(["programs", "inputs"], "all terminating programs with composite types, functions and loops, all inputs"),
  "Composite values are flattened, renamed and unrolled by several passes whose mistakes appear only in particular combinations.",
  a(["zokrates_analysis/src/reducer/mod.rs", "zokrates_analysis/src/flatten_complex_types.rs", "zokrates_analysis/src/variable_write_remover.rs"],
    ("inlining and unrolling", "zokrates_analysis/src/reducer/mod.rs"), ("flattening of composite types", "zokrates_analysis/src/flatten_complex_types.rs")),
  REF, "As C01, for composite types, functions and loops.")

P("C04", "Failing assertions and forbidden operations refuse the execution",
  "An execution that violates an assertion, divides by zero, takes a remainder by zero, inverts zero or accesses an array out of bounds "
  "is refused: no witness is produced, and a failing user assertion is reported as that assertion. No assignment of the compiled relation "
  "accepts such inputs. An access that stays within bounds is never refused.",
  q(["programs", "inputs", "assignments"], "all programs with assertions, divisions and input-dependent indices; all inputs; all assignments of the circuit"),
  "A refusal can be lost by any pass that drops, merges or weakens a constraint; tests look at few failing inputs and never at dishonest witnesses.",
  a(["zokrates_codegen/src/lib.rs", "zokrates_analysis/src/out_of_bounds.rs", "zokrates_analysis/src/panic_extractor.rs", "zokrates_analysis/src/boolean_array_comparator.rs"],
    ("extraction of run-time failures", "zokrates_analysis/src/panic_extractor.rs"), ("out of bounds checks", "zokrates_analysis/src/out_of_bounds.rs"), ("enforced constraints", "zokrates_codegen/src/lib.rs")),
  REF + "; circuits over small primes searched for accepting assignments", "Sampled programs and inputs; refusals are judged by the reference evaluator and the circuit is attacked with dishonest assignments over small primes.")
P("C05", "Constant arguments give the same results as run-time arguments",
  "Replacing inputs of a program by constants of the same value (propagated and folded at compile time) changes neither the result nor whether the "
  "execution is accepted: a defined execution keeps its value and a failing one is still refused, at compile time or at run time.",
  q(["programs", "inputs", "partial constant assignments"], "all programs, all inputs and all subsets of the inputs turned into constants"),
  "Constant folding has its own implementation of every operator; agreement is a relation between two compilations, which no test compares.",
  a(["zokrates_analysis/src/propagation.rs", "zokrates_analysis/src/constant_resolver.rs", "zokrates_analysis/src/reducer/mod.rs"],
    ("constant folding", "zokrates_analysis/src/propagation.rs"), ("function call inlining on constants", "zokrates_analysis/src/reducer/mod.rs")),
  REF, "Each sampled program is compiled with and without constants substituted and both are judged.")
P("C06", "Meaning does not depend on layout, names, comments or file boundaries",
  "Reformatting a program (white space, comments, redundant parentheses), renaming its identifiers to other valid identifiers, or moving its definitions to "
  "imported modules leaves its acceptance by the compiler and the results of all executions unchanged.",
  q(["programs", "rewritings", "inputs"], "all programs and all such rewritings"),
  "It relates two different texts; keyword-prefixed names or odd layout are not in the tests.",
  a(["zokrates_pest_ast/src/lib.rs", "zokrates_parser/src/zokrates.pest", "zokrates_core/src/semantics.rs", "zokrates_core/src/imports.rs"],
    ("grammar", "zokrates_parser/src/zokrates.pest"), ("name resolution and imports", "zokrates_core/src/semantics.rs")),
  "metamorphic runtime oracle: executions of a program and of its rewritings compared, and judged by a reference evaluator", "Sampled programs and rewritings.")
P("C07", "Asserting a condition accepts exactly the inputs for which it is true",
  "`assert(c)` accepts an execution if and only if the boolean expression `c`, computed as a value, is true, whatever the form of `c` (comparisons, equalities of composite values, "
  "conjunctions, negations, conditionals), and assertions hold for every witness the circuit admits.",
  q(["boolean expressions", "inputs", "assignments"], "all boolean expressions and inputs"),
  "The compiler flattens asserted conditions along paths separate from computed ones; each path has to agree with the other for every operand.",
  a(["zokrates_codegen/src/lib.rs", "zokrates_analysis/src/condition_redefiner.rs"],
    ("flattening of asserted conditions", "zokrates_codegen/src/lib.rs"), ("redefinition of conditions", "zokrates_analysis/src/condition_redefiner.rs")),
  REF + "; circuits over small primes searched for accepting assignments", "Sampled conditions and inputs.")
SND = "runtime oracle over compiled circuits: constraint systems over small primes searched exhaustively for dishonest assignments, and hostile solvers on the real curves"
P("S01", "The compiled relation determines the outputs from the inputs",
  "For fixed program arguments, every assignment that satisfies the compiled constraints has the same return values as the honest execution: "
  "a prover who does not follow the interpreter cannot prove any other output.",
  q(["programs", "inputs", "assignments"], "all programs without assembly, all inputs, all assignments of all intermediate variables"),
  "A missing or weakened constraint is invisible to honest executions, and tests only run honest executions.",
  a(["zokrates_codegen/src/lib.rs", "zokrates_ast/src/ir/solver_indexer.rs", "zokrates_core/src/optimizer"],
    ("constraints enforcing directives' results", "zokrates_codegen/src/lib.rs"), ("optimizer", "zokrates_core/src/optimizer")),
  SND, "Exhaustive per circuit over primes small enough to enumerate (refuted or a counterexample), heuristic attacks otherwise; programs are sampled.")
P("S02", "Inputs out of their type's range are refused",
  "No execution and no assignment of the circuit is accepted when an argument of type bool is not 0 or 1 or an argument of type uN, alone or inside a composite, is not below two to the N; "
  "arguments within range are never refused for that reason.",
  q(["programs", "parameter types", "inputs", "assignments"], "all signatures, including unused and nested arguments, and all values of the field"),
  "Tests feed well-typed inputs, and the constraint may be optimized away where the argument is unused or used once.",
  a(["zokrates_codegen/src/lib.rs", "zokrates_analysis/src/flatten_complex_types.rs", "zokrates_analysis/src/variable_write_remover.rs"],
    ("constraints on arguments", "zokrates_codegen/src/lib.rs")),
  SND, "Sampled signatures and values, edge-heavy around the bounds.")
P("S03", "Constraints and public inputs of a program agree with its witness",
  "A successful execution satisfies every constraint of the compiled program, the witness assigns every variable, the public values are exactly the public arguments and the return values in order, "
  "and the interpreter refuses if and only if a constraint it evaluates is violated, including after optimization.",
  q(["programs", "inputs", "tampered executions"], "all programs, inputs and wrong results of solvers"),
  "Consistency of three separate components for every program and input.",
  a(["zokrates_interpreter/src/lib.rs", "zokrates_core/src/optimizer", "zokrates_ast/src/ir/mod.rs"],
    ("interpreter", "zokrates_interpreter/src/lib.rs"), ("optimizer", "zokrates_core/src/optimizer"), ("public inputs", "zokrates_ast/src/ir/mod.rs")),
  "online checker over every witness, with fault injection into the solvers", "Sampled programs, inputs and injected wrong values.")
FIL = "offline checker over written files: parsed by independent readers, re-executed, and damaged on purpose"
P("E01", "Compiled programs survive being written to and read from a file",
  "A program written to a file and read back has the same curve, arguments, constraints, solvers, module map and executions; writing it again gives the same bytes. "
  "A truncated or damaged file, or one with another magic or version, is refused with an error or read as some program: never a crash, and never silently as a shorter program.",
  q(["programs", "files", "fault points"], "all programs, every truncation point and every corrupted byte"),
  "Round trips must hold for every program, and damaged files have unboundedly many shapes.",
  a(["zokrates_ast/src/ir/serialize.rs", "zokrates_ast/src/ir/from_flat.rs", "zokrates_ast/src/ir/check.rs"],
    ("program file format", "zokrates_ast/src/ir/serialize.rs")),
  FIL, "Sampled programs, sampled truncation points and corruptions; damage that keeps the file well-formed is only required not to crash.")
P("E02", "Witness files carry every value and nothing else",
  "A witness written to a file, in binary or text form, is read back with the same variables and values; a truncated witness file or a value not below the prime is refused with an error.",
  q(["witnesses", "fault points"], "all witnesses of all curves, every truncation point"),
  "Random values, negative variables ids and every truncation point cannot be enumerated by tests.",
  a(["zokrates_ast/src/ir/witness.rs", "zokrates_field/src/lib.rs"], ("witness format", "zokrates_ast/src/ir/witness.rs")),
  FIL, "Sampled witnesses and truncation points.")
P("E04", "Circom output states the same constraint system",
  "The r1cs and witness files written for circom follow that format: the wires are the constant one, public outputs, public inputs, then private values; every constraint of the program appears once "
  "with the same coefficients; the witness file gives each wire its value and satisfies all constraints.",
  q(["programs", "inputs"], "all programs, inputs and curves"),
  "The mapping of variables to wires depends on the program's shape; unit tests compare two or three fixed programs.",
  a(["zokrates_circom/src/r1cs.rs", "zokrates_circom/src/witness.rs"], ("r1cs writer", "zokrates_circom/src/r1cs.rs"), ("witness writer", "zokrates_circom/src/witness.rs")),
  FIL, "Sampled programs; the position of private wires is only required to agree between both files.")
P("E05", "The SMT-LIB formula is equivalent to the constraint system",
  "The SMT2 output declares every variable and its assertion is true of an assignment exactly when the assignment satisfies the program's constraints (in the field of the chosen curve), with one set to 1.",
  q(["programs", "assignments"], "all programs and all assignments"),
  "Equivalence over all assignments; the tests compare strings for a few programs.",
  a(["zokrates_ast/src/ir/smtlib2.rs"], ("formula writer", "zokrates_ast/src/ir/smtlib2.rs")),
  "offline checker: the formula is parsed and evaluated on honest and dishonest assignments beside the constraints", "Sampled programs and assignments; the formula is evaluated by our own parser, not by a solver.")
P("E06", "The proof system receives the same constraint system and public inputs",
  "Synthesizing a compiled program into bellperson's constraint system yields the same constraints, the public inputs in the same order and the witness's values; a violated constraint of the program is violated there and vice versa.",
  q(["programs", "inputs", "assignments"], "all programs and inputs"),
  "A prover backend that drops or reorders inputs proves another statement; only exact comparison for each program shows it does not.",
  a(["zokrates_bellperson/src/lib.rs"], ("synthesis", "zokrates_bellperson/src/lib.rs")),
  "runtime monitor standing in for the proof system: records every allocation and constraint synthesized", "Sampled programs over the curves bellperson supports.")

P("D01", "Compilation is deterministic and independent of unrelated programs",
  "Compiling the same source with the same configuration gives byte-identical program files and ABI every time, whatever was compiled before, in the same or another thread; "
  "so are the r1cs and SMT2 outputs made from it, and the same inputs always give the same execution.",
  q(["programs", "histories of compilations", "hash seeds"], "all programs of one or several modules, all orders of compilation"),
  "It compares whole outputs over repeated runs with different hash seeds and histories; a proof is only valid against the exact program whose keys were generated.",
  a(["zokrates_core/src/compile.rs", "zokrates_analysis/src/flat_propagation.rs", "zokrates_analysis/src/reducer/mod.rs", "zokrates_codegen/src/lib.rs"],
    ("compilation", "zokrates_core/src/compile.rs"), ("order of extracted statements", "zokrates_analysis/src/out_of_bounds.rs"), ("bit decomposition cache", "zokrates_codegen/src/lib.rs")),
  "online monitor: every output recorded and compared over repeated, threaded and interleaved compilations", "Sampled programs and histories.")
P("E03", "JSON arguments and results denote exactly the values written",
  "Arguments given as JSON against a program's ABI are accepted exactly when each value is a valid literal of its type, and then denote that value; values out of range, of another type, "
  "of another shape, or malformed are refused with an error and never crash. Results decode to the values returned; the ABI describes the signature of main.",
  q(["types", "JSON values"], "all types (nested arrays, structs, tuples), all values and all malformed values"),
  "The space of types and of malformed literals is unbounded; unit tests use a handful.",
  a(["zokrates_abi/src/lib.rs", "zokrates_ast/src/typed/abi.rs", "zokrates_field/src/lib.rs"],
    ("parsing and decoding of values", "zokrates_abi/src/lib.rs"), ("literals of field elements", "zokrates_field/src/lib.rs")),
  "differential runtime oracle: an independent reading of types and literals judges parsing and decoding", "Sampled types and values, hostile mutations of valid JSON.")

STD = "differential runtime oracle: standard library functions executed beside independent implementations"
P("L01", "Standard library hashes compute the functions they are named after",
  "SHA-256 (any number of bits or bytes, and every fixed-size, embedded, packed and single-round variant), Keccak and SHA-3 at each size, BLAKE2s, MiMC-7, MiMCSponge, Poseidon and the Pedersen hash "
  "return the value of the published function for every message and length they accept, whether the message is known when compiling or given at execution.",
  q(["messages", "lengths"], "all messages and lengths each function accepts"),
  "Tests fix one or two messages per function; padding depends on the length modulo the block, values on every bit.",
  a(["zokrates_stdlib/stdlib/hashes", "zokrates_embed/src/bellman.rs"], ("hash functions", "zokrates_stdlib/stdlib/hashes"), ("embedded SHA-256 round", "zokrates_embed/src/bellman.rs")),
  STD, "Sampled messages, lengths concentrated around block boundaries; references checked against published vectors.")
P("L02", "Curve arithmetic and signatures accept exactly what is defined",
  "Addition, negation, scalar multiplication, order, membership and compression of Baby Jubjub points, proof of ownership and EdDSA verification return the mathematical result for every input; a wrong signature, key or point is refused; "
  "a prover cannot make them return another result.",
  q(["points", "scalars", "signatures", "assignments"], "all points, scalars, messages and signatures, all assignments to intermediate variables"),
  "Tests use a few points; the neutral element, points of small order, points off the curve and alternative decompositions need generation.",
  a(["zokrates_stdlib/stdlib/ecc", "zokrates_stdlib/stdlib/signatures"], ("curve gadgets", "zokrates_stdlib/stdlib/ecc"), ("signature", "zokrates_stdlib/stdlib/signatures/verifyEddsa.zok")),
  STD + "; dishonest assignments searched for small gadgets", "Sampled inputs; the search for other outputs covers the gadgets small enough for it.")
P("L03", "Casts, packing and lookups keep every bit and have one result",
  "Conversions between booleans, unsigned integers and field elements, packing and unpacking of any size, comparison and lookup functions of the standard library return the value defined on bits and refuse what does not fit, "
  "for values known when compiling as for inputs; no other result satisfies the constraints, except where the function announces it.",
  q(["values", "sizes", "assignments"], "all values and sizes, all assignments to intermediate variables"),
  "Widths, sizes, curves and values around the field's prime combine; tests use a handful.",
  a(["zokrates_stdlib/stdlib/utils", "zokrates_ast/src/common/embed.rs", "zokrates_analysis/src/propagation.rs"],
    ("casts and packing", "zokrates_stdlib/stdlib/utils"), ("bit decompositions", "zokrates_ast/src/common/embed.rs"), ("constant evaluation of embedded functions", "zokrates_analysis/src/propagation.rs")),
  STD + "; dishonest assignments searched", "Sampled values, sizes and curves.")

P("S04", "Assembly blocks state exactly the constraints written in them",
  "In a program with assembly blocks, `===` and `<==` become constraints and `<--` leaves its target free: the outputs for which the compiled constraints can be satisfied are exactly those for which "
  "the source's constraints, assertions and assignments can be, whatever values the `<--` targets take. Optimization neither drops nor adds a constraint, and an honest execution computes the values the source assigns.",
  q(["programs", "inputs", "values of unconstrained assignments"], "all programs with assembly blocks, all inputs, all assignments"),
  "It quantifies over dishonest values of the variables an assembly block leaves free; a test executes the honest solver only.",
  a(["zokrates_analysis/src/assembly_transformer.rs", "zokrates_analysis/src/propagation.rs", "zokrates_core/src/optimizer/redefinition.rs", "zokrates_codegen/src/lib.rs"],
    ("transformation of `<==`", "zokrates_analysis/src/assembly_transformer.rs"), ("propagation of assembly assignments", "zokrates_analysis/src/propagation.rs"), ("redefinition inside blocks", "zokrates_core/src/optimizer/redefinition.rs")),
  "differential runtime oracle: source and compiled constraints are evaluated on every value of the free variables over small prime fields and the output sets compared; honest executions judged on the real fields",
  "Sampled programs; exhaustive over the free variables for each program over a field of 3 to 13 elements.")
P("T01", "Ill-typed statements are refused and their well-typed twins accepted",
  "A statement whose operands, indices, arguments, branches, elements or assignees have types that do not fit is refused with an error wherever it stands, and the same statement with fitting types is accepted.",
  q(["programs", "statements"], "all programs and all statements added to them"),
  "The type checker, inference of untyped numbers and generics combine over all pairs of types and constructs; unit tests pick some.",
  a(["zokrates_core/src/semantics.rs", "zokrates_ast/src/typed/integer.rs", "zokrates_analysis/src/propagation.rs"],
    ("type checker", "zokrates_core/src/semantics.rs"), ("inference of untyped numbers", "zokrates_ast/src/typed/integer.rs"), ("sizes of arrays", "zokrates_analysis/src/propagation.rs")),
  "differential runtime oracle: the generator knows each inserted statement's types and judges acceptance and refusal by the compiler", "Sampled programs and about sixty kinds of statements, each with an ill-typed variant and a corrected twin.")
P("T02", "No source text crashes the compiler",
  "For every text given as source, compilation ends with a program or with an error; it does not panic or abort. An accepted program executes or stops with an error.",
  q(["source texts"], "all texts"),
  "The space of malformed and odd programs is unbounded; unit tests cover known mistakes.",
  a(["zokrates_parser/src/zokrates.pest", "zokrates_pest_ast/src/lib.rs", "zokrates_ast/src/untyped/from_ast.rs", "zokrates_core/src/semantics.rs", "zokrates_analysis/src/lib.rs", "zokrates_codegen/src/lib.rs"],
    ("parser", "zokrates_parser/src/zokrates.pest"), ("conversion of the syntax tree", "zokrates_ast/src/untyped/from_ast.rs"), ("semantic checks", "zokrates_core/src/semantics.rs")),
  "fuzzing with a crash monitor: programs mutated by token, tree and text edits", "Sampled mutations of generated and handwritten programs of every construct; sizes that exhaust memory are a limitation.")
P("I01", "Every name stands for the definition it was declared or imported as",
  "In a program of several files, each constant, function, type and struct name refers to the definition of the module it was imported from, under the name given by `as`; overloads, transitive imports, "
  "relative paths and several routes to one file make no difference. Missing, ambiguous and circular imports are refused with an error.",
  q(["module graphs", "names", "inputs"], "all graphs of modules and imports"),
  "Resolution depends on the whole graph of modules and on the order in which they are visited.",
  a(["zokrates_core/src/imports.rs", "zokrates_core/src/semantics.rs", "zokrates_core/src/compile.rs", "zokrates_fs_resolver/src/lib.rs"],
    ("imports", "zokrates_core/src/imports.rs"), ("symbol unification", "zokrates_core/src/semantics.rs"), ("path resolution", "zokrates_fs_resolver/src/lib.rs")),
  "differential runtime oracle: each definition computes a distinguishable value, and the generator's own resolution judges the executed result", "Sampled module graphs of up to some eight files on the real file system; wrong programs by kind.")
P("X01", "The command line does what the library does",
  "compile, check, inspect, compute-witness, export and print commands, with every option and with arguments from the command line, from standard input, as JSON or raw, produce files and texts that denote the same program, witness, ABI, constraint system and results as the library, for every curve, directory and option.",
  q(["programs", "inputs", "options"], "all programs, inputs, curves and combinations of options"),
  "Each command is thin glue whose mistakes only show in combinations of options; there are no unit tests of most of them.",
  a(["zokrates_cli/src/ops"], ("commands", "zokrates_cli/src/ops"), ("option parsing", "zokrates_cli/src/bin.rs")),
  "differential runtime oracle: the real binary is run and its files are read back and compared with the library and the reference evaluator", "Sampled programs and options; proving needs backends that cannot be built offline in this harness except bellman's key-free parts.")
P("X02", "The command line reports every failure and never claims success",
  "Given missing, unreadable, damaged or mismatched files, wrong options, wrong arguments or outputs that cannot be written completely, each command ends with a non-zero status and an error message; it does not crash and does not report success.",
  q(["commands", "files", "faults"], "all commands, all damaged files and all write faults"),
  "Faults are unbounded: any byte of any file, any limit on any output.",
  a(["zokrates_cli/src/ops", "zokrates_ast/src/ir/serialize.rs"], ("reading of files", "zokrates_ast/src/ir/serialize.rs"), ("commands", "zokrates_cli/src/ops")),
  "fault injection with an outcome monitor: damaged files, unwritable and limited outputs; exit status, message and files observed", "Sampled faults; one kind of damage is a recorded finding.")

P("C08", "Logs print the values of their arguments, once, in order",
  "In a program compiled for debugging, each log statement that is reached prints its format string with the values of its arguments, in the order of the statements, as often as it is reached; "
  "the result is the same as without the log statements.",
  q(["programs", "inputs"], "all programs with log statements and all inputs"),
  "Log arguments pass through every optimization together with the program around them; tests print a few fixed ones.",
  a(["zokrates_ast/src/ir/mod.rs", "zokrates_codegen/src/lib.rs", "zokrates_interpreter/src/lib.rs", "zokrates_analysis/src"],
    ("formatting", "zokrates_interpreter/src/lib.rs"), ("flattening of logs", "zokrates_codegen/src/lib.rs"), ("removal of duplicates", "zokrates_core/src/optimizer/duplicate.rs")),
  "differential runtime oracle: log output compared with the reference evaluator's, results compared with the program without logs",
  "Sampled programs; logs of functions whose result is not needed may be absent.")
P("F01", "The fields compute in the prime fields they are named after",
  "For every supported curve, addition, subtraction, multiplication, division, powers, inverses, comparison, parsing, printing, byte and bit conversions and (de)serialisation are those of the integers modulo the curve's scalar field order.",
  q(["field elements", "curves"], "all field elements and all curves"),
  "Every result of the tool is computed in these fields, on values at limb and modulus boundaries which tests do not visit.",
  a(["zokrates_field/src"], ("implementation for arkworks fields", "zokrates_field/src/lib.rs"), ("conversion to proving backends", "zokrates_field/src/lib.rs")),
  "differential runtime oracle: big integers modulo the documented primes", "Sampled pairs with weight on boundaries, tens of thousands per run.")
P("N01", "Nova steps are the program, and proofs hold for what was computed only",
  "The circuit of a Nova step has exactly the constraints of the program, over the given state, its result, the private values and the constant one, and its assignment is the program's. "
  "An instance made by any split of the steps into runs verifies for the initial state and the number of steps, yielding the state the steps lead to, compressed or not, and for no other state or number; no proof is made by a prover whose values violate the program.",
  q(["step programs", "states", "steps"], "all step programs, states, private values and splits into runs"),
  "Soundness of the circuit is about assignments no honest prover makes; the tests run a few programs honestly.",
  a(["zokrates_bellperson/src/nova.rs", "zokrates_cli/src/ops/nova"],
    ("step circuit", "zokrates_bellperson/src/nova.rs"), ("proving", "zokrates_bellperson/src/nova.rs"), ("commands", "zokrates_cli/src/ops/nova/prove.rs")),
  "runtime monitor in place of the constraint system records the circuit and its assignment; proofs of honest and dishonest provers judged by the reference evaluator",
  "Hundreds of circuits compared in full; a few real proofs per run (each takes some 20 s).")

NOT_APPLICABLE = []
HOOKS = None
NOTES = "Everything is built from /repo's working tree by build.sh (cargo, offline) into /verif/target."
