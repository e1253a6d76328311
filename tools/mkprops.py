#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  A property is
claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "src/bin/fl/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))


prop("C01", "Integer arithmetic is exact at every size",
     "Every integer operation of fl (addition, subtraction, multiplication, division, modulus, gcd, absolute value, "
     "min/max, comparison, power, logarithm, bitwise and/or/xor/not, conversion to and from decimal, hex, octal, binary "
     "and bit lists, literals) gives the mathematically exact result for integers of any magnitude and sign; division "
     "rounds towards minus infinity, modulus takes the matching remainder, bitwise operators act on infinite two's complement. "
     "Division by zero raises an error and nothing ever crashes or hangs.",
     ["inputs"], "all integer operands and operand pairs, in particular around multiples of the machine word and sign boundaries",
     "The regression tests use a handful of constants; the errors sit at carry, normalisation and sign-extension boundaries of multi-word numbers.",
     [F + "arb_prec.c", F + "int_ops.c", F + "voss_strings.c"],
     [("one-word fast path and multi-word arithmetic with normalisation", F + "arb_prec.c"), ("int builtins", F + "int_ops.c")],
     "differential run-time oracle: fl integers against Python integers", "Random, boundary-biased operands; the interpreter's printed results are compared with exact ones.")

prop("C02", "BDD operations denote Boolean functions canonically",
     "A bool in fl denotes a Boolean function: every connective, if-then-else, quantifier, relational product, substitution, "
     "cofactor, dependency, counting, parametrisation and example-finding operation gives exactly the function its documentation states. "
     "Two bools compare equal (=, == and pointer identity) exactly when they denote the same function, whatever way they were built.",
     ["inputs", "histories"], "all Boolean expressions, quantified-variable lists, substitutions, and all sequences in which they are built",
     "Tests check a few identities over a few variables; complement edges, operation caches and quantifier corner cases depend on expression shape and history.",
     [F + "new_bdd.c", F + "bdd.h"], [("unique table with complement edges and operation caches", F + "new_bdd.c"), ("generational quantification and relprod caches", F + "cache.c")],
     "differential run-time oracle: BDD sessions against truth tables, node-walk extraction and canonicity monitor",
     "Random sessions over up to 8 variables; each result's truth table is read back by walking the diagram and compared with a table computed independently.")

prop("C03", "Reordering and garbage collection never change a held BDD",
     "Dynamic or explicit variable reordering, setting the variable order, and garbage collection at any moment leave every BDD still reachable "
     "from the program (globals, closures, tables, references, the stack of a running computation) denoting the same function, keep equality canonical, "
     "and report sizes that agree with the current order.",
     ["histories", "schedules"], "all points at which a collection or reordering may occur during any computation and all variable orders",
     "Collections and reorderings trigger on thresholds few regression tests reach, so their interleavings with running computations are hardly ever exercised.",
     [F + "new_bdd.c", F + "graph.c"], [("marking of reachable nodes, sweeping of hash tables, adjacent-level swap and sifting", F + "new_bdd.c"), ("graph reducer roots", F + "graph.c")],
     "run-time monitor: truth tables of held BDDs before/after forced and threshold reorderings and collections", "Histories are sampled; node-level truth is recomputed after each event.")

prop("C04", "Boolean expressions and SAT answers are sound and complete",
     "A bexpr denotes a Boolean function and its operations (connectives, if-then-else, substitution, dependency, conversion to and from bool) preserve it. "
     "The satisfiability queries answer 'unsatisfiable' only for contradictions, 'satisfiable' only otherwise, every model returned satisfies all given constraints, and pairs of expressions compare equal only when they are equivalent.",
     ["inputs", "histories"], "all expressions and all sequences of queries sharing one incremental solver",
     "The solver is incremental and shared: answers depend on the history of earlier queries, which tests fix.",
     [F + "bexpr.c", F + "minisat_ifc.cc"], [("and/xor graph with structural hashing and rewriting; incremental clause loading", F + "bexpr.c"), ("solver interface", F + "minisat_ifc.cc")],
     "differential run-time oracle: SAT answers and models against truth-table enumeration", "Random expressions over up to 10 variables with interleaved queries.")

prop("C05", "Symbolic bit-vectors compute exact signed integers",
     "A bv (vector of BDDs) and a bev (vector of bexprs) denote an integer in every valuation of its variables, with no overflow: every arithmetic, "
     "relational, logical, shift, power, multiplexing and conversion operation gives, in every valuation, exactly the integer operation on the operands' values.",
     ["inputs"], "all operand widths, signs and symbolic contents, and all valuations",
     "Tests check single constants; width growth, sign extension and symbolic carries fail only at particular widths and sign patterns.",
     [F + "bv.c", F + "bev.c", F + "preamble.fl"], [("sign-extending bit-vector operations", F + "bv.c")],
     "differential run-time oracle: every valuation of symbolic vectors against integer arithmetic", "Random widths up to 6 symbolic bits per operand, all valuations compared.")

prop("C06", "String functions agree with their definitions",
     "Every string builtin and preamble string function (length, concatenation, explode/implode, substring, splitting, trimming, searching, replacing, "
     "case conversion, comparison, glob and regular-expression matching, translation) returns what its documentation states, for all strings of any content and of any length up to the implementation's limit.",
     ["inputs"], "all strings, patterns and positions, including empty, long, repetitive and boundary positions", "Tests try one or two literals per function; buffers, regex cache and index handling fail at boundaries.",
     [F + "voss_strings.c", F + "preamble.fl", "src/lib/strmgr.c"], [("interned strings", "src/lib/strmgr.c"), ("string builtins with shared buffers", F + "voss_strings.c")],
     "differential run-time oracle: string functions against Python models", "Random strings over small alphabets plus long strings.")

prop("C07", "Vector-name handling is lossless and order preserving",
     "Expanding a vector or node-name list and merging it back names exactly the same bits in the same order; extraction, sizing, splitting and translation of vector "
     "names agree with the expansion, for every legal name and index pattern.",
     ["inputs"], "all legal vector names (escaped names, multi-dimensional, ranges ascending or descending, strides)", "Tests use a few example names; range and merging logic fails only for particular index patterns.",
     [F + "voss_strings.c"], [("vector name parser, expander and merger", F + "voss_strings.c")],
     "differential run-time oracle and round-trip monitor over random vector names", "Random names and index sets.")

prop("C08", "List functions agree with their definitions",
     "Every list function (length, append, reverse, take/drop variants, el, sorting, folding, mapping, filtering, zipping, partitioning, uniqueness, set operations, searching, ranges, assoc, "
     "replication, transposition and the rest) returns what its documentation states for lists of every length; documented failures raise rather than give wrong values.",
     ["inputs"], "all lists, element values, positions and functions supplied", "Tests sample a few short lists; index and boundary errors and long lists are missed.",
     [F + "list_ops.c", F + "preamble.fl"], [("list builtins over graph cells", F + "list_ops.c"), ("preamble list library", F + "preamble.fl")],
     "differential run-time oracle: list library against Python models", "Random lists, including empty, single, duplicates, long.")

prop("C09", "Tables are maps over values",
     "A table maps each inserted key (by value: equal keys, however built, are the same key) to the value it was inserted with until it is deleted; membership, lookup, size, keys, values and pairs agree with the history of operations "
     "whatever the key type and the number of entries. Inserting a present key, deleting or looking up an absent one fails and changes nothing; a superseded version of a table either fails or answers as the latest version, never with anything else.",
     ["histories", "inputs"], "all histories of operations on tables with keys of any type, including refused operations and uses of superseded versions", "Tests use small tables over strings and integers; errors show for structured keys, collisions, resizing, collections and refused operations.",
     [F + "table.c", F + "cache.c", "src/lib/hash.c"], [("hash table over structural hashes of graph nodes", F + "table.c"), ("structural hash and equality", F + "cache.c")],
     "model-based run-time monitor: random histories against Python dictionaries, with forced collections", "Random histories; the order of listings is not judged.")

prop("C10", "Programs evaluate as the language documentation defines",
     "Evaluating a well-typed fl program gives the value defined by the language: call-by-need evaluation of functions, currying, recursion, local and mutually recursive definitions, pattern matching in order, "
     "user data types, overloading, exceptions and catches, references, and forced-strict and sequencing operators, with memoised functions equal to unmemoised ones.",
     ["programs"], "all well-typed programs", "The compiler (combinator translation, lambda lifting, strictness-like optimisations and string-argument tricks) can go wrong for particular expression shapes only.",
     [F + "compile.c", F + "graph.c", F + "language.y", F + "typecheck.c"], [("bracket abstraction to combinators", F + "compile.c"), ("graph reduction", F + "graph.c"), ("parser desugaring", F + "language.y")],
     "differential run-time oracle: random programs against an independent reference interpreter", "Generated well-typed programs over ints, bools, strings, lists, pairs, datatypes, exceptions, refs.")

prop("C12", "Accepted programs do not go wrong",
     "The type checker accepts exactly the programs of the documented polymorphic type system: it infers the principal type of each well-typed expression, rejects ill-typed ones with an error that leaves the session usable, "
     "and no accepted program applies an operation to a value of the wrong representation.",
     ["programs"], "all expressions, well- and ill-typed", "Tests contain single examples; unsoundness needs particular combinations of generalisation, references to local variables and patterns.",
     [F + "typecheck.c"], [("unification and generalisation", F + "typecheck.c")],
     "differential run-time oracle: inferred types against an independent Hindley-Milner implementation", "Random expressions, well- and ill-typed.")

prop("C13", "Garbage collection and memoisation are invisible",
     "Graph garbage collection, at whatever reduction step it occurs, and cached (memoised) functions never change a program's result: values stay intact while reachable and memory that is no longer reachable is reused, so long computations with bounded live data run in bounded memory.",
     ["schedules", "programs"], "all programs and all points at which a collection may occur", "A collection needs heap exhaustion, which test programs rarely reach, and errors need a collection at a particular step.",
     [F + "graph.c", F + "cache.c"], [("mark and sweep from stacks, roots and registered collections", F + "graph.c")],
     "run-time monitor: forced collections at many allocation points, results and memory compared with an uncollected run", "Collection points are sampled by allocation counter.")

prop("C14", "No input corrupts memory or kills the interpreter",
     "Whatever fl source, string, file or argument a user supplies, fl answers with a value or an error message: it never reads or writes outside its memory, crashes on a signal, or uses freed data.",
     ["inputs", "programs"], "all source texts, data files and builtin arguments", "Memory errors are silent in ordinary runs and need unusual sizes, names or bytes.",
     [F + "io.c", F + "voss_strings.c", F + "lexer", F + "graph.c", F + "pexlif.c"], [("bounded buffers and checks", F + "voss_strings.c")],
     "AddressSanitizer/UBSan runs of hostile workloads over every builtin and the parser", "Bugs that stay inside an allocation are not seen by ASan.")

prop("C15", "Symbolic trajectory evaluation equals ternary simulation",
     "For every circuit and every antecedent/consequent, the result of symbolic trajectory evaluation is the Boolean function that is true in exactly those valuations for which scalar ternary simulation of the circuit, driven by the "
     "antecedent, meets the consequent; the recorded trace values of each node at each time are likewise those of the scalar simulation in each valuation, and antecedent contradictions are reported as such.",
     ["inputs", "histories"], "all circuits (gates, state elements, feedback, hierarchy), antecedents, consequents, options and valuations", "Tests run a few designs with one assertion each; event scheduling, weakening and consistency handling depend on circuit shape and timing.",
     [F + "fsm.c"], [("event-driven dual-rail simulator", F + "fsm.c")],
     "differential run-time oracle: STE results and traces against an independent scalar ternary simulator", "Random circuits, stimuli and valuations.")

prop("C16", "SAT-based STE agrees with BDD-based STE",
     "Running the same assertion on the same circuit with the bexpr-based engine gives a result that is equivalent to that of the BDD-based engine in every valuation, checks and trace values included.",
     ["inputs"], "all circuits, assertions and valuations", "Two engines are rarely compared on the same inputs.",
     [F + "fsm.c", F + "bexpr.c"], [("bexpr simulator", F + "fsm.c")],
     "differential run-time oracle: bSTE against STE and a scalar simulator", "Random circuits and assertions.")

prop("C17", "Circuit transformations preserve behaviour",
     "Flattening a pexlif into a simulation model, and every transformation that is documented as behaviour preserving (hierarchy flattening, cleaning, merging, naming, unfolding), leaves the input/output and observable-node behaviour of the circuit unchanged, and structural queries "
     "(fanin, fanout, drivers, node vectors, hierarchy) agree with the netlist.",
     ["inputs"], "all hierarchical circuits", "Only a few designs are tested; naming, bit slicing and hierarchy errors need particular structure.",
     [F + "pexlif.c", F + "fsm.c", "IDVII/src/fl/design"], [("pexlif to fsm flattening", F + "fsm.c")],
     "differential run-time oracle: transformed and original circuits simulated by an independent simulator", "Random hierarchical circuits.")

prop("C18", "HFL circuits compute what their operators denote",
     "A circuit described in HFL computes, for every input value, exactly the arithmetic, logical, comparison, shift, selection and state-machine function its operators denote at the declared widths and signedness.",
     ["inputs", "programs"], "all HFL expressions, widths and input values", "Tests elaborate few operators at single widths.",
     ["IDVII/src/fl/design/hfl.fl", F + "pexlif.c", F + "fsm.c"], [("HFL elaboration", "IDVII/src/fl/design/hfl.fl")],
     "differential run-time oracle: simulated HFL operators against integer semantics", "Random widths and inputs.")

prop("C19", "Imported Verilog behaves like the source",
     "A Verilog design imported through yosys gives a model whose simulated behaviour is that of the Verilog source for every input sequence.",
     ["inputs", "programs"], "all synthesizable Verilog designs in the supported subset", "Import tests need yosys and cover few cells.",
     ["src/external/yosys/write_pexlif/write_pexlif.cc", "IDVII/src/fl/design/read_verilog.fl"], [("yosys backend", "src/external/yosys/write_pexlif/write_pexlif.cc")],
     "differential run-time oracle: imported designs simulated against a Verilog interpreter model", "Random small modules.")

prop("C20", "Saved data reloads as the same data",
     "Whatever is saved (BDDs, bexprs, pexlifs, serialised values, tables) reloads, in the same or another session and with another variable order, as data equal to what was saved, sharing included; a damaged or missing file raises an error.",
     ["inputs", "histories", "fault_sequences"], "all values, sessions and file damage", "Tests save one small example each in one session.",
     [F + "serialize.c", F + "new_bdd.c", F + "bexpr.c", F + "pexlif.c"], [("writers and readers", F + "serialize.c")],
     "run-time round-trip monitor across sessions with damaged-file injection", "Random values.")

prop("C21", "Floats and formatted I/O are faithful",
     "Float arithmetic and functions follow IEEE double semantics; printf/sprintf-style formatting and scanning produce and accept exactly the documented text, and values written in a format read back equal.",
     ["inputs"], "all floats, formats, widths and values", "Tests print a few constants.",
     [F + "float.c", F + "io.c"], [("format interpreter", F + "io.c")],
     "differential run-time oracle: floats and formats against Python", "Random values and formats.")

prop("C22", "Linear programming answers are optimal",
     "For every linear program, the solver answers infeasible, unbounded or an optimum exactly when that is so; the optimum satisfies all constraints and no feasible point is better.",
     ["inputs"], "all linear programs", "Tests solve a few examples.",
     [F + "lp.c"], [("simplex over exact numbers", F + "lp.c")],
     "differential run-time oracle: LP answers against exact vertex enumeration", "Random small programs.")

prop("C24", "Signatures are SHA-256 digests",
     "The digest functions give the standard SHA-256 (or documented) digest of strings and files of any length, and structural signatures of values are equal for equal values and differ for different ones.",
     ["inputs"], "all strings, files and values", "Tests check one string; padding errors appear only at particular lengths.",
     [F + "sha256.c"], [("block padding", F + "sha256.c")],
     "differential run-time oracle: digests against hashlib", "All lengths around block boundaries; random values.")

prop("C26", "Subgraph matching finds exactly the matches",
     "Isomorphism search between a pattern and a netlist reports only correct matches and finds a match whenever one exists.",
     ["inputs"], "all pattern/netlist pairs", "Tests use a few netlists.",
     [F + "iso.c"], [("signature refinement and backtracking", F + "iso.c")],
     "differential run-time oracle: reported matches validated and compared with brute force", "Random small graphs.")

prop("C27", "Library arithmetic matches its definitions",
     "The standard library's number packages (rationals, symbolic and unary encodings, arithmetic helpers) compute exactly what their names and documentation define for all arguments.",
     ["inputs"], "all arguments", "Library functions have few or no tests.",
     ["src/vosslib"], [("library code", "src/vosslib")],
     "differential run-time oracle: library functions against Python models", "Random arguments.")

prop("C28", "File and process functions act as documented and clean up",
     "Reading, writing, appending, listing, testing and removing files, and running commands, observe and cause exactly the documented effects; temporary files made by a session are removed when it ends, however it ends by itself.",
     ["inputs", "histories", "fault_sequences"], "all file contents, sequences of open/read/write/close, and command outcomes", "Tests do few file operations and never check for leftovers.",
     [F + "file_ops.c", F + "io.c", F + "system.c"], [("stream objects", F + "io.c"), ("process and temp handling", F + "system.c")],
     "model-based run-time monitor of file-system effects in a scratch directory", "Random operation histories.")

prop("C30", "Parallel evaluation equals sequential evaluation",
     "Evaluating work in parallel processes gives the same results, in the same order, as evaluating it sequentially, whatever the timing, number of workers or failures among them; failures are reported for exactly the jobs that failed.",
     ["schedules", "fault_sequences"], "all job lists, worker counts, durations and failures", "Tests cannot control the schedule.",
     [F + "preamble.fl", F + "remote_tcl.c", F + "system.c"], [("forked workers with result files", F + "preamble.fl")],
     "run-time monitor of parallel runs with injected delays and failures against sequential results", "Sampled schedules.")

prop("C31", "A failing statement leaves the session intact",
     "A statement that fails (syntax error, type error, run-time error, missing file) reports an error and changes nothing: all definitions, values, types, operators and later statements behave as if it had not been entered.",
     ["histories"], "all sequences of good and failing statements", "Tests stop at the first error.",
     [F + "fl.c", F + "symbol.c", F + "language.y", F + "typecheck.c"], [("error unwinding in the top-level loop", F + "fl.c")],
     "metamorphic run-time monitor: sessions with and without injected failing statements", "Random sessions.")

exec(open(os.path.join(V, "tools", "props_extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_extra.py")) else None

with open(V + "/properties.jsonl", "w") as fh:
    for p in P:
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    c = "checks/%s.py" % p["id"].lower()
    if os.path.exists(V + "/" + c):
        checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 " + c,
                       "thorough_cmd": "VERIF_TIER=thorough python3 " + c, "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check has been built for it yet"})
HOOKS = json.load(open(V + "/tools/hooks.json")) if os.path.exists(V + "/tools/hooks.json") else None
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py plain", "checks": checks, "not_applicable": na,
     "notes": "Generated by tools/mkprops.py. Each check builds fl from /repo's working tree out of tree (lib/vbuild.py) and observes it."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties;", len(checks), "claimed")
