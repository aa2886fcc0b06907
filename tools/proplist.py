FN = "every Boolean function of the operands (tabulated by symbolic variables) and every assignment of the variables, within the stated operand sizes"
p("C01", "Boolean operators on BDDs compute the right function, canonically",
  "Every built-in Boolean operator (negation, and, or, xor, equivalence, if-then-else and the symbolic versions of these on any operands) returns the value of that operator on its operands for every assignment of the variables. Two Boolean expressions compare as identical exactly when they denote the same function, whatever expressions built them and whatever the variable order is.",
  ["inputs", "histories"], FN + ", every variable order style",
  "Unit tests evaluate a few fixed formulas; a wrong terminal case, cache key or normalisation shows only for particular pairs of functions and variable orders.",
  ["new_bdd.c", "graph.c"], [("apply step and operation caches", "new_bdd.c bdd_step"), ("unique table insertion with normalisation", "new_bdd.c find_insert_bdd")],
  technique=L2, note="Exhaustive over all functions of 2-3 variables as operands of the real engine, z3 decides each exported result; trusts the exporter's text format.")
p("C02", "Collecting the BDD tables never changes a live function",
  "Garbage collection of the Boolean function tables, whenever it is requested during a computation, leaves every reachable Boolean value denoting the same function and every later operation returning the correct result. Results do not depend on whether or when collections happen.",
  ["schedules", "histories", "inputs"], "collection requested after every k-th operation, for several k, under every operation of the BDD and bit-vector interface on every pair of functions of 2 variables (3 for quantification)",
  "Tests almost never fill the tables, so collections with live operands, stale cache entries or unprotected intermediates are not reached.",
  ["new_bdd.c", "bv.c", "graph.c"], [("marking and reference counting", "new_bdd.c B_Mark, B_Clean"), ("sweep and cache cleaning", "new_bdd.c garbage_collect, clean_cache"), ("protection of intermediates", "bv.c PUSH_BDD_GC")],
  technique=L2 + ", collections forced at every point", note="Collection points are enumerated by period; values are symbolic and decided by z3.")
p("C03", "Variable reordering preserves every Boolean function",
  "Changing the variable order, by dynamic reordering or by an explicit order request, leaves every live Boolean value denoting the same function of the same named variables, keeps equality of Boolean values exact, and later operations correct. An explicit order request puts the listed variables first, in the given order.",
  ["inputs", "schedules", "histories"], "every function of 2-3 variables under every permutation of the order and under sifting after every k-th operation",
  "Tests never trigger sifting and use only default orders; swap errors need particular node shapes at adjacent levels.",
  ["new_bdd.c"], [("adjacent level swap", "new_bdd.c do_swap_down, swap_down"), ("sifting", "new_bdd.c re_order"), ("explicit order", "new_bdd.c user_defined_reorder")],
  technique=L2, note="Every permutation of up to 4 ordered blocks; z3 decides the function before/after.")
p("C04", "Quantification, substitution and relational product are correct",
  "Universal and existential quantification, their multi-variable and combined (relational product) forms, and simultaneous substitution of functions for variables return exactly the function the logical definition gives, for every operand, every set of variables and every variable order. Variables not quantified or substituted are unaffected.",
  ["inputs"], FN, "Tests check a handful of formulas; order- and cache-dependent branches need particular functions.",
  ["new_bdd.c"], [("quantification", "new_bdd.c quantify"), ("relational product", "new_bdd.c Rel_prod"), ("substitution", "new_bdd.c substitute")],
  technique=L2, note="Operands of 3-4 variables, tabulated; z3 decides equality with the expanded definition.")
p("C05", "Support, size, cofactors, model counts and sums of Booleans are exact",
  "For every Boolean function and every variable order: the support lists exactly the variables the function depends on, the top cofactors reconstruct it, and a node shared plain or complemented is counted once in the size. Model counts over any list of variables containing the support (integer, floating point, conditional, and generalized counts or sums whose result depends on the remaining free variables) are exact, whether or not a garbage collection happens.",
  ["inputs", "schedules"], "every function of three variables under every order; generalized counts and sums of arbitrary tabulated functions of up to three counted and two free variables",
  "Counts depend on skipped levels, complement edges, caches and the order of variables; tests count a few formulas.",
  ["new_bdd.c", "bv.c"], [("support and size", "new_bdd.c depends, B_Size"), ("model counting", "new_bdd.c truth_cover_rec, fp_truth_cover_rec, fp_truth_cover2_rec"), ("generalized counting", "bv.c gen_model_count_rec")],
  technique=L2, note="Functions enumerated where the answer is a number, symbolic where it is a vector; z3 derives the reference from the formula.")
p("C06", "Saved Boolean functions and values read back as the same functions",
  "Boolean functions, Boolean expressions and values of user-defined types written to a file and read back, in the same session or another one and under any variable order, denote the same functions of the same named variables and hold equal data, whatever the variables are called. A file that is not a (line-complete) save, a missing file and an unwritable target are reported as failures.",
  ["inputs", "histories", "crash_points"], "all values of ten formulas built from arbitrary functions of two and three variables, four orders on each side; files cut at every line of the result section",
  "Tests save and load a few formulas in one session under one order; errors depend on sharing, complements and order differences.",
  ["new_bdd.c", "bexpr.c", "io.c", "graph.c"], [("saving", "new_bdd.c Save_BDDs, b_save"), ("loading", "new_bdd.c Load_BDDs"), ("expressions", "bexpr.c Save_bexprs, Load_bexprs"), ("values", "io.c Save_graph, Load_graph")],
  technique=L2, note="Round trips through the real files; z3 compares what is read with the specification of what was saved.")
p("C07", "Unbounded integer add, subtract, negate, compare and bitwise ops are exact",
  "Addition, subtraction, negation, absolute value, comparison, copying, hashing and bitwise and, or, exclusive-or and complement on unbounded integers give exactly the mathematical (two's complement, infinitely sign-extended) result for every operand, whatever its length, whether or not both operands are the same object. Results are in canonical form, so equal numbers compare equal and hash equally.",
  ["inputs"], "every value of every word of operands of one to four 64-bit words",
  "Carries across word boundaries and sign-extension need specific multi-word patterns that decimal test inputs do not hit.",
  ["arb_prec.c"], [("add, subtract, negate", "arb_prec.c Arbi_add, Arbi_sub, Arbi_neg"), ("comparison", "arb_prec.c Arbi_cmp"), ("bitwise operations", "arb_prec.c Arbi_bvAND ... Arbi_bvNOT")],
  technique=L1, note="Operands of 1..4 words (5 thorough), all values; memory pool replaced by fresh objects.")
p("C08", "Unbounded integer multiplication and word-sized division are exact",
  "The product of unbounded integers is exact and canonical, with no arithmetic trap. For numbers of one machine word the quotient rounds down and the remainder has the sign of the divisor, dividend = quotient * divisor + remainder.",
  ["inputs"], "every value of one multiplicand of one or two words against sixteen constants of up to two words; every one-word dividend against twelve divisors",
  "Carry propagation and extreme words (most negative word, zero low word) need particular operands.",
  ["arb_prec.c"], [("multiplication", "arb_prec.c Arbi_mlt"), ("division", "arb_prec.c Arbi_div, Arbi_mod")],
  technique=L1, note="Symbolic by constant multiplication; two symbolic 64-bit factors and multi-word division are beyond the solver and outside the bound.")
p("C14", "Boolean expressions (bexpr): operators, conversion and SAT answers",
  "Operations on SAT-based Boolean expressions, their conditional selection over arbitrary structures, substitution and conversion to and from BDD-based Booleans denote exactly the corresponding Boolean functions. An unsatisfiability or equality verdict is given only when it is true, every model returned satisfies the expressions it was asked for, and a satisfiable set is never answered with no model.",
  ["inputs", "histories", "schedules"], FN + "; all 256 functions of three variables, random conjunctions and 3-bit arithmetic identities for SAT answers; with and without collections",
  "Tests use a few formulas; structural merging by signature and incremental SAT state make an answer depend on everything built before.",
  ["bexpr.c", "minisat_ifc.cc"], [("node construction and SAT merging", "bexpr.c be_find_insert"), ("SAT interface", "minisat_ifc.cc"), ("conversion", "bexpr.c be2bdd, bool2bexpr")],
  technique=L2, note="Each verdict and model is re-decided by z3 on the exported formula; minisat internals trusted only in that its answers are checked.")
p("C15", "Symbolic bit-vectors (bv) compute exact integer arithmetic",
  "Addition, subtraction, negation, multiplication, division, modulus, power, shifts, comparisons, absolute value, sign handling and conversions on BDD bit-vectors give the exact two's-complement integer result for every value of every operand, with result vectors wide enough never to overflow. Operands may have different widths and any mixture of constant and symbolic bits.",
  ["inputs"], "all values of all operands, for every pair of widths up to the bound",
  "Tests use a few constants and widths; sign extension, carry and quotient corner cases depend on width pairs and extreme values.",
  ["bv.c", "new_bdd.c"], [("adder, multiplier, divider", "bv.c"), ("normalisation", "bv.c")],
  technique=L2, note="All width pairs to 5x5 (7x7 thorough); z3 decides equality with exact integer arithmetic over all values.")
p("C16", "Bit-vectors over bexpr (bev) compute exact integer arithmetic",
  "The SAT-based bit-vector operations (arithmetic, shifts, comparisons, power, conversions) give the exact two's-complement integer result for every value of every operand, with no overflow, and always terminate.",
  ["inputs"], "all values of all operands, for every pair of widths up to the bound",
  "Tests exercise few values; the implementation is separate from the BDD one and has its own corner cases.",
  ["bev.c", "bexpr.c"], [("operations", "bev.c")], technique=L2, note="All width pairs to the bound; z3 decides over all values.")
p("C17", "Arithmetic libraries on lists and dynamic vectors are exact",
  "The signed and unsigned arithmetic libraries over lists of Booleans (fixed size) return the exact result modulo two to the width, and their dynamic-size versions return the exact integer result, for both Boolean representations and for every operand value. Comparisons and selections agree with the integers the vectors denote.",
  ["inputs"], "all values of all operands for each width within the bound, all four library instances",
  "No test covers most operations; errors hide in sign handling of particular width pairs and in symbolic (non-constant) operands.",
  ["src/vosslib/gen_arithm.fl", "src/vosslib/gen_u_arithm.fl"], [("library operations", "src/vosslib/gen_arithm.fl"), ("unsigned library", "src/vosslib/gen_u_arithm.fl")],
  technique=L2, note="Widths 1..4 (5 thorough), division restricted to dividend>=0, divisor>0.")
p("C18", "Combinational circuit simulation computes the exact function",
  "When every input of a combinational circuit (pexlif) is driven, simulation (STE/bSTE) gives every node exactly the value the circuit's expressions define: fixed-width modular arithmetic, unsigned comparison, shifts, slices, updates, concatenations, extensions, conditionals and memory reads and writes. The result does not depend on the hierarchy, on the names used for formals and actuals, or on which nodes are traced.",
  ["inputs", "configurations"], "all input values of every operator at each width within the bound and of the generated circuits",
  "Tests simulate a few designs on a few stimuli; operator corner cases and name/hierarchy flattening interact in ways only particular widths and structures show.",
  ["fsm.c"], [("compilation of a pexlif", "fsm.c pexlif2fsm, compile_expr"), ("operators", "fsm.c op_ADD ... op_MEM_WRITE"), ("evaluation", "fsm.c do_combinational, do_wl_op")],
  technique=L2, note="Every operator at widths 1..4 (5 thorough), memories to 8 lines, random circuits to 5 nodes; all input values by z3.")
p("C19", "Sequential simulation follows the phase-delay semantics",
  "In a circuit with phase delays, each delayed node has at phase t+1 the value of its expression at phase t, joined with whatever is asserted on it at t+1, and every other node the value its expression has at the same phase. Nodes that nothing determines are X, and values constant by construction are known from the first phase on.",
  ["inputs", "histories"], "all input sequences and initial register values over the given number of phases",
  "Tests run few input sequences; event-driven evaluation may miss a re-evaluation only for particular sequences.",
  ["fsm.c"], [("phase update", "fsm.c do_phase"), ("main loop", "fsm.c gSTE"), ("initial constant propagation", "fsm.c initialize"), ("traces", "fsm.c record_trace, get_trace_val")],
  technique=L2, note="4-5 phases, shift registers, LFSR, enable register, random sequential circuits; z3 compares every node and phase with the unrolled reference.")
p("C20", "STE verdicts are exactly those of the trajectory assertion",
  "For any antecedent, consequent and weakening lists, every tuple takes effect exactly in the phases from its start up to but not including its end, simultaneously active tuples on a node accumulate, and a weakening makes the node's computed value X exactly when it holds. The results antOK, trajOK, consOK, checkOK, implies and strong are exactly the conditions under which the defining trajectory is consistent and implies the consequent.",
  ["inputs", "histories"], "all values of the guards and values of the tuples, for each tuple set",
  "Overlapping, adjacent and nested intervals on the same node interact through event order; a test fixes one combination and one set of values.",
  ["fsm.c"], [("events", "fsm.c create_event_buffer, event_cmp, process_event"), ("constraint application", "fsm.c update_node"), ("verdict", "fsm.c gSTE, gen_get_ste_result")],
  technique=L2, note="Directed and random tuple sets with symbolic guards/values, 4-5 phases, both BDD and bexpr; reference trajectory over z3 terms.")
p("C21", "Simulation with X is sound, monotone and never contradictory",
  "When some inputs are left undriven (X), a definite value computed for a node is the value it takes under every completion of those inputs, driving more inputs never loses or changes a definite value, and no node becomes over-constrained without conflicting assertions. For and, or, not, conditional, slice, extension, concatenation and update the value is exactly the four-valued one.",
  ["inputs"], "all combinations of driven/undriven per input bit, all values, all completions",
  "Tests hardly ever leave individual bits undriven; optimism on X shows only for particular X patterns.",
  ["fsm.c"], [("dual-rail operators", "fsm.c op_ADD ... op_MEM_WRITE"), ("node update", "fsm.c update_node")],
  technique=L2, note="One symbolic guard per input bit, completions universally quantified in the z3 query.")

p("C22", "Inlining instances preserves the behaviour of a circuit",
  "Replacing an instance of a hierarchical circuit by its contents, once or repeatedly until only leaf cells remain, in any order, yields a circuit in which every input-to-output behaviour over time is the same. Internal names never capture or merge with other signals, bits of vectors keep their order and wiring however ports are split, permuted or repeated, a leaf instance is left alone and an instance number out of range is reported as a failure.",
  ["programs", "inputs"], "seeded random circuits in hierarchies of up to four levels with arbitrary port wiring and colliding internal names; all input values",
  "Tests inline a few fixed designs and compare printed text; wiring errors need split, permuted or multi-dimensional actuals or name collisions.",
  ["pexlif.c", "voss_strings.c", "fsm.c"], [("inlining", "pexlif.c unfold_pexlif"), ("renaming", "voss_strings.c VDB_has_name_collision"), ("merging of vector names", "voss_strings.c gen_merge_vectors, show_contig_vector")],
  technique=L2, note="The transformed circuit is simulated by the real engine on symbolic inputs; z3 compares with the meaning of the original.")
p("C23", "HFL circuit descriptions compute their declared functions",
  "A circuit described in HFL behaves, when compiled and simulated, as its text says: arithmetic, comparison, shifts, slices, concatenations, extensions and conversions on the declared unsigned, signed and enumerated types, conditionals and case selections, memories, and the library of components (multiplexers, decoders, encoders, flip-flops and latches with enable, set and reset, delays, clocked state, state machines). Constants, the order of the statements, sub-cells and automatic simplification never change the function.",
  ["programs", "inputs", "histories"], "each library component, and seeded random cells mixing operators, constants, types, CASE and sub-cells; all input values in each phase",
  "Tests build a few designs and look at their structure; constant folding and width/sign coercions go wrong only for particular operand combinations, and storage elements only for particular sequences.",
  ["IDVII/src/fl/design/hfl.fl", "IDVII/src/fl/design/simplify.fl", "IDVII/src/fl/design/util.fl"], [("operators and types", "hfl.fl base_assignment, CELL, UNSIGNED, SIGNED, ENUM"), ("constant propagation", "simplify.fl const_prop, perform_binary"), ("storage", "hfl.fl base_re_ff, base_re_ff_async, ah_latch, STATE, Moore_FSM"), ("dependencies and labels", "util.fl w_depends, base_compact_wprint")],
  technique=L2, note="Components at widths 1-9 and 120 random cells (700 thorough) over 1-6 phases; z3 compares the simulated result with the reference for all inputs.")
p("C24", "Cells of imported Verilog netlists behave as Yosys defines them",
  "Each circuit that the Verilog import library builds for a cell of a Yosys netlist computes, when compiled and simulated, what Yosys defines for that cell: arithmetic, logic, comparison, shifts with independent operand and result sizes, reductions, multiplexers, memories with write enables, latches and flip-flops with their declared polarities, enables, synchronous and asynchronous resets, sets and loads. Asynchronous controls act as levels, win over the clock and are remembered after release.",
  ["inputs", "histories", "configurations"], "every cell constructor of yosys_lib.fl except the generic memory _mem_v2, polarities, operand forms; all input values in each phase",
  "Tests import designs only by way of an external program that is absent here; polarity and reset mistakes show only in particular sequences.",
  ["IDVII/src/fl/design/yosys_lib.fl", "IDVII/src/fl/design/make_generic_pexlifs.fl"], [("combinational cells", "yosys_lib.fl mk_rtl, mk_cmp, _base_pmux"), ("storage cells", "yosys_lib.fl _adff, _dffsr, _sdffce"), ("memories", "yosys_lib.fl _memwr, _memrd"), ("generic latches and flip-flops", "make_generic_pexlifs.fl adlatch, aldff")],
  technique=L2, note="Widths 1-4, 4 phases (5 thorough); z3 compares the simulated cell with the reference for all inputs.")
