"""The properties, one entry each: gen.py writes properties.jsonl and MANIFEST.json from here."""
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, note, state=None, na=None, hook=None,
         observe=None):
    assert len(title) <= 80, title
    P[pid] = dict(id=pid, title=title, statement=" ".join(statement.split()), over=over,
                  qtext=" ".join(qtext.split()), why=" ".join(why.split()), files=files, mech=mech,
                  note=" ".join(note.split()), state=state, na=na, hook=hook,
                  observe=observe or ["standard output of the fl interpreter"])


FL = "src/bin/fl/"

prop("B01", "Boolean operators compute the right function and equal functions are identical",
     """Every Boolean operator of the language (constants, variables, NOT, AND, OR, XOR, XNOR, NAND, NOR,
     implication, equality and if-then-else) applied to any Boolean functions returns exactly the function
     its truth table defines. Two expressions are the same function if and only if the system reports them
     identical, under every variable order and whatever was computed before.""",
     ["inputs", "histories", "configurations"],
     "all pairs and triples of Boolean functions over the variables, all variable orders, all earlier operations",
     """the suite evaluates a few fixed formulas; memoised operators with complemented edges have faults that
     show only for particular operand pairs and particular earlier calls""",
     [FL + "new_bdd.c"],
     [{"name": "memoised apply step", "where": FL + "new_bdd.c: bdd_step, find_insert_bdd"},
      {"name": "if-then-else", "where": FL + "new_bdd.c: B_Ite"}],
     """Complete for all functions of 3 variables (every operand pair of every operator, all 6 orders for
     representative rows) and for all 65536 functions of 4 variables against a fixed operand set; functions of more
     variables are outside the bound. Trusts top_cofactor and identity with T/F for reading results back.""")

prop("B02", "Quantification, substitution, relational product and model counts are exact",
     """Existential and universal quantification, simultaneous substitution, the relational product, the
     support, the cofactors and the node and model counts of any Boolean functions are exactly those of the
     mathematical function. A size-limited operation either returns the exact result or raises its limit
     failure.""",
     ["inputs", "histories"],
     "all functions and all quantified variable sets, substitutions and earlier calls",
     """tests quantify one or two formulas; each of these operators has its own memo table whose keys matter
     only for particular pairs of calls""",
     [FL + "new_bdd.c"],
     [{"name": "quantifier recursion", "where": FL + "new_bdd.c: quantify, Rel_prod"},
      {"name": "substitution", "where": FL + "new_bdd.c: b_substitute, top_b_subst"},
      {"name": "counting", "where": FL + "new_bdd.c: truth_cover_rec, fp_truth_cover2_rec"}],
     """Complete over all functions of 3 variables for quantification and one-variable substitution, over listed
     products of functions for relational product, multi-variable substitution and counts, and one-step operations over
     4 variables. Same read-back as B01.""")

prop("A01", "Integer arithmetic is exact at every size",
     """Integers of the language are the mathematical integers. Addition, subtraction, multiplication, floor
     division, modulo, power, comparisons, absolute value and negation give the exact result, and conversion
     to and from decimal, hexadecimal, octal and binary text is exact, for operands of any length, in
     particular where the internal representation changes from one machine word to several. Division by zero
     raises an exception instead of giving a value.""",
     ["inputs"],
     "all integers of any number of words, including every word boundary, both signs",
     """tests compute with small numbers; carries, borrows and quotient estimates of multi-word arithmetic go
     wrong for few digit patterns only""",
     [FL + "arb_prec.c", FL + "int_ops.c"],
     [{"name": "multi-word arithmetic", "where": FL + "arb_prec.c"},
      {"name": "integer primitives", "where": FL + "int_ops.c"}],
     """Complete for all pairs in a small range and for all pairs of a digit alphabet at the word boundaries (values
     2^k+d and products of extreme words up to four words); other multi-word values are outside the bound.""")

prop("A02", "Symbolic bit-vector arithmetic on BDDs denotes integer arithmetic",
     """For bit vectors (bv) whose bits are arbitrary Boolean functions, every operator (add, sub, mul, div, mod,
     AND, OR, XOR, NOT, negation, absolute value, zero extension, shifts, power, comparisons and symbolic
     if-then-else) yields, under every assignment of the variables, exactly the two's-complement integer result
     of unbounded length. Conversions between vectors, bit lists and integers are inverse to each other.""",
     ["inputs", "configurations"],
     "all bit vectors of all lengths with symbolic bits, all assignments",
     """a test evaluates fixed vectors; sign extension and carry faults show only for particular length and sign
     combinations of the operands""",
     [FL + "bv.c"],
     [{"name": "vector arithmetic", "where": FL + "bv.c"}],
     """Complete for all pairs of vectors up to three bits with bits from {0,1,a,b} and four bits from {0,a,not a}
     (one side), for all constants in -9..9 and the machine-word boundaries. Division by zero is not compared.""")

prop("A03", "Symbolic bit-vector arithmetic on Boolean expressions denotes integer arithmetic",
     """For bit vectors over Boolean expression graphs (bev) every operator (add, sub, mul, div, mod, AND, OR,
     XOR, NOT, negation, zero extension, shifts, power and comparisons) yields, under every assignment of the
     variables, exactly the two's-complement integer result, and conversions between vectors, bit lists and
     integers are inverse to each other.""",
     ["inputs"],
     "all bit vectors of all lengths with symbolic bits, all assignments",
     """the suite samples single values; the expression-graph vectors have a second implementation of every
     operator whose sign handling depends on the operands' lengths""",
     [FL + "bev.c", "src/vosslib/preamble.fl"],
     [{"name": "vector arithmetic", "where": FL + "bev.c"}],
     """Complete for all pairs of vectors up to two bits with bits from {0,1,a,b} and to three and four bits from smaller alphabets, for
     all constants in -9..9 and the machine-word boundaries. Division by zero is not compared.""")

prop("B03", "BDD values survive every history of operations, collections and reorderings",
     """A Boolean function held by a program denotes the same function for ever, whatever the program does next:
     other Boolean operations, quantifications and substitutions, dropping other values, garbage collections at
     any allocation, automatic or explicit variable reordering and growth of the node table. Two values that are
     the same function stay identical, different ones stay different, and no operation's result depends on what
     was computed earlier.""",
     ["histories", "schedules"],
     "all sequences of operations, all points at which a collection or reordering can happen",
     """the suite's programs are short and collect rarely; a missing mark, a stale memo entry or a wrong level swap
     shows only after a particular earlier history""",
     [FL + "new_bdd.c", FL + "graph.c"],
     [{"name": "collection and marking", "where": FL + "new_bdd.c: B_Clean, B_Mark; graph.c: garbage_collect"},
      {"name": "reordering", "where": FL + "new_bdd.c: swap, sift, Var_Order"}],
     """All sequences of 3 (thorough 5) steps from 12 operations over 4 variables, all ordered pairs of memoised
     calls over 13 functions, a collection at every single allocation of 20 operator programs (through the VOSS_MC
     hook), and one multiplier per order for table growth. Read back by evaluation at all assignments.""",
     hook="VOSS_MC: builtin mc_gc asks for a collection at the n-th allocated node")

prop("B04", "Saved Boolean functions load back exactly and damaged files are refused",
     """bdd_save followed by bdd_load, and bexpr_save followed by bexpr_load, give back the same list of functions, in
     the same or another process, whatever variable order either process uses and whatever the variables are called.
     A file that cannot be written, does not exist, is of another kind or was cut short raises an exception and never
     yields other functions.""",
     ["inputs", "configurations", "crash_points"],
     "all functions and lists of functions, all pairs of writer and reader orders, all truncations of a file",
     """the suite saves and loads one list under one order; node numbering, sharing and partial files need systematic
     enumeration""",
     [FL + "new_bdd.c", FL + "bexpr.c"],
     [{"name": "BDD files", "where": FL + "new_bdd.c: B_Save, B_Load"},
      {"name": "expression files", "where": FL + "bexpr.c: BE_Save, BE_Load"}],
     """All 256 functions of 3 variables alone and in lists, all 36 pairs of writer and reader order, every
     truncation point of small files; no damage other than truncation and wrong kind is injected.""",
     observe=["standard output of the fl interpreter", "the saved files"])

prop("B05", "Boolean expression graphs denote the right functions and SAT answers are exact",
     """Every operation on bexprs builds an expression of the function its definition gives: constructors, conversion
     from and to BDDs (also under a variable substitution), substitution, dependencies, quantification-free structure
     as seen by walking the graph. Satisfiability, identity checks and models found by the SAT solver are exact: an
     unsatisfiable expression has no model and a reported model satisfies the expression. None of this depends on
     earlier calls, argument ordering preferences or garbage collections.""",
     ["inputs", "histories", "configurations"],
     "all functions, several structures of each, all pairs of operands, earlier calls and collection points",
     """the suite asks a handful of SAT questions; structural hashing, memo tables keyed by node and incremental clause
     generation go wrong for particular pairs and histories""",
     [FL + "bexpr.c", FL + "minisat_ifc.cc"],
     [{"name": "structural hashing", "where": FL + "bexpr.c: be_and, find_insert"},
      {"name": "conversion and substitution", "where": FL + "bexpr.c: be2bdd, bsubstitute"},
      {"name": "SAT queries", "where": FL + "bexpr.c, minisat_ifc.cc"}],
     """All 256 functions of 3 variables in six structures and both argument orders, all pairs for binary operators and
     identity, one-variable substitutions complete, collections at every node for listed operations (hook). Larger
     formulas are outside the bound.""",
     hook="VOSS_MC: builtin mc_gc asks for a collection at the n-th allocated node")

STE_OBS = ["standard output of the fl interpreter"]

prop("S01", "STE computes the defining trajectory and decides assertions exactly",
     """For every circuit and every list of antecedents, consequents, weakenings and traces, STE gives each node at each
     time the value of the defining trajectory: the excitation, weakened where a weakening is active and constrained by
     the conjunction of the antecedents active at that time, from `from` up to but not including `to`, in any number
     and overlap. trajOK holds exactly where no antecedent conflicts, checkOK exactly where every consequent holds, and
     a run reported as strong has every consequent satisfied under its antecedents. Traces hold these values and X
     outside the traced intervals and after an abandoned run (-a, -m) ends; bSTE gives the same answers, in whatever
     order runs and questions are mixed.""",
     ["inputs", "schedules", "histories"],
     "all combinations and overlaps of constraint intervals on all nodes of a circuit, with symbolic values",
     """tests run assertions with one constraint per node and never look at the answer; overlapping, adjacent and empty
     intervals on one node, constraints on state holding nodes and mixed run kinds are combinations only enumeration
     reaches""",
     [FL + "fsm.c"],
     [{"name": "event processing", "where": FL + "fsm.c: create_event_buffer, process_event, event_cmp"},
      {"name": "node update", "where": FL + "fsm.c: update_node, do_phase, do_combinational, gSTE"},
      {"name": "results and traces", "where": FL + "fsm.c: record_trace, gen_get_trace, gen_get_ste_result"}],
     """Five circuits with combinational logic, feedback through delays, pipelines, latches and constants; every single
     constraint, pairs of constraints over times 0..3 (all in the thorough tier), triples on one node of two circuits,
     values over three variables. Trusts printing of BDDs (B01).""", observe=STE_OBS)

prop("S02", "Word-level circuit operators are exact on Booleans and sound on X",
     """For every word-level operator a circuit can contain (logic, arithmetic, shifts, comparisons, if-then-else,
     extension, slicing, concatenation, update) and every word width, simulation gives on inputs without X exactly the
     defined integer or bitwise function. On inputs with X no result bit contradicts any Boolean completion of the
     inputs, and making an input more defined never makes a result bit less defined or different; bitwise logic, EQ,
     if-then-else and the pure wiring operators give X only where completions disagree. Symbolic simulation gives
     the same answers as simulation of every single assignment, also for nested operators.""",
     ["inputs"],
     "all ternary input words of all operators and their nestings",
     """no test simulates an operator with X inputs and compares values; the wrong answers of a word operator need a
     particular mix of X and Boolean bits, a zero divisor, an oversize shift or a width beyond a machine word""",
     [FL + "fsm.c"],
     [{"name": "word operators", "where": FL + "fsm.c: op_ADD .. op_ITE, op_SHL, op_DIV"},
      {"name": "expression compilation", "where": FL + "fsm.c: compile_expr, mk_comp"}],
     """All ternary inputs of every operator at widths 1 to 3 (4 in thorough, some operators less), all nestings of two
     operators from a fixed set, Boolean boundary words at widths 31 to 130, symbolic against explicit for every
     operator.""", observe=STE_OBS)

prop("L01", "Evaluation is lazy, sharing-transparent and contains exceptions exactly",
     """Every closed, terminating fl program of the functional core (integers, Booleans, lists, pairs, functions, let,
     letrec, if-then-else, seq, fseq, catch, error) evaluates to the value of the call-by-need semantics, and raises an
     exception exactly when that semantics needs the value of a failing subexpression. A shared expression is evaluated
     at most once and has the same value wherever and however often it is used: evaluating, forcing or catching it in one place never changes what
     another use of it sees.""",
     ["programs", "histories"],
     "all typed terms, all orders of observing shared values",
     """the suite runs a few hand written programs; the combinator compiler and the in-place graph updates have faults
     that show only for particular term shapes and particular orders of forcing shared structures""",
     [FL + "graph.c", FL + "compile.c"],
     [{"name": "combinator graph reduction", "where": FL + "graph.c: traverse_left, force"},
      {"name": "bracket abstraction", "where": FL + "graph.c: compile; compile.c"}],
     """All closed typed terms of up to 7 constructors (8 thorough) against a reference interpreter, and all sequences of
     up to 3 (4) observations of structures with errors in every place; all pairs of listed uses of a shared argument with
     a counter of its evaluations. Terms whose reference evaluation does not
     terminate within a step budget are excluded. Cyclic values are not forced.""")

prop("L06", "The first clause whose patterns and guard match decides a function's value",
     """For every function defined by clauses and every argument, the value is that of the first clause (top to bottom)
     whose patterns match, left to right, and whose assuming guard holds, with the pattern variables bound to the
     matched parts; if none matches, the call raises an exception. Arguments are evaluated only as far as the patterns
     need, and an exception met while matching is raised and not taken as a failed match.""",
     ["programs", "inputs"],
     "all combinations of patterns and guards in up to three clauses, on all small values",
     """tests define functions whose clauses do not overlap; falling through after a partial match, guards and
     exceptions inside partly evaluated arguments need combinations no test samples""",
     [FL + "graph.c", FL + "language.y"],
     [{"name": "pattern translation", "where": FL + "graph.c: trarg, P_PCATCH, P_PFAIL"}],
     """All functions of up to 3 clauses over 3 to 9 patterns per type (integers, Booleans, strings, lists, pairs,
     polymorphic and recursive data types), guards, two-argument functions with 2 clauses, lambdas; evaluated on all
     listed values including ones with failing parts.""")

prop("L02", "Type inference accepts exactly the typable expressions, with principal types",
     """An expression or definition of the functional core (constants, functions, application, pairs, lists, user defined
     polymorphic types, let, letrec, type annotations) is accepted exactly if it has a Hindley-Milner type, where top
     level definitions are polymorphic and local ones are not, and the type printed for it is its most general type, in
     a text that determines that type. An expression that is not typable is rejected with an error, defines nothing and
     leaves the interpreter running.""",
     ["programs"],
     "all terms up to a size, typable or not",
     """tests contain only programs that type check; wrong acceptances, lost generality and ambiguous type texts need
     terms nobody writes on purpose""",
     [FL + "typecheck.c"],
     [{"name": "inference and unification", "where": FL + "typecheck.c: typecheck, unify, TypeCheck_expr"},
      {"name": "printing of types", "where": FL + "typecheck.c: print_type_rec"}],
     """All closed untyped terms up to 6 constructors (7 in the thorough tier; fewer constants in the larger ones) over
     fixed sets of constants, all pairs of a definition and a use of it, type annotations on expressions and variables.
     References, overloading and type abbreviations are not in the term language.""",
     observe=["the type fl prints for each definition, or its rejection"])

prop("L12", "Written values read back equal, in any process and only as their own type",
     """A value of any writable type (integers, strings, Booleans, bexprs, vectors, tables, references, lists, pairs, user
     data, functions, values not evaluated yet) written with write_T reads back with read_T as a value no program can
     tell from the original, in the writing or any other process, whatever the variable order, with references shared
     as before, and writing leaves the original as it was. A file is read only as the type it was written as, by exactly
     that definition of it and of its parts; a missing, truncated or damaged file or a failing write raises an exception
     or answers false, and every later read and write, under any file name, works as if it had not happened.""".replace(
     " an exception\n     or answers false,", " an exception,"),
     ["inputs", "histories", "crash_points"],
     "all small values, all pairs of type definitions, all truncations, all sequences of failing and working calls",
     """tests write one kind of value and never read it as something else; sharing, damaged files, the type check and what a
     failed call leaves behind need combinations no test has""",
     [FL + "io.c", FL + "serialize.c", FL + "symbol.c"],
     [{"name": "saving and loading of graphs", "where": FL + "io.c: Save_graph, Load_graph; serialize.c: write_g_rec, read_g_rec"},
      {"name": "type signatures", "where": FL + "symbol.c: Add_Destructors"}],
     """About 550 values over 23 constructors (leaves, all pairs of a selection, sharing, nesting) in writer and reader
     processes of different variable orders; all functions of up to 5 (6) constructors written as code; all pairs of 33
     type definitions; a file cut at every byte (every byte inverted in thorough); all sequences of up to 3 (4) of 8
     working and failing calls. fsm and other objects that cannot be written are only used as failing cases.""",
     observe=["standard output of the fl interpreter", "the written files and the temporary directory"])

prop("L18", "Symbolic conditionals merge branches exactly as the Booleans decide",
     """A program whose conditions are Boolean functions (conditionals nested, inside and around lists, pairs, vectors, user
     data, arithmetic and recursion) has, under every assignment of the variables, exactly the value it has when the
     conditions are the Booleans of that assignment; bit vectors of different lengths merge as numbers. A branch that no
     assignment reaches is never evaluated, so recursion on symbolic values ends when no assignment continues it and
     reachable failures, or branches of different shape or with different non-Boolean leaves, raise an exception;
     an assignment to a reference inside branches changes it exactly under the assignments that reach it.""".replace(
     "decides.\n", ""),
     ["inputs", "programs"],
     "all nested conditionals over all values of a type, under all assignments",
     """no test compares a merged result with its instances; wrong merging shows only for one nesting of conditions, one
     shape of result or one path of a symbolic recursion""",
     [FL + "graph.c", FL + "bv.c"],
     [{"name": "symbolic conditional", "where": FL + "graph.c: traverse_left P_COND, g_b_ite, Gen_map2, P_UPDATE_RVAR"},
      {"name": "merging of vectors", "where": FL + "bv.c: bv_gmap2_fn"}],
     """All conditionals with one or two nested conditions (7 conditions, 9 in thorough) over 10 types of results,
     consumers, 10 recursive functions on all symbolic 3-bit vectors, assignment programs, memoised functions. Merging
     of function values is not covered. Known finding: a shared conditional first evaluated where the path decides it.""")

prop("L05", "Memoised functions answer exactly as the plain functions they are",
     """A function defined with clet or cletrec gives on every call the value the same definition with let or letrec gives,
     whatever calls of it or of other memoised functions came before, for arguments of every type (small and large
     integers, strings, Booleans, bexprs, vectors, lists, pairs, user data, functions, tables), however many results are
     remembered and whether or not tables were cleaned or garbage was collected in between. A call whose arguments or
     body fail raises the exception each time and disturbs no other call.""",
     ["histories", "inputs"],
     "all sequences of calls over all listed arguments, tables of every size, collections at every allocation",
     """tests call a memoised function a few times with different arguments; a wrong hit needs two particular arguments,
     a particular table size or a collection between two calls""",
     [FL + "graph.c", FL + "cache.c"],
     [{"name": "memo tables", "where": FL + "cache.c: Find_in_g_cache, Insert_in_g_cache, cache_eq, cache_hash"},
      {"name": "cached call", "where": FL + "graph.c: traverse_left P_CACHE"}],
     """All sequences of 3 calls over 9 (12) values of each of 12 types, all pairs of types, tables of up to 3000 (8000)
     entries, a collection at every safe point. References as arguments are compared by content and are not covered.
     That the body is not run again is not claimed.""")

prop("L07", "Garbage collection is never observable",
     """When and how often garbage is collected - nodes of the graph and of formulas alike - has no effect on any
     answer: a program gives the same results with a collection at any point of its run, or at every n-th point, as
     without one, whatever values it keeps alive: lists, closures, lazily evaluated and shared values, references, tables,
     streams, strings, numbers, formulas, bit vectors, circuits, traces, cached results and saved values.""",
     ["schedules", "programs"],
     "all points of collection in programs over every kind of value, and collections during the cases of the other checks",
     """in the tests a collection happens, if at all, at the same few points of long programs; a value that is not marked
     only shows when a collection falls into the few steps during which nothing else refers to it""",
     [FL + "graph.c", FL + "new_bdd.c", FL + "bv.c", FL + "bexpr.c", FL + "table.c", FL + "fsm.c", FL + "cache.c"],
     [{"name": "marking and sweeping", "where": FL + "graph.c: garbage_collect, mark, gc_reset"},
      {"name": "formulas alive", "where": FL + "new_bdd.c: Garbage_collect, PUSH_BDD_GC"},
      {"name": "marks of external objects", "where": FL + "table.c, cache.c, fsm.c, bexpr.c: mark functions"}],
     """28 programs, each run once per node it allocates (60 to 1100) with a collection requested at that node, and with one
     after every p-th node for ten p; the programs that allocate BDD nodes also per BDD node. Up to 16 (150 thorough; a quarter with the full preamble)
     cases of each of the groups of 12 other checks with collections after every 89th (13th, 89th, 377th) node, four times
     that with the full preamble. Uses the VOSS_MC hook. Oracle: the same program without collections.""",
     hook="VOSS_MC: builtin mc_gc asks for a collection at the n-th allocated node", observe=["standard output of the fl interpreter"])

prop("L08", "List functions compute the plain list result, whatever was looked up before",
     """Every list function of the language (length, rev, el, firstn, lastn, mem, assoc, find, filter, split,
     partition, setify, union, intersect, subtract, append, qsort and the like) gives, for lists of any element
     type and for any index or count, the result of its mathematical definition or the documented failure. qsort
     returns an ordered permutation also when its comparison function itself sorts, and fails when that function
     fails. No result depends on earlier lookups in the same list or on garbage collections.""",
     ["inputs", "histories", "schedules"],
     "all lists, element types, counts and all orders of calls on the same list",
     """tests call each function once on a short list; several functions keep hidden tables per list cell or run
     user functions in the middle, so faults need particular repeated calls, duplicates or collections""",
     [FL + "list_ops.c", FL + "graph.c", FL + "preamble.fl"],
     [{"name": "per-list lookup tables", "where": FL + "list_ops.c: assoc, rev_assoc, mem, el, List_GC"},
      {"name": "sorting with a language level comparison", "where": FL + "list_ops.c: fl_qsort, g_cmp"},
      {"name": "structural hashing and equality", "where": FL + "graph.c: G_rec_hash, G_rec_equ, Graph_hash"}],
     """All lists over 3 values up to length 4 (6 thorough) for 7 element types, all pairs of functions and triples of
     lookups on one list, all pairs of lists up to length 3, key sequences up to 7 for sorting, selected lists up to 2500
     elements. The order of the result of union and of partition classes beyond first occurrence is not judged for
     two-list set functions. Elements are compared with the language's own identity.""")

prop("L09", "String functions, patterns and regular expressions are exact",
     """Every string function (length, concatenation, explode and implode, substr, splitting, trimming, prefix,
     suffix and substring tests, comparison, character codes, clusters) gives the result of its definition for all
     strings and all positions and counts, or its failure, and never reads outside its string. Shell patterns and
     extended regular expressions match exactly the strings they denote, whatever patterns were used before.""",
     ["inputs", "histories"],
     "all strings, positions, counts, patterns and sequences of patterns",
     """tests use one or two ordinary arguments; empty strings, negative or huge counts, special characters and
     more patterns than the cache of compiled patterns holds are not tried""",
     [FL + "voss_strings.c", "src/lib/strmgr.c", FL + "graph.c"],
     [{"name": "string primitives", "where": FL + "voss_strings.c: string_substr, str_split, string_gen_trim"},
      {"name": "cache of compiled regular expressions", "where": FL + "voss_strings.c: compile_regexp"},
      {"name": "string interning and temporary buffers", "where": "src/lib/strmgr.c: wastrsave, strtemp"}],
     """All strings up to 3 or 4 characters over 8 characters, counts -2..5 and beyond a machine word, all pairs of
     strings up to 3 characters, shell patterns up to 3 (4) tokens and about 1300 regular expressions over all subjects
     of up to 3 characters, strings up to the supported length of 130000. Oracle: Python strings and re; leftmost
     longest matches are found by trying all substrings. Malformed shell patterns are not judged.""")

prop("L10", "Tables behave as finite maps under every history of operations",
     """A table holds exactly the associations inserted and not deleted since it was created, for keys of any type,
     compared by value: lookups, membership, size and the lists of keys, data and pairs agree with that map after
     every sequence of operations. An operation that fails (duplicate key, missing key) leaves the table as it was,
     and a table that was changed can only be used through the result of the change.""",
     ["histories", "inputs"],
     "all histories of operations, key types and table sizes",
     """tests insert and look up a few keys; failing operations in the middle, growth, deletion after growth and
     collections between operations need longer histories""",
     [FL + "table.c", "src/lib/hash.c", FL + "graph.c"],
     [{"name": "table operations", "where": FL + "table.c: table_insert, table_insertn, table_delete"},
      {"name": "hash table growth", "where": "src/lib/hash.c: insert_hash, delete_hash"},
      {"name": "marking of table entries", "where": FL + "table.c: table_mark_fn"}],
     """All histories of up to 3 or 4 (4 or 5 thorough) of 12 changing operations over 3 keys for 8 key types with all observations
     after every step, growth up to 2600 (5500) entries, and a collection at every safe point for histories of up to 3
     operations.""")

prop("B06", "Parametric representations generate exactly the given set",
     """For every satisfiable condition, param gives one function per variable of the condition, over those variables,
     whose image (all simultaneous values under all assignments) is exactly the set of assignments satisfying the
     condition. fparam for any list of variables to solve for does the same with next-state variables as parameters and
     the other variables as constants, wherever a solution exists. Neither depends on the variable order or its
     changes.""",
     ["inputs", "configurations", "histories"],
     "all conditions, variable orders and lists of variables to solve for",
     """tests parametrise a few conditions of particular circuits; a wrong value in a single branch, a redundant variable
     or an order change between two memoised calls shows for particular conditions only""",
     [FL + "preamble.fl", FL + "new_bdd.c"],
     [{"name": "parametric and fparam_rec", "where": FL + "preamble.fl: param, fparam"},
      {"name": "substitution and current to next state", "where": FL + "new_bdd.c: B_Substitute, BDD_current2next"}],
     """All 256 conditions of 3 variables, all 6 orders, all ordered non-empty lists of variables to solve for; all 65536
     conditions of 4 variables for param (4 orders in the thorough tier, with the sets to solve for of 1 to 3 of
     them); all orders after one another in one process.""")

prop("S03", "A hierarchical circuit means its flat netlist",
     """A circuit built from a pexlif behaves as the flat netlist obtained by connecting, bit by bit, every formal of
     every instance with its actuals: for all ways of naming parts of (multi-dimensional, ascending, non-contiguous,
     structured) vectors in actuals, formals and inside leaves, for constants and repeated or reordered actuals, and for
     all depths and orders of instances. Every net can be observed in STE under its name at every level of the hierarchy
     and shows the value of the net it is connected to; undriven nets are X.""",
     ["inputs", "configurations"],
     "all references to parts of vectors of every shape and all wirings of small module trees",
     """tests build a few regular circuits; a wrong index for one range direction, stride or order of actuals shows only
     for the particular combination of declaration and reference""",
     [FL + "fsm.c", FL + "voss_strings.c"],
     [{"name": "mapping of actuals to nodes", "where": FL + "fsm.c: map_vector, map_node, declare_vector"},
      {"name": "names to nodes and back", "where": FL + "fsm.c: name2idx, get_real_name, get_stride"},
      {"name": "input arguments of several parts", "where": FL + "fsm.c: clean_pexlif_ios, create_merge_component"},
      {"name": "vector names", "where": FL + "voss_strings.c: split_vector_name, Expand_vector"}],
     """14 (21 thorough) vector shapes up to 8 bits, all single indices, ranges and pairs (triples) of indices per
     dimension, up to 5 formal shapes per width; all wirings of two instances from 7x5x6x3 choices of actuals with 4 leaf
     functions, their use one level further, and repetition down to depth 8. Oracle: a Python flattening and dual-rail
     simulation. Leaf operators are judged in S02.""", observe=["standard output of the fl interpreter"])

prop("S06", "The circuit read from a Verilog file behaves as the Verilog says",
     """verilog2pexlif, compiled and simulated, gives for every input value what the Verilog module defines: all operators with
     their sizes and signs (extension, truncation, signed and unsigned contexts, self determined operands), bit and part
     selections, if/case/casez, for loops, functions, parameters and module hierarchies. Registers (either clock edge, enable,
     synchronous and asynchronous reset or load, either polarity), latches and memories (ROMs, several ports, write enables,
     registered reads) give for every input history the value the Verilog semantics gives, whenever that value is defined.""",
     ["inputs", "programs", "histories"],
     "all small Verilog expressions, all inputs of small modules, all short input histories of each kind of register and memory",
     """no test of the repository reads Verilog; a lost sign extension, a wrong polarity, priority or delay shows only for particular
     sizes, values and histories, as a silently different circuit""",
     ["IDVII/src/fl/design/read_verilog.fl", "IDVII/src/fl/design/yosys_lib.fl", "IDVII/src/fl/design/make_generic_pexlifs.fl",
      "external/yosys/write_pexlif/write_pexlif.cc", FL + "fsm.c"],
     [{"name": "cells written by the yosys plugin", "where": "external/yosys/write_pexlif/write_pexlif.cc: dump, dump_sigspec, dump_const"},
      {"name": "meaning of each cell", "where": "IDVII/src/fl/design/yosys_lib.fl: _SignExt, _shr, _pmux, _sdffce, _mem_v2 .."},
      {"name": "modules", "where": "IDVII/src/fl/design/read_verilog.fl: verilog2pexlif"}],
     """operators: every binary operator on 15 operand pairs (3 and 2 bit, signed and unsigned, constants), every unary operator,
     selections, concatenations and replications, each assigned to results of 1 to 5 bits; every operator applied to the result of
     another one (quick: fewer second operands and result sizes); about 90 modules with procedural code and hierarchy; all inputs.
     Registers, latches and memories: de Bruijn histories of order 2 to 5 over the inputs, inputs changing away from the active
     edge, asynchronous ones also at it. Oracle: a Python evaluation following the Verilog standard. Results the standard leaves
     unknown (x), reduction xor and asynchronous set together with reset (refused by the importer) are not judged.""")

prop("S07", "A design written in HFL computes what its operators and components say",
     """A cell written in the hardware language HFL gives, for all inputs and input histories, the values its statements
     say: every operator at every nesting, constants in every notation (negative, hexadecimal, binary, named, folded at
     elaboration), conditionals (IF, CASE, MUX ..), slices and partial assignments, records, enumerations, cells used in
     cells with any expressions as actuals, and the standard components. Flip-flops, latches, delays, is_stable, STATE
     and EN_STATE tables, Moore machines, phase delayed assignments and RAMs follow every history of clock, reset,
     enable and data, including unknown values: never a wrong value, and a known one wherever simulating the described
     registers from an unknown state gives one. How a statement is split into leaves, simplified and named changes
     nothing.""",
     ["inputs", "programs", "histories"],
     "all small HFL statements and all short input histories of the sequential components",
     """tests draw and simulate a few designs; an optimisation of nested conditionals, constants or wide gates, or a priority
     between reset, enable and transitions, goes wrong only for particular nestings, values and histories""",
     ["IDVII/src/fl/design/hfl.fl", "IDVII/src/fl/design/simplify.fl", "IDVII/src/fl/design/util.fl", FL + "fsm.c"],
     [{"name": "splitting of assignments into leaves", "where": "IDVII/src/fl/design/hfl.fl: base_assignment, get_cases, w_CASE"},
      {"name": "constant propagation", "where": "IDVII/src/fl/design/simplify.fl: const_prop, perform_binary"},
      {"name": "records and enumerations", "where": "IDVII/src/fl/design/hfl.fl: base_STRUCT, base_STRUCT_explicit, ENUM, MUTEX_ENUM"},
      {"name": "state", "where": "IDVII/src/fl/design/hfl.fl: base_re_ff .., ah_latch, delay, is_stable, STATE, EN_STATE, Moore_FSM, RAM"}],
     """all operators on all pairs of variables and constants of bit, u2, s2 (u3, s3 with fewer constants in quick), all
     nestings of two operators (quick: fewer constants, signed ones only for arithmetic and comparison), all and/or/not trees
     over four leaves, nested conditionals over 4 to 6 conditions and 3 values, CASE of up to 2 (3) branches; all inputs, with
     unknowns where a cell has at most 4 input bits. Sequential components: de Bruijn histories of order 2 to 5 (6) over the
     0/1/X inputs. Oracle: Python evaluation, and for histories a dual-rail and an exact set-of-states simulation. Not judged:
     division by zero, signed division, shifts of signed vectors.""",
     observe=["standard output of the fl interpreter"])

prop("S08", "Structural queries about a circuit agree with its netlist and each other",
     """For every circuit, nodes, vectors, inputs and outputs list exactly its nets; every name of a net on any level of the
     hierarchy leads basename, node2vector, is_node, is_input, is_phase_delay, fanin and fanout to that net; edges,
     fanin and fanout describe one and the same dependency relation, which contains the dependencies of the functions and
     nothing the instances do not connect; rank_order is consistent with it. fanin_dfs and fanout_dfs return exactly
     the nodes reachable from the given nodes without passing a node that satisfies the stop predicate, each once,
     whatever the predicate asks about the circuit itself.""",
     ["inputs", "configurations"],
     "all small module trees, all starting nodes and all sets of stop nodes",
     """tests print fanins of a few circuits; arguments made of several parts, several starting nodes and predicates that use
     the circuit are not tried""",
     [FL + "fsm.c"],
     [{"name": "names to nodes", "where": FL + "fsm.c: name2idx, get_real_name"},
      {"name": "fanin and fanout lists", "where": FL + "fsm.c: add_wl_fn, fanin, fanout, edges"},
      {"name": "searches", "where": FL + "fsm.c: fanin_dfs, fanout_dfs"}],
     """The module trees of S03 with two instances (1260 combinations of wiring in the quick tier, 2520 thorough) and some one
     level deeper; searches from all single nodes, pairs and the full set with 22 (33) stop sets of the first six nodes.
     Anonymous nodes may be present anywhere between the declared ones; dependencies inside one word operation are judged
     up to the whole operands.""")

prop("L11", "Formatted output and input are exact",
     """sprintf, printf, fprintf and eprintf produce exactly the text their format defines, for every combination of
     flags, width, conversion and argument, or fail if an argument does not fit its width; texts of any supported length
     reach the terminal or the file unchanged. sscanf answers exactly the values that stand in the input where the
     pattern says so, or fails, and scanning a printed number gives the number back.""",
     ["inputs"],
     "all formats, widths, arguments and inputs",
     """tests print a few values with the plain conversions; padding, negative numbers in a width, a width given as
     argument, an exhausted input and texts at the sizes of the buffers are not tried""",
     [FL + "io.c", FL + "io.h", FL + "error.c", "src/lib/strmgr.c"],
     [{"name": "formatted output", "where": FL + "io.c: Printf, prs, print_list"},
      {"name": "formatted input", "where": FL + "io.c: Sscanf"},
      {"name": "output streams", "where": FL + "error.c: FP_va"}],
     """All flags, 9 widths and 14 widths by argument for 7 conversions over about 150 numbers, 16 strings, lists and
     formulas; all formats of two and three parts over ten parts; all inputs up to length 4 or 5 for 27 scan patterns; 60
     text lengths around the powers of two through six ways of output. Numbers without digits, signs within a width and
     unknown conversions are not judged; more than 130000 characters are outside the supported range.""")
