#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for statements is this table)."""
import json, os
L = "cpp/lib_moment/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=[L + f for f in files],
                               mechanism=[dict(name=n, where=L + w) for n, w in mech],
                               observe_at=list(observe))))

prop("C01", "Shared state is touched only under the owning object's lock",
     "A matrix system, a word dictionary and the probability tables attached to a system may be used by many threads at once: "
     "whatever they share is modified only while the modifying thread holds that object's exclusive lock, and the library's own "
     "public operations read it only while they hold at least the shared lock. "
     "A function that requires the caller's lock as evidence is only ever handed a lock of the object it protects.",
     ["schedules"], "every interleaving of any set of public operations on one object",
     "The tests run each object from one thread, so a missing or too weak lock never changes their outcome; data races need a schedule.",
     ["multithreading/maintains_mutex.h", "matrix_system/matrix_system.cpp", "dictionary/dictionary.cpp",
      "probability/maintains_tensors.cpp", "matrix_system/rulebook_storage.cpp", "scenarios/pauli/pauli_dictionary.cpp"],
     [("shared mutex with read/write lock accessors", "multithreading/maintains_mutex.h MaintainsMutex"),
      ("write lock taken by creators", "matrix_system/index_storage/*.h, matrix_system.cpp"),
      ("lock passed as evidence", "matrix_system.h MatrixSystem::lock / generate_* methods")],
     ["MatrixSystem public operations", "Dictionary::Level", "MaintainsTensors::Refresh*"])

prop("C02", "A racing creation is decided under the exclusive lock, once",
     "When an item that is created on demand is requested by several threads at once, the decision to create and publish it is made "
     "(or made again) after the exclusive lock is obtained, using only information read since then, and every requester receives the published item. "
     "An item that has been handed out is never replaced by a second creation, it is filed under the key that was looked up, and a flag that announces it without a lock is set only after it is complete.",
     ["schedules"], "every interleaving of requests for the same or different missing items",
     "Needs two threads between the optimistic look-up and the upgrade to the write lock; tests are single threaded there.",
     ["dictionary/dictionary.cpp", "scenarios/pauli/pauli_dictionary.cpp", "probability/maintains_tensors.cpp",
      "matrix_system/index_storage/matrix_index_storage_base.h", "scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp"],
     [("look-up, unlock, build, write-lock, look-up again", "dictionary/dictionary.cpp Dictionary::Level"),
      ("double-checked refresh", "probability/maintains_tensors.cpp")],
     ["Dictionary::Level", "MatrixSystem::*.create/find_or_create", "MaintainsTensors::RefreshCollinsGisin"])

prop("C03", "No operation waits for a lock it already holds or for a wake-up that cannot come",
     "No operation of the library, called by a thread that holds no lock, ever acquires the lock of an object (for reading or for writing) while that thread already holds it, "
     "and every pair of lock classes held together is always acquired in one order. "
     "Operations that are given a lock by the caller do not take it again themselves and give it back as they got it, no lock is released that is not held, no thread waits for workers while it holds a lock that they take, "
     "and a thread waiting for data in a queue is woken by every change it waits for.",
     ["schedules", "histories"], "every call chain through the library's public operations and every interleaving",
     "A re-entrant or cyclic acquisition may deadlock only with a writer waiting; tests exercise single chains on one thread, often on paths that do not block.",
     ["matrix_system/matrix_system.cpp", "matrix_system/index_storage", "probability/maintains_tensors.cpp", "scenarios/derived/derived_matrix_system.cpp",
      "scenarios/inflation/inflation_matrix_system.cpp", "scenarios/symmetrized/symmetrized_matrix_system.cpp"],
     [("std::shared_mutex is not recursive", "multithreading/maintains_mutex.h"), ("lock parameters as proof of ownership", "matrix_system/matrix_system.h")])

prop("C04", "A failing worker thread ends in an exception for the caller, not a hang",
     "If any worker of a multithreaded matrix operation fails, the operation ends: every worker thread has stopped and been joined, and the failure is rethrown to the caller. "
     "No exception escapes a thread's entry point, none is discarded, and no thread is left waiting for a signal that the failing thread was to give.",
     ["fault_sequences", "schedules"], "every place a worker can throw, and every schedule of the remaining workers",
     "No test makes a worker throw; the failure needs a specific phase of the parallel algorithm.",
     ["matrix/operator_matrix/operator_matrix_factory_multithreaded.h", "matrix/monomial_matrix_factory.cpp",
      "multithreading/matrix_transformation_worker.h", "scenarios/symmetrized/multithreading", "scenarios/inflation/multithreading"],
     [("promise/future per worker", "matrix/monomial_matrix_factory.cpp"), ("try/catch in thread entry", "multithreading/matrix_transformation_worker.h")])

prop("C05", "Parallel workers split the work completely and without overlap",
     "In every multithreaded construction each output element is produced by exactly one worker: together the workers visit every element for every worker count and size, "
     "and no element shared between workers is written by two of them without synchronisation. "
     "Results that workers make separately are combined exactly once each, after having been announced as complete. "
     "The result therefore does not depend on the number of threads.",
     ["configurations", "schedules", "inputs"], "all worker counts, dimensions and schedules",
     "Tests use one machine's worker count and small dimensions, for which a bad partition can still cover everything.",
     ["matrix/operator_matrix/operator_matrix_factory_multithreaded.h", "matrix/monomial_matrix_factory.cpp",
      "multithreading/matrix_transformation_worker.h", "scenarios/symmetrized/multithreading/group_rep_generation_worker.cpp",
      "scenarios/inflation/multithreading/extended_matrix_worker.cpp"],
     [("strided column partition", "matrix/operator_matrix/operator_matrix_factory_multithreaded.h")])

prop("C06", "Conjugated occurrences are always treated as conjugates",
     "When a moment occurs as the complex conjugate of a registered symbol, every operation that resolves, multiplies, prints, maps or substitutes that occurrence uses the conjugate of the symbol's word, value or image, "
     "and an unconjugated occurrence never does. Conjugating a scaled moment conjugates its scale factor, and scaling after conjugation does not.",
     ["inputs"], "every matrix, rule, map and polynomial, with every mixture of conjugated, complex and real moments",
     "Wrong polarity is invisible for Hermitian scenarios (the symbol equals its conjugate), which most tests use.",
     ["matrix/symbolic_matrix.cpp", "matrix/monomial_matrix_factory.cpp", "symbolic/symbol_table.cpp", "symbolic/monomial.h",
      "symbolic/symbol_lookup_result.h", "scenarios/derived/symbol_table_map.cpp", "symbolic/rules/moment_rule.cpp"],
     [("conjugated flag on monomials", "symbolic/monomial.h"), ("sequence()/sequence_conj() pair", "symbolic/symbol.h")])

prop("C07", "The sign of an operator word is never lost",
     "Operator words carry a phase (1, i, -1, -i): every operation that simplifies, conjugates, concatenates, rewrites or renders a word combines that phase into its result, "
     "so two words that differ in phase stay different. A word that simplifies to zero is reported as zero whatever its phase.",
     ["inputs"], "every word with every phase under every context and rule book",
     "Most tested contexts only produce phase +1; a dropped phase needs Pauli-like or signed rules in a particular position.",
     ["dictionary/operator_sequence.cpp", "scenarios/context.cpp", "scenarios/algebraic", "scenarios/pauli/pauli_context.cpp", "sequence_sign_type.h"],
     [("sign stored in every word", "hashed_sequence.h"), ("phase arithmetic", "sequence_sign_type.h")])

prop("C08", "Stored hashes always belong to the stored word",
     "Two words are treated as the same moment exactly through their hash, so every word that exists carries the hash of the operators it holds: "
     "the hash is computed by the word's own context from the final operators, after any simplification and before their storage is given away.",
     ["inputs"], "every word built by any context, generator or rule",
     "Wrong hash only shows as a mistaken merge or duplicate of particular moments; evaluation order differs between compilers.",
     ["hashed_sequence.h", "dictionary/operator_sequence.cpp", "scenarios/context.cpp", "scenarios/algebraic/name_table.cpp", "scenarios/pauli/pauli_context.cpp"],
     [("constructor computes or receives hash", "hashed_sequence.h"), ("shortlex hasher of the context", "shortlex_hasher.h")])

prop("C09", "Out-of-range indices are rejected, never used",
     "Every public look-up that takes an index, offset, symbol number or measurement/party/outcome number from the caller and promises to reject bad ones does so for every value outside the valid range, "
     "including the first invalid one and negative ones, before anything is read or written with it.",
     ["inputs"], "every index value, on empty and non-empty objects",
     "Tests probe at most one far-out value per function; the boundary value is an out-of-bounds read that usually goes unnoticed.",
     ["matrix_system/matrix_system.cpp", "symbolic/symbol_table.cpp", "probability", "scenarios/locality", "scenarios/inflation", "tensor"],
     [("explicit range checks that throw", "probability/collins_gisin.cpp, symbolic/symbol_table.cpp, matrix_system/matrix_system.cpp")])

prop("C10", "'Missing' (-1) and 'not found' are told apart from the valid first entry",
     "A look-up that finds nothing is reported by a negative number, a null or an end marker; entry number zero is a perfectly valid answer. "
     "No operation dereferences or indexes with a failed look-up, and none treats entry zero as missing or a missing entry as present.",
     ["inputs"], "every look-up of present and absent items, including those stored at position zero",
     "Needs the item at exactly position zero, or an absent item at a place where tests always register it first.",
     ["symbolic/symbol_table.cpp", "symbolic/symbol.h", "probability", "matrix_system/index_storage", "scenarios/derived", "symbolic/polynomial_to_basis_mask.cpp"],
     [("-1 sentinels and end() iterators", "symbolic/symbol.h basis_key, matrix_system/index_storage/index_map*.h")])

prop("C11", "The caller's zero tolerance governs every comparison made for them",
     "When an operation is given a numerical tolerance (as a parameter, or stored in the object or the polynomial factory it works with), every decision in that operation about whether a coefficient is zero, real, one or equal uses exactly that tolerance, and a tolerance given to a constructor is the one stored and passed on. The basic comparisons accept a value exactly when it lies within the tolerance they are given. "
     "No step silently falls back on a default or on an exact comparison of computed coefficients.",
     ["inputs", "configurations"], "every tolerance and every coefficient near it",
     "Default and caller tolerance coincide in nearly every test, and coefficients are exact small numbers.",
     ["symbolic/polynomial.cpp", "symbolic/polynomial_factory.cpp", "symbolic/monomial.h", "symbolic/rules/moment_rule.cpp",
      "symbolic/rules/moment_rulebook.cpp", "matrix/value_matrix.cpp", "matrix/monomial_matrix.cpp", "utilities/float_utils.h"],
     [("tolerance arguments with defaults", "symbolic/polynomial.h, utilities/float_utils.h"), ("factory-held tolerance", "symbolic/polynomial_factory.h")])

prop("C12", "Copies, moves, swaps and comparisons account for every part of a value",
     "Every copy, move, assignment, swap and clone that the library writes itself gives an object with the same contents in every part, on every way through it; a value that keeps a view of its own storage is never copied or moved part by part; "
     "equality of words, monomials, index keys and other values is reflexive and symmetric and tells values apart that differ in a distinguishing part, and inequality is its negation. "
     "No operation goes on to use a value it has just given away.",
     ["inputs", "histories"], "all values of all value types, including empty ones and self-assignment",
     "A part that is forgotten usually has its default value in tests.",
     ["utilities/dynamic_bitset.h", "utilities/small_vector.h", "utilities/recursive_index.h", "utilities/index_tree.h", "symbolic", "hashed_sequence.h",
      "matrix_system/indices", "tensor"],
     [("hand-written special members and comparison operators", "utilities, symbolic, matrix_system/indices")])

prop("C13", "Phase arithmetic and mode dispatch are total and exact",
     "The four word phases multiply, conjugate, negate and convert exactly as the numbers 1, i, -1, -i do, the elementary Pauli operators multiply according to the Pauli group table, and every operation that distinguishes a closed set of modes defines a result or an error for each of them.",
     ["inputs"], "all pairs of phases and Pauli operators; all enumerators of every mode type",
     "Tests cover selected pairs; a missing case returns garbage only for that case.",
     ["sequence_sign_type.h", "scenarios/pauli", "symbolic/polynomial_ordering.h", "matrix/matrix_basis_type.h", "dictionary/hermitian_type.h"],
     [("constexpr phase operations", "sequence_sign_type.h"), ("switches over enumerations", "everywhere")])

prop("C14", "Polynomials are always in canonical form",
     "Every polynomial that an operation returns or stores has its terms in the ordering of its factory, at most one term per distinct moment, and no term whose coefficient is zero within tolerance, so that equality is term by term. "
     "In-place changes restore this before the polynomial can be seen.",
     ["inputs"], "every polynomial produced by every operation, in particular when terms cancel, coincide or change order",
     "Needs inputs whose terms cancel or reorder in just that operation.",
     ["symbolic/polynomial.h", "symbolic/polynomial.cpp", "symbolic/polynomial_factory.cpp", "symbolic/monomial_comparator_by_hash.cpp",
      "symbolic/rules/moment_rule.cpp", "symbolic/rules/moment_rulebook.cpp"],
     [("sort / merge / remove-zero pipeline", "symbolic/polynomial_factory.cpp, symbolic/polynomial.cpp")])

prop("C15", "Everything created in a matrix system is registered and announced",
     "Every matrix that a matrix system creates gets a permanent number, the position at which it is kept; it is entered in its index under the description it was created from and after that announced to the system's extension hooks exactly once, with that description, number and matrix, "
     "and an index looks a description up as it was entered. A system that files a matrix under a second description (a Pauli or derived system) does so on every path and under the same number. "
     "Whenever an operation of a matrix system registers new symbols, the dependent structures (factors, rulebooks) are told of all of them before the operation ends; a rulebook is announced once it is in place.",
     ["histories", "inputs"], "every creation path, including early exits and already existing items",
     "Tests check numbers and look-ups on the main path of a few matrix kinds; hooks and secondary paths are not observed.",
     ["matrix_system/matrix_system.cpp", "matrix_system/index_storage", "matrix_system/indices", "matrix_system/standard_matrix_indices.cpp",
      "scenarios/inflation/inflation_matrix_system.cpp", "scenarios/derived/derived_matrix_system.cpp"],
     [("push_back / index map / on_new hooks", "matrix_system/index_storage/matrix_index_storage_base.h")])

prop("C16", "Every ordering used for sorting or keys is a strict weak order",
     "Every comparison used to sort terms, rules or words, or as the key order of an associative container, is irreflexive, asymmetric and transitive, and considers two values equivalent only when all the parts it is documented to compare agree.",
     ["inputs"], "all pairs and triples of values",
     "Violations need particular triples, and appear as lost keys or unsorted output at a distance.",
     ["symbolic/monomial_comparator.h", "symbolic/polynomial_ordering.h", "symbolic/polynomial.h", "symbolic/monomial_comparator_by_hash.cpp", "hashed_sequence.h",
      "matrix_system/indices", "scenarios/algebraic/operator_rule.h"],
     [("comparison functors and operators <, <=>", "symbolic, matrix_system/indices")])

prop("C17", "A rejected request leaves the object as it was",
     "When an operation of an object refuses a request by throwing an exception, it has not changed the object before: its own checks, and the checking functions it calls, come before its first change (items created on demand aside). "
     "An operation that catches the failure of a step in order to undo it gives every changed part of the object its earlier value before it passes the exception on. "
     "A temporary mode switched on for the duration of an operation is switched off on every way out, exceptions included.",
     ["fault_sequences", "inputs"], "every rejected input and every point at which the operation can refuse",
     "Tests check that an exception is thrown, not the state left behind.",
     ["symbolic/symbol_table.cpp", "symbolic/rules/moment_rulebook.cpp", "scenarios/algebraic/operator_rulebook.cpp", "matrix_system", "scenarios/inflation"],
     [("validation before mutation", "symbolic/symbol_table.cpp, symbolic/rules/moment_rulebook.cpp")])

prop("C18", "Results are reproducible: same inputs, same numbers, same order",
     "Symbol numbers, matrix contents, rule order and all other results depend only on the inputs and the order of requests. "
     "They never depend on addresses, hash-table iteration order, time, random numbers, thread identity, what an earlier call left in static storage, the order in which worker threads arrive, "
     "or memory that has not been given a value: every constructor gives every scalar field a value, and no variable is read before it is assigned.",
     ["inputs", "schedules", "configurations"], "every repetition of a session, on any machine and thread schedule",
     "A test compares with one expected answer in one process; run-to-run variation is not visible in it.",
     ["symbolic/symbol_table.cpp", "matrix/monomial_matrix_factory.cpp", "scenarios", "utilities"],
     [("ordered containers and ordered merging of per-thread results", "matrix/monomial_matrix_factory.cpp")])

prop("C19", "Queries do not modify the object queried",
     "Operations declared as read-only leave all observable state unchanged and may run concurrently with each other on one object: any cache they fill is either protected by an exclusive lock or atomic, and any scratch memory they use belongs to the calling thread. "
     "Neither mutable members, nor casting away const, nor members that point elsewhere, nor global or static variables are a way around this. Cursors and views (iterators, tensor ranges) belong to one user.",
     ["schedules", "histories"], "every pair of concurrent read-only operations on one object",
     "Single-threaded tests cannot see that two readers share scratch memory.",
     ["symbolic", "dictionary", "scenarios", "probability", "matrix"],
     [("const methods, thread_local scratch, mutable caches behind locks", "dictionary/dictionary.h, scenarios/inflation/inflation_context.cpp")])

prop("C20", "No loop or recursion repeats a step without making progress",
     "Every loop in the library makes progress on each pass: something that its exit condition depends on changes, counters move towards the bound they are compared with, and a recursive call has an argument changed, "
     "so no input can make an operation repeat the same step for ever.",
     ["inputs"], "every input of every loop",
     "A stuck loop needs an input with a particular shape (e.g. a constant term in last place).",
     ["symbolic/monomial_comparator_by_hash.cpp", "scenarios/algebraic", "symbolic/rules", "utilities"],
     [("loop increments", "everywhere")])

prop("C21", "No reference, iterator or pointer outlives what it refers to",
     "Between the making of a reference, pointer or iterator into a container of the library and its last use in the operation, the container is not grown, emptied, replaced or moved, by the operation or by anything it calls, "
     "in a way that ends or moves the element; an element taken out of its container is not used afterwards. "
     "No operation returns a reference to a local object, a temporary, a copy or a parameter held by value, and no object keeps one. "
     "A reference that an operation gives out beyond the lock it took stays valid when the container grows.",
     ["histories", "schedules", "inputs"], "every sequence of calls",
     "Dangling access usually still reads the old bytes; tests run without sanitizers.",
     ["dictionary/dictionary.cpp", "utilities/recursive_index.h", "utilities/index_tree.h", "symbolic/symbol_table.cpp", "matrix_system/matrix_system.cpp"],
     [("unique_ptr-owned elements; references into stable storage", "matrix_system/matrix_system.h, dictionary/dictionary.h")])

prop("C22", "The internal indices of a container of record agree with each other",
     "Structures that hold the same facts several times over (a symbol list with its hash index and its real/imaginary part numbers; an index list with its map; a tensor with its symbol list) update all copies together, so any of them gives the same answer.",
     ["histories", "inputs"], "every sequence of insertions and merges",
     "A forgotten copy is seen only by the particular query that uses it.",
     ["symbolic/symbol_table.cpp", "symbolic/symbol_table.h", "matrix_system/index_storage", "scenarios/inflation/factor_table.cpp", "symbolic/rules/moment_rulebook.cpp"],
     [("paired updates", "symbolic/symbol_table.cpp SymbolTable::push_back, merge_in")])

prop("C23", "Hermitian matrices mirror conjugates; rows and columns are never confused",
     "When a matrix is known to be Hermitian and only one triangle is computed, the other is filled with conjugates of the computed entries, every element is filled, and in any rectangular object the row number is bounded by the number of rows and the column number by the number of columns.",
     ["inputs"], "all dimensions, square and rectangular, and all complex contents",
     "Square real matrices, which dominate the tests, hide both mistakes.",
     ["matrix/value_matrix.cpp", "matrix/monomial_matrix_factory.cpp", "multithreading/matrix_transformation_worker.h", "scenarios/pauli/lattice_duplicator.cpp", "matrix/operator_matrix"],
     [("triangular fill with mirrored conjugate", "matrix/operator_matrix/operator_matrix_factory_multithreaded.h")])

# --- value-level guarantees (declined: see DESIGN.md) -------------------------------------------------------------
prop("C30", "Moment matrices contain the right moments",
     "The element in row i and column j of the level-n moment matrix (or localizing matrix) of any scenario is the moment of the conjugated i-th generator times the word times the j-th generator, simplified.",
     ["inputs"], "every scenario, level and word", "Infinite family of scenarios and levels.",
     ["matrix/operator_matrix", "dictionary/operator_sequence_generator.cpp"], [("OSG product", "matrix/operator_matrix/operator_matrix_factory.h")])
prop("C31", "Rewriting yields unique normal forms",
     "When completion of an operator rule book succeeds, every word has exactly one normal form, reached in finitely many steps and independent of the order of rule application.",
     ["inputs", "programs"], "every rule set and word", "Universally quantified over rule sets.",
     ["scenarios/algebraic/operator_rulebook.cpp"], [("Knuth-Bendix completion", "scenarios/algebraic/operator_rulebook.cpp")])
prop("C32", "Hashes are injective on words within the supported length",
     "Two different words of length up to the context's limit have different hashes, and hash order is shortlex order.",
     ["inputs"], "all pairs of words", "Exponentially many pairs.", ["shortlex_hasher.h"], [("positional hash", "shortlex_hasher.h")])
prop("C33", "Symmetrization is an exact invariant map",
     "The map into symmetrized moments is constant on group orbits, and its inverse map recovers every origin moment's projection to within tolerance.",
     ["inputs"], "all groups and symbol tables", "Numerical, over all groups.", ["scenarios/derived", "scenarios/symmetrized"], [("LU map core", "scenarios/derived/lu_map_core_processor.cpp")])
prop("C34", "Probability tables are consistent",
     "Full-correlator and probability tensors expressed through Collins-Gisin moments give, for every value assignment, the same probabilities, and each conditional distribution sums to one.",
     ["inputs"], "all scenarios and assignments", "Infinite family.", ["probability"], [("tensor construction", "probability/probability_tensor.cpp")])
prop("C35", "Index encodings are bijections",
     "Flattening and unflattening of multi-dimensional indices, triangular iterators, combinations and partitions enumerate each index exactly once and invert each other.",
     ["inputs"], "all sizes", "All sizes.", ["tensor", "utilities"], [("index flattener", "tensor/index_flattener.cpp")])
prop("C36", "Moment rules substitute consistently",
     "Reducing a polynomial with a completed moment rule book gives a polynomial that equals it under every assignment satisfying the rules, and is irreducible.",
     ["inputs"], "all rule books and polynomials", "Universally quantified.", ["symbolic/rules"], [("rule book reduction", "symbolic/rules/moment_rulebook.cpp")])
prop("C37", "Inflation factorizes exactly along disconnected sources",
     "Each inflation moment's factors are exactly its source-disconnected parts, canonicalised so that equivalent copies coincide.",
     ["inputs"], "all causal networks and inflation levels", "Universally quantified.", ["scenarios/inflation"], [("factor table", "scenarios/inflation/factor_table.cpp")])
prop("C38", "Lattice symmetry canonicalises Pauli words to one representative",
     "Two Pauli words related by the lattice's translation symmetry have the same canonical representative and no others do.",
     ["inputs"], "all lattices and words", "Universally quantified.", ["scenarios/pauli/site_hasher"], [("site hashers", "scenarios/pauli/site_hasher")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
