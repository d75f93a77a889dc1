#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

DE = "src/optimize/differential_evolution.rs"
DM, DV, SM, SV = ("src/linalg/dmatrix.rs", "src/linalg/dvector.rs", "src/linalg/smatrix.rs", "src/linalg/svector.rs")
PO, CX = "src/algebra/polynomial.rs", "src/algebra/complex.rs"
DEWHY = ("The only two tests of the optimizer use an unseeded generator on one objective (Ackley, 2 dimensions, population 20, "
         "500 iterations), look at the returned point only, and are not even in the stable test list.")

prop("C01", "The optimizer's winner is never beaten by a candidate it has seen",
 "When the comparison callback answers consistently (a strict weak order, ties allowed), the vector returned by differential evolution is one of the starting points or trial vectors, and no starting point or trial vector of that run is preferred to it. This holds for every random stream, population size, number of dimensions, crossover probability, differential weight and iteration count, including zero iterations.",
 ["schedules", "inputs", "histories"], "every RNG word stream (healthy, stalled, extreme), every consistent ordering with or without ties, every population size >= 4, dimension, weight, crossover probability and iteration count",
 DEWHY, [DE], [("greedy replacement", DE + ": `if compare_candidates(&x, &population[i])`"), ("knockout tournament", DE + ": `while population.len() > 1`")],
 [("population", "current members", DE)], ["arguments of the comparison callback", "return value"])

prop("C02", "Each optimizer comparison eliminates exactly its loser",
 "Whatever the comparison callback answers, even inconsistently, preferring a trial vector replaces exactly the member it was compared with and rejecting it leaves all members bit-for-bit unchanged, and every sweep of population-size consecutive trials challenges every member exactly once. In the final selection every comparison is between two distinct surviving members and eliminates the one not preferred (the second argument if the callback answers true, the first otherwise). The returned vector is bit-for-bit the one candidate that was never eliminated.",
 ["schedules", "histories", "fault_sequences"], "every RNG stream and every sequence of callback answers, including contradictory, random, constant and NaN-induced ones",
 DEWHY, [DE], [("in-place slot replacement", DE), ("halving knockout with odd-size carry-over", DE)],
 [("population", "current members", DE)], ["arguments and answers of the comparison callback", "return value"])

prop("C03", "Trial vectors follow the rand/1/bin mutation and crossover rule",
 "Every trial vector agrees, component by component, either with the member it challenges or with a+(b-c)*F, where F is the differential weight and a, b, c are three members of the current population that are distinct from each other and from the challenged member, the same three for all components; at least one component comes from a+(b-c)*F. With crossover probability 0 exactly one component does, with crossover probability 1 all of them do.",
 ["schedules", "inputs", "histories"], "every RNG stream, population (including duplicated members), dimension, weight, crossover probability and history of replacements",
 DEWHY, [DE], [("distinct index rejection loops j, k, l", DE), ("crossover closure with forced dimension r", DE)],
 [("population", "current members", DE)], ["arguments of the comparison callback"])

prop("C04", "Exact evaluation budget, and stalls of the random stream only delay",
 "A run calls the comparison callback exactly num_iters + population_size - 1 times. It always returns: if the random generator repeats the same value for arbitrarily long but finite stretches, the run finishes within a bounded number of further draws once the stretches end, and its evaluation budget is unchanged.",
 ["schedules", "fault_sequences", "inputs"], "every placement and length of stuck-generator windows, every population size, dimension and iteration count",
 DEWHY, [DE], [("`.cycle().take(num_iters)`", DE), ("rejection loops for distinct indices", DE), ("halving loop", DE)],
 [], ["number of comparison calls", "number of RNG draws"])

prop("C05", "The starting population is complete, in bounds and freshly drawn",
 "The optimizer starts from population_size members, and each coordinate of each of them lies in the half-open interval [lower, upper) given for its own dimension, whatever words the random generator produces, including extreme ones. Every coordinate is drawn anew from the caller's generator, so coordinates are not copied from another member or another dimension.",
 ["schedules", "inputs"], "every RNG stream including all-zero and all-one words, every set of per-dimension bounds (negative, tiny, huge, mixed magnitude), f32 and f64",
 DEWHY, [DE], [("initial population construction via gen_range", DE)],
 [], ["members shown to the comparison callback"])

prop("C06", "Optimizer runs are reproducible and isolated from each other",
 "The sequence of candidates a run shows to its callback and the vector it returns depend only on its arguments, the words drawn from the caller's generator and the callback's answers. Repeating a run with the same generator state reproduces it bit for bit, no matter which other runs are interleaved with it on other threads, are started inside its callback, or were aborted before it.",
 ["schedules", "histories", "fault_sequences"], "every interleaving of several runs at their callback, arithmetic, RNG and allocation points; nested runs; previously aborted runs",
 "No test runs the optimizer twice with one generator state, on two threads, or nested; unit tests do not control interleavings.", [DE],
 [("all state is local to the call", DE), ("randomness only through the rng argument", DE)],
 [], ["arguments of the comparison callback", "return value", "RNG draw count"])

prop("C07", "A failing callback aborts the optimizer cleanly",
 "If the comparison callback, the random generator or the arithmetic of a user-defined scalar panics at any point of a run, that very panic reaches the caller unchanged and the optimizer calls none of them again. All memory it held is released, and a following call made with the same generator satisfies every guarantee of a fresh call.",
 ["crash_points", "fault_sequences", "schedules"], "every point at which any callback of a run can panic or an allocation can fail, and every continuation with the same generator",
 "No test makes a callback fail; there is one crash point per callback invocation, tens of thousands per run.", [DE],
 [("plain unwinding, population owned by the call", DE)], [], ["panic payload", "callback invocations after the panic", "allocator balance"])

prop("C08", "Random choices of the optimizer are unbiased",
 "When the generator is uniform, each starting coordinate is uniform over its interval; the ordered triple of donors is uniform over all ordered triples of distinct members other than the challenged one; the component that is always taken from the mutant is uniform over the dimensions; and every other component is taken from the mutant independently with exactly the crossover probability. All these choices are independent of each other and of those made for earlier trials.",
 ["schedules"], "distribution over RNG streams, for every population size, dimension and crossover probability",
 DEWHY + " A biased choice still converges on one easy objective.", [DE],
 [("gen_range over index_range, rejection", DE), ("gen::<f32>() < crossover_probability", DE)], [], ["frequencies over many seeded runs"])

prop("C09", "Optimization makes progress once faults stop",
 "If, after the starting population is drawn, the random generator gets stuck for finite stretches, and the comparison callback lies during an arbitrary finite initial part of a run, then, once the generator is fair and the callback truthful about a convex objective whose minimum is inside the starting bounds, enough further iterations bring the returned vector to the minimum. Convergence does not depend on where inside the bounds the minimum lies, nor on the coordinate scale.",
 ["schedules", "fault_sequences"], "RNG streams and bounded fault prefixes (generator stalls, lying comparisons); convex objectives, differential weights of 0.6 to 0.9, crossover probabilities above 0.6 and populations of at least 30; judged over a batch of runs, not a single one",
 DEWHY, [DE], [("greedy improvement loop", DE)], [], ["return value"])

prop("C10", "Compound multiplication is all-or-nothing",
 "The in-place product (`*=`) of polynomials, of static matrices by a square matrix, and of complex numbers either completes with the exact product or, if any element operation or allocation fails (panics) midway, leaves the left operand exactly as it was. This includes failures raised by ordinary integer overflow. The operand stays fully usable, and repeating the operation after a transient failure gives the exact product.",
 ["crash_points", "fault_sequences", "inputs"], "every element operation or allocation inside the product as a failure point, all sizes, shapes and element types (exact field elements, complex, nested polynomials, overflowing integers)",
 "The tests multiply one or two fixed small operands and never let an element operation fail; each product has as many crash points as element operations.",
 [PO, SM, CX, "src/algebra/ops_with_ref.rs"], [("compute the product from references, then assign", PO + ": MulAssign; " + SM + ": MulAssign; " + CX + ": MulAssign")],
 [("left operand", "value under `*=`", PO)], ["left operand after unwinding"])

prop("C11", "In-place updates leave every entry old or new, never anything else",
 "The in-place updates `+=` and `-=` (of polynomials, dynamic and static vectors and matrices, complex numbers, with owned, borrowed or lazily evaluated right-hand sides), scalar `*=` of a static vector, and single-entry assignment through an index, set exactly the entries the operation defines when nothing fails. If an element operation, a lazily evaluated right-hand side or an allocation fails midway, the panic reaches the caller, the shape is unchanged, every entry (missing polynomial coefficients count as zero) is either its value before the operation or its exact new value, and the object stays usable for further operations.",
 ["crash_points", "histories", "fault_sequences", "inputs"], "every failure point inside every update, and every history of updates, failures and retries on the same long-lived objects",
 "The tests apply one fixed update to one fresh fixed object; no failure is ever injected and no object lives through a failed update.",
 [PO, DM, DV, SM, SV, CX], [("entry-wise in-place loops", DV + ", " + DM + ", " + SM + ", " + SV), ("resize_with zero before adding", PO + ": AddAssign<&Polynomial>"), ("component-wise assign", CX)],
 [("entries", "current values", DM)], ["entries after each operation"])

prop("C12", "Operations never change any value other than their target",
 "Values are independent: an operation on one vector, matrix, polynomial or complex number - completed, failed midway, or rejected - never changes any other value, including clones of the target, values it was cloned, evaluated or built from, and borrowed operands. Lazy expressions evaluated later than they were built reflect exactly the operands they were built from.",
 ["histories", "crash_points", "schedules"], "every history of clone, evaluate, update, assign and failing operations over a store of live values",
 "Unit tests hold two or three values for one operation; sharing bugs need a history (clone, then update one side, then look at the other).",
 [PO, DM, DV, SM, SV, CX], [("owned boxed slices / vectors / arrays, deep clones", DM + ", " + DV + ", " + PO), ("expressions own or borrow their operands", DM)],
 [], ["all live values after each operation"])

prop("C13", "Elements and memory are conserved on every path",
 "Every element value the library creates, clones or is given is destroyed exactly once, never used after destruction, and never duplicated, whether an operation completes or is unwound by a failure at any element operation, callback or allocation. After all results are dropped, no memory remains allocated on behalf of finished or failed operations, however often they are repeated.",
 ["crash_points", "fault_sequences", "histories"], "every operation of the library (polynomials, vectors, matrices, complex numbers, expressions, optimizer) with a failure at every element callback or allocation",
 "The tests use plain Copy integers, for which leaks and double drops are invisible, and never unwind.",
 [PO, DM, DV, SM, SV, CX, DE], [("safe ownership, no unsafe code", "src/"), ("array::map / collect partial-initialisation cleanup", SM + ", " + DM)],
 [("element registry", "ids of live elements, kept by the test element type", "harness")], ["Clone/Drop of the element type", "allocator balance"])

prop("C14", "Expressions are lazy and evaluate each entry exactly once",
 "Building a vector or matrix expression (generator closures, map, zip, sums, differences, element-wise products and quotients, transpose, conjugate transpose, diagonals, constants) obtains no entry from any source, and evaluating it obtains each needed entry of each source exactly once, at the right position, and no other entry; reading a single entry obtains only the source entries it needs, once. Hence stateful or failing sources are observed exactly as often as the mathematics says, results contain exactly the values produced, and after a transient failure reading the same expression again gives the right values.",
 ["histories", "fault_sequences", "schedules", "inputs"], "every expression tree over stateful, impure or failing sources, every failure point, every sequence of single-entry reads and evaluations",
 "The tests use pure sources, for which evaluation count and order are invisible, and never fail a source.",
 [DM, DV], [("MatrixExpr::eval default / VectorExpr::eval default", DM + ", " + DV), ("make_matrix_expr, make_vector_expr, AddExpr, SubExpr", DM + ", " + DV)],
 [], ["calls of source entry functions", "entries of the result"])

prop("C15", "Shared values can be read and combined concurrently",
 "Polynomials, vectors, matrices and complex numbers that several threads share by reference can be evaluated, indexed, cloned, compared and used as operands by all of them at once: under every interleaving each thread obtains exactly the result it would obtain alone, and the shared operands are unchanged. The same holds for lazy expressions whose operands and functions may themselves be shared. A failure (panic) inside one thread's operation affects no other thread, then or later.",
 ["schedules", "fault_sequences"], "every interleaving of the threads at element operations, expression callbacks and allocations, with failures injected into some of them",
 "All tests are single-threaded per value.",
 [PO, DM, DV, SM, SV, CX], [("no interior mutability, no global state", "src/")], [], ["results per thread", "operands afterwards"])

prop("C16", "Rejected requests are rejected up front and have no effect",
 "Combining dynamic vectors or matrices of different shapes (`+`, `-`, `+=`, `-=`, zip, element-wise product and quotient, dot product, matrix product with incompatible inner dimension), indexing outside a vector or matrix (including a column index beyond the row), and calling the optimizer with an invalid population size, crossover probability, differential weight (NaN included) is refused with a panic instead of producing a value. The refusal happens before any element operation, source evaluation, comparison or random draw, and no operand is changed; boundary-valid requests (matching shapes including empty ones, population 4, probabilities 0 and 1, weights 0 and 2) are accepted.",
 ["histories", "fault_sequences", "inputs"], "every mismatched shape pair and out-of-range index, at any point of a history over live values",
 "The tests contain no mismatched or out-of-range request at all.",
 [DM, DV, DE], [("assert_eq! on dimensions", DM + ", " + DV), ("bounds checks on indexing", DM + ", " + DV), ("parameter asserts", DE)],
 [], ["panic, callback counts and operands afterwards"])

prop("C17", "Value-returning operations return the exact result or fail, nothing else",
 "Over exact element arithmetic, every value-returning operation on polynomials (evaluation, sum, difference, product, negation), static and dynamic vectors and matrices (sums, differences, products, matrix-vector and dot products, scaling, negation, conjugation, transposes, diagonals, element-wise operations) and complex numbers (sum, difference, product, quotient, scaling, negation, conjugate, squared norm) returns exactly the mathematically defined value for operands of any size, including empty ones. If an element operation or allocation fails during it, exactly that failure reaches the caller and no value is returned; no failure is swallowed or replaced by another, and no further element arithmetic is attempted; repeating the operation after a transient failure returns the exact value.",
 ["crash_points", "fault_sequences", "inputs"], "every failure point inside every value-returning operation, all sizes and element types",
 "The tests compute one fixed small example per operation, with infallible integers.",
 [PO, DM, DV, SM, SV, CX], [("plain loops over element operations without recovery", PO + ", " + SM)], [], ["result or panic payload"])

prop("C18", "Library types obey the algebraic laws their traits promise",
 "Types declared to be rings or fields satisfy the ring and field laws up to rounding of the element type, and equality is compatible with them (for example p - p equals zero for polynomials).",
 ["inputs"], "all element values", "Tests sample single examples.", [PO, CX, SM, "src/algebra/ring.rs", "src/algebra/field.rs"],
 [("operator definitions", PO)])
prop("C19", "Complex elementary functions return accurate principal values",
 "exp, ln, sqrt, sin, cos, tan, sinh, cosh, abs and arg of complex floating point numbers are accurate to a small multiple of the rounding unit on the documented branch, including negative zero, overflow and underflow ranges.",
 ["inputs"], "all floating point inputs", "Tests sample a few points or 100 random points in a small box.", [CX],
 [("formulas per function", CX)])
prop("C20", "Real function traits agree with the standard library",
 "The elementary function traits for f32 and f64, integer conjugation, and the Ackley test function return the values of the functions they name for every input.",
 ["inputs"], "all floating point inputs", "Tests sample a few points.", ["src/functions/mod.rs", "src/algebra/conj.rs", "src/optimize/test_functions.rs"],
 [("forwarding impls", "src/functions/")])
prop("C22", "Complex elementary functions survive failing scalars",
 "exp, sin, cos, tan, sinh, cosh, ln, sqrt, abs and arg of complex numbers work over any user-defined real scalar type that provides the real functions they are built from. If a scalar operation or real function fails (panics) midway, exactly that failure reaches the caller, no further scalar arithmetic is attempted, a borrowed operand is unchanged, and every scalar value is destroyed exactly once. Without a failure, repeated after a transient failure, or called by several threads on one shared operand, they return the principal value (sqrt with non-negative real part and the sign of the imaginary part kept, ln and arg on the branch (-pi, pi]) up to rounding, for finite operands of moderate size on the axes and in all four quadrants.",
 ["crash_points", "fault_sequences", "schedules", "inputs"], "every scalar operation inside a function as a failure point; operands with each part zero or between 0.02 and 7 in magnitude; schedules of 2-3 threads",
 "The tests use f32 only, which cannot fail, at a few points or at 100 unseeded random points.", [CX, "src/functions/mod.rs"],
 [("formulas per function over cloned parts", CX), ("sqrt: two branches for numerical stability", CX)], [], ["result or panic payload", "Clone/Drop of the scalar type"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
