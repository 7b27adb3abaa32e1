import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/"
ALL=[S+"core/num/int.rs",S+"core/num/rat.rs",S+"core/num/traits.rs",S+"linalg/mat.rs",S+"linalg/algorithm.rs",S+"linalg/cone.rs",S+"linalg/util.rs",S+"poly/elts.rs",S+"poly/mdeg.rs",S+"poly/ord.rs",S+"poly/comp.rs",S+"poly/display.rs"]
p("C01","An interrupted Groebner basis computation never changes the ideal",
 "If a Groebner basis computation on a caller's list of nonzero polynomials is cut short at any point by a panic (raised by the coefficient arithmetic, by the monomial order, or by an arithmetic overflow), the list the caller still holds generates exactly the ideal it generated before the call. The same is true when the computation completes, and after any sequence of interrupted and resumed attempts.",
 ["crash_points","inputs","configurations","histories"],"every generator list, every coefficient field and monomial order, every callback at which the call may be unwound, every sequence of such cuts",
 "The only Buchberger test prints its result and never interrupts a call; no test unwinds anything.",
 [S+"poly/comp.rs",S+"poly/elts.rs"],
 [("extend / minimize / reduce mutate the list in place, one element at a time","src/poly/comp.rs buchberger_algorithm"),("each list edit must follow, not precede, the fallible computation","src/poly/comp.rs buchberger_reduce")],
 ["the caller's Vec<Polynomial> after catch_unwind"],None,[("generators","the list being completed in place","src/poly/comp.rs")])
p("C02","A rerun after interruptions completes with the reduced Groebner basis",
 "Once faults stop, rerunning the Groebner basis computation on whatever list earlier interrupted attempts left behind finishes within a bounded number of steps. It leaves the reduced Groebner basis of the original ideal - monic, no term divisible by another element's leading term - which as a set is the one an uninterrupted run produces.",
 ["crash_points","fault_sequences","inputs","configurations","histories"],"every generator list, order and field, and every sequence of interrupted attempts before the clean one",
 "No test compares a computed basis with anything, and none resumes from a partial state.",
 [S+"poly/comp.rs"],
 [("extension to a Groebner basis, minimisation, reduction","src/poly/comp.rs buchberger_algorithm")],
 ["the caller's Vec<Polynomial> after the clean run"])
p("C03","Results do not depend on the process environment",
 "Every public computation returns the identical result - values, and order of any returned elements - in every process that makes the same calls. In particular it does not depend on the random hash seed, clock readings, memory addresses, environment variables, or which thread runs it.",
 ["configurations","inputs","histories"],"every public operation and input, every seed of hash randomisation, clock behaviour, heap layout, environment and thread placement",
 "A test process sees one hash seed and one heap layout, and no test looks at the order of a computed range basis.",
 ALL,[("no use of ambient state; hash containers used only for membership, never for ordering results","src/linalg/algorithm.rs compute_kernel, compute_range")],
 ["returned values"])
p("C04","Concurrent callers get the results they would get alone",
 "Values of the library can be shared between and sent to threads. When several threads make library calls at the same time, on shared or separate operands, each call returns - or panics - exactly as the same call does when made alone in a fresh process, whatever the interleaving.",
 ["schedules","inputs","histories"],"every set of concurrent calls on every inputs, every interleaving of their steps",
 "Tests are single-threaded per case; the harness's parallelism is uncontrolled and nothing is shared between tests.",
 ALL,[("no shared mutable state behind shared references: plain owned data, operations build new values","src/linalg/mat.rs, src/poly/elts.rs, src/poly/mdeg.rs")],
 ["returned values and panics per call"])
p("C05","Earlier calls, finished or interrupted, leave no trace on later ones",
 "What a call returns depends only on its arguments: after any history of earlier calls in the same thread and process, including calls that were unwound midway by a panic in user-supplied arithmetic, ordering or output sink, it returns exactly what it returns in a fresh process.",
 ["histories","crash_points","fault_sequences","inputs"],"every sequence of earlier calls, and every callback at which each of them may have been unwound",
 "Tests make few calls each, compare no call against a fresh process, and never unwind a call.",
 ALL,[("no global, thread-local or cached state survives a call","whole crate")],
 ["returned values and panics per call"])
p("C06","Borrowed operands are never modified",
 "An operation that takes its operands by shared reference leaves them exactly as they were - same entries, same terms in the same order, same shape. This holds at every moment while the call runs, and also when it is unwound midway.",
 ["schedules","crash_points","inputs"],"every operation taking shared references, every operand, every instant during the call and every point at which it may be unwound",
 "Tests do not re-read operands after a call, let alone from another thread or after an unwind.",
 [S+"linalg/mat.rs",S+"linalg/algorithm.rs",S+"poly/elts.rs",S+"poly/comp.rs",S+"poly/mdeg.rs",S+"poly/ord.rs"],
 [("operations clone before mutating","src/poly/comp.rs divide, src/linalg/algorithm.rs lu, row_echelon, src/poly/elts.rs Add")],
 ["the operands, from the calling thread and from others"])
p("C07","In-place edits touch exactly what they address, even if interrupted",
 "An in-place edit - of a matrix (entry assignment, entry swap, row scaling, row exchange, row replacement, scaling the whole matrix, writing through a mutable row or column iterator), of a polynomial or a multidegree (writing through their mutable iterators, trimming trailing zeros) - performs its elementary operation on the addressed entries and leaves the shape and every other entry alone. If coefficient arithmetic or the caller's loop panics midway, every addressed entry holds either its old or its new value and nothing else has changed. No other value changes with the edited one: not its clones, not the one it was cloned from, not rows, columns or transposes taken from a matrix before. A compound assignment on a rational (+=, -=, *=, /=) that panics leaves the old value.",
 ["histories","crash_points","inputs"],"every matrix shape, every sequence of edits, every coefficient operation at which an edit may be unwound",
 "Row mutators are only exercised indirectly through LU on 3x4 matrices; the mutable iterators have no test; nothing is interrupted.",
 [S+"linalg/mat.rs",S+"core/num/rat.rs",S+"poly/elts.rs",S+"poly/mdeg.rs"],
 [("entry-at-a-time assignment after the value is computed","src/linalg/mat.rs scale_row, replace_row, MulAssign"),("row-major indexing","src/linalg/mat.rs get_row_iter_mut, get_col_iter_mut"),("compute, then assign","src/core/num/rat.rs impl_op_assign_for_rational_simple")],
 ["the edited matrix or rational after the call or the unwind"])
p("C08","Printing to a failing sink reports the failure and garbles nothing",
 "Formatting any value into a sink that fails at any point returns an error whenever the sink reported one, and the text delivered is then a prefix of the full rendering. If the sink reports no error, the formatting succeeds and delivers the full rendering; and after any failed, panicking or concurrent rendering, rendering the same value again gives the full text.",
 ["fault_sequences","inputs","schedules"],"every printable value and format, every byte or call at which the sink may fail or panic, transient or permanent failure",
 "Tests print to infallible strings and stdout only.",
 [S+"poly/display.rs",S+"linalg/mat.rs",S+"core/num/int.rs",S+"core/num/rat.rs"],
 [("every write's error is propagated with ?","src/poly/display.rs, src/linalg/mat.rs Display")],
 ["fmt::Result and the bytes the sink accepted"])
p("C09","A stalled caller never blocks another",
 "If some threads stop for good at arbitrary points inside library calls, every other thread's calls still run to completion, within a bounded number of their own steps. No call waits for another call.",
 ["schedules","inputs","fault_sequences"],"every set of concurrent calls, every point at which each caller may stall",
 "Tests never suspend a caller; a lock added around shared state would pass them all.",
 ALL,[("no locks, no blocking, no threads of its own","whole crate")],
 ["completion of each call"])
p("C10","Nested calls from user-supplied code are transparent",
 "User-supplied code that the library calls back - coefficient arithmetic, a monomial order, an output sink, an iterator - may itself call the library, to any depth, in the middle of the outer call. Both the outer and the nested calls then return exactly what they return on their own.",
 ["schedules","inputs","configurations"],"every pair of outer and nested operations, every callback at which the nested call may happen, nesting depth",
 "Tests use f64 and Rational only, whose arithmetic never calls back.",
 ALL,[("no per-call state outside the call's own frame","whole crate")],
 ["returned values of outer and nested calls"])
p("C11","Repeating a history, interrupted or not, does not accumulate memory",
 "Running the same history of calls again and again in one process, including calls that are unwound midway, does not make the memory the library holds on to grow from one repetition to the next.",
 ["histories","crash_points","inputs"],"every history of calls and every set of points at which its calls are unwound",
 "Tests do not measure memory and never unwind a call.",
 ALL,[("plain ownership: everything allocated is owned by a value that is dropped","whole crate")],
 ["bytes live after each repetition"])
p("C12","A failed allocation never yields a wrong result",
 "If a memory allocation fails at any point during a call, the call either still returns exactly its normal result or does not return at all (the process aborts, or the call panics). It never returns a different value and never corrupts memory.",
 ["fault_sequences","crash_points","inputs"],"every operation and input, every allocation of the call that may fail, once or from then on",
 "Allocation does not fail in tests.",
 ALL,[("only infallible allocation (Vec, collect), whose failure aborts","src/linalg/mat.rs, src/poly/elts.rs, src/poly/mdeg.rs")],
 ["result or manner of death of the process"])
p("C13","The command-line program reports success only for complete output",
 "The demo program exits with status 0 only if its entire output was accepted by standard output. Short or interrupted writes lose and duplicate nothing, and after a write error what was delivered is a prefix of the full output.",
 ["fault_sequences"],"every sequence of short, interrupted and failing writes on an open standard output",
 "The binary has no test.",
 [S+"main.rs"],[("println! panics on a write error","src/main.rs main")],
 ["exit status and delivered bytes"])
p("C14","Elimination results are right whatever pivots are preferred",
 "Over an exact field, for every pivot preference that never ranks zero above a nonzero entry, LU decomposition returns a permutation P, a lower triangular L and a row-echelon U with PA = LU, and the computed rank, nullity, kernel and range are those of the matrix: the kernel vectors are a basis of the null space and the range vectors a basis of the column space. Rank, nullity, kernel basis and range basis compare equal for all pivot preferences.",
 ["schedules","inputs","configurations"],"every matrix over an exact field and every pivot preference (total preorder on the entries compared, zero lowest)",
 "Tests see the one pivot sequence that f64 magnitudes give on 3x4 matrices with entries 0, 1, 2; no exact field and no range is tested.",
 [S+"linalg/algorithm.rs",S+"linalg/mat.rs",S+"linalg/util.rs",S+"core/num/rat.rs",S+"core/num/traits.rs"],
 [("pivot selection","src/linalg/algorithm.rs get_stable_column_index_under_row"),("row operations mirrored on P and L","src/linalg/algorithm.rs LUDecompositionInternal"),("canonical form of exact scalars makes equal values compare equal","src/core/num/rat.rs")],
 ["lu(), row_echelon(), to_rref(), rank, nullity, compute_kernel, compute_range"])
p("C15","Lazy enumerations deliver every item exactly once under any stepping",
 "The library's lazy enumerations (matrices over a finite set of values, index pairs, digit sequences, rows and columns, degrees, terms) deliver every item exactly once in a fixed order. This holds however their steps are suspended, interleaved with steps of other enumerations and with other calls on any thread, or cut short by abandoning some of them.",
 ["schedules","histories","inputs"],"every set of enumerations, every interleaving of their steps with each other and with other calls, every point of abandonment",
 "Tests drive one enumeration at a time to its end.",
 [S+"linalg/util.rs",S+"linalg/mat.rs",S+"poly/mdeg.rs",S+"poly/elts.rs"],
 [("all enumeration state lives in the iterator value","src/linalg/util.rs MatIterator, BaseSeqIterator, get_box_iter")],
 ["items delivered by next()"])
p("C16","A panic in user-supplied code reaches the caller unchanged",
 "When a coefficient type, monomial order, comparison function, iterator or output sink supplied by the caller panics during a library call, that same panic, with its own payload, unwinds out of the call: it is never swallowed, replaced by another, or turned into an abort of the process, not even when the user-supplied code goes on failing while the call unwinds or the call is itself made from inside another call's callback. The process's panic hook is left as it was.",
 ["crash_points","inputs","histories"],"every library call that calls user-supplied code and every point at which that code panics, once or persistently, directly or through nested calls",
 "No test lets user-supplied code panic.",
 [S+"poly/comp.rs",S+"poly/elts.rs",S+"poly/display.rs",S+"linalg/mat.rs",S+"linalg/algorithm.rs",S+"linalg/util.rs",S+"linalg/cone.rs",S+"core/num/rat.rs"],
 [("no catch_unwind, no panicking destructors, no panic while formatting a panic's message","src/poly, src/linalg, src/core")],
 ["payload of the panic leaving the call; process status; the installed panic hook"])
p("C17","Calls work at any moment of a thread's or process's life",
 "A library call returns what it returns in a fresh process also while its thread is unwinding from a panic (from destructors, and from inside another call's callback), in destructors of thread-local values as the thread ends, on its first and its last action, in handlers run as the process exits, and in a process forked while other threads are in the middle of calls.",
 ["schedules","crash_points","histories"],"every library call, made at any of these moments, with other threads at any point of theirs",
 "Every test calls the library from a running test thread, in the process that started it.",
 [S+"poly/comp.rs",S+"poly/elts.rs",S+"linalg/mat.rs",S+"linalg/algorithm.rs",S+"linalg/util.rs",S+"linalg/cone.rs",S+"core/num/int.rs",S+"core/num/rat.rs"],
 [("calls depend on their arguments alone: no thread-local, locked or panic-sensitive state","src/poly, src/linalg, src/core")],
 ["value returned by the call; panics; deadlock; process status"])
p("C18","User-supplied code that answers wrongly harms only its own calls",
 "When a caller-supplied coefficient type, order, comparison function, iterator or sink gives wrong or inconsistent answers, the call it was supplied to may return a wrong result, panic or run long, but it never crashes the process, never writes outside memory it owns, never changes operands it only borrowed, and never changes what any later, concurrent or enclosing call returns.",
 ["inputs","schedules","histories"],"every library call and every sequence of wrong answers from the code supplied to it, with any other calls around it",
 "Tests only supply lawful types, orders and iterators.",
 [S+"poly/comp.rs",S+"poly/elts.rs",S+"poly/ord.rs",S+"linalg/mat.rs",S+"linalg/algorithm.rs",S+"linalg/util.rs",S+"linalg/cone.rs",S+"core/num/rat.rs"],
 [("safe code only: traits are trusted for results, not for memory","src/poly, src/linalg, src/core")],
 ["process status; heap integrity; borrowed operands; results of other calls"])
p("C19","Calls need only a small fixed amount of stack, however large the operands",
 "Every library call completes, or unwinds from a panic of user-supplied code, on a thread with 32 KiB of stack, as it does on one with plenty, for operands of any size: matrices with hundreds of rows or columns, polynomials with many hundreds of terms, divisions with hundreds of steps, lists of many generators, multidegrees in thousands of variables.",
 ["configurations","inputs","crash_points"],"every library call on operands of any size, on a thread with little stack",
 "Tests run small operands on threads with 2 MiB of stack.",
 [S+"poly/comp.rs",S+"poly/elts.rs",S+"poly/mdeg.rs",S+"poly/display.rs",S+"linalg/mat.rs",S+"linalg/algorithm.rs",S+"linalg/util.rs",S+"linalg/cone.rs"],
 [("iteration rather than recursion; everything sized by an operand is on the heap","src/poly, src/linalg")],
 ["process status; value returned by the call"])
p("C32","A refused system service never changes a result",
 "If the operating system refuses any service asked for during a library call - starting a thread, entropy, opening, reading or writing a file, an uninterrupted sleep - the call either returns exactly the result it returns when nothing is refused, or panics; it never returns a different result. Later calls return what they always do.",
 ["fault_sequences","schedules","inputs","configurations"],"every library call and input, every request of it to the operating system that may be refused, every run of such refusals",
 "Tests run where every request is granted.",
 ALL,[("results depend on arguments only; the one service used is the entropy of std's hash containers","src/linalg/algorithm.rs compute_range and the whole crate")],
 ["returned values and panics per call"])
p("C33","Calls leave the process and the thread as they found them",
 "A library call changes nothing of the process but the values it is given to change: not the environment variables, working directory, file mode mask, signal handlers, resource limits, timers, locale, standard streams or panic hook - neither when it has ended nor at any moment while it runs. It leaves no file open, no child process and no thread behind. The calling thread's floating-point mode, signal mask, name and scheduling are as they were both whenever the call calls user-supplied code and when it has ended. All of this holds whether the call returns or is unwound midway by a panic.",
 ["crash_points","schedules","inputs","histories"],"every library call and input, every callback at which it may be unwound, every moment during it",
 "Tests look at returned values only, and never unwind a call.",
 ALL,[("calls compute on their arguments and touch nothing else","whole crate")],
 ["the process and the calling thread, from outside the library and from user-supplied code"])
# pure functions of the input
def pure(id,title,st,text,why,files,mech):
    p(id,title,st,["inputs"],text,why,files,mech)
pure("C20","Rational arithmetic is exact and canonical",
 "As long as no intermediate value overflows, rational arithmetic and comparison give the exact mathematical result, in lowest terms with a positive denominator, so that equal values compare equal.",
 "every pair of rationals","Four sampled sums and products of 1/2 and 1/3.",[S+"core/num/rat.rs"],[("normalisation in Rational::new","src/core/num/rat.rs")])
pure("C21","gcd and lcm are the greatest common divisor and least common multiple",
 "gcd returns the largest nonnegative common divisor of two integers and lcm the smallest nonnegative common multiple.",
 "every pair of integers","Five sampled gcds; lcm untested.",[S+"core/num/int.rs"],[("Euclid's algorithm","src/core/num/int.rs gcd")])
pure("C22","Monomial orders are total, multiplicative well-orders",
 "Each provided monomial order is total, is compatible with multiplication, ranks the constant monomial lowest, and orders monomials as its name says.",
 "every triple of multidegrees","A few dozen sampled pairs in three variables.",[S+"poly/ord.rs"],[("componentwise comparison","src/poly/ord.rs")])
pure("C23","Multidegree arithmetic is that of exponent vectors",
 "Addition, checked subtraction and divisibility of multidegrees agree with componentwise arithmetic on exponent vectors, and results carry no trailing zeros.",
 "every pair of multidegrees","No test in mdeg.rs.",[S+"poly/mdeg.rs"],[("zero cache","src/poly/mdeg.rs add, checked_sub")])
pure("C24","Polynomial operations satisfy the ring laws and keep terms clean",
 "Sums, differences, products and scalar quotients of polynomials are those of the polynomial ring, and their results never contain zero terms or two terms of the same multidegree.",
 "all polynomials over an exact field","Printed, not checked.",[S+"poly/elts.rs"],[("merge by multidegree, drop zero coefficients","src/poly/elts.rs")])
pure("C25","Evaluation is a ring homomorphism",
 "Evaluating at a point commutes with polynomial addition and multiplication.",
 "all polynomials and points over an exact field","eval has no test.",[S+"poly/elts.rs"],[("termwise evaluation","src/poly/elts.rs eval")])
pure("C26","Division with remainder satisfies its identity and bounds",
 "Division returns quotients and a remainder with f = sum q_i g_i + r, no term of r divisible by a leading term of a divisor, and no q_i g_i of larger multidegree than f.",
 "all polynomials, divisor lists and orders over an exact field","One exhaustive loop over tiny bivariate inputs checks the identity only.",[S+"poly/comp.rs"],[("leading-term cancellation","src/poly/comp.rs divide")])
pure("C27","Buchberger's criterion accepts exactly the Groebner bases",
 "The criterion returns true for a list of nonzero polynomials if and only if it is a Groebner basis of the ideal it generates.",
 "all lists of nonzero polynomials over an exact field","Not tested.",[S+"poly/comp.rs"],[("S-polynomial reduction","src/poly/comp.rs buchberger_criterion")])
pure("C28","Matrix algebra and elementary matrices obey linear algebra's laws",
 "Addition, multiplication, scaling, transposition and the elementary-matrix constructors compute what linear algebra defines, and multiplying by an elementary matrix equals the corresponding row operation.",
 "all matrices of compatible shapes over an exact field","A handful of fixed matrices.",[S+"linalg/mat.rs"],[("entrywise definitions","src/linalg/mat.rs")])
pure("C29","A cone's facets and dimension describe the cone its generators span",
 "Constructing a cone computes its dimension, a basis of the orthogonal complement, and exactly the facets of the cone spanned by the generators.",
 "all finite generator lists","No test; the source says it very likely does not work.",[S+"linalg/cone.rs"],[("subsets of generators","src/linalg/cone.rs Cone::new")])
pure("C30","Printed polynomials denote the polynomial",
 "The printed form of a polynomial, term or rational, read with ordinary mathematical conventions, denotes the value printed.",
 "all printable values","Printed, not checked, except one matrix.",[S+"poly/display.rs",S+"core/num/rat.rs"],[("sign and exponent rendering","src/poly/display.rs")])
pure("C31","Floating-point elimination is accurate up to the documented tolerance",
 "Over floating-point numbers LU, echelon forms and kernels satisfy their defining identities up to the documented epsilon equality for well-scaled matrices.",
 "all well-scaled floating-point matrices","3x4 matrices with entries 0, 1, 2.",[S+"linalg/algorithm.rs",S+"core/num/traits.rs"],[("pivoting by magnitude","src/linalg/algorithm.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80
print(len(P))
