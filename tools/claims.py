PTA = 'sound for the code as go/ssa presents it; the element operations are taken to be those of numbers; assumes that callers race with nothing else; the Matrix methods are resolved to the five formats of this repository'
AI = 'static abstract interpretation over SSA: matrices as functions of the index, a relational domain of linear inequalities and ring terms, loops summarised by verified inductive invariants'
AIN = ' Every combination of sparse and dense operands, mask or none, and aliasing of output and operands that the operation supports is analysed, for matrices of any size and content. Calls on operands go through the contracts of the Matrix interface (C05, C14-C17 check those of the formats); paths on which the context is cancelled are not compared; elements are ring elements (no NaN, rounding or overflow); the output is assumed to have the shape of the result when there is no mask.'
CLAIMS = {
 'C06': (AI, 'proof', 'Every return entails agreeing shapes; every panic contradicts them and leaves the output unwritten.' + AIN),
 'C07': (AI, 'proof', 'The output keeps its initial element where the mask is true and has the defined one elsewhere.' + AIN),
 'C08': (AI, 'proof', 'The output has the defined element at every position.' + AIN),
 'C09': (AI, 'proof', 'The output has the inner product at every position.' + AIN),
 'C10': (AI, 'proof', 'The output at (i,j) is the operand at (j,i).' + AIN),
 'C01': ('static effect analysis: call-path-cloned points-to analysis over SSA', 'proof', 'No store on any path of a reading method reaches memory that existed before the call; ' + PTA),
 'C02': ('static effect analysis: call-path-cloned points-to analysis over SSA', 'proof', 'Every store of an operation goes to its output argument or to memory allocated in the call, in every aliasing configuration it supports; ' + PTA),
 'C03': ('static escape and sharing analysis: call-path-cloned points-to analysis over SSA', 'proof', 'No memory reachable from a result was reachable from an operand; ' + PTA),
 'C04': ('static lock-set dataflow analysis over SSA', 'proof', 'Every access to the wrapped matrix on every path is made with the lock of the required strength held and every lock is released by a deferred or post-dominating unlock; trusts sync.RWMutex'),
 'C30': ('static critical-section (two-phase locking) dataflow analysis over SSA', 'proof', 'Every call touches the wrapped matrix within one critical section and keeps no state outside it, which makes it atomic; trusts sync.RWMutex'),
 'C18': ('static abstract interpretation over SSA with constant type-registry maps', 'proof', 'IsSparseMatrix is true for the three sparse and false for the four dense formats for every element type their constraint admits, after the interpreted package initialisation; trusts the model of reflect.Type'),
 'C19': ('static abstract interpretation over SSA with uninterpreted element operations and an opaque total order', 'proof', 'Every operator applies exactly the named function to its arguments in order, for any element type; NaN is not considered'),
 'C25': ('static abstract interpretation over SSA with an opaque parent and derived context', 'proof', 'The mode comes back from the context and anything derived from it, every other key and method is the parent\'s, and the key is private to the package; trusts that contexts of the standard library pass Value on'),
 'C11': (AI, 'proof', 'True entails equal dimensions and elements, equal operands entail true, for every combination of formats, through the functions and the methods, nil operands included; between two sparse operands uses that a set of positions included in another of the same size equals it. Calls on operands go through the contracts of the Matrix interface; a cancelled context is not considered; no NaN'),
 'C32': (AI, 'proof', 'Every method of MutexMatrix is interpreted over a wrapped matrix known only by its interface; changes and answers on every path are those of the same method of the wrapped matrix; locks have no effect on values here (C04, C30 decide them); does not drive an iterator past one step'),
 'C29': (AI, 'proof', 'A true result entails square and equal to the (negated) transpose, and the converse; calls on the operand go through the contracts of the Matrix interface, which C08, C10 and C11 decide'),
}
AIS = ' The storage of each format is laid out as its invariant (pointers ascending and bounding the arrays, indices ascending within a row or column, no zero stored) with symbolic sizes and contents; the bodies are run on it and every way out must re-establish the invariant. Elements are ring elements (no NaN).'
CLAIMS.update({
 'C20': (AI, 'proof', 'The two sides of the reduction protocol, each against the other\'s contract: Reduce answers once, with the fold from the unit of exactly the values it received before the end, for an uninterpreted operator, any unit, any number and order of arrivals; the callers hand over each element of Enumerate the mask does not cover exactly once before the end, and give back the answer; the vector reductions do so per column. The ready-made monoids pair an identity (one known finding). Panics after a reduction began, and cancellation, are not part of this property'),
 'C22': (AI, 'proof', 'Induction on the size: with smaller products taken as the ordinary product, every way out returns the dimensions and the element sum of the ordinary product in exact ring arithmetic, for every combination of formats, every size including odd, empty and non-square, and every crossover; the recursion is on strictly smaller operands. Schedules of the seven goroutines are covered by the order-independence of what they write'),
})
CLAIMS.update({
 'C05': (AI, 'proof', 'For At, Set, Update, Element, RowsAt, ColumnsAt (and the array variants) of every format, every return entails indices in range, every panic contradicts that and comes before a write and before the update function is called.' + AIS),
 'C14': (AI, 'proof', 'After Set and Update the element at the position is the given one, at every other position (case split over rows or columns before, at and after) the previous one, and the update function receives the previous value, in every format.' + AIS),
 'C15': (AI, 'proof', 'Every method and operation that writes the storage of a sparse format leaves it well formed without a zero, or changes it only through the methods that do; Values is the number of stored entries. A function that writes the storage fields and is not one of those analysed is reported.' + AIS),
 'C16': (AI, 'proof', 'For each iterator and map of each format: the state of the iteration is a verified invariant over calls of Next, each Next returns the following stored element with its own row, column and value, HasNext is true exactly as long as one is left; Map replaces every element, also when it removes on the way.' + AIS),
 'C17': (AI, 'proof', 'RowsAt, ColumnsAt, their array variants, Copy and Clear of every format and the conversions give the specified length and the specified element at every position.' + AIS),
 'C24': (AI, 'proof', 'Every returned matrix, vector or array has the defined dimensions, over the operations of the package and the methods of every format.' + AIS),
 'C26': (AI, 'proof', 'Every constructor yields the requested dimensions, a well-formed storage, rows that share no memory unless it wraps the given array, and the given element (or zero) at every position. The array constructors are given at least one row, all of one length.' + AIS),
 'C27': (AI, 'proof', 'Growing and shrinking are each proved for every length and capacity: length, kept elements, zeros, result.' + AIS),
})
CLAIMS.update({
 'C12': (AI, 'proof', 'Every loop of the packages is gone through in cases of the other properties; on every way round it a measure bounded below is lessened, or one of a lexicographic pair, and in an operation with a context every way round that reads or writes elements looks whether the context is done, after which nothing of a matrix is touched before the loop is left. A loop no case goes through is reported. An exchange of two lines in a sort is completed. Loops that wait for a channel are C13.'),
 'C21': (AI, 'proof', 'The search is run on an unknown square graph of any size, source and goal, with ghost vectors for the frontier and the visited vertices; the masked product answers with an unknown level (what it computes is C07 and C09). Uncancelled; the goal is taken not to change the vector it is given.'),
 'C23': (AI, 'proof', 'String is followed element by element, the answers of Compare, Less and Greater by case split over the order of the two strings (in their own byte order, which is that of the elements for valid code points), and the sorts for whatever the comparisons answer: exchanging at every comparison, position by position, orders any total preorder. Uncancelled; Compare for operands of the same dimensions.'),
})
PENDING = 'the static check is being built'
NOT_APPLICABLE = {f'C{n:02d}': PENDING for n in range(1, 32)}
NOT_APPLICABLE['C28'] = 'whether the elimination reaches reduced row echelon form depends on an inductive invariant over pivot positions and on element values; no static argument in reach decides it, and a rule over the shape of the loops would not be a necessary condition'
NOT_APPLICABLE['C31'] = 'rounding errors and overflow are bounds on runtime values of a generic element type; nothing in the source bounds them'
CLAIMS['C13'] = ('static exploration of communicating automata extracted from SSA, with abstract interpretation for the panics', 'proof', 'Every goroutine is reduced to its operations on channels and wait groups, branches on what is not tracked go both ways, the context is done at any time or never, and every interleaving is gone through; an interleaving without an operation left has ended all goroutines. Calls that neither communicate nor start goroutines are taken to return (C12); a monoid of the user is taken to keep to the protocol of Reduce.')
