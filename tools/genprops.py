#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Run by hand when a property changes; no check needs it."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ST=["csrMatrix.go","cscMatrix.go","sparseVector.go","denseMatrix.go","denseVector.go"]
SP=["csrMatrix.go","cscMatrix.go","sparseVector.go"]

p("C01","Reading a matrix never writes to it",
"Looking up an element, testing an element as a mask, asking for dimensions, size or number of values, extracting a row or a column, copying, enumerating and comparing perform no write at all, not even of the same value, to the memory of the matrix or vector read or of any other argument. Any number of goroutines can therefore read one matrix at the same time without synchronisation.",
["inputs","schedules"],"every storage format, every content, every coordinate, and every interleaving of concurrent readers",
"A read that writes the value back leaves every single-threaded result unchanged; the tests never read concurrently.",
ST,[("read methods only load fields and elements of the receiver","CSRMatrix/CSCMatrix/SparseVector/DenseMatrix/DenseVector: At, AtVec, Element, Rows, Columns, Length, Size, Values, RowsAt, ColumnsAt, RowsAtToArray, Copy, CopyLogical, Enumerate+Next, Equal, NotEqual")],obs=["At","Element","Enumerate"])
p("C02","Operations leave their operands and masks unchanged",
"Every operation (addition, subtraction, multiplication, element-wise operations, negation, transposition, apply, scalar multiplication, reduction, comparison, sorting, row reduction, Strassen multiplication, breadth-first search, symmetry tests) writes only to the output argument it was given or to objects it created. Its other operands and its mask hold the same elements afterwards, whichever format they have.",
["inputs"],"every operation, every combination of storage formats, masked or not, whatever the operands hold",
"Tests compare the result and rarely look at the operands again, and never for every format of every operand.",
["operators.go","math/strassen/strassen.go","math/reduced/reduced.go","sort/bubble.go","breadthfirst/breadthFirst.go"]+ST,
[("operands that are also the output are copied before the output is written","operators.go Add, Subtract"),("results are built in fresh or copied matrices","the methods Add, Subtract, Negative, Transpose, Multiply, Scalar of every format")])
p("C03","Results share no storage with operands",
"A copy, an extracted row or column, and the result of any operation that returns a matrix, vector or array share no memory with the operands: a later write to either side is never visible through the other. Only the raw-data accessor of the dense matrix and the dense from-array constructors, which document that they wrap the caller's data, are exempt.",
["inputs","histories"],"every format, every method that returns a matrix, vector or array, every later history of writes on both sides",
"Sharing shows only after a later write to one side, with a capacity or shape the tests do not reach.",
ST+["operators.go","math/reduced/reduced.go","math/strassen/strassen.go","sort/bubble.go"],[("element by element copies into fresh arrays","Copy, CopyLogical, RowsAt, ColumnsAt, RowsAtToArray of every format")])
p("C04","The mutex matrix guards every access to the matrix it wraps",
"Whatever the schedule, the wrapped matrix is modified only while the write lock is held and read only while the read or write lock is held, including by iterators that outlive the call that made them. Every lock is released on every way out of the call, a panic included, and no method hands out something through which the wrapped matrix can be reached without the lock.",
["schedules","inputs"],"every method of the mutex matrix, every interleaving of goroutines, every argument including those that panic",
"The tests use one goroutine; a missing or too weak lock has no effect there.",
["mutexMatrix.go"],[("Lock/RLock with deferred release around every use of the wrapped matrix","mutexMatrix.go"),("iterators run over a snapshot and update under the lock","mutexMatrix.go Enumerate, Map")],
[("matrix","the wrapped matrix","mutexMatrix.go MutexMatrix.matrix")])
p("C05","Out-of-range coordinates panic and change nothing",
"Reading, writing, updating or masking with a row or column outside the dimensions, or extracting a row or column that does not exist, panics in every storage format. The panic comes before anything is written and before the update function is called.",
["inputs"],"every format, every accessor, every negative or too large row or column",
"Tests try a handful of bad coordinates on some methods; other bad coordinates read or overwrite a neighbouring element without failing.",
ST,[("bounds checks at the start of the accessors","At, Set, Update, UpdateReturnPointer, SetReturnPointer, AtVec, SetVec, RowsAt, ColumnsAt, RowsAtToArray, Element")])
p("C06","Incompatible shapes are rejected before anything is written",
"Addition, subtraction and the element-wise operations panic when the operands differ in rows or columns, multiplication when the inner dimensions differ, and every operation with a mask when the mask and the output differ in shape (for a reduction, the mask and the operand). The panic comes before the output is written.",
["inputs"],"all pairs of shapes of operands, mask and output, every format",
"Tests try one or two mismatches per operation; they do not check that nothing was written.",
["operators.go","math/strassen/strassen.go"],[("dimension checks at the start of each operation","operators.go, strassen.go MultiplyCrossoverPoint")])
p("C07","A mask protects exactly the positions it covers",
"An operation with a mask leaves the output's element unchanged at every position where the mask's element is true, and computes it as if there were no mask at every other position; without a mask every position is computed. The position tested is the position written, also for transposition, and a masked reduction combines exactly the stored elements the mask does not cover.",
["inputs"],"every operation with a mask parameter, every mask (including matrices used as masks and empty masks), in place or not, every format",
"Tests use one or two masks that are often symmetric or diagonal.",
["operators.go","mask.go"]+ST,[("mask.Element guards each write of the output","operators.go"),("Element of every format, EmptyMask.Element","csrMatrix.go, cscMatrix.go, sparseVector.go, denseMatrix.go, denseVector.go, mask.go")])
p("C08","Element-wise operations compute every position",
"Sum, difference, negation, scalar product, apply and element-wise product give at each position exactly the function of the operands' elements at that position, whichever operands are sparse or dense and whether or not the output is one of the operands; the element-wise addition has at each position the element of the second operand if it is not zero, else of the first. This holds for an output that starts empty or is one of the operands (apply covers the stored elements of its operand).",
["inputs"],"all contents, all nine or more combinations of formats, output distinct from or the same as an operand",
"Results differ only for elements stored in one operand but not the other, for particular format pairs, or in place.",
["operators.go"]+ST,[("one loop per operand over its stored elements","operators.go Add, Subtract, elementWiseAdd, elementWiseMultiply, Apply, Negative, Scalar")])
p("C09","Matrix multiplication is the inner product of rows and columns",
"Each element of a product is the sum over all k of left(r,k)*right(k,c), for matrix by matrix, matrix by vector and vector products and through the Multiply methods of every format. Every unmasked position of the output is written, including those whose sum is zero.",
["inputs"],"all shapes including empty and non-square, all contents and formats",
"Tests multiply a few small matrices.",
["operators.go"]+ST,[("triple loop over RowsAt and ColumnsAt","operators.go multiply")])
p("C10","Transposition swaps every row and column",
"The transpose of an r by c matrix is a c by r matrix whose element at (j,i) is the operand's element at (i,j), for every format and for the conversions to compressed rows and compressed columns.",
["inputs"],"all shapes and contents, every format",
"Square or symmetric samples cannot tell swapped coordinates apart from unswapped ones.",
["operators.go"]+ST,[("Set(c, r, value) for every stored element into a matrix of swapped dimensions","operators.go Transpose, TransposeToCSR, TransposeToCSC and the Transpose methods")])
p("C11","Equality is exact and independent of the storage format",
"Equal is true if and only if both operands have the same dimensions and the same element at every position, whichever formats they are stored in and in whichever order they are given; NotEqual is its negation. A nil operand equals only another nil operand.",
["inputs"],"all pairs of matrices, all pairs of formats",
"Only pairs of formats and patterns that the tests try are compared; a missed element needs a pattern stored in one operand only.",
["operators.go","matrixRegistry.go"]+ST,[("comparison over the enumeration of the operand that covers the other one's elements","operators.go Equal")])
p("C12","Every loop makes progress and cancellation stops it",
"Every loop over elements or coordinates moves forward on every path round it, so that it ends for every finite matrix, and when the context is cancelled an operation that takes one returns without reading or writing further elements in the loop it is in, rather than spinning or carrying on.",
["inputs","schedules"],"every cancellation point of every operation with a context, every matrix",
"Tests never cancel a context.",
["operators.go","math/strassen/strassen.go","math/reduced/reduced.go","sort/bubble.go","breadthfirst/breadthFirst.go"]+ST,[("select on ctx.Done in each element loop; iterators advance on every path","operators.go")])
p("C13","Reductions and parallel products leave no goroutine behind and never deadlock",
"A reduction or a parallel product returns in every schedule, cancelled or not, once its goroutines run, without a send on a closed channel, and when it has returned or panicked none of the goroutines it started stays blocked.",
["schedules"],"all interleavings of the goroutines of a reduction (caller, reader of the matrix, reducer) and of a Strassen product, with and without cancellation",
"A leak or a lost wake-up needs a particular interleaving or a cancellation; the tests look at the result of one schedule.",
["binaryop/monoID.go","operators.go","math/strassen/strassen.go"],[("done/slice/out protocol","monoID.Reduce, ReduceMatrixToScalarWithMonoID"),("seven senders and seven receives","MultiplyCrossoverPoint, subMatrixM")])
p("C14","Storing an element stores that element and no other",
"After setting or updating position (r,c), reading (r,c) gives the new value and reading any other position gives what it gave before, for every storage format, any order of insertions, overwrites and removals, and positions in empty first, middle and last rows or columns. The update function receives the value the position had.",
["inputs","histories"],"all histories of Set, SetVec, Update, SetReturnPointer, UpdateReturnPointer, Clear on every format",
"The property quantifies over all histories and shapes; tests insert a few elements in ascending order.",
ST,[("binary search, insertion and removal in parallel arrays, and shift of the following row or column pointers","columnIndex, rowIndex, index, insert, remove")],
[("values, cols/rows/indices","parallel arrays of stored values and their positions, ascending within a row or column","csrMatrix.go, cscMatrix.go, sparseVector.go"),("rowStart/colStart","start of each row or column in the parallel arrays","csrMatrix.go, cscMatrix.go")])
p("C15","Sparse formats store no zeros and count what they store",
"A sparse matrix or vector never stores a zero: setting or updating a position to zero, or mapping an element to zero, removes it and storing a zero where there is none adds nothing. Its number of values is therefore the number of its non-zero elements.",
["inputs","histories"],"all histories of Set, Update and Map with zero and non-zero values on the sparse formats",
"A stored zero reads as zero, so results are right until a count or an enumeration meets it.",
SP,[("zero test before insert and after the update function","insert, UpdateReturnPointer, SetVec, Map")])
p("C16","Iterators visit each stored element exactly once",
"Enumerating visits every stored element exactly once with its own row, column and value and then ends (every position of a dense format, every non-zero element of a sparse one), for every shape including empty rows and columns. Mapping replaces each such element by the function's result, also when the function removes elements on the way by returning zero.",
["inputs"],"all matrices, all functions, including those that return zero for some elements",
"Skipped or repeated elements depend on the pattern of empty rows and of removals.",
ST,[("cSRMatrixIterator.next, cSCMatrixIterator.next, sparseVectorIterator.next, denseMatrixIterator.next, denseVectorIterator.next and the Map types","csrMatrix.go, cscMatrix.go, sparseVector.go, denseMatrix.go, denseVector.go")])
p("C17","Rows, columns and copies hold the elements they were taken from",
"Extracting row r or column c gives a vector or array of the right length whose k-th element is the matrix's element at that row or column and position k, and a copy has the dimensions and the elements of its original. Clearing a matrix leaves its dimensions and makes every element zero.",
["inputs"],"all shapes and contents, every format, every row and column",
"Tests extract a few rows of small matrices that have no empty rows or columns.",
ST,[("RowsAt, ColumnsAt, RowsAtToArray, Copy, CopyLogical, Clear","every format")])
p("C18","Sparse formats are recognised for every element type",
"The test whether a matrix is sparse is true for the compressed-row, compressed-column and sparse-vector formats and false for the dense ones, for every element type they can be used with; registering a type twice panics.",
["inputs","configurations"],"every element type and format",
"The tests instantiate one element type, float64.",
["matrixRegistry.go"]+SP,[("registration in init and lookup by type","RegisterMatrix, IsSparseMatrix")])
p("C19","The operators compute the functions they are named after",
"Each arithmetic, selection, logical and comparison operator, in both packages that offer it and for every element type, applies exactly the function of its two arguments it is named after, with the arguments in the given order, and constructing an operator from a function applies that function.",
["inputs"],"all argument values, all element types",
"Tests apply each operator to a few values where minimum, first argument and others coincide, and the operators of one of the two packages not at all.",
["binaryop/operators.go","operators/arithmetic.go","operators/boolean.go","operators/comparison.go","operators/other.go","binaryop/binaryOp.go","binaryop/binaryOpToBool.go","unaryop/unaryOp.go"],[("function literals given to NewBinaryOp, NewBinaryOpToBool, NewUnaryOp","binaryop, operators, unaryop")])
p("C20","A reduction folds each element exactly once from the unit",
"Reducing with a monoid yields the unit combined on the right with each received value once and in order; reducing a matrix feeds it every stored element, and reducing a matrix to a vector does so for each column. The ready-made monoids pair an operator with its identity: zero for addition.",
["inputs","schedules"],"all operators and units, all matrices, all schedules of the goroutines of a reduction",
"A value lost or applied twice depends on the schedule; argument order shows only for operators that do not commute.",
["binaryop/monoID.go","operators.go","default.go"],[("result = Apply(result, value) from unit","monoID.Reduce"),("every stored element is sent","ReduceMatrixToScalarWithMonoID"),("unit zero with Addition","DefaultMonoIDAddition, DefaultMonoIDMaximum")])
p("C21","Breadth-first search visits vertices level by level, each once",
"Starting from the source alone, each round multiplies the adjacency matrix with the current frontier masked by the vertices visited so far, tests the goal on the new level before going on, adds the new level to the visited ones and makes it the next frontier. The search ends after at most as many rounds as there are vertices and returns the last level computed.",
["inputs"],"all graphs, sources and goal predicates",
"The test searches one seven-vertex graph.",
["breadthfirst/breadthFirst.go"],[("masked product, goal test, union into visited, copy to frontier, clear","Search")])
p("C22","Strassen multiplication equals ordinary multiplication",
"For every pair of multipliable matrices, every storage format and every crossover point, the Strassen product is the ordinary matrix product: same dimensions, and every element the same in exact arithmetic. Sizes it cannot halve are multiplied the ordinary way.",
["inputs"],"all sizes (odd, non-square, empty), all contents, all crossover points",
"One 4 by 4 example with equal rows cannot tell several wrong block formulas from the right one.",
["math/strassen/strassen.go"],[("division in blocks, seven products, recombination, fallback","MultiplyCrossoverPoint")])
p("C23","Sorting permutes whole rows or columns into order",
"Sorting returns a matrix whose rows (columns) are the rows (columns) of the operand moved as a whole, each exchange putting the lexicographically smaller of the two first, with every pair of positions compared. Comparing orders matrices by their elements position by position, row by row, and returns 0 for equal, -1 for less and 1 for greater operands.",
["inputs"],"all rune matrices of any format",
"Tests sort one 3 by 3 matrix.",
["sort/bubble.go","operators.go"],[("exchange of two rows or columns when Compare is positive","BubbleRow, BubbleColumns"),("string of all positions","Compare, Less, Greater, String")])
p("C24","Results have the dimensions their operation defines",
"Every returned matrix, vector or array has the dimensions its operation defines: sums, negations, copies and scalar products those of the operand, transposes the swapped ones, products the left operand's rows by the right operand's columns, extracted rows the number of columns, extracted columns the number of rows, column reductions one entry per column.",
["inputs"],"all shapes, every format and mixture of formats",
"Square samples hide swapped dimensions, and vector operands take paths the tests do not.",
["operators.go","math/strassen/strassen.go"]+ST,[("constructors called with the dimensions of the operands","methods of every format, TransposeToCSR, TransposeToCSC, ReduceMatrixToVectorWithMonoID")])
p("C25","The blocking mode survives context derivation",
"A context made with a mode reports that mode, also through any context derived from it, and otherwise behaves like its parent (deadline, cancellation, values). A context without a mode reports that it has none and blocking as default.",
["inputs","histories"],"every mode, every chain of derived contexts",
"The property quantifies over all derivations of a context.",
["context.go"],[("Value answers the mode's key and delegates every other key","graphContect, BlockingMode, NewContext")])
p("C26","Constructors build what they are given",
"A new matrix or vector has the requested dimensions and only zero elements, each row with its own storage, and one built from an array has the array's dimensions and its element at every position, for every format.",
["inputs"],"all dimensions and arrays",
"Tests build a few small matrices.",
ST,[("New* and New*FromArray","every format")])
p("C27","Resizing a dense vector keeps its leading elements",
"Resizing a dense vector gives it exactly the requested length, keeps the elements both lengths have in common, makes added elements zero and returns the new length.",
["inputs"],"all old and new lengths, all contents",
"Tests resize once or not at all.",
["denseVector.go"],[("ReSize","denseVector.go")])
p("C28","Row reduction yields the reduced row echelon form",
"Row reduction returns the reduced row echelon form of its operand.",
["inputs"],"all matrices",
"One 3 by 4 example.",
["math/reduced/reduced.go"],[("pivot search, exchange, scaling, elimination","Reduced")])
p("C29","The symmetry tests decide symmetry",
"A matrix is reported symmetric if and only if it is square and equals its transpose, and skew-symmetric if and only if it is square and equals the negation of its transpose, for every format.",
["inputs"],"all matrices, every format",
"Tests try one symmetric matrix and none that is not.",
["math/symmetric/symmetric.go","math/skewsymmetric/skewSymmetric.go"],[("comparison with Transpose and Negative","Symmetric, SkewSymmetric")])
p("C30","Concurrent histories on a mutex matrix are linearizable",
"Every concurrent history of single calls on a mutex matrix is equivalent to a sequential one in which each call takes effect at one instant.",
["schedules","histories"],"all concurrent histories",
"The tests are single-threaded.",
["mutexMatrix.go"],[("one critical section per call","mutexMatrix.go")])
p("C31","Numeric results are accurate",
"Results of floating-point operations are within the usual rounding bounds of the exact results, and integer operations do not overflow for representable results.",
["inputs"],"all floating-point and integer contents",
"Tests use small whole numbers.",
["operators.go","math/strassen/strassen.go","math/reduced/reduced.go"],[("order of summation","operators.go multiply, strassen.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
