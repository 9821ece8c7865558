#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
C = "include/BlasBooster/Core/"
U = "include/BlasBooster/Utilities/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Converting a matrix between representations never changes its value",
 "Converting or copying a matrix into any other supported representation (dense row- or column-major, compressed sparse, zero, multi-precision sum, double or single precision, runtime-typed) yields a matrix of the same dimensions with the same element at every position, up to rounding to the target scalar type and to zeroing exactly the elements that a supplied value filter rejects.",
 ["inputs", "programs"], "All source/target representation pairs, all dimensions including 0, 1 and non-square, all element values and all value filters.",
 "The unit tests convert a handful of fixed square or 3x3 constants for some pairs and never instantiate the others; no test ranges over shapes, layouts and filters.",
 [C+"DenseMatrix.h", C+"SparseMatrix.h", C+"ZeroMatrix.h", C+"MultipleMatrix.h", C+"Copy.h", C+"DynamicMatrixFunctions.h"],
 [("converting constructors of the dense matrix", C+"DenseMatrix.h"), ("converting constructors of the sparse matrix", C+"SparseMatrix.h"), ("cursor based copy", C+"Copy.h")],
 observe=["result dimensions", "every element of the result read through the public accessors"])

prop("C02", "Adaptive type selection picks the first sparse-enough type within error bounds",
 "Converting a dense matrix to a runtime-typed matrix chooses the first representation, in the fixed precision/sparsity preference order, whose two configured thresholds admit the shares of elements above the double precision and above the single precision significance threshold (an error is reported if none admits them). Every element above the double precision threshold is kept - exactly where the representation stores double precision, rounded where it stores single precision - in every representation but the zero matrix; the sparse and multiple representations drop exactly the elements not above it, the dense ones drop nothing.",
 ["inputs", "configurations"], "All dense matrices and all threshold settings.",
 "The tests fix one threshold setting and a few matrices; the selection is a cascade over nine types and two dependent thresholds whose corner cases (ties, zero thresholds, elements exactly on a threshold) are not sampled.",
 [C+"MatrixConverter.h", C+"Threshold.h", C+"Occupation.h", C+"DynamicMatrixTypeList.h"],
 [("first-match search over the ordered type list", C+"MatrixConverter.h"), ("per-type occupation and significance thresholds", C+"Threshold.h")],
 observe=["type of the chosen matrix", "elements of the chosen matrix"])

prop("C03", "Blocking a matrix and reassembling it is the identity",
 "Splitting a dense matrix into a grid of runtime-typed blocks covers every element by exactly one block at the right place, and converting the blocked matrix back to a dense matrix restores the original dimensions and elements up to the conversion thresholds. This holds for every partition of rows and columns into at least one (possibly empty) block each, for copied and moved blocked matrices alike.",
 ["inputs", "configurations", "histories"], "All dense matrices, all row/column partitions, all threshold settings, and copies/moves of the blocked matrix.",
 "The tests block one or two fixed matrices with one partition.",
 [C+"BlockedMatrixGenerator.h", C+"BlockedMatrix.h", C+"DenseMatrix.h"],
 [("sub-matrix views over the row/column partition", C+"BlockedMatrixGenerator.h"), ("assembly constructor of the dense matrix", C+"DenseMatrix.h")],
 observe=["dims of every block", "reassembled dense matrix"])

prop("C04", "Block sizes always partition the dimension within the configured limits",
 "For every matrix size and every admissible minimum/maximum block size the block size search terminates and returns block sizes that sum exactly to the dimension, each within the configured minimum and maximum (a dimension not larger than the minimum, also one without elements, is kept as one block). Borders are placed deterministically at the positions where the sparsity profile of the matrix changes most; the matrix, which may be a view, is not modified.",
 ["inputs", "configurations"], "All dense matrices and views, all admissible minimum/maximum block sizes, rows and columns.",
 "A test of one 10x10 matrix samples one path of a two-phase greedy search whose second phase rejects candidates depending on all earlier choices.",
 [C+"BlockSizeGenerator.h"],
 [("greedy border search over sorted jump candidates", C+"BlockSizeGenerator.h"), ("row and column occupation profile", C+"BlockSizeGenerator.h")],
 observe=["returned block sizes per direction"])

prop("C05", "Addition and subtraction are elementwise for every pair of representations",
 "For matrices of equal dimensions in any two supported representations, static or runtime-typed, the sum and the difference represent exactly the elementwise sum and difference of the represented values; operand order and sign are respected and neither operand is modified.",
 ["inputs", "programs"], "All representation pairs, storage orders, dimensions and values.",
 "Tests use one fixed 3x3 pair for a subset of the pairs; the pairwise functor table has dozens of entries, several of which are never instantiated by a test.",
 [C+"BinaryFunctors.h", C+"MatrixMultExp.h", C+"DynamicMatrixFunctions.h"],
 [("pairwise binary functors", C+"BinaryFunctors.h"), ("runtime double dispatch", C+"DynamicMatrixFunctions.h")],
 observe=["result elements", "operands after the operation"])

prop("C06", "Compound assignment accumulates the right operand into the left operand",
 "After `A += B` or `A -= B` the left operand represents the elementwise sum or difference of the two operands' previous values, for every supported pair of representations and layouts; the right operand is unchanged and only the elements addressed by the left operand (also when it is a view into a larger matrix) change.",
 ["inputs", "programs", "histories"], "All supported representation pairs, layouts, views and operation sequences.",
 "Tests cover a few fixed 3x3 cases and no history of several accumulations, no views, no row-major operands.",
 [C+"BinaryFunctors.h", C+"DenseMatrix.h"],
 [("in-place binary functors", C+"BinaryFunctors.h")],
 observe=["left operand, right operand and enclosing matrix after each operation"])

prop("C07", "Matrix products are exact for every operand pair and back end",
 "The product of any two conforming matrices in any supported representations and storage orders represents the mathematical matrix product of the represented values (up to floating-point rounding), whichever available computational back end evaluates it and whether the operand types are known statically or at run time. In particular it does not depend on previous contents of the result and does not modify its operands.",
 ["inputs", "programs", "configurations"], "All operand representation pairs, back ends (native, OpenBLAS, Eigen, Blaze, automatic), shapes and values.",
 "Tests multiply a few fixed square matrices per back end; shapes with a zero or one dimension, row-major operands and reused results are not sampled.",
 [C+"Multiplication_Native.h", C+"Multiplication_OpenBLAS.h", C+"Multiplication_Eigen.h", C+"Multiplication_Blaze.h", C+"Multiplication_TheBestPolicy.h", C+"MatrixMultExp.h"],
 [("native kernels", C+"Multiplication_Native.h"), ("automatic back end choice", C+"Multiplication_TheBestPolicy.h")],
 observe=["result elements and dims", "operands after the operation"])

prop("C08", "Blocked multiplication equals unblocked multiplication",
 "Multiplying two conformingly blocked matrices and reassembling the result gives the product of the unblocked matrices, for every partition, every mixture of block representations chosen by the adaptive conversion, and every distribution of empty blocks.",
 ["inputs", "configurations"], "All conforming matrices, partitions and thresholds that lose no element.",
 "The tests multiply one blocked fixture; the mixture of block types that meet in the inner sum is decided by data.",
 [C+"Multiplication_Native.h", C+"DynamicMatrixFunctions.h", C+"BlockedMatrixGenerator.h", C+"BinaryFunctors.h"],
 [("block product accumulation over runtime types", C+"Multiplication_Native.h")],
 observe=["reassembled product"])

prop("C09", "Norms and occupation equal their mathematical definition",
 "The one norm (the library's entrywise sum of absolute values), two norm (Euclidean norm of all elements), max norm (largest absolute value), occupation count and filtered occupation of a matrix depend only on the represented values and equal their definitions for every supported representation, storage order, precision and view; the filtered occupation counts the elements whose absolute value the filter accepts, for filters that reject zero.",
 ["inputs", "programs"], "All supported representations, shapes and values.",
 "Tests evaluate each norm on one or two constant matrices.",
 [C+"Norm.h", C+"Occupation.h"],
 [("norm functors", C+"Norm.h"), ("occupation functors", C+"Occupation.h")],
 observe=["returned norm/occupation"])

prop("C10", "Cached norms and occupations never become stale",
 "A norm or occupation query always returns the value that belongs to the current contents of the matrix, after any history of construction, copying, moving, swapping, assignment, resizing, accumulation and element modification through the matrix interface (through a reference, iterator or pointer it hands out, obtained after the last query); queries with different filters never answer for one another.",
 ["histories"], "All histories of mutation and query operations.",
 "Unit tests query a matrix once or twice; the cache is only wrong after query-mutate-query histories.",
 [C+"NormPolicy.h", C+"OccupationPolicy.h", C+"DenseMatrix.h", C+"SparseMatrix.h"],
 [("cached norm", C+"NormPolicy.h"), ("occupation map keyed by value checker", C+"OccupationPolicy.h")],
 state=[("norm_", "cached norm", C+"NormPolicy.h"), ("occupationMap_", "cached occupations per filter", C+"OccupationPolicy.h")],
 observe=["value of every norm/occupation query in a history"])

prop("C11", "Absolute value filters accept exactly the configured interval",
 "A value filter accepts a number exactly if its absolute value lies in the configured interval, with open or closed ends as declared by its kind, for every arithmetic value type, sign and magnitude. Construction is rejected with an error exactly for negative thresholds and for empty or inverted intervals.",
 ["inputs"], "All thresholds, values, kinds and value types.",
 "The tests check four sample values per kind.",
 [C+"AbsoluteValueRangeChecker.h"],
 [("range predicates and constructor guards", C+"AbsoluteValueRangeChecker.h")],
 observe=["constructor outcome", "predicate result"])

prop("C12", "The ordering of value filters is a strict weak order identifying equal filters",
 "The ordering used to key results by value filter is irreflexive, asymmetric and transitive over filters of all kinds, and two filters are equivalent under it exactly if they have the same kind and the same thresholds, so a map keyed by filters never merges or loses entries.",
 ["inputs", "histories"], "All pairs/triples of filters and all insert/lookup histories of a map keyed by them.",
 "The tests compare a few pairs.",
 [C+"AbsoluteValueRangeChecker.h", C+"OccupationPolicy.h"],
 [("lexicographic comparison of kind id and thresholds", C+"AbsoluteValueRangeChecker.h")],
 observe=["result of comparing two filters", "contents of a map keyed by filters"])

prop("C13", "Matrix memory is owned by exactly one matrix and released exactly once",
 "Over every history of constructing, copying, moving, swapping, assigning, resizing and destroying dense and sparse matrices and views, each allocated buffer is released exactly once and never used after release, deep copies never share memory, moves transfer contents, views alias exactly the memory they were created on and never free it, and no access leaves the buffer.",
 ["histories"], "All histories of lifecycle operations over several live matrices and views.",
 "Tests perform single lifecycle operations in isolation and do not observe allocation.",
 [C+"Storage.h", C+"SparseStorage.h", C+"DenseMatrix.h", C+"SparseMatrix.h", C+"Memory.h"],
 [("ownership flag and rule of five of the storage classes", C+"Storage.h")],
 state=[("ownMemory_", "whether the storage frees its buffer", C+"Storage.h")],
 observe=["allocation and release events", "contents and identity of every live buffer"])

prop("C14", "Views, cursors and strided iterators visit exactly the right elements in order",
 "Iterating a matrix, a sub-matrix view or a strided range through iterators or row/column cursors, forwards or backwards, visits every addressed element exactly once, in storage or logical order as documented, and no other memory; writes through a view modify exactly the addressed elements of the underlying matrix. Nested views address relative to the outermost matrix.",
 ["inputs", "histories"], "All shapes, leading dimensions, offsets, nesting, storage orders, traversal directions and read/write sequences.",
 "Tests iterate a few fixed arrays (e.g. one 3-block pattern) in one direction.",
 [C+"StripedIterator.h", C+"Cursor.h", C+"CursorBase.h", C+"StridedCursorBase.h", C+"Storage.h", C+"DenseMatrix.h"],
 [("striped iterator increment/decrement", C+"StripedIterator.h"), ("cursor begin/end and stride selection", C+"Cursor.h")],
 observe=["sequence of visited element addresses", "contents of the underlying memory"])

prop("C15", "Transposition swaps indices and is an involution",
 "The transpose of a dense or sparse matrix has swapped dimensions and holds at (j,i) the element the original holds at (i,j); transposing twice restores the original, and the operand is unchanged.",
 ["inputs"], "All shapes (non-square, empty, all-zero), layouts and values.",
 "Tests transpose one fixed matrix per kind.",
 [C+"Transposition.h", C+"SparseMatrix.h"],
 [("dense and sparse transposition", C+"Transposition.h")],
 observe=["transposed matrix elements"])

prop("C16", "Each BLAS wrapper calls exactly its namesake with unchanged arguments",
 "Every entry of the BLAS interface invokes exactly the back-end routine of the same name, once, with every argument forwarded unchanged in value and position, and returns that routine's result unchanged.",
 ["inputs", "programs"], "All functions of the function list, for each back end, and all argument values.",
 "No test calls more than one or two of the ~150 wrapped routines, and similarly typed neighbouring arguments can be interchanged without a compile error.",
 ["include/BlasBooster/BlasInterface/FunctionList.yml", "include/BlasBooster/BlasInterface/BlasInterface_OpenBLAS.h", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"],
 [("generated forwarding functions", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp")],
 observe=["symbol called at the back-end boundary, argument tuple, result"])

prop("C17", "Runtime type dispatch executes exactly the action of the matching type",
 "Dispatching on one or two runtime type predicates or runtime-typed matrices executes exactly one action, namely the one of the first matching type for each operand in list order and in operand order, passes the original objects, returns its result, and reports an error if no type matches. Type indices are the positions in the type list and differ for different types.",
 ["inputs", "programs"], "All type lists, predicates and operand type combinations.",
 "Tests dispatch on one matching type of a short list; the cross product of both operands is not enumerated.",
 [U+"exec_if.h", U+"exec_if_2dim.h", U+"exec_dyn.h", U+"exec_dyn_2dim.h", U+"TypeList.h", U+"TypeChecker.h", C+"DynamicMatrixTypeList.h"],
 [("recursive list dispatch", U+"exec_if.h"), ("function pointer tables", U+"exec_dyn_2dim.h")],
 observe=["which action ran, with which operands, how often"])

prop("C18", "Operation tracking counts every operation exactly once under its own identity",
 "After any history of tracked operations the register holds for each operation identity exactly the number of completed operations and a total duration equal to the sum of their durations; nested operations are counted separately, an operation left by an exception is counted once, and the report lists exactly the identities with non-zero count with their count and time.",
 ["histories"], "All histories of nested, repeated and exceptional tracked operations over all identities.",
 "No stable test exercises the tracker.",
 [U+"Tracker.h", "src/Utilities/tracker.cpp"],
 [("scope object adding to the register on destruction", U+"Tracker.h")],
 state=[("count", "completed operations per identity", U+"Tracker.h"), ("time", "accumulated duration per identity", U+"Tracker.h")],
 observe=["register contents", "printed report"])

prop("C19", "Names and identifiers correspond one to one",
 "For every enumeration with a name parser and every runtime type name, mapping an identifier to its name and back yields the identifier, mapping a name to its identifier and back yields the name, different identifiers have different names, and the name is the documented spelling of the identifier. A name or identifier that the enumeration does not have is reported as an error and never mapped to another one.",
 ["inputs", "configurations"], "All identifiers and names of every parsed enumeration, and names and identifiers it does not have.",
 "No stable test looks at the mapping; a swapped or duplicated pair compiles and is only visible in reports and configuration files.",
 [U+"EnumParser.h", U+"Tracker.h", U+"TypeName.h", C+"Threshold.h"],
 [("two synchronised maps", U+"EnumParser.h")],
 observe=["name of each identifier", "identifier of each name"])

prop("C20", "Saving and loading restores the object and protects existing files",
 "Writing an object (settings, paths: XML or binary; dense and zero matrices, dense and sparse storages: binary) to a file and reading it back, also into an already used object, restores an equal object. A file that is missing, is no such archive or is truncated is reported as an error when it is read and never yields a different object; a missing one leaves the target unchanged. Writing with overwriting disabled to an existing file reports an error and leaves that file byte for byte unchanged, and a file that cannot be written completely is reported.",
 ["histories", "inputs", "fault_sequences"], "All write/read histories over several files and objects, both formats, all overwrite flags and values, files damaged or replaced in between, places that cannot be written.",
 "No stable test touches file persistence.",
 [U+"FileIO.h", C+"Storage.h", C+"SparseStorage.h", C+"Dimension.h", C+"DenseMatrix.h", U+"BoostSerializePath.h"],
 [("existence checks before opening", U+"FileIO.h"), ("archive save/load of storages", C+"Storage.h")],
 observe=["file contents", "exception", "object read back"])

prop("C21", "Importing a matrix file reads exactly the described window",
 "Importing a matrix (of either element type and storage order) through a window descriptor, or through a list of dimensions and a data file, yields exactly the elements of the described window: rows, columns, leading dimensions and offsets refer to the column-major matrix in the data file. A descriptor or data file that is missing, malformed, incomplete, that describes a window outside of its matrix, or more elements than the data file holds, is reported as an error, never yields fabricated elements and leaves the target matrix and the files unchanged. A set of matrices consists of exactly the described members: band matrices for every dimension and band width in order (bands wider than the matrix fill it), copies of other sets and imported files; unknown kinds and names are errors.",
 ["inputs", "histories"], "All windows, leading dimensions, offsets, data lengths, malformed descriptors and matrix sets, for fresh and used targets.",
 "The repository's import test reads a single stored file.",
 [C+"MatrixFileIO.h", "src/MatrixFactory/MatrixFileImporter.cpp", "include/BlasBooster/MatrixFactory/MatrixFileImporter.h", "src/Benchmark/MatrixProvider.cpp", "src/Benchmark/MatrixProvider.h"],
 [("window check and column loop", C+"MatrixFileIO.h"), ("dimensions and data file of a list", "src/MatrixFactory/MatrixFileImporter.cpp"), ("kinds of members", "src/Benchmark/MatrixProvider.cpp")],
 observe=["imported matrix or reported error", "target matrix after a failed import", "members of a set"])

prop("C22", "Matrix generators and fillers produce the documented contents deterministically",
 "Filling a matrix (constant, increasing numbers in the order of storage, Hilbert, diagonal) on construction, on resizing or later sets every element of every shape, element type and storage order as documented and nothing else; filling a view sets exactly the elements of the view; diagonal fillers leave the other elements zero and reject shapes that are not square, increasing numbers need a sparse matrix with room for all elements and list every position in order. A random matrix has the requested dimensions and elements of either sign whose magnitudes lie between 10 to the minus maxValue and 10 to the minus minValue, in both halves of that range; the same seed and settings always give the same matrix, and different positive seeds give different ones.",
 ["inputs", "configurations", "histories"], "All fillers, shapes, layouts, windows, previous contents, seeds and settings.",
 "Tests check one filler on one shape.",
 [C+"MatrixFiller.h", "src/MatrixFactory/MatrixGenerator.cpp", "include/BlasBooster/MatrixFactory/MatrixGenerator.h", C+"DenseMatrix.h", C+"SparseMatrix.h"],
 [("filler functors", C+"MatrixFiller.h"), ("random elements", "src/MatrixFactory/MatrixGenerator.cpp")],
 observe=["elements of the filled matrix"])

prop("C23", "Rendered output shows exactly the matrix it is given",
 "Printing a dense, sparse, zero, multiple or runtime-typed matrix as text (and, for sparse matrices, its arrays) emits a cell for every element, row by row, showing exactly that element (the full contents where the stream has been switched to full printing, in that stream only; otherwise a message instead of the contents of matrices that are too large: dense ones of more than 100 rows or columns, sparse ones of more than 100 elements). The pattern image of a matrix has one pixel per element, row by row, in the colour of the first palette entry whose threshold the magnitude of the element reaches and the background colour if there is none, preceded by a header and a palette that declare exactly the dimensions and colours used. Printing does not change the matrix, and an image that cannot be written is reported as an error.",
 ["inputs", "histories"], "All shapes, layouts, representations, values, palettes and sequences of outputs on several streams.",
 "No stable test inspects printed output.",
 [C+"MatrixIO.h", C+"PatternGenerator.h", C+"SparseMatrix.h"],
 [("stream operators", C+"MatrixIO.h"), ("XPM writer", C+"PatternGenerator.h")],
 observe=["emitted text", "written image"])

prop("C24", "Violated preconditions are rejected and leave operands unchanged",
 "With failures reported as exceptions, an operation whose precondition is violated throws and leaves every matrix unchanged, and an admissible call is accepted. The preconditions are: equal dimensions of the operands of a sum, difference or compound assignment; equal inner dimensions of a product (of blocked matrices: of their blocks) and of operands whose block sizes are determined together; a sub-matrix window that lies inside the matrix or view it is taken of; block sizes that sum up to the dimensions of the blocked matrix; blocks of an initializer list that form a grid, rows of an initializer list that have the same length; equal dimensions of the two parts of a multiple matrix; a square matrix for a diagonal filler; an unchanged number of elements for a matrix on external memory that is resized or assigned to; a maximal block size of at least twice the minimal one.",
 ["inputs"], "All admissible and inadmissible operand shapes of every operation and pair of representations.",
 "Tests assert at most one rejected example per precondition.",
 [C+"BinaryFunctors.h", C+"MatrixMultExp.h", C+"DenseMatrix.h", C+"MultipleMatrix.h", C+"BlockedMatrix.h", C+"BlockedMatrixGenerator.h", C+"BlockSizeGenerator.h", C+"Storage.h", C+"MatrixFiller.h", C+"CoreException.h"],
 [("precondition guards", C+"CoreException.h"), ("dimension check of sums", C+"BinaryFunctors.h"), ("window check of submatrices", C+"DenseMatrix.h")],
 observe=["exception or result per call", "contents of the operands afterwards"])

prop("C25", "Sparse matrices are always structurally well formed",
 "Every sparse matrix obtained by conversion, arithmetic, transposition, copying, moving, assignment or loading of well-formed operands has monotone offsets starting at zero, one more offset than its compressed dimension, strictly increasing in-range indices within each compressed line, and exactly as many stored elements as its last offset.",
 ["histories", "inputs"], "All sparse matrices produced by conversion, arithmetic, transposition, copying, moving, assignment and loading.",
 "Tests compare values of a few results and do not look at the structure, which later operations silently rely on.",
 [C+"SparseMatrix.h", C+"SparseStorage.h", C+"BinaryFunctors.h", C+"Multiplication_Native.h", C+"Transposition.h"],
 [("compressed storage arrays", C+"SparseStorage.h")],
 observe=["offset, key and value arrays"])

prop("C26", "Approximate equality means same shape and every element within tolerance",
 "equal(A, B) of two dense matrices or views (double, float or integer elements, row- or column-major), of two zero matrices and of two one-dimensional storages holds exactly if their dimensions agree and every pair of corresponding elements differs by at most the numerical accuracy of the less precise of the two scalar types; it is symmetric, depends on nothing outside the two operands, and notEqual is its negation.",
 ["inputs"], "All pairs of element types and layouts, shapes, values and positions of a difference.",
 "Tests compare matrices that are equal or differ everywhere; a comparison that ignores one position or one operand's surplus elements passes them all.",
 [C+"DenseMatrix.h", C+"ZeroMatrix.h", C+"Storage.h", U+"EqualWithinNumericalAccuracy.h"],
 [("equal functions", C+"DenseMatrix.h"), ("scalar tolerance", U+"EqualWithinNumericalAccuracy.h")],
 observe=["comparison result"])

prop("C27", "Threshold settings reach exactly the matrix type they are configured for",
 "Each representation uses exactly the occupation threshold and the significance filter configured for it; a setting for one precision or representation never influences another.",
 ["configurations"], "All settings and all representations.",
 "Tests use equal or single settings, so a swapped mapping is invisible.",
 [C+"Threshold.h"],
 [("threshold distributors", C+"Threshold.h")],
 observe=["threshold/filter delivered per type"])

prop("C28", "Block statistics describe the blocks they are derived from",
 "The type map, dimension map, norm map and type counts of a blocked matrix report for every block position exactly the representation, size and norm of that block, and the counts are the numbers of blocks of each representation and sum to the number of blocks.",
 ["inputs"], "All blocked matrices and mixtures of representations.",
 "No stable test reads the statistics.",
 [C+"GenerateTypeMatrix.h", C+"DynamicMatrixFunctions.h"],
 [("per-block visitors", C+"GenerateTypeMatrix.h")],
 observe=["statistics matrices and counts"])

prop("C29", "Matrix dimensions are reported consistently after every operation",
 "After any history of construction, resizing, swapping, copying, moving and assignment the reported row count, column count, element count, major and minor dimension agree with each other and with the operation performed, and equality of dimensions holds exactly if rows and columns both agree.",
 ["histories"], "All histories over several objects, both storage orders.",
 "Tests look at one construction; combinations (e.g. swap after resize) are not sampled.",
 [C+"Dimension.h", C+"DenseMatrix.h", C+"SparseMatrix.h", C+"ZeroMatrix.h"],
 [("dimension class", C+"Dimension.h")],
 observe=["all dimension accessors after each operation"])

prop("C30", "The command line tools do what they were asked for",
 "generate_matrix writes, column by column, exactly the rows x columns matrix that has the given value on the diagonal and on the side diagonals of the requested band and zero elsewhere, for every combination of dimensions and band width. show_pattern draws for a given matrix file and block structure either the elements or the blocks' types, each block's border lying inside the block. benchmark runs every configured action on every pair of matrices of the two sets; the reported deviations are the norms of the difference between the action's and the first action's result, the difference file holds the difference of the last action, and every action computes the product in the precision it is named for. Requests that cannot be carried out (missing, truncated or unwritable files, unknown options, kinds or actions, sets of different size, operands that do not match) end with exit status 1 and leave no fabricated output.",
 ["inputs", "configurations", "histories"], "All dimensions, band widths, values, option spellings, matrix sets, configured actions and sequences of tool runs sharing files.",
 "The tools are not built by the tests at all.",
 ["src/Benchmark/generate_matrix.cpp", "src/Benchmark/show_pattern.cpp", "src/Benchmark/benchmark.cpp", "src/Benchmark/MatrixProvider.cpp", "src/Benchmark/ActionProvider.cpp"],
 [("tool main functions", "src/Benchmark/benchmark.cpp"), ("benchmark actions", "src/Benchmark/ActionProvider.cpp")],
 observe=["exit status", "written files", "reported norms"])

prop("C31", "An operation that runs out of memory leaves everything as it was",
 "Whenever an allocation fails during an operation on storages, matrices or blocked matrices - construction, copying, assignment, resizing, conversion, filtering, arithmetic, multiplication, transposition, norm and occupation queries, adaptive conversion, blocking, reassembling, block statistics - the failure is reported as std::bad_alloc, every existing object keeps its dimensions, elements and usability, no object shows released memory or dimensions without elements, nothing is leaked or released twice, and repeating the operation once memory is available again gives the result it would have had.",
 ["crash points", "inputs", "histories"], "All operations, operand representations and shapes, and every single allocation of each operation failing, alone or together with all later ones, within any history.",
 "Tests never let an allocation fail; the point of failure within an operation is another dimension that no fixed set of examples covers.",
 [C+"Storage.h", C+"SparseStorage.h", C+"DenseMatrix.h", C+"SparseMatrix.h", C+"MultipleMatrix.h", C+"DynamicMatrix.h", C+"BlockedMatrix.h", C+"MatrixConverter.h"],
 [("storage allocation", C+"Storage.h"), ("matrix assignment and resizing", C+"DenseMatrix.h"), ("sparse storage", C+"SparseStorage.h")],
 observe=["exception", "all existing objects after the failure", "live allocations"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
