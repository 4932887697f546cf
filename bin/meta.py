"""Text of the properties; bin/make_manifest.py writes properties.jsonl and MANIFEST.json from it."""

PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=list(observe), state=list(state)))


C = "include/BlasBooster/Core/"
U = "include/BlasBooster/Utilities/"

prop("P01", "Sum and difference of matrices of any two types are the mathematical ones",
     "For any two matrices of equal dimensions, whatever their types (dense, sparse, zero, multiple; single or double "
     "precision; column- or row-major; static or dynamic), A + B and A - B represent the mathematical sum and difference. "
     "The result has the operands' dimensions and is a well-formed matrix (a sparse result has consistent value, key and "
     "offset arrays), and the operands are unchanged.",
     ["inputs"], "every pair of matrix types, every pair of equally sized matrices",
     "BinaryFunctors tests compare a handful of 2x2/3x3 sums of a few type pairs (and are not part of the stable suite); "
     "the dispatch table has 7x7 dynamic and more static combinations, each with its own index arithmetic.",
     [C + "BinaryFunctors.h", C + "MultipleMatrix.h", C + "SparseStorage.h"],
     [("one functor per pair of matrix types", C + "BinaryFunctors.h BinaryOperationFunctor"),
      ("dispatch over the runtime type pair", U + "exec_dyn_2dim.h")],
     "property-based testing: generated matrices of all type pairs against a plain reference sum",
     "generated search, sizes 1..7, exactly representable values, sanitizer and release build")

prop("P02", "Compound assignment adds or subtracts exactly once, or refuses untouched",
     "After A += B or A -= B the left operand is the mathematical sum or difference of the old operands and the right "
     "operand is unchanged, for all supported type combinations, static or dynamic, including an operand combined with "
     "itself. A combination that is not implemented throws and leaves both operands as they were; dense left operands "
     "(also a multiple matrix whose first part is dense) accept every right operand, and every left operand accepts a zero matrix.",
     ["inputs"], "every pair of matrix types, equal dimensions, aliased or not",
     "No stable test uses compound assignment; the type-pair table and the refusal paths cannot be enumerated by example values.",
     [C + "BinaryFunctors.h"],
     [("assignment functors per type pair", C + "BinaryFunctors.h BinaryAssignmentOperationFunctor"),
      ("dynamic compound operators", C + "BinaryFunctors.h DynamicAddAssignFunctor, DynamicSubAssignFunctor")],
     "property-based testing: generated operands of all type pairs against a reference, exception means unchanged",
     "generated search, sizes 1..7, sanitizer and release build")

prop("P03", "Every multiplication back-end computes the mathematical product",
     "For conforming matrices A and B of any two types, the product computed by any available interface (native, OpenBLAS, "
     "Eigen, or the automatically chosen best one) represents the mathematical product and has A's rows and B's columns. "
     "This holds for static and dynamic operands and for building a matrix from a product expression, and the operands are unchanged.",
     ["inputs", "configurations"], "every supported pair of types and interface, every pair of conforming matrices",
     "MatrixMultiplication tests check a few fixed 2x2..3x3 products and are not part of the stable suite; rectangular "
     "shapes, empty sparse columns and the interface x type table are not reached.",
     [C + "Multiplication_Native.h", C + "Multiplication_TheBestPolicy.h", C + "Multiplication_OpenBLAS.h",
      C + "Multiplication_Eigen.h", C + "MatrixMultExp.h"],
     [("one functor per type pair and interface", C + "Multiplication_*.h MultiplicationFunctor"),
      ("expression templates, expansion of multiple matrices", C + "MatrixMultExp.h")],
     "property-based testing: generated factors of all type pairs and interfaces against a reference product (differential)",
     "generated search, dense sizes up to 40, exactly representable values, sanitizer and release build")

prop("P04", "The product of blocked matrices is the product of the whole matrices",
     "For conforming matrices cut into blocks by any partition (given, or computed by BlockSizeGenerator) with every block stored in any matrix type, "
     "the blocked product has the blocks of A's row partition and B's column partition, and unblocked it is the product of the whole matrices: exactly where the "
     "arithmetic is exact, otherwise within the errors which the significance thresholds allow. The operands are unchanged, for the native and the best interface.",
     ["inputs", "configurations"], "every pair of conforming matrices, every partition, every choice of block types and thresholds",
     "The only test multiplies one 4x4 matrix in 2x2 blocks by itself and is not part of the stable suite.",
     [C + "Multiplication_Native.h", C + "Multiplication_TheBestPolicy.h", C + "BlockedMatrixGenerator.h", C + "BlockedMatrix.h", C + "DenseMatrix.h"],
     [("sum over the inner blocks", C + "Multiplication_Native.h MultiplicationFunctor<Dense,DynamicMatrix,...>"), ("pipeline of the benchmark", "src/Benchmark/Action_blasbooster_block.h")],
     "property-based testing: generated blocky matrices, partitions, thresholds and block types; differential against the plain product, error bound for graded values",
     "generated search, up to 3x3x3 blocks of up to 20 rows, with and without OpenBLAS")

prop("P05", "Conversions between matrix types keep dimensions and every element",
     "Converting a matrix to another type (dense, sparse, zero, multiple and dynamic sources; float or double; column- or "
     "row-major) gives a well-formed matrix with the same dimensions and size and the same elements, rounded to the target "
     "precision. A conversion through a value checker keeps exactly the elements inside the checker's range and "
     "makes the others zero; one with a threshold (sparse from dynamic) those above it. The result is independent of the "
     "source, and the source is unchanged.",
     ["inputs"], "every convertible pair of types, every matrix, every value range",
     "Existing conversion tests use fixed 2x2..4x4 matrices and are not part of the stable suite; the source x target x orientation "
     "table, matrices without elements, and range bounds are not reached.",
     [C + "DenseMatrix.h", C + "SparseMatrix.h", C + "SparseStorage.h", C + "Transposition.h"],
     [("converting constructors", C + "DenseMatrix.h, SparseMatrix.h, ZeroMatrix.h"),
      ("dispatch of dynamic sources", C + "DenseMatrix.h ConvertToDenseMatrix")],
     "property-based testing: generated matrices converted between all type pairs, compared element by element",
     "generated search, sizes 1..8, wild float/double values; exact value comparison after rounding to the target type")

prop("P06", "MatrixConverter picks the first admissible type and keeps significant elements",
     "MatrixConverter converts a dense matrix (or sub-matrix) to the first type of the type list (Zero, Sparse<float>, Dense<float>, "
     "Sparse<double>, Multiple<Sparse<double>,Sparse<float>>, Multiple<Sparse<double>,Dense<float>>, Dense<double>) whose two occupation "
     "thresholds (single and double precision) are not exceeded by the fractions of elements above the two significance thresholds. The "
     "converted matrix has the same dimensions; apart from a zero matrix chosen by non-zero occupation thresholds, every element above "
     "the double precision significance threshold is kept (exactly where the type stores doubles, else rounded to float; in multiple "
     "matrices elements above the single precision threshold are kept exactly), the error of others is at most their magnitude, sparse parts store "
     "only significant elements, and the source is unchanged.",
     ["inputs", "configurations"], "every dense matrix or sub-matrix, all threshold settings",
     "The two MatrixConverter tests use one 2x2 matrix each and are not part of the stable suite; the classes of elements x thresholds are not reached.",
     [C + "MatrixConverter.h", C + "Threshold.h", C + "Occupation.h", C + "OccupationPolicy.h", C + "AbsoluteValueRangeChecker.h"],
     [("admissibility test", C + "MatrixConverter.h IsConvertible"), ("conversions", C + "MatrixConverter.h ConversionFunctor"),
      ("thresholds per type", C + "Threshold.h OccupationThresholdDistributor")],
     "property-based testing: generated graded matrices and thresholds against a model of the choice and an element-wise error bound",
     "generated search, sizes 1..10, random threshold settings with the last type always admissible")

prop("P07", "Block sizes are valid partitions which follow the jumps of magnitude",
     "For every dense matrix, and for the pair of factors of a product, BlockSizeGenerator returns for each dimension block sizes which "
     "add up to the dimension and lie between the smallest and the largest block size (a dimension which is not larger than the largest block "
     "may stay whole, also if it is smaller than the smallest block). The detection arrays are, for each pair of neighbouring rows or columns, the sum of the absolute "
     "differences of the binary exponents, independent of the orientation; if a dimension must be divided, a uniquely strongest jump which leaves "
     "blocks that are large enough on both sides is a border. Limits with 2*min > max are refused with an exception.",
     ["inputs", "configurations"], "every dense matrix (of at least one row and column), every pair of limits",
     "The repository's tests check a few hand written detection arrays with one pair of limits; ties, jumps near a border and non-square matrices are not reached.",
     [C + "BlockSizeGenerator.h"],
     [("greedy division at the strongest jumps", C + "BlockSizeGenerator.h get_block_size"), ("detection arrays", C + "BlockSizeGenerator.h get_detection_arrays")],
     "property-based testing: generated patchy matrices and detection arrays, validity of the partition and a reference for the detection arrays",
     "generated search, dimensions 1..61, limits 0..16")

prop("P08", "Blocking keeps all elements, and the block descriptions tell the truth",
     "Cutting a dense matrix into blocks with any partition and unblocking it gives the same matrix; each block has the dimensions of the "
     "partition, its own copy of the elements, and the type MatrixConverter chooses for that part. Type, dimension and norm matrices and the type counters describe each block. Blocked matrices "
     "made from a list of matrices, copied, assigned, moved and resized have the right blocks and unblocked dimensions.",
     ["inputs", "histories"], "every dense matrix, every partition, blocks of any type",
     "No stable test uses blocked matrices; partitions with different sizes and mixed block types are not reached.",
     [C + "BlockedMatrixGenerator.h", C + "BlockedMatrix.h", C + "GenerateTypeMatrix.h", C + "DenseMatrix.h", C + "Copy.h"],
     [("blocking", C + "BlockedMatrixGenerator.h"), ("unblocking", C + "DenseMatrix.h conversion from blocked DenseMatrix"), ("descriptions", C + "GenerateTypeMatrix.h")],
     "property-based testing: round trip blocked/unblocked and comparison of the descriptions with the generated blocks",
     "generated search, up to 4x4 blocks of up to 20 rows")

prop("P10", "Norms of every matrix type are the mathematical ones",
     "norm<NormOne>, norm<NormTwo> and norm<NormMax> of any matrix (dense, sparse, zero, multiple, dynamic, blocked, sub-matrix; any precision and orientation) are the sum of magnitudes, the "
     "root of the sum of squares, and the largest magnitude of its elements; getNorm, isNormLargerThan and isNormSmallerThan (strict comparisons) use the norm named by the matrix's parameters. "
     "The norms satisfy the triangle inequality and homogeneity, and transposition or conversion to sparse does not change them.",
     ["inputs"], "every matrix of every type",
     "The norm tests use three fixed matrices and are not part of the stable suite.",
     [C + "Norm.h", C + "NormPolicy.h", C + "DynamicMatrixFunctions.h", C + "MultipleMatrix.h", C + "ZeroMatrix.h"],
     [("norm functors", C + "Norm.h NormFunctor"), ("norm of the matrix classes", C + "NormPolicy.h")],
     "property-based testing: generated matrices of all types against norms computed from the elements, and metamorphic norm laws",
     "generated search, sizes 1..8, magnitudes 2^-22..2^23")

prop("P11", "Norm, occupation and conversions describe the current elements",
     "After any history of element changes, assignment, move, swap, resize, compound assignment and conversion of dense and sparse matrices and of views, norm, "
     "number of significant elements, occupation and conversions are those of the current elements, whatever was asked for before.",
     ["histories"], "every sequence of changes and queries",
     "Tests ask each matrix once; only a history with a query before a change can show a stale answer.",
     [C + "NormPolicy.h", C + "OccupationPolicy.h", C + "SparseMatrix.h", C + "MatrixConverter.h"],
     [("queries", C + "NormPolicy.h, OccupationPolicy.h"), ("allocation by the number of significant elements", C + "SparseMatrix.h")],
     "stateful property-based testing: histories of changes and queries on two matrices against a model",
     "generated search, histories of up to 12 steps on two matrices, sanitizer and release build")

prop("P12", "Occupation counts exactly the elements the value checker accepts",
     "For every matrix type (static, dynamic, blocked, sub-matrix) and every value checker, the number of significant elements is the number of non-zero elements inside the checker's bounds (a "
     "multiple matrix counts elements of the sum), the occupation is that number divided by the size, and isOccupationLargerThan / isOccupationSmallerThan compare it with the given value.",
     ["inputs"], "every matrix, every range of values",
     "Tests count once in one 5x5 matrix; bounds hit exactly by elements and the table of types and checkers are not reached.",
     [C + "Occupation.h", C + "OccupationPolicy.h", C + "AbsoluteValueRangeChecker.h", C + "DynamicMatrixFunctions.h", C + "MultipleMatrix.h", C + "ZeroMatrix.h"],
     [("counting", C + "Occupation.h"), ("dispatch of dynamic matrices", C + "DynamicMatrixFunctions.h")],
     "property-based testing: generated matrices and bounds (hit exactly by elements) against a count of the reference",
     "generated search, sizes 1..8, all four kinds of checker")

prop("P09", "Transposition swaps rows and columns and is its own inverse",
     "transpose(A) of any dense or sparse matrix of either precision and orientation is the matrix with element (j,i) of A at (i,j), as a well-formed matrix of its own that shares "
     "nothing with A; transposing twice gives A; (AB)^T = B^T A^T and (A+B)^T = A^T + B^T; stored zeros stay stored; matrices without rows or columns are allowed.",
     ["inputs"], "every dense and sparse matrix",
     "Tests transpose one 3x3 matrix of each kind and are not in the stable suite; empty lines, rectangular and empty matrices are not reached.",
     [C + "Transposition.h", C + "Cursor.h", C + "SparseMatrix.h"],
     [("transposition", C + "Transposition.h")],
     "property-based testing: generated matrices against the reference transpose, involution and algebraic relations",
     "generated search, sizes 0..12 and up to 90x3")

prop("P13", "Range checkers accept exactly their range and order as map keys",
     "A range checker accepts a value exactly if its magnitude is inside the range with the given inclusive and exclusive bounds; a range which is empty by construction (negative or "
     "reversed bounds) is refused with CoreException and every other one is accepted; ranges which share a bound divide the values without gap or overlap; "
     "checkers of all kinds are strictly ordered by kind and bounds and work as keys of a map.",
     ["inputs"], "every value, every pair of bounds, every set of checkers",
     "The tests try a few bounds and one map; values exactly at or next to a bound, and the order over all kinds of checkers, are not sampled.",
     [C + "AbsoluteValueRangeChecker.h"],
     [("range checkers", C + "AbsoluteValueRangeChecker.h")],
     "property-based testing: generated bounds, values at and next to the bounds, and sets of checkers against a model",
     "generated search; infinities and NaN are left out, because the library is built with -ffast-math")

prop("P14", "A storage keeps its values, owns them once and frees them once",
     "Over any history of construction, copy, move, swap, assignment, conversion, resize and destruction of storages (flexible or fixed size, heap or stack, own or external memory) every "
     "storage has the values a plain array would have; every element of own memory is constructed and destroyed exactly once, external memory is never freed and never resized, a copy is "
     "independent, a moved-from storage is empty and usable, nothing leaks and nothing is lost when memory runs out in the middle of an operation. Striped storages visit exactly the "
     "elements of their blocks, in order, forwards and backwards.",
     ["histories"], "every history of operations on up to four storages, every point at which memory runs out",
     "Storage tests (not in the stable suite) do single copies and moves; ownership bugs need a history such as copy of a view, move, resize.",
     [C + "Storage.h", C + "StripedIterator.h", C + "Memory.h"],
     [("ownership flag and swap", C + "Storage.h"), ("position and block of striped iterators", C + "StripedIterator.h")],
     "stateful property-based testing against a model of the storages with instance counting and injected allocation failures",
     "generated search, histories of up to 12 steps, sizes 0..8, address sanitizer and release build")

prop("P15", "Matrices are values: copies are equal and independent, equal means equal",
     "Over any history of construction, copy, move, swap, assignment between types and orientations, resize, element change and construction from external memory or initializer lists, a "
     "dense, sparse, zero or fixed-size matrix has exactly the dimensions and elements of the model and changing one matrix never changes another; A.equal(B) holds exactly if dimensions and all "
     "elements agree, for any orientations and element types; a transposed fixed-size matrix has the exchanged size.",
     ["histories"], "every history on up to three matrices; every pair of matrices",
     "Tests copy single square matrices; rectangular matrices of different orientation, self assignment and histories are not reached.",
     [C + "DenseMatrix.h", C + "SparseMatrix.h", C + "ZeroMatrix.h", C + "Dimension.h", U + "EqualWithinNumericalAccuracy.h"],
     [("special members", C + "DenseMatrix.h, SparseMatrix.h"), ("dimension, fixed size", C + "Dimension.h")],
     "stateful property-based testing: histories on several matrices against a reference, equality against elementwise comparison",
     "generated search, histories of up to 12 steps, sizes 0..7, sanitizer and release build")

prop("P16", "A sub-matrix shows exactly its window, reads and writes only there",
     "A sub-matrix of a dense matrix (also of another sub-matrix, of either orientation) has the dimensions and elements of its window through element access, iteration, cursors of both "
     "directions (forwards and backwards), conversion and arithmetic; writing through it, copying into it or adding to it changes exactly the window of the parent; tiles which partition a matrix cover every "
     "element exactly once.",
     ["inputs"], "every matrix, every window, nested windows, every tiling",
     "Only square blocks of one small matrix are tested; windows touching the last row or column, one-row windows, row-major and nested windows are not.",
     [C + "DenseMatrix.h", C + "Cursor.h", C + "StridedCursorBase.h", C + "CursorBase.h", C + "StripedIterator.h", C + "Copy.h"],
     [("sub-matrix construction", C + "DenseMatrix.h isSubMatrix constructors"), ("cursors", C + "Cursor.h")],
     "property-based testing: generated windows (nested) and tilings against the reference window, frame condition on the parent",
     "generated search, parents up to 9x9 and occasionally larger, sanitizer and release build")

prop("P17", "Importing a matrix file gives exactly its window or is refused",
     "Importing a binary matrix file (description in XML, column-major data file) into a dense matrix of either orientation gives a matrix of the described dimensions whose elements are, bit for bit, those of the described "
     "window of the file, whatever the matrix held before; a missing or short file, a window outside of the file (negative offsets too) and an invalid description are refused with an exception. A data file with a relative name is looked up in the working directory.",
     ["inputs"], "every file content, window, leading dimension and description",
     "One test reads one file which is not in the repository; windows, leading dimensions, truncated files are never sampled.",
     [C + "MatrixFileIO.h", C + "DenseMatrix.h", "src/MatrixFactory/MatrixFileImporter.cpp", "include/BlasBooster/MatrixFactory/"],
     [("seek and read loop", C + "MatrixFileIO.h")],
     "property-based testing: generated files, windows and truncations against the written elements",
     "generated search, files up to 12x12 elements, sanitizer and release build")

prop("P18", "What is archived is what is restored",
     "Writing settings, numbers, paths, dense matrices (flexible and fixed size) or sparse storages to an archive and reading it gives the same object bit for bit; a file is overwritten (completely) only if that is "
     "asked for; a missing, cut off or unwritable file is reported by an exception, and never gives a restored object.",
     ["inputs", "faults"], "every object, every point at which a file is cut",
     "No test restores an archive of a matrix; sizes, special values and cut files are not sampled.",
     [U + "FileIO.h", U + "BoostSerializePath.h", C + "Storage.h", C + "Dimension.h", C + "DenseMatrix.h"],
     [("write and read", U + "FileIO.h"), ("serialize functions", C + "Storage.h, Dimension.h, DenseMatrix.h")],
     "property-based testing: round trip of generated objects through XML, text and binary archives, with generated truncation",
     "generated search; truncation of XML settings files at any byte")

prop("P19", "The pattern image has one pixel of the right color for every element",
     "The pattern generator writes a valid XPM image with as many columns and rows as the matrix, with the given palette, in which the color of pixel (i,j) is that of the first threshold which is "
     "not above the magnitude of element (i,j), for every element type, orientation and sub-matrix; a file which can't be written is reported.",
     ["inputs"], "every matrix and palette", "One test writes one image of a fixed matrix and does not read it.",
     [C + "PatternGenerator.h"], [("pattern", C + "PatternGenerator.h")],
     "property-based testing: images of generated matrices parsed back and compared with the classification of the reference",
     "generated search, sizes up to 12")

prop("P20", "Printing shows every element at its place",
     "Printing a dense, sparse, zero, multiple or dynamic matrix shows kind and dimensions and, unless it is too large (which is said), every element at its row and column with 11 significant digits, "
     "aligned; for sparse matrices the stored arrays, exactly. A list is shown as its size and its elements, one per line.",
     ["inputs"], "every matrix", "Tests print without looking at the output.",
     [C + "MatrixIO.h"], [("stream operators", C + "MatrixIO.h")],
     "property-based testing: output of generated matrices parsed back and compared with the reference",
     "generated search, sizes up to 12 and beyond the limit of printing")

prop("P21", "Every BLAS wrapper computes what the BLAS routine of its name computes",
     "For each of the about 160 functors BlasInterface<OpenBLAS,F> and BlasInterface<IntelMKL,F>, and for every valid combination of arguments, the call has the effect on every argument and the return "
     "value of the BLAS routine whose name is F::name(), complex dot products included; the sparse routines of the MKL get exactly the given arguments; setting the number of threads sets it.",
     ["inputs", "configurations"], "every functor, every valid argument list (flags, dimensions, bandwidths, leading dimensions, increments of both signs)",
     "Tests use dgemm and sgemm only; swapped arguments, a wrong routine or a wrong return convention in any other wrapper are not seen.",
     ["include/BlasBooster/BlasInterface/", "src/Interfaces/OpenBLAS/BlasInterface_OpenBLAS.cpp", "src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"],
     [("one wrapper per routine", "src/Interfaces/*/BlasInterface_*.cpp"), ("names", "include/BlasBooster/BlasInterface/FunctionTypes.h")],
     "property-based testing: generated argument lists, differential against the routine looked up by name in the library",
     "generated search, dimensions 0..6; the MKL is not installed: its BLAS part is linked with OpenBLAS, its own routines are recording stand-ins")

prop("P22", "Products computed with the Intel MKL are the mathematical products",
     "With the Intel MKL as interface, or chosen by TheBestPolicy, the product of conforming matrices of any two types represents the mathematical product, with A's rows and B's columns, as a "
     "well-formed matrix; the operands are unchanged; every routine is called with arguments its documentation allows, also for matrices without rows or columns.",
     ["inputs", "configurations"], "every supported pair of types, every pair of conforming matrices",
     "The tests of this interface are only compiled if the MKL is installed, use fixed 3x3 matrices and leave out the sparse product.",
     [C + "Multiplication_IntelMKL.h", C + "Multiplication_TheBestPolicy.h", "src/Interfaces/IntelMKL/BlasInterface_IntelMKL.cpp"],
     [("functors", C + "Multiplication_IntelMKL.h"), ("choice", C + "Multiplication_TheBestPolicy.h")],
     "property-based testing: generated factors against a reference product; the library is replaced by stand-ins which follow its documentation",
     "generated search, sizes 0..7; relative to the stand-ins, because the MKL is not installed")

prop("P23", "Trackers count every operation once and the table shows them",
     "With tracking on, over any history of products (every interface and type pair, dynamic and blocked ones included) and partition computations, each operation increases the counter of its own tracker "
     "by one per call and adds a time between zero and the elapsed time, and no other tracker changes; the printed table has exactly the used trackers, each with its name, count and time, readable "
     "whatever the state of the stream; names and identifiers of the enumeration map to each other one to one.",
     ["histories"], "every history of operations, every stream state", "Tests neither read counters nor the table.",
     [U + "Tracker.h", U + "EnumParser.h", "src/Utilities/tracker.cpp", C + "Multiplication_Native.h", C + "Multiplication_OpenBLAS.h", C + "Multiplication_Eigen.h", C + "BlockSizeGenerator.h"],
     [("tracker and register", U + "Tracker.h"), ("names", U + "EnumParser.h, src/Utilities/tracker.cpp")],
     "property-based testing: generated histories against a counting model; the printed table parsed back",
     "generated search, histories of up to 12 operations")

prop("P24", "Run-time dispatch calls the function of the actual types and refuses all others",
     "An operation of dynamic matrices runs the function of the actual types of its operands, at any time including static initialization; for a type which is not in the type list it throws "
     "CoreException (with BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION). exec_if and exec_if_2dim call exactly one function, that of the first types which satisfy the predicates, or throw; GetIndex, GetType "
     "and GetSize describe the list; a multiple matrix of parts with different dimensions is refused.",
     ["inputs", "configurations"], "every pair of types, listed or not, every operation, every predicate over every list",
     "Tests dispatch a few listed pairs after main() started; types which aren't listed, other lists and predicates without match are not reached.",
     [U + "exec_dyn.h", U + "exec_dyn_2dim.h", U + "exec_if.h", U + "exec_if_2dim.h", U + "TypeList.h", U + "TypeChecker.h", C + "DynamicMatrixTypeList.h", C + "MultipleMatrix.h"],
     [("tables of functions", U + "exec_dyn.h, exec_dyn_2dim.h"), ("search", U + "exec_if.h, exec_if_2dim.h"), ("indices", U + "TypeList.h")],
     "property-based testing: generated types, operations, lists and predicates against a model of the dispatch; all operations also run by a static object before main()",
     "generated search; 7 listed and 6 other types, 20 operations, 4 lists")

prop("P25", "Matrix sources produce the documented matrix",
     "Fillers give every element its documented value (constant, consecutive numbers in storage order, Hilbert, diagonal; others refused) by constructor, by resize or on an existing matrix or view, touching "
     "nothing else; MatrixGenerator gives reproducible matrices, different ones for different seeds, with magnitudes in the given range of exponents, both signs and the given occupation; MatrixProvider gives for each name exactly the "
     "described band, file and copied matrices in order and refuses unknown types and names; the program generate_matrix writes the described matrix.",
     ["inputs", "configurations"], "every dimension, orientation, type, and settings", "Tests fill a few small quadratic matrices.",
     [C + "MatrixFiller.h", "src/MatrixFactory/MatrixGenerator.cpp", "src/Benchmark/MatrixProvider.cpp", "src/Benchmark/generate_matrix.cpp"],
     [("fillers", C + "MatrixFiller.h"), ("generator", "src/MatrixFactory/MatrixGenerator.cpp"), ("provider", "src/Benchmark/MatrixProvider.cpp"), ("program", "src/Benchmark/generate_matrix.cpp")],
     "property-based testing: generated dimensions and settings against a formula for every element; statistical bounds of ten standard deviations for the occupation",
     "generated search, sizes up to 40; clara and Record are replaced by stand-ins")

prop("P26", "Deviations and comparisons measure the difference of the elements",
     "getMaximalDeviation and getRootMeanSquareDeviation of two matrices of equal dimensions give the largest and the root-mean-square difference of corresponding elements, for every pair of types, "
     "orientations and views, whatever the storage; the operands don't change. equalWithinNumericalAccuracy of two scalars is true exactly if they differ by at most the larger of the accuracies of "
     "their types (double 1e-12, float 1e-4, integers exact), and is symmetric.",
     ["inputs", "configurations"], "every pair of matrix types, orientations, dimensions and values", "Tests compare two small dense double matrices.",
     [C + "StatisticalErrorInformation.h", U + "EqualWithinNumericalAccuracy.h"],
     [("deviation", C + "StatisticalErrorInformation.h"), ("scalars", U + "EqualWithinNumericalAccuracy.h")],
     "property-based testing: generated pairs of matrices and scalars against the formula",
     "generated search, sizes up to 8")

prop("P27", "The benchmark computes the product each action is named for",
     "ActionProvider makes the listed actions in order and refuses unknown names; every action (OpenBLAS, Intel MKL, Eigen, Blaze, native, blocked; double, single or mixed precision) returns the product of its operands "
     "in the precision of its name for any number of replications, its time and details add up and the operands don't change; the OpenBLAS and Intel MKL actions use the given number of threads. The benchmark program prints for every matrix and action a row with the time "
     "in the requested digits and the maximum and 2-norm of the difference to the first action, writes the difference on request, and fails on invalid settings. Printing a duration keeps the flags.",
     ["inputs", "configurations"], "every sequence of actions, dimensions, values, replications and command line", "No test runs an action or the program.",
     ["src/Benchmark/ActionProvider.cpp", "src/Benchmark/benchmark.cpp", "src/Benchmark/time.cpp", C + "Multiplication_Blaze.h", "src/Benchmark/Action_blasbooster_block.h"],
     [("actions", "src/Benchmark/ActionProvider.cpp and Action_*.h"), ("program", "src/Benchmark/benchmark.cpp"), ("durations", "src/Benchmark/time.h, time.cpp"), ("Blaze", C + "Multiplication_Blaze.h")],
     "property-based testing: generated settings, matrices and command lines; products against a reference, the printed table parsed back, the written difference read back",
     "generated search, sizes up to 60; Benchmark, JSON, Record, clara, Blaze and the Intel MKL are replaced by stand-ins which check the documented preconditions")

prop("P28", "show_pattern draws the elements or the blocks of a matrix",
     "The program show_pattern writes an XPM image with the size of the matrix and the palette of the settings: of the elements themselves, or of the blocks, where every point of a block has the color of "
     "10^-type of the block, except for a border of the given width on its left and its top; nothing outside of the image is touched however wide the border is. A missing or broken file, an "
     "unknown type of pattern or option gives exit code 1 and no image.",
     ["inputs", "configurations"], "every matrix, partition, palette, border and command line", "No test runs the program.",
     ["src/Benchmark/show_pattern.cpp", C + "GenerateTypeMatrix.h", C + "PatternGenerator.h"],
     [("program", "src/Benchmark/show_pattern.cpp"), ("types and dimensions of blocks", C + "GenerateTypeMatrix.h")],
     "property-based testing: generated matrices, settings and command lines; the image parsed and compared with a model, point by point",
     "generated search, sizes up to 14; the blocks are those of the library (P06, P07); clara, JSON and Record are replaced by stand-ins")

prop("P29", "Results of operations are full operands of further ones and nobody else's",
     "Over any history of operations on matrices of all types (sums, differences, products by every interface, compound assignments, conversions, MatrixConverter, transposition, blocking, element changes, "
     "assignment and move, where the target may be an operand), every matrix always has the elements which the history gives it in exact arithmetic, with the norms, occupation and dimensions of those; an "
     "operation changes its target only. Dynamic matrices share an object exactly if one was copied from the other.",
     ["histories"], "every history of operations, types and dimensions", "Tests apply single operations to freshly built operands, and look at the result only.",
     [C + "BinaryFunctors.h", C + "MatrixMultExp.h", C + "Multiplication_Native.h", C + "MultipleMatrix.h", C + "SparseMatrix.h", C + "DenseMatrix.h", C + "DynamicMatrixFunctions.h", C + "MatrixConverter.h"],
     [("sums", C + "BinaryFunctors.h"), ("products", C + "MatrixMultExp.h, Multiplication_*.h"), ("conversions", C + "DenseMatrix.h, SparseMatrix.h, MatrixConverter.h"), ("parts", C + "MultipleMatrix.h")],
     "stateful property-based testing: generated histories on sets of matrices against a model of exact integer matrices, all matrices compared after every step",
     "generated search, histories of up to 12 (now and then 96) steps over 2 to 8 matrices; integers, so that every order of the operations gives the same result")

prop("P30", "Operations in several threads don't disturb each other",
     "Operations which run at the same time in several threads of a build without tracker give, each, bit for bit the result which the operation has on its own (and that of exact arithmetic), as long as they only "
     "read the matrices they share and change only matrices, streams and files of their own: sums, differences and products of dynamic and static matrices by every interface, blocked products, conversions, "
     "MatrixConverter, transposition, norms, occupation, deviations, BlockSizeGenerator, printing, PatternGenerator, MatrixGenerator, import from files. No two threads access the same memory without order, "
     "the first use of the dispatch tables included.",
     ["schedules", "inputs"], "every set of operations on shared constant and own matrices, and every schedule of 2 to 4 threads", "Tests are single-threaded.",
     [C + "Multiplication_Native.h", C + "BinaryFunctors.h", C + "NormPolicy.h", C + "BlockSizeGenerator.h", C + "MatrixConverter.h", C + "PatternGenerator.h", "include/BlasBooster/Utilities/exec_dyn.h", "include/BlasBooster/Utilities/exec_dyn_2dim.h", "src/MatrixFactory/MatrixGenerator.cpp"],
     [("dispatch tables made at first use", "include/BlasBooster/Utilities/exec_dyn.h, exec_dyn_2dim.h"), ("scratch memory of products", C + "Multiplication_Native.h"), ("random engine of its own", "src/MatrixFactory/MatrixGenerator.cpp")],
     "property-based testing: generated plans of operations run by 2 to 4 threads behind a start barrier, under ThreadSanitizer and in a release build, every result compared with the operation on its own and with exact arithmetic",
     "generated search; schedules are those of the machine, unordered accesses are found by ThreadSanitizer independently of the schedule; OpenBLAS isn't instrumented; tracker, archives and Blaze are left out")

prop("P31", "An operation without memory has no effect, and memory is given back",
     "If a request for memory fails during an operation on matrices, std::bad_alloc reaches the caller, there is no result, and the operands, and the matrix which the operation would have changed, keep their "
     "dimensions and elements; the same operation succeeds once there is memory. That goes for construction, copies, copy assignment, resize, conversions, sums, differences, +=, -=, products (Native, TheBestPolicy, "
     "also assigned to a matrix), transposition, norms and counts, MatrixConverter, BlockSizeGenerator and blocked matrices, for static and dynamic matrices; += and -= of one MultipleMatrix to another are left out. "
     "A resize which external memory refuses (runtime_error) has no effect, either. Whether it fails or not, an operation gives back all the memory but that of its result, which goes with the result.",
     ["faults", "inputs"], "every operation, type, value, and every single request for memory which may fail", "Tests never run out of memory and don't look for leaks.",
     [C + "Storage.h", C + "SparseStorage.h", C + "DenseMatrix.h", C + "SparseMatrix.h", C + "BinaryFunctors.h", C + "MatrixMultExp.h", C + "MatrixConverter.h", C + "BlockedMatrixGenerator.h", C + "Transposition.h"],
     [("memory of dense matrices", C + "Storage.h, DenseMatrix.h"), ("memory of sparse matrices", C + "SparseStorage.h, SparseMatrix.h"), ("results are made before they are assigned", C + "BinaryFunctors.h, MatrixMultExp.h")],
     "property-based testing with fault injection: generated operands, the operation is repeated with each (at most 12 drawn) of its requests for memory refused by the harness' operator new, which counts the blocks in use",
     "generated search, one refused request per attempt; memory taken by malloc (OpenBLAS, streams' locale) isn't refused; archives, files and programs are left out")
