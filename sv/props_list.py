from props import prop, na, DC_TECH, EFF_TECH, WIT_TECH, DC_EXPL, DC_TRUST

I, P, C, H, S, F = "inputs", "programs", "configurations", "histories", "schedules", "fault_sequences"

WIT_EXPL = ("Each case is a small program over the public headers, generated for every operation of the interface and handed to "
            "the compiler's front end (type checking only; nothing is run): the programs that must be accepted have to "
            "type-check, and those that must be rejected have to draw an error attributed to that program. Each group has "
            "an accepted program with the same operation, so a rejection cannot be an unrelated error.")
WIT_TRUST = ["clang 18 front end (and g++ 13 where named) implements C++20 overload resolution and constraints",
             "the generated programs under /verif/wit enumerate the public interface"]
WIT_NOTE = ("Complete over the enumerated operations, value categories and types; operations that a future interface adds "
            "are not covered until listed.")

prop("P02", "Scalar arithmetic, comparison and conversion equal the built-in operation",
     "Every arithmetic, bitwise, comparison, logical, increment, compound-assignment and conversion operation on strict "
     "scalars yields exactly the value the same operation yields on the underlying built-in values, for every operand "
     "value including NaN, infinities and extremes. Elementary scalar helpers (absolute value, min, max, squares, powers, "
     "clamping, interval tests, rounding and the rest) return what their definition prescribes.",
     [I, C], "every operand value of int, long, unsigned, unsigned long, float, double and long double, with checks on and off",
     "tests sample a few operands; equality with the built-in must hold for all values and all types",
     ["strictpp/StrictCommon/strict_val.hpp", "strictpp/StrictCommon/strict_auxiliary.hpp"],
     [("operators of the strict scalar", "strictpp/StrictCommon/strict_val.hpp")],
     "returned value of each operation",
     [("prove", [("P02_scalar.cpp", "LR", 220)])])

prop("P03", "Undefined integer operations and domain violations are rejected",
     "With checks enabled, integer division and remainder by zero (operator or compound form, scalar or elementwise), "
     "shifts with a negative operand, negative integer powers, negative factorial or binomial arguments and reversed or NaN "
     "clamp or interval bounds are always reported as errors and never computed. Valid operands, including floating-point "
     "division by zero, are never rejected.",
     [I], "every operand value of every built-in integer and floating type",
     "a test exercises a few operands and cannot show that no operand slips past the check",
     ["strictpp/StrictCommon/strict_val.hpp", "strictpp/StrictCommon/error.hpp"],
     [("operand checks of / % << >> and helpers", "strictpp/StrictCommon/strict_val.hpp")],
     "error raised or result returned",
     [("prove", [("P03_guards.cpp", "LE", 140)])])

prop("P04", "Checked element access accepts exactly the valid indices",
     "Subscript, call and at() access, by position or counted from the end, return the element at exactly that position "
     "for every index inside the array and raise an error for every index outside it, in one and two dimensions, for const "
     "and mutable arrays of dynamic or fixed size.",
     [I, C], "every index and every array size",
     "tests probe a few indices of a few sizes; the bound must be exact for all of them",
     ["strictpp/derived1D.hpp", "strictpp/derived2D.hpp", "strictpp/ArrayCommon/valid.hpp",
      "strictpp/ArrayCommon/index_helper.hpp"],
     [("index validation before access", "strictpp/ArrayCommon/valid.hpp")],
     "address of the returned element, or the error raised",
     [("prove", [("P04_access.cpp", "LEX", 135)])])

prop("P06", "Slices select exactly the described elements and reject bad descriptions",
     "A slice given by start/size/stride, first/last/stride, a named selection (all, even, odd, reverse, first n, last n, "
     "every n-th, complement) or an index list has exactly the elements its description names, in order, in one and two "
     "dimensions and through nested slices. A description that is malformed or that names an element outside the array is "
     "rejected; every description that stays inside is accepted.",
     [I], "every array size, every slice parameter and every position within the slice (index lists: bounded length)",
     "the selection must be right for all parameters; tests check a handful of slices of small arrays",
     ["strictpp/slice.hpp", "strictpp/slicearray_base1D.hpp", "strictpp/slicearray_base2D.hpp",
      "strictpp/ArrayCommon/valid.hpp"],
     [("slice normalisation and validation", "strictpp/slice.hpp")],
     "addresses of the elements of the slice, its sizes, or the error raised",
     [("prove", [("P06_slices.cpp", "L", 190)])])

prop("P07", "Rows, columns, diagonals, blocks and reshaped views are exact",
     "Row, column, diagonal (main, above, below), block and one- or two-dimensional views of an array, a slice or foreign "
     "memory refer to exactly the elements their definition gives, in order, with the right sizes. Requests with an index "
     "outside the array, a reversed block, or a reshape whose shape does not match the number of elements are rejected.",
     [I], "every array shape, index, diagonal and block corner and every position in the view",
     "index arithmetic must hold for every shape; tests use a few small matrices",
     ["strictpp/derived2D.hpp", "strictpp/attach1D.hpp", "strictpp/attach2D.hpp"],
     [("view construction", "strictpp/derived2D.hpp"), ("reshape", "strictpp/attach2D.hpp")],
     "addresses of the elements of the view, its sizes, or the error raised",
     [("prove", [("P07_views.cpp", "L", 160)])])

prop("P17", "Element-wise expressions compute the operation element by element",
     "Every element-wise operator, comparison, logical or mathematical function and user-supplied function over arrays, "
     "slices, views, expressions and scalars yields a lazy array of the operand's shape whose element at each position is "
     "exactly the scalar operation applied to the operands' elements at that position, in operand order, reading the "
     "operands when evaluated and never modifying them.",
     [I], "every array size, position and element value",
     "an operand order, index or functor mix-up shows only for particular shapes, positions or values",
     ["strictpp/Expr/unary.hpp", "strictpp/Expr/binary.hpp", "strictpp/Expr/types.hpp", "strictpp/Expr/functors.hpp"],
     [("lazy evaluation of expressions", "strictpp/Expr/types.hpp")],
     "shape of the expression and value of the element at an arbitrary position",
     [("prove", [("P17_elementwise.cpp", "L", 600)])])

prop("P18", "Structural lazies have the defined elements",
     "Concatenation, exclusion, sequences and ranges, unit vectors, identity, constants, transposition, broadcasting, outer "
     "products, matrix-vector products and row or column reductions have exactly the shape and elements of their "
     "definitions, and reject arguments for which they are not defined (negative sizes, positions outside the array, "
     "incompatible shapes).",
     [I], "every shape, position and argument value; products and reductions for small fixed shapes",
     "index arithmetic at the seams must hold for all shapes",
     ["strictpp/Expr/special.hpp", "strictpp/Expr/types.hpp", "strictpp/Expr/exclude_last.hpp"],
     [("index mapping of structural expressions", "strictpp/Expr/special.hpp")],
     "shape and element at an arbitrary position, or the error raised",
     [("prove", [("P18_structural.cpp", "L", 135)])])

prop("P19", "Assignment writes every element with exactly the right value",
     "Constructing or assigning an array, row, column, diagonal, slice or view from an expression, and every compound "
     "assignment, evaluates the source once per element, stores into each destination element the source element (combined "
     "with the old element, for compound forms) and misses none, whatever the size. Assigning or filling from a scalar, an "
     "initializer list or another array likewise sets every element of the destination and nothing outside it; arrays made "
     "without values are zero.",
     [I], "every array size and element value for expression sources (induction over the elements); fixed sizes up to 17 "
          "elements, every element value, for scalar, list and array sources",
     "a write loop that skips or misplaces an element only for some sizes is invisible to tests of other sizes",
     ["strictpp/ArrayCommon/array_auxiliary.hpp", "strictpp/array_base1D.hpp", "strictpp/array_base2D.hpp",
      "strictpp/derived_base.hpp", "strictpp/slicearray_base1D.hpp", "strictpp/slicearray_base2D.hpp"],
     [("element copy loops", "strictpp/ArrayCommon/array_auxiliary.hpp"),
      ("compound assignment", "strictpp/derived_base.hpp")],
     "elements of the destination after the assignment, and the sequence of source evaluations",
     [("prove", [("P19_assign.cpp", "L", 175)])])

prop("P20", "Reductions and searches return the defined result",
     "Sums, products, minima, maxima and their positions, means, norms, dot products, polynomial evaluation, any/all/none "
     "tests, array comparison, closeness tests and copying to a plain buffer visit every element exactly once in order "
     "(stopping early only once the answer is settled), combine them as their definition says, return the first position "
     "among equals, and return the documented default for empty arrays. Sorting orders the elements.",
     [I], "every array size and element value by induction for folds, tests and searches; small fixed sizes for positions in two "
          "dimensions, closeness and sorting",
     "a fold that skips an element or mishandles the first or last one only shows for particular sizes and values",
     ["strictpp/array_ops.hpp", "strictpp/Util/error_tools.hpp", "strictpp/ArrayCommon/algorithm.hpp"],
     [("reductions, searches and sorting", "strictpp/array_ops.hpp"),
      ("closeness of arrays", "strictpp/Util/error_tools.hpp")],
     "value returned, and the sequence of element reads",
     [("prove", [("P20_reductions.cpp", "L", 320)])])

prop("P21", "Resizing, insertion and removal keep exactly the right elements",
     "Resizing with preservation keeps the overlapping elements at their positions and zero-fills the rest; inserting a value, "
     "array, row or column and removing elements, rows or columns (by position and count, counted from the end, from the front or "
     "back, or by index list) leave exactly the elements their description names, in order, also when the source is the array "
     "itself. Resize-and-assign takes the shape and elements of its source. Positions, counts and shapes outside the definition "
     "are rejected for every size.",
     [I], "rejection, acceptance and resulting sizes for every array size and argument; contents for fixed small shapes at every "
          "element value, for most positions and counts",
     "off-by-one errors at particular positions, counts or shapes escape a few examples",
     ["strictpp/array_base1D.hpp", "strictpp/array_base2D.hpp", "strictpp/ArrayCommon/algorithm.hpp"],
     [("resize, insert and remove", "strictpp/array_base1D.hpp"), ("rows and columns", "strictpp/array_base2D.hpp")],
     "elements and sizes of the array after the operation, or the error raised",
     [("prove", [("P21_modify.cpp", "L", 470)])])

prop("P10", "Arrays own their storage exactly once",
     "Constructing, copying, moving, swapping, assigning, resizing, inserting into, removing from and destroying arrays of "
     "either dimension and either alignment never leaks storage, frees it twice, frees it the wrong way or uses it after it "
     "was freed; copies are independent of their originals, moves and swaps transfer storage without allocating, and a "
     "moved-from array is empty and usable.",
     [I], "every element value and, where storage is not resized, every array size; element alignment of both kinds",
     "an ownership slip in one special member or one modifier is silent in a test that only reads values",
     ["strictpp/array_base1D.hpp", "strictpp/array_base2D.hpp", "strictpp/ArrayCommon/array_auxiliary.hpp"],
     [("special members and swap", "strictpp/array_base1D.hpp"), ("special members and swap", "strictpp/array_base2D.hpp")],
     "number of live blocks, kind of each release and identity of the storage after the operation",
     [("prove", [("P10_ownership.cpp", "LR", 88)])])

prop("P11", "A failed operation leaves arrays unchanged and leaks nothing",
     "When resizing, inserting into, removing from, assigning to, constructing or copying an array fails - because memory runs "
     "out, because a description is rejected by an error check that throws, or because a user-supplied function throws - "
     "the array that was to be modified keeps its size and elements, every other array stays usable, and no storage is leaked "
     "or released twice.",
     [I], "failure injected at every allocation, check and user call of each operation, for small fixed shapes and every element "
          "value",
     "tests do not inject an allocation failure at every point",
     ["strictpp/array_base1D.hpp", "strictpp/array_base2D.hpp", "strictpp/ArrayCommon/array_auxiliary.hpp"],
     [("copy-and-swap modifiers", "strictpp/array_base1D.hpp"), ("copy-and-swap modifiers", "strictpp/array_base2D.hpp")],
     "size and elements of the array after the exception, and number of live blocks after destruction",
     [("prove", [("P11_strong.cpp", "X", 135)])])

prop("P24", "Reading has no side effects",
     "Operations that only read their operands - indexing, slicing, views, iteration, building and evaluating lazy expressions, "
     "comparison, searches, reductions, stable algorithms, copying - write nothing except local objects and storage they allocate "
     "themselves: no operand, const or not, no static or thread-local object, no foreign memory; they call nothing that has effects. "
     "Operations that modify an array write nothing but that array's elements and fields. Hence any number of threads may read the "
     "same arrays, and operations may be nested inside the element functions of others.",
     [S, H], "every interleaving of readers and every nesting of operations, for every operand",
     "a test would need the schedule in which the hidden write matters",
     ["strictpp/derived1D.hpp", "strictpp/derived2D.hpp", "strictpp/array_ops.hpp", "strictpp/array_stable_ops.hpp", "strictpp/Expr/expr.hpp",
      "strictpp/Expr/special.hpp", "strictpp/slicearray_base1D.hpp", "strictpp/slicearray_base2D.hpp", "strictpp/iterator.hpp",
      "strictpp/Util/error_tools.hpp"],
     [("reductions and searches", "strictpp/array_ops.hpp"), ("stable algorithms", "strictpp/array_stable_ops.hpp"),
      ("expressions", "strictpp/Expr/expr.hpp")],
     "memory of the program after the operation", [("eff", [("P24_reads.py", ["L", "R"], 5500)])], tech=EFF_TECH,
     expl="Each program applies one operation to one form of array. It is lowered to LLVM IR with everything from the headers "
          "inlined; every store, memory intrinsic, atomic and call that remains must be rooted in an object the program itself "
          "created, or be a function without effects. Nothing is executed.",
     trusted=["clang 18 front end; LLVM 18 passes keep every effect on memory that outlives the function",
              "the programs under /verif/eff enumerate the reading interface", "libm functions have no effects (-fno-math-errno)"],
     note="Universally quantified over the operands of each program; complete over the enumerated operations and forms.")

prop("P25", "Arrays never mix element types or dimensions",
     "For every pair of element types, a program that would combine, compare, assign, construct, fill, insert into or reduce an "
     "array of one element type with an array or scalar of another (or with a built-in value), or a one-dimensional with a "
     "two-dimensional array, does not compile; neither does an operation the element type does not have. Arrays of any other "
     "element type (const, reference, char, short, strict, class types) and fixed arrays of negative or half-empty size do not "
     "compile. Indices, sizes, counts, positions, strides and tags accept int, long and their strict versions only - no "
     "unsigned, real, bool, character or enumeration value; tags are not interchangeable. The same programs with the right types "
     "compile, and results have the operand's element type.",
     [P, C], "every pair of element types under every operator, function, constructor and index or size parameter",
     "a test can only contain programs that compile", ["strictpp/ArrayCommon/array_traits.hpp", "strictpp/derived1D.hpp",
     "strictpp/derived2D.hpp", "strictpp/derived_base.hpp", "strictpp/array_ops.hpp", "strictpp/array_stable_ops.hpp",
     "strictpp/Expr/expr.hpp", "strictpp/Expr/special.hpp", "strictpp/StrictCommon/auxiliary_types.hpp", "strictpp/slice.hpp"],
     [("type concepts", "strictpp/ArrayCommon/array_traits.hpp"), ("index and tag types", "strictpp/StrictCommon/auxiliary_types.hpp")],
     "whether the program compiles and the type of the expression",
     [("wit", [("P25_array_types.py", ["clang", "gcc/quad"], 450, 9000)])],
     level="other", tech=WIT_TECH, expl=WIT_EXPL, trusted=WIT_TRUST, note=WIT_NOTE)

prop("P15", "Nothing modifiable is reachable through a const array",
     "For owning, fixed-size and aligned arrays of one and two dimensions, a program that would modify an element reached through "
     "a const array - by any index, slice, view, row, column, diagonal, block, iterator, range, pointer, selection of a "
     "selection, or algorithm that writes (sort, shuffle, random fill, for_each, assignment, compound assignment, input, swap) - does "
     "not compile; nor does one that writes through a const iterator, through a lazily evaluated expression, or through a view of "
     "const foreign memory. The same programs on the modifiable array compile.",
     [P], "every way of selecting elements, composed to depth two, followed by every way of writing",
     "a test can only contain programs that compile", ["strictpp/derived1D.hpp", "strictpp/derived2D.hpp", "strictpp/array_base1D.hpp",
     "strictpp/array_base2D.hpp", "strictpp/fixed_array_base1D.hpp", "strictpp/fixed_array_base2D.hpp", "strictpp/slicearray_base1D.hpp",
     "strictpp/slicearray_base2D.hpp", "strictpp/iterator.hpp", "strictpp/attach1D.hpp", "strictpp/attach2D.hpp", "strictpp/array_ops.hpp"],
     [("const overloads", "strictpp/derived1D.hpp"), ("const slices", "strictpp/slicearray_base1D.hpp")],
     "whether the program compiles", [("wit", [("P15_const.py", ["clang"], 13000, 32000)])],
     level="other", tech=WIT_TECH, expl=WIT_EXPL, trusted=WIT_TRUST, note=WIT_NOTE)

prop("P33", "Every operation accepts every form of array",
     "Every operation on arrays of a dimension and element type - indexing, slicing, views, iteration, construction, assignment, "
     "insertion, reductions, elementwise operators and functions, comparisons, merging, output, stable algorithms - compiles for "
     "every form an array of that dimension and type can take: owning, fixed-size, aligned, const, every kind of slice of every "
     "kind of array, rows, columns, diagonals, views, foreign memory, and every kind of lazily evaluated expression.",
     [P], "every operation applied to every form of array, over real, integer and bool elements",
     "tests instantiate each template with a few forms; a form that fails to compile is noticed by nobody until a user needs it",
     ["strictpp/derived1D.hpp", "strictpp/derived2D.hpp", "strictpp/array_ops.hpp", "strictpp/array_stable_ops.hpp", "strictpp/Expr/binary.hpp",
      "strictpp/Expr/unary.hpp", "strictpp/Expr/special.hpp", "strictpp/ArrayCommon/algorithm.hpp", "strictpp/array_IO.hpp"],
     [("operation constraints", "strictpp/array_ops.hpp"), ("base types", "strictpp/ArrayCommon/array_traits.hpp")],
     "whether the program compiles", [("wit", [("P33_uniform.py", ["clang", "gcc/quad"], 5000, 0)])],
     level="other", tech=WIT_TECH, expl=WIT_EXPL, trusted=WIT_TRUST, note=WIT_NOTE)


prop("P16", "Operations on arrays of different shape are rejected",
     "Arithmetic, bitwise and logical expressions of two arrays, assignment and compound assignment between arrays, views, "
     "slices, rows, columns, diagonals, attached buffers, fixed-size arrays and initializer lists, and two-array functions "
     "(dot products, closeness tests, errors, any/all/none tests, polynomial evaluation with powers, matrix-vector products) "
     "raise an error whenever the shapes differ in either dimension - never reading or writing outside - and raise none "
     "when the shapes agree. Ragged initializer lists are rejected.",
     [I], "every pair of shapes", "tests try one mismatch per operation; the shapes that slip past a wrong comparison "
     "(equal total size, one dimension equal) are others",
     ["strictpp/ArrayCommon/array_auxiliary.hpp", "strictpp/Expr/types.hpp", "strictpp/derived_base.hpp",
      "strictpp/array_ops.hpp", "strictpp/array_stable_ops.hpp", "strictpp/Util/error_tools.hpp",
      "strictpp/slicearray_base1D.hpp", "strictpp/slicearray_base2D.hpp", "strictpp/fixed_array_base1D.hpp",
      "strictpp/fixed_array_base2D.hpp", "strictpp/ArrayCommon/valid.hpp"],
     [("same_size checks", "strictpp/ArrayCommon/array_auxiliary.hpp")],
     "the error raised, or none", [("prove", [("P16_conform.cpp", "LX", 255)])])

prop("P05", "at() and view2D() are checked in every configuration",
     "Access with at() - one or two indices, plain, strict, tagged or counted from last, on owning arrays, fixed-size arrays, "
     "views, slices, attached buffers and expressions - and reshaping with view2D() raise an error for every index or shape "
     "outside the array in every build configuration: debug, STRICT_DEBUG_OFF and STRICT_ERROR_EXCEPTIONS. For valid "
     "arguments they raise none and at() returns the same element as unchecked access.",
     [I], "every array size, index and shape, in each configuration",
     "the tests are built in one configuration", ["strictpp/derived1D.hpp", "strictpp/derived2D.hpp", "strictpp/attach2D.hpp",
     "strictpp/StrictCommon/error.hpp", "strictpp/ArrayCommon/valid.hpp", "strictpp/ArrayCommon/index_helper.hpp"],
     [("always-on range checks", "strictpp/derived1D.hpp"), ("always-on shape checks", "strictpp/attach2D.hpp")],
     "the error raised, or the element returned", [("prove", [("P05_release.cpp", ["L", "R", "RX", "E"], 380)])])

prop("P09", "Iterators obey the iterator laws and reject misuse",
     "Element iterators of arrays, views, slices, rows and expressions, and row and column iterators (RowIt, ColIt), const and "
     "non-const: begin()+k stands for element (row, column) k, end()-begin() is their number, reverse iteration goes through the "
     "same elements backwards, and increments, decrements, additions, differences and comparisons agree with those of the "
     "positions. IndexRange2D visits each index pair once in row-major order. Dereferencing outside the range, any use "
     "of an iterator of no array, comparing or subtracting iterators of different arrays, and stepping an index pair past its end "
     "are rejected.",
     [I], "every array size, position and offset", "tests walk a few small arrays",
     ["strictpp/iterator.hpp", "strictpp/derived1D.hpp", "strictpp/derived2D.hpp"],
     [("iterators", "strictpp/iterator.hpp")], "element the iterator stands for, result of comparisons, or the error raised",
     [("prove", [("P09_iter.cpp", "L", 375), ("P09_iter.cpp", "N", 250)])])

prop("P12", "Errors reach the caller as exceptions, and moves never fail",
     "When errors are exceptions, no error raised by a check - on indices, slices, shapes, iterators, resizing, insertion, "
     "removal, generation, scalar operations - terminates or aborts the program on the way to the caller: nothing that may "
     "raise one is declared not to throw, except moves of whole owning arrays. Moving and swapping owning and fixed-size arrays "
     "is declared not to throw and raises no error on arrays of equal shape.",
     [I], "every rejected argument of each operation", "a test that expects an exception must name the very operation whose "
     "exception is swallowed by a noexcept",
     ["strictpp/derived1D.hpp", "strictpp/derived2D.hpp", "strictpp/array_base1D.hpp", "strictpp/array_base2D.hpp",
      "strictpp/fixed_array_base1D.hpp", "strictpp/fixed_array_base2D.hpp", "strictpp/slicearray_base1D.hpp",
      "strictpp/slicearray_base2D.hpp", "strictpp/StrictCommon/error.hpp"],
     [("noexcept specifications", "strictpp/derived1D.hpp"), ("move assignment", "strictpp/array_base1D.hpp")],
     "whether the error arrives as an exception", [("prove", [
         ("P12_nothrow.cpp", ["X", "RX"], 86), ("P03_guards.cpp", "T", 125), ("P04_access.cpp", "T", 54),
         ("P05_release.cpp", "T", 330), ("P06_slices.cpp", "T", 88), ("P07_views.cpp", "T", 94), ("P09_iter.cpp", "T", 250),
         ("P16_conform.cpp", "T", 204), ("P18_structural.cpp", "T", 28), ("P21_modify.cpp", "T", 90)])])

prop("P01", "Scalar types never mix or convert silently",
     "For every pair of scalar types (bool, int, long, unsigned, unsigned long, float, double, long double and, when enabled, "
     "quad precision) a program that would construct, assign, compound-assign, compare, combine or increment a strict scalar "
     "with a value of any other type - another strict type, a built-in value, a character or a short - does not compile unless the conversion is "
     "requested by name (strict_cast, builtin_cast, real_cast, whole, .val()); no strict scalar converts implicitly to a "
     "built-in arithmetic type other than bool from strict bool; an integer literal its type cannot represent, operations that a type does not have (remainder and bit operations "
     "on reals, arithmetic on bool, logic on numbers) and assignments to temporaries and constants do not compile either. Every "
     "same-type operation compiles, has the same strict type as result, and works in constant expressions.",
     [P, C], "every ordered pair of types under every operator and conversion, in each value category",
     "a test can only contain programs that compile", ["strictpp/StrictCommon/strict_val.hpp", "strictpp/StrictCommon/strict_val_ops.hpp",
     "strictpp/StrictCommon/strict_traits.hpp", "strictpp/StrictCommon/strict_literals.hpp"],
     [("deleted converting constructors", "strictpp/StrictCommon/strict_val.hpp"),
      ("same-type operators", "strictpp/StrictCommon/strict_val_ops.hpp")],
     "whether the program compiles and the type of the expression",
     [("wit", [("P01_scalar_types.py", ["clang", "gcc/quad"], 1100, 11000)])],
     level="other", tech=WIT_TECH, expl=WIT_EXPL, trusted=WIT_TRUST, note=WIT_NOTE)


prop("P13", "No reference into a temporary array survives",
     "A program that would take a view, slice, row, column, diagonal, block, iterator, pointer, row or column range, or a "
     "lazily evaluated expression over a temporary owning or fixed-size array - alone or as any operand of any operator or "
     "function - does not compile, whatever form the temporary has (function result, moved lvalue, const or not). The same "
     "operation on a named array compiles, as do operations on temporary views and expressions and reductions of temporaries.",
     [P], "every operation of the interface in each operand position, value category and constness",
     "a test can only contain programs that compile", ["strictpp/derived1D.hpp", "strictpp/derived2D.hpp",
     "strictpp/array_ops.hpp", "strictpp/array_stable_ops.hpp", "strictpp/iterator.hpp", "strictpp/Expr/expr.hpp",
     "strictpp/ArrayCommon/array_auxiliary.hpp", "strictpp/attach1D.hpp", "strictpp/attach2D.hpp"],
     [("deleted rvalue overloads", "strictpp/derived1D.hpp"), ("operand constraints", "strictpp/array_ops.hpp")],
     "whether the program compiles", [("wit", [("P13_temporaries.py", ["clang"], 1700, 3100)])],
     level="other", tech=WIT_TECH, expl=WIT_EXPL, trusted=WIT_TRUST, note=WIT_NOTE)

prop("P26", "Every header stands alone and may be included anywhere",
     "Each header of the library compiles as the only include of a translation unit, in every configuration. Nothing it defines "
     "has strong external linkage, so any number of units may include it; every library variable that can change (the printing "
     "formats, the random generators) is one object in the whole program, not one per unit or per thread.",
     [S, C], "every set of translation units that include the library, in every order of inclusion",
     "tests link one unit each and include headers in one order",
     ["strictpp/strict.hpp", "strictpp/concepts.hpp", "strictpp/Expr/expr_traits.hpp", "strictpp/StrictCommon/strict_IO.hpp",
      "strictpp/array_IO.hpp", "strictpp/Util/random.hpp"],
     [("formats", "strictpp/StrictCommon/strict_IO.hpp"), ("array formats", "strictpp/array_IO.hpp")],
     "whether a program of several units compiles, links and shares its formats", [("odr", (40, 6000))], level="other",
     tech="static analysis: per-header type checking and linkage of every symbol in the LLVM IR",
     expl="Every header is type-checked alone in four configurations. One unit that uses the whole interface is lowered to LLVM "
          "IR, and the linkage of every function and variable of the library in it is checked.",
     trusted=["clang 18 and g++ 13 front ends"], note="Complete over the headers; over the functions that the programs of P24 "
     "and the I/O program instantiate.")

prop("P23", "Random values stay in range and fill exactly the given arrays",
     "Every random value - scalar, lazily generated, or stored into an array, a slice or several arrays - lies in the requested "
     "range whatever the engine produces, or in [0, 1] when none is given, and is never zero where that is promised. Every "
     "element of every array given is replaced, none outside is touched, and lazy arrays have the requested shape. The "
     "pseudo-random functions with a seed are deterministic. A lazy random array cannot be copied or made part of another expression. A range with reversed or NaN bounds, or [0, 0] where zero is "
     "excluded, is rejected.",
     [I, S], "every range, seed and sequence of values the engine may produce", "tests see the values of one run",
     ["strictpp/Util/random.hpp", "strictpp/Util/semi_random.hpp", "strictpp/Util/random_traits.hpp"],
     [("generators", "strictpp/Util/random.hpp"), ("pseudo-random sequence", "strictpp/Util/semi_random.hpp")],
     "values returned or stored, or the error raised", [("prove", [("P23_random.cpp", ["L", "X"], 340)]), ("wit", [("P23_copies.py", ["clang"], 1800, 2400)])],
     note="The engines and distributions of the standard library are replaced by models of which only the contract is known; "
     "distribution quality, termination of the rejection loops and rounding of real pseudo-random values are not decided.")

prop("P22", "Reading and printing transfer exactly the elements",
     "Reading an array from a stream or a file gives it exactly the values of the input, in order: a one-dimensional array all of "
     "them, a two-dimensional array one row per line that is not blank, all of one length. Input with a malformed value or with "
     "rows of different lengths, and a file that cannot be opened, are rejected; when the error is an exception, the array is "
     "as it was. Reading a scalar takes one value, and a malformed or missing one is rejected. Printing writes every element once, in order, with a sign "
     "unless it is bool or unsigned, in the notation and with the precision in force for its type, and with the separators of "
     "the chosen style; arrays, slices and expressions of equal elements are printed alike; print, printn and print_to_file "
     "write the same to the console or the file, after the name if one is given.",
     [I, S], "every sequence of values, every position of a malformed one, every precision",
     "tests read no input and check no output", ["strictpp/array_IO.hpp", "strictpp/StrictCommon/strict_IO.hpp"],
     [("array input and output", "strictpp/array_IO.hpp"), ("scalar input and output, formats", "strictpp/StrictCommon/strict_IO.hpp")],
     "the array read or the error raised; the characters and numbers written",
     [("prove", [("P22_io.cpp", ["L", "X", "R"], 380), ("P22_print.cpp", ["L"], 160)])],
     note="The standard streams are replaced by a model: input is a sequence of values in lines of which any one may be malformed, "
     "output a sequence of characters and of numbers in a format; how the standard library parses and formats a number, and the "
     "width of padding, are outside. Shapes are enumerated up to ten values and three rows; values and precisions are symbolic. Quad precision is not covered.")

prop("P08", "Compensated algorithms carry every rounding error",
     "The stable sum, mean, product, dot product, norms, powers and polynomials return the value of the compensated algorithm "
     "they stand for: every element enters exactly once, in order, together with the rounding error of its step (for products "
     "and powers, the first-order error), for arrays, expressions and slices alike; the semi-stable ones add whole blocks. An empty array gives the given default; "
     "operands of different sizes, negative powers and orders that are not positive are rejected.",
     [I, S], "every length for sums, means, norms and dot products, every value", "tests compare a few sums with a tolerance",
     ["strictpp/array_stable_ops.hpp", "strictpp/StrictCommon/strict_val_ops.hpp"],
     [("compensated algorithms", "strictpp/array_stable_ops.hpp"), ("error-free transformations", "strictpp/StrictCommon/strict_val_ops.hpp")],
     "value returned, or the error raised",
     [("prove", [("P08_stable.cpp", ["L", "X"], 55), ("P08_small.cpp", ["L"], 165), ("P08_parts.cpp", ["L", "X"], 40)])],
     note="Sums, means, norms 1 and 2 and dot products are decided for every length; products, general norms and polynomials up to "
     "four elements and the listed powers, block sums up to two blocks. How close the compensated result is to the exact one "
     "(a theorem of numerical analysis about the algorithm) is not decided. Quad precision is not covered.")

prop("P27", "Disabling the checks changes no valid result",
     "With STRICT_DEBUG_OFF every operation whose arguments the checks accept still gives the result its definition "
     "prescribes, the same as with the checks on: element-wise operations, slices, views, structural operations, assignments, "
     "reductions and modifications of arrays, element access, and what is printed.",
     [I, C], "every size, position and element value", "the tests are built with the checks on",
     ["strictpp/StrictCommon/error.hpp", "strictpp/array_ops.hpp", "strictpp/derived1D.hpp", "strictpp/derived2D.hpp"],
     [("assertion macros", "strictpp/StrictCommon/error.hpp")], "value of every operation",
     [("prove", [("P03_guards.cpp", ["RV"], 5), ("P04_access.cpp", ["RV"], 22), ("P06_slices.cpp", ["RV"], 100), ("P07_views.cpp", ["RV"], 82),
                 ("P17_elementwise.cpp", ["RV"], 600), ("P18_structural.cpp", ["RV"], 95), ("P19_assign.cpp", ["RV"], 160),
                 ("P20_reductions.cpp", ["RV"], 280), ("P21_modify.cpp", ["RV"], 340), ("P22_print.cpp", ["RV"], 160)])],
     note="The obligations are those of P04, P06, P07 and P17 to P22 that concern values, decided for the release configuration; "
     "a few positions in flat views and columns, and sorting, are decided with the checks on only.")
