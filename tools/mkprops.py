#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list is reviewable)."""
import json, os
B = "include/etr_bits/"
def P(id, title, st, over, q, why, files, mech, state=(), obs=()):
    return dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith("include") else B+f for f in files],
            mechanism=[dict(name=a, where=w) for a, w in mech],
            state=[dict(name=a, meaning=b, where=w) for a, b, w in state],
            observe_at=list(obs)))
L = []
L.append(P("C01", "Arithmetic is elementwise with positional recycling",
 "For numeric operands of any lengths of at least one, each of + - * / ^ yields a result as long as its longer operand whose k-th element is the operation applied to the k-th element of each operand, the shorter operand being reused cyclically from its beginning, and unary minus negates every element. "
 "Division is real division and powers are real powers even when both operands hold integers. Operands are never modified by being used in an expression.",
 ["inputs","programs"], "all operand lengths, element values, element types (integer, double, logical mixed with numeric), scalar/vector combinations and nestings of the five operators",
 "BinaryOperations_Tests asserts nothing about values and the other suites use a handful of equal-length operands; recycling, operand order and nesting are quantified over all length pairs and expression trees.",
 ["BinaryCalculations.hpp","Core/Traits.hpp","UnaryCalculations.hpp"],
 [("BinaryOperation::operator[] / size()", "BinaryCalculations.hpp"), ("PlusTrait..PowTrait", "Core/Traits.hpp")]))
L.append(P("C02", "Comparisons are elementwise, recycled and tolerance-consistent",
 "For finite operands of any lengths of at least one, == != < <= > >= yield a logical result as long as the longer operand whose k-th element compares the cyclically reused k-th elements. "
 "== is true exactly when the two values differ by less than 1e-3 and != exactly when they differ by more than 1e-3, while the four order comparisons are exact.",
 ["inputs"], "all finite element values (including pairs just inside and outside the tolerance), operand lengths, element types and operand kinds",
 "The tests evaluate comparisons on a few equal-length vectors and mostly do not assert the outcome; boundary values and recycling are never exercised.",
 ["BinaryCalculations.hpp","Core/Traits.hpp"],
 [("EqualTrait..UnEqualTrait", "Core/Traits.hpp"), ("operator== .. operator>=", "BinaryCalculations.hpp")]))
L.append(P("C03", "What an operand means does not depend on how it is stored",
 "Wherever a vector can be an operand, a variable, a borrowed view, the result of a function call, a subset of a vector and an unevaluated expression with the same elements are interchangeable: the result of the enclosing operation or function is the same. "
 "In particular an arbitrarily nested expression yields the value obtained by storing every intermediate result in a variable first.",
 ["programs","inputs"], "all expression trees over arithmetic, comparison, unary, concatenation, repetition, range and subsetting operations and all assignments of storage kinds to their operands",
 "Each operand kind is a separate template instantiation; the tests sample few of the combinations, with one value each, and check little of the result.",
 ["BinaryCalculations.hpp","UnaryCalculations.hpp","Core/SubsetClass.hpp","Subsetting/VectorSubsetting.hpp","Coca.hpp","Core/Types.hpp"],
 [("expression templates holding operand references", "BinaryCalculations.hpp"), ("subset views", "Core/SubsetClass.hpp")]))
L.append(P("C04", "Assignment stores exactly the old-state value and changes only its target",
 "Assigning any expression to a variable gives the variable exactly the value (length and elements, converted to the variable's element type) which the expression had in the state before the statement, even if the expression reads the variable itself in any order, and repeatedly so in any program. "
 "No other variable changes, and a statement that is rejected while its right hand side is evaluated changes nothing at all.",
 ["histories","programs"], "all statement sequences over several variables of all element types, including self-referencing and overlapping right hand sides, growing and shrinking targets, and statements that fail",
 "Tests assign at most a few times and never look at the other variables; lazy evaluation makes correctness depend on the order of reads and writes across the whole history.",
 ["Vector/AssignmentOperator.hpp","Core/BaseStore.hpp"],
 [("evaluate into temporary, then exchange", "Vector/AssignmentOperator.hpp"), ("moveit", "Core/BaseStore.hpp")],
 [("d, temp", "current storage and the recycled temporary of a variable", "Vector/VectorClass.hpp")]))
L.append(P("C05", "Copies are independent values",
 "Initialising a variable from another variable, a function result or an expression, passing it by value, returning it, or placing it in a container yields a variable with the same element values, length and matrix shape. "
 "From then on neither can be changed through the other, and destroying either leaves the other usable.",
 ["histories"], "all interleavings of copy construction, copy assignment, modification and destruction over variables of every element type, length and shape, including copies of copies",
 "Copies appear only incidentally in the tests and their shape, capacity and independence are never asserted.",
 ["Vector/Constructors.hpp","Core/BaseStore.hpp","Vector/VectorClass.hpp"],
 [("copy/move constructors", "Core/BaseStore.hpp"), ("Vec constructors from other vectors", "Vector/Constructors.hpp")]))
L.append(P("C06", "Matrix shape follows the value through every operation",
 "A matrix keeps its number of rows and columns through elementwise arithmetic, comparisons and unary functions (alone, with scalars, with vectors no longer than it and with matrices of the same shape), through copying and through assignment to another variable. "
 "A variable reports itself to be a matrix exactly when the value last assigned to it was one, with rows times columns equal to its length, so assigning a vector or scalar to a former matrix makes it a vector again.",
 ["programs","histories"], "all expression trees mixing scalars, vectors and matrices of all small shapes and all assignment histories that change a variable's shape",
 "The tests check dimensions for a few direct constructions only, and never after a variable changes from matrix to vector or passes through a unary function.",
 ["Core/MatrixParameter.hpp","BinaryCalculations.hpp","UnaryCalculations.hpp","Vector/AssignmentOperator.hpp","Allocation/Matrix.hpp"],
 [("im/nr/nc of expressions", "BinaryCalculations.hpp, UnaryCalculations.hpp"), ("shape update on assignment", "Vector/AssignmentOperator.hpp")]))
L.append(P("C07", "One-index subsetting selects the addressed elements in order",
 "Subsetting a vector, matrix, function result or expression with one index selects elements in index order with repetition: TRUE selects all, a position selects one element, a vector of positions (fractions truncated) selects those elements, and a logical vector, reused cyclically over the length of the subsetted value, selects the positions at which it is true. "
 "The index may be a scalar or a vector of any element type given as variable, function result or expression, and may be longer than the value it addresses; subsets of subsets compose.",
 ["inputs"], "all lengths, contents, index kinds and index vectors (repeated, reversed, longer than the value) and compositions of subsets",
 "Subsetting tests compare only the size of the selection, for a single 16 element vector and a 3 element index.",
 ["Subsetting/VectorSubsetting.hpp","Core/SubsetClass.hpp"],
 [("calcIndVector", "Subsetting/VectorSubsetting.hpp"), ("Subset::operator[]", "Core/SubsetClass.hpp")]))
L.append(P("C08", "Two-index subsetting selects the addressed sub-matrix",
 "Subsetting an r by c matrix with a row and a column index, each of them TRUE, a position (fractions truncated), a vector of positions or a logical vector reused cyclically over that dimension, selects in column-major order exactly the elements at the selected row and column positions, for every combination of index kinds. "
 "Indexing two vectors, or a vector and TRUE, gives a matrix with as many rows and columns as were selected, and any other combination except TRUE with TRUE, which keeps the shape, gives a plain vector.",
 ["inputs"], "all matrix shapes and contents and all combinations of the index kinds with all in-range positions and masks",
 "There are 25 separately written index-kind combinations; the tests check the size of one selection each, never its elements, its shape or a non-square matrix.",
 ["Subsetting/MatrixSubsetting.hpp"],
 [("calcIndMatrix", "Subsetting/MatrixSubsetting.hpp")]))
L.append(P("C09", "Assigning through a subset changes exactly the selected elements",
 "Assigning to a one- or two-index subset of a variable replaces exactly the selected elements, pairing the right hand side, evaluated beforehand, with the selection in order (a scalar goes to all of them, and of repeated positions the last one wins). "
 "Every other element, the length, the shape and every other variable stay as they were; a right hand side whose length differs from the selection is rejected without any change.",
 ["histories","inputs"], "all variables, index kinds, index values and right hand sides, including ones that read the assigned variable",
 "Tests only read subsets; writes through views with repetition, overlap and mismatching lengths are not checked.",
 ["Vector/AssignmentOperator.hpp","Core/SubsetClass.hpp","Subsetting/VectorSubsetting.hpp","Subsetting/MatrixSubsetting.hpp"],
 [("subset branch of assignment", "Vector/AssignmentOperator.hpp"), ("Subset::operator[]", "Core/SubsetClass.hpp")]))
L.append(P("C10", "Invalid positions are rejected and never reach foreign memory",
 "Reading or writing through a position that is below one or beyond the length of the value (or, with two indices, beyond its rows or columns), or using two indices on a value that is not a matrix, raises an error instead of yielding or changing an element, for every way of indexing whose positions count from one and for plain x[k] on a variable, which counts from zero (single-index element access to anything but a variable also counts from zero and is not meant here). "
 "No memory outside the value is touched and all other variables keep their values; valid positions are always accepted.",
 ["inputs","fault_sequences"], "all lengths, shapes, access functions and positions from negative to far beyond the end, alone or hidden inside otherwise valid index vectors",
 "Tests wrap out of range accesses in try blocks that also pass when nothing is raised, so no rejection is actually checked.",
 ["Subsetting/at.hpp","Subsetting/MatrixSubsetting.hpp","Subsetting/VectorSubsetting.hpp","Core/BaseStore.hpp","Core/Borrow.hpp"],
 [("at", "Subsetting/at.hpp"), ("bounds checks in operator[]", "Core/BaseStore.hpp, Core/Borrow.hpp"), ("index validation", "Subsetting/*.hpp")]))
L.append(P("C11", "Ranges, repetition and concatenation build the specified sequence",
 "A range from a to b consists of a, a plus or minus one, and so on towards b, as long as b is not passed, ascending or descending; repetition concatenates a value or vector the requested number of times; concatenation lists all elements of its arguments in argument order, converted to their common element type. "
 "Counts that are smaller than one are rejected, fractional counts are truncated, and the arguments may be scalars, variables, function results or arithmetic expressions of any element type, for ranges and repetition also further operands the library accepts there.",
 ["inputs"], "all endpoints (integer and fractional, ascending, descending, equal), counts, argument lists, argument kinds and element types",
 "The tests enumerate argument kinds for one value each; colon alone is 9 hand-written overload combinations.",
 ["Allocation/Colon.hpp","Allocation/Rep.hpp","Coca.hpp","Allocation/AllocationUtils.hpp"],
 [("colonInternal", "Allocation/Colon.hpp"), ("repInternal", "Allocation/Rep.hpp"), ("coca", "Coca.hpp")]))
L.append(P("C12", "Matrix and vector constructors give the requested size and contents",
 "Building a matrix from a scalar or from a vector with exactly rows times columns elements gives a matrix of that shape holding that scalar everywhere or the elements in column-major order, and any other number of elements is rejected. "
 "Allocating a numeric, integer or logical vector gives a vector of exactly the requested length filled with zeros, for a length given as literal, variable or one-element vector of any element type; sizes below one are rejected. Vec objects made directly from rows and columns (zeros, or a number everywhere), from a size, from one number or from a pointer to numbers have that shape and contents.",
 ["inputs"], "all sizes, shapes, contents and argument kinds and types",
 "The tests use a few fixed sizes; the overloads for literals and for variables are separate code.",
 ["Allocation/Matrix.hpp","Allocation/Vector.hpp","Allocation/AllocationUtils.hpp","Core/BaseStore.hpp"],
 [("matrix", "Allocation/Matrix.hpp"), ("vector_numeric/integer/logical", "Allocation/Vector.hpp"), ("BaseStore::fill", "Core/BaseStore.hpp")]))
L.append(P("C13", "A borrowed view writes in place and never past what was lent",
 "A view over caller-owned memory reads and writes exactly the lent elements in place, so the caller sees every assignment made through the view and the view sees every change made by the caller. "
 "Assigning more elements than were lent is rejected without changing the memory or the view; whatever happens, memory next to the lent region is untouched and the memory is neither released nor replaced by the library. This holds however the view was made (from a pointer, with or without a matrix shape, from another view), and several views of the same memory see each other's writes.",
 ["histories"], "all sequences of whole, scalar and subset assignments, fills, resizes, copies of the view and direct changes by the caller, for all lent sizes",
 "Borrow tests perform one operation at a time on one size; aliasing between view, copies and caller over a history is not covered.",
 ["Core/Borrow.hpp","Vector/AssignmentOperator.hpp","Vector/Constructors.hpp"],
 [("Borrow", "Core/Borrow.hpp"), ("borrow branch of assignment", "Vector/AssignmentOperator.hpp")],
 [("p, sz, capacity", "borrowed pointer, current and lent size", "Core/Borrow.hpp")]))
L.append(P("C14", "Owning storage behaves as a sequence over any operation history",
 "Over any history of initialising, resizing, reallocating, appending, filling, copying, moving, assigning and exchanging, owning storage has exactly the length and element values of an ideal growable sequence: growing keeps the existing elements where the operation promises so, appended elements come last, and accesses beyond the length are rejected. "
 "Every allocation is released exactly once and no access leaves it.",
 ["histories"], "all operation sequences over several storages and sizes, in particular around capacity boundaries, after exchanging, moving or stealing contents, and after failed operations",
 "BaseStore_Tests apply each operation once to a fresh storage and never combine them; capacity bookkeeping errors only surface in later operations.",
 ["Core/BaseStore.hpp"],
 [("resize/realloc/push_back/moveit/fill", "Core/BaseStore.hpp")],
 [("p, sz, capacity, allocated", "allocation, length, allocated length, ownership", "Core/BaseStore.hpp")]))
L.append(P("C15", "Propagated derivatives equal the true derivative of the expression",
 "For every expression built from tracked variables and constants with + - * /, comparisons and sine, the derivative stored with the result is, element by element, the derivative of the stored value with respect to the chosen independent variable given the derivatives of the operands, according to the sum, product, quotient and chain rules, constants having derivative zero and comparisons derivative zero. "
 "Operands of different lengths are recycled in value and derivative alike.",
 ["programs","inputs"], "all expression trees over the supported operations, operand lengths, values, and choices of the independent variable",
 "The tests evaluate each rule for one input; no quotient of two variables, no sine of an expression and no recycling is checked.",
 ["Derivatives/DerivTypes.hpp","Vector/DerivativeCalc.hpp","Core/Traits.hpp","Derivatives/VarPointer.hpp"],
 [("fDeriv rules", "Core/Traits.hpp"), ("walkTD", "Vector/DerivativeCalc.hpp"), ("getDeriv", "Derivatives/DerivTypes.hpp")]))
L.append(P("C16", "Tracked variables keep value and derivative consistent through any program",
 "Through any sequence of assignments of constants, variables and expressions to tracked variables, including ones that read their own target, each variable's value is what ordinary evaluation gives, its derivative has the same length, and both come from the state before the statement; variables not assigned keep value and derivative. "
 "Assigning a constant gives derivative one to the independent variable and zero to every other variable, for tracked variables owning their memory as well as for borrowed ones.",
 ["histories","programs"], "all straight-line programs over several tracked variables of both storage kinds, all choices of the independent variable, growing and shrinking lengths",
 "Tests run programs of at most four statements without in-place updates of changing length and never use borrowed tracked variables.",
 ["Vector/AssignmentOperator.hpp","Derivatives/AllVars.hpp","Derivatives/VarPointer.hpp","Derivatives/getDerivs.hpp"],
 [("tracked branch of assignment", "Vector/AssignmentOperator.hpp"), ("derivative seeding", "Derivatives/VarPointer.hpp")],
 [("varBuffer/varBorrow + Derivs", "values and derivatives of tracked variables", "Derivatives/AllVars.hpp")]))
L.append(P("C17", "Interpolation reproduces its nodes and follows its defining formula",
 "Catmull-Rom interpolation over at least four strictly increasing nodes returns the node's value at every node, the first or last value outside the node range, and in every interval the cubic with the nodes' central-difference slopes, the neighbours beyond either end being taken cyclically from the other end of the data (wherever the slopes at the ends are defined, as for non-negative nodes); linear interpolation returns the straight-line value between neighbouring nodes and the end values outside. "
 "Fewer than four nodes (cubic) and lengths of nodes and values that differ are rejected.",
 ["inputs"], "all node and value vectors with strictly increasing nodes, all evaluation points at, between and outside nodes, and all argument kinds",
 "CMR_Tests compare one data set with a loose tolerance and linear interpolation is not tested at all; interval selection is a property of every interval.",
 ["Interpolation.hpp"],
 [("cmrInternal", "Interpolation.hpp"), ("li", "Interpolation.hpp")]))
L.append(P("C18", "Math functions apply the named function to every element",
 "Each unary math function (sine, cosine, tangent, their inverses and hyperbolic versions, exponential, logarithm, square root) applied to an operand of any length and kind yields a result of the same length whose k-th element is that mathematical function of the k-th element of the operand, including its NaN and infinity results. "
 "Scalars and vectors agree, and functions compose with each other and with arithmetic.",
 ["inputs","programs"], "all operand lengths, values inside and outside the function's domain, operand kinds and compositions",
 "Unary_Tests look at the first element only.",
 ["UnaryCalculations.hpp","Core/Traits.hpp"],
 [("UnaryOperation::operator[]", "UnaryCalculations.hpp"), ("SinusTrait..SquareRootTrait", "Core/Traits.hpp")]))
L.append(P("C19", "Queries, iteration and printing report the actual value",
 "For every value, length returns its number of elements, dimensions return rows and columns of a matrix and are an error otherwise, the NaN and infinity tests answer per element exactly for NaN and for either infinity, range-based loops over variables, subsets of variables and function results visit every element once in order (and can change a variable's elements), and printing lists every element in order, matrices row by row. "
 "None of these changes the value, a logical value used as a condition is its first element, back() is the last element and writing a vector to a stream lists its elements in order.",
 ["inputs"], "all lengths, shapes, element types and contents including NaN and infinities",
 "The tests check single fixed values and never iterate over or print data and compare the outcome.",
 ["Helper.hpp","Printing.hpp","Vector/VectorClass.hpp","Core/Utils.hpp"],
 [("isNA/isInf/length/dim", "Helper.hpp"), ("begin/end", "Vector/VectorClass.hpp"), ("print", "Printing.hpp")]))
L.append(P("C20", "Element types convert consistently",
 "In every operation mixing logical, integer and double values the computation takes place in the wider type without loss; storing into a variable converts each element to the variable's element type the same way for scalars, vectors, expressions, function results and subset assignments: towards zero for integers, to non-zero for logicals, exactly for doubles. "
 "A vector used where a plain number is expected is its first element. The element type of a variable never changes.",
 ["inputs","programs"], "all pairs of element types, values (negative, fractional, zero), and all statement and operand kinds",
 "Conversions are separate branches per statement and operand kind; the tests use doubles almost exclusively.",
 ["Vector/AssignmentOperator.hpp","Vector/Constructors.hpp","Coca.hpp","Core/Traits.hpp"],
 [("static_cast branches", "Vector/AssignmentOperator.hpp"), ("determine_type", "Coca.hpp")]))
L.append(P("C21", "Programs with loops, branches, local variables and functions do what their statements say",
 "A program composed of the library's statements with range-based loops, while loops, conditions, blocks with local variables, and functions taking vectors by value and returning them ends with exactly the variables that executing its statements one after another in program order gives: each iteration sees what the earlier ones left, locals and parameters are independent of the values they came from and vanish with their scope, and a rejected statement ends the program with the effects of the earlier statements in place. "
 "Algorithms written this way (sorting, running sums, matrix products, sieves, bisection, filtering, ...) reach their goals.",
 ["programs","inputs"], "all programs of this kind with nesting up to three and all inputs; small-scope inputs for about fifty algorithms and random programs",
 "The tests run single statements and a few hand written functions on one input; interplay of state left by earlier iterations, scopes and early ends is never varied.",
 ["Vector/AssignmentOperator.hpp","Vector/Constructors.hpp","Vector/VectorClass.hpp","Subsetting/at.hpp","Core/BaseStore.hpp","Core/Buffer.hpp"],
 [("operator=", "Vector/AssignmentOperator.hpp"), ("begin/end", "Vector/VectorClass.hpp"), ("at", "Subsetting/at.hpp"), ("moveit", "Core/BaseStore.hpp")]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
