#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the statements stay reviewable).
import json, os
P=[]
def prop(id,title,stmt,over,qt,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qt},
              "why_tests_cant":why,"anchors":a})
M="include/malg/math.hpp";U="include/malg/utility.hpp";L="include/malg/linalg.hpp"
X="include/malg/matrix.hpp";V="include/malg/vector.hpp";W="include/malg/view.hpp"
C="include/malg/control/control.hpp";IO="include/malg/io.hpp";E="include/malg/eigen.hpp"
F="include/malg/feq.hpp";Z="include/malg/complex_math.hpp";TT="include/malg/type_traits.hpp";B="include/malg/matrix_base.hpp"

prop("C01","Operands of incompatible shape are rejected, compatible ones never are",
 "Every binary operation on matrices and vectors (arithmetic, products, comparisons, compound assignments, stacking, dot products, tolerance comparison, element-wise combinations) throws an exception exactly when the operand dimensions do not satisfy that operation's conformability rule. When it throws, both operands keep their dimensions and every element unchanged.",
 ["inputs"],"all pairs of operand shapes and contents, for matrices, views and vectors of real, integer and complex elements",
 "The tests call each operator on a few equal square shapes; mismatches (rows only, columns only, a square against a rectangle) are never tried, and most operators are never given any failing input.",
 [M,U],[("shape guards at the head of each operator",M),("shape guards of the stacking and comparison helpers",U)],
 ["exception thrown or not","operand contents after the throw"])
prop("C02","No operation reads or writes outside the elements of its operands or results",
 "For every argument the operation accepts (that is, does not reject by throwing or by a failed assertion), each element it reads or writes lies inside the matrix, vector, view or list it addresses. Accepting an argument for which some access would fall outside is a violation.",
 ["inputs"],"all shapes including empty, 1xN, Nx1 and rectangular ones, all index and range arguments",
 "Out-of-range accesses on small heap blocks usually go unnoticed at run time, and the tests use a handful of mostly square shapes.",
 [X,V,W,M,U,L,C],[("loop bounds taken from the operand that is indexed",M),("range checks of extract/remove/swap",U)])
prop("C03","Element-wise arithmetic computes the named operation on every element",
 "Sum, difference, scaling and division of matrices, vectors and scalars give a result of the operand's shape whose every element is that operation applied to the corresponding elements, in the stated operand order. The compound forms leave exactly these values in the left operand.",
 ["inputs"],"all conforming shapes and all element values over exact arithmetic; double, int, complex and mixed element types",
 "Tests check one or two small matrices per operator against printed values, so an operator that is wrong for non-square shapes, views or mixed types passes.",
 [M],[("element loops of + - * / and their compound forms",M)])
prop("C04","Matrix, matrix-vector and inner products sum every term exactly once",
 "The product of an m-by-k matrix with a k-by-n matrix is the m-by-n matrix of inner products, the matrix-vector product and the dot product are the corresponding sums, and the in-place product leaves the same value in its left operand even when both operands are the same object. Raising a square matrix to the power N is the N-fold product starting from the identity.",
 ["inputs"],"all conforming shapes including empty inner dimension, all contents, aliased operands",
 "The tests multiply two small squares and never exercise rectangular, aliased or zero-length inner dimensions.",
 [M,L],[("product loops",M),("matrix power",L)])
prop("C05","Comparison operators return the element-wise truth table, consistently",
 "Each comparison yields a boolean matrix or vector of the operands' shape whose entry is the comparison of the corresponding elements (approximate for floating point equality, both parts for complex). Equality and inequality are complements of each other, and so are less and greater-or-equal, greater and less-or-equal.",
 ["inputs"],"all conforming shapes, element values (excluding NaN) and element types",
 "Tests use equality mainly as a tool; inequality, ordering against scalars and complex comparison are not covered for all entries.",
 [M,F],[("comparison loops",M)])
prop("C06","Operations change only what they promise to change",
 "An operation that takes its operands by constant reference leaves their dimensions and elements unchanged, and a returned matrix or vector shares no storage with them. A compound assignment changes only its left operand, keeps that operand's dimensions, and returns a reference to that same operand so that chained operations act on it.",
 ["inputs","histories"],"all operand contents and shapes, all operations in the public headers",
 "Tests look at the returned value and almost never re-inspect the inputs or write through the returned reference.",
 [M,U,L],[("compound assignment operators",M)])
prop("C07","Mixed-type operations compute and return the common type without loss",
 "The element type of a result is the common type of the operand element types (complex if either is complex, constness dropped). No intermediate step narrows a value (floating to integer, complex to real, double to float) that the result type could represent.",
 ["programs"],"all ordered pairs over int, float, double, complex<float>, complex<double>, and const-qualified views",
 "The result type is a compile-time fact of each instantiation; the tests instantiate only a few pairs and compare values that narrowing does not disturb.",
 [TT,M,U,L],[("common type alias",TT)])
prop("C08","Matrix dimensions always describe exactly the stored elements",
 "After every construction, assignment, move, resize, reshape, row or column removal, the number of stored elements equals rows times columns, the iterator range covers exactly these elements, and emptiness agrees with the size. A matrix or vector that has been moved from reports zero elements and is safe to reuse.",
 ["histories","inputs"],"all sequences of constructing and mutating calls, all shapes including zero dimensions and ragged or short lists",
 "Tests run a few fixed sequences; the invariant has to hold after any sequence, and violating states are often silent.",
 [X,V,U],[("dimension and buffer updates in each mutator",X)],None,[("dimensions","rows and columns",B),("buffer","element storage",V)])
prop("C09","Copy, conversion, assignment and move preserve the value",
 "After copying, converting, assigning or moving, the destination has the source's dimensions and element values (converted to the destination's element type), whatever it held before and also when the source is empty, is the destination itself or is a view into it. A copy is independent: later changes to either object do not show in the other.",
 ["inputs","histories"],"all source and destination shapes and contents, same and different element types, self and overlapping sources",
 "Only a few same-shape copies are tested; empty sources, shrinking destinations, conversions and overlapping views are not.",
 [X,V,W],[("constructors and assignment operators",X)])
prop("C10","Element buffers are owned, initialised and released exactly once",
 "Every element buffer is released exactly once, never used after release, never leaked when it is replaced, moved, swapped or assigned, and its elements are initialised before they can be read. Growing a vector keeps the old elements and makes the new ones zero.",
 ["histories","inputs"],"all sequences of vector lifetime operations and all sizes including zero and equal size",
 "Leaks and double releases need particular sequences (move into non-empty, resize to zero, self assignment) of which the tests run only a few and without a checker.",
 [V],[("allocation and release helpers",V)],None,[("buffer and size","owning pointer and element count",V)])
prop("C11","Resizing keeps the overlapping block and zero-fills; reshaping keeps order",
 "Resizing a matrix to any shape keeps every element whose row and column exist in both shapes at the same position and sets all others to zero. Reshaping succeeds exactly when the element count is unchanged and keeps the linear order of the elements.",
 ["inputs"],"all old and new shapes, contents, and both storage orders",
 "The tests resize a few shapes, mostly along one dimension.",
 [X,U],[("resize and reshape",X)])
prop("C12","All ways to address an element agree, in either storage order",
 "For a matrix, the row/column access, its checked-name alias, the linear access, the iterators and the raw pointer name the same element under one fixed row-major (or, when so configured, column-major) numbering, and the constant and mutable forms agree. Distinct row/column pairs inside the matrix name distinct elements.",
 ["inputs","configurations"],"all shapes and in-range indices, both storage-order configurations, const and non-const access",
 "Tests run one storage order and compare a few elements of square matrices, where a swapped stride is invisible.",
 [X,W,B],[("index arithmetic of the access operators",X)])
prop("C13","A view is exactly the selected window of its matrix",
 "A view over a row and column range has the dimensions of that range clipped to the matrix, its (i,j) element is the matrix element offset by the range starts, and its linear numbering matches its own shape. Writing or assigning through the view changes exactly the elements of the window and nothing else.",
 ["inputs"],"all matrices, ranges inside or extending past the end, nested views, const and mutable views",
 "Tests use one matrix and a few windows, mostly square.",
 [W,U],[("view access and assignment",W)])
prop("C14","Excluding a row and a column gives the minor in the original order",
 "The minor obtained by excluding row p and column q (as a view or as a copy) has one row and one column less and contains the remaining elements in their original order under every access form. Writing through the view changes the corresponding element of the underlying matrix.",
 ["inputs"],"all matrix shapes including rectangular, all valid p and q",
 "Tests cover one matrix; rectangular matrices and linear access of the minor are not covered.",
 [W,L],[("cofactor view",W),("cofactor copy",L)])
prop("C15","Builders and conversions produce exactly the described content",
 "Identity, zero, one and diagonal builders, list constructors, and the conversions between matrix and vector produce the described shape and the described value at every position. Builders reject zero sizes where documented.",
 ["inputs"],"all sizes and contents, rectangular shapes, both row and column forms",
 "Tests sample a few sizes and never rectangular identity or diagonals of non-square matrices.",
 [U,X],[("builder functions",U)])
prop("C16","Stacking, extraction, swapping, removal and transposition only move elements",
 "Each of these operations puts every source element at the position its definition names, in the documented shape, neither losing, duplicating nor altering elements outside the affected range. Transposing twice, and swapping twice, restores the original.",
 ["inputs"],"all shapes, row/column numbers and sub-ranges that the operation accepts",
 "Tests sample one or two positions (often first or last) on one shape.",
 [U,L],[("stack/extract/swap/remove helpers",U),("transpose",L)])
prop("C17","Structure predicates are true exactly for matrices with that structure",
 "Square, row/column vector, symmetric, skew-symmetric, diagonal, zero, constant, identity, triangular and closeness predicates return true exactly when every element pair named by the definition satisfies it, and false for non-square input where squareness is required.",
 ["inputs"],"all shapes and contents including empty, 1x1 and a single deviating element anywhere",
 "A predicate that skips a row, a diagonal or the last element agrees on nearly all sampled matrices; most predicates are not tested at all.",
 [U],[("predicate loops",U)])
prop("C18","Reductions and norms cover every element exactly once",
 "Sum, trace, extremum with its position, all/any, Euclidean, infinity and below-diagonal norms, column length, accumulation and lexical comparison return the value defined over all elements of their range. Empty input gives the documented neutral value.",
 ["inputs"],"all shapes and contents over exact arithmetic; real and complex elements",
 "Tests check few of these and on inputs where skipping an element or mixing up rows and columns may not show.",
 [M,U],[("reduction loops",M),("accumulate/inner_product/compare",U)])
prop("C19","Element-wise functions apply the function at each position",
 "Applying a function, taking real or imaginary part, modulus, sign, conjugate transpose, element-wise exponential, element-wise product and linear combination give, at every position, that function of the element(s) at the corresponding position, in the documented shape.",
 ["inputs"],"all shapes, contents and element types accepted",
 "Existing tests do not cover these functions, or cover them with symmetric input.",
 [M,L],[("element-wise helpers",M),("conjugate transpose, exponential",L)])
prop("C20","Mixed complex/real arithmetic equals complex arithmetic after promotion",
 "Adding, subtracting, multiplying and dividing complex and real (or differently typed complex) numbers in either order gives the value obtained by first converting both to the common complex type. Operand order is respected for subtraction and division.",
 ["inputs"],"all values over exact arithmetic and all supported type pairs",
 "The complex test checks a few literal values for some pairs.",
 [Z],[("mixed operators",Z)])
prop("C21","The determinant equals its algebraic definition",
 "For sizes up to four the determinant equals the signed sum over permutations; for larger sizes each elimination step preserves it, a row exchange flips its sign, and a matrix without a usable pivot has determinant zero. Non-square input is rejected.",
 ["inputs"],"all element values over exact field arithmetic, all sizes",
 "A wrong term or sign in one closed form, or in the rarely taken pivot exchange, shows only for particular matrices.",
 [L],[("determinant",L)])
prop("C22","Adjoint, inverse, quotient and solve compose determinant and cofactors correctly",
 "The adjoint's (j,i) entry is the signed determinant of the minor without row i and column j, the inverse is adjoint over determinant with a singular matrix giving an empty result, the matrix quotient multiplies by the inverse, and the square linear solve applies the inverse to the right-hand side. Non-square input of adjoint and inverse is rejected.",
 ["inputs"],"all square sizes including one, all contents over exact arithmetic",
 "Tests check one or two matrices; a transposed adjoint is invisible on symmetric input.",
 [L],[("adjoint and inverse",L)])
prop("C23","LU factors are triangular and reproduce the matrix",
 "The decomposition of a square matrix returns a lower factor and a unit upper factor of the same size, with exact zeros outside their triangles, whose product is the input wherever the pivots are non-zero. Non-square input is rejected.",
 ["inputs"],"all sizes and contents with non-zero pivots over exact arithmetic",
 "The factorisation is not tested beyond one example.",
 [L],[("lu decomposition",L)])
prop("C24","State-space simulation and discretisation use the model they were given",
 "A simulation step returns A x + B u and C x + D u, a multi-step simulation chains steps over the given inputs with one output per step and one state and time stamp more than steps, and discretisation keeps output matrices and sample time. Zero inputs and states have the model's dimensions.",
 ["inputs","histories"],"all model dimensions, inputs, and step counts",
 "The tests simulate one model and compare a final value.",
 [C],[("simulate_step, simulate, c2d",C)])
prop("C25","Controllability, observability and polynomial builders follow their definitions",
 "The controllability matrix stacks B, AB, ... side by side and the observability matrix stacks C, CA, ... vertically, with rejected non-conforming input. The polynomial of given roots is monic and the reduced polynomial drops exactly the leading zeros.",
 ["inputs"],"all system orders, input/output counts and coefficient vectors",
 "Only one or two systems are tested.",
 [C],[("ctrb, obsv, poly, polyreduce",C)])
prop("C26","What is written to a file is what the reader expects",
 "The file form written for a vector or matrix consists of the kind letter, the dimensions and every element once in reading order, separated by white space, and the reader consumes exactly that sequence into the same shape. A reader given a wrong or missing kind leaves its destination unchanged and never acts on uninitialised data.",
 ["inputs","histories"],"all shapes and element types with stream operators; any stream content and end of file at any point",
 "The test writes and reads one vector and one matrix; separators for degenerate shapes and failed reads are not covered.",
 [IO],[("file stream operators",IO)])
prop("C27","The library reports errors to its caller and never ends the process",
 "No public function can reach a call that terminates or aborts the process for inputs it rejects; failures are reported by exceptions or documented return values. Precondition assertions are the only exception and exist only in debug builds.",
 ["inputs","programs"],"all call paths from all public functions",
 "A terminating call is on an error path that a passing test by construction never takes.",
 [C,L,U,M,V,X,W],[("error handling",C)])
prop("C28","Headers compile alone, repeatedly, and in many translation units as one library",
 "Every public header can be included alone, twice and in any combination, and linking several units that include them gives neither duplicate nor diverging definitions. Configuration state such as the comparison tolerance is one object for the whole program.",
 ["programs","configurations"],"all headers, inclusion orders and numbers of translation units",
 "Every test program is a single translation unit that includes each header once.",
 ["include/malg",F,E],[("include guards and inline definitions","include/malg")])
prop("C29","Every public operation can be used with every element type it is meant for",
 "Each public function and member can be instantiated and called with matrices, views and vectors of the element types its documentation allows (real, integer, complex, const views), without private access or type errors inside the library.",
 ["programs"],"all public functions over the documented element types and matrix kinds",
 "Template bodies are only checked when instantiated, and the tests instantiate a small part of the interface.",
 ["include/malg"],[("public interface","include/malg")])
prop("C30","Approximate equality is a symmetric relative comparison",
 "Two values are approximately equal exactly when their distance is at most the tolerance times the larger magnitude, in either argument order; less-or-equal and greater-or-equal hold exactly when the strict comparison or approximate equality holds. The predicate for zero follows the same rule and accepts exact zero.",
 ["inputs"],"all finite values (positive, negative, zero, mixed magnitude and type) and tolerances",
 "The comparison is used by tests as their oracle and is itself tested only through it.",
 [F],[("approximate comparisons",F)])
prop("C31","Non-zero search lists exactly the non-zero positions in order",
 "The non-zero search returns in increasing order every linear index whose element is non-zero and no other. The limited search returns the first or last n of them, as a row for row input and as a column otherwise.",
 ["inputs"],"all shapes, contents and limits",
 "One example with three non-zero elements is tested.",
 [U],[("flatnonzero and find",U)])
prop("C32","Spaced sequences have the requested length, ends and constant step",
 "A linearly spaced sequence of n values starts at start, ends at stop and has constant step in either direction; a logarithmic sequence is the base raised to that sequence. Lengths zero and one and coincident ends give the documented result.",
 ["inputs"],"all ends and lengths over exact arithmetic",
 "Only a few sequences are tested.",
 [U],[("linspace and logspace",U)])
prop("C33","QR and Hessenberg factorisations build their factors structurally right",
 "The QR factorisation of an m-by-n matrix returns an m-by-m and an m-by-n factor, the second with exact zeros below the diagonal, obtained by applying each reflection on the right of the first and on the left of the second; for one and two columns the first is orthogonal and the product of the two is the matrix, also when a column is zero. Reduction to Hessenberg form is a unitary similarity that leaves the first coordinate alone and clears what lies below the subdiagonal; the Givens factorisation of a Hessenberg matrix is into a unitary and an upper triangular factor whose product is the matrix. Upper-triangular eigenvector extraction returns a square result of the input's size with zeros below the diagonal whose columns, when the set is reported complete, are eigenvectors of the diagonal elements. The iteration for the Schur form leaves a matrix that is triangular already as it is. The last four refuse a matrix that is not square.",
 ["inputs"],"all shapes and contents",
 "The factorisations are not covered by any test.",
 [L,E],[("qr decomposition",L),("eigenvector extraction",E)])
prop("C34","Printed forms show every element once in reading order",
 "The console, Matlab and C++ forms of a vector or matrix, the named dumps and the printed models contain every element exactly once in reading order inside the brackets, names and separators of the form: blanks between the elements of a row, a line per row on the console, closed rows in the Matlab form, commas and braces in the C++ form, and a complex element as real part, signed imaginary part and unit in the last two. Elements of one matrix on the console are printed with one common width, that of the longest, so that columns line up.",
 ["inputs"],"all shapes (also empty and single rows or columns), contents and element types with stream operators, matrices as well as views",
 "The printed forms are only looked at by people; no test compares them.",
 ["include/malg/io.hpp"],[("stream operators, dump_*, to_matlab, to_cpp","include/malg/io.hpp")])
prop("C35","Random builders fill every element with a draw from the requested distribution",
 "A random matrix or vector has the requested dimensions and every element, both parts of a complex one included, is a draw from the uniform distribution between the two given bounds, in the given order: over the integers for integer elements, over the reals otherwise.",
 ["inputs"],"all shapes, bounds and element types","Random values are only printed by the examples.",
 [U],[("rand_matrix, rand_vector",U)])
prop("C36","Pole placement gives the closed loop the requested poles",
 "For a single-input system whose controllability matrix is invertible, the gain makes the closed-loop matrix A minus B K have exactly the requested characteristic polynomial, over exact arithmetic. A system whose controllability matrix is singular is rejected.",
 ["inputs"],"all systems with one and two states, chains of three states, all requested poles","One system is tested, and the result compared with a stored gain.",
 [C],[("acker: desired polynomial, powers of A, last row of the inverse",C)])
prop("C37","The matrix exponential of a nilpotent matrix is its finite power series",
 "Where the power series of the exponential ends, that is for nilpotent matrices, the result is exactly the sum of the terms, whatever scaling the norm of the matrix calls for and whatever accuracy is requested. The exponential of a zero matrix is the identity of the same size.",
 ["inputs"],"all nilpotent two-by-two matrices of the forms in the driver (shears in either direction and full ones), scaled and unscaled, and zero matrices, over exact arithmetic","Tests compare the exponential of one matrix with stored digits.",
 [L],[("expm: scaling, terms of the series, squaring",L)])
prop("N01","Matrix exponential converges to the requested accuracy",
 "The matrix exponential approximates the true exponential within the requested accuracy for every finite input and terminates.",
 ["inputs"],"all finite square matrices and accuracies","Tests check a single matrix.",[L],[("expm",L)])
prop("N02","Orthogonality, residual and convergence of QR and eigen iterations",
 "The orthogonal factor is orthogonal up to rounding and the eigenvalue iteration converges to eigenpairs with small residual.",
 ["inputs"],"all finite matrices","Not tested.",[L,E],[("qr, eigen iterations",E)])
prop("N03","Floating-point round trip through text keeps values to printed precision",
 "Reading back a written matrix yields values equal to the originals within the stream's printed precision.",
 ["inputs"],"all finite values and stream precisions","One file is tested.",[IO],[("stream formatting",IO)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), max(len(p["title"]) for p in P))
