import json, os
P=[]
def p(id,title,st,over,q,why,files,mech,state,obs,hook=False):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=["TooN/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name="abstract state",meaning=state,where=", ".join("TooN/"+f for f in files[:3]))],observe_at=[obs],hook_needed=None)))
I="inputs";H="histories"
p("C01","Views alias exactly the elements they address",
 "Every view (row, column, T(), static or run-time slice(), diagonal_slice(), as_row/as_col, operator[], wrapVector/wrapMatrix, .ref(), and any chain of them) denotes exactly the elements of the underlying vector, matrix or raw buffer that its definition names, in the defined order and with the defined dimensions. A read through any view returns the value last written to that element through any other view or the owner, and a write or in-place operation through a view (=, +=, -=, *=, /=, swap of views) changes those elements and no others. This holds for row-major and column-major storage, static, dynamic and mixed sizes.",
 [I,H],"all chains of view operations on all storage layouts, all element positions, all interleavings of reads and writes through overlapping views",
 "the tests sample a few slices of a 4x4 matrix; stride and layout errors appear only for particular chains, layouts, offsets and histories of writes",
 ["internal/vbase.hh","internal/mbase.hh","internal/matrix.hh","internal/vector.hh","internal/reference.hh","helpers.h"],
 [("vector slice layouts","internal/vbase.hh GenericVBase::slice, as_row, as_col, as_diagonal"),("matrix slice/transposed/diagonal views","internal/mbase.hh GenericMBase"),("references to raw memory","internal/reference.hh")],
 "the element cells of the owner and the index map of each live view","values and dimensions returned by size(), num_rows(), num_cols(), operator[] and operator() after every operation on every live view")
p("C02","Owning objects own independent storage, freed exactly once",
 "Copying, converting, returning, moving or swapping an owning Vector or Matrix gives the destination the source's values, and afterwards no operation on one owning object (or on a view of it) changes any other owning object. Every element storage block that is obtained is released exactly once, when its owner dies, and element objects are constructed and destroyed in balance, whether storage is in the object or on the heap. A moved-from object can still be destroyed and assigned a copy of its own type or be the target of a move.",
 [H,I],"all histories of construction, copy, move, swap, assignment, scope exit for all size classes (small/large static, dynamic, resizable), element types and layouts",
 "double frees, leaks and sharing depend on the order of copies, moves, swaps and deaths; the tests perform one swap",
 ["internal/allocator.hh","internal/vector.hh","internal/matrix.hh"],
 [("stack/heap storage","internal/allocator.hh StackOrHeap, StaticSizedAllocator"),("dynamic storage with move and swap","internal/allocator.hh VectorAlloc<Dynamic>, VectorAlloc<Resizable>, MatrixAlloc")],
 "live owning objects with their values; live storage blocks and element instances","values of every live object after each operation; counts of live element instances and of array allocations at scope exit")
p("C03","Size mismatches are always rejected and change nothing",
 "An assignment, arithmetic operation, dot/cross/matrix product, swap of views, solver or decomposition call whose run-time vector and matrix operands have incompatible sizes is rejected through the library's error path (by default an abort with a message, an exception with TOON_TEST_INTERNALS) and no operand is modified; the same call with compatible sizes is never rejected. This holds for every combination of static, dynamic and mixed-size operands and for views.",
 [I],"all operations that take two or more sized operands, all pairs of run-time sizes, all combinations of static/dynamic operands",
 "each operation has its own check; a missing or wrong check on one operation with one mix of sizes is silent memory corruption that no sampled test visits",
 ["internal/size_mismatch.hh","internal/operators.hh","internal/vector.hh","internal/matrix.hh","internal/diagmatrix.h","helpers.h","gaussian_elimination.h","LU.h","Cholesky.h","SVD.h","determinant.h","wls.h"],
 [("mismatch test","internal/size_mismatch.hh SizeMismatch::test, SizeMismatch_::do_test"),("call sites","internal/operators.hh, internal/vector.hh operator=, internal/matrix.hh operator=")],
 "sizes and values of the operands","whether the call raised the library error; values of all operands afterwards")
p("C04","Index, slice and view bounds are accepted iff in range",
 "A slice (static or run-time start/length, on vectors, matrices and diagonals) is accepted if and only if it lies completely within the object, including empty slices at the end, and otherwise it is rejected through the library's error path. With TOON_CHECK_BOUNDS an element, row or column access is accepted if and only if its index is within range. This holds for all integer arguments including negative and extreme ones, for static and run-time sizes and for views of views.",
 [I],"all (size, start, length) and (size, index) integer combinations, all view kinds",
 "the tests check a handful of slices; boundary and extreme arguments on each view type and each static/dynamic combination are not sampled",
 ["internal/slice_error.hh","internal/vbase.hh","internal/mbase.hh","internal/debug.hh","internal/matrix.hh"],
 [("slice check","internal/slice_error.hh CheckSlice"),("index check","internal/debug.hh check_index"),("matrix slice checks","internal/mbase.hh slice")],
 "size of the object sliced or indexed","accepted/rejected outcome of each access and the view obtained when accepted")
p("C05","Only Resizable objects change size, and they keep their data",
 "A Vector<Resizable> takes exactly the size given by resize(n), by assignment or construction from any sized expression, and keeps that size under in-place arithmetic; resize(n) keeps the values of the first min(old,n) elements, and an assignment gives exactly the assigned values (also when the right-hand side depends on the destination, including self assignment). Operations with unsized operands (Zeros, Ones, scalars) never change the size, and a non-resizable vector or matrix never changes size. Mismatched in-place arithmetic on a Resizable is an error, not a resize.",
 [H,I],"all histories of resize, assign, swap, move, view and arithmetic operations on resizable vectors of all sizes including 0",
 "the test suite performs one sequence of resizes; stale sizes, lost prefixes and reads of freed storage depend on the history of sizes and on aliasing",
 ["internal/allocator.hh","internal/vector.hh","internal/operators.hh","internal/debug.hh"],
 [("resizable storage","internal/allocator.hh VectorAlloc<Resizable>::resize, try_destructive_resize"),("assignment","internal/vector.hh Vector::operator=")],
 "size and values of each resizable vector","size() and all elements after every operation")
p("C06","Arithmetic equals its mathematical definition for any storage",
 "+, -, unary -, scaling and division by scalars, dot, cross (^), matrix*vector, vector*matrix, matrix*matrix, diagmult, outer products via as_row/as_col, +=, -=, *=, /=, ==, != and scalar-first forms give exactly their mathematical result (exact for exactly representable data) for every combination of static, dynamic and mixed sizes, row-major, column-major, strided, transposed, sliced and reference operands, and for empty operands. Operands other than the destination are not modified, and the result is also correct when the destination is one of the operands of the product or sum (v = M*v, m = m*m, m += m). Adding or subtracting a scalar multiple of Identity or Ones follows the same rules.",
 [I,H],"all operations, all operand kinds and layouts, all values, all aliasing patterns of whole operands",
 "the tests compute few products on few layouts with tolerance comparison; errors tied to one layout/size mix or aliasing are not sampled",
 ["internal/operators.hh","internal/vector.hh","internal/matrix.hh","internal/mbase.hh","internal/vbase.hh","helpers.h"],
 [("binary operators","internal/operators.hh Pairwise, ApplyScalar, Dot, Cross, MatrixMultiply, MatrixVectorMultiply, VectorMatrixMultiply, MatrixVectorDiagMultiply"),("compound assignment","internal/vector.hh, internal/matrix.hh operator+= etc.")],
 "values of registers (vectors and matrices)","all operand and result elements after every operation")
p("C07","Zeros, Ones and Identity operators give what they name",
 "Zeros, Ones and Identity, unsized or given sizes, used to construct, assign, add to or subtract from any vector, matrix or view, scaled by scalars (and such scaled forms divided by scalars), give exactly the zero, all-one or identity (diagonal) contribution of the right dimensions. Sized forms have the requested dimensions and resize a Resizable, unsized forms adopt the destination's dimensions; Identity on a non-square destination is rejected. Elements outside a viewed destination are unchanged.",
 [I],"all destinations (owners, views, static/dynamic, layouts), all operator objects, all scalar factors",
 "there is a Zeros test only; every combination of operator object, destination and compound assignment has its own code",
 ["internal/objects.h","internal/operators.hh","internal/vector.hh","internal/matrix.hh"],
 [("operator objects","internal/objects.h Operator<Zero>, RCZero, Ones, Identity, SizedIdentity, AddIdentity")],
 "values and dimensions of the destination","all elements of the destination and its owner")
p("C08","Fill, Data, makeVector and lists place every value, no more",
 "Fill(x)=a,b,c..., x=Data(...), makeVector(...) and initializer lists put exactly the supplied values in row-major (matrix) or index (vector) order into every element of the destination, whatever its size, layout, staticness or view, and makeVector's length is its argument count. Supplying more values than elements is rejected before any write outside the object, and supplying fewer is rejected when the fill ends; supplying the exact count is never rejected.",
 [I],"all destination kinds and sizes from 1 upwards, all supplied counts",
 "the tests fill a 2-vector and 2x2 matrices of fixed type; other sizes, layouts and views take other code paths",
 ["internal/comma.hh","internal/data.hh","internal/data_functions.hh","internal/make_vector.hh","internal/overfill_error.hh","internal/vector.hh","internal/matrix.hh"],
 [("comma filling","internal/comma.hh VectorFiller, MatrixFiller, VectorStartFill, MatrixStartFill"),("Data","internal/data.hh Operator<Data>"),("overfill checks","internal/overfill_error.hh")],
 "destination elements and the fill cursor","destination elements and accepted/rejected outcome after each supplied value")
p("C09","A DiagonalMatrix behaves as the dense diagonal matrix",
 "Every operation on DiagonalMatrix (construction, product with vectors from either side, with dense matrices from either side, with diagonal matrices, diagonal_slice, conversion through multiplication, as_diagonal of a vector, indexing) gives the same result as the same operation on the dense matrix with those diagonal entries and zeros elsewhere, and as_diagonal aliases the vector it came from.",
 [I],"all sizes, static and dynamic, all dense operand layouts and all values",
 "the test multiplies one 3-element diagonal with fixed matrices",
 ["internal/diagmatrix.h","internal/operators.hh","internal/vbase.hh"],
 [("diagonal matrix","internal/diagmatrix.h DiagonalMatrix and its operators"),("diagmult","internal/operators.hh diagmult")],
 "diagonal entries","result elements and operand elements")
p("C10","Every solver solves: A x = b to working precision",
 "For a non-singular, well-conditioned A, gaussian_elimination, gauss_jordan, LU::backsub/get_inverse, Cholesky and Lapack_Cholesky (symmetric positive definite A), SVD/GR_SVD/SymEigen backsub/get_pinv return the solution of A x = b (vector or matrix right-hand side, any number of columns), correct to working precision, including when row exchanges are required. They leave A and b unmodified (gauss_jordan reduces [A|b] to [I|x] in place), and work for static and dynamic operands, views (for gauss_jordan, the constructors and the right-hand sides; gaussian_elimination takes its operands by owning type) and each supported precision.",
 [I],"all well-conditioned systems of all sizes, pivoting patterns, right-hand side widths, static/dynamic/view operand kinds",
 "the tests check random dense systems of a few shapes for which most pivot orders and size mixes are not exercised",
 ["gaussian_elimination.h","gauss_jordan.h","LU.h","Cholesky.h","Lapack_Cholesky.h","SVD.h","GR_SVD.h","SymEigen.h"],
 [("elimination with pivoting","gaussian_elimination.h, gauss_jordan.h"),("LAPACK back substitution","LU.h backsub, get_inverse"),("pseudo-inverse back substitution","SVD.h, GR_SVD.h, SymEigen.h backsub/get_pinv")],
 "the system A, b","the returned solution, inverse and the operands afterwards")
p("C11","Determinants are the determinant",
 "determinant(), determinant_gaussian_elimination(), LU::determinant(), Cholesky::determinant(), Lapack_Cholesky::determinant(), SymEigen::get_determinant() agree with the determinant of the matrix (exact integers recovered for integer matrices within rounding), including its sign under row exchanges, zero for singular matrices with a zero column or row, 1x1 and 2x2 cases and views; SVD::determinant() has the determinant's magnitude. The argument is not modified.",
 [I],"all square matrices, pivot orders, sizes, layouts and precisions",
 "sign and pivot errors show only for particular permutations; the tests use random dense matrices of a few sizes",
 ["determinant.h","LU.h","Cholesky.h","Lapack_Cholesky.h","SVD.h","SymEigen.h"],
 [("elimination determinant","determinant.h determinant_gaussian_elimination"),("LU sign","LU.h get_sign, determinant"),("Cholesky determinant","Cholesky.h determinant")],
 "the matrix","returned determinant values")
p("C12","Cholesky factors, inverse and Mahalanobis forms are consistent",
 "For a symmetric positive definite A, Cholesky gives unit lower-triangular L and diagonal D with L D L^T = A, Lapack_Cholesky gives lower-triangular L with L L^T = A, and both give backsub(v) = A^-1 v, get_inverse() = A^-1, mahalanobis(v) = v^T A^-1 v and full rank(). compute() on an existing object gives the same state as a newly constructed one whatever was computed before; both read only the lower half (with the diagonal) of A, and transform-type results (backsub of matrices) match column by column.",
 [I,H],"all positive definite matrices, sizes, layouts, sequences of compute() calls",
 "state left by an earlier compute, triangles read and size-specific paths are not varied by the tests",
 ["Cholesky.h","Lapack_Cholesky.h"],
 [("LDL^T recursion","Cholesky.h do_compute"),("back substitution","Cholesky.h backsub"),("LAPACK wrapper","Lapack_Cholesky.h")],
 "factor state of the decomposition object","get_L, get_D, get_unscaled_L, backsub, get_inverse, mahalanobis, determinant, rank")
p("C13","WLS accumulates the normal equations it is given",
 "After any history of clear(), add_prior (scalar, vector, matrix), add_mJ (scalar, vector, rows), add_sparse_mJ, and += of another WLS, get_C_inv() (its upper triangle at any time, the full symmetric matrix after compute()) and get_vector() equal the sum since the last clear of the corresponding C_inv and C_inv*mu contributions, so batching, order and sparsity do not matter, and compute() yields get_mu() with C_inv mu = vector. Querying or computing does not disturb further accumulation. IRLS accumulates the same way with weights given by its reweighting function evaluated at the measurement, its true inverse covariance accumulates the measurements weighted by true_scale, and its residual is the sum of their objectives.",
 [H],"all sequences and partitions of measurements and priors, dimensions, sparse index sets, static/dynamic sizes",
 "there is no WLS test in the suite; results depend on the whole history of accumulation",
 ["wls.h","irls.h"],
 [("normal equation accumulation","wls.h add_prior, add_mJ, add_sparse_mJ, operator+="),("solve","wls.h compute"),("reweighting","irls.h RobustI, RobustII, ILinear, ICauchy; IRLS::add_mJ")],
 "C_inv, the information vector, mu","get_C_inv, get_vector, get_mu after each step")
p("C14","Transformations form groups and act consistently",
 "For SO2, SE2, SIM2, SO3, SE3, SIM3 and SL<N>: product is composition ((A*B)*v = A*(B*v)), inverse() is the two-sided inverse, the default object (and Identity) is the identity, *= and left_multiply_by agree with *, also when the operand is the object itself, and every action (on vectors from left and right, homogeneous vectors, matrices from left and right, and mixed products such as SO3*SE3 or SIM3*SE3) equals multiplication by the homogeneous matrix. Operands are unmodified.",
 [I,H],"all group elements, sequences of compositions, all action overloads and operand layouts",
 "so3 and sim3 have one sampled test; se2, se3, so2, sim2, sl have none",
 ["so2.h","se2.h","so3.h","se3.h","sim2.h","sim3.h","sl.h"],
 [("group operations","se3.h, se2.h, sim3.h, sim2.h operator*, *=, inverse, left_multiply_by"),("actions","Operator<SE3VMult> etc. in se2.h, se3.h, sim2.h, sim3.h")],
 "rotation, translation and scale of each element","get_rotation().get_matrix(), get_translation(), get_scale(), results of actions")
p("C15","exp, ln, generators and adjoints agree for every group",
 "For SO2, SE2, SIM2, SO3, SE3, SIM3: exp(v) is the matrix exponential of the sum of v_i*generator(i), ln(exp(v)) = v for rotations below pi, exp(ln(T)) = T, generator_field(i,p) = generator(i)*p, exp(T.adjoint(v)) = T exp(v) T^-1 and trinvadjoint(u).adjoint(v) = u.v, including at and near zero rotation, zero log-scale and rotation by pi. Rotations constructed from matrices, axis-to-axis or exp are orthonormal with determinant 1, and coerce() makes them so.",
 [I],"all algebra vectors (including those at and around the switch-over between series and closed form) and group elements",
 "formula branches for small angles, angles near pi and small scales are each reached only by special inputs",
 ["so2.h","se2.h","so3.h","se3.h","sim2.h","sim3.h"],
 [("Rodrigues and logarithm branches","so3.h exp, ln, rodrigues_so3_exp"),("similarity coefficients","sim3.h compute_rodrigues_coefficients_sim3"),("adjoints","se3.h, se2.h, sim2.h, sim3.h adjoint, trinvadjoint")],
 "algebra vector and group element","exp, ln, generator, generator_field, adjoint, trinvadjoint results")
p("C16","DownhillSimplex steps are Nelder-Mead steps",
 "A DownhillSimplex always holds N+1 points with values[i] = f(simplex[i]), and each iterate() makes one of the documented moves (reflection, expansion, contraction of the worst point, or shrink towards the best point) so that the best value never increases. get_best/get_worst report the extreme vertices, finished() is true exactly when the documented tolerance criterion holds, restart() rebuilds a simplex of the given spread around the best point, and iterate() returns whether to continue.",
 [H,I],"all objective functions (including plateaus, infinities and ties), dimensions, spreads and histories of iterate/restart",
 "the test minimises two functions and compares one end point; individual steps and ties are not observed",
 ["optimization/downhill_simplex.h"],
 [("state machine","optimization/downhill_simplex.h iterate, restart, find_best, finished")],
 "simplex vertices and values","get_simplex, get_values, get_best, get_worst, finished and the sequence of function evaluations")
p("C17","Line searches keep a shrinking bracket around the best point",
 "golden_section_search and brent_line_search, given a bracket a<b<c with f(b) below f(a) and f(c), evaluate f only inside the bracket, keep a bracket whose interior point is the lowest value evaluated so far, stop as soon as the bracket is within the tolerance (which for unimodal f puts the result within tolerance of the minimum) or after maxiterations, and return a point together with the function value at that point, which is the lowest value evaluated (never above f(b)).",
 [I,H],"all bracketed functions, tolerances, iteration limits and precisions",
 "neither search has a test; the invariant is about every intermediate bracket",
 ["optimization/golden_section.h","optimization/brent.h"],
 [("golden section","optimization/golden_section.h golden_section_search"),("Brent","optimization/brent.h brent_line_search")],
 "bracket a,b,c and values","sequence of evaluation points and the returned (x, f(x))")
p("C18","ConjugateGradient never goes uphill and keeps f, x and g in step",
 "After construction and after every iterate(), ConjugateGradient's y equals f(x) and y never exceeds the previous y, each line search starts from a bracket containing a lower point, the next search direction is the Polak-Ribiere combination of the new gradient and the previous direction, and iterate() stops when finished() or the iteration limit is reached. bracket_minimum_forward returns a bracket whose middle value is lowest of all it evaluated, or zeros if no descent exists; where the function stops being a number while it still descends, the last valid points are returned and the search moves to the lowest of them.",
 [H,I],"all objective functions that are numbers on an interval along the searched ray, dimensions, starting points and histories of iterations",
 "the optimiser has no test in the suite",
 ["optimization/conjugate_gradient.h"],
 [("bracketing","optimization/conjugate_gradient.h Internal::bracket_minimum_forward"),("direction update","optimization/conjugate_gradient.h update_vectors_PR"),("iteration","optimization/conjugate_gradient.h iterate, init, finished")],
 "x, g, h, y, old_y, iterations","public members after each iterate and the sequence of function evaluations")
p("C19","Norms, reductions and element-wise helpers equal their definition",
 "norm_sq, norm, norm_1, norm_2, norm_inf, norm_fro, matrix norm_1/norm_inf, unit, normalize, max/min value, max_element/min_element (first extreme position), sum-type reductions, Trace, Symmetrize, project, unproject, cross_product_matrix, isfinite/isnan, element-wise helpers and named element access give exactly their documented definition for every vector or matrix, whatever the layout, view, size (1 upwards), sign pattern or ties, and leave their argument unmodified unless documented to modify it.",
 [I],"all vectors and matrices, layouts, sizes, ties, special values",
 "none of these helpers has a direct test",
 ["helpers.h","named_elements.h","internal/vbase.hh"],
 [("norms and normalisation","helpers.h norm*, unit, normalize"),("reductions","helpers.h Internal::accumulate, max_value, min_element ..."),("named elements","named_elements.h")],
 "the argument elements","returned values and the argument afterwards")
p("C20","Stream output reads back to the same object",
 "Writing a Vector, Matrix, view or transformation to a stream with sufficient precision and reading it back gives an equal object; elements are written in row-major/index order, rows end with a newline, field width and precision of the stream apply to every element, and reading a vector or matrix consumes exactly its number of elements, leaving the following text in the stream. A failed read leaves the stream in a failed state.",
 [I,H],"all objects, sizes, layouts, stream format settings and sequences of writes and reads on one stream",
 "tests print objects but never read them back",
 ["internal/operators.hh","helpers.h","so2.h","se2.h","so3.h","se3.h","sim2.h","sim3.h","sl.h","internal/diagmatrix.h"],
 [("vector/matrix streaming","internal/operators.hh operator<<, operator>>"),("transformations","operator<<, operator>> in so3.h, se3.h, ...")],
 "stream position and contents; object elements","bytes written, elements read, stream state")
p("C21","SVDs factor the matrix; pseudo-inverses and ranks follow",
 "SVD (tall, square and wide, static and dynamic) and GR_SVD give orthonormal U and V columns (for a matrix with more columns than rows GR_SVD gives N singular values and only V is orthonormal) and non-negative singular values (descending for SVD, and for GR_SVD after reorder()) with U D V^T equal to the matrix to working precision, for every matrix including rank-deficient and repeated-singular-value ones. get_pinv and backsub are the Moore-Penrose pseudo-inverse with singular values below the condition threshold treated as zero, rank() is the number of singular values above that threshold, get_largest/smallest_singular_value(_index) report them, and compute() on a used object equals a fresh decomposition.",
 [I,H],"all matrix shapes, ranks, condition thresholds, static/dynamic sizes",
 "the one gr_svd test uses random full-rank matrices of fixed shapes and SVD has none",
 ["SVD.h","GR_SVD.h"],
 [("LAPACK SVD with swapped roles","SVD.h do_compute, get_U, get_VT"),("Golub-Reinsch iteration","GR_SVD.h Bidiagonalize, Accumulate_*, Diagonalize, reorder"),("conditioning","get_inv_diag, rank")],
 "factors U, D, V","get_U, get_VT/get_V, get_diagonal, rank, get_pinv, backsub")
p("C22","SymEigen gives ordered eigenpairs of every symmetric matrix",
 "For every symmetric matrix, of size 2, 3 (closed forms) or any other static or dynamic size, get_evalues() are in ascending order, the rows of get_evectors() are orthonormal, and A = V^T diag(values) V to working precision, including diagonal, scaled, zero and repeated-eigenvalue matrices. get_sqrtm and get_isqrtm (positive definite matrices), get_pinv, get_inv_diag, get_determinant, and is_posdef and is_negdef (non-singular matrices) are the corresponding functions of those eigenvalues, and recomputation on the same object equals a fresh decomposition.",
 [I,H],"all symmetric matrices, scales, multiplicities and sizes",
 "the closed-form code has many branches for degenerate spectra that random matrices do not reach",
 ["SymEigen.h"],
 [("closed forms","SymEigen.h ComputeSymEigen<2>, ComputeSymEigen<3>"),("LAPACK path","SymEigen.h ComputeSymEigen"),("matrix functions","SymEigen.h get_sqrtm, get_isqrtm, get_inv_diag")],
 "eigenvalues and eigenvectors","get_evalues, get_evectors and derived matrices")
p("C23","QR and LU factors reconstruct the matrix",
 "QR and QR_Lapack (columns >= rows) give an orthogonal Q and an upper-trapezoidal R with Q R equal to the matrix, or to the matrix with its columns permuted by get_P() when pivoting was requested (column i of Q R is column get_P()[i] of the matrix); LU::get_lu() holds lower L (with its diagonal) and unit-upper U whose product is the matrix with its columns permuted (LAPACK factors the transpose), and compute() on a used LU equals a fresh one. This holds for every matrix, including triangular, diagonal, zero-column and sign-varied ones, static and dynamic sizes.",
 [I,H],"all matrices with columns >= rows (QR) or square (LU), pivoting on/off, static/dynamic sizes",
 "the tests use random dense matrices, which never have a column that is already reduced",
 ["QR.h","QR_Lapack.h","LU.h"],
 [("Householder reduction","QR.h compute, pre_multiply_by_householder"),("LAPACK QR with pivoting","QR_Lapack.h compute"),("LU","LU.h compute, get_lu")],
 "factors","get_Q, get_R, get_P, get_lu")
p("C24","SL(N) and matrix exp, log, sqrt are mutually consistent",
 "TooN::exp, log and sqrt of square matrices satisfy their defining relations (exp(0)=I, exp(A)exp(-A)=I, exp(log M)=M, log(exp A)=A for small A, sqrt(M)^2=M). SL<N> has N*N-1 trace-free generators, exp(v) is the matrix exponential of the generator combination with determinant 1, ln(exp(v)) = v for small v and every N, construction from a matrix scales it to determinant 1, and products and inverses stay in the group.",
 [I],"all N, algebra vectors and matrices in the convergence region",
 "SL has no test and the matrix functions are only used indirectly",
 ["sl.h","helpers.h"],
 [("generators and ln","sl.h generator, ln, exp"),("matrix functions","helpers.h exp, log, sqrt, Internal::exp_taylor")],
 "matrices","returned matrices and vectors")
p("C25","Element type changes neither meaning nor operands",
 "Vectors and matrices of int, float, double, long double, std::complex and user-defined element types obey the same definitions: mixed-type arithmetic has the element type and value C++ gives to the same scalar expression, conversions between element types on copy and assignment convert each element once, real/complex products and the fast planar-complex views address the right parts, and generic algorithms (elimination, LDL^T, determinant) give exact results on an exact rational element type.",
 [I],"all pairs of element types, operations and values",
 "only double and one complex test are sampled",
 ["internal/operators.hh","internal/planar_complex.hh","internal/vector.hh","internal/matrix.hh","TooN.h","gaussian_elimination.h","determinant.h","Cholesky.h"],
 [("result types","internal/operators.hh AddType, MultiplyType ..."),("planar complex","internal/planar_complex.hh"),("traits","TooN.h IsField, NumericTraits")],
 "elements","result values and types")
p("C26","Numerical derivatives match analytic ones and do not disturb x",
 "numerical_gradient, numerical_gradient_with_errors, numerical_hessian and numerical_hessian_with_errors return, for polynomial and other smooth functions, the analytic gradient or symmetric Hessian in the right element positions to the accuracy that differencing allows in the vector's own precision, with non-negative and small reported errors and the same values with and without errors; they evaluate f only at points that displace the differenced coordinates by a small step and keep all others equal to x, and leave x unmodified.",
 [I],"all smooth functions, dimensions, points, static/dynamic sizes",
 "the derivative code is only used by the sim3 test with a loose tolerance",
 ["functions/derivatives.h"],
 [("Ridders extrapolation","functions/derivatives.h extrapolate_to_zero"),("central differences","functions/derivatives.h CentralDifferenceGradient, CentralDifferenceSecond, CentralCrossDifferenceSecond")],
 "evaluation points","returned gradient/Hessian and the sequence of evaluation points")
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],len(x['statement'].split('. ')))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
