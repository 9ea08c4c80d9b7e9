I, H = "inputs", "histories"

# ---------------------------------------------------------------- containers
prop("C01", "The small-buffer array behaves as a sequence, inline or on the heap",
  "After any history of constructions, copies, moves, assignments, pushes, pops, resizes, reservations and clears, the small-buffer array holds exactly the elements an ordinary sequence would hold, in order, whether they are inline or on the heap. Every element is constructed once and destroyed once, memory is never read or written outside a live element and all storage is released. No heap allocation happens while no size or reservation has exceeded the static capacity, and growth only happens when the capacity is exceeded, a logarithmic number of times while items are appended one by one.",
  [H, I], "all operation histories over several interacting arrays, for element types with and without non-trivial lifetimes, static capacities from 1 up",
  "the tests run a few fixed histories with values only; lifetime, aliasing and reallocation errors depend on the history and stay silent without instrumentation",
  ["geomc/SmallStorage.h"], [("growth and relocation of live elements", "geomc/SmallStorage.h:_ensure_capacity"), ("copy, move and assignment between inline and heap states", "geomc/SmallStorage.h")],
  technique="lifetime monitor and reference-model oracle over random operation histories, under ASan/UBSan",
  note="Random histories of up to 64 operations over 2-3 interacting arrays against a std::vector model, with elements that record their own construction, relocation and destruction. Assumes single-threaded use and non-throwing elements.",
  rule="random histories over 2-3 arrays, seven element-type/capacity instantiations; a case is non-trivial when it grew an array past its capacity, distinct by hash of operations, arguments and sizes",
  require={"growths": 10000, "own-element-at-growth": 500, "self-move-assign": 500, "state-inline": 10000, "state-heap": 10000, "balance-histories": 3000})
prop("C02", "The circular-buffer deque behaves as a cyclic double-ended sequence",
  "After any history of constructions, copies, moves, assignments, pushes and pops at either end, reservations and clears, the deque holds exactly the elements of a reference double-ended queue, in order; any integer index, negative or beyond the end, addresses the element it is congruent to modulo the size. Every element is constructed once and destroyed once, memory is never read or written outside a live element, all storage is released, and storage is only reallocated when the capacity is exceeded, a logarithmic number of times while items are added one by one.",
  [H, I], "all operation histories over several interacting deques, for element types with and without non-trivial lifetimes, static capacities from 0 up",
  "the tests run a few fixed histories; wrap-around position, capacity and aliasing interact only along particular histories",
  ["geomc/Deque.h"], [("head/size arithmetic modulo capacity", "geomc/Deque.h:item"), ("relocation into a larger ring", "geomc/Deque.h:reserve"), ("copy, move and assignment between inline and heap states", "geomc/Deque.h")],
  technique="lifetime monitor and reference-model oracle over random operation histories, under ASan/UBSan",
  note="Random histories of up to 84 operations over 2-3 interacting deques against std::deque, with elements that record their own construction, relocation and destruction. Assumes single-threaded use and non-throwing elements.",
  rule="random histories over 2-3 deques, seven element-type/capacity instantiations; non-trivial when a deque grew past its capacity, distinct by hash of operations, arguments and sizes",
  require={"growths": 10000, "own-element-at-growth": 300, "self-move-assign": 500, "state-wrapped": 10000, "balance-histories": 3000})

prop("C03", "Array storage classes honour their size and ownership policy",
  "Static and dynamic array storage holds exactly the values it was constructed from or last written with: unique storage is duplicated by copying and assigning, shared storage and wrapped storage alias the same elements, and moving transfers the array. Reported sizes match, every owned array is released exactly once when its last owner goes (never for wrapped storage), and nothing outside a live array is accessed.",
  [H, I], "all histories of constructing, copying, moving, assigning and writing several interacting storage objects, for every ownership policy, static and dynamic",
  "no test exercises the storage classes directly; double frees and unintended sharing need particular histories and instrumentation to show",
  ["geomc/Storage.h"], [("duplicate-on-copy and transfer-on-move", "geomc/Storage.h:UniqueStorage"), ("reference-counted arrays", "geomc/Storage.h:Storage<T,DYNAMIC_DIM>"), ("caller-owned arrays", "geomc/Storage.h:WrappedStorage")],
  technique="aliasing, lifetime and heap-balance monitors with a handle model over random histories, under ASan/UBSan",
  note="Random histories of up to 43 operations over three interacting storage objects per policy; the model is a graph of handles to arrays, compared for contents, size and pairwise aliasing after each operation.",
  rule="random histories over three storage objects per policy and element type; every history is non-trivial, distinct by hash of its operations and operands",
  require={"aliased-states": 5000, "self-assign": 500, "self-move-assign": 300, "balance-histories": 4000, "static-cases": 1500})

prop("C04", "A tree keeps its structure, items and iterators consistent through edits",
  "Whatever sequence of insertions, erasures, clears, flattenings, splits, adoptions, copies and moves made a Tree, it holds exactly the nodes and items those operations imply: each node knows its parent, its children in order and the number of items below it, the items below any node are one contiguous range in depth-first order, the whole tree and every subtree iterate in sibling-contiguous order, and iterators to nodes that were not erased still refer to them. Operations whose documented preconditions do not hold leave the tree unchanged and say so. Queries and parent searches visit exactly the nodes that pass; equality is equality of structure and values; elements are destroyed exactly once.",
  [H, I], "all histories of tree edits over two interacting trees, on any node, with any placement, including adopting a tree into itself",
  "the tree's own test does not compile any more and is not run; links between nodes, counts and item boundaries go wrong only after particular sequences of edits at particular places",
  ["geomc/Tree.h"], [("boundaries of ancestors", "geomc/Tree.h:update_boundary_items"), ("order of insertion", "geomc/Tree.h:node_successor"), ("copies and adoption", "geomc/Tree.h:recalculate_references"), ("searches", "geomc/Tree.h:QueryIterator")],
  technique="reference tree model run in lockstep with generated histories, with lifetime and heap monitors, under ASan/UBSan",
  note="Trees of up to about 60 nodes, histories of up to 60 operations. end() iterators are positional, as documented; the order of items within each part of a split is not specified and not judged.",
  rule="random histories over two trees; distinct by hash of operations and places",
  require={"const-verifications": 50000, "op-insert-node": 5000, "op-insert-items": 3000, "op-erase-item": 3000, "op-erase-node": 2000, "op-clear": 1000, "op-flatten": 1000, "op-split": 2000, "op-adopt": 1500, "op-copy-subtree": 1000, "op-move": 1000, "first-child-takes-items": 500, "subtrees-erased": 500, "adopted-own-ancestor": 100, "adopted-own-part": 200, "adopted-from-other-tree": 500, "split-in-two": 300, "query-visits": 20000, "parent-found": 3000, "parent-not-in-subtree": 1000, "refused-erases": 300, "refused-node-inserts": 300, "refused-adopts": 200, "inequalities": 1000, "equal-trees": 300, "different-arrangements": 500, "balance-histories": 4000})

# ---------------------------------------------------------------- matrices
prop("C13", "Matrix products are exact and independent of storage, layout and aliasing",
  "A product of matrices, or of a matrix and a vector, has in each element the sum of products defined by linear algebra, whichever storage, layout, static or runtime size or special structure (diagonal, permutation, type-erased handle) the operands have, and wherever it is written: returned, into a destination, accumulated onto one, or into a destination that shares memory, wholly or partly, with an operand. Operands and memory outside the destination are not changed, and runtime sizes that do not agree raise a dimension mismatch without writing anything.",
  [I], "all sizes, storage kinds, layouts and placements of operands and destination in shared memory, all integer element values (no rounding), square or not",
  "tests multiply a few fixed shapes into fresh destinations; overlap, nonsquare structure and mixed layouts multiply into thousands of combinations",
  ["geomc/linalg/Matrix.h", "geomc/linalg/mtxdetail/MatrixMult.h"], [("overlap detection and temporary destination", "geomc/linalg/Matrix.h:mtx_aliases_storage"), ("product kernels per operand type", "geomc/linalg/mtxdetail/MatrixMult.h:_ImplMtxMul"), ("runtime dimension checks", "geomc/linalg/Matrix.h:mul")],
  technique="dense reference-model oracle with exact arithmetic over random operands, under ASan/UBSan",
  note="Integer-valued elements of int, float and double, so every summation order is exact; sizes up to 9x9; wrappers placed at random offsets in one buffer for overlap.",
  rule="random operands per storage-kind combination; distinct by hash of operand contents, kinds and placements",
  require={"product-pairs": 10000, "partial-overlap": 3000, "exact-overlap": 2000, "in-place": 1000, "vector-products": 3000, "nonsquare-diagonals": 3000, "refused": 2000, "accepted": 200, "large-sizes": 200, "large-overlaps": 500})

prop("C14", "Elementwise matrix operations agree with linear algebra for every storage",
  "Adding, subtracting, scaling, transposing, copying, zeroing, setting to identity and comparing matrices gives, element by element, what linear algebra says, for every storage kind, layout, static or runtime size and for diagonal matrices and handles, returned or written to a destination, also when the destination is an operand (or, for transpose, shares memory with it in any way). Operands are not changed, a copy made by value is independent of its source, and runtime sizes that disagree raise a dimension mismatch without writing anything.",
  [I], "all sizes, storage kinds and layouts, all integer element values (no rounding), square or not, in place or not",
  "tests check single operations on fixed square examples",
  ["geomc/linalg/Matrix.h", "geomc/linalg/mtxdetail/MatrixArithmetic.h", "geomc/linalg/mtxdetail/MatrixCopy.h", "geomc/linalg/mtxdetail/MatrixFunctionImpl.h", "geomc/linalg/mtxtypes/SimpleMatrix.h", "geomc/linalg/mtxtypes/DiagMatrix.h"],
  [("addition and scaling kernels", "geomc/linalg/mtxdetail/MatrixArithmetic.h:_ImplMatrixAdd"), ("aliasing-aware transpose", "geomc/linalg/Matrix.h:transpose"), ("copies across layouts and vector orientations", "geomc/linalg/mtxdetail/MatrixCopy.h:mtxcopy"), ("comparison", "geomc/linalg/mtxdetail/MatrixFunctionImpl.h:mtxequal")],
  technique="dense reference-model oracle with exact arithmetic over random operands, under ASan/UBSan",
  note="Destination aliasing of sums is monitored only for the operand objects themselves; a destination that is a transposed view of a summand is outside the property.",
  rule="random operands per storage-kind combination; distinct by hash of contents and kinds",
  require={"equal-pairs": 1000, "unequal-pairs": 5000, "square": 3000, "nonsquare": 5000, "overlapping-transpose": 5000, "diag-nonsquare": 3000, "refused": 2000, "accepted": 500, "large-overlaps": 500})

prop("C15", "Matrix access, views and iterators address exactly the element they name",
  "Every way of reading an element (call, double index, row, column, whole-matrix, region and handle iterators, data pointer, transposed view) yields the same element (row, column), and every way of writing changes that element alone. Iterators run in row-major order (down columns for column iterators), obey random-access laws, and cover exactly their row, column, region or matrix. Constructors from arrays, lists, spans and other matrices fill the stated elements; wrapped and shared matrices refer to one array while unique ones duplicate it.",
  [I, H], "all sizes, layouts, storage kinds, element positions, regions and walks of an iterator",
  "tests read a few elements of one layout",
  ["geomc/linalg/mtxtypes/SimpleMatrix.h", "geomc/linalg/mtxdetail/MatrixBase.h", "geomc/linalg/mtxdetail/MatrixIterator.h", "geomc/linalg/mtxdetail/MatrixLayout.h", "geomc/linalg/mtxtypes/MatrixHandle.h"],
  [("layout indexing and transposing iterator", "geomc/linalg/mtxdetail/MatrixLayout.h:TransposeIterator"), ("subset, row and column iterators", "geomc/linalg/mtxdetail/MatrixIterator.h:MtxSubsetIterator"), ("element proxy", "geomc/linalg/mtxdetail/MatrixIterator.h:MtxAssignmentProxy"), ("constructors and transposed view", "geomc/linalg/mtxtypes/SimpleMatrix.h:as_transpose")],
  technique="reference-model oracle and iterator-law checker over random walks, under ASan/UBSan",
  note="Zero-sized matrices are outside the property. Regions include their upper corner, as integer Rects do throughout the library (the header comment on region_begin says otherwise).",
  rule="random contents, positions, regions and walks per storage kind; distinct by hash of contents and kind",
  require={"iterator-walks": 50000, "regions": 10000, "writes": 20000, "handle-writes": 2000, "constructions": 2000, "structured": 1000, "other-row-iterators": 20000})

prop("C09", "Grid iteration visits every integer point of a region once, in the stated order",
  "A grid iterator from begin to end visits exactly the integer points of its region, each once, first or last dimension fastest as selected; stepping, jumping, subtracting and comparing agree with the point's ordinal number in both directions, for regions of any dimension and sign, single points, and empty regions (which have no points).",
  [I, H], "all regions in 1 to 4 dimensions (negative, thin, empty, too vast to enumerate), signed and unsigned coordinates of 8 to 64 bits, both orders, all walks of the iterator",
  "no test covers jumps or backward steps; wraparound and off-by-one errors depend on the region",
  ["geomc/shape/GridIterator.h"], [("carry from one dimension to the next", "geomc/shape/GridIterator.h:increment"), ("jump by ordinal", "geomc/shape/GridIterator.h:advance"), ("end of a region", "geomc/shape/GridIterator.h:end")],
  technique="reference enumeration and iterator-law checker over random walks, under ASan/UBSan",
  rule="random regions, orders and walks; distinct by region and order",
  require={"regions": 10000, "empty-regions": 1000, "jumps": 50000, "vast-regions": 10000})

prop("C16", "Matrix inverse and determinant are correct, and singular matrices are reported",
  "The determinant of a square matrix equals its mathematical value and is 0 for runtime-nonsquare matrices; the inverse times the matrix is the identity up to rounding, for every size, storage and layout of source and destination, returned, written elsewhere or in place. A singular matrix is reported as such and leaves the destination unchanged; nonsquare or wrongly sized arguments raise without writing.",
  [I], "all square matrices 1x1 to 9x9 of integers (exact reference) and well-conditioned reals, runtime sizes to 48 (beyond every inline buffer), zero leading blocks, permuted triangular, singular by zero or dependent rows; all storage kinds",
  "tests invert random matrices, which are never singular, never have zero pivots, and seldom mix layouts",
  ["geomc/linalg/mtxdetail/MatrixInv.h", "geomc/linalg/mtxdetail/MatrixDet.h", "geomc/linalg/LUDecomp.h"],
  [("closed-form inverses", "geomc/linalg/mtxdetail/MatrixInv.h:inv4x4"), ("LU inverse", "geomc/linalg/mtxdetail/MatrixInv.h:invNxN"), ("layout and aliasing dispatch", "geomc/linalg/mtxdetail/MatrixInv.h:_ImplMtxInvRaw"), ("determinants", "geomc/linalg/mtxdetail/MatrixDet.h:det4x4")],
  technique="exact-integer (Bareiss) and long-double reference oracles with condition-scaled tolerance, under ASan/UBSan",
  note="For sizes from 5 up, integer matrices whose dependency only rounding could reveal are not judged for singularity; matrices with a zero row or column are.",
  rule="random matrices per size and storage pair; distinct by hash of contents",
  require={"regular": 5000, "singular": 1500, "nonzero-determinants": 5000, "zero-determinants": 1000, "nonsquare": 500, "singular-diagonals": 50, "large-regular": 1000, "large-singular": 100, "beyond-inline-buffers": 500})

prop("C17", "Permutation matrices keep their maps, sign and dense meaning consistent",
  "Through any history of setting sources or destinations, swapping rows or columns, transposing, multiplying, inverting, copying and resetting, a permutation matrix's row and column maps stay inverse to each other, its elements, determinant and sign are those of the permutation it stands for, and multiplying it with matrices, vectors and permutations, also in place, equals the dense product.",
  [I, H], "all permutations of up to 7 items, all histories of operations on up to 80, static and runtime size",
  "tests never chain operations; the cached sign and the two maps can drift apart only over a history",
  ["geomc/linalg/mtxtypes/PermutationMatrix.h", "geomc/linalg/mtxdetail/MatrixMult.h", "geomc/linalg/mtxdetail/MatrixDet.h"],
  [("paired maps and cached sign", "geomc/linalg/mtxtypes/PermutationMatrix.h:swap_rows"), ("sign by cycle walking", "geomc/linalg/mtxtypes/PermutationMatrix.h:permutation_sign"), ("products", "geomc/linalg/mtxdetail/MatrixMult.h:_ImplMtxMul")],
  technique="history monitor against a reference permutation after every operation, exhaustive over small permutations, under ASan/UBSan",
  rule="random histories (distinct by operations and final map) and all permutations of 1 to 7 items",
  require={"operations": 50000, "odd": 5000, "even": 5000, "all": 5913, "beyond-inline-buffer": 200})

prop("C18", "LU decompositions reproduce the matrix, and linear systems are solved",
  "For any rectangular matrix in either layout, the row- and column-pivoted decompositions yield a unit-lower L, an upper U and a permutation whose product is the (reordered) matrix up to rounding, with the parity of that permutation; degenerate matrices are counted as such and regular ones are not. Solving a regular system, from the factors or directly, from arrays or from a vector basis, gives the solution for every requested variable; degenerate systems are refused.",
  [I], "all matrices up to 7x7, and sampled to 45x45, square, tall and wide, zero leading pivots, exactly deficient or well conditioned, 1 to 4 right-hand sides, partial solves",
  "tests solve well-behaved square systems; the last pivot, deficient columns, nonsquare shapes and skipped rows are not sampled",
  ["geomc/linalg/LUDecomp.h"], [("column pivoting", "geomc/linalg/LUDecomp.h:decomp_lup"), ("row pivoting", "geomc/linalg/LUDecomp.h:decomp_plu"), ("substitution", "geomc/linalg/LUDecomp.h:backsolve_plu"), ("in-place row permutation", "geomc/linalg/LUDecomp.h:destructive_apply_permutation"), ("systems", "geomc/linalg/LUDecomp.h:linear_solve")],
  technique="residual and long-double reference oracle with condition-scaled tolerance, under ASan/UBSan",
  note="Column pivoting cannot factor every rank-deficient matrix ([0 0; 1 1]); there only the degeneracy report is claimed.",
  rule="random matrices and right-hand sides; distinct by contents",
  require={"square": 3000, "tall": 3000, "wide": 3000, "deficient": 2000, "regular": 1000, "solved": 5000, "skipping": 1000, "unsolvable": 500, "bases-solved": 5000, "dependent-bases": 500, "solved-beyond-inline-buffer": 200})

prop("C19", "Cholesky decomposition factors positive-definite matrices and refuses others",
  "For a symmetric positive-definite matrix of any size, layout and storage, cholesky leaves a lower-triangular matrix with positive diagonal and zeros above it whose product with its own transpose is the original up to rounding, and returns true; for symmetric matrices that are not positive definite, and for nonsquare ones, it returns false.",
  [I], "sizes 1 to 5, 12 and 30, layouts and storage kinds, definite matrices with eigenvalues bounded away from 0, and clearly indefinite ones",
  "one test factors random definite matrices of one layout",
  ["geomc/linalg/Cholesky.h"], [("factorisation", "geomc/linalg/Cholesky.h:cholesky")],
  technique="residual oracle over generated definite and indefinite matrices, under ASan/UBSan",
  rule="random matrices per size and storage; distinct by contents", require={"definite": 4000, "indefinite": 3000, "nonsquare": 1000})

prop("C20", "Orthogonalization, null spaces and subspace projections are what they claim",
  "Orthogonalizing or orthonormalizing independent vectors keeps the first (direction), makes all mutually orthogonal (and unit), and keeps each leading span; the null space of n independent vectors is N-n independent vectors orthogonal to all of them, also written over its input; the orthogonal of N-1 vectors is nonzero and orthogonal to each, or zero if they are dependent; projections onto a subspace are the nearest points of it.",
  [I], "all independent sets of 1 to N vectors in 2 to 7 dimensions (condition below 300), including zero leading blocks, and sets with a zero vector",
  "tests use random vectors, for which leading blocks are never singular and sets never dependent",
  ["geomc/linalg/Orthogonal.h"], [("elimination with pivoting", "geomc/linalg/Orthogonal.h:orthogonal"), ("null space by back substitution", "geomc/linalg/Orthogonal.h:nullspace"), ("modified Gram-Schmidt", "geomc/linalg/Orthogonal.h:orthogonalize"), ("projection", "geomc/linalg/Orthogonal.h:project_to_orthogonal_subspace")],
  technique="defining-equation oracle in long double over generated bases, under ASan/UBSan",
  note="Two-dimensional orthogonalize is monitored for orthogonality only (it replaces the second vector by a perpendicular).",
  rule="random vector sets; distinct by contents", require={"independent-sets": 10000, "null-spaces": 5000, "normals": 2000, "dependent-sets": 5000})

prop("C05", "Scalar division, remainder, interpolation and angle helpers mean what they say",
  "For every pair of integers of any width and sign (short of overflow of the result), positive_mod is the remainder in [0,b), floor_div and ceil_div round to minus and plus infinity, snap gives the next multiple, clamp bounds, and is_power_of_two holds exactly for powers of two; for reals the same holds up to rounding, mix and multidimensional linear and cubic interpolation equal their defining weighted sums, angle_to gives a turn in [-pi, pi] that arrives at the target, and degrees and radians convert.",
  [I], "all integer widths with extreme values and all sign combinations, reals over many magnitudes and turns, 1 to 4 interpolation dimensions",
  "tests use these only through containers and rasters, with small positive values",
  ["geomc/function/Utils.h"], [("remainder", "geomc/function/Utils.h:positive_mod"), ("rounded division", "geomc/function/Utils.h:floor_div"), ("interpolation", "geomc/function/Utils.h:interp_cubic"), ("angles", "geomc/function/Utils.h:angle_to")],
  technique="exact 128-bit and long-double reference oracle over generated operands, under ASan/UBSan",
  rule="random operands including extremes; distinct by operands", require={"mod": 50000, "negative-mod": 10000, "mixed-signs": 20000, "same-signs": 20000, "powers": 2000, "linear": 10000, "cubic": 10000, "dim-1": 3000, "dim-4": 3000, "many-turns": 5000})

prop("C06", "Compensated products and the quadratic solver keep their stated accuracy",
  "diff_of_products and sum_of_products of float, double and long double are within 1.5 ulp of the exact result however badly the products cancel, multiply_add is within 1 ulp, the dual, complex and integer versions agree with the exact values of their components; quadratic_solve reports roots exactly when the exact discriminant allows (leaving its output alone otherwise), gives both roots to within a few ulp, and a repeated or single root twice.",
  [I], "all operands away from overflow and underflow, dense in exactly and nearly cancelling products, exact and near double roots, vanishing coefficients",
  "the accuracy is lost only for rare nearly cancelling operands, which samples do not hit",
  ["geomc/function/functiondetail/UtilDetail.h", "geomc/function/Utils.h"], [("Kahan products", "geomc/function/functiondetail/UtilDetail.h:_ImplFMADot"), ("quadratic roots", "geomc/function/Utils.h:quadratic_solve")],
  technique="128-bit floating point oracle measuring error in ulps over adversarially cancelling inputs, under ASan/UBSan",
  rule="random and nearly cancelling operands; distinct by operands", require={"near-cancelling": 10000, "exactly-cancelling": 10000, "double-roots": 5000, "nearly-double": 5000, "not-quadratic": 5000, "no-roots": 10000, "roots": 30000, "wide-apart": 5000})

prop("C07", "Dual numbers carry exact values and first derivatives through every operation",
  "For every operator and function of dual numbers, in all scalar and compound forms, the value is that of the underlying function and the dual part is the derivative by the chain rule, up to rounding; at kinks and jumps of abs, min, max, floor and ceil the dual part follows the chosen discontinuity policy; comparisons use values only, and conversions between policies and element types keep both parts.",
  [I], "all values and derivatives of moderate magnitude, all five policies, exact ties and integers, random straight-line programs of up to 14 operations",
  "tests do not differentiate; a wrong sign or factor in one function appears only in its dual part",
  ["geomc/function/functiondetail/DualFunctions.h", "geomc/function/functiondetail/DualImpl.h"], [("chain rule per function", "geomc/function/functiondetail/DualFunctions.h:pow"), ("discontinuity policy", "geomc/function/functiondetail/DualImpl.h:discontinuity_impl")],
  technique="long-double analytic derivative oracle per operation and over random programs, under ASan/UBSan",
  note="Real powers are monitored for positive bases only.",
  rule="random operands and programs; distinct by operands or operation sequence",
  require={"sin": 50000, "tan": 40000, "exp": 50000, "pow": 50000, "pow-s": 50000, "s-pow": 50000, "max": 50000, "atan2": 50000, "kink": 15000, "no-kink": 3000, "pow-of-zero": 5000, "program-steps": 100000, "equal-primals": 20000})

prop("C08", "Equal objects hash equal, every component counts, and byte hashing is SipHash",
  "For every hashable type of the library, two objects that compare equal have equal hashes in every hash width and through std::hash, whatever their history, signs of zero, or contents of members that equality ignores; no component is ignored by the hash and order matters; hashing bytes into 128 bits is SipHash-2-4 for every length, key and alignment, and reads only the given bytes.",
  [I, H], "all hashable types (vectors, quaternions, rays, matrices, transforms, all shapes, tuples, duals), random and small-integer components, all byte lengths to 400",
  "no test hashes anything; unequal hashes of equal keys only show as lost entries of hash tables",
  ["geomc/Hash.h", "geomc/function/functiondetail/SipHash.cpp", "geomc/linalg/Vec.h", "geomc/shape/Simplex.h"], [("digests per type", "geomc/Hash.h:Digest"), ("mixing", "geomc/Hash.h:hash_combine"), ("byte hashing", "geomc/function/functiondetail/SipHash.cpp:siphash")],
  technique="equality/hash contract monitor over generated object pairs; independent SipHash reference; under ASan/UBSan",
  note="128-bit digests of arithmetic elements do not compile in the library and are not monitored.",
  rule="random objects; distinct by components", require={"objects": 90000, "zero-signs": 10000, "sets": 4000, "vectors": 4, "tail-0": 500, "tail-7": 500})

prop("C10", "Vector arithmetic, products, rotations and coordinate conversions are correct",
  "For every dimension and element type, vector operators and elementwise functions act exactly as the scalar operation on each element, named components alias the indexed ones, and constructors, casts and resizing keep each element in place; dot, cross, length, projection, reflection, interpolation and angles agree with their definitions up to rounding; 2D and 3D rotations (about axes and points), alignments and polar and spherical conversions are the isometries and inverses they claim to be.",
  [I], "vectors of dimension 2 to 7 over double, float, int and long; axis-aligned, small-integer, random and scaled; pairs equal, opposite, nearly so and general",
  "tests rotate a few vectors; a sign or index slip in one of the dozens of formulas shows only for particular components",
  ["geomc/linalg/vecdetail/VecBase.h", "geomc/linalg/vecdetail/Vec2.h", "geomc/linalg/vecdetail/Vec3.h", "geomc/linalg/vecdetail/Vec4.h", "geomc/linalg/Vec.h"], [("elementwise operations", "geomc/linalg/vecdetail/VecBase.h:VecCommon"), ("rotation", "geomc/linalg/vecdetail/Vec3.h:rotate"), ("alignment", "geomc/linalg/vecdetail/Vec3.h:align"), ("free operators", "geomc/linalg/Vec.h:operator*")],
  technique="long-double and 128-bit reference oracle over generated vectors, under ASan/UBSan",
  rule="random vectors; distinct by components", require={"arith": 50000, "pair-opposite": 5000, "pair-nearly-opposite": 5000, "plane": 40000, "space": 50000, "align-opposite": 5000, "align-nearly-opposite": 5000, "triangles": 20000, "color": 10000, "negative-elevations": 10000})

prop("C11", "Quaternion algebra, rotations, powers and interpolation match their definitions",
  "For all quaternions the product is Hamilton's, associative and norm-multiplicative, conjugation reverses products, and exp, log and real powers are mutually consistent, for real quaternions too; for unit quaternions, conjugating a vector is the rotation by its axis and angle and composes with the product, conversions to and from axis-angle and angular velocity keep the rotation, alignment takes one direction to the other by the shortest rotation, and rotation_scale and slerp are unit, exact at their ends and of constant speed along the shorter way.",
  [I], "general, real, purely imaginary, tiny-angle and half-turn quaternions, in float and double; equal, negated and nearly equal interpolation ends",
  "no test exercises logs, powers, slerp or alignment of any quaternion",
  ["geomc/linalg/Quaternion.h"], [("product", "geomc/linalg/Quaternion.h:mult"), ("rotations", "geomc/linalg/Quaternion.h:rotation_from_axis_angle"), ("alignment", "geomc/linalg/Quaternion.h:rotation_direction_align"), ("slerp", "geomc/linalg/Quaternion.h:slerp")],
  technique="long-double reference algebra and Rodrigues rotation oracle over generated quaternions, under ASan/UBSan",
  note="Powers and logarithms of the zero quaternion, and slerp between exactly opposed 4-vectors' bisector (perpendicular quaternions), are outside the claim.",
  rule="random quaternions; distinct by components", require={"algebra": 60000, "exp-real": 2000, "log-negative-real": 1000, "powers": 50000, "rotation": 60000, "no-axis": 3000, "small-axis": 3000, "align-opposite": 5000, "slerp-same": 5000, "slerp-negated": 5000, "slerp-near": 5000})

prop("C12", "Ray points, projection onto a ray's line and distance to it are correct",
  "For every ray with nonzero direction, points at a multiple or at a distance lie where stated, projecting a point gives the point of the ray's line nearest to it (idempotent, with orthogonal residual), the distance and squared distance are those to the projection and never NaN or negative, and reversal and resizing keep the components.",
  [I], "rays in 2 to 5 dimensions, float and double; points at the origin, on, near and away from the line",
  "no test measures a distance to a ray",
  ["geomc/linalg/Ray.h"], [("projection", "geomc/linalg/Ray.h:project"), ("distance", "geomc/linalg/Ray.h:dist2"), ("parameterization", "geomc/linalg/Ray.h:at_distance")],
  technique="long-double nearest-point oracle over generated rays and points, under ASan/UBSan",
  rule="random rays and points; distinct by components", require={"point-origin": 20000, "point-on": 20000, "point-near": 20000, "point-away": 20000})

prop("C21", "Affine transforms compose, invert and act consistently on points and normals",
  "For every transform built by any sequence of constructions, compositions, divisions and inversions, its matrix is the product of the parts in the stated order and its stored inverse is the inverse, up to rounding; points, vectors, rays and normals, forward and inverse, are mapped by the corresponding matrix, normals staying perpendicular to mapped tangents; rotations (axis, centre, quaternion, axis-aligned, aligning) are the isometries stated; growing, shrinking and casting keep the action.",
  [I, H], "sequences of up to 5 translations, scales, rotations of all kinds, alignments and matrices, composed by all eight operators, in 2 to 4 dimensions",
  "tests transform shapes by one or two rotations; the stored inverse, order of composition and normals of sheared transforms are unobserved",
  ["geomc/linalg/AffineTransform.h"], [("composition", "geomc/linalg/AffineTransform.h:apply"), ("stored inverse", "geomc/linalg/AffineTransform.h:apply_inverse"), ("construction", "geomc/linalg/AffineTransform.h:rotation"), ("alignment", "geomc/linalg/AffineTransform.h:rotmat_direction_align")],
  technique="shadow long-double transform and inverse maintained through random histories, compared elementwise, under ASan/UBSan",
  note="Shrinking is monitored for transforms that leave the dropped coordinate alone.",
  rule="random construction histories; distinct by resulting matrices", require={"transforms": 50000, "rotation-center": 1000, "rotmat": 1000, "rotation-quaternion": 1000, "align-opposite": 500, "align-nearly-opposite": 500, "matrix": 10000, "scale": 5000, "form-/=": 3000, "form-x/e": 3000, "form-*=self": 3000, "form-inverse-in-place": 3000})

prop("C22", "Rect is exact interval algebra: overlap, union, exclusion, size and placement",
  "For every Rect over integers or reals in any dimension, containment, overlap, intersection, exclusion, union and Minkowski sum of Rects agree with the sets of points the Rects contain (boundaries inclusive, any inverted axis meaning empty); translating, scaling, slicing, extruding and casting map those sets; dimensions, volume, center and the constructions from center, corner, size or points agree with each other; clipping gives the nearest contained point, and contact vectors and fitting give the smallest displacement and scale they promise.",
  [I], "Rects in 1 to 3 dimensions with lattice corners, empty, degenerate, touching, nested, equal and split; int, short, long, float and double, and unsigned coordinates of 32 and 64 bits",
  "overlap, emptiness and integer centering only go wrong for particular sign and boundary combinations, which no test enumerates",
  ["geomc/shape/Rect.h"], [("overlap and containment", "geomc/shape/Rect.h:intersects"), ("exclusion", "geomc/shape/Rect.h:operator-"), ("centering", "geomc/shape/Rect.h:from_center"), ("contact", "geomc/shape/Rect.h:contact_vector")],
  technique="point-set oracle: every result compared with enumerated lattice points, under ASan/UBSan",
  note="Real Rects have corners on a half-integer lattice, so results are exact. Dimensions of the default empty Rect overflow and are not claimed.",
  rule="random pairs of Rects; distinct by corners", require={"empty-operand": 1000, "overlapping": 2000, "disjoint": 1000, "subset": 300, "exclude-split": 300, "exclude-cut-low": 300, "exclude-covered": 300, "contact-overlap": 500, "contact-apart": 500, "fitted": 1000, "unsigned-regions": 5000})

prop("C23", "Point containment of every shape agrees with the geometric definition",
  "For every sphere, rect, cylinder, capsule, simplex, extrusion, frustum, dilation and oriented shape, and their compositions, a point is contained exactly when it lies on or inside the shape as documented: boundaries (caps, walls, dilated surfaces) belong to the shape, a frustum that spans zero height loses the part below its tip, and a transformed shape contains exactly the images of the points it contained.",
  [I], "shapes of random, lattice, offset and axis-aligned placement in 2 to 5 dimensions, float and double, nested; points inside, outside, near the surface, on axes and far away; exact boundary points of lattice shapes",
  "tests sample a few generic points of a few shapes and compare the library with itself",
  ["geomc/shape/Sphere.h", "geomc/shape/Cylinder.h", "geomc/shape/Capsule.h", "geomc/shape/Simplex.h", "geomc/shape/Extruded.h", "geomc/shape/Frustum.h", "geomc/shape/Dilated.h", "geomc/shape/Oriented.h"], [("cylinder", "geomc/shape/Cylinder.h:contains"), ("frustum", "geomc/shape/Frustum.h:clipped_height"), ("simplex", "geomc/shape/Simplex.h:contains"), ("transformed", "geomc/shape/Oriented.h:contains")],
  technique="long-double analytic signed-distance oracle over generated shapes and points, under ASan/UBSan",
  note="Points closer to the surface than rounding allows are skipped, except exactly representable boundary points.",
  rule="random shapes; distinct by parameters",
  require={"exact": 50000, "near-surface-in": 100000, "near-surface-out": 100000, "frustum-spanning": 3000, "frustum-below": 3000, "frustum-tip": 3000, "corner-clamped": 5000, "cylinder-far-cap": 50000})

prop("C24", "Bounds enclose every shape tightly and support points are the furthest ones",
  "For every bounded shape and composition of shapes, bounds() is the smallest axis-aligned box around it, up to rounding, and for every nonzero direction, whatever its length and however it is aligned with the shape's axes, convex_support() returns a point of the shape than which no other reaches further in that direction.",
  [I], "shapes of random, lattice, offset and axis-aligned placement in 2 to 5 dimensions, float and double, nested and transformed; axis, partly zero, scaled and general directions",
  "tests check support planes of a few shapes for generic directions only; degenerate alignments produce NaN or wrong faces",
  ["geomc/shape/Shape.h", "geomc/shape/Cylinder.h", "geomc/shape/Frustum.h", "geomc/shape/Oriented.h", "geomc/shape/Extruded.h"], [("cylinder", "geomc/shape/Cylinder.h:convex_support"), ("frustum", "geomc/shape/Frustum.h:convex_support"), ("transformed", "geomc/shape/Oriented.h:bounds"), ("default bounds", "geomc/shape/Shape.h:bounds")],
  technique="long-double analytic support-function oracle over generated shapes and directions, under ASan/UBSan",
  rule="random shapes; distinct by parameters",
  require={"axis-direction": 20000, "partial-direction": 20000, "frustum-spanning": 1000, "frustum-below": 1000, "frustum-tip": 1000})

prop("C25", "Signed distance, projection, clipping and normals of shapes are exact and agree",
  "For every point and every shape that measures distance (spheres, rects, cylinders, capsules, and extrusions and dilations of them), sdf() is the signed distance to the surface, negative exactly inside; project() returns a surface point at that distance; clip() leaves contained points alone and projects the others; and normal() is a unit vector that points straight away from the nearest surface point, outward, on every face, edge, rim and cap.",
  [I], "shapes of random, lattice, offset and axis-aligned placement in 2 to 4 dimensions, float and double, nested; points inside, outside, near the surface, on axes of symmetry and far away",
  "tests check that projections land near the surface for generic points; which surface point, interior distances and normals are unobserved",
  ["geomc/shape/Shape.h", "geomc/shape/Cylinder.h", "geomc/shape/Capsule.h", "geomc/shape/Extruded.h", "geomc/shape/Dilated.h", "geomc/shape/Rect.h"], [("cylinder", "geomc/shape/Cylinder.h:project"), ("dilation", "geomc/shape/Dilated.h:project"), ("extrusion", "geomc/shape/Extruded.h:sdf"), ("default normal and clip", "geomc/shape/Shape.h:Projectable")],
  technique="long-double exact signed-distance oracle over generated shapes and points, under ASan/UBSan",
  note="Points without a definite nearest direction (centers of spheres, axes of capsules, the undilated surface of a dilated shape) are not claimed.",
  rule="random shapes; distinct by parameters",
  require={"near-surface-in": 30000, "near-surface-out": 30000, "axial-in": 30000, "normals": 300000})

prop("C26", "Ray intersection returns exactly the parameters at which the ray is inside",
  "For every ray, whatever its origin, direction length and alignment, intersecting it with a sphere, rect, cylinder, simplex, extrusion, frustum or oriented shape returns the interval of parameters whose points lie in the shape: it contains every parameter of an inside point, its ends are on the surface, and it is empty when the ray's line misses the shape.",
  [I], "shapes of random, lattice, offset and axis-aligned placement in 2 to 4 dimensions, float and double, nested and transformed; rays from inside and outside, parallel to axes, faces and sides, through tips, and in planes that clear the shape",
  "tests only check that a ray through an interior point reports that point; ends of the interval, misses and degenerate alignments are unobserved",
  ["geomc/shape/Sphere.h", "geomc/shape/Cylinder.h", "geomc/shape/Simplex.h", "geomc/shape/Extruded.h", "geomc/shape/Frustum.h", "geomc/shape/Rect.h", "geomc/shape/Oriented.h"], [("frustum", "geomc/shape/Frustum.h:intersect"), ("simplex", "geomc/shape/Simplex.h:intersect"), ("cylinder", "geomc/shape/Cylinder.h:intersect"), ("slabs", "geomc/shape/Rect.h:intersect")],
  technique="constructed-hit and certified-miss oracle in long double over generated shapes and rays, under ASan/UBSan",
  rule="random shapes; distinct by parameters",
  require={"hit": 40000, "hit-axis-direction": 10000, "hit-from-inside": 20000, "miss": 40000, "frustum-spanning": 700, "frustum-below": 700})

prop("C27", "Transforming a shape transforms its points, bounds, supports and ray hits alike",
  "Wrapping any shape in an affine transform, composing further transforms or their inverses (by *, /, *= and /=) and undoing them gives the shape whose points are the images of the original's: containment, bounds, support points and ray hits are those of the image, oriented_bounds() is an oriented box around it, the volume of an oriented box is that of the image, and equality and hashes compare shape and transform.",
  [I], "shapes of every kind in 2 to 4 dimensions under random well-conditioned compositions of rotations, shears, scales, mirrors and translations",
  "tests check wrapped shapes only against themselves and never compose or undo transforms",
  ["geomc/shape/Oriented.h", "geomc/linalg/AffineTransform.h"], [("operators", "geomc/shape/Oriented.h:operator*"), ("inverse", "geomc/shape/Oriented.h:operator/"), ("bounds", "geomc/shape/Oriented.h:bounds"), ("volume", "geomc/shape/Oriented.h:volume")],
  technique="long-double image-of-the-shape oracle over generated shapes and transform compositions, under ASan/UBSan",
  note="The sign of the volume under a mirroring transform is not claimed.",
  rule="random shape and transforms; distinct by parameters",
  require={"wrap": 50000, "compose": 5000, "compose-in-place": 5000, "unwrap": 5000, "uncompose": 5000, "uncompose-in-place": 5000, "round-trip": 5000, "oriented-bounds": 50000, "rays": 200000, "volume-mirrored": 3000})

prop("C28", "Planes measure distance, project, transform and meet shapes as half-spaces do",
  "A plane built from a normal, a point, basis directions or a simplex lies where it was asked to; distance and sdf are the signed distances along the normal, containment is the closed half-space behind it, projection lands on it perpendicularly; transforming, untransforming and dilating a plane gives the plane through the images of its points facing the image of its front; and it intersects exactly the spheres, convex shapes and point hulls that have points on both sides, and contains exactly the shapes wholly behind it.",
  [I], "planes with random, axis-aligned and scaled normals through random points in 2 to 5 dimensions, random transforms, shapes of every kind on either side of, across and nearly touching the plane",
  "tests use planes only as helpers through one constructor and contains()",
  ["geomc/shape/Plane.h", "geomc/shape/Dilated.h"], [("transform", "geomc/shape/Plane.h:apply"), ("shapes", "geomc/shape/Plane.h:intersects"), ("construction", "geomc/shape/Plane.h:from_simplex")],
  technique="long-double half-space oracle and analytic support functions over generated planes, transforms and shapes, under ASan/UBSan",
  note="The facing of planes built from bases, and shapes that touch the plane within rounding, are not claimed.",
  rule="random planes; distinct by parameters",
  require={"transform": 3000, "inverse-transform": 3000, "transform-offset": 5000, "dilate": 10000, "from-simplex": 10000, "plane-through": 40000, "plane-above": 20000, "plane-below": 20000, "hull-through": 20000, "hull-clear": 20000, "hull-touch": 10000, "hull-single": 3000})

prop("C29", "Simplices find nearest faces, measure themselves and edit vertices correctly",
  "For a simplex of any number of vertices, sdf() is the signed distance to it, project() and clip() return the nearest point of its surface or body and the face that point lies on, normals point from there to the outside point, is_facing() tells whether the point projects within it and with which coordinates, volume() is the signed volume, measure() the positive measure in its own subspace, a ray meets a simplex of one dimension less than space in exactly the point where it crosses and none of lower dimension; a simplex with coincident vertices contains nothing; and inserting, excluding, replacing, comparing and transforming vertices leaves exactly the expected vertices.",
  [I], "well-conditioned simplices of 1 to N+1 vertices in 2 to 5 dimensions, points nearest to every kind of face, inside and outside; rays hitting and missing; random edit histories",
  "tests check projections of well-spread points for self-consistency only; subspaces, measures, parameters and hyperplanar ray hits are unobserved",
  ["geomc/shape/Simplex.h", "geomc/shape/shapedetail/SimplexProject.h"], [("nearest face", "geomc/shape/shapedetail/SimplexProject.h:_find_nearest_face"), ("projection", "geomc/shape/shapedetail/SimplexProject.h:_project_to_face"), ("measure", "geomc/shape/Simplex.h:measure"), ("ray", "geomc/shape/Simplex.h:trace_simplex"), ("facing", "geomc/shape/Simplex.h:is_facing")],
  technique="exhaustive nearest-subset oracle in long double over generated simplices and points, model-checked vertex edits, under ASan/UBSan",
  rule="random simplices; distinct by vertices",
  require={"onto-1-vertices": 20000, "onto-2-vertices": 20000, "onto-3-vertices": 10000, "onto-4-vertices": 3000, "onto-5-vertices": 1000, "inside": 20000, "outside": 50000, "facing": 20000, "not-facing": 20000, "flat-hit": 20000, "flat-miss": 20000, "thin": 5000, "measure-3-of-4": 200, "measure-4-of-5": 100, "clip-alias": 10000, "insert-full": 3000, "exclude": 5000, "degenerate": 5000})

prop("C30", "Shape overlap tests agree with geometry and with each other",
  "Two convex shapes of any kinds and placement that share a point well inside both are reported to intersect, and two that a plane separates are reported not to, by the general convex test (fresh, reused or copied intersectors, either argument order, member and free forms), by the separating-axis test of oriented boxes, and by the sphere, rect and capsule tests; after a negative answer the reported axis separates the shapes, and shapes in exact contact count as intersecting in the sphere tests.",
  [I], "pairs of shapes of every kind in 2 to 5 dimensions, placed at chosen overlap depths and gaps down to a thousandth of their size; boxes separated only across crossing edges; exactly touching lattice spheres and rects; intersectors reused over varied pairs",
  "tests compare the two box tests on random boxes with each other; other shapes, reuse, close gaps and the pairwise tests are never decided against geometry",
  ["geomc/shape/Intersect.h", "geomc/shape/shapedetail/SimplexProject.h", "geomc/shape/shapedetail/SeparatingAxis.h", "geomc/shape/Sphere.h", "geomc/shape/Capsule.h", "geomc/shape/Shape.h", "geomc/shape/Oriented.h"], [("general test", "geomc/shape/Intersect.h:Intersector"), ("boxes", "geomc/shape/shapedetail/SeparatingAxis.h:RectIntersector"), ("spheres", "geomc/shape/Sphere.h:intersects"), ("member form", "geomc/shape/Shape.h:Convex::intersects")],
  technique="certificate oracle (common interior point or separating direction, in long double) over placed pairs of shapes, under ASan/UBSan",
  note="Gaps below a thousandth of the larger shape and depths below a thousandth of the thinner are not claimed: the general test stops after a fixed number of iterations.",
  rule="random pairs of shapes; distinct by parameters",
  require={"apart": 50000, "apart-close": 20000, "overlap": 50000, "overlap-close": 30000, "axis": 80000, "boxes-overlap": 10000, "boxes-apart": 10000, "edge-edge": 10000, "spheres-overlap": 5000, "spheres-apart": 5000, "sphere-rect-overlap": 5000, "sphere-rect-apart": 5000, "capsule-sphere-overlap": 3000, "capsule-sphere-apart": 3000, "touch": 5000})

prop("C31", "Random generators follow their published recurrences and are reproducible",
  "A linear congruential, Mersenne twister or xoshiro generator yields, for every seed and however long it runs, the words of its published recurrence, and everything drawn through it (bits, integers, reals, shuffles, region samples, in any mixture) is a function of the seed and of what was drawn before: it is the same for another generator of that seed, after reseeding a used generator, and for a copy, which advances independently of the original; generators made without a seed differ.",
  [I], "seeds over the whole range including extremes; up to five twists of the twister; random programs of draws of 26 kinds, replayed on fresh, reseeded, assigned and copied generators with other generators active in between",
  "no test exercises the generators; a slip in a recurrence, in reseeding or in state shared between objects leaves numbers that look random",
  ["geomc/random/Random.h", "geomc/random/Random.cpp", "geomc/random/LCRand.h", "geomc/random/LCRand.cpp", "geomc/random/MTRand.h", "geomc/random/MTRand.cpp", "geomc/random/Xorshiro.h"], [("twister", "geomc/random/MTRand.cpp:rand32"), ("congruential", "geomc/random/LCRand.h:rand64"), ("xoshiro", "geomc/random/Xorshiro.h:rand64"), ("bit pool", "geomc/random/Random.cpp:rand<bool>")],
  technique="reference generators written from the published recurrences, stepped in lockstep; differential replay of draw programs, under ASan/UBSan",
  note="The twister is the untempered recurrence seeded from the congruential generator, as the header's implementation defines it.",
  rule="random seeds and draw programs; distinct by seed",
  require={"words": 2000000, "twist": 500, "reseed": 5000, "bits": 50000, "same-seed": 5000, "reseeded": 5000, "assigned-copy": 5000, "copy": 5000, "unseeded": 5000})

prop("C32", "Random numbers lie in their range and are uniform over it",
  "Integers drawn below a bound or between two values lie in the half-open range (an empty range gives its start, a negative bound the mirrored range, and the order of the two values does not matter), and take every value of it equally often for every type and range up to the whole width of the type; unbounded integers have every bit fair; reals lie in the closed range whatever the entropy and are uniform down to the exponent and every mantissa bit; bits are fair and independent; shuffles permute, every order being equally likely.",
  [I], "all integer types with bounds near powers of two, half the type and its maximum; spans crossing zero or covering the type; real spans over 12 decades; three generators; scripted entropy of constant, one-hot and random words",
  "uniformity is a statement about all draws; no test draws a number and compares a frequency",
  ["geomc/random/Random.h", "geomc/random/Random.cpp", "geomc/random/RandomTools.h", "geomc/random/randomdetail/RandomSpecialize.h", "geomc/function/functiondetail/RandomDual.h"], [("bounded", "geomc/random/Random.cpp:rand(hi)"), ("spans", "geomc/random/Random.cpp:rand(lo,hi)"), ("reals", "geomc/random/Random.cpp:rand<double>"), ("shuffle", "geomc/random/RandomTools.h:permute")],
  technique="range monitor on every draw; chi-square and Kolmogorov-Smirnov monitors (tail probability below 1e-13) over recorded draws; scripted entropy sources, under ASan/UBSan",
  note="Statistical: a bias below roughly one percent of the expected counts per case is not resolved. Seeds are fixed, so a verdict is reproducible.",
  rule="random types, bounds and spans; distinct by bound or span",
  require={"bound": 1500, "negative-bound": 500, "between": 800, "reversed": 300, "crosses-zero": 500, "whole": 400, "bool": 200, "unit": 400, "span": 600, "span-crossing": 100, "span-one": 300, "draws": 2000000, "float-one": 5000, "double-one": 3000, "float-tiny": 5000, "shuffles": 1000000, "dual": 5000})

prop("C33", "Region samplers stay inside their region and cover it uniformly",
  "Samples of unit vectors, balls, shells, boxes, spherical caps and cones about any axis, disks, arcs, annular sectors, and of sphere, rect and simplex shapes lie in the requested region and are uniform over it: radius, direction, height, angle, coordinates and barycentric coordinates have the distribution of the region's volume (or surface) and are independent of each other.",
  [I], "2 to 5 dimensions, float and double, radii over six decades, thin shells, axes along and near both poles, half angles up to the full sphere, angular ranges over several turns, simplices of every vertex count, shapes replaced through param",
  "no test samples a region; a wrong power of the radius or a wrong axis leaves points that lie inside the region",
  ["geomc/random/RandomTools.h", "geomc/random/SampleGeometry.h"], [("balls", "geomc/random/RandomTools.h:solidball"), ("caps", "geomc/random/RandomTools.h:cap"), ("arcs", "geomc/random/RandomTools.h:solidarc"), ("shapes", "geomc/random/SampleGeometry.h:SampleShape")],
  technique="membership monitor on every sample; Kolmogorov-Smirnov and joint chi-square monitors against the exact marginal distributions (tail probability below 1e-13), under ASan/UBSan",
  note="Statistical, with 6000 samples per case: deviations of a distribution function below about 5 percent are resolved only through the membership test.",
  rule="random regions; distinct by parameters",
  require={"unit": 150, "sphere": 150, "ball": 150, "solidball": 150, "shell": 150, "box": 800, "sample-rect": 60, "cap": 120, "cap-z": 120, "down": 60, "solidcap": 120, "oriented_disk": 120, "arc": 150, "solidarc": 150, "sample-sphere": 400, "sample-simplex": 200, "sample-lower-simplex": 80})

prop("C34", "Rasters index, extend and interpolate their samples as documented",
  "A raster of any input and output dimension holds exactly the samples it was given or that were set inside its extent; reading outside it clamps, repeats, mirrors or gives the abyss value as the chosen edge behaviour says; sampling maps its domain onto the sample points and returns the nearest sample, the multilinear or the multicubic interpolant of the (extended) samples around the point, meeting each sample exactly; copying a region yields those same values in order; and the run-time choice of edge and interpolation equals the compile-time one.",
  [I, H], "rasters of 1 to 3 input and 1 to 4 output dimensions, extents 1 to 6 including single-sample axes, default and shifted domains; random programs of sets, abyss changes, reads, copies and samples inside, at sample points and far outside on every side",
  "tests sample no raster; index, rounding and edge slips show only at negative coordinates, ties, far repeats or one-sample axes",
  ["geomc/function/Raster.h", "geomc/function/functiondetail/RasterDetail.h", "geomc/function/Utils.h"], [("index", "geomc/function/Raster.h:index"), ("edges", "geomc/function/functiondetail/RasterDetail.h:_ImplEdge"), ("interpolation", "geomc/function/functiondetail/RasterDetail.h:_ImplRasterSample"), ("regions", "geomc/function/Raster.h:copy")],
  technique="reference raster model with long-double tensor-product interpolation, run in lockstep with generated programs, under ASan/UBSan",
  note="Copies of a raster share their samples; that is not claimed either way. Nearest-sample ties are claimed only where sampling and indexing coordinates coincide.",
  rule="random rasters and programs; distinct by samples and domain",
  require={"at-sample-point": 20000, "below-origin": 80000, "single-sample-axis": 60000, "copy": 80000, "set": 60000, "set-outside": 20000, "discrete-inside": 30000, "discrete-outside": 60000, "clamp-cubic": 20000, "periodic-linear": 20000, "mirror-cubic": 20000, "constant-nearest": 15000, "mirror-nearest": 15000})

prop("C35", "Paths meet every knot smoothly and blend between knots",
  "A path passes through each of its knots at the knot's index, there has the knot's velocity and no acceleration, blends between two knots from the line through the one to the line through the other by the quintic ease, goes on along the first and last knot's lines outside its range, and is zero without knots; this holds for every parameter, however far outside or close to a knot, after any appending and editing of knots.",
  [I, H], "knot histories of 0 to 10 knots in 2 to 5 dimensions over eight decades; parameters at, next to and between knots, far outside either end and non-finite",
  "no test evaluates a path",
  ["geomc/function/Path.h"], [("evaluation", "geomc/function/Path.h:eval"), ("blend", "geomc/function/Path.h:ease")],
  technique="long-double polynomial oracle and finite-difference smoothness monitors over generated knot histories, under ASan/UBSan",
  rule="random knot histories; distinct by knots",
  require={"append": 10000, "edit": 2000, "empty": 3000, "before": 10000, "after": 10000, "between": 20000, "knot": 3000, "smooth": 10000, "hostile-parameter": 20000})

prop("C38", "Perlin noise interpolates its lattice gradients smoothly and reproducibly",
  "Noise of any dimension vanishes at every lattice point, where its gradient is a unit vector (a slope of at most one in one dimension); everywhere else its value is the quintic blend of the planes through the surrounding lattice points, and gradient() returns that value and its exact derivative; it is defined alike for negative and very large coordinates; it is a function of the generator's seed, the same for copies and repeated evaluation; and lattice gradients vary over the lattice in every direction.",
  [I], "1 to 4 dimensions, coordinates up to the precision limit of the type on both sides of zero, on lattice points, cell faces and next to them, random seeds",
  "no test evaluates noise; a slip in one corner, axis or the chain rule still looks like noise",
  ["geomc/function/PerlinNoise.h", "geomc/function/functiondetail/PerlinDetail.h"], [("value", "geomc/function/PerlinNoise.h:eval"), ("derivative", "geomc/function/PerlinNoise.h:gradient"), ("lattice", "geomc/function/PerlinNoise.h:get_grid_gradient"), ("initialisation", "geomc/function/functiondetail/PerlinDetail.h:_ImplPerlinInit")],
  technique="long-double interpolation and chain-rule oracle over lattice gradients observed through the public interface, under ASan/UBSan",
  note="Coordinates beyond the range of index_t are not claimed. That distinct lattice points have independent gradients is claimed only as variety over the lattice.",
  rule="random seeds; distinct by seed",
  require={"lattice": 5000, "between": 60000, "on-cell-face": 20000, "negative": 60000, "far": 20000, "corners": 400000, "variety": 1000, "seed-matters": 8000})

prop("C36", "Orthogonal polynomials have their defined values",
  "legendre(n,x), its integral from -1, the associated Legendre functions with Condon-Shortley phase (one at a time or a column at a time) and the Chebyshev polynomials of both kinds have, for every order and argument where they are defined, the values of their definitions, to the rounding of the recurrence.",
  [I], "orders to 32 (19 associated), arguments inside, at and next to the ends of [-1,1], near zero and outside the interval, float and double",
  "no test evaluates these functions",
  ["geomc/function/Basis.h"], [("Legendre", "geomc/function/Basis.h:legendre"), ("integral", "geomc/function/Basis.h:legendre_integral"), ("Chebyshev", "geomc/function/Basis.h:chebyshev")],
  technique="exact-coefficient expansions in quadruple precision as oracle over generated orders and arguments, under ASan/UBSan",
  rule="random orders and arguments; distinct by arguments",
  require={"outside-unit-interval": 3000, "end-point": 3000, "chebyshev-1": 10000, "chebyshev-2": 10000, "associated": 10000, "associated-0": 5000, "sectoral": 5000, "column": 8000})

prop("C37", "Spherical and zonal harmonics represent functions on the sphere",
  "A spherical or zonal harmonic function of any number of bands evaluates, in every direction including the poles, to the sum of its coefficients times the real orthonormal harmonics (Legendre polynomials for zonal ones); projecting a sample adds its delta function; sums, scaling, constants, normalisation, inner products, and conversions between zonal (along any axis) and spherical form do to the function what they say, whatever the two band counts; convolution equals the integral over the sphere of the function times the rotated kernel, diffusion its real power; and the Lambertian and spot kernels are the exact projections of those functions.",
  [I, H], "static and dynamic band counts 1 to 8, and up to 22 (zonal) and 11 (spherical), equal and different between operands; random coefficient sets and operation histories; directions at, near and away from the poles, not of unit length",
  "no test uses harmonics; wrong factors per band, and reads past the shorter of two functions, are invisible without an independent expansion",
  ["geomc/function/SphericalHarmonics.h", "geomc/function/Basis.h"], [("evaluation", "geomc/function/SphericalHarmonics.h:_eval"), ("projection", "geomc/function/SphericalHarmonics.h:_project"), ("convolution", "geomc/function/SphericalHarmonics.h:convolve"), ("zonal", "geomc/function/SphericalHarmonics.h:ZonalHarmonics")],
  technique="independent harmonic expansion and exact spherical quadrature as oracle, run in lockstep with generated operation histories, under ASan/UBSan",
  note="Adding a function of more bands in place, diffusion of negative coefficients to non-unit powers, and whether unary minus changes its operand are not claimed.",
  rule="random coefficients and histories; distinct by coefficients",
  require={"eval": 40000, "zonal-eval": 40000, "basis-function": 4000, "project": 3000, "basis": 3000, "scale": 3000, "plus-constant": 3000, "sum": 1500, "sum-of-sizes": 800, "plus-equals": 2000, "normalize": 1500, "normalize-zero": 300, "zonal-padded": 300, "zonal-cut": 300, "zonal-along-axis": 3000, "convolve": 2000, "convolve-narrow-kernel": 800, "zonal-convolve": 3000, "diffuse": 3000, "lambertian": 3000, "spot": 3000, "zonal-project": 3000, "spherical-to-zonal": 1500, "zonal-normalize": 2000, "zonal-dot": 3000})

prop("C39", "A bin lattice keeps every item and finds all items of a region",
  "A bin lattice partition holds exactly the items inserted and not erased, with their locations, in iteration and count; a query by box or radius visits every item located in the closed region exactly once and none from bins the region does not touch, each under its own bin; binOf() is the floor of the location over the cell size, on both sides of zero; items can be erased through any of its iterators, including those a query found.",
  [I, H], "insert, duplicate, erase, query, clear and copy histories in 1 to 4 dimensions, cell sizes over six decades, items and region bounds on bin boundaries, regions of zero to several bins",
  "no test uses the partition; boundary bins and repeated or skipped bins depend on where items and bounds fall",
  ["geomc/shape/BinLatticePartition.h"], [("region", "geomc/shape/BinLatticePartition.h:binRegion"), ("walk", "geomc/shape/BinLatticePartition.h:gotoNextNonemptyCell"), ("bins", "geomc/shape/BinLatticePartition.h:binOf")],
  technique="reference item map run in lockstep with generated histories, under ASan/UBSan",
  rule="random histories; distinct by items",
  require={"iterators-compared": 20000, "insert": 50000, "erase": 5000, "erase-bin-iterator": 3000, "erase-found": 3000, "clear": 500, "query-found": 30000, "query-empty": 3000, "items-inside": 20000, "items-on-edge": 5000, "query-several-bins": 10000, "contents": 20000})

prop("C41", "Objects share no hidden mutable state between threads",
  "Distinct objects of the library can be used from different threads at the same time without any synchronisation, and one object can be read through its const interface by several threads at once: no data race occurs, and every thread computes what it computes alone. This includes generators constructed without a seed on different threads, which never coincide. (The shared default generator, documented as not thread safe, is excepted.)",
  ["schedules", I], "all suites of every other property, run at random on four threads at once; const operations of shapes, matrices, transforms, paths, images, noise, harmonics and containers on one object from four threads, in different orders",
  "the tests are single-threaded; a static scratch buffer, a lazily filled cache or a shared counter is right until two threads meet",
  ["geomc/random/LCRand.h", "geomc/random/Xorshiro.h", "geomc/random/MTRand.cpp", "geomc/linalg/mtxdetail", "geomc/shape", "geomc/Storage.h"], [("seed counters", "geomc/random/Xorshiro.h:XoshiroRand"), ("shared storage", "geomc/Storage.h:GenericStorage"), ("support queries", "geomc/shape/shapedetail/GJK.h"), ("permutation sign", "geomc/linalg/mtxtypes/PermutationMatrix.h:sign")],
  technique="ThreadSanitizer over concurrent mixes of every monitored workload, and comparison of concurrent with lone results",
  note="Schedules are those the machine produces; ThreadSanitizer reports a race whenever both accesses ran without an ordering, whichever came first.",
  rule="random shared objects and calls; distinct by seed",
  require={"concurrent-cases": 2000, "threads": 100, "suites-mixed": 500, "shared-objects": 400, "concurrent-reads": 10000}, extra={"variants": ["tsan"], "borrow": "all-C44"})

prop("C42", "Results never depend on uninitialised memory",
  "No operation of the library takes a decision or computes a result from memory that was never written: default-constructed objects have the components their documentation gives them, and every operation that fills an output fills all of it before anyone reads it.",
  [I, H], "the suites of every other property, a sample of cases of each, plus default-constructed objects of every value type in memory holding other data",
  "what an uninitialised byte holds is usually zero in a test process, and the address sanitizer does not track it",
  ["geomc/shape", "geomc/linalg", "geomc/function", "geomc/random", "geomc/Storage.h", "geomc/SmallStorage.h", "geomc/Deque.h"], [("GJK simplex", "geomc/shape/shapedetail/GJK.h"), ("matrix products", "geomc/linalg/mtxdetail/MatrixMult.h"), ("storage", "geomc/Storage.h:UniqueStorage"), ("generator state", "geomc/random/MTRand.h:MTRand")],
  technique="valgrind memcheck following the definedness of every bit through every monitored workload, with oracles that branch on the results",
  note="Only memcheck's reports decide here: it emulates long double with 64 bits, so that the tolerances of the borrowed oracles do not apply.",
  rule="random cases of every suite; distinct by inputs",
  require={"fresh-objects": 80}, extra={"variants": ["mem"], "borrow": "all"})

prop("C43", "No memory errors, undefined behaviour or leaks anywhere",
  "Within the documented domain of each operation, no part of the library reads or writes memory it does not own, uses an object outside of its lifetime or at an address its type does not allow, steps or compares an iterator that is not valid for it, overflows a signed integer, converts a number to an integer type that cannot hold it, or otherwise executes undefined behaviour; and every object which owns memory releases all of it exactly once, however it has been copied, moved, assigned and used.",
  [I, H], "the suites of every other property, a sample of cases of each; histories of copying, moving, assignment and use of every type that owns memory; containers of elements with alignments up to 64 bytes",
  "the tests run without sanitizers on inputs which behave; an access out of bounds or an invalid iterator usually goes unnoticed",
  ["geomc/shape", "geomc/linalg", "geomc/function", "geomc/random", "geomc/Storage.h", "geomc/SmallStorage.h", "geomc/Deque.h", "geomc/Tree.h"], [("owned buffers", "geomc/Storage.h:UniqueStorage"), ("small buffers", "geomc/SmallStorage.h:SmallStorage"), ("ring buffer", "geomc/Deque.h:Deque"), ("tree iterators", "geomc/Tree.h:insert_item"), ("path knots", "geomc/function/Path.h")],
  technique="AddressSanitizer, UndefinedBehaviorSanitizer (with conversions and bounds) and the checked iterators of libstdc++ over every monitored workload; heap balance over histories of owning objects; address monitors in overaligned elements",
  note="Of the borrowed workloads only reports of memory errors and undefined behaviour decide here; wrong results are for the properties they belong to.",
  rule="random cases of every suite; random histories of owning objects; distinct by seed",
  require={"copies": 20000, "moves": 30000, "assignments": 30000, "uses": 40000, "aligned-looks": 200000}, extra={"variants": ["ub", "rel"], "borrow": "all"})

prop("C44", "Failing elements and allocations leave containers whole",
  "When an allocation fails, or the construction or assignment of an element throws (anything but a move), the operation passes the exception on, releases what it made, and leaves every object involved whole: a SmallStorage, Deque or Tree counts exactly the elements which are alive, and can be read, changed, assigned and destroyed, every element being destroyed exactly once; pushing, emplacing, reserving and the insertions of a Tree either happen or change nothing, and resizing keeps the elements that were there; the source of a copy never changes; and dynamic storage, matrices, paths, harmonics, images and lattices keep a size which their memory has.",
  ["fault points", H], "random histories of every mutating operation on three objects of each type, with a fault at a random allocation or element operation in more than half of the steps",
  "the tests never make anything fail: an operation which counts elements before making them, or releases memory before getting more, works until the first failure",
  ["geomc/SmallStorage.h", "geomc/Deque.h", "geomc/Tree.h", "geomc/Storage.h", "geomc/linalg/mtxtypes", "geomc/function/SphericalHarmonics.h"], [("small buffers", "geomc/SmallStorage.h:SmallStorage"), ("ring buffer", "geomc/Deque.h:push_front"), ("trees", "geomc/Tree.h:insert_items"), ("owned buffers", "geomc/Storage.h:UniqueStorage"), ("permutations", "geomc/linalg/mtxtypes/PermutationMatrix.h:PermuteMatrixBase")],
  technique="fault injection into allocations and elements during random histories; lifetime, heap-balance and model monitors; ASan and UBSan",
  note="Elements are taken not to throw when they are moved; the contents of a container after a failed assignment are not specified, only that they are whole.",
  rule="random histories with random fault points; distinct by seed",
  require={"failed-allocations": 50000, "failed-elements": 60000, "failed-assign": 5000, "failed-copy": 5000, "failed-push": 5000, "failed-push-front": 3000, "failed-push-own": 500, "failed-emplace": 1500, "failed-resize": 3000, "failed-construct-array": 4000, "failed-construct-range": 4000, "failed-insert-item": 1500, "failed-insert-items": 1500, "failed-insert-node": 1000, "failed-insert-nodes": 2000, "failed-adopt": 2000, "failed-split": 50, "failed-storage-assign": 2000, "objects-starved": 8000})

prop("C45", "The same seed and arguments give the same results in every build",
  "Given the same arguments and generators in the same state, every operation of the library makes the same decisions, draws, digests, sizes, orders and text, computes the same numbers up to rounding, and leaves generators in the same state, whichever compiler builds it and at whichever level of optimisation, however often the operation is repeated, and whatever was in memory before: no result depends on an order of evaluation which the language leaves open, on uninitialised values, on addresses or on undefined behaviour.",
  ["compilers and levels of optimisation", I], "five builds (clang -O0, -O2, -O3, g++ -O0, -O3; automatic variables filled with a pattern or zero in the unoptimised ones), each operation run twice with dirty heap and stack; random operations of all parts of the library",
  "the tests are built once by one compiler; two draws in one expression, or a variable read before it is written, give a good result in each build, but not the same one",
  ["geomc/random", "geomc/linalg", "geomc/function", "geomc/shape", "geomc/Hash.h"], [("random numbers", "geomc/random/Random.cpp"), ("random vectors", "geomc/random/RandomTools.h:Sampler"), ("digests", "geomc/Hash.h"), ("shapes", "geomc/shape"), ("rasters", "geomc/function/functiondetail/RasterDetail.h")],
  technique="differential runtime monitoring of five builds linked into one process: every named result of each operation is logged and compared, across builds and repetitions over dirty memory",
  note="Numbers are compared to a relative 1e-9 (double) or 1e-4 (float); in fact nearly all agree exactly.",
  rule="random operations; distinct by hash of the results",
  require={"numbers": 40000000, "numbers-exact": 30000000, "exact-values": 20000000, "runs-compared": 1000000}, extra={"variants": ["rel"], "borrow": []})
