#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    assert len(title)<=80,(id,len(title))
    P.append(d)
S="src/"
p("C01","Memory safety and exact ownership in the container layer",
 "Every safe operation that builds, fills, rearranges, converts or consumes a Vector or Matrix touches only memory inside the value, never produces a value with an element that was not initialised, and hands every element it was given to exactly one owner: each element is dropped exactly once, on success, on a source iterator that ends early or continues past the end, and when an owning iterator is abandoned half way. The documented unsafe entry points (uninit/assume_init, get_unchecked, as_ptr) are sound when their contract is met.",
 ["inputs","histories"],"all element values, all source iterator lengths shorter than, equal to and longer than the dimension, all numbers of elements taken from an owning iterator before it is dropped, for representative dimensions including 1 and element types with and without drop glue",
 "The tests count references for one 16-vector and one short iterator only; a double drop, a leak or a read of uninitialised memory in transpose, unzip, scan, Matrix::try_from_iter or at another length produces no failing assertion.",
 [S+"vector/base/init.rs",S+"vector/base/iter.rs",S+"matrix/base/init.rs",S+"matrix/base/iter.rs",S+"matrix/base/convert.rs",S+"matrix/transpose.rs"],
 [("MaybeUninit fill then assume_init",S+"vector/base/init.rs: uninit, assume_init, init"),("partial fill clean-up",S+"vector/base/iter.rs: try_from_iter, unzip"),("swap into uninitialised storage",S+"matrix/transpose.rs: transpose"),("pointer casts",S+"matrix/base/convert.rs: as_array_of_arrays")])
p("C02","Vector construction, conversion and access agree on one layout",
 "Component i of a Vector is the same value through every view: array, tuple, reference, slice, pointer, index, named accessor (x,y,z,w and their _ref/_mut forms), iterator and unchecked access; converting to any representation and back is the identity. Writing component i through any mutable view changes component i and nothing else. default/new/zero/fill/init give the default, zero, given or successively generated value in every component.",
 ["inputs"],"all component values, all indices, dimensions 1 to 6, 8 and 16",
 "The tests read back a few literal vectors; they never write through the mutable views of each dimension and never vary the index.",
 [S+"vector/base/init.rs",S+"vector/base/iter.rs",S+"vector/spec.rs",S+"vector/ops/base.rs"],
 [("array/tuple/reference conversions",S+"vector/base/init.rs: from_array, as_mut_array, Index; "+S+"vector/spec.rs: from_tuple, into_tuple"),("named accessors on unchecked indexing",S+"vector/spec.rs: x, y, z, w, x_ref, x_mut ...")])
p("C03","Matrix layout is row-major and consistent through every view",
 "Element (i, j) of an M by N Matrix is the j-th component of the i-th row through every view: array of arrays, array or vector of vectors, flat slice or iterator, index pair, row/row_ref/row_mut, col, pointer and unchecked access; every conversion round-trips, and indices() holds (i, j) at (i, j). Writing one element through any mutable view changes that element only. transpose() moves (i, j) to (j, i) and is its own inverse, and diagonal/one place values on the diagonal in order with zeros elsewhere.",
 ["inputs"],"all element values, all index pairs, shapes from 1x1 to 4x4 and beyond including non-square ones",
 "The tests use a handful of literal matrices, mostly square; an index swap that only shows for one non-square shape or one element survives them.",
 [S+"matrix/base/init.rs",S+"matrix/base/convert.rs",S+"matrix/base/iter.rs",S+"matrix/transpose.rs",S+"matrix/square.rs"],
 [("row-major nesting",S+"matrix/base/mod.rs: Matrix; "+S+"matrix/base/iter.rs: indices, FlatIter"),("conversions",S+"matrix/base/convert.rs"),("transposition",S+"matrix/transpose.rs: transpose"),("diagonal and identity",S+"matrix/square.rs: diagonal, One::one")])
p("C04","Checked access and checked construction accept exactly the valid inputs",
 "Indexing a Vector or Matrix (including row, col, row_ref, row_mut and cofactor) panics exactly when an index is outside the dimensions and otherwise reaches the addressed element. TryFrom a slice succeeds exactly when the slice length equals the number of elements (or rows), and construction from an iterator returns Some exactly when the iterator yields at least that many items, having consumed exactly the items it used.",
 ["inputs"],"all usize indices and index pairs, all slice lengths and iterator lengths up to past the dimension, representative dimensions",
 "Tests index with valid literals and try one wrong length; the boundary at every dimension, and huge indices, are never exercised.",
 [S+"vector/base/init.rs",S+"vector/base/iter.rs",S+"matrix/base/init.rs",S+"matrix/base/convert.rs",S+"matrix/square.rs"],
 [("Index impls",S+"vector/base/init.rs; "+S+"matrix/base/init.rs"),("TryFrom slice and try_from_iter",S+"vector/base/iter.rs; "+S+"matrix/base/convert.rs"),("cofactor bounds assertion",S+"matrix/square.rs: cofactor")])
p("C05","Vector arithmetic is componentwise in every form",
 "For any two vectors and any scalar, component i of -a, a+b, a-b, a*b, a/b, a%b, a*s, a/s, a%s and s*a is the scalar operation on component i, with operands in that order, and the assigning forms (+=, -=, *=, /=, %=, with a vector or a scalar) leave exactly what the corresponding binary form returns. zero() is the additive identity and is_zero holds exactly when every component is zero.",
 ["inputs"],"all component and scalar values of an exact scalar field (and fixed-width integers for the scalar-on-the-left forms), dimensions 1 to 6, 8 and 16",
 "Tests apply each operator to one pair of literal vectors; a wrong operand order or a component skipped at another dimension or value passes.",
 [S+"vector/ops/base.rs"],
 [("binary and scalar operators",S+"vector/ops/base.rs: Add, Sub, Mul, Div, Rem, Neg"),("assigning operators",S+"vector/ops/base.rs: AddAssign .. RemAssign"),("scalar on the left",S+"vector/ops/base.rs: reverse_mul!")])
p("C06","Matrix arithmetic is elementwise in every form",
 "For any two matrices of one shape and any scalar, element (i, j) of -a, a+b, a-b, a*b, a/b, a%b, a*s, a/s and a%s is the scalar operation on element (i, j), with operands in that order, and the assigning forms leave exactly what the corresponding binary form returns. zero() is the additive identity and is_zero holds exactly when every element is zero.",
 ["inputs"],"all element and scalar values of an exact scalar field, shapes from 1x1 to 4x4 including all non-square ones in that range",
 "Tests apply each operator to one pair of literal matrices of one shape.",
 [S+"matrix/ops/base.rs"],
 [("binary and scalar operators",S+"matrix/ops/base.rs: Add .. Rem"),("assigning operators over the flat iterators",S+"matrix/ops/base.rs: AddAssign .. RemAssign")])
p("C07","Bitwise, comparison, boolean and floor-division lifts are componentwise",
 "Component i of !a, a&b, a|b, a^b (and their assigning forms), of veq, vne, vlt, vle, vgt, vge, and of div_floor, mod_floor and both results of div_mod_floor is the scalar operation on component i, for Vector and Matrix alike. any and all are the disjunction and conjunction of all components; == on containers holds exactly when every component is equal.",
 ["inputs"],"all values of fixed-width integers (wrapping, signed and unsigned) and booleans, comparisons also for all floats including NaN and infinities and for arbitrary ordered scalars, representative dimensions and shapes",
 "Tests use one or two literal integer vectors; sign combinations of div_floor, NaN comparisons and non-square matrices are not reached.",
 [S+"vector/ops/bit.rs",S+"vector/ops/vcmp.rs",S+"vector/ops/int.rs",S+"matrix/ops/bit.rs",S+"matrix/ops/vcmp.rs",S+"matrix/ops/int.rs"],
 [("bit operators and any/all",S+"vector/ops/bit.rs; "+S+"matrix/ops/bit.rs"),("elementwise comparisons",S+"vector/ops/vcmp.rs; "+S+"matrix/ops/vcmp.rs"),("floor division",S+"vector/ops/int.rs; "+S+"matrix/ops/int.rs")])
p("C08","Float functions and their broadcasts act componentwise",
 "Every float function offered on Vector and Matrix (abs, sqrt, sin, floor, powf, atan2, mul_add, clamp, sin_cos and the rest) equals the scalar function of the same name applied to each component, with multi-argument forms taking their arguments in the documented order. A scalar argument is used for every component, a container argument component by component, and a row vector given to a matrix operation is used for every row.",
 ["inputs"],"all component values and all combinations of scalar, container and row-vector arguments; scalar functions are treated as arbitrary functions; dimensions 1 to 4 and non-square shapes",
 "There is no test for most of these functions, so swapped arguments or the wrong scalar function go unnoticed.",
 [S+"vector/math.rs",S+"matrix/math.rs",S+"traits.rs"],
 [("lifted functions",S+"vector/math.rs: impl Vector; "+S+"matrix/math.rs: impl Matrix"),("broadcasting",S+"traits.rs: Broadcast; "+S+"vector/math.rs; "+S+"matrix/math.rs")])
p("C09","Reductions and norms compute what their names say",
 "sum, min and max of a Vector or Matrix are the sum, a least and a greatest component; the L1, squared L2, L2 and L-infinity norms (of Vector, Matrix, Complex, Quaternion and the primitive scalars) are the sum of moduli, the sum of squares, its square root and the greatest modulus, and square_length/length agree with the L2 norms. Iterator Sum and Product of vectors, matrices, complex numbers and quaternions are the left-to-right sum and product, giving the identity for an empty iterator.",
 ["inputs"],"all component values, every position of the extreme component, iterators of up to 3 items, dimensions 1 to 5 and non-square shapes; primitive scalars at their own widths",
 "Tests check one ordering of literal components; a wrong comparison that only matters for ties, negative components or another position passes.",
 [S+"vector/ops/base.rs",S+"matrix/ops/base.rs",S+"vector/ops/iter.rs",S+"matrix/ops/iter.rs",S+"traits.rs",S+"vector/dot.rs",S+"complex/complex_.rs",S+"complex/quaternion.rs"],
 [("fold based reductions",S+"vector/ops/base.rs: sum, min, max, norm_*; "+S+"matrix/ops/base.rs"),("primitive norms",S+"traits.rs: derive_primitive_*"),("Sum/Product",S+"vector/ops/iter.rs; "+S+"matrix/ops/iter.rs; "+S+"complex/*.rs")])
p("C10","Iteration and higher-order operations visit every element once, in order",
 "iter, iter_mut, into_iter, for_each, map, zip, unzip, enumerate, fold, fold_first and scan of a Vector or Matrix call the closure exactly once per element in index (row-major) order with the right accumulator, and put result i at position i. GroupIter yields consecutive full groups of the source in order and stops when fewer items than a group remain; FlatIter yields exactly the concatenation of all inner iterators, also when some of them are empty.",
 ["inputs","histories"],"all element values, non-commutative non-associative closures, all source lengths up to several groups, all patterns of inner iterator lengths within the bound, vectors up to 8 and non-square matrices",
 "Tests map and zip one 16-vector with commutative closures; order, accumulator threading and empty inner iterators are not observable in them.",
 [S+"vector/base/iter.rs",S+"matrix/base/iter.rs"],
 [("vector iteration",S+"vector/base/iter.rs: map, zip, unzip, enumerate, fold, fold_first, scan, GroupIter::next"),("matrix iteration",S+"matrix/base/iter.rs: FlatIter::next, map, zip, fold, fold_first, scan")])
p("C11","Dot, cross and outer products satisfy their algebraic definitions",
 "dot is the sum of products of corresponding components, hence bilinear, and symmetric where multiplication commutes; outer(a, b) has a_i*b_j at (i, j). The left operand supplies the left factor of each product, also for elements that do not commute (quaternions). Complex numbers and quaternions have the dot product of their coordinate vectors. The cross product is bilinear, antisymmetric, orthogonal to both factors, satisfies the Lagrange and Jacobi identities and maps the basis vectors right-handedly; in 2D it is the signed area, and in 4D it is the 3D product with a zero fourth component.",
 ["inputs"],"all component values of an exact scalar field and of its quaternions, dimensions 1 to 8 for dot and square and non-square shapes for outer",
 "One literal example per product cannot establish an identity in up to nine free variables.",
 [S+"vector/dot.rs",S+"vector/spec.rs",S+"matrix/product.rs",S+"complex/complex_.rs",S+"complex/quaternion.rs"],
 [("dot",S+"vector/dot.rs: Dot"),("cross",S+"vector/spec.rs: cross for 2, 3, 4"),("outer",S+"matrix/product.rs: Outer")])
p("C12","Matrix products follow the row-by-column rule and its algebra",
 "matrix.dot(matrix), matrix.dot(vector) and vector.dot(matrix) have as element (i, j) (or i, or j) the sum over k of the left row times the right column (in that order of factors, also for elements that do not commute), for every compatible shape. Consequently the product is associative and distributive, one() is neutral on both sides, transposition reverses products, and row-vector and column-vector products are mutually transposed (the last two where multiplication commutes).",
 ["inputs"],"all element values of an exact scalar field and of its quaternions, every shape combination with L, M, N from 1 to 4",
 "Tests multiply a few literal matrices; a swapped index that cancels for square or symmetric inputs passes.",
 [S+"matrix/product.rs",S+"matrix/square.rs",S+"matrix/transpose.rs"],
 [("products",S+"matrix/product.rs: Dot impls"),("identity",S+"matrix/square.rs: One::one")])
p("C13","The determinant is the determinant",
 "det of a square matrix equals the signed sum over permutations of products of elements. Consequently it is multiplicative, invariant under transposition, alternating and linear in the rows, one for the identity and the product of the diagonal for a diagonal matrix; for integer scalars it is exact without division.",
 ["inputs"],"all element values of an exact scalar field for sizes 1 to 5 (multiplicativity for 1 to 4), and small fixed-width integer matrices",
 "Tests evaluate a few literal 2x2 to 4x4 matrices; one wrong sign or mask step at one position or size may not show.",
 [S+"matrix/square.rs"],
 [("Laplace expansion with row and column masks",S+"matrix/square.rs: Determinator::det, Determinator::cofactor, SubmatrixMask, IndexMask::find")])
p("C14","Cofactors, adjugate and inverse satisfy Cramer's rule",
 "cofactor(i, j) is the signed minor obtained by removing row i and column j, adj is the transposed cofactor matrix, and A.dot(adj(A)) = adj(A).dot(A) = det(A) times the identity. For every matrix with non-zero determinant inv() (method and Inv trait) is a two-sided inverse, so inverting twice gives the matrix back and inv(AB) = inv(B) inv(A).",
 ["inputs"],"all element values of an exact scalar field with non-zero determinant, sizes 1 to 5 (inverse identities for 1 to 4)",
 "Tests invert a few literal or random matrices within an epsilon; they cannot cover every sign/position of a cofactor nor singular boundaries.",
 [S+"matrix/square.rs"],
 [("cofactor/adj/inv",S+"matrix/square.rs: cofactor, adj, inv, Inv for Matrix")])
p("C15","Complex numbers form a field with conjugation and norm",
 "Complex addition and multiplication are those of the complex field: associative, commutative, distributive, i*i = -1, with zero, one, negation, subtraction and, for non-zero divisors, division and inv as exact inverses; assigning forms equal the binary forms. Conjugation is an automorphism, norm_sqr(z) = z*conj(z) is multiplicative, and conversions to and from arrays, tuples, vectors and num_complex preserve (re, im).",
 ["inputs"],"all real and imaginary parts in an exact scalar field, non-zero divisors",
 "Tests check single literal products; field laws quantify over three complex variables.",
 [S+"complex/complex_.rs"],
 [("arithmetic",S+"complex/complex_.rs: Add, Sub, Mul, Div, inv, MulAssign, DivAssign"),("conj/norm",S+"complex/complex_.rs: conj, norm_sqr, norm"),("conversions",S+"complex/complex_.rs: From impls, re/im accessors")])
p("C16","Quaternions form a division ring with conjugation and norm",
 "Quaternion addition and multiplication follow Hamilton's rules (i*j = k, j*k = i, k*i = j, squares -1): associative and distributive but not commutative, and for every non-zero divisor a/b*b = a and inv(b) is a two-sided inverse; assigning forms equal the binary forms. Conjugation reverses products, norm_sqr(q) = q*conj(q) is multiplicative, and conversions to and from arrays, tuples, vectors and (scalar, 3-vector) preserve (w, x, y, z).",
 ["inputs"],"all four components of up to three quaternions in an exact scalar field, non-zero divisors",
 "Tests use fixed or random quaternions with an epsilon; ring laws quantify over twelve variables.",
 [S+"complex/quaternion.rs"],
 [("Hamilton product",S+"complex/quaternion.rs: Mul, MulAssign"),("division",S+"complex/quaternion.rs: inv, Div, DivAssign"),("conversions and accessors",S+"complex/quaternion.rs: From impls, w/x/y/z")])
p("C17","Mixed scalar, complex and quaternion operations equal the embedded ones",
 "Every operator between a scalar, a complex number and a quaternion (in either order, binary or assigning, +, -, * and /, including f32 and f64 scalars on the left and complex on the left) gives the same result as embedding both operands into the larger algebra (s to s+0i, a+bi to a+bi+0j+0k) and using its own operator.",
 ["inputs"],"all operand values in an exact scalar field, non-zero divisors, for every operator, operand order and both float types' own impls",
 "Most mixed operators have no test; a sign error in one component of one operand order is invisible to the others.",
 [S+"complex/complex_.rs",S+"complex/quaternion.rs"],
 [("scalar/complex",S+"complex/complex_.rs: Add<T>, reverse_add_sub!, reverse_mul_div!"),("complex/quaternion",S+"complex/quaternion.rs: Add<Complex>, Mul<Complex>, Mul<Quaternion> for Complex, Div<Complex>, Div<Quaternion> for Complex"),("scalar/quaternion",S+"complex/quaternion.rs: reverse_add_sub!, reverse_mul_div!")])
p("C18","Matrix representations of complex numbers and quaternions are homomorphisms",
 "into_matrix maps sums to sums, products to matrix products, one to the identity and conjugates to transposes, and its determinant is norm_sqr for complex numbers and norm_sqr squared for quaternions. Applying the matrix to the coordinate vector of another number equals left multiplication.",
 ["inputs"],"all component values of two numbers in an exact scalar field",
 "The two literal examples in the tests cannot establish a homomorphism over eight variables.",
 [S+"complex/complex_.rs",S+"complex/quaternion.rs"],
 [("into_matrix",S+"complex/complex_.rs: into_matrix; "+S+"complex/quaternion.rs: into_matrix")])
p("C19","Complex elementary functions and polar form agree with their definitions",
 "Every elementary function of Complex (exp, ln, sqrt, cbrt, the powers and logarithms, trigonometric, hyperbolic and inverse functions, finv, fdiv, remainder) returns what the num_complex function of the same name returns for the same arguments; powu and powi are repeated multiplication. arg and norm are the polar coordinates: from_polar(r, t) is r times (cos t, sin t), and from_polar(to_polar(z)) = z.",
 ["inputs"],"all real and imaginary parts and parameters in an exact scalar field, the scalar functions treated as arbitrary functions; integer exponents -14 to 14 and some larger ones to 2^31 - 1 in size",
 "None of the elementary functions is tested, so a forwarding call to the wrong function or with swapped arguments is never noticed.",
 [S+"complex/complex_.rs"],
 [("delegation to num_complex",S+"complex/complex_.rs: exp .. fdiv, powu, powi, Rem"),("polar form",S+"complex/complex_.rs: arg, to_polar, from_polar, norm")])
p("C20","Transforms are group actions: identity, inverse and chain",
 "For every transformation kind (Shift, Scale, Linear, Rotation2, Rotation3, and complex Moebius maps) identity() leaves every point fixed, a.chain(b) applied to x equals a applied to (b applied to x), chain is associative with identity neutral, and for every invertible transformation inv() undoes apply from both sides and chain with it gives the identity.",
 ["inputs","histories"],"all parameters (non-zero scale, non-zero determinant, unit complex/quaternion) and points in an exact scalar field, dimensions 1 to 6 and above",
 "Tests sample random transformations in dimension 3 with an epsilon; Scale and other dimensions are untested.",
 [S+"transform/shift.rs",S+"transform/scale.rs",S+"transform/linear.rs",S+"transform/rotation.rs",S+"transform/moebius.rs"],
 [("Transform impls",S+"transform/{shift,scale,linear,rotation,moebius}.rs: identity, inv, apply, chain")])
p("C21","Chained and affine transforms compose, reorder and invert consistently",
 "Chain(outer, inner) applied to x is outer(inner(x)); chain, inv, identity and deriv of chained transforms (Affine and every other supported pairing of Shift with Linear, Scale or Rotation, in either order) describe the same map as composing or inverting the parts. reorder(A, B) returns (B', A') with A(B(x)) = B'(A'(x)) for every x.",
 ["inputs","histories"],"all invertible parameters and points in an exact scalar field, dimensions 1 to 6, each pairing and each order",
 "Only Affine3 is tested, on random samples; the Scale and Rotation pairings and the inner-Shift order have no test.",
 [S+"transform/chain.rs",S+"transform/affine.rs",S+"transform/linear.rs",S+"transform/scale.rs",S+"transform/rotation.rs"],
 [("Chain",S+"transform/chain.rs: Transform for Chain"),("Reorder impls",S+"transform/{linear,scale,rotation}.rs: Reorder"),("Affine accessors",S+"transform/affine.rs: linear, shift")])
p("C22","deriv is the directional derivative of apply",
 "For every transformation and every point where it is defined, deriv(pos, dir) is the exact derivative of apply at pos in direction dir: linear in dir, and obeying the chain rule under chaining. This includes Moebius maps on complex numbers and, with complex coefficients, on quaternions.",
 ["inputs"],"all parameters, points and directions in an exact scalar field, away from poles; dimensions 1 to 6",
 "Tests compare with finite differences at random points within a loose epsilon and not for every transformation.",
 [S+"transform/shift.rs",S+"transform/scale.rs",S+"transform/linear.rs",S+"transform/rotation.rs",S+"transform/chain.rs",S+"complex/moebius.rs",S+"transform/moebius.rs"],
 [("deriv impls",S+"transform/*.rs: deriv"),("Moebius derivative",S+"complex/moebius.rs: deriv, deriv_dir")])
p("C23","apply_dir and apply_normal transport directions and normals",
 "For unit input, apply_dir is the derivative direction scaled to unit length (for a Shift, a rotation or a positive Scale the length is kept), and apply_normal keeps a normal perpendicular to every transported tangent: if n is perpendicular to d before, apply_normal(n) is perpendicular to deriv(d) after, with unit length. For chained transforms both compose through the inner point, and Linear's normal_transform is the inverse transpose.",
 ["inputs"],"all invertible parameters, points, directions and normals in an exact scalar field; dimensions 2 and 3",
 "There is no test of Directional at all.",
 [S+"transform/shift.rs",S+"transform/scale.rs",S+"transform/linear.rs",S+"transform/rotation.rs",S+"transform/chain.rs",S+"transform/moebius.rs"],
 [("Directional impls",S+"transform/*.rs: apply_dir, apply_normal"),("normal matrix",S+"transform/linear.rs: normal_transform")])
p("C24","Rotations are proper isometries with the requested axis and angle",
 "Rotation2::new(t) maps (1,0) to (cos t, sin t); Rotation3::new(axis, t) for a unit axis fixes the axis and acts by Rodrigues' formula, right-handedly. Every rotation from a unit complex number or quaternion preserves lengths, dot and cross products; angle() and axis() describe the rotation that was built, inv negates the angle, chaining about one axis adds angles, and to_linear is the same map as apply, with orthogonal matrix of determinant one.",
 ["inputs"],"all angles (through arbitrary sine/cosine pairs), all unit axes, all unit quaternions and all points in exact arithmetic",
 "Tests sample random rotations with an epsilon; sign conventions at boundary angles and the axis/angle round trip are only sampled.",
 [S+"transform/rotation.rs"],
 [("constructors",S+"transform/rotation.rs: Rotation2::new, Rotation3::new"),("apply/to_linear",S+"transform/rotation.rs: apply, to_linear"),("angle/axis",S+"transform/rotation.rs: angle, axis")])
p("C25","look_at constructions send the view axis to the requested direction",
 "For every unit direction, Linear::look_at_any(dir) and Rotation3::look_at_any(dir) map (0,0,-1) to dir and are rotations (orthogonal, determinant one); for every unit dir and any up not parallel to it Linear::look_at(dir, up) does the same and places the image of the y axis on up's side of dir, in the plane of dir and up, with the image of the x axis perpendicular to up. This holds also for the directions along the coordinate axes and on every internal case boundary.",
 ["inputs"],"all unit directions, including the poles and case boundaries, and all non-parallel up vectors, in exact arithmetic",
 "Random sampling never hits the measure-zero boundaries where the case split changes.",
 [S+"transform/linear.rs",S+"transform/rotation.rs"],
 [("frame construction",S+"transform/linear.rs: look_at, look_at_any"),("half-angle construction with hemisphere split",S+"transform/rotation.rs: look_at_any, look_at_any_cont")])
p("C26","Moebius maps act as fractional linear maps with matrix algebra",
 "apply(x) is (a*x+b)/(c*x+d) for scalars, complex points and (complex coefficients) quaternion points; chain multiplies coefficient matrices and equals composition of maps, identity is neutral, inv is the inverse map for commutative coefficients, and det is ad-bc. The constructors, coefficient accessors, their _ref/_mut forms and the matrix, array and tuple conversions agree on (a, b, c, d).",
 ["inputs"],"all coefficients and points away from poles in an exact scalar field; scalar, complex and quaternion points",
 "Tests check one or two random compositions; accessors and conversions are untested.",
 [S+"complex/moebius.rs",S+"transform/moebius.rs"],
 [("apply/chain/inv",S+"complex/moebius.rs: apply, chain, inv, det"),("accessors and conversions",S+"complex/moebius.rs: new, a..d, into_tuple, From impls")])
p("C27","normalize gives unit length and keeps the direction",
 "For every non-zero vector, complex number or quaternion, normalize() (method and trait) returns the positive multiple of the input that has length one, and normalising twice changes nothing. A normalised Moebius map is the same map with determinant one.",
 ["inputs"],"all non-zero values in exact arithmetic, dimensions 1 to 9",
 "Tests normalise a few values within an epsilon; the Moebius normalisation is untested.",
 [S+"vector/dot.rs",S+"complex/complex_.rs",S+"complex/quaternion.rs",S+"complex/moebius.rs"],
 [("Normalize impls",S+"vector/dot.rs; "+S+"complex/complex_.rs; "+S+"complex/quaternion.rs; "+S+"complex/moebius.rs: normalize")])
p("C28","Approximate equality is componentwise with the given tolerance",
 "abs_diff_eq on Vector, Matrix, Complex, Quaternion, Moebius, Shift, Scale, Linear and the rotations holds exactly when every pair of corresponding components is within the given epsilon, and default_epsilon is the scalar's own. It is reflexive for non-negative epsilon, symmetric, and monotone in epsilon.",
 ["inputs"],"all component values and tolerances in an exact ordered field, dimensions 1 to 4 and non-square shapes",
 "The test suite relies on it as its oracle; a version that ignores a component would make other tests pass too.",
 [S+"vector/approx.rs",S+"matrix/approx.rs",S+"complex/approx.rs",S+"transform/shift.rs",S+"transform/scale.rs",S+"transform/linear.rs",S+"transform/rotation.rs"],
 [("AbsDiffEq impls",S+"vector/approx.rs; "+S+"matrix/approx.rs; "+S+"complex/approx.rs; "+S+"transform/*.rs")])
p("C29","Random distributions satisfy their contracts for every source of randomness",
 "A Vector or Matrix distribution draws each component from the inner distribution, independently and in order. NonZero never returns a value of length at or below epsilon, Unit returns unit-length values, Invertible returns matrices and maps whose determinant is not within epsilon of zero, the Uniform rotations are proper unit rotations with an angle drawn from the full turn, and Normal affine maps and shifts take their parts from the element distribution. A normal sample of f32 or f64 is a finite number.",
 ["inputs","histories"],"every possible sequence of values drawn from the scalar distributions (each draw an arbitrary value of its type/range), up to 3 rejected attempts, or a thousand rejected zeros; dimensions 1 to 6",
 "Tests draw a few hundred samples from one seed; the rejection branches practically never occur there.",
 [S+"distr.rs",S+"vector/distr.rs",S+"matrix/distr.rs",S+"complex/distr.rs",S+"transform/rotation.rs",S+"transform/linear.rs",S+"transform/affine.rs"],
 [("rejection loops",S+"vector/distr.rs: NonZero; "+S+"matrix/distr.rs: Invertible"),("unit and rotation sampling",S+"vector/distr.rs: Unit; "+S+"transform/rotation.rs: Uniform")])
p("C30","Formatting prints every component once, in order",
 "Display and Debug of Vector, Matrix, Complex and Quaternion print the type name (with its dimensions for containers) followed by every component exactly once in index order using the component's own formatting, separated by commas; a sink error is returned and stops the output.",
 ["inputs","fault_sequences"],"all component values, every position at which the sink fails, dimensions 1 to 4",
 "Only one integer quaternion is formatted in the tests, and no sink ever fails.",
 [S+"vector/base/format.rs",S+"matrix/format.rs",S+"complex/format.rs"],
 [("Display/Debug impls",S+"vector/base/format.rs; "+S+"matrix/format.rs; "+S+"complex/format.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
