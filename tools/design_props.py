D = {
'C01': 'Oracle: schoolbook window of the product. Enumerated: every pair of polynomials over F_2/F_3 with every window up to a length bound; all (dA, dB) pairs up to a bound for each prime class; the neighbourhood of every Karatsuba/FFT threshold; monomial supports (each output coefficient depends on the right inputs); all extreme coefficients p-1 for primes of every half bit size (accumulator bounds of the long / ll_type paths); aliasing and reuse of the output.',
'C02': 'Oracle: schoolbook series division (unique solution, checked by multiplication) and binomial expansion. Enumerated: all inputs over tiny fields, consecutive precisions across the quadratic/Newton crossover, shift objects reused for several polynomials, both shift algorithms (large characteristic and divide and conquer), add_LeftShift/is_monic on all shapes and aliasing.',
'C03': 'Oracle: Horner evaluation at the points the object reports, Lagrange uniqueness, explicit Vandermonde transposes. Enumerated: all point sets of tiny fields, all sizes up to a bound, **all call histories** of the geometric object up to a depth (evaluate/interpolate/transposed/with degree d/prepare_degree/set and unset FFT), matrix and vector forms.',
'C04': 'Oracle: schoolbook remainders; product by schoolbook multiplication. Enumerated: all families of moduli of tiny fields (coprimality checked by the model), degree profiles, all coefficient vectors for the small transforms, matrix forms.',
'C05': 'Oracle: brute force orders, extended Euclid, definitions. Enumerated: every element of every small prime field; every draw sequence of the random element search (draws are choices); all window arguments.',
'C06': 'Oracle: the dense matrix built from the definition of the family; products by schoolbook. Enumerated: all generators over tiny fields, all rectangular sizes up to a bound, threshold-straddling sizes, multi-column and multi-generator displacement representations, reused/aliased outputs, histories of calls.',
'C07': 'Oracle: residual check on the dense matrix plus dense rank. Enumerated: all Cauchy-like generators and Sylvester matrices of tiny fields (including all singular ones), all draws of the preconditioners on small fields, sizes around the block/divide and conquer cutoffs.',
'C08': 'Oracle: dense polynomial matrix with schoolbook products, truncations, and inverse checked by multiplication. Enumerated: as C06 with degree profiles and truncation orders.',
'C09': 'Oracle: entrywise definitions. Enumerated: every unary/binary operation on every shape/kind of a box, all 2x2 binary matrices of small degree, all aliasing patterns, all offsets/windows; the random generators with every draw.',
'C10': 'Oracle: schoolbook matrix product. Enumerated: all algorithms x shapes x length pairs x primes; all pairs of small matrices over F_2/F_3; sizes and degrees around each dispatcher boundary; all p-1 coefficients for accumulator and CRT bounds; aliasing.',
'C11': 'Oracle: schoolbook window. Enumerated: as C10, with all windows (dA, dB), short and long operands, transposed products.',
'C12': 'Oracle: schoolbook product. Enumerated: **all sequences** of right operands (shape x degree x aliasing) up to a depth on one multiplier object, for each implementation, plus the size/degree grid of the selection routine.',
'C13': 'Oracle: A X = I mod x^d by schoolbook multiplication with degree bound (unique); A = B Q + R with row degree bound (unique). Enumerated: all matrices over tiny fields with invertible constant term, all precisions across thresholds, all threshold arguments, high-order lifting components, division on all reduced divisors of a box.',
'C14': 'Oracle: uniqueness of truncated solution; minimal denominator from the reference (rank computation). Enumerated: all tiny systems, precisions across the quadratic/DAC/high-precision crossovers, singular systems for the kernel route, all draws of the random combination on small fields.',
'C15': 'Oracle: determinant by an independent division-free/evaluation method. Enumerated: all tiny matrices, all permutation patterns, degree profiles; **all draws** for verification and the triangular variants on small fields.',
'C16': 'Oracle: definitions of shifted row/column degree, leading matrix, pivot, and forms coded from the documentation. Enumerated: all matrices of tiny boxes with all shifts of a box, both orientations, all forms; perturbations of Popov matrices around each defining condition.',
'C17': 'Oracle: rows are approximants (schoolbook), shifted form by the reference predicates, completeness by determinantal degree = rank of the residual map (exact linear algebra), Popov variant unique. Enumerated: all matrices of tiny boxes x all uniform orders / order vectors x all shifts of a box, structured rank-deficient and gap inputs, orders around the recursion threshold (32) and its residues, generic 2n x n, m x n (balanced degrees, including the one-column prototypes) and matrix Pade inputs filtered by the reference trace, all draws of the verifier.',
}
D['C18'] = 'Oracle: rows vanish against the values at every point (Horner), shifted form by the reference predicates, completeness by determinantal degree = sum of the ranks of the values, Popov variant unique. Enumerated: all lists of values on 1..3 points of tiny fields x all shifts of a box x point orders, structured values (rank-deficient, vanishing, constant, low degree) over the shape grid, number of points around the recursion threshold (32), windows (offset/order) inside larger vectors filled with junk, geometric and general points, inputs of degree above the number of points, verification against the definition for every matrix of a box.'
D['C19'] = 'Oracle: rank over the fraction field (fraction-free elimination), products recomputed by the reference arithmetic, shifted (ordered) weak Popov predicates, saturation test (gcd of the maximal minors is 1) for generation, shifted row degrees and pivots recomputed. Enumerated: every matrix of tiny boxes x every shift of a box, all shapes up to 6x5 with rank-deficient/zero/constant/unbalanced rows, sizes around the approximation order, every random draw of the randomized verification on tiny fields, verification verdict compared with the definition for every candidate of a box, generic kernels, row reduction (all 2x2 matrices over tiny fields, unimodular and degenerate leading rows) checked to be a reduced basis of the same row space. KF-01: the prototype kernel_basis_generic is wrong outside of balanced dimensions.'
D['C20'] = 'Oracle: powers and remainders by schoolbook arithmetic (every coefficient of every term of the sequence), upper products from their defining formula, reconstruction by the minimal pivot degrees of the module of solutions computed independently as first dependencies of a Krylov-ordered linear system, plus the congruence and the degrees of numerator and denominator. Enumerated: every modulus and every polynomial of tiny boxes, structured ones around the FFT crossover (n up to 300) and block sizes, every list of values of tiny boxes, fractions/polynomials/zero/rank-one data at lengths around the recursion threshold, general and geometric points.'

D['C21'] = 'Oracle: schoolbook bivariate arithmetic and the determinant of the Sylvester matrix. Enumerated: every bivariate polynomial (and every pair) of tiny boxes over F_2, F_3, F_5; structured pairs (dense, maximal, sparse, triangular, monomial, constant) over four primes and all combinations of degrees up to 17 (40 thorough); aliasing patterns of every operation; resultants of every pair of tiny polynomials for every pair of first random draws (a reported failure is accepted there, a wrong value is not), structured pairs over small primes for every first draw, over large primes a failure is not accepted; Villard variants: generic inputs (no failure accepted), every root of a leading coefficient over two small fields, and constant leading coefficients including monic operands (a reported failure is accepted only where the matrix fraction is not strictly proper).'

D['C22'] = 'Oracle: linear algebra over F_p. For each t the minimal y-degree of an annihilator with leading coefficient x^t, over k[x]/x^d, of the finite sequence is computed by membership in a span; each returned polynomial must have leading coefficient x^t, that degree, and cancel every window (nothing is asked when no annihilator is shorter than the sequence). The approximant-basis variants must return relations whose determinant degree equals the codimension of the module of relations (so they generate it). Enumerated: every sequence of tiny boxes (single and vector valued), recurrent sequences with prescribed valuations and degeneracies over four primes, every sequence/polynomial pair of tiny boxes for the products and the verification routine, every non-degenerate tiny sequence for the structured lifting. The randomised compression is checked over large primes only.'

D['C24'] = 'Oracle: the defining formulas: a linearized column must sum back to the original one (or to its quotient by x^k), every block but the last has at most the requested degree (also the last when the announced degree is a bound), the number of blocks is ceil((target+1)/(degree+1)); products and middle products through the linearization are compared with schoolbook ones. Enumerated: every matrix of tiny boxes with every step, target slack and mixed profile; structured matrices (unbalanced, zero columns/rows, sparse) over four primes; every pair of tiny boxes for the products; outputs are pre-filled and aliased.'
D['C25'] = 'Oracle: a small interpreter of the fragment of the Sage and Magma languages that denotes such objects (integers, lists, GF, PolynomialRing, Matrix, ring coercions, sums, products and powers, assignments); it runs the printed ring definitions, then evaluates the printed text and compares the value, its ring included, with the object in memory. Enumerated: every object of tiny boxes (all polynomials of degree < 4, all short vectors, all 2x2 matrices with constant or degree-1 entries ...), structured matrices over word-size primes, every list of up to 3 extreme integers (LONG_MIN, 2^63, negative multiprecision). Both printers, print and assign forms, default and explicit indeterminate.'
D['C23'] = 'The explorations of all other properties are run again on a build of the library with AddressSanitizer, the integer and bounds checks of UBSan and NTL_RANGE_CHECK (every index of every NTL container is checked against its current length), so each enumerated execution is monitored for memory errors; wrong results are left to the other checks (--crash-only), only an abnormal end of the process is a violation. Quick: 150 of the spaces (sizes around thresholds, shape sweeps, call histories) in full; thorough: every space at the quick bounds of its property. The oracle is the run-time monitor; a report is replayed before it is printed.'
D['C27'] = 'NTL::ErrorCallback (which NTL calls before it ends the process on an error) is set to throw, so a rejection becomes an observable outcome of a call instead of the end of the run. Enumerated: for every operation, all combinations of operand dimensions in a small box around the admissible ones (0 to 3 or 4 in each dimension, lengths one below, at and one above the requirement), degrees across the bound of each prepared multiplier / middle product / basis, shift lengths 0 to 6, all small matrices (singular or not) for the operations that require invertibility. The oracle states the admissibility predicate independently of the code; for admissible calls the result is compared with the reference as well, and after each rejected call the operands, the object and the modulus are compared with copies taken before it, and the object is used again.'

D['C26'] = 'Oracle: 128-bit integers and GMP. Enumerated: every length in a window around the unrolling and block thresholds, operand patterns that maximise carries (all maximal, one maximal entry at each position, alternating ...), moduli at both ends of every documented range (2, 3, 2^31 +- , 2^32, 2^50, 2^52, 2^63, 2^64 - 59 ...), every number of simultaneous vectors; 1 to 4 primes and every length for the Chinese remaindering; operands are exact-size heap copies, and the same spaces run on three builds (SIMD variants of this CPU, generic code without AVX, ASan/UBSan).'
D['C28'] = 'Oracle: schoolbook elimination and products on plain arrays. Enumerated: every matrix of tiny boxes over GF(2), GF(3) (all shapes up to 3x4), structured larger ones of every rank across the recursion thresholds, every rotation window and permutation of up to 5 rows or columns with and without the index vector, all matrix polynomials of tiny boxes with every shift, truncation and aliasing; products over word-size primes with maximal entries.'
D['C29'] = 'Oracle: schoolbook polynomial matrices (harness/fpoly.h), determinant by expansion. Enumerated: all pairs of tiny boxes, all shapes 0..4 with unbalanced degrees over small and word-size primes, six aliasing patterns (clean, dirty, output = left / right operand, both operands the same object, all three the same), every window of the middle products, every order around the degree for Dixon and the truncated inverse; the geometric points that a field is too small for are excluded by the documented bound.'
D['C30'] = 'Oracle: the definitions, written once for ROW_LOWER; every other orientation is reduced to it by transposing and / or reversing the matrix, so each routine is compared in 4 orientations with one reference; ranks, determinants and Hermite forms by independent elimination over the reference polynomials. Enumerated: every matrix of boxes up to 2x3 / 3x2 with entries of degree < 2 over GF(2), GF(3), structured singular and unbalanced ones up to 4x4, all shifts of a small box (null, uniform, increasing, wide) and orientations; the randomized unimodular test runs from several generator states. The transformations are checked for form, equality tsf * input = output, determinant of the transformation, rank, row / column / matrix rank profile.'

D['C31'] = 'Oracle: approximation P F = 0 mod x^d and ordered weak Popov form by definition, and generation by a dimension count: the degree of det P must be the rank of the map p -> p F mod x^d (a block Toeplitz matrix); for kernels, the number of kernel vectors of bounded shifted degree predicted by the row degrees of the basis must be the nullity of the corresponding block Toeplitz matrix beyond the degree bound, which also gives the nullity. Enumerated: every matrix of tiny boxes over GF(2), GF(3) with every order up to two beyond its length and 3 to 6 shifts, structured, singular and unbalanced matrices up to 4x4 (kernels 5x4) over three primes, every order up to 72 across the recursion thresholds, four orientations, NULL shift / NULL pivots; every basis and several damaged versions of it (row times x, times x + 1, other orders, dropped rows ...) go through the verification routines.'
D['C32'] = 'Oracle: a reader of the expressions Sage evaluates (nested lists of polynomial expressions, integers of any size reduced modulo n) applied to the captured standard output, and, for the pretty printers, the sequence of integers they must show (dimensions, modulus, entries in order). Enumerated: all vectors of length at most 3 / 4 / 5 over 8 values with the extreme words, all matrices of each shape up to 3 x 4 over 6 values modulo six primes up to 2^64 - 59 (first entries free, the others rotated), polynomial matrices over ten entry shapes with two variable names, degree and leading matrices in the four orientations with shifts. The fixes of three defects (reading before an empty vector, entries and moduli above 2^63 shown as negative integers, which denote other residues) came from it.'
