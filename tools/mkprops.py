#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (from the table below and checks.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 'ntl-extras/'
M = N + 'mat_lzz_pX_extra/'
def P(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a}
I, H, CF = 'inputs', 'histories', 'configurations'
L = []
L.append(P('C01', 'Univariate middle product returns exactly the requested window',
 'For polynomials a, c over Z/pZ and window bounds dA, dB, the middle product is the polynomial formed by coefficients dA..dA+dB of (a truncated to degree dA) times c, in normal form, for every prime (small, large, FFT), every pair of sizes, and whichever algorithm the dispatcher selects. The operands are left unchanged unless the output aliases one of them, in which case the result is still correct.',
 [I, CF], 'all polynomials, window sizes, primes and aliasing patterns',
 'tests use random dense inputs of balanced sizes for three primes; they never hold the extreme coefficients that overflow accumulators, nor every unbalanced window that the Karatsuba splitting creates',
 [N + 'lzz_pX_middle_product/src/lzz_pX_middle_product.cpp', N + 'lzz_pX_middle_product/lzz_pX_middle_product.h'],
 [('dispatch between naive, Karatsuba and FFT windows', N + 'lzz_pX_middle_product/src/lzz_pX_middle_product.cpp')]))
L.append(P('C02', 'Power series quotients and Taylor shifts are exact',
 'Truncated power series division b/a mod x^m (a(0) invertible) returns the unique series q of length m with a*q = b mod x^m, and shifting a polynomial by c returns exactly a(x+c) for every degree up to the announced bound, in any characteristic the chosen algorithm supports. Adding a shifted polynomial and testing monicity agree with their definitions, including zero operands and aliased outputs, and results are always in normal form.',
 [I, H, CF], 'all polynomials, precisions, shifts, primes, including reuse of one shift object for many polynomials',
 'tests use random dense inputs of one shape; degenerate lengths, zero operands and the crossover between quadratic and Newton division are not systematically reached',
 [N + 'lzz_pX_extra/src/lzz_pX_extra.cpp', N + 'lzz_pX_extra/lzz_pX_extra.h'],
 [('plain / Newton division', N + 'lzz_pX_extra/src/lzz_pX_extra.cpp'), ('divide and conquer vs factorial shift', N + 'lzz_pX_extra/src/lzz_pX_extra.cpp')]))
L.append(P('C03', 'Multipoint evaluation and interpolation agree with the point set',
 'For general, geometric and FFT point sets, evaluating a polynomial (or every entry of a polynomial matrix) gives its exact values at the points the object reports, interpolation is its inverse on polynomials of degree below the number of points, and the transposed operations are the transposed linear maps. This holds for every number of points, for every announced degree, and for every sequence of calls made on one object, and never depends on earlier calls.',
 [I, H, CF], 'all point sets of distinct points, all polynomials, all call sequences on one object, all primes',
 'tests check a few sizes with random data, one call per object; histories (precomputation for other degrees, switching FFT on and off) and transposed operations at odd sizes are not covered',
 [N + 'lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp', N + 'lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp', N + 'lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp', N + 'lzz_pX_CRT/src/lzz_pX_Multipoint.cpp', N + 'lzz_pX_CRT/lzz_pX_CRT.h'],
 [('subproduct tree', N + 'lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp'), ('chirp transform', N + 'lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp'), ('truncated FFT', N + 'lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp')],
 [('per-degree caches and flags', 'precomputations an object accumulates between calls', N + 'lzz_pX_CRT/lzz_pX_CRT.h')]))
L.append(P('C04', 'Chinese remaindering and block transforms are mutually inverse',
 'Reducing a polynomial modulo a family of pairwise coprime moduli returns the exact remainders, and recombining residues returns the unique polynomial of degree below the sum of degrees with these residues. The small fixed-length bilinear transforms used for products map operands so that pointwise products followed by the inverse map give the exact polynomial product, and all of their variants agree.',
 [I, CF], 'all families of coprime moduli, all polynomials, all primes',
 'tests use random moduli of equal degree; single modulus, mixed degrees, and inputs longer or shorter than the modulus product are not enumerated',
 [N + 'lzz_pX_CRT/src/lzz_pX_CRT.cpp', N + 'lzz_pX_CRT/src/lzz_pX_Transform.cpp', N + 'lzz_pX_CRT/src/lzz_pX_Transform_naive.cpp', N + 'lzz_pX_CRT/src/lzz_pX_Transform_montgomery.cpp'],
 [('remainder tree and cofactors', N + 'lzz_pX_CRT/src/lzz_pX_CRT.cpp'), ('Karatsuba / Montgomery / naive transforms', N + 'lzz_pX_CRT/src/')]))
L.append(P('C05', 'Base field and constant matrix helpers match their definitions',
 'The multiplicative order, simultaneous inversion and multiplier precomputation for vectors, and the constant matrix builders (shift, reversal and diagonal matrices, clearing a window) compute exactly what they announce for every prime and every argument, including aliased and empty ones. A requested element of order at least n, whatever the random draws, really has order at least n (with all smaller powers differing from one by a unit), or is reported as absent by zero.',
 [I, CF], 'all primes, vectors, matrices, windows, and all sequences of random draws',
 'tests run a few primes; boundary orders (1, 2, p-1), tiny fields and empty operands are not covered',
 [N + 'lzz_p_extra/src/lzz_p_extra.cpp', N + 'vec_lzz_p_extra/src/vec_lzz_p_extra.cpp', N + 'mat_lzz_p_extra/src/mat_lzz_p_extra.cpp', N + 'util/src/util.cpp'],
 [('order computation', N + 'lzz_p_extra/src/lzz_p_extra.cpp'), ('batched inversion', N + 'vec_lzz_p_extra/src/vec_lzz_p_extra.cpp')]))
L.append(P('C06', 'Structured scalar matrices multiply like the dense matrix they denote',
 'For every structured family over Z/pZ (Toeplitz, Hankel, circulant, lower triangular Toeplitz, Sylvester, Cauchy, mosaic, and displacement-rank representations), left and right products with vectors and matrices equal the products with the expanded dense matrix, for all rectangular sizes and primes. Entry access, dimensions, transposes and dense expansion are consistent with each other, also when outputs are reused or alias inputs.',
 [I, H, CF], 'all generators, sizes, right-hand sides, primes, reused outputs',
 'tests compare random square-ish instances for three primes; sizes 1, very rectangular blocks and generator rank edge cases are not enumerated',
 [N + 'structured_lzz_p/src/', N + 'structured_lzz_p/structured_lzz_p.h'],
 [('fast products by middle products / FFT', N + 'structured_lzz_p/src/toeplitz_lzz_p.cpp'), ('displacement generators', N + 'structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp')]))
L.append(P('C07', 'Structured scalar solvers never return a wrong solution or inverse',
 'Solving a structured linear system over Z/pZ (Sylvester, Cauchy-like, mosaic Hankel or Toeplitz), or inverting such a matrix, either reports failure or returns a vector, or a structured inverse, that satisfies the system exactly. A system with an invertible matrix whose leading principal minors are non-zero is solved, and the answer does not depend on the algorithm or cutoff used.',
 [I, CF], 'all structured matrices, right-hand sides, primes, random choices made inside the solver',
 'several solver tests are skipped or failing; the others use random generic systems at one size',
 [N + 'structured_lzz_p/src/sylvester_lzz_p.cpp', N + 'structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp', N + 'structured_lzz_p/src/mosaic_hankel_lzz_p.cpp', N + 'structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp'],
 [('Cauchy-like elimination (quadratic, block, divide and conquer)', N + 'structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp')]))
L.append(P('C08', 'Structured polynomial matrices multiply like the dense matrix they denote',
 'For every structured family with polynomial entries, products with vectors and matrices, their truncated versions, dense expansion and truncated inverses equal the corresponding operations on the expanded polynomial matrix, to full precision, for all degrees, sizes and truncation orders.',
 [I, CF], 'all generators, sizes, degrees, truncation orders, primes',
 'several of these tests are too slow and skipped; the others use one random instance per size',
 [N + 'structured_lzz_pX/src/', N + 'structured_lzz_pX/structured_lzz_pX.h'],
 [('Kronecker / bivariate products', N + 'structured_lzz_pX/src/sylvester_lzz_pX.cpp'), ('displacement generators', N + 'structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp')]))
L.append(P('C09', 'Polynomial matrix arithmetic and utilities are entrywise exact',
 'Addition, subtraction, negation, scalar and vector products, shifts, truncations, reversals, evaluations, coefficient extraction and insertion, conversions, transposition and block extraction on polynomial matrices and vectors equal their entrywise definition for every shape, degree profile, column or row offset and aliasing pattern. Results are always in normal form with the announced dimensions.',
 [I, CF], 'all matrices including empty ones, zero entries, unbalanced degrees, aliased outputs',
 'the utility test crashes in this environment and the arithmetic tests use dense random square matrices',
 [M + 'src/mat_lzz_pX_arith.cpp', M + 'src/mat_lzz_pX_utils.cpp', M + 'mat_lzz_pX_arith.h', M + 'mat_lzz_pX_utils.h'],
 [('entrywise loops with explicit normalisation', M + 'src/mat_lzz_pX_arith.cpp')]))
L.append(P('C10', 'Every polynomial matrix product algorithm returns the exact product',
 'For all conformable polynomial matrices, the product routine and each individual product algorithm (naive, Waksman, dense evaluation, geometric and FFT evaluation, three primes, small transforms) return exactly the matrix product, for every prime their precondition allows, every degree pair and rectangular shape, and with outputs aliasing inputs. Inputs are never modified.',
 [I, CF], 'all matrices, degree profiles, primes, aliasing patterns, and all branches of the dispatcher',
 'the product test is too slow and skipped in the reliable suite; elsewhere products are used on random dense square inputs',
 [M + 'src/mat_lzz_pX_multiply.cpp', M + 'src/mat_lzz_pX_multiply_evaluate_dense.cpp', M + 'src/mat_lzz_pX_multiply_evaluate_FFT.cpp', M + 'src/mat_lzz_pX_multiply_evaluate_geometric.cpp', M + 'src/mat_lzz_pX_multiply_3_primes.cpp', M + 'src/mat_lzz_pX_multiply_naive.cpp', M + 'src/mat_lzz_pX_multiply_transform.cpp'],
 [('dispatcher on size, degree, prime', M + 'src/mat_lzz_pX_multiply.cpp')]))
L.append(P('C11', 'Polynomial matrix middle products return exactly the requested window',
 'For polynomial matrices a, c and window bounds dA, dB, every middle product algorithm and the dispatcher return the matrix whose entries are coefficients dA..dA+dB of the product, and the transposed product is the transposed linear map of the product, for all shapes, degrees, windows and allowed primes.',
 [I, CF], 'all matrices, windows, primes, aliasing patterns',
 'the middle product test is too slow and skipped in the reliable suite',
 [M + 'src/mat_lzz_pX_middle_product.cpp', M + 'src/mat_lzz_pX_middle_product_evaluate_FFT.cpp', M + 'src/mat_lzz_pX_middle_product_evaluate_dense.cpp', M + 'src/mat_lzz_pX_t_multiply_evaluate.cpp'],
 [('wrap-around FFT, 3 primes, dense evaluation', M + 'src/mat_lzz_pX_middle_product_evaluate_FFT.cpp')]))
L.append(P('C12', 'Precomputed left multipliers equal plain multiplication, call after call',
 'A left multiplier built once from a polynomial matrix and a degree bound returns, for every later right operand within that bound, exactly the product, whatever the order, number, shapes and degrees of earlier calls. All multiplier implementations agree.',
 [I, H, CF], 'all left matrices, all sequences of right operands within the announced bounds, all primes',
 'the multiplier test is too slow and skipped in the reliable suite, and it applies each multiplier once',
 [M + 'src/mat_lzz_pX_lmultiplier.cpp', M + 'mat_lzz_pX_lmultiplier.h'],
 [('stored evaluations of the left operand', M + 'src/mat_lzz_pX_lmultiplier.cpp')],
 [('stored evaluations', 'values of the left operand kept between calls', M + 'mat_lzz_pX_lmultiplier.h')]))
L.append(P('C13', 'Truncated inverses, high-order lifting and matrix division are exact',
 'Inverting a polynomial matrix with invertible constant term to order d gives the unique matrix X of degree below d with A X = I mod x^d, by every algorithm and threshold. High-order components equal the corresponding coefficient slices of the exact inverse expansion, and left division of A by a row reduced matrix B returns the unique pair with A = B Q + R and every row of R of degree below that of the same row of B.',
 [I, CF], 'all matrices with invertible constant term, all orders and thresholds, all primes',
 'tests use random dense matrices at a few sizes; order 1, order not a power of two, low degree inputs and aliasing are not enumerated',
 [M + 'src/mat_lzz_pX_inv_trunc.cpp', M + 'src/mat_lzz_pX_division.cpp', M + 'mat_lzz_pX_inverse.h'],
 [('Newton iteration with middle products', M + 'src/mat_lzz_pX_inv_trunc.cpp')]))
L.append(P('C14', 'Linear system solving returns exact series and rational solutions',
 'Solving A u = b as power series to a given precision returns the unique truncated solution when A(0) is invertible, by every algorithm. Solving over the rational functions returns a numerator u and a nonzero denominator den of minimal degree with A u = den b for every nonsingular A: always with the kernel-based routine (which reports 0 exactly when there is no solution), and with the series-based routine whenever A(0) is invertible and its random combination of the entries keeps the denominator. Outputs may alias inputs where documented.',
 [I, CF], 'all nonsingular matrices, right-hand sides, precisions, primes',
 'the solving test is too slow and skipped, the kernel-based one fails in this environment',
 [M + 'src/mat_lzz_pX_linsolve.cpp', M + 'mat_lzz_pX_linsolve.h'],
 [('quadratic, DAC, high-precision lifting, reconstruction', M + 'src/mat_lzz_pX_linsolve.cpp')]))
L.append(P('C15', 'Determinant algorithms return the exact determinant or report failure',
 'Expansion by minors and evaluation-interpolation return exactly the determinant of every square polynomial matrix, singular ones included. The triangularisation routine, given the right degree, answers true only if it returned the determinant up to a nonzero constant, and does so for generic matrices; the solving-based routine returns the monic determinant of matrices with trivial Smith form for all but degenerate draws. Randomised verification never refuses the right determinant and accepts a wrong candidate only on draws that are roots of the difference.',
 [I, CF], 'all square polynomial matrices, degree profiles, primes, internal random choices',
 'tests use random dense matrices where genericity assumptions hold; singular and non-generic inputs are not covered',
 [M + 'src/mat_lzz_pX_determinant.cpp', M + 'mat_lzz_pX_determinant.h'],
 [('evaluation-interpolation, triangularisation, Hermite-like recursion', M + 'src/mat_lzz_pX_determinant.cpp')]))
L.append(P('C16', 'Shifted degrees, leading matrices, pivots and form predicates are exact',
 'Row and column degrees, leading matrices, pivot profiles and the predicates for reduced, weak Popov, ordered weak Popov and Popov forms agree with their definitions for every matrix, every shift (including negative and very unbalanced ones), both orientations, and matrices with zero rows or columns. The reported strongest form is exactly the strongest one satisfied.',
 [I, CF], 'all polynomial matrices and shifts, both orientations',
 'tests use dense random matrices with four or five shifts; form boundaries (ties between pivots, zero rows, equal degrees) are not enumerated',
 [M + 'src/mat_lzz_pX_forms.cpp', M + 'mat_lzz_pX_forms.h'],
 [('pivot search and shifted leading matrices', M + 'src/mat_lzz_pX_forms.cpp')]))
L.append(P('C17', 'Approximant bases are exact, complete and in the announced form',
 'For every matrix series, order vector and shift, each approximant-basis algorithm returns a matrix whose rows are all approximants, which generates every approximant, and which is reduced with respect to the shift in the announced form (ordered weak Popov, or Popov for the Popov variants); the reported shifted degrees are those of the basis. All algorithms for the same problem return bases of the same module with the same shifted minimal degree, and the Popov variants return the identical matrix.',
 [I, CF], 'all input matrices (any rank, any shape), all orders and shifts, all primes',
 'the basis tests are too slow and skipped in the reliable suite; others use random generic inputs where rank-deficient residuals never occur',
 [M + 'src/mat_lzz_pX_approximant.cpp', M + 'src/mat_lzz_pX_pmbasis.cpp', M + 'src/mat_lzz_pX_pmbasis_generic.cpp', M + 'mat_lzz_pX_approximant.h'],
 [('residual kernel step', M + 'src/mat_lzz_pX_approximant.cpp'), ('divide and conquer on the order', M + 'src/mat_lzz_pX_pmbasis.cpp')]))
L.append(P('C18', 'Interpolant bases are exact, complete and in the announced form',
 'For every list of evaluations at distinct points and every shift, each interpolant-basis algorithm returns a basis whose rows all vanish at the points against the given values, which generates every interpolant, is in the announced shifted form, and whose reported shifted degrees are correct.',
 [I, CF], 'all point sets, evaluation matrices (any rank), shifts and primes',
 'the basis tests are too slow and skipped in the reliable suite; others use random generic values',
 [M + 'src/mat_lzz_pX_interpolant.cpp', M + 'mat_lzz_pX_interpolant.h'],
 [('residual kernel step and divide and conquer on the points', M + 'src/mat_lzz_pX_interpolant.cpp')]))
L.append(P('C19', 'Kernel bases are exact, complete and in the announced form',
 'For every polynomial matrix and shift satisfying the documented conditions, each kernel-basis algorithm returns rows that annihilate the matrix, that generate the whole left kernel over polynomials (not merely a finite-index or higher-degree submodule), in the announced shifted form, with the shifted degrees it reports. Row reduction returns a reduced matrix that is a unimodular multiple of its input.',
 [I, CF], 'all matrices (any rank and shape), all shifts meeting the documented precondition, all primes',
 'the kernel and reduction tests are too slow and skipped in the reliable suite; random inputs have generic kernels',
 [M + 'src/mat_lzz_pX_kernel.cpp', M + 'src/mat_lzz_pX_reduction.cpp', M + 'mat_lzz_pX_kernel.h'],
 [('approximant or interpolant basis at sufficient order, row selection by degree', M + 'src/mat_lzz_pX_kernel.cpp')]))
L.append(P('C20', 'Matrix fraction reconstruction and block Wiedemann sequences are exact',
 'Reconstructing a matrix fraction from a truncated matrix series or sequence returns numerator and denominator that satisfy the defining congruence with the announced degrees, for every denominator of the documented kind; generator and baby-step giant-step sequence routines produce exactly the terms they announce.',
 [I, CF], 'all matrix sequences of the documented kind, sizes and primes',
 'tests use random generic sequences of one size',
 [M + 'src/mat_lzz_pX_sequence.cpp', M + 'mat_lzz_pX_sequence.h'],
 [('approximant or interpolant bases of stacked series', M + 'src/mat_lzz_pX_sequence.cpp')]))
L.append(P('C21', 'Bivariate polynomial arithmetic and resultants are exact',
 'Products, sums, evaluations, shifts, truncations and Kronecker conversions of bivariate polynomials equal their definition for every degree pair and prime and return normalized results, including when arguments are aliased. When the evaluation-interpolation resultant reports success it returns the resultant with respect to Y, for every pair of polynomials, zero ones included, and every choice of random points; so do the algorithms of Villard, which report success on generic inputs and either succeed or report failure on all others.',
 [I, CF], 'all bivariate polynomials, including zero ones and mixed degrees, all primes',
 'the resultant test is too slow and skipped; the others use dense random inputs',
 [N + 'lzz_pXY/src/lzz_pXY.cpp', N + 'lzz_pXY/lzz_pXY.h'],
 [('Kronecker substitution', N + 'lzz_pXY/src/lzz_pXY.cpp')]))
L.append(P('C22', 'Recurrence annihilators annihilate the sequence and are complete',
 'For every finite sequence over k[x]/x^d (of polynomials or of vectors of polynomials), the Kurakin-type algorithms return for each t < d an annihilator with leading coefficient x^t of minimal degree whenever one shorter than the sequence exists, the approximant-basis variants return a basis of all relations on the windows they consider, structured lifting returns the monic annihilator of a non-degenerate sequence, and the verification routine accepts exactly the annihilators.',
 [I, CF], 'all finite sequences, moduli and primes',
 'tests use a handful of fixed sequences, one of which fails in this environment',
 [N + 'lzz_pX_seq/src/lzz_pX_seq.cpp', N + 'lzz_pX_seq/lzz_pX_seq.h'],
 [('elimination of discrepancies', N + 'lzz_pX_seq/src/lzz_pX_seq.cpp')]))
L.append(P('C23', 'Public operations are memory safe and free of integer undefined behaviour',
 'On inputs satisfying the documented preconditions, no public operation indexes a vector, matrix or polynomial outside its current length, reads or writes outside the storage it was given or allocated, uses an out-of-range shift, divides by zero or overflows a signed word, whatever the sizes, degrees and prime, alone or in sequences of calls on the same objects. It terminates normally and releases or reuses storage without corruption.',
 [I, H, CF], 'all inputs within the documented preconditions, all call sequences',
 'the tests run without sanitizers and range checks, so an out-of-bounds access that happens to hit mapped memory passes',
 [N], [('index arithmetic in every module', N)]))
L.append(P('C24', 'Partial linearisation and block regrouping preserve the represented matrix',
 'Expanding the columns of a polynomial matrix into blocks of bounded degree yields the announced number of blocks, which sum back to the original columns for every degree profile and parameter choice, zero columns included; collapsing and joining columns follow their formula; products and middle products computed through the linearised matrix equal the products of the original matrices, whatever the output contained before.',
 [I, CF], 'all matrices, degree bounds and target degrees',
 'tests use one random degree profile',
 [M + 'src/mat_lzz_pX_linearization.cpp', M + 'mat_lzz_pX_linearization.h'],
 [('per column / row expansion tables', M + 'src/mat_lzz_pX_linearization.cpp')]))
L.append(P('C25', 'Printed Sage and Magma objects denote the internal object',
 'After the statements that define the rings, evaluating in the target system the text written for a vector (of integers or field elements, possibly empty), a polynomial over the integers or the field, a vector of polynomials, a matrix with at least one row or a polynomial matrix gives exactly the object that was printed, in the ring of the indeterminate that was asked for, for every value including zero and constants; an assignment binds that object to the given name.',
 [I], 'all objects of each printable type',
 'the print tests only run the routines and look at nothing',
 [N + 'sage_output/src/sage_output.cpp', N + 'magma_output/src/magma_output.cpp'],
 [('textual rendering', N + 'magma_output/src/magma_output.cpp')]))
F = 'flint-extras/src/'
L.append(P('C26', 'Word-level kernels of the FLINT half are exact at the extremes of their documented ranges',
 'In flint-extras, dot products of vectors modulo n (plain, split into low and high words, by several vectors at once, unbalanced 32-bit operands, vectors of 32-bit residues), scalar products and comparisons of vectors, powers and roots of unity, and multimodular reduction and Chinese remaindering of vectors and matrices of integers (naive, tree, word-size primes) return exactly the value of their definition for every modulus and length in their documented range, all entries maximal included, with every compiled SIMD variant giving the same value; they read only the entries of their operands and write only their output.',
 [I, CF], 'all operands, lengths and moduli within the documented ranges, all compiled vector variants',
 'the tests of this half are not among the reliable ones here (FLINT is not installed), and they use random entries, which practically never carry out of the low word of an accumulator',
 [F + 'nmod_vec_extra/', F + 'nmod32_vec/', F + 'nmod_extra/', F + 'fmpz_extra/', F + 'fmpz_mat_extra/'],
 [('lazy reduction of accumulators', F + 'nmod_vec_extra/'), ('remainder and product trees', F + 'fmpz_extra/')]))
L.append(P('C28', 'Constant matrices and matrix polynomials of the FLINT half match their definitions',
 'In flint-extras, for every matrix over Z/pZ (empty, singular and rectangular ones included) the LU-type decomposition recombines into the permuted input with the rank it reports, the left nullspace is a basis of the kernel in the normal form its pivots announce, products equal the schoolbook ones, rotations and permutations of rows and columns move every line (and an attached index vector) exactly where documented, and random vectors, polynomials and matrices of a requested form have that form; matrix polynomials (polynomials with matrix coefficients) convert losslessly to and from polynomial matrices, and their shifts, truncations, reversals, evaluations, predicates, coefficient access and products of coefficients are exact, in place or not.',
 [I, CF], 'all matrices, permutations, windows, primes and aliasing patterns',
 'the tests of this half are not among the reliable ones here, and sample random matrices of generic rank',
 [F + 'nmod_mat_extra/', F + 'nmod_mat_poly_extra/', F + 'nmod_mat_extra.h', F + 'nmod_mat_poly.h'],
 [('elimination with recorded permutations', F + 'nmod_mat_extra/'), ('coefficient matrices', F + 'nmod_mat_poly_extra/')]))
L.append(P('C29', 'Products, middle products, determinants and series division of the FLINT half are exact',
 'In flint-extras, every multiplication of polynomial matrices (evaluation at a geometric progression, Vandermonde, Waksman, and the dispatcher between them) returns the exact product, every middle product exactly the requested window of coefficients, determinants of polynomial matrices the exact polynomial, and the inverse truncated at order d and the solution of A X = B modulo x^d by Dixon lifting the unique series, for all admissible shapes, degrees, primes and orders, when the output is dirty or is one of the operands, and operands that are not outputs are left unchanged.',
 [I, CF], 'all polynomial matrices, shapes, degrees, orders, primes and aliasing patterns',
 'the tests of this half are not among the reliable ones here, and never alias an output with an operand of another shape',
 [F + 'nmod_poly_mat_extra/', F + 'nmod_poly_extra/', F + 'nmod_poly_mat_multiply.h', F + 'nmod_poly_mat_dixon.h'],
 [('evaluation and interpolation of entries', F + 'nmod_poly_mat_extra/'), ('Dixon lifting', F + 'nmod_poly_mat_dixon.h')]))
L.append(P('C30', 'Degrees, pivots and canonical forms of the FLINT half match their definitions',
 'In flint-extras, for every polynomial matrix, shift and orientation (row or column, lower or upper), the degrees, degree matrices, leading matrices, pivot indices and pivot degrees are those of the definition (with the documented conventions for zero rows and columns), and the tests for reduced, weak Popov, ordered weak Popov, Popov, echelon, Hermite and unimodular matrices answer true exactly on these forms (the randomized one always on unimodular matrices, and never on singular or rectangular ones). The transformations into weak Popov, upper echelon and Hermite form return the rank, a matrix of the announced form that is the transformation they report times the input, the transformation being unimodular with the determinant they report, and the announced rank profiles, including for singular and rectangular matrices. Row and column rearrangements move whole lines, and random matrices have the requested degrees or form.',
 [I, CF], 'all polynomial matrices, shifts, orientations and primes',
 'the tests of this half are not among the reliable ones here, and sample random (generic) matrices in one orientation',
 [F + 'nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c', F + 'nmod_poly_mat_extra/nmod_poly_mat_is_form.c', F + 'nmod_poly_mat_extra/nmod_poly_mat_hermite.c', F + 'nmod_poly_mat_extra/nmod_poly_mat_weak_popov.c', F + 'nmod_poly_mat_forms.h'],
 [('pivot collisions', F + 'nmod_poly_mat_extra/nmod_poly_mat_hermite.c'), ('orientation dispatch', F + 'nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c')]))
L.append(P('C27', 'Malformed arguments are rejected; admissible ones never are',
 'Where an operation requires its operands to fit together (matching matrix and vector dimensions, generators of equal width, a vector no shorter than the structured matrix, a shift of the right length, degrees within the bound a multiplier or a basis was prepared for, a square matrix, a constant term or a leading coefficient that is invertible), a call that violates the requirement ends with a reported error and returns nothing, and a call that satisfies it never does, including for empty operands and at the exact limit; a rejected call leaves its operands, the object it was made on and the current modulus as they were, so the same object still gives correct results afterwards.',
 [I, H], 'all combinations of admissible and inadmissible sizes, degrees and shifts, over all operations that state such a requirement',
 'no test passes a malformed argument to anything; the error paths are never run',
 [N + 'structured_lzz_p/src/', N + 'structured_lzz_pX/src/', N + 'mat_lzz_pX_extra/src/mat_lzz_pX_arith.cpp', N + 'mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp', N + 'mat_lzz_pX_extra/src/mat_lzz_pX_inverse.cpp', N + 'lzz_pX_CRT/src/'],
 [('size and degree guards', M + 'src/mat_lzz_pX_lmultiplier.cpp')]))

L.append(P('C31', 'Approximant and kernel bases of the FLINT half are minimal bases of the whole module',
 'In flint-extras, for every polynomial matrix (zero, rank-deficient and rectangular ones included), order and shift, mbasis and pmbasis return a basis in shifted ordered weak Popov form of the module of all approximants at that order, and the kernel algorithms (via approximants, divide and conquer, and the general interface in its four orientations, with or without a shift or pivots requested) return the nullity and a basis of the whole left or right kernel in shifted ordered weak Popov form; the shift is replaced by the shifted degrees and the pivot indices are reported. The verification routines accept these bases; the one for approximants rejects everything else, the one for kernels every matrix with a wrong number of rows, outside of the kernel or not in the form.',
 [I, CF], 'all polynomial matrices, orders, shifts, orientations and primes',
 'the tests of this half are not among the reliable ones here, and check generation only through the verification routine, itself untested',
 [F + 'nmod_poly_mat_extra/approximant_basis.c', F + 'nmod_poly_mat_extra/kernel.c', F + 'nmod_poly_mat_extra/verification.c', F + 'nmod_mat_poly_extra/nmod_mat_poly_mbasis.c'],
 [('iteration on residual nullspaces', F + 'nmod_mat_poly_extra/nmod_mat_poly_mbasis.c'), ('degree-based detection of kernel rows', F + 'nmod_poly_mat_extra/kernel.c')]))
L.append(P('C32', 'Printed forms of the FLINT half denote the printed object',
 'In flint-extras, the SageMath text of a vector of integers, of a matrix over Z/nZ (or a window of one), of a polynomial and of a polynomial matrix evaluates, in the ring with the given indeterminate name, to exactly the object printed, and the pretty printers of polynomial matrices, of their degree, shifted degree and leading matrices and of matrix polynomials show the right dimensions, modulus and entries; this holds for every modulus up to a full machine word, for every value (zero, constants, extreme integers) and for empty objects, and printing leaves the object unchanged.',
 [I], 'all printable objects, moduli and variable names',
 'no test of this half looks at printed text',
 [F + 'sagemath_extra/sagemath_extras.c', F + 'nmod_poly_mat_extra/nmod_poly_mat_io.c', F + 'nmod_mat_poly_extra/nmod_mat_poly_io.c'],
 [('textual rendering', F + 'sagemath_extra/sagemath_extras.c'), ('pretty printers of degree and leading matrices', F + 'nmod_poly_mat_extra/nmod_poly_mat_io.c')]))

NA = {}
TECH = 'exhaustive bounded exploration of the implementation (explicit-state, stateless) against a reference model'
checks = json.load(open(os.path.join(V, 'checks.json')))
L.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in L:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': []}
for p in L:
    i = p['id']
    if i in checks:
        c = checks[i]
        man['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'technique': c.get('technique', TECH), 'level': 'model_checking',
            'level_note': c.get('note', 'exhaustive within the bounds of the enumerated spaces (listed in the evidence); beyond them, parameters are covered through data alphabets and threshold neighbourhoods')})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
