#ifndef NMOD_POLY_MAT_H
#define NMOD_POLY_MAT_H
#include <flint/flint.h>
#include <flint/nmod_poly.h>
#include <flint/nmod_mat.h>
#include <flint/fmpz_mat.h>
typedef struct { nmod_poly_struct * entries; slong r; slong c; slong stride; ulong modulus; } nmod_poly_mat_struct;
typedef nmod_poly_mat_struct nmod_poly_mat_t[1];
#define NMOD_POLY_MAT_INLINE static inline
MF nmod_poly_struct * nmod_poly_mat_entry(const nmod_poly_mat_t A, slong i, slong j) { MFREQ(i >= 0 && i < A->r && j >= 0 && j < A->c); return A->entries + (i * A->stride + j); }
#define MPE(A, i, j) ((A)->entries + ((i) * (A)->stride + (j)))
MF slong nmod_poly_mat_nrows(const nmod_poly_mat_t A) { return A->r; }
MF slong nmod_poly_mat_ncols(const nmod_poly_mat_t A) { return A->c; }
MF ulong nmod_poly_mat_modulus(const nmod_poly_mat_t A) { return A->modulus; }
MF void nmod_poly_mat_init(nmod_poly_mat_t A, slong r, slong c, ulong n) { MFREQ(r >= 0 && c >= 0 && n != 0); A->entries = r && c ? (nmod_poly_struct *) flint_malloc(r * c * sizeof(nmod_poly_struct)) : NULL; A->r = r; A->c = c; A->stride = c; A->modulus = n; MF_ALL(A) nmod_poly_init(MPE(A, i, j), n); }
MF void nmod_poly_mat_clear(nmod_poly_mat_t A) { MF_ALL(A) nmod_poly_clear(MPE(A, i, j)); free(A->entries); A->entries = NULL; }
MF void nmod_poly_mat_set(nmod_poly_mat_t A, const nmod_poly_mat_t B) { MFREQ(A->r >= B->r && A->c >= B->c); if (A != B) MF_ALL(B) nmod_poly_set(MPE(A, i, j), MPE(B, i, j)); }
MF void nmod_poly_mat_init_set(nmod_poly_mat_t A, const nmod_poly_mat_t B) { nmod_poly_mat_init(A, B->r, B->c, B->modulus); nmod_poly_mat_set(A, B); }
MF void nmod_poly_mat_set_nmod_mat(nmod_poly_mat_t A, const nmod_mat_t B) { MFREQ(A->r == B->r && A->c == B->c); MF_ALL(A) { nmod_poly_zero(MPE(A, i, j)); nmod_poly_set_coeff_ui(MPE(A, i, j), 0, MFE(B, i, j)); } }
MF void nmod_poly_mat_swap(nmod_poly_mat_t A, nmod_poly_mat_t B) { nmod_poly_mat_struct t = *A; *A = *B; *B = t; }
MF void nmod_poly_mat_swap_entrywise(nmod_poly_mat_t A, nmod_poly_mat_t B) { MFREQ(A->r == B->r && A->c == B->c); MF_ALL(A) nmod_poly_swap(MPE(A, i, j), MPE(B, i, j)); }
MF void nmod_poly_mat_zero(nmod_poly_mat_t A) { MF_ALL(A) nmod_poly_zero(MPE(A, i, j)); }
MF void nmod_poly_mat_one(nmod_poly_mat_t A) { MF_ALL(A) if (i == j) nmod_poly_one(MPE(A, i, j)); else nmod_poly_zero(MPE(A, i, j)); }
MF int nmod_poly_mat_is_zero(const nmod_poly_mat_t A) { MF_ALL(A) if (!nmod_poly_is_zero(MPE(A, i, j))) return 0; return 1; }
MF int nmod_poly_mat_is_one(const nmod_poly_mat_t A) { MF_ALL(A) if (i == j ? !nmod_poly_is_one(MPE(A, i, j)) : !nmod_poly_is_zero(MPE(A, i, j))) return 0; return 1; }
MF int nmod_poly_mat_is_empty(const nmod_poly_mat_t A) { return A->r == 0 || A->c == 0; }
MF int nmod_poly_mat_is_square(const nmod_poly_mat_t A) { return A->r == A->c; }
MF int nmod_poly_mat_equal(const nmod_poly_mat_t A, const nmod_poly_mat_t B) { if (A->r != B->r || A->c != B->c) return 0; MF_ALL(A) if (!nmod_poly_equal(MPE(A, i, j), MPE(B, i, j))) return 0; return 1; }
MF int nmod_poly_mat_equal_nmod_mat(const nmod_poly_mat_t A, const nmod_mat_t B) { if (A->r != B->r || A->c != B->c) return 0; MF_ALL(A) if (MPE(A, i, j)->length > 1 || nmod_poly_get_coeff_ui(MPE(A, i, j), 0) != MFE(B, i, j)) return 0; return 1; }
MF slong nmod_poly_mat_max_length(const nmod_poly_mat_t A) { slong m = 0; MF_ALL(A) if (MPE(A, i, j)->length > m) m = MPE(A, i, j)->length; return m; }
MF slong nmod_poly_mat_degree(const nmod_poly_mat_t A) { return nmod_poly_mat_max_length(A) - 1; }
MF void nmod_poly_mat_window_init(nmod_poly_mat_t W, const nmod_poly_mat_t A, slong r1, slong c1, slong r2, slong c2)
{ MFREQ(0 <= r1 && r1 <= r2 && r2 <= A->r && 0 <= c1 && c1 <= c2 && c2 <= A->c); W->entries = A->entries ? MPE(A, r1, c1) : NULL; W->r = r2 - r1; W->c = c2 - c1; W->stride = A->stride; W->modulus = A->modulus; }
MF void nmod_poly_mat_window_clear(nmod_poly_mat_t W) { (void) W; }
MF void nmod_poly_mat_transpose(nmod_poly_mat_t B, const nmod_poly_mat_t A)
{ MFREQ(B->r == A->c && B->c == A->r); if (A == B) { for (slong i = 0; i < A->r; i++) for (slong j = 0; j < i; j++) nmod_poly_swap(MPE(B, i, j), MPE(B, j, i)); } else MF_ALL(A) nmod_poly_set(MPE(B, j, i), MPE(A, i, j)); }
MF void nmod_poly_mat_add(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { MFREQ(A->r == B->r && A->c == B->c && C->r == A->r && C->c == A->c); MF_ALL(C) nmod_poly_add(MPE(C, i, j), MPE(A, i, j), MPE(B, i, j)); }
MF void nmod_poly_mat_sub(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { MFREQ(A->r == B->r && A->c == B->c && C->r == A->r && C->c == A->c); MF_ALL(C) nmod_poly_sub(MPE(C, i, j), MPE(A, i, j), MPE(B, i, j)); }
MF void nmod_poly_mat_neg(nmod_poly_mat_t C, const nmod_poly_mat_t A) { MFREQ(C->r == A->r && C->c == A->c); MF_ALL(C) nmod_poly_neg(MPE(C, i, j), MPE(A, i, j)); }
MF void nmod_poly_mat_scalar_mul_nmod(nmod_poly_mat_t C, const nmod_poly_mat_t A, ulong c) { MFREQ(C->r == A->r && C->c == A->c); MF_ALL(C) nmod_poly_scalar_mul_nmod(MPE(C, i, j), MPE(A, i, j), c); }
MF void nmod_poly_mat_scalar_mul_nmod_poly(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_t c) { MFREQ(C->r == A->r && C->c == A->c); nmod_poly_t d; nmod_poly_init(d, A->modulus); nmod_poly_set(d, c); MF_ALL(C) nmod_poly_mul(MPE(C, i, j), MPE(A, i, j), d); nmod_poly_clear(d); }
MF void nmod_poly_mat_mul(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B)
{ MFREQ(A->c == B->r && C->r == A->r && C->c == B->c && A->modulus == B->modulus && C->modulus == A->modulus); nmod_poly_mat_t T; nmod_poly_mat_init(T, A->r, B->c, A->modulus); nmod_poly_t u; nmod_poly_init(u, A->modulus);
  MF_ALL(T) for (slong k = 0; k < A->c; k++) { nmod_poly_mul(u, MPE(A, i, k), MPE(B, k, j)); nmod_poly_add(MPE(T, i, j), MPE(T, i, j), u); } nmod_poly_clear(u); nmod_poly_mat_swap_entrywise(C, T); nmod_poly_mat_clear(T); }
MF void nmod_poly_mat_mul_classical(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { nmod_poly_mat_mul(C, A, B); }
MF void nmod_poly_mat_mul_KS(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { nmod_poly_mat_mul(C, A, B); }
MF void nmod_poly_mat_mul_interpolate(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { nmod_poly_mat_mul(C, A, B); }
MF void nmod_poly_mat_sqr(nmod_poly_mat_t C, const nmod_poly_mat_t A) { nmod_poly_mat_mul(C, A, A); }
MF void nmod_poly_mat_truncate(nmod_poly_mat_t A, slong n) { MF_ALL(A) nmod_poly_truncate(MPE(A, i, j), n); }
MF void nmod_poly_mat_set_trunc(nmod_poly_mat_t A, const nmod_poly_mat_t B, slong n) { MFREQ(A->r == B->r && A->c == B->c); MF_ALL(A) nmod_poly_set_trunc(MPE(A, i, j), MPE(B, i, j), n); }
MF void nmod_poly_mat_mullow(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B, slong n) { nmod_poly_mat_mul(C, A, B); nmod_poly_mat_truncate(C, n); }
MF void nmod_poly_mat_shift_left(nmod_poly_mat_t A, const nmod_poly_mat_t B, slong k) { MFREQ(A->r == B->r && A->c == B->c); MF_ALL(A) nmod_poly_shift_left(MPE(A, i, j), MPE(B, i, j), k); }
MF void nmod_poly_mat_shift_right(nmod_poly_mat_t A, const nmod_poly_mat_t B, slong k) { MFREQ(A->r == B->r && A->c == B->c); MF_ALL(A) nmod_poly_shift_right(MPE(A, i, j), MPE(B, i, j), k); }
MF void nmod_poly_mat_get_coeff_mat(nmod_mat_t M, const nmod_poly_mat_t A, slong d) { MFREQ(A->r == M->r && A->c == M->c); MF_ALL(A) MFE(M, i, j) = nmod_poly_get_coeff_ui(MPE(A, i, j), d); }
MF void nmod_poly_mat_set_coeff_mat(nmod_poly_mat_t A, const nmod_mat_t M, slong d) { MFREQ(A->r == M->r && A->c == M->c); MF_ALL(A) nmod_poly_set_coeff_ui(MPE(A, i, j), d, MFE(M, i, j)); }
MF void nmod_poly_mat_evaluate_nmod(nmod_mat_t M, const nmod_poly_mat_t A, ulong x) { MFREQ(A->r == M->r && A->c == M->c && x < A->modulus); MF_ALL(A) MFE(M, i, j) = nmod_poly_evaluate_nmod(MPE(A, i, j), x); }
MF void mf_poly_divexact(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b) { nmod_poly_t r; nmod_poly_init(r, a->mod.n); nmod_poly_divrem(q, r, a, b); if (r->length) mf_contract(__func__, "inexact division"); nmod_poly_clear(r); }
/* fraction-free elimination on T: rank; det when square */
MF slong mf_pm_fflu(nmod_poly_mat_t T, nmod_poly_t det)
{ slong m = T->r, n = T->c, row = 0, sign = 0; ulong md = T->modulus; nmod_poly_t d, u, v; nmod_poly_init(d, md); nmod_poly_init(u, md); nmod_poly_init(v, md); nmod_poly_one(d);
  for (slong col = 0; col < n && row < m; col++) { slong r = row; while (r < m && nmod_poly_is_zero(MPE(T, r, col))) r++; if (r == m) continue; if (r != row) { sign ^= 1; for (slong j = 0; j < n; j++) nmod_poly_swap(MPE(T, r, j), MPE(T, row, j)); }
    for (slong i = row + 1; i < m; i++) { for (slong j = col + 1; j < n; j++) { nmod_poly_mul(u, MPE(T, i, j), MPE(T, row, col)); nmod_poly_mul(v, MPE(T, i, col), MPE(T, row, j)); nmod_poly_sub(u, u, v); mf_poly_divexact(MPE(T, i, j), u, d); } nmod_poly_zero(MPE(T, i, col)); }
    nmod_poly_set(d, MPE(T, row, col)); row++; }
  if (det) { if (m != n) mf_contract(__func__, "square"); if (row < n) nmod_poly_zero(det); else { nmod_poly_set(det, d); if (sign) nmod_poly_neg(det, det); } }
  nmod_poly_clear(d); nmod_poly_clear(u); nmod_poly_clear(v); return row; }
MF void nmod_poly_mat_det(nmod_poly_t det, const nmod_poly_mat_t A) { MFREQ(A->r == A->c); nmod_poly_mat_t T; nmod_poly_mat_init_set(T, A); mf_pm_fflu(T, det); nmod_poly_mat_clear(T); }
MF void nmod_poly_mat_det_fflu(nmod_poly_t det, const nmod_poly_mat_t A) { nmod_poly_mat_det(det, A); }
MF void nmod_poly_mat_det_interpolate(nmod_poly_t det, const nmod_poly_mat_t A) { nmod_poly_mat_det(det, A); }
MF slong nmod_poly_mat_rank(const nmod_poly_mat_t A) { nmod_poly_mat_t T; nmod_poly_mat_init_set(T, A); slong r = mf_pm_fflu(T, NULL); nmod_poly_mat_clear(T); return r; }
MF void nmod_poly_mat_concat_horizontal(nmod_poly_mat_t R, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { MFREQ(A->r == B->r && R->r == A->r && R->c == A->c + B->c); MF_ALL(R) nmod_poly_set(MPE(R, i, j), j < A->c ? MPE(A, i, j) : MPE(B, i, j - A->c)); }
MF void nmod_poly_mat_concat_vertical(nmod_poly_mat_t R, const nmod_poly_mat_t A, const nmod_poly_mat_t B) { MFREQ(A->c == B->c && R->c == A->c && R->r == A->r + B->r); MF_ALL(R) nmod_poly_set(MPE(R, i, j), i < A->r ? MPE(A, i, j) : MPE(B, i - A->r, j)); }
MF void nmod_poly_mat_randtest(nmod_poly_mat_t A, flint_rand_t st, slong len) { MF_ALL(A) nmod_poly_randtest(MPE(A, i, j), st, len); }
MF void nmod_poly_mat_print(const nmod_poly_mat_t A, const char * x) { printf("<%ld x %ld matrix over Z/nZ[%s]>\n[", A->r, A->c, x); for (slong i = 0; i < A->r; i++) { printf("["); for (slong j = 0; j < A->c; j++) { nmod_poly_print_pretty(nmod_poly_mat_entry(A, i, j), x); if (j + 1 < A->c) printf(", "); } printf(i != A->r - 1 ? "],\n" : "]"); } printf("]\n"); }
/* further functions of the documented interface, not used by the unmodified sources */
MF void nmod_poly_mat_trace(nmod_poly_t t, const nmod_poly_mat_t A) { MFREQ(A->r == A->c); nmod_poly_zero(t); for (slong i = 0; i < A->r; i++) nmod_poly_add(t, t, nmod_poly_mat_entry(A, i, i)); }
MF void nmod_poly_mat_pow(nmod_poly_mat_t B, const nmod_poly_mat_t A, ulong e) { MFREQ(A->r == A->c); nmod_poly_mat_t X; nmod_poly_mat_init(X, A->r, A->r, A->modulus); nmod_poly_mat_one(X); for (ulong i = 0; i < e; i++) nmod_poly_mat_mul(X, X, A); nmod_poly_mat_swap(B, X); nmod_poly_mat_clear(X); }

#endif
