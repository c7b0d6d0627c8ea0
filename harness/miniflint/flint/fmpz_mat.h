#ifndef FMPZ_MAT_H
#define FMPZ_MAT_H
#include <flint/fmpz.h>
typedef struct { fmpz * entries; slong r; slong c; slong stride; } fmpz_mat_struct;
typedef fmpz_mat_struct fmpz_mat_t[1];
#define FMPZ_MAT_INLINE static inline
MF fmpz * fmpz_mat_entry(const fmpz_mat_t A, slong i, slong j) { MFREQ(i >= 0 && i < A->r && j >= 0 && j < A->c); return A->entries + i * A->stride + j; }
MF void fmpz_mat_init(fmpz_mat_t A, slong r, slong c) { A->r = r; A->c = c; A->stride = c; A->entries = _fmpz_vec_init(r * c); }
MF void fmpz_mat_clear(fmpz_mat_t A) { _fmpz_vec_clear(A->entries, A->r * A->c); }
MF void fmpz_mat_zero(fmpz_mat_t A) { for (slong i = 0; i < A->r * A->c; i++) fmpz_zero(A->entries + i); }
MF void fmpz_mat_set(fmpz_mat_t A, const fmpz_mat_t B) { MFREQ(A->r == B->r && A->c == B->c); for (slong i = 0; i < A->r * A->c; i++) fmpz_set(A->entries + i, B->entries + i); }
MF void fmpz_mat_swap(fmpz_mat_t A, fmpz_mat_t B) { fmpz_mat_struct t = *A; *A = *B; *B = t; }
MF void fmpz_mat_swap_entrywise(fmpz_mat_t A, fmpz_mat_t B) { MFREQ(A->r == B->r && A->c == B->c); for (slong i = 0; i < A->r * A->c; i++) fmpz_swap(A->entries + i, B->entries + i); }
MF int fmpz_mat_equal(const fmpz_mat_t A, const fmpz_mat_t B) { if (A->r != B->r || A->c != B->c) return 0; for (slong i = 0; i < A->r * A->c; i++) if (!fmpz_equal(A->entries + i, B->entries + i)) return 0; return 1; }
MF int fmpz_mat_is_empty(const fmpz_mat_t A) { return A->r == 0 || A->c == 0; }
/* the bit length of the largest entry, negated when some entry is negative */
MF slong fmpz_mat_max_bits(const fmpz_mat_t A) { slong b = 0, s = 1; for (slong i = 0; i < A->r * A->c; i++) { slong t = (slong) fmpz_bits(A->entries + i); if (fmpz_sgn(A->entries + i) < 0) s = -1; if (t > b) b = t; } return s * b; }
MF void fmpz_mat_mul(fmpz_mat_t C, const fmpz_mat_t A, const fmpz_mat_t B)
{ MFREQ(A->c == B->r && C->r == A->r && C->c == B->c); fmpz_mat_t T; fmpz_mat_init(T, C->r, C->c); for (slong i = 0; i < C->r; i++) for (slong j = 0; j < C->c; j++) for (slong k = 0; k < A->c; k++) fmpz_addmul(fmpz_mat_entry(T, i, j), fmpz_mat_entry(A, i, k), fmpz_mat_entry(B, k, j)); fmpz_mat_swap_entrywise(C, T); fmpz_mat_clear(T); }
MF int fmpz_mat_print_pretty(const fmpz_mat_t A) { printf("["); for (slong i = 0; i < A->r; i++) { printf("["); for (slong j = 0; j < A->c; j++) { if (j) printf(" "); fmpz_print(fmpz_mat_entry(A, i, j)); } printf("]\n"); } printf("]"); return 1; }
#endif
