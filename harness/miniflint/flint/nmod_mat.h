#ifndef NMOD_MAT_H
#define NMOD_MAT_H
#include <flint/flint.h>
#include <flint/nmod_poly.h>
typedef struct { ulong * entries; slong r; slong c; slong stride; nmod_t mod; } nmod_mat_struct;
typedef nmod_mat_struct nmod_mat_t[1];
#define NMOD_MAT_INLINE static inline
#define nmod_mat_entry(mat, i, j) ((mat)->entries[(i) * (mat)->stride + (j)])
#define nmod_mat_entry_ptr(mat, i, j) ((mat)->entries + ((i) * (mat)->stride + (j)))
#define nmod_mat_nrows(mat) ((mat)->r)
#define nmod_mat_ncols(mat) ((mat)->c)
#define MFE(M, i, j) nmod_mat_entry(M, i, j)
#define MF_ALL(M) for (slong i = 0; i < (M)->r; i++) for (slong j = 0; j < (M)->c; j++)
/* entries must be reduced (FLINT's arithmetic relies on it) */
MF void mf_matok(const nmod_mat_t A, const char * f) { MF_ALL(A) if (MFE(A, i, j) >= A->mod.n) mf_contract(f, "operand with a non-reduced entry"); }
#define MFM(A) mf_matok(A, __func__)
MF void nmod_mat_init(nmod_mat_t A, slong r, slong c, ulong n) { MFREQ(r >= 0 && c >= 0); A->entries = r && c ? (ulong *) flint_calloc(r * c, sizeof(ulong)) : NULL; A->r = r; A->c = c; A->stride = c; nmod_init(&A->mod, n); }
MF void nmod_mat_set(nmod_mat_t A, const nmod_mat_t B) { MFREQ(A->r == B->r && A->c == B->c); if (A != B) MF_ALL(A) MFE(A, i, j) = MFE(B, i, j); }
MF void nmod_mat_init_set(nmod_mat_t A, const nmod_mat_t B) { nmod_mat_init(A, B->r, B->c, B->mod.n); nmod_mat_set(A, B); }
MF void nmod_mat_clear(nmod_mat_t A) { free(A->entries); A->entries = NULL; }
MF ulong nmod_mat_get_entry(const nmod_mat_t A, slong i, slong j) { MFREQ(i >= 0 && i < A->r && j >= 0 && j < A->c); return MFE(A, i, j); }
MF void nmod_mat_set_entry(nmod_mat_t A, slong i, slong j, ulong x) { MFREQ(i >= 0 && i < A->r && j >= 0 && j < A->c); MFE(A, i, j) = x; }
MF void nmod_mat_zero(nmod_mat_t A) { MF_ALL(A) MFE(A, i, j) = 0; }
MF void nmod_mat_one(nmod_mat_t A) { MF_ALL(A) MFE(A, i, j) = i == j ? 1 % A->mod.n : 0; }
MF void nmod_mat_swap(nmod_mat_t A, nmod_mat_t B) { nmod_mat_struct t = *A; *A = *B; *B = t; }
MF void nmod_mat_swap_entrywise(nmod_mat_t A, nmod_mat_t B) { MFREQ(A->r == B->r && A->c == B->c); MF_ALL(A) { ulong t = MFE(A, i, j); MFE(A, i, j) = MFE(B, i, j); MFE(B, i, j) = t; } }
MF void nmod_mat_set_mod(nmod_mat_t A, ulong n) { nmod_init(&A->mod, n); }
MF int nmod_mat_is_zero(const nmod_mat_t A) { MF_ALL(A) if (MFE(A, i, j)) return 0; return 1; }
MF int nmod_mat_is_one(const nmod_mat_t A) { if (A->mod.n == 1) return 1; MF_ALL(A) if (MFE(A, i, j) != (ulong) (i == j)) return 0; return 1; }
MF int nmod_mat_is_zero_row(const nmod_mat_t A, slong i) { MFREQ(i >= 0 && i < A->r); for (slong j = 0; j < A->c; j++) if (MFE(A, i, j)) return 0; return 1; }
MF int nmod_mat_is_empty(const nmod_mat_t A) { return A->r == 0 || A->c == 0; }
MF int nmod_mat_is_square(const nmod_mat_t A) { return A->r == A->c; }
MF int nmod_mat_equal(const nmod_mat_t A, const nmod_mat_t B) { if (A->r != B->r || A->c != B->c) return 0; MF_ALL(A) if (MFE(A, i, j) != MFE(B, i, j)) return 0; return 1; }
MF void nmod_mat_window_init(nmod_mat_t W, const nmod_mat_t A, slong r1, slong c1, slong r2, slong c2)
{ MFREQ(0 <= r1 && r1 <= r2 && r2 <= A->r && 0 <= c1 && c1 <= c2 && c2 <= A->c); W->entries = A->entries ? nmod_mat_entry_ptr(A, r1, c1) : NULL; W->r = r2 - r1; W->c = c2 - c1; W->stride = A->stride; W->mod = A->mod; }
MF void nmod_mat_window_clear(nmod_mat_t W) { (void) W; }
MF void nmod_mat_transpose(nmod_mat_t B, const nmod_mat_t A)
{ MFREQ(B->r == A->c && B->c == A->r); if (A == B) { for (slong i = 0; i < A->r; i++) for (slong j = 0; j < i; j++) { ulong t = MFE(B, i, j); MFE(B, i, j) = MFE(B, j, i); MFE(B, j, i) = t; } } else MF_ALL(A) MFE(B, j, i) = MFE(A, i, j); }
MF void nmod_mat_add(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { MFREQ(A->r == B->r && A->c == B->c && C->r == A->r && C->c == A->c); MFM(A); MFM(B); MF_ALL(C) MFE(C, i, j) = nmod_add(MFE(A, i, j), MFE(B, i, j), C->mod); }
MF void nmod_mat_sub(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { MFREQ(A->r == B->r && A->c == B->c && C->r == A->r && C->c == A->c); MFM(A); MFM(B); MF_ALL(C) MFE(C, i, j) = nmod_sub(MFE(A, i, j), MFE(B, i, j), C->mod); }
MF void nmod_mat_neg(nmod_mat_t C, const nmod_mat_t A) { MFREQ(C->r == A->r && C->c == A->c); MFM(A); MF_ALL(C) MFE(C, i, j) = nmod_neg(MFE(A, i, j), C->mod); }
MF void nmod_mat_scalar_mul(nmod_mat_t C, const nmod_mat_t A, ulong c) { MFREQ(C->r == A->r && C->c == A->c && c < A->mod.n); MFM(A); MF_ALL(C) MFE(C, i, j) = nmod_mul(MFE(A, i, j), c, C->mod); }
/* dest = X + b*Y */
MF void nmod_mat_scalar_addmul_ui(nmod_mat_t C, const nmod_mat_t X, const nmod_mat_t Y, ulong b) { MFREQ(C->r == X->r && C->c == X->c && C->r == Y->r && C->c == Y->c && b < C->mod.n); MFM(X); MFM(Y); MF_ALL(C) MFE(C, i, j) = nmod_add(MFE(X, i, j), nmod_mul(b, MFE(Y, i, j), C->mod), C->mod); }
MF void nmod_mat_mul(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B)
{ MFREQ(A->c == B->r && C->r == A->r && C->c == B->c && A->mod.n == B->mod.n && A->mod.n == C->mod.n); MFM(A); MFM(B); nmod_mat_t T; nmod_mat_init(T, A->r, B->c, A->mod.n);
  MF_ALL(T) { ulong s = 0; for (slong k = 0; k < A->c; k++) s = nmod_add(s, nmod_mul(MFE(A, i, k), MFE(B, k, j), A->mod), A->mod); MFE(T, i, j) = s; } nmod_mat_set(C, T); nmod_mat_clear(T); }
MF void nmod_mat_mul_classical(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { nmod_mat_mul(C, A, B); }
MF void nmod_mat_mul_strassen(nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { nmod_mat_mul(C, A, B); }
MF void nmod_mat_addmul(nmod_mat_t D, const nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { nmod_mat_t T; nmod_mat_init(T, A->r, B->c, A->mod.n); nmod_mat_mul(T, A, B); nmod_mat_add(D, C, T); nmod_mat_clear(T); }
MF void nmod_mat_submul(nmod_mat_t D, const nmod_mat_t C, const nmod_mat_t A, const nmod_mat_t B) { nmod_mat_t T; nmod_mat_init(T, A->r, B->c, A->mod.n); nmod_mat_mul(T, A, B); nmod_mat_sub(D, C, T); nmod_mat_clear(T); }
MF void nmod_mat_mul_nmod_vec(ulong * c, const nmod_mat_t A, const ulong * b, slong len) { slong n = FLINT_MIN(A->c, len); for (slong i = 0; i < A->r; i++) { ulong s = 0; for (slong j = 0; j < n; j++) s = nmod_add(s, nmod_mul(MFE(A, i, j), b[j], A->mod), A->mod); c[i] = s; } }
MF void nmod_mat_nmod_vec_mul(ulong * c, const ulong * a, slong len, const nmod_mat_t B) { slong n = FLINT_MIN(B->r, len); for (slong j = 0; j < B->c; j++) { ulong s = 0; for (slong i = 0; i < n; i++) s = nmod_add(s, nmod_mul(a[i], MFE(B, i, j), B->mod), B->mod); c[j] = s; } }
MF void nmod_mat_swap_rows(nmod_mat_t A, slong * perm, slong r, slong s) { if (r == s) return; MFREQ(r >= 0 && r < A->r && s >= 0 && s < A->r); if (perm) { slong t = perm[r]; perm[r] = perm[s]; perm[s] = t; } for (slong j = 0; j < A->c; j++) { ulong t = MFE(A, r, j); MFE(A, r, j) = MFE(A, s, j); MFE(A, s, j) = t; } }
MF void nmod_mat_swap_cols(nmod_mat_t A, slong * perm, slong r, slong s) { if (r == s) return; MFREQ(r >= 0 && r < A->c && s >= 0 && s < A->c); if (perm) { slong t = perm[r]; perm[r] = perm[s]; perm[s] = t; } for (slong i = 0; i < A->r; i++) { ulong t = MFE(A, i, r); MFE(A, i, r) = MFE(A, i, s); MFE(A, i, s) = t; } }
MF void nmod_mat_invert_rows(nmod_mat_t A, slong * perm) { for (slong i = 0; i < A->r / 2; i++) nmod_mat_swap_rows(A, perm, i, A->r - 1 - i); }
MF void nmod_mat_invert_cols(nmod_mat_t A, slong * perm) { for (slong i = 0; i < A->c / 2; i++) nmod_mat_swap_cols(A, perm, i, A->c - 1 - i); }
/* row i of the result is row perm_act[i] of the operand; perm_store is composed likewise */
MF void nmod_mat_permute_rows(nmod_mat_t A, const slong * act, slong * store)
{ if (A->r == 0) return; nmod_mat_t T; nmod_mat_init(T, A->r, A->c, A->mod.n); MF_ALL(A) { MFREQ(act[i] >= 0 && act[i] < A->r); MFE(T, i, j) = MFE(A, act[i], j); } nmod_mat_set(A, T); nmod_mat_clear(T); if (store) _perm_compose(store, store, act, A->r); }
/* rows permuted (P[i] = original index), unit lower factor below the pivots, rank returned; rank_check: give up with 0 */
MF slong nmod_mat_lu(slong * P, nmod_mat_t A, int rank_check)
{ MFM(A); slong m = A->r, n = A->c, row = 0, col = 0; for (slong i = 0; i < m; i++) P[i] = i;
  while (row < m && col < n) { slong r = row; while (r < m && MFE(A, r, col) == 0) r++; if (r == m) { if (rank_check) return 0; col++; continue; }
    nmod_mat_swap_rows(A, P, r, row); ulong d = nmod_inv(MFE(A, row, col), A->mod); slong rank = row + 1;
    for (slong i = row + 1; i < m; i++) { ulong e = nmod_mul(MFE(A, i, col), d, A->mod); for (slong j = col + 1; j < n; j++) MFE(A, i, j) = nmod_sub(MFE(A, i, j), nmod_mul(e, MFE(A, row, j), A->mod), A->mod); MFE(A, i, col) = 0; MFE(A, i, rank - 1) = e; }
    row++; col++; }
  return row; }
MF slong nmod_mat_lu_classical(slong * P, nmod_mat_t A, int rc) { return nmod_mat_lu(P, A, rc); }
MF slong nmod_mat_rref(nmod_mat_t A)
{ MFM(A); slong row = 0; for (slong col = 0; col < A->c && row < A->r; col++) { slong r = row; while (r < A->r && MFE(A, r, col) == 0) r++; if (r == A->r) continue; nmod_mat_swap_rows(A, NULL, r, row); ulong d = nmod_inv(MFE(A, row, col), A->mod); for (slong j = col; j < A->c; j++) MFE(A, row, j) = nmod_mul(MFE(A, row, j), d, A->mod);
    for (slong i = 0; i < A->r; i++) if (i != row && MFE(A, i, col)) { ulong e = MFE(A, i, col); for (slong j = col; j < A->c; j++) MFE(A, i, j) = nmod_sub(MFE(A, i, j), nmod_mul(e, MFE(A, row, j), A->mod), A->mod); } row++; } return row; }
MF slong nmod_mat_rank(const nmod_mat_t A) { nmod_mat_t T; nmod_mat_init_set(T, A); slong r = nmod_mat_rref(T); nmod_mat_clear(T); return r; }
/* columns of X: the basis of the right nullspace read off the reduced row echelon form; returns the nullity */
MF slong nmod_mat_nullspace(nmod_mat_t X, const nmod_mat_t A)
{ nmod_mat_t T; nmod_mat_init_set(T, A); slong n = A->c, rank = nmod_mat_rref(T), k = n - rank; MFREQ(X->r == n && X->c >= k); nmod_mat_zero(X); slong * piv = (slong *) flint_malloc((n + 1) * sizeof(slong)); char * isp = (char *) flint_calloc(n + 1, 1);
  for (slong i = 0; i < rank; i++) { slong j = 0; while (MFE(T, i, j) == 0) j++; piv[i] = j; isp[j] = 1; } slong q = 0;
  for (slong j = 0; j < n; j++) if (!isp[j]) { for (slong i = 0; i < rank; i++) MFE(X, piv[i], q) = nmod_neg(MFE(T, i, j), A->mod); MFE(X, j, q) = 1 % A->mod.n; q++; }
  flint_free(piv); flint_free(isp); nmod_mat_clear(T); return k; }
MF ulong nmod_mat_det(const nmod_mat_t A)
{ MFREQ(A->r == A->c); nmod_mat_t T; nmod_mat_init_set(T, A); slong * P = (slong *) flint_malloc((A->r + 1) * sizeof(slong)); slong r = nmod_mat_lu(P, T, 1); ulong d = 1 % A->mod.n; if (A->r && r < A->r) d = 0; else { for (slong i = 0; i < A->r; i++) d = nmod_mul(d, MFE(T, i, i), A->mod); if (_perm_parity(P, A->r)) d = nmod_neg(d, A->mod); } flint_free(P); nmod_mat_clear(T); return d; }
MF ulong nmod_mat_trace(const nmod_mat_t A) { ulong s = 0; for (slong i = 0; i < A->r; i++) s = nmod_add(s, MFE(A, i, i), A->mod); return s; }
MF int nmod_mat_inv(nmod_mat_t B, const nmod_mat_t A)
{ MFREQ(A->r == A->c && B->r == A->r && B->c == A->c); slong n = A->r; nmod_mat_t T; nmod_mat_init(T, n, 2 * n, A->mod.n); MF_ALL(A) MFE(T, i, j) = MFE(A, i, j); for (slong i = 0; i < n; i++) MFE(T, i, n + i) = 1 % A->mod.n; nmod_mat_rref(T); int ok = 1; for (slong i = 0; i < n; i++) if (MFE(T, i, i) != 1) ok = 0; if (ok) MF_ALL(B) MFE(B, i, j) = MFE(T, i, n + j); nmod_mat_clear(T); return ok; }
MF int nmod_mat_solve(nmod_mat_t X, const nmod_mat_t A, const nmod_mat_t B) { nmod_mat_t I; nmod_mat_init(I, A->r, A->r, A->mod.n); int ok = nmod_mat_inv(I, A); if (ok) nmod_mat_mul(X, I, B); nmod_mat_clear(I); return ok; }
MF void nmod_mat_solve_tril(nmod_mat_t X, const nmod_mat_t L, const nmod_mat_t B, int unit)
{ MFREQ(L->r == L->c && B->r == L->r && X->r == B->r && X->c == B->c); for (slong c = 0; c < B->c; c++) for (slong i = 0; i < L->r; i++) { ulong s = MFE(B, i, c); for (slong k = 0; k < i; k++) s = nmod_sub(s, nmod_mul(MFE(L, i, k), MFE(X, k, c), L->mod), L->mod); MFE(X, i, c) = unit ? s : nmod_div(s, MFE(L, i, i), L->mod); } }
MF void nmod_mat_solve_triu(nmod_mat_t X, const nmod_mat_t U, const nmod_mat_t B, int unit)
{ MFREQ(U->r == U->c && B->r == U->r && X->r == B->r && X->c == B->c); for (slong c = 0; c < B->c; c++) for (slong i = U->r - 1; i >= 0; i--) { ulong s = MFE(B, i, c); for (slong k = i + 1; k < U->r; k++) s = nmod_sub(s, nmod_mul(MFE(U, i, k), MFE(X, k, c), U->mod), U->mod); MFE(X, i, c) = unit ? s : nmod_div(s, MFE(U, i, i), U->mod); } }
MF void nmod_mat_concat_horizontal(nmod_mat_t R, const nmod_mat_t A, const nmod_mat_t B) { MFREQ(A->r == B->r && R->r == A->r && R->c == A->c + B->c); MF_ALL(R) MFE(R, i, j) = j < A->c ? MFE(A, i, j) : MFE(B, i, j - A->c); }
MF void nmod_mat_concat_vertical(nmod_mat_t R, const nmod_mat_t A, const nmod_mat_t B) { MFREQ(A->c == B->c && R->c == A->c && R->r == A->r + B->r); MF_ALL(R) MFE(R, i, j) = i < A->r ? MFE(A, i, j) : MFE(B, i - A->r, j); }
MF void nmod_mat_randtest(nmod_mat_t A, flint_rand_t st) { MF_ALL(A) MFE(A, i, j) = n_randint(st, 3) ? n_randint(st, A->mod.n) : n_randint(st, 2) % A->mod.n; }
MF void nmod_mat_randfull(nmod_mat_t A, flint_rand_t st) { MF_ALL(A) MFE(A, i, j) = A->mod.n == 1 ? 0 : 1 + n_randint(st, A->mod.n - 1); }
MF void nmod_mat_randrank(nmod_mat_t A, flint_rand_t st, slong rank) { MFREQ(rank >= 0 && rank <= A->r && rank <= A->c); nmod_mat_zero(A); for (slong i = 0; i < rank; i++) MFE(A, i, i) = 1 + n_randint(st, A->mod.n - 1); }
/* random row and column additions (or subtractions) */
MF void nmod_mat_randops(nmod_mat_t A, flint_rand_t st, slong count)
{ if (A->r == 0 || A->c == 0) return; for (slong k = 0; k < count; k++) { int sub = (int) n_randint(st, 2);
    if (n_randint(st, 2)) { slong i = (slong) n_randint(st, A->r), j = (slong) n_randint(st, A->r); if (i != j) for (slong c = 0; c < A->c; c++) MFE(A, j, c) = sub ? nmod_sub(MFE(A, j, c), MFE(A, i, c), A->mod) : nmod_add(MFE(A, j, c), MFE(A, i, c), A->mod); }
    else { slong i = (slong) n_randint(st, A->c), j = (slong) n_randint(st, A->c); if (i != j) for (slong r = 0; r < A->r; r++) MFE(A, r, j) = sub ? nmod_sub(MFE(A, r, j), MFE(A, r, i), A->mod) : nmod_add(MFE(A, r, j), MFE(A, r, i), A->mod); } } }
MF void nmod_mat_print_pretty(const nmod_mat_t A) { printf("<%ld x %ld integer matrix mod %lu>\n", A->r, A->c, A->mod.n); if (!A->r || !A->c) return; char b[32]; int w = snprintf(b, 32, "%lu", A->mod.n); for (slong i = 0; i < A->r; i++) { printf("["); for (slong j = 0; j < A->c; j++) printf(j + 1 < A->c ? "%*lu " : "%*lu", w, MFE(A, i, j)); printf("]\n"); } }
MF void nmod_mat_print(const nmod_mat_t A) { nmod_mat_print_pretty(A); }
/* further functions of the documented interface, not used by the unmodified sources */
MF void nmod_mat_pow(nmod_mat_t B, const nmod_mat_t A, ulong e) { MFREQ(A->r == A->c); nmod_mat_t X; nmod_mat_init(X, A->r, A->r, A->mod.n); nmod_mat_one(X); for (ulong i = 0; i < e; i++) nmod_mat_mul(X, X, A); nmod_mat_swap(B, X); nmod_mat_clear(X); }
MF void nmod_mat_set_ui(nmod_mat_t A, ulong c) { nmod_mat_zero(A); for (slong i = 0; i < A->r && i < A->c; i++) MFE(A, i, i) = c; }

#endif
