#ifndef NMOD_POLY_H
#define NMOD_POLY_H
#include <flint/flint.h>
typedef struct { nn_ptr coeffs; slong alloc; slong length; nmod_t mod; } nmod_poly_struct;
typedef nmod_poly_struct nmod_poly_t[1];
#define NMOD_POLY_INLINE static inline
/* invariants that FLINT maintains: length <= alloc, nonzero leading coefficient, reduced coefficients */
MF void mf_polyok(const nmod_poly_t a, const char * f)
{ if (a->length < 0 || a->length > a->alloc) mf_contract(f, "0 <= length <= alloc"); if (a->length && a->coeffs[a->length - 1] == 0) mf_contract(f, "operand is not normalised"); for (slong i = 0; i < a->length; i++) if (a->coeffs[i] >= a->mod.n) mf_contract(f, "operand is not reduced"); }
#define MFP(a) mf_polyok(a, __func__)
MF void nmod_poly_init_mod(nmod_poly_t a, nmod_t mod) { a->coeffs = NULL; a->alloc = a->length = 0; a->mod = mod; }
MF void nmod_poly_init(nmod_poly_t a, ulong n) { nmod_t m; nmod_init(&m, n); nmod_poly_init_mod(a, m); }
MF void nmod_poly_init_preinv(nmod_poly_t a, ulong n, ulong ninv) { (void) ninv; nmod_poly_init(a, n); }
MF void nmod_poly_realloc(nmod_poly_t a, slong n) { if (n == 0) { free(a->coeffs); a->coeffs = NULL; a->length = 0; } else { a->coeffs = (nn_ptr) flint_realloc(a->coeffs, n * sizeof(ulong)); if (a->length > n) a->length = n; } a->alloc = n; while (a->length && a->coeffs[a->length - 1] == 0) a->length--; }
MF void nmod_poly_fit_length(nmod_poly_t a, slong n) { if (n > a->alloc) { a->coeffs = (nn_ptr) flint_realloc(a->coeffs, n * sizeof(ulong)); a->alloc = n; } }
MF void nmod_poly_init2(nmod_poly_t a, ulong n, slong al) { nmod_poly_init(a, n); nmod_poly_fit_length(a, al); }
MF void nmod_poly_init2_preinv(nmod_poly_t a, ulong n, ulong ni, slong al) { (void) ni; nmod_poly_init2(a, n, al); }
MF void nmod_poly_clear(nmod_poly_t a) { free(a->coeffs); a->coeffs = NULL; a->alloc = a->length = 0; }
MF void _nmod_poly_set_length(nmod_poly_t a, slong n) { MFREQ(n >= 0 && n <= a->alloc); a->length = n; }
MF void _nmod_poly_normalise(nmod_poly_t a) { while (a->length && a->coeffs[a->length - 1] == 0) a->length--; }
MF slong nmod_poly_length(const nmod_poly_t a) { return a->length; }
MF slong nmod_poly_degree(const nmod_poly_t a) { return a->length - 1; }
MF ulong nmod_poly_modulus(const nmod_poly_t a) { return a->mod.n; }
MF int nmod_poly_is_zero(const nmod_poly_t a) { return a->length == 0; }
MF int nmod_poly_is_one(const nmod_poly_t a) { return a->mod.n == 1 || (a->length == 1 && a->coeffs[0] == 1); }
MF int nmod_poly_is_unit(const nmod_poly_t a) { return a->length == 1; }
MF int nmod_poly_is_monic(const nmod_poly_t a) { return a->length && a->coeffs[a->length - 1] == 1; }
MF int nmod_poly_is_gen(const nmod_poly_t a) { return a->length == 2 && a->coeffs[1] == 1 && a->coeffs[0] == 0; }
MF void nmod_poly_zero(nmod_poly_t a) { a->length = 0; }
MF void nmod_poly_one(nmod_poly_t a) { nmod_poly_fit_length(a, 1); a->coeffs[0] = 1 % a->mod.n; a->length = a->mod.n != 1; }
MF ulong nmod_poly_get_coeff_ui(const nmod_poly_t a, slong i) { MFREQ(i >= 0); return i < a->length ? a->coeffs[i] : 0; }
MF ulong nmod_poly_lead(const nmod_poly_t a) { return a->length ? a->coeffs[a->length - 1] : 0; }
MF ulong * nmod_poly_leadptr(const nmod_poly_t a) { return a->length ? a->coeffs + a->length - 1 : NULL; }
MF void nmod_poly_set_coeff_ui(nmod_poly_t a, slong i, ulong c) { MFREQ(i >= 0); c %= a->mod.n; nmod_poly_fit_length(a, i + 1); for (slong k = a->length; k <= i; k++) a->coeffs[k] = 0; if (i + 1 > a->length) a->length = i + 1; a->coeffs[i] = c; _nmod_poly_normalise(a); }
MF void nmod_poly_set(nmod_poly_t a, const nmod_poly_t b) { if (a == b) return; nmod_poly_fit_length(a, b->length); _nmod_vec_set(a->coeffs, b->coeffs, b->length); a->length = b->length; }
MF void nmod_poly_swap(nmod_poly_t a, nmod_poly_t b) { nmod_poly_struct t = *a; *a = *b; *b = t; }
MF int nmod_poly_equal(const nmod_poly_t a, const nmod_poly_t b) { return a->length == b->length && _nmod_vec_equal(a->coeffs, b->coeffs, a->length); }
MF void nmod_poly_truncate(nmod_poly_t a, slong n) { if (n < 0) n = 0; if (a->length > n) { a->length = n; _nmod_poly_normalise(a); } }
MF void nmod_poly_set_trunc(nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_set(a, b); nmod_poly_truncate(a, n); }
MF void mf_psame(const nmod_poly_t a, const nmod_poly_t b, const char * f) { if (a->mod.n != b->mod.n) mf_contract(f, "operands with different moduli"); }
MF void nmod_poly_add(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b)
{ MFP(a); MFP(b); mf_psame(a, b, __func__); slong la = a->length, lb = b->length, m = FLINT_MAX(la, lb); nmod_poly_fit_length(r, m); for (slong i = 0; i < m; i++) r->coeffs[i] = nmod_add(i < la ? a->coeffs[i] : 0, i < lb ? b->coeffs[i] : 0, r->mod); r->length = m; _nmod_poly_normalise(r); }
MF void nmod_poly_sub(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b)
{ MFP(a); MFP(b); mf_psame(a, b, __func__); slong la = a->length, lb = b->length, m = FLINT_MAX(la, lb); nmod_poly_fit_length(r, m); for (slong i = 0; i < m; i++) r->coeffs[i] = nmod_sub(i < la ? a->coeffs[i] : 0, i < lb ? b->coeffs[i] : 0, r->mod); r->length = m; _nmod_poly_normalise(r); }
MF void nmod_poly_add_series(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_add(r, a, b); nmod_poly_truncate(r, n); }
MF void nmod_poly_sub_series(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_sub(r, a, b); nmod_poly_truncate(r, n); }
MF void nmod_poly_neg(nmod_poly_t r, const nmod_poly_t a) { MFP(a); nmod_poly_set(r, a); for (slong i = 0; i < r->length; i++) r->coeffs[i] = nmod_neg(r->coeffs[i], r->mod); }
MF void nmod_poly_scalar_mul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c) { MFP(a); MFREQ(c < a->mod.n); nmod_poly_set(r, a); for (slong i = 0; i < r->length; i++) r->coeffs[i] = nmod_mul(r->coeffs[i], c, r->mod); _nmod_poly_normalise(r); }
MF void nmod_poly_scalar_addmul_nmod(nmod_poly_t r, const nmod_poly_t a, ulong c) { nmod_poly_t t; nmod_poly_init(t, a->mod.n); nmod_poly_scalar_mul_nmod(t, a, c); nmod_poly_add(r, r, t); nmod_poly_clear(t); }
MF void nmod_poly_mul(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b)
{ MFP(a); MFP(b); mf_psame(a, b, __func__); nmod_poly_t t; nmod_poly_init(t, a->mod.n); if (a->length && b->length) { slong n = a->length + b->length - 1; nmod_poly_fit_length(t, n); _nmod_vec_zero(t->coeffs, n); for (slong i = 0; i < a->length; i++) for (slong j = 0; j < b->length; j++) t->coeffs[i + j] = nmod_add(t->coeffs[i + j], nmod_mul(a->coeffs[i], b->coeffs[j], a->mod), a->mod); t->length = n; _nmod_poly_normalise(t); } nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF void nmod_poly_mullow(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_mul(r, a, b); nmod_poly_truncate(r, n); }
MF void nmod_poly_pow(nmod_poly_t r, const nmod_poly_t a, ulong e) { nmod_poly_t t; nmod_poly_init(t, a->mod.n); nmod_poly_one(t); while (e--) nmod_poly_mul(t, t, a); nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF void nmod_poly_shift_left(nmod_poly_t r, const nmod_poly_t a, slong k) { MFREQ(k >= 0); nmod_poly_t t; nmod_poly_init(t, a->mod.n); if (a->length) { nmod_poly_fit_length(t, a->length + k); _nmod_vec_zero(t->coeffs, k); _nmod_vec_set(t->coeffs + k, a->coeffs, a->length); t->length = a->length + k; } nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF void nmod_poly_shift_right(nmod_poly_t r, const nmod_poly_t a, slong k) { MFREQ(k >= 0); nmod_poly_t t; nmod_poly_init(t, a->mod.n); if (a->length > k) { nmod_poly_fit_length(t, a->length - k); _nmod_vec_set(t->coeffs, a->coeffs + k, a->length - k); t->length = a->length - k; } nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF void _nmod_poly_reverse(nn_ptr r, nn_srcptr a, slong len, slong n)
{ MFREQ(len <= n || len == n || n >= 0); nn_ptr t = _nmod_vec_init(n); for (slong i = 0; i < n; i++) t[i] = n - 1 - i < len ? a[n - 1 - i] : 0; _nmod_vec_set(r, t, n); _nmod_vec_clear(t); }
MF void nmod_poly_reverse(nmod_poly_t r, const nmod_poly_t a, slong n) { nmod_poly_t t; nmod_poly_init(t, a->mod.n); nmod_poly_fit_length(t, n); _nmod_poly_reverse(t->coeffs, a->coeffs, a->length, n); t->length = n; _nmod_poly_normalise(t); nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF ulong nmod_poly_evaluate_nmod(const nmod_poly_t a, ulong c) { ulong r = 0; for (slong i = a->length - 1; i >= 0; i--) r = nmod_add(nmod_mul(r, c, a->mod), a->coeffs[i], a->mod); return r; }
MF void nmod_poly_divrem(nmod_poly_t q, nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b)
{ MFP(a); MFP(b); if (b->length == 0) flint_throw(FLINT_DIVZERO, "nmod_poly_divrem: division by zero\n"); MFREQ(q != r); ulong inv = nmod_inv(b->coeffs[b->length - 1], b->mod); nmod_poly_t Q, R; nmod_poly_init(Q, a->mod.n); nmod_poly_init(R, a->mod.n); nmod_poly_set(R, a); slong lb = b->length;
  if (a->length >= lb) { slong lq = a->length - lb + 1; nmod_poly_fit_length(Q, lq); for (slong k = lq - 1; k >= 0; k--) { ulong c = nmod_mul(R->coeffs[k + lb - 1], inv, a->mod); Q->coeffs[k] = c; for (slong i = 0; i < lb; i++) R->coeffs[k + i] = nmod_sub(R->coeffs[k + i], nmod_mul(c, b->coeffs[i], a->mod), a->mod); } Q->length = lq; _nmod_poly_normalise(Q); R->length = lb - 1; _nmod_poly_normalise(R); }
  nmod_poly_swap(q, Q); nmod_poly_swap(r, R); nmod_poly_clear(Q); nmod_poly_clear(R); }
MF void nmod_poly_div(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b) { nmod_poly_t r; nmod_poly_init(r, a->mod.n); nmod_poly_divrem(q, r, a, b); nmod_poly_clear(r); }
MF void nmod_poly_rem(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b) { nmod_poly_t q; nmod_poly_init(q, a->mod.n); nmod_poly_divrem(q, r, a, b); nmod_poly_clear(q); }
/* returns whether b divides a, sets q to the quotient (zero when it does not divide) */
MF int nmod_poly_divides(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b)
{ if (b->length == 0) { if (a->length == 0) { nmod_poly_zero(q); return 1; } nmod_poly_zero(q); return 0; } nmod_poly_t r, Q; nmod_poly_init(r, a->mod.n); nmod_poly_init(Q, a->mod.n); nmod_poly_divrem(Q, r, a, b); int ok = nmod_poly_is_zero(r); if (!ok) nmod_poly_zero(Q); nmod_poly_swap(q, Q); nmod_poly_clear(r); nmod_poly_clear(Q); return ok; }
MF void nmod_poly_make_monic(nmod_poly_t r, const nmod_poly_t a) { if (a->length == 0) flint_throw(FLINT_DIVZERO, "nmod_poly_make_monic\n"); nmod_poly_scalar_mul_nmod(r, a, nmod_inv(a->coeffs[a->length - 1], a->mod)); }
/* G = S*A + T*B monic, deg S < deg(B/G), deg T < deg(A/G), with FLINT's conventions on the degenerate cases */
MF void nmod_poly_xgcd(nmod_poly_t G, nmod_poly_t S, nmod_poly_t T, const nmod_poly_t A, const nmod_poly_t B)
{ ulong n = A->mod.n;
  if (A->length < B->length) { nmod_poly_xgcd(G, T, S, B, A); return; }
  nmod_poly_t r0, r1, s0, s1, t0, t1, q, u; nmod_poly_init(r0, n); nmod_poly_init(r1, n); nmod_poly_init(s0, n); nmod_poly_init(s1, n); nmod_poly_init(t0, n); nmod_poly_init(t1, n); nmod_poly_init(q, n); nmod_poly_init(u, n);
  nmod_poly_set(r0, A); nmod_poly_set(r1, B); nmod_poly_one(s0); nmod_poly_one(t1);
  while (r1->length) { nmod_poly_divrem(q, u, r0, r1); nmod_poly_swap(r0, r1); nmod_poly_swap(r1, u); nmod_poly_mul(u, q, s1); nmod_poly_sub(u, s0, u); nmod_poly_swap(s0, s1); nmod_poly_swap(s1, u); nmod_poly_mul(u, q, t1); nmod_poly_sub(u, t0, u); nmod_poly_swap(t0, t1); nmod_poly_swap(t1, u); }
  if (r0->length == 0) { nmod_poly_zero(s0); nmod_poly_zero(t0); } else { ulong inv = nmod_inv(r0->coeffs[r0->length - 1], r0->mod); nmod_poly_scalar_mul_nmod(r0, r0, inv); nmod_poly_scalar_mul_nmod(s0, s0, inv); nmod_poly_scalar_mul_nmod(t0, t0, inv); }
  nmod_poly_swap(G, r0); nmod_poly_swap(S, s0); nmod_poly_swap(T, t0);
  nmod_poly_clear(r0); nmod_poly_clear(r1); nmod_poly_clear(s0); nmod_poly_clear(s1); nmod_poly_clear(t0); nmod_poly_clear(t1); nmod_poly_clear(q); nmod_poly_clear(u); }
MF void nmod_poly_gcd(nmod_poly_t G, const nmod_poly_t A, const nmod_poly_t B) { nmod_poly_t s, t; nmod_poly_init(s, A->mod.n); nmod_poly_init(t, A->mod.n); nmod_poly_xgcd(G, s, t, A, B); nmod_poly_clear(s); nmod_poly_clear(t); }
MF void nmod_poly_randtest(nmod_poly_t a, flint_rand_t st, slong len) { nmod_poly_fit_length(a, len); _nmod_vec_randtest(a->coeffs, st, len, a->mod); a->length = len; _nmod_poly_normalise(a); }
MF int nmod_poly_print_pretty(const nmod_poly_t a, const char * x)
{ MFP(a); if (a->length == 0) { printf("0"); return 1; } int first = 1; for (slong k = a->length - 1; k >= 0; k--) { ulong v = a->coeffs[k]; if (!v) continue; if (!first) printf("+"); first = 0;
    if (k == 0) printf("%lu", v); else { if (v != 1) printf("%lu*", v); if (k == 1) printf("%s", x); else printf("%s^%ld", x, k); } } return 1; }
MF int nmod_poly_print(const nmod_poly_t a) { MFP(a); printf("%ld %lu", a->length, a->mod.n); if (a->length == 0) printf(" "); for (slong k = 0; k < a->length; k++) printf(" %lu", a->coeffs[k]); return 1; }

/* further functions of the documented interface, not used by the unmodified sources */
MF void nmod_poly_sqr(nmod_poly_t r, const nmod_poly_t a) { nmod_poly_mul(r, a, a); }
MF void nmod_poly_mulhigh(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, slong n) { nmod_poly_mul(r, a, b); for (slong i = 0; i < n && i < r->length; i++) r->coeffs[i] = 0; _nmod_poly_normalise(r); }
MF void nmod_poly_derivative(nmod_poly_t r, const nmod_poly_t a) { MFP(a); nmod_poly_t t; nmod_poly_init(t, a->mod.n); for (slong i = 1; i < a->length; i++) nmod_poly_set_coeff_ui(t, i - 1, nmod_mul(a->coeffs[i], (ulong) i % a->mod.n, a->mod)); nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF void nmod_poly_div_series(nmod_poly_t q, const nmod_poly_t a, const nmod_poly_t b, slong n)
{ MFP(a); MFP(b); MFREQ(n == 0 || (b->length > 0 && b->coeffs[0] != 0)); nmod_poly_t t; nmod_poly_init(t, a->mod.n); ulong inv = n ? nmod_inv(b->coeffs[0], b->mod) : 0;
  for (slong i = 0; i < n; i++) { ulong c = nmod_poly_get_coeff_ui(a, i); for (slong j = 1; j <= i && j < b->length; j++) c = nmod_sub(c, nmod_mul(b->coeffs[j], nmod_poly_get_coeff_ui(t, i - j), a->mod), a->mod); nmod_poly_set_coeff_ui(t, i, nmod_mul(c, inv, a->mod)); }
  nmod_poly_swap(q, t); nmod_poly_clear(t); }
MF void nmod_poly_inv_series(nmod_poly_t q, const nmod_poly_t a, slong n) { nmod_poly_t u; nmod_poly_init(u, a->mod.n); nmod_poly_one(u); nmod_poly_div_series(q, u, a, n); nmod_poly_clear(u); }
MF void nmod_poly_evaluate_nmod_vec(nn_ptr ys, const nmod_poly_t p, nn_srcptr xs, slong n) { for (slong i = 0; i < n; i++) ys[i] = nmod_poly_evaluate_nmod(p, xs[i]); }
MF void nmod_poly_add_ui(nmod_poly_t r, const nmod_poly_t a, ulong c) { nmod_poly_set(r, a); nmod_poly_set_coeff_ui(r, 0, nmod_add(nmod_poly_get_coeff_ui(r, 0), c % r->mod.n, r->mod)); }
MF void nmod_poly_sub_ui(nmod_poly_t r, const nmod_poly_t a, ulong c) { nmod_poly_set(r, a); nmod_poly_set_coeff_ui(r, 0, nmod_sub(nmod_poly_get_coeff_ui(r, 0), c % r->mod.n, r->mod)); }
MF void nmod_poly_zero_coeffs(nmod_poly_t p, slong i, slong j) { if (i < 0) i = 0; if (j > p->length) j = p->length; for (; i < j; i++) p->coeffs[i] = 0; _nmod_poly_normalise(p); }
MF void _nmod_poly_add(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t mod) { for (slong i = 0; i < la || i < lb; i++) r[i] = nmod_add(i < la ? a[i] : 0, i < lb ? b[i] : 0, mod); }
MF void _nmod_poly_sub(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t mod) { for (slong i = 0; i < la || i < lb; i++) r[i] = nmod_sub(i < la ? a[i] : 0, i < lb ? b[i] : 0, mod); }
MF void _nmod_poly_mullow(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, slong n, nmod_t mod) { MFREQ(la >= lb && lb > 0 && n > 0 && n <= la + lb - 1); for (slong i = 0; i < n; i++) { ulong c = 0; for (slong j = 0; j < la && j <= i; j++) if (i - j < lb) c = nmod_add(c, nmod_mul(a[j], b[i - j], mod), mod); r[i] = c; } }
MF void _nmod_poly_mul(nn_ptr r, nn_srcptr a, slong la, nn_srcptr b, slong lb, nmod_t mod) { _nmod_poly_mullow(r, a, la, b, lb, la + lb - 1, mod); }
MF void _nmod_poly_shift_left(nn_ptr r, nn_srcptr a, slong l, slong k) { memmove(r + k, a, l * sizeof(ulong)); memset(r, 0, k * sizeof(ulong)); }
MF void _nmod_poly_shift_right(nn_ptr r, nn_srcptr a, slong l, slong k) { memmove(r, a + k, l * sizeof(ulong)); }
MF ulong _nmod_poly_evaluate_nmod(nn_srcptr p, slong l, ulong c, nmod_t mod) { ulong r = 0; for (slong i = l - 1; i >= 0; i--) r = nmod_add(nmod_mul(r, c, mod), p[i], mod); return r; }

MF int nmod_poly_equal_trunc(const nmod_poly_t a, const nmod_poly_t b, slong n) { for (slong i = 0; i < n; i++) if (nmod_poly_get_coeff_ui(a, i) != nmod_poly_get_coeff_ui(b, i)) return 0; return 1; }
MF int nmod_poly_equal_nmod(const nmod_poly_t a, ulong c) { return c == 0 ? a->length == 0 : a->length == 1 && a->coeffs[0] == c; }
MF int nmod_poly_equal_ui(const nmod_poly_t a, ulong c) { return nmod_poly_equal_nmod(a, c % a->mod.n); }
MF flint_bitcnt_t nmod_poly_max_bits(const nmod_poly_t a) { flint_bitcnt_t b = 0; for (slong i = 0; i < a->length; i++) if (FLINT_BIT_COUNT(a->coeffs[i]) > b) b = FLINT_BIT_COUNT(a->coeffs[i]); return b; }
MF void nmod_poly_pow_trunc(nmod_poly_t r, const nmod_poly_t a, ulong e, slong n) { nmod_poly_t t; nmod_poly_init(t, a->mod.n); nmod_poly_one(t); nmod_poly_truncate(t, n); while (e--) nmod_poly_mullow(t, t, a, n); nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF void nmod_poly_mulmod(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b, const nmod_poly_t f) { nmod_poly_t t; nmod_poly_init(t, a->mod.n); nmod_poly_mul(t, a, b); nmod_poly_rem(r, t, f); nmod_poly_clear(t); }
MF void nmod_poly_lcm(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b)
{ if (!a->length || !b->length) { nmod_poly_zero(r); return; } nmod_poly_t g, t; nmod_poly_init(g, a->mod.n); nmod_poly_init(t, a->mod.n); nmod_poly_gcd(g, a, b); nmod_poly_mul(t, a, b); nmod_poly_div(t, t, g); nmod_poly_make_monic(r, t); nmod_poly_clear(g); nmod_poly_clear(t); }
MF void nmod_poly_compose(nmod_poly_t r, const nmod_poly_t a, const nmod_poly_t b)
{ nmod_poly_t t; nmod_poly_init(t, a->mod.n); for (slong i = a->length - 1; i >= 0; i--) { nmod_poly_mul(t, t, b); nmod_poly_add_ui(t, t, a->coeffs[i]); } nmod_poly_swap(r, t); nmod_poly_clear(t); }
MF void nmod_poly_evaluate_nmod_vec_fast(nn_ptr ys, const nmod_poly_t p, nn_srcptr xs, slong n) { nmod_poly_evaluate_nmod_vec(ys, p, xs, n); }
MF void nmod_poly_evaluate_nmod_vec_iter(nn_ptr ys, const nmod_poly_t p, nn_srcptr xs, slong n) { nmod_poly_evaluate_nmod_vec(ys, p, xs, n); }
MF void nmod_poly_product_roots_nmod_vec(nmod_poly_t r, nn_srcptr xs, slong n)
{ nmod_poly_t t, l; nmod_poly_init(t, r->mod.n); nmod_poly_init(l, r->mod.n); nmod_poly_one(t); for (slong i = 0; i < n; i++) { nmod_poly_zero(l); nmod_poly_set_coeff_ui(l, 1, 1); nmod_poly_set_coeff_ui(l, 0, nmod_neg(xs[i], r->mod)); nmod_poly_mul(t, t, l); } nmod_poly_swap(r, t); nmod_poly_clear(t); nmod_poly_clear(l); }
MF void nmod_poly_interpolate_nmod_vec(nmod_poly_t r, nn_srcptr xs, nn_srcptr ys, slong n)
{ nmod_poly_t t, l; nmod_poly_init(t, r->mod.n); nmod_poly_init(l, r->mod.n); nn_ptr z = _nmod_vec_init(n); for (slong i = 0; i < n; i++) { slong k = 0; for (slong j = 0; j < n; j++) if (j != i) z[k++] = xs[j]; nmod_poly_product_roots_nmod_vec(l, z, n ? n - 1 : 0);
    nmod_poly_scalar_mul_nmod(l, l, nmod_mul(ys[i], nmod_inv(nmod_poly_evaluate_nmod(l, xs[i]), r->mod), r->mod)); nmod_poly_add(t, t, l); } _nmod_vec_clear(z); nmod_poly_swap(r, t); nmod_poly_clear(t); nmod_poly_clear(l); }
MF void nmod_poly_interpolate_nmod_vec_fast(nmod_poly_t r, nn_srcptr xs, nn_srcptr ys, slong n) { nmod_poly_interpolate_nmod_vec(r, xs, ys, n); }

/* geometric progressions: the points are 1, r^2, r^4, ..., r^(2(len-1)) */
typedef struct { slong len; ulong r; nmod_t mod; ulong function; nn_ptr points; } nmod_geometric_progression_struct;
typedef nmod_geometric_progression_struct nmod_geometric_progression_t[1];
MF void _nmod_geometric_progression_init_function(nmod_geometric_progression_t G, ulong r, slong len, nmod_t mod, ulong function)
{ G->len = len; G->r = r; G->mod = mod; G->function = function; G->points = _nmod_vec_init(len); ulong q = nmod_mul(r, r, mod), x = 1 % mod.n; for (slong i = 0; i < len; i++) { G->points[i] = x; x = nmod_mul(x, q, mod); }
  if (function & 2) for (slong i = 0; i < len; i++) for (slong j = 0; j < i; j++) if (n_gcd(nmod_sub(G->points[i], G->points[j], mod), mod.n) != 1) mf_contract(__func__, "interpolation points with pairwise invertible differences"); }
MF void nmod_geometric_progression_init(nmod_geometric_progression_t G, ulong r, slong len, nmod_t mod) { _nmod_geometric_progression_init_function(G, r, len, mod, 3); }
MF void nmod_geometric_progression_clear(nmod_geometric_progression_t G) { _nmod_vec_clear(G->points); }
MF void _nmod_poly_evaluate_geometric_nmod_vec_fast_precomp(nn_ptr vs, nn_srcptr poly, slong plen, const nmod_geometric_progression_t G, slong len, nmod_t mod)
{ MFREQ((G->function & 1) && len <= G->len && plen <= G->len && mod.n == G->mod.n); nn_ptr t = _nmod_vec_init(len); for (slong i = 0; i < len; i++) { ulong r = 0; for (slong k = plen - 1; k >= 0; k--) r = nmod_add(nmod_mul(r, G->points[i], mod), poly[k], mod); t[i] = r; } _nmod_vec_set(vs, t, len); _nmod_vec_clear(t); }
MF void nmod_poly_evaluate_geometric_nmod_vec_fast_precomp(nn_ptr vs, const nmod_poly_t p, const nmod_geometric_progression_t G, slong len) { _nmod_poly_evaluate_geometric_nmod_vec_fast_precomp(vs, p->coeffs, p->length, G, len, p->mod); }
/* Newton interpolation */
MF void _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nn_ptr poly, nn_srcptr v, const nmod_geometric_progression_t G, slong len, nmod_t mod)
{ MFREQ((G->function & 2) && len <= G->len && mod.n == G->mod.n); nn_ptr d = _nmod_vec_init(len), r = _nmod_vec_init(len); _nmod_vec_set(d, v, len);
  for (slong k = 1; k < len; k++) for (slong i = len - 1; i >= k; i--) d[i] = nmod_mul(nmod_sub(d[i], d[i - 1], mod), nmod_inv(nmod_sub(G->points[i], G->points[i - k], mod), mod), mod);
  _nmod_vec_zero(r, len); for (slong k = len - 1; k >= 0; k--) { /* r <- r*(x - x_k) + d_k */ for (slong i = len - 1; i > 0; i--) r[i] = nmod_sub(r[i - 1], nmod_mul(r[i], G->points[k], mod), mod); r[0] = nmod_sub(d[k], nmod_mul(r[0], G->points[k], mod), mod); }
  _nmod_vec_set(poly, r, len); _nmod_vec_clear(d); _nmod_vec_clear(r); }
MF void nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(nmod_poly_t p, nn_srcptr v, const nmod_geometric_progression_t G, slong len) { nmod_poly_fit_length(p, len); _nmod_poly_interpolate_geometric_nmod_vec_fast_precomp(p->coeffs, v, G, len, p->mod); p->length = len; _nmod_poly_normalise(p); }
#endif
