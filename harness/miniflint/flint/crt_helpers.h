#ifndef CRT_HELPERS_H
#define CRT_HELPERS_H
#include <flint/flint.h>
/* r (n limbs) <- C (m limbs) * y; t is scratch, left zero (FLINT splits the sum over r and t) */
MF void mf_big_addmul(ulong * r, int n, const ulong * C, int m, ulong y)
{ ulong c = 0; for (int i = 0; i < n; i++) { mf_u128 s = (mf_u128) (i < m ? C[i] : 0) * y + r[i] + c; r[i] = (ulong) s; c = (ulong) (s >> 64); } }
MF void mf_big_reduce(ulong * r, const ulong * lim, int n)
{ for (;;) { int i = n - 1; while (i >= 0 && r[i] == lim[i]) i--; if (i >= 0 && r[i] < lim[i]) return; ulong b = 0; for (i = 0; i < n; i++) { mf_u128 d = (mf_u128) r[i] - lim[i] - b; r[i] = (ulong) d; b = (ulong) (d >> 64) & 1; } } }
#define MF_BIG(n, m) \
MF void _big_mul_##n##_##m(ulong * r, ulong * t, const ulong * C, ulong y) { for (int i = 0; i < n; i++) r[i] = t[i] = 0; mf_big_addmul(r, n, C, m, y); } \
MF void _big_addmul_##n##_##m(ulong * r, ulong * t, const ulong * C, ulong y) { (void) t; mf_big_addmul(r, n, C, m, y); }
#define MF_RED(n) MF void _reduce_big_sum_##n(ulong * r, ulong * t, const ulong * lim) { (void) t; mf_big_reduce(r, lim, n); } \
MF void _add_to_answer_##n(ulong * z, ulong * r, ulong zn, ulong toff, ulong tshift) { (void) z; (void) r; (void) zn; (void) toff; (void) tshift; mf_contract(__func__, "not modelled"); }
MF_BIG(2, 1) MF_BIG(3, 2) MF_BIG(4, 3) MF_BIG(5, 4) MF_BIG(2, 2) MF_BIG(3, 3) MF_BIG(4, 4)
MF_RED(1) MF_RED(2) MF_RED(3) MF_RED(4) MF_RED(5)
#endif
