#ifndef MACHINE_VECTORS_H
#define MACHINE_VECTORS_H
#include <flint/flint.h>
typedef ulong vec1n;
typedef double vec1d;
MF vec1d vec1d_mulmod(vec1d a, vec1d b, vec1d n, vec1d ninv)
{ vec1d h = a * b; vec1d l = fma(a, b, -h); vec1d q = rint(h * ninv); return fma(-q, n, h) + l; }
MF vec1d vec1d_reduce_to_pm1no(vec1d a, vec1d n, vec1d ninv) { return fma(-rint(a * ninv), n, a); }
MF vec1d vec1d_reduce_to_pm1n(vec1d a, vec1d n, vec1d ninv) { return fma(-rint(a * ninv), n, a); }
MF vec1d vec1d_reduce_pm1no_to_0n(vec1d a, vec1d n) { return a >= 0 ? a : a + n; }
MF vec1d vec1d_reduce_to_0n(vec1d a, vec1d n, vec1d ninv) { return vec1d_reduce_pm1no_to_0n(vec1d_reduce_to_pm1no(a, n, ninv), n); }
MF vec1d vec1d_reduce_2n_to_n(vec1d a, vec1d n) { return a - n >= 0 ? a - n : a; }
MF vec1d vec1d_add(vec1d a, vec1d b) { return a + b; }
MF vec1d vec1d_sub(vec1d a, vec1d b) { return a - b; }
MF vec1d vec1d_mul(vec1d a, vec1d b) { return a * b; }
#if defined(__AVX2__) && defined(__FMA__)
# include <immintrin.h>
typedef __m128i vec2n; typedef __m128d vec2d; typedef __m256i vec4n; typedef __m256d vec4d;
MF vec4d vec4d_set_d(double a) { return _mm256_set1_pd(a); }
MF vec4d vec4d_zero(void) { return _mm256_setzero_pd(); }
MF vec4d vec4d_add(vec4d a, vec4d b) { return _mm256_add_pd(a, b); }
MF vec4d vec4d_sub(vec4d a, vec4d b) { return _mm256_sub_pd(a, b); }
MF vec4d vec4d_mul(vec4d a, vec4d b) { return _mm256_mul_pd(a, b); }
MF vec4d vec4d_round(vec4d a) { return _mm256_round_pd(a, 4); }
MF vec4d vec4d_mulmod(vec4d a, vec4d b, vec4d n, vec4d ninv)
{ vec4d h = _mm256_mul_pd(a, b), q = vec4d_round(_mm256_mul_pd(h, ninv)), l = _mm256_fmsub_pd(a, b, h); return _mm256_add_pd(_mm256_fnmadd_pd(q, n, h), l); }
MF vec4d vec4d_reduce_to_pm1no(vec4d a, vec4d n, vec4d ninv) { return _mm256_fnmadd_pd(vec4d_round(_mm256_mul_pd(a, ninv)), n, a); }
MF vec4d vec4d_reduce_to_pm1n(vec4d a, vec4d n, vec4d ninv) { return vec4d_reduce_to_pm1no(a, n, ninv); }
MF vec4d vec4d_reduce_pm1no_to_0n(vec4d a, vec4d n) { return _mm256_blendv_pd(a, _mm256_add_pd(a, n), a); }
MF vec4d vec4d_reduce_to_0n(vec4d a, vec4d n, vec4d ninv) { return vec4d_reduce_pm1no_to_0n(vec4d_reduce_to_pm1no(a, n, ninv), n); }
MF vec4d vec4d_reduce_2n_to_n(vec4d a, vec4d n) { vec4d s = _mm256_sub_pd(a, n); return _mm256_blendv_pd(s, a, s); }
MF vec4n vec4n_set_n(ulong a) { return _mm256_set1_epi64x((long long) a); }
MF vec4n vec4n_zero(void) { return _mm256_setzero_si256(); }
MF vec4n vec4n_load_unaligned(const ulong * a) { return _mm256_loadu_si256((const __m256i *) a); }
MF void vec4n_store_unaligned(ulong * z, vec4n a) { _mm256_storeu_si256((__m256i *) z, a); }
MF vec4n vec4n_add(vec4n a, vec4n b) { return _mm256_add_epi64(a, b); }
MF vec4n vec4n_sub(vec4n a, vec4n b) { return _mm256_sub_epi64(a, b); }
MF vec4n vec4n_mul(vec4n a, vec4n b) { return _mm256_mul_epu32(a, b); }
MF vec4n vec4n_bit_and(vec4n a, vec4n b) { return _mm256_and_si256(a, b); }
MF vec4n vec4n_bit_shift_right(vec4n a, ulong b) { return _mm256_srli_epi64(a, (int) b); }
MF ulong vec4n_horizontal_sum(vec4n a) { ulong t[4]; vec4n_store_unaligned(t, a); return t[0] + t[1] + t[2] + t[3]; }
/* limited: values in [0, 2^52) */
MF vec4d vec4n_convert_limited_vec4d(vec4n a) { __m256d t = _mm256_set1_pd(0x1.0p52); return _mm256_sub_pd(_mm256_or_pd(_mm256_castsi256_pd(a), t), t); }
MF vec4n vec4d_convert_limited_vec4n(vec4d a) { __m256d t = _mm256_set1_pd(0x1.0p52); return _mm256_castpd_si256(_mm256_xor_pd(_mm256_add_pd(a, t), t)); }
#endif
#endif
