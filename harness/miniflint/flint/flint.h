/* mini-FLINT: the environment model that the flint-extras half of PML is checked against.
 *
 * FLINT is not installed in the sandbox.  This header implements, from FLINT's documentation (3.6 interface: no row
 * pointers, strided matrices, nmod_geometric_progression_t), the functions flint-extras calls.  Everything is
 * deliberately schoolbook, so that it can be read; a call outside a function's documented domain (dimension mismatch,
 * non-reduced operand where FLINT needs one, division by a non-unit, ...) aborts with an "environment contract" message,
 * which the explorer reports as a crash of the case.
 */
#ifndef FLINT_H
#define FLINT_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <assert.h>
#include <math.h>
#include <stdarg.h>
#include <gmp.h>

#ifdef __cplusplus
extern "C" {
#endif

#define __FLINT_VERSION 3
#define __FLINT_VERSION_MINOR 6
#define __FLINT_VERSION_PATCHLEVEL 0
#define FLINT_VERSION "3.6.0"
#define __FLINT_RELEASE 30600
#define FLINT_BITS 64
#define FLINT64 1
#ifndef ulong
# define ulong mp_limb_t
#endif
#define slong mp_limb_signed_t
typedef mp_limb_t * nn_ptr;
typedef const mp_limb_t * nn_srcptr;
typedef unsigned long flint_bitcnt_t;
#define FLINT_INLINE static inline
#define FLINT_STATIC_NOINLINE static
#define FLINT_FORCE_INLINE static inline __attribute__((always_inline))
#define FLINT_NORETURN __attribute__((noreturn))
#define FLINT_WARN_UNUSED
#define FLINT_UNUSED(x) x
#define FLINT_DLL
#define MF static inline __attribute__((unused))
#define UWORD(xx) (xx##UL)
#define WORD(xx) (xx##L)
#define UWORD_MAX ULONG_MAX
#define UWORD_MIN UWORD(0)
#define WORD_MAX LONG_MAX
#define WORD_MIN LONG_MIN
#define WORD_FMT "l"
#define WORD_WIDTH_FMT "*l"
#define FLINT_MAX(x, y) ((x) > (y) ? (x) : (y))
#define FLINT_MIN(x, y) ((x) > (y) ? (y) : (x))
#define FLINT_ABS(x) ((slong)(x) < 0 ? (-(x)) : (x))
#define FLINT_SIGN_EXT(x) (-(ulong)((slong)(x) < 0))
#define FLINT_SGN(x) ((0 < (slong)(x)) - ((slong)(x) < 0))
#define FLINT_SWAP(T, x, y) do { T _swap_tmp = x; x = y; y = _swap_tmp; } while (0)
#define FLINT_CLOG2(k) clog_2_(k)
#define FLINT_ASSERT(x) ((void) 0)
#define FLINT_ALLOC_EXPAND_SIZE(a, b) ((a) > (b) ? (a) : (b))

FLINT_NORETURN MF void mf_contract(const char * f, const char * what)
{ fprintf(stderr, "mini-FLINT: environment contract violated: %s: %s\n", f, what); fflush(stderr); abort(); }
#define MFREQ(c) do { if (!(c)) mf_contract(__func__, #c); } while (0)

typedef enum { FLINT_ERROR = 0, FLINT_OVERFLOW, FLINT_IMPINV, FLINT_DOMERR, FLINT_DIVZERO, FLINT_EXPOF, FLINT_INEXACT, FLINT_TEST_FAIL } flint_err_t;
FLINT_NORETURN MF void flint_abort(void) { abort(); }
FLINT_NORETURN MF void flint_throw(flint_err_t e, const char * s, ...)
{ va_list ap; va_start(ap, s); fprintf(stderr, "flint_throw(%d): ", (int) e); vfprintf(stderr, s, ap); va_end(ap); abort(); }
MF void * flint_malloc(size_t n) { void * p = malloc(n ? n : 1); if (!p) abort(); return p; }
MF void * flint_calloc(size_t n, size_t s) { void * p = calloc(n ? n : 1, s ? s : 1); if (!p) abort(); return p; }
MF void * flint_realloc(void * q, size_t n) { void * p = realloc(q, n ? n : 1); if (!p) abort(); return p; }
MF void flint_free(void * p) { free(p); }
MF void * flint_aligned_alloc(size_t al, size_t n) { MFREQ(n % al == 0); void * p = aligned_alloc(al, n ? n : al); if (!p) abort(); return p; }
MF void flint_aligned_free(void * p) { free(p); }
#define FLINT_ARRAY_ALLOC(n, T) (T *) flint_malloc((n) * sizeof(T))
#define FLINT_ARRAY_REALLOC(p, n, T) (T *) flint_realloc(p, (n) * sizeof(T))
#define TMP_INIT void * mf_tmp_[64]; int mf_tmpn_ = 0
#define TMP_START mf_tmpn_ = 0
#define TMP_ALLOC(size) (mf_tmp_[mf_tmpn_++] = flint_malloc(size))
#define TMP_ARRAY_ALLOC(n, T) (T *) TMP_ALLOC((n) * sizeof(T))
#define TMP_END do { while (mf_tmpn_ > 0) flint_free(mf_tmp_[--mf_tmpn_]); } while (0)
/* printf with FLINT's %w (word) conversions; the %{type} conversions are not modelled */
MF int mf_vfprintf(FILE * f, const char * s, va_list ap)
{ size_t n = strlen(s), k = 0; if (strstr(s, "%{")) return 0; char * t = (char *) malloc(n + 1); int spec = 0; for (size_t i = 0; i < n; i++) { char ch = s[i]; if (ch == '%') spec = !spec; else if (spec && ch == 'w') { ch = 'l'; spec = 0; } else if (spec && !strchr("0123456789*-+ .#", ch)) spec = 0; t[k++] = ch; }
  t[k] = 0; int r = vfprintf(f, t, ap); free(t); return r; }
MF int flint_printf(const char * s, ...) { va_list ap; va_start(ap, s); int r = mf_vfprintf(stdout, s, ap); va_end(ap); return r; }
MF int flint_fprintf(FILE * f, const char * s, ...) { va_list ap; va_start(ap, s); int r = mf_vfprintf(f, s, ap); va_end(ap); return r; }
MF void flint_cleanup(void) {}
MF void flint_cleanup_master(void) {}
MF void flint_set_num_threads(int n) { (void) n; }
MF int flint_get_num_threads(void) { return 1; }

#define FLINT_BIT_COUNT(x) ((flint_bitcnt_t) ((x) ? 64 - __builtin_clzl(x) : 0))
#define flint_clz(x) ((unsigned) __builtin_clzl(x))
#define flint_ctz(x) ((unsigned) __builtin_ctzl(x))
#define FLINT_FLOG2(k) ((k) ? FLINT_BIT_COUNT(k) - 1 : 0)

/* random state: a splitmix64; the explorer seeds it */
typedef struct { uint64_t s; } flint_rand_struct;
typedef flint_rand_struct flint_rand_t[1];
MF void flint_rand_init(flint_rand_t st) { st->s = 0x9E3779B97F4A7C15UL; }
MF void flint_randinit(flint_rand_t st) { flint_rand_init(st); }
MF void flint_rand_clear(flint_rand_t st) { (void) st; }
MF void flint_randclear(flint_rand_t st) { (void) st; }
MF void flint_rand_set_seed(flint_rand_t st, ulong a, ulong b) { st->s = a * 0x9E3779B97F4A7C15UL + b; }
MF ulong n_randlimb(flint_rand_t st)
{ uint64_t z = (st->s += 0x9E3779B97F4A7C15UL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9UL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBUL; return z ^ (z >> 31); }
MF ulong n_randint(flint_rand_t st, ulong m) { ulong r = n_randlimb(st); return m ? r % m : r; }
MF ulong n_randbits(flint_rand_t st, unsigned b) { if (!b) return 0; ulong r = n_randlimb(st); if (b < 64) r &= (1UL << b) - 1; return r | (1UL << (b - 1)); }
MF ulong n_randtest(flint_rand_t st) { return n_randbits(st, (unsigned) n_randint(st, 65)); }
MF ulong n_randtest_not_zero(flint_rand_t st) { ulong r; do r = n_randtest(st); while (!r); return r; }

/* ---------------- longlong.h ---------------- */
typedef unsigned __int128 mf_u128;
#define umul_ppmm(hi, lo, a, b) do { mf_u128 mf_p_ = (mf_u128) (ulong) (a) * (ulong) (b); (hi) = (ulong) (mf_p_ >> 64); (lo) = (ulong) mf_p_; } while (0)
#define add_ssaaaa(sh, sl, ah, al, bh, bl) do { ulong mf_al_ = (al), mf_ah_ = (ah), mf_bh_ = (bh), mf_s_ = mf_al_ + (ulong) (bl); (sh) = mf_ah_ + mf_bh_ + (mf_s_ < mf_al_); (sl) = mf_s_; } while (0)
#define sub_ddmmss(sh, sl, ah, al, bh, bl) do { ulong mf_al_ = (al), mf_bl_ = (bl), mf_ah_ = (ah), mf_bh_ = (bh); (sh) = mf_ah_ - mf_bh_ - (mf_al_ < mf_bl_); (sl) = mf_al_ - mf_bl_; } while (0)
#define add_sssaaaaaa(sh, sm, sl, ah, am, al, bh, bm, bl) do { mf_u128 mf_l_ = (mf_u128) (ulong) (al) + (ulong) (bl); mf_u128 mf_m_ = (mf_u128) (ulong) (am) + (ulong) (bm) + (ulong) (mf_l_ >> 64); ulong mf_h_ = (ulong) (ah) + (ulong) (bh) + (ulong) (mf_m_ >> 64); (sl) = (ulong) mf_l_; (sm) = (ulong) mf_m_; (sh) = mf_h_; } while (0)
#define sub_dddmmmsss(dh, dm, dl, mh, mm, ml, sh, sm, sl) do { ulong mf_t_, mf_u_; sub_ddmmss(mf_t_, dl, UWORD(0), ml, UWORD(0), sl); sub_ddmmss(mf_u_, dm, UWORD(0), mm, UWORD(0), sm); sub_ddmmss(dh, dm, (mh) - (sh), dm, -mf_u_, -mf_t_); } while (0)
#define udiv_qrnnd(q, r, n1, n0, d) do { mf_u128 mf_n_ = ((mf_u128) (n1) << 64) | (ulong) (n0); (q) = (ulong) (mf_n_ / (d)); (r) = (ulong) (mf_n_ % (d)); } while (0)

/* ---------------- nmod.h ---------------- */
typedef struct { ulong n; ulong ninv; flint_bitcnt_t norm; } nmod_t;
MF ulong mf_mod2(ulong hi, ulong lo, ulong n) { return hi ? (ulong) ((((mf_u128) hi << 64) | lo) % n) : lo % n; }
MF ulong n_preinvert_limb(ulong n)
{ /* floor((B^2 - 1)/n') - B with n' = n << clz(n) */
  MFREQ(n != 0); unsigned k = flint_clz(n); ulong m = n << k; mf_u128 q = (~(mf_u128) 0) / m; return (ulong) q; }
MF void nmod_init(nmod_t * mod, ulong n) { MFREQ(n != 0); mod->n = n; mod->ninv = n_preinvert_limb(n); mod->norm = flint_clz(n); }
#define NMOD_BITS(mod) (FLINT_BITS - ((mod).norm))
#define NMOD_CAN_USE_SHOUP(mod) ((mod).norm > 0)
/* the precomputed fields must belong to n (FLINT computes with ninv and norm) */
MF void mf_checkmod(nmod_t mod) { if (mod.n == 0 || mod.norm != (flint_bitcnt_t) __builtin_clzl(mod.n)) mf_contract("nmod_t", "inconsistent modulus data"); }
#define NMOD_RED2(r, a_hi, a_lo, mod) do { ulong mf_h_ = (a_hi), mf_l_ = (a_lo); if (mf_h_ >= (mod).n) mf_contract("NMOD_RED2", "a_hi < n"); (r) = mf_mod2(mf_h_, mf_l_, (mod).n); } while (0)
#define NMOD_RED(r, a, mod) do { (r) = (a) % (mod).n; } while (0)
#define NMOD2_RED2(r, a_hi, a_lo, mod) do { ulong mf_vh_ = (a_hi), mf_vl_ = (a_lo); (r) = mf_mod2(mf_vh_ % (mod).n, mf_vl_, (mod).n); } while (0)
#define NMOD_RED3(r, a_hi, a_me, a_lo, mod) do { ulong mf_vl3_ = (a_lo), mf_v_; NMOD_RED2(mf_v_, a_hi, a_me, mod); NMOD_RED2(r, mf_v_, mf_vl3_, mod); } while (0)
MF ulong _nmod_add(ulong a, ulong b, nmod_t m) { ulong s = a + b; if (s >= m.n) s -= m.n; return s; }
MF ulong _nmod_sub(ulong a, ulong b, nmod_t m) { return a >= b ? a - b : m.n + a - b; }
MF ulong nmod_add(ulong a, ulong b, nmod_t m) { ulong neg = m.n - a; return neg > b ? a + b : b - neg; }
MF ulong nmod_sub(ulong a, ulong b, nmod_t m) { ulong d = a - b; return a < b ? m.n + d : d; }
MF ulong nmod_neg(ulong a, nmod_t m) { return a ? m.n - a : 0; }
MF ulong nmod_mul(ulong a, ulong b, nmod_t m) { ulong h, l; umul_ppmm(h, l, a, b); if (h >= m.n) mf_contract("nmod_mul", "a*b < n*2^64"); return mf_mod2(h, l, m.n); }
MF ulong _nmod_mul_fullword(ulong a, ulong b, nmod_t m) { return nmod_mul(a, b, m); }
MF ulong nmod_addmul(ulong a, ulong b, ulong c, nmod_t m) { return nmod_add(a, nmod_mul(b, c, m), m); }
#define NMOD_ADDMUL(r, a, b, mod) do { (r) = nmod_addmul(r, a, b, mod); } while (0)
MF ulong nmod_fmma(ulong a, ulong b, ulong c, ulong d, nmod_t m) { return nmod_add(nmod_mul(a, b, m), nmod_mul(c, d, m), m); }
MF ulong nmod_set_ui(ulong x, nmod_t m) { return x % m.n; }
MF ulong nmod_set_si(slong x, nmod_t m) { return x >= 0 ? (ulong) x % m.n : nmod_neg((ulong) -x % m.n, m); }
MF ulong nmod_pow_ui(ulong a, ulong e, nmod_t m) { ulong r = 1 % m.n; while (e) { if (e & 1) r = nmod_mul(r, a, m); a = nmod_mul(a, a, m); e >>= 1; } return r; }

/* ---------------- ulong_extras.h ---------------- */
MF ulong n_gcd(ulong a, ulong b) { while (b) { ulong t = a % b; a = b; b = t; } return a; }
MF ulong n_gcdinv(ulong * inv, ulong x, ulong y)
{ MFREQ(y > 0 && x < y); __int128 r0 = y, r1 = x, t0 = 0, t1 = 1; while (r1) { __int128 q = r0 / r1, r = r0 - q * r1, t = t0 - q * t1; r0 = r1; r1 = r; t0 = t1; t1 = t; } if (t0 < 0) t0 += y; *inv = (ulong) t0; return (ulong) r0; }
MF ulong n_invmod(ulong x, ulong y) { ulong i; if (y == 1) return 0; if (n_gcdinv(&i, x % y, y) != 1) flint_throw(FLINT_IMPINV, "Cannot invert modulo %lu\n", y); return i; }
MF ulong nmod_inv(ulong a, nmod_t m) { return n_invmod(a, m.n); }
MF ulong nmod_div(ulong a, ulong b, nmod_t m) { return nmod_mul(a, nmod_inv(b, m), m); }
MF ulong n_mulmod2(ulong a, ulong b, ulong n) { return (ulong) ((mf_u128) a * b % n); }
MF ulong n_mulmod2_preinv(ulong a, ulong b, ulong n, ulong ninv) { (void) ninv; return n_mulmod2(a, b, n); }
MF ulong n_mod2_preinv(ulong a, ulong n, ulong ninv) { (void) ninv; return a % n; }
MF ulong n_ll_mod_preinv(ulong hi, ulong lo, ulong n, ulong ninv) { (void) ninv; return mf_mod2(hi % n, lo, n); }
MF ulong n_addmod(ulong a, ulong b, ulong n) { return n - b > a ? a + b : a + b - n; }
MF ulong n_submod(ulong a, ulong b, ulong n) { return b > a ? a - b + n : a - b; }
MF ulong n_negmod(ulong a, ulong n) { return a ? n - a : 0; }
MF ulong n_powmod2(ulong a, slong e, ulong n) { ulong r = 1 % n; a %= n; if (e < 0) { a = n_invmod(a, n); e = -e; } while (e) { if (e & 1) r = n_mulmod2(r, a, n); a = n_mulmod2(a, a, n); e >>= 1; } return r; }
MF ulong n_powmod2_ui_preinv(ulong a, ulong e, ulong n, ulong ninv) { (void) ninv; nmod_t m; nmod_init(&m, n); return nmod_pow_ui(a % n, e, m); }
MF ulong n_pow(ulong a, ulong e) { ulong r = 1; while (e--) r *= a; return r; }
MF ulong n_mulmod_precomp_shoup(ulong w, ulong p) { return (ulong) (((mf_u128) w << 64) / p); }
MF ulong n_mulmod_shoup(ulong w, ulong t, ulong wp, ulong p) { (void) wp; return n_mulmod2(w, t, p); }
MF int n_is_prime(ulong n)
{ if (n < 2) return 0; static const ulong b[] = {2,3,5,7,11,13,17,19,23,29,31,37};
  for (int i = 0; i < 12; i++) { if (n == b[i]) return 1; if (n % b[i] == 0) return 0; }
  ulong d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; s++; }
  for (int i = 0; i < 12; i++) { ulong x = 1, a = b[i] % n, e = d; while (e) { if (e & 1) x = n_mulmod2(x, a, n); a = n_mulmod2(a, a, n); e >>= 1; }
    if (x == 1 || x == n - 1) continue; int ok = 0; for (int j = 1; j < s && !ok; j++) { x = n_mulmod2(x, x, n); if (x == n - 1) ok = 1; } if (!ok) return 0; }
  return 1; }
MF int n_is_probabprime(ulong n) { return n_is_prime(n); }
MF ulong n_nextprime(ulong n, int proved) { (void) proved; do { n++; MFREQ(n != 0); } while (!n_is_prime(n)); return n; }
MF ulong n_randprime(flint_rand_t st, ulong bits, int proved) { (void) proved; ulong p; do p = n_randbits(st, (unsigned) bits); while (!n_is_prime(p)); return p; }
MF ulong n_randtest_prime(flint_rand_t st, int proved) { return n_randprime(st, 2 + n_randint(st, 63), proved); }
MF ulong n_sqrt(ulong a) { ulong r = (ulong) sqrt((double) a); while ((mf_u128) r * r > a) r--; while ((mf_u128) (r + 1) * (r + 1) <= a) r++; return r; }
MF ulong n_cbrt(ulong a) { ulong r = (ulong) cbrt((double) a); while ((mf_u128) r * r * r > a) r--; while ((mf_u128) (r + 1) * (r + 1) * (r + 1) <= a) r++; return r; }
MF ulong n_flog(ulong n, ulong b) { ulong r = 0; while (n >= b) { n /= b; r++; } return r; }
MF ulong n_clog(ulong n, ulong b) { ulong r = 0; mf_u128 p = 1; while (p < n) { p *= b; r++; } return r; }
MF ulong n_revbin(ulong n, ulong b) { ulong r = 0; for (ulong i = 0; i < b; i++) r |= ((n >> i) & 1) << (b - 1 - i); return r; }

/* ---------------- nmod_vec.h ---------------- */
typedef enum { _DOT0 = 0, _DOT1 = 1, _DOT2_SPLIT = 2, _DOT2_HALF = 3, _DOT2 = 4, _DOT3_ACC = 5, _DOT3 = 6, _DOT_POW2 = 7 } dot_method_t;
typedef struct { dot_method_t method; ulong pow2_precomp; } dot_params_t;
#define DOT_SPLIT_BITS 56
#define DOT_SPLIT_MASK UWORD(72057594037927935)
#define DOT2_ACC8_MAX_MODULUS_FLINT UWORD(1515531528)
MF nn_ptr _nmod_vec_init(slong len) { return (nn_ptr) flint_malloc(len * sizeof(ulong)); }
MF void _nmod_vec_clear(nn_ptr v) { flint_free(v); }
MF void _nmod_vec_zero(nn_ptr v, slong len) { for (slong i = 0; i < len; i++) v[i] = 0; }
MF void _nmod_vec_set(nn_ptr r, nn_srcptr v, slong len) { for (slong i = 0; i < len; i++) r[i] = v[i]; }
MF void _nmod_vec_swap(nn_ptr a, nn_ptr b, slong len) { for (slong i = 0; i < len; i++) { ulong t = a[i]; a[i] = b[i]; b[i] = t; } }
MF int _nmod_vec_equal(nn_srcptr a, nn_srcptr b, slong len) { for (slong i = 0; i < len; i++) if (a[i] != b[i]) return 0; return 1; }
MF int _nmod_vec_is_zero(nn_srcptr a, slong len) { for (slong i = 0; i < len; i++) if (a[i]) return 0; return 1; }
MF flint_bitcnt_t _nmod_vec_max_bits(nn_srcptr a, slong len) { ulong m = 0; for (slong i = 0; i < len; i++) m |= a[i]; return FLINT_BIT_COUNT(m); }
MF void _nmod_vec_reduce(nn_ptr r, nn_srcptr a, slong len, nmod_t m) { for (slong i = 0; i < len; i++) r[i] = a[i] % m.n; }
MF void _nmod_vec_add(nn_ptr r, nn_srcptr a, nn_srcptr b, slong len, nmod_t m) { for (slong i = 0; i < len; i++) r[i] = nmod_add(a[i], b[i], m); }
MF void _nmod_vec_sub(nn_ptr r, nn_srcptr a, nn_srcptr b, slong len, nmod_t m) { for (slong i = 0; i < len; i++) r[i] = nmod_sub(a[i], b[i], m); }
MF void _nmod_vec_neg(nn_ptr r, nn_srcptr a, slong len, nmod_t m) { for (slong i = 0; i < len; i++) r[i] = nmod_neg(a[i], m); }
MF void _nmod_vec_scalar_mul_nmod(nn_ptr r, nn_srcptr a, slong len, ulong c, nmod_t m) { for (slong i = 0; i < len; i++) r[i] = nmod_mul(a[i], c, m); }
MF void _nmod_vec_scalar_mul_nmod_shoup(nn_ptr r, nn_srcptr a, slong len, ulong c, nmod_t m) { _nmod_vec_scalar_mul_nmod(r, a, len, c, m); }
MF void _nmod_vec_scalar_addmul_nmod(nn_ptr r, nn_srcptr a, slong len, ulong c, nmod_t m) { for (slong i = 0; i < len; i++) r[i] = nmod_add(r[i], nmod_mul(a[i], c, m), m); }
MF void _nmod_vec_randtest(nn_ptr v, flint_rand_t st, slong len, nmod_t m) { for (slong i = 0; i < len; i++) v[i] = n_randint(st, 3) ? n_randint(st, m.n) : n_randint(st, 2) % m.n; }
MF dot_params_t _nmod_vec_dot_params(ulong len, nmod_t m) { dot_params_t p; (void) len; p.method = _DOT3; p.pow2_precomp = (1UL << DOT_SPLIT_BITS) % m.n; return p; }
MF ulong _nmod_vec_dot(nn_srcptr a, nn_srcptr b, slong len, nmod_t m, dot_params_t p) { (void) p; ulong s = 0; for (slong i = 0; i < len; i++) s = nmod_add(s, nmod_mul(a[i], b[i], m), m); return s; }
MF ulong _nmod_vec_dot_rev(nn_srcptr a, nn_srcptr b, slong len, nmod_t m, dot_params_t p) { (void) p; ulong s = 0; for (slong i = 0; i < len; i++) s = nmod_add(s, nmod_mul(a[i], b[len - 1 - i], m), m); return s; }
MF ulong _nmod_vec_dot_ptr(nn_srcptr a, const nn_ptr * b, slong off, slong len, nmod_t m, dot_params_t p) { (void) p; ulong s = 0; for (slong i = 0; i < len; i++) s = nmod_add(s, nmod_mul(a[i], b[i][off], m), m); return s; }
MF int _nmod_vec_dot_bound_limbs(slong len, nmod_t m)
{ mf_u128 p = (mf_u128) (m.n - 1) * (m.n - 1); mf_u128 lo = (mf_u128) (ulong) p * (ulong) len; mf_u128 hi = (mf_u128) (ulong) (p >> 64) * (ulong) len + (lo >> 64); if (hi >> 64) return 3; if ((ulong) hi) return 2; return (ulong) lo ? 1 : 0; }
/* single-limb, two-limb accumulation exactly as documented: the caller guarantees the absence of overflow */
#define _NMOD_VEC_DOT1(res, i, len, expr1, expr2, mod) do { res = UWORD(0); for (i = 0; i < (slong) (len); i++) res += (expr1) * (expr2); NMOD_RED(res, res, mod); } while (0)
#define _NMOD_VEC_DOT2(res, i, len, expr1, expr2, mod) do { ulong mf_u0_ = 0, mf_u1_ = 0; for (i = 0; i < (slong) (len); i++) { ulong mf_s0_, mf_s1_; umul_ppmm(mf_s1_, mf_s0_, (expr1), (expr2)); add_ssaaaa(mf_u1_, mf_u0_, mf_u1_, mf_u0_, mf_s1_, mf_s0_); } NMOD2_RED2(res, mf_u1_, mf_u0_, mod); } while (0)

MF ulong _nmod_vec_dot2_split(nn_srcptr a, nn_srcptr b, slong len, nmod_t m, ulong pow2_precomp) { MFREQ(pow2_precomp == (1UL << DOT_SPLIT_BITS) % m.n); dot_params_t p = {_DOT2_SPLIT, 0}; return _nmod_vec_dot(a, b, len, m, p); }
/* ---------------- perm.h ---------------- */
MF slong * _perm_init(slong n) { slong * v = (slong *) flint_malloc(n * sizeof(slong)); for (slong i = 0; i < n; i++) v[i] = i; return v; }
MF void _perm_clear(slong * v) { flint_free(v); }
MF void _perm_one(slong * v, slong n) { for (slong i = 0; i < n; i++) v[i] = i; }
MF void _perm_set(slong * r, const slong * v, slong n) { for (slong i = 0; i < n; i++) r[i] = v[i]; }
MF int _perm_equal(const slong * a, const slong * b, slong n) { for (slong i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
MF void _perm_inv(slong * r, const slong * v, slong n)
{ slong * t = (slong *) flint_malloc(n * sizeof(slong)); for (slong i = 0; i < n; i++) { MFREQ(v[i] >= 0 && v[i] < n); t[i] = v[i]; } for (slong i = 0; i < n; i++) r[t[i]] = i; flint_free(t); }
/* res = v1 o v2: res[i] = v1[v2[i]] (as in FLINT's perm/compose.c) */
MF void _perm_compose(slong * r, const slong * a, const slong * b, slong n)
{ slong * t = (slong *) flint_malloc(n * sizeof(slong)); for (slong i = 0; i < n; i++) { MFREQ(b[i] >= 0 && b[i] < n); t[i] = a[b[i]]; } for (slong i = 0; i < n; i++) r[i] = t[i]; flint_free(t); }
MF int _perm_parity(const slong * v, slong n) { int p = 0; for (slong i = 0; i < n; i++) for (slong j = i + 1; j < n; j++) p ^= v[i] > v[j]; return p; }
MF int _perm_randtest(slong * v, slong n, flint_rand_t st) { for (slong i = 0; i < n; i++) v[i] = i; for (slong i = n - 1; i > 0; i--) { slong j = (slong) n_randint(st, i + 1); slong t = v[i]; v[i] = v[j]; v[j] = t; } return _perm_parity(v, n); }
MF int _perm_print(const slong * v, slong n) { (void) v; (void) n; return 1; }
MF int _long_vec_print(const slong * v, slong n) { (void) v; (void) n; return 1; }

/* ---------------- mpn_extras.h ---------------- */
MF void flint_mpn_copyi(nn_ptr r, nn_srcptr a, slong n) { for (slong i = 0; i < n; i++) r[i] = a[i]; }
MF void flint_mpn_copyd(nn_ptr r, nn_srcptr a, slong n) { for (slong i = n - 1; i >= 0; i--) r[i] = a[i]; }
MF void flint_mpn_zero(nn_ptr r, slong n) { for (slong i = 0; i < n; i++) r[i] = 0; }
MF void flint_mpn_store(nn_ptr r, slong n, ulong v) { for (slong i = 0; i < n; i++) r[i] = v; }

#ifdef __cplusplus
}
#endif
#endif
