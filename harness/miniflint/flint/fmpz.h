#ifndef FMPZ_H
#define FMPZ_H
#include <flint/flint.h>
/* FLINT's representation: a word holding a small integer, or a tagged pointer to an mpz */
typedef slong fmpz;
typedef fmpz fmpz_t[1];
#define COEFF_MAX ((WORD(1) << 62) - 1)
#define COEFF_MIN (-COEFF_MAX)
#define COEFF_IS_MPZ(x) (((x) >> 62) == 1)
#define COEFF_TO_PTR(x) ((mpz_ptr) ((ulong) (x) << 2))
#define PTR_TO_COEFF(p) (((slong) ((ulong) (p) >> 2)) | (WORD(1) << 62))
MF mpz_ptr mf_promote(fmpz_t f)
{ if (COEFF_IS_MPZ(*f)) return COEFF_TO_PTR(*f); mpz_ptr p = (mpz_ptr) malloc(sizeof(__mpz_struct)); mpz_init_set_si(p, *f); *f = PTR_TO_COEFF(p); return p; }
MF void mf_demote(fmpz_t f)
{ if (!COEFF_IS_MPZ(*f)) return; mpz_ptr p = COEFF_TO_PTR(*f); if (mpz_fits_slong_p(p)) { slong v = mpz_get_si(p); if (v >= COEFF_MIN && v <= COEFF_MAX) { mpz_clear(p); free(p); *f = v; } } }
MF void fmpz_init(fmpz_t f) { *f = 0; }
MF void fmpz_init2(fmpz_t f, ulong l) { (void) l; *f = 0; }
MF void fmpz_clear(fmpz_t f) { if (COEFF_IS_MPZ(*f)) { mpz_clear(COEFF_TO_PTR(*f)); free(COEFF_TO_PTR(*f)); } *f = 0; }
MF void fmpz_get_mpz(mpz_t z, const fmpz_t f) { if (COEFF_IS_MPZ(*f)) mpz_set(z, COEFF_TO_PTR(*f)); else mpz_set_si(z, *f); }
MF void fmpz_set_mpz(fmpz_t f, const mpz_t z) { mpz_set(mf_promote(f), z); mf_demote(f); }
MF void fmpz_zero(fmpz_t f) { fmpz_clear(f); }
MF void fmpz_one(fmpz_t f) { fmpz_clear(f); *f = 1; }
MF void fmpz_set(fmpz_t f, const fmpz_t g) { if (f == g) return; if (COEFF_IS_MPZ(*g)) mpz_set(mf_promote(f), COEFF_TO_PTR(*g)); else { fmpz_clear(f); *f = *g; } }
MF void fmpz_set_ui(fmpz_t f, ulong x) { fmpz_clear(f); if (x <= (ulong) COEFF_MAX) *f = (slong) x; else mpz_set_ui(mf_promote(f), x); }
MF void fmpz_set_si(fmpz_t f, slong x) { fmpz_clear(f); if (x <= COEFF_MAX && x >= COEFF_MIN) *f = x; else mpz_set_si(mf_promote(f), x); }
MF void fmpz_init_set(fmpz_t f, const fmpz_t g) { fmpz_init(f); fmpz_set(f, g); }
MF void fmpz_init_set_ui(fmpz_t f, ulong g) { fmpz_init(f); fmpz_set_ui(f, g); }
MF void fmpz_init_set_si(fmpz_t f, slong g) { fmpz_init(f); fmpz_set_si(f, g); }
MF void fmpz_swap(fmpz_t f, fmpz_t g) { slong t = *f; *f = *g; *g = t; }
#define MFZ(name) mpz_t name; mpz_init(name)
#define MF_BIN(fn, op) MF void fn(fmpz_t f, const fmpz_t g, const fmpz_t h) { MFZ(a); MFZ(b); fmpz_get_mpz(a, g); fmpz_get_mpz(b, h); op(a, a, b); fmpz_set_mpz(f, a); mpz_clear(a); mpz_clear(b); }
MF_BIN(fmpz_add, mpz_add) MF_BIN(fmpz_sub, mpz_sub) MF_BIN(fmpz_mul, mpz_mul)
MF int fmpz_is_zero(const fmpz_t f) { return *f == 0; }
MF int fmpz_is_one(const fmpz_t f) { return *f == 1; }
MF int fmpz_sgn(const fmpz_t f) { if (COEFF_IS_MPZ(*f)) return mpz_sgn(COEFF_TO_PTR(*f)); return (*f > 0) - (*f < 0); }
#define MF_DIV(fn, op) MF void fn(fmpz_t f, const fmpz_t g, const fmpz_t h) { MFREQ(fmpz_sgn(h) != 0); MFZ(a); MFZ(b); fmpz_get_mpz(a, g); fmpz_get_mpz(b, h); op(a, a, b); fmpz_set_mpz(f, a); mpz_clear(a); mpz_clear(b); }
MF void mf_mpz_fmod(mpz_t r, const mpz_t a, const mpz_t b) { mpz_mod(r, a, b); }
MF_DIV(fmpz_fdiv_q, mpz_fdiv_q) MF_DIV(fmpz_fdiv_r, mpz_fdiv_r) MF_DIV(fmpz_mod, mf_mpz_fmod) MF_DIV(fmpz_tdiv_q, mpz_tdiv_q) MF_DIV(fmpz_divexact, mpz_divexact) MF_DIV(fmpz_cdiv_q, mpz_cdiv_q)
MF void fmpz_fdiv_qr(fmpz_t q, fmpz_t r, const fmpz_t g, const fmpz_t h) { MFREQ(fmpz_sgn(h) != 0); MFZ(a); MFZ(b); MFZ(c); fmpz_get_mpz(a, g); fmpz_get_mpz(b, h); mpz_fdiv_qr(c, a, a, b); fmpz_set_mpz(q, c); fmpz_set_mpz(r, a); mpz_clear(a); mpz_clear(b); mpz_clear(c); }
#define MF_UI(fn, op) MF void fn(fmpz_t f, const fmpz_t g, ulong x) { MFZ(a); fmpz_get_mpz(a, g); op(a, a, x); fmpz_set_mpz(f, a); mpz_clear(a); }
MF_UI(fmpz_add_ui, mpz_add_ui) MF_UI(fmpz_sub_ui, mpz_sub_ui) MF_UI(fmpz_mul_ui, mpz_mul_ui) MF_UI(fmpz_mul_2exp, mpz_mul_2exp) MF_UI(fmpz_fdiv_q_2exp, mpz_fdiv_q_2exp) MF_UI(fmpz_tdiv_q_2exp, mpz_tdiv_q_2exp) MF_UI(fmpz_fdiv_r_2exp, mpz_fdiv_r_2exp) MF_UI(fmpz_pow_ui, mpz_pow_ui)
MF void fmpz_divexact_ui(fmpz_t f, const fmpz_t g, ulong x) { MFZ(a); fmpz_get_mpz(a, g); if (x == 0 || !mpz_divisible_ui_p(a, x)) mf_contract("fmpz_divexact_ui", "exact"); mpz_divexact_ui(a, a, x); fmpz_set_mpz(f, a); mpz_clear(a); }
MF void fmpz_fdiv_q_ui(fmpz_t f, const fmpz_t g, ulong x) { MFREQ(x); MFZ(a); fmpz_get_mpz(a, g); mpz_fdiv_q_ui(a, a, x); fmpz_set_mpz(f, a); mpz_clear(a); }
MF ulong fmpz_fdiv_ui(const fmpz_t g, ulong x) { MFREQ(x); MFZ(a); fmpz_get_mpz(a, g); ulong r = mpz_fdiv_ui(a, x); mpz_clear(a); return r; }
MF ulong fmpz_get_nmod(const fmpz_t g, nmod_t m) { return fmpz_fdiv_ui(g, m.n); }
MF void fmpz_addmul(fmpz_t f, const fmpz_t g, const fmpz_t h) { fmpz_t t; fmpz_init(t); fmpz_mul(t, g, h); fmpz_add(f, f, t); fmpz_clear(t); }
MF void fmpz_submul(fmpz_t f, const fmpz_t g, const fmpz_t h) { fmpz_t t; fmpz_init(t); fmpz_mul(t, g, h); fmpz_sub(f, f, t); fmpz_clear(t); }
MF void fmpz_addmul_ui(fmpz_t f, const fmpz_t g, ulong h) { fmpz_t t; fmpz_init(t); fmpz_mul_ui(t, g, h); fmpz_add(f, f, t); fmpz_clear(t); }
MF void fmpz_neg(fmpz_t f, const fmpz_t g) { MFZ(a); fmpz_get_mpz(a, g); mpz_neg(a, a); fmpz_set_mpz(f, a); mpz_clear(a); }
MF void fmpz_abs(fmpz_t f, const fmpz_t g) { MFZ(a); fmpz_get_mpz(a, g); mpz_abs(a, a); fmpz_set_mpz(f, a); mpz_clear(a); }
MF int fmpz_cmp(const fmpz_t g, const fmpz_t h) { MFZ(a); MFZ(b); fmpz_get_mpz(a, g); fmpz_get_mpz(b, h); int c = mpz_cmp(a, b); mpz_clear(a); mpz_clear(b); return c; }
MF int fmpz_cmpabs(const fmpz_t g, const fmpz_t h) { MFZ(a); MFZ(b); fmpz_get_mpz(a, g); fmpz_get_mpz(b, h); int c = mpz_cmpabs(a, b); mpz_clear(a); mpz_clear(b); return c; }
MF int fmpz_equal(const fmpz_t g, const fmpz_t h) { return fmpz_cmp(g, h) == 0; }
MF flint_bitcnt_t fmpz_bits(const fmpz_t f) { if (COEFF_IS_MPZ(*f)) return mpz_sizeinbase(COEFF_TO_PTR(*f), 2); return FLINT_BIT_COUNT(FLINT_ABS(*f)); }
MF slong fmpz_size(const fmpz_t f) { if (COEFF_IS_MPZ(*f)) return (slong) mpz_size(COEFF_TO_PTR(*f)); return *f != 0; }
MF slong fmpz_get_si(const fmpz_t f) { if (COEFF_IS_MPZ(*f)) return mpz_get_si(COEFF_TO_PTR(*f)); return *f; }
MF ulong fmpz_get_ui(const fmpz_t f) { if (COEFF_IS_MPZ(*f)) return mpz_get_ui(COEFF_TO_PTR(*f)); return (ulong) FLINT_ABS(*f); }
MF double fmpz_get_d(const fmpz_t f) { MFZ(a); fmpz_get_mpz(a, f); double d = mpz_get_d(a); mpz_clear(a); return d; }
MF int fmpz_fits_si(const fmpz_t f) { return !COEFF_IS_MPZ(*f) || mpz_fits_slong_p(COEFF_TO_PTR(*f)); }
MF int fmpz_invmod(fmpz_t f, const fmpz_t g, const fmpz_t h) { MFZ(a); MFZ(b); fmpz_get_mpz(a, g); fmpz_get_mpz(b, h); int r = mpz_invert(a, a, b); if (r) fmpz_set_mpz(f, a); mpz_clear(a); mpz_clear(b); return r; }
MF int fmpz_print(const fmpz_t f) { MFZ(a); fmpz_get_mpz(a, f); int r = gmp_printf("%Zd", a); mpz_clear(a); return r; }
MF void _fmpz_vec_clear(fmpz * v, slong n) { for (slong i = 0; i < n; i++) fmpz_clear(v + i); flint_free(v); }
MF fmpz * _fmpz_vec_init(slong n) { return (fmpz *) flint_calloc(n, sizeof(fmpz)); }
/* out <- the representative of f mod m, in [0, m) or, when sign != 0, in (-m/2, m/2] */
MF void _fmpz_smod(fmpz_t out, const fmpz_t f, const fmpz_t m, int sign, fmpz_t tmp)
{ (void) tmp; MFREQ(fmpz_sgn(m) > 0); MFZ(a); MFZ(b); MFZ(c); fmpz_get_mpz(a, f); fmpz_get_mpz(b, m); mpz_mod(a, a, b);
  if (sign) { mpz_mul_2exp(c, a, 1); if (mpz_cmp(c, b) > 0) mpz_sub(a, a, b); } fmpz_set_mpz(out, a); mpz_clear(a); mpz_clear(b); mpz_clear(c); }
/* multi-modular reduction and reconstruction: a CRT plan is a program of combination steps
 * outputs[a] <- B * c_modulus + C * b_modulus, with B (resp. C) = outputs[b] or, when b < 0, input number -b-1 */
typedef struct { slong a_idx, b_idx, c_idx; fmpz_t b_modulus, c_modulus; } _fmpz_multi_CRT_instr;
typedef struct { _fmpz_multi_CRT_instr * prog; fmpz * moduli; fmpz * fracmoduli; fmpz_t final_modulus; slong moduli_count; slong min_modulus_bits; slong length; slong alloc; slong localsize; slong temp1loc, temp2loc, temp3loc, temp4loc; int good; } fmpz_multi_CRT_struct;
typedef fmpz_multi_CRT_struct fmpz_multi_CRT_t[1];
typedef struct { fmpz * moduli; slong moduli_count; fmpz_t final_modulus; int good; } fmpz_multi_mod_struct;
typedef fmpz_multi_mod_struct fmpz_multi_mod_t[1];
MF void fmpz_multi_CRT_init(fmpz_multi_CRT_t P) { memset(P, 0, sizeof(*P)); }
MF void mf_crt_build(fmpz_multi_CRT_t P, slong lo, slong hi, slong slot, fmpz_t mod)
{ /* the combination of inputs [lo, hi) goes to outputs[slot]; hi - lo >= 2 */
  slong mid = lo + (hi - lo) / 2; fmpz_t bm, cm; fmpz_init(bm); fmpz_init(cm); slong b, c;
  if (mid - lo == 1) { b = -lo - 1; fmpz_set(bm, P->moduli + lo); } else { b = slot; mf_crt_build(P, lo, mid, slot, bm); }
  if (hi - mid == 1) { c = -mid - 1; fmpz_set(cm, P->moduli + mid); } else { c = slot + 1; mf_crt_build(P, mid, hi, slot + 1, cm); if (slot + 2 > P->localsize) P->localsize = slot + 2; }
  _fmpz_multi_CRT_instr * I = P->prog + P->length++; I->a_idx = slot; I->b_idx = b; I->c_idx = c; fmpz_init_set(I->b_modulus, bm); fmpz_init_set(I->c_modulus, cm);
  fmpz_mul(mod, bm, cm); fmpz_clear(bm); fmpz_clear(cm); }
MF void fmpz_multi_CRT_clear(fmpz_multi_CRT_t P)
{ for (slong i = 0; i < P->length; i++) { fmpz_clear(P->prog[i].b_modulus); fmpz_clear(P->prog[i].c_modulus); } flint_free(P->prog); if (P->moduli) _fmpz_vec_clear(P->moduli, P->moduli_count); fmpz_clear(P->final_modulus); memset(P, 0, sizeof(*P)); }
MF int fmpz_multi_CRT_precompute(fmpz_multi_CRT_t P, const fmpz * f, slong r)
{ MFREQ(r > 0); fmpz_multi_CRT_clear(P); P->moduli = _fmpz_vec_init(r); P->moduli_count = r; fmpz_set_ui(P->final_modulus, 1); P->good = 1;
  for (slong i = 0; i < r; i++) { fmpz_set(P->moduli + i, f + i); if (fmpz_sgn(f + i) == 0) P->good = 0; for (slong j = 0; j < i; j++) { MFZ(a); MFZ(b); fmpz_get_mpz(a, f + i); fmpz_get_mpz(b, f + j); mpz_gcd(a, a, b); if (mpz_cmp_ui(a, 1) != 0) P->good = 0; mpz_clear(a); mpz_clear(b); } }
  P->prog = (_fmpz_multi_CRT_instr *) flint_calloc(r, sizeof(_fmpz_multi_CRT_instr)); P->localsize = 1;
  if (r > 1) mf_crt_build(P, 0, r, 0, P->final_modulus); else fmpz_set(P->final_modulus, f);
  P->temp1loc = P->localsize++; P->temp2loc = P->localsize++; P->temp3loc = P->localsize++; P->temp4loc = P->localsize++; return P->good; }
MF void fmpz_multi_CRT_precomp(fmpz_t out, const fmpz_multi_CRT_t P, const fmpz * in, int sign)
{ fmpz_t s, c, t; fmpz_init(s); fmpz_init(c); fmpz_init(t); for (slong i = 0; i < P->moduli_count; i++) { fmpz_divexact(c, P->final_modulus, P->moduli + i); fmpz_mod(t, c, P->moduli + i); MFREQ(fmpz_invmod(t, t, P->moduli + i)); fmpz_mul(t, t, c); fmpz_addmul(s, t, in + i); } _fmpz_smod(out, s, P->final_modulus, sign, t); fmpz_clear(s); fmpz_clear(c); fmpz_clear(t); }
MF void fmpz_multi_mod_init(fmpz_multi_mod_t P) { memset(P, 0, sizeof(*P)); }
MF void fmpz_multi_mod_clear(fmpz_multi_mod_t P) { if (P->moduli) _fmpz_vec_clear(P->moduli, P->moduli_count); memset(P, 0, sizeof(*P)); }
MF int fmpz_multi_mod_precompute(fmpz_multi_mod_t P, const fmpz * f, slong r)
{ MFREQ(r > 0); fmpz_multi_mod_clear(P); P->moduli = _fmpz_vec_init(r); P->moduli_count = r; P->good = 1; for (slong i = 0; i < r; i++) { fmpz_set(P->moduli + i, f + i); if (fmpz_sgn(f + i) == 0) P->good = 0; } return P->good; }
MF void fmpz_multi_mod_precomp(fmpz * out, const fmpz_multi_mod_t P, const fmpz_t in, int sign)
{ fmpz_t t; fmpz_init(t); for (slong i = 0; i < P->moduli_count; i++) _fmpz_smod(out + i, in, P->moduli + i, sign, t); fmpz_clear(t); }
#endif
