// C26: the word-level kernels of flint-extras (dot products, CRT, multimodular reduction), against 128-bit and GMP arithmetic
#include "mc.h"
#include <gmp.h>
#include <functional>
extern "C" {
#include "pml.h"
#include "nmod_vec_extra.h"
#include "nmod32_vec.h"
#include "nmod_extra.h"
#include "fmpz_extra.h"
#include "fmpz_mat_extra.h"
}
typedef unsigned long UL; typedef unsigned __int128 U2;
static UL rnd(UL a, UL b) { return mc::mix(mc::mix(0x9e3779b97f4a7c15UL, a), b + 0x1234567); }
static UL mask(long b) { return b >= 64 ? ~0UL : (1UL << b) - 1; }
// the patterns of operands: 0 all maximal, 1 dense, 2 maximal/zero alternating, 3 one maximal entry at the end, 4 small, 5 one at a moving position
enum { NPAT = 6 };
static UL val(int t, UL i, UL len, UL mx, UL salt)
{
    UL r = mx == ~0UL ? rnd(i, salt) : rnd(i, salt) % (mx + 1);
    switch (t) { case 0: return mx; case 1: return r; case 2: return (i + salt) & 1 ? mx : 0; case 3: return i + 1 == len ? mx : 0; case 4: return (i + salt) % 3 <= mx ? (i + salt) % 3 : mx; default: return i == (len * 3) / 5 ? mx : (r & 1); }
}
static UL dotmod(const UL* a, const UL* b, UL n, UL m) { UL s = 0; for (UL i = 0; i < n; i++) { U2 x = (U2) a[i] * b[i] % m; s = (UL) (((U2) s + x) % m); } return s; }
// exact-size heap copies, so that a sanitizer sees every access outside the operand
struct H { UL* p; UL n; explicit H(UL n_) : p((UL*) malloc(n_ ? 8 * n_ : 1)), n(n_) { } ~H() { free(p); } operator UL*() { return p; } H(const H&) = delete; };
struct H32 { uint32_t* p; explicit H32(UL n) : p((uint32_t*) malloc(n ? 4 * n : 1)) { } ~H32() { free(p); } operator uint32_t*() { return p; } H32(const H32&) = delete; };
static void eq(mc::Ctx& c, const char* f, UL got, UL want, UL i = 0) { c.call(); c.observe(want); if (got != want) c.fail("%s: entry %lu is %lu, expected %lu", f, i, got, want); }
static const std::vector<long> MODS = { 2, 3, 7, 97, 65537, (1L << 31) - 1, (1L << 32) - 5, (1L << 50) - 27, (1L << 52) - 47, (1L << 60) - 93, (1L << 62) - 57, (long) 0x7fffffffffffffe7L, (long) 0x8000000000000003UL, (long) 18446744073709551557UL };
static const std::vector<long> LENS = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 31, 32, 33, 34, 35, 36, 63, 64, 65, 66, 67, 100, 127, 128, 129, 200, 257 };

MC_SPACE(integer_dot, -1, 16)
{
    long b1 = c.from({ 0, 1, 2, 20, 31, 32, 33, 60, 61, 62, 63, 64 }, "bits1"), b2 = c.from({ 1, 2, 20, 31, 32, 33, 60, 61, 62, 63, 64 }, "bits2"), len = c.from(LENS, "len"), t = c.choose(c.lim(2, NPAT, NPAT), "pattern");
    if (!c.mine()) return;
    H a(len), b(len); for (long i = 0; i < len; i++) { a[i] = val(t, i, len, mask(b1), 1); b[i] = val(t, i, len, mask(b2), 2); }
    UL r[3] = { 7, 7, 7 }; UL w0 = 0, w1 = 0, w2 = 0;
    for (long i = 0; i < len; i++) { U2 x = (U2) a[i] * b[i]; U2 s = (U2) w0 + (UL) x; w0 = (UL) s; s = (U2) w1 + (UL) (x >> 64) + (UL) (s >> 64); w1 = (UL) s; w2 += (UL) (s >> 64); }
    nmod_vec_integer_dot_product(r, a, b, len, b1, b2); eq(c, "nmod_vec_integer_dot_product", r[0], w0, 0); eq(c, "nmod_vec_integer_dot_product", r[1], w1, 1); eq(c, "nmod_vec_integer_dot_product", r[2], w2, 2); if (w1) c.interesting();
}
MC_SPACE(unbalanced, -1, 16)
{
    UL m = c.from(MODS, "modulus"); long b1 = c.from({ 0, 1, 8, 31, 32, 33, 60, 61, 63, 64 }, "bits1"), b2 = c.from({ 1, 8, 32, 33, 61, 62, 63, 64 }, "bits2"), len = c.from(LENS, "len"), t = c.choose(c.lim(1, 3, NPAT), "pattern");
    if (!c.mine()) return;
    nmod_t mod; nmod_init(&mod, m); H a(len), b(len); for (long i = 0; i < len; i++) { a[i] = val(t, i, len, mask(b1), 1); b[i] = val(t, i, len, mask(b2), 2); }
    eq(c, "nmod_vec_dot_product_unbalanced", nmod_vec_dot_product_unbalanced(a, b, len, b1, b2, mod), dotmod(a, b, len, m)); c.interesting();
}
typedef void (*Multi)(nn_ptr, nn_srcptr, nn_srcptr*, ulong, ulong, nmod_t);
static void multi(mc::Ctx& c, const char* name, const std::function<void(UL*, UL*, const UL**)>& f, UL m, UL len, UL k, UL mu, UL mv, int t)
{
    H u(len), r(k + 1); std::vector<const UL*> rows(len + 1); std::vector<H*> own; for (UL i = 0; i < len; i++) { u[i] = val(t, i, len, mu, 3); H* h = new H(k); own.push_back(h); for (UL j = 0; j < k; j++) (*h)[j] = val(t, i, len, mv, 10 + j); rows[i] = h->p; }
    std::vector<UL> w(k); for (UL j = 0; j < k; j++) { UL s = 0; for (UL i = 0; i < len; i++) s = (UL) (((U2) s + (U2) u[i] * rows[i][j] % m) % m); w[j] = s; }
    for (UL j = 0; j <= k; j++) r[j] = 0xdeadbeef; f(r, u, rows.data()); for (auto h : own) delete h;
    for (UL j = 0; j < k; j++) eq(c, name, r[j], w[j], j); if (r[k] != 0xdeadbeef) c.fail("%s wrote beyond the result", name); if (k && len) c.interesting();
}
static const std::vector<long> KS = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 23, 24, 31, 32, 33, 35, 40, 63, 64, 65, 66, 70 };
static const std::vector<long> MLEN = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 25, 31, 32, 33, 34, 40 };
MC_SPACE(multi_dot, -1, 24)
{
    UL m = c.from({ 2, 97, 65537, (1L << 31) - 1, (1L << 50) - 27, (1L << 62) - 57, (long) 18446744073709551557UL }, "modulus"); long b1 = c.from({ 1, 20, 32, 52, 63, 64 }, "bits_u"), b2 = c.from({ 1, 25, 32, 62, 64 }, "bits_v");
    long len = c.from({ 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 40 }, "len"), k = c.from({ 0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 66 }, "k"), t = c.choose(c.lim(1, 2, NPAT), "pattern");
    if (!c.mine()) return;
    nmod_t mod; nmod_init(&mod, m); multi(c, "nmod_vec_dot_product_multi", [&](UL* r, UL* u, const UL** v) { nmod_vec_dot_product_multi(r, u, v, len, k, b1, b2, mod); }, m, len, k, mask(b1), mask(b2), t);
}
// the individual kernels, each on the operands it is meant for: reduced entries, sum below 2^64 (multi_1) or below 2^128 (multi_2)
MC_SPACE(multi_variants, -1, 24)
{
    static const struct { const char* n; Multi f; int limbs; } V[] = { { "multi_1_v1_8", _nmod_vec_dot_product_multi_1_v1_8, 1 }, { "multi_1_v8_8", _nmod_vec_dot_product_multi_1_v8_8, 1 }, { "multi_1_v8_32", _nmod_vec_dot_product_multi_1_v8_32, 1 }, { "multi_1_v16_16", _nmod_vec_dot_product_multi_1_v16_16, 1 },
        { "multi_2_v1_8", _nmod_vec_dot_product_multi_2_v1_8, 2 }, { "multi_2_v4_8", _nmod_vec_dot_product_multi_2_v4_8, 2 }, { "multi_2_v8_8", _nmod_vec_dot_product_multi_2_v8_8, 2 }, { "multi_2_v4_32", _nmod_vec_dot_product_multi_2_v4_32, 2 }, { "multi_2_split26", _nmod_vec_dot_product_multi_2_split26, 26 } };
    long v = c.choose(9, "variant"); bool one = V[v].limbs == 1, s26 = V[v].limbs == 26;
    UL m = c.from(one ? std::vector<long>{ 2, 97, 65537, (1L << 29) - 3, (1L << 31) - 1 } : s26 ? std::vector<long>{ 2, 97, (1L << 31) - 1, (1L << 50) - 27, (1L << 52) - 47 } : std::vector<long>{ 2, 97, (1L << 31) - 1, (1L << 50) - 27, (1L << 61) - 1 }, "modulus");
    long len = c.from(MLEN, "len"), k = c.from(KS, "k"), t = c.choose(c.lim(1, 3, NPAT), "pattern");
    if (!c.mine()) return;
    if (one && (U2) (m - 1) * (m - 1) * len >> 64) return;
    nmod_t mod; nmod_init(&mod, m); multi(c, V[v].n, [&](UL* r, UL* u, const UL** w) { V[v].f(r, u, w, len, k, mod); }, m, len, k, m - 1, m - 1, t);
}
static UL pow2(long e, UL m) { U2 r = 1 % m; for (long i = 0; i < e; i++) r = r * 2 % m; return (UL) r; }
static const long SPLITBITS = 56;
MC_SPACE(split, -1, 16)
{
    UL m = c.from({ 2, 3, 97, 65537, (1L << 30) - 35, 1515531528, (1L << 31) - 1, (1L << 50) - 27, (1L << 52) - 47 }, "modulus"); long len = c.from(LENS, "len"), t = c.choose(NPAT, "pattern"), u = c.choose(NPAT, "pattern2");
    if (!c.mine()) return;
    nmod_t mod; nmod_init(&mod, m); H a(len), a2(len), b(len); for (long i = 0; i < len; i++) { a[i] = val(t, i, len, m - 1, 1); a2[i] = val(u, i, len, m - 1, 5); b[i] = val(u, i, len, m - 1, 2); }
    UL w = dotmod(a, b, len, m), w2 = dotmod(a2, b, len, m); if (len && t != 4) c.interesting();
    eq(c, "_nmod_vec_dot_product_split26", _nmod_vec_dot_product_split26(a, b, len, mod), w);
#ifdef PML_HAVE_AVX2
    eq(c, "_nmod_vec_dot_product_split26_avx", _nmod_vec_dot_product_split26_avx(a, b, len, mod), w);
#endif
#if PML_HAVE_AVX512
    eq(c, "_nmod_vec_dot_product_ifma256", _nmod_vec_dot_product_ifma256(a, b, len, mod), w); eq(c, "_nmod_vec_dot_product_ifma512", _nmod_vec_dot_product_ifma512(a, b, len, mod), w);
#endif
#if PML_HAVE_AVX2
    if (m <= 1515531528) { UL r[2] = { 7, 7 }; _nmod_vec_2dot2_split(r, a, a2, b, len, mod, pow2(SPLITBITS, m)); eq(c, "_nmod_vec_2dot2_split", r[0], w, 0); eq(c, "_nmod_vec_2dot2_split", r[1], w2, 1); }
#endif
}
// ------------------------------------------------------------------ 32-bit vectors
MC_SPACE(dot32, -1, 16)
{
    UL m = c.from({ 2, 3, 97, 65537, (1L << 30) - 35, 1515531521, 1515531528 }, "modulus"); long len = c.from(LENS, "len"), t = c.choose(NPAT, "pattern"), u = c.choose(NPAT, "pattern2");
    if (!c.mine()) return;
    nmod_t mod; nmod_init(&mod, m); UL pp = pow2(SPLITBITS, m); H32 a(len), b0(len), b1(len), b2(len); UL w[3] = { 0, 0, 0 };
    for (long i = 0; i < len; i++) { a[i] = val(t, i, len, m - 1, 1); b0[i] = val(u, i, len, m - 1, 2); b1[i] = val((u + 1) % NPAT, i, len, m - 1, 3); b2[i] = val(t, i, len, m - 1, 4); w[0] = (w[0] + (UL) a[i] * b0[i]) % m; w[1] = (w[1] + (UL) a[i] * b1[i]) % m; w[2] = (w[2] + (UL) a[i] * b2[i]) % m; }
    uint32_t r[3]; auto z = [&] { r[0] = r[1] = r[2] = 7; }; auto ck = [&](const char* f, int n) { for (int i = 0; i < n; i++) eq(c, f, r[i], w[i], i); z(); }; z(); if (len) c.interesting();
    r[0] = _nmod32_vec_dot_split(a, b0, len, mod, pp); ck("_nmod32_vec_dot_split", 1); _nmod32_vec_dot2_split(r, r + 1, a, b0, b1, len, mod, pp); ck("_nmod32_vec_dot2_split", 2);
#if PML_HAVE_AVX2
    r[0] = _nmod32_vec_dot_split_avx2(a, b0, len, mod, pp); ck("_nmod32_vec_dot_split_avx2", 1); _nmod32_vec_dot2_split_avx2(r, r + 1, a, b0, b1, len, mod, pp); ck("_nmod32_vec_dot2_split_avx2", 2); _nmod32_vec_dot3_split_avx2(r, a, b0, b1, b2, len, mod, pp); ck("_nmod32_vec_dot3_split_avx2", 3);
    r[0] = _nmod32_vec_dot_msolve_avx2(a, b0, len, (uint32_t) m); ck("_nmod32_vec_dot_msolve_avx2", 1);
#endif
#if PML_HAVE_AVX512
    r[0] = _nmod32_vec_dot_split_avx512(a, b0, len, mod, pp); ck("_nmod32_vec_dot_split_avx512", 1); _nmod32_vec_dot2_split_avx512(r, r + 1, a, b0, b1, len, mod, pp); ck("_nmod32_vec_dot2_split_avx512", 2); _nmod32_vec_dot3_split_avx512(r, a, b0, b1, b2, len, mod, pp); ck("_nmod32_vec_dot3_split_avx512", 3);
#ifdef __AVX512IFMA__
    // unfinished according to its documentation: lengths that are multiples of 32 only
    if (len % 32 == 0 && len <= 2048) { const UL p52 = pow2(52, m); r[0] = _nmod32_vec_dot_ifma_avx2(a, b0, len, mod, p52); ck("_nmod32_vec_dot_ifma_avx2", 1); r[0] = _nmod32_vec_dot_ifma_avx512(a, b0, len, mod, p52); ck("_nmod32_vec_dot_ifma_avx512", 1); }
#endif
#endif
}
MC_SPACE(mdot32, -1, 24)
{
    typedef void (*F)(n32_ptr, n32_srcptr, n32_srcptr, slong, slong, slong, nmod_t);
    static const struct { const char* n; F f; } V[] = { { "mdot_split", _nmod32_vec_mdot_split }, { "mdot2_split", _nmod32_vec_mdot2_split },
#if PML_HAVE_AVX2
        { "mdot_split_avx2", _nmod32_vec_mdot_split_avx2 }, { "mdot2_split_avx2", _nmod32_vec_mdot2_split_avx2 }, { "mdot3_split_avx2", _nmod32_vec_mdot3_split_avx2 }, { "mdot_msolve_via_dot_avx2", _nmod32_vec_mdot_msolve_via_dot_avx2 }, { "mdot_msolve_native_avx2", _nmod32_vec_mdot_msolve_native_avx2 },
#endif
#if PML_HAVE_AVX512
        { "mdot_split_avx512", _nmod32_vec_mdot_split_avx512 }, { "mdot2_split_avx512", _nmod32_vec_mdot2_split_avx512 }, { "mdot3_split_avx512", _nmod32_vec_mdot3_split_avx512 },
#endif
    };
    long v = c.choose(sizeof V / sizeof *V, "variant"); UL m = c.from({ 2, 97, (1L << 30) - 35, 1515531528 }, "modulus"); long len = c.from({ 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 64, 65, 100, 129, 257 }, "len"), nr = c.range(0, 13, "nrows"), pad = c.from({ 0, 1, 5 }, "stride - len"), t = c.choose(c.lim(1, 3, NPAT), "pattern");
    if (!c.mine()) return;
    nmod_t mod; nmod_init(&mod, m); long st = len + pad; H32 A(nr ? (nr - 1) * st + len : 0), x(len), r(nr + 1); for (long j = 0; j < len; j++) x[j] = val(t, j, len, m - 1, 1); for (long i = 0; i < nr; i++) for (long j = 0; j < (i + 1 < nr ? st : len); j++) A[i * st + j] = j < len ? val(t, j, len, m - 1, 2 + i) : 0xffffffff;
    for (long i = 0; i <= nr; i++) r[i] = 0xdeadbeef; V[v].f(r, A, x, nr, len, st, mod); if (nr && len) c.interesting();
    for (long i = 0; i < nr; i++) { UL s = 0; for (long j = 0; j < len; j++) s = (s + (UL) A[i * st + j] * x[j]) % m; eq(c, V[v].n, r[i], s, i); } if (r[nr] != 0xdeadbeef) c.fail("%s wrote beyond the result", V[v].n);
}
// ------------------------------------------------------------------ scalars
MC_SPACE(scalars, -1, 8)
{
    long k = c.choose(4, "what"), a = c.choose(c.lim(64, 600, 5000), "argument");
    if (!c.mine()) return;
    if (k == 0) { UL x = a < 500 ? a : (1UL << (a % 30)) + (long) (a / 30 % 3) - 1; long w = 0; while ((1UL << w) < x) w++; eq(c, "next_power_of_two", next_power_of_two(x), w); }
    if (k == 1) { UL p = a < 400 ? 2 * a + 1 : rnd(a, 1) | 1; for (int e = 1; e <= 63; e++) { UL i = inverse_mod_power_of_two(p, e); if (i >> e) c.fail("inverse_mod_power_of_two(%lu, %d) = %lu is not reduced", p, e, i); eq(c, "inverse_mod_power_of_two", (p * i) & mask(e), 1 & mask(e), e); } }
    if (k == 2)
    {   // all n for all primes below a bound: the order of the root is at least n; 0 only when no element has that order
        UL p = a + 2; for (UL d = 2; d * d <= p; d++) if (p % d == 0) return; if (p > 250) return; nmod_t mod; nmod_init(&mod, p);
        for (UL n = 0; n <= p + 1; n++) { UL r = nmod_find_root(n, mod); if (r >= p) c.fail("nmod_find_root(%lu) mod %lu = %lu", n, p, r); c.call(); c.observe(r); if (r == 0) { if (n <= p - 1 && p > 2 && n > 1) c.fail("nmod_find_root(%lu) mod %lu finds nothing, but a generator has order %lu", n, p, p - 1); continue; } UL o = 1, x = r; while (x != 1) { x = x * r % p; o++; } if (o < n) c.fail("nmod_find_root(%lu) mod %lu = %lu of order %lu", n, p, r, o); }
    }
    if (k == 3)
    {
        long s = 5 + a % 58, n = 1 + a / 58 % 4; if (s < 8 && n > 2) return; H v(n); nmod_vec_primes(v, n, s); UL prev = 0;
        for (long i = 0; i < n; i++) { mpz_t z; mpz_init_set_ui(z, v[i]); bool pr = mpz_probab_prime_p(z, 30); mpz_clear(z); c.call(); c.observe(v[i]); if (!pr || v[i] >> s || !(v[i] >> (s - 1)) || v[i] <= prev) c.fail("nmod_vec_primes(%ld primes of %ld bits): entry %ld is %lu", n, s, i, v[i]); prev = v[i]; }
    }
    c.interesting();
}
// ------------------------------------------------------------------ CRT with the hard-coded primes
#if defined(PML_HAVE_AVX2)
static const UL PR[4] = { PRIME0, PRIME1, PRIME2, PRIME3 };
MC_SPACE(nmod_multimod, -1, 16)
{
    long np = c.range(1, 4, "num_primes"); UL p = c.from({ 2, 3, 97, 65537, (1L << 31) - 1, (1L << 49) - 81, (1L << 50) - 27, (1L << 50) + 55, (1L << 52) - 47, (1L << 60) - 93, (1L << 62) - 57, (long) 0x7fffffffffffffe7L, (long) PRIME0 - 10, (long) PRIME0 + 12 }, "p"); long nb = c.from({ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16 }, "nb"), t = c.choose(c.lim(2, 8, 24), "data"), dir = c.choose(2, "direction");
    if (!c.mine()) return;
    nmod_multimod_CRT_t C; nmod_multimod_CRT_init(C, p, np); std::vector<H*> R; std::vector<UL*> rp; for (long j = 0; j < 4; j++) { H* h = new H(nb); R.push_back(h); rp.push_back(h->p); } H x(nb); if (nb) c.interesting();
    if (dir == 0)
    {
        for (long i = 0; i < nb; i++) x[i] = t == 0 ? p - 1 : t == 1 ? (i < 4 ? PR[i] % p : 0) : t == 2 ? (i < 4 && PR[i] - 1 < p ? PR[i] - 1 : p / 2) : t == 3 ? (i < 4 && 2 * PR[i] < p ? 2 * PR[i] - i % 2 : i) : rnd(i, t) % p;
        nmod_multimod_CRT_reduce(rp.data(), x, nb, C); for (long j = 0; j < np; j++) for (long i = 0; i < nb; i++) eq(c, "nmod_multimod_CRT_reduce", rp[j][i], x[i] % PR[j], i);
    }
    else
    {   // every residue vector: extreme, zero and dense residues
        for (long j = 0; j < np; j++) for (long i = 0; i < nb; i++) rp[j][i] = t == 0 ? PR[j] - 1 : t == 1 ? 0 : t == 2 ? (((i >> j) & 1) ? PR[j] - 1 : 0) : t == 3 ? 1 : t == 4 ? (((i + j) & 1) ? PR[j] / 2 : PR[j] / 2 + 1) : t == 5 ? rnd(i, j) % p % PR[j] : rnd(i * 5 + j, t) % PR[j];
        nmod_multimod_CRT_CRT(x, rp.data(), nb, C); mpz_t M, s, u, q; mpz_inits(M, s, u, q, NULL); mpz_set_ui(M, 1); for (long j = 0; j < np; j++) mpz_mul_ui(M, M, PR[j]);
        for (long i = 0; i < nb; i++) { mpz_set_ui(s, 0); for (long j = 0; j < np; j++) { mpz_divexact_ui(u, M, PR[j]); mpz_set_ui(q, PR[j]); mpz_t v; mpz_init(v); if (np > 1) mpz_invert(v, u, q); else mpz_set_ui(v, 1); mpz_mul_ui(v, v, rp[j][i]); mpz_mod(v, v, q); mpz_addmul(s, u, v); mpz_clear(v); } mpz_mod(s, s, M); eq(c, "nmod_multimod_CRT_CRT", x[i], mpz_fdiv_ui(s, p), i); }
        mpz_clears(M, s, u, q, NULL);
    }
    nmod_multimod_CRT_clear(C); for (auto h : R) delete h;
}
#endif
// ------------------------------------------------------------------ integers
static void tomp(mpz_t z, const fmpz_t x) { mpz_init(z); fmpz_get_mpz(z, x); }
static std::vector<UL> primes(UL n, long s) { std::vector<UL> v(n); nmod_vec_primes(v.data(), n, s); return v; }
static void bigint(mpz_t A, int t, const mpz_t P)      // the integers to reduce: around 0, +-(P-1), +-P, P/2 and beyond
{
    mpz_init(A);
    switch (t) { case 0: mpz_set_si(A, 0); break; case 1: mpz_set_si(A, 1); break; case 2: mpz_set_si(A, -1); break; case 3: mpz_sub_ui(A, P, 1); break; case 4: mpz_neg(A, P); mpz_add_ui(A, A, 1); break; case 5: mpz_fdiv_q_2exp(A, P, 1); break; case 6: mpz_fdiv_q_2exp(A, P, 1); mpz_neg(A, A); break; case 7: mpz_set_si(A, 0x7fffffffffffffffL); break; case 8: mpz_set_si(A, -0x123456789abcdefL); break; case 9: mpz_fdiv_q_2exp(A, P, mpz_sizeinbase(P, 2) / 2); break; case 10: mpz_fdiv_q_ui(A, P, 3); mpz_neg(A, A); break; default: mpz_set_ui(A, 1); mpz_mul_2exp(A, A, mpz_sizeinbase(P, 2) > 1 ? mpz_sizeinbase(P, 2) - 1 : 0); break; }
}
MC_SPACE(fmpz_naive, -1, 16)
{
    long np = c.from({ 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 33, 60, 100, 200 }, "num_primes"), s = c.from({ 16, 28, 29, 30, 31, 32, 50, 60, 61, 62, 63 }, "bits"), t = c.choose(12, "integer");
    if (!c.mine()) return;
    std::vector<UL> q = primes(np, s), r(np, 7); mpz_t P, A; mpz_init_set_ui(P, 1); for (UL x : q) mpz_mul_ui(P, P, x); bigint(A, t, P); fmpz_t a; fmpz_init(a); fmpz_set_mpz(a, A); c.interesting();
    fmpz_multimod_naive_t M; fmpz_multimod_naive_init(M, q.data(), np); fmpz_multimod_naive_reduce(r.data(), a, M); for (long i = 0; i < np; i++) eq(c, "fmpz_multimod_naive_reduce", r[i], mpz_fdiv_ui(A, q[i]), i); fmpz_multimod_naive_clear(M);
    fmpz_CRT_naive_t N; fmpz_CRT_naive_init(N, q.data(), np); for (long i = 0; i < np; i++) r[i] = mpz_fdiv_ui(A, q[i]);
    fmpz_CRT_naive_CRT(a, r.data(), N); mpz_t B, W; tomp(B, a); mpz_init(W); mpz_fdiv_r(W, A, P); c.call(); if (mpz_cmp(B, W)) c.fail("fmpz_CRT_naive_CRT does not return the integer of [0, product) with these residues");
    // combine: sum m_i prod_{j != i} p_j, for arbitrary m
    std::vector<UL> m(np); for (long i = 0; i < np; i++) m[i] = t % 3 == 0 ? q[i] - 1 : t % 3 == 1 ? (i % 2) : rnd(i, t) % q[i]; fmpz_CRT_naive_combine(a, m.data(), N); mpz_clear(B); tomp(B, a); mpz_set_ui(W, 0); for (long i = 0; i < np; i++) { mpz_t u; mpz_init(u); mpz_divexact_ui(u, P, q[i]); mpz_addmul_ui(W, u, m[i]); mpz_clear(u); } c.call(); if (mpz_cmp(B, W)) c.fail("fmpz_CRT_naive_combine does not return sum m_i P / p_i"); fmpz_CRT_naive_clear(N);
    mpz_clears(A, B, W, P, NULL); fmpz_clear(a);
}
MC_SPACE(fmpz_tree, 0, 16)
{
    long np = c.from({ 1, 2, 5, 50, 199, 200, 201, 399, 400, 401, 402, 600, 601, 799, 1000 }, "num_primes"), s = c.from({ 28, 29, 31, 50, 60, 63 }, "bits"), t = c.choose(12, "integer");
    if (!c.mine()) return;
    std::vector<UL> q = primes(np, s), r(np, 7); mpz_t P, A; mpz_init_set_ui(P, 1); for (UL x : q) mpz_mul_ui(P, P, x); bigint(A, t, P); fmpz_t a; fmpz_init(a); fmpz_set_mpz(a, A); c.interesting();
    fmpz_multimod_CRT_t M; fmpz_multimod_CRT_init(M, q.data(), np); fmpz_multimod_CRT_reduce(r.data(), a, M); for (long i = 0; i < np; i++) eq(c, "fmpz_multimod_CRT_reduce", r[i], mpz_fdiv_ui(A, q[i]), i);
    fmpz_multimod_CRT_CRT(a, r.data(), M); mpz_t B, W; tomp(B, a); mpz_init(W); mpz_fdiv_r(W, A, P); c.call(); if (mpz_cmp(B, W)) { mpz_sub(B, B, W); c.fail("fmpz_multimod_CRT_CRT does not return the integer of [0, product) with these residues%s", mpz_divisible_p(B, P) ? " (it is congruent to it)" : ""); }
    fmpz_multimod_CRT_clear(M); mpz_clears(A, B, W, P, NULL); fmpz_clear(a);
}
#if defined(PML_HAVE_AVX2)
MC_SPACE(fmpz_matmul, -1, 16)
{
    long m = c.from({ 0, 1, 2, 3, 5 }, "m"), k = c.from({ 0, 1, 2, 4, 9 }, "k"), n = c.from({ 0, 1, 2, 3, 6 }, "n"), b1 = c.from({ 1, 20, 62, 63, 64, 300, 2000 }, "bits A"), b2 = c.from({ 1, 30, 64, 65, 500 }, "bits B"), t = c.choose(c.lim(2, 4, 6), "signs and values");
    if (!c.mine()) return;
    auto gen = [&](fmpz_mat_t X, long r, long s, long b, long salt) { fmpz_mat_init(X, r, s); for (long i = 0; i < r; i++) for (long j = 0; j < s; j++) { mpz_t z; mpz_init_set_ui(z, 1); mpz_mul_2exp(z, z, b); mpz_sub_ui(z, z, 1); if (t & 1) { mpz_t y; mpz_init_set_ui(y, 0); for (long l = 0; l < b; l += 60) { mpz_mul_2exp(y, y, 60); mpz_add_ui(y, y, rnd(i * 100 + j, salt + l) >> 4); } mpz_and(z, z, y); mpz_clear(y); } if ((t == 0 && salt == 1) || (t >= 1 && (rnd(i, j + salt) & 1) && t != 4)) mpz_neg(z, z); if (t == 3 && (i + j) % 2) mpz_set_ui(z, 0); fmpz_set_mpz(fmpz_mat_entry(X, i, j), z); mpz_clear(z); } };
    fmpz_mat_t A, B, C; gen(A, m, k, b1, 1); gen(B, k, n, b2, 2); fmpz_mat_init(C, m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) fmpz_set_si(fmpz_mat_entry(C, i, j), 77);
    fmpz_mat_mul_multimod(C, A, B); if (m && n && k) c.interesting();
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { mpz_t s, x, y, z; mpz_init_set_ui(s, 0); for (long l = 0; l < k; l++) { tomp(x, fmpz_mat_entry(A, i, l)); tomp(y, fmpz_mat_entry(B, l, j)); mpz_addmul(s, x, y); mpz_clears(x, y, NULL); } tomp(z, fmpz_mat_entry(C, i, j)); c.call(); c.observe(mpz_fdiv_ui(z, 18446744073709551557UL)); int d = mpz_cmp(s, z); mpz_clears(s, z, NULL); if (d) c.fail("fmpz_mat_mul_multimod: entry (%ld, %ld) of the product is wrong", i, j); }
    fmpz_mat_clear(A); fmpz_mat_clear(B); fmpz_mat_clear(C);
}
#endif
