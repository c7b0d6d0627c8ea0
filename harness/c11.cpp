// C11: polynomial matrix middle products and the transposed product
#include "mc.h"
#include "ref.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_arith.h"
#include "lzz_p_extra.h"
using namespace ref;
typedef void (*Alg)(MX&, const MX&, const MX&, long, long);
static void disp(MX& b, const MX& a, const MX& c, long dA, long dB) { PML::middle_product(b, a, c, dA, dB); }
static void disp0(MX& b, const MX& a, const MX& c, long dA, long dB) { PML::middle_product(b, a, c, dA, dB, 0); }
static void disp1(MX& b, const MX& a, const MX& c, long dA, long dB) { b = PML::middle_product(a, c, dA, dB); }
struct Row { const char* name; Alg f; };
static std::vector<Row> algs(long dA, long dB)
{
    std::vector<Row> v = { { "middle_product", disp }, { "middle_product, modulus not known to be prime", disp0 }, { "middle_product by value", disp1 }, { "middle_product_naive", PML::middle_product_naive }, { "middle_product_3_primes", PML::middle_product_3_primes } };
    const long n = dA + dB + 1;
    if (md() > n) v.push_back({ "middle_product_evaluate_dense", PML::middle_product_evaluate_dense });
    if (PML::is_FFT_ready(NTL::NextPowerOfTwo(n)))
        for (Row r : std::vector<Row>{ { "middle_product_evaluate_FFT_direct", PML::middle_product_evaluate_FFT_direct }, { "middle_product_evaluate_FFT_direct_ll_type", PML::middle_product_evaluate_FFT_direct_ll_type }, { "middle_product_evaluate_FFT_matmul", PML::middle_product_evaluate_FFT_matmul }, { "middle_product_evaluate_FFT_matmul1", PML::middle_product_evaluate_FFT_matmul1 }, { "middle_product_evaluate_FFT_matmul2", PML::middle_product_evaluate_FFT_matmul2 }, { "middle_product_evaluate_FFT_matmul3", PML::middle_product_evaluate_FFT_matmul3 }, { "middle_product_evaluate_FFT", PML::middle_product_evaluate_FFT }, { "middle_product_evaluate_FFT_new", PML::middle_product_evaluate_FFT_new } }) v.push_back(r);
    return v;
}
static MX win(const MX& a, const MX& c, long dA, long dB)
{
    MX p;
    if ((double) a.NumRows() * a.NumCols() * c.NumCols() * (dg(a) + 1) * (dg(c) + 1) < 2e7) p = rmul(rtrunc(a, dA + 1), c);
    else { p = mx(a.NumRows(), c.NumCols()); zz_pX t; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < c.NumCols(); j++) for (long k = 0; k < a.NumCols(); k++) { NTL::mul(t, rtrunc(a[i][k], dA + 1), c[k][j]); NTL::add(p[i][j], p[i][j], t); } }
    return mapM(p, [&](const zz_pX& x, long, long) { return slice(x, dA, dA + dB + 1); });
}
static void run(mc::Ctx& c, const MX& a, const MX& C_, long dA, long dB, const MX& w, const Row& r, bool alias)
{
    MX A = a, B = C_, x = dirtyM(a.NumRows(), C_.NumCols()); r.f(x, A, B, dA, dB); expect(c, x, w, r.name); unchanged(c, A, a, r.name); unchanged(c, B, C_, r.name);
    if (!alias) return;
    x = dirtyM(a.NumRows() + 1, 1); r.f(x, A, B, dA, dB); expect(c, x, w, r.name);
    x = a; r.f(x, x, B, dA, dB); expect(c, x, w, r.name); x = C_; r.f(x, A, x, dA, dB); expect(c, x, w, r.name);
}
static void all(mc::Ctx& c, const MX& a, const MX& C_, long dA, long dB, bool alias, bool just = false)
{
    MX w = win(a, C_, dA, dB);
    for (const Row& r : algs(dA, dB)) if (!just || r.f == disp || r.f == disp0) run(c, a, C_, dA, dB, w, r, alias);
    if (md() > 4 * (dA + dB + 1) + 8 && !just)
    {
        MX ra = mapM(a, [&](const zz_pX& x, long, long) { return rrev(x, dA); });
        run(c, a, C_, dA, dB, win(ra, C_, dA, dB), { "t_multiply_evaluate_geometric", PML::t_multiply_evaluate_geometric }, alias);
    }
    c.interesting();
}
static const std::vector<long> PR = { 2, 3, 17, P27, P60, 1152921504606846883L, FFT0, -257, -12289 };
MC_SPACE(shapes, -1, 32)
{
    long p = c.from(PR, "p"), m = c.range(1, c.lim(2, 3, 4), "m"), n = c.range(1, c.lim(2, 3, 5), "n"), k = c.range(1, c.lim(2, 3, 4), "k"), dA = c.range(0, c.lim(2, 4, 7), "dA"), dB = c.range(0, c.lim(2, 4, 7), "dB"), q = c.choose(6, "lengths");
    if (!c.mine()) return;
    static const long K[6][2] = { { D_DENSE, D_DENSE }, { M_UNBAL, D_MAX }, { D_MAX, M_UNBAL }, { M_ONE, D_DENSE }, { D_ZERO, D_DENSE }, { D_DENSE, D_ZERO } };
    setp(p); all(c, patX(K[q][0], m, n, dA + 1, 1), patX(K[q][1], n, k, dA + dB + 1, 2), dA, dB, dA + dB < 5);
}
// operands shorter than the window bounds, all length combinations
MC_SPACE(short_operands, -1, 32)
{
    long p = c.from(PR, "p"), s = c.choose(2, "shape"), dA = c.range(0, c.lim(3, 5, 8), "dA"), dB = c.range(0, c.lim(3, 5, 8), "dB"), la = c.range(0, dA + 1, "lenA"), lc = c.range(0, dA + dB + 1, "lenC");
    if (!c.mine()) return;
    setp(p); all(c, patX(D_DENSE, 2 - s, 2, la, 1), patX(M_UNBAL, 2, 2, lc, 2), dA, dB, false);
}
// the dispatcher truncates by definition
MC_SPACE(long_operands, 0, 32)
{
    long p = c.from(PR, "p"), n = c.from({ 1, 2, 5 }, "n"), dA = c.range(0, 6, "dA"), dB = c.range(0, 6, "dB"), xa = c.from({ 0, 1, 4, 20 }, "excessA"), xc = c.from({ 0, 1, 5, 30 }, "excessC");
    if (!c.mine()) return;
    setp(p); all(c, patX(D_DENSE, n, n, dA + 1 + xa, 1), patX(D_DENSE, n, n, dA + dB + 1 + xc, 2), dA, dB, true, true);
}
MC_SPACE(gf_exhaustive, 0, 64)
{
    long q = c.choose(3, "shape"); static const long S[3][6] = { { 2, 1, 2, 1, 1, 1 }, { 2, 1, 1, 1, 3, 3 }, { 3, 1, 1, 2, 1, 1 } };
    const long *s = S[q]; setp(s[0]); long x = c.choose(ipow(s[0], s[1] * s[2] * (s[4] + 1)), "a"), y = c.choose(ipow(s[0], s[2] * s[3] * (s[4] + s[5] + 1)), "c");
    if (!c.mine()) return;
    setp(s[0]); all(c, nthX(x, s[1], s[2], s[4] + 1), nthX(y, s[2], s[3], s[4] + s[5] + 1), s[4], s[5], false);
}
MC_SPACE(kinds, 0, 32)
{
    long p = c.from(PR, "p"), m = c.range(1, 2, "m"), n = c.from({ 1, 2, 5 }, "n"), k = c.range(1, 2, "k"), dA = c.from({ 0, 1, 6 }, "dA"), dB = c.from({ 0, 2, 7 }, "dB"), ka = c.choose(M_COUNT, "kindA"), kb = c.choose(M_COUNT, "kindC");
    if (!c.mine()) return;
    if (!c.thorough() && (m + k + ka + kb) % 2) return;
    setp(p); all(c, patX(ka, m, n, dA + 1, 1), patX(kb, n, k, dA + dB + 1, 2), dA, dB, false);
}
MC_SPACE(lengths, 0, 32)
{
    static const std::vector<long> L = { 0, 1, 2, 3, 7, 8, 15, 16, 17, 24, 31, 32, 33, 63, 64, 100 };
    long p = c.from({ FFT0, -12289, P60, P23, 31 }, "p"), dA = c.from(L, "dA"), dB = c.from(L, "dB"), s = c.from({ 0, 1 }, "shape"), ka = c.from({ D_DENSE, D_MAX }, "kindA");
    if (!c.mine()) return;
    static const long S[2][3] = { { 2, 2, 1 }, { 1, 3, 3 } };
    setp(p); all(c, patX(ka, S[s][0], S[s][1], dA + 1, 1), patX(M_UNBAL, S[s][1], S[s][2], dA + dB + 1, 2), dA, dB, false);
}
MC_SPACE(inner, 0, 32)
{
    long p = c.from({ FFT0, -12289, P60, -97 }, "p"), t = c.from({ 6, 7, 8, 9, 15, 16, 17, 18, 31, 33, 254, 255, 256, 257, 509, 510, 511, 512 }, "t"), s = c.from({ 0, 1, 2, 3, 4 }, "shape"), dA = c.from({ 0, 1, 4 }, "dA"), ka = c.from({ D_DENSE, D_MAX, D_CONST }, "kindA");
    if (!c.mine()) return;
    static const long S[5][2] = { { 1, 1 }, { 2, 1 }, { 1, 9 }, { 9, 17 }, { 17, 16 } }; if (t > 40 && s > 1) return;
    setp(p); MX a = patX(ka, S[s][0], t, dA + 1, 1), b = patX(ka, t, S[s][1], dA + 3, 2);
    if (ka == D_CONST) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < t; j++) a[i][j] = cst(md() - 1); for (long i = 0; i < t; i++) for (long j = 0; j < b.NumCols(); j++) b[i][j] = cst(md() - 1); }
    all(c, a, b, dA, 2, false);
}
MC_SPACE(outer, 0, 32)
{
    long p = c.from({ FFT0, -12289, P60 }, "p"), m = c.from({ 1, 2, 8, 9, 16, 17, 33 }, "m"), k = c.from({ 1, 7, 8, 9, 15, 16, 17, 33 }, "k"), t = c.from({ 1, 2, 9 }, "t"), l = c.from({ 2, 7 }, "len");
    if (!c.mine()) return;
    setp(p); all(c, patX(D_DENSE, m, t, l, 1), patX(M_UNBAL, t, k, 2 * l, 2), l - 1, l, false);
}
MC_SPACE(dispatch, 0, 64)
{
    long z = c.choose(3, "zero operand"), p = c.from({ FFT0, -12289, P60, P59, P23, P20, 3, 31 }, "p"), n = c.range(2, 11, "n"), dA = c.from({ 0, 1, 4, 5, 6, 24, 25, 26, 51, 81, 91 }, "dA"), dB = c.from({ 0, 3, 5, 26, 90 }, "dB");
    if (c.smoke() && (p != FFT0 && p != P60 && p != P23 && p != 3)) return;
    if (!c.mine()) return;
    if (!c.thorough() && (n * n * n * dA * (dA + dB) > 4000000)) return;
    setp(p); all(c, patX(z == 1 ? D_ZERO : D_DENSE, n, n, dA + 1, 1), patX(z == 2 ? D_ZERO : D_DENSE, n, n, dA + dB + 1, 2), dA, dB, false, true);
}
MC_SPACE(dispatch_large, 0, 64)
{
    long p = c.from({ FFT0, -7340033, P60, P23 }, "p"), n = c.from({ 12, 19, 20, 21, 44, 45 }, "n"), dA = c.from({ 0, 1, 2, 9, 30, 40, 60 }, "dA"), dB = c.from({ 1, 8, 31, 60 }, "dB");
    if (c.smoke() && (p != FFT0 && p != P60)) return;
    if (!c.mine()) return;
    if (!c.thorough() && (n * n * n * (dA + dB) > 700000)) return;
    setp(p); MX a = patX(D_DENSE, n, n, dA + 1, 1), b = patX(D_DENSE, n, n, dA + dB + 1, 2), w = win(a, b, dA, dB);
    run(c, a, b, dA, dB, w, { "middle_product", disp }, false); if (PML::is_FFT_ready(NTL::NextPowerOfTwo(dA + dB + 1))) run(c, a, b, dA, dB, w, { "middle_product_evaluate_FFT_new", PML::middle_product_evaluate_FFT_new }, false); c.interesting();
}
MC_SPACE(dispatch_long, 0, 32)
{
    long p = c.from({ FFT0, P60, P23, P59, 2 }, "p"), s = c.choose(5, "shape"), dA = c.from({ 1, 60, 199, 200, 201, 249, 251, 513 }, "dA"), dB = c.from({ 0, 1, 60, 300 }, "dB");
    if (!c.mine()) return;
    static const long S[5][3] = { { 1, 1, 1 }, { 1, 2, 1 }, { 2, 2, 2 }, { 3, 3, 3 }, { 1, 1, 4 } };
    setp(p); all(c, patX(D_DENSE, S[s][0], S[s][1], dA + 1, 1), patX(D_MAX, S[s][1], S[s][2], dA + dB + 1, 2), dA, dB, false, true);
}
// the number of FFT primes must follow the true size of the window's coefficients
MC_SPACE(three_primes, 0, 32)
{
    static const long B = 1152921504606846883L;
    long p = c.from({ 2, 3, P16, P20, P23, P25, P27, P30, P31, P59, P60, B }, "p"), t = c.from({ 1, 2, 3, 4, 16, 17, 64 }, "t"), dA = c.from({ 0, 1, 2, 3, 8, 63, 64, 299, 700 }, "dA"), dB = c.from({ 0, 1, 2, 3, 63, 299 }, "dB"), k = c.choose(3, "kind");
    if (!c.mine()) return;
    if (t * dA * (dA + dB) > 700000) return;
    setp(p); MX a = patX(D_MAX, 1, t, dA + 1, 1), b = patX(D_MAX, t, 1, dA + dB + 1, 2);
    if (k == 1) b = patX(D_DENSE, t, 1, dA + dB + 1, 2);
    if (k == 2) { if (p != B) return; for (long j = 0; j < t; j++) { a[0][j] = scal(pat(D_TOP, dA + 1, 1), P60); if (j % 2) b[j][0] = scal(pat(D_TOP, dA + dB + 1, 1), P60); } }
    MX w = win(a, b, dA, dB); run(c, a, b, dA, dB, w, { "middle_product_3_primes", PML::middle_product_3_primes }, false); run(c, a, b, dA, dB, w, { "middle_product", disp }, false); c.interesting();
}
// coefficients of the integer product that vanish modulo some of the auxiliary FFT primes
MC_SPACE(vanishing, 0, 16)
{
    static const long B = 1152921504606846883L;
    long p = c.from({ P31, P59, P60, B }, "p"), w = c.choose(9, "multiple"), dA = c.from({ 0, 1, 2, 19 }, "dA"), dB = c.from({ 0, 1, 19 }, "dB"), k = c.choose(3, "position");
    if (!c.mine()) return;
    setp(p); long u[2], v[2]; if (!vanish(w, u, v)) return;
    MX a = patX(D_DENSE, 2, 2, 1, 1), b = patX(D_DENSE, 2, 2, dA + dB + 1, 2); const long e = k == 2 ? dA : dA + dB;
    for (long j = 0; j < 2; j++) { if (k == 1) { a[0][j] = mono(u[j], dA); b[j][0] = mono(v[j], dB); } else { a[0][j] = cst(u[j]); setc(b[j][0], e, v[j]); if (k == 2) b[j][0] = rtrunc(b[j][0], dA + 1); } }
    MX w_ = win(a, b, dA, dB); run(c, a, b, dA, dB, w_, { "middle_product_3_primes", PML::middle_product_3_primes }, true); run(c, a, b, dA, dB, w_, { "middle_product", disp0 }, false); c.interesting();
}
