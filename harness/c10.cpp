// C10: every polynomial matrix product algorithm against the exact product
#include "mc.h"
#include "ref.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_arith.h"
#include "lzz_p_extra.h"
using namespace ref; using PML::operator*;
typedef void (*Alg)(MX&, const MX&, const MX&);
static void disp(MX& c, const MX& a, const MX& b) { PML::multiply(c, a, b); }
static void disp0(MX& c, const MX& a, const MX& b) { PML::multiply(c, a, b, 0); }
static void trs(MX& c, const MX& a, const MX& b) { PML::multiply_transform(c, a, b); }
struct Row { const char* name; Alg f; };
static std::vector<Row> algs(long dA, long dB)
{
    std::vector<Row> v = { { "multiply", disp }, { "multiply, modulus not known to be prime", disp0 }, { "multiply_naive", PML::multiply_naive }, { "multiply_waksman", PML::multiply_waksman }, { "multiply_3_primes", PML::multiply_3_primes } };
    const long dm = std::max(dA, dB), n = std::max(dA, 0L) + std::max(dB, 0L) + 1;
    if (dm <= 40) { v.push_back({ "multiply_transform_naive", PML::multiply_transform_naive }); v.push_back({ "multiply_transform", trs }); }
    if (dm <= 1) v.push_back({ "multiply_transform_karatsuba", PML::multiply_transform_karatsuba });
    if (dm <= 2) v.push_back({ "multiply_transform_montgomery3", PML::multiply_transform_montgomery3 });
    if (dm <= 3) v.push_back({ "multiply_transform_karatsuba4", PML::multiply_transform_karatsuba4 });
    if (md() > n) v.push_back({ "multiply_evaluate_dense", PML::multiply_evaluate_dense });
    if (md() > 2 * n + 2) v.push_back({ "multiply_evaluate_dense2", PML::multiply_evaluate_dense2 });
    if (md() > 4 * n + 8) v.push_back({ "multiply_evaluate_geometric", PML::multiply_evaluate_geometric });
    if (PML::is_FFT_ready(NTL::NextPowerOfTwo(n)))
        for (Row r : std::vector<Row>{ { "multiply_evaluate_FFT_direct", PML::multiply_evaluate_FFT_direct }, { "multiply_evaluate_FFT_direct_ll_type", PML::multiply_evaluate_FFT_direct_ll_type }, { "multiply_evaluate_FFT_matmul1", PML::multiply_evaluate_FFT_matmul1 }, { "multiply_evaluate_FFT_matmul2", PML::multiply_evaluate_FFT_matmul2 }, { "multiply_evaluate_FFT_matmul3", PML::multiply_evaluate_FFT_matmul3 } }) v.push_back(r);
    if (PML::is_FFT_ready(NTL::NextPowerOfTwo(n)) && md() > 2 * n + 2) v.push_back({ "multiply_evaluate_FFT", PML::multiply_evaluate_FFT });
    return v;
}
// the exact product; long entries are multiplied entry by entry with NTL
static MX prod(const MX& a, const MX& b)
{
    if ((double) a.NumRows() * a.NumCols() * b.NumCols() * (dg(a) + 1) * (dg(b) + 1) < 2e7) return rmul(a, b);
    MX c = mx(a.NumRows(), b.NumCols()); zz_pX t;
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) for (long k = 0; k < a.NumCols(); k++) { NTL::mul(t, a[i][k], b[k][j]); NTL::add(c[i][j], c[i][j], t); }
    return c;
}
static void run(mc::Ctx& c, const MX& a, const MX& b, const MX& w, const Row& r, bool alias)
{
    MX A = a, B = b, x = dirtyM(a.NumRows(), b.NumCols()); r.f(x, A, B); expect(c, x, w, r.name);
    unchanged(c, A, a, r.name); unchanged(c, B, b, r.name);
    if (!alias) return;
    x = dirtyM(a.NumRows() + 1, 1); r.f(x, A, B); expect(c, x, w, r.name);
    x = a; r.f(x, x, B); expect(c, x, w, r.name); x = b; r.f(x, A, x); expect(c, x, w, r.name);
    if (a.NumRows() == a.NumCols() && eq(a, b)) { x = a; r.f(x, x, x); expect(c, x, w, r.name); }
}
static void all(mc::Ctx& c, const MX& a, const MX& b, bool alias = true, bool just = false)
{
    MX w = prod(a, b);
    for (const Row& r : algs(dg(a), dg(b))) if (!just || r.f == disp || r.f == disp0) run(c, a, b, w, r, alias);
    MX A = a, B = b; expect(c, A * B, w, "*");
    for (long k : { 0L, 1L, dg(a) + 1, dg(a) + dg(b), dg(w) + 3 }) if (k >= 0) { MX x = dirtyM(1, 1); PML::mul_trunc(x, A, B, k); expect(c, x, rtrunc(w, k), "mul_trunc"); expect(c, PML::mul_trunc(A, B, k), rtrunc(w, k), "mul_trunc"); }
    if (b.NumCols() == 1)
    {
        VX v, x = dirtyVX(2), ww; v.SetLength(b.NumRows()); for (long i = 0; i < b.NumRows(); i++) v[i] = b[i][0]; ww.SetLength(w.NumRows()); for (long i = 0; i < w.NumRows(); i++) ww[i] = w[i][0];
        const VX v0 = v; PML::multiply(x, A, v); expect(c, x, ww, "matrix times vector"); expect(c, A * v, ww, "matrix times vector"); x = v; PML::multiply(x, A, x); expect(c, x, ww, "matrix times vector, aliased"); x = v; PML::multiply(x, A, v, 0); expect(c, x, ww, "matrix times vector"); unchanged(c, v, v0, "vector operand");
    }
    if (a.NumRows() == 1)
    {
        VX v = a[0], x = dirtyVX(2), ww = w[0];
        const VX v0 = v; PML::multiply(x, v, B); expect(c, x, ww, "vector times matrix"); expect(c, v * B, ww, "vector times matrix"); x = v; PML::multiply(x, x, B); expect(c, x, ww, "vector times matrix, aliased"); x = v; PML::multiply(x, v, B, 0); expect(c, x, ww, "vector times matrix"); unchanged(c, v, v0, "vector operand");
    }
    unchanged(c, A, a, "left operand"); unchanged(c, B, b, "right operand"); c.interesting();
}
static const std::vector<long> PR = { 2, 3, 5, 17, P27, P60, 1152921504606846883L, FFT0, -257, -12289 };
MC_SPACE(shapes, -1, 32)
{
    long p = c.from(PR, "p"), m = c.range(1, c.lim(2, 3, 5), "m"), n = c.range(1, c.lim(3, 4, 6), "n"), k = c.range(1, c.lim(2, 3, 5), "k"), la = c.range(0, c.lim(3, 5, 8), "lenA"), lb = c.range(0, c.lim(3, 5, 8), "lenB"), ka = c.from({ D_DENSE, M_UNBAL }, "kindA"), kb = c.from({ D_DENSE, D_MAX, M_ONE }, "kindB");
    if (!c.mine()) return;
    setp(p); all(c, patX(ka, m, n, la, 1), patX(kb, n, k, lb, 2), la + lb < 6);
}
MC_SPACE(kinds, 0, 32)
{
    long p = c.from(PR, "p"), m = c.range(1, 2, "m"), n = c.from({ 2, 5 }, "n"), k = c.range(1, 2, "k"), la = c.from({ 1, 2, 6 }, "lenA"), lb = c.from({ 1, 3, 7 }, "lenB"), ka = c.choose(M_COUNT, "kindA"), kb = c.choose(M_COUNT, "kindB");
    if (!c.mine()) return;
    setp(p); all(c, patX(ka, m, n, la, 1), patX(kb, n, k, lb, 2), false);
}
MC_SPACE(gf_exhaustive, 0, 64)
{
    long q = c.choose(4, "shape"); static const long S[4][6] = { { 2, 1, 2, 1, 3, 3 }, { 2, 2, 2, 2, 2, 1 }, { 3, 1, 2, 1, 2, 2 }, { 2, 1, 3, 2, 2, 1 } };
    const long *s = S[q]; setp(s[0]); long x = c.choose(ipow(s[0], s[1] * s[2] * s[4]), "a"), y = c.choose(ipow(s[0], s[2] * s[3] * s[5]), "b");
    if (!c.mine()) return;
    setp(s[0]); all(c, nthX(x, s[1], s[2], s[4]), nthX(y, s[2], s[3], s[5]), false, (x + y) % 7 != 0);
}
// squares, and products whose factors are the same object
MC_SPACE(squares, 0, 16)
{
    long p = c.from(PR, "p"), n = c.range(1, c.lim(3, 5, 7), "n"), l = c.range(0, c.lim(3, 7, 12), "len"), k = c.from({ D_DENSE, D_MAX, M_UNBAL }, "kind");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, n, n, l, 1); all(c, a, a);
}
// every length around powers of two (truncated FFT lengths, wrap-around) and the degree thresholds
MC_SPACE(lengths, 0, 32)
{
    long p = c.from({ FFT0, -12289, P60, P23, 31 }, "p"), la = c.from({ 2, 5, 8, 9, 16, 17, 33, 64 }, "lenA"), lb = c.thorough() ? c.range(1, 80, "lenB") : c.from({ 1, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66, 80 }, "lenB"), s = c.from({ 0, 1, 2 }, "shape"), ka = c.from({ D_DENSE, D_MAX }, "kindA");
    if (!c.mine()) return;
    static const long S[3][3] = { { 2, 2, 1 }, { 1, 3, 2 }, { 3, 2, 3 } };
    setp(p); all(c, patX(ka, S[s][0], S[s][1], la, 1), patX(M_UNBAL, S[s][1], S[s][2], lb, 2), false);
}
// inner dimension: cache blocks of 8 and 16, and the 255 products a 128-bit accumulator can hold
MC_SPACE(inner, 0, 32)
{
    long p = c.from({ FFT0, -12289, P60, -97 }, "p"), t = c.from({ 6, 7, 8, 9, 15, 16, 17, 18, 31, 33, 254, 255, 256, 257, 509, 510, 511, 512 }, "t"), s = c.from({ 0, 1, 2, 3, 4 }, "shape"), la = c.from({ 1, 2, 5 }, "lenA"), ka = c.from({ D_DENSE, D_MAX, D_CONST }, "kindA");
    if (!c.mine()) return;
    static const long S[5][2] = { { 1, 1 }, { 2, 1 }, { 1, 9 }, { 9, 17 }, { 17, 16 } }; if (t > 40 && s > 1) return;
    setp(p); MX a = patX(ka, S[s][0], t, la, 1), b = patX(ka, t, S[s][1], 3, 2);
    if (ka == D_CONST) { for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < t; j++) { a[i][j] = cst(md() - 1); if (la > 1) a[i][j] = radd(a[i][j], mono(1, la - 1)); } for (long i = 0; i < t; i++) for (long j = 0; j < b.NumCols(); j++) b[i][j] = cst(md() - 1); }
    all(c, a, b, false);
}
// outer dimensions: cache blocks
MC_SPACE(outer, 0, 32)
{
    long p = c.from({ FFT0, -12289, P60 }, "p"), m = c.from({ 1, 2, 8, 9, 16, 17, 33 }, "m"), k = c.from({ 1, 7, 8, 9, 15, 16, 17, 33 }, "k"), t = c.from({ 2, 3, 9 }, "t"), l = c.from({ 2, 7 }, "len");
    if (!c.mine()) return;
    setp(p); all(c, patX(D_DENSE, m, t, l, 1), patX(M_UNBAL, t, k, l + 1, 2), false);
}
// the dispatchers at their dimension and degree thresholds
MC_SPACE(dispatch, 0, 64)
{
    long p = c.from({ FFT0, -12289, -7340033, P60, P59, P23, P20, 3, 31 }, "p"), n = c.from({ 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }, "n"), d = c.from({ 3, 4, 5, 6, 7, 15, 16, 25, 26, 33, 66, 101 }, "deg"), u = c.from({ 0, 1 }, "skew");
    if (c.smoke() && (p != FFT0 && p != P60 && p != P23 && p != 3)) return;
    if (!c.mine()) return;
    if (!c.thorough() && (n * n * n * d * d > 4000000)) return;
    setp(p); all(c, patX(D_DENSE, n, n, d + 1, 1), patX(D_DENSE, n, n - u, d + 1 - 2 * u, 2), false, true); c.interesting();
}
MC_SPACE(dispatch_large, 0, 64)
{
    long p = c.from({ FFT0, -7340033, P60, P23 }, "p"), n = c.from({ 16, 17, 19, 20, 21, 24, 25, 26, 31, 48 }, "n"), d = c.from({ 6, 20, 32, 33, 51, 81, 90 }, "deg");
    if (c.smoke() && (p != FFT0 && p != P60)) return;
    if (!c.mine()) return;
    if (!c.thorough() && (n * n * n * d > 600000)) return;
    setp(p); all(c, patX(D_DENSE, n, n, d + 1, 1), patX(D_DENSE, n, n, d + 1, 2), false, true);
}
MC_SPACE(dispatch_long, 0, 32)
{
    long p = c.from({ FFT0, P60, P23, P59, 2 }, "p"), s = c.choose(6, "shape"), d = c.from({ 120, 199, 200, 201, 249, 251, 513, 1301 }, "deg"), e = c.from({ 1, 60, 300 }, "degB");
    if (!c.mine()) return;
    static const long S[6][3] = { { 1, 1, 1 }, { 1, 2, 1 }, { 2, 2, 2 }, { 3, 3, 3 }, { 1, 1, 4 }, { 4, 4, 4 } };
    setp(p); all(c, patX(D_DENSE, S[s][0], S[s][1], d + 1, 1), patX(D_MAX, S[s][1], S[s][2], e + 1, 2), false, true);
}
// three primes: the number of primes follows the size of the integer coefficients; operands vanish modulo an FFT prime
MC_SPACE(three_primes, 0, 32)
{
    static const long B = 1152921504606846883L;
    long p = c.from({ 2, 3, P16, P20, P23, P25, P27, P30, P31, P59, P60, B }, "p"), t = c.from({ 1, 2, 3, 4, 16, 17, 64, 65, 300 }, "t"), la = c.from({ 1, 2, 3, 4, 9, 64, 65, 300 }, "lenA"), lb = c.from({ 1, 2, 64, 300 }, "lenB"), k = c.choose(3, "kind");
    if (!c.mine()) return;
    if (t * la * lb > 300000) return;
    setp(p); MX a = patX(D_MAX, 1, t, la, 1), b = patX(D_MAX, t, 1, lb, 2);
    if (k == 1) { b = patX(D_DENSE, t, 1, lb, 2); } if (k == 2) { if (p != B) return; for (long j = 0; j < t; j++) { a[0][j] = scal(pat(D_TOP, la, 1), P60); if (j % 2) b[j][0] = scal(pat(D_TOP, lb, 1), P60); } }
    MX w = prod(a, b); run(c, a, b, w, { "multiply_3_primes", PML::multiply_3_primes }, false); run(c, a, b, w, { "multiply", disp }, false); run(c, a, b, w, { "multiply", disp0 }, false); c.interesting();
}
// coefficients of the integer product that vanish modulo some of the auxiliary FFT primes
MC_SPACE(vanishing, 0, 16)
{
    static const long B = 1152921504606846883L;
    long p = c.from({ P31, P59, P60, B }, "p"), w = c.choose(9, "multiple"), la = c.from({ 1, 2, 3, 20 }, "lenA"), lb = c.from({ 1, 2, 20 }, "lenB"), k = c.choose(3, "position");
    if (!c.mine()) return;
    setp(p); long u[2], v[2]; if (!vanish(w, u, v)) return;
    MX a = patX(D_DENSE, 2, 2, la, 1), b = patX(D_DENSE, 2, 2, lb, 2);
    for (long j = 0; j < 2; j++) { if (k == 0) { setc(a[0][j], la - 1, u[j]); setc(b[j][0], lb - 1, v[j]); } else if (k == 1) { a[0][j] = cst(u[j]); b[j][0] = cst(v[j]); } else { a[0][j] = mono(u[j], la - 1); b[j][1] = mono(v[j], lb - 1); } }
    MX w_ = prod(a, b); run(c, a, b, w_, { "multiply_3_primes", PML::multiply_3_primes }, true); run(c, a, b, w_, { "multiply", disp0 }, false); c.interesting();
}
MC_SPACE(vandermonde, 0, 8)
{
    long p = c.from({ 31, P27, P60, FFT0 }, "p"), d1 = c.range(0, 6, "d1"), d2 = c.range(0, 6, "d2");
    if (!c.mine()) return;
    setp(p); MP u, v, w; PML::vandermonde(u, v, w, d1, d2); const long n = d1 + d2 + 1; MP V = cm(n, n), U = cm(n, d1 + 1), W = cm(n, d2 + 1);
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { long x = powm(i, j); V[i][j] = Z(x); if (j <= d1) U[i][j] = Z(x); if (j <= d2) W[i][j] = Z(x); }
    expect(c, u, U, "first Vandermonde matrix"); expect(c, v, W, "second Vandermonde matrix"); expect(c, rmul(w, V), identP(n), "inverse Vandermonde matrix");
    const long h = (d1 + d2) / 2 + 1; PML::vandermonde2(u, v, w, d1, d2); V = cm(h, h); U = cm(h, d1 / 2 + 1); W = cm(h, d2 / 2 + 1);
    for (long i = 0; i < h; i++) for (long j = 0; j < h; j++) { long x = powm((i + 1) * (i + 1) % md(), j); V[i][j] = Z(x); if (j <= d1 / 2) U[i][j] = Z(x); if (j <= d2 / 2) W[i][j] = Z(x); }
    expect(c, u, U, "first even Vandermonde matrix"); expect(c, v, W, "second even Vandermonde matrix"); expect(c, rmul(w, V), identP(h), "inverse even Vandermonde matrix"); c.interesting();
}
