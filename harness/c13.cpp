// C13: truncated inverses, high-order lifting, quotient and remainder
#include "mc.h"
#include "ref.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
using namespace ref;
static const std::vector<long> PR = { 2, 3, 7, P20, P60, 1152921504606846883L, FFT0, FFT0 + 1, -257, -17, -12289 };
// square matrix alphabet with invertible constant term: pattern + fixed unit constant term
static MX unitX(long kind, long n, long len, long k0, uint64_t s)
{
    MX a = patX(kind, n, n, len, s); MP m0;
    if (k0 == 0) m0 = identP(n);
    else if (k0 == 1) { m0 = cm(n, n); for (long i = 0; i < n; i++) m0[i][n - 1 - i] = Z(md() - 1); }
    else { MP L = identP(n), U = identP(n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { if (j < i) L[i][j] = Z(elt(s + 5, i * 50 + j)); if (j > i) U[i][j] = Z(elt(s + 6, i * 50 + j)); if (i == j) U[i][j] = Z(1 + elt(s + 7, i) % (md() - 1)); } m0 = rmul(L, U); }
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { VL v = un(a[i][j]); if (v.empty()) v.push_back(0); v[0] = R(m0[i][j]); a[i][j] = mk(v); }
    return a;
}
// same as rinv_trunc but skipping the zero coefficients of a
static MX refinv(const MX& a, long m)
{
    const long n = a.NumRows(), d = dg(a); MP i0 = rinverse(coef(a, 0)); std::vector<MP> x, A; for (long i = 0; i <= d; i++) A.push_back(rmul(i0, coef(a, i)));
    for (long k = 0; k < m; k++) { MP s = k == 0 ? i0 : cm(n, n); for (long j = 1; j <= k && j <= d; j++) s = rsub(s, rmul(A[j], x[k - j])); x.push_back(s); }
    MX r = mx(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { VL v; for (long k = 0; k < m; k++) v.push_back(R(x[k][i][j])); r[i][j] = mk(v); } return r;
}
static bool fft_ok(long m, long th) { long k = th; while (k < m) k *= 2; return PML::is_FFT_ready(NTL::NextPowerOfTwo(std::max(2 * k, 2 * m))); }
static void all(mc::Ctx& c, const MX& a, long m, const std::vector<long>& th, bool alias)
{
    const long n = a.NumRows(); const MX w = refinv(a, m); MX A = a, x = dirtyM(n, n);
    PML::inv_trunc(x, A, m); expect(c, x, w, "inv_trunc"); unchanged(c, A, a, "inv_trunc"); expect(c, PML::inv_trunc(A, m), w, "inv_trunc");
    x = dirtyM(1, n + 1); PML::plain_inv_trunc(x, A, m); expect(c, x, w, "plain"); unchanged(c, A, a, "plain");
    for (long t : th)
    {
        x = dirtyM(n, n); PML::newton_inv_trunc_middle_product(x, A, m, t); expect(c, x, w, "newton_middle_product");
        if (t == -1 ? (m <= 32 || md() > 12 * m + 8) : (m <= t || md() > 12 * m + 8)) { x = dirtyM(n, n); PML::newton_inv_trunc_geometric(x, A, m, t); expect(c, x, w, "newton_geometric"); }
        if (fft_ok(m, t == -1 ? 32 : t)) { x = dirtyM(n, n); PML::newton_inv_trunc_FFT(x, A, m, t); expect(c, x, w, "newton_FFT"); }
        unchanged(c, A, a, "newton");
    }
    if (alias)
    {
        x = a; PML::inv_trunc(x, x, m); expect(c, x, w, "inv_trunc alias"); x = a; PML::plain_inv_trunc(x, x, m); expect(c, x, w, "plain alias");
        x = a; PML::newton_inv_trunc_middle_product(x, x, m, 1); expect(c, x, w, "middle alias");
        if (md() > 12 * m + 8) { x = a; PML::newton_inv_trunc_geometric(x, x, m, 2); expect(c, x, w, "geometric alias"); x = a; PML::newton_inv_trunc_geometric(x, A, m, 2); expect(c, x, w, "geometric equal"); }
        if (fft_ok(m, 1)) { x = a; PML::newton_inv_trunc_FFT(x, x, m, 1); expect(c, x, w, "FFT alias"); }
    }
}
// every 1x1 and 2x2 matrix with an invertible constant term over tiny fields
MC_SPACE(tiny, -1, 32)
{
    long w = c.choose(6, "shape"); static const long S[6][3] = { { 2, 1, 5 }, { 3, 1, 4 }, { 7, 1, 3 }, { 2, 2, 2 }, { 3, 2, 1 }, { -17, 1, 2 } };
    const long p = std::labs(S[w][0]), n = S[w][1], len = S[w][2];
    long k = c.choose(ipow(p, n * n * len), "k"), m = c.range(1, c.lim(3, 6, 10), "m");
    if (!c.mine()) return;
    setp(S[w][0]); MX a = nthX(k, n, n, len); if (rdet(coef(a, 0)) == 0) return;
    all(c, a, m, { 1, 2, 3, -1 }, m == 3); c.interesting();
}
MC_SPACE(small, -1, 32)
{
    long p = c.from(PR, "p"), n = c.range(1, c.lim(2, 3, 5), "n"), len = c.range(1, c.lim(2, 6, 9), "len"), m = c.range(1, c.lim(4, 13, 20), "m"), k = c.choose(M_COUNT, "kind"), k0 = c.choose(3, "A0");
    if (!c.mine()) return;
    setp(p); all(c, unitX(k, n, len, k0, 1), m, { 1, 2, 3, 5, -1 }, k == D_DENSE); c.interesting();
}
// precisions around the plain/Newton crossovers and powers of two
MC_SPACE(precisions, 0, 64)
{
    long p = c.from(PR, "p"), m = c.range(1, 70, "m"), len = c.from({ 1, 2, 9, 40, 100 }, "len"), k = c.from({ D_DENSE, D_MAX, M_UNBAL }, "kind");
    if (!c.mine()) return;
    setp(p); all(c, unitX(k, 2, len, 2, 1), m, { 1, 4, 7, 8, 16, 32, 64, -1 }, m % 8 == 0); c.interesting();
}
MC_SPACE(long_precisions, 0, 64)
{
    long p = c.from({ 2, 3, 7, P20, P60, 1152921504606846883L, FFT0, FFT0 + 1, -12289 }, "p"), m = c.from({ 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 383, 385, 511, 512, 513 }, "m"), len = c.from({ 2, 33, 130, 520 }, "len"), n = c.from({ 1, 2 }, "n");
    if (!c.mine()) return;
    setp(p); all(c, unitX(D_DENSE, n, len, 2, 1), m, { 1, 5, -1 }, false); c.interesting();
}
MC_SPACE(dims, 0, 32)
{
    long p = c.from({ 2, P20, P60, FFT0, -257, -12289 }, "p"), n = c.from({ 4, 5, 8, 9, 17, 20 }, "n"), m = c.from({ 1, 2, 3, 17, 33, 40 }, "m"), k = c.from({ D_DENSE, D_MAX, D_TOP, M_UNBAL }, "kind");
    if (!c.mine()) return;
    setp(p); all(c, unitX(k, n, 5, 2, 1), m, { 2, -1 }, false); c.interesting();
}
// slices of the inverse expansion, iterated: S_{2d}, S_{3d}, S_{5d}, ...
MC_SPACE(lifting, -1, 32)
{
    long p = c.from(PR, "p"), n = c.range(1, c.lim(2, 3, 5), "n"), d = c.range(1, c.lim(3, 10, 24), "d"), k = c.from({ D_DENSE, D_MAX, D_TOP, M_UNBAL, M_ONE, D_SPARSE }, "kind"), it = c.range(1, c.lim(2, 4, 5), "iterations"), al = c.choose(2, "alias");
    if (!c.mine()) return;
    setp(p); MX a = unitX(k, n, d + 1, 2, 1); if (dg(a) != d) return;
    long i = 2 * d; for (long t = 0; t < it; t++) i = 2 * i - d; const MX inv = refinv(a, i), i0 = rtrunc(inv, d);
    auto ma = PML::get_lmultiplier(a, d - 1); auto mi = PML::get_lmultiplier(i0, d - 1);
    i = 2 * d; MX s = slice(inv, 1, 2 * d);
    for (long t = 0; t < it; t++) { MX nx = dirtyM(n, n), s0 = s; if (al) { PML::high_order_lift_inverse_odd(s, s, ma, mi, d); nx = s; } else { PML::high_order_lift_inverse_odd(nx, s, ma, mi, d); unchanged(c, s, s0, "lift"); s = nx; } i = 2 * i - d; expect(c, s, slice(inv, i - (2 * d - 1), i), "high_order_lift_inverse_odd"); }
    c.interesting();
}
// ---- quotient and remainder
static void division(mc::Ctx& c, const MX& A, const MX& B)
{
    const long m = B.NumRows(), n = A.NumCols(); MX a = A, b = B, q = dirtyM(m, n), r = dirtyM(m, n); PML::quo_rem(q, r, a, b); c.call(); c.observe(hsh(q)); c.observe(hsh(r));
    unchanged(c, a, A, "quo_rem A"); unchanged(c, b, B, "quo_rem B"); c.check(wellformed(q) && wellformed(r), "quo_rem: not normalized");
    if (q.NumRows() != m || q.NumCols() != n || r.NumRows() != m || r.NumCols() != n) c.fail("quo_rem: dimensions");
    if (!eq(radd(rmul(B, q), r), A)) c.fail("quo_rem: A != BQ+R, A=%s B=%s Q=%s R=%s", str(A).c_str(), str(B).c_str(), str(q).c_str(), str(r).c_str());
    for (long i = 0; i < m; i++) { long db = -1; for (long j = 0; j < m; j++) db = std::max(db, dg(B[i][j])); for (long j = 0; j < n; j++) if (dg(r[i][j]) >= db) c.fail("quo_rem: remainder too large in row %ld: A=%s B=%s R=%s", i, str(A).c_str(), str(B).c_str(), str(r).c_str()); }
}
static bool row_reduced(const MX& B)
{ long n = B.NumRows(); MP l = cm(n, n); for (long i = 0; i < n; i++) { long d = -1; for (long j = 0; j < n; j++) d = std::max(d, dg(B[i][j])); if (d < 0) return false; for (long j = 0; j < n; j++) l[i][j] = Z(C(B[i][j], d)); } return rdet(l) != 0; }
MC_SPACE(division_tiny, -1, 32)
{
    long w = c.choose(4, "shape"); static const long S[4][4] = { { 2, 1, 4, 4 }, { 3, 1, 3, 3 }, { 2, 2, 2, 3 }, { -17, 1, 2, 2 } };
    const long p = std::labs(S[w][0]), n = S[w][1]; long k = c.choose(ipow(p, n * n * S[w][2]), "B"), ka = n == 1 ? c.choose(ipow(p, S[w][3]), "A") : c.choose(c.lim(8, 64, 64), "A");
    if (!c.mine()) return;
    setp(S[w][0]); MX b = nthX(k, n, n, S[w][2]); if (!row_reduced(b)) return; division(c, n == 1 ? nthX(ka, 1, 1, S[w][3]) : nthX(ka, 2, 1, S[w][3]), b); c.interesting();
}
MC_SPACE(division_shapes, -1, 32)
{
    long p = c.from(PR, "p"), m = c.range(1, c.lim(2, 3, 5), "m"), n = c.range(1, c.lim(2, 3, 4), "n"), la = c.from({ 0, 1, 2, 3, 7, 20, 45 }, "lenA"), ka = c.from({ D_DENSE, M_UNBAL, M_ZROW, M_ONE, D_TOP }, "kindA"), rb = c.choose(5, "rdegB");
    if (!c.mine()) return;
    setp(p); MX l = unitX(D_ZERO, m, 1, 2, 3), b = mx(m, m); static const long D[5][5] = { { 0, 0, 0, 0, 0 }, { 1, 1, 1, 1, 1 }, { 3, 0, 2, 5, 1 }, { 0, 6, 1, 2, 0 }, { 4, 4, 3, 3, 3 } };
    for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { long d = D[rb][i]; VL v = un(pat(D_DENSE, d, 7 + 10 * i + j)); v.resize(d + 1); v[d] = C(l[i][j], 0); b[i][j] = mk(v); }
    division(c, patX(ka, m, n, la, 1), b); c.interesting();
}
