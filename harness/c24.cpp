// C24: joins, collapses and partial linearization
#include "mc.h"
#include "mat_lzz_pX_linearization.h"
#include "mat_lzz_pX_extra.h"
#include "bases.h"
using namespace ref;
static void same(mc::Ctx& c, const MX& got, const MX& want, const char* w) { c.call(); c.observe(hsh(got)); if (!wf(got, want.NumRows(), want.NumCols())) { c.fail("%s: dimensions %ldx%ld or entries not normalized", w, got.NumRows(), got.NumCols()); return; } if (!eq(got, want)) c.fail("%s: got %s want %s", w, str(got).c_str(), str(want).c_str()); }
static void joins(mc::Ctx& c, const MX& a0, const MX& b0)
{
    const long r = a0.NumRows(), ca = a0.NumCols(), cb = b0.NumCols(); MX W = mx(r, ca + cb); for (long i = 0; i < r; i++) { for (long j = 0; j < ca; j++) W[i][j] = a0[i][j]; for (long j = 0; j < cb; j++) W[i][ca + j] = b0[i][j]; }
    MX a = a0, b = b0, o = dirtyM(2, 3); PML::horizontal_join(o, a, b); same(c, o, W, "horizontal_join"); unchanged(c, a, a0, "horizontal_join"); unchanged(c, b, b0, "horizontal_join"); same(c, PML::horizontal_join(a, b), W, "horizontal_join (value)"); { MX u = a0; PML::horizontal_join(u, u, b); same(c, u, W, "horizontal_join (a aliased)"); } { MX u = b0; PML::horizontal_join(u, a, u); same(c, u, W, "horizontal_join (b aliased)"); }
}
static void collapses(mc::Ctx& c, const MX& a0, long d)     // entries of degree < d
{
    const long r = a0.NumRows(), t = a0.NumCols(); for (long s = 1; s <= t; s++) if (t % s == 0) for (long k = 0; k < 2; k++)
    {
        const long nc = k ? s : t / s, q = k ? t / s : s; MX W = mx(r, nc); for (long i = 0; i < r; i++) for (long j = 0; j < nc; j++) for (long e = 0; e < q; e++) W[i][j] = radd(W[i][j], shl(a0[i][k ? j + e * s : j * s + e], e * d));
        const char* w = k ? "collapse_nonconsecutive_columns" : "collapse_consecutive_columns"; MX a = a0, o = dirtyM(r + 1, 2), u = a0; if (k) { PML::collapse_nonconsecutive_columns(o, a, d, s); PML::collapse_nonconsecutive_columns(u, u, d, s); same(c, PML::collapse_nonconsecutive_columns(a, d, s), W, w); } else { PML::collapse_consecutive_columns(o, a, d, s); PML::collapse_consecutive_columns(u, u, d, s); same(c, PML::collapse_consecutive_columns(a, d, s), W, w); }
        same(c, o, W, w); same(c, u, W, w); unchanged(c, a, a0, w); if (q > 1) c.interesting();
    }
}
static long mdeg(const MX& a) { long d = -1; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) d = std::max(d, dg(a[i][j])); return d; }
static long cdeg(const MX& a, long j) { long d = -1; for (long i = 0; i < a.NumRows(); i++) d = std::max(d, dg(a[i][j])); return d; }
// the linearization of A div x^inf with steps e_j + 1
static void check_lin(mc::Ctx& c, const char* w, const MX& A, const MX& P, const std::vector<long>& cols, const VL& e, const VL& tgt, long inf)
{
    const long r = A.NumRows(), n = A.NumCols(); c.call(); c.observe(hsh(P)); if ((long) cols.size() != n + 1 || cols[0] != 0) { c.fail("%s: parameters", w); return; } if (!wf(P, r, cols[n])) { c.fail("%s: dimensions %ldx%ld or entries not normalized", w, P.NumRows(), P.NumCols()); return; }
    for (long j = 0; j < n; j++)
    {
        const long t = std::max(tgt[j] - inf, 0L), k = (t + e[j] + 1) / (e[j] + 1), got = cols[j + 1] - cols[j]; if (got != k && !(tgt[j] < 0 && got == 0)) { c.fail("%s: column %ld expanded into %ld columns instead of %ld", w, j, got, k); return; }
        for (long i = 0; i < r; i++) { zz_pX s; for (long q = 0; q < got; q++) { const zz_pX& x = P[i][cols[j] + q]; if ((q < got - 1 || tgt[j] >= cdeg(A, j)) && dg(x) > e[j]) { c.fail("%s: entry of degree %ld in an expansion of degree %ld", w, dg(x), e[j]); return; } s = radd(s, shl(x, q * (e[j] + 1))); } if (!eq(s, shl(A[i][j], -inf))) { c.fail("%s: entry %ld,%ld is not recovered", w, i, j); return; } }
        if (got > 1) c.interesting();
    }
}
static void linearize(mc::Ctx& c, const MX& A, const VL& e, const VL& tgt)
{
    const long n = A.NumCols(); MX a = A, P = dirtyM(2, 4); std::vector<long> E(e.begin(), e.end()), T(tgt.begin(), tgt.end()), q; VL cd; for (long j = 0; j < n; j++) cd.push_back(cdeg(A, j));
    q = PML::column_partial_linearization(P, a, E, T); check_lin(c, "column_partial_linearization", A, P, q, e, tgt, 0);
    P = dirtyM(3, 3); q = PML::column_partial_linearization_cdeg(P, a, E); check_lin(c, "column_partial_linearization_cdeg", A, P, q, e, cd, 0);
    if (n == 0) return;
    const VL u(n, e[0]), ut(n, tgt[0]);
    q = PML::column_partial_linearization(P, a, e[0], T); check_lin(c, "column_partial_linearization (uniform)", A, P, q, u, tgt, 0); q = PML::column_partial_linearization_cdeg(P, a, e[0]); check_lin(c, "column_partial_linearization_cdeg (uniform)", A, P, q, u, cd, 0); q = PML::column_partial_linearization(P, a, e[0], tgt[0]); check_lin(c, "column_partial_linearization (uniform, target)", A, P, q, u, ut, 0);
    // default steps: 1 + average degree
    long s = 0; for (long x : tgt) s += x; const VL v(n, 1 + s / n); if (v[0] >= 0) { q = PML::column_partial_linearization(P, a, T); check_lin(c, "column_partial_linearization (default)", A, P, q, v, tgt, 0); } s = 0; for (long x : cd) s += x; const VL vc(n, 1 + s / n); q = PML::column_partial_linearization_cdeg(P, a); check_lin(c, "column_partial_linearization_cdeg (default)", A, P, q, vc, cd, 0);
    for (long inf = 0; inf < 4; inf++) { P = dirtyM(2, 2); q = PML::column_partial_linearization(P, a, E, T, inf); check_lin(c, "column_partial_linearization (from a degree)", A, P, q, e, tgt, inf); }
    unchanged(c, a, A, "column_partial_linearization");
}
static void products(mc::Ctx& c, const MX& A, const MX& B, long slack)
{
    const MX W = rmul(A, B); MX a = A, b = B; const long n = B.NumCols(), m = A.NumRows(); std::vector<long> cd; long D = 0; for (long j = 0; j < n; j++) { cd.push_back(cdeg(B, j) + slack); D = std::max(D, cd[j]); }
    for (long e = 0; e < 5; e++)
    {
        MX o = dirtyM(m, n); PML::right_parlin_multiply(o, a, b, e, cd); same(c, o, W, "right_parlin_multiply (column degrees)"); o = dirtyM(2, 2); PML::right_parlin_multiply(o, a, b, e); same(c, o, W, "right_parlin_multiply"); o = dirtyM(m, n); PML::right_parlin_multiply(o, a, b, e, D); same(c, o, W, "right_parlin_multiply (degree)");
        const long da = mdeg(A); for (long dA = std::max(da, 0L); dA <= std::max(da, 0L) + 2; dA++) for (long dB = 0; dB <= 4; dB++)
        {
            MX M = mx(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) M[i][j] = rtrunc(shl(W[i][j], -dA), dB + 1);
            MX o2 = dirtyM(m, n); PML::right_parlin_middle_product(o2, a, b, e, cd, dA, dB); same(c, o2, M, "right_parlin_middle_product (column degrees)"); o2 = dirtyM(m, n); PML::right_parlin_middle_product(o2, a, b, e, D, dA, dB); same(c, o2, M, "right_parlin_middle_product");
        }
    }
    MX o = dirtyM(m, n); PML::right_parlin_multiply(o, a, b); same(c, o, W, "right_parlin_multiply (default)"); unchanged(c, a, A, "right_parlin"); unchanged(c, b, B, "right_parlin"); if (mdeg(W) > 0) c.interesting();
}
MC_SPACE(tiny, -1, 96)
{
    // p, rows, cols, degree bound
    static const long T[6][4] = { { 2, 1, 2, 3 }, { 2, 2, 1, 3 }, { 3, 1, 1, 4 }, { 2, 2, 2, 2 }, { 2, 1, 4, 2 }, { 3, 1, 2, 3 } };
    long w = c.choose(c.lim(3, 5, 6), "shape"); const long *t = T[w], p = t[0]; long k = c.choose(ipow(p, t[1] * t[2] * t[3]), "A"), e = c.choose(4, "e"), s = c.range(-2, 2, "slack"), m = c.choose(2, "profile");
    if (!c.mine()) return;
    setp(p); const MX A = nthX(k, t[1], t[2], t[3]); VL E, G; for (long j = 0; j < t[2]; j++) { E.push_back(m && j % 2 ? 3 - e : e); G.push_back(std::max(-1L, cdeg(A, j) + (m && j % 2 ? 1 : s))); } linearize(c, A, E, G); if (e == 0 && s == 0 && m == 0) { collapses(c, A, t[3]); collapses(c, A, t[3] + 1); joins(c, A, A); }
}
MC_SPACE(products_tiny, -1, 96)
{
    // p, m, k, n, dA, dB
    static const long T[6][6] = { { 2, 1, 1, 1, 3, 4 }, { 2, 1, 1, 2, 2, 3 }, { 2, 2, 1, 1, 2, 2 }, { 3, 1, 1, 1, 2, 3 }, { 2, 1, 2, 2, 2, 2 }, { 2, 2, 1, 2, 2, 2 } };
    long w = c.choose(c.lim(3, 5, 6), "shape"); const long *t = T[w], p = t[0]; long k = c.choose(ipow(p, t[1] * t[2] * t[4]), "A"), l = c.choose(ipow(p, t[2] * t[3] * t[5]), "B"), s = c.choose(2, "slack");
    if (!c.mine()) return;
    setp(p); products(c, nthX(k, t[1], t[2], t[4]), nthX(l, t[2], t[3], t[5]), s);
}
static MX prof(long m, long n, long D, long t, long s)
{
    MX B = mx(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) switch (t)
    {
        case 0: B[i][j] = pat(D_DENSE, D, 11 * s + 5 * i + j); break; case 1: B[i][j] = pat(D_DENSE, j == 0 ? D * n : 1, s + i + j); break; case 2: B[i][j] = pat(D_DENSE, (i * 3 + j * 5 + s) % (D + 1), i + j); break; case 3: if (j % 2) B[i][j] = pat(D_DENSE, D, i + j); break;
        case 4: B[i][j] = i == 0 ? pat(D_DENSE, D, j) : zz_pX(); break; case 5: B[i][j] = i == j % m ? mono(1, D) : cst(1); break; case 6: break; case 7: B[i][j] = pat(D_MAX, 1 + (j * D) / n, i); break;
    }
    return B;
}
MC_SPACE(shapes, 0, 96)
{
    long p = c.from({ 2, 97, P60, FFT0 }, "p"), m = c.range(1, c.lim(2, 3, 4), "m"), n = c.range(1, c.lim(2, 4, 6), "n"), D = c.from(c.thorough() ? VL{ 1, 2, 3, 5, 8, 16, 17, 40, 64 } : VL{ 1, 2, 3, 8, 17 }, "D"), t = c.choose(8, "B"), e = c.from({ 0, 1, 2, 3, 7, 16, 50 }, "e"), s = c.range(-1, 2, "slack");
    if (!c.mine()) return;
    setp(p); const MX A = prof(m, n, D, t, 1); VL E, G; for (long j = 0; j < n; j++) { E.push_back(e + j % 3); G.push_back(std::max(-1L, cdeg(A, j) + s)); } linearize(c, A, E, G); if (e == 0 && s == 0) { collapses(c, A, mdeg(A) + 1); collapses(c, A, mdeg(A) + 3); joins(c, A, prof(m, 2, D, 0, 2)); joins(c, A, mx(m, 0)); }
}
MC_SPACE(products, 0, 96)
{
    long p = c.from(c.thorough() ? VL{ 2, 97, P60, FFT0 } : VL{ 2, P60 }, "p"), m = c.range(1, c.lim(2, 2, 3), "m"), k = c.range(1, c.lim(2, 2, 3), "k"), n = c.range(1, c.lim(2, 3, 4), "n"), DA = c.from({ 1, 3, 6 }, "degA"), D = c.from(c.thorough() ? VL{ 1, 2, 5, 12, 33 } : VL{ 1, 3, 12 }, "degB"), ta = c.from({ 0, 2, 4, 6 }, "A"), tb = c.choose(8, "B"), s = c.choose(2, "slack");
    if (!c.mine()) return;
    setp(p); products(c, prof(m, k, DA, ta, 3), prof(k, n, D, tb, 4), s);
}
