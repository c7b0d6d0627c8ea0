// C14: power series and rational linear system solving
#include "mc.h"
#include "ref.h"
#include "rnd.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
using namespace ref;
static const std::vector<long> PR = { 2, 3, 7, P20, P60, 1152921504606846883L, FFT0, FFT0 + 1, -257, -12289 };
static MX unitX(long kind, long n, long len, long k0, uint64_t s)
{
    MX a = patX(kind, n, n, len, s); MP m0;
    if (k0 == 0) m0 = identP(n);
    else if (k0 == 1) { m0 = cm(n, n); for (long i = 0; i < n; i++) m0[i][n - 1 - i] = Z(md() - 1); }
    else { MP L = identP(n), U = identP(n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { if (j < i) L[i][j] = Z(elt(s + 5, i * 50 + j)); if (j > i) U[i][j] = Z(elt(s + 6, i * 50 + j)); if (i == j) U[i][j] = Z(1 + elt(s + 7, i) % (md() - 1)); } m0 = rmul(L, U); }
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { VL v = un(a[i][j]); if (v.empty()) v.push_back(0); v[0] = R(m0[i][j]); a[i][j] = mk(v); }
    return a;
}
// the unique u mod x^m with A u = b mod x^m
static MX refsolve(const MX& a, const MX& b, long m)
{
    const long n = a.NumRows(), d = dg(a), q = b.NumCols(); MP i0 = rinverse(coef(a, 0)); std::vector<MP> x, A; for (long i = 0; i <= d; i++) A.push_back(rmul(i0, coef(a, i)));
    for (long k = 0; k < m; k++) { MP s = rmul(i0, coef(b, k)); for (long j = 1; j <= k && j <= d; j++) s = rsub(s, rmul(A[j], x[k - j])); x.push_back(s); }
    MX r = mx(n, q); for (long i = 0; i < n; i++) for (long j = 0; j < q; j++) { VL v; for (long k = 0; k < m; k++) v.push_back(R(x[k][i][j])); r[i][j] = mk(v); } return r;
}
static void series(mc::Ctx& c, const MX& a, const MX& b, long m, const std::vector<long>& th, bool alias)
{
    const long n = a.NumRows(), q = b.NumCols(); const MX w = refsolve(a, b, m); MX A = a, B = b, x = dirtyM(n, q);
    PML::solve_series(x, A, B, m); expect(c, x, w, "solve_series"); expect(c, PML::solve_series(A, B, m), w, "solve_series");
    x = dirtyM(n, q); PML::solve_series_high_precision(x, A, B, m); expect(c, x, w, "high_precision");
    for (long t : th) { x = dirtyM(n, q); PML::solve_series_low_precision(x, A, B, m, t); expect(c, x, w, "low_precision"); }
    if (dg(b) < dg(a)) { x = dirtyM(n, q); PML::solve_series_high_order_lifting(x, A, B, m); expect(c, x, w, "high_order_lifting"); }
    { VX bv, xv = dirtyVX(n + 1), wv; bv.SetLength(n); wv.SetLength(n); for (long i = 0; i < n; i++) { bv[i] = b[i][0]; wv[i] = w[i][0]; } const VX b0 = bv; PML::solve_series(xv, A, bv, m); expect(c, xv, wv, "solve_series vec"); unchanged(c, bv, b0, "vec"); if (alias) { PML::solve_series(bv, A, bv, m); expect(c, bv, wv, "solve_series vec alias"); } }
    unchanged(c, A, a, "A"); unchanged(c, B, b, "b");
    if (alias)
    {
        x = b; PML::solve_series(x, A, x, m); expect(c, x, w, "alias b"); x = a; PML::solve_series(x, x, B, m); expect(c, x, w, "alias A");
        x = b; PML::solve_series_high_precision(x, A, x, m); expect(c, x, w, "alias b"); x = a; PML::solve_series_high_precision(x, x, B, m); expect(c, x, w, "alias A");
        x = b; PML::solve_series_low_precision(x, A, x, m, 2); expect(c, x, w, "alias b"); x = a; PML::solve_series_low_precision(x, x, B, m, 2); expect(c, x, w, "alias A");
        if (dg(b) < dg(a)) { x = b; PML::solve_series_high_order_lifting(x, A, x, m); expect(c, x, w, "alias b"); x = a; PML::solve_series_high_order_lifting(x, x, B, m); expect(c, x, w, "alias A"); }
    }
}
MC_SPACE(tiny, -1, 32)
{
    long w = c.choose(4, "shape"); static const long S[4][4] = { { 2, 1, 4, 4 }, { 3, 1, 3, 3 }, { 2, 2, 2, 1 }, { 3, 2, 1, 1 } };
    const long p = S[w][0], n = S[w][1], len = S[w][2]; long k = c.choose(ipow(p, n * n * len), "A"), kb = c.choose(ipow(p, n * S[w][3]), "b"), m = c.range(1, c.lim(3, 6, 9), "prec");
    if (!c.mine()) return;
    setp(p); MX a = nthX(k, n, n, len); if (rdet(coef(a, 0)) == 0) return;
    series(c, a, nthX(kb, n, 1, S[w][3]), m, { 1, 2, -1 }, m == 3); c.interesting();
}
MC_SPACE(small, -1, 32)
{
    long p = c.from(PR, "p"), n = c.range(1, c.lim(2, 3, 4), "n"), q = c.range(1, c.lim(2, 2, 3), "q"), len = c.range(1, c.lim(2, 5, 8), "lenA"), lb = c.range(0, c.lim(2, 6, 9), "lenB"), m = c.range(1, c.lim(4, 12, 20), "prec"), k = c.from({ D_DENSE, D_MAX, D_TOP, M_UNBAL, M_ONE }, "kind");
    if (!c.mine()) return;
    setp(p); series(c, unitX(k, n, len, 2, 1), patX(k == M_UNBAL ? M_UNBAL : D_DENSE, n, q, lb, 2), m, { 1, 2, 3, 5, -1 }, k == D_DENSE); c.interesting();
}
MC_SPACE(precisions, 0, 64)
{
    long p = c.from(PR, "p"), m = c.from({ 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200 }, "prec"), len = c.from({ 1, 2, 9, 16, 17, 40, 130 }, "lenA"), lb = c.from({ 1, 8, 40, 250 }, "lenB");
    if (c.smoke() && (p != P60 && p != FFT0)) return;
    if (!c.mine()) return;
    if (p == -257 && m > 64) return;
    setp(p); series(c, unitX(D_DENSE, 2, len, 2, 1), patX(D_DENSE, 2, 1, lb, 2), m, { 1, 8, 32, -1 }, m % 8 == 0); c.interesting();
}
// ---- rational solutions
MC_SPACE(dims, 0, 32)
{
    long p = c.from({ 2, P20, P60, FFT0, -12289 }, "p"), n = c.from(c.thorough() ? VL{ 5, 6, 8, 9, 12, 17, 20 } : VL{ 5, 9, 17 }, "n"), q = c.from({ 1, 2, 5 }, "q"), len = c.from({ 1, 2, 4, 9 }, "lenA"), lb = c.from({ 1, 3, 12 }, "lenB"), m = c.from({ 1, 4, 9, 10, 21 }, "prec"), k = c.from({ D_DENSE, M_UNBAL }, "kind");
    if (!c.mine()) return;
    setp(p); series(c, unitX(k, n, len, 2, 1), patX(D_DENSE, n, q, lb, 2), m, { 2, -1 }, m == 9 && n == q); c.interesting();
}
struct Rat { VX num; zz_pX den; };            // A num = den b, gcd(den, num...) = 1, den monic
static Rat cramer(const MX& a, const VX& b)
{
    const long n = a.NumRows(); zz_pX d = rdet(a), g = d; Rat r; r.num.SetLength(n);
    for (long j = 0; j < n; j++) { MX t = a; for (long i = 0; i < n; i++) t[i][j] = b[i]; r.num[j] = rdet(t); g = rgcd(g, r.num[j]); }
    g = scal(g, C(rquo(d, g), dg(d) - dg(g)));
    for (long j = 0; j < n; j++) r.num[j] = rquo(r.num[j], g); r.den = rquo(d, g); return r;
}
static void check_sol(mc::Ctx& c, const MX& a, const VX& b, const VX& u, const zz_pX& den, const Rat& w, const char* what, bool monic)
{
    c.call(); c.observe(hsh(u)); c.observe(hsh(den)); for (long i = 0; i < u.length(); i++) c.check(wellformed(u[i]), "numerator not normalized"); c.check(wellformed(den), "denominator not normalized");
    if (dg(den) < 0) c.fail("%s: zero denominator", what);
    VX l = rmul(a, u), r; r.SetLength(b.length()); for (long i = 0; i < b.length(); i++) r[i] = rmul(den, b[i]);
    if (!eq(l, r)) c.fail("%s: A u != den b: A=%s b=%s u=%s den=%s", what, str(a).c_str(), str(b).c_str(), str(u).c_str(), str(den).c_str());
    if (!eq(rmonic(den), w.den)) c.fail("%s: denominator is not minimal: A=%s b=%s den=%s want %s", what, str(a).c_str(), str(b).c_str(), str(den).c_str(), str(w.den).c_str());
    if (monic && C(den, dg(den)) != 1) c.fail("%s: denominator not monic", what);
}
// what linsolve_via_series documents: a random linear combination of the entries of the solution is
// reconstructed, so a draw is good when that combination has the same denominator as the solution
static bool good_draw(const Rat& w, const VL& r) { zz_pX l; for (size_t j = 0; j < r.size(); j++) l = radd(l, scal(w.num[j], r[j])); return dg(rgcd(w.den, l)) == 0; }
static void via_kernel(mc::Ctx& c, const MX& a, const VX& b, const Rat& w)
{
    MX A = a; VX B = b, u = dirtyVX(a.NumCols() + 1); zz_pX den = dirtyP(); long ok = PML::linsolve_via_kernel(u, den, A, B);
    if (ok != 1) c.fail("linsolve_via_kernel: no solution found: A=%s b=%s", str(a).c_str(), str(b).c_str()); check_sol(c, a, b, u, den, w, "linsolve_via_kernel", false); unchanged(c, A, a, "A"); unchanged(c, B, b, "b"); c.interesting();
}
static void via_series(mc::Ctx& c, const MX& a, const VX& b, const Rat& w, bool alias)
{ MX A = a; VX B = b, u = alias ? b : dirtyVX(a.NumCols() + 1); zz_pX den = dirtyP(); if (alias) PML::linsolve_via_series(u, den, A, u); else PML::linsolve_via_series(u, den, A, B); unchanged(c, A, a, "A"); unchanged(c, B, b, "b"); check_sol(c, a, b, u, den, w, "linsolve_via_series", true); c.interesting(); }
static void rational(mc::Ctx& c, const MX& a, const VX& b, bool series, uint64_t stream)
{
    const Rat w = cramer(a, b); via_kernel(c, a, b, w); if (!series) return;
    rnd::reset(VL(), stream); via_series(c, a, b, w, false); rnd::reset(VL(), stream); via_series(c, a, b, w, true);
}
MC_SPACE(rational_tiny, -1, 32)
{
    long w = c.choose(4, "shape"); static const long S[4][4] = { { 2, 1, 4, 4 }, { 3, 1, 3, 3 }, { 2, 2, 2, 2 }, { 3, 2, 1, 2 } };
    const long p = S[w][0], n = S[w][1], len = S[w][2]; long k = c.choose(ipow(p, n * n * len), "A"), kb = c.choose(ipow(p, n * S[w][3]), "b");
    if (!c.mine()) return;
    setp(p); MX a = nthX(k, n, n, len); if (dg(rdet(a)) < 0) return; VX b; b.SetLength(n); MX t = nthX(kb, n, 1, S[w][3]); for (long i = 0; i < n; i++) b[i] = t[i][0];
    const Rat sol = cramer(a, b); via_kernel(c, a, b, sol); if (rdet(coef(a, 0)) == 0) return;
    // every sequence of draws: at least as many correct answers as there are good draws
    long good = 0, right = 0; std::string err;
    for (long r = 0; r < ipow(p, n); r++)
    {
        VL d; for (long i = 0, q = r; i < n; i++) { d.push_back(q % p); q /= p; }
        if (dg(a) == 0 || good_draw(sol, d)) good++;
        rnd::reset(d, 1); try { via_series(c, a, b, sol, r % 2); right++; } catch (const mc::Failure& e) { err = e.what(); }
    }
    if (right < good) c.fail("%ld good draws, %ld correct answers: %s", good, right, err.c_str());
}
MC_SPACE(rational, -1, 32)
{
    long p = c.from({ 7, P20, P60, P59, FFT0, -257 }, "p"), n = c.range(1, c.lim(2, 4, 5), "n"), len = c.range(1, c.lim(2, 5, 8), "lenA"), lb = c.range(0, c.lim(2, 8, 12), "lenB"), k = c.choose(M_COUNT, "kindA"), kb = c.from({ D_DENSE, M_ONE, M_UNBAL, D_HIGH, D_CONST }, "kindB"), s = c.choose(2, "stream");
    if (!c.mine()) return;
    setp(p); MX a = unitX(k, n, len, 2, 1); rational(c, a, patVX(kb, n, lb, 2), p == P60 || p == P59 || p == FFT0, s + 1);
}
// denominators strictly smaller than the determinant: A with repeated or partly cancelling diagonal structure
MC_SPACE(rational_special, 0, 32)
{
    long p = c.from({ 7, P20, P60, FFT0 }, "p"), n = c.range(2, c.lim(3, 3, 4), "n"), d = c.range(1, c.lim(2, 4, 6), "d"), t = c.choose(5, "type"), kb = c.from({ D_DENSE, M_ONE, D_MAX, D_ZERO, D_CONST }, "kindB"), lb = c.range(1, 6, "lenB");
    if (!c.mine()) return;
    setp(p); MX a = mx(n, n); zz_pX f = pat(D_DENSE, d + 1, 3); { VL v = un(f); v[0] = 1; f = mk(v); }
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { if (i == j) a[i][j] = t == 1 ? radd(f, mono(1, d + i)) : f; else if (t == 2 && j > i) a[i][j] = pat(D_DENSE, d, 4 + i); else if (t == 3 && j < i) a[i][j] = f; else if (t == 4 && j == i + 1) a[i][j] = mono(1, 2 * d); }
    if (dg(rdet(a)) < 0 || rdet(coef(a, 0)) == 0) return;
    rational(c, a, patVX(kb, n, lb, 2), p == P60 || p == P59 || p == FFT0, 1);
}
// singular constant term, or rectangular: kernel-based solving only
MC_SPACE(kernel_solve, -1, 32)
{
    long p = c.from({ 2, 7, P20, FFT0 }, "p"), m = c.range(1, c.lim(2, 3, 4), "rows"), n = c.range(1, c.lim(2, 3, 4), "cols"), len = c.range(1, 4, "len"), lb = c.range(0, 5, "lenB"), k = c.choose(M_COUNT, "kindA"), kb = c.from({ D_DENSE, M_ONE, M_UNBAL }, "kindB"), r = c.choose(2, "inspan");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, m, n, len, 1); VX b = patVX(kb, m, lb, 2); if (r) b = rmul(a, patVX(kb, n, lb, 2));
    if (m == n && dg(rdet(a)) >= 0) { rational(c, a, b, false, 1); return; }
    MX aug = mx(m, n + 1); for (long i = 0; i < m; i++) { for (long j = 0; j < n; j++) aug[i][j] = a[i][j]; aug[i][n] = b[i]; }
    const bool solvable = rrank(aug) == rrank(a); VX u = dirtyVX(n); zz_pX den = dirtyP(); long ok = PML::linsolve_via_kernel(u, den, a, b); expectl(c, ok, solvable ? 1 : 0, "linsolve_via_kernel answer"); c.interesting();
    if (!ok) return; VX l = rmul(a, u), rr; rr.SetLength(m); for (long i = 0; i < m; i++) rr[i] = rmul(den, b[i]); if (dg(den) < 0 || !eq(l, rr)) c.fail("linsolve_via_kernel: A u != den b: A=%s b=%s u=%s den=%s", str(a).c_str(), str(b).c_str(), str(u).c_str(), str(den).c_str());
}
