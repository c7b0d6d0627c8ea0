// C19: kernel bases and row reduction
#include "mc.h"
#include "bases.h"
#include "rnd.h"
#include "mat_lzz_pX_extra.h"
using namespace ref;
// gcd of the maximal minors of a full row rank matrix is a unit: its rows generate a saturated module
static bool saturated(const MX& K)
{
    const long k = K.NumRows(), m = K.NumCols(); zz_pX g; std::vector<long> sel(k); for (long i = 0; i < k; i++) sel[i] = m - k + i;
    for (;;)
    {
        MX S = mx(k, k); for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) S[i][j] = K[i][sel[j]];
        g = rgcd(g, rdet(S)); if (dg(g) == 0) return true;
        long t = 0; while (t < k && sel[t] == (t ? sel[t - 1] + 1 : 0)) t++;      // previous combination
        if (t == k) return false;
        sel[t]--; for (long i = t - 1; i >= 0; i--) sel[i] = sel[i + 1] - 1;
    }
}
static void check_ker(mc::Ctx& c, const char* w, const MX& K, const MX& F, const VL& s, const VL* sout, const VL* piv, long rank, bool ordered = true)
{
    const long m = F.NumRows(), n = F.NumCols(), k = m - rank; c.call(); for (long i = 0; i < K.NumRows(); i++) for (long j = 0; j < K.NumCols(); j++) c.observe(dg(K[i][j]));
    if (K.NumRows() != k) { c.fail("%s: %ld rows instead of %ld", w, (long) K.NumRows(), k); return; }
    if (k == 0) { if (K.NumCols() != m) c.fail("%s: wrong number of columns", w); if (sout && !sout->empty()) c.fail("%s: shifted row degree of an empty basis is not empty", w); if (piv && !piv->empty()) c.fail("%s: pivots of an empty basis", w); return; }
    if (!wf(K, k, m)) { c.fail("%s: wrong dimensions or entries not in normal form", w); return; }
    for (long i = 0; i < k; i++) for (long j = 0; j < n; j++) { VL v; for (long t = 0; t < m; t++) accmul(v, K[i][t], F[t][j]); for (long e : v) if (e) { c.fail("%s: row %ld is not in the kernel: %s", w, i, str(K).c_str()); return; } }
    if (!(ordered ? r_ordered(K, s) : r_weak(K, s))) { c.fail("%s: not in ordered weak Popov form: %s", w, str(K).c_str()); return; }
    if (!saturated(K)) { c.fail("%s: does not generate the kernel: %s", w, str(K).c_str()); return; }
    if (sout && *sout != rrdeg(K, s)) { c.fail("%s: wrong shifted row degree %s instead of %s", w, str(*sout).c_str(), str(rrdeg(K, s)).c_str()); return; }
    if (piv && *piv != rpivind(K, s)) { c.fail("%s: wrong pivot index", w); return; }
    if (dg(K) > 0) c.interesting();
}
static void all(mc::Ctx& c, const MX& F0, const VL& s0, uint64_t seed = 1)
{
    const long m = F0.NumRows(), rank = rrank(F0); VL s, piv; MX F = F0;
    { MX K = dirtyM(m + 1, m); s = s0; piv = VL{ 7, 7 }; PML::kernel_basis_via_approximation(K, piv, F, s); check_ker(c, "kernel_basis_via_approximation", K, F0, s0, &s, &piv, rank); unchanged(c, F, F0, "kernel_basis_via_approximation");
      for (long r = 0; r < 2; r++) { rnd::reset(VL(), seed); MX L = K; if (!PML::is_kernel_basis(L, F, VL(s0), PML::ORD_WEAK_POPOV, r == 1)) c.fail("is_kernel_basis refuses a kernel basis (randomized %ld) %s", r, str(K).c_str()); if (K.NumRows()) unchanged(c, L, K, "is_kernel_basis"); } }
    { rnd::reset(VL(), seed); MX K = dirtyM(m, m); s = s0; piv = VL(); PML::kernel_basis_via_interpolation(K, piv, F, s); check_ker(c, "kernel_basis_via_interpolation", K, F0, s0, &s, &piv, rank); unchanged(c, F, F0, "kernel_basis_via_interpolation"); }
    { MX K = dirtyM(m, m + 1); s = s0; MX G = F0; PML::kernel_basis_zls_via_approximation(K, G, s); check_ker(c, "kernel_basis_zls_via_approximation", K, F0, s0, &s, nullptr, rank); }
    { rnd::reset(VL(), seed); MX K = dirtyM(1, m); s = s0; MX G = F0; PML::kernel_basis_zls_via_interpolation(K, G, s); check_ker(c, "kernel_basis_zls_via_interpolation", K, F0, s0, &s, nullptr, rank); }
    { MX K; s = s0; PML::kernel_basis(K, F, s); check_ker(c, "kernel_basis", K, F0, s0, nullptr, nullptr, rank); unchanged(c, F, F0, "kernel_basis"); c.check(s == s0, "kernel_basis modified the shift"); }
}
static VL shift_of(mc::Ctx& c, long m, long B, long step) { VL s; for (long j = 0; j < m; j++) s.push_back(step * c.range(0, B, "s")); return s; }
MC_SPACE(tiny, -1, 96)
{
    static const long S[10][4] = { { 2, 2, 1, 3 }, { 2, 3, 1, 2 }, { 2, 2, 2, 2 }, { 3, 2, 1, 2 }, { 5, 2, 1, 2 }, { 2, 3, 2, 1 }, { 2, 1, 2, 2 }, { 3, 3, 1, 1 }, { 2, 4, 2, 1 }, { 2, 3, 2, 2 } };
    long w = c.choose(c.lim(8, 10, 10), "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2], len = S[w][3]; const bool big = w == 9; long k = c.choose(ipow(p, m * n * len), "F"), step = c.from(big ? VL{ 3 } : VL{ 1, 3 }, "step"); VL s = shift_of(c, m, big ? c.lim(0, 1, 2) : (w == 8 ? c.lim(1, 1, 2) : c.lim(1, 2, 2)), step);
    if (!c.mine()) return;
    setp(p); all(c, nthX(k, m, n, len), s);
}
// constant and low degree matrices with very unbalanced shifts: rows of the kernel above the first order
MC_SPACE(unbalanced, -1, 96)
{
    long p = c.from({ 2, 97, P60 }, "p"), m = c.range(4, c.lim(4, 7, 8), "m"), n = c.range(1, 3, "n"), t = c.choose(6, "type"), big = c.choose(m, "row"), amount = c.from({ 1, 4, 9, 20, -6 }, "amount"), two = c.choose(2, "second");
    if (!c.mine()) return;
    setp(p); MX F = mx(m, n);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) switch (t)
    {
        case 0: F[i][j] = cst(elt(5, i * n + j)); break;                                           // constant
        case 1: F[i][j] = i < n ? (i == j ? cst(1) : zz_pX()) : zz_pX(); break;                        // identity on top of zeros
        case 2: F[i][j] = i == big ? zz_pX() : pat(D_DENSE, 2, i * n + j); break;                      // a zero row under the largest shift
        case 3: F[i][j] = i == big ? pat(D_DENSE, 8, 40 + j) : cst(elt(6, i * n + j)); break;          // one row of high degree
        case 4: F[i][j] = pat(D_DENSE, 1 + (i == big) * 2, 3 * (i / 2) + j); break;                    // equal rows
        case 5: F[i][j] = j == 0 ? pat(D_DENSE, 2, i) : scal(pat(D_DENSE, 2, i), 1 + j); break;        // rank one
    }
    VL s(m, 0); s[big] = amount; if (two) s[(big + 2) % m] = amount / 2 + 1;
    all(c, F, s);
}
static MX inst(long t, long m, long n, long len)
{
    switch (t)
    {
        case 0: return patX(D_DENSE, m, n, len, 11);
        case 1: { MX a = patX(D_DENSE, m, n, len, 12); for (long j = 0; j < n; j++) a[m - 1][j] = a[0][j]; return a; }
        case 2: return rmul(patX(D_DENSE, m, 1, (len + 1) / 2, 13), patX(D_DENSE, 1, n, (len + 1) / 2, 14));
        case 3: return mx(m, n);
        case 4: { MX a = patX(D_DENSE, m, n, std::max(1L, len / 3), 15); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if ((i + j) % 2) a[i][j] = shl(a[i][j], len / 2); return a; }
        case 5: return patX(M_UNBAL, m, n, len, 16);
        case 6: { MX a = patX(D_DENSE, m, n, len, 17); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = shl(a[i][j], 1); return a; }           // constant coefficient zero
        case 7: { MX a = patX(D_DENSE, m, n, len, 18); for (long j = 0; j < n; j++) a[m / 2][j] = zz_pX(); return a; }
        case 8: { MX a = patX(D_DENSE, m, n, len, 19); for (long i = 0; i < m; i++) a[i][n - 1] = n > 1 ? rmul(a[i][0], mk(VL{ 1, 1 })) : a[i][0]; return a; }     // dependent columns
        case 9: { MX a = patX(D_DENSE, m, n, len, 20); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = rmul(a[i][j], mk(VL{ 1 % md(), 0, 1 % md() })); return a; } // common factor
        case 10: { MX a = rmul(patX(D_DENSE, m, 2, len / 2 + 1, 21), patX(D_DENSE, 2, n, (len + 1) / 2, 22)); return a; }                                                  // rank two
        default: { MX a = mx(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (i == j || i == j + n) a[i][j] = pat(D_DENSE, 1 + (i * 3) % len, 23 + i); return a; }         // block diagonal
    }
}
static VL sh_of(long t, long m, const MX& F)
{
    VL s(m, 0); const long o = std::max(1L, dg(F) + 1); switch (t) { case 0: break; case 1: for (long i = 0; i < m; i++) s[i] = i; break; case 2: for (long i = 0; i < m; i++) s[i] = m - i; break; case 3: for (long i = 0; i < m; i++) s[i] = i ? 0 : -2 * o; break; case 4: s[m - 1] = 3 * o; s[0] = 1; break; case 5: for (long i = 0; i < m; i++) s[i] = (i * 7 + 3) % 5 - 2; break; case 6: s = rrdeg(F, VL(F.NumCols(), 0)); for (long& x : s) x = std::max(x, 0L); break; }
    return s;
}
MC_SPACE(shapes, 0, 96)
{
    long p = c.from({ 2, 7, 101, P60, FFT0 }, "p"), m = c.range(1, c.lim(3, 6, 8), "m"), n = c.range(1, c.lim(2, 4, 5), "n"), len = c.from(c.thorough() ? VL{ 1, 2, 3, 5, 7 } : VL{ 1, 2, 4 }, "len"), t = c.choose(12, "type"), sh = c.choose(7, "shift");
    if (!c.mine()) return;
    setp(p); MX F = inst(t, m, n, len); all(c, F, sh_of(sh, m, F));
}
MC_SPACE(large, 0, 48)      // orders above the divide and conquer threshold
{
    long p = c.from({ 97, P20, P60, FFT0 }, "p"), w = c.choose(5, "shape"), len = c.from(c.thorough() ? VL{ 9, 15, 16, 17, 21, 33 } : VL{ 9, 17, 21 }, "len"), t = c.choose(12, "type"), sh = c.from({ 0, 1, 3, 6 }, "shift");
    static const long S[5][2] = { { 2, 1 }, { 3, 2 }, { 4, 2 }, { 6, 3 }, { 5, 1 } };
    if (c.smoke() && (t % 3 != 0)) return;
    if (!c.mine()) return;
    setp(p); MX F = inst(t, S[w][0], S[w][1], len); all(c, F, sh_of(sh, S[w][0], F));
}
MC_SPACE(wide, 0, 32)         // many rows
{
    long p = c.from({ 97, P60, FFT0 }, "p"), m = c.from(c.thorough() ? VL{ 9, 12, 16, 17, 18, 24, 33 } : VL{ 9, 17, 20 }, "m"), w = c.choose(c.lim(2, 3, 4), "n"), len = c.from(c.thorough() ? VL{ 1, 2, 3, 5 } : VL{ 1, 3 }, "len"), t = c.choose(12, "type"), sh = c.choose(7, "shift");
    if (!c.thorough() && p == 97 && (t + sh) % 2) return;
    if (!c.mine()) return;
    const long N[4] = { 1, 3, m / 2, m - 2 }; setp(p); MX F = inst(t, m, N[w], len); all(c, F, sh_of(sh, m, F));
}
// all draws of the points used by interpolation
MC_SPACE(draws, 0, 32)
{
    long p = c.from({ 31, 41, 61 }, "p"), w = c.choose(3, "shape"), t = c.choose(12, "type"), d1 = c.choose(p, "draw");
    static const long S[3][2] = { { 3, 1 }, { 4, 2 }, { 2, 2 } };
    if (!c.mine()) return;
    setp(p); const long m = S[w][0]; MX F = inst(t, m, S[w][1], 2); const MX F0 = F; VL s(m, 0), piv; const long rank = rrank(F0);
    rnd::reset(VL{ d1 }, 3); MX K; PML::kernel_basis_via_interpolation(K, piv, F, s); check_ker(c, "kernel_basis_via_interpolation", K, F0, VL(m, 0), &s, &piv, rank);
    rnd::reset(VL{ d1 }, 3); s = VL(m, 0); PML::kernel_basis_zls_via_interpolation(K, F, s); check_ker(c, "kernel_basis_zls_via_interpolation", K, F0, VL(m, 0), &s, nullptr, rank);
}
// verification against the definition
MC_SPACE(verify, -1, 48)
{
    static const long S[3][4] = { { 2, 2, 1, 2 }, { 2, 3, 1, 1 }, { 3, 2, 1, 1 } };
    long w = c.choose(3, "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2], len = S[w][3]; long k = c.choose(ipow(p, m * n * len), "F"), r = c.range(1, 2, "rows"), q = c.choose(ipow(p, m * r * 2), "K"), f = c.range(1, 4, "form"), rd = c.choose(1 + (p == 2) * 8, "random");
    if (r > m - 1 && w == 2) return;
    if (!c.mine()) return;
    setp(p); const MX F = nthX(k, m, n, len), K0 = nthX(q, r, m, 2); MX K = K0; VL s(m, 0); s[0] = 1;
    const bool in = iszero(rmul(K0, F)), fm = r_form(K0, s) >= f; rnd::reset(VL{ rd & 1, (rd >> 1) & 1, (rd >> 2) & 1 }, 1);
    c.call(); const bool got = PML::is_kernel_basis(K, F, VL(s), (PML::PolMatForm) f, rd > 0); c.observe(got); unchanged(c, K, K0, "is_kernel_basis");
    if (in && fm && !got) c.fail("is_kernel_basis refuses rows of the kernel in the form: %s", str(K0).c_str());
    if (got && !fm) c.fail("is_kernel_basis accepts a wrong form: %s", str(K0).c_str());
    if (got && !in && rd == 0) c.fail("is_kernel_basis accepts rows that are not in the kernel: %s", str(K0).c_str());
    if (in && fm) c.interesting();
}
// generic kernels of [X^d I + A ; V]
static void check_gen(mc::Ctx& c, long n, long m, long d, long seed, bool popov)
{
    MX F = patX(D_DENSE, m + n, n, d, 70 + seed); for (long i = 0; i < n; i++) F[i][i] = radd(F[i][i], mono(1, d));
    const MX F0 = F; MX K = identX(m + n); PML::kernel_basis_generic(K, F);
    if (popov) { check_ker(c, "kernel_basis_generic", K, F0, VL(m + n, 0), nullptr, nullptr, n, false); return; }
    c.call(); if (!wf(K, m, m + n)) { c.fail("kernel_basis_generic: wrong dimensions or entries not in normal form"); return; }
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { VL v; for (long t = 0; t < m + n; t++) accmul(v, K[i][t], F0[t][j]); for (long e : v) if (e) { c.fail("kernel_basis_generic: row %ld is not in the kernel: %s", i, str(K).c_str()); return; } }
    if (!saturated(K)) c.fail("kernel_basis_generic: does not generate the kernel: %s", str(K).c_str()); else c.interesting();
}
MC_SPACE(generic, 0, 48)
{
    long p = c.from({ P60, FFT0, P20 }, "p"), n = c.range(1, c.lim(3, 7, 9), "n"), m = c.range(1, c.lim(3, 5, 8), "m"), d = c.range(1, c.lim(1, 4, 6), "d"), seed = c.choose(c.lim(1, 2, 4), "seed");
    // outside of these dimensions the algorithm is broken (KF-01)
    const bool good = m >= n || (d == 1 && (m + n) % 2 == 0 && 3 * m >= n), basis = d == 1 && 3 * m >= n + 1;
    if (!good && !basis) return;
    if (!c.mine()) return;
    setp(p); check_gen(c, n, m, d, seed, good);
}
MC_SPACE(generic_open, 0, 1)
{
    static const long S[3][3] = { { 4, 1, 1 }, { 3, 2, 1 }, { 2, 1, 2 } };
    long w = c.choose(3, "case");
    if (!c.mine()) return;
    c.known("KF-01"); setp(P60); check_gen(c, S[w][0], S[w][1], S[w][2], 0, true);
}
// row reduction
static void check_red(mc::Ctx& c, const MX& A0)
{
    const long n = A0.NumRows(); MX A = A0, B = dirtyM(n, n + 1); const bool inv = rdet(coef(A0, 0)) != 0; long r = PML::reduced_form_gjv(B, A); c.call(); c.observe(r); unchanged(c, A, A0, "reduced_form_gjv");
    if ((r != 0) != inv) { c.fail("reduced_form_gjv: returned %ld", r); return; } if (!inv) return;
    if (!wf(B, n, n)) { c.fail("reduced_form_gjv: dimensions or normal form"); return; }
    if (!r_reduced(B, VL(n, 0))) { c.fail("reduced_form_gjv: not reduced: %s", str(B).c_str()); return; }
    zz_pX d = rdet(A0), e = rdet(B); if (dg(d) != dg(e)) { c.fail("reduced_form_gjv: determinant of degree %ld instead of %ld", dg(e), dg(d)); return; }
    // B = U A with U polynomial: U = B A^-1, known as a series, has degree at most deg B + (n-1) deg A - ... ; multiply back
    const long D = dg(B) + (n - 1) * std::max(0L, dg(A0)) + 1; MX U = rtrunc(rmul(B, rinv_trunc(A0, D)), D); MX V = rmul(U, A0); if (!eq(mapM(V, [](const zz_pX& x, long, long) { return x; }), B)) { c.fail("reduced_form_gjv: not a left multiple of the input: %s", str(B).c_str()); return; }
    for (long x : rrdeg(B, VL(n, 0))) c.observe(x); c.interesting();
}
MC_SPACE(reduce_tiny, -1, 96)
{
    static const long S[4][3] = { { 2, 2, 2 }, { 3, 2, 2 }, { 2, 2, 3 }, { 2, 3, 1 } };
    long w = c.choose(c.lim(2, 3, 4), "shape"); const long p = S[w][0], n = S[w][1], len = S[w][2]; long k = c.choose(ipow(p, n * n * len), "A");
    if (!c.mine()) return;
    setp(p); check_red(c, nthX(k, n, n, len));
}
MC_SPACE(reduce, 0, 48)
{
    long p = c.from({ 2, 97, P60, FFT0 }, "p"), n = c.range(1, c.lim(2, 4, 5), "n"), len = c.from({ 1, 2, 3, 5, 8 }, "len"), t = c.choose(8, "type");
    if (!c.mine()) return;
    setp(p); MX A = patX(D_DENSE, n, n, len, 90 + t);
    if (t == 1) A = patX(M_UNBAL, n, n, len, 91);
    if (t == 2) for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) A[i][j] = zz_pX();                                       // triangular
    if (t == 3 || t == 4) { MX U = identX(n); for (long i = 0; i + 1 < n; i++) U[i][i + 1] = pat(D_DENSE, len, i); MX L = identX(n); for (long i = 1; i < n; i++) L[i][0] = pat(D_DENSE, t == 4 ? 2 : 1, i + 5); A = rmul(rmul(L, U), t == 3 ? identX(n) : patX(D_DENSE, n, n, 1, 95)); } // unimodular, or unimodular times constant
    if (t == 5) for (long i = 1; i < n; i++) for (long j = 0; j < n; j++) A[i][j] = radd(shl(A[0][j], i), cst(elt(9, i * n + j)));   // dependent leading rows
    if (t == 6) { for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) A[i][j] = shl(A[i][j], 1); for (long i = 0; i < n; i++) A[i][n - 1 - i] = radd(A[i][n - 1 - i], cst(1)); }
    check_red(c, A);
}
