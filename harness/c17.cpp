// C17: approximant bases and generic matrix Pade approximation
#include "mc.h"
#include "bases.h"
#include "rnd.h"
#include "mat_lzz_pX_extra.h"
using namespace ref;
static VL uni(long n, long o) { return VL(n, o); }
// all algorithms on one instance with a uniform order
static void uniform_all(mc::Ctx& c, const MX& F0, long o, const VL& s0, bool fft)
{
    MX F = F0; const long m = F.NumRows(), n = F.NumCols(); const VL ord = uni(n, o); const long cd = app_codim(F0, ord); VL s;
#define RUN(name, call, pop) { MX P = dirtyM(m, m + 1); s = s0; call; check_app(c, name, P, F0, ord, s0, &s, pop, cd); unchanged(c, F, F0, name); }
    RUN("mbasis_plain", PML::mbasis_plain(P, F, o, s), false) RUN("mbasis_rescomp", PML::mbasis_rescomp(P, F, o, s), false) RUN("mbasis_resupdate", PML::mbasis_resupdate(P, F, o, s), false) RUN("mbasis", PML::mbasis(P, F, o, s), false)
    RUN("popov_mbasis", PML::popov_mbasis(P, F, o, s), true) RUN("pmbasis", PML::pmbasis(P, F, o, s), false) RUN("popov_pmbasis", PML::popov_pmbasis(P, F, o, s), true)
    RUN("appbas_iterative", PML::appbas_iterative(P, F, ord, s), false) RUN("appbas_iterative (columns)", PML::appbas_iterative(P, F, ord, s, false), false) RUN("popov_appbas_iterative", PML::popov_appbas_iterative(P, F, ord, s), true)
    if (m == 2 && n == 1)
        for (long th = 0; th < 4; th++)
        {
            static const long T[4] = { 0, 32, 1, 5 }; if (T[th] > 0 && T[th] < o && !fft) continue;
            zz_pX p[4] = { dirtyP(), dirtyP(), dirtyP(), dirtyP() }; s = s0; const zz_pX f0 = F0[0][0], f1 = F0[1][0];
            if (T[th] == 0) PML::appbas_iterative_2x1(p[0], p[1], p[2], p[3], f0, f1, o, s[0], s[1]); else PML::pmbasis_2x1(p[0], p[1], p[2], p[3], f0, f1, o, s[0], s[1], T[th]);
            MX P = mx(2, 2); for (long i = 0; i < 4; i++) P[i / 2][i % 2] = p[i]; check_app(c, T[th] ? "pmbasis_2x1" : "appbas_iterative_2x1", P, F0, ord, s0, &s, false, cd);
        }
    if (o == 1)
    {
        MP f = coef(F0, 0);
        for (long k = 0; k < 2; k++)
        {
            MP K = dirtyC(1, 2), f1 = f; s = s0; VL pd = k ? PML::popov_mbasis1(K, f1, s) : PML::mbasis1(K, f1, s); MX P = mx(m, m); long r = 0; bool ok = (long) pd.size() == m;
            for (long i = 0; ok && i < m; i++) if (pd[i] == 1) P[i][i] = mono(1, 1); else if (pd[i] == 0 && r < K.NumRows() && K.NumCols() == m) { for (long j = 0; j < m; j++) P[i][j] = cst(R(K[r][j])); r++; } else ok = false;
            c.check(ok && r == K.NumRows(), "mbasis1: pivot degrees and kernel do not match"); VL so = s0; for (long i = 0; ok && i < m; i++) so[i] += pd[i];
            check_app(c, k ? "popov_mbasis1" : "mbasis1", P, F0, ord, s0, &so, k == 1, cd); c.check(eq(f1, f) && s == s0, "mbasis1 modified its input");
        }
    }
#undef RUN
}
static void order_all(mc::Ctx& c, const MX& F0, const VL& ord, const VL& s0)
{
    MX F = F0; const long m = F.NumRows(); const long cd = app_codim(F0, ord); VL s, o = ord;
#define RUN(name, call, pop) { MX P = dirtyM(m + 1, m); s = s0; call; check_app(c, name, P, F0, ord, s0, &s, pop, cd); unchanged(c, F, F0, name); }
    RUN("appbas_iterative", PML::appbas_iterative(P, F, o, s), false) RUN("appbas_iterative (columns)", PML::appbas_iterative(P, F, o, s, false), false) RUN("popov_appbas_iterative", PML::popov_appbas_iterative(P, F, o, s), true) RUN("popov_appbas_iterative (columns)", PML::popov_appbas_iterative(P, F, o, s, false), true)
    { MX P; s = s0; VL rd; PML::approximant_basis(P, rd, F, o, s, PML::ORD_WEAK_POPOV); check_app(c, "approximant_basis", P, F0, ord, s0, &rd, false, cd); PML::approximant_basis(P, rd, F, o, s, PML::POPOV); check_app(c, "approximant_basis (Popov)", P, F0, ord, s0, &rd, true, cd); }
    c.check(o == ord && s == s0, "orders or shift modified");
#undef RUN
}
static VL shift_of(mc::Ctx& c, long m, long B) { VL s; for (long j = 0; j < m; j++) s.push_back(c.range(-B, B, "s")); return s; }
// every matrix, every uniform order, every shift of a box
MC_SPACE(tiny, -1, 96)
{
    static const long S[9][5] = { { 2, 2, 1, 4, 2 }, { 2, 1, 1, 4, 1 }, { 2, 3, 1, 3, 1 }, { 2, 2, 2, 2, 2 }, { 3, 2, 1, 2, 2 }, { 2, 3, 2, 1, 2 }, { 2, 1, 2, 3, 1 }, { 2, 2, 3, 1, 2 }, { 3, 2, 2, 1, 2 } };
    long w = c.choose(9, "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2], len = S[w][3], B = c.lim(1, S[w][4], S[w][4] + 1); long k = c.choose(ipow(p, m * n * len), "F"), o = c.range(1, len + c.lim(0, 1, 2), "order"); VL s = shift_of(c, m, B);
    if (!c.mine()) return;
    setp(p); uniform_all(c, nthX(k, m, n, len), o, s, false);
}
MC_SPACE(orders, -1, 96)             // order vectors
{
    static const long S[5][4] = { { 2, 2, 2, 2 }, { 2, 1, 2, 3 }, { 2, 2, 3, 1 }, { 2, 3, 2, 1 }, { 3, 2, 2, 1 } };
    long w = c.choose(5, "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2], len = S[w][3]; long k = c.choose(ipow(p, m * n * len), "F"); VL o; for (long j = 0; j < n; j++) o.push_back(c.range(1, c.lim(2, 3, 4), "order")); VL s = shift_of(c, m, 1);
    if (!c.mine()) return;
    setp(p); order_all(c, nthX(k, m, n, len), o, s);
}
// structured inputs: rank deficiency, residuals that vanish for a while, low degree, products
static MX inst(long t, long m, long n, long o)
{
    switch (t)
    {
        case 0: return patX(D_DENSE, m, n, o, 11);
        case 1: { MX a = patX(D_DENSE, m, n, o, 12); for (long j = 0; j < n; j++) a[m - 1][j] = a[0][j]; return a; }                 // equal rows
        case 2: { MX u = patX(D_DENSE, m, 1, (o + 1) / 2, 13), v = patX(D_DENSE, 1, n, (o + 1) / 2, 14); return rmul(u, v); }      // rank one
        case 3: return mx(m, n);
        case 4: { MX a = patX(D_DENSE, m, n, std::max(1L, o / 4), 15); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if ((i + j) % 2) a[i][j] = shl(a[i][j], o / 2); return a; } // gaps
        case 5: return patX(M_UNBAL, m, n, o, 16);
        case 6: return patX(D_DENSE, m, n, 1, 17);                                                                                    // constant
        case 7: { MX a = patX(D_DENSE, m, n, o + 5, 18); for (long j = 0; j < n; j++) a[0][j] = zz_pX(); return a; }                // zero row, longer than the order
        case 8: { MX a = patX(D_TOP, m, n, o, 19); for (long i = 0; i < m; i++) if (n > 1) a[i][n - 1] = a[i][0]; return a; }      // equal columns
        default: { MX a = patX(D_SPARSE, m, n, o, 20); a[0][0] = cst(1); return a; }
    }
}
static VL sh_of(long t, long m, long o)
{
    VL s(m, 0); switch (t) { case 0: break; case 1: for (long i = 0; i < m; i++) s[i] = i; break; case 2: for (long i = 0; i < m; i++) s[i] = m - i; break; case 3: for (long i = 0; i < m; i++) s[i] = i ? 0 : -2 * o; break; case 4: s[m - 1] = 3 * o; s[0] = 1; break; case 5: for (long i = 0; i < m; i++) s[i] = (i * 7 + 3) % 5 - 2; break; case 6: for (long i = 0; i < m; i++) s[i] = (i % 2) ? o / 2 : -o / 3; break; }
    return s;
}
MC_SPACE(shapes, 0, 96)
{
    long p = c.from({ 2, 3, 97, P20, P60, FFT0 }, "p"), m = c.range(1, c.lim(2, 4, 6), "m"), n = c.range(1, c.lim(2, 3, 5), "n"), o = c.from({ 1, 2, 3, 5, 8 }, "order"), t = c.choose(10, "type"), sh = c.choose(7, "shift");
    if (c.smoke() && (p != 2 && p != P60 && p != FFT0)) return;
    if (!c.mine()) return;
    setp(p); uniform_all(c, inst(t, m, n, o), o, sh_of(sh, m, o), p == FFT0);
}
MC_SPACE(order_vectors, 0, 64)
{
    long p = c.from({ 2, 97, P60 }, "p"), m = c.range(1, c.lim(2, 4, 5), "m"), n = c.range(2, c.lim(2, 3, 4), "n"), ot = c.choose(5, "orders"), t = c.choose(10, "type"), sh = c.choose(7, "shift");
    if (!c.mine()) return;
    static const long O[5][4] = { { 1, 5, 2, 3 }, { 6, 1, 1, 2 }, { 3, 4, 3, 1 }, { 1, 1, 7, 1 }, { 5, 2, 6, 4 } };
    setp(p); order_all(c, inst(t, m, n, 7), VL(O[ot], O[ot] + n), sh_of(sh, m, 4));
}
MC_SPACE(recursion, 0, 96)        // around and above the divide and conquer threshold
{
    long p = c.from({ 2, P20, P60, FFT0 }, "p"), w = c.choose(5, "shape"), o = c.from(c.thorough() ? VL{ 31, 32, 33, 34, 47, 63, 64, 65, 66, 67, 95, 129, 130, 131 } : VL{ 32, 33, 34, 47, 64, 65, 67 }, "order"), t = c.choose(10, "type"), sh = c.choose(7, "shift");
    if (c.smoke() && (t % 3 != 0 || sh % 2 != 0)) return;
    if (!c.mine()) return;
    static const long S[5][2] = { { 2, 1 }, { 1, 1 }, { 3, 1 }, { 2, 2 }, { 3, 2 } }; const long m = S[w][0], n = S[w][1]; setp(p); const MX F0 = inst(t, m, n, o); const VL s0 = sh_of(sh, m, o);
    if (o < 60 || c.thorough() || (sh + t) % 3 == 0) uniform_all(c, F0, o, s0, p == FFT0);
}
MC_SPACE(wide, 0, 32)             // many rows: ties in the shift must be broken by the index
{
    long p = c.from({ 2, 97, P60, FFT0 }, "p"), m = c.from(c.thorough() ? VL{ 8, 15, 16, 17, 18, 24, 32, 33, 40 } : VL{ 9, 16, 17, 18, 25 }, "m"), w = c.choose(c.lim(2, 3, 5), "n"), o = c.from(c.thorough() ? VL{ 1, 2, 3, 6, 9, 34 } : VL{ 1, 2, 5, 34 }, "order"), t = c.from(c.thorough() ? VL{ 0, 1, 2, 4, 5, 7, 8, 9 } : VL{ 0, 1, 7, 9 }, "type"), sh = c.from(c.thorough() ? VL{ 0, 1, 2, 3, 4, 5, 6 } : VL{ 0, 2, 5, 6 }, "shift");
    if (o > 30 && (w > 1 || (!c.thorough() && (p == 2 || m > 17 || (t + sh) % 3)))) return;
    if (!c.mine()) return;
    const long N[5] = { 1, 3, m / 2, m - 1, m }; setp(p); uniform_all(c, inst(t, m, N[w], o), o, sh_of(sh, m, o), p == FFT0);
}
// generic 2n x n inputs and matrix Pade: enumerate inputs, keep those the reference finds generic
static bool generic(const MX& F, long o) { const long n = F.NumCols(); VL s(2 * n, 0); std::vector<VL> tr; ref_appbas(F, uni(n, o), s, &tr); for (long k = 1; k <= o; k++) for (long i = 0; i < 2 * n; i++) if (tr[k - 1][i] != (i < n ? (k + 1) / 2 : k / 2)) return false; return true; }
static void generic_all(mc::Ctx& c, const MX& F0, long o)
{
    const long n = F0.NumCols(), m = 2 * n; if (!generic(F0, o)) return; c.interesting(); MX F = F0; const VL ord = uni(n, o), z(m, 0); const long cd = n * o, d = o / 2;
    for (long k = 0; k < 4; k++)
    {
        static const char* N[4] = { "mbasis_generic_2n_n_rescomp", "mbasis_generic_2n_n_resupdate", "pmbasis_generic_2n_n", "pmbasis_generic_2n_n_top_rows" }; MX P = dirtyM(m, 1);
        if (k == 0) PML::mbasis_generic_2n_n_rescomp(P, F, o); else if (k == 1) PML::mbasis_generic_2n_n_resupdate(P, F, o); else if (k == 2) PML::pmbasis_generic_2n_n(P, F, o); else PML::pmbasis_generic_2n_n_top_rows(P, F, o);
        unchanged(c, F, F0, N[k]);
        if (k == 3)
        {
            if (!wf(P, n, m)) { c.fail("%s: dimensions or normal form", N[k]); continue; }
            MX Q = mx(m, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) Q[i][j] = P[i][j]; MX B; PML::mbasis_generic_2n_n_resupdate(B, F, o); for (long i = n; i < m; i++) for (long j = 0; j < m; j++) Q[i][j] = j < B.NumCols() && i < B.NumRows() ? B[i][j] : zz_pX(); P = Q;
        }
        check_app(c, N[k], P, F0, ord, z, nullptr, false, cd);
        // documented shape: monic identity blocks on the diagonal, degrees elsewhere, zero constant terms
        for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { const bool odd = o % 2, t = i < n, l = j < n; const long top = odd ? (t ? d + 1 : d) : d; bool ok = true; if (i == j) ok = dg(P[i][j]) == top && C(P[i][j], top) == 1; else if (t == l) ok = dg(P[i][j]) < top; else ok = dg(P[i][j]) <= (odd ? d : (t ? d - 1 : d)); if ((odd ? t : !t) && C(P[i][j], 0)) ok = false; if (!ok) { c.fail("%s: entry (%ld,%ld) does not have the announced shape: %s", N[k], i, j, str(P).c_str()); break; } }
    }
}
static void pade_all(mc::Ctx& c, const MX& A0, long o)
{
    const long n = A0.NumCols(); MX F = mx(2 * n, n); for (long i = 0; i < n; i++) { for (long j = 0; j < n; j++) F[i][j] = A0[i][j]; F[n + i][i] = cst(md() - 1); } if (!generic(F, o)) return; c.interesting(); MX A = A0; const long d = o / 2, dd = (o + 1) / 2; const bool odd = o % 2;
    auto top = [&](const char* w, const MX& den) { c.call(); if (!wf(den, n, n)) { c.fail("%s: dimensions or normal form", w); return; } MX num = rmul(den, A0); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { c.observe(dg(den[i][j])); zz_pX u = rtrunc(num[i][j], o); bool ok = i == j ? (dg(den[i][j]) == dd && C(den[i][j], dd) == 1) : dg(den[i][j]) < dd; if (dg(u) >= dd || (odd && (C(u, 0) || C(den[i][j], 0)))) ok = false; if (!ok) { c.fail("%s: wrong denominator %s", w, str(den).c_str()); return; } } };
    auto bot = [&](const char* w, const MX& den) { c.call(); if (!wf(den, n, n)) { c.fail("%s: dimensions or normal form", w); return; } MX num = rmul(den, A0); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { zz_pX u = rtrunc(num[i][j], o); bool ok = dg(den[i][j]) <= d && (i == j ? (dg(u) == d && C(u, d) == 1) : dg(u) < d); if (!odd && (C(u, 0) || C(den[i][j], 0))) ok = false; if (!ok) { c.fail("%s: wrong second denominator %s", w, str(den).c_str()); return; } } };
    { MX a = dirtyM(1, 3), b = dirtyM(2, 2); PML::matrix_pade_generic_iterative(a, b, A, o); top("matrix_pade_generic_iterative", a); bot("matrix_pade_generic_iterative", b); MX e = dirtyM(2, 1); PML::matrix_pade_generic_iterative(e, A, o); top("matrix_pade_generic_iterative (den)", e); }
    { MX a = dirtyM(1, 3); PML::matrix_pade_generic_recursion(a, A, o); c.call(); if (a.NumRows() == 2 * n && a.NumCols() == n) { MX u = mx(n, n), v = mx(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { u[i][j] = a[i][j]; v[i][j] = a[n + i][j]; } top("matrix_pade_generic_recursion", u); bot("matrix_pade_generic_recursion", v); } else c.fail("matrix_pade_generic_recursion: dimensions"); }
    { MX a = dirtyM(1, 3); PML::matrix_pade_generic(a, A, o); top("matrix_pade_generic", a); }
    unchanged(c, A, A0, "matrix Pade");
}
MC_SPACE(generic_tiny, -1, 48)
{
    static const long S[6][3] = { { 2, 1, 6 }, { 3, 1, 4 }, { 5, 1, 3 }, { 2, 2, 2 }, { 7, 1, 2 }, { 2, 1, 7 } };
    long w = c.choose(c.lim(5, 5, 6), "shape"); const long p = S[w][0], n = S[w][1], len = S[w][2]; long k = c.choose(ipow(p, 2 * n * n * len), "F"), o = c.range(2, len + 1, "order");
    if (!c.mine()) return;
    setp(p); generic_all(c, nthX(k, 2 * n, n, len), o);
}
MC_SPACE(pade_tiny, -1, 48)
{
    static const long S[6][3] = { { 2, 1, 8 }, { 3, 1, 5 }, { 5, 1, 5 }, { 2, 2, 3 }, { 3, 2, 2 }, { 11, 1, 3 } };
    long w = c.choose(6, "shape"); const long p = S[w][0], n = S[w][1], len = S[w][2]; long k = c.choose(ipow(p, n * n * len), "F"), o = c.range(2, len + 1, "order");
    if (!c.mine()) return;
    setp(p); pade_all(c, nthX(k, n, n, len), o);
}
MC_SPACE(generic_large, 0, 48)
{
    long p = c.from({ 10007, P20, P60, FFT0 }, "p"), n = c.range(1, c.lim(2, 3, 5), "n"), o = c.from(c.thorough() ? VL{ 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 34, 35, 36, 37, 65, 66, 67, 68, 69, 70, 130, 131 } : VL{ 2, 3, 4, 5, 8, 31, 32, 33, 34, 35, 36, 37, 66, 67, 69 }, "order"), t = c.choose(5, "type"), g = c.choose(2, "pade");
    if (c.smoke() && (p != P60 && p != FFT0)) return;
    if (!c.mine()) return;
    setp(p); const long kd[5] = { D_DENSE, D_DENSE, D_DENSE, M_UNBAL, D_SPARSE }; const long len = t == 1 ? o + 4 : (t == 2 ? std::max(1L, o - 2) : o); MX F = patX(kd[t], (g ? 1 : 2) * n, n, len, 31 + t); if (g) pade_all(c, F, o); else generic_all(c, F, o);
}
// generic m x n inputs: every step raises the degrees of the rows of smallest degree and index, cyclically
static bool balanced(const MX& F, long o) { const long n = F.NumCols(), m = F.NumRows(); VL s(m, 0); std::vector<VL> tr; ref_appbas(F, uni(n, o), s, &tr); for (long k = 1; k <= o; k++) for (long i = 0; i < m; i++) if (tr[k - 1][i] != (k * n + m - 1 - i) / m) return false; return true; }
static void balanced_all(mc::Ctx& c, const MX& F0, long o)
{
    const long n = F0.NumCols(), m = F0.NumRows(); if (o * n % m || !balanced(F0, o)) return; c.interesting(); MX F = F0; const VL ord = uni(n, o), z(m, 0); const long cd = n * o;
    for (long k = 0; k < 4; k++)
    {
        static const char* N[4] = { "popov_mbasis_rescomp_generic", "popov_pmbasis_generic", "mbasis_generic_onecolumn", "pmbasis_generic_onecolumn" }; MX P = dirtyM(m + 1, 1); VL r(m, o / m);
        if (k >= 2 && (n > 1 || o % m || (k == 3 && o > 16 * m && (o / 2) % m))) continue; if (k == 3 && o > 32 * m && o % (4 * m)) continue;
        if (k == 0) PML::popov_mbasis_rescomp_generic(P, F, o); else if (k == 1) PML::popov_pmbasis_generic(P, F, o); else if (k == 2) r = PML::mbasis_generic_onecolumn(P, F, o, z); else r = PML::pmbasis_generic_onecolumn(P, F, o, z);
        unchanged(c, F, F0, N[k]); if (k >= 2) for (long i = 0; i < m; i++) if ((long) r.size() != m || r[i] != o / m) { c.fail("%s: wrong pivot degrees", N[k]); break; }
        check_app(c, N[k], P, F0, ord, z, nullptr, true, cd);
    }
}
MC_SPACE(generic_popov, -1, 64)
{
    static const long S[8][4] = { { 2, 2, 1, 6 }, { 3, 2, 1, 4 }, { 2, 3, 1, 4 }, { 2, 3, 2, 2 }, { 5, 2, 1, 3 }, { 3, 3, 1, 3 }, { 2, 4, 1, 3 }, { 2, 4, 2, 2 } };
    long w = c.choose(c.lim(4, 6, 8), "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2], len = S[w][3]; long k = c.choose(ipow(p, m * n * len), "F"), o = c.range(1, len + 2, "order");
    if (!c.mine()) return;
    setp(p); balanced_all(c, nthX(k, m, n, len), o);
}
MC_SPACE(generic_popov_large, 0, 48)
{
    long p = c.from({ 10007, P60, FFT0 }, "p"), m = c.range(1, 5, "m"), n = c.range(1, std::min(m, c.lim(2, 3, 4)), "n"), o = c.from(c.thorough() ? VL{ 1, 2, 3, 4, 6, 8, 12, 16, 20, 24, 30, 31, 32, 33, 36, 48, 60, 64, 66, 72, 80, 96, 128, 132 } : VL{ 1, 2, 4, 6, 12, 20, 31, 32, 36, 40, 64, 68, 72 }, "order"), t = c.choose(3, "type");
    if (c.smoke() && (p != P60 || m > 3)) return;
    if (!c.mine()) return;
    setp(p); const long len = t == 1 ? o + 4 : (t == 2 ? std::max(1L, o - 2) : o); balanced_all(c, patX(D_DENSE, m, n, len, 41 + t), o);
}
// verification: over tiny fields, all draws of the evaluation point
MC_SPACE(verify, -1, 48)
{
    static const long S[4][4] = { { 2, 2, 1, 2 }, { 3, 2, 1, 2 }, { 2, 2, 2, 1 }, { 3, 1, 1, 2 } };
    long w = c.choose(4, "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2], len = w == 1 && !c.thorough() ? 1 : S[w][3]; long k = c.choose(ipow(p, m * n * len), "F"), o = c.range(1, len, "order"), q = c.choose(ipow(p, m * m * (p == 2 ? 3 : 2)), "P"), pt = c.choose(p, "pt"), f = c.range(1, 4, "form");
    if (!c.mine()) return;
    setp(p); MX F0 = nthX(k, m, n, len), P0 = nthX(q, m, m, p == 2 ? 3 : 2), F = F0, P = P0; const VL ord = uni(n, o), s(m, 0);
    bool app = true; for (long i = 0; i < m && app; i++) for (long j = 0; j < n; j++) { VL v; for (long t = 0; t < m; t++) accmul(v, P0[i][t], F0[t][j]); for (long e = 0; e < o && e < (long) v.size(); e++) if (v[e]) app = false; }
    bool form = r_form(P0, s) >= f; bool basis = false; if (app && form) { long d = 0; for (long x : rrdeg(P0, s)) d += x; basis = d == app_codim(F0, ord); }
    rnd::reset({ pt }, 0); bool got = PML::is_approximant_basis(P, F, VL(ord), VL(s), (PML::PolMatForm) f, true); c.call(); c.observe(got);
    unchanged(c, P, P0, "is_approximant_basis"); unchanged(c, F, F0, "is_approximant_basis");
    if (basis && !got) c.fail("is_approximant_basis refuses the basis %s", str(P0).c_str());
    if ((!app || !form) && got) c.fail("is_approximant_basis accepts rows that are not approximants or not in the form: %s", str(P0).c_str());
    // a matrix of approximants in the form that is not a basis: accepted only if its determinant looks like a power of x at the point and the rank test passes, which needs a determinant that is not a power of x
    if (app && form && !basis && got) { zz_pX D = rdet(P0); if (dg(D) >= 0 && eq(D, mono(C(D, dg(D)), dg(D)))) c.fail("is_approximant_basis accepts a proper submodule: %s", str(P0).c_str()); if (ev(D, pt) != mulm(ev(D, 1 % p), powm(pt, dg(D)))) c.fail("is_approximant_basis accepts a wrong determinant"); }
    if (basis) c.interesting();
}
