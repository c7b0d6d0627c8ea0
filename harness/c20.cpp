// C20: matrix fraction reconstruction and block Wiedemann sequences
#include "mc.h"
#include "bases.h"
#include "mat_lzz_pX_extra.h"
using namespace ref;
typedef NTL::Vec<MP> VM;
// minimal pivot degrees, for the uniform shift, of the module of row vectors u with sum_k u_k X^k applied to 'image' = 0:
// first dependency on each position in the (degree, position) order
struct Krylov
{
    long m, D; std::vector<VL> red; std::vector<long> piv;
    bool insert(VL v)        // false if dependent on what was inserted before
    {
        for (size_t t = 0; t < red.size(); t++) { long f = v[piv[t]]; if (f) for (size_t k = 0; k < v.size(); k++) v[k] = subm(v[k], mulm(f, red[t][k])); }
        for (size_t k = 0; k < v.size(); k++) if (v[k]) { long f = invm(v[k]); for (auto& x : v) x = mulm(x, f); red.push_back(v); piv.push_back(k); return true; }
        return false;
    }
};
template <class F> static VL pivdegs(long m, long bound, F image)     // image(k, j): value of X^k e_j as a vector
{
    Krylov K; VL d(m, -1); long left = m;
    for (long k = 0; k <= bound && left; k++) for (long j = 0; j < m; j++) if (d[j] < 0 && !K.insert(image(k, j))) { d[j] = k; left--; }
    return d;
}
static VP vpts(const VL& v) { VP r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = Z(v[i]); return r; }
// ------------------------------------------------------------------ sequences
static zz_pX a_of(long t, long n)
{
    zz_pX a;
    switch (t) { case 0: a = pat(D_DENSE, n, 3); break; case 1: a = mono(1, 1); break; case 2: a = cst(1); break; case 3: break; case 4: a = mono(1, n - 1); break; case 5: a = cst(md() - 1); break; case 6: a = pat(D_DENSE, std::min(n, 3L), 4); break; case 7: a = pat(D_SPARSE, n, 5); break; case 8: a = pat(D_DENSE, (n + 1) / 2, 6); break; case 9: a = pat(D_MAX, n, 7); break; }
    return rtrunc(a, n);
}
static zz_pX g_of(long t, long n)
{
    zz_pX g; if (t == 0) g = pat(D_DENSE, n, 8); if (t == 1) g = cst(md() - 1); if (t == 2) { g = cst(1); for (long i = 0; i < n; i++) g = rmul(g, mk(VL{ md() - 1, 1 })); return g; } if (t == 3) g = pat(D_MAX, n, 9);
    g = rtrunc(g, n); if (!C(g, 0)) g = radd(g, cst(1)); return radd(g, mono(1, n));
}
static void check_seq(mc::Ctx& c, const zz_pX& a0, const zz_pX& g0, long m)
{
    const long n = dg(g0), d = 2 * ((n + m - 1) / m) + 1; zz_pX a = a0, g = g0; VM M; M.SetLength(2); M[1] = dirtyC(m + 1, 2); PML::gen_sequence(M, a, g, m); c.call(); unchanged(c, a, a0, "gen_sequence"); unchanged(c, g, g0, "gen_sequence");
    if (M.length() != d) { c.fail("gen_sequence: %ld terms instead of %ld", (long) M.length(), d); return; }
    zz_pX P = rrem(cst(1), g0);
    for (long k = 0; k < d; k++)
    {
        const MP& T = M[d - 1 - k]; if (T.NumRows() != m || T.NumCols() != m) { c.fail("gen_sequence: wrong dimensions"); return; } zz_pX Q = P;
        for (long i = 0; i < m; i++) { for (long j = 0; j < m; j++) if (R(T[i][j]) != C(Q, j)) { c.fail("gen_sequence: coefficient %ld of x^%ld a^%ld is %ld instead of %ld", j, i, k, R(T[i][j]), C(Q, j)); return; } Q = rrem(shl(Q, 1), g0); }
        c.observe(hsh(T)); P = rrem(rmul(P, a0), g0); if (k > 1 && k < d - 1) c.interesting();
    }
}
MC_SPACE(sequence_tiny, -1, 96)
{
    static const long S[7][3] = { { 3, 2, 1 }, { 3, 3, 1 }, { 7, 2, 1 }, { 5, 3, 1 }, { 7, 2, 2 }, { 3, 5, 1 }, { 7, 3, 2 } };
    long w = c.choose(c.lim(3, 5, 7), "shape"); const long p = S[w][0], n = S[w][1], m = S[w][2]; long g0 = c.range(1, p - 1, "g0"), gk = c.choose(ipow(p, n - 1), "g"), a = c.choose(ipow(p, n), "a");
    if (!c.mine()) return;
    setp(p); check_seq(c, nth(a, n), radd(radd(cst(g0), shl(nth(gk, n - 1), 1)), mono(1, n)), m);
}
MC_SPACE(sequence, 0, 96)
{
    long p = c.from({ 97, P20, P60, FFT0 }, "p"), n = c.from(c.tier > 0 ? c.thorough() ? std::vector<long>{ 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 33, 64, 65, 90, 91, 100, 130, 190, 260, 300 } : std::vector<long>{ 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 24, 33, 64, 91, 130 } : std::vector<long>{ 2, 3, 5, 17, 91 }, "n");
    long m = c.from({ 1, 2, 3, 4, 5, 8, 16 }, "m"), ta = c.choose(10, "a"), tg = c.choose(4, "g");
    if (m > n || p <= 4 * m || (n > 100 && m < 3)) return;
    if (!c.mine()) return;
    setp(p); check_seq(c, a_of(ta, n), g_of(tg, n), m);
}
MC_SPACE(powers, 0, 96)
{
    long p = c.from({ 2, 97, P20, P60, FFT0 }, "p"), n = c.from(c.thorough() ? std::vector<long>{ 1, 2, 3, 4, 5, 8, 33, 64, 90, 91, 92, 130, 260 } : std::vector<long>{ 1, 2, 3, 5, 8, 33, 91, 130 }, "n"), l = c.range(1, 3, "l"), s = c.from({ 0, 1, 2, 5 }, "s"), ta = c.choose(10, "a"), tg = c.choose(4, "g"), tt = c.choose(4, "t"), up = c.choose(2, "upper");
    if (n > 91 && (tg > 1 || l < 3)) return;
    if (!c.mine()) return;
    setp(p); const zz_pX a0 = a_of(ta, n), g0 = g_of(tg, n), t0 = a_of(tt == 0 ? 2 : tt == 1 ? 0 : tt == 2 ? 4 : 3, n); zz_pX a = a0, g = g0, t = t0; VX P, U; PML::gen_pows(P, U, t, a, s, g, l, up); c.call(); unchanged(c, a, a0, "gen_pows"); unchanged(c, g, g0, "gen_pows"); unchanged(c, t, t0, "gen_pows");
    if (P.length() != l || (up && U.length() != l)) { c.fail("gen_pows: wrong number of terms"); return; }
    zz_pX as = rrem(cst(1), g0); for (long i = 0; i < s; i++) as = rrem(rmul(as, a0), g0); zz_pX Q = t0; const zz_pX S = invser(rrev(g0, n), n - 1);
    for (long i = 0; i < l; i++) { if (!eq(P[i], Q)) { c.fail("gen_pows: wrong power %ld", i); return; } if (up && !eq(U[i], rtrunc(rmul(S, rrev(Q, n - 1)), n - 1))) { c.fail("gen_pows: wrong upper product %ld: %s", i, str(U[i]).c_str()); return; } Q = rrem(rmul(Q, as), g0); c.observe(hsh(P[i])); if (up && dg(U[i]) > 0) c.interesting(); }
}
// ------------------------------------------------------------------ reconstruction
static zz_pX lagr(const VL& pts, long k) { zz_pX l = cst(1); for (size_t t = 0; t < pts.size(); t++) if ((long) t != k) l = scal(rmul(l, mk(VL{ subm(0, pts[t]), 1 % md() })), invm(subm(pts[k], pts[t]))); return l; }
// B is the top left block of an ordered weak Popov basis for [F ; I]: (B | N) has its pivots on the diagonal of B with the minimal degrees
static void check_recon(mc::Ctx& c, const char* w, const MX& B, const MX& N, const VL& d)
{
    const long m = B.NumRows(); for (long i = 0; i < m; i++)
    {
        long e = dg(B[i][i]); c.observe(e); if (e != d[i]) { c.fail("%s: diagonal degree %ld in row %ld, the minimal one is %ld", w, e, i, d[i]); return; }
        for (long j = 0; j < m; j++) if (dg(B[i][j]) > e - (j > i)) { c.fail("%s: entry %ld,%ld above the pivot degree", w, i, j); return; }
        for (long j = 0; j < m; j++) if (dg(N[i][j]) >= e) { c.fail("%s: numerator entry %ld,%ld has degree %ld, denominator row has degree %ld", w, i, j, dg(N[i][j]), e); return; }
        if (e > 0) c.interesting();
    }
}
static void recon_int(mc::Ctx& c, const VL& pts, const VM& E, long r)
{
    const long len = pts.size(), m = E[0].NumRows(); const VL d = pivdegs(2 * m, len, [&](long k, long j) { VL v; for (long t = 0; t < len; t++) { long x = powm(pts[t], k); for (long i = 0; i < m; i++) v.push_back(j < m ? mulm(x, R(E[t][j][i])) : (i == j - m ? x : 0)); } return v; });
    for (long g = 0; g < (r > 0 ? 2 : 1); g++)
    {
        const char* w = g ? "matrix_recon_interpolation_geometric" : "matrix_recon_interpolation"; VM e = E; VP q = vpts(pts); MX B = dirtyM(m, m + 1); if (g) PML::matrix_recon_interpolation_geometric(B, q, Z(r), e); else PML::matrix_recon_interpolation(B, q, e); c.call();
        if (!wf(B, m, m)) { c.fail("%s: dimensions or normal form", w); return; } if (!eq(q, vpts(pts))) c.fail("%s: modified the points", w);
        MX N = mx(m, m); for (long t = 0; t < len; t++) { MP v = rmul(ev(B, pts[t]), E[t]); zz_pX l = lagr(pts, t); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) N[i][j] = radd(N[i][j], scal(l, R(v[i][j]))); }
        check_recon(c, w, B, N, d);
    }
}
static void recon_app(mc::Ctx& c, const VM& S)
{
    const long len = S.length(), m = S[0].NumRows(); VL d;
    // documented: order at least 2 and generic input (balanced degrees at every order)
    if (len < 2) return;
    for (long o = len > 12 ? len : 1; o <= len; o++)
    {
        d = pivdegs(2 * m, o, [&](long k, long j) { VL v(o * m, 0); for (long t = k; t < o; t++) for (long i = 0; i < m; i++) v[t * m + i] = j < m ? R(S[t - k][j][i]) : (t == k && i == j - m); return v; });
        for (long j = 0; j < 2 * m; j++) if (d[j] != (o + (j < m)) / 2) return;
    }
    const VM S0 = S; VM s = S; MX B = dirtyM(m + 1, m); PML::matrix_recon_approximation(B, s); c.call(); for (long t = 0; t < len; t++) c.check(eq(s[t], S0[t]), "matrix_recon_approximation modified the sequence");
    if (!wf(B, m, m)) { c.fail("matrix_recon_approximation: dimensions or normal form"); return; }
    MX F = mx(m, m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) { VL v; for (long t = 0; t < len; t++) v.push_back(R(S0[t][i][j])); F[i][j] = mk(v); } MX N = rtrunc(rmul(B, F), len);
    check_recon(c, "matrix_recon_approximation", B, N, d);
}
MC_SPACE(recon_tiny, -1, 96)
{
    static const long S[7][3] = { { 2, 1, 2 }, { 3, 1, 3 }, { 5, 1, 4 }, { 2, 2, 2 }, { 3, 2, 2 }, { 7, 1, 5 }, { 5, 1, 5 } };
    long w = c.choose(c.lim(4, 6, 7), "shape"); const long p = S[w][0], m = S[w][1], len = S[w][2]; long k = c.choose(ipow(p, m * m * len), "values");
    if (!c.mine()) return;
    setp(p); VM E; E.SetLength(len); const long Q = ipow(p, m * m); for (long t = 0; t < len; t++) { E[t] = nthP(k % Q, m, m); k /= Q; } VL pts; for (long t = 0; t < len; t++) pts.push_back(t); recon_int(c, pts, E, 0);
}
MC_SPACE(recon_series_tiny, -1, 96)
{
    static const long S[7][3] = { { 2, 1, 4 }, { 3, 1, 4 }, { 5, 1, 3 }, { 2, 2, 2 }, { 3, 2, 2 }, { 2, 2, 3 }, { 2, 2, 4 } };
    long w = c.choose(c.lim(4, 6, 7), "shape"); const long p = S[w][0], m = S[w][1], len = S[w][2]; long k = c.choose(ipow(p, m * m * len), "values");
    if (!c.mine()) return;
    setp(p); VM E; E.SetLength(len); const long Q = ipow(p, m * m); for (long t = 0; t < len; t++) { E[t] = nthP(k % Q, m, m); k /= Q; } recon_app(c, E);
}
static long goodr(long n) { for (long i = 2; i < 6000; i++) { long r = md() < 1000 ? i % md() : elt(321, i); if (r < 2) continue; long x = r, ok = 1; for (long k = 1; k < 2 * n && ok; k++) { if (x == 1) ok = 0; x = mulm(x, r); } if (ok) return r; } return 0; }
MC_SPACE(recon, 0, 96)
{
    long p = c.from({ 97, P20, P60, FFT0 }, "p"), m = c.range(1, c.lim(2, 3, 5), "m"), len = c.from(c.thorough() ? std::vector<long>{ 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32, 33, 34, 35, 48, 65, 70 } : std::vector<long>{ 1, 2, 3, 4, 5, 8, 31, 32, 33, 40 }, "len"), t = c.choose(6, "type"), geo = c.choose(2, "geometric");
    if (m > 2 && len > 40) return;
    if (!c.mine()) return;
    setp(p); long r = geo ? goodr(len) : 0; if (geo && !r) return; VL pts; for (long k = 0; k < len; k++) pts.push_back(geo ? powm(r, 2 * k) : k % 2 ? p - 1 - k : k);
    // values of: dense data; a fraction with small denominator; polynomial; zero; rank one; dense with zero values
    MX num = patX(D_DENSE, m, m, std::max(1L, len / 3), 11), den = patX(D_DENSE, m, m, std::max(1L, len / 4), 12); for (long i = 0; i < m; i++) den[i][i] = radd(den[i][i], mono(1, std::max(1L, len / 4)));
    VM E; E.SetLength(len); for (long k = 0; k < len; k++) { MP d = ev(den, pts[k]); E[k] = t == 1 && rdet(d) ? rmul(rinverse(d), ev(num, pts[k])) : t == 2 ? ev(num, pts[k]) : t == 3 ? cm(m, m) : t == 4 ? rmul(patM(0, m, 1, 5 * k), patM(0, 1, m, 7)) : (t == 5 && k % 3 == 1) ? cm(m, m) : patM(0, m, m, 13 * k); }
    recon_int(c, pts, E, r);
}
MC_SPACE(recon_series, 0, 96)
{
    long p = c.from({ P20, P60, FFT0 }, "p"), m = c.range(1, c.lim(2, 3, 5), "m"), len = c.from(c.thorough() ? std::vector<long>{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 32, 33, 34, 35, 36, 37, 40, 48, 64, 65, 66, 67 } : std::vector<long>{ 1, 2, 3, 4, 5, 6, 7, 8, 12, 31, 32, 33, 34, 35, 36, 40 }, "len"), t = c.choose(2, "type");
    if (!c.mine()) return;
    setp(p); VM E; E.SetLength(len); for (long k = 0; k < len; k++) E[k] = patM(0, m, m, 17 * k + 1 + 1000 * t); recon_app(c, E);
}
