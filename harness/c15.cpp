// C15: determinants
#include "mc.h"
#include "ref.h"
#include "rnd.h"
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_determinant.h"
#include "lzz_p_extra.h"
using namespace ref;
static const std::vector<long> PR = { 2, 3, 7, 101, P20, P60, 1152921504606846883L, FFT0, -257, -17 };
static void exact(mc::Ctx& c, const MX& a, const zz_pX& w)
{
    const long n = a.NumRows(), np = n * std::max(dg(a), 0L) + 1; MX A = a; zz_pX d;
    if (n <= 4) { d = dirtyP(); PML::determinant_expansion_by_minors(d, A); expect(c, d, w, "minors"); }
    if (n <= 6) { d = dirtyP(); PML::determinant_expansion_by_minors_rec(d, A); expect(c, d, w, "minors_rec"); }
    if (np <= md() && (md() != 257 || np <= 100)) { d = dirtyP(); PML::determinant_via_evaluation_general(d, A); expect(c, d, w, "evaluation_general"); }
    if (md() > 4 * np + 8) { d = dirtyP(); PML::determinant_via_evaluation_geometric(d, A); expect(c, d, w, "evaluation_geometric"); }
    if (PML::is_FFT_ready(NTL::NextPowerOfTwo(np))) { d = dirtyP(); PML::determinant_via_evaluation_FFT(d, A); expect(c, d, w, "evaluation_FFT"); }
    unchanged(c, A, a, "determinant");
}
// sound: with the right degree, `true` means determinant up to a nonzero constant
static bool generic(mc::Ctx& c, const MX& a, const zz_pX& w)
{
    MX A = a; zz_pX d = dirtyP(); bool ok = PML::determinant_generic_knowing_degree(d, A, dg(w)); c.call(); c.observe(hsh(d) + ok); unchanged(c, A, a, "generic_knowing_degree");
    if (ok) { if (dg(d) != dg(w) || (dg(w) >= 0 && !eq(rmonic(d), rmonic(w)))) c.fail("determinant_generic_knowing_degree accepted a wrong determinant: A=%s got %s want %s", str(a).c_str(), str(d).c_str(), str(w).c_str()); c.check(wellformed(d), "not normalized"); c.interesting(); }
    else if (a.NumRows() <= 4) c.fail("determinant_generic_knowing_degree refused A=%s", str(a).c_str());
    return ok;
}
MC_SPACE(tiny, -1, 32)
{
    long w = c.choose(7, "shape"); static const long S[7][3] = { { 2, 1, 4 }, { 3, 1, 3 }, { 2, 2, 2 }, { 3, 2, 2 }, { 2, 3, 1 }, { 5, 2, 1 }, { -17, 1, 2 } }; const long p = std::labs(S[w][0]), n = S[w][1], len = S[w][2];
    long k = c.choose(ipow(p, n * n * len), "A");
    if (!c.mine()) return;
    setp(S[w][0]); MX a = nthX(k, n, n, len); zz_pX d = rdet(a); exact(c, a, d); generic(c, a, d); c.interesting();
}
// all signed monomial permutation matrices, plus one extra entry: every term of the Leibniz formula, with its sign
MC_SPACE(permutations, -1, 32)
{
    long p = c.from({ 3, 7, P60, FFT0 }, "p"), n = c.range(1, c.lim(4, 5, 6), "n"), f = 1; for (long i = 2; i <= n; i++) f *= i;
    long k = c.choose(f, "perm"), e = c.choose(3, "exponents");
    if (!c.mine()) return;
    setp(p); VL q; for (long i = 0; i < n; i++) q.push_back(i); for (long t = 0; t < k; t++) std::next_permutation(q.begin(), q.end());
    MX a = mx(n, n); for (long i = 0; i < n; i++) a[i][q[i]] = mono(1 + elt(3, i) % (md() - 1), e == 0 ? 0 : (e == 1 ? i % 3 : q[i] % 2)); zz_pX w = rdet(a); exact(c, a, w); generic(c, a, w);
    a[n - 1][0] = radd(a[n - 1][0], mono(1, 2)); w = rdet(a); exact(c, a, w); generic(c, a, w); c.interesting();
}
MC_SPACE(patterns, -1, 32)
{
    long p = c.from(PR, "p"), n = c.range(1, c.lim(3, 5, 6), "n"), len = c.range(0, c.lim(2, 6, 9), "len"), k = c.choose(M_COUNT, "kind"), t = c.choose(4, "degenerate");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, n, n, len, 1); if (t == 1) a[n - 1] = a[0]; if (t == 2) for (long i = 0; i < n; i++) a[i][n - 1] = shl(a[i][0], 1); if (t == 3) for (long i = 0; i < n; i++) a[i][i] = radd(a[i][i], mono(1, i));
    zz_pX w = rdet(a); exact(c, a, w); generic(c, a, w); c.interesting();
}
MC_SPACE(evaluation, 0, 32)
{
    long p = c.from({ 101, P20, P60, FFT0, -257 }, "p"), n = c.from({ 2, 3, 7, 10 }, "n"), len = c.from({ 1, 2, 3, 12, 26 }, "len"), k = c.from({ D_DENSE, D_MAX, M_UNBAL, D_TOP }, "kind");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, n, n, len, 1); zz_pX w = rdet(a); exact(c, a, w); c.interesting();
}
// the recursive triangularization: generic inputs must be accepted, all others are judged for soundness
MC_SPACE(triangular_generic, 0, 32)
{
    long p = c.from({ P20, P60, 1152921504606846883L, FFT0 }, "p"), n = c.range(5, c.lim(6, 12, 17), "n"), len = c.range(1, c.lim(3, 6, 12), "len"), s = c.choose(2, "stream");
    if (!c.mine()) return;
    setp(p); MX a = patX(D_DENSE, n, n, len, s + 1); zz_pX w = rdet(a); if (dg(w) != n * (len - 1)) return;
    if (!generic(c, a, w) && (p == P60 || p == FFT0)) c.fail("determinant_generic_knowing_degree refused a generic matrix n=%ld len=%ld", n, len); c.interesting();
}
MC_SPACE(triangular_any, -1, 64)
{
    long p = c.from({ 2, 3, 7, P20 }, "p"), n = c.range(5, c.lim(6, 9, 12), "n"), t = c.choose(12, "type"), len = c.range(1, c.lim(2, 4, 6), "len"), s = c.choose(c.lim(1, 6, 20), "stream");
    if (!c.mine()) return;
    setp(p); MX a = mx(n, n); uint64_t q = s * 77 + 5;
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++)
    {
        zz_pX f = pat(D_DENSE, len, q + 100 * i + j); bool on = false;
        switch (t)
        {
            case 0: on = true; break;
            case 1: on = i == j; break;
            case 2: on = i <= j; break;
            case 3: on = i >= j; break;
            case 4: on = true; f = pat(D_DENSE, 1 + (i * len) / n, q + 100 * i + j); break;
            case 5: on = true; f = pat(D_DENSE, 1 + (j * len) / n, q + 100 * i + j); break;
            case 6: on = j >= n / 2 || i < n / 2; break;
            case 7: on = j < n / 2 || i >= n / 2; break;
            case 8: on = elt(q + 9, i * 50 + j) % 3 == 0 || i == j; break;
            case 9: on = true; f = i < j ? cst(elt(q, i * 9 + j)) : f; break;
            case 10: on = i + j == n - 1 || i == j; break;
            default: on = true; if (j == 0) f = zz_pX(); break;
        }
        if (on) a[i][j] = f;
    }
    generic(c, a, rdet(a));
}
// identity plus every small pattern in a window, tiny field: exhaustive non-generic cases
MC_SPACE(triangular_window, -1, 64)
{
    long p = c.from({ 2, 3 }, "p"), n = c.range(5, c.lim(5, 6, 8), "n"), r = c.choose(n - 1, "row"), q = c.choose(n - 1, "col"), k = c.choose(p == 2 ? 256 : c.lim(200, 2187, 6561), "window"), b = c.choose(3, "base");
    if (!c.mine()) return;
    setp(p); MX a = mx(n, n); for (long i = 0; i < n; i++) { if (b == 0) a[i][i] = cst(1); if (b == 1) a[i][n - 1 - i] = mono(1, 1); if (b == 2) { a[i][i] = mono(1, i % 3); a[i][(i + 1) % n] = cst(1); } }
    MX w = nthX(k, 2, 2, 2); for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) a[r + i][q + j] = w[i][j];
    generic(c, a, rdet(a));
}
// verification: never refuses the determinant; a wrong candidate passes only at roots of the difference
MC_SPACE(verify, -1, 32)
{
    long p = c.from({ 2, 3, 7, 13 }, "p"), n = c.range(1, 3, "n"), len = c.range(0, 4, "len"), k = c.from({ D_DENSE, D_MAX, M_UNBAL, D_TOP, D_CONST }, "kind"), cand = c.choose(7, "candidate"), utc = c.choose(2, "up_to_constant");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, n, n, len, 1); zz_pX w = rdet(a), f = w;
    switch (cand) { case 0: break; case 1: f = scal(w, p - 1); break; case 2: f = radd(w, cst(1)); break; case 3: f = radd(w, mono(1, 1)); break; case 4: f = zz_pX(); break; case 5: f = rmul(w, mk(VL{ 1, 1 })); break; default: f = radd(w, mono(1, n * len)); }
    long acc = 0, tot = 0, most = 0; const zz_pX diff = rsub(f, w);
    for (long x = 0; x < p; x++) for (long y = 0; y < (utc ? p : 1); y++)
    {
        tot++; if (utc ? mulm(ev(w, x), ev(f, y)) == mulm(ev(w, y), ev(f, x)) : ev(diff, x) == 0) most++;
        rnd::reset({ x, y }, 1); zz_pX F = f; MX A = a; bool ok = PML::verify_determinant(F, A, utc, true); acc += ok; c.call();
        const bool right = utc ? (dg(w) < 0 ? true : (dg(f) == dg(w) && eq(rmonic(f), rmonic(w)))) : eq(f, w);
        if (right && dg(w) >= 0 && !ok) c.fail("verify_determinant refused the right determinant of %s", str(a).c_str());
    }
    c.observe(acc); if (acc > most) c.fail("verify_determinant accepts a wrong candidate on %ld of %ld draws, %ld expected at most: A=%s candidate %s", acc, tot, most, str(a).c_str(), str(f).c_str()); c.interesting();
}
// determinant as the denominator of a random system: monic determinant when the Smith form is trivial
MC_SPACE(via_linsolve, -1, 32)
{
    long p = c.from({ P60, P59, FFT0 }, "p"), n = c.range(1, c.lim(3, 5, 7), "n"), len = c.range(1, c.lim(3, 6, 9), "len"), k = c.from({ D_DENSE, M_UNBAL, D_HIGH, D_SPARSE }, "kind"), s = c.choose(3, "stream");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, n, n, len, s + 3); for (long i = 0; i < n; i++) a[i][i] = radd(a[i][i], cst(1)); if (rdet(coef(a, 0)) == 0) return;
    zz_pX w = rdet(a), g = w; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { MX b = mx(n - 1, n - 1); for (long u = 0; u < n - 1; u++) for (long v = 0; v < n - 1; v++) b[u][v] = a[u + (u >= i)][v + (v >= j)]; g = rgcd(g, rdet(b)); if (dg(g) == 0) break; }
    if (dg(g) > 0) return;
    rnd::reset(VL(), s + 1); NTL::SetSeed(NTL::ZZ(s + 1)); MX A = a; zz_pX d = dirtyP(); PML::determinant_via_linsolve(d, A); expect(c, d, rmonic(w), "determinant_via_linsolve"); unchanged(c, A, a, "via_linsolve"); c.interesting();
}
