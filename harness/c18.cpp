// C18: interpolant bases
#include "mc.h"
#include "bases.h"
#include "mat_lzz_pX_extra.h"
using namespace ref;
typedef NTL::Vec<MP> VM;
struct Inst { VL pts; VM ev; long m, n; };
static long codim(const Inst& I) { long r = 0; for (long k = 0; k < (long) I.pts.size(); k++) r += rrank(I.ev[k]); return r; }
static VP vpts(const VL& v) { VP r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = Z(v[i]); return r; }
static bool is_int(const MX& P, const Inst& I) { for (size_t k = 0; k < I.pts.size(); k++) { MP v = rmul(ev(P, I.pts[k]), I.ev[k]); for (long i = 0; i < v.NumRows(); i++) for (long j = 0; j < v.NumCols(); j++) if (R(v[i][j])) return false; } return true; }
static void check_int(mc::Ctx& c, const char* w, const MX& P, const Inst& I, const VL& s, const VL& sout, bool popov, long cd)
{
    c.call(); for (long i = 0; i < P.NumRows(); i++) for (long j = 0; j < P.NumCols(); j++) c.observe(dg(P[i][j]));
    if (!wf(P, I.m, I.m)) { c.fail("%s: wrong dimensions or entries not in normal form", w); return; }
    if (!is_int(P, I)) { c.fail("%s: a row is not an interpolant: %s", w, str(P).c_str()); return; }
    if (!(popov ? r_popov(P, s) : r_ordered(P, s))) { c.fail("%s: not in %s form: %s", w, popov ? "Popov" : "ordered weak Popov", str(P).c_str()); return; }
    if (sout != rrdeg(P, s)) { c.fail("%s: wrong shifted row degree", w); return; }
    long d = 0; for (long x : rpivdeg(P, s)) { d += x; if (x > 0 && x < cd) c.interesting(); }
    if (d != cd) c.fail("%s: determinant of degree %ld instead of %ld: not a basis: %s", w, d, cd, str(P).c_str());
}
static bool same(const VM& a, const VM& b) { if (a.length() != b.length()) return false; for (long k = 0; k < a.length(); k++) if (!eq(a[k], b[k])) return false; return true; }
// interpolating polynomial matrix of degree < number of points (for routines that take the matrix itself)
static MX through(const Inst& I)
{
    const long d = I.pts.size(); MX F = mx(I.m, I.n);
    for (long k = 0; k < d; k++) { zz_pX l = cst(1); for (long t = 0; t < d; t++) if (t != k) l = scal(rmul(l, mk(VL{ subm(0, I.pts[t]), 1 % md() })), invm(subm(I.pts[k], I.pts[t]))); for (long i = 0; i < I.m; i++) for (long j = 0; j < I.n; j++) F[i][j] = radd(F[i][j], scal(l, R(I.ev[k][i][j]))); }
    return F;
}
// all entry points on one instance
static void all(mc::Ctx& c, const Inst& I, const VL& s0, bool matrix, long r)
{
    const long d = I.pts.size(), cd = codim(I), m = I.m, n = I.n; VP pts = vpts(I.pts); VL s;
    // the same data inside larger vectors: junk before and after the window
    for (long off = 0; off < 3; off += 2)
    {
        VP q; q.SetLength(d + (off ? 3 : 0)); VM e; e.SetLength(d + (off ? 3 : 0)); for (long k = 0; k < q.length(); k++) { const bool in = k >= off && k < off + d; q[k] = in ? pts[k - off] : Z(k % 2); if (in) e[k] = I.ev[k - off]; else e[k] = dirtyC(m, n); }
        const VM e0 = e;
#define RUN(name, call) { MX P = dirtyM(m, m + 1); s = s0; e = e0; call; check_int(c, name, P, I, s0, s, false, cd); }
        RUN("mbasis_rescomp", PML::mbasis_rescomp(P, e, q, s, off, d)) c.check(same(e, e0), "mbasis_rescomp modified the evaluations");
        RUN("mbasis_resupdate", PML::mbasis_resupdate(P, e, q, s, off, d)) RUN("mbasis", PML::mbasis(P, e, q, s, off, d)) RUN("pmbasis (evaluations)", PML::pmbasis(P, e, q, s, off, d))
        if (r > 0) RUN("pmbasis_geometric (evaluations)", PML::pmbasis_geometric(P, e, q, Z(r), s, off, d))
#undef RUN
    }
    { MX P; s = s0; VM e = I.ev; PML::mbasis(P, e, pts, s); check_int(c, "mbasis", P, I, s0, s, false, cd); }
    { MX P = dirtyM(1, m); s = s0; VM e = I.ev; PML::popov_mbasis(P, e, pts, s); check_int(c, "popov_mbasis", P, I, s0, s, true, cd); }
    if (!matrix) return;
    const MX F0 = through(I); MX F = F0;
    { MX P = dirtyM(m, m); s = s0; PML::pmbasis(P, F, pts, s); check_int(c, "pmbasis", P, I, s0, s, false, cd); }
    { MX P; s = s0; PML::popov_pmbasis(P, F, pts, s); check_int(c, "popov_pmbasis", P, I, s0, s, true, cd); VL z = s0; c.check(PML::is_interpolant_basis(P, F, pts, z, PML::POPOV, false) && PML::is_interpolant_basis(P, I.ev, pts, z, PML::POPOV, false), "is_interpolant_basis refuses a Popov basis");
      if (r > 0) c.check(PML::is_interpolant_basis_geometric(P, F, Z(r), d, z, PML::POPOV, false) && PML::is_interpolant_basis_geometric(P, I.ev, Z(r), d, z, PML::POPOV, false), "is_interpolant_basis_geometric refuses a Popov basis"); }
    if (r > 0) { MX P; s = s0; VP q = dirtyV(d + 1); PML::pmbasis_geometric(P, F, Z(r), d, s, q); check_int(c, "pmbasis_geometric", P, I, s0, s, false, cd); c.check(eq(q, pts), "pmbasis_geometric: wrong points"); }
    if (!r) // a matrix of higher degree with the same values
    {
        zz_pX M = cst(1); for (long x : I.pts) M = rmul(M, mk(VL{ subm(0, x), 1 % md() })); MX G = F0; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) G[i][j] = radd(G[i][j], rmul(M, pat(D_DENSE, 1 + (i + j) % 3, i * 7 + j))); const MX G0 = G;
        MX P; s = s0; PML::pmbasis(P, G, pts, s); check_int(c, "pmbasis (high degree input)", P, I, s0, s, false, cd); unchanged(c, G, G0, "pmbasis");
        P = mx(0, 0); s = s0; PML::popov_pmbasis(P, G, pts, s); check_int(c, "popov_pmbasis (high degree input)", P, I, s0, s, true, cd);
    }
    unchanged(c, F, F0, "interpolant basis"); c.check(eq(pts, vpts(I.pts)), "points modified");
}
static VL shift_of(mc::Ctx& c, long m, long B) { VL s; for (long j = 0; j < m; j++) s.push_back(c.range(-B, B, "s")); return s; }
static VL points(long kind, long d) { VL v; const long p = md(); for (long i = 0; i < d; i++) v.push_back(kind == 0 ? i : kind == 1 ? p - 1 - i : (i * ((p + 1) / 2) + 1) % p); return v; }
static Inst decode(long k, const VL& pts, long m, long n) { Inst I; I.pts = pts; I.m = m; I.n = n; I.ev.SetLength(pts.size()); const long B = ipow(md(), m * n); for (size_t t = 0; t < pts.size(); t++) { I.ev[t] = nthP(k % B, m, n); k /= B; } return I; }
// every list of values, every shift of a box
MC_SPACE(tiny, -1, 96)
{
    static const long S[10][5] = { { 2, 2, 1, 2, 2 }, { 3, 2, 1, 3, 2 }, { 3, 3, 1, 2, 1 }, { 5, 2, 1, 2, 2 }, { 2, 2, 2, 2, 2 }, { 2, 3, 2, 2, 1 }, { 3, 2, 2, 2, 1 }, { 7, 1, 1, 3, 1 }, { 5, 1, 2, 2, 1 }, { 5, 2, 1, 3, 1 } };
    long w = c.choose(10, "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2], D = S[w][3], B = c.lim(0, w == 9 ? 0 : S[w][4] - (w == 6 || w == 5), S[w][4] + 1); long pk = c.choose(c.lim(1, w == 9 ? 1 : 3, 3), "points"), d = c.range(1, D, "d"), k = c.choose(ipow(p, m * n * d), "values"); VL s = shift_of(c, m, B);
    if (!c.mine()) return;
    setp(p); all(c, decode(k, points(pk, d), m, n), s, true, 0);
}
// structured values
static Inst inst(long t, long m, long n, const VL& pts)
{
    Inst I; I.pts = pts; I.m = m; I.n = n; const long d = pts.size(); I.ev.SetLength(d);
    for (long k = 0; k < d; k++)
    {
        MP a = patM(0, m, n, 7 * k + 1); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = Z(elt(91 + t, (k * m + i) * n + j));
        switch (t)
        {
            case 1: for (long j = 0; j < n; j++) a[m - 1][j] = a[0][j]; break;                                                              // rank-deficient
            case 2: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = Z(mulm(elt(3, i * 5 + (k % 2)), elt(4, k * n + j))); break; // rank one
            case 3: clear(a); break;
            case 4: if (k % 3 == 1) clear(a); break;                                                                                        // some zero values
            case 5: { MP b = cm(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) b[i][j] = Z(elt(17, i * n + j)); a = b; break; }       // constant matrix
            case 6: { zz_pX f; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = Z(ev(pat(D_DENSE, 1 + (i + 2 * j) % 4, i * 3 + j), pts[k])); break; } // low degree
            case 7: for (long j = 0; j < n; j++) { a[0][j] = Z(0); if (n > 1) break; } break;
            case 8: for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = Z(i == j ? 1 % md() : 0); break;
            case 9: for (long i = 0; i + 1 < m; i++) for (long j = 0; j < n; j++) if ((k + i) % 2) a[i][j] = Z(0); break;
        }
        I.ev[k] = a;
    }
    return I;
}
static VL sh_of(long t, long m, long o)
{
    VL s(m, 0); switch (t) { case 0: break; case 1: for (long i = 0; i < m; i++) s[i] = i; break; case 2: for (long i = 0; i < m; i++) s[i] = m - i; break; case 3: for (long i = 0; i < m; i++) s[i] = i ? 0 : -2 * o; break; case 4: s[m - 1] = 3 * o; s[0] = 1; break; case 5: for (long i = 0; i < m; i++) s[i] = (i * 7 + 3) % 5 - 2; break; case 6: for (long i = 0; i < m; i++) s[i] = (i % 2) ? o / 2 : -o / 3; break; }
    return s;
}
static long goodr(long n) { for (long i = 2; i < 6000; i++) { long r = md() < 1000 ? i % md() : elt(321, i); if (r < 2) continue; long x = r, ok = 1; for (long k = 1; k < 2 * n && ok; k++) { if (x == 1) ok = 0; x = mulm(x, r); } if (ok) return r; } return 0; }
static VL geo(long r, long d) { VL v; for (long i = 0; i < d; i++) v.push_back(powm(r, 2 * i)); return v; }
MC_SPACE(shapes, 0, 96)
{
    long p = c.from({ 17, 97, P20, P60, FFT0 }, "p"), m = c.range(1, c.lim(2, 4, 6), "m"), n = c.range(1, c.lim(2, 3, 5), "n"), d = c.from({ 1, 2, 3, 5, 6, 8 }, "d"), t = c.choose(10, "type"), sh = c.choose(7, "shift"), g = c.choose(2, "geometric");
    if (!c.mine()) return;
    setp(p); long r = g ? goodr(d + 1) : 0; if (g && !r) return;
    all(c, inst(t, m, n, g ? geo(r, d) : points(p < 100 ? 2 : 0, d)), sh_of(sh, m, d), true, r);
}
MC_SPACE(recursion, -1, 96)      // divide and conquer threshold: 32 points
{
    long p = c.from(c.thorough() ? VL{ 211, P20, P60, FFT0 } : c.smoke() ? VL{ 211, FFT0 } : VL{ 211, P60, FFT0 }, "p"), w = c.choose(5, "shape"), d = c.from(c.thorough() ? VL{ 31, 32, 33, 34, 35, 47, 63, 64, 65, 66, 67, 100 } : c.smoke() ? VL{ 32, 33, 35 } : VL{ 32, 33, 34, 35, 66 }, "d"), t = c.choose(c.lim(5, 10, 10), "type"), sh = c.choose(c.lim(3, 7, 7), "shift"), g = c.choose(2, "geometric");
    static const long S[6][2] = { { 2, 1 }, { 1, 1 }, { 3, 1 }, { 2, 2 }, { 3, 2 }, { 4, 2 } };
    if (!c.thorough() && d > 40 && (t + sh) % 3) return;
    if (!c.mine()) return;
    setp(p); long r = g ? goodr(d + 1) : 0; if (g && !r) return;
    all(c, inst(t, S[w][0], S[w][1], g ? geo(r, d) : points(0, d)), sh_of(sh, S[w][0], d), d < 36, r);
}
MC_SPACE(almost_square, 0, 16)    // selection of the update variant: n = m-1 and m > 20
{
    long p = c.from({ 97, P60 }, "p"), m = c.from({ 20, 21, 22 }, "m"), dn = c.range(0, 2, "m-n"), d = c.from({ 4, 5, 6, 7 }, "d"), t = c.from({ 0, 1, 4, 9 }, "type"), sh = c.from({ 0, 5 }, "shift");
    if (!c.mine()) return;
    setp(p); all(c, inst(t, m, m - dn, points(0, d)), sh_of(sh, m, d), false, 0);
}
// verification against the definition: every matrix of a box, every form
MC_SPACE(verify, -1, 48)
{
    static const long S[4][4] = { { 2, 2, 1, 2 }, { 3, 2, 1, 1 }, { 3, 1, 1, 2 }, { 2, 2, 2, 1 } };
    long w = c.choose(4, "shape"); const long p = S[w][0], m = S[w][1], n = S[w][2]; long d = c.range(1, S[w][3], "d"), k = c.choose(ipow(p, m * n * d), "values"); const long len = p == 2 ? 3 : 2; long q = c.choose(ipow(p, m * m * len), "P"); VL s(m, 0); s[0] = c.range(-1, 1, "s");
    if (!c.mine()) return;
    setp(p); Inst I = decode(k, points(0, d), m, n); const MX P0 = nthX(q, m, m, len); MX P = P0; const MX F = through(I); VP pts = vpts(I.pts);
    const bool in = is_int(P0, I); const long fm = r_form(P0, s); bool deg = false; if (in && fm >= 1) { long t = 0; for (long x : rrdeg(P0, s)) t += x; for (long x : s) t -= x; deg = t == codim(I); }
    for (long f = 1; f <= 4; f++) { const bool want = in && deg && fm >= f; c.call(); bool a = PML::is_interpolant_basis(P, I.ev, pts, VL(s), (PML::PolMatForm) f, false), b = PML::is_interpolant_basis(P, F, pts, VL(s), (PML::PolMatForm) f, false); c.observe(a); if (a != want || b != want) c.fail("is_interpolant_basis: form %ld, got %d and %d instead of %d for %s", f, a, b, want, str(P0).c_str()); if (want) c.interesting(); }
    unchanged(c, P, P0, "is_interpolant_basis");
}
MC_SPACE(verify_geometric, -1, 48)
{
    long p = c.from({ 5, 7 }, "p"), d = c.range(1, c.lim(1, 2, 2), "d"), k = c.choose(ipow(p, d), "values"), q = c.choose(ipow(p, d + 2), "P");
    if (!c.mine()) return;
    setp(p); const long r = p == 5 ? 2 : 3; Inst I = decode(k, geo(r, d), 1, 1); const MX P = nthX(q, 1, 1, d + 2), F = through(I); MX G = F; { zz_pX M = cst(2); for (long x : I.pts) M = rmul(M, mk(VL{ subm(0, x), 1 })); G[0][0] = radd(G[0][0], M); } VL s(1, 3);
    const bool in = is_int(P, I); const long fm = r_form(P, s);
    for (long f = 1; f <= 4; f++) { const bool want = in && fm >= f && dg(P[0][0]) == codim(I); c.call(); bool a = PML::is_interpolant_basis_geometric(P, I.ev, Z(r), d, s, (PML::PolMatForm) f, false), b = PML::is_interpolant_basis_geometric(P, (q + f) % 2 ? F : G, Z(r), d, s, (PML::PolMatForm) f, false); c.observe(a); if (a != want || b != want) c.fail("is_interpolant_basis_geometric: form %ld, got %d and %d instead of %d for %s", f, a, b, want, str(P).c_str()); if (want) c.interesting(); }
}
