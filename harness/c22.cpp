// C22: annihilators of linear recurrent sequences over k[x]/x^d
#include "mc.h"
#include "rnd.h"
#include "lzz_pX_seq.h"
using namespace ref;
using PML::zz_pXY;
typedef NTL::Vec<VX> VV;
static const zz_pX& co(const zz_pXY& f, long i) { static const zz_pX z; return i < 0 || i >= f.rep.length() ? z : f.rep[i]; }
static bool ok(const zz_pXY& f) { for (long i = 0; i < f.rep.length(); i++) if (!wellformed(f.rep[i])) return false; return f.rep.length() == 0 || dg(f.rep[f.rep.length() - 1]) >= 0; }
// window i of f applied to component k of S
static zz_pX win(const zz_pXY& f, const VV& S, long i, long k) { zz_pX r; for (long j = 0; j < f.rep.length(); j++) r = radd(r, rmul(f.rep[j], S[i + j][k])); return r; }
static VV mod_of(const VX& S) { VV r; r.SetLength(S.length()); for (long i = 0; i < S.length(); i++) { r[i].SetLength(1); r[i][0] = S[i]; } return r; }
// row space over F_p, incremental
struct Span
{
    std::vector<VL> red; std::vector<long> piv;
    VL reduce(VL v) const { for (size_t t = 0; t < red.size(); t++) { long f = v[piv[t]]; if (f) for (size_t k = 0; k < v.size(); k++) v[k] = subm(v[k], mulm(f, red[t][k])); } return v; }
    bool has(const VL& v) const { for (long x : reduce(v)) if (x) return false; return true; }
    bool insert(const VL& w) { VL v = reduce(w); for (size_t k = 0; k < v.size(); k++) if (v[k]) { long f = invm(v[k]); for (auto& x : v) x = mulm(x, f); red.push_back(v); piv.push_back(k); return true; } return false; }
};
// coefficients modulo x^d of x^s times the entries j .. j+w-1 of the sequence
static VL img(const VV& S, long d, long s, long j, long w) { VL v; for (long i = 0; i < w; i++) for (long k = 0; k < S[0].length(); k++) for (long e = 0; e < d; e++) v.push_back(C(S[i + j][k], e - s)); return v; }
// minimal degree in y of an annihilator of the finite sequence with leading coefficient x^t
static VL mindegs(const VV& S, long d)
{
    const long L = S.length(); VL r(d, L);
    for (long n = L - 1; n >= 0; n--) { Span B; for (long j = 0; j < n; j++) for (long s = 0; s < d; s++) B.insert(img(S, d, s, j, L - n)); for (long t = 0; t < d; t++) if (B.has(img(S, d, t, n, L - n))) r[t] = n; }
    return r;
}
static bool cancels(const zz_pXY& f, const VV& S, long d, long nwin = -1) { const long w = nwin >= 0 ? nwin : S.length() - (f.rep.length() - 1); for (long i = 0; i < w; i++) for (long k = 0; k < S[0].length(); k++) { zz_pX r = win(f, S, i, k); if (dg(d < 0 ? r : rtrunc(r, d)) >= 0) return false; } return true; }
static void check_gens(mc::Ctx& c, const char* w, const NTL::Vec<zz_pXY>& G, const VV& S, long d, const VL& n)
{
    const long L = S.length(); if (G.length() != d) { c.fail("%s: %ld polynomials instead of %ld", w, (long) G.length(), d); return; }
    for (long t = 0; t < d; t++)
    {
        zz_pXY f = G[t]; if (!ok(f)) { c.fail("%s: polynomial %ld is not normalized", w, t); return; }
        for (long j = 0; j < f.rep.length(); j++) f.rep[j] = rtrunc(f.rep[j], d); { long j = f.rep.length(); while (j > 0 && dg(f.rep[j - 1]) < 0) j--; f.rep.SetLength(j); } c.observe(hsh(f.rep));     // polynomials over k[x]/x^d
        if (n[t] >= L) continue;        // no annihilator shorter than the sequence: nothing to find
        if (f.rep.length() == 0 || !eq(f.rep[f.rep.length() - 1], mono(1, t))) { c.fail("%s: leading coefficient of polynomial %ld is not x^%ld: %s", w, t, t, str(f.rep).c_str()); return; }
        if (!cancels(f, S, d)) { c.fail("%s: polynomial %ld does not cancel the sequence: %s", w, t, str(f.rep).c_str()); return; }
        if (f.degY() != n[t]) { c.fail("%s: polynomial %ld has degree %ld, the minimal one is %ld", w, t, f.degY(), n[t]); return; }
        if (n[t] > 0) c.interesting();
    }
}
static NTL::Vec<zz_pXY> dirtyG() { NTL::Vec<zz_pXY> g; g.SetLength(2); g[0] = zz_pXY(dirtyP()); g[1] = PML::shift_y(g[0], 1); return g; }
// basis of the relations of degree <= e on the first e windows, over k[x] modulo x^d
static void check_basis(mc::Ctx& c, const char* w, const NTL::Vec<zz_pXY>& G, const VV& S, long d, bool hnf)
{
    const long e = S.length() / 2; if (G.length() != e + 1) { c.fail("%s: %ld polynomials instead of %ld", w, (long) G.length(), e + 1); return; }
    Span B; for (long j = 0; j <= e; j++) for (long s = 0; s < d; s++) B.insert(img(S, d, s, j, e)); long dd = 0; MX M = mx(e + 1, e + 1);
    for (long r = 0; r <= e; r++)
    {
        c.observe(hsh(G[r].rep)); if (!ok(G[r])) { c.fail("%s: polynomial %ld is not normalized", w, r); return; } if (G[r].degY() > e) { c.fail("%s: degree in y too large", w); return; }
        if (!cancels(G[r], S, d, e)) { c.fail("%s: polynomial %ld is not a relation: %s", w, r, str(G[r].rep).c_str()); return; }
        for (long j = 0; j <= e; j++) M[r][j] = co(G[r], j); if (hnf && G[r].degY() != r) { c.fail("%s: polynomial %ld has degree %ld in y", w, r, G[r].degY()); return; }
    }
    dd = dg(rdet(M)); if (dd != (long) B.red.size()) c.fail("%s: determinant of degree %ld, the module of relations has codimension %ld", w, dd, (long) B.red.size()); if (dd > 0) c.interesting();
}
static void single(mc::Ctx& c, const VX& S0, long d)
{
    VX S = S0; const VV M = mod_of(S0); const VL n = mindegs(M, d); NTL::Vec<zz_pXY> G = dirtyG(), H = dirtyG(), B;
    PML::kurakin(d, S, G); c.call(); check_gens(c, "kurakin", G, M, d, n);
    PML::modified_kurakin(d, S, H); c.call(); if (H.length() != d) { c.fail("modified_kurakin: %ld polynomials", (long) H.length()); return; }
    for (long t = 0; t < d; t++) if (H[t].rep.length() && n[t] < S0.length() && !cancels(H[t], M, d)) { c.fail("modified_kurakin: polynomial %ld does not cancel the sequence", t); return; }
    PML::fill_in(d, H); check_gens(c, "modified_kurakin and fill_in", H, M, d, n);
    if (S0.length() >= 2) { PML::berlekamp_massey_pmbasis(d, S, B); c.call(); check_basis(c, "berlekamp_massey_pmbasis", B, M, d, false); }
    c.check(eq(S, S0), "the sequence was modified");
}
static void module(mc::Ctx& c, const VV& S0, long d, bool comp)
{
    VV S = S0; const VL n = mindegs(S0, d); NTL::Vec<zz_pXY> G = dirtyG(), H = dirtyG(), B, D, E;
    PML::kurakin(d, S, G); c.call(); check_gens(c, "kurakin (modules)", G, S0, d, n);
    PML::modified_kurakin(d, S, H); c.call(); PML::fill_in(d, H); check_gens(c, "modified_kurakin and fill_in (modules)", H, S0, d, n);
    if (S0.length() >= 2)
    {
        PML::berlekamp_massey_pmbasis(d, S, B); c.call(); check_basis(c, "berlekamp_massey_pmbasis (modules)", B, S0, d, false); PML::berlekamp_massey_pmbasis_hnf(d, S, D); c.call(); check_basis(c, "berlekamp_massey_pmbasis_hnf", D, S0, d, true);
        if (comp) { PML::berlekamp_massey_pmbasis_compressed(d, S, E); c.call(); check_basis(c, "berlekamp_massey_pmbasis_compressed", E, S0, d, false); }
    }
    for (long i = 0; i < S0.length(); i++) c.check(eq(S[i], S0[i]), "the sequence was modified");
}
MC_SPACE(single_tiny, -1, 96)
{
    // p, d, L
    static const long T[9][3] = { { 2, 1, 5 }, { 2, 2, 4 }, { 3, 1, 5 }, { 2, 3, 4 }, { 3, 2, 3 }, { 2, 2, 6 }, { 2, 4, 3 }, { 3, 2, 5 }, { 2, 3, 5 } };
    long w = c.choose(c.lim(3, 7, 9), "shape"); const long p = T[w][0], d = T[w][1], L = T[w][2]; long k = c.choose(ipow(p, d * L), "S");
    if (!c.mine()) return;
    setp(p); VX S; S.SetLength(L); const long Q = ipow(p, d); for (long i = 0; i < L; i++) { S[i] = nth(k % Q, d); k /= Q; } single(c, S, d);
}
MC_SPACE(module_tiny, -1, 96)
{
    // p, d, L, tau
    static const long T[8][4] = { { 2, 1, 3, 2 }, { 2, 2, 3, 1 }, { 3, 1, 3, 2 }, { 2, 2, 3, 2 }, { 2, 1, 4, 2 }, { 2, 1, 5, 2 }, { 2, 2, 4, 2 }, { 2, 3, 3, 2 } };
    long w = c.choose(c.lim(3, 6, 8), "shape"); const long p = T[w][0], d = T[w][1], L = T[w][2], m = T[w][3]; long k = c.choose(ipow(p, d * L * m), "S");
    if (!c.mine()) return;
    setp(p); VV S; S.SetLength(L); const long Q = ipow(p, d); for (long i = 0; i < L; i++) { S[i].SetLength(m); for (long j = 0; j < m; j++) { S[i][j] = nth(k % Q, d); k /= Q; } } module(c, S, d, false);
}
// sequences obtained from a recurrence y^n + ... , with prescribed valuations
static VV recurrent(long n, long L, long m, long d, long t, long s)
{
    VV S; S.SetLength(L); VX R; R.SetLength(n); for (long j = 0; j < n; j++) { R[j] = rtrunc(pat(D_DENSE, d, 31 * s + j), d); if (t == 1) R[j] = shl(R[j], j % 2); if (t == 2) R[j] = j ? zz_pX() : R[j]; }
    for (long i = 0; i < L; i++)
    {
        S[i].SetLength(m); for (long k = 0; k < m; k++)
        {
            zz_pX v; if (i < n) { v = pat(D_DENSE, d, 7 * s + 50 * i + k); if (t == 3) v = shl(v, (i + k) % d); if (t == 4) v = i == n - 1 ? mono(1, k % d) : zz_pX(); if (t == 5) v = shl(v, d - 1); if (t == 6) v = k ? zz_pX() : v; }
            else { for (long j = 0; j < n; j++) v = rsub(v, rmul(R[j], S[i - n + j][k])); if (t == 7 && i == L - 1) v = radd(v, mono(1, d - 1)); }
            S[i][k] = rtrunc(v, d);
        }
    }
    return S;
}
MC_SPACE(single_recurrent, 0, 96)
{
    long p = c.from({ 2, 97, P60, FFT0 }, "p"), d = c.range(1, c.lim(3, 5, 8), "d"), n = c.range(0, c.lim(2, 4, 6), "n"), x = c.range(-1, 2, "extra"), t = c.choose(8, "type"), s = c.choose(c.lim(1, 3, 6), "seed");
    const long L = 2 * n + x; if (L < 1) return; if (d * L > 60) return;
    if (!c.mine()) return;
    setp(p); VV S = recurrent(n, L, 1, d, t, s); VX T; T.SetLength(L); for (long i = 0; i < L; i++) T[i] = S[i][0]; single(c, T, d);
}
MC_SPACE(module_recurrent, 0, 96)
{
    long p = c.from({ 2, 97, P60, FFT0 }, "p"), d = c.range(1, c.lim(3, 4, 6), "d"), n = c.range(0, c.lim(2, 3, 5), "n"), m = c.range(1, 3, "tau"), x = c.range(-1, 2, "extra"), t = c.choose(8, "type"), s = c.choose(c.lim(1, 2, 4), "seed");
    const long L = 2 * n + x; if (L < 1) return; if (d * L > 40) return;
    if (!c.mine()) return;
    setp(p); rnd::reset(VL(), 5); module(c, recurrent(n, L, m, d, t, s), d, p > 1000);
}
// sequence arithmetic and the verification routine
static zz_pXY nthY(long k, long dx, long dy) { zz_pXY f; f.rep.SetLength(dy); const long Q = ipow(md(), dx); for (long i = 0; i < dy; i++) { f.rep[i] = nth(k % Q, dx); k /= Q; } long l = dy; while (l > 0 && dg(f.rep[l - 1]) < 0) l--; f.rep.SetLength(l); return f; }
static void arith(mc::Ctx& c, const VV& S0, const zz_pXY& f0, long d)
{
    const long L = S0.length(), m = S0[0].length(); VV S = S0; zz_pXY f = f0; VX T; T.SetLength(L); for (long i = 0; i < L; i++) T[i] = S0[i][0]; const VX T0 = T; const zz_pX a0 = co(f0, 0); const bool z = f0.rep.length() == 0; const long n = z ? L : std::max(0L, L - (long) f0.rep.length() + 1);
    VX r = PML::mul(T, a0), r2 = PML::mulTrunc(T, a0, d), r3 = PML::add(T, T); c.call(3); for (long i = 0; i < L; i++) if (!eq(r[i], rmul(T0[i], a0)) || !eq(r2[i], rtrunc(rmul(T0[i], a0), d)) || !eq(r3[i], radd(T0[i], T0[i]))) { c.fail("sequence times polynomial / sum, entry %ld", i); return; }
    VV v = PML::mul(S, a0), v2 = PML::mulTrunc(S, a0, d), v3 = PML::add(S, S); for (long i = 0; i < L; i++) for (long k = 0; k < m; k++) if (!eq(v[i][k], rmul(S0[i][k], a0)) || !eq(v2[i][k], rtrunc(rmul(S0[i][k], a0), d)) || !eq(v3[i][k], radd(S0[i][k], S0[i][k]))) { c.fail("sequence (modules) times polynomial / sum, entry %ld", i); return; }
    c.check(r.length() == L && r2.length() == L && r3.length() == L && v.length() == L && v2.length() == L && v3.length() == L, "length of a product or sum");
    const VV M = mod_of(T0); VX p = PML::mul(T, f), q = PML::mulTrunc(T, f, d); VV P = PML::mul(S, f), Q = PML::mulTrunc(S, f, d); c.call(4);
    if (!z && (p.length() != n || q.length() != n || P.length() != n || Q.length() != n)) { c.fail("product by a bivariate polynomial: lengths %ld %ld %ld %ld instead of %ld", (long) p.length(), (long) q.length(), (long) P.length(), (long) Q.length(), n); return; }
    for (long i = 0; i < p.length(); i++) if (!eq(p[i], z ? zz_pX() : win(f0, M, i, 0))) { c.fail("mul: entry %ld", i); return; } for (long i = 0; i < q.length(); i++) if (!eq(q[i], z ? zz_pX() : rtrunc(win(f0, M, i, 0), d))) { c.fail("mulTrunc: entry %ld", i); return; }
    for (long k = 0; k < m; k++) { for (long i = 0; i < P.length(); i++) if (!eq(P[i][k], z ? zz_pX() : win(f0, S0, i, k))) { c.fail("mul (modules): entry %ld", i); return; } for (long i = 0; i < Q.length(); i++) if (!eq(Q[i][k], z ? zz_pX() : rtrunc(win(f0, S0, i, k), d))) { c.fail("mulTrunc (modules): entry %ld", i); return; } }
    NTL::Vec<zz_pXY> g; g.append(f); for (long t = 0; t < 2; t++) { const long e = t ? d : -1; bool w1 = z || cancels(f0, M, e), w2 = z || cancels(f0, S0, e); c.call(2); c.observe(w1 + 2 * w2); if (PML::check_cancel(T, g, e) != w1) c.fail("check_cancel (d = %ld) answers %d", e, !w1); if (PML::check_cancel(S, g, e) != w2) c.fail("check_cancel (modules, d = %ld) answers %d", e, !w2); if (!w1) c.interesting(); }
    long i = 0; while (i < L && dg(T0[i]) < 0) i++; if (PML::index_non_zero(T) != i) c.fail("index_non_zero"); if (PML::is_zero_seq(T) != (i == L)) c.fail("is_zero_seq"); c.check(eq(T, T0), "operand modified");
}
MC_SPACE(arith_tiny, -1, 96)
{
    // p, d, L, tau, dx, dy
    static const long T[5][6] = { { 2, 2, 3, 1, 2, 2 }, { 2, 1, 2, 2, 2, 3 }, { 3, 1, 3, 1, 1, 3 }, { 2, 2, 2, 2, 1, 3 }, { 2, 1, 5, 1, 2, 3 } };
    long w = c.choose(c.lim(2, 4, 5), "shape"); const long *t = T[w], p = t[0]; long k = c.choose(ipow(p, t[1] * t[2] * t[3]), "S"), l = c.choose(ipow(p, t[4] * t[5]), "f"), d = c.range(1, 3, "d");
    if (!c.mine()) return;
    setp(p); VV S; S.SetLength(t[2]); const long Q = ipow(p, t[1]); for (long i = 0; i < t[2]; i++) { S[i].SetLength(t[3]); for (long j = 0; j < t[3]; j++) { S[i][j] = nth(k % Q, t[1]); k /= Q; } } arith(c, S, nthY(l, t[4], t[5]), d);
}
MC_SPACE(arith, 0, 48)
{
    long p = c.from({ 97, P60, FFT0 }, "p"), L = c.range(1, 6, "L"), m = c.range(1, 3, "tau"), dy = c.range(0, 8, "dy"), dx = c.from({ 1, 2, 7 }, "dx"), d = c.from({ 1, 3, 8, 20 }, "d");
    if (!c.mine()) return;
    setp(p); VV S; S.SetLength(L); for (long i = 0; i < L; i++) { S[i].SetLength(m); for (long k = 0; k < m; k++) S[i][k] = pat(D_DENSE, 5, 10 * i + k); } zz_pXY f; f.rep.SetLength(dy); for (long i = 0; i < dy; i++) { f.rep[i] = pat(D_DENSE, dx, i + 3); if (i == dy - 1) f.rep[i] = radd(f.rep[i], mono(1, dx)); } arith(c, S, f, d);
}
// structured lifting: non-degenerate sequences (the Hankel matrix is invertible modulo x)
static void minpoly(mc::Ctx& c, const VV& S, long d)
{
    const long n = S.length() / 2; MP H = cm(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) H[i][j] = Z(C(S[i + j][0], 0)); if (!rdet(H)) return;
    VX T; T.SetLength(2 * n); for (long i = 0; i < 2 * n; i++) T[i] = S[i][0]; const VX T0 = T; zz_pXY P(dirtyP()); PML::minpoly_nondegenerate(d, T, P); c.call(); c.check(eq(T, T0), "the sequence was modified"); c.observe(hsh(P.rep));
    if (!ok(P) || P.degY() != n || !eq(P.rep[n], cst(1)) || !cancels(P, S, d)) { c.fail("minpoly_nondegenerate: not a monic annihilator of degree %ld: %s", n, str(P.rep).c_str()); return; } c.interesting();
}
MC_SPACE(minpoly_tiny, -1, 48)
{
    static const long T[7][3] = { { 2, 2, 2 }, { 3, 2, 2 }, { 5, 1, 4 }, { 3, 3, 2 }, { 2, 3, 4 }, { 2, 2, 6 }, { 3, 2, 4 } };
    long w = c.choose(c.lim(3, 6, 7), "shape"); const long p = T[w][0], d = T[w][1], L = T[w][2]; long k = c.choose(ipow(p, d * L), "S");
    if (!c.mine()) return;
    setp(p); VV S; S.SetLength(L); const long Q = ipow(p, d); for (long i = 0; i < L; i++) { S[i].SetLength(1); S[i][0] = nth(k % Q, d); k /= Q; } minpoly(c, S, d);
}
MC_SPACE(minpoly, 0, 48)
{
    long p = c.from({ 97, P60, FFT0 }, "p"), d = c.range(1, c.lim(4, 9, 12), "d"), n = c.range(1, c.lim(2, 4, 6), "n"), t = c.choose(5, "type"), s = c.choose(c.lim(1, 3, 6), "seed");
    if (!c.mine()) return;
    setp(p); minpoly(c, recurrent(n, 2 * n, 1, d, t, s), d);
}
