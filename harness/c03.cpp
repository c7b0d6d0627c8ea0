// C03: multipoint evaluation / interpolation and their transposes
#include "ref.h"
#include "lzz_p_extra.h"
#include "lzz_pX_CRT.h"
using namespace ref;
using PML::zz_pX_Multipoint;
using PML::zz_pX_Multipoint_General;
using PML::zz_pX_Multipoint_Geometric;
using PML::zz_pX_Multipoint_FFT;

static VP rev_eval(const VL& pts, const zz_pX& f) { VP v; v.SetLength(pts.size()); for (size_t i = 0; i < pts.size(); i++) v[i] = Z(ev(f, pts[i])); return v; }
// transpose of the evaluation map: coefficient i = sum_j val[j] * pts[j]^i
static zz_pX rev_teval(const VL& pts, const VP& val, long m)
{
    VL w(pts.size()), r; for (size_t j = 0; j < w.size(); j++) w[j] = R(val[j]);
    for (long i = 0; i < m; i++) { long s = 0; for (size_t j = 0; j < w.size(); j++) { s = addm(s, w[j]); w[j] = mulm(w[j], pts[j]); } r.push_back(s); }
    return mk(r);
}
static VP vecof(const zz_pX& f, long n) { VP v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = Z(C(f, i)); return v; }

// all four maps on one polynomial f of degree < n
static void four(mc::Ctx& c, zz_pX_Multipoint& ev, const VL& pts, const zz_pX& f, const std::vector<long>& outs, bool alias = true)
{
    long n = pts.size();
    VP w = rev_eval(pts, f), val = dirtyV(3); zz_pX F = f, g = dirtyP();
    ev.evaluate(val, F); expect(c, val, w, "evaluate"); unchanged(c, F, f, "evaluate input");
    ev.interpolate(g, w); expect(c, g, f, "interpolate");
    // transposes: use the coefficient vector of f as the vector of values
    VP u = vecof(f, n);
    zz_pX t = rev_teval(pts, u, n);
    for (long o : outs)
    {
        VP U = u; g = dirtyP(); ev.t_evaluate(g, U, o); expect(c, g, rtrunc(t, o < 0 ? n : o), "transposed evaluate"); unchanged(c, U, u, "t_evaluate input");
    }
    val = dirtyV(2); F = t; ev.t_interpolate(val, F); expect(c, val, u, "transposed interpolate"); unchanged(c, F, t, "t_interpolate input");
    if (dg(f) >= 0) c.interesting();
}
static void points_of(mc::Ctx& c, zz_pX_Multipoint& ev, const VL& pts)
{
    expectl(c, ev.length(), (long) pts.size(), "length");
    for (size_t i = 0; i < pts.size(); i += (pts.size() > 8 ? 5 : 1)) { zz_p x; ev.get_point(x, i); expectl(c, R(x), pts[i], "get_point"); }
    VP q = dirtyV(2); ev.get_points(q); VP w; w.SetLength(pts.size()); for (size_t i = 0; i < pts.size(); i++) w[i] = Z(pts[i]);
    expect(c, q, w, "get_points");
    if (pts.size() <= 24)
    {
        MP M = dirtyC(2, 3), W = cm(pts.size(), pts.size());
        for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < pts.size(); j++) W[i][j] = Z(powm(pts[i], j));
        ev.to_dense(M); expect(c, M, W, "Vandermonde matrix");
    }
}
static void geo_vec(mc::Ctx& c, zz_pX_Multipoint_Geometric& ev, const VL& pts, const zz_pX& f)
{
    long n = pts.size(); VP u = vecof(f, n), w = rev_eval(pts, f), t = vecof(rev_teval(pts, u, n), n), r = dirtyV(1), x;
    ev.mul_right(r, u); expect(c, r, w, "vector evaluate");
    x = u; ev.mul_right(x, x); expect(c, x, w, "vector evaluate, aliased");
    ev.inv_mul_right(r, w); expect(c, r, u, "vector interpolate");
    x = w; ev.inv_mul_right(x, x); expect(c, x, u, "vector interpolate, aliased");
    ev.mul_left(r, u); expect(c, r, t, "vector transposed evaluate");
    x = u; ev.mul_left(x, x); expect(c, x, t, "vector transposed evaluate, aliased");
    ev.inv_mul_left(r, t); expect(c, r, u, "vector transposed interpolate");
    x = t; ev.inv_mul_left(x, x); expect(c, x, u, "vector transposed interpolate, aliased");
}
static std::vector<zz_pX> alphabet(long n, bool mon)
{
    std::vector<zz_pX> v;
    for (long k : { D_DENSE, D_MAX, D_ZERO, D_SPARSE, D_DROP }) v.push_back(pat(k, n, 5 + k));
    v.push_back(pat(D_DENSE, n / 2, 77)); v.push_back(pat(D_DENSE, 1, 78));
    if (mon) for (long i = 0; i < n; i++) v.push_back(mono(1, i)); else v.push_back(mono(1, n - 1));
    return v;
}
static void matrices(mc::Ctx& c, zz_pX_Multipoint& ev, const VL& pts, long s, long t)
{
    long n = pts.size();
    MX A = patX(M_UNBAL, s, t, n, 3); VX V = patVX(M_UNBAL, s, n, 4);
    Vec<MP> vm; Vec<VP> vv; MX B = dirtyM(1, 2); VX W = dirtyVX(1);
    vm.SetLength(1); vm[0] = dirtyC(2, 2); vv.SetLength(n + 2);
    ev.evaluate_matrix(vm, A);
    expectl(c, vm.length(), n, "number of values");
    for (long k = 0; k < n; k++) expect(c, vm[k], ref::ev(A, pts[k]), "evaluate_matrix");
    ev.interpolate_matrix(B, vm); expect(c, B, A, "interpolate_matrix");
    ev.evaluate_vector(vv, V);
    expectl(c, vv.length(), n, "number of values");
    for (long k = 0; k < n; k++) { VP w; w.SetLength(s); for (long i = 0; i < s; i++) w[i] = Z(ref::ev(V[i], pts[k])); expect(c, vv[k], w, "evaluate_vector"); }
    ev.interpolate_vector(W, vv); expect(c, W, V, "interpolate_vector");
    // transposes
    for (long o : { -1L, n, (n + 1) / 2, 1L })
    {
        long m = o < 0 ? n : o;
        Vec<MP> in; in.SetLength(n); for (long k = 0; k < n; k++) in[k] = patM(0, s, t, 100 + k);
        MX T = dirtyM(2, 1); ev.t_evaluate_matrix(T, in, o);
        MX want = mapM(mx(s, t), [&](const zz_pX&, long i, long j) { VP u; u.SetLength(n); for (long k = 0; k < n; k++) u[k] = in[k][i][j]; return rev_teval(pts, u, m); });
        expect(c, T, want, "t_evaluate_matrix");
        Vec<VP> iv; iv.SetLength(n); for (long k = 0; k < n; k++) iv[k] = patV(0, s, 200 + k);
        VX TV = dirtyVX(2); ev.t_evaluate_vector(TV, iv, o);
        VX wv; wv.SetLength(s); for (long i = 0; i < s; i++) { VP u; u.SetLength(n); for (long k = 0; k < n; k++) u[k] = iv[k][i]; wv[i] = rev_teval(pts, u, m); }
        expect(c, TV, wv, "t_evaluate_vector");
        if (m == n)
        {
            Vec<MP> back; ev.t_interpolate_matrix(back, T); expectl(c, back.length(), n, "t_interpolate_matrix length");
            for (long k = 0; k < n; k++) expect(c, back[k], in[k], "t_interpolate_matrix");
            Vec<VP> bv; ev.t_interpolate_vector(bv, TV); expectl(c, bv.length(), n, "t_interpolate_vector length");
            for (long k = 0; k < n; k++) expect(c, bv[k], iv[k], "t_interpolate_vector");
        }
    }
}
static std::vector<long> outsizes(long n) { std::set<long> s = { -1, n, 1, (n + 1) / 2, n - 1 }; s.erase(0); return std::vector<long>(s.begin(), s.end()); }

static VL gpoints(long kind, long n)
{
    VL v;
    for (long i = 0; i < n; i++) v.push_back(kind == 0 ? i : kind == 1 ? md() - 1 - i : kind == 2 ? (i * 7 + 3) % md() : kind == 3 ? mulm(powm(3, i + 1), 5) : elt(55, i));
    if (kind == 4) { std::set<long> s; long x = 0; for (auto& a : v) { while (s.count(a)) a = (a + ++x) % md(); s.insert(a); } }
    return v;
}
static VP tov(const VL& v) { VP r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = Z(v[i]); return r; }

// every subset of GF(p) as point set, every polynomial
MC_SPACE(general_gf, -1, 8)
{
    long p = c.from({ 2, 3, 5 }, "p");
    long mask = c.range(1, (1L << p) - 1, "points"), ord = c.choose(2, "order"), i = c.choose(std::min(ipow(p, p), c.lim(9, 625, 3125)), "f");
    long n = __builtin_popcountl(mask);
    if (i >= ipow(p, n)) return;
    if (!c.mine()) return;
    setp(p);
    VL pts; for (long k = 0; k < p; k++) if (mask >> k & 1) pts.push_back(k);
    if (ord) std::reverse(pts.begin(), pts.end());
    zz_pX_Multipoint_General g(tov(pts));
    four(c, g, pts, nth(i, n), outsizes(n));
    if (i == 0) points_of(c, g, pts);
}
MC_SPACE(general_sizes, -1, 64)
{
    long n = c.range(1, c.lim(12, 40, 80), "n"), p = c.from({ FFT0, P59, P27, 97 }, "p"), kind = c.range(0, 4, "kind");
    if (!c.mine()) return;
    setp(p);
    VL pts = gpoints(kind, n);
    if (p == 97 && std::set<long>(pts.begin(), pts.end()).size() < (size_t) n) return;
    zz_pX_Multipoint_General g(tov(pts));
    for (auto& f : alphabet(n, kind == 0 && p == P59)) four(c, g, pts, f, outsizes(n));
    points_of(c, g, pts);
    // slice of a longer list
    VL lp(3, 0); lp.insert(lp.end(), pts.begin(), pts.end()); lp.push_back(1); lp.push_back(2);
    zz_pX_Multipoint_General h(tov(lp), 3, n);
    for (auto& f : alphabet(n, false)) four(c, h, pts, f, outsizes(n));
    points_of(c, h, pts);
    if (kind == 0 && p != 97) { zz_pX_Multipoint_General d = PML::get_general_points(n); VP q; d.get_points(q); VL ps; for (long i = 0; i < n; i++) ps.push_back(R(q[i])); expectl(c, (long) std::set<long>(ps.begin(), ps.end()).size(), n, "distinct default points"); four(c, d, ps, pat(D_DENSE, n, 4), outsizes(n)); }
}
MC_SPACE(general_big, 0, 32)
{
    long n = c.from({ 63, 64, 65, 100, 127, 128, 129, 200 }, "n"), p = c.from({ FFT0, P59, P20 }, "p"), kind = c.from({ 0, 3 }, "kind");
    if (!c.mine()) return;
    setp(p);
    VL pts = gpoints(kind, n);
    zz_pX_Multipoint_General g(tov(pts));
    for (auto& f : alphabet(n, false)) four(c, g, pts, f, { -1, n / 3 });
}

// geometric: tiny fields, every ratio and base, every polynomial
static long rord(long a) { long o = 1, x = a; while (x != 1) { x = mulm(x, a); o++; } return o; }
MC_SPACE(geometric_gf, -1, 16)
{
    long p = c.from({ 3, 5, 7, 11, 13 }, "p"), r = c.range(1, p - 1, "r"), s = c.range(1, p - 1, "s"), d = c.range(1, 5, "d"), fl = c.choose(4, "flags");
    setp(p);
    if (rord(r) < 2 * (d - 1) + 1) return;
    if (!c.mine()) return;
    setp(p);
    zz_pX_Multipoint_Geometric g(Z(r), Z(s), d);
    if (fl & 1) g.set_FFT_evaluate(); else g.unset_FFT_evaluate();
    if (fl & 2) g.set_FFT_interpolate(); else g.unset_FFT_interpolate();
    VL pts; for (long i = 0; i < d; i++) pts.push_back(mulm(s, powm(r, 2 * i)));
    points_of(c, g, pts);
    if (d > 1) { expectl(c, R(g.get_q()), mulm(r, r), "ratio"); }
    expectl(c, R(g.get_s()), s, "base");
    long tot = ipow(p, d), step = std::max(1L, tot / c.lim(20, 60, 2000)) | 1;
    for (long k = 0; k < tot; k += step) { four(c, g, pts, nth(k, d), outsizes(d)); geo_vec(c, g, pts, nth(k, d)); }
}
static long goodr(long n) { for (long i = 2;; i++) { long r = md() < 1000 ? i % md() : elt(321, i); if (r < 2) continue; long x = r, ok = 1; for (long k = 1; k < 2 * n && ok; k++) { if (x == 1) ok = 0; x = mulm(x, r); } if (ok) return r; if (i > 5000) throw std::logic_error("no ratio"); } }
MC_SPACE(geometric_sizes, -1, 64)
{
    long n = c.range(1, c.lim(10, 40, 80), "n"), p = c.from({ FFT0, P59, P27, 97 }, "p"), fl = c.choose(5, "flags"), base = c.choose(2, "s");
    if (p == 97 && 2 * n - 1 > 96) return;
    if (!c.mine()) return;
    setp(p);
    long r = goodr(n), s = base ? elt(8, 8) : 1; if (s == 0) s = 2;
    zz_pX_Multipoint_Geometric g = base ? zz_pX_Multipoint_Geometric(Z(r), Z(s), n) : zz_pX_Multipoint_Geometric(Z(r), n);
    if (fl < 4)
    {
        if (fl & 1) g.set_FFT_evaluate(); else g.unset_FFT_evaluate();
        if (fl & 2) g.set_FFT_interpolate(); else g.unset_FFT_interpolate();
        expectl(c, g.FFT_evaluate(), fl & 1, "evaluation flag"); expectl(c, g.FFT_interpolate(), fl >> 1, "interpolation flag");
    }
    VL pts; for (long i = 0; i < n; i++) pts.push_back(mulm(s, powm(r, 2 * i)));
    for (auto& f : alphabet(n, p == P27)) { four(c, g, pts, f, outsizes(n)); geo_vec(c, g, pts, f); }
    points_of(c, g, pts);
    // more points than the object holds
    for (long nb : { 0L, 1L, n - 1, n, n + 1, 2 * n, 2 * n + 3 })
    {
        VL q; for (long i = 0; i < nb; i++) q.push_back(mulm(s, powm(r, 2 * i)));
        zz_pX f = pat(D_DENSE, n, 9); VP v = dirtyV(2); g.evaluate(v, f, nb); expect(c, v, rev_eval(q, f), "evaluate at nb points");
    }
}
// histories on one object: precomputations for other degrees and flag switches between calls
MC_SPACE(geometric_histories, -1, 64)
{
    static const std::vector<long> Ns = { 2, 3, 5, 8, 9, 17, 33 };
    long n = c.from(Ns, "n"), p = c.from({ FFT0, P59, P25 }, "p");
    long L = c.lim(2, 3, 4); std::vector<long> ops;
    for (long i = 0; i < L; i++) ops.push_back(c.choose(8, "op"));
    if (!c.mine()) return;
    setp(p);
    long r = goodr(n), s = 3;
    zz_pX_Multipoint_Geometric g(Z(r), Z(s), n);
    VL pts; for (long i = 0; i < n; i++) pts.push_back(mulm(s, powm(r, 2 * i)));
    for (long o : ops)
    {
        switch (o)
        {
            case 0: g.prepare_degree(0); break;
            case 1: g.prepare_degree(n / 2); break;
            case 2: g.prepare_degree(n - 2); break;
            case 3: g.set_FFT_evaluate(); break;
            case 4: g.unset_FFT_evaluate(); break;
            case 5: g.set_FFT_interpolate(); break;
            case 6: g.unset_FFT_interpolate(); break;
            case 7: g.decide_FFT(); break;
        }
        for (long d : { n, n - 1, n / 2 + 1, n / 2, 1L }) four(c, g, pts, pat(D_DENSE, d, 11 + d), { -1, n / 2 + 1, 1, n - 1 });
    }
    geo_vec(c, g, pts, pat(D_DENSE, n, 1));
    // a copy carries the same state
    zz_pX_Multipoint_Geometric h = g;
    four(c, h, pts, pat(D_DENSE, n / 2 + 1, 31), { n / 2 + 1 });
    four(c, g, pts, pat(D_DENSE, n, 31), { n });
}
MC_SPACE(geometric_big, 0, 32)
{
    long n = c.from({ 53, 54, 63, 64, 65, 87, 88, 107, 110, 111, 128, 129, 200 }, "n"), p = c.from({ FFT0, P59, P20 }, "p"), fl = c.choose(2, "auto");
    if (!c.mine()) return;
    setp(p);
    long r = goodr(n), s = 5; zz_pX_Multipoint_Geometric g(Z(r), Z(s), n);
    VL pts; for (long i = 0; i < n; i++) pts.push_back(mulm(s, powm(r, 2 * i)));
    if (fl) { g.prepare_degree(n / 3); g.prepare_degree(n / 2); }
    for (auto& f : alphabet(n, false)) { four(c, g, pts, f, { -1, n / 3 }); geo_vec(c, g, pts, f); }
    zz_pX_Multipoint_Geometric h = PML::get_geometric_points(n);
    VP q; h.get_points(q); VL ps; for (long i = 0; i < n; i++) ps.push_back(R(q[i]));
    expectl(c, (long) std::set<long>(ps.begin(), ps.end()).size(), n, "distinct default points");
    four(c, h, ps, pat(D_DENSE, n, 3), { -1 });
}
MC_SPACE(fft_points, -1, 32)
{
    long k = c.range(0, c.lim(3, 7, 9), "k"), p = c.from({ FFT0, FFT0 + 1, -257, -65537, -P60 }, "p"), lead = c.choose(2, "via");
    if (p == -257 && k > 7) return;
    if (!c.mine()) return;
    setp(p);
    long n = 1L << k;
    zz_pX_Multipoint_FFT g = lead ? PML::get_FFT_points(n == 1 ? 1 : n - (n > 2)) : zz_pX_Multipoint_FFT(n);
    VL pts; { VP q; g.get_points(q); for (long i = 0; i < q.length(); i++) pts.push_back(R(q[i])); }
    expectl(c, (long) std::set<long>(pts.begin(), pts.end()).size(), n, "distinct points");
    for (long x : pts) expectl(c, powm(x, n), 1, "points are n-th roots of unity");
    points_of(c, g, pts);
    for (auto& f : alphabet(n, n <= 32)) four(c, g, pts, f, outsizes(n));
    for (auto& f : alphabet(n, false)) four(c, g, pts, f, outsizes(n));      // workspace reuse
}
MC_SPACE(matrix_forms, -1, 32)
{
    long type = c.choose(3, "type"), n = c.from({ 1, 2, 3, 5, 8, 16, 20 }, "n"), s = c.range(1, 3, "rows"), t = c.range(1, 3, "cols"), p = c.from({ FFT0, P59 }, "p");
    if (type == 2 && ((n & (n - 1)) || p != FFT0)) return;
    if (!c.mine()) return;
    setp(p);
    if (type == 0) { VL pts = gpoints(3, n); zz_pX_Multipoint_General g(tov(pts)); matrices(c, g, pts, s, t); }
    else if (type == 1)
    {
        long r = goodr(n); zz_pX_Multipoint_Geometric g(Z(r), Z(7), n); VL pts; for (long i = 0; i < n; i++) pts.push_back(mulm(7, powm(r, 2 * i)));
        matrices(c, g, pts, s, t); g.set_FFT_evaluate(); g.set_FFT_interpolate(); if (n > 2) g.prepare_degree(n / 2); matrices(c, g, pts, s, t);
    }
    else { zz_pX_Multipoint_FFT g(n); VP q; g.get_points(q); VL pts; for (long i = 0; i < n; i++) pts.push_back(R(q[i])); matrices(c, g, pts, s, t); }
}
