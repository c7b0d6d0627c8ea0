// C30: shifted degrees, pivots, forms, echelon / Hermite / weak Popov forms of flint-extras
#include "fforms.h"
static void eqv(mc::Ctx& c, const char* g, const char* o, const PM& a, const std::vector<slong>& got, const VL& want, size_t n) { c.call(); for (size_t i = 0; i < n; i++) { c.observe(want[i]); if (got[i] != want[i]) c.fail("%s (%s) of %s: entry %zu is %ld, expected %ld", g, o, showp(a).c_str(), i, got[i], want[i]); } }
static void observers(mc::Ctx& c, const PM& a, const std::vector<VL>& rsh, const std::vector<VL>& csh)
{
    nmod_poly_mat_t A; putp(A, a);
    for (int o = 0; o < 4; o++)
    {
        const PM k = canon(a, o); const long dim = k.r, len = k.c; const std::vector<VL>& SH = o < 2 ? rsh : csh; const orientation_t O = ORI[o]; const char* N = ORN[o];
        for (size_t u = 0; u <= SH.size(); u++)
        {
            const VL s = u < SH.size() ? SH[u] : VL(len, 0); std::vector<slong> ss(s.begin(), s.end()); const slong* S = u < SH.size() ? ss.data() : NULL; const VL t = cshift(s, o); std::vector<slong> d(dim + 1, -99), e(dim + 1, -99); VL wd, wz, wp, wg, we, wf; UL nz = 0;
            for (long q = 0; q < dim; q++) { long i = o % 2 ? dim - 1 - q : q, p = pivot(k, i, t), ep = epivot(k, i), sd = sdeg(k, i, t); wd.push_back(sd); wz.push_back(p < 0 ? sd + 1 : sd); nz += p >= 0; wp.push_back(o % 2 ? len - 1 - p : p); wg.push_back(p < 0 ? -1 : k.deg(i, p)); we.push_back(o % 2 ? len - 1 - ep : ep); wf.push_back(ep < 0 ? -1 : k.deg(i, ep)); }
            if (o == 0 || o == 2)
            {
                UL r1 = o ? nmod_poly_mat_column_degree(d.data(), A, S) : nmod_poly_mat_row_degree(d.data(), A, S); eqv(c, o ? "nmod_poly_mat_column_degree" : "nmod_poly_mat_row_degree", "", a, d, wd, dim); if (r1 != nz) c.fail("the number of nonzero rows or columns is %lu, expected %lu", r1, nz);
                r1 = o ? nmod_poly_mat_column_degree_zero(d.data(), A, S) : nmod_poly_mat_row_degree_zero(d.data(), A, S); eqv(c, o ? "nmod_poly_mat_column_degree_zero" : "nmod_poly_mat_row_degree_zero", "", a, d, wz, dim); if (r1 != nz) c.fail("the number of nonzero rows or columns (degree_zero) is %lu, expected %lu", r1, nz);
                fmpz_mat_t D; fmpz_mat_init(D, a.r, a.c); nmod_poly_mat_degree_matrix_shifted(D, A, S, O); c.call(); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) { long w = a.deg(i, j) + (o ? s[i] : s[j]); if (fmpz_get_si(fmpz_mat_entry(D, i, j)) != w) c.fail("nmod_poly_mat_degree_matrix_shifted (%s) of %s: entry (%ld, %ld)", N, showp(a).c_str(), i, j); }
                nmod_poly_mat_degree_matrix(D, A); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) if (fmpz_get_si(fmpz_mat_entry(D, i, j)) != a.deg(i, j)) c.fail("nmod_poly_mat_degree_matrix"); fmpz_mat_clear(D);
            }
            UL r2 = nmod_poly_mat_pivot_index(d.data(), A, S, O); eqv(c, "nmod_poly_mat_pivot_index", N, a, d, wp, dim); UL r3 = nmod_poly_mat_pivot_profile(d.data(), e.data(), A, S, O); eqv(c, "nmod_poly_mat_pivot_profile (index)", N, a, d, wp, dim); eqv(c, "nmod_poly_mat_pivot_profile (degree)", N, a, e, wg, dim);
            if (r2 != nz || r3 != nz) c.fail("pivot index / profile (%s) of %s returns %lu, %lu, expected %lu", N, showp(a).c_str(), r2, r3, nz);
            if (o < 2) for (long i = 0; i < a.r; i++) { slong pi = -5, pd = -5; UL r4 = _nmod_poly_vec_pivot_profile(&pi, &pd, nmod_poly_mat_entry(A, i, 0), S, a.c, O); if (pi != wp[i] || pd != wg[i] || r4 != (UL) (wg[i] >= 0)) c.fail("_nmod_poly_vec_pivot_profile (%s) of row %ld of %s: %ld, %ld, %lu", N, i, showp(a).c_str(), pi, pd, r4); }
            nmod_poly_mat_echelon_pivot_index(d.data(), A, O); eqv(c, "nmod_poly_mat_echelon_pivot_index", N, a, d, we, dim); nmod_poly_mat_echelon_pivot_profile(d.data(), e.data(), A, O); eqv(c, "nmod_poly_mat_echelon_pivot_profile (index)", N, a, d, we, dim); eqv(c, "nmod_poly_mat_echelon_pivot_profile (degree)", N, a, e, wf, dim); if (d[dim] != -99 || e[dim] != -99) c.fail("pivots: written beyond the number of rows or columns");
            Mat L = lmat(k, t); if (o % 2) std::reverse(L.v.begin(), L.v.end()); if (o >= 2) { Mat x(a.r, a.c, a.m); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) x.at(i, j) = L.at(j, i); L = x; }
            nmod_mat_t M; nmod_mat_init(M, a.r, a.c, a.m); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) nmod_mat_entry(M, i, j) = a.m - 1; nmod_poly_mat_leading_matrix(M, A, S, O); c.call(); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) if (nmod_mat_entry(M, i, j) != L.at(i, j)) c.fail("nmod_poly_mat_leading_matrix (%s) of %s: entry (%ld, %ld) is %lu, expected %lu", N, showp(a).c_str(), i, j, nmod_mat_entry(M, i, j), L.at(i, j)); nmod_mat_clear(M);
            const Forms F = forms(k, t); if (F.pop || (F.her && k.r > 1)) c.interesting();
            auto is = [&](const char* g, int got, bool want) { c.call(); c.observe(want); if ((got != 0) != want) c.fail("%s (%s) of %s is %d", g, N, showp(a).c_str(), got); };
            is("nmod_poly_mat_is_reduced", nmod_poly_mat_is_reduced(A, S, O), F.red); is("nmod_poly_mat_is_weak_popov", nmod_poly_mat_is_weak_popov(A, S, O), F.wp); is("nmod_poly_mat_is_ordered_weak_popov", nmod_poly_mat_is_ordered_weak_popov(A, S, O), F.owp); is("nmod_poly_mat_is_popov", nmod_poly_mat_is_popov(A, S, O), F.pop);
            is("nmod_poly_mat_is_echelon", nmod_poly_mat_is_echelon(A, O), F.ech); is("nmod_poly_mat_is_hermite", nmod_poly_mat_is_hermite(A, O), F.her);
            const bool W[7] = { true, F.red, F.wp, F.owp, F.pop, F.ech, F.her }; static const char* WN[7] = { "is_form NONE", "is_form REDUCED", "is_form WEAK_POPOV", "is_form ORD_WEAK_POPOV", "is_form POPOV", "is_form ECHELON", "is_form HERMITE" }; for (int q = 0; q < 7; q++) is(WN[q], nmod_poly_mat_is_form(A, (poly_mat_form_t) q, S, O), W[q]);
        }
    }
    samep(c, "an observer (operand)", A, a); nmod_poly_mat_clear(A);
}
MC_SPACE(forms_all, -1, 24)
{
    UL m = c.from({ 2, 3 }, "p"); long r = c.range(1, 3, "rows"), n = c.range(1, m == 2 ? 3 : 2, "cols"), len = r * n == 9 || (m == 3 && r * n > 4) ? 1 : r * n <= 2 ? 3 : 2; UL N = ipow(m, r * n * len), step = N > 1000 ? c.lim(13, 3, 1) : 1, q = c.choose((N + step - 1) / step, "matrix"); if (!c.mine()) return;
    observers(c, nthp(std::min(N - 1, q * step), r, n, len, m), shifts(n, c.lim(2, 3, 5)), shifts(r, c.lim(2, 3, 5)));
}
MC_SPACE(forms_shapes, -1, 16)
{
    // matrices built to have (or to narrowly miss) each form
    UL m = c.from({ 2, 97, (1L << 60) - 93 }, "p"); long r = c.range(1, c.lim(3, 4, 5), "rows"), n = c.range(1, c.lim(4, 5, 6), "cols"); int o = c.choose(4, "orientation"), t = c.choose(6, "change"), sh = c.choose(4, "shift"), prof = c.choose(3, "profile"); long pr = o < 2 ? r : n, pc = o < 2 ? n : r; if (pr > pc) { return; } if (!c.mine()) return;
    VL s = sh == 0 ? VL(pc, 0) : shifts(pc, 3)[sh - 1]; PM k(pr, pc, m); VL piv, deg; for (long i = 0; i < pr; i++) { piv.push_back(prof == 0 ? i : prof == 1 ? pc - pr + i : i + (i >= pr / 2 ? pc - pr : 0)); deg.push_back(1 + (i * 2 + prof) % 3); }
    // a shifted Popov matrix with these pivots
    for (long i = 0; i < pr; i++) for (long j = 0; j < pc; j++) { long b = j == piv[i] ? deg[i] : deg[i] + s[piv[i]] - s[j] - (j > piv[i]); for (long x = 0; x < pr; x++) if (x != i && piv[x] == j) b = std::min(b, deg[x] - 1); for (long d = 0; d <= std::min(b, 12L); d++) k.set(i, j, d, d == b && j == piv[i] ? 1 : rnd(i * 77 + j * 7 + d, t)); } k.norm();
    if (t == 1) k.set(pr - 1, piv[pr - 1], deg[pr - 1], m - 1); if (t == 2 && pr > 1) for (long d = 0; d <= k.len(); d++) for (long j = 0; j < pc; j++) { UL x = k.co(0, j, d), y = k.co(1, j, d); if (d < k.len()) { k.set(0, j, d, y); k.set(1, j, d, x); } }
    if (t == 3 && pr > 1) k.set(0, piv[pr - 1], deg[pr - 1], 1); if (t == 4) for (long d = 0; d < k.len(); d++) for (long j = 0; j < pc; j++) k.set(pr / 2, j, d, 0); if (t == 5) for (long i = 0; i < pr; i++) for (long j = piv[i] + 1; j < pc; j++) for (long d = 0; d < k.len(); d++) k.set(i, j, d, 0);
    k.norm(); PM a = k; VL so = s; if (o % 2) { a = reversed(a); std::reverse(so.begin(), so.end()); } if (o >= 2) a = transp(a);
    observers(c, a, o < 2 ? std::vector<VL>{ so } : shifts(n, 1), o < 2 ? shifts(r, 1) : std::vector<VL>{ so });
}
static long rankp(const PM& a)
{
    for (long k = std::min(a.r, a.c); k >= 1; k--) for (long R = 0; R < 1L << a.r; R++) if (__builtin_popcountl(R) == k) for (long C = 0; C < 1L << a.c; C++) if (__builtin_popcountl(C) == k)
    { PM s(k, k, a.m); long x = 0; for (long i = 0; i < a.r; i++) if (R >> i & 1) { long y = 0; for (long j = 0; j < a.c; j++) if (C >> j & 1) { for (long d = 0; d <= a.deg(i, j); d++) s.set(x, y, d, a.co(i, j, d)); y++; } x++; } s.norm(); if (!detp(s).empty()) return k; }
    return 0;
}
static PM leadp(const PM& a, long h, long w) { PM o(h, w, a.m); for (auto& x : a.f) o.f.push_back(lead(x, h, w)); return o.norm(); }
struct Ranks { long rk; VL rrp, crp, mrp; };
static Ranks ranks(const PM& a, bool mr)
{
    Ranks R; R.rk = rankp(a); long p = 0; for (long i = 1; i <= a.r; i++) { long q = rankp(leadp(a, i, a.c)); if (q > p) R.rrp.push_back(i - 1); p = q; } p = 0; for (long j = 1; j <= a.c; j++) { long q = rankp(leadp(a, a.r, j)); if (q > p) R.crp.push_back(j - 1); p = q; }
    if (mr) for (long i = 0; i < a.r; i++) { long w = -1; for (long j = 0; j < a.c && w < 0; j++) if (rankp(leadp(a, i + 1, j + 1)) > rankp(leadp(a, i, j + 1))) w = j; R.mrp.push_back(w); }
    return R;
}
// T a = b with T unimodular, and the same operations performed on W
static void transformation(mc::Ctx& c, const char* g, const PM& a, const PM& b, const PM& T, const PM& w, const PM& W)
{
    const std::vector<UL> d = detp(T); if (d.size() != 1) c.fail("%s of %s: the transformation %s is not unimodular", g, showp(a).c_str(), showp(T).c_str()); if (!(mulp(T, a) == b)) c.fail("%s of %s: the result %s is not the transformation %s times the input", g, showp(a).c_str(), showp(b).c_str(), showp(T).c_str());
    if (!(mulp(T, w) == W)) c.fail("%s of %s: other operations were performed on tsf", g, showp(a).c_str());
}
static void echelon(mc::Ctx& c, const PM& a, const Ranks& R)
{
    typedef slong (*F2)(nmod_poly_mat_t, nmod_poly_mat_t, slong*); typedef slong (*F3)(nmod_poly_mat_t, nmod_poly_mat_t, slong*, slong*);
    static const struct { const char* n; F2 f2; F3 f3; int kind; bool hnf; } L[] = { { "nmod_poly_mat_uref_maxdeg_atomic", nmod_poly_mat_uref_maxdeg_atomic, NULL, 2, false }, { "nmod_poly_mat_uref_revlex_xgcd", NULL, nmod_poly_mat_uref_revlex_xgcd, 3, false }, { "nmod_poly_mat_uref_lex_xgcd", NULL, nmod_poly_mat_uref_lex_xgcd, 3, false }, { "nmod_poly_mat_uref_matrixgcd_iter", NULL, NULL, 4, false },
        { "nmod_poly_mat_hnf_ur_maxdeg_atomic", nmod_poly_mat_hnf_ur_maxdeg_atomic, NULL, 2, true }, { "nmod_poly_mat_hnf_ur_revlex_xgcd", NULL, nmod_poly_mat_hnf_ur_revlex_xgcd, 3, true }, { "nmod_poly_mat_hnf_ur_lex_xgcd", NULL, nmod_poly_mat_hnf_ur_lex_xgcd, 3, true }, { "nmod_poly_mat_hnf_ur_revlex_xgcd_delayed_zero", NULL, nmod_poly_mat_hnf_ur_revlex_xgcd_delayed_zero, 3, true }, { "nmod_poly_mat_hnf_ur_matrixgcd_iter", NULL, NULL, 5, true } };
    bool generic = true; for (size_t i = 0; i < R.crp.size(); i++) if (R.crp[i] != (long) i) generic = false; PM hnf(0, 0, a.m); bool have = false;
    for (auto& f : L) for (int v = 0; v < 3; v++)
    {
        if (f.kind == 5 && !generic) continue;      // documented requirement
        const long mn = std::min(a.r, a.c); const PM w = genp(0, a.r, a.c + 1, 2, a.m, 3), id = identp(a.r, a.m); nmod_poly_mat_t A, T; putp(A, a, v); putp(T, v == 1 ? id : w); std::vector<slong> piv(std::max(a.r, mn) + 1, -77), mrp(a.r + 1, -77); slong udet = 1, rk;
        nmod_poly_mat_struct* t = v ? T : NULL; rk = f.kind == 2 ? f.f2(A, t, piv.data()) : f.kind == 3 ? f.f3(A, t, piv.data(), v == 2 ? NULL : mrp.data()) : f.kind == 4 ? nmod_poly_mat_uref_matrixgcd_iter(A, t, piv.data(), NULL, v == 2 ? NULL : &udet) : nmod_poly_mat_hnf_ur_matrixgcd_iter(A, t, piv.data(), NULL, NULL); c.call(); c.observe(rk);
        if (f.kind >= 4 && rk < 0) { if (generic) c.fail("%s of %s, which has a generic column rank profile, returns %ld", f.n, showp(a).c_str(), rk); nmod_poly_mat_clear(A); nmod_poly_mat_clear(T); continue; }
        const PM b = getp(c, f.n, A, a.m); if (rk != R.rk) c.fail("%s of %s: rank %ld, expected %ld", f.n, showp(a).c_str(), rk, R.rk); if (!v) samep(c, "tsf", T, w);
        for (long i = 0; i < a.r; i++) { long p = 0; while (p < a.c && b.deg(i, p) < 0) p++; if (p != (i < rk ? R.crp[i] : a.c)) c.fail("%s of %s: row %ld of the result %s has its pivot at %ld", f.n, showp(a).c_str(), i, showp(b).c_str(), p); if (i < rk && piv[i] != p) c.fail("%s of %s: pivind[%ld] is %ld, expected %ld", f.n, showp(a).c_str(), i, piv[i], p); }
        if (piv.back() != -77 || mrp.back() != -77) c.fail("%s: wrote beyond an array", f.n);
        if (f.hnf) { for (long i = 0; i < rk; i++) { if (!monic(b, i, R.crp[i])) c.fail("%s of %s: pivot %ld of %s is not monic", f.n, showp(a).c_str(), i, showp(b).c_str()); for (long k = 0; k < i; k++) if (b.deg(k, R.crp[i]) >= b.deg(i, R.crp[i])) c.fail("%s of %s: column of pivot %ld of %s is not reduced", f.n, showp(a).c_str(), i, showp(b).c_str()); } if (have && !(hnf == b)) c.fail("%s of %s: the Hermite form differs from that of another algorithm", f.n, showp(a).c_str()); hnf = b; have = true; }
        if (f.kind == 3 && v < 2 && !R.mrp.empty()) for (long i = 0; i < a.r; i++) if (mrp[i] != R.mrp[i]) c.fail("%s of %s: mrp[%ld] is %ld, expected %ld", f.n, showp(a).c_str(), i, mrp[i], R.mrp[i]);
        if (v == 1) { const PM U = getp(c, f.n, T, a.m); transformation(c, f.n, a, b, U, id, U); if (f.kind == 4) { UL d = detp(U)[0]; if (d != (udet == 1 ? 1 % a.m : a.m - 1)) c.fail("%s of %s: udet is %ld, the transformation has determinant %lu", f.n, showp(a).c_str(), udet, d); } }
        if (v == 2) { const PM W = getp(c, f.n, T, a.m); if (R.rk == a.r) { bool eq = true; PM wa(a.r, a.c + w.c, a.m); (void) eq; } nmod_poly_mat_t A2, T2; putp(A2, a, v); putp(T2, id); if (f.kind == 2) f.f2(A2, T2, piv.data()); else if (f.kind == 3) f.f3(A2, T2, piv.data(), NULL); else if (f.kind == 4) nmod_poly_mat_uref_matrixgcd_iter(A2, T2, piv.data(), NULL, NULL); else nmod_poly_mat_hnf_ur_matrixgcd_iter(A2, T2, piv.data(), NULL, NULL); transformation(c, f.n, a, b, getp(c, f.n, T2, a.m), w, W); nmod_poly_mat_clear(A2); nmod_poly_mat_clear(T2); }
        nmod_poly_mat_clear(A); nmod_poly_mat_clear(T);
    }
    if (R.rk && !generic) c.interesting();
}
static void wpopov(mc::Ctx& c, const PM& a, const Ranks& R, const std::vector<VL>& SH)
{
    for (size_t u = 0; u <= SH.size(); u++) for (int o = 0; o < 2; o++) for (int v = 0; v < 4; v++)
    {
        const VL s = u < SH.size() ? SH[u] : VL(a.c, 0); std::vector<slong> ss(s.begin(), s.end()); const slong* S = u < SH.size() ? ss.data() : NULL; const bool ord = v >= 2; const char* f = ord ? "nmod_poly_mat_ordered_weak_popov_iter" : "nmod_poly_mat_weak_popov_iter";
        const PM id = identp(a.r, a.m); nmod_poly_mat_t A, T; putp(A, a, v); putp(T, id); std::vector<slong> piv(a.r + 1, -77), rrp(R.rk + 1, -77);
        slong rk = (ord ? nmod_poly_mat_ordered_weak_popov_iter : nmod_poly_mat_weak_popov_iter)(A, S, v % 2 ? T : NULL, piv.data(), v % 2 ? rrp.data() : NULL, ORI[o]); c.call(); c.observe(rk);
        const PM b = getp(c, f, A, a.m); if (rk != R.rk) c.fail("%s (%s) of %s: rank %ld, expected %ld", f, ORN[o], showp(a).c_str(), rk, R.rk); if (piv[a.r] != -77 || rrp[R.rk] != -77) c.fail("%s: wrote beyond an array", f);
        PM k = o ? PM(b.r, b.c, a.m) : b; VL t = s; if (o) { std::reverse(t.begin(), t.end()); for (auto& w : b.f) { Mat x = w; for (long i = 0; i < b.r; i++) for (long j = 0; j < b.c; j++) x.at(i, j) = w.at(i, b.c - 1 - j); k.f.push_back(x); } } std::vector<int> seen(a.c);
        for (long i = 0; i < a.r; i++) { long p = pivot(k, i, t); if ((p >= 0) != (i < rk)) c.fail("%s (%s) of %s: the zero rows of %s are not at the bottom", f, ORN[o], showp(a).c_str(), showp(b).c_str()); if (i >= rk) continue; long q = o ? a.c - 1 - p : p; if (seen[q]++) c.fail("%s (%s) of %s: not in weak Popov form: %s", f, ORN[o], showp(a).c_str(), showp(b).c_str()); if (piv[i] != q) c.fail("%s (%s) of %s: pivind[%ld] is %ld, expected %ld", f, ORN[o], showp(a).c_str(), i, piv[i], q); if (ord && i && piv[i] <= piv[i - 1]) c.fail("%s (%s) of %s: the pivots are not increasing", f, ORN[o], showp(a).c_str()); }
        if (v % 2) { for (long i = 0; i < rk; i++) if (rrp[i] != R.rrp[i]) c.fail("%s (%s) of %s: rrp[%ld] is %ld, expected %ld", f, ORN[o], showp(a).c_str(), i, rrp[i], R.rrp[i]); transformation(c, f, a, b, getp(c, f, T, a.m), id, getp(c, f, T, a.m)); }
        nmod_poly_mat_clear(A); nmod_poly_mat_clear(T);
    }
    if (R.rk && R.rk < std::min(a.r, a.c)) c.interesting();
}
MC_SPACE(echelon_all, -1, 24)
{
    UL m = c.from({ 2, 3 }, "p"); long r = c.range(1, 3, "rows"), n = c.range(1, m == 2 ? 3 : 2, "cols"), len = r * n == 9 || (m == 3 && r * n > 4) ? 1 : r * n <= 2 ? 3 : 2; UL N = ipow(m, r * n * len), step = N > 1000 ? c.lim(13, 3, 1) : 1, q = c.choose((N + step - 1) / step, "matrix"); if (!c.mine()) return;
    const PM a = nthp(std::min(N - 1, q * step), r, n, len, m); echelon(c, a, ranks(a, true));
}
MC_SPACE(weak_popov_all, -1, 24)
{
    UL m = c.from({ 2, 3 }, "p"); long r = c.range(1, 3, "rows"), n = c.range(1, m == 2 ? 3 : 2, "cols"), len = r * n == 9 || (m == 3 && r * n > 4) ? 1 : r * n <= 2 ? 3 : 2; UL N = ipow(m, r * n * len), step = N > 1000 ? c.lim(13, 3, 1) : 1, q = c.choose((N + step - 1) / step, "matrix"); if (!c.mine()) return;
    const PM a = nthp(std::min(N - 1, q * step), r, n, len, m); wpopov(c, a, ranks(a, false), shifts(n, c.lim(2, 3, 5)));
}
static PM lowrank(int t, long r, long n, long rk, long len, UL m)
{
    // product of r x rk and rk x n, possibly with zero columns in front and repeated rows
    if (rk == 0) return PM(r, n, m); PM x = genp(t == 2 ? 8 : t == 3 ? 6 : 0, r, rk, (len + 1) / 2, m, 1), y = genp(t == 1 ? 3 : 0, rk, n, len / 2 + 1, m, 2); if (t == 4) for (auto& w : y.f) for (long i = 0; i < rk; i++) w.at(i, 0) = 0; if (t == 5) for (auto& w : x.f) for (long j = 0; j < rk; j++) w.at(0, j) = 0; return mulp(x.norm(), y.norm());
}
MC_SPACE(shapes, -1, 24)
{
    UL m = c.from({ 2, 7, 97, (1L << 60) - 93 }, "p"); long r = c.range(0, c.lim(3, 4, 5), "rows"), n = c.range(0, c.lim(3, 4, 5), "cols"), rk = c.range(0, std::min(r, n), "rank at most"), len = c.from({ 1, 2, 4 }, "length"); int t = c.choose(6, "data"); if (!c.mine()) return;
    const PM a = lowrank(t, r, n, rk, len, m); const Ranks R = ranks(a, r * n <= 9); echelon(c, a, R); if (r && n) wpopov(c, a, R, shifts(n, 4));
}
MC_SPACE(unimodular, -1, 16)
{
    UL m = c.from({ 2, 3, (1L << 60) - 93 }, "p"); long n = c.range(0, 2, "dimension"), extra = c.choose(2, "extra columns"), len = n == 2 ? 2 : 3; UL N = std::min(ipow(m > 3 ? 2 : m, n * (n + extra) * len), 7000UL), q = c.choose(N, "matrix"); if (!c.mine()) return; PM a = nthp(q * (n == 2 && extra && m == 3 ? 75 : 1), n, n + extra, len, m > 3 ? 2 : m); a.m = m; for (auto& w : a.f) w.m = m;
    std::vector<UL> d; if (!extra) d = detp(a); const bool want = !extra && d.size() == 1; nmod_poly_mat_t A; putp(A, a); c.call(2); c.observe(want); if ((nmod_poly_mat_is_unimodular(A) != 0) != want) c.fail("nmod_poly_mat_is_unimodular of %s", showp(a).c_str());
    for (int k = 0; k < 4; k++) { flint_rand_t st; flint_rand_init(st); for (int i = 0; i < k; i++) n_randlimb(st); int got = nmod_poly_mat_is_unimodular_randomized(A, st); if (want && !got) c.fail("nmod_poly_mat_is_unimodular_randomized rejects %s", showp(a).c_str()); if (got && (extra || d.empty())) c.fail("nmod_poly_mat_is_unimodular_randomized accepts the singular or rectangular %s", showp(a).c_str()); if (got && !want && m > 1000) c.fail("nmod_poly_mat_is_unimodular_randomized accepts %s", showp(a).c_str()); flint_rand_clear(st); }
    samep(c, "is_unimodular (operand)", A, a); if (want && a.len() > 1) c.interesting(); nmod_poly_mat_clear(A);
}
MC_SPACE(rearrange, -1, 16)
{
    UL m = c.from({ 2, 97 }, "p"); long r = c.range(1, c.lim(3, 4, 4), "rows"), n = c.range(1, c.lim(3, 4, 4), "cols"); int t = c.choose(3, "data"); long code = c.choose(64, "vector"); if (!c.mine()) return; const PM a = genp(t == 2 ? 3 : t, r, n, 3, m, 1); c.interesting();
    auto rows = [&](const VL& p) { PM o = a; for (size_t d = 0; d < o.f.size(); d++) for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) o.f[d].at(i, j) = a.f[d].at(p[i], j); return o; }; auto cols = [&](const VL& p) { PM o = a; for (size_t d = 0; d < o.f.size(); d++) for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) o.f[d].at(i, j) = a.f[d].at(i, p[j]); return o; };
    // sorting vectors with ties
    for (int col = 0; col < 2; col++) { long dim = col ? n : r; for (long k = 0; k <= dim; k++) { std::vector<slong> vec, perm(dim, -7); long x = code; for (long i = 0; i < dim; i++) { vec.push_back(x % 4 - 1); x /= 4; } VL p(dim); for (long i = 0; i < dim; i++) p[i] = i; std::stable_sort(p.begin(), p.begin() + k, [&](long i, long j) { return vec[i] < vec[j]; }); std::vector<slong> v2 = vec;
        nmod_poly_mat_t A; putp(A, a); (col ? _nmod_poly_mat_permute_columns_by_sorting_vec : _nmod_poly_mat_permute_rows_by_sorting_vec)(A, k, v2.data(), perm.data()); const char* g = col ? "_nmod_poly_mat_permute_columns_by_sorting_vec" : "_nmod_poly_mat_permute_rows_by_sorting_vec"; samep(c, g, A, col ? cols(p) : rows(p)); for (long i = 0; i < dim; i++) if (perm[i] != p[i] || v2[i] != vec[p[i]]) c.fail("%s: entry %ld of the permutation or the vector", g, i); nmod_poly_mat_clear(A); } }
    // rotations, swaps, inversions
    for (int up = 0; up < 2; up++) for (long i = 0; i < r; i++) for (long j = i; j < r; j++) { VL p; for (long x = 0; x < r; x++) p.push_back(x < i || x > j ? x : up ? (x == j ? i : x + 1) : x == i ? j : x - 1); std::vector<slong> vec; for (long x = 0; x < r; x++) vec.push_back(10 * x + code); nmod_poly_mat_t A; putp(A, a); (up ? _nmod_poly_mat_rotate_rows_upward : _nmod_poly_mat_rotate_rows_downward)(A, code % 2 ? NULL : vec.data(), i, j); samep(c, "rotation of rows", A, rows(p)); if (code % 2 == 0) for (long x = 0; x < r; x++) if (vec[x] != 10 * p[x] + code) c.fail("rotation of rows: vector"); nmod_poly_mat_clear(A);
        VL q; for (long x = 0; x < r; x++) q.push_back(x == i ? j : x == j ? i : x); std::vector<slong> st; for (long x = 0; x < r; x++) st.push_back(x + 5); putp(A, a); nmod_poly_mat_swap_rows(A, code % 2 ? NULL : st.data(), i, j); samep(c, "nmod_poly_mat_swap_rows", A, rows(q)); if (code % 2 == 0) for (long x = 0; x < r; x++) if (st[x] != q[x] + 5) c.fail("swap_rows: vector"); nmod_poly_mat_clear(A); }
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { VL q; for (long x = 0; x < n; x++) q.push_back(x == i ? j : x == j ? i : x); std::vector<slong> st; for (long x = 0; x < n; x++) st.push_back(x + 5); nmod_poly_mat_t A; putp(A, a); nmod_poly_mat_swap_columns(A, code % 2 ? NULL : st.data(), i, j); samep(c, "nmod_poly_mat_swap_columns", A, cols(q)); if (code % 2 == 0) for (long x = 0; x < n; x++) if (st[x] != q[x] + 5) c.fail("swap_columns: vector"); nmod_poly_mat_clear(A); }
    { VL p, q; for (long i = 0; i < r; i++) p.push_back(r - 1 - i); for (long j = 0; j < n; j++) q.push_back(n - 1 - j); std::vector<slong> v(std::max(r, n)); for (size_t i = 0; i < v.size(); i++) v[i] = i; nmod_poly_mat_t A; putp(A, a); nmod_poly_mat_invert_rows(A, v.data()); samep(c, "nmod_poly_mat_invert_rows", A, rows(p)); for (long i = 0; i < r; i++) if (v[i] != p[i]) c.fail("invert_rows: vector"); nmod_poly_mat_clear(A); for (size_t i = 0; i < v.size(); i++) v[i] = i; putp(A, a); nmod_poly_mat_invert_columns(A, v.data()); samep(c, "nmod_poly_mat_invert_columns", A, cols(q)); for (long i = 0; i < n; i++) if (v[i] != q[i]) c.fail("invert_columns: vector"); nmod_poly_mat_clear(A); }
    // arbitrary permutations, with an action on a stored one
    for (int col = 0; col < 2; col++) { long dim = col ? n : r; VL p(dim); for (long i = 0; i < dim; i++) p[i] = i; for (long x = code; x > 0; x--) std::next_permutation(p.begin(), p.end()); std::vector<slong> act(p.begin(), p.end()), st(dim); for (long i = 0; i < dim; i++) st[i] = (i + 1) % dim; std::vector<slong> s0 = st; nmod_poly_mat_t A; putp(A, a); (col ? nmod_poly_mat_permute_columns : nmod_poly_mat_permute_rows)(A, act.data(), code % 2 ? st.data() : NULL); samep(c, col ? "nmod_poly_mat_permute_columns" : "nmod_poly_mat_permute_rows", A, col ? cols(p) : rows(p)); for (long i = 0; i < dim; i++) if (st[i] != (code % 2 ? s0[p[i]] : s0[i])) c.fail("permute: stored permutation"); nmod_poly_mat_clear(A); }
}
MC_SPACE(random, -1, 16)
{
    UL m = c.from({ 2, 97, (1L << 60) - 93 }, "p"); long r = c.range(1, c.lim(3, 3, 4), "rows"), n = c.range(1, c.lim(3, 4, 5), "cols"); int seed = c.choose(3, "state"), prof = c.choose(3, "profile"), sh = c.choose(4, "shift"); if (!c.mine()) return; flint_rand_t st; flint_rand_init(st); for (int i = 0; i < seed; i++) n_randlimb(st);
    nmod_poly_mat_t A; VL bound; long mx = std::max(r, n); for (long i = 0; i < mx; i++) bound.push_back((i * 3 + prof) % 5); std::vector<slong> b(bound.begin(), bound.end());
    for (int k = 0; k < 4; k++) { putp(A, genp(0, r, n, 7, m, 4)); fmpz_mat_t D; fmpz_mat_init(D, r, n); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) fmpz_set_si(fmpz_mat_entry(D, i, j), (i + 2 * j + prof) % 4); if (k == 0) nmod_poly_mat_rand(A, st, 3); else if (k == 1) nmod_poly_mat_rand_row_degree(A, st, b.data()); else if (k == 2) nmod_poly_mat_rand_column_degree(A, st, b.data()); else nmod_poly_mat_rand_degree_matrix(A, st, D);
        c.call(); const PM a = getp(c, "a random matrix", A, m); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) { long w = k == 0 ? 3 : k == 1 ? b[i] : k == 2 ? b[j] : (i + 2 * j + prof) % 4; if (a.deg(i, j) >= w) c.fail("random matrix (variant %d): entry (%ld, %ld) has length %ld, bound %ld", k, i, j, a.deg(i, j) + 1, w); if (m > 1000 && a.deg(i, j) != w - 1) c.fail("random matrix (variant %d): the leading coefficient of entry (%ld, %ld) vanishes in a large field", k, i, j); } fmpz_mat_clear(D); nmod_poly_mat_clear(A); }
    for (int o = 0; o < 3; o += 2) { long pr = o ? n : r, pc = o ? r : n; if (pr > pc) continue; VL s = sh == 0 ? VL(pc, 0) : shifts(pc, 3)[sh - 1]; std::vector<slong> ss(s.begin(), s.end()), piv, deg; for (long i = 0; i < pr; i++) { piv.push_back(prof == 0 ? i : prof == 1 ? pc - pr + i : i + (i >= pr / 2 ? pc - pr : 0)); deg.push_back((i * 2 + prof) % 4); }
        for (int nul = 0; nul < 2; nul++) { if (nul && pr != pc) continue; putp(A, genp(0, r, n, 7, m, 4)); nmod_poly_mat_rand_popov(A, st, nul ? NULL : piv.data(), deg.data(), sh ? ss.data() : NULL, ORI[o]); c.call(); const PM a = getp(c, "nmod_poly_mat_rand_popov", A, m), k = canon(a, o); const Forms F = forms(k, s); if (!F.pop) c.fail("nmod_poly_mat_rand_popov (%s): %s is not in Popov form", ORN[o], showp(a).c_str()); for (long i = 0; i < pr; i++) if (pivot(k, i, s) != piv[i] || k.deg(i, piv[i]) != deg[i]) c.fail("nmod_poly_mat_rand_popov (%s): pivot %ld of %s", ORN[o], i, showp(a).c_str()); nmod_poly_mat_clear(A); if (pr > 1) c.interesting(); } }
    flint_rand_clear(st);
}
