// C16: shifted degrees, leading matrices, pivots, predicates of the normal forms
#include "mc.h"
#include "forms.h"
#include "mat_lzz_pX_extra.h"
using namespace ref;
typedef Mat<long> ML;
static ML degmat(const MX& a, const VL* s) { ML r; r.SetDims(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) r[i][j] = s ? (dg(a[i][j]) < 0 ? minsh(*s) - 1 : dg(a[i][j]) + (*s)[j]) : dg(a[i][j]); return r; }
static ML trl(const ML& a) { ML r; r.SetDims(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) r[j][i] = a[i][j]; return r; }
static void eqml(mc::Ctx& c, const ML& a, const ML& b, const char* w)
{ c.call(); bool ok = a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols(); for (long i = 0; ok && i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { c.observe(a[i][j]); if (a[i][j] != b[i][j]) ok = false; } c.check(ok, w); }
static void bools(mc::Ctx& c, bool got, bool want, const char* w, const MX& a) { c.call(); c.observe(got); if (got != want) c.fail("%s: got %d for %s", w, (int) got, str(a).c_str()); }
#define VALS(name, fn, args, want) { VL v(3, 99); PML::fn args; expect(c, v, want, name); }
static ML dirtyL() { ML m; m.SetDims(1, 2); m[0][0] = 7; m[0][1] = 8; return m; }
static void rows(mc::Ctx& c, const MX& a0, const VL& s0)
{
    MX a = a0; VL s = s0; const VL z(a.NumCols(), 0);
    { VL v(3, 99); PML::row_degree(v, a); expect(c, v, rrdeg(a0, z), "row_degree"); expect(c, PML::row_degree(a), rrdeg(a0, z), "row_degree"); PML::row_degree(v, a, s); expect(c, v, rrdeg(a0, s0), "shifted row_degree"); expect(c, PML::row_degree(a, s), rrdeg(a0, s0), "shifted row_degree"); }
    { VL v(5, 9), w(1, 9); PML::row_pivots(v, w, a); expect(c, v, rpivind(a0, z), "row pivot index"); expect(c, w, rpivdeg(a0, z), "row pivot degree"); PML::row_pivots(v, w, a, s); expect(c, v, rpivind(a0, s0), "shifted row pivot index"); expect(c, w, rpivdeg(a0, s0), "shifted row pivot degree");
      auto q = PML::row_pivots(a); expect(c, q.first, rpivind(a0, z), "pivots pair"); expect(c, q.second, rpivdeg(a0, z), "pivots pair"); q = PML::row_pivots(a, s); expect(c, q.first, rpivind(a0, s0), "pivots pair"); expect(c, q.second, rpivdeg(a0, s0), "pivots pair"); }
    { ML m = dirtyL(); PML::degree_matrix(m, a); eqml(c, m, degmat(a0, nullptr), "degree_matrix"); PML::degree_matrix_rowshifted(m, a, s); eqml(c, m, degmat(a0, &s0), "degree_matrix_rowshifted"); eqml(c, PML::degree_matrix(a), degmat(a0, nullptr), "degree_matrix"); eqml(c, PML::degree_matrix_rowshifted(a, s), degmat(a0, &s0), "degree_matrix_rowshifted"); }
    { MP m = dirtyC(a.NumRows(), a.NumCols()); PML::row_leading_matrix(m, a); expect(c, m, rleading(a0, z), "row_leading_matrix"); m = dirtyC(1, 5); PML::row_leading_matrix(m, a, s); expect(c, m, rleading(a0, s0), "shifted row_leading_matrix"); expect(c, PML::row_leading_matrix(a), rleading(a0, z), "row_leading_matrix"); expect(c, PML::row_leading_matrix(a, s), rleading(a0, s0), "row_leading_matrix"); }
    bools(c, PML::is_row_reduced(a), r_reduced(a0, z), "is_row_reduced", a0); bools(c, PML::is_row_reduced(a, s), r_reduced(a0, s0), "shifted is_row_reduced", a0);
    bools(c, PML::is_row_weak_popov(a), r_weak(a0, z), "is_row_weak_popov", a0); bools(c, PML::is_row_weak_popov(a, s), r_weak(a0, s0), "shifted is_row_weak_popov", a0);
    bools(c, PML::is_row_ordered_weak_popov(a), r_ordered(a0, z), "is_row_ordered_weak_popov", a0); bools(c, PML::is_row_ordered_weak_popov(a, s), r_ordered(a0, s0), "shifted is_row_ordered_weak_popov", a0);
    bools(c, PML::is_row_popov(a), r_popov(a0, z), "is_row_popov", a0); bools(c, PML::is_row_popov(a, s), r_popov(a0, s0), "shifted is_row_popov", a0);
    const long f = r_form(a0, z), g = r_form(a0, s0); expectl(c, PML::get_row_polmatform(a), f, "get_row_polmatform"); expectl(c, PML::get_row_polmatform(a, s), g, "shifted get_row_polmatform");
    for (long k = 0; k <= 4; k++) { bools(c, PML::is_row_polmatform((PML::PolMatForm) k, a), k <= f, "is_row_polmatform", a0); bools(c, PML::is_row_polmatform((PML::PolMatForm) k, a, s), k <= g, "shifted is_row_polmatform", a0); }
    expectl(c, PML::amplitude(s), *std::max_element(s0.begin(), s0.end()) - minsh(s0), "amplitude"); unchanged(c, a, a0, "form functions"); if (f || g) c.interesting();
}
static void cols(mc::Ctx& c, const MX& t0, const VL& s0)          // t0 transposed is handed to the column-wise functions
{
    const MX a0 = tr(t0); MX a = a0; VL s = s0; const VL z(t0.NumCols(), 0);
    { VL v(3, 99); PML::col_degree(v, a); expect(c, v, rrdeg(t0, z), "col_degree"); expect(c, PML::col_degree(a), rrdeg(t0, z), "col_degree"); PML::col_degree(v, a, s); expect(c, v, rrdeg(t0, s0), "shifted col_degree"); expect(c, PML::col_degree(a, s), rrdeg(t0, s0), "shifted col_degree"); }
    { VL v(5, 9), w(1, 9); PML::col_pivots(v, w, a); expect(c, v, rpivind(t0, z), "col pivot index"); expect(c, w, rpivdeg(t0, z), "col pivot degree"); PML::col_pivots(v, w, a, s); expect(c, v, rpivind(t0, s0), "shifted col pivot index"); expect(c, w, rpivdeg(t0, s0), "shifted col pivot degree");
      auto q = PML::col_pivots(a, s); expect(c, q.first, rpivind(t0, s0), "pivots pair"); expect(c, q.second, rpivdeg(t0, s0), "pivots pair"); }
    { ML m = dirtyL(); PML::degree_matrix_colshifted(m, a, s); eqml(c, m, trl(degmat(t0, &s0)), "degree_matrix_colshifted"); eqml(c, PML::degree_matrix_colshifted(a, s), trl(degmat(t0, &s0)), "degree_matrix_colshifted"); }
    { MP m = dirtyC(a.NumRows(), a.NumCols()); PML::col_leading_matrix(m, a); expect(c, m, tr(rleading(t0, z)), "col_leading_matrix"); m = dirtyC(1, 5); PML::col_leading_matrix(m, a, s); expect(c, m, tr(rleading(t0, s0)), "shifted col_leading_matrix"); }
    bools(c, PML::is_col_reduced(a), r_reduced(t0, z), "is_col_reduced", a0); bools(c, PML::is_col_reduced(a, s), r_reduced(t0, s0), "shifted is_col_reduced", a0);
    bools(c, PML::is_col_weak_popov(a), r_weak(t0, z), "is_col_weak_popov", a0); bools(c, PML::is_col_weak_popov(a, s), r_weak(t0, s0), "shifted is_col_weak_popov", a0);
    bools(c, PML::is_col_ordered_weak_popov(a), r_ordered(t0, z), "is_col_ordered_weak_popov", a0); bools(c, PML::is_col_ordered_weak_popov(a, s), r_ordered(t0, s0), "shifted is_col_ordered_weak_popov", a0);
    bools(c, PML::is_col_popov(a), r_popov(t0, z), "is_col_popov", a0); bools(c, PML::is_col_popov(a, s), r_popov(t0, s0), "shifted is_col_popov", a0);
    const long f = r_form(t0, z), g = r_form(t0, s0); expectl(c, PML::get_col_polmatform(a), f, "get_col_polmatform"); expectl(c, PML::get_col_polmatform(a, s), g, "shifted get_col_polmatform");
    for (long k = 0; k <= 4; k++) { bools(c, PML::is_col_polmatform((PML::PolMatForm) k, a), k <= f, "is_col_polmatform", a0); bools(c, PML::is_col_polmatform((PML::PolMatForm) k, a, s), k <= g, "shifted is_col_polmatform", a0); }
    unchanged(c, a, a0, "form functions");
}
static void both(mc::Ctx& c, const MX& a, const VL& s) { rows(c, a, s); cols(c, a, s); }
// every matrix of the shape, every shift in a box
MC_SPACE(tiny, -1, 64)
{
    long w = c.choose(8, "shape"); static const long S[8][4] = { { 2, 1, 1, 4 }, { 3, 1, 2, 2 }, { 2, 2, 1, 3 }, { 2, 1, 3, 2 }, { 2, 2, 2, 2 }, { 3, 2, 2, 1 }, { 2, 3, 1, 2 }, { 2, 2, 3, 1 } };
    const long p = S[w][0], m = S[w][1], n = S[w][2], len = S[w][3]; const long B = c.lim(1, 2, 3); long k = c.choose(ipow(p, m * n * len), "A"); VL s; for (long j = 0; j < n; j++) s.push_back(c.range(-B, B, "s"));
    if (!c.mine()) return;
    setp(p); both(c, nthX(k, m, n, len), s);
}
MC_SPACE(three, 0, 64)             // 3x3 and 2x3 over GF(2), degrees < 2
{
    long w = c.choose(3, "shape"); const long m = w == 0 ? 3 : (w == 1 ? 2 : 3), n = w == 0 ? 3 : (w == 1 ? 3 : 2), len = w == 0 ? 1 : 2; long k = c.choose(ipow(2, m * n * len), "A"), si = c.choose(8, "shift");
    if (c.smoke() && (si % 3 != 0)) return;
    if (!c.mine()) return;
    static const long T[8][3] = { { 0, 0, 0 }, { 1, 0, -1 }, { -1, 0, 1 }, { 0, 1, 0 }, { 2, 2, 1 }, { -5, 4, -5 }, { 0, 7, 3 }, { 1000000, 0, -1000000 } };
    setp(2); VL s(T[si], T[si] + n); both(c, nthX(k, m, n, len), s);
}
// degree profiles with leading coefficients: all degree matrices of the shape, monic or not, all shifts of the list
MC_SPACE(profiles, -1, 64)
{
    long w = c.choose(4, "shape"); static const long S[4][2] = { { 1, 3 }, { 2, 2 }, { 3, 2 }, { 2, 3 } }; const long m = S[w][0], n = S[w][1]; MX a = mx(m, n); long p = c.from({ 3, P60 }, "p"); const long D = c.lim(1, m * n > 4 ? 1 : 3, 3); VL d; for (long i = 0; i < m * n; i++) d.push_back(c.range(-1, D, "d")); long lead = c.choose(3, "lead"), si = c.choose(6, "shift");
    if (!c.mine()) return;
    setp(p); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { long e = d[i * n + j]; VL v = un(pat(D_DENSE, e, 31 * i + j)); v.resize(e + 1); if (e >= 0) v[e] = lead == 0 ? 1 : (lead == 1 ? 1 + elt(7, i * n + j) % (md() - 1) : (i == 0 ? md() - 1 : 1)); a[i][j] = mk(v); }
    static const long T[6][3] = { { 0, 0, 0 }, { 1, 0, 2 }, { -2, 0, -1 }, { 0, 3, -3 }, { 3, 2, 1 }, { -1, -1, -2 } }; both(c, a, VL(T[si], T[si] + n));
}
// larger matrices: patterns, and forms built row by row, perturbed at chosen places
MC_SPACE(wide, 0, 32)
{
    long p = c.from({ 2, 97, P60 }, "p"), m = c.from({ 1, 4, 7, 9, 17 }, "rows"), n = c.from({ 1, 5, 8, 17, 20 }, "cols"), len = c.from({ 1, 3, 12, 40 }, "len"), k = c.choose(M_COUNT, "kind"), si = c.choose(5, "shift");
    if (!c.mine()) return;
    setp(p); VL s(n, 0); for (long j = 0; j < n; j++) s[j] = si == 0 ? 0 : si == 1 ? j : si == 2 ? -2 * j : si == 3 ? (j * 7 + 3) % 5 - 2 : (j % 3 == 1 ? 100 : -100 * (j % 2)); both(c, patX(k, m, n, len, 5), s);
}
MC_SPACE(wide_forms, 0, 32)
{
    long p = c.from({ 7, P60 }, "p"), m = c.from({ 6, 9, 17, 20 }, "n"), ex = c.from({ 0, 1, 3 }, "extra"), di = c.choose(4, "degrees"), si = c.choose(5, "shift"), pi = c.choose(5, "row"), pj = c.choose(5, "col"), pert = c.choose(6, "perturbation"), perm = c.choose(4, "rowperm");
    if (pert == 0 && (pi || pj)) return;
    if (!c.thorough() && (pi + 2 * pj + 3 * pert + 5 * perm + si) % 4) return;
    if (!c.mine()) return;
    setp(p); const long n = m + ex; VL s(n, 0), D(m, 0); for (long j = 0; j < n; j++) s[j] = si == 0 ? 0 : si == 1 ? j : si == 2 ? -2 * j : si == 3 ? (j * 7 + 3) % 5 - 2 : (j % 3 == 1 ? 100 : -100 * (j % 2));
    for (long i = 0; i < m; i++) D[i] = di == 0 ? 1 : di == 1 ? i % 3 : di == 2 ? (i * 5 + 2) % 7 : m - i;
    MX a = mx(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { if (j == i) { VL v = un(pat(D_DENSE, D[i], i)); v.resize(D[i] + 1); v[D[i]] = 1; a[i][j] = mk(v); continue; } long b = j < m ? D[j] - 1 : 30, r = D[i] + s[i], d = std::min(b, j < i ? r - s[j] : r - s[j] - 1); a[i][j] = pat(D_DENSE, std::max(0L, d + 1), 17 * i + j); }
    const long I[5] = { 0, 1, m / 2, m - 2, m - 1 }, J[5] = { 0, 1, n / 2, n - 2, n - 1 }; const long i = I[pi], j = J[pj];
    switch (pert) { case 1: a[i][j] = zz_pX(); break; case 2: a[i][j] = scal(a[i][j], 2); break; case 3: a[i][j] = shl(radd(a[i][j], cst(1)), 1); break; case 4: a[i][j] = radd(a[i][j], mono(1, std::max(0L, dg(a[i][j])))); break; case 5: for (long k = 0; k < n; k++) a[i][k] = k == j ? cst(1) : zz_pX(); break; default: break; }
    if (perm == 1) { VX t = a[0]; a[0] = a[m - 1]; a[m - 1] = t; } if (perm == 2) a[m - 1] = a[0]; if (perm == 3) { VX t = a[m / 2]; a[m / 2] = a[m / 2 - 1]; a[m / 2 - 1] = t; }
    both(c, a, s);
}
// matrices built in each form, then perturbed in one entry
MC_SPACE(perturbed, -1, 64)
{
    long p = c.from({ 7, P60 }, "p"), n = c.range(2, c.lim(3, 4, 5), "n"), ex = c.choose(2, "extra"), di = c.choose(6, "degrees"), si = c.choose(6, "shift"), m = n; long pert = c.choose(m * (n + ex) * 4 + 1, "perturbation"), perm = c.choose(3, "rowperm");
    if (!c.mine()) return;
    static const long D[6][5] = { { 0, 0, 0, 0, 0 }, { 1, 1, 1, 1, 1 }, { 2, 0, 1, 3, 0 }, { 0, 3, 1, 0, 2 }, { 1, 2, 3, 1, 1 }, { 4, 1, 0, 2, 2 } }, T[6][6] = { { 0, 0, 0, 0, 0, 0 }, { 1, 0, 2, 0, 1, 0 }, { -2, 0, -1, 3, 0, 1 }, { 0, 3, -3, 1, 2, 5 }, { 9, 6, 3, 0, -3, -6 }, { -8, -4, 0, 4, 8, 12 } };
    setp(p); const long cols_ = n + ex; VL s(T[si], T[si] + cols_); MX a = mx(m, cols_);
    for (long i = 0; i < m; i++) for (long j = 0; j < cols_; j++)
    {
        long di_ = D[di][i], r = di_ + s[i];      // pivot (i,i) of degree di_
        if (j == i) { VL v = un(pat(D_DENSE, di_, i)); v.resize(di_ + 1); v[di_] = 1; a[i][j] = mk(v); continue; }
        long b = j < m ? D[di][j] - 1 : 100; long mxd = std::min(b, j < i ? r - s[j] : r - s[j] - 1); a[i][j] = pat(D_DENSE, std::max(0L, mxd + 1), 17 * i + j);
    }
    if (!r_popov(a, s)) c.fail("harness: construction is not Popov");
    if (pert) { long q = pert - 1, i = q / 4 / cols_, j = q / 4 % cols_; switch (q % 4) { case 0: a[i][j] = zz_pX(); break; case 1: a[i][j] = scal(a[i][j], 2); break; case 2: a[i][j] = shl(radd(a[i][j], cst(1)), 1); break; default: a[i][j] = radd(a[i][j], mono(1, std::max(0L, dg(a[i][j])))); } }
    if (perm == 1) { VX t = a[0]; a[0] = a[m - 1]; a[m - 1] = t; } if (perm == 2) a[m - 1] = a[0];
    both(c, a, s); both(c, a, VL(cols_, 3));
}
