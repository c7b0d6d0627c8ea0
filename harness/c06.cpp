// C06: structured matrices over zz_p multiply like the dense matrix they denote
#include "rnd.h"
#include "structured_lzz_p.h"
using namespace ref;
typedef PML::structured_lzz_p S;

static MP unitM(long m, long n, long k) { MP a = cm(m, n); a[(k / n) % m][k % n] = Z(1); return a; }
static void vec_check(mc::Ctx& c, const S& M, const MP& D, const VP& v, const VP& w)
{
    VP V = v, r = dirtyV(3); M.mul_right(r, V); expect(c, r, rmul(D, v), "right product by a vector"); unchanged(c, V, v, "right operand");
    M.mul_right(V, V); expect(c, V, rmul(D, v), "right product, aliased"); V = v;
    expect(c, M.mul_right(V), rmul(D, v), "right product, by value");
    VP W = w; r = dirtyV(D.NumCols() + 2); M.mul_left(r, W); expect(c, r, rmul(w, D), "left product by a vector"); unchanged(c, W, w, "left operand");
    M.mul_left(W, W); expect(c, W, rmul(w, D), "left product, aliased"); W = w;
    expect(c, M.mul_left(W), rmul(w, D), "left product, by value");
}
static void mat_check(mc::Ctx& c, const S& M, const MP& D, const MP& a, const MP& b)
{
    MP A = a, r = dirtyC(D.NumRows(), a.NumCols()); M.mul_right(r, A); expect(c, r, rmul(D, a), "right product by a matrix"); unchanged(c, A, a, "right operand");
    M.mul_right(A, A); expect(c, A, rmul(D, a), "right matrix product, aliased"); A = a;
    expect(c, M.mul_right(A), rmul(D, a), "right matrix product, by value");
    MP B = b; r = dirtyC(b.NumRows() + 1, 2); M.mul_left(r, B); expect(c, r, rmul(b, D), "left product by a matrix"); unchanged(c, B, b, "left operand");
    M.mul_left(B, B); expect(c, B, rmul(b, D), "left matrix product, aliased"); B = b;
    expect(c, M.mul_left(B), rmul(b, D), "left matrix product, by value");
}
static void dense_check(mc::Ctx& c, const S& M, const MP& D)
{
    expectl(c, M.NumRows(), D.NumRows(), "number of rows"); expectl(c, M.NumCols(), D.NumCols(), "number of columns");
    MP r = dirtyC(D.NumRows(), D.NumCols()); M.to_dense(r); expect(c, r, D, "dense expansion into a reused output");
    r = dirtyC(1, D.NumCols() + 2); M.to_dense(r); expect(c, r, D, "dense expansion"); expect(c, M.to_dense(), D, "dense expansion by value");
}
// everything: dense expansion, vectors of all kinds, matrices of widths 1..3 and many
static void full(mc::Ctx& c, const S& M, const MP& D, bool allv = true)
{
    long m = D.NumRows(), n = D.NumCols();
    dense_check(c, M, D);
    for (long k = 0; k < 5; k++) { vec_check(c, M, D, patV(k, n, 11), patV((k * 2) % 5, m, 12)); if (!allv && k == 1) break; }
    for (long w : { 1L, 2L, 3L, std::max(m, n) + 1 }) for (long k : { 0, 1 }) { mat_check(c, M, D, patM(k, n, w, 3), patM(k, w, m, 4)); if (!allv) break; }
    if (m <= 8 && n <= 8) mat_check(c, M, D, identP(n), identP(m));
    MP z = cm(n, 0), y = cm(0, m); expectl(c, M.mul_right(z).NumCols(), 0, "zero columns"); expectl(c, M.mul_left(y).NumRows(), 0, "zero rows");
    c.interesting();
}
static MP hank(const VP& d, long m, long n) { MP D = cm(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = d[m + n - 2 - i - j]; return D; }
static MP toep(const VP& d, long m, long n) { MP D = cm(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = d[n - 1 + i - j]; return D; }
static MP circr(const VP& d, long rows) { long m = d.length(); MP D = cm(rows, m); for (long i = 0; i < rows; i++) for (long j = 0; j < m; j++) D[i][j] = d[(((i - j - 1) % m) + m) % m]; return D; }
// columns: first column d (rotated so that column j is the first one shifted down by j)
static MP circc(const VP& d, long cols) { long n = d.length(); MP D = cm(n, cols); for (long i = 0; i < n; i++) for (long j = 0; j < cols; j++) D[i][j] = d[(((i - j) % n) + n) % n]; return D; }
static MP lowt(const VP& d) { long n = d.length(); MP D = cm(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = d[i - j]; return D; }
static VP prefix(const VP& d, long n) { VP v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = d[i]; return v; }

static void basic(mc::Ctx& c, long fam, long m, long n, const VP& d, bool allv)
{
    VP e = d;
    if (fam == 0) { PML::hankel_lzz_p M(e, m, n); MP D = hank(d, m, n); full(c, M, D, allv); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) expectl(c, R(M(i, j)), R(D[i][j]), "entry"); PML::hankel_lzz_p N2; N2 = M; dense_check(c, N2, D); }
    else if (fam == 1) { PML::toeplitz_lzz_p M(e, m, n); MP D = toep(d, m, n); full(c, M, D, allv); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) expectl(c, R(M(i, j)), R(D[i][j]), "entry"); PML::toeplitz_lzz_p N2; N2 = M; dense_check(c, N2, D); }
    else if (fam == 2) { PML::circulant_row_lzz_p M(prefix(d, n), m); full(c, M, circr(prefix(d, n), m), allv); }
    else if (fam == 3) { PML::circulant_column_lzz_p M(prefix(d, m), n); full(c, M, circc(prefix(d, m), n), allv); }
    else { PML::lower_triangular_toeplitz_lzz_p M(prefix(d, m)); full(c, M, lowt(prefix(d, m)), allv); }
    unchanged(c, e, d, "generator vector");
}
static const std::vector<long> PR = { 2, 3, P27, P59, P60, FFT0, P23, -65537 };
MC_SPACE(basic_small, -1, 16)
{
    long fam = c.choose(5, "family"), p = c.from(PR, "p"), m = c.range(1, c.lim(3, 7, 9), "rows"), n = fam == 4 ? m : c.range(1, c.lim(4, 7, 9), "cols"), k = c.choose(5, "kind");
    if (!c.mine()) return;
    setp(p); basic(c, fam, m, n, patV(k, m + n - 1, 5), true);
}
// every data vector over GF(2) and GF(3); matrix identity operands cover all vectors by linearity, vectors also in full
MC_SPACE(basic_gf, 0, 16)
{
    long fam = c.choose(5, "family"), p = c.from({ 2, 3 }, "p"), mx_ = p == 2 ? c.lim(2, 3, 4) : 2, m = c.range(1, mx_, "rows"), n = fam == 4 ? m : c.range(1, mx_, "cols"); setp(p);
    long L = fam == 2 ? n : fam == 3 || fam == 4 ? m : m + n - 1, k = c.choose(ipow(p, L), "data");
    if (!c.mine()) return;
    setp(p); VP d; d.SetLength(m + n - 1); for (long i = 0, t = k; i < m + n - 1; i++, t /= p) d[i] = Z(t % p);
    basic(c, fam, m, n, d, true);
}
// sizes around the Karatsuba/FFT and the dense/structured crossovers
MC_SPACE(basic_cross, 0, 32)
{
    long fam = c.choose(5, "family"), p = c.from({ P23, P60, FFT0, P30 }, "p"); setp(p); long X = MULX() / 2;
    std::vector<long> S = { 1, 2, X / 2 - 1, X / 2, X / 2 + 1, X - 1, X, X + 1, X + 7, 2 * X + 3, 63, 64, 65, 101 };
    if (c.thorough()) for (long x : { 2 * X - 1, 2 * X, 3 * X, 127L, 128L, 129L, 301L }) S.push_back(x);
    long m = std::max(1L, c.from(S, "rows")), n = fam == 4 ? m : std::max(1L, c.from(S, "cols")), k = c.choose(c.lim(1, 2, 4), "kind");
    if (fam < 4 && m * n > 110 * 110 && !c.thorough()) return;
    if (!c.mine()) return;
    setp(p); VP d = patV(k, m + n - 1, 5); VP e = d; rnd::reset({}, 1);
    if (fam == 0) { PML::hankel_lzz_p M(e, m, n); MP D = hank(d, m, n); vec_check(c, M, D, patV(k, n, 2), patV(k, m, 3)); mat_check(c, M, D, patM(k, n, 2, 3), patM(k, 2, m, 4)); long w = std::min(m, n) / 4; mat_check(c, M, D, patM(k, n, w, 3), patM(k, w, m, 4)); }
    if (fam == 1) { PML::toeplitz_lzz_p M(e, m, n); MP D = toep(d, m, n); vec_check(c, M, D, patV(k, n, 2), patV(k, m, 3)); mat_check(c, M, D, patM(k, n, 2, 3), patM(k, 2, m, 4)); long w = std::min(m, n) / 4; mat_check(c, M, D, patM(k, n, w, 3), patM(k, w, m, 4)); }
    if (fam == 2) { PML::circulant_row_lzz_p M(prefix(d, n), m); vec_check(c, M, circr(prefix(d, n), m), patV(k, n, 2), patV(k, m, 3)); }
    if (fam == 3) { PML::circulant_column_lzz_p M(prefix(d, m), n); vec_check(c, M, circc(prefix(d, m), n), patV(k, n, 2), patV(k, m, 3)); }
    if (fam == 4) { PML::lower_triangular_toeplitz_lzz_p M(prefix(d, m)); vec_check(c, M, lowt(prefix(d, m)), patV(k, m, 2), patV(k + 1, m, 3)); mat_check(c, M, lowt(prefix(d, m)), patM(k, m, 2, 2), patM(k, 2, m, 3)); }
    c.interesting();
}
// ---------------------------------------------------------------- displacement representations
static MP Zs(long n, long x) { MP w = cm(n, n); for (long i = 1; i < n; i++) w[i][i - 1] = Z(1); w[0][n - 1] = Z(R(w[0][n - 1]) ? 1 : x % md()); return w; }
static MP shiftZ(long n, long x) { MP w = cm(n, n); for (long i = 1; i < n; i++) w[i][i - 1] = Z(1); if (x) w[0][n - 1] = Z(addm(R(w[0][n - 1]), x)); return w; }
static MP disp(long fam, const MP& A)
{
    long m = A.NumRows(), n = A.NumCols();
    switch (fam)
    {
        case 0: return rsub(rmul(shiftZ(m, 1), A), rmul(A, shiftZ(n, 0)));       // toeplitz +
        case 1: return rsub(rmul(shiftZ(m, 0), A), rmul(A, shiftZ(n, 1)));       // toeplitz -
        case 2: return rsub(rmul(shiftZ(m, 1), A), rmul(A, tr(shiftZ(n, 0))));   // hankel +
        default: return rsub(rmul(tr(shiftZ(m, 0)), A), rmul(A, shiftZ(n, 1)));  // hankel -
    }
}
static void like(mc::Ctx& c, long fam, const MP& g, const MP& h, bool allv)
{
    MP G = g, H = h; S* M = nullptr; PML::toeplitz_like_plus_lzz_p a; PML::toeplitz_like_minus_lzz_p b; PML::hankel_like_plus_lzz_p d; PML::hankel_like_minus_lzz_p e; long ng = 0;
    if (fam == 0) { a = PML::toeplitz_like_plus_lzz_p(G, H); M = &a; ng = a.NumGens(); }
    if (fam == 1) { b = PML::toeplitz_like_minus_lzz_p(G, H); M = &b; ng = b.NumGens(); }
    if (fam == 2) { d = PML::hankel_like_plus_lzz_p(G, H); M = &d; ng = d.NumGens(); }
    if (fam == 3) { e = PML::hankel_like_minus_lzz_p(G, H); M = &e; ng = e.NumGens(); }
    unchanged(c, G, g, "left generator"); unchanged(c, H, h, "right generator"); expectl(c, ng, g.NumCols(), "number of generators");
    // the dense expansion is the unique matrix with these displacement generators (the operators are invertible)
    MP D = M->to_dense(); expectl(c, D.NumRows(), g.NumRows(), "rows"); expectl(c, D.NumCols(), h.NumRows(), "cols");
    expect(c, disp(fam, D), rmul(g, tr(h)), "displacement of the dense expansion is G H^t");
    full(c, *M, D, allv);
}
MC_SPACE(like_small, -1, 16)
{
    long fam = c.choose(4, "family"), p = c.from({ 2, 3, P27, P60, FFT0, -65537 }, "p"), m = c.range(1, c.lim(3, 5, 7), "rows"), n = c.range(1, c.lim(3, 5, 7), "cols"), al = c.range(0, 3, "alpha"), k = c.choose(4, "kind");
    if (!c.mine()) return;
    setp(p); like(c, fam, patM(k, m, al, 7), patM(k == 1 ? 0 : k, n, al, 8), true);
}
MC_SPACE(like_gf2, 0, 16)
{
    long fam = c.choose(4, "family"), m = c.range(1, 3, "rows"), n = c.range(1, 3, "cols"), g = c.choose(ipow(2, m), "g"), h = c.choose(ipow(2, n), "h");
    if (!c.mine()) return;
    setp(2); like(c, fam, nthP(g, m, 1), nthP(h, n, 1), false);
}
MC_SPACE(like_cross, 0, 16)
{
    long fam = c.choose(4, "family"), p = c.from({ P60, FFT0, P23 }, "p"); setp(p); long X = MULX() / 2;
    std::vector<long> S = { 1, 7, X - 1, X, X + 1, 33, 64 }; long m = std::max(1L, c.from(S, "rows")), n = std::max(1L, c.from(S, "cols"));
    if (m * n > 5000) return;
    if (c.smoke() && (p == P23)) return;
    if (!c.mine()) return;
    setp(p); MP g = patM(0, m, 2, 7), h = patM(0, n, 2, 8); like(c, fam, g, h, false);
}
MC_SPACE(phi, -1, 8)
{
    long p = c.from({ 2, 3, P60 }, "p"), m = c.range(1, 5, "rows"), n = c.range(1, 5, "cols"), k = c.choose(5, "kind"), fam = c.choose(4, "operator");
    if (!c.mine()) return;
    setp(p); MP a = patM(k, m, n, 2), A = a, r = dirtyC(m, n), w = disp(fam, a);
    for (int al = 0; al < 2; al++)
    {
        MP& o = al ? A : r;
        if (fam == 0) PML::toeplitz_lzz_p_phi_plus(o, A); if (fam == 1) PML::toeplitz_lzz_p_phi_minus(o, A); if (fam == 2) PML::hankel_lzz_p_phi_plus(o, A); if (fam == 3) PML::hankel_lzz_p_phi_minus(o, A);
        expect(c, o, w, "displacement operator"); if (!al) unchanged(c, A, a, "operand");
    }
    c.interesting();
}
// ---------------------------------------------------------------- Cauchy
static long g_of_order(long ord) { for (long g = 2; g < md(); g++) { long x = g, o = 1; while (x != 1 && o <= ord) { x = mulm(x, g); o++; } if (o >= ord) return g; } return 0; }
static MP cauchy(long u, long v, long rho, long m, long n, bool* ok)
{
    MP D = cm(m, n); long a = u;
    for (long i = 0; i < m; i++, a = mulm(a, rho)) { long b = v; for (long j = 0; j < n; j++, b = mulm(b, rho)) { long d = subm(a, b); if (d == 0) { *ok = false; return D; } D[i][j] = Z(invm(d)); } }
    *ok = true; return D;
}
static void cauchy_case(mc::Ctx& c, long u, long v, long rho, long m, long n, bool allv)
{
    bool ok; MP D = cauchy(u, v, rho, m, n, &ok); if (!ok) return;
    PML::cauchy_geometric_lzz_p M(Z(u), Z(v), Z(rho), m, n); full(c, M, D, allv);
    MP T = cm(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) T[i][j] = Z(mulm(R(D[i][j]), powm(rho, i)));     // the Toeplitz part
    VP x = patV(0, n, 3), y = patV(0, m, 4), r = dirtyV(2); M.mul_right_simple(r, x); expect(c, r, rmul(T, x), "simple right product"); M.mul_left_simple(r, y); expect(c, r, rmul(y, T), "simple left product");
    expect(c, M.mul_right_simple(x), rmul(T, x), "simple right product"); expect(c, M.mul_left_simple(y), rmul(y, T), "simple left product");
    VP x2 = x; M.mul_right_simple(x2, x2); expect(c, x2, rmul(T, x), "simple right product, aliased"); VP y2 = y; M.mul_left_simple(y2, y2); expect(c, y2, rmul(y, T), "simple left product, aliased");
    MP A = patM(0, n, 3, 2), B = patM(0, 2, m, 3); MP q = dirtyC(m, 3); M.mul_right_simple(q, A); expect(c, q, rmul(T, A), "simple right matrix product"); M.mul_left_simple(q, B); expect(c, q, rmul(B, T), "simple left matrix product");
    expect(c, M.mul_right_simple(A), rmul(T, A), "simple right matrix product"); expect(c, M.mul_left_simple(B), rmul(B, T), "simple left matrix product");
}
MC_SPACE(cauchy_gf, -1, 16)
{
    long p = c.from({ 5, 7, 11, 13 }, "p"), u = c.range(1, p - 1, "u"), v = c.range(0, p - 1, "v"), rho = c.range(1, p - 1, "rho"), m = c.range(1, c.lim(2, 4, 6), "rows"), n = c.range(1, c.lim(2, 4, 6), "cols");
    setp(p); bool ok; cauchy(u, v, rho, m, n, &ok); if (!ok) return;
    if (!c.mine()) return;
    setp(p); cauchy_case(c, u, v, rho, m, n, false);
}
MC_SPACE(cauchy_sizes, 0, 16)
{
    long p = c.from({ P16, P60, FFT0, P30 }, "p"); setp(p); long X = MULX() / 2;
    std::vector<long> S = { 1, 2, 3, 5, X - 1, X, X + 1, 33, 65 }; long m = std::max(1L, c.from(S, "rows")), n = std::max(1L, c.from(S, "cols"));
    if (c.smoke() && (p != P60 && p != FFT0)) return;
    if (!c.mine()) return;
    setp(p); long rho = g_of_order(200); cauchy_case(c, 1, powm(rho, 150) == 1 ? 3 : addm(rho, 12345), rho, m, n, false);
}
static MP cauchy_like(const MP& g, const MP& h, long u, long v, long rho, bool* ok)
{
    MP D = cauchy(u, v, rho, g.NumRows(), h.NumRows(), ok), E = rmul(g, tr(h)); if (!*ok) return D;
    for (long i = 0; i < D.NumRows(); i++) for (long j = 0; j < D.NumCols(); j++) D[i][j] = Z(mulm(R(D[i][j]), R(E[i][j]))); return D;
}
MC_SPACE(cauchy_like_small, -1, 16)
{
    long p = c.from({ 7, 13, P16, P60, FFT0 }, "p"), al = c.range(0, 3, "alpha"), m = c.range(1, c.lim(3, 5, 7), "rows"), n = c.range(1, c.lim(3, 5, 7), "cols"), k = c.choose(4, "kind"), vi = c.range(2, 5, "v");
    setp(p); long rho = g_of_order(p == 7 ? 3 : 6), v = vi; bool ok; MP g = patM(k, m, al, 6), h = patM(k == 1 ? 0 : k, n, al, 7), D = cauchy_like(g, h, 1, v, rho, &ok); if (!ok) return;
    if (!c.mine()) return;
    setp(p); MP G = g, H = h; PML::cauchy_like_geometric_lzz_p M(G, H, Z(1), Z(v), Z(rho)); full(c, M, D, true); expectl(c, M.NumGens(), al, "generators"); unchanged(c, G, g, "G"); unchanged(c, H, h, "H");
    MP A = patM(0, n, 3, 2), q = dirtyC(2, 2); M.mul_right_direct(q, A); expect(c, q, rmul(D, A), "direct product"); expect(c, M.mul_right_direct(A), rmul(D, A), "direct product, by value"); M.mul_right_direct(A, A); expect(c, A, rmul(D, patM(0, n, 3, 2)), "direct product, aliased");
}
MC_SPACE(cauchy_like_many, 0, 16)
{
    long p = c.from({ P60, FFT0, P23 }, "p"), al = c.from({ 1, 2, 36 }, "alpha"); setp(p); long X = MULX() / 2; std::vector<long> S = { 1, X, X + 1, 28 };
    long m = std::max(1L, c.from(S, "rows")), n = std::max(1L, c.from(S, "cols"));
    if (!c.mine()) return;
    setp(p); long rho = g_of_order(200); bool ok; MP g = patM(0, m, al, 6), h = patM(0, n, al, 7), D = cauchy_like(g, h, 1, 99991, rho, &ok); if (!ok) return;
    PML::cauchy_like_geometric_lzz_p M(g, h, Z(1), Z(99991), Z(rho)); full(c, M, D, false);
}
// ---------------------------------------------------------------- mosaics: every block structure
template <class B, class Q> static void mosaic(mc::Ctx& c, bool hk, const std::vector<long>& rs, const std::vector<long>& cs, long kind, bool allv)
{
    long n = 0, m = 0; for (long r : rs) n += r; for (long r : cs) m += r; MP D = cm(n, m); Vec<Vec<B> > init; init.SetLength(rs.size()); long i0 = 0;
    for (size_t a = 0; a < rs.size(); a++)
    {
        init[a].SetLength(cs.size()); long j0 = 0;
        for (size_t b = 0; b < cs.size(); b++)
        {
            VP d = patV(kind, rs[a] + cs[b] - 1, 100 * a + b + 1); init[a][b] = B(d, rs[a], cs[b]); MP E = hk ? hank(d, rs[a], cs[b]) : toep(d, rs[a], cs[b]);
            for (long i = 0; i < rs[a]; i++) for (long j = 0; j < cs[b]; j++) D[i0 + i][j0 + j] = E[i][j]; j0 += cs[b];
        }
        i0 += rs[a];
    }
    Q M(init); full(c, M, D, allv);
    expectl(c, M.NumBlockRows(), rs.size(), "block rows"); expectl(c, M.NumBlockCols(), cs.size(), "block columns");
    for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) if (R(M(i, j)) != R(D[i][j])) c.fail("entry %ld,%ld", i, j);
    long o = 0;
    for (size_t b = 0; b < cs.size(); b++)
    {
        expectl(c, M.NumCols_of_block(b), cs[b], "columns of block"); VP f, l; f.SetLength(n); l.SetLength(n); for (long i = 0; i < n; i++) { f[i] = D[i][o]; l[i] = D[i][o + cs[b] - 1]; }
        VP r = dirtyV(n + 3); M.first_column_of_block(r, b); expect(c, r, f, "first column of block"); r = dirtyV(1); M.last_column_of_block(r, b); expect(c, r, l, "last column of block");
        expect(c, M.first_column_of_block(b), f, "first column of block"); expect(c, M.last_column_of_block(b), l, "last column of block"); o += cs[b];
    }
    o = 0;
    for (size_t b = 0; b < rs.size(); b++)
    {
        expectl(c, M.NumRows_of_block(b), rs[b], "rows of block"); VP f = D[o], l = D[o + rs[b] - 1];
        VP r = dirtyV(m + 3); M.first_row_of_block(r, b); expect(c, r, f, "first row of block"); r = dirtyV(1); M.last_row_of_block(r, b); expect(c, r, l, "last row of block");
        expect(c, M.first_row_of_block(b), f, "first row of block"); expect(c, M.last_row_of_block(b), l, "last row of block"); o += rs[b];
    }
    MP G = dirtyC(n, 2), H = dirtyC(m, 9); M.phi_plus_generators(G, H); expect(c, rmul(G, tr(H)), disp(hk ? 2 : 0, D), "displacement generators");
}
MC_SPACE(mosaics, -1, 32)
{
    long hk = c.choose(2, "hankel"), p = c.from({ 2, P27, P60, FFT0 }, "p"), nb = c.range(1, c.lim(2, 3, 3), "block rows"), mb = c.range(1, c.lim(2, 3, 3), "block cols"), k = c.choose(3, "kind"); std::vector<long> rs, cs;
    for (long i = 0; i < nb; i++) rs.push_back(c.range(1, c.lim(2, nb > 2 ? 2 : 3, nb > 2 ? 3 : 4), "h")); for (long i = 0; i < mb; i++) cs.push_back(c.range(1, c.lim(2, mb > 2 ? 2 : 3, mb > 2 ? 3 : 4), "w"));
    if (!c.mine()) return;
    setp(p); if (hk) mosaic<PML::hankel_lzz_p, PML::mosaic_hankel_lzz_p>(c, true, rs, cs, k, false); else mosaic<PML::toeplitz_lzz_p, PML::mosaic_toeplitz_lzz_p>(c, false, rs, cs, k, false);
}
MC_SPACE(mosaics_big, 0, 32)
{
    long hk = c.choose(2, "hankel"), p = c.from({ P23, P60, FFT0 }, "p"); setp(p); long X = MULX() / 2; std::vector<long> S = { 1, X, X + 1, 34 };
    std::vector<long> rs, cs; for (long i = 0; i < 2; i++) rs.push_back(std::max(1L, c.from(S, "h"))); cs.push_back(std::max(1L, c.from(S, "w"))); cs.push_back(std::max(1L, c.from({ 3, 36 }, "w")));
    if (!c.thorough() && rs[0] > rs[1]) return;
    if (!c.mine()) return;
    setp(p); if (hk) mosaic<PML::hankel_lzz_p, PML::mosaic_hankel_lzz_p>(c, true, rs, cs, 0, false); else mosaic<PML::toeplitz_lzz_p, PML::mosaic_toeplitz_lzz_p>(c, false, rs, cs, 0, false);
}
// ---------------------------------------------------------------- Sylvester
static MP sylv(const zz_pX& a, const zz_pX& b)
{
    long da = dg(a), db = dg(b), n = da + db; MP D = cm(n, n);
    for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = Z(C(a, j)); for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = Z(C(b, j)); return D;
}
static void sylvester(mc::Ctx& c, const zz_pX& a, const zz_pX& b, bool allv)
{
    zz_pX A = a, B = b; PML::sylvester_lzz_p M(A, B); MP D = sylv(a, b); full(c, M, D, allv); unchanged(c, A, a, "a"); unchanged(c, B, b, "b");
    if (dg(b) >= 1) { MP G = dirtyC(D.NumRows(), 2), H = dirtyC(1, 2); M.phi_plus_generators(G, H); expect(c, rmul(G, tr(H)), disp(0, D), "displacement generators"); }
    if (dg(a) >= 1 && dg(b) >= 1) { M.prepare_inverse(); dense_check(c, M, D); }
}
MC_SPACE(sylvester_small, -1, 16)
{
    long p = c.from({ 2, 3, P60, FFT0, P27 }, "p"), da = c.range(0, c.lim(3, 6, 8), "deg a"), db = c.range(0, c.lim(3, 6, 8), "deg b"), k = c.choose(6, "kind"); if (da + db == 0) return;
    if (!c.mine()) return;
    setp(p); zz_pX a = pat(k + 1, da + 1, 3), b = pat(k == 0 ? 2 : 1 + k, db + 1, 4); if (dg(a) + dg(b) <= 0 || dg(a) < 0 || dg(b) < 0) return; sylvester(c, a, b, true);
}
MC_SPACE(sylvester_gf, 0, 16)
{
    long p = c.from({ 2, 3 }, "p"), L = p == 2 ? 4 : 3, a = c.range(1, ipow(p, L) - 1, "a"), b = c.range(1, ipow(p, L) - 1, "b"); setp(p); if (dg(nth(a, L)) + dg(nth(b, L)) == 0) return;
    if (!c.mine()) return;
    setp(p); sylvester(c, nth(a, L), nth(b, L), false);
}
MC_SPACE(sylvester_big, 0, 16)
{
    long p = c.from({ P23, P60, FFT0 }, "p"), da = c.from({ 1, 2, 20, 33, 70 }, "deg a"), db = c.from({ 1, 3, 17, 64 }, "deg b");
    if (!c.mine()) return;
    setp(p); sylvester(c, pat(D_DENSE, da + 1, 3), pat(D_DENSE, db + 1, 4), false);
}
