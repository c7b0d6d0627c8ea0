// C08: structured matrices over zz_pX multiply (in full and mod x^s) like the dense matrix they denote,
// whatever degrees were prepared before; Sylvester inverses mod x^m are inverses
#include "rnd.h"
#include "structured_lzz_pX.h"
using namespace ref;
typedef PML::structured_lzz_pX S;
static VX rtr(const VX& v, long s) { VX r = v; for (long i = 0; i < r.length(); i++) r[i] = rtrunc(r[i], s); return r; }
static void vec_check(mc::Ctx& c, const S& M, const MX& D, const VX& v, const VX& w, const VL& cuts, bool alias = true)
{
    VX P = rmul(D, v), Q = rmul(w, D);
    VX V = v, r = dirtyVX(3); M.mul_right(r, V); expect(c, r, P, "right product by a vector"); unchanged(c, V, v, "right operand");
    VX W = w; r = dirtyVX(D.NumCols() + 2); M.mul_left(r, W); expect(c, r, Q, "left product by a vector"); unchanged(c, W, w, "left operand");
    if (alias)
    {
        M.mul_right(V, V); expect(c, V, P, "right product, aliased"); V = v; expect(c, M.mul_right(V), P, "right product, by value");
        M.mul_left(W, W); expect(c, W, Q, "left product, aliased"); W = w; expect(c, M.mul_left(W), Q, "left product, by value");
    }
    for (long s : cuts)
    {
        r = dirtyVX(2); M.mul_right_trunc(r, V, s); expect(c, r, rtr(P, s), "right product mod x^s"); unchanged(c, V, v, "right operand");
        r = dirtyVX(D.NumCols() + 1); M.mul_left_trunc(r, W, s); expect(c, r, rtr(Q, s), "left product mod x^s"); unchanged(c, W, w, "left operand");
        if (alias)
        {
            M.mul_right_trunc(V, V, s); expect(c, V, rtr(P, s), "right product mod x^s, aliased"); V = v; expect(c, M.mul_right_trunc(V, s), rtr(P, s), "right product mod x^s, by value");
            M.mul_left_trunc(W, W, s); expect(c, W, rtr(Q, s), "left product mod x^s, aliased"); W = w; expect(c, M.mul_left_trunc(W, s), rtr(Q, s), "left product mod x^s, by value");
        }
    }
}
static void mat_check(mc::Ctx& c, const S& M, const MX& D, const MX& a, const MX& b, const VL& cuts)
{
    MX P = rmul(D, a), Q = rmul(b, D);
    MX A = a, r = dirtyM(D.NumRows(), a.NumCols()); M.mul_right(r, A); expect(c, r, P, "right product by a matrix"); unchanged(c, A, a, "right operand");
    M.mul_right(A, A); expect(c, A, P, "right matrix product, aliased"); A = a; expect(c, M.mul_right(A), P, "right matrix product, by value");
    MX B = b; r = dirtyM(b.NumRows() + 1, 2); M.mul_left(r, B); expect(c, r, Q, "left product by a matrix"); unchanged(c, B, b, "left operand");
    M.mul_left(B, B); expect(c, B, Q, "left matrix product, aliased"); B = b; expect(c, M.mul_left(B), Q, "left matrix product, by value");
    for (long s : cuts)
    {
        r = dirtyM(2, 2); M.mul_right_trunc(r, A, s); expect(c, r, rtrunc(P, s), "right matrix product mod x^s");
        M.mul_right_trunc(A, A, s); expect(c, A, rtrunc(P, s), "right matrix product mod x^s, aliased"); A = a;
        expect(c, M.mul_right_trunc(A, s), rtrunc(P, s), "right matrix product mod x^s, by value");
        r = dirtyM(2, 2); M.mul_left_trunc(r, B, s); expect(c, r, rtrunc(Q, s), "left matrix product mod x^s");
        M.mul_left_trunc(B, B, s); expect(c, B, rtrunc(Q, s), "left matrix product mod x^s, aliased"); B = b;
        expect(c, M.mul_left_trunc(B, s), rtrunc(Q, s), "left matrix product mod x^s, by value");
    }
}
static void dense_check(mc::Ctx& c, const S& M, const MX& D)
{
    expectl(c, M.NumRows(), D.NumRows(), "number of rows"); expectl(c, M.NumCols(), D.NumCols(), "number of columns");
    MX r = dirtyM(D.NumRows(), D.NumCols()); M.to_dense(r); expect(c, r, D, "dense expansion into a reused output");
    r = dirtyM(1, D.NumCols() + 2); M.to_dense(r); expect(c, r, D, "dense expansion"); expect(c, M.to_dense(), D, "dense expansion by value");
}
static MX circr(const VX& d, long rows) { long m = d.length(); MX D = mx(rows, m); for (long i = 0; i < rows; i++) for (long j = 0; j < m; j++) D[i][j] = d[(((i - j - 1) % m) + m) % m]; return D; }
static MX lowt(const VX& d) { long n = d.length(); MX D = mx(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = d[i - j]; return D; }
static MX sylv(const VX& a, const VX& b)
{
    long da = a.length() - 1, db = b.length() - 1, n = da + db; MX D = mx(n, n);
    for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = a[j];
    for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][db + i] = b[j];
    return D;
}
static MX shiftZ(long n, long x) { MX w = mx(n, n); for (long i = 1; i < n; i++) w[i][i - 1] = cst(1); if (x) w[0][n - 1] = radd(w[0][n - 1], cst(x)); return w; }
static MX phim(const MX& A) { return rsub(rmul(shiftZ(A.NumRows(), 0), A), rmul(A, shiftZ(A.NumCols(), 1))); }
static MX phip(const MX& A) { return rsub(rmul(shiftZ(A.NumRows(), 1), A), rmul(A, shiftZ(A.NumCols(), 0))); }
static const std::vector<long> PR = { 2, 3, P27, P60, FFT0, -65537 };

// --- all small shapes; every history of up to two degree preparations before the products
static void one(mc::Ctx& c, long fam, long m, long n, const VX& d, const VL& prep, long inlen, long ik)
{
    VX e = d; MX D; S* M; PML::lower_triangular_toeplitz_lzz_pX a; PML::circulant_row_lzz_pX b;
    if (fam == 0) { a = PML::lower_triangular_toeplitz_lzz_pX(e); for (long x : prep) a.prepare_degree(x); M = &a; D = lowt(d); }
    else { b = PML::circulant_row_lzz_pX(e, m); for (long x : prep) b.prepare_degree(x); M = &b; D = circr(d, m); n = d.length(); }
    unchanged(c, e, d, "generator vector"); dense_check(c, *M, D);
    long s0 = inlen / 2;
    vec_check(c, *M, D, patVX(ik, D.NumCols(), inlen, 3), patVX(ik, D.NumRows(), inlen, 4), { 0, 1, s0, inlen, inlen + 1, 3 * inlen + 9 });
    mat_check(c, *M, D, patX(ik, D.NumCols(), 2, inlen, 5), patX(ik, 2, D.NumRows(), inlen, 6), { 1, s0 + 1 });
    c.interesting();
}
MC_SPACE(small, -1, 32)
{
    long fam = c.choose(2, "family"), p = c.from(PR, "p"), m = c.range(1, c.lim(2, 4, 5), "rows"), n = fam == 0 ? m : c.range(1, c.lim(3, 4, 5), "cols");
    long len = c.range(0, c.lim(1, 2, 3), "len"), k = c.from({ D_DENSE, D_MAX, D_DROP, M_UNBAL, M_ZROW }, "kind"), inlen = c.range(0, 3, "inlen"), ik = c.from({ D_DENSE, M_UNBAL }, "inkind"), h = c.choose(c.lim(3, 5, 8), "history");
    if (!c.mine()) return;
    VL pr; switch (h) { case 0: break; case 1: pr = { std::max(0L, inlen - 1) }; break; case 2: pr = { inlen + 2 }; break; case 3: pr = { 0, 3 }; break; case 4: pr = { 3, 0 }; break; case 5: pr = { 1, 2, 0 }; break; case 6: pr = { 2, 2 }; break; default: pr = { 0, 0, 1 }; }
    setp(p); one(c, fam, m, n, patVX(k, fam == 0 ? m : n, len, 1), pr, inlen, ik);
}
// --- Kronecker lengths around the FFT crossovers
MC_SPACE(cross, 0, 32)
{
    long fam = c.choose(2, "family"), p = c.from({ P23, P60, FFT0 }, "p"), m = c.from({ 1, 2, 3, 5, 8 }, "rows"), n = fam == 0 ? m : c.from({ 1, 2, 3, 5, 8 }, "cols"), len = c.from({ 2, 9, 31, 60 }, "len"), inlen = c.from({ 1, 8, 33, 90 }, "inlen"), h = c.choose(c.lim(1, 3, 4), "history"), k = c.from(c.thorough() ? VL{ D_DENSE, D_MAX, M_UNBAL } : VL{ D_DENSE, D_MAX }, "kind");
    if (!c.mine()) return;
    VL pr; if (h == 1) pr = { inlen - 1 }; if (h == 2) pr = { 5, 40, 100 }; if (h == 3) pr = { 100, 7 };
    setp(p); VX d = patVX(k, fam == 0 ? m : n, len, 1); VX e = d; MX D; S* M; PML::lower_triangular_toeplitz_lzz_pX a; PML::circulant_row_lzz_pX b;
    if (fam == 0) { a = PML::lower_triangular_toeplitz_lzz_pX(e); for (long x : pr) a.prepare_degree(x); M = &a; D = lowt(d); }
    else { b = PML::circulant_row_lzz_pX(e, m); for (long x : pr) b.prepare_degree(x); M = &b; D = circr(d, m); }
    vec_check(c, *M, D, patVX(k, D.NumCols(), inlen, 3), patVX(k, D.NumRows(), inlen, 4), { 1, len, inlen / 2 + 1, len + inlen - 2 }, false);
    c.interesting();
}
// --- all generator vectors over GF(2)/GF(3)
MC_SPACE(gf, 0, 16)
{
    long fam = c.choose(2, "family"), p = c.from({ 2, 3 }, "p"); setp(p); long L = p == 2 ? 2 : 1, g = c.range(1, p == 2 ? c.lim(2, 3, 4) : 2, "gens"), m = fam == 0 ? g : c.range(1, 3, "rows"), k = c.choose(ipow(p, L * g), "data"), h = c.choose(2, "prepared"), q = c.choose(ipow(p, 2), "in");
    if (!c.mine()) return;
    setp(p); MX d = nthX(k, g, 1, L); VX v; v.SetLength(g); for (long i = 0; i < g; i++) v[i] = d[i][0];
    PML::lower_triangular_toeplitz_lzz_pX a; PML::circulant_row_lzz_pX b; S* M; MX D;
    if (fam == 0) { a = PML::lower_triangular_toeplitz_lzz_pX(v); if (h) a.prepare_degree(1); M = &a; D = lowt(v); } else { b = PML::circulant_row_lzz_pX(v, m); if (h) b.prepare_degree(1); M = &b; D = circr(v, m); }
    dense_check(c, *M, D); zz_pX t = nth(q, 2);
    for (long i = 0; i < D.NumCols(); i++) for (long j = 0; j < D.NumRows(); j++) { VX u, w; u.SetLength(D.NumCols()); w.SetLength(D.NumRows()); u[i] = t; w[j] = t; if (i) u[i - 1] = cst(1); vec_check(c, *M, D, u, w, { 1, 2 }, false); }
    c.interesting();
}
// --- toeplitz-like
MC_SPACE(like, -1, 32)
{
    long p = c.from(PR, "p"), m = c.range(1, c.lim(3, 4, 6), "rows"), n = c.range(1, c.lim(3, 4, 6), "cols"), al = c.range(0, 3, "gens"), len = c.range(0, c.lim(2, 3, 5), "len"), k = c.from({ D_DENSE, D_MAX, M_UNBAL, M_ONE, M_ZROW }, "kind"), inlen = c.range(0, 3, "inlen");
    if (!c.mine()) return;
    setp(p); MX g = patX(k, m, al, len, 1), h = patX(k, n, al, len, 2), G = g, H = h;
    PML::toeplitz_like_minus_lzz_pX M(G, H); unchanged(c, G, g, "left generator"); unchanged(c, H, h, "right generator");
    expectl(c, M.NumGens(), al, "number of generators"); expect(c, M.G, g, "stored left generator"); expect(c, M.H, h, "stored right generator");
    // the displacement operator is injective: the dense expansion is determined by its displacement
    MX D = M.to_dense(); expectl(c, D.NumRows(), m, "rows"); expectl(c, D.NumCols(), n, "cols");
    expect(c, phim(D), rmul(g, tr(h)), "displacement of the dense expansion is G H^t");
    dense_check(c, M, D);
    vec_check(c, M, D, patVX(D_DENSE, n, inlen, 3), patVX(M_UNBAL, m, inlen, 4), { 0, 1, len, len + inlen, 2 * len + inlen + 3 });
    mat_check(c, M, D, patX(D_DENSE, n, 2, inlen, 5), patX(D_DENSE, 3, m, inlen, 6), { 1, 2 });
    MX r = dirtyM(m, n); PML::toeplitz_lzz_pX_phi_minus(r, D); expect(c, r, phim(D), "phi_minus"); expect(c, PML::toeplitz_lzz_pX_phi_minus(D), phim(D), "phi_minus by value"); r = D; PML::toeplitz_lzz_pX_phi_minus(r, r); expect(c, r, phim(D), "phi_minus aliased");
    r = dirtyM(m, n); PML::toeplitz_lzz_pX_phi_plus(r, D); expect(c, r, phip(D), "phi_plus"); expect(c, PML::toeplitz_lzz_pX_phi_plus(D), phip(D), "phi_plus by value"); r = D; PML::toeplitz_lzz_pX_phi_plus(r, r); expect(c, r, phip(D), "phi_plus aliased");
    c.interesting();
}
// --- Sylvester
static void syl(mc::Ctx& c, const VX& a, const VX& b, long inlen, bool all)
{
    VX A = a, B = b; PML::sylvester_lzz_pX M(A, B); MX D = sylv(a, b); long n = D.NumRows(); dense_check(c, M, D);
    long dd = std::max(dg(a), dg(b)) + 1;
    // block structured operands: either half zero, unbalanced, everything zero
    long db = b.length() - 1;
    for (long h = 0; h < (all ? 5 : 2); h++)
    {
        VX v = patVX(D_DENSE, n, inlen, 3), w = patVX(D_DENSE, n, inlen, 4);
        for (long i = 0; i < n; i++) { if (h == 1 && i < db) v[i] = zz_pX(), w[i] = zz_pX(); if (h == 2 && i >= db) v[i] = zz_pX(), w[i] = zz_pX(); if (h == 3 && i < db) v[i] = rtrunc(v[i], 1), w[i] = rtrunc(w[i], 1); if (h == 4 && i >= db) v[i] = rtrunc(v[i], 1), w[i] = rtrunc(w[i], 1); }
        vec_check(c, M, D, v, w, { 0, 1, dd, inlen, dd + inlen }, all);
    }
    mat_check(c, M, D, patX(D_DENSE, n, 2, inlen, 5), patX(M_UNBAL, 2, n, inlen, 6), { 1, dd });
    if (n > 0 && db > 0)
    {
        MX G = dirtyM(n, 2), H = dirtyM(1, 1); M.phi_plus_generators(G, H); expectl(c, G.NumRows(), n, "generator rows"); expectl(c, H.NumRows(), n, "generator rows"); expectl(c, G.NumCols(), H.NumCols(), "generator widths");
        expect(c, rmul(G, tr(H)), phip(D), "G H^t is the displacement of the Sylvester matrix");
    }
    unchanged(c, A, a, "a"); unchanged(c, B, b, "b"); c.interesting();
}
static VX withlead(VX v, long len, uint64_t s) { long n = v.length(); if (n && dg(v[n - 1]) < 0) v[n - 1] = pat(D_TOP, std::max(1L, len), s); return v; }
MC_SPACE(sylvester, -1, 32)
{
    long p = c.from(PR, "p"), da = c.range(0, c.lim(2, 3, 5), "degA"), db = c.range(0, c.lim(2, 3, 5), "degB"), la = c.from({ 1, 2, 4 }, "lenA"), lb = c.from({ 1, 2, 4 }, "lenB"), k = c.from({ D_DENSE, D_MAX, D_TOP, M_UNBAL, D_HIGH }, "kind"), inlen = c.range(0, 3, "inlen");
    if (da + db == 0) return;
    if (!c.mine()) return;
    setp(p); syl(c, withlead(patVX(k, da + 1, la, 1), la, 7), withlead(patVX(k, db + 1, lb, 2), lb, 8), inlen, true);
}
MC_SPACE(sylvester_cross, 0, 32)
{
    long p = c.from({ P23, P60, FFT0 }, "p"), da = c.from({ 1, 3, 7 }, "degA"), db = c.from({ 1, 2, 7 }, "degB"), la = c.from({ 2, 17, 50 }, "lenA"), lb = c.from({ 2, 17, 50 }, "lenB"), inlen = c.from({ 1, 17, 60 }, "inlen");
    if (!c.mine()) return;
    setp(p); syl(c, withlead(patVX(D_DENSE, da + 1, la, 1), la, 7), withlead(patVX(D_DENSE, db + 1, lb, 2), lb, 8), inlen, false);
}
static void inv(mc::Ctx& c, const VX& a, const VX& b, long m, bool both)
{
    MX D = sylv(a, b); long n = D.NumRows(); if (rdet(coef(D, 0)) == 0) return;
    MX E = rinv_trunc(D, m); VX A = a, B = b; PML::sylvester_lzz_pX M(A, B);
    for (long h = 0; h < (both ? 2 : 1); h++)
    {
        PML::toeplitz_like_minus_lzz_pX X(dirtyM(n + 1, 3), dirtyM(n + 2, 3)); rnd::reset({}, 1);
        if (h == 0) M.newton_inv_trunc(X, m); else M.high_precision_inv_trunc(X, m);
        expect(c, rtrunc(X.to_dense(), m), E, h ? "inverse mod x^m (high precision)" : "inverse mod x^m (Newton)");
        VX v = patVX(D_DENSE, n, m, 9); VX r; X.mul_right_trunc(r, v, m); expect(c, r, rtr(rmul(E, v), m), "solution mod x^m by the inverse");
    }
    unchanged(c, A, a, "a"); unchanged(c, B, b, "b"); if (n > 1 && m > 1) c.interesting();
}
MC_SPACE(inverse, -1, 32)
{
    long p = c.from({ 3, 29, P27, P59, P60, FFT0 }, "p"), da = c.range(1, c.lim(2, 3, 5), "degA"), db = c.range(1, c.lim(2, 3, 5), "degB"), la = c.from({ 1, 2, 3, 6 }, "lenA"), lb = c.from({ 1, 2, 5 }, "lenB"), m = c.range(1, c.lim(4, 9, 16), "precision"), k = c.from({ D_DENSE, M_UNBAL }, "kind");
    if (!c.mine()) return;
    setp(p); VX a = patVX(k, da + 1, la, 1), b = patVX(k, db + 1, lb, 2); if (k == M_UNBAL) { a[da] = radd(a[da], cst(1)); b[0] = radd(b[0], cst(1)); }
    if (dg(a[da]) < 0 || dg(b[db]) < 0) return;
    // Newton works on a(0), b(0): both must keep their full degree in y
    if (C(a[da], 0) == 0 || C(b[db], 0) == 0) return;
    inv(c, a, b, m, true);
}
MC_SPACE(inverse_gf, 0, 16)
{
    long p = c.from({ 2, 3 }, "p"); setp(p); long da = c.range(1, p == 2 ? 2 : 1, "degA"), db = c.range(1, p == 2 ? c.lim(1, 2, 3) : 1, "degB"), k = c.choose(ipow(p, 2 * (da + 1)), "a"), l = c.choose(ipow(p, 2 * (db + 1)), "b"), m = c.range(1, 4, "precision");
    if (!c.mine()) return;
    setp(p); MX x = nthX(k, da + 1, 1, 2), y = nthX(l, db + 1, 1, 2); VX a, b; a.SetLength(da + 1); b.SetLength(db + 1); for (long i = 0; i <= da; i++) a[i] = x[i][0]; for (long i = 0; i <= db; i++) b[i] = y[i][0];
    if (C(a[da], 0) == 0 || C(b[db], 0) == 0) return;
    inv(c, a, b, m, true);
}
MC_SPACE(inverse_cross, 0, 32)
{
    long p = c.from({ P23, P60, FFT0 }, "p"), da = c.from({ 1, 3, 6 }, "degA"), db = c.from({ 2, 5 }, "degB"), la = c.from({ 2, 12 }, "lenA"), lb = c.from({ 3, 20 }, "lenB"), m = c.from(c.thorough() ? VL{ 7, 16, 33, 64, 65, 100 } : VL{ 7, 33, 64 }, "precision");
    if (!c.mine()) return;
    setp(p); inv(c, patVX(D_DENSE, da + 1, la, 1), patVX(D_DENSE, db + 1, lb, 2), m, true);
}
