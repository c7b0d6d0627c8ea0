// C27: arguments that violate a documented size or degree requirement are rejected with an error, never turned into a result;
// arguments that satisfy it are never rejected; a rejection leaves operands, objects and modulus as they were
#include "rnd.h"
#include "structured_lzz_p.h"
#include "structured_lzz_pX.h"
#include "mat_lzz_pX_extra.h"
#include "lzz_p_extra.h"
#include "lzz_pX_extra.h"
#include "lzz_pX_CRT.h"
#include "lzz_pXY.h"
#include <functional>
using namespace ref;
// errors reach the caller as C++ exceptions or through NTL's error callback (the installed NTL ends the process after it)
struct Rejected {};
static void raise_() { throw Rejected(); }
template <class F> static bool rejects(F f)
{
    bool r = false; auto old = NTL::ErrorCallback; NTL::ErrorCallback = raise_;
    try { f(); } catch (const mc::Failure&) { NTL::ErrorCallback = old; throw; } catch (const Rejected&) { r = true; } catch (const std::exception&) { r = true; }
    NTL::ErrorCallback = old; return r;
}
// f() must be rejected exactly when !ok; the caller compares the result when ok
template <class F> static bool judge(mc::Ctx& c, const char* what, bool ok, F f)
{
    const long p = md(); const bool r = rejects(f); c.call(); c.observe(r);
    if (r && ok) c.fail("%s: admissible arguments are rejected", what);
    if (!r && !ok) c.fail("%s: inadmissible arguments are accepted", what);
    if (md() != p) c.fail("%s: the modulus changed", what);
    if (r) c.interesting();
    return !r;
}
// ------------------------------------------------------------ products with structured matrices over zz_p
static void lin(mc::Ctx& c, const PML::structured_lzz_p& M, const MP& D, long L, long k)
{
    const long m = D.NumRows(), n = D.NumCols();
    for (long pass = 0; pass < 2; pass++)
    {
        VP v = patV(0, L, 3), V = v, r = dirtyV(2);
        if (judge(c, "right product by a vector", L == n, [&] { M.mul_right(r, V); })) expect(c, r, rmul(D, v), "right product"); unchanged(c, V, v, "vector operand"); if (judge(c, "right product by a vector, by value", L == n, [&] { r = M.mul_right(V); })) expect(c, r, rmul(D, v), "right product");
        if (judge(c, "left product by a vector", L == m, [&] { M.mul_left(r, V); })) expect(c, r, rmul(v, D), "left product"); unchanged(c, V, v, "vector operand"); if (judge(c, "left product by a vector, by value", L == m, [&] { r = M.mul_left(V); })) expect(c, r, rmul(v, D), "left product");
        MP a = patM(0, L, k, 4), A = a, b = patM(0, k, L, 5), B = b, R = dirtyC(1, 2);
        if (judge(c, "right product by a matrix", L == n, [&] { M.mul_right(R, A); })) expect(c, R, rmul(D, a), "right product"); unchanged(c, A, a, "matrix operand"); if (judge(c, "right product by a matrix, by value", L == n, [&] { R = M.mul_right(A); })) expect(c, R, rmul(D, a), "right product");
        if (judge(c, "left product by a matrix", L == m, [&] { M.mul_left(R, B); })) expect(c, R, rmul(b, D), "left product"); unchanged(c, B, b, "matrix operand"); if (judge(c, "left product by a matrix, by value", L == m, [&] { R = M.mul_left(B); })) expect(c, R, rmul(b, D), "left product");
        L = pass ? L : n;       // after a rejection the object still works
    }
    expect(c, M.to_dense(), D, "the matrix");
}
MC_SPACE(structured, -1, 32)
{
    long fam = c.choose(8, "family"), p = c.from({ 2, P60, FFT0 }, "p"), m = c.from({ 1, 2, 3, 5, 40 }, "rows"), n = c.from({ 1, 2, 4, 5, 33 }, "cols"), k = c.from({ 1, 3, 70 }, "width"), e = c.range(0, c.lim(8, 12, 14), "length");
    if ((fam == 4 || fam == 7) && m != (n == 4 ? 3 : n == 33 ? 40 : n)) return; if (k == 70 && m + n < 60 && p != P60) return;
    if (fam == 6 || fam == 5) if (m < 2 || n < 2) return;
    if (!c.mine()) return;
    setp(p); std::unique_ptr<PML::structured_lzz_p> M;
    switch (fam)
    {
        case 0: M.reset(new PML::toeplitz_lzz_p(patV(0, m + n - 1, 1), m, n)); break;
        case 1: M.reset(new PML::hankel_lzz_p(patV(0, m + n - 1, 1), m, n)); break;
        case 2: M.reset(new PML::circulant_row_lzz_p(patV(0, n, 1), m)); break;
        case 3: M.reset(new PML::circulant_column_lzz_p(patV(0, m, 1), n)); break;
        case 4: M.reset(new PML::lower_triangular_toeplitz_lzz_p(patV(0, m, 1))); break;
        case 5: { Vec<Vec<PML::hankel_lzz_p> > d; d.SetLength(2); const long h[2] = { 1, m - 1 }, w[2] = { n - 1, 1 }; for (long i = 0; i < 2; i++) { d[i].SetLength(2); for (long j = 0; j < 2; j++) d[i][j] = PML::hankel_lzz_p(patV(0, h[i] + w[j] - 1, 9 * i + j), h[i], w[j]); } M.reset(new PML::mosaic_hankel_lzz_p(d)); break; }
        case 6: { Vec<Vec<PML::toeplitz_lzz_p> > d; d.SetLength(2); const long h[2] = { 1, m - 1 }, w[2] = { n - 1, 1 }; for (long i = 0; i < 2; i++) { d[i].SetLength(2); for (long j = 0; j < 2; j++) d[i][j] = PML::toeplitz_lzz_p(patV(0, h[i] + w[j] - 1, 9 * i + j), h[i], w[j]); } M.reset(new PML::mosaic_toeplitz_lzz_p(d)); break; }
        default: M.reset(new PML::sylvester_lzz_p(radd(pat(D_DENSE, m, 3), mono(1, m)), radd(pat(D_DENSE, n, 4), mono(1, n)))); break;
    }
    const MP D = M->to_dense(); const long R_ = D.NumRows(), C_ = D.NumCols(); if (R_ + C_ != (fam == 4 ? 2 * m : fam == 7 ? 2 * (m + n) : m + n)) c.fail("dimensions of the matrix");
    VL Ls; for (long x = 0; x <= 4; x++) Ls.push_back(x); for (long x : { C_ - 1, C_ + 1, R_ - 1, R_ + 1, C_, R_, R_ + C_, R_ + C_ - 1, 2 * C_, 2 * R_ }) if (x > 4) Ls.push_back(x);
    if (e >= (long) Ls.size()) return; lin(c, *M, D, Ls[e], k);
}
MC_SPACE(structured_solve, -1, 32)
{
    long kind = c.choose(3, "operation"), p = c.from({ 97, P60, FFT0 }, "p"), m = c.range(1, 4, "m"), n = c.range(1, 4, "n"), L = c.range(0, 10, "length");
    if (!c.mine()) return;
    setp(p);
    if (kind == 0)
    {
        zz_pX a = radd(pat(D_DENSE, m, 3), mono(1, m)), b = radd(pat(D_DENSE, n, 4), mono(1, n)); const long N = m + n; const bool inv = dg(rgcd(a, b)) == 0;
        for (long prep = 0; prep < 2; prep++)
        {
            PML::sylvester_lzz_p S(a, b); if (prep) S.prepare_inverse(); const MP D = S.to_dense(); MP B = patM(0, 2, L, 5), X; long r = 0;
            if (judge(c, "transposed solve, matrix version", L == N, [&] { r = S.solve_transpose(X, B); })) { expectl(c, r, inv, "verdict"); if (r) expect(c, rmul(X, D), B, "solution"); }
            if (L >= 1) if (judge(c, "top right block of the inverse", L <= N, [&] { r = S.top_right_block_inverse(X, L); })) expectl(c, r, inv, "verdict");
        }
    }
    else
    {
        rnd::reset({}, 1); if (p == 97) return; Vec<Vec<PML::hankel_lzz_p> > h; h.SetLength(1); h[0].SetLength(1); h[0][0] = PML::hankel_lzz_p(patV(0, m + n - 1, 7), m, n); Vec<Vec<PML::toeplitz_lzz_p> > t; t.SetLength(1); t[0].SetLength(1); t[0][0] = PML::toeplitz_lzz_p(patV(0, m + n - 1, 7), m, n); if (L) return;
        if (kind == 1) { PML::mosaic_hankel_lzz_p M(h); const MP D = M.to_dense(); PML::hankel_like_minus_lzz_p I; long r = 0; if (judge(c, "inverse of a mosaic Hankel matrix", m == n, [&] { r = M.inv(I); })) { if (r) expect(c, rmul(D, I.to_dense()), identP(n), "inverse"); } expect(c, M.to_dense(), D, "the matrix"); }
        else { PML::mosaic_toeplitz_lzz_p M(t); const MP D = M.to_dense(); PML::toeplitz_like_minus_lzz_p I; long r = 0; if (judge(c, "inverse of a mosaic Toeplitz matrix", m == n, [&] { r = M.inv(I); })) { if (r) expect(c, rmul(D, I.to_dense()), identP(n), "inverse"); } expect(c, M.to_dense(), D, "the matrix"); }
        if (m == 1 && n == 1) { VP x, b; PML::mosaic_hankel_lzz_p H0; PML::mosaic_toeplitz_lzz_p T0; judge(c, "solving with an empty mosaic Hankel matrix", false, [&] { H0.solve(x, b); }); judge(c, "solving with an empty mosaic Toeplitz matrix", false, [&] { T0.solve(x, b); }); }
        // entries
        PML::mosaic_hankel_lzz_p MH(h); PML::mosaic_toeplitz_lzz_p MT(t); const MP DH = MH.to_dense(), DT = MT.to_dense(); for (long i = 0; i <= m + 1; i++) for (long j = 0; j <= n + 1; j++)
        { zz_p x; if (judge(c, "entry of a mosaic Hankel matrix", i < m && j < n, [&] { x = MH(i, j); })) c.check(x == DH[i][j], "wrong entry"); if (judge(c, "entry of a mosaic Toeplitz matrix", i < m && j < n, [&] { x = MT(i, j); })) c.check(x == DT[i][j], "wrong entry"); }
    }
}
// ------------------------------------------------------------ structured matrices over zz_pX
MC_SPACE(structured_poly, -1, 32)
{
    long fam = c.choose(3, "family"), p = c.from({ 2, P60, FFT0 }, "p"), m = c.range(1, c.lim(3, 4, 5), "m"), n = c.range(1, c.lim(3, 4, 5), "n"), len = c.range(1, 3, "len"), pr = c.choose(3, "prepared"), L = c.range(0, c.lim(7, 9, 12), "length"), s = c.range(0, 4, "truncation");
    if (fam == 0 && m != n) return; if (fam == 2 && (pr || len > 2)) return;
    if (!c.mine()) return;
    setp(p); std::unique_ptr<PML::structured_lzz_pX> M;
    if (fam == 0) { auto* x = new PML::lower_triangular_toeplitz_lzz_pX(patVX(D_DENSE, m, len, 1)); M.reset(x); if (pr) x->prepare_degree(pr); } if (fam == 1) { auto* x = new PML::circulant_row_lzz_pX(patVX(D_DENSE, n, len, 1), m); M.reset(x); if (pr) x->prepare_degree(pr); }
    if (fam == 2) { VX a = patVX(D_DENSE, m + 1, len, 1), b = patVX(D_DENSE, n + 1, len, 2); a[m] = radd(a[m], mono(1, len)); b[n] = radd(b[n], mono(1, len)); M.reset(new PML::sylvester_lzz_pX(a, b)); }
    const MX D = M->to_dense(); const long R_ = D.NumRows(), C_ = D.NumCols(); const VX v = patVX(D_DENSE, L, 3, 3); const MX a = patX(D_DENSE, L, 2, 3, 4), b = patX(D_DENSE, 2, L, 3, 5); VX V = v, r = dirtyVX(2); MX A = a, B = b, X = dirtyM(1, 2);
    auto tv = [&](const VX& w) { VX y = w; for (long i = 0; i < y.length(); i++) y[i] = rtrunc(y[i], s); return y; };
    for (long pass = 0; pass < 2; pass++)
    {
        if (judge(c, "right product by a vector", L == C_, [&] { M->mul_right(r, V); })) expect(c, r, rmul(D, v), "right product"); if (judge(c, "left product by a vector", L == R_, [&] { M->mul_left(r, V); })) expect(c, r, rmul(v, D), "left product");
        if (judge(c, "truncated right product by a vector", L == C_, [&] { M->mul_right_trunc(r, V, s); })) expect(c, r, tv(rmul(D, v)), "right product"); if (judge(c, "truncated left product by a vector", L == R_, [&] { M->mul_left_trunc(r, V, s); })) expect(c, r, tv(rmul(v, D)), "left product");
        if (judge(c, "right product by a matrix", L == C_, [&] { M->mul_right(X, A); })) expect(c, X, rmul(D, a), "right product"); if (judge(c, "left product by a matrix", L == R_, [&] { M->mul_left(X, B); })) expect(c, X, rmul(b, D), "left product");
        if (judge(c, "truncated right product by a matrix", L == C_, [&] { M->mul_right_trunc(X, A, s); })) expect(c, X, rtrunc(rmul(D, a), s), "right product"); if (judge(c, "truncated left product by a matrix", L == R_, [&] { M->mul_left_trunc(X, B, s); })) expect(c, X, rtrunc(rmul(b, D), s), "left product");
    }
    for (long i = 0; i < L; i++) c.check(eq(V[i], v[i]), "vector operand modified"); unchanged(c, A, a, "matrix operand"); unchanged(c, B, b, "matrix operand"); expect(c, M->to_dense(), D, "the matrix");
}
// all pairs over GF(2), GF(3): leading coefficients, degrees and resultant at zero decide
MC_SPACE(sylvester_poly, -1, 32)
{
    long p = c.from({ 2, 3 }, "p"), da = c.range(0, 2, "dy a"), db = c.range(0, 2, "dy b"), L = p == 2 ? 2 : 1, a = c.choose(ipow(p, L * (da + 1)), "a"), b = c.choose(ipow(p, L * (db + 1)), "b"), m = c.range(1, c.lim(2, 3, 4), "m");
    if (!c.mine()) return;
    setp(p); auto mkv = [&](long k, long d) { VX v; v.SetLength(d + 1); for (long i = 0; i <= d; i++) { v[i] = nth(k % ipow(p, L), L); k /= ipow(p, L); } return v; }; VX A = mkv(a, da), B = mkv(b, db); std::unique_ptr<PML::sylvester_lzz_pX> S;
    if (!judge(c, "Sylvester matrix", dg(A[da]) >= 0 && dg(B[db]) >= 0, [&] { S.reset(new PML::sylvester_lzz_pX(A, B)); })) return;
    auto at0 = [&](const VX& v) { VL r; for (long i = 0; i < v.length(); i++) r.push_back(C(v[i], 0)); return mk(r); }; zz_pX a0 = at0(A), b0 = at0(B); if (dg(a0) != da || dg(b0) != db) return;          // the leading coefficients must not vanish at zero
    const bool ok = da > 0 && db > 0 && dg(rgcd(a0, b0)) == 0; PML::toeplitz_like_minus_lzz_pX I; if (judge(c, "inverse mod x^m", ok, [&] { S->newton_inv_trunc(I, m); })) expect(c, rtrunc(rmul(S->to_dense(), I.to_dense()), m), identX(da + db), "inverse mod x^m");
}
// ------------------------------------------------------------ polynomial matrix arithmetic
MC_SPACE(arith, -1, 32)
{
    long p = c.from({ 2, P60 }, "p"), m = c.range(0, 3, "m"), n = c.range(0, 3, "n"), k = c.range(0, 3, "k"), l = c.range(0, 3, "l"), s = c.range(0, 2, "shift");
    if (!c.mine()) return;
    setp(p); using PML::operator+; using PML::operator-; using PML::operator*; using PML::operator+=; using PML::operator-=; using PML::operator*=;
    const MX a = patX(D_DENSE, m, n, 3, 1), b = patX(D_DENSE, k, l, 2, 2); const MP q = patM(0, k, l, 3); MX A = a, B = b, X = dirtyM(2, 1), T; MP Q = q; const bool ok = m == k && n == l; const MX w = ok ? radd(a, b) : a, z = ok ? rsub(a, b) : a; auto K = [&](const MP& x) { MX y = mx(x.NumRows(), x.NumCols()); for (long i = 0; i < x.NumRows(); i++) for (long j = 0; j < x.NumCols(); j++) y[i][j] = cst(R(x[i][j])); return y; }; const MX wq = ok ? radd(a, K(q)) : a, zq = ok ? rsub(a, K(q)) : a, qz = ok ? rsub(K(q), a) : a;
#define TRY(what, cond, call, want) do { if (judge(c, what, cond, [&] { call; })) expect(c, X, want, what); unchanged(c, A, a, what); unchanged(c, B, b, what); unchanged(c, Q, q, what); } while (0)
    TRY("matrix addition", ok, PML::add(X, A, B), w); TRY("matrix addition", ok, X = A + B, w); TRY("matrix addition", ok, (T = A, T += B, X = T), w); TRY("matrix addition, constant", ok, PML::add(X, A, Q), wq); TRY("matrix addition, constant", ok, PML::add(X, Q, A), wq); TRY("matrix addition, constant", ok, X = A + Q, wq); TRY("matrix addition, constant", ok, X = Q + A, wq); TRY("matrix addition, constant", ok, (T = A, T += Q, X = T), wq);
    TRY("matrix subtraction", ok, PML::sub(X, A, B), z); TRY("matrix subtraction", ok, X = A - B, z); TRY("matrix subtraction", ok, (T = A, T -= B, X = T), z); TRY("matrix subtraction, constant", ok, PML::sub(X, A, Q), zq); TRY("matrix subtraction, constant", ok, PML::sub(X, Q, A), qz); TRY("matrix subtraction, constant", ok, X = A - Q, zq); TRY("matrix subtraction, constant", ok, X = Q - A, qz); TRY("matrix subtraction, constant", ok, (T = A, T -= Q, X = T), zq);
    TRY("matrix addition of a shift", ok, PML::add_LeftShift(X, A, B, s), (ok ? radd(a, shl(b, s)) : a));
    TRY("product by a constant matrix", n == k, PML::mul(X, A, Q), (n == k ? rmul(a, K(q)) : a)); TRY("product by a constant matrix", n == k, X = A * Q, (n == k ? rmul(a, K(q)) : a)); TRY("product of a constant matrix", l == m, PML::mul(X, Q, A), (l == m ? rmul(K(q), a) : a)); TRY("product of a constant matrix", l == m, X = Q * A, (l == m ? rmul(K(q), a) : a)); TRY("product by a constant matrix", n == k, (T = A, T *= Q, X = T), (n == k ? rmul(a, K(q)) : a));
    { X = a; const bool sc = ok; if (judge(c, "setting a coefficient", sc, [&] { PML::SetCoeff(X, s, Q); })) { for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) for (long e = 0; e < 4; e++) c.check(C(X[i][j], e) == (e == s ? R(q[i][j]) : C(a[i][j], e)), "coefficient"); } else unchanged(c, X, a, "matrix with a coefficient to be set"); }
    TRY("horizontal join", m == k, PML::horizontal_join(X, A, B), (m == k ? mapM(mx(m, n + l), [&](const zz_pX&, long i, long j) { return j < n ? a[i][j] : b[i][j - n]; }) : a));
    if (k > 0) { judge(c, "collapsing consecutive columns", n % k == 0, [&] { PML::collapse_consecutive_columns(X, A, 3, k); }); unchanged(c, A, a, "matrix"); judge(c, "collapsing columns with a step", n % k == 0, [&] { PML::collapse_nonconsecutive_columns(X, A, 3, k); }); unchanged(c, A, a, "matrix"); }
    if (n == 0 && l == 0)
    {
        const VX u = patVX(D_DENSE, m, 3, 1), v = patVX(D_DENSE, k, 2, 2); const VP t = patV(0, k, 3); VX U = u, V = v, Y = dirtyVX(1), O; VP W = t; const bool e = m == k; auto chk = [&](const char* what, std::function<zz_pX(long)> f) { if (Y.length() != m) c.fail("%s: length", what); for (long i = 0; i < m; i++) if (!eq(Y[i], f(i))) c.fail("%s: entry %ld", what, i); };
#define TRV(what, call, want) do { if (judge(c, what, e, [&] { call; })) chk(what, [&](long i) { return want; }); c.check(eq(U, u) && eq(V, v) && eq(W, t), "operand modified"); } while (0)
        TRV("vector addition", PML::add(Y, U, V), radd(u[i], v[i])); TRV("vector addition", Y = U + V, radd(u[i], v[i])); TRV("vector addition", (O = U, O += V, Y = O), radd(u[i], v[i])); TRV("vector addition, constant", PML::add(Y, U, W), radd(u[i], cst(R(t[i])))); TRV("vector addition, constant", Y = U + W, radd(u[i], cst(R(t[i])))); TRV("vector addition, constant", Y = W + U, radd(u[i], cst(R(t[i])))); TRV("vector addition, constant", (O = U, O += W, Y = O), radd(u[i], cst(R(t[i]))));
        TRV("vector subtraction", PML::sub(Y, U, V), rsub(u[i], v[i])); TRV("vector subtraction", Y = U - V, rsub(u[i], v[i])); TRV("vector subtraction", (O = U, O -= V, Y = O), rsub(u[i], v[i])); TRV("vector subtraction, constant", PML::sub(Y, U, W), rsub(u[i], cst(R(t[i])))); TRV("vector subtraction, constant", PML::sub(Y, W, U), rsub(cst(R(t[i])), u[i])); TRV("vector subtraction, constant", Y = U - W, rsub(u[i], cst(R(t[i])))); TRV("vector subtraction, constant", Y = W - U, rsub(cst(R(t[i])), u[i])); TRV("vector subtraction, constant", (O = U, O -= W, Y = O), rsub(u[i], cst(R(t[i]))));
        TRV("vector addition of a shift", PML::add_LeftShift(Y, U, V, s), radd(u[i], shl(v[i], s)));
    }
}
// ------------------------------------------------------------ shifts
MC_SPACE(shifts, -1, 32)
{
    long p = c.from({ 2, P60 }, "p"), m = c.range(1, 4, "m"), n = c.range(1, 4, "n"), L = c.range(0, 6, "shift length"), k = c.from({ D_DENSE, M_UNBAL, M_ZROW }, "kind");
    if (!c.mine()) return;
    setp(p); const MX a = patX(k, m, n, 3, 1); MX A = a; VL s; for (long i = 0; i < L; i++) s.push_back(2 * i - 3 * (i % 2)); VL r, i; NTL::Mat<long> g;
    // an empty shift means the uniform shift for some of these functions: that convention is not judged here
    if (L == 0) return;
    judge(c, "row degrees", L == n, [&] { PML::row_degree(r, A, s); }); judge(c, "row degrees by value", L == n, [&] { r = PML::row_degree(A, s); }); judge(c, "column degrees", L == m, [&] { PML::col_degree(r, A, s); }); judge(c, "column degrees by value", L == m, [&] { r = PML::col_degree(A, s); });
    judge(c, "row pivots", L == n, [&] { PML::row_pivots(i, r, A, s); }); judge(c, "column pivots", L == m, [&] { PML::col_pivots(i, r, A, s); }); judge(c, "row pivots by value", L == n, [&] { PML::row_pivots(A, s); }); judge(c, "column pivots by value", L == m, [&] { PML::col_pivots(A, s); });
    judge(c, "degree matrix, row shift", L == n, [&] { PML::degree_matrix_rowshifted(g, A, s); }); judge(c, "degree matrix, column shift", L == m, [&] { PML::degree_matrix_colshifted(g, A, s); });
    unchanged(c, A, a, "matrix");
    for (long f : { -1L, 9L, 50L }) { const PML::PolMatForm F = static_cast<PML::PolMatForm>(f); judge(c, "unknown row form", false, [&] { PML::is_row_polmatform(F, A); }); judge(c, "unknown column form", false, [&] { PML::is_col_polmatform(F, A); }); if (L == n) judge(c, "unknown shifted row form", false, [&] { PML::is_row_polmatform(F, A, s); }); if (L == m) judge(c, "unknown shifted column form", false, [&] { PML::is_col_polmatform(F, A, s); }); }
}
// ------------------------------------------------------------ truncated inverses: not square or singular at zero
MC_SPACE(inverse, -1, 32)
{
    long sh = c.choose(5, "shape"), p = c.from({ 2, 3 }, "p"), m = sh == 0 ? 1 : sh == 4 ? 3 : 2, n = sh == 0 ? 1 : sh == 1 ? 1 : sh == 3 ? 3 : 2, k = c.choose(ipow(p, m * n), "A(0)"), la = c.range(1, 3, "len"), d = c.range(1, c.lim(3, 6, 10), "d");
    if (p == 3 && m * n > 4) return;
    if (!c.mine()) return;
    setp(p); const MP a0 = nthP(k, m, n); MX a = patX(D_DENSE, m, n, la, 5); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = radd(shl(shl(a[i][j], -1), 1), cst(R(a0[i][j]))); const bool ok = m == n && rrank(a0) == n; MX A = a, X = dirtyM(2, 1);
    auto chk = [&](const char* w) { expect(c, rtrunc(rmul(X, a), d), identX(n), w); c.check(dg(X) < d, "degree of a truncated inverse"); };
    if (judge(c, "inv_trunc", ok, [&] { PML::inv_trunc(X, A, d); })) chk("inv_trunc"); unchanged(c, A, a, "matrix"); if (judge(c, "inv_trunc by value", ok, [&] { X = PML::inv_trunc(A, d); })) chk("inv_trunc by value"); if (judge(c, "inv_trunc, aliased", ok, [&] { MX T = A; PML::inv_trunc(T, T, d); X = T; })) chk("inv_trunc, aliased");
    if (judge(c, "plain_inv_trunc", ok, [&] { PML::plain_inv_trunc(X, A, d); })) chk("plain_inv_trunc"); for (long th : { -1L, 1L }) if (judge(c, "newton_inv_trunc_middle_product", ok, [&] { PML::newton_inv_trunc_middle_product(X, A, d, th); })) chk("newton_inv_trunc_middle_product"); unchanged(c, A, a, "matrix");
}
MC_SPACE(inverse_large, 0, 32)
{
    long p = c.from({ P60, FFT0, P20 }, "p"), m = c.range(1, 4, "m"), n = c.range(1, 4, "n"), sing = c.choose(3, "A(0)"), la = c.from({ 1, 2, 5, 20 }, "len"), d = c.from({ 1, 2, 7, 33, 70 }, "d");
    if (m != n && sing) return;
    if (!c.mine()) return;
    setp(p); MX a = patX(D_DENSE, m, n, la, 5); if (sing == 1) for (long j = 0; j < n; j++) SetCoeff(a[m - 1][j], 0, m > 1 ? Z(C(a[0][j], 0)) : Z(0)); if (sing == 2) for (long i = 0; i < m; i++) SetCoeff(a[i][0], 0, Z(0)); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j].normalize(); if (dg(a) < 0) return;
    const bool ok = m == n && rrank(coef(a, 0)) == n; MX A = a, X; auto chk = [&](const char* w) { expect(c, rtrunc(rmul(X, a), d), identX(n), w); };
    if (judge(c, "inv_trunc", ok, [&] { PML::inv_trunc(X, A, d); })) chk("inv_trunc"); if (judge(c, "newton_inv_trunc_middle_product", ok, [&] { PML::newton_inv_trunc_middle_product(X, A, d); })) chk("newton_inv_trunc_middle_product"); if (judge(c, "newton_inv_trunc_geometric", ok, [&] { PML::newton_inv_trunc_geometric(X, A, d); })) chk("newton_inv_trunc_geometric"); if (p == FFT0 && judge(c, "newton_inv_trunc_FFT", ok, [&] { PML::newton_inv_trunc_FFT(X, A, d); })) chk("newton_inv_trunc_FFT"); unchanged(c, A, a, "matrix");
}
// ------------------------------------------------------------ announced degrees
MC_SPACE(degrees, -1, 32)
{
    long p = c.from({ P60, FFT0, P20 }, "p"), la = c.range(1, c.lim(2, 4, 5), "lenA"), dB = c.range(0, c.lim(3, 5, 8), "dB"), lb = c.range(0, c.lim(6, 8, 12), "lenB"), m = c.range(1, 2, "m"), n = c.range(1, 2, "n"), u = c.from({ 1, 3 }, "u");
    if (!c.mine()) return;
    setp(p); const MX a = patX(D_DENSE, m, n, la, 1), b = patX(D_DENSE, n, u, lb, 2); MX A = a, B = b, X; const bool ok = dg(b) <= dB; const long N = NTL::NextPowerOfTwo(la + dB + 1); typedef PML::mat_lzz_pX_lmultiplier LM;
    for (long k = 0; k < 5; k++)
    {
        std::unique_ptr<LM> M; if (k == 0) M = PML::get_lmultiplier(A, dB); if (k == 1) M.reset(new PML::mat_lzz_pX_lmultiplier_3_primes(A, dB)); if (k == 2) M.reset(new PML::mat_lzz_pX_lmultiplier_geometric(A, dB)); if (k == 3 && PML::is_FFT_ready(N)) M.reset(new PML::mat_lzz_pX_lmultiplier_FFT_direct(A, dB)); if (k == 4 && PML::is_FFT_ready(N)) M.reset(new PML::mat_lzz_pX_lmultiplier_FFT_matmul(A, dB)); if (!M) continue;
        const bool guarded = k != 1;      // the product modulo three primes has no bound on the degree of the right operand
        if (!ok && k == 0) { bool r = rejects([&] { M->multiply(X, B); }); c.call(); if (!r) expect(c, X, rmul(a, b), "product beyond the announced degree"); else c.interesting(); }
        else if (guarded ? judge(c, "product by a multiplier", ok, [&] { M->multiply(X, B); }) : ok && judge(c, "product by a multiplier", true, [&] { M->multiply(X, B); })) expect(c, X, rmul(a, b), "product"); unchanged(c, B, b, "right operand");
        const MX b2 = patX(D_DENSE, n, 2, dB + 1, 7); if (judge(c, "product after a rejection", true, [&] { M->multiply(X, b2); })) expect(c, X, rmul(a, b2), "product after a rejection");
    }
    // middle product at geometric points
    for (long dA : { la - 1, la - 2, la }) if (dA >= 0) { MX cc = patX(D_DENSE, n, u, lb, 3), CC = cc; const bool k = dg(a) <= dA && dg(cc) <= dA + dB; if (judge(c, "transposed product at geometric points", k, [&] { PML::t_multiply_evaluate_geometric(X, A, CC, dA, dB); })) expect(c, X, rtrunc(shl(rmul(mapM(a, [&](const zz_pX& x, long, long) { return rrev(x, dA); }), cc), -dA), dB + 1), "transposed product"); unchanged(c, CC, cc, "operand"); }
    // linear systems by high order lifting: deg(b) < deg(A)
    if (m == n) { MX S = a; for (long i = 0; i < m; i++) S[i][i] = radd(S[i][i], cst(1)); const MX s = S; if (rrank(coef(s, 0)) == n) for (long pr : { 1L, 3L, 9L }) if (judge(c, "series solution by high order lifting", dg(b) < dg(s), [&] { PML::solve_series_high_order_lifting(X, S, B, pr); })) expect(c, rtrunc(rmul(s, X), pr), rtrunc(b, pr), "series solution"); unchanged(c, S, s, "matrix"); unchanged(c, B, b, "right-hand side"); }
}
// ------------------------------------------------------------ scalar and univariate helpers
MC_SPACE(univariate, -1, 32)
{
    long p = c.from({ 3, 5, 7, 13, 97, P20, P60, FFT0, -257 }, "p"), n = c.range(1, c.lim(5, 9, 18), "n"), L = c.range(0, c.lim(7, 11, 20), "L");
    if (!c.mine()) return;
    setp(p); rnd::reset({}, 1); const zz_pX f = pat(D_DENSE, L, 1); zz_pX g = f;
    if (n <= p) { zz_p x; const bool r = rejects([&] { PML::element_of_order(x, L); }); c.call(); c.observe(r); if (r != (L > md() - 1)) c.fail("element_of_order(%ld): %s", L, r ? "admissible order rejected" : "impossible order accepted"); }
    // geometric progressions of n points: polynomials of degree < n
    if (2 * n < md() - 1)
    {
        zz_p q; PML::element_of_order(q, 2 * n); if (q != 0) { PML::zz_pX_Multipoint_Geometric G(q, n); VP v = dirtyV(2); for (long pass = 0; pass < 2; pass++) { const zz_pX h = pass ? rtrunc(f, n) : f; if (judge(c, "geometric evaluation", dg(h) < n, [&] { G.evaluate(v, h); })) { c.check(v.length() == n, "number of values"); for (long i = 0; i < n; i++) c.check(v[i] == Z(ev(h, mulm(1, powm(R(q), 2 * i)))), "value"); } }
            judge(c, "preparing a degree", L < n, [&] { G.prepare_degree(L); }); VP w; const zz_pX h = rtrunc(f, n); if (judge(c, "geometric evaluation after preparing", true, [&] { G.evaluate(w, h); })) for (long i = 0; i < n; i++) c.check(w[i] == Z(ev(h, powm(R(q), 2 * i))), "value"); }
    }
    // FFT points
    if (L >= 1) { const long k = NTL::NextPowerOfTwo(L); const bool fft = NTL::zz_pInfo->p_info != NULL; std::unique_ptr<PML::zz_pX_Multipoint_FFT> F; const bool ok = (L == (1L << k)) && fft && k <= NTL::zz_pInfo->MaxRoot; judge(c, "FFT points", ok, [&] { F.reset(new PML::zz_pX_Multipoint_FFT(L)); }); }
    if (L >= 1) for (long big : { 256L, 512L }) if (p == -257 && L == 1) judge(c, "FFT points up to the order of the field", big <= 256, [&] { PML::zz_pX_Multipoint_FFT F(big); });
    // Taylor shift prepared for degree n
    if (n + 1 < md()) { PML::zz_pX_shift_DAC S(n, Z(2)); zz_pX h = f, r(dirtyP()); if (judge(c, "Taylor shift", dg(f) <= n, [&] { S.shift(r, h); })) { zz_pX w, t = cst(1); for (long i = 0; i <= dg(f); i++) { w = radd(w, rmul(cst(C(f, i)), t)); t = rmul(t, mk({ 2, 1 })); } expect(c, r, w, "Taylor shift"); } unchanged(c, h, f, "polynomial"); }
    // power series division
    { zz_pX b = pat(D_DENSE, 4, 9), r(dirtyP()); const zz_pX b0 = b; for (long m : { -2L, -1L, 0L, 1L, 4L, 40L }) { if (m > 0 && C(g, 0) == 0) { judge(c, "division by a series without constant term", false, [&] { PML::InvTruncMul(r, b, g, m); }); } else { if (m < 0 || C(g, 0) != 0) if (judge(c, "power series division", m >= 0, [&] { PML::InvTruncMul(r, b, g, m); })) expect(c, m ? rtrunc(rmul(r, g), m) : r, rtrunc(b0, m), "power series quotient"); } } unchanged(c, g, f, "denominator"); unchanged(c, b, b0, "numerator"); }
    // bivariate coefficients
    { PML::zz_pXY F(g); for (long i : { -3L, -1L, 0L, 2L }) { PML::zz_pXY H = F; if (judge(c, "setting a bivariate coefficient", i >= 0, [&] { PML::SetCoeff(H, i, f); })) c.check(i > H.degY() ? dg(f) < 0 : eq(H.rep[i], f), "bivariate coefficient"); } }
    { VP pts; Vec<MP> seq; MX B; judge(c, "matrix reconstruction of an empty sequence", false, [&] { PML::matrix_recon_interpolation(B, pts, seq); }); judge(c, "matrix reconstruction of an empty sequence, geometric", false, [&] { PML::matrix_recon_interpolation_geometric(B, pts, Z(2), seq); }); }
}
