// C09: polynomial matrix / vector arithmetic and utilities equal their entrywise definition
#include "rnd.h"
#include "mat_lzz_pX_extra.h"
using namespace ref;
using PML::operator+; using PML::operator-; using PML::operator*; using PML::operator<<; using PML::operator>>;
using PML::operator+=; using PML::operator-=; using PML::operator*=; using PML::operator<<=; using PML::operator>>=;
typedef Vec<MP> VMP;
static MX col(const VX& v) { MX a = mx(v.length(), 1); for (long i = 0; i < v.length(); i++) a[i][0] = v[i]; return a; }
static MX negm(const MX& a) { return mapM(a, [](const zz_pX& x, long, long) { return rneg(x); }); }
static MX scalm(const MX& a, const zz_pX& s) { return mapM(a, [&](const zz_pX& x, long, long) { return rmul(x, s); }); }
static MX revm(const MX& a, long hi) { return mapM(a, [&](const zz_pX& x, long, long) { return rrev(x, hi); }); }
static VX firstcol(const MX& a) { VX v; v.SetLength(a.NumRows()); for (long i = 0; i < a.NumRows(); i++) v[i] = a[i][0]; return v; }
static MX D_(const MX& a) { return dirtyM(a.NumRows(), a.NumCols()); }

// the outcome of an out-of-place operation, with a stale output of the right and of another size, and aliased
#define OUTOF(expr_call, in, want, what) do { MX IN = in; MX O = dirtyM((want).NumRows(), (want).NumCols()); { MX& X = O; const MX& A = IN; expr_call; } expect(c, O, want, what); unchanged(c, IN, in, what); \
    O = dirtyM((want).NumRows() + 1, 1); { MX& X = O; const MX& A = IN; expr_call; } expect(c, O, want, what); { MX& X = IN; const MX& A = IN; expr_call; } expect(c, IN, want, what " (aliased)"); } while (0)

static void unary(mc::Ctx& c, const MX& a, const std::vector<long>& ns)
{
    const long m = a.NumRows(), n = a.NumCols();
    MX w = a; PML::clear(w); expect(c, w, mx(m, n), "clear");
    for (long r0 = 0; r0 <= m; r0++) for (long c0 = 0; c0 <= n; c0++) for (long h : { 0L, 1L, m + 2 }) for (long l : { 0L, 1L, n + 1 })
    { w = a; PML::clear(w, r0, c0, h, l); expect(c, w, mapM(a, [&](const zz_pX& x, long i, long j) { return (i >= r0 && i < r0 + h && j >= c0 && j < c0 + l) ? zz_pX() : x; }), "clear a window"); }
    w = a; PML::ident(w, m); expect(c, w, identX(m), "ident"); w = a; PML::ident(w, n + 1); expect(c, w, identX(n + 1), "ident"); expect(c, PML::ident_mat_zz_pX(n), identX(n), "ident_mat");
    MX A = a; const VX v = n ? firstcol(a) : VX();
    expectl(c, PML::IsZero(A), dg(a) < 0, "IsZero"); expectl(c, PML::IsZero(v), dg(v) < 0, "IsZero vector"); expectl(c, PML::deg(A), dg(a), "deg"); expectl(c, PML::deg(v), dg(v), "deg vector");
    expectl(c, PML::IsConstant(A), dg(a) <= 0, "IsConstant"); expectl(c, PML::IsIdent(A), m == n && eq(a, identX(m)), "IsIdent");
    for (long d = 0; d <= m + 1; d++) expectl(c, PML::IsIdent(A, d), m == d && n == d && eq(a, identX(d)), "IsIdent of a given dimension");
    { MX I = identX(n); expectl(c, PML::IsIdent(I), 1, "IsIdent"); expectl(c, PML::IsIdent(I, n), 1, "IsIdent"); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { MX J = I; J[i][j] = radd(J[i][j], mono(1, i + j)); expectl(c, PML::IsIdent(J), 0, "IsIdent"); expectl(c, PML::IsIdent(J, n), 0, "IsIdent"); } MX J = mx(n + 1, n); for (long i = 0; i < n; i++) J[i][i] = cst(1); expectl(c, PML::IsIdent(J), 0, "IsIdent of a rectangular matrix"); }
    for (long k = -1; k <= dg(a) + 2; k++) { MP q = dirtyC(m + 1, n); PML::GetCoeff(q, A, k); expect(c, q, coef(a, k), "GetCoeff"); expect(c, PML::coeff(A, k), coef(a, k), "coeff"); }
    for (long k = 0; k <= dg(a) + 3; k++) for (long h = 0; h < 5; h++) { MP q = patM(h, m, n, 7); w = a; PML::SetCoeff(w, k, q); expect(c, w, mapM(a, [&](const zz_pX& x, long i, long j) { VL u = un(x); if ((long) u.size() <= k) u.resize(k + 1, 0); u[k] = R(q[i][j]); return mk(u); }), "SetCoeff"); }
    OUTOF(PML::transpose(X, A), a, tr(a), "transpose"); expect(c, PML::transpose(A), tr(a), "transpose by value");
    { VX u = dirtyVX(3), mv = v; for (long i = 0; i < v.length(); i++) mv[i] = v[v.length() - 1 - i]; PML::mirror(u, v); expect(c, u, mv, "mirror"); expect(c, PML::mirror(v), mv, "mirror"); u = v; PML::mirror(u, u); expect(c, u, mv, "mirror aliased"); }
    OUTOF(PML::negate(X, A), a, negm(a), "negate"); expect(c, -A, negm(a), "unary minus"); { VX u = dirtyVX(1); PML::negate(u, v); expect(c, col(u), negm(col(v)), "negate vector"); expect(c, col(-v), negm(col(v)), "unary minus"); u = v; PML::negate(u, u); expect(c, col(u), negm(col(v)), "negate vector aliased"); }
    for (long k : ns)
    {
        if (k >= 0) { OUTOF(PML::trunc(X, A, k), a, rtrunc(a, k), "trunc"); expect(c, PML::trunc(A, k), rtrunc(a, k), "trunc by value"); }
        OUTOF(PML::LeftShift(X, A, k), a, shl(a, k), "LeftShift"); expect(c, PML::LeftShift(A, k), shl(a, k), "LeftShift"); expect(c, A << k, shl(a, k), "<<"); w = a; w <<= k; expect(c, w, shl(a, k), "<<=");
        OUTOF(PML::RightShift(X, A, k), a, shl(a, -k), "RightShift"); expect(c, PML::RightShift(A, k), shl(a, -k), "RightShift"); expect(c, A >> k, shl(a, -k), ">>"); w = a; w >>= k; expect(c, w, shl(a, -k), ">>=");
        { VX u = dirtyVX(1); if (k >= 0) { PML::trunc(u, v, k); expect(c, col(u), rtrunc(col(v), k), "trunc vector"); expect(c, col(PML::trunc(v, k)), rtrunc(col(v), k), "trunc vector"); u = v; PML::trunc(u, u, k); expect(c, col(u), rtrunc(col(v), k), "trunc vector aliased"); }
          u = dirtyVX(2); PML::LeftShift(u, v, k); expect(c, col(u), shl(col(v), k), "LeftShift vector"); expect(c, col(v << k), shl(col(v), k), "<< vector"); expect(c, col(PML::LeftShift(v, k)), shl(col(v), k), "LeftShift vector"); u = v; u <<= k; expect(c, col(u), shl(col(v), k), "<<= vector");
          u = dirtyVX(9); PML::RightShift(u, v, k); expect(c, col(u), shl(col(v), -k), "RightShift vector"); expect(c, col(v >> k), shl(col(v), -k), ">> vector"); expect(c, col(PML::RightShift(v, k)), shl(col(v), -k), "RightShift vector"); u = v; u >>= k; expect(c, col(u), shl(col(v), -k), ">>= vector"); }
        for (long r = 0; r < m; r++)
        {
            MX W = mapM(a, [&](const zz_pX& x, long i, long) { return i == r ? rtrunc(x, k) : x; }); if (k >= 0) { OUTOF(PML::truncRow(X, A, r, k), a, W, "truncRow"); expect(c, PML::truncRow(A, r, k), W, "truncRow by value"); }
            W = mapM(a, [&](const zz_pX& x, long i, long) { return i == r ? shl(x, k) : x; }); OUTOF(PML::LeftShiftRow(X, A, r, k), a, W, "LeftShiftRow"); expect(c, PML::LeftShiftRow(A, r, k), W, "LeftShiftRow by value");
            W = mapM(a, [&](const zz_pX& x, long i, long) { return i == r ? shl(x, -k) : x; }); OUTOF(PML::RightShiftRow(X, A, r, k), a, W, "RightShiftRow"); expect(c, PML::RightShiftRow(A, r, k), W, "RightShiftRow by value");
        }
        for (long r = 0; r < n; r++)
        {
            MX W = mapM(a, [&](const zz_pX& x, long, long j) { return j == r ? rtrunc(x, k) : x; }); if (k >= 0) { OUTOF(PML::truncCol(X, A, r, k), a, W, "truncCol"); expect(c, PML::truncCol(A, r, k), W, "truncCol by value"); }
            W = mapM(a, [&](const zz_pX& x, long, long j) { return j == r ? shl(x, k) : x; }); OUTOF(PML::LeftShiftCol(X, A, r, k), a, W, "LeftShiftCol"); expect(c, PML::LeftShiftCol(A, r, k), W, "LeftShiftCol by value");
            W = mapM(a, [&](const zz_pX& x, long, long j) { return j == r ? shl(x, -k) : x; }); OUTOF(PML::RightShiftCol(X, A, r, k), a, W, "RightShiftCol"); expect(c, PML::RightShiftCol(A, r, k), W, "RightShiftCol by value");
        }
        OUTOF(PML::reverse(X, A, k - 1), a, revm(a, k - 1), "reverse"); expect(c, PML::reverse(A, k - 1), revm(a, k - 1), "reverse by value");
        VL hr, hc; for (long i = 0; i < m; i++) hr.push_back(k - 1 + i % 3); for (long j = 0; j < n; j++) hc.push_back(k + 1 - 2 * (j % 2));
        { MX W = mapM(a, [&](const zz_pX& x, long i, long) { return rrev(x, hr[i]); }); OUTOF(PML::row_reverse(X, A, hr), a, W, "row_reverse"); expect(c, PML::row_reverse(A, hr), W, "row_reverse by value"); }
        { MX W = mapM(a, [&](const zz_pX& x, long, long j) { return rrev(x, hc[j]); }); OUTOF(PML::col_reverse(X, A, hc), a, W, "col_reverse"); expect(c, PML::col_reverse(A, hc), W, "col_reverse by value"); }
    }
    OUTOF(PML::reverse(X, A), a, revm(a, dg(a)), "reverse w.r.t. the degree"); expect(c, PML::reverse(A), revm(a, dg(a)), "reverse w.r.t. the degree");
    for (long pt : { 0L, 1L, md() - 1, elt(9, 9) }) { pt %= md(); MP q = dirtyC(m, n + 1); PML::eval(q, A, Z(pt)); expect(c, q, ev(a, pt), "eval"); expect(c, PML::eval(A, Z(pt)), ev(a, pt), "eval by value"); }
    // conversions
    { MP k = coef(a, 0); OUTOF((PML::conv(X, k), (void) A), a, lift(k), "conv from a constant matrix"); expect(c, PML::conv(k), lift(k), "conv from a constant matrix by value"); }
    VMP s; s.SetLength(2); s[0] = dirtyC(m + 1, n); s[1] = dirtyC(m, n); PML::conv(s, A); expectl(c, s.length(), dg(a) + 1, "number of coefficient matrices"); for (long i = 0; i < s.length(); i++) expect(c, MP(s[i]), coef(a, i), "coefficient matrix");
    { VMP t = PML::conv(A); expectl(c, t.length(), dg(a) + 1, "number of coefficient matrices"); for (long i = 0; i < t.length(); i++) expect(c, MP(t[i]), coef(a, i), "coefficient matrix"); }
    w = D_(a); PML::conv(w, s); expect(c, w, a, "back from coefficient matrices"); if (dg(a) >= 0) { w = dirtyM(m + 2, 1); PML::conv(w, s); expect(c, w, a, "back from coefficient matrices"); expect(c, PML::conv(s), a, "back from coefficient matrices"); for (long pt : { 0L, 1L, elt(4, 4) }) { MP q; PML::eval(q, s, Z(pt % md())); expect(c, q, ev(a, pt % md()), "eval (vector of matrices)"); expect(c, PML::eval(s, Z(pt % md())), ev(a, pt % md()), "eval (vector of matrices)"); } }
    else { MP q; PML::eval(q, s, Z(1)); expectl(c, q.NumRows() + q.NumCols(), 0, "eval of the empty vector of matrices"); }
    for (long k : ns) if (k >= 0)
    {
        VMP t; t.SetLength(1); PML::conv(t, A, k); expectl(c, t.length(), k, "number of coefficient matrices"); for (long i = 0; i < k; i++) expect(c, MP(t[i]), coef(a, i), "coefficient matrix"); expectl(c, PML::conv(A, k).length(), k, "number of coefficient matrices");
        w = D_(a); PML::conv(w, t); expect(c, w, rtrunc(a, k), "back from truncated coefficient matrices"); if (k > 0) { expect(c, PML::conv(t), rtrunc(a, k), "back from truncated coefficient matrices"); w = dirtyM(1, n); PML::conv(w, t, k + 1); expect(c, w, rtrunc(a, k), "back from coefficient matrices, larger order"); }
        w = D_(a); PML::conv(w, s, k); expect(c, w, rtrunc(a, k), "back from coefficient matrices at a given order");
    }
    unchanged(c, A, a, "operand of unary operations");
}
static void binary(mc::Ctx& c, const MX& a, const MX& b, long wd)
{
    const long m = a.NumRows(), n = a.NumCols(); MX A = a, B = b, w; MP q = patM(0, m, n, 5); if (m && n) q[0][0] = Z(C(a[0][0], 0)); const MP qq = q;
    MX S = radd(a, b), T = rsub(a, b), Sq = radd(a, lift(q)), Tq = rsub(a, lift(q)), Uq = rsub(lift(q), a);
    auto D = [&](long k) { return k == 0 ? dirtyM(m, n) : dirtyM(m + 1, n + 1); };
    for (long k = 0; k < 2; k++)
    {
        w = D(k); PML::add(w, A, B); expect(c, w, S, "add"); w = D(k); PML::sub(w, A, B); expect(c, w, T, "sub"); w = D(k); PML::add(w, A, q); expect(c, w, Sq, "add constant"); w = D(k); PML::add(w, q, A); expect(c, w, Sq, "add constant"); w = D(k); PML::sub(w, A, q); expect(c, w, Tq, "sub constant"); w = D(k); PML::sub(w, q, A); expect(c, w, Uq, "sub from constant");
    }
    w = a; PML::add(w, w, B); expect(c, w, S, "add aliased"); w = b; PML::add(w, A, w); expect(c, w, S, "add aliased right"); w = a; PML::add(w, w, w); expect(c, w, radd(a, a), "add aliased both"); w = a; PML::sub(w, w, B); expect(c, w, T, "sub aliased"); w = b; PML::sub(w, A, w); expect(c, w, T, "sub aliased right"); w = a; PML::sub(w, w, w); expect(c, w, mx(m, n), "sub aliased both");
    w = a; PML::add(w, w, q); expect(c, w, Sq, "add constant aliased"); w = a; PML::sub(w, w, q); expect(c, w, Tq, "sub constant aliased"); w = a; PML::sub(w, q, w); expect(c, w, Uq, "sub from constant aliased");
    expect(c, A + B, S, "+"); expect(c, A - B, T, "-"); expect(c, A + q, Sq, "+"); expect(c, q + A, Sq, "+"); expect(c, A - q, Tq, "-"); expect(c, q - A, Uq, "-");
    w = a; w += B; expect(c, w, S, "+="); w = a; w -= B; expect(c, w, T, "-="); w = a; w += q; expect(c, w, Sq, "+="); w = a; w -= q; expect(c, w, Tq, "-=");
    for (long k : { 1L, 2L, dg(a) + 1, dg(a) + 4 }) if (k > 0) { MX W = radd(a, shl(b, k)); w = D(0); PML::add_LeftShift(w, A, B, k); expect(c, w, W, "add_LeftShift"); w = D(1); PML::add_LeftShift(w, A, B, k); expect(c, w, W, "add_LeftShift"); w = a; PML::add_LeftShift(w, w, B, k); expect(c, w, W, "add_LeftShift aliased");
        if (n) { VX u = dirtyVX(2), va = firstcol(a), vb = firstcol(b); PML::add_LeftShift(u, va, vb, k); expect(c, u, firstcol(W), "add_LeftShift vector"); PML::add_LeftShift(va, va, vb, k); expect(c, va, firstcol(W), "add_LeftShift vector aliased"); } }
    if (n)
    {
        VX u = dirtyVX(3), va = firstcol(a), vb = firstcol(b); const VX ca = va; VP vq = patV(0, m, 5); if (m) vq[0] = Z(C(va[0], 0)); VX lq; lq.SetLength(m); for (long i = 0; i < m; i++) lq[i] = cst(R(vq[i]));
        VX s = firstcol(S), t = firstcol(T), sq = firstcol(radd(col(va), col(lq))), tq = firstcol(rsub(col(va), col(lq))), uq = firstcol(rsub(col(lq), col(va)));
        PML::add(u, va, vb); expect(c, u, s, "add vectors"); u = dirtyVX(1); PML::sub(u, va, vb); expect(c, u, t, "sub vectors"); PML::add(u, va, vq); expect(c, u, sq, "add vectors"); u = dirtyVX(m); PML::add(u, vq, va); expect(c, u, sq, "add vectors"); PML::sub(u, va, vq); expect(c, u, tq, "sub vectors"); u = dirtyVX(m + 1); PML::sub(u, vq, va); expect(c, u, uq, "sub vectors");
        expect(c, va + vb, s, "+ vectors"); expect(c, va - vb, t, "- vectors"); expect(c, va + vq, sq, "+ vectors"); expect(c, vq + va, sq, "+ vectors"); expect(c, va - vq, tq, "- vectors"); expect(c, vq - va, uq, "- vectors");
        u = va; u += vb; expect(c, u, s, "+= vectors"); u = va; u -= vb; expect(c, u, t, "-= vectors"); u = va; u += vq; expect(c, u, sq, "+= vectors"); u = va; u -= vq; expect(c, u, tq, "-= vectors"); u = vb; PML::sub(u, va, u); expect(c, u, t, "sub vectors aliased right"); u = va; PML::sub(u, vq, u); expect(c, u, uq, "sub vectors aliased"); unchanged(c, va, ca, "vector operand");
    }
    for (long k : { 0L, 1L, md() - 1, elt(3, 3) })
    {
        zz_p s = Z(k % md()); MX W = scalm(a, cst(k % md())); w = D(0); PML::mul(w, A, s); expect(c, w, W, "scalar product"); w = D(1); PML::mul(w, s, A); expect(c, w, W, "scalar product"); w = a; PML::mul(w, w, s); expect(c, w, W, "scalar product aliased"); expect(c, A * s, W, "* scalar"); expect(c, s * A, W, "scalar *");
        if (n) { VX va = firstcol(a), u = dirtyVX(2); PML::mul(u, va, s); expect(c, u, firstcol(W), "scalar product of a vector"); PML::mul(u, s, va); expect(c, u, firstcol(W), "scalar product of a vector"); expect(c, va * s, firstcol(W), "* scalar"); expect(c, s * va, firstcol(W), "scalar *"); PML::mul(va, va, s); expect(c, va, firstcol(W), "scalar product aliased"); }
    }
    for (long k = 0; k < D_COUNT; k++)
    {
        zz_pX s = pat(k, wd + 1, 8); const zz_pX s0 = s; MX W = scalm(a, s); w = D(0); PML::mul(w, A, s); expect(c, w, W, "product by a polynomial"); w = D(1); PML::mul(w, s, A); expect(c, w, W, "product by a polynomial"); w = a; PML::mul(w, w, s); expect(c, w, W, "product by a polynomial, aliased"); expect(c, A * s, W, "* polynomial"); expect(c, s * A, W, "polynomial *");
        if (n) { VX va = firstcol(a), u = dirtyVX(2); PML::mul(u, va, s); expect(c, u, firstcol(W), "vector by polynomial"); PML::mul(u, s, va); expect(c, u, firstcol(W), "vector by polynomial"); expect(c, va * s, firstcol(W), "vector by polynomial"); expect(c, s * va, firstcol(W), "vector by polynomial"); PML::mul(va, va, s); expect(c, va, firstcol(W), "vector by polynomial"); }
        unchanged(c, s, s0, "polynomial operand");
    }
    for (long k = 0; k < 5; k++)
    {
        MP r = patM(k, n, wd, 6), l = patM(k, wd, m, 7); const MP r0 = r, l0 = l; MX W = rmul(a, lift(r)), V = rmul(lift(l), a);
        w = dirtyM(m, wd); PML::mul(w, A, r); expect(c, w, W, "product by a constant matrix"); w = dirtyM(1, 1); PML::mul(w, A, r); expect(c, w, W, "product by a constant matrix"); w = a; PML::mul(w, w, r); expect(c, w, W, "product by a constant matrix, aliased"); expect(c, A * r, W, "* constant matrix"); w = a; w *= r; expect(c, w, W, "*= constant matrix");
        w = dirtyM(wd, n); PML::mul(w, l, A); expect(c, w, V, "product of a constant matrix"); w = dirtyM(1, 1); PML::mul(w, l, A); expect(c, w, V, "product of a constant matrix"); w = a; PML::mul(w, l, w); expect(c, w, V, "product of a constant matrix, aliased"); expect(c, l * A, V, "constant matrix *");
        unchanged(c, r, r0, "constant operand"); unchanged(c, l, l0, "constant operand");
    }
    unchanged(c, A, a, "left operand"); unchanged(c, B, b, "right operand"); unchanged(c, q, qq, "constant operand"); c.interesting();
}
static const std::vector<long> PR = { 2, 3, P27, P60, FFT0 };
MC_SPACE(unary_ops, -1, 32)
{
    long p = c.from(PR, "p"), m = c.range(0, c.lim(2, 3, 5), "rows"), n = c.range(0, c.lim(3, 3, 5), "cols"), len = c.range(0, c.lim(2, 4, 6), "len"), k = c.choose(M_COUNT, "kind");
    if (!c.mine()) return;
    setp(p); unary(c, patX(k, m, n, len, 1), { -2, -1, 0, 1, 2, len, len + 1, len + 5 }); c.interesting();
}
MC_SPACE(unary_gf2, 0, 16)
{
    long m = c.range(1, 2, "rows"), n = c.range(1, 2, "cols"), len = c.range(1, c.lim(2, 2, 3), "len"); setp(2); long k = c.choose(ipow(2, m * n * len), "a");
    if (!c.mine()) return;
    setp(2); unary(c, nthX(k, m, n, len), { -1, 0, 1, 2, 3 }); c.interesting();
}
// long entries: conversions are blocked by 32 coefficients, 32 columns and 8 coefficients
MC_SPACE(conversions, 0, 32)
{
    long p = c.from({ P60, 2 }, "p"), m = c.from({ 1, 2 }, "rows"), n = c.from({ 1, 2, 31, 32, 33, 65 }, "cols"), len = c.from({ 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 70 }, "len"), k = c.from({ D_DENSE, M_UNBAL, M_ONE, D_TOP }, "kind"), o = c.from({ 0, 1, 8, 9, 32, 33, 66 }, "order");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, m, n, len, 1), A = a; VMP s, t; PML::conv(s, A); expectl(c, s.length(), dg(a) + 1, "number of coefficient matrices"); for (long i = 0; i < s.length(); i++) expect(c, MP(s[i]), coef(a, i), "coefficient matrix");
    MX w = dirtyM(m, n); PML::conv(w, s); expect(c, w, a, "back from coefficient matrices"); PML::conv(t, A, o); expectl(c, t.length(), o, "length"); for (long i = 0; i < o; i++) expect(c, MP(t[i]), coef(a, i), "coefficient matrix"); w = dirtyM(m, n); PML::conv(w, t); expect(c, w, rtrunc(a, o), "back"); w = dirtyM(m, n); PML::conv(w, s, o); expect(c, w, rtrunc(a, o), "back, at an order"); c.interesting();
}
MC_SPACE(binary_ops, -1, 32)
{
    long p = c.from(PR, "p"), m = c.range(0, c.lim(2, 3, 5), "rows"), n = c.range(0, c.lim(2, 3, 5), "cols"), la = c.range(0, c.lim(2, 3, 5), "lenA"), lb = c.range(0, c.lim(2, 3, 5), "lenB"), k = c.from({ D_DENSE, D_MAX, M_UNBAL, M_ONE }, "kindA"), l = c.choose(4, "kindB"), wd = c.range(0, c.lim(1, 3, 5), "width");
    if (!c.mine()) return;
    setp(p); MX a = patX(k, m, n, la, 1), b = l == 0 ? patX(D_DENSE, m, n, lb, 2) : l == 1 ? patX(M_UNBAL, m, n, lb, 3) : l == 2 ? patX(k, m, n, lb, 1) : mapM(a, [&](const zz_pX& x, long, long) { return radd(rneg(x), pat(D_CONST, lb, 3)); });
    binary(c, a, b, wd);
}
MC_SPACE(binary_cross, 0, 32)
{
    long p = c.from({ P23, P60, FFT0 }, "p"), m = c.from({ 1, 4 }, "rows"), n = c.from({ 2, 5 }, "cols"), la = c.from({ 1, 40, 130 }, "lenA"), lb = c.from({ 1, 39, 150 }, "lenB"), wd = c.from({ 1, 6, 33, 129 }, "width");
    if (!c.mine()) return;
    setp(p); binary(c, patX(D_DENSE, m, n, la, 1), patX(D_DENSE, m, n, lb, 2), wd);
}
// random generators: dimensions and degree bounds for every draw stream, and the bounds are reached by some stream
MC_SPACE(random_gen, 0, 8)
{
    long p = c.from({ 2, 3, P60 }, "p"), m = c.range(0, 3, "rows"), n = c.range(0, 3, "cols"), d = c.range(0, 4, "deg");
    if (!c.mine()) return;
    setp(p); VL rd, cd; for (long i = 0; i < m; i++) rd.push_back((d + 2 * i) % 5); for (long i = 0; i < n; i++) cd.push_back((d + 3 * i) % 5);
    Mat<long> dm; dm.SetDims(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) dm[i][j] = (d + i + 2 * j) % 4;
    std::vector<MX> best(5);
    auto see = [&](long w, const MX& a) { if (best[w].NumRows() == 0) best[w] = mx(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (dg(a[i][j]) > dg(best[w][i][j])) best[w][i][j] = a[i][j]; c.check(wellformed(a), "normal form"); };
    for (long s = 0; s < 60; s++)
    {
        NTL::SetSeed(NTL::ZZ(s)); rnd::reset({}, s);
        VX v = dirtyVX(s % 5); PML::random(v, n, d); expectl(c, v.length(), n, "length"); see(0, col(v));
        MX a = dirtyM(1, 2); PML::random(a, m, n, d); expectl(c, a.NumRows(), m, "rows"); expectl(c, a.NumCols(), n, "cols"); see(1, a);
        PML::random_mat_zz_pX_rdeg(a, m, n, rd); expectl(c, a.NumRows(), m, "rows"); expectl(c, a.NumCols(), n, "cols"); see(2, a);
        PML::random_mat_zz_pX_cdeg(a, m, n, cd); expectl(c, a.NumRows(), m, "rows"); expectl(c, a.NumCols(), n, "cols"); see(3, a);
        PML::random(a, dm); expectl(c, a.NumRows(), m, "rows"); expectl(c, a.NumCols(), n, "cols"); see(4, a);
        VMP t; PML::random(t, m, n, d); expectl(c, t.length(), d, "length"); for (long i = 0; i < d; i++) { expectl(c, t[i].NumRows(), m, "rows"); expectl(c, t[i].NumCols(), n, "cols"); }
    }
    for (long i = 0; i < n; i++) expectl(c, dg(best[0][i][0]), d - 1, "largest degree of a random vector entry");
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { expectl(c, dg(best[1][i][j]), d - 1, "largest degree"); expectl(c, dg(best[2][i][j]), rd[i] - 1, "largest degree, row bounds"); expectl(c, dg(best[3][i][j]), cd[j] - 1, "largest degree, column bounds"); expectl(c, dg(best[4][i][j]), dm[i][j] - 1, "largest degree, entry bounds"); }
    c.interesting();
}
