// C07: structured solvers over zz_p never return a wrong solution or inverse
#include "rnd.h"
#include "structured_lzz_p.h"
using namespace ref;

static MP hcat(const MP& a, const VP& b) { MP r = cm(a.NumRows(), a.NumCols() + 1); for (long i = 0; i < a.NumRows(); i++) { for (long j = 0; j < a.NumCols(); j++) r[i][j] = a[i][j]; r[i][a.NumCols()] = b[i]; } return r; }
static MP lead(const MP& a, long k) { MP r = cm(k, k); for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) r[i][j] = a[i][j]; return r; }
// generic rank profile: the leading principal minors up to the rank are non-zero
static bool grp(const MP& D, long rk) { for (long k = 1; k <= rk; k++) if (rdet(lead(D, k)) == 0) return false; return true; }
static long g_of_order(long ord) { for (long g = 2; g < md(); g++) { long x = g, o = 1; while (x != 1 && o <= ord) { x = mulm(x, g); o++; } if (o >= ord) return g; } return 0; }
static MP cauchy_like(const MP& g, const MP& h, long u, long v, long rho, bool* ok)
{
    long m = g.NumRows(), n = h.NumRows(); MP D = rmul(g, tr(h)); long a = u;
    for (long i = 0; i < m; i++, a = mulm(a, rho)) { long b = v; for (long j = 0; j < n; j++, b = mulm(b, rho)) { long d = subm(a, b); if (!d) { *ok = false; return D; } D[i][j] = Z(mulm(R(D[i][j]), invm(d))); } }
    *ok = true; return D;
}
// rho must keep its powers distinct up to max(m,n), and u rho^i, v rho^j disjoint
static bool points_ok(long u, long v, long rho, long m, long n)
{
    long N = std::max(m, n), x = 1; for (long i = 1; i < N; i++) { x = mulm(x, rho); if (x == 1) return false; }
    bool ok; cauchy_like(cm(m, 1), cm(n, 1), u, v, rho, &ok); return ok && u && v;
}
static void check_solution(mc::Ctx& c, const MP& D, const VP& b, long r, const VP& x, long rk, const char* what)
{
    if (!r) return;
    c.observe(hsh(x));
    if (x.length() == 0) { if (rrank(hcat(D, b)) == rk) c.fail("%s: reported unsolvable although solvable", what); return; }
    if (x.length() != D.NumCols() || !eq(rmul(D, x), b)) c.fail("%s: wrong solution", what);
    c.interesting();
}
static void cauchy_case(mc::Ctx& c, const MP& g, const MP& h, long u, long v, long rho, const std::vector<VP>& rhs, bool small)
{
    bool ok; MP D = cauchy_like(g, h, u, v, rho, &ok); long rk = rrank(D); bool isg = small ? grp(D, rk) : false;
    MP G = g, H = h; PML::cauchy_like_geometric_lzz_p M(G, H, Z(u), Z(v), Z(rho));
    for (long ta : { -1, 1, 2, 100 }) for (long th : { -1, 2 })
    {
        PML::cauchy_like_geometric_lzz_p I; long r = M.invert_leading_principal_minor_grp(I, th, ta); c.call(); c.observe(r);
        if (r != 0 && r != 1) c.fail("invert returned %ld", r);
        if (small && isg && !r) c.fail("generic rank profile rejected (thresh_alpha %ld)", ta);
        if (r)
        {
            if (I.NumRows() != rk || I.NumCols() != rk) c.fail("inverse of a minor of size %ld, rank is %ld", I.NumRows(), rk);
            if (rk) { MP E = I.to_dense(); if (!eq(rmul(lead(D, rk), E), identP(rk))) c.fail("wrong inverse (thresh_alpha %ld)", ta); c.interesting(); }
        }
        for (auto& b : rhs)
        {
            VP x = dirtyV(2); long s = M.solve_grp(x, b, th, ta); c.call(); if (small && isg && !s) c.fail("solve rejects a generic rank profile");
            check_solution(c, D, b, s, x, rk, "Cauchy-like solve");
        }
        if (!small) break;
    }
    { PML::cauchy_like_geometric_lzz_p I(g, h, Z(u), Z(v), Z(rho)); long r = I.invert_leading_principal_minor_grp(I); if (r && rk && !eq(rmul(lead(D, rk), I.to_dense()), identP(rk))) c.fail("wrong inverse, in place"); }
    if (g.NumCols() == 0) return;
}
static std::vector<VP> rhs_of(const MP& D)
{
    std::vector<VP> v; long m = D.NumRows(), n = D.NumCols(); v.push_back(patV(0, m, 21)); v.push_back(patV(4, m, 0)); v.push_back(rmul(D, patV(0, n, 22))); v.push_back(patV(2, m, 1)); return v;
}
// all rank-1 generators over GF(7), GF(5): every kernel pattern
MC_SPACE(cauchy_gf, -1, 32)
{
    long p = c.from({ 5, 7 }, "p"), m = c.range(1, 3, "rows"), n = c.range(1, 3, "cols"), u = 1, v = c.range(2, p - 1, "v"), rho = c.range(1, p - 1, "rho");
    setp(p); if (!points_ok(u, v, rho, m, n)) return;
    long g = c.choose(ipow(p, m) / (m == 3 && c.tier <= 0 ? 3 : 1), "g"), h = c.choose(n == 3 ? (c.thorough() ? 125 : 40) : ipow(p, n), "h");
    if (!c.mine()) return;
    setp(p); rnd::reset({}, 1); MP G = nthP(g, m, 1), H = nthP(h, n, 1); bool ok; cauchy_case(c, G, H, u, v, rho, rhs_of(cauchy_like(G, H, u, v, rho, &ok)), true);
}
MC_SPACE(cauchy_gf_rank2, 0, 32)
{
    long p = c.from({ 5, 7 }, "p"), v = c.range(2, p - 1, "v"), rho = c.range(2, p - 1, "rho"), m = 2, n = c.range(2, 3, "cols");
    setp(p); if (!points_ok(1, v, rho, m, n)) return;
    long g = c.choose(c.thorough() ? ipow(p, 4) : 125, "g"), h = c.choose(c.thorough() ? 625 : 60, "h");
    if (!c.mine()) return;
    setp(p); rnd::reset({}, 1); MP G = nthP(g * (p == 7 ? 19 : 5) + 1, m, 2), H = nthP(h * 10 + 3, n, 2); bool ok; cauchy_case(c, G, H, 1, v, rho, rhs_of(cauchy_like(G, H, 1, v, rho, &ok)), true);
}
// structured ranks: generators of rank < alpha, zero rows at each position, all sizes and alphas
MC_SPACE(cauchy_sizes, 0, 32)
{
    long p = c.from({ P16, P60, FFT0, P23 }, "p"), al = c.range(1, c.lim(3, 5, 8), "alpha"), m = c.range(1, c.lim(4, 10, 13), "rows"), n = c.range(1, c.lim(4, 10, 13), "cols"), kind = c.choose(6, "kind"), pos = (kind >= 2 && kind <= 4) ? c.choose(std::min(m, n), "position") : 0;
    if (!c.thorough() && kind >= 2 && kind <= 4 && p != P60 && p != P23) return;
    if (!c.mine()) return;
    setp(p); rnd::reset({}, 1); long rho = g_of_order(60); MP G = patM(0, m, al, 5), H = patM(0, n, al, 6);
    if (kind == 1) for (long i = 0; i < m; i++) for (long j = 1; j < al; j++) G[i][j] = G[i][0];              // repeated generators
    if (kind == 2) for (long i = pos; i < m; i++) for (long j = 0; j < al; j++) G[i][j] = Z(0);                // rank drops to pos
    if (kind == 3) for (long j = 0; j < al; j++) G[pos][j] = Z(0);                                             // one zero row: not grp unless last
    if (kind == 4) for (long j = 0; j < al; j++) H[pos][j] = Z(0);
    if (kind == 5) { G = patM(1, m, al, 5); H = patM(1, n, al, 6); }
    bool ok; long v = 77777 % md(); MP D = cauchy_like(G, H, 1, v, rho, &ok); if (!ok) return;
    cauchy_case(c, G, H, 1, v, rho, rhs_of(D), true);
}
// the divide and conquer path (size at least 200)
MC_SPACE(cauchy_dac, 0, 64)
{
    long p = c.from({ P60, FFT0, P23 }, "p"), al = c.from({ 1, 2, 8, 16 }, "alpha"), m = c.from({ 200, 203 }, "rows"), n = c.from({ 200, 205 }, "cols"), rk = c.from({ 1000, 0, 1, 50, 100, 101, 150, 199 }, "rank");
    if (!c.thorough() && (m != n || rk > 2) && (al == 8 || p == FFT0)) return;
    if (!c.mine()) return;
    setp(p); rnd::reset({}, 1); long rho = g_of_order(1000); MP G = patM(0, m, al, 5), H = patM(0, n, al, 6); for (long i = rk; i < m; i++) for (long j = 0; j < al; j++) G[i][j] = Z(0);
    bool ok; long v = 7777777 % md(); MP D = cauchy_like(G, H, 1, v, rho, &ok); if (!ok) return; long R_ = std::min(std::min(m, n), rk);
    PML::cauchy_like_geometric_lzz_p M(G, H, Z(1), Z(v), Z(rho)), I; long r = M.invert_leading_principal_minor_grp(I); c.call();
    if (r) { if (I.NumRows() != R_) c.fail("minor of size %ld instead of %ld", I.NumRows(), R_); MP W = R_ ? patM(0, R_, 3, 9) : cm(0, 3); if (R_ && !eq(rmul(lead(D, R_), I.mul_right(W)), W)) c.fail("wrong inverse"); c.interesting(); }
    else if (p != P23) c.fail("generic system rejected");
    VP x, b = rmul(D, patV(0, n, 3)); long s = M.solve_grp(x, b); if (s && (x.length() != n || !eq(rmul(D, x), b))) c.fail("wrong solution"); if (rk < m) { b[m - 1] = Z(addm(R(b[m - 1]), 1)); s = M.solve_grp(x, b); if (s && x.length()) c.fail("solution of an inconsistent system"); }
    c.observe(hsh(x));
}
// the same path on matrices without generic rank profile: a zero row (column) at every kind of position, a top left block of defective rank,
// with or without anything beyond it
MC_SPACE(cauchy_dac_defect, 0, 64)
{
    long p = c.from({ P60, FFT0, P23 }, "p"), al = c.from({ 1, 3, 8, 16 }, "alpha"), m = c.from({ 200, 207 }, "rows"), n = c.from({ 200, 205 }, "cols"), kind = c.choose(6, "kind"), pos = c.from({ 0, 1, 49, 50, 98, 99, 100, 101, 102, 103, 104, 149, 150, 152, 198, 199, 200, 206 }, "position");
    if (kind % 2 ? pos >= n : pos >= m) return; if (kind >= 4 && pos >= std::min(m, n)) return;
    if (!c.thorough() && ((p == FFT0) != (al == 3) || (p == P23) != (al == 8) || (m == 207 && n == 205 && kind % 2) || (pos % 50 != 0 && pos % 50 != 49 && pos != 101 && pos != 206) || (m != n && al != 1))) return; if (c.tier < 0 && (m != n || pos % 50)) return;
    if (!c.mine()) return;
    setp(p); rnd::reset({}, 1); long rho = g_of_order(1000); MP G = patM(0, m, al, 5), H = patM(0, n, al, 6); const long N = std::min(m, n), N1 = (N + 1) / 2;
    if (kind == 0) for (long j = 0; j < al; j++) G[pos][j] = Z(0);                                                    // one zero row
    if (kind == 1) for (long j = 0; j < al; j++) H[pos][j] = Z(0);                                                    // one zero column
    if (kind == 2) for (long i = pos; i < std::max(N1, pos + 1); i++) for (long j = 0; j < al; j++) G[i][j] = Z(0);   // rows pos ... of the first half
    if (kind == 3) for (long i = pos; i < std::max(N1, pos + 1); i++) for (long j = 0; j < al; j++) H[i][j] = Z(0);
    if (kind == 4) { for (long i = pos; i < m - 1; i++) for (long j = 0; j < al; j++) G[i][j] = Z(0); }                 // rank pos, plus the last row
    if (kind == 5) { for (long i = pos; i < n - 1; i++) for (long j = 0; j < al; j++) H[i][j] = Z(0); }
    bool ok; long v = 7777777 % md(); MP D = cauchy_like(G, H, 1, v, rho, &ok); if (!ok) return; const long rk = rrank(D);
    PML::cauchy_like_geometric_lzz_p M(G, H, Z(1), Z(v), Z(rho)), I; long r = M.invert_leading_principal_minor_grp(I); c.call(); c.observe(r * 1000 + rk); if (!r) c.interesting();
    if (r) { if (I.NumRows() != rk || I.NumCols() != rk) { c.fail("minor of size %ld, the rank is %ld", I.NumRows(), rk); return; } MP W = rk ? patM(0, rk, 3, 9) : cm(0, 3); if (rk && !eq(rmul(lead(D, rk), I.mul_right(W)), W)) c.fail("wrong inverse"); }
    for (long e = 0; e < 2; e++) { VP x = dirtyV(3), b = rmul(D, patV(0, n, 3)); if (e) b[pos < m ? pos : m - 1] = Z(addm(R(b[pos < m ? pos : m - 1]), 1)); long s = M.solve_grp(x, b); c.call(); if (s != r) c.fail("inversion and solving disagree on the rank profile"); if (s && x.length() && (x.length() != n || !eq(rmul(D, x), b))) c.fail("wrong solution"); if (s && !e && !x.length()) c.fail("reported unsolvable although solvable"); }
}
// ---------------------------------------------------------------- mosaics
template <class B, class Q, class I_> static void mosaic(mc::Ctx& c, bool hk, const std::vector<long>& rs, const std::vector<long>& cs, const std::vector<long>& script, long kind, bool must, long seed, long stream = 1)
{
    long n = 0, m = 0; for (long r : rs) n += r; for (long r : cs) m += r; Vec<Vec<B> > init; init.SetLength(rs.size()); MP D = cm(n, m); long i0 = 0;
    for (size_t a = 0; a < rs.size(); a++)
    {
        init[a].SetLength(cs.size()); long j0 = 0;
        for (size_t b = 0; b < cs.size(); b++)
        {
            VP d; long L = rs[a] + cs[b] - 1; d.SetLength(L);
            if (kind < 5) d = patV(kind, L, 1000 * seed + 100 * a + b + 1);
            else if (kind == 5) d = patV(a == b ? 0 : 4, L, a + 1);
            else { long x = elt(seed, a * 10 + b), q = 3; for (long i = 0; i < L; i++) { d[i] = Z(x); x = mulm(x, q); } }    // rank one blocks
            init[a][b] = B(d, rs[a], cs[b]); for (long i = 0; i < rs[a]; i++) for (long j = 0; j < cs[b]; j++) D[i0 + i][j0 + j] = hk ? d[rs[a] + cs[b] - 2 - i - j] : d[cs[b] - 1 + i - j]; j0 += cs[b];
        }
        i0 += rs[a];
    }
    Q M(init); long rk = rrank(D);
    for (auto& b : rhs_of(D)) for (long ta : { -1, 1 })
    {
        rnd::reset(script, stream); VP x = dirtyV(3); long s = M.solve(x, b, -1, ta); c.call(); check_solution(c, D, b, s, x, rk, "mosaic solve");
        if (must && !s) c.fail("mosaic solve failed on a large field");
    }
    if (n == m) for (long ta : { -1, 1 })
    {
        rnd::reset(script, stream); I_ V; long s = M.inv(V, -1, ta); c.call(); c.observe(s);
        if (s) { if (rk < n) c.fail("inverse of a singular matrix"); if (!eq(rmul(D, V.to_dense()), identP(n))) c.fail("wrong mosaic inverse"); c.interesting(); }
        else if (must && rk == n) c.fail("mosaic inverse failed on a large field");
    }
}
static void both(mc::Ctx& c, long hk, const std::vector<long>& rs, const std::vector<long>& cs, const std::vector<long>& script, long kind, bool must, long seed, long stream = 1)
{
    if (hk) mosaic<PML::hankel_lzz_p, PML::mosaic_hankel_lzz_p, PML::hankel_like_minus_lzz_p>(c, true, rs, cs, script, kind, must, seed, stream);
    else mosaic<PML::toeplitz_lzz_p, PML::mosaic_toeplitz_lzz_p, PML::toeplitz_like_minus_lzz_p>(c, false, rs, cs, script, kind, must, seed, stream);
}
MC_SPACE(mosaics, -1, 32)
{
    long hk = c.choose(2, "hankel"), p = c.from({ P60, FFT0 }, "p"), nb = c.range(1, 2, "block rows"), mb = c.range(1, 2, "block cols"), k = c.from({ 0, 1, 2, 3, 4, 5, 6 }, "kind"); std::vector<long> rs, cs;
    for (long i = 0; i < nb; i++) rs.push_back(c.range(1, c.lim(2, 4, 5), "h")); for (long i = 0; i < mb; i++) cs.push_back(c.range(1, c.lim(2, 4, 5), "w"));
    if (!c.mine()) return;
    setp(p); both(c, hk, rs, cs, {}, k, true, 1);
}
// every value of the first draws of the diagonal randomisation over a small field (after the point choices)
MC_SPACE(mosaic_draws, 0, 32)
{
    long hk = c.choose(2, "hankel"), p = c.from({ 31, 61 }, "p"), n = c.range(1, 3, "n"), m = c.range(1, 3, "m"), k = c.from({ 0, 2, 6 }, "kind"), a = c.from({ 3, 2 }, "a"), cc = c.from({ 7, 1, 0, 11 }, "c"), z = c.choose(1L << (n + m), "zero draws");
    if (p == 31 && a == 2) return;
    if (!c.mine()) return;
    setp(p); std::vector<long> s = { a, cc }; if (cc == 0 || cc == 1) s.push_back(7); for (long i = 0; i < n + m; i++) s.push_back((z >> i) & 1 ? 0 : 1 + elt(3, i) % (p - 1));
    both(c, hk, { n }, { m }, s, k, false, 1);
}
MC_SPACE(mosaic_small_field, 0, 32)
{
    long hk = c.choose(2, "hankel"), p = c.from({ 11, 29, 31, 37, 41, 61, 101, 257, 1009 }, "p"), n = c.range(1, 5, "n"), m = c.range(1, 5, "m"), k = c.from({ 0, 6 }, "kind"), st = c.range(1, c.lim(2, 8, 30), "stream"), split = c.choose(2, "split");
    if (!c.mine()) return;
    setp(p); std::vector<long> rs = { n }, cs = { m }; if (split) { rs = { 1, n }; cs = { m, 1 }; } both(c, hk, rs, cs, {}, k, false, st, st);
}
MC_SPACE(mosaic_big, 0, 16)
{
    long hk = c.choose(2, "hankel"), p = c.from({ P60, FFT0 }, "p"), n = c.from({ 20, 70 }, "n"), sh = c.choose(4, "shape");
    if (!c.mine()) return;
    setp(p); std::vector<long> rs, cs; if (sh == 0) { rs = { n }; cs = { n }; } if (sh == 1) { rs = { n / 2, n - n / 2 }; cs = { n / 3, n - n / 3 }; } if (sh == 2) { rs = { n, 3 }; cs = { n - 5, 1, 1 }; } if (sh == 3) { for (long i = 0; i < 10; i++) rs.push_back(n / 10); cs = { n - 4, 2, 2 }; }
    both(c, hk, rs, cs, {}, 0, true, 1);
}
MC_SPACE(mosaic_dac, 1, 8)
{
    long hk = c.choose(2, "hankel"), sh = c.choose(2, "shape");
    if (!c.mine()) return;
    setp(P60); std::vector<long> rs, cs; if (sh == 0) { rs = { 205 }; cs = { 205 }; } else { rs = { 100, 105 }; cs = { 205 }; } both(c, hk, rs, cs, {}, 0, true, 1);
}
// ---------------------------------------------------------------- Sylvester
static MP sylv(const zz_pX& a, const zz_pX& b)
{
    long da = dg(a), db = dg(b), n = da + db; MP D = cm(n, n);
    for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = Z(C(a, j)); for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = Z(C(b, j)); return D;
}
static void sylvester(mc::Ctx& c, const zz_pX& a, const zz_pX& b, bool big)
{
    PML::sylvester_lzz_p M(a, b); MP D = sylv(a, b); long n = D.NumRows(); bool inv = dg(rgcd(a, b)) == 0; MP DI; if (inv) DI = rinverse(D);
    for (int prep = 0; prep < 2; prep++)
    {
        if (prep) M.prepare_inverse();
        for (auto& v : { patV(0, n, 31), patV(4, n, 0), patV(2, n, 0), patV(3, n, 1), patV(1, n, 1) })
        {
            VP V = v, x = dirtyV(n + 2); long r = M.solve(x, V); expectl(c, r, inv, "solve verdict"); unchanged(c, V, v, "rhs"); if (r) expect(c, x, rmul(DI, v), "solution"); else expectl(c, x.length(), 0, "no solution vector");
            r = M.solve(V, V); expectl(c, r, inv, "solve verdict, aliased"); if (r) expect(c, V, rmul(DI, v), "solution, aliased"); V = v;
            x = dirtyV(1); r = M.solve_transpose(x, V); expectl(c, r, inv, "transposed verdict"); unchanged(c, V, v, "rhs"); if (r) expect(c, x, rmul(v, DI), "transposed solution"); else expectl(c, x.length(), 0, "no solution vector");
            r = M.solve_transpose(V, V); if (r) expect(c, V, rmul(v, DI), "transposed solution, aliased"); if (big) break;
        }
        MP A = patM(0, n, 3, 2), B = patM(0, 2, n, 3), X = dirtyC(n, 3); long r = M.solve(X, A); expectl(c, r, inv, "matrix verdict"); if (r) expect(c, X, rmul(DI, A), "matrix solution"); r = M.solve(A, A); if (r) expect(c, A, rmul(DI, patM(0, n, 3, 2)), "matrix solution, aliased");
        X = dirtyC(1, 1); r = M.solve_transpose(X, B); expectl(c, r, inv, "transposed matrix verdict"); if (r) expect(c, X, rmul(B, DI), "transposed matrix solution"); r = M.solve_transpose(B, B); if (r) expect(c, B, rmul(patM(0, 2, n, 3), DI), "transposed matrix solution, aliased");
    }
    { PML::sylvester_lzz_p N(a, b); PML::toeplitz_like_minus_lzz_p I; long r = N.inv(I); expectl(c, r, inv, "inverse verdict"); if (r) { expect(c, I.to_dense(), DI, "inverse"); c.interesting(); } }
    for (long m = 1; m <= n; m = (big && m > 2 && m < n - 2) ? std::min(n - 2, m + std::max(1L, n / 4)) : m + 1)
    {
        PML::sylvester_lzz_p N(a, b); MP K = dirtyC(m, 2); long r = N.top_right_block_inverse(K, m); expectl(c, r, inv, "block verdict"); if (!r) break;
        MP W = cm(m, m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) W[i][j] = DI[i][n - m + j]; expect(c, K, W, "top right block of the inverse");
    }
}
MC_SPACE(sylvester_gf, -1, 32)
{
    long p = c.from({ 2, 3 }, "p"), L = p == 2 ? c.lim(3, 5, 5) : c.lim(2, 3, 4), a = c.range(p, ipow(p, L) - 1, "a"), b = c.range(p, ipow(p, L) - 1, "b");
    if (!c.mine()) return;
    setp(p); sylvester(c, nth(a, L), nth(b, L), false);
}
MC_SPACE(sylvester_sizes, 0, 32)
{
    long p = c.from({ P60, FFT0, P23, P16, P30 }, "p"), da = c.range(1, c.lim(3, 8, 12), "deg a"), db = c.range(1, c.lim(3, 8, 12), "deg b"), k = c.choose(5, "kind");
    if (!c.mine()) return;
    setp(p); zz_pX a = pat(D_DENSE, da + 1, 3), b = pat(D_DENSE, db + 1, 4);
    if (k == 1) { zz_pX f = mk({ 3, 1 }); a = rmul(f, pat(D_DENSE, da, 3)); b = rmul(f, pat(D_DENSE, db, 4)); }      // common factor
    if (k == 2) { a = pat(D_TOP, da + 1, 2); } if (k == 3) { b = pat(D_TOP, db + 1, 2); } if (k == 4) { a = rmonic(a); b = rmonic(b); }
    if (dg(a) < 1 || dg(b) < 1) return; sylvester(c, a, b, false);
}
MC_SPACE(sylvester_big, 0, 32)
{
    long p = c.from({ P60, FFT0, P23 }, "p"), da = c.from({ 1, 20, 33, 45 }, "deg a"), db = c.from({ 1, 2, 21, 40 }, "deg b");
    if (!c.mine()) return;
    setp(p); sylvester(c, pat(D_DENSE, da + 1, 3), pat(D_DENSE, db + 1, 4), true);
}
