// C21: bivariate polynomials
#include "mc.h"
#include "rnd.h"
#include "lzz_pXY.h"
#include <sstream>
#include <set>
using namespace ref;
using PML::zz_pXY;
static zz_pXY Y(VX v) { long k = v.length(); while (k > 0 && dg(v[k - 1]) < 0) k--; v.SetLength(k); zz_pXY f; f.rep = v; return f; }
static VX vx(long n) { VX v; v.SetLength(n); return v; }
static bool ok(const zz_pXY& f) { for (long i = 0; i < f.rep.length(); i++) if (!wellformed(f.rep[i])) return false; return f.rep.length() == 0 || dg(f.rep[f.rep.length() - 1]) >= 0; }
static const zz_pX& co(const zz_pXY& f, long i) { static const zz_pX z; return i < 0 || i >= f.rep.length() ? z : f.rep[i]; }
static bool eqY(const zz_pXY& a, const zz_pXY& b) { return ok(a) && a.rep.length() == b.rep.length() && eq(a.rep, b.rep); }
static void exp_(mc::Ctx& c, const zz_pXY& got, const zz_pXY& want, const char* w) { c.call(); c.observe(hsh(got.rep)); if (!eqY(got, want)) c.fail("%s: got %s want %s", w, str(got.rep).c_str(), str(want.rep).c_str()); }
static zz_pXY nthY(long k, long dx, long dy) { VX v = vx(dy); const long Q = ipow(md(), dx); for (long i = 0; i < dy; i++) { v[i] = nth(k % Q, dx); k /= Q; } return Y(v); }
static zz_pXY rY(const zz_pXY& a, const zz_pXY& b, int op)
{
    if (op == 2) { VX v = vx(std::max(0L, (long) a.rep.length() + (long) b.rep.length() - 1)); for (long i = 0; i < a.rep.length(); i++) for (long j = 0; j < b.rep.length(); j++) v[i + j] = radd(v[i + j], rmul(a.rep[i], b.rep[j])); return Y(v); }
    VX v = vx(std::max(a.rep.length(), b.rep.length())); for (long i = 0; i < v.length(); i++) v[i] = op ? rsub(co(a, i), co(b, i)) : radd(co(a, i), co(b, i)); return Y(v);
}
static zz_pXY dirtyY() { VX v = vx(6); for (long i = 0; i < 6; i++) v[i] = dirtyP(); return Y(v); }
static void binary(mc::Ctx& c, const zz_pXY& a0, const zz_pXY& b0)
{
    zz_pXY a = a0, b = b0; const zz_pXY S = rY(a0, b0, 0), D = rY(a0, b0, 1), P = rY(a0, b0, 2); if (P.rep.length() > 1) c.interesting();
#define OUT(f, want, n) { zz_pXY r = dirtyY(); f(r, a, b); exp_(c, r, want, n); c.check(eqY(a, a0) && eqY(b, b0), n " modified an operand"); \
    { zz_pXY u = a0; f(u, u, b); exp_(c, u, want, n " (a aliased)"); } { zz_pXY u = b0; f(u, a, u); exp_(c, u, want, n " (b aliased)"); } { zz_pXY u = a0, w2 = dirtyY(); f(w2, u, u); zz_pXY u2 = a0; f(u2, u2, u2); exp_(c, u2, w2, n " (all aliased)"); } }
    OUT(PML::add, S, "add") OUT(PML::sub, D, "sub") OUT(PML::mul, P, "mul") OUT(PML::mul_naive, P, "mul_naive") OUT(PML::mul_kronecker, P, "mul_kronecker")
    exp_(c, a + b, S, "operator+"); exp_(c, a - b, D, "operator-"); exp_(c, a * b, P, "operator*"); exp_(c, PML::mul_naive(a, b), P, "mul_naive (value)"); exp_(c, PML::mul_kronecker(a, b), P, "mul_kronecker (value)");
    const bool e = eqY(a0, b0); c.check((a == b) == e && (a != b) == !e, "equality test");
}
static void unary(mc::Ctx& c, const zz_pXY& a0, long k)
{
    zz_pXY a = a0; long tx = -1, dx = -1; for (long i = 0; i < a0.rep.length(); i++) { dx = std::max(dx, dg(a0.rep[i])); if (dg(a0.rep[i]) >= 0) tx = std::max(tx, i + dg(a0.rep[i])); }
    c.check(a.degX() == dx && a.degY() == a0.rep.length() - 1 && (a.is_zero() != 0) == (a0.rep.length() == 0), "degX / degY / is_zero"); if (a.tdeg() != tx) c.fail("tdeg: %ld instead of %ld", a.tdeg(), tx);
    { VX v = a0.rep; v.SetLength(v.length() + 2); zz_pXY b(v); exp_(c, b, a0, "constructor from a padded vector"); zz_pXY d; d.rep = v; d.normalize(); exp_(c, d, a0, "normalize"); d.zero(); exp_(c, d, zz_pXY(), "zero"); }
    { const zz_pX& x = co(a0, 0); zz_pXY b(x); VX v = vx(1); v[0] = x; exp_(c, b, Y(v), "constructor from a univariate polynomial"); }
    { std::ostringstream s, t; s << a; t << a0.rep; c.check(s.str() == t.str(), "operator<<"); }
    for (long e : { 0L, 1L, md() - 1, k })
    {
        VX v = vx(a0.rep.length()); for (long i = 0; i < v.length(); i++) v[i] = cst(ev(a0.rep[i], e % md())); VL w; for (long i = 0; i < v.length(); i++) w.push_back(C(v[i], 0)); zz_pX r = dirtyP(); PML::evaluate(r, a, Z(e % md())); c.call(); if (!eq(r, mk(w))) c.fail("evaluate at %ld: %s", e, str(r).c_str()); if (!eq(PML::evaluate(a, Z(e % md())), mk(w))) c.fail("evaluate (value) at %ld", e);
        for (long i = 0; i < v.length(); i++) v[i] = scal(a0.rep[i], e % md()); zz_pXY b = dirtyY(); PML::mul(b, a, Z(e % md())); exp_(c, b, Y(v), "mul by a scalar"); b = a0; PML::mul(b, b, Z(e % md())); exp_(c, b, Y(v), "mul by a scalar (aliased)"); exp_(c, a * Z(e % md()), Y(v), "operator* by a scalar");
    }
    for (long s = -4; s <= 4; s++)
    {
        VX v = vx(a0.rep.length()); for (long i = 0; i < v.length(); i++) v[i] = shl(a0.rep[i], s); zz_pXY b = dirtyY(); PML::shift_x(b, a, s); exp_(c, b, Y(v), "shift_x"); b = a0; PML::shift_x(b, b, s); exp_(c, b, Y(v), "shift_x (aliased)"); exp_(c, PML::shift_x(a, s), Y(v), "shift_x (value)");
        VX w = vx(std::max(0L, (long) a0.rep.length() + s)); for (long i = 0; i < w.length(); i++) w[i] = co(a0, i - s); b = dirtyY(); PML::shift_y(b, a, s); exp_(c, b, Y(w), "shift_y"); b = a0; PML::shift_y(b, b, s); exp_(c, b, Y(w), "shift_y (aliased)"); exp_(c, PML::shift_y(a, s), Y(w), "shift_y (value)");
        if (s < 0) continue;
        for (long i = 0; i < v.length(); i++) v[i] = rtrunc(a0.rep[i], s); b = dirtyY(); PML::trunc_x(b, a, s); exp_(c, b, Y(v), "trunc_x"); b = a0; PML::trunc_x(b, b, s); exp_(c, b, Y(v), "trunc_x (aliased)"); exp_(c, PML::trunc_x(a, s), Y(v), "trunc_x (value)");
        w = vx(s); for (long i = 0; i < s; i++) w[i] = co(a0, i); b = dirtyY(); PML::trunc_y(b, a, s); exp_(c, b, Y(w), "trunc_y"); b = a0; PML::trunc_y(b, b, s); exp_(c, b, Y(w), "trunc_y (aliased)"); exp_(c, PML::trunc_y(a, s), Y(w), "trunc_y (value)");
        for (long t = 0; t < 3; t++) { const zz_pX z = t == 0 ? zz_pX() : t == 1 ? cst(1) : dirtyP(); b = a0; PML::SetCoeff(b, s, z); w = vx(std::max((long) a0.rep.length(), s + 1)); for (long i = 0; i < w.length(); i++) w[i] = i == s ? z : co(a0, i); exp_(c, b, Y(w), "SetCoeff"); }
    }
    for (long s = std::max(0L, dx); s <= std::max(0L, dx) + 2; s++)
    {
        VL w; for (long i = 0; i < a0.rep.length(); i++) for (long j = 0; j <= s; j++) w.push_back(C(a0.rep[i], j)); zz_pX r = dirtyP(); PML::to_kronecker(r, a, s); c.call(); if (!eq(r, mk(w))) c.fail("to_kronecker"); r = dirtyP(); PML::to_kronecker(r, a.rep, s); if (!eq(r, mk(w))) c.fail("to_kronecker (vector)");
        zz_pXY b = dirtyY(); PML::from_kronecker(b, mk(w), s); exp_(c, b, a0, "from_kronecker"); VX v = dirtyVX(3); PML::from_kronecker(v, mk(w), s); if (!eq(v, a0.rep)) c.fail("from_kronecker (vector)");
    }
    c.check(eqY(a, a0), "operand modified"); if (tx > 1) c.interesting();
}
MC_SPACE(unary_tiny, 0, 48)
{
    static const long S[5][3] = { { 2, 2, 3 }, { 3, 2, 2 }, { 2, 3, 3 }, { 5, 2, 2 }, { 2, 3, 4 } };
    long w = c.choose(c.lim(2, 4, 5), "shape"); const long p = S[w][0]; long k = c.choose(ipow(p, S[w][1] * S[w][2]), "f");
    if (!c.mine()) return;
    setp(p); unary(c, nthY(k, S[w][1], S[w][2]), 2);
}
MC_SPACE(binary_tiny, -1, 96)
{
    static const long S[5][3] = { { 2, 2, 2 }, { 3, 1, 3 }, { 3, 2, 2 }, { 2, 2, 3 }, { 5, 1, 3 } };
    long w = c.choose(c.lim(2, 4, 5), "shape"); const long p = S[w][0], Q = ipow(p, S[w][1] * S[w][2]); long k = c.choose(Q, "f"), l = c.choose(Q, "g");
    if (!c.mine()) return;
    setp(p); binary(c, nthY(k, S[w][1], S[w][2]), nthY(l, S[w][1], S[w][2]));
}
static zz_pXY patY(long t, long dx, long dy, long s)
{
    VX v = vx(dy); for (long i = 0; i < dy; i++) switch (t)
    {
        case 0: v[i] = pat(D_DENSE, dx, s * 50 + i); break; case 1: v[i] = pat(D_MAX, dx, i); break; case 2: v[i] = i == dy - 1 ? mono(1, dx - 1) : zz_pX(); break; case 3: v[i] = i % 2 ? zz_pX() : pat(D_DENSE, 1 + i % dx, s * 50 + i); break;
        case 4: v[i] = pat(D_DENSE, std::max(0L, dx - i), s * 50 + i); break; case 5: v[i] = i == 0 ? pat(D_DENSE, dx, s) : i == dy - 1 ? cst(1) : zz_pX(); break; case 6: v[i] = cst(elt(s, i)); break;
    }
    return Y(v);
}
MC_SPACE(shapes, 0, 96)
{
    const VL D = c.thorough() ? VL{ 1, 2, 3, 7, 16, 17, 40 } : VL{ 1, 2, 5, 17 }; long p = c.from({ 2, 97, P60, FFT0 }, "p"), ta = c.choose(7, "a"), tb = c.choose(7, "b"), dxa = c.from(D, "dxa"), dya = c.from(D, "dya"), dxb = c.from(D, "dxb"), dyb = c.from(D, "dyb");
    if (dxa * dya * dxb * dyb > 5000 && (ta + tb) % 3) return;
    if (!c.mine()) return;
    setp(p); const zz_pXY a = patY(ta, dxa, dya, 1), b = patY(tb, dxb, dyb, 2); binary(c, a, b); if (dxb == 1 && dyb == 1 && tb == 0) unary(c, a, 3 % p);
}
// the generator: every seed of a range; over a small field every polynomial of the announced shape must show up
MC_SPACE(random_draws, -1, 8)
{
    long p = c.from({ 2, 3 }, "p"), dx = c.range(1, 2, "dx"), dy = c.range(0, p == 2 ? 2 : 1, "dy");
    if (!c.mine()) return;
    setp(p); std::set<long> seen; const long Q = ipow(p, dx * dy);
    for (long s = 0; s < 300; s++)
    {
        NTL::SetSeed(NTL::to_ZZ(s)); zz_pXY f = dirtyY(); if (s & 1) PML::random_zz_pXY(f, dx, dy); else f = PML::random_zz_pXY(dx, dy); c.call();
        if (!ok(f)) { c.fail("random_zz_pXY: result not normalized: %s", str(f.rep).c_str()); return; } if (f.degX() >= dx || f.degY() >= dy) { c.fail("random_zz_pXY: degree too large"); return; }
        long k = 0; for (long i = dy - 1; i >= 0; i--) for (long j = dx - 1; j >= 0; j--) k = k * p + C(co(f, i), j); seen.insert(k); c.observe(k);
    }
    if ((long) seen.size() != Q) c.fail("random_zz_pXY never produces %ld of the %ld polynomials", Q - (long) seen.size(), Q); if (Q > 2) c.interesting();
}
// ------------------------------------------------------------------ resultants
static zz_pX syl(const zz_pXY& f, const zz_pXY& g)
{
    const long n = f.rep.length() - 1, m = g.rep.length() - 1; if (n < 0 || m < 0) return zz_pX(); if (n + m == 0) return cst(1); MX S = mx(n + m, n + m);
    for (long i = 0; i < m; i++) for (long j = 0; j <= n; j++) S[i][i + j] = f.rep[n - j]; for (long i = 0; i < n; i++) for (long j = 0; j <= m; j++) S[m + i][i + j] = g.rep[m - j];
    return rdet(S);
}
static bool check_res(mc::Ctx& c, const zz_pXY& f0, const zz_pXY& g0, bool must)
{
    zz_pXY f = f0, g = g0; zz_pX r = dirtyP(); const zz_pX w = syl(f0, g0); long k = PML::resultant(r, f, g); c.call(); c.observe(k ? hsh(r) : 0); c.check(eqY(f, f0) && eqY(g, g0), "resultant modified an operand");
    if (!k) { if (must) c.fail("resultant reports a failure"); return false; } if (!eq(r, w)) { c.fail("resultant: got %s want %s", str(r).c_str(), str(w).c_str()); return false; } if (dg(w) > 0) c.interesting(); return true;
}
MC_SPACE(resultant_tiny, -1, 48)
{
    // the field is too small for most of these: a reported failure is accepted, a wrong value or an abort is not
    static const long S[4][3] = { { 2, 2, 2 }, { 3, 1, 3 }, { 3, 2, 2 }, { 7, 1, 2 } };
    long w = c.choose(c.lim(2, 4, 4), "shape"); const long p = S[w][0], Q = ipow(p, S[w][1] * S[w][2]); long k = c.choose(Q, "f"), l = c.choose(Q, "g"), d1 = c.choose(p, "draw"), d2 = c.choose(p, "draw");
    if (!c.mine()) return;
    setp(p); rnd::reset(VL{ d1, d2 }, 3); check_res(c, nthY(k, S[w][1], S[w][2]), nthY(l, S[w][1], S[w][2]), false);
}
MC_SPACE(resultant_draws, 0, 48)
{
    long p = c.from({ 13, 23, 97 }, "p"), t = c.choose(7, "f"), u = c.choose(7, "g"), dy = c.range(1, 3, "dy"), dx = c.range(1, 2, "dx"), d1 = c.choose(p, "draw"), d2 = c.from({ 0, 1, 5 }, "draw");
    if (!c.mine()) return;
    setp(p); rnd::reset(VL{ d1, d2 }, 3); check_res(c, patY(t, dx, dy, 1), patY(u, dx, 2, 2), false);
}
MC_SPACE(resultant, 0, 96)
{
    const VL D = c.thorough() ? VL{ 1, 2, 3, 4, 6 } : VL{ 1, 2, 4 }; long p = c.from({ P20, P60, FFT0 }, "p"), ta = c.choose(8, "f"), tb = c.choose(8, "g"), dxa = c.from(D, "dxf"), dya = c.from(D, "dyf"), dxb = c.from(D, "dxg"), dyb = c.from(D, "dyg");
    if (!c.mine()) return;
    setp(p); rnd::reset(VL(), 7); zz_pXY a = patY(ta % 7, dxa, dya, 1), b = patY(tb % 7, dxb, dyb, 2); if (ta == 7) a = rY(a, b, 2); if (tb == 7) b = zz_pXY(); check_res(c, a, b, true);
}
MC_SPACE(villard, 0, 48)
{
    // generic inputs: dense polynomials of given partial degrees
    long p = c.from({ P60, FFT0 }, "p"), d = c.range(1, c.lim(2, 3, 4), "d"), n = c.from(c.thorough() ? VL{ 1, 2, 3, 4, 5, 7, 8, 9, 12 } : VL{ 1, 2, 3, 5, 8, 9 }, "n"), s = c.choose(c.lim(1, 2, 3), "seed"), t = c.choose(2, "degrees");
    if (n > 5 && d > 2) return;
    if (!c.mine()) return;
    setp(p); zz_pXY f, g; const zz_pX* w = nullptr; zz_pX r = dirtyP(), W; long k;
    rnd::reset(VL(), 11);
    if (t == 0) { f = patY(0, d + 1, n + 1, 3 + s); g = patY(0, d + 1, n + 1, 4 + s); W = syl(f, g); w = &W; k = PML::resultant_villard(r, f, g); } else { f = patY(4, n + 1, n + 1, 3 + s); g = patY(4, n + 1, n + 1, 4 + s); if (d > 1) return; W = syl(f, g); w = &W; k = PML::resultant_villard_tdeg(r, f, g); }
    c.call(); c.observe(k); if (!k) c.fail("reports a failure on generic input"); else if (!eq(r, *w)) c.fail("%s: degree %ld, resultant of degree %ld", t ? "resultant_villard_tdeg" : "resultant_villard", dg(r), dg(*w)); else c.interesting();
}
// leading coefficients that vanish at an evaluation point: every root of a leading coefficient over small fields (a reported failure is accepted, a wrong value is not)
MC_SPACE(leading_roots, 0, 48)
{
    long p = c.from({ 211, 1009 }, "p"), which = c.choose(2, "routine"), side = c.choose(3, "leading coefficient"), n = c.range(1, c.lim(1, 3, 4), "dy"), r = c.choose(p, "root"), s = c.choose(c.lim(1, 1, 3), "draw");
    if (!c.mine()) return;
    setp(p); rnd::reset(VL(), 5 + s); zz_pXY f = patY(0, 2, n + 1, 3), g = patY(0, 2, n + 1, 4); const zz_pX L = mk(VL{ subm(0, r), 1 }); if (side != 1) f.rep[n] = L; if (side != 0) g.rep[n] = L;
    if (which == 0) { check_res(c, f, g, false); return; }
    const zz_pX W = syl(f, g); zz_pX R = dirtyP(); const long k = PML::resultant_villard(R, f, g); c.call(); c.observe(k); if (!k) return;
    if (!eq(R, W)) c.fail("resultant_villard: degree %ld, resultant of degree %ld, leading coefficient with the root %ld", dg(R), dg(W), r); else c.interesting();
}
// constant leading coefficients, in particular monic operands: generic otherwise
MC_SPACE(leading_constants, 0, 48)
{
    long p = c.from({ P60, FFT0 }, "p"), which = c.choose(3, "routine"), n = c.range(1, c.lim(2, 4, 9), "dy"), a = c.from({ 0, 1, 2, 3, -1 }, "lcf"), b = c.from({ 0, 1, 2, 3, -1 }, "lcg"), s = c.choose(c.lim(1, 2, 4), "seed");
    if (!c.mine()) return;
    setp(p); rnd::reset(VL(), 11); const long t = which == 2 ? 4 : 0, dx = which == 2 ? n + 1 : 2; zz_pXY f = patY(t, dx, n + 1, 3 + s), g = patY(t, dx, n + 1, 4 + s); if (a) f.rep[n] = cst(a < 0 ? p - 1 : a); if (b) g.rep[n] = cst(b < 0 ? p - 1 : b);
    if (which == 0) { check_res(c, f, g, true); return; }
    const zz_pX W = syl(f, g); zz_pX R = dirtyP(); const long k = which == 1 ? PML::resultant_villard(R, f, g) : PML::resultant_villard_tdeg(R, f, g); c.call(); c.observe(k);
    if (!k) { if (which == 2 || !(a && b)) c.fail("reports a failure on generic input"); }   // with both leading coefficients constant, the inputs are not generic for the first variant
    else if (!eq(R, W)) c.fail("%s: degree %ld, resultant of degree %ld", which == 2 ? "resultant_villard_tdeg" : "resultant_villard", dg(R), dg(W)); else c.interesting();
}
