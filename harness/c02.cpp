// C02: power series division, Taylor shifts, shifted addition, monicity
#include "ref.h"
#include "lzz_pX_extra.h"
using namespace ref;

static zz_pX quo(const zz_pX& b, const zz_pX& a, long m) { return rtrunc(rmul(rtrunc(b, m), invser(a, m)), m); }
static zz_pX tshift(const zz_pX& f, long c)       // Horner
{
    zz_pX r; zz_pX xc = mk(VL{ c, 1 % md() });
    for (long i = f.rep.length() - 1; i >= 0; i--) r = radd(rmul(r, xc), cst(C(f, i)));
    return r;
}
static void div_forms(mc::Ctx& c, const zz_pX& a, const zz_pX& b, long m, bool al)
{
    zz_pX w = quo(b, a, m), A = a, B = b, f = dirtyP();
    PML::InvTruncMul(f, B, A, m);
    expect(c, f, w, "series quotient");
    unchanged(c, A, a, "divisor"); unchanged(c, B, b, "dividend");
    expect(c, PML::InvTruncMul(B, A, m), w, "series quotient (by value)");
    if (al)
    {
        PML::InvTruncMul(A, B, A, m); expect(c, A, w, "quotient aliases divisor"); A = a;
        PML::InvTruncMul(B, B, A, m); expect(c, B, w, "quotient aliases dividend"); B = b;
        PML::InvTruncMul(A, A, A, m); expect(c, A, m > 0 ? cst(1) : zz_pX(), "a/a aliased");
    }
    if (dg(w) >= 0) c.interesting();
}
MC_SPACE(div_gf, -1, 16)
{
    long p = c.from({ 2, 3 }, "p");
    long la = p == 2 ? c.lim(3, 4, 5) : c.lim(2, 3, 4), lb = p == 2 ? c.lim(3, 4, 6) : c.lim(2, 3, 4);
    long i = c.choose(ipow(p, la), "a"), j = c.choose(ipow(p, lb), "b"), m = c.range(0, c.lim(4, 7, 9), "m");
    if (i % p == 0) return;
    if (!c.mine()) return;
    setp(p);
    div_forms(c, nth(i, la), nth(j, lb), m, true);
}
// every precision around the quadratic/Newton crossover and powers of two, lengths of both operands relative to it
MC_SPACE(div_sizes, -1, 64)
{
    long p = c.from({ FFT0, P59, P27, 3, 97 }, "p");
    setp(p); long x = NEWTONX();
    std::set<long> S = { 1, 2, 3, 17, x - 1, x, x + 1, x + 2 };
    if (!c.smoke()) for (long b = 16; b <= c.lim(0, 256, 1024); b *= 2) for (long e = -1; e <= 1; e++) S.insert(b + e);
    for (long e : { 100, 150, 193, 300 }) if (!c.smoke() || e == 150) S.insert(e);
    long m = c.from(std::vector<long>(S.begin(), S.end()), "m");
    // lengths as fractions of m
    long fa = c.range(0, 7, "la"), fb = c.range(0, 7, "lb"), data = c.range(0, 2, "data");
    if (!c.mine()) return;
    setp(p);
    auto len = [&](long f) { switch (f) { case 0: return 1L; case 1: return 2L; case 2: return m / 3 + 1; case 3: return m / 2; case 4: return m / 2 + 1; case 5: return m; case 6: return m + 3; default: return 2 * m + 1; } };
    zz_pX a = pat(data == 1 ? D_MAX : data == 0 ? D_DENSE : D_SPARSE, std::max(1L, len(fa)), 3), b = pat(data == 1 ? D_MAX : data == 0 ? D_DENSE : D_HIGH, len(fb), 4);
    if (!C(a, 0)) { VL v = un(a); v[0] = 1; a = mk(v); }
    div_forms(c, a, b, m, data == 0 && fa % 3 == 1);
}
MC_SPACE(div_consecutive, 0, 32)
{
    long p = c.from({ FFT0, P59 }, "p");
    long m = c.range(1, c.lim(0, 200, 700), "m"), k = c.range(0, 3, "k");
    if (!c.mine()) return;
    setp(p);
    zz_pX a = pat(D_DENSE, k == 0 ? m : k == 1 ? m / 4 + 2 : k == 2 ? m / 2 : 2, 5), b = pat(D_DENSE, k == 0 ? m : k == 1 ? m / 2 : k == 2 ? m + 1 : m / 2 + 3, 6);
    if (!C(a, 0)) { VL v = un(a); v.resize(std::max<size_t>(1, v.size())); v[0] = 1; a = mk(v); }
    div_forms(c, a, b, m, false);
}

// Taylor shift: both classes and the automatic choice
static void shift_forms(mc::Ctx& c, long d, long s, const std::vector<zz_pX>& fs)
{
    zz_p cc = Z(s);
    bool large = md() > d;
    PML::zz_pX_shift_DAC A(d, cc);
    std::unique_ptr<PML::zz_pX_shift_large_characteristic> B(large ? new PML::zz_pX_shift_large_characteristic(d, cc) : nullptr);
    std::unique_ptr<PML::zz_pX_shift> G = PML::get_shift(d, cc);
    for (const zz_pX& f : fs)
    {
        zz_pX w = tshift(f, s), F = f, g = dirtyP();
        A.shift(g, F); expect(c, g, w, "divide and conquer shift"); unchanged(c, F, f, "shift input");
        A.shift(F, F); expect(c, F, w, "divide and conquer shift, aliased"); F = f;
        if (B)
        {
            g = dirtyP(); B->shift(g, F); expect(c, g, w, "large characteristic shift"); unchanged(c, F, f, "shift input");
            B->shift(F, F); expect(c, F, w, "large characteristic shift, aliased"); F = f;
        }
        g = dirtyP(); G->shift(g, F); expect(c, g, w, "automatic shift object");
        g = dirtyP(); PML::shift(g, F, cc); expect(c, g, w, "one-shot shift");
        expect(c, PML::shift(F, cc), w, "one-shot shift (by value)");
        PML::shift(F, F, cc); expect(c, F, w, "one-shot shift, aliased");
        if (dg(w) >= 0) c.interesting();
    }
}
MC_SPACE(shift_gf, -1, 8)
{
    long p = c.from({ 2, 3, 5 }, "p"), l = p == 2 ? c.lim(4, 7, 9) : p == 3 ? c.lim(3, 5, 6) : 3;
    long d = c.range(0, l + 1, "d"), s = c.range(0, p - 1, "shift");
    long i = c.choose(ipow(p, l), "f");
    if (i >= ipow(p, d + 1)) return;
    if (!c.mine()) return;
    setp(p);
    shift_forms(c, d, s, { nth(i, l) });
}
MC_SPACE(shift_sizes, -1, 32)
{
    long p = c.from({ FFT0, P59, P27, 3, 97 }, "p");
    long d = c.range(0, c.lim(20, 70, 140), "d"), s = c.range(0, 3, "shift");
    if (!c.mine()) return;
    setp(p);
    long S = s == 0 ? 0 : s == 1 ? 1 : s == 2 ? md() - 1 : elt(9, d);
    // one object, a history of polynomials of every relative degree
    std::vector<zz_pX> fs;
    for (long k : { D_DENSE, D_MAX, D_ZERO, D_TOP, D_SPARSE, D_DROP }) fs.push_back(pat(k, d + 1, 7 + k));
    fs.push_back(pat(D_DENSE, d / 2, 3)); fs.push_back(pat(D_DENSE, 1, 3));
    for (long e = 0; e < 4; e++) fs.push_back(pat(D_DENSE, d + 1 - e, 20 + e));
    shift_forms(c, d, S, fs);
}
MC_SPACE(shift_big, 0, 16)
{
    long p = c.from({ FFT0, P59, P20 }, "p");
    long d = c.from({ 127, 128, 129, 255, 256, 257, 300, 511, 512, 513 }, "d");
    if (!c.mine()) return;
    setp(p);
    shift_forms(c, d, elt(3, 3), { pat(D_DENSE, d + 1, 1), pat(D_MAX, d + 1, 1), pat(D_DENSE, d / 2 + 2, 1) });
}
// c = a + x^k b
MC_SPACE(add_shift, -1, 16)
{
    long p = c.from({ 2, 3 }, "p"), l = c.lim(2, 3, 4);
    long i = c.choose(ipow(p, l), "a"), j = c.choose(ipow(p, l), "b"), k = c.range(0, l + 2, "k"), al = c.range(0, 3, "alias");
    if (!c.mine()) return;
    setp(p);
    zz_pX a = nth(i, l), b = nth(j, l), A = a, B = b, r = dirtyP();
    if (al == 0)
    {
        PML::add_LeftShift(r, A, B, k); expect(c, r, radd(a, shl(b, k)), "a + x^k b");
        unchanged(c, A, a, "a"); unchanged(c, B, b, "b");
    }
    else if (al == 1) { PML::add_LeftShift(A, A, B, k); expect(c, A, radd(a, shl(b, k)), "a += x^k b"); unchanged(c, B, b, "b"); }
    else if (al == 2) { PML::add_LeftShift(B, A, B, k); expect(c, B, radd(a, shl(b, k)), "b = a + x^k b"); unchanged(c, A, a, "a"); }
    else { PML::add_LeftShift(A, A, A, k); expect(c, A, radd(a, shl(a, k)), "a = a + x^k a"); }
    c.interesting();
    expectl(c, PML::is_monic(a), dg(a) >= 0 && C(a, dg(a)) == 1, "is_monic");
}
