// C01: univariate middle product
#include "ref.h"
#include "lzz_pX_middle_product.h"
using namespace ref;

static zz_pX want(const zz_pX& a, const zz_pX& c, long dA, long dB)
{
    zz_pX t = rtrunc(a, dA + 1);
    return slice(rmul(t, rtrunc(c, dA + dB + 1)), dA, dA + dB + 1);
}

// run every calling form on one instance
static void all_forms(mc::Ctx& c, const zz_pX& a, const zz_pX& cc, long dA, long dB, long alias)
{
    zz_pX w = want(a, cc, dA, dB);
    zz_pX A = a, B = cc;
    if (alias == 0)
    {
        zz_pX b = dirtyP();
        PML::middle_product(b, A, B, dA, dB);
        expect(c, b, w, "middle_product");
        unchanged(c, A, a, "middle_product first operand");
        unchanged(c, B, cc, "middle_product second operand");
        expect(c, PML::middle_product(A, B, dA, dB), w, "middle_product (by value)");
        if (dA == dB) expect(c, PML::middle_product(A, B, dA + 1), w, "middle_product (square)");
    }
    else if (alias == 1)
    {
        PML::middle_product(A, A, B, dA, dB);
        expect(c, A, w, "middle_product output aliases first operand");
        unchanged(c, B, cc, "middle_product second operand");
    }
    else if (alias == 2)
    {
        PML::middle_product(B, A, B, dA, dB);
        expect(c, B, w, "middle_product output aliases second operand");
        unchanged(c, A, a, "middle_product first operand");
    }
    else
    {
        PML::middle_FFT(A, A, B, dA, dB);
        expect(c, A, w, "middle_FFT output aliases first operand");
        A = a;
        zz_pX b = dirtyP();
        PML::middle_FFT(b, A, B, dA, dB);
        expect(c, b, w, "middle_FFT");
        if (dA == dB) { zz_pX d; PML::middle_FFT(d, A, B, dA + 1); expect(c, d, w, "middle_FFT (square)"); }
    }
    if (dg(w) >= 0) c.interesting();
}

// every pair of polynomials over GF(2), every window
MC_SPACE(gf2_all, -1, 16)
{
    long la = c.lim(3, 4, 5), lc = c.lim(4, 6, 8);
    long dA = c.range(0, c.lim(2, 3, 4), "dA"), dB = c.range(0, c.lim(2, 3, 4), "dB"), al = c.range(0, 2, "alias");
    long i = c.choose(1L << la, "a"), j = c.choose(1L << lc, "c");
    if (!c.mine()) return;
    setp(2);
    all_forms(c, nth(i, la), nth(j, lc), dA, dB, al);
}
MC_SPACE(gf3_all, 0, 16)
{
    long la = 3, lc = c.lim(3, 5, 6);
    long dA = c.range(0, 2, "dA"), dB = c.range(0, 3, "dB"), al = c.range(0, 3, "alias");
    long i = c.choose(ipow(3, la), "a"), j = c.choose(ipow(3, lc), "c");
    if (!c.mine()) return;
    setp(3);
    all_forms(c, nth(i, la), nth(j, lc), dA, dB, al);
}

// every window shape up to a bound, each regime of the modulus, a data alphabet
MC_SPACE(shapes, -1, 64)
{
    long D = c.lim(38, 68, 140);
    long dA = c.range(0, D, "dA"), dB = c.range(0, D, "dB");
    static const std::vector<long> P = { P27, FFT0, P59, 97 };
    long p = c.from(P, "p");
    long data = c.range(0, c.thorough() ? 5 : 3, "data");
    if (!c.mine()) return;
    setp(p);
    long la = dA + 1, lc = dA + dB + 1;
    zz_pX a, b;
    switch (data)
    {
        case 0: a = pat(D_MAX, la, 1); b = pat(D_MAX, lc, 2); break;
        case 1: a = pat(D_DENSE, la, 3); b = pat(D_DENSE, lc, 4); break;
        case 2: a = pat(D_DENSE, la + 5, 5); b = pat(D_DENSE, lc + 7, 6); break;          // longer than the window
        case 3: a = pat(D_DENSE, (la + 1) / 2, 7); b = pat(D_DENSE, (2 * lc + 2) / 3, 8); break;  // shorter
        case 4: a = pat(D_HIGH, la, 9); b = pat(D_SPARSE, lc, 10); break;
        case 5: a = pat(D_TOP, la, 9); b = pat(D_DROP, lc, 10); break;
    }
    all_forms(c, a, b, dA, dB, 0);
    if ((dA + dB) % 7 == 3 || data == 3) { all_forms(c, a, b, dA, dB, 1); all_forms(c, a, b, dA, dB, 2); }
    if ((dA + dB) % 5 == 0 || dA == dB) all_forms(c, a, b, dA, dB, 3);
}

// threshold neighbourhoods and long/short windows: Karatsuba recursion, FFT switch, accumulation bounds
MC_SPACE(thresholds, 0, 64)
{
    setp(FFT0); long x1 = MULX(); setp(P59); long x2 = MULX(); setp(P27); long x3 = MULX();
    std::set<long> S = { 0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 600, 1100 };
    for (long x : { x1, x2, x3 }) for (long e = -1; e <= 1; e++) S.insert(x + e);
    if (c.thorough()) for (long e : { 34, 47, 48, 49, 95, 97, 130, 160, 191, 192, 193, 320, 511, 512, 513, 2100 }) S.insert(e);
    std::vector<long> W(S.begin(), S.end());
    long dA = c.from(W, "dA"), dB = c.from(W, "dB");
    static const std::vector<long> P = { P27, 189812507, P30, FFT0, P59, 3 };
    long p = c.from(P, "p");
    long data = c.range(0, 2, "data");
    if (c.smoke() && (data == 2 || (p != P27 && p != FFT0))) return;
    if (!c.mine()) return;
    setp(p);
    zz_pX a = pat(data == 0 ? D_MAX : D_DENSE, data == 2 ? dA / 2 + 1 : dA + 1, 3), b = pat(data == 0 ? D_MAX : D_DENSE, data == 2 ? dA + 1 : dA + dB + 1, 4);
    all_forms(c, a, b, dA, dB, 0);
    if (data == 1) all_forms(c, a, b, dA, dB, 2);
}

// bilinearity basis: every pair of monomials (position i of a, position k of c) in one window
MC_SPACE(monomials, 0, 32)
{
    static const std::vector<long> W = { 0, 1, 5, 31, 32, 33, 36, 65 };
    long dA = c.from(W, "dA"), dB = c.from(W, "dB");
    long i = c.range(0, dA, "i");
    if (!c.mine()) return;
    setp(FFT0);
    for (long k = 0; k <= dA + dB; k += (dA + dB > 60 && !c.thorough()) ? 3 : 1)
    {
        zz_pX a = mono(5, i), b = mono(7, k);
        zz_pX r; PML::middle_product(r, a, b, dA, dB);
        zz_pX w = (i + k >= dA && i + k <= dA + dB) ? mono(35, i + k - dA) : zz_pX();
        expect(c, r, w, "middle_product of monomials");
    }
    c.interesting();
}
// two successive products into the same output: no stale coefficients
MC_SPACE(reuse, 0, 8)
{
    static const std::vector<long> W = { 0, 1, 7, 33, 70, 200 };
    long d1 = c.from(W, "d1"), e1 = c.from(W, "e1"), d2 = c.from(W, "d2"), e2 = c.from(W, "e2");
    if (!c.mine()) return;
    setp(FFT0);
    zz_pX b;
    zz_pX a = pat(D_DENSE, d1 + 1, 1), x = pat(D_DENSE, d1 + e1 + 1, 2);
    PML::middle_product(b, a, x, d1, e1);
    expect(c, b, want(a, x, d1, e1), "first product");
    zz_pX a2 = pat(D_DENSE, d2 + 1, 3), x2 = pat(D_SPARSE, d2 + e2 + 1, 4);
    PML::middle_product(b, a2, x2, d2, e2);
    expect(c, b, want(a2, x2, d2, e2), "second product into the same output");
    PML::middle_product(b, a2, zz_pX(), d2, e2);
    expect(c, b, zz_pX(), "product with zero into the same output");
}
// every size of modulus (a prime just below each half power of two from 2^12 to 2^60), all coefficients p-1:
// every bound on how many products an accumulator can hold is crossed
MC_SPACE(moduli, 0, 48)
{
    long h = c.range(24, 120, "halfbits");
    static const std::vector<long> W = { 7, 15, 31, 40, 63, 100, 130 };
    long dA = c.from(W, "dA"), dB = c.from(W, "dB");
    if (!c.mine()) return;
    setp(below_half(h));
    all_forms(c, pat(D_MAX, dA + 1, 1), pat(D_MAX, dA + dB + 1, 2), dA, dB, 0);
}
