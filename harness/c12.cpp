// C12: precomputed left multipliers; all sequences of right operands on one object
#include "mc.h"
#include "ref.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_arith.h"
#include "lzz_p_extra.h"
using namespace ref;
typedef PML::mat_lzz_pX_lmultiplier LM;
enum { GET, FFTD, FFTM, GEO, DENSE, PRIMES, NK };
static const char* NAME[NK] = { "get_lmultiplier", "FFT_direct", "FFT_matmul", "geometric", "dense", "3_primes" };
static std::unique_ptr<LM> make(long k, const MX& a, long dB)
{
    const long n = std::max(dg(a), 0L) + dB + 1; bool fft = PML::is_FFT_ready(NTL::NextPowerOfTwo(n));
    switch (k)
    {
        case GET: return PML::get_lmultiplier(a, dB);
        case FFTD: return std::unique_ptr<LM>(fft ? new PML::mat_lzz_pX_lmultiplier_FFT_direct(a, dB) : nullptr);
        case FFTM: return std::unique_ptr<LM>(fft ? new PML::mat_lzz_pX_lmultiplier_FFT_matmul(a, dB) : nullptr);
        case GEO: return std::unique_ptr<LM>(md() > 4 * n + 8 ? new PML::mat_lzz_pX_lmultiplier_geometric(a, dB) : nullptr);
        case DENSE: return std::unique_ptr<LM>(md() > n ? new PML::mat_lzz_pX_lmultiplier_dense(a, dB) : nullptr);
        default: return std::unique_ptr<LM>(new PML::mat_lzz_pX_lmultiplier_3_primes(a, dB));
    }
}
static MX prod(const MX& a, const MX& b)
{
    if ((double) a.NumRows() * a.NumCols() * b.NumCols() * (dg(a) + 1) * (dg(b) + 1) < 2e7) return rmul(a, b);
    MX c = mx(a.NumRows(), b.NumCols()); zz_pX t;
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) for (long k = 0; k < a.NumCols(); k++) { NTL::mul(t, a[i][k], b[k][j]); NTL::add(c[i][j], c[i][j], t); }
    return c;
}
static void seq(mc::Ctx& c, const MX& a, long dB, const std::vector<MX>& bs, const std::vector<MX>& ws, long k)
{
    MX A = a; std::unique_ptr<LM> m = make(k, A, dB); if (!m) return;
    unchanged(c, A, a, "left operand"); A = dirtyM(1, 2);       // the object keeps what it needs
    expectl(c, m->NumRows(), a.NumRows(), "NumRows"); expectl(c, m->NumCols(), a.NumCols(), "NumCols"); expectl(c, m->degA(), dg(a), "degA"); expectl(c, m->degB(), dB, "degB");
    for (size_t i = 0; i < bs.size(); i++)
    {
        MX b = bs[i], x = dirtyM(a.NumRows(), b.NumCols()); m->multiply(x, b); expect(c, x, ws[i], NAME[k]); unchanged(c, b, bs[i], NAME[k]);
        if (i == 0) { x = dirtyM(1, a.NumRows() + 1); m->multiply(x, b); expect(c, x, ws[i], NAME[k]); x = b; m->multiply(x, x); expect(c, x, ws[i], NAME[k]); expect(c, m->multiply(b), ws[i], NAME[k]); }
    }
}
static const std::vector<long> PR = { 2, 3, 17, P20, P27, P60, 1152921504606846883L, FFT0, -257, -12289 };
MC_SPACE(single, -1, 32)
{
    long p = c.from(PR, "p"), m = c.range(1, c.lim(2, 3, 4), "m"), n = c.range(1, c.lim(2, 3, 4), "n"), u = c.range(1, c.lim(2, 3, 4), "u"), la = c.range(0, c.lim(2, 4, 6), "lenA"), dB = c.range(0, c.lim(2, 4, 6), "dB"), ka = c.from({ D_DENSE, M_UNBAL, M_ONE }, "kindA"), lb = c.range(0, dB + 1, "lenB");
    if (!c.mine()) return;
    setp(p); MX a = patX(ka, m, n, la, 1); std::vector<MX> bs = { patX(D_DENSE, n, u, lb, 2) }, ws; for (auto& b : bs) ws.push_back(prod(a, b)); for (long k = 0; k < NK; k++) seq(c, a, dB, bs, ws, k); c.interesting();
}
// all sequences of right operands over an alphabet of shapes and degrees, on one object
MC_SPACE(sequences, -1, 64)
{
    long p = c.from({ 2, P20, P60, 1152921504606846883L, FFT0, -257 }, "p"), s = c.choose(2, "shape"), dB = c.from({ 4, 11 }, "dB"), L = c.lim(2, 3, 4); VL ch; for (long i = 0; i < L; i++) ch.push_back(c.choose(8, "b"));
    if (!c.mine()) return;
    static const long S[2][2] = { { 2, 3 }, { 3, 1 } };
    setp(p); const long n = S[s][1]; MX a = patX(D_DENSE, S[s][0], n, 5, 1); std::vector<MX> al = { patX(D_DENSE, n, 2, dB + 1, 2), patX(D_ZERO, n, 2, 1, 1), patX(D_DENSE, n, 1, 1, 3), patX(M_UNBAL, n, 3, dB, 4), patX(D_MAX, n, 11, 3, 5), patX(D_TOP, n, 1, dB + 1, 6), patX(M_ONE, n, 4, 2, 7), patX(D_DENSE, n, 9, dB / 2 + 1, 8) }, bs, ws;
    for (long i : ch) { bs.push_back(al[i]); ws.push_back(prod(a, al[i])); }
    for (long k = 0; k < NK; k++) seq(c, a, dB, bs, ws, k); c.interesting();
}
MC_SPACE(kinds, 0, 32)
{
    long p = c.from(PR, "p"), n = c.from({ 1, 2, 5 }, "n"), la = c.from({ 1, 2, 6 }, "lenA"), dB = c.from({ 0, 2, 7 }, "dB"), ka = c.choose(M_COUNT, "kindA"), kb = c.choose(M_COUNT, "kindB");
    if (!c.mine()) return;
    setp(p); MX a = patX(ka, 2, n, la, 1); std::vector<MX> bs = { patX(kb, n, 2, dB + 1, 2) }, ws = { prod(a, bs[0]) }; for (long k = 0; k < NK; k++) seq(c, a, dB, bs, ws, k); c.interesting();
}
MC_SPACE(lengths, 0, 32)
{
    static const std::vector<long> D = { 0, 1, 2, 3, 6, 7, 8, 15, 16, 23, 24, 31, 32, 33, 47, 63, 64, 100 };
    long p = c.from({ FFT0, -12289, P60, P23, 31 }, "p"), dA = c.from(D, "dA"), dB = c.from(D, "dB");
    if (c.smoke() && (p != P60 && p != FFT0)) return;
    if (!c.mine()) return;
    setp(p); MX a = patX(D_DENSE, 2, 2, dA + 1, 1); std::vector<MX> bs, ws; for (long d : D) if (d <= dB) bs.push_back(patX(M_UNBAL, 2, 1 + d % 2, d + 1, 2)); bs.push_back(patX(D_MAX, 2, 1, dB + 1, 1)); for (auto& b : bs) ws.push_back(prod(a, b)); for (long k = 0; k < NK; k++) seq(c, a, dB, bs, ws, k); c.interesting();
}
MC_SPACE(dims, -1, 32)
{
    long p = c.from({ FFT0, -12289, P60, -97 }, "p"), t = c.from({ 1, 8, 9, 15, 16, 17, 33, 254, 255, 256, 257, 509, 510, 511 }, "t"), m = c.from({ 1, 2, 9, 17 }, "m"), u = c.from(c.smoke() ? VL{ 1, 9, 17 } : VL{ 1, 2, 8, 9, 16, 17, 33 }, "u"), ka = c.from(c.smoke() ? VL{ D_DENSE } : VL{ D_DENSE, D_MAX, D_CONST }, "kind");
    if (!c.mine()) return;
    if (t > 40 && m * u > 20) return;
    setp(p); MX a = patX(ka, m, t, 2, 1), b = patX(ka, t, u, 3, 2); if (ka == D_CONST) { for (long i = 0; i < m; i++) for (long j = 0; j < t; j++) a[i][j] = cst(md() - 1); for (long i = 0; i < t; i++) for (long j = 0; j < u; j++) b[i][j] = cst(md() - 1); }
    std::vector<MX> bs = { b }, ws = { prod(a, b) }; for (long k = 0; k < NK; k++) seq(c, a, 3, bs, ws, k); c.interesting();
}
// the choice made by get_lmultiplier, at its thresholds on rows and degree
MC_SPACE(choice, 0, 64)
{
    long p = c.from({ 2, 31, 157, P23, P60, FFT0, -257 }, "p"), m = c.from({ 1, 20, 21, 40, 41, 100, 101, 200, 201 }, "rows"), dA = c.from({ 0, 30, 31, 90, 91, 150, 151 }, "dA"), dB = c.from({ 0, 1, 10, 120 }, "dB");
    if (!c.mine()) return;
    if (!c.thorough() && m * dA * (dB + 1) > 150000) return;
    setp(p); MX a = patX(M_UNBAL, m, 2, dA + 1, 1); a[m - 1][0] = pat(D_DENSE, dA + 1, 4); std::vector<MX> bs = { patX(D_DENSE, 2, 1, dB + 1, 2), patX(D_MAX, 2, 2, dB / 2 + 1, 3) }, ws; for (auto& b : bs) ws.push_back(prod(a, b)); seq(c, a, dB, bs, ws, GET); c.interesting();
}
MC_SPACE(three_primes, 0, 32)
{
    static const long B = 1152921504606846883L;
    long p = c.from({ 2, 3, P16, P20, P23, P25, P27, P30, P31, P59, P60, B }, "p"), t = c.from({ 1, 2, 3, 17, 64 }, "t"), la = c.from({ 1, 2, 3, 9, 65, 300 }, "lenA"), dB = c.from({ 0, 1, 2, 63, 299 }, "dB"), k = c.choose(3, "kind");
    if (!c.mine()) return;
    if (t * la * dB > 300000) return;
    setp(p); MX a = patX(D_MAX, 1, t, la, 1), b = patX(k == 1 ? D_DENSE : D_MAX, t, 1, dB + 1, 2);
    if (k == 2) { if (p != B) return; for (long j = 0; j < t; j++) { a[0][j] = scal(pat(D_TOP, la, 1), P60); if (j % 2) b[j][0] = scal(pat(D_TOP, dB + 1, 1), P60); } }
    std::vector<MX> bs = { b }, ws = { prod(a, b) }; seq(c, a, dB, bs, ws, PRIMES); seq(c, a, dB, bs, ws, GET); c.interesting();
}
// coefficients of the integer product that vanish modulo some of the auxiliary FFT primes
MC_SPACE(vanishing, 0, 16)
{
    static const long B = 1152921504606846883L;
    long p = c.from({ P31, P59, P60, B }, "p"), w = c.choose(9, "multiple"), la = c.from({ 1, 2, 3, 20 }, "lenA"), lb = c.from({ 1, 2, 20 }, "lenB"), k = c.choose(3, "position");
    if (!c.mine()) return;
    setp(p); long u[2], v[2]; if (!vanish(w, u, v)) return;
    MX a = patX(D_DENSE, 2, 2, la, 1), b = patX(D_DENSE, 2, 2, lb, 2);
    for (long j = 0; j < 2; j++) { if (k == 0) { setc(a[0][j], la - 1, u[j]); setc(b[j][0], lb - 1, v[j]); } else if (k == 1) { a[0][j] = cst(u[j]); b[j][0] = cst(v[j]); } else { a[0][j] = mono(u[j], la - 1); b[j][1] = mono(v[j], lb - 1); } }
    std::vector<MX> bs = { b }, ws = { prod(a, b) }; seq(c, a, lb - 1, bs, ws, PRIMES); c.interesting();
}
