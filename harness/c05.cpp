// C05: base field helpers, vectors of inverses, constant matrix builders
#include "rnd.h"
#include "lzz_p_extra.h"
#include "vec_lzz_p_extra.h"
#include "mat_lzz_p_extra.h"
using namespace ref;

static long rord(long a) { if (a == 0) return -1; long o = 1, x = a; while (x != 1 % md()) { x = mulm(x, a); o++; } return o; }

MC_SPACE(orders, -1, 16)
{
    long p = c.from({ 2, 3, 5, 7, 11, 13, 17, 31, 97, 257, 1009 }, "p"), a = c.choose(p, "a");
    if (!c.mine()) return;
    setp(p);
    zz_p A = Z(a); expectl(c, PML::order(A), rord(a), "multiplicative order"); c.interesting();
}
MC_SPACE(prime_types, -1, 1)
{
    // prime kinds around the 25-bit boundary and the FFT-ness of the context
    static const std::vector<long> P = { 2, 3, 257, 16777213, 33554393, 33554467, 67108859, P27, P30, P59, P60, FFT0, FFT0 + 1, -257, -65537, -P60 };
    long p = c.from(P, "p"), k = c.range(0, 62, "k");
    if (!c.mine()) return;
    setp(p);
    bool fft = p < 0 || (p >= FFT0 && p < FFT0 + 20);
    long q = md(), bits = 0; while (bits < 63 && (q >> bits)) bits++;
    long two = 0; for (long t = q - 1; t > 0 && t % 2 == 0; t /= 2) two++;
    if (p >= FFT0) two = std::min(two, (long) NTL_FFTMaxRoot); else if (fft) two = std::min(two, (long) NTL_FFTMaxRoot);
    expectl(c, PML::is_FFT_prime(), fft, "is_FFT_prime");
    expectl(c, PML::type_of_prime(), fft ? TYPE_FFT_PRIME : bits <= 25 ? TYPE_SMALL_PRIME : TYPE_LARGE_PRIME, "type_of_prime");
    expectl(c, PML::is_FFT_ready(k), fft && k <= NTL::zz_pInfo->MaxRoot, "is_FFT_ready");
    if (fft) { c.check(NTL::zz_pInfo->MaxRoot <= two, "MaxRoot"); c.interesting(); }
}
// element of large order: every sequence of the first draws
MC_SPACE(big_order, -1, 16)
{
    long p = c.from({ 3, 5, 7, 11, 13, 17, 31 }, "p"), ord = c.range(1, p - 1, "ord"), tr = c.range(1, 3, "trials"), strong = c.choose(2, "strong");
    std::vector<long> s; for (long i = 0; i < tr; i++) s.push_back(c.choose(i == 2 ? 2 : p, "draw"));
    if (!c.mine()) return;
    setp(p); rnd::reset(s);
    zz_p a; PML::element_of_order(a, ord, tr, strong);
    long r = R(a); c.call(); c.observe(r); c.observe(ord);
    if (r == 0)
    {
        // absent: then no draw up to the first zero (kept as is without the strong requirement) qualifies
        for (long x : s) { if (x % p == 0 && !strong) break; c.check(rord(x % p) < ord, "reported absent although a draw had large enough order"); }
    }
    else
    {
        c.interesting();
        if (rord(r) < ord) c.fail("element %ld has order %ld, asked for at least %ld", r, rord(r), ord);
    }
    rnd::reset(s); zz_p b = PML::element_of_order(ord, tr, strong); expectl(c, R(b), r, "by value");
}
MC_SPACE(big_order_default, 0, 16)
{
    long p = c.from({ 3, 5, 97, 1009, P16, P20, P27, P59, FFT0 }, "p"), ord = c.from({ 1, 2, 3, 4, 10, 95, 96, 500, 1008, 5000 }, "ord");
    setp(p); if (md() - 1 < ord) return;
    long st = c.range(1, c.lim(2, 6, 20), "stream");
    if (!c.mine()) return;
    setp(p); rnd::reset({}, st);
    zz_p a; PML::element_of_order(a, ord); c.call();
    if (R(a) == 0) { c.observe(0); return; }
    long x = R(a); for (long i = 1; i < ord; i++) { if (x == 1) c.fail("order %ld < %ld", i, ord); x = mulm(x, R(a)); }
    c.observe(R(a)); c.interesting();
}
// every vector of units over small fields, alphabets otherwise
static void inverses(mc::Ctx& c, const VP& v)
{
    VP w; w.SetLength(v.length()); for (long i = 0; i < v.length(); i++) w[i] = Z(invm(R(v[i])));
    VP A = v, r = dirtyV(4);
    PML::inv(r, A); expect(c, r, w, "entrywise inverse"); unchanged(c, A, v, "inverse input");
    expect(c, PML::inv(A), w, "entrywise inverse (by value)");
    PML::inv(A, A); expect(c, A, w, "entrywise inverse, aliased"); A = v;
    r = dirtyV(3); PML::inv_naive(r, A); expect(c, r, w, "naive entrywise inverse"); unchanged(c, A, v, "inverse input");
    PML::inv_naive(A, A); expect(c, A, w, "naive entrywise inverse, aliased"); A = v;
    Vec<NTL::mulmod_precon_t> pc; pc.SetLength(1); PML::precomp(pc, A);
    expectl(c, pc.length(), v.length(), "precomputation length");
    Vec<NTL::mulmod_precon_t> pd = PML::precomp(A); expectl(c, pd.length(), v.length(), "precomputation length");
    for (long i = 0; i < v.length(); i++) for (long x : { 0L, 1L % md(), md() - 1, elt(5, i) })
    {
        expectl(c, NTL::MulModPrecon(x, R(v[i]), md(), pc[i]), mulm(x, R(v[i])), "precomputed multiplication");
        expectl(c, NTL::MulModPrecon(x, R(v[i]), md(), pd[i]), mulm(x, R(v[i])), "precomputed multiplication");
    }
    c.interesting();
}
MC_SPACE(inv_gf, -1, 8)
{
    long p = c.from({ 2, 3, 5, 7 }, "p"), n = c.range(0, 4, "n"); VP v; v.SetLength(n); std::vector<long> e;
    for (long i = 0; i < n; i++) e.push_back(1 + c.choose(p - 1, "v"));
    if (!c.mine()) return;
    setp(p); for (long i = 0; i < n; i++) v[i] = Z(e[i]);
    inverses(c, v);
}
MC_SPACE(inv_sizes, -1, 8)
{
    long p = c.from({ P27, P59, P60, FFT0, P16 }, "p"), n = c.range(0, c.lim(10, 60, 200), "n"), kind = c.choose(3, "kind");
    if (!c.mine()) return;
    setp(p); VP v = kind == 0 ? patV(0, n, 4) : patV(1, n, 4); for (long i = 0; i < n; i++) if (R(v[i]) == 0 || (kind == 2 && i % 2)) v[i] = Z(2);
    inverses(c, v);
}
MC_SPACE(builders, -1, 8)
{
    long p = c.from({ 2, 3, P59, FFT0 }, "p"), n = c.range(1, 7, "n"), cc = c.choose(3, "c");
    if (!c.mine()) return;
    setp(p); long x = cc == 0 ? 0 : cc == 1 ? 1 : md() - 1;
    MP w = cm(n, n); for (long i = 1; i < n; i++) w[i][i - 1] = Z(1); w[0][n - 1] = Z(x); expect(c, PML::Z_lzz_p(n, Z(x)), w, "shift matrix");
    MP j = cm(n, n); for (long i = 0; i < n; i++) j[i][n - 1 - i] = Z(1); expect(c, PML::J_lzz_p(n), j, "reversal matrix");
    VP d = patV(0, n, 3); MP D = cm(n, n); for (long i = 0; i < n; i++) D[i][i] = d[i]; expect(c, PML::diagonal_matrix(d), D, "diagonal matrix");
    expect(c, PML::diagonal_matrix(VP()), cm(0, 0), "empty diagonal matrix"); expect(c, PML::J_lzz_p(0), cm(0, 0), "empty reversal"); c.interesting();
}
MC_SPACE(windows, -1, 8)
{
    long m = c.range(0, 4, "rows"), n = c.range(0, 4, "cols"), r = c.range(0, 5, "r"), k = c.range(0, 5, "c"), h = c.range(0, 6, "h"), w = c.range(0, 6, "w");
    if (!c.mine()) return;
    setp(P27); MP a = patM(1, m, n, 2), b = a;
    for (long i = r; i < std::min(m, r + h); i++) for (long j = k; j < std::min(n, k + w); j++) b[i][j] = Z(0);
    PML::clear(a, r, k, h, w); expect(c, a, b, "clear a window"); if (h && w) c.interesting();
}
