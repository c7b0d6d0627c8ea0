// C29: products, middle products, determinants and power series division of polynomial matrices in flint-extras
#include "fpoly.h"
extern "C" {
#include "nmod_extra.h"
#include "nmod_poly_extra.h"
#include "nmod_poly_mat_multiply.h"
#include "nmod_poly_mat_dixon.h"
#include "nmod_poly_mat_extra.h"
}
typedef void (*mulfn)(nmod_poly_mat_t, const nmod_poly_mat_t, const nmod_poly_mat_t);
static void geomprecomp(nmod_poly_mat_t C, const nmod_poly_mat_t A, const nmod_poly_mat_t B)
{
    slong l1 = nmod_poly_mat_max_length(A), l2 = nmod_poly_mat_max_length(B); if (l1 == 0 || l2 == 0) { nmod_poly_mat_zero(C); return; }
    nmod_t mod; nmod_init(&mod, A->modulus); nmod_geometric_progression_t G; slong n = l1 + l2 - 1; UL w = nmod_find_root(2 * n, mod);
    _nmod_geometric_progression_init_function(G, w, n, mod, UWORD(3)); _nmod_poly_mat_mul_geometric_precomp(C, A, l1, B, l2, G); nmod_geometric_progression_clear(G);
}
static const struct { const char* name; mulfn f; int need; } MUL[] = { { "nmod_poly_mat_multiply", nmod_poly_mat_multiply, 0 }, { "nmod_poly_mat_mul_waksman", nmod_poly_mat_mul_waksman, 1 }, { "nmod_poly_mat_mul_vandermonde1", nmod_poly_mat_mul_vandermonde1, 2 },
    { "nmod_poly_mat_mul_vandermonde2", nmod_poly_mat_mul_vandermonde2, 3 }, { "nmod_poly_mat_mul_geometric", nmod_poly_mat_mul_geometric, 4 }, { "_nmod_poly_mat_mul_geometric_precomp", geomprecomp, 5 } };
static bool can(int need, UL m, long len) { len = std::max(len, 1L); return need == 0 ? true : need == 1 ? NMOD_POLY_MAT_CAN_USE_WAKSMAN(m) : need == 2 ? NMOD_POLY_CAN_USE_VANDERMONDE1(m, len) : need == 3 ? NMOD_POLY_CAN_USE_VANDERMONDE2(m, len) : NMOD_POLY_CAN_USE_GEOMETRIC(m, len); }
// ways 0: clean output, 1: dirty output, 2: output = left operand, 3: output = right operand, 4: B = A (the same object), 5: everything the same object
static void products(mc::Ctx& c, const PM& a, const PM& b, int ways)
{
    const PM want = mulp(a, b); const long len = a.len() + b.len();
    for (auto& F : MUL) if (can(F.need, a.m, len)) for (int w = 0; w < ways; w++)
    {
        if ((w == 2 && a.c != b.c) || (w == 3 && a.r != a.c) || (w >= 4 && (a.r != a.c || b.c != a.c))) continue;
        nmod_poly_mat_t A, B, C; putp(A, a, w % 3); putp(B, b, w % 2); putp(C, w == 1 ? genp(0, a.r, b.c, 5, a.m, 9) : PM(a.r, b.c, a.m));
        const nmod_poly_mat_struct* R = w == 2 || w == 5 ? A : w == 3 ? B : C; const PM& W = w >= 4 ? mulp(a, a) : want;
        if (w >= 4 && !can(F.need, a.m, 2 * a.len())) { nmod_poly_mat_clear(A); nmod_poly_mat_clear(B); nmod_poly_mat_clear(C); continue; }
        F.f((nmod_poly_mat_struct*) R, A, w >= 4 ? A : B); samep(c, F.name, R, W);
        if (R != A) samep(c, F.name, A, a); if (R != B) samep(c, F.name, B, b);
        nmod_poly_mat_clear(A); nmod_poly_mat_clear(B); nmod_poly_mat_clear(C);
    }
}
MC_SPACE(mul_all, -1, 24)
{
    // all left operands of the box against structured right operands and conversely
    UL m = c.from({ 2, 3, 5 }, "p"); long r = c.range(1, 2, "rows"), k = c.range(1, 2, "inner"), n = c.range(1, 2, "cols"), la = c.range(1, m == 2 ? 2 : m == 3 ? c.lim(1, 2, 2) : 1, "length"); UL N = ipow(m, r * k * la); UL step = c.lim(9, 1, 1);
    UL q = c.choose((N + step - 1) / step, "matrix"); int t = c.choose(4, "other operand"); if (!c.mine()) return;
    const PM a = nthp(std::min(q * step, N - 1), r, k, la, m), b = genp(t == 3 ? 8 : t, k, n, 1 + t, m, q); if (a.len() > 1 && b.len() > 1) c.interesting();
    products(c, a, b, 2); PM at(k, r, m), bt(n, k, m); for (long i = 0; i < r; i++) for (long j = 0; j < k; j++) for (long d = 0; d < a.len(); d++) at.set(j, i, d, a.co(i, j, d)); for (long i = 0; i < k; i++) for (long j = 0; j < n; j++) for (long d = 0; d < b.len(); d++) bt.set(j, i, d, b.co(i, j, d));
    products(c, bt.norm(), at.norm(), 1);
}
MC_SPACE(mul_shapes, -1, 24)
{
    UL m = c.from({ 2, 3, 5, 11, 97, 1009, (1L << 31) - 1, (1L << 60) - 93, (1L << 62) - 57, (1L << 63) - 25 }, "p");
    long r = c.range(1, c.lim(3, 4, 5), "rows"), k = c.range(1, c.lim(3, 5, 6), "inner"), n = c.range(1, c.lim(3, 4, 5), "cols"), la = c.from({ 0, 1, 2, 3, 6 }, "length A"), lb = c.from({ 0, 1, 2, 5, 9 }, "length B"); int t = c.choose(c.lim(2, 3, 9), "data");
    if (!c.mine()) return; const PM a = genp(t, r, k, la, m, 1 + r), b = genp((t * 2 + la) % 9, k, n, lb, m, 2 + n); if (a.len() > 1 && b.len() > 1) c.interesting(); products(c, a, b, 6);
}
MC_SPACE(mul_empty, -1, 1)
{
    // no row, no column, or an empty inner dimension (the product is then zero)
    UL m = c.from({ 3, 97, (1L << 60) - 93 }, "p"); long r = c.range(0, 2, "rows"), k = c.range(0, 2, "inner"), n = c.range(0, 2, "cols"), la = c.from({ 0, 1, 3 }, "length A"), lb = c.from({ 0, 2 }, "length B");
    if (!c.mine() || (r && k && n)) return; if (r && n) c.interesting(); products(c, genp(0, r, k, la, m, 1), genp(1, k, n, lb, m, 2), 6);
}
MC_SPACE(mul_dispatch, -1, 24)
{
    // both sides of the thresholds of the dispatcher: cube root of the dimensions 8, 10, 12, lengths 120, 200, 300; every field size decides what is available
    long s = c.choose(9, "shape"); static const long S[9][3] = { { 8, 8, 8 }, { 9, 9, 9 }, { 10, 10, 10 }, { 11, 11, 11 }, { 12, 12, 12 }, { 13, 13, 13 }, { 2, 28, 40 }, { 45, 7, 7 }, { 3, 3, 90 } };
    long len = c.from({ 3, 119, 120, 199, 200, 300, 301 }, "length"); UL m = c.from({ 2, 3, 2 * len - 1, 10 * len + 1, (1L << 60) - 93 }, "p at least"); int t = c.choose(c.lim(1, 1, 3), "data"), split = c.choose(c.lim(1, 1, 3), "split");
    if (c.lim(1, 1, 0) && len > 3 && !((s == 0 || s == 1) ? len <= 120 : (s == 2 || s == 3) ? len >= 199 && len <= 200 : len >= 300)) return;
    if (c.lim(1, 0, 0) && (s % 2 || len > 200)) return;
    if (!c.mine()) return; auto prime = [](UL x) { for (UL d = 2; d * d <= x; d++) if (x % d == 0) return false; return x > 1; }; if (m < 1L << 30) while (!prime(m)) m++;
    long l1 = split == 0 ? (len + 1) / 2 : split == 1 ? 2 : len - 1, l2 = len + 1 - l1; const long *d = S[s]; const PM a = genp(t == 2 ? 3 : t, d[0], d[1], l1, m, 3), b = genp(t == 2 ? 8 : t, d[1], d[2], l2, m, 4), want = mulp(a, b); c.interesting();
    nmod_poly_mat_t A, B, C; putp(A, a); putp(B, b); putp(C, PM(a.r, b.c, m)); nmod_poly_mat_multiply(C, A, B); samep(c, "nmod_poly_mat_multiply", C, want); nmod_poly_mat_clear(A); nmod_poly_mat_clear(B); nmod_poly_mat_clear(C);
}
MC_SPACE(mulmid, -1, 24)
{
    UL m = c.from({ 2, 3, 97, 1009, (1L << 60) - 93 }, "p"); static const long S[6][3] = { { 1, 1, 1 }, { 2, 1, 3 }, { 2, 3, 2 }, { 8, 2, 1 }, { 2, 8, 2 }, { 3, 3, 3 } }; long s = c.choose(c.lim(3, 5, 6), "shape");
    long la = c.from({ 0, 1, 2, 5, 9 }, "length A"), lb = c.from({ 0, 1, 3, 4, 12 }, "length B"), nlo = c.from({ 0, 1, 2, 4, 7, 13 }, "nlo"), nhi = nlo + c.from({ 0, 1, 2, 3, 5, 9 }, "window"); int t = c.choose(c.lim(1, 2, 4), "data");
    if (!c.mine()) return; const long* d = S[s]; const PM a = genp(t == 3 ? 8 : t, d[0], d[1], la, m, 1), b = genp(t ? 3 : 0, d[1], d[2], lb, m, 2), want = mulp(a, b).trunc(nhi).shiftr(nlo); la = a.len(); lb = b.len(); if (!want.zero()) c.interesting();
    for (int v = 0; v < 9; v++) for (int w = 0; w < 5; w++)
    {
        const bool geo = v >= 5; long l1 = la, l2 = lb; if (v == 2 || v == 4 || v == 6 || v == 8) { l1 += l1 ? 1 + t : 0; l2 += l2 ? 2 : 0; }
        if (geo && (!NMOD_POLY_CAN_USE_GEOMETRIC(m, nhi) || nlo >= nhi || !(l1 <= nlo + 1 || l2 <= nlo + 1))) continue;
        if ((w == 2 && d[1] != d[2]) || (w == 3 && d[0] != d[1]) || (w == 4 && (d[0] != d[1] || d[1] != d[2]))) continue; PM W = want;
        if (w == 4) { l1 = l2 = v == 2 || v == 4 || v == 6 || v == 8 ? la + 1 : la; if (geo && l1 > nlo + 1) continue; W = mulp(a, a).trunc(nhi).shiftr(nlo); }
        nmod_poly_mat_t A, B, C; putp(A, a); putp(B, b); putp(C, w == 1 ? genp(0, d[0], d[2], 5, m, 9) : PM(d[0], d[2], m)); nmod_poly_mat_struct* R = w == 2 || w == 4 ? A : w == 3 ? B : C; const char* g = "";
        const nmod_poly_mat_struct* Y = w == 4 ? A : B;
        if (v == 0) { g = "nmod_poly_mat_mulmid"; nmod_poly_mat_mulmid(R, A, Y, nlo, nhi); }
        else if (v <= 2) { g = "_nmod_poly_mat_mulmid"; _nmod_poly_mat_mulmid(R, A, l1, Y, l2, nlo, nhi); }
        else if (v <= 4) { g = "_nmod_poly_mat_mulmid_naive"; _nmod_poly_mat_mulmid_naive(R, A, l1, Y, l2, nlo, nhi); }
        else if (v <= 6) { g = "_nmod_poly_mat_mulmid_geometric"; _nmod_poly_mat_mulmid_geometric(R, A, l1, Y, l2, nlo, nhi); }
        else { g = "_nmod_poly_mat_mulmid_geometric_precomp"; nmod_t mod; nmod_init(&mod, m); nmod_geometric_progression_t G; UL o = nmod_find_root(2 * nhi, mod); _nmod_geometric_progression_init_function(G, o, nhi, mod, UWORD(3)); _nmod_poly_mat_mulmid_geometric_precomp(R, A, l1, Y, l2, nlo, nhi, G); nmod_geometric_progression_clear(G); }
        samep(c, g, R, W); if (R != A) samep(c, g, A, a); if (R != B) samep(c, g, B, b); nmod_poly_mat_clear(A); nmod_poly_mat_clear(B); nmod_poly_mat_clear(C);
    }
}
static void determinant(mc::Ctx& c, const PM& a)
{
    const std::vector<UL> want = detp(a); nmod_poly_mat_t A; putp(A, a, 1); nmod_poly_t D; nmod_poly_init(D, a.m); nmod_poly_set_coeff_ui(D, 3, 1);
    nmod_poly_mat_det_iter(D, A); c.call(); for (UL x : want) c.observe(x); bool ok = D->length == (long) want.size(); for (long d = 0; ok && d < D->length; d++) ok = D->coeffs[d] == want[d];
    if (!ok) { std::string s; for (long d = 0; d < D->length; d++) s += std::to_string(D->coeffs[d]) + " "; std::string w; for (UL x : want) w += std::to_string(x) + " "; c.fail("nmod_poly_mat_det_iter of %s is (%s), expected (%s)", showp(a).c_str(), s.c_str(), w.c_str()); }
    if (want.size() > 1 || (want.empty() && !a.zero())) c.interesting(); nmod_poly_clear(D); nmod_poly_mat_clear(A);
}
MC_SPACE(det_all, -1, 24)
{
    UL m = c.from({ 2, 3, 7 }, "p"); long n = c.range(0, m == 2 ? 3 : 2, "dimension"), len = c.range(1, m == 7 ? 1 : n == 3 ? c.lim(1, 2, 2) : m == 3 ? 2 : 3, "length"); UL N = ipow(m, n * n * len), step = n == 3 && len == 2 ? c.lim(999, 7, 1) : 1;
    UL q = c.choose((N + step - 1) / step, "matrix"); if (!c.mine()) return; determinant(c, nthp(std::min(N - 1, q * step), n, n, len, m));
}
MC_SPACE(det_shapes, -1, 16)
{
    UL m = c.from({ 2, 5, 97, (1L << 60) - 93 }, "p"); long n = c.range(1, c.lim(4, 6, 7), "dimension"), len = c.from({ 1, 2, 3, 6 }, "length"); int t = c.choose(9, "data"), e = c.choose(5, "shape"), s = c.choose(c.lim(1, 2, 4), "instance"); if (!c.mine()) return;
    PM a = genp(t, n, n, len, m, 1 + s); PM tri(n, n, m);
    if (e) for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { bool keep = e == 1 ? j <= i : e == 2 ? j >= i : e == 3 ? j + i >= n - 1 : (i + 1) % n == j || i == j; if (keep) for (long d = 0; d < a.len(); d++) tri.set(i, j, d, a.co(i, j, d)); }
    determinant(c, e ? tri.norm() : a);
}
static void dixon(mc::Ctx& c, const PM& a, const PM& b, long order, long sigma)
{
    const long n = a.r; Mat A0(n, n, a.m); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) A0.at(i, j) = a.co(i, j, 0); const bool inv = rankof(A0) == n; const PM dirty = genp(0, n, n, 4, a.m, 77), dirtx = genp(0, n, b.c, 4, a.m, 78);
    nmod_poly_mat_t A, S, B, X; putp(A, a); putp(S, dirty); putp(B, b); putp(X, dirtx); slong r1 = nmod_poly_mat_inv_trunc(S, A, order); c.call(); c.observe(r1);
    if ((r1 != 0) != inv) c.fail("nmod_poly_mat_inv_trunc of %s at order %ld returns %ld", showp(a).c_str(), order, r1); samep(c, "nmod_poly_mat_inv_trunc (operand)", A, a);
    if (!inv) samep(c, "nmod_poly_mat_inv_trunc (result for a singular matrix)", S, dirty);
    else { const PM s = getp(c, "nmod_poly_mat_inv_trunc", S, a.m); if (s.len() > order) c.fail("nmod_poly_mat_inv_trunc: %ld coefficients at order %ld", s.len(), order); if (!(mulp(a, s).trunc(order) == identp(n, a.m).trunc(order))) c.fail("nmod_poly_mat_inv_trunc of %s at order %ld returns %s", showp(a).c_str(), order, showp(s).c_str()); }
    slong r2 = nmod_poly_mat_dixon(X, A, B, order, sigma); c.call(); c.observe(r2); if ((r2 != 0) != inv) c.fail("nmod_poly_mat_dixon of %s at order %ld returns %ld", showp(a).c_str(), order, r2); samep(c, "nmod_poly_mat_dixon (operand)", A, a); samep(c, "nmod_poly_mat_dixon (right-hand side)", B, b);
    if (!inv) samep(c, "nmod_poly_mat_dixon (result for a singular matrix)", X, dirtx);
    else { const PM x = getp(c, "nmod_poly_mat_dixon", X, a.m); if (!(mulp(a, x).trunc(sigma) == b.trunc(sigma))) c.fail("nmod_poly_mat_dixon of %s at order %ld, %ld returns %s", showp(a).c_str(), order, sigma, showp(x).c_str()); if (a.len() > 1) c.interesting(); }
    nmod_poly_mat_clear(A); nmod_poly_mat_clear(S); nmod_poly_mat_clear(B); nmod_poly_mat_clear(X);
}
MC_SPACE(dixon_all, -1, 24)
{
    UL m = c.from({ 2, 3 }, "p"); long n = c.range(1, 2, "dimension"), len = c.range(1, n == 1 ? 3 : 2, "length"); UL N = ipow(m, n * n * len), q = c.choose(N, "matrix"), step = c.lim(17, 1, 1); long order = c.range(1, c.lim(2, 3, 4), "order"), sigma = c.from({ 1, 4, 7 }, "sigma"); if (!c.mine() || q % step) return;
    dixon(c, nthp(q, n, n, len, m), genp(3, n, 1 + q % 3, 5, m, q), order, sigma);
}
MC_SPACE(dixon_shapes, -1, 24)
{
    UL m = c.from({ 2, 97, (1L << 60) - 93 }, "p"); long n = c.range(1, c.lim(3, 4, 5), "dimension"), k = c.range(1, c.lim(1, 2, 3), "right-hand sides"), len = c.from({ 1, 2, 4 }, "length"), order = c.from({ 1, 2, 3, 8, 33, 40 }, "order"), sigma = c.from({ 0, 1, 5, 9, 16 }, "sigma"); int t = c.from({ 0, 1, 2, 3, 6, 8 }, "data"), fix = c.choose(2, "invertible"); if (!c.mine()) return;
    PM a = genp(t, n, n, len, m, 1), b = genp(t == 1 ? 0 : t, n, k, len + 2, m, 2); if (fix) for (long i = 0; i < n; i++) { for (long j = 0; j < n; j++) a.set(i, j, 0, i == j ? 1 : j < i ? a.co(i, j, 0) : 0); } a.norm();
    dixon(c, a, b, order, sigma);
}
