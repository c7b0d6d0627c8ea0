// C28: matrices over Z/pZ and matrix polynomials of flint-extras
#include "fref.h"
extern "C" {
#include "nmod_poly_extra.h"
#include "nmod32_vec.h"
#include "nmod_vec_extra.h"
#include "pml.h"
#include "nmod_vec_extra.h"
#include "nmod_mat_extra.h"
#include "nmod_mat_poly.h"
#include "nmod_poly_mat_utils.h"
}
static void put(nmod_mat_t X, const Mat& a) { nmod_mat_init(X, a.r, a.c, a.m); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) nmod_mat_entry(X, i, j) = a.at(i, j); }
static Mat get(const nmod_mat_struct* X, UL m) { Mat a(X->r, X->c, m); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) { a.at(i, j) = nmod_mat_entry(X, i, j); } return a; }
static std::string show(const Mat& a) { std::string s = "["; for (long i = 0; i < a.r; i++) { s += "["; for (long j = 0; j < a.c; j++) s += std::to_string(a.at(i, j)) + " "; s += "]"; } return s.substr(0, 300) + "] mod " + std::to_string(a.m); }
static void obs(mc::Ctx& c, const Mat& a) { for (UL x : a.v) c.observe(x); }
static void same(mc::Ctx& c, const char* f, const Mat& got, const Mat& want) { c.call(); obs(c, want); if (!(got == want)) c.fail("%s returns %s, expected %s", f, show(got).c_str(), show(want).c_str()); }
static Mat garbage(long r, long s, UL m) { Mat g(r, s, m); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = m - 1; return g; }

static void pluq(mc::Ctx& c, const Mat& A)
{
    const std::vector<long> rp = rowprofile(A); long rk = rp.size(); UL m = A.m;
    for (int v = 0; v < 2; v++)
    {
        const char* f = v ? "nmod_mat_pluq_crout" : "nmod_mat_pluq"; nmod_mat_t X; put(X, A); slong* P = _perm_init(A.r); slong* Q = _perm_init(A.c);
        slong r = (v ? nmod_mat_pluq_crout : nmod_mat_pluq)(X, P, Q); c.call(); c.observe(r); if (r != rk) c.fail("%s of %s: rank %ld, expected %ld", f, show(A).c_str(), r, rk);
        Mat LU = get(X, m), L(A.r, A.r, m), U(A.r, A.c, m); for (UL x : LU.v) if (x >= m) c.fail("%s: entry not reduced", f);
        for (long i = 0; i < A.r; i++) for (long j = 0; j < A.c; j++) { if (i >= rk && j >= rk && LU.at(i, j)) c.fail("%s of %s: nonzero entry beyond the rank", f, show(A).c_str()); if (j >= i && i < rk) U.at(i, j) = LU.at(i, j); else if (j < rk) L.at(i, j) = LU.at(i, j); }
        for (long i = 0; i < A.r; i++) L.at(i, i) = 1; for (long i = 0; i < rk; i++) if (!U.at(i, i)) c.fail("%s: zero pivot", f);
        Mat W = mul(L, U), B(A.r, A.c, m); std::vector<int> sp(A.r), sq(A.c); for (long i = 0; i < A.r; i++) { if (P[i] < 0 || P[i] >= A.r || sp[P[i]]++) c.fail("%s: P is not a permutation", f); } for (long j = 0; j < A.c; j++) { if (Q[j] < 0 || Q[j] >= A.c || sq[Q[j]]++) c.fail("%s: Q is not a permutation", f); }
        for (long i = 0; i < A.r; i++) for (long j = 0; j < A.c; j++) B.at(P[i], Q[j]) = W.at(i, j); same(c, f, B, A);
        // P is the row rank profile followed by the other rows, both increasing
        for (long i = 0; i < rk; i++) if (P[i] != rp[i]) c.fail("%s of %s: P does not start with the row rank profile", f, show(A).c_str()); for (long i = rk + 1; i < A.r; i++) if (P[i] < P[i - 1]) c.fail("%s: the rows outside the rank profile are not increasing", f);
        // the pivots are the support of the rank profile matrix
        if (A.r * A.c <= 40) for (long k = 0; k < rk; k++) { long a = P[k], b = Q[k]; if (rankof(lead(A, a + 1, b + 1)) != rankof(lead(A, a, b)) + 1 || rankof(lead(A, a + 1, b)) != rankof(lead(A, a, b)) || rankof(lead(A, a, b + 1)) != rankof(lead(A, a, b))) c.fail("%s of %s: (%ld, %ld) is not in the rank profile matrix", f, show(A).c_str(), a, b); }
        // expansion of the compact form, into dirty or zero matrices, aliased or not
        for (int t = 0; t < 4; t++)
        {
            nmod_mat_t Lm, Um, Y; put(Y, LU); put(Lm, t & 1 ? Mat(A.r, A.r, m) : garbage(A.r, A.r, m)); put(Um, t & 1 ? Mat(A.r, A.c, m) : garbage(A.r, A.c, m));
            const char* g = t == 0 ? "nmod_mat_l_u_from_compactlu" : t == 1 ? "_nmod_mat_l_u_from_compactlu_zeroin" : t == 2 ? "nmod_mat_l_u_from_compactlu (U aliasing LU)" : "_nmod_mat_l_u_from_compactlu_zeroin (U aliasing LU)";
            (t & 1 ? _nmod_mat_l_u_from_compactlu_zeroin : nmod_mat_l_u_from_compactlu)(Lm, t & 2 ? Y : Um, Y, rk); same(c, g, get(Lm, m), L); same(c, g, get(t & 2 ? Y : Um, m), U); nmod_mat_clear(Lm); nmod_mat_clear(Um); nmod_mat_clear(Y);
        }
        _perm_clear(P); _perm_clear(Q); nmod_mat_clear(X);
    }
    if (rk && rk < std::min(A.r, A.c)) c.interesting();
}
static void nullsp(mc::Ctx& c, const Mat& A)
{
    const std::vector<long> rp = rowprofile(A); long rk = rp.size(), nl = A.r - rk; UL m = A.m; nmod_mat_t X, Y, a; put(a, A);
    std::vector<slong> perm(A.r + 1, -7); slong n1 = nmod_mat_left_nullspace(X, a), n2 = nmod_mat_left_nullspace_compact(Y, perm.data(), a); c.call(2); c.observe(n1);
    if (n1 != nl || n2 != nl) c.fail("left nullspace of %s: nullity %ld / %ld, expected %ld", show(A).c_str(), n1, n2, nl); if (!(get(a, m) == A)) c.fail("the input matrix was modified");
    if (X->r != nl || X->c != A.r || Y->r != nl || Y->c != rk) c.fail("left nullspace: wrong dimensions"); Mat x = get(X, m), y = get(Y, m); if (!mul(x, A).zero()) c.fail("nmod_mat_left_nullspace of %s: X A != 0", show(A).c_str());
    std::vector<long> np; for (long i = 0, k = 0; i < A.r; i++) if (k < rk && rp[k] == i) k++; else np.push_back(i);
    for (long k = 0; k < nl; k++)
    {
        for (long j = np[k] + 1; j < A.r; j++) if (x.at(k, j)) c.fail("nmod_mat_left_nullspace of %s: row %ld has a nonzero entry after its pivot", show(A).c_str(), k);
        for (long l = 0; l < nl; l++) if (x.at(k, np[l]) != (k == l ? 1 % m : 0)) c.fail("nmod_mat_left_nullspace of %s: not reduced", show(A).c_str());
        for (long l = 0; l < rk; l++) if (y.at(k, l) != x.at(k, rp[l])) c.fail("the compact nullspace of %s differs from the nullspace", show(A).c_str());
    }
    for (long l = 0; l < A.r; l++) if (perm[l] != (l < rk ? rp[l] : np[l - rk])) c.fail("nmod_mat_left_nullspace_compact of %s: entry %ld of the permutation is %ld", show(A).c_str(), l, perm[l]);
    nmod_mat_clear(X); nmod_mat_clear(Y); nmod_mat_clear(a);
}
MC_SPACE(elimination_all, -1, 24)
{
    static const long T[][3] = { { 2, 0, 0 }, { 2, 0, 3 }, { 2, 3, 0 }, { 2, 1, 1 }, { 2, 1, 4 }, { 2, 4, 1 }, { 2, 2, 3 }, { 2, 3, 2 }, { 2, 3, 3 }, { 3, 2, 2 }, { 3, 2, 3 }, { 3, 3, 2 }, { 2, 3, 4 }, { 2, 4, 3 }, { 5, 2, 2 }, { 3, 3, 3 }, { 2, 4, 4 } };
    const long* t = T[c.choose(c.lim(14, 16, 17), "shape")]; long k = c.choose(ipow(t[0], t[1] * t[2]), "matrix");
    if (!c.mine()) return;
    const Mat A = nth(k, t[1], t[2], t[0]); pluq(c, A); nullsp(c, A);
}
static const std::vector<long> FMODS = { 2, 3, 97, 65537, (1L << 31) - 1, (1L << 32) - 5, (1L << 50) - 27, (1L << 60) - 93, (long) 0x7fffffffffffffe7L, (long) 18446744073709551557UL };
MC_SPACE(elimination_large, -1, 24)
{
    UL m = c.from(FMODS, "p"); long r = c.from({ 1, 2, 3, 5, 8, 13, 17, 33 }, "rows"), n = c.from({ 1, 2, 4, 7, 9, 16, 18, 34 }, "cols"), rk = c.choose(c.lim(4, 6, 6), "rank"), t = c.choose(4, "structure");
    if (!c.mine()) return;
    long h = std::min(r, n); long R = rk == 0 ? h : rk == 1 ? h / 2 : rk == 2 ? h - 1 : rk == 3 ? 1 : rk == 4 ? 0 : (3 * h) / 4; const Mat A = structured(t, r, n, R, m); pluq(c, A); nullsp(c, A);
}
// ------------------------------------------------------------------ products
MC_SPACE(products, -1, 24)
{
    UL m = c.from({ 2, 3, 97, 65537, (1L << 28) - 57, (1L << 30) - 35, (1L << 31) - 1, (1L << 50) - 27, (1L << 62) - 57, (long) 18446744073709551557UL }, "p"); long r = c.from({ 0, 1, 2, 3, 4, 5, 9 }, "rows"), k = c.from({ 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 130 }, "inner"), n = c.from({ 0, 1, 2, 3, 4, 7 }, "cols"), t = c.choose(c.lim(1, 3, 4), "pattern");
    if (!c.mine()) return;
    auto gen = [&](long a, long b, UL s) { Mat o(a, b, m); for (size_t i = 0; i < o.v.size(); i++) o.v[i] = t == 0 ? (i % 7 == 3 ? rnd(i, s) % m : m - 1) : t == 1 ? rnd(i, s) % m : t == 2 ? ((i + s) % 2 ? m - 1 : 0) : (i % 5 == s ? m / 2 : 1 % m); return o; };
    const Mat A = gen(r, k, 1), B = gen(k, n, 2), W = mul(A, B); nmod_mat_t a, b, o; put(a, A); put(b, B); if (r && k && n) c.interesting();
    auto run = [&](const char* f, void (*g)(nmod_mat_struct*, const nmod_mat_struct*, const nmod_mat_struct*)) { put(o, garbage(r, n, m)); g(o, a, b); same(c, f, get(o, m), W); nmod_mat_clear(o); if (!(get(a, m) == A) || !(get(b, m) == B)) c.fail("%s modified an operand", f); if (k == n) { nmod_mat_t z; put(z, A); g(z, z, b); same(c, f, get(z, m), W); nmod_mat_clear(z); } if (r == k) { nmod_mat_t z; put(z, B); g(z, a, z); same(c, f, get(z, m), W); nmod_mat_clear(z); } };
    auto vec = [&](const char* f, void (*g)(nn_ptr, const nmod_mat_struct*, nn_srcptr, ulong)) { for (long len : { k, k / 2 }) { UL* u = (UL*) malloc(8 * len + 1); UL* v = (UL*) malloc(8 * r + 1); for (long i = 0; i < len; i++) u[i] = t == 0 ? m - 1 : rnd(i, 9) % m; g(v, a, u, len); Mat w(r, 1, m), x(r, 1, m); for (long i = 0; i < r; i++) { for (long j = 0; j < len; j++) w.at(i, 0) = addm(w.at(i, 0), mulm(A.at(i, j), u[j], m), m); x.at(i, 0) = v[i]; } free(u); free(v); same(c, f, x, w); } };
    run("nmod_mat_mul_newdot", nmod_mat_mul_newdot); run("nmod_mat_mul_pml", nmod_mat_mul_pml); vec("nmod_mat_mul_nmod_vec_newdot", nmod_mat_mul_nmod_vec_newdot);
#if defined(PML_HAVE_AVX2)
    if (m < (1L << 30)) { run("nmod_mat_mul_2dot", nmod_mat_mul_2dot); vec("nmod_mat_mul_nmod_vec_2dot", nmod_mat_mul_nmod_vec_2dot); }
#endif
    nmod_mat_clear(a); nmod_mat_clear(b);
}
// ------------------------------------------------------------------ rotations and permutations
MC_SPACE(rotations, -1, 8)
{
    long r = c.range(0, 5, "rows"), n = c.range(0, 5, "cols"), k = c.choose(4, "what"), d = k < 2 ? r : n; long i = d ? c.choose(d, "i") : 0, j = d ? c.range(i, d - 1, "j") : 0, wv = c.choose(2, "with vector");
    if (!c.mine()) return;
    if (d == 0) return; UL m = 1009; Mat A(r, n, m); for (size_t q = 0; q < A.v.size(); q++) A.v[q] = q + 1; std::vector<long> map(d); for (long q = 0; q < d; q++) map[q] = q;        // new[q] = old[map[q]]
    if (k % 2 == 0) { for (long q = i; q < j; q++) map[q + 1] = q; map[i] = j; } else { for (long q = i; q < j; q++) map[q] = q + 1; map[j] = i; }
    Mat W(r, n, m); for (long a = 0; a < r; a++) for (long b = 0; b < n; b++) W.at(a, b) = k < 2 ? A.at(map[a], b) : A.at(a, map[b]);
    std::vector<slong> v(d), w(d); for (long q = 0; q < d; q++) v[q] = 100 + q; for (long q = 0; q < d; q++) w[q] = v[map[q]]; nmod_mat_t X; put(X, A); slong* p = wv ? v.data() : NULL;
    static const char* N[4] = { "_nmod_mat_rotate_rows_downward", "_nmod_mat_rotate_rows_upward", "_nmod_mat_rotate_columns_rightward", "_nmod_mat_rotate_columns_leftward" };
    if (k == 0) _nmod_mat_rotate_rows_downward(X, p, i, j); else if (k == 1) _nmod_mat_rotate_rows_upward(X, p, i, j); else if (k == 2) _nmod_mat_rotate_columns_rightward(X, p, i, j); else _nmod_mat_rotate_columns_leftward(X, p, i, j);
    same(c, N[k], get(X, m), W); if (wv && v != w) c.fail("%s: the vector is not rotated like the matrix", N[k]); nmod_mat_clear(X); if (i < j) c.interesting();
}
static std::vector<slong> nthperm(long n, long k) { std::vector<slong> r, a; for (long i = 0; i < n; i++) a.push_back(i); for (long i = n; i > 0; i--) { r.push_back(a[k % i]); a.erase(a.begin() + k % i); k /= i; } return r; }
MC_SPACE(permutations, -1, 8)
{
    long r = c.range(0, 4, "rows"), n = c.range(0, 5, "cols"), f = 1; for (long i = 2; i <= n; i++) f *= i; long k = c.choose(f, "permutation"), st = c.choose(3, "stored");
    if (!c.mine()) return;
    UL m = 1009; std::vector<slong> act = nthperm(n, k), sto = nthperm(n, st == 1 ? f - 1 : f / 2), w(n); for (long j = 0; j < n; j++) w[j] = sto[act[j]]; Mat A(r, n, m), W(r, n, m); for (size_t q = 0; q < A.v.size(); q++) A.v[q] = q + 1; for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) W.at(i, j) = A.at(i, act[j]);
    nmod_mat_t X; put(X, A); nmod_mat_permute_columns(X, act.data(), st ? sto.data() : NULL); same(c, "nmod_mat_permute_columns", get(X, m), W); if (st && sto != w) c.fail("nmod_mat_permute_columns: the stored permutation is not composed"); nmod_mat_clear(X); if (n > 1) c.interesting();
    // rows of a matrix polynomial
    nmod_mat_poly_t P; nmod_mat_poly_init2(P, n, r, m, 3); _nmod_mat_poly_set_length(P, 3); for (long d = 0; d < 3; d++) for (long i = 0; i < n; i++) for (long j = 0; j < r; j++) nmod_mat_poly_entry(P, d, i, j) = 1 + i + 10 * j + 100 * d; sto = nthperm(n, st == 1 ? f - 1 : f / 2);
    nmod_mat_poly_permute_rows(P, act.data(), st ? sto.data() : NULL); c.call(); for (long d = 0; d < 3; d++) for (long i = 0; i < n; i++) for (long j = 0; j < r; j++) if (nmod_mat_poly_entry(P, d, i, j) != (UL) (1 + act[i] + 10 * j + 100 * d)) c.fail("nmod_mat_poly_permute_rows: wrong entry"); if (st && sto != w) c.fail("nmod_mat_poly_permute_rows: the stored permutation is not composed"); nmod_mat_poly_clear(P);
}
// ------------------------------------------------------------------ random forms: shape and rank, for every rank and a list of generator states
MC_SPACE(random_forms, -1, 16)
{
    UL m = c.from({ 2, 3, 97, (1L << 60) - 93 }, "p"); long r = c.range(0, 5, "rows"), n = c.range(0, 5, "cols"), rk = c.range(0, std::min(r, n), "rank"), seed = c.choose(c.lim(2, 8, 64), "seed");
    if (!c.mine()) return;
    if (rk && rk < std::min(r, n)) c.interesting();
    for (int k = 0; k < 8; k++) for (int unit = 0; unit < 2; unit++)
    {
        flint_rand_t st; flint_rand_init(st); for (long i = 0; i < seed; i++) n_randlimb(st); nmod_mat_t X; put(X, garbage(r, n, m)); bool col = k >= 4, red = k % 2, lower = (k % 4 < 2) != col;       // rows: 0,1 lref lrref, 2,3 uref urref; columns: 4,5 ucef urcef (rightmost -> bottommost), 6,7 lcef lrcef
        static const char* N[8] = { "lref", "lrref", "uref", "urref", "ucef", "urcef", "lcef", "lrcef" };
        if (rk == std::min(r, n) && seed % 2) switch (k) { case 0: nmod_mat_rand_fullrank_lref(X, st, unit); break; case 1: nmod_mat_rand_fullrank_lrref(X, st); break; case 2: nmod_mat_rand_fullrank_uref(X, st, unit); break; case 3: nmod_mat_rand_fullrank_urref(X, st); break; case 4: nmod_mat_rand_fullrank_ucef(X, st, unit); break; case 5: nmod_mat_rand_fullrank_urcef(X, st); break; case 6: nmod_mat_rand_fullrank_lcef(X, st, unit); break; default: nmod_mat_rand_fullrank_lrcef(X, st); break; }
        else switch (k) { case 0: nmod_mat_rand_lref(X, st, rk, unit); break; case 1: nmod_mat_rand_lrref(X, st, rk); break; case 2: nmod_mat_rand_uref(X, st, rk, unit); break; case 3: nmod_mat_rand_urref(X, st, rk); break; case 4: nmod_mat_rand_ucef(X, st, rk, unit); break; case 5: nmod_mat_rand_urcef(X, st, rk); break; case 6: nmod_mat_rand_lcef(X, st, rk, unit); break; default: nmod_mat_rand_lrcef(X, st, rk); }
        (void) lower; Mat A = get(X, m); c.call(); obs(c, A); if (rankof(A) != rk) c.fail("nmod_mat_rand_%s: rank %ld instead of %ld", N[k], rankof(A), rk); for (UL x : A.v) if (x >= m) c.fail("nmod_mat_rand_%s: entry not reduced", N[k]);
        // reduce columns to rows by transposition, rightmost pivots to leftmost pivots as stated
        Mat B(col ? n : r, col ? r : n, m); for (long i = 0; i < B.r; i++) for (long j = 0; j < B.c; j++) B.at(i, j) = col ? A.at(j, i) : A.at(i, j); bool rightmost = k % 4 < 2; std::vector<long> piv;
        for (long i = 0; i < B.r; i++) { long p = -1; for (long j = 0; j < B.c; j++) if (B.at(i, j)) { if (rightmost || p < 0) p = j; } if (i < rk) { if (p < 0) c.fail("nmod_mat_rand_%s: row %ld is zero", N[k], i); if (!piv.empty() && p <= piv.back()) c.fail("nmod_mat_rand_%s: pivots are not increasing", N[k]); piv.push_back(p); if ((unit || red) && B.at(i, p) != 1) c.fail("nmod_mat_rand_%s: a pivot is not 1", N[k]); } else if (p >= 0) c.fail("nmod_mat_rand_%s: row %ld is not zero", N[k], i); }
        if (red) for (size_t a = 0; a < piv.size(); a++) for (long i = 0; i < B.r; i++) if (B.at(i, piv[a]) != (i == (long) a)) c.fail("nmod_mat_rand_%s: not reduced", N[k]); nmod_mat_clear(X);
        if (k == 0) { put(X, garbage(r, n, m)); if (unit) { nmod_mat_randrank_dense(X, st, rk); A = get(X, m); if (rankof(A) != rk) c.fail("nmod_mat_randrank_dense: rank %ld instead of %ld", rankof(A), rk); } else { nmod_mat_rand(X, st); A = get(X, m); } for (UL x : A.v) if (x >= m) c.fail("random matrix: entry not reduced"); nmod_mat_clear(X); }
        flint_rand_clear(st);
    }
}
// ------------------------------------------------------------------ matrix polynomials
typedef std::vector<Mat> MP;
static MP norm(MP f) { while (!f.empty() && f.back().zero()) f.pop_back(); return f; }
static void putp(nmod_mat_poly_t X, const MP& f, long r, long n, UL m, long extra = 0) { nmod_mat_poly_init2(X, r, n, m, f.size() + extra); _nmod_mat_poly_set_length(X, f.size()); for (size_t d = 0; d < f.size(); d++) for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) nmod_mat_poly_entry(X, d, i, j) = f[d].at(i, j); }
static MP getp(const nmod_mat_poly_t X) { MP f; for (long d = 0; d < X->length; d++) f.push_back(get(X->coeffs + d, X->mod.n)); return f; }
static void samep(mc::Ctx& c, const char* g, const nmod_mat_poly_t X, const MP& want, long r, long n) { c.call(); for (auto& a : want) obs(c, a); if (X->r != r || X->c != n) c.fail("%s: dimensions", g); if (X->alloc < X->length) c.fail("%s: length %ld exceeds the allocation %ld", g, X->length, X->alloc); if (X->length != (long) want.size()) c.fail("%s: length %ld, expected %zu", g, X->length, want.size()); MP f = getp(X); for (size_t d = 0; d < want.size(); d++) if (!(f[d] == want[d])) c.fail("%s: coefficient %zu is %s, expected %s", g, d, show(f[d]).c_str(), show(want[d]).c_str()); }
static MP genp(int t, long r, long n, long len, UL m, UL s) { MP f; for (long d = 0; d < len; d++) { Mat a(r, n, m); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = t == 0 ? rnd(i + 31 * d, s) % m : t == 1 ? (d % 2 ? 0 : m - 1) : t == 2 ? (d + 1 == len && i == a.v.size() - 1) : t == 3 ? (d == 0 ? 0 : rnd(i, d + s) % m) : (d * 3 + i) % 4 ? 0 : m - 1; f.push_back(a); } if (r && n && len && norm(f).size() != f.size()) f.back().at(r - 1, n - 1) = 1; return norm(f); }
MC_SPACE(matpoly, -1, 16)
{
    UL m = c.from({ 2, 97, (1L << 60) - 93 }, "p"); long r = c.range(1, 3, "rows"), n = c.range(0, 3, "cols"), len = c.range(0, c.lim(4, 6, 9), "length"), t = c.choose(5, "data"), q = c.range(0, c.lim(5, 8, 12), "parameter");
    if (!c.mine()) return;
    const MP f = genp(t, r, n, len, m, 1); len = f.size(); Mat Z(r, n, m); if (len > 1) c.interesting(); nmod_mat_poly_t X, Y;
    // truncation, realloc, fit_length, set, shift (aliased or not, into smaller and larger operands)
    { putp(X, f, r, n, m); nmod_mat_poly_truncate(X, q); MP w = f; if ((long) w.size() > q) w.resize(q, Z); samep(c, "nmod_mat_poly_truncate", X, norm(w), r, n); nmod_mat_poly_clear(X); }
    { putp(X, f, r, n, m); nmod_mat_poly_realloc(X, q); MP w = f; if ((long) w.size() > q) w.resize(q, Z); samep(c, "nmod_mat_poly_realloc", X, norm(w), r, n); if (X->alloc != q) c.fail("nmod_mat_poly_realloc: alloc"); nmod_mat_poly_clear(X); }
    { putp(X, f, r, n, m); nmod_mat_poly_fit_length(X, q); samep(c, "nmod_mat_poly_fit_length", X, f, r, n); if (X->alloc < q) c.fail("nmod_mat_poly_fit_length: alloc"); nmod_mat_poly_clear(X); }
    for (long l2 : { 0L, 1L, 3L, 12L }) { const MP g = genp(0, r, n, l2, m, 5); MP w; if (len) { w.assign(q, Z); w.insert(w.end(), f.begin(), f.end()); }
        putp(X, f, r, n, m); putp(Y, g, r, n, m, l2 % 2); nmod_mat_poly_shift_left(Y, X, q); samep(c, "nmod_mat_poly_shift_left", Y, w, r, n); samep(c, "nmod_mat_poly_shift_left (operand)", X, f, r, n); nmod_mat_poly_set(Y, X); samep(c, "nmod_mat_poly_set", Y, f, r, n); nmod_mat_poly_shift_left(X, X, q); samep(c, "nmod_mat_poly_shift_left (aliased)", X, w, r, n); nmod_mat_poly_clear(X); nmod_mat_poly_clear(Y); }
    // observers
    putp(X, f, r, n, m); if (nmod_mat_poly_degree(X) != len - 1 || nmod_mat_poly_length(X) != len || nmod_mat_poly_is_zero(X) != (len == 0)) c.fail("length, degree or is_zero"); if (len >= 1 && nmod_mat_poly_is_constant(X) != (len == 1)) c.fail("nmod_mat_poly_is_constant of a matrix of degree %ld is %d", len - 1, nmod_mat_poly_is_constant(X));
    if (nmod_mat_poly_nrows(X) != r || nmod_mat_poly_ncols(X) != n) c.fail("nmod_mat_poly_nrows or ncols");
    for (long d = 0; d < len; d++) for (long i = 0; i < r; i++) for (long j = 0; j < n; j++)
    {
        if (nmod_mat_poly_get_entry(X, d, i, j) != f[d].at(i, j) || *nmod_mat_poly_entry_ptr(X, d, i, j) != f[d].at(i, j)) c.fail("nmod_mat_poly_get_entry");
        if (d + 1 == len) continue; const UL x = addm(f[d].at(i, j), 1 % m, m); nmod_mat_poly_set_entry(X, d, i, j, x); MP w = f; w[d].at(i, j) = x; samep(c, "nmod_mat_poly_set_entry", X, w, r, n); nmod_mat_poly_set_entry(X, d, i, j, f[d].at(i, j));
    }
    { nmod_mat_t a; put(a, garbage(r, n, m)); nmod_mat_poly_get_coeff(a, X, q); same(c, "nmod_mat_poly_get_coeff", get(a, m), q < len ? f[q] : Z); nmod_mat_clear(a); }
    for (UL pt : { (UL) 0, (UL) 1, m - 1, 12345 % m }) { Mat w(r, n, m); for (long d = len - 1; d >= 0; d--) for (size_t i = 0; i < w.v.size(); i++) w.v[i] = addm(mulm(w.v[i], pt, m), f[d].v[i], m); nmod_mat_t a; put(a, garbage(r, n, m)); nmod_mat_poly_evaluate_nmod(a, X, pt); same(c, "nmod_mat_poly_evaluate_nmod", get(a, m), w); nmod_mat_clear(a); }
    // conversions
    { nmod_poly_mat_t P; nmod_poly_mat_init(P, r, n, m); nmod_poly_mat_set_from_mat_poly(P, X); auto chk = [&](const char* g, long ord) { c.call(); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) { nmod_poly_struct* e = nmod_poly_mat_entry(P, i, j); long d = std::min(len, ord); while (d > 0 && !f[d - 1].at(i, j)) d--; if (e->length != d) c.fail("%s: entry (%ld, %ld) has length %ld, expected %ld", g, i, j, e->length, d); for (long k = 0; k < d; k++) if (e->coeffs[k] != f[k].at(i, j)) c.fail("%s: wrong coefficient", g); } }; chk("nmod_poly_mat_set_from_mat_poly", len);
      nmod_mat_poly_t Z2; const MP g = genp(0, r, n, 4, m, 7); putp(Z2, g, r, n, m); nmod_mat_poly_set_from_poly_mat(Z2, P); samep(c, "nmod_mat_poly_set_from_poly_mat", Z2, f, r, n); MP w = f; if ((long) w.size() > q) w.resize(q, Z); nmod_mat_poly_set_trunc_from_poly_mat(Z2, P, q); samep(c, "nmod_mat_poly_set_trunc_from_poly_mat", Z2, norm(w), r, n); nmod_poly_mat_set_trunc_from_mat_poly(P, X, q); chk("nmod_poly_mat_set_trunc_from_mat_poly", q);
      if (len) { nmod_mat_t a; put(a, f[0]); nmod_mat_poly_set_from_nmod_mat(Z2, a); samep(c, "nmod_mat_poly_set_from_nmod_mat", Z2, norm(MP{ f[0] }), r, n); nmod_mat_poly_t Z3; nmod_mat_poly_init_set_from_nmod_mat(Z3, a); samep(c, "nmod_mat_poly_init_set_from_nmod_mat", Z3, norm(MP{ f[0] }), r, n); nmod_mat_poly_clear(Z3); nmod_mat_clear(a); }
      nmod_mat_poly_one(Z2); MP I(1, Z); for (long i = 0; i < std::min(r, n); i++) I[0].at(i, i) = 1; samep(c, "nmod_mat_poly_one", Z2, I, r, n); if (!nmod_mat_poly_is_one(Z2)) c.fail("nmod_mat_poly_is_one"); if (len && nmod_mat_poly_is_one(X) != (len == 1 && f[0] == I[0])) c.fail("nmod_mat_poly_is_one of another matrix"); nmod_mat_poly_zero(Z2); samep(c, "nmod_mat_poly_zero", Z2, MP(), r, n); nmod_mat_poly_clear(Z2); nmod_poly_mat_clear(P); }
    nmod_mat_poly_clear(X);
    { flint_rand_t st; flint_rand_init(st); for (long i = 0; i < t; i++) n_randlimb(st); nmod_mat_poly_init(X, r, n, m); nmod_mat_poly_rand(X, st, q); c.call(); if (X->length > q) c.fail("nmod_mat_poly_rand: length"); MP g = getp(X); if (g.size() != norm(g).size()) c.fail("nmod_mat_poly_rand: not normalised"); nmod_mat_poly_randtest(X, st, q); g = getp(X); if (X->length > q || g.size() != norm(g).size()) c.fail("nmod_mat_poly_randtest"); nmod_mat_poly_clear(X); flint_rand_clear(st); }
}
MC_SPACE(mul_coeff, -1, 16)
{
    UL m = c.from({ 2, 97, (1L << 60) - 93 }, "p"); long r = c.range(1, 3, "rows"), k = c.range(1, 3, "inner"), n = c.range(1, 3, "cols"), la = c.range(0, c.lim(3, 4, 5), "length A"), lb = c.range(0, c.lim(3, 4, 5), "length B"), t = c.choose(3, "data");
    if (!c.mine()) return;
    const MP a = genp(t, r, k, la, m, 1), b = genp((t + 3) % 5, k, n, lb, m, 2); nmod_mat_poly_t A, B; putp(A, a, r, k, m); putp(B, b, k, n, m);
    for (long q = 0; q <= la + lb + 1; q++) { Mat w(r, n, m); for (long i = 0; i < (long) a.size(); i++) if (q - i >= 0 && q - i < (long) b.size()) { Mat x = mul(a[i], b[q - i]); for (size_t e = 0; e < w.v.size(); e++) w.v[e] = addm(w.v[e], x.v[e], m); } nmod_mat_t o; put(o, garbage(r, n, m)); nmod_mat_poly_mul_coeff(o, A, B, q); same(c, "nmod_mat_poly_mul_coeff", get(o, m), w); nmod_mat_clear(o); }
    nmod_mat_poly_clear(A); nmod_mat_poly_clear(B); if (la > 1 && lb > 1) c.interesting();
}
MC_SPACE(random_vectors, -1, 8)
{
    const UL m = c.from({ 2, 3, 97, (1L << 31) - 1, (1L << 60) - 93, (long) 18446744073709551557UL }, "p"); const long len = c.range(0, 9, "length"), seed = c.choose(c.lim(2, 8, 64), "seed"), old = c.choose(4, "previous length"); if (!c.mine()) return;
    flint_rand_t st; flint_rand_init(st); for (long i = 0; i < seed; i++) n_randlimb(st); nmod_t mod; nmod_init(&mod, m); if (len > 1) c.interesting();
    std::vector<UL> v(len + 1, m + 7); _nmod_vec_rand(v.data(), st, len, mod); c.call(3); if (v[len] != m + 7) c.fail("_nmod_vec_rand writes past the end"); for (long i = 0; i < len; i++) { c.observe(v[i]); if (v[i] >= m) c.fail("_nmod_vec_rand: entry %ld of %ld is not reduced", i, len); }
    if (m < 1L << 32) { std::vector<unsigned> w(len + 1, ~0u); _nmod32_vec_rand((n32_ptr) w.data(), st, len, mod); c.call(); if (w[len] != ~0u) c.fail("_nmod32_vec_rand writes past the end"); for (long i = 0; i < len; i++) if (w[i] >= m) c.fail("_nmod32_vec_rand: entry %ld of %ld is not reduced", i, len); }
    for (int k = 0; k < 2; k++)
    {
        nmod_poly_t p; nmod_poly_init(p, m); for (long i = 0; i < old * 4; i++) nmod_poly_set_coeff_ui(p, i, 1 + i % (m - 1)); if (k) nmod_poly_rand_monic(p, st, len); else nmod_poly_rand(p, st, len); const char* g = k ? "nmod_poly_rand_monic" : "nmod_poly_rand";
        if (p->length > len || p->length > p->alloc || p->length < 0) c.fail("%s: length %ld for %ld", g, p->length, len); if (p->length && !p->coeffs[p->length - 1]) c.fail("%s: not normalised", g); for (long i = 0; i < p->length; i++) if (p->coeffs[i] >= m) c.fail("%s: coefficient not reduced", g);
        if (k && len > 0 && (p->length != len || p->coeffs[len - 1] != 1)) c.fail("%s(%ld): not monic of degree %ld", g, len, len - 1); nmod_poly_clear(p);
    }
    flint_rand_clear(st);
}
