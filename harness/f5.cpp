// C31: approximant bases and kernel bases of polynomial matrices in flint-extras
#include "fforms.h"
extern "C" {
#include "nmod_poly_mat_approximant.h"
#include "nmod_poly_mat_kernel.h"
#include "nmod_mat_poly.h"
}
static std::vector<slong> sl(const VL& s, size_t n) { std::vector<slong> o(s.begin(), s.end()); o.resize(n + 1, -55); return o; }
static std::string shows(const VL& s) { std::string o = "("; for (long x : s) o += std::to_string(x) + " "; return o + ")"; }
// codimension of the module of approximants: rank of p -> p F mod x^d on polynomials of degree < d
static long codim(const PM& F, long d)
{
    Mat T(F.r * d, F.c * d, F.m); for (long i = 0; i < F.r; i++) for (long t = 0; t < d; t++) for (long j = 0; j < F.c; j++) for (long k = t; k < d; k++) T.at(i * d + t, j * d + k) = F.co(i, j, k - t); return d ? rankof(T) : 0;
}
// number of independent p with p F = 0 and deg p_i <= w - s_i
static long kdim(const PM& F, const VL& s, long w)
{
    std::vector<std::pair<long, long>> rows; long top = 0; for (long i = 0; i < F.r; i++) for (long t = 0; t <= w - s[i]; t++) { rows.push_back({ i, t }); top = std::max(top, t); }
    const long len = top + std::max(F.len(), 1L); Mat T(rows.size(), F.c * len, F.m); for (size_t u = 0; u < rows.size(); u++) for (long j = 0; j < F.c; j++) for (long k = 0; k < F.len(); k++) T.at(u, j * len + rows[u].second + k) = F.co(rows[u].first, j, k); return (long) rows.size() - rankof(T);
}
static bool is_app(const PM& P, const PM& F, long d, const VL& s, long cd)
{
    if (!mulp(P, F).trunc(d).zero() || !forms(P, s).owp) return false; long D = 0; for (long i = 0; i < P.r; i++) D += P.deg(i, i); return D == cd;
}
static PM resized(const PM& a, long r, long n) { PM o(r, n, a.m); for (long d = 0; d < a.len(); d++) for (long i = 0; i < std::min(r, a.r); i++) for (long j = 0; j < std::min(n, a.c); j++) o.set(i, j, d, a.co(i, j, d)); return o.norm(); }
static PM times(const PM& P, long row, const std::vector<UL>& q) { PM o(P.r, P.c, P.m); for (long i = 0; i < P.r; i++) for (long j = 0; j < P.c; j++) for (long d = 0; d < P.len(); d++) { if (i != row) o.set(i, j, d, P.co(i, j, d)); else for (size_t k = 0; k < q.size(); k++) o.set(i, j, d + k, addm(o.co(i, j, d + k), mulm(q[k], P.co(i, j, d), P.m), P.m)); } return o.norm(); }
static void approx(mc::Ctx& c, const PM& F, long d, const std::vector<VL>& SH, int funs, bool verify)
{
    const long m = F.r, cd = codim(F, d); nmod_poly_mat_t A; putp(A, F);
    for (const VL& s : SH) for (int f = 0; f < 3; f++)
    {
        if (!(funs >> f & 1)) continue;
        static const char* N[3] = { "nmod_poly_mat_mbasis", "nmod_poly_mat_pmbasis", "nmod_mat_poly_mbasis" }; std::vector<slong> t = sl(s, m); PM P(m, m, F.m);
        if (f < 2) { nmod_poly_mat_t B; putp(B, genp(0, m, m, 3, F.m, 9)); if (f == 0) nmod_poly_mat_mbasis(B, t.data(), A, d); else nmod_poly_mat_pmbasis(B, t.data(), A, d); P = getp(c, N[f], B, F.m); nmod_poly_mat_clear(B); }
        else { nmod_mat_poly_t X, Y; nmod_poly_mat_t B; nmod_mat_poly_init(X, m, F.c, F.m); nmod_mat_poly_set_trunc_from_poly_mat(X, A, d); nmod_mat_poly_init(Y, m, m, F.m); nmod_mat_poly_mbasis(Y, t.data(), X, d); nmod_poly_mat_init(B, m, m, F.m); nmod_poly_mat_set_from_mat_poly(B, Y); P = getp(c, N[f], B, F.m); nmod_poly_mat_clear(B); nmod_mat_poly_clear(X); nmod_mat_poly_clear(Y); }
        c.call(); c.observe(cd); for (long i = 0; i < m; i++) c.observe(t[i]); const std::string w = std::string(N[f]) + " of " + showp(F) + " at order " + std::to_string(d) + ", shift " + shows(s) + ": ";
        if (!mulp(P, F).trunc(d).zero()) c.fail("%sa row of the basis is not an approximant: %s", w.c_str(), showp(P).c_str()); if (!forms(P, s).owp) c.fail("%sthe basis is not in ordered weak Popov form: %s", w.c_str(), showp(P).c_str());
        long D = 0; for (long i = 0; i < m; i++) D += P.deg(i, i); if (D != cd) c.fail("%sthe determinant has degree %ld, the module of approximants has codimension %ld", w.c_str(), D, cd);
        for (long i = 0; i < m; i++) if (t[i] != sdeg(P, i, s)) c.fail("%sthe shifted degree of row %ld is %ld, returned %ld", w.c_str(), i, sdeg(P, i, s), (long) t[i]); if (t[m] != -55) c.fail("%swrites past the end of the shift", w.c_str());
        if (d && !F.zero()) c.interesting();
        if (verify && f == 0) for (int v = 0; v < 5; v++)
        {
            PM Q = v == 0 ? P : v == 1 ? times(P, 0, { 1, 1 }) : v == 2 ? times(P, m - 1, { 0, 1 }) : P; long e = v == 3 ? d + 1 : v == 4 ? d - 1 : d; if (e < 1) continue; const bool want = is_app(Q, F, e, s, e == d ? cd : codim(F, e)); nmod_poly_mat_t B; putp(B, Q); std::vector<slong> ss = sl(s, m);
            const int got = nmod_poly_mat_is_approximant_basis(B, A, e, ss.data(), ROW_LOWER); c.call(); if (!!got != want) c.fail("nmod_poly_mat_is_approximant_basis(%s) for %s at order %ld, shift %s: %d, expected %d", showp(Q).c_str(), showp(F).c_str(), e, shows(s).c_str(), got, want); samep(c, "is_approximant_basis (operand)", B, Q); nmod_poly_mat_clear(B);
        }
        if (verify && f == 0) for (int v = 0; v < 4; v++)   // wrong dimensions
        {
            const PM Q = resized(P, m + (v == 0) - (v == 1), m + (v == 2) - (v == 3)); if (Q.r == 0 || Q.c == 0) continue; nmod_poly_mat_t B; putp(B, Q); std::vector<slong> ss = sl(s, m);
            const int got = nmod_poly_mat_is_approximant_basis(B, A, d, ss.data(), ROW_LOWER); c.call(); if (got) c.fail("nmod_poly_mat_is_approximant_basis accepts a %ld x %ld matrix for %s", Q.r, Q.c, showp(F).c_str()); nmod_poly_mat_clear(B);
        }
    }
    samep(c, "approximant basis (operand)", A, F); nmod_poly_mat_clear(A);
}
static PM sub(const PM& a, long r, long n) { PM o(r, n, a.m); for (long d = 0; d < a.len(); d++) { Mat w(r, n, a.m); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) w.at(i, j) = a.f[d].at(i, j); o.f.push_back(w); } return o.norm(); }
static void kernel(mc::Ctx& c, const PM& F, const std::vector<VL>& RS, const std::vector<VL>& CS, bool verify)
{
    nmod_poly_mat_t A; putp(A, F);
    for (int o = 0; o < 4; o++)
    {
        const PM G = canon(F, o); const long m = G.r; if (!m) continue; const std::vector<VL>& SH = o < 2 ? RS : CS;
        for (size_t u = 0; u <= SH.size(); u++) for (int f = 0; f < 3; f++)
        {
            static const char* N[3] = { "nmod_poly_mat_kernel", "nmod_poly_mat_kernel_via_approx", "nmod_poly_mat_kernel_zls_approx" };
            if (f && (o || u == SH.size())) continue;
            VL s; if (u < SH.size()) s = SH[u]; else { const PM T = o >= 2 ? transp(F) : F; for (long i = 0; i < m; i++) { long d = 0; for (long j = 0; j < T.c; j++) d = std::max(d, T.deg(i, j)); s.push_back(d); } }
            const VL cs = cshift(s, o); std::vector<slong> t = sl(s, m), piv(m + 1, -44); const bool np = f == 0 && u % 3 == 2, nsh = u == SH.size();
            nmod_poly_mat_t K; putp(K, genp(3, m, m, 2, F.m, 4)); nmod_poly_mat_t B; putp(B, F); slong k = f == 0 ? nmod_poly_mat_kernel(K, np ? NULL : piv.data(), nsh ? NULL : t.data(), B, (poly_mat_form_t) (ORD_WEAK_POPOV - u % 2), ORI[o]) : f == 1 ? nmod_poly_mat_kernel_via_approx(K, piv.data(), t.data(), B) : nmod_poly_mat_kernel_zls_approx(K, piv.data(), t.data(), B);
            if (f < 2) samep(c, "kernel (operand)", B, F); nmod_poly_mat_clear(B); c.call(); c.observe(k);
            const std::string w = std::string(N[f]) + " (" + ORN[o] + ") of " + showp(F) + ", shift " + (nsh ? "NULL" : shows(s)) + ": ";
            const long mn = *std::min_element(cs.begin(), cs.end()), mx = *std::max_element(cs.begin(), cs.end()), top = mx + (mx - mn) + std::min(G.r, G.c) * std::max(G.len() - 1, 0L) + 1, n1 = kdim(G, cs, top), null = kdim(G, cs, top + 1) - n1;
            if (k != null) { c.fail("%sreturns nullity %ld, expected %ld", w.c_str(), (long) k, null); continue; }
            const PM KK = getp(c, N[f], K, F.m), KR = o < 2 ? sub(KK, k, m) : sub(KK, m, k), C = canon(KR, o); if (KK.r != m || KK.c != m) c.fail("%sthe shape of the output changed", w.c_str());
            if (k) { if (!mulp(C, G).zero()) c.fail("%s%s is not in the kernel", w.c_str(), showp(KR).c_str()); if (!forms(C, cs).owp) c.fail("%s%s is not in ordered weak Popov form", w.c_str(), showp(KR).c_str()); if (k < m || k == 1) c.interesting(); }
            long cnt = 0; for (long i = 0; i < k; i++) { const long sd = sdeg(C, i, cs), ii = o % 2 ? k - 1 - i : i; cnt += std::max(0L, top - sd + 1); c.observe(sd); if (!nsh && t[ii] != sd) c.fail("%sshifted degree %ld of %s is %ld, returned %ld", w.c_str(), ii, showp(KR).c_str(), sd, (long) t[ii]); const long p = pivot(C, i, cs), pp = o % 2 ? m - 1 - p : p; if (!np && piv[ii] != pp) c.fail("%spivot index %ld of %s is %ld, returned %ld", w.c_str(), ii, showp(KR).c_str(), pp, (long) piv[ii]); }
            if (cnt != n1) c.fail("%sthe rows of %s do not generate the kernel", w.c_str(), showp(KR).c_str()); if (t[m] != -55 || piv[m] != -44) c.fail("%swrites past the end of the shift or the pivots", w.c_str());
            if (verify && f == 0 && k > 0)
            {
                std::vector<slong> ss = sl(s, m);
                for (int v = 0; v < 6; v++)
                {   // 0: the basis, 1: wrong number of rows, 2: not in the kernel, 3: not in the required form, 4, 5: wrong number of columns
                    if ((v == 1 && k < 2) || (v == 2 && F.zero()) || (v == 3 && k < 2)) continue; PM q = C; if (v == 1) q = sub(C, k - 1, m); if (v == 2) { bool hit = false; for (long i = 0; i < m && !hit; i++) { q = C; q.set(0, i, 0, addm(q.co(0, i, 0), 1, F.m)); q.norm(); hit = !mulp(q, G).zero(); } }
                    if (v == 3) { q = C; const PM z = times(C, 0, { 0, 1, 1 }); for (long j = 0; j < m; j++) for (long d = 0; d < std::max(z.len(), C.len()); d++) { q.set(1, j, d, addm(C.co(1, j, d), z.co(0, j, d), F.m)); } for (int rep = 0; rep < 2; rep++) { } q.norm(); if (forms(q, cs).owp) continue; }
                    if (v >= 4) { q = resized(C, k, v == 4 ? m + 1 : m - 1); if (!q.c) continue; }
                    PM x = o % 2 ? reversed(q) : q; if (o >= 2) x = transp(x); nmod_poly_mat_t X; putp(X, x); const bool want = v == 0 || (v == 2 && mulp(q, G).zero()); const int got = nmod_poly_mat_is_kernel(X, ss.data(), A, ORD_WEAK_POPOV, ORI[o]); c.call(); if (!!got != want) c.fail("nmod_poly_mat_is_kernel (%s) of %s, shift %s, for %s: %d, expected %d", ORN[o], showp(F).c_str(), shows(s).c_str(), showp(x).c_str(), got, want); nmod_poly_mat_clear(X);
                }
            }
            nmod_poly_mat_clear(K);
        }
    }
    nmod_poly_mat_clear(A);
}
static std::vector<VL> shl(long n, int k) { std::vector<VL> o = { VL(n, 0) }; for (const VL& s : shifts(n, std::min(k, 5))) o.push_back(s); if (k > 5) { VL big; for (long i = 0; i < n; i++) big.push_back((i * 7 % 3) * 9); o.push_back(big); } return o; }
static const long BOX[][4] = { { 2, 1, 1, 4 }, { 2, 2, 1, 3 }, { 2, 1, 2, 2 }, { 2, 2, 2, 2 }, { 2, 3, 1, 2 }, { 3, 2, 1, 2 }, { 3, 1, 1, 3 }, { 2, 3, 1, 3 }, { 2, 3, 2, 1 }, { 3, 2, 2, 1 }, { 2, 4, 1, 2 }, { 2, 3, 3, 1 }, { 3, 3, 1, 2 } };
MC_SPACE(approx_all, -1, 24)
{
    const long b = c.choose(c.lim(8, 13, 13), "box"); const UL p = BOX[b][0]; const long r = BOX[b][1], n = BOX[b][2], len = BOX[b][3]; const UL N = ipow(p, r * n * len); const UL cap = c.lim(128, 512, 4096), q = c.choose(std::min(N, cap), "matrix"), step = (N + cap - 1) / cap; if (!c.mine()) return;
    const PM F = nthp(std::min(N - 1, q * std::max(step, 1UL)), r, n, len, p); for (long d = 0; d <= len + 2; d++) approx(c, F, d, shl(r, c.lim(3, 5, 6)), 7, true);
}
static PM data(int t, long r, long n, long len, UL m)
{
    if (t < 9) return genp(t, r, n, len, m, 5); const long rk = t == 9 ? std::min(r, n) - 1 : (std::min(r, n) + 1) / 2; PM x = genp(t == 10 ? 3 : 0, r, std::max(rk, 0L), (len + 1) / 2, m, 1), y = genp(0, std::max(rk, 0L), n, len / 2 + 1, m, 2); return rk <= 0 ? PM(r, n, m) : mulp(x, y);
}
MC_SPACE(approx_shapes, -1, 24)
{
    const UL p = c.from({ 2, 97, (1L << 60) - 93 }, "p"); const long r = c.range(1, c.lim(3, 4, 5), "rows"), n = c.range(1, c.lim(3, 4, 5), "cols"); const int t = c.choose(11, "data"); const long d = c.from(c.lim(0, 1, 2) == 0 ? std::vector<long>{ 3, 33 } : std::vector<long>{ 1, 2, 5, 8, 32, 33, 40 }, "order"), dl = c.from({ -2, 0, 3 }, "length"); if (!c.mine()) return;
    if (d > 8 && r * n > 9) return; const PM F = data(t, r, n, std::max(1L, std::min(d + dl, d > 8 && t % 2 ? 5L : 1000L)), p); approx(c, F, d, shl(r, d > 8 ? 3 : c.lim(3, 6, 6)), d > 8 ? 2 : 7, d <= 5);
}
MC_SPACE(approx_orders, -1, 16)
{
    const UL p = c.from({ 2, 97, (1L << 60) - 93 }, "p"); const long r = c.range(1, 3, "rows"), n = c.range(1, 2, "cols"), d = c.range(1, c.lim(36, 72, 140), "order"); if (!c.mine()) return; approx(c, data(d % 11 == 5 ? 0 : d % 11, r, n, 1 + d * 2 / 3, p), d, shl(r, 2), 2, false);
}
MC_SPACE(kernel_all, -1, 24)
{
    const long b = c.choose(c.lim(8, 13, 13), "box"); const UL p = BOX[b][0]; const long r = BOX[b][1], n = BOX[b][2], len = BOX[b][3]; const UL N = ipow(p, r * n * len); const UL cap = c.lim(128, 1024, 4096), q = c.choose(std::min(N, cap), "matrix"), step = (N + cap - 1) / cap; if (!c.mine()) return;
    kernel(c, nthp(std::min(N - 1, q * std::max(step, 1UL)), r, n, len, p), shl(r, c.lim(3, 5, 6)), shl(n, c.lim(3, 5, 6)), true);
}
MC_SPACE(kernel_shapes, -1, 24)
{
    const UL p = c.from({ 2, 97, (1L << 60) - 93 }, "p"); const long r = c.range(1, c.lim(4, 5, 6), "rows"), n = c.range(0, c.lim(3, 4, 6), "cols"); const int t = c.choose(11, "data"); const long len = c.from(c.lim(0, 1, 2) == 0 ? std::vector<long>{ 1, 3 } : std::vector<long>{ 1, 2, 3, 4 }, "length"); if (!c.mine()) return;
    kernel(c, data(t, r, n, len, p), shl(r, c.lim(3, 4, 6)), shl(std::max(n, 1L), c.lim(3, 4, 6)), true);
}
