// plain reference polynomial matrices over Z/pZ (lists of coefficient matrices) and their exchange with FLINT objects
#ifndef FPOLY_H
#define FPOLY_H
#include "fref.h"
extern "C" {
#include "pml.h"
#include <flint/nmod_poly_mat.h>
}
struct PM
{
    long r, c; UL m; std::vector<Mat> f;        // f has no trailing zero matrix
    PM(long r_, long c_, UL m_) : r(r_), c(c_), m(m_) { }
    long len() const { return f.size(); }
    UL co(long i, long j, long d) const { return d >= 0 && d < (long) f.size() ? f[d].at(i, j) : 0; }
    void set(long i, long j, long d, UL x) { while ((long) f.size() <= d) f.push_back(Mat(r, c, m)); f[d].at(i, j) = x % m; }
    PM& norm() { while (!f.empty() && f.back().zero()) f.pop_back(); return *this; }
    long deg(long i, long j) const { long d = (long) f.size() - 1; while (d >= 0 && !f[d].at(i, j)) d--; return d; }
    bool operator==(const PM& o) const { return r == o.r && c == o.c && f == o.f; }
    bool zero() const { return f.empty(); }
    PM trunc(long n) const { PM o = *this; if ((long) o.f.size() > n) o.f.resize(std::max(n, 0L), Mat(r, c, m)); return o.norm(); }
    PM shiftr(long n) const { PM o(r, c, m); for (long d = n; d < len(); d++) o.f.push_back(f[d]); return o; }
};
static inline PM mulp(const PM& a, const PM& b)
{
    PM o(a.r, b.c, a.m); if (!a.len() || !b.len()) return o; const UL m = a.m; const bool small = m >> 60 == 0;
    for (long k = 0; k < a.len() + b.len() - 1; k++)
    {
        Mat w(a.r, b.c, m); std::vector<U2> acc(w.v.size()); long cnt = 0;
        auto red = [&] { for (auto& x : acc) x %= m; cnt = 0; };
        for (long i = std::max(0L, k - b.len() + 1); i <= std::min(k, a.len() - 1); i++) for (long t = 0; t < a.c; t++)
        {
            if (cnt >= (small ? 200 : 0)) red();
            for (long x = 0; x < a.r; x++) { UL u = a.f[i].at(x, t); if (u) for (long y = 0; y < b.c; y++) acc[x * b.c + y] += (U2) u * b.f[k - i].at(t, y); }
            cnt++;
        }
        red(); for (size_t e = 0; e < acc.size(); e++) w.v[e] = (UL) acc[e]; o.f.push_back(w);
    }
    return o.norm();
}
static inline PM addp(const PM& a, const PM& b, bool sub = false) { PM o(a.r, a.c, a.m); for (long d = 0; d < std::max(a.len(), b.len()); d++) { Mat w(a.r, a.c, a.m); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) w.at(i, j) = (sub ? subm : addm)(a.co(i, j, d), b.co(i, j, d), a.m); o.f.push_back(w); } return o.norm(); }
static inline PM identp(long n, UL m) { PM o(n, n, m); for (long i = 0; i < n; i++) o.set(i, i, 0, 1); return o.norm(); }
// the k-th matrix with all entries of length at most len
static inline PM nthp(UL k, long r, long c, long len, UL m) { PM o(r, c, m); for (long d = 0; d < len; d++) { Mat w(r, c, m); for (auto& x : w.v) { x = k % m; k /= m; } o.f.push_back(w); } return o.norm(); }
// data: 0 dense, 1 all p-1, 2 sparse with zero rows and columns, 3 entries of very different lengths, 4 a single top coefficient, 5 zero, 6 constant, 7 repeated rows, 8 multiple of x
static inline PM genp(int t, long r, long c, long len, UL m, UL s)
{
    PM o(r, c, m);
    for (long d = 0; d < len; d++)
    {
        Mat w(r, c, m);
        for (long i = 0; i < r; i++) for (long j = 0; j < c; j++)
        {
            UL x = rnd(i * 1009 + j * 31 + d * 65537, s) % m; if (d == len - 1 && !x) x = 1 % m; long l = 1 + (long) (rnd(i * 7 + j * 13, s + 5) % len);
            w.at(i, j) = t == 0 ? x : t == 1 ? m - 1 : t == 2 ? ((i + 2 * j + s) % 3 == 0 && i % 2 == 0 && d % 2 == (i + j) % 2 ? x : 0) : t == 3 ? (d < l ? x : 0) : t == 4 ? (d == len - 1 && i == r - 1 && j == 0 ? x : 0) : t == 5 ? 0 : t == 6 ? (d == 0 ? x : 0) : t == 7 ? rnd(j * 31 + d * 65537, s + i % 2) % m : d >= len / 2 ? x : 0;
        }
        o.f.push_back(w);
    }
    return o.norm();
}
static inline std::string showp(const PM& a)
{
    std::string s = std::to_string(a.r) + "x" + std::to_string(a.c) + " mod " + std::to_string(a.m) + ":[";
    for (long i = 0; i < a.r; i++) { s += "["; for (long j = 0; j < a.c; j++) { s += j ? ", " : ""; for (long d = 0; d <= std::max(0L, a.deg(i, j)); d++) s += (d ? " " : "") + std::to_string(a.co(i, j, d)); } s += "]"; }
    return s.substr(0, 260) + "]";
}
// extra: entries get spare room and the room is dirty
static inline void fillp(nmod_poly_mat_struct* X, const PM& a, long extra = 0)
{
    for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++)
    {
        nmod_poly_struct* e = nmod_poly_mat_entry(X, i, j); long n = a.deg(i, j) + 1; nmod_poly_fit_length(e, n + extra);
        for (long d = 0; d < n; d++) e->coeffs[d] = a.co(i, j, d); for (long d = n; d < e->alloc; d++) e->coeffs[d] = ~0UL; e->length = n;
    }
}
static inline void putp(nmod_poly_mat_t X, const PM& a, long extra = 0) { nmod_poly_mat_init(X, a.r, a.c, a.m); fillp(X, a, extra); }
// reads a FLINT object; an entry that is not in normal form (leading zero, unreduced coefficient, wrong modulus) is a failure
static inline PM getp(mc::Ctx& c, const char* g, const nmod_poly_mat_struct* X, UL m)
{
    PM o(X->r, X->c, m); if (X->modulus != m) c.fail("%s: the modulus of the matrix changed", g);
    for (long i = 0; i < o.r; i++) for (long j = 0; j < o.c; j++)
    {
        const nmod_poly_struct* e = nmod_poly_mat_entry(X, i, j); if (e->length < 0 || e->length > e->alloc) c.fail("%s: entry (%ld, %ld) has length %ld, allocation %ld", g, i, j, e->length, e->alloc);
        if (e->mod.n != m) c.fail("%s: entry (%ld, %ld) has another modulus", g, i, j); if (e->length && !e->coeffs[e->length - 1]) c.fail("%s: entry (%ld, %ld) is not normalised", g, i, j);
        for (long d = 0; d < e->length; d++) { if (e->coeffs[d] >= m) c.fail("%s: entry (%ld, %ld) has a coefficient that is not reduced", g, i, j); o.set(i, j, d, e->coeffs[d]); }
    }
    return o.norm();
}
static inline void obsp(mc::Ctx& c, const PM& a) { for (auto& w : a.f) for (UL x : w.v) c.observe(x); }
static inline void samep(mc::Ctx& c, const char* g, const nmod_poly_mat_struct* X, const PM& want) { c.call(); obsp(c, want); const PM o = getp(c, g, X, want.m); if (!(o == want)) c.fail("%s returns %s, expected %s", g, showp(o).c_str(), showp(want).c_str()); }
// determinant by expansion along subsets of columns
static inline std::vector<UL> detp(const PM& a)
{
    const UL m = a.m; std::vector<PM> D(1L << a.r, PM(1, 1, m)); D[0].set(0, 0, 0, 1); D[0].norm();
    for (long S = 1; S < 1L << a.r; S++)
    {
        long i = __builtin_popcountl(S) - 1; PM acc(1, 1, m);
        for (long j = 0; j < a.r; j++) if (S >> j & 1)
        {
            PM e(1, 1, m); for (long d = 0; d <= a.deg(i, j); d++) e.set(0, 0, d, a.co(i, j, d)); if (e.zero()) continue;
            acc = addp(acc, mulp(e.norm(), D[S & ~(1L << j)]), __builtin_popcountl(S >> (j + 1)) & 1);
        }
        D[S] = acc;
    }
    std::vector<UL> o; for (long d = 0; d < D.back().len(); d++) o.push_back(D.back().co(0, 0, d)); return o;
}
#endif
