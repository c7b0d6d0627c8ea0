// plain reference matrices over Z/m used by the flint-extras harnesses (no FLINT function involved)
#ifndef FREF_H
#define FREF_H
#include "mc.h"
#include <gmp.h>
#include <functional>
typedef unsigned long UL; typedef unsigned __int128 U2;
static inline UL rnd(UL a, UL b) { return mc::mix(mc::mix(0x9e3779b97f4a7c15UL, a), b + 0x1234567); }
static inline UL mulm(UL a, UL b, UL m) { return (UL) ((U2) a * b % m); }
static inline UL addm(UL a, UL b, UL m) { return (UL) (((U2) a + b) % m); }
static inline UL subm(UL a, UL b, UL m) { return (UL) (((U2) a + m - b) % m); }
static inline UL powm(UL a, UL e, UL m) { UL r = 1 % m; for (; e; e >>= 1, a = mulm(a, a, m)) if (e & 1) r = mulm(r, a, m); return r; }
static inline UL invm(UL a, UL m) { return powm(a, m - 2, m); }
struct Mat
{
    long r, c; UL m; std::vector<UL> v;
    Mat(long r_, long c_, UL m_) : r(r_), c(c_), m(m_), v(r_ * c_) { }
    UL& at(long i, long j) { return v[i * c + j]; }
    UL at(long i, long j) const { return v[i * c + j]; }
    bool operator==(const Mat& o) const { return r == o.r && c == o.c && v == o.v; }
    bool zero() const { for (UL x : v) if (x) return false; return true; }
};
static inline Mat mul(const Mat& a, const Mat& b) { Mat o(a.r, b.c, a.m); for (long i = 0; i < a.r; i++) for (long k = 0; k < a.c; k++) if (a.at(i, k)) for (long j = 0; j < b.c; j++) o.at(i, j) = addm(o.at(i, j), mulm(a.at(i, k), b.at(k, j), a.m), a.m); return o; }
// rank of the leading h x w block, by fraction-free search over rows in order: also returns the row rank profile
static inline std::vector<long> rowprofile(Mat a)
{
    std::vector<long> rp; std::vector<std::vector<UL>> basis; std::vector<long> piv;
    for (long i = 0; i < a.r; i++)
    {
        std::vector<UL> x(a.c); for (long j = 0; j < a.c; j++) x[j] = a.at(i, j);
        for (size_t b = 0; b < basis.size(); b++) { UL f = x[piv[b]]; if (f) for (long j = 0; j < a.c; j++) x[j] = subm(x[j], mulm(f, basis[b][j], a.m), a.m); }
        long p = 0; while (p < a.c && !x[p]) p++;
        if (p < a.c) { UL q = invm(x[p], a.m); for (auto& y : x) y = mulm(y, q, a.m); basis.push_back(x); piv.push_back(p); rp.push_back(i); }
    }
    return rp;
}
static inline long rankof(const Mat& a) { return (long) rowprofile(a).size(); }
static inline Mat lead(const Mat& a, long h, long w) { Mat o(h, w, a.m); for (long i = 0; i < h; i++) for (long j = 0; j < w; j++) o.at(i, j) = a.at(i, j); return o; }
static inline Mat nth(UL k, long r, long c, UL m) { Mat o(r, c, m); for (auto& x : o.v) { x = k % m; k /= m; } return o; }
static inline UL ipow(UL b, long e) { UL r = 1; while (e-- > 0) r *= b; return r; }
// a matrix of the given rank, by pattern: 0 dense product of full-rank factors, 1 scattered rows and columns (the others zero), 2 repeated rows, 3 rank in the last rows
static inline Mat structured(int t, long r, long c, long rk, UL m, UL salt = 0)
{
    Mat o(r, c, m); if (rk == 0) return o;
    Mat L(r, rk, m), R(rk, c, m);
    for (long i = 0; i < r; i++) for (long j = 0; j < rk; j++)
    {
        long ii = t == 3 ? r - 1 - i : t == 1 ? (i * 7 + 3) % r : i;        // an injection when gcd(7, r) = 1
        L.at(i, j) = t == 2 ? (i % rk == j) : t == 1 ? (ii == j) : i == j && t == 0 ? 1 : (t == 3 ? (ii == j) : rnd(i * 131 + j, salt + 1) % m);
    }
    if (t == 0) for (long i = 0; i < rk; i++) for (long j = i + 1; j < rk; j++) L.at(i, j) = 0;      // unit lower trapezoidal
    for (long i = 0; i < rk; i++) for (long j = 0; j < c; j++) { long jj = t == 1 ? (j * 5 + 2) % c : t == 3 ? c - 1 - j : j; R.at(i, j) = jj == i ? 1 : jj < i ? 0 : t == 1 ? 0 : t == 2 ? (rnd(i * 17 + j, salt) & 1 ? m - 1 : 0) : rnd(i * 57 + j, salt + 2) % m; }
    return mul(L, R);
}
#endif
