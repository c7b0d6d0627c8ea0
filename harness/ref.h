// Reference model: deliberately boring arithmetic on coefficient arrays.
// Only NTL's containers are used (zz_pX, Vec, Mat as storage, and zz_p's modulus);
// products, shifts, truncations, determinants... are recomputed here from the
// textbook definition, never by calling the code under test.
#ifndef REF_H
#define REF_H

#include <NTL/lzz_p.h>
#include <NTL/lzz_pX.h>
#include <NTL/vec_lzz_p.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/matrix.h>
#include <NTL/vector.h>
#include <NTL/ZZ.h>
#include "mc.h"

namespace ref {

using NTL::zz_p;
using NTL::zz_pX;
using NTL::Vec;
using NTL::Mat;
typedef unsigned __int128 u128;
typedef Vec<zz_pX> VX;
typedef Mat<zz_pX> MX;
typedef Mat<zz_p> MP;
typedef Vec<zz_p> VP;
typedef std::vector<long> VL;

// ------------------------------------------------------------------ fields
// kind >= 0: NTL FFT prime number `kind`; p < 0: UserFFTInit(-p); else init(p)
const long FFT0 = 1000000000L;     // pseudo-primes: FFT0+i = FFTInit(i)
inline void setp(long p)
{
    static std::map<long, NTL::zz_pContext> cache;
    auto it = cache.find(p);
    if (it == cache.end())
    {
        if (p >= FFT0 && p < FFT0 + 20) zz_p::FFTInit(p - FFT0);
        else if (p < 0) zz_p::UserFFTInit(-p);
        else zz_p::init(p);
        NTL::zz_pContext c; c.save();
        cache[p] = c;
    }
    else it->second.restore();
    NTL::SetSeed(NTL::ZZ(17));
}
const long P60 = 1139410705724735489L;   // a 60-bit prime, NTL's own FFT prime, used via init()
const long P59 = 288230376151711717L;    // 58 bits
const long P31 = 2147483629L;            // just under 2^31
const long P30 = 1073741789L;
const long P27 = 134217689L;
const long P25 = 33554393L;              // just under 2^25
const long P23 = 8388593L;               // just under 2^23
const long P20 = 1048573L;
const long P16 = 65521L;
// the largest odd number below 2^(h/2) that passes NTL's primality test (h half bits)
inline long below_half(long h)
{
    long b = (h % 2) ? (long)(sqrtl(2.0L) * (long double)(1L << (h / 2))) : (1L << (h / 2));
    if (b > NTL_SP_BOUND) b = NTL_SP_BOUND;
    b -= 1 + (b % 2); if (b % 2 == 0) b--;
    while (!NTL::ProbPrime(b, 20)) b -= 2;
    return b;
}

// NTL's thresholds for the current prime
namespace ntl_thr { using namespace NTL; inline long mulx() { return NTL_zz_pX_MUL_CROSSOVER; } inline long newt() { return NTL_zz_pX_NEWTON_CROSSOVER; } }
inline long MULX() { return ntl_thr::mulx(); }
inline long NEWTONX() { return ntl_thr::newt(); }

// ------------------------------------------------------------------ scalars
inline long md() { return zz_p::modulus(); }
inline long mulm(long a, long b)
{
    unsigned long p = (unsigned long) md();
    if (p < (1UL << 31)) return (long) ((unsigned long) a * (unsigned long) b % p);
    return (long) ((u128) (unsigned long) a * (unsigned long) b % p);
}
inline long addm(long a, long b) { long r = a - md() + b; return r < 0 ? r + md() : r; }
inline long subm(long a, long b) { long r = a - b; return r < 0 ? r + md() : r; }
inline long powm(long a, long e) { long r = 1 % md(); while (e > 0) { if (e & 1) r = mulm(r, a); a = mulm(a, a); e >>= 1; } return r; }
inline long invm(long a) { return powm(a, md() - 2); }
inline zz_p Z(long a) { zz_p r; r.LoopHole() = a; return r; }   // a already reduced
inline long R(const zz_p& a) { return NTL::rep(a); }

// deterministic, well spread field element number i of stream s
inline long elt(uint64_t s, uint64_t i)
{
    uint64_t h = mc::mix(mc::mix(0x1234567, s), i);
    return (long) (h % (uint64_t) md());
}

// ------------------------------------------------------------------ polynomials
inline long C(const zz_pX& a, long i) { return (i < 0 || i >= a.rep.length()) ? 0 : R(a.rep[i]); }
inline bool normalized(const zz_pX& a) { long n = a.rep.length(); return n == 0 || R(a.rep[n - 1]) != 0; }
inline bool wellformed(const zz_pX& a)
{
    for (long i = 0; i < a.rep.length(); i++) { long v = R(a.rep[i]); if (v < 0 || v >= md()) return false; }
    return normalized(a);
}
inline zz_pX mk(const VL& v)
{
    zz_pX r; long n = (long) v.size();
    while (n > 0 && v[n - 1] == 0) n--;
    r.rep.SetLength(n);
    for (long i = 0; i < n; i++) r.rep[i] = Z(v[i]);
    return r;
}
inline VL un(const zz_pX& a) { VL v(a.rep.length()); for (size_t i = 0; i < v.size(); i++) v[i] = R(a.rep[i]); return v; }
inline long dg(const zz_pX& a) { long n = a.rep.length(); while (n > 0 && R(a.rep[n - 1]) == 0) n--; return n - 1; }
inline bool eq(const VL& a, const VL& b) { return a == b; }
inline bool eq(const zz_pX& a, const zz_pX& b)   // equal as polynomials *and* in canonical representation
{
    if (a.rep.length() != b.rep.length()) return false;
    for (long i = 0; i < a.rep.length(); i++) if (R(a.rep[i]) != R(b.rep[i])) return false;
    return true;
}
inline zz_pX radd(const zz_pX& a, const zz_pX& b)
{ VL v(std::max(a.rep.length(), b.rep.length())); for (size_t i = 0; i < v.size(); i++) v[i] = addm(C(a, i), C(b, i)); return mk(v); }
inline zz_pX rsub(const zz_pX& a, const zz_pX& b)
{ VL v(std::max(a.rep.length(), b.rep.length())); for (size_t i = 0; i < v.size(); i++) v[i] = subm(C(a, i), C(b, i)); return mk(v); }
inline zz_pX rneg(const zz_pX& a) { return rsub(zz_pX(), a); }
inline void accmul(VL& v, const zz_pX& a, const zz_pX& b)    // v += a*b
{
    long n = a.rep.length(), m = b.rep.length();
    if (n == 0 || m == 0) return;
    if ((long) v.size() < n + m - 1) v.resize(n + m - 1, 0);
    const zz_p* A = a.rep.elts(); const zz_p* B = b.rep.elts();
    unsigned long p = (unsigned long) md();
    for (long k = 0; k < n + m - 1; k++)
    {
        u128 acc = (unsigned long) v[k]; long cnt = 0;
        for (long i = std::max(0L, k - m + 1); i <= k && i < n; i++)
        {
            acc += (u128) (unsigned long) R(A[i]) * (unsigned long) R(B[k - i]);
            if (++cnt == 100) { acc %= p; cnt = 0; }
        }
        v[k] = (long) (acc % p);
    }
}
inline zz_pX rmul(const zz_pX& a, const zz_pX& b) { VL v; accmul(v, a, b); return mk(v); }
inline zz_pX scal(const zz_pX& a, long s) { VL v(a.rep.length()); for (size_t i = 0; i < v.size(); i++) v[i] = mulm(C(a, i), s); return mk(v); }
// coefficients lo..hi-1 of a, moved to start at 0
inline zz_pX slice(const zz_pX& a, long lo, long hi) { VL v; for (long i = lo; i < hi; i++) v.push_back(C(a, i)); return mk(v); }
inline zz_pX rtrunc(const zz_pX& a, long n) { return slice(a, 0, std::max(n, 0L)); }
inline zz_pX shl(const zz_pX& a, long k)      // k may be negative: right shift
{
    if (k < 0) return slice(a, -k, a.rep.length());
    VL v(k, 0); for (long i = 0; i < a.rep.length(); i++) v.push_back(C(a, i)); return mk(v);
}
inline zz_pX rrev(const zz_pX& a, long hi)     // x^hi a(1/x), coefficients 0..hi
{ VL v; for (long i = 0; i <= hi; i++) v.push_back(C(a, hi - i)); return mk(v); }
inline long ev(const zz_pX& a, long x) { long r = 0; for (long i = a.rep.length() - 1; i >= 0; i--) r = addm(mulm(r, x), C(a, i)); return r; }
inline void rdivrem(zz_pX& q, zz_pX& r, const zz_pX& a, const zz_pX& b)
{
    VL A = un(rtrunc(a, dg(a) + 1)); long db = dg(b); long ib = invm(C(b, db)); VL Q;
    for (long i = (long) A.size() - 1 - db; i >= 0; i--)
    {
        long t = mulm(A[i + db], ib);
        if ((long) Q.size() < i + 1) Q.resize(i + 1, 0);
        Q[i] = t;
        for (long j = 0; j <= db; j++) A[i + j] = subm(A[i + j], mulm(t, C(b, j)));
    }
    q = mk(Q); r = mk(A);
}
inline zz_pX rrem(const zz_pX& a, const zz_pX& b) { zz_pX q, r; rdivrem(q, r, a, b); return r; }
inline zz_pX rquo(const zz_pX& a, const zz_pX& b) { zz_pX q, r; rdivrem(q, r, a, b); return q; }
inline zz_pX rmonic(const zz_pX& a) { return dg(a) < 0 ? zz_pX() : scal(a, invm(C(a, dg(a)))); }
inline zz_pX rgcd(zz_pX a, zz_pX b) { while (dg(b) >= 0) { zz_pX r = rrem(a, b); a = b; b = r; } return rmonic(a); }
inline zz_pX mono(long c, long d) { VL v(d + 1, 0); v[d] = c % md(); return mk(v); }
inline zz_pX cst(long c) { return mono(c, 0); }
// power series 1/a mod x^n
inline zz_pX invser(const zz_pX& a, long n)
{
    VL v(n, 0); long i0 = invm(C(a, 0));
    for (long k = 0; k < n; k++)
    {
        long s = k == 0 ? 1 % md() : 0;
        for (long j = 1; j <= k; j++) s = subm(s, mulm(C(a, j), v[k - j]));
        v[k] = mulm(s, i0);
    }
    return mk(v);
}

// ------------------------------------------------------------------ data alphabet
// Every polynomial of the quick alphabets is one of these shapes, for a given
// length (number of coefficients) n:
//   0 zero, 1 all coefficients p-1 (largest accumulations), 2 spread dense,
//   3 leading monomial only, 4 constant only, 5 sparse (ends + middle),
//   6 dense with zero low half, 7 dense except zero top (degree drop)
enum { D_ZERO, D_MAX, D_DENSE, D_TOP, D_CONST, D_SPARSE, D_HIGH, D_DROP, D_COUNT };
inline zz_pX pat(long kind, long n, uint64_t s)
{
    n = std::max(n, 0L); VL v(n, 0);
    switch (kind)
    {
        case D_ZERO: break;
        case D_MAX: for (auto& x : v) x = md() - 1; break;
        case D_DENSE: for (long i = 0; i < n; i++) v[i] = elt(s, i); if (n) { if (!v[n - 1]) v[n - 1] = 1; } break;
        case D_TOP: if (n) v[n - 1] = 1 + elt(s, 0) % (md() - 1); break;
        case D_CONST: if (n) v[0] = 1 + elt(s, 0) % (md() - 1); break;
        case D_SPARSE: if (n) { v[0] = md() - 1; v[n / 2] = 1; v[n - 1] = 1 + elt(s, 1) % (md() - 1); } break;
        case D_HIGH: for (long i = n / 2; i < n; i++) v[i] = elt(s, i); if (n && !v[n - 1]) v[n - 1] = 1; break;
        case D_DROP: for (long i = 0; i < n - 1 - n / 3; i++) v[i] = elt(s, i); break;
    }
    return mk(v);
}
// polynomial number k among the p^n of degree < n
inline zz_pX nth(long k, long n) { VL v(n); for (long i = 0; i < n; i++) { v[i] = k % md(); k /= md(); } return mk(v); }
inline long ipow(long b, long e) { long r = 1; while (e-- > 0) r *= b; return r; }

// ------------------------------------------------------------------ constant matrices
inline MP cm(long m, long n) { MP r; r.SetDims(m, n); return r; }
inline bool eq(const MP& a, const MP& b)
{
    if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false;
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (R(a[i][j]) != R(b[i][j])) return false;
    return true;
}
inline bool eq(const VP& a, const VP& b)
{
    if (a.length() != b.length()) return false;
    for (long i = 0; i < a.length(); i++) if (R(a[i]) != R(b[i])) return false;
    return true;
}
inline MP rmul(const MP& a, const MP& b)
{
    MP c = cm(a.NumRows(), b.NumCols());
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++)
    { long s = 0; for (long k = 0; k < a.NumCols(); k++) s = addm(s, mulm(R(a[i][k]), R(b[k][j]))); c[i][j] = Z(s); }
    return c;
}
inline VP rmul(const MP& a, const VP& b)
{
    VP c; c.SetLength(a.NumRows());
    for (long i = 0; i < a.NumRows(); i++) { long s = 0; for (long k = 0; k < a.NumCols(); k++) s = addm(s, mulm(R(a[i][k]), R(b[k]))); c[i] = Z(s); }
    return c;
}
inline VP rmul(const VP& b, const MP& a)
{
    VP c; c.SetLength(a.NumCols());
    for (long j = 0; j < a.NumCols(); j++) { long s = 0; for (long k = 0; k < a.NumRows(); k++) s = addm(s, mulm(R(b[k]), R(a[k][j]))); c[j] = Z(s); }
    return c;
}
inline MP radd(const MP& a, const MP& b)
{ MP c = cm(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = Z(addm(R(a[i][j]), R(b[i][j]))); return c; }
inline MP rsub(const MP& a, const MP& b)
{ MP c = cm(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = Z(subm(R(a[i][j]), R(b[i][j]))); return c; }
inline MP tr(const MP& a)
{ MP c = cm(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[j][i] = a[i][j]; return c; }
inline MP identP(long n) { MP c = cm(n, n); for (long i = 0; i < n; i++) c[i][i] = Z(1 % md()); return c; }
// row echelon; returns rank, optionally determinant
inline long rankdet(MP a, long* det = nullptr)
{
    long m = a.NumRows(), n = a.NumCols(), r = 0; long d = 1 % md();
    for (long j = 0; j < n && r < m; j++)
    {
        long p = -1; for (long i = r; i < m; i++) if (R(a[i][j])) { p = i; break; }
        if (p < 0) { d = 0; continue; }
        if (p != r) { for (long k = 0; k < n; k++) { zz_p t = a[p][k]; a[p][k] = a[r][k]; a[r][k] = t; } d = subm(0, d); }
        long iv = invm(R(a[r][j])); d = mulm(d, R(a[r][j]));
        for (long i = r + 1; i < m; i++)
        {
            long f = mulm(R(a[i][j]), iv); if (!f) continue;
            for (long k = j; k < n; k++) a[i][k] = Z(subm(R(a[i][k]), mulm(f, R(a[r][k]))));
        }
        r++;
    }
    if (det) *det = (r < n) ? 0 : d;
    return r;
}
inline long rrank(const MP& a) { return rankdet(a); }
inline long rdet(const MP& a) { long d; rankdet(a, &d); return a.NumRows() == 0 ? 1 % md() : d; }
inline MP rinverse(const MP& a)     // a invertible
{
    long n = a.NumRows(); MP w = cm(n, 2 * n);
    for (long i = 0; i < n; i++) { for (long j = 0; j < n; j++) w[i][j] = a[i][j]; w[i][n + i] = Z(1 % md()); }
    for (long j = 0; j < n; j++)
    {
        long p = j; while (p < n && !R(w[p][j])) p++;
        if (p == n) throw std::logic_error("ref inverse of singular matrix");
        for (long k = 0; k < 2 * n; k++) { zz_p t = w[p][k]; w[p][k] = w[j][k]; w[j][k] = t; }
        long iv = invm(R(w[j][j]));
        for (long k = 0; k < 2 * n; k++) w[j][k] = Z(mulm(iv, R(w[j][k])));
        for (long i = 0; i < n; i++) if (i != j)
        { long f = R(w[i][j]); if (f) for (long k = 0; k < 2 * n; k++) w[i][k] = Z(subm(R(w[i][k]), mulm(f, R(w[j][k])))); }
    }
    MP r = cm(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) r[i][j] = w[i][n + j];
    return r;
}
inline MP patM(long kind, long m, long n, uint64_t s)     // constant matrices alphabet
{
    MP a = cm(m, n);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++)
    {
        long v = 0;
        switch (kind)
        {
            case 0: v = elt(s, i * 1000 + j); break;                 // dense
            case 1: v = md() - 1; break;                             // max
            case 2: v = i == j ? 1 : 0; break;                       // identity
            case 3: v = (i == m - 1 && j == n - 1) ? md() - 1 : 0; break;
            case 4: v = 0; break;
        }
        a[i][j] = Z(v % md());
    }
    return a;
}
inline VP patV(long kind, long n, uint64_t s)
{
    VP v; v.SetLength(n);
    for (long i = 0; i < n; i++)
    {
        long x = 0;
        switch (kind)
        {
            case 0: x = elt(s, i); break;
            case 1: x = md() - 1; break;
            case 2: x = i == 0 ? 1 : 0; break;
            case 3: x = i == n - 1 ? md() - 1 : 0; break;
            case 4: x = 0; break;
            default: x = (i == kind - 5) ? 1 : 0;
        }
        v[i] = Z(x % md());
    }
    return v;
}

// ------------------------------------------------------------------ polynomial matrices
inline MX mx(long m, long n) { MX r; r.SetDims(m, n); return r; }
inline bool eq(const MX& a, const MX& b)
{
    if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false;
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!eq(a[i][j], b[i][j])) return false;
    return true;
}
inline bool eq(const VX& a, const VX& b)
{
    if (a.length() != b.length()) return false;
    for (long i = 0; i < a.length(); i++) if (!eq(a[i], b[i])) return false;
    return true;
}
inline bool wellformed(const MX& a)
{ for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!wellformed(a[i][j])) return false; return true; }
inline long dg(const MX& a) { long d = -1; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) d = std::max(d, dg(a[i][j])); return d; }
inline long dg(const VX& a) { long d = -1; for (long i = 0; i < a.length(); i++) d = std::max(d, dg(a[i])); return d; }
template <class F> inline MX mapM(const MX& a, F f)
{ MX c = mx(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = f(a[i][j], i, j); return c; }
inline MX rmul(const MX& a, const MX& b)
{
    MX c = mx(a.NumRows(), b.NumCols());
    for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++)
    { VL v; for (long k = 0; k < a.NumCols(); k++) accmul(v, a[i][k], b[k][j]); c[i][j] = mk(v); }
    return c;
}
inline VX rmul(const MX& a, const VX& b)
{
    VX c; c.SetLength(a.NumRows());
    for (long i = 0; i < a.NumRows(); i++) { VL v; for (long k = 0; k < a.NumCols(); k++) accmul(v, a[i][k], b[k]); c[i] = mk(v); }
    return c;
}
inline VX rmul(const VX& b, const MX& a)
{
    VX c; c.SetLength(a.NumCols());
    for (long j = 0; j < a.NumCols(); j++) { VL v; for (long k = 0; k < a.NumRows(); k++) accmul(v, b[k], a[k][j]); c[j] = mk(v); }
    return c;
}
inline MX radd(const MX& a, const MX& b) { return mapM(a, [&](const zz_pX& x, long i, long j) { return radd(x, b[i][j]); }); }
inline MX rsub(const MX& a, const MX& b) { return mapM(a, [&](const zz_pX& x, long i, long j) { return rsub(x, b[i][j]); }); }
inline MX rtrunc(const MX& a, long n) { return mapM(a, [&](const zz_pX& x, long, long) { return rtrunc(x, n); }); }
inline MX slice(const MX& a, long lo, long hi) { return mapM(a, [&](const zz_pX& x, long, long) { return slice(x, lo, hi); }); }
inline MX shl(const MX& a, long k) { return mapM(a, [&](const zz_pX& x, long, long) { return shl(x, k); }); }
inline MX tr(const MX& a) { MX c = mx(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[j][i] = a[i][j]; return c; }
inline MX identX(long n) { MX c = mx(n, n); for (long i = 0; i < n; i++) c[i][i] = cst(1); return c; }
inline MX lift(const MP& a) { MX c = mx(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = cst(R(a[i][j])); return c; }
inline MP coef(const MX& a, long d) { MP c = cm(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = Z(C(a[i][j], d)); return c; }
inline MP ev(const MX& a, long x) { MP c = cm(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = Z(ev(a[i][j], x)); return c; }
inline bool iszero(const MX& a) { return dg(a) < 0; }
inline MX sub_matrix(const MX& a, long r0, long r1, long c0, long c1)
{ MX c = mx(r1 - r0, c1 - c0); for (long i = r0; i < r1; i++) for (long j = c0; j < c1; j++) c[i - r0][j - c0] = a[i][j]; return c; }
// fraction-free (Bareiss) elimination: rank over K(x), determinant when square
inline long rankdet(MX a, zz_pX* det = nullptr)
{
    long m = a.NumRows(), n = a.NumCols(), r = 0; zz_pX prev = cst(1); bool ngt = false; bool full = true;
    for (long j = 0; j < n && r < m; j++)
    {
        long p = -1; for (long i = r; i < m; i++) if (dg(a[i][j]) >= 0) { p = i; break; }
        if (p < 0) { full = false; continue; }
        if (p != r) { for (long k = 0; k < n; k++) { zz_pX t = a[p][k]; a[p][k] = a[r][k]; a[r][k] = t; } ngt = !ngt; }
        for (long i = r + 1; i < m; i++)
        {
            for (long k = j + 1; k < n; k++) a[i][k] = rquo(rsub(rmul(a[r][j], a[i][k]), rmul(a[i][j], a[r][k])), prev);
            a[i][j] = zz_pX();
        }
        prev = a[r][j];
        r++;
    }
    if (det) { if (r < n || !full) *det = zz_pX(); else *det = ngt ? rneg(prev) : prev; if (n == 0) *det = cst(1); }
    return r;
}
inline long rrank(const MX& a) { return rankdet(a); }
inline zz_pX rdet(const MX& a) { zz_pX d; rankdet(a, &d); return d; }
// truncated inverse: a(0) invertible
inline MX rinv_trunc(const MX& a, long d)
{
    long n = a.NumRows(); MP i0 = rinverse(coef(a, 0)); std::vector<MP> x;
    for (long k = 0; k < d; k++)
    {
        MP s = k == 0 ? identP(n) : cm(n, n);
        for (long j = 1; j <= k; j++) s = rsub(s, rmul(coef(a, j), x[k - j]));
        x.push_back(rmul(i0, s));
    }
    MX r = mx(n, n);
    for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { VL v; for (long k = 0; k < d; k++) v.push_back(R(x[k][i][j])); r[i][j] = mk(v); }
    return r;
}
// polynomial matrix alphabet: every entry has `len` coefficients at most
//   D_*: same shape for all entries; D_COUNT: one dense entry, others zero;
//   D_COUNT+1: unbalanced degrees (row i, column j of length len*(1+(i+2j)%3)/3)
//   D_COUNT+2: zero first row / zero last column, rest dense
enum { M_ONE = D_COUNT, M_UNBAL, M_ZROW, M_COUNT };
inline void setc(zz_pX& f, long i, long v) { VL w; for (long k = 0; k <= std::max(dg(f), i); k++) w.push_back(k == i ? v % md() : C(f, k)); f = mk(w); }
// (a0, a1), (b0, b1) with a0 b0 + a1 b1, over the integers, a multiple of one of NTL's first FFT primes (w < 3) or of two of them (p above them)
inline bool vanish(long w, long a[2], long b[2])
{
    static long f[3] = { 0, 0, 0 };
    if (!f[0]) { NTL::zz_pPush push; for (long i = 0; i < 3; i++) { NTL::zz_p::FFTInit(i); f[i] = NTL::zz_p::modulus(); } }
    const long p = md();
    if (w < 3) { long h = 1L << 30; if (p <= h) return false; a[0] = f[w] / h; b[0] = h; a[1] = f[w] % h; b[1] = 1; return a[0] < p && b[0] < p && a[1] < p; }
    if (w < 6) { if (p <= f[0] || p <= f[1] || p <= f[2]) return false; a[0] = f[(w - 3) % 3]; b[0] = f[(w - 2) % 3]; a[1] = b[1] = 0; return true; }
    if (w < 9) { if (p <= f[w - 6]) return false; a[0] = f[w - 6]; b[0] = p - 1; a[1] = b[1] = 0; return true; }
    return false;
}
inline MX patX(long kind, long m, long n, long len, uint64_t s)
{
    MX a = mx(m, n);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++)
    {
        uint64_t t = s * 1000003 + i * 1009 + j;
        if (kind < D_COUNT) a[i][j] = pat(kind, len, t);
        else if (kind == M_ONE) { if (i == m - 1 && j == n / 2) a[i][j] = pat(D_DENSE, len, t); }
        else if (kind == M_UNBAL) { long l = len * (1 + (i + 2 * j) % 3) / 3; a[i][j] = pat(D_DENSE, l, t); }
        else { if (i != 0 && j != n - 1) a[i][j] = pat(D_DENSE, len, t); }
    }
    return a;
}
inline VX patVX(long kind, long n, long len, uint64_t s) { MX a = patX(kind, n, 1, len, s); VX v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = a[i][0]; return v; }
// matrix number k among the p^(m*n*len)
inline MX nthX(long k, long m, long n, long len)
{
    MX a = mx(m, n); long q = ipow(md(), len);
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { a[i][j] = nth(k % q, len); k /= q; }
    return a;
}
inline MP nthP(long k, long m, long n)
{ MP a = cm(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { a[i][j] = Z(k % md()); k /= md(); } return a; }

// ------------------------------------------------------------------ printing and hashing
inline std::string str(const zz_pX& a)
{
    std::ostringstream o; o << "[";
    for (long i = 0; i < a.rep.length(); i++) { if (i > 14 && i < a.rep.length() - 3) { if (i == 15) o << " ..(" << a.rep.length() << ").."; continue; } o << (i ? " " : "") << R(a.rep[i]); }
    o << "]"; return o.str();
}
inline std::string str(const VP& a)
{ std::ostringstream o; o << "("; for (long i = 0; i < a.length() && i < 40; i++) o << (i ? " " : "") << R(a[i]); o << ")"; return o.str(); }
inline std::string str(const MP& a)
{ std::ostringstream o; o << a.NumRows() << "x" << a.NumCols() << "{"; for (long i = 0; i < a.NumRows() && i < 8; i++) o << str(a[i]); o << "}"; return o.str(); }
inline std::string str(const VX& a)
{ std::ostringstream o; o << "("; for (long i = 0; i < a.length() && i < 8; i++) o << str(a[i]); o << ")"; return o.str(); }
inline std::string str(const MX& a)
{ std::ostringstream o; o << a.NumRows() << "x" << a.NumCols() << "{"; for (long i = 0; i < a.NumRows() && i < 6; i++) o << str(a[i]) << ";"; o << "}"; return o.str(); }
inline std::string str(const VL& a)
{ std::ostringstream o; o << "<"; for (size_t i = 0; i < a.size() && i < 40; i++) o << (i ? " " : "") << a[i]; o << ">"; return o.str(); }
inline std::string str(long a) { return std::to_string(a); }
inline uint64_t hsh(const zz_pX& a) { uint64_t h = a.rep.length(); for (long i = 0; i < a.rep.length(); i++) h = mc::mix(h, R(a.rep[i])); return h; }
inline uint64_t hsh(const VP& a) { uint64_t h = a.length(); for (long i = 0; i < a.length(); i++) h = mc::mix(h, R(a[i])); return h; }
inline uint64_t hsh(const MP& a) { uint64_t h = a.NumRows(); for (long i = 0; i < a.NumRows(); i++) h = mc::mix(h, hsh(a[i])); return h; }
inline uint64_t hsh(const VX& a) { uint64_t h = a.length(); for (long i = 0; i < a.length(); i++) h = mc::mix(h, hsh(a[i])); return h; }
inline uint64_t hsh(const MX& a) { uint64_t h = a.NumRows(); for (long i = 0; i < a.NumRows(); i++) h = mc::mix(h, hsh(a[i])); return h; }
inline uint64_t hsh(const VL& a) { uint64_t h = a.size(); for (long x : a) h = mc::mix(h, (uint64_t) x); return h; }

// compare an observed value with the reference; counts the call, records the outcome
template <class T> inline void expect(mc::Ctx& c, const T& got, const T& want, const char* what)
{
    c.call();
    c.observe(hsh(got));
    if (!eq(got, want))
        throw mc::Failure(std::string(what) + ": got " + str(got) + " expected " + str(want));
}
template <class T> inline void unchanged(mc::Ctx&, const T& now, const T& before, const char* what)
{
    if (!eq(now, before))
        throw mc::Failure(std::string(what) + ": input modified, was " + str(before) + " is " + str(now));
}
inline void expectl(mc::Ctx& c, long got, long want, const char* what)
{
    c.call();
    c.observe((uint64_t) got);
    if (got != want) throw mc::Failure(std::string(what) + ": got " + std::to_string(got) + " expected " + std::to_string(want));
}

// stale ("dirty") outputs handed to functions that must overwrite them
inline zz_pX dirtyP() { return mk(VL{ md() - 1, 1 % md(), md() - 1, 1 % md(), md() - 1, 1, 1, 1, 1 % md() }); }
inline MX dirtyM(long m, long n) { MX a = mx(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = dirtyP(); return a; }
inline MP dirtyC(long m, long n) { MP a = cm(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = Z(md() - 1); return a; }
inline VP dirtyV(long n) { VP a; a.SetLength(n); for (long i = 0; i < n; i++) a[i] = Z(md() - 1); return a; }
inline VX dirtyVX(long n) { VX a; a.SetLength(n); for (long i = 0; i < n; i++) a[i] = dirtyP(); return a; }

} // namespace ref
#endif
