// canonical forms of polynomial matrices, by definition
#ifndef FFORMS_H
#define FFORMS_H
#include "fpoly.h"
extern "C" {
#include <flint/fmpz_mat.h>
#include "nmod_poly_mat_utils.h"
#include "nmod_poly_mat_forms.h"
}
typedef std::vector<long> VL;
static const orientation_t ORI[4] = { ROW_LOWER, ROW_UPPER, COL_UPPER, COL_LOWER };
static const char* ORN[4] = { "ROW_LOWER", "ROW_UPPER", "COL_UPPER", "COL_LOWER" };
static PM transp(const PM& a) { PM o(a.c, a.r, a.m); for (auto& w : a.f) { Mat x(a.c, a.r, a.m); for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) x.at(j, i) = w.at(i, j); o.f.push_back(x); } return o; }
static PM reversed(const PM& a) { PM o = a; for (auto& w : o.f) std::reverse(w.v.begin(), w.v.end()); return o; }
// every orientation is ROW_LOWER of a transposed and / or doubly reversed matrix
static PM canon(const PM& a, int o) { PM t = o >= 2 ? transp(a) : a; return o % 2 ? reversed(t) : t; }
static VL cshift(const VL& s, int o) { VL t = s; if (o % 2) std::reverse(t.begin(), t.end()); return t; }
static long sdeg(const PM& a, long i, const VL& s) { long d = *std::min_element(s.begin(), s.end()) - 1; for (long j = 0; j < a.c; j++) if (a.deg(i, j) >= 0) d = std::max(d, a.deg(i, j) + s[j]); return d; }
static long pivot(const PM& a, long i, const VL& s) { long p = -1, d = 0; for (long j = 0; j < a.c; j++) if (a.deg(i, j) >= 0 && (p < 0 || a.deg(i, j) + s[j] >= d)) { p = j; d = a.deg(i, j) + s[j]; } return p; }
static long epivot(const PM& a, long i) { long p = a.c - 1; while (p >= 0 && a.deg(i, p) < 0) p--; return p; }
static Mat lmat(const PM& a, const VL& s) { Mat o(a.r, a.c, a.m); for (long i = 0; i < a.r; i++) { long d = sdeg(a, i, s); for (long j = 0; j < a.c; j++) if (a.deg(i, j) >= 0) o.at(i, j) = a.co(i, j, d - s[j]); } return o; }
struct Forms { bool red, wp, owp, pop, ech, her; };
static bool monic(const PM& a, long i, long j) { return a.deg(i, j) >= 0 && a.co(i, j, a.deg(i, j)) == 1 % a.m; }
static Forms forms(const PM& a, const VL& s)
{
    Forms F; F.red = rankof(lmat(a, s)) == a.r; VL p; for (long i = 0; i < a.r; i++) p.push_back(pivot(a, i, s)); F.wp = F.owp = true;
    for (long i = 0; i < a.r; i++) { if (p[i] < 0) F.wp = F.owp = false; for (long k = 0; k < i; k++) { if (p[k] == p[i]) F.wp = false; if (p[k] >= p[i]) F.owp = false; } }
    F.pop = F.owp; if (F.pop) for (long i = 0; i < a.r; i++) { if (!monic(a, i, p[i])) F.pop = false; for (long k = 0; k < a.r; k++) if (k != i && a.deg(k, p[i]) >= a.deg(i, p[i])) F.pop = false; }
    VL e; for (long i = 0; i < a.r; i++) e.push_back(epivot(a, i)); F.ech = true; for (long i = 0; i + 1 < a.r; i++) if (e[i] >= 0 && e[i + 1] <= e[i]) F.ech = false;
    F.her = F.ech; for (long i = 0; i < a.r && F.her; i++) { if (e[i] < 0 || !monic(a, i, e[i])) { F.her = false; break; } for (long k = i + 1; k < a.r; k++) if (a.deg(k, e[i]) >= a.deg(i, e[i])) F.her = false; }
    return F;
}
static std::vector<VL> shifts(long n, int k) { std::vector<VL> o; VL up, down, hill(n, 0), neg; for (long i = 0; i < n; i++) { up.push_back(i); down.push_back(n - i); neg.push_back(i % 2 ? -3 : 2); } hill[n / 2] = 5; o = { up, down, neg, hill, VL(n, -7) }; o.resize(k); return o; }
#endif
