// Reference definitions of shifted degrees, pivots and normal forms, row-wise
// (column-wise notions are obtained by transposing).
#ifndef FORMS_H
#define FORMS_H
#include "ref.h"
namespace ref {
inline long minsh(const VL& s) { return *std::min_element(s.begin(), s.end()); }
inline VL rrdeg(const MX& a, const VL& s)
{ VL r; for (long i = 0; i < a.NumRows(); i++) { long d = minsh(s) - 1; for (long j = 0; j < a.NumCols(); j++) if (dg(a[i][j]) >= 0) d = std::max(d, dg(a[i][j]) + s[j]); r.push_back(d); } return r; }
inline bool zrow(const MX& a, long i) { for (long j = 0; j < a.NumCols(); j++) if (dg(a[i][j]) >= 0) return false; return true; }
// pivot index: largest index reaching the shifted degree, -1 for a zero row
inline VL rpivind(const MX& a, const VL& s)
{ VL d = rrdeg(a, s), r; for (long i = 0; i < a.NumRows(); i++) { long k = -1; if (!zrow(a, i)) for (long j = 0; j < a.NumCols(); j++) if (dg(a[i][j]) >= 0 && dg(a[i][j]) + s[j] == d[i]) k = j; r.push_back(k); } return r; }
inline VL rpivdeg(const MX& a, const VL& s) { VL k = rpivind(a, s), r; for (long i = 0; i < a.NumRows(); i++) r.push_back(k[i] < 0 ? -1 : dg(a[i][k[i]])); return r; }
inline MP rleading(const MX& a, const VL& s)
{ VL d = rrdeg(a, s); MP l = cm(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) { long k = d[i] - s[j]; l[i][j] = Z(k >= 0 ? C(a[i][j], k) : 0); } return l; }
inline bool r_reduced(const MX& a, const VL& s) { return rrank(rleading(a, s)) == a.NumRows(); }
inline bool r_weak(const MX& a, const VL& s) { VL k = rpivind(a, s); for (size_t i = 0; i < k.size(); i++) { if (k[i] < 0) return false; for (size_t j = 0; j < i; j++) if (k[i] == k[j]) return false; } return true; }
inline bool r_ordered(const MX& a, const VL& s) { VL k = rpivind(a, s); for (size_t i = 0; i < k.size(); i++) if (k[i] < 0 || (i && k[i - 1] >= k[i])) return false; return true; }
inline bool r_popov(const MX& a, const VL& s)
{
    if (!r_ordered(a, s)) return false; VL k = rpivind(a, s);
    for (long i = 0; i < a.NumRows(); i++) { const zz_pX& f = a[i][k[i]]; if (C(f, dg(f)) != 1 % md()) return false; for (long r = 0; r < a.NumRows(); r++) if (r != i && dg(a[r][k[i]]) >= dg(f)) return false; }
    return true;
}
inline long r_form(const MX& a, const VL& s) { return r_popov(a, s) ? 4 : (r_ordered(a, s) ? 3 : (r_weak(a, s) ? 2 : (r_reduced(a, s) ? 1 : 0))); }
}
#endif
