// Oracles for bases of modules of approximants, interpolants and kernels
#ifndef BASES_H
#define BASES_H
#include "forms.h"
namespace ref {
inline bool wf(const MX& a, long m, long n) { if (a.NumRows() != m || a.NumCols() != n) return false; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (!wellformed(a[i][j])) return false; return true; }
// codimension of the module of approximants: rank of v -> v F mod (x^order_j)_j on vectors of degree < max order
inline long app_codim(const MX& F, const VL& ord)
{
    const long m = F.NumRows(), n = F.NumCols(); long D = 0, T = 0; for (long o : ord) { D = std::max(D, o); T += o; }
    MP M = cm(m * D, T);
    for (long i = 0; i < m; i++) for (long k = 0; k < D; k++) { long t = 0; for (long j = 0; j < n; j++) for (long e = 0; e < ord[j]; e++) M[i * D + k][t++] = Z(C(F[i][j], e - k)); }
    return rrank(M);
}
// P is an approximant basis for (F,ord), in the given form w.r.t. s, and sout = its shifted row degree
inline void check_app(mc::Ctx& c, const char* w, const MX& P, const MX& F, const VL& ord, const VL& s, const VL* sout, bool popov, long codim)
{
    const long m = F.NumRows(), n = F.NumCols(); c.call();
    for (long i = 0; i < P.NumRows(); i++) for (long j = 0; j < P.NumCols(); j++) c.observe(dg(P[i][j]));
    if (!wf(P, m, m)) { c.fail("%s: wrong dimensions or entries not in normal form", w); return; }
    for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { VL v; for (long k = 0; k < m; k++) accmul(v, P[i][k], rtrunc(F[k][j], ord[j])); for (long e = 0; e < ord[j] && e < (long) v.size(); e++) if (v[e]) { c.fail("%s: row %ld is not an approximant (column %ld, coefficient %ld) for %s", w, i, j, e, str(P).c_str()); return; } }
    if (!(popov ? r_popov(P, s) : r_ordered(P, s))) { c.fail("%s: not in %s form: %s", w, popov ? "Popov" : "ordered weak Popov", str(P).c_str()); return; }
    if (sout && *sout != rrdeg(P, s)) { c.fail("%s: wrong shifted row degree", w); return; }
    VL pd = rpivdeg(P, s); long d = 0; for (long x : pd) d += x;
    if (d != codim) { c.fail("%s: determinant of degree %ld instead of %ld: not a basis: %s", w, d, codim, str(P).c_str()); return; }
    for (long x : pd) if (x > 0 && x < codim) c.interesting();
}
// reference iterative basis (Beckermann-Labahn): used to build instances and to decide genericity, never trusted as an oracle
inline MX ref_appbas(const MX& F0, const VL& ord, VL& s, std::vector<VL>* trace = nullptr)
{
    const long m = F0.NumRows(), n = F0.NumCols(); MX P = identX(m), F = F0; long D = 0; for (long o : ord) D = std::max(D, o);
    for (long e = 0; e < D; e++) { for (long j = 0; j < n; j++) { const long k = e - (D - ord[j]); if (k < 0) continue;
        long pv = -1; for (long i = 0; i < m; i++) if (C(F[i][j], k) && (pv < 0 || s[i] < s[pv])) pv = i;
        if (pv < 0) continue; const long iv = invm(C(F[pv][j], k));
        for (long i = 0; i < m; i++) if (i != pv && C(F[i][j], k)) { const long q = mulm(C(F[i][j], k), iv); for (long t = 0; t < m; t++) P[i][t] = rsub(P[i][t], scal(P[pv][t], q)); for (long t = 0; t < n; t++) F[i][t] = rsub(F[i][t], scal(F[pv][t], q)); }
        s[pv]++; for (long t = 0; t < m; t++) P[pv][t] = shl(P[pv][t], 1); for (long t = 0; t < n; t++) F[pv][t] = rtrunc(shl(F[pv][t], 1), ord[t]); }
      if (trace) trace->push_back(s); }
    return P;
}
}
#endif
