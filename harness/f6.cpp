// C32: what flint-extras prints, read back
#include "fforms.h"
extern "C" {
#include "sagemath_extra.h"
#include "nmod_poly_mat_io.h"
#include "nmod_mat_poly.h"
}
#include <functional>
#include <climits>
// everything written to the standard output while f runs
static std::string printed(const std::function<void()>& f)
{
    fflush(stdout); char* b = NULL; size_t n = 0; FILE* old = stdout; FILE* m = open_memstream(&b, &n); stdout = m; f(); fflush(m); stdout = old; fclose(m); std::string s(b, n); free(b); return s;
}
typedef std::vector<std::pair<long, UL>> Poly;   // (exponent, value mod m), or one integer
struct Node { bool list = false; std::vector<Node> sub; std::vector<UL> p; };
// the expressions that Sage evaluates: nested lists of polynomial expressions in the variable, with integers of any size
struct Read
{
    std::string s, var; UL m; size_t i = 0; bool ok = true;
    Read(const std::string& t, const std::string& v, UL m_) : s(t), var(v), m(m_) { }
    void ws() { while (i < s.size() && isspace((unsigned char) s[i])) i++; }
    bool is(char ch) { ws(); if (i < s.size() && s[i] == ch) { i++; return true; } return false; }
    bool isnum() { ws(); return i < s.size() && isdigit((unsigned char) s[i]); }
    bool isvar() { ws(); return !var.empty() && s.compare(i, var.size(), var) == 0 && !(i + var.size() < s.size() && (isalnum((unsigned char) s[i + var.size()]) || s[i + var.size()] == '_')); }
    UL num() { UL v = 0; if (!isnum()) { ok = false; return 0; } while (i < s.size() && isdigit((unsigned char) s[i])) v = (UL) (((U2) v * 10 + (s[i++] - '0')) % m); return v; }
    long small() { long v = 0; if (!isnum()) { ok = false; return 0; } while (i < s.size() && isdigit((unsigned char) s[i])) v = std::min(100000L, v * 10 + (s[i++] - '0')); return v; }
    void term(std::vector<UL>& p, bool neg)
    {
        UL v = 1 % m; long e = 0;
        do { if (isvar()) { i += var.size(); e += is('^') ? small() : 1; } else v = (UL) ((U2) v * num() % m); } while (ok && is('*'));
        if (!ok || e > 1000) { ok = false; return; }
        if ((long) p.size() <= e) p.resize(e + 1); p[e] = neg ? (p[e] + (m - v)) % m : 0; if (!neg) p[e] = v;
    }
    Node value()
    {
        Node n;
        if (is('[')) { n.list = true; if (!is(']')) { do n.sub.push_back(value()); while (ok && is(',')); if (!is(']')) ok = false; } return n; }
        bool neg = is('-'); do { std::vector<UL> p; term(p, neg); if (!ok) return n; if (n.p.size() < p.size()) n.p.resize(p.size()); for (size_t k = 0; k < p.size(); k++) n.p[k] = (UL) (((U2) n.p[k] + p[k]) % m); ws(); if (is('+')) neg = false; else if (is('-')) neg = true; else break; } while (ok);
        while (!n.p.empty() && !n.p.back()) n.p.pop_back(); return n;
    }
    Node all() { Node n = value(); ws(); if (i != s.size()) ok = false; return n; }
};
// signed integers of a text in order
static std::vector<std::string> ints(const std::string& s) { std::vector<std::string> o; for (size_t i = 0; i < s.size(); ) { if (isdigit((unsigned char) s[i])) { std::string t = i && s[i - 1] == '-' ? "-" : ""; while (i < s.size() && isdigit((unsigned char) s[i])) t += s[i++]; o.push_back(t); } else i++; } return o; }
static void sameints(mc::Ctx& c, const char* f, const std::string& txt, const std::vector<std::string>& want) { c.call(); for (auto& x : want) for (char h : x) c.observe(h); if (ints(txt) != want) { std::string w; for (auto& x : want) w += x + " "; c.fail("%s prints %s, expected the integers %s", f, txt.c_str(), w.c_str()); } }
static void samelist(mc::Ctx& c, const char* f, const std::string& txt, const std::string& var, const PM& a)
{
    c.call(); Read R(txt, var, a.m); Node n = R.all(); bool good = R.ok && n.list && (long) n.sub.size() == a.r;
    for (long i = 0; good && i < a.r; i++) { good = n.sub[i].list && (long) n.sub[i].sub.size() == a.c; for (long j = 0; good && j < a.c; j++) { const Node& e = n.sub[i].sub[j]; good = !e.list && (long) e.p.size() == a.deg(i, j) + 1; for (long d = 0; good && d < (long) e.p.size(); d++) good = e.p[d] == a.co(i, j, d); } }
    for (long i = 0; i < a.r; i++) for (long j = 0; j < a.c; j++) for (long d = 0; d < a.len(); d++) c.observe(a.co(i, j, d));
    if (!good) c.fail("%s of %s prints %s", f, showp(a).c_str(), txt.c_str());
}
static const std::vector<long> MODS = { 2, 3, 97, (1L << 31) - 1, (1L << 60) - 93, (long) 18446744073709551557UL };
MC_SPACE(sage_vectors, -1, 8)
{
    static const slong V[8] = { 0, 1, -1, 10, -10, LONG_MAX, LONG_MIN, 123456789012345678L }; const long n = c.range(0, c.lim(3, 4, 5), "length"); std::vector<slong> v(n); for (long i = 0; i < n; i++) v[i] = V[c.choose(8, "entry")]; if (!c.mine()) return;
    if (n > 1) c.interesting(); slong* p = (slong*) malloc(n ? n * sizeof(slong) : 1); std::copy(v.begin(), v.end(), p);   // exactly as long as the vector
    std::string t = printed([&] { slongvec_print_sagemath(p, n); }); free(p);
    std::vector<std::string> w; for (slong x : v) w.push_back(std::to_string(x)); sameints(c, "slongvec_print_sagemath", t, w);
    Read R(t, "", 1UL << 63); Node k = R.all(); if (!R.ok || !k.list || (long) k.sub.size() != n) c.fail("slongvec_print_sagemath of a vector of length %ld prints %s", n, t.c_str());
}
MC_SPACE(sage_matrices, -1, 16)
{
    const UL m = c.from(MODS, "p"); const long r = c.range(0, 3, "rows"), n = c.range(0, c.lim(3, 4, 4), "cols"); const UL V[6] = { 0, 1, m - 1, m / 2, (m - 1) / 10 * 10 % m, m / 3 }; const long free = std::min(r * n, c.lim(3, 4, 5)); PM a(r, n, m);
    std::vector<int> pick(free); for (long e = 0; e < free; e++) pick[e] = c.choose(6, "entry"); if (!c.mine()) return;
    for (long e = 0; e < r * n; e++) a.set(e / n, e % n, 0, V[e < free ? pick[e] : (pick[e % free] + e) % 6]); a.norm(); if (r * n > 1) c.interesting();
    nmod_mat_t X; nmod_mat_init(X, r, n, m); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) nmod_mat_entry(X, i, j) = a.co(i, j, 0);
    samelist(c, "nmod_mat_print_sagemath", printed([&] { nmod_mat_print_sagemath(X); }), "", a);
    // a window is printed with its own shape
    if (r > 1 && n > 1) { nmod_mat_t W; nmod_mat_window_init(W, X, 1, 1, r, n); PM b(r - 1, n - 1, m); for (long i = 1; i < r; i++) for (long j = 1; j < n; j++) b.set(i - 1, j - 1, 0, a.co(i, j, 0)); b.norm(); samelist(c, "nmod_mat_print_sagemath (window)", printed([&] { nmod_mat_print_sagemath(W); }), "", b); nmod_mat_window_clear(W); }
    for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) if (nmod_mat_entry(X, i, j) != a.co(i, j, 0)) c.fail("nmod_mat_print_sagemath changes its operand"); nmod_mat_clear(X);
}
MC_SPACE(polynomial_matrices, -1, 16)
{
    const UL m = c.from(MODS, "p"); const long r = c.range(0, 3, "rows"), n = c.range(0, 3, "cols"), free = std::min(r * n, c.lim(2, 2, 3)); const int v = c.choose(2, "variable"); PM a(r, n, m);
    const std::vector<std::vector<UL>> P = { { }, { 1 }, { m - 1 }, { 0, 1 }, { 0, m - 1 }, { m / 2, 1 }, { 1, 0, 1 }, { 0, 0, 0, m - 1 }, { m - 1, m / 2, m - 1, 1 }, { 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2 % m, 1 } };
    std::vector<int> pick(free); for (long e = 0; e < free; e++) pick[e] = c.choose((int) P.size(), "entry"); if (!c.mine()) return; const char* var = v ? "alpha_1" : "x";
    for (long e = 0; e < r * n; e++) { const auto& p = P[e < free ? pick[e] : (pick[e % free] + e) % P.size()]; for (size_t d = 0; d < p.size(); d++) a.set(e / n, e % n, d, p[d]); } a.norm(); if (r * n > 1) c.interesting();
    nmod_poly_mat_t X; putp(X, a); const std::string M = std::to_string(m);
    samelist(c, "nmod_poly_mat_print_sagemath", printed([&] { nmod_poly_mat_print_sagemath(X, var); }), var, a);
    if (r && n) { PM b(1, 1, m); for (long d = 0; d <= a.deg(0, 0); d++) b.set(0, 0, d, a.co(0, 0, d)); b.norm(); samelist(c, "nmod_poly_print_sagemath", "[[" + printed([&] { nmod_poly_print_sagemath(nmod_poly_mat_entry(X, 0, 0), var); }) + "]]", var, b); }
    std::string t = printed([&] { nmod_poly_mat_print_pretty(X, var); }); size_t e = t.find(">"); if (e == std::string::npos || t[0] != '<' || t.find(std::string("[") + var + "]") > e) c.fail("nmod_poly_mat_print_pretty: heading of %s", t.c_str()); auto h = ints(t.substr(0, e)); if (h.size() < 2 || h[0] != std::to_string(r) || h[1] != std::to_string(n)) c.fail("nmod_poly_mat_print_pretty: dimensions in %s", t.c_str());
    samelist(c, "nmod_poly_mat_print_pretty", t.substr(e + 1), var, a);
    if (r && n)   // degree and leading matrices
    for (int o = 0; o < 4; o++)
    {
        const long q = o < 2 ? n : r; std::vector<VL> S = shifts(q, 2); S.push_back(VL());
        for (const VL& s : S)
        {
            if (s.empty() && q) { if (o == 0) { std::vector<std::string> w; for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) w.push_back(std::to_string(a.deg(i, j))); sameints(c, "nmod_poly_mat_degree_matrix_print_pretty", printed([&] { nmod_poly_mat_degree_matrix_print_pretty(X); }), w); } }
            std::vector<slong> ss(s.begin(), s.end()); const slong* sp = s.empty() ? NULL : ss.data();
            fmpz_mat_t D; fmpz_mat_init(D, r, n); nmod_poly_mat_degree_matrix_shifted(D, X, sp, ORI[o]); std::vector<std::string> w; for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) w.push_back(std::to_string(fmpz_get_si(fmpz_mat_entry(D, i, j)))); fmpz_mat_clear(D);
            sameints(c, "nmod_poly_mat_degree_matrix_shifted_print_pretty", printed([&] { nmod_poly_mat_degree_matrix_shifted_print_pretty(X, sp, ORI[o]); }), w);
            nmod_mat_t L; nmod_mat_init(L, r, n, m); nmod_poly_mat_leading_matrix(L, X, sp, ORI[o]); w = { std::to_string(r), std::to_string(n), M }; for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) w.push_back(std::to_string(nmod_mat_entry(L, i, j))); nmod_mat_clear(L);
            sameints(c, "nmod_poly_mat_leading_matrix_print_pretty", printed([&] { nmod_poly_mat_leading_matrix_print_pretty(X, sp, ORI[o]); }), w);
        }
    }
    nmod_mat_poly_t Y; nmod_mat_poly_init(Y, r, n, m); nmod_mat_poly_set_from_poly_mat(Y, X); std::vector<std::string> w, z = { std::to_string(r), std::to_string(n), std::to_string(a.len()), M };
    for (long d = 0; d < a.len(); d++) { z.push_back(std::to_string(d)); for (auto* x : { &w, &z }) { x->push_back(std::to_string(r)); x->push_back(std::to_string(n)); x->push_back(M); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) x->push_back(std::to_string(a.co(i, j, d))); } }
    sameints(c, "nmod_mat_poly_print", printed([&] { nmod_mat_poly_print(Y); }), w); sameints(c, "nmod_mat_poly_print_pretty", printed([&] { nmod_mat_poly_print_pretty(Y); }), z); nmod_mat_poly_clear(Y);
    PM b(r, n, m); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) for (long d = 0; d < nmod_poly_mat_entry(X, i, j)->length; d++) b.set(i, j, d, nmod_poly_mat_entry(X, i, j)->coeffs[d]); if (!(b.norm() == a)) c.fail("printing changes the operand"); nmod_poly_mat_clear(X);
}
