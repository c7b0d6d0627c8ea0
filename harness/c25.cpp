// C25: the text printed for Sage and Magma denotes the object
#include "mc.h"
#include "ref.h"
#include "magma_output.h"
#include "sage_output.h"
#include <sstream>
#include <map>
#include <set>
using namespace ref;
using NTL::ZZ; using NTL::ZZX; using std::string;
// ------------------------------------------------------------------ an interpreter for the fragment of both languages that denotes such objects
struct Ring { string name, gen; long p = 0; };               // univariate polynomials over Z (p = 0) or GF(p)
struct Val { int kind = 0; /* 0 integer, 1 polynomial, 2 list, 3 matrix, 4 field, 5 ring, 6 parent */ ZZ n; std::vector<ZZ> c; string ring; std::vector<Val> l; long p = -1; };
struct Bad { string why; };
struct Interp
{
    bool magma; std::map<string, Ring> rings; std::map<string, Val> vars; string s; size_t k = 0;
    void ws() { while (k < s.size() && (s[k] == ' ' || (s[k] == '\n' && depth))) k++; }
    long depth = 0;
    bool eat(const string& t) { ws(); if (s.compare(k, t.size(), t)) return false; k += t.size(); return true; }
    void need(const string& t) { if (!eat(t)) throw Bad{ "expected '" + t + "' at '" + s.substr(k, 20) + "'" }; }
    bool peek(const string& t) { ws(); return !s.compare(k, t.size(), t); }
    static bool al(char c) { return isalpha((unsigned char) c) || c == '_'; }
    string ident() { ws(); size_t b = k; while (k < s.size() && (al(s[k]) || (k > b && isdigit((unsigned char) s[k])))) k++; if (b == k) throw Bad{ "identifier expected at '" + s.substr(k, 20) + "'" }; return s.substr(b, k - b); }
    const Ring& ring(const string& r) { auto i = rings.find(r); if (i == rings.end()) throw Bad{ "ring " + r + " is not defined" }; return i->second; }
    void norm(Val& v) { if (v.kind != 1) return; const Ring& R = ring(v.ring); if (R.p) for (auto& x : v.c) { x = x % NTL::to_ZZ(R.p); } while (!v.c.empty() && NTL::IsZero(v.c.back())) v.c.pop_back(); }
    Val poly(const string& r, const Val& v)                     // coercion
    {
        Val o; o.kind = 1; o.ring = r; if (v.kind == 0) o.c.push_back(v.n); else if (v.kind == 1) { if (v.ring != r) throw Bad{ "polynomial of another ring" }; o = v; } else if (v.kind == 2) { for (auto& x : v.l) { if (x.kind != 0) throw Bad{ "coefficient list" }; o.c.push_back(x.n); } } else throw Bad{ "cannot coerce" };
        norm(o); return o;
    }
    Val add(Val a, Val b, bool sub)
    {
        if (a.kind == 0 && b.kind == 0) { a.n = sub ? a.n - b.n : a.n + b.n; return a; } if (a.kind > 1 || b.kind > 1) throw Bad{ "sum" };
        string r = a.kind == 1 ? a.ring : b.ring; a = poly(r, a); b = poly(r, b); if (a.c.size() < b.c.size()) a.c.resize(b.c.size()); for (size_t i = 0; i < b.c.size(); i++) a.c[i] = sub ? a.c[i] - b.c[i] : a.c[i] + b.c[i]; norm(a); return a;
    }
    Val mul(Val a, Val b)
    {
        if (a.kind == 0 && b.kind == 0) { a.n = a.n * b.n; return a; } if (a.kind > 1 || b.kind > 1) throw Bad{ "product" };
        string r = a.kind == 1 ? a.ring : b.ring; a = poly(r, a); b = poly(r, b); Val o; o.kind = 1; o.ring = r; o.c.resize(a.c.size() + b.c.size()); for (size_t i = 0; i < a.c.size(); i++) for (size_t j = 0; j < b.c.size(); j++) o.c[i + j] += a.c[i] * b.c[j]; norm(o); return o;
    }
    Val power(const Val& a, const Val& e)
    {
        if (e.kind != 0 || NTL::sign(e.n) < 0) throw Bad{ "exponent" }; long n = NTL::to_long(e.n);
        if (a.kind == 1 && a.c.size() == 2 && NTL::IsZero(a.c[0]) && NTL::IsOne(a.c[1])) { Val o = a; o.c.assign(n + 1, ZZ()); o.c[n] = 1; return o; }
        Val o; o.n = 1; for (long i = 0; i < n; i++) o = mul(o, a); return o;
    }
    Val matrix(const Val& l, const Val* base)
    {
        if (l.kind != 2) throw Bad{ "matrix of something that is not a list" }; Val m; m.kind = 3; size_t w = 0; bool first = true;
        for (auto& r : l.l) { if (r.kind != 2) throw Bad{ "matrix row" }; if (!first && r.l.size() != w) throw Bad{ "rows of different lengths" }; w = r.l.size(); first = false; Val row; row.kind = 2; for (auto e : r.l) { if (base) { if (e.kind != 0) throw Bad{ "matrix entry" }; if (base->kind != 4) throw Bad{ "matrix base" }; e.n = e.n % NTL::to_ZZ(base->p); } row.l.push_back(e); } m.l.push_back(row); }
        if (base) m.p = base->p; return m;
    }
    std::vector<Val> args(const string& close) { std::vector<Val> r; depth++; if (!eat(close)) { do r.push_back(expr()); while (eat(",")); need(close); } depth--; return r; }
    Val atom()
    {
        ws(); if (k >= s.size()) throw Bad{ "unexpected end" };
        if (isdigit((unsigned char) s[k])) { size_t b = k; while (k < s.size() && isdigit((unsigned char) s[k])) k++; Val v; v.n = NTL::conv<ZZ>(s.substr(b, k - b).c_str()); return v; }
        if (eat("(")) { auto a = args(")"); if (a.size() != 1) throw Bad{ "parentheses" }; return a[0]; }
        if (eat("[")) { Val v; v.kind = 2; v.l = args("]"); return v; }
        string id = ident(); Val v;
        if (id == "GF" || id == "FiniteField") { need("("); auto a = args(")"); if (a.size() != 1 || a[0].kind != 0) throw Bad{ "GF" }; v.kind = 4; v.p = NTL::to_long(a[0].n); return v; }
        if (id == "Integers" || id == "IntegerRing") { need("("); args(")"); v.kind = 4; v.p = 0; return v; }
        if (id == "Matrix" || (id == "matrix" && !magma)) { need("("); auto a = args(")"); if (a.size() == 1) return matrix(a[0], nullptr); if (a.size() == 2) return matrix(a[1], &a[0]); throw Bad{ "Matrix" }; }
        if (magma && id == "Parent") { need("("); auto a = args(")"); if (a.size() != 1 || a[0].kind != 1) throw Bad{ "Parent" }; v.kind = 5; v.ring = a[0].ring; return v; }
        if (rings.count(id)) { v.kind = 5; v.ring = id; return v; }
        auto i = vars.find(id); if (i == vars.end()) throw Bad{ "undefined name " + id }; return i->second;
    }
    Val postfix()
    {
        Val v = atom();
        for (;;)
        {
            if (magma && v.kind == 5 && eat("!")) { Val a = postfix(); v = poly(v.ring, a); }
            else if (!magma && v.kind == 1 && eat(".parent()")) { Val r; r.kind = 5; r.ring = v.ring; v = r; }
            else if (!magma && v.kind == 5 && eat("(")) { auto a = args(")"); if (a.size() != 1) throw Bad{ "call" }; v = poly(v.ring, a[0]); }
            else return v;
        }
    }
    Val factor() { if (eat("-")) { Val z; return add(z, factor(), true); } if (eat("+")) return factor(); Val v = postfix(); if (eat("^") || (!magma && eat("**"))) return power(v, factor()); return v; }
    Val term() { Val v = factor(); while (!peek("**") && eat("*")) v = mul(v, factor()); return v; }
    Val expr() { Val v = term(); for (;;) { if (eat("+")) v = add(v, term(), false); else if (eat("-")) v = add(v, term(), true); else return v; } }
    void defring(const string& r, const string& g, const Val& base) { if (base.kind != 4) throw Bad{ "PolynomialRing" }; Ring R; R.name = r; R.gen = g; R.p = base.p; rings[r] = R; vars.erase(r); Val x; x.kind = 1; x.ring = r; x.c.resize(2); x.c[1] = 1; vars[g] = x; }
    Val evaluate(const string& t) { s = t; k = 0; depth = 0; Val v = expr(); ws(); if (k != s.size()) throw Bad{ "trailing text '" + s.substr(k, 20) + "'" }; return v; }
    void run(const string& t)                                     // a sequence of statements
    {
        s = t; k = 0; depth = 0;
        for (;;)
        {
            while (k < s.size() && (s[k] == ' ' || s[k] == '\n')) k++; if (k >= s.size()) return;
            string id = ident(), g; bool r = magma ? eat("<") : eat(".<"); if (r) { g = ident(); need(">"); } if (magma) need(":="); else need("=");
            if (r) { string f = ident(); if (f != "PolynomialRing") throw Bad{ "constructor " + f }; need("("); auto a = args(")"); if (a.size() != 1) throw Bad{ "PolynomialRing" }; defring(id, g, a[0]); }
            else { Val v = expr(); vars[id] = v; rings.erase(id); }
            if (magma) need(";"); else { while (k < s.size() && s[k] == ' ') k++; if (k < s.size() && s[k] != '\n') throw Bad{ "end of line expected" }; }
        }
    }
};
struct Cap { std::streambuf* b; std::ostringstream o; Cap() { b = std::cout.rdbuf(o.rdbuf()); } ~Cap() { std::cout.rdbuf(b); } string str() { return o.str(); } };
#define PR(stmt) [&]() { Cap cap_; stmt; return cap_.str(); }()
static Interp fresh(bool magma)
{
    Interp I; I.magma = magma; string t;
    if (magma) t = PR(PML::magma_init(); PML::magma_init_X(); PML::magma_init_ZZX()); else t = PR(PML::sage_init(); PML::sage_init_X(); PML::sage_init_ZZX());
    I.run(t); Val f; f.kind = 4; f.p = md(); I.defring("V", "y", f); f.p = 0; I.defring("VZ", "zz", f); return I;
}
static bool is(const Val& v, const zz_pX& a, const string& ring) { if (v.kind != 1 || v.ring != ring || (long) v.c.size() != dg(a) + 1) return false; for (long i = 0; i <= dg(a); i++) if (v.c[i] != NTL::to_ZZ(C(a, i))) return false; return true; }
static bool is(const Val& v, const ZZX& a, const string& ring) { if (v.kind != 1 || v.ring != ring || (long) v.c.size() != NTL::deg(a) + 1) return false; for (long i = 0; i <= NTL::deg(a); i++) if (v.c[i] != NTL::coeff(a, i)) return false; return true; }
static bool is(const Val& v, const std::vector<ZZ>& a, long p) { if (v.kind != 2 || v.l.size() != a.size()) return false; for (size_t i = 0; i < a.size(); i++) { if (v.l[i].kind != 0) return false; ZZ d = v.l[i].n - a[i]; if (p ? !NTL::IsZero(d % NTL::to_ZZ(p)) : !NTL::IsZero(d)) return false; } return true; }
template <class F> static void denotes(mc::Ctx& c, bool magma, const string& text, bool assign, const string& name, const char* w, F good)
{
    c.call(); c.observe(std::hash<string>()(text)); Interp I = fresh(magma);
    try { Val v; if (assign) { I.run(text); auto i = I.vars.find(name); if (i == I.vars.end()) throw Bad{ "no assignment" }; v = i->second; } else v = I.evaluate(text); if (!good(v)) c.fail("%s %s: the text denotes another object: %s", magma ? "magma" : "sage", w, text.substr(0, 200).c_str()); }
    catch (Bad& b) { c.fail("%s %s: %s in: %s", magma ? "magma" : "sage", w, b.why.c_str(), text.substr(0, 200).c_str()); }
}
#define BOTH(w, argsO, argsA, nm, good) for (int m_ = 0; m_ < 2; m_++) { const bool magma = m_; denotes(c, magma, magma ? PR(PML::magma_output argsO) : PR(PML::sage_output argsO), false, "", w, good); if (nm) denotes(c, magma, magma ? PR(PML::magma_assign argsA) : PR(PML::sage_assign argsA), true, "foo_1", w " (assign)", good); }
static void poly(mc::Ctx& c, const zz_pX& a)
{
    BOTH("zz_pX", (a), (a, "foo_1"), 1, [&](const Val& v) { return is(v, a, "U"); }) BOTH("zz_pX in y", (a, "y"), (a, "y", "foo_1"), 1, [&](const Val& v) { return is(v, a, "V"); }) if (dg(a) >= 0) c.interesting();
}
static bool isV(const Val& v, const VX& a, const string& r) { if (v.kind != 2 || (long) v.l.size() != a.length()) return false; for (long i = 0; i < a.length(); i++) if (!is(v.l[i], a[i], r)) return false; return true; }
static bool isM(const Val& v, const MX& a, const string& r) { if (v.kind != 3 || (long) v.l.size() != a.NumRows()) return false; for (long i = 0; i < a.NumRows(); i++) { if ((long) v.l[i].l.size() != a.NumCols()) return false; for (long j = 0; j < a.NumCols(); j++) if (!is(v.l[i].l[j], a[i][j], r)) return false; } return true; }
static void vecx(mc::Ctx& c, const VX& a)
{
    BOTH("Vec<zz_pX>", (a), (a, "foo_1"), 1, [&](const Val& v) { return isV(v, a, "U"); }) BOTH("Vec<zz_pX> in y", (a, "y"), (a, "y", "foo_1"), 1, [&](const Val& v) { return isV(v, a, "V"); }) if (a.length() > 1) c.interesting();
}
static void matx(mc::Ctx& c, const MX& a)
{
    BOTH("Mat<zz_pX>", (a), (a, "foo_1"), 1, [&](const Val& v) { return isM(v, a, "U"); }) BOTH("Mat<zz_pX> in y", (a, "y"), (a, "y", "foo_1"), 1, [&](const Val& v) { return isM(v, a, "V"); }) if (a.NumRows() > 1) c.interesting();
}
static void matp(mc::Ctx& c, const MP& a)
{
    BOTH("Mat<zz_p>", (a), (a, "foo_1"), 1, [&](const Val& v) { if (v.kind != 3 || v.p != md() || (long) v.l.size() != a.NumRows()) return false; for (long i = 0; i < a.NumRows(); i++) { if ((long) v.l[i].l.size() != a.NumCols()) return false; for (long j = 0; j < a.NumCols(); j++) if (v.l[i].l[j].n != NTL::to_ZZ(R(a[i][j]))) return false; } return true; }) if (a.NumRows() > 1) c.interesting();
}
static void vecp(mc::Ctx& c, const VP& a) { std::vector<ZZ> w; for (long i = 0; i < a.length(); i++) w.push_back(NTL::to_ZZ(R(a[i]))); BOTH("Vec<zz_p>", (a), (a, "foo_1"), 1, [&](const Val& v) { return is(v, w, md()); }) if (a.length() > 1) c.interesting(); }
MC_SPACE(tiny, -1, 48)
{
    // kind, p, rows, cols, degree bound
    static const long T[9][5] = { { 0, 3, 1, 1, 4 }, { 0, 7, 1, 1, 3 }, { 1, 2, 3, 1, 2 }, { 1, 3, 1, 1, 3 }, { 2, 2, 2, 2, 1 }, { 2, 3, 1, 2, 2 }, { 3, 3, 2, 2, 1 }, { 4, 3, 5, 1, 1 }, { 2, 2, 2, 2, 2 } };
    long w = c.choose(c.lim(7, 9, 9), "shape"); const long* t = T[w]; long k = c.choose(ipow(t[1], t[2] * t[3] * t[4]), "object");
    if (!c.mine()) return;
    setp(t[1]); const MX A = nthX(k, t[2], t[3], t[4]);
    if (t[0] == 0) poly(c, A[0][0]); else if (t[0] == 1) { VX v; v.SetLength(t[2]); for (long i = 0; i < t[2]; i++) v[i] = A[i][0]; vecx(c, v); } else if (t[0] == 2) matx(c, A); else if (t[0] == 3) { MP M = cm(t[2], t[3]); for (long i = 0; i < t[2]; i++) for (long j = 0; j < t[3]; j++) M[i][j] = Z(C(A[i][j], 0)); matp(c, M); } else { VP v; v.SetLength(t[2]); for (long i = 0; i < t[2]; i++) v[i] = Z(C(A[i][0], 0)); vecp(c, v); }
}
MC_SPACE(shapes, 0, 48)
{
    long p = c.from({ 2, 97, P20, P60, FFT0 }, "p"), r = c.range(1, 4, "rows"), n = c.range(0, 4, "cols"), t = c.choose(6, "data"), d = c.from({ 0, 1, 2, 9, 40 }, "degree");
    if (!c.mine()) return;
    setp(p); MX A = mx(r, n); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) A[i][j] = t == 0 ? pat(D_DENSE, d, 5 * i + j) : t == 1 ? pat(D_MAX, d, i) : t == 2 ? pat(D_SPARSE, d, i + j) : t == 3 ? mono(1, d) : t == 4 ? pat(D_DENSE, (i + 2 * j) % (d + 1), j) : zz_pX();
    if (n > 0) matx(c, A); VX v; v.SetLength(n); for (long j = 0; j < n; j++) v[j] = A[0][j]; vecx(c, v); if (n) poly(c, A[0][0]); MP M = cm(r, n); for (long i = 0; i < r; i++) for (long j = 0; j < n; j++) M[i][j] = Z(C(A[i][j], 0)); matp(c, M); VP q; q.SetLength(n); for (long j = 0; j < n; j++) q[j] = M[0][j]; vecp(c, q);
}
static std::vector<ZZ> bigs() { std::vector<ZZ> v; for (long x : { 0L, 1L, -1L, 7L, -12L }) v.push_back(NTL::to_ZZ(x)); v.push_back(NTL::power2_ZZ(63)); v.push_back(-NTL::power2_ZZ(100) - 1); v.push_back(NTL::power2_ZZ(200) + 12345); return v; }
MC_SPACE(integers, -1, 24)
{
    const std::vector<ZZ> B = bigs(); static const long W[6] = { 0, 1, -1, 42, (long) (~0UL >> 1), -(long) (~0UL >> 1) - 1 }; long n = c.range(0, c.lim(3, 3, 4), "length"); std::vector<long> ix; for (long i = 0; i < n; i++) ix.push_back(c.choose(6, "entry"));
    if (!c.mine()) return;
    setp(97); std::vector<ZZ> w, wu, wz; NTL::Vec<long> l; NTL::Vec<unsigned long> u; NTL::Vec<ZZ> z; ZZX f; l.SetLength(n); u.SetLength(n); z.SetLength(n); for (long i = 0; i < n; i++) { l[i] = W[ix[i]]; u[i] = (unsigned long) W[ix[i]]; z[i] = B[(ix[i] + 2 * (i % 2)) % B.size()]; w.push_back(NTL::to_ZZ(l[i])); wu.push_back(NTL::to_ZZ(u[i])); wz.push_back(z[i]); NTL::SetCoeff(f, i, z[i]); }
    BOTH("Vec<long>", (l), (l, "foo_1"), 1, [&](const Val& v) { return is(v, w, 0); }) BOTH("Vec<unsigned long>", (u), (u, "foo_1"), 1, [&](const Val& v) { return is(v, wu, 0); }) BOTH("Vec<ZZ>", (z), (z, "foo_1"), 1, [&](const Val& v) { return is(v, wz, 0); })
    BOTH("ZZX", (f), (f, "foo_1"), 1, [&](const Val& v) { return is(v, f, "UZ"); }) BOTH("ZZX in zz", (f, "zz"), (f, "zz", "foo_1"), 1, [&](const Val& v) { return is(v, f, "VZ"); }) if (n > 1) c.interesting();
}
