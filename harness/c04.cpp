// C04: Chinese remaindering and small bilinear transforms
#include "ref.h"
#include "lzz_pX_CRT.h"
using namespace ref;

static bool coprime_family(const std::vector<zz_pX>& q)
{
    for (auto& a : q) { VL d; for (long i = 1; i <= dg(a); i++) d.push_back(mulm(i % md(), C(a, i))); if (dg(rgcd(a, mk(d))) != 0) return false; }
    for (size_t i = 0; i < q.size(); i++) for (size_t j = i + 1; j < q.size(); j++) if (dg(rgcd(q[i], q[j])) != 0) return false;
    return true;
}
static VX vx(const std::vector<zz_pX>& v) { VX r; r.SetLength(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
static void crt_all(mc::Ctx& c, const std::vector<zz_pX>& q, const std::vector<zz_pX>& fs)
{
    VX Q = vx(q), Q0 = Q;
    PML::zz_pX_CRT crt(Q);
    unchanged(c, Q, Q0, "moduli");
    zz_pX prod = cst(1); for (auto& a : q) prod = rmul(prod, a);
    zz_pX m = dirtyP(); crt.master(m); expect(c, m, prod, "product of the moduli");
    expectl(c, crt.length(), (long) q.size(), "number of moduli");
    for (size_t i = 0; i < q.size(); i++) { zz_pX t = dirtyP(); crt.moduli(t, i); expect(c, t, q[i], "modulus"); }
    for (auto& f : fs)
    {
        VX w, v = dirtyVX(1), v0; w.SetLength(q.size()); for (size_t i = 0; i < q.size(); i++) w[i] = rrem(f, q[i]);
        zz_pX F = f;
        crt.multimod(v, F); expect(c, v, w, "remainders"); unchanged(c, F, f, "multimod input");
        zz_pX g = dirtyP(), want = rrem(f, prod);
        v0 = v; crt.combine(g, v); expect(c, g, want, "recombination"); unchanged(c, v, v0, "combine input");
        // unreduced residues
        for (size_t i = 0; i < q.size(); i++) v[i] = radd(w[i], rmul(q[i], pat(D_DENSE, 2, i)));
        crt.combine(g, v); expect(c, g, want, "recombination of unreduced residues");
        if (dg(want) >= 0) c.interesting();
    }
    VX Z0; Z0.SetLength(q.size()); zz_pX g = dirtyP(); crt.combine(g, Z0); expect(c, g, zz_pX(), "recombination of zero residues");
}
static void fam(long k, long l, long p, std::vector<zz_pX>& out) { zz_pX a = nth(k, l); if (dg(a) >= 1) out.push_back(a); }
// every family of up to three moduli over GF(2), GF(3)
MC_SPACE(crt_gf, -1, 16)
{
    long p = c.from({ 2, 3 }, "p"), l = p == 2 ? c.lim(3, 4, 4) : c.lim(2, 2, 3), q = ipow(p, l);
    long nb = c.range(1, 3, "nb"); std::vector<long> id; for (long i = 0; i < nb; i++) id.push_back(c.choose(q, "q"));
    setp(p);
    std::vector<zz_pX> Q; for (long k : id) fam(k, l, p, Q);
    if ((long) Q.size() != nb || !coprime_family(Q)) return;
    if (!c.mine()) return;
    setp(p);
    std::vector<zz_pX> fs; long L = c.lim(3, 5, 6); for (long i = 0; i < std::min(ipow(p, L), 81L); i++) fs.push_back(nth(i, L));
    crt_all(c, Q, fs);
}
// families by degree profile
MC_SPACE(crt_profiles, -1, 32)
{
    long nb = c.range(1, c.lim(4, 12, 20), "nb"), prof = c.range(0, 5, "profile"), p = c.from({ FFT0, P59, P27, P20 }, "p");
    if (!c.mine()) return;
    setp(p);
    std::vector<zz_pX> Q;
    for (long i = 0; i < nb; i++)
    {
        long d = prof == 0 ? 1 : prof == 1 ? 2 : prof == 2 ? 1 + i % 4 : prof == 3 ? (i == nb - 1 ? 9 : 1) : prof == 4 ? 5 : (i == 0 ? 30 : 1 + i % 2);
        uint64_t s = 1000 * i + prof; zz_pX a;
        for (;;) { a = pat(D_DENSE, d + 1, s++); std::vector<zz_pX> t = Q; t.push_back(a); if (coprime_family(t)) break; }
        Q.push_back(a);
    }
    long D = 0; for (auto& a : Q) D += dg(a);
    std::vector<zz_pX> fs = { pat(D_DENSE, D, 1), pat(D_MAX, D, 1), zz_pX(), pat(D_DENSE, 1, 2), pat(D_DENSE, D + 1, 3), pat(D_DENSE, 2 * D + 5, 4), pat(D_TOP, D, 5), pat(D_DENSE, D / 2, 6) };
    crt_all(c, Q, fs);
}
MC_SPACE(crt_big, 0, 8)
{
    long nb = c.from({ 1, 2, 3, 7, 20 }, "nb"), d = c.from({ 1, 10, 40 }, "deg"), p = c.from({ FFT0, P59, P20 }, "p");
    if (!c.mine()) return;
    setp(p);
    std::vector<zz_pX> Q;
    for (long i = 0; i < nb; i++) { uint64_t s = 7000 * i; zz_pX a; for (;;) { a = pat(D_DENSE, d + 1, s++); std::vector<zz_pX> t = Q; t.push_back(a); if (coprime_family(t)) break; } Q.push_back(a); }
    crt_all(c, Q, { pat(D_DENSE, nb * d, 1), pat(D_DENSE, 2 * nb * d + 3, 2), pat(D_MAX, nb * d, 2) });
}
// transforms
static void transform(mc::Ctx& c, const PML::zz_pX_Transform& t, const zz_pX& a, const zz_pX& b)
{
    VP l = dirtyV(2), r = dirtyV(30); zz_pX A = a, B = b, g = dirtyP();
    t.forward_left(l, A); t.forward_right(r, B); unchanged(c, A, a, "left"); unchanged(c, B, b, "right");
    expectl(c, l.length(), t.transform_length(), "left transform length"); expectl(c, r.length(), t.transform_length(), "right transform length");
    VP m; m.SetLength(l.length()); for (long i = 0; i < l.length(); i++) m[i] = Z(mulm(R(l[i]), R(r[i])));
    t.backward(g, m); expect(c, g, rmul(a, b), "product through the transform");
    if (dg(g) >= 0) c.interesting();
}
static std::vector<PML::zz_pX_Transform*> mkt(long d)
{
    std::vector<PML::zz_pX_Transform*> v; v.push_back(new PML::zz_pX_Transform_naive(d));
    if (d == 2) v.push_back(new PML::zz_pX_Transform_karatsuba());
    if (d == 3) v.push_back(new PML::zz_pX_Transform_montgomery3());
    if (d == 4) v.push_back(new PML::zz_pX_Transform_karatsuba4());
    return v;
}
MC_SPACE(transforms_gf, -1, 16)
{
    long p = c.from({ 2, 3 }, "p"), d = c.range(1, p == 2 ? c.lim(3, 5, 6) : c.lim(2, 3, 4), "d");
    long i = c.choose(ipow(p, d), "a"), j = c.choose(ipow(p, d), "b");
    if (!c.mine()) return;
    setp(p);
    for (auto* t : mkt(d)) { expectl(c, t->input_length(), d, "input length"); transform(c, *t, nth(i, d), nth(j, d)); delete t; }
}
MC_SPACE(transforms_matrix, -1, 16)
{
    long d = c.range(1, 8, "d"), p = c.from({ FFT0, P60, P27, 2 }, "p"), s = c.range(1, 3, "rows"), k = c.range(1, 3, "inner"), t = c.range(1, 3, "cols"), data = c.choose(M_COUNT, "data");
    if (!c.mine()) return;
    setp(p);
    MX A = patX(data, s, k, d, 1), B = patX((data * 3 + 2) % M_COUNT, k, t, d, 2); VX a = patVX(data, s, d, 3), b = patVX(M_UNBAL, s, d, 4);
    for (auto* T : mkt(d))
    {
        Vec<MP> x, y, z; x.SetLength(2); x[0] = dirtyC(1, 1);
        T->forward_left_matrix(x, A); T->forward_right_matrix(y, B);
        expectl(c, x.length(), T->transform_length(), "length"); expectl(c, y.length(), T->transform_length(), "length");
        z.SetLength(x.length()); for (long i = 0; i < x.length(); i++) z[i] = rmul(x[i], y[i]);
        MX Cc = dirtyM(2, 2); T->backward_matrix(Cc, z); expect(c, Cc, rmul(A, B), "matrix product through the transform");
        Vec<VP> u, v, w; T->forward_left_vector(u, a); T->forward_right_vector(v, b);
        w.SetLength(u.length()); for (long i = 0; i < u.length(); i++) { w[i].SetLength(s); for (long j = 0; j < s; j++) w[i][j] = Z(mulm(R(u[i][j]), R(v[i][j]))); }
        VX g = dirtyVX(1), h; T->backward_vector(g, w); h.SetLength(s); for (long j = 0; j < s; j++) h[j] = rmul(a[j], b[j]); expect(c, g, h, "entrywise product through the transform");
        c.interesting(); delete T;
    }
}
// the subproduct tree itself
MC_SPACE(tree, -1, 4)
{
    long n = c.range(1, 17, "n"), p = c.from({ FFT0, 3 }, "p");
    if (!c.mine()) return;
    setp(p);
    VX q; q.SetLength(n); for (long i = 0; i < n; i++) q[i] = pat(D_DENSE, 2 + i % 3, i);
    Vec<VX> t; PML::build_subproduct_tree(t, q);
    VX cur = q; long lev = 0;
    for (;; lev++)
    {
        c.check(lev < t.length(), "tree too shallow"); expect(c, t[lev], cur, "tree level");
        if (cur.length() == 1) break;
        VX nx; nx.SetLength((cur.length() + 1) / 2);
        for (long j = 0; j < nx.length(); j++) nx[j] = 2 * j + 1 < cur.length() ? rmul(cur[2 * j], cur[2 * j + 1]) : cur[2 * j];
        cur = nx;
    }
    expectl(c, t.length(), lev + 1, "tree depth"); c.interesting();
}
