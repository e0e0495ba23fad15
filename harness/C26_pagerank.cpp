// C26: PageRank, against the damped iteration on plain arrays.
#define REF_MX 8
#include "../mc/graph.hpp"
using namespace gr;

static std::string show(std::vector<double> const &v) { std::ostringstream os; os.precision(10); for (auto x : v) os << " " << x; return os.str(); }
template <class T, class R> void one(G const &g, double damp, double thr, unsigned iters, bool dirty)
{
    int n = g.n;
    MC_SAY("page_rank on ", gr::show(g), " damping ", damp, " threshold ", thr, " limit ", iters, dirty ? " over an old vector" : "");
    auto m = mat<T>(g); auto A = real(m);
    grb::Vector<R> pr(n);
    if (dirty) for (int i = 0; i < n; i += 2) pr.setElement(i, R(5));
    algorithms::page_rank<grb::Matrix<T>, R>(A, pr, R(damp), R(thr), iters);
    mc::step();
    std::vector<double> got(n);
    for (int i = 0; i < n; ++i) { MC_CHECK(pr.hasElement(i), "no rank for vertex ", i); got[i] = pr.extractElement(i); }
    MC_CHECK(pr.nvals() == Idx(n), "nvals ", pr.nvals());
    double const eps = sizeof(R) == 4 ? 1e-5 : 1e-11;
    std::vector<double> r(n, 1.0 / n), last;
    bool ok = false, stop = iters == 0;
    auto same = [&] { for (int i = 0; i < n; ++i) if (!(std::fabs(got[i] - r[i]) <= eps)) return false; return true; };
    if (stop) ok = same();
    for (unsigned k = 0; !stop && !ok && k < iters; ++k)
    {
        std::vector<double> q(n, (1 - damp) / n);
        for (int i = 0; i < n; ++i) { int d = g.outdeg(i); for (int j = 0; j < n; ++j) if (g.e(i, j)) q[j] += damp * r[i] / d; }
        double e = 0; for (int i = 0; i < n; ++i) e += (q[i] - r[i]) * (q[i] - r[i]);
        e /= n; r = q;
        double slack = sizeof(R) == 4 ? 1e-3 : 1e-6;
        bool may = e < thr * (1 + slack) || e == 0, must = e < thr * (1 - slack) || k + 1 == iters;
        if (sizeof(R) == 4 && e < 1e-13) may = true;
        if (may || must) ok = same();
        stop = must;
    }
    MC_CHECK(ok, "page_rank on ", gr::show(g), " damping ", damp, " threshold ", thr, " limit ", iters, ": got", show(got), " expected", show(r));
    expect(A, m, "graph afterwards");
}
static double const D[] = {0.85, 0.5, 0.0, 1.0};
struct Lim { double thr; unsigned it; };
static Lim const L[] = {{1e-5, ~0u}, {1e-10, ~0u}, {1e-3, ~0u}, {0, 1}, {0, 2}, {0, 3}, {1e-5, 0}, {1e-20, 7}, {0, 40}};
#ifndef GRAPH_BIG
template <class F> void pick(mc::Ctx &c, F f)
{
    double d = D[c.choose(4)]; Lim l = L[c.choose(9)];
    if (d == 1.0 && l.it == ~0u) l.it = 50;
    f(d, l);
}
MC_SCENARIO(d3, 4)
{
    int n = 1 + c.choose(3);
    auto g = choose_digraph(c, n, true);
    pick(c, [&](double d, Lim l) {
        bool dirty = c.flip();
        switch (c.choose(5)) { case 0: one<double, double>(g, d, l.thr, l.it, dirty); break; case 1: one<int, double>(g, d, l.thr, l.it, dirty); break;
            case 2: one<bool, double>(g, d, l.thr, l.it, dirty); break; case 3: one<uint8_t, double>(g, d, l.thr, l.it, dirty); break; default: one<float, float>(g, d, l.thr, l.it, dirty); }
    });
}
MC_SCENARIO(d4, 8)
{
    auto g = choose_digraph(c, 4, mc::thorough);
    pick(c, [&](double d, Lim l) { one<double, double>(g, d, l.thr, l.it, false); });
}
MC_SCENARIO(u6, 6)
{
    int n = 5 + c.choose(2);
    auto g = choose_ugraph(c, n, n == 5 && mc::thorough);
    int k = c.choose(mc::thorough ? 3 : 2);
    static Lim const M[] = {{1e-5, ~0u}, {0, 4}, {1e-12, ~0u}};
    one<double, double>(g, 0.85, M[k].thr, M[k].it, false);
}
// tournaments-like orientation of every 5-vertex undirected graph: many vertices without in or out edges
MC_SCENARIO(dag5, 6)
{
    auto g = choose_ugraph(c, 5, false);
    for (int i = 0; i < 5; ++i) for (int j = 0; j < i; ++j) g.w[i][j] = 0;
    if (c.flip()) g.w[c.choose(5)][0] = 1;
    pick(c, [&](double d, Lim l) { one<double, double>(g, d, l.thr, l.it, false); });
}
MC_SCENARIO(chain8, 2)
{
    G g; g.n = 8; int dir = c.choose(3);
    for (int i = 0; i + 1 < 8; ++i) { if (dir != 1) g.w[i][i + 1] = 1; if (dir != 0) g.w[i + 1][i] = 1; }
    int a = c.choose(8), b = c.choose(8); g.w[a][b] = 1;
    int e = c.choose(8), f = c.choose(8); g.w[e][f] = 1;
    pick(c, [&](double d, Lim l) { one<double, double>(g, d, l.thr, l.it, false); });
}
MC_SCENARIO(errors, 2)
{
    int r = 1 + c.choose(3), k = 1 + c.choose(3), s = 1 + c.choose(3);
    grb::Matrix<double> A(r, k); grb::Vector<double> v(s);
    bool thrown = false;
    try { algorithms::page_rank(A, v); } catch (grb::DimensionException const &) { thrown = true; }
    mc::step();
    MC_CHECK(thrown == (r != k || s != r), "page_rank of ", r, "x", k, " into ", s, thrown ? " threw" : " did not throw");
}
#else
MC_SCENARIO(big, BIGD)
{
    auto g = choose_big(c, sizes(79), true, 1);
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) g.w[i][j] = g.w[i][j] != 0;
    if (c.flip()) for (int i = 0; i < g.n; i += 2) g.w[i][i] = 1;
    double d = D[c.choose(mc::thorough ? 4 : 2)];
    static Lim const M[] = {{1e-5, ~0u}, {0, 3}, {1e-12, ~0u}, {0, 130}};
    Lim l = M[c.choose(4)]; if (d == 1.0 && l.it == ~0u) l.it = 50;
    bool dirty = c.flip();
    if (c.flip()) one<double, double>(g, d, l.thr, l.it, dirty); else one<int, double>(g, d, l.thr, l.it, dirty);
}
#endif
