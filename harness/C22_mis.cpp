// C22: maximal independent set.  The random draws are choices of the explorer
// (RNG=1): the library's distribution is replaced by one that asks it; RNG=0
// runs the real generator over a range of seeds.
#define REF_MX 8
#include <random>
#include "../mc/mc.hpp"
#if RNG
namespace mcrng { inline int left = 0, k = 0; inline double next()
{
    static double const v[] = {0.0, 0.5, 0.999};
    if (left > 0) { --left; return v[mc::ctx->choose(3)]; }
    if (left < 0) { ++left; return 0.5; }    // a run of equal draws
    ++k;                                     // beyond the horizon: a fixed, tie-free sequence
    double x = k * 0.6180339887; return x - int(x);
} }
namespace std { template <class T = double> struct mc_uniform_real {
    using result_type = T;
    template <class... A> explicit mc_uniform_real(A const &...) {}
    mc_uniform_real() {}
    template <class E> T operator()(E &) { return T(mcrng::next()); }
}; }
#define uniform_real_distribution mc_uniform_real
#endif
#include "../mc/graph.hpp"
using namespace gr;

template <class T> void one(G const &g, double seed, bool app, int draws)
{
    auto m = mat<T>(g); auto A = real(m);
    MC_SAY(app ? "mis_appendixB6" : "mis", " on ", show(g), " seed ", seed);
#if RNG
    mcrng::left = draws; mcrng::k = 0;
#else
    (void)draws;
#endif
    grb::Vector<bool> s(g.n);
    if (app) algorithms::mis_appendixB6(s, A, seed); else algorithms::mis(A, s, seed);
    mc::step();
    std::vector<bool> in(g.n);
    Idx k = 0;
    for (int i = 0; i < g.n; ++i) if (s.hasElement(i)) { in[i] = true; ++k; MC_CHECK(s.extractElement(i), "vertex ", i, " is stored but false"); }
    MC_CHECK(s.nvals() == k, "count of stored values");
    for (int i = 0; i < g.n; ++i)
    {
        bool nb = false;
        for (int j = 0; j < g.n; ++j) if (g.e(i, j) && in[j]) { nb = true; MC_CHECK(!in[i], "adjacent vertices ", i, " and ", j, " are both selected"); }
        MC_CHECK(in[i] || nb, "vertex ", i, " could still be added");
    }
    auto ids = algorithms::get_vertex_IDs(s);
    MC_CHECK(ids.size() == k, "get_vertex_IDs: ", ids.size(), " expected ", k);
    for (auto i : ids) { MC_CHECK(i < Idx(g.n) && in[i], "get_vertex_IDs: ", i); in[i] = false; }
    expect(A, m, "graph afterwards");
}
static void pick(mc::Ctx &c, G const &g, double seed, int draws)
{
    bool app = c.flip();
    switch (c.choose(3)) { case 0: return one<int>(g, seed, app, draws); case 1: return one<bool>(g, seed, app, draws); default: return one<double>(g, seed, app, draws); }
}
#ifdef GRAPH_BIG
MC_SCENARIO(big, BIGD)
{
    auto g = choose_big(c, sizes(79), false, 1); int n = g.n;
#if RNG
    int k = c.choose(4), draws = k == 0 ? 2 : k == 1 ? -n : k == 2 ? -n / 2 : -3 * n;
    pick(c, g, 0, draws);
#else
    pick(c, g, c.choose(mc::thorough ? 16 : 4), 0);
#endif
}
#elif RNG
MC_SCENARIO(draws4, 8) { int n = 1 + c.choose(4); auto g = choose_ugraph(c, n, false); pick(c, g, 0, mc::thorough ? 10 : 8); }
MC_SCENARIO(draws5, 10) { auto g = choose_ugraph(c, 5, false); bool app = c.flip(); one<int>(g, 0, app, mc::thorough ? 9 : 6); }
MC_SCENARIO(draws6, 12) { auto g = choose_ugraph(c, 6, false); bool app = c.flip(); one<int>(g, 0, app, mc::thorough ? 7 : 3); }
#else
MC_SCENARIO(seeds5, 8) { int n = 1 + c.choose(5); auto g = choose_ugraph(c, n, false); pick(c, g, c.choose(mc::thorough ? 64 : 8), 0); }
MC_SCENARIO(seeds6, 8) { auto g = choose_ugraph(c, 6, false); pick(c, g, c.choose(mc::thorough ? 16 : 2), 0); }
#endif
