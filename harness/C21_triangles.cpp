// C21: triangle counting and k-truss on every small undirected simple graph.
#define REF_MX 22
#include "../mc/graph.hpp"
using namespace gr;

static int triangles(G const &g)
{
    int k = 0;
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) for (int l = 0; l < j; ++l) k += g.e(i, j) && g.e(j, l) && g.e(i, l);
    return k;
}
static G truss(G g, int k)
{
    for (bool ch = true; ch;)
    {
        ch = false;
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) if (g.e(i, j))
        {
            int s = 0;
            for (int l = 0; l < g.n; ++l) s += g.e(i, l) && g.e(j, l);
            if (s < k - 2) { g.w[i][j] = g.w[j][i] = 0; ch = true; }
        }
    }
    return g;
}
template <class T> void counts(G const &g)
{
    int const want = triangles(g);
    MC_SAY("triangles of ", show(g), " expected ", want);
    auto m = mat<T>(g);
    Mat<T> ml(g.n, g.n), mu(g.n, g.n);
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.e(i, j)) (i > j ? ml : mu).set(i, j, 1);
    auto A = real(m); auto L = real(ml); auto U = real(mu);
    auto ck = [&](auto got, char const *what) { mc::step(); MC_CHECK(got == decltype(got)(want), what, " returned ", +got, " expected ", want, " on ", show(g)); };
    ck(algorithms::triangle_count(A), "triangle_count");
    ck(algorithms::triangle_count_masked(L, U), "triangle_count_masked(L,U)");
    ck(algorithms::triangle_count_masked(L), "triangle_count_masked(L)");
    ck(algorithms::triangle_count_masked_noT(L), "triangle_count_masked_noT(L)");
    ck(algorithms::triangle_count_newGBTL(L, U), "triangle_count_newGBTL(L,U)");
    ck(algorithms::triangle_count_newGBTL(grb::transpose(U), U), "triangle_count_newGBTL(U',U)");
    ck(algorithms::triangle_count_appendixB7(L), "triangle_count_appendixB7");
    expect(A, m, "graph afterwards"); expect(L, ml, "lower half afterwards"); expect(U, mu, "upper half afterwards");
}
template <class T> void trusses(G const &g, int k, bool rev)
{
    MC_SAY(k, "-truss of ", show(g));
    G t = truss(g, k);
    {
        auto m = mat<T>(g); auto A = real(m);
        auto R = algorithms::k_truss2(A, Idx(k)); mc::step();
        expect(R, mat<T>(t), "k_truss2"); expect(A, m, "graph afterwards");
    }
    int e = g.edges() / 2;
    if (e == 0) return;
    Mat<T> in(e, g.n);
    std::vector<std::pair<int, int>> ed;
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < i; ++j) if (g.e(i, j)) ed.push_back({i, j});
    if (rev) std::reverse(ed.begin(), ed.end());
    for (int r = 0; r < e; ++r) { in.set(r, ed[r].first, 1); in.set(r, ed[r].second, 1); }
    auto E = real(in);
    auto R = algorithms::k_truss(E, Idx(k)); mc::step();
    expect(E, in, "incidence matrix afterwards");
    Idx want = Idx(t.edges() / 2);
    MC_CHECK(R.nrows() == want && R.nvals() == 2 * want && R.ncols() == Idx(g.n), "k_truss: ", R.nrows(), " edges (", R.nvals(), " stored) expected ", want);
    G got; got.n = g.n;
    for (Idx r = 0; r < R.nrows(); ++r)
    {
        std::vector<int> v;
        for (int i = 0; i < g.n; ++i) if (R.hasElement(r, i)) { MC_CHECK(R.extractElement(r, i) == 1, "k_truss: edge value"); v.push_back(i); }
        MC_CHECK(v.size() == 2, "k_truss: row ", r, " does not name two vertices");
        got.w[v[0]][v[1]] = got.w[v[1]][v[0]] = 1;
    }
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) MC_CHECK(got.e(i, j) == t.e(i, j), "k_truss: edge ", i, "-", j, t.e(i, j) ? " missing" : " should be gone");
}
#ifndef GRAPH_BIG
MC_SCENARIO(tri5, 9)
{
    int n = 1 + c.choose(5); auto g = choose_ugraph(c, n, false);
    switch (c.choose(4)) { case 0: return counts<int>(g); case 1: return counts<double>(g); case 2: return counts<uint64_t>(g); default: return counts<unsigned>(g); }
}
MC_SCENARIO(tri6, 9) { counts<int>(choose_ugraph(c, 6, false)); }
MC_SCENARIO(tri7, 9)
{
    G g = choose_ugraph(c, 6, false); g.n = 7;
    // the seventh vertex: all edge sets (thorough) or one of three
    unsigned s = mc::thorough ? unsigned(c.choose(64)) : (c.flip() ? 63u : 0b101101u);
    for (int i = 0; i < 6; ++i) if (s >> i & 1) g.w[6][i] = g.w[i][6] = 1;
    counts<unsigned>(g);
}
MC_SCENARIO(truss5, 9)
{
    int n = 2 + c.choose(4); auto g = choose_ugraph(c, n, false); int k = 2 + c.choose(5); bool rev = c.flip();
    switch (c.choose(3)) { case 0: return trusses<int>(g, k, rev); case 1: return trusses<double>(g, k, rev); default: return trusses<uint64_t>(g, k, rev); }
}
MC_SCENARIO(truss6, 9) { auto g = choose_ugraph(c, 6, false); trusses<int>(g, 3 + c.choose(mc::thorough ? 4 : 3), false); }
MC_SCENARIO(truss7, 9)
{
    G g = choose_ugraph(c, mc::thorough ? 6 : 5, false); g.n += 1;
    unsigned s = unsigned(c.choose(1 << (g.n - 1)));
    for (int i = 0; i + 1 < g.n; ++i) if (s >> i & 1) g.w[g.n - 1][i] = g.w[i][g.n - 1] = 1;
    trusses<int>(g, 4, true);
}
#else
MC_SCENARIO(big_count, BIGD)
{
    auto g = choose_big(c, sizes(79), false, 1);
    switch (c.choose(4)) { case 0: return counts<int>(g); case 1: return counts<double>(g); case 2: return counts<uint64_t>(g); default: return counts<unsigned>(g); }
}
MC_SCENARIO(big_truss, BIGD)
{
    auto g = choose_big(c, sizes(mc::thorough ? 40 : 17), false, 1);
    at_most(g, 3000);
    static int const K[] = {3, 4, 5, 6, 8, 2};
    int k = K[c.choose(6)]; bool rev = c.flip();
    if (c.flip()) trusses<int>(g, k, rev); else trusses<double>(g, k, rev);
}
MC_SCENARIO(big_truss33, BIGD)
{
    auto g = choose_big(c, {33, 66}, false, 1);
    if (g.edges() > 700) throw mc::Prune();
    trusses<uint64_t>(g, 3 + c.choose(2), false);
}
#endif
