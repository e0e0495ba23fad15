// C23: minimum spanning tree, against Kruskal.
#define REF_MX 8
#include "../mc/graph.hpp"
using namespace gr;
static int find(std::vector<int> &p, int x) { while (p[x] != x) x = p[x]; return x; }

template <class T> void one(G const &g, int const *W, double scale)
{
    auto m = mat<T>(g, [&](int k) { return W[k] * scale; }); auto A = real(m);
    int n = g.n;
    std::vector<std::pair<int, std::pair<int, int>>> ed;
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (g.e(i, j)) ed.push_back({W[g.w[i][j]], {i, j}});
    std::sort(ed.begin(), ed.end());
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    double want = 0; int cnt = 0;
    for (auto &e : ed) { int a = find(p, e.second.first), b = find(p, e.second.second); if (a != b) { p[a] = b; want += e.first * scale; ++cnt; } }
    if (cnt != n - 1) throw mc::Prune();
    MC_SAY("mst of ", ref::show(m), " expected weight ", want);
    grb::Vector<grb::IndexType> par(n); par.setElement(n - 1, 0);
    T got = algorithms::mst(A, par);
    mc::step();
    MC_CHECK(got == T(want), "weight ", got, " expected ", want);
    MC_CHECK(par.nvals() == Idx(n - 1), "parent entries ", par.nvals(), " expected ", n - 1);
    std::iota(p.begin(), p.end(), 0);
    double sum = 0; int have = 0;
    for (int v = 0; v < n; ++v)
    {
        if (!par.hasElement(v)) continue;
        ++have;
        Idx u = par.extractElement(v);
        MC_CHECK(u < Idx(n) && int(u) != v && g.e(int(u), v), "parent of ", v, " is ", u, ": no such edge");
        int a = find(p, v), b = find(p, int(u));
        MC_CHECK(a != b, "the parents contain a cycle at ", v);
        p[a] = b; sum += W[g.w[u][v]] * scale;
    }
    MC_CHECK(have == n - 1 && sum == want, "tree has ", have, " edges of weight ", sum, " expected ", n - 1, " of ", want);
    expect(A, m, "graph afterwards");
}
#ifndef GRAPH_BIG
static int const W1[] = {0, 1, 2, 3, 5}, W0[] = {0, 2, 0, 5, 1}, WN[] = {0, -1, 3, 1, -4};
static void pick(mc::Ctx &c, G const &g)
{
    int w = c.choose(3);
    int const *W = w == 0 ? W1 : w == 1 ? W0 : WN;
    if (c.flip()) one<double>(g, W, 0.5); else one<int>(g, W, 1);
}
MC_SCENARIO(n3, 3) { int n = 1 + c.choose(3); pick(c, choose_ugraph(c, n, true, 4)); }
MC_SCENARIO(n4, 5) { pick(c, choose_ugraph(c, 4, false, mc::thorough ? 5 : 4)); }
MC_SCENARIO(n4loops, 6) { pick(c, choose_ugraph(c, 4, true, 3)); }
MC_SCENARIO(n5, 7) { pick(c, choose_ugraph(c, 5, false, mc::thorough ? 4 : 3)); }
// every labelled tree shape on 6 vertices as a chain order, plus two more edges
MC_SCENARIO(chain6, 5)
{
    int n = 6;
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    for (int i = 0; i < n - 1; ++i) { int k = c.choose(n - i); std::swap(p[i], p[i + k]); }
    G g; g.n = n;
    for (int i = 0; i + 1 < n; ++i) g.w[p[i]][p[i + 1]] = g.w[p[i + 1]][p[i]] = 1 + (i * 2) % 4;
    int a = c.choose(n - 1) + 1, b = c.choose(a), k = 1 + c.choose(4);
    g.w[a][b] = g.w[b][a] = k;
    int a2 = c.choose(n - 1) + 1, b2 = c.choose(a2);
    g.w[a2][b2] = g.w[b2][a2] = 2;
    one<int>(g, c.flip() ? W1 : WN, 1);
}
#else
static int const V1[] = {0, 2, 3, 5}, V0[] = {0, 2, 0, 5}, VN[] = {0, -1, 3, -4};
MC_SCENARIO(big, BIGD)
{
    auto g = choose_big(c, sizes(79), false, 3);
    if (!connected(g)) throw mc::Prune();
    int w = c.choose(3); int const *W = w == 0 ? V1 : w == 1 ? V0 : VN;
    if (c.flip()) one<double>(g, W, 0.5); else one<int>(g, W, 1);
}
#endif
