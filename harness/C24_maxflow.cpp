// C24: maximum flow, against the minimum cut by enumeration of all cuts.
#define REF_MX 24
#include "../mc/graph.hpp"
using namespace gr;

static int mincut(int n, int const *w, int s, int t)   // w[n*i+j]
{
    int best = INF;
    for (unsigned S = 0; S < 1u << n; ++S)
    {
        if (!(S >> s & 1) || (S >> t & 1)) continue;
        int k = 0;
        for (int i = 0; i < n; ++i) if (S >> i & 1) for (int j = 0; j < n; ++j) if (!(S >> j & 1)) k += w[n * i + j];
        best = std::min(best, k);
    }
    return best;
}
// plain augmenting paths on a residual matrix
static int augment(std::vector<std::vector<int>> R, int s, int t)
{
    int n = int(R.size()), total = 0;
    for (;;)
    {
        std::vector<int> par(n, -1), q{s}; par[s] = s;
        for (size_t h = 0; h < q.size() && par[t] < 0; ++h) for (int j = 0; j < n; ++j) if (par[j] < 0 && R[q[h]][j] > 0) { par[j] = q[h]; q.push_back(j); }
        if (par[t] < 0) return total;
        int gm = INF; for (int x = t; x != s; x = par[x]) gm = std::min(gm, R[par[x]][x]);
        for (int x = t; x != s; x = par[x]) { R[par[x]][x] -= gm; R[x][par[x]] += gm; }
        total += gm;
    }
}
template <class T> void flows(int n, Mat<T> const &m, int s, int t, T want)
{
    MC_SAY("flow ", s, " to ", t, " through ", ref::show(m), " expected ", want);
    auto A = real(m);
    T a = algorithms::maxflow_push_relabel(A, Idx(s), Idx(t)); mc::step();
    MC_CHECK(a == want, "maxflow_push_relabel returned ", +a, " expected ", +want);
    T b = algorithms::maxflow_ford_fulk(A, Idx(s), Idx(t)); mc::step();
    MC_CHECK(b == want, "maxflow_ford_fulk returned ", +b, " expected ", +want);
    expect(A, m, "capacities afterwards");
    (void)n;
}
template <class T> void one(G const &g, int const *W, double sc, int s, int t)
{
    int n = g.n; int w[GX * GX];
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w[n * i + j] = W[g.w[i][j]];
    flows<T>(n, mat<T>(g, [&](int k) { return W[k] * sc; }), s, t, T(mincut(n, w, s, t) * sc));
}
static int const W1[] = {0, 1, 2, 4}, W3[] = {0, 3, 1, 7};
#ifndef GRAPH_BIG
MC_SCENARIO(n23, 5)
{
    int n = 2 + c.choose(2);
    auto g = choose_digraph(c, n, n == 2 || mc::thorough, 4);
    int s = c.choose(n), t = c.choose(n - 1); if (t >= s) ++t;
    int const *W = c.flip() ? W1 : W3;
    if (c.flip()) one<int>(g, W, 1, s, t); else one<double>(g, W, 0.5, s, t);
}
MC_SCENARIO(n3loops, 5)
{
    auto g = choose_digraph(c, 3, true, 3);
    int s = c.choose(3), t = c.choose(2); if (t >= s) ++t;
    one<int>(g, W3, 1, s, t);
}
static int const ST[][2] = {{0, 3}, {3, 0}, {1, 2}, {2, 0}};
MC_SCENARIO(n4unit, 8)
{
    auto g = choose_digraph(c, 4, false, 2);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (g.e(i, j)) g.w[i][j] = 1 + (i + 2 * j) % 3;
    int s = c.choose(4), t = c.choose(3); if (t >= s) ++t;
    one<int>(g, W1, 1, s, t);
}
MC_SCENARIO(n4, 8)
{
    auto g = choose_digraph(c, 4, false, 3);
    int k = c.choose(mc::thorough ? 4 : 2);
    one<int>(g, W3, 1, ST[k][0], ST[k][1]);
}
// five vertices, terminals 0 and 4: every capacity from {none,1,2,4} on the seven edges of the
// bridge network plus one more edge anywhere
MC_SCENARIO(bridge5, 7)
{
    static int const E[][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 3}, {1, 4}, {3, 4}};
    G g; g.n = 5;
    for (auto &e : E) g.w[e[0]][e[1]] = c.choose(mc::thorough ? 4 : 3);
    int a = c.choose(5), b = c.choose(4); if (b >= a) ++b;
    if (!g.w[a][b]) g.w[a][b] = 1 + c.choose(2);
    bool rev = c.flip();          // same network with the vertex numbers reversed
    if (rev) { G h; h.n = 5; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) h.w[4 - i][4 - j] = g.w[i][j]; g = h; }
    one<int>(g, W1, 1, rev ? 4 : 0, rev ? 0 : 4);
}
// layered networks that make shortest augmenting paths go back and forth through
// a p x p bipartite middle: many more augmentations than edges
MC_SCENARIO(backforth, 2)
{
    int p = 1 + c.choose(5), ph = 1 + c.choose(3);
    bool perm = c.flip();
    int nn = 2 * p + 2 * ph;
    if (nn > 18) throw mc::Prune();
    Mat<int> m(nn, nn);
    auto V = [&](int k) { return perm ? nn - 1 - k : k; };
    auto edge = [&](int a, int b, int w) { m.set(V(a), V(b), w); };
    // numbering: source chain a0.., sink chain b0.., U, V
    auto a = [&](int k) { return k; };
    auto b = [&](int k) { return ph + k; };
    auto u = [&](int k) { return 2 * ph + k; };
    auto v = [&](int k) { return 2 * ph + p + k; };
    for (int i = 0; i < p; ++i) for (int j = 0; j < p; ++j) edge(u(i), v(j), 1);
    for (int k = 0; k < ph; ++k)
    {
        if (k) { edge(a(k - 1), a(k), 1000); edge(b(k), b(k - 1), 1000); }
        for (int i = 0; i < p; ++i) { edge(a(k), k % 2 ? v(i) : u(i), p); edge(k % 2 ? u(i) : v(i), b(k), p); }
    }
    // minimum cut by enumeration is too big here; flow p*p per phase is what the cut around a0
    // allows when phases alternate, computed by enumerating cuts below 2^16, else by formula
    int want;
    if (nn <= 14) { std::vector<int> w(nn * nn); for (int i = 0; i < nn; ++i) for (int j = 0; j < nn; ++j) if (m.e[i][j].has) w[nn * i + j] = m.e[i][j].v; want = mincut(nn, w.data(), V(a(0)), V(b(0))); }
    else
    {   // plain augmenting paths on a residual matrix
        std::vector<std::vector<int>> R(nn, std::vector<int>(nn));
        for (int i = 0; i < nn; ++i) for (int j = 0; j < nn; ++j) if (m.e[i][j].has) R[i][j] = m.e[i][j].v;
        want = augment(R, V(a(0)), V(b(0)));
    }
    flows<int>(nn, m, V(a(0)), V(b(0)), want);
}
#else
template <class T> void big(G const &g, int s, int t, int const *W, double sc)
{
    int n = g.n;
    std::vector<std::vector<int>> R(n, std::vector<int>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) R[i][j] = W[g.w[i][j]];
    int want = augment(R, s, t);
    flows<T>(n, mat<T>(g, [&](int k) { return W[k] * sc; }), s, t, T(want * sc));
}
MC_SCENARIO(big_net, BIGD)
{
    static int const V1[] = {0, 1, 2, 4}, V3[] = {0, 300, 100, 700};
    auto g = choose_big(c, sizes(mc::thorough ? 33 : 17), true);
    at_most(g, 600);
    int k = c.choose(4), n = g.n;
    int s = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : 1, t = k == 0 ? n - 1 : k == 1 ? 0 : k == 2 ? 0 : n / 2;
    int const *W = c.flip() ? V1 : V3;
    if (c.flip()) big<int>(g, s, t, W, 1); else big<double>(g, s, t, W, 0.5);
}
#endif
