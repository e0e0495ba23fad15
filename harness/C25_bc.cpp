// C25: betweenness centrality, against counting shortest paths pair by pair.
#define REF_MX 8
#include "../mc/graph.hpp"
using namespace gr;

struct Ref
{
    int n; int d[GX][GX]; double s[GX][GX];       // distances (-1 none) and numbers of shortest paths
    explicit Ref(G const &g) : n(g.n)
    {
        for (int a = 0; a < n; ++a)
        {
            auto h = hops(g, bit(a));
            for (int b = 0; b < n; ++b) { d[a][b] = h[b]; s[a][b] = b == a; }
            for (int L = 1; L < n; ++L) for (int b = 0; b < n; ++b) if (h[b] == L) for (int p = 0; p < n; ++p) if (g.e(p, b) && h[p] == L - 1) s[a][b] += s[a][p];
        }
    }
    double through(int a, int v, int b) const   // fraction of shortest a-b paths with v inside
    {
        if (a == b || v == a || v == b || d[a][b] < 0 || d[a][v] < 0 || d[v][b] < 0 || d[a][v] + d[v][b] != d[a][b]) return 0;
        return s[a][v] * s[v][b] / s[a][b];
    }
    double dep(int a, int v) const { double x = 0; for (int b = 0; b < n; ++b) x += through(a, v, b); return x; }
    double edge(int u, int v) const   // number of shortest paths that use the edge u->v
    {
        double x = 0;
        for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b)
            if (d[a][u] >= 0 && d[v][b] >= 0 && d[a][b] > 0 && d[a][u] + 1 + d[v][b] == d[a][b]) x += s[a][u] * s[v][b];
        return x;
    }
};
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(b)); }
template <class V> void compare(char const *what, V const &got, std::vector<double> const &want, G const &g, std::vector<Idx> const &src)
{
    mc::step();
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i) ok = near(double(got[i]), want[i]);
    if (ok) return;
    std::ostringstream os; os << what << " on " << show(g) << " sources";
    for (auto x : src) os << " " << x;
    os << ": got"; for (auto x : got) os << " " << x;
    os << " expected"; for (auto x : want) os << " " << x;
    MC_CHECK(false, os.str());
}
template <class V> std::vector<double> dense(V const &v)
{
    std::vector<double> r(v.size());
    for (Idx i = 0; i < v.size(); ++i) if (v.hasElement(i)) r[i] = v.extractElement(i);
    return r;
}
template <class T> void batch(G const &g, Ref const &R, std::vector<Idx> const &src)
{
    MC_SAY("betweenness on ", show(g), " with ", src.size(), " sources starting ", src[0]);
    auto m = mat<T>(g); auto A = real(m);
    std::vector<double> want(g.n);
    for (int v = 0; v < g.n; ++v) for (auto s : src) want[v] += R.dep(int(s), v);
    compare("vertex_betweenness_centrality_batch", algorithms::vertex_betweenness_centrality_batch(A, src), want, g, src);
    compare("vertex_betweenness_centrality_batch_alt", algorithms::vertex_betweenness_centrality_batch_alt(A, src), want, g, src);
    compare("vertex_betweenness_centrality_batch_alt_trans", algorithms::vertex_betweenness_centrality_batch_alt_trans(A, src), want, g, src);
    compare("vertex_betweenness_centrality_batch_alt_trans_v2", algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(A, src), want, g, src);
    compare("vertex_betweenness_centrality_batch_old", algorithms::vertex_betweenness_centrality_batch_old(A, src), want, g, src);
    grb::Vector<double> b5(g.n); b5.setElement(0, 7.5);         // overwritten
    algorithms::BC_update_appendixB5(b5, A, src);
    compare("BC_update_appendixB5", dense(b5), want, g, src);
    // one source at a time, each added to the vector so far
    grb::Vector<double> b4(g.n); std::vector<double> acc(g.n);
    if (src.size() > 1) { b4.setElement(g.n - 1, 2.5); acc[g.n - 1] = 2.5; }
    for (auto s : src)
    {
        algorithms::BC_appendixB4(b4, A, s);
        for (int v = 0; v < g.n; ++v) acc[v] += R.dep(int(s), v);
        compare("BC_appendixB4", dense(b4), acc, g, src);
    }
    expect(A, m, "graph afterwards");
}
template <class T> void all(G const &g, Ref const &R)
{
    MC_SAY("betweenness on ", show(g));
    auto m = mat<T>(g); auto A = real(m);
    if (!std::is_integral<T>::value)
    {
        std::vector<double> want(g.n);
        for (int v = 0; v < g.n; ++v) for (int s = 0; s < g.n; ++s) want[v] += R.dep(s, v);
        compare("vertex_betweenness_centrality", algorithms::vertex_betweenness_centrality(A), want, g, {});
    }
    auto E = algorithms::edge_betweenness_centrality(A); mc::step();
    Mat<T> we(g.n, g.n);
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.e(i, j)) we.set(i, j, T(R.edge(i, j)));
    expect(E, we, "edge_betweenness_centrality");
    expect(A, m, "graph afterwards");
}
static void types(mc::Ctx &c, G const &g, Ref const &R, std::vector<Idx> const &s)
{
    switch (c.choose(mc::thorough ? 4 : 2)) { case 0: batch<double>(g, R, s); break; case 1: batch<uint32_t>(g, R, s); break; case 2: batch<bool>(g, R, s); break; default: batch<float>(g, R, s); }
}
#ifndef GRAPH_BIG
static std::vector<Idx> sources(mc::Ctx &c, int n, bool ordered)
{
    std::vector<Idx> s; unsigned left = (1u << n) - 1;
    if (!ordered) { unsigned k = 1 + c.choose((1 << n) - 1); for (int i = 0; i < n; ++i) if (k >> i & 1) s.push_back(i); return s; }
    while (left)
    {
        std::vector<int> o; for (int i = 0; i < n; ++i) if (left >> i & 1) o.push_back(i);
        int k = c.choose(int(o.size()) + !s.empty());
        if (k == int(o.size())) break;
        s.push_back(o[k]); left &= ~(1u << o[k]);
    }
    return s;
}
MC_SCENARIO(d3, 4)
{
    int n = 1 + c.choose(3);
    auto g = choose_digraph(c, n, false); Ref R(g);
    types(c, g, R, sources(c, n, true));
}
MC_SCENARIO(d4, 8)
{
    auto g = choose_digraph(c, 4, false); Ref R(g);
    types(c, g, R, sources(c, 4, mc::thorough));
}
MC_SCENARIO(d4all, 8)
{
    int n = 1 + c.choose(4);
    auto g = choose_digraph(c, n, false); Ref R(g);
    switch (c.choose(3)) { case 0: all<double>(g, R); break; case 1: all<float>(g, R); break; default: all<int>(g, R); }
}
MC_SCENARIO(u5, 6)
{
    auto g = choose_ugraph(c, 5, false); Ref R(g);
    auto s = sources(c, 5, false);
    if (s.size() == 2 && c.flip()) std::swap(s[0], s[1]);
    batch<double>(g, R, s);
}
MC_SCENARIO(u56all, 8)
{
    int n = 5 + c.choose(mc::thorough ? 2 : 2);
    auto g = choose_ugraph(c, n, false); Ref R(g);
    if (n == 6 && !mc::thorough && g.edges() > 16) throw mc::Prune();
    all<double>(g, R);
}
// layered graphs (every edge one layer down) of up to 7 vertices: many equal shortest paths
MC_SCENARIO(layers, 8)
{
    static int const L[][4] = {{2, 2, 2, 1}, {1, 3, 2, 1}, {1, 2, 3, 1}, {1, 2, 2, 2}, {1, 1, 3, 2}};
    auto &l = L[c.choose(mc::thorough ? 5 : 4)];
    G g; int st[5] = {}; for (int k = 0; k < 4; ++k) st[k + 1] = st[k] + l[k];
    g.n = st[4];
    for (int k = 0; k < 3; ++k) for (int i = st[k]; i < st[k + 1]; ++i) for (int j = st[k + 1]; j < st[k + 2]; ++j) g.w[i][j] = c.choose(2);
    int back = c.choose(3); if (back) g.w[g.n - 1][back - 1] = 1;
    Ref R(g);
    if (c.flip()) { std::vector<Idx> s; for (int i = 0; i < (c.flip() ? g.n : st[1]); ++i) s.push_back(i); batch<double>(g, R, s); }
    else all<double>(g, R);
}
// chains longer than the small graphs, with both directions
MC_SCENARIO(chain8, 2)
{
    G g; g.n = 8; int dir = c.choose(3);
    for (int i = 0; i + 1 < 8; ++i) { if (dir != 1) g.w[i][i + 1] = 1; if (dir != 0) g.w[i + 1][i] = 1; }
    int a = c.choose(8), b = c.choose(8); if (a != b) g.w[a][b] = 1;
    Ref R(g);
    int k = c.choose(3);
    if (k == 0) all<double>(g, R);
    else if (k == 1) batch<double>(g, R, {Idx(c.choose(8))});
    else batch<double>(g, R, {0, 7, 3});
}
#else
static std::vector<Idx> some(mc::Ctx &c, int n)
{
    std::vector<Idx> s;
    switch (c.choose(4)) { case 0: return {0}; case 1: return {Idx(n - 1), 0, Idx(n / 2)}; case 2: for (int i = 0; i < n; i += 3) s.push_back(i); return s; default: for (int i = n; i-- > 0;) s.push_back(i); return s; }
}
MC_SCENARIO(big_batch, BIGD)
{
    auto g = choose_big(c, sizes(mc::thorough ? 40 : 33), true, 1); Ref R(g);
    auto s = some(c, g.n); at_most(g, s.size() > 10 ? 1 : 800);
#ifdef GRAPH_HUGE
    if (!mc::thorough) return batch<double>(g, R, s);
#endif
    switch (c.choose(3)) { case 0: return batch<double>(g, R, s); case 1: return batch<uint32_t>(g, R, s); default: return batch<bool>(g, R, s); }
}
#ifndef GRAPH_ISO
// more shortest paths than a small counter holds
MC_SCENARIO(many_paths, 2)
{
    int n = c.flip() ? 70 : 40, k = c.choose(2), p = c.choose(3);
    G h = family(k ? 14 : 5, k ? 30 : n), g; g.n = h.n;
    int m = h.n / 3 + 1; while (std::gcd(m, h.n) != 1) ++m;
    auto L = [&](int i) { return p == 0 ? i : p == 1 ? h.n - 1 - i : i * m % h.n; };
    for (int i = 0; i < h.n; ++i) for (int j = 0; j < h.n; ++j) if (h.w[i][j]) g.w[L(i)][L(j)] = 1;
    Ref R(g);
    std::vector<Idx> s{Idx(L(0))}; if (c.flip()) { s.push_back(L(3)); s.push_back(L(h.n / 2)); }
    if (c.flip()) batch<double>(g, R, s); else batch<uint32_t>(g, R, s);
}
#endif
#ifndef GRAPH_HUGE
MC_SCENARIO(big_all, BIGD)
{
    auto g = choose_big(c, sizes(mc::thorough ? 33 : 17), true, 1); Ref R(g);
    if (c.flip()) all<double>(g, R); else all<int>(g, R);
}
#endif
#endif
