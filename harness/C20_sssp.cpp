// C20: shortest paths and the metrics built on them.
#define REF_MX 8
#include "../mc/graph.hpp"
using namespace gr;

// weights of options 1, 2, 3, ...
static int const WPOS[] = {0, 1, 2, 5}, WNNEG[] = {0, 1, 0, 3}, WANY[] = {0, 2, -1, 0};
struct WG { G g; int const *W; int w(int i, int j) const { return W[g.w[i][j]]; } };

// distances from s by n rounds of relaxation; false when a negative cycle is reachable
static bool dist(WG const &x, int s, std::vector<int> &d)
{
    d.assign(x.g.n, INF); d[s] = 0;
    for (int k = 0; k < x.g.n; ++k)
    {
        bool ch = false;
        for (int i = 0; i < x.g.n; ++i) if (d[i] < INF) for (int j = 0; j < x.g.n; ++j) if (x.g.e(i, j) && d[i] + x.w(i, j) < d[j]) { d[j] = d[i] + x.w(i, j); ch = true; }
        if (!ch) return true;
    }
    return false;
}
template <class T> Mat<T> wmat(WG const &x) { return mat<T>(x.g, [&](int k) { return x.W[k]; }); }
template <class V> void is_dist(V const &v, std::vector<int> const &d, char const *what)
{
    Vec<typename V::ScalarType> e(int(d.size()));
    for (size_t i = 0; i < d.size(); ++i) if (d[i] < INF) e.set(int(i), static_cast<typename V::ScalarType>(d[i]));
    mc::step();
    expect(v, e, what);
}
static void say(WG const &x, int s)
{
    if (!mc::verbose) return;
    std::ostringstream os; os << "n=" << x.g.n << " {";
    for (int i = 0; i < x.g.n; ++i) for (int j = 0; j < x.g.n; ++j) if (x.g.e(i, j)) os << " " << i << "->" << j << ":" << x.w(i, j);
    MC_SAY("shortest paths from ", s, " on ", os.str(), " }");
}
template <class T> void one(WG const &x, int s)
{
    say(x, s);
    auto m = wmat<T>(x); auto A = real(m);
    std::vector<int> d; bool fin = dist(x, s, d);
    { grb::Vector<T> v(x.g.n); v.setElement(s, 0); bool r = algorithms::sssp(A, v); MC_CHECK(r == fin, "sssp returned ", r); if (fin) is_dist(v, d, "sssp"); }
    { grb::Vector<T> v(x.g.n); v.setElement(s, 0); bool r = algorithms::filtered_sssp(A, v); MC_CHECK(r == fin, "filtered_sssp returned ", r); if (fin) is_dist(v, d, "filtered_sssp"); }
    expect(A, m, "graph afterwards");
}
template <class T> void delta(WG const &x, int s, T dl)
{
    say(x, s); MC_SAY("delta ", dl);
    auto m = wmat<T>(x); auto A = real(m);
    std::vector<int> d; dist(x, s, d);
    grb::Vector<T> v(x.g.n); v.setElement(0, 99);
    algorithms::sssp_delta_step(A, dl, Idx(s), v);
    is_dist(v, d, "sssp_delta_step");
    expect(A, m, "graph afterwards");
}
template <class T> void all(WG const &x)
{
    say(x, -1);
    int n = x.g.n;
    auto m = wmat<T>(x); auto A = real(m);
    Mat<T> D(n, n);
    bool fin = true;
    for (int s = 0; s < n; ++s)
    {
        std::vector<int> d; fin = dist(x, s, d) && fin;
        for (int j = 0; j < n; ++j) if (d[j] < INF) D.set(s, j, d[j]);
    }
    {   // rows in reverse order of sources, the last source twice, one empty row
        grb::Matrix<T> ds(n + 2, n); Mat<T> E(n + 2, n);
        for (int s = 0; s < n; ++s) { ds.setElement(s, n - 1 - s, 0); for (int j = 0; j < n; ++j) E.e[s][j] = D.e[n - 1 - s][j]; }
        ds.setElement(n + 1, n - 1, 0); for (int j = 0; j < n; ++j) E.e[n + 1][j] = D.e[n - 1][j];
        bool r = algorithms::batch_sssp(A, ds);
        MC_CHECK(r == fin, "batch_sssp returned ", r); mc::step();
        if (fin) expect(ds, E, "batch_sssp");
    }
    if (!fin) return;
    { auto R = algorithms::apsp(A); mc::step(); expect(R, D, "apsp"); }
    expect(A, m, "graph afterwards");
}
template <class T> void metrics(WG const &x)   // positive weights
{
    say(x, -1);
    int n = x.g.n;
    auto m = wmat<T>(x); auto A = real(m);
    Mat<T> D(n, n);
    int rad = INF, dia = 0;
    for (int s = 0; s < n; ++s)
    {
        std::vector<int> d; dist(x, s, d);
        int ecc = 0, sum = 0;
        for (int j = 0; j < n; ++j) if (d[j] < INF) { D.set(s, j, d[j]); ecc = std::max(ecc, d[j]); sum += d[j]; }
        rad = std::min(rad, ecc); dia = std::max(dia, ecc);
        grb::Vector<T> v(n); v.setElement(n - 1, 42);
        algorithms::graph_distance(A, Idx(s), v); is_dist(v, d, "graph_distance");
        MC_CHECK(algorithms::vertex_eccentricity(A, Idx(s)) == T(ecc), "vertex_eccentricity(", s, ") expected ", ecc);
        MC_CHECK(algorithms::closeness_centrality(A, Idx(s)) == T(sum), "closeness_centrality(", s, ") (sum of distances) expected ", sum);
        MC_CHECK(algorithms::vertex_in_degree(A, Idx(s)) == T(x.g.indeg(s)), "vertex_in_degree(", s, ") expected ", x.g.indeg(s));
        MC_CHECK(algorithms::vertex_out_degree(A, Idx(s)) == T(x.g.outdeg(s)), "vertex_out_degree(", s, ") expected ", x.g.outdeg(s));
        MC_CHECK(algorithms::vertex_degree(A, Idx(s)) == T(x.g.outdeg(s) + x.g.indeg(s)), "vertex_degree(", s, ")");
        mc::step(5);
    }
    grb::Matrix<T> R(n, n); R.setElement(0, n - 1, 9);
    algorithms::graph_distance_matrix(A, R); mc::step(); expect(R, D, "graph_distance_matrix");
    MC_CHECK(algorithms::graph_radius(A) == T(rad), "graph_radius expected ", rad);
    MC_CHECK(algorithms::graph_diameter(A) == T(dia), "graph_diameter expected ", dia);
    mc::step(2);
    expect(A, m, "graph afterwards");
}
template <class T> void kinds(mc::Ctx &c, WG const &x, bool neg)
{
    (void)neg;
    int k = c.choose(3);
    if (k == 0) one<T>(x, c.choose(x.g.n));
    else if (k == 1) all<T>(x);
    else
    {
        if (x.W == WANY) throw mc::Prune();
        if (c.flip()) { if (x.W == WPOS) metrics<T>(x); else throw mc::Prune(); }
        else { static int const dl[] = {1, 2, 3, 10}; int s = c.choose(x.g.n); delta<T>(x, s, T(dl[c.choose(4)])); }
    }
}
#ifndef GRAPH_BIG
// all graphs up to 3 vertices with self loops and every assignment of three weights
MC_SCENARIO(n3, 8)
{
    int w = c.choose(3), n = 1 + c.choose(3);
    WG x{choose_digraph(c, n, n < 3 || mc::thorough, 4), w == 0 ? WPOS : w == 1 ? WNNEG : WANY};
    kinds<int>(c, x, w == 2);
}
MC_SCENARIO(n3loops, 9)
{
    int w = c.choose(3);
    WG x{choose_digraph(c, 3, true, 3), w == 0 ? WPOS : w == 1 ? WNNEG : WANY};
    if (w == 1 && c.flip()) kinds<unsigned>(c, x, false); else kinds<double>(c, x, w == 2);
}
// 4 vertices: unit weights with every edge set; two weights over every ring+chords shape
MC_SCENARIO(n4unit, 10)
{
    WG x{choose_digraph(c, 4, false, 2), WPOS};
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (x.g.e(i, j)) x.g.w[i][j] = 1 + (i * 3 + j * 5 + i * j) % 3;
    kinds<int>(c, x, false);
}
MC_SCENARIO(n4, 10)
{
    int w = c.choose(3);
    WG x{choose_digraph(c, 4, false, mc::thorough ? 3 : 2), w == 0 ? WPOS : w == 1 ? WNNEG : WANY};
    if (!mc::thorough)
    {   // two weights chosen per source row instead of per edge
        for (int i = 0; i < 4; ++i) { int k = c.choose(2); for (int j = 0; j < 4; ++j) if (x.g.e(i, j)) x.g.w[i][j] = 1 + (k ^ ((i + j) & 1)); }
    }
    kinds<int>(c, x, w == 2);
}
// paths visiting all vertices in every order, with one shortcut of any weight
MC_SCENARIO(paths, 4)
{
    int n = mc::thorough ? 6 : 5;
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    for (int i = 0; i < n - 1; ++i) { int k = c.choose(n - i); std::swap(p[i], p[i + k]); }
    int w = c.choose(3);
    WG x; x.g.n = n; x.W = w == 0 ? WPOS : w == 1 ? WNNEG : WANY;
    for (int i = 0; i + 1 < n; ++i) x.g.w[p[i]][p[i + 1]] = 1 + (i + w) % 3;
    int a = c.choose(n), b = c.choose(n), k = 1 + c.choose(3);
    x.g.w[a][b] = k;
    one<int>(x, p[0]); all<int>(x);
    if (w < 2) for (int dl : {1, 2, 4, 20}) delta<int>(x, p[0], dl);
    if (w == 0) metrics<int>(x);
}
// fractional weights and widths
MC_SCENARIO(fractions, 8)
{
    WG x{choose_digraph(c, 3, false, 4), WPOS};
    double sc = c.flip() ? 0.25 : 0.5;
    int s = c.choose(3), q = c.choose(3);
    double dl = q == 0 ? 0.25 : q == 1 ? 0.75 : 1.5;
    auto m = mat<double>(x.g, [&](int k) { return WPOS[k] * sc; }); auto A = real(m);
    std::vector<int> d; dist(x, s, d);
    Vec<double> e(3); for (int i = 0; i < 3; ++i) if (d[i] < INF) e.set(i, d[i] * sc);
    say(x, s); MC_SAY("all weights times ", sc, " delta ", dl);
    { grb::Vector<double> v(3); v.setElement(s, 0); algorithms::sssp(A, v); expect(v, e, "sssp"); }
    { grb::Vector<double> v(3); v.setElement(s, 0); algorithms::filtered_sssp(A, v); expect(v, e, "filtered_sssp"); }
    { grb::Vector<double> v(3); algorithms::sssp_delta_step(A, dl, Idx(s), v); expect(v, e, "sssp_delta_step"); }
    mc::step(3);
}
#else
static int at(mc::Ctx &c, int n) { int k = c.choose(4); return k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : n / 3; }
MC_SCENARIO(big_one, BIGD)
{
    WG x; x.g = choose_big(c, sizes(79), true);
    int w = c.choose(3); x.W = w == 0 ? WPOS : w == 1 ? WNNEG : WANY;
    int s = at(c, x.g.n);
    if (w == 1) one<unsigned>(x, s); else if (c.flip()) one<int>(x, s); else one<double>(x, s);
}
MC_SCENARIO(big_delta, BIGD)
{
    WG x; x.g = choose_big(c, sizes(79), true); x.W = c.flip() ? WPOS : WNNEG;
    static int const dl[] = {1, 2, 3, 7, 1000};
    delta<int>(x, at(c, x.g.n), dl[c.choose(5)]);
}
MC_SCENARIO(big_all, BIGD)
{
    WG x; x.g = choose_big(c, sizes(33), true); int w = c.choose(3); x.W = w == 0 ? WPOS : w == 1 ? WNNEG : WANY;
    at_most(x.g, 300);
    all<int>(x);
}
#ifndef GRAPH_HUGE
MC_SCENARIO(big_all66, BIGD) { WG x; x.g = choose_big(c, {66}, true, 1); x.W = WPOS; all<int>(x); }
MC_SCENARIO(big_metrics, BIGD) { WG x; x.g = choose_big(c, sizes(mc::thorough ? 66 : 17), true, 2); x.W = WPOS; metrics<int>(x); }
#endif
#endif
