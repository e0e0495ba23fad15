// C19: breadth-first search, every variant, against a queue-based BFS.
#define REF_MX 8
#include "../mc/graph.hpp"
using namespace gr;

template <class V> void levels_are(V const &lv, std::vector<int> const &d, char const *what)
{
    Vec<typename V::ScalarType> e(int(d.size()));
    for (size_t i = 0; i < d.size(); ++i) if (d[i] >= 0) e.set(int(i), d[i] + 1);
    mc::step();
    expect(lv, e, what);
}
template <class M> void rows_are(M const &lv, std::vector<std::vector<int>> const &d, int n, char const *what)
{
    Mat<typename M::ScalarType> e(int(d.size()), n);
    for (size_t r = 0; r < d.size(); ++r) for (int i = 0; i < n; ++i) if (d[r][i] >= 0) e.set(int(r), i, d[r][i] + 1);
    mc::step();
    expect(lv, e, what);
}
// has(i), at(i)
template <class H, class F> void parents_ok(G const &g, std::vector<int> const &d, H has, F at, Idx nvals, char const *what)
{
    mc::step();
    Idx k = 0;
    for (int i = 0; i < g.n; ++i)
    {
        MC_CHECK(has(i) == (d[i] >= 0), what, ": vertex ", i, has(i) ? " has" : " lacks", " a parent, hop distance ", d[i]);
        if (!has(i)) continue;
        ++k;
        auto p = at(i);
        MC_CHECK(p >= 0 && p < g.n && p == decltype(p)(int(p)), what, ": parent of ", i, " is ", +p);
        if (d[i] == 0) MC_CHECK(int(p) == i, what, ": root ", i, " has parent ", +p);
        else MC_CHECK(g.e(int(p), i) && d[int(p)] == d[i] - 1, what, ": parent of ", i, " is ", +p, ", hop distances ", show(d));
    }
    MC_CHECK(nvals == k, what, ": count of stored values ", nvals, " expected ", k);
}
template <class T> grb::Vector<T> roots_vec(int n, Roots r)
{
    grb::Vector<T> w(n);
    for (int i = 0; i < n; ++i) if (r >> i & 1) w.setElement(i, 1);
    return w;
}
template <class T> grb::Matrix<T> roots_mat(int n, std::vector<Roots> const &rs)
{
    grb::Matrix<T> w(rs.size(), n);
    for (size_t r = 0; r < rs.size(); ++r) for (int i = 0; i < n; ++i) if (rs[r] >> i & 1) w.setElement(r, i, 1);
    return w;
}

template <class T> void single(G const &g, int src, bool dirty)
{
    using I = grb::IndexType;
    auto m = mat<T>(g);
    auto A = real(m);
    auto d = hops(g, bit(src));
    if constexpr (std::is_same_v<T, double>)
    {   // parents do not depend on edge values
        auto m2 = mat<T>(g);
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) m2.e[i][j].v *= 0.75 + i + 2 * j;
        auto A2 = real(m2);
        grb::Vector<I> p(g.n), q(g.n);
        algorithms::bfs(A2, I(src), p);
        parents_ok(g, d, [&](int i) { return p.hasElement(i); }, [&](int i) { return long(p.extractElement(i)); }, p.nvals(), "bfs(source), weighted");
        algorithms::bfs_parent_appendixB3(q, A2, I(src));
        parents_ok(g, d, [&](int i) { return q.hasElement(i); }, [&](int i) { return long(q.extractElement(i)); }, q.nvals(), "bfs_parent_appendixB3, weighted");
    }
    {
        grb::Vector<I> p(g.n);
        if (dirty) for (int i = 0; i < g.n; i += 2) p.setElement(i, 77);
        algorithms::bfs(A, I(src), p);
        parents_ok(g, d, [&](int i) { return p.hasElement(i); }, [&](int i) { return long(p.extractElement(i)); }, p.nvals(), "bfs(source)");
    }
    {
        grb::Vector<I> p(g.n);
        if (dirty) for (int i = 0; i < g.n; i += 2) p.setElement(i, 77);
        algorithms::bfs_parent_appendixB3(p, A, I(src));
        parents_ok(g, d, [&](int i) { return p.hasElement(i); }, [&](int i) { return long(p.extractElement(i)); }, p.nvals(), "bfs_parent_appendixB3");
    }
    { grb::Vector<I> v(g.n); algorithms::bfs_level(A, I(src), v); levels_are(v, d, "bfs_level(source)"); }
    { grb::Vector<I> v(g.n); algorithms::bfs_level_appendixB1(v, A, I(src)); levels_are(v, d, "bfs_level_appendixB1"); }
    { grb::Vector<I> v(g.n); algorithms::bfs_level_appendixB2(v, A, I(src)); levels_are(v, d, "bfs_level_appendixB2"); }
    expect(A, m, "graph afterwards");
}
template <class T> void multi(G const &g, Roots roots, bool dirty)
{
    auto m = mat<T>(g);
    auto A = real(m);
    auto d = hops(g, roots);
    if constexpr (!std::is_same_v<T, bool>)
    {
        auto w = roots_vec<T>(g.n, roots);
        grb::Vector<T> p(g.n);
        if (dirty) for (int i = 0; i < g.n; i += 2) p.setElement(i, 77);
        algorithms::bfs(A, w, p);
        parents_ok(g, d, [&](int i) { return p.hasElement(i); }, [&](int i) { return double(p.extractElement(i)); }, p.nvals(), "bfs(wavefront)");
    }
    {
        auto w = roots_vec<T>(g.n, roots);
        { grb::Vector<unsigned> v(g.n); algorithms::bfs_level_masked(A, w, v); levels_are(v, d, "bfs_level_masked"); }
        { grb::Vector<int> v(g.n); algorithms::bfs_level_masked_v2(A, w, v); levels_are(v, d, "bfs_level_masked_v2"); }
        auto wb = roots_vec<bool>(g.n, roots);
        { grb::Vector<unsigned> v(g.n); algorithms::bfs_level_masked(A, wb, v); levels_are(v, d, "bfs_level_masked (bool wavefront)"); }
        { grb::Vector<unsigned> v(g.n); algorithms::bfs_level_masked_v2(A, wb, v); levels_are(v, d, "bfs_level_masked_v2 (bool wavefront)"); }
        MC_CHECK(w == roots_vec<T>(g.n, roots) && wb == roots_vec<bool>(g.n, roots), "the caller's wavefront was changed");
    }
    expect(A, m, "graph afterwards");
}
template <class T> void batch(G const &g, std::vector<Roots> const &rs, bool dirty)
{
    auto m = mat<T>(g);
    auto A = real(m);
    std::vector<std::vector<int>> d;
    for (auto r : rs) d.push_back(hops(g, r));
    auto W = roots_mat<T>(g.n, rs);
    if constexpr (!std::is_same_v<T, bool>)
    {
        grb::Matrix<T> p(rs.size(), g.n);
        if (dirty) for (int i = 0; i < g.n; i += 2) p.setElement(0, i, 77);
        algorithms::bfs_batch(A, W, p);
        Idx tot = 0;
        for (size_t r = 0; r < rs.size(); ++r)
        {
            Idx k = 0;
            for (int i = 0; i < g.n; ++i) k += p.hasElement(r, i);
            tot += k;
            parents_ok(g, d[r], [&](int i) { return p.hasElement(r, i); }, [&](int i) { return double(p.extractElement(r, i)); }, k, "bfs_batch");
        }
        MC_CHECK(tot == p.nvals(), "bfs_batch: count of stored values ", p.nvals(), " expected ", tot);
    }
    { grb::Matrix<unsigned> v(rs.size(), g.n); algorithms::bfs_level(A, W, v); rows_are(v, d, g.n, "bfs_level(wavefronts)"); }
    { grb::Matrix<unsigned> v(rs.size(), g.n); algorithms::batch_bfs_level_masked(A, W, v); rows_are(v, d, g.n, "batch_bfs_level_masked"); }
    MC_CHECK((W == roots_mat<T>(g.n, rs)), "the caller's wavefronts were changed");
    expect(A, m, "graph afterwards");
}
static void t_single(mc::Ctx &c, G const &g, int src)
{
    int k = c.choose(3); bool dirty = c.flip();
    MC_SAY("bfs from ", src, " on ", show(g), " edge type ", k == 0 ? "int" : k == 1 ? "bool" : "double", dirty ? ", output not empty" : "");
    if (k == 0) single<int>(g, src, dirty); else if (k == 1) single<bool>(g, src, dirty); else single<double>(g, src, dirty);
}
static std::string show_roots(Roots const &r) { std::string s; for (int i = 0; i < GX; ++i) if (r >> i & 1) s += " " + std::to_string(i); return s; }
static void t_multi(mc::Ctx &c, G const &g, Roots roots)
{
    int k = c.choose(3); bool dirty = c.flip();
    MC_SAY("bfs from root set ", show_roots(roots), " on ", show(g), " edge type ", k == 0 ? "int" : k == 1 ? "bool" : "double");
    if (k == 0) multi<int>(g, roots, dirty); else if (k == 1) multi<bool>(g, roots, dirty); else multi<unsigned>(g, roots, dirty);
}
static void t_batch(mc::Ctx &c, G const &g, std::vector<Roots> const &rs)
{
    int k = c.choose(2); bool dirty = c.flip();
    MC_SAY("batched bfs from root sets ", show_roots(rs[0]), " ", rs.size() > 1 ? show_roots(rs[1]) : "-", " on ", show(g), " edge type ", k == 0 ? "int" : "bool");
    if (k == 0) batch<int>(g, rs, dirty); else batch<bool>(g, rs, dirty);
}
#ifndef GRAPH_BIG
// all directed graphs with self loops, n <= 3
MC_SCENARIO(single3, 8) { int n = 1 + c.choose(3); auto g = choose_digraph(c, n, true); t_single(c, g, c.choose(n)); }
MC_SCENARIO(multi3, 8) { int n = 1 + c.choose(3); auto g = choose_digraph(c, n, true); t_multi(c, g, unsigned(c.choose(1 << n))); }
// two (three) rows of roots, chosen independently; also a single row and an empty batch of roots
MC_SCENARIO(batch3, 8)
{
    int n = 1 + c.choose(3); auto g = choose_digraph(c, n, true); int rows = 1 + c.choose(2);
    std::vector<Roots> rs; for (int i = 0; i < rows; ++i) rs.push_back(unsigned(c.choose(1 << n)));
    t_batch(c, g, rs);
}
// all directed graphs on 4 vertices (without self loops in the quick tier)
MC_SCENARIO(single4, 11) { auto g = choose_digraph(c, 4, mc::thorough); t_single(c, g, c.choose(4)); }
MC_SCENARIO(multi4, 11) { auto g = choose_digraph(c, 4, mc::thorough); t_multi(c, g, unsigned(c.choose(16))); }
MC_SCENARIO(batch4, 11)
{
    auto g = choose_digraph(c, 4, false);
    // one row per vertex plus one with two roots and one with none: rows are independent
    std::vector<Roots> rs{1, 2, 4, 8, Roots(c.choose(16)), 0};
    t_batch(c, g, rs);
}
// undirected graphs on 5 (6) vertices from the first vertices, longer chains
MC_SCENARIO(und5, 9) { auto g = choose_ugraph(c, 5, false); int s = c.choose(5); t_single(c, g, s); }
MC_SCENARIO(und6, 11) { if (!mc::thorough) { auto g = choose_ugraph(c, 6, false); single<int>(g, 0, false); multi<int>(g, bit(5), true); } else { auto g = choose_ugraph(c, 6, false); int s = c.choose(6); t_single(c, g, s); } }
// directed path/cycle orders on 6..8 vertices: every permutation as a chain plus one extra edge
MC_SCENARIO(chains, 4)
{
    int n = mc::thorough ? 7 : 6;
    std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    for (int i = 0; i < n - 1; ++i) { int k = c.choose(n - i); std::swap(p[i], p[i + k]); }
    G g; g.n = n;
    for (int i = 0; i + 1 < n; ++i) g.w[p[i]][p[i + 1]] = 1;
    int a = c.choose(n), b = c.choose(n);
    g.w[a][b] = 1;
    MC_SAY("chain ", show(p), " plus ", a, "->", b);
    single<int>(g, p[0], false); multi<int>(g, bit(p[0]) | bit(p[n / 2]), false); batch<int>(g, {bit(p[0]), bit(p[1]), bit(p[0]) | bit(p[n - 1])}, false);
}
// any number of vertices without edges
MC_SCENARIO(mismatch, 1)
{
    int k = c.choose(3), n = 1 + c.choose(3), m = 1 + c.choose(3), w = 1 + c.choose(3);
    grb::Matrix<int> A(n, m);
    MC_SAY("graph ", n, "x", m, " wavefront ", w);
    bool threw = false;
    try
    {
        if (k == 0) { grb::Vector<int> q(w); q.setElement(0, 1); grb::Vector<unsigned> l(w); algorithms::bfs_level_masked(A, q, l); }
        if (k == 1) { grb::Vector<int> q(w); q.setElement(0, 1); grb::Vector<unsigned> l(w); algorithms::bfs_level_masked_v2(A, q, l); }
        if (k == 2) { grb::Matrix<int> q(2, w); q.setElement(0, 0, 1); grb::Matrix<unsigned> l(2, w); algorithms::batch_bfs_level_masked(A, q, l); }
    }
    catch (grb::DimensionException const &) { threw = true; }
    mc::step();
    MC_CHECK(threw == (n != m || w != n), "dimension check: threw=", threw);
}
#else
static int at(mc::Ctx &c, int n) { int k = c.choose(4); return k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : n / 3; }
MC_SCENARIO(big_single, BIGD)
{
    auto g = choose_big(c, sizes(79), true, 1); int s = at(c, g.n); bool dirty = c.flip();
    switch (c.choose(3)) { case 0: return single<int>(g, s, dirty); case 1: return single<bool>(g, s, dirty); default: return single<double>(g, s, dirty); }
}
MC_SCENARIO(big_multi, BIGD)
{
    auto g = choose_big(c, sizes(79), true, 1); int n = g.n;
    Roots r = 0;
    switch (c.choose(5)) { case 0: r = bit(at(c, n)); break; case 1: r = bit(0) | bit(n - 1); break; case 2: for (int i = 0; i < n; i += 5) r |= bit(i); break; case 3: for (int i = 0; i < n; ++i) r |= bit(i); break; default: for (int i = n / 2; i < n; ++i) r |= bit(i); }
    bool dirty = c.flip();
    switch (c.choose(3)) { case 0: return multi<int>(g, r, dirty); case 1: return multi<bool>(g, r, dirty); default: return multi<unsigned>(g, r, dirty); }
}
MC_SCENARIO(big_batch, BIGD)
{
    auto g = choose_big(c, sizes(66), true, 1); int n = g.n; at_most(g, 3000);
    std::vector<Roots> rs;
    switch (c.choose(3))
    {
    case 0: for (int i = 0; i < n; ++i) rs.push_back(bit(i)); break;                 // every vertex
    case 1: rs = {bit(n - 1), 0, bit(0) | bit(n / 2), bit(0)}; break;
    default: for (int i = 0; i < 70; ++i) rs.push_back(i % 7 == 3 ? Roots(0) : bit(i * 3 % n) | bit(i % n)); break;   // more rows than vertices
    }
    bool dirty = c.flip();
    if (c.flip()) batch<int>(g, rs, dirty); else batch<bool>(g, rs, dirty);
}
#endif
