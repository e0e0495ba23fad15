// C27: clustering, against the update rules on plain arrays.
// WHAT=0 peer pressure and Markov; WHAT=1 Louvain, with the random draws that
// break ties as choices of the explorer and every tie-breaking in the model.
#define REF_MX 8
#include <random>
#include "../mc/mc.hpp"
#if WHAT == 1
namespace mcrng { inline int left = 0, k = 0; inline double next()
{
    static double const v[] = {0.25, 0.75};
    if (left > 0) { --left; return v[mc::ctx->choose(2)]; }
    ++k;
    double x = k * 0.6180339887; return x - int(x);
} }
namespace std { template <class T = double> struct mc_uniform_real {
    using result_type = T;
    template <class... A> explicit mc_uniform_real(A const &...) {}
    mc_uniform_real() {}
    template <class E> T operator()(E &) { return T(mcrng::next()); }
}; }
#define uniform_real_distribution mc_uniform_real
#endif
#include "../mc/graph.hpp"
#include <map>
#include <set>
using namespace gr;

static double const W[] = {0, 1, 2, 5};
#if WHAT == 0
// ------------------------------------------------------------- peer pressure
using Pat = std::vector<Roots>;      // Pat[j] = set of clusters of vertex j
static std::string show(Pat const &p) { std::ostringstream os; for (size_t j = 0; j < p.size(); ++j) { os << " " << j << ":{"; for (int i = 0; i < GX; ++i) if (p[j] >> i & 1) os << i << " "; os << "}"; } return os.str(); }
// one round; false if a tie depends on rounding
static bool round(G const &g, Pat const &C, bool norm, Pat &N)
{
    int n = g.n; N.assign(n, 0);
    std::vector<double> deg(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) deg[i] += W[g.w[i][j]];
    for (int j = 0; j < n; ++j)
    {
        double best = -1, s[GX] = {}, t[GX] = {}; int who = -1; bool any[GX] = {}, same[GX];
        std::vector<int> in; for (int k = 0; k < n; ++k) if (g.e(k, j)) in.push_back(k);
        for (int i = 0; i < n; ++i)
        {
            same[i] = true;
            for (int k : in) if (C[k] >> i & 1)
            {
                double x = norm ? W[g.w[k][j]] / deg[k] : W[g.w[k][j]];
                same[i] = same[i] && g.w[k][j] < 3 && (!any[i] || t[i] == x); t[i] = x;
                s[i] += x; any[i] = true;
            }
            if (any[i] && s[i] >= best) { best = s[i]; who = i; }
        }
        for (int i = 0; i < n; ++i) if (any[i] && s[i] != best && std::fabs(s[i] - best) < 1e-9) return false;
        for (int i = 0; norm && n > 4 && i < n; ++i) if (any[i] && i != who && s[i] == best && !(same[i] && same[who] && t[i] == t[who])) return false;   // sums in another order may differ
        if (who >= 0) N[j] = bit(who);
    }
    return true;
}
template <class T> void pp(G const &g, Pat C, bool norm, bool given, unsigned limit)
{
    int n = g.n;
    MC_SAY("peer_pressure_cluster", norm ? "" : "_v2", " on ", gr::show(g), " from", show(C), " limit ", limit);
    Pat N; unsigned k = 0; bool conv = false;
    Mat<bool> c0(n, n); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (C[j] >> i & 1) c0.set(i, j, true);
    for (; k < limit; ++k) { if (!round(g, C, norm, N)) throw mc::Prune(); if (N == C) { conv = true; break; } C = N; if (k > 40) break; }
    if (k > 40) limit = k + 1;           // keeps moving: stop it at the limit instead
    auto m = mat<T>(g, [](int w) { return W[w]; }); auto A = real(m);
    auto R = real(c0);
    if (!norm) algorithms::peer_pressure_cluster_v2(A, R, limit);
    else if (given) algorithms::peer_pressure_cluster(A, R, limit);
    else R = algorithms::peer_pressure_cluster(A, limit);
    mc::step(); (void)conv;
    Mat<bool> want(n, n); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (C[j] >> i & 1) want.set(i, j, true);
    expect(R, want, "cluster matrix");
    expect(A, m, "graph afterwards");
    bool one = true; for (auto x : C) one = one && !several(x);
    if (!one) return;
    auto a = algorithms::get_cluster_assignments(R); auto b = algorithms::get_cluster_assignments_v2(R);
    mc::step();
    MC_CHECK(a.size() == Idx(n) && b.size() == Idx(n), "size of assignments");
    for (int j = 0; j < n; ++j)
    {
        if (!C[j]) { MC_CHECK(a[j] == std::numeric_limits<Idx>::max() && !b.hasElement(j), "vertex ", j, " has no cluster"); continue; }
        Idx w = 0; while (!(C[j] >> w & 1)) ++w;
        MC_CHECK(a[j] == w, "get_cluster_assignments: vertex ", j, " in ", a[j], " expected ", w);
        MC_CHECK(b.hasElement(j) && b.extractElement(j) == w, "get_cluster_assignments_v2: vertex ", j, " expected ", w);
    }
}
static Pat ident(int n) { Pat p; for (int i = 0; i < n; ++i) p.push_back(bit(i)); return p; }
static unsigned const LIM[] = {~0u, 0, 1, 2, 3};
static void ppany(mc::Ctx &c, G const &g, Pat const &C)
{
    unsigned l = LIM[c.choose(mc::thorough ? 5 : 3)];
    bool id = C == ident(g.n);
    switch (c.choose(4)) { case 0: pp<double>(g, C, true, !id || c.flip(), l); break; case 1: pp<int>(g, C, true, !id || c.flip(), l); break; case 2: pp<double>(g, C, false, true, l); break; default: pp<uint32_t>(g, C, false, true, l); }
}
#ifndef GRAPH_BIG
MC_SCENARIO(peer3, 5)
{
    int n = 1 + c.choose(3);
    auto g = choose_digraph(c, n, true, mc::thorough && n < 3 ? 4 : 2);
    Pat C; for (int j = 0; j < n; ++j) C.push_back(c.choose(1 << n));
    ppany(c, g, C);
}
MC_SCENARIO(peer3w, 6)
{
    int n = 2 + c.choose(2);
    auto g = choose_digraph(c, n, true, 3);
    ppany(c, g, ident(n));
}
MC_SCENARIO(peer4, 8)
{
    auto g = choose_digraph(c, 4, mc::thorough);
    if (!mc::thorough && c.flip()) for (int i = 0; i < 4; ++i) g.w[i][i] = 1;
    Pat C = ident(4); if (c.flip()) { unsigned k = c.choose(16); for (int j = 0; j < 4; ++j) C[j] = 1u << (k >> j & 1 ? 1 : 2); }
    ppany(c, g, C);
}
MC_SCENARIO(peer6, 8)
{
    int n = 5 + c.choose(2);
    auto g = choose_ugraph(c, n, false);
    for (int i = 0; i < n; ++i) g.w[i][i] = 1;
    bool norm = c.flip();
    pp<double>(g, ident(n), norm, true, ~0u);
}
#else
MC_SCENARIO(big_peer, BIGD)
{
    auto g = choose_big(c, sizes(66), true, 2); int n = g.n;
    if (c.flip()) for (int i = 0; i < n; ++i) g.w[i][i] = 1;
    Pat C = ident(n);
    if (c.flip()) for (int j = 0; j < n; ++j) C[j] = bit(j * 3 % 7 % n);
    unsigned l = c.flip() ? 2 : 25;
    if (c.flip()) pp<uint32_t>(g, C, false, true, l); else pp<double>(g, C, true, true, l);
}
#endif
// -------------------------------------------------------------------- Markov
template <class T> void mcl(G const &g, int e, int r, double thr, unsigned limit)
{
    int n = g.n;
    MC_SAY("markov_cluster on ", gr::show(g), " e=", e, " r=", r, " threshold ", thr, " limit ", limit);
    auto m = mat<T>(g, [](int w) { return W[w]; }); auto A = real(m);
    auto R = algorithms::markov_cluster(A, Idx(e), Idx(r), thr, limit);
    mc::step();
    using M = std::vector<std::vector<double>>;
    M a(n, std::vector<double>(n));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = double(T(W[g.w[i][j]]));
    auto normal = [&](M &x) { for (int j = 0; j < n; ++j) { double s = 0; for (int i = 0; i < n; ++i) s += x[i][j]; if (s) for (int i = 0; i < n; ++i) x[i][j] /= s; } };
    auto same = [&] { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double x = R.hasElement(i, j) ? R.extractElement(i, j) : 0; if (!(std::fabs(x - a[i][j]) < 1e-7)) return false; } return true; };
    normal(a);
    bool ok = limit == 0 && same();
    for (unsigned k = 0; k < limit && !ok; ++k)
    {
        M p = a;
        for (int t = 1; t < e; ++t) { M q(n, std::vector<double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < n; ++l) q[i][j] += p[i][l] * a[l][j]; p = q; }
        for (auto &row : p) for (auto &x : row) { double y = std::pow(x, r); if (x != 0 && y < 1e-290) throw mc::Prune(); x = y; }   // underflow: 0/0 next
        normal(p);
        double err = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) err += (p[i][j] - a[i][j]) * (p[i][j] - a[i][j]);
        err /= double(n) * n; a = p;
        bool may = err < thr * (1 + 1e-6) + 1e-24, must = err < thr * (1 - 1e-6) || k + 1 == limit;
        if (may || must) ok = same();
        if (must) break;
    }
    if (!ok)
    {
        std::ostringstream os; os << "got"; for (int i = 0; i < n; ++i) { os << " ["; for (int j = 0; j < n; ++j) os << (R.hasElement(i, j) ? R.extractElement(i, j) : 0) << " "; os << "]"; }
        os << " expected"; for (auto &row : a) { os << " ["; for (auto x : row) os << x << " "; os << "]"; }
        MC_CHECK(false, "markov_cluster on ", gr::show(g), " e=", e, " r=", r, " threshold ", thr, " limit ", limit, ": ", os.str());
    }
    expect(A, m, "graph afterwards");
}
struct ML { double thr; unsigned lim; };
static void mclany(mc::Ctx &c, G const &g)
{
    static ML const L[] = {{1e-16, 12}, {1e-16, 0}, {1e-16, 1}, {1e-4, 12}, {1e-16, 3}, {0, 5}};
    static int const ER[][2] = {{2, 2}, {3, 2}, {2, 3}, {1, 2}, {2, 1}, {3, 3}};
    auto l = L[c.choose(mc::thorough ? 6 : 4)]; auto &x = ER[c.choose(mc::thorough ? 6 : 5)];
    switch (c.choose(3)) { case 0: mcl<double>(g, x[0], x[1], l.thr, l.lim); break; case 1: mcl<int>(g, x[0], x[1], l.thr, l.lim); break; default: mcl<bool>(g, x[0], x[1], l.thr, l.lim); }
}
#ifndef GRAPH_BIG
MC_SCENARIO(markov3, 5) { int n = 1 + c.choose(3); mclany(c, choose_digraph(c, n, true)); }
MC_SCENARIO(markov3w, 6) { int n = 2 + c.choose(2); mclany(c, choose_digraph(c, n, n == 2 || mc::thorough, 4)); }
MC_SCENARIO(markov4, 8) { auto g = choose_digraph(c, 4, false); if (c.flip()) for (int i = 0; i < 4; ++i) g.w[i][i] = 1; mclany(c, g); }
MC_SCENARIO(markov6, 8)
{
    int n = 5 + c.choose(2);
    auto g = choose_ugraph(c, n, false);
    for (int i = 0; i < n; ++i) g.w[i][i] = 1;
    mcl<double>(g, 2, 2, 1e-16, 6);
}
#else
#ifndef GRAPH_HUGE
MC_SCENARIO(big_markov, BIGD)
{
    auto g = choose_big(c, sizes(mc::thorough ? 40 : 17), true, 2); at_most(g, 1);
    if (c.flip()) for (int i = 0; i < g.n; ++i) g.w[i][i] = 1;
    static ML const L[] = {{1e-16, 4}, {1e-4, 12}, {1e-16, 12}};
    auto l = L[c.choose(3)];
    if (c.flip()) mcl<double>(g, 2, 2, l.thr, l.lim); else mcl<int>(g, 3, 2, l.thr, l.lim);
}
#endif
#endif
#ifndef GRAPH_BIG
// the reader of cluster matrices on any matrix: the row of a column's maximum
MC_SCENARIO(assignments, 4)
{
    int n = 1 + c.choose(3);
    Mat<double> m(n, n);
    static double const V[] = {0, 0.25, 0.5, 1};
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { int k = c.choose(n == 3 ? 3 : 5); if (k) m.set(i, j, V[k - 1]); }
    auto M = real(m);
    auto a = algorithms::get_cluster_assignments(M); mc::step();
    for (int j = 0; j < n; ++j)
    {
        double best = -1; for (int i = 0; i < n; ++i) if (m.e[i][j].has) best = std::max(best, m.e[i][j].v);
        if (best < 0) MC_CHECK(a[j] == std::numeric_limits<Idx>::max(), "vertex ", j, " has no cluster but got ", a[j]);
        else MC_CHECK(a[j] < Idx(n) && m.e[a[j]][j].has && m.e[a[j]][j].v == best, "vertex ", j, " got cluster ", a[j], " in ", ref::show(m));
    }
}
#endif
#else
// ------------------------------------------------------------------- Louvain
struct Model
{
    G const &g; bool masked; double k[GX] = {}, m = 0; double a[GX][GX] = {};
    Model(G const &x, bool mk) : g(x), masked(mk)
    {
        for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) { k[i] += W[g.w[i][j]]; m += W[g.w[i][j]] / 2; a[i][j] = W[g.w[i][j]] + W[g.w[j][i]]; }
    }
    // communities vertex i may move to
    Roots moves(std::vector<int> const &S, int i) const
    {
        double q[GX] = {}; bool any[GX] = {}; double best = -1e300;
        for (int j = 0; j < g.n; ++j) if (j != i && (k[j] || a[i][j])) { q[S[j]] += a[i][j] - k[i] * k[j] / m; if (!masked || a[i][j]) any[S[j]] = true; }
        Roots r = 0;
        for (int x = 0; x < g.n; ++x) if (any[x]) best = std::max(best, q[x]);
        for (int x = 0; x < g.n; ++x) if (any[x] && q[x] >= best - 1e-9) r |= bit(x);
        return r ? r : bit(S[i]);
    }
    // all outcomes of one pass under every tie-breaking: S and whether anything moved
    using State = std::pair<std::vector<int>, bool>;
    std::set<State> pass(std::vector<int> const &S) const
    {
        std::set<State> cur{{S, false}};
        for (int i = 0; i < g.n; ++i) if (g.outdeg(i))
        {
            std::set<State> nx;
            for (auto &s : cur) { Roots mv = moves(s.first, i); for (int x = 0; x < g.n; ++x) if (mv >> x & 1) { auto t = s; if (t.first[i] != x) { t.first[i] = x; t.second = true; } nx.insert(t); } }
            if (nx.size() > 400 && g.n > 6) throw mc::Prune();   // too many ways to break ties
            cur.swap(nx);
        }
        return cur;
    }
};
template <class T> void louvain(G const &g, bool masked, int draws, unsigned limit)
{
    int n = g.n;
    MC_SAY("louvain_cluster", masked ? "_masked" : "", " on ", gr::show(g), " limit ", limit);
    Model M(g, masked);
    std::vector<int> S0; for (int i = 0; i < n; ++i) S0.push_back(i);
    // fixed points and moving states reachable with the limit
    std::set<std::vector<int>> seen{S0}, front{S0}, done; bool moving = true;
    for (unsigned p = 0; p < limit && moving; ++p)
    {
        std::set<std::vector<int>> nx; moving = false;
        for (auto &s : front) for (auto &t : M.pass(s)) { if (t.second) { moving = true; nx.insert(t.first); } else done.insert(t.first); }
        bool grew = false; for (auto &s : nx) grew = seen.insert(s).second || grew;
        front.swap(nx);
        if (g.n > 6 && front.size() > 40) throw mc::Prune();             // too many ways to break ties
        if (!grew && moving && p > 64) break;
    }
    auto m = mat<T>(g, [](int w) { return W[w]; }); auto A = real(m);
    mcrng::left = draws; mcrng::k = 0;
    grb::Matrix<bool> R(n, n); bool thrown = false;
    try { if (masked) R = algorithms::louvain_cluster_masked(A, 11.0, limit); else R = algorithms::louvain_cluster(A, 11.0, limit); }
    catch (unsigned int k) { thrown = true; MC_CHECK(k == limit, "gave up after ", k, " passes, limit ", limit); }
    mc::step();
    expect(A, m, "graph afterwards");
    if (thrown) { MC_CHECK(moving, "gave up although every run settles within ", limit, " passes"); return; }
    std::vector<int> S;
    for (int i = 0; i < n; ++i)
    {
        int x = -1, k = 0;
        for (int j = 0; j < n; ++j) if (R.hasElement(i, j)) { MC_CHECK(R.extractElement(i, j), "stored false at ", i, ",", j); x = j; ++k; }
        MC_CHECK(k == 1, "vertex ", i, " is in ", k, " clusters");
        S.push_back(x);
    }
    MC_CHECK(R.nvals() == Idx(n), "nvals");
    std::ostringstream os; for (auto x : S) os << " " << x;
    MC_CHECK(done.count(S), "communities", os.str(), " of ", gr::show(g), masked ? " (masked)" : "", " are no outcome of the update rule");
    auto v = algorithms::get_louvain_cluster_assignments(R);
    for (int i = 0; i < n; ++i) MC_CHECK(v.hasElement(i) && v.extractElement(i) == Idx(S[i]), "get_louvain_cluster_assignments: vertex ", i);
}
#ifndef GRAPH_BIG
static unsigned const LIM[] = {20, 1, 2};
static void pick(mc::Ctx &c, G const &g, int draws)
{
    bool masked = c.flip(); unsigned l = LIM[c.choose(3)];
    if (c.flip()) louvain<double>(g, masked, draws, l); else louvain<int>(g, masked, draws, l);
}
MC_SCENARIO(louvain3, 5) { int n = 1 + c.choose(3); auto g = choose_ugraph(c, n, true, 4); if (!g.edges()) throw mc::Prune(); pick(c, g, mc::thorough ? 10 : 6); }
MC_SCENARIO(louvain4, 8) { auto g = choose_ugraph(c, 4, true); if (!g.edges()) throw mc::Prune(); pick(c, g, mc::thorough ? 10 : 6); }
MC_SCENARIO(louvain4w, 8) { auto g = choose_ugraph(c, 4, false, 3); if (!g.edges()) throw mc::Prune(); bool mk = c.flip(); louvain<double>(g, mk, mc::thorough ? 8 : 4, 20); }
MC_SCENARIO(louvain5, 8) { auto g = choose_ugraph(c, 5, false); if (!g.edges()) throw mc::Prune(); bool mk = c.flip(); louvain<double>(g, mk, mc::thorough ? 10 : 5, 20); }
MC_SCENARIO(louvain6, 8) { auto g = choose_ugraph(c, 6, false); if (!g.edges()) throw mc::Prune(); bool mk = c.flip(); louvain<double>(g, mk, mc::thorough ? 4 : 1, 20); }
#else
MC_SCENARIO(big_louvain, BIGD)
{
    auto g = choose_big(c, {7, 9, 12, 17, 33}, false, 3); if (!g.edges()) throw mc::Prune();
    bool mk = c.flip();
    louvain<double>(g, mk, c.flip() ? 2 : 0, c.flip() ? 2 : 20);
}
#endif
#endif
