// Enumeration of graphs and the plain-array side of the algorithm checks.
#pragma once
#ifdef GRAPH_BIG
#define REF_BIG
#endif
#include "ref.hpp"
#include <algorithms/algorithms.hpp>
#ifdef GRAPH_ISO
#include <fstream>
#endif
#include <algorithm>
#include <numeric>

namespace gr {
using namespace ref;
#ifdef GRAPH_BIG
#ifdef GRAPH_ISO
static constexpr int GX = 10;
#elif defined(GRAPH_HUGE)
static constexpr int GX = 300;        // more vertices than a byte counts
#else
static constexpr int GX = 80;
#endif
#else
static constexpr int GX = 8;
#endif
// a set of vertices
#ifdef GRAPH_HUGE
struct Roots {
    uint64_t w[5] = {};
    Roots(uint64_t x = 0) { w[0] = x; }
    int operator>>(int i) const { return int(w[i / 64] >> i % 64 & 1); }      // only as in (r >> i) & 1
    Roots &operator|=(Roots const &o) { for (int k = 0; k < 5; ++k) w[k] |= o.w[k]; return *this; }
    Roots operator|(Roots const &o) const { Roots r(*this); return r |= o; }
    bool operator==(Roots const &o) const { return std::equal(w, w + 5, o.w); }
    bool operator!() const { return *this == Roots(); }
    explicit operator bool() const { return !!*this; }
};
inline Roots bit(int i) { Roots r; r.w[i / 64] = uint64_t(1) << i % 64; return r; }
inline bool several(Roots const &r) { int k = 0; for (uint64_t x : r.w) k += __builtin_popcountll(x); return k > 1; }
#else
using Roots = unsigned __int128;
inline Roots bit(int i) { return Roots(1) << i; }
inline bool several(Roots r) { return (r & (r - 1)) != 0; }
#endif
static constexpr int INF = 1 << 28;

struct G {
    int n = 0;
    int w[GX][GX] = {};      // 0 = no edge, k > 0 = option k
    bool e(int i, int j) const { return w[i][j] != 0; }
    int edges() const { int k = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k += e(i, j); return k; }
    int outdeg(int i) const { int k = 0; for (int j = 0; j < n; ++j) k += e(i, j); return k; }
    int indeg(int i) const { int k = 0; for (int j = 0; j < n; ++j) k += e(j, i); return k; }
};
inline std::string show(G const &g)
{
    std::ostringstream os;
    os << "n=" << g.n << " {";
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.w[i][j]) os << " " << i << "->" << j << (g.w[i][j] != 1 ? ":" + std::to_string(g.w[i][j]) : "");
    os << " }";
    return os.str();
}
// every directed graph; each possible edge absent or one of nopt-1 weights
inline G choose_digraph(mc::Ctx &c, int n, bool loops, int nopt = 2)
{
    G g; g.n = n;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (loops || i != j) g.w[i][j] = c.choose(nopt);
    return g;
}
inline G choose_ugraph(mc::Ctx &c, int n, bool loops, int nopt = 2)
{
    G g; g.n = n;
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) if (loops || i != j) g.w[i][j] = g.w[j][i] = c.choose(nopt);
    return g;
}
inline bool connected(G const &g)
{
    std::vector<int> st{0}; std::vector<bool> seen(g.n); seen[0] = true; int k = 1;
    while (!st.empty()) { int v = st.back(); st.pop_back(); for (int j = 0; j < g.n; ++j) if ((g.e(v, j) || g.e(j, v)) && !seen[j]) { seen[j] = true; ++k; st.push_back(j); } }
    return k == g.n;
}
template <class T, class F> Mat<T> mat(G const &g, F val)
{
    Mat<T> m(g.n, g.n);
    for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.n; ++j) if (g.w[i][j]) m.set(i, j, static_cast<T>(val(g.w[i][j])));
    return m;
}
template <class T> Mat<T> mat(G const &g) { return mat<T>(g, [](int k) { return k; }); }

// hop distance from a set of roots, -1 = unreachable
inline std::vector<int> hops(G const &g, Roots roots)
{
    std::vector<int> d(g.n, -1); std::vector<int> q;
    for (int i = 0; i < g.n; ++i) if (roots >> i & 1) { d[i] = 0; q.push_back(i); }
    for (size_t h = 0; h < q.size(); ++h) for (int j = 0; j < g.n; ++j) if (g.e(q[h], j) && d[j] < 0) { d[j] = d[q[h]] + 1; q.push_back(j); }
    return d;
}
inline std::string show(std::vector<int> const &v) { std::ostringstream os; os << "("; for (size_t i = 0; i < v.size(); ++i) os << (i ? " " : "") << v[i]; os << ")"; return os.str(); }

// ------------------------------------------------ large structured graphs
// Every combination of family, size, numbering of the vertices, orientation and
// weight pattern.
#ifdef GRAPH_BIG
#define BIGD mc::NOSPLIT
static constexpr int FAMILIES = 24;
inline unsigned mix(unsigned i, unsigned j)
{
    unsigned h = (i * 2654435761u) ^ (j * 40503u + 977u);
    h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
    return h >> 3;
}
inline G family(int f, int n)
{
    G g; g.n = n;
    auto e = [&](int a, int b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) g.w[a][b] = 1; };
    int q = 1; while ((q + 1) * (q + 1) <= n) ++q;
    for (int i = 0; i < n; ++i) switch (f)
    {
    case 0: e(i, i + 1); break;                                           // path
    case 1: e(i, (i + 1) % n); break;                                     // cycle
    case 2: if (i) e(0, i); break;                                        // star
    case 3: e(i, 2 * i + 1); e(i, 2 * i + 2); break;                      // binary tree
    case 4: for (int j = i + 1; j < n; ++j) e(i, j); break;               // complete, upper
    case 5: if (i % 3 == 0) { e(i, i + 1); e(i, i + 2); } else e(i, i / 3 * 3 + 3); break;   // diamonds in a row
    case 6: if (i % q + 1 < q) e(i, i + 1); e(i, i + q); break;           // grid
    case 7: e(i, i + 1); if (i % 4 == 3) e(i, 0); break;                  // path with edges back to the start
    case 8: if (i % 2 == 0) for (int j = 1; j < n; j += 2) e(i, j); break;   // complete bipartite
    case 9: if (i + 1 != n / 2) e(i, i + 1); break;                       // two paths
    case 10: for (int j = 0; j < n; ++j) if (j > i && (i < n / 3) == (j < n / 3)) e(i, j); if (i == n / 3) e(i, 0); break;   // two cliques and a bridge
    case 11: e(i, (i + 1) % n); e(i, (i + 3) % n); break;                 // circulant
    case 12: if (i) { e(0, i); e(i, i % (n - 1) + 1); } break;            // wheel
    case 13: break;                                                       // no edges
    case 14: e(i, i + 1); e(i, i + 2); e(i, i + 3); break;                // band
    // a triangulated tube of rings of three: trusses peel off ring by ring
    case 15: { int r = i / 3 * 3, a = i - r; if (r + 2 < n) e(i, r + (a + 1) % 3); if (r + 5 < n) { e(i, i + 3); e(i, r + 3 + (a + 1) % 3); } break; }
    case 16: if (i < n / 2) for (int j = i + 1; j < n / 2; ++j) e(i, j); if (i >= n / 2 - 1) e(i, i + 1); break;   // clique and tail
    case 17: for (int j = i + 1; j < n; ++j) if (mix(i, j) % unsigned(n) < 2) e(i, j); break;   // irregular, sparse
    case 18: for (int j = i + 1; j < n; ++j) if (mix(i, j) % 10 < 3) e(i, j); break;            // irregular, denser
    case 19: for (int b = 1; b < n; b *= 2) if (!(i & b)) e(i, i + b); break;                   // hypercube
    case 20: if (i % 2 == 0) e(i, i + 2); if (i + 1 < n && i % 2 == 0) e(i, i + 1); break;      // caterpillar
    case 21: for (int b = 1; b <= i; b *= 2) if (i % b == 0) e(i, i - b); break;                // binomial
    case 22: if (i % 7 < i / 7 % 7) e(i, i + 1); else if (i % 7) e(i, i / 7 * 7); break;        // many parts of different shape
    case 23: if (i < n - n / 4) e(i, (i + 1) % (n - n / 4)), e(i, (i * i + 2) % (n - n / 4)); break;   // chords, and some isolated vertices
    }
    return g;
}
#ifdef GRAPH_ISO
inline std::vector<uint64_t> const &iso(int n)
{
    static std::vector<uint64_t> all[10];
    auto &x = all[n];
    if (x.empty())
    {
        std::ifstream f(MCDIR "/graphs" + std::to_string(n) + ".bin", std::ios::binary);
        uint64_t q;
        while (f.read(reinterpret_cast<char *>(&q), 8)) x.push_back(q);
        if (x.size() != (n == 7 ? 1044 : n == 8 ? 12346 : 274668)) { std::cerr << "no graphs" << std::endl; std::_Exit(97); }
    }
    return x;
}
#endif
inline std::string big_name;
// dir: 0 symmetric only, 1 directed and symmetric
inline G choose_big(mc::Ctx &c, std::vector<int> sizes, bool dir, int npat = 3)
{
    static char const *const N[] = {"path", "cycle", "star", "tree", "complete", "diamonds", "grid", "back edges", "bipartite", "two paths", "two cliques", "circulant", "wheel", "no edges", "band",
        "tube", "clique and tail", "sparse irregular", "denser irregular", "hypercube", "caterpillar", "binomial", "parts", "chords"};
#ifdef GRAPH_HUGE
    if (mc::thorough) sizes = {257, 299}; else sizes = {260};
#endif
#ifdef GRAPH_ISO
    // every graph on 7 and 8 (thorough 9) vertices, once up to isomorphism; numbering,
    // orientation and weights vary with the graph where all of them are too many
    int n = 7 + c.choose(mc::thorough ? 3 : 2);
    auto const &all = iso(n);
    int k0 = c.choose(int((all.size() + 499) / 500)), k1 = c.choose(std::min<int>(500, int(all.size()) - 500 * k0));
    int f = k0 * 500 + k1, mixed = f % 7 + f / 500;
    bool few = all.size() > 2000 && !mc::thorough;
    if (all.size() > 200000) few = true;
    int o = dir ? few ? mixed % 3 : c.choose(3) : 0, p = few ? mixed % 2 * 2 : c.choose(3), w = few ? mixed % npat : c.choose(npat);
    G h, g; g.n = h.n = n;
    for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) if (all[f] >> (j * (j - 1) / 2 + i) & 1) h.w[i][j] = 1;
#else
    int n = sizes[c.choose(int(sizes.size()))], f = c.choose(FAMILIES);
#ifdef GRAPH_HUGE
    int o = dir ? c.choose(2) : 0, p = mc::thorough ? c.choose(3) : 1 + c.choose(2), w = mc::thorough ? c.choose(npat) : (f + p) % npat;
#else
    int o = dir ? c.choose(3) : 0, p = c.choose(3), w = c.choose(npat);
#endif
    G h = family(f, n), g; g.n = n;
#endif
    int k = n / 3 + 1; while (std::gcd(k, n) != 1) ++k;
    auto L = [&](int i) { return p == 0 ? i : p == 1 ? n - 1 - i : i * k % n; };
    auto W = [&](int i, int j) { if (i < j) std::swap(i, j); return w == 0 ? 1 : w == 1 ? 1 + (i + j) % 3 : 1 + (i * 7 + j * 4 + i * j) % 3; };
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (h.w[i][j])
    {
        int a = L(i), b = L(j);
        if (o != 2) g.w[a][b] = W(a, b);
        if (o != 1) g.w[b][a] = W(a, b);
    }
    c.here();
#ifdef GRAPH_ISO
    big_name = mc::cat("graph number ", f, " of ", n, " vertices ", gr::show(g));
#else
    big_name = mc::cat(N[f], " of ", n, " numbering ", p, " orientation ", o, " weights ", w);
#endif
    MC_SAY(big_name);
    return g;
}
// keep what costs more than linear on 260 vertices to the sparser graphs
inline void at_most(G const &g, int edges)
{
#ifdef GRAPH_HUGE
    if (g.edges() > edges) throw mc::Prune();
#endif
}
inline std::vector<int> sizes(int upto)
{
    std::vector<int> s, all{9, 12, 17, 33, 66}, more{7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 31, 32, 33, 34, 40, 49, 63, 64, 65, 66, 79};
    for (int x : mc::thorough ? more : all) if (x <= upto) s.push_back(x);
    return s;
}
#endif
} // namespace gr
