// Writes every simple undirected graph on N vertices once up to isomorphism:
// each graph on N-1 vertices is extended by a vertex in every way, and kept in a
// canonical numbering (smallest adjacency code over the numberings that respect
// a degree refinement).  Output: 8 bytes little-endian per graph, bit
// j*(j-1)/2+i for the edge i<j.   graphs N OUT
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <unordered_set>
#include <vector>
using U = uint64_t;
static int bitno(int i, int j) { return i < j ? j * (j - 1) / 2 + i : i * (i - 1) / 2 + j; }
static int n;
static unsigned adj[16];
static U best; static int perm[16]; static unsigned used;
static std::vector<std::vector<int>> cls;   // ordered colour classes
static std::vector<int> slot;               // class of each position
static void rec(int p, U code)
{
    if (p == n) { if (code < best) best = code; return; }
    // the codes are compared from the last bits, so no pruning but by class
    for (int v : cls[slot[p]]) if (!(used >> v & 1))
    {
        U c = code;
        for (int i = 0; i < p; ++i) if (adj[v] >> perm[i] & 1) c |= U(1) << bitno(i, p);
        used |= 1u << v; perm[p] = v;
        rec(p + 1, c);
        used &= ~(1u << v);
    }
}
static U canon()
{
    std::vector<U> col(n);
    for (int i = 0; i < n; ++i) col[i] = __builtin_popcount(adj[i]);
    for (int r = 0; r < n; ++r)
    {
        std::vector<std::pair<std::vector<U>, int>> k(n);
        for (int i = 0; i < n; ++i)
        {
            k[i].second = i; k[i].first.push_back(col[i]);
            std::vector<U> nb; for (int j = 0; j < n; ++j) if (adj[i] >> j & 1) nb.push_back(col[j]);
            std::sort(nb.begin(), nb.end()); k[i].first.insert(k[i].first.end(), nb.begin(), nb.end());
        }
        std::sort(k.begin(), k.end());
        U x = 0;
        for (int i = 0; i < n; ++i) { if (i && k[i].first != k[i - 1].first) ++x; col[k[i].second] = x; }
    }
    cls.assign(n, {}); slot.clear();
    for (int i = 0; i < n; ++i) cls[col[i]].push_back(i);
    for (int x = 0; x < n; ++x) for (size_t q = 0; q < cls[x].size(); ++q) slot.push_back(x);
    best = ~U(0); used = 0;
    rec(0, 0);
    return best;
}
int main(int, char **av)
{
    int N = atoi(av[1]);
    std::vector<U> cur{0};
    for (n = 2; n <= N; ++n)
    {
        std::unordered_set<U> next;
        for (U g : cur) for (unsigned m = 0; m < (1u << (n - 1)); ++m)
        {
            std::fill(adj, adj + 16, 0);
            for (int j = 0; j < n - 1; ++j) for (int i = 0; i < j; ++i) if (g >> bitno(i, j) & 1) { adj[i] |= 1u << j; adj[j] |= 1u << i; }
            for (int i = 0; i < n - 1; ++i) if (m >> i & 1) { adj[i] |= 1u << (n - 1); adj[n - 1] |= 1u << i; }
            next.insert(canon());
        }
        cur.assign(next.begin(), next.end());
        std::sort(cur.begin(), cur.end());
        fprintf(stderr, "%d: %zu\n", n, cur.size());
    }
    FILE *f = fopen(av[2], "wb");
    fwrite(cur.data(), 8, cur.size(), f);
    return fclose(f);
}
