// The containers at sizes far beyond the exhaustive histories: long rows, many
// rows, long vectors; every sequence of a few operations from a menu placed at
// the front, the middle and the end, from several contents, and builds from long
// unordered tuple lists with long runs of duplicates.
#define REF_BIG
#include "../mc/ops.hpp"
#include <numeric>
using namespace ref;
struct Dup { int operator()(int a, int b) const { return 2 * a - b; } };
static int const LADDER[] = {9, 17, 33, 65, 130, 300, 1100};
struct T3 { int i, j, v; };
// a permutation of the tuples (0 as they are, 1 reversed, 2 strided)
static std::vector<T3> permuted(std::vector<T3> const &l, int how)
{
    std::vector<T3> o(l.size());
    size_t n = l.size(), st = 7;
    while (n > 1 && std::gcd(n, st) != 1) ++st;
    for (size_t k = 0; k < n; ++k) o[k] = how == 0 ? l[k] : how == 1 ? l[n - 1 - k] : l[k * st % n];
    return o;
}
static void compare(grb::Matrix<int> const &A, Mat<int> const &m)
{
    expect(A, m, "matrix");
    grb::Matrix<int> b = real(m);
    MC_CHECK(A == b && b == A && !(A != b), "not equal to a matrix with the same content");
    int r = m.r - 1, c = m.c - 1;
    if (m.e[r][c].has) b.removeElement(r, c); else b.setElement(r, c, 1);
    MC_CHECK(A != b && !(b == A), "equal to a matrix that differs in the last element");
}
static void compare(grb::Vector<int> const &A, Vec<int> const &m)
{
    expect(A, m, "vector");
    grb::Vector<int> b = real(m);
    MC_CHECK(A == b && b == A && !(A != b), "not equal to a vector with the same content");
    int r = m.n - 1;
    if (m.e[r].has) b.removeElement(r); else b.setElement(r, 1);
    MC_CHECK(A != b && !(b == A), "equal to a vector that differs in the last element");
}
#if WHICH == 10
static Mat<int> resized(Mat<int> const &m, int r, int c)
{
    Mat<int> o(r, c);
    for (int i = 0; i < r && i < m.r; ++i) for (int j = 0; j < c && j < m.c; ++j) o.e[i][j] = m.e[i][j];
    return o;
}
MC_SCENARIO(long_histories, 6)
{
    int L = LADDER[c.choose(7)], s = c.choose(L <= 130 ? 3 : 2);
    int R = s == 0 ? 2 : s == 1 ? L : L / 2 + 3, C = s == 1 ? 2 : L;
    auto m = fill(c, Mat<int>(R, C), L <= 65 ? -7 : L <= 130 ? -5 : -3, DefVal::A);
    auto a = real(m);
    int const depth = (L <= 33 ? 3 : 2) + (mc::thorough && L <= 130);
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(18), R = m.r, C = m.c;
        MC_SAY("op ", op, " on ", R, "x", C, " with ", m.nvals());
        auto set = [&](int i, int j, int v) { a.setElement(i, j, v); m.set(i, j, v); };
        auto rem = [&](int i, int j) { a.removeElement(i, j); m.del(i, j); };
        auto rs = [&](int r, int cc) { if (r < 1 || cc < 1 || r * cc > 200000) throw mc::Prune(); a.resize(r, cc); m = resized(m, r, cc); };
        switch (op)
        {
        case 0: set(0, 0, 901); break;
        case 1: set(R / 2, C / 2, 902); break;
        case 2: set(R - 1, C - 1, 903); break;
        case 3: set(R - 1, C / 2 + 1 < C ? C / 2 + 1 : 0, 904); break;
        case 4: rem(0, 0); break;
        case 5: rem(R / 2, C / 2); break;
        case 6: rem(R - 1, C - 1); break;
        case 7: a.clear(); m = Mat<int>(R, C); break;
        case 8: rs(R, C / 2); break;
        case 9: rs(R, C - 1); break;
        case 10: rs(R / 2, C); break;
        case 11: rs(R, C * 2 + 1); break;
        case 12: rs(R * 2 + 1, C); break;
        case 13: rs(R + 1, C / 2); break;
        case 14: { grb::Matrix<int> t(a); t.clear(); t = a; a.clear(); a = t; break; }
        case 15: for (int j = 0; j < C; ++j) set(R - 1, C - 1 - j, 1000 + j); break;        // a row, backwards
        case 16: for (int j = 0; j < C; ++j) rem(R - 1, j); break;
        default:                                                                             // rebuild, unordered
        {
            std::vector<T3> l;
            for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (m.e[i][j].has) l.push_back({i, j, m.e[i][j].v});
            l = permuted(l, 2);
            std::vector<Idx> I, J; std::vector<int> V;
            for (auto &t : l) { I.push_back(t.i); J.push_back(t.j); V.push_back(t.v); }
            a.clear(); a.build(I, J, V);
        }
        }
        mc::step();
        if (d + 1 < depth) expect(a, m, "matrix");
    }
    compare(a, m);
}
// builds: n distinct places each given k times, in several orders
MC_SCENARIO(long_build, 5)
{
    static int const NS[] = {1, 8, 15, 16, 17, 31, 33, 63, 65, 129, 257, 1025};
    int n = NS[c.choose(mc::thorough ? 12 : 11)], s = c.choose(3), k = 1 + c.choose(3), how = c.choose(3), form = c.choose(3), grp = c.choose(2);
    int R = s == 0 ? 2 : s == 1 ? n : 9, C = s == 1 ? 2 : s == 0 ? n : (n + 8) / 9 + 1;
    Mat<int> m(R, C);
    std::vector<T3> l;
    for (int q = 0; q < n * k; ++q)
    {
        int p = grp ? q / k : q % n;
        l.push_back({p % R, p / R, 3 + q});
    }
    l = permuted(l, how);
    for (auto &t : l)
        if (m.e[t.i][t.j].has) m.e[t.i][t.j].v = form == 0 ? t.v : Dup()(m.e[t.i][t.j].v, t.v); else m.set(t.i, t.j, t.v);
    std::vector<Idx> I, J; std::vector<int> V;
    for (auto &t : l) { I.push_back(t.i); J.push_back(t.j); V.push_back(t.v); }
    grb::Matrix<int> a(R, C);
    if (form == 0) a.build(I, J, V);
    else if (form == 1) a.build(I, J, V, Dup());
    else a.build(I.begin(), J.begin(), V.begin(), V.size(), Dup());
    mc::step();
    compare(a, m);
}
#else
static Vec<int> resized(Vec<int> const &m, int n) { Vec<int> o(n); for (int i = 0; i < n && i < m.n; ++i) o.e[i] = m.e[i]; return o; }
MC_SCENARIO(long_histories, 6)
{
    int L = LADDER[c.choose(7)] + c.choose(3) - 1;
    auto m = fill(c, Vec<int>(L), -7, DefVal::A);
    auto a = real(m);
    int const depth = mc::thorough && L <= 300 ? 4 : L <= 300 ? 3 : 2;
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(16), N = m.n;
        MC_SAY("op ", op, " on ", N, " with ", m.nvals());
        auto set = [&](int i, int v) { a.setElement(i, v); m.set(i, v); };
        auto rem = [&](int i) { a.removeElement(i); m.del(i); };
        auto rs = [&](int n) { if (n < 1 || n > 5000) throw mc::Prune(); a.resize(n); m = resized(m, n); };
        switch (op)
        {
        case 0: set(0, 901); break;
        case 1: set(N / 2, 902); break;
        case 2: set(N - 1, 903); break;
        case 3: rem(0); break;
        case 4: rem(N / 2); break;
        case 5: rem(N - 1); break;
        case 6: a.clear(); m = Vec<int>(N); break;
        case 7: rs(N / 2); break;
        case 8: rs(N - 1); break;
        case 9: rs(N + 1); break;
        case 10: rs(2 * N + 3); break;
        case 11: { grb::Vector<int> t(a); t.clear(); t = a; a.clear(); a = t; break; }
        case 12: for (int j = N - 1; j >= 0; j -= 2) set(j, 1000 + j); break;
        case 13: for (int j = 0; j < N; ++j) rem(j); break;
        case 14: { std::vector<int> dv(N); for (int j = 0; j < N; ++j) dv[j] = j % 5; a = grb::Vector<int>(dv, 3); m = Vec<int>(N); for (int j = 0; j < N; ++j) if (j % 5 != 3) m.set(j, j % 5); break; }
        default:
        {
            std::vector<T3> l;
            for (int i = 0; i < N; ++i) if (m.e[i].has) l.push_back({i, 0, m.e[i].v});
            l = permuted(l, 2);
            std::vector<Idx> I; std::vector<int> V;
            for (auto &t : l) { I.push_back(t.i); V.push_back(t.v); }
            a.clear(); a.build(I, V);
        }
        }
        mc::step();
        if (d + 1 < depth) expect(a, m, "vector");
    }
    compare(a, m);
}
MC_SCENARIO(long_build, 5)
{
    static int const NS[] = {1, 8, 15, 16, 17, 31, 33, 63, 65, 129, 257, 1025};
    int n = NS[c.choose(12)], k = 1 + c.choose(3), how = c.choose(3), form = c.choose(3), grp = c.choose(2), ex = c.choose(2);
    Vec<int> m(n + ex);
    std::vector<T3> l;
    for (int q = 0; q < n * k; ++q) l.push_back({grp ? q / k : q % n, 0, 3 + q});
    l = permuted(l, how);
    for (auto &t : l)
        if (m.e[t.i].has) m.e[t.i].v = form == 0 ? t.v : Dup()(m.e[t.i].v, t.v); else m.set(t.i, t.v);
    std::vector<Idx> I; std::vector<int> V;
    for (auto &t : l) { I.push_back(t.i); V.push_back(t.v); }
    grb::Vector<int> a(n + ex);
    if (form == 0) a.build(I, V);
    else if (form == 1) a.build(I, V, Dup());
    else a.build(I.begin(), V.begin(), V.size(), Dup());
    mc::step();
    compare(a, m);
}
#endif
