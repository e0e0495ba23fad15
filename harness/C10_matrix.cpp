// C10: the matrix container against a map, over whole histories.
#include "../mc/ref.hpp"
using namespace ref;
using M = Mat<VT>;
using G = grb::Matrix<VT>;
// the second value is a stored zero
static VT V(int k) { return static_cast<VT>(k == 2 ? 0 : k); }
static VT other(VT v) { if constexpr (std::is_same_v<VT, bool>) return !v; else return static_cast<VT>(v + 1); }

// everything the interface can tell about A
static void observe(G const &A, M const &m)
{
    expect(A, m, "matrix");
    // equal to, and only to, containers with the same content however they were made
    G b(m.r, m.c);
    for (int i = m.r - 1; i >= 0; --i) for (int j = m.c - 1; j >= 0; --j) if (m.e[i][j].has) b.setElement(i, j, m.e[i][j].v);
    MC_CHECK(A == b && b == A && !(A != b), "not equal to a matrix with the same content: ", dump(A), " / ", dump(b));
    bool done = false;
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
    {
        G d(b);
        if (m.e[i][j].has) d.removeElement(i, j); else d.setElement(i, j, V(1));
        MC_CHECK(A != d && !(A == d) && d != A, "equal to a matrix that differs at (", i, ",", j, ")");
        if (m.e[i][j].has) { d.setElement(i, j, other(m.e[i][j].v)); MC_CHECK(A != d, "equal although the value at (", i, ",", j, ") differs"); }
        else
        {
            bool nv = false;
            try { (void)A.extractElement(i, j); } catch (grb::NoValueException const &) { nv = true; }
            MC_CHECK(nv, "extractElement of an absent element did not throw NoValueException");
        }
        done = true;
    }
    G cp(A);
    MC_CHECK(cp == A, "copy differs");
    expect(cp, m, "copy");
    // array form of extractTuples, and a rebuild from it
    grb::IndexArrayType ri(A.nvals()), ci(A.nvals());
    std::vector<VT> vv(A.nvals());
    if constexpr (!std::is_same_v<VT, bool>)
    {
        A.extractTuples(ri, ci, vv);
        G rb(m.r, m.c);
        rb.build(ri, ci, vv);
        MC_CHECK(rb == A, "rebuild from extractTuples differs: ", dump(rb));
    }
    MC_CHECK(done, "");
    // out-of-range accesses throw and change nothing
    int bad = 0;
    G w(A);
    for (int k = 0; k < 2; ++k)
    {
        Idx i = k ? Idx(m.r) : 0, j = k ? 0 : Idx(m.c);
        try { w.hasElement(i, j); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
        try { (void)w.extractElement(i, j); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
        try { w.setElement(i, j, V(1)); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
        try { w.removeElement(i, j); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
    }
    MC_CHECK(bad == 8, "an out-of-range access did not throw IndexOutOfBoundsException");
    expect(w, m, "matrix after out-of-range accesses");
}

static M resized(M const &m, int r, int c)
{
    M o(r, c);
    for (int i = 0; i < r && i < m.r; ++i) for (int j = 0; j < c && j < m.c; ++j) o.e[i][j] = m.e[i][j];
    return o;
}
struct Tup { int i, j, v; };
// duplicate-heavy tuple lists, in and out of order
static std::vector<std::vector<Tup>> const LISTS = {
    {}, {{0, 0, 2}}, {{1, 1, 1}, {0, 0, 2}}, {{0, 1, 1}, {0, 0, 2}, {0, 1, 2}}, {{1, 0, 1}, {1, 0, 2}, {1, 0, 1}}};
static bool fits(std::vector<Tup> const &l, int r, int c) { for (auto &t : l) if (t.i >= r || t.j >= c) return false; return true; }
struct Dup { VT operator()(VT a, VT b) const { return static_cast<VT>(2 * a - b); } };
template <class F> static void build_model(M &m, std::vector<Tup> const &l, F f)
{
    for (auto &t : l) if (m.e[t.i][t.j].has) m.e[t.i][t.j].v = f(m.e[t.i][t.j].v, V(t.v)); else m.set(t.i, t.j, V(t.v));
}
static void build_real(G &A, std::vector<Tup> const &l, int how)
{
    std::vector<Idx> I, J; std::vector<int> W;
    for (auto &t : l) { I.push_back(t.i); J.push_back(t.j); W.push_back(int(V(t.v))); }
    if (how == 0) A.build(I, J, W);
    else if (how == 1) A.build(I, J, W, Dup());
    else A.build(I.begin(), J.begin(), W.begin(), W.size(), Dup());
}

#ifndef MAXD
#define MAXD 3
#endif
// Whether build onto stored values merges or replaces is left open; the result
// must be one of the two.
template <class F> static void build_onto(G &a, M &m, std::vector<Tup> const &l, int how, F f)
{
    M merged(m), fresh(m.r, m.c);
    build_model(merged, l, f);
    build_model(fresh, l, f);
    build_real(a, l, how);
    bool same = true;
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) same = same && a.hasElement(i, j) == merged.e[i][j].has && (!merged.e[i][j].has || a.extractElement(i, j) == merged.e[i][j].v);
    m = same ? merged : fresh;
}
// ------------------------------------------------- explicit-state search (pair)
struct St {
    G a; M m;
    static constexpr int D = MAXD;
    static int nv() { return NVALS; }
    St() : a(1, 1), m(1, 1) {}
    std::string key() const
    {
        std::ostringstream os;
        os << m.r << m.c << ref::show(m) << a;        // model and everything the object prints
        return os.str();
    }
    static constexpr int NSET = D * D, NB = 5 * 3;
    int nops() const { return NSET * nv() + NSET + 1 + D * D + NB + 3 + 5; }
    static std::string opname(int op)
    {
        if (op < NSET * nv()) return mc::cat("set(", op / nv() / D, ",", op / nv() % D, ",", 1 + op % nv(), ")");
        op -= NSET * nv();
        if (op < NSET) return mc::cat("remove(", op / D, ",", op % D, ")");
        op -= NSET;
        if (op == 0) return "clear";
        --op;
        if (op < D * D) return mc::cat("resize(", 1 + op / D, ",", 1 + op % D, ")");
        op -= D * D;
        if (op < NB) return mc::cat("clear+build list ", op / 3, " form ", op % 3);
        return mc::cat("copy op ", op - NB);
    }
    bool apply(int op)
    {
        if (op < NSET * nv())
        {
            int i = op / nv() / D, j = op / nv() % D;
            if (i >= m.r || j >= m.c) return false;
            a.setElement(i, j, V(1 + op % nv())); m.set(i, j, V(1 + op % nv()));
        }
        else if ((op -= NSET * nv()) < NSET)
        {
            int i = op / D, j = op % D;
            if (i >= m.r || j >= m.c) return false;
            a.removeElement(i, j); m.del(i, j);
        }
        else if ((op -= NSET) == 0) { a.clear(); m = M(m.r, m.c); }
        else if (--op < D * D) { a.resize(1 + op / D, 1 + op % D); m = resized(m, 1 + op / D, 1 + op % D); }
        else if ((op -= D * D) < NB)
        {
            auto const &l = LISTS[op / 3];
            if (!fits(l, m.r, m.c)) return false;
            if (NVALS == 1 && op % 3) return false;
            a.clear(); m = M(m.r, m.c);
            build_real(a, l, op % 3);
            if (op % 3 == 0) build_model(m, l, [](VT, VT y) { return y; }); else build_model(m, l, Dup());
        }
        else if ((op -= NB) == 0) { G t(a); t.clear(); t = a; a.clear(); a = t; }
        else if (op == 1) { a = a; }
        else if (op > 2)
        {
            auto const &l = LISTS[op - 3];
            if (!fits(l, m.r, m.c)) return false;
            build_onto(a, m, l, 0, [](VT, VT y) { return y; });
        }
        else
        {
            // assignment between different shapes is refused and changes nothing
            G t(m.r + 1, m.c); bool th = false;
            try { a = t; } catch (grb::DimensionException const &) { th = true; }
            MC_CHECK(th, "assignment of a matrix of another shape was accepted");
        }
        observe(a, m);
        return true;
    }
};
static mc::BfsStats runbfs(mc::Ctx &c) { return mc::bfs<St>(c, St(), 60, 400000); }
static mc::Reg rb("bfs", runbfs);

// -------------------------------- all histories, no merging of states, to a depth
MC_SCENARIO(hist, 3)
{
    int const depth = mc::thorough ? 6 : 5;
    G a(2, 2); M m(2, 2);
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(16);
        MC_SAY("op ", op, " on ", show(m));
        auto set = [&](int i, int j, int v) { if (i >= m.r || j >= m.c) throw mc::Prune(); a.setElement(i, j, V(v)); m.set(i, j, V(v)); };
        auto rem = [&](int i, int j) { if (i >= m.r || j >= m.c) throw mc::Prune(); a.removeElement(i, j); m.del(i, j); };
        auto rs = [&](int r, int cc) { if (r == m.r && cc == m.c) throw mc::Prune(); a.resize(r, cc); m = resized(m, r, cc); };
        switch (op)
        {
        case 0: set(0, 0, 1); break;
        case 1: set(1, 1, 2); break;
        case 2: set(0, 1, 1); break;
        case 3: set(1, 0, 2); break;
        case 4: set(2, 2, 1); break;
        case 5: rem(0, 0); break;
        case 6: rem(1, 1); break;
        case 7: a.clear(); m = M(m.r, m.c); break;
        case 8: rs(1, 2); break;
        case 9: rs(2, 1); break;
        case 10: rs(3, 3); break;
        case 11: rs(2, 2); break;
        case 12: { auto const &l = LISTS[3]; if (!fits(l, m.r, m.c)) throw mc::Prune(); a.clear(); m = M(m.r, m.c); build_real(a, l, 1); build_model(m, l, Dup()); break; }
        case 13: { G t(a); a.clear(); a = t; break; }
        case 14: { auto const &l = LISTS[3]; if (!fits(l, m.r, m.c)) throw mc::Prune(); build_onto(a, m, l, 1, Dup()); break; }
        default: a = a;
        }
        mc::step();
        expect(a, m, "matrix");
    }
    observe(a, m);
}

// constructors from dense data
MC_SCENARIO(dense, 4)
{
    int r = 1 + c.choose(3), cc = 1 + c.choose(3);
    if (r * cc > 6 && !mc::thorough) throw mc::Prune();
    bool z = c.flip();
    std::vector<std::vector<VT>> d(r, std::vector<VT>(cc));
    M m(r, cc);
    VT const zero = z ? V(1) : V(1);
    for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j)
    {
        VT v = static_cast<VT>(c.choose(3));
        d[i][j] = v;
        if (!z || v != zero) m.set(i, j, v);
    }
    if (z) { G a(d, zero); observe(a, m); } else { G a(d); observe(a, m); }
    mc::step();
    if (r > 1)
    {
        // ragged data is refused
        d[r - 1].push_back(V(1)); int bad = 0;
        try { G a(d); } catch (grb::DimensionException const &) { ++bad; }
        try { G a(d, V(2)); } catch (grb::DimensionException const &) { ++bad; }
        MC_CHECK(bad == 2, "ragged dense data accepted");
    }
}
// build refuses arrays of different length, resize refuses zero
MC_SCENARIO(refuse, 2)
{
    G a(2, 2); M m(2, 2);
    if (c.flip()) { a.setElement(0, 1, V(1)); m.set(0, 1, V(1)); }
    if (c.flip()) { a.setElement(1, 0, V(2)); m.set(1, 0, V(2)); }
    int x = c.choose(3), y = c.choose(3), z = c.choose(3);
    std::vector<Idx> I(x, 0), J(y, 1); std::vector<int> W(z, 1);
    bool th = false;
    try { a.build(I, J, W); } catch (grb::DimensionException const &) { th = true; }
    bool bad = !(x == y && y == z);
    MC_CHECK(th == bad, "build with arrays of length ", x, ",", y, ",", z, bad ? " accepted" : " refused");
    if (bad) expect(a, m, "matrix after a refused build");
    for (int k = 0; k < 3; ++k)
    {
        G b(a); th = false;
        try { b.resize(k == 1 ? 2 : 0, k == 2 ? 2 : 0); } catch (grb::InvalidValueException const &) { th = true; }
        MC_CHECK(th && b == a, "resize to a zero dimension accepted");
    }
    mc::step();
}
