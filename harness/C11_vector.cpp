// C11: the vector container against a map, over whole histories.
#include "../mc/ref.hpp"
using namespace ref;
using M = Vec<VT>;
using G = grb::Vector<VT>;
// the second value is a stored zero
static VT V(int k) { return static_cast<VT>(k == 2 ? 0 : k); }
static VT other(VT v) { if constexpr (std::is_same_v<VT, bool>) return !v; else return static_cast<VT>(v + 1); }

static void observe(G const &A, M const &m)
{
    expect(A, m, "vector");
    G b(m.n);
    for (int i = m.n - 1; i >= 0; --i) if (m.e[i].has) b.setElement(i, m.e[i].v);
    MC_CHECK(A == b && b == A && !(A != b), "not equal to a vector with the same content: ", dumpv(A), " / ", dumpv(b));
    for (int i = 0; i < m.n; ++i)
    {
        G d(b);
        if (m.e[i].has) d.removeElement(i); else d.setElement(i, V(1));
        MC_CHECK(A != d && !(A == d) && d != A, "equal to a vector that differs at ", i);
        if (m.e[i].has) { d.setElement(i, other(m.e[i].v)); MC_CHECK(A != d, "equal although the value at ", i, " differs"); }
        else
        {
            bool nv = false;
            try { (void)A.extractElement(i); } catch (grb::NoValueException const &) { nv = true; }
            MC_CHECK(nv, "extractElement of an absent element did not throw NoValueException");
        }
    }
    G cp(A);
    MC_CHECK(cp == A, "copy differs");
    expect(cp, m, "copy");
    grb::IndexArrayType ri(A.nvals());
    std::vector<VT> vv(A.nvals());
    A.extractTuples(ri, vv);
    G rb(m.n);
    rb.build(ri, vv);
    MC_CHECK(rb == A, "rebuild from extractTuples differs: ", dumpv(rb));
    int bad = 0;
    G w(A);
    Idx i = m.n;
    try { w.hasElement(i); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
    try { (void)w.extractElement(i); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
    try { w.setElement(i, V(1)); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
    try { w.removeElement(i); } catch (grb::IndexOutOfBoundsException const &) { ++bad; }
    // a refused build leaves the content alone
    { std::vector<Idx> I{0, i}; std::vector<int> W{1, 1}; try { w.build(I, W); } catch (grb::IndexOutOfBoundsException const &) { ++bad; } }
    { std::vector<Idx> I{0}; std::vector<int> W{1, 1}; try { w.build(I, W); } catch (grb::DimensionException const &) { ++bad; } }
    try { w.resize(0); } catch (grb::InvalidValueException const &) { ++bad; }
    { G t(m.n + 1); try { w = t; } catch (grb::DimensionException const &) { ++bad; } }
    { std::vector<VT> t(m.n + 1); try { w = t; } catch (grb::DimensionException const &) { ++bad; } }
    MC_CHECK(bad == 9, "a bad access was not refused with the documented exception (", bad, " of 9)");
    expect(w, m, "vector after refused calls");
}
static M resized(M const &m, int n) { M o(n); for (int i = 0; i < n && i < m.n; ++i) o.e[i] = m.e[i]; return o; }
struct Tup { int i, v; };
static std::vector<std::vector<Tup>> const LISTS = {
    {}, {{0, 2}}, {{2, 1}, {0, 2}}, {{1, 1}, {0, 2}, {1, 2}}, {{0, 1}, {0, 2}, {0, 1}}, {{1, 2}, {1, 2}}};
static bool fits(std::vector<Tup> const &l, int n) { for (auto &t : l) if (t.i >= n) return false; return true; }
struct Dup { VT operator()(VT a, VT b) const { return static_cast<VT>(2 * a - b); } };
template <class F> static void build_model(M &m, std::vector<Tup> const &l, F f)
{
    for (auto &t : l) if (m.e[t.i].has) m.e[t.i].v = f(m.e[t.i].v, V(t.v)); else m.set(t.i, V(t.v));
}
static void build_real(G &A, std::vector<Tup> const &l, int how)
{
    std::vector<Idx> I; std::vector<int> W;
    for (auto &t : l) { I.push_back(t.i); W.push_back(int(V(t.v))); }
    if (how == 0) A.build(I, W);
    else if (how == 1) A.build(I, W, Dup());
    else A.build(I.begin(), W.begin(), W.size(), Dup());
}
// Whether build onto stored values merges or replaces is left open; the result
// must be one of the two.
template <class F> static void build_onto(G &a, M &m, std::vector<Tup> const &l, int how, F f)
{
    M merged(m), fresh(m.n);
    build_model(merged, l, f);
    build_model(fresh, l, f);
    build_real(a, l, how);
    bool same = true;
    for (int i = 0; i < m.n; ++i) same = same && a.hasElement(i) == merged.e[i].has && (!merged.e[i].has || a.extractElement(i) == merged.e[i].v);
    m = same ? merged : fresh;
}
// ------------------------------------------------- explicit-state search (pair)
struct St {
    G a; M m;
    static constexpr int D = MAXN, NV = NVALS, NB = 6 * 3;
    St() : a(1), m(1) {}
    std::string key() const { std::ostringstream os; os << m.n << ref::show(m) << a; return os.str(); }
    int nops() const { return D * NV + D + 1 + D + NB + 5 + 6; }
    static std::string opname(int op)
    {
        if (op < D * NV) return mc::cat("set(", op / NV, ",", 1 + op % NV, ")");
        if ((op -= D * NV) < D) return mc::cat("remove(", op, ")");
        if ((op -= D) == 0) return "clear";
        if (--op < D) return mc::cat("resize(", 1 + op, ")");
        if ((op -= D) < NB) return mc::cat("build list ", op / 3, " form ", op % 3);
        return mc::cat("copy op ", op - NB);
    }
    bool apply(int op)
    {
        if (op < D * NV) { int i = op / NV; if (i >= m.n) return false; a.setElement(i, V(1 + op % NV)); m.set(i, V(1 + op % NV)); }
        else if ((op -= D * NV) < D) { if (op >= m.n) return false; a.removeElement(op); m.del(op); }
        else if ((op -= D) == 0) { a.clear(); m = M(m.n); }
        else if (--op < D) { a.resize(1 + op); m = resized(m, 1 + op); }
        else if ((op -= D) < NB)
        {
            auto const &l = LISTS[op / 3];
            if (!fits(l, m.n)) return false;
            a.clear(); m = M(m.n);
            build_real(a, l, op % 3);
            if (op % 3 == 0) build_model(m, l, [](VT, VT y) { return y; }); else build_model(m, l, Dup());
            for (int i = 0; i < m.n; ++i) if (m.e[i].has && (m.e[i].v < VT(0) || m.e[i].v > VT(3))) { a.removeElement(i); m.del(i); }
        }
        else if ((op -= NB) == 0) { G t(a); t.clear(); t = a; a.clear(); a = t; }
        else if (op == 1) a = a;
        else if (op == 2) { std::vector<VT> d(m.n, V(1)); a = d; for (int i = 0; i < m.n; ++i) m.set(i, V(1)); }
        else if (op == 3) { a = G(m.n, V(2)); for (int i = 0; i < m.n; ++i) m.set(i, V(2)); }
        else if (op > 4)
        {
            auto const &l = LISTS[op - 5];
            if (!fits(l, m.n)) return false;
            build_onto(a, m, l, 0, [](VT, VT y) { return y; });
        }
        else { std::vector<VT> d(m.n, V(1)); d[0] = V(2); a = G(d, V(1)); m = M(m.n); if (V(1) != V(2)) m.set(0, V(2)); }
        observe(a, m);
        return true;
    }
};
static mc::BfsStats runbfs(mc::Ctx &c) { return mc::bfs<St>(c, St(), 60, 400000); }
static mc::Reg rb("bfs", runbfs);

MC_SCENARIO(hist, 3)
{
    int const depth = mc::thorough ? 6 : 5;
    G a(3); M m(3);
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(17);
        MC_SAY("op ", op, " on ", show(m));
        auto set = [&](int i, int v) { if (i >= m.n) throw mc::Prune(); a.setElement(i, V(v)); m.set(i, V(v)); };
        auto rem = [&](int i) { if (i >= m.n) throw mc::Prune(); a.removeElement(i); m.del(i); };
        auto rs = [&](int n) { if (n == m.n) throw mc::Prune(); a.resize(n); m = resized(m, n); };
        switch (op)
        {
        case 0: set(0, 1); break;
        case 1: set(1, 2); break;
        case 2: set(2, 1); break;
        case 3: set(4, 2); break;
        case 4: rem(0); break;
        case 5: rem(2); break;
        case 6: a.clear(); m = M(m.n); break;
        case 7: rs(1); break;
        case 8: rs(2); break;
        case 9: rs(3); break;
        case 10: rs(5); break;
        case 11: { auto const &l = LISTS[3]; if (!fits(l, m.n)) throw mc::Prune(); a.clear(); m = M(m.n); build_real(a, l, 1); build_model(m, l, Dup()); break; }
        case 12: { G t(a); a.clear(); a = t; break; }
        case 13: a = a; break;
        case 14: { std::vector<VT> dd(m.n, V(1)); a = dd; for (int i = 0; i < m.n; ++i) m.set(i, V(1)); break; }
        case 15: { auto const &l = LISTS[3]; if (!fits(l, m.n)) throw mc::Prune(); build_onto(a, m, l, 1, Dup()); break; }
        default: a = G(m.n, V(2)); for (int i = 0; i < m.n; ++i) m.set(i, V(2));
        }
        mc::step();
        expect(a, m, "vector");
    }
    observe(a, m);
}
MC_SCENARIO(ctors, 4)
{
    int n = 1 + c.choose(5), how = c.choose(3);
    M m(n);
    if (how == 0) { G a(n, V(2)); for (int i = 0; i < n; ++i) m.set(i, V(2)); observe(a, m); }
    else
    {
        std::vector<VT> d(n);
        for (int i = 0; i < n; ++i) { d[i] = static_cast<VT>(c.choose(3)); if (how == 1 || d[i] != V(1)) m.set(i, d[i]); }
        if (how == 1) { G a(d); observe(a, m); } else { G a(d, V(1)); observe(a, m); }
    }
    mc::step();
}
