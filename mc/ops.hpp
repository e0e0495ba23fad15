// Every masked operation of the library, once as a call on the real objects and
// once as the naive rule on the model, behind one interface, so that the
// harnesses can sweep contents, masks, accumulators, views, aliasing, element
// types and whole histories over all of them.
#pragma once
#include "mxmref.hpp"

namespace ref {

// ----------------------------------------------------------------- parameters
enum SeqKind { S_VEC, S_RANGE, S_ALL };
struct P {
    bool             ta = false, tb = false;
    std::vector<Idx> I, J;
    int              kI = S_VEC, kJ = S_VEC;
    Idx              k = 0;
    int              s = 0;
};
struct Sh { int cr = 0, cc = 0, ar = 0, ac = 0, br = 0, bc = 0; };   // logical shapes (vectors: rows)

inline std::string show(P const &p, bool seq)
{
    std::string o;
    if (p.ta) o += " A'";
    if (p.tb) o += " B'";
    if (seq)
    {
        o += " I=" + (p.kI == S_ALL ? std::string("All") : show(p.I) + (p.kI == S_RANGE ? "r" : ""));
        o += " J=" + (p.kJ == S_ALL ? std::string("All") : show(p.J) + (p.kJ == S_RANGE ? "r" : ""));
        o += " k=" + std::to_string(p.k);
    }
    return o;
}
template <class F> void with_seq(int kind, std::vector<Idx> const &v, F f)
{
    switch (kind)
    {
    case S_ALL: f(grb::AllIndices()); break;
    case S_RANGE: f(v.empty() ? grb::IndexSequenceRange(0, 0) : grb::IndexSequenceRange(v[0], v[0] + v.size())); break;
    default: f(v);
    }
}
inline Idx pcol(Idx k)
{
#ifdef REF_HUGE
    return huge.h[k];
#else
    return k;
#endif
}
// the same for column indices (see REF_HUGE)
template <class F> void with_cseq(int kind, std::vector<Idx> const &v0, F f)
{
#ifdef REF_HUGE
    std::vector<Idx> v(v0);
    bool run = true;
    for (size_t i = 0; i < v.size(); ++i) { v[i] = huge.h[v[i]]; run = run && (i == 0 || v[i] == v[i - 1] + 1); }
    if (kind == S_RANGE && !v.empty() && run) f(grb::IndexSequenceRange(v[0], v[0] + v.size()));
    else f(v);
#else
    with_seq(kind, v0, f);
#endif
}
#ifdef REF_BIG
inline constexpr int SB = 10000;             // base of the packed shapes
// a few structured sequences
inline void choose_seq(mc::Ctx &c, std::vector<Idx> &v, int &kind, int n, int lim, bool inj)
{
    v.assign(n, 0);
    bool range_ok = n <= lim, all_ok = n == lim;
    kind = c.choose(1 + range_ok + all_ok);
    if (kind == S_ALL) { for (int i = 0; i < n; ++i) v[i] = i; return; }
    if (kind == S_RANGE) { int lo = c.choose(lim > n ? 2 : 1) ? lim - n : 0; for (int i = 0; i < n; ++i) v[i] = lo + i; return; }
    int w = c.choose(inj ? 3 : 4), st = 7;
    while (lim % st == 0 && st > 1) st = st == 7 ? 11 : 1;
    for (int i = 0; i < n; ++i)
        v[i] = w == 0 ? (lim - 1 - i % lim) : w == 1 ? Idx(int64_t(i) * st % lim) : w == 2 ? ((i + lim / 2) % lim) : Idx(lim - 1);
}
#else
inline constexpr int SB = 10;
// n indices < lim; distinct if inj; or a range; or All when n == lim
inline void choose_seq(mc::Ctx &c, std::vector<Idx> &v, int &kind, int n, int lim, bool inj)
{
    v.assign(n, 0);
    bool range_ok = n <= lim, all_ok = n == lim;
    int  kk = c.choose(1 + range_ok + all_ok);
    kind = kk;
    if (kk == S_ALL) { for (int i = 0; i < n; ++i) v[i] = i; return; }
    if (kk == S_RANGE)
    {
        int lo = c.choose(lim - n + 1);
        for (int i = 0; i < n; ++i) v[i] = lo + i;
        return;
    }
    std::vector<Idx> avail(lim);
    for (int i = 0; i < lim; ++i) avail[i] = i;
    for (int i = 0; i < n; ++i)
    {
        int x = c.choose(int(avail.size()));
        v[i] = avail[x];
        if (inj) avail.erase(avail.begin() + x);
    }
}

#endif

// ---------------------------------------------------------------- domains
struct IntUn {
    int operator()(int a) const { return 7 - 3 * a; }
};
struct IntDom {
    using SR = AsymSR<int>;
    using Bin = MulOp<int>;
    using Un = IntUn;
    using Mon = grb::PlusMonoid<int>;
    using Scal = int;
    static constexpr int scal = 4;
};

template <char K, class T> struct KT;
template <class T> struct KT<'m', T> { using M = Mat<T>; using G = grb::Matrix<T>; };
template <class T> struct KT<'v', T> { using M = Vec<T>; using G = grb::Vector<T>; };
struct Nothing { };
template <class T> struct KT<'n', T> { using M = Nothing; using G = Nothing; };
template <char K, class T> auto mk_model(int r, int c)
{
    if constexpr (K == 'm') return Mat<T>(r, c);
    else if constexpr (K == 'v') return Vec<T>(r);
    else return Nothing();
}
inline Nothing real(Nothing const &) { return {}; }
inline void expect(Nothing const &, Nothing const &, char const *) {}
inline std::string show(Nothing const &) { return "-"; }
template <class T> Mat<T> trm(Mat<T> const &m, bool t) { return t ? m.tr() : m; }
template <class T> Vec<T> trm(Vec<T> const &m, bool) { return m; }
inline Nothing trm(Nothing const &, bool) { return {}; }

// apply `f` to the cells of C and T
template <class CT, class TT, class Acc> Mat<CT> accum_all(Mat<CT> const &C, Mat<TT> const &T, Acc const &acc)
{
    Mat<CT> Z(C.r, C.c);
    for (int i = 0; i < C.r; ++i) for (int j = 0; j < C.c; ++j) Z.e[i][j] = accumulate(C.e[i][j], T.e[i][j], acc);
    return Z;
}
template <class CT, class TT, class Acc> Vec<CT> accum_all(Vec<CT> const &C, Vec<TT> const &T, Acc const &acc)
{
    Vec<CT> Z(C.n);
    for (int i = 0; i < C.n; ++i) Z.e[i] = accumulate(C.e[i], T.e[i], acc);
    return Z;
}
template <class CT, class MT> void maskwrite(Mat<CT> &C, Mat<CT> const &Z, int mk, Mat<MT> const &M, bool rep)
{
    for (int i = 0; i < C.r; ++i)
        for (int j = 0; j < C.c; ++j)
            if (lets(mk, M.e[i][j])) C.e[i][j] = Z.e[i][j];
            else if (rep && mk != M_NONE) C.e[i][j].has = false;
}
template <class CT, class MT> void maskwrite(Vec<CT> &C, Vec<CT> const &Z, int mk, Vec<MT> const &M, bool rep)
{
    for (int i = 0; i < C.n; ++i)
        if (lets(mk, M.e[i])) C.e[i] = Z.e[i];
        else if (rep && mk != M_NONE) C.e[i].has = false;
}

// ------------------------------------------------------------------ operations
// K: kinds of output/mask/A/B ('m','v','n'); TRA/TRB: accepts a transposed view
#define OPK(o, m, a, b, ta, tb, nm)                                           \
    static constexpr char O = o, M = m, A = a, B = b;                         \
    static constexpr bool TRA = ta, TRB = tb;                                 \
    static char const *name() { return nm; }

struct OpMxm {
    OPK('m', 'm', 'm', 'm', true, true, "mxm")
    static constexpr bool SEQ = false;
    static Sh shape(mc::Ctx &, P &, int m, int k, int n) { return {m, n, m, k, k, n}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &y, P const &, grb::OutputControlEnum o)
    { grb::mxm(c, m, a, typename D::SR(), x, y, o); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &y, P const &, Ac a)
    { return accum_all(c, ref::mxm<typename D::SR::result_type>(x, y, typename D::SR()), a); }
};
struct OpMxv {
    OPK('v', 'v', 'm', 'v', true, false, "mxv")
    static constexpr bool SEQ = false;
    static Sh shape(mc::Ctx &, P &, int m, int k, int) { return {m, 0, m, k, k, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &y, P const &, grb::OutputControlEnum o)
    { grb::mxv(c, m, a, typename D::SR(), x, y, o); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &y, P const &, Ac a)
    { return accum_all(c, ref::mxv<typename D::SR::result_type>(x, y, typename D::SR()), a); }
};
struct OpVxm {
    OPK('v', 'v', 'v', 'm', false, true, "vxm")
    static constexpr bool SEQ = false;
    static Sh shape(mc::Ctx &, P &, int m, int k, int) { return {m, 0, k, 0, k, m}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &y, P const &, grb::OutputControlEnum o)
    { grb::vxm(c, m, a, typename D::SR(), x, y, o); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &y, P const &, Ac a)
    { return accum_all(c, ref::vxm<typename D::SR::result_type>(x, y, typename D::SR()), a); }
};

template <class TT, class A_, class B_, class Op> Cell<TT> ew_cell(A_ const &a, B_ const &b, bool uni, Op op)
{
    Cell<TT> t;
    if (a.has && b.has) { t.has = true; t.v = op(a.v, b.v); }
    else if (uni && a.has) { t.has = true; t.v = static_cast<TT>(a.v); }
    else if (uni && b.has) { t.has = true; t.v = static_cast<TT>(b.v); }
    return t;
}
template <class TT, class A_, class B_, class Op> Mat<TT> ew(Mat<A_> const &a, Mat<B_> const &b, bool uni, Op op)
{
    Mat<TT> t(a.r, a.c);
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) t.e[i][j] = ew_cell<TT>(a.e[i][j], b.e[i][j], uni, op);
    return t;
}
template <class TT, class A_, class B_, class Op> Vec<TT> ew(Vec<A_> const &a, Vec<B_> const &b, bool uni, Op op)
{
    Vec<TT> t(a.n);
    for (int i = 0; i < a.n; ++i) t.e[i] = ew_cell<TT>(a.e[i], b.e[i], uni, op);
    return t;
}
template <char K, bool UNI> struct OpEwise {
    OPK(K, K, K, K, K == 'm', K == 'm', UNI ? (K == 'm' ? "eWiseAdd(mat)" : "eWiseAdd(vec)") : (K == 'm' ? "eWiseMult(mat)" : "eWiseMult(vec)"))
    static constexpr bool SEQ = false;
    static Sh shape(mc::Ctx &, P &, int m, int, int n) { return {m, n, m, n, m, n}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &y, P const &, grb::OutputControlEnum o)
    {
        if constexpr (UNI) grb::eWiseAdd(c, m, a, typename D::Bin(), x, y, o);
        else grb::eWiseMult(c, m, a, typename D::Bin(), x, y, o);
    }
};
// (the result type of the operator needs the element types: specialised below)
template <class D, char K, bool UNI> struct EwZ {
    template <class C, class A_, class B_, class Ac> static C z(C const &c, A_ const &x, B_ const &y, Ac a)
    {
        using TT = decltype(std::declval<typename D::Bin>()(std::declval<typename A_::S>(), std::declval<typename B_::S>()));
        return accum_all(c, ew<TT>(x, y, UNI, typename D::Bin()), a);
    }
};
template <char K, bool UNI> struct OpEw : OpEwise<K, UNI> {
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &y, P const &, Ac a)
    { return EwZ<D, K, UNI>::z(c, x, y, a); }
};
using OpAddM = OpEw<'m', true>;
using OpMultM = OpEw<'m', false>;
using OpAddV = OpEw<'v', true>;
using OpMultV = OpEw<'v', false>;

// -------------------------------------------------------------------- extract
struct OpExtV {
    OPK('v', 'v', 'v', 'n', false, false, "extract(vec)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int) { choose_seq(c, p.I, p.kI, m, k, false); return {m, 0, k, 0, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &p, grb::OutputControlEnum o)
    { with_seq(p.kI, p.I, [&](auto const &I) { grb::extract(c, m, a, x, I, o); }); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &p, Ac a)
    {
        A_ t(c.n);
        for (int i = 0; i < c.n; ++i) t.e[i] = x.e[p.I[i]];
        return accum_all(c, t, a);
    }
};
struct OpExtM {
    OPK('m', 'm', 'm', 'n', true, false, "extract(mat)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int n)
    { choose_seq(c, p.I, p.kI, m, k, false); choose_seq(c, p.J, p.kJ, n, k, false); return {m, n, k, k, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &p, grb::OutputControlEnum o)
    {
        with_seq(p.kI, p.I, [&](auto const &I) { with_cseq(p.kJ, p.J, [&](auto const &J) { grb::extract(c, m, a, x, I, J, o); }); });
    }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &p, Ac a)
    {
        A_ t(c.r, c.c);
        for (int i = 0; i < c.r; ++i) for (int j = 0; j < c.c; ++j) t.e[i][j] = x.e[p.I[i]][p.J[j]];
        return accum_all(c, t, a);
    }
};
struct OpExtC {
    OPK('v', 'v', 'm', 'n', true, false, "extract(col)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int n)
    { choose_seq(c, p.I, p.kI, m, k, false); p.k = c.choose(n); return {m, 0, k, n, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &p, grb::OutputControlEnum o)
    { with_seq(p.kI, p.I, [&](auto const &I) { grb::extract(c, m, a, x, I, pcol(p.k), o); }); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &p, Ac a)
    {
        Vec<typename A_::S> t(c.n);
        for (int i = 0; i < c.n; ++i) t.e[i] = x.e[p.I[i]][p.k];
        return accum_all(c, t, a);
    }
};

// --------------------------------------------------------------------- assign
// inside the addressed region: accumulate or overwrite; outside: C itself
template <class CT, class TT, class Ac> Cell<CT> region(Cell<CT> const &c, Cell<TT> const &t, Ac a) { return accumulate(c, t, a); }

struct OpAsgV {
    OPK('v', 'v', 'v', 'n', false, false, "assign(vec)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int) { choose_seq(c, p.I, p.kI, k, m, true); return {m, 0, k, 0, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &p, grb::OutputControlEnum o)
    { with_seq(p.kI, p.I, [&](auto const &I) { grb::assign(c, m, a, x, I, o); }); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &p, Ac a)
    {
        C z(c);
        for (int i = 0; i < x.n; ++i) z.e[p.I[i]] = region(c.e[p.I[i]], x.e[i], a);
        return z;
    }
};
struct OpAsgM {
    OPK('m', 'm', 'm', 'n', true, false, "assign(mat)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int n)
    {
        // k encodes the shape of the source: k = SB*rows + cols
        int ar = k / SB, ac = k % SB;
        choose_seq(c, p.I, p.kI, ar, m, true); choose_seq(c, p.J, p.kJ, ac, n, true);
        return {m, n, ar, ac, 0, 0};
    }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &p, grb::OutputControlEnum o)
    {
        with_seq(p.kI, p.I, [&](auto const &I) { with_cseq(p.kJ, p.J, [&](auto const &J) { grb::assign(c, m, a, x, I, J, o); }); });
    }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &p, Ac a)
    {
        C z(c);
        for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j)
            z.e[p.I[i]][p.J[j]] = region(c.e[p.I[i]][p.J[j]], x.e[i][j], a);
        return z;
    }
};
// row/column variants: mask and replace act on that row/column only
struct OpAsgCol {
    OPK('m', 'v', 'v', 'n', false, false, "assign(col)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int n) { choose_seq(c, p.I, p.kI, k, m, true); p.k = c.choose(n); return {m, n, k, 0, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &p, grb::OutputControlEnum o)
    { with_seq(p.kI, p.I, [&](auto const &I) { grb::assign(c, m, a, x, I, pcol(p.k), o); }); }
    static int masklen(Sh const &s) { return s.cr; }
    template <class D, class C, class MM, class A_, class Ac>
    static void model(C &c, int mk, MM const &M, A_ const &x, P const &p, Ac a, bool rep)
    {
        Vec<typename C::S> col(c.r), z(c.r);
        for (int i = 0; i < c.r; ++i) col.e[i] = c.e[i][p.k];
        z = OpAsgV::Z<D, Vec<typename C::S>, A_, Nothing>(col, x, Nothing(), p, a);
        maskwrite(col, z, mk, M, rep);
        for (int i = 0; i < c.r; ++i) c.e[i][p.k] = col.e[i];
    }
};
struct OpAsgRow {
    OPK('m', 'v', 'v', 'n', false, false, "assign(row)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int n) { choose_seq(c, p.I, p.kI, k, n, true); p.k = c.choose(m); return {m, n, k, 0, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &p, grb::OutputControlEnum o)
    { with_cseq(p.kI, p.I, [&](auto const &I) { grb::assign(c, m, a, x, p.k, I, o); }); }
    static int masklen(Sh const &s) { return s.cc; }
    template <class D, class C, class MM, class A_, class Ac>
    static void model(C &c, int mk, MM const &M, A_ const &x, P const &p, Ac a, bool rep)
    {
        Vec<typename C::S> row(c.c), z(c.c);
        for (int i = 0; i < c.c; ++i) row.e[i] = c.e[p.k][i];
        z = OpAsgV::Z<D, Vec<typename C::S>, A_, Nothing>(row, x, Nothing(), p, a);
        maskwrite(row, z, mk, M, rep);
        for (int i = 0; i < c.c; ++i) c.e[p.k][i] = row.e[i];
    }
};
struct OpAsgCV {
    OPK('v', 'v', 'n', 'n', false, false, "assign(const vec)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int) { choose_seq(c, p.I, p.kI, k, m, false); return {m, 0, 0, 0, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &, B_ const &, P const &p, grb::OutputControlEnum o)
    { with_seq(p.kI, p.I, [&](auto const &I) { grb::assign(c, m, a, typename D::Scal(D::scal), I, o); }); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &, B_ const &, P const &p, Ac a)
    {
        C z(c);
        Cell<typename D::Scal> t; t.has = true; t.v = D::scal;
        for (Idx i : p.I) z.e[i] = region(c.e[i], t, a);
        return z;
    }
};
struct OpAsgCM {
    OPK('m', 'm', 'n', 'n', false, false, "assign(const mat)")
    static constexpr bool SEQ = true;
    static Sh shape(mc::Ctx &c, P &p, int m, int k, int n)
    {
        choose_seq(c, p.I, p.kI, k / SB, m, false); choose_seq(c, p.J, p.kJ, k % SB, n, false);
        return {m, n, 0, 0, 0, 0};
    }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &, B_ const &, P const &p, grb::OutputControlEnum o)
    {
        with_seq(p.kI, p.I, [&](auto const &I) { with_cseq(p.kJ, p.J, [&](auto const &J) { grb::assign(c, m, a, typename D::Scal(D::scal), I, J, o); }); });
    }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &, B_ const &, P const &p, Ac a)
    {
        C z(c);
        Cell<typename D::Scal> t; t.has = true; t.v = D::scal;
        for (Idx i : p.I) for (Idx j : p.J) z.e[i][j] = region(c.e[i][j], t, a);
        return z;
    }
};

// ---------------------------------------------------------------------- apply
template <class TT, class A_, class F> Mat<TT> mapc(Mat<A_> const &x, F f)
{
    Mat<TT> t(x.r, x.c);
    for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) if (x.e[i][j].has) t.set(i, j, f(x.e[i][j].v));
    return t;
}
template <class TT, class A_, class F> Vec<TT> mapc(Vec<A_> const &x, F f)
{
    Vec<TT> t(x.n);
    for (int i = 0; i < x.n; ++i) if (x.e[i].has) t.set(i, f(x.e[i].v));
    return t;
}
template <char K, int MODE> struct OpApp {   // MODE 0 unary, 1 bind1st, 2 bind2nd
    OPK(K, K, K, 'n', K == 'm', false, MODE == 0 ? "apply" : MODE == 1 ? "apply(bind1st)" : "apply(bind2nd)")
    static constexpr bool SEQ = false;
    static Sh shape(mc::Ctx &, P &, int m, int, int n) { return {m, n, m, n, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &, grb::OutputControlEnum o)
    {
        if constexpr (MODE == 0) grb::apply(c, m, a, typename D::Un(), x, o);
        else if constexpr (MODE == 1) grb::apply(c, m, a, typename D::Bin(), typename D::Scal(D::scal), x, o);
        else grb::apply(c, m, a, typename D::Bin(), x, typename D::Scal(D::scal), o);
    }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &, Ac a)
    {
        auto f = [](auto v) {
            if constexpr (MODE == 0) return typename D::Un()(v);
            else if constexpr (MODE == 1) return typename D::Bin()(typename D::Scal(D::scal), v);
            else return typename D::Bin()(v, typename D::Scal(D::scal));
        };
        using TT = decltype(f(std::declval<typename A_::S>()));
        return accum_all(c, mapc<TT>(x, f), a);
    }
};

// ------------------------------------------------------- reduce, transpose, kron
struct OpRed {
    OPK('v', 'v', 'm', 'n', true, false, "reduce(rows)")
    static constexpr bool SEQ = false;
    static Sh shape(mc::Ctx &, P &, int m, int k, int) { return {m, 0, m, k, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &, grb::OutputControlEnum o)
    { grb::reduce(c, m, a, typename D::Mon(), x, o); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &, Ac a)
    {
        typename D::Mon mon;
        using TT = decltype(mon(std::declval<typename A_::S>(), std::declval<typename A_::S>()));
        Vec<TT> t(x.r);
        for (int i = 0; i < x.r; ++i)
            for (int j = 0; j < x.c; ++j)
                if (x.e[i][j].has)
                {
                    if (t.e[i].has) t.e[i].v = mon(t.e[i].v, x.e[i][j].v);
                    else t.set(i, static_cast<TT>(x.e[i][j].v));
                }
        return accum_all(c, t, a);
    }
};
struct OpTr {
    OPK('m', 'm', 'm', 'n', true, false, "transpose")
    static constexpr bool SEQ = false;
    static Sh shape(mc::Ctx &, P &, int m, int, int n) { return {m, n, n, m, 0, 0}; }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &, P const &, grb::OutputControlEnum o)
    { grb::transpose(c, m, a, x, o); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &, P const &, Ac a)
    { return accum_all(c, x.tr(), a); }
};
struct OpKron {
    OPK('m', 'm', 'm', 'm', true, true, "kronecker")
    static constexpr bool SEQ = false;
    // m = SB*ar+ac, n = SB*br+bc
    static Sh shape(mc::Ctx &, P &, int m, int, int n)
    {
        if (m < SB) { m = SB + 1; n = SB * n + n; }
        return {(m / SB) * (n / SB), (m % SB) * (n % SB), m / SB, m % SB, n / SB, n % SB};
    }
    template <class D, class C, class M, class Ac, class A_, class B_>
    static void run(C &c, M const &m, Ac a, A_ const &x, B_ const &y, P const &, grb::OutputControlEnum o)
    { grb::kronecker(c, m, a, typename D::Bin(), x, y, o); }
    template <class D, class C, class A_, class B_, class Ac> static C Z(C const &c, A_ const &x, B_ const &y, P const &, Ac a)
    {
        typename D::Bin op;
        using TT = decltype(op(std::declval<typename A_::S>(), std::declval<typename B_::S>()));
        Mat<TT> t(c.r, c.c);
        for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j)
            for (int p = 0; p < y.r; ++p) for (int q = 0; q < y.c; ++q)
                if (x.e[i][j].has && y.e[p][q].has) t.set(i * y.r + p, j * y.c + q, op(x.e[i][j].v, y.e[p][q].v));
        return accum_all(c, t, a);
    }
};

template <class OP> constexpr bool rowcol = std::is_same_v<OP, OpAsgCol> || std::is_same_v<OP, OpAsgRow>;

// ------------------------------------------------------------------ real / model
template <class OP, class D, class GC, class GM, class GA, class GB, class Ac>
void exec(P const &p, int mk, Ac acc, bool rep, GC &C, GM const &M, GA const &A, GB const &B)
{
    with_mask(mk, M, [&](auto const &mask) {
        auto o = outp(rep);
        if constexpr (OP::TRA && OP::TRB)
        {
            with_tr(p.ta, A, [&](auto const &x) { with_tr(p.tb, B, [&](auto const &y) { OP::template run<D>(C, mask, acc, x, y, p, o); }); });
        }
        else if constexpr (OP::TRA) with_tr(p.ta, A, [&](auto const &x) { OP::template run<D>(C, mask, acc, x, B, p, o); });
        else if constexpr (OP::TRB) with_tr(p.tb, B, [&](auto const &y) { OP::template run<D>(C, mask, acc, A, y, p, o); });
        else OP::template run<D>(C, mask, acc, A, B, p, o);
    });
}
// A, B are the logical operands (views already resolved)
template <class OP, class D, class C, class MM, class A_, class B_, class Ac>
void model(P const &p, int mk, Ac acc, bool rep, C &c, MM const &M, A_ const &A, B_ const &B)
{
    if constexpr (rowcol<OP>) OP::template model<D>(c, mk, M, A, p, acc, rep);
    else
    {
        C z = OP::template Z<D>(c, A, B, p, acc);
        maskwrite(c, z, mk, M, rep);
    }
}
template <class OP> int mask_r(Sh const &s)
{
    if constexpr (rowcol<OP>) return OP::masklen(s); else return s.cr;
}

// ------------------------------------------------------------------------ sweep
struct Fill {
    // number of options per cell of A, B, C and of the mask; 1 = all absent;
    // 0 = a few fixed patterns (none, all, alternating)
    int a = 2, b = 2, c = 2, m = 3;
    int mkinds = n_mask_kinds;
    bool dense_ops = false;
};
struct DefVal {
    static int A(int p, int) { return prime(p); }
    static int B(int p, int) { return prime(p + 7); }
    static int C(int p, int) { return 1000 + 100 * p; }
    static int M(int, int k) { return k == 1 ? 1 : 0; }
};
#ifdef REF_BIG
inline bool irregular(unsigned i, unsigned j, unsigned salt)
{
    unsigned h = (i * 2654435761u) ^ (j * 40503u + salt * 2246822519u);
    h ^= h >> 15; h *= 2654435761u; h ^= h >> 13;
    return h % 16 < 6;
}
// which of the places of a long row are present.  POS: every single place, every
// place but one, every prefix, suffix and window of four, and (up to 17 places)
// every pair; DENSE: patterns to meet those with
inline constexpr int POS = -100, DENSE = -101, DENSE2 = -102;
inline std::vector<char> places(mc::Ctx &c, int nopt, int l)
{
    std::vector<char> v(l);
    if (nopt == POS)
    {
        int s = c.choose(l <= 17 ? 6 : 5);
        if (s == 5) { int i = c.choose(l), j = c.choose(l); v[i] = v[j] = 1; return v; }
        int k = c.choose(l);
        for (int i = 0; i < l; ++i) v[i] = s == 0 ? i == k : s == 1 ? i != k : s == 2 ? i <= k : s == 3 ? i >= k : i >= k && i < k + 4;
    }
    else
    {
        int s = c.choose(nopt == DENSE ? 4 : 2);
        for (int i = 0; i < l; ++i) v[i] = s == 0 ? 1 : s == 1 ? irregular(i, 0, 77) : s == 2 ? i % 2 : i % 2 == 0;
    }
    return v;
}
#endif
template <class T, class F> Mat<T> fill(mc::Ctx &c, Mat<T> m, int nopt, F f)
{
    if (nopt > 0) return choose_mat<T>(c, m.r, m.c, nopt, f);
#ifdef REF_BIG
    if (nopt <= POS)
    {
        bool w = m.c >= m.r;
        auto v = places(c, nopt, w ? m.c : m.r);
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
            if (v[w ? j : i]) m.set(i, j, static_cast<T>(f(i * m.c + j, 1)));
        return m;
    }
    // -nopt of: alternating (with a stored second option), irregular and different
    // for each operand, full, last only, none, second half, all but the first
    if (nopt == 0) nopt = -4;
    int w = c.choose(-nopt);
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
    {
        int q = i * m.c + j, l = m.r * m.c;
        if (w == 0 ? (i + j) % 2 == 0 : w == 1 ? irregular(i, j, int(f(0, 1))) : w == 2 ? true : w == 3 ? q == l - 1 : w == 4 ? false : w == 5 ? q >= l / 2 : q > 0)
            m.set(i, j, static_cast<T>(f(q, w < 2 && q % 6 == 4 ? 2 : 1)));
    }
    return m;
#else
    int w = c.choose(3);
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
        if (w == 1 || (w == 2 && (i + j) % 2 == 0)) m.set(i, j, static_cast<T>(f(i * m.c + j, 1)));
    return m;
#endif
}
template <class T, class F> Vec<T> fill(mc::Ctx &c, Vec<T> m, int nopt, F f)
{
    if (nopt > 0) return choose_vec<T>(c, m.n, nopt, f);
#ifdef REF_BIG
    if (nopt <= POS)
    {
        auto v = places(c, nopt, m.n);
        for (int i = 0; i < m.n; ++i) if (v[i]) m.set(i, static_cast<T>(f(i, 1)));
        return m;
    }
    if (nopt == 0) nopt = -4;
    int w = c.choose(-nopt);
    for (int i = 0; i < m.n; ++i)
        if (w == 0 ? i % 2 == 0 : w == 1 ? irregular(i, 0, int(f(0, 1))) : w == 2 ? true : w == 3 ? i == m.n - 1 : w == 4 ? false : w == 5 ? i >= m.n / 2 : i > 0)
            m.set(i, static_cast<T>(f(i, w < 2 && i % 6 == 4 ? 2 : 1)));
    return m;
#else
    int w = c.choose(3);
    for (int i = 0; i < m.n; ++i)
        if (w == 1 || (w == 2 && i % 2 == 0)) m.set(i, static_cast<T>(f(i, 1)));
    return m;
#endif
}
template <class F> Nothing fill(mc::Ctx &, Nothing, int, F) { return {}; }

template <class OP, class D = IntDom, class V = DefVal, class CT = int, class MT = bool, class AT = int, class BT = int, class ACC = AccOp>
void sweep(mc::Ctx &c, int m, int k, int n, Fill const &f)
{
    P    p;
    int  mk = mask_kinds[c.choose(f.mkinds)];
    bool acc = c.flip();
    bool rep = c.flip();
#ifdef TA
    if (OP::TRA) p.ta = TA;
#else
    if (OP::TRA) p.ta = c.flip();
#endif
#ifdef TB
    if (OP::TRB) p.tb = TB;
#else
    if (OP::TRB) p.tb = c.flip();
#endif
    Sh   s = OP::shape(c, p, m, k, n);
    auto A = fill(c, mk_model<OP::A, AT>(s.ar, s.ac), f.a, V::A);
    auto B = fill(c, mk_model<OP::B, BT>(s.br, s.bc), f.b, V::B);
    auto C = fill(c, mk_model<OP::O, CT>(s.cr, s.cc), f.c, V::C);
    auto M = mk_model<OP::M, MT>(mask_r<OP>(s), s.cc);
    if (mk != M_NONE) M = fill(c, M, f.m, V::M);
    auto Ap = trm(A, p.ta);
    auto Bp = trm(B, p.tb);
    auto gA = real(Ap);
    auto gB = real(Bp);
    auto gC = real(C);
    auto gM = real(M);
    auto E = C;
    auto call = [&](auto a) {
        model<OP, D>(p, mk, a, rep, E, M, A, B);
        MC_SAY(OP::name(), show(p, OP::SEQ), " A=", show(A), " B=", show(B), " C=", show(C), " mask=", mk_name(mk), " M=", show(M),
               " accum=", acc, " replace=", rep, " expected ", show(E));
        exec<OP, D>(p, mk, a, rep, gC, gM, gA, gB);
    };
    if (acc) call(ACC()); else call(grb::NoAccumulate());
    mc::step();
    expect(gC, E, OP::name());
    expect(gA, Ap, "first input afterwards");
    expect(gB, Bp, "second input afterwards");
    if (mk != M_NONE) expect(gM, M, "mask afterwards");
}

} // namespace ref
