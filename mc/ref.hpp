// The model: dense arrays of optional values, and the GraphBLAS rules written
// down naively.  Nothing here is shared with the code under test.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <graphblas/graphblas.hpp>
#include <memory>
#include <optional>
#include <type_traits>

#ifdef REF_BIG
#undef REF_MX
#define REF_MX 1
#endif
#ifndef REF_MX
#define REF_MX 6
#endif

namespace ref {

using Idx = grb::IndexType;

template <class T> struct Cell {
    bool has = false;
    T    v{};
    static bool eq(T const &a, T const &b)
    {
        if constexpr (std::is_floating_point_v<T>) return a == b || (a != a && b != b);   // NaN is itself
        else return a == b;
    }
    bool operator==(Cell const &o) const { return has == o.has && (!has || eq(v, o.v)); }
};

#ifdef REF_BIG
// heap storage: structured contents with long rows and many rows
template <class T> struct Grid {
    int                  w = 0;
    std::vector<Cell<T>> d;
    Grid(int r, int c) : w(c), d(size_t(r) * c) {}
    Cell<T>       *operator[](int i) { return d.data() + size_t(i) * w; }
    Cell<T> const *operator[](int i) const { return d.data() + size_t(i) * w; }
};
#endif
template <class T> struct Mat {
    using S = T;
    int     r, c;
#ifdef REF_BIG
    Grid<T> e;
    Mat(int r_, int c_) : r(r_), c(c_), e(r_, c_) {}
#else
    Cell<T> e[REF_MX][REF_MX];
    Mat(int r_, int c_) : r(r_), c(c_) {}
#endif
    int nvals() const { int n = 0; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) n += e[i][j].has; return n; }
    void set(int i, int j, T v) { e[i][j].has = true; e[i][j].v = v; }
    void del(int i, int j) { e[i][j].has = false; }
    Mat<T> tr() const { Mat<T> m(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m.e[j][i] = e[i][j]; return m; }
    bool operator==(Mat const &o) const
    {
        if (r != o.r || c != o.c) return false;
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (!(e[i][j] == o.e[i][j])) return false;
        return true;
    }
};
template <class T> struct Vec {
    using S = T;
    int     n;
#ifdef REF_BIG
    std::vector<Cell<T>> e;
    explicit Vec(int n_) : n(n_), e(n_) {}
#else
    Cell<T> e[REF_MX];
    explicit Vec(int n_) : n(n_) {}
#endif
    int nvals() const { int k = 0; for (int i = 0; i < n; ++i) k += e[i].has; return k; }
    void set(int i, T v) { e[i].has = true; e[i].v = v; }
    void del(int i) { e[i].has = false; }
    bool operator==(Vec const &o) const
    {
        if (n != o.n) return false;
        for (int i = 0; i < n; ++i) if (!(e[i] == o.e[i])) return false;
        return true;
    }
};

template <class T> void putv(std::ostream &os, T const &v)
{
    if constexpr (std::is_arithmetic_v<T>) os << +v; else os << v;
}
template <class T> std::string show(Mat<T> const &m)
{
    std::ostringstream os;
    os << "[";
    for (int i = 0; i < m.r; ++i)
    {
        if (i) os << " | ";
        for (int j = 0; j < m.c; ++j) { if (j) os << " "; if (m.e[i][j].has) putv(os, m.e[i][j].v); else os << "."; }
    }
    os << "]";
    return os.str();
}
template <class T> std::string show(Vec<T> const &m)
{
    std::ostringstream os;
    os << "(";
    for (int j = 0; j < m.n; ++j) { if (j) os << " "; if (m.e[j].has) putv(os, m.e[j].v); else os << "."; }
    os << ")";
    return os.str();
}
inline std::string show(std::vector<Idx> const &v)
{
    std::ostringstream os;
    os << "{";
    for (size_t i = 0; i < v.size(); ++i) os << (i ? "," : "") << v[i];
    os << "}";
    return os.str();
}

// REF_HUGE: the model's matrices of 3 (or 6: a Kronecker product) columns stand for
// real ones with a huge number of columns, their places at a few huge indices
#ifdef REF_HUGE
struct HugeMap { Idx N = 3, h[3] = {0, 1, 2}; bool inner = false; };
inline HugeMap huge;
inline Idx ncols_of(int c) { return c == 3 ? huge.N : c == 6 ? 2 * huge.N : Idx(c); }
inline Idx col_of(int c, int j)
{
    if (c == 3) return huge.h[j];
    if (c == 6) return huge.inner ? Idx(j / 3) * huge.N + huge.h[j % 3] : huge.h[j / 2] * 2 + Idx(j % 2);
    return j;
}
#else
inline Idx ncols_of(int c) { return c; }
inline Idx col_of(int, int j) { return j; }
#endif
inline Idx col_back(int c, Idx x)
{
#ifdef REF_HUGE
    for (int j = 0; j < c; ++j) if (col_of(c, j) == x) return j;
    return c;
#else
    return x;
#endif
}

// -------------------------------------------------------------- model -> real
template <class T> grb::Matrix<T> real(Mat<T> const &m)
{
    grb::Matrix<T> A(m.r, ncols_of(m.c));
#ifdef REF_BIG
    if constexpr (!std::is_same_v<T, bool>)
    {
        std::vector<Idx> I, J; std::vector<T> V;
        for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (m.e[i][j].has) { I.push_back(i); J.push_back(j); V.push_back(m.e[i][j].v); }
        A.build(I, J, V);
        return A;
    }
#endif
    for (int i = 0; i < m.r; ++i)
        for (int j = 0; j < m.c; ++j)
            if (m.e[i][j].has) A.setElement(i, col_of(m.c, j), m.e[i][j].v);
    return A;
}
// Absent positions are first stored with a poison value and then removed, so
// that an operation that looks at a slot it should not produces a wrong value.
template <class T> grb::Vector<T> real(Vec<T> const &m)
{
    grb::Vector<T> w(m.n);
    for (int i = 0; i < m.n; ++i)
        if (m.e[i].has) w.setElement(i, m.e[i].v);
        else { w.setElement(i, static_cast<T>(113)); w.removeElement(i); }
    return w;
}

// -------------------------------------------------------------- real vs model
inline bool signed_zeros = false;            // -0.0 and 0.0 are different values
template <class T> bool same_val(T const &a, T const &b)
{
    if constexpr (std::is_floating_point_v<T>)
        if (signed_zeros && a == b && std::signbit(a) != std::signbit(b)) return false;
    return Cell<T>::eq(a, b);
}
template <class M> std::string dump(M const &A)
{
    std::ostringstream os;
    os << A.nrows() << "x" << A.ncols() << " nvals=" << A.nvals() << " [";
    for (Idx i = 0; i < A.nrows(); ++i)
    {
        if (i) os << " | ";
        for (Idx j = 0; j < A.ncols() && j < 2000; ++j)
        {
            if (j) os << " ";
            if (A.hasElement(i, j)) putv(os, A.extractElement(i, j)); else os << ".";
        }
    }
    os << "]";
    return os.str();
}
template <class V> std::string dumpv(V const &A)
{
    std::ostringstream os;
    os << "size=" << A.size() << " nvals=" << A.nvals() << " (";
    for (Idx j = 0; j < A.size(); ++j)
    {
        if (j) os << " ";
        if (A.hasElement(j)) putv(os, A.extractElement(j)); else os << ".";
    }
    os << ")";
    return os.str();
}

template <class T> void expect(grb::Matrix<T> const &A, Mat<T> const &m, char const *what)
{
    int const n = m.nvals();
    bool ok = (A.nrows() == Idx(m.r) && A.ncols() == ncols_of(m.c) && A.nvals() == Idx(n));
    for (int i = 0; ok && i < m.r; ++i)
        for (int j = 0; ok && j < m.c; ++j)
        {
#ifdef REF_BIG
            if (m.c > 80 && i * m.c + j > 8 && j + 4 < m.c && (i + j) % 41) continue;
#endif
            Idx  x = col_of(m.c, j);
            bool h = A.hasElement(i, x);
            ok = (h == m.e[i][j].has) && (!h || same_val<T>(A.extractElement(i, x), m.e[i][j].v));
        }
    if (ok && n > 0)
    {
#ifdef REF_BIG
        std::vector<Idx>     ri(n), ci(n);
        std::unique_ptr<T[]> vp(new T[n]);
        T                   *vi = vp.get();
        std::vector<char>    seen(size_t(m.r) * m.c);
        A.extractTuples(ri.begin(), ci.begin(), vi);
        auto mark = [&](Idx i, Idx j) -> char & { return seen[i * m.c + j]; };
#else
        Idx ri[REF_MX * REF_MX], ci[REF_MX * REF_MX];
        T   vi[REF_MX * REF_MX];
        bool seen[REF_MX][REF_MX] = {};
        A.extractTuples(ri, ci, vi);
        auto mark = [&](Idx i, Idx j) -> bool & { return seen[i][j]; };
#endif
        for (int k = 0; ok && k < n; ++k)
        {
            ci[k] = col_back(m.c, ci[k]);
            ok = ri[k] < Idx(m.r) && ci[k] < Idx(m.c) && !mark(ri[k], ci[k]) && m.e[ri[k]][ci[k]].has &&
                 same_val<T>(vi[k], m.e[ri[k]][ci[k]].v);
            if (ok) mark(ri[k], ci[k]) = true;
        }
    }
    if (!ok) mc::fail(mc::cat(what, ": got ", dump(A), " expected ", show(m)));
}
template <class T> void expect(grb::Vector<T> const &w, Vec<T> const &m, char const *what)
{
    int const n = m.nvals();
    bool ok = (w.size() == Idx(m.n) && w.nvals() == Idx(n));
    for (int i = 0; ok && i < m.n; ++i)
    {
        bool h = w.hasElement(i);
        ok = (h == m.e[i].has) && (!h || same_val<T>(w.extractElement(i), m.e[i].v));
    }
    if (ok && n > 0)
    {
#ifdef REF_BIG
        std::vector<Idx>     ri(n);
        std::unique_ptr<T[]> vi(new T[n]);
        std::vector<char>    seen(m.n);
        w.extractTuples(ri.begin(), vi.get());
#else
        Idx  ri[REF_MX];
        T    vi[REF_MX];
        bool seen[REF_MX] = {};
        w.extractTuples(ri, vi);
#endif
        for (int k = 0; ok && k < n; ++k)
        {
            ok = ri[k] < Idx(m.n) && !seen[ri[k]] && m.e[ri[k]].has && same_val<T>(vi[k], m.e[ri[k]].v);
            if (ok) seen[ri[k]] = true;
        }
    }
    if (!ok) mc::fail(mc::cat(what, ": got ", dumpv(w), " expected ", show(m)));
}

// ---------------------------------------------------------------------- masks
enum MaskKind { M_NONE, M_VAL, M_COMP, M_STRUCT, M_SCOMP };
inline char const *mk_name(int k)
{
    static char const *n[] = {"NoMask", "M", "!M", "struct(M)", "!struct(M)"};
    return n[k];
}
template <class MT> bool lets(int kind, Cell<MT> const &x)
{
    switch (kind)
    {
    case M_NONE: return true;
    case M_VAL: return x.has && static_cast<bool>(x.v);
    case M_COMP: return !(x.has && static_cast<bool>(x.v));
    case M_STRUCT: return x.has;
    default: return !x.has;
    }
}

// ---------------------------------------------------------------- accumulators
// deliberately neither commutative nor associative
struct AccOp {
    using first_argument_type = int;
    using second_argument_type = int;
    using result_type = int;
    int operator()(int c, int t) const { return 3 * c - t + 1; }
};

template <class CT, class TT, class Acc>
Cell<CT> accumulate(Cell<CT> const &c, Cell<TT> const &t, Acc const &acc)
{
    Cell<CT> z;
    if constexpr (std::is_same_v<Acc, grb::NoAccumulate>)
    {
        z.has = t.has;
        if (t.has) z.v = static_cast<CT>(t.v);
    }
    else
    {
        using ZT = decltype(acc(c.v, t.v));
        z.has = c.has || t.has;
        if (c.has && t.has) z.v = static_cast<CT>(acc(c.v, t.v));
        else if (c.has) z.v = static_cast<CT>(static_cast<ZT>(c.v));
        else if (t.has) z.v = static_cast<CT>(static_cast<ZT>(t.v));
    }
    return z;
}

// The one rule for writing any result T into C.
template <class CT, class TT, class MT, class Acc>
void write(Mat<CT> &C, Mat<TT> const &T, int mkind, Mat<MT> const &M, Acc const &acc, bool replace)
{
    for (int i = 0; i < C.r; ++i)
        for (int j = 0; j < C.c; ++j)
        {
            if (lets(mkind, M.e[i][j])) C.e[i][j] = accumulate(C.e[i][j], T.e[i][j], acc);
            else if (replace && mkind != M_NONE) C.e[i][j].has = false;
        }
}
template <class CT, class TT, class MT, class Acc>
void write(Vec<CT> &C, Vec<TT> const &T, int mkind, Vec<MT> const &M, Acc const &acc, bool replace)
{
    for (int i = 0; i < C.n; ++i)
    {
        if (lets(mkind, M.e[i])) C.e[i] = accumulate(C.e[i], T.e[i], acc);
        else if (replace && mkind != M_NONE) C.e[i].has = false;
    }
}

// ------------------------------------------------------------------ enumeration
// fill a container: nopt options per cell, option 0 = absent, option k = val(pos,k)
template <class T, class F> Mat<T> choose_mat(mc::Ctx &c, int r, int cc, int nopt, F val)
{
    Mat<T> m(r, cc);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < cc; ++j)
        {
            int k = c.choose(nopt);
            if (k) m.set(i, j, static_cast<T>(val(i * cc + j, k)));
        }
    return m;
}
template <class T, class F> Vec<T> choose_vec(mc::Ctx &c, int n, int nopt, F val)
{
    Vec<T> m(n);
    for (int i = 0; i < n; ++i)
    {
        int k = c.choose(nopt);
        if (k) m.set(i, static_cast<T>(val(i, k)));
    }
    return m;
}
// mask contents relevant to the kind: a structural mask has stored falses too
template <class T> Mat<T> choose_mask(mc::Ctx &c, int kind, int r, int cc)
{
    if (kind == M_NONE) return Mat<T>(r, cc);
    return choose_mat<T>(c, r, cc, 3, [](int, int k) { return k == 1 ? 1 : 0; });
}
template <class T> Vec<T> choose_vmask(mc::Ctx &c, int kind, int n)
{
    if (kind == M_NONE) return Vec<T>(n);
    return choose_vec<T>(c, n, 3, [](int, int k) { return k == 1 ? 1 : 0; });
}

// --------------------------------------------------------------------- dispatch
// (FEWMASKS: only the kinds NoMask, M and !struct(M) are compiled)
#ifdef FEWMASKS
inline int const mask_kinds[] = {M_NONE, M_VAL, M_SCOMP};
#else
inline int const mask_kinds[] = {M_NONE, M_VAL, M_COMP, M_STRUCT, M_SCOMP};
#endif
inline constexpr int n_mask_kinds = sizeof(mask_kinds) / sizeof(mask_kinds[0]);
template <class M, class F> void with_mask(int kind, M const &Mk, F f)
{
    switch (kind)
    {
    case M_NONE: f(grb::NoMask()); break;
    case M_VAL: f(Mk); break;
#ifndef FEWMASKS
    case M_COMP: f(grb::complement(Mk)); break;
    case M_STRUCT: f(grb::structure(Mk)); break;
#endif
    default: f(grb::complement(grb::structure(Mk))); break;
    }
}
template <class F> void with_acc(bool a, F f)
{
    if (a) f(AccOp()); else f(grb::NoAccumulate());
}
template <class M, class F> void with_tr(bool t, M const &A, F f)
{
    if (t) f(grb::transpose(A)); else f(A);
}
inline grb::OutputControlEnum outp(bool replace) { return replace ? grb::REPLACE : grb::MERGE; }

inline int prime(int k)
{
    static int p[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71};
    return p[k % 20];
}

} // namespace ref

// asymmetric operators (catch swapped operands), packaged the way the library
// packages its own
namespace ref {
template <typename D1, typename D2 = D1, typename D3 = D1> struct MulOp {
    using first_argument_type = D1;
    using second_argument_type = D2;
    using result_type = D3;
    D3 operator()(D1 a, D2 b) const { return static_cast<D3>(5 * a + 2 * b + a * b); }
};
GEN_GRAPHBLAS_SEMIRING(AsymSR, grb::PlusMonoid, MulOp)
} // namespace ref
