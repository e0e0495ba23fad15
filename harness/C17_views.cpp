// C17: matrix utilities, views and index ranges over every small input.
#define REF_MX 9
#include "../mc/ref.hpp"
#include <cmath>
using namespace ref;
using mc::Ctx;

// values that tell positions and conversions apart; a stored zero as option 2
template <class T> T val(int p, int k) { return k == 2 ? T(0) : T(prime(p)); }
static int const SH[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {1, 5}, {5, 1}, {2, 4}, {4, 2}, {3, 3}, {1, 7}, {7, 1}};
static int const NSH = sizeof SH / sizeof SH[0];

// ------------------------------------------------------------ diag, identity
template <class MT, class VT> void diag(Ctx &c)
{
    int n = 1 + c.choose(mc::thorough ? 8 : 6);
    Vec<VT> v = choose_vec<VT>(c, n, 3, [](int p, int k) { return k == 2 ? VT(0) : VT(prime(p) + (std::is_floating_point_v<VT> ? 0.5 : 0)); });
    MC_SAY("diag of v=", show(v));
    Mat<MT> m(n, n);
    for (int i = 0; i < n; ++i) if (v.e[i].has) m.set(i, i, static_cast<MT>(v.e[i].v));
    grb::Vector<VT> w = real(v);
    auto D = grb::diag<grb::Matrix<MT>>(w);
    mc::step();
    expect(D, m, "diag(v)");
    expect(w, v, "v after diag(v)");
}
MC_SCENARIO(diag_ii, 1) { diag<int, int>(c); }
MC_SCENARIO(diag_di, 1) { diag<double, int>(c); }
MC_SCENARIO(diag_id, 1) { diag<int, double>(c); }
MC_SCENARIO(diag_bb, 1) { diag<bool, bool>(c); }
MC_SCENARIO(diag_cu, 1) { diag<signed char, unsigned>(c); }

template <class T> void ident(Ctx &c)
{
    int n = 1 + c.choose(9), how = c.choose(5);
    T   v[] = {T(1), T(0), T(7), T(-1), T(2.5)};
    MC_SAY("scaled_identity n=", n, " value ", how == 0 ? std::string("default") : std::to_string(v[how]));
    auto D = how == 0 ? grb::scaled_identity<grb::Matrix<T>>(n) : grb::scaled_identity<grb::Matrix<T>>(n, v[how]);
    mc::step();
    Mat<T> m(n, n);
    for (int i = 0; i < n; ++i) m.set(i, i, v[how]);
    expect(D, m, "scaled_identity");
}
MC_SCENARIO(ident_i, 1) { ident<int>(c); }
MC_SCENARIO(ident_d, 1) { ident<double>(c); }
MC_SCENARIO(ident_b, 1) { ident<bool>(c); }

// ------------------------------------------------------------------- split
template <class T> void split(Ctx &c)
{
    int s = c.choose(mc::thorough ? NSH : NSH - 2);
    int r = SH[s][0], n = SH[s][1];
    Mat<T> a = choose_mat<T>(c, r, n, r * n <= 6 ? 3 : 2, val<T>);
    MC_SAY("split of A=", show(a));
    Mat<T> l(r, n), u(r, n);
    for (int i = 0; i < r; ++i) for (int j = 0; j < n; ++j) if (a.e[i][j].has) (i >= j ? l : u).set(i, j, a.e[i][j].v);
    auto A = real(a);
    grb::Matrix<T> L(r, n), U(r, n);
    grb::split(A, L, U);
    mc::step();
    expect(L, l, "lower part");
    expect(U, u, "upper part");
    expect(A, a, "A after split");
}
MC_SCENARIO(split_i, 3) { split<int>(c); }
MC_SCENARIO(split_b, 3) { split<bool>(c); }
MC_SCENARIO(split_d, 3) { split<double>(c); }

// --------------------------------------------------------------- normalize
template <class T> void normal(Ctx &c, bool rows)
{
    int s = c.choose(NSH);
    int r = SH[s][0], n = SH[s][1];
    int opts = r * n <= 4 ? 5 : r * n <= 6 ? 4 : 2;
    Mat<T> a = choose_mat<T>(c, r, n, opts, [](int p, int k) { return k == 1 ? T(prime(p)) : k == 2 ? T(0.25) : k == 3 ? T(0) : T(-1); });
    MC_SAY(rows ? "normalize_rows" : "normalize_cols", " of A=", show(a));
    Mat<T> x(r, n);
    bool   bad = false;
    for (int i = 0; i < (rows ? r : n); ++i)
    {
        T   sum = 0;
        int k = 0;
        for (int j = 0; j < (rows ? n : r); ++j) { auto &e = rows ? a.e[i][j] : a.e[j][i]; if (e.has) { sum += e.v; ++k; } }
        if (k && sum == 0) bad = true;              // 1/0: no normalisation exists
        for (int j = 0; j < (rows ? n : r); ++j) { auto &e = rows ? a.e[i][j] : a.e[j][i]; if (e.has) (rows ? x.set(i, j, e.v / sum) : x.set(j, i, e.v / sum)); }
    }
    if (bad) throw mc::Prune();
    auto A = real(a);
    if (rows) grb::normalize_rows(A); else grb::normalize_cols(A);
    mc::step();
    MC_CHECK(A.nrows() == Idx(r) && A.ncols() == Idx(n) && A.nvals() == Idx(a.nvals()), "shape or number of stored values changed: ", dump(A), " from ", show(a));
    for (int i = 0; i < r; ++i) for (int j = 0; j < n; ++j)
    {
        bool h = A.hasElement(i, j);
        MC_CHECK(h == a.e[i][j].has, "structure changed at ", i, ",", j, ": ", dump(A), " from ", show(a));
        if (h)
        {
            T g = A.extractElement(i, j), w = x.e[i][j].v;
            MC_CHECK(std::abs(g - w) <= (sizeof(T) == 8 ? 1e-12 : 1e-5) * std::max(T(1), std::abs(w)), "element ", i, ",", j, " is ", g, " expected ", w, ": ", dump(A), " from ", show(a));
        }
    }
}
MC_SCENARIO(rows_d, 3) { normal<double>(c, true); }
MC_SCENARIO(rows_f, 3) { normal<float>(c, true); }
MC_SCENARIO(cols_d, 3) { normal<double>(c, false); }
MC_SCENARIO(cols_f, 3) { normal<float>(c, false); }

// ---------------------------------------------------------- transpose views
template <class T> void tview(Ctx &c)
{
    int s = c.choose(NSH - 2);
    int r = SH[s][0], n = SH[s][1];
    int how = c.choose(6);
    // an element removed or added after the view was made
    int late = c.choose(3);
    Mat<T> a = choose_mat<T>(c, r, n, r * n <= 6 ? 3 : 2, val<T>);
    MC_SAY("transpose views, use ", how, ", late change ", late, ", A=", show(a));
    auto A = real(a);
    auto t = grb::transpose(A);
    if (late == 1) { a.set(0, 0, T(1)); A.setElement(0, 0, T(1)); }
    if (late == 2) { if (a.e[r - 1][n - 1].has) A.removeElement(r - 1, n - 1); a.del(r - 1, n - 1); }
    Mat<T> b = a.tr();
    MC_CHECK(t.nrows() == Idx(n) && t.ncols() == Idx(r), "transpose view is ", t.nrows(), "x", t.ncols(), " of ", show(a));
    auto I = grb::Identity<T>();
    mc::step();
    switch (how)
    {
    case 0: { grb::Matrix<T> C(n, r); grb::apply(C, grb::NoMask(), grb::NoAccumulate(), I, t); expect(C, b, "copy of transpose(A)"); break; }
    case 1: { grb::Matrix<T> C(r, n); grb::transpose(C, grb::NoMask(), grb::NoAccumulate(), t); expect(C, a, "transpose of transpose view"); break; }
    case 2:
    {
        decltype(auto) tt = grb::transpose(t);
        MC_CHECK(tt.nrows() == Idx(r) && tt.ncols() == Idx(n), "transpose(transpose(A)) is ", tt.nrows(), "x", tt.ncols(), " of ", show(a));
        grb::Matrix<T> C(r, n); grb::apply(C, grb::NoMask(), grb::NoAccumulate(), I, tt); expect(C, a, "copy of transpose(transpose(A))"); break;
    }
    case 3: { grb::Matrix<T> C(n, r); grb::apply(C, grb::NoMask(), grb::NoAccumulate(), I, grb::transpose(grb::transpose(t))); expect(C, b, "copy of transpose(transpose(transpose(A)))"); break; }
    case 4:
    {
        // a product needs the view's shape and content in either place
        grb::Matrix<T> E(r, r);
        for (int i = 0; i < r; ++i) E.setElement(i, i, T(1));
        grb::Matrix<T> C(n, r); grb::mxm(C, grb::NoMask(), grb::NoAccumulate(), grb::ArithmeticSemiring<T>(), t, E); expect(C, b, "transpose(A)*I");
        grb::Matrix<T> D(r, n); grb::mxm(D, grb::NoMask(), grb::NoAccumulate(), grb::ArithmeticSemiring<T>(), E, grb::transpose(t)); expect(D, a, "I*transpose(transpose(A))");
        break;
    }
    default:
    {
        grb::Matrix<T> C(n, r); grb::eWiseAdd(C, grb::NoMask(), grb::NoAccumulate(), grb::First<T>(), t, t); expect(C, b, "transpose(A) (+) transpose(A)");
        grb::Matrix<T> D(r, n); grb::eWiseAdd(D, grb::NoMask(), grb::NoAccumulate(), grb::First<T>(), grb::transpose(t), A); expect(D, a, "transpose(transpose(A)) (+) A");
    }
    }
    expect(A, a, "A after use of its views");
}
MC_SCENARIO(tview_i, 4) { tview<int>(c); }
MC_SCENARIO(tview_b, 4) { tview<bool>(c); }
MC_SCENARIO(tview_d, 4) { tview<double>(c); }

// --------------------------------------------------------------- mask views
// what a view lets through, read back by copying a full container through it
template <class T> T mval(int p, int k)
{
    if (k == 2) return T(0);
    if constexpr (std::is_floating_point_v<T>) return k == 1 ? T(0.5) : T(-0.001);
    else if constexpr (sizeof(T) == 8) return k == 1 ? T(1) << 32 : T(256);
    else if constexpr (std::is_same_v<T, bool>) return true;
    else return k == 1 ? T(2) : T(-1);
}
template <class T> void mview(Ctx &c)
{
    int s = c.choose(9);
    int r = SH[s][0], n = SH[s][1];
    int late = c.choose(3);
    Mat<T> a = choose_mat<T>(c, r, n, std::is_same_v<T, bool> || r * n > 4 ? 3 : 4, mval<T>);
    MC_SAY("mask views, late change ", late, ", M=", show(a));
    auto A = real(a);
    auto comp = grb::complement(A);
    auto str = grb::structure(A);
    auto scomp = grb::complement(str);
    if (late == 1) { a.set(0, 0, T(0)); A.setElement(0, 0, T(0)); }
    if (late == 2) { if (a.e[r - 1][n - 1].has) A.removeElement(r - 1, n - 1); a.del(r - 1, n - 1); }
    grb::Matrix<int> F(r, n);
    for (int i = 0; i < r; ++i) for (int j = 0; j < n; ++j) F.setElement(i, j, prime(i * n + j));
    auto go = [&](auto const &view, int kind) {
        MC_CHECK(view.nrows() == Idx(r) && view.ncols() == Idx(n), mk_name(kind), " is ", view.nrows(), "x", view.ncols(), " of ", show(a));
        Mat<int> x(r, n);
        for (int i = 0; i < r; ++i) for (int j = 0; j < n; ++j) if (lets(kind, a.e[i][j])) x.set(i, j, prime(i * n + j));
        grb::Matrix<int> C(r, n);
        C.setElement(0, n - 1, 999);
        grb::apply(C, view, grb::NoAccumulate(), grb::Identity<int>(), F, grb::REPLACE);
        mc::step();
        expect(C, x, mk_name(kind));
    };
    go(A, M_VAL); go(comp, M_COMP); go(str, M_STRUCT); go(scomp, M_SCOMP);
    MC_CHECK(str.nvals() == Idx(a.nvals()), "structure view reports ", str.nvals(), " stored values of ", show(a));
    expect(A, a, "mask after use of its views");
}
template <class T> void vview(Ctx &c)
{
    int n = 1 + c.choose(5), late = c.choose(3);
    Vec<T> a = choose_vec<T>(c, n, std::is_same_v<T, bool> ? 3 : 4, mval<T>);
    MC_SAY("vector mask views, late change ", late, ", m=", show(a));
    auto A = real(a);
    auto comp = grb::complement(A);
    auto str = grb::structure(A);
    auto scomp = grb::complement(str);
    if (late == 1) { a.set(0, T(0)); A.setElement(0, T(0)); }
    if (late == 2) { if (a.e[n - 1].has) A.removeElement(n - 1); a.del(n - 1); }
    grb::Vector<int> F(n);
    for (int i = 0; i < n; ++i) F.setElement(i, prime(i));
    auto go = [&](auto const &view, int kind) {
        MC_CHECK(view.size() == Idx(n), mk_name(kind), " has size ", view.size(), " of ", show(a));
        Vec<int> x(n);
        for (int i = 0; i < n; ++i) if (lets(kind, a.e[i])) x.set(i, prime(i));
        grb::Vector<int> C(n);
        C.setElement(n - 1, 999);
        grb::apply(C, view, grb::NoAccumulate(), grb::Identity<int>(), F, grb::REPLACE);
        mc::step();
        expect(C, x, mk_name(kind));
    };
    go(A, M_VAL); go(comp, M_COMP); go(str, M_STRUCT); go(scomp, M_SCOMP);
    MC_CHECK(str.nvals() == Idx(a.nvals()), "structure view reports ", str.nvals(), " stored values of ", show(a));
    expect(A, a, "mask after use of its views");
}
MC_SCENARIO(mview_b, 4) { mview<bool>(c); }
MC_SCENARIO(mview_i, 4) { mview<int>(c); }
MC_SCENARIO(mview_u64, 4) { mview<uint64_t>(c); }
MC_SCENARIO(mview_d, 4) { mview<double>(c); }
MC_SCENARIO(vview_b, 2) { vview<bool>(c); }
MC_SCENARIO(vview_i, 2) { vview<int>(c); }
MC_SCENARIO(vview_u64, 2) { vview<uint64_t>(c); }
MC_SCENARIO(vview_d, 2) { vview<double>(c); }

// -------------------------------------------------------------- index ranges
MC_SCENARIO(range, 1)
{
    int lo = c.choose(8), n = c.choose(9 - lo);
    MC_SAY("range [", lo, ",", lo + n, ")");
    grb::IndexSequenceRange R(lo, lo + n);
    MC_CHECK(R.size() == Idx(n) && R.empty() == (n == 0), "size ", R.size());
    int k = 0;
    for (auto it = R.begin(); it != R.end(); ++it, ++k) MC_CHECK(*it == Idx(lo + k) && R[k] == *it && !(it == R.end()), "element ", k, " is ", *it);
    MC_CHECK(k == n, "iterates ", k, " times");
    k = 0;
    for (auto it = R.begin(); it != R.end();) { MC_CHECK(*it++ == Idx(lo + k), "post-increment"); ++k; }
    for (auto it = R.end(); it != R.begin();) { --k; MC_CHECK(*--it == Idx(lo + k), "pre-decrement"); }
    k = n;
    for (auto it = R.end(); it != R.begin(); --k) MC_CHECK(*it-- == Idx(lo + k), "post-decrement");
    mc::step(4);
    if (n == 0) return;
    // as the index argument of extract and assign, against the written-out list
    grb::Vector<int> u(9), w(n), x(9);
    for (int i = 0; i < 9; i += 2) u.setElement(i, prime(i));
    grb::extract(w, grb::NoMask(), grb::NoAccumulate(), u, R);
    Vec<int> m(n), y(9);
    for (int i = 0; i < n; ++i) if ((lo + i) % 2 == 0) m.set(i, prime(lo + i));
    expect(w, m, "extract over a range");
    grb::assign(x, grb::NoMask(), grb::NoAccumulate(), w, R);
    for (int i = 0; i < n; ++i) y.e[lo + i] = m.e[i];
    expect(x, y, "assign over a range");
}
