// C07: reductions (rows of a matrix to a vector, vector to scalar, matrix to scalar).
#include "../mc/ops.hpp"
using namespace ref;
struct ZVal : DefVal { static int A(int, int k) { return k == 1 ? 3 : k == 2 ? 0 : -2; } };
template <class M> struct Dm : IntDom { using Mon = M; };

MC_SCENARIO(rows, 9)
{
    static int const S[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 5}};
    int s = c.choose(9); Fill f; sweep<OpRed>(c, S[s][0], S[s][1], 1, f);
}
MC_SCENARIO(rows33, 9) { Fill f; f.c = 0; f.m = 2; sweep<OpRed>(c, 3, 3, 1, f); }
template <class M> void rowz(mc::Ctx &c) { Fill f; f.a = 4; f.c = 0; f.m = 0; sweep<OpRed, Dm<M>, ZVal>(c, 2, 3, 1, f); }
MC_SCENARIO(rows_ops, 9)
{
    switch (c.choose(5))
    {
    case 0: return rowz<grb::PlusMonoid<int>>(c);
    case 1: return rowz<grb::TimesMonoid<int>>(c);
    case 2: return rowz<grb::MinMonoid<int>>(c);
    case 3: return rowz<grb::MaxMonoid<int>>(c);
    default: return rowz<grb::Plus<int>>(c);     // a plain operator
    }
}

// scalar := fold of all stored values, identity when there are none, then accum
template <class M, class ACC> int fold(std::vector<int> const &v, int s0, ACC const &acc)
{
    M m; int t = m.identity();
    for (int x : v) t = m(t, x);
    if constexpr (std::is_same_v<ACC, grb::NoAccumulate>) return t; else return acc(s0, t);
}
template <class M> void vecs(mc::Ctx &c)
{
    int n = 1 + c.choose(5);
    bool acc = c.flip();
    auto u = choose_vec<int>(c, n, 4, [](int p, int k) { return k == 1 ? prime(p) : k == 2 ? 0 : -2; });
    std::vector<int> v;
    for (int i = 0; i < n; ++i) if (u.e[i].has) v.push_back(u.e[i].v);
    auto gu = real(u);
    int s = 50;
    int want = acc ? fold<M>(v, s, AccOp()) : fold<M>(v, s, grb::NoAccumulate());
    MC_SAY("reduce ", show(u), " accum=", acc, " into 50, expected ", want);
    if (acc) grb::reduce(s, AccOp(), M(), gu); else grb::reduce(s, grb::NoAccumulate(), M(), gu);
    mc::step();
    MC_CHECK(s == want, "reduce(vec->scalar): got ", s, " expected ", want);
    expect(gu, u, "input afterwards");
}
template <class M> void mats(mc::Ctx &c)
{
    static int const S[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 1}, {1, 4}};
    int s = c.choose(8);
    bool acc = c.flip();
    auto A = choose_mat<int>(c, S[s][0], S[s][1], 4, [](int p, int k) { return k == 1 ? prime(p) : k == 2 ? 0 : -2; });
    std::vector<int> v;
    for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) if (A.e[i][j].has) v.push_back(A.e[i][j].v);
    auto g = real(A);
    int x = 50;
    int want = acc ? fold<M>(v, x, AccOp()) : fold<M>(v, x, grb::NoAccumulate());
    MC_SAY("reduce ", show(A), " accum=", acc, " into 50, expected ", want);
    if (acc) grb::reduce(x, AccOp(), M(), g); else grb::reduce(x, grb::NoAccumulate(), M(), g);
    mc::step();
    MC_CHECK(x == want, "reduce(mat->scalar): got ", x, " expected ", want);
    expect(g, A, "input afterwards");
}
MC_SCENARIO(vec_scalar, 9)
{
    switch (c.choose(4))
    {
    case 0: return vecs<grb::PlusMonoid<int>>(c);
    case 1: return vecs<grb::TimesMonoid<int>>(c);
    case 2: return vecs<grb::MinMonoid<int>>(c);
    default: return vecs<grb::MaxMonoid<int>>(c);
    }
}
MC_SCENARIO(mat_scalar, 9)
{
    switch (c.choose(4))
    {
    case 0: return mats<grb::PlusMonoid<int>>(c);
    case 1: return mats<grb::TimesMonoid<int>>(c);
    case 2: return mats<grb::MinMonoid<int>>(c);
    default: return mats<grb::MaxMonoid<int>>(c);
    }
}
