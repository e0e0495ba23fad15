// C06: apply with unary operators and with bound binary operators.
#include "../mc/ops.hpp"
using namespace ref;
template <int MODE> void v(mc::Ctx &c) { int n = 1 + c.choose(4); Fill f; if (n == 4) f.m = 2; sweep<OpApp<'v', MODE>>(c, n, 1, 1, f); }
template <int MODE> void m(mc::Ctx &c)
{
    static int const S[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};
    int s = c.choose(8); Fill f; if (s > 5) { f.m = mc::thorough ? 2 : 0; } sweep<OpApp<'m', MODE>>(c, S[s][0], 1, S[s][1], f);
}
MC_SCENARIO(vec_unary, 9) { v<0>(c); }
MC_SCENARIO(vec_bind1st, 9) { v<1>(c); }
MC_SCENARIO(vec_bind2nd, 9) { v<2>(c); }
MC_SCENARIO(mat_unary, 9) { m<0>(c); }
MC_SCENARIO(mat_bind1st, 9) { m<1>(c); }
MC_SCENARIO(mat_bind2nd, 9) { m<2>(c); }

// the library's own operators over values that include stored zeros; the
// element type of the output differs from the input's (bool results)
struct ZVal : DefVal { static int A(int, int k) { return k == 1 ? 1 : k == 2 ? 0 : -1; } };
template <class U, class B> struct Dm : IntDom { using Un = U; using Bin = B; };
template <char K, class DD> void lib1(mc::Ctx &c, int mm, int n, Fill const &f)
{
    switch (c.choose(3))
    {
    case 0: return sweep<OpApp<K, 0>, DD, ZVal>(c, mm, 1, n, f);
    case 1: return sweep<OpApp<K, 1>, DD, ZVal>(c, mm, 1, n, f);
    default: return sweep<OpApp<K, 2>, DD, ZVal>(c, mm, 1, n, f);
    }
}
template <char K> void lib(mc::Ctx &c, int mm, int n)
{
    Fill f; f.a = 4; f.c = 0; f.m = 0;
    switch (c.choose(4))
    {
    case 0: return lib1<K, Dm<grb::AdditiveInverse<int>, grb::Minus<int>>>(c, mm, n, f);
    case 1: return lib1<K, Dm<grb::LogicalNot<int>, grb::LessThan<int>>>(c, mm, n, f);
    case 2: return lib1<K, Dm<grb::Abs<int>, grb::First<int>>>(c, mm, n, f);
    default: return lib1<K, Dm<grb::Identity<int>, grb::Second<int>>>(c, mm, n, f);
    }
}
MC_SCENARIO(lib_vec, 9) { lib<'v'>(c, 3, 1); }
MC_SCENARIO(lib_mat, 9) { lib<'m'>(c, 2, 2); }
