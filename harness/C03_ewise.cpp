// C03: element-wise add (union) and multiply (intersection).
#include "../mc/ops.hpp"
using namespace ref;
#ifndef OPU
#define OPU 1
#endif
using OV = OpEw<'v', OPU != 0>;
using OM = OpEw<'m', OPU != 0>;

#if WHAT == 0
MC_SCENARIO(vec, 9) { int n = 1 + c.choose(3); Fill f; sweep<OV>(c, n, 1, 1, f); }
MC_SCENARIO(vec4, 9) { Fill f; f.m = mc::thorough ? 3 : 2; sweep<OV>(c, 4, 1, 1, f); }
MC_SCENARIO(vec5, 9) { Fill f; f.c = 0; f.m = mc::thorough ? 2 : 0; sweep<OV>(c, 5, 1, 1, f); }
#else
MC_SCENARIO(mat_small, 9)
{
    static int const S[][2] = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}};
    int s = c.choose(5); Fill f; sweep<OM>(c, S[s][0], 1, S[s][1], f);
}
MC_SCENARIO(mat22, 9) { Fill f; if (!mc::thorough) f.m = 2; sweep<OM>(c, 2, 1, 2, f); }
MC_SCENARIO(mat23, 9) { bool t = c.flip(); Fill f; f.c = 0; f.m = mc::thorough ? 2 : 0; sweep<OM>(c, t ? 3 : 2, 1, t ? 2 : 3, f); }

#endif

// equal values, cancellation, stored zeros
struct ZVal : DefVal {
    static int A(int, int k) { return k == 1 ? 1 : k == 2 ? 0 : -1; }
    static int B(int, int k) { return A(0, k); }
};
struct PlusD : IntDom { using Bin = grb::Plus<int>; };
struct TimesD : IntDom { using Bin = grb::Times<int>; };
struct MinusD : IntDom { using Bin = grb::Minus<int>; };
struct MinM : IntDom { using Bin = grb::MinMonoid<int>; };        // a monoid used as the operator
struct LessD : IntDom { using Bin = grb::LessThan<int>; };        // bool result
struct SecondD : IntDom { using Bin = grb::Second<int>; };
template <class O> void pick(mc::Ctx &c, int m, int n, Fill const &f)
{
    switch (c.choose(6))
    {
    case 0: return sweep<O, PlusD, ZVal>(c, m, 1, n, f);
    case 1: return sweep<O, TimesD, ZVal>(c, m, 1, n, f);
    case 2: return sweep<O, MinusD, ZVal>(c, m, 1, n, f);
    case 3: return sweep<O, MinM, ZVal>(c, m, 1, n, f);
    case 4: return sweep<O, LessD, ZVal>(c, m, 1, n, f);
    default: return sweep<O, SecondD, ZVal>(c, m, 1, n, f);
    }
}
#if WHAT == 0
MC_SCENARIO(vec_zero, 9) { Fill f; f.a = f.b = 4; f.c = 0; f.m = 2; pick<OV>(c, 3, 1, f); }
#else
MC_SCENARIO(mat_zero, 9)
{
    static int const S[][2] = {{1, 3}, {2, 1}, {1, 2}, {3, 1}, {2, 2}};
    int s = c.choose(mc::thorough ? 5 : 4);
    Fill f; f.a = f.b = 4; f.c = 0; f.m = 0; if (!mc::thorough) f.mkinds = 2; pick<OM>(c, S[s][0], S[s][1], f);
}
#endif
