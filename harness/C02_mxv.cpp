// C02: matrix-vector and vector-matrix multiply.
#include "../mc/ops.hpp"
using namespace ref;

// every shape up to 2, every content of everything
MC_SCENARIO(mxv_small, 9) { int m = 1 + c.choose(2), k = 1 + c.choose(2); Fill f; sweep<OpMxv>(c, m, k, 1, f); }
MC_SCENARIO(vxm_small, 9) { int m = 1 + c.choose(2), k = 1 + c.choose(2); Fill f; sweep<OpVxm>(c, m, k, 1, f); }

static void sh3(mc::Ctx &c, int &m, int &k)
{
    static int const S[][2] = {{1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 4}, {2, 4}, {4, 2}, {3, 3}};
    int s = c.choose(8);
    m = S[s][0]; k = S[s][1];
}
MC_SCENARIO(mxv_3, 9) { int m, k; sh3(c, m, k); Fill f; f.m = (m * k >= 8 && !mc::thorough) ? 2 : 3; if (m * k > 8 && !mc::thorough) f.c = 0; sweep<OpMxv>(c, m, k, 1, f); }
MC_SCENARIO(vxm_3, 9) { int m, k; sh3(c, m, k); Fill f; f.m = (m * k >= 8 && !mc::thorough) ? 2 : 3; if (m * k > 8 && !mc::thorough) f.c = 0; sweep<OpVxm>(c, m, k, 1, f); }

// stored zeros and cancellation with the usual semiring: values {1, 0, -1}
struct ZVal : DefVal {
    static int A(int, int k) { return k == 1 ? 1 : k == 2 ? 0 : -1; }
    static int B(int, int k) { return A(0, k); }
};
struct ArDom : IntDom { using SR = grb::ArithmeticSemiring<int>; };
struct MinSel : IntDom { using SR = grb::MinSecondSemiring<int>; };
struct MinPlus : IntDom { using SR = grb::MinPlusSemiring<int>; };
MC_SCENARIO(mxv_zero, 9) { int m = 1 + c.choose(2), k = 1 + c.choose(2); Fill f; f.a = f.b = 4; f.c = 0; f.m = 2; sweep<OpMxv, ArDom, ZVal>(c, m, k, 1, f); }
MC_SCENARIO(vxm_zero, 9) { int m = 1 + c.choose(2), k = 1 + c.choose(2); Fill f; f.a = f.b = 4; f.c = 0; f.m = 2; sweep<OpVxm, ArDom, ZVal>(c, m, k, 1, f); }
// selecting semirings: only one operand survives
MC_SCENARIO(mxv_sel, 9) { Fill f; f.c = 0; f.m = 2; if (c.flip()) sweep<OpMxv, MinSel>(c, 2, 3, 1, f); else sweep<OpMxv, MinPlus>(c, 3, 2, 1, f); }
MC_SCENARIO(vxm_sel, 9) { Fill f; f.c = 0; f.m = 2; if (c.flip()) sweep<OpVxm, MinSel>(c, 2, 3, 1, f); else sweep<OpVxm, MinPlus>(c, 3, 2, 1, f); }
