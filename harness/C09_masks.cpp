// C09: one rule for masks, accumulators and replace, for every operation and
// every kind of mask, with masks over any element type.
#include "../mc/ops.hpp"
using namespace ref;
#ifndef MASKT
#define MASKT double
#define MTK 0
#endif
// 4 options per mask cell: absent, a "nonzero" that a careless conversion turns
// into zero, stored zero, another nonzero
struct MVal : DefVal {
    static MASKT M(int, int k)
    {
        if (k == 2) return MASKT(0);
#if MTK == 0
        return k == 1 ? 0.5 : -0.25;                       // |x| < 1
#elif MTK == 1
        return k == 1 ? MASKT(1) << 40 : MASKT(256);             // low bits zero
#else
        return k == 1 ? MASKT(2) : MASKT(-1);                    // neither 0 nor 1
#endif
    }
};
template <class OP> void go(mc::Ctx &c, int m, int k, int n, bool big = false)
{
    Fill f;
    f.a = f.b = 0;
    f.c = big ? 0 : 2;
    f.m = big && !mc::thorough ? 3 : 4;
    if (big) { f.a = f.b = 0; }
    sweep<OP, IntDom, MVal, int, MASKT>(c, m, k, n, f);
}
#define T(nm, OP, m, k, n, big) MC_SCENARIO(nm, 8) { go<OP>(c, m, k, n, big); }
#if PART == 0
T(mxm, OpMxm, 2, 2, 2, true)
T(mxm_row, OpMxm, 1, 2, 3, false)
T(mxv, OpMxv, 3, 2, 1, false)
T(vxm, OpVxm, 3, 2, 1, false)
#elif PART == 1
T(addm, OpAddM, 2, 1, 2, true)
T(addv, OpAddV, 3, 1, 1, false)
T(multm, OpMultM, 2, 1, 2, true)
T(multv, OpMultV, 3, 1, 1, false)
T(kron, OpKron, 11, 1, 22, true)
#elif PART == 2
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
using B0 = OpApp<'v', 0>; using B1 = OpApp<'v', 1>; using B2 = OpApp<'v', 2>;
T(am0, A0, 2, 1, 2, true)
T(am1, A1, 2, 1, 2, true)
T(am2, A2, 2, 1, 2, true)
T(av0, B0, 3, 1, 1, false)
T(av1, B1, 3, 1, 1, false)
T(av2, B2, 3, 1, 1, false)
T(red, OpRed, 3, 2, 1, false)
T(tr, OpTr, 2, 1, 2, true)
#elif PART == 3
T(extv, OpExtV, 3, 3, 1, false)
T(extm, OpExtM, 2, 2, 2, true)
T(extc, OpExtC, 3, 2, 2, false)
#else
T(asgv, OpAsgV, 3, 2, 1, false)
T(asgm, OpAsgM, 2, 22, 2, true)
T(asgm1, OpAsgM, 2, 12, 2, true)
T(asgcol, OpAsgCol, 3, 2, 2, true)
T(asgrow, OpAsgRow, 2, 2, 3, true)
T(asgcv, OpAsgCV, 3, 2, 1, false)
T(asgcm, OpAsgCM, 2, 12, 2, true)
#endif
