// Long rows where it matters which places are present: one operand (or the
// output, or the mask) runs through every single place, every gap, every prefix,
// suffix and window, and every pair, against dense or irregular others.
// WHICH selects the operations as in BIG_ops.cpp.
#define REF_BIG
#include "../mc/ops.hpp"
using namespace ref;
static int len(mc::Ctx &c)
{
    static int const Q[] = {10, 17, 33, 70}, T[] = {8, 9, 10, 16, 17, 24, 33, 40, 65, 70, 129};
    return mc::thorough ? T[c.choose(11)] : Q[c.choose(4)];
}
// who runs through the places: bit 0 A, 1 B, 2 C, 3 mask
template <class OP> static Fill who(mc::Ctx &c)
{
    Fill f;
    int  n = 1 + (OP::A != 'n') + (OP::B != 'n') + 1, k = c.choose(n);
    f.a = f.b = f.c = DENSE2; f.m = DENSE2;
    int *q[4]; int z = 0;
    if (OP::A != 'n') q[z++] = &f.a;
    if (OP::B != 'n') q[z++] = &f.b;
    q[z++] = &f.c; q[z++] = &f.m;
    *q[k] = POS;
    if (k == 0 && OP::B != 'n') f.b = DENSE;
    if (k == 1 && OP::B != 'n') f.a = DENSE;
    return f;
}
#define SC(nm) MC_SCENARIO(nm, 6)
// 1 x L, L x 1 and 2 x L
#if WHICH == 1
SC(pos_inner) { int L = len(c); sweep<OpMxm>(c, 1, L, 1, who<OpMxm>(c)); }
SC(pos_inner2) { int L = len(c); sweep<OpMxm>(c, 2, L, 2, who<OpMxm>(c)); }
SC(pos_outer) { int L = len(c); sweep<OpMxm>(c, 1, 2, L, who<OpMxm>(c)); }
SC(pos_tall) { int L = len(c); sweep<OpMxm>(c, L, 2, 1, who<OpMxm>(c)); }
#elif WHICH == 2
SC(pos_mxv) { int L = len(c); sweep<OpMxv>(c, 2, L, 1, who<OpMxv>(c)); }
SC(pos_mxv_tall) { int L = len(c); sweep<OpMxv>(c, L, 2, 1, who<OpMxv>(c)); }
SC(pos_vxm) { int L = len(c); sweep<OpVxm>(c, 2, L, 1, who<OpVxm>(c)); }
SC(pos_vxm_tall) { int L = len(c); sweep<OpVxm>(c, L, 2, 1, who<OpVxm>(c)); }
#elif WHICH == 3
SC(pos_addv) { int L = len(c); sweep<OpAddV>(c, L, 1, 1, who<OpAddV>(c)); }
SC(pos_multv) { int L = len(c); sweep<OpMultV>(c, L, 1, 1, who<OpMultV>(c)); }
SC(pos_addm) { int L = len(c); sweep<OpAddM>(c, 2, 1, L, who<OpAddM>(c)); }
SC(pos_multm) { int L = len(c); sweep<OpMultM>(c, 2, 1, L, who<OpMultM>(c)); }
#elif WHICH == 4
static int shorter(mc::Ctx &c) { return mc::thorough ? len(c) : c.flip() ? 17 : 10; }
SC(pos_extv) { int L = shorter(c); sweep<OpExtV>(c, c.flip() ? L : L - 3, L, 1, who<OpExtV>(c)); }
SC(pos_extm) { int L = 10; sweep<OpExtM>(c, 2, L, L, who<OpExtM>(c)); }
SC(pos_extc) { int L = shorter(c); sweep<OpExtC>(c, L, L, 2, who<OpExtC>(c)); }
#elif WHICH == 5
static int shorter(mc::Ctx &c) { return mc::thorough ? len(c) : c.flip() ? 17 : 10; }
SC(pos_asgv) { int L = shorter(c); sweep<OpAsgV>(c, L, c.flip() ? L : L / 2, 1, who<OpAsgV>(c)); }
SC(pos_asgcv) { int L = shorter(c); sweep<OpAsgCV>(c, L, c.flip() ? L : L / 2, 1, who<OpAsgCV>(c)); }
SC(pos_asgm) { int L = 10; sweep<OpAsgM>(c, 2, SB * 2 + (c.flip() ? L : L / 2), L, who<OpAsgM>(c)); }
SC(pos_asgcm) { int L = 10; sweep<OpAsgCM>(c, 2, SB * 2 + (c.flip() ? L : L / 2), L, who<OpAsgCM>(c)); }
SC(pos_asgcol) { int L = shorter(c); sweep<OpAsgCol>(c, L, L / 2, 2, who<OpAsgCol>(c)); }
SC(pos_asgrow) { int L = shorter(c); sweep<OpAsgRow>(c, 2, L / 2, L, who<OpAsgRow>(c)); }
#elif WHICH == 6
template <int MODE> void v(mc::Ctx &c) { int L = len(c); sweep<OpApp<'v', MODE>>(c, L, 1, 1, who<OpApp<'v', MODE>>(c)); }
template <int MODE> void m(mc::Ctx &c) { int L = len(c); sweep<OpApp<'m', MODE>>(c, 2, 1, L, who<OpApp<'m', MODE>>(c)); }
SC(pos_v0) { v<0>(c); }
SC(pos_v1) { v<1>(c); }
SC(pos_v2) { v<2>(c); }
SC(pos_m0) { m<0>(c); }
SC(pos_m1) { m<1>(c); }
SC(pos_m2) { m<2>(c); }
#elif WHICH == 7
SC(pos_rows) { int L = len(c); sweep<OpRed>(c, 2, L, 1, who<OpRed>(c)); }
SC(pos_rows_tall) { int L = len(c); sweep<OpRed>(c, L, 2, 1, who<OpRed>(c)); }
#elif WHICH == 8
SC(pos_transpose) { int L = len(c), s = c.flip(); sweep<OpTr>(c, s ? L : 2, 1, s ? 2 : L, who<OpTr>(c)); }
SC(pos_kron)
{
    int L = c.flip() ? 10 : 17, s = c.choose(4);
    int A = s == 0 ? SB + L : s == 1 ? SB * L + 1 : s == 2 ? SB + 2 : SB * 2 + 1;
    int B = s == 0 ? SB * 2 + 2 : s == 1 ? SB * 1 + 2 : s == 2 ? SB + L : SB * L + 1;
    sweep<OpKron>(c, A, 1, B, who<OpKron>(c));
}
#endif
