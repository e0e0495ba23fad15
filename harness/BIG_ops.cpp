// The operations on containers far larger than the exhaustive sweeps reach:
// structured contents (alternating with stored falses in masks, full, last
// element only, empty, ...) for a ladder of row lengths and row counts, every
// mask form, accumulate or not, merge or replace, views, structured index lists.
// WHICH selects the operation.
#define REF_BIG
#include "../mc/ops.hpp"
using namespace ref;
static int const LADDER[] = {9, 20, 41, 70, 131, 300, 1100};
// patterns per operand, fewer for the longest
static Fill big(int L)
{
    Fill f;
    f.a = f.b = L <= 70 ? -5 : L <= 140 ? -4 : -2;
    f.c = L <= 70 ? -3 : -2;
    f.m = L <= 140 ? -3 : -2;
    if (mc::thorough) { f.a = f.b = L <= 140 ? -7 : -4; f.c = -4; f.m = -5; }
    return f;
}
static int ladder(mc::Ctx &c) { return LADDER[c.choose(7)]; }
#define SC(nm) MC_SCENARIO(nm, 6)
[[maybe_unused]] static int side(int x, int L) { return x ? L : 2; }

#if WHICH == 1
SC(long_mxm)
{
    int L = ladder(c), s = c.choose(L <= 20 ? 4 : 3);
    Fill f = big(L);
    if (L > 20 && !mc::thorough) f.a = f.b = std::max(f.a, -2), f.c = std::max(f.c, -2), f.m = std::max(f.m, -2);
    sweep<OpMxm>(c, s == 0 || s == 3 ? L : 2, s == 1 || s == 3 ? L : 2, s == 2 || s == 3 ? L : 2, f);
}
#elif WHICH == 2
SC(long_mxv) { int L = ladder(c), s = c.choose(L <= 41 ? 3 : 2); sweep<OpMxv>(c, side(s != 1, L), side(s != 0, L), 1, big(L)); }
SC(long_vxm) { int L = ladder(c), s = c.choose(L <= 41 ? 3 : 2); sweep<OpVxm>(c, side(s != 1, L), side(s != 0, L), 1, big(L)); }
#elif WHICH == 3
SC(long_addv) { int L = ladder(c); sweep<OpAddV>(c, L, 1, 1, big(L)); }
SC(long_multv) { int L = ladder(c); sweep<OpMultV>(c, L, 1, 1, big(L)); }
SC(long_addm) { int L = ladder(c), s = c.choose(2); Fill f = big(L); f.a = f.b = std::max(f.a, -3); f.c = std::max(f.c, -2); f.m = std::max(f.m, -2); sweep<OpAddM>(c, side(s, L), 1, side(!s, L), f); }
SC(long_multm) { int L = ladder(c), s = c.choose(2); Fill f = big(L); f.a = f.b = std::max(f.a, -3); f.c = std::max(f.c, -2); f.m = std::max(f.m, -2); sweep<OpMultM>(c, side(s, L), 1, side(!s, L), f); }
#elif WHICH == 4
SC(long_extv) { int L = ladder(c), s = c.choose(3); sweep<OpExtV>(c, s == 0 ? L : s == 1 ? L / 2 : L + 3, L, 1, big(L)); }
SC(long_extm) { int L = ladder(c); if (L > 140) L = 100; Fill f = big(L); f.a = f.c = f.m = L <= 20 ? -2 : -1; sweep<OpExtM>(c, 3, L, c.flip() ? L : 2, f); }
SC(long_extc) { int L = ladder(c), s = c.choose(2); sweep<OpExtC>(c, side(!s, L), side(!s, L), s ? 300 : 2, [&] { Fill f; f.a = f.c = f.m = L <= 140 && !s ? -2 : -1; return f; }()); }
#elif WHICH == 5
SC(long_asgv) { int L = ladder(c), s = c.choose(2); sweep<OpAsgV>(c, L, s ? L : L / 2, 1, big(L)); }
SC(long_asgcv) { int L = ladder(c), s = c.choose(2); sweep<OpAsgCV>(c, L, s ? L : L / 2, 1, big(L)); }
SC(long_asgm) { int L = ladder(c), s = c.choose(2); if (L > 300) L = 400; Fill f = big(L); f.a = f.c = f.m = L <= 41 ? -2 : -1; sweep<OpAsgM>(c, side(s, L), s ? SB * (L / 2) + 2 : SB * 2 + L, side(!s, L), f); }
SC(long_asgcm) { int L = ladder(c), s = c.choose(2); if (L > 300) L = 400; Fill f = big(L); f.c = f.m = L <= 41 ? -2 : -1; sweep<OpAsgCM>(c, side(s, L), s ? SB * (L / 2) + 2 : SB * 2 + L, side(!s, L), f); }
static Fill few(int L) { Fill f; f.a = f.c = f.m = L <= 41 ? -2 : -1; return f; }
SC(long_asgcol) { int L = ladder(c); sweep<OpAsgCol>(c, L, L / 2, 3, few(L)); }
SC(long_asgrow) { int L = ladder(c); sweep<OpAsgRow>(c, 3, L / 2, L, few(L)); }
#elif WHICH == 6
template <int MODE> void v(mc::Ctx &c) { int L = ladder(c); sweep<OpApp<'v', MODE>>(c, L, 1, 1, big(L)); }
template <int MODE> void m(mc::Ctx &c) { int L = ladder(c), s = c.choose(2); sweep<OpApp<'m', MODE>>(c, side(s, L), 1, side(!s, L), big(L)); }
SC(long_v0) { v<0>(c); }
SC(long_v1) { v<1>(c); }
SC(long_v2) { v<2>(c); }
SC(long_m0) { m<0>(c); }
SC(long_m1) { m<1>(c); }
SC(long_m2) { m<2>(c); }
#elif WHICH == 7
SC(long_rows) { int L = ladder(c), s = c.choose(2); sweep<OpRed>(c, side(s, L), side(!s, L), 1, big(L)); }
// scalar results
SC(long_scalar)
{
    int  L = ladder(c), s = c.choose(3);
    bool acc = c.flip();
    P    p;
    int  want = 0, n = 0, x = 50;
    auto finish = [&] { if (acc) want = AccOp()(50, want); };
    if (s == 2)
    {
        auto u = fill(c, Vec<int>(L), -7, DefVal::A);
        for (int i = 0; i < L; ++i) if (u.e[i].has) { want += u.e[i].v; ++n; }
        finish();
        auto g = real(u);
        if (acc) grb::reduce(x, AccOp(), grb::PlusMonoid<int>(), g); else grb::reduce(x, grb::NoAccumulate(), grb::PlusMonoid<int>(), g);
        expect(g, u, "input afterwards");
    }
    else
    {
        auto A = fill(c, Mat<int>(side(s, L), side(!s, L)), -7, DefVal::A);
        for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) if (A.e[i][j].has) { want += A.e[i][j].v; ++n; }
        finish();
        auto g = real(A);
        if (acc) grb::reduce(x, AccOp(), grb::PlusMonoid<int>(), g); else grb::reduce(x, grb::NoAccumulate(), grb::PlusMonoid<int>(), g);
        expect(g, A, "input afterwards");
    }
    mc::step();
    MC_CHECK(x == want, "reduce of ", n, " values of length ", L, " to a scalar: got ", x, " expected ", want);
}
#elif WHICH == 8
SC(long_transpose) { int L = ladder(c), s = c.choose(2); sweep<OpTr>(c, side(s, L), 1, side(!s, L), big(L)); }
SC(long_kron)
{
    int L = ladder(c), s = c.choose(4);
    Fill f = big(L); f.a = f.b = std::max(f.a, -3); f.c = std::max(f.c, -2); f.m = std::max(f.m, -2);
    int A = s == 0 ? SB + L : s == 1 ? SB * L + 1 : s == 2 ? SB + 2 : SB * 2 + 1;
    int B = s == 0 ? SB * 2 + 2 : s == 1 ? SB * 1 + 2 : s == 2 ? SB + L : SB * L + 1;
    sweep<OpKron>(c, A, 1, B, f);
}
#endif
