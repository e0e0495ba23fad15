// C05: assign (vector, matrix, row, column, constants).
#include "../mc/ops.hpp"
using namespace ref;
#if PART == 0
MC_SCENARIO(vec, 9) { int m = 1 + c.choose(3), k = 1 + c.choose(m); Fill f; sweep<OpAsgV>(c, m, k, 1, f); }
MC_SCENARIO(vec4, 9) { int m = 4, k = 1 + c.choose(m); Fill f; f.m = k > 2 && !mc::thorough ? 0 : 2; sweep<OpAsgV>(c, m, k, 1, f); }
MC_SCENARIO(const_vec, 9) { int m = 1 + c.choose(4), k = c.choose(m + 1); Fill f; f.m = m > 3 ? 2 : 3; sweep<OpAsgCV>(c, m, k, 1, f); }
MC_SCENARIO(const_mat, 9)
{
    int m = 1 + c.choose(2), n = 1 + c.choose(2), a = c.choose(m + 1), b = c.choose(n + 1);
    Fill f; sweep<OpAsgCM>(c, m, 10 * a + b, n, f);
}
MC_SCENARIO(const_mat3, 9)
{
    int m = 2 + c.choose(2), n = 5 - m, a = 1 + c.choose(m), b = 1 + c.choose(n);
    Fill f; f.m = mc::thorough ? 2 : 0; sweep<OpAsgCM>(c, m, 10 * a + b, n, f);
}
#elif PART == 1
MC_SCENARIO(mat, 9)
{
    int m = 1 + c.choose(2), n = 1 + c.choose(2), a = 1 + c.choose(m), b = 1 + c.choose(n);
    Fill f; sweep<OpAsgM>(c, m, 10 * a + b, n, f);
}
MC_SCENARIO(mat3, 9)
{
    static int const S[][4] = {{3, 3, 1, 1}, {3, 3, 1, 2}, {3, 3, 2, 1}, {3, 3, 2, 2}, {3, 2, 3, 2}, {2, 3, 2, 3}, {1, 3, 1, 3}, {3, 1, 3, 1}, {3, 3, 1, 3}, {3, 3, 3, 1}, {3, 3, 3, 3}};
    int s = c.choose(mc::thorough ? 11 : 10); Fill f; f.c = 0; f.m = 0; if (s == 10) f.mkinds = 2;
    sweep<OpAsgM>(c, S[s][0], S[s][2] * 10 + S[s][3], S[s][1], f);
}
#else
MC_SCENARIO(row, 9)
{
    int m = 1 + c.choose(2), n = 1 + c.choose(3), k = 1 + c.choose(n);
    Fill f; if (m * n > 4) f.m = 2; sweep<OpAsgRow>(c, m, k, n, f);
}
MC_SCENARIO(col, 9)
{
    int m = 1 + c.choose(3), n = 1 + c.choose(2), k = 1 + c.choose(m);
    Fill f; if (m * n > 4) f.m = 2; sweep<OpAsgCol>(c, m, k, n, f);
}
MC_SCENARIO(rowcol33, 9)
{
    int k = 1 + c.choose(3); Fill f; f.c = 0; f.m = 2;
    if (c.flip()) sweep<OpAsgRow>(c, 3, k, 3, f); else sweep<OpAsgCol>(c, 3, k, 3, f);
}
#endif
