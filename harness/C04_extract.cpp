// C04: extract (vector, matrix, column).
#include "../mc/ops.hpp"
using namespace ref;
#if PART == 0
MC_SCENARIO(vec, 9) { int m = 1 + c.choose(3), k = 1 + c.choose(3); Fill f; sweep<OpExtV>(c, m, k, 1, f); }
MC_SCENARIO(vec4, 9) { int m = 2 + c.choose(3), k = 4; Fill f; f.c = 0; f.m = m == 4 ? 0 : 2; sweep<OpExtV>(c, m, k, 1, f); }
MC_SCENARIO(col, 9)
{
    static int const S[][3] = {{1, 1, 2}, {2, 2, 2}, {1, 3, 1}, {3, 2, 2}, {2, 3, 2}, {2, 2, 3}, {3, 3, 1}};
    int s = c.choose(7); Fill f; f.m = s > 2 && !mc::thorough ? 2 : 3; sweep<OpExtC>(c, S[s][0], S[s][1], S[s][2], f);
}
MC_SCENARIO(col33, 9) { Fill f; f.c = 0; f.m = 0; sweep<OpExtC>(c, 3, 3, 3, f); }
#else
MC_SCENARIO(mat_small, 9)
{
    static int const S[][3] = {{1, 2, 1}, {1, 2, 2}, {2, 2, 1}, {1, 1, 1}, {2, 1, 2}};
    int s = c.choose(5); Fill f; sweep<OpExtM>(c, S[s][0], S[s][1], S[s][2], f);
}
MC_SCENARIO(mat22, 9) { Fill f; f.m = mc::thorough ? 3 : 0; sweep<OpExtM>(c, 2, 2, 2, f); }
MC_SCENARIO(mat3, 9)   // 3x3 source
{
    static int const S[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {3, 3}};
    int s = c.choose(mc::thorough ? 7 : 6); Fill f; f.c = 0; f.m = 0;
    if (s == 3) f.mkinds = 2;
    if (s > 3) f.mkinds = 2;
    sweep<OpExtM>(c, S[s][0], 3, S[s][1], f);
}
#endif
