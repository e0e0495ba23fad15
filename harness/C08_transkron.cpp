// C08: transpose and Kronecker product.
#include "../mc/ops.hpp"
using namespace ref;
#if PART == 0
MC_SCENARIO(transpose, 9)
{
    static int const S[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {1, 4}, {4, 1}};
    int s = c.choose(8); Fill f; sweep<OpTr>(c, S[s][0], 1, S[s][1], f);
}
MC_SCENARIO(transpose6, 9)
{
    static int const S[][2] = {{2, 3}, {3, 2}, {1, 5}, {5, 1}};
    int s = c.choose(4); Fill f; f.m = 2; if (!mc::thorough) f.c = 0; sweep<OpTr>(c, S[s][0], 1, S[s][1], f);
}
MC_SCENARIO(transpose33, 9) { Fill f; f.c = 0; f.m = 0; sweep<OpTr>(c, 3, 1, 3, f); }
#else
MC_SCENARIO(kron_small, 9)
{
    static int const S[][2] = {{11, 11}, {12, 11}, {11, 12}, {21, 11}, {11, 21}, {22, 11}, {11, 22}, {12, 21}, {21, 12}, {12, 12}, {21, 21}};
    int s = c.choose(11); Fill f; f.m = s > 4 && !mc::thorough ? 2 : 3; sweep<OpKron>(c, S[s][0], 1, S[s][1], f);
}
MC_SCENARIO(kron_mid, 9)
{
    static int const S[][2] = {{22, 12}, {22, 21}, {12, 22}, {21, 22}, {22, 22}, {13, 12}, {31, 21}, {32, 12}, {23, 21}};
    int s = c.choose(9); Fill f; f.c = 0; f.m = 0; sweep<OpKron>(c, S[s][0], 1, S[s][1], f);
}
#endif
