// C01: matrix-matrix multiply.
#include "../mc/mxmref.hpp"
using namespace ref;

// Everything about one call is chosen here; PATH is compiled once per transpose pair.
template <class SR>
static void one(mc::Ctx &c, int m, int k, int n, int nopt_in, int mkinds, bool fullC,
                int valmode, bool maskfull)
{
#ifdef TA
    bool const ta = TA;
#else
    bool const ta = c.flip();
#endif
#ifdef TB
    bool const tb = TB;
#else
    bool const tb = c.flip();
#endif
    int  mk  = c.choose(mkinds);
    bool acc = c.flip();
    bool rep = c.flip();
    auto va = [&](int p, int o) { return valmode ? (o == 1 ? 1 : o == 2 ? 0 : -1) : prime(p); };
    auto vb = [&](int p, int o) { return valmode ? (o == 1 ? 1 : o == 2 ? 0 : -1) : prime(p + 7); };
    Mat<int> A = choose_mat<int>(c, m, k, nopt_in, va);
    Mat<int> B = choose_mat<int>(c, k, n, nopt_in, vb);
    Mat<int> C(m, n);
    if (fullC) C = choose_mat<int>(c, m, n, 2, [](int p, int) { return 1000 + 100 * p; });
    else
    {
        int w = c.choose(3);   // empty, full, checkerboard
        for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j)
            if (w == 1 || (w == 2 && (i + j) % 2)) C.set(i, j, 1000 + 100 * (i * n + j));
    }
    Mat<int> M(m, n);
    if (mk != M_NONE)
    {
        if (maskfull) M = choose_mask<int>(c, mk, m, n);
        else M = choose_mat<int>(c, m, n, 2, [](int, int) { return 1; });
    }
    auto gA = real(ta ? A.tr() : A);
    auto gB = real(tb ? B.tr() : B);
    auto gC = real(C);
    auto gM = real(M);
    Mat<int> T = ref::mxm<int>(A, B, SR());
    Mat<int> E(C);
    with_acc(acc, [&](auto a) { write(E, T, mk, M, a, rep); });
    MC_SAY("mxm ", m, "x", k, "x", n, " A", ta ? "'" : "", "=", show(A), " B", tb ? "'" : "", "=", show(B), " C=", show(C),
           " mask=", mk_name(mk), " M=", show(M), " accum=", acc, " replace=", rep, " expected ", show(E));
    with_acc(acc, [&](auto a) {
        with_mask(mk, gM, [&](auto const &mask) {
            with_tr(ta, gA, [&](auto const &x) {
                with_tr(tb, gB, [&](auto const &y) { grb::mxm(gC, mask, a, SR(), x, y, outp(rep)); });
            });
        });
    });
    mc::step();
    expect(gC, E, "mxm output");
    expect(gA, ta ? A.tr() : A, "mxm input A");
    expect(gB, tb ? B.tr() : B, "mxm input B");
    if (mk) expect(gM, M, "mxm mask");
}

// all contents of A, B, C and of the mask (absent/true/stored false)
MC_SCENARIO(s222, 9)
{
    one<AsymSR<int>>(c, 2, 2, 2, 2, 5, mc::thorough, 0, mc::thorough);
}
// all shapes up to 2, with full freedom
MC_SCENARIO(shapes, 9)
{
    int m = 1 + c.choose(2), k = 1 + c.choose(2), n = 1 + c.choose(2);
    if (m + k + n == 6) throw mc::Prune();
    one<AsymSR<int>>(c, m, k, n, 2, 5, true, 0, true);
}
// longer rows and inner dimensions
MC_SCENARIO(wide, 9)
{
    static int const S[][3] = {{1, 3, 2}, {1, 2, 3}, {3, 1, 2}, {2, 1, 3}, {2, 3, 1}, {3, 2, 1}, {1, 4, 1}, {1, 1, 4}, {4, 1, 1}, {1, 3, 3}, {3, 3, 1}, {3, 1, 3}};
    int s = c.choose(12);
    bool big = S[s][0] * S[s][2] > 4 || S[s][1] * (S[s][0] + S[s][2]) > 9;
    one<AsymSR<int>>(c, S[s][0], S[s][1], S[s][2], 2, 5, !big, 0, !big);
}
// stored zeros and cancellation: values {1, 0, -1}
MC_SCENARIO(zeros, 9)
{
    int s = c.choose(3);
    static int const S[][3] = {{1, 2, 1}, {1, 2, 2}, {2, 2, 1}};
    one<grb::ArithmeticSemiring<int>>(c, S[s][0], S[s][1], S[s][2], 4, 2, false, 1, true);
}
