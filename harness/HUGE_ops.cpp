// Every operation on hyper-sparse matrices: few rows, but up to 2^62 columns, with
// the (few) stored entries at the places where an index kept in a narrower or
// another type would collide, become negative or change its order.  The model is
// the small matrix of the stored places.  WHICH selects the operations as in
// BIG_ops.cpp; 10 is the container itself.
#define REF_HUGE
#define MC_COSTGUARD
#if WHICH != 1                              // a transposed operand would have the huge dimension as rows
#define TA 0
#define TB 0
#endif
#define FEWMASKS
#include "../mc/ops.hpp"
using namespace ref;

static constexpr Idx K = 1;
static void choose_map(mc::Ctx &c, bool small = false)
{
    static HugeMap const maps[] = {
        {(K << 8) + 2, {(K << 8) - 1, K << 8, (K << 8) + 1}},
        {(K << 16) + 2, {(K << 16) - 1, K << 16, (K << 16) + 1}},
        {(K << 32) + 2, {1, K << 32, (K << 32) + 1}},
        {K << 32, {(K << 31) - 1, K << 31, (K << 32) - 1}},
        {(K << 32) + 2, {(K << 32) - 1, K << 32, (K << 32) + 1}},
        {(K << 53) + 2, {0, K << 53, (K << 53) + 1}},
        {K << 62, {3, K << 61, (K << 62) - 1}},
        {(K << 33) + 7, {5, (K << 32) + 5, (K << 33) + 5}},
    };
    huge = maps[c.choose(small ? 2 : 8)];
}
template <class OP> void one(mc::Ctx &c, int m, int k, int n, int a, int b, int cc, int mm)
{
    choose_map(c, std::is_same_v<OP, OpAsgRow>);   // (the library widens the row to a vector)
    Fill f;
    f.a = a; f.b = b; f.c = cc; f.m = mm;
    if (mm == 1) f.mkinds = 1;
    else if (WHICH != 1 && huge.N > 1000) f.mkinds = 2;      // (a complement lists the whole row)
    sweep<OP>(c, m, k, n, f);
}
#if WHICH == 1
#if TA == 0 && TB == 0
MC_SCENARIO(m123, 8) { one<OpMxm>(c, 1, 2, 3, 2, 2, 2, 3); }
MC_SCENARIO(m223, 8) { one<OpMxm>(c, 2, 2, 3, 2, 2, 0, 0); }
#elif TA == 1 && TB == 0
MC_SCENARIO(m123, 8) { one<OpMxm>(c, 1, 2, 3, 2, 2, 2, 3); }
MC_SCENARIO(m213, 8) { one<OpMxm>(c, 2, 1, 3, 2, 2, 0, 0); }
MC_SCENARIO(m223, 8) { one<OpMxm>(c, 2, 2, 3, 2, 2, 0, 0); }
#elif TA == 0 && TB == 1
MC_SCENARIO(m232, 8) { one<OpMxm>(c, 2, 3, 2, 2, 2, 0, 0); }
MC_SCENARIO(m132, 8) { one<OpMxm>(c, 1, 3, 2, 2, 2, 2, 3); }
#else
#error no huge dimension
#endif
#elif WHICH == 3
MC_SCENARIO(add, 8) { one<OpAddM>(c, 1, 0, 3, 2, 2, 2, 3); }
MC_SCENARIO(mult, 8) { one<OpMultM>(c, 1, 0, 3, 2, 2, 2, 3); }
MC_SCENARIO(add2, 8) { one<OpAddM>(c, 2, 0, 3, 2, 2, 0, 0); }
MC_SCENARIO(mult2, 8) { one<OpMultM>(c, 2, 0, 3, 2, 2, 0, 0); }
#elif WHICH == 4
MC_SCENARIO(extm, 8) { one<OpExtM>(c, 2, 3, 2, 0, 1, 0, 0); }
MC_SCENARIO(extm12, 8) { one<OpExtM>(c, 1, 3, 2, 2, 1, 0, 0); }
MC_SCENARIO(extm14, 8) { one<OpExtM>(c, 1, 3, 4, 0, 1, 0, 1); }
MC_SCENARIO(extc, 8) { one<OpExtC>(c, 2, 2, 3, 2, 1, 2, 3); }
#elif WHICH == 5
MC_SCENARIO(asgm, 8) { one<OpAsgM>(c, 2, 12, 3, 2, 1, 2, 0); }
MC_SCENARIO(asgm22, 8) { one<OpAsgM>(c, 2, 22, 3, 2, 1, 0, 0); }
MC_SCENARIO(asgcol, 8) { one<OpAsgCol>(c, 2, 2, 3, 2, 1, 2, 3); }
MC_SCENARIO(asgrow, 8) { one<OpAsgRow>(c, 2, 2, 3, 2, 1, 2, 1); }
MC_SCENARIO(asgcm, 8) { one<OpAsgCM>(c, 2, 12, 3, 1, 1, 2, 0); }
MC_SCENARIO(asgcm22, 8) { one<OpAsgCM>(c, 2, 22, 3, 1, 1, 2, 0); }
#elif WHICH == 6
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
MC_SCENARIO(un, 8) { one<A0>(c, 2, 0, 3, 2, 1, 0, 3); }
MC_SCENARIO(first, 8) { one<A1>(c, 2, 0, 3, 2, 1, 0, 3); }
MC_SCENARIO(second, 8) { one<A2>(c, 2, 0, 3, 2, 1, 0, 3); }
MC_SCENARIO(un1, 8) { one<A0>(c, 1, 0, 3, 2, 1, 2, 3); }
#elif WHICH == 7
MC_SCENARIO(rows, 8) { one<OpRed>(c, 2, 3, 0, 2, 1, 2, 3); }
MC_SCENARIO(scalar, 6)
{
    choose_map(c);
    auto A = choose_mat<int>(c, 2, 3, 2, [](int p, int) { return prime(p); });
    bool acc = c.flip();
    auto g = real(A);
    int  t = 0, x = 50;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (A.e[i][j].has) t += A.e[i][j].v;
    MC_SAY("reduce ", show(A), " accum=", acc);
    if (acc) grb::reduce(x, grb::Minus<int>(), grb::PlusMonoid<int>(), g); else grb::reduce(x, grb::NoAccumulate(), grb::PlusMonoid<int>(), g);
    mc::step();
    MC_CHECK(x == (acc ? 50 - t : t), "got ", x);
    expect(g, A, "input afterwards");
}
#elif WHICH == 8
static void kron(mc::Ctx &c, int m, int n, int cc, int mm)
{
    choose_map(c);
    Fill f;
    f.a = 2; f.b = 2; f.c = cc; f.m = mm;
    if (huge.N > 1000) f.mkinds = 2;
    if (m % SB == 3) huge.inner = false; else huge.inner = true;
    sweep<OpKron>(c, m, 0, n, f);
}
MC_SCENARIO(k13_11, 8) { kron(c, 13, 11, 2, 3); }
MC_SCENARIO(k11_13, 8) { kron(c, 11, 13, 2, 3); }
MC_SCENARIO(k13_21, 8) { kron(c, 13, 21, 0, 0); }
MC_SCENARIO(k13_12, 8) { kron(c, 13, 12, 0, 0); }
MC_SCENARIO(k12_13, 8) { kron(c, 12, 13, 0, 0); }
MC_SCENARIO(k13_22, 8) { kron(c, 13, 22, 0, 0); }
MC_SCENARIO(k22_13, 8) { kron(c, 22, 13, 0, 0); }
#elif WHICH == 10
// every history of a few calls on a matrix of two rows, from every content
static void history(mc::Ctx &c, int depth)
{
    choose_map(c);
    auto A = choose_mat<int>(c, 2, 3, 2, [](int p, int) { return prime(p); });
    auto g = real(A);
    MC_SAY("start ", show(A), " N=", huge.N);
    for (int d = 0; d < depth; ++d)
    {
        int a = c.choose(9), i, j;
        switch (a)
        {
        case 0: i = c.choose(2); j = c.choose(3); MC_SAY("set ", i, ",", huge.h[j]); g.setElement(i, huge.h[j], 50 + d); A.set(i, j, 50 + d); break;
        case 1: i = c.choose(2); j = c.choose(3); MC_SAY("remove ", i, ",", huge.h[j]); g.removeElement(i, huge.h[j]); A.del(i, j); break;
        case 2:
        {   // shrink and grow the columns
            j = c.choose(3); i = 1 + c.choose(2);
            Idx n = huge.h[j] + (c.flip() ? 1 : 0);
            if (n == 0) break;
            MC_SAY("resize ", i, "x", n, " and back");
            g.resize(i, n);
            MC_CHECK(g.ncols() == n && g.nrows() == Idx(i), "shape after resize");
            for (int p = 0; p < 2; ++p) for (int q = 0; q < 3; ++q) if (p >= i || huge.h[q] >= n) A.del(p, q);
            MC_CHECK(g.nvals() == Idx(A.nvals()), "count after resize ", g.nvals());
            g.resize(2, huge.N);
            break;
        }
        case 3:
        {   // rebuild from all places, in some order, with a duplicate
            std::vector<Idx> I, J; std::vector<int> V;
            bool down = c.flip();
            for (int p = 0; p < 6; ++p) { int q = down ? 5 - p : p; I.push_back(q / 3); J.push_back(huge.h[q % 3]); V.push_back(7 + q); }
            I.push_back(1); J.push_back(huge.h[1]); V.push_back(100);
            MC_SAY("clear and build");
            g.clear();
            g.build(I, J, V, grb::Plus<int>());
            for (int q = 0; q < 6; ++q) A.set(q / 3, q % 3, 7 + q + (q == 4 ? 100 : 0));
            break;
        }
        case 4: MC_SAY("copy"); { grb::Matrix<int> h(g); MC_CHECK(h == g, "a copy is equal"); g.clear(); g = h; } break;
        case 5: MC_SAY("clear"); g.clear(); for (int q = 0; q < 6; ++q) A.del(q / 3, q % 3); break;
        case 6:
        {   // equality distinguishes places and widths
            grb::Matrix<int> h(2, huge.N), w(2, huge.N - 1);
            int s = c.choose(3);
            for (int q = 0; q < 6; ++q) if (A.e[q / 3][q % 3].has) h.setElement(q / 3, huge.h[(q % 3 + s) % 3], A.e[q / 3][q % 3].v);
            bool same = true;
            for (int q = 0; q < 6; ++q) same = same && A.e[q / 3][q % 3] == A.e[q / 3][(q % 3 + 3 - s) % 3];
            MC_CHECK((h == g) == same && (g == h) == same && (g != h) == !same, "equality with the columns rotated by ", s);
            MC_CHECK(!(w == g) && w != g, "equality with another width");
            break;
        }
        case 7:
        {   // outside the columns
            int t = 0;
            try { g.setElement(0, huge.N, 1); } catch (grb::IndexOutOfBoundsException const &) { t |= 1; }
            try { g.extractElement(0, huge.N); } catch (grb::IndexOutOfBoundsException const &) { t |= 2; } catch (grb::NoValueException const &) {}
            try { g.hasElement(1, huge.N); } catch (grb::IndexOutOfBoundsException const &) { t |= 4; }
            try { g.removeElement(1, huge.N); } catch (grb::IndexOutOfBoundsException const &) { t |= 8; }
            MC_CHECK(t == 15, "an index one past the columns must be refused: ", t);
            break;
        }
        case 8: i = c.choose(2); j = c.choose(3);
            if (A.e[i][j].has) { grb::Matrix<int> h(std::move(g)); g = std::move(h); }
            else
            {
                bool t = false;
                try { g.extractElement(i, huge.h[j]); } catch (grb::NoValueException const &) { t = true; }
                MC_CHECK(t, "an absent element has no value");
            }
            break;
        }
        mc::step();
        expect(g, A, "after the call");
    }
}
MC_SCENARIO(histories, 16) { history(c, mc::thorough ? 3 : 2); }
#endif
