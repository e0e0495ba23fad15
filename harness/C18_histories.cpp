// C18: every sequence of operations over a small pool of objects ends where the
// model ends (latent damage done by one operation shows in a later one).
#define FEWMASKS
#include "../mc/ops.hpp"
#ifndef DEPTH
#define DEPTH 3
#endif
using namespace ref;
struct MMod { using result_type = int; using first_argument_type = int; using second_argument_type = int;
    int operator()(int a, int b) const { return (5 * a + 2 * b + a * b) % 31; } };
struct AMod { using result_type = int; using first_argument_type = int; using second_argument_type = int;
    int operator()(int a, int b) const { return (3 * a + 7 * b + 1) % 31; } };
struct PMod { using result_type = int; int identity() const { return 0; } int operator()(int a, int b) const { return (a + b) % 31; } };
struct SMod { using result_type = int; using first_argument_type = int; using second_argument_type = int;
    int add(int a, int b) const { return (a + b) % 31; } int mult(int a, int b) const { return MMod()(a, b); } int zero() const { return 0; } };
struct UMod { int operator()(int a) const { return (a * 3 + 1) % 31; } };
struct ModDom : IntDom { using SR = SMod; using Bin = MMod; using Un = UMod; using Mon = PMod; };

#ifdef WIDE
static constexpr int N = 4, RR = 2, RC = 4;   // rows that can hold three of four places
#else
static constexpr int N = 2, RR = 2, RC = 3;
#endif
struct World {
    grb::Matrix<int> gA{N, N}, gB{N, N}, gR{RR, RC};
    grb::Vector<int> gu{N}, gv{N};
    Mat<int> A{N, N}, B{N, N}, R{RR, RC};
    Vec<int> u{N}, v{N};
};
using MR = std::pair<grb::Matrix<int> World::*, Mat<int> World::*>;
using VR = std::pair<grb::Vector<int> World::*, Vec<int> World::*>;
static MR const a{&World::gA, &World::A}, b{&World::gB, &World::B}, r{&World::gR, &World::R};
static VR const u{&World::gu, &World::u}, v{&World::gv, &World::v};
static auto const none = nullptr;

struct Act { std::string name; std::function<void(World &)> run; };
static std::vector<Act> &acts() { static std::vector<Act> x; return x; }

template <class OP, class RC, class RM, class RA, class RB>
void add(char const *nm, P p, int mk, bool acc, bool rep, RC C, RM M, RA A, RB B)
{
    acts().push_back({nm, [=](World &w) {
        constexpr bool hm = !std::is_same_v<RM, std::nullptr_t>, ha = !std::is_same_v<RA, std::nullptr_t>, hb = !std::is_same_v<RB, std::nullptr_t>;
        Nothing no;
        auto mdl = [&](auto x) { if constexpr (std::is_same_v<decltype(x), std::nullptr_t>) return Nothing(); else { auto y = w.*(x.second); return y; } };
        auto rl = [&](auto x) -> auto & { if constexpr (std::is_same_v<decltype(x), std::nullptr_t>) return no; else return w.*(x.first); };
        (void)hm; (void)ha; (void)hb;
        auto ma = trm(mdl(A), p.ta);
        auto mb = trm(mdl(B), p.tb);
        auto &E = w.*(C.second);
        auto &gC = w.*(C.first);
        auto go = [&](auto ac) {
            if constexpr (hm)
            {
                auto mm = mdl(M);
                model<OP, ModDom>(p, mk, ac, rep, E, mm, ma, mb);
                exec<OP, ModDom>(p, mk, ac, rep, gC, rl(M), rl(A), rl(B));
            }
            else
            {
                if constexpr (rowcol<OP>) { Vec<bool> mm(4); grb::Vector<bool> gm(4); model<OP, ModDom>(p, mk, ac, rep, E, mm, ma, mb); exec<OP, ModDom>(p, M_NONE, ac, rep, gC, gm, rl(A), rl(B)); }
                else if constexpr (OP::O == 'm') { Mat<bool> mm(E.r, E.c); grb::Matrix<bool> gm(E.r, E.c); model<OP, ModDom>(p, mk, ac, rep, E, mm, ma, mb); exec<OP, ModDom>(p, M_NONE, ac, rep, gC, gm, rl(A), rl(B)); }
                else { Vec<bool> mm(E.n); grb::Vector<bool> gm(E.n); model<OP, ModDom>(p, mk, ac, rep, E, mm, ma, mb); exec<OP, ModDom>(p, M_NONE, ac, rep, gC, gm, rl(A), rl(B)); }
            }
        };
        if (acc) go(AMod()); else go(grb::NoAccumulate());
    }});
}
static P pt(bool ta, bool tb) { P p; p.ta = ta; p.tb = tb; return p; }
static P pi(std::vector<Idx> I, std::vector<Idx> J = {}, Idx k = 0, bool ta = false) { P p; p.I = I; p.J = J; p.k = k; p.ta = ta; return p; }
using A0 = OpApp<'m', 0>; using V2 = OpApp<'v', 2>;

#ifdef WIDE
static void setup()
{
    if (!acts().empty()) return;
    constexpr bool T = true, F = false;
    auto raw = [](char const *n, std::function<void(World &)> f) { acts().push_back({n, f}); };
    raw("A(0,1)=3", [](World &w) { w.gA.setElement(0, 1, 3); w.A.set(0, 1, 3); });
    raw("A(0,2)=0", [](World &w) { w.gA.setElement(0, 2, 0); w.A.set(0, 2, 0); });
    raw("R(0,2)=7", [](World &w) { w.gR.setElement(0, 2, 7); w.R.set(0, 2, 7); });
    raw("u(1)=2", [](World &w) { w.gu.setElement(1, 2); w.u.set(1, 2); });
    raw("A.remove(0,1)", [](World &w) { w.gA.removeElement(0, 1); w.A.del(0, 1); });
    raw("A.remove(0,3)", [](World &w) { w.gA.removeElement(0, 3); w.A.del(0, 3); });
    raw("u.remove(2)", [](World &w) { w.gu.removeElement(2); w.u.del(2); });
    raw("B=A", [](World &w) { w.gB = w.gA; w.B = w.A; });
    raw("v=u", [](World &w) { w.gv = w.gu; w.v = w.u; });
    raw("A.resize there and back", [](World &w) { w.gA.resize(3, 2); w.gA.resize(4, 4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i > 2 || j > 1) w.A.del(i, j); });
    raw("u.resize there and back", [](World &w) { w.gu.resize(2); w.gu.resize(4); w.u.del(2); w.u.del(3); });
    add<OpMxm>("A=A*B", pt(F, F), M_NONE, F, F, a, none, a, b);
    add<OpMxm>("B<A>+=A*B'", pt(F, T), M_VAL, T, F, b, a, a, b);
    add<OpMxm>("A<!s(B),rep>=A'*B", pt(T, F), M_SCOMP, F, T, a, b, a, b);
    add<OpMxm>("R=R*A", pt(F, F), M_NONE, F, F, r, none, r, a);
    add<OpMxv>("u=A*u", pt(F, F), M_NONE, F, F, u, none, a, u);
    add<OpMxv>("v<u>+=A'*v", pt(T, F), M_VAL, T, F, v, u, a, v);
    add<OpVxm>("u<!s(v),rep>=v*B", pt(F, F), M_SCOMP, F, T, u, v, v, b);
    add<OpAddM>("A=A+B", pt(F, F), M_NONE, F, F, a, none, a, b);
    add<OpAddM>("B<A,rep>+=A'+B", pt(T, F), M_VAL, T, T, b, a, a, b);
    add<OpMultM>("B=A.*B", pt(F, F), M_NONE, F, F, b, none, a, b);
    add<OpAddV>("u<v>=u+v", pt(F, F), M_VAL, F, F, u, v, u, v);
    add<OpMultV>("v+=u.*v", pt(F, F), M_NONE, T, F, v, none, u, v);
    add<A0>("A=f(B)", pt(F, F), M_NONE, F, F, a, none, b, none);
    add<A0>("A<B>=f(A')", pt(T, F), M_VAL, F, F, a, b, a, none);
    add<V2>("u=f(v,4)", pt(F, F), M_NONE, F, F, u, none, v, none);
    add<OpRed>("u=reduce A", pt(F, F), M_NONE, F, F, u, none, a, none);
    add<OpTr>("A+=B'", pt(F, F), M_NONE, T, F, a, none, b, none);
    add<OpTr>("B<!s(A),rep>=A'", pt(F, F), M_SCOMP, F, T, b, a, a, none);
    add<OpExtM>("A=A(3021,1302)", pi({3, 0, 2, 1}, {1, 3, 0, 2}), M_NONE, F, F, a, none, a, none);
    add<OpExtM>("R=B(02,0213)", pi({0, 2}, {0, 2, 1, 3}), M_NONE, F, F, r, none, b, none);
    add<OpExtC>("u=A'(:,0)", pi({0, 1, 2, 3}, {}, 0, true), M_NONE, F, F, u, none, a, none);
    add<OpExtV>("v=u(2,0,3,1)", pi({2, 0, 3, 1}), M_NONE, F, F, v, none, u, none);
    add<OpAsgM>("A(01,0213)=R", pi({0, 1}, {0, 2, 1, 3}), M_NONE, F, F, a, none, r, none);
    add<OpAsgM>("A(01,3120)+=R", pi({0, 1}, {3, 1, 2, 0}), M_NONE, T, F, a, none, r, none);
    add<OpAsgV>("u(0,2,1,3)=v", pi({0, 2, 1, 3}), M_NONE, F, F, u, none, v, none);
    add<OpAsgCol>("A(0123,1)=u", pi({0, 1, 2, 3}, {}, 1), M_NONE, F, F, a, none, u, none);
    add<OpAsgRow>("A(0,0123)=u", pi({0, 1, 2, 3}, {}, 0), M_NONE, F, F, a, none, u, none);
    add<OpAsgRow>("R(0,2031)<v>=u", pi({2, 0, 3, 1}, {}, 0), M_VAL, F, F, r, v, u, none);
    add<OpAsgCV>("v<!s(u),rep>(0,3)=4", pi({0, 3}), M_SCOMP, F, T, v, u, none, none);
    add<OpAsgCM>("A<B>(0,0123)=4", pi({0}, {0, 1, 2, 3}), M_VAL, F, F, a, b, none, none);
}
#else
static void setup()
{
    if (!acts().empty()) return;
    constexpr bool T = true, F = false;
    auto raw = [](char const *n, std::function<void(World &)> f) { acts().push_back({n, f}); };
    raw("A(0,1)=3", [](World &w) { w.gA.setElement(0, 1, 3); w.A.set(0, 1, 3); });
    raw("A(1,0)=0", [](World &w) { w.gA.setElement(1, 0, 0); w.A.set(1, 0, 0); });
    raw("B(1,1)=5", [](World &w) { w.gB.setElement(1, 1, 5); w.B.set(1, 1, 5); });
    raw("R(0,2)=7", [](World &w) { w.gR.setElement(0, 2, 7); w.R.set(0, 2, 7); });
    raw("u(1)=2", [](World &w) { w.gu.setElement(1, 2); w.u.set(1, 2); });
    raw("A.remove(0,0)", [](World &w) { w.gA.removeElement(0, 0); w.A.del(0, 0); });
    raw("u.remove(0)", [](World &w) { w.gu.removeElement(0); w.u.del(0); });
    raw("B.clear", [](World &w) { w.gB.clear(); w.B = Mat<int>(2, 2); });
    raw("v.clear", [](World &w) { w.gv.clear(); w.v = Vec<int>(2); });
    raw("B=A", [](World &w) { w.gB = w.gA; w.B = w.A; });
    raw("v=u", [](World &w) { w.gv = w.gu; w.v = w.u; });
    raw("R.resize there and back", [](World &w) { w.gR.resize(1, 2); w.gR.resize(2, 3); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (i > 0 || j > 1) w.R.del(i, j); });
    add<OpMxm>("A=A*B", pt(F, F), M_NONE, F, F, a, none, a, b);
    add<OpMxm>("B<A>+=A*B'", pt(F, T), M_VAL, T, F, b, a, a, b);
    add<OpMxm>("A<!s(B),rep>=A'*B", pt(T, F), M_SCOMP, F, T, a, b, a, b);
    add<OpMxm>("B=A'*A'", pt(T, T), M_NONE, F, F, b, none, a, a);
    add<OpMxm>("R+=A*R", pt(F, F), M_NONE, T, F, r, none, a, r);
    add<OpMxm>("A=R*R'", pt(F, T), M_NONE, F, F, a, none, r, r);
    add<OpMxv>("u=A*u", pt(F, F), M_NONE, F, F, u, none, a, u);
    add<OpMxv>("v<u>+=A'*v", pt(T, F), M_VAL, T, F, v, u, a, v);
    add<OpVxm>("u<!s(v),rep>=v*B", pt(F, F), M_SCOMP, F, T, u, v, v, b);
    add<OpVxm>("v+=u*B'", pt(F, T), M_NONE, T, F, v, none, u, b);
    add<OpAddM>("A=A+B", pt(F, F), M_NONE, F, F, a, none, a, b);
    add<OpAddM>("B<A,rep>+=A'+B", pt(T, F), M_VAL, T, T, b, a, a, b);
    add<OpMultM>("B=A.*B'", pt(F, T), M_NONE, F, F, b, none, a, b);
    add<OpAddV>("u<v>=u+v", pt(F, F), M_VAL, F, F, u, v, u, v);
    add<OpMultV>("v+=u.*v", pt(F, F), M_NONE, T, F, v, none, u, v);
    add<A0>("A<B>=f(A')", pt(T, F), M_VAL, F, F, a, b, a, none);
    add<A0>("R+=f(R)", pt(F, F), M_NONE, T, F, r, none, r, none);
    add<V2>("u=f(v,4)", pt(F, F), M_NONE, F, F, u, none, v, none);
    add<OpRed>("u=reduce A", pt(F, F), M_NONE, F, F, u, none, a, none);
    add<OpRed>("v<u,rep>+=reduce R", pt(F, F), M_VAL, T, T, v, u, r, none);
    add<OpTr>("A+=B'", pt(F, F), M_NONE, T, F, a, none, b, none);
    add<OpTr>("B<!s(A),rep>=A'", pt(F, F), M_SCOMP, F, T, b, a, a, none);
    add<OpExtM>("A=R(10,20)", pi({1, 0}, {2, 0}), M_NONE, F, F, a, none, r, none);
    add<OpExtM>("R<R>+=A'(0,110)", pi({0, 0}, {1, 1, 0}, 0, true), M_VAL, T, F, r, r, a, none);
    add<OpExtC>("u=R(10,2)", pi({1, 0}, {}, 2), M_NONE, F, F, u, none, r, none);
    add<OpExtV>("v<!s(u)>=u(1,0)", pi({1, 0}), M_SCOMP, F, F, v, u, u, none);
    add<OpAsgM>("R(10,20)=A", pi({1, 0}, {2, 0}), M_NONE, F, F, r, none, a, none);
    add<OpAsgM>("R(01,12)+=B'", pi({0, 1}, {1, 2}, 0, true), M_NONE, T, F, r, none, b, none);
    add<OpAsgV>("u<v,rep>(1,0)=v", pi({1, 0}), M_VAL, F, T, u, v, v, none);
    add<OpAsgCol>("R(10,1)=u", pi({1, 0}, {}, 1), M_NONE, F, F, r, none, u, none);
    add<OpAsgRow>("A(1,10)<u,rep>+=v", pi({1, 0}, {}, 1), M_VAL, T, T, a, u, v, none);
    add<OpAsgCV>("v(1)+=4", pi({1}), M_NONE, T, F, v, none, none, none);
    add<OpAsgCM>("R<!s(R)>(10,02)=4", pi({1, 0}, {2, 0}), M_SCOMP, F, F, r, r, none, none);
    add<OpAsgCM>("B<A,rep>(0,01)+=4", pi({0}, {0, 1}), M_VAL, T, T, b, a, none, none);
    raw("A=kron(u-col,v-row) via mxm", [](World &w) {
        // outer product through a diagonal of 1x1 matrices: kronecker on real data
        grb::Matrix<int> x(2, 1), y(1, 2);
        Mat<int> mx(2, 1), my(1, 2);
        for (int i = 0; i < 2; ++i)
        {
            if (w.u.e[i].has) { x.setElement(i, 0, w.gu.extractElement(i)); mx.set(i, 0, w.u.e[i].v); }
            if (w.v.e[i].has) { y.setElement(0, i, w.gv.extractElement(i)); my.set(0, i, w.v.e[i].v); }
        }
        P p;
        grb::Matrix<bool> gm(2, 2); Mat<bool> mm(2, 2);
        model<OpKron, ModDom>(p, M_NONE, AMod(), false, w.A, mm, mx, my);
        exec<OpKron, ModDom>(p, M_NONE, AMod(), false, w.gA, gm, x, y);
    });
}
#endif
static void all_equal(World &w)
{
    expect(w.gA, w.A, "A"); expect(w.gB, w.B, "B"); expect(w.gR, w.R, "R"); expect(w.gu, w.u, "u"); expect(w.gv, w.v, "v");
}
#ifndef WIDE
static void init(World &w, int k)
{
    // 0: everything empty; 1: full; 2: sparse pattern with a stored zero
    for (int i = 0; i < 2; ++i)
    {
        for (int j = 0; j < 2; ++j)
        {
            if (k == 1 || (k == 2 && i != j)) { w.gA.setElement(i, j, 1 + i + 2 * j); w.A.set(i, j, 1 + i + 2 * j); }
            if (k == 1 || (k == 2 && j == 0)) { w.gB.setElement(i, j, 11 + i - j * 2); w.B.set(i, j, 11 + i - j * 2); }
        }
        for (int j = 0; j < 3; ++j)
            if (k == 1 || (k == 2 && (i + j) % 2)) { w.gR.setElement(i, j, 17 + i + 3 * j); w.R.set(i, j, 17 + i + 3 * j); }
        if (k == 1 || (k == 2 && i == 0)) { w.gu.setElement(i, 23 + i); w.u.set(i, 23 + i); }
        if (k == 1 || (k == 2 && i == 1)) { w.gv.setElement(i, k == 2 ? 0 : 29 - i); w.v.set(i, k == 2 ? 0 : 29 - i); }
    }
}
MC_SCENARIO(sequences, 3)
{
    setup();
    World w;
    int k = c.choose(3);
    init(w, k);
    MC_SAY("start ", k, " A=", show(w.A), " B=", show(w.B), " R=", show(w.R), " u=", show(w.u), " v=", show(w.v));
    int n = DEPTH + (mc::thorough ? 1 : 0);
    for (int i = 0; i < n; ++i)
    {
        int x = c.choose(int(acts().size()));
        acts()[x].run(w);
        mc::step();
        MC_SAY("  ", acts()[x].name, "   expected A=", show(w.A), " B=", show(w.B), " R=", show(w.R), " u=", show(w.u), " v=", show(w.v));
        if (i + 1 == n || mc::verbose) all_equal(w);
    }
}
#else
// the first row of A (and, for short sequences, of B) runs through all patterns
static void init(World &w, int pa, int pb)
{
    auto A = [&](int i, int j) { w.gA.setElement(i, j, 1 + i + 2 * j); w.A.set(i, j, 1 + i + 2 * j); };
    auto B = [&](int i, int j) { int v = i == 0 && j == 3 ? 0 : 11 + i + j * 2; w.gB.setElement(i, j, v); w.B.set(i, j, v); };
    auto R = [&](int i, int j) { w.gR.setElement(i, j, 17 + i + 3 * j); w.R.set(i, j, 17 + i + 3 * j); };
    for (int j = 0; j < 4; ++j)
    {
        if (pa >> j & 1) A(0, j);
        if (pb >> j & 1) { B(0, j); w.gu.setElement(j, 23 + j); w.u.set(j, 23 + j); }
        if (j != 1) { A(1, j); R(0, j); w.gv.setElement(j, 29 - j); w.v.set(j, 29 - j); }
        if (j != 2) B(1, j);
        if (j % 2) { A(2, j); R(1, j); B(3, j); }
    }
}
static void seq(mc::Ctx &c, int n, int pa, int pb)
{
    setup();
    World w;
    init(w, pa, pb);
    MC_SAY("start A=", show(w.A), " B=", show(w.B), " R=", show(w.R), " u=", show(w.u), " v=", show(w.v));
    for (int i = 0; i < n; ++i)
    {
        int x = c.choose(int(acts().size()));
        acts()[x].run(w);
        mc::step();
        MC_SAY("  ", acts()[x].name, "   expected A=", show(w.A), " B=", show(w.B), " R=", show(w.R), " u=", show(w.u), " v=", show(w.v));
        if (i + 1 == n || mc::verbose) all_equal(w);
    }
}
MC_SCENARIO(wide3, 2) { int p = c.choose(16), q = c.choose(16); seq(c, 3, p, q); }
MC_SCENARIO(wide4, 2) { int p = c.choose(16); seq(c, mc::thorough ? 4 : 2, p, p == 11 ? 13 : 11); }
#endif
