// C12: the same object in several roles (output, mask, either input, also seen
// through views) gives what distinct copies would give.
#ifndef FULLMASKS
#define FEWMASKS
#endif
#ifdef ALIAS_BIG      // longer objects with structured contents
#define REF_BIG
#endif
#include "../mc/ops.hpp"
#ifndef PART
#define PART 0
#endif
using namespace ref;
struct FMul {
    using first_argument_type = int; using second_argument_type = int; using result_type = double;
    double operator()(int a, int b) const { return 5 * a + 2 * b + a * b + 0.75; }
};
struct FSR {
    using first_argument_type = int; using second_argument_type = int; using result_type = double;
    double add(double a, double b) const { return a + b; }
    double mult(int a, int b) const { return FMul()(a, b); }
    double zero() const { return 0; }
};
struct FAcc {
    using first_argument_type = int; using second_argument_type = double; using result_type = double;
    double operator()(int c, double t) const { return 3 * c - 2 * t + 1; }
};
struct FDom : IntDom { using SR = FSR; using Bin = FMul; };

struct Obj { Mat<int> m{0, 0}; Vec<int> v{0}; };

template <class OP> void alias(mc::Ctx &c, int m, int k, int n)
{
    P    p;
    int  mk = mask_kinds[c.choose(n_mask_kinds)];
    bool acc = c.flip(), rep = c.flip();
#ifdef TA
    if (OP::TRA) p.ta = TA;
    if (OP::TRB) p.tb = TB;
#else
    if (OP::TRA) p.ta = c.flip();
    if (OP::TRB) p.tb = c.flip();
#endif
    Sh s = OP::shape(c, p, m, k, n);
    // roles: 0 output, 1 mask, 2 A, 3 B; physical shapes
    char kind[4] = {OP::O, mk == M_NONE ? 'n' : OP::M, OP::A, OP::B};
    int  R[4] = {s.cr, mask_r<OP>(s), p.ta ? s.ac : s.ar, p.tb ? s.bc : s.br};
    int  C[4] = {s.cc, s.cc, p.ta ? s.ar : s.ac, p.tb ? s.br : s.bc};
    int  cls[4] = {0, 1, 2, 3}, ncls = 0, nroles = 0;
    for (int r = 0; r < 4; ++r)
    {
        if (kind[r] == 'n') continue;
        ++nroles;
        int cand[4], nc = 0;
        cand[nc++] = r;
        for (int q = 0; q < r; ++q)
            if (kind[q] == kind[r] && cls[q] == q && R[q] == R[r] && (kind[r] == 'v' || C[q] == C[r])) cand[nc++] = q;
        cls[r] = cand[c.choose(nc)];
        ncls += cls[r] == r;
    }
    if (ncls == nroles) throw mc::Prune();          // no aliasing: C01..C08
    std::vector<Obj> mo(4);
    int cells = 0;
    for (int r = 0; r < 4; ++r) if (kind[r] != 'n' && cls[r] == r) cells += kind[r] == 'm' ? R[r] * C[r] : R[r];
    for (int r = 0; r < 4; ++r)
    {
        if (kind[r] == 'n' || cls[r] != r) continue;
#ifdef ALIAS_BIG
        int nopt = mc::thorough ? -6 : cells < 800 ? -5 : -3;
#else
        int nopt = cells <= 5 ? 4 : cells <= (mc::thorough ? 9 : 8) ? 3 : cells <= (mc::thorough ? 14 : 12) ? 2 : 0;
#endif
        auto val = [&](int pos, int o) { return o == 1 ? (r == 1 && pos % 2 ? 0 : prime(pos + 5 * r)) : o == 2 ? 0 : -1; };
        if (kind[r] == 'm') mo[r].m = fill(c, Mat<int>(R[r], C[r]), nopt, val);
        else mo[r].v = fill(c, Vec<int>(R[r]), nopt, val);
    }
    auto getm = [&](auto tag, int role) {
        constexpr char K = decltype(tag)::value;
        if constexpr (K == 'm') { Mat<int> x = mo[cls[role]].m; return x; }
        else if constexpr (K == 'v') { Vec<int> x = mo[cls[role]].v; return x; }
        else return Nothing();
    };
    using KO = std::integral_constant<char, OP::O>;
    using KM = std::integral_constant<char, OP::M>;
    using KA = std::integral_constant<char, OP::A>;
    using KB = std::integral_constant<char, OP::B>;
    auto E = getm(KO(), 0);
    auto M = mk == M_NONE ? mk_model<OP::M, int>(R[1], C[1]) : getm(KM(), 1);
    auto A = getm(KA(), 2);
    auto B = getm(KB(), 3);
    auto Al = trm(A, p.ta);
    auto Bl = trm(B, p.tb);
    // the real objects
    std::vector<grb::Matrix<int>> gm;
    std::vector<grb::Vector<int>> gv;
    int at[4] = {-1, -1, -1, -1};
    gm.reserve(5); gv.reserve(5);
    for (int r = 0; r < 4; ++r)
    {
        if (kind[r] == 'n' || cls[r] != r) continue;
        if (kind[r] == 'm') { at[r] = int(gm.size()); gm.push_back(real(mo[r].m)); }
        else { at[r] = int(gv.size()); gv.push_back(real(mo[r].v)); }
    }
    Nothing nothing;
    grb::Matrix<int> dm(1, 1);
    grb::Vector<int> dv(1);
    auto obj = [&](auto tag, int role) -> auto & {
        constexpr char K = decltype(tag)::value;
        int a = kind[role] == 'n' ? -1 : at[cls[role]];
        if constexpr (K == 'm') return a < 0 ? dm : gm[a];
        else if constexpr (K == 'v') return a < 0 ? dv : gv[a];
        else return nothing;
    };
    auto &gC = obj(KO(), 0);
    auto &gM = obj(KM(), 1);
    auto &gA = obj(KA(), 2);
    auto &gB = obj(KB(), 3);
    auto call = [&](auto a) {
        auto before = E;
        model<OP, FDom>(p, mk, a, rep, E, M, Al, Bl);
        MC_SAY(OP::name(), show(p, OP::SEQ), " objects: C=#", cls[0], show(before), " M=#", cls[1], show(M), " A=#", cls[2], show(A), " B=#", cls[3],
               show(B), " mask=", mk_name(mk), " accum=", acc, " replace=", rep, " expected ", show(E));
        exec<OP, FDom>(p, mk, a, rep, gC, gM, gA, gB);
    };
    if (acc) call(FAcc()); else call(grb::NoAccumulate());
    mc::step();
    expect(gC, E, OP::name());
    if (kind[1] != 'n' && cls[1] != 0) expect(gM, M, "mask afterwards");
    if (kind[2] != 'n' && cls[2] != 0) expect(gA, A, "first input afterwards");
    if (kind[3] != 'n' && cls[3] != 0) expect(gB, B, "second input afterwards");
}
#ifdef ALIAS_BIG
#define T(nm, OP, m, k, n) MC_SCENARIO(nm, 9) { static int const SZ[] = {9, 21, 65}; int L = SZ[c.choose(3)]; (void)L; alias<OP>(c, m, k, n); }
#define TV(nm, OP, m, k, n) MC_SCENARIO(nm, 9) { static int const SZ[] = {9, 33, 65, 130, 300, 1100}; int L = SZ[c.choose(6)]; (void)L; alias<OP>(c, m, k, n); }
#define TS(nm, OP, m, k, n) MC_SCENARIO(nm, 9) { static int const SZ[] = {4, 9, 14}; int L = SZ[c.choose(mc::thorough ? 3 : 2)]; (void)L; alias<OP>(c, m, k, n); }
#if PART == 0
T(mxm, OpMxm, L, L, L)
MC_SCENARIO(mxm_rect, 9) { int x = c.choose(2) ? 40 : 9, s = c.choose(2); alias<OpMxm>(c, s ? x : 2, s ? x : 2, s ? 2 : x); }
#elif PART == 1
TV(mxv, OpMxv, L > 130 ? 100 : L, L > 130 ? 100 : L, 1)
TV(vxm, OpVxm, L > 130 ? 100 : L, L > 130 ? 100 : L, 1)
T(red, OpRed, L, L, 1)
T(tr, OpTr, L, 1, L)
T(kron_a, OpKron, SB * L + L, 1, SB + 1)
T(kron_b, OpKron, SB + 1, 1, SB * L + L)
TS(kron_ab, OpKron, SB * L + L, 1, SB * L + L)
#elif PART == 2
T(addm, OpAddM, L, 1, L)
T(addm_w, OpAddM, 2, 1, L * 9)
T(multm, OpMultM, L, 1, L)
T(multm_w, OpMultM, 2, 1, L * 9)
TV(addv, OpAddV, L, 1, 1)
TV(multv, OpMultV, L, 1, 1)
#elif PART == 3
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
using B0 = OpApp<'v', 0>; using B1 = OpApp<'v', 1>; using B2 = OpApp<'v', 2>;
T(am0, A0, L, 1, L)
T(am1, A1, L, 1, L)
T(am2, A2, L, 1, L)
TV(av0, B0, L, 1, 1)
TV(av1, B1, L, 1, 1)
TV(av2, B2, L, 1, 1)
#else
TV(extv, OpExtV, L, L, 1)
TS(extm, OpExtM, L, L, L)
T(extc, OpExtC, L, L, L)
TV(asgv, OpAsgV, L, L, 1)
TV(asgv2, OpAsgV, L, L / 2, 1)
TS(asgm, OpAsgM, L, SB * L + L, L)
TS(asgm1, OpAsgM, L, SB * 2 + L, L)
T(asgcol, OpAsgCol, L, L, 2)
T(asgrow, OpAsgRow, 2, L, L)
TV(asgcv, OpAsgCV, L, L / 2, 1)
TS(asgcm, OpAsgCM, L, SB * 2 + L, L)
#endif
#else
#define T(nm, OP, m, k, n) MC_SCENARIO(nm, 9) { alias<OP>(c, m, k, n); }
#if PART == 0
T(mxm2, OpMxm, 2, 2, 2)
T(mxm1, OpMxm, 1, 1, 1)
MC_SCENARIO(mxm_rect, 9)   // output aliases one input or the mask only
{
    static int const S[][3] = {{1, 2, 2}, {2, 2, 1}, {2, 1, 2}, {1, 1, 2}, {2, 1, 1}, {1, 2, 1}, {1, 3, 3}, {3, 3, 1}, {3, 1, 3}};
    int s = c.choose(9); alias<OpMxm>(c, S[s][0], S[s][1], S[s][2]);
}
MC_SCENARIO(mxm3, 9) { alias<OpMxm>(c, 3, 3, 3); }
#elif PART == 1
T(mxv2, OpMxv, 2, 2, 1)
T(mxv3, OpMxv, 3, 3, 1)
T(vxm2, OpVxm, 2, 2, 1)
T(vxm3, OpVxm, 3, 3, 1)
T(red, OpRed, 2, 2, 1)
T(tr2, OpTr, 2, 1, 2)
T(tr3, OpTr, 3, 1, 3)
T(kron_a, OpKron, 22, 1, 11)
T(kron_b, OpKron, 11, 1, 22)
T(kron_ab, OpKron, 12, 1, 12)
T(kron_ab2, OpKron, 22, 1, 22)
#elif PART == 2
T(addm, OpAddM, 2, 1, 2)
T(addm23, OpAddM, 2, 1, 3)
T(addv, OpAddV, 3, 1, 1)
T(multm, OpMultM, 2, 1, 2)
T(multm23, OpMultM, 2, 1, 3)
T(multv, OpMultV, 3, 1, 1)
#elif PART == 3
using A0 = OpApp<'m', 0>; using A1 = OpApp<'m', 1>; using A2 = OpApp<'m', 2>;
using B0 = OpApp<'v', 0>; using B1 = OpApp<'v', 1>; using B2 = OpApp<'v', 2>;
T(am0, A0, 2, 1, 2)
T(am1, A1, 2, 1, 2)
T(am2, A2, 2, 1, 2)
T(av0, B0, 3, 1, 1)
T(av1, B1, 3, 1, 1)
T(av2, B2, 3, 1, 1)
#else
T(extv, OpExtV, 3, 3, 1)
T(extm, OpExtM, 2, 2, 2)
T(extc, OpExtC, 2, 2, 2)
T(asgv, OpAsgV, 3, 3, 1)
T(asgv2, OpAsgV, 3, 2, 1)
T(asgm, OpAsgM, 2, 22, 2)
T(asgm1, OpAsgM, 2, 12, 2)
T(asgcol, OpAsgCol, 2, 2, 2)
T(asgrow, OpAsgRow, 2, 2, 2)
T(asgcv, OpAsgCV, 3, 2, 1)
T(asgcm, OpAsgCM, 2, 12, 2)
#endif
#endif
